//! C02: full-precision operations and the remainder are exact. C23: long operands.

use super::*;
use super::arith::{arith_call, arith_exact, check_rounded, valid2};
use crate::gen;
use crate::oracle as or;
use crate::oracle::Ap;
use crate::rng::Rng;
use rug::Integer;

/// same value as `ap` (which is exact); zero sign only when asked
pub fn same_value(got: &Fl, ap: &Ap, zero_sign: bool) -> bool {
    if !got.is_fin() {
        return false;
    }
    let (m, k) = got.mk();
    if ap.m == 0 {
        return m == 0 && (!zero_sign || got.neg() == ap.neg);
    }
    if m == 0 {
        return false;
    }
    let tz = ap.m.find_one(0).unwrap();
    m == Integer::from(&ap.m >> tz) && k == ap.k + tz as i64 && got.neg() == ap.neg
}

fn top(ap: &Ap) -> i64 {
    ap.m.significant_bits() as i64 + ap.k
}

pub fn check(c: &Case, _ctx: &mut Ctx) -> Res {
    if c.f.len() < 2 || !c.f[..2].iter().all(|x| x.is_fin()) {
        return Ok(Out::Skip);
    }
    let (x, y) = (&c.f[0], &c.f[1]);
    let (a, b) = (x.to_bf(), y.to_bf());
    let inexarg = x.inex() || y.inex();
    let far = (x.e() - y.e()).abs() > 1 << 23;
    let (got, ap, zs) = match c.op.as_str() {
        "add" | "sub" => {
            if far && !x.is_zero() && !y.is_zero() {
                return Ok(Out::Skip); // memory
            }
            let sub = c.op == "sub";
            let ap = or::add(x, y, sub, 1 << 24);
            if ap.sticky {
                return Ok(Out::Skip);
            }
            (if sub { a.sub_full_prec(&b) } else { a.add_full_prec(&b) }, ap, false)
        }
        "mul" => (a.mul_full_prec(&b), or::mul(x, y), true),
        "rem" => {
            if y.is_zero() {
                return Ok(Out::Skip);
            }
            (a.rem(&b), or::rem(x, y), true)
        }
        _ => return Ok(Out::Skip),
    };
    repr_ok(&got).or_else(|m| fail(m))?;
    let g = Fl::from_bf(&got);
    if ap.m != 0 && top(&ap) > emax() {
        return if g == (Fl::Inf { neg: ap.neg }) { okt(true, vec!["overflow"]) } else { fail(format!("got {} expected overflow", g.show())) };
    }
    if !g.is_fin() {
        return fail(format!("got {} (err {})", g.show(), err_name(got.err())));
    }
    if same_value(&g, &ap, zs) {
        if g.inex() != inexarg {
            return fail(format!("exact result {} has exactness mark {}", g.show(), g.inex()));
        }
        let mut tags = vec![];
        if g.is_subnormal() {
            tags.push("subnormal");
        }
        if g.is_zero() {
            tags.push("zero");
        }
        return okt(!g.is_zero() && (c.op != "rem" || x.ne() >= y.ne()), tags);
    }
    // only a product can be too small to be represented in the length of its factors
    if c.op == "mul" && top(&ap) < emin() {
        if !g.inex() {
            return fail(format!("underflowed product {} is marked exact", g.show()));
        }
        if got.sign().map(|s| s.is_negative()) != Some(ap.neg) || !(g.is_zero() || g.e() == emin()) {
            return fail(format!("underflowed product {}", g.show()));
        }
        let q = emin() - g.p() as i64;
        if or::err_units(&g, &ap, q) > 1 || (g.p() == 0 && x.p() + y.p() > 0) {
            return fail(format!("underflowed product {} is too far off", g.show()));
        }
        return okt(true, vec!["underflow"]);
    }
    fail(format!("got {} expected {}{:x}*2^{}", g.show(), if ap.neg { "-" } else { "" }, ap.m, ap.k))
}

fn full(r: &mut Rng) -> &'static str {
    *r.pick(&["add", "sub", "mul"])
}

fn g_full(r: &mut Rng) -> Case {
    let op = full(r);
    Case::new(op).f(gen::numz(r, 16, gen::Er::Mid)).f(gen::numz(r, 16, gen::Er::Mid))
}
fn g_near(r: &mut Rng) -> Case {
    let a = gen::num(r, 12, gen::Er::Small);
    let b = gen::near(r, &a);
    let (a, b) = if r.bool() { (a, b) } else { (b, a) };
    Case::new(*r.pick(&["sub", "add", "rem"])).f(a).f(b)
}
/// both operands at the same end of the exponent range
fn g_limit(r: &mut Rng) -> Case {
    let er = *r.pick(&[gen::Er::Low, gen::Er::Low, gen::Er::High]);
    let a = gen::numz(r, 8, er);
    let b = if r.chance(1, 3) { gen::near(r, &a) } else { gen::numz(r, 8, er) };
    Case::new(*r.pick(&["sub", "add", "rem"])).f(a).f(b)
}
fn g_mul_limit(r: &mut Rng) -> Case {
    let a = gen::num(r, 8, gen::Er::Any);
    let mut b = gen::num(r, 8, gen::Er::Small);
    let lim = if r.bool() { emin() } else { emax() };
    let e = lim - a.ne() + r.range(-130, 130);
    if let Fl::Fin { e: be, .. } = &mut b {
        *be = e.clamp(emin(), emax());
    }
    Case::new("mul").f(a).f(b)
}
fn g_rem(r: &mut Rng) -> Case {
    let a = gen::numz(r, 16, gen::Er::Mid);
    let b = gen::num(r, 16, gen::Er::Mid);
    Case::new("rem").f(a).f(b)
}
/// dividend = q * divisor + small
fn g_rem_built(r: &mut Rng) -> Case {
    let n = gen::words(r, 8);
    let d = Integer::from_digits(&gen::mant(r, n), rug::integer::Order::Lsf) >> r.below(64) as u32;
    let n = gen::words(r, 8);
    let q = Integer::from_digits(&gen::mant(r, n), rug::integer::Order::Lsf);
    let t: Integer = match r.below(6) {
        0 => Integer::new(),
        1 => Integer::from(1),
        2 => Integer::from(-1),
        3 => Integer::from(&d - 1u32),
        4 => Integer::from(&d >> 1),
        _ => Integer::from(&d >> r.below(d.significant_bits() as u64 + 1) as u32),
    };
    let a = Integer::from(&d * &q) + t;
    let k = r.range(-200, 200);
    let (na, nb) = (r.bool(), r.bool());
    let mut x = Fl::from_scaled(na, &a, k, 64 * gen::words(r, 4));
    let y = Fl::from_scaled(nb, &d, k, 64 * gen::words(r, 4));
    x.set_inex(r.chance(1, 10));
    if y.is_zero() {
        return g_rem(r);
    }
    Case::new("rem").f(x).f(y)
}
/// exponents far apart
fn g_rem_far(r: &mut Rng) -> Case {
    let mut a = gen::num(r, 6, gen::Er::Any);
    let b = gen::num(r, 6, gen::Er::Any);
    if r.chance(1, 2) {
        let d = match r.below(3) {
            0 => r.range(0, 700),
            1 => 64 * r.range(0, 30) + r.range(-2, 2),
            _ => r.range(0, 1 << 20),
        };
        if let Fl::Fin { e, w, .. } = &mut a {
            if b.e() + d <= emax() && b.e() + d > emin() && bitlen(w) == w.len() * 64 {
                *e = b.e() + d;
            }
        }
    }
    Case::new("rem").f(a).f(b)
}

pub fn c02() -> Prop {
    Prop {
        id: "C02",
        rule: "the exact result is not zero; for a remainder the dividend is at least of the divisor's magnitude",
        assumptions: &[
            "GMP integer arithmetic is right",
            "exponent distance of full-precision sums at most 2^23 (memory)",
            "a full-precision product below the smallest normal number may be rounded, then it must be marked inexact and be within one unit of its precision",
        ],
        check,
        canon: vec![],
        streams: vec![
            Stream { name: "full", quick: 6_000_000, thorough: 80_000_000, chunk: 4000, gen: g_full },
            Stream { name: "near", quick: 6_000_000, thorough: 80_000_000, chunk: 4000, gen: g_near },
            Stream { name: "limit", quick: 6_000_000, thorough: 80_000_000, chunk: 4000, gen: g_limit },
            Stream { name: "mul_limit", quick: 3_000_000, thorough: 40_000_000, chunk: 4000, gen: g_mul_limit },
            Stream { name: "rem", quick: 3_000_000, thorough: 40_000_000, chunk: 4000, gen: g_rem },
            Stream { name: "rem_built", quick: 4_000_000, thorough: 60_000_000, chunk: 4000, gen: g_rem_built },
            Stream { name: "rem_far", quick: 800_000, thorough: 12_000_000, chunk: 1000, gen: g_rem_far },
            Stream { name: "long", quick: 400000, thorough: 10000000, chunk: 100, gen: |r| {
                let g = *r.pick(&[g_full as fn(&mut Rng) -> Case, g_near, g_limit, g_mul_limit, g_rem, g_rem_built]);
                gen::longer(r, 40, g)
            } },
        ],
    }
}

// ---------- C23 ----------

pub fn check_long(c: &Case, ctx: &mut Ctx) -> Res {
    match c.op.as_str() {
        "mulfull" => {
            let d = Case { op: "mul".into(), ..c.clone() };
            check(&d, ctx)
        }
        "rem" => check(c, ctx),
        "cbrt" => {
            if !valid2(c, 1) || c.f[0].is_zero() {
                return Ok(Out::Skip);
            }
            let got = c.f[0].to_bf().cbrt(c.p, RMS[c.rm as usize]);
            check_rounded(&got, &or::cbrt(&c.f[0], round_p(c.p)), c.f[0].inex(), c.p, c.rm, 1, STRICT)
        }
        "sqr" => {
            // the same object for both factors
            if !valid2(c, 1) {
                return Ok(Out::Skip);
            }
            let b = c.f[0].to_bf();
            let got = b.mul(&b, c.p, RMS[c.rm as usize]);
            check_rounded(&got, &or::mul(&c.f[0], &c.f[0]), c.f[0].inex(), c.p, c.rm, 1, STRICT)
        }
        "mul" | "div" | "sqrt" | "reciprocal" => {
            if !valid2(c, if matches!(c.op.as_str(), "mul" | "div") { 2 } else { 1 }) {
                return Ok(Out::Skip);
            }
            if c.op == "sqrt" && (c.f[0].neg() || c.f[0].is_zero()) || c.op == "reciprocal" && c.f[0].is_zero() || c.op == "div" && c.f[1].is_zero() {
                return Ok(Out::Skip);
            }
            let ap = arith_exact(&c.op, &c.f, round_p(c.p));
            let got = arith_call(&c.op, &c.f, c.p, c.rm);
            let n = if matches!(c.op.as_str(), "mul" | "div") { 2 } else { 1 };
            check_rounded(&got, &ap, c.f.iter().take(n).any(|x| x.inex()), c.p, c.rm, 1, STRICT)
        }
        _ => Ok(Out::Skip),
    }
}

/// lengths around the method switches
fn len(r: &mut Rng, max: usize) -> usize {
    let base = *r.pick(&[1usize, 2, 16, 32, 33, 64, 66, 70, 71, 96, 99, 128, 140, 141, 220, 221, 256, 300, 440, 442, 512, 660, 663, 1000, 1024, 1500, 2048, 3000, 4096, 5400, 5401, 5500, 6000, 8192, 10800, 11000, 12000]);
    let n = match r.below(4) {
        0 => base,
        1 => (base as i64 + r.range(-3, 3)).max(1) as usize,
        2 => 1 + r.us(base),
        _ => base + r.us(8),
    };
    if n > max {
        1 + r.us(max)
    } else {
        n
    }
}

/// long mantissas: blocks of zero, ones, equal blocks, extreme block ends
pub fn lmant(r: &mut Rng, n: usize) -> Vec<u64> {
    let mut w = vec![0u64; n];
    match r.below(9) {
        0 => w.iter_mut().for_each(|x| *x = u64::MAX),
        1 => {
            // thirds or halves made of uniform words
            let parts = 2 + r.us(4);
            let l = n / parts + 1;
            for b in 0..parts {
                let v = match r.below(5) {
                    0 => 0,
                    1 => u64::MAX,
                    2 => 1,
                    3 => 1 << 63,
                    _ => r.u64(),
                };
                for x in w.iter_mut().skip(b * l).take(l) {
                    *x = v;
                }
            }
        }
        2 => {
            // parts with only their lowest or highest word set
            let parts = 2 + r.us(5);
            let l = n / parts + 1;
            for b in 0..parts {
                let i = b * l + if r.bool() { 0 } else { l - 1 };
                if i < n {
                    w[i] = if r.bool() { u64::MAX } else { r.u64() };
                }
            }
        }
        3 => {
            // equal blocks
            let l = 1 + n / (2 + r.us(3));
            let blk: Vec<u64> = (0..l).map(|_| r.u64()).collect();
            for (i, x) in w.iter_mut().enumerate() {
                *x = blk[i % l];
            }
        }
        4 => return gen::mant(r, n),
        5 => {
            // random with long runs of ones or zeros in the middle
            w.iter_mut().for_each(|x| *x = r.u64());
            for _ in 0..1 + r.us(3) {
                let a = r.us(n);
                let b = a + r.us(n - a + 1);
                let v = if r.bool() { 0 } else { u64::MAX };
                w[a..b].iter_mut().for_each(|x| *x = v);
            }
        }
        6 => {
            // every word is near the largest
            w.iter_mut().for_each(|x| *x = u64::MAX - r.below(3));
        }
        _ => w.iter_mut().for_each(|x| *x = r.u64()),
    }
    w[n - 1] |= 1 << 63;
    w
}

fn lnum(r: &mut Rng, n: usize) -> Fl {
    Fl::Fin { neg: r.bool(), e: r.range(-100, 100), w: lmant(r, n), inex: r.chance(1, 16) }
}

fn pair(r: &mut Rng, max: usize) -> (usize, usize) {
    let a = len(r, max);
    let b = match r.below(5) {
        0 => a,
        1 => len(r, max),
        2 => (a / 2 + r.us(3)).max(1),
        3 => (a / (1 + r.us(8))).max(1),
        _ => (a + r.us(a / 4 + 2)).min(max),
    };
    if r.bool() { (a, b) } else { (b, a) }
}

fn lmul(r: &mut Rng, max: usize) -> Case {
    let (a, b) = pair(r, max);
    let (x, y) = (lnum(r, a), lnum(r, b));
    match r.below(4) {
        0 => {
            let p = 64 * match r.below(3) {
                0 => a + b,
                1 => a.max(b),
                _ => 1 + r.us(a + b),
            };
            Case::new("mul").f(x).f(y).p(p).rm(gen::rm6(r))
        }
        1 => {
            let p = 64 * (1 + r.us(2 * a));
            Case::new("sqr").f(x).p(p).rm(gen::rm6(r))
        }
        _ => Case::new("mulfull").f(x).f(y),
    }
}
fn g_lmul(r: &mut Rng) -> Case {
    lmul(r, 700)
}
fn g_hmul(r: &mut Rng) -> Case {
    lmul(r, 4500)
}
fn g_vmul(r: &mut Rng) -> Case {
    // both long: the transform
    let a = 5400 + r.us(2500);
    let b = match r.below(4) {
        0 => a,
        1 => 5401 + r.us(3),
        2 => 2750 + r.us(6000),
        _ => 221 + r.us(9000),
    };
    Case::new("mulfull").f(lnum(r, a)).f(lnum(r, b))
}

fn ldiv(r: &mut Rng, max: usize) -> Case {
    let (a, b) = pair(r, max);
    let rm = gen::rm6(r);
    if r.chance(1, 3) {
        // quotient with a zero or all-ones block, remainder at the ends
        let d = Integer::from_digits(&lmant(r, b), rug::integer::Order::Lsf);
        let qn = len(r, max);
        let q = Integer::from_digits(&lmant(r, qn), rug::integer::Order::Lsf);
        let t = match r.below(4) {
            0 => Integer::new(),
            1 => Integer::from(-1),
            2 => Integer::from(1),
            _ => Integer::from(&d - 1u32),
        };
        let x = Integer::from(&d * &q) + t;
        let p = 64 * match r.below(3) {
            0 => qn,
            1 => qn + r.us(3),
            _ => 1 + r.us(max),
        };
        let op = if r.chance(1, 3) { "rem" } else { "div" };
        return Case::new(op).f(Fl::from_scaled(r.bool(), &x, 0, 64)).f(Fl::from_scaled(r.bool(), &d, 0, 64)).p(p).rm(rm);
    }
    let (x, y) = (lnum(r, a), lnum(r, b));
    let p = 64 * match r.below(4) {
        0 => a.max(b),
        1 => a.saturating_sub(b).max(1),
        2 => len(r, max),
        _ => 1 + r.us(max),
    };
    match r.below(6) {
        0 => Case::new("rem").f(x).f(y),
        1 => Case::new("reciprocal").f(x).p(p).rm(rm),
        _ => Case::new("div").f(x).f(y).p(p).rm(rm),
    }
}
fn g_ldiv(r: &mut Rng) -> Case {
    ldiv(r, 400)
}
fn g_hdiv(r: &mut Rng) -> Case {
    ldiv(r, 3000)
}
fn g_lroot(r: &mut Rng) -> Case {
    let mx = if r.chance(1, 8) { 700 } else { 160 };
    let a = len(r, mx);
    let p = 64 * len(r, mx);
    let rm = gen::rm6(r);
    if r.chance(1, 3) {
        // perfect powers and their neighbours
        let n = len(r, mx / 2);
        let s = Integer::from_digits(&lmant(r, n), rug::integer::Order::Lsf);
        let cb = r.bool();
        let mut x = if cb { Integer::from(&s * &s) * &s } else { Integer::from(&s * &s) };
        x += *r.pick(&[0i32, 0, 1, -1]);
        let p = 64 * (n + r.us(3));
        return Case::new(if cb { "cbrt" } else { "sqrt" }).f(Fl::from_scaled(cb && r.bool(), &x, 6 * r.range(-20, 20), 64)).p(p).rm(rm);
    }
    let mut x = lnum(r, a);
    let op = if r.chance(1, 3) { "cbrt" } else { "sqrt" };
    if op == "sqrt" {
        x.set_neg(false);
    }
    Case::new(op).f(x).p(p).rm(rm)
}

pub fn c23() -> Prop {
    Prop {
        id: "C23",
        rule: "as for the operation in C01, C02 and C03",
        assumptions: &["GMP integer arithmetic is right"],
        check: check_long,
        canon: vec![],
        streams: vec![
            Stream { name: "mul", quick: 600_000, thorough: 12_000_000, chunk: 200, gen: g_lmul },
            Stream { name: "mul_huge", quick: 20_000, thorough: 400_000, chunk: 20, gen: g_hmul },
            Stream { name: "mul_fft", quick: 3_000, thorough: 50_000, chunk: 5, gen: g_vmul },
            Stream { name: "div", quick: 500_000, thorough: 10_000_000, chunk: 200, gen: g_ldiv },
            Stream { name: "div_huge", quick: 16_000, thorough: 300_000, chunk: 20, gen: g_hdiv },
            Stream { name: "root", quick: 2_000, thorough: 100_000, chunk: 40, gen: g_lroot },
        ],
    }
}
