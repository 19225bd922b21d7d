//! C01: the four operations and the reciprocal are correctly rounded.

use super::*;
use crate::gen;
use crate::oracle as or;
use crate::oracle::Ap;
use crate::rng::Rng;
use rug::Integer;

const OPS: [&str; 5] = ["add", "sub", "mul", "div", "reciprocal"];

pub fn arith_exact(op: &str, f: &[Fl], p: usize) -> Ap {
    match op {
        "add" => or::add(&f[0], &f[1], false, p),
        "sub" => or::add(&f[0], &f[1], true, p),
        "mul" => or::mul(&f[0], &f[1]),
        "div" => or::div(&f[0], &f[1], p),
        "reciprocal" => {
            let one = Fl::from_int(&Integer::from(1), 64);
            or::div(&one, &f[0], p)
        }
        "sqrt" => or::sqrt(&f[0], p),
        "cbrt" => or::cbrt(&f[0], p),
        _ => unreachable!("{}", op),
    }
}

pub fn arith_call(op: &str, f: &[Fl], p: usize, rm: u8) -> BigFloat {
    let a = f[0].to_bf();
    let rm = RMS[rm as usize];
    match op {
        "reciprocal" => return a.reciprocal(p, rm),
        "sqrt" => return a.sqrt(p, rm),
        "cbrt" => return a.cbrt(p, rm),
        _ => {}
    }
    let b = f[1].to_bf();
    match op {
        "add" => a.add(&b, p, rm),
        "sub" => a.sub(&b, p, rm),
        "mul" => a.mul(&b, p, rm),
        "div" => a.div(&b, p, rm),
        _ => unreachable!("{}", op),
    }
}

/// Compares `got` with the correctly rounded value of `ap`; rm NONE: error below `ulps` units in the last place.
pub fn check_rounded(got: &BigFloat, ap: &Ap, inexarg: bool, p: usize, rm: u8, ulps: u64, o: CmpOpt) -> Res {
    let p = round_p(p);
    let mut ex = or::round_ap(ap, p, rm);
    let inexact = ex.inex() || !ex.is_fin();
    if inexarg {
        ex.set_inex(true);
    }
    if rm == NONE && !ap.is_zero() && ex.is_fin() {
        repr_ok(got).or_else(|m| fail(m))?;
        let g = Fl::from_bf(got);
        if !g.is_fin() || (g.p() != p) {
            return fail(format!("got {} expected about {}", g.show(), ex.show()));
        }
        if inexact && !g.inex() {
            return fail(format!("unrounded result {} of an inexact operation is marked exact", g.show()));
        }
        let q = if ex.is_zero() { emin() - p as i64 } else { (ex.ne() - p as i64).max(emin() - p as i64) };
        let u = or::err_units(&g, ap, q);
        if u > ulps {
            return fail(format!("unrounded result {} is {} ulp away from {}", g.show(), u, ex.show()));
        }
        return okt(inexact, vec!["none"]);
    }
    expect(got, &ex, o)?;
    let mut tags = vec![];
    if inexact {
        tags.push("inexact");
    }
    if ex.is_zero() {
        tags.push("zero");
    }
    if ex.is_subnormal() {
        tags.push("subnormal");
    }
    if matches!(ex, Fl::Inf { .. }) {
        tags.push("overflow");
    }
    okt(inexact, tags)
}

pub fn valid2(c: &Case, n: usize) -> bool {
    c.f.len() >= n && c.f.iter().all(|x| x.is_fin()) && c.p > 0 && c.rm < 7
}

pub fn check(c: &Case, _ctx: &mut Ctx) -> Res {
    let un = matches!(c.op.as_str(), "reciprocal" | "sqrt" | "cbrt");
    if !valid2(c, if un { 1 } else { 2 }) {
        return Ok(Out::Skip);
    }
    match c.op.as_str() {
        "div" if c.f[1].is_zero() => return Ok(Out::Skip),
        "reciprocal" if c.f[0].is_zero() => return Ok(Out::Skip),
        "sqrt" if c.f[0].neg() || c.f[0].is_zero() => return Ok(Out::Skip),
        "cbrt" if c.f[0].is_zero() => return Ok(Out::Skip),
        _ => {}
    }
    let ap = arith_exact(&c.op, &c.f, round_p(c.p));
    let got = arith_call(&c.op, &c.f, c.p, c.rm);
    let inexarg = c.f.iter().take(if un { 1 } else { 2 }).any(|x| x.inex());
    let o = if matches!(c.op.as_str(), "add" | "sub") { NOZS } else { STRICT };
    check_rounded(&got, &ap, inexarg, c.p, c.rm, 1, o)
}

fn g_pair(r: &mut Rng) -> Case {
    let op = *r.pick(&OPS);
    let a = gen::numz(r, 24, gen::Er::Mid);
    let b = gen::numz(r, 24, gen::Er::Mid);
    Case::new(op).f(a).f(b).p(gen::prec(r, 24)).rm(gen::rm7(r))
}

/// add/sub with exponent distance tied to operand and result lengths
fn g_align(r: &mut Rng) -> Case {
    let op = if r.bool() { "add" } else { "sub" };
    let a = gen::num(r, 10, gen::Er::Small);
    let mut b = gen::num(r, 10, gen::Er::Small);
    let p = gen::prec(r, 10);
    let base = match r.below(5) {
        0 => a.p() as i64,
        1 => round_p(p) as i64,
        2 => a.p() as i64 - b.p() as i64,
        3 => round_p(p) as i64 + 64,
        _ => 64 * r.range(0, 12),
    };
    if let Fl::Fin { e, .. } = &mut b {
        *e = a.e() - base + r.range(-3, 3) * if r.chance(1, 4) { 30 } else { 1 };
    }
    let (a, b) = if r.bool() { (a, b) } else { (b, a) };
    Case::new(op).f(a).f(b).p(p).rm(gen::rm7(r))
}

fn g_near(r: &mut Rng) -> Case {
    let op = *r.pick(&["add", "sub", "sub", "div"]);
    let a = gen::num(r, 10, gen::Er::Small);
    let b = gen::near(r, &a);
    Case::new(op).f(a).f(b).p(gen::prec(r, 10)).rm(gen::rm7(r))
}

/// operands built so that the result is exact, a tie, or next to one
fn g_tie(r: &mut Rng) -> Case {
    let p = gen::prec(r, 8);
    let pp = round_p(p);
    let rm = gen::rm6(r);
    // target value t of pp bits plus a tail
    let t = gen::mant(r, pp / 64);
    let ti = Integer::from_digits(&t, rug::integer::Order::Lsf);
    let ext = *r.pick(&[1u32, 1, 2, 3, 64, 65, 100, 128]);
    let half = Integer::from(1) << (ext - 1);
    let tail = match r.below(6) {
        0 => Integer::new(),
        1 | 2 => half.clone(),
        3 => half.clone() - 1u32,
        4 => if ext > 1 { half.clone() + 1u32 } else { half.clone() },
        _ => Integer::from(1),
    };
    let x = (ti << ext) + tail;
    let neg = r.bool();
    let inex = r.chance(1, 10);
    let mk = |m: &Integer, k: i64, neg: bool| Fl::from_scaled(neg, m, k, 64);
    let mut c = match r.below(4) {
        0 => {
            // add: x = u + v
            let sh = r.us(x.significant_bits() as usize + 60) as u32;
            let v = (Integer::from(r.u64()) << sh) + if r.bool() { Integer::from(r.u64()) } else { Integer::new() };
            let u = Integer::from(&x - &v);
            let un = u.cmp0() == std::cmp::Ordering::Less;
            Case::new("add").f(mk(&u.abs(), 0, un ^ neg)).f(mk(&v, 0, neg))
        }
        1 => {
            let sh = r.us(x.significant_bits() as usize + 60) as u32;
            let v = (Integer::from(r.u64()) << sh) + if r.bool() { Integer::from(r.u64()) } else { Integer::new() };
            let u = Integer::from(&x + &v);
            Case::new("sub").f(mk(&u, 0, neg)).f(mk(&v, 0, neg))
        }
        2 => {
            // mul: x times a small odd number stays a product; or x * power of two
            let d = Integer::from(r.u64() >> r.below(63)) | 1u32;
            if r.bool() {
                let q = Integer::from(&x / &d);
                Case::new("mul").f(mk(&q, 0, neg)).f(mk(&d, r.range(-64, 64), false))
            } else {
                Case::new("mul").f(mk(&x, 0, neg)).f(mk(&Integer::from(1), r.range(-64, 64), r.bool()))
            }
        }
        _ => {
            // div: (x*d + s) / d
            let n = gen::words(r, 6);
            let d = Integer::from_digits(&gen::mant(r, n), rug::integer::Order::Lsf);
            let s = match r.below(4) {
                0 => Integer::from(1),
                1 => Integer::from(-1),
                _ => Integer::new(),
            };
            let u = Integer::from(&x * &d) + s;
            Case::new("div").f(mk(&u, 0, neg)).f(mk(&d, 0, r.bool()))
        }
    };
    if inex {
        c.f[0].set_inex(true);
    }
    let c2 = c.p(p).rm(rm);
    c2
}

/// precision 0 words apart: result much shorter or longer than operands
fn g_mixed(r: &mut Rng) -> Case {
    let op = *r.pick(&OPS);
    let (wa, wb, wp) = match r.below(4) {
        0 => (1, 1 + r.us(40), 1),
        1 => (1 + r.us(40), 1, 1 + r.us(3)),
        2 => (1 + r.us(3), 1 + r.us(3), 1 + r.us(60)),
        _ => (1 + r.us(60), 1 + r.us(60), 1 + r.us(60)),
    };
    let a = gen::num_w(r, wa, gen::Er::Mid);
    let b = gen::num_w(r, wb, gen::Er::Mid);
    Case::new(op).f(a).f(b).p(wp * 64).rm(gen::rm7(r))
}

/// operands far apart in exponent
fn g_far(r: &mut Rng) -> Case {
    let op = *r.pick(&["add", "sub", "mul", "div", "reciprocal"]);
    let mut a = gen::num(r, 6, gen::Er::Small);
    let mut b = gen::num(r, 6, gen::Er::Small);
    let d = match r.below(4) {
        0 => r.range(0, emax() / 2),
        1 => r.range(0, 1 << 20),
        2 => r.range(0, 5000),
        _ => r.range(500_000_000, 1_000_000_000),
    };
    if let Fl::Fin { e, .. } = &mut a {
        *e += d;
    }
    if let Fl::Fin { e, .. } = &mut b {
        *e -= d;
    }
    let (a, b) = if r.bool() { (a, b) } else { (b, a) };
    Case::new(op).f(a).f(b).p(gen::prec(r, 6)).rm(gen::rm7(r))
}

pub fn c01() -> Prop {
    Prop {
        id: "C01",
        rule: "the exact result is not representable in the target precision, so the rounding mode decides the value and the flag",
        assumptions: &[
            "GMP integer arithmetic is right",
            "operands stay away from the exponent limits here (C09 covers the limits)",
        ],
        check,
        canon: vec![],
        streams: vec![
            Stream { name: "pair", quick: 8_000_000, thorough: 100_000_000, chunk: 4000, gen: g_pair },
            Stream { name: "align", quick: 8_000_000, thorough: 100_000_000, chunk: 4000, gen: g_align },
            Stream { name: "near", quick: 5_000_000, thorough: 80_000_000, chunk: 4000, gen: g_near },
            Stream { name: "tie", quick: 12_000_000, thorough: 150_000_000, chunk: 4000, gen: g_tie },
            Stream { name: "mixed", quick: 2_000_000, thorough: 30_000_000, chunk: 4000, gen: g_mixed },
            Stream { name: "far", quick: 2_000_000, thorough: 30_000_000, chunk: 4000, gen: g_far },
            Stream { name: "long", quick: 400000, thorough: 10000000, chunk: 100, gen: |r| {
                let g = *r.pick(&[g_pair as fn(&mut Rng) -> Case, g_align, g_near, g_tie, g_far]);
                gen::longer(r, 40, g)
            } },
        ],
    }
}
