//! C09: gradual underflow and overflow at the ends of the exponent range.

use super::arith::check;
use super::*;
use crate::gen;
use crate::gen::Er;
use crate::rng::Rng;
use rug::integer::Order;
use rug::Integer;

fn with_e(mut x: Fl, ne: i64) -> Fl {
    if let Fl::Fin { e, .. } = &mut x {
        *e = ne.clamp(emin(), emax());
    }
    x
}

/// value m * 2^(emin() - bits) as a (sub)normal number of `words` words; m must fit
fn sub_of(neg: bool, m: &Integer, words: usize) -> Fl {
    let nb = m.significant_bits() as usize;
    let n = words.max((nb + 63) / 64).max(1);
    assert!(nb <= words * 64);
    let mut w = m.to_digits::<u64>(Order::Lsf);
    w.resize(n, 0);
    if nb == 0 {
        return Fl::zero(n * 64, neg);
    }
    Fl::Fin { neg, e: emin(), w, inex: false }
}

fn num_plain(r: &mut Rng, maxw: usize) -> Fl {
    gen::num(r, maxw, Er::Small)
}

fn g_low(r: &mut Rng) -> Case {
    let p = gen::prec(r, 6);
    let rm = gen::rm7(r);
    let pp = round_p(p) as i64;
    let d = match r.below(5) {
        0 => r.range(-2, 2),
        1 => -pp + r.range(-3, 3),
        2 => r.range(-pp - 130, 5),
        3 => r.range(-64, 64),
        _ => r.range(-pp, 0),
    };
    match r.below(6) {
        0 | 1 => {
            let op = if r.bool() { "add" } else { "sub" };
            let a = gen::num(r, 6, Er::Low);
            let b = if r.chance(1, 3) { gen::near(r, &a) } else { gen::num(r, 6, Er::Low) };
            Case::new(op).f(a).f(b).p(p).rm(rm)
        }
        2 | 3 => {
            // mul
            let a = num_plain(r, 6);
            let b = num_plain(r, 6);
            let e1 = match r.below(3) {
                0 => r.range(emin(), 0),
                1 => emin() / 2 + r.range(-10, 10),
                _ => r.range(-200, 0),
            };
            let (a, b) = if r.chance(1, 5) {
                let n = gen::words(r, 6);
                let s = gen::subnormal(r, n);
                let e = d - s.ne() + emin();
                (s, with_e(b, e.max(-300)))
            } else {
                (with_e(a, e1), with_e(b, emin() + d - e1))
            };
            let (a, b) = if r.bool() { (a, b) } else { (b, a) };
            Case::new("mul").f(a).f(b).p(p).rm(rm)
        }
        4 => {
            // div
            let a = num_plain(r, 6);
            let b = num_plain(r, 6);
            let e2 = match r.below(3) {
                0 => r.range(0, emax()),
                1 => emax() / 2 + r.range(-10, 10),
                _ => r.range(0, 200),
            };
            let (a, b) = if r.chance(1, 5) {
                let n = gen::words(r, 6);
                (gen::subnormal(r, n), with_e(b, r.range(-100, 100)))
            } else {
                (with_e(a, emin() + d + e2), with_e(b, e2))
            };
            Case::new("div").f(a).f(b).p(p).rm(rm)
        }
        _ => {
            // div by a subnormal, tiny over tiny
            let n = gen::words(r, 6);
            let s = gen::subnormal(r, n);
            let a = gen::num(r, 6, Er::Low);
            if r.bool() {
                Case::new("div").f(a).f(s).p(p).rm(rm)
            } else {
                Case::new("div").f(s).f(a).p(p).rm(rm)
            }
        }
    }
}

/// exact results, ties and their neighbours between multiples of the smallest positive number
fn g_low_tie(r: &mut Rng) -> Case {
    let p = gen::prec(r, 4);
    let pp = round_p(p);
    let rm = gen::rm6(r);
    // t < 2^pp : target multiple
    let t = match r.below(5) {
        0 => Integer::from(r.below(4)),
        1 => Integer::from_digits(&gen::mant(r, pp / 64), Order::Lsf),
        2 => (Integer::from(1) << pp as u32) - 1u32,
        3 => (Integer::from(1) << (pp as u32 - 1)) - 1u32,
        _ => Integer::from_digits(&gen::mant(r, pp / 64), Order::Lsf) >> r.us(pp) as u32,
    };
    let ext = *r.pick(&[1u32, 1, 2, 3, 10, 63, 64, 65, 128]);
    let half = Integer::from(1) << (ext - 1);
    let tail = match r.below(6) {
        0 => Integer::new(),
        1 | 2 => half.clone(),
        3 => half.clone() - 1u32,
        4 => if ext > 1 { half.clone() + 1u32 } else { half.clone() },
        _ => Integer::from(1),
    };
    let x = (t << ext) + tail; // value x * 2^(emin() - pp - ext)
    if x == 0 {
        return g_low(r);
    }
    let neg = r.bool();
    let k = emin() - pp as i64 - ext as i64;
    let nb = x.significant_bits() as i64;
    match r.below(4) {
        0 => {
            // x * 2^k = (x * 2^j) * 2^(k - j)
            let j = match r.below(3) {
                0 => r.range(-nb - 100, 0),
                1 => r.range(emin() / 2 - 100, emin() / 2 + 100),
                _ => r.range(emin() + 2, -nb - 2),
            };
            let k2 = (k - j).clamp(emin(), emax() - 2);
            let k1 = k - k2;
            if k1 + nb < emin() || k1 + nb > emax() {
                return g_low(r);
            }
            let a = Fl::from_scaled(neg, &x, k1, 64);
            let b = Fl::from_scaled(r.bool(), &Integer::from(1), k2, 64 * gen::words(r, 3));
            let (a, b) = if r.bool() { (a, b) } else { (b, a) };
            Case::new("mul").f(a).f(b).p(p).rm(rm)
        }
        1 => {
            // (x * d + s) * 2^k1 / (d * 2^k2)
            let n = gen::words(r, 3);
            let d = Integer::from_digits(&gen::mant(r, n), Order::Lsf);
            let s: i32 = match r.below(4) {
                0 => 1,
                1 => -1,
                _ => 0,
            };
            let u: Integer = Integer::from(&x * &d) + s;
            let ub = u.significant_bits() as i64;
            let k1 = match r.below(2) {
                0 => r.range(-ub - 100, 0),
                _ => r.range(emin() + 2, -ub - 2),
            };
            let k2 = k1 - k;
            if k2 + d.significant_bits() as i64 > emax() || k2 + (d.significant_bits() as i64) < emin() {
                return g_low(r);
            }
            let a = Fl::from_scaled(neg, &u, k1, 64);
            let b = Fl::from_scaled(r.bool(), &d, k2, 64);
            Case::new("div").f(a).f(b).p(p).rm(rm)
        }
        _ => {
            // u + v = x in units 2^(emin() - P), P = pp + ext rounded up to words
            let words = (pp + ext as usize + 63) / 64;
            let up = (words * 64 - pp - ext as usize) as u32;
            let x = x << up;
            if x.significant_bits() as usize > words * 64 {
                return g_low(r);
            }
            let v = Integer::from(r.u64()) << r.us(words * 64 - 64 + 1) as u32;
            if r.bool() {
                let u = Integer::from(&x - &v);
                let un = u.cmp0() == std::cmp::Ordering::Less;
                Case::new("add").f(sub_of(neg ^ un, &u.abs(), words)).f(sub_of(neg, &v, words)).p(p).rm(rm)
            } else {
                let u = Integer::from(&x + &v);
                let w2 = if u.significant_bits() as usize > words * 64 { words + 1 } else { words };
                if w2 != words {
                    return g_low(r);
                }
                Case::new("sub").f(sub_of(neg, &u, words)).f(sub_of(neg, &v, words)).p(p).rm(rm)
            }
        }
    }
}

fn g_high(r: &mut Rng) -> Case {
    let p = gen::prec(r, 6);
    let rm = gen::rm7(r);
    let d = match r.below(3) {
        0 => r.range(-1, 2),
        1 => r.range(-3, 70),
        _ => r.range(-1, 1),
    };
    match r.below(5) {
        0 | 1 => {
            let op = if r.bool() { "add" } else { "sub" };
            let a = with_e(num_plain(r, 6), emax() - r.range(0, 2));
            let b = if r.chance(1, 3) { gen::near(r, &a) } else { with_e(num_plain(r, 6), emax() - if r.bool() { r.range(0, 2) } else { r.range(0, 400) }) };
            Case::new(op).f(a).f(b).p(p).rm(rm)
        }
        2 => {
            let e1 = match r.below(3) {
                0 => r.range(0, emax()),
                1 => emax() / 2 + r.range(-10, 10),
                _ => r.range(0, 200),
            };
            let a = with_e(num_plain(r, 6), e1);
            let b = with_e(num_plain(r, 6), emax() + d - e1);
            Case::new("mul").f(a).f(b).p(p).rm(rm)
        }
        3 => {
            let e2 = match r.below(3) {
                0 => r.range(emin(), 0),
                1 => emin() / 2 + r.range(-10, 10),
                _ => r.range(-200, 0),
            };
            let a = with_e(num_plain(r, 6), emax() + d + e2);
            let b = if r.chance(1, 6) {
                let n = gen::words(r, 4);
                gen::subnormal(r, n)
            } else {
                with_e(num_plain(r, 6), e2)
            };
            Case::new("div").f(a).f(b).p(p).rm(rm)
        }
        _ => {
            let n = gen::words(r, 6);
            let a = match r.below(4) {
                0 => gen::subnormal(r, n),
                1 => gen::num(r, 6, Er::Low),
                2 => with_e(gen::one(r, 4), emin() + r.range(0, 3)),
                _ => gen::num(r, 6, Er::High),
            };
            Case::new("reciprocal").f(a).p(p).rm(rm)
        }
    }
}

/// around the largest number and half a unit above it
fn g_high_tie(r: &mut Rng) -> Case {
    let p = gen::prec(r, 4);
    let pp = round_p(p);
    let rm = gen::rm6(r);
    let mut t = (Integer::from(1) << pp as u32) - 1u32;
    if r.chance(1, 3) {
        t -= r.below(3) as u32;
    }
    let ext = *r.pick(&[1u32, 1, 2, 3, 10, 63, 64, 65, 128]);
    let half = Integer::from(1) << (ext - 1);
    let tail = match r.below(6) {
        0 => Integer::new(),
        1 | 2 => half.clone(),
        3 => half.clone() - 1u32,
        4 => if ext > 1 { half.clone() + 1u32 } else { half.clone() },
        _ => Integer::from(1),
    };
    let x = (t << ext) + tail;
    let neg = r.bool();
    let k = emax() - pp as i64 - ext as i64;
    let nb = x.significant_bits() as i64;
    match r.below(3) {
        0 => {
            let k2 = match r.below(3) {
                0 => r.range(0, 100),
                1 => r.range(0, emax() / 2),
                _ => r.range(emax() / 2, emax() - 2),
            };
            let a = Fl::from_scaled(neg, &x, k - k2, 64);
            let b = Fl::from_scaled(r.bool(), &Integer::from(1), k2, 64 * gen::words(r, 3));
            let (a, b) = if r.bool() { (a, b) } else { (b, a) };
            Case::new("mul").f(a).f(b).p(p).rm(rm)
        }
        1 => {
            let n = gen::words(r, 3);
            let d = Integer::from_digits(&gen::mant(r, n), Order::Lsf);
            let s: i32 = match r.below(4) {
                0 => 1,
                1 => -1,
                _ => 0,
            };
            let u: Integer = Integer::from(&x * &d) + s;
            let k2 = -(d.significant_bits() as i64) - r.range(0, 1000);
            let a = Fl::from_scaled(neg, &u, k + k2, 64);
            let b = Fl::from_scaled(r.bool(), &d, k2, 64);
            Case::new("div").f(a).f(b).p(p).rm(rm)
        }
        _ => {
            let v = (Integer::from(r.u64()) << r.us(nb as usize) as u32).min(x.clone());
            let u = Integer::from(&x - &v);
            if u == 0 || u.significant_bits() as i64 + k > emax() || v.significant_bits() as i64 + k > emax() {
                return g_high(r);
            }
            Case::new("add").f(Fl::from_scaled(neg, &u, k, 64)).f(Fl::from_scaled(neg, &v, k, 64)).p(p).rm(rm)
        }
    }
}

fn g_any(r: &mut Rng) -> Case {
    let op = *r.pick(&["add", "sub", "mul", "div", "reciprocal", "sqrt", "cbrt"]);
    let mut a = gen::num(r, 6, Er::Any);
    let b = gen::num(r, 6, Er::Any);
    if op == "sqrt" {
        a.set_neg(false);
    }
    Case::new(op).f(a).f(b).p(gen::prec(r, 6)).rm(gen::rm7(r))
}

const LIMITS: [&str; 4] = ["limit_max", "limit_min", "limit_min_positive", "limit_min_normal"];

/// the named limits of a precision, and what lies next to them
fn check_limit(c: &Case) -> Res {
    if c.p == 0 || c.p > 65_536 || c.rm == NONE || c.rm > 6 {
        return Ok(Out::Skip);
    }
    let pp = round_p(c.p);
    let n = pp / 64;
    let (got, want) = match c.op.as_str() {
        "limit_max" => (BigFloat::max_value(c.p), Fl::Fin { neg: false, e: emax(), w: vec![u64::MAX; n], inex: false }),
        "limit_min" => (BigFloat::min_value(c.p), Fl::Fin { neg: true, e: emax(), w: vec![u64::MAX; n], inex: false }),
        "limit_min_positive" => (BigFloat::min_positive(c.p), sub_of(false, &Integer::from(1), n)),
        "limit_min_normal" => (BigFloat::min_positive_normal(c.p), sub_of(false, &(Integer::from(1) << (pp as u32 - 1)), n)),
        _ => return Ok(Out::Skip),
    };
    expect(&got, &want, STRICT)?;
    if got.precision() != Some(if c.op == "limit_min_positive" { 1 } else { pp }) {
        return fail(format!("precision() is {:?}", got.precision()));
    }
    // beyond the limit
    let rm = RMS[c.rm as usize];
    let half = BigFloat::from_raw_parts(&[1 << 63], 64, astro_float::Sign::Pos, 0, false);
    match c.op.as_str() {
        "limit_max" | "limit_min" => {
            if got.is_subnormal() || got.add(&got, c.p, rm).is_inf() != true {
                return fail("twice the limit is not infinite");
            }
        }
        "limit_min_positive" => {
            // half of it is a tie between zero and itself
            let h = got.mul(&half, c.p, rm);
            let up = matches!(c.rm, UP | FROMZERO | TOODD);
            if h.is_zero() == up || (up && h.cmp(&got) != Some(0)) {
                return fail(format!("half of the smallest positive number is {}", Fl::from_bf(&h).show()));
            }
        }
        _ => {
            let h = got.mul(&half, c.p, rm);
            if got.is_subnormal() || !h.is_subnormal() || h.inexact() || h.add(&h, c.p, rm).cmp(&got) != Some(0) {
                return fail("half of the smallest normal number");
            }
        }
    }
    okt(true, vec!["limit"])
}

fn g_limit(r: &mut Rng) -> Case {
    let op = *r.pick(&LIMITS);
    let p = if r.chance(1, 20) { 1 + r.us(65_000) } else { 1 + r.us(2000) };
    Case::new(op).p(p).rm(gen::rm6(r))
}

pub fn c09() -> Prop {
    Prop {
        id: "C09",
        rule: "the exact result is not representable in the target precision, or it is subnormal, zero by underflow, or infinite by overflow",
        assumptions: &["GMP integer arithmetic is right"],
        check: |c, ctx| {
            if c.op.starts_with("limit_") {
                return check_limit(c);
            }
            let r = check(c, ctx)?;
            Ok(match r {
                Out::Ok { nt, tags } => {
                    let nt = nt || tags.contains(&"subnormal") || tags.contains(&"overflow");
                    Out::Ok { nt, tags }
                }
                o => o,
            })
        },
        canon: vec![],
        streams: vec![
            Stream { name: "low", quick: 4_000_000, thorough: 60_000_000, chunk: 4000, gen: g_low },
            Stream { name: "low-tie", quick: 4_000_000, thorough: 60_000_000, chunk: 4000, gen: g_low_tie },
            Stream { name: "high", quick: 2_000_000, thorough: 40_000_000, chunk: 4000, gen: g_high },
            Stream { name: "high-tie", quick: 2_000_000, thorough: 40_000_000, chunk: 4000, gen: g_high_tie },
            Stream { name: "any", quick: 2_000_000, thorough: 40_000_000, chunk: 4000, gen: g_any },
            Stream { name: "limits", quick: 100_000, thorough: 400_000, chunk: 1000, gen: g_limit },
            Stream { name: "long", quick: 200000, thorough: 5000000, chunk: 100, gen: |r| {
                let g = *r.pick(&[g_low as fn(&mut Rng) -> Case, g_low_tie, g_high, g_high_tie, g_any]);
                gen::longer(r, 30, g)
            } },
        ],
    }
}
