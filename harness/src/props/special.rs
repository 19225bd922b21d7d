//! C16: infinities, zeros, NaN and domain errors. C19: the exactness mark. C24: purity and symmetries. C25: wrong precision.

use super::arith::check_rounded;
use super::funcs::{EXPS, HYP, TRIG};
use super::*;
use crate::gen;
use crate::gen::Er;
use crate::oracle as or;
use crate::rng::Rng;
use astro_float::{Consts, Error, Radix, RoundingMode};
use rug::Integer;
use std::cmp::Ordering;

// ---------------------------------------------------------------- calling anything

pub const UN_F: [&str; 16] = [
    "exp", "ln", "log2", "log10", "sin", "cos", "tan", "asin", "acos", "atan", "sinh", "cosh", "tanh", "asinh", "acosh", "atanh",
];
pub const UN_P: [&str; 3] = ["sqrt", "cbrt", "reciprocal"];
pub const UN_0: [&str; 7] = ["abs", "neg", "floor", "ceil", "int", "fract", "signum"];
pub const UN_N: [&str; 3] = ["round", "powi", "set_precision"];
pub const BIN_P: [&str; 4] = ["add", "sub", "mul", "div"];
pub const BIN_F: [&str; 2] = ["pow", "log"];
pub const BIN_0: [&str; 6] = ["rem", "add_full_prec", "sub_full_prec", "mul_full_prec", "max", "min"];

pub fn known_op(op: &str) -> bool {
    op == "clamp" || UN_F.contains(&op) || UN_P.contains(&op) || UN_0.contains(&op) || UN_N.contains(&op) || BIN_P.contains(&op) || BIN_F.contains(&op) || BIN_0.contains(&op)
}

pub fn arity(op: &str) -> usize {
    if op == "clamp" {
        3
    } else if BIN_P.contains(&op) || BIN_F.contains(&op) || BIN_0.contains(&op) {
        2
    } else {
        1
    }
}

pub fn call(op: &str, a: &[&BigFloat], n: i64, p: usize, rm: u8, cc: &mut Consts) -> BigFloat {
    let m = RMS[rm as usize];
    let x = a[0];
    match op {
        "exp" => x.exp(p, m, cc),
        "ln" => x.ln(p, m, cc),
        "log2" => x.log2(p, m, cc),
        "log10" => x.log10(p, m, cc),
        "sin" => x.sin(p, m, cc),
        "cos" => x.cos(p, m, cc),
        "tan" => x.tan(p, m, cc),
        "asin" => x.asin(p, m, cc),
        "acos" => x.acos(p, m, cc),
        "atan" => x.atan(p, m, cc),
        "sinh" => x.sinh(p, m, cc),
        "cosh" => x.cosh(p, m, cc),
        "tanh" => x.tanh(p, m, cc),
        "asinh" => x.asinh(p, m, cc),
        "acosh" => x.acosh(p, m, cc),
        "atanh" => x.atanh(p, m, cc),
        "sqrt" => x.sqrt(p, m),
        "cbrt" => x.cbrt(p, m),
        "reciprocal" => x.reciprocal(p, m),
        "abs" => x.abs(),
        "neg" => x.neg(),
        "floor" => x.floor(),
        "ceil" => x.ceil(),
        "int" => x.int(),
        "fract" => x.fract(),
        "signum" => x.signum(),
        "round" => x.round(n as usize, m),
        "powi" => x.powi(n as usize, p, m),
        "set_precision" => {
            let mut y = x.clone();
            match y.set_precision(p, m) {
                Ok(()) => y,
                Err(Error::ExponentOverflow(s)) => {
                    if s.is_positive() {
                        astro_float::INF_POS
                    } else {
                        astro_float::INF_NEG
                    }
                }
                Err(e) => BigFloat::nan(Some(e)),
            }
        }
        "add" => x.add(a[1], p, m),
        "sub" => x.sub(a[1], p, m),
        "mul" => x.mul(a[1], p, m),
        "div" => x.div(a[1], p, m),
        "pow" => x.pow(a[1], p, m, cc),
        "log" => x.log(a[1], p, m, cc),
        "rem" => x.rem(a[1]),
        "add_full_prec" => x.add_full_prec(a[1]),
        "sub_full_prec" => x.sub_full_prec(a[1]),
        "mul_full_prec" => x.mul_full_prec(a[1]),
        "max" => x.max(a[1]),
        "min" => x.min(a[1]),
        "clamp" => x.clamp(a[1], a[2]),
        _ => unreachable!("{}", op),
    }
}

/// the call is not affordable with these arguments
pub fn too_big(op: &str, f: &[Fl], p: usize, n: i64) -> bool {
    if f.iter().any(|x| x.p() > 8192) || p > 8192 {
        return true;
    }
    let fin = |i: usize| f.get(i).map(|x| x.is_nonzero_fin()).unwrap_or(false);
    match op {
        "sin" | "cos" | "tan" => fin(0) && f[0].ne() > 40_000,
        "rem" | "add_full_prec" | "sub_full_prec" => fin(0) && fin(1) && (f[0].ne() - f[1].ne()).abs() > 60_000,
        "powi" => n < 0,
        "round" => n < 0,
        _ => false,
    }
}

pub fn bfs(c: &Case) -> Vec<BigFloat> {
    let mut k = 0;
    c.f.iter()
        .map(|x| {
            if *x == Fl::NaN {
                let e = c.n.get(1 + k).copied().unwrap_or(0);
                k += 1;
                BigFloat::nan(nan_err(e))
            } else {
                x.to_bf()
            }
        })
        .collect()
}

fn nan_err(e: i64) -> Option<Error> {
    match e.rem_euclid(4) {
        0 => None,
        1 => Some(Error::InvalidArgument),
        2 => Some(Error::MemoryAllocation),
        _ => Some(Error::DivisionByZero),
    }
}

pub fn need_n(op: &str) -> bool {
    op == "round" || op == "powi"
}

// ---------------------------------------------------------------- C16 model

#[derive(Clone, Debug)]
enum Ex {
    /// not a number; Some(e): with this error
    Nan(Option<Error>),
    Inf(bool),
    /// zero of precision p; sign if it is fixed
    Zero(usize, Option<bool>),
    /// this number, exactly
    Val(Fl),
    /// this value, rounded
    Ap(or::Ap),
    /// any number or infinity, not NaN
    Num,
    Any(Vec<Ex>),
    Skip,
}
use Ex::*;

fn cmp_one(x: &Fl) -> Ordering {
    // |x| against one
    let (m, k) = x.mk();
    if m == 0 {
        return Ordering::Less;
    }
    let e = x.ne();
    if e < 1 {
        Ordering::Less
    } else if e > 1 || !(m == 1 && k == 0) {
        Ordering::Greater
    } else {
        Ordering::Equal
    }
}

fn is_int(x: &Fl) -> bool {
    x.is_zero() || x.mk().1 >= 0
}

fn is_odd(x: &Fl) -> bool {
    !x.is_zero() && x.mk().1 == 0
}

fn konst_half_pi(neg: bool, p: usize, halves: i64) -> Ex {
    let mut a = or::konst("pi", p);
    a.k += halves - 1; // halves 0: pi/2, 1: pi
    a.neg = neg;
    Ap(a)
}

fn val(v: i64, p: usize) -> Ex {
    Val(Fl::from_int(&Integer::from(v), p))
}

const DOMAIN: Ex = Nan(Some(Error::InvalidArgument));

fn ex1(op: &str, x: &Fl, n: i64, p: usize) -> Ex {
    let neg = x.neg();
    if let Fl::Inf { .. } = x {
        return match op {
            "exp" => {
                if neg {
                    Zero(p, Some(false))
                } else {
                    Inf(false)
                }
            }
            "ln" | "log2" | "log10" | "sqrt" | "acosh" => {
                if neg {
                    Nan(None)
                } else {
                    Inf(false)
                }
            }
            "sin" | "cos" | "tan" | "asin" | "acos" | "atanh" => Nan(None),
            "atan" => konst_half_pi(neg, p, 0),
            "sinh" | "asinh" | "cbrt" | "floor" | "ceil" | "round" => Inf(neg),
            "cosh" | "abs" => Inf(false),
            "tanh" | "signum" => val(if neg { -1 } else { 1 }, if op == "signum" { 128 } else { p }),
            "reciprocal" => Zero(p, Some(neg)),
            "neg" => Inf(!neg),
            "int" | "fract" => Nan(None),
            "powi" => {
                if n == 0 {
                    val(1, p)
                } else {
                    Inf(neg && n & 1 == 1)
                }
            }
            "set_precision" => Inf(neg),
            _ => unreachable!("{}", op),
        };
    }
    let zero = x.is_zero();
    let one = cmp_one(x);
    match op {
        "exp" | "cosh" if zero => val(1, p),
        "cos" if zero => val(1, p),
        "sin" | "tan" | "asin" | "atan" | "sinh" | "tanh" | "asinh" | "atanh" if zero => Zero(p, None),
        "acos" if zero => konst_half_pi(false, p, 0),
        "ln" | "log2" | "log10" => {
            if zero {
                Inf(true)
            } else if neg {
                DOMAIN
            } else if one == Ordering::Equal {
                Zero(p, None)
            } else {
                Num
            }
        }
        "asin" | "acos" => match one {
            Ordering::Greater => DOMAIN,
            Ordering::Equal => match (op, neg) {
                ("asin", _) => konst_half_pi(neg, p, 0),
                (_, true) => konst_half_pi(false, p, 1),
                _ => Zero(p, None),
            },
            _ => Num,
        },
        "atanh" => match one {
            Ordering::Greater => DOMAIN,
            Ordering::Equal => Inf(neg),
            _ => Num,
        },
        "acosh" => {
            if neg || one == Ordering::Less {
                DOMAIN
            } else if one == Ordering::Equal {
                Zero(p, None)
            } else {
                Num
            }
        }
        "sqrt" => {
            if zero {
                Zero(p, None)
            } else if neg {
                DOMAIN
            } else {
                Num
            }
        }
        "cbrt" if zero => Zero(p, Some(neg)),
        "reciprocal" if zero => Inf(neg),
        "powi" => {
            if n == 0 {
                val(1, p)
            } else if zero {
                Zero(p, None)
            } else if one == Ordering::Equal {
                val(if neg && n & 1 == 1 { -1 } else { 1 }, p)
            } else {
                Num
            }
        }
        "abs" => {
            let mut y = x.with_neg(false);
            y.set_inex(false);
            Val(y)
        }
        "neg" => Val(x.with_neg(!neg)),
        // the number of positions is checked like a precision
        "round" if n >= (1 << 61) => Any(vec![DOMAIN, Num]),
        "floor" | "ceil" | "int" | "fract" | "round" if zero => Zero(0, None),
        "signum" => {
            if zero {
                Any(vec![Zero(0, None), val(1, 128), val(-1, 128)])
            } else {
                val(if neg { -1 } else { 1 }, 128)
            }
        }
        "set_precision" if zero => Zero(p, Some(neg)),
        _ => Num,
    }
}

fn ex2(op: &str, x: &Fl, y: &Fl, p: usize) -> Ex {
    let (xi, yi) = (matches!(x, Fl::Inf { .. }), matches!(y, Fl::Inf { .. }));
    let (xn, yn) = (x.neg(), y.neg());
    let s = xn != yn;
    match op {
        "add" | "sub" | "add_full_prec" | "sub_full_prec" => {
            let yn = if op.starts_with("sub") { !yn } else { yn };
            match (xi, yi) {
                (true, true) => {
                    if xn == yn {
                        Inf(xn)
                    } else {
                        Nan(None)
                    }
                }
                (true, false) => Inf(xn),
                (false, true) => Inf(yn),
                _ => Num,
            }
        }
        "mul" | "mul_full_prec" => {
            if (xi && y.is_zero()) || (yi && x.is_zero()) {
                Nan(None)
            } else if xi || yi {
                Inf(s)
            } else if x.is_zero() || y.is_zero() {
                Zero(if op == "mul" { p } else { 0 }, None)
            } else {
                Num
            }
        }
        "div" => {
            if xi && yi {
                Nan(None)
            } else if xi {
                Inf(s)
            } else if yi {
                Zero(p, Some(s))
            } else if y.is_zero() {
                if x.is_zero() {
                    Nan(None)
                } else {
                    Inf(s)
                }
            } else if x.is_zero() {
                Zero(p, None)
            } else {
                Num
            }
        }
        "rem" => {
            if xi {
                Nan(None)
            } else if yi {
                let mut v = x.clone();
                v.set_inex(false);
                Val(v)
            } else if y.is_zero() {
                Nan(None)
            } else if x.is_zero() {
                Zero(0, None)
            } else {
                Num
            }
        }
        "max" | "min" => {
            let less = match super::manip::val_cmp(x, y) {
                Some(o) => o,
                None => return Skip,
            };
            let take = |f: &Fl| match f {
                Fl::Inf { neg } => Inf(*neg),
                _ => Val(f.clone()),
            };
            match less {
                Ordering::Equal => Any(vec![take(x), take(y)]),
                Ordering::Less => take(if op == "max" { y } else { x }),
                Ordering::Greater => take(if op == "max" { x } else { y }),
            }
        }
        "pow" => {
            if xi && yi {
                return if yn { Zero(p, None) } else { Any(vec![Inf(false)]) };
            }
            if yi {
                return match cmp_one(x) {
                    Ordering::Equal => Any(vec![val(1, p), Nan(None)]),
                    Ordering::Greater => {
                        if yn {
                            Zero(p, None)
                        } else {
                            Inf(false)
                        }
                    }
                    Ordering::Less => {
                        if yn {
                            Inf(false)
                        } else {
                            Zero(p, None)
                        }
                    }
                };
            }
            if y.is_zero() {
                return val(1, p);
            }
            if xi {
                return if yn { Zero(p, None) } else { Inf(xn && is_odd(y)) };
            }
            if x.is_zero() {
                return if yn { Inf(xn && is_odd(y)) } else { Zero(p, Some(xn && is_odd(y))) };
            }
            if cmp_one(x) == Ordering::Equal {
                return if !xn {
                    val(1, p)
                } else if is_int(y) {
                    val(if is_odd(y) { -1 } else { 1 }, p)
                } else {
                    DOMAIN
                };
            }
            if xn && !is_int(y) {
                return DOMAIN;
            }
            Num
        }
        "log" => {
            // logarithm of x to the base y
            if xn && !x.is_zero() {
                return if xi || yi { Nan(None) } else { DOMAIN };
            }
            if yi {
                return if yn || xi || x.is_zero() { Nan(None) } else { Zero(p, None) };
            }
            if yn && !y.is_zero() {
                return if xi { Nan(None) } else { DOMAIN };
            }
            if y.is_zero() {
                return if xi || x.is_zero() {
                    Nan(None)
                } else if xn {
                    Skip
                } else {
                    Zero(p, None)
                };
            }
            let b = cmp_one(y);
            if xi {
                return match b {
                    Ordering::Greater => Inf(false),
                    Ordering::Less => Inf(true),
                    _ => Any(vec![Inf(false), Inf(true), Nan(None)]),
                };
            }
            if x.is_zero() {
                return match b {
                    Ordering::Greater => Inf(true),
                    Ordering::Less => Inf(false),
                    _ => Any(vec![Inf(false), Inf(true), Nan(None)]),
                };
            }
            match (cmp_one(x), b) {
                (Ordering::Equal, Ordering::Equal) => Nan(None),
                (_, Ordering::Equal) => Any(vec![Inf(false), Inf(true)]),
                (Ordering::Equal, _) => Zero(p, None),
                _ => Num,
            }
        }
        _ => unreachable!("{}", op),
    }
}

fn holds(e: &Ex, got: &BigFloat, p: usize, rm: u8, anymark: bool) -> Result<(), String> {
    let g = Fl::from_bf(got);
    let bad = |w: &str| Err(format!("got {} (err {}) expected {}", g.show(), err_name(got.err()), w));
    repr_ok(got)?;
    match e {
        Nan(err) => {
            if g != Fl::NaN {
                return bad("NaN");
            }
            if let Some(x) = err {
                if got.err() != Some(*x) {
                    return bad(&format!("NaN with {:?}", x));
                }
            }
            Ok(())
        }
        Inf(neg) => {
            if g == (Fl::Inf { neg: *neg }) {
                Ok(())
            } else {
                bad(if *neg { "-Inf" } else { "+Inf" })
            }
        }
        Zero(p, s) => {
            if !g.is_zero() || (*p > 0 && g.p() != *p) || s.map(|s| s != g.neg()).unwrap_or(false) {
                return bad(&format!("zero of {} bits, negative: {:?}", p, s));
            }
            Ok(())
        }
        Val(v) => {
            let mut h = g.clone();
            let mut v = v.clone();
            if anymark {
                h.set_inex(false);
                v.set_inex(false);
            }
            if h == v {
                Ok(())
            } else {
                bad(&v.show())
            }
        }
        Ap(a) => match check_rounded(got, a, false, p, rm, 1, NOZS) {
            Ok(_) => Ok(()),
            Err(f) => Err(f.msg),
        },
        Num => {
            if g == Fl::NaN {
                bad("a number")
            } else {
                Ok(())
            }
        }
        Any(l) => {
            for x in l {
                if holds(x, got, p, rm, anymark).is_ok() {
                    return Ok(());
                }
            }
            bad(&format!("one of {:?}", l))
        }
        Skip => Ok(()),
    }
}

/// the cases recorded in the known-findings file
fn finding16(op: &str, f: &[Fl], got: &BigFloat) -> String {
    if op == "pow" && f[1] == (Fl::Inf { neg: true }) {
        if f[0].is_zero() && got.is_zero() {
            return "zero-to-minus-infinity".into();
        }
        if f[0].is_fin() && !f[0].neg() && cmp_one(&f[0]) == Ordering::Greater && got.is_inf_neg() {
            return "above-one-to-minus-infinity".into();
        }
    }
    String::new()
}

fn check16(c: &Case, ctx: &mut Ctx) -> Res {
    let op = c.op.as_str();
    let k = arity(op);
    if c.f.len() != k || c.p == 0 || c.rm > 6 || (need_n(op) && c.n.is_empty()) {
        return Ok(Out::Skip);
    }
    let n = c.n.first().copied().unwrap_or(0);
    if too_big(op, &c.f, c.p, n) {
        return Ok(Out::Skip);
    }
    let p = round_p(c.p);
    let a = bfs(c);
    let refs: Vec<&BigFloat> = a.iter().collect();
    let got = call(op, &refs, n, c.p, c.rm, &mut ctx.cc);
    let special = c.f.iter().any(|x| !x.is_nonzero_fin());
    if c.f.contains(&Fl::NaN) {
        if !got.is_nan() {
            return fail(format!("NaN argument: got {}", Fl::from_bf(&got).show()));
        }
        if !["max", "min", "clamp", "signum", "set_precision"].contains(&op) && !c.f.iter().any(|x| matches!(x, Fl::Inf { .. })) {
            let es: Vec<Option<Error>> = a.iter().filter(|x| x.is_nan()).map(|x| x.err()).collect();
            if !es.contains(&got.err()) {
                return fail(format!("the error of the NaN argument {:?} became {}", es, err_name(got.err())));
            }
        }
        return okt(true, vec!["nan-argument"]);
    }
    let e = match k {
        1 => ex1(op, &c.f[0], n, p),
        2 => ex2(op, &c.f[0], &c.f[1], p),
        _ => {
            // clamp: lower bound above upper bound is an error
            match (super::manip::val_cmp(&c.f[0], &c.f[1]), super::manip::val_cmp(&c.f[0], &c.f[2]), super::manip::val_cmp(&c.f[1], &c.f[2])) {
                (Some(lo), Some(hi), Some(b)) => {
                    let take = |f: &Fl| match f {
                        Fl::Inf { neg } => Inf(*neg),
                        _ => Val(f.clone()),
                    };
                    if b == Ordering::Greater {
                        Nan(None)
                    } else if lo == Ordering::Less {
                        take(&c.f[1])
                    } else if hi == Ordering::Greater {
                        take(&c.f[2])
                    } else {
                        take(&c.f[0])
                    }
                }
                _ => Skip,
            }
        }
    };
    if matches!(e, Skip) {
        return Ok(Out::Skip);
    }
    let anymark = c.f.iter().any(|x| x.inex());
    if let Ap(ap) = &e {
        return match check_rounded(&got, ap, c.f[0].inex(), c.p, c.rm, 1, NOZS) {
            Ok(_) => okt(true, vec!["limit"]),
            Err(f) => Err(f),
        };
    }
    if let Err(m) = holds(&e, &got, p, c.rm, anymark) {
        let s = finding16(op, &c.f, &got);
        return Err(Fail { msg: m, sig: s });
    }
    let tag = match e {
        Nan(_) => "domain",
        Inf(_) => "infinite",
        Zero(..) => "zero",
        Num => "ordinary",
        _ => "value",
    };
    okt(special || !matches!(e, Num), vec![tag])
}

fn with_words(v: i64, shift: i64, n: usize) -> Fl {
    let i = Integer::from(v);
    let neg = v < 0;
    Fl::from_scaled(neg, &i.abs(), shift, 64 * n)
}

fn special(r: &mut Rng) -> Fl {
    let n = 1 + r.us(4);
    let neg = r.bool();
    let mut f = match r.below(26) {
        0 => return Fl::NaN,
        1..=3 => return Fl::Inf { neg },
        4..=6 => Fl::zero(64 * n, neg),
        7 | 8 => with_words(if neg { -1 } else { 1 }, 0, n),
        9 => with_words(if neg { -2 } else { 2 }, 0, n),
        10 => with_words(if neg { -1 } else { 1 }, -1, n),
        11 => with_words(if neg { -3 } else { 3 }, -1, n),
        12 => with_words(if neg { -3 } else { 3 }, r.range(0, 2), n),
        13 => with_words(if neg { -3 } else { 3 }, -r.range(1, 80), n),
        14 => Fl::Fin { neg, e: EMAX, w: vec![u64::MAX; n], inex: false },
        15 => {
            let mut w = vec![0; n];
            w[0] = 1;
            Fl::Fin { neg, e: EMIN, w, inex: false }
        }
        16 => {
            let mut w = vec![0; n];
            w[n - 1] = 1 << 63;
            Fl::Fin { neg, e: EMIN, w, inex: false }
        }
        17 => gen::subnormal(r, n),
        18 => {
            // neighbours of one
            let mut w = vec![u64::MAX; n];
            let mut e = 0;
            if r.bool() {
                w = vec![0; n];
                w[n - 1] = 1 << 63;
                w[0] |= 1;
                e = 1;
            }
            Fl::Fin { neg, e, w, inex: false }
        }
        19 => {
            // long odd or even integer
            let w = gen::mant(r, n);
            Fl::Fin { neg, e: 64 * n as i64 + r.range(-1, 1), w, inex: false }
        }
        20 => gen::small_int(r, 3),
        21 => gen::num(r, 4, Er::Any),
        22 => gen::num(r, 4, Er::High),
        23 => gen::num(r, 4, Er::Low),
        _ => gen::num(r, 4, Er::Small),
    };
    if r.chance(1, 8) {
        f.set_inex(true);
    }
    f
}

fn n_of(r: &mut Rng) -> i64 {
    match r.below(6) {
        0 => 0,
        1 => 1,
        2 => r.range(2, 5),
        3 => r.range(0, 300),
        4 => r.range(0, i64::MAX),
        _ => i64::MAX - r.range(0, 3),
    }
}

fn g16_un(r: &mut Rng) -> Case {
    let op = match r.below(8) {
        0..=4 => *r.pick(&UN_F),
        5 => *r.pick(&UN_P),
        6 => *r.pick(&UN_0),
        _ => *r.pick(&UN_N),
    };
    let x = special(r);
    Case::new(op).f(x).p(gen::prec(r, 4)).rm(gen::rm7(r)).n(n_of(r)).n(r.range(0, 3))
}

fn g16_bin(r: &mut Rng) -> Case {
    let op = match r.below(8) {
        0..=1 => *r.pick(&BIN_P),
        2..=5 => *r.pick(&BIN_F),
        _ => *r.pick(&BIN_0),
    };
    let x = special(r);
    let y = special(r);
    Case::new(op).f(x).f(y).p(gen::prec(r, 4)).rm(gen::rm7(r)).n(0).n(r.range(0, 3)).n(r.range(0, 3))
}

fn g16_clamp(r: &mut Rng) -> Case {
    Case::new("clamp").f(special(r)).f(special(r)).f(special(r)).p(64).rm(gen::rm7(r)).n(0).n(r.range(0, 3)).n(r.range(0, 3)).n(r.range(0, 3))
}

pub fn c16() -> Prop {
    Prop {
        id: "C16",
        rule: "an operand is NaN, infinite or zero, or the operands are outside of the domain or at a pole, or the result is a limit or an exact value",
        assumptions: &["MPFR's pi is right"],
        check: check16,
        canon: vec![
            Case::new("pow").f(with_words(2, 0, 1)).f(Fl::Inf { neg: true }).p(64).rm(TOEVEN),
            Case::new("pow").f(Fl::zero(64, false)).f(Fl::Inf { neg: true }).p(64).rm(TOEVEN),
        ],
        streams: vec![
            Stream { name: "one-operand", quick: 500_000, thorough: 10_000_000, chunk: 500, gen: g16_un },
            Stream { name: "two-operands", quick: 500_000, thorough: 10_000_000, chunk: 500, gen: g16_bin },
            Stream { name: "clamp", quick: 200_000, thorough: 2_000_000, chunk: 500, gen: g16_clamp },
        ],
    }
}

// ---------------------------------------------------------------- generators of ordinary calls

/// an operand inside of the domain of `op` (position `i`), mostly
pub fn operand(r: &mut Rng, op: &str, i: usize, maxw: usize) -> Fl {
    if r.chance(1, 14) {
        return special(r);
    }
    let n = 1 + r.us(maxw);
    let mut x = match op {
        "asin" | "acos" | "atanh" => {
            let e = -r.range(0, 8) * r.range(0, 8);
            with_e(gen::num_w(r, n, Er::Small), e)
        }
        "acosh" => {
            let e = r.range(1, 30);
            with_e(gen::num_w(r, n, Er::Small), e).with_neg(false)
        }
        "ln" | "log2" | "log10" | "log" | "sqrt" => {
            let e = r.range(-90, 90);
            with_e(gen::num_w(r, n, Er::Small), e).with_neg(false)
        }
        "pow" => {
            let e = r.range(-8, 8);
            let y = with_e(gen::num_w(r, n, Er::Small), e);
            if i == 0 {
                y.with_neg(false)
            } else {
                y
            }
        }
        "exp" | "sinh" | "cosh" | "tanh" | "sin" | "cos" | "tan" | "asinh" | "atan" | "cbrt" | "powi" => {
            let e = r.range(-40, 12);
            with_e(gen::num_w(r, n, Er::Small), e)
        }
        _ => gen::numz(r, maxw, Er::Small),
    };
    if r.chance(1, 10) {
        // short numbers make exact results
        let v = r.range(-40, 40);
        x = with_words(if v == 0 { 1 } else { v }, -r.range(0, 5), n);
    }
    x.set_inex(false);
    x
}

pub fn with_e(mut x: Fl, ne: i64) -> Fl {
    if let Fl::Fin { e, .. } = &mut x {
        *e = ne;
    }
    x
}

pub fn any_op(r: &mut Rng) -> &'static str {
    match r.below(12) {
        0..=2 => *r.pick(&UN_F),
        3 => *r.pick(&UN_P),
        4 => *r.pick(&UN_0),
        5 => *r.pick(&UN_N),
        6..=8 => *r.pick(&BIN_P),
        9 => *r.pick(&BIN_F),
        10 => *r.pick(&BIN_0),
        _ => *r.pick(&["clamp", "max", "min", "rem"]),
    }
}

pub fn small_n(r: &mut Rng) -> i64 {
    if r.chance(1, 8) {
        0
    } else {
        r.range(0, 40)
    }
}

pub fn g_call(r: &mut Rng) -> Case {
    let op = any_op(r);
    let mut c = Case::new(op).p(gen::prec(r, 4)).rm(gen::rm7(r)).n(small_n(r));
    for i in 0..arity(op) {
        let x = operand(r, op, i, 4);
        c.f.push(x);
    }
    if c.f.len() == 2 && r.chance(1, 12) {
        c.f[1] = gen::near(r, &c.f[0]);
        c.f[1].set_inex(false);
    }
    c
}

// ---------------------------------------------------------------- C19

fn same(a: &Fl, b: &Fl, flag: bool) -> bool {
    if flag {
        return a == b;
    }
    let (mut a, mut b) = (a.clone(), b.clone());
    a.set_inex(false);
    b.set_inex(false);
    a == b
}

/// n[1]: bits of the operands to mark
fn check19(c: &Case, ctx: &mut Ctx) -> Res {
    let op = c.op.as_str();
    let k = arity(op);
    if c.f.len() != k || c.p == 0 || c.rm > 6 || c.n.len() < 2 || too_big(op, &c.f, c.p, c.n[0]) {
        return Ok(Out::Skip);
    }
    let n = c.n[0];
    let mask = c.n[1];
    let plain: Vec<Fl> = c
        .f
        .iter()
        .map(|x| {
            let mut y = x.clone();
            y.set_inex(false);
            y
        })
        .collect();
    let mut marked = plain.clone();
    for (i, x) in marked.iter_mut().enumerate() {
        x.set_inex(mask >> i & 1 == 1);
    }
    if marked == plain {
        return Ok(Out::Skip);
    }
    let run = |f: &[Fl], ctx: &mut Ctx| {
        let a: Vec<BigFloat> = f.iter().map(|x| x.to_bf()).collect();
        let r: Vec<&BigFloat> = a.iter().collect();
        call(op, &r, n, c.p, c.rm, &mut ctx.cc)
    };
    let g0b = run(&plain, ctx);
    let g1b = run(&marked, ctx);
    let (g0, g1) = (Fl::from_bf(&g0b), Fl::from_bf(&g1b));
    if !same(&g0, &g1, false) || g0b.err() != g1b.err() {
        return fail(format!("a mark changed the value: unmarked {} marked {}", g0.show(), g1.show()));
    }
    if !g0.is_fin() {
        return okt(true, vec!["no-number"]);
    }
    // exact results of exact arguments
    if let Some(exact) = known_exact(op, &plain, n, c.p) {
        if exact && g0.inex() {
            return fail(format!("the exact result {} of exact arguments is marked inexact", g0.show()));
        }
        if !exact && !g0.inex() {
            return fail(format!("the rounded result {} is marked exact", g0.show()));
        }
    }
    let m = |i: usize| marked[i].inex();
    let anym = marked.iter().any(|x| x.inex());
    // whether the mark has to appear; None: the result hardly depends on the marked operand
    let want: Option<bool> = match op {
        "signum" => None,
        "max" | "min" | "clamp" => {
            let sel: Vec<bool> = (0..k).filter(|i| same(&plain[*i], &g0, false)).map(m).collect();
            if sel.iter().all(|x| *x) {
                Some(true)
            } else if sel.iter().all(|x| !*x) {
                Some(false)
            } else {
                None
            }
        }
        "powi" => {
            if n == 0 {
                None
            } else {
                Some(true)
            }
        }
        "pow" => {
            if plain[1].is_zero() || plain[0].is_zero() || (plain[0].is_fin() && cmp_one(&plain[0]) == Ordering::Equal) || !plain[0].is_fin() || !plain[1].is_fin() {
                None
            } else {
                Some(true)
            }
        }
        "mul" | "mul_full_prec" | "div" | "rem" => {
            if plain.iter().any(|x| x.is_zero() || !x.is_fin()) {
                None
            } else {
                Some(true)
            }
        }
        "log" => {
            if plain.iter().any(|x| x.is_zero() || !x.is_fin()) {
                None
            } else {
                Some(true)
            }
        }
        _ => Some(anym),
    };
    match want {
        Some(true) if !g1.inex() => fail(format!("the result {} of a marked argument is not marked", g1.show())),
        Some(false) if g1.inex() && !g0.inex() => fail(format!("the result {} is marked but does not come from the marked argument", g1.show())),
        _ => okt(true, vec![if g0.inex() { "rounded" } else { "exact" }]),
    }
}

/// whether the result is exact, where it is decided by integer arithmetic
fn known_exact(op: &str, f: &[Fl], n: i64, p: usize) -> Option<bool> {
    if f.iter().any(|x| !x.is_fin()) {
        return None;
    }
    let bits = p;
    let p = round_p(p);
    match op {
        "mul_full_prec" if f.iter().map(|x| if x.is_zero() { 0 } else { x.ne() }).sum::<i64>() < EMIN + 20_000 => None,
        "abs" | "neg" | "add_full_prec" | "sub_full_prec" | "mul_full_prec" | "max" | "min" | "clamp" | "signum" | "int" | "fract" => Some(true),
        "rem" => Some(true),
        "add" | "sub" | "mul" | "div" | "reciprocal" | "sqrt" | "cbrt" => {
            if (op == "div" && (f[1].is_zero() || f[0].is_zero())) || (op != "add" && op != "sub" && f[0].is_zero()) {
                return Some(true);
            }
            let ap = super::arith::arith_exact(op, f, p);
            let ex = or::round_ap(&ap, p, TOZERO);
            if !ex.is_fin() {
                return None;
            }
            Some(!ex.inex())
        }
        "powi" => {
            if n < 0 || f[0].is_zero() {
                return None;
            }
            let ap = or::powi(&f[0], n as u64, p)?;
            let ex = or::round_ap(&ap, p, TOZERO);
            if !ex.is_fin() {
                return None;
            }
            Some(!ex.inex())
        }
        "set_precision" => {
            if f[0].is_zero() {
                return Some(true);
            }
            let (m, _) = f[0].mk();
            if f[0].e() < EMIN + 5000 {
                return None;
            }
            Some(m.significant_bits() as usize <= bits)
        }
        // of an algebraic number other than zero and one
        "exp" | "sin" | "cos" | "tan" | "atan" | "sinh" | "cosh" | "tanh" | "asinh" => Some(f[0].is_zero()),
        "ln" | "acosh" => Some(cmp_one(&f[0]) == Ordering::Equal),
        "asin" | "atanh" => Some(f[0].is_zero()),
        "acos" => Some(cmp_one(&f[0]) == Ordering::Equal && !f[0].neg()),
        "log2" => {
            if f[0].is_zero() {
                return None;
            }
            Some(f[0].mk().0 == 1)
        }
        _ => None,
    }
}

fn g19(r: &mut Rng) -> Case {
    let c = g_call(r);
    let k = arity(&c.op) as u32;
    let m = 1 + r.below((1 << k) - 1) as i64;
    c.n(m)
}

/// short operands: exact results
fn g19_exact(r: &mut Rng) -> Case {
    let op = any_op(r);
    let mut c = Case::new(op).p(gen::prec(r, 4)).rm(gen::rm7(r)).n(small_n(r));
    for _ in 0..arity(op) {
        let mut x = match r.below(4) {
            0 => gen::one(r, 3),
            1 => {
                let v = r.range(1, 15);
                with_words(if r.bool() { v } else { -v }, r.range(-6, 6), 1)
            }
            2 => {
                let v = r.range(1, 40);
                with_words(v * v, 2 * r.range(-6, 6), 2)
            }
            _ => gen::small_int(r, 3),
        };
        if r.chance(1, 2) {
            x.set_neg(false);
        }
        x.set_inex(false);
        c.f.push(x);
    }
    let k = arity(op) as u32;
    let m = 1 + r.below((1 << k) - 1) as i64;
    c.n(m)
}

pub fn c19() -> Prop {
    Prop {
        id: "C19",
        rule: "at least one operand is marked and both calls returned",
        assumptions: &["the elementary functions of numbers other than zero and one are not dyadic rationals (Lindemann-Weierstrass), used for exactness"],
        check: check19,
        canon: vec![],
        streams: vec![
            Stream { name: "ordinary", quick: 200_000, thorough: 5_000_000, chunk: 200, gen: g19 },
            Stream { name: "short", quick: 300_000, thorough: 5_000_000, chunk: 200, gen: g19_exact },
            Stream {
                name: "special",
                quick: 200_000,
                thorough: 3_000_000,
                chunk: 200,
                gen: |r| {
                    let mut c = if r.bool() { g16_un(r) } else { g16_bin(r) };
                    c.n.truncate(1);
                    let m = r.range(1, 3);
                    c.n(m)
                },
            },
        ],
    }
}

// ---------------------------------------------------------------- C24

pub fn eq_bits(a: &BigFloat, b: &BigFloat) -> bool {
    Fl::from_bf(a) == Fl::from_bf(b) && a.err() == b.err() && a.inexact() == b.inexact()
}

fn mirror(rm: u8) -> u8 {
    match rm {
        UP => DOWN,
        DOWN => UP,
        v => v,
    }
}

fn mirrored(rm: RoundingMode) -> RoundingMode {
    match rm {
        RoundingMode::Up => RoundingMode::Down,
        RoundingMode::Down => RoundingMode::Up,
        v => v,
    }
}

fn check24(c: &Case, ctx: &mut Ctx) -> Res {
    let op = c.op.as_str();
    let k = arity(op);
    if c.f.len() != k || c.p == 0 || c.rm > 6 || c.n.is_empty() || too_big(op, &c.f, c.p, c.n[0]) {
        return Ok(Out::Skip);
    }
    let n = c.n[0];
    let a = bfs(c);
    let refs: Vec<&BigFloat> = a.iter().collect();
    let show = |x: &BigFloat| Fl::from_bf(x).show();
    let first = call(op, &refs, n, c.p, c.rm, &mut ctx.cc);
    macro_rules! differ {
        ($what:expr, $x:expr) => {
            if !eq_bits(&first, &$x) {
                return fail(format!("{}: {} became {}", $what, show(&first), show(&$x)));
            }
        };
    }
    differ!("repeated call", call(op, &refs, n, c.p, c.rm, &mut ctx.cc));
    for (x, f) in a.iter().zip(&c.f) {
        if Fl::from_bf(x) != *f {
            return fail(format!("argument {} was changed to {}", f.show(), show(x)));
        }
    }
    // fresh cache, used cache
    let mut fresh = crate::engine::new_consts();
    differ!("empty constants cache", call(op, &refs, n, c.p, c.rm, &mut fresh));
    for st in &c.steps {
        super::consts::noise(&mut fresh, st);
    }
    if !c.steps.is_empty() {
        differ!("constants cache used for something else", call(op, &refs, n, c.p, c.rm, &mut fresh));
    }
    // another representation of the mark and identity of arguments
    let cl: Vec<BigFloat> = a.iter().map(|x| x.clone()).collect();
    for (x, y) in a.iter().zip(&cl) {
        if !eq_bits(x, y) {
            return fail(format!("clone of {} is {}", show(x), show(y)));
        }
    }
    if k == 2 {
        let r1 = call(op, &[&a[0], &a[0]], n, c.p, c.rm, &mut ctx.cc);
        let r2 = call(op, &[&a[0], &cl[0]], n, c.p, c.rm, &mut ctx.cc);
        if !too_big(op, &[c.f[0].clone(), c.f[0].clone()], c.p, n) && !eq_bits(&r1, &r2) {
            return fail(format!("same object for both operands: {} but with a copy {}", show(&r1), show(&r2)));
        }
    }
    if c.n.get(1).copied().unwrap_or(0) == 77 {
        // another thread, its own cache
        let f = c.f.clone();
        let (o, p, rm) = (c.op.clone(), c.p, c.rm);
        let nan = c.f.contains(&Fl::NaN);
        if !nan {
            let r = std::thread::spawn(move || {
                let mut cc = crate::engine::new_consts();
                let a: Vec<BigFloat> = f.iter().map(|x| x.to_bf()).collect();
                let r: Vec<&BigFloat> = a.iter().collect();
                guarded(|| call(&o, &r, n, p, rm, &mut cc))
            })
            .join();
            match r {
                Ok(Ok(x)) => differ!("another thread", x),
                _ => return fail("panic in another thread"),
            }
        }
    }
    if a.iter().any(|x| x.is_nan()) {
        return ok(false);
    }
    // symmetries; the sign of a zero is not compared
    let eqz = |x: &BigFloat, y: &BigFloat| {
        let (fx, fy) = (Fl::from_bf(x), Fl::from_bf(y));
        fx == fy || (fx.is_zero() && fy.is_zero() && (op.ends_with("full_prec") || fx.with_neg(false) == fy.with_neg(false))) || (fx == Fl::NaN && fy == Fl::NaN)
    };
    let mrm = mirror(c.rm);
    let cc = &mut ctx.cc;
    let mut tags = vec![];
    match op {
        "add" | "mul" | "add_full_prec" | "mul_full_prec" => {
            let sw = call(op, &[&a[1], &a[0]], n, c.p, c.rm, cc);
            if !eqz(&first, &sw) {
                return fail(format!("swapped operands: {} and {}", show(&first), show(&sw)));
            }
            tags.push("commute");
            let ng = if op.starts_with("add") { call(op, &[&a[0].neg(), &a[1].neg()], n, c.p, mrm, cc) } else { call(op, &[&a[0].neg(), &a[1]], n, c.p, mrm, cc) };
            if !eqz(&first, &ng.neg()) {
                return fail(format!("mirrored operands: {} and {}", show(&first), show(&ng)));
            }
        }
        "sub" | "sub_full_prec" => {
            let sw = call(op, &[&a[1], &a[0]], n, c.p, mrm, cc).neg();
            if !eqz(&first, &sw) {
                return fail(format!("a-b is {} but -(b-a) is {}", show(&first), show(&sw)));
            }
            let o2 = if op == "sub" { "add" } else { "add_full_prec" };
            let ad = call(o2, &[&a[0], &a[1].neg()], n, c.p, c.rm, cc);
            if !eqz(&first, &ad) {
                return fail(format!("a-b is {} but a+(-b) is {}", show(&first), show(&ad)));
            }
            tags.push("difference");
        }
        "div" => {
            let s1 = call(op, &[&a[0].neg(), &a[1]], n, c.p, mrm, cc).neg();
            let s2 = call(op, &[&a[0], &a[1].neg()], n, c.p, mrm, cc).neg();
            let s3 = call(op, &[&a[0].neg(), &a[1].neg()], n, c.p, c.rm, cc);
            for s in [s1, s2, s3] {
                // x/0: the sign of a zero is a sign
                if !eqz(&first, &s) {
                    return fail(format!("mirrored quotient: {} and {}", show(&first), show(&s)));
                }
            }
            tags.push("quotient");
        }
        "rem" => {
            let s1 = a[0].neg().rem(&a[1]).neg();
            let s2 = a[0].rem(&a[1].neg());
            if !eqz(&first, &s1) || !eqz(&first, &s2) {
                return fail(format!("mirrored remainder: {} {} {}", show(&first), show(&s1), show(&s2)));
            }
            tags.push("remainder");
        }
        "sin" | "tan" | "asin" | "atan" | "sinh" | "tanh" | "asinh" | "atanh" | "cbrt" | "reciprocal" | "set_precision" => {
            let s = call(op, &[&a[0].neg()], n, c.p, mrm, cc).neg();
            if !eqz(&first, &s) {
                return fail(format!("odd function: {} and for the opposite argument {}", show(&first), show(&s)));
            }
            tags.push("odd");
        }
        "cos" | "cosh" | "abs" => {
            let s = call(op, &[&a[0].neg()], n, c.p, c.rm, cc);
            if !eqz(&first, &s) {
                return fail(format!("even function: {} and for the opposite argument {}", show(&first), show(&s)));
            }
            tags.push("even");
        }
        "powi" | "round" => {
            let odd = op == "round" || n & 1 == 1;
            let s = call(op, &[&a[0].neg()], n, c.p, if odd { mrm } else { c.rm }, cc);
            let s = if odd { s.neg() } else { s };
            if !eqz(&first, &s) {
                return fail(format!("parity: {} and for the opposite argument {}", show(&first), show(&s)));
            }
            tags.push("parity");
        }
        "floor" | "ceil" => {
            let s = call(if op == "floor" { "ceil" } else { "floor" }, &[&a[0].neg()], n, c.p, c.rm, cc).neg();
            if !eqz(&first, &s) {
                return fail(format!("floor and ceil: {} and {}", show(&first), show(&s)));
            }
            tags.push("floor");
        }
        "max" | "min" => {
            let s = call(op, &[&a[1], &a[0]], n, c.p, c.rm, cc);
            if first.cmp(&s) != Some(0) {
                return fail(format!("{} of swapped operands: {} and {}", op, show(&first), show(&s)));
            }
        }
        _ => {}
    }
    let _ = mirrored;
    okt(true, tags)
}

pub fn noise_steps(r: &mut Rng, c: &mut Case) {
    let k = r.us(5);
    for _ in 0..k {
        c.steps.push(Step {
            op: r.pick(&["sin", "exp", "ln", "log10", "atan", "pow", "format", "parse"]).to_string(),
            a: vec![],
            p: gen::prec(r, 12),
            rm: gen::rm7(r),
            n: r.range(-100_000, 100_000),
        });
    }
}

fn g24(r: &mut Rng) -> Case {
    let mut c = g_call(r);
    for x in c.f.iter_mut() {
        if r.chance(1, 8) {
            x.set_inex(true);
        }
    }
    noise_steps(r, &mut c);
    c
}

fn g24_thread(r: &mut Rng) -> Case {
    let mut c = g24(r);
    c.n.truncate(1);
    c.n(77)
}

fn g24_special(r: &mut Rng) -> Case {
    let mut c = if r.bool() { g16_un(r) } else { g16_bin(r) };
    if c.n.len() > 1 {
        c.n[1] = c.n[1].min(3);
    }
    c.steps.clear();
    c
}

fn g24_big(r: &mut Rng) -> Case {
    let op = match r.below(4) {
        0 => *r.pick(&UN_F),
        1 => *r.pick(&UN_P),
        2 => *r.pick(&BIN_P),
        _ => *r.pick(&BIN_F),
    };
    let mut c = Case::new(op).p(gen::prec(r, 20)).rm(gen::rm7(r)).n(small_n(r));
    for i in 0..arity(op) {
        let x = operand(r, op, i, 20);
        c.f.push(x);
    }
    noise_steps(r, &mut c);
    c
}

pub fn c24() -> Prop {
    Prop {
        id: "C24",
        rule: "no operand is NaN: all comparisons of the rule for the operation were made",
        assumptions: &["interleavings of threads are those the operating system makes"],
        check: check24,
        canon: vec![],
        streams: vec![
            Stream { name: "ordinary", quick: 100_000, thorough: 3_000_000, chunk: 100, gen: g24 },
            Stream { name: "threads", quick: 10_000, thorough: 300_000, chunk: 50, gen: g24_thread },
            Stream { name: "special", quick: 100_000, thorough: 2_000_000, chunk: 100, gen: g24_special },
            Stream { name: "long", quick: 10_000, thorough: 300_000, chunk: 20, gen: g24_big },
        ],
    }
}

// ---------------------------------------------------------------- C25

pub const LIMIT: usize = (isize::MAX / 2 + i32::MIN as isize) as usize;

pub const MAKERS: [&str; 19] = [
    "new", "from_f64", "from_f32", "from_word", "from_u8", "from_i8", "from_u64", "from_i64", "from_u128", "from_i128", "max_value", "min_value", "min_positive",
    "min_positive_normal", "random_normal", "parse", "convert_from_radix", "const", "from_u16",
];

/// a number without digits is a zero of any exponent
pub fn repr_ok0(x: &BigFloat) -> Result<(), String> {
    if x.mantissa_max_bit_len() == Some(0) {
        return Ok(());
    }
    repr_ok(x)
}

/// a constructor with precision `p`; n[0], n[1] select the value
pub fn make(op: &str, c: &Case, cc: &mut Consts) -> BigFloat {
    let p = c.p;
    let rm = RMS[c.rm as usize];
    let n = c.n.first().copied().unwrap_or(0);
    let q = c.n.get(1).copied().unwrap_or(0);
    let rdx = [Radix::Bin, Radix::Oct, Radix::Dec, Radix::Hex][q.rem_euclid(4) as usize];
    match op {
        "new" => BigFloat::new(p),
        "from_f64" => BigFloat::from_f64(n as f64 / 1024.0, p),
        "from_f32" => BigFloat::from_f32(n as f32 / 1024.0, p),
        "from_word" => BigFloat::from_word(n as u64, p),
        "from_u8" => BigFloat::from_u8(n as u8, p),
        "from_i8" => BigFloat::from_i8(n as i8, p),
        "from_u16" => BigFloat::from_u16(n as u16, p),
        "from_u64" => BigFloat::from_u64(n as u64, p),
        "from_i64" => BigFloat::from_i64(n, p),
        "from_u128" => BigFloat::from_u128((n as u64 as u128) << 64 | 5, p),
        "from_i128" => BigFloat::from_i128((n as i128) << 60, p),
        "max_value" => BigFloat::max_value(p),
        "min_value" => BigFloat::min_value(p),
        "min_positive" => BigFloat::min_positive(p),
        "min_positive_normal" => BigFloat::min_positive_normal(p),
        "random_normal" => BigFloat::random_normal(p, -5, 5),
        "parse" => BigFloat::parse(&format!("{}.1", if n < 0 { "-11" } else { "101" }), rdx, p, rm, cc),
        "convert_from_radix" => BigFloat::convert_from_radix(if n < 0 { astro_float::Sign::Neg } else { astro_float::Sign::Pos }, &[1, 0, 1, 1], 3, rdx, p, rm, cc),
        "const" => super::consts::konst_of(cc, super::consts::KS[q.rem_euclid(4) as usize], p, c.rm),
        _ => unreachable!("{}", op),
    }
}

fn has_p(op: &str) -> bool {
    UN_F.contains(&op) || UN_P.contains(&op) || BIN_P.contains(&op) || BIN_F.contains(&op) || op == "powi" || op == "set_precision"
}

fn check25(c: &Case, ctx: &mut Ctx) -> Res {
    let op = c.op.as_str();
    let n = c.n.first().copied().unwrap_or(0);
    if c.rm > 6 {
        return Ok(Out::Skip);
    }
    if !MAKERS.contains(&op) {
        let k = arity(op);
        if c.f.len() != k || (need_n(op) && n < 0) || c.f.iter().any(|x| x.p() > 8192) {
            return Ok(Out::Skip);
        }
        if too_big(op, &c.f, 64, n) {
            return Ok(Out::Skip);
        }
    }
    let eval = |c: &Case, ctx: &mut Ctx| -> BigFloat {
        if MAKERS.contains(&c.op.as_str()) {
            make(&c.op, c, &mut ctx.cc)
        } else {
            let a = bfs(c);
            let r: Vec<&BigFloat> = a.iter().collect();
            call(&c.op, &r, n, c.p, c.rm, &mut ctx.cc)
        }
    };
    match c.s.as_str() {
        "huge" => {
            if c.p < LIMIT {
                return Ok(Out::Skip);
            }
            // the precision means "automatic" here
            if c.p == usize::MAX && (op == "parse" || op == "convert_from_radix") {
                return Ok(Out::Skip);
            }
            let got = eval(c, ctx);
            if got.is_nan() && got.err() == Some(Error::InvalidArgument) {
                return okt(true, vec!["reported"]);
            }
            // infinite results have no precision
            if !MAKERS.contains(&op) {
                let small = Case { p: 64, ..c.clone() };
                let ord = eval(&small, ctx);
                if (ord.is_inf() || ord.is_nan()) && Fl::from_bf(&ord) == Fl::from_bf(&got) {
                    return okt(false, vec!["no-number"]);
                }
                if op == "powi" && n == 0 {
                    // still a number of that precision
                }
            }
            fail(format!("precision {} gives {} (err {})", c.p, Fl::from_bf(&got).show(), err_name(got.err())))
        }
        "vast" => {
            // valid, but more than any machine has memory for
            if c.p < 1 << 50 || c.p >= LIMIT - 64 || !vast_op(op, c.n.get(1).copied().unwrap_or(0)) {
                return Ok(Out::Skip);
            }
            let got = eval(c, ctx);
            if got.is_nan() && got.err() == Some(Error::MemoryAllocation) {
                return okt(true, vec!["reported"]);
            }
            if !MAKERS.contains(&op) {
                let small = Case { p: 64, ..c.clone() };
                let ord = eval(&small, ctx);
                if (ord.is_inf() || ord.is_nan()) && Fl::from_bf(&ord) == Fl::from_bf(&got) {
                    return okt(false, vec!["no-number"]);
                }
            }
            fail(format!("precision {} gives {} (err {})", c.p, Fl::from_bf(&got).show(), err_name(got.err())))
        }
        "ragged" => {
            if c.p == 0 || c.p > 8192 || op == "set_precision" || op == "random_normal" {
                return Ok(Out::Skip);
            }
            let got = eval(c, ctx);
            let al = eval(&Case { p: round_p(c.p), ..c.clone() }, ctx);
            if !eq_bits(&got, &al) {
                return fail(format!("precision {}: {} but precision {}: {}", c.p, Fl::from_bf(&got).show(), round_p(c.p), Fl::from_bf(&al).show()));
            }
            repr_ok0(&got).or_else(|m| fail(m))?;
            if MAKERS.contains(&op) || has_p(op) {
                if let Some(b) = got.mantissa_max_bit_len() {
                    if b != round_p(c.p) {
                        return fail(format!("precision {} gives {} bits", c.p, b));
                    }
                }
            }
            okt(c.p % 64 != 0, vec![])
        }
        "zero" => {
            // precision zero and numbers of precision zero: anything well-formed
            let cz = Case { p: 0, ..c.clone() };
            let got = eval(&cz, ctx);
            repr_ok0(&got).or_else(|m| fail(m))?;
            if let Some(b) = got.mantissa_max_bit_len() {
                if b > 64 && (MAKERS.contains(&op) || has_p(op)) {
                    return fail(format!("precision 0 gives {} bits", b));
                }
            }
            use_it(&got, c, ctx)?;
            okt(true, vec![])
        }
        "empty" => {
            // a number without digits as an operand
            let mut a = bfs(c);
            let i = (c.n.get(1).copied().unwrap_or(0).unsigned_abs() as usize) % a.len().max(1);
            if a.is_empty() {
                return Ok(Out::Skip);
            }
            a[i] = match c.n.get(2).copied().unwrap_or(0) % 4 {
                0 => BigFloat::new(0),
                1 => {
                    let mut z = BigFloat::new(0);
                    z.set_sign(astro_float::Sign::Neg);
                    z
                }
                2 => {
                    let mut z = BigFloat::from_word(3, 64);
                    if z.set_precision(0, RMS[c.rm as usize]).is_err() {
                        return Ok(Out::Skip);
                    }
                    z
                }
                _ => BigFloat::from_word(3, 64).add(&BigFloat::from_word(1, 64), 0, RMS[c.rm as usize]),
            };
            let r: Vec<&BigFloat> = a.iter().collect();
            let got = call(op, &r, n, c.p, c.rm, &mut ctx.cc);
            repr_ok0(&got).or_else(|m| fail(m))?;
            use_it(&got, c, ctx)?;
            use_it(&a[i], c, ctx)?;
            okt(true, vec![])
        }
        _ => Ok(Out::Skip),
    }
}

/// everything that has no precision argument
fn use_it(x: &BigFloat, c: &Case, ctx: &mut Ctx) -> Result<(), Fail> {
    let rm = RMS[c.rm as usize];
    let cc = &mut ctx.cc;
    if x.mantissa_max_bit_len().unwrap_or(0) > 10_000 || x.exponent().map(|e| e.unsigned_abs() > 100_000).unwrap_or(false) {
        return Ok(());
    }
    let one = BigFloat::from_word(1, 64);
    for rdx in [Radix::Bin, Radix::Oct, Radix::Dec, Radix::Hex] {
        let _ = x.format(rdx, rm, cc);
        let _ = x.convert_to_radix(rdx, rm, cc);
    }
    let _ = x.to_string();
    for y in [x.abs(), x.neg(), x.floor(), x.ceil(), x.int(), x.fract(), x.signum(), x.round(3, rm), x.clone()] {
        repr_ok0(&y).or_else(|m| fail(m))?;
    }
    for y in [x.rem(&one), one.rem(x), x.add_full_prec(&one), one.sub_full_prec(x), x.mul_full_prec(&one), x.max(&one), one.min(x), x.clamp(x, &one), one.add(x, 64, rm), one.div(x, 64, rm), x.sqrt(64, rm)] {
        repr_ok0(&y).or_else(|m| fail(m))?;
    }
    let _ = x.cmp(&one);
    let _ = one.abs_cmp(x);
    let _ = x.is_int();
    let _ = x.is_zero();
    let _ = x.classify();
    let _ = (x.exponent(), x.precision(), x.sign(), x.as_raw_parts(), x.mantissa_digits(), x.inexact(), x.is_subnormal());
    let mut y = x.clone();
    y.set_exponent(5);
    y.set_sign(astro_float::Sign::Neg);
    y.set_inexact(true);
    y.inv_sign();
    let _ = y.set_precision(128, rm);
    repr_ok0(&y).or_else(|m| fail(m))?;
    let _ = y.set_precision(0, rm);
    repr_ok0(&y).or_else(|m| fail(m))?;
    Ok(())
}

fn huge_p(r: &mut Rng) -> usize {
    match r.below(7) {
        0 => LIMIT + r.us(200),
        1 => isize::MAX as usize - r.us(300),
        2 => isize::MAX as usize + r.us(300),
        3 => usize::MAX - r.us(200),
        4 => usize::MAX - 64 * r.us(64),
        5 => LIMIT + (r.u64() >> 2) as usize,
        _ => ((r.u64() >> 1) as usize).saturating_add(LIMIT),
    }
}

fn vast_op(op: &str, q: i64) -> bool {
    match op {
        "const" => false,
        "parse" | "convert_from_radix" => q.rem_euclid(4) != 2,
        _ => MAKERS.contains(&op) || UN_P.contains(&op) || BIN_P.contains(&op) || op == "set_precision",
    }
}

fn g25_vast(r: &mut Rng) -> Case {
    loop {
        let k = r.range(50, 62) as u32;
        let p = (1usize << k) + (r.u64() as usize & ((1 << k) - 1));
        if p >= LIMIT - 64 {
            continue;
        }
        let c = g25_base(r, "vast", p);
        if vast_op(&c.op, c.n.get(1).copied().unwrap_or(0)) {
            return c;
        }
    }
}

fn g25_base(r: &mut Rng, kind: &str, p: usize) -> Case {
    if kind != "empty" && r.chance(1, 3) {
        let op = *r.pick(&MAKERS);
        let v = match r.below(3) {
            0 => 0,
            1 => r.range(-200, 200),
            _ => r.u64() as i64,
        };
        return Case::new(op).p(p).rm(gen::rm7(r)).n(v).n(r.range(0, 3)).s(kind.into());
    }
    let op = loop {
        let o = any_op(r);
        if kind == "empty" || has_p(o) {
            break o;
        }
    };
    let mut c = Case::new(op).p(p).rm(gen::rm7(r)).n(small_n(r)).n(r.range(0, 2)).n(r.range(0, 3)).s(kind.into());
    for i in 0..arity(op) {
        let x = if r.chance(1, 6) { special(r) } else { operand(r, op, i, 3) };
        c.f.push(x);
    }
    c
}

pub fn c25() -> Prop {
    Prop {
        id: "C25",
        rule: "the wrong precision was reported, or the ragged precision is not a multiple of the word size, or a number without digits took part",
        assumptions: &["precisions between the largest one the machine has memory for and the documented limit are not tried"],
        check: check25,
        canon: vec![],
        streams: vec![
            Stream { name: "huge", quick: 100_000, thorough: 2_000_000, chunk: 100, gen: |r| {
                let p = huge_p(r);
                g25_base(r, "huge", p)
            } },
            Stream { name: "vast", quick: 5_000, thorough: 1_000_000, chunk: 100, gen: g25_vast },
            Stream { name: "ragged", quick: 150_000, thorough: 4_000_000, chunk: 100, gen: |r| {
                let p = 1 + r.us(320);
                g25_base(r, "ragged", p)
            } },
            Stream { name: "zero", quick: 40_000, thorough: 1_000_000, chunk: 100, gen: |r| g25_base(r, "zero", 0) },
            Stream { name: "empty", quick: 40_000, thorough: 1_000_000, chunk: 100, gen: |r| {
                let p = if r.bool() { 64 } else { r.us(200) };
                g25_base(r, "empty", p)
            } },
        ],
    }
}
