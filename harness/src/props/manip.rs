//! C10 comparison, C11 integer parts and rounding to digits, C12 precision and exponent changes,
//! C17 well-formedness over histories, C18 native conversions, C26 random numbers.

use super::arith::arith_exact;
use super::exact::same_value;
use super::*;
use crate::gen;
use crate::oracle as or;
use crate::oracle::Ap;
use crate::rng::Rng;
use astro_float::{Error, FromExt, RoundingMode, Sign};
use rug::Integer;
use std::cmp::Ordering;

// ---------------------------------------------------------------- C10

fn class(x: &Fl) -> i32 {
    match x {
        Fl::Inf { neg } => {
            if *neg {
                -2
            } else {
                2
            }
        }
        _ => {
            if x.is_zero() {
                0
            } else if x.neg() {
                -1
            } else {
                1
            }
        }
    }
}

fn mag_cmp(a: &Fl, b: &Fl) -> Ordering {
    match (class(a).abs(), class(b).abs()) {
        (1, 1) => {}
        (x, y) => return x.cmp(&y),
    }
    if a.ne() != b.ne() {
        return a.ne().cmp(&b.ne());
    }
    let ((ma, ka), (mb, kb)) = (a.mk(), b.mk());
    let k = ka.min(kb);
    (ma << (ka - k) as u32).cmp(&(mb << (kb - k) as u32))
}

/// order of the exact values; None if one is NaN
pub fn val_cmp(a: &Fl, b: &Fl) -> Option<Ordering> {
    if *a == Fl::NaN || *b == Fl::NaN {
        return None;
    }
    let (ca, cb) = (class(a), class(b));
    if ca != cb || ca.abs() != 1 {
        return Some(ca.cmp(&cb));
    }
    let o = mag_cmp(a, b);
    Some(if ca < 0 { o.reverse() } else { o })
}

fn same(got: &BigFloat, exp: &Fl) -> Result<(), Fail> {
    expect(got, exp, STRICT)
}

fn c10_check(c: &Case, _ctx: &mut Ctx) -> Res {
    let need = if c.op == "clamp" { 3 } else { 2 };
    if c.f.len() < need {
        return Ok(Out::Skip);
    }
    let (x, y) = (&c.f[0], &c.f[1]);
    let (a, b) = (x.to_bf(), y.to_bf());
    let o = val_cmp(x, y);
    let absx = x.with_neg(false);
    let absy = y.with_neg(false);
    macro_rules! chk {
        ($got:expr, $exp:expr, $what:expr) => {{
            let (g, e) = ($got, $exp);
            if g != e {
                return fail(format!("{}: got {:?} expected {:?}", $what, g, e));
            }
        }};
    }
    match c.op.as_str() {
        "cmp" => {
            chk!(a.cmp(&b).map(|v| v.cmp(&0)), o, "cmp");
            chk!(b.cmp(&a).map(|v| v.cmp(&0)), o.map(|v| v.reverse()), "reversed cmp");
            chk!(a.abs_cmp(&b).map(|v| v.cmp(&0)), val_cmp(&absx, &absy), "abs_cmp");
            chk!(a.partial_cmp(&b), o, "partial_cmp");
            chk!(a.partial_cmp(&&b), o, "partial_cmp with a reference");
            chk!(a == b, o == Some(Ordering::Equal), "==");
            chk!(a == &b, o == Some(Ordering::Equal), "== with a reference");
            chk!(a != b, o != Some(Ordering::Equal), "!=");
            chk!(a < b, o == Some(Ordering::Less), "<");
            chk!(a <= b, matches!(o, Some(Ordering::Less | Ordering::Equal)), "<=");
            chk!(a > b, o == Some(Ordering::Greater), ">");
            chk!(a >= b, matches!(o, Some(Ordering::Greater | Ordering::Equal)), ">=");
            let nt = o.is_some() && class(x).abs() == 1 && class(y).abs() == 1 && (x.ne() == y.ne());
            let tag = match o {
                Some(Ordering::Equal) => "equal",
                None => "unordered",
                _ => "ordered",
            };
            okt(nt, vec![tag])
        }
        "minmax" => {
            let (mx, mn) = (a.max(&b), a.min(&b));
            match o {
                None => {
                    chk!(mx.is_nan(), true, "max");
                    chk!(mn.is_nan(), true, "min");
                }
                Some(Ordering::Equal) => {
                    let ok1 = |g: &BigFloat| diff(g, x, STRICT).is_ok() || diff(g, y, STRICT).is_ok();
                    chk!(ok1(&mx), true, "max of equal numbers is one of them");
                    chk!(ok1(&mn), true, "min of equal numbers is one of them");
                }
                Some(Ordering::Less) => {
                    same(&mx, y)?;
                    same(&mn, x)?;
                }
                Some(Ordering::Greater) => {
                    same(&mx, x)?;
                    same(&mn, y)?;
                }
            }
            ok(o.is_some() && o != Some(Ordering::Equal))
        }
        "clamp" => {
            let z = &c.f[2];
            let g = a.clamp(&b, &z.to_bf());
            let nan = *x == Fl::NaN || *y == Fl::NaN || *z == Fl::NaN || val_cmp(z, y) == Some(Ordering::Less);
            if nan {
                chk!(g.is_nan(), true, "clamp");
                return ok(*x != Fl::NaN && *y != Fl::NaN && *z != Fl::NaN);
            }
            let (oy, oz) = (val_cmp(x, y).unwrap(), val_cmp(x, z).unwrap());
            let allowed: Vec<&Fl> = if oy == Ordering::Less {
                vec![y]
            } else if oz == Ordering::Greater {
                vec![z]
            } else {
                let mut v = vec![x];
                if oy == Ordering::Equal {
                    v.push(y);
                }
                if oz == Ordering::Equal {
                    v.push(z);
                }
                v
            };
            if !allowed.iter().any(|e| diff(&g, e, STRICT).is_ok()) {
                return fail(format!("clamp: got {} expected {}", Fl::from_bf(&g).show(), allowed[0].show()));
            }
            ok(true)
        }
        "sign" => {
            let n = x.with_neg(!x.neg());
            let nan = *x == Fl::NaN;
            same(&a.neg(), &n)?;
            same(&-&a, &n)?;
            same(&-(a.clone()), &n)?;
            let mut t = a.clone();
            same(&t, x)?;
            t.inv_sign();
            same(&t, &n)?;
            t.inv_sign();
            same(&t, x)?;
            same(&a.abs(), &absx)?;
            for s in [Sign::Pos, Sign::Neg] {
                let mut t = a.clone();
                t.set_sign(s);
                same(&t, &x.with_neg(s == Sign::Neg))?;
            }
            chk!(a.is_positive(), !nan && !x.neg(), "is_positive");
            chk!(a.is_negative(), !nan && x.neg(), "is_negative");
            chk!(a.sign(), if nan { None } else { Some(if x.neg() { Sign::Neg } else { Sign::Pos }) }, "sign");
            let sg = a.signum();
            if nan {
                chk!(sg.is_nan(), true, "signum");
            } else if !x.is_zero() {
                let e = Fl::from_int(&Integer::from(if x.neg() { -1 } else { 1 }), 128);
                let g = Fl::from_bf(&sg);
                if val_cmp(&g, &e) != Some(Ordering::Equal) || g.inex() {
                    return fail(format!("signum: {}", g.show()));
                }
            } else if sg.is_nan() || val_cmp(&Fl::from_bf(&sg.abs()), &Fl::from_int(&Integer::from(1), 64)) == Some(Ordering::Greater) {
                return fail(format!("signum of zero: {}", Fl::from_bf(&sg).show()));
            }
            same(&a, x)?;
            ok(!nan)
        }
        _ => Ok(Out::Skip),
    }
}

const C10OPS: [&str; 6] = ["cmp", "cmp", "cmp", "minmax", "clamp", "sign"];

fn third(r: &mut Rng, c: Case) -> Case {
    if c.op == "clamp" {
        let z = match r.below(3) {
            0 => gen::near(r, &c.f[0]),
            1 => gen::near(r, &c.f[1]),
            _ => gen::any(r, 6, gen::Er::Mid),
        };
        c.f(z)
    } else {
        c
    }
}

fn g10_any(r: &mut Rng) -> Case {
    let er = *r.pick(&[gen::Er::Small, gen::Er::Mid, gen::Er::Any]);
    let op = *r.pick(&C10OPS);
    let c = Case::new(op).f(gen::any(r, 8, er)).f(gen::any(r, 8, er));
    third(r, c)
}
fn g10_near(r: &mut Rng) -> Case {
    let er = *r.pick(&[gen::Er::Small, gen::Er::Any]);
    let a = gen::any(r, 8, er);
    let b = gen::near(r, &a);
    let (a, b) = if r.bool() { (a, b) } else { (b, a) };
    let op = *r.pick(&C10OPS);
    let c = Case::new(op).f(a).f(b);
    third(r, c)
}
/// the same value (or one that differs in its last bit) in different lengths, subnormal numbers included
fn g10_len(r: &mut Rng) -> Case {
    let n = gen::words(r, 8);
    let er = *r.pick(&[gen::Er::Small, gen::Er::Low]);
    let a = if r.chance(1, 3) { gen::subnormal(r, n) } else { gen::num_w(r, n, er) };
    let mut b = a.clone();
    if let Fl::Fin { w, e, neg, .. } = &mut b {
        // extend below by zero words, then normalise where the exponent allows it
        let k = 1 + r.us(4);
        let mut v = vec![0u64; k];
        v.extend_from_slice(w);
        if r.bool() {
            // drop leading zeros as far as possible
            let m = Integer::from_digits(&v, rug::integer::Order::Lsf);
            let lz = (v.len() * 64 - bitlen(&v)) as i64;
            let sh = lz.min(*e - EMIN);
            if bitlen(&v) > 0 {
                v = Integer::from(m << sh as u32).to_digits(rug::integer::Order::Lsf);
                v.resize(k + w.len(), 0);
                *e -= sh;
            }
        }
        if r.bool() {
            let b = r.us(k * 64);
            v[b / 64] |= 1 << (b % 64);
        }
        if r.chance(1, 6) {
            *neg = !*neg;
        }
        *w = v;
    }
    let b = if b.normal_or_sub_valid() { b } else { a.clone() };
    let (a, b) = if r.bool() { (a, b) } else { (b, a) };
    let op = *r.pick(&C10OPS);
    let c = Case::new(op).f(a).f(b);
    third(r, c)
}

pub fn c10() -> Prop {
    Prop {
        id: "C10",
        rule: "two finite non-zero operands whose magnitudes lie in the same binade (cmp), distinct operands (min, max), operands that are not NaN (clamp, signs)",
        assumptions: &["the sign of a zero does not matter for the order", "signum of a zero may be a zero or the sign"],
        check: c10_check,
        canon: vec![],
        streams: vec![
            Stream { name: "any", quick: 6_000_000, thorough: 100_000_000, chunk: 4000, gen: g10_any },
            Stream { name: "near", quick: 12_000_000, thorough: 200_000_000, chunk: 4000, gen: g10_near },
            Stream { name: "length", quick: 10_000_000, thorough: 200_000_000, chunk: 4000, gen: g10_len },
            Stream { name: "long", quick: 2000000, thorough: 50000000, chunk: 400, gen: |r| {
                let g = *r.pick(&[g10_any as fn(&mut Rng) -> Case, g10_near, g10_len]);
                gen::longer(r, 40, g)
            } },
        ],
    }
}

// ---------------------------------------------------------------- C11

/// rounds |m*2^k| to a multiple of 2^q
pub fn round_q(neg: bool, m: &Integer, k: i64, q: i64, rm: u8) -> (Integer, bool) {
    if k >= q {
        return (Integer::from(m << (k - q) as u32), false);
    }
    let sh = q - k;
    let nb = m.significant_bits() as i64;
    let (t, half, rest) = if sh > nb {
        (Integer::new(), false, *m != 0)
    } else {
        let sh = sh as u32;
        (Integer::from(m >> sh), m.get_bit(sh - 1), m.find_one(0).map(|b| b < sh - 1).unwrap_or(false))
    };
    let inex = half || rest;
    let up = match rm {
        UP => inex && !neg,
        DOWN => inex && neg,
        FROMZERO => inex,
        TOEVEN => half && (rest || t.is_odd()),
        TOODD => half && (rest || t.is_even()),
        _ => false,
    };
    (if up { t + 1u32 } else { t }, inex)
}

fn c11_check(c: &Case, _ctx: &mut Ctx) -> Res {
    if c.f.is_empty() || !c.f[0].is_fin() || c.rm > 6 {
        return Ok(Out::Skip);
    }
    let x = &c.f[0];
    let a = x.to_bf();
    let (m, k) = x.mk();
    let (neg, p) = (x.neg(), x.p());
    let is_int = x.is_zero() || k >= 0;
    let put = |t: Integer, q: i64, inex: bool| -> Fl {
        let mut e = or::round_ap(&Ap::exact(neg, t, q), p, TOZERO);
        assert!(!e.inex(), "oracle: not representable");
        e.set_inex(inex);
        e
    };
    let tr = |q: i64, rm: u8| if x.is_zero() { (Integer::new(), false) } else { round_q(neg, &m, k, q, rm) };
    match c.op.as_str() {
        "parts" => {
            if a.is_int() != is_int {
                return fail(format!("is_int is {}", a.is_int()));
            }
            let whole = |rm| if is_int { x.clone() } else { put(tr(0, rm).0, 0, x.inex()) };
            let (f, cl, i) = (a.floor(), a.ceil(), a.int());
            expect(&f, &whole(DOWN), NOZS).map_err(|e| Fail { msg: format!("floor: {}", e.msg), sig: String::new() })?;
            expect(&cl, &whole(UP), NOZS).map_err(|e| Fail { msg: format!("ceil: {}", e.msg), sig: String::new() })?;
            expect(&i, &whole(TOZERO), NOZS).map_err(|e| Fail { msg: format!("int: {}", e.msg), sig: String::new() })?;
            let fr = if is_int {
                let mut z = Fl::zero(p, neg);
                z.set_inex(x.inex());
                z
            } else if x.ne() <= 0 {
                x.clone()
            } else {
                let ti = tr(0, TOZERO).0;
                put(Integer::from(&m - &(ti << (-k) as u32)), k, x.inex())
            };
            let g = a.fract();
            expect(&g, &fr, NOZS).map_err(|e| Fail { msg: format!("fract: {}", e.msg), sig: String::new() })?;
            let s = i.add_full_prec(&g);
            if !same_value(&Fl::from_bf(&s), &Ap::of(x), false) {
                return fail(format!("int + fract is {}", Fl::from_bf(&s).show()));
            }
            if !i.is_int() || !f.is_int() || !cl.is_int() {
                return fail("a whole number is not an integer");
            }
            okt(!is_int && x.ne() > 0, vec![if is_int { "integer" } else if x.ne() <= 0 { "below one" } else { "mixed" }])
        }
        "round" => {
            let n = *c.n.first().unwrap_or(&0);
            if n < 0 {
                return Ok(Out::Skip);
            }
            let g = a.round(n as usize, RMS[c.rm as usize]);
            let q = -n;
            if x.is_zero() || k >= q {
                expect(&g, x, STRICT)?;
                return okt(false, vec!["unchanged"]);
            }
            let (t, inex) = tr(q, c.rm);
            if c.rm == NONE {
                repr_ok(&g).or_else(|m| fail(m))?;
                let gf = Fl::from_bf(&g);
                if !gf.is_fin() || gf.p() != p {
                    return fail(format!("unrounded: got {}", gf.show()));
                }
                let err = or::add(&gf, x, true, p);
                if !err.is_zero() && err.m.significant_bits() as i64 + err.k > q {
                    return fail(format!("unrounded: got {} more than a unit away", gf.show()));
                }
                return okt(false, vec!["none"]);
            }
            let e = put(t, q, x.inex() || inex);
            expect(&g, &e, NOZS)?;
            okt(inex, vec![if e.is_zero() { "to zero" } else { "rounded" }])
        }
        _ => Ok(Out::Skip),
    }
}

/// sets the bits below `pos` to a pattern that matters for rounding at `pos`; optionally ones above it
pub fn set_tail(r: &mut Rng, w: &mut [u64], pos: usize) {
    let n = w.len() * 64;
    if pos == 0 || pos > n {
        return;
    }
    let clear = |w: &mut [u64], a: usize, b: usize| {
        for i in a..b {
            w[i / 64] &= !(1 << (i % 64));
        }
    };
    match r.below(9) {
        0 => clear(w, 0, pos),
        1 => {
            clear(w, 0, pos);
            w[0] |= 1;
        }
        2 => {
            clear(w, 0, pos);
            gen::fill_ones(w, pos - 1, pos);
        }
        3 => {
            clear(w, 0, pos);
            gen::fill_ones(w, pos - 1, pos);
            w[0] |= 1;
        }
        4 => {
            clear(w, 0, pos);
            gen::fill_ones(w, 0, pos - 1);
        }
        5 => gen::fill_ones(w, 0, pos),
        6 => {
            clear(w, 0, pos);
            let b = r.us(pos);
            gen::fill_ones(w, b, b + 1);
        }
        7 => {
            clear(w, 0, pos);
            gen::fill_ones(w, pos - 1, pos);
            let b = r.us(pos);
            gen::fill_ones(w, b, b + 1);
        }
        _ => {}
    }
    if pos < n && r.chance(1, 2) {
        if r.bool() {
            let top = pos + 1 + r.us(n - pos);
            gen::fill_ones(w, pos, top.min(n));
        } else {
            let l = w.len();
            w[pos / 64] ^= 1 << (pos % 64);
            w[l - 1] |= 1 << 63;
        }
    }
}

fn g11_point(r: &mut Rng) -> Case {
    let n = gen::words(r, 10);
    let mut w = gen::mant(r, n);
    let e = r.range(-3, (n * 64) as i64 + 3);
    let op = if r.bool() { "parts" } else { "round" };
    let digs = match r.below(4) {
        0 => 0,
        1 => r.range(0, 3),
        2 => r.range(0, 70),
        _ => r.range(0, (n * 64) as i64 - e.min(0) + 70),
    };
    let pos = (n * 64) as i64 - e - if op == "round" { digs } else { 0 };
    if pos > 0 && pos <= (n * 64) as i64 {
        set_tail(r, &mut w, pos as usize);
        w[n - 1] |= 1 << 63;
    }
    let x = Fl::Fin { neg: r.bool(), e, w, inex: r.chance(1, 8) };
    Case::new(op).f(x).n(digs).rm(gen::rm7(r))
}
fn g11_any(r: &mut Rng) -> Case {
    let er = *r.pick(&[gen::Er::Small, gen::Er::Mid, gen::Er::Any, gen::Er::Low, gen::Er::High]);
    let x = gen::numz(r, 8, er);
    let d = match r.below(4) {
        0 => r.range(0, 200),
        1 => (-x.ne() + r.range(-3, 3)).max(0),
        2 => (-x.ne() + r.range(-200, 200)).max(0),
        _ => (x.p() as i64 - x.e() + r.range(-3, 3)).max(0),
    };
    let op = if r.chance(1, 3) { "parts" } else { "round" };
    Case::new(op).f(x).n(d).rm(gen::rm7(r))
}

pub fn c11() -> Prop {
    Prop {
        id: "C11",
        rule: "the number has both an integer and a fractional part (parts), or digits are lost (round)",
        assumptions: &["the sign of a zero result is not fixed", "rounding mode None: within one unit"],
        check: c11_check,
        canon: vec![],
        streams: vec![
            Stream { name: "point", quick: 10_000_000, thorough: 150_000_000, chunk: 4000, gen: g11_point },
            Stream { name: "any", quick: 5_000_000, thorough: 100_000_000, chunk: 4000, gen: g11_any },
            Stream { name: "long", quick: 2000000, thorough: 50000000, chunk: 400, gen: |r| {
                let g = *r.pick(&[g11_point as fn(&mut Rng) -> Case, g11_any]);
                gen::longer(r, 40, g)
            } },
        ],
    }
}

// ---------------------------------------------------------------- C12

/// the value of x rounded to p bits counted from the top of its mantissa, stored in round_p(p) bits
pub fn rounded_to(x: &Fl, m: &Integer, k: i64, p: usize, rm: u8) -> Option<Fl> {
    // quantum: 2^(e-p) for the exponent of the mantissa that holds m*2^k
    let nb = m.significant_bits() as i64;
    let en = (nb + k).max(EMIN);
    let (t, inex) = round_q(x.neg(), m, k, en - p as i64, rm);
    if t == 0 {
        let mut z = Fl::zero(p, x.neg());
        z.set_inex(inex);
        return Some(z);
    }
    let mut f = or::round_ap(&Ap::exact(x.neg(), t, en - p as i64), round_p(p), TOZERO);
    if f.is_fin() {
        if f.inex() {
            return None;
        }
        f.set_inex(inex);
    }
    Some(f)
}

fn c12_check(c: &Case, ctx: &mut Ctx) -> Res {
    if c.f.is_empty() || !c.f[0].is_fin() || c.rm > 6 {
        return Ok(Out::Skip);
    }
    let x = &c.f[0];
    let rm = RMS[c.rm as usize];
    let mut a = x.to_bf();
    match c.op.as_str() {
        "setp" => {
            let conv = BigFloat::from_ext(a.clone(), c.p, rm, &mut ctx.cc);
            let res = a.set_precision(c.p, rm);
            let same = match &res {
                Ok(()) => Fl::from_bf(&conv) == Fl::from_bf(&a),
                Err(Error::ExponentOverflow(s)) => if *s == Sign::Neg { conv.is_inf_neg() } else { conv.is_inf_pos() },
                Err(_) => true,
            };
            if !same {
                return fail(format!("from_ext gives {}, set_precision {:?} {}", Fl::from_bf(&conv).show(), res, Fl::from_bf(&a).show()));
            }
            if c.p == 0 {
                if res.is_err() || a.is_nan() || a.is_inf() || a.mantissa_max_bit_len() != Some(0) {
                    return fail("set_precision(0)");
                }
                if !x.is_zero() && !a.inexact() {
                    return fail("set_precision(0) of a number is exact");
                }
                repr_ok(&a).or_else(|m| fail(m))?;
                return okt(false, vec!["p0"]);
            }
            let (m, k) = x.mk();
            if x.is_zero() || x.p() <= c.p {
                if let Err(e) = res {
                    return fail(format!("error {:?}", e));
                }
                let mut e = if x.is_zero() {
                    let mut z = Fl::zero(c.p, x.neg());
                    z.set_inex(x.inex());
                    z
                } else {
                    or::round_ap(&Ap::of(x), round_p(c.p), TOZERO)
                };
                if e.inex() && !x.is_zero() {
                    return Ok(Out::Skip);
                }
                e.set_inex(x.inex());
                // growing keeps the stored exponent: compare values, and the length
                let g = Fl::from_bf(&a);
                repr_ok(&a).or_else(|m| fail(m))?;
                if val_cmp(&g, x) != Some(Ordering::Equal) || g.p() != round_p(c.p) || g.inex() != x.inex() || g.neg() != x.neg() {
                    return fail(format!("got {} expected the same value", g.show()));
                }
                return okt(!x.is_zero() && round_p(c.p) > x.p(), vec!["grow"]);
            }
            let pp = if c.rm == NONE { round_p(c.p) } else { c.p };
            let Some(mut e) = rounded_to(x, &m, k, pp, c.rm) else { return Ok(Out::Skip) };
            if !e.is_fin() {
                return match res {
                    Err(Error::ExponentOverflow(s)) if (s == Sign::Neg) == x.neg() => okt(true, vec!["overflow"]),
                    r => fail(format!("expected overflow, got {:?} {}", r, Fl::from_bf(&a).show())),
                };
            }
            if let Err(e) = res {
                return fail(format!("error {:?}", e));
            }
            let lost = e.inex();
            e.set_inex(lost || x.inex());
            if c.rm == NONE && c.p % 64 != 0 {
                e.set_inex(a.inexact());
                if lost && !a.inexact() {
                    return fail("truncated number is marked exact");
                }
            }
            expect(&a, &e, STRICT)?;
            okt(lost, vec![if c.p % 64 == 0 { "word" } else { "ragged" }])
        }
        "try" => {
            let s = *c.n.first().unwrap_or(&0);
            if c.p == 0 || c.p >= x.p() || s <= 0 || x.is_zero() || c.rm == NONE {
                return Ok(Out::Skip);
            }
            let done = a.try_set_precision(c.p, rm, s as usize);
            let (m, k) = x.mk();
            // unit of the last correct digit
            let uq = x.e() - (s.min(x.p() as i64));
            if !x.inex() {
                if a.is_nan() && matches!(a.err(), Some(Error::ExponentOverflow(_))) {
                    return okt(false, vec!["overflow"]);
                }
                if !done {
                    return fail("an exact number was not rounded");
                }
                let Some(e) = rounded_to(x, &m, k, c.p, c.rm) else { return Ok(Out::Skip) };
                if !e.is_fin() {
                    return fail("expected overflow");
                }
                expect(&a, &e, STRICT)?;
                return okt(e.inex(), vec!["exact"]);
            }
            // the exact number lies strictly between x-u and x+u; scale so that there is room for a strict inequality
            let base = k.min(uq) - 2;
            let mm = Integer::from(&m << (k - base) as u32);
            let u = Integer::from(1) << (uq - base) as u32;
            let lo = Integer::from(&mm - &u) + 1u32;
            let hi = Integer::from(&mm + &u) - 1u32;
            if lo <= 0 {
                return Ok(Out::Skip);
            }
            let rl = rounded_to(x, &lo, base, c.p, c.rm);
            let rh = rounded_to(x, &hi, base, c.p, c.rm);
            let (Some(rl), Some(rh)) = (rl, rh) else { return Ok(Out::Skip) };
            if done {
                if a.is_nan() {
                    return if rh.is_fin() { fail("NaN") } else { okt(true, vec!["overflow"]) };
                }
                repr_ok(&a).or_else(|m| fail(m))?;
                let g = Fl::from_bf(&a);
                for (n, e) in [("smallest", &rl), ("largest", &rh)] {
                    if !e.is_fin() || val_cmp(&g, e) != Some(Ordering::Equal) || g.p() != round_p(c.p) {
                        return fail(format!("rounded to {} with {} correct digits, but the {} possible number rounds to {}", g.show(), s, n, e.show()));
                    }
                }
                if !g.inex() {
                    return fail("result is marked exact");
                }
                okt(true, vec!["roundable"])
            } else {
                // must succeed when every rounding boundary is at least two units away
                let en = x.e();
                let q = en - c.p as i64 - if c.rm == TOEVEN || c.rm == TOODD { 1 } else { 0 };
                if q <= base + 3 || uq + 2 >= q {
                    return okt(false, vec!["not roundable"]);
                }
                let unit = Integer::from(1) << (q - base) as u32;
                let rem = Integer::from(&mm % &unit);
                let two = Integer::from(&u * 2u32);
                if rem >= two && Integer::from(&unit - &rem) >= two {
                    return fail(format!("not rounded although every boundary is more than two units of digit {} away", s));
                }
                okt(true, vec!["not roundable"])
            }
        }
        "sete" => {
            let e = *c.n.first().unwrap_or(&0);
            if !(EMIN..=EMAX).contains(&e) {
                return Ok(Out::Skip);
            }
            a.set_exponent(e as astro_float::Exponent);
            if x.is_zero() {
                expect(&a, x, STRICT)?;
                return ok(false);
            }
            let (m, k) = x.mk();
            let mut ex = or::round_ap(&Ap::exact(x.neg(), m, k + (e - x.e())), x.p(), TOZERO);
            if ex.inex() || !ex.is_fin() {
                return fail("oracle: scaled number is not representable");
            }
            ex.set_inex(x.inex());
            expect(&a, &ex, STRICT)?;
            okt(true, vec![if x.is_subnormal() { "subnormal" } else { "normal" }])
        }
        _ => Ok(Out::Skip),
    }
}

fn bits(r: &mut Rng, max: usize) -> usize {
    match r.below(4) {
        0 => 64 * (1 + r.us(max / 64)),
        1 => 1 + r.us(3),
        _ => 1 + r.us(max),
    }
}

fn g12_set(r: &mut Rng) -> Case {
    let n = gen::words(r, 12);
    let mut w = gen::mant(r, n);
    let p = bits(r, n * 64 + 80).min(n * 64 + 200);
    if p < n * 64 {
        set_tail(r, &mut w, n * 64 - p);
        w[n - 1] |= 1 << 63;
    }
    let er = *r.pick(&[gen::Er::Mid, gen::Er::Any]);
    let e = gen::expo(r, er);
    Case::new("setp").f(Fl::Fin { neg: r.bool(), e, w, inex: r.chance(1, 8) }).p(p).rm(gen::rm7(r))
}
fn g12_set_limit(r: &mut Rng) -> Case {
    let n = gen::words(r, 8);
    let x = match r.below(4) {
        0 => gen::numz(r, 8, gen::Er::High),
        _ => {
            let mut x = gen::subnormal(r, n);
            let p = bits(r, n * 64);
            if let Fl::Fin { w, .. } = &mut x {
                if p < n * 64 {
                    set_tail(r, w, n * 64 - p);
                }
                if bitlen(w) == 0 {
                    w[0] = 1;
                }
            }
            return Case::new("setp").f(x).p(if r.chance(1, 40) { 0 } else { p }).rm(gen::rm7(r));
        }
    };
    let p = bits(r, n * 64 + 64);
    Case::new("setp").f(x).p(p).rm(gen::rm7(r))
}
fn g12_try(r: &mut Rng) -> Case {
    let n = 2 + r.us(6);
    let mut w = gen::mant(r, n);
    let p = if r.chance(2, 3) { 64 * (1 + r.us(n - 1)) } else { 1 + r.us(n * 64 - 1) };
    let s = match r.below(4) {
        0 => p as i64 + r.range(-3, 5),
        1 => (n * 64) as i64 + r.range(-3, 70),
        _ => p as i64 + r.range(0, (n * 64 - p) as i64 + 1),
    };
    // patterns in the window between s and p
    let top = n * 64 - p;
    let bot = (n * 64) as i64 - s;
    if bot >= 0 && (bot as usize) < top {
        let bot = bot as usize;
        match r.below(5) {
            0 => {}
            1 => gen::fill_ones(&mut w, bot, top),
            k => {
                for i in bot..top {
                    w[i / 64] &= !(1 << (i % 64));
                }
                if k == 2 {
                    gen::fill_ones(&mut w, top - 1, top);
                } else if k == 3 {
                    gen::fill_ones(&mut w, bot, top - 1);
                } else {
                    let b = bot + r.us(top - bot);
                    gen::fill_ones(&mut w, b, b + 1);
                }
            }
        }
        if bot > 0 && r.bool() {
            for i in 0..bot {
                w[i / 64] &= !(1 << (i % 64));
            }
            if r.bool() {
                gen::fill_ones(&mut w, 0, bot);
            }
        }
    }
    w[n - 1] |= 1 << 63;
    let er = *r.pick(&[gen::Er::Small, gen::Er::High]);
    let e = gen::expo(r, er);
    Case::new("try").f(Fl::Fin { neg: r.bool(), e, w, inex: r.chance(7, 8) }).p(p).n(s.max(1)).rm(gen::rm6(r))
}
fn g12_exp(r: &mut Rng) -> Case {
    let er = *r.pick(&[gen::Er::Mid, gen::Er::Any, gen::Er::Low]);
    let x = gen::numz(r, 6, er);
    let e = match r.below(4) {
        0 => EMIN + r.range(0, 500),
        1 => gen::expo(r, gen::Er::Any),
        2 => (x.e() + r.range(-3, 3)).clamp(EMIN, EMAX),
        _ => gen::expo(r, gen::Er::Mid),
    };
    Case::new("sete").f(x).n(e)
}

pub fn c12() -> Prop {
    Prop {
        id: "C12",
        rule: "rounding loses digits or the number grows (set_precision); the number is inexact and the decision is not forced by missing digits (try_set_precision); a non-zero number (set_exponent)",
        assumptions: &[
            "set_precision with a precision that is not a multiple of the word size rounds to exactly that many bits and stores whole words",
            "the count of correct digits means: the exact number differs by less than one unit of the last correct digit",
        ],
        check: c12_check,
        canon: vec![],
        streams: vec![
            Stream { name: "setp", quick: 10_000_000, thorough: 150_000_000, chunk: 4000, gen: g12_set },
            Stream { name: "setp-limit", quick: 5_000_000, thorough: 80_000_000, chunk: 4000, gen: g12_set_limit },
            Stream { name: "try", quick: 10_000_000, thorough: 150_000_000, chunk: 4000, gen: g12_try },
            Stream { name: "exponent", quick: 3_000_000, thorough: 50_000_000, chunk: 4000, gen: g12_exp },
            Stream { name: "long", quick: 2000000, thorough: 50000000, chunk: 400, gen: |r| {
                let g = *r.pick(&[g12_set as fn(&mut Rng) -> Case, g12_set_limit, g12_try, g12_exp]);
                gen::longer(r, 40, g)
            } },
        ],
    }
}

// ---------------------------------------------------------------- C17

fn ident(a: &BigFloat, b: &BigFloat, what: &str) -> Result<(), Fail> {
    let (x, y) = (Fl::from_bf(a), Fl::from_bf(b));
    if x != y {
        return fail(format!("{}: {} instead of {}", what, y.show(), x.show()));
    }
    Ok(())
}

/// accessors agree, taking apart and rebuilding is the identity, inconsistent parts are rejected
fn wellformed(b: &BigFloat, salt: u64) -> Result<(), Fail> {
    use std::num::FpCategory as C;
    repr_ok(b).or_else(|m| fail(m))?;
    let kinds = [b.is_nan(), b.is_inf_pos(), b.is_inf_neg(), b.as_raw_parts().is_some()];
    if kinds.iter().filter(|x| **x).count() != 1 || b.is_inf() != (kinds[1] || kinds[2]) {
        return fail(format!("kind of the value is ambiguous: {:?}", kinds));
    }
    if b.sign().is_none() != b.is_nan() || b.is_positive() && b.is_negative() || !b.is_nan() && !b.is_positive() && !b.is_negative() {
        return fail("sign accessors");
    }
    let cl = b.clone();
    ident(b, &cl, "clone")?;
    let Some((w, n, s, e, inex)) = b.as_raw_parts() else {
        let c = b.classify();
        if c != if b.is_nan() { C::Nan } else { C::Infinite } || b.is_zero() || b.is_subnormal() || b.is_int() || b.inexact() {
            return fail("accessors of a special value");
        }
        if b.exponent().is_some() || b.precision().is_some() || b.mantissa_max_bit_len().is_some() || b.mantissa_digits().is_some() {
            return fail("a special value has an exponent, a precision or digits");
        }
        return Ok(());
    };
    if b.mantissa_digits() != Some(w) || b.inexact() != inex || (s == Sign::Neg) != b.is_negative() {
        return fail("accessors disagree with the raw parts");
    }
    let full = w.len() * 64;
    let cls = if n == 0 {
        C::Zero
    } else if n < full {
        C::Subnormal
    } else {
        C::Normal
    };
    if b.classify() != cls {
        return fail(format!("classify is {:?}, expected {:?}", b.classify(), cls));
    }
    if n > 0 && b.is_subnormal() != (n < full) {
        return fail("is_subnormal");
    }
    let re = BigFloat::from_raw_parts(w, n, s, e, inex);
    ident(b, &re, "rebuilt from raw parts")?;
    repr_ok(&re).or_else(|m| fail(m))?;
    if !w.is_empty() {
        let fw = BigFloat::from_words(w, s, e);
        let mut ex = b.clone();
        ex.set_inexact(false);
        ident(&ex, &fw, "rebuilt from words")?;
        repr_ok(&fw).or_else(|m| fail(m))?;
        // inconsistent parts
        for bad in [n + 1, n.wrapping_sub(1), full + 1, full + 64, usize::MAX] {
            if bad != n && !BigFloat::from_raw_parts(w, bad, s, e, inex).is_nan() {
                return fail(format!("{} significant bits accepted for a mantissa with {}", bad, n));
            }
        }
        // unnormalised mantissa
        let mut w2 = w.to_vec();
        let l = w2.len() - 1;
        w2[l] &= !(1 << 63);
        let n2 = bitlen(&w2);
        let e2 = (e as i64).max(EMIN + 1).min(EMAX) as astro_float::Exponent;
        if n2 > 0 && !BigFloat::from_raw_parts(&w2, n2, s, e2, inex).is_nan() {
            return fail("unnormalised mantissa with a normal exponent accepted");
        }
        // from_words normalises
        let sh = (salt % (full as u64)) as usize;
        let i = Integer::from_digits(w, rug::integer::Order::Lsf) >> sh as u32;
        let mut w3 = i.to_digits::<u64>(rug::integer::Order::Lsf);
        w3.resize(w.len(), 0);
        let g = BigFloat::from_words(&w3, s, e);
        let mut ex = or::round_ap(&Ap::exact(s == Sign::Neg, i, e as i64 - full as i64), full, TOZERO);
        ex.set_inex(false);
        expect(&g, &ex, STRICT)?;
    }
    Ok(())
}

const HOPS: [&str; 38] = [
    "add", "sub", "mul", "div", "add", "sub", "mul", "div", "reciprocal", "sqrt", "cbrt", "rem", "addf", "subf", "mulf", "setp", "setp", "sete", "sete", "neg",
    "abs", "floor", "ceil", "int", "fract", "round", "setinex", "setsign", "try", "min", "max", "powi", "exp", "ln", "sin", "atan", "tanh", "mulf",
];

fn c17_check(c: &Case, ctx: &mut Ctx) -> Res {
    if c.f.is_empty() || c.f.iter().any(|x| !x.normal_or_sub_valid()) {
        return Ok(Out::Skip);
    }
    let mut pool: Vec<BigFloat> = c.f.iter().map(|x| x.to_bf()).collect();
    for b in &pool {
        wellformed(b, 3)?;
    }
    let k = pool.len();
    let mut kinds = std::collections::HashSet::new();
    let mut tags = vec![];
    for (i, st) in c.steps.iter().enumerate() {
        if st.rm > 6 || st.a.len() < 2 {
            continue;
        }
        let (x, y, d) = (st.a[0] % k, st.a[1] % k, i % k);
        let rm = RMS[st.rm as usize];
        let p = st.p;
        let (a, b) = (pool[x].clone(), pool[y].clone());
        let (fa, fb) = (Fl::from_bf(&a), Fl::from_bf(&b));
        let mut wantp = None;
        // bounded exponents and lengths where the cost depends on them
        let cheap = |f: &Fl| f.is_fin() && f.p() <= 2048;
        let r = match st.op.as_str() {
            "add" | "sub" | "mul" | "div" | "reciprocal" | "sqrt" | "cbrt" => {
                if p == 0 {
                    continue;
                }
                wantp = Some(p);
                match st.op.as_str() {
                    "add" => a.add(&b, p, rm),
                    "sub" => a.sub(&b, p, rm),
                    "mul" => a.mul(&b, p, rm),
                    "div" => a.div(&b, p, rm),
                    "reciprocal" => a.reciprocal(p, rm),
                    "sqrt" => a.sqrt(p, rm),
                    _ => a.cbrt(p, rm),
                }
            }
            "powi" | "exp" | "ln" | "sin" | "atan" | "tanh" => {
                if p == 0 || p > 256 || !cheap(&fa) || (fa.is_nonzero_fin() && fa.ne().abs() > 300) {
                    continue;
                }
                wantp = Some(p);
                match st.op.as_str() {
                    "powi" => a.powi((st.n.unsigned_abs() % 40) as usize, p, rm),
                    "exp" => {
                        if fa.is_nonzero_fin() && fa.ne() > 30 {
                            continue;
                        }
                        a.exp(p, rm, &mut ctx.cc)
                    }
                    "ln" => a.ln(p, rm, &mut ctx.cc),
                    "sin" => a.sin(p, rm, &mut ctx.cc),
                    "atan" => a.atan(p, rm, &mut ctx.cc),
                    _ => a.tanh(p, rm, &mut ctx.cc),
                }
            }
            "rem" => {
                if !cheap(&fb) {
                    continue;
                }
                a.rem(&b)
            }
            "addf" | "subf" => {
                if !cheap(&fa) || !cheap(&fb) || (fa.e() - fb.e()).abs() > 2000 {
                    continue;
                }
                if st.op == "addf" {
                    a.add_full_prec(&b)
                } else {
                    a.sub_full_prec(&b)
                }
            }
            "mulf" => {
                if !cheap(&fa) || !cheap(&fb) {
                    continue;
                }
                a.mul_full_prec(&b)
            }
            "setp" => {
                let mut t = a.clone();
                if t.set_precision(p, rm).is_err() {
                    continue;
                }
                wantp = Some(p);
                t
            }
            "try" => {
                let mut t = a.clone();
                if p == 0 || !t.try_set_precision(p, rm, st.n.unsigned_abs() as usize) {
                    continue;
                }
                if t.is_nan() && matches!(t.err(), Some(Error::ExponentOverflow(_))) {
                    continue;
                }
                wantp = Some(p);
                t
            }
            "sete" => {
                let mut t = a.clone();
                t.set_exponent(st.n.clamp(EMIN, EMAX) as astro_float::Exponent);
                t
            }
            "neg" => a.neg(),
            "abs" => a.abs(),
            "floor" => a.floor(),
            "ceil" => a.ceil(),
            "int" => a.int(),
            "fract" => a.fract(),
            "round" => a.round(st.n.unsigned_abs() as usize % 4000, rm),
            "setinex" => {
                let mut t = a.clone();
                t.set_inexact(st.n & 1 == 1);
                if a.is_nan() || a.is_inf() {
                    ident(&a, &t, "set_inexact of a special value")?;
                } else if t.inexact() != (st.n & 1 == 1) {
                    return fail("set_inexact");
                }
                t
            }
            "setsign" => {
                let mut t = a.clone();
                t.set_sign(if st.n & 1 == 1 { Sign::Neg } else { Sign::Pos });
                t
            }
            "min" => a.min(&b),
            "max" => a.max(&b),
            _ => continue,
        };
        let at = |f: Fail| Fail { msg: format!("step {} ({}): {}", i, st.op, f.msg), sig: f.sig };
        wellformed(&r, st.n as u64).map_err(at)?;
        let fr = Fl::from_bf(&r);
        if let (Some(p), true) = (wantp, fr.is_fin()) {
            if fr.p() != round_p(p) {
                return Err(at(Fail { msg: format!("result has {} bits, {} were asked for", fr.p(), p), sig: String::new() }));
            }
        }
        // exact model of the value
        if matches!(st.op.as_str(), "add" | "sub" | "mul" | "div") && fa.is_fin() && fb.is_fin() && fa.p() > 0 && fb.p() > 0 && c.rm == 1 && st.rm != NONE {
            if !(st.op == "div" && fb.is_zero()) {
                let ap = arith_exact(&st.op, &[fa.clone(), fb.clone()], round_p(p));
                let mut e = or::round_ap(&ap, round_p(p), st.rm);
                if fa.inex() || fb.inex() {
                    e.set_inex(true);
                }
                expect(&r, &e, NOZS).map_err(at)?;
                tags.push("modelled");
            }
        }
        // arguments are unchanged
        ident(&pool[x], &a, "argument").map_err(at)?;
        kinds.insert(st.op.clone());
        if fr.is_subnormal() {
            tags.push("subnormal");
        }
        pool[d] = if fr.is_fin() && fr.p() > 4096 { a } else { r };
    }
    tags.sort();
    tags.dedup();
    okt(kinds.len() >= 3, tags)
}

fn g17(r: &mut Rng, er: gen::Er) -> Case {
    let k = 2 + r.us(4);
    let mut c = Case::new("history").rm(1);
    for _ in 0..k {
        c = c.f(gen::any(r, 6, er));
    }
    for x in c.f.iter_mut() {
        if *x == Fl::NaN {
            *x = gen::num(r, 6, er);
        }
    }
    let n = 1 + r.us(14);
    for _ in 0..n {
        let st = Step {
            op: r.pick(&HOPS).to_string(),
            a: vec![r.us(k), r.us(k)],
            p: if r.chance(1, 30) { 0 } else { gen::prec(r, 6) },
            rm: gen::rm7(r),
            n: match r.below(4) {
                0 => r.range(0, 300),
                1 => gen::expo(r, er),
                2 => EMIN + r.range(0, 200),
                _ => r.range(0, 64),
            },
        };
        c.steps.push(st);
    }
    c
}
fn g17_mid(r: &mut Rng) -> Case {
    g17(r, gen::Er::Small)
}
fn g17_low(r: &mut Rng) -> Case {
    g17(r, gen::Er::Low)
}
fn g17_any(r: &mut Rng) -> Case {
    g17(r, gen::Er::Any)
}

pub fn c17() -> Prop {
    Prop {
        id: "C17",
        rule: "the history contains at least three different operations that were carried out",
        assumptions: &["numbers in the pool are limited to 4096 bits"],
        check: c17_check,
        canon: vec![],
        streams: vec![
            Stream { name: "ordinary", quick: 700_000, thorough: 20_000_000, chunk: 500, gen: g17_mid },
            Stream { name: "smallest", quick: 700_000, thorough: 20_000_000, chunk: 500, gen: g17_low },
            Stream { name: "any", quick: 700_000, thorough: 20_000_000, chunk: 500, gen: g17_any },
        ],
    }
}

// ---------------------------------------------------------------- C18

pub fn exact_f64(f: f64) -> Option<Fl> {
    if f.is_nan() {
        return Some(Fl::NaN);
    }
    let neg = f.is_sign_negative();
    if f.is_infinite() {
        return Some(Fl::Inf { neg });
    }
    let u = f.to_bits();
    let e = (u >> 52 & 0x7ff) as i64;
    let fr = u & ((1 << 52) - 1);
    let (m, k) = if e == 0 { (fr, -1074) } else { (fr | 1 << 52, e - 1075) };
    Some(Fl::from_scaled(neg, &Integer::from(m), k, 64))
}

fn c18_check(c: &Case, ctx: &mut Ctx) -> Res {
    if c.n.len() < 2 || c.rm > 6 {
        return Ok(Out::Skip);
    }
    let bits = (c.n[1] as u64 as u128) << 64 | c.n[0] as u64 as u128;
    let p = c.p;
    let rm = RMS[c.rm as usize];
    // value, width, from_x(v, p), From, FromExt
    macro_rules! int {
        ($t:ty, $f:ident) => {{
            let v = bits as $t;
            (Fl::from_int(&Integer::from(v), 64), <$t>::BITS as usize, BigFloat::$f(v, p), BigFloat::from(v), BigFloat::from_ext(v, p, rm, &mut ctx.cc))
        }};
    }
    let (ex, width, direct, dflt, ext) = match c.op.as_str() {
        "i8" => int!(i8, from_i8),
        "i16" => int!(i16, from_i16),
        "i32" => int!(i32, from_i32),
        "i64" => int!(i64, from_i64),
        "i128" => int!(i128, from_i128),
        "u8" => int!(u8, from_u8),
        "u16" => int!(u16, from_u16),
        "u32" => int!(u32, from_u32),
        "u64" => int!(u64, from_u64),
        "u128" => int!(u128, from_u128),
        "word" => {
            let v = bits as u64;
            let w = BigFloat::from_word(v, p);
            (Fl::from_int(&Integer::from(v), 64), 64, w, BigFloat::from(v), BigFloat::from_ext(v, p, rm, &mut ctx.cc))
        }
        "f64" => {
            let v = f64::from_bits(bits as u64);
            (exact_f64(v).unwrap(), 64, BigFloat::from_f64(v, p), BigFloat::from(v), BigFloat::from_ext(v, p, rm, &mut ctx.cc))
        }
        "f32" => {
            let v = f32::from_bits(bits as u32);
            (exact_f64(v as f64).unwrap(), 32, BigFloat::from_f32(v, p), BigFloat::from(v), BigFloat::from_ext(v, p, rm, &mut ctx.cc))
        }
        _ => return Ok(Out::Skip),
    };
    let float = c.op.starts_with('f');
    // recorded finding: a subnormal f64 becomes half of its value
    let half = if c.op == "f64" && bits as u64 >> 52 & 0x7ff == 0 && !ex.is_zero() {
        let (m, k) = ex.mk();
        Some(Fl::from_scaled(ex.neg(), &m, k - 1, 64))
    } else {
        None
    };
    let halved = std::cell::Cell::new(false);
    let chk1 = |ex: &Fl, what: &str, g: &BigFloat, p: usize, round: bool| -> Result<(), Fail> {
        let mut e = match ex {
            Fl::Fin { .. } => or::round_ap(&Ap::of(ex), round_p(p), if round { c.rm } else { TOZERO }),
            o => o.clone(),
        };
        if e.is_zero() {
            e.set_neg(ex.neg() && float);
        }
        if !round && e.inex() {
            return fail("oracle: narrow");
        }
        expect(g, &e, if float { STRICT } else { NOZS }).map_err(|f| Fail { msg: format!("{}: {}", what, f.msg), sig: String::new() })
    };
    let chk = |what: &str, g: &BigFloat, p: usize, round: bool| -> Result<(), Fail> {
        chk1(&ex, what, g, p, round).or_else(|f| match &half {
            Some(h) => chk1(h, what, g, p, round).map(|_| halved.set(true)).map_err(|_| f),
            None => Err(f),
        })
    };
    chk("From", &dflt, 128, false)?;
    if p > 0 {
        if round_p(p) >= width {
            chk("direct", &direct, p, false)?;
        } else if direct.is_nan() && ex != Fl::NaN {
            // a precision below the width of the type may be rejected
            if direct.err() != Some(Error::InvalidArgument) {
                return fail(format!("narrow precision gives NaN with error {}", err_name(direct.err())));
            }
        } else if round_p(p) >= width {
            chk("direct", &direct, p, false)?;
        } else {
            chk("direct", &direct, p, true)?;
        }
        if p % 64 == 0 && c.rm != NONE {
            chk("from_ext", &ext, p, true)?;
        }
    }
    // text route
    if !float && (c.n[0] & 7) == 0 {
        let s = {
            let (m, k) = ex.mk();
            let v = if ex.is_zero() { Integer::new() } else { m << k as u32 };
            format!("{}{}", if ex.neg() { "-" } else { "" }, v)
        };
        let t = BigFloat::from_ext(s.as_str(), 128, RoundingMode::ToEven, &mut ctx.cc);
        chk("text", &t, 128, false)?;
    }
    if halved.get() {
        return fail_sig("a subnormal f64 becomes half of its value", "f64-subnormal-halved");
    }
    okt(!ex.is_zero() && ex.is_fin(), vec![if !ex.is_fin() { "special" } else if round_p(p) < width { "narrow" } else { "exact" }])
}

const TYPES: [&str; 13] = ["i8", "i16", "i32", "i64", "i128", "u8", "u16", "u32", "u64", "u128", "word", "f64", "f32"];

pub fn g18(r: &mut Rng) -> Case {
    let t = *r.pick(&TYPES);
    let x: u128 = match r.below(6) {
        0 => (r.us(5) as u128).wrapping_sub(2),
        1 => 1u128 << r.below(128),
        2 => (1u128 << r.below(128)).wrapping_sub(1),
        3 => {
            let w = *r.pick(&[8u32, 16, 32, 64, 128]);
            (1u128 << (w - 1)).wrapping_add(r.us(5) as u128).wrapping_sub(2)
        }
        4 => (r.u64() as u128) << 64 | r.u64() as u128,
        _ => ((r.u64() as u128) << 64 | r.u64() as u128) >> r.below(128),
    };
    let x = if r.bool() { x } else { x.wrapping_neg() };
    let p = match r.below(6) {
        0 => 64,
        1 => 128,
        2 => 1 + r.us(130),
        3 => *r.pick(&[7usize, 8, 15, 16, 31, 32, 63, 64, 65, 127, 128]),
        _ => gen::prec(r, 6),
    };
    Case::new(t).n(x as u64 as i64).n((x >> 64) as u64 as i64).p(p).rm(gen::rm6(r))
}
pub fn g18_float(r: &mut Rng) -> Case {
    let t = if r.bool() { "f64" } else { "f32" };
    let (mb, eb) = if t == "f64" { (52, 11) } else { (23, 8) };
    let e = match r.below(5) {
        0 => 0,
        1 => (1 << eb) - 1,
        2 => (1 << eb) - 2,
        3 => 1,
        _ => r.below(1 << eb),
    };
    let m = match r.below(6) {
        0 => 0,
        1 => 1,
        2 => (1u64 << mb) - 1,
        3 => 1 << r.below(mb),
        _ => r.u64() & ((1 << mb) - 1),
    };
    let b = (r.below(2) << (mb + eb)) | e << mb | m;
    Case::new(t).n(b as i64).n(0).p(if r.chance(1, 8) { 1 + r.us(64) } else { gen::prec(r, 5) }).rm(gen::rm6(r))
}
fn g18_small(r: &mut Rng) -> Case {
    // every value of the 8 and 16 bit types
    let t = *r.pick(&["i8", "u8", "i16", "u16"]);
    let p = *r.pick(&[8usize, 16, 64, 128]);
    Case::new(t).n(r.below(65536) as i64).n(0).p(p).rm(TOEVEN)
}

pub fn c18() -> Prop {
    Prop {
        id: "C18",
        rule: "a finite non-zero value",
        assumptions: &[
            "a precision below the width of the integer type may be rejected with InvalidArgument, as the constructors do",
            "the conversion trait is checked for precisions that are multiples of the word size",
        ],
        check: c18_check,
        canon: vec![Case::new("f64").n(1).n(0).p(64).rm(TOEVEN)],
        streams: vec![
            Stream { name: "native", quick: 8_000_000, thorough: 150_000_000, chunk: 4000, gen: g18 },
            Stream { name: "float", quick: 5_000_000, thorough: 100_000_000, chunk: 4000, gen: g18_float },
            Stream { name: "small", quick: 1_000_000, thorough: 3_000_000, chunk: 4000, gen: g18_small },
        ],
    }
}

// ---------------------------------------------------------------- C26

fn c26_check(c: &Case, _ctx: &mut Ctx) -> Res {
    if c.n.len() < 2 || c.p == 0 {
        return Ok(Out::Skip);
    }
    let (from, to) = (c.n[0].clamp(EMIN, EMAX), c.n[1].clamp(EMIN, EMAX));
    let size = to - from + 1;
    let draws = if (1..=4).contains(&size) { 300 } else { 40 };
    let mut seen = std::collections::HashSet::new();
    let mut signs = [0usize; 2];
    let mut words = std::collections::HashSet::new();
    for _ in 0..draws {
        let g = BigFloat::random_normal(c.p, from as astro_float::Exponent, to as astro_float::Exponent);
        if size <= 0 && g.is_nan() {
            continue;
        }
        repr_ok(&g).or_else(|m| fail(m))?;
        let x = Fl::from_bf(&g);
        if !x.is_nonzero_fin() || x.is_subnormal() || x.inex() {
            return fail(format!("got {}", x.show()));
        }
        if x.p() != round_p(c.p) {
            return fail(format!("got {} bits instead of {}", x.p(), c.p));
        }
        if size > 0 && (x.e() < from || x.e() > to) {
            return fail(format!("exponent {} outside of {}..{}", x.e(), from, to));
        }
        seen.insert(x.e());
        signs[x.neg() as usize] += 1;
        if let Fl::Fin { w, .. } = x {
            words.insert(w);
        }
    }
    if size > 0 {
        if draws == 300 {
            // the largest exponent is in the range but need not occur
            if (seen.len() as i64) < size - 1 {
                return fail(format!("only {} of {} exponents from {} to {} occur in {} draws", seen.len(), size, from, to, draws));
            }
            if signs[0] == 0 || signs[1] == 0 {
                return fail("only one sign occurs in 300 draws");
            }
        }
        if words.len() < 2 || (size > 1000 && seen.len() < 2) {
            return fail("the same number is drawn again and again");
        }
    }
    okt(size > 1, vec![if size <= 0 { "empty" } else if draws == 300 { "short" } else { "long" }])
}

fn g26(r: &mut Rng) -> Case {
    let er = *r.pick(&[gen::Er::Small, gen::Er::Any, gen::Er::Low, gen::Er::High]);
    let from = gen::expo(r, er);
    let to = match r.below(6) {
        0..=2 => from + r.range(0, 3),
        3 => from + r.range(0, 1000),
        4 => gen::expo(r, gen::Er::Any),
        _ => EMAX,
    };
    Case::new("random").p(gen::prec(r, 8)).n(from).n(to.min(EMAX))
}

pub fn c26() -> Prop {
    Prop {
        id: "C26",
        rule: "the range has more than one exponent",
        assumptions: &[
            "the generator's own source of randomness is not seeded: a case is repeated with 40 or 300 draws",
            "every exponent but the largest of a range of at most four occurs in 300 draws unless the probability of a miss is below 1e-35",
        ],
        check: c26_check,
        canon: vec![],
        streams: vec![Stream { name: "range", quick: 60_000, thorough: 2_000_000, chunk: 100, gen: g26 }],
    }
}

