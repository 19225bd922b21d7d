//! C03..C07: roots, exponentials and logarithms, powers, trigonometric and hyperbolic functions are correctly rounded.

use super::arith::check_rounded;
use super::*;
use crate::gen;
use crate::gen::Er;
use crate::oracle as or;
use crate::rng::Rng;
use rug::integer::Order;
use rug::Integer;

pub const EXPS: [&str; 5] = ["exp", "ln", "log2", "log10", "log"];
pub const TRIG: [&str; 6] = ["sin", "cos", "tan", "asin", "acos", "atan"];
pub const HYP: [&str; 6] = ["sinh", "cosh", "tanh", "asinh", "acosh", "atanh"];

pub fn call1(op: &str, x: &BigFloat, p: usize, rm: u8, ctx: &mut Ctx) -> BigFloat {
    let cc = &mut ctx.cc;
    let rm = RMS[rm as usize];
    match op {
        "exp" => x.exp(p, rm, cc),
        "ln" => x.ln(p, rm, cc),
        "log2" => x.log2(p, rm, cc),
        "log10" => x.log10(p, rm, cc),
        "sin" => x.sin(p, rm, cc),
        "cos" => x.cos(p, rm, cc),
        "tan" => x.tan(p, rm, cc),
        "asin" => x.asin(p, rm, cc),
        "acos" => x.acos(p, rm, cc),
        "atan" => x.atan(p, rm, cc),
        "sinh" => x.sinh(p, rm, cc),
        "cosh" => x.cosh(p, rm, cc),
        "tanh" => x.tanh(p, rm, cc),
        "asinh" => x.asinh(p, rm, cc),
        "acosh" => x.acosh(p, rm, cc),
        "atanh" => x.atanh(p, rm, cc),
        "sqrt" => x.sqrt(p, rm),
        "cbrt" => x.cbrt(p, rm),
        _ => unreachable!("{}", op),
    }
}

fn is_one_abs(x: &Fl) -> bool {
    let (m, k) = x.mk();
    m == 1 && k == 0
}

/// domain interior and a bound on the work; boundary and outside belong to C16
pub fn in_domain(op: &str, x: &Fl) -> bool {
    if !x.is_nonzero_fin() {
        return false;
    }
    let e = x.ne();
    match op {
        "ln" | "log2" | "log10" => !x.neg(),
        "exp" | "sinh" | "cosh" | "tanh" => true,
        "sin" | "cos" | "tan" => e < 400_000,
        "asin" | "acos" => e <= 0 || is_one_abs(x),
        "atanh" => e <= 0,
        "acosh" => !x.neg() && e >= 1,
        "atan" | "asinh" => true,
        _ => true,
    }
}

pub fn check1(c: &Case, ctx: &mut Ctx) -> Res {
    let x = &c.f[0];
    if !in_domain(&c.op, x) || c.p == 0 || c.rm > 6 {
        return Ok(Out::Skip);
    }
    let ap = match or::f1(&c.op, x, round_p(c.p)) {
        Some(a) => a,
        None => return Ok(Out::Skip),
    };
    let got = call1(&c.op, &x.to_bf(), c.p, c.rm, ctx);
    check_rounded(&got, &ap, x.inex(), c.p, c.rm, 4, NOZS)
}

pub fn check(c: &Case, ctx: &mut Ctx) -> Res {
    if c.f.is_empty() || c.f.iter().any(|x| !x.is_fin()) || c.p == 0 {
        return Ok(Out::Skip);
    }
    match c.op.as_str() {
        "log" => check_log(c, ctx),
        "pow" => check_pow(c, ctx),
        "powi" => check_powi(c, ctx),
        "sqrt" | "cbrt" => super::arith::check(c, ctx),
        _ => check1(c, ctx),
    }
}

pub fn check_log(c: &Case, ctx: &mut Ctx) -> Res {
    if c.f.len() < 2 {
        return Ok(Out::Skip);
    }
    let (x, b) = (&c.f[0], &c.f[1]);
    if !x.is_nonzero_fin() || !b.is_nonzero_fin() || x.neg() || b.neg() || is_one_abs(b) {
        return Ok(Out::Skip);
    }
    let ap = or::log_base(x, b, round_p(c.p));
    let got = x.to_bf().log(&b.to_bf(), c.p, RMS[c.rm as usize], &mut ctx.cc);
    check_rounded(&got, &ap, x.inex() || b.inex(), c.p, c.rm, 4, NOZS)
}

pub fn check_pow(c: &Case, ctx: &mut Ctx) -> Res {
    if c.f.len() < 2 {
        return Ok(Out::Skip);
    }
    let (x, y) = (&c.f[0], &c.f[1]);
    if !x.is_nonzero_fin() || !y.is_nonzero_fin() {
        return Ok(Out::Skip);
    }
    if x.neg() && y.mk().1 < 0 {
        return Ok(Out::Skip);
    }
    let ap = match or::pow(x, y, round_p(c.p)) {
        Some(a) => a,
        None => return Ok(Out::Skip),
    };
    let got = x.to_bf().pow(&y.to_bf(), c.p, RMS[c.rm as usize], &mut ctx.cc);
    check_rounded(&got, &ap, x.inex() || y.inex(), c.p, c.rm, 4, NOZS)
}

pub fn check_powi(c: &Case, _ctx: &mut Ctx) -> Res {
    if c.n.is_empty() || c.n[0] < 0 || !c.f[0].is_nonzero_fin() {
        return Ok(Out::Skip);
    }
    let x = &c.f[0];
    let n = c.n[0] as usize;
    let ap = match or::powi(x, n as u64, round_p(c.p)) {
        Some(a) => a,
        None => return Ok(Out::Skip),
    };
    let got = x.to_bf().powi(n, c.p, RMS[c.rm as usize]);
    check_rounded(&got, &ap, x.inex() && n > 0, c.p, c.rm, 4, NOZS)
}

// ---------- generators ----------

fn fprec(r: &mut Rng) -> usize {
    let w = match r.below(12) {
        0..=3 => 1,
        4..=6 => 2,
        7..=8 => 3,
        9 => 4,
        10 => 1 + r.us(6),
        _ => 1 + r.us(12),
    };
    if r.chance(1, 8) {
        (w - 1) * 64 + 1 + r.us(64)
    } else {
        w * 64
    }
}

fn with_e(mut x: Fl, ne: i64) -> Fl {
    if let Fl::Fin { e, .. } = &mut x {
        *e = ne;
    }
    x
}

/// 1 +- tiny at random distance
fn near_one(r: &mut Rng) -> Fl {
    let n = 1 + r.us(5);
    let bits = (n * 64) as u32;
    let d = 1 + r.us(bits as usize - 1) as u32;
    let t = Integer::from_digits(&gen::mant(r, n), Order::Lsf) >> d;
    let one = Integer::from(1) << bits;
    let m = if r.bool() { one - t } else { one + t };
    let mut f = Fl::from_scaled(false, &m, -(bits as i64), 64);
    f.set_inex(r.chance(1, 12));
    f
}

fn exact_ish(r: &mut Rng, op: &str) -> Fl {
    match op {
        "log2" => with_e(gen::one(r, 4), r.range(-70, 70)).with_neg(false),
        "log10" => {
            let k = if r.chance(1, 20) { r.below(1200) } else { r.below(60) } as u32;
            let mut m = Integer::from(Integer::u_pow_u(10, k));
            if r.chance(1, 3) {
                m += if r.bool() { 1 } else { -1 };
            }
            if m <= 0 {
                m = Integer::from(1);
            }
            Fl::from_int(&m, 64 * (1 + r.us(3)))
        }
        _ => gen::small_int(r, 3),
    }
}

fn pi_multiple(r: &mut Rng) -> Fl {
    // round(k*pi/2) to a few words
    let n = 1 + r.us(4);
    let k = match r.below(3) {
        0 => r.range(1, 8),
        1 => r.range(1, 1000),
        _ => (r.u64() >> (1 + r.below(40))) as i64 | 1,
    };
    let pi = or::konst("pi", n * 64 + 80);
    let m = pi.m * Integer::from(k);
    let kk = pi.k - 1;
    let nb = m.significant_bits() as i64;
    let sh = nb - (n * 64) as i64;
    let m2 = m >> sh as u32;
    Fl::from_scaled(r.bool(), &m2, kk + sh, 64)
}

/// exponents around the places where an implementation switches method
fn arg(r: &mut Rng, op: &str, p: usize) -> Fl {
    let wmax = match r.below(8) {
        0 => 8,
        1..=3 => 3,
        _ => 2,
    };
    let w = 1 + r.us(wmax);
    let x = gen::num_w(r, w, Er::Small);
    let pp = round_p(p) as i64;
    let thr = |r: &mut Rng| {
        // tiny-argument thresholds
        let b = *r.pick(&[pp, pp.max(64 * w as i64), 64 * w as i64, pp + 64]);
        let d = *r.pick(&[1, 2, 3]);
        -(b / d) + r.range(-4, 4)
    };
    match op {
        "exp" | "sinh" | "cosh" | "tanh" => match r.below(10) {
            0 => gen::small_int(r, 3),
            1 => { let e = thr(r); with_e(x, e) },
            2 => { let e = r.range(-2, 2); with_e(x, e) },
            3 => { let e = r.range(5, 16); with_e(x, e) },
            4 => { let e = r.range(16, 31); with_e(x, e) },
            _ => { let e = r.range(-40, 8); with_e(x, e) },
        },
        "ln" | "log2" | "log10" => match r.below(10) {
            0 | 1 => near_one(r),
            2 => exact_ish(r, op),
            3 => { let e = r.range(-1, 2); with_e(x, e).with_neg(false) },
            4 => gen::num_w(r, w, Er::Any).with_neg(false),
            _ => { let e = r.range(-200, 200); with_e(x, e).with_neg(false) },
        },
        "sin" | "cos" | "tan" => match r.below(12) {
            0..=2 => pi_multiple(r),
            3 => { let e = thr(r); with_e(x, e) },
            4 => { let e = r.range(-1, 4); with_e(x, e) },
            5 => { let e = r.range(3, 700); with_e(x, e) },
            6 => gen::small_int(r, 2),
            7 => { let k = r.range(0, 4); let pm = pi_multiple(r); let e = pm.e() - k; with_e(pm, e) },
            _ => { let e = r.range(-30, 6); with_e(x, e) },
        },
        "asin" | "acos" | "atanh" => match r.below(8) {
            0 | 1 => {
                let mut y = near_one(r);
                if y.ne() > 0 {
                    y = with_e(y, 0);
                }
                y.with_neg(r.bool())
            }
            2 => { let e = thr(r); with_e(x, e) },
            3 => { let e = r.range(-130, -1); with_e(x, e) },
            4 if op != "atanh" => gen::one(r, 3),
            _ => { let e = r.range(-6, 0); with_e(x, e) },
        },
        "acosh" => match r.below(6) {
            0 | 1 => {
                let mut y = near_one(r);
                if y.ne() < 1 {
                    y = with_e(y, 1);
                }
                y
            }
            2 => { let e = r.range(pp - 6, 2 * pp + 200); with_e(x, e).with_neg(false) },
            3 => { let e = r.range(1, emax()); with_e(x, e).with_neg(false) },
            _ => { let e = r.range(1, 80); with_e(x, e).with_neg(false) },
        },
        "atan" | "asinh" => match r.below(8) {
            0 => near_one(r).with_neg(r.bool()),
            1 | 2 => { let e = thr(r); with_e(x, e) },
            3 => { let e = -thr(r); with_e(x, e) },
            4 => { let e = r.range(-140, 140); with_e(x, e) },
            5 => gen::num_w(r, w, Er::Any),
            _ => { let e = r.range(-6, 6); with_e(x, e) },
        },
        _ => x,
    }
}

fn arg_cost_ok(op: &str, x: &Fl, p: usize) -> bool {
    // asinh computes with |e| extra bits below its large-argument switch; sin etc. with e extra bits
    let e = x.ne().abs();
    match op {
        "asinh" => x.ne() > 2 * (round_p(p).max(x.p()) as i64) + 400 || e < 6000,
        _ => true,
    }
}

fn g_of(r: &mut Rng, ops: &[&str], p: usize) -> Case {
    loop {
        let op = *r.pick(ops);
        let mut x = arg(r, op, p);
        if r.chance(7, 8) {
            x.set_inex(false);
        }
        if in_domain(op, &x) && arg_cost_ok(op, &x, p) {
            return Case::new(op).f(x).p(p).rm(gen::rm7(r));
        }
    }
}

fn g_explog(r: &mut Rng) -> Case {
    let p = fprec(r);
    g_of(r, &EXPS[..4], p)
}
fn g_trig(r: &mut Rng) -> Case {
    let p = fprec(r);
    g_of(r, &TRIG, p)
}
/// sin, cos, tan of arguments with exponents far above the precision: log-uniform up to 300000
fn g_trig_far(r: &mut Rng) -> Case {
    let p = fprec(r);
    let lim = if r.chance(1, 16) { 300_000 } else { 50_000 };
    loop {
        let e = (500u64 << r.below(10)) as i64;
        let e = e + r.range(0, e);
        if e > lim {
            continue;
        }
        let w = gen::words(r, 3);
        let mut x = if r.chance(1, 4) {
            // close to a multiple of pi/2 all the way down to the precision of the argument
            let op = *r.pick(&[-1i64, 0, 1]);
            let n = 1 + r.us(4);
            let pi = or::konst("pi", n * 64 + 80);
            let nb = pi.m.significant_bits() as i64;
            let sh = nb - (n * 64) as i64;
            let m2 = (pi.m >> sh as u32) + op;
            with_e(Fl::from_scaled(r.bool(), &m2, pi.k + sh, 64), e)
        } else {
            with_e(gen::num_w(r, w, Er::Small), e)
        };
        x.set_inex(r.chance(1, 12));
        let op = *r.pick(&TRIG[..3]);
        if in_domain(op, &x) {
            return Case::new(op).f(x).p(p).rm(gen::rm7(r));
        }
    }
}
/// the inverse function at t, truncated to w words; the argument of a result close to t
fn inverse(op: &str, t: &Fl, w: usize) -> Option<Fl> {
    use gmp_mpfr_sys::mpfr;
    let a = or::to_mpfr(t);
    let mut f = rug::Float::new((w * 64) as u32);
    let rn = mpfr::rnd_t::RNDN;
    let inv = match op {
        "exp" => "ln",
        "ln" => "exp",
        "sin" => "asin",
        "cos" => "acos",
        "tan" => "atan",
        "asin" => "sin",
        "acos" => "cos",
        "atan" => "tan",
        "sinh" => "asinh",
        "cosh" => "acosh",
        "tanh" => "atanh",
        "asinh" => "sinh",
        "acosh" => "cosh",
        "atanh" => "tanh",
        "log2" | "log10" => op,
        _ => return None,
    };
    unsafe {
        match inv {
            "log2" => mpfr::exp2(f.as_raw_mut(), a.as_raw(), rn),
            "log10" => mpfr::exp10(f.as_raw_mut(), a.as_raw(), rn),
            _ => (or::f1_by_name(inv).unwrap())(f.as_raw_mut(), a.as_raw(), rn),
        };
    }
    let ap = or::from_mpfr(&f, false)?;
    if ap.m == 0 || ap.m.significant_bits() as usize > w * 64 {
        return None;
    }
    let e = ap.k + ap.m.significant_bits() as i64;
    if !(emin() + 64 * w as i64..=emax()).contains(&e) {
        return None;
    }
    Some(Fl::from_scaled(ap.neg, &ap.m, ap.k, w * 64))
}

/// a number of p bits and half a unit more, or exactly p bits
fn midpoint(r: &mut Rng, p: usize, e: i64, neg: bool) -> Fl {
    let pp = round_p(p);
    let mut m = Integer::from_digits(&gen::mant(r, pp / 64), Order::Lsf) << 1u32;
    if r.chance(3, 4) {
        m += 1;
    }
    Fl::from_scaled(neg, &m, e - pp as i64 - 1, 64)
}

/// arguments, as long as the result or longer, whose result lies next to a rounding boundary
fn g_hard(r: &mut Rng, ops: &[&str]) -> Case {
    loop {
        let p = fprec(r);
        let op = *r.pick(ops);
        if r.chance(1, 5) && matches!(op, "sin" | "tan" | "asin" | "atan" | "sinh" | "tanh" | "asinh" | "atanh") {
            // f(x) = x + c*x^3: the argument is the boundary itself
            let pp = round_p(p) as i64;
            let e = -(pp / *r.pick(&[1, 2, 3, 4])) - r.range(-3, 40);
            let neg = r.bool();
            return Case::new(op).f(midpoint(r, p, e, neg)).p(p).rm(gen::rm7(r));
        }
        if r.chance(1, 8) && matches!(op, "exp" | "cos" | "cosh") {
            // just beside 1 or beside the midpoint that follows it
            let pp = round_p(p) as i64;
            let e = -(pp / *r.pick(&[1, 2])) - r.range(-3, 80);
            let neg = r.bool();
            let x = midpoint(r, 64, e, neg);
            let x = if r.bool() { with_e(gen::one(r, 1), e).with_neg(neg) } else { x };
            return Case::new(op).f(x).p(p).rm(gen::rm7(r));
        }
        let lim = match op {
            "exp" => (-200, 1000),
            "ln" => (-130, 12),
            "log2" | "log10" => (-130, 10),
            "sin" | "tanh" => (-100, 0),
            "cos" => (-8, 0),
            "asin" | "acos" | "atan" => (-100, 1),
            "tan" => (-60, 60),
            "sinh" => (-100, 300),
            "cosh" => (1, 300),
            "asinh" => (-100, 8),
            "acosh" => (-60, 8),
            _ => (-100, 5),
        };
        let e = if r.bool() { r.range(lim.0, lim.1) } else { r.range(lim.0.max(-3), lim.1.min(4)) };
        let neg = r.bool() && !matches!(op, "exp" | "cosh" | "acosh");
        let t = midpoint(r, p, e, neg);
        let pw = round_p(p) / 64;
        let w = match r.below(4) {
            0 => pw,
            1 => pw + 1,
            2 => 2 * pw + r.us(2),
            _ => pw + r.us(2 * pw + 4),
        };
        let Some(mut x) = inverse(op, &t, w) else { continue };
        if matches!(op, "cosh") && r.bool() {
            x.set_neg(true);
        }
        if r.chance(1, 12) {
            x.set_inex(true);
        }
        if in_domain(op, &x) && arg_cost_ok(op, &x, p) {
            return Case::new(op).f(x).p(p).rm(gen::rm7(r));
        }
    }
}
fn g_explog_hard(r: &mut Rng) -> Case {
    g_hard(r, &EXPS[..4])
}
fn g_trig_hard(r: &mut Rng) -> Case {
    g_hard(r, &TRIG)
}
fn g_hyp_hard(r: &mut Rng) -> Case {
    g_hard(r, &HYP)
}
/// x^y next to a rounding boundary: x = t^(1/y) or y = log_x(t)
fn g_pow_hard(r: &mut Rng) -> Case {
    loop {
        let p = fprec(r);
        let e = if r.bool() { r.range(-300, 300) } else { r.range(-2, 3) };
        let t = midpoint(r, p, e, false);
        let pw = round_p(p) / 64;
        let w = pw + r.us(pw + 3);
        let k = r.below(3);
        if k == 2 {
            let m = if r.bool() { 10 } else { 1000 };
            let n = 2 + r.us(m);
            let Some(x) = root_of(&t, &Fl::from_int(&Integer::from(n), 64), w) else { continue };
            let x = x.with_neg(r.bool());
            return Case::new("powi").f(x).n(n as i64).p(p).rm(gen::rm7(r));
        }
        let z = {
            let ze = r.range(-12, 12);
            let zw = 1 + r.us(3);
            with_e(gen::num_w(r, zw, Er::Small), ze)
        };
        let c = if k == 0 {
            let Some(x) = root_of(&t, &z, w) else { continue };
            Case::new("pow").f(x).f(z)
        } else {
            let z = z.with_neg(false);
            if is_one_abs(&z) {
                continue;
            }
            let ap = or::log_base(&t, &z, w * 64);
            let nb = ap.m.significant_bits() as i64;
            if ap.m == 0 {
                continue;
            }
            let sh = nb - 64 * w as i64;
            let m = if sh > 0 { ap.m >> sh as u32 } else { ap.m };
            let y = Fl::from_scaled(ap.neg, &m, ap.k + sh.max(0), w * 64);
            Case::new("pow").f(z).f(y)
        };
        let mut c = c;
        for x in c.f.iter_mut() {
            x.set_inex(false);
        }
        if r.chance(1, 12) {
            c.f[0].set_inex(true);
        }
        return c.p(p).rm(gen::rm7(r));
    }
}

fn root_of(t: &Fl, y: &Fl, w: usize) -> Option<Fl> {
    use gmp_mpfr_sys::mpfr;
    let rn = mpfr::rnd_t::RNDN;
    let a = or::to_mpfr(t);
    let b = or::to_mpfr(y);
    let mut i = rug::Float::new((w * 64 + 128) as u32);
    let mut f = rug::Float::new((w * 64) as u32);
    unsafe {
        mpfr::ui_div(i.as_raw_mut(), 1, b.as_raw(), rn);
        mpfr::pow(f.as_raw_mut(), a.as_raw(), i.as_raw(), rn);
    }
    let ap = or::from_mpfr(&f, false)?;
    let e = ap.k + ap.m.significant_bits() as i64;
    if ap.m == 0 || !(emin() / 2..emax() / 2).contains(&e) {
        return None;
    }
    Some(Fl::from_scaled(false, &ap.m, ap.k, w * 64))
}

/// log_b(x) next to a rounding boundary: x = b^t
fn g_log_hard(r: &mut Rng) -> Case {
    use gmp_mpfr_sys::mpfr;
    loop {
        let p = fprec(r);
        let e = r.range(-60, 8);
        let neg = r.bool();
        let t = midpoint(r, p, e, neg);
        let zw = 1 + r.us(3);
        let mut z = { let ze = r.range(-12, 12); with_e(gen::num_w(r, zw, Er::Small), ze).with_neg(false) };
        z.set_inex(false);
        if is_one_abs(&z) {
            continue;
        }
        let pw = round_p(p) / 64;
        let w = pw + r.us(pw + 3);
        let a = or::to_mpfr(&z);
        let b = or::to_mpfr(&t);
        let mut f = rug::Float::new((w * 64) as u32);
        unsafe {
            mpfr::pow(f.as_raw_mut(), a.as_raw(), b.as_raw(), mpfr::rnd_t::RNDN);
        }
        let Some(ap) = or::from_mpfr(&f, false) else { continue };
        let e = ap.k + ap.m.significant_bits() as i64;
        if ap.m == 0 || !(emin() / 2..emax() / 2).contains(&e) {
            continue;
        }
        let x = Fl::from_scaled(false, &ap.m, ap.k, w * 64);
        return Case::new("log").f(x).f(z).p(p).rm(gen::rm7(r));
    }
}

/// short results of long arguments
fn g_longarg(r: &mut Rng, ops: &[&str]) -> Case {
    loop {
        let op = *r.pick(ops);
        let p = 64 * (1 + r.us(3));
        let x = arg(r, op, p);
        let n = 8 + { let m = *r.pick(&[10, 40, 150]); r.us(m) };
        let mut w = gen::mant(r, n);
        if let Fl::Fin { w: xw, .. } = &x {
            // the leading words of the chosen argument, then anything
            let k = xw.len().min(n);
            for i in 1..=k {
                w[n - i] = xw[xw.len() - i];
            }
        }
        let x = Fl::Fin { neg: x.neg(), e: x.e(), w, inex: r.chance(1, 12) };
        if x.w_top() && in_domain(op, &x) && arg_cost_ok(op, &x, p) && x.ne() > emin() + 20_000 {
            return Case::new(op).f(x).p(p).rm(gen::rm7(r));
        }
    }
}
fn g_explog_longarg(r: &mut Rng) -> Case {
    g_longarg(r, &EXPS[..4])
}
fn g_trig_longarg(r: &mut Rng) -> Case {
    g_longarg(r, &TRIG)
}
fn g_hyp_longarg(r: &mut Rng) -> Case {
    g_longarg(r, &HYP)
}

fn g_hyp(r: &mut Rng) -> Case {
    let p = fprec(r);
    g_of(r, &HYP, p)
}
fn big_p(r: &mut Rng) -> usize {
    64 * (8 + r.us(40))
}
fn huge_p(r: &mut Rng) -> usize {
    64 * if r.chance(1, 8) { 300 + r.us(350) } else { 48 + r.us(200) }
}
fn g_explog_huge(r: &mut Rng) -> Case {
    let p = huge_p(r);
    g_of(r, &EXPS[..4], p)
}
fn g_trig_huge(r: &mut Rng) -> Case {
    let p = huge_p(r);
    g_of(r, &TRIG, p)
}
fn g_hyp_huge(r: &mut Rng) -> Case {
    let p = huge_p(r);
    g_of(r, &HYP, p)
}
fn g_pow_huge(r: &mut Rng) -> Case {
    let p = huge_p(r) / 256 * 64 + 64;
    let mut c = g_pow(r);
    c.p = p;
    c
}
fn g_explog_big(r: &mut Rng) -> Case {
    let p = big_p(r);
    g_of(r, &EXPS[..4], p)
}
fn g_trig_big(r: &mut Rng) -> Case {
    let p = big_p(r);
    g_of(r, &TRIG, p)
}
fn g_hyp_big(r: &mut Rng) -> Case {
    let p = big_p(r);
    g_of(r, &HYP, p)
}

/// arguments at the very ends of the exponent range
fn g_ext(r: &mut Rng, ops: &[&str]) -> Case {
    loop {
        let op = *r.pick(ops);
        let w = gen::words(r, 3);
        let er = if r.bool() { Er::Low } else { Er::High };
        let mut x = gen::num_w(r, w, er);
        x.set_inex(r.chance(1, 8));
        if r.bool() {
            x.set_neg(false);
        }
        let p = fprec(r);
        if in_domain(op, &x) && arg_cost_ok(op, &x, p) {
            return Case::new(op).f(x).p(p).rm(gen::rm6(r));
        }
    }
}
fn g_explog_ext(r: &mut Rng) -> Case {
    g_ext(r, &EXPS[..4])
}
fn g_trig_ext(r: &mut Rng) -> Case {
    g_ext(r, &TRIG)
}
fn g_hyp_ext(r: &mut Rng) -> Case {
    g_ext(r, &HYP)
}

/// exp, sinh, cosh where the result is at the edge of the exponent range
fn g_edge(r: &mut Rng, ops: &[&str]) -> Case {
    let op = *r.pick(ops);
    // x ~ emax() * ln2 = 1488522236.. or -(2^31+k)*ln2
    let ln2 = or::konst("ln_2", 200);
    let tgt = match r.below(3) {
        0 => emax() + r.range(-3, 3),
        1 => emin() + r.range(-130, 3),
        _ => emin() + r.range(-600, 70),
    };
    let m = ln2.m * Integer::from(tgt);
    let n = 1 + r.us(3);
    let neg = m < 0;
    let m = m.abs();
    let nb = m.significant_bits() as i64;
    let sh = nb - 64 * n as i64;
    let mut m2 = if sh >= 0 { m >> sh as u32 } else { m << (-sh) as u32 };
    if r.bool() {
        m2 += Integer::from(r.range(-3, 3)) << (r.us(n * 64 - 8) as u32);
    }
    let neg = if op == "sinh" || op == "cosh" { r.bool() } else { neg };
    let x = Fl::from_scaled(neg, &m2, ln2.k + sh, 64);
    Case::new(op).f(x).p(fprec(r)).rm(gen::rm6(r))
}
fn g_exp_edge(r: &mut Rng) -> Case {
    g_edge(r, &["exp"])
}
fn g_hyp_edge(r: &mut Rng) -> Case {
    g_edge(r, &["sinh", "cosh"])
}

fn g_log(r: &mut Rng) -> Case {
    let p = fprec(r);
    let w = 1 + r.us(3);
    let (x, b) = match r.below(8) {
        0 | 1 => {
            // x = b^(i/2^j) exactly: b = t^(2^j), x = t^i
            let t = Integer::from(2 + r.below(60));
            let j = r.below(3) as u32;
            let i = 1 + r.below(9) as u32;
            use rug::ops::Pow;
            let b = t.clone().pow(1 << j);
            let mut x = t.pow(i);
            if r.chance(1, 4) {
                x += 1;
            }
            (Fl::from_int(&x, 64), Fl::from_int(&b, 64))
        }
        2 => (near_one(r), gen::num_w(r, w, Er::Small)),
        3 => (gen::num_w(r, w, Er::Small), near_one(r)),
        4 => (near_one(r), near_one(r)),
        5 => {
            let k = r.range(-60, 60);
            (with_e(gen::one(r, 2), k), with_e(gen::one(r, 2), r.range(-60, 60)))
        }
        _ => (gen::num_w(r, w, Er::Mid), gen::num(r, 2, Er::Mid)),
    };
    let mut x = x.with_neg(false);
    let mut b = b.with_neg(false);
    if r.chance(7, 8) {
        x.set_inex(false);
        b.set_inex(false);
    }
    Case::new("log").f(x).f(b).p(p).rm(gen::rm7(r))
}

fn g_pow(r: &mut Rng) -> Case {
    let p = fprec(r);
    let w = 1 + r.us(3);
    let (mut x, y) = match r.below(10) {
        0 => (gen::small_int(r, 2), gen::small_int(r, 2)),
        1 => {
            // exact roots: x = t^(2^j), y = i/2^j
            use rug::ops::Pow;
            let t = Integer::from(1 + r.below(1000));
            let j = r.below(4) as u32;
            let i = 1 + r.below(9);
            let x = t.pow(1 << j);
            let y = Fl::from_scaled(r.chance(1, 3), &Integer::from(i), -(j as i64), 64);
            (Fl::from_int(&x, 64), y)
        }
        2 => (near_one(r), gen::num_w(r, w, Er::Small)),
        3 => (with_e(gen::one(r, 2), r.range(-40, 40)), gen::num_w(r, w, Er::Small)),
        4 => {
            let e = -r.range(50, 260);
            (gen::num_w(r, w, Er::Small), with_e(gen::num(r, 2, Er::Small), e))
        }
        5 => (gen::num_w(r, w, Er::Small), {
            let v = Integer::from(r.range(-2000, 2000) * 2 + 1);
            Fl::from_scaled(v < 0, &v.abs(), -1, 64)
        }),
        6 => (gen::num_w(r, w, Er::Any), { let e = r.range(-34, 3); with_e(gen::num(r, 2, Er::Small), e) }),
        _ => { let e = r.range(-12, 12); (gen::num_w(r, w, Er::Small), with_e(gen::num(r, 2, Er::Small), e)) },
    };
    let mut y = y;
    if y.mk().1 < 0 {
        x.set_neg(false);
    }
    if r.chance(7, 8) {
        x.set_inex(false);
        y.set_inex(false);
    }
    Case::new("pow").f(x).f(y).p(p).rm(gen::rm7(r))
}

/// results at the edge of the exponent range
fn g_pow_edge(r: &mut Rng) -> Case {
    let p = fprec(r);
    let x = { let w = 1 + r.us(2); gen::num_w(r, w, Er::Small) };
    // y ~ limit / log2|x|
    let l = x.ne() as f64 + ((*match &x { Fl::Fin { w, .. } => w.last().unwrap(), _ => unreachable!() }) as f64 / 1.8446744073709552e19).log2();
    let tgt = if r.bool() { emax() as f64 + r.range(-2, 2) as f64 } else { emin() as f64 - r.range(-3, 130) as f64 };
    let mut y = tgt / l;
    if !y.is_finite() || y.abs() > 1e17 || y.abs() < 1.0 {
        y = r.range(-5000, 5000) as f64 + 0.5;
    }
    if x.neg() || r.bool() {
        let yi = y as i64;
        if r.chance(1, 3) {
            return Case::new("powi").f(x).n(yi.abs()).p(p).rm(gen::rm6(r));
        }
        return Case::new("pow").f(x).f(Fl::from_int(&Integer::from(yi), 64)).p(p).rm(gen::rm6(r));
    }
    let m = Integer::from((y * 1024.0) as i64);
    Case::new("pow").f(x).f(Fl::from_scaled(m < 0, &m.clone().abs(), -10, 64)).p(p).rm(gen::rm6(r))
}

fn g_powi(r: &mut Rng) -> Case {
    let p = fprec(r);
    let w = 1 + r.us(4);
    let x = match r.below(5) {
        0 => gen::small_int(r, 2),
        1 => near_one(r),
        2 => with_e(gen::one(r, 2), r.range(-40, 40)),
        _ => gen::num_w(r, w, Er::Small),
    };
    let n = match r.below(6) {
        0 => r.range(0, 4),
        1 => r.range(0, 40),
        2 => 1 << r.below(20),
        3 => (1 << r.below(20)) - 1,
        4 => r.range(0, 100_000),
        _ => r.range(0, 1000),
    };
    Case::new("powi").f(x).n(n).p(p).rm(gen::rm7(r))
}

fn g_root(r: &mut Rng) -> Case {
    let op = *r.pick(&["sqrt", "cbrt"]);
    let p = gen::prec(r, 20);
    let mut x = gen::num(r, 20, Er::Mid);
    if op == "sqrt" {
        x.set_neg(false);
    }
    Case::new(op).f(x).p(p).rm(gen::rm7(r))
}

/// exact powers, ties (s + 1/2 ulp)^k, and their neighbours
fn g_root_tie(r: &mut Rng) -> Case {
    let op = *r.pick(&["sqrt", "cbrt"]);
    let p = gen::prec(r, 8);
    let n = round_p(p) / 64;
    let n = if r.chance(1, 3) { 1 + r.us(n) } else { n };
    let mut s = Integer::from_digits(&gen::mant(r, n), Order::Lsf);
    match r.below(4) {
        0 => {}
        1 => s = (s << 1u32) + 1u32,
        2 => s = (s << 1u32) - 1u32,
        _ => s = (s << 64u32) + 1u32,
    }
    let mut m = if op == "sqrt" { Integer::from(s.square_ref()) } else { Integer::from(&s * &s) * &s };
    match r.below(5) {
        0 => m += 1,
        1 => m -= 1,
        _ => {}
    }
    let x = Fl::from_scaled(op == "cbrt" && r.bool(), &m, r.range(-300, 300), 64);
    Case::new(op).f(x).p(p).rm(gen::rm6(r))
}

fn g_root_ext(r: &mut Rng) -> Case {
    let op = *r.pick(&["sqrt", "cbrt"]);
    let er = if r.bool() { Er::Low } else { Er::Any };
    let mut x = gen::num(r, 6, er);
    if op == "sqrt" {
        x.set_neg(false);
    }
    Case::new(op).f(x).p(gen::prec(r, 6)).rm(gen::rm7(r))
}

fn g_root_big(r: &mut Rng) -> Case {
    let op = *r.pick(&["sqrt", "cbrt"]);
    let w = 20 + r.us(200);
    let x = gen::num_w(r, w, Er::Mid).with_neg(false);
    Case::new(op).f(x).p(64 * (1 + r.us(200))).rm(gen::rm6(r))
}

const RULE: &str = "the exact result is not representable in the target precision, so the rounding mode decides the value and the flag";

pub fn c03() -> Prop {
    Prop {
        id: "C03",
        rule: RULE,
        assumptions: &["GMP integer roots are right"],
        check,
        canon: vec![],
        streams: vec![
            Stream { name: "root", quick: 300_000, thorough: 10_000_000, chunk: 500, gen: g_root },
            Stream { name: "tie", quick: 400_000, thorough: 10_000_000, chunk: 500, gen: g_root_tie },
            Stream { name: "ext", quick: 150_000, thorough: 5_000_000, chunk: 500, gen: g_root_ext },
            Stream { name: "big", quick: 4_000, thorough: 100_000, chunk: 50, gen: g_root_big },
        ],
    }
}

pub fn c04() -> Prop {
    Prop {
        id: "C04",
        rule: RULE,
        assumptions: &["MPFR's correctly rounded exp, log, log2, log10 are right"],
        check,
        canon: vec![],
        streams: vec![
            Stream { name: "func", quick: 1_200_000, thorough: 40_000_000, chunk: 200, gen: g_explog },
            Stream { name: "log", quick: 80_000, thorough: 3_000_000, chunk: 100, gen: g_log },
            Stream { name: "log-hard", quick: 40_000, thorough: 2_000_000, chunk: 50, gen: g_log_hard },
            Stream { name: "ext", quick: 100_000, thorough: 3_000_000, chunk: 100, gen: g_explog_ext },
            Stream { name: "edge", quick: 60_000, thorough: 2_000_000, chunk: 50, gen: g_exp_edge },
            Stream { name: "hard", quick: 400_000, thorough: 8_000_000, chunk: 50, gen: g_explog_hard },
            Stream { name: "longarg", quick: 8_000, thorough: 200_000, chunk: 10, gen: g_explog_longarg },
            Stream { name: "big", quick: 8_000, thorough: 200_000, chunk: 10, gen: g_explog_big },
            Stream { name: "huge", quick: 480, thorough: 20_000, chunk: 4, gen: g_explog_huge },
        ],
    }
}

pub fn c05() -> Prop {
    Prop {
        id: "C05",
        rule: RULE,
        assumptions: &["MPFR's correctly rounded pow is right"],
        check,
        canon: vec![],
        streams: vec![
            Stream { name: "pow", quick: 800_000, thorough: 20_000_000, chunk: 100, gen: g_pow },
            Stream { name: "powi", quick: 2_000_000, thorough: 50_000_000, chunk: 200, gen: g_powi },
            Stream { name: "edge", quick: 150_000, thorough: 4_000_000, chunk: 50, gen: g_pow_edge },
            Stream { name: "hard", quick: 300_000, thorough: 4_000_000, chunk: 50, gen: g_pow_hard },
            Stream { name: "huge", quick: 400, thorough: 20_000, chunk: 4, gen: g_pow_huge },
        ],
    }
}

pub fn c06() -> Prop {
    Prop {
        id: "C06",
        rule: RULE,
        assumptions: &["MPFR's correctly rounded trigonometric functions are right", "arguments of sin, cos, tan below 2^300000"],
        check,
        canon: vec![],
        streams: vec![
            Stream { name: "func", quick: 1_200_000, thorough: 40_000_000, chunk: 200, gen: g_trig },
            Stream { name: "ext", quick: 100_000, thorough: 3_000_000, chunk: 100, gen: g_trig_ext },
            Stream { name: "far", quick: 1_600, thorough: 100_000, chunk: 10, gen: g_trig_far },
            Stream { name: "hard", quick: 400_000, thorough: 8_000_000, chunk: 50, gen: g_trig_hard },
            Stream { name: "longarg", quick: 8_000, thorough: 200_000, chunk: 10, gen: g_trig_longarg },
            Stream { name: "big", quick: 8_000, thorough: 200_000, chunk: 10, gen: g_trig_big },
            Stream { name: "huge", quick: 480, thorough: 20_000, chunk: 4, gen: g_trig_huge },
        ],
    }
}

pub fn c07() -> Prop {
    Prop {
        id: "C07",
        rule: RULE,
        assumptions: &["MPFR's correctly rounded hyperbolic functions are right"],
        check,
        canon: vec![],
        streams: vec![
            Stream { name: "func", quick: 1_200_000, thorough: 40_000_000, chunk: 200, gen: g_hyp },
            Stream { name: "ext", quick: 100_000, thorough: 3_000_000, chunk: 100, gen: g_hyp_ext },
            Stream { name: "edge", quick: 60_000, thorough: 2_000_000, chunk: 50, gen: g_hyp_edge },
            Stream { name: "hard", quick: 400_000, thorough: 8_000_000, chunk: 50, gen: g_hyp_hard },
            Stream { name: "longarg", quick: 8_000, thorough: 200_000, chunk: 10, gen: g_hyp_longarg },
            Stream { name: "big", quick: 8_000, thorough: 200_000, chunk: 10, gen: g_hyp_big },
            Stream { name: "huge", quick: 480, thorough: 20_000, chunk: 4, gen: g_hyp_huge },
        ],
    }
}
