//! Reference results. Exact integer arithmetic (GMP) for the algebraic operations, MPFR with its own
//! (much wider) exponent range for the transcendental ones; in both cases the reference is a truncated
//! value plus a sticky bit, and the rounding to astro-float's format is done here, once.

use crate::fl::*;
use gmp_mpfr_sys::mpfr;
use rug::integer::Order;
use rug::{Float, Integer};
use std::cmp::Ordering;

/// |v| in [m*2^k, (m+1)*2^k), v != m*2^k iff sticky
#[derive(Clone, Debug)]
pub struct Ap {
    pub neg: bool,
    pub m: Integer,
    pub k: i64,
    pub sticky: bool,
}

impl Ap {
    pub fn exact(neg: bool, m: Integer, k: i64) -> Ap {
        Ap { neg, m, k, sticky: false }
    }
    pub fn of(x: &Fl) -> Ap {
        let (m, k) = x.mk();
        Ap { neg: x.neg(), m, k, sticky: false }
    }
    pub fn is_zero(&self) -> bool {
        self.m == 0 && !self.sticky
    }
    pub fn sig(&self) -> (bool, &Integer, i64) {
        (self.neg, &self.m, self.k)
    }
}

pub fn is_nearest(rm: u8) -> bool {
    rm == TOEVEN || rm == TOODD
}

/// Rounds to the format with p-bit mantissas (p a positive multiple of 32): gradual underflow, overflow to Inf.
/// The flag of the result says whether rounding lost anything. rm == NONE truncates.
pub fn round_ap(ap: &Ap, p: usize, rm: u8) -> Fl {
    assert!(p > 0 && p % 32 == 0);
    if ap.is_zero() {
        return Fl::zero(p, ap.neg);
    }
    let nb = ap.m.significant_bits() as i64;
    let en = nb + ap.k;
    let mut q = (en - p as i64).max(emin() - p as i64);
    let (mut t, half, rest);
    if q <= ap.k {
        assert!(!ap.sticky || (q == ap.k), "oracle: not enough bits");
        let sh = ap.k - q;
        assert!(sh < (1 << 28));
        t = Integer::from(&ap.m << sh as u32);
        half = false;
        rest = ap.sticky;
        assert!(!rest || rm == NONE || !is_nearest(rm) || nb == 0, "oracle: not enough bits");
    } else {
        let sh = q - ap.k;
        if sh > nb + 1 {
            t = Integer::new();
            half = false;
            rest = true;
        } else {
            let sh = sh as u32;
            t = Integer::from(&ap.m >> sh);
            half = ap.m.get_bit(sh - 1);
            let low = ap.m.find_one(0).map(|b| b < sh - 1).unwrap_or(false);
            rest = low || ap.sticky;
        }
    }
    let inex = half || rest;
    let up = match rm {
        NONE | TOZERO => false,
        UP => inex && !ap.neg,
        DOWN => inex && ap.neg,
        FROMZERO => inex,
        TOEVEN => half && (rest || t.is_odd()),
        TOODD => half && (rest || t.is_even()),
        _ => unreachable!(),
    };
    if up {
        t += 1;
    }
    if t == 0 {
        let mut z = Fl::zero(p, ap.neg);
        z.set_inex(inex);
        return z;
    }
    let tb = t.significant_bits() as i64;
    if tb > p as i64 {
        t >>= 1;
        q += 1;
    }
    let e = q + p as i64;
    if e > emax() {
        return Fl::Inf { neg: ap.neg };
    }
    t <<= (round_p(p) - p) as u32;
    let mut w = t.to_digits::<u64>(Order::Lsf);
    w.resize(round_p(p) / WB, 0);
    let r = Fl::Fin { neg: ap.neg, e, w, inex };
    debug_assert!(r.normal_or_sub_valid());
    r
}

// ---------- exact algebra ----------

fn cut(d: i64) -> bool {
    d > 1 << 22
}

/// exact a+b (b's sign flipped if sub), with far-apart operands replaced by a sticky bit. `p`: target precision.
pub fn add(a: &Fl, b: &Fl, sub: bool, p: usize) -> Ap {
    let bn = b.neg() ^ sub;
    if a.is_zero() && b.is_zero() {
        return Ap { neg: a.neg() && bn, m: Integer::new(), k: 0, sticky: false };
    }
    if a.is_zero() {
        let mut r = Ap::of(b);
        r.neg = bn;
        return r;
    }
    if b.is_zero() {
        return Ap::of(a);
    }
    let (ma, ka) = a.mk();
    let (mb, kb) = b.mk();
    let (an, bnn) = (a.neg(), bn);
    // far apart: |small| < 2^(es), big multiple of 2^kbig
    let (ea, eb) = (a.ne(), b.ne());
    let (big, kbig, bigneg, ebig, esm, smneg) =
        if ea >= eb { (&ma, ka, an, ea, eb, bnn) } else { (&mb, kb, bnn, eb, ea, an) };
    let need = (ebig - p as i64 - 4).min(kbig) - 2;
    if esm < need && cut(ebig - esm) {
        // result = big +- tiny ; represent with k = need
        let sh = (kbig - need) as u32;
        let mut m = Integer::from(big << sh);
        if bigneg != smneg {
            m -= 1;
        }
        return Ap { neg: bigneg, m, k: need, sticky: true };
    }
    let k = ka.min(kb);
    let mut x = ma << (ka - k) as u32;
    let mut y = mb << (kb - k) as u32;
    if an {
        x = -x;
    }
    if bnn {
        y = -y;
    }
    let s = x + y;
    match s.cmp0() {
        Ordering::Equal => Ap { neg: false, m: Integer::new(), k: 0, sticky: false },
        o => Ap { neg: o == Ordering::Less, m: s.abs(), k, sticky: false },
    }
}

pub fn mul(a: &Fl, b: &Fl) -> Ap {
    let neg = a.neg() != b.neg();
    let (ma, ka) = a.mk();
    let (mb, kb) = b.mk();
    Ap { neg, m: ma * mb, k: ka + kb, sticky: false }
}

pub fn div(a: &Fl, b: &Fl, p: usize) -> Ap {
    let neg = a.neg() != b.neg();
    let (ma, ka) = a.mk();
    let (mb, kb) = b.mk();
    let nb = mb.significant_bits() as i64;
    let na = ma.significant_bits() as i64;
    let sh = (p as i64 + 4 + nb - na).max(0);
    let num = ma << sh as u32;
    let (q, r) = num.div_rem(mb);
    Ap { neg, m: q, k: ka - kb - sh, sticky: r != 0 }
}

/// |a| mod |b| with the sign of a, exactly; None when the shift is too large to do by plain powering
pub fn rem(a: &Fl, b: &Fl) -> Ap {
    let (ma, ka) = a.mk();
    let (mb, kb) = b.mk();
    if ma == 0 {
        return Ap { neg: a.neg(), m: ma, k: 0, sticky: false };
    }
    if ka >= kb {
        // ma * 2^(ka-kb) mod mb
        let e = Integer::from(ka - kb);
        let r = if mb == 1 {
            Integer::new()
        } else {
            let pw = Integer::from(2).pow_mod(&e, &mb).unwrap();
            (ma * pw) % mb
        };
        Ap { neg: a.neg(), m: r, k: kb, sticky: false }
    } else {
        let d = kb - ka;
        let na = ma.significant_bits() as i64;
        let nb = mb.significant_bits() as i64;
        if na < nb + d {
            return Ap { neg: a.neg(), m: ma, k: ka, sticky: false };
        }
        let r = ma % (mb << d as u32);
        Ap { neg: a.neg(), m: r, k: ka, sticky: false }
    }
}

pub fn sqrt(a: &Fl, p: usize) -> Ap {
    let (ma, ka) = a.mk();
    let na = ma.significant_bits() as i64;
    let mut sh = (2 * (p as i64 + 4) - na).max(0);
    if (ka - sh) & 1 != 0 {
        sh += 1;
    }
    let (s, r) = (ma << sh as u32).sqrt_rem(Integer::new());
    Ap { neg: false, m: s, k: (ka - sh) / 2, sticky: r != 0 }
}

pub fn cbrt(a: &Fl, p: usize) -> Ap {
    let (ma, ka) = a.mk();
    let na = ma.significant_bits() as i64;
    let mut sh = (3 * (p as i64 + 4) - na).max(0);
    while (ka - sh).rem_euclid(3) != 0 {
        sh += 1;
    }
    let (s, r) = (ma << sh as u32).root_rem(Integer::new(), 3);
    Ap { neg: a.neg(), m: s, k: (ka - sh) / 3, sticky: r != 0 }
}

// ---------- MPFR ----------

/// Must be called at the start of every thread that uses MPFR.
pub fn mpfr_init_thread() {
    unsafe {
        mpfr::set_emin(mpfr::get_emin_min());
        mpfr::set_emax(mpfr::get_emax_max());
    }
}

pub fn to_mpfr(x: &Fl) -> Float {
    let (m, k) = x.mk();
    let pr = (m.significant_bits()).max(2);
    let mut f = Float::new(pr);
    let m = if x.neg() { -m } else { m };
    unsafe {
        mpfr::set_z_2exp(f.as_raw_mut(), m.as_raw(), k as mpfr::exp_t, mpfr::rnd_t::RNDZ);
    }
    if x.is_zero() && x.neg() {
        f = -f;
    }
    f
}

pub fn int_to_mpfr(m: &Integer, k: i64) -> Float {
    let pr = m.significant_bits().max(2);
    let mut f = Float::new(pr);
    unsafe {
        mpfr::set_z_2exp(f.as_raw_mut(), m.as_raw(), k as mpfr::exp_t, mpfr::rnd_t::RNDZ);
    }
    f
}

/// Converts an RNDZ-rounded MPFR value plus its ternary value.
pub fn from_mpfr(f: &Float, inexact: bool) -> Option<Ap> {
    if f.is_nan() || f.is_infinite() {
        return None;
    }
    let neg = f.is_sign_negative();
    if f.is_zero() {
        // exact zero or total underflow
        return Some(Ap { neg, m: Integer::new(), k: i64::MIN / 8, sticky: inexact });
    }
    let mut z = Integer::new();
    let k = unsafe { mpfr::get_z_2exp(z.as_raw_mut(), f.as_raw()) };
    Some(Ap { neg, m: z.abs(), k: k as i64, sticky: inexact })
}

type F1 = unsafe extern "C" fn(*mut mpfr::mpfr_t, *const mpfr::mpfr_t, mpfr::rnd_t) -> std::os::raw::c_int;

pub fn f1_by_name(op: &str) -> Option<F1> {
    Some(match op {
        "exp" => mpfr::exp,
        "ln" => mpfr::log,
        "log2" => mpfr::log2,
        "log10" => mpfr::log10,
        "sin" => mpfr::sin,
        "cos" => mpfr::cos,
        "tan" => mpfr::tan,
        "asin" => mpfr::asin,
        "acos" => mpfr::acos,
        "atan" => mpfr::atan,
        "sinh" => mpfr::sinh,
        "cosh" => mpfr::cosh,
        "tanh" => mpfr::tanh,
        "asinh" => mpfr::asinh,
        "acosh" => mpfr::acosh,
        "atanh" => mpfr::atanh,
        "cbrt" => mpfr::cbrt,
        _ => return None,
    })
}

/// unary function truncated to p+4 bits; None: NaN/Inf
pub fn f1(op: &str, x: &Fl, p: usize) -> Option<Ap> {
    let f = f1_by_name(op).unwrap();
    let a = to_mpfr(x);
    let mut r = Float::new(p as u32 + 4);
    let t = unsafe { f(r.as_raw_mut(), a.as_raw(), mpfr::rnd_t::RNDZ) };
    from_mpfr(&r, t != 0)
}

pub fn pow(x: &Fl, y: &Fl, p: usize) -> Option<Ap> {
    let a = to_mpfr(x);
    let b = to_mpfr(y);
    let mut r = Float::new(p as u32 + 4);
    let t = unsafe { mpfr::pow(r.as_raw_mut(), a.as_raw(), b.as_raw(), mpfr::rnd_t::RNDZ) };
    from_mpfr(&r, t != 0)
}

pub fn powi(x: &Fl, n: u64, p: usize) -> Option<Ap> {
    let a = to_mpfr(x);
    let mut r = Float::new(p as u32 + 4);
    let t = unsafe { mpfr::pow_ui(r.as_raw_mut(), a.as_raw(), n, mpfr::rnd_t::RNDZ) };
    from_mpfr(&r, t != 0)
}

pub fn konst(name: &str, p: usize) -> Ap {
    let mut r = Float::new(p as u32 + 4);
    let t = unsafe {
        match name {
            "pi" => mpfr::const_pi(r.as_raw_mut(), mpfr::rnd_t::RNDZ),
            "ln_2" => mpfr::const_log2(r.as_raw_mut(), mpfr::rnd_t::RNDZ),
            "e" => {
                let one = Float::with_val(2, 1);
                mpfr::exp(r.as_raw_mut(), one.as_raw(), mpfr::rnd_t::RNDZ)
            }
            "ln_10" => {
                let ten = Float::with_val(8, 10);
                mpfr::log(r.as_raw_mut(), ten.as_raw(), mpfr::rnd_t::RNDZ)
            }
            _ => unreachable!(),
        }
    };
    from_mpfr(&r, t != 0).unwrap()
}

/// log_b(x), x>0, b>0, b != 1: Ziv loop on ln(x)/ln(b); a dyadic rational that survives
/// 400 bits beyond the needed precision is taken to be the exact value.
pub fn log_base(x: &Fl, b: &Fl, p: usize) -> Ap {
    let one = Integer::from(1);
    let (mx, kx) = x.mk();
    if mx == one && kx == 0 {
        return Ap { neg: false, m: Integer::new(), k: 0, sticky: false };
    }
    let fx = to_mpfr(x);
    let fb = to_mpfr(b);
    let mut wp = p + 80;
    let limit = p + 480 + x.p() + b.p();
    loop {
        let mut lx = Float::new(wp as u32);
        let mut lb = Float::new(wp as u32);
        let mut q = Float::new(wp as u32);
        unsafe {
            mpfr::log(lx.as_raw_mut(), fx.as_raw(), mpfr::rnd_t::RNDN);
            mpfr::log(lb.as_raw_mut(), fb.as_raw(), mpfr::rnd_t::RNDN);
            mpfr::div(q.as_raw_mut(), lx.as_raw(), lb.as_raw(), mpfr::rnd_t::RNDN);
        }
        // relative error < 2^(-wp+2)
        let ap = from_mpfr(&q, false).unwrap();
        // bring to exactly wp bits
        let nb = ap.m.significant_bits() as i64;
        let sh = wp as i64 - nb;
        let m = ap.m << sh as u32;
        let k = ap.k - sh;
        let lo = Integer::from(&m - 16);
        let hi = m + 16u32;
        // truncate both to p+4 bits
        let cutb = (wp - p - 4) as u32;
        let tl = Integer::from(&lo >> cutb);
        let th = Integer::from(&hi >> cutb);
        if tl == th && Integer::from(&tl << cutb) != lo {
            return Ap { neg: ap.neg, m: tl, k: k + cutb as i64, sticky: true };
        }
        if wp > limit {
            // exact: th * 2^(k+cutb)
            return Ap { neg: ap.neg, m: th, k: k + cutb as i64, sticky: false };
        }
        wp += 200;
    }
}

/// distance |got - exact| measured in units 2^q, rounded up, saturated
pub fn err_units(got: &Fl, ap: &Ap, q: i64) -> u64 {
    let (mg, mut kg) = got.mk();
    if mg == 0 {
        kg = q;
    }
    let mut ap = ap.clone();
    if ap.m == 0 {
        ap.k = q;
    }
    // far below the unit: only its being non-zero counts
    if ap.m.significant_bits() as i64 + ap.k < q - 4 {
        ap.sticky |= ap.m != 0;
        ap.m = Integer::new();
        ap.k = q;
    }
    let k = kg.min(ap.k).min(q);
    let sh1 = kg - k;
    let sh2 = ap.k - k;
    if sh1 > 1 << 24 || sh2 > 1 << 24 || q - k > 1 << 24 {
        return u64::MAX;
    }
    let mut a = mg << sh1 as u32;
    if got.neg() {
        a = -a;
    }
    let mut b = Integer::from(&ap.m << sh2 as u32);
    if ap.neg {
        b = -b;
    }
    let d = (a - b).abs();
    let (qq, r) = d.div_rem(Integer::from(1) << (q - k) as u32);
    let v = qq.to_u64().unwrap_or(u64::MAX - 2);
    v + (r != 0 || ap.sticky) as u64
}
