//! `Fl`: the serialisable image of a `BigFloat` that generators produce, oracles consume and replay files hold.

use astro_float::{BigFloat, Error, Exponent, RoundingMode, Sign};
use rug::integer::Order;
use rug::Integer;
use serde::{Deserialize, Serialize};

pub const EMIN: i64 = i32::MIN as i64;
pub const EMAX: i64 = i32::MAX as i64;

thread_local! {
    static NARROW: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
}

/// While an object of this type lives, generators and oracles of this thread use the range of exponents that the
/// library has on 32-bit machines.
pub struct Narrow(bool);
impl Narrow {
    pub fn on() -> Narrow {
        Narrow(NARROW.with(|n| n.replace(true)))
    }
}
impl Drop for Narrow {
    fn drop(&mut self) {
        let old = self.0;
        NARROW.with(|n| n.set(old));
    }
}
pub fn emin() -> i64 {
    if NARROW.with(|n| n.get()) { EMIN / 4 } else { EMIN }
}
pub fn emax() -> i64 {
    if NARROW.with(|n| n.get()) { EMAX / 4 } else { EMAX }
}
pub const WB: usize = 64;

pub const RMS: [RoundingMode; 7] = [
    RoundingMode::None,
    RoundingMode::Up,
    RoundingMode::Down,
    RoundingMode::ToZero,
    RoundingMode::FromZero,
    RoundingMode::ToEven,
    RoundingMode::ToOdd,
];
pub const NONE: u8 = 0;
pub const UP: u8 = 1;
pub const DOWN: u8 = 2;
pub const TOZERO: u8 = 3;
pub const FROMZERO: u8 = 4;
pub const TOEVEN: u8 = 5;
pub const TOODD: u8 = 6;

pub fn rmname(r: u8) -> String {
    format!("{:?}", RMS[r as usize])
}

pub fn round_p(p: usize) -> usize {
    (p + 63) / 64 * 64
}

#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub enum Fl {
    NaN,
    Inf { neg: bool },
    /// value = (-1)^neg * 0.w[n-1]..w[0] * 2^e ; zero when all words are zero
    Fin { neg: bool, e: i64, w: Vec<u64>, inex: bool },
}

pub fn bitlen(w: &[u64]) -> usize {
    for (i, v) in w.iter().enumerate().rev() {
        if *v != 0 {
            return i * WB + (WB - v.leading_zeros() as usize);
        }
    }
    0
}

impl Fl {
    pub fn zero(p: usize, neg: bool) -> Fl {
        Fl::Fin { neg, e: 0, w: vec![0; round_p(p) / WB], inex: false }
    }
    /// Exact integer with precision large enough (at least p bits).
    pub fn from_int(i: &Integer, p: usize) -> Fl {
        let neg = i.cmp0() == std::cmp::Ordering::Less;
        let a = i.clone().abs();
        Fl::from_scaled(neg, &a, 0, p)
    }
    /// m * 2^k exactly with the smallest precision >= p (normalised). Panics outside the exponent range.
    pub fn from_scaled(neg: bool, m: &Integer, k: i64, p: usize) -> Fl {
        let nb = m.significant_bits() as usize;
        if nb == 0 {
            return Fl::zero(p.max(1), neg);
        }
        let pp = round_p(p.max(nb).max(1));
        let mm = Integer::from(m << (pp - nb) as u32);
        let mut w = mm.to_digits::<u64>(Order::Lsf);
        w.resize(pp / WB, 0);
        let e = nb as i64 + k;
        assert!((emin()..=emax()).contains(&e));
        Fl::Fin { neg, e, w, inex: false }
    }
    pub fn normal_or_sub_valid(&self) -> bool {
        match self {
            Fl::Fin { e, w, .. } => {
                let n = bitlen(w);
                if w.is_empty() {
                    return false;
                }
                if n == 0 {
                    return *e == 0;
                }
                (emin()..=emax()).contains(e) && (n == w.len() * WB || *e == emin())
            }
            _ => true,
        }
    }
    pub fn to_bf(&self) -> BigFloat {
        match self {
            Fl::NaN => BigFloat::nan(None),
            Fl::Inf { neg: false } => astro_float::INF_POS,
            Fl::Inf { neg: true } => astro_float::INF_NEG,
            Fl::Fin { neg, e, w, inex } => BigFloat::from_raw_parts(
                w,
                bitlen(w),
                if *neg { Sign::Neg } else { Sign::Pos },
                *e as Exponent,
                *inex,
            ),
        }
    }
    pub fn from_bf(b: &BigFloat) -> Fl {
        if b.is_nan() {
            Fl::NaN
        } else if b.is_inf_pos() {
            Fl::Inf { neg: false }
        } else if b.is_inf_neg() {
            Fl::Inf { neg: true }
        } else {
            let (w, _n, s, e, inex) = b.as_raw_parts().expect("finite number has raw parts");
            Fl::Fin { neg: s == Sign::Neg, e: e as i64, w: w.to_vec(), inex }
        }
    }
    pub fn is_fin(&self) -> bool {
        matches!(self, Fl::Fin { .. })
    }
    pub fn is_zero(&self) -> bool {
        matches!(self, Fl::Fin { w, .. } if bitlen(w) == 0)
    }
    pub fn is_nonzero_fin(&self) -> bool {
        self.is_fin() && !self.is_zero()
    }
    pub fn neg(&self) -> bool {
        match self {
            Fl::NaN => false,
            Fl::Inf { neg } => *neg,
            Fl::Fin { neg, .. } => *neg,
        }
    }
    pub fn inex(&self) -> bool {
        matches!(self, Fl::Fin { inex: true, .. })
    }
    pub fn set_inex(&mut self, v: bool) {
        if let Fl::Fin { inex, .. } = self {
            *inex = v
        }
    }
    pub fn set_neg(&mut self, v: bool) {
        match self {
            Fl::Fin { neg, .. } => *neg = v,
            Fl::Inf { neg } => *neg = v,
            _ => {}
        }
    }
    pub fn with_neg(&self, v: bool) -> Fl {
        let mut r = self.clone();
        r.set_neg(v);
        r
    }
    /// precision in bits
    pub fn p(&self) -> usize {
        match self {
            Fl::Fin { w, .. } => w.len() * WB,
            _ => 0,
        }
    }
    /// stored exponent
    pub fn e(&self) -> i64 {
        match self {
            Fl::Fin { e, .. } => *e,
            _ => 0,
        }
    }
    /// exponent of the normalised value (0.1xxx * 2^e); only for nonzero finite
    /// the top bit of the mantissa is set
    pub fn w_top(&self) -> bool {
        matches!(self, Fl::Fin { w, .. } if w.last().is_some_and(|x| x >> 63 == 1))
    }

    pub fn ne(&self) -> i64 {
        match self {
            Fl::Fin { e, w, .. } => *e - (w.len() * WB - bitlen(w)) as i64,
            _ => 0,
        }
    }
    /// (magnitude integer, exponent): |value| = m * 2^k, m odd (or 0)
    pub fn mk(&self) -> (Integer, i64) {
        match self {
            Fl::Fin { e, w, .. } => {
                let m = Integer::from_digits(w, Order::Lsf);
                if m.cmp0() == std::cmp::Ordering::Equal {
                    return (m, 0);
                }
                let k = *e - (w.len() * WB) as i64;
                let tz = m.find_one(0).unwrap();
                (m >> tz, k + tz as i64)
            }
            _ => panic!("mk of non-finite"),
        }
    }
    pub fn is_subnormal(&self) -> bool {
        match self {
            Fl::Fin { w, .. } => {
                let n = bitlen(w);
                n != 0 && n < w.len() * WB
            }
            _ => false,
        }
    }
    /// short human-readable form
    pub fn show(&self) -> String {
        match self {
            Fl::NaN => "NaN".into(),
            Fl::Inf { neg } => if *neg { "-Inf".into() } else { "+Inf".into() },
            Fl::Fin { neg, e, w, inex } => {
                let mut s = String::new();
                s.push(if *neg { '-' } else { '+' });
                s.push_str("0x0.");
                for (i, v) in w.iter().rev().enumerate() {
                    if i > 0 {
                        s.push('_');
                    }
                    if i >= 5 {
                        s.push_str(&format!("..({} words)", w.len()));
                        break;
                    }
                    s.push_str(&format!("{:016x}", v));
                }
                s.push_str(&format!("*2^{}", e));
                if *inex {
                    s.push('~');
                }
                s
            }
        }
    }
}

pub fn err_name(e: Option<Error>) -> String {
    match e {
        None => "None".into(),
        Some(e) => format!("{:?}", e),
    }
}
