use crate::engine::*;
use crate::fl::*;
use astro_float::BigFloat;

pub mod arith;
pub mod consts;
pub mod edge;
pub mod exact;
pub mod funcs;
pub mod manip;
pub mod mem;
#[cfg(feature = "macros")]
pub mod misc;
pub mod special;
pub mod text;
pub mod word32;

pub fn all() -> Vec<Prop> {
    #[allow(unused_mut)]
    let mut v = vec![arith::c01(), edge::c09(), funcs::c03(), funcs::c04(), funcs::c05(), funcs::c06(), funcs::c07(), exact::c02(), exact::c23(), consts::c08(), manip::c10(), manip::c11(), manip::c12(), manip::c17(), manip::c18(), manip::c26(), text::c13(), text::c14(), text::c15(), text::c20(), special::c16(), special::c19(), special::c24(), special::c25(), mem::c27(), mem::c28(), word32::c29()];
    #[cfg(feature = "macros")]
    v.extend([misc::c21(), misc::c22()]);
    v
}

#[derive(Clone, Copy)]
pub struct CmpOpt {
    pub zero_sign: bool,
    pub flag: bool,
}
pub const STRICT: CmpOpt = CmpOpt { zero_sign: true, flag: true };
pub const NOZS: CmpOpt = CmpOpt { zero_sign: false, flag: true };

/// representation invariants of a finite number
pub fn repr_ok(b: &BigFloat) -> Result<(), String> {
    if let Some((w, n, s, e, _)) = b.as_raw_parts() {
        let bl = bitlen(w);
        if bl != n {
            return Err(format!("number of significant bits is {} but the mantissa has {}", n, bl));
        }
        if n != 0 && n < w.len() * 64 && e as i64 != EMIN {
            return Err(format!("mantissa not normalised ({} of {} bits) with exponent {}", n, w.len() * 64, e));
        }
        if n == 0 && e != 0 {
            return Err(format!("zero with exponent {}", e));
        }
        if b.precision() != Some(n) || b.mantissa_max_bit_len() != Some(w.len() * 64) || b.exponent() != Some(e) || b.sign() != Some(s) {
            return Err("accessors disagree with raw parts".into());
        }
        if b.is_zero() != (n == 0) {
            return Err("is_zero disagrees with the mantissa".into());
        }
    }
    Ok(())
}

pub fn diff(got: &BigFloat, exp: &Fl, o: CmpOpt) -> Result<(), String> {
    repr_ok(got)?;
    let g = Fl::from_bf(got);
    let ok = match (&g, exp) {
        (Fl::NaN, Fl::NaN) => true,
        (Fl::Inf { neg: a }, Fl::Inf { neg: b }) => a == b,
        (Fl::Fin { neg: n1, e: e1, w: w1, inex: i1 }, Fl::Fin { neg: n2, e: e2, w: w2, inex: i2 }) => {
            w1 == w2
                && e1 == e2
                && (n1 == n2 || (!o.zero_sign && bitlen(w1) == 0))
                && (!o.flag || i1 == i2)
        }
        _ => false,
    };
    if ok {
        Ok(())
    } else {
        let err = if got.is_nan() { format!(" (err {})", err_name(got.err())) } else { String::new() };
        Err(format!("got {}{} expected {}", g.show(), err, exp.show()))
    }
}

pub fn expect(got: &BigFloat, exp: &Fl, o: CmpOpt) -> Result<(), Fail> {
    diff(got, exp, o).or_else(|m| fail(m))
}
