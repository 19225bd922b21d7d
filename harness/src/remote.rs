//! A line protocol for calls of the library. This file is compiled into the harness (64-bit words) and into the
//! server of /verif/harness32 (32-bit words); mantissas are written in hexadecimal digits, most significant
//! first, so that a text does not depend on the word size.
//!
//! Request: `op p rm n text number...`, text is `-` or `=` and the text with blanks as `_`.
//! Number: `F+:exponent:inexact:mantissa`, `I+`, `I-`, `N0`..`N3`.
//! Answer: a number (NaN with the name of its error), `i:integer`, `s:text`, `d:sign:exponent:digits`, `E:error`.

use astro_float_num::*;

const WD: usize = WORD_BIT_SIZE / 4;

pub fn cache() -> Consts {
    Consts::new().expect("cache of constants")
}

pub fn rmode(n: u8) -> RoundingMode {
    [
        RoundingMode::None,
        RoundingMode::Up,
        RoundingMode::Down,
        RoundingMode::ToZero,
        RoundingMode::FromZero,
        RoundingMode::ToEven,
        RoundingMode::ToOdd,
    ][n as usize]
}

pub fn radix(n: &str) -> Radix {
    match n {
        "2" => Radix::Bin,
        "8" => Radix::Oct,
        "10" => Radix::Dec,
        "16" => Radix::Hex,
        _ => panic!("remote: radix"),
    }
}

/// the number written in `t`, in words of this machine (a mantissa of no whole number of words gets zero bits)
pub fn read(t: &str) -> BigFloat {
    match t {
        "I+" => return INF_POS,
        "I-" => return INF_NEG,
        "N0" => return BigFloat::nan(None),
        "N1" => return BigFloat::nan(Some(Error::InvalidArgument)),
        "N2" => return BigFloat::nan(Some(Error::MemoryAllocation)),
        "N3" => return BigFloat::nan(Some(Error::DivisionByZero)),
        _ => {}
    }
    let mut it = t.split(':');
    let s = if it.next() == Some("F-") { Sign::Neg } else { Sign::Pos };
    let e: Exponent = it.next().unwrap().parse().unwrap();
    let inexact = it.next() == Some("1");
    let mut h = it.next().unwrap().to_string();
    while h.len() % WD != 0 {
        h.push('0');
    }
    let mut w: Vec<Word> = h.as_bytes().chunks(WD).map(|c| Word::from_str_radix(core::str::from_utf8(c).unwrap(), 16).unwrap()).collect();
    w.reverse();
    let mut n = 0;
    for (i, v) in w.iter().enumerate() {
        if *v != 0 {
            n = i * WORD_BIT_SIZE + WORD_BIT_SIZE - v.leading_zeros() as usize;
        }
    }
    BigFloat::from_raw_parts(&w, n, s, e, inexact)
}

pub fn show(x: &BigFloat) -> String {
    if x.is_nan() {
        return format!("N{:?}", x.err()).replace(' ', "");
    }
    if x.is_inf() {
        return if x.is_inf_neg() { "I-" } else { "I+" }.into();
    }
    let (w, n, s, e, inexact) = x.as_raw_parts().unwrap();
    let mut bl = 0;
    let mut h = String::with_capacity(w.len() * WD);
    for (i, v) in w.iter().enumerate() {
        if *v != 0 {
            bl = i * WORD_BIT_SIZE + WORD_BIT_SIZE - v.leading_zeros() as usize;
        }
    }
    for v in w.iter().rev() {
        h.push_str(&format!("{:0width$x}", v, width = WD));
    }
    let full = w.len() * WORD_BIT_SIZE;
    if bl != n || (n == 0 && e != 0) || (n != 0 && n < full && e != EXPONENT_MIN) || e > EXPONENT_MAX || e < EXPONENT_MIN {
        return format!("B:malformed number, {} bits stated, {} found, exponent {}, mantissa {}", n, bl, e, h);
    }
    if x.precision() != Some(n) || x.mantissa_max_bit_len() != Some(full) || x.exponent() != Some(e) || x.sign() != Some(s) {
        return "B:accessors disagree with raw parts".into();
    }
    format!("F{}:{}:{}:{}", if s.is_negative() { '-' } else { '+' }, e, inexact as u8, h)
}

fn call(op: &str, a: &[BigFloat], n: i64, p: usize, m: RoundingMode, cc: &mut Consts) -> Option<BigFloat> {
    match op {
        "pi" => return Some(cc.pi(p, m)),
        "e" => return Some(cc.e(p, m)),
        "ln_2" => return Some(cc.ln_2(p, m)),
        "ln_10" => return Some(cc.ln_10(p, m)),
        _ => {}
    }
    let x = a.first()?;
    Some(match op {
        "exp" => x.exp(p, m, cc),
        "ln" => x.ln(p, m, cc),
        "log2" => x.log2(p, m, cc),
        "log10" => x.log10(p, m, cc),
        "sin" => x.sin(p, m, cc),
        "cos" => x.cos(p, m, cc),
        "tan" => x.tan(p, m, cc),
        "asin" => x.asin(p, m, cc),
        "acos" => x.acos(p, m, cc),
        "atan" => x.atan(p, m, cc),
        "sinh" => x.sinh(p, m, cc),
        "cosh" => x.cosh(p, m, cc),
        "tanh" => x.tanh(p, m, cc),
        "asinh" => x.asinh(p, m, cc),
        "acosh" => x.acosh(p, m, cc),
        "atanh" => x.atanh(p, m, cc),
        "sqrt" => x.sqrt(p, m),
        "cbrt" => x.cbrt(p, m),
        "reciprocal" => x.reciprocal(p, m),
        "abs" => x.abs(),
        "neg" => x.neg(),
        "floor" => x.floor(),
        "ceil" => x.ceil(),
        "int" => x.int(),
        "fract" => x.fract(),
        "signum" => x.signum(),
        "round" => x.round(n as usize, m),
        "powi" => x.powi(n as usize, p, m),
        "set_precision" => {
            let mut y = x.clone();
            match y.set_precision(p, m) {
                Ok(()) => y,
                Err(Error::ExponentOverflow(s)) => {
                    if s.is_positive() {
                        INF_POS
                    } else {
                        INF_NEG
                    }
                }
                Err(e) => BigFloat::nan(Some(e)),
            }
        }
        "set_exponent" => {
            let mut y = x.clone();
            y.set_exponent(n as Exponent);
            y
        }
        "add" => x.add(a.get(1)?, p, m),
        "sub" => x.sub(a.get(1)?, p, m),
        "mul" => x.mul(a.get(1)?, p, m),
        "sqr" => x.mul(x, p, m),
        "div" => x.div(a.get(1)?, p, m),
        "pow" => x.pow(a.get(1)?, p, m, cc),
        "log" => x.log(a.get(1)?, p, m, cc),
        "rem" => x.rem(a.get(1)?),
        "add_full_prec" => x.add_full_prec(a.get(1)?),
        "sub_full_prec" => x.sub_full_prec(a.get(1)?),
        "mul_full_prec" => x.mul_full_prec(a.get(1)?),
        "max" => x.max(a.get(1)?),
        "min" => x.min(a.get(1)?),
        "clamp" => x.clamp(a.get(1)?, a.get(2)?),
        _ => return None,
    })
}

fn opt<T: core::fmt::Display>(x: Option<T>) -> String {
    match x {
        Some(v) => format!("i:{}", v),
        None => "i:none".into(),
    }
}

pub fn answer(line: &str, cc: &mut Consts) -> String {
    let t: Vec<&str> = line.split(' ').collect();
    if t.len() < 5 {
        return "B:bad request".into();
    }
    let op = t[0];
    let (p, m, n): (usize, RoundingMode, i64) = (t[1].parse().unwrap(), rmode(t[2].parse().unwrap()), t[3].parse().unwrap());
    let text = t[4].get(1..).unwrap_or("").replace('_', " ").replace('~', "_");
    let a: Vec<BigFloat> = t[5..].iter().map(|x| read(x)).collect();
    if let Some(r) = call(op, &a, n, p, m, cc) {
        return show(&r);
    }
    if let Some(r) = op.strip_prefix("parse") {
        return show(&BigFloat::parse(&text, radix(r), p, m, cc));
    }
    if let Some(r) = op.strip_prefix("format") {
        return match a[0].format(radix(r), m, cc) {
            Ok(s) => format!("s:{}", s),
            Err(e) => format!("E:{:?}", e),
        };
    }
    if let Some(r) = op.strip_prefix("to_radix") {
        return match a[0].convert_to_radix(radix(r), m, cc) {
            Ok((s, d, e)) => format!("d:{:?}:{}:{:?}", s, e, d),
            Err(e) => format!("E:{:?}", e),
        };
    }
    if let Some(r) = op.strip_prefix("from_radix") {
        let d: Vec<u8> = text.bytes().map(|b| (b as char).to_digit(36).unwrap_or(99) as u8).collect();
        return show(&BigFloat::convert_from_radix(Sign::Neg, &d, n as Exponent, radix(r), p, m, cc));
    }
    match op {
        "reset" => "i:0".into(),
        "new" => show(&BigFloat::new(p)),
        "max_value" => show(&BigFloat::max_value(p)),
        "min_value" => show(&BigFloat::min_value(p)),
        "min_positive" => show(&BigFloat::min_positive(p)),
        "min_positive_normal" => show(&BigFloat::min_positive_normal(p)),
        "word" => show(&BigFloat::from_word(n as Word, p)),
        "random_normal" => {
            let (lo, hi) = text.split_once(':').unwrap();
            let (lo, hi): (i64, i64) = (lo.parse().unwrap(), hi.parse().unwrap());
            let x = BigFloat::random_normal(p, lo as Exponent, hi as Exponent);
            match (x.exponent(), x.precision()) {
                (Some(e), Some(q)) if x.mantissa_max_bit_len() == Some(q) && (lo..=hi).contains(&(e as i64)) => format!("r:{}", q),
                _ => show(&x),
            }
        }
        "cmp" => opt(a[0].cmp(&a[1]).map(|v| v.signum())),
        "abs_cmp" => opt(a[0].abs_cmp(&a[1]).map(|v| v.signum())),
        "is_int" => opt(Some(a[0].is_int())),
        "is_subnormal" => opt(Some(a[0].is_subnormal())),
        "exponent" => opt(a[0].exponent()),
        "display" => format!("s:{}", a[0]),
        "f64" => show(&BigFloat::from_f64(f64::from_bits(n as u64), p)),
        "f32" => show(&BigFloat::from_f32(f32::from_bits(n as u32), p)),
        "i8" => show(&BigFloat::from_i8(n as i8, p)),
        "i16" => show(&BigFloat::from_i16(n as i16, p)),
        "i32" => show(&BigFloat::from_i32(n as i32, p)),
        "i64" => show(&BigFloat::from_i64(n, p)),
        "u8" => show(&BigFloat::from_u8(n as u8, p)),
        "u16" => show(&BigFloat::from_u16(n as u16, p)),
        "u32" => show(&BigFloat::from_u32(n as u32, p)),
        "u64" => show(&BigFloat::from_u64(n as u64, p)),
        "i128" => show(&BigFloat::from_i128(text.parse().unwrap(), p)),
        "u128" => show(&BigFloat::from_u128(text.parse().unwrap(), p)),
        _ => "B:unknown operation".into(),
    }
}
