//! C13 (reading numerals), C14 (writing numerals), C15 (arbitrary text), C20 (serialization).

use super::arith::check_rounded;
use super::*;
use crate::gen;
use crate::oracle as or;
use crate::oracle::Ap;
use crate::rng::Rng;
use astro_float::{Error, Exponent, FromExt, Radix, RoundingMode, Sign};
use gmp_mpfr_sys::mpfr;
use rug::{Float, Integer};
use std::str::FromStr;

pub const RDX: [Radix; 4] = [Radix::Bin, Radix::Oct, Radix::Dec, Radix::Hex];
pub const BASE: [u32; 4] = [2, 8, 10, 16];
const FAR: i64 = 1 << 40;

// ---------------------------------------------------------------- reference reader

/// sign, digits after the point (the point stands before the first digit), exponent of the base
#[derive(Debug, Clone, PartialEq)]
pub enum Num {
    NaN,
    Inf(bool),
    Fin { neg: bool, d: Vec<u8>, e: i64 },
}

/// The grammar: [sign] (digits ['.' [digits]] | '.' digits) [exp] | [sign] "inf" | [sign] "nan", letters in any case;
/// exp: ('e' | "_e") [sign] [digits], in base 16 just "_e". Digits of the exponent are digits of the base.
pub fn ref_read(s: &str, ri: usize) -> Num {
    let c: Vec<char> = s.chars().map(|c| c.to_ascii_lowercase()).collect();
    let base = BASE[ri];
    let dig = |c: Option<&char>| -> Option<u8> { c.filter(|c| c.is_ascii()).and_then(|c| c.to_digit(base)).map(|v| v as u8) };
    let mut i = 0;
    let mut neg = false;
    if let Some('+' | '-') = c.first() {
        neg = c[0] == '-';
        i = 1;
    }
    let rest: String = c[i..].iter().collect();
    if rest == "inf" {
        return Num::Inf(neg);
    }
    let mut d = vec![];
    let mut ni = 0;
    while let Some(v) = dig(c.get(i)) {
        d.push(v);
        i += 1;
        ni += 1;
    }
    if c.get(i) == Some(&'.') {
        i += 1;
        while let Some(v) = dig(c.get(i)) {
            d.push(v);
            i += 1;
        }
    }
    if d.is_empty() {
        return Num::NaN;
    }
    let mut e: i64 = 0;
    let has_e = if c.get(i) == Some(&'_') && c.get(i + 1) == Some(&'e') {
        i += 2;
        true
    } else if base != 16 && c.get(i) == Some(&'e') {
        i += 1;
        true
    } else {
        false
    };
    if has_e {
        let mut eneg = false;
        if let Some('+' | '-') = c.get(i) {
            eneg = c[i] == '-';
            i += 1;
        }
        while let Some(v) = dig(c.get(i)) {
            e = (e * base as i64 + v as i64).min(FAR);
            i += 1;
        }
        if eneg {
            e = -e;
        }
    }
    if i != c.len() {
        return Num::NaN;
    }
    Num::Fin { neg, d, e: e + ni }
}

fn pow10_bounds(t: u64, wp: u32) -> (Float, Float) {
    let mut lo = Float::new(wp);
    let mut hi = Float::new(wp);
    unsafe {
        mpfr::ui_pow_ui(lo.as_raw_mut(), 10, t, mpfr::rnd_t::RNDD);
        mpfr::ui_pow_ui(hi.as_raw_mut(), 10, t, mpfr::rnd_t::RNDU);
    }
    (lo, hi)
}

/// m * 2^k * 10^t between two floats of wp bits
fn scaled_bounds(m: &Integer, k: i64, t: i64, wp: u32) -> (Float, Float) {
    let x = or::int_to_mpfr(m, k);
    let (pl, ph) = pow10_bounds(t.unsigned_abs(), wp);
    let mut lo = Float::new(wp);
    let mut hi = Float::new(wp);
    unsafe {
        if t >= 0 {
            mpfr::mul(lo.as_raw_mut(), x.as_raw(), pl.as_raw(), mpfr::rnd_t::RNDD);
            mpfr::mul(hi.as_raw_mut(), x.as_raw(), ph.as_raw(), mpfr::rnd_t::RNDU);
        } else {
            mpfr::div(lo.as_raw_mut(), x.as_raw(), ph.as_raw(), mpfr::rnd_t::RNDD);
            mpfr::div(hi.as_raw_mut(), x.as_raw(), pl.as_raw(), mpfr::rnd_t::RNDU);
        }
    }
    (lo, hi)
}

fn digits_int(d: &[u8], base: u32) -> Integer {
    let s: String = d.iter().map(|v| char::from_digit(*v as u32, base).unwrap()).collect();
    if s.is_empty() {
        Integer::new()
    } else {
        Integer::from_str_radix(&s, base as i32).unwrap()
    }
}

/// value of 0.d1 d2 ... * base^e to at least p+4 bits
pub fn ap_of(neg: bool, d: &[u8], e: i64, ri: usize, p: usize) -> Ap {
    let lead = d.iter().take_while(|v| **v == 0).count();
    let tail = d.iter().rev().take_while(|v| **v == 0).count();
    if lead == d.len() {
        return Ap::exact(neg, Integer::new(), 0);
    }
    let m = digits_int(&d[lead..d.len() - tail], BASE[ri]);
    let t = e - (d.len() - tail) as i64;
    let far = |up: bool| Ap { neg, m: Integer::from(1), k: if up { FAR } else { -FAR }, sticky: false };
    if ri != 2 {
        let s = [1, 3, 0, 4][ri];
        return Ap::exact(neg, m, (t * s).clamp(-FAR, FAR));
    }
    let nd = (d.len() - tail - lead) as i64;
    // 10^(t+nd-1) <= value < 10^(t+nd)
    if t + nd - 1 > 700_000_000 {
        return far(true);
    }
    if t + nd < -700_000_000 {
        return far(false);
    }
    if (0..=3000 + 2 * p as i64 + nd).contains(&t) {
        return Ap::exact(neg, m * Integer::from(Integer::u_pow_u(10, t as u32)), 0);
    }
    if (-(3000 + 2 * p as i64 + 2 * nd)..0).contains(&t) {
        let den = Integer::from(Integer::u_pow_u(10, (-t) as u32));
        let sh = (p as i64 + 70 + den.significant_bits() as i64 - m.significant_bits() as i64).max(0);
        let (q, r) = (m << sh as u32).div_rem(den);
        return Ap { neg, m: q, k: -sh, sticky: r != 0 };
    }
    // odd part of the exact value is longer than p bits: never a tie, never exact
    let mut wp = p as u32 + 100;
    loop {
        let (lo, hi) = scaled_bounds(&m, 0, t, wp);
        let a = or::from_mpfr(&lo, false).expect("oracle: infinite");
        let b = or::from_mpfr(&hi, false).expect("oracle: infinite");
        let cut = |x: &Ap| {
            let sh = x.m.significant_bits() as i64 - p as i64 - 4;
            if sh >= 0 {
                (Integer::from(&x.m >> sh as u32), x.k + sh)
            } else {
                (Integer::from(&x.m << (-sh) as u32), x.k + sh)
            }
        };
        let (ca, cb) = (cut(&a), cut(&b));
        if ca == cb {
            return Ap { neg, m: ca.0, k: ca.1, sticky: true };
        }
        wp += 200;
    }
}

fn same_val(a: &Fl, b: &Fl) -> bool {
    a.is_fin() && b.is_fin() && a.neg() == b.neg() && a.mk() == b.mk()
}

// ---------------------------------------------------------------- C13

/// `got` read from the numeral with precision `p` (None: chosen by the reader)
fn check_num(got: &BigFloat, num: &Num, ri: usize, p: Option<usize>, rm: u8) -> Res {
    let (neg, d, e) = match num {
        Num::NaN => {
            expect(got, &Fl::NaN, STRICT)?;
            return ok(false);
        }
        Num::Inf(neg) => {
            expect(got, &Fl::Inf { neg: *neg }, STRICT)?;
            return ok(false);
        }
        Num::Fin { neg, d, e } => (*neg, d, *e),
    };
    if let Some(p) = p {
        let ap = ap_of(neg, d, e, ri, round_p(p));
        return check_rounded(got, &ap, false, p, rm, 2, STRICT);
    }
    repr_ok(got).or_else(|m| fail(m))?;
    let g = Fl::from_bf(got);
    let gp = if g.is_fin() { g.p() } else { 64 };
    check_auto(&g, gp, neg, d, e, ri, &|ap, p| check_rounded(got, ap, false, p, rm, 2, STRICT))
}

/// `g`, of precision `gp`, is read from digits, and its precision was chosen by the reader
pub fn check_auto(g: &Fl, gp: usize, neg: bool, d: &[u8], e: i64, ri: usize, rounded: &dyn Fn(&Ap, usize) -> Res) -> Res {
    let lead = d.iter().take_while(|v| **v == 0).count();
    let nd = d.len() - lead;
    if nd == 0 {
        if !g.is_zero() || g.neg() != neg || g.inex() || gp == 0 {
            return fail(format!("got {} for a zero", g.show()));
        }
        return okt(false, vec!["auto", "zero"]);
    }
    if ri == 2 {
        if let Fl::Inf { .. } = g {
            let ap = ap_of(neg, d, e, ri, 64);
            return rounded(&ap, 64);
        }
        let need = (nd as f64 * 3.321928).floor() as usize;
        if gp < need.max(1) {
            return fail(format!("{} significant digits are read with {} bits", nd, gp));
        }
        if gp > 64 * 3 + (d.len() as f64 * 3.33) as usize {
            return fail(format!("{} digits are read with {} bits", d.len(), gp));
        }
        let ap = ap_of(neg, d, e, ri, gp);
        rounded(&ap, gp)?;
        return okt(true, vec!["auto"]);
    }
    let ap = ap_of(neg, d, e, ri, 64);
    let en = ap.m.significant_bits() as i64 + ap.k;
    if en > emax() {
        if *g != (Fl::Inf { neg }) {
            return fail(format!("got {} instead of an infinity", g.show()));
        }
        return okt(false, vec!["auto", "overflow"]);
    }
    if !g.is_fin() {
        return fail(format!("got {}", g.show()));
    }
    let (m, k) = g.mk();
    let tz = ap.m.find_one(0).unwrap();
    if g.neg() != neg || g.inex() || m != Integer::from(&ap.m >> tz) || k != ap.k + tz as i64 {
        return fail(format!("got {} which is not exactly the numeral", g.show()));
    }
    okt(true, vec!["auto"])
}

pub fn auto_too_long(num: &Num, ri: usize) -> bool {
    // below the range of exponents the precision is not chosen for the value; exact values far below the smallest
    // normal number would need mantissas of up to 2^33 bits
    if let (Num::Fin { d, e, .. }, true) = (num, ri != 2) {
        let s = [1i64, 3, 0, 4][ri];
        let lead = d.iter().take_while(|v| **v == 0).count() as i64;
        return *e - lead < emin() || (e - d.len() as i64) * s < emin() - (1 << 20);
    }
    false
}

fn c13_check(c: &Case, ctx: &mut Ctx) -> Res {
    if c.n.is_empty() || !(0..4).contains(&c.n[0]) || c.rm > 6 {
        return Ok(Out::Skip);
    }
    let ri = c.n[0] as usize;
    let p = if c.p == 0 { None } else { Some(c.p) };
    let rm = RMS[c.rm as usize];
    let lp = p.unwrap_or(usize::MAX);
    if c.op == "text" {
        let num = ref_read(&c.s, ri);
        if p.is_none() && auto_too_long(&num, ri) {
            return Ok(Out::Skip);
        }
        let got = BigFloat::parse(&c.s, RDX[ri], lp, rm, &mut ctx.cc);
        let r = check_num(&got, &num, ri, p, c.rm)?;
        if ri == 2 {
            if let (None, TOEVEN) = (p, c.rm) {
                match BigFloat::from_str(&c.s) {
                    Ok(v) => {
                        check_num(&v, &num, ri, p, c.rm)?;
                    }
                    Err(e) => return fail(format!("from_str: {:?}", e)),
                }
            } else if let Some(p) = p {
                let v = BigFloat::from_ext(c.s.as_str(), p, rm, &mut ctx.cc);
                check_num(&v, &num, ri, Some(p), c.rm)?;
            }
        }
        return Ok(r);
    }
    if c.op == "digits" && c.n.len() > 2 {
        let mut d = vec![];
        for ch in c.s.chars() {
            match ch.to_digit(BASE[ri]) {
                Some(v) => d.push(v as u8),
                None => return Ok(Out::Skip),
            }
        }
        let e = c.n[1].clamp(emin(), emax());
        let neg = c.n[2] != 0;
        let num = Num::Fin { neg, d, e };
        if p.is_none() && auto_too_long(&num, ri) {
            return Ok(Out::Skip);
        }
        let Num::Fin { d, .. } = &num else { unreachable!() };
        let got = BigFloat::convert_from_radix(if neg { Sign::Neg } else { Sign::Pos }, d, e as Exponent, RDX[ri], lp, rm, &mut ctx.cc);
        return check_num(&got, &num, ri, p, c.rm);
    }
    Ok(Out::Skip)
}

fn dchar(v: u8, up: bool) -> char {
    let c = char::from_digit(v as u32, 16).unwrap();
    if up {
        c.to_ascii_uppercase()
    } else {
        c
    }
}

fn digits(r: &mut Rng, n: usize, base: u32) -> Vec<u8> {
    let b = base as u64;
    let mut d: Vec<u8> = match r.below(8) {
        0 => vec![(b - 1) as u8; n],
        1 => {
            let mut v = vec![0u8; n];
            v[0] = 1 + r.below(b - 1) as u8;
            v
        }
        2 => {
            let mut v = vec![0u8; n];
            v[0] = 1 + r.below(b - 1) as u8;
            v[n - 1] = r.below(b) as u8;
            v
        }
        3 => {
            // runs
            let mut v = vec![];
            while v.len() < n {
                let x = *r.pick(&[0, b - 1, b / 2, 1]) as u8;
                let l = 1 + r.us(20);
                v.extend(std::iter::repeat(x).take(l));
            }
            v.truncate(n);
            v
        }
        _ => (0..n).map(|_| r.below(b) as u8).collect(),
    };
    if r.chance(1, 6) {
        let z = r.us(6).min(n - 1);
        d[..z].fill(0);
    }
    if r.chance(1, 6) {
        let z = r.us(30).min(n - 1);
        d[n - z..].fill(0);
    }
    d
}

/// exponents in the base's own digits
fn exp_str(e: i64, base: u32, r: &mut Rng) -> String {
    let mut a = e.unsigned_abs();
    let mut s = vec![];
    while a > 0 {
        s.push(dchar((a % base as u64) as u8, r.bool()));
        a /= base as u64;
    }
    if s.is_empty() {
        s.push('0');
    }
    if r.chance(1, 8) {
        s.push('0');
    }
    let sg = if e < 0 {
        "-"
    } else if r.bool() {
        "+"
    } else {
        ""
    };
    format!("{}{}", sg, s.iter().rev().collect::<String>())
}

/// numeral text of 0.d * base^e with the point somewhere
fn spell(r: &mut Rng, neg: bool, d: &[u8], e: i64, ri: usize) -> String {
    let mut s = String::new();
    if neg {
        s.push('-');
    } else if r.chance(1, 6) {
        s.push('+');
    }
    let up = r.bool();
    let pos = match r.below(5) {
        0 => 0,
        1 => d.len(),
        2 => 1.min(d.len()),
        3 if (0..=d.len() as i64).contains(&e) => e as usize,
        _ => r.us(d.len() + 1),
    };
    for (i, v) in d.iter().enumerate() {
        if i == pos {
            s.push('.');
        }
        s.push(dchar(*v, up));
    }
    if pos == d.len() && r.bool() {
        s.push('.');
    }
    let ee = e - pos as i64;
    if ee != 0 || r.chance(1, 4) {
        if ri == 3 || r.chance(1, 5) {
            s.push('_');
        }
        s.push(if r.bool() { 'e' } else { 'E' });
        s.push_str(&exp_str(ee, BASE[ri], r));
    }
    s
}

fn emit(r: &mut Rng, neg: bool, d: Vec<u8>, e: i64, ri: usize, p: usize, rm: u8) -> Case {
    if r.bool() {
        let s = spell(r, neg, &d, e, ri);
        Case::new("text").n(ri as i64).p(p).rm(rm).s(s)
    } else {
        Case::new("digits").n(ri as i64).n(e).n(neg as i64).p(p).rm(rm).s(d.iter().map(|v| dchar(*v, false)).collect())
    }
}

fn g13_short(r: &mut Rng) -> Case {
    let ri = if r.bool() { 2 } else { r.us(4) };
    let n = match r.below(4) {
        0 => 1 + r.us(4),
        1 => 1 + r.us(100),
        _ => 1 + r.us(30),
    };
    let d = digits(r, n, BASE[ri]);
    let e = match r.below(4) {
        0 => r.range(-400, 400),
        1 => r.range(-30, 30),
        2 => n as i64 + r.range(-3, 3),
        _ => r.range(0, 3),
    };
    let p = if r.chance(1, 5) { 0 } else { gen::prec(r, 8) };
    let rm = gen::rm7(r);
    let neg = r.bool();
    emit(r, neg, d, e, ri, p, rm)
}

/// numerals on or next to a rounding boundary of the target precision
fn g13_near(r: &mut Rng) -> Case {
    let ri = if r.bool() { 2 } else { r.us(4) };
    let nw = 1 + r.us(4);
    let w = gen::mant(r, nw);
    let p = nw * 64;
    let mut m = Integer::from_digits(&w, rug::integer::Order::Lsf);
    // m + 0, 1/2 of the last place
    m <<= 1;
    if r.chance(3, 4) {
        m += 1;
    }
    let k = match r.below(3) {
        0 => r.range(-400, 100),
        1 => -(p as i64) + r.range(-70, 10),
        _ => r.range(-1500, 1500),
    };
    // m * 2^k as digits * base^-sc
    let b = BASE[ri];
    let (v, sc) = if k >= 0 {
        (m << k as u32, 0i64)
    } else {
        let per = [1, 3, 1, 4][ri] as i64;
        let sc = (-k + per - 1) / per;
        let v = if ri == 2 { m * Integer::from(Integer::u_pow_u(5, (-k) as u32)) } else { m << (sc * per + k) as u32 };
        (v, sc)
    };
    let mut s: Vec<u8> = v.to_string_radix(b as i32).chars().map(|c| c.to_digit(b).unwrap() as u8).collect();
    let mut e = s.len() as i64 - sc;
    match r.below(6) {
        0 | 1 => {}
        2 => {
            let z = r.us(40);
            s.extend(std::iter::repeat(0).take(z));
            s.push(1 + r.below(b as u64 - 1) as u8);
        }
        3 => {
            // subtract one unit of the last digit, then nines
            let v: Integer = digits_int(&s, b) - 1;
            let l = s.len();
            s = v.to_string_radix(b as i32).chars().map(|c| c.to_digit(b).unwrap() as u8).collect();
            e -= (l - s.len()) as i64;
            let z = r.us(40);
            s.extend(std::iter::repeat(b as u8 - 1).take(z));
        }
        4 => {
            let i = r.us(s.len());
            s[i] = r.below(b as u64) as u8;
        }
        _ => {
            let l = 1 + r.us(s.len());
            s.truncate(l);
        }
    }
    let tp = if r.chance(1, 8) { 0 } else { p };
    let rm = gen::rm7(r);
    let neg = r.bool();
    emit(r, neg, s, e, ri, tp, rm)
}

fn g13_long(r: &mut Rng) -> Case {
    let ri = if r.chance(3, 4) { 2 } else { r.us(4) };
    let n = 1 + { let m = if r.chance(1, 6) { 3000 } else { 500 }; r.us(m) };
    let d = digits(r, n, BASE[ri]);
    let e = match r.below(3) {
        0 => n as i64,
        1 => r.range(-3000, 3000),
        _ => r.range(-20, 20),
    };
    let p = if r.chance(1, 4) { 0 } else { gen::prec(r, 40) };
    let rm = gen::rm7(r);
    let neg = r.bool();
    emit(r, neg, d, e, ri, p, rm)
}

/// tens of thousands of digits
fn g13_vast(r: &mut Rng) -> Case {
    let ri = r.us(4);
    let m = *r.pick(&[4000, 4000, 20_000, 20_000, 20_000, 150_000]);
    let n = 1000 + r.us(m);
    let mut d = digits(r, n, BASE[ri]);
    if r.chance(1, 3) {
        // a long run of one digit in the middle
        let (a, l) = (r.us(n), r.us(n));
        let v = *r.pick(&[0, BASE[ri] as u8 - 1]);
        d[a..(a + l).min(n)].iter_mut().for_each(|x| *x = v);
    }
    let e = match r.below(4) {
        0 | 1 => n as i64 - r.range(0, n as i64),
        2 => n as i64 + r.range(-5, 500),
        _ => r.range(-2000, 20),
    };
    let p = match r.below(4) {
        0 => 0,
        1 => gen::prec(r, 8),
        _ => 64 * (1 + r.us(1 + n / 12)),
    };
    let rm = gen::rm7(r);
    let neg = r.bool();
    emit(r, neg, d, e, ri, p, rm)
}

fn g13_huge(r: &mut Rng) -> Case {
    let ri = if r.chance(2, 3) { 2 } else { r.us(4) };
    let n = 1 + r.us(40);
    let d = digits(r, n, BASE[ri]);
    let lim = (-emin() as f64 / (BASE[ri] as f64).log2()) as i64;
    let e = match r.below(8) {
        0 => lim + r.range(-60, 60),
        1 => -lim + r.range(-60, 60),
        2 => r.range(-lim, lim),
        3 => r.range(-1_000_000, 1_000_000),
        4 => r.range(-40_000, 40_000),
        5 => r.range(emin(), emax()),
        6 => -lim - r.range(0, 400),
        _ => *r.pick(&[emin(), emax(), emin() + 1, emax() - 1, emin() + 64, -lim, lim]),
    }
    .clamp(emin(), emax());
    let p = if r.chance(1, 5) { 0 } else { gen::prec(r, 5) };
    let rm = gen::rm7(r);
    let neg = r.bool();
    let mut c = emit(r, neg, d, e, ri, p, rm);
    if c.op == "text" && r.chance(1, 10) {
        // exponent beyond the machine type
        let s: String = (0..1 + r.us(30)).map(|_| dchar(r.below(BASE[ri] as u64) as u8, false)).collect();
        c.s = format!("{}.{}{}e{}{}", if neg { "-" } else { "" }, r.below(2), if ri == 3 || r.chance(1, 5) { "_" } else { "" }, if r.bool() { "-" } else { "" }, s);
    }
    c
}

/// results around the smallest and the largest numbers
fn g13_edge(r: &mut Rng) -> Case {
    let ri = r.us(4);
    let p = 64 * (1 + r.us(3));
    let lg = (BASE[ri] as f64).log2();
    let nz = r.us(if ri == 2 { 60 } else { 200 });
    let mut d = vec![0u8; if r.bool() { nz } else { 0 }];
    let z = d.len() as i64;
    let n = 1 + r.us(60);
    d.extend(digits(r, n, BASE[ri]));
    let e = if r.chance(2, 3) {
        let t = emin() as f64 - r.range(-20, p as i64 + 20) as f64;
        (t / lg) as i64 + z
    } else {
        (emax() as f64 / lg) as i64 + z + r.range(-4, 4)
    };
    let e = e.clamp(emin(), emax());
    let rm = gen::rm7(r);
    let neg = r.bool();
    emit(r, neg, d, e, ri, p, rm)
}

pub fn c13() -> Prop {
    Prop {
        id: "C13",
        rule: "the numeral is not exactly representable at the precision, or the precision was chosen by the reader",
        assumptions: &[
            "numerals up to 3000 digits",
            "base 2, 8, 16 with automatic precision: exponents at most 2^20 bits below the smallest normal number",
            "decimal exponents beyond 10^700000000 count as overflow or underflow",
        ],
        check: c13_check,
        canon: vec![],
        streams: vec![
            Stream { name: "short", quick: 4800000, thorough: 20_000_000, chunk: 500, gen: g13_short },
            Stream { name: "near", quick: 2400000, thorough: 10_000_000, chunk: 200, gen: g13_near },
            Stream { name: "long", quick: 320000, thorough: 2_000_000, chunk: 50, gen: g13_long },
            Stream { name: "vast", quick: 25_000, thorough: 600_000, chunk: 10, gen: g13_vast },
            Stream { name: "huge", quick: 480000, thorough: 2_000_000, chunk: 50, gen: g13_huge },
            Stream { name: "edge", quick: 800000, thorough: 3_000_000, chunk: 50, gen: g13_edge },
        ],
    }
}

// ---------------------------------------------------------------- C14

/// exact digits: |x| * 10^t as (floor, comparison of the rest with one half, rest is zero)
fn scale10(m: &Integer, k: i64, t: i64, nbits: usize) -> (Integer, std::cmp::Ordering, bool) {
    let lim = 4000 + 3 * (m.significant_bits() as i64 + nbits as i64);
    if k.abs() <= lim && t.abs() <= lim {
        let mut num = m.clone();
        let mut den = Integer::from(1);
        if t >= 0 {
            num *= Integer::from(Integer::u_pow_u(10, t as u32));
        } else {
            den *= Integer::from(Integer::u_pow_u(10, (-t) as u32));
        }
        if k >= 0 {
            num <<= k as u32;
        } else {
            den <<= (-k) as u32;
        }
        let (q, r) = num.div_rem(den.clone());
        let z = r == 0;
        let h = Integer::from(&r << 1).cmp(&den);
        return (q, h, z);
    }
    let mut wp = nbits as u32 + 100;
    loop {
        let (mut lo, mut hi) = scaled_bounds(m, k, t, wp);
        lo <<= 1;
        hi <<= 1;
        let (mut a, mut b) = (Integer::new(), Integer::new());
        unsafe {
            mpfr::get_z(a.as_raw_mut(), lo.as_raw(), mpfr::rnd_t::RNDD);
            mpfr::get_z(b.as_raw_mut(), hi.as_raw(), mpfr::rnd_t::RNDD);
        }
        if a == b {
            let h = if a.is_odd() { std::cmp::Ordering::Greater } else { std::cmp::Ordering::Less };
            return (a >> 1, h, false);
        }
        wp += 200;
    }
}

fn strip(d: &[u8], e: i64) -> (Vec<u8>, i64) {
    let lead = d.iter().take_while(|v| **v == 0).count();
    if lead == d.len() {
        return (vec![], 0);
    }
    let tail = d.iter().rev().take_while(|v| **v == 0).count();
    (d[lead..d.len() - tail].to_vec(), e - lead as i64)
}

pub fn check_digits(x: &Fl, xp: usize, neg: bool, d: &[u8], e: i64, ri: usize, rm: u8) -> Result<bool, Fail> {
    if neg != x.neg() {
        return fail("sign of the text is not the sign of the number");
    }
    if let Some(v) = d.iter().find(|v| **v as u32 >= BASE[ri]) {
        return fail(format!("digit {} in base {}", v, BASE[ri]));
    }
    let (s, e) = strip(d, e);
    if x.is_zero() || s.is_empty() {
        if !x.is_zero() || !s.is_empty() {
            return fail("zero and non-zero are confused");
        }
        return Ok(false);
    }
    let (m, k) = x.mk();
    let v = digits_int(&s, BASE[ri]);
    let t = e - s.len() as i64;
    if ri != 2 {
        let per = [1i64, 3, 0, 4][ri];
        let tz = v.find_one(0).unwrap();
        if Integer::from(&v >> tz) != m || t * per + tz as i64 != k {
            return fail(format!("the text denotes {}*2^{} instead of {}*2^{}", v, t * per, m, k));
        }
        return Ok(s.len() > 1);
    }
    let n = (xp as u64 * 301029996 / 1000000000) as usize + 1;
    if s.len() > n {
        return fail(format!("{} digits at {} bits", s.len(), xp));
    }
    // the value has n digits before the point when scaled by 10^sc
    let lim = Integer::from(Integer::u_pow_u(10, n as u32));
    let low = Integer::from(Integer::u_pow_u(10, n as u32 - 1));
    let mut sc = n as i64 - e;
    let nb = xp + 80;
    let (mut q, mut h, mut z) = scale10(&m, k, sc, nb);
    if q < low {
        sc += 1;
        let y = scale10(&m, k, sc, nb);
        (q, h, z) = y;
    } else if q >= lim {
        sc -= 1;
        let y = scale10(&m, k, sc, nb);
        (q, h, z) = y;
    }
    if q < low || q >= lim {
        return fail(format!("exponent {} of the text is off", e));
    }
    // got * 10^(sc): v * 10^(t+sc)
    let sh = t + sc;
    if sh < 0 || sh > n as i64 + 2 {
        return fail(format!("{} digits with exponent {}", s.len(), e));
    }
    let got = v * Integer::from(Integer::u_pow_u(10, sh as u32));
    use std::cmp::Ordering::*;
    let up = match rm {
        NONE => {
            let d = Integer::from(&got - &q);
            if d < -1 || d > 1 + !z as i32 {
                return fail(format!("unrounded digits are {} units away", d));
            }
            return Ok(!z);
        }
        TOZERO => false,
        FROMZERO => !z,
        UP => !z && !neg,
        DOWN => !z && neg,
        TOEVEN => h == Greater || (h == Equal && q.is_odd()),
        TOODD => h == Greater || (h == Equal && q.is_even()),
        _ => unreachable!(),
    };
    let want = if up { q + 1 } else { q };
    if got != want {
        return fail(format!("digits {} instead of {} ({} digits, exponent {})", got, want, n, e));
    }
    Ok(!z)
}

fn c14_check(c: &Case, ctx: &mut Ctx) -> Res {
    if c.n.is_empty() || !(0..4).contains(&c.n[0]) || c.rm > 6 || c.f.is_empty() {
        return Ok(Out::Skip);
    }
    let ri = c.n[0] as usize;
    let x = &c.f[0];
    let b = x.to_bf();
    let rm = RMS[c.rm as usize];
    let s = match b.format(RDX[ri], rm, &mut ctx.cc) {
        Ok(s) => s,
        Err(e) => return fail(format!("format: {:?}", e)),
    };
    if c.rm == TOEVEN {
        let t = match ri {
            0 => format!("{:b}", b),
            1 => format!("{:o}", b),
            2 => format!("{}", b),
            _ => format!("{:X}", b),
        };
        if t != s {
            return fail(format!("format gives {} but the formatting trait {}", s, t));
        }
    }
    match x {
        Fl::Fin { .. } => {}
        _ => {
            let w = match x {
                Fl::NaN => "NaN",
                Fl::Inf { neg: true } => "-Inf",
                _ => "Inf",
            };
            if s != w {
                return fail(format!("got {} instead of {}", s, w));
            }
            let back = BigFloat::parse(&s, RDX[ri], 64, rm, &mut ctx.cc);
            expect(&back, x, STRICT)?;
            if b.convert_to_radix(RDX[ri], rm, &mut ctx.cc) != Err(Error::InvalidArgument) {
                return fail("convert_to_radix of NaN or Inf");
            }
            return okt(false, vec!["special"]);
        }
    }
    let num = ref_read(&s, ri);
    let Num::Fin { neg, d, e } = &num else {
        return fail(format!("{} is not a numeral", s));
    };
    if s.chars().any(|c| c.is_ascii_lowercase() && c != 'e' && ri != 3) {
        return fail(format!("unexpected characters in {}", s));
    }
    let nt = check_digits(x, x.p(), *neg, d, *e, ri, c.rm).or_else(|f| fail(format!("{}: {}", s.chars().take(120).collect::<String>(), f.msg)))?;
    let (s2, d2, e2) = match b.convert_to_radix(RDX[ri], rm, &mut ctx.cc) {
        Ok(v) => v,
        Err(e) => return fail(format!("convert_to_radix: {:?}", e)),
    };
    check_digits(x, x.p(), s2 == Sign::Neg, &d2, e2 as i64, ri, c.rm).or_else(|f| fail(format!("convert_to_radix: {}", f.msg)))?;
    if strip(d, *e) != strip(&d2, e2 as i64) {
        return fail("text and digits differ");
    }
    // back again
    let p = x.p();
    if ri != 2 {
        let mut ex = x.clone();
        ex.set_inex(false);
        for rm2 in [RoundingMode::ToEven, rm] {
            let y = BigFloat::parse(&s, RDX[ri], p, rm2, &mut ctx.cc);
            expect(&y, &ex, STRICT).or_else(|f| fail(format!("{} read back: {}", s.chars().take(120).collect::<String>(), f.msg)))?;
            let y = BigFloat::convert_from_radix(s2, &d2, e2, RDX[ri], p, rm2, &mut ctx.cc);
            expect(&y, &ex, STRICT).or_else(|f| fail(format!("digits read back: {}", f.msg)))?;
        }
    } else if c.rm != NONE {
        let y = BigFloat::parse(&s, RDX[ri], p, RoundingMode::ToEven, &mut ctx.cc);
        let ap = ap_of(*neg, d, *e, ri, p);
        check_rounded(&y, &ap, false, p, TOEVEN, 1, STRICT).or_else(|f| fail(format!("{} read back: {}", s.chars().take(120).collect::<String>(), f.msg)))?;
    }
    okt(nt, vec![["bin", "oct", "dec", "hex"][ri], if x.is_subnormal() { "subnormal" } else if x.is_zero() { "zero" } else { "normal" }])
}

fn g14(r: &mut Rng, er: gen::Er, maxw: usize) -> Case {
    let ri = if r.bool() { 2 } else { r.us(4) };
    let x = gen::any(r, maxw, er);
    Case::new("format").f(x).n(ri as i64).rm(gen::rm7(r))
}
fn g14_small(r: &mut Rng) -> Case {
    g14(r, gen::Er::Small, 6)
}
fn g14_mid(r: &mut Rng) -> Case {
    g14(r, gen::Er::Mid, 24)
}
fn g14_any(r: &mut Rng) -> Case {
    let er = *r.pick(&[gen::Er::Any, gen::Er::Low, gen::Er::High]);
    g14(r, er, 5)
}
fn g14_sub(r: &mut Rng) -> Case {
    let ri = r.us(4);
    let n = 1 + r.us(6);
    let x = gen::subnormal(r, n);
    Case::new("format").f(x).n(ri as i64).rm(gen::rm7(r))
}
/// next to a decimal rounding boundary: a short decimal, half a unit off, read at some precision
fn g14_near(r: &mut Rng) -> Case {
    let nw = 1 + r.us(6);
    let p = nw * 64;
    let n = (p as u64 * 301029996 / 1000000000) as usize + 1;
    let kind = r.below(4);
    let l = match kind {
        0 => 1 + r.us(6),
        1 => n + 1,
        _ => 1 + r.us(n + 1),
    };
    let mut d = digits(r, l, 10);
    if kind == 1 {
        d[l - 1] = 5;
    }
    if d.iter().all(|v| *v == 0) {
        d[0] = 1;
    }
    let e = match r.below(3) {
        0 => l as i64 + r.range(-2, 20),
        1 => r.range(-60, 60),
        _ => r.range(-700, 700),
    };
    let ap = ap_of(r.bool(), &d, e, 2, p);
    let mut x = or::round_ap(&ap, p, gen::rm6(r));
    x.set_inex(r.chance(1, 6));
    if r.chance(1, 3) {
        x = gen::near(r, &x);
    }
    Case::new("format").f(x).n(2).rm(gen::rm7(r))
}
fn g14_long(r: &mut Rng) -> Case {
    let ri = if r.chance(3, 4) { 2 } else { r.us(4) };
    let n = 1 + r.us(120);
    let x = gen::num_w(r, n, gen::Er::Mid);
    Case::new("format").f(x).n(ri as i64).rm(gen::rm7(r))
}

fn g14_vast(r: &mut Rng) -> Case {
    let ri = r.us(4);
    let m = *r.pick(&[300, 300, 1500, 6000]);
    let n = 100 + r.us(m);
    let x = gen::num_w(r, n, gen::Er::Mid);
    Case::new("format").f(x).n(ri as i64).rm(gen::rm7(r))
}

pub fn c14() -> Prop {
    Prop {
        id: "C14",
        rule: "base 10: the number is not a decimal of the printed length; other bases: more than one digit",
        assumptions: &["numbers up to 6000 words", "the number of decimal digits is floor(p * 0.301029996) + 1, as the documentation's example shows"],
        check: c14_check,
        canon: vec![],
        streams: vec![
            Stream { name: "small", quick: 2400000, thorough: 8_000_000, chunk: 200, gen: g14_small },
            Stream { name: "near", quick: 1600000, thorough: 6_000_000, chunk: 200, gen: g14_near },
            Stream { name: "mid", quick: 240000, thorough: 1_500_000, chunk: 50, gen: g14_mid },
            Stream { name: "any", quick: 480000, thorough: 2_000_000, chunk: 50, gen: g14_any },
            Stream { name: "subnormal", quick: 320000, thorough: 1_500_000, chunk: 50, gen: g14_sub },
            Stream { name: "long", quick: 24000, thorough: 150_000, chunk: 10, gen: g14_long },
            Stream { name: "vast", quick: 10_000, thorough: 300_000, chunk: 5, gen: g14_vast },
        ],
    }
}

// ---------------------------------------------------------------- C15

fn c15_check(c: &Case, ctx: &mut Ctx) -> Res {
    if c.n.is_empty() || !(0..4).contains(&c.n[0]) || c.rm > 6 {
        return Ok(Out::Skip);
    }
    let ri = c.n[0] as usize;
    let rm = RMS[c.rm as usize];
    if c.op == "digits" && c.n.len() > 2 {
        // s: one character per digit, its code minus 48
        let d: Vec<u8> = c.s.chars().map(|ch| (ch as u32).wrapping_sub(48) as u8).collect();
        let e = c.n[1].clamp(emin(), emax());
        let neg = c.n[2] != 0;
        let sg = if neg { Sign::Neg } else { Sign::Pos };
        let bad = d.iter().any(|v| *v as u32 >= BASE[ri]);
        let num = Num::Fin { neg, d: d.clone(), e };
        if c.p == 0 && (auto_too_long(&num, ri) || e < -600_000_000) {
            return Ok(Out::Skip);
        }
        let got = BigFloat::convert_from_radix(sg, &d, e as Exponent, RDX[ri], if c.p == 0 { usize::MAX } else { c.p }, rm, &mut ctx.cc);
        if bad {
            if !got.is_nan() || got.err() != Some(Error::InvalidArgument) {
                return fail(format!("digits {:?} give {} (err {})", d, Fl::from_bf(&got).show(), err_name(got.err())));
            }
            return okt(true, vec!["bad digits"]);
        }
        check_num(&got, &num, ri, if c.p == 0 { None } else { Some(c.p) }, c.rm)?;
        return okt(false, vec!["digits"]);
    }
    if c.op == "json" {
        // any JSON text
        let v: Result<BigFloat, _> = serde_json::from_str(&c.s);
        let j: Result<serde_json::Value, _> = serde_json::from_str(&c.s);
        let cls = match (&v, &j) {
            (Ok(_), Err(_)) => return fail(format!("{} is no JSON but was read", c.s)),
            (Ok(v), Ok(serde_json::Value::String(s))) => {
                check_num(v, &ref_read(s, 2), 2, None, TOEVEN)?;
                "json string"
            }
            (Ok(_), Ok(serde_json::Value::Number(_))) => "json number",
            (Ok(_), Ok(o)) => return fail(format!("{} was read as a number", o)),
            (Err(_), Ok(serde_json::Value::String(s))) => return fail(format!("string {:?} was rejected", s)),
            (Err(_), _) => "json error",
        };
        return okt(cls != "json error", vec![cls]);
    }
    if c.op != "text" {
        return Ok(Out::Skip);
    }
    let num = ref_read(&c.s, ri);
    let p = c.p.max(1);
    let got = BigFloat::parse(&c.s, RDX[ri], p, rm, &mut ctx.cc);
    check_num(&got, &num, ri, Some(p), c.rm)?;
    if ri == 2 {
        let v = BigFloat::from_ext(c.s.as_str(), p, rm, &mut ctx.cc);
        check_num(&v, &num, ri, Some(p), c.rm).or_else(|f| fail(format!("from_ext: {}", f.msg)))?;
        match BigFloat::from_str(&c.s) {
            Ok(v) => {
                check_num(&v, &num, ri, None, TOEVEN).or_else(|f| fail(format!("from_str: {}", f.msg)))?;
            }
            Err(_) => {
                if num != Num::NaN {
                    return fail("from_str rejects a numeral");
                }
            }
        }
        let j = serde_json::to_string(&c.s).unwrap();
        match serde_json::from_str::<BigFloat>(&j) {
            Ok(v) => {
                check_num(&v, &num, ri, None, TOEVEN).or_else(|f| fail(format!("deserialized: {}", f.msg)))?;
            }
            Err(_) => {
                if num != Num::NaN {
                    return fail("the deserializer rejects a numeral");
                }
            }
        }
    } else if !auto_too_long(&num, ri) {
        let got = BigFloat::parse(&c.s, RDX[ri], usize::MAX, rm, &mut ctx.cc);
        check_num(&got, &num, ri, None, c.rm)?;
    }
    let tag = match num {
        Num::NaN => "rejected",
        Num::Inf(_) => "inf",
        _ => "numeral",
    };
    okt(c.s.len() > 1, vec![tag])
}

const ALPHA: [char; 40] = [
    '0', '1', '2', '7', '8', '9', 'a', 'b', 'e', 'f', 'A', 'E', 'F', 'g', 'G', '.', '.', '+', '-', '_', 'e', 'E', 'i', 'n', 'I', 'N', 'x', 'o', ' ', '\t', '\n', '\0', ',', '\'',
    '\u{e9}', '\u{663}', '\u{ff11}', '\u{1d7d8}', '%', '/',
];

fn mutate(r: &mut Rng, s: &str) -> String {
    let mut v: Vec<char> = s.chars().collect();
    for _ in 0..1 + r.us(3) {
        match r.below(5) {
            0 if !v.is_empty() => {
                let i = r.us(v.len());
                v.remove(i);
            }
            1 => {
                let i = r.us(v.len() + 1);
                v.insert(i, *r.pick(&ALPHA));
            }
            2 if !v.is_empty() => {
                let i = r.us(v.len());
                v[i] = *r.pick(&ALPHA);
            }
            3 if !v.is_empty() => {
                let l = r.us(v.len() + 1);
                v.truncate(l);
            }
            4 if !v.is_empty() => {
                let i = r.us(v.len());
                let c = v[i];
                let j = r.us(v.len() + 1);
                v.insert(j, c);
            }
            _ => {}
        }
    }
    v.into_iter().collect()
}

pub fn small_numeral(r: &mut Rng, ri: usize) -> String {
    let n = 1 + r.us(14);
    let d = digits(r, n, BASE[ri]);
    let neg = r.bool();
    let e = match r.below(4) {
        0 => r.range(-300, 300),
        1 => n as i64,
        2 => 0,
        _ => r.range(-9, 30),
    };
    spell(r, neg, &d, e, ri)
}

fn g15_mut(r: &mut Rng) -> Case {
    let ri = if r.bool() { 2 } else { r.us(4) };
    let s = if r.chance(1, 8) { (*r.pick(&["inf", "-Inf", "+INF", "nan", "NaN", "-nan", "infinity", "0", "-0", ".0", "0.", "."])).to_string() } else { small_numeral(r, ri) };
    let s = if r.chance(1, 8) { s } else { mutate(r, &s) };
    Case::new("text").n(ri as i64).p(64 * (1 + r.us(2))).rm(gen::rm7(r)).s(s)
}
fn g15_rand(r: &mut Rng) -> Case {
    let ri = r.us(4);
    let n = { let m = if r.chance(1, 10) { 300 } else { 10 }; r.us(m) };
    let few = r.bool();
    let s: String = (0..n)
        .map(|_| if few { *r.pick(&['0', '1', '.', 'e', '-', '+', '_', '7', 'f']) } else { *r.pick(&ALPHA) })
        .collect();
    Case::new("text").n(ri as i64).p(64 * (1 + r.us(2))).rm(gen::rm7(r)).s(s)
}
fn g15_digits(r: &mut Rng) -> Case {
    let ri = r.us(4);
    let n = { let m = if r.chance(1, 10) { 200 } else { 40 }; r.us(m) };
    let mut d = if n == 0 { vec![] } else { digits(r, n, BASE[ri]) };
    if r.chance(1, 2) && n > 0 {
        for _ in 0..1 + r.us(2) {
            let i = r.us(n);
            d[i] = BASE[ri] as u8 + r.below(3) as u8;
        }
    }
    if r.chance(1, 20) && n > 0 {
        let i = r.us(n);
        d[i] = r.below(128) as u8 + 100;
    }
    let s: String = d.iter().map(|v| char::from_u32(*v as u32 + 48).unwrap()).collect();
    let e = if r.chance(1, 10) { gen::expo(r, gen::Er::Any) } else { r.range(-300, 300) };
    Case::new("digits").n(ri as i64).n(e).n(r.below(2) as i64).p(if r.chance(1, 5) { 0 } else { gen::prec(r, 3) }).rm(gen::rm7(r)).s(s)
}
fn g15_json(r: &mut Rng) -> Case {
    let s = match r.below(6) {
        0 => (*r.pick(&["null", "true", "[]", "{}", "[1]", "{\"a\":1}", "\"\"", "", " 1 ", "-", "1e400", "-1e400", "1e-400", "18446744073709551616", "-9223372036854775809"])).to_string(),
        1 | 2 => {
            let t = small_numeral(r, 2);
            let t = if r.bool() { mutate(r, &t) } else { t };
            serde_json::to_string(&t).unwrap()
        }
        3 => small_numeral(r, 2),
        _ => {
            let t = small_numeral(r, 2);
            mutate(r, &t)
        }
    };
    Case::new("json").n(2).p(64).rm(TOEVEN).s(s)
}

pub fn c15() -> Prop {
    Prop {
        id: "C15",
        rule: "text of at least two characters, an invalid digit sequence, or JSON that was read",
        assumptions: &["texts up to about 300 characters", "the grammar is the one in DESIGN.md: an exponent marker may stand without digits, as the existing tests require"],
        check: c15_check,
        canon: vec![],
        streams: vec![
            Stream { name: "mutated", quick: 6400000, thorough: 30_000_000, chunk: 500, gen: g15_mut },
            Stream { name: "random", quick: 4000000, thorough: 20_000_000, chunk: 500, gen: g15_rand },
            Stream { name: "digits", quick: 2400000, thorough: 10_000_000, chunk: 500, gen: g15_digits },
            Stream { name: "json", quick: 3200000, thorough: 10_000_000, chunk: 500, gen: g15_json },
        ],
    }
}

// ---------------------------------------------------------------- C20

fn c20_check(c: &Case, ctx: &mut Ctx) -> Res {
    use serde::de::value::Error as VE;
    use serde::de::{Deserialize, IntoDeserializer};
    if c.op == "number" {
        if c.f.is_empty() {
            return Ok(Out::Skip);
        }
        let x = &c.f[0];
        let b = x.to_bf();
        let j = match serde_json::to_string(&b) {
            Ok(j) => j,
            Err(e) => return fail(format!("serialize: {}", e)),
        };
        let s: String = match serde_json::from_str(&j) {
            Ok(s) => s,
            Err(e) => return fail(format!("{} is not a JSON string: {}", j, e)),
        };
        let y: BigFloat = match serde_json::from_str(&j) {
            Ok(y) => y,
            Err(e) => return fail(format!("deserialize {}: {}", j, e)),
        };
        let v = serde_json::to_value(&b).map_err(|e| e.to_string()).or_else(|m| fail(m))?;
        if v != serde_json::Value::String(s.clone()) {
            return fail("to_value and to_string differ");
        }
        let z: BigFloat = match serde_json::from_value(v) {
            Ok(y) => y,
            Err(e) => return fail(format!("from_value {}: {}", j, e)),
        };
        if Fl::from_bf(&z) != Fl::from_bf(&y) {
            return fail("from_value and from_str differ");
        }
        let num = ref_read(&s, 2);
        match (x, &num) {
            (Fl::NaN, _) => {
                expect(&y, &Fl::NaN, STRICT)?;
                return ok(false);
            }
            (Fl::Inf { .. }, _) => {
                expect(&y, x, STRICT)?;
                return ok(false);
            }
            (_, Num::Fin { neg, d, e }) => {
                // the text is the number to the printed number of digits, and the text is read back exactly rounded
                check_digits(x, x.p(), *neg, d, *e, 2, TOEVEN)?;
                check_num(&y, &num, 2, None, TOEVEN)?;
                // a number that is a decimal of that length comes back unchanged
                let yy = Fl::from_bf(&y);
                let exact = {
                    let ap = ap_of(*neg, d, *e, 2, x.p());
                    let r = or::round_ap(&ap, x.p(), TOEVEN);
                    !r.inex() && same_val(&r, x)
                };
                if exact && !yy.inex() && !x.is_zero() && !same_val(&yy, x) {
                    return fail(format!("{} comes back as {}", x.show(), yy.show()));
                }
                return okt(!x.is_zero(), vec![if exact { "exact" } else { "rounded" }]);
            }
            _ => return fail(format!("{} is written for {}", s, x.show())),
        }
    }
    let _ = ctx;
    if c.n.len() < 2 {
        return Ok(Out::Skip);
    }
    let bits = (c.n[1] as u64 as u128) << 64 | c.n[0] as u64 as u128;
    macro_rules! int {
        ($t:ty) => {{
            let v = bits as $t;
            let d: Result<BigFloat, VE> = BigFloat::deserialize(IntoDeserializer::<VE>::into_deserializer(v));
            let ex = Fl::from_int(&Integer::from(v), 64);
            match d {
                Ok(g) => {
                    repr_ok(&g).or_else(|m| fail(m))?;
                    let g = Fl::from_bf(&g);
                    if !g.is_fin() || g.inex() || !same_val(&g, &ex) {
                        return fail(format!("{} is read as {}", v, g.show()));
                    }
                }
                Err(e) => return fail(format!("{}: {}", v, e)),
            }
            if <$t>::BITS <= 64 {
                let g: BigFloat = match serde_json::from_str(&v.to_string()) {
                    Ok(g) => g,
                    Err(e) => return fail(format!("JSON {}: {}", v, e)),
                };
                let g = Fl::from_bf(&g);
                if !g.is_fin() || g.inex() || !same_val(&g, &ex) {
                    return fail(format!("JSON {} is read as {}", v, g.show()));
                }
            }
            return okt(v != 0, vec!["integer"]);
        }};
    }
    macro_rules! flt {
        ($v:expr) => {{
            let v = $v;
            let d: Result<BigFloat, VE> = BigFloat::deserialize(IntoDeserializer::<VE>::into_deserializer(v));
            let f = v as f64;
            if !f.is_finite() {
                if let Ok(g) = d {
                    if !(f.is_nan() && g.is_nan() || f == f64::INFINITY && g.is_inf_pos() || f == f64::NEG_INFINITY && g.is_inf_neg()) {
                        return fail(format!("{} is read as {}", f, Fl::from_bf(&g).show()));
                    }
                }
                return okt(false, vec!["special"]);
            }
            if f.is_subnormal() {
                return Ok(Out::Skip);
            }
            let ex = super::manip::exact_f64(f).unwrap();
            match d {
                Ok(g) => expect(&g, &ex, STRICT)?,
                Err(e) => return fail(format!("{}: {}", f, e)),
            }
            let j = serde_json::to_string(&f).unwrap();
            match serde_json::from_str::<BigFloat>(&j) {
                // JSON text of a float is read by serde_json itself
                Ok(g) => {
                    let back: f64 = serde_json::from_str(&j).unwrap();
                    let ex = super::manip::exact_f64(back).unwrap();
                    let g = Fl::from_bf(&g);
                    if !g.is_fin() || g.inex() || !(g.is_zero() && ex.is_zero() || same_val(&g, &ex)) {
                        return fail(format!("JSON {} is read as {}", j, g.show()));
                    }
                }
                Err(e) => return fail(format!("JSON {}: {}", j, e)),
            }
            return okt(f != 0.0, vec!["float"]);
        }};
    }
    match c.op.as_str() {
        "i8" => int!(i8),
        "i16" => int!(i16),
        "i32" => int!(i32),
        "i64" => int!(i64),
        "i128" => int!(i128),
        "u8" => int!(u8),
        "u16" => int!(u16),
        "u32" => int!(u32),
        "u64" => int!(u64),
        "u128" => int!(u128),
        "f64" => flt!(f64::from_bits(bits as u64)),
        "f32" => flt!(f32::from_bits(bits as u32)),
        _ => Ok(Out::Skip),
    }
}

fn g20_num(r: &mut Rng) -> Case {
    let mut c = match r.below(4) {
        0 => g14_near(r),
        1 => g14_sub(r),
        2 => g14_any(r),
        _ => g14_small(r),
    };
    c.op = "number".into();
    c.n.clear();
    c.rm = TOEVEN;
    c
}
fn g20_native(r: &mut Rng) -> Case {
    let mut c = if r.chance(1, 3) { super::manip::g18_float(r) } else { super::manip::g18(r) };
    if c.op == "word" {
        c.op = "u64".into();
    }
    c.p = 0;
    c.rm = TOEVEN;
    c
}

pub fn c20() -> Prop {
    Prop {
        id: "C20",
        rule: "a finite non-zero value",
        assumptions: &[
            "JSON and serde's value deserializers stand for all formats",
            "deserializing a native float that is not a number or infinite may be an error; subnormal native floats are left out (finding recorded under C18)",
        ],
        check: c20_check,
        canon: vec![],
        streams: vec![
            Stream { name: "number", quick: 1200000, thorough: 5_000_000, chunk: 100, gen: g20_num },
            Stream { name: "native", quick: 8000000, thorough: 30_000_000, chunk: 1000, gen: g20_native },
        ],
    }
}
