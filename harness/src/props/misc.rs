//! C21 (expression macro) and C22 (evaluation context).
//!
//! The compiled-in expressions are evaluated a second time from their source text, by a small parser and
//! interval arithmetic over MPFR, and the result of the macro has to lie between the rounded ends of a
//! neighbourhood of the true value that is far thinner than one unit in the last place.

use super::*;
use crate::gen::{self, Er};
use crate::oracle as or;
use crate::rng::Rng;
use astro_float::ctx::{Context, Contextable};
use astro_float::{expr, Consts, RoundingMode};
use gmp_mpfr_sys::mpfr;
use rug::{Float, Integer};
use std::cell::RefCell;
use std::cmp::Ordering;
use std::collections::HashMap;

// ---------- the family ----------

pub struct Args {
    x: BigFloat,
    y: BigFloat,
    z: BigFloat,
    n: i32,
    d: f64,
    s: String,
}

type EvC = fn(&Args, &mut Context) -> BigFloat;
type Ev3<'a> = fn(&Args, &mut (usize, RoundingMode, &'a mut Consts)) -> BigFloat;
type Ev5<'a> = fn(&Args, &mut (usize, RoundingMode, &'a mut Consts, i32, i32)) -> BigFloat;

pub struct Entry {
    pub src: &'static str,
    ev: EvC,
    ev3: for<'a> fn(&Args, &mut (usize, RoundingMode, &'a mut Consts)) -> BigFloat,
    ev5: for<'a> fn(&Args, &mut (usize, RoundingMode, &'a mut Consts, i32, i32)) -> BigFloat,
}

macro_rules! family {
    ([$x:ident $y:ident $z:ident $n:ident $d:ident $s:ident] $( { $($t:tt)* } )*) => {
        vec![ $( {
            #[allow(unused_variables, unused_mut, unused_parens)]
            fn ev<C: Contextable>(a: &Args, c: &mut C) -> BigFloat {
                let ($x, $y, $z, $n, $d, $s) = (a.x.clone(), a.y.clone(), a.z.clone(), a.n, a.d, a.s.as_str());
                expr!($($t)*, *c)
            }
            Entry {
                src: stringify!($($t)*),
                ev: ev::<Context>,
                ev3: |a, c| ev(a, c),
                ev5: |a, c| ev(a, c),
            }
        } ),* ]
    };
}

pub fn entries() -> Vec<Entry> {
    family![ [x y z n d s]
        { x } { -x } { x + y } { x - y } { x * y } { x / y } { x % y } { -x + y } { -(x - y) }
        { recip(x) } { sqrt(x) } { cbrt(x) } { ln(x) } { log2(x) } { log10(x) } { log(x, y) } { exp(x) } { pow(x, y) }
        { sin(x) } { cos(x) } { tan(x) } { asin(x) } { acos(x) } { atan(x) } { sinh(x) } { cosh(x) } { tanh(x) }
        { asinh(x) } { acosh(x) } { atanh(x) }
        { pi } { e } { ln_2 } { ln_10 } { -pi } { 2 * pi - e } { ln_10 / ln_2 } { pi * e * ln_2 * ln_10 }
        { 1 } { -12345678901234567890 } { 0.1 } { 1.5e-7 } { "3.25" } { "-1.25e-3" } { "-1.234_e-567" * "1.5_e+560" } { "0.3333333333333333333333333333333333333333" }
        { 1_000_000 + 2 } { 0.1 + 0.2 - 0.3 } { 1e10 % 7 } { 1e40 / 3 }
        { x + y + z } { x + y - x } { x - y - z } { x - (y - z) } { (x + y) + z } { (x - y) / (x + y) } { x * y + z } { x * y - z }
        { x / y - z } { x / y * y } { (x + y) * (x - y) } { x * x - y * y } { x * x + 2 * x * y + y * y } { 1 / x + 1 / y }
        { (x + 1) / (x - 1) } { 1 / (1 + x) - 1 } { 1 / (x - 1) - 1 / (x + 1) } { -x * -y } { x - -y } { -x - y } { -(-x) }
        { x + y * z } { x - y * z } { x / y / z } { x % y % z } { x * y % z } { x % y * z } { x + y % z }
        { sqrt(x) * sqrt(x) } { sqrt(x * x + y * y) } { sqrt(x + 1) - sqrt(x) } { sqrt(1 + x) - 1 } { cbrt(1 + x) - 1 } { cbrt(x) * cbrt(x) * cbrt(x) }
        { sqrt(sqrt(x)) } { sqrt(recip(x)) } { recip(recip(x)) } { recip(x + y) - recip(x) } { sqrt(x) - sqrt(y) } { cbrt(x) - cbrt(y) }
        { (sqrt(x * x + 4 * y) - x) / 2 } { (-x + sqrt(x * x - 4 * y * z)) / (2 * y) } { 3 - sqrt(9 - x) }
        { exp(x) - 1 } { exp(x) - 1 - x } { exp(x) - exp(y) } { exp(x + y) } { exp(x) * exp(-x) } { exp(x * y) } { exp(-x * x) } { (exp(x) - exp(-x)) / 2 }
        { (1 - exp(x)) / x } { exp(exp(x)) } { ln(exp(x)) } { exp(ln(x)) } { exp(ln(x) + ln(y)) } { exp(1) - e } { exp(x) % y }
        { ln(1 + x) } { ln(1 + x) - x } { ln(x) - ln(y) } { ln(x + y) } { ln(x / y) } { ln(x * y) } { ln(sqrt(x)) } { ln(ln(x)) } { ln(cos(x)) } { ln(x) / ln(2) }
        { ln(recip(x)) } { ln(x) / ln_2 - y } { ln(1 - x * x) } { ln(x) % y }
        { log2(1 + x) } { log2(x * y) } { log2(x / y) } { log2(pow(2, x)) } { log10(1 + x) } { log10(x * y) } { log10(pow(10, x)) } { log10(x / y) }
        { log(1 + x, y) } { log(x, 1 + y) } { log(1 + x, 1 + y) } { log(pow(y, x), y) } { log(exp(x), 2) } { log(x, 10) } { log(x * y, z) } { log(x, y * z) } { log(2, x) }
        { pow(x, y) - 1 } { pow(1 + x, y) } { pow(1 + x, 1 / x) } { pow(1 + x, y / z) } { pow(x, 1 / y) } { pow(x + y, z) } { pow(x, y + z) } { pow(e, x) } { pow(pi, y) } { pow(2, x) }
        { pow(10, x) } { pow(x, -2) } { pow(x, 0.5) } { pow(sqrt(x), y) } { pow(cos(x), y) } { pow(x * x, y * y) } { pow(1.0000000000000000000234, y) }
        { sin(x + y) } { sin(x * y) } { sin(pi + x) } { sin(pi * x) } { sin(pi - x) - x } { sin(1 / x) } { sin(exp(x)) } { sin(x) - x } { sin(x) / x - 1 } { sin(sqrt(x)) } { sin(2 * pi * x) }
        { cos(x) - 1 } { (1 - cos(x)) / (x * x) } { cos(x + y) } { cos(pi / 2 + x) } { cos(pi / 2 - x) } { cos(pi * x) } { cos(exp(x)) } { cos(x * x) } { cos(x) - cos(y) } { cos(3 * pi / 2 + x) }
        { tan(x + y) } { tan(pi / 2 + x) } { tan(pi + x) } { tan(pi / 4 + x) - 1 } { tan(x) - sin(x) } { tan(atan(x)) } { tan(x * y) } { tan(exp(x)) } { tan(x) - x }
        { sin(x) * sin(x) + cos(x) * cos(x) } { sin(x) / cos(x) - tan(y) } { cos(x) * cos(x) - sin(x) * sin(x) } { sin(asin(x)) } { sin(x) - sin(y) } { cos(x) - sin(y) }
        { asin(1 - x) } { asin(sin(x)) } { asin(x) - x } { asin(x * y) } { asin(sqrt(1 - x * x)) } { asin(x / y) } { asin(x) - asin(y) }
        { acos(1 - x) } { acos(cos(x)) } { acos(x - 1) } { acos(x) - pi / 2 } { acos(x * y) } { acos(exp(x)) } { acos(tanh(x)) } { acos(x / y) }
        { atan(x) - x } { atan(x) - pi / 2 } { atan(x) + atan(1 / x) - y } { atan(x) - atan(y) } { atan(x / y) } { atan(tan(x)) } { 4 * atan(1) } { 6 * atan(1 / sqrt(3)) } { atan(x + y) }
        { 16 * atan(1 / 5) - 4 * atan(1 / 239) }
        { sinh(x) - x } { sinh(x) - cosh(x) } { sinh(x + y) } { sinh(ln(x)) } { sinh(asinh(x)) } { cosh(x) - 1 } { cosh(x) - sinh(x) } { cosh(ln(x)) } { cosh(acosh(x)) } { cosh(x * y) }
        { tanh(x) - 1 } { tanh(x) - x } { tanh(x + y) } { tanh(atanh(x)) } { 1 - tanh(x) * tanh(x) } { tanh(x) + tanh(y) } { tanh(ln(x)) }
        { asinh(x) - x } { asinh(sinh(x)) } { asinh(x * y) } { asinh(x) - ln(x) } { acosh(1 + x) } { acosh(cosh(x)) } { acosh(x * y) } { acosh(x) - ln(x) } { acosh(exp(x)) }
        { atanh(tanh(x)) } { atanh(1 - x) } { atanh(x - 1) } { atanh(x) - x } { atanh(x * y) } { atanh(x / y) } { atanh(sin(x)) }
        { n + x } { x * n } { x / n } { pow(x, n) } { n / 3 } { sqrt(n) } { x - n } { ln(1 + x / n) } { x % n }
        { d + x } { x - d } { x * d } { exp(d) } { d / x } { sin(d) } { pow(x, d) } { ln(d) - x } { d % x }
        { s } { s + x } { x - s } { x * s } { exp(s) } { ln(s) } { sin(s) } { pow(s, n) } { pow(s, x) } { s / n - d } { x % s } { (s - d) / n }
        { acosh(s) } { atanh(s) } { log(s, x) } { cos(s) - d } { tan(s * x) } { s - 0.1 } { s - 1 } { s - s }
        { x * 0.1 - y } { 0.1 * 0.1 - x } { 1e-30 + x - 1 } { 1.00000000000000000000000000000001 - x } { ln(1.00000000000000000000000000000000000000000000001) + x }
        { sin(3.14159265358979323846264338327950288) } { "3.14159265358979323846264338327950288419716939937510582097494459230781640628620899862803482534211706798" - pi } { 2.5 * x + "1e-20" }
        { 5 * (1 / 5) } { 5 * (1 / 5) - 1 } { sqrt(2) * sqrt(2) - 2 } { atan(1) * 4 - pi } { ln(2) - ln_2 } { (1 / 3) * 3 - x * 0 - 1 } { ln(5 * (1 / 5)) } { exp(ln_2) - 2 }
        { x - sqrt(x * x) } { (x + y) * (x - y) - x * x + y * y } { sin(pi) } { log2(8) - 3 } { log10(1000) } { sin(asin(x)) - x } { x / y * y - x } { cos(pi) + 1 } { cos(pi / 2) }
        { exp(x) / (1 + exp(x)) } { ln(1 + exp(x)) } { ln(1 + exp(-x)) } { x * exp(y) - z } { sqrt(x) + exp(y) * sin(z) } { (x + y + z) / 3 - x } { ln(x + sqrt(x * x + 1)) } { ln(x + sqrt(x * x - 1)) }
        { ln((1 + x) / (1 - x)) / 2 } { sqrt(x * y) - (x + y) / 2 } { pow(x, y) - exp(y * ln(x)) - z } { x + y / z - ("120" - 120) } { sqrt(pow(x, 2) + pow(y, 2)) } { sin(cos(tan(x))) }
        { exp(exp(x) - 1) - 1 } { ln(cosh(x)) } { pow(cosh(x) - 1, y) } { tanh(exp(x)) - 1 } { sin(pi * x) / (pi * x) - 1 } { exp(x) * cos(y) - exp(x) }
        { ln((exp(x) - 1) / x) } { acos(x / sin(x) - recip(y)) } { atanh((exp(x) - 1) / y) } { (exp(x) - 1 - x) * 2 / (x * x) - 1 } { pow((exp(x) - 1) / x, y) } { log2(cosh(x)) } { acosh(1 + (exp(x) - 1)) }
        { sin((exp(x) - 1) / y) } { tan(pi * (cosh(x) - 1) / y) } { cos(pi / 2 + (exp(x) - 1 - x)) } { log(1 + (exp(x) - 1 - x), cosh(x)) } { (exp(x) - 1) % y } { (cosh(x) - 1) % (exp(x) - 1) }
    ]
}

// ---------- source text -> tree ----------

#[derive(Clone, Debug)]
enum Ast {
    Lit(String),
    Var(String),
    Neg(Box<Ast>),
    Bin(char, Box<Ast>, Box<Ast>),
    Call(String, Vec<Ast>),
}

struct P<'a> {
    t: Vec<&'a str>,
    i: usize,
}

fn lex(s: &str) -> Vec<&str> {
    let b = s.as_bytes();
    let mut v = vec![];
    let mut i = 0;
    while i < b.len() {
        let c = b[i] as char;
        if c.is_whitespace() {
            i += 1;
        } else if c == '"' {
            let j = i + 1 + s[i + 1..].find('"').expect("oracle: string literal");
            v.push(&s[i..=j]);
            i = j + 1;
        } else if c.is_ascii_digit() {
            let mut j = i + 1;
            while j < b.len() {
                let d = b[j] as char;
                if d.is_ascii_alphanumeric() || d == '.' || d == '_' || (matches!(d, '+' | '-') && matches!(b[j - 1], b'e' | b'E')) {
                    j += 1;
                } else {
                    break;
                }
            }
            v.push(&s[i..j]);
            i = j;
        } else if c.is_ascii_alphabetic() {
            let mut j = i + 1;
            while j < b.len() && (b[j].is_ascii_alphanumeric() || b[j] == b'_') {
                j += 1;
            }
            v.push(&s[i..j]);
            i = j;
        } else {
            v.push(&s[i..i + 1]);
            i += 1;
        }
    }
    v
}

impl<'a> P<'a> {
    fn peek(&self) -> &'a str {
        self.t.get(self.i).copied().unwrap_or("")
    }
    fn next(&mut self) -> &'a str {
        let t = self.peek();
        self.i += 1;
        t
    }
    fn sum(&mut self) -> Ast {
        let mut a = self.prod();
        while matches!(self.peek(), "+" | "-") {
            let o = self.next().chars().next().unwrap();
            let b = self.prod();
            a = Ast::Bin(o, Box::new(a), Box::new(b));
        }
        a
    }
    fn prod(&mut self) -> Ast {
        let mut a = self.unary();
        while matches!(self.peek(), "*" | "/" | "%") {
            let o = self.next().chars().next().unwrap();
            let b = self.unary();
            a = Ast::Bin(o, Box::new(a), Box::new(b));
        }
        a
    }
    fn unary(&mut self) -> Ast {
        if self.peek() == "-" {
            self.next();
            return Ast::Neg(Box::new(self.unary()));
        }
        let t = self.next();
        let c = t.chars().next().expect("oracle: unexpected end");
        if c == '(' {
            let a = self.sum();
            assert_eq!(self.next(), ")", "oracle: parser");
            a
        } else if c == '"' {
            Ast::Lit(t.trim_matches('"').to_string())
        } else if c.is_ascii_digit() {
            Ast::Lit(t.replace('_', ""))
        } else if self.peek() == "(" {
            self.next();
            let mut v = vec![self.sum()];
            while self.peek() == "," {
                self.next();
                v.push(self.sum());
            }
            assert_eq!(self.next(), ")", "oracle: parser");
            Ast::Call(t.to_string(), v)
        } else {
            Ast::Var(t.to_string())
        }
    }
}

fn parse_src(s: &str) -> Ast {
    let mut p = P { t: lex(s), i: 0 };
    let a = p.sum();
    assert_eq!(p.i, p.t.len(), "oracle: parser left something of {}", s);
    a
}

// ---------- intervals ----------

const RD: mpfr::rnd_t = mpfr::rnd_t::RNDD;
const RU: mpfr::rnd_t = mpfr::rnd_t::RNDU;

#[derive(Clone, Debug)]
struct Iv {
    lo: Float,
    hi: Float,
}

#[derive(Debug)]
enum Bad {
    /// outside of the domain, an undefined or infinite value, or something the oracle does not define
    Undef,
    /// more bits could decide
    More,
    /// an intermediate result leaves the range in which the result is promised
    Range,
}

type Er1 = unsafe extern "C" fn(*mut mpfr::mpfr_t, *const mpfr::mpfr_t, mpfr::rnd_t) -> std::os::raw::c_int;
type Er2 = unsafe extern "C" fn(*mut mpfr::mpfr_t, *const mpfr::mpfr_t, *const mpfr::mpfr_t, mpfr::rnd_t) -> std::os::raw::c_int;

fn a1(f: Er1, x: &Float, wp: u32, r: mpfr::rnd_t) -> Float {
    let mut o = Float::new(wp);
    unsafe {
        f(o.as_raw_mut(), x.as_raw(), r);
    }
    o
}
fn a2(f: Er2, x: &Float, y: &Float, wp: u32, r: mpfr::rnd_t) -> Float {
    let mut o = Float::new(wp);
    unsafe {
        f(o.as_raw_mut(), x.as_raw(), y.as_raw(), r);
    }
    o
}

/// exponent of a finite number that is not zero
fn fexp(f: &Float) -> Option<i64> {
    if f.is_finite() && *f != 0 {
        Some(unsafe { mpfr::get_exp(f.as_raw()) } as i64)
    } else {
        None
    }
}

fn sigbits(f: &Float) -> u32 {
    if *f == 0 {
        return 0;
    }
    let mut z = Integer::new();
    unsafe {
        mpfr::get_z_2exp(z.as_raw_mut(), f.as_raw());
    }
    z.significant_bits() - z.find_one(0).unwrap_or(0)
}

impl Iv {
    fn pt(f: Float) -> Iv {
        Iv { lo: f.clone(), hi: f }
    }
    fn is_pt(&self) -> bool {
        self.lo == self.hi
    }
    fn has_zero(&self) -> bool {
        self.lo <= 0 && self.hi >= 0
    }
    fn neg(self) -> Iv {
        Iv { lo: -self.hi, hi: -self.lo }
    }
    fn inc(&self, f: Er1, wp: u32) -> Iv {
        Iv { lo: a1(f, &self.lo, wp, RD), hi: a1(f, &self.hi, wp, RU) }
    }
    fn dec(&self, f: Er1, wp: u32) -> Iv {
        Iv { lo: a1(f, &self.hi, wp, RD), hi: a1(f, &self.lo, wp, RU) }
    }
    /// all corners; right for functions monotone in each argument separately
    fn corners(f: Er2, a: &Iv, b: &Iv, wp: u32) -> Iv {
        let mut lo: Option<Float> = None;
        let mut hi: Option<Float> = None;
        for x in [&a.lo, &a.hi] {
            for y in [&b.lo, &b.hi] {
                let l = a2(f, x, y, wp, RD);
                let h = a2(f, x, y, wp, RU);
                if lo.as_ref().map_or(true, |v| l < *v) {
                    lo = Some(l);
                }
                if hi.as_ref().map_or(true, |v| h > *v) {
                    hi = Some(h);
                }
                if b.is_pt() {
                    break;
                }
            }
            if a.is_pt() {
                break;
            }
        }
        Iv { lo: lo.unwrap(), hi: hi.unwrap() }
    }
    fn finite(self) -> Result<Iv, Bad> {
        if self.lo.is_nan() || self.hi.is_nan() {
            Err(Bad::Undef)
        } else if self.lo.is_infinite() || self.hi.is_infinite() {
            Err(Bad::Undef)
        } else {
            Ok(self)
        }
    }
    /// exponent of the endpoint of the smallest magnitude; None for the exact zero
    fn exps(&self) -> Option<(i64, i64)> {
        match (fexp(&self.lo), fexp(&self.hi)) {
            (Some(a), Some(b)) => Some((a.min(b), a.max(b))),
            (Some(a), None) | (None, Some(a)) => Some((a, a)),
            _ => None,
        }
    }
}

pub struct Env<'a> {
    x: &'a Fl,
    y: &'a Fl,
    z: &'a Fl,
    n: i32,
    d: f64,
    s: &'a str,
    wp: u32,
    emin: i64,
    emax: i64,
    /// deepest cancellation met
    deep: i64,
    inexact: bool,
    /// the longest of the exact values
    longest: u32,
    /// something cancelled exactly
    zero: bool,
}

fn decimal(s: &str, wp: u32) -> Iv {
    let c = std::ffi::CString::new(s.replace("_e", "e")).unwrap();
    let g = |r| {
        let mut o = Float::new(wp);
        let mut end = std::ptr::null_mut();
        unsafe {
            mpfr::strtofr(o.as_raw_mut(), c.as_ptr(), &mut end, 10, r);
            assert_eq!(*end, 0, "oracle: decimal {:?}", s);
        }
        o
    };
    Iv { lo: g(RD), hi: g(RU) }
}

fn exact(x: &Fl) -> Result<Iv, Bad> {
    if !x.is_fin() {
        return Err(Bad::Undef);
    }
    Ok(Iv::pt(or::to_mpfr(x)))
}

impl Env<'_> {
    /// an intermediate value has to stay inside of the range where nothing is flushed
    fn range(&self, v: &Iv) -> Result<(), Bad> {
        if v.is_pt() && v.lo == 0 {
            return Ok(());
        }
        if v.has_zero() {
            return Err(Bad::More);
        }
        let (l, h) = v.exps().unwrap();
        if l < self.emin || h > self.emax {
            return Err(Bad::Range);
        }
        Ok(())
    }
    /// how close to a critical point an argument may come
    fn near(&mut self, v: &Iv) -> Result<(), Bad> {
        self.zero |= v.is_pt() && v.lo == 0;
        self.range(v)
    }
    fn sub(&mut self, a: &Ast) -> Result<Iv, Bad> {
        let v = self.eval(a)?;
        self.range(&v)?;
        Ok(v)
    }
    fn minus_one(&self, v: &Iv, sgn: i32) -> Iv {
        let o = Float::with_val(2, -sgn);
        let w = self.wp + v.lo.prec().max(v.hi.prec());
        Iv { lo: a2(mpfr::add, &v.lo, &o, w, RD), hi: a2(mpfr::add, &v.hi, &o, w, RU) }
    }
    fn eval(&mut self, a: &Ast) -> Result<Iv, Bad> {
        let wp = self.wp;
        let r = match a {
            Ast::Lit(s) => decimal(s, wp),
            Ast::Var(v) => match v.as_str() {
                "x" => exact(self.x)?,
                "y" => exact(self.y)?,
                "z" => exact(self.z)?,
                "n" => Iv::pt(Float::with_val(32, self.n)),
                "d" => Iv::pt(Float::with_val(53, self.d)).finite()?,
                "s" => decimal(self.s, wp),
                k => {
                    let g = |r| {
                        let mut o = Float::new(wp);
                        unsafe {
                            match k {
                                "pi" => mpfr::const_pi(o.as_raw_mut(), r),
                                "ln_2" => mpfr::const_log2(o.as_raw_mut(), r),
                                "e" => mpfr::exp(o.as_raw_mut(), Float::with_val(2, 1).as_raw(), r),
                                "ln_10" => mpfr::log(o.as_raw_mut(), Float::with_val(8, 10).as_raw(), r),
                                _ => panic!("oracle: variable {}", k),
                            }
                        };
                        o
                    };
                    Iv { lo: g(RD), hi: g(RU) }
                }
            },
            Ast::Neg(b) => self.sub(b)?.neg(),
            Ast::Bin(o, b, c) => {
                let u = self.sub(b)?;
                let v = self.sub(c)?;
                let nz = u.lo != 0 && v.lo != 0;
                let r = match o {
                    '+' | '-' => {
                        let v = if *o == '-' { v.neg() } else { v };
                        let r = Iv { lo: a2(mpfr::add, &u.lo, &v.lo, wp, RD), hi: a2(mpfr::add, &u.hi, &v.hi, wp, RU) };
                        if let (Some(a), Some(b), Some(c)) = (u.exps(), v.exps(), r.exps()) {
                            self.deep = self.deep.max(a.1.max(b.1) - c.1);
                        }
                        r
                    }
                    '*' => Iv::corners(mpfr::mul, &u, &v, wp),
                    '/' => {
                        if v.is_pt() && v.lo == 0 {
                            return Err(Bad::Undef);
                        }
                        if v.has_zero() {
                            return Err(Bad::More);
                        }
                        Iv::corners(mpfr::div, &u, &v, wp)
                    }
                    '%' => {
                        if v.is_pt() && v.lo == 0 {
                            return Err(Bad::Undef);
                        }
                        if v.has_zero() || u.has_zero() && !u.is_pt() {
                            return Err(Bad::More);
                        }
                        // |u| mod |v| with the sign of u
                        let neg = u.lo < 0 || (u.lo == 0 && u.lo.is_sign_negative());
                        let au = if u.lo < 0 { u.clone().neg() } else { u.clone() };
                        let av = if v.lo < 0 { v.clone().neg() } else { v.clone() };
                        let big = au.exps().map_or(0, |a| a.1) - av.exps().unwrap().0;
                        if big > 200_000 {
                            return Err(Bad::Range);
                        }
                        let r = if au.is_pt() && av.is_pt() {
                            let w = au.lo.prec() + av.lo.prec() + 4;
                            let f = a2(mpfr::fmod, &au.lo, &av.lo, w, RD);
                            Iv::pt(f)
                        } else {
                            let w = wp + big.max(0) as u32 + 8;
                            let ql = a2(mpfr::div, &au.lo, &av.hi, w, RD).trunc();
                            let qh = a2(mpfr::div, &au.hi, &av.lo, w, RU).trunc();
                            if ql != qh {
                                return Err(Bad::More);
                            }
                            let wq = w + av.lo.prec().max(av.hi.prec()) + au.lo.prec().max(au.hi.prec());
                            let m1 = a2(mpfr::mul, &ql, &av.lo, wq, RD);
                            let m2 = a2(mpfr::mul, &ql, &av.hi, wq, RU);
                            let r = Iv { lo: a2(mpfr::sub, &au.lo, &m2, wq, RD), hi: a2(mpfr::sub, &au.hi, &m1, wq, RU) };
                            if r.lo <= 0 || a2(mpfr::sub, &r.hi, &av.lo, wq, RU) >= 0 {
                                return Err(Bad::More);
                            }
                            r
                        };
                        // the remainder is not continuous at multiples of v: precision does not help
                        // to tell the sides if the operands are rounded, and u is a multiple
                        let known = |x: &Ast, i: &Iv| matches!(x, Ast::Var(n) if ["x", "y", "z", "n", "d", "s"].contains(&n.as_str())) || i.is_pt() && sigbits(&i.lo) <= 128;
                        if !(known(b, &u) && known(c, &v)) {
                            let g = Iv { lo: a2(mpfr::sub, &av.lo, &r.hi, wp, RD), hi: a2(mpfr::sub, &av.hi, &r.lo, wp, RU) };
                            for i in [&r, &g] {
                                if i.exps().map_or(true, |e| e.0 < self.emin) {
                                    return Err(Bad::Range);
                                }
                            }
                        }
                        self.deep = self.deep.max(au.exps().map_or(0, |a| a.1) - r.exps().map_or(0, |a| a.1));
                        if neg {
                            r.neg()
                        } else {
                            r
                        }
                    }
                    _ => panic!("oracle: operator"),
                };
                self.zero |= nz && r.is_pt() && r.lo == 0;
                r
            }
            Ast::Call(f, v) => {
                let x = self.sub(&v[0])?;
                match f.as_str() {
                    "recip" => {
                        if x.is_pt() && x.lo == 0 {
                            return Err(Bad::Undef);
                        }
                        if x.has_zero() {
                            return Err(Bad::More);
                        }
                        Iv::corners(mpfr::div, &Iv::pt(Float::with_val(2, 1)), &x, wp)
                    }
                    "sqrt" => {
                        if x.lo < 0 {
                            return Err(if x.hi < 0 { Bad::Undef } else { Bad::More });
                        }
                        x.inc(mpfr::sqrt, wp)
                    }
                    "cbrt" => x.inc(mpfr::cbrt, wp),
                    "ln" | "log2" | "log10" | "log" => {
                        if x.lo <= 0 {
                            return Err(if x.hi <= 0 { Bad::Undef } else { Bad::More });
                        }
                        let x1 = self.minus_one(&x, 1);
                        self.near(&x1)?;
                        match f.as_str() {
                            "ln" => x.inc(mpfr::log, wp),
                            "log2" => x.inc(mpfr::log2, wp),
                            "log10" => x.inc(mpfr::log10, wp),
                            _ => {
                                let b = self.sub(&v[1])?;
                                if b.lo <= 0 {
                                    return Err(if b.hi <= 0 { Bad::Undef } else { Bad::More });
                                }
                                let b1 = self.minus_one(&b, 1);
                                self.near(&b1)?;
                                if b1.is_pt() && b1.lo == 0 {
                                    return Err(Bad::Undef);
                                }
                                let lx = x.inc(mpfr::log, wp);
                                let lb = b.inc(mpfr::log, wp);
                                if lb.has_zero() {
                                    return Err(Bad::More);
                                }
                                Iv::corners(mpfr::div, &lx, &lb, wp)
                            }
                        }
                    }
                    "exp" => x.inc(mpfr::exp, wp),
                    "pow" => {
                        let y = self.sub(&v[1])?;
                        if x.lo <= 0 {
                            // only integer powers of a negative number, and only when nothing is uncertain
                            if x.is_pt() && y.is_pt() && x.lo < 0 && y.lo.is_integer() {
                                Iv { lo: a2(mpfr::pow, &x.lo, &y.lo, wp, RD), hi: a2(mpfr::pow, &x.lo, &y.lo, wp, RU) }
                            } else {
                                return Err(if x.hi <= 0 || x.is_pt() { Bad::Undef } else { Bad::More });
                            }
                        } else {
                            let x1 = self.minus_one(&x, 1);
                        self.near(&x1)?;
                            Iv::corners(mpfr::pow, &x, &y, wp)
                        }
                    }
                    "sin" | "cos" | "tan" => {
                        let e = x.exps().map_or(0, |e| e.1);
                        if e > 3000 {
                            return Err(Bad::Range);
                        }
                        let w = a2(mpfr::sub, &x.hi, &x.lo, 64, RU);
                        if w > 0.5 {
                            return Err(Bad::More);
                        }
                        let lip = |g: Er1| {
                            let a = a1(g, &x.lo, wp, RD);
                            let b = a1(g, &x.lo, wp, RU);
                            Iv { lo: a2(mpfr::sub, &a, &w, wp, RD), hi: a2(mpfr::add, &b, &w, wp, RU) }
                        };
                        match f.as_str() {
                            "sin" => {
                                let r = lip(mpfr::sin);
                                if !x.is_pt() {
                                    self.near(&r)?;
                                }
                                r
                            }
                            "cos" => {
                                let r = lip(mpfr::cos);
                                if !x.is_pt() {
                                    self.near(&r)?;
                                }
                                r
                            }
                            _ => {
                                let c = lip(mpfr::cos);
                                if c.has_zero() {
                                    return Err(Bad::More);
                                }
                                self.near(&c)?;
                                x.inc(mpfr::tan, wp)
                            }
                        }
                    }
                    "asin" | "acos" | "atanh" => {
                        let u = self.minus_one(&x, 1);
                        let l = self.minus_one(&x, -1);
                        let edge = |v: &Iv| v.is_pt() && v.lo == 0;
                        if u.lo > 0 || l.hi < 0 {
                            return Err(Bad::Undef);
                        }
                        if (edge(&u) || edge(&l)) && f == "atanh" {
                            return Err(Bad::Undef);
                        }
                        if (u.hi >= 0 && !edge(&u)) || (l.lo <= 0 && !edge(&l)) {
                            return Err(Bad::More);
                        }
                        self.near(&u)?;
                        self.near(&l)?;
                        match f.as_str() {
                            "asin" => x.inc(mpfr::asin, wp),
                            "acos" => x.dec(mpfr::acos, wp),
                            _ => x.inc(mpfr::atanh, wp),
                        }
                    }
                    "atan" => x.inc(mpfr::atan, wp),
                    "sinh" => x.inc(mpfr::sinh, wp),
                    "cosh" => {
                        if x.lo >= 0 {
                            x.inc(mpfr::cosh, wp)
                        } else if x.hi <= 0 {
                            x.dec(mpfr::cosh, wp)
                        } else {
                            return Err(Bad::More);
                        }
                    }
                    "tanh" => x.inc(mpfr::tanh, wp),
                    "asinh" => x.inc(mpfr::asinh, wp),
                    "acosh" => {
                        let u = self.minus_one(&x, 1);
                        if u.hi < 0 {
                            return Err(Bad::Undef);
                        }
                        if u.lo < 0 {
                            return Err(Bad::More);
                        }
                        self.near(&u)?;
                        x.inc(mpfr::acosh, wp)
                    }
                    _ => panic!("oracle: function {}", f),
                }
            }
        };
        if !r.is_pt() {
            self.inexact = true;
        } else {
            self.longest = self.longest.max(sigbits(&r.lo));
        }
        r.finite()
    }
}

/// How the value of an expression is known: an interval of relative width below 2^-(bits), or proven to be of a
/// magnitude below 2^emin.
enum Val {
    Iv(Iv),
    Below,
    Skip(&'static str),
}

fn value(ast: &Ast, env: &mut Env, bits: u32, limit: u32, true_emin: i64) -> Val {
    let mut wp = bits + 80;
    loop {
        env.wp = wp;
        env.deep = 0;
        env.inexact = false;
        env.longest = 0;
        env.zero = false;
        match env.eval(ast) {
            Ok(r) => {
                if r.is_pt() {
                    return Val::Iv(r);
                }
                if !r.has_zero() {
                    let w = a2(mpfr::sub, &r.hi, &r.lo, 64, RU);
                    let (l, _) = r.exps().unwrap();
                    if fexp(&w).unwrap() < l - bits as i64 {
                        return Val::Iv(r);
                    }
                }
                let (_, h) = r.exps().unwrap();
                if h < true_emin - 2 {
                    return Val::Below;
                }
            }
            Err(Bad::More) => {}
            Err(Bad::Undef) => return Val::Skip("undefined"),
            Err(Bad::Range) => return Val::Skip("range"),
        }
        if wp >= limit {
            return Val::Skip("undecided");
        }
        wp = (wp * 2).min(limit);
    }
}

thread_local! {
    static FAM: RefCell<Option<(Vec<Entry>, HashMap<&'static str, usize>, Vec<Ast>)>> = const { RefCell::new(None) };
}

fn with_entry<T>(src: &str, f: impl FnOnce(&Entry, &Ast) -> T) -> Option<T> {
    FAM.with(|m| {
        let mut m = m.borrow_mut();
        if m.is_none() {
            let e = entries();
            let h = e.iter().enumerate().map(|(i, e)| (e.src, i)).collect();
            let a = e.iter().map(|e| parse_src(e.src)).collect();
            *m = Some((e, h, a));
        }
        let (e, h, a) = m.as_ref().unwrap();
        h.get(src).map(|&i| f(&e[i], &a[i]))
    })
}

pub fn sources() -> &'static [&'static str] {
    static S: std::sync::OnceLock<Vec<&'static str>> = std::sync::OnceLock::new();
    S.get_or_init(|| entries().iter().map(|e| e.src).collect())
}

fn usable_decimal(s: &str) -> bool {
    let t = s.strip_prefix('-').unwrap_or(s);
    let t = t.replace("_e", "e");
    let (m, e) = t.split_once('e').unwrap_or((&t, "0"));
    let (a, b) = m.split_once('.').unwrap_or((m, ""));
    !a.is_empty() && a.len() + b.len() < 2000 && a.bytes().chain(b.bytes()).all(|c| c.is_ascii_digit()) && e.parse::<i32>().map_or(false, |v| v.abs() < 100_000)
}

fn run_entry(en: &Entry, a: &Args, kind: i64, p: usize, rm: RoundingMode, emin: i32, emax: i32) -> BigFloat {
    let mut cc = crate::engine::new_consts();
    match kind {
        0 => {
            let mut c = Context::new(p, rm, cc, emin, emax);
            (en.ev)(a, &mut c)
        }
        1 => (en.ev5)(a, &mut (p, rm, &mut cc, emin, emax)),
        _ => (en.ev3)(a, &mut (p, rm, &mut cc)),
    }
}

/// rounds to exactly b bits
fn round_bits(neg: bool, f: &Float, b: usize, rm: u8) -> Float {
    let _ = neg;
    if *f == 0 {
        return f.clone();
    }
    let r = match rm {
        NONE | TOZERO => mpfr::rnd_t::RNDZ,
        UP => RU,
        DOWN => RD,
        FROMZERO => mpfr::rnd_t::RNDA,
        _ => mpfr::rnd_t::RNDN,
    };
    let mut o = Float::new(b as u32);
    unsafe {
        mpfr::set(o.as_raw_mut(), f.as_raw(), r);
    }
    // the other tie rule: only ties differ, and either neighbour is inside of the accepted interval
    if rm == TOODD && o != *f {
        let t = Float::with_val(f.prec().max(b as u32) + 2, f - &o);
        let mut u = o.clone();
        unsafe {
            if t > 0 {
                mpfr::nextabove(u.as_raw_mut());
            } else {
                mpfr::nextbelow(u.as_raw_mut());
            }
        }
        let t2 = Float::with_val(f.prec().max(b as u32) + 2, f - &u);
        if t2.cmp_abs(&t) == Some(Ordering::Equal) {
            return u;
        }
    }
    o
}

fn check21(c: &Case, _ctx: &mut Ctx) -> Res {
    // f = x y z, n = [n, bits of d, kind of context, emin, emax]
    if c.f.len() != 3 || c.n.len() != 5 || c.rm > 6 || c.p == 0 || c.p > 4096 || !usable_decimal(&c.s) {
        return Ok(Out::Skip);
    }
    if c.f.iter().any(|x| !x.is_fin() || x.p() > 8192) {
        return Ok(Out::Skip);
    }
    let kind = c.n[2];
    let (emin, emax) = if kind == 2 { (EMIN, EMAX) } else { (c.n[3].clamp(EMIN, 0), c.n[4].clamp(0, EMAX)) };
    let d = f64::from_bits(c.n[1] as u64);
    if !d.is_finite() || (d != 0.0 && !d.is_normal()) {
        return Ok(Out::Skip);
    }
    let r = with_entry(&c.op, |en, ast| -> Res {
        let bits = round_p(c.p) as u32 + 16;
        // a limit of the exponents limits the precision: how far it has to reach to see everything above emin
        let limit = if emin >= -6000 { (3 * -emin + 2 * emax.min(6000)) as u32 + 2 * bits + 700 } else { 9000 + bits };
        let slack = 80;
        let mut env = Env {
            x: &c.f[0],
            y: &c.f[1],
            z: &c.f[2],
            n: c.n[0] as i32,
            d,
            s: &c.s,
            wp: 0,
            emin: (emin + slack).min(0),
            emax: (emax - slack).max(0),
            deep: 0,
            inexact: false,
            longest: 0,
            zero: false,
        };
        let v = match value(ast, &mut env, bits, limit, emin) {
            Val::Skip(_) => return Ok(Out::Skip),
            v => v,
        };
        let (deep, inexact) = (env.deep, env.inexact);
        let leaf = matches!(ast, Ast::Var(_) | Ast::Lit(_)) && !inexact;
        let plain = leaf || (!inexact && env.longest <= c.p as u32 + 64);
        // without a limit of exponents the macro may look for the digits of an inexact zero for ever
        if env.zero && !plain && emin < -6000 {
            return Ok(Out::Skip);
        }
        let a = Args { x: c.f[0].to_bf(), y: c.f[1].to_bf(), z: c.f[2].to_bf(), n: c.n[0] as i32, d, s: c.s.clone() };
        let rm = RMS[c.rm as usize];
        let got = run_entry(en, &a, kind, c.p, rm, emin as i32, emax as i32);
        if !got.is_nan() {
            repr_ok(&got).or_else(|m| fail(m))?;
        }
        let g = Fl::from_bf(&got);
        let iv = match v {
            Val::Iv(iv) => iv,
            _ => {
                if !g.is_zero() && !(g.is_nonzero_fin() && g.ne() <= emin) {
                    return fail(format!("got {} but the value is below the smallest exponent {}", g.show(), emin));
                }
                return okt(true, vec!["below"]);
            }
        };
        // what is left by a cancellation may be small enough to be ignored, or not, when next to the smallest exponent
        if let Some((l, _)) = iv.exps() {
            if deep > 0 && !plain && (l - emin).abs() <= 4 {
                return Ok(Out::Skip);
            }
        }
        // the accepted interval
        let w = bits + 64;
        let (mut lo, mut hi) = (iv.lo.clone(), iv.hi.clone());
        if !plain {
            let eps = |f: &Float| {
                let mut t = Float::with_val(64, f).abs();
                unsafe {
                    let s = t.clone();
                    mpfr::mul_2si(t.as_raw_mut(), s.as_raw(), -(bits as i64) + 2, RU);
                }
                t
            };
            lo = a2(mpfr::sub, &lo, &eps(&lo), w.max(lo.prec()), RD);
            hi = a2(mpfr::add, &hi, &eps(&hi), w.max(hi.prec()), RU);
        }
        let mut cand: Vec<Float> = vec![];
        for b in [c.p, round_p(c.p)] {
            for f in [&lo, &hi] {
                cand.push(round_bits(false, f, b, c.rm));
            }
        }
        let lo = cand.iter().min_by(|a, b| a.partial_cmp(b).unwrap()).unwrap().clone();
        let hi = cand.iter().max_by(|a, b| a.partial_cmp(b).unwrap()).unwrap().clone();
        let show = |f: &Float| format!("{:.40}", f);
        // outside of the range of exponents
        let ex = fexp;
        let mut tags = vec![];
        let good = match &g {
            Fl::NaN => false,
            Fl::Inf { neg } => {
                tags.push("overflow");
                if *neg {
                    lo < 0 && ex(&lo).map_or(false, |e| e > emax)
                } else {
                    hi > 0 && ex(&hi).map_or(false, |e| e > emax)
                }
            }
            z if z.is_zero() => {
                tags.push("zero");
                (lo <= 0 && hi >= 0) || (ex(&lo).map_or(true, |e| e < emin) || ex(&hi).map_or(true, |e| e < emin))
            }
            v => {
                if v.p() != round_p(c.p) {
                    return fail(format!("precision of {} is not {}", v.show(), c.p));
                }
                let f = or::to_mpfr(v);
                let e = v.ne();
                f >= lo && f <= hi && e >= emin && e <= emax
            }
        };
        if !good {
            return fail(format!("got {} expected between {} and {} (cancellation of {} bits)", g.show(), show(&lo), show(&hi), deep));
        }
        if g.is_nonzero_fin() && !iv.is_pt() && !g.inex() {
            let f = or::to_mpfr(&g);
            if f < iv.lo || f > iv.hi {
                return fail(format!("{} is marked exact, but is not the exact value", g.show()));
            }
        }
        if deep > 10 {
            tags.push("cancel");
        }
        if deep > c.p as i64 + 100 {
            tags.push("cancel deep");
        }
        okt(inexact || !tags.is_empty(), tags)
    });
    r.unwrap_or(Ok(Out::Skip))
}

// ---------- generators ----------

fn tiny(r: &mut Rng) -> Fl {
    let n = gen::words(r, 4);
    let w = gen::mant(r, n);
    let e = match r.below(4) {
        0 => -r.range(1, 20),
        1 => -r.range(20, 80),
        2 => -r.range(60, 300),
        _ => -r.range(200, 600),
    };
    Fl::Fin { neg: r.bool(), e, w, inex: r.chance(1, 8) }
}

/// near a multiple of a simple fraction of pi, e, 1, ...
fn near_special(r: &mut Rng) -> Fl {
    let n = gen::words(r, 8);
    let p = n * 64;
    let k = or::konst(*r.pick(&["pi", "pi", "pi", "e", "ln_2", "ln_10"]), p);
    let mut f = or::round_ap(&k, p, gen::rm6(r));
    if r.bool() {
        let q = Fl::from_int(&Integer::from(r.range(1, 40)), 64);
        f = or::round_ap(&or::mul(&f, &q), p, TOEVEN);
    }
    if let Fl::Fin { e, neg, .. } = &mut f {
        *e -= r.range(0, 3);
        *neg = r.bool();
    }
    f.set_inex(r.chance(1, 8));
    f
}

fn near_one(r: &mut Rng) -> Fl {
    let mut n = gen::words(r, 10);
    if r.chance(1, 3) {
        n += r.us(8);
    }
    let b = 1 + r.us(n * 64 - 1);
    let mut w = vec![0u64; n];
    let low = r.u64();
    let e;
    if r.bool() {
        // 1.00001xxx
        e = 1;
        w[n - 1] = 1 << 63;
        let pos = n * 64 - 1 - b;
        w[pos / 64] |= 1 << (pos % 64);
        w[0] |= low & 3;
        if r.bool() && pos >= 64 {
            w[pos / 64 - 1] = low;
        }
    } else {
        e = 0;
        gen::fill_ones(&mut w, n * 64 - b, n * 64);
        if r.bool() {
            w[0] |= low & 0xff;
        }
    }
    Fl::Fin { neg: r.chance(1, 6), e, w, inex: r.chance(1, 8) }
}

fn arg(r: &mut Rng) -> Fl {
    match r.below(14) {
        0 | 1 => tiny(r),
        2 => near_special(r),
        3 | 4 => near_one(r),
        5 => gen::small_int(r, 3),
        6 => gen::numz(r, 5, Er::Mid),
        7 => gen::num(r, 20, Er::Small),
        8 => gen::num(r, 4, Er::Mid),
        9 => {
            let mut f = gen::num(r, 4, Er::Small);
            if let Fl::Fin { e, .. } = &mut f {
                *e = r.range(0, 12);
            }
            f
        }
        10 => {
            let mut f = gen::num(r, 4, Er::Small);
            if let Fl::Fin { e, .. } = &mut f {
                *e = -r.range(0, 10);
            }
            f
        }
        _ => gen::num(r, 4, Er::Small),
    }
}

fn dec_string(r: &mut Rng) -> String {
    let mut s = String::new();
    if r.chance(1, 4) {
        s.push('-');
    }
    match r.below(5) {
        0 => {
            s.push_str("1.");
            let k = r.us(60);
            s.extend(std::iter::repeat('0').take(k));
            s.push_str(&format!("{}", 1 + r.below(99999)));
        }
        1 => {
            s.push_str("0.");
            let k = 1 + r.us(60);
            s.extend(std::iter::repeat('9').take(k));
            s.push_str(&format!("{}", r.below(99999)));
        }
        2 => {
            s.push_str("3.14159265358979323846264338327950288419716939937510582097494459230781640628620899862803482534211706798");
            let k = 3 + r.us(s.len() - 5);
            s.truncate(k + 2);
        }
        3 => s.push_str(&format!("{}.{}", r.below(1000), r.below(100000))),
        _ => {
            let k = 1 + r.us(90);
            s.push_str(&format!("{}.", r.below(10)));
            for _ in 0..k {
                s.push((b'0' + r.below(10) as u8) as char);
            }
            if r.bool() {
                s.push_str(&format!("e{}", r.range(-80, 80)));
            }
        }
    }
    s
}

fn g21(r: &mut Rng, narrow: bool) -> Case {
    let src = sources();
    let mut c = Case::new(*r.pick(src));
    let x = arg(r);
    let y = if r.chance(1, 4) { gen::near(r, &x) } else { arg(r) };
    let z = if r.chance(1, 4) { gen::near(r, &y) } else { arg(r) };
    c = c.f(x).f(y).f(z);
    for f in c.f.iter_mut() {
        if r.chance(1, 2) {
            f.set_neg(false);
        }
    }
    c.n.push(match r.below(3) {
        0 => r.range(-5, 10),
        1 => r.range(-1000, 1000),
        _ => r.range(i32::MIN as i64, i32::MAX as i64),
    });
    let d = match r.below(5) {
        0 => 1.0 + (r.range(-5, 5) as f64) * f64::EPSILON,
        1 => std::f64::consts::PI,
        2 => r.range(-1000, 1000) as f64 / 64.0,
        3 => 0.1,
        _ => f64::from_bits((r.u64() >> 12) | ((1023 - 20 + r.below(40)) << 52)),
    };
    c.n.push(d.to_bits() as i64);
    c.s = dec_string(r);
    c.rm = gen::rm7(r);
    c.p = match r.below(6) {
        0 => 1 + r.us(256),
        1 => 64 * (1 + r.us(16)),
        _ => 64 * (1 + r.us(4)),
    };
    if narrow {
        c.n.push(r.below(2) as i64);
        c.n.push(match r.below(4) {
            0 => -r.range(0, 100),
            1 => -r.range(100, 600),
            _ => -r.range(300, 4000),
        });
        c.n.push(match r.below(4) {
            0 => r.range(0, 100),
            1 => r.range(100, 600),
            _ => r.range(300, 4000),
        });
    } else {
        c.n.push(r.below(3) as i64);
        c.n.push(EMIN);
        c.n.push(EMAX);
    }
    c
}
fn g_wide(r: &mut Rng) -> Case {
    g21(r, false)
}
fn g_narrow(r: &mut Rng) -> Case {
    g21(r, true)
}
/// single operations and small expressions, all in reach of correct rounding
fn g_plain(r: &mut Rng) -> Case {
    let b = r.bool();
    let mut c = g21(r, b);
    let s = sources();
    c.op = s[r.us(45)].to_string();
    c
}

pub fn c21() -> Prop {
    Prop {
        id: "C21",
        rule: "the value is inexact, or cancelled, or outside of the exponent range; cases whose value the interval oracle cannot separate from a singularity are skipped",
        assumptions: &["MPFR's directed roundings are right", "about 400 expressions, of up to 12 operations"],
        check: check21,
        canon: vec![],
        streams: vec![
            Stream { name: "wide", quick: 60_000, thorough: 3_000_000, chunk: 50, gen: g_wide },
            Stream { name: "narrow", quick: 60_000, thorough: 3_000_000, chunk: 50, gen: g_narrow },
            Stream { name: "plain", quick: 20_000, thorough: 1_000_000, chunk: 50, gen: g_plain },
        ],
    }
}

// ---------- C22: the context ----------

/// the settings a context has to have
#[derive(Clone, Debug, PartialEq)]
struct Model {
    p: usize,
    rm: u8,
    emin: i64,
    emax: i64,
}

/// every accessor, through every way to get at it
fn ctx_same(c: &mut Context, m: &Model, at: &str) -> Result<(), Fail> {
    fn by<T: Contextable>(c: &mut T) -> (usize, RoundingMode, i64, i64) {
        (c.precision(), c.rounding_mode(), c.emin() as i64, c.emax() as i64)
    }
    let want = (m.p, RMS[m.rm as usize], m.emin, m.emax);
    let own = (Context::precision(c), Context::rounding_mode(c), Context::emin(c) as i64, Context::emax(c) as i64);
    if own != want {
        return fail(format!("{}: the context has {:?} instead of {:?}", at, own, want));
    }
    let t = by(c);
    if t != want {
        return fail(format!("{}: as Contextable it has {:?} instead of {:?}", at, t, want));
    }
    Ok(())
}

fn tuples_same(m: &Model, raw: (i64, i64), cc: &mut Consts) -> Result<(), Fail> {
    let rm = RMS[m.rm as usize];
    let t = (m.p, rm, &mut *cc, raw.0 as i32, raw.1 as i32);
    let w = (m.p, rm, raw.0.clamp(EMIN, 0), raw.1.clamp(0, EMAX));
    let g = (t.precision(), t.rounding_mode(), t.emin() as i64, t.emax() as i64);
    if g != w {
        return fail(format!("tuple of five has {:?} instead of {:?}", g, w));
    }
    let t = (m.p, rm, &mut *cc);
    let w = (m.p, rm, EMIN, EMAX);
    let g = (t.precision(), t.rounding_mode(), t.emin() as i64, t.emax() as i64);
    if g != w {
        return fail(format!("tuple of three has {:?} instead of {:?}", g, w));
    }
    Ok(())
}

fn const_by<T: Contextable>(c: &mut T, k: &str) -> BigFloat {
    match k {
        "pi" => c.const_pi(),
        "e" => c.const_e(),
        "ln_2" => c.const_ln2(),
        _ => c.const_ln10(),
    }
}
fn cache_by<T: Contextable>(c: &mut T, k: &str, p: usize, rm: u8) -> BigFloat {
    super::consts::konst_of(c.consts(), k, p, rm)
}
fn const_own(c: &mut Context, k: &str) -> BigFloat {
    match k {
        "pi" => Context::const_pi(c),
        "e" => Context::const_e(c),
        "ln_2" => Context::const_ln2(c),
        _ => Context::const_ln10(c),
    }
}

const NEX: i64 = 10;
fn eval22<T: Contextable>(i: i64, x: &BigFloat, y: &BigFloat, c: &mut T) -> BigFloat {
    match i {
        0 => expr!(x, &mut *c),
        1 => expr!(x * y, &mut *c),
        2 => expr!(-x, &mut *c),
        3 => expr!(x + y, &mut *c),
        4 => expr!(x - y, &mut *c),
        5 => expr!(x / y, &mut *c),
        6 => expr!(sqrt(x) + y * pi, &mut *c),
        7 => expr!(x * ln_2 - y * e / ln_10, &mut *c),
        8 => expr!(x % y, &mut *c),
        _ => expr!("1.5" * x - 3, &mut *c),
    }
}

/// the exact results
fn exact22(i: i64, x: &Fl, y: &Fl, m: &Model) -> Option<Fl> {
    let rng = |v: &Fl| -> Fl {
        if !v.is_nonzero_fin() {
            return v.clone();
        }
        if v.e() > m.emax {
            Fl::Inf { neg: v.neg() }
        } else if v.e() < m.emin {
            Fl::zero(v.p(), false)
        } else {
            v.clone()
        }
    };
    if m.p == 0 {
        return None;
    }
    let (x, y) = (rng(x), rng(y));
    let neg = x.neg() != y.neg();
    let ap = match i {
        0 | 2 => {
            let n = x.neg() != (i == 2);
            match &x {
                Fl::Inf { .. } => return Some(Fl::Inf { neg: n }),
                v => or::Ap { neg: n, ..or::Ap::of(v) },
            }
        }
        1 => {
            let inf = |v: &Fl| matches!(v, Fl::Inf { .. });
            if inf(&x) || inf(&y) {
                return Some(if x.is_zero() || y.is_zero() { Fl::NaN } else { Fl::Inf { neg } });
            }
            or::mul(&x, &y)
        }
        _ => return None,
    };
    if ap.is_zero() {
        return Some(Fl::zero(round_p(m.p), false));
    }
    // the full value, within the limits of the type: a product may already be lost there
    let full = or::round_ap(&ap, round_p(m.p + 128), NONE);
    if !full.is_nonzero_fin() {
        return None;
    }
    if full.inex() {
        return None;
    }
    let (mm, k) = full.mk();
    let pp = if m.rm == NONE { round_p(m.p) } else { m.p };
    let mut r = super::manip::rounded_to(&full, &mm, k, pp, m.rm)?;
    if r.is_fin() && r.p() != round_p(m.p) {
        return None;
    }
    if r.is_fin() {
        r.set_inex(false);
    }
    Some(rng(&r))
}

fn same_number(a: &BigFloat, b: &BigFloat) -> bool {
    let (a, b) = (Fl::from_bf(a), Fl::from_bf(b));
    match (&a, &b) {
        (Fl::NaN, Fl::NaN) => true,
        _ => a == b,
    }
}

fn check22(c: &Case, _ctx: &mut Ctx) -> Res {
    if c.f.len() != 2 || c.n.len() != 2 || c.rm > 6 || c.p > 4096 || c.f.iter().any(|x| !x.is_fin() || x.p() > 64) {
        return Ok(Out::Skip);
    }
    let as_i32 = |v: i64| v.clamp(i32::MIN as i64, i32::MAX as i64);
    let cl = |a: i64, b: i64| (as_i32(a).clamp(EMIN, 0), as_i32(b).clamp(0, EMAX));
    let new = || crate::engine::new_consts();
    let (l, h) = cl(c.n[0], c.n[1]);
    let mut m = Model { p: c.p, rm: c.rm, emin: l, emax: h };
    // settings as they were given, for the tuple
    let mut raw = (as_i32(c.n[0]), as_i32(c.n[1]));
    let mut ctx = Context::new(c.p, RMS[c.rm as usize], new(), raw.0 as i32, raw.1 as i32);
    let mut side = new();
    ctx_same(&mut ctx, &m, "new")?;
    let (x, y) = (c.f[0].to_bf(), c.f[1].to_bf());
    let (mut sets, mut uses) = (0, 0);
    let mut tags: Vec<&'static str> = vec![];
    for (i, st) in c.steps.iter().enumerate() {
        if st.rm > 6 || st.p > 4096 {
            return Ok(Out::Skip);
        }
        let at = format!("step {} {}", i, st.op);
        match st.op.as_str() {
            "p" => {
                ctx.set_precision(st.p);
                m.p = st.p;
                sets += 1;
            }
            "rm" => {
                ctx.set_rounding_mode(RMS[st.rm as usize]);
                m.rm = st.rm;
                sets += 1;
            }
            "emin" => {
                raw.0 = as_i32(st.n);
                ctx.set_emin(raw.0 as i32);
                m.emin = raw.0.clamp(EMIN, 0);
                sets += 1;
            }
            "emax" => {
                raw.1 = as_i32(st.n);
                ctx.set_emax(raw.1 as i32);
                m.emax = raw.1.clamp(0, EMAX);
                sets += 1;
            }
            "consts" => {
                let mut cc = new();
                if st.n % 2 == 1 {
                    cc.pi(st.p.max(1), RMS[st.rm as usize]);
                    cc.e(st.p.max(1), RMS[st.rm as usize]);
                }
                ctx.set_consts(cc);
                sets += 1;
            }
            "clone" => {
                let Ok(mut d) = Context::clone(&ctx) else { return fail(format!("{}: failed", at)) };
                ctx_same(&mut d, &m, &format!("{} (the copy)", at))?;
                // the copy is a context of its own
                d.set_precision(m.p + 1);
                d.set_rounding_mode(RMS[(m.rm as usize + 1) % 7]);
                d.set_emin(if m.emin == 0 { -1 } else { 0 });
                d.set_emax(if m.emax == 0 { 1 } else { 0 });
                ctx_same(&mut ctx, &m, &at)?;
                d.set_precision(m.p);
                d.set_rounding_mode(RMS[m.rm as usize]);
                d.set_emin(m.emin as i32);
                d.set_emax(m.emax as i32);
                ctx_same(&mut d, &m, &format!("{} (the copy)", at))?;
                if st.n % 2 == 1 {
                    ctx = d;
                }
                sets += 1;
            }
            "parts" => {
                let t = ctx.to_raw_parts();
                let got = (t.0, t.1, t.3 as i64, t.4 as i64);
                let want = (m.p, RMS[m.rm as usize], m.emin, m.emax);
                if got != want {
                    return fail(format!("{}: parts are {:?} instead of {:?}", at, got, want));
                }
                ctx = Context::new(t.0, t.1, t.2, t.3, t.4);
                sets += 1;
            }
            k if super::consts::KS.contains(&k) => {
                let got = [const_own(&mut ctx, k), const_by(&mut ctx, k), const_by(&mut (m.p, RMS[m.rm as usize], &mut side), k), const_by(&mut (m.p, RMS[m.rm as usize], &mut side, raw.0 as i32, raw.1 as i32), k), cache_by(&mut ctx, k, m.p, m.rm)];
                for (j, g) in got.iter().enumerate() {
                    if m.p == 0 {
                        break;
                    }
                    let ap = super::consts::reference(k, round_p(m.p));
                    super::arith::check_rounded(g, &ap, false, round_p(m.p), m.rm, 1, STRICT).or_else(|f| fail(format!("{}, way {}: {}", at, j, f.msg)))?;
                }
                uses += 1;
                tags.push("constant");
            }
            "expr" => {
                let i = st.n.rem_euclid(NEX);
                // a long search for the digits of a zero is no subject here
                if matches!(i, 6 | 7) && (c.f[0].is_zero() || c.f[1].is_zero()) {
                    continue;
                }
                if i == 8 && (c.f[0].e() - c.f[1].e()).abs() > 100_000 {
                    continue;
                }
                if m.p == 0 {
                    continue;
                }
                let own = eval22(i, &x, &y, &mut ctx);
                let rm = RMS[m.rm as usize];
                let t5 = eval22(i, &x, &y, &mut (m.p, rm, &mut side, raw.0 as i32, raw.1 as i32));
                if !same_number(&own, &t5) {
                    return fail(format!("{}: the context gives {}, the tuple {}", at, Fl::from_bf(&own).show(), Fl::from_bf(&t5).show()));
                }
                let g = Fl::from_bf(&own);
                repr_ok(&own).or_else(|m| if g.is_fin() { fail(format!("{}: {}", at, m)) } else { Ok(()) })?;
                if m.emin == EMIN && m.emax == EMAX {
                    let t3 = eval22(i, &x, &y, &mut (m.p, rm, &mut side));
                    if !same_number(&own, &t3) {
                        return fail(format!("{}: the context gives {}, the tuple of three {}", at, g.show(), Fl::from_bf(&t3).show()));
                    }
                    tags.push("unlimited");
                }
                if g.is_nonzero_fin() && (g.e() < m.emin || g.e() > m.emax) {
                    return fail(format!("{}: {} is outside of the exponents {}..{}", at, g.show(), m.emin, m.emax));
                }
                if g.is_nonzero_fin() && g.p() != round_p(m.p) {
                    return fail(format!("{}: {} has not the precision {}", at, g.show(), m.p));
                }
                if let Some(ex) = exact22(i, &c.f[0], &c.f[1], &m) {
                    let same = match (&ex, &g) {
                        (Fl::NaN, Fl::NaN) => true,
                        (a, b) if a.is_zero() => b.is_zero(),
                        (Fl::Inf { neg: a }, Fl::Inf { neg: b }) => a == b,
                        (a, b) => a.is_nonzero_fin() && b.is_nonzero_fin() && a.neg() == b.neg() && a.mk() == b.mk(),
                    };
                    if !same {
                        return fail(format!("{}: got {} expected {} in {:?}", at, g.show(), ex.show(), m));
                    }
                    tags.push(match ex {
                        Fl::Inf { .. } => "overflow",
                        ref v if v.is_zero() => "flushed",
                        _ => "exact value",
                    });
                }
                uses += 1;
            }
            _ => return Ok(Out::Skip),
        }
        ctx_same(&mut ctx, &m, &at)?;
        tuples_same(&m, raw, &mut side)?;
    }
    tags.sort();
    tags.dedup();
    okt(sets > 0 && uses > 0, tags)
}

fn elim(r: &mut Rng, low: bool) -> i64 {
    let v = match r.below(8) {
        0 => 0,
        1 => r.range(1, 5),
        2 => r.range(1, 200),
        3 => r.range(1, 100_000),
        4 => EMAX,
        5 => EMAX - r.range(0, 3),
        6 => -r.range(1, 200),
        _ => i32::MAX as i64 - r.range(0, 2),
    };
    if low {
        -v
    } else {
        v
    }
}

fn g22(r: &mut Rng, edge: bool) -> Case {
    let mut c = Case::new("ctx");
    let cp = |r: &mut Rng| match r.below(8) {
        0 => r.us(3),
        1 => 64 * (1 + r.us(12)),
        2 => 64,
        _ => 1 + r.us(300),
    };
    c.p = cp(r);
    c.rm = gen::rm7(r);
    c.n = vec![elim(r, true), elim(r, false)];
    for _ in 0..2 {
        let er = if !edge { Er::Small } else if r.bool() { Er::Low } else { Er::High };
        let mut f = gen::num_w(r, 1, er);
        f.set_inex(false);
        if r.chance(1, 4) {
            // next to a limit of the range
            if let Fl::Fin { e, .. } = &mut f {
                let l = if r.bool() { c.n[0].clamp(EMIN, 0) } else { c.n[1].clamp(0, EMAX) };
                let v = (l + r.range(-3, 3)).clamp(EMIN, EMAX);
                if *e > EMIN {
                    *e = v.max(EMIN + 1);
                }
            }
        }
        c.f.push(f);
    }
    let n = 2 + r.us(14);
    for _ in 0..n {
        let op = match r.below(20) {
            0 | 1 => "p",
            2 | 3 => "rm",
            4 | 5 => "emin",
            6 | 7 => "emax",
            8 => "consts",
            9 => "clone",
            10 => "parts",
            11 => *r.pick(&super::consts::KS),
            _ => "expr",
        };
        let n = match op {
            "emin" => elim(r, true),
            "emax" => elim(r, false),
            "expr" => {
                if r.bool() {
                    r.range(0, 2)
                } else {
                    r.range(0, NEX - 1)
                }
            }
            _ => r.range(0, 9),
        };
        let p = cp(r);
        let rm = gen::rm7(r);
        c.steps.push(Step { op: op.into(), a: vec![], p, rm, n });
    }
    c
}
fn g22_mid(r: &mut Rng) -> Case {
    g22(r, false)
}
fn g22_edge(r: &mut Rng) -> Case {
    g22(r, true)
}

pub fn c22() -> Prop {
    Prop {
        id: "C22",
        rule: "settings change at least once, and at least one constant or expression is evaluated after that",
        assumptions: &["MPFR's constants are right", "ten expressions; results other than of a variable, its negative, and the product of two are compared between contexts only (C21 checks values)"],
        check: check22,
        canon: vec![],
        streams: vec![
            Stream { name: "mid", quick: 120_000, thorough: 6_000_000, chunk: 50, gen: g22_mid },
            Stream { name: "edge", quick: 80_000, thorough: 4_000_000, chunk: 50, gen: g22_edge },
        ],
    }
}
