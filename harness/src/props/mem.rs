//! C27: results do not depend on the content of fresh memory, and nothing outside of a buffer is written.
//! C28: running out of memory is reported, and nothing is damaged by it.

use super::special::{any_op, arity, bfs, call, eq_bits, g_call, make, need_n, noise_steps, operand, repr_ok0, too_big, MAKERS};
use super::text::{small_numeral, BASE};
use super::*;
use crate::gen;
use crate::gen::Er;
use crate::heap;
use crate::rng::Rng;
use astro_float::{Consts, Error, Radix, Sign};

const RDX: [Radix; 4] = [Radix::Bin, Radix::Oct, Radix::Dec, Radix::Hex];

#[derive(Debug)]
enum Val {
    Num(BigFloat),
    Text(Result<String, Error>),
    Digits(Result<(Sign, Vec<u8>, i32), Error>),
    Fresh(Result<Vec<BigFloat>, Error>),
}

impl Val {
    fn same(&self, o: &Val) -> bool {
        match (self, o) {
            (Val::Num(a), Val::Num(b)) => eq_bits(a, b),
            (Val::Text(a), Val::Text(b)) => a == b,
            (Val::Digits(a), Val::Digits(b)) => a == b,
            (Val::Fresh(Ok(a)), Val::Fresh(Ok(b))) => a.len() == b.len() && a.iter().zip(b).all(|(x, y)| eq_bits(x, y)),
            (Val::Fresh(Err(a)), Val::Fresh(Err(b))) => a == b,
            _ => false,
        }
    }
    fn no_memory(&self) -> bool {
        let e = match self {
            Val::Num(x) => return x.is_nan() && x.err() == Some(Error::MemoryAllocation),
            Val::Text(r) => r.as_ref().err(),
            Val::Digits(r) => r.as_ref().err(),
            Val::Fresh(r) => r.as_ref().err(),
        };
        e == Some(&Error::MemoryAllocation)
    }
    fn show(&self) -> String {
        let t = match self {
            Val::Num(x) => format!("{} (err {})", Fl::from_bf(x).show(), err_name(x.err())),
            Val::Text(r) => format!("{:?}", r),
            Val::Digits(r) => format!("{:?}", r),
            Val::Fresh(Ok(v)) => v.iter().map(|x| Fl::from_bf(x).show()).collect::<Vec<_>>().join(" "),
            Val::Fresh(Err(e)) => format!("{:?}", e),
        };
        t.chars().take(400).collect()
    }
    fn well_formed(&self) -> Result<(), String> {
        match self {
            Val::Num(x) => repr_ok0(x),
            Val::Fresh(Ok(v)) => v.iter().try_for_each(repr_ok0),
            _ => Ok(()),
        }
    }
}

const OTHER: [&str; 8] = ["format", "to_radix", "parse_text", "radix_text", "consts", "fresh", "set_in_place", "cmp"];

/// the input is not one of the check
fn refused(c: &Case) -> bool {
    let op = c.op.as_str();
    let n = c.n.first().copied().unwrap_or(0);
    if c.rm > 6 || c.p > if op == "consts" { 1 << 16 } else { 8192 } || c.n.len() < 2 || op == "random_normal" || op == "parse" {
        return true;
    }
    if MAKERS.contains(&op) {
        return false;
    }
    match op {
        "format" | "to_radix" => c.f.len() != 1 || c.f[0].p() > 8192 || !(0..4).contains(&n) || (c.f[0].is_nonzero_fin() && c.f[0].ne().abs() > 60_000),
        "parse_text" | "radix_text" => c.s.len() > 4000 || !(0..4).contains(&n),
        "consts" | "fresh" => false,
        "set_in_place" => c.f.len() != 1 || c.f[0].p() > 8192,
        "cmp" => c.f.len() != 2 || c.f.iter().any(|x| x.p() > 8192),
        #[cfg(feature = "macros")]
        "expr" => c.f.len() != 2 || !(0..8).contains(&n) || c.p == 0 || c.f.iter().any(|x| x.p() > 1024 || (x.is_nonzero_fin() && x.ne().abs() > 1000)),
        _ => !super::special::known_op(op) || c.f.len() != arity(op) || (need_n(op) && n < 0) || too_big(op, &c.f, c.p, n),
    }
}

/// the call of the case; `a`: its operands
fn act(c: &Case, a: &mut [BigFloat], cc: &mut Consts) -> Val {
    let op = c.op.as_str();
    let n = c.n[0];
    let (p, rm) = (c.p, RMS[c.rm as usize]);
    if MAKERS.contains(&op) {
        return Val::Num(make(op, c, cc));
    }
    match op {
        "format" => Val::Text(a[0].format(RDX[n as usize], rm, cc)),
        "to_radix" => Val::Digits(a[0].convert_to_radix(RDX[n as usize], rm, cc)),
        "parse_text" => Val::Num(BigFloat::parse(&c.s, RDX[n as usize], p, rm, cc)),
        "radix_text" => {
            // the list of digits belongs to the caller
            let mut d = [0u8; 4000];
            let mut k = 0;
            for ch in c.s.chars() {
                if let Some(v) = ch.to_digit(BASE[n as usize]) {
                    d[k] = v as u8;
                    k += 1;
                }
            }
            let s = if c.s.starts_with('-') { Sign::Neg } else { Sign::Pos };
            Val::Num(BigFloat::convert_from_radix(s, &d[..k], k as i32, RDX[n as usize], p, rm, cc))
        }
        "consts" => Val::Num(super::consts::konst_of(cc, super::consts::KS[n.rem_euclid(4) as usize], p, c.rm)),
        "fresh" => Val::Fresh(match Consts::new() {
            Err(e) => Err(e),
            Ok(mut k) => {
                heap::disarm();
                Ok(super::consts::KS.iter().map(|s| super::consts::konst_of(&mut k, s, p, c.rm)).collect())
            }
        }),
        "set_in_place" => {
            let mut x = std::mem::replace(&mut a[0], astro_float::NAN);
            match x.set_precision(p, rm) {
                Ok(()) => Val::Num(x),
                Err(Error::MemoryAllocation) => {
                    heap::disarm();
                    let bad = repr_ok0(&x).is_err();
                    if bad {
                        panic!("library: the number is not well-formed after set_precision without memory");
                    }
                    Val::Num(BigFloat::nan(Some(Error::MemoryAllocation)))
                }
                Err(e) => Val::Num(BigFloat::nan(Some(e))),
            }
        }
        "cmp" => {
            let o = (a[0].cmp(&a[1]), a[0].abs_cmp(&a[1]), a[0] == a[1], a[0].partial_cmp(&a[1]));
            heap::disarm();
            Val::Text(Ok(format!("{:?}", o)))
        }
        #[cfg(feature = "macros")]
        "expr" => Val::Num(act_expr(n, a, p, c.rm, cc)),
        _ => {
            let (x, y) = a.split_at(1);
            let (y, z) = y.split_at(y.len().min(1));
            match (y.first(), z.first()) {
                (None, _) => Val::Num(call(op, &[&x[0]], n, p, c.rm, cc)),
                (Some(y), None) => Val::Num(call(op, &[&x[0], y], n, p, c.rm, cc)),
                (Some(y), Some(z)) => Val::Num(call(op, &[&x[0], y, z], n, p, c.rm, cc)),
            }
        }
    }
}

#[cfg(feature = "macros")]
fn act_expr(n: i64, a: &[BigFloat], p: usize, rm: u8, cc: &mut Consts) -> BigFloat {
    use astro_float::expr;
    let (x, y) = (&a[0], &a[1]);
    let mut t = (p, RMS[rm as usize], cc, astro_float::EXPONENT_MIN, astro_float::EXPONENT_MAX);
    match n {
        0 => expr!(x + y * 2, &mut t),
        1 => expr!(sin(x) - cos(y), &mut t),
        2 => expr!(ln(x) / exp(y), &mut t),
        3 => expr!(pow(x, y) % 3, &mut t),
        4 => expr!(atan(x) + "0.1" * pi, &mut t),
        5 => expr!(sqrt(x) - cbrt(y) + tanh(x), &mut t),
        6 => expr!(log(x, y) + acosh(x) - asinh(y), &mut t),
        _ => expr!(tan(x - y) * 1.1, &mut t),
    }
}

fn warm(c: &Case, cc: &mut Consts) {
    for st in c.steps.iter().take(3) {
        if st.p <= 4096 {
            super::consts::noise(cc, st);
        }
    }
}

// ---------------------------------------------------------------- C27

fn check27(c: &Case, _: &mut Ctx) -> Res {
    if refused(c) {
        return Ok(Out::Skip);
    }
    let (v1, v2) = (c.n[0] as u64 | 1, c.n[1] as u64);
    let fills = [(0x5aa5_c33c_0ff0_9669, false), (0, false), (u64::MAX, false), (v1 ^ v2.rotate_left(32), true), (1, false)];
    let mut first: Option<Val> = None;
    let mut count = 0;
    for (w, vary) in fills {
        heap::set_fill(w, vary);
        let mut cc = new_consts();
        warm(c, &mut cc);
        let mut a = bfs(c);
        heap::arm(0, false);
        let got = act(c, &mut a, &mut cc);
        count = heap::disarm().0;
        heap::reset_fill();
        got.well_formed().or_else(|m| fail(format!("fresh memory filled with {:x}{}: {}", w, if vary { " and so on" } else { "" }, m)))?;
        match &first {
            None => first = Some(got),
            Some(f) if f.same(&got) => {}
            Some(f) => return fail(format!("fresh memory filled with {:x}{} gives {} and filled with 5aa5c33c0ff09669 {}", w, if vary { " and so on" } else { "" }, got.show(), f.show())),
        }
    }
    okt(count > 1, vec![match count {
        0 => "no-memory",
        1..=9 => "one-digit",
        10..=99 => "two-digits",
        _ => "many",
    }])
}

/// one call of any kind
fn g_any(r: &mut Rng) -> Case {
    let q = r.range(0, 1 << 41);
    let mut c = match r.below(10) {
        0 => {
            let op = *r.pick(&MAKERS);
            let v = if r.bool() { r.range(-200, 200) } else { r.u64() as i64 };
            let k = r.range(0, 3);
            return Case::new(op).p(gen::prec(r, 6)).rm(gen::rm7(r)).n(v).n(k).n(q);
        }
        1 | 2 => {
            let op = *r.pick(&OTHER);
            let mut c = Case::new(op).p(gen::prec(r, 8)).rm(gen::rm7(r)).n(r.range(0, 3));
            match op {
                "format" | "to_radix" => c.f.push(gen::numz(r, 8, Er::Small)),
                "parse_text" | "radix_text" => {
                    let ri = c.n[0] as usize;
                    c.s = small_numeral(r, ri);
                    if r.bool() {
                        let t = small_numeral(r, ri);
                        c.s = format!("{}{}", t.split(['e', 'E', '_', '.']).next().unwrap(), c.s.trim_start_matches(['-', '+']));
                    }
                    if r.chance(1, 6) {
                        c.p = 0;
                    }
                }
                "set_in_place" => c.f.push(if r.chance(1, 6) { gen::subnormal(r, 4) } else { gen::numz(r, 8, Er::Any) }),
                "cmp" => {
                    let x = gen::numz(r, 6, Er::Small);
                    let y = if r.bool() { gen::near(r, &x) } else { gen::numz(r, 6, Er::Small) };
                    c.f = vec![x, y];
                }
                _ => {}
            }
            c
        }
        #[cfg(feature = "macros")]
        3 => {
            let mut c = Case::new("expr").p(gen::prec(r, 3)).rm(gen::rm6(r)).n(r.range(0, 7));
            for _ in 0..2 {
                let mut x = operand(r, "tan", 0, 3);
                x.set_inex(r.chance(1, 5));
                c.f.push(x);
            }
            c
        }
        4 => {
            // results and operands outside of the normal range
            let op = loop {
                let o = any_op(r);
                if !["sin", "cos", "tan", "rem", "add_full_prec", "sub_full_prec"].contains(&o) {
                    break o;
                }
            };
            let mut c = Case::new(op).p(gen::prec(r, 4)).rm(gen::rm7(r)).n(r.range(0, 300));
            for _ in 0..arity(op) {
                let er = *r.pick(&[Er::Low, Er::High, Er::Small, Er::Any]);
                let x = if r.chance(1, 4) { gen::subnormal(r, 4) } else { gen::num(r, 4, er) };
                c.f.push(x);
            }
            c
        }
        _ => g_call(r),
    };
    c.n.truncate(1);
    let mut c = c.n(q);
    if r.chance(1, 3) {
        noise_steps(r, &mut c);
        c.steps.truncate(2);
    }
    c
}

/// long operands, so that every method of multiplication and division takes part
fn g_long(r: &mut Rng, maxw: usize) -> Case {
    let op = *r.pick(&["mul", "mul", "div", "div", "sqrt", "sqrt", "cbrt", "cbrt", "reciprocal", "add", "sub", "rem", "mul_full_prec", "powi", "round", "format", "to_radix", "set_in_place"]);
    let q = r.range(0, 1 << 41);
    let k = r.range(0, 3);
    let nw = 1 + r.us(maxw);
    let mut c = Case::new(op).p(64 * (1 + r.us(maxw).min(127))).rm(gen::rm7(r)).n(if op == "powi" { 2 + r.range(0, 5) } else { k }).n(q);
    let w2 = match r.below(4) {
        0 => 1 + r.us(nw),
        1 => nw,
        _ => 1 + r.us(maxw),
    };
    c.f.push(gen::num_w(r, nw.min(127), Er::Small));
    if arity2(op) == 2 {
        c.f.push(gen::num_w(r, w2.min(127), Er::Small));
    }
    if op == "format" || op == "to_radix" {
        c.f[0] = gen::num_w(r, nw.min(40), Er::Mid);
        if r.bool() {
            c.f[0] = gen::num_w(r, nw.min(40), Er::Small);
        }
    }
    for x in c.f.iter_mut() {
        x.set_inex(false);
    }
    c
}

fn arity2(op: &str) -> usize {
    if OTHER.contains(&op) {
        1
    } else {
        arity(op)
    }
}

/// the longest operands: 400 to 12000 words
fn g_vast(r: &mut Rng) -> Case {
    let op = *r.pick(&["mul", "mul", "mul_full_prec", "div", "sqrt"]);
    let n1 = match r.below(4) {
        0 => 200 + r.us(400),
        1 => 500 + r.us(4500),
        2 => 5300 + r.us(300),
        _ => 5400 + r.us(6000),
    };
    let n2 = match r.below(3) {
        0 => n1,
        1 => 60 + r.us(n1),
        _ => (n1 as f64 * (0.4 + r.below(60) as f64 / 100.0)) as usize + 1,
    };
    let (n1, n2) = if op == "div" || op == "sqrt" { (n1.min(3000), n2.min(3000)) } else { (n1, n2) };
    let mut c = Case::new(op).p(64 * n1.max(n2)).rm(gen::rm6(r)).n(0).n(r.range(0, 1 << 40)).s("vast".into());
    for n in [n1, n2].into_iter().take(arity(op)) {
        let mut x = gen::num_w(r, n, Er::Small);
        x.set_inex(false);
        c.f.push(x);
    }
    c
}

/// operands of any length, for the operations without a constant
fn check27_top(c: &Case, ctx: &mut Ctx) -> Res {
    if c.s != "vast" || !["mul", "mul_full_prec", "div", "sqrt"].contains(&c.op.as_str()) || c.f.len() != arity(&c.op) || c.p > 64 * 20_000 || c.rm > 6 || c.f.iter().any(|x| !x.is_nonzero_fin() || x.p() > 64 * 20_000) {
        return check27(c, ctx);
    }
    let mut first: Option<BigFloat> = None;
    for (w, vary) in [(0x5aa5_c33c_0ff0_9669, false), (0, false), (u64::MAX, false), (c.n[1] as u64, true)] {
        heap::set_fill(w, vary);
        let a = bfs(c);
        let r: Vec<&BigFloat> = a.iter().collect();
        let got = call(&c.op, &r, 0, c.p, c.rm, &mut ctx.cc);
        heap::reset_fill();
        match &first {
            None => first = Some(got),
            Some(f) if eq_bits(f, &got) => {}
            Some(_) => return fail(format!("the product of {} and {} bits differs with fresh memory filled with {:x}", c.f[0].p(), c.f.last().unwrap().p(), w)),
        }
    }
    okt(true, vec![])
}

pub fn c27() -> Prop {
    Prop {
        id: "C27",
        rule: "the call allocated at least two blocks",
        assumptions: &["five contents of fresh memory stand for all", "reads outside of a buffer are seen only if they change the result"],
        check: check27_top,
        canon: vec![],
        streams: vec![
            Stream { name: "any", quick: 90_000, thorough: 6_000_000, chunk: 50, gen: g_any },
            Stream { name: "long", quick: 12_000, thorough: 600_000, chunk: 20, gen: |r| g_long(r, 127) },
            Stream { name: "vast", quick: 800, thorough: 30_000, chunk: 2, gen: g_vast },
        ],
    }
}

// ---------------------------------------------------------------- C28

fn check28(c: &Case, _: &mut Ctx) -> Res {
    if refused(c) {
        return Ok(Out::Skip);
    }
    let ever = c.n[1] & 1 == 1;
    // without a fault
    let mut cc = new_consts();
    warm(c, &mut cc);
    let mut a = bfs(c);
    heap::arm(0, false);
    let want = act(c, &mut a, &mut cc);
    let total = heap::disarm().0;
    if total == 0 || want.no_memory() {
        return okt(false, vec!["no-allocation"]);
    }
    // any allocation, or one of the last, where states are put together
    let v = (c.n[1] as u64 & ((1 << 40) - 1)) >> 1;
    let k = if c.n[1] >> 40 & 1 == 1 { total - v % total.min(30) } else { 1 + v % total };
    let how = || format!("allocation {} of {}{} fails", k, total, if ever { " and later ones" } else { "" });
    // with it
    let mut cc = new_consts();
    warm(c, &mut cc);
    let mut a = bfs(c);
    heap::arm(k, ever);
    let got = act(c, &mut a, &mut cc);
    let (_, failed) = heap::disarm();
    if !got.no_memory() && !got.same(&want) {
        return fail(format!("{}: {} expected {} or MemoryAllocation", how(), got.show(), want.show()));
    }
    let reported = got.no_memory();
    if c.op != "set_in_place" && !a.iter().zip(bfs(c)).all(|(x, y)| eq_bits(x, &y)) {
        return fail(format!("{}: an operand has changed", how()));
    }
    // afterwards
    let mut a = bfs(c);
    let again = act(c, &mut a, &mut cc);
    if !again.same(&want) {
        return fail(format!("{}, and the same call after that gives {} expected {}", how(), again.show(), want.show()));
    }
    let mut fresh = new_consts();
    // the constants, one of them with another precision
    let j = c.n[1].unsigned_abs() as usize / 2;
    for (i, s) in super::consts::KS.into_iter().enumerate() {
        let p = round_p(c.p.clamp(1, 1024));
        for p in [p, p + 64 * (1 + j % 9)].into_iter().take(1 + (i == j % 4) as usize) {
            let (x, y) = (super::consts::konst_of(&mut cc, s, p, TOEVEN), super::consts::konst_of(&mut fresh, s, p, TOEVEN));
            if !eq_bits(&x, &y) {
                return fail(format!("{}: after that {} with precision {} is {} expected {}", how(), s, p, Fl::from_bf(&x).show(), Fl::from_bf(&y).show()));
            }
        }
    }
    if c.op == "format" || c.op == "parse_text" {
        // the powers of ten
        let x = BigFloat::from_f64(1.0 / 3.0, 256 + 64 * (c.n[1].unsigned_abs() as usize / 2 % 5));
        let (t, u) = (x.format(Radix::Dec, RMS[0], &mut cc), x.format(Radix::Dec, RMS[0], &mut fresh));
        if t != u {
            return fail(format!("{}: after that {:?} expected {:?}", how(), t, u));
        }
    }
    okt(failed != 0, vec![if failed == 0 { "not-reached" } else if reported { "reported" } else { "survived" }, if ever { "forever" } else { "once" }])
}

pub fn c28() -> Prop {
    Prop {
        id: "C28",
        rule: "an allocation failed during the call",
        assumptions: &["an allocation fails by the allocator returning null; formatting with the traits of the standard library, which cannot report it, is left out"],
        check: check28,
        canon: vec![],
        streams: vec![
            Stream { name: "any", quick: 60_000, thorough: 6_000_000, chunk: 50, gen: g_any },
            Stream { name: "long", quick: 12_000, thorough: 1_000_000, chunk: 20, gen: |r| g_long(r, 40) },
            Stream { name: "const", quick: 10_000, thorough: 400_000, chunk: 20, gen: |r| {
                let p = if r.chance(1, 60) { 1 + r.us(30_000) } else { 1 + r.us(3000) };
                let mut c = Case::new("consts").p(p).rm(gen::rm6(r)).n(r.range(0, 3)).n(r.range(0, 1 << 41));
                if r.chance(1, 3) {
                    noise_steps(r, &mut c);
                    c.steps.truncate(2);
                }
                c
            } },
            Stream { name: "root", quick: 6_000, thorough: 300_000, chunk: 20, gen: |r| {
                let mut c = g_long(r, 127);
                c.op = r.pick(&["sqrt", "cbrt"]).to_string();
                c.f.truncate(1);
                c
            } },
        ],
    }
}
