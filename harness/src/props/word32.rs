//! C29: the library compiled for 32-bit machines computes the same.

use super::arith::{arith_exact, valid2};
use super::exact::same_value;
use super::*;
use crate::gen;
use crate::gen::Er;
use crate::oracle as or;
use crate::oracle::Ap;
use crate::remote;
use crate::rng::Rng;
use std::cell::RefCell;
use std::io::{BufRead, BufReader, Write};
use std::os::unix::process::CommandExt;
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};
use std::sync::OnceLock;

// ---------------------------------------------------------------- the other side

struct Server {
    child: Child,
    to: ChildStdin,
    from: BufReader<ChildStdout>,
}

impl Drop for Server {
    fn drop(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
    }
}

thread_local! {
    static SERVER: RefCell<Option<Server>> = const { RefCell::new(None) };
}

fn start() -> Server {
    let root = std::env::var("AFCHECK_ROOT").unwrap_or_else(|_| "/verif".into());
    let path = format!("{}/harness32/target/i686-unknown-linux-gnu/release/afserver", root);
    let mut cmd = Command::new(&path);
    cmd.stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::null());
    // it ends with the thread that started it, also when it is in the middle of a calculation
    unsafe {
        cmd.pre_exec(|| {
            libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
            Ok(())
        });
    }
    let mut child = cmd.spawn().unwrap_or_else(|e| panic!("oracle: {} does not start: {}", path, e));
    let to = child.stdin.take().unwrap();
    let from = BufReader::new(child.stdout.take().unwrap());
    Server { child, to, from }
}

/// The answer of the 32-bit library; an error when the process ended instead.
fn ask(line: &str) -> Result<String, String> {
    SERVER.with(|s| {
        let mut s = s.borrow_mut();
        let sv = s.get_or_insert_with(start);
        let mut buf = String::new();
        let sent = sv.to.write_all(format!("{}\n", line).as_bytes()).and_then(|_| sv.to.flush()).and_then(|_| sv.from.read_line(&mut buf));
        match sent {
            Ok(n) if n > 0 && buf.ends_with('\n') => {
                buf.pop();
                Ok(buf)
            }
            _ => {
                let st = sv.child.wait();
                *s = None;
                Err(format!("the process with the 32-bit library ended: {:?}", st.map(|x| x.to_string())))
            }
        }
    })
}

// ---------------------------------------------------------------- texts

/// `half`: the low half of the last word is left out (it is zero)
fn put(x: &Fl, half: bool) -> String {
    match x {
        Fl::NaN => "N0".into(),
        Fl::Inf { neg } => if *neg { "I-" } else { "I+" }.into(),
        Fl::Fin { neg, e, w, inex } => {
            let mut h: String = w.iter().rev().map(|v| format!("{:016x}", v)).collect();
            if half {
                h.truncate(h.len() - 8);
            }
            format!("F{}:{}:{}:{}", if *neg { '-' } else { '+' }, e, *inex as u8, h)
        }
    }
}

/// the number in an answer and its precision
fn get(t: &str) -> Option<(Fl, usize)> {
    if t.starts_with('N') {
        return Some((Fl::NaN, 0));
    }
    if t == "I+" || t == "I-" {
        return Some((Fl::Inf { neg: t == "I-" }, 0));
    }
    let v: Vec<&str> = t.split(':').collect();
    if v.len() != 4 || !(v[0] == "F+" || v[0] == "F-") {
        return None;
    }
    let p = v[3].len() * 4;
    let mut h = v[3].to_string();
    while h.len() % 16 != 0 {
        h.push('0');
    }
    let mut w: Vec<u64> = h.as_bytes().chunks(16).map(|c| u64::from_str_radix(std::str::from_utf8(c).unwrap(), 16).unwrap()).collect();
    w.reverse();
    Some((Fl::Fin { neg: v[0] == "F-", e: v[1].parse().ok()?, w, inex: v[2] == "1" }, p))
}

fn text(s: &str) -> String {
    if s.is_empty() {
        "-".into()
    } else {
        format!("={}", s.replace('_', "~").replace(' ', "_"))
    }
}

// ---------------------------------------------------------------- the check

/// precisions from here on are wrong
const LIMIT32: usize = (1 << 30) - (1 << 29);

const FULL: [&str; 4] = ["add_full_prec", "sub_full_prec", "mul_full_prec", "rem"];

/// exact value of the operation; None: not in the domain, or too expensive
fn want(op: &str, f: &[Fl], n: i64, p: usize) -> Option<Ap> {
    let nz = |i: usize| f[i].is_nonzero_fin();
    let bad = match op {
        "div" => f[1].is_zero(),
        "reciprocal" | "cbrt" => f[0].is_zero(),
        "sqrt" => f[0].is_zero() || f[0].neg(),
        "rem" => f[1].is_zero() || (nz(0) && (f[0].ne() - f[1].ne()).abs() > 100_000),
        "add_full_prec" | "sub_full_prec" => (f[0].e() - f[1].e()).abs() > 100_000,
        "log" => !nz(0) || !nz(1) || f[0].neg() || f[1].neg() || is_one(&f[1]),
        "pow" => !nz(0) || !nz(1) || (f[0].neg() && f[1].mk().1 < 0),
        "powi" => !nz(0) || !(0..=u32::MAX as i64).contains(&n),
        _ => false,
    };
    if bad {
        return None;
    }
    Some(match op {
        "add" | "sub" | "mul" | "div" | "reciprocal" | "sqrt" | "cbrt" => arith_exact(op, f, p),
        "sqr" => or::mul(&f[0], &f[0]),
        "mul_full_prec" => or::mul(&f[0], &f[1]),
        "add_full_prec" | "sub_full_prec" => or::add(&f[0], &f[1], op == "sub_full_prec", 1 << 22),
        "rem" => or::rem(&f[0], &f[1]),
        "pow" => or::pow(&f[0], &f[1], p)?,
        "powi" => or::powi(&f[0], n as u64, p)?,
        "log" => or::log_base(&f[0], &f[1], p),
        "pi" | "e" | "ln_2" | "ln_10" => or::konst(op, p),
        _ => {
            if !super::funcs::in_domain(op, &f[0]) || or::f1_by_name(op).is_none() {
                return None;
            }
            or::f1(op, &f[0], p)?
        }
    })
}

fn is_one(x: &Fl) -> bool {
    let (m, k) = x.mk();
    m == 1 && k == 0
}

fn nargs(op: &str) -> usize {
    match op {
        "add" | "sub" | "mul" | "div" | "pow" | "log" => 2,
        "pi" | "e" | "ln_2" | "ln_10" => 0,
        o if FULL.contains(&o) => 2,
        _ => 1,
    }
}

pub fn check(c: &Case, ctx: &mut Ctx) -> Res {
    let _n = Narrow::on();
    if !ctx.remote {
        ctx.remote = true;
        ask("reset 0 0 0 -").or_else(fail)?;
    }
    if let Some(op) = c.op.strip_prefix('=') {
        return check_same(op, c, ctx);
    }
    if let Some(op) = c.op.strip_prefix('!') {
        return check_limit(op, c);
    }
    if let Some(op) = c.op.strip_prefix('+') {
        return check_make(op, c);
    }
    match ["parse", "from_radix", "format", "to_radix"].iter().find_map(|k| Some((*k, super::text::BASE.iter().position(|b| c.op.strip_prefix(k) == Some(&b.to_string()))?))) {
        Some((kind, ri)) => check_text(kind, ri, c),
        None => check_value(c),
    }
}

fn check_value(c: &Case) -> Res {
    let op = match c.op.as_str() {
        "mulfull" => "mul_full_prec",
        o => o,
    };
    let k = nargs(op);
    let c = &Case { p: if FULL.contains(&op) { 64 } else { c.p }, ..c.clone() };
    if (k > 0 && !valid2(c, k)) || c.p == 0 || c.rm > 6 {
        return Ok(Out::Skip);
    }
    let (n, mask) = (c.n.first().copied().unwrap_or(0), c.n.get(1).copied().unwrap_or(0));
    let mut p = round_p(c.p);
    if mask & 8 != 0 {
        p -= 32;
    }
    let mut f: Vec<Fl> = c.f[..k].to_vec();
    for (i, x) in f.iter_mut().enumerate() {
        if mask >> i & 1 != 0 {
            if let Fl::Fin { w, .. } = x {
                w[0] &= !0xffff_ffff;
                if bitlen(w) == 0 {
                    return Ok(Out::Skip);
                }
            }
        }
        if !x.normal_or_sub_valid() {
            return Ok(Out::Skip);
        }
    }
    let Some(ap) = want(op, &f, n, p) else { return Ok(Out::Skip) };
    // a precision is rounded up to whole words
    let less = c.n.get(2).copied().unwrap_or(0).clamp(0, 31) as usize;
    let mut line = format!("{} {} {} {} -", op, p - less, c.rm, n);
    for (i, x) in f.iter().enumerate() {
        line.push(' ');
        line += &put(x, mask >> i & 1 != 0);
    }
    let ans = ask(&line).or_else(fail)?;
    let Some((g, gp)) = get(&ans) else { return fail(format!("32-bit library: {}", ans)) };
    let inexarg = f.iter().any(|x| x.inex()) && !(op == "powi" && n == 0);
    if FULL.contains(&op) {
        if ap.sticky {
            return Ok(Out::Skip);
        }
        let top = ap.m.significant_bits() as i64 + ap.k;
        if ap.m != 0 && top > emax() {
            return if g == (Fl::Inf { neg: ap.neg }) { okt(true, vec!["overflow"]) } else { fail(format!("32-bit library: got {} expected overflow", g.show())) };
        }
        if ap.m != 0 && ap.k < emin() - 64 {
            return Ok(Out::Skip);
        }
        if !same_value(&g, &ap, op == "mul_full_prec" || op == "rem") || g.inex() != inexarg {
            return fail(format!("32-bit library: got {} expected {}{:x}*2^{}", g.show(), if ap.neg { "-" } else { "" }, ap.m, ap.k));
        }
        return okt(!g.is_zero(), vec!["exact"]);
    }
    rounded(op, &g, gp, &ans, &ap, p, c.rm, inexarg, mask)
}

/// against the exact value
fn rounded(op: &str, g: &Fl, gp: usize, ans: &str, ap: &Ap, p: usize, rm: u8, inexarg: bool, mask: i64) -> Res {
    let mut ex = or::round_ap(ap, p, rm);
    let inexact = ex.inex() || !ex.is_fin();
    if inexarg {
        ex.set_inex(true);
    }
    if g.is_fin() && gp != p {
        return fail(format!("32-bit library: precision of the result {} expected {}", gp, p));
    }
    if rm == NONE && !ap.is_zero() && ex.is_fin() {
        if !g.is_fin() || (inexact && !g.inex()) {
            return fail(format!("32-bit library: got {} expected about {}", g.show(), ex.show()));
        }
        let q = if ex.is_zero() { emin() - p as i64 } else { (ex.ne() - p as i64).max(emin() - p as i64) };
        let u = or::err_units(g, ap, q);
        if u > if matches!(op, "add" | "sub" | "mul" | "div" | "reciprocal" | "sqrt" | "cbrt" | "sqr") { 1 } else { 4 } {
            return fail(format!("32-bit library: unrounded result {} is {} ulp away from {}", g.show(), u, ex.show()));
        }
        return okt(inexact, vec!["none"]);
    }
    let mut h = g.clone();
    if ex.is_zero() && !matches!(op, "mul" | "div" | "reciprocal" | "sqrt" | "cbrt" | "sqr") && h.is_zero() {
        h.set_neg(ex.neg());
    }
    if h != ex {
        let err = if *g == Fl::NaN { ans } else { "" };
        return fail(format!("32-bit library: got {}{} expected {}", g.show(), err, ex.show()));
    }
    let mut tags = vec![];
    if inexact {
        tags.push("inexact");
    }
    if mask != 0 {
        tags.push("odd");
    }
    if ex.is_subnormal() {
        tags.push("subnormal");
    }
    if matches!(ex, Fl::Inf { .. }) {
        tags.push("overflow");
    }
    okt(inexact, tags)
}

/// Precisions which are too large.
fn check_limit(op: &str, c: &Case) -> Res {
    let (n, auto) = (c.n.first().copied().unwrap_or(0), c.p == u32::MAX as usize && (op.starts_with("parse") || op.starts_with("from_radix")));
    if c.p < LIMIT32 || c.p > u32::MAX as usize || auto || c.rm > 6 || c.f.iter().any(|x| x.is_fin() && (x.p() == 0 || !x.normal_or_sub_valid())) || c.f.len() != nargs(op) && nargs(op) != 1 {
        return Ok(Out::Skip);
    }
    let line = |p: usize| {
        let mut l = format!("{} {} {} {} {}", op, p, c.rm, n, text(&c.s));
        for x in &c.f {
            l.push(' ');
            l += &put(x, false);
        }
        l
    };
    let ans = ask(&line(c.p)).or_else(fail)?;
    if ans == "NSome(InvalidArgument)" {
        return ok(true);
    }
    // infinite results have no precision
    if ans.starts_with('I') || ans.starts_with('N') {
        let ord = ask(&line(64)).or_else(fail)?;
        if ord == ans {
            return okt(false, vec!["no-number"]);
        }
    }
    fail(format!("32-bit library: precision {} gives {}", c.p, ans.chars().take(200).collect::<String>()))
}

/// Numbers made of nothing.
fn check_make(op: &str, c: &Case) -> Res {
    if c.p == 0 || c.p > 1 << 16 {
        return Ok(Out::Skip);
    }
    let p = c.p.div_ceil(32) * 32;
    let n = c.n.first().copied().unwrap_or(0);
    let ans = ask(&format!("{} {} 0 {} {}", op, c.p, n, text(&c.s))).or_else(fail)?;
    let (ones, zeros) = ("f".repeat(p / 4), "0".repeat(p / 4));
    let w = n as u32;
    let want = match op {
        "new" => format!("F+:0:0:{}", zeros),
        "max_value" => format!("F+:{}:0:{}", emax(), ones),
        "min_value" => format!("F-:{}:0:{}", emax(), ones),
        "min_positive" => format!("F+:{}:0:{}1", emin(), &zeros[1..]),
        "min_positive_normal" => format!("F+:{}:0:8{}", emin(), &zeros[1..]),
        "word" if w == 0 => format!("F+:0:0:{}", zeros),
        "word" => format!("F+:{}:0:{:08x}{}", 32 - w.leading_zeros(), w << w.leading_zeros(), &zeros[8..]),
        "random_normal" => format!("r:{}", p),
        _ => return Ok(Out::Skip),
    };
    if ans != want {
        return fail(format!("32-bit library: got {} expected {}", ans.chars().take(300).collect::<String>(), want.chars().take(300).collect::<String>()));
    }
    okt(p % 64 != 0, vec![])
}

fn g_make(r: &mut Rng) -> Case {
    let op = *r.pick(&["new", "max_value", "min_value", "min_positive", "min_positive_normal", "word", "random_normal"]);
    let mut c = Case::new(&format!("+{}", op)).p(1 + r.us(2000)).n((r.u64() >> r.below(64)) as i64);
    if op == "random_normal" {
        let _n = Narrow::on();
        let (a, b) = (r.range(emin(), emax()), r.range(emin(), emax()));
        let b = if r.bool() { b } else { (a + r.range(-3, 300)).clamp(emin(), emax()) };
        c.s = format!("{}:{}", a.min(b), a.max(b));
    }
    c
}

fn g_limit(r: &mut Rng) -> Case {
    let mut c = match r.below(4) {
        0 => Case::new(*r.pick(&["pi", "e", "ln_2", "ln_10"])),
        1 => {
            let op = *r.pick(&["new", "max_value", "min_value", "min_positive", "min_positive_normal", "word", "f64", "f32", "i8", "i16", "i32", "i64", "u8", "u16", "u32", "u64"]);
            Case::new(op).n(r.u64() as i64 >> 12)
        }
        2 => {
            let ri = r.us(4);
            if r.bool() {
                Case::new(&format!("parse{}", super::text::BASE[ri])).s(super::text::small_numeral(r, ri))
            } else {
                Case::new(&format!("from_radix{}", super::text::BASE[ri])).n(r.range(-30, 30)).s("1011".into())
            }
        }
        _ => loop {
            let c = super::special::g_call(r);
            if or::f1_by_name(&c.op).is_some() || matches!(c.op.as_str(), "add" | "sub" | "mul" | "div" | "reciprocal" | "sqrt" | "cbrt" | "pow" | "powi" | "log") {
                break c;
            }
        },
    };
    c.rm = gen::rm6(r);
    c.p = match r.below(4) {
        0 => LIMIT32 + r.us(100),
        1 => u32::MAX as usize - r.us(200),
        2 => (1 << 31) - 50 + r.us(100),
        _ => LIMIT32 + r.below((u32::MAX as usize - LIMIT32) as u64) as usize,
    };
    for x in c.f.iter_mut() {
        if let Fl::Fin { e, .. } = x {
            if e.abs() > 1 << 27 {
                *e = 1;
            }
        }
    }
    c.op.insert(0, '!');
    c
}

/// reading and writing numerals
fn check_text(kind: &str, ri: usize, c: &Case) -> Res {
    use super::text::*;
    let (n, mask) = (c.n.first().copied().unwrap_or(0), c.n.get(1).copied().unwrap_or(0));
    if c.rm > 6 {
        return Ok(Out::Skip);
    }
    let mut p = round_p(c.p);
    if mask & 8 != 0 && p > 0 {
        p -= 32;
    }
    let auto = c.p == 0;
    if matches!(kind, "parse" | "from_radix") {
        let num = if kind == "parse" {
            ref_read(&c.s, ri)
        } else {
            let d: Option<Vec<u8>> = c.s.chars().map(|ch| ch.to_digit(BASE[ri]).map(|v| v as u8)).collect();
            match d {
                Some(d) if !d.is_empty() && (emin()..=emax()).contains(&n) => Num::Fin { neg: true, d, e: n },
                _ => return Ok(Out::Skip),
            }
        };
        if auto && auto_too_long(&num, ri) {
            return Ok(Out::Skip);
        }
        let line = format!("{} {} {} {} {}", c.op, if auto { u32::MAX as usize } else { p }, c.rm, n, text(&c.s));
        let ans = ask(&line).or_else(fail)?;
        let Some((g, gp)) = get(&ans) else { return fail(format!("32-bit library: {}", ans)) };
        return match num {
            Num::NaN => if ans.starts_with('N') { ok(false) } else { fail(format!("32-bit library: got {} instead of NaN", ans)) },
            Num::Inf(neg) => if g == (Fl::Inf { neg }) { ok(false) } else { fail(format!("32-bit library: got {} instead of an infinity", ans)) },
            Num::Fin { neg, d, e } if auto => check_auto(&g, gp, neg, &d, e, ri, &|ap, p| rounded(kind, &g, gp, &ans, ap, p, c.rm, false, mask))
                .or_else(|f| fail(format!("32-bit library: {}", f.msg))),
            Num::Fin { neg, d, e } => rounded(kind, &g, gp, &ans, &ap_of(neg, &d, e, ri, p), p, c.rm, false, mask),
        };
    }
    if c.f.len() != 1 || !c.f[0].is_fin() || c.f[0].p() == 0 {
        return Ok(Out::Skip);
    }
    let mut x = c.f[0].clone();
    let half = mask & 1 != 0;
    if let Fl::Fin { w, .. } = &mut x {
        if half && bitlen(w) > 0 {
            w[0] &= !0xffff_ffff;
            if bitlen(w) == 0 {
                return Ok(Out::Skip);
            }
        }
    }
    if !x.normal_or_sub_valid() || x.e() < emin() || x.e() > emax() {
        return Ok(Out::Skip);
    }
    let xp = x.p() - if half { 32 } else { 0 };
    let ans = ask(&format!("{} 64 {} 0 - {}", c.op, c.rm, put(&x, half))).or_else(fail)?;
    let (neg, d, e) = if kind == "format" {
        let Some(t) = ans.strip_prefix("s:") else { return fail(format!("32-bit library: {}", ans)) };
        match ref_read(t, ri) {
            Num::Fin { neg, d, e } => (neg, d, e),
            _ => return fail(format!("32-bit library: {} is not a numeral", ans)),
        }
    } else {
        let v: Vec<&str> = ans.split(':').collect();
        if v.len() != 4 || v[0] != "d" {
            return fail(format!("32-bit library: {}", ans));
        }
        let d: Option<Vec<u8>> = v[3].trim_matches(|c| c == '[' || c == ']').split(',').map(|t| t.trim()).filter(|t| !t.is_empty()).map(|t| t.parse().ok()).collect();
        match (d, v[2].parse::<i64>()) {
            (Some(d), Ok(e)) => (v[1] == "Neg", d, e),
            _ => panic!("oracle: {}", ans),
        }
    };
    let nt = check_digits(&x, xp, neg, &d, e, ri, c.rm)
        .or_else(|f| fail(format!("32-bit library: {}: {}", ans.chars().take(120).collect::<String>(), f.msg)))?;
    okt(nt, if half { vec!["odd"] } else { vec![] })
}

/// The same request to both libraries. Only for results far from the ends of the ranges of exponents.
fn check_same(op: &str, c: &Case, ctx: &mut Ctx) -> Res {
    if c.p == 0 || c.rm > 6 || super::special::too_big(op, &c.f, c.p, c.n.first().copied().unwrap_or(0)) {
        return Ok(Out::Skip);
    }
    let lim = 1i64 << 27;
    if c.f.iter().any(|x| x.is_fin() && (x.e().abs() > lim || !x.w_top() && !x.is_zero())) {
        return Ok(Out::Skip);
    }
    let n = c.n.first().copied().unwrap_or(0);
    let mut line = format!("{} {} {} {} {}", op, round_p(c.p), c.rm, n, text(&c.s));
    for x in &c.f {
        line.push(' ');
        line += &put(x, false);
    }
    let here = remote::answer(&line, &mut ctx.cc);
    assert!(!here.starts_with("B:bad") && !here.starts_with("B:unknown"), "oracle: {}", line);
    if let Some((g, _)) = get(&here) {
        if g.is_fin() && (g.e().abs() > lim || !g.w_top() && !g.is_zero()) {
            return Ok(Out::Skip);
        }
        // overflow and underflow happen elsewhere
        if matches!(g, Fl::Inf { .. }) && c.f.iter().all(|x| x.is_nonzero_fin()) || g.is_zero() && g.inex() {
            return Ok(Out::Skip);
        }
    }
    let there = ask(&line).or_else(fail)?;
    if here != there {
        let cut = |s: &str| if s.len() > 300 { format!("{}..({} characters)", &s.chars().take(300).collect::<String>(), s.len()) } else { s.to_string() };
        return fail(format!("{}: the 64-bit library answers {}, the 32-bit library {}", cut(&line), cut(&here), cut(&there)));
    }
    okt(!here.starts_with('N') && !here.starts_with('E'), vec![])
}

// ---------------------------------------------------------------- generators

/// the streams of other properties, by name
fn borrowed(k: usize) -> &'static [GenFn] {
    static T: OnceLock<Vec<Vec<GenFn>>> = OnceLock::new();
    &T.get_or_init(|| {
        let pick = |p: Prop, names: &[&str]| -> Vec<GenFn> {
            names.iter().map(|n| p.streams.iter().find(|s| s.name == *n).unwrap_or_else(|| panic!("oracle: no stream {}", n)).gen).collect()
        };
        let mut v = vec![];
        let mut a = pick(arith::c01(), &["pair", "align", "near", "tie", "mixed"]);
        a.extend(pick(funcs::c03(), &["root", "tie"]));
        v.push(a); // 0: arithmetic
        let mut a = pick(edge::c09(), &["low", "low-tie", "high", "high-tie", "any"]);
        a.extend(pick(funcs::c03(), &["ext"]));
        v.push(a); // 1: ends of the range of exponents
        let mut a = pick(funcs::c04(), &["func", "log", "log-hard", "hard"]);
        a.extend(pick(funcs::c05(), &["pow", "powi", "hard"]));
        a.extend(pick(funcs::c06(), &["func", "hard"]));
        a.extend(pick(funcs::c07(), &["func", "hard"]));
        v.push(a); // 2: functions
        let mut a = pick(funcs::c04(), &["ext", "edge"]);
        a.extend(pick(funcs::c05(), &["edge"]));
        a.extend(pick(funcs::c06(), &["ext"]));
        a.extend(pick(funcs::c07(), &["ext", "edge"]));
        v.push(a); // 3: functions at the ends
        v.push(pick(exact::c23(), &["mul", "div", "root"])); // 4: long numbers
        let mut a = pick(funcs::c04(), &["big"]);
        a.extend(pick(funcs::c06(), &["big"]));
        a.extend(pick(funcs::c07(), &["big"]));
        v.push(a); // 5: functions of long numbers
        v.push(pick(exact::c23(), &["mul_huge", "div_huge", "mul_fft"])); // 6
        v
    })[k]
}

/// brings the exponents into the narrow range
fn squeeze(c: &mut Case) {
    for x in c.f.iter_mut() {
        if let Fl::Fin { e, w, .. } = x {
            if !(emin()..=emax()).contains(e) || (*e != emin() && !w.is_empty() && w[w.len() - 1] >> 63 == 0 && bitlen(w) > 0) {
                let lost = w.last().is_some_and(|v| v >> 63 == 0);
                *e = if lost { emin() } else { *e / 16 };
            }
        }
    }
}

fn odd(r: &mut Rng, c: &mut Case) {
    let n = c.n.first().copied().unwrap_or(0);
    let mut mask = 0;
    if r.chance(1, 2) {
        mask = r.below(16) as i64 & 11;
        if r.bool() {
            mask |= 8;
        }
    }
    c.n = vec![n, mask];
    if r.chance(1, 8) {
        c.n.push(r.range(0, 31));
    }
}

fn from(r: &mut Rng, k: usize) -> Case {
    let _n = Narrow::on();
    let g = *r.pick(borrowed(k));
    let mut c = g(r);
    squeeze(&mut c);
    odd(r, &mut c);
    // the cost of a long cube root is out of proportion
    if c.op == "cbrt" && (c.p > 3000 || c.f[0].p() > 3000) {
        c.op = "sqrt".into();
        c.f[0].set_neg(false);
    }
    c
}

fn g_full(r: &mut Rng) -> Case {
    let op = *r.pick(&FULL);
    let a = gen::numz(r, 12, Er::Small);
    let b = if r.chance(1, 3) { gen::near(r, &a) } else { gen::numz(r, 12, Er::Small) };
    let mut c = Case::new(op).p(64).f(a).f(b);
    squeeze(&mut c);
    odd(r, &mut c);
    c
}

fn g_konst(r: &mut Rng) -> Case {
    let op = *r.pick(&["pi", "e", "ln_2", "ln_10"]);
    let p = if r.chance(1, 20) { 1 + r.us(30000) } else { 1 + r.us(3000) };
    let mut c = Case::new(op).p(p).rm(gen::rm6(r));
    odd(r, &mut c);
    c
}

/// anything, compared with the library of this process
fn g_any(r: &mut Rng) -> Case {
    let mut c = super::special::g_call(r);
    if c.rm == NONE {
        c.rm = gen::rm6(r);
    }
    if FULL.contains(&c.op.as_str()) {
        c.op = r.pick(&["max", "min", "cmp", "abs_cmp"]).to_string();
    }
    match r.below(16) {
        0 => c.op = "cmp".into(),
        1 => c.op = "abs_cmp".into(),
        2 => c.op = "is_int".into(),
        3 => c.op = "set_exponent".into(),
        4 => c.op = "set_precision".into(),
        5 => c.op = "exponent".into(),
        6 => c.op = r.pick(&["floor", "ceil", "int", "fract", "round"]).to_string(),
        _ => {}
    }
    if nargs(&c.op) < 2 || matches!(c.op.as_str(), "cmp" | "abs_cmp") {
        if c.f.len() < 2 {
            let b = super::special::operand(r, "add", 1, 4);
            c.f.push(b);
        }
    }
    let k = match c.op.as_str() {
        "clamp" => 3,
        "cmp" | "abs_cmp" | "max" | "min" => 2,
        o => nargs(o),
    };
    c.f.truncate(k);
    if c.op == "set_exponent" {
        c.n = vec![r.range(-(1 << 27), 1 << 27)];
    }
    c.op.insert(0, '=');
    c
}

fn g_text(r: &mut Rng) -> Case {
    let ri = r.us(4);
    let base = ["2", "8", "10", "16"][ri];
    let p = gen::prec(r, 12);
    let rm = gen::rm6(r);
    match r.below(7) {
        0 | 1 => Case::new(&format!("=parse{}", base)).p(p).rm(rm).s(super::text::small_numeral(r, ri)),
        2 | 3 => {
            let er = if r.bool() { Er::Small } else { Er::Mid };
            let x = gen::numz(r, 12, er);
            let x = small_e(x, if ri == 2 { 30_000 } else { 1 << 26 });
            Case::new(&format!("={}{}", if r.bool() { "format" } else { "to_radix" }, base)).p(64).rm(rm).f(x)
        }
        4 => {
            let n = 1 + r.us(60);
            let s: String = (0..n).map(|_| char::from_digit(r.below([2, 8, 10, 16][ri]) as u32, 16).unwrap()).collect();
            Case::new(&format!("=from_radix{}", base)).p(p).rm(rm).n(r.range(-3000, 3000)).s(s)
        }
        5 => {
            let x = gen::numz(r, 12, Er::Small);
            Case::new("=display").p(64).rm(rm).f(small_e(x, 30_000))
        }
        _ => {
            // long numerals
            let n = 1 + r.us(1200);
            let b = [2, 8, 10, 16][ri];
            let mut s: String = (0..n).map(|_| char::from_digit(r.below(b) as u32, 16).unwrap()).collect();
            let at = r.us(n + 1);
            s.insert(at, '.');
            if s.len() == 1 {
                s.push('1');
            }
            Case::new(&format!("=parse{}", base)).p(gen::prec(r, 40)).rm(rm).s(s)
        }
    }
}

/// numerals and numbers over the whole range of exponents, judged by the oracle
fn g_numeral(r: &mut Rng) -> Case {
    static T: OnceLock<Vec<GenFn>> = OnceLock::new();
    let _n = Narrow::on();
    let t = T.get_or_init(|| {
        let (a, b) = (super::text::c13(), super::text::c14());
        let g = |p: &Prop, n: &str| p.streams.iter().find(|s| s.name == n).unwrap_or_else(|| panic!("oracle: no stream {}", n)).gen;
        vec![g(&a, "short"), g(&a, "near"), g(&a, "edge"), g(&a, "huge"), g(&b, "small"), g(&b, "near"), g(&b, "any"), g(&b, "subnormal")]
    });
    let mut c = r.pick(t)(r);
    squeeze(&mut c);
    let base = super::text::BASE[c.n[0] as usize];
    let e = c.n.get(1).copied().unwrap_or(0);
    let kind = match c.op.as_str() {
        "text" => "parse",
        "digits" => "from_radix",
        _ => *r.pick(&["format", "format", "to_radix"]),
    };
    c.op = format!("{}{}", kind, base);
    c.n = vec![e];
    odd(r, &mut c);
    c
}

fn small_e(mut x: Fl, m: i64) -> Fl {
    if let Fl::Fin { e, w, .. } = &mut x {
        *e %= m;
        if bitlen(w) == 0 {
            *e = 0;
        }
    }
    x
}

fn g_native(r: &mut Rng) -> Case {
    let p = gen::prec(r, 3);
    let bits = r.below(64);
    let v = (r.u64() >> bits) as i64;
    match r.below(12) {
        0 | 1 => Case::new("=f64").p(p).n(if r.chance(1, 4) { (r.u64() >> 12 | r.below(2) << 63 | 0x7ff * r.below(2) << 52) as i64 } else { r.u64() as i64 }),
        2 => Case::new("=f32").p(p).n(if r.chance(1, 4) { (r.u64() as u32 >> 9) as i64 } else { r.u64() as u32 as i64 }),
        3 => {
            let x = (r.u64() as u128) << 64 | r.u64() as u128;
            Case::new("=u128").p(p).s((x >> r.below(128)).to_string())
        }
        4 => {
            let x = ((r.u64() as u128) << 64 | r.u64() as u128) as i128;
            Case::new("=i128").p(p).s((x >> r.below(128)).to_string())
        }
        _ => {
            let op = *r.pick(&["i8", "i16", "i32", "i64", "u8", "u16", "u32", "u64"]);
            let v = if r.chance(1, 8) { *r.pick(&[i64::MIN, i64::MAX, -1, 0, i32::MIN as i64, i32::MAX as i64, u32::MAX as i64, u32::MAX as i64 + 1]) } else { v };
            Case::new(&format!("={}", op)).p(p).n(v)
        }
    }
}

pub fn c29() -> Prop {
    Prop {
        id: "C29",
        rule: "the result is inexact, overflows, or is a number (comparisons with the 64-bit library)",
        assumptions: &[
            "32-bit x86 stands for 32-bit machines: it is the only one for which the sources select 32-bit words",
            "the range of exponents is a quarter of that of 64-bit machines, as documented by EXPONENT_MIN and EXPONENT_MAX",
        ],
        check,
        canon: vec![
            // an exponent with more than 32 significant bits
            Case::new("pow").p(64).rm(TOZERO).f(Fl::Fin { neg: false, e: -66, w: vec![0, 1, 12557766954173747650], inex: false })
                .f(Fl::Fin { neg: false, e: -2, w: vec![0, 18446744073675997184], inex: false }).n(0),
            // far below the range of exponents
            Case::new("parse8").p(64).rm(TOEVEN).s(".1e-647153156471".into()).n(0),
            Case::new("parse16").p(64).rm(UP).s("5E_E-20000010".into()).n(0),
        ],
        streams: vec![
            Stream { name: "arith", quick: 1_500_000, thorough: 40_000_000, chunk: 1000, gen: |r| from(r, 0) },
            Stream { name: "limit", quick: 1_500_000, thorough: 40_000_000, chunk: 1000, gen: |r| from(r, 1) },
            Stream { name: "full", quick: 1_000_000, thorough: 20_000_000, chunk: 1000, gen: g_full },
            Stream { name: "func", quick: 400_000, thorough: 10_000_000, chunk: 200, gen: |r| from(r, 2) },
            Stream { name: "func-limit", quick: 200_000, thorough: 5_000_000, chunk: 50, gen: |r| from(r, 3) },
            Stream { name: "long", quick: 100_000, thorough: 3_000_000, chunk: 200, gen: |r| from(r, 4) },
            Stream { name: "func-long", quick: 4_000, thorough: 100_000, chunk: 10, gen: |r| from(r, 5) },
            Stream { name: "huge", quick: 2_400, thorough: 60_000, chunk: 10, gen: |r| from(r, 6) },
            Stream { name: "const", quick: 6_000, thorough: 200_000, chunk: 40, gen: g_konst },
            Stream { name: "any", quick: 1_000_000, thorough: 20_000_000, chunk: 500, gen: g_any },
            Stream { name: "text", quick: 1_000_000, thorough: 20_000_000, chunk: 200, gen: g_text },
            Stream { name: "numeral", quick: 1_500_000, thorough: 10_000_000, chunk: 50, gen: g_numeral },
            Stream { name: "make", quick: 100_000, thorough: 1_000_000, chunk: 1000, gen: g_make },
            Stream { name: "limits", quick: 200_000, thorough: 4_000_000, chunk: 1000, gen: g_limit },
            Stream { name: "native", quick: 500_000, thorough: 10_000_000, chunk: 1000, gen: g_native },
        ],
    }
}
