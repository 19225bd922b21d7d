//! C08: constants are correctly rounded whatever was requested before.

use super::arith::check_rounded;
use super::*;
use crate::gen;
use crate::oracle as or;
use crate::rng::Rng;
use astro_float::Consts;
use std::cell::RefCell;
use std::collections::HashMap;

pub const KS: [&str; 4] = ["pi", "e", "ln_2", "ln_10"];

pub fn konst_of(cc: &mut Consts, k: &str, p: usize, rm: u8) -> BigFloat {
    let rm = RMS[rm as usize];
    match k {
        "pi" => cc.pi(p, rm),
        "e" => cc.e(p, rm),
        "ln_2" => cc.ln_2(p, rm),
        "ln_10" => cc.ln_10(p, rm),
        _ => unreachable!(),
    }
}

thread_local! {
    static REF: RefCell<HashMap<(String, usize), or::Ap>> = RefCell::new(HashMap::new());
}

pub fn reference(k: &str, p: usize) -> or::Ap {
    REF.with(|m| {
        let mut m = m.borrow_mut();
        if m.len() > 4000 {
            m.clear();
        }
        m.entry((k.to_string(), p)).or_insert_with(|| or::konst(k, p)).clone()
    })
}

/// a request that is not checked here but uses the same cache
pub fn noise(cc: &mut Consts, st: &Step) {
    let rm = RMS[st.rm as usize % 7];
    let p = st.p;
    let x = BigFloat::from_i64(st.n, 64).div(&BigFloat::from_i64(1000, 64), p.max(64), astro_float::RoundingMode::ToEven);
    match st.op.as_str() {
        "sin" => drop(x.sin(p, rm, cc)),
        "exp" => drop(x.exp(p, rm, cc)),
        "ln" => drop(x.abs().ln(p, rm, cc)),
        "log10" => drop(x.abs().log10(p, rm, cc)),
        "atan" => drop(x.atan(p, rm, cc)),
        "pow" => drop(x.abs().pow(&x, p, rm, cc)),
        "format" => drop(x.format(astro_float::Radix::Dec, rm, cc)),
        "parse" => drop(BigFloat::parse(&format!("{}.125e-{}", st.n, st.n.unsigned_abs() % 300), astro_float::Radix::Dec, p, rm, cc)),
        _ => {}
    }
}

pub fn check(c: &Case, _ctx: &mut Ctx) -> Res {
    let mut cc = crate::engine::new_consts();
    let mut nt = false;
    let mut tags = vec![];
    for (i, st) in c.steps.iter().enumerate() {
        if st.rm > 6 {
            return Ok(Out::Skip);
        }
        if KS.contains(&st.op.as_str()) {
            let p = round_p(st.p);
            let got = konst_of(&mut cc, &st.op, st.p, st.rm);
            if p == 0 {
                // nothing can be said but that it does not crash
                continue;
            }
            let ap = reference(&st.op, p);
            match check_rounded(&got, &ap, false, p, st.rm, 1, STRICT) {
                Ok(_) => {}
                Err(f) => return fail(format!("request {} of {} steps, {} p={} {}: {}", i, c.steps.len(), st.op, st.p, rmname(st.rm), f.msg)),
            }
            if i > 0 {
                nt = true;
            }
            if c.steps[..i].iter().any(|s| s.op == st.op && s.p < st.p) {
                tags.push("grown");
            }
            if c.steps[..i].iter().any(|s| s.op == st.op && s.p > st.p) {
                tags.push("shrunk");
            }
        } else {
            noise(&mut cc, st);
        }
    }
    tags.sort();
    tags.dedup();
    okt(nt || c.steps.len() == 1, tags)
}

fn kp(r: &mut Rng, maxw: usize) -> usize {
    match r.below(6) {
        0 => 64 * (1 + r.us(maxw)),
        1 => 1 + r.us(64 * maxw),
        2 => 64 * (1 + r.us(8)),
        3 => 1 + r.us(200),
        _ => 64 * (1 + r.us(maxw / 4 + 1)),
    }
}

fn hist(r: &mut Rng, len: usize, maxw: usize, noisy: bool) -> Case {
    let mut c = Case::new("history");
    let only = if r.chance(1, 2) { Some(*r.pick(&KS)) } else { None };
    for _ in 0..len {
        let (op, p) = if noisy && r.chance(1, 4) {
            (*r.pick(&["sin", "exp", "ln", "log10", "atan", "pow", "format", "parse"]), 64 * (1 + r.us(12)))
        } else {
            (only.unwrap_or_else(|| *r.pick(&KS)), kp(r, maxw))
        };
        c.steps.push(Step { op: op.into(), a: vec![], p, rm: gen::rm7(r), n: r.range(1, 20000) });
    }
    c
}
fn g_short(r: &mut Rng) -> Case {
    let l = 1 + r.us(5);
    hist(r, l, 40, false)
}
fn g_long(r: &mut Rng) -> Case {
    let l = 5 + r.us(40);
    hist(r, l, 60, true)
}
fn g_big(r: &mut Rng) -> Case {
    let l = 1 + r.us(6);
    hist(r, l, 700, false)
}
fn g_vast(r: &mut Rng) -> Case {
    let l = 1 + r.us(3);
    hist(r, l, 5000, false)
}
/// every precision up to the bound, on a fresh cache and after a smaller request
fn g_each(r: &mut Rng) -> Case {
    // the whole grid is small, a random walk visits it almost surely
    let k = *r.pick(&KS);
    let mx = if r.chance(1, 5) { 320 } else { 120 };
    let p = 64 * (1 + r.us(mx));
    let mut c = Case::new("history");
    if r.bool() {
        c.steps.push(Step { op: k.into(), a: vec![], p: 1 + r.us(p), rm: gen::rm6(r), n: 0 });
    }
    for rm in 1..7 {
        c.steps.push(Step { op: k.into(), a: vec![], p, rm, n: 0 });
    }
    c
}

pub fn c08() -> Prop {
    Prop {
        id: "C08",
        rule: "a request that was answered from a cache another request had already touched, or the only request of a fresh cache",
        assumptions: &["MPFR's constants are right", "precisions up to 320000 bits"],
        check,
        canon: vec![],
        streams: vec![
            Stream { name: "short", quick: 40_000, thorough: 1_200_000, chunk: 100, gen: g_short },
            Stream { name: "long", quick: 3_000, thorough: 200_000, chunk: 20, gen: g_long },
            Stream { name: "each", quick: 5_000, thorough: 100_000, chunk: 20, gen: g_each },
            Stream { name: "big", quick: 200, thorough: 20_000, chunk: 5, gen: g_big },
            Stream { name: "vast", quick: 40, thorough: 2_000, chunk: 1, gen: g_vast },
        ],
    }
}
