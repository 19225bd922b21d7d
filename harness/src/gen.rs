//! Generators: structured, corner-biased numbers.

use crate::engine::Case;
use crate::fl::*;
use crate::rng::Rng;
use rug::Integer;

thread_local! {
    static LONGER: std::cell::Cell<usize> = const { std::cell::Cell::new(1) };
}

/// `g` with numbers and precisions up to k times as long
pub fn longer(r: &mut Rng, k: usize, g: fn(&mut Rng) -> Case) -> Case {
    LONGER.with(|l| l.set(k));
    let c = g(r);
    LONGER.with(|l| l.set(1));
    c
}

/// number of words, biased to small
pub fn words(r: &mut Rng, max: usize) -> usize {
    let k = LONGER.with(|l| l.get());
    if k > 1 {
        return match r.below(8) {
            0 => 1 + r.us(4.min(max)),
            1 => 1 + r.us(max),
            2 | 3 => 1 + r.us(max * (1 + k / 8)),
            _ => 1 + r.us(max * k),
        };
    }
    let x = match r.below(10) {
        0..=2 => 1,
        3..=4 => 2,
        5..=6 => 1 + r.us(4),
        7..=8 => 1 + r.us(8),
        _ => 1 + r.us(max),
    };
    x.min(max).max(1)
}

/// target precision in bits: mostly whole words, sometimes ragged (rounded up by the library)
pub fn prec(r: &mut Rng, max_words: usize) -> usize {
    let w = words(r, max_words);
    if r.chance(1, 6) {
        (w - 1) * 64 + 1 + r.us(64)
    } else {
        w * 64
    }
}

pub fn rm6(r: &mut Rng) -> u8 {
    1 + r.below(6) as u8
}

pub fn rm7(r: &mut Rng) -> u8 {
    if r.chance(1, 12) {
        NONE
    } else {
        rm6(r)
    }
}

/// mantissa words with the top bit set
pub fn mant(r: &mut Rng, n: usize) -> Vec<u64> {
    let mut w = vec![0u64; n];
    match r.below(14) {
        0 => {
            // power of two
        }
        1 => w.iter_mut().for_each(|x| *x = u64::MAX),
        2 => {
            // power of two plus one bit somewhere
            let b = r.us(n * 64);
            w[b / 64] |= 1 << (b % 64);
        }
        3 => {
            // ones from the top, then zeros
            let k = r.us(n * 64 + 1);
            fill_ones(&mut w, n * 64 - k, n * 64);
        }
        4 => {
            // ones at the bottom
            let k = r.us(n * 64 + 1);
            fill_ones(&mut w, 0, k);
        }
        5 => {
            // several runs
            let mut b = n * 64;
            let mut one = true;
            while b > 0 {
                let l = (1 + r.us(n * 24 + 8)).min(b);
                if one {
                    fill_ones(&mut w, b - l, b);
                }
                one = !one;
                b -= l;
            }
        }
        6 => {
            // small integer at the top
            let k = 1 + r.us(20);
            w[n - 1] = r.u64() << (64 - k);
        }
        7 => {
            // words 0 / MAX / random
            for x in w.iter_mut() {
                *x = match r.below(4) {
                    0 => 0,
                    1 => u64::MAX,
                    2 => 1 << r.below(64),
                    _ => r.u64(),
                };
            }
        }
        8 => {
            // tie-like or near-tie patterns below a word boundary
            for x in w.iter_mut() {
                *x = r.u64();
            }
            if n > 1 {
                let k = r.us(n - 1);
                for x in w[..k].iter_mut() {
                    *x = 0;
                }
                w[k] = match r.below(5) {
                    0 => 1 << 63,
                    1 => (1 << 63) - 1,
                    2 => (1 << 63) + 1,
                    3 => 1,
                    _ => u64::MAX,
                };
                if r.chance(1, 3) {
                    let fillv = if r.bool() { u64::MAX } else { 0 };
                    for x in w[..k].iter_mut() {
                        *x = fillv;
                    }
                    if k > 0 && r.bool() {
                        w[0] = 1;
                    }
                }
                if r.chance(1, 3) {
                    // long carry above
                    for x in w[k + 1..].iter_mut() {
                        *x = u64::MAX;
                    }
                }
            }
        }
        9 => {
            // sparse
            for _ in 0..1 + r.us(4) {
                let b = r.us(n * 64);
                w[b / 64] |= 1 << (b % 64);
            }
        }
        10 => {
            // trailing zero words
            let k = r.us(n);
            for x in w[k..].iter_mut() {
                *x = r.u64();
            }
        }
        _ => {
            for x in w.iter_mut() {
                *x = r.u64();
            }
        }
    }
    w[n - 1] |= 1 << 63;
    w
}

pub fn fill_ones(w: &mut [u64], a: usize, b: usize) {
    for i in a..b {
        w[i / 64] |= 1 << (i % 64);
    }
}

#[derive(Clone, Copy, PartialEq)]
pub enum Er {
    /// moderate
    Mid,
    /// |e| small
    Small,
    /// any i32
    Any,
    /// close to the lower limit, subnormals included
    Low,
    /// close to the upper limit
    High,
}

pub fn expo(r: &mut Rng, k: Er) -> i64 {
    match k {
        Er::Small => match r.below(4) {
            0 => r.range(-2, 3),
            1 => r.range(-20, 20),
            _ => r.range(-70, 70),
        },
        Er::Mid => match r.below(8) {
            0 => 0,
            1 => r.range(-2, 3),
            2 => r.range(-20, 20),
            3 => r.range(-70, 70),
            4 => r.range(-200, 200),
            5 => 64 * r.range(-5, 5) + r.range(-1, 1),
            6 => r.range(-2000, 2000),
            _ => r.range(-130, 130),
        },
        Er::Any => match r.below(6) {
            0 => r.range(emin(), emax()),
            1 => expo(r, Er::Low),
            2 => expo(r, Er::High),
            3 => r.range(emin() / 2 - 200, emin() / 2 + 200),
            4 => r.range(emax() / 2 - 200, emax() / 2 + 200),
            _ => expo(r, Er::Mid),
        },
        Er::Low => {
            emin() + match r.below(3) {
                0 => r.range(0, 3),
                1 => r.range(0, 70),
                _ => r.range(0, 600),
            }
        }
        Er::High => {
            emax() - match r.below(3) {
                0 => r.range(0, 3),
                1 => r.range(0, 70),
                _ => r.range(0, 600),
            }
        }
    }
}

pub fn num(r: &mut Rng, maxw: usize, er: Er) -> Fl {
    let n = words(r, maxw);
    num_w(r, n, er)
}

pub fn num_w(r: &mut Rng, n: usize, er: Er) -> Fl {
    let w = mant(r, n);
    let e = expo(r, er);
    let neg = r.bool();
    let inex = r.chance(1, 8);
    if er == Er::Low || (er == Er::Any && r.chance(1, 8)) {
        if r.chance(1, 2) {
            return subnormal(r, n);
        }
    }
    Fl::Fin { neg, e, w, inex }
}

pub fn subnormal(r: &mut Rng, n: usize) -> Fl {
    let m = mant(r, n);
    let sh = match r.below(4) {
        0 => 1 + r.us(3),
        1 => n * 64 - 1 - r.us(3.min(n * 64 - 1)),
        _ => 1 + r.us(n * 64 - 1),
    };
    let i = Integer::from_digits(&m, rug::integer::Order::Lsf) >> sh as u32;
    let mut w = i.to_digits::<u64>(rug::integer::Order::Lsf);
    w.resize(n, 0);
    Fl::Fin { neg: r.bool(), e: emin(), w, inex: r.chance(1, 8) }
}

/// like `num`, but sometimes zero
pub fn numz(r: &mut Rng, maxw: usize, er: Er) -> Fl {
    if r.chance(1, 40) {
        let mut z = Fl::zero(64 * words(r, maxw), r.bool());
        z.set_inex(r.chance(1, 8));
        z
    } else {
        num(r, maxw, er)
    }
}

/// any BigFloat: NaN, Inf, zero, boundary constants, numbers
pub fn any(r: &mut Rng, maxw: usize, er: Er) -> Fl {
    match r.below(24) {
        0 => Fl::NaN,
        1 => Fl::Inf { neg: false },
        2 => Fl::Inf { neg: true },
        3 => Fl::zero(64 * words(r, maxw), r.bool()),
        4 => one(r, maxw),
        5 => {
            let n = words(r, maxw);
            Fl::Fin { neg: r.bool(), e: emax(), w: vec![u64::MAX; n], inex: false }
        }
        6 => {
            let n = words(r, maxw);
            let mut w = vec![0; n];
            w[0] = 1;
            let neg = r.bool();
            Fl::Fin { neg, e: emin(), w, inex: false }
        }
        7 => small_int(r, maxw),
        _ => num(r, maxw, er),
    }
}

pub fn one(r: &mut Rng, maxw: usize) -> Fl {
    let n = words(r, maxw);
    let mut w = vec![0; n];
    w[n - 1] = 1 << 63;
    Fl::Fin { neg: r.bool(), e: 1, w, inex: r.chance(1, 8) }
}

pub fn small_int(r: &mut Rng, maxw: usize) -> Fl {
    let v = match r.below(3) {
        0 => r.range(-4, 4),
        1 => r.range(-40, 40),
        _ => r.range(-5000, 5000),
    };
    Fl::from_int(&Integer::from(v), 64 * words(r, maxw))
}

/// y close to x: equal, neighbour, one bit flipped, other length, other exponent
pub fn near(r: &mut Rng, x: &Fl) -> Fl {
    match x {
        Fl::Fin { neg, e, w, .. } => {
            let mut w2 = w.clone();
            let mut e2 = *e;
            match r.below(8) {
                0 => {}
                1 => w2[0] ^= 1,
                2 => {
                    let b = r.us(w2.len() * 64);
                    w2[b / 64] ^= 1 << (b % 64);
                }
                3 => {
                    // extend with low words
                    let k = 1 + r.us(3);
                    let mut v: Vec<u64> = (0..k).map(|_| if r.bool() { 0 } else { r.u64() }).collect();
                    v.extend_from_slice(&w2);
                    w2 = v;
                }
                4 => {
                    if w2.len() > 1 {
                        w2.remove(0);
                    }
                }
                5 => e2 += r.range(-1, 1),
                6 => {
                    let i = r.us(w2.len());
                    w2[i] = w2[i].wrapping_add(r.range(-1, 1) as u64);
                }
                _ => {
                    for v in w2.iter_mut() {
                        *v = !*v;
                    }
                }
            }
            let n = w2.len();
            if e2 > emin() || r.chance(3, 4) {
                w2[n - 1] |= 1 << 63;
            }
            let e2 = e2.clamp(emin(), emax());
            let y = Fl::Fin { neg: if r.chance(3, 4) { *neg } else { !*neg }, e: e2, w: w2, inex: r.chance(1, 10) };
            if y.normal_or_sub_valid() {
                y
            } else {
                x.clone()
            }
        }
        _ => x.clone(),
    }
}
