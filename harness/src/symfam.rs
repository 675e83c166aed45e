//! What is explored for the symbology properties C01-C14.

use crate::case::Case;
use crate::engine::{Ctx, Worker};
use crate::explore::*;
use crate::imp::vias;
use crate::refs::{self, mod10, Sym, *};

fn chars(s: &str) -> Vec<char> {
    s.chars().collect()
}
fn digits() -> Vec<char> {
    chars("0123456789")
}

// ------------------------------------------------------------ EAN-13, UPC-A, EAN-8, supplements

fn data_len(sym: Sym) -> usize {
    match sym {
        Ean13 => 12,
        Upca => 11,
        _ => 7,
    }
}

/// Data part, and data part plus its check digit.
fn with_check(s: &str) -> String {
    let d: Vec<u8> = s.bytes().map(|b| b - b'0').collect();
    format!("{}{}", s, mod10(&d))
}

fn retail_one(w: &mut Worker, sym: Sym, s: &str) {
    for via in 0..vias(sym) {
        w.sym(sym, via, s);
    }
    w.sym(sym, 0, &with_check(s));
}

fn bases(n: usize) -> Vec<Vec<char>> {
    let mk = |f: &dyn Fn(usize) -> usize| -> Vec<char> {
        (0..n).map(|i| (b'0' + (f(i) % 10) as u8) as char).collect()
    };
    vec![
        mk(&|_| 0),
        mk(&|i| 9 - i % 10),
        mk(&|_| 9),
        mk(&|i| 1 + i * 7),
        mk(&|i| 5 + i * 3),
    ]
}

/// Model: position, parity row (first digit) and exact weighted sum. Two prefixes in the same state
/// admit the same continuations, parity and check digit.
fn retail_model(sym: Sym) -> (Graph<(u8, u8, u16)>, usize) {
    let n = data_len(sym);
    let g = Graph::explore((0u8, 0u8, 0u16), 10, n, |(p, first, sum), x| {
        let wt = if (n - 1 - p as usize) % 2 == 0 { 3 } else { 1 };
        Some((
            p + 1,
            if p == 0 && sym == Ean13 { x as u8 } else { first },
            sum + wt * x as u16,
        ))
    });
    (g, n)
}

fn complete(p: &[u16], x: usize, n: usize, fill: usize) -> String {
    let mut s: String = p.iter().map(|d| (b'0' + *d as u8) as char).collect();
    s.push((b'0' + x as u8) as char);
    let mut i = 0;
    while s.len() < n {
        let d = match fill {
            0 => 0,
            1 => 9,
            2 => (i * 7 + 3) % 10,
            _ => (9 + 9 * i + x) % 10,
        };
        s.push((b'0' + d as u8) as char);
        i += 1;
    }
    s
}

pub fn retail(ctx: &Ctx, sym: Sym) {
    let n = data_len(sym);
    let (g, _) = retail_model(sym);
    replay(ctx, "prefix/parity/sum model", &g, 10, n, |w, p, x, _| {
        for fill in 0..4 {
            retail_one(w, sym, &complete(p, x, n, fill));
        }
    });
    if sym == Ean8 {
        words(ctx, "every data part", &digits(), 7..=7, |w, s| retail_one(w, sym, s));
        return;
    }
    let b = bases(n);
    let f = |w: &mut Worker, s: &str| {
        w.sym(sym, 0, s);
    };
    let fc = |w: &mut Worker, s: &str| retail_one(w, sym, s);
    windows(ctx, "windows, with check digit", &b[..], &digits(), 4, fc);
    windows(ctx, "windows", &b[..ctx.qt(2, 3)], &digits(), ctx.qt(6, 7), f);
    hamming(ctx, "substitutions", &b[..ctx.qt(3, 5)], &digits(), 4, f);
    // Every word over few digits, of full length.
    for set in ["01", "09", "37", "48"] {
        words(ctx, "full-length words over two digits", &chars(set), n..=n, fc);
    }
    words(ctx, "full-length words over three digits", &chars("159"), n..=n, f);
    // Prefixes as used in practice (978, 979, 020-059 ...) are windows at the start; also all
    // 5-digit prefixes with several tails.
    let tails: Vec<String> = b.iter().map(|v| v[5..].iter().collect()).collect();
    words(ctx, "all 5-digit prefixes x tails", &digits(), 5..=5, |w, s| {
        for t in &tails {
            retail_one(w, sym, &format!("{}{}", s, t));
        }
    });
    hamming(ctx, "five substitutions", &b[..1], &digits(), 5, f);
    if !ctx.quick() {
        hamming(ctx, "five substitutions", &b[1..4], &digits(), 5, f);
        hamming(ctx, "substitutions", &b[1..2], &digits(), 6, f);
        windows(ctx, "windows", &b[3..4], &digits(), 8, f);
        words(ctx, "full-length words over four digits", &chars("0268"), n..=n, f);
        words(ctx, "full-length words over five digits", &chars("01479"), n..=n, f);
    }
}

pub fn supplements(ctx: &Ctx) {
    for n in [2, 5] {
        words(ctx, "every supplement", &digits(), n..=n, |w, s| w.sym(Supp, 0, s));
    }
}

pub fn check_digit(ctx: &Ctx) {
    let all10 = |w: &mut Worker, sym: Sym, s: &str| {
        let mut t = String::from(s);
        for d in b'0'..=b'9' {
            t.truncate(s.len());
            t.push(d as char);
            for via in 0..vias(sym) {
                w.sym(sym, via, &t);
            }
        }
    };
    words(ctx, "every 8-digit EAN-8", &digits(), 8..=8, |w, s| w.sym(Ean8, 0, s));
    for sym in [Ean13, Upca] {
        let n = data_len(sym);
        let (g, _) = retail_model(sym);
        replay(ctx, "sum model x 10 check digits", &g, 10, n, |w, p, x, _| {
            for fill in 0..ctx.qt(2, 4) {
                all10(w, sym, &complete(p, x, n, fill));
            }
        });
        let b = bases(n);
        hamming(ctx, "substitutions x 10 check digits", &b[..ctx.qt(2, 5)], &digits(), 4, |w, s| {
            all10(w, sym, s)
        });
        windows(ctx, "windows x 10 check digits", &b[..ctx.qt(2, 5)], &digits(), ctx.qt(4, 5), |w, s| {
            all10(w, sym, s)
        });
        words(ctx, "words over two digits x 10 check digits", &chars("07"), n..=n, |w, s| all10(w, sym, s));
        words(ctx, "words over three digits x 10 check digits", &chars("149"), n..=n, |w, s| {
            if ctx.quick() && !s.starts_with('4') {
                return;
            }
            all10(w, sym, s)
        });
        if !ctx.quick() {
            hamming(ctx, "substitutions x 10 check digits", &b[..1], &digits(), 5, |w, s| all10(w, sym, s));
            windows(ctx, "windows x 10 check digits", &b[3..4], &digits(), 6, |w, s| all10(w, sym, s));
        }
    }
}

// ------------------------------------------------------------ variable length, weighted checks

/// Families every variable-length symbology goes through: short words, every length, every
/// character at every position of long data, every adjacent pair.
fn variable(ctx: &Ctx, syms: &[Sym], short: usize, pair_lens: &[usize]) {
    let alpha = chars(syms[0].alphabet());
    let all = |w: &mut Worker, s: &str| {
        for &y in syms {
            w.sym(y, 0, s);
        }
    };
    let allv = |w: &mut Worker, s: &str| {
        for &y in syms {
            for via in 0..vias(y) {
                w.sym(y, via, s);
            }
        }
    };
    let k = alpha.len();
    words(ctx, "short words, every constructor", &alpha, 1..=2, allv);
    words(ctx, "short words", &alpha, 3..=short, all);
    ctx.par("every length x every character", "length 1..256, uniform words", 256 * k, 8, |w, i| {
        let (n, c) = (i / k + 1, alpha[i % k]);
        w.states += 1;
        w.transitions += 1;
        allv(w, &c.to_string().repeat(n));
    });
    // Alternating, cyclic and last-character-different words at every length.
    ctx.par("every length x patterned words", "length 1..256, patterns", 256 * k, 8, |w, i| {
        let (n, a) = (i / k + 1, i % k);
        for m in [1, 3, 7, k - 1] {
            let s: String = (0..n).map(|j| alpha[(a + j * m) % k]).collect();
            w.states += 1;
            w.transitions += 1;
            all(w, &s);
        }
    });
    // Every character at every position of data of every length (quick: some lengths).
    let lens: Vec<usize> = if ctx.quick() {
        (1..=24).chain([31, 32, 33, 40, 41, 63, 64, 65, 99, 100, 127, 128, 129, 200, 254, 255, 256]).collect()
    } else {
        (1..=256).collect()
    };
    let mut items = vec![];
    for &n in &lens {
        for p in 0..n {
            items.push((n, p));
        }
    }
    ctx.par(
        "one deviating character",
        &format!("{} lengths x every position x every character x 2 backgrounds", lens.len()),
        items.len(),
        4,
        |w, i| {
            let (n, p) = items[i];
            for back in [0, k - 1] {
                let mut v = vec![alpha[back]; n];
                for &c in &alpha {
                    v[p] = c;
                    let s: String = v.iter().collect();
                    w.states += 1;
                    w.transitions += 1;
                    all(w, &s);
                }
            }
        },
    );
    // Every adjacent pair at every position.
    let mut items = vec![];
    for &n in pair_lens {
        for p in 0..n - 1 {
            for a in 0..k {
                items.push((n, p, a));
            }
        }
    }
    ctx.par(
        "adjacent pairs",
        &format!("lengths {:?} x every position x every pair", pair_lens),
        items.len(),
        8,
        |w, i| {
            let (n, p, a) = items[i];
            let mut v: Vec<char> = vec![alpha[1]; n];
            v[p] = alpha[a];
            for &c in &alpha {
                v[p + 1] = c;
                let s: String = v.iter().collect();
                w.states += 1;
                w.transitions += 1;
                all(w, &s);
            }
        },
    );
    // Any two characters at any two places, any three at any three.
    let pattern = |n: usize| -> Vec<char> { (0..n).map(|j| alpha[(j * 5 + 2) % k]).collect() };
    for (n, m) in [(9, 2), (12, 2), (21, 2), (ctx.qt(6, 8), 3)] {
        let places = combinations(n, m);
        ctx.par(
            &format!("any {} characters", m),
            &format!("length {}, at every {} places", n, m),
            places.len() * k,
            1,
            |w, i| {
                let (at, a) = (&places[i / k], i % k);
                let mut v = pattern(n);
                v[at[0]] = alpha[a];
                for mut r in 0..k.pow(m as u32 - 1) {
                    for &p in &at[1..] {
                        v[p] = alpha[r % k];
                        r /= k;
                    }
                    let s: String = v.iter().collect();
                    w.states += 1;
                    w.transitions += 1;
                    all(w, &s);
                }
            },
        );
    }
    // Repetition: every pair of characters over and over, at every length; every three runs of a few
    // characters; every short word twice, mirrored, and after itself with one more.
    ctx.par("periodic words", "every pair of characters repeated, to every length up to 256", k * k, 4, |w, i| {
        let (a, b) = (alpha[i / k], alpha[i % k]);
        for n in (1..=256).filter(|n| !ctx.quick() || n % 8 == (i * 3) % 8 || *n < 9) {
            let s: String = (0..n).map(|j| if j % 2 == 0 { a } else { b }).collect();
            w.states += 1;
            w.transitions += 1;
            all(w, &s);
        }
    });
    let few: Vec<char> = [1, k / 2, k - 2, k - 1].iter().map(|&i| alpha[i]).collect();
    let most = ctx.qt(18, 40);
    ctx.par("three runs", &format!("runs of 1 to {} of 4 characters", most), most * most, 2, |w, i| {
        for c in 1..=most {
            for x in 0..64 {
                let l = [few[x % 4], few[x / 4 % 4], few[x / 16]];
                if l[0] == l[1] || l[1] == l[2] {
                    continue;
                }
                let mut s = String::new();
                for (l, n) in l.iter().zip([i % most + 1, i / most + 1, c]) {
                    s.extend(std::iter::repeat_n(*l, n));
                }
                w.states += 1;
                w.transitions += 1;
                all(w, &s);
            }
        }
    });
    words(ctx, "doubled and mirrored words", &alpha, 2..=3, |w, s| {
        let r: String = s.chars().rev().collect();
        for t in [format!("{}{}", s, s), format!("{}{}", s, r), format!("{}{}{}", s, s, s), format!("{}{}{}", s, alpha[0], r)] {
            all(w, &t);
        }
    });
    // Two deviating positions, all position pairs.
    let lens2: Vec<usize> = ctx.qt(vec![12, 30, 70], vec![12, 20, 30, 50, 70, 120, 256]);
    let mut items = vec![];
    for &n in &lens2 {
        for c in combinations(n, 2) {
            items.push((n, c[0], c[1]));
        }
    }
    let probes: Vec<char> = [0, k / 3, k - 2, k - 1].iter().map(|&i| alpha[i]).collect();
    ctx.par(
        "two deviating characters",
        &format!("lengths {:?} x every position pair x 16 character pairs", lens2),
        items.len(),
        8,
        |w, i| {
            let (n, p, q) = items[i];
            for &a in &probes {
                for &b in &probes {
                    let mut v: Vec<char> = (0..n).map(|j| alpha[(j * 5 + 2) % k]).collect();
                    v[p] = a;
                    v[q] = b;
                    let s: String = v.iter().collect();
                    w.states += 1;
                    w.transitions += 1;
                    all(w, &s);
                }
            }
        },
    );
}

pub fn code39(ctx: &Ctx) {
    let alpha = chars(C39);
    let depth = 256;
    // Model: length and check sum. Thorough keeps the exact sum (overflow of narrow accumulators).
    if ctx.quick() {
        let g = Graph::explore((0u16, 0u32), 43, depth, |(n, s), x| Some((n + 1, (s + x as u32) % 43)));
        replay(ctx, "length/sum mod 43 model", &g, 43, depth, |w, p, x, _| {
            code39_word(w, &alpha, p, x);
        });
    } else {
        let g = Graph::explore((0u16, 0u32), 43, depth, |(n, s), x| Some((n + 1, s + x as u32)));
        let step = 4;
        replay(ctx, "length/exact sum model", &g, 43, depth, |w, p, x, (n, s)| {
            // every exact state, one input in four (all inputs over four neighbouring states)
            if (x as u32 + s + n as u32) % step == 0 {
                code39_word(w, &alpha, p, x);
            }
        });
    }
    variable(ctx, &[Code39, Code39C], ctx.qt(4, 5), ctx.qt(&[10, 60], &[10, 60, 256]));
}

fn code39_word(w: &mut Worker, alpha: &[char], p: &[u16], x: usize) {
    let mut s: String = p.iter().map(|&i| alpha[i as usize]).collect();
    s.push(alpha[x]);
    w.sym(Code39C, (s.len() % 3) as u8, &s);
    w.sym(Code39, (s.len() % 3) as u8, &s);
}

fn rev_word(alpha: &[char], p: &[u16], x: usize) -> String {
    let mut v: Vec<char> = p.iter().map(|&i| alpha[i as usize]).collect();
    v.push(alpha[x]);
    v.into_iter().rev().collect()
}

pub fn code93(ctx: &Ctx) {
    let alpha = chars(C93);
    // Characters are prepended: weight of the n-th from the right is fixed, so (length, C sum,
    // K sum without C) mod 47 determines both checks of every extension.
    let step = |(n, c, k): (u16, u8, u8), x: usize| {
        let wc = n as usize % 20 + 1;
        let wk = (n as usize + 1) % 15 + 1;
        Some((
            n + 1,
            ((c as usize + wc * x) % 47) as u8,
            ((k as usize + wk * x) % 47) as u8,
        ))
    };
    let (depth, inputs): (usize, Vec<usize>) = if ctx.quick() {
        (48, (0..47).collect())
    } else {
        (256, (0..47).collect())
    };
    let g = Graph::explore((0u16, 0u8, 0u8), 47, depth, step);
    replay(ctx, "length/C/K model", &g, inputs.len(), depth, |w, p, x, _| {
        w.sym(Code93, 0, &rev_word(&alpha, p, x));
    });
    if ctx.quick() {
        // To full length with few characters.
        let few = [1usize, 46];
        let g = Graph::explore((0u16, 0u8, 0u8), 2, 256, |s, x| step(s, few[x]));
        replay(ctx, "length/C/K model, 2 characters", &g, 2, 256, |w, p, x, _| {
            let q: Vec<u16> = p.iter().map(|&i| few[i as usize] as u16).collect();
            w.sym(Code93, 0, &rev_word(&alpha, &q, few[x]));
        });
    }
    variable(ctx, &[Code93], ctx.qt(4, 5), ctx.qt(&[10, 45], &[10, 45, 256]));
}

pub fn code11(ctx: &Ctx) {
    let alpha = chars(C11);
    let g = Graph::explore((0u16, 0u8, 0u8), 11, 256, |(n, c, k), x| {
        let wc = n as usize % 10 + 1;
        let wk = (n as usize + 1) % 9 + 1;
        Some((
            n + 1,
            ((c as usize + wc * x) % 11) as u8,
            ((k as usize + wk * x) % 11) as u8,
        ))
    });
    replay(ctx, "length/C/K model", &g, 11, 256, |w, p, x, _| {
        w.sym(Code11, (p.len() % 2) as u8, &rev_word(&alpha, p, x));
    });
    variable(ctx, &[Code11], ctx.qt(7, 8), &[10, 11, 12, 60, 256]);
}

pub fn codabar(ctx: &Ctx) {
    let alpha = chars(CODA);
    let g = Graph::explore((0u16, 0u8), 20, 256, |(n, _), x| Some((n + 1, x as u8)));
    replay(ctx, "length/last character model", &g, 20, 256, |w, p, x, _| {
        let mut s: String = p.iter().map(|&i| alpha[i as usize]).collect();
        s.push(alpha[x]);
        w.sym(Codabar, 0, &s);
    });
    variable(ctx, &[Codabar], ctx.qt(5, 6), &[10, 60, 256]);
    ctx.par("start and stop characters", "every pair of ends x every character between x length 2..256", 255, 2, |w, i| {
        for a in &alpha {
            for b in &alpha {
                for c in if ctx.quick() { &alpha[..4] } else { &alpha[..] } {
                    let s = format!("{}{}{}", a, c.to_string().repeat(i), b);
                    w.states += 1;
                    w.transitions += 1;
                    w.sym(Codabar, 0, &s);
                }
            }
        }
    });
}

pub fn itf(ctx: &Ctx) {
    // Model: length and exact weighted sum, both phases of the weights.
    let depth = ctx.qt(40, 256);
    let g = Graph::explore((0u16, 0u16, 0u16), 10, depth, |(n, a, b), x| {
        // digit sums at even and odd positions; thorough keeps them modulo 10 only past depth 40
        let (mut a2, mut b2) = (a, b);
        if n % 2 == 0 {
            a2 += x as u16;
        } else {
            b2 += x as u16;
        }
        Some((n + 1, a2 % 10, b2 % 10))
    });
    replay(ctx, "length/digit sums model", &g, 10, depth, |w, p, x, _| {
        let mut s: String = p.iter().map(|&i| (b'0' + i as u8) as char).collect();
        s.push((b'0' + x as u8) as char);
        w.sym(Itf, 0, &s);
    });
    let g = Graph::explore((0u16, 0u32), 10, 256, |(n, sum), x| {
        Some((n + 1, sum + x as u32 * if n % 2 == 0 { 3 } else { 1 }))
    });
    let div = ctx.qt(5, 1);
    replay(ctx, "length/exact weighted sum model", &g, 10, 256, |w, p, x, (n, sum)| {
        if (sum + x as u32 + n as u32) % div != 0 {
            return;
        }
        let mut s: String = p.iter().map(|&i| (b'0' + i as u8) as char).collect();
        s.push((b'0' + x as u8) as char);
        w.sym(Itf, 0, &s);
    });
    variable(ctx, &[Itf], ctx.qt(7, 8), &[9, 10, 60, 255, 256]);
}

pub fn stf(ctx: &Ctx) {
    let g = Graph::explore((0u16, 0u8, 0u8), 10, 256, |(n, _, l), x| Some((n + 1, l, x as u8)));
    replay(ctx, "length/last two digits model", &g, 10, 256, |w, p, x, _| {
        let mut s: String = p.iter().map(|&i| (b'0' + i as u8) as char).collect();
        s.push((b'0' + x as u8) as char);
        w.sym(Stf, 0, &s);
    });
    variable(ctx, &[Stf], ctx.qt(7, 8), &[9, 10, 60, 255, 256]);
}

// ------------------------------------------------------------ Code 128

/// Every character the tokenizer knows, plus near misses.
fn c128_alphabet(full: bool) -> Vec<char> {
    let mut v = vec![SEL_A, SEL_B, SEL_C, SHIFT, FNC1, FNC4, '7', 'A', 'a', '\0', '0', '\u{7f}', '_', '`', ' ', FNC2, FNC3, '÷', 'é', '\u{80}'];
    if full {
        for c in 0..=127u8 {
            if !v.contains(&(c as char)) {
                v.push(c as char);
            }
        }
        v.extend(['à', 'ɓ', 'ć', '\u{178}', '\u{17E}', '\u{0}']);
        v.dedup();
    }
    v
}

/// Tokenizer state x number of symbol characters x weighted sum mod 103.
type C128Key = (u8, u8, bool, bool, u16, u8);

fn c128_key(st: C128State, n: u16, sum: u8) -> C128Key {
    (
        st.set.map_or(9, |s| s),
        st.carry.map_or(99, |c| c),
        st.shift,
        st.data,
        n,
        sum,
    )
}
fn c128_unkey(k: C128Key) -> C128State {
    C128State {
        set: (k.0 != 9).then_some(k.0),
        carry: (k.1 != 99).then_some(k.1),
        shift: k.2,
        data: k.3,
    }
}

fn c128_model(alpha: &[char], depth: usize) -> Graph<C128Key> {
    Graph::explore(c128_key(C128_INIT, 0, 0), alpha.len(), depth, |k, x| {
        let (st, v) = c128_unkey(k).step(alpha[x])?;
        let (mut n, mut sum) = (k.4, k.5);
        if let Some(v) = v {
            sum = ((sum as usize + v * (n as usize).max(1)) % 103) as u8;
            n += 1;
        }
        Some(c128_key(st, n, sum))
    })
}

/// Data with the structures met in practice: periodic, and GS1 element strings.
fn c128_structured(ctx: &Ctx, small: &[char]) {
    let k = small.len();
    let reps = [3, 4, 5, 8, 9, 12, 13, 16, 17, 24, 25, 32, 33, 40, 50, 64, 65, 100, 128, 129, 255, 256, 257];
    let cycles = k + k * k + k * k * k;
    ctx.par("periodic words", &format!("every cycle of 1..3 of {} letters, {} repetitions, each set", k, reps.len()), cycles, 16, |w, i| {
        let cycle: String = match i {
            i if i < k => small[i].to_string(),
            i if i < k + k * k => [small[(i - k) / k], small[(i - k) % k]].iter().collect(),
            i => {
                let i = i - k - k * k;
                [small[i / k / k], small[i / k % k], small[i % k]].iter().collect()
            }
        };
        for sel in [SEL_A, SEL_B, SEL_C] {
            let mut rejected = 0;
            for r in reps {
                let s = format!("{}{}", sel, cycle.repeat(r));
                w.states += 1;
                w.transitions += 1;
                w.sym(Code128, 0, &s);
                // Rejected for good: longer ones are the same case.
                rejected = if refs::c128_values(&s).is_none() { rejected + 1 } else { 0 };
                if rejected > 4 {
                    break;
                }
            }
        }
    });
    // Words of whole symbols rather than characters: shifted characters, digit pairs and selectors count as one.
    let deep = ctx.qt(7, 8);
    let pow = 8usize.pow(deep);
    let steps: [[String; 8]; 3] = [
        ["A", "7", "\u{01}", "\u{17D}a", "\u{17D}~", "\u{181}", "\u{106}", "\u{179}"].map(String::from),
        ["a", "7", "A", "\u{17D}\u{01}", "\u{17D}\u{1f}", "\u{C0}", "\u{106}", "\u{179}"].map(String::from),
        ["42", "07", "99", "00", "\u{C0}", "\u{181}", "\u{179}", "10"].map(String::from),
    ];
    assert_eq!([SEL_A, SEL_B, SEL_C, FNC1, SHIFT], ['\u{C0}', '\u{181}', '\u{106}', '\u{179}', '\u{17D}']);
    ctx.par("words of whole symbols", &format!("all words of {} symbols, 8 in each set", deep), 3 * pow, 4096, |w, i| {
        let (mut set, mut r) = (i / pow, i % pow);
        let mut s = String::from([SEL_A, SEL_B, SEL_C][set]);
        for _ in 0..deep {
            let t = &steps[set][r % 8];
            r /= 8;
            s.push_str(t);
            set = match t.as_str() {
                "\u{C0}" => 0,
                "\u{181}" => 1,
                "\u{106}" => 2,
                _ => set,
            };
        }
        w.states += 1;
        w.transitions += 1;
        w.sym(Code128, 0, &s);
    });
    // FNC1, application identifier, digits.
    let fills = ["00", "12", "99"];
    let maxp = ctx.qt(13, 30);
    ctx.par("element strings in set C", &format!("100 identifiers x 0..{} pairs x 3 fills x 100 last pairs", maxp), 100 * maxp, 4, |w, i| {
        let (ai, n) = (i / maxp, i % maxp);
        let mut s = String::new();
        for fill in fills {
            for last in 0..100 {
                for pre in 0..2 {
                    s.clear();
                    match pre {
                        0 => s.extend([SEL_C, FNC1]),
                        _ => s.extend([SEL_B, FNC1, SEL_C]),
                    }
                    s.push_str(&format!("{:02}{}{:02}", ai, fill.repeat(n), last));
                    w.states += 1;
                    w.transitions += 1;
                    w.sym(Code128, 0, &s);
                }
            }
        }
    });
    ctx.par("two elements in set C", "100 x 100 identifiers x 0..4 pairs between x with and without FNC1", 100 * 100, 16, |w, i| {
        for n in 0..5 {
            for mid in ["".to_string(), FNC1.to_string(), format!("{}{}", FNC1, FNC1), format!("{}{}{}", SEL_A, FNC1, SEL_C)] {
                let s = format!("{}{}{:02}{}{}{:02}34", SEL_C, FNC1, i / 100, "56".repeat(n), mid, i % 100);
                w.states += 1;
                w.transitions += 1;
                w.sym(Code128, 0, &s);
            }
        }
    });
    ctx.par("element strings in sets A and B", "100 identifiers x 0..30 digits x 3 fills x 10 last digits", 100 * 31, 8, |w, i| {
        for fill in ["0", "1", "9"] {
            for last in 0..10 {
                for sel in [SEL_A, SEL_B] {
                    let s = format!("{}{}{:02}{}{}", sel, FNC1, i / 31, fill.repeat(i % 31), last);
                    w.states += 1;
                    w.transitions += 1;
                    w.sym(Code128, 0, &s);
                }
            }
        }
    });
    // Digits and letters: runs of digits of every length at every place in sets A and B.
    ctx.par("runs of digits", "0..8 letters, 1..24 digits, 0..8 letters", 9 * 24 * 9, 8, |w, i| {
        let (a, d, b) = (i % 9, i / 9 % 24 + 1, i / 216);
        for (sel, l) in [(SEL_A, "A"), (SEL_B, "b"), (SEL_B, "-")] {
            for f in 0..4 {
                let run: String = (0..d).map(|j| (b'0' + [0, 9, j % 10, j * 7 % 10][f] as u8) as char).collect();
                let s = format!("{}{}{}{}", sel, l.repeat(a), run, l.repeat(b));
                w.states += 1;
                w.transitions += 1;
                w.sym(Code128, 0, &s);
            }
        }
    });
}

fn c128_families(ctx: &Ctx) {
    let small = c128_alphabet(false);
    let full = c128_alphabet(true);
    let run = |w: &mut Worker, s: &str| w.sym(Code128, 0, s);
    words(ctx, "short words, core alphabet", &small, 0..=4, run);
    words(ctx, "short words, 11 letters", &small[..11], 5..=ctx.qt(6, 7), run);
    words(ctx, "short words, full alphabet", &full, 0..=3, run);
    for pre in ["À", "Ɓ", "Ć", "À\u{17D}", "Ɓ\u{17D}", "Ć1", "ÀƁ", "ƁÀ", "ĆÀ"] {
        words_in(ctx, "after a prefix, full alphabet", &full, pre, "", 0..=2, run);
        words_in(ctx, "after a prefix, core alphabet", &small, pre, "A", 0..=3, run);
        words_in(ctx, "after a prefix, core alphabet", &small, pre, "00", 0..=3, run);
    }
    for pre in ["À", "Ɓ", "Ć"] {
        words_in(ctx, "after a prefix, full alphabet", &full, pre, "", 3..=3, run);
    }
    c128_structured(ctx, &small);
    if !ctx.quick() {
        words(ctx, "short words, core alphabet", &small, 5..=5, run);
    }
    // The tokenizer/checksum machine: every transition from every reachable state, including the
    // ones the model forbids.
    let depth = ctx.qt(20, 110);
    let al: Vec<char> = if ctx.quick() { small.clone() } else { full.clone() };
    let g = c128_model(&al, depth);
    replay(ctx, "tokenizer x length x sum mod 103 model", &g, al.len(), depth, |w, p, x, k| {
        let mut s: String = p.iter().map(|&i| al[i as usize]).collect();
        s.push(al[x]);
        // Close an open digit pair so that the word is complete.
        if let Some((st, _)) = c128_unkey(k).step(al[x]) {
            if st.carry.is_some() {
                s.push('5');
            }
        }
        w.sym(Code128, 0, &s);
    });
    if ctx.quick() {
        let g = c128_model(&full, 8);
        replay(ctx, "tokenizer x length x sum model, all characters", &g, full.len(), 8, |w, p, x, k| {
            let mut s: String = p.iter().map(|&i| full[i as usize]).collect();
            s.push(full[x]);
            if let Some((st, _)) = c128_unkey(k).step(full[x]) {
                if st.carry.is_some() {
                    s.push('5');
                }
            }
            w.sym(Code128, 0, &s);
        });
    }
    // Every symbol value at every position, in every set.
    let maxn = ctx.qt(230, 600);
    ctx.par("every value at every position", &format!("positions 1..{}", maxn), maxn * 3, 2, |w, i| {
        let (n, set) = (i / 3, (i % 3) as u8);
        let sel = [SEL_A, SEL_B, SEL_C][set as usize];
        let fill = if set == 2 { "00" } else { "A" };
        let vals: Vec<String> = if set == 2 {
            (0..100).map(|v| format!("{:02}", v)).chain([FNC1.to_string(), format!("{}x{}12", SEL_B, SEL_C), format!("{}X{}34", SEL_A, SEL_C)]).collect()
        } else {
            full.iter()
                .filter(|c| c128_value(set, **c).is_some() && **c != SHIFT)
                .map(|c| c.to_string())
                .chain((0..=127u8).filter(|c| c128_value(1 - set, *c as char).is_some()).map(|c| format!("{}{}", SHIFT, c as char)))
                .collect()
        };
        for v in &vals {
            for after in [0, 1, 3] {
                if after > 0 && ctx.quick() && n % 4 != after {
                    continue;
                }
                let s = format!("{}{}{}{}", sel, fill.repeat(n), v, fill.repeat(after));
                w.states += 1;
                w.transitions += 1;
                w.sym(Code128, 0, &s);
            }
        }
    });
    // Set changes at every position of longer data.
    let runs: [(char, &str); 3] = [(SEL_A, "A"), (SEL_B, "a"), (SEL_C, "42")];
    let maxk = ctx.qt(9, 14);
    ctx.par("set changes", &format!("three runs of 0..{} characters in every order of sets", maxk), 27 * maxk * maxk, 16, |w, i| {
        let (o, r) = (i % 27, i / 27);
        let (a, b) = (r % maxk, r / maxk);
        for c in 0..maxk {
            let mut s = String::new();
            for (j, n) in [(o % 3, a), (o / 3 % 3, b), (o / 9, c)] {
                s.push(runs[j].0);
                s.push_str(&runs[j].1.repeat(n));
            }
            w.states += 1;
            w.transitions += 1;
            w.sym(Code128, 0, &s);
        }
    });
    // Long data: every length, across the points where narrow accumulators overflow.
    let top = ctx.qt(1200, 14000);
    ctx.par("every length", &format!("length 2..{}", top), top, 4, |w, i| {
        let n = i + 1;
        for (sel, unit) in [(SEL_B, "~"), (SEL_A, "\u{17C}"), (SEL_C, "99"), (SEL_B, "A")] {
            w.states += 1;
            w.transitions += 1;
            w.sym(Code128, 0, &format!("{}{}", sel, unit.repeat(n)));
        }
    });
    let mut marks: Vec<usize> = vec![];
    for m in [4096, 6550, 8192, 9000, 9042, 9100, 9231, 9300, 10000, 16384, 32768, 65536, 66000] {
        marks.extend([m - 2, m - 1, m, m + 1, m + 2]);
    }
    // Long enough for a stack frame each to be too much.
    marks.extend([100_000, 131_073, 262_145, 1_048_577]);
    if !ctx.quick() {
        marks.extend([131_071, 131_072, 600_000, 2_097_153, 4_194_305]);
    }
    ctx.par("marked lengths", "around powers of two and the u32 overflow of the weighted sum", marks.len() * 4, 1, |w, i| {
        let (sel, unit) = [(SEL_B, "~"), (SEL_C, "99"), (SEL_A, "\u{17C}"), (SEL_A, "\u{1}\u{181}a\u{c0}")][i % 4];
        w.states += 1;
        w.transitions += 1;
        w.sym(Code128, 0, &format!("{}{}", sel, unit.repeat(marks[i / 4] / unit.len().div_ceil(2))));
    });
}

pub fn code128_scan(ctx: &Ctx) {
    c128_families(ctx);
}

pub fn code128_accept(ctx: &Ctx) {
    c128_families(ctx);
    // What looks like one character in two: ASCII next to anything of the lower planes.
    let mut wide: Vec<char> = (0x80..ctx.qt(0x3100u32, 0x10000)).filter_map(char::from_u32).collect();
    wide.extend(('\u{fe00}'..='\u{ffff}').filter(|_| ctx.quick()));
    ctx.par("ASCII next to another character", &format!("128 x {} x each order x each set", wide.len()), wide.len(), 64, |w, i| {
        let mut s = String::new();
        for a in 0..128u8 {
            for (sel, pre, post) in [(SEL_A, "A", "B"), (SEL_B, "a", "b"), (SEL_C, "12", "34")] {
                for order in 0..2 {
                    s.clear();
                    s.push(sel);
                    s.push_str(pre);
                    s.push(if order == 0 { a as char } else { wide[i] });
                    s.push(if order == 1 { a as char } else { wide[i] });
                    s.push_str(post);
                    w.states += 1;
                    w.transitions += 1;
                    w.sym(Code128, 0, &s);
                }
            }
        }
    });
    // Every Unicode scalar value in every tokenizer mode.
    let ctxs: Vec<(&str, &str)> = vec![
        ("", ""),
        ("", "A"),
        ("", "00"),
        ("À", ""),
        ("Ɓ", ""),
        ("Ć", ""),
        ("À", "A"),
        ("Ɓ", "a"),
        ("Ć", "00"),
        ("Ć1", ""),
        ("Ć1", "2"),
        ("Ć12", "34"),
        ("À\u{17D}", "A"),
        ("Ɓ\u{17D}", "a"),
        ("ÀAƁ", "b"),
        ("ƁaÀ", "B"),
        ("ƁaĆ", "12"),
        ("ÀABCDEFGHIJ", "ABCDEFGHIJ"),
        ("ƁABC\u{179}", "x"),
    ];
    let n = if ctx.quick() { 12 } else { ctxs.len() };
    let blocks = 0x110000 / 256;
    ctx.par(
        "every Unicode scalar in every mode",
        &format!("1112064 code points x {} contexts", n),
        blocks,
        4,
        |w, b| {
            let mut s = String::new();
            for u in b * 256..(b + 1) * 256 {
                if let Some(c) = char::from_u32(u as u32) {
                    for (pre, post) in &ctxs[..n] {
                        s.clear();
                        s.push_str(pre);
                        s.push(c);
                        s.push_str(post);
                        w.states += 1;
                        w.transitions += 1;
                        w.sym(Code128, 0, &s);
                    }
                }
            }
        },
    );
    let words = ["\u{c0}HI", "\u{181}Hi", "\u{106}1234", "\u{181}ab\u{106}12\u{c0}X"].map(String::from);
    decorated(ctx, Code128, &words);
    // Two characters from a wide set of scripts, alone and after each selector.
    let wide = near_misses();
    for pre in ["", "À", "Ɓ", "Ć", "Ɓ\u{17D}"] {
        words_in(ctx, "two characters of a wide alphabet", &wide, pre, "", 0..=2, |w, s| w.sym(Code128, 0, s));
    }
}

// ------------------------------------------------------------ C14

/// Characters that are easily confused with valid ones, at every UTF-8 length and boundary.
pub fn near_misses() -> Vec<char> {
    let mut v: Vec<char> = (0..=127u8).map(|c| c as char).collect();
    v.extend([
        '\u{80}', '\u{9f}', '\u{a0}', '²', '³', '¹', '¼', 'À', 'à', 'É', 'é', 'ß', '÷', '×', 'ÿ', 'Ć', 'Ɓ',
        '\u{17f}', 'ı', 'İ', '\u{179}', '\u{17a}', '\u{17b}', '\u{17c}', '\u{17d}', '\u{212a}', '\u{301}',
        '٠', '١', '٩', '۳', '०', '९', '０', '９', 'Ａ', 'Ｚ', 'ａ', '－', '．', '①', '⁵', '₃', 'Ⅷ', '\u{200b}',
        '\u{200f}', '\u{2028}', '\u{feff}', '\u{fffd}', '\u{ffff}', '\u{7ff}', '\u{800}', '\u{d7ff}', '\u{e000}',
        '\u{10000}', '𝟎', '𝟗', '😀', '\u{10ffff}', '−', '–', '＋', '＄', '／', '：', '＊', '％',
    ]);
    v
}

fn valid_word(sym: Sym, n: usize, seed: usize) -> Vec<char> {
    let a = chars(sym.alphabet());
    let mut v: Vec<char> = (0..n).map(|i| a[(i * 3 + seed) % a.len()]).collect();
    // Give full-length retail data its right check digit, so that only the planted defect counts.
    if matches!(sym, Ean13 | Upca | Ean8) && n == data_len(sym) + 1 {
        let d: Vec<u8> = v[..n - 1].iter().map(|c| *c as u8 - b'0').collect();
        v[n - 1] = (b'0' + mod10(&d)) as char;
    }
    v
}

pub const NON128: [Sym; 11] = [
    Ean13, Upca, Ean8, Supp, Code39, Code39C, Code93, Code11, Codabar, Itf, Stf,
];

fn ok_lens(sym: Sym) -> Vec<usize> {
    match sym {
        Ean13 => vec![12, 13],
        Upca => vec![11, 12],
        Ean8 => vec![7, 8],
        Supp => vec![2, 5],
        _ => vec![1, 2, 9, 10, 11, 255, 256],
    }
}

/// Writings that software likes to accept as something else.
const TOKENS: &[&str] = &[
    "%20", "%00", "\\n", "\\0", "\\x31", "\\u{31}", "\\u0031", "&amp;", "&#49;", "&lt;", "{A}", "{B}", "{C}", "{1}", "${1}", "[FNC1]", "<FNC1>",
    "(FNC1)", "FNC1", "^FNC1", "~1", "~d049", "]C1", "]E0", "(01)", "(10)", "(21)", "01", "0x", "0x1F", "0b1", "1e3", "1E3", "+1", "-1", "1.0", "--",
    "//", "/*", "*/", "#", "# ", "\r\n", "\n\r", "\r\n\r\n", "\u{feff}", "\u{200b}", "e\u{301}", "1\u{20e3}", "\u{1F468}\u{200d}\u{1F469}", "EAN",
    "UPC", "GTIN", "ISBN", "ISBN ", "isbn-13: ", "SKU", "null", "NULL", "true", "NaN", "inf", "QQ", "xx", "  ", "\t\t", "\0\0", "\u{c0}\u{c0}",
    "\u{181}\u{181}", "\u{106}\u{106}", "+A", "%V", "/A", "$I", "$$", "**", "''", "\"\"", "()", "[]", "{}", "<>", "``",
];

/// Valid data with something extra before, after, around or inside it.
fn decorated(ctx: &Ctx, sym: Sym, words: &[String]) {
    let near = near_misses();
    let mut ends: Vec<String> = near.iter().map(|c| c.to_string()).collect();
    ends.extend(TOKENS.iter().map(|t| t.to_string()));
    ends.push(String::new());
    let n = ends.len();
    ctx.par(
        &format!("{}: decorated data", sym.name()),
        &format!("{} words, every pair of {} additions: around, before, after; every addition at every position", words.len(), n),
        n,
        2,
        |w, i| {
            let a = &ends[i];
            let mut s = String::new();
            for (wi, word) in words.iter().enumerate().take(ctx.qt(6, 99)) {
                for b in &ends {
                    for shape in 0..if wi < 2 || !ctx.quick() { 3 } else { 1 } {
                        s.clear();
                        for part in [[a, word, b], [a, b, word], [word, a, b]][shape] {
                            s.push_str(part);
                        }
                        w.states += 1;
                        w.transitions += 1;
                        w.sym(sym, 0, &s);
                    }
                }
                let c: Vec<char> = word.chars().collect();
                for p in 0..=c.len() {
                    for q in p..=(p + 3).min(c.len()) {
                        s.clear();
                        s.extend(&c[..p]);
                        s.push_str(a);
                        s.extend(&c[q..]);
                        w.states += 1;
                        w.transitions += 1;
                        w.sym(sym, 0, &s);
                    }
                }
            }
        },
    );
    // Any three ASCII characters before, and after.
    let three: Vec<char> = (32..127u8).map(|c| c as char).collect();
    ctx.par(
        &format!("{}: three ASCII characters before or after", sym.name()),
        "every three of 95",
        95 * 95,
        16,
        |w, i| {
            let word = &words[0];
            let mut s = String::new();
            for c in &three {
                let add = [three[i / 95], three[i % 95], *c];
                for after in [false, true] {
                    s.clear();
                    if !after {
                        s.extend(add);
                    }
                    s.push_str(word);
                    if after {
                        s.extend(add);
                    }
                    w.states += 1;
                    w.transitions += 1;
                    w.sym(sym, 0, &s);
                }
            }
        },
    );
    // Grouped as numbers are printed: a separator in every choice of gaps.
    let short: Vec<&String> = words.iter().filter(|w| w.chars().count() <= 13).collect();
    ctx.par(&format!("{}: grouped data, any gaps", sym.name()), "3 separators in every choice of gaps", short.len() << 14, 256, |w, i| {
        let word = short[i >> 14];
        let gaps = i & ((1 << 14) - 1);
        if gaps >> (word.len() + 1) != 0 {
            return;
        }
        for sep in ['-', ' ', '.'] {
            let mut s = String::new();
            for (k, c) in word.chars().enumerate() {
                if gaps >> k & 1 == 1 {
                    s.push(sep);
                }
                s.push(c);
            }
            if gaps >> word.chars().count() & 1 == 1 {
                s.push(sep);
            }
            w.states += 1;
            w.transitions += 1;
            w.sym(sym, 0, &s);
        }
    });
    // Further separators in every choice of up to four gaps.
    let mut items = vec![];
    for word in words.iter().filter(|w| w.chars().count() <= 13).take(ctx.qt(6, 99)) {
        for k in 1..=4 {
            for gaps in combinations(word.chars().count() + 1, k) {
                items.push((word, gaps));
            }
        }
    }
    ctx.par(&format!("{}: grouped data", sym.name()), "10 separators in every choice of <= 4 gaps", items.len(), 64, |w, i| {
        let (word, gaps) = &items[i];
        let mut s = String::new();
        for sep in [" ", "-", ".", ",", "_", "\u{a0}", "\u{2009}", "/", ":", "  "] {
            s.clear();
            let mut n = 0;
            for (k, c) in word.chars().enumerate() {
                if gaps.contains(&k) {
                    s.push_str(sep);
                }
                s.push(c);
                n = k + 1;
            }
            if gaps.contains(&n) {
                s.push_str(sep);
            }
            w.states += 1;
            w.transitions += 1;
            w.sym(sym, 0, &s);
        }
    });
}

pub fn acceptance(ctx: &Ctx) {
    let near = near_misses();
    // All short words over a wide alphabet.
    for sym in NON128 {
        let a = chars(sym.alphabet());
        words(ctx, &format!("{}: words over a wide alphabet", sym.name()), &near, 0..=2, |w, s| {
            for via in 0..vias(sym) {
                w.sym(sym, via, s);
            }
        });
        let mut few: Vec<char> = vec![a[0], a[a.len() - 1], 'a', '*', 'é', '０', '\0', '-', 'A', '😀', ' '];
        few.dedup();
        words(ctx, &format!("{}: words over few characters", sym.name()), &few, 3..=ctx.qt(5, 6), |w, s| {
            w.sym(sym, 0, s)
        });
    }
    // What looks like one character in two.
    let mut wide: Vec<char> = (0x80..ctx.qt(0x3100u32, 0x10000)).filter_map(char::from_u32).collect();
    wide.extend(('\u{fe00}'..='\u{ffff}').filter(|_| ctx.quick()));
    ctx.par("a letter next to another character", &format!("11 symbologies x alphabet x {} x each order", wide.len()), wide.len(), 16, |w, i| {
        let mut s = String::new();
        for sym in NON128 {
            let word = valid_word(sym, ok_lens(sym)[0].max(2), 2);
            for a in sym.alphabet().chars() {
                for order in 0..2 {
                    s.clear();
                    s.push(if order == 0 { a } else { wide[i] });
                    s.push(if order == 1 { a } else { wide[i] });
                    s.extend(&word[2..]);
                    w.states += 1;
                    w.transitions += 1;
                    w.sym(sym, 0, &s);
                }
            }
        }
    });
    // Length automaton: every length 0..600, valid letters, several words each.
    ctx.par("every length", "length 0..600 x 11 symbologies x 4 words", 601 * 11, 8, |w, i| {
        let (n, sym) = (i / 11, NON128[i % 11]);
        for seed in [0, 1, 4, 7] {
            let s: String = valid_word(sym, n, seed).into_iter().collect();
            for via in 0..vias(sym) {
                w.states += 1;
                w.transitions += 1;
                w.sym(sym, via, &s);
            }
        }
    });
    // One bad character at every position, every allowed length (and its neighbours).
    let mut items = vec![];
    for sym in NON128 {
        let mut lens = vec![];
        for l in ok_lens(sym) {
            lens.extend([l.saturating_sub(1), l, l + 1]);
        }
        if sym.len_ok(100) {
            lens.extend([50, 128]);
        }
        lens.sort();
        lens.dedup();
        for n in lens {
            for p in 0..n {
                items.push((sym, n, p));
            }
        }
    }
    ctx.par("one wide-alphabet character at every position", "allowed lengths and neighbours", items.len(), 4, |w, i| {
        let (sym, n, p) = items[i];
        let mut v = valid_word(sym, n, 1);
        for &c in &near {
            v[p] = c;
            let s: String = v.iter().collect();
            w.states += 1;
            w.transitions += 1;
            w.sym(sym, 0, &s);
        }
    });
    for sym in NON128 {
        let words: Vec<String> = match sym {
            Supp => ok_lens(sym).iter().flat_map(|&l| [1, 4].map(|s| valid_word(sym, l, s).into_iter().collect())).collect(),
            Ean13 | Upca | Ean8 => {
                // With prefixes that mean something.
                let pres = ["", "978", "0", "979", "977", "2", "49", "00", "05", "99", "123"];
                let data = |p: &str, n: usize| format!("{}{}", p, valid_word(sym, n - p.len(), 1).into_iter().collect::<String>());
                pres.iter().flat_map(|p| [data(p, data_len(sym)), with_check(&data(p, data_len(sym)))]).collect()
            }
            _ => [7, 10, 1, 12].map(|l| valid_word(sym, l, 3).into_iter().collect()).to_vec(),
        };
        decorated(ctx, sym, &words);
    }
    // Multi-byte data whose byte length is allowed, and the other way round.
    let multi = ['é', '０', '😀', '\u{7ff}'];
    ctx.par("multi-byte data", "0..300 characters of 2, 3 and 4 bytes", 301 * 4 * 11, 16, |w, i| {
        let (n, r) = (i / 44, i % 44);
        let (c, sym) = (multi[r % 4], NON128[r / 4]);
        let s: String = std::iter::repeat_n(c, n).collect();
        w.states += 1;
        w.transitions += 1;
        w.sym(sym, 0, &s);
        if n > 0 {
            let mut v = valid_word(sym, n - 1, 2);
            v.push(c);
            let s: String = v.iter().collect();
            w.sym(sym, 0, &s);
        }
    });
    // Every Unicode scalar at first, middle and last position.
    let blocks = 0x110000 / 256;
    ctx.par(
        "every Unicode scalar",
        "1112064 code points x 11 symbologies x 3 positions",
        blocks,
        2,
        |w, b| {
            for sym in NON128 {
                let l = *ok_lens(sym).iter().find(|l| **l > 2).unwrap_or(&5);
                let l = if sym == Supp { 5 } else { l };
                let base = valid_word(sym, l, 3);
                for p in [0, l / 2, l - 1] {
                    let pre: String = base[..p].iter().collect();
                    let post: String = base[p + 1..].iter().collect();
                    let mut s = String::new();
                    for u in b * 256..(b + 1) * 256 {
                        if let Some(c) = char::from_u32(u as u32) {
                            s.clear();
                            s.push_str(&pre);
                            s.push(c);
                            s.push_str(&post);
                            w.states += 1;
                            w.transitions += 1;
                            w.sym(sym, 0, &s);
                            // alone
                            if p == l / 2 && sym.len_ok(1) {
                                s.clear();
                                s.push(c);
                                w.sym(sym, 0, &s);
                            }
                        }
                    }
                }
            }
        },
    );
    // Two bad or good characters anywhere in short fixed-length data.
    let ascii: Vec<char> = (32..127u8).map(|c| c as char).collect();
    for sym in [Ean13, Upca, Ean8, Supp] {
        for l in ok_lens(sym) {
            let base = valid_word(sym, l, 2);
            hamming(ctx, &format!("{}: two ASCII substitutions", sym.name()), &[base], &ascii, ctx.qt(2, 2), |w, s| {
                w.sym(sym, 0, s)
            });
        }
    }
    // Valid data: no panic, accepted, for digit-heavy long words.
    ctx.par("uniform words", "length 1..256 x every character", 256 * 11, 4, |w, i| {
        let (n, sym) = (i / 11 + 1, NON128[i % 11]);
        for c in sym.alphabet().chars() {
            w.states += 1;
            w.transitions += 1;
            w.sym(sym, 0, &c.to_string().repeat(n));
        }
    });
    // Far too long data, around every point where a narrower length would wrap into the valid range.
    let mut cases = vec![];
    for sym in NON128 {
        for k in [8u32, 9, 10, 12, 16, 20, 24] {
            let b = 1u64 << k;
            for d in ok_lens(sym).into_iter().flat_map(|l| [l as u64, l as u64 + 1]).chain([0]) {
                cases.push(rep(sym, b + d));
                if k <= 12 {
                    cases.push(rep(sym, b.saturating_sub(d)));
                }
            }
        }
    }
    ctx.list("lengths beyond 2^8..2^24", "all allowed lengths plus powers of two", &cases);
    let huge: Vec<Case> = if ctx.quick() {
        vec![rep(Ean13, (1 << 32) + 12)]
    } else {
        NON128
            .iter()
            .flat_map(|&s| ok_lens(s).into_iter().take(2).map(move |l| rep(s, (1 << 32) + l as u64)))
            .collect()
    };
    // 4 GiB each: one at a time, in a process of its own, so that a check order that walks the whole
    // string first is merely slow. Only a wrong verdict counts.
    let skipped = std::sync::atomic::AtomicU64::new(0);
    ctx.par("lengths beyond 2^32", "2^32 + allowed length", 1, 1, |w, _| {
        for c in &huge {
            match crate::judge_apart(&ctx.prop, c, 100) {
                crate::Apart::Holds => {
                    w.states += 1;
                    w.transitions += 1;
                    w.execs += 1;
                }
                crate::Apart::Violated(m) => w.ctx.violation(c.clone(), m),
                crate::Apart::Unknown(_) => {
                    skipped.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
                }
            }
        }
    });
    ctx.extra.lock().unwrap().push((
        "huge_strings_without_answer".into(),
        crate::json::J::num(skipped.into_inner()),
    ));
}

/// The data begins at every address modulo 16.
pub fn addresses(ctx: &Ctx) {
    let c128 = &[Code128][..];
    let syms: &[Sym] = match &ctx.prop[..] {
        "C01" => &[Ean13],
        "C02" => &[Upca],
        "C03" => &[Ean8],
        "C04" => &[Supp],
        "C05" => &[Ean13, Upca, Ean8],
        "C06" => &[Code39, Code39C],
        "C07" => &[Code93],
        "C08" => &[Code11],
        "C09" => &[Codabar],
        "C10" => &[Itf],
        "C11" => &[Stf],
        "C12" | "C13" => c128,
        "C14" => &NON128,
        _ => return,
    };
    let foreign = matches!(&ctx.prop[..], "C13" | "C14");
    let most = ctx.qt(100, 256);
    ctx.par(
        "addresses",
        &format!("address modulo 16 x allowed lengths to {} x words{}", most, if foreign { " x one foreign character at every position" } else { "" }),
        16 * (most + 1),
        4,
        |w, i| {
            let (off, n) = ((i % 16) as u8, i / 16);
            for &sym in syms {
                for seed in 0..4 {
                    let word: Vec<char> = match sym {
                        // Selector, then n characters of its set; an even number in set C.
                        Code128 => {
                            let (sel, from) = [(SEL_A, ' '), (SEL_B, 'a'), (SEL_C, '0'), (SEL_A, '\0')][seed];
                            let m = if sel == SEL_C { n + n % 2 } else { n };
                            let mut v = vec![sel];
                            v.extend((0..m).map(|k| (from as u8 + (k * 3 % 10) as u8) as char));
                            v
                        }
                        _ => valid_word(sym, n, seed * 2 + 1),
                    };
                    let mut go = |v: &[char]| {
                        w.states += 1;
                        w.transitions += 1;
                        let case = Case::Sym { sym, via: 0, data: v.iter().collect() };
                        w.case(&Case::Placed { off, case: Box::new(case) });
                    };
                    go(&word);
                    if foreign && seed < 2 && (n <= 40 || n % 16 <= 1) {
                        for p in 0..word.len() {
                            for c in ['?', '\u{80}', 'é', 'x', '5'] {
                                let mut v = word.clone();
                                v[p] = c;
                                go(&v);
                            }
                        }
                    }
                }
            }
        },
    );
}

fn rep(sym: Sym, n: u64) -> Case {
    Case::Rep {
        sym,
        pre: String::new(),
        unit: sym.alphabet()[1..2].to_string(),
        count: n,
        post: String::new(),
    }
}

// ------------------------------------------------------------ Codabar known findings

/// Uses the recorded wrong patterns for characters listed as known findings, if the code still has
/// them. Returns the lines to report.
pub fn probe_codabar(known: &[(char, Vec<u8>)]) -> Vec<String> {
    let t = refs::tables_std();
    let mut over = vec![];
    let mut lines = vec![];
    for (c, alt) in known {
        let std = &t[CODA.find(*c).expect("codabar character")];
        if let Ok(Ok(b)) = crate::imp::encode(Codabar, 0, &c.to_string()) {
            if b == *alt && b != *std {
                over.push((*c, alt.clone()));
                lines.push(format!(
                    "KNOWN-FINDING: property=C09 Codabar character {:?} is drawn {} instead of the standard {}",
                    c,
                    crate::imp::show(alt),
                    crate::imp::show(std)
                ));
            }
        }
    }
    let _ = refs::CODA_OVERRIDE.set(over);
    lines
}
