//! What is explored for the generator properties C15-C21 and C24.

use crate::case::*;
use crate::engine::Ctx;
use crate::imp::{Fmt, Rgba4, FMTS};
use crate::refs::{self, mod10, Sym};

const COLS: [(Rgba4, Rgba4); 4] = [
    (BLACK, WHITE),
    ([255, 0, 16, 255], [0, 200, 255, 255]),
    ([1, 2, 3, 0], [1, 2, 3, 128]),
    ([250, 128, 9, 77], [5, 6, 7, 0]),
];

/// The binary word with index i in length-lexicographic order.
fn word(i: usize) -> Vec<u8> {
    let n = (i + 1).ilog2() as usize;
    let v = i + 1 - (1 << n);
    (0..n).rev().map(|k| (v >> k & 1) as u8).collect()
}

/// Parameter lattice: all words up to a length, all values of every setting. A state is one point;
/// transitions are single steps (append a module, next value of one setting).
#[allow(clippy::too_many_arguments)]
fn lattice(ctx: &Ctx, name: &str, kinds: &[Kind], maxlen: usize, hs: &[u64], xs: &[u64], rots: &[u8], cols: &[(Rgba4, Rgba4)]) {
    let nw = (1usize << (maxlen + 1)) - 1;
    let bound = format!(
        "all {} words of <= {} modules x {} kinds x heights {:?} x xdims {:?} x {} rotations x {} colour pairs",
        nw,
        maxlen,
        kinds.len(),
        hs,
        xs,
        rots.len(),
        cols.len()
    );
    ctx.par(name, &bound, nw, 4, |w, i| {
        let bits = word(i);
        if bits.is_empty() && kinds[0] == FILES[0] {
            return; // the empty barcode has no file (C20)
        }
        for (ki, &k) in kinds.iter().enumerate() {
            for (hi, &h) in hs.iter().enumerate() {
                for (xi, &x) in xs.iter().enumerate() {
                    for (ri, &r) in rots.iter().enumerate() {
                        for (ci, &(fg, bg)) in cols.iter().enumerate() {
                            w.states += 1;
                            w.transitions += 2 * (bits.len() < maxlen) as u64
                                + (ki + 1 < kinds.len()) as u64
                                + (hi + 1 < hs.len()) as u64
                                + (xi + 1 < xs.len()) as u64
                                + (ri + 1 < rots.len()) as u64
                                + (ci + 1 < cols.len()) as u64;
                            w.case(&Case::Gen(Gen::new(k, &bits, h, x).colors(fg, bg).rot(r)));
                        }
                    }
                }
            }
        }
    });
}

fn patterns(n: usize) -> Vec<Vec<u8>> {
    vec![
        vec![1; n],
        vec![0; n],
        (0..n).map(|i| (i % 2) as u8).collect(),
        (0..n).map(|i| (i == 0 || i + 1 == n) as u8).collect(),
        (0..n).map(|i| (i * i % 7 < 3) as u8).collect(),
    ]
}

/// One-dimensional sweeps: length, height and xdim each through a long range.
fn sweeps(ctx: &Ctx, kinds: &[Kind], lens: &[usize], hs: &[u64], xs: &[u64], rots: &[u8]) {
    let mut cases = vec![];
    let small = [vec![1u8], vec![0, 1], vec![1, 0, 1, 1, 0]];
    for &k in kinds {
        let rs: &[u8] = if matches!(k, Kind::Buf(_) | Kind::File(_)) { rots } else { &[0] };
        for &r in rs {
            for &n in lens {
                for p in patterns(n) {
                    cases.push(Gen::new(k, &p, 1, 1).rot(r));
                    if n <= 700 {
                        cases.push(Gen::new(k, &p, 3, 2).rot(r));
                    }
                }
            }
            for &h in hs {
                for b in &small {
                    cases.push(Gen::new(k, b, h, 1).rot(r));
                }
            }
            for &x in xs {
                for b in &small {
                    cases.push(Gen::new(k, b, 1, x).rot(r));
                }
                if x <= 200 {
                    cases.push(Gen::new(k, &small[2], 4, x).rot(r));
                }
            }
        }
    }
    let cases: Vec<Case> = cases.into_iter().map(Case::Gen).collect();
    ctx.par(
        "sweeps of length, height, xdim",
        &format!("{} lengths, {} heights, {} xdims", lens.len(), hs.len(), xs.len()),
        cases.len(),
        4,
        |w, i| {
            w.states += 1;
            w.transitions += 1;
            w.case(&cases[i]);
        },
    );
}

/// One deviating module at every position of long barcodes.
fn deviations(ctx: &Ctx, kinds: &[Kind], n: usize) {
    ctx.par("one deviating module", &format!("every position of {} modules", n), n, 4, |w, p| {
        for &k in kinds {
            for back in 0..2u8 {
                for len in [n, n - 1] {
                    let mut v = vec![back; len];
                    if p < len {
                        v[p] = 1 - back;
                    }
                    w.states += 1;
                    w.transitions += 1;
                    w.case(&Case::Gen(Gen::new(k, &v, 2, 1)));
                }
            }
        }
    });
}

fn around(marks: &[u64]) -> Vec<u64> {
    let mut v: Vec<u64> = marks.iter().flat_map(|m| [m.saturating_sub(1), *m, m.saturating_add(1)]).collect();
    v.sort();
    v.dedup();
    v
}

fn upto(n: u64, marks: &[u64]) -> Vec<u64> {
    let mut v: Vec<u64> = (0..=n).chain(around(marks)).collect();
    v.sort();
    v.dedup();
    v
}

fn usz(v: &[u64]) -> Vec<usize> {
    v.iter().map(|x| *x as usize).collect()
}

/// Length, xdim and height together: every triple of marks whose picture has at most `cap` cells.
fn grid(ctx: &Ctx, kinds: &[Kind], cap: u64, rots: &[u8], cols: &[(Rgba4, Rgba4)]) {
    let ns = [1usize, 3, 17, 95, 257, 600, 1000, 3000, 10_000];
    let ms = [1u64, 2, 5, 8, 9, 16, 17, 33, 64, 100, 129, 257, 300, 600, 1000, 1025, 2049, 4097, 5000, 10_000];
    let mut cases = vec![];
    for &n in &ns {
        for &x in &ms {
            for &h in &ms {
                if n as u64 * x * h > cap {
                    continue;
                }
                for &k in kinds {
                    for &r in rots {
                        for &(fg, bg) in cols {
                            for p in [2, 4] {
                                cases.push(Case::Gen(Gen::new(k, &patterns(n)[p], h, x).rot(r).colors(fg, bg)));
                            }
                        }
                    }
                }
            }
        }
    }
    ctx.par(
        "length x xdim x height",
        &format!("all triples of {} lengths, {} xdims and {} heights with <= {} cells", ns.len(), ms.len(), ms.len(), cap),
        cases.len(),
        2,
        |w, i| {
            w.states += 1;
            w.transitions += 1;
            w.case(&cases[i]);
        },
    );
}

/// Every word of `k` modules at the start, in the middle and at the end of long barcodes; every word of
/// `k` modules next to every other (a de Bruijn sequence); every three runs of up to `r` modules.
fn windows(ctx: &Ctx, kinds: &[Kind], k: usize, lens: &[usize], r: usize) {
    let n = 1usize << k;
    ctx.par("every window", &format!("all words of {} modules at 3 places of {:?} modules on 3 grounds", k, lens), n, 4, |w, i| {
        let word: Vec<u8> = (0..k).map(|b| (i >> b & 1) as u8).collect();
        for &kind in kinds {
            for &len in lens {
                for (g, place) in [(0, 0), (1, 1), (2, 2), (0, 2), (1, 2)] {
                    let mut v = match g {
                        0 => vec![0u8; len],
                        1 => vec![1; len],
                        _ => (0..len).map(|i| (i * i % 7 < 3) as u8).collect(),
                    };
                    let at = [0, len / 2 - 3, len - k][place];
                    v[at..at + k].copy_from_slice(&word);
                    w.states += 1;
                    w.transitions += 1;
                    let mut g = Gen::new(kind, &v, 1 + (i % 2) as u64, 1);
                    if matches!(kind, Kind::Buf(_) | Kind::File(_)) {
                        g = g.rot((i / 2 % 4) as u8).colors(COLS[1].0, COLS[1].1);
                    }
                    w.case(&Case::Gen(g));
                }
            }
        }
    });
    let mut cases = vec![];
    for k in 1..=k as u32 {
        let v = de_bruijn(k);
        for &kind in kinds {
            for x in [1, 2, 3] {
                cases.push(Case::Gen(Gen::new(kind, &v, 2, x)));
            }
        }
    }
    ctx.par("de Bruijn sequences", &format!("orders 1..{} x 3 xdims", k), cases.len(), 1, |w, i| {
        w.states += 1;
        w.transitions += 1;
        w.case(&cases[i]);
    });
    ctx.par("every three runs", &format!("runs of 1 to {} modules, both colours first", r), r * r, 4, |w, i| {
        for c in 1..=r {
            for first in 0..2u8 {
                let mut v = vec![first; i % r + 1];
                v.resize(v.len() + i / r + 1, 1 - first);
                v.resize(v.len() + c, first);
                for &kind in kinds {
                    w.states += 1;
                    w.transitions += 1;
                    w.case(&Case::Gen(Gen::new(kind, &v, 2, 1 + (c % 2) as u64)));
                }
            }
        }
    });
}

/// The lexicographically least cyclic sequence with every word of k bits once, unrolled.
fn de_bruijn(k: u32) -> Vec<u8> {
    // Prefer-one construction.
    let n = 1usize << k;
    let mut seen = vec![false; n];
    let mut v = vec![0u8; k as usize];
    let mut at = 0;
    seen[0] = true;
    loop {
        let one = (at << 1 | 1) & (n - 1);
        let zero = at << 1 & (n - 1);
        let (b, next) = if !seen[one] { (1, one) } else { (0, zero) };
        if b == 0 && seen[zero] {
            return v;
        }
        seen[next] = true;
        v.push(b);
        at = next;
    }
}

/// Pictures that are large both ways.
fn pictures(ctx: &Ctx, kinds: &[Kind]) {
    let shapes = ctx.qt(
        vec![(4200u64, 2100u64), (2100, 4200), (9000, 1100), (1100, 9000)],
        vec![(4200, 4200), (9000, 4200), (4200, 9000), (16384, 4100), (4100, 16384), (2100, 2100)],
    );
    let mut cases = vec![];
    for &(w, h) in &shapes {
        for x in [1u64, 7, 50, 700] {
            for &k in kinds {
                for r in 0..4u8 {
                    if ctx.quick() && matches!(k, Kind::File(_)) && (r as u64 + w + x) % 4 != 0 {
                        continue;
                    }
                    cases.push(Case::Gen(Gen::new(k, &patterns((w / x) as usize)[4], h, x).rot(r).colors(COLS[1].0, COLS[1].1)));
                }
            }
        }
    }
    ctx.par("large pictures", &format!("{:?} x 4 xdims", shapes), cases.len(), 1, |w, i| {
        w.states += 1;
        w.transitions += 1;
        w.case(&cases[i]);
    });
}

pub fn ascii(ctx: &Ctx) {
    let k = [Kind::Ascii];
    lattice(ctx, "modules x height x xdim", &k, ctx.qt(13, 15), &[0, 1, 2, 3, 4, 10], &[0, 1, 2, 3, 4], &[0], &COLS[..1]);
    let m = [256, 512, 1024, 4096, 8192, 32768, 65536];
    let big = ctx.qt(vec![100_000u64], vec![100_000, 131_072, 262_144, 1 << 20]);
    let l = usz(&upto(ctx.qt(700, 3000), &m[..]));
    let mut s = upto(ctx.qt(1200, 5000), &m[..]);
    s.extend(around(&big));
    sweeps(ctx, &k, &l, &s, &s, &[0]);
    grid(ctx, &k, ctx.qt(4_000_000, 60_000_000), &[0], &COLS[..1]);
    windows(ctx, &k, ctx.qt(16, 19), &[70, 600, 1100], ctx.qt(80, 200));
    addresses(ctx, &k, ctx.qt(40, 90));
    deviations(ctx, &k, ctx.qt(400, 1500));
    let wide = [(1, 1 << 24, 1), (3, (1 << 23) + 1, 1), (4099, 4097, 1), (257, 65_537, 1), (1, 1, (1 << 22) + 1), (20_001, 850, 1)];
    long_and_wide(ctx, &k, ctx.qt(&[262_145, 1_048_577], &[262_145, 1_048_577, 16_777_217]), &wide, &[0]);
}

pub fn json(ctx: &Ctx) {
    let k = [Kind::Json];
    lattice(ctx, "modules x height x xdim", &k, ctx.qt(14, 17), &[0, 1, 10, 80], &[0, 1, 3], &[0], &COLS[..1]);
    let m: Vec<u64> = (1..64).map(|i| 1u64 << i).chain((1..20).map(|i| 10u64.pow(i))).chain([u64::MAX - 1]).collect();
    let nums = upto(ctx.qt(3000, 30000), &m);
    let l = usz(&upto(ctx.qt(1500, 5000), &[4096, 8192, 16384, 32768, 65536]));
    sweeps(ctx, &k, &l, &nums, &nums, &[0]);
    grid(ctx, &k, u64::MAX, &[0], &COLS[..1]);
    // height and xdim together
    let pts: Vec<u64> = upto(12, &m).into_iter().filter(|x| *x < 13 || x.is_power_of_two() || *x == u64::MAX).collect();
    let mut cases = vec![];
    for &h in &pts {
        for &x in &pts {
            cases.push(Case::Gen(Gen::new(Kind::Json, &[1, 0, 1], h, x)));
        }
    }
    ctx.par("height x xdim pairs", &format!("{} values each", pts.len()), cases.len(), 16, |w, i| {
        w.states += 1;
        w.transitions += 1;
        w.case(&cases[i]);
    });
    windows(ctx, &k, ctx.qt(16, 19), &[70, 600, 1100], ctx.qt(80, 200));
    addresses(ctx, &k, ctx.qt(40, 90));
    deviations(ctx, &k, ctx.qt(400, 1500));
    long_and_wide(ctx, &k, ctx.qt(&[262_145, 1_048_577], &[262_145, 1_048_577, 4_194_305]), &[], &[0]);
}

/// The modules begin at every address modulo 16.
fn addresses(ctx: &Ctx, kinds: &[Kind], most: usize) {
    ctx.par("addresses", &format!("address modulo 16 x 0..{} modules x one, two or no 1 among 0s and the reverse", most), 16 * (most + 1), 4, |w, i| {
        let (off, n) = ((i % 16) as u8, i / 16);
        let mut words = vec![vec![0u8; n]];
        for a in 0..n {
            let mut v = vec![0u8; n];
            v[a] = 1;
            words.push(v.clone());
            if a * 2 + 1 != n && a < n / 2 {
                v[n - 1 - a] = 1;
                words.push(v);
            }
        }
        let inverse: Vec<Vec<u8>> = words.iter().map(|v| v.iter().map(|b| 1 - b).collect()).collect();
        words.extend(inverse);
        for &k in kinds {
            for v in &words {
                for (h, x) in [(2, 1), (1, 3)] {
                    w.states += 1;
                    w.transitions += 1;
                    w.case(&Case::Placed { off, case: Box::new(Case::Gen(Gen::new(k, v, h, x))) });
                }
            }
        }
    });
}

/// Every value of every colour channel, foreground and background; every pair of alphas.
fn color_sweep(ctx: &Ctx, kinds: &[Kind], alpha_pairs: bool) {
    let bits = [1u8, 0, 1, 1, 0];
    let vals: Vec<u8> = vec![0, 1, 9, 10, 15, 16, 99, 100, 127, 128, 159, 160, 171, 250, 254, 255];
    let mut cols: Vec<(Rgba4, Rgba4)> = vec![];
    for which in 0..2 {
        for ch in 0..4 {
            for v in 0..=255u8 {
                for (f0, b0) in [([10, 171, 205, 255], [254, 0, 99, 255]), ([0, 0, 0, 255], [0, 0, 0, 0])] {
                    let (mut f, mut b): (Rgba4, Rgba4) = (f0, b0);
                    if which == 0 {
                        f[ch] = v
                    } else {
                        b[ch] = v
                    }
                    cols.push((f, b));
                }
            }
        }
    }
    for &a in &vals {
        for &b in &vals {
            for &c in &vals {
                cols.push(([a, b, c, 255], [c, a, b, 255]));
                cols.push(([a, b, 7, c], [a, b, 7, 255 - c]));
            }
        }
    }
    if alpha_pairs {
        for a in 0..=255u8 {
            for b in 0..=255u8 {
                cols.push(([1, 22, 173, a], [201, 2, 3, b]));
            }
        }
    } else {
        for &a in &vals {
            for &b in &vals {
                cols.push(([1, 22, 173, a], [1, 22, 173, b]));
                cols.push(([1, 22, 173, a], [201, 2, 3, b]));
            }
        }
    }
    cols.sort();
    cols.dedup();
    ctx.par(
        "colours",
        &format!("{} colour pairs: every value of each channel{}", cols.len(), if alpha_pairs { ", every pair of alphas" } else { "" }),
        cols.len(),
        16,
        |w, i| {
            for &k in kinds {
                w.states += 1;
                w.transitions += 1;
                w.case(&Case::Gen(Gen::new(k, &bits, 2, 1).colors(cols[i].0, cols[i].1)));
            }
        },
    );
}

/// Namespaces of every length.
fn long_names(ctx: &Ctx) -> Vec<String> {
    let m: Vec<u64> = (9..ctx.qt(19, 23)).map(|i| 1u64 << i).chain([1000, 2000, 2083, 5000, 10_000, 100_000]).collect();
    upto(ctx.qt(300, 3000), &m)
        .into_iter()
        .flat_map(|n| {
            let n = n as usize;
            let varied: String = (0..n).map(|i| (b'a' + (i * 7 % 26) as u8) as char).collect();
            [varied, "\u{e9}".repeat(n)]
        })
        .collect()
}

/// Barcodes of many modules, and bars of many pixels in all.
fn long_and_wide(ctx: &Ctx, kinds: &[Kind], lens: &[usize], wide: &[(usize, u64, u64)], rots: &[u8]) {
    let mut cases = vec![];
    for &k in kinds {
        for &n in lens {
            for p in [4, 2] {
                cases.push((k, n, p, 1, 1, 0));
            }
        }
        for &(n, x, h) in wide {
            for &r in rots {
                cases.push((k, n, 4, h, x, r));
            }
        }
    }
    ctx.par("very long and very wide", &format!("up to {} modules; modules x xdim x height: {:?}", lens.last().unwrap_or(&0), wide), cases.len(), 1, |w, i| {
        let (k, n, p, h, x, r) = cases[i];
        w.states += 1;
        w.transitions += 1;
        w.case(&Case::Gen(Gen::new(k, &patterns(n)[p], h, x).rot(r).colors(COLS[1].0, COLS[1].1)));
    });
}

pub fn svg(ctx: &Ctx) {
    let k = [Kind::Svg];
    lattice(ctx, "modules x height x xdim x colours", &k, ctx.qt(11, 14), &[0, 1, 2, 80], &[0, 1, 2, 3], &[0], &COLS);
    color_sweep(ctx, &k, true);
    let m: Vec<u64> = (8..32).map(|i| 1u64 << i).chain([u32::MAX as u64 - 1]).collect();
    let nums: Vec<u64> = upto(ctx.qt(1200, 10000), &m).into_iter().filter(|x| *x <= u32::MAX as u64).collect();
    let l = usz(&upto(ctx.qt(700, 3000), &[4096, 8192, 65536]));
    sweeps(ctx, &k, &l, &nums, &nums, &[0]);
    grid(ctx, &k, u64::MAX, &[0], &COLS[..2]);
    windows(ctx, &k, ctx.qt(13, 16), &[70, 600], ctx.qt(50, 100));
    addresses(ctx, &k, ctx.qt(40, 90));
    deviations(ctx, &k, ctx.qt(400, 1500));
    // Large offsets: every xdim mark times every position.
    let mut cases = vec![];
    for &x in &nums {
        if x < 1000 {
            continue;
        }
        for n in [2usize, 3, 50, 257, 1000] {
            for p in [0, n / 2, n - 1] {
                let mut v = vec![0u8; n];
                v[p] = 1;
                cases.push(Case::Gen(Gen::new(Kind::Svg, &v, u32::MAX as u64, x)));
            }
        }
    }
    ctx.par("large offsets", "xdim >= 1000 x lengths x positions", cases.len(), 8, |w, i| {
        w.states += 1;
        w.transitions += 1;
        w.case(&cases[i]);
    });
    long_and_wide(ctx, &k, ctx.qt(&[100_000, 262_145], &[100_000, 262_145, 1_048_577, 4_194_305]), &[], &[0]);
    // Namespaces: every printable ASCII character that is legal unescaped, and some words.
    let mut ns: Vec<String> = (32..127u8)
        .map(|c| c as char)
        .filter(|c| !"&<\"".contains(*c))
        .flat_map(|c| [c.to_string(), format!("http://{}x{}{}", c, c, c)])
        .collect();
    ns.extend(
        [
            "", " ", "http://www.w3.org/2000/svg", "http://www.w3.org/1999/xhtml", "{}", "{0}", "%s", "ü", "日本語", "😀",
            "a/>b", "viewBox='0 0 9 9'", "x y", "xmlns", "'", "urn:uuid:0",
            "&amp;", "a&amp;b", "http://x/?a=1&amp;b=2", "&lt;", "&quot;", "&apos;", "&gt;", "&#65;", "&#x26;", "&amp;amp;", "&amp;lt;", "\\", "\\n",
            "$0", "{x}", "{{}}", "http://x/%20y", "http://x/#a", "HTTP://X", "http://x/ ", " http://x/",
        ]
        .map(String::from),
    );
    ns.extend(long_names(ctx).into_iter().filter(|n| n.len() > 4000 || n.len() % 16 < 3));
    // What a template might take for its own.
    let names = [
        "width", "height", "viewBox", "version", "fill", "fill-opacity", "opacity", "rect", "rects", "svg", "x", "y", "w", "h", "s", "r", "xdim",
        "xmlns", "ns", "foreground", "background", "fg", "bg", "bars", "body", "content", "offset", "color", "hex", "style", "barcode", "data",
        "namespace", "attrs", "path", "d", "inner", "size", "len", "modules", "1.00", "1.1", "0",
    ];
    let mut holes: Vec<String> = names.iter().map(|n| n.to_string()).collect();
    let small: Vec<char> = ('a'..='z').chain('0'..='9').collect();
    holes.extend(small.iter().flat_map(|a| small.iter().map(move |b| format!("{}{}", a, b))));
    holes.extend(small.iter().map(|a| a.to_string()));
    let mut bulk = vec![];
    for n in &holes {
        for u in [n.clone(), n.to_uppercase()] {
            for (a, b) in [("{", "}"), ("{{", "}}"), ("${", "}"), ("$", ""), ("%", "%"), ("%", ""), ("@", "@"), ("__", "__"), ("[", "]"), ("#{", "}"), (":", ""), ("", "='1'"), ("(", ")")] {
                bulk.push(format!("{}{}{}", a, u, b));
            }
        }
    }
    let odd: Vec<char> = "{}$%0s:/' >".chars().collect();
    for i in 0..odd.len().pow(4) {
        let mut x = i;
        let mut t = String::new();
        for _ in 0..4 {
            t.push(odd[x % odd.len()]);
            x /= odd.len();
        }
        bulk.push(t);
    }
    bulk.sort();
    bulk.dedup();
    ctx.par("namespaces like templates", &format!("{} namespaces", bulk.len()), bulk.len(), 64, |w, i| {
        for xmlns in [bulk[i].clone(), format!("urn:{}:x", bulk[i])] {
            let mut g = Gen::new(Kind::Svg, &[0, 1, 1, 0, 1], 80, 2).colors(COLS[1].0, COLS[1].1);
            g.xmlns = Some(xmlns);
            w.states += 1;
            w.transitions += 1;
            w.case(&Case::Gen(g));
        }
    });
    let mut cases = vec![];
    for n in &ns {
        for bits in [vec![], vec![1u8], vec![0, 1, 1, 0, 1]] {
            for (x, h) in [(1, 1), (2, 80), (0, 0)] {
                for (fg, bg) in COLS {
                    let mut g = Gen::new(Kind::Svg, &bits, h, x).colors(fg, bg);
                    g.xmlns = Some(n.clone());
                    cases.push(Case::Gen(g));
                }
            }
        }
    }
    ctx.par("namespaces", &format!("{} namespaces x words x sizes x colours", ns.len()), cases.len(), 16, |w, i| {
        w.states += 1;
        w.transitions += 1;
        w.case(&cases[i]);
    });
}

fn bufs() -> Vec<Kind> {
    FMTS.iter().map(|f| Kind::Buf(*f)).collect()
}
const FILES: [Kind; 3] = [Kind::File(Fmt::Png), Kind::File(Fmt::Gif), Kind::File(Fmt::Webp)];

pub fn buffer(ctx: &Ctx) {
    let k = bufs();
    lattice(ctx, "modules x height x xdim x rotation x colours", &k, ctx.qt(9, 11), &[0, 1, 2, 3, 7], &[0, 1, 2, 3], &[0, 1, 2, 3], &COLS);
    color_sweep(ctx, &k, false);
    let m = [256, 512, 1024, 4096, 16384, 32768, 65536];
    let l = usz(&upto(ctx.qt(300, 1500), &m));
    let s = upto(ctx.qt(300, 1500), &m);
    sweeps(ctx, &k, &l, &s, &s, &[0, 1, 2, 3]);
    grid(ctx, &k, ctx.qt(1_000_000, 20_000_000), &[0, 1, 2, 3], &COLS[1..2]);
    pictures(ctx, &k);
    windows(ctx, &k, ctx.qt(13, 16), &[70, 600], ctx.qt(40, 80));
    addresses(ctx, &k, ctx.qt(24, 90));
    deviations(ctx, &k, ctx.qt(200, 600));
    let wide = [
        (1, (1 << 24) + 1, 1),
        (3, 5_592_407, 1),
        (2000, 4093, 1),
        (4099, 4097, 1),
        (257, 65_537, 1),
        (20_001, 850, 1),
        (1, 1, (1 << 24) + 1),
        (3, 1, 5_592_407),
    ];
    long_and_wide(ctx, &k[..1], ctx.qt(&[262_145, 16_777_219], &[262_145, 1_048_577, 16_777_219, 67_108_867]), &wide, &[0, 1, 2, 3]);
    // Larger settings together.
    lattice(ctx, "larger heights and xdims", &k[..1], ctx.qt(5, 7), &[10, 50, 101], &[5, 10, 17], &[0, 1, 2, 3], &COLS[1..2]);
}

pub fn files(ctx: &Ctx) {
    let k = FILES;
    lattice(ctx, "modules x height x xdim x rotation x colours", &k, ctx.qt(7, 9), &[1, 2, 5], &[1, 2, 3], &[0, 1, 2, 3], &COLS);
    color_sweep(ctx, &k, true);
    let m = [256, 512, 1024, 4096, 8192];
    let l: Vec<usize> = usz(&upto(ctx.qt(120, 600), &m)).into_iter().filter(|x| *x > 0).collect();
    let s: Vec<u64> = upto(ctx.qt(120, 600), &m).into_iter().filter(|x| *x > 0).collect();
    sweeps(ctx, &k, &l, &s, &s, ctx.qt(&[0, 1], &[0, 1, 2, 3]));
    pictures(ctx, &k);
    grid(ctx, &k, ctx.qt(200_000, 3_000_000), ctx.qt(&[0, 1], &[0, 1, 2, 3]), &COLS[1..2]);
    windows(ctx, &k, ctx.qt(11, 14), &[70, 600], ctx.qt(24, 60));
    addresses(ctx, &k, ctx.qt(20, 90));
    deviations(ctx, &k, ctx.qt(130, 400));
    lattice(ctx, "larger heights and xdims", &k, ctx.qt(4, 6), &[10, 101], &[7, 17], &[0, 1, 2, 3], &COLS[1..3]);
    long_and_wide(ctx, &k[..1], &[262_145], &[(2000, 4093, 1), (257, 65_537, 1), (1, 1, (1 << 22) + 1), (3, 2_796_203, 1)], ctx.qt(&[0, 1], &[0, 1, 2, 3]));
    // Sides up to the format limits.
    let mut cases = vec![];
    for f in [Fmt::Gif, Fmt::Webp, Fmt::Png] {
        let lim = if f == Fmt::Png { 70000 } else { side_limit(f) };
        for side in [lim, lim - 1, lim / 2, lim / 2 + 1, 16383, 16384, 32767, 32768].into_iter().filter(|s| *s <= lim) {
            for r in 0..4 {
                for (fg, bg) in [COLS[1], COLS[3]] {
                    cases.push(Gen::new(Kind::File(f), &[1, 0, 1], side, 1).rot(r).colors(fg, bg));
                    cases.push(Gen::new(Kind::File(f), &patterns(side as usize)[4], 2, 1).rot(r).colors(fg, bg));
                    cases.push(Gen::new(Kind::File(f), &[1], 2, side).rot(r).colors(fg, bg));
                }
            }
        }
    }
    let cases: Vec<Case> = cases.into_iter().map(Case::Gen).collect();
    ctx.par("sides near the format limits", "GIF 65535, WEBP 16384, PNG 70000", cases.len(), 1, |w, i| {
        w.states += 1;
        w.transitions += 1;
        w.case(&cases[i]);
    });
}

pub fn limits(ctx: &Ctx) {
    let mut kinds = bufs();
    kinds.extend(FMTS.iter().map(|f| Kind::File(*f)));
    lattice(ctx, "small and empty images", &kinds, ctx.qt(4, 6), &[0, 1, 2, 3], &[0, 1, 2, 3], &[0, 1, 2, 3], &COLS[..2]);
    let mut cases = vec![];
    // Sides around every limit, reached through length, xdim and height.
    let mut sides: Vec<u64> = around(&[16384, 32768, 65535, 65536]);
    sides.extend([16385, 16386, 65537, 100_000, 131_072, 131_073]);
    sides.sort();
    sides.dedup();
    for &k in &kinds {
        for r in 0..4 {
            for &s in &sides {
                cases.push(Gen::new(k, &[1], s, 1).rot(r));
                cases.push(Gen::new(k, &[1], s, 0).rot(r));
                cases.push(Gen::new(k, &[], s, 3).rot(r));
                cases.push(Gen::new(k, &[1], 1, s).rot(r));
                cases.push(Gen::new(k, &[1], 0, s).rot(r));
                cases.push(Gen::new(k, &patterns(s as usize)[2], 1, 1).rot(r));
                cases.push(Gen::new(k, &patterns(s as usize)[2], 0, 1).rot(r));
                for d in [3u64, 5, 17, 257] {
                    if s % d == 0 {
                        cases.push(Gen::new(k, &patterns((s / d) as usize)[2], 1, d).rot(r));
                    }
                }
            }
            // Both sides over the limit.
            if matches!(k, Kind::File(_)) {
                cases.push(Gen::new(k, &[1, 0], 300, 8193).rot(r));
                cases.push(Gen::new(k, &[1, 0], 70000, 40).rot(r));
            }
            // Widths beyond 32 bits, including ones that wrap to a small or zero width.
            for (n, x) in [
                (2usize, 1u64 << 31),
                (3, 1 << 31),
                (2, u32::MAX as u64),
                (3, u32::MAX as u64),
                (4, 1 << 30),
                (5, 858_993_460),
                (5, 1 << 30),
                (1 << 16, 1 << 16),
                ((1 << 16) + 1, 1 << 16),
                (65537, 65535 + 2),
                (641, 6_700_417),
                (1 << 20, 4096),
                ((1 << 20) + 1, 4096),
                (95, 45_210_183),
                (95, u32::MAX as u64),
            ] {
                for h in [0u64, 1, 5] {
                    cases.push(Gen::new(k, &patterns(n)[2], h, x).rot(r));
                }
            }
            // Widths that just fit, without pixels.
            for (n, x) in [(1usize, u32::MAX as u64), (3, 1_431_655_765), (5, 858_993_459), (65535, 65537), (1, 1 << 31)] {
                cases.push(Gen::new(k, &patterns(n)[2], 0, x).rot(r));
            }
            // More pixels than the address space holds.
            for (n, x, h) in [
                (1usize, u32::MAX as u64, u32::MAX as u64),
                (1, 1 << 31, 1 << 31),
                (1, 1 << 31, u32::MAX as u64),
                (2, 1 << 30, 1 << 30),
                (3, 1_431_655_765, u32::MAX as u64),
                (1, u32::MAX as u64, 1 << 30),
            ] {
                cases.push(Gen::new(k, &patterns(n)[0], h, x).rot(r));
            }
        }
    }
    let cases: Vec<Case> = cases.into_iter().map(Case::Gen).collect();
    ctx.par("around every limit", "each limit by length, xdim and height; widths beyond 2^32; pixels beyond the address space", cases.len(), 1, |w, i| {
        w.states += 1;
        w.transitions += 1;
        w.case(&cases[i]);
    });
}

pub fn defaults(ctx: &Ctx) {
    let mut ops: Vec<(u8, u8)> = vec![];
    for (s, n) in [(0u8, SET_XDIM.len()), (1, SET_COL.len()), (2, SET_COL.len()), (3, SET_NS.len()), (4, 4)] {
        for v in 0..n {
            ops.push((s, v as u8));
        }
    }
    let depth = ctx.qt(5, 6);
    let k = ops.len();
    let total = (0..=depth).map(|d| k.pow(d as u32)).sum();
    ctx.par("setter sequences", &format!("all sequences of <= {} of {} setter calls, uses and copies", depth, k), total, 256, |w, i| {
        let (mut d, mut x) = (0u32, i);
        while x >= k.pow(d) {
            x -= k.pow(d);
            d += 1;
        }
        let mut o = vec![];
        for _ in 0..d {
            o.push(ops[x % k]);
            x /= k;
        }
        let h = [50u32, 0, 1, u32::MAX][i % 4];
        w.states += 1;
        w.transitions += 1;
        w.case(&Case::Setters { height: h, ops: o });
    });
    // Every value of a setter.
    let word = [1u8, 0, 1, 1, 0];
    let m: Vec<u64> = (8..32).map(|i| 1u64 << i).chain([u32::MAX as u64 - 1]).collect();
    let mut cases: Vec<Case> = vec![];
    let mut add = |h: u64, x: u64, fg: Rgba4, bg: Rgba4, ns: Option<String>| {
        let mut g = Gen::new(Kind::Svg, &word, h, x).colors(fg, bg);
        g.xmlns = ns;
        cases.push(Case::Gen(g));
    };
    for v in upto(ctx.qt(3000, 70_000), &m).into_iter().filter(|v| *v <= u32::MAX as u64) {
        add(80, v, BLACK, WHITE, None);
        add(v, 3, COLS[1].0, COLS[1].1, None);
    }
    for c in 0..4 {
        for d in 0..4 {
            for v in 0..=255u8 {
                for u in [0u8, 1, 9, 16, 127, 128, 200, 254, 255] {
                    for base in [[0u8, 0, 0, 255], [255, 255, 255, 0], [17, 34, 51, 128]] {
                        let (mut p, mut q) = (base, base);
                        p[c] = v;
                        p[d] = u;
                        q[d] = v;
                        q[c] = u;
                        add(9, 1, p, q, None);
                    }
                }
            }
        }
    }
    for ns in long_names(ctx) {
        add(9, 1, BLACK, WHITE, Some(ns));
    }
    for ns in (0..0x250u32).chain(0x2000..0x2070).chain([0xFEFF, 0xFFFD, 0x1F600]).filter_map(char::from_u32) {
        for t in [format!("{}", ns), format!("{}urn:x", ns), format!("urn:x{}", ns), format!("urn:{}x", ns), format!("{0}urn:x{0}{0}", ns)] {
            add(9, 1, BLACK, WHITE, Some(t));
        }
    }
    ctx.par("values set", "numbers, colours, namespaces of every length and with any character", cases.len(), 64, |w, i| {
        w.states += 1;
        w.transitions += 1;
        w.case(&cases[i]);
    });
    // The last set of values wins after long chains: every ordered pair repeated.
    let mut cases = vec![];
    for &a in &ops {
        for &b in &ops {
            for n in [3, 10, 50] {
                let mut o = vec![a; n];
                o.extend(vec![b; n]);
                o.push(a);
                cases.push(Case::Setters { height: 7, ops: o });
            }
        }
    }
    let hs: Vec<u64> = upto(ctx.qt(300, 2000), &[256, 1 << 10, 1 << 16, 1 << 24, 1 << 31, u32::MAX as u64 - 1]);
    for which in 0..13u8 {
        for &h in &hs {
            if which < 4 && h > 0 {
                continue;
            }
            cases.push(Case::Defaults { which, height: h as u32 });
        }
    }
    ctx.par("constructors, defaults, copies and long chains", &format!("{} heights", hs.len()), cases.len(), 8, |w, i| {
        w.states += 1;
        w.transitions += 1;
        w.case(&cases[i]);
    });
}

// ------------------------------------------------------------ C24

fn e2e_words(ctx: &Ctx, sym: Sym) -> Vec<String> {
    use Sym::*;
    let scale = ctx.qt(8, 80);
    let digits_word = |n: usize, seed: usize| -> String {
        (0..n).map(|i| (b'0' + ((seed * 7 + i * (seed % 9 + 1) + seed / 10) % 10) as u8) as char).collect()
    };
    let mut v = vec![];
    match sym {
        Ean13 | Upca | Ean8 => {
            let n = match sym {
                Ean13 => 12,
                Upca => 11,
                _ => 7,
            };
            for s in 0..30 * scale {
                let w = digits_word(n, s);
                if s % 3 == 0 {
                    let d: Vec<u8> = w.bytes().map(|b| b - b'0').collect();
                    v.push(format!("{}{}", w, mod10(&d)));
                } else {
                    v.push(w);
                }
            }
        }
        Supp => {
            for s in 0..15 * scale {
                v.push(digits_word(2, s));
                v.push(digits_word(5, s));
            }
        }
        Code128 => {
            for s in [
                "ÀA", "Ɓa", "Ć12", "ÀHELLO", "ƁHello, World!", "Ć123456", "ÀABCĆ1234ƁxyzÀ\0\u{1f}", "Ɓ\u{17D}\u{1}x", "À\u{17D}aB",
                "Ć\u{179}0112", "Ɓ\u{17C}é", "Ɓ\u{17C}e", "Ɓ~}|{", "Ɓ\u{7f}", "À_^]", "ÀƁaÀAĆ00", "Ɓ\u{17A}\u{17B}!", "Ć0099", "Ɓ0099",
            ] {
                v.push(s.to_string());
            }
            for s in 0..10 * scale {
                v.push(format!("Ć{}", digits_word(2 + s % 30 * 2, s)));
                v.push(format!("Ɓ{}", (0..1 + s % 40).map(|i| (32 + (s * 13 + i * 7) % 95) as u8 as char).collect::<String>()));
                v.push(format!("À{}", (0..1 + s % 40).map(|i| ((s * 13 + i * 5) % 96) as u8 as char).collect::<String>()));
            }
        }
        _ => {
            let a: Vec<char> = sym
                .alphabet()
                .chars()
                .filter(|c| sym != Codabar || !refs::CODA_OVERRIDE.get().is_some_and(|o| o.iter().any(|x| x.0 == *c)))
                .collect();
            for &c in &a {
                v.push(c.to_string());
                v.push(c.to_string().repeat(3));
            }
            for s in 0..12 * scale {
                let n = [2, 3, 7, 10, 11, 12, 25, 60][s % 8];
                v.push((0..n).map(|i| a[(s * 5 + i * (s % 7 + 1)) % a.len()]).collect());
            }
            v.push((0..256).map(|i| a[i % a.len()]).collect());
        }
    }
    v
}

pub fn end_to_end(ctx: &Ctx) {
    let mut items = vec![];
    for sym in refs::ALL {
        for d in e2e_words(ctx, sym) {
            items.push((sym, d));
        }
    }
    let mut kinds = vec![Kind::Ascii, Kind::Json, Kind::Svg];
    kinds.extend(bufs());
    kinds.extend(FILES);
    let cols = [COLS[0], COLS[1], (WHITE, BLACK), ([9, 9, 9, 255], [9, 9, 10, 255])];
    ctx.par(
        "encode, generate, scan",
        &format!("{} barcodes x {} outputs x sizes x rotations x {} colour pairs", items.len(), kinds.len(), cols.len()),
        items.len(),
        1,
        |w, i| {
            let (sym, data) = &items[i];
            for &k in &kinds {
                let image = matches!(k, Kind::File(_) | Kind::Buf(_));
                for (h, x) in [(1u64, 1u64), (2, 3), (5, 2)] {
                    if data.len() > 100 && k == Kind::File(Fmt::Webp) && x > 2 && h > 1 {
                        continue; // wider than WEBP allows for the longest data
                    }
                    for r in 0..if image { 4 } else { 1 } {
                        for (ci, &(fg, bg)) in cols.iter().enumerate() {
                            if matches!(k, Kind::Ascii | Kind::Json) && ci > 0 {
                                continue;
                            }
                            if matches!(k, Kind::File(_)) && ctx.quick() && ci != (h as usize + r as usize) % 4 {
                                continue;
                            }
                            w.states += 1;
                            w.transitions += 1;
                            w.case(&Case::E2e {
                                sym: *sym,
                                data: data.clone(),
                                gen: Gen::new(k, &[], h, x).colors(fg, bg).rot(r),
                            });
                        }
                    }
                }
            }
        },
    );
    // Long data, large settings, and both.
    let cyc = |p: &str, n: usize| -> String { p.chars().cycle().take(n).collect() };
    let mut long: Vec<(Sym, String)> = vec![];
    for n in [700, 1500, 3000, 5955, 6200] {
        long.push((Sym::Code128, format!("\u{181}{}", cyc("Az 9~bQ", n))));
        long.push((Sym::Code128, format!("\u{c0}{}", cyc("AZ 9\u{1}_", n))));
        long.push((Sym::Code128, format!("\u{106}{}", cyc("0199375", 2 * n))));
        long.push((Sym::Code128, format!("\u{106}{}\u{181}{}", cyc("0199375", n - n % 2), cyc("xY7", n / 2))));
    }
    for sym in refs::ALL {
        for (i, d) in e2e_words(ctx, sym).into_iter().enumerate() {
            if i % 8 == 3 || d.chars().count() > 100 {
                long.push((sym, d));
            }
        }
    }
    let mut cases = vec![];
    for (sym, d) in &long {
        let n = d.chars().count();
        for &k in &kinds {
            let image = matches!(k, Kind::File(_) | Kind::Buf(_));
            let lim = match k {
                Kind::File(f) => side_limit(f),
                _ => u32::MAX as u64,
            };
            let sizes: &[(u64, u64)] = match n {
                0..100 => &[(1, 7), (1, 10), (3, 50), (2, 101), (50, 1), (80, 1), (257, 1), (10, 4)],
                100..1000 => &[(1, 1), (2, 7), (1, 10), (1, 33), (40, 1)],
                _ => &[(1, 1), (2, 2), (1, 9), (3, 20)],
            };
            for (si, &(h, x)) in sizes.iter().enumerate() {
                let w = (n as u64 + 40) * 17 * x;
                for r in 0..if image { 4 } else { 1 } {
                    // Too wide for the format, or (in the quick tier) a large file.
                    if w > lim || (n >= 100 && matches!(k, Kind::File(_)) && ctx.quick() && (r as usize + si + n) % 4 != 0) {
                        continue;
                    }
                    let (fg, bg) = cols[(si + r as usize) % if image || k == Kind::Svg { 4 } else { 1 }];
                    cases.push(Case::E2e {
                        sym: *sym,
                        data: d.clone(),
                        gen: Gen::new(k, &[], h, x).colors(fg, bg).rot(r),
                    });
                }
            }
        }
    }
    ctx.par(
        "long data and large settings",
        &format!("{} barcodes of up to 6300 symbols x {} outputs x up to 8 sizes x rotations", long.len(), kinds.len()),
        cases.len(),
        1,
        |w, i| {
            w.states += 1;
            w.transitions += 1;
            w.case(&cases[i]);
        },
    );
}
