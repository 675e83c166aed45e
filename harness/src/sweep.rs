//! C22: long histories over many inputs that resemble each other. Whatever a call might keep (the last
//! result, a table of results under a key that loses something, a leftover of a refused input) meets,
//! directly before and directly after, every other input of its set. Each result is compared with what
//! the same call returns as the first one of a fresh process.

use crate::case::{Case, Gen, Kind, BLACK, WHITE};
use crate::hist::{board, forked, obj, Out, Viol};
use crate::imp::{self, catch, errbit, Fmt};
use crate::json::J;
use crate::refs::Sym;
use std::sync::atomic::Ordering::Relaxed;

/// One call: a case, or the same with an argument whose as_ref panics (the caller's fault, but it must
/// not be felt by later calls).
#[derive(Clone, PartialEq, Debug)]
pub struct Act {
    case: Case,
    panics: bool,
}

struct Bad;
impl AsRef<str> for Bad {
    fn as_ref(&self) -> &str {
        panic!("the caller's as_ref")
    }
}
impl AsRef<[u8]> for Bad {
    fn as_ref(&self) -> &[u8] {
        panic!("the caller's as_ref")
    }
}

fn flat<T>(r: Result<Result<T, u8>, String>, f: impl FnOnce(T) -> Out) -> Out {
    match r {
        Ok(Ok(t)) => {
            let mut v = f(t);
            v.insert(0, 0);
            v
        }
        Ok(Err(e)) => vec![e],
        Err(p) => {
            let mut v = vec![255];
            v.extend(p.bytes().take(160));
            v
        }
    }
}

impl Act {
    pub fn case(&self) -> &Case {
        &self.case
    }
    fn to_json(&self) -> J {
        match self.panics {
            true => J::Obj(vec![("as_ref panics".into(), self.case.to_json())]),
            false => self.case.to_json(),
        }
    }
    fn from_json(j: &J) -> Option<Act> {
        match j.get("as_ref panics") {
            Some(c) => Some(Act { case: Case::from_json(c)?, panics: true }),
            None => Some(Act { case: Case::from_json(j)?, panics: false }),
        }
    }
    fn run(&self) -> Out {
        match &self.case {
            Case::Sym { sym, .. } if self.panics => flat(
                catch(|| {
                    use barcoders::sym::*;
                    let r = match sym {
                        Sym::Ean13 => ean13::EAN13::new(Bad).map(|b| b.encode()),
                        Sym::Upca => upca::UPCA::new(Bad).map(|b| b.encode()),
                        Sym::Ean8 => ean8::EAN8::new(Bad).map(|b| b.encode()),
                        Sym::Supp => ean_supp::EANSUPP::new(Bad).map(|b| b.encode()),
                        Sym::Code39 => code39::Code39::new(Bad).map(|b| b.encode()),
                        Sym::Code39C => code39::Code39::with_checksum(Bad).map(|b| b.encode()),
                        Sym::Code93 => code93::Code93::new(Bad).map(|b| b.encode()),
                        Sym::Code11 => code11::Code11::new(Bad).map(|b| b.encode()),
                        Sym::Codabar => codabar::Codabar::new(Bad).map(|b| b.encode()),
                        Sym::Itf => tf::TF::interleaved(Bad).map(|b| b.encode()),
                        Sym::Stf => tf::TF::standard(Bad).map(|b| b.encode()),
                        Sym::Code128 => code128::Code128::new(Bad).map(|b| b.encode()),
                    };
                    r.map_err(errbit)
                }),
                |v| v,
            ),
            Case::Sym { sym, via, data } => flat(imp::encode(*sym, *via, data), |v| v),
            Case::Gen(g) => {
                let image = |f| imp::image(f, g.height as u32, g.xdim as u32, g.rot, g.fg, g.bg);
                use barcoders::generators as gen;
                match g.kind {
                    Kind::Ascii if self.panics => flat(
                        catch(|| {
                            let a = gen::ascii::ASCII { height: g.height as usize, xdim: g.xdim as usize };
                            a.generate(Bad).map_err(errbit)
                        }),
                        String::into_bytes,
                    ),
                    Kind::Json if self.panics => flat(
                        catch(|| {
                            let a = gen::json::JSON { height: g.height as usize, xdim: g.xdim as usize };
                            a.generate(Bad).map_err(errbit)
                        }),
                        String::into_bytes,
                    ),
                    Kind::Svg if self.panics => flat(
                        catch(|| {
                            let a = gen::svg::SVG::new(g.height as u32).xdim(g.xdim as u32);
                            a.generate(Bad).map_err(errbit)
                        }),
                        String::into_bytes,
                    ),
                    Kind::File(f) if self.panics => flat(catch(|| image(f).generate(Bad).map_err(errbit)), |v| v),
                    Kind::Buf(f) if self.panics => flat(
                        catch(|| image(f).generate_buffer(Bad).map(|b| b.into_raw()).map_err(errbit)),
                        |v| v,
                    ),
                    Kind::Ascii => flat(imp::gen_ascii(g.height as usize, g.xdim as usize, &g.bits), String::into_bytes),
                    Kind::Json => flat(imp::gen_json(g.height as usize, g.xdim as usize, &g.bits), String::into_bytes),
                    Kind::Svg => flat(
                        imp::gen_svg(g.height as u32, g.xdim as u32, g.fg, g.bg, g.xmlns.as_deref(), &g.bits),
                        String::into_bytes,
                    ),
                    Kind::File(f) => flat(imp::gen_file(&image(f), &g.bits), |v| v),
                    Kind::Buf(f) => flat(imp::gen_buf(image(f), &g.bits), |p| {
                        let mut v = vec![];
                        v.extend(p.w.to_le_bytes());
                        v.extend(p.h.to_le_bytes());
                        v.extend(p.px);
                        v
                    }),
                }
            }
            c => panic!("not a call: {:?}", c),
        }
    }
    fn name(&self) -> String {
        let mut s = self.to_json().text();
        if s.chars().count() > 300 {
            s = s.chars().take(300).collect::<String>() + "...";
        }
        s
    }
}

/// 128 bits of two unrelated mixings.
pub fn hash(v: &[u8]) -> [u64; 2] {
    let (mut a, mut b) = (0xcbf2_9ce4_8422_2325u64, 0x9e37_79b9_7f4a_7c15u64 ^ v.len() as u64);
    for c in v.chunks(8) {
        let mut w = [0; 8];
        w[..c.len()].copy_from_slice(c);
        let w = u64::from_le_bytes(w);
        a = (a ^ w).wrapping_mul(0x0000_0100_0000_01b3);
        a ^= a >> 29;
        b = (b.rotate_left(23) ^ w).wrapping_mul(0xff51_afd7_ed55_8ccd);
    }
    [a, b]
}

// ---------------------------------------------------------------- sets

fn sym(sym: Sym, data: &str) -> Act {
    Act { case: Case::Sym { sym, via: 0, data: data.into() }, panics: false }
}

struct Words(Vec<Vec<char>>);
impl Words {
    fn add(&mut self, w: &[char]) {
        self.0.push(w.to_vec())
    }
    fn text(&mut self, w: &str) {
        self.0.push(w.chars().collect())
    }
    /// Every word that differs from `w` in one position.
    fn substitute(&mut self, w: &[char], alphabet: &[char]) {
        for i in 0..w.len() {
            for &c in alphabet {
                if c != w[i] {
                    let mut v = w.to_vec();
                    v[i] = c;
                    self.0.push(v);
                }
            }
        }
    }
    fn transpose(&mut self, w: &[char]) {
        for i in 0..w.len() {
            for k in 0..i {
                let mut v = w.to_vec();
                v.swap(i, k);
                self.0.push(v);
            }
        }
    }
    /// Prefixes, suffixes, rotations, reversal, one left out, one doubled.
    fn reshape(&mut self, w: &[char]) {
        for i in 1..w.len() {
            self.add(&w[..i]);
            self.add(&w[i..]);
            let mut v = w.to_vec();
            v.rotate_left(i);
            self.0.push(v);
            let mut v = w.to_vec();
            v.remove(i);
            self.0.push(v);
            let mut v = w.to_vec();
            v.insert(i, w[i]);
            self.0.push(v);
        }
        let mut v = w.to_vec();
        v.reverse();
        self.0.push(v);
    }
    fn done(mut self, s: Sym) -> Vec<Act> {
        let mut seen = std::collections::HashSet::new();
        self.0.retain(|w| seen.insert(w.clone()));
        let mut v: Vec<Act> = self.0.iter().map(|w| sym(s, &w.iter().collect::<String>())).collect();
        v.push(Act { case: Case::Sym { sym: s, via: 0, data: String::new() }, panics: true });
        v
    }
}

fn cyc(alphabet: &[char], from: usize, step: usize, n: usize) -> Vec<char> {
    (0..n).map(|i| alphabet[(from + i * step) % alphabet.len()]).collect()
}

fn digits_of_length(s: Sym, n: usize) -> Vec<Act> {
    let d: Vec<char> = ('0'..='9').collect();
    let mut w = Words(vec![]);
    for c in 0..10 {
        w.add(&cyc(&d, c, 0, n));
    }
    for base in [cyc(&d, 1, 1, n), cyc(&d, 9, 9, n), cyc(&d, 0, 0, n), cyc(&d, 9, 0, n)] {
        w.substitute(&base, &d);
    }
    w.transpose(&cyc(&d, 1, 1, n));
    w.transpose(&cyc(&d, 9, 9, n));
    // With a check digit, right or wrong; too short; too long; refused at each position.
    for base in [cyc(&d, 1, 1, n), cyc(&d, 9, 9, n), cyc(&d, 5, 0, n)] {
        for &c in &d {
            let mut v = base.clone();
            v.push(c);
            w.add(&v);
        }
        for i in 0..n {
            w.add(&base[..i]);
            for bad in ['x', 'é', ' '] {
                let mut v = base.clone();
                v[i] = bad;
                w.add(&v);
            }
        }
        w.add(&base.repeat(2));
    }
    w.done(s)
}

fn supplements() -> Vec<Act> {
    let d: Vec<char> = ('0'..='9').collect();
    let mut w = Words(vec![]);
    for i in 0..100 {
        w.text(&format!("{:02}", i));
    }
    for base in [cyc(&d, 1, 1, 5), cyc(&d, 9, 9, 5), cyc(&d, 0, 0, 5), cyc(&d, 9, 0, 5)] {
        w.substitute(&base, &d);
        w.transpose(&base);
        w.reshape(&base);
    }
    for t in ["", "1", "123", "1234", "123456", "1x", "x1", "1234x", "x2345", "12é45", "é"] {
        w.text(t);
    }
    w.done(Sym::Supp)
}

fn free(s: Sym) -> Vec<Act> {
    let a: Vec<char> = s.alphabet().chars().collect();
    let some = cyc(&a, 0, 5.min(a.len() / 2), 8);
    let mut w = Words(vec![]);
    w.text("");
    for &c in &a {
        w.add(&[c]);
    }
    for &x in &some {
        for &y in &some {
            w.add(&[x, y]);
        }
    }
    let short = cyc(&a, 1, 1, 4);
    w.substitute(&short, &a);
    for p in 0..24 {
        // Permutations.
        let mut v = short.clone();
        let mut out = vec![];
        let mut r = p;
        for k in (1..=4).rev() {
            out.push(v.remove(r % k));
            r /= k;
        }
        w.add(&out);
    }
    for n in [10, 11, 12] {
        let base = cyc(&a, 1, 1, n);
        w.substitute(&base, &some);
    }
    let long = cyc(&a, 3, 7, 24);
    w.transpose(&long[..16]);
    w.reshape(&long);
    w.substitute(&long, &some[..2]);
    for &c in &some[..3] {
        for n in (1..=24).chain([31, 32, 33, 63, 64, 65, 127, 128, 255, 256, 257]) {
            w.add(&cyc(&[c], 0, 0, n));
        }
    }
    for n in 1..6 {
        for bad in ['a', 'é', '*', '\0'] {
            for i in 0..n {
                let mut v = cyc(&a, 1, 1, n);
                v[i] = bad;
                w.add(&v);
            }
        }
    }
    let mut v = w.done(s);
    if s == Sym::Code39 {
        // The check character switched on and off through the field.
        let more: Vec<Act> = v
            .iter()
            .step_by(9)
            .filter_map(|x| match &x.case {
                Case::Sym { data, .. } => Some(data.clone()),
                _ => None,
            })
            .flat_map(|d| {
                [(Sym::Code39C, 0), (Sym::Code39C, 1), (Sym::Code39C, 2), (Sym::Code39, 1), (Sym::Code39, 2)]
                    .map(|(sym, via)| Act { case: Case::Sym { sym, via, data: d.clone() }, panics: false })
            })
            .collect();
        v.extend(more);
    }
    v
}

fn code128() -> Vec<Act> {
    let (a, b, c) = ('\u{c0}', '\u{181}', '\u{106}');
    let mut w = Words(vec![]);
    w.text("");
    let tails = [
        "", "A", "B", "AB", "BA", "ABC", "1", "12", "123", "1234", "1243", "3412", "12345", "123456", "1234567890", "123456789",
        "a", "ab", "Ab", "aB", "\u{1}", "\u{1}\u{2}", "A\u{1}", "a\u{1}", "\u{17d}a", "\u{17d}A", "\u{17d}aA", "\u{17d}a\u{17d}a",
        "\u{17d}", "A\u{17d}", "\u{17d}\u{1}", "\u{179}", "\u{179}1234", "12\u{179}34", "1\u{179}2", "\u{179}A", "\u{17b}", "\u{17a}",
        "\u{17c}", "\u{17c}A", "A\u{17c}", "\u{f7}", "\u{7f}", "9999", "0000", "00", "99", "000000000000000", "0000000000000000",
        "HELLO", "HELLP", "IELLO", "HLELO", "hello", "Hello World", "Hello Worlc", "Hello, World", "AAAAAAAA", "AAAAAAAAAAAAAAAA",
        "A\u{e9}", "\u{e9}A", "A\u{e9}A", "12\u{e9}", "1\u{e9}",
    ];
    for s in [a, b, c] {
        for t in tails {
            w.text(&format!("{}{}", s, t));
        }
        for x in [a, b, c] {
            for t in ["", "A", "1", "12", "a", "\u{1}", "1234", "\u{17d}a", "\u{e9}"] {
                for u in ["", "A", "12", "1", "a"] {
                    w.text(&format!("{}{}{}{}", s, u, x, t));
                }
            }
        }
        for n in [30, 31, 32, 63, 64, 65, 102, 103, 104, 127, 128, 256, 300] {
            w.text(&format!("{}{}", s, "1".repeat(n)));
        }
    }
    w.text("A");
    w.text("12");
    w.text("\u{e9}A");
    let base: Vec<char> = format!("{}AB12CD", b).chars().collect();
    w.substitute(&base, &['A', 'B', '1', '2', a, b, c, '\u{17d}', '\u{17c}']);
    w.transpose(&base);
    let base: Vec<char> = format!("{}12345678", c).chars().collect();
    w.substitute(&base, &['0', '1', '2', '9', a, b, c, '\u{179}']);
    w.transpose(&base);
    w.done(Sym::Code128)
}

fn module_words() -> Vec<Vec<u8>> {
    let mut v: Vec<Vec<u8>> = vec![];
    for n in 0..=4 {
        for x in 0..1u32 << n {
            v.push((0..n).map(|i| (x >> i & 1) as u8).collect());
        }
    }
    let base = [1, 0, 1, 1, 0, 0, 1, 0, 0, 0, 1, 1];
    v.push(base.to_vec());
    for i in 0..base.len() {
        let mut w = base.to_vec();
        w[i] ^= 1;
        v.push(w.clone());
        v.push(base[..i].to_vec());
        v.push(base[i..].to_vec());
        let mut w = base.to_vec();
        w.rotate_left(i);
        v.push(w);
    }
    for n in (5..40).chain([63, 64, 65, 95, 127, 128, 129, 255, 256, 257, 300]) {
        v.push((0..n).map(|i| (i % 2 == 0) as u8).collect());
    }
    let mut seen = std::collections::HashSet::new();
    v.retain(|w| seen.insert(w.clone()));
    v
}

fn text_drawings(kind: Kind) -> Vec<Act> {
    let sizes = [(1, 1), (1, 2), (2, 1), (2, 2), (3, 1), (1, 3), (10, 1), (10, 2), (0, 1), (1, 0), (0, 0), (11, 1), (1, 11), (12, 3)];
    let mut v = vec![];
    for w in module_words() {
        v.push(Gen::new(kind, &w, 1, 1));
        v.push(Gen::new(kind, &w, 2, 3));
    }
    for w in [&[][..], &[1], &[0], &[1, 0, 1, 1, 0], &[0, 1, 1, 0, 1], &[1, 1, 0, 1, 0, 0, 1]] {
        for (h, x) in sizes {
            v.push(Gen::new(kind, w, h, x));
        }
    }
    for (h, x) in [(255, 1), (256, 1), (257, 1), (1, 255), (1, 256), (1, 257), (65, 64), (1000, 101), (101, 1000)] {
        v.push(Gen::new(kind, &[1, 0, 1], h, x));
        v.push(Gen::new(kind, &[0, 1, 0], h, x));
    }
    done(v)
}

fn colours() -> Vec<[u8; 4]> {
    let mut v = vec![BLACK, WHITE, [0, 0, 0, 0], [255, 255, 255, 0], [1, 2, 3, 255], [3, 2, 1, 255], [2, 1, 3, 255]];
    let base = [16, 32, 64, 128];
    v.push(base);
    for i in 0..4 {
        for x in [0, 1, base[i] ^ 1, base[i] / 2, 255] {
            let mut c = base;
            c[i] = x;
            v.push(c);
        }
        for k in 0..i {
            let mut c = base;
            c.swap(i, k);
            v.push(c);
        }
    }
    let mut seen = std::collections::HashSet::new();
    v.retain(|c| seen.insert(*c));
    v
}

fn coloured(kind: Kind, turns: &[u8], big: bool) -> Vec<Act> {
    let x = [1, 0, 1, 1, 0];
    let mut v = vec![];
    let cs = colours();
    for &c in &cs {
        for other in [BLACK, WHITE, [16, 32, 64, 128], [16, 32, 64, 129]] {
            v.push(Gen::new(kind, &x, 1, 1).colors(c, other));
            v.push(Gen::new(kind, &x, 1, 1).colors(other, c));
        }
    }
    for (i, w) in module_words().iter().enumerate() {
        let g = Gen::new(kind, w, 2, 1).rot(turns[i % turns.len()]);
        v.push(g.clone());
        if i % 3 == 0 {
            v.push(g.colors([200, 10, 30, 128], WHITE));
        }
    }
    for &r in turns {
        for w in [&[][..], &[1], &[0], &x, &[0, 1, 1, 0, 1]] {
            for (h, d) in [(1, 1), (1, 2), (2, 1), (2, 2), (3, 1), (1, 3), (0, 1), (1, 0), (5, 1), (1, 5)] {
                v.push(Gen::new(kind, w, h, d).rot(r));
            }
        }
    }
    if big {
        for (h, d) in [(255, 1), (256, 1), (257, 1), (1, 256), (64, 64), (300, 100)] {
            v.push(Gen::new(kind, &x, h, d));
            v.push(Gen::new(kind, &[0, 1, 0, 0, 1], h, d));
        }
    }
    if kind == Kind::Svg {
        for n in ["", "urn:x", "urn:y", "x", "http://www.w3.org/2000/svg"] {
            for w in [&x[..], &[0, 1, 1, 0, 1], &[]] {
                for h in [1, 2] {
                    let mut g = Gen::new(kind, w, h, 1);
                    g.xmlns = Some(n.into());
                    v.push(g);
                }
            }
        }
    } else {
        // Refused sizes.
        v.push(Gen::new(kind, &x, 1, u32::MAX.into()));
        v.push(Gen::new(kind, &x, u32::MAX.into(), 1 << 29));
    }
    done(v)
}

fn done(v: Vec<Gen>) -> Vec<Act> {
    let mut seen = std::collections::HashSet::new();
    let first = v[0].clone();
    let mut v: Vec<Act> = v
        .into_iter()
        .map(|g| Act { case: Case::Gen(g), panics: false })
        .filter(|a| seen.insert(a.to_json().text()))
        .collect();
    for (h, x) in [(1, 1), (2, 3), (1000, 101), (0, 0)] {
        let mut g = first.clone();
        (g.height, g.xdim) = (h, x);
        v.push(Act { case: Case::Gen(g), panics: true });
    }
    v
}

pub const SETS: &[&str] = &[
    "ean13", "upca", "ean8", "eansupp", "code39", "code39-checksum", "code93", "code11", "codabar", "itf", "stf", "code128", "ascii",
    "json", "svg", "buffer", "gif", "png", "webp", "mixed", "pictures",
];

pub fn set(name: &str) -> Vec<Act> {
    match name {
        "ean13" => digits_of_length(Sym::Ean13, 12),
        "upca" => digits_of_length(Sym::Upca, 11),
        "ean8" => digits_of_length(Sym::Ean8, 7),
        "eansupp" => supplements(),
        "code128" => code128(),
        "ascii" => text_drawings(Kind::Ascii),
        "json" => text_drawings(Kind::Json),
        "svg" => coloured(Kind::Svg, &[0], true),
        "buffer" => coloured(Kind::Buf(Fmt::Buf), &[0, 1, 2, 3], true),
        "gif" => thin(coloured(Kind::File(Fmt::Gif), &[0, 1, 2, 3], false), 120),
        "png" => thin(coloured(Kind::File(Fmt::Png), &[0, 1, 2, 3], false), 120),
        "webp" => thin(coloured(Kind::File(Fmt::Webp), &[0, 1, 2, 3], false), 120),
        // A few of each.
        "mixed" => SETS[..16].iter().flat_map(|n| thin(set(n), 24)).collect(),
        "pictures" => {
            let mut v: Vec<Act> = SETS[12..19].iter().flat_map(|n| thin(set(n), 10)).collect();
            for k in [Fmt::Gif, Fmt::Png, Fmt::Webp, Fmt::Buf] {
                for r in 0..4 {
                    let g = Gen::new(Kind::Buf(k), &[1, 0, 0, 1, 1], 2, 1).rot(r);
                    v.push(Act { case: Case::Gen(g), panics: false });
                }
            }
            v
        }
        _ => free(Sym::from_name(name).unwrap_or_else(|| panic!("no set {}", name))),
    }
}

/// Every k-th, so that about n remain, and the last.
fn thin(v: Vec<Act>, n: usize) -> Vec<Act> {
    let k = v.len().div_ceil(n).max(1);
    let last = v.len() - 1;
    v.into_iter().enumerate().filter(|(i, _)| i % k == 0 || *i == last).map(|p| p.1).collect()
}

// ---------------------------------------------------------------- histories

/// Memory shared with forked processes: one hash per act, then a progress counter.
pub struct Cells(*mut u64, usize);
impl Cells {
    pub fn make(n: usize) -> Cells {
        let p = unsafe {
            libc::mmap(
                std::ptr::null_mut(),
                (2 * n + 8) * 8,
                libc::PROT_READ | libc::PROT_WRITE,
                libc::MAP_SHARED | libc::MAP_ANONYMOUS,
                -1,
                0,
            )
        };
        assert!(p != libc::MAP_FAILED, "mmap");
        Cells(p as *mut u64, n)
    }
    pub fn put(&self, i: usize, h: [u64; 2]) {
        unsafe {
            self.0.add(2 * i).write(h[0]);
            self.0.add(2 * i + 1).write(h[1]);
        }
    }
    pub fn get(&self, i: usize) -> [u64; 2] {
        unsafe { [self.0.add(2 * i).read(), self.0.add(2 * i + 1).read()] }
    }
    fn progress(&self) -> &std::sync::atomic::AtomicU64 {
        unsafe { &*(self.0.add(2 * self.1) as *const std::sync::atomic::AtomicU64) }
    }
}
impl Drop for Cells {
    fn drop(&mut self) {
        unsafe { libc::munmap(self.0 as *mut libc::c_void, (2 * self.1 + 8) * 8) };
    }
}

/// What each act returns as the first call of a process.
fn baseline(acts: &[Act]) -> Result<Cells, String> {
    let c = Cells::make(acts.len());
    for (i, a) in acts.iter().enumerate() {
        let r = forked(60, || {
            c.put(i, hash(&a.run()));
            0
        });
        if r != 0 {
            return Err(format!("{} alone: the process ends with status {}", a.name(), r));
        }
    }
    Ok(c)
}

/// 0: every result is as alone. 1: one is not. Otherwise the process ended badly.
fn follow(acts: &[Act], c: &Cells, secs: u32, history: impl Iterator<Item = usize>) -> i32 {
    forked(secs, || {
        let mut n = 0;
        for i in history {
            n += 1;
            c.progress().store(n, Relaxed);
            if hash(&acts[i].run()) != c.get(i) {
                return 1;
            }
        }
        board().counter(1).fetch_add(n, Relaxed);
        0
    })
}

/// The order in which `neighbours` calls the acts.
fn order(name: &str, n: usize, part: usize, parts: usize) -> Box<dyn Iterator<Item = usize>> {
    match name {
        // a b a b' a b'' ...: every unordered pair in both orders.
        "pairs" => Box::new(
            (0..n)
                .filter(move |a| a % parts == part)
                .flat_map(move |a| (a..n).flat_map(move |b| [a, b])),
        ),
        _ => Box::new(
            (0..n)
                .filter(move |a| a % parts == part)
                .flat_map(move |a| (0..n).flat_map(move |b| (0..n).flat_map(move |c| [a, b, c]))),
        ),
    }
}

pub fn describe(status: i32) -> String {
    match status {
        142 => "the calls do not return (deadlock)".into(),
        r => format!("the process ends with status {}", r),
    }
}

/// A failing history, made short.
fn shorten(bad: impl Fn(&[usize]) -> bool, h: Vec<usize>) -> Vec<usize> {
    let mut h = h;
    let mut k = 2;
    while k < h.len() {
        if bad(&h[h.len() - k..]) {
            h = h[h.len() - k..].to_vec();
            break;
        }
        k *= 2;
    }
    let mut chunk = (h.len() / 2).max(1);
    let mut tries = 0;
    while tries < 300 {
        let mut i = 0;
        let mut shorter = false;
        while i + 1 < h.len() && tries < 300 {
            let end = (i + chunk).min(h.len() - 1);
            let mut v = h.clone();
            v.drain(i..end);
            tries += 1;
            if !v.is_empty() && bad(&v) {
                h = v;
                shorter = true;
            } else {
                i += chunk;
            }
        }
        if chunk == 1 && !shorter {
            break;
        }
        chunk = (chunk / 2).max(1);
    }
    h
}

// ---------------------------------------------------------------- many different inputs

pub const MASSES: &[&str] = &[
    "ean13", "upca", "ean8", "eansupp", "code39", "code39-checksum", "code93", "code11", "codabar", "itf", "stf", "code128", "ascii",
    "json", "svg", "buffer", "svg colours", "buffer colours",
];

/// The i-th of many different inputs: first numbers in sequence, then spread over all digits.
pub fn item(set: &str, i: usize) -> Act {
    let spread = |n: usize| -> String {
        let mut x = match i % 2 {
            0 => i as u128 / 2,
            _ => (i as u128 / 2 + 1) * 618_033_988_749_894_848_204_586_834_365u128,
        };
        (0..n)
            .map(|_| {
                let d = (x % 10) as u8;
                x /= 10;
                (b'0' + d) as char
            })
            .collect::<Vec<char>>()
            .into_iter()
            .rev()
            .collect()
    };
    let letters = |s: Sym, n: usize| -> String {
        let a: Vec<char> = s.alphabet().chars().collect();
        let mut x = match i % 2 {
            0 => i as u64 / 2,
            _ => (i as u64 / 2 + 1).wrapping_mul(0x9e37_79b9_7f4a_7c15) >> 12,
        };
        (0..n)
            .map(|_| {
                let c = a[(x % a.len() as u64) as usize];
                x /= a.len() as u64;
                c
            })
            .collect()
    };
    let word = |n: usize| -> Vec<u8> { (0..n).map(|k| ((i as u64).wrapping_mul(0x9e37_79b9) >> k & 1) as u8).collect() };
    let colours = |kind: Kind| {
        let f = (i as u32).wrapping_mul(0x9e37_79b1).to_be_bytes();
        let b = (i as u32).wrapping_mul(0x85eb_ca77).rotate_left(9).to_be_bytes();
        Gen::new(kind, &[1, 0, 1], 2, 1).colors(f, b)
    };
    let gen = |g: Gen| Act { case: Case::Gen(g), panics: false };
    match set {
        "ean13" => sym(Sym::Ean13, &spread(12)),
        "upca" => sym(Sym::Upca, &spread(11)),
        "ean8" => sym(Sym::Ean8, &spread(7)),
        "eansupp" => sym(Sym::Supp, &spread(if i % 1024 == 7 { 2 } else { 5 })),
        "itf" => sym(Sym::Itf, &spread(7 + i / 2 % 2)),
        "stf" => sym(Sym::Stf, &spread(8)),
        "code128" => match i % 3 {
            0 => sym(Sym::Code128, &format!("\u{106}{}", spread(8))),
            k => sym(Sym::Code128, &format!("{}{}", ["", "\u{c0}", "\u{181}"][k], letters(Sym::Code39, 6))),
        },
        "ascii" => gen(Gen::new(Kind::Ascii, &word(20), 2, 1)),
        "json" => gen(Gen::new(Kind::Json, &word(20), i as u64 / 64, 1)),
        "svg" => gen(Gen::new(Kind::Svg, &word(20), 2, 1)),
        "buffer" => gen(Gen::new(Kind::Buf(Fmt::Buf), &word(20), 2, 1)),
        "svg colours" => gen(colours(Kind::Svg)),
        "buffer colours" => gen(colours(Kind::Buf(Fmt::Buf))),
        _ => {
            let s = Sym::from_name(set).unwrap_or_else(|| panic!("no set {}", set));
            sym(s, &letters(s, 8))
        }
    }
}

/// `count` inputs in one process, and in another the same from the last to the first: each must give the
/// same both times.
fn mass(name: &str, count: usize) -> Option<Viol> {
    let c = Cells::make(count);
    let there = |acts: &mut dyn Iterator<Item = usize>, first: bool| {
        forked(800, || {
            let mut n = 0;
            for i in acts {
                let h = hash(&item(name, i).run());
                n += 1;
                if first {
                    c.put(i, h);
                } else if c.get(i) != h {
                    c.progress().store(i as u64, Relaxed);
                    return 1;
                }
            }
            board().counter(1).fetch_add(n, Relaxed);
            0
        })
    };
    let r = there(&mut (0..count), true);
    let r = if r == 0 { there(&mut (0..count).rev(), false) } else { r };
    if r == 0 {
        return None;
    }
    let whole = || obj("mass", vec![("set", J::s(name)), ("count", J::num(count as u64))]);
    if r != 1 {
        return Some((whole(), describe(r)));
    }
    let at = c.progress().load(Relaxed) as usize;
    let one = Cells::make(1);
    let last = |h: &[usize], cell: &Cells| {
        forked(300, || {
            let mut v = [0; 2];
            for &i in h {
                v = hash(&item(name, i).run());
            }
            cell.put(0, v);
            0
        }) == 0
    };
    if !last(&[at], &one) {
        return Some((whole(), format!("{} alone does not return", item(name, at).name())));
    }
    let alone = one.get(0);
    let h: Vec<usize> = if c.get(at) != alone { (0..=at).collect() } else { (at..count).rev().collect() };
    let cell = Cells::make(1);
    let h = shorten(|h| last(h, &cell) && cell.get(0) != alone, h);
    let acts: Vec<Act> = h.iter().map(|i| item(name, *i)).collect();
    let said = if h.len() < 2000 { told(&acts) } else { None };
    Some(match said {
        Some(m) => (obj("acts", vec![("ops", J::Arr(acts.iter().map(|a| a.to_json()).collect()))]), m),
        None => (whole(), format!("{} returns something else after other calls than alone", item(name, at).name())),
    })
}

pub fn explore(j: &J) -> Option<Viol> {
    let n = |k: &str| j.get(k).and_then(|x| x.u64()).unwrap_or(0) as usize;
    match j.get("kind").and_then(|k| k.str()) {
        Some("acts") => {
            let acts: Option<Vec<Act>> = j.get("ops")?.arr()?.iter().map(Act::from_json).collect();
            told(&acts.expect("ops")).map(|m| (j.clone(), m))
        }
        Some("mass") => mass(j.get("set")?.str()?, n("count")),
        _ => {
            let name = j.get("set")?.str()?;
            let how = j.get("order")?.str()?.to_string();
            let mut acts = set(name);
            if n("thin") > 0 {
                acts = thin(acts, n("thin"));
            }
            let one = |a: &Act, m: String| (obj("acts", vec![("ops", J::Arr(vec![a.to_json()]))]), m);
            let c = match baseline(&acts) {
                Ok(c) => c,
                Err(m) => return Some(one(&acts[0], m)),
            };
            let run = || order(&how, acts.len(), n("part"), n("parts").max(1));
            let r = follow(&acts, &c, 800, run());
            if r == 0 {
                return None;
            }
            let at = c.progress().load(Relaxed) as usize;
            let h: Vec<usize> = run().take(at).collect();
            let h = shorten(|h| follow(&acts, &c, 60, h.iter().copied()) != 0, h);
            if h.len() > 2000 {
                let m = format!("after {} calls, {} returns something else than alone", at, acts[*h.last().unwrap()].name());
                return Some((j.clone(), m));
            }
            let v: Vec<Act> = h.iter().map(|i| acts[*i].clone()).collect();
            let jj = obj("acts", vec![("ops", J::Arr(v.iter().map(|a| a.to_json()).collect()))]);
            let m = told(&v).unwrap_or_else(|| {
                if r == 1 {
                    "one of the results is not as alone".into()
                } else {
                    describe(r)
                }
            });
            Some((jj, m))
        }
    }
}

/// Runs a short history and says what is wrong with it.
fn told(acts: &[Act]) -> Option<String> {
    let c = match baseline(acts) {
        Ok(c) => c,
        Err(m) => return Some(m),
    };
    let alone = |i: usize| {
        forked(60, || {
            board().message(&crate::hist::show(&acts[i].run()));
            0
        });
        board().take_message()
    };
    let r = forked(120, || {
        for (i, a) in acts.iter().enumerate() {
            let o = a.run();
            if hash(&o) != c.get(i) {
                board().message(&format!("{}\n{}", i, crate::hist::show(&o)));
                return 1;
            }
        }
        0
    });
    match r {
        0 => None,
        1 => {
            let m = board().take_message();
            let (i, got) = m.split_once('\n')?;
            let i: usize = i.parse().ok()?;
            Some(format!("call {} ({}) returns {} but alone it returns {}", i + 1, acts[i].name(), got, alone(i)))
        }
        r => Some(describe(r)),
    }
}
