//! probe [full]                  one digest per chunk of each section
//! probe dump <section> <chunk>  the inputs and results of one chunk

use barcoders::error::Error;
use barcoders::sym::{
    codabar::Codabar, code11::Code11, code128::Code128, code39::Code39, code93::Code93, ean13::EAN13,
    ean8::EAN8, ean_supp::EANSUPP, tf::TF, upca::UPCA,
};
use std::panic::{catch_unwind, AssertUnwindSafe};

const CHUNK: usize = 512;

struct Out {
    full: bool,
    dump: Option<(String, usize)>,
    n: usize,
    h: u64,
    inputs: u64,
}

fn code(e: Error) -> u8 {
    match e {
        Error::Character => 101,
        Error::Length => 102,
        Error::Checksum => 103,
        Error::Generate => 104,
    }
}

fn text(r: &Result<Vec<u8>, String>) -> String {
    match r {
        Ok(v) => match v.first() {
            Some(0) if v[1..].iter().all(|b| *b < 2) => v[1..].iter().map(|b| (b + b'0') as char).collect(),
            Some(0) => String::from_utf8_lossy(&v[1..]).chars().take(400).collect(),
            Some(101) => "Err(Character)".into(),
            Some(102) => "Err(Length)".into(),
            Some(103) => "Err(Checksum)".into(),
            Some(104) => "Err(Generate)".into(),
            _ => "?".into(),
        },
        Err(p) => format!("panic {}", p),
    }
}

fn res(r: Result<Vec<u8>, Error>) -> Vec<u8> {
    match r {
        Ok(mut v) => {
            v.insert(0, 0);
            v
        }
        Err(e) => vec![code(e)],
    }
}

impl Out {
    fn flush(&mut self, section: &str) {
        if self.n % CHUNK != 0 || self.n == 0 {
            self.line(section);
        }
        self.n = 0;
    }
    fn line(&mut self, section: &str) {
        if self.dump.is_none() {
            println!("{} {} {:016x}", section, (self.n.max(1) - 1) / CHUNK, self.h);
        }
        self.h = 0xcbf29ce484222325;
    }
    fn add(&mut self, section: &str, input: &dyn Fn() -> String, f: &dyn Fn() -> Vec<u8>) {
        if let Some((s, c)) = &self.dump {
            if s != section || self.n / CHUNK != *c {
                self.n += 1;
                return;
            }
        }
        let r = catch_unwind(AssertUnwindSafe(f)).map_err(|e| {
            e.downcast_ref::<String>()
                .cloned()
                .or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string()))
                .unwrap_or_default()
        });
        self.inputs += 1;
        if self.dump.is_some() {
            println!("{:?} => {}", input(), text(&r));
        }
        let b = match r {
            Ok(b) => b,
            Err(_) => vec![255],
        };
        for x in b.iter().chain([&254]) {
            self.h = (self.h ^ *x as u64).wrapping_mul(0x100000001b3);
        }
        self.n += 1;
        if self.n % CHUNK == 0 {
            self.line(section);
        }
    }
}

/// All words over `a` of length lo..=hi.
fn words(a: &[char], lo: usize, hi: usize, f: &mut dyn FnMut(&str)) {
    for n in lo..=hi {
        let mut ix = vec![0usize; n];
        loop {
            let w: String = ix.iter().map(|&i| a[i]).collect();
            f(&w);
            let mut k = n;
            loop {
                if k == 0 {
                    break;
                }
                k -= 1;
                ix[k] += 1;
                if ix[k] < a.len() {
                    k = usize::MAX;
                    break;
                }
                ix[k] = 0;
            }
            if k != usize::MAX {
                break;
            }
        }
    }
}

type Enc = fn(&str) -> Vec<u8>;

fn sym(o: &mut Out, name: &str, alphabet: &str, bases: &[&str], enc: Enc) {
    let a: Vec<char> = alphabet.chars().collect();
    let short = match a.len() {
        0..=10 => 4,
        11 => 4,
        12..=20 => 3,
        _ => 2,
    };
    let deep = short + o.full as usize;
    let o_full = o.full;
    let mut go = |w: &str| o.add(name, &|| w.to_string(), &|| enc(w));
    words(&a, 0, deep, &mut go);
    // Every length with several fillings, up to and beyond what is allowed.
    for n in 0..=300 {
        for c in [a[0], a[1], *a.last().unwrap(), a[9.min(a.len() - 1)]] {
            go(&c.to_string().repeat(n));
        }
        let cyc: String = a.iter().cycle().take(n).collect();
        go(&cyc);
        let rev: String = a.iter().rev().cycle().take(n).collect();
        go(&rev);
    }
    for n in [1000, 70_000] {
        go(&a[1].to_string().repeat(n));
        go(&a.last().unwrap().to_string().repeat(n));
    }
    // One or two characters of a base changed.
    let wide: Vec<char> = (0..=255u8).map(char::from).chain("ÀƁĆŹźŻżŽ٣９é漢😀".chars()).collect();
    for b in bases {
        let c: Vec<char> = b.chars().collect();
        for i in 0..c.len() {
            for &x in &wide {
                let mut v = c.clone();
                v[i] = x;
                go(&v.iter().collect::<String>());
                v.truncate(i + 1);
                go(&v.iter().collect::<String>());
            }
            for k in 0..i {
                for &x in &a {
                    for &y in &a {
                        if (a.len() < 12 || (x as u32 + y as u32) % 7 == 0) && c.len() <= 13 {
                            let mut v = c.clone();
                            v[i] = x;
                            v[k] = y;
                            go(&v.iter().collect::<String>());
                        }
                    }
                }
            }
        }
    }
    // Every window of four at every offset, against two backgrounds.
    if a.len() < 12 {
        for b in bases.iter().filter(|b| b.chars().count() > 6) {
            let c: Vec<char> = b.chars().collect();
            for at in 0..=c.len() - 4 {
                words(&a, 4, 4, &mut |w| {
                    let mut v = c.clone();
                    v.splice(at..at + 4, w.chars());
                    go(&v.iter().collect::<String>());
                });
            }
        }
    }
    // Every character that some classification of digits, letters, case or white space could include.
    for b in bases {
        let c: Vec<char> = b.chars().collect();
        let (pre, post): (String, String) = (c[..c.len() / 2].iter().collect(), c[c.len() / 2 + 1..].iter().collect());
        for u in (0x100..0x3100u32).chain(0xa000..0xac00).chain(0xf900..0x10000).chain(0x10000..0x12000).chain(0x1d400..0x1d800).chain(0x1f000..0x20000) {
            if let Some(x) = char::from_u32(u) {
                if u < 0x800 || o_full || x.is_alphanumeric() || x.is_whitespace() || x.is_control() {
                    go(&format!("{}{}{}", pre, x, post));
                    go(&x.to_string());
                }
            }
        }
    }
    // Periodic words, and words of three runs.
    let selectors: &[&str] = if name == "code128" { &["À", "Ɓ", "Ć"] } else { &[""] };
    let most = if a.len() < 12 { 3 } else { 2 };
    for pre in selectors {
        for n in [4usize, 7, 12, 13, 21, 40, 100, 256] {
            words(&a, 2, most, &mut |w| {
                go(&pre.chars().chain(w.chars().cycle()).take(n).collect::<String>());
            });
        }
        let some = [a[0], a[1], a[a.len() / 2], a[a.len() - 1]];
        words(&some, 3, 3, &mut |w| {
            let c: Vec<String> = w.chars().map(String::from).collect();
            for i in 1..=8 {
                for k in 1..=8 {
                    for l in [1, 2, 5] {
                        go(&format!("{}{}{}{}", pre, c[0].repeat(i), c[1].repeat(k), c[2].repeat(l)));
                    }
                }
            }
        });
    }
    // Something extra before, after or around.
    let extra: Vec<String> = (0..=255u8).map(|c| char::from(c).to_string()).chain(["", "  ", "\r\n", "**", "+A", "\0\0", "\u{feff}"].map(String::from)).collect();
    for b in bases {
        for x in &extra {
            for y in ["", " ", "\n", "\0", "*", "0", "-", x] {
                go(&format!("{}{}{}", x, b, y));
                go(&format!("{}{}{}", y, b, x));
            }
        }
    }
    o.flush(name);
}

/// Every small number, and the neighbours of powers of two and ten up to a limit.
#[allow(dead_code)]
fn marks(all: u64, limit: u64) -> Vec<u64> {
    let mut v: Vec<u64> = (0..=all).collect();
    for m in (1..64).map(|k| 1u64 << k).chain((1..19).map(|k| 10u64.pow(k))) {
        v.extend([m - 1, m, m + 1].into_iter().filter(|x| *x <= limit));
    }
    v.sort();
    v.dedup();
    v
}

/// Long barcodes.
#[allow(dead_code)]
fn long(limit: u64) -> Vec<Vec<u8>> {
    marks(130, limit)
        .into_iter()
        .flat_map(|n| [vec![1u8; n as usize], (0..n).map(|i| (i * i % 7 < 3) as u8).collect()])
        .collect()
}

#[allow(unused_variables, unused_mut)]
fn generators(o: &mut Out) {
    let mut pics: Vec<Vec<u8>> = vec![];
    for n in 0..=7usize {
        for w in 0..1u32 << n {
            pics.push((0..n).map(|i| (w >> i & 1) as u8).collect());
        }
    }
    for n in [20usize, 95, 300] {
        pics.push((0..n).map(|i| (i % 3 != 1) as u8).collect());
    }
    pics.push(EAN13::new("750103131130").unwrap().encode());
    let sizes = [0u32, 1, 2, 3, 10, 80];
    let o_full = o.full;
    #[cfg(feature = "ascii")]
    {
        use barcoders::generators::ascii::ASCII;
        for p in &pics {
            for h in sizes {
                for x in sizes {
                    o.add("ascii", &|| format!("{:?} height {} xdim {}", p, h, x), &|| {
                        let g = ASCII { height: h as usize, xdim: x as usize };
                        res(g.generate(p).map(|s| s.into_bytes()))
                    });
                }
            }
            o.add("ascii", &|| format!("{:?} default", p), &|| res(ASCII::new().generate(p).map(|s| s.into_bytes())));
            o.add("ascii", &|| format!("{:?} default", p), &|| {
                let g = ASCII::default();
                res(g.generate(&p[..]).map(|s| s.into_bytes()))
            });
        }
        let mut go = |p: &[u8], h: u64, x: u64| {
            o.add("ascii", &|| format!("{} modules, height {} xdim {}", p.len(), h, x), &|| {
                let g = ASCII { height: h as usize, xdim: x as usize };
                res(g.generate(p).map(|s| s.into_bytes()))
            })
        };
        for p in long(if o_full { 150_000 } else { 70_000 }) {
            go(&p, 1, 1);
            go(&p[..p.len().min(400)], 2, 3);
        }
        for d in marks(300, 70_000) {
            go(&[1, 0, 1], d, 1);
            go(&[1, 0], 1, d);
        }
        for h in [3, 17, 100, 257, 700] {
            for x in [3, 17, 100, 257, 700] {
                go(&[1, 0], h, x);
            }
        }
        o.flush("ascii");
    }
    #[cfg(feature = "json")]
    {
        use barcoders::generators::json::JSON;
        for p in &pics {
            for h in [0usize, 1, 10, 255, 256, 65536, usize::MAX] {
                for x in [0usize, 1, 10, 255, 256, 65536, usize::MAX] {
                    o.add("json", &|| format!("{:?} height {} xdim {}", p, h, x), &|| {
                        res(JSON { height: h, xdim: x }.generate(p).map(|s| s.into_bytes()))
                    });
                }
            }
            o.add("json", &|| format!("{:?} default", p), &|| res(JSON::new().generate(p).map(|s| s.into_bytes())));
        }
        let mut go = |p: &[u8], h: u64, x: u64| {
            o.add("json", &|| format!("{} modules, height {} xdim {}", p.len(), h, x), &|| {
                res(JSON { height: h as usize, xdim: x as usize }.generate(p).map(|s| s.into_bytes()))
            })
        };
        for p in long(if o_full { 150_000 } else { 70_000 }) {
            go(&p, 1, 1);
        }
        for d in marks(1200, u64::MAX) {
            go(&[1, 0, 1], d, 1);
            go(&[1, 0], 1, d);
            go(&[], d, d);
        }
        o.flush("json");
    }
    #[cfg(feature = "svg")]
    {
        use barcoders::generators::svg::{Color, SVG};
        let gen = |s: SVG, p: &[u8]| res(s.generate(p).map(|s| s.into_bytes()));
        for p in &pics {
            for h in [0, 1, 80, u32::MAX] {
                for x in [0, 1, 2, 7, u32::MAX] {
                    o.add("svg", &|| format!("{:?} height {} xdim {}", p, h, x), &|| gen(SVG::new(h).xdim(x), p));
                }
            }
            o.add("svg", &|| format!("{:?} xmlns", p), &|| gen(SVG::new(9).xmlns("http://www.w3.org/2000/svg".into()), p));
        }
        for i in 0..4 {
            for v in 0..=255u8 {
                for base in [[0u8, 0, 0, 255], [255, 255, 255, 128], [1, 16, 200, 0]] {
                    let mut c = base;
                    c[i] = v;
                    o.add("svg", &|| format!("foreground {:?}", c), &|| gen(SVG::new(3).foreground(Color::new(c)), &[1, 0, 1]));
                    o.add("svg", &|| format!("background {:?}", c), &|| gen(SVG::new(3).background(Color::new(c)), &[1, 0, 1]));
                }
            }
        }
        for a in 0..=255u8 {
            for b in [0, 1, 2, 127, 128, 254, 255, a] {
                let s = || SVG::new(3).foreground(Color::new([a, b, 9, b])).background(Color::new([b, 200, a, a]));
                o.add("svg", &|| format!("colours {} {}", a, b), &|| gen(s(), &[1, 0, 1, 1]));
            }
        }
        let mut go = |p: &[u8], h: u64, x: u64| {
            o.add("svg", &|| format!("{} modules, height {} xdim {}", p.len(), h, x), &|| gen(SVG::new(h as u32).xdim(x as u32), p))
        };
        for p in long(if o_full { 70_000 } else { 9_000 }) {
            go(&p, 1, 1);
            go(&p[..p.len().min(400)], 2, 300_007);
        }
        for d in marks(1200, u32::MAX as u64) {
            go(&[1, 0, 1], d, 1);
            go(&[1, 0, 1], 1, d);
            go(&[0, 0, 0, 1, 1, 0, 1], d, d);
        }
        for n in ["", " ", "x", "urn:x", "http://www.w3.org/2000/svg", "ü漢😀", "'{}'"] {
            let mut s = SVG::new(7).xmlns(n.into());
            for x in [0, 1, 9] {
                s = s.xdim(x).foreground(Color::white()).background(Color::black());
                o.add("svg", &|| format!("xmlns {:?} xdim {}", n, x), &|| gen(s.clone(), &[1, 0, 1]));
            }
            s.xmlns = None;
            o.add("svg", &|| format!("xmlns {:?} taken away", n), &|| gen(s.clone(), &[1, 0, 1]));
        }
        o.flush("svg");
    }
    #[cfg(all(feature = "image", feature = "std"))]
    {
        use barcoders::generators::image::{Color, Image, Rotation};
        let rots = [Rotation::Zero, Rotation::Ninety, Rotation::OneEighty, Rotation::TwoSeventy];
        let cols = [([0u8, 0, 0, 255], [255u8, 255, 255, 255]), ([10, 200, 30, 128], [3, 3, 250, 0])];
        for p in pics.iter().filter(|p| p.len() <= 4 || p.len() > 90) {
            for height in [0u32, 1, 3] {
                for xdim in [0u32, 1, 2] {
                    for (r, &rotation) in rots.iter().enumerate() {
                        for (fg, bg) in cols {
                            let (foreground, background) = (Color::new(fg), Color::new(bg));
                            for (k, im) in [
                                Image::ImageBuffer { height, xdim, rotation, foreground, background },
                                Image::GIF { height, xdim, rotation, foreground, background },
                                Image::PNG { height, xdim, rotation, foreground, background },
                                Image::WEBP { height, xdim, rotation, foreground, background },
                            ]
                            .into_iter()
                            .enumerate()
                            {
                                let name = || format!("{:?} height {} xdim {} rotation {} colours {:?} {:?} kind {}", p, height, xdim, r * 90, fg, bg, k);
                                o.add("image", &name, &|| res(im.generate(p)));
                                o.add("image", &name, &|| {
                                    res(im.generate_buffer(p).map(|b| {
                                        let mut v = vec![b.width() as u8, b.height() as u8, 77];
                                        v.extend(b.into_raw());
                                        v
                                    }))
                                });
                            }
                        }
                    }
                }
            }
        }
        // Sizes, long barcodes and colours.
        let mut go = |p: &[u8], height: u64, xdim: u64, r: usize, fg: [u8; 4], bg: [u8; 4], files: bool| {
            let (height, xdim, rotation) = (height as u32, xdim as u32, rots[r % 4]);
            let (foreground, background) = (Color::new(fg), Color::new(bg));
            let name = || format!("{} modules, height {} xdim {} rotation {} colours {:?} {:?}", p.len(), height, xdim, r % 4 * 90, fg, bg);
            let all = [
                Image::ImageBuffer { height, xdim, rotation, foreground, background },
                Image::GIF { height, xdim, rotation, foreground, background },
                Image::PNG { height, xdim, rotation, foreground, background },
                Image::WEBP { height, xdim, rotation, foreground, background },
            ];
            for im in &all[..if files { 4 } else { 1 }] {
                o.add("image", &name, &|| res(im.generate(p)));
                o.add("image", &name, &|| {
                    res(im.generate_buffer(p).map(|b| {
                        let mut v = vec![77];
                        v.extend(b.width().to_le_bytes());
                        v.extend(b.height().to_le_bytes());
                        v.extend(b.into_raw());
                        v
                    }))
                });
            }
        };
        let (k, w) = ([0u8, 0, 0, 255], [255u8, 255, 255, 255]);
        for (i, p) in long(if o_full { 70_000 } else { 20_000 }).iter().enumerate() {
            go(p, 1, 1, i / 2, k, w, p.len() < 1000 && i % 2 == 1);
            go(&p[..p.len().min(300)], 3, 4, i / 2 + 1, k, w, false);
        }
        for (i, d) in marks(130, 20_000).into_iter().enumerate() {
            go(&[1, 0, 1], d, 1, i, k, w, d < 1000);
            go(&[1, 0], 1, d, i + 1, k, w, d < 1000);
        }
        for h in [3, 17, 45, 100, 257] {
            for x in [3, 17, 45, 100, 257] {
                go(&[1, 0, 0], h, x, h as usize, k, w, h * x < 3000);
            }
        }
        for a in 0..=255u8 {
            for b in [0, 1, 127, 254, 255] {
                go(&[1, 0, 1], 1, 1, 0, [a, b, 9, b], [b, 200, a, a], b < 2 || b > 254);
            }
        }
        for p in &pics[..40] {
            for xdim in [1 << 16, 1 << 31, u32::MAX] {
                for height in [0, 1] {
                    // Either impossible or empty.
                    if !p.is_empty() && height > 0 && (p.len() as u64 * xdim as u64) <= u32::MAX as u64 {
                        continue;
                    }
                    let im = Image::ImageBuffer { height, xdim, rotation: Rotation::Zero, foreground: Color::black(), background: Color::white() };
                    o.add("image", &|| format!("{:?} height {} xdim {}", p, height, xdim), &|| {
                        res(im.generate_buffer(p).map(|b| vec![b.width() as u8, b.height() as u8]))
                    });
                }
            }
        }
        o.flush("image");
    }
}

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let a: Vec<String> = std::env::args().collect();
    let full = a.iter().any(|x| x == "full");
    let dump = match a.iter().position(|x| x == "dump") {
        Some(i) => Some((a[i + 1].clone(), a[i + 2].parse().expect("chunk"))),
        None => None,
    };
    let mut o = Out {
        full,
        dump,
        n: 0,
        h: 0xcbf29ce484222325,
        inputs: 0,
    };
    let d = "0123456789";
    let c43 = "0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ-. $/+%";
    sym(&mut o, "ean13", d, &["750103131130", "7501031311309"], |w| res(EAN13::new(w).map(|b| b.encode())));
    sym(&mut o, "upca", d, &["01234567890", "012345678905"], |w| res(UPCA::new(w).map(|b| b.encode())));
    sym(&mut o, "ean8", d, &["1234567", "12345670"], |w| res(EAN8::new(w).map(|b| b.encode())));
    sym(&mut o, "eansupp", d, &["51", "51234"], |w| res(EANSUPP::new(w).map(|b| b.encode())));
    sym(&mut o, "code39", c43, &["AB1-Z"], |w| res(Code39::new(w).map(|b| b.encode())));
    sym(&mut o, "code39c", c43, &["AB1-Z"], |w| res(Code39::with_checksum(w).map(|b| b.encode())));
    sym(&mut o, "code93", c43, &["AB1-Z"], |w| res(Code93::new(w).map(|b| b.encode())));
    sym(&mut o, "code11", "0123456789-", &["12-45", "1234567890", "12345-78901"], |w| res(Code11::new(w).map(|b| b.encode())));
    sym(&mut o, "codabar", "0123456789-$:/.+ABCD", &["A12+B"], |w| res(Codabar::new(w).map(|b| b.encode())));
    sym(&mut o, "itf", d, &["1234", "12345"], |w| res(TF::interleaved(w).map(|b| b.encode())));
    sym(&mut o, "stf", d, &["1234"], |w| res(TF::standard(w).map(|b| b.encode())));
    let c128 = "ÀƁĆŹŽ19Aa\u{1}";
    sym(&mut o, "code128", c128, &["ÀAB1", "Ɓab1Ć1234", "Ć1234Àa"], |w| res(Code128::new(w).map(|b| b.encode())));
    {
        // The tokenizer in depth.
        let deep = if o.full { 6 } else { 5 };
        let al: Vec<char> = c128.chars().collect();
        let mut go = |w: &str| o.add("code128-words", &|| w.to_string(), &|| res(Code128::new(w).map(|b| b.encode())));
        words(&al, 4, deep, &mut go);
        o.flush("code128-words");
    }
    {
        // The check character switched on and off on one barcode.
        let mut go = |w: &str| {
            o.add("code39-flag", &|| w.to_string(), &|| match Code39::new(w) {
                Err(e) => vec![code(e)],
                Ok(mut b) => {
                    let mut v = vec![0];
                    for on in [false, true, false, true] {
                        b.checksum = on;
                        v.extend(b.encode());
                    }
                    v
                }
            })
        };
        words(&c43.chars().collect::<Vec<_>>(), 1, 2, &mut go);
        for n in 1..=256 {
            go(&c43.chars().cycle().skip(n).take(n).collect::<String>());
            go(&"%".repeat(n));
        }
        o.flush("code39-flag");
        // Long Code 128 data.
        for n in marks(300, if o.full { 600_000 } else { 140_000 }) {
            for (s, f) in [("À", "A"), ("Ɓ", "z"), ("Ć", "99"), ("Ɓ", "aĆ12Ɓ")] {
                let d = format!("{}{}", s, f.repeat(n as usize / f.chars().count() + 1));
                o.add("code128-long", &|| format!("{} {} x {}", s, f, n), &|| res(Code128::new(&d).map(|b| b.encode())));
            }
        }
        o.flush("code128-long");
    }
    generators(&mut o);
    if o.dump.is_none() {
        println!("inputs {}", o.inputs);
    }
}
