//! C22: histories of objects. Barcodes and generators are made, used, kept, dropped and made again, in
//! every order (as far as the bounds go); each must keep giving what one alone in a process gives, no
//! matter which others lived, live or are gone.

use crate::case::{Case, Gen, Kind};
use crate::hist::{board, forked, obj, Out, Viol};
use crate::imp::errbit;
use crate::json::J;
use crate::refs::Sym;
use crate::sweep::{describe, hash, item, Cells};
use barcoders::generators::svg;
use barcoders::sym::{codabar, code11, code128, code39, code93, ean13, ean8, ean_supp, tf, upca};
use std::sync::atomic::Ordering::Relaxed;

/// An object under test, to be used through the closure and dropped with it.
type Thing = Box<dyn Fn() -> Out + Send>;

pub const KINDS: &[&str] = &[
    "ean13", "upca", "ean8", "eansupp", "code39", "code39-checksum", "code93", "code11", "codabar", "itf", "stf", "code128", "svg",
    "retail", "2-of-5", "everything",
];

fn act(kind: &str, k: usize) -> Case {
    let one = |v: &[&str]| item(v[k % v.len()], 2 * (k / v.len() * v.len()) + 1).case().clone();
    match kind {
        "retail" => one(&["ean13", "upca", "ean8", "eansupp"]),
        "2-of-5" => one(&["itf", "stf", "code11"]),
        "everything" => one(&KINDS[..13]),
        _ => one(&[kind]),
    }
}

macro_rules! thing {
    ($r:expr) => {
        match $r {
            Ok(b) => Box::new(move || b.encode()),
            Err(e) => {
                let e = errbit(e);
                Box::new(move || vec![e])
            }
        }
    };
}

fn symbol(sym: Sym, data: &str) -> Thing {
    match sym {
        Sym::Ean13 => thing!(ean13::EAN13::new(data)),
        Sym::Upca => thing!(upca::UPCA::new(data)),
        Sym::Ean8 => thing!(ean8::EAN8::new(data)),
        Sym::Supp => thing!(ean_supp::EANSUPP::new(data)),
        Sym::Code39 => thing!(code39::Code39::new(data)),
        Sym::Code39C => thing!(code39::Code39::with_checksum(data)),
        Sym::Code93 => thing!(code93::Code93::new(data)),
        Sym::Code11 => thing!(code11::Code11::new(data)),
        Sym::Codabar => thing!(codabar::Codabar::new(data)),
        Sym::Itf => thing!(tf::TF::interleaved(data)),
        Sym::Stf => thing!(tf::TF::standard(data)),
        Sym::Code128 => thing!(code128::Code128::new(data)),
    }
}

fn drawing(g: &Gen, k: usize) -> Thing {
    assert!(g.kind == Kind::Svg);
    let bits = g.bits.clone();
    let s = svg::SVG::new(g.height as u32)
        .foreground(svg::Color::new([k as u8, (k >> 8) as u8, 3, 4 | k as u8]))
        .xmlns(format!("urn:{}", k));
    // One of a pair of copies; the other is used and dropped.
    let t = s.clone();
    let _ = t.xdim(7).background(svg::Color::black()).generate(&bits);
    Box::new(move || s.generate(&bits).map(String::into_bytes).unwrap_or_else(|e| vec![errbit(e)]))
}

fn make(kind: &str, k: usize) -> Thing {
    match act(kind, k) {
        Case::Sym { sym, data, .. } => symbol(sym, &data),
        Case::Gen(g) => drawing(&g, k),
        c => panic!("no object for {:?}", c),
    }
}

/// A construction that is refused, and one whose check digit is (mostly) wrong.
fn refused(kind: &str, k: usize) {
    if let Case::Sym { sym, data, .. } = act(kind, k) {
        let mut c: Vec<char> = data.chars().collect();
        *c.last_mut().expect("data") = '\u{e9}';
        let foreign: String = c.iter().collect();
        drop(symbol(sym, &foreign));
        drop(symbol(sym, &format!("{}0", data)));
        drop(symbol(sym, ""));
    }
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Ev {
    New,
    Refused,
    /// Drop the i-th oldest.
    Drop(usize),
}

/// When the objects are used: bit 0: all after every event (else at the end only); bit 1: objects are made
/// on threads of their own; bit 2: dropped there.
type Mode = u64;
pub const MODES: Mode = 8;

struct World<'a> {
    kind: &'a str,
    mode: Mode,
    base: &'a Cells,
    live: Vec<(usize, Thing)>,
    made: usize,
}

impl World<'_> {
    fn apply(&mut self, e: Ev) {
        match e {
            Ev::New => {
                let (kind, k) = (self.kind, self.made);
                self.made += 1;
                let t = match self.mode & 2 {
                    0 => make(kind, k),
                    _ => std::thread::scope(|s| s.spawn(|| make(kind, k)).join().expect("made")),
                };
                self.live.push((k, t));
            }
            Ev::Refused => refused(self.kind, self.made),
            Ev::Drop(i) => {
                let t = self.live.remove(i);
                match self.mode & 4 {
                    0 => drop(t),
                    _ => std::thread::spawn(move || drop(t)).join().expect("dropped"),
                }
            }
        }
    }
    fn check(&self) -> Result<(), String> {
        let n = self.live.len();
        for i in (0..n).chain((0..n).rev()) {
            let (k, t) = &self.live[i];
            let o = t();
            board().counter(1).fetch_add(1, Relaxed);
            if hash(&o) != self.base.get(*k) {
                return Err(format!(
                    "the object made as number {} ({}) gives {}, not what it gives alone",
                    k + 1,
                    act(self.kind, *k).to_json().text(),
                    crate::hist::show(&o)
                ));
            }
        }
        Ok(())
    }
    /// In a process of its own where the mode says so, so that it leaves nothing behind.
    fn check_now(&self) -> i32 {
        let f = || match self.check() {
            Ok(()) => 0,
            Err(m) => {
                board().message(&m);
                1
            }
        };
        match self.mode & 1 {
            1 => f(),
            _ => forked(60, f),
        }
    }
}

fn baseline(kind: &str, n: usize) -> Cells {
    let c = Cells::make(n);
    for k in 0..n {
        let r = forked(60, || {
            c.put(k, hash(&make(kind, k)()));
            0
        });
        assert!(r == 0, "{} {} alone ends with {}", kind, k, r);
    }
    c
}

fn to_json(h: &[Ev]) -> J {
    J::Arr(
        h.iter()
            .map(|e| match e {
                Ev::New => J::s("new"),
                Ev::Refused => J::s("refused"),
                Ev::Drop(i) => J::num(*i as u64),
            })
            .collect(),
    )
}

fn from_json(j: &J) -> Option<Vec<Ev>> {
    let ev = |x: &J| match (x.str(), x.u64()) {
        (Some("new"), _) => Some(Ev::New),
        (Some(_), _) => Some(Ev::Refused),
        (_, i) => Some(Ev::Drop(i? as usize)),
    };
    j.arr()?.iter().map(ev).collect()
}

fn next(live: usize, most: usize) -> Vec<Ev> {
    let mut v = vec![];
    if live < most {
        v.push(Ev::New);
    }
    v.push(Ev::Refused);
    v.extend((0..live).map(Ev::Drop));
    v
}

/// Every continuation, each in a process of its own.
fn tree(w: &mut World, h: &mut Vec<Ev>, most: usize, depth: usize) -> i32 {
    if h.len() == depth {
        return 0;
    }
    for e in next(w.live.len(), most) {
        if h.last() == Some(&Ev::Refused) && e == Ev::Refused {
            continue;
        }
        h.push(e);
        let r = forked(200, || {
            w.apply(e);
            let r = w.check_now();
            if r != 0 {
                let m = if r == 1 { board().take_message() } else { describe(r) };
                board().message(&format!("{}\n{}", to_json(h).text(), m));
                return 1;
            }
            tree(w, h, most, depth)
        });
        if r != 0 {
            if r != 1 {
                board().message(&format!("{}\n{}", to_json(h).text(), describe(r)));
            }
            return 1;
        }
        h.pop();
    }
    0
}

/// Many at once: `n` made, some dropped, as many made again, all used; in several orders.
fn many(kind: &str, n: usize, pattern: u64) -> Option<String> {
    let base = Cells::make(2 * n);
    // Made and used alone, one after the other, each dropped at once.
    let r = forked(300, || {
        for k in 0..2 * n {
            base.put(k, hash(&make(kind, k)()));
        }
        0
    });
    if r != 0 {
        return Some(format!("one after the other: {}", describe(r)));
    }
    let r = forked(300, || {
        let mut w = World { kind, mode: 1, base: &base, live: vec![], made: 0 };
        for _ in 0..n {
            w.apply(Ev::New);
        }
        let keep = |i: usize| match pattern {
            0 => i % 2 == 0,
            1 => i % 2 == 1,
            2 => i >= n / 2,
            3 => i < n / 2,
            4 => i % 3 == 0,
            5 => i + 1 == n,
            6 => i == 0,
            _ => true,
        };
        let f = |m: String| {
            board().message(&m);
            1
        };
        if pattern % 2 == 0 {
            if let Err(m) = w.check() {
                return f(m);
            }
        }
        let mut kept = vec![];
        let mut gone = vec![];
        for (i, t) in w.live.drain(..).enumerate() {
            if keep(i) { kept.push(t) } else { gone.push(t) }
        }
        if pattern % 3 == 0 {
            gone.reverse();
        }
        let again = gone.len();
        gone.into_iter().for_each(drop);
        w.live = kept;
        for _ in 0..again.max(1) {
            w.apply(Ev::New);
        }
        match w.check() {
            Ok(()) => 0,
            Err(m) => f(m),
        }
    });
    match r {
        0 => None,
        1 => Some(board().take_message()),
        r => Some(describe(r)),
    }
}

pub fn explore(j: &J) -> Option<Viol> {
    let n = |k: &str| j.get(k).and_then(|x| x.u64()).unwrap_or(0);
    let kind = j.get("objects")?.str()?;
    let mode = n("mode");
    match j.get("kind")?.str()? {
        "lives" => {
            let h = from_json(j.get("events")?)?;
            let base = baseline(kind, h.len());
            let r = forked(120, || {
                let mut w = World { kind, mode, base: &base, live: vec![], made: 0 };
                for (i, e) in h.iter().enumerate() {
                    w.apply(*e);
                    if mode & 1 == 1 || i + 1 == h.len() {
                        let r = w.check_now();
                        if r != 0 {
                            if r != 1 {
                                board().message(&describe(r));
                            }
                            return 1;
                        }
                    }
                }
                0
            });
            match r {
                0 => None,
                1 => Some((j.clone(), board().take_message())),
                r => Some((j.clone(), describe(r))),
            }
        }
        "lives-many" => many(kind, n("n") as usize, n("pattern")).map(|m| (j.clone(), m)),
        _ => {
            let (most, depth) = (n("most") as usize, n("depth") as usize);
            let base = baseline(kind, depth);
            let r = forked(800, || {
                let mut w = World { kind, mode, base: &base, live: vec![], made: 0 };
                tree(&mut w, &mut vec![], most, depth)
            });
            if r == 0 {
                return None;
            }
            let m = board().take_message();
            let (h, why) = m.split_once('\n').unwrap_or(("[]", "the process ends badly"));
            let events = crate::json::parse(h).unwrap_or(J::Arr(vec![]));
            let v = vec![("objects", J::s(kind)), ("mode", J::num(mode)), ("events", events)];
            Some((obj("lives", v), why.to_string()))
        }
    }
}

/// Tasks: every history, and many objects at once.
pub fn tasks(quick: bool) -> [(&'static str, String, Vec<J>); 2] {
    let (most, depth) = if quick { (4, 8) } else { (5, 9) };
    let mut a = vec![];
    for k in KINDS {
        for mode in 0..MODES {
            // Threads cost more.
            let depth = if mode > 1 { depth - 2 } else { depth };
            let v = vec![("objects", J::s(*k)), ("mode", J::num(mode)), ("most", J::num(most)), ("depth", J::num(depth))];
            a.push(obj("lives-tree", v));
        }
    }
    let mut b = vec![];
    let sizes: &[u64] = match quick {
        true => &[5, 8, 16, 17, 33, 64, 128, 256, 257, 1000, 5000],
        false => &[5, 6, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 1000, 1024, 4097, 16_385, 70_000],
    };
    for k in KINDS {
        for n in sizes {
            for p in 0..8u64 {
                if *n < 5000 || !quick || p % 4 == 0 {
                    b.push(obj("lives-many", vec![("objects", J::s(*k)), ("n", J::num(*n)), ("pattern", J::num(p))]));
                }
            }
        }
    }
    [
        (
            "lifetimes: every history of making and dropping",
            format!("{} kinds, at most {} alive, depth {} ({} with threads), used throughout or at the end", KINDS.len(), most, depth, depth - 2),
            a,
        ),
        ("lifetimes: many at once", format!("{} kinds, {:?} alive, 8 orders of dropping", KINDS.len(), sizes), b),
    ]
}
