//! C25: memory held by a call, and memory left behind by repeated histories of calls. The allocator of
//! the process keeps the account (see alloc.rs).

use crate::alloc::{live, peak_of, CTL};
use crate::case::{Case, Gen, Kind, BLACK, WHITE};
use crate::engine::{Ctx, Worker};
use crate::hist;
use crate::imp::{self, Fmt};
use crate::json::J;
use crate::refs::{Sym, FNC1, SEL_A, SEL_B, SEL_C, SHIFT};
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};
use std::time::{Duration, Instant};

const SYMS: [Sym; 12] = [
    Sym::Ean13,
    Sym::Upca,
    Sym::Ean8,
    Sym::Supp,
    Sym::Code39,
    Sym::Code39C,
    Sym::Code93,
    Sym::Code11,
    Sym::Codabar,
    Sym::Itf,
    Sym::Stf,
    Sym::Code128,
];

/// Largest share of its allowance any call took, in percent.
static WORST: AtomicU64 = AtomicU64::new(0);

/// Bytes a call may hold at a time for each byte of data, module, character of output or byte of picture.
const EACH: u64 = 128;
/// And whatever it handles.
const TEXT: u64 = 1 << 18;
const IMAGE: u64 = 16 << 20;

/// Checks one call's peak.
fn space(peak: i64, handled: u64, pixels: u64, base: u64) -> Result<(), String> {
    let may = EACH * handled + 64 * pixels + base;
    WORST.fetch_max(peak.max(0) as u64 * 100 / may, Relaxed);
    if peak as i128 > may as i128 {
        return Err(format!("holds {} bytes at a time to handle {} bytes of data and output and {} pixels", peak, handled, pixels));
    }
    Ok(())
}

/// Repeats `f` and fails if what stays allocated keeps growing. Measured after 4, 8, 16 ... repetitions, so
/// that a collection which doubles its capacity when full shows up as well.
fn repeat(mut f: impl FnMut() -> Result<(), String>) -> Result<(), String> {
    let (most, time) = match CTL.count.load(Relaxed) {
        2 => (14, Duration::from_secs(4)),
        _ => (5, Duration::from_secs(60)),
    };
    repeat_to(most, time, &mut f)
}

fn repeat_to(most: usize, time: Duration, f: &mut dyn FnMut() -> Result<(), String>) -> Result<(), String> {
    let t = Instant::now();
    let mut at = [0i64; 32];
    let mut n = 0u64;
    let mut k = 2;
    while k <= most && (k <= 5 || t.elapsed() < time) {
        while n < 1 << k {
            f()?;
            n += 1;
        }
        at[k] = live();
        k += 1;
    }
    k -= 1;
    if at[k] > at[k - 1] && at[k - 1] > at[k - 2] && at[k - 2] > at[k - 3] {
        return Err(format!(
            "memory stays behind: {} more bytes after {} repetitions than after {}, {} more than after {}",
            at[k] - at[k - 3],
            1 << k,
            1 << (k - 3),
            at[k] - at[k - 1],
            1 << (k - 1)
        ));
    }
    Ok(())
}

fn one_sym(sym: Sym, via: u8, data: &str) -> Result<(), String> {
    let ((), peak, out) = {
        let (r, peak) = peak_of(|| imp::encode(sym, via, data));
        ((), peak, matches!(&r, Ok(Ok(_))).then(|| r.unwrap().unwrap().len()).unwrap_or(0))
    };
    space(peak, (data.len() + out) as u64, 0, TEXT)
}

fn one_gen(g: &Gen) -> Result<(), String> {
    let n = g.bits.len() as u64;
    match g.kind {
        Kind::Ascii | Kind::Json | Kind::Svg => {
            let (r, peak) = peak_of(|| match g.kind {
                Kind::Ascii => imp::gen_ascii(g.height as usize, g.xdim as usize, &g.bits),
                Kind::Json => imp::gen_json(g.height as usize, g.xdim as usize, &g.bits),
                _ => imp::gen_svg(g.height as u32, g.xdim as u32, g.fg, g.bg, g.xmlns.as_deref(), &g.bits),
            });
            let out = match &r {
                Ok(Ok(s)) => s.len() as u64,
                _ => 0,
            };
            drop(r);
            // At least one row of the picture.
            let row = match g.kind {
                Kind::Ascii => (n as u128 * g.xdim as u128).min(1 << 40) as u64,
                _ => 0,
            };
            space(peak, n + out.max(row) + g.xmlns.as_ref().map_or(0, |x| x.len() as u64), 0, TEXT)
        }
        Kind::File(f) | Kind::Buf(f) => {
            let img = imp::image(f, g.height as u32, g.xdim as u32, g.rot, g.fg, g.bg);
            let pixels = n as u128 * g.xdim as u128 * g.height as u128;
            // Not a picture at all: refused before anything is drawn.
            let none = n as u128 * g.xdim as u128 > u32::MAX as u128 || pixels > (isize::MAX / 4) as u128;
            let (ok, peak) = peak_of(|| match g.kind {
                Kind::File(_) => imp::gen_file(&img, &g.bits).map(|r| r.is_ok()),
                _ => imp::gen_buf(img, &g.bits).map(|r| r.is_ok()),
            });
            let _ = ok;
            space(peak, n, if none { 0 } else { pixels as u64 }, IMAGE)
        }
    }
}

pub fn judge(c: &Case) -> Result<String, String> {
    match c {
        Case::Sym { sym, via, data } => repeat(|| one_sym(*sym, *via, data))?,
        Case::Rep { sym, pre, unit, count, post } => {
            let s = format!("{}{}{}", pre, unit.repeat(*count as usize), post);
            repeat(|| one_sym(*sym, 0, &s))?
        }
        Case::Gen(g) => repeat(|| one_gen(g))?,
        Case::Hist(j) => {
            let names = hist::op_names();
            let ops: Vec<usize> = j
                .get("repeated")
                .and_then(|a| a.arr())
                .into_iter()
                .flatten()
                .filter_map(|n| names.iter().position(|m| Some(*m) == n.str()))
                .collect();
            let threads = matches!(j.get("on_new_threads"), Some(J::Bool(true)));
            if threads && CTL.count.load(Relaxed) != 2 {
                return Ok("judged only in a process of its own".into());
            }
            repeat(|| {
                match threads {
                    false => ops.iter().for_each(|&i| drop(hist::run_op(i))),
                    true => {
                        let o = ops.clone();
                        let _ = std::thread::spawn(move || o.iter().for_each(|&i| drop(hist::run_op(i)))).join();
                    }
                }
                Ok(())
            })?
        }
        _ => (),
    }
    Ok("nothing stays behind".into())
}

/// Judges on this thread; what looks wrong is judged again alone in a process of its own.
fn case(w: &mut Worker, c: &Case) {
    w.states += 1;
    w.transitions += 1;
    w.enter(c);
    let r = judge(c);
    w.leave();
    w.execs += 32;
    settle(w, c, r);
}
fn settle(w: &mut Worker, c: &Case, r: Result<String, String>) {
    match r {
        Ok(o) if w.execs <= 32 && w.id == 0 => w.ctx.sample(c, &o),
        Ok(_) => (),
        Err(_) => {
            if let crate::Apart::Violated(m) = crate::judge_apart_as("C25", c, 60, w.id) {
                w.ctx.violation(c.clone(), m.strip_prefix("C25: ").unwrap_or(&m).to_string());
            }
        }
    }
}
fn sym(w: &mut Worker, s: Sym, via: u8, data: &str) {
    w.states += 1;
    w.transitions += 1;
    w.enter_sym(s, via, data);
    let r = repeat(|| one_sym(s, via, data));
    w.leave();
    w.execs += 32;
    if r.is_err() || w.execs <= 32 {
        let c = Case::Sym { sym: s, via, data: data.to_string() };
        settle(w, &c, r.map(|_| "nothing stays behind".into()));
    }
}

fn letters(s: Sym) -> Vec<char> {
    match s {
        Sym::Code128 => {
            let mut v: Vec<char> = "\u{1}\u{1f} 059AZ_`az~\u{7f}\u{e9}".chars().collect();
            v.extend([SEL_A, SEL_B, SEL_C, FNC1, '\u{17A}', '\u{17B}', '\u{17C}', SHIFT, '\u{f7}']);
            v
        }
        _ => s.alphabet().chars().chain(['a', '\u{e9}', ' ']).collect(),
    }
}

/// The word with index i over `a` in length-lexicographic order.
fn word(a: &[char], mut i: usize) -> String {
    let mut n = 0;
    let mut m = 1;
    while i >= m {
        i -= m;
        m *= a.len();
        n += 1;
    }
    (0..n)
        .map(|_| {
            let c = a[i % a.len()];
            i /= a.len();
            c
        })
        .collect()
}

pub fn explore(ctx: &Ctx) {
    CTL.count.store(1, Relaxed);
    // Histories.
    let names = hist::op_names();
    let k = names.len();
    let hist = |v: &[usize]| Case::Hist(J::Obj(vec![("repeated".into(), J::Arr(v.iter().map(|&i| J::s(names[i])).collect()))]));
    ctx.par("repeated histories", "every one or two of the operations, 32 times over", k + k * k, 8, |w, i| {
        match i {
            i if i < k => case(w, &hist(&[i])),
            i => case(w, &hist(&[(i - k) / k, (i - k) % k])),
        }
    });
    let light: Vec<usize> = (0..k).filter(|&i| !["GIF", "PNG", "WEBP", "shared", "over"].iter().any(|p| names[i].starts_with(p))).collect();
    let few: Vec<usize> = light.iter().copied().step_by(ctx.qt(2, 1)).collect();
    let q = few.len();
    ctx.par("repeated histories of three", &format!("every three of {} operations, 32 times over", q), q * q * q, 8, |w, i| {
        case(w, &hist(&[few[i / q / q], few[i / q % q], few[i % q]]))
    });
    let long = ctx.qt(13, 18);
    ctx.par("long repetition", &format!("every operation 2^{} times", long), k, 1, |w, i| {
        let c = hist(&[i]);
        w.states += 1;
        w.transitions += 1;
        w.enter(&c);
        let mut n = 0;
        let r = repeat_to(long, Duration::from_secs(ctx.qt(20, 60)), &mut || {
            drop(hist::run_op(i));
            n += 1;
            Ok(())
        });
        w.leave();
        w.execs += n + 32;
        settle(w, &c, r.map(|_| String::new()));
    });
    // On a new thread each time. All threads are counted here, so one item after another.
    let lock = std::sync::Mutex::new(());
    let reps = ctx.qt(6, 9);
    ctx.par("repeated on new threads", &format!("every operation on 2^{} threads one after another", reps), 1, 1, |w, _| {
        let _only = lock.lock();
        CTL.count.store(2, Relaxed);
        for i in 0..k {
            let j = vec![("repeated".into(), J::Arr(vec![J::s(names[i])])), ("on_new_threads".into(), J::Bool(true))];
            let c = Case::Hist(J::Obj(j));
            w.states += 1;
            w.transitions += 1;
            w.enter(&c);
            let r = repeat_to(reps, Duration::from_secs(60), &mut || {
                let _ = std::thread::spawn(move || drop(hist::run_op(i))).join();
                Ok(())
            });
            w.leave();
            w.execs += 32 + (1 << reps);
            settle(w, &c, r.map(|_| String::new()));
        }
        CTL.count.store(1, Relaxed);
    });
    // Data.
    let budget = ctx.qt(40_000, 400_000);
    for s in SYMS {
        let a = letters(s);
        let (mut n, mut m) = (1, 1);
        for _ in 0..if a.len() < 20 { 7 } else { 4 } {
            m *= a.len();
            if n + m > budget * 3 {
                break;
            }
            n += m;
        }
        let pre: &[&str] = if s == Sym::Code128 { &["", "\u{c0}", "\u{181}", "\u{106}"] } else { &[""] };
        ctx.par(&format!("{}: short words", s.name()), &format!("{} words over {} characters", n, a.len()), n, 64, |w, i| {
            let t = word(&a, i);
            for p in pre {
                for via in 0..imp::vias(s) {
                    sym(w, s, via, &format!("{}{}", p, t));
                }
            }
        });
        let alpha: Vec<char> = match s {
            Sym::Code128 => "A7\u{1}a".chars().collect(),
            _ => s.alphabet().chars().collect(),
        };
        let pre: &[&str] = if s == Sym::Code128 { &["\u{c0}", "\u{181}", "\u{106}"] } else { &[""] };
        ctx.par(&format!("{}: every length", s.name()), "1..300 and powers of two to 65536, uniform and mixed data, one foreign character at either end", 300 + 8, 2, |w, i| {
            let n = if i < 300 { i + 1 } else { 512 << (i - 300) };
            let mut fills: Vec<String> = [0, alpha.len() / 2, alpha.len() - 1].iter().map(|&j| alpha[j].to_string().repeat(n)).collect();
            fills.push((0..n).map(|j| alpha[(j * j + 3 * j) % alpha.len()]).collect());
            for t in &fills {
                for p in pre {
                    sym(w, s, 0, &format!("{}{}", p, t));
                    sym(w, s, 0, &format!("{}{}\u{e9}", p, t));
                    sym(w, s, 0, &format!("\u{e9}{}{}", p, t));
                }
            }
        });
        if matches!(s, Sym::Ean13 | Sym::Upca | Sym::Ean8 | Sym::Supp) {
            let full = match s {
                Sym::Ean13 => 13,
                Sym::Upca => 12,
                Sym::Ean8 => 8,
                _ => 5,
            };
            ctx.par(&format!("{}: numbers", s.name()), "4 bases x every two places x every two digits, with and without check digit", full * full * 100, 16, |w, i| {
                let (a, b) = (i / 100 / full, i / 100 % full);
                for base in ["0000000000000", "9999999999999", "1234567890128", "9780201379624"] {
                    let mut d: Vec<u8> = base.bytes().take(full).collect();
                    d[a] = b'0' + (i % 10) as u8;
                    d[b] = b'0' + (i / 10 % 10) as u8;
                    for n in [full - 1, full] {
                        sym(w, s, 0, std::str::from_utf8(&d[..n]).expect("digits"));
                    }
                }
            });
        }
        let low = ctx.qt(0x250, 0x3000);
        ctx.par(&format!("{}: one character", s.name()), &format!("every character below U+{:04X} alone and after valid data", low), low, 16, |w, i| {
            let Some(c) = char::from_u32(i as u32) else { return };
            for p in pre {
                sym(w, s, 0, &format!("{}{}", p, c));
                sym(w, s, 0, &format!("{}{}{}", p, alpha[1].to_string().repeat(6), c));
            }
        });
    }
    // Generators.
    let mut kinds = vec![Kind::Ascii, Kind::Json, Kind::Svg];
    for f in [Fmt::Buf, Fmt::Png, Fmt::Gif, Fmt::Webp] {
        kinds.extend([Kind::Buf(f), Kind::File(f)]);
    }
    let cols = [(BLACK, WHITE), ([255, 0, 16, 255], [0, 200, 255, 255]), ([1, 2, 3, 0], [1, 2, 3, 128])];
    let maxlen = ctx.qt(7, 10);
    ctx.par("generators: modules and settings", &format!("all words of <= {} modules x heights 0..3 x xdims 0..3 x rotations x colours x kinds", maxlen), (2 << maxlen) - 1, 1, |w, i| {
        let n = (i + 1).ilog2();
        let bits: Vec<u8> = (0..n).map(|j| ((i + 1) >> j & 1) as u8).collect();
        for &k in &kinds {
            let file = matches!(k, Kind::File(_));
            // Encoders are slow: not every combination of settings for them.
            for h in [0, 1, 3] {
                for x in [0, 1, 2] {
                    let images = matches!(k, Kind::File(_) | Kind::Buf(_));
                    for rot in 0..if images && (!file || (h == 3 && x == 2)) { 4 } else { 1 } {
                        for (j, &(fg, bg)) in cols.iter().enumerate() {
                            if file && j != (h + x) as usize % 3 && n > 4 {
                                continue;
                            }
                            let mut g = Gen::new(k, &bits, h, x).rot(rot).colors(fg, bg);
                            if k == Kind::Svg && j == 1 {
                                g.xmlns = Some("http://www.w3.org/2000/svg".into());
                            }
                            case(w, &Case::Gen(g));
                        }
                    }
                }
            }
        }
    });
    // Sizes: every one on a ladder of lengths, heights and xdims, together, up to a number of cells.
    let ns = [0, 1, 2, 3, 7, 30, 95, 96, 255, 256, 1000, 4097, 20000];
    let hs = [0u64, 1, 2, 10, 80, 255, 256, 1000, 4000, 16385, 65536, 1 << 31, u32::MAX as u64];
    let xs = [0u64, 1, 2, 3, 10, 100, 256, 1000, 16385, 65536, 1 << 28, 1 << 31, u32::MAX as u64];
    let cells = ctx.qt(300_000, 6_000_000);
    let all = ns.len() * hs.len() * xs.len();
    ctx.par("generators: sizes", &format!("all of {} lengths x {} heights x {} xdims with at most {} cells or beyond every limit", ns.len(), hs.len(), xs.len(), cells), all, 1, |w, i| {
        let (n, h, x) = (ns[i % ns.len()], hs[i / ns.len() % hs.len()], xs[i / ns.len() / hs.len()]);
        let bits: Vec<u8> = (0..n).map(|j| (j * j % 3 != 0) as u8).collect();
        let area = n as u128 * x as u128 * h as u128;
        for &k in &kinds {
            let refused = n as u128 * x as u128 > u32::MAX as u128 || area > (isize::MAX / 4) as u128;
            let fits = match k {
                Kind::Json | Kind::Svg => true,
                Kind::Ascii => area + h as u128 <= 4 * cells as u128 && n as u128 * x as u128 <= 4 * cells as u128,
                // An empty picture has rows or columns all the same.
                _ => refused || (area <= cells as u128 && n as u128 * x as u128 <= 1 << 22 && h <= 1 << 22),
            };
            if fits {
                case(w, &Case::Gen(Gen::new(k, &bits, h, x)));
            }
        }
    });
    ctx.extra.lock().unwrap().push(("largest_share_of_allowance_percent".into(), J::num(WORST.load(Relaxed))));
}
