//! C22: histories of calls, assignments of calls to threads, nested calls, and preemption of one call
//! by another, all on the real code. Every explored state is a forked process, so each branch starts
//! from exactly the state its history left behind.

use crate::engine::Ctx;
use crate::imp::{catch, errbit};
use crate::json::{self, J};
use barcoders::error::Error;
use barcoders::generators::{ascii::ASCII, image as gi, json::JSON, svg};
use barcoders::sym::{
    codabar::Codabar, code11::Code11, code128::Code128, code39::Code39, code93::Code93, ean13::EAN13,
    ean8::EAN8, ean_supp::EANSUPP, tf::TF, upca::UPCA,
};
use std::cell::Cell;
use std::io::Write;
use std::sync::atomic::{AtomicBool, AtomicI32, AtomicU32, AtomicU64, AtomicUsize, Ordering::*};
use std::time::{Duration, Instant};

pub type Out = Vec<u8>;

// ---------------------------------------------------------------- operations

/// Objects that live as long as the process, made on first use.
#[derive(Default)]
struct Env {
    e13: Option<EAN13>,
    c39: Option<Code39>,
    c39c: Option<Code39>,
    c93: Option<Code93>,
    c11: Option<Code11>,
    c128: Option<Code128>,
    itf: Option<TF>,
    coda: Option<Codabar>,
    e8: Option<EAN8>,
    supp: Option<EANSUPP>,
    upca: Option<UPCA>,
    ascii: Option<ASCII>,
    json: Option<JSON>,
    svg: Option<svg::SVG>,
    png: Option<gi::Image>,
    buf: Option<gi::Image>,
}

thread_local! {
    /// Operation to run inside an as_ref call (a nested, overlapping call): after how many as_ref calls,
    /// and whether on a thread of its own that is waited for.
    static NEST: Cell<Option<(usize, u32, bool)>> = const { Cell::new(None) };
    static NESTED: Cell<Option<bool>> = const { Cell::new(None) };
    /// Operation that calls others of its kind in its first as_ref call, how many levels more, and whether
    /// each on a thread of its own.
    static CHAIN: Cell<(usize, u32, bool)> = const { Cell::new((0, 0, false)) };
}
/// A link of a chain has given another result than alone.
static BROKEN: AtomicBool = AtomicBool::new(false);

fn link(first: usize, left: u32, elsewhere: bool) {
    let i = mixed(first, left as usize, true);
    let o = {
        let old = CHAIN.with(|c| c.replace((first, left, elsewhere)));
        let o = run_prepared(i);
        CHAIN.with(|c| c.set(old));
        o
    };
    if o != base()[i] && !BROKEN.swap(true, SeqCst) {
        board().message(&format!(
            "{} with {} more calls of its kind inside returns {} but alone it returns {}",
            OPS[i].name,
            left,
            show(&o),
            show(&base()[i])
        ));
    }
}

/// Operations of the same kind as `a` (which is the first).
fn kin(a: usize) -> Vec<usize> {
    let kind = |i: usize| OPS[i].name.trim_start_matches("shared ").split([' ', '+']).next().unwrap_or("");
    let mut v = vec![a];
    v.extend((0..OPS.len()).filter(|&i| i != a && kind(i) == kind(a)));
    v
}

/// The k-th of a sequence of operations of one kind without a period: whatever two distances apart
/// interfere, some pair of different operations is that far apart. Never `a` twice in a row.
fn mixed(a: usize, k: usize, text: bool) -> usize {
    let mut v = kin(a);
    if text {
        // Only those that take an argument through as_ref.
        v.retain(|&i| i == a || !OPS[i].name.starts_with("shared"));
    }
    if k == 0 || v.len() == 1 {
        return a;
    }
    if k == 1 {
        return v[1];
    }
    v[(k.wrapping_mul(0x9e3779b97f4a7c15) >> 40) % v.len()]
}

fn nested() {
    let (i, left, elsewhere) = CHAIN.with(|c| c.replace((0, 0, false)));
    if left > 0 {
        match elsewhere {
            true => {
                let t = std::thread::Builder::new().stack_size(256 << 10);
                let _ = t.spawn(move || link(i, left - 1, true)).expect("thread").join();
            }
            false => link(i, left - 1, false),
        }
    }
    match NEST.with(|n| n.take()) {
        Some((i, 0, elsewhere)) => {
            let o = match elsewhere {
                true => std::thread::spawn(move || run_prepared(i)).join().unwrap_or_default(),
                false => run_prepared(i),
            };
            NESTED.with(|n| n.set(Some(o == base()[i])));
        }
        Some((i, k, e)) => NEST.with(|n| n.set(Some((i, k - 1, e)))),
        None => (),
    }
}

/// Text argument; heap allocated, so that equal addresses come and go with different contents.
struct S(String);
impl AsRef<str> for S {
    fn as_ref(&self) -> &str {
        nested();
        &self.0
    }
}
/// Module argument.
struct B(Vec<u8>);
impl AsRef<[u8]> for B {
    fn as_ref(&self) -> &[u8] {
        nested();
        &self.0
    }
}
fn s(t: &str) -> S {
    S(String::from(t))
}
fn x() -> B {
    B(vec![1, 0, 1, 1, 0])
}
/// Same length and sum as x().
fn y() -> B {
    B(vec![0, 1, 1, 0, 1])
}

fn z() -> B {
    B(vec![1, 0, 0, 1, 0, 1, 1])
}
/// As many modules as an EAN-13.
fn real() -> B {
    B((0..95).map(|i| (i * i % 11 < 5) as u8).collect())
}
fn inverse() -> gi::Image {
    gi::Image::ImageBuffer {
        height: 2,
        xdim: 1,
        rotation: gi::Rotation::Zero,
        foreground: gi::Color::white(),
        background: gi::Color::black(),
    }
}

fn bytes(r: Result<Vec<u8>, Error>) -> Out {
    match r {
        Ok(mut b) => {
            b.insert(0, 0);
            b
        }
        Err(e) => vec![errbit(e)],
    }
}
fn string(r: Result<String, Error>) -> Out {
    bytes(r.map(|t| t.into_bytes()))
}
type Buf = Result<barcoders_image::ImageBuffer<barcoders_image::Rgba<u8>, Vec<u8>>, Error>;
use image as barcoders_image;
fn buffer(r: Buf) -> Out {
    bytes(r.map(|b| {
        let mut v = vec![b.width() as u8, b.height() as u8];
        v.extend(b.into_raw());
        v
    }))
}

struct Op {
    name: &'static str,
    prep: fn(&mut Env),
    f: fn(&Env) -> Out,
}
fn none(_: &mut Env) {}

macro_rules! op {
    ($n:literal, $f:expr) => {
        Op {
            name: $n,
            prep: none,
            f: |_| $f,
        }
    };
}
macro_rules! obj {
    ($n:literal, $field:ident, $make:expr, $e:ident => $f:expr) => {
        Op {
            name: $n,
            prep: |e| {
                if e.$field.is_none() {
                    e.$field = Some($make);
                }
            },
            f: |e| {
                let $e = e.$field.as_ref().unwrap();
                $f
            },
        }
    };
}

fn red() -> [u8; 4] {
    [200, 10, 30, 128]
}

/// Same kind, same length, same digit sum or check digit where possible, and failing calls that stop
/// half way: whatever state a call might leave behind is what the next one would trip over.
static OPS: &[Op] = &[
    op!("EAN13 750103131130", bytes(EAN13::new(s("750103131130")).map(|b| b.encode()))),
    op!("EAN13 057103131130", bytes(EAN13::new(s("057103131130")).map(|b| b.encode()))),
    op!("EAN13 bad check digit", bytes(EAN13::new(s("7501031311308")).map(|b| b.encode()))),
    op!("EAN13 letters", bytes(EAN13::new(s("75010313113x")).map(|b| b.encode()))),
    op!("UPCA 12345678901", bytes(UPCA::new(s("12345678901")).map(|b| b.encode()))),
    op!("UPCA 32145678901", bytes(UPCA::new(s("32145678901")).map(|b| b.encode()))),
    op!("EAN8 1234567", bytes(EAN8::new(s("1234567")).map(|b| b.encode()))),
    op!("EAN8 3214567", bytes(EAN8::new(s("3214567")).map(|b| b.encode()))),
    op!("EANSUPP 51", bytes(EANSUPP::new(s("51")).map(|b| b.encode()))),
    op!("EANSUPP 15", bytes(EANSUPP::new(s("15")).map(|b| b.encode()))),
    op!("EANSUPP 51234", bytes(EANSUPP::new(s("51234")).map(|b| b.encode()))),
    op!("Code39 AB1", bytes(Code39::new(s("AB1")).map(|b| b.encode()))),
    op!("Code39 BA1", bytes(Code39::new(s("BA1")).map(|b| b.encode()))),
    op!("Code39+check AB1", bytes(Code39::with_checksum(s("AB1")).map(|b| b.encode()))),
    op!("Code39+check BA1", bytes(Code39::with_checksum(s("BA1")).map(|b| b.encode()))),
    op!("Code93 AB1", bytes(Code93::new(s("AB1")).map(|b| b.encode()))),
    op!("Code93 BA1", bytes(Code93::new(s("BA1")).map(|b| b.encode()))),
    op!("Code11 12-45", bytes(Code11::new(s("12-45")).map(|b| b.encode()))),
    op!("Code11 21-45", bytes(Code11::new(s("21-45")).map(|b| b.encode()))),
    op!("Code11 12345678901", bytes(Code11::new(s("12345678901")).map(|b| b.encode()))),
    op!("Codabar A12D", bytes(Codabar::new(s("A12D")).map(|b| b.encode()))),
    op!("Codabar A21D", bytes(Codabar::new(s("A21D")).map(|b| b.encode()))),
    op!("ITF 1234", bytes(TF::interleaved(s("1234")).map(|b| b.encode()))),
    op!("ITF 3214", bytes(TF::interleaved(s("3214")).map(|b| b.encode()))),
    op!("ITF 123", bytes(TF::interleaved(s("123")).map(|b| b.encode()))),
    op!("STF 1234", bytes(TF::standard(s("1234")).map(|b| b.encode()))),
    op!("STF 12a4", bytes(TF::standard(s("12a4")).map(|b| b.encode()))),
    op!("Code128 A HI", bytes(Code128::new(s("\u{c0}HI")).map(|b| b.encode()))),
    op!("Code128 B HI", bytes(Code128::new(s("\u{181}HI")).map(|b| b.encode()))),
    op!("Code128 B IH", bytes(Code128::new(s("\u{181}IH")).map(|b| b.encode()))),
    op!("Code128 C 1234", bytes(Code128::new(s("\u{106}1234")).map(|b| b.encode()))),
    op!("Code128 C 123, half a pair left", bytes(Code128::new(s("\u{106}123")).map(|b| b.encode()))),
    op!("Code128 A shift aA", bytes(Code128::new(s("\u{c0}\u{17d}aA")).map(|b| b.encode()))),
    op!("Code128 A shift, fails in shifted state", bytes(Code128::new(s("\u{c0}\u{17d}\u{1}")).map(|b| b.encode()))),
    op!("Code128 switches to B then fails", bytes(Code128::new(s("\u{c0}A\u{181}a\u{e9}")).map(|b| b.encode()))),
    op!("ASCII x 1x1", string(ASCII { height: 1, xdim: 1 }.generate(x()))),
    op!("ASCII y 1x1", string(ASCII { height: 1, xdim: 1 }.generate(y()))),
    op!("ASCII x 3x2", string(ASCII { height: 3, xdim: 2 }.generate(x()))),
    op!("JSON x", string(JSON { height: 1, xdim: 1 }.generate(x()))),
    op!("JSON y", string(JSON { height: 1, xdim: 1 }.generate(y()))),
    op!("SVG x", string(svg::SVG::new(2).generate(x()))),
    op!("SVG y colours", string(svg::SVG::new(2).foreground(svg::Color::new(red())).generate(y()))),
    op!("SVG x background, xdim 2", string(svg::SVG::new(2).xdim(2).background(svg::Color::new(red())).generate(x()))),
    op!("SVG x xmlns", string(svg::SVG::new(2).xmlns("urn:x".into()).generate(x()))),
    op!("buffer x", buffer(gi::Image::image_buffer(2).generate_buffer(x()))),
    op!("buffer y rotated, colours", buffer(img(1, gi::Rotation::Ninety).generate_buffer(y()))),
    op!("buffer x rotated 270", buffer(img(1, gi::Rotation::TwoSeventy).generate_buffer(x()))),
    op!("GIF x", bytes(gi::Image::gif(2).generate(x()))),
    op!("PNG y", bytes(gi::Image::png(2).generate(y()))),
    op!("WEBP x", bytes(gi::Image::webp(2).generate(x()))),
    op!("image buffer as bytes fails", bytes(gi::Image::image_buffer(2).generate(x()))),
    op!("over-wide buffer fails", buffer(img(u32::MAX, gi::Rotation::Zero).generate_buffer(x()))),
    op!("UPCA 98765432109", bytes(UPCA::new(s("98765432109")).map(|b| b.encode()))),
    op!("UPCA 123456789012", bytes(UPCA::new(s("123456789012")).map(|b| b.encode()))),
    op!("EAN13 with check digit", bytes(EAN13::new(s("5901234123457")).map(|b| b.encode()))),
    op!("EAN8 9876543", bytes(EAN8::new(s("9876543")).map(|b| b.encode()))),
    op!("EAN8 with check digit", bytes(EAN8::new(s("55123457")).map(|b| b.encode()))),
    op!("EANSUPP 24", bytes(EANSUPP::new(s("24")).map(|b| b.encode()))),
    op!("EANSUPP 42315", bytes(EANSUPP::new(s("42315")).map(|b| b.encode()))),
    op!("Code39+check AC1", bytes(Code39::with_checksum(s("AC1")).map(|b| b.encode()))),
    op!("Code93 AC1", bytes(Code93::new(s("AC1")).map(|b| b.encode()))),
    op!("Code11 12-46", bytes(Code11::new(s("12-46")).map(|b| b.encode()))),
    op!("Codabar B12D", bytes(Codabar::new(s("B12D")).map(|b| b.encode()))),
    op!("ITF 567", bytes(TF::interleaved(s("567")).map(|b| b.encode()))),
    op!("STF 5678", bytes(TF::standard(s("5678")).map(|b| b.encode()))),
    op!("Code128 C 5678", bytes(Code128::new(s("\u{106}5678")).map(|b| b.encode()))),
    op!("ASCII z 20x5", string(ASCII { height: 20, xdim: 5 }.generate(z()))),
    op!("JSON z 200x30", string(JSON { height: 200, xdim: 30 }.generate(z()))),
    op!("SVG z light on dark", string(svg::SVG::new(2).foreground(svg::Color::white()).background(svg::Color::black()).generate(z()))),
    op!("buffer z light on dark", buffer(inverse().generate_buffer(z()))),
    op!("Code39+check long", bytes(Code39::with_checksum(s("THE-QUICK.BROWN FOX/12345%")).map(|b| b.encode()))),
    op!("Code93 long", bytes(Code93::new(s("PACK MY BOX WITH-FIVE.DOZEN")).map(|b| b.encode()))),
    op!("Codabar long", bytes(Codabar::new(s("C98-7$6:5/4.3+210B")).map(|b| b.encode()))),
    op!("ITF long", bytes(TF::interleaved(s("98765432101234567890")).map(|b| b.encode()))),
    op!("STF long", bytes(TF::standard(s("31415926535897932384")).map(|b| b.encode()))),
    op!("Code128 long", bytes(Code128::new(s("\u{181}Mixed \u{106}0123456789\u{c0}CASE\u{17d}x\u{181}end")).map(|b| b.encode()))),
    op!("ASCII real 60x2", string(ASCII { height: 60, xdim: 2 }.generate(real()))),
    op!("JSON real", string(JSON::new().generate(real()))),
    op!("SVG real 80", string(svg::SVG::new(80).xdim(3).generate(real()))),
    op!("buffer real 40", buffer(gi::Image::image_buffer(40).generate_buffer(real()))),
    obj!("shared EAN13", e13, EAN13::new("750103131130").unwrap(), o => bytes(Ok(o.encode()))),
    obj!("shared UPCA", upca, UPCA::new("12345678901").unwrap(), o => bytes(Ok(o.encode()))),
    obj!("shared EAN8", e8, EAN8::new("1234567").unwrap(), o => bytes(Ok(o.encode()))),
    obj!("shared EANSUPP", supp, EANSUPP::new("51234").unwrap(), o => bytes(Ok(o.encode()))),
    obj!("shared Code39", c39, Code39::new("AB1").unwrap(), o => bytes(Ok(o.encode()))),
    obj!("shared Code39+check", c39c, Code39::with_checksum("AB1").unwrap(), o => bytes(Ok(o.encode()))),
    obj!("shared Code93", c93, Code93::new("AB1").unwrap(), o => bytes(Ok(o.encode()))),
    obj!("shared Code11", c11, Code11::new("12345678901").unwrap(), o => bytes(Ok(o.encode()))),
    obj!("shared Codabar", coda, Codabar::new("A12D").unwrap(), o => bytes(Ok(o.encode()))),
    obj!("shared ITF", itf, TF::interleaved("123").unwrap(), o => bytes(Ok(o.encode()))),
    obj!("shared Code128", c128, Code128::new("\u{106}1234\u{181}Hi").unwrap(), o => bytes(Ok(o.encode()))),
    obj!("shared ASCII x", ascii, ASCII { height: 2, xdim: 2 }, o => string(o.generate(x()))),
    obj!("shared JSON x", json, JSON { height: 2, xdim: 2 }, o => string(o.generate(x()))),
    obj!("shared SVG x", svg, shared_svg(), o => string(o.generate(x()))),
    obj!("shared SVG y", svg, shared_svg(), o => string(o.generate(y()))),
    obj!("shared PNG x", png, gi::Image::png(3), o => bytes(o.generate(x()))),
    obj!("shared PNG y", png, gi::Image::png(3), o => bytes(o.generate(y()))),
    obj!("shared buffer x", buf, gi::Image::image_buffer(2), o => buffer(o.generate_buffer(x()))),
];

fn shared_svg() -> svg::SVG {
    svg::SVG::new(4).xdim(3).foreground(svg::Color::new(red())).xmlns("urn:s".into())
}
fn img(xdim: u32, rotation: gi::Rotation) -> gi::Image {
    gi::Image::ImageBuffer {
        height: 2,
        xdim,
        rotation,
        foreground: gi::Color::new(red()),
        background: gi::Color::white(),
    }
}

/// For C25: the operations by name, and running one.
pub fn op_names() -> Vec<&'static str> {
    OPS.iter().map(|o| o.name).collect()
}
pub fn run_op(i: usize) -> Out {
    let mut e = Env::default();
    (OPS[i].prep)(&mut e);
    catch(|| (OPS[i].f)(&e)).unwrap_or_default()
}

fn find(n: &str) -> Option<usize> {
    OPS.iter().position(|o| o.name == n)
}

/// Cheap operations, one or two of each kind: preempted at every instruction.
const CORE: &[&str] = &[
    "EAN13 750103131130",
    "EAN13 057103131130",
    "UPCA 12345678901",
    "EAN8 1234567",
    "EANSUPP 51",
    "Code39+check AB1",
    "Code39+check BA1",
    "Code93 AB1",
    "Code11 12-45",
    "Codabar A12D",
    "ITF 123",
    "STF 1234",
    "Code128 A HI",
    "Code128 C 1234",
    "Code128 C 123, half a pair left",
    "ASCII x 3x2",
    "ASCII y 1x1",
    "JSON x",
    "JSON y",
    "SVG x",
    "SVG y colours",
    "buffer x",
    "buffer y rotated, colours",
    "shared Code39",
    "shared Code93",
    "shared SVG x",
    "shared EAN13",
    "shared Code128",
];

/// Run on three threads in every combination in the quick tier.
const THREE: &[&str] = &[
    "EAN13 750103131130",
    "EANSUPP 51",
    "Code39+check AB1",
    "Code93 AB1",
    "Codabar A12D",
    "ITF 123",
    "Code128 A HI",
    "ASCII x 3x2",
    "JSON x",
    "SVG y colours",
    "buffer x",
    "shared SVG x",
];

/// Pairs preempted at every instruction in the quick tier.
const QUICK_PAIRS: &[(&str, &str)] = &[
    ("SVG y colours", "SVG x"),
    ("EAN13 057103131130", "EAN13 750103131130"),
    ("Code93 AB1", "Code39+check BA1"),
    ("Code128 A HI", "Code128 C 123, half a pair left"),
    ("JSON x", "JSON y"),
    ("buffer x", "buffer y rotated, colours"),
    ("ASCII x 3x2", "ASCII y 1x1"),
    ("ITF 123", "Code11 12-45"),
];

/// Differ from another operation only in data.
const SECOND: &[&str] = &[
    "UPCA 98765432109",
    "UPCA 123456789012",
    "EAN13 with check digit",
    "EAN8 9876543",
    "EAN8 with check digit",
    "EANSUPP 24",
    "EANSUPP 42315",
    "Code39+check AC1",
    "Code93 AC1",
    "Code11 12-46",
    "Codabar B12D",
    "ITF 567",
    "STF 5678",
    "Code128 C 5678",
    "ASCII z 20x5",
    "JSON z 200x30",
    "SVG z light on dark",
    "buffer z light on dark",
    "Code39+check long",
    "Code93 long",
    "Codabar long",
    "ITF long",
    "STF long",
    "Code128 long",
    "ASCII real 60x2",
    "JSON real",
    "SVG real 80",
    "buffer real 40",
    "EAN13 letters",
    "UPCA 32145678901",
    "EAN8 3214567",
    "EANSUPP 15",
    "Code39 BA1",
    "Code39+check AB1",
    "Code11 21-45",
    "Codabar A21D",
    "ITF 1234",
    "STF 12a4",
    "Code128 B IH",
    "Code128 switches to B then fails",
    "ASCII x 1x1",
    "SVG x background, xdim 2",
    "buffer x rotated 270",
    "over-wide buffer fails",
    "shared UPCA",
    "shared EAN8",
    "shared EANSUPP",
    "shared Code11",
    "shared Codabar",
    "shared ITF",
    "shared ASCII x",
    "shared JSON x",
    "shared PNG y",
    "shared Code39+check",
];

/// Encodes a whole file.
fn file(i: usize) -> bool {
    ["GIF", "PNG", "WEBP", "shared PNG"].iter().any(|p| OPS[i].name.starts_with(p))
}

struct Shared(std::cell::UnsafeCell<Env>);
unsafe impl Sync for Shared {}
static ENV: Shared = Shared(std::cell::UnsafeCell::new(Env {
    e13: None,
    c39: None,
    c39c: None,
    c93: None,
    c11: None,
    c128: None,
    itf: None,
    coda: None,
    e8: None,
    supp: None,
    upca: None,
    ascii: None,
    json: None,
    svg: None,
    png: None,
    buf: None,
}));

/// Makes the shared object the operation needs. Never called while another thread runs an operation.
fn prep(i: usize) {
    (OPS[i].prep)(unsafe { &mut *ENV.0.get() })
}
fn run_prepared(i: usize) -> Out {
    let e = unsafe { &*ENV.0.get() };
    match catch(|| (OPS[i].f)(e)) {
        Ok(o) => o,
        Err(p) => {
            let mut v = vec![255];
            v.extend(p.bytes().take(120));
            v
        }
    }
}
fn run(i: usize) -> Out {
    prep(i);
    run_prepared(i)
}

pub fn show(o: &[u8]) -> String {
    match o.first() {
        Some(0) if o[1..].iter().all(|b| *b <= 1) => format!("Ok({})", crate::imp::show(&o[1..])),
        Some(0) => format!("Ok({:?})", String::from_utf8_lossy(&o[1..]).chars().take(160).collect::<String>()),
        Some(255) => String::from_utf8_lossy(&o[1..]).to_string(),
        Some(e) => format!("Err({})", crate::imp::errname(*e)),
        None => "nothing".into(),
    }
}

// ---------------------------------------------------------------- processes

const CELL: usize = 1 << 14;

/// Memory shared by a worker and the processes forked from it.
pub struct Board {
    base: *mut u8,
}
unsafe impl Sync for Board {}
static BOARD: AtomicUsize = AtomicUsize::new(0);

pub fn board() -> Board {
    Board {
        base: BOARD.load(Relaxed) as *mut u8,
    }
}
impl Board {
    fn make() {
        let n = CELL * (OPS.len() + 2);
        let p = unsafe {
            libc::mmap(
                std::ptr::null_mut(),
                n,
                libc::PROT_READ | libc::PROT_WRITE,
                libc::MAP_SHARED | libc::MAP_ANONYMOUS,
                -1,
                0,
            )
        };
        assert!(p != libc::MAP_FAILED, "mmap");
        BOARD.store(p as usize, Relaxed);
    }
    fn put(&self, i: usize, v: &[u8]) {
        let n = v.len().min(CELL - 8);
        unsafe {
            let p = self.base.add(i * CELL);
            *(p as *mut u64) = n as u64;
            std::ptr::copy_nonoverlapping(v.as_ptr(), p.add(8), n);
        }
    }
    fn get(&self, i: usize) -> Vec<u8> {
        unsafe {
            let p = self.base.add(i * CELL);
            std::slice::from_raw_parts(p.add(8), *(p as *const u64) as usize).to_vec()
        }
    }
    /// Counters: 0 processes, 1 calls, 2 preemption points, 3 blocked.
    pub fn counter(&self, k: usize) -> &AtomicU64 {
        unsafe { &*(self.base.add(OPS.len() * CELL) as *const AtomicU64).add(k) }
    }
    pub fn message(&self, m: &str) {
        self.put(OPS.len() + 1, m.as_bytes())
    }
    pub fn take_message(&self) -> String {
        String::from_utf8_lossy(&self.get(OPS.len() + 1)).to_string()
    }
}

/// Runs `f` in a forked process. 0: fine; 1: violation (see message); otherwise crash.
pub fn forked(secs: u32, f: impl FnOnce() -> i32) -> i32 {
    unsafe {
        let pid = libc::fork();
        if pid == 0 {
            libc::alarm(secs);
            let c = f();
            libc::_exit(c);
        }
        assert!(pid > 0, "fork");
        board().counter(0).fetch_add(1, Relaxed);
        let mut st = 0;
        while libc::waitpid(pid, &mut st, 0) < 0 {}
        if libc::WIFEXITED(st) {
            libc::WEXITSTATUS(st)
        } else {
            128 + libc::WTERMSIG(st)
        }
    }
}

static BASE: std::sync::OnceLock<Vec<Out>> = std::sync::OnceLock::new();
fn base() -> &'static Vec<Out> {
    BASE.get().expect("baseline")
}

/// What each operation returns when it is the first thing a process does.
fn baseline() -> Result<(), String> {
    for i in 0..OPS.len() {
        let r = forked(60, || {
            board().put(i, &run(i));
            0
        });
        if r != 0 {
            return Err(format!("{} alone: process ends with {}", OPS[i].name, r));
        }
    }
    let v = (0..OPS.len()).map(|i| board().get(i)).collect();
    let _ = BASE.set(v);
    Ok(())
}

/// Executes operation i and compares; Err after a mismatch.
fn step(i: usize, how: &str) -> Result<(), String> {
    let o = run(i);
    board().counter(1).fetch_add(1, Relaxed);
    if o == base()[i] {
        Ok(())
    } else {
        Err(format!("{}{} returns {} but alone it returns {}", OPS[i].name, how, show(&o), show(&base()[i])))
    }
}

fn names(h: &[usize]) -> J {
    J::Arr(h.iter().map(|&i| J::s(OPS[i].name)).collect())
}
pub fn obj(kind: &str, mut m: Vec<(&str, J)>) -> J {
    let mut v = vec![("kind".to_string(), J::s(kind))];
    v.extend(m.drain(..).map(|(k, j)| (k.to_string(), j)));
    J::Obj(v)
}

/// One violation: (history, message).
pub type Viol = (J, String);

// ---------------------------------------------------------------- sequential histories

/// All histories over `set` that extend `h` to length `depth`. Each node is a process of its own.
fn tree(set: &[usize], h: &mut Vec<usize>, depth: usize) -> i32 {
    if h.len() >= depth {
        return 0;
    }
    for &i in set {
        h.push(i);
        let r = forked(90, || match step(i, "") {
            Err(m) => {
                board().message(&format!("{}\n{}", names(h).text(), m));
                1
            }
            Ok(()) => tree(set, h, depth),
        });
        if r != 0 {
            if r != 1 {
                board().message(&format!("{}\nthe process ends with status {}", names(h).text(), r));
            }
            return 1;
        }
        h.pop();
    }
    0
}

fn message_history() -> Viol {
    let m = board().take_message();
    let (h, why) = m.split_once('\n').unwrap_or(("[]", &m));
    (
        obj("sequence", vec![("ops", json::parse(h).unwrap_or(J::Arr(vec![])))]),
        why.to_string(),
    )
}

fn sequence(h: &[usize]) -> Option<String> {
    let r = forked(120, || {
        for (k, &i) in h.iter().enumerate() {
            if let Err(m) = step(i, &format!(" as call {}", k + 1)) {
                board().message(&m);
                return 1;
            }
        }
        0
    });
    outcome(r)
}

fn outcome(r: i32) -> Option<String> {
    match r {
        0 => None,
        1 => Some(board().take_message()),
        142 => Some("the calls do not return (deadlock)".into()),
        r => Some(format!("the process ends with status {}", r)),
    }
}

/// `a` then `b` (may be equal), `n` times over, then every operation once.
fn repeat(a: usize, b: usize, n: u64) -> Option<String> {
    let r = forked(280, || {
        for k in 0..n {
            for i in [a, b] {
                if let Err(m) = step(i, &format!(" in round {}", k + 1)) {
                    board().message(&m);
                    return 1;
                }
                if a == b {
                    break;
                }
            }
        }
        for i in 0..OPS.len() {
            if let Err(m) = step(i, " afterwards") {
                board().message(&m);
                return 1;
            }
        }
        0
    });
    outcome(r)
}

// ---------------------------------------------------------------- threads

/// The calls of `h` one after another, call k on thread `on[k]` (0: the main thread); then everything
/// once on a new thread.
fn on_threads(h: &[usize], on: &[u8]) -> Option<String> {
    let r = forked(60, || {
        let (go, done) = (AtomicUsize::new(usize::MAX), AtomicU32::new(0));
        let quit = AtomicBool::new(false);
        let failed = std::sync::Mutex::new(None::<String>);
        std::thread::scope(|sc| {
            let needs = on.contains(&1);
            if needs {
                sc.spawn(|| {
                    while !quit.load(Acquire) {
                        let i = go.swap(usize::MAX, AcqRel);
                        if i == usize::MAX {
                            std::thread::yield_now();
                            continue;
                        }
                        if let Err(m) = step(i, " on the second thread") {
                            *failed.lock().unwrap() = Some(m);
                        }
                        done.store(1, Release);
                    }
                })
            } else {
                sc.spawn(|| {})
            };
            // The scoped handle is not kept: the thread polls.
            for (k, &i) in h.iter().enumerate() {
                if on[k] == 0 {
                    if let Err(m) = step(i, " on the main thread") {
                        *failed.lock().unwrap() = Some(m);
                    }
                } else {
                    done.store(0, Release);
                    go.store(i, Release);
                    while done.load(Acquire) == 0 {
                        std::thread::yield_now();
                    }
                }
            }
            quit.store(true, Release);
        });
        let f = failed.lock().unwrap().take();
        if let Some(m) = f {
            board().message(&m);
            return 1;
        }
        0
    });
    outcome(r)
}

// ---------------------------------------------------------------- nesting

/// Operation b runs inside a's k-th as_ref call, on the same thread or on another; for every k there is.
fn nest(a: usize, b: usize) -> Option<String> {
    for elsewhere in [false, true] {
        for k in 0..8 {
            let r = forked(30, || {
                prep(a);
                prep(b);
                NEST.with(|n| n.set(Some((b, k, elsewhere))));
                let o = run_prepared(a);
                NEST.with(|n| n.set(None));
                board().counter(1).fetch_add(2, Relaxed);
                if o != base()[a] {
                    board().message(&format!(
                        "{} with {} called inside returns {} but alone it returns {}",
                        OPS[a].name,
                        OPS[b].name,
                        show(&o),
                        show(&base()[a])
                    ));
                    return 1;
                }
                if NESTED.with(|n| n.get()) == Some(false) {
                    board().message(&format!("{} called inside {} gives another result", OPS[b].name, OPS[a].name));
                    return 1;
                }
                for i in [a, b] {
                    if let Err(m) = step(i, " afterwards") {
                        board().message(&m);
                        return 1;
                    }
                }
                // There are no more as_ref calls.
                if NESTED.with(|n| n.get()).is_none() {
                    return 2;
                }
                0
            });
            match r {
                0 => (),
                2 => break,
                _ => return outcome(r),
            }
        }
    }
    None
}

/// The operation inside others of its kind, n deep.
fn chain(a: usize, n: u32, elsewhere: bool) -> Option<String> {
    let r = forked(60, || {
        for i in kin(a) {
            prep(i);
        }
        link(a, n, elsewhere);
        board().counter(1).fetch_add(n as u64 + 1, Relaxed);
        if BROKEN.load(SeqCst) {
            return 1;
        }
        for i in kin(a) {
            if let Err(m) = step(i, " afterwards") {
                board().message(&m);
                return 1;
            }
        }
        0
    });
    outcome(r)
}

// ---------------------------------------------------------------- surroundings

/// Where a call can be made from.
const PLACES: [&str; 11] = [
    "the main thread",
    "a destructor while the thread unwinds",
    "a destructor while a new thread unwinds",
    "a thread called main",
    "a thread without a name",
    "the initialisation of a static",
    "an empty environment",
    "a full environment",
    "one processor",
    "three processors",
    "output that cannot be written",
];

struct OnDrop<'a>(usize, &'a mut Out);
impl Drop for OnDrop<'_> {
    fn drop(&mut self) {
        *self.1 = run_prepared(self.0);
    }
}

fn unwinding(i: usize) -> Out {
    let mut o = vec![];
    let _ = catch(|| {
        let _d = OnDrop(i, &mut o);
        panic!("elsewhere")
    });
    o
}

fn placed(i: usize, place: usize) -> Out {
    prep(i);
    match place {
        1 => unwinding(i),
        2 => std::thread::spawn(move || unwinding(i)).join().unwrap_or_default(),
        3 | 4 => {
            let t = std::thread::Builder::new();
            let t = if place == 3 { t.name("main".into()) } else { t };
            t.spawn(move || run_prepared(i)).expect("thread").join().unwrap_or_default()
        }
        5 => std::sync::OnceLock::new().get_or_init(|| run_prepared(i)).clone(),
        6 => {
            for (k, _) in std::env::vars_os() {
                std::env::remove_var(k);
            }
            let _ = std::env::set_current_dir("/");
            run_prepared(i)
        }
        7 => {
            for k in ["DEBUG", "RUST_LOG", "NO_COLOR", "LANG", "LC_ALL", "TZ", "SOURCE_DATE_EPOCH", "BARCODERS", "BARCODERS_DEBUG"] {
                std::env::set_var(k, if k.starts_with('L') { "tr_TR.UTF-8" } else { "1" });
            }
            run_prepared(i)
        }
        8 | 9 => {
            only_processors(if place == 8 { 1 } else { 3 });
            run_prepared(i)
        }
        10 => {
            unsafe {
                let full = libc::open(c"/dev/full".as_ptr(), libc::O_WRONLY);
                if full >= 0 {
                    libc::dup2(full, 1);
                    libc::dup2(full, 2);
                }
            }
            run_prepared(i)
        }
        _ => run_prepared(i),
    }
}

/// Leaves this process the first `n` of its processors.
fn only_processors(n: usize) {
    unsafe {
        let size = std::mem::size_of::<libc::cpu_set_t>();
        let mut all: libc::cpu_set_t = std::mem::zeroed();
        if libc::sched_getaffinity(0, size, &mut all) == 0 {
            let mut few: libc::cpu_set_t = std::mem::zeroed();
            (0..libc::CPU_SETSIZE as usize).filter(|&c| libc::CPU_ISSET(c, &all)).take(n).for_each(|c| libc::CPU_SET(c, &mut few));
            libc::sched_setaffinity(0, size, &few);
        }
    }
}

/// The calls of `h` in order, call k made from `at[k]`.
fn in_places(h: &[usize], at: &[usize]) -> Option<String> {
    let r = forked(60, || {
        for (k, (&i, &p)) in h.iter().zip(at).enumerate() {
            let o = placed(i, p);
            board().counter(1).fetch_add(1, Relaxed);
            if o != base()[i] {
                board().message(&format!(
                    "{} as call {} from {} returns {} but alone it returns {}",
                    OPS[i].name,
                    k + 1,
                    PLACES[p],
                    show(&o),
                    show(&base()[i])
                ));
                return 1;
            }
        }
        0
    });
    outcome(r)
}

/// `a` alone from every place, then before and after each operation of its kind.
fn all_places(a: usize) -> Option<Viol> {
    let mut hs = vec![];
    for p in 0..PLACES.len() {
        hs.push((vec![a], vec![p]));
        for b in kin(a) {
            for q in 0..PLACES.len() {
                if p + q > 0 {
                    hs.push((vec![a, b], vec![p, q]));
                }
            }
        }
    }
    for (h, at) in hs {
        if let Some(m) = in_places(&h, &at) {
            let v = vec![("ops", names(&h)), ("at", J::Arr(at.iter().map(J::num).collect()))];
            return Some((obj("places", v), m));
        }
    }
    None
}

/// Everything, a pause, and everything again.
fn pause(ms: u64) -> Option<String> {
    let r = forked(120, || {
        for how in [" before the pause", " after the pause"] {
            for i in 0..OPS.len() {
                if let Err(m) = step(i, how) {
                    board().message(&m);
                    return 1;
                }
            }
            std::thread::sleep(std::time::Duration::from_millis(ms));
        }
        0
    });
    outcome(r)
}

// ---------------------------------------------------------------- preemption

static STEPS: AtomicU64 = AtomicU64::new(0);
/// 0: off, 1: stepping, 2: inside the explored child.
static MODE: AtomicU32 = AtomicU32::new(0);
static B_OP: AtomicUsize = AtomicUsize::new(0);
static B_STATE: AtomicU32 = AtomicU32::new(0);
static B_TID: AtomicI32 = AtomicI32::new(0);
static B_OK: AtomicBool = AtomicBool::new(false);
static FAILED_AT: AtomicU64 = AtomicU64::new(0);
static FAIL_STATUS: AtomicI32 = AtomicI32::new(0);
/// Preempt at steps k with FIRST <= k, k % STRIDE == PHASE.
static STRIDE: AtomicU64 = AtomicU64::new(1);
static PHASE: AtomicU64 = AtomicU64::new(0);
/// Code of this program. There are no preemptions inside the C library: its allocator takes no locks
/// in a process that has no second thread yet, so a thread started there would see it half way, which
/// no real program can. (The code under test is in the program.)
static CODE: (AtomicUsize, AtomicUsize) = (AtomicUsize::new(0), AtomicUsize::new(0));

fn own_code() -> (usize, usize) {
    let t = std::fs::read_to_string("/proc/self/maps").expect("maps");
    let me = std::env::current_exe().expect("own path").to_string_lossy().to_string();
    let (mut lo, mut hi) = (usize::MAX, 0);
    for l in t.lines() {
        let f: Vec<&str> = l.split_whitespace().collect();
        if f.len() > 5 && f[5] == me && f[1].contains('x') {
            let (a, b) = f[0].split_once('-').unwrap();
            lo = lo.min(usize::from_str_radix(a, 16).unwrap());
            hi = hi.max(usize::from_str_radix(b, 16).unwrap());
        }
    }
    assert!(lo < on_trap as *const () as usize && (on_trap as *const () as usize) < hi, "own code in maps");
    (lo, hi)
}

fn sleeping(tid: i32) -> bool {
    let mut buf = [0u8; 256];
    let path = format!("/proc/self/task/{}/stat\0", tid);
    let n = unsafe {
        let fd = libc::open(path.as_ptr() as *const _, libc::O_RDONLY);
        if fd < 0 {
            return false;
        }
        let n = libc::read(fd, buf.as_mut_ptr() as *mut _, 256);
        libc::close(fd);
        n
    };
    let t = &buf[..n.max(0) as usize];
    match t.iter().rposition(|b| *b == b')') {
        Some(p) => t.get(p + 2) == Some(&b'S'),
        None => false,
    }
}

extern "C" fn b_thread(_: *mut libc::c_void) -> *mut libc::c_void {
    B_TID.store(unsafe { libc::syscall(libc::SYS_gettid) } as i32, SeqCst);
    let i = B_OP.load(SeqCst);
    let o = run_prepared(i);
    if o != base()[i] {
        board().message(&format!(
            "{} (running while the other call is suspended) returns {} but alone it returns {}",
            OPS[i].name,
            show(&o),
            show(&base()[i])
        ));
    }
    B_OK.store(o == base()[i], SeqCst);
    B_STATE.store(1, SeqCst);
    std::ptr::null_mut()
}

/// Starts B on a thread of its own and waits until it is done or cannot go on.
fn run_b_until_done_or_blocked() {
    B_STATE.store(0, SeqCst);
    // Not with the standard library, which keeps state of the suspended thread.
    unsafe {
        let mut t = 0;
        let mut attr: libc::pthread_attr_t = std::mem::zeroed();
        libc::pthread_attr_init(&mut attr);
        libc::pthread_attr_setstacksize(&mut attr, 1 << 20);
        if libc::pthread_create(&mut t, &attr, b_thread, std::ptr::null_mut()) != 0 {
            libc::_exit(9);
        }
    }
    let t = Instant::now();
    let mut asleep = 0;
    while B_STATE.load(SeqCst) == 0 {
        std::thread::yield_now();
        if t.elapsed() > Duration::from_micros(500) {
            std::thread::sleep(Duration::from_micros(200));
            let tid = B_TID.load(SeqCst);
            asleep = if tid != 0 && sleeping(tid) { asleep + 1 } else { 0 };
            // Blocked on something the suspended call holds, or spinning for it: the scheduler must
            // let that call go on. (If B is merely slow this is another legal schedule.)
            if asleep >= 3 || t.elapsed() > Duration::from_millis(60) {
                board().counter(3).fetch_add(1, Relaxed);
                return;
            }
        }
    }
}

unsafe extern "C" fn on_trap(_: i32, _: *mut libc::siginfo_t, uc: *mut libc::c_void) {
    let uc = &mut *(uc as *mut libc::ucontext_t);
    let ip = uc.uc_mcontext.gregs[libc::REG_RIP as usize] as usize;
    let efl = &mut uc.uc_mcontext.gregs[libc::REG_EFL as usize];
    if MODE.load(Relaxed) != 1 {
        *efl &= !0x100;
        return;
    }
    let k = STEPS.fetch_add(1, Relaxed) + 1;
    let inside = ip >= CODE.0.load(Relaxed) && ip < CODE.1.load(Relaxed);
    if !inside || k % STRIDE.load(Relaxed) != PHASE.load(Relaxed) {
        return;
    }
    board().counter(2).fetch_add(1, Relaxed);
    let pid = libc::fork();
    if pid == 0 {
        MODE.store(2, Relaxed);
        *efl &= !0x100;
        libc::alarm(30);
        run_b_until_done_or_blocked();
        return;
    }
    let mut st = 0;
    while libc::waitpid(pid, &mut st, 0) < 0 {}
    let code = if libc::WIFEXITED(st) { libc::WEXITSTATUS(st) } else { 128 + libc::WTERMSIG(st) };
    if code != 0 {
        FAILED_AT.store(k, Relaxed);
        FAIL_STATUS.store(code, Relaxed);
        MODE.store(0, Relaxed);
        *efl &= !0x100;
    }
}

/// A is suspended after each of its instructions in turn, B runs on another thread, A goes on; both
/// results and a later repetition of both are compared. One process per preemption point.
fn preempt(a: usize, b: usize, stride: u64, phase: u64, warm: bool) -> Option<String> {
    let r = forked(3000, || {
        crate::alloc::bump(1 << 32);
        prep(a);
        prep(b);
        if warm {
            // Lazily made state exists already: A and B meet in the reading path.
            let _ = (run_prepared(a), run_prepared(b));
        }
        B_OP.store(b, SeqCst);
        STRIDE.store(stride, SeqCst);
        PHASE.store(phase, SeqCst);
        let code = own_code();
        CODE.0.store(code.0, SeqCst);
        CODE.1.store(code.1, SeqCst);
        unsafe {
            let mut sa: libc::sigaction = std::mem::zeroed();
            sa.sa_sigaction = on_trap as *const () as usize;
            sa.sa_flags = libc::SA_SIGINFO;
            libc::sigaction(libc::SIGTRAP, &sa, std::ptr::null_mut());
        }
        let e = unsafe { &*ENV.0.get() };
        let f = OPS[a].f;
        MODE.store(1, SeqCst);
        let o = catch(|| {
            unsafe { std::arch::asm!("pushfq", "or qword ptr [rsp], 0x100", "popfq") };
            let o = f(e);
            if MODE.load(Relaxed) == 1 {
                MODE.store(0, Relaxed);
            }
            o
        });
        let mode = MODE.swap(0, SeqCst);
        let o = o.unwrap_or_else(|p| {
            let mut v = vec![255];
            v.extend(p.bytes());
            v
        });
        board().counter(1).fetch_add(1, Relaxed);
        if mode == 2 {
            // One explored schedule: A has finished, B may still have to.
            let t = Instant::now();
            while B_STATE.load(SeqCst) == 0 {
                if t.elapsed() > Duration::from_secs(20) {
                    board().message(&format!("{} never returns after {} was suspended in it", OPS[b].name, OPS[a].name));
                    return 1;
                }
                std::thread::sleep(Duration::from_micros(50));
            }
            board().counter(1).fetch_add(1, Relaxed);
            if o != base()[a] {
                board().message(&format!(
                    "{} returns {} but alone it returns {}",
                    OPS[a].name,
                    show(&o),
                    show(&base()[a])
                ));
                return 1;
            }
            if !B_OK.load(SeqCst) {
                return 1;
            }
            for i in [a, b] {
                if let Err(m) = step(i, " afterwards") {
                    board().message(&m);
                    return 1;
                }
            }
            return 0;
        }
        let k = FAILED_AT.load(SeqCst);
        if k > 0 {
            let why = match FAIL_STATUS.load(SeqCst) {
                1 => board().take_message(),
                9 => return 9,
                142 => "the calls never return: deadlock".into(),
                c => format!("the process ends with status {}", c),
            };
            board().message(&format!("suspended after instruction {}: {}", k, why));
            return 1;
        }
        if STEPS.load(SeqCst) < 20 {
            // The processor did not single-step: nothing was explored.
            return 9;
        }
        if o != base()[a] {
            board().message(&format!("{} single-stepped returns {}", OPS[a].name, show(&o)));
            return 1;
        }
        0
    });
    match r {
        9 => panic!("no single-stepping or no more threads here"),
        r => outcome(r),
    }
}

// ---------------------------------------------------------------- schedules at shared accesses

use crate::alloc::{seal, CTL, LOG, MANY, REGIONS};

thread_local! {
    static ME: Cell<u32> = const { Cell::new(99) };
}

/// Nothing in here or below may touch static memory outside CTL while it is watched.
unsafe fn protect(prot: i32) {
    for r in &CTL.regions[..CTL.nregions.load(Relaxed)] {
        libc::mprotect(r.0.load(Relaxed) as *mut _, r.1.load(Relaxed), prot);
    }
}

unsafe fn wait_for_token(me: u32) {
    let mut n = 0u32;
    while CTL.token.load(SeqCst) != me {
        n += 1;
        if n < 50 {
            libc::sched_yield();
        } else {
            libc::usleep(20);
        }
    }
}

/// The unfinished thread after `me`, or `me` if there is none.
unsafe fn next(me: u32) -> u32 {
    let n = CTL.threads.load(Relaxed);
    for k in 1..n {
        let t = (me + k) % n;
        if CTL.done[t as usize].load(SeqCst) == 0 {
            return t;
        }
    }
    me
}

/// A spinning or blocked thread is not allowed to starve the other for more accesses than this.
const FAIR: u64 = 400;

unsafe extern "C" fn on_access(sig: i32, info: *mut libc::siginfo_t, uc: *mut libc::c_void) {
    let uc = &mut *(uc as *mut libc::ucontext_t);
    let addr = (*info).si_addr() as usize;
    let ours = CTL.active.load(SeqCst) == 1
        && CTL.regions[..CTL.nregions.load(Relaxed)]
            .iter()
            .any(|r| addr >= r.0.load(Relaxed) && addr < r.0.load(Relaxed) + r.1.load(Relaxed));
    let me = ME.with(|m| m.get());
    if !ours || me >= CTL.threads.load(Relaxed) {
        // A genuine fault: let it kill the process.
        libc::signal(sig, libc::SIG_DFL);
        return;
    }
    let write = uc.uc_mcontext.gregs[libc::REG_ERR as usize] & 2 != 0;
    let e = CTL.events.fetch_add(1, SeqCst) + 1;
    if (e as usize) < LOG {
        CTL.log[e as usize].store(addr << 8 | (me as usize) << 1 | write as usize, Relaxed);
    }
    let p = CTL.planpos.load(Relaxed);
    let mut switch = p < 8 && CTL.plan[p].load(Relaxed) == e;
    if switch {
        CTL.planpos.store(p + 1, Relaxed);
    }
    let m = CTL.mine[me as usize].fetch_add(1, Relaxed) + 1;
    // The last thread runs on: all others are suspended in the middle.
    switch |= m == CTL.stair.load(Relaxed) && me + 1 < CTL.threads.load(Relaxed);
    if CTL.since.fetch_add(1, Relaxed) > FAIR {
        CTL.forced.fetch_add(1, Relaxed);
        switch = true;
    }
    let to = next(me);
    if switch && to != me {
        CTL.since.store(0, Relaxed);
        CTL.token.store(to, SeqCst);
        wait_for_token(me);
        CTL.since.store(0, Relaxed);
    }
    protect(libc::PROT_READ | libc::PROT_WRITE);
    uc.uc_mcontext.gregs[libc::REG_EFL as usize] |= 0x100;
}

unsafe extern "C" fn on_stepped(_: i32, _: *mut libc::siginfo_t, uc: *mut libc::c_void) {
    let uc = &mut *(uc as *mut libc::ucontext_t);
    uc.uc_mcontext.gregs[libc::REG_EFL as usize] &= !0x100;
    if CTL.active.load(SeqCst) == 1 {
        protect(libc::PROT_NONE);
    }
}

/// Writable static memory of this program, except CTL.
fn static_regions() -> Vec<(usize, usize)> {
    let t = std::fs::read_to_string("/proc/self/maps").expect("maps");
    let me = std::env::current_exe().expect("own path").to_string_lossy().to_string();
    let mut v: Vec<(usize, usize)> = vec![];
    for l in t.lines() {
        let f: Vec<&str> = l.split_whitespace().collect();
        let (a, b) = f[0].split_once('-').unwrap();
        let (a, b) = (usize::from_str_radix(a, 16).unwrap(), usize::from_str_radix(b, 16).unwrap());
        if !f[1].starts_with("rw") {
            continue;
        }
        let named = f.len() > 5 && f[5] == me;
        let bss = f.len() == 5 && v.last().is_some_and(|l| l.0 + l.1 == a);
        if named || bss {
            v.push((a, b - a));
        }
    }
    let (ca, cn) = (&CTL as *const _ as usize, std::mem::size_of::<crate::alloc::Ctl>());
    let mut out = vec![];
    for (a, n) in v {
        let (lo, hi) = (a, a + n);
        if ca >= hi || ca + cn <= lo {
            out.push((lo, n));
            continue;
        }
        if lo < ca {
            out.push((lo, ca - lo));
        }
        if ca + cn < hi {
            out.push((ca + cn, hi - ca - cn));
        }
    }
    out
}

struct Trace {
    /// (address, thread, write)
    log: Vec<(usize, u8, bool)>,
    total: u64,
}

/// Where threads are preempted.
#[derive(Clone, Default)]
struct Plan {
    /// Numbers of accesses, counted over all threads, before which the running thread is preempted.
    at: Vec<u64>,
    /// See CTL.
    stair: u64,
    lifo: bool,
}

/// One execution of the operations, each on a thread of its own (the first starts), with the given
/// preemptions, in a process of its own; a thread that is not preempted runs until it finishes.
fn schedule(ops: &[usize], warm: bool, plan: &Plan) -> (Option<String>, Trace) {
    let r = forked(90, || {
        let stat = static_regions();
        crate::alloc::bump(1 << 32);
        for &i in ops {
            prep(i);
        }
        if warm {
            for &i in ops {
                let _ = run_prepared(i);
            }
        }
        for (i, p) in plan.at.iter().enumerate() {
            CTL.plan[i].store(*p, Relaxed);
        }
        CTL.stair.store(plan.stair, Relaxed);
        CTL.lifo.store(plan.lifo as u32, Relaxed);
        CTL.threads.store(ops.len() as u32, Relaxed);
        unsafe {
            let mut sa: libc::sigaction = std::mem::zeroed();
            sa.sa_sigaction = on_access as *const () as usize;
            sa.sa_flags = libc::SA_SIGINFO;
            libc::sigaction(libc::SIGSEGV, &sa, std::ptr::null_mut());
            sa.sa_sigaction = on_stepped as *const () as usize;
            libc::sigaction(libc::SIGTRAP, &sa, std::ptr::null_mut());
        }
        let e = unsafe { &*ENV.0.get() };
        let spawn = |t: u32| {
            let f = OPS[ops[t as usize]].f;
            let env = e as *const Env as usize;
            std::thread::Builder::new()
                .stack_size(2 << 20)
                .spawn(move || {
                    let env = unsafe { &*(env as *const Env) };
                    ME.with(|m| m.set(t));
                    CTL.ready.fetch_add(1, SeqCst);
                    unsafe { wait_for_token(t) };
                    let o = catch(|| f(env)).unwrap_or_else(|p| {
                        let mut v = vec![255];
                        v.extend(p.bytes());
                        v
                    });
                    CTL.result[t as usize].store(Box::into_raw(Box::new(o)) as usize, SeqCst);
                    CTL.done[t as usize].store(1, SeqCst);
                    CTL.since.store(0, Relaxed);
                    let n = CTL.threads.load(Relaxed);
                    let last = (0..n).rev().find(|t| CTL.done[*t as usize].load(SeqCst) == 0);
                    let to = match last {
                        Some(l) if CTL.lifo.load(Relaxed) == 1 => l,
                        _ => unsafe { next(t) },
                    };
                    CTL.token.store(to, SeqCst);
                    while CTL.release.load(SeqCst) == 0 {
                        unsafe { libc::usleep(20) };
                    }
                })
                .expect("thread")
        };
        let threads: Vec<_> = (0..ops.len() as u32).map(spawn).collect();
        while CTL.ready.load(SeqCst) < ops.len() as u32 {
            unsafe { libc::sched_yield() };
        }
        let mut n = 0;
        for (s, l) in stat.iter().copied().chain([seal()]) {
            if n < REGIONS && l > 0 {
                CTL.regions[n].0.store(s, Relaxed);
                CTL.regions[n].1.store(l, Relaxed);
                n += 1;
            }
        }
        CTL.nregions.store(n, SeqCst);
        let t0 = Instant::now();
        CTL.active.store(1, SeqCst);
        unsafe { protect(libc::PROT_NONE) };
        CTL.token.store(0, SeqCst);
        // Watches for a thread that sleeps although it may run: it waits for the other one.
        let (mut seen, mut when) = (u64::MAX, Instant::now());
        let mut hang = false;
        let mut k = 0u32;
        while CTL.done[..ops.len()].iter().any(|d| d.load(SeqCst) == 0) {
            k += 1;
            unsafe {
                if k < 300 {
                    libc::sched_yield();
                } else {
                    libc::usleep(50);
                }
            }
            let ev = CTL.events.load(SeqCst);
            if ev != seen {
                seen = ev;
                when = Instant::now();
            } else if when.elapsed() > Duration::from_millis(150) {
                let t = CTL.token.load(SeqCst);
                let to = unsafe { next(t) };
                if to != t {
                    CTL.forced.fetch_add(1, Relaxed);
                    CTL.since.store(0, Relaxed);
                    CTL.token.store(to, SeqCst);
                }
                when = Instant::now();
            }
            if t0.elapsed() > Duration::from_secs(30) {
                hang = true;
                break;
            }
        }
        CTL.active.store(0, SeqCst);
        unsafe { protect(libc::PROT_READ | libc::PROT_WRITE) };
        // Report the accesses.
        let total = CTL.events.load(SeqCst);
        let n = (total as usize).min(LOG - 1);
        let mut enc = total.to_le_bytes().to_vec();
        enc.push((CTL.forced.load(SeqCst) > 0) as u8);
        for e in &CTL.log[1..=n.min(1500)] {
            enc.extend_from_slice(&(e.load(Relaxed) as u64).to_le_bytes());
        }
        board().put(0, &enc);
        board().counter(2).fetch_add(total, Relaxed);
        board().counter(3).fetch_add(CTL.forced.load(SeqCst), Relaxed);
        board().counter(1).fetch_add(ops.len() as u64, Relaxed);
        if hang {
            board().message("the calls never return: deadlock");
            return 1;
        }
        CTL.release.store(1, SeqCst);
        for t in threads {
            let _ = t.join();
        }
        for (t, i) in ops.iter().copied().enumerate() {
            let o = unsafe { &*(CTL.result[t].load(SeqCst) as *const Out) };
            if *o != base()[i] {
                board().message(&format!("{} returns {} but alone it returns {}", OPS[i].name, show(o), show(&base()[i])));
                return 1;
            }
        }
        for &i in ops {
            if let Err(m) = step(i, " afterwards") {
                board().message(&m);
                return 1;
            }
        }
        0
    });
    let enc = board().get(0);
    let total = enc.get(..8).map_or(0, |b| u64::from_le_bytes(b.try_into().unwrap()));
    let log = enc
        .get(9..)
        .unwrap_or(&[])
        .chunks_exact(8)
        .map(|c| {
            let v = u64::from_le_bytes(c.try_into().unwrap()) as usize;
            (v >> 8, (v >> 1 & 127) as u8, v & 1 == 1)
        })
        .collect();
    (outcome(r), Trace { log, total })
}

fn trace(plan: &Plan, t: &Trace) {
    if std::env::var_os("MC_TRACE").is_some() {
        for (k, e) in t.log.iter().enumerate() {
            let w = if e.2 { "writes" } else { "reads" };
            eprintln!("{:?}/{}/{} event {} thread {} {} {:#x}", plan.at, plan.stair, plan.lifo, k + 1, e.1, w, e.0);
        }
    }
}

fn schedule_case(ops: &[usize], warm: bool, plan: &Plan) -> J {
    obj(
        "schedule",
        vec![
            ("ops", names(ops)),
            ("warm", J::num(warm as u8)),
            ("plan", J::Arr(plan.at.iter().map(J::num).collect())),
            ("stair", J::num(plan.stair)),
            ("lifo", J::num(plan.lifo as u8)),
        ],
    )
}

/// Which accesses are to memory that some thread writes. All others commute.
fn conflicting(t: &Trace) -> Vec<bool> {
    let written: std::collections::HashSet<usize> = t.log.iter().filter(|e| e.2).map(|e| e.0 >> 6).collect();
    t.log
        .iter()
        .map(|e| {
            let g = e.0 >> 6;
            (g.wrapping_sub(1)..=g + 1).any(|g| written.contains(&g))
        })
        .collect()
}

/// All schedules of the operations with at most `bound` preemptions, placed before accesses to static or
/// older heap memory. Accesses to memory that none of the calls writes commute with everything and are not
/// branched on. Stops after `cap` executions.
fn schedules(ops: &[usize], warm: bool, bound: usize, cap: usize) -> (usize, bool, Option<Viol>) {
    let mut todo: Vec<Plan> = vec![Plan::default()];
    let mut ran = 0;
    let mut full = true;
    while let Some(plan) = todo.pop() {
        if ran >= cap {
            full = false;
            break;
        }
        ran += 1;
        board().put(0, &[]);
        let (v, t) = schedule(ops, warm, &plan);
        trace(&plan, &t);
        if let Some(m) = v {
            return (ran, full, Some((schedule_case(ops, warm, &plan), m)));
        }
        if plan.at.len() >= bound {
            continue;
        }
        full &= t.total as usize == t.log.len();
        let after = plan.at.last().copied().unwrap_or(0);
        for (i, c) in conflicting(&t).into_iter().enumerate().rev() {
            let n = i as u64 + 1;
            if n > after && c {
                let mut p = plan.clone();
                p.at.push(n);
                todo.push(p);
            }
        }
        // Fewest preemptions first.
        todo.sort_by_key(|p| std::cmp::Reverse(p.at.len()));
    }
    (ran, full, None)
}

/// n threads in operations of one kind, all but the last of them suspended at the same point, for every
/// point before a conflicting access; then the first or the last suspended one goes on.
fn staircase(a: usize, n: usize, warm: bool, cap: usize) -> (usize, bool, Option<Viol>) {
    let n = n.min(MANY);
    let mut ops: Vec<usize> = (0..n).map(|k| mixed(a, k, false)).collect();
    // As many places as there are suspended calls: the last one comes round to the first.
    ops[n - 1] = mixed(a, 1, false);
    let t0 = Instant::now();
    let mut ran = 0;
    let mut todo = vec![Plan::default()];
    let mut full = true;
    while let Some(plan) = todo.pop() {
        if ran >= cap || t0.elapsed() > Duration::from_secs(20) {
            full = false;
            break;
        }
        ran += 1;
        board().put(0, &[]);
        let (v, t) = schedule(&ops, warm, &plan);
        trace(&plan, &t);
        if let Some(m) = v {
            return (ran, full, Some((schedule_case(&ops, warm, &plan), m)));
        }
        if plan.stair > 0 {
            continue;
        }
        let mut k = 0;
        for (e, c) in t.log.iter().zip(conflicting(&t)) {
            if e.1 == 0 {
                k += 1;
                if c {
                    for lifo in [false, true] {
                        todo.push(Plan { at: vec![], stair: k, lifo });
                    }
                }
            }
        }
        todo.reverse();
    }
    (ran, full, None)
}

// ---------------------------------------------------------------- worker process

fn pick(v: &[&str]) -> Vec<usize> {
    v.iter().map(|n| find(n).unwrap_or_else(|| panic!("no operation {}", n))).collect()
}

/// Deeper histories over a smaller set.
const DEEP: &[&str] = &[
    "EAN13 750103131130",
    "EAN13 057103131130",
    "EAN13 bad check digit",
    "UPCA 12345678901",
    "Code39 AB1",
    "Code39+check BA1",
    "Code93 AB1",
    "Code93 BA1",
    "Code11 12-45",
    "ITF 123",
    "STF 1234",
    "Code128 A HI",
    "Code128 C 123, half a pair left",
    "Code128 A shift, fails in shifted state",
    "SVG x",
    "SVG y colours",
    "buffer y rotated, colours",
    "shared Code39",
];

/// `mc hist <task as JSON>`: a single-threaded process that has not called the code under test.
/// Prints counters, and the violation if there is one.
pub fn worker(task: &str) -> i32 {
    Board::make();
    let j = json::parse(task).expect("task");
    let sweep = matches!(j.get("kind").and_then(|k| k.str()), Some("acts" | "neighbours" | "mass" | "lives" | "lives-many" | "lives-tree"));
    let base = if sweep { Ok(()) } else { baseline() };
    if let Err(m) = base {
        println!("{}", J::Obj(vec![("history".into(), obj("sequence", vec![("ops", J::Arr(vec![]))])), ("message".into(), J::s(m))]).text());
        return 1;
    }
    let viol = explore(&j);
    let c = |k: usize| J::num(board().counter(k).load(Relaxed));
    let mut v = vec![
        ("processes".to_string(), c(0)),
        ("calls".into(), c(1)),
        ("preemptions".into(), c(2)),
        ("blocked".into(), c(3)),
        ("schedules".into(), c(4)),
        ("cut".into(), c(5)),
    ];
    if let Some((h, m)) = &viol {
        v.push(("history".into(), h.clone()));
        v.push(("message".into(), J::s(m.clone())));
    }
    println!("{}", J::Obj(v).text());
    let _ = std::io::stdout().flush();
    viol.is_some() as i32
}

fn indices(j: Option<&J>) -> Vec<usize> {
    j.and_then(|a| a.arr())
        .map(|a| a.iter().filter_map(|x| find(x.str()?)).collect())
        .unwrap_or_default()
}

fn explore(j: &J) -> Option<Viol> {
    let kind = j.get("kind").and_then(|k| k.str()).unwrap_or("");
    let n = |k: &str| j.get(k).and_then(|x| x.u64()).unwrap_or(0);
    let op = |k: &str| j.get(k).and_then(|x| find(x.str()?)).unwrap_or(0);
    match kind {
        "sequence" => sequence(&indices(j.get("ops"))).map(|m| (j.clone(), m)),
        "tree" => {
            let set = indices(j.get("set"));
            let mut h = indices(j.get("prefix"));
            let last = *h.last().expect("prefix");
            let r = forked(800, || {
                let mut pre = h.clone();
                pre.pop();
                for &i in &pre {
                    run(i);
                }
                match step(last, "") {
                    Err(m) => {
                        board().message(&format!("{}\n{}", names(&h).text(), m));
                        1
                    }
                    Ok(()) => tree(&set, &mut h, n("depth") as usize),
                }
            });
            if r == 0 {
                return None;
            }
            if r != 1 {
                board().message(&format!("{}\nthe process ends with status {}", names(&h).text(), r));
            }
            Some(message_history())
        }
        "repeat" => repeat(op("a"), op("b"), n("rounds")).map(|m| (j.clone(), m)),
        "threads" => {
            let h = indices(j.get("ops"));
            let on: Vec<u8> = j.get("on")?.arr()?.iter().map(|x| x.u64().unwrap_or(0) as u8).collect();
            on_threads(&h, &on).map(|m| (j.clone(), m))
        }
        "threads-tree" => {
            let set = indices(j.get("set"));
            let first = op("first");
            let depth = n("depth") as usize;
            let total = set.len().pow(depth as u32 - 1);
            for mut w in 0..total {
                let mut h = vec![first];
                for _ in 1..depth {
                    h.push(set[w % set.len()]);
                    w /= set.len();
                }
                for mask in 1..1u32 << depth {
                    let on: Vec<u8> = (0..depth).map(|k| (mask >> k & 1) as u8).collect();
                    if let Some(m) = on_threads(&h, &on) {
                        let on = J::Arr(on.iter().map(J::num).collect());
                        return Some((obj("threads", vec![("ops", names(&h)), ("on", on)]), m));
                    }
                }
            }
            None
        }
        "nest" => {
            let a = op("a");
            if j.get("b").is_some() {
                return nest(a, op("b")).map(|m| (j.clone(), m));
            }
            for b in 0..OPS.len() {
                if let Some(m) = nest(a, b) {
                    return Some((obj("nest", vec![("a", J::s(OPS[a].name)), ("b", J::s(OPS[b].name))]), m));
                }
            }
            None
        }
        "preempt" => {
            let warm = n("warm") == 1;
            preempt(op("a"), op("b"), n("stride").max(1), n("phase"), warm).map(|m| (j.clone(), m))
        }
        "chain" => {
            let a = op("a");
            if j.get("n").is_some() {
                return chain(a, n("n") as u32, n("elsewhere") == 1).map(|m| (j.clone(), m));
            }
            for elsewhere in [0, 1] {
                for n in [1, 2, 3, 4, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129] {
                    if let Some(m) = chain(a, n, elsewhere == 1) {
                        let v = vec![("a", J::s(OPS[a].name)), ("n", J::num(n)), ("elsewhere", J::num(elsewhere))];
                        return Some((obj("chain", v), m));
                    }
                }
            }
            None
        }
        "places" => match j.get("a").is_some() {
            true => all_places(op("a")),
            false => {
                let at: Vec<usize> = j.get("at")?.arr()?.iter().map(|x| x.u64().unwrap_or(0) as usize).collect();
                in_places(&indices(j.get("ops")), &at).map(|m| (j.clone(), m))
            }
        },
        "pause" => pause(n("ms")).map(|m| (j.clone(), m)),
        "schedule" => {
            let ops = indices(j.get("ops"));
            let plan = Plan {
                at: j.get("plan")?.arr()?.iter().filter_map(|x| x.u64()).collect(),
                stair: n("stair"),
                lifo: n("lifo") == 1,
            };
            schedule(&ops, n("warm") == 1, &plan).0.map(|m| (j.clone(), m))
        }
        "schedules" => {
            let a = op("a");
            let count = |r: (usize, bool, Option<Viol>)| {
                board().counter(4).fetch_add(r.0 as u64, Relaxed);
                board().counter(5).fetch_add(!r.1 as u64, Relaxed);
                r.2
            };
            let (bound, cap) = (n("bound") as usize, n("cap") as usize);
            for warm in [false, true] {
                for b in indices(j.get("with")) {
                    let v = count(schedules(&[a, b], warm, bound, cap));
                    if v.is_some() {
                        return v;
                    }
                }
                for bc in j.get("with-two").and_then(|w| w.arr()).unwrap_or(&[]) {
                    let mut ops = vec![a];
                    ops.extend(indices(Some(bc)));
                    let v = count(schedules(&ops, warm, bound, cap));
                    if v.is_some() {
                        return v;
                    }
                }
                for t in j.get("threads").and_then(|w| w.arr()).unwrap_or(&[]) {
                    let v = count(staircase(a, t.u64().unwrap_or(2) as usize, warm, cap));
                    if v.is_some() {
                        return v;
                    }
                }
            }
            None
        }
        "acts" | "neighbours" | "mass" => crate::sweep::explore(j),
        "lives" | "lives-many" | "lives-tree" => crate::lives::explore(j),
        _ => Some((j.clone(), format!("unknown kind {:?}", kind))),
    }
}

// ---------------------------------------------------------------- driver

struct Answer {
    processes: u64,
    calls: u64,
    preemptions: u64,
    blocked: u64,
    cut: u64,
    viol: Option<Viol>,
}

fn ask(task: &J) -> Result<Answer, String> {
    let me = std::env::current_exe().map_err(|e| e.to_string())?;
    let o = std::process::Command::new(me)
        .args(["hist", &task.text()])
        .stderr(std::process::Stdio::piped())
        .output()
        .map_err(|e| e.to_string())?;
    let t = String::from_utf8_lossy(&o.stdout);
    let j = match t.lines().last().map(json::parse) {
        Some(Ok(j)) => j,
        _ => return Err(format!("history worker: {:?} {}", o.status, String::from_utf8_lossy(&o.stderr))),
    };
    let n = |k: &str| j.get(k).and_then(|x| x.u64()).unwrap_or(0);
    let viol = match (j.get("history"), j.get("message").and_then(|m| m.str())) {
        (Some(h), Some(m)) => Some((h.clone(), m.to_string())),
        _ => None,
    };
    Ok(Answer {
        processes: n("processes"),
        calls: n("calls"),
        preemptions: n("preemptions"),
        blocked: n("blocked"),
        cut: n("cut"),
        viol,
    })
}

pub fn judge(j: &J) -> Result<String, String> {
    if j.get("kind").and_then(|k| k.str()) == Some("auto-traits") {
        return auto_traits();
    }
    match ask(j) {
        Err(m) => {
            eprintln!("{}", m);
            std::process::exit(2)
        }
        Ok(a) => match a.viol {
            Some((_, m)) => Err(m),
            None => Ok(format!("{} calls as when alone", a.calls)),
        },
    }
}

macro_rules! probe {
    ($t:ty) => {{
        // The inherent method exists only if the bound holds; otherwise the trait method is found.
        struct P<T>(std::marker::PhantomData<T>);
        #[allow(dead_code)]
        trait No {
            fn sync(&self) -> bool {
                false
            }
            fn send(&self) -> bool {
                false
            }
        }
        impl<T> No for P<T> {}
        #[allow(dead_code)]
        impl<T: Sync> P<T> {
            fn sync(&self) -> bool {
                true
            }
        }
        struct Q<T>(std::marker::PhantomData<T>);
        impl<T> No for Q<T> {}
        #[allow(dead_code)]
        impl<T: Send> Q<T> {
            fn send(&self) -> bool {
                true
            }
        }
        (
            stringify!($t),
            P::<$t>(std::marker::PhantomData).sync(),
            Q::<$t>(std::marker::PhantomData).send(),
        )
    }};
}

/// Barcodes and generators can be shared between and moved to other threads.
fn auto_traits() -> Result<String, String> {
    let v = [
        probe!(EAN13),
        probe!(UPCA),
        probe!(EAN8),
        probe!(EANSUPP),
        probe!(Code39),
        probe!(Code93),
        probe!(Code11),
        probe!(Codabar),
        probe!(TF),
        probe!(Code128),
        probe!(ASCII),
        probe!(JSON),
        probe!(svg::SVG),
        probe!(svg::Color),
        probe!(gi::Image),
        probe!(gi::Color),
        probe!(gi::Rotation),
        probe!(Error),
    ];
    for (n, sync, send) in v {
        if !sync || !send {
            return Err(format!("{} cannot be {} threads", n, if sync { "moved between" } else { "shared by" }));
        }
    }
    Ok("every type is Send and Sync".into())
}

pub fn explore_all(ctx: &Ctx) {
    let all: Vec<usize> = (0..OPS.len()).collect();
    let deep = pick(DEEP);
    let core = pick(CORE);
    let q = ctx.quick();
    let nm = |i: usize| J::s(OPS[i].name);
    let family = |name: &str, bound: &str, tasks: Vec<J>| {
        let (blocked, cut) = (AtomicU64::new(0), AtomicU64::new(0));
        ctx.par(name, bound, tasks.len(), 1, |w, i| match ask(&tasks[i]) {
            Err(m) => {
                eprintln!("{}", m);
                std::process::exit(2)
            }
            Ok(a) => {
                w.states += a.processes + a.preemptions;
                w.transitions += a.calls.max(a.preemptions);
                w.execs += a.calls;
                blocked.fetch_add(a.blocked, Relaxed);
                cut.fetch_add(a.cut, Relaxed);
                if i == 0 {
                    w.ctx.sample(&crate::case::Case::Hist(tasks[0].clone()), &format!("{} calls, all as when alone", a.calls));
                }
                if let Some((h, m)) = a.viol {
                    w.ctx.violation(crate::case::Case::Hist(h), m);
                }
            }
        });
        let mut x = ctx.extra.lock().unwrap();
        x.push((format!("{}: waits of one call for the other", name), J::num(blocked.into_inner())));
        x.push((format!("{}: pairs cut short by the bounds", name), J::num(cut.into_inner())));
    };

    let traits = crate::case::Case::Hist(obj("auto-traits", vec![]));
    ctx.list("Send and Sync", "every public type", &[traits]);

    // Without near-duplicates of an operation.
    let some: Vec<usize> = all.iter().copied().filter(|&i| !SECOND.contains(&OPS[i].name)).collect();
    let sets = if q { vec![(&all, 2), (&some, 3)] } else { vec![(&all, 3), (&some, 4)] };
    for (set, depth) in sets {
        let tasks = set
            .iter()
            .flat_map(|&i| set.iter().map(move |&k| (i, k)))
            .filter(|(_, k)| depth > 3 || *k == set[0])
            .map(|(i, k)| if depth > 3 { vec![i, k] } else { vec![i] })
            .map(|p| obj("tree", vec![("set", names(set)), ("prefix", names(&p)), ("depth", J::num(depth))]))
            .collect();
        family("all histories over many operations", &format!("{} operations, depth {}", set.len(), depth), tasks);
    }

    let depth = if q { 4 } else { 6 };
    let tasks = deep
        .iter()
        .flat_map(|&i| deep.iter().map(move |&k| (i, k)))
        .map(|(i, k)| obj("tree", vec![("set", names(&deep)), ("prefix", names(&[i, k])), ("depth", J::num(depth))]))
        .collect();
    family("all histories over colliding operations", &format!("{} operations, depth {}", deep.len(), depth), tasks);

    let mut tasks = vec![];
    let mut inputs = 0;
    for name in crate::sweep::SETS {
        inputs += crate::sweep::set(name).len();
        let parts = 8;
        for part in 0..parts {
            tasks.push(obj(
                "neighbours",
                vec![("set", J::s(*name)), ("order", J::s("pairs")), ("part", J::num(part)), ("parts", J::num(parts))],
            ));
        }
    }
    family("every input next to every other", &format!("{} sets, {} inputs", crate::sweep::SETS.len(), inputs), tasks);
    let thin = if q { 40 } else { 110 };
    let tasks = crate::sweep::SETS
        .iter()
        .flat_map(|name| {
            (0..4).map(move |part| {
                obj(
                    "neighbours",
                    vec![
                        ("set", J::s(*name)),
                        ("order", J::s("triples")),
                        ("thin", J::num(thin)),
                        ("part", J::num(part)),
                        ("parts", J::num(4)),
                    ],
                )
            })
        })
        .collect();
    family("every three inputs in a row", &format!("{} sets of about {} inputs", crate::sweep::SETS.len(), thin), tasks);

    let count = if q { 300_000 } else { 4_000_000 };
    let tasks = crate::sweep::MASSES.iter().map(|n| obj("mass", vec![("set", J::s(*n)), ("count", J::num(count))])).collect();
    family("many different inputs, there and back", &format!("{} sets of {}", crate::sweep::MASSES.len(), count), tasks);

    let rounds = if q { 1_100_000u64 } else { 5_000_000 };
    let tasks = all
        .iter()
        .map(|&a| {
            // The encoders of whole files are slower.
            let r = match () {
                _ if file(a) => 70_000,
                _ if OPS[a].name.contains("real") => rounds.min(140_000),
                _ => rounds,
            };
            obj("repeat", vec![("a", nm(a)), ("b", nm(a)), ("rounds", J::num(r))])
        })
        .collect();
    family("long repetitions, then everything", &format!("each operation {} times (large outputs fewer)", rounds), tasks);

    let rounds = if q { 300 } else { 70_000 };
    let tasks = core
        .iter()
        .flat_map(|&a| core.iter().map(move |&b| (a, b)))
        .filter(|(a, b)| a < b)
        .map(|(a, b)| obj("repeat", vec![("a", nm(a)), ("b", nm(b)), ("rounds", J::num(rounds))]))
        .collect();
    family("long alternations, then everything", &format!("{} operations, every pair {} times", core.len(), rounds), tasks);

    let (set, depth) = if q { (&deep[..12], 3) } else { (&some[..], 3) };
    let tasks = set
        .iter()
        .map(|&i| obj("threads-tree", vec![("set", names(set)), ("first", nm(i)), ("depth", J::num(depth))]))
        .collect();
    family("histories over two threads", &format!("{} operations, depth {}, every assignment", set.len(), depth), tasks);

    let tasks = all.iter().map(|&a| obj("nest", vec![("a", nm(a))])).collect();
    family("one call inside another", "every ordered pair", tasks);

    let tasks = all.iter().map(|&a| obj("places", vec![("a", nm(a))])).collect();
    family("calls from other surroundings", &format!("operations of each kind, {:?}", PLACES), tasks);
    let pauses: &[u64] = if q { &[5, 1100] } else { &[1, 10, 100, 1100, 11000, 65000] };
    let tasks = pauses.iter().map(|&ms| obj("pause", vec![("ms", J::num(ms))])).collect();
    family("pauses between calls", &format!("everything, {:?} ms, everything", pauses), tasks);

    // Ordered pairs at shared accesses. The file encoders of the image crate are paired with each other
    // and, in the thorough tier, with everything.
    let partners = |a: usize| -> Vec<usize> { all.iter().copied().filter(|&b| !q || file(a) == file(b)).collect() };
    let (bound, cap) = if q { (2, 60) } else { (3, 3000) };
    let schedules = |bound: u32, cap: u32| {
        let tasks = all
            .iter()
            .map(|&a| obj("schedules", vec![("a", nm(a)), ("with", names(&partners(a))), ("bound", J::num(bound)), ("cap", J::num(cap))]))
            .collect();
        family(
            "schedules at shared accesses",
            &format!("every ordered pair of {} operations, cold and warm, at most {} preemptions", all.len(), bound),
            tasks,
        );
    };
    schedules(1, if q { 20 } else { cap });

    for (name, bound, tasks) in crate::lives::tasks(q) {
        family(name, &bound, tasks);
    }

    let tasks = all.iter().map(|&a| obj("chain", vec![("a", nm(a))])).collect();
    family("calls inside each other, many deep", "operations of each kind, up to 130 deep, on one thread and on as many", tasks);

    // And, independent of what counts as shared, at every single instruction.
    let mut tasks = vec![];
    let pre = |a: &str, b: &str, warm: u8| {
        obj("preempt", vec![("a", J::s(a)), ("b", J::s(b)), ("stride", J::num(1)), ("warm", J::num(warm))])
    };
    if q {
        for (a, b) in QUICK_PAIRS {
            tasks.push(pre(a, b, 0));
            tasks.push(pre(a, b, 1));
        }
        for a in THREE {
            let i = find(a).expect("operation");
            tasks.push(pre(a, OPS[mixed(i, 1, false)].name, 0));
        }
    } else {
        for warm in [0, 1] {
            for a in CORE {
                for b in CORE {
                    tasks.push(pre(a, b, warm));
                }
            }
        }
    }
    family("preemption at every instruction", &format!("{} ordered pairs of operations", tasks.len()), tasks);

    // The most expensive ones where much is shared, last.
    schedules(bound, cap);

    // Three threads in any three of the core operations, or many in the same one.
    let some = pick(if q { THREE } else { CORE });
    let pairs: Vec<J> = some.iter().flat_map(|&b| some.iter().map(move |&c| names(&[b, c]))).collect();
    let crowds: &[u64] = if q { &[3, 5, 9, 17] } else { &[3, 4, 5, 6, 7, 8, 9, 10, 12, 13, 16, 17, 20, 21, 24] };
    let tasks = all
        .iter()
        .map(|&a| {
            let mut two = if some.contains(&a) { pairs.clone() } else { vec![] };
            let kin = kin(a);
            let few = &kin[..kin.len().min(if q && file(a) { 2 } else { 5 })];
            two.extend(few.iter().flat_map(|&b| few.iter().map(move |&c| names(&[b, c]))));
            let crowds = if q && file(a) { &crowds[..2] } else { crowds };
            let v = vec![
                ("a", nm(a)),
                ("with-two", J::Arr(two)),
                ("threads", J::Arr(crowds.iter().map(J::num).collect())),
                ("bound", J::num(2)),
                ("cap", J::num(cap)),
            ];
            obj("schedules", v)
        })
        .collect();
    family(
        "schedules of three and more threads",
        &format!("every ordered triple of {} operations and of 5 operations of each kind; each kind on {:?} threads suspended alike", some.len(), crowds),
        tasks,
    );
}
