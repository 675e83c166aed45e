//! The code under test, called through its public API only.

use crate::refs::{Sym, E_CHAR, E_CHECK, E_GEN, E_LEN};
use barcoders::error::Error;
use barcoders::generators::{ascii, image as gimage, json as gjson, svg};
use barcoders::sym::{
    codabar::Codabar as SCodabar,
    code11::{Code11 as SCode11, USD8},
    code128::Code128 as SCode128,
    code39::Code39 as SCode39,
    code93::Code93 as SCode93,
    ean13::{Bookland, EAN13, JAN},
    ean8::EAN8,
    ean_supp::EANSUPP,
    tf::TF,
    upca::UPCA,
};
use std::cell::RefCell;
use std::panic::{catch_unwind, AssertUnwindSafe};

thread_local! {
    static PANIC: RefCell<String> = const { RefCell::new(String::new()) };
    static QUIET: RefCell<bool> = const { RefCell::new(false) };
}

/// Panics inside `catch` are recorded instead of printed.
pub fn install_hook() {
    let old = std::panic::take_hook();
    std::panic::set_hook(Box::new(move |info| {
        if QUIET.try_with(|q| *q.borrow()).unwrap_or(false) {
            let _ = PANIC.try_with(|p| *p.borrow_mut() = info.to_string());
        } else {
            old(info);
        }
    }));
}

/// Runs code under test; a panic becomes Err(message).
pub fn catch<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    QUIET.with(|q| *q.borrow_mut() = true);
    let r = catch_unwind(AssertUnwindSafe(f));
    QUIET.with(|q| *q.borrow_mut() = false);
    r.map_err(|_| {
        PANIC.with(|p| {
            let s = p.borrow().replace('\n', " ");
            format!("panic: {}", s.chars().take(300).collect::<String>())
        })
    })
}

pub fn errbit(e: Error) -> u8 {
    match e {
        Error::Character => E_CHAR,
        Error::Length => E_LEN,
        Error::Checksum => E_CHECK,
        Error::Generate => E_GEN,
    }
}

pub fn errname(bits: u8) -> String {
    let mut v = vec![];
    for (b, n) in [
        (E_CHAR, "Character"),
        (E_LEN, "Length"),
        (E_CHECK, "Checksum"),
        (E_GEN, "Generate"),
    ] {
        if bits & b != 0 {
            v.push(n);
        }
    }
    v.join("|")
}

thread_local! {
    /// Data is handed over at an address of this modulo 16; 255: wherever it is.
    static ADDRESS: std::cell::Cell<u8> = const { std::cell::Cell::new(255) };
}

/// Runs `f` with data handed over at addresses of `off` modulo 16.
pub fn at_address<R>(off: u8, f: impl FnOnce() -> R) -> R {
    ADDRESS.with(|a| a.set(off));
    let r = f();
    ADDRESS.with(|a| a.set(255));
    r
}

/// A copy of the data at the address asked for, between bytes that are neither modules nor characters.
fn placed<R>(data: &[u8], f: impl FnOnce(&[u8]) -> R) -> R {
    let off = ADDRESS.with(|a| a.get());
    if off == 255 {
        return f(data);
    }
    let mut v = vec![0x7f; data.len() + 48];
    let start = (16 - v.as_ptr() as usize % 16) % 16 + off as usize;
    v[start..start + data.len()].copy_from_slice(data);
    f(&v[start..start + data.len()])
}
fn placed_str<R>(data: &str, f: impl FnOnce(&str) -> R) -> R {
    placed(data.as_bytes(), |b| f(std::str::from_utf8(b).expect("text")))
}

/// Number of equivalent ways the API offers to build this symbology.
pub fn vias(sym: Sym) -> u8 {
    match sym {
        Sym::Ean13 => 3,
        Sym::Code11 => 2,
        Sym::Code39 => 3,
        Sym::Code39C => 3,
        _ => 1,
    }
}

/// Construct and encode. Outer Err: panicked.
pub fn encode(sym: Sym, via: u8, data: &str) -> Result<Result<Vec<u8>, u8>, String> {
    placed_str(data, |data| encode_here(sym, via, data))
}

fn encode_here(sym: Sym, via: u8, data: &str) -> Result<Result<Vec<u8>, u8>, String> {
    catch(|| {
        let r = match (sym, via) {
            (Sym::Ean13, 1) => Bookland::new(data).map(|b| b.encode()),
            (Sym::Ean13, 2) => JAN::new(data).map(|b| b.encode()),
            (Sym::Ean13, _) => EAN13::new(data).map(|b| b.encode()),
            (Sym::Upca, _) => UPCA::new(data).map(|b| b.encode()),
            (Sym::Ean8, _) => EAN8::new(data).map(|b| b.encode()),
            (Sym::Supp, _) => EANSUPP::new(data).map(|b| b.encode()),
            (Sym::Code39, 1) => SCode39::with_checksum(data).map(|mut b| {
                b.checksum = false;
                b.encode()
            }),
            (Sym::Code39, 2) => SCode39::new(data).map(|mut b| {
                b.checksum = true;
                let _ = b.encode();
                b.checksum = false;
                b.encode()
            }),
            (Sym::Code39, _) => SCode39::new(data).map(|b| b.encode()),
            (Sym::Code39C, 1) => SCode39::new(data).map(|mut b| {
                b.checksum = true;
                b.encode()
            }),
            (Sym::Code39C, 2) => SCode39::with_checksum(data).map(|mut b| {
                b.checksum = false;
                let _ = b.encode();
                b.checksum = true;
                b.encode()
            }),
            (Sym::Code39C, _) => SCode39::with_checksum(data).map(|b| b.encode()),
            (Sym::Code93, _) => SCode93::new(data).map(|b| b.encode()),
            (Sym::Code11, 1) => USD8::new(data).map(|b| b.encode()),
            (Sym::Code11, _) => SCode11::new(data).map(|b| b.encode()),
            (Sym::Codabar, _) => SCodabar::new(data).map(|b| b.encode()),
            (Sym::Itf, _) => TF::interleaved(data).map(|b| b.encode()),
            (Sym::Stf, _) => TF::standard(data).map(|b| b.encode()),
            (Sym::Code128, _) => SCode128::new(data).map(|b| b.encode()),
        };
        r.map_err(errbit)
    })
}

pub fn show(bits: &[u8]) -> String {
    let s: String = bits
        .iter()
        .take(400)
        .map(|b| if *b < 10 { (b'0' + b) as char } else { '?' })
        .collect();
    if bits.len() > 400 {
        format!("{}... ({} modules)", s, bits.len())
    } else {
        s
    }
}

// ---------------------------------------------------------------- generators

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash, PartialOrd, Ord)]
pub enum Fmt {
    Gif,
    Png,
    Webp,
    Buf,
}
pub const FMTS: [Fmt; 4] = [Fmt::Buf, Fmt::Png, Fmt::Gif, Fmt::Webp];

impl Fmt {
    pub fn name(self) -> &'static str {
        match self {
            Fmt::Gif => "gif",
            Fmt::Png => "png",
            Fmt::Webp => "webp",
            Fmt::Buf => "imagebuffer",
        }
    }
    pub fn from_name(s: &str) -> Option<Fmt> {
        FMTS.iter().copied().find(|f| f.name() == s)
    }
}

pub type Rgba4 = [u8; 4];

#[derive(Clone, Debug, PartialEq)]
pub struct Pic {
    pub w: u32,
    pub h: u32,
    /// RGBA bytes, row by row.
    pub px: Vec<u8>,
}

fn rot(r: u8) -> gimage::Rotation {
    match r {
        0 => gimage::Rotation::Zero,
        1 => gimage::Rotation::Ninety,
        2 => gimage::Rotation::OneEighty,
        _ => gimage::Rotation::TwoSeventy,
    }
}

pub fn image(fmt: Fmt, height: u32, xdim: u32, r: u8, fg: Rgba4, bg: Rgba4) -> gimage::Image {
    let (rotation, foreground, background) =
        (rot(r), gimage::Color::new(fg), gimage::Color::new(bg));
    match fmt {
        Fmt::Gif => gimage::Image::GIF {
            height,
            xdim,
            rotation,
            foreground,
            background,
        },
        Fmt::Png => gimage::Image::PNG {
            height,
            xdim,
            rotation,
            foreground,
            background,
        },
        Fmt::Webp => gimage::Image::WEBP {
            height,
            xdim,
            rotation,
            foreground,
            background,
        },
        Fmt::Buf => gimage::Image::ImageBuffer {
            height,
            xdim,
            rotation,
            foreground,
            background,
        },
    }
}

pub fn gen_file(img: &gimage::Image, bits: &[u8]) -> Result<Result<Vec<u8>, u8>, String> {
    placed(bits, |bits| catch(|| img.generate(bits).map_err(errbit)))
}

pub fn gen_buf(img: gimage::Image, bits: &[u8]) -> Result<Result<Pic, u8>, String> {
    placed(bits, |bits| {
        catch(|| {
            img.generate_buffer(bits)
                .map(|b| Pic {
                    w: b.width(),
                    h: b.height(),
                    px: b.into_raw(),
                })
                .map_err(errbit)
        })
    })
}

pub fn gen_ascii(height: usize, xdim: usize, bits: &[u8]) -> Result<Result<String, u8>, String> {
    placed(bits, |bits| catch(|| ascii::ASCII { height, xdim }.generate(bits).map_err(errbit)))
}

pub fn gen_json(height: usize, xdim: usize, bits: &[u8]) -> Result<Result<String, u8>, String> {
    placed(bits, |bits| catch(|| gjson::JSON { height, xdim }.generate(bits).map_err(errbit)))
}

/// The same through the constructor and the setters, with the fields as they stand then.
pub fn set_svg(
    height: u32,
    xdim: u32,
    fg: Rgba4,
    bg: Rgba4,
    xmlns: Option<&str>,
    bits: &[u8],
) -> Result<(svg::SVG, Result<String, u8>), String> {
    let g = catch(|| {
        let g = svg::SVG::new(height).xdim(xdim).foreground(svg::Color::new(fg)).background(svg::Color::new(bg));
        match xmlns {
            Some(n) => g.xmlns(n.to_string()),
            None => g,
        }
    })?;
    let r = placed(bits, |bits| catch(|| g.generate(bits).map_err(errbit)))?;
    Ok((g, r))
}

pub fn gen_svg(
    height: u32,
    xdim: u32,
    fg: Rgba4,
    bg: Rgba4,
    xmlns: Option<&str>,
    bits: &[u8],
) -> Result<Result<String, u8>, String> {
    let g = svg::SVG {
        height,
        xdim,
        foreground: svg::Color { rgba: fg },
        background: svg::Color { rgba: bg },
        xmlns: xmlns.map(String::from),
    };
    placed(bits, |bits| catch(|| g.generate(bits).map_err(errbit)))
}
