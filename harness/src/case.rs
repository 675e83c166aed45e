//! One explored execution: how it is named (JSON), judged, and shrunk.

use crate::imp::{self, catch, errname, Fmt, Pic, Rgba4};
use crate::json::J;
use crate::refs::{self, expect, reading, scan, Expect, Sym, E_CHECK, E_GEN};
use crate::svgparse;

#[derive(Clone, Debug, PartialEq)]
pub enum Case {
    /// Construct and encode `data`; `via` picks among equivalent constructors.
    Sym { sym: Sym, via: u8, data: String },
    /// As Sym with data = pre + unit * count + post (for inputs too long to write out).
    Rep { sym: Sym, pre: String, unit: String, count: u64, post: String },
    /// One generator call.
    Gen(Gen),
    /// A sequence of SVG setter calls (setter, value index).
    Setters { height: u32, ops: Vec<(u8, u8)> },
    /// Constructor defaults and copies of generator `which` for a height.
    Defaults { which: u8, height: u32 },
    /// Encode `data`, generate, scan the output.
    E2e { sym: Sym, data: String, gen: Gen },
    /// The case with its data at an address of `off` modulo 16.
    Placed { off: u8, case: Box<Case> },
    /// A history of operations (see hist.rs).
    Hist(J),
    /// A build configuration (see conf.rs).
    Conf(J),
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Kind {
    Ascii,
    Json,
    Svg,
    /// generate
    File(Fmt),
    /// generate_buffer
    Buf(Fmt),
}

#[derive(Clone, Debug, PartialEq)]
pub struct Gen {
    pub kind: Kind,
    pub bits: Vec<u8>,
    pub height: u64,
    pub xdim: u64,
    pub rot: u8,
    pub fg: Rgba4,
    pub bg: Rgba4,
    pub xmlns: Option<String>,
}

pub const BLACK: Rgba4 = [0, 0, 0, 255];
pub const WHITE: Rgba4 = [255, 255, 255, 255];

impl Gen {
    pub fn new(kind: Kind, bits: &[u8], height: u64, xdim: u64) -> Gen {
        Gen {
            kind,
            bits: bits.to_vec(),
            height,
            xdim,
            rot: 0,
            fg: BLACK,
            bg: WHITE,
            xmlns: None,
        }
    }
    pub fn colors(mut self, fg: Rgba4, bg: Rgba4) -> Gen {
        self.fg = fg;
        self.bg = bg;
        self
    }
    pub fn rot(mut self, r: u8) -> Gen {
        self.rot = r;
        self
    }
}

impl Kind {
    pub fn name(self) -> String {
        match self {
            Kind::Ascii => "ascii".into(),
            Kind::Json => "json".into(),
            Kind::Svg => "svg".into(),
            Kind::File(f) => format!("{}.generate", f.name()),
            Kind::Buf(f) => format!("{}.generate_buffer", f.name()),
        }
    }
    pub fn from_name(s: &str) -> Option<Kind> {
        match s {
            "ascii" => Some(Kind::Ascii),
            "json" => Some(Kind::Json),
            "svg" => Some(Kind::Svg),
            _ => {
                let (f, m) = s.split_once('.')?;
                let f = Fmt::from_name(f)?;
                match m {
                    "generate" => Some(Kind::File(f)),
                    "generate_buffer" => Some(Kind::Buf(f)),
                    _ => None,
                }
            }
        }
    }
}

// ---------------------------------------------------------------- naming

/// Text as a list of plain strings and [unit, count] runs.
pub fn rle(s: &str) -> J {
    if s.len() <= 600 {
        return J::s(s);
    }
    let c: Vec<char> = s.chars().collect();
    let mut out = vec![];
    let mut plain = String::new();
    let mut i = 0;
    while i < c.len() {
        let mut best = (0, 0);
        for u in 1..=4.min(c.len() - i) {
            let mut k = 1;
            while i + (k + 1) * u <= c.len() && c[i + k * u..i + (k + 1) * u] == c[i..i + u] {
                k += 1;
            }
            if k >= 8 && k * u > best.0 * best.1 {
                best = (u, k);
            }
        }
        if best.1 > 0 {
            if !plain.is_empty() {
                out.push(J::s(std::mem::take(&mut plain)));
            }
            out.push(J::Arr(vec![
                J::s(c[i..i + best.0].iter().collect::<String>()),
                J::num(best.1),
            ]));
            i += best.0 * best.1;
        } else {
            plain.push(c[i]);
            i += 1;
        }
    }
    if !plain.is_empty() {
        out.push(J::s(plain));
    }
    J::Arr(out)
}

pub fn unrle(j: &J) -> Option<String> {
    if let Some(s) = j.str() {
        return Some(s.to_string());
    }
    let mut out = String::new();
    for p in j.arr()? {
        match p {
            J::Str(s) => out.push_str(s),
            J::Arr(a) => out.push_str(&a.first()?.str()?.repeat(a.get(1)?.u64()? as usize)),
            _ => return None,
        }
    }
    Some(out)
}

fn col(c: Rgba4) -> J {
    J::Arr(c.iter().map(J::num).collect())
}
fn uncol(j: &J) -> Option<Rgba4> {
    let a = j.arr()?;
    let mut c = [0; 4];
    for i in 0..4 {
        c[i] = a.get(i)?.u64()? as u8;
    }
    Some(c)
}

impl Gen {
    fn to_json(&self) -> Vec<(String, J)> {
        let bits: String = self
            .bits
            .iter()
            .map(|&b| if b < 10 { (b'0' + b) as char } else { '?' })
            .collect();
        vec![
            ("kind".into(), J::s(self.kind.name())),
            ("modules".into(), rle(&bits)),
            ("height".into(), J::num(self.height)),
            ("xdim".into(), J::num(self.xdim)),
            ("rotation".into(), J::num(self.rot as u32 * 90)),
            ("foreground".into(), col(self.fg)),
            ("background".into(), col(self.bg)),
            (
                "xmlns".into(),
                self.xmlns.as_ref().map_or(J::Null, |s| J::s(s.clone())),
            ),
        ]
    }
    fn from_json(j: &J) -> Option<Gen> {
        Some(Gen {
            kind: Kind::from_name(j.get("kind")?.str()?)?,
            bits: unrle(j.get("modules")?)?.bytes().map(|b| b - b'0').collect(),
            height: j.get("height")?.u64()?,
            xdim: j.get("xdim")?.u64()?,
            rot: (j.get("rotation")?.u64()? / 90) as u8,
            fg: uncol(j.get("foreground")?)?,
            bg: uncol(j.get("background")?)?,
            xmlns: j.get("xmlns")?.str().map(String::from),
        })
    }
}

impl Case {
    pub fn to_json(&self) -> J {
        let o = |t: &str, mut m: Vec<(String, J)>| {
            let mut v = vec![("type".to_string(), J::s(t))];
            v.append(&mut m);
            J::Obj(v)
        };
        match self {
            Case::Sym { sym, via, data } => o(
                "encode",
                vec![
                    ("symbology".into(), J::s(sym.name())),
                    ("via".into(), J::num(*via)),
                    ("data".into(), rle(data)),
                ],
            ),
            Case::Rep { sym, pre, unit, count, post } => o(
                "encode-long",
                vec![
                    ("symbology".into(), J::s(sym.name())),
                    ("pre".into(), J::s(pre.clone())),
                    ("unit".into(), J::s(unit.clone())),
                    ("count".into(), J::num(*count)),
                    ("post".into(), J::s(post.clone())),
                ],
            ),
            Case::Gen(g) => o("generate", g.to_json()),
            Case::Setters { height, ops } => o(
                "svg-setters",
                vec![
                    ("height".into(), J::num(*height)),
                    (
                        "ops".into(),
                        J::Arr(
                            ops.iter()
                                .map(|(a, b)| J::Arr(vec![J::num(*a), J::num(*b)]))
                                .collect(),
                        ),
                    ),
                ],
            ),
            Case::Defaults { which, height } => o(
                "defaults",
                vec![
                    ("generator".into(), J::num(*which)),
                    ("height".into(), J::num(*height)),
                ],
            ),
            Case::E2e { sym, data, gen } => {
                let mut v = vec![
                    ("symbology".into(), J::s(sym.name())),
                    ("data".into(), rle(data)),
                ];
                v.append(&mut gen.to_json());
                o("encode-generate-scan", v)
            }
            Case::Placed { off, case } => o("placed", vec![("address".into(), J::num(*off)), ("case".into(), case.to_json())]),
            Case::Hist(j) => o("history", vec![("history".into(), j.clone())]),
            Case::Conf(j) => o("configuration", vec![("configuration".into(), j.clone())]),
        }
    }
    pub fn from_json(j: &J) -> Option<Case> {
        let sym = || Sym::from_name(j.get("symbology")?.str()?);
        Some(match j.get("type")?.str()? {
            "encode" => Case::Sym {
                sym: sym()?,
                via: j.get("via")?.u64()? as u8,
                data: unrle(j.get("data")?)?,
            },
            "encode-long" => Case::Rep {
                sym: sym()?,
                pre: j.get("pre")?.str()?.into(),
                unit: j.get("unit")?.str()?.into(),
                count: j.get("count")?.u64()?,
                post: j.get("post")?.str()?.into(),
            },
            "generate" => Case::Gen(Gen::from_json(j)?),
            "svg-setters" => Case::Setters {
                height: j.get("height")?.u64()? as u32,
                ops: j
                    .get("ops")?
                    .arr()?
                    .iter()
                    .map(|p| Some((p.arr()?[0].u64()? as u8, p.arr()?[1].u64()? as u8)))
                    .collect::<Option<_>>()?,
            },
            "defaults" => Case::Defaults {
                which: j.get("generator")?.u64()? as u8,
                height: j.get("height")?.u64()? as u32,
            },
            "encode-generate-scan" => Case::E2e {
                sym: sym()?,
                data: unrle(j.get("data")?)?,
                gen: Gen::from_json(j)?,
            },
            "placed" => Case::Placed {
                off: j.get("address")?.u64()? as u8,
                case: Box::new(Case::from_json(j.get("case")?)?),
            },
            "history" => Case::Hist(j.get("history")?.clone()),
            "configuration" => Case::Conf(j.get("configuration")?.clone()),
            _ => return None,
        })
    }
    /// Smaller is a better counterexample.
    pub fn size(&self) -> usize {
        match self {
            Case::Sym { data, .. } => data.chars().count() * 4 + data.chars().filter(|c| *c != '0').count(),
            Case::Rep { .. } => usize::MAX / 2,
            Case::Gen(g) => {
                g.bits.len() * 4
                    + (g.height as usize).min(1 << 40)
                    + (g.xdim as usize).min(1 << 40)
                    + g.rot as usize
                    + (g.fg != BLACK) as usize
                    + (g.bg != WHITE) as usize
            }
            Case::Setters { ops, .. } => ops.len(),
            Case::Defaults { .. } => 1,
            Case::E2e { data, gen, .. } => {
                data.chars().count() * 8 + (gen.height + gen.xdim) as usize + gen.rot as usize
            }
            Case::Placed { case, .. } => 1 + case.size(),
            Case::Hist(j) => j.text().len(),
            Case::Conf(j) => j.text().len(),
        }
    }
    pub fn shrink(&self) -> Vec<Case> {
        let mut out = vec![];
        match self {
            Case::Sym { sym, via, data } if data.chars().count() < 400 => {
                let c: Vec<char> = data.chars().collect();
                let mk = |v: Vec<char>| Case::Sym {
                    sym: *sym,
                    via: *via,
                    data: v.into_iter().collect(),
                };
                for half in [c.len() / 2, c.len() / 4] {
                    if half > 0 {
                        out.push(mk(c[half..].to_vec()));
                        out.push(mk(c[..c.len() - half].to_vec()));
                    }
                }
                for i in 0..c.len() {
                    let mut v = c.clone();
                    v.remove(i);
                    out.push(mk(v));
                }
                for i in 0..c.len() {
                    if c[i] != '0' {
                        let mut v = c.clone();
                        v[i] = '0';
                        out.push(mk(v));
                    }
                }
                if *via > 0 {
                    out.push(Case::Sym {
                        sym: *sym,
                        via: 0,
                        data: data.clone(),
                    });
                }
            }
            Case::Gen(g) => {
                let mk = |f: &dyn Fn(&mut Gen)| {
                    let mut h = g.clone();
                    f(&mut h);
                    Case::Gen(h)
                };
                let n = g.bits.len();
                if n > 0 {
                    out.push(mk(&|h| h.bits.truncate(n / 2)));
                    out.push(mk(&|h| {
                        h.bits.drain(..n.div_ceil(2));
                    }));
                    if n <= 64 {
                        for i in 0..n {
                            out.push(mk(&|h| {
                                h.bits.remove(i);
                            }));
                        }
                    }
                }
                for f in [2, 1] {
                    if g.height > 1 {
                        out.push(mk(&|h| h.height = if f == 2 { h.height / 2 } else { h.height - 1 }));
                    }
                    if g.xdim > 1 {
                        out.push(mk(&|h| h.xdim = if f == 2 { h.xdim / 2 } else { h.xdim - 1 }));
                    }
                }
                if g.rot > 0 {
                    out.push(mk(&|h| h.rot = 0));
                }
                // Not into pictures that do not fit in memory.
                out.retain(|c| match c {
                    Case::Gen(h) if matches!(h.kind, Kind::File(_) | Kind::Buf(_)) => {
                        let area = h.bits.len() as u128 * h.xdim as u128 * h.height as u128;
                        area < 1 << 28 || area >= 1 << 61
                    }
                    _ => true,
                });
                out.push(mk(&|h| h.fg = BLACK));
                out.push(mk(&|h| h.bg = WHITE));
                out.push(mk(&|h| h.xmlns = None));
            }
            Case::Setters { height, ops } => {
                for i in 0..ops.len() {
                    let mut o = ops.clone();
                    o.remove(i);
                    out.push(Case::Setters {
                        height: *height,
                        ops: o,
                    });
                }
            }
            Case::E2e { sym, data, gen } => {
                let c: Vec<char> = data.chars().collect();
                for i in 0..c.len() {
                    let mut v = c.clone();
                    v.remove(i);
                    out.push(Case::E2e {
                        sym: *sym,
                        data: v.into_iter().collect(),
                        gen: gen.clone(),
                    });
                }
                if gen.height > 1 {
                    let mut g = gen.clone();
                    g.height = 1;
                    out.push(Case::E2e { sym: *sym, data: data.clone(), gen: g });
                }
                if gen.xdim > 1 {
                    let mut g = gen.clone();
                    g.xdim = 1;
                    out.push(Case::E2e { sym: *sym, data: data.clone(), gen: g });
                }
            }
            Case::Placed { off, case } => {
                out.push((**case).clone());
                out.extend(case.shrink().into_iter().map(|c| Case::Placed { off: *off, case: Box::new(c) }));
            }
            _ => {}
        }
        out.retain(|c| c.size() < self.size());
        out
    }
}

// ---------------------------------------------------------------- judging: symbologies

fn verdict(r: &Result<Vec<u8>, u8>) -> String {
    match r {
        Ok(b) => format!("accepted: {}", imp::show(b)),
        Err(e) => format!("Err({})", errname(*e)),
    }
}

/// `want` is scratch space. `out` counts [accepted, rejected, unspecified, skipped].
pub fn judge_sym(
    prop: &str,
    sym: Sym,
    via: u8,
    data: &str,
    want: &mut Vec<u8>,
    out: &mut [u64; 4],
) -> Result<(), String> {
    let exp = expect(sym, data, want);
    match prop {
        "C05" => {
            let dl = match sym {
                Sym::Ean13 => 12,
                Sym::Upca => 11,
                Sym::Ean8 => 7,
                _ => {
                    out[3] += 1;
                    return Ok(());
                }
            };
            if data.len() != dl + 1 || !data.bytes().all(|b| b.is_ascii_digit()) {
                out[3] += 1;
                return Ok(());
            }
            let got = imp::encode(sym, via, data)?;
            if exp == Expect::Accept {
                let bare = imp::encode(sym, via, &data[..dl])?;
                out[0] += 1;
                match (&got, &bare) {
                    (Ok(a), Ok(b)) if a == b => Ok(()),
                    _ => Err(format!(
                        "correct check digit: with it {}, without it {}",
                        verdict(&got),
                        verdict(&bare)
                    )),
                }
            } else {
                out[1] += 1;
                if got == Err(E_CHECK) {
                    Ok(())
                } else {
                    Err(format!("wrong check digit must give Err(Checksum), got {}", verdict(&got)))
                }
            }
        }
        "C12" => {
            let got = imp::encode(sym, via, data)?;
            let Ok(bits) = &got else {
                out[if exp == Expect::Accept { 3 } else { 1 }] += 1;
                return Ok(());
            };
            out[0] += 1;
            if !matches!(exp, Expect::Reject(_)) && bits != want {
                return Err(format!(
                    "symbol differs from the standard one: got {} want {}",
                    imp::show(bits),
                    imp::show(want)
                ));
            }
            let read = scan(sym, bits);
            let want_read = reading(sym, data);
            if read.as_deref() != Some(&want_read[..]) {
                return Err(format!("scans back as {:?}, not {:?}", read, want_read));
            }
            Ok(())
        }
        "C13" | "C14" => {
            let got = imp::encode(sym, via, data)?;
            let bad = match exp {
                Expect::Accept => {
                    out[0] += 1;
                    got.is_err().then(|| "accepted".to_string())
                }
                Expect::Maybe(m) => {
                    out[2] += 1;
                    match got {
                        Err(e) if e & m == 0 => Some(format!("accepted or rejected with {}", errname(m))),
                        _ => None,
                    }
                }
                Expect::Reject(E_CHECK) => {
                    out[3] += 1;
                    None
                }
                Expect::Reject(m) => {
                    out[1] += 1;
                    match got {
                        Err(e) if e & m != 0 => None,
                        _ => Some(format!("rejected with {}", errname(m))),
                    }
                }
            };
            match bad {
                None => Ok(()),
                Some(w) => Err(format!("must be {}, got {}", w, verdict(&got))),
            }
        }
        _ => {
            if exp != Expect::Accept {
                out[3] += 1;
                return Ok(());
            }
            out[0] += 1;
            let got = imp::encode(sym, via, data)?;
            match &got {
                Ok(b) if b == want => {
                    // The reference encoder and the reference scanner must agree as well.
                    if sym != Sym::Codabar || refs::CODA_OVERRIDE.get().is_none_or(|o| o.is_empty()) || !data.contains(['B', 'C', '+']) {
                        let read = scan(sym, b);
                        let want_read = reading(sym, data);
                        if read.as_deref() != Some(&want_read[..]) {
                            return Err(format!("scans back as {:?}, not {:?}", read, want_read));
                        }
                    }
                    Ok(())
                }
                Ok(b) => Err(format!(
                    "not the standard symbol: got {} (scans as {:?}) want {}",
                    imp::show(b),
                    scan(sym, b),
                    imp::show(want)
                )),
                Err(e) => Err(format!("valid data rejected with Err({})", errname(*e))),
            }
        }
    }
}

// ---------------------------------------------------------------- judging: generators

/// The picture a barcode must give, rotated clockwise by rot * 90 degrees.
pub fn ref_pic(g: &Gen) -> Pic {
    let (w, h) = ((g.bits.len() as u64 * g.xdim) as usize, g.height as usize);
    let (ow, oh) = if g.rot % 2 == 0 { (w, h) } else { (h, w) };
    let xd = g.xdim as usize;
    let row: Vec<Rgba4> = (0..w)
        .map(|x| if g.bits[x / xd] == 1 { g.fg } else { g.bg })
        .collect();
    let mut px = Vec::with_capacity(ow * oh * 4);
    for y in 0..oh {
        match g.rot {
            0 => row.iter().for_each(|c| px.extend_from_slice(c)),
            2 => row.iter().rev().for_each(|c| px.extend_from_slice(c)),
            // out(x', y') = in(y', h-1-x')
            1 => (0..ow).for_each(|_| px.extend_from_slice(&row[y])),
            // out(x', y') = in(w-1-y', x')
            _ => (0..ow).for_each(|_| px.extend_from_slice(&row[w - 1 - y])),
        }
    }
    Pic {
        w: ow as u32,
        h: oh as u32,
        px,
    }
}

/// The decoder in image-webp takes a bare VP8L side of 16384, the format's limit, for 0; inside a VP8X
/// container it does not.
fn webp_workaround(b: &[u8]) -> Option<Vec<u8>> {
    if b.len() < 25 || &b[12..16] != b"VP8L" || b[20] != 0x2f {
        return None;
    }
    let h = u32::from_le_bytes(b[21..25].try_into().unwrap());
    let (w1, h1) = (h & 0x3fff, h >> 14 & 0x3fff);
    if w1 != 0x3fff && h1 != 0x3fff {
        return None;
    }
    let mut v = b"RIFF".to_vec();
    v.extend_from_slice(&(b.len() as u32 - 8 + 18).to_le_bytes());
    v.extend_from_slice(b"WEBPVP8X\x0a\0\0\0\x10\0\0\0");
    v.extend_from_slice(&w1.to_le_bytes()[..3]);
    v.extend_from_slice(&h1.to_le_bytes()[..3]);
    v.extend_from_slice(&b[12..]);
    Some(v)
}

pub fn decode(fmt: Fmt, bytes: &[u8]) -> Result<Pic, String> {
    let wrapped = if fmt == Fmt::Webp { webp_workaround(bytes) } else { None };
    let bytes = wrapped.as_deref().unwrap_or(bytes);
    let f = match fmt {
        Fmt::Gif => image::ImageFormat::Gif,
        Fmt::Png => image::ImageFormat::Png,
        _ => image::ImageFormat::WebP,
    };
    match image::guess_format(bytes) {
        Ok(x) if x == f => {}
        o => return Err(format!("not a {} file ({:?})", fmt.name(), o.ok())),
    }
    let mut r = image::ImageReader::with_format(std::io::Cursor::new(bytes), f);
    r.no_limits();
    let im = r.decode().map_err(|e| format!("{} file does not decode: {}", fmt.name(), e))?;
    let b = im.to_rgba8();
    Ok(Pic {
        w: b.width(),
        h: b.height(),
        px: b.into_raw(),
    })
}

fn pic_diff(got: &Pic, want: &Pic) -> Option<String> {
    if (got.w, got.h) != (want.w, want.h) {
        return Some(format!(
            "size {}x{}, want {}x{}",
            got.w, got.h, want.w, want.h
        ));
    }
    if got.px.len() != want.px.len() {
        return Some(format!("{} bytes of pixels, want {}", got.px.len(), want.px.len()));
    }
    let p = got
        .px
        .chunks(4)
        .zip(want.px.chunks(4))
        .position(|(a, b)| a != b)?;
    Some(format!(
        "pixel ({}, {}) is {:?}, want {:?}",
        p as u32 % got.w,
        p as u32 / got.w,
        &got.px[4 * p..4 * p + 4],
        &want.px[4 * p..4 * p + 4]
    ))
}

/// Side limits of the formats.
pub fn side_limit(f: Fmt) -> u64 {
    match f {
        Fmt::Gif => 65535,
        Fmt::Webp => 16384,
        _ => u32::MAX as u64,
    }
}

/// Picture size, if it fits 32 bits.
pub fn dims(g: &Gen) -> Option<(u64, u64)> {
    let w = (g.bits.len() as u64).checked_mul(g.xdim)?;
    if w > u32::MAX as u64 {
        return None;
    }
    Some(if g.rot % 2 == 0 { (w, g.height) } else { (g.height, w) })
}

fn short(s: &str) -> String {
    let t: String = s.chars().take(300).collect();
    if t.len() < s.len() {
        format!("{:?}... ({} bytes)", t, s.len())
    } else {
        format!("{:?}", t)
    }
}

fn text(r: Result<Result<String, u8>, String>) -> Result<String, String> {
    r?.map_err(|e| format!("generate failed with Err({})", errname(e)))
}

pub fn judge_ascii(g: &Gen) -> Result<String, String> {
    let got = text(imp::gen_ascii(g.height as usize, g.xdim as usize, &g.bits))?;
    let mut row = String::new();
    for &b in &g.bits {
        for _ in 0..g.xdim {
            row.push(if b == 1 { '#' } else { ' ' });
        }
    }
    let mut want = String::with_capacity((row.len() + 1) * g.height as usize);
    for i in 0..g.height {
        if i > 0 {
            want.push('\n');
        }
        want.push_str(&row);
    }
    if got == want {
        Ok(short(&got))
    } else {
        Err(format!("ASCII output {} want {}", short(&got), short(&want)))
    }
}

pub fn judge_json(g: &Gen) -> Result<String, String> {
    let got = text(imp::gen_json(g.height as usize, g.xdim as usize, &g.bits))?;
    let bad = |m: String| Err(format!("{}: {}", m, short(&got)));
    let j = match crate::json::parse(&got) {
        Ok(j) => j,
        Err(e) => return bad(format!("not valid JSON ({})", e)),
    };
    let J::Obj(m) = &j else {
        return bad("not an object".into());
    };
    let mut names: Vec<&str> = m.iter().map(|x| &x.0[..]).collect();
    names.sort();
    if names != ["encoding", "height", "xdim"] {
        return bad(format!("members {:?}", names));
    }
    for (k, v) in [("height", g.height), ("xdim", g.xdim)] {
        if j.get(k).unwrap().u64() != Some(v) {
            return bad(format!("{} is not {}", k, v));
        }
    }
    let Some(a) = j.get("encoding").unwrap().arr() else {
        return bad("encoding is not an array".into());
    };
    if a.len() != g.bits.len() || a.iter().zip(&g.bits).any(|(x, b)| x.u64() != Some(*b as u64)) {
        return bad("encoding does not restate the modules".into());
    }
    Ok(short(&got))
}

pub fn judge_svg(g: &Gen) -> Result<String, String> {
    let got = text(imp::gen_svg(
        g.height as u32,
        g.xdim as u32,
        g.fg,
        g.bg,
        g.xmlns.as_deref(),
        &g.bits,
    ))?;
    svgparse::check(&got, g).map_err(|m| format!("{}: {}", m, short(&got)))?;
    let (_, set) = imp::set_svg(g.height as u32, g.xdim as u32, g.fg, g.bg, g.xmlns.as_deref(), &g.bits)?;
    let set = text(Ok(set))?;
    if set != got {
        return Err(format!("by the setters: {}, by the fields: {}", short(&set), short(&got)));
    }
    Ok(short(&got))
}

/// The setters leave exactly the values given in the fields.
fn judge_set_values(g: &Gen) -> Result<String, String> {
    let (h, x) = (g.height as u32, g.xdim as u32);
    let (s, out) = imp::set_svg(h, x, g.fg, g.bg, g.xmlns.as_deref(), &g.bits)?;
    if (s.height, s.xdim, s.foreground.rgba, s.background.rgba, s.xmlns.as_deref()) != (h, x, g.fg, g.bg, g.xmlns.as_deref()) {
        return Err(format!("the setters leave {}", short(&format!("{:?}", s))));
    }
    let (out, lit) = (text(Ok(out))?, text(imp::gen_svg(h, x, g.fg, g.bg, g.xmlns.as_deref(), &g.bits))?);
    let copy = s.clone();
    let copied = catch(|| copy.generate(&g.bits))?.map_err(|e| format!("{:?}", e))?;
    if out != lit || copied != lit {
        return Err(format!("by the setters: {}, by a copy: {}, by the fields: {}", short(&out), short(&copied), short(&lit)));
    }
    Ok(short(&out))
}

fn img(g: &Gen, f: Fmt) -> barcoders::generators::image::Image {
    imp::image(f, g.height as u32, g.xdim as u32, g.rot, g.fg, g.bg)
}

pub fn judge_buf(g: &Gen, f: Fmt) -> Result<String, String> {
    let want = ref_pic(g);
    let got = imp::gen_buf(img(g, f), &g.bits)?.map_err(|e| format!("Err({})", errname(e)))?;
    match pic_diff(&got, &want) {
        None => Ok(format!("{}x{} pixels", got.w, got.h)),
        Some(d) => Err(format!("buffer: {}", d)),
    }
}

/// Colours as a format keeps them.
fn keep(fmt: Fmt, mut p: Pic) -> Pic {
    if fmt == Fmt::Gif {
        for c in p.px.chunks_mut(4) {
            if c[3] == 0 {
                c.copy_from_slice(&[0; 4]);
            } else {
                c[3] = 255;
            }
        }
    }
    p
}

/// The format has room for this picture.
fn holds(g: &Gen, f: Fmt) -> bool {
    f != Fmt::Buf && dims(g).is_some_and(|(w, h)| w > 0 && h > 0 && w <= side_limit(f) && h <= side_limit(f))
}

pub fn judge_file(g: &Gen, f: Fmt) -> Result<String, String> {
    if !holds(g, f) {
        return Ok("not constrained".into());
    }
    let want = imp::gen_buf(img(g, Fmt::Buf), &g.bits)?.map_err(|e| format!("buffer: Err({})", errname(e)))?;
    let bytes = imp::gen_file(&img(g, f), &g.bits)?.map_err(|e| format!("Err({})", errname(e)))?;
    let got = decode(f, &bytes)?;
    match pic_diff(&keep(f, got), &keep(f, want)) {
        None => Ok(format!("{} bytes of {}", bytes.len(), f.name())),
        Some(d) => Err(format!("decoded {}: {}", f.name(), d)),
    }
}

/// C20: error or complete file, by the limits.
pub fn judge_limits(g: &Gen) -> Result<String, String> {
    let d = dims(g);
    let space_ok = d.is_some_and(|(w, h)| w as u128 * h as u128 * 4 <= isize::MAX as u128);
    match g.kind {
        Kind::Buf(f) => {
            let got = imp::gen_buf(img(g, f), &g.bits)?;
            match got {
                Err(E_GEN) if !space_ok => Ok("Err(Generate)".into()),
                Err(e) => Err(format!("buffer failed with Err({})", errname(e))),
                Ok(p) if !space_ok => Err(format!("impossible image gave a {}x{} buffer", p.w, p.h)),
                Ok(p) => {
                    let (w, h) = d.unwrap();
                    if (p.w as u64, p.h as u64) != (w, h) || p.px.len() as u64 != w * h * 4 {
                        Err(format!("buffer is {}x{} ({} bytes), want {}x{}", p.w, p.h, p.px.len(), w, h))
                    } else {
                        Ok(format!("{}x{} buffer", p.w, p.h))
                    }
                }
            }
        }
        Kind::File(f) => {
            let holds = space_ok && holds(g, f);
            match (imp::gen_file(&img(g, f), &g.bits)?, holds) {
                (Err(E_GEN), false) => Ok("Err(Generate)".into()),
                (Err(e), false) => Err(format!("failed with Err({}) instead of Err(Generate)", errname(e))),
                (Err(e), true) => Err(format!("a {:?} image fits but gave Err({})", d, errname(e))),
                (Ok(b), false) => Err(format!("{} bytes returned where Err(Generate) is due", b.len())),
                (Ok(b), true) => {
                    let p = decode(f, &b)?;
                    if Some((p.w as u64, p.h as u64)) == d {
                        Ok(format!("{} bytes", b.len()))
                    } else {
                        Err(format!("file is {}x{}, want {:?}", p.w, p.h, d))
                    }
                }
            }
        }
        _ => Ok("not an image".into()),
    }
}

// ---------------------------------------------------------------- judging: end to end

/// Modules from one row of "is foreground" samples.
fn resample(row: &[bool], xdim: usize) -> Result<Vec<u8>, String> {
    if row.len() % xdim != 0 {
        return Err(format!("{} samples do not divide by xdim {}", row.len(), xdim));
    }
    row.chunks(xdim)
        .map(|c| {
            if c.iter().all(|x| *x == c[0]) {
                Ok(c[0] as u8)
            } else {
                Err("a module changes colour half way".to_string())
            }
        })
        .collect()
}

fn judge_e2e(sym: Sym, data: &str, g: &Gen) -> Result<String, String> {
    let mut g = g.clone();
    match imp::encode(sym, 0, data)? {
        Ok(b) => g.bits = b,
        Err(_) => return Ok("rejected".into()),
    }
    let xd = g.xdim as usize;
    let mut rows: Vec<Vec<u8>> = vec![];
    match g.kind {
        Kind::Ascii => {
            let t = text(imp::gen_ascii(g.height as usize, xd, &g.bits))?;
            for l in t.split('\n') {
                let row: Vec<bool> = l.chars().map(|c| c == '#').collect();
                rows.push(resample(&row, xd)?);
            }
            if rows.len() as u64 != g.height {
                return Err(format!("{} rows, want {}", rows.len(), g.height));
            }
        }
        Kind::Json => {
            let t = text(imp::gen_json(g.height as usize, xd, &g.bits))?;
            let j = crate::json::parse(&t).map_err(|e| format!("bad JSON: {}", e))?;
            let a = j.get("encoding").and_then(|e| e.arr()).ok_or("no encoding")?;
            rows.push(
                a.iter()
                    .map(|x| x.u64().map(|n| n.min(9) as u8).ok_or("not a number"))
                    .collect::<Result<_, _>>()?,
            );
        }
        Kind::Svg => {
            let t = text(imp::gen_svg(
                g.height as u32,
                g.xdim as u32,
                g.fg,
                g.bg,
                g.xmlns.as_deref(),
                &g.bits,
            ))?;
            let s = svgparse::paint(&t)?;
            for row in svgparse::rows(&s, g.fg)? {
                rows.push(resample(&row, xd)?);
            }
        }
        Kind::File(_) | Kind::Buf(_) => {
            let p = match g.kind {
                Kind::File(f) => {
                    let b = imp::gen_file(&img(&g, f), &g.bits)?.map_err(|e| format!("Err({})", errname(e)))?;
                    decode(f, &b)?
                }
                Kind::Buf(f) => imp::gen_buf(img(&g, f), &g.bits)?.map_err(|e| format!("Err({})", errname(e)))?,
                _ => unreachable!(),
            };
            let at = |x: u32, y: u32| -> bool {
                let o = 4 * (y as usize * p.w as usize + x as usize);
                p.px[o..o + 4] == g.fg
            };
            let (along, across) = if g.rot % 2 == 0 { (p.w, p.h) } else { (p.h, p.w) };
            if across as u64 != g.height {
                return Err(format!("{} scan lines, want {}", across, g.height));
            }
            for k in 0..across {
                let row: Vec<bool> = (0..along)
                    .map(|i| match g.rot {
                        0 => at(i, k),
                        1 => at(k, i),
                        2 => at(along - 1 - i, k),
                        _ => at(k, along - 1 - i),
                    })
                    .collect();
                rows.push(resample(&row, xd)?);
            }
        }
    }
    if rows.is_empty() {
        return Err("nothing to scan".into());
    }
    let want = reading(sym, data);
    for (i, r) in rows.iter().enumerate() {
        if i > 0 && *r == rows[0] {
            continue;
        }
        let got = scan(sym, r);
        if got.as_deref() != Some(&want[..]) {
            return Err(format!(
                "row {} scans as {:?}, want {:?}; modules {}",
                i,
                got,
                want,
                imp::show(r)
            ));
        }
        if *r != g.bits {
            return Err(format!("row {} shows {} but the barcode is {}", i, imp::show(r), imp::show(&g.bits)));
        }
    }
    Ok(format!("{} rows scan as {:?}", rows.len(), want))
}

// ---------------------------------------------------------------- judging: setters

pub const SET_XDIM: [u32; 5] = [1, 2, 7, u32::MAX, 0];
pub const SET_COL: [Rgba4; 6] = [
    [0, 0, 0, 0],
    [1, 2, 3, 4],
    [0, 0, 0, 255],
    [255, 255, 255, 255],
    [254, 0, 128, 0],
    [10, 20, 30, 255],
];
pub const SET_NS: [&str; 3] = ["http://www.w3.org/2000/svg", "", "urn:x:{}"];

fn judge_setters(height: u32, ops: &[(u8, u8)]) -> Result<String, String> {
    use barcoders::generators::svg::{Color, SVG};
    let bits = [1u8, 0, 1, 1, 0];
    let (mut xdim, mut fg, mut bg, mut ns) = (1u32, BLACK, WHITE, None::<String>);
    let svg = catch(|| {
        let mut s = SVG::new(height);
        for &(op, v) in ops {
            let v = v as usize;
            s = match op {
                0 => s.xdim(SET_XDIM[v]),
                1 => s.foreground(Color::new(SET_COL[v])),
                2 => s.background(Color::new(SET_COL[v])),
                3 => s.xmlns(SET_NS[v].to_string()),
                // Use half way through, and going on with a copy.
                _ if v == 0 => {
                    let _ = s.generate(bits);
                    s
                }
                _ if v == 1 => s.clone(),
                // Copied over another one.
                _ => {
                    let mut t = SVG::new(99);
                    if v == 2 {
                        t = t.xdim(77).foreground(Color::new([9, 8, 7, 6])).background(Color::new([5, 4, 3, 2])).xmlns("old".into());
                    }
                    t.clone_from(&s);
                    t
                }
            };
        }
        s
    })?;
    for &(op, v) in ops {
        let v = v as usize;
        match op {
            0 => xdim = SET_XDIM[v],
            1 => fg = SET_COL[v],
            2 => bg = SET_COL[v],
            3 => ns = Some(SET_NS[v].to_string()),
            _ => (),
        }
    }
    let fields = (
        svg.height,
        svg.xdim,
        svg.foreground.rgba,
        svg.background.rgba,
        svg.xmlns.clone(),
    );
    let want = (height, xdim, fg, bg, ns.clone());
    if fields != want {
        return Err(format!("fields {:?}, want {:?}", fields, want));
    }
    let a = catch(|| svg.generate(bits))?.map_err(|e| format!("{:?}", e))?;
    let copy = svg.clone();
    let b = catch(|| copy.generate(bits))?.map_err(|e| format!("{:?}", e))?;
    let c = text(imp::gen_svg(height, xdim, fg, bg, ns.as_deref(), &bits))?;
    if a != b || a != c {
        return Err(format!(
            "output by setters {}, by clone {}, by literal {}",
            short(&a),
            short(&b),
            short(&c)
        ));
    }
    Ok(short(&a))
}

fn judge_defaults(which: u8, height: u32) -> Result<String, String> {
    use barcoders::generators::{ascii::ASCII, image as gi, json::JSON, svg};
    let bits = [1u8, 0, 0, 1, 1, 0, 1];
    match which {
        0 | 1 => {
            let g = catch(|| if which == 0 { ASCII::new() } else { ASCII::default() })?;
            let mut c = ASCII { height: 3, xdim: 4 };
            c.clone_from(&g);
            if (c.height, c.xdim) != (10, 1) {
                return Err(format!("ASCII defaults {:?}", c));
            }
            let (a, b) = (catch(|| g.generate(bits))?, catch(|| { #[allow(clippy::clone_on_copy)] g.clone().generate(bits) })?);
            let w = text(imp::gen_ascii(10, 1, &bits))?;
            if a != b || a.as_ref() != Ok(&w) {
                return Err(format!("ASCII default output {:?} clone {:?} literal {:?}", a, b, w));
            }
            Ok(short(&w))
        }
        2 | 3 => {
            let g = catch(|| if which == 2 { JSON::new() } else { JSON::default() })?;
            let mut c = JSON { height: 3, xdim: 4 };
            c.clone_from(&g);
            if (c.height, c.xdim) != (10, 1) {
                return Err(format!("JSON defaults {:?}", c));
            }
            let (a, b) = (catch(|| g.generate(bits))?, catch(|| { #[allow(clippy::clone_on_copy)] g.clone().generate(bits) })?);
            let w = text(imp::gen_json(10, 1, &bits))?;
            if a != b || a.as_ref() != Ok(&w) {
                return Err(format!("JSON default output {:?} clone {:?} literal {:?}", a, b, w));
            }
            Ok(short(&w))
        }
        4 => {
            let (b, w) = catch(|| (svg::Color::black().rgba, svg::Color::white().rgba))?;
            if b != BLACK || w != WHITE {
                return Err(format!("SVG black {:?} white {:?}", b, w));
            }
            for i in 0..4 {
                for v in 0..=255u8 {
                    let mut c = [7, 77, 177, 217];
                    c[i] = v;
                    if svg::Color::new(c).rgba != c {
                        return Err(format!("SVG Color::new({:?}) = {:?}", c, svg::Color::new(c).rgba));
                    }
                }
            }
            judge_setters(height, &[])
        }
        _ => {
            let f = imp::FMTS[(which as usize - 5) % 4];
            let variant = (which - 5) / 4;
            let mk = |h: u32| match f {
                Fmt::Gif => gi::Image::gif(h),
                Fmt::Png => gi::Image::png(h),
                Fmt::Webp => gi::Image::webp(h),
                Fmt::Buf => gi::Image::image_buffer(h),
            };
            let g = catch(|| mk(height))?;
            let tag = match g {
                gi::Image::GIF { .. } => Fmt::Gif,
                gi::Image::PNG { .. } => Fmt::Png,
                gi::Image::WEBP { .. } => Fmt::Webp,
                gi::Image::ImageBuffer { .. } => Fmt::Buf,
            };
            if tag != f {
                return Err(format!("{} constructor gives {:?}", f.name(), g));
            }
            let (gi::Image::GIF { height: h, xdim, rotation, .. }
            | gi::Image::PNG { height: h, xdim, rotation, .. }
            | gi::Image::WEBP { height: h, xdim, rotation, .. }
            | gi::Image::ImageBuffer { height: h, xdim, rotation, .. }) = g;
            if h != height || xdim != 1 || !matches!(rotation, gi::Rotation::Zero) {
                return Err(format!("{} defaults {:?}", f.name(), g));
            }
            if height > 4096 {
                return Ok(format!("{:?}", g));
            }
            let mut spec = Gen::new(Kind::Buf(f), &bits, height as u64, 1);
            if variant == 1 {
                // Colours by name.
                spec.fg = WHITE;
                spec.bg = BLACK;
                let g2 = catch(|| {
                    let (foreground, background, rotation, xdim) =
                        (gi::Color::white(), gi::Color::black(), gi::Rotation::Zero, 1);
                    match f {
                        Fmt::Gif => gi::Image::GIF { height, xdim, rotation, foreground, background },
                        Fmt::Png => gi::Image::PNG { height, xdim, rotation, foreground, background },
                        Fmt::Webp => gi::Image::WEBP { height, xdim, rotation, foreground, background },
                        Fmt::Buf => gi::Image::ImageBuffer { height, xdim, rotation, foreground, background },
                    }
                })?;
                return same_image(&g2, f, &spec);
            }
            same_image(&g, f, &spec)
        }
    }
}

fn same_image(g: &barcoders::generators::image::Image, f: Fmt, spec: &Gen) -> Result<String, String> {
    let lit = img(spec, f);
    #[allow(clippy::clone_on_copy)]
    let (a, b, c) = (
        imp::gen_buf(*g, &spec.bits)?,
        imp::gen_buf(g.clone(), &spec.bits)?,
        imp::gen_buf(lit, &spec.bits)?,
    );
    if a != b || a != c {
        return Err(format!("{} buffers of original, clone and literal differ", f.name()));
    }
    match &a {
        Ok(p) => {
            if let Some(d) = pic_diff(p, &ref_pic(spec)) {
                return Err(format!("{} constructor: {}", f.name(), d));
            }
        }
        Err(e) => return Err(format!("{} constructor: Err({})", f.name(), errname(*e))),
    }
    let mut copy = imp::image(imp::FMTS[(spec.height % 4) as usize], 3, 2, 1, [1, 2, 3, 4], [5, 6, 7, 8]);
    copy.clone_from(g);
    let (x, y) = (imp::gen_file(g, &spec.bits)?, imp::gen_file(&copy, &spec.bits)?);
    let z = imp::gen_file(&lit, &spec.bits)?;
    if x != y || x != z {
        return Err(format!("{} files of original, copy and literal differ", f.name()));
    }
    Ok(format!("{:?}", g))
}

// ---------------------------------------------------------------- dispatch

pub fn judge(prop: &str, c: &Case) -> Result<String, String> {
    if prop == "C25" {
        return crate::mem::judge(c);
    }
    match c {
        Case::Sym { sym, via, data } => {
            let mut want = vec![];
            judge_sym(prop, *sym, *via, data, &mut want, &mut [0; 4]).map(|_| "as required".into())
        }
        Case::Rep { sym, pre, unit, count, post } => {
            let mut s = unit.repeat(*count as usize);
            if !pre.is_empty() {
                s.insert_str(0, pre);
            }
            s.push_str(post);
            let mut want = vec![];
            judge_sym(prop, *sym, 0, &s, &mut want, &mut [0; 4]).map(|_| "as required".into())
        }
        Case::Gen(g) => match (prop, g.kind) {
            ("C20", _) => judge_limits(g),
            ("C21", _) => judge_set_values(g),
            (_, Kind::Ascii) => judge_ascii(g),
            (_, Kind::Json) => judge_json(g),
            (_, Kind::Svg) => judge_svg(g),
            (_, Kind::File(f)) => judge_file(g, f),
            (_, Kind::Buf(f)) => judge_buf(g, f),
        },
        Case::Setters { height, ops } => judge_setters(*height, ops),
        Case::Defaults { which, height } => judge_defaults(*which, *height),
        Case::E2e { sym, data, gen } => judge_e2e(*sym, data, gen),
        Case::Placed { off, case } => imp::at_address(*off, || judge(prop, case)),
        Case::Hist(j) => crate::hist::judge(j),
        Case::Conf(j) => crate::conf::judge(j),
    }
}
