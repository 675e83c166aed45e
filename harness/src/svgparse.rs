//! A strict reader for the small SVG dialect: one svg element with rectangles in it.

use crate::case::Gen;
use crate::imp::Rgba4;

#[derive(Debug)]
pub struct Rect {
    pub x: f64,
    pub y: f64,
    pub w: f64,
    pub h: f64,
    pub rgb: [u8; 3],
    /// None: attribute absent.
    pub opacity: Option<f64>,
}

#[derive(Debug)]
pub struct Svg {
    pub viewbox: [f64; 4],
    pub xmlns: Option<String>,
    pub rects: Vec<Rect>,
}

struct P<'a> {
    s: &'a str,
    i: usize,
}

type Attrs = Vec<(String, String)>;

impl P<'_> {
    fn rest(&self) -> &str {
        &self.s[self.i..]
    }
    fn ws(&mut self) -> bool {
        let n = self.rest().len() - self.rest().trim_start_matches([' ', '\t', '\r', '\n']).len();
        self.i += n;
        n > 0
    }
    fn eat(&mut self, t: &str) -> bool {
        if self.rest().starts_with(t) {
            self.i += t.len();
            true
        } else {
            false
        }
    }
    fn name(&mut self) -> Result<String, String> {
        let r = self.rest();
        let n = r
            .find(|c: char| !(c.is_ascii_alphanumeric() || matches!(c, '-' | '_' | ':' | '.')))
            .unwrap_or(r.len());
        if n == 0 || !r.as_bytes()[0].is_ascii_alphabetic() {
            return Err(format!("XML: name expected at byte {}", self.i));
        }
        let s = r[..n].to_string();
        self.i += n;
        Ok(s)
    }
    /// Start tag after '<'. Returns (name, attributes, self-closing).
    fn tag(&mut self) -> Result<(String, Attrs, bool), String> {
        let name = self.name()?;
        let mut at: Attrs = vec![];
        loop {
            let sp = self.ws();
            if self.eat("/>") {
                return Ok((name, at, true));
            }
            if self.eat(">") {
                return Ok((name, at, false));
            }
            if !sp {
                return Err(format!("XML: space expected at byte {}", self.i));
            }
            let k = self.name()?;
            self.ws();
            if !self.eat("=") {
                return Err(format!("XML: = expected at byte {}", self.i));
            }
            self.ws();
            let q = if self.eat("\"") {
                '"'
            } else if self.eat("'") {
                '\''
            } else {
                return Err(format!("XML: quote expected at byte {}", self.i));
            };
            let n = self
                .rest()
                .find(q)
                .ok_or_else(|| "XML: unterminated attribute".to_string())?;
            let raw = self.rest()[..n].to_string();
            self.i += n + 1;
            if raw.contains('<') {
                return Err("XML: < in attribute".into());
            }
            if at.iter().any(|x| x.0 == k) {
                return Err(format!("XML: attribute {} twice", k));
            }
            at.push((k, unescape(&raw)?));
        }
    }
}

/// Decoded attribute text.
pub fn unescape(s: &str) -> Result<String, String> {
    let mut out = String::new();
    let mut r = s;
    while let Some(p) = r.find('&') {
        out.push_str(&r[..p]);
        r = &r[p..];
        let e = r.find(';').ok_or("XML: bare & in attribute")?;
        if let Some(n) = r[..e].strip_prefix("&#") {
            let c = match n.strip_prefix('x') {
                Some(h) => u32::from_str_radix(h, 16),
                None => n.parse(),
            };
            out.push(c.ok().and_then(char::from_u32).ok_or("XML: bad character reference")?);
            r = &r[e + 1..];
            continue;
        }
        out.push_str(match &r[..=e] {
            "&amp;" => "&",
            "&lt;" => "<",
            "&gt;" => ">",
            "&quot;" => "\"",
            "&apos;" => "'",
            _ => return Err("XML: unknown entity".into()),
        });
        r = &r[e + 1..];
    }
    out.push_str(r);
    Ok(out)
}

fn num(s: &str) -> Result<f64, String> {
    let ok = !s.is_empty() && s.bytes().all(|b| b.is_ascii_digit() || matches!(b, b'.' | b'e' | b'+' | b'-'));
    match s.parse::<f64>() {
        Ok(v) if ok => Ok(v),
        _ => Err(format!("bad number {:?}", s)),
    }
}

fn rect(at: &Attrs) -> Result<Rect, String> {
    let mut r = Rect {
        x: 0.0,
        y: 0.0,
        w: 0.0,
        h: 0.0,
        rgb: [0; 3],
        opacity: None,
    };
    for (k, v) in at {
        match &k[..] {
            "x" => r.x = num(v)?,
            "y" => r.y = num(v)?,
            "width" => r.w = num(v)?,
            "height" => r.h = num(v)?,
            "fill" => {
                let h = v.strip_prefix('#').unwrap_or("");
                if h.len() != 6 || !h.bytes().all(|b| b.is_ascii_hexdigit()) {
                    return Err(format!("fill {:?} is not #rrggbb", v));
                }
                for i in 0..3 {
                    r.rgb[i] = u8::from_str_radix(&h[2 * i..2 * i + 2], 16).unwrap();
                }
            }
            "fill-opacity" => r.opacity = Some(num(v)?),
            "shape-rendering" => {}
            _ => return Err(format!("unexpected rect attribute {}", k)),
        }
    }
    if !at.iter().any(|x| x.0 == "fill") {
        return Err("rect without fill".into());
    }
    if r.w < 0.0 || r.h < 0.0 {
        return Err("negative rect".into());
    }
    Ok(r)
}

pub fn paint(s: &str) -> Result<Svg, String> {
    let mut p = P { s, i: 0 };
    p.ws();
    if p.eat("<?xml") {
        let n = p.rest().find("?>").ok_or("XML: bad declaration")?;
        p.i += n + 2;
        p.ws();
    }
    if !p.eat("<") {
        return Err("XML: no root element".into());
    }
    let (name, at, closed) = p.tag()?;
    if name != "svg" {
        return Err(format!("root element {}", name));
    }
    let mut out = Svg {
        viewbox: [f64::NAN; 4],
        xmlns: None,
        rects: vec![],
    };
    for (k, v) in &at {
        match &k[..] {
            "xmlns" => out.xmlns = Some(v.clone()),
            "viewBox" => {
                let n: Vec<f64> = v
                    .split([' ', ','])
                    .filter(|x| !x.is_empty())
                    .map(num)
                    .collect::<Result<_, _>>()?;
                if n.len() != 4 {
                    return Err(format!("viewBox {:?}", v));
                }
                out.viewbox.copy_from_slice(&n);
            }
            "version" | "shape-rendering" => {}
            _ => return Err(format!("unexpected svg attribute {}", k)),
        }
    }
    if out.viewbox[0].is_nan() {
        return Err("no viewBox".into());
    }
    if !closed {
        loop {
            p.ws();
            if p.eat("</") {
                if p.name()? != "svg" {
                    return Err("XML: mismatched end tag".into());
                }
                p.ws();
                if !p.eat(">") {
                    return Err("XML: bad end tag".into());
                }
                break;
            }
            if !p.eat("<") {
                return Err(format!("XML: text or end of input at byte {}", p.i));
            }
            let (n, at, closed) = p.tag()?;
            if n != "rect" {
                return Err(format!("unexpected element {}", n));
            }
            if !closed {
                p.ws();
                if !p.eat("</rect") {
                    return Err("XML: rect not closed".into());
                }
                p.ws();
                if !p.eat(">") {
                    return Err("XML: bad end tag".into());
                }
            }
            out.rects.push(rect(&at)?);
        }
    }
    p.ws();
    if p.i != s.len() {
        return Err("XML: content after the root element".into());
    }
    Ok(out)
}

/// Alpha as written: two decimals, absent at 1.
fn color_ok(r: &Rect, c: Rgba4) -> Result<(), String> {
    if r.rgb != [c[0], c[1], c[2]] {
        return Err(format!("fill {:?}, want {:?}", r.rgb, c));
    }
    // Hundredths, rounded to nearest; c[3] * 100 / 255 is never exactly half way.
    let want = (c[3] as u32 * 200 + 255) / 510;
    match r.opacity {
        None if want == 100 => Ok(()),
        Some(o) if want != 100 && (o * 100.0).round() as u32 == want && (o * 100.0 - want as f64).abs() < 1e-6 => Ok(()),
        o => Err(format!("opacity {:?} for alpha {} (want {}/100)", o, c[3], want)),
    }
}

/// C17.
pub fn check(text: &str, g: &Gen) -> Result<(), String> {
    let s = paint(text)?;
    let (w, h) = (g.bits.len() as f64 * g.xdim as f64, g.height as f64);
    if s.viewbox != [0.0, 0.0, w, h] {
        return Err(format!("viewBox {:?}, want 0 0 {} {}", s.viewbox, w, h));
    }
    // The namespace is given as attribute text: entities in it are entities.
    let want = g.xmlns.as_deref().map(unescape).transpose()?;
    if s.xmlns != want {
        return Err(format!("xmlns {:?}, want {:?}", s.xmlns, want));
    }
    let Some((back, bars)) = s.rects.split_first() else {
        return Err("no background rectangle".into());
    };
    if (back.x, back.y, back.w, back.h) != (0.0, 0.0, w, h) {
        return Err(format!("background covers {:?}", back));
    }
    color_ok(back, g.bg).map_err(|e| format!("background: {}", e))?;
    // Bars: full height, foreground, covering exactly the 1-modules once each.
    let mut iv: Vec<(f64, f64)> = vec![];
    for b in bars {
        color_ok(b, g.fg).map_err(|e| format!("bar at {}: {}", b.x, e))?;
        if b.y != 0.0 || b.h != h {
            return Err(format!("bar {:?} is not full height", b));
        }
        if b.w > 0.0 {
            iv.push((b.x, b.x + b.w));
        }
    }
    iv.sort_by(|a, b| a.0.total_cmp(&b.0));
    let mut got: Vec<(f64, f64)> = vec![];
    for (a, b) in iv {
        match got.last_mut() {
            Some(l) if l.1 > a => return Err(format!("bars overlap at {}", a)),
            Some(l) if l.1 == a => l.1 = b,
            _ => got.push((a, b)),
        }
    }
    let mut want: Vec<(f64, f64)> = vec![];
    if g.xdim > 0 {
        for (i, &b) in g.bits.iter().enumerate() {
            if b == 1 {
                let (x0, x1) = (i as f64 * g.xdim as f64, (i + 1) as f64 * g.xdim as f64);
                match want.last_mut() {
                    Some(l) if l.1 == x0 => l.1 = x1,
                    _ => want.push((x0, x1)),
                }
            }
        }
    }
    if got != want {
        return Err(format!(
            "bars cover {:?}, want {:?}",
            &got[..got.len().min(8)],
            &want[..want.len().min(8)]
        ));
    }
    Ok(())
}

/// Samples every unit row and column of the painted picture: true where the topmost paint is `fg`.
pub fn rows(s: &Svg, fg: Rgba4) -> Result<Vec<Vec<bool>>, String> {
    let (w, h) = (s.viewbox[2] as usize, s.viewbox[3] as usize);
    if s.viewbox[0] != 0.0 || s.viewbox[1] != 0.0 || w > 1 << 22 || h > 1 << 12 || w * h > 1 << 27 {
        return Err(format!("viewBox {:?}", s.viewbox));
    }
    let mut out = vec![vec![None; w]; h];
    for r in &s.rects {
        for (y, row) in out.iter_mut().enumerate() {
            let cy = y as f64 + 0.5;
            if cy < r.y || cy > r.y + r.h {
                continue;
            }
            let a = r.x.max(0.0) as usize;
            let b = ((r.x + r.w).max(0.0) as usize).min(w);
            for c in row.iter_mut().take(b).skip(a) {
                *c = Some(r.rgb);
            }
        }
    }
    out.into_iter()
        .map(|row| {
            row.into_iter()
                .map(|c| c.map(|c| c == [fg[0], fg[1], fg[2]]).ok_or("unpainted".to_string()))
                .collect()
        })
        .collect()
}
