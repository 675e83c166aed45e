//! Reference models: standard-conforming encoders and scanners for every symbology, written from
//! the symbology standards in terms of element widths, independently of the code under test.
//!
//! `expect` says what a constructor must do with a string; `scan` reads a symbol back.

use std::sync::OnceLock;

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash, PartialOrd, Ord)]
pub enum Sym {
    Ean13,
    Upca,
    Ean8,
    Supp,
    Code39,
    Code39C,
    Code93,
    Code11,
    Codabar,
    Itf,
    Stf,
    Code128,
}
pub use Sym::*;

pub const ALL: [Sym; 12] = [
    Ean13, Upca, Ean8, Supp, Code39, Code39C, Code93, Code11, Codabar, Itf, Stf, Code128,
];

impl Sym {
    pub fn name(self) -> &'static str {
        match self {
            Ean13 => "ean13",
            Upca => "upca",
            Ean8 => "ean8",
            Supp => "eansupp",
            Code39 => "code39",
            Code39C => "code39-checksum",
            Code93 => "code93",
            Code11 => "code11",
            Codabar => "codabar",
            Itf => "itf",
            Stf => "stf",
            Code128 => "code128",
        }
    }
    pub fn from_name(s: &str) -> Option<Sym> {
        ALL.iter().copied().find(|x| x.name() == s)
    }
    /// The alphabet (not meaningful for Code 128).
    pub fn alphabet(self) -> &'static str {
        match self {
            Code39 | Code39C => C39,
            Code93 => C93,
            Code11 => C11,
            Codabar => CODA,
            _ => "0123456789",
        }
    }
    pub fn len_ok(self, n: usize) -> bool {
        match self {
            Ean13 => n == 12 || n == 13,
            Upca => n == 11 || n == 12,
            Ean8 => n == 7 || n == 8,
            Supp => n == 2 || n == 5,
            Code128 => n >= 2,
            _ => (1..=256).contains(&n),
        }
    }
}

// Error kinds as a bit mask.
pub const E_CHAR: u8 = 1;
pub const E_LEN: u8 = 2;
pub const E_CHECK: u8 = 4;
pub const E_GEN: u8 = 8;

/// What the reference model says about a data string.
#[derive(Debug, PartialEq)]
pub enum Expect {
    /// Must be accepted, with exactly these modules (left in the scratch buffer).
    Accept,
    /// May be accepted (then with exactly these modules) or rejected with one of these errors.
    Maybe(u8),
    /// Must be rejected with one of these errors.
    Reject(u8),
}

// ---------------------------------------------------------------- tables, as element widths

// EAN/UPC set A (odd parity) element widths, starting with a space.
const EAN_W: [&str; 10] = [
    "3211", "2221", "2122", "1411", "1132", "1231", "1114", "1312", "1213", "3112",
];
const EAN13_PARITY: [&str; 10] = [
    "AAAAAA", "AABABB", "AABBAB", "AABBBA", "ABAABB", "ABBAAB", "ABBBAA", "ABABAB", "ABABBA",
    "ABBABA",
];
const EAN5_PARITY: [&str; 10] = [
    "BBAAA", "BABAA", "BAABA", "BAAAB", "ABBAA", "AABBA", "AAABB", "ABABA", "ABAAB", "AABAB",
];
const EAN2_PARITY: [&str; 4] = ["AA", "AB", "BA", "BB"];

pub const C39: &str = "0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ-. $/+%";
// Nine elements (bar first), 1 = wide, as in the AIM tables.
const C39_P: [u16; 44] = [
    0x034, 0x121, 0x061, 0x160, 0x031, 0x130, 0x070, 0x025, 0x124, 0x064, // 0-9
    0x109, 0x049, 0x148, 0x019, 0x118, 0x058, 0x00D, 0x10C, 0x04C, 0x01C, // A-J
    0x103, 0x043, 0x142, 0x013, 0x112, 0x052, 0x007, 0x106, 0x046, 0x016, // K-T
    0x181, 0x0C1, 0x1C0, 0x091, 0x190, 0x0D0, 0x085, 0x184, 0x0C4, 0x0A8, // U-$
    0x0A2, 0x08A, 0x02A, 0x094, // / + % *
];

// Order of values 0..46; the four shift characters are spelled ( ) [ ].
pub const C93: &str = "0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ-. $/+%()[]";
const C93_W: [&str; 48] = [
    "131112", "111213", "111312", "111411", "121113", "121212", "121311", "111114", "131211",
    "141111", "211113", "211212", "211311", "221112", "221211", "231111", "112113", "112212",
    "112311", "122112", "132111", "111123", "111222", "111321", "121122", "131121", "212112",
    "212211", "211122", "211221", "221121", "222111", "112122", "112221", "122121", "123111",
    "121131", "311112", "311211", "321111", "112131", "113121", "211131", "121221", "312111",
    "311121", "122211", "111141", // last: start/stop
];

pub const C11: &str = "0123456789-";
// Five elements (bar first), 1 = wide.
const C11_P: [&str; 12] = [
    "00001", "10001", "01001", "11000", "00101", "10100", "01100", "00011", "10010", "10000",
    "00100", "00110", // last: start/stop
];

pub const CODA: &str = "0123456789-$:/.+ABCD";
// Seven elements (bar first), 1 = wide (AIM USS-Codabar).
const CODA_P: [u16; 20] = [
    0x003, 0x006, 0x009, 0x060, 0x012, 0x042, 0x021, 0x024, 0x030, 0x048, // 0-9
    0x00C, 0x018, 0x045, 0x051, 0x054, 0x015, // - $ : / . +
    0x01A, 0x029, 0x00B, 0x00E, // A B C D
];

// 2-of-5, weights 1 2 4 7 parity: 1 = wide.
const TF_P: [&str; 10] = [
    "00110", "10001", "01001", "11000", "00101", "10100", "01100", "00011", "10010", "01010",
];

pub const C128_W: [&str; 107] = [
    "212222", "222122", "222221", "121223", "121322", "131222", "122213", "122312", "132212",
    "221213", "221312", "231212", "112232", "122132", "122231", "113222", "123122", "123221",
    "223211", "221132", "221231", "213212", "223112", "312131", "311222", "321122", "321221",
    "312212", "322112", "322211", "212123", "212321", "232121", "111323", "131123", "131321",
    "112313", "132113", "132311", "211313", "231113", "231311", "112133", "112331", "132131",
    "113123", "113321", "133121", "313121", "211331", "231131", "213113", "213311", "213131",
    "311123", "311321", "331121", "312113", "312311", "332111", "314111", "221411", "431111",
    "111224", "111422", "121124", "121421", "141122", "141221", "112214", "112412", "122114",
    "122411", "142112", "142211", "241211", "221114", "413111", "241112", "134111", "111242",
    "121142", "121241", "114212", "124112", "124211", "411212", "421112", "421211", "212141",
    "214121", "412121", "111143", "111341", "131141", "114113", "114311", "411113", "411311",
    "113141", "114131", "311141", "411131", "211412", "211214", "211232", "2331112",
];

fn widths(w: &str, first_bar: bool) -> Vec<u8> {
    let mut out = vec![];
    let mut bar = first_bar;
    for c in w.bytes() {
        for _ in 0..(c - b'0') {
            out.push(bar as u8);
        }
        bar = !bar;
    }
    out
}

fn nw(bits: &str, wide: u8) -> Vec<u8> {
    let w: String = bits
        .bytes()
        .map(|b| if b == b'1' { (b'0' + wide) as char } else { '1' })
        .collect();
    widths(&w, true)
}

pub struct Tables {
    /// [set A, set B, set C][digit]
    ean: [Vec<Vec<u8>>; 3],
    c39: Vec<Vec<u8>>,
    c93: Vec<Vec<u8>>,
    c11: Vec<Vec<u8>>,
    /// Standard patterns, known findings substituted.
    coda: Vec<Vec<u8>>,
    stf: Vec<Vec<u8>>,
    itf: Vec<Vec<u8>>, // 100 pairs
    c128: Vec<Vec<u8>>,
}

pub static CODA_OVERRIDE: OnceLock<Vec<(char, Vec<u8>)>> = OnceLock::new();

/// The standard Codabar patterns.
pub fn tables_std() -> Vec<Vec<u8>> {
    CODA_P.iter().map(|&p| nw(&format!("{:07b}", p), 2)).collect()
}

pub fn tables() -> &'static Tables {
    static T: OnceLock<Tables> = OnceLock::new();
    T.get_or_init(|| {
        let a: Vec<Vec<u8>> = EAN_W.iter().map(|w| widths(w, false)).collect();
        let c: Vec<Vec<u8>> = EAN_W.iter().map(|w| widths(w, true)).collect();
        let b: Vec<Vec<u8>> = EAN_W
            .iter()
            .map(|w| widths(&w.chars().rev().collect::<String>(), false))
            .collect();
        let bin = |p: u16, n: usize| format!("{:0n$b}", p, n = n);
        let mut coda = tables_std();
        if let Some(o) = CODA_OVERRIDE.get() {
            for (ch, bits) in o {
                coda[CODA.find(*ch).unwrap()] = bits.clone();
            }
        }
        let stf = TF_P
            .iter()
            .map(|p| {
                p.bytes()
                    .flat_map(|b| if b == b'1' { vec![1, 1, 1, 0] } else { vec![1, 0] })
                    .collect()
            })
            .collect();
        let itf = (0..100)
            .map(|n| {
                let (x, y) = (TF_P[n / 10].as_bytes(), TF_P[n % 10].as_bytes());
                (0..5)
                    .flat_map(|i| {
                        let mut v = vec![1u8; if x[i] == b'1' { 3 } else { 1 }];
                        v.extend(vec![0u8; if y[i] == b'1' { 3 } else { 1 }]);
                        v
                    })
                    .collect()
            })
            .collect();
        Tables {
            ean: [a, b, c],
            c39: C39_P.iter().map(|&p| nw(&bin(p, 9), 2)).collect(),
            c93: C93_W.iter().map(|w| widths(w, true)).collect(),
            c11: C11_P.iter().map(|p| nw(p, 2)).collect(),
            coda,
            stf,
            itf,
            c128: C128_W.iter().map(|w| widths(w, true)).collect(),
        }
    })
}

// ---------------------------------------------------------------- check digits

/// GS1 modulo-10: weights 3,1,3,... from the rightmost data digit.
pub fn mod10(d: &[u8]) -> u8 {
    let s: u64 = d
        .iter()
        .rev()
        .enumerate()
        .map(|(i, &x)| x as u64 * if i % 2 == 0 { 3 } else { 1 })
        .sum();
    ((10 - s % 10) % 10) as u8
}

pub fn ean5_check(d: &[u8]) -> usize {
    (3 * (d[0] as usize + d[2] as usize + d[4] as usize) + 9 * (d[1] as usize + d[3] as usize)) % 10
}

/// Weighted checksum with weights 1..=w repeating from the right.
pub fn weighted(vals: &[usize], w: usize, modulus: usize) -> usize {
    vals.iter()
        .rev()
        .enumerate()
        .map(|(i, &v)| (i % w + 1) * v)
        .sum::<usize>()
        % modulus
}

// ---------------------------------------------------------------- Code 128 tokenizer

pub const SEL_A: char = 'À';
pub const SEL_B: char = 'Ɓ';
pub const SEL_C: char = 'Ć';
pub const FNC1: char = '\u{179}';
pub const FNC2: char = '\u{17A}';
pub const FNC3: char = '\u{17B}';
pub const FNC4: char = '\u{17C}';
pub const SHIFT: char = '\u{17D}';

pub const SET_A: u8 = 0;
pub const SET_B: u8 = 1;
pub const SET_C: u8 = 2;

/// Value of a data or function character in set A or B.
pub fn c128_value(set: u8, c: char) -> Option<usize> {
    let u = c as u32;
    match c {
        FNC1 => return Some(102),
        FNC2 => return Some(97),
        FNC3 => return Some(96),
        FNC4 => return Some(if set == SET_A { 101 } else { 100 }),
        SHIFT => return Some(98),
        '÷' if set == SET_B => return Some(95),
        _ => {}
    }
    match (set, u) {
        (SET_A, 32..=95) | (SET_B, 32..=127) => Some(u as usize - 32),
        (SET_A, 0..=31) => Some(u as usize + 64),
        _ => None,
    }
}

pub fn selector(c: char) -> Option<u8> {
    match c {
        SEL_A => Some(SET_A),
        SEL_B => Some(SET_B),
        SEL_C => Some(SET_C),
        _ => None,
    }
}

/// Tokenizer state of the Code 128 input language.
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct C128State {
    /// None before the first selector.
    pub set: Option<u8>,
    pub carry: Option<u8>,
    pub shift: bool,
    /// Whether at least one data or function character was encoded.
    pub data: bool,
}

pub const C128_INIT: C128State = C128State {
    set: None,
    carry: None,
    shift: false,
    data: false,
};

impl C128State {
    /// Next state and the symbol value emitted, if any; None = rejected.
    pub fn step(self, c: char) -> Option<(C128State, Option<usize>)> {
        let Some(set) = self.set else {
            let s = selector(c)?;
            return Some((
                C128State {
                    set: Some(s),
                    ..self
                },
                Some(103 + s as usize),
            ));
        };
        if let Some(to) = selector(c) {
            if to == set || self.carry.is_some() || self.shift {
                return None;
            }
            let v = match to {
                SET_A => 101,
                SET_B => 100,
                _ => 99,
            };
            return Some((
                C128State {
                    set: Some(to),
                    ..self
                },
                Some(v),
            ));
        }
        if set == SET_C {
            if c.is_ascii_digit() {
                let d = c as u8 - b'0';
                return Some(match self.carry {
                    None => (
                        C128State {
                            carry: Some(d),
                            ..self
                        },
                        None,
                    ),
                    Some(h) => (
                        C128State {
                            carry: None,
                            data: true,
                            ..self
                        },
                        Some(h as usize * 10 + d as usize),
                    ),
                });
            }
            if c == FNC1 && self.carry.is_none() {
                return Some((C128State { data: true, ..self }, Some(102)));
            }
            return None;
        }
        let eff = if self.shift { 1 - set } else { set };
        let v = c128_value(eff, c)?;
        Some((
            C128State {
                shift: c == SHIFT,
                data: true,
                ..self
            },
            Some(v),
        ))
    }
}

/// Symbol values (start code first) for an accepted string; second component: the final state.
pub fn c128_values(s: &str) -> Option<(Vec<usize>, C128State)> {
    let mut st = C128_INIT;
    let mut out = vec![];
    for c in s.chars() {
        let (n, v) = st.step(c)?;
        st = n;
        out.extend(v);
    }
    if st.set.is_none() || st.carry.is_some() {
        return None;
    }
    Some((out, st))
}

pub fn c128_check(vals: &[usize]) -> usize {
    vals.iter()
        .enumerate()
        .map(|(i, &v)| v as u128 * i.max(1) as u128)
        .sum::<u128>() as usize
        % 103
}

// ---------------------------------------------------------------- the reference encoder

/// Reference verdict on `data`; if it can be accepted, its modules are left in `out`.
pub fn expect(sym: Sym, data: &str, out: &mut Vec<u8>) -> Expect {
    out.clear();
    let t = tables();
    if sym == Code128 {
        return expect128(data, out);
    }
    let alpha = sym.alphabet().as_bytes();
    let bytes = data.as_bytes();
    // Every alphabet is ASCII, so any non-ASCII byte is a bad character.
    let bad_char = if bytes.len() < 64 {
        bytes.iter().any(|b| !alpha.contains(b))
    } else {
        let mut ok = [false; 256];
        for b in alpha {
            ok[*b as usize] = true;
        }
        !bytes.iter().all(|b| ok[*b as usize])
    };
    let len_ok_b = sym.len_ok(bytes.len());
    if bad_char {
        if data.is_ascii() {
            return Expect::Reject(if len_ok_b { E_CHAR } else { E_CHAR | E_LEN });
        }
        // Length of non-ASCII data in characters or in bytes: either reading is fair.
        let only_char = len_ok_b && sym.len_ok(data.chars().count());
        return Expect::Reject(if only_char { E_CHAR } else { E_CHAR | E_LEN });
    }
    if !len_ok_b {
        return Expect::Reject(E_LEN);
    }
    let n = bytes.len();
    match sym {
        Ean13 | Upca | Ean8 | Supp | Itf | Stf => {
            let mut buf = [0u8; 260];
            for (i, b) in bytes.iter().enumerate() {
                buf[i] = b - b'0';
            }
            match sym {
                Ean13 | Upca | Ean8 => {
                    let dl = match sym {
                        Ean13 => 12,
                        Upca => 11,
                        _ => 7,
                    };
                    let ck = mod10(&buf[..dl]);
                    if n == dl + 1 && buf[dl] != ck {
                        return Expect::Reject(E_CHECK);
                    }
                    buf[dl] = ck;
                    let (left, par): (&[u8], &str) = match sym {
                        Ean13 => (&buf[1..7], EAN13_PARITY[buf[0] as usize]),
                        Upca => (&buf[0..6], EAN13_PARITY[0]),
                        _ => (&buf[0..4], "AAAA"),
                    };
                    let right = &buf[dl + 1 - left.len()..dl + 1];
                    out.extend([1, 0, 1]);
                    for (d, p) in left.iter().zip(par.bytes()) {
                        out.extend_from_slice(&t.ean[(p - b'A') as usize][*d as usize]);
                    }
                    out.extend([0, 1, 0, 1, 0]);
                    for d in right {
                        out.extend_from_slice(&t.ean[2][*d as usize]);
                    }
                    out.extend([1, 0, 1]);
                }
                Supp => {
                    let par = if n == 2 {
                        EAN2_PARITY[(buf[0] as usize * 10 + buf[1] as usize) % 4]
                    } else {
                        EAN5_PARITY[ean5_check(&buf[..5])]
                    };
                    out.extend([1, 0, 1, 1]);
                    for (i, p) in par.bytes().enumerate() {
                        if i > 0 {
                            out.extend([0, 1]);
                        }
                        out.extend_from_slice(&t.ean[(p - b'A') as usize][buf[i] as usize]);
                    }
                }
                Itf => {
                    let mut m = n;
                    if n % 2 == 1 {
                        buf[n] = mod10(&buf[..n]);
                        m += 1;
                    }
                    out.extend([1, 0, 1, 0]);
                    for p in buf[..m].chunks(2) {
                        out.extend_from_slice(&t.itf[p[0] as usize * 10 + p[1] as usize]);
                    }
                    out.extend([1, 1, 0, 1]);
                }
                _ => {
                    out.extend([1, 1, 0, 1, 1, 0, 1, 0]);
                    for d in &buf[..n] {
                        out.extend_from_slice(&t.stf[*d as usize]);
                    }
                    out.extend([1, 1, 0, 1, 0, 1, 1, 0]);
                }
            }
        }
        Code39 | Code39C => {
            let mut sum = 0;
            out.extend_from_slice(&t.c39[43]);
            out.push(0);
            for b in bytes {
                let v = alpha.iter().position(|a| a == b).unwrap();
                sum += v;
                out.extend_from_slice(&t.c39[v]);
                out.push(0);
            }
            if sym == Code39C {
                out.extend_from_slice(&t.c39[sum % 43]);
                out.push(0);
            }
            out.extend_from_slice(&t.c39[43]);
        }
        Code93 => {
            let mut v: Vec<usize> = bytes
                .iter()
                .map(|b| alpha.iter().position(|a| a == b).unwrap())
                .collect();
            v.push(weighted(&v, 20, 47));
            v.push(weighted(&v, 15, 47));
            out.extend_from_slice(&t.c93[47]);
            for x in v {
                out.extend_from_slice(&t.c93[x]);
            }
            out.extend_from_slice(&t.c93[47]);
            out.push(1);
        }
        Code11 => {
            let mut v: Vec<usize> = bytes
                .iter()
                .map(|b| alpha.iter().position(|a| a == b).unwrap())
                .collect();
            v.push(weighted(&v, 10, 11));
            if n > 10 {
                v.push(weighted(&v, 9, 11));
            }
            out.extend_from_slice(&t.c11[11]);
            out.push(0);
            for x in v {
                out.extend_from_slice(&t.c11[x]);
                out.push(0);
            }
            out.extend_from_slice(&t.c11[11]);
        }
        Codabar => {
            for (i, b) in bytes.iter().enumerate() {
                if i > 0 {
                    out.push(0);
                }
                out.extend_from_slice(&t.coda[alpha.iter().position(|a| a == b).unwrap()]);
            }
        }
        Code128 => unreachable!(),
    }
    Expect::Accept
}

fn expect128(data: &str, out: &mut Vec<u8>) -> Expect {
    let nchars = data.chars().take(2).count();
    let Some((vals, st)) = c128_values(data) else {
        // Under two characters Length is the natural answer, but the length may also be counted
        // in bytes, where a single multi-byte character passes.
        return Expect::Reject(if data.len() < 2 {
            E_LEN
        } else if nchars < 2 {
            E_CHAR | E_LEN
        } else {
            E_CHAR
        });
    };
    let t = tables();
    let ck = c128_check(&vals);
    for v in vals {
        out.extend_from_slice(&t.c128[v]);
    }
    out.extend_from_slice(&t.c128[ck]);
    out.extend_from_slice(&t.c128[106]);
    if !st.data || st.shift {
        // No data at all, or a SHIFT with nothing to shift: acceptance is not specified.
        return Expect::Maybe(E_CHAR | E_LEN);
    }
    Expect::Accept
}

/// What a scanner must report for accepted data.
pub fn reading(sym: Sym, data: &str) -> String {
    let digs = || -> Vec<u8> { data.bytes().map(|b| b - b'0').collect() };
    match sym {
        Ean13 | Upca | Ean8 => {
            let dl = match sym {
                Ean13 => 12,
                Upca => 11,
                _ => 7,
            };
            let d = digs();
            format!("{}{}", &data[..dl], mod10(&d[..dl]))
        }
        Itf => {
            let d = digs();
            if d.len() % 2 == 1 {
                format!("{}{}", data, mod10(&d))
            } else {
                data.to_string()
            }
        }
        Code128 => data.replace('÷', "\u{7f}"),
        _ => data.to_string(),
    }
}

// ---------------------------------------------------------------- scanners

fn runs(m: &[u8]) -> Vec<(u8, usize)> {
    let mut r: Vec<(u8, usize)> = vec![];
    for &b in m {
        match r.last_mut() {
            Some((v, n)) if *v == b => *n += 1,
            _ => r.push((b, 1)),
        }
    }
    r
}

fn widths_of(m: &[u8]) -> Vec<usize> {
    runs(m).into_iter().map(|x| x.1).collect()
}

fn wstr(w: &[usize]) -> String {
    w.iter()
        .map(|&n| if n < 10 { (b'0' + n as u8) as char } else { 'x' })
        .collect()
}

/// Classifies a set-A/B/C digit of seven modules by its four element widths.
fn ean_digit(m: &[u8]) -> Option<(char, u8)> {
    let r = runs(m);
    if r.len() != 4 {
        return None;
    }
    let s = wstr(&r.iter().map(|x| x.1).collect::<Vec<_>>());
    if m[0] == 1 {
        return EAN_W.iter().position(|w| *w == s).map(|d| ('C', d as u8));
    }
    if let Some(d) = EAN_W.iter().position(|w| *w == s) {
        return Some(('A', d as u8));
    }
    let rev: String = s.chars().rev().collect();
    EAN_W.iter().position(|w| *w == rev).map(|d| ('B', d as u8))
}

fn scan_ean(m: &[u8], half: usize) -> Option<(String, Vec<u8>)> {
    let n = 11 + 14 * half;
    if m.len() != n
        || m[..3] != [1, 0, 1]
        || m[n - 3..] != [1, 0, 1]
        || m[3 + 7 * half..8 + 7 * half] != [0, 1, 0, 1, 0]
    {
        return None;
    }
    let (mut par, mut d) = (String::new(), vec![]);
    for i in 0..half {
        let (p, x) = ean_digit(&m[3 + 7 * i..10 + 7 * i])?;
        par.push(p);
        d.push(x);
    }
    for i in 0..half {
        let o = 8 + 7 * half + 7 * i;
        let (p, x) = ean_digit(&m[o..o + 7])?;
        if p != 'C' {
            return None;
        }
        d.push(x);
    }
    Some((par, d))
}

/// GS1 validation: the weighted sum including the check digit is a multiple of ten.
fn gs1_ok(d: &[u8]) -> bool {
    let s: usize = d
        .iter()
        .rev()
        .enumerate()
        .map(|(i, &x)| x as usize * if i % 2 == 1 { 3 } else { 1 })
        .sum();
    s % 10 == 0
}

fn digits(d: &[u8]) -> String {
    d.iter().map(|x| (b'0' + x) as char).collect()
}

/// Reads a symbol back, validating its check characters. None: not a readable symbol.
pub fn scan(sym: Sym, m: &[u8]) -> Option<String> {
    if m.iter().any(|&b| b > 1) || m.first() != Some(&1) {
        return None;
    }
    match sym {
        Ean13 => {
            let (par, mut d) = scan_ean(m, 6)?;
            let first = EAN13_PARITY.iter().position(|p| *p == par)?;
            d.insert(0, first as u8);
            gs1_ok(&d).then(|| digits(&d))
        }
        Upca => {
            let (par, d) = scan_ean(m, 6)?;
            (par == "AAAAAA" && gs1_ok(&d)).then(|| digits(&d))
        }
        Ean8 => {
            let (par, d) = scan_ean(m, 4)?;
            (par == "AAAA" && gs1_ok(&d)).then(|| digits(&d))
        }
        Supp => {
            let k = match m.len() {
                20 => 2,
                47 => 5,
                _ => return None,
            };
            if m[..4] != [1, 0, 1, 1] {
                return None;
            }
            let (mut par, mut d) = (String::new(), vec![]);
            for i in 0..k {
                let o = 4 + 9 * i;
                if i > 0 && m[o - 2..o] != [0, 1] {
                    return None;
                }
                let (p, x) = ean_digit(&m[o..o + 7])?;
                par.push(p);
                d.push(x);
            }
            let want = if k == 2 {
                EAN2_PARITY[(d[0] as usize * 10 + d[1] as usize) % 4]
            } else {
                EAN5_PARITY[ean5_check(&d)]
            };
            (par == want).then(|| digits(&d))
        }
        Code39 | Code39C => {
            let w = widths_of(m);
            if w.len() % 10 != 9 || w.iter().any(|&x| x > 2) {
                return None;
            }
            let mut vals = vec![];
            for g in w.chunks(10) {
                if g.len() == 10 && g[9] != 1 {
                    return None;
                }
                let code = g[..9].iter().fold(0u16, |a, &x| a * 2 + (x - 1) as u16);
                vals.push(C39_P.iter().position(|&p| p == code)?);
            }
            if vals.len() < 3 || vals[0] != 43 || vals[vals.len() - 1] != 43 {
                return None;
            }
            let mut v = vals[1..vals.len() - 1].to_vec();
            if v.contains(&43) {
                return None;
            }
            if sym == Code39C {
                let ck = v.pop()?;
                if v.is_empty() || v.iter().sum::<usize>() % 43 != ck {
                    return None;
                }
            }
            Some(v.iter().map(|&x| C39.as_bytes()[x] as char).collect())
        }
        Code93 => {
            let w = widths_of(m);
            if w.len() % 6 != 1 || *w.last()? != 1 {
                return None;
            }
            let mut vals = vec![];
            for g in w[..w.len() - 1].chunks(6) {
                let s = wstr(g);
                vals.push(C93_W.iter().position(|x| *x == s)?);
            }
            let n = vals.len();
            if n < 5 || vals[0] != 47 || vals[n - 1] != 47 {
                return None;
            }
            let mut v = vals[1..n - 1].to_vec();
            if v.contains(&47) {
                return None;
            }
            for wt in [15, 20] {
                let ck = v.pop()?;
                if weighted(&v, wt, 47) != ck {
                    return None;
                }
            }
            Some(v.iter().map(|&x| C93.as_bytes()[x] as char).collect())
        }
        Code11 => {
            let w = widths_of(m);
            if w.len() % 6 != 5 || w.iter().any(|&x| x > 2) {
                return None;
            }
            let mut vals = vec![];
            for g in w.chunks(6) {
                if g.len() == 6 && g[5] != 1 {
                    return None;
                }
                let s: String = g[..5].iter().map(|&x| if x == 2 { '1' } else { '0' }).collect();
                vals.push(C11_P.iter().position(|p| **p == s)?);
            }
            let n = vals.len();
            if n < 4 || vals[0] != 11 || vals[n - 1] != 11 {
                return None;
            }
            let mut v = vals[1..n - 1].to_vec();
            if v.contains(&11) {
                return None;
            }
            // data <= 10 carries C only (so at most 11 characters); longer data carries C and K.
            if v.len() >= 13 {
                let k = v.pop()?;
                if weighted(&v, 9, 11) != k {
                    return None;
                }
            } else if v.len() == 12 {
                return None;
            }
            let c = v.pop()?;
            if weighted(&v, 10, 11) != c {
                return None;
            }
            Some(v.iter().map(|&x| C11.as_bytes()[x] as char).collect())
        }
        Codabar => {
            let w = widths_of(m);
            if w.len() % 8 != 7 || w.iter().any(|&x| x > 2) {
                return None;
            }
            let mut s = String::new();
            for g in w.chunks(8) {
                if g.len() == 8 && g[7] != 1 {
                    return None;
                }
                let code = g[..7].iter().fold(0u16, |a, &x| a * 2 + (x - 1) as u16);
                s.push(CODA.as_bytes()[CODA_P.iter().position(|&p| p == code)?] as char);
            }
            Some(s)
        }
        Itf => {
            let w = widths_of(m);
            let n = w.len();
            if n < 17 || (n - 7) % 10 != 0 || w[..4] != [1; 4] || w[n - 3..] != [2, 1, 1] {
                return None;
            }
            let mut d = vec![];
            for g in w[4..n - 3].chunks(10) {
                if g.iter().any(|&x| x != 1 && x != 3) {
                    return None;
                }
                for k in 0..2 {
                    let s: String = (0..5)
                        .map(|i| if g[2 * i + k] == 3 { '1' } else { '0' })
                        .collect();
                    d.push(TF_P.iter().position(|p| **p == s)? as u8);
                }
            }
            Some(digits(&d))
        }
        Stf => {
            let n = m.len();
            if n < 16 || m[..8] != [1, 1, 0, 1, 1, 0, 1, 0] || m[n - 8..] != [1, 1, 0, 1, 0, 1, 1, 0]
            {
                return None;
            }
            let body = runs(&m[8..n - 8]);
            if body.is_empty() || body.len() % 10 != 0 || body[0].0 != 1 {
                return None;
            }
            let mut d = vec![];
            for g in body.chunks(10) {
                let mut s = String::new();
                for p in g.chunks(2) {
                    if p[1].1 != 1 {
                        return None;
                    }
                    s.push(match p[0].1 {
                        1 => '0',
                        3 => '1',
                        _ => return None,
                    });
                }
                d.push(TF_P.iter().position(|p| **p == s)? as u8);
            }
            Some(digits(&d))
        }
        Code128 => scan128(m),
    }
}

fn c128_index() -> &'static std::collections::HashMap<[u8; 6], usize> {
    static T: OnceLock<std::collections::HashMap<[u8; 6], usize>> = OnceLock::new();
    T.get_or_init(|| {
        C128_W[..106]
            .iter()
            .enumerate()
            .map(|(i, w)| {
                let mut k = [0u8; 6];
                for (j, b) in w.bytes().enumerate() {
                    k[j] = b - b'0';
                }
                (k, i)
            })
            .collect()
    })
}

/// Reads Code 128 back into the notation the library takes as input.
fn scan128(m: &[u8]) -> Option<String> {
    let w = widths_of(m);
    let n = w.len();
    if n < 19 || n % 6 != 1 || wstr(&w[n - 7..]) != C128_W[106] {
        return None;
    }
    let idx = c128_index();
    let mut vals = vec![];
    for g in w[..n - 7].chunks(6) {
        let mut k = [0u8; 6];
        for j in 0..6 {
            if g[j] > 4 {
                return None;
            }
            k[j] = g[j] as u8;
        }
        vals.push(*idx.get(&k)?);
    }
    let ck = vals.pop()?;
    if vals.is_empty() || c128_check(&vals) != ck {
        return None;
    }
    let mut s = String::new();
    let mut set = match vals[0] {
        103 => SET_A,
        104 => SET_B,
        105 => SET_C,
        _ => return None,
    };
    s.push([SEL_A, SEL_B, SEL_C][set as usize]);
    let mut shift = false;
    for &v in &vals[1..] {
        let eff = if shift { 1 - set } else { set };
        let was = shift;
        shift = false;
        if v >= 103 {
            return None;
        }
        if eff == SET_C {
            match v {
                0..=99 => {
                    s.push((b'0' + (v / 10) as u8) as char);
                    s.push((b'0' + (v % 10) as u8) as char);
                }
                100 => {
                    set = SET_B;
                    s.push(SEL_B);
                }
                101 => {
                    set = SET_A;
                    s.push(SEL_A);
                }
                _ => s.push(FNC1),
            }
            continue;
        }
        match v {
            0..=63 => s.push((32 + v as u8) as char),
            64..=95 if eff == SET_A => s.push((v as u8 - 64) as char),
            64..=95 => s.push((v as u8 + 32) as char),
            96 => s.push(FNC3),
            97 => s.push(FNC2),
            98 => {
                shift = true;
                s.push(SHIFT);
            }
            99 if !was => {
                set = SET_C;
                s.push(SEL_C);
            }
            100 if eff == SET_A => {
                if was {
                    return None;
                }
                set = SET_B;
                s.push(SEL_B);
            }
            100 => s.push(FNC4),
            101 if eff == SET_A => s.push(FNC4),
            101 => {
                if was {
                    return None;
                }
                set = SET_A;
                s.push(SEL_A);
            }
            102 => s.push(FNC1),
            _ => return None,
        }
    }
    Some(s)
}
