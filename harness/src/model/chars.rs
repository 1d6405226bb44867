//! Reference model of the two character layers: UTF-8 decoding of the bytes, and backslash escapes.
//! Written from the UTF-8 standard and the language's escape rules; shares no code with the parser.

use crate::gen::{char_entry, longname_char};

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum Pt {
    Ch(char),
    Eof,
    Crlf,
    /// 1, 2 or 3 bytes that are not (safe) UTF-8
    Unsafe(u8),
    LinearSpace,
    /// string meta character: the character after the backslash
    Meta(char),
    /// line continuation: 'n' LF, 'r' CR, 'w' CRLF
    Lc(char),
}

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum Esc {
    None,
    Raw,
    LongName,
    Hex2,
    Hex4,
    Hex6,
    Octal,
    Single,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub struct Wl {
    pub pt: Pt,
    pub esc: Esc,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum Bad {
    Incomplete,
    Surrogate,
    Bom,
}

/// One source character at byte `i`: (point, index after it, what is unsafe about it)
pub fn src_at(b: &[u8], i: usize) -> (Pt, usize, Option<Bad>) {
    if i >= b.len() {
        return (Pt::Eof, i, None);
    }
    let c = b[i];
    if c == b'\r' && b.get(i + 1) == Some(&b'\n') {
        return (Pt::Crlf, i + 2, None);
    }
    if c < 0x80 {
        return (Pt::Ch(c as char), i + 1, None);
    }
    // (number of bytes, allowed range of the second byte)
    let (n, lo, hi) = match c {
        0xc2..=0xdf => (2, 0x80, 0xbf),
        0xe0 => (3, 0xa0, 0xbf),
        0xe1..=0xef => (3, 0x80, 0xbf),
        0xf0 => (4, 0x90, 0xbf),
        0xf1..=0xf3 => (4, 0x80, 0xbf),
        0xf4 => (4, 0x80, 0x8f),
        _ => return (Pt::Unsafe(1), i + 1, Some(Bad::Incomplete)),
    };
    let mut v: u32 = match n {
        2 => c as u32 & 0x1f,
        3 => c as u32 & 0x0f,
        _ => c as u32 & 0x07,
    };
    for k in 1..n {
        let ok = match b.get(i + k) {
            Some(&x) => {
                let (l, h) = if k == 1 { (lo, hi) } else { (0x80, 0xbf) };
                v = v << 6 | (x as u32 & 0x3f);
                l <= x && x <= h
            },
            None => false,
        };
        if !ok {
            return (Pt::Unsafe(k as u8), i + k, Some(Bad::Incomplete));
        }
    }
    match char::from_u32(v) {
        None => (Pt::Unsafe(3), i + 3, Some(Bad::Surrogate)),
        Some('\u{feff}') => (Pt::Unsafe(3), i + 3, Some(Bad::Bom)),
        Some(ch) => (Pt::Ch(ch), i + n, None),
    }
}

fn run(b: &[u8], from: usize, n: usize, radix: u32) -> Option<u32> {
    if from + n > b.len() {
        return None;
    }
    let mut v = 0u32;
    for &c in &b[from..from + n] {
        v = v * radix + (c as char).to_digit(radix)?;
    }
    Some(v)
}

/// The character with code `v`; a quote or backslash written as a code is the string meta character.
fn coded(v: u32) -> Option<Pt> {
    Some(match char::from_u32(v)? {
        '"' => Pt::Meta('"'),
        '\\' => Pt::Meta('\\'),
        c => Pt::Ch(c),
    })
}

/// One Wolfram Language character at byte `i`.
pub fn wl_at(b: &[u8], i: usize) -> (Wl, usize) {
    let (p, j, _) = src_at(b, i);
    if p != Pt::Ch('\\') {
        return (Wl { pt: p, esc: Esc::None }, j);
    }
    let plain = (Wl { pt: Pt::Ch('\\'), esc: Esc::None }, j);
    let (q, k, _) = src_at(b, j);
    let single = |pt| (Wl { pt, esc: Esc::Single }, k);
    let c = match q {
        Pt::Crlf => return single(Pt::Lc('w')),
        Pt::Ch(c) => c,
        _ => return plain,
    };
    match c {
        '\n' => single(Pt::Lc('n')),
        '\r' => single(Pt::Lc('r')),
        '"' | '\\' | '<' | '>' | 'b' | 'f' | 'n' | 'r' | 't' => single(Pt::Meta(c)),
        ' ' => single(Pt::LinearSpace),
        ')' => single(Pt::Ch('\u{f7c0}')),
        '!' => single(Pt::Ch('\u{f7c1}')),
        '@' => single(Pt::Ch('\u{f7c2}')),
        '%' => single(Pt::Ch('\u{f7c5}')),
        '^' => single(Pt::Ch('\u{f7c6}')),
        '&' => single(Pt::Ch('\u{f7c7}')),
        '*' => single(Pt::Ch('\u{f7c8}')),
        '(' => single(Pt::Ch('\u{f7c9}')),
        '_' => single(Pt::Ch('\u{f7ca}')),
        '+' => single(Pt::Ch('\u{f7cb}')),
        '/' => single(Pt::Ch('\u{f7cc}')),
        '`' => single(Pt::Ch('\u{f7cd}')),
        '[' => {
            let mut e = k;
            while e < b.len() && b[e].is_ascii_alphanumeric() {
                e += 1;
            }
            if e > k && b[k].is_ascii_uppercase() && b.get(e) == Some(&b']') {
                let name = std::str::from_utf8(&b[k..e]).unwrap();
                if let Some(ln) = longname_char(name) {
                    let pt = match ln.ch {
                        Some(c) => Pt::Ch(c),
                        None if name == "RawDoubleQuote" => Pt::Meta('"'),
                        None => Pt::Meta('\\'),
                    };
                    let esc = if ln.tag == "raw" { Esc::Raw } else { Esc::LongName };
                    return (Wl { pt, esc }, e + 1);
                }
            }
            plain
        },
        ':' => match run(b, k, 4, 16).and_then(coded) {
            Some(pt) => (Wl { pt, esc: Esc::Hex4 }, k + 4),
            None => plain,
        },
        '.' => match run(b, k, 2, 16).and_then(coded) {
            Some(pt) => (Wl { pt, esc: Esc::Hex2 }, k + 2),
            None => plain,
        },
        '|' => match run(b, k, 6, 16).and_then(coded) {
            Some(pt) => (Wl { pt, esc: Esc::Hex6 }, k + 6),
            None => plain,
        },
        '0'..='7' => match run(b, j, 3, 8).and_then(coded) {
            Some(pt) => (Wl { pt, esc: Esc::Octal }, j + 3),
            None => plain,
        },
        _ => plain,
    }
}

/// Classes of non-ASCII characters.
#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum Class {
    Punct,
    White,
    Newline,
    Uninterpretable,
    Linear,
    Letter,
}

pub fn class_of(c: char) -> Class {
    debug_assert!(!c.is_ascii());
    match c {
        '\u{f7c0}' | '\u{f7c1}' | '\u{f7c2}' | '\u{f7c5}'..='\u{f7cd}' => return Class::Linear,
        '\u{f3a2}' => return Class::White,
        _ => {},
    }
    match char_entry(c).map(|e| e.tag) {
        Some("punct") => Class::Punct,
        Some("ws") => Class::White,
        Some("nl") => Class::Newline,
        Some("unint") => Class::Uninterpretable,
        _ => Class::Letter,
    }
}

impl Wl {
    pub fn is(&self, c: char) -> bool {
        self.pt == Pt::Ch(c)
    }
    pub fn ch(&self) -> Option<char> {
        match self.pt {
            Pt::Ch(c) => Some(c),
            _ => None,
        }
    }
    pub fn digit(&self) -> bool {
        matches!(self.pt, Pt::Ch('0'..='9'))
    }
    pub fn alnum(&self) -> bool {
        matches!(self.pt, Pt::Ch(c) if c.is_ascii_alphanumeric())
    }
    pub fn sign(&self) -> bool {
        matches!(self.pt, Pt::Ch('+' | '-'))
    }
    pub fn letterlike(&self) -> bool {
        match self.pt {
            Pt::Ch(c) if c.is_ascii() => {
                c.is_ascii_alphabetic() || c == '$' || matches!(c as u32, 0..=6 | 8 | 0xe..=0x1f)
            },
            Pt::Ch(c) => class_of(c) == Class::Letter,
            _ => false,
        }
    }
    pub fn white(&self) -> bool {
        match self.pt {
            Pt::Ch(c) if c.is_ascii() => matches!(c, ' ' | '\t' | '\u{b}' | '\u{c}'),
            Pt::Ch(c) => class_of(c) == Class::White,
            _ => false,
        }
    }
    pub fn newline(&self) -> bool {
        match self.pt {
            Pt::Ch('\n' | '\r') | Pt::Crlf => true,
            Pt::Ch(c) if !c.is_ascii() => class_of(c) == Class::Newline,
            _ => false,
        }
    }
}
