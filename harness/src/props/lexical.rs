//! Escapes and token classification, against the reference lexer.

use super::text::same_point;
use super::*;
use crate::model::chars::*;
use crate::model::lex;
use crate::runner::*;
use wolfram_parser::read::{Escape, WLCharacter};
use wolfram_parser::source::SourceCharacter as SC;

// ---- P06 escapes -------------------------------------------------------------------------------

pub static P06: Prop = Prop {
    id: "P06",
    rule: "distinct sequences of (code point, way of writing) decoded like the model",
    assumptions: &["the table of long names is data taken from the unchanged tree"],
    sys_len: p06_len,
    sys_case: p06_case,
    random: p06_random,
    check: p06,
    quick_n: 200_000,
    thorough_n: 5_000_000,
    need: &["long names", "hex escapes", "octal escapes", "unescaped", "single character escapes"],
};

const AROUND: &[(&str, &str)] = &[("", ""), ("a", "b"), ("\"", "\""), ("1", "2")];

fn p06_len(_: bool) -> u64 {
    let n = gen::longnames().len() as u64;
    // \:xxxx, \.xx, \ooo, long names, long names with a character changed, \| planes, \| in plane 0, all ASCII pairs after a backslash
    65536 + 256 + 512 + n + n * 3 + 0x1100 * 2 + 0x10000 + 128 * 128
}
fn p06_case(_: bool, mut i: u64) -> Case {
    let n = gen::longnames().len() as u64;
    let (pre, post) = AROUND[(i % 4) as usize];
    let mk = |s: String| Case::new(format!("{pre}{s}{post}"));
    if i < 65536 {
        return if i % 2 == 0 { mk(format!("\\:{:04x}", i)) } else { mk(format!("\\:{:04X}", i)) };
    }
    i -= 65536;
    if i < 256 {
        return mk(format!("\\.{:02x}", i));
    }
    i -= 256;
    if i < 512 {
        return mk(format!("\\{:03o}", i));
    }
    i -= 512;
    if i < n {
        return mk(format!("\\[{}]", gen::longnames()[i as usize].name));
    }
    i -= n;
    if i < 3 * n {
        let name = gen::longnames()[(i / 3) as usize].name;
        return mk(match i % 3 {
            0 => format!("\\[{}x]", name),
            1 => format!("\\[{}]", &name[..name.len() - 1]),
            _ => format!("\\[{}", name),
        });
    }
    i -= 3 * n;
    if i < 0x1100 * 2 {
        // every 256th code point and the one before it, in all planes
        let v = (i / 2 * 256).saturating_sub(i % 2);
        return mk(format!("\\|{:06x}", v));
    }
    i -= 0x1100 * 2;
    if i < 0x10000 {
        return mk(format!("\\|{:06X}", i));
    }
    i -= 0x10000;
    Case::new(format!("\\{}{}", (i / 128) as u8 as char, (i % 128) as u8 as char))
}

fn p06_random(r: &mut Rng) -> Case {
    let n = r.range(1, 8);
    let mut s = String::new();
    for _ in 0..n {
        let x = match r.below(10) {
            0 => r.pick(gen::WEIRD).to_string(),
            1 => format!("\\[{}]", r.pick(gen::longnames()).name),
            2 => format!("\\:{:04x}", r.below(0x10000)),
            3 => format!("\\|{:06x}", r.below(0x112000)),
            4 => format!("\\.{:02X}", r.below(256)),
            5 => format!("\\{:03o}", r.below(512)),
            6 => format!("\\{}", gen::any_scalar(r)),
            7 => {
                // an escape cut short
                let f = r.pick(&["\\:12ab", "\\.7f", "\\|01ab9f", "\\177", "\\[Alpha]", "\\[RawTab]"]);
                f[..r.range(1, f.len())].to_string()
            },
            8 => r.pick(gen::TRIVIA).to_string(),
            _ => gen::any_scalar(r).to_string(),
        };
        s.push_str(&x);
    }
    let o = rnd_opts(r, false);
    Case::new(s).opts(o)
}

fn real_point(p: Pt) -> SC {
    match p {
        Pt::Ch(c) => SC::Char(c),
        Pt::Eof => SC::EndOfFile,
        Pt::Crlf => SC::CRLF,
        Pt::Unsafe(1) => SC::Unsafe1ByteUtf8Sequence,
        Pt::Unsafe(2) => SC::Unsafe2ByteUtf8Sequence,
        Pt::Unsafe(_) => SC::Unsafe3ByteUtf8Sequence,
        Pt::LinearSpace => SC::LinearSyntax_Space,
        Pt::Lc('n') => SC::LineContinuation_LineFeed,
        Pt::Lc('r') => SC::LineContinuation_CarriageReturn,
        Pt::Lc(_) => SC::LineContinuation_CRLF,
        Pt::Meta('"') => SC::StringMeta_DoubleQuote,
        Pt::Meta('\\') => SC::StringMeta_Backslash,
        Pt::Meta('<') => SC::StringMeta_Open,
        Pt::Meta('>') => SC::StringMeta_Close,
        Pt::Meta('b') => SC::StringMeta_Backspace,
        Pt::Meta('f') => SC::StringMeta_FormFeed,
        Pt::Meta('n') => SC::StringMeta_LineFeed,
        Pt::Meta('r') => SC::StringMeta_CarriageReturn,
        Pt::Meta(_) => SC::StringMeta_Tab,
    }
}

fn real_esc(e: Esc) -> Escape {
    match e {
        Esc::None => Escape::None,
        Esc::Raw => Escape::Raw,
        Esc::LongName => Escape::LongName,
        Esc::Hex2 => Escape::Hex2,
        Esc::Hex4 => Escape::Hex4,
        Esc::Hex6 => Escape::Hex6,
        Esc::Octal => Escape::Octal,
        Esc::Single => Escape::Single,
    }
}

fn p06(c: &Case, obs: &mut Obs) -> Result<(), String> {
    let b = &c.input[..];
    let s = match std::str::from_utf8(b) {
        Ok(s) => s,
        Err(_) => return Ok(()),
    };
    let o = c.opts.make();
    let got: Vec<WLCharacter> = call("iter::wolfram_chars", b.len(), || iter::wolfram_chars(s, &o).collect())?;
    let mut i = 0;
    let mut seq = vec![];
    for (k, g) in got.iter().enumerate() {
        let (w, j) = wl_at(b, i);
        let want = WLCharacter::escaped(real_point(w.pt), real_esc(w.esc));
        if *g != want || w.pt == Pt::Eof {
            return Err(format!("character {k} (byte {i} of {s:?}) is {g:?}, expected {w:?}"));
        }
        obs.count(match w.esc {
            Esc::LongName | Esc::Raw => "long names",
            Esc::Hex2 | Esc::Hex4 | Esc::Hex6 => "hex escapes",
            Esc::Octal => "octal escapes",
            Esc::Single => "single character escapes",
            Esc::None => "unescaped",
        });
        seq.push(w);
        i = j;
    }
    if i != b.len() {
        return Err(format!("decoding stopped after {} characters, at byte {i} of {}: {s:?}", got.len(), b.len()));
    }
    let _ = same_point;
    if seq.iter().any(|w| w.esc != Esc::None) {
        obs.sig(&seq);
        obs.sample(|| format!("{s:?} -> {seq:?}"));
    }
    Ok(())
}

// ---- P07 tokens -----------------------------------------------------------------------------------

pub static P07: Prop = Prop {
    id: "P07",
    rule: "distinct sequences of token kinds equal to the reference lexer's",
    assumptions: &["reference lexer harness/src/model/lex.rs", "the extent of unterminated tokens is decided by P22", "first-line handling off"],
    sys_len: p07_len,
    sys_case: p07_case,
    random: p07_random,
    check: p07,
    quick_n: 300_000,
    thorough_n: 8_000_000,
    need: &["numbers", "names", "strings", "operators", "comments", "errors", "tag tokens", "file tokens"],
};

const NUMCH: &[u8] = b"019.`*^+-ag ";
const OPCH: &[u8] = b"!#%&()*+,-./:;<=>?@[]^_`{|}~\"'\\a1$ ";

fn pow(b: usize, n: u32) -> u64 {
    (b as u64).pow(n)
}
fn nth(chars: &[u8], len: u32, mut i: u64) -> Vec<u8> {
    let mut v = vec![];
    for _ in 0..len {
        v.push(chars[(i % chars.len() as u64) as usize]);
        i /= chars.len() as u64;
    }
    v
}
fn p07_len(th: bool) -> u64 {
    let n = gen::longnames().len() as u64;
    pow(NUMCH.len(), if th { 6 } else { 5 }) + pow(OPCH.len(), if th { 4 } else { 3 }) + n + 0x10000 + corpus_len(th)
}
fn p07_case(th: bool, mut i: u64) -> Case {
    let n = gen::longnames().len() as u64;
    let a = if th { 6 } else { 5 };
    let z = pow(NUMCH.len(), a);
    if i < z {
        return Case::new(nth(NUMCH, a, i));
    }
    i -= z;
    let a = if th { 4 } else { 3 };
    let z = pow(OPCH.len(), a);
    if i < z {
        return Case::new(nth(OPCH, a, i));
    }
    i -= z;
    if i < n {
        return Case::new(format!("x\\[{}]y", gen::longnames()[i as usize].name));
    }
    i -= n;
    if i < 0x10000 {
        return Case::new(match char::from_u32(i as u32) {
            Some(c) => format!("x{c}1{c}"),
            None => String::new(),
        });
    }
    i -= 0x10000;
    corpus_case(th, i)
}

fn p07_random(r: &mut Rng) -> Case {
    let o = rnd_opts(r, false);
    let b = match r.below(8) {
        0 => {
            let n = r.range(1, 14);
            (0..n).map(|_| *r.pick(b"0012357.``**^^+-aefgzAFZ .1")).collect()
        },
        1 => {
            let n = r.range(1, 10);
            (0..n).map(|_| *r.pick(OPCH)).collect()
        },
        2 => {
            // operators and numbers broken up by line continuations and escapes
            let n = r.range(2, 8);
            let mut s = String::new();
            for _ in 0..n {
                s.push_str(*r.pick(&["\\\n", "\\\r\n ", "\\\r\t", "=", "!", "<", "-", ">", "|", ":", "^", "1", "0", ".", "`", "*", "a", "\\[RawPlus]", "\\.2b", "\\:003d", "/", "_", "#", "%", "\"", "\\[RawStar]", "\\[RawDot]", "\\061", "é"]));
            }
            s.into_bytes()
        },
        3 => {
            let n = r.range(1, 8);
            let mut s = String::new();
            for _ in 0..n {
                s.push_str(*r.pick(&["(*", "*)", "(", "*", ")", "\"", "\\\"", "\\\\", "\\(", "\\)", "\\!", "a", " ", "\n", "\\"]));
            }
            s.into_bytes()
        },
        _ => any_input(r, 30),
    };
    Case::new(b).opts(o)
}

fn p07(c: &Case, obs: &mut Obs) -> Result<(), String> {
    let b = &c.input[..];
    let o = c.opts.make();
    let want = lex::all(b);
    let mut lists = vec![];
    if let Ok(s) = std::str::from_utf8(b) {
        lists.push(("tokenize", call("tokenize", b.len(), || toks(b, &tokenize(s, &o)))?));
        lists.push(("iter::tokens", call("iter::tokens", b.len(), || iter::tokens(s, &o).map(|t| tok(b, &t)).collect())?));
    } else if let Some(t) = run_tokens(b, &c.opts)? {
        lists.push(("tokenize_bytes", t));
    }
    for (what, got) in &lists {
        for k in 0..got.len().max(want.len()) {
            let g = got.get(k).map(|t| (t.kind, t.s, t.e));
            let w = want.get(k).copied();
            let same = match (g, w) {
                (Some(g), Some(w)) => g.0 == w.0 && g.1 == w.1 && (g.2 == w.2 || unterminated(w.0)),
                _ => false,
            };
            if !same {
                return Err(format!("{what}: token {k} of {:?} is {g:?}, expected {w:?}", String::from_utf8_lossy(b)));
            }
        }
    }
    // single-token entry points
    let first = |m| call("parse_to_token", b.len(), || parse_to_token(b, &o, m).syntax.0.iter().map(|t| tok(b, t)).collect::<Vec<_>>());
    for (mode, m, (k, e)) in [
        ("Normal", StringifyMode::Normal, lex::token(b, 0, lex::Mode::Normal)),
        ("Tag", StringifyMode::Tag, lex::tag(b, 0)),
        ("File", StringifyMode::File, lex::file(b, 0)),
    ] {
        let got = first(m)?;
        let k = if k == lex::NEWLINE { "ToplevelNewline" } else { k };
        if got.len() != 1 || got[0].kind != k || got[0].s != 0 || got[0].e != e {
            return Err(format!("parse_to_token {mode} on {:?} gives {got:?}, expected {k} 0..{e}", String::from_utf8_lossy(b)));
        }
        match mode {
            "Tag" if k == "String" => obs.count("tag tokens"),
            "File" if k == "String" => obs.count("file tokens"),
            _ => {},
        }
    }
    for t in &want {
        obs.count(match t.0 {
            "Integer" | "Real" | "Rational" => "numbers",
            "Symbol" => "names",
            "String" => "strings",
            "Comment" => "comments",
            "Whitespace" | "ToplevelNewline" => "white space",
            k if k.starts_with("Error_") => "errors",
            _ => "operators",
        });
    }
    obs.sig(&want.iter().map(|t| t.0).collect::<Vec<_>>());
    obs.sample(|| format!("{:?} -> {want:?}", String::from_utf8_lossy(b)));
    Ok(())
}
