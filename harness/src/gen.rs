//! Workload generators: token soup, corpus mutation, raw bytes, structured (balanced) source text.

use crate::rng::Rng;
use std::sync::OnceLock;

pub struct LongName {
    pub name: &'static str,
    /// None for the two string-meta pseudo code points
    pub ch: Option<char>,
    pub tag: &'static str,
}

pub fn longnames() -> &'static Vec<LongName> {
    static T: OnceLock<Vec<LongName>> = OnceLock::new();
    T.get_or_init(|| {
        include_str!("../data/longnames.tsv")
            .lines()
            .map(|l| {
                let f: Vec<&'static str> = l.split('\t').collect();
                LongName {
                    name: f[0],
                    ch: u32::from_str_radix(f[1], 16).ok().and_then(char::from_u32),
                    tag: f[2],
                }
            })
            .collect()
    })
}

pub fn longname_char(name: &str) -> Option<&'static LongName> {
    static T: OnceLock<std::collections::HashMap<&'static str, usize>> = OnceLock::new();
    let m = T.get_or_init(|| longnames().iter().enumerate().map(|(i, l)| (l.name, i)).collect());
    m.get(name).map(|&i| &longnames()[i])
}

/// char -> entry of the long name table (first name wins)
pub fn char_entry(c: char) -> Option<&'static LongName> {
    static T: OnceLock<std::collections::HashMap<char, usize>> = OnceLock::new();
    let m = T.get_or_init(|| {
        let mut m = std::collections::HashMap::new();
        for (i, l) in longnames().iter().enumerate() {
            if let Some(c) = l.ch {
                m.entry(c).or_insert(i);
            }
        }
        m
    });
    m.get(&c).map(|&i| &longnames()[i])
}

pub fn corpus() -> &'static Vec<Vec<u8>> {
    static T: OnceLock<Vec<Vec<u8>>> = OnceLock::new();
    T.get_or_init(|| {
        include_str!("../data/corpus.txt")
            .lines()
            .map(|l| unescape(l))
            .collect()
    })
}

pub fn unescape(l: &str) -> Vec<u8> {
    let b = l.as_bytes();
    let mut out = Vec::new();
    let mut i = 0;
    while i < b.len() {
        if b[i] == b'%' {
            out.push(u8::from_str_radix(&l[i + 1..i + 3], 16).unwrap());
            i += 3;
        } else {
            out.push(b[i]);
            i += 1;
        }
    }
    out
}

pub fn escape(b: &[u8]) -> String {
    let mut s = String::new();
    for &c in b {
        if (32..127).contains(&c) && c != b'%' {
            s.push(c as char);
        } else {
            s.push_str(&format!("%{:02x}", c));
        }
    }
    s
}

pub const ATOMS: &[&str] = &[
    "a", "b", "x", "y1", "$z", "foo", "a`b", "`c", "a`b`c", "Sin", "Plus", "Null", "True", "1", "0", "23", "1.5", "2.",
    ".5", "16^^ff", "36^^z.9", "1`", "1.2`5", "1``3", "1*^5", "1*^-2", "2.5*^3", "1.`-3", "1``+2.5", "2^^101",
    "\"\"", "\"s\"", "\"a b\"", "\"x\\ny\"", "\"\\\"\"", "\"\\\\\"", "\"(*\"", "\"\\[Alpha]\"", "\"é\"", "\"a\nb\"",
    "_", "__", "___", "_.", "a_", "a__b", "_b", "a_.", "#", "##", "#1", "##2", "#foo", "#\"bar\"", "%", "%%", "%5",
    "\\[Alpha]", "\\[Pi]x", "α", "é", "β1", "\\:03b1", "\\.e9", "\\|01d7d9", "\\101", "日本", "\\[DoubleStruckA]",
    "\\[FormalX]", "\u{f800}", "\\[Infinity]", "\\[Degree]",
];

pub const OPS: &[&str] = &[
    "+", "-", "*", "/", "^", ".", "@", "@@", "@@@", "/@", "//@", "//", "/.", "//.", "/;", "->", ":>", "<->", "=",
    ":=", "^=", "^:=", "+=", "-=", "*=", "/=", "//=", "==", "!=", "===", "=!=", "<", ">", "<=", ">=", "&&", "||",
    "|", "..", "...", "!", "!!", "++", "--", "'", "&", ";", ";;", ",", "~", "~~", "<>", "**", "@*", "/*", "?", ":",
    "::", "/:", "=.", "<<", ">>", ">>>", "|->", "??", ":::", "\\!",
];

pub const BRACKETS: &[(&str, &str)] = &[
    ("(", ")"),
    ("[", "]"),
    ("{", "}"),
    ("<|", "|>"),
    ("[[", "]]"),
    ("::[", "]"),
    ("\\[LeftCeiling]", "\\[RightCeiling]"),
    ("\\[LeftFloor]", "\\[RightFloor]"),
    ("\\[LeftAngleBracket]", "\\[RightAngleBracket]"),
    ("\\[LeftBracketingBar]", "\\[RightBracketingBar]"),
    ("\\[LeftDoubleBracketingBar]", "\\[RightDoubleBracketingBar]"),
    ("\\[LeftAssociation]", "\\[RightAssociation]"),
    ("\\[OpenCurlyQuote]", "\\[CloseCurlyQuote]"),
    ("\\[OpenCurlyDoubleQuote]", "\\[CloseCurlyDoubleQuote]"),
    ("\\[LeftDoubleBracket]", "\\[RightDoubleBracket]"),
    ("\u{301a}", "\u{301b}"),
    ("\\(", "\\)"),
    ("(*", "*)"),
    ("\"", "\""),
];

pub const TRIVIA: &[&str] = &[
    " ", "  ", "\t", "\n", "\r\n", "\r", "(**)", "(* c *)", "(* a\nb *)", "(* (* n *) *)", "\\\n", "\\\r\n", "\\\n  ", "\n\n",
    "\u{a0}", "\u{2003}", "\\[ThinSpace]", "\\[NewLine]", "\\[IndentingNewLine]", "\u{2028}", "\u{2029}", "\u{f3a3}", "\u{c}", "\u{b}",
    "\\[RawSpace]", "\\[RawTab]", "\\[NoBreak]", " \t \t", "(*\t*)", "\\\r",
];

pub const WEIRD: &[&str] = &[
    "\\", "\\[", "\\[]", "\\[Foo", "\\[Foo]", "\\[alpha]", "\\:", "\\:1", "\\:00", "\\:00g", "\\:d800", "\\:ffff", "\\:0001", "\\.", "\\.1", "\\.0a", "\\|", "\\|1",
    "\\|00000a", "\\|10ffff", "\\|110000", "\\1", "\\12", "\\377", "\\8", "\\n", "\\t", "\\r", "\\b", "\\f", "\\a", "\\z", "\\\"",
    "\\\\", "\\<", "\\>", "\\ ", "\\@", "\\%", "\\^", "\\&", "\\*", "\\_", "\\+", "\\/", "\\`", "\\,", "\\?", "\\-",
    "\\x", "\u{0}", "\u{1}", "\u{7f}", "\u{80}", "\u{9f}", "\u{ad}", "\u{feff}", "\u{fffd}", "\u{fffe}", "\u{ffff}", "\u{10ffff}",
    "\u{e000}", "\u{fdd0}", "\u{f3b1}", "\u{f3b2}", "\u{1f600}", "\u{301}", "\u{200b}", "\u{200d}", "\u{d7ff}", "1`a", "1*^", "1*^a", "37^^1", "1^^0",
    "2^^2", "16^^", "16^^.1", "1..", "1...", "1.a", "1``", "1``.", "1`+", "1`-", "1`.", "1.2.3", "a`", "a`1", "``", "#!", "#a`b", "*)", "<|>", "|>", "::",
    "a::b", "a::\"b\"", "a::b::c", "<<foo", "<<\"foo\"", "<<foo`bar`", "a>>b", "a>>>b.c", "a>>[1]", "<<a\\[", "\\(a", "\\(a\\)", "\\(\\(\\)\\)",
    "\\!\\(x\\)", "\\[Integral]", "\\[DifferentialD]", "\\[Integral]a\\[DifferentialD]b", "∫", "=.", "= .", ":=.", "^=.", "a/:b=c", "a/:b:=c", "a/:b=.", "a/:b",
    "~f~", "a:b:c", "a_:b", ";;", ";;;", ";;;;", ",,", "_a.", "__.", "___.", "_..", "_...", "a_b_c", "!!a", "!!!a", "----a", "++++", "1/2/3", "a-b-c", "-1", "- 1",
    "/.5", "a/.5", "a;;b;;c", "1;;-1", "{,}", "[,]", "f[,1]", "f[1,]", "(,)", "()", "( )", "[[", "]]", "f[[1]]", "f[[1]", "f[ [1] ]", "\\[Because]", "\\[Therefore]",
    "\\[Not]", "¬", "±", "×", "÷", "\\[Times]", "\\[Divide]", "\\[Rule]", "\u{f522}", "\\[RuleDelayed]", "\\[Equal]", "\\[Function]", "\\[Limit]", "\\[AutoLeftMatch]",
    "\\[InvisibleComma]", "\\[InvisibleTimes]", "\\[InvisibleApplication]", "\\[ImplicitPlus]", "\\[Sum]", "\\[Product]", "\\[Square]", "\\[Sqrt]", "\\[RawLeftParenthesis]",
    "\\[RawDoubleQuote]", "\\[RawBackslash]", "\\[RawReturn]", "\\[RawEscape]", "\\[RawDot]", "\\[RawComma]", "\\[RawAmpersand]", "\\[RawPlus]", "\\:0022", "\\:005c", "\\:000a",
    "\\.22", "\\.5c", "\\.0d", "\\042", "\\134", "\\012", "\\:0028", "\\.2b", "\\053", "\\[Continuation]", "\\[ErrorIndicator]", "\\[LeftSkeleton]", "\\[SkeletonIndicator]",
];

pub fn long_op(r: &mut Rng) -> String {
    let ln = r.pick(longnames());
    form_of(r, ln)
}

/// Some concrete spelling of a long-name character.
pub fn form_of(r: &mut Rng, ln: &LongName) -> String {
    match (r.below(5), ln.ch) {
        (0..=2, _) | (_, None) => format!("\\[{}]", ln.name),
        (3, Some(c)) => c.to_string(),
        (_, Some(c)) => {
            let v = c as u32;
            match r.below(3) {
                0 if v <= 0xff => format!("\\.{:02x}", v),
                1 if v <= 0x1ff => format!("\\{:03o}", v),
                2 => format!("\\|{:06x}", v),
                _ if v <= 0xffff => format!("\\:{:04x}", v),
                _ => format!("\\|{:06x}", v),
            }
        },
    }
}

pub fn soup_item(r: &mut Rng) -> String {
    match r.below(20) {
        0..=5 => r.pick(ATOMS).to_string(),
        6..=10 => r.pick(OPS).to_string(),
        11..=12 => {
            let b = r.pick(BRACKETS);
            if r.chance(1, 2) { b.0.to_string() } else { b.1.to_string() }
        },
        13..=15 => r.pick(TRIVIA).to_string(),
        16..=17 => r.pick(WEIRD).to_string(),
        _ => long_op(r),
    }
}

pub fn soup(r: &mut Rng, max: usize) -> Vec<u8> {
    let n = r.len(max);
    let mut s = String::new();
    for _ in 0..n {
        s.push_str(&soup_item(r));
    }
    s.into_bytes()
}

/// Balanced but otherwise arbitrary text: brackets always close.
pub fn balanced(r: &mut Rng, depth: usize, out: &mut String, size: &mut isize) {
    let n = r.range(1, 6);
    for _ in 0..n {
        *size -= 1;
        if *size <= 0 {
            out.push('a');
            return;
        }
        match r.below(12) {
            0..=3 => out.push_str(*r.pick(ATOMS)),
            4..=6 => out.push_str(*r.pick(OPS)),
            7..=8 if depth > 0 => {
                let b = BRACKETS[r.below(16)];
                out.push_str(b.0);
                if !r.chance(1, 6) {
                    balanced(r, depth - 1, out, size);
                }
                out.push_str(b.1);
            },
            9 => {
                let l = long_op(r);
                out.push_str(&l)
            },
            10 => out.push_str(*r.pick(TRIVIA)),
            _ => out.push_str(if r.chance(1, 2) { " " } else { "a" }),
        }
    }
}

pub fn gen_balanced(r: &mut Rng, max: usize) -> Vec<u8> {
    let mut out = String::new();
    let mut size = (2 + r.len(max)) as isize;
    let lines = r.range(1, 3);
    for i in 0..lines {
        if i > 0 {
            out.push('\n');
        }
        balanced(r, 4, &mut out, &mut size);
    }
    out.into_bytes()
}

/// Mutate UTF-8 text by splicing, deleting, duplicating, inserting vocabulary.
pub fn mutate_text(r: &mut Rng, base: &[u8]) -> Vec<u8> {
    let mut s = match std::str::from_utf8(base) {
        Ok(s) => s.chars().collect::<Vec<char>>(),
        Err(_) => return mutate_bytes(r, base),
    };
    let n = r.range(0, 4);
    for _ in 0..n {
        let len = s.len();
        match r.below(7) {
            0 if len > 0 => {
                let i = r.below(len);
                s.remove(i);
            },
            1 if len > 0 => {
                let i = r.below(len);
                let j = (i + r.range(1, 8)).min(len);
                s.drain(i..j);
            },
            2 if len > 0 => {
                let i = r.below(len);
                let j = (i + r.range(1, 12)).min(len);
                let part: Vec<char> = s[i..j].to_vec();
                let k = r.below(len);
                s.splice(k..k, part);
            },
            3 => {
                let other = r.pick(corpus());
                if let Ok(o) = std::str::from_utf8(other) {
                    let o: Vec<char> = o.chars().take(60).collect();
                    let k = r.below(len + 1);
                    s.splice(k..k, o);
                }
            },
            _ => {
                let item: Vec<char> = soup_item(r).chars().collect();
                let k = r.below(len + 1);
                s.splice(k..k, item);
            },
        }
    }
    s.into_iter().collect::<String>().into_bytes()
}

pub fn mutate_bytes(r: &mut Rng, base: &[u8]) -> Vec<u8> {
    let mut s = base.to_vec();
    for _ in 0..r.range(1, 4) {
        let len = s.len();
        match r.below(5) {
            0 if len > 0 => {
                let i = r.below(len);
                s[i] = r.next() as u8;
            },
            1 if len > 0 => {
                let i = r.below(len);
                s.remove(i);
            },
            2 if len > 0 => {
                let i = r.below(len);
                s.truncate(i);
            },
            3 => {
                let k = r.below(len + 1);
                s.insert(k, r.next() as u8);
            },
            _ => {
                let k = r.below(len + 1);
                let x: &[u8] = *r.pick(BAD_UTF8);
                s.splice(k..k, x.iter().copied());
            },
        }
    }
    s
}

pub const BAD_UTF8: &[&[u8]] = &[
    b"\x80", b"\xbf", b"\xc0\x80", b"\xc1\xbf", b"\xc2", b"\xc3\x28", b"\xe0\x80\x80", b"\xe0\x9f\xbf", b"\xe2\x82", b"\xe2\x28\xa1",
    b"\xed\xa0\x80", b"\xed\xbf\xbf", b"\xed\xa0\x80\xed\xb0\x80", b"\xef\xbb", b"\xef\xbb\xbf", b"\xf0\x80\x80\x80", b"\xf0\x8f\xbf\xbf", b"\xf0\x9f\x98", b"\xf0\x9f",
    b"\xf0", b"\xf4\x90\x80\x80", b"\xf5\x80\x80\x80", b"\xf8\x88\x80\x80\x80", b"\xfe", b"\xff", b"\xf0\x28\x8c\xbc", b"\xf0\x90\x28\xbc", b"\xf0\x28\x8c\x28",
    b"\xe2", b"\xe2\x82\x28", b"\xf1\x80\x80\x80", b"\xf3\xbf\xbf\xbf", b"\xf4\x8f\xbf\xbf", b"\xef\xbf\xbe", b"\xef\xbf\xbf", b"\xef\xb7\x90",
];

pub fn any_scalar(r: &mut Rng) -> char {
    loop {
        let v = match r.below(6) {
            0 => r.below(0x80),
            1 => r.below(0x800),
            2 => r.below(0x10000),
            3 => 0xf300 + r.below(0x600),
            4 => 0x2000 + r.below(0x800),
            _ => r.below(0x110000),
        } as u32;
        if let Some(c) = char::from_u32(v) {
            return c;
        }
    }
}

/// Valid UTF-8 text, any flavour.
pub fn text(r: &mut Rng, max: usize) -> Vec<u8> {
    match r.below(14) {
        10..=13 => source(r),
        0..=2 => soup(r, max),
        3..=5 => gen_balanced(r, max),
        6..=7 => {
            let b = r.pick(corpus()).clone();
            let m = mutate_text(r, &b);
            match String::from_utf8(m) {
                Ok(s) => s.into_bytes(),
                Err(_) => soup(r, max),
            }
        },
        8 => {
            let s = soup(r, max);
            mutate_text(r, &s)
        },
        _ => {
            let n = r.len(max);
            let mut s = String::new();
            for _ in 0..n {
                if r.chance(1, 2) {
                    s.push(any_scalar(r));
                } else {
                    s.push_str(&soup_item(r));
                }
            }
            s.into_bytes()
        },
    }
}

/// Arbitrary bytes, often not valid UTF-8.
pub fn bytes(r: &mut Rng, max: usize) -> Vec<u8> {
    match r.below(4) {
        0 => {
            let n = r.len(max);
            (0..n).map(|_| r.next() as u8).collect()
        },
        1 => {
            let n = r.len(max);
            let mut v = Vec::new();
            for _ in 0..n {
                if r.chance(1, 3) {
                    let x: &[u8] = *r.pick(BAD_UTF8); v.extend_from_slice(x);
                } else {
                    v.extend_from_slice(soup_item(r).as_bytes());
                }
            }
            v
        },
        _ => {
            let t = text(r, max);
            mutate_bytes(r, &t)
        },
    }
}

// ---- structured expressions ---------------------------------------------------------------------

const SHORT: &[(&str, &str)] = &[
    ("Minus", "-"), ("Plus", "+"), ("Bang", "!"), ("PlusPlus", "++"), ("MinusMinus", "--"), ("BangBang", "!!"), ("LinearSyntax_Bang", "\\!"), ("Slash", "/"),
    ("Caret", "^"), ("CaretEqual", "^="), ("CaretColonEqual", "^:="), ("SlashAt", "/@"), ("MinusGreater", "->"), ("AtAt", "@@"), ("SlashSemi", "/;"),
    ("SlashDot", "/."), ("ColonGreater", ":>"), ("SlashSlashDot", "//."), ("PlusEqual", "+="), ("StarEqual", "*="), ("MinusEqual", "-="), ("SlashEqual", "/="),
    ("LessMinusGreater", "<->"), ("SlashSlashAt", "//@"), ("At", "@"), ("AtAtAt", "@@@"), ("SlashSlash", "//"), ("Question", "?"), ("BarMinusGreater", "|->"),
    ("SlashSlashEqual", "//="), ("EqualEqualEqual", "==="), ("EqualBangEqual", "=!="), ("Dot", "."), ("StarStar", "**"), ("AmpAmp", "&&"), ("BarBar", "||"),
    ("Bar", "|"), ("LessGreater", "<>"), ("TildeTilde", "~~"), ("AtStar", "@*"), ("SlashStar", "/*"), ("BangEqual", "!="), ("EqualEqual", "=="), ("Greater", ">"),
    ("GreaterEqual", ">="), ("LessEqual", "<="), ("Less", "<"), ("Amp", "&"), ("DotDot", ".."), ("DotDotDot", "..."), ("SingleQuote", "'"),
    ("Fake_ImplicitTimes", " "), ("Star", "*"), ("Semi", ";"), ("SemiSemi", ";;"), ("Comma", ","), ("Tilde", "~"), ("Colon", ":"), ("Equal", "="), ("ColonEqual", ":="),
    ("ColonColon", "::"), ("SlashColon", "/:"), ("GreaterGreater", ">>"), ("GreaterGreaterGreater", ">>>"), ("LessLess", "<<"), ("Hash", "#"), ("HashHash", "##"),
    ("Percent", "%"), ("PercentPercent", "%%"), ("Under", "_"), ("UnderUnder", "__"), ("UnderUnderUnder", "___"), ("UnderDot", "_."), ("QuestionQuestion", "??"),
    ("OpenParen", "("), ("CloseParen", ")"), ("OpenSquare", "["), ("CloseSquare", "]"), ("OpenCurly", "{"), ("CloseCurly", "}"), ("LessBar", "<|"), ("BarGreater", "|>"),
    ("ColonColonOpenSquare", "::["),
];

/// The plain spelling of a token kind.
pub fn spell(kind: &str) -> String {
    match kind.strip_prefix("LongName_") {
        Some(n) => format!("\\[{n}]"),
        None => SHORT.iter().find(|s| s.0 == kind).unwrap_or_else(|| panic!("no spelling for {kind}")).1.to_string(),
    }
}

/// Every token kind an operator position can hold, with the plain spelling.
pub fn op_kinds() -> &'static Vec<&'static str> {
    static T: OnceLock<Vec<&'static str>> = OnceLock::new();
    T.get_or_init(|| {
        let mut v: Vec<&'static str> = crate::model::parse::ops().iter().map(|o| o.kind).collect();
        v.extend(SHORT.iter().map(|s| s.0));
        v.extend(
            [
                "Times", "InvisibleTimes", "InvisibleComma", "Integral", "ContourIntegral", "DoubleContourIntegral", "ClockwiseContourIntegral",
                "CounterClockwiseContourIntegral", "LeftDoubleBracket", "RightDoubleBracket", "LeftFloor", "RightFloor", "Limit", "PartialD",
            ]
            .iter()
            .map(|n| &*Box::leak(format!("LongName_{n}").into_boxed_str())),
        );
        v.sort();
        v.dedup();
        v
    })
}

fn op_text(r: &mut Rng, kind: &'static str) -> String {
    match kind.strip_prefix("LongName_").and_then(longname_char) {
        Some(l) => form_of(r, l),
        None => spell(kind),
    }
}

const PLAIN: &[&str] = &["a", "b", "c", "x", "f", "1", "2", "0", "1.5", "\"s\"", "#", "#1", "##", "%", "_", "a_", "a_b", "_.", "a_.", "x__", "Pi", "\\[Alpha]", "%%"];
/// operators people write
const COMMON: &[&str] = &[
    "Plus", "Minus", "Star", "Slash", "Caret", "Equal", "ColonEqual", "MinusGreater", "At", "SlashAt", "AtAt", "SlashSlash", "Semi", "SemiSemi", "EqualEqual", "Less",
    "LessEqual", "AmpAmp", "BarBar", "Bang", "Amp", "Comma", "Dot", "Colon", "Tilde", "SlashColon", "SlashDot", "Question", "Bar", "TildeTilde", "LessGreater",
];

/// Operators that go together in one node, or in one expression.
const FAMILIES: &[&[&str]] = &[
    &["<", "<=", ">", ">=", "==", "!="],
    &["<", ">", "\\[LessTilde]", "\\[GreaterTilde]", "\\[LessEqual]", "\\[NotLess]", "\\[VectorLess]", "\\[Equal]", "==", "\\[LongEqual]", "\\[LessSlantEqual]"],
    &["\\[VectorLess]", "\\[VectorGreater]", "\\[VectorLessEqual]", "\\[VectorGreaterEqual]"],
    &["+", "-", "\\[Minus]", "\\[ImplicitPlus]"],
    &["*", " ", "/", "\\[Times]", "\\[InvisibleTimes]", "\\[Divide]"],
    &["&&", "\\[And]", "||", "\\[Or]", "\\[Nand]", "\\[Xor]"],
    &[";", ";\n", ";;", ","],
    &[",", "\\[InvisibleComma]", ", ,"],
    &["@", "@@", "@@@", "/@", "//@", "\\[InvisibleApplication]", "//"],
    &["->", ":>", "\\[Rule]", "\\[RuleDelayed]", "=", ":=", "^=", "^:="],
    &["/.", "//.", "/;", "/:"],
    &["===", "=!=", "==", "\\[Congruent]"],
    &["~f~", "~", "~~", "<>"],
    &[".", "**", "^", "\\[Cross]", "\\[CircleTimes]"],
    &["\\[Element]", "\\[NotElement]", "\\[Subset]", "\\[Union]", "\\[Intersection]"],
    &["\\[RightArrow]", "\\[LeftArrow]", "\\[DoubleRightArrow]", "\\[DirectedEdge]"],
    &["|", ":", "?", "|->", "\\[Conditioned]"],
    &["::", "::\"x\"::", "'", "!"],
];

pub struct Exprs {
    pub out: Vec<String>,
    budget: isize,
    /// out of 100: an operator from the whole table instead of a common one
    exotic: usize,
    /// out of 1000, per construct: leave something out or put something odd in
    spoil: usize,
}

impl Exprs {
    fn w(&mut self, s: &str) {
        self.out.push(s.to_string());
    }
    fn odd(&mut self, r: &mut Rng) -> bool {
        r.below(1000) < self.spoil
    }
    fn op(&mut self, r: &mut Rng, class: &str) -> &'static str {
        let ops = crate::model::parse::ops();
        loop {
            let o = r.pick(ops);
            if o.class == class && (r.below(100) < self.exotic || !o.kind.starts_with("LongName_")) {
                return o.kind;
            }
        }
    }
    pub fn expr(&mut self, r: &mut Rng, depth: usize) {
        self.budget -= 1;
        if self.odd(r) {
            match r.below(4) {
                0 => return,
                1 => {
                    let k = *r.pick(op_kinds());
                    let t = op_text(r, k);
                    self.out.push(t);
                },
                2 => {
                    let i = soup_item(r);
                    self.out.push(i);
                },
                _ => {
                    let k = *r.pick(COMMON);
                    self.out.push(spell(k));
                },
            }
        }
        if depth == 0 || self.budget <= 0 {
            return self.atom(r);
        }
        let d = depth - 1;
        match r.below(30) {
            0..=3 => self.atom(r),
            4..=5 => {
                let k = self.op(r, "Prefix");
                let t = op_text(r, k);
                self.out.push(t);
                self.expr(r, d);
            },
            6..=7 => {
                self.expr(r, d);
                let k = self.op(r, "Postfix");
                let t = op_text(r, k);
                self.out.push(t);
            },
            8..=11 => {
                self.expr(r, d);
                let k = self.op(r, "Binary");
                let t = op_text(r, k);
                self.out.push(t);
                self.expr(r, d);
            },
            12..=14 => {
                let k = self.op(r, "Infix");
                self.chain(r, d, k);
            },
            15..=16 => {
                let k = *r.pick(&["Plus", "Minus", "Star", "Fake_ImplicitTimes", "LongName_Times", "LongName_InvisibleTimes"]);
                self.chain(r, d, k);
            },
            17..=18 => {
                let k = if r.chance(1, 2) { &crate::model::parse::GROUPS[0] } else { r.pick(crate::model::parse::GROUPS) };
                self.group(r, d, k);
            },
            19..=21 => {
                let dd = if r.chance(1, 2) { 0 } else { d };
 self.expr(r, dd);
                let k = &crate::model::parse::GROUPS[*r.pick(&[1, 1, 1, 1, 4, 8])];
                let k2 = r.chance(1, 5) && k.0 == "OpenSquare";
                if k2 {
                    self.w("[");
                }
                self.group(r, d, k);
                if k2 {
                    self.w("]");
                }
            },
            22 => {
                // spans
                let n = r.range(1, 4);
                for i in 0..n {
                    if !r.chance(1, 3) {
                        let dd = if r.chance(1, 2) { 0 } else { d };
 self.expr(r, dd);
                    }
                    if i + 1 < n || n == 1 {
                        self.w(";;");
                    }
                }
            },
            23 => {
                self.expr(r, d);
                for _ in 0..r.range(1, 3) {
                    self.w(";");
                    if r.chance(2, 3) {
                        self.expr(r, d);
                    }
                }
            },
            24 => {
                self.expr(r, d);
                self.w("~");
                self.expr(r, d);
                if !self.odd(r) {
                    self.w("~");
                    self.expr(r, d);
                }
            },
            25 => {
                let dd = if r.chance(2, 3) { 0 } else { d };
 self.expr(r, dd);
                for _ in 0..r.range(1, 2) {
                    self.w(":");
                    self.expr(r, d);
                }
            },
            26 => {
                if r.chance(1, 2) {
                    self.expr(r, d);
                    self.w("/:");
                }
                self.expr(r, d);
                match r.below(4) {
                    0 => self.w("=."),
                    1 => {
                        self.w("=");
                        self.w(".");
                    },
                    2 => {
                        self.w("=");
                        self.expr(r, d);
                    },
                    _ => {
                        self.w(":=");
                        self.expr(r, d);
                    },
                }
            },
            27 => {
                let k = *r.pick(&["Integral", "ContourIntegral", "DoubleContourIntegral", "ClockwiseContourIntegral", "CounterClockwiseContourIntegral"]);
                self.out.push(format!("\\[{k}]"));
                if !r.chance(1, 6) {
                    self.expr(r, d);
                }
                if r.chance(3, 4) {
                    self.w(if r.chance(2, 3) { "\\[DifferentialD]" } else { "\\[CapitalDifferentialD]" });
                    self.expr(r, d);
                }
            },
            28 => match r.below(4) {
                0 => {
                    let dd = if r.chance(2, 3) { 0 } else { d };
 self.expr(r, dd);
                    for _ in 0..r.range(1, 2) {
                        let t = *r.pick(&["::tag", "::\"tag\"", "::b", "::  c", "::1"]);
                        self.w(t);
                    }
                },
                1 => {
                    let t = *r.pick(&["<<foo`", "<<\"a.m\"", "<< x/y.m", "<<f"]);
                    self.w(t);
                },
                _ => {
                    self.expr(r, d);
                    let t = *r.pick(&[">>out", ">>>out.m", ">> \"o\"", ">>> a/b", ">>!x"]);
                    self.w(t);
                },
            },
            _ => {
                let k = *r.pick(COMMON);
                self.expr(r, d);
                self.out.push(spell(k));
                self.expr(r, d);
            },
        }
    }
    fn atom(&mut self, r: &mut Rng) {
        let a = if r.chance(1, 6) { *r.pick(ATOMS) } else { *r.pick(PLAIN) };
        self.w(a);
    }
    fn chain(&mut self, r: &mut Rng, d: usize, k: &'static str) {
        self.expr(r, d);
        let ops = crate::model::parse::ops();
        for _ in 0..r.range(1, 3) {
            // the same operator, or another one of the same precedence
            let k2 = if r.chance(1, 4) {
                let p = ops.iter().find(|o| o.kind == k && o.class == "Infix").map(|o| o.prec);
                let same: Vec<&'static str> = ops.iter().filter(|o| Some(o.prec) == p && o.class == "Infix").map(|o| o.kind).collect();
                if same.is_empty() { k } else { *r.pick(&same) }
            } else {
                k
            };
            let t = op_text(r, k2);
            self.out.push(t);
            self.expr(r, d);
        }
    }
    fn group(&mut self, r: &mut Rng, d: usize, g: &(&'static str, &'static str, &'static str)) {
        if !self.odd(r) {
            self.out.push(spell(g.0));
        }
        let n = if r.chance(1, 8) { 0 } else { r.range(1, 3) };
        for i in 0..n {
            if i > 0 {
                self.w(if r.chance(1, 30) { "\\[InvisibleComma]" } else { "," });
            }
            if !r.chance(1, 30) {
                self.expr(r, d);
            }
        }
        if !self.odd(r) {
            self.out.push(spell(g.1));
        }
    }
}

/// The words of a mostly well-formed expression.
pub fn expr_words(r: &mut Rng, depth: usize, exotic: usize, spoil: usize) -> Vec<String> {
    let mut e = Exprs { out: vec![], budget: 40, exotic, spoil };
    e.expr(r, depth);
    e.out
}

const GLUE: &[&str] = &["\n", "(*c*)", " (* (*n*) *) ", "\t", "\\\n", " \n ", "\r\n", "\r", "\n\n", "(*a\nb*)", "\\[ThinSpace]", "\u{a0}", "\u{2029}"];

/// Write words down with trivia between them: 0 none at all, 1 single spaces, otherwise a mixture.
pub fn glue(r: &mut Rng, words: &[String], style: usize) -> String {
    let mut s = String::new();
    for (i, w) in words.iter().enumerate() {
        if i > 0 {
            match style {
                0 => {},
                1 => s.push(' '),
                _ => match r.below(8) {
                    0..=2 => {},
                    3..=5 => s.push(' '),
                    6 => s.push_str(*r.pick(&["\n", " ", "(*c*)"])),
                    _ => s.push_str(*r.pick(GLUE)),
                },
            }
        }
        s.push_str(w);
    }
    s
}

/// One to three structured expressions, mostly well formed.
pub fn source(r: &mut Rng) -> Vec<u8> {
    let mut s = String::new();
    for i in 0..(if r.chance(1, 4) { r.range(2, 3) } else { 1 }) {
        if i > 0 {
            s.push_str(*r.pick(&["\n", "\n", "\r\n", " ", "\n(* c *)\n", "\r"]));
        }
        let d = r.range(1, 4);
        let (exotic, spoil) = (*r.pick(&[0, 20, 60]), *r.pick(&[0, 0, 0, 30, 120]));
        let w = expr_words(r, d, exotic, spoil);
        let style = r.below(4);
        s.push_str(&glue(r, &w, style));
    }
    s.into_bytes()
}

/// One construct repeated or nested many times, with the usual text around it: what depends on how many there are.
pub fn scaled(r: &mut Rng) -> Vec<u8> {
    let n = match r.below(12) {
        0..=6 => r.range(5, 14),
        7..=10 => r.range(15, 45),
        _ => r.range(46, 300),
    };
    scaled_by(r, n)
}

// every issue is compared with all those before it, so keep their number down
fn many(unit: &str, n: usize) -> usize {
    match unit {
        _ if !unit.is_ascii() => n.min(1_500),
        "\r" => n.min(1_500),
        "\r\n" => n,
        _ if unit.len() > 1 => n.min(20_000),
        _ => n,
    }
}

/// Large inputs: source far down or far right in a file, and long constructs.
pub fn large(r: &mut Rng) -> Vec<u8> {
    if r.chance(1, 3) {
        let n = *r.pick(&[600, 1100, 1100, 2200]);
        return scaled_by(r, n);
    }
    let n = *r.pick(&[300, 1100, 5_000, 66_000, 66_000, 66_000]);
    let unit = *r.pick(&["\n", "\n", "\n", " ", " ", "\r\n", "\r", "\t", "\n\n", "(*", "\"", "{", "\u{e9}", "a\n", ";\n", "\u{1f600}"]);
    let mut b: Vec<u8> = vec![];
    match unit {
        "(*" => {
            b.extend(b"(*");
            let t = *r.pick(&["c", "\n", "\t", "\u{e9}", " * "]);
            b.extend(t.repeat(many(t, n)).bytes());
            b.extend(b"*)");
        },
        "\"" => {
            b.extend(b"\"");
            let t = *r.pick(&["c", "\n", "\t", "\u{e9}", "\\n", "\\[Alpha]"]);
            b.extend(t.repeat(many(t, n)).bytes());
            b.extend(b"\"");
        },
        "{" => {
            b.extend(b"{1");
            b.extend(r.pick(&[",a", ",\n", "+a", " a", ", \"s\""]).repeat(n.min(20_000)).bytes());
            b.extend(b"}");
        },
        _ => b.extend(unit.repeat(many(unit, n)).bytes()),
    }
    b.extend(r.pick(&["\n", "\n", "+", ";", " ", "\r\n"]).bytes());
    if n < 60_000 && r.chance(2, 3) {
        // much after it
        for _ in 0..r.range(10, 60) {
            b.extend(match r.below(8) {
                0..=2 => r.pick(corpus()).clone(),
                3 if r.chance(1, 8) => scaled(r),
                3 => text(r, 12),
                _ => source(r),
            });
            b.extend(r.pick(&["\n", "\n", "\n\n", "\r\n", ";\n"]).bytes());
        }
    }
    for _ in 0..r.range(1, 4) {
        b.extend(match r.below(6) {
            0 | 1 => text(r, 30),
            2 if r.chance(1, 2) => bytes(r, 20),
            2 => scaled(r),
            _ => source(r),
        });
        b.extend(r.pick(&["\n", "\n", ";", " "]).bytes());
    }
    b
}

/// Something to come before an input.
pub fn before(r: &mut Rng) -> Vec<u8> {
    let n = match r.below(8) {
        0 => r.range(1, 3),
        1..=3 => r.range(4, 40),
        4 | 5 => r.range(41, 160),
        6 => r.range(161, 700),
        _ => 6_000,
    };
    let t = *r.pick(&[
        "\n", "\n", "\n", " ", " ", "\t", "\r\n", "\r", "\\\n", "a;\n", "a;\n", "{", "f[", "(", "\"s\",", "1+", "\u{3b1}", "\u{e9}\n", "(*", "(*c*)", "\"", "\n(*c*)\"s\"\n", "x\ty\n", "\\[Alpha]+", "\\:03b1 ", "-", "x=", "12 ",
    ]);
    let few = ["{", "f[", "(", "1+", "-", "x="].contains(&t);
    let mut b = vec![];
    match t {
        "(*" => {
            b.extend(b"(*");
            b.extend(r.pick(&["c", "\n", "\t", "\u{e9}", " (**) "]).repeat(n).bytes());
            b.extend(b"*)");
        },
        "\"" => {
            b.extend(b"\"");
            b.extend(r.pick(&["c", "\n", "\t", "\u{e9}", "\\n"]).repeat(n).bytes());
            b.extend(b"\"\n");
        },
        _ => b.extend(t.repeat(if few { 1 + n % 40 } else { n.min(2_000) }).bytes()),
    }
    if r.chance(1, 3) {
        b.extend(r.pick(&["\n", ";", " ", "\r\n", "+", ","]).bytes());
    }
    b
}

fn scaled_by(r: &mut Rng, n: usize) -> Vec<u8> {
    let atom = |r: &mut Rng| (*r.pick(PLAIN)).to_string();
    let sep = *r.pick(&["", "", " ", " "]);
    let mut s = String::new();
    if r.chance(1, 6) {
        s.push_str(*r.pick(&["a+", "f[", "{x,", "-", "b*", "\n", "x=", "(", "\"s\" "]));
    }
    match r.below(22) {
        // operators of one family, all the same but for one or two
        20 | 21 => {
            let fam = *r.pick(FAMILIES);
            let k = *r.pick(fam);
            let mut ops = vec![k; n];
            for _ in 0..r.range(1, 2) {
                let at = match r.below(3) {
                    0 => n - 1,
                    1 => 0,
                    _ => r.below(n),
                };
                ops[at] = *r.pick(fam);
            }
            for (i, k) in ops.iter().enumerate() {
                if i > 0 || r.chance(9, 10) {
                    s.push_str(&atom(r));
                }
                s.push_str(sep);
                s.push_str(k);
                s.push_str(sep);
            }
            s.push_str(&atom(r));
        },
        // one operator between many operands
        0..=2 => {
            let k = if r.chance(1, 2) { *r.pick(COMMON) } else { *r.pick(op_kinds()) };
            let k2 = if r.chance(1, 3) { *r.pick(COMMON) } else { k };
            for i in 0..n {
                if i > 0 {
                    let t = if r.chance(1, 4) { k2 } else { k };
                    s.push_str(sep);
                    s.push_str(&op_text(r, t));
                    s.push_str(sep);
                }
                if !r.chance(1, 60) {
                    s.push_str(&atom(r));
                }
            }
        },
        // many postfix marks
        3 => {
            s.push_str(*r.pick(&["f", "a", "x_", "1", "f[x]", "{a}"]));
            let t = *r.pick(&["'", "!", "!!", "..", "...", "&", "++", "--", "\\[Transpose]", "[1]", "[[2]]", "[]", " =.", "^2", "_", "'[x]", "::[a]"]);
            for _ in 0..n {
                s.push_str(t);
                s.push_str(sep);
            }
        },
        // many prefix marks
        4 => {
            let t = *r.pick(&["-", "- ", "+ ", "!", "! ", "++", "--", "\\[Not]", "\\[Sqrt]", "\\[Del]", ";;", "f@", "f@@", "f/@", "a=", "a:=", "a->", "x^", "a/:", "\\[PlusMinus]", "a?", "@", "?", "* "]);
            for _ in 0..n {
                s.push_str(t);
            }
            s.push_str(&atom(r));
        },
        // nested groups
        5 | 6 => {
            let (o, c) = *r.pick(&[("(", ")"), ("{", "}"), ("f[", "]"), ("a[[", "]]"), ("<|", "|>"), ("\\[LeftFloor]", "\\[RightFloor]"), ("(a+", ")"), ("{1,", "}"), ("-(", ")"), ("a::[", "]"), ("(*", "*)"), ("f[x,", "]"), ("\\(", "\\)"), ("[", "]")]);
            let n = if n > 300 { n.min(700) } else { n.min(120) };
            s.push_str(&o.repeat(n));
            s.push_str(&atom(r));
            s.push_str(&c.repeat(n - if r.chance(1, 20) { 1 } else { 0 }));
        },
        // many items
        7 => {
            let (o, c) = *r.pick(&[("{", "}"), ("f[", "]"), ("a[[", "]]"), ("(", ")"), ("<|", "|>"), ("f'[", "]")]);
            s.push_str(o);
            for i in 0..n {
                if i > 0 {
                    s.push_str(*r.pick(&[",", ",", ",", ", ", ",\n"]));
                }
                if !r.chance(1, 40) {
                    s.push_str(&atom(r));
                }
            }
            s.push_str(c);
        },
        // long numbers
        8 => {
            let d = |r: &mut Rng, n: usize| (0..n).map(|_| (b'0' + r.below(10) as u8) as char).collect::<String>();
            match r.below(8) {
                0 => s += &d(r, n),
                1 => s += &format!("{}.{}", d(r, n), d(r, 3)),
                2 => s += &format!("{}.{}", d(r, 2), d(r, n)),
                3 => s += &format!("16^^{}", d(r, n)),
                4 => s += &format!("1.5`{}", d(r, n)),
                5 => s += &format!("2*^{}", d(r, n.min(12))),
                6 => s += &format!("{}{}", "0".repeat(n), d(r, 3)),
                _ => s += &format!("#{}+%{}+##{}", d(r, n), d(r, n), d(r, n)),
            }
        },
        // long names
        9 => {
            let t = *r.pick(&["a`", "abc", "b1", "$", "\\[Alpha]", "`a", "::b", "::\"t\"", "\u{3b1}", "~f~x", "#", "%", "##"]);
            s.push('a');
            s.push_str(&t.repeat(n));
            if t.ends_with('`') {
                s.push('z');
            }
        },
        // long strings and comments
        10 => {
            let t = *r.pick(&["a", "\\n", "\\\"", "\\\\", "\\[Alpha]", "\t", "\n", "\r\n", "\\:03b1", "\\\n", "(*", "\u{1f600}", "\\<", "\\101"]);
            s.push('"');
            s.push_str(&t.repeat(n));
            s.push('"');
        },
        11 => {
            let t = *r.pick(&["a", " ", "\n", "\t", "*", "(", ")", "\"", "\\", "\u{e9}", "(*x*)", "\r"]);
            s.push_str("(*");
            s.push_str(&t.repeat(n));
            s.push_str("*)");
        },
        // marks made of repeated characters
        12 => {
            let t = *r.pick(&["%", "#", "_", ".", ";", "=", "!", "+", "-", "&", "|", ":", "'", "@", "~", "<", ">", "/", "*", "^", "?", "`", ",", "\\", "$", ")", "]", "}"]);
            s.push_str(&t.repeat(n));
            s.push_str(&atom(r));
        },
        // much white space
        13 => {
            let t = *r.pick(&[" ", "\n", "\t", "\r\n", "\\\n", "(**)", "\r", " \n", "\u{2003}", "\\[ThinSpace]"]);
            s.push('a');
            s.push_str(&t.repeat(n));
            s.push_str(*r.pick(&["b", "+b", ",", "", "[x]", "!", "_"]));
        },
        // many lines
        14 => {
            for _ in 0..if n > 300 { n } else { n.min(60) } {
                s.push_str(*r.pick(&["a", "b=1", "f[x_]:=x", "(*c*)", "", "{1,2}", "x;", "\"s\"", "1+2", "a\tb", "f[", "]"]));
                s.push_str(*r.pick(&["\n", "\n", "\n", "\r\n", "\r"]));
            }
        },
        // the same piece of source again and again
        15..=17 => {
            let unit = match r.below(6) {
                0 => String::from_utf8_lossy(&text(r, 12)).into_owned(),
                1 => String::from_utf8_lossy(&soup(r, 4)).into_owned(),
                2 => {
                    let c = corpus();
                    let b = r.pick(c);
                    String::from_utf8_lossy(&b[..b.len().min(60)]).into_owned()
                },
                3 | 4 => (*r.pick(&[
                    "\"\t\"", "\"\n\"", "(*\t*)", "(*\n*)", "\"a\\\nb\"", "a\\\nb", "1\\\n2", "\"\r\n\"", "(* (*\t\n*) *)", "a::b\\\nc", "+\\\n+", "\"\\[Alpha]\"", "\\[Alpha]\\\n", "#\\\n1", "a\u{200b}", "\\[Foo]", "1.2.3",
                    "f[x]", "a_.", "a/b", "a-b", "-a", "f[[1]]", "a;;b", "%%", "f'", "\"s\"::t", "x=1", "f@x", "f@@@x", "a~f~b", "a b", "{}", "<||>", "!a", "a=.", "\\(x\\)", ")", "f[", "\"",
                ]))
                .to_string(),
                _ => {
                    let d = r.range(1, 2);
                    let w = expr_words(r, d, 20, 30);
                    let style = r.below(4);
                    glue(r, &w, style)
                },
            };
            let sep = *r.pick(&["\n", "\n", "\r\n", "\r", " ", ";", ",", "+", "", ";\n", "\n\n", " (*c*) ", ",\n"]);
            let n = n.min(6_000 / (unit.len() + 1) + 8).min(if unit.is_ascii() { 2_000 } else { 700 });
            let wrap = *r.pick(&[("", ""), ("", ""), ("", ""), ("{", "}"), ("f[", "]"), ("(", ")")]);
            s.push_str(wrap.0);
            for i in 0..n {
                if i > 0 {
                    s.push_str(sep);
                }
                s.push_str(&unit);
            }
            s.push_str(wrap.1);
        },
        // the same malformed thing
        _ => {
            let t = *r.pick(&["\\[Foo]", "\\:12", "\\x", "1^^", "a::", ")", "f[,]", "{,}", "\\[", "\\.1", "\\|1", "\u{e000}", "a b ", "1.2.", "_ .", "\\)", "\\@ ", "\u{200b}", "\r", "#a", "$a", "\\[Gamma]"]);
            s.push_str(&t.repeat(if n > 300 { n.min(600) } else { n.min(40) }));
        },
    }
    if r.chance(1, 6) {
        s.push_str(*r.pick(&["+b", "]", "}", "\n", ";", "[y]", ")", " c", "=1"]));
    }
    s.into_bytes()
}
