//! Reference lexer: the token that starts at a byte offset. Written from the language's lexical rules.

use super::chars::*;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Mode {
    /// ordinary source text
    Normal,
    /// directly after `#`: names become strings, numbers stop after the digits
    Slot,
    /// directly after `##` or `%`: numbers stop after the digits
    Digits,
}

/// "Newline" stands for a newline token, whatever its context.
pub const NEWLINE: &str = "Newline";

pub struct Cur<'a> {
    pub b: &'a [u8],
    pub i: usize,
    /// places worth a remark: 'A' ambiguous, 'S' sign of a precision, 'T' suspicious product
    pub notes: Vec<(char, usize)>,
}

impl<'a> Cur<'a> {
    pub fn at(b: &'a [u8], i: usize) -> Cur<'a> {
        Cur { b, i, notes: vec![] }
    }
    /// The next character, where line continuations (and the indentation after them) do not exist.
    pub fn take(&mut self) -> Wl {
        loop {
            let (w, j) = wl_at(self.b, self.i);
            self.i = j;
            if !matches!(w.pt, Pt::Lc(_)) {
                return w;
            }
            loop {
                let (w, j) = wl_at(self.b, self.i);
                if !matches!(w.pt, Pt::Ch(' ' | '\t' | '\u{b}' | '\u{c}')) {
                    break;
                }
                self.i = j;
            }
        }
    }
    pub fn peek(&self) -> Wl {
        Cur::at(self.b, self.i).take()
    }
    fn eat(&mut self, c: char) -> bool {
        let r = self.peek().is(c);
        if r {
            self.take();
        }
        r
    }
    fn digits(&mut self) -> usize {
        let mut n = 0;
        while self.peek().digit() {
            self.take();
            n += 1;
        }
        n
    }
}

/// Kind and end of the token that starts at byte `i`.
pub fn token(b: &[u8], i: usize, mode: Mode) -> (&'static str, usize) {
    let mut c = Cur::at(b, i);
    let w = c.take();
    let k = one(&mut c, i, w, mode);
    (k, c.i)
}

/// Remarks about the number that starts at byte `i`.
pub fn notes(b: &[u8], i: usize, mode: Mode) -> Vec<(char, usize)> {
    let mut c = Cur::at(b, i);
    let w = c.take();
    one(&mut c, i, w, mode);
    c.notes
}

fn one(c: &mut Cur, start: usize, w: Wl, mode: Mode) -> &'static str {
    let ch = match w.pt {
        Pt::Ch(ch) => ch,
        Pt::Eof => return "EndOfFile",
        Pt::Unsafe(_) => return "Error_UnsafeCharacterEncoding",
        Pt::Crlf => return NEWLINE,
        Pt::LinearSpace => return "LinearSyntax_Space",
        Pt::Meta(_) => return "Error_UnhandledCharacter",
        Pt::Lc(_) => unreachable!(),
    };
    match ch {
        '0'..='9' => return number(c, start, w, mode),
        '"' => return string(c),
        '`' => return symbol(c, w, mode),
        '\u{7}' | '\u{7f}' => return "Error_UnhandledCharacter",
        ' ' | '\t' | '\u{b}' | '\u{c}' => return "Whitespace",
        '\n' | '\r' => return NEWLINE,
        '\\' => return stray_backslash(c),
        '[' => return "OpenSquare",
        ']' => return "CloseSquare",
        '{' => return "OpenCurly",
        '}' => return "CloseCurly",
        ')' => return "CloseParen",
        ',' => return "Comma",
        '\'' => return "SingleQuote",
        '(' => {
            // a comment opens only with the two characters themselves
            if w.esc == Esc::None && src_at(c.b, c.i).0 == Pt::Ch('*') {
                return comment(c);
            }
            return "OpenParen";
        },
        '.' => {
            if c.peek().digit() {
                return number(c, start, w, mode);
            }
        },
        '%' => {
            let mut n = 1;
            while c.eat('%') {
                n += 1;
            }
            return if n == 1 { "Percent" } else { "PercentPercent" };
        },
        '/' => {
            // `/.5` is division by .5
            let save = c.i;
            if c.eat('.') {
                if c.peek().digit() {
                    c.i = save;
                    return "Slash";
                }
                return "SlashDot";
            }
        },
        '\u{f7c9}' => return blob(c),
        _ => {},
    }
    if w.letterlike() {
        return symbol(c, w, mode);
    }
    if ch.is_ascii() {
        return operator(c, ch);
    }
    match class_of(ch) {
        Class::White => "Whitespace",
        Class::Newline => NEWLINE,
        Class::Uninterpretable => "Error_UnhandledCharacter",
        Class::Punct => punct_kind(ch),
        Class::Linear => match ch {
            '\u{f7c0}' => "LinearSyntax_CloseParen",
            '\u{f7c1}' => "LinearSyntax_Bang",
            '\u{f7c2}' => "LinearSyntax_At",
            '\u{f7c5}' => "LinearSyntax_Percent",
            '\u{f7c6}' => "LinearSyntax_Caret",
            '\u{f7c7}' => "LinearSyntax_Amp",
            '\u{f7c8}' => "LinearSyntax_Star",
            '\u{f7ca}' => "LinearSyntax_Under",
            '\u{f7cb}' => "LinearSyntax_Plus",
            '\u{f7cc}' => "LinearSyntax_Slash",
            _ => "LinearSyntax_BackTick",
        },
        Class::Letter => unreachable!(),
    }
}

fn punct_kind(c: char) -> &'static str {
    use std::collections::HashMap;
    use std::sync::OnceLock;
    static T: OnceLock<HashMap<char, &'static str>> = OnceLock::new();
    T.get_or_init(|| {
        crate::gen::longnames()
            .iter()
            .filter(|l| l.tag == "punct")
            .filter_map(|l| Some((l.ch?, &*Box::leak(format!("LongName_{}", l.name).into_boxed_str()))))
            .collect()
    })[&c]
}

/// Operators made of ASCII characters: the longest one that matches, given that one can get there step by step.
const ASCII_OPS: &[(&str, &str)] = &[
    ("+", "Plus"), ("++", "PlusPlus"), ("+=", "PlusEqual"),
    ("-", "Minus"), ("->", "MinusGreater"), ("--", "MinusMinus"), ("-=", "MinusEqual"),
    ("*", "Star"), ("*=", "StarEqual"), ("**", "StarStar"), ("*)", "Error_UnexpectedCommentCloser"),
    ("/", "Slash"), ("/@", "SlashAt"), ("/;", "SlashSemi"), ("//", "SlashSlash"), ("//.", "SlashSlashDot"), ("//@", "SlashSlashAt"), ("//=", "SlashSlashEqual"),
    ("/:", "SlashColon"), ("/=", "SlashEqual"), ("/*", "SlashStar"),
    ("^", "Caret"), ("^=", "CaretEqual"), ("^:", "Error_ExpectedEqual"), ("^:=", "CaretColonEqual"),
    ("=", "Equal"), ("==", "EqualEqual"), ("===", "EqualEqualEqual"), ("=!=", "EqualBangEqual"),
    (":", "Colon"), ("::", "ColonColon"), ("::[", "ColonColonOpenSquare"), (":=", "ColonEqual"), (":>", "ColonGreater"),
    (";", "Semi"), (";;", "SemiSemi"),
    ("#", "Hash"), ("##", "HashHash"),
    ("&", "Amp"), ("&&", "AmpAmp"),
    ("!", "Bang"), ("!=", "BangEqual"), ("!!", "BangBang"),
    (".", "Dot"), ("..", "DotDot"), ("...", "DotDotDot"),
    ("_", "Under"), ("__", "UnderUnder"), ("___", "UnderUnderUnder"), ("_.", "UnderDot"),
    ("<", "Less"), ("<|", "LessBar"), ("<<", "LessLess"), ("<>", "LessGreater"), ("<=", "LessEqual"), ("<->", "LessMinusGreater"),
    (">", "Greater"), (">>", "GreaterGreater"), (">>>", "GreaterGreaterGreater"), (">=", "GreaterEqual"),
    ("|", "Bar"), ("|>", "BarGreater"), ("||", "BarBar"), ("|->", "BarMinusGreater"),
    ("@", "At"), ("@@", "AtAt"), ("@@@", "AtAtAt"), ("@*", "AtStar"),
    ("~", "Tilde"), ("~~", "TildeTilde"),
    ("?", "Question"), ("??", "QuestionQuestion"),
];

fn operator(c: &mut Cur, first: char) -> &'static str {
    let mut text = first.to_string();
    let mut kind = ASCII_OPS.iter().find(|o| o.0 == text).map(|o| o.1).unwrap_or_else(|| panic!("no operator {text:?}"));
    // characters of a longer operator that does not complete are given back
    let mut probe = Cur::at(c.b, c.i);
    loop {
        match probe.take().ch() {
            Some(x) if x.is_ascii() => text.push(x),
            _ => return kind,
        }
        if !ASCII_OPS.iter().any(|o| o.0.starts_with(&text)) {
            return kind;
        }
        if let Some(o) = ASCII_OPS.iter().find(|o| o.0 == text) {
            // `_` followed by `.` is one token unless more underscores came before
            kind = o.1;
            c.i = probe.i;
        }
    }
}

fn comment(c: &mut Cur) -> &'static str {
    let b = c.b;
    let mut i = c.i + 1;
    let mut depth = 1;
    while i < b.len() {
        if b[i..].starts_with(b"(*") {
            depth += 1;
            i += 2;
        } else if b[i..].starts_with(b"*)") {
            depth -= 1;
            i += 2;
            if depth == 0 {
                c.i = i;
                return "Comment";
            }
        } else {
            i += 1;
        }
    }
    c.i = b.len();
    "Error_UnterminatedComment"
}

pub fn string(c: &mut Cur) -> &'static str {
    loop {
        match c.take().pt {
            Pt::Ch('"') => return "String",
            Pt::Eof => return "Error_UnterminatedString",
            _ => {},
        }
    }
}

fn blob(c: &mut Cur) -> &'static str {
    let mut depth = 1;
    loop {
        match c.take().pt {
            Pt::Ch('\u{f7c9}') => depth += 1,
            Pt::Ch('\u{f7c0}') => {
                depth -= 1;
                if depth == 0 {
                    return "LinearSyntaxBlob";
                }
            },
            Pt::Eof => return "Error_UnterminatedLinearSyntaxBlob",
            _ => {},
        }
    }
}

/// letters and digits after the first letter; then perhaps a backtick
fn segment(c: &mut Cur) -> bool {
    loop {
        let w = c.peek();
        if w.digit() || w.letterlike() {
            c.take();
        } else {
            return c.eat('`');
        }
    }
}

fn symbol(c: &mut Cur, first: Wl, mode: Mode) -> &'static str {
    let mut tick = if first.is('`') { true } else { segment(c) };
    while tick {
        if !c.peek().letterlike() {
            return "Error_ExpectedLetterlike";
        }
        c.take();
        tick = segment(c);
    }
    if mode == Mode::Slot { "String" } else { "Symbol" }
}

fn stray_backslash(c: &mut Cur) -> &'static str {
    let hex = |w: Wl| matches!(w.pt, Pt::Ch(x) if x.is_ascii_hexdigit());
    let oct = |w: Wl| matches!(w.pt, Pt::Ch('0'..='7'));
    let upto = |c: &mut Cur, n: usize, ok: &dyn Fn(Wl) -> bool| {
        let mut k = 0;
        while k < n && ok(c.peek()) {
            c.take();
            k += 1;
        }
        if k == n {
            c.take();
        }
    };
    match c.take().pt {
        Pt::Ch('[') => {
            let w = c.take();
            if matches!(w.pt, Pt::Ch('A'..='Z')) {
                while c.peek().alnum() {
                    c.take();
                }
                c.eat(']');
            }
        },
        Pt::Ch(':') => upto(c, 4, &hex),
        Pt::Ch('.') => upto(c, 2, &hex),
        Pt::Ch('|') => upto(c, 6, &hex),
        Pt::Ch('0'..='7') => upto(c, 3, &oct),
        _ => {},
    }
    "Error_UnhandledCharacter"
}

struct Num {
    bad: bool,
    real: bool,
    negative: bool,
    exponent_nonzero: bool,
    base: u32,
}

impl Num {
    fn kind(&self) -> &'static str {
        if self.bad {
            "Error_Number"
        } else if self.real {
            "Real"
        } else if self.negative && self.exponent_nonzero {
            "Rational"
        } else {
            "Integer"
        }
    }
    /// digits in the base (0: decimal digits only)
    fn run(&mut self, c: &mut Cur, base: u32) -> usize {
        let mut n = 0;
        loop {
            let w = c.peek();
            match w.pt {
                Pt::Ch(x) if if base == 0 { x.is_ascii_digit() } else { x.is_ascii_alphanumeric() } => {
                    if base != 0 && x.to_digit(36).unwrap() >= base {
                        self.bad = true;
                    }
                    c.take();
                    n += 1;
                },
                _ => return n,
            }
        }
    }
}

fn number(c: &mut Cur, start: usize, first: Wl, mode: Mode) -> &'static str {
    let mut m = Num { bad: false, real: false, negative: false, exponent_nonzero: false, base: 0 };
    let mut digits = 0;
    let mut int_end = start;
    let mut sep = '.';
    let mut star = 0;
    if first.digit() {
        let mut lead = start;
        digits = 1;
        if first.is('0') {
            while c.eat('0') {}
            lead = c.i;
        }
        c.digits();
        int_end = c.i;
        if mode != Mode::Normal {
            return "Integer";
        }
        match c.peek().ch() {
            Some(x @ ('^' | '*' | '.' | '`')) => sep = x,
            _ => return "Integer",
        }
        star = c.i;
        c.take();
        if sep == '^' {
            if !c.eat('^') {
                c.i = int_end;
                return "Integer";
            }
            // the base is written with one or two digits, apart from leading zeros
            // (line continuations may stand before and between them)
            let written: Vec<u32> = c.b[lead..int_end].iter().filter(|x| x.is_ascii_digit()).map(|x| (x - b'0') as u32).collect();
            m.base = match written[..] {
                [x] => x,
                [x, y] => x * 10 + y,
                _ => 0,
            };
            m.bad = !(2..=36).contains(&m.base);
            let w = c.peek();
            if w.alnum() {
                let base = m.base;
                digits = m.run(c, base);
                int_end = c.i;
                match c.peek().ch() {
                    Some(x @ ('*' | '.' | '`')) => sep = x,
                    _ => return m.kind(),
                }
                star = c.i;
                c.take();
            } else if w.is('.') {
                digits = 0;
                int_end = c.i;
                sep = '.';
                c.take();
            } else {
                if w.pt == Pt::Eof {
                    c.take();
                }
                return "Error_Number";
            }
        }
    }
    if sep == '.' {
        // two dots are an operator
        let dot = if first.digit() { star.max(int_end) } else { start };
        if c.peek().is('.') {
            c.notes.push(('A', dot));
            c.i = int_end;
            return if digits == 0 { "Error_Number" } else { m.kind() };
        }
        let base = m.base;
        let n = m.run(c, base);
        if n > 0 && c.peek().is('.') {
            c.notes.push(('T', dot));
        }
        if n == 0 && digits == 0 {
            return "Error_Number";
        }
        m.real = true;
        match c.peek().ch() {
            Some(x @ ('*' | '`')) => sep = x,
            _ => return m.kind(),
        }
        star = c.i;
        c.take();
    }
    if sep == '`' {
        m.real = true;
        let accuracy = c.eat('`');
        let mut sign = None;
        if c.peek().sign() {
            let at = c.i;
            c.take();
            let w = c.peek();
            if w.digit() || w.is('.') {
                if !accuracy {
                    c.notes.push(('S', at));
                }
                sign = Some(at);
            } else if accuracy {
                return "Error_Number";
            } else {
                c.notes.push(('A', at));
                c.i = at;
                return m.kind();
            }
        }
        let mut given = c.digits() > 0;
        if given && !matches!(c.peek().pt, Pt::Ch('.' | '*')) {
            return m.kind();
        }
        if c.peek().is('.') {
            let dot = c.i;
            c.take();
            let w = c.peek();
            if sign.is_none() && !given && !w.digit() {
                if accuracy {
                    return "Error_Number";
                }
                if w.sign() {
                    c.take();
                    return "Error_Number";
                }
                c.notes.push(('A', dot));
                c.i = dot;
                return m.kind();
            }
            if w.is('.') {
                c.notes.push(('A', dot));
                if !given {
                    c.notes.push(('A', sign.unwrap()));
                }
                c.i = if given { dot } else { sign.unwrap() };
                return m.kind();
            }
            let n = m.run(c, 0);
            if n > 0 && c.peek().is('.') {
                c.notes.push(('T', dot));
            }
            given |= n > 0;
            if !given {
                return "Error_Number";
            }
        }
        if accuracy && !given {
            return "Error_Number";
        }
        star = c.i;
        if !c.eat('*') {
            return m.kind();
        }
    }
    // a star: only `*^` belongs to the number
    if !c.eat('^') {
        c.i = star;
        return m.kind();
    }
    if c.peek().sign() {
        m.negative = c.take().is('-');
    }
    if !c.peek().digit() {
        return "Error_Number";
    }
    while c.eat('0') {}
    m.exponent_nonzero = c.digits() > 0;
    if c.peek().is('.') {
        let dot = c.i;
        c.take();
        if c.peek().is('.') {
            c.notes.push(('A', dot));
            c.i = dot;
            return m.kind();
        }
        let base = m.base;
        if m.run(c, base) > 0 && c.peek().is('.') {
            c.notes.push(('T', dot));
        }
        return "Error_Number";
    }
    m.kind()
}

/// The message tag after `::`.
pub fn tag(b: &[u8], i: usize) -> (&'static str, usize) {
    let mut c = Cur::at(b, i);
    let w = c.take();
    if w.is('"') {
        let k = string(&mut c);
        return (k, c.i);
    }
    if w.letterlike() {
        segment(&mut c);
        return ("String", c.i);
    }
    ("Error_ExpectedTag", i)
}

/// The file name after `<<`, `>>` and `>>>`.
pub fn file(b: &[u8], i: usize) -> (&'static str, usize) {
    let ok = |x: char| x.is_ascii_alphanumeric() || "`/.\\!-_:*~?".contains(x);
    let (p, j, _) = src_at(b, i);
    let mut at = i;
    match p {
        Pt::Ch('\n' | '\r') | Pt::Crlf => return (NEWLINE, j),
        Pt::Ch(' ' | '\t') => return ("Whitespace", j),
        Pt::Ch('"') => {
            let mut c = Cur::at(b, j);
            let k = string(&mut c);
            return (k, c.i);
        },
        Pt::Ch('$') => at = j,
        Pt::Ch('[') => {},
        Pt::Ch(x) if ok(x) => {},
        _ => return ("Error_ExpectedFile", i),
    }
    loop {
        let (p, j, _) = src_at(b, at);
        match p {
            Pt::Ch('[') => {
                at = j;
                let mut depth = 1;
                while depth > 0 {
                    let (p, j, _) = src_at(b, at);
                    let w = Wl { pt: p, esc: Esc::None };
                    if p == Pt::Eof || w.white() || w.newline() {
                        return ("Error_UnterminatedFileString", at);
                    }
                    match p {
                        Pt::Ch('[') => depth += 1,
                        Pt::Ch(']') => depth -= 1,
                        _ => {},
                    }
                    at = j;
                }
            },
            Pt::Ch(x) if ok(x) => at = j,
            _ => return ("String", at),
        }
    }
}

/// All tokens of a text, newlines at top level. Ends with the end of the input.
pub fn all(b: &[u8]) -> Vec<(&'static str, usize, usize)> {
    let mut v = vec![];
    let mut i = 0;
    loop {
        let (k, e) = token(b, i, Mode::Normal);
        if k == "EndOfFile" {
            return v;
        }
        v.push((if k == NEWLINE { "ToplevelNewline" } else { k }, i, e));
        i = e;
    }
}
