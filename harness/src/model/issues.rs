//! Reference model of the issues a piece of source gives rise to, derived from its leaves and their characters.

use super::chars::*;
use super::lex::{Cur, Mode};
use crate::gen::longname_char;
use crate::real::{Opts, Tok};
use std::collections::HashMap;
use std::sync::OnceLock;

#[derive(Clone, Debug, PartialEq)]
pub enum Text {
    /// this text
    Is(String),
    /// ASCII text that denotes this character
    Denotes(char),
    /// some recognized long name, after this many backslashes
    Name(usize),
}

#[derive(Clone, Debug, PartialEq)]
pub enum Act {
    Replace(Text, usize, usize),
    Insert(&'static str, usize),
    Delete(usize, usize),
}

#[derive(Clone, Debug, PartialEq)]
pub struct Due {
    pub tag: &'static str,
    pub sev: &'static str,
    /// confidence in percent
    pub val: u32,
    /// byte offsets
    pub s: usize,
    pub e: usize,
    pub acts: Vec<Act>,
    /// the listed actions may be missing (suggestions by similarity)
    pub optional: bool,
}

fn ascii() -> &'static HashMap<char, Vec<String>> {
    static T: OnceLock<HashMap<char, Vec<String>>> = OnceLock::new();
    T.get_or_init(|| {
        include_str!("../../data/ascii.tsv")
            .lines()
            .map(|l| {
                let mut f = l.split('\t');
                let c = char::from_u32(u32::from_str_radix(f.next().unwrap(), 16).unwrap()).unwrap();
                (c, f.map(|t| t.replace("\\n", "\n").replace("\\t", "\t").replace("\\\\", "\\")).collect())
            })
            .collect()
    })
}

fn strange(c: char) -> bool {
    if c.is_ascii() {
        return matches!(c, '\0'..='\x08' | '\x0b' | '\x0c' | '\x0e'..='\x1a' | '\x1c'..='\x1f' | '\x7f');
    }
    matches!(c,
        '\u{200b}' | '\u{200c}' | '\u{200d}' | '\u{2018}' | '\u{2019}' | '\u{201c}' | '\u{201d}'
        | '\u{2061}' | '\u{2063}' | '\u{2064}' | '\u{2192}' | '\u{279d}' | '\u{29f4}' | '\u{f3a2}' | '\u{f76d}'
        | '\u{80}'..='\u{9f}' | '\u{f0000}'..='\u{ffffd}' | '\u{100000}'..='\u{10fffd}')
}

/// end of the letters and digits from `i` on
fn word_end(b: &[u8], mut i: usize) -> usize {
    loop {
        match src_at(b, i) {
            (Pt::Ch(c), j, None) if c.is_alphanumeric() => i = j,
            _ => return i,
        }
    }
}

fn blank(c: char) -> bool {
    let w = Wl { pt: Pt::Ch(c), esc: Esc::None };
    !matches!(c, ' ' | '\t') && w.white()
}

/// what certain look-alikes are probably meant to be
fn meant(c: char, escaped: bool, s: usize, e: usize) -> Vec<Act> {
    let (ch, name) = match c {
        '\u{f3a2}' => ("\u{2060}", "NoBreak"),
        '\u{2192}' | '\u{279d}' => ("\u{f522}", "Rule"),
        '\u{29f4}' => ("\u{f51f}", "RuleDelayed"),
        '\u{2061}' => ("\u{f76d}", "InvisibleApplication"),
        '\u{2063}' => ("\u{f765}", "InvisibleComma"),
        '\u{2064}' => ("\u{f39e}", "ImplicitPlus"),
        '\u{200b}' => ("\u{f360}", "InvisibleSpace"),
        _ => return vec![],
    };
    let t = if escaped { format!("\\[{name}]") } else { ch.to_string() };
    let mut r = vec![Act::Replace(Text::Is(t), s, e)];
    if c == '\u{2061}' {
        r.push(Act::Delete(s, e));
    }
    r
}

fn ascii_acts(c: char, s: usize, e: usize) -> Vec<Act> {
    ascii().get(&c).map_or(vec![], |v| v.iter().map(|t| Act::Replace(Text::Is(t.to_string()), s, e)).collect())
}

struct Out<'a> {
    b: &'a [u8],
    must: Vec<Due>,
    may: Vec<Due>,
    boxed: bool,
}

#[derive(Clone, Copy)]
struct How {
    /// escapes that denote nothing are reported
    escapes: bool,
    /// within a string or comment
    quoted: bool,
}

impl<'a> Out<'a> {
    fn put(&mut self, sure: bool, tag: &'static str, sev: &'static str, val: u32, s: usize, e: usize, acts: Vec<Act>) {
        let d = Due { tag, sev, val, s, e, acts, optional: false };
        let v = if sure { &mut self.must } else { &mut self.may };
        v.push(d);
    }

    /// source characters
    fn source(&mut self, mut i: usize, end: usize, how: How) {
        while i < end {
            let (p, j, bad) = src_at(self.b, i);
            match (p, bad) {
                (_, Some(k)) => {
                    let tag = match k {
                        Bad::Incomplete => "IncompleteUTF8Sequence",
                        Bad::Surrogate => "StraySurrogate",
                        Bad::Bom => "BOM",
                    };
                    self.put(true, tag, "Fatal", 100, i, j, vec![]);
                },
                (Pt::Ch('\r'), _) => self.put(how.escapes, "UnexpectedCarriageReturn", "Warning", 100, j, j, vec![]),
                (Pt::Ch(c), _) => self.plain(c, i, j, how),
                _ => {},
            }
            i = j;
        }
    }

    fn plain(&mut self, c: char, i: usize, j: usize, how: How) {
        if strange(c) || c == '\x1b' {
            let mut acts = meant(c, false, i, j);
            acts.push(Act::Replace(Text::Denotes(c), i, j));
            acts.extend(ascii_acts(c, i, j));
            if how.quoted {
                self.put(true, "UnexpectedCharacter", "Remark", 95, i, j, acts);
            } else if !blank(c) {
                self.put(true, "UnexpectedCharacter", "Warning", 95, i, j, acts);
            }
        } else if !c.is_ascii() && !self.boxed {
            let mut acts = vec![Act::Replace(Text::Denotes(c), i, j)];
            acts.extend(ascii_acts(c, i, j));
            self.put(true, "NonASCIICharacter", "Remark", 100, i, j, acts);
        }
    }

    /// the escape that starts at `i`, if any; end of the character
    fn escapes(&mut self, mut i: usize, end: usize, how: How) {
        while i < end {
            i = self.escape(i, how);
        }
    }

    fn escaped(&mut self, sure: bool, c: char, s: usize, e: usize, how: How) {
        if strange(c) && !blank(c) {
            let mut acts = meant(c, true, s, e);
            acts.extend(ascii_acts(c, s, e));
            self.put(sure, "UnexpectedCharacter", if how.quoted { "Remark" } else { "Warning" }, if c.is_ascii() { 95 } else { 85 }, s, e, acts);
        }
    }

    fn escape(&mut self, i: usize, how: How) -> usize {
        let b = self.b;
        let (w, j) = wl_at(b, i);
        if b[i] != b'\\' {
            return j;
        }
        let (q, k, _) = src_at(b, i + 1);
        match w.esc {
            Esc::Single => {
                match w.pt {
                    Pt::Meta('<' | '>' | 'b' | 'f') => self.put(true, "UnexpectedCharacter", "Remark", 95, i, j, vec![]),
                    Pt::Meta('\\') => {
                        // a long name with one backslash too many?
                        let n = j + 1;
                        let e = word_end(b, n);
                        if b.get(j) == Some(&b'[') && b.get(n).map_or(false, |c| c.is_ascii_uppercase()) && b.get(e) == Some(&b']') {
                            let name = std::str::from_utf8(&b[n..e]).unwrap();
                            match longname_char(name) {
                                Some(l) => {
                                    if let Some(c) = l.ch {
                                        self.escaped(true, c, j - 1, e + 1, how);
                                    }
                                },
                                None => {
                                    self.put(true, "UnrecognizedLongName", "Error", 75, i, e + 1, vec![Act::Replace(Text::Name(2), i, e + 1)]);
                                    self.must.last_mut().unwrap().optional = true;
                                },
                            }
                        }
                    },
                    _ => {},
                }
                return j;
            },
            Esc::LongName | Esc::Raw => {
                if let Pt::Ch(c) = w.pt {
                    self.escaped(how.escapes, c, i, j, how);
                }
                return j;
            },
            Esc::Hex2 | Esc::Hex4 | Esc::Hex6 | Esc::Octal => {
                if let Pt::Ch(c) = w.pt {
                    self.escaped(true, c, i, j, how);
                }
                return j;
            },
            Esc::None => {},
        }
        // a backslash that begins nothing
        let text = |s: usize, e: usize| String::from_utf8_lossy(&b[s..e]).into_owned();
        let twice = |s: usize, e: usize| vec![Act::Replace(Text::Is(format!("\\{}", text(s, e))), s, e)];
        let count = |from: usize, n: usize, ok: &dyn Fn(&u8) -> bool| b[from.min(b.len())..].iter().take(n).take_while(|c| ok(c)).count();
        let hex = |c: &u8| c.is_ascii_hexdigit();
        let c = match q {
            Pt::Ch(c) => c,
            _ => return j,
        };
        let mut optional = false;
        let (e, acts) = match c {
            '[' => {
                let run = word_end(b, k);
                if !b.get(k).map_or(false, |c| c.is_ascii_uppercase()) {
                    let e = if b.get(k) == Some(&b']') { k + 1 } else { k };
                    (e, twice(i, e))
                } else if b.get(run) == Some(&b']') {
                    optional = true;
                    (run + 1, vec![Act::Replace(Text::Name(1), i, run + 1)])
                } else {
                    (run, if longname_char(&text(k, run)).is_some() { vec![Act::Insert("]", run)] } else { vec![] })
                }
            },
            ':' | '.' | '|' => {
                let n = match c {
                    ':' => 4,
                    '.' => 2,
                    _ => 6,
                };
                let m = count(k, n, &hex);
                if m == n {
                    return j; // not a character's code; nothing is said about it
                }
                (k + m, twice(i, k + m))
            },
            '0'..='7' => {
                let m = count(k, 2, &|c| (b'0'..=b'7').contains(c));
                (k + m, twice(i, k + m))
            },
            'A'..='Z' => {
                let run = word_end(b, k);
                if b.get(run) == Some(&b']') && longname_char(&text(i + 1, run)).is_some() {
                    (run + 1, vec![Act::Insert("[", i + 1)])
                } else {
                    let mut v = vec![Act::Replace(Text::Is(format!("\\[{c}XXX]")), i, k)];
                    if c.is_ascii_hexdigit() {
                        v.push(Act::Replace(Text::Is(format!("\\:{c}XXX")), i, k));
                    }
                    (k, v)
                }
            },
            'a'..='f' | '8' | '9' => (k, vec![Act::Replace(Text::Is(format!("\\:{c}xxx")), i, k)]),
            ' '..='~' => (k, twice(i, k)),
            _ => (k, vec![]),
        };
        self.put(how.escapes, "UnhandledCharacter", "Fatal", 100, i, e, acts);
        let v = if how.escapes { &mut self.must } else { &mut self.may };
        v.last_mut().unwrap().optional = optional;
        j
    }

    fn letters(&mut self, t: &Tok, slot: bool, tag: bool) {
        let b = self.b;
        let mut c = Cur::at(b, t.s);
        while c.i < t.e {
            let at = c.i;
            let w = c.take();
            let end = c.i;
            match w.pt {
                Pt::Ch('$') if slot => self.put(true, "UndocumentedSlotSyntax", "Warning", 33, at, end, vec![]),
                Pt::Ch('`') if slot => self.put(true, "UndocumentedSlotSyntax", "Warning", 33, t.s, end, vec![]),
                Pt::Ch('$' | '`' | '0'..='9' | 'a'..='z' | 'A'..='Z') => {},
                Pt::Ch(x) if x.is_ascii() => {
                    let acts = meant(x, w.esc != Esc::None, at, end);
                    self.put(true, "UnexpectedLetterlikeCharacter", "Warning", 85, at, end, acts)
                },
                Pt::Ch(x) => {
                    if crate::gen::char_entry(x).map_or(true, |e| e.tag != "notstrange") {
                        let acts = meant(x, w.esc != Esc::None, at, end);
                        self.put(true, "UnexpectedLetterlikeCharacter", "Warning", 80, at, end, acts)
                    } else if tag {
                        self.put(true, "UnexpectedCharacter", "Warning", 85, at, end, vec![])
                    }
                },
                _ => {},
            }
        }
    }
}

/// Issues that must be, and those that may be, reported for source with these leaves.
pub fn due(b: &[u8], leaves: &[&Tok], o: &Opts) -> (Vec<Due>, Vec<Due>) {
    let mut x = Out { b, must: vec![], may: vec![], boxed: o.boxed };
    let top = How { escapes: true, quoted: false };
    let mut prev = "";
    let mut prev_any = "";
    for t in leaves.iter() {
        if t.s == t.e {
            prev = t.kind;
            prev_any = t.kind;
            continue;
        }
        let after_file_op = matches!(prev, "LessLess" | "GreaterGreater" | "GreaterGreaterGreater");
        let file = after_file_op && matches!(t.kind, "String" | "Error_UnterminatedString" | "Error_UnterminatedFileString");
        let slot = prev_any == "Hash" && matches!(t.kind, "Integer" | "String" | "Error_UnterminatedString" | "Error_ExpectedLetterlike");
        let digits = matches!(prev_any, "HashHash" | "Percent") && t.kind == "Integer";
        let tag = prev_any == "ColonColon" && t.kind == "String";
        let mut head = Cur::at(b, t.s);
        let first = head.take();
        let unsure = after_file_op && crate::real::is_trivia(t.kind);
        let how = How { escapes: !file && !slot && !unsure, quoted: false };
        // characters
        if matches!(t.kind, "Comment" | "Error_UnterminatedComment") {
            let open = head.i + 1;
            x.source(t.s, open, top);
            x.escapes(t.s, open, top);
            x.source(open, t.e, How { escapes: true, quoted: true });
        } else if first.is('"') && first.esc == Esc::None && t.kind.contains("String") {
            let q = How { quoted: true, ..how };
            x.source(t.s, head.i, how);
            x.source(head.i, t.e, q);
            if !file {
                x.escapes(t.s, head.i, how);
            }
            x.escapes(head.i, t.e, q);
            if slot {
                x.put(true, "UndocumentedSlotSyntax", "Warning", 33, t.s, head.i, vec![]);
            }
        } else {
            x.source(t.s, t.e, how);
            if file {
                let n = x.must.len();
                x.escapes(t.s, t.e, How { escapes: false, quoted: false });
                let more = x.must.split_off(n);
                x.may.extend(more);
            } else {
                x.escapes(t.s, t.e, how);
            }
        }
        // tokens
        let next = Cur::at(b, t.e).take();
        let space = vec![Act::Insert(" ", t.e)];
        match t.kind {
            "Whitespace" => {
                if let Pt::Ch(c) = first.pt {
                    if blank(c) {
                        let acts = meant(c, first.esc != Esc::None, t.s, t.e);
                        x.put(true, "UnexpectedSpaceCharacter", "Warning", if c.is_ascii() { 95 } else { 85 }, t.s, t.e, acts);
                    }
                }
            },
            "ToplevelNewline" | "InternalNewline" => {
                if let Pt::Ch(c) = first.pt {
                    if !c.is_ascii() {
                        x.put(true, "UnexpectedNewlineCharacter", "Warning", 85, t.s, t.e, vec![]);
                    }
                }
            },
            "Symbol" | "Error_ExpectedLetterlike" => x.letters(t, slot, false),
            "String" if !file && !(first.is('"') && first.esc == Esc::None) => x.letters(t, slot, tag),
            "Integer" | "Real" | "Rational" | "Error_Number" => {
                if slot || digits {
                    if next.is('.') {
                        x.put(true, "Ambiguous", "Formatting", 100, t.e, t.e, space);
                    }
                } else {
                    for (what, at) in super::lex::notes(b, t.s, Mode::Normal) {
                        match what {
                            'A' => x.put(true, "Ambiguous", "Formatting", 100, at, at, vec![Act::Insert(" ", at)]),
                            'S' => x.put(true, "UnexpectedSign", "Warning", 95, at, at, vec![]),
                            _ => x.put(true, "UnexpectedImplicitTimes", "Error", 99, at, at, vec![Act::Insert("*", at)]),
                        }
                    }
                }
            },
            "UnderDot" if next.is('.') => x.put(true, "UnexpectedDot", "Error", 95, t.e, t.e, space),
            "MinusMinus" if next.is('>') => {
                let acts = vec![Act::Replace(Text::Is("-".into()), t.s, t.e), Act::Insert(" ", t.e)];
                x.put(true, "Ambiguous", "Error", 95, t.s, t.e, acts)
            },
            "MinusMinus" | "PlusPlus" | "BarGreater" if next.is('=') => x.put(true, "Ambiguous", "Formatting", 100, t.e, t.e, space),
            "Error_UnexpectedCloser" if first.is('|') && next.is('=') => x.put(true, "Ambiguous", "Formatting", 100, t.e, t.e, space),
            "Equal" if next.is('!') => x.put(true, "Ambiguous", "Formatting", 100, t.e, t.e, space),
            "Less" | "Bar" if next.is('-') => x.put(true, "Ambiguous", "Formatting", 100, t.e, t.e, space),
            "Slash" if next.is('.') => x.put(true, "Ambiguous", "Formatting", 100, t.e, t.e, space),
            _ => {},
        }
        prev_any = t.kind;
        if !crate::real::is_trivia(t.kind) {
            prev = t.kind;
        }
    }
    // line continuations at the end belong to no token
    let end = leaves.iter().map(|t| t.e).max().unwrap_or(0);
    x.source(end, b.len(), top);
    (x.must, x.may)
}
