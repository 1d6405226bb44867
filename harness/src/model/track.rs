//! Reference model of the places reported for later formatting: tokens with line continuations, newlines and tabs in them.

use super::chars::*;
use super::lex::Cur;
use crate::real::Tok;
use std::collections::BTreeSet;

pub const SIMPLE: usize = 0;
pub const COMPLEX: usize = 1;
pub const NEWLINES: usize = 2;
pub const TABS: usize = 3;

/// Beginnings (byte offsets) of the tokens that must be, and may be, reported in each list.
pub type Places = [BTreeSet<usize>; 4];

fn white(w: Wl) -> bool {
    matches!(w.pt, Pt::Ch(' ' | '\t' | '\u{b}' | '\u{c}'))
}

/// Where line continuations begin between `s` and `e`, read character by character.
fn continued(b: &[u8], s: usize, e: usize) -> bool {
    let mut i = s;
    while i < e {
        let (w, j) = wl_at(b, i);
        if matches!(w.pt, Pt::Lc(_)) {
            return true;
        }
        i = j;
    }
    false
}

/// Was the token tried further than it goes, over a line continuation?
fn tried(b: &[u8], t: &Tok) -> bool {
    let mut c = Cur::at(b, t.e);
    match t.kind {
        "Integer" | "Real" | "Rational" | "Error_Number" => (0..4).for_each(|_| {
            c.take();
        }),
        "Equal" | "Less" | "Bar" | "Slash" | "Error_UnhandledCharacter" => {
            c.take();
        },
        _ => {},
    }
    continued(b, t.e, c.i)
}

pub fn track(b: &[u8], leaves: &[&Tok]) -> (Places, Places) {
    let mut must: Places = Default::default();
    let mut may: Places = Default::default();
    let mut prev = "";
    for t in leaves.iter() {
        if t.s == t.e {
            prev = t.kind;
            continue;
        }
        let named = matches!(prev, "LessLess" | "GreaterGreater" | "GreaterGreaterGreater");
        let file = named && matches!(t.kind, "String" | "Error_UnterminatedString" | "Error_UnterminatedFileString");
        let mut c = Cur::at(b, t.s);
        let first = c.take();
        let quoted = first.is('"') && first.esc == Esc::None && t.kind.contains("String");
        let lead = continued(b, t.s, c.i);
        if matches!(t.kind, "Comment" | "Error_UnterminatedComment") {
            if lead {
                must[SIMPLE].insert(t.s);
            }
            let mut i = c.i;
            while i < t.e {
                let (p, j, _) = src_at(b, i);
                match p {
                    Pt::Ch('\n' | '\r') | Pt::Crlf => {
                        must[NEWLINES].insert(t.s);
                    },
                    Pt::Ch('\t') => {
                        must[TABS].insert(t.s);
                    },
                    _ => {},
                }
                i = j;
            }
        } else if quoted {
            if lead && !file {
                must[SIMPLE].insert(t.s);
            }
            let mut i = c.i;
            while i < t.e {
                let (w, j) = wl_at(b, i);
                i = j;
                // a newline or tab that is written as an escape is not in the text
                let out = if w.esc == Esc::None { &mut must } else { &mut may };
                match w.pt {
                    Pt::Ch('\n' | '\r') | Pt::Crlf => {
                        out[NEWLINES].insert(t.s);
                    },
                    Pt::Ch('\t') => {
                        out[TABS].insert(t.s);
                    },
                    Pt::Lc(_) => {
                        if !file {
                            must[COMPLEX].insert(t.s);
                        }
                        // the indentation after it, tabs included
                        loop {
                            let (w, j) = wl_at(b, i);
                            if !white(w) {
                                break;
                            }
                            if w.pt == Pt::Ch('\t') {
                                let out = if w.esc == Esc::None { &mut must } else { &mut may };
                                out[TABS].insert(t.s);
                            }
                            i = j;
                        }
                    },
                    _ => {},
                }
            }
        } else if !file {
            if continued(b, t.s, t.e) {
                must[SIMPLE].insert(t.s);
            } else if tried(b, t) {
                may[SIMPLE].insert(t.s);
            }
        }
        if !crate::real::is_trivia(t.kind) {
            prev = t.kind;
        }
    }
    let end = leaves.iter().map(|t| t.e).max().unwrap_or(0);
    if end < b.len() {
        must[SIMPLE].insert(end);
    }
    (must, may)
}
