//! Reference model of positions: the location of every source character boundary.

use super::chars::{src_at, Pt};
use crate::real::{Loc, Opts};

/// locs[i] is the location of byte offset i when i is a source character boundary.
pub fn table(b: &[u8], o: &Opts) -> Vec<Option<Loc>> {
    let mut t = vec![None; b.len() + 1];
    let mut i = 0;
    let mut l = if o.char_index { Loc(1, 0) } else { Loc(1, 1) };
    while i < b.len() {
        t[i] = Some(l);
        let (p, j, _) = src_at(b, i);
        l = step(l, p, o);
        i = j;
    }
    t[b.len()] = Some(l);
    t
}

pub fn step(l: Loc, p: Pt, o: &Opts) -> Loc {
    if o.char_index {
        Loc(l.0 + if p == Pt::Crlf { 2 } else { 1 }, 0)
    } else {
        match p {
            Pt::Ch('\n') | Pt::Ch('\r') | Pt::Crlf => Loc(l.0 + 1, 1),
            // to the next tab stop: stops are at columns 1, 1 + w, 1 + 2 w, ...
            Pt::Ch('\t') => Loc(l.0, ((l.1 - 1) / o.tab + 1) * o.tab + 1),
            _ => Loc(l.0, l.1 + 1),
        }
    }
}
