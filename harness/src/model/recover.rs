//! Reference model of recovery: what is kept of a group or token that the end of the input leaves open.

use super::{lex, pos};
use crate::props::unterminated;
use crate::real::{is_trivia, Loc, Opts, Tok, Tree};

struct R<'a> {
    b: &'a [u8],
    text: bool,
    index: bool,
    at: Vec<Option<Loc>>,
    /// (start, end of content, end with terminator) in bytes
    lines: Vec<(usize, usize, usize)>,
}

/// The reference forest with groups and tokens that are open at the end cut back.
/// Leaves get their positions.
pub fn recover(b: &[u8], o: &Opts, f: Vec<Tree>) -> Vec<Tree> {
    let mut lines = vec![];
    let (mut s, mut i) = (0, 0);
    while i < b.len() {
        let n = if b[i..].starts_with(b"\r\n") { 2 } else if b[i] == b'\n' || b[i] == b'\r' { 1 } else { 0 };
        if n > 0 {
            lines.push((s, i, i + n));
            i += n;
            s = i;
        } else {
            i += 1;
        }
    }
    lines.push((s, b.len(), b.len()));
    let r = R { b, text: std::str::from_utf8(b).is_ok(), index: o.char_index, at: pos::table(b, o), lines };
    f.into_iter().map(|t| r.groups(t)).map(|t| r.tokens(t)).collect()
}

const DIRECTIVES: &[&str] = &[
    "BeginPackage", "Begin", "Needs", "End", "EndPackage", "Clear", "ClearAll", "SetOptions", "SetAttributes", "System`Private`NewContextPath",
    "System`Private`RestoreContextPath", "Protect", "Unprotect", "Package", "PackageImport", "PackageScope", "PackageExport", "Get", "SetDelayed", "UpSetDelayed", "TagSetDelayed",
];

/// Does this line look like the beginning of another statement?
pub fn new_statement(line: &[u8]) -> bool {
    let toks: Vec<_> = lex::all(line).into_iter().filter(|t| t.0 == "Comment" || t.1 == 0 || !is_trivia(t.0)).collect();
    let text = |i: usize| std::str::from_utf8(&line[toks[i].1..toks[i].2]).unwrap_or("");
    let kind = |i: usize| toks.get(i).map_or("", |t| t.0);
    let assigns = |k: &str| k == "Equal" || k == "ColonEqual";
    match kind(0) {
        "Symbol" if kind(1) == "OpenSquare" => DIRECTIVES.contains(&text(0)) || toks[2..].iter().any(|t| assigns(t.0)),
        "Symbol" | "CloseSquare" => assigns(kind(1)),
        "Comment" => text(0).trim_start_matches("(*").trim_start().starts_with(':'),
        _ => false,
    }
}

impl<'a> R<'a> {
    fn loc(&self, i: usize) -> Loc {
        self.at.get(i).copied().flatten().unwrap_or(Loc(0, 0))
    }
    fn line_of(&self, i: usize) -> usize {
        self.lines.iter().position(|l| i < l.2).unwrap_or(self.lines.len() - 1)
    }
    /// Where something that starts at `s` and reaches to `e` is cut off.
    fn end(&self, s: usize, e: usize) -> usize {
        let first = self.line_of(s);
        let mut last = first;
        // lines with a part in it; a line is also touched by something that ends where it starts
        for j in first + 1..self.lines.len() {
            let l = self.lines[j];
            if l.0 > e || (l.0 == l.2) || new_statement(&self.b[l.0..l.1]) {
                break;
            }
            last = j;
        }
        while last > first && self.lines[last].0 == self.lines[last].1 {
            last -= 1;
        }
        let l = self.lines[last];
        if self.index { l.2 } else { l.1 }
    }

    fn groups(&self, t: Tree) -> Tree {
        match t {
            Tree::Leaf(t) => {
                let span = [self.loc(t.s), self.loc(t.e)];
                Tree::Leaf(Tok { span, ..t })
            },
            Tree::Node { class, op, ch } => {
                let ch: Vec<Tree> = ch.into_iter().map(|c| self.groups(c)).collect();
                if class != "Cut" {
                    return Tree::Node { class, op, ch };
                }
                if !self.text {
                    return Tree::Node { class: "GroupMissingCloser", op, ch };
                }
                let mut leaves = vec![];
                ch.iter().for_each(|c| c.leaves(&mut leaves));
                let end = self.end(leaves[0].s, leaves[leaves.len() - 1].e);
                let ch = leaves.into_iter().filter(|t| t.s <= end).map(|t| Tree::Leaf(*t)).collect();
                Tree::Node { class: "GroupMissingCloser", op, ch }
            },
        }
    }

    fn tokens(&self, t: Tree) -> Tree {
        match t {
            Tree::Leaf(t) if self.text && unterminated(t.kind) => {
                let e = self.end(t.s, t.e);
                Tree::Leaf(Tok { e, span: [self.loc(t.s), self.loc(e)], ..t })
            },
            Tree::Leaf(_) => t,
            Tree::Node { class, op, ch } => Tree::Node { class, op, ch: ch.into_iter().map(|c| self.tokens(c)).collect() },
        }
    }
}
