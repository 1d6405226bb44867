use crate::gen;
use crate::real::*;
use crate::rng::Rng;
use crate::runner::{Case, Prop};
use wolfram_parser::*;

mod boxes;
mod errors;
mod lexical;
mod meaning;
pub mod memory;
mod relate;
mod report;
mod syntax;
mod text;
mod tool;
mod values;

pub fn all() -> Vec<&'static Prop> {
    vec![&text::P01, &text::P02, &text::P03, &text::P04, &text::P05, &lexical::P06, &lexical::P07, &syntax::P08, &meaning::P09, &relate::P10, &relate::P11, &relate::P12, &relate::P13, &errors::P14, &relate::P15, &report::P16, &report::P17, &report::P18, &relate::P19, &values::P20, &values::P21, &values::P24, &boxes::P25, &syntax::P22, &meaning::P23, &memory::P26, &tool::P27]
}

// ---- options -----------------------------------------------------------------------

/// Any combination of options; first-line handling only when asked for.
pub fn rnd_opts(r: &mut Rng, first_line: bool) -> Opts {
    Opts {
        first_line: if first_line && r.chance(1, 3) { r.below(3) as u8 } else { 0 },
        char_index: r.chance(1, 3),
        boxed: r.chance(1, 5),
        tab: *r.pick(&[4, 4, 4, 4, 1, 2, 3, 5, 8, 13, 16, 100, 1000]),
        infix_at: r.chance(2, 3),
        flatten_times: r.chance(1, 3),
        old_at3: r.chance(1, 3),
    }
}

pub fn any_input(r: &mut Rng, max: usize) -> Vec<u8> {
    if r.chance(1, 40) {
        return gen::scaled(r);
    }
    if r.chance(1, 3) { gen::bytes(r, max) } else { gen::text(r, max) }
}

pub fn rnd_bytes(r: &mut Rng) -> Case {
    let o = rnd_opts(r, false);
    Case::new(any_input(r, 40)).opts(o)
}

/// Enumerated part shared by several properties: the whole corpus as it stands.
pub fn corpus_len(_: bool) -> u64 {
    gen::corpus().len() as u64
}
pub fn corpus_case(_: bool, i: u64) -> Case {
    Case::new(gen::corpus()[i as usize].clone())
}

// ---- running the real code ------------------------------------------------------------

pub struct CstOut {
    pub forest: Vec<Tree>,
    pub flag: Option<UnsafeCharacterEncoding>,
    pub fatal: Vec<issue::Issue>,
    pub nonfatal: Vec<issue::Issue>,
    pub tracked: [Vec<Loc>; 4],
}

pub fn locs(h: &std::collections::HashSet<source::Location>) -> Vec<Loc> {
    let mut v: Vec<Loc> = h.iter().map(|l| loc(*l)).collect();
    v.sort();
    v
}

pub fn run_cst(c: &[u8], o: &Opts) -> Result<CstOut, String> {
    let r = call("parse_bytes_cst_seq", c.len(), || parse_bytes_cst_seq(c, &o.make()))?;
    Ok(CstOut {
        forest: forest(c, &r.syntax),
        flag: r.unsafe_character_encoding,
        fatal: r.fatal_issues,
        nonfatal: r.non_fatal_issues,
        tracked: [
            locs(&r.tracked.simple_line_continuations),
            locs(&r.tracked.complex_line_continuations),
            locs(&r.tracked.embedded_newlines),
            locs(&r.tracked.embedded_tabs),
        ],
    })
}

/// The token list, whether or not the encoding is safe (tokenize_bytes keeps it back otherwise).
pub fn run_tokens(c: &[u8], o: &Opts) -> Result<Option<Vec<Tok>>, String> {
    call("tokenize_bytes", c.len(), || tokenize_bytes(c, &o.make()).ok().map(|t| toks(c, &t)))
}

/// Tokens that run to the end of the input (an unterminated file name ends at whitespace).
pub fn unterminated(kind: &str) -> bool {
    kind.starts_with("Error_Unterminated") && kind != "Error_UnterminatedFileString"
}

pub fn is_error(kind: &str) -> bool {
    kind.starts_with("Error_")
}

pub fn nodes<'a>(f: &'a [Tree], visit: &mut dyn FnMut(&'a Tree)) {
    for t in f {
        visit(t);
        if let Tree::Node { ch, .. } = t {
            nodes(ch, visit);
        }
    }
}

pub fn has_class(f: &[Tree], class: &str) -> bool {
    let mut r = false;
    nodes(f, &mut |t| {
        if let Tree::Node { class: c, .. } = t {
            r |= *c == class;
        }
    });
    r
}

/// Did end-of-input recovery happen: an unclosed group at the end, or an unterminated token.
pub fn recovered(f: &[Tree]) -> bool {
    let mut r = false;
    nodes(f, &mut |t| match t {
        Tree::Node { class, .. } => r |= *class == "GroupMissingCloser",
        Tree::Leaf(t) => r |= unterminated(t.kind),
    });
    r
}

/// The bytes from `i` on are line continuations with their indentation only.
pub fn only_continuations(b: &[u8], i: usize) -> bool {
    continuations(b, i, b.len())
}
pub fn continuations(b: &[u8], mut i: usize, end: usize) -> bool {
    use crate::model::chars::*;
    while i < end {
        let (w, j) = wl_at(b, i);
        match w.pt {
            Pt::Lc(_) => {},
            _ if w.white() => {},
            _ => return false,
        }
        i = j;
    }
    true
}

pub fn show(b: &[u8], o: &Opts) {
    let c = run_cst(b, o);
    match &c {
        Ok(c) => {
            println!("cst {}", show_forest(b, &c.forest));
            let mut l = vec![];
            c.forest.iter().for_each(|t| t.leaves(&mut l));
            println!("leaves {:?}", l.iter().map(|t| (t.kind, t.s, t.e, t.span)).collect::<Vec<_>>());
            println!("flag {:?} fatal {:?} nonfatal {:?} tracked {:?}", c.flag, c.fatal, c.nonfatal, c.tracked);
        },
        Err(e) => println!("cst {e}"),
    }
    println!("ref {}", show_forest(b, &crate::model::parse::parse(b)));
    match meaning::run_ast(b, o) {
        Ok(a) => println!("ast {}", meaning::show(&a)),
        Err(e) => println!("ast {e}"),
    }
}
