//! Relations between executions: other trivia, other entry points, other histories, other options, other neighbours.

use super::meaning::{abs, differ, run_ast, show};
use super::syntax::rnd_source;
use super::*;
use crate::model::abs::A;
use crate::runner::*;

fn lossy(b: &[u8]) -> String {
    String::from_utf8_lossy(b).into_owned()
}

/// Structure with texts, without positions.
pub fn skeleton(b: &[u8], f: &[Tree], out: &mut String) {
    for t in f {
        match t {
            Tree::Leaf(t) => {
                out.push_str(t.kind);
                out.push('<');
                out.push_str(&if t.e <= b.len() { gen::escape(&b[t.s..t.e]) } else { "<outside>".into() });
                out.push_str("> ");
            },
            Tree::Node { class, op, ch } => {
                out.push_str(class);
                out.push(':');
                out.push_str(op);
                out.push('[');
                skeleton(b, ch, out);
                out.push_str("] ");
            },
        }
    }
}

pub fn skel(b: &[u8], f: &[Tree]) -> String {
    let mut s = String::new();
    skeleton(b, f, &mut s);
    s
}

pub fn has_error(f: &[Tree]) -> bool {
    let mut r = false;
    nodes(f, &mut |t| match t {
        Tree::Node { class, .. } => r |= matches!(*class, "SyntaxError" | "GroupMissingCloser" | "GroupMissingOpener"),
        Tree::Leaf(t) => r |= is_error(t.kind),
    });
    r
}

// ---- P10 trivia --------------------------------------------------------------------------------------

pub static P10: Prop = Prop {
    id: "P10",
    rule: "distinct tree shapes that stayed the same when blanks, comments or line ends were added or removed",
    assumptions: &["trivia is only added next to trivia (or next to a bracket or comma), never after an operator that takes a file name; inputs that end inside a group or token are skipped"],
    sys_len: p10_len,
    sys_case: p10_case,
    random: |r| {
        let b = rnd_source(r);
        let o = rnd_opts(r, false);
        let n = r.next();
        Case::new(b).opts(o).n(n)
    },
    check: p10,
    quick_n: 250_000,
    thorough_n: 6_000_000,
    need: &["blanks added", "comments added", "line ends added", "line ends in groups added"],
};

fn p10_len(th: bool) -> u64 {
    super::syntax::pair_len(th)
}
fn p10_case(th: bool, i: u64) -> Case {
    super::syntax::pair_case(th, i).n(i.wrapping_mul(0x9E37_79B9_7F4A_7C15))
}

/// Leaves in order, each with: is it inside a group.
fn leaves_in_groups(f: &[Tree], inside: bool, out: &mut Vec<(Tok, bool)>) {
    for t in f {
        match t {
            Tree::Leaf(t) => out.push((*t, inside)),
            Tree::Node { class, ch, .. } => leaves_in_groups(ch, inside || class.starts_with("Group"), out),
        }
    }
}

fn p10(c: &Case, obs: &mut Obs) -> Result<(), String> {
    let b = &c.input[..];
    let got = run_cst(b, &c.opts)?;
    if recovered(&got.forest) || std::str::from_utf8(b).is_err() {
        obs.count("skipped");
        return Ok(());
    }
    let mut ls = vec![];
    leaves_in_groups(&got.forest, false, &mut ls);
    ls.retain(|(t, _)| t.s < t.e);
    // (offset, how many bytes may be dropped there, newline allowed)
    let mut sites: Vec<(usize, bool, bool)> = vec![];
    for i in 0..ls.len() {
        let (t, inside) = ls[i];
        // is the last token before the trivia a file name, or one that takes a file name?
        let file = ls[..=i].iter().rev().map(|(t, _)| t.kind).filter(|k| !is_trivia(k)).take(2).any(|k| matches!(k, "LessLess" | "GreaterGreater" | "GreaterGreaterGreater"));
        if file {
            continue;
        }
        match t.kind {
            "Whitespace" => {
                sites.push((t.s, false, inside));
                sites.push((t.e, true, inside));
            },
            "Comment" => sites.push((t.s, false, inside)),
            "InternalNewline" => sites.push((t.e, false, true)),
            "ToplevelNewline" => {
                sites.push((t.s, false, false));
                sites.push((t.e, false, true));
            },
            "Comma" | "OpenCurly" | "OpenParen" if i + 1 < ls.len() => sites.push((t.e, false, inside)),
            "CloseCurly" | "CloseParen" => sites.push((t.s, false, true)),
            _ => {},
        }
    }
    if sites.is_empty() {
        return Ok(());
    }
    let mut r = Rng::new(c.n);
    let k = 1 + r.below(3);
    let mut chosen: Vec<(usize, bool, bool)> = (0..k).map(|_| *r.pick(&sites)).collect();
    chosen.sort();
    chosen.dedup_by_key(|s| s.0);
    let mut w = vec![];
    let mut at = 0;
    let mut what = vec![];
    for (s, _, nl) in chosen {
        w.extend_from_slice(&b[at..s]);
        at = s;
        let bits: &[&str] = if nl {
            &[" ", "  ", "\t", "(* c *)", " (**) ", "(*\n*)", "\n", "\r\n", "\n\n", " \n ", "\r", "(* (* *) *) \n", "(* ] *)"]
        } else {
            &[" ", "  ", "\t", "(* c *)", " (**) ", "(*\n*)", "(* (* *) *)", "(* \" *)", "(*)*)", "(* ] *)", " \t "]
        };
        let t = *r.pick(bits);
        what.push(if t.contains("(*") {
            "comments added"
        } else if t.contains('\n') || t.contains('\r') {
            if ls.iter().any(|(l, inside)| *inside && l.s <= s && s <= l.e) { "line ends in groups added" } else { "line ends added" }
        } else {
            "blanks added"
        });
        w.extend_from_slice(t.as_bytes());
    }
    w.extend_from_slice(&b[at..]);
    let other = run_cst(&w, &c.opts)?;
    let (x, y) = (skel(b, &strip(&got.forest)), skel(&w, &strip(&other.forest)));
    if x != y {
        return Err(format!("adding trivia changes the concrete tree\n  {:?} -> {x}\n  {:?} -> {y}", lossy(b), lossy(&w)));
    }
    let (p, q) = (run_ast(b, &c.opts)?, run_ast(&w, &c.opts)?);
    if let Some(d) = differ(&q, &p, false) {
        return Err(format!("adding trivia changes the abstract tree: {d}\n  {:?} -> {}\n  {:?} -> {}", lossy(b), show(&p), lossy(&w), show(&q)));
    }
    for w in what {
        obs.count(w);
    }
    obs.sig(&super::syntax::shape(&other.forest));
    obs.sample(|| format!("{:?} = {:?}", lossy(b), lossy(&w)));
    Ok(())
}

// ---- everything one call returns ------------------------------------------------------------------------

/// A record of everything a call returned, for comparison with another call's.
fn record<T>(r: &ParseResult<T>, syntax: String) -> String {
    let t = &r.tracked;
    format!(
        "{syntax}\nflag {:?}\nfatal {:?}\nnonfatal {:?}\ntracked {:?} {:?} {:?} {:?}",
        r.unsafe_character_encoding,
        r.fatal_issues,
        r.non_fatal_issues,
        locs(&t.simple_line_continuations),
        locs(&t.complex_line_continuations),
        locs(&t.embedded_newlines),
        locs(&t.embedded_tabs)
    )
}

fn record_cst(r: &ParseResult<cst::CstSeq<tokenize::TokenStr>>) -> String {
    record(r, r.syntax.0.iter().map(|c| format!("{c:?}")).collect::<Vec<_>>().join("\n"))
}
fn record_ast(r: &ParseResult<NodeSeq<ast::Ast>>) -> String {
    record(r, r.syntax.0.iter().map(|c| format!("{c:?}")).collect::<Vec<_>>().join("\n"))
}
fn record_toks(r: &NodeSeq<tokenize::Token<tokenize::TokenStr>>) -> String {
    r.0.iter().map(|t| format!("{t:?}")).collect::<Vec<_>>().join("\n")
}

fn same(what: &str, a: &str, b: &str, input: &[u8]) -> Result<(), String> {
    if a == b {
        return Ok(());
    }
    let (x, y) = a.lines().zip(b.lines()).find(|(x, y)| x != y).unwrap_or(("(one is longer)", ""));
    let cut = |s: &str| s.chars().take(400).collect::<String>();
    Err(format!("{what} differ on {:?}\n  {}\n  {}", lossy(input), cut(x), cut(y)))
}

// ---- P11 entry points -----------------------------------------------------------------------------------

pub static P11: Prop = Prop {
    id: "P11",
    rule: "distinct tree shapes on which all entry points agreed",
    assumptions: &["the single-item entry points refuse inputs with other than one item, as documented"],
    sys_len: corpus_len,
    sys_case: corpus_case,
    random: |r| {
        let b = match r.below(6) {
            0 => gen::bytes(r, 30),
            1 => {
                let mut s = b"#!x y\n".to_vec();
                s.extend(rnd_source(r));
                s
            },
            2 => r.pick(gen::ATOMS).as_bytes().to_vec(),
            _ => rnd_source(r),
        };
        let o = rnd_opts(r, true);
        Case::new(b).opts(o)
    },
    check: p11,
    quick_n: 100_000,
    thorough_n: 3_000_000,
    need: &["unsafe inputs", "text entry points", "single-item entry points", "tokens and leaves", "abstraction by hand", "single tokens"],
};

fn p11(c: &Case, obs: &mut Obs) -> Result<(), String> {
    let b = &c.input[..];
    let o = c.opts.make();
    let n = b.len();
    let cst = call("parse_bytes_cst_seq", n, || parse_bytes_cst_seq(b, &o))?;
    let rec = record_cst(&cst);
    let ast = call("parse_bytes_ast_seq", n, || parse_bytes_ast_seq(b, &o))?;
    let rec_a = record_ast(&ast);
    // options put together step by step, in any order
    if n < 5_000 {
        let x = &c.opts;
        let conv = || if x.char_index { source::SourceConvention::CharacterIndex } else { source::SourceConvention::LineColumn };
        let first = || match x.first_line {
            0 => FirstLineBehavior::NotScript,
            1 => FirstLineBehavior::Check,
            _ => FirstLineBehavior::Script,
        };
        let h = crate::rng::hash_bytes(b);
        let mut p = ParseOptions::default();
        for k in 0..3 {
            p = match (k + h) % 3 {
                0 => p.tab_width(x.tab),
                1 => p.source_convention(conv()),
                _ => p.first_line_behavior(first()),
            };
        }
        let mut q = QuirkSettings::default();
        for k in 0..3 {
            q = match (k + h / 3) % 3 {
                0 => q.flatten_times(x.flatten_times),
                1 => q.infix_binary_at(x.infix_at),
                _ => q.old_at_at_at(x.old_at3),
            };
        }
        let m = Opts { boxed: false, ..*x }.make();
        p.quirk_settings = q;
        let what = |o: &ParseOptions| -> Result<(String, String), String> { Ok((record_cst(&call("parse_bytes_cst_seq", n, || parse_bytes_cst_seq(b, o))?), record_ast(&call("parse_bytes_ast_seq", n, || parse_bytes_ast_seq(b, o))?))) };
        let (got, want) = (what(&p)?, what(&m)?);
        same("options set one by one and all at once", &got.0, &want.0, b)?;
        same("options set one by one and all at once", &got.1, &want.1, b)?;
        obs.count("options set one by one");
    }
    let toks = call("tokenize_bytes", n, || tokenize_bytes(b, &o))?;
    let f = forest(b, &cst.syntax);
    match (&toks, &cst.unsafe_character_encoding) {
        (Ok(_), None) => {},
        (Err(x), Some(y)) if x == y => {},
        (x, y) => return Err(format!("tokenizing and parsing disagree about the encoding of {:?}: {:?} and {y:?}", lossy(b), x.as_ref().err())),
    }
    match (call("safe_string", n, || safe_string(b, &o).map(|s| s.as_bytes() == b))?, &cst.unsafe_character_encoding) {
        (Ok(true), None) => {},
        (Err(x), Some(y)) if x == *y => obs.count("unsafe inputs"),
        (x, y) => return Err(format!("safe_string and parsing disagree about the encoding of {:?}: {x:?} and {y:?}", lossy(b))),
    }
    if let Ok(s) = std::str::from_utf8(b) {
        obs.count("text entry points");
        same("parse_cst_seq and parse_bytes_cst_seq", &record_cst(&call("parse_cst_seq", n, || parse_cst_seq(s, &o))?), &rec, b)?;
        same("parse_ast_seq and parse_bytes_ast_seq", &record_ast(&call("parse_ast_seq", n, || parse_ast_seq(s, &o))?), &rec_a, b)?;
        let t = call("tokenize", n, || tokenize(s, &o))?;
        if let Ok(u) = &toks {
            same("tokenize and tokenize_bytes", &record_toks(&t), &record_toks(u), b)?;
        }
        // the iterator gives the same tokens, except that tokens open at the end are not cut back
        let it: Vec<String> = call("iter::tokens", n, || iter::tokens(s, &o).map(|t| format!("{t:?}")).collect())?;
        for (i, t) in t.0.iter().enumerate() {
            if unterminated(kind_name(t.tok)) {
                break;
            }
            if it.get(i).map(|x| &x[..]) != Some(&format!("{t:?}")[..]) {
                return Err(format!("tokenize and iter::tokens differ on {:?}: {:?} and {:?}", lossy(b), t, it.get(i)));
            }
        }
        if it.len() != t.0.len() {
            return Err(format!("iter::tokens gives {} tokens, tokenize {} on {:?}", it.len(), t.0.len(), lossy(b)));
        }
        let single = cst.syntax.0.len() == 1;
        let one = call("parse_cst", n, || parse_cst(s, &o));
        match one {
            Ok(r) => {
                obs.count("single-item entry points");
                same("parse_cst and parse_cst_seq", &record(&r, format!("{:?}", r.syntax)), &rec, b)?
            },
            Err(e) if single => return Err(format!("parse_cst refuses the single item of {:?}: {e}", lossy(b))),
            Err(_) => {},
        }
        match call("parse_ast", n, || parse_ast(s, &o)) {
            Ok(r) => same("parse_ast and parse_ast_seq", &record(&r, format!("{:?}", r.syntax)), &rec_a, b)?,
            Err(e) if ast.syntax.0.len() == 1 => return Err(format!("parse_ast refuses the single item of {:?}: {e}", lossy(b))),
            Err(_) => {},
        }
    }
    if cst.syntax.0.len() == 1 {
        let r = call("parse_bytes_cst", n, || parse_bytes_cst(b, &o))?;
        same("parse_bytes_cst and parse_bytes_cst_seq", &record(&r, format!("{:?}", r.syntax)), &rec, b)?;
    }
    if ast.syntax.0.len() == 1 {
        let r = call("parse_bytes_ast", n, || parse_bytes_ast(b, &o))?;
        same("parse_bytes_ast and parse_bytes_ast_seq", &record(&r, format!("{:?}", r.syntax)), &rec_a, b)?;
    }
    // abstraction by hand, and the rest of the result
    let q = c.opts.quirks();
    let hand = call("aggregate_cst_seq, abstract_cst", n, || {
        let r = parse_bytes_cst_seq(b, &o);
        let agg = abstract_cst::aggregate_cst_seq(r.syntax);
        agg.0.into_iter().map(|c| format!("{:?}", abstract_cst::abstract_cst(c, q))).collect::<Vec<_>>().join("\n")
    })?;
    same("abstract_cst of aggregate_cst_seq and parse_bytes_ast_seq", &record(&cst, hand.clone()), &rec_a, b)?;
    let one_by_one = call("aggregate_cst, abstract_cst", n, || {
        let r = parse_bytes_cst_seq(b, &o);
        r.syntax.0.into_iter().filter_map(abstract_cst::aggregate_cst).map(|c| format!("{:?}", abstract_cst::abstract_cst(c, q))).collect::<Vec<_>>().join("\n")
    })?;
    same("aggregate_cst one by one and aggregate_cst_seq", &one_by_one, &hand, b)?;
    // a tree with texts of its own abstracts alike
    let owned = call("into_owned_input, abstract_cst", n, || {
        let r = parse_bytes_cst_seq(b, &o);
        r.syntax.0.into_iter().filter_map(abstract_cst::aggregate_cst).map(|c| format!("{:?}", abstract_cst::abstract_cst(c.into_owned_input(), q))).collect::<Vec<_>>().join("\n")
    })?;
    same("abstraction of the owned tree and of the borrowed one", &owned, &hand, b)?;
    obs.count("abstraction by hand");

    // leaves of the tree and tokens: the same, unless a token depends on where it stands (file names, tags)
    if let Ok(t) = &toks {
        let mut ls = vec![];
        f.iter().for_each(|x| x.leaves(&mut ls));
        let special = |k: &str| matches!(k, "LessLess" | "GreaterGreater" | "GreaterGreaterGreater" | "ColonColon" | "Hash" | "HashHash" | "Percent" | "LinearSyntax_OpenParen");
        if !recovered(&f) && !ls.iter().any(|t| special(t.kind)) {
            // the parser knows whether a line end is inside a group, and that a closer closes nothing
            let norm = |k: &'static str| if k == "InternalNewline" { "ToplevelNewline" } else { k };
            let x: Vec<(&str, usize, usize, [Loc; 2])> = ls.iter().filter(|t| t.s < t.e).map(|t| (norm(t.kind), t.s, t.e, t.span)).collect();
            let mut y: Vec<(&str, usize, usize, [Loc; 2])> = t.0.iter().map(|t| tok(b, t)).map(|t| (norm(t.kind), t.s, t.e, t.span)).collect();
            for (x, y) in x.iter().zip(y.iter_mut()) {
                if matches!(x.0, "Error_UnexpectedCloser" | "Error_UnsupportedToken") {
                    y.0 = x.0;
                }
            }
            if x != y {
                let i = x.iter().zip(&y).position(|(x, y)| x != y).unwrap_or(x.len().min(y.len()));
                return Err(format!("leaves of the tree and tokens of {:?} differ: {:?} and {:?}", lossy(b), x.get(i), y.get(i)));
            }
            obs.count("tokens and leaves");
        }
        // the single-token entry point
        let r = call("parse_to_token", n, || parse_to_token(b, &o, StringifyMode::Normal))?;
        if r.syntax.0.len() != 1 {
            return Err(format!("parse_to_token gives {} tokens", r.syntax.0.len()));
        }
        let k = kind_name(r.syntax.0[0].tok);
        match t.0.first() {
            None if k == "EndOfFile" => {},
            Some(t) if unterminated(kind_name(t.tok)) || *t == r.syntax.0[0] => obs.count("single tokens"),
            x => return Err(format!("the first token of {:?} is {x:?}, parse_to_token gives {:?}", lossy(b), r.syntax.0[0])),
        }
    }
    obs.sig(&super::syntax::shape(&f));
    Ok(())
}

// ---- P12 determinism ------------------------------------------------------------------------------------

pub static P12: Prop = Prop {
    id: "P12",
    rule: "distinct (history of calls, input shape) after which a call returned the same as in a fresh thread",
    assumptions: &["a fresh thread has fresh thread-local state"],
    sys_len: |th| (pieces().len() * if th { 40 } else { 8 }) as u64,
    sys_case: |_, i| {
        // each piece of the lexicon after another one: those next to it in the list first
        let (n, k) = (pieces().len(), i as usize % pieces().len());
        let d = match i as usize / n {
            0 => 1,
            1 => n - 1,
            2 => 2,
            j => crate::rng::hash_bytes(&i.to_le_bytes()) as usize % n + j,
        };
        Case::new(pieces()[k].clone()).aux(pieces()[(k + d) % n].clone()).n(i)
    },
    random: |r| {
        let b = if r.chance(1, 4) { gen::bytes(r, 30) } else { rnd_source(r) };
        let o = rnd_opts(r, true);
        let n = r.next();
        Case::new(b).opts(o).n(n)
    },
    check: p12,
    quick_n: 90_000,
    thorough_n: 1_000_000,
    need: &["pairs of calls", "fresh threads", "histories", "concurrent calls", "other surroundings"],
};

/// One of the operations of the public interface; everything it returned.
fn operation(k: usize, b: &[u8], o: &Opts) -> String {
    let p = o.make();
    let r = call("an operation", b.len(), || match k {
        0 => record_cst(&parse_bytes_cst_seq(b, &p)),
        1 => record_ast(&parse_bytes_ast_seq(b, &p)),
        2 => match tokenize_bytes(b, &p) {
            Ok(t) => record_toks(&t),
            Err(e) => format!("{e:?}"),
        },
        3 => {
            let r = parse_to_token(b, &p, StringifyMode::Tag);
            record(&r, record_toks(&r.syntax))
        },
        4 => {
            let r = parse_to_token(b, &p, StringifyMode::File);
            record(&r, record_toks(&r.syntax))
        },
        5 => format!("{:?}", safe_string(b, &p).map(|s| s.to_string()).map_err(|e| format!("{e:?}"))),
        _ => match std::str::from_utf8(b) {
            Ok(s) => format!("{:?} {:?}", iter::source_chars(s, &p).collect::<Vec<_>>(), iter::wolfram_chars(s, &p).collect::<Vec<_>>()),
            Err(_) => String::new(),
        },
    });
    r.unwrap_or_else(|e| e)
}

/// A thread with a stack like that of the workers: deep trees need it.
fn deep() -> std::thread::Builder {
    std::thread::Builder::new().stack_size(256 << 20)
}

const SURROUND: &[&[u8]] = &[b"", b"1", b"\\", b"\"", b"(*", b"]", b"\n", b"\xe2\x82", b"\x80", b"a", b" ", b"=", b"*)", b"\r", b"`", b"[Alpha]", b"#!"];

/// Small pieces of source: named characters in every spelling, words of the lexicon.
fn pieces() -> &'static Vec<Vec<u8>> {
    static T: std::sync::OnceLock<Vec<Vec<u8>>> = std::sync::OnceLock::new();
    T.get_or_init(|| {
        let mut v: Vec<Vec<u8>> = gen::longnames().iter().map(|l| format!("\\[{}]", l.name).into_bytes()).collect();
        v.extend(gen::longnames().iter().filter_map(|l| l.ch).map(|c| c.to_string().into_bytes()));
        v.extend(gen::op_kinds().iter().map(|k| format!("a{}b", gen::spell(k)).into_bytes()));
        v
    })
}

fn p12(c: &Case, obs: &mut Obs) -> Result<(), String> {
    let b = &c.input[..];
    if !c.aux.is_empty() {
        // one call after another one, on a new thread
        for k in [0, 6] {
            let alone = std::thread::scope(|s| deep().spawn_scoped(s, || operation(k, b, &c.opts)).unwrap().join().map_err(|_| "thread died".to_string()))?;
            let (first, after) = std::thread::scope(|s| {
                deep()
                    .spawn_scoped(s, || {
                        let first = operation(k, &c.aux, &c.opts);
                        (first, operation(k, b, &c.opts))
                    })
                    .unwrap()
                    .join()
                    .map_err(|_| "thread died".to_string())
            })?;
            same(&format!("the result of a call, and of the same call after one on {:?},", lossy(&c.aux)), &after, &alone, b)?;
            obs.sig(&(k, first == after, alone.len()));
        }
        obs.count("pairs of calls");
        return Ok(());
    }
    let mut r = Rng::new(c.n);
    let k = r.below(7);
    // the reference: the call alone in a thread of its own
    let fresh = if r.chance(1, 8) {
        obs.count("fresh threads");
        std::thread::scope(|s| deep().spawn_scoped(s, || operation(k, b, &c.opts)).unwrap().join().map_err(|_| "thread died".to_string()))?
    } else {
        operation(k, b, &c.opts)
    };
    // a history of other calls, with other inputs and other options
    let mut hist = vec![];
    for _ in 0..1 + r.below(4) {
        let mut o = rnd_opts(&mut r, true);
        let h = if r.chance(1, 2) {
            // what differs least is most likely to be mistaken for the same
            o = c.opts;
            match r.below(5) {
                0 => o.infix_at = !o.infix_at,
                1 => o.flatten_times = !o.flatten_times,
                2 => o.old_at3 = !o.old_at3,
                3 => o.char_index = !o.char_index,
                _ => o.tab += 1,
            }
            b.to_vec()
        } else {
            rnd_source(&mut r)
        };
        let kk = r.below(7);
        hist.push(kk);
        operation(kk, &h, &o);
        if r.chance(1, 4) {
            quirks::set_quirks(o.quirks());
        }
    }
    obs.count("histories");
    same("the result of a call, and of the same call after other calls,", &operation(k, b, &c.opts), &fresh, b)?;
    // the same bytes inside a larger buffer
    let (pre, post) = (*r.pick(SURROUND), *r.pick(SURROUND));
    let mut buf = pre.to_vec();
    buf.extend_from_slice(b);
    buf.extend_from_slice(post);
    obs.count("other surroundings");
    same("the result of a call, and of the same call on a part of a larger buffer,", &operation(k, &buf[pre.len()..pre.len() + b.len()], &c.opts), &fresh, b)?;
    // several threads at once, each with its own options, all repeating
    if r.chance(1, 8) {
        let others: Vec<(usize, Vec<u8>, Opts)> = (0..3).map(|_| {
            let mut o = rnd_opts(&mut r, true);
            o.flatten_times = !c.opts.flatten_times;
            o.old_at3 = !c.opts.old_at3;
            (r.below(2), if r.chance(1, 2) { b.to_vec() } else { rnd_source(&mut r) }, o)
        }).collect();
        let want: Vec<String> = others.iter().map(|(k, b, o)| operation(*k, b, o)).collect();
        let bad = std::thread::scope(|s| {
            let mut hs = vec![];
            for (i, (k, b, o)) in others.iter().enumerate() {
                let want = &want;
                hs.push(deep().spawn_scoped(s, move || (0..3).all(|_| operation(*k, b, o) == want[i])).unwrap());
            }
            let here = (0..3).all(|_| operation(k, b, &c.opts) == fresh);
            let rest: Vec<bool> = hs.into_iter().map(|h| h.join().unwrap_or(false)).collect();
            !(here && rest.iter().all(|x| *x))
        });
        obs.add("concurrent calls", 12);
        if bad {
            return Err(format!("calls in concurrent threads return something else than alone, on {:?}", lossy(b)));
        }
    }
    obs.sig(&(hist, k, fresh.len()));
    Ok(())
}

// ---- P13 quirks -------------------------------------------------------------------------------------------

pub static P13: Prop = Prop {
    id: "P13",
    rule: "distinct abstract tree shapes that differ between quirk settings exactly as documented",
    assumptions: &["reference abstraction harness/src/model/abs.rs for what each quirk does; everything else is compared between executions"],
    sys_len: p13_len,
    sys_case: p13_case,
    random: |r| {
        let b = if r.chance(1, 2) { quirky(r) } else { rnd_source(r) };
        let o = rnd_opts(r, false);
        Case::new(b).opts(o)
    },
    check: p13,
    quick_n: 60_000,
    thorough_n: 1_500_000,
    need: &["old_at_at_at matters", "flatten_times matters", "infix_binary_at matters", "no quirk matters"],
};

const QATOMS: &[&str] = &["a", "b", "1", "0", "-1", "(a)", "(-1)", "(a/b)", "f[x]", "-x", "Plus@x", "Times@y", "Plus@@x", "And@x", "Divisible@x", "{1}", "System`Times@x", "Plus[x]", "-(a b)", "(Times@x)", "StringJoin@s", "SameQ@x", "f@x", "a@@@b"];
const QOPS: &[&str] = &["@@@", "/", "*", " ", "+", "-", "&&", "<>", ".", "===", "==", "|", ";", "->", "@", "\\[Divide]", "\\[Minus]", "~~", "/;", "**"];

fn quirky(r: &mut Rng) -> Vec<u8> {
    let mut s = String::new();
    if r.chance(1, 6) {
        s.push_str(*r.pick(&["-", "!", "--", "+", "f[", "{"]));
    }
    s.push_str(*r.pick(QATOMS));
    for _ in 0..1 + r.below(4) {
        s.push_str(*r.pick(QOPS));
        s.push_str(*r.pick(QATOMS));
    }
    s.into_bytes()
}

fn p13_len(_: bool) -> u64 {
    let (a, o) = (QATOMS.len() as u64, QOPS.len() as u64);
    a * o * a
}
fn p13_case(_: bool, i: u64) -> Case {
    let (a, o) = (QATOMS.len() as u64, QOPS.len() as u64);
    Case::new(format!("{}{}{}", QATOMS[(i % a) as usize], QOPS[(i / a % o) as usize], QATOMS[(i / a / o) as usize]))
}

fn p13(c: &Case, obs: &mut Obs) -> Result<(), String> {
    let b = &c.input[..];
    let mut first: Option<(String, String)> = None;
    let mut real: Vec<Vec<A>> = vec![];
    let mut stripped = vec![];
    for q in 0..8 {
        let o = Opts { infix_at: q & 1 != 0, flatten_times: q & 2 != 0, old_at3: q & 4 != 0, ..c.opts };
        let x = (operation(0, b, &o), operation(2, b, &o));
        match &first {
            None => {
                first = Some(x);
                stripped = strip(&run_cst(b, &o)?.forest);
            },
            Some(y) => {
                same("concrete trees, issues or locations under two quirk settings", &x.0, &y.0, b)?;
                same("tokens under two quirk settings", &x.1, &y.1, b)?;
            },
        }
        let a = run_ast(b, &o)?;
        let want = abs(b, &o).all(&stripped);
        if let Some(d) = differ(&a, &want, false) {
            return Err(format!("under quirk settings {:?}: {d}\n  input    {:?}\n  got      {}\n  expected {}", o.quirks(), lossy(b), show(&a), show(&want)));
        }
        real.push(a);
    }
    let mut any = false;
    for (bit, name) in [(1, "infix_binary_at matters"), (2, "flatten_times matters"), (4, "old_at_at_at matters")] {
        for q in 0..8usize {
            if q & bit == 0 && differ(&real[q], &real[q | bit], false).is_some() {
                any = true;
                obs.count(name);
                obs.sig(&(bit, show(&real[q]).replace(char::is_alphanumeric, "")));
            }
        }
    }
    // what a quirk may touch at all: without such text in the input, nothing
    let text = lossy(b);
    let may = text.contains("@@@") || text.contains('@') || text.contains('/') || text.contains('*') || text.contains('-') || text.contains("\\[") || text.contains("\\:") || text.contains("\\.") || text.contains("\\|") || !text.is_ascii() || text.contains('\\');
    if any && !may {
        return Err(format!("quirk settings change the abstract tree of {:?}, which has none of the constructs they are about", lossy(b)));
    }
    if !any {
        obs.count("no quirk matters");
    } else {
        obs.sample(|| format!("{:?}: {} | {}", text, show(&real[1]), show(&real[6])));
    }
    Ok(())
}

// ---- P15 top-level expressions do not influence each other ------------------------------------------------

pub static P15: Prop = Prop {
    id: "P15",
    rule: "distinct pairs of shapes that parsed on consecutive lines as they do alone",
    assumptions: &["the first part parses without error"],
    sys_len: no_sys,
    sys_case: no_sys_case,
    random: |r| {
        let a = if r.chance(1, 3) { rnd_source(r) } else {
            let w = gen::expr_words(r, 3, 1, 0);
            gen::glue(r, &w, 1).into_bytes()
        };
        let a = if r.chance(1, 30) { gen::scaled(r) } else { a };
        let b = if r.chance(1, 4) { gen::text(r, 30) } else { rnd_source(r) };
        let mut o = rnd_opts(r, false);
        o.first_line = 0;
        let n = r.next();
        Case::new(a).aux(b).opts(o).n(n)
    },
    check: p15,
    quick_n: 250_000,
    thorough_n: 5_000_000,
    need: &["pairs", "issues moved", "second part has errors"],
};

fn lines(b: &[u8]) -> u32 {
    let mut n = 0;
    let mut i = 0;
    while i < b.len() {
        if b[i] == b'\r' {
            n += 1;
            if b.get(i + 1) == Some(&b'\n') {
                i += 1;
            }
        } else if b[i] == b'\n' {
            n += 1;
        }
        i += 1;
    }
    n
}

fn moved(l: Loc, o: &Opts, prefix: &[u8]) -> Loc {
    if o.char_index {
        Loc(l.0 + String::from_utf8_lossy(prefix).chars().count() as u32, 0)
    } else {
        Loc(l.0 + lines(prefix), l.1)
    }
}

pub fn shift(f: &[Tree], d: usize, mv: &dyn Fn(Loc) -> Loc) -> Vec<Tree> {
    f.iter()
        .map(|t| match t {
            Tree::Leaf(t) => Tree::Leaf(Tok { s: t.s + d, e: t.e + d, span: t.span.map(mv), ..*t }),
            Tree::Node { class, op, ch } => Tree::Node { class, op, ch: shift(ch, d, mv) },
        })
        .collect()
}

pub fn shift_a(a: &A, mv: &dyn Fn(Loc) -> Loc) -> A {
    A { span: a.span.map(|s| s.map(mv)), ch: a.ch.iter().map(|c| shift_a(c, mv)).collect(), issues: vec![], ..a.clone() }
}

fn bare(a: &A) -> A {
    shift_a(a, &|l| l)
}

/// tag, severity, where: an issue without its wording
pub fn issue_key(i: &issue::Issue, mv: &dyn Fn(Loc) -> Loc) -> String {
    format!("{} {} {:?} {:?} {:?} {}", i.tag.as_str(), sev(i.sev), source_span(&i.src).map(|s| s.map(mv)), i.val, i.msg, i.actions.iter().map(|a| action_key(a, mv)).collect::<Vec<_>>().join("; "))
}

pub fn action_key(a: &issue::CodeAction, mv: &dyn Fn(Loc) -> Loc) -> String {
    let src = span(a.src).map(mv);
    format!("{} {src:?} {:?}", a.label, a.kind)
}

fn p15(c: &Case, obs: &mut Obs) -> Result<(), String> {
    let (a, b) = (&c.input[..], &c.aux[..]);
    let mut r = Rng::new(c.n);
    let sep: &[u8] = if a.last() == Some(&b'\r') { b" \n" } else { *r.pick(&[&b"\n"[..], b"\n", b"\r\n", b"\n\n", b"\n \n"]) };
    let fa = run_cst(a, &c.opts)?;
    if has_error(&fa.forest) || fa.flag.is_some() {
        obs.count("first part not complete");
        return Ok(());
    }
    let fb = run_cst(b, &c.opts)?;
    // a chain of an n-ary operator goes on when the next line begins with the same operator
    let mut ls = vec![];
    fb.forest.iter().for_each(|t| t.leaves(&mut ls));
    if let Some(t) = ls.iter().find(|t| t.s < t.e && !is_trivia(t.kind)) {
        let mut spine = vec![];
        let mut cur = fa.forest.iter().rev().find(|t| !matches!(t, Tree::Leaf(t) if is_trivia(t.kind)));
        while let Some(Tree::Node { class, op, ch }) = cur {
            if *class == "Infix" {
                spine.push(*op);
            } else if *class == "Prefix" && op.ends_with("Integral") {
                spine.push("d"); // an integral goes on with the next line's differential
            }
            cur = ch.last();
        }
        let op = match t.kind {
            "Semi" => Some("CompoundExpression"),
            "Comma" | "LongName_InvisibleComma" => Some("CodeParser_Comma"),
            "ColonColon" => Some("MessageName"),
            "LongName_DifferentialD" | "LongName_CapitalDifferentialD" => Some("d"),
            "Star" | "LongName_Times" | "LongName_InvisibleTimes" => Some("Times"),
            k => crate::model::parse::ops().iter().find(|o| o.class == "Infix" && o.kind == k).map(|o| o.op),
        };
        if op.map_or(false, |o| spine.contains(&o)) {
            obs.count("chain goes on");
            return Ok(());
        }
    }
    let mut w = a.to_vec();
    w.extend_from_slice(sep);
    let d = w.len();
    let pre = w.clone();
    w.extend_from_slice(b);
    let mv = |l: Loc| moved(l, &c.opts, &pre);
    let id = |l: Loc| l;
    let got = run_cst(&w, &c.opts)?;
    // the middle: the separator only
    let mut want = fa.forest.clone();
    let n = want.len();
    want.extend(shift(&fb.forest, d, &mv));
    let m = got.forest.len().saturating_sub(want.len());
    let mid: Vec<&Tree> = got.forest.iter().skip(n).take(m).collect();
    let mid_ok = m >= 1 && mid.iter().all(|t| matches!(t, Tree::Leaf(t) if matches!(t.kind, "ToplevelNewline" | "Whitespace")));
    let mut rest = got.forest.clone();
    if mid_ok {
        rest.drain(n..n + m);
    }
    if !mid_ok || rest != want {
        return Err(format!(
            "two parts parse differently when they follow each other on separate lines\n  {:?} -> {}\n  {:?} -> {}\n  together -> {}",
            lossy(a), show_forest(a, &fa.forest), lossy(b), show_forest(b, &fb.forest), show_forest(&w, &got.forest)
        ));
    }
    let (xa, xb, xw) = (run_ast(a, &c.opts)?, run_ast(b, &c.opts)?, run_ast(&w, &c.opts)?);
    let mut want: Vec<A> = xa.iter().map(bare).collect();
    want.extend(xb.iter().map(|x| shift_a(x, &mv)));
    if let Some(e) = differ(&xw.iter().map(bare).collect::<Vec<_>>(), &want, true) {
        return Err(format!("abstract trees of two parts differ when they follow each other on separate lines: {e}\n  {:?} {:?}", lossy(a), lossy(b)));
    }
    // issues and tracked places
    let mut want: Vec<String> = fa.nonfatal.iter().map(|i| issue_key(i, &id)).chain(fb.nonfatal.iter().map(|i| issue_key(i, &mv))).collect();
    let mut have: Vec<String> = got.nonfatal.iter().map(|i| issue_key(i, &id)).collect();
    want.sort();
    have.sort();
    if want != have {
        return Err(format!("issues of two parts differ when they follow each other on separate lines\n  {:?} {:?}\n  have {:?}\n  want {:?}", lossy(a), lossy(b), have, want));
    }
    obs.add("issues moved", fb.nonfatal.len() as u64);
    if got.flag != fb.flag {
        return Err(format!("encoding flag {:?} instead of {:?} for {:?} {:?}", got.flag, fb.flag, lossy(a), lossy(b)));
    }
    for i in 0..4 {
        let mut want = fa.tracked[i].clone();
        want.extend(fb.tracked[i].iter().map(|l| mv(*l)));
        want.sort();
        if want != got.tracked[i] {
            return Err(format!("tracked places ({i}) of two parts differ on separate lines: {:?} {:?}: {:?} instead of {:?}", lossy(a), lossy(b), got.tracked[i], want));
        }
    }
    obs.count("pairs");
    if has_error(&fb.forest) {
        obs.count("second part has errors");
    }
    obs.sig(&(super::syntax::shape(&fa.forest), super::syntax::shape(&fb.forest)));
    obs.sample(|| format!("{:?} then {:?}", lossy(a), lossy(b)));
    Ok(())
}

// ---- P19 options that are about positions change positions only ---------------------------------------------

pub static P19: Prop = Prop {
    id: "P19",
    rule: "distinct tree shapes that were the same under other source conventions, tab widths and encoding modes",
    assumptions: &["inputs that end inside a group or token are compared within one source convention only"],
    sys_len: corpus_len,
    sys_case: corpus_case,
    random: |r| {
        let b = if r.chance(1, 4) { gen::bytes(r, 30) } else { rnd_source(r) };
        let o = rnd_opts(r, true);
        let n = r.next();
        Case::new(b).opts(o).n(n)
    },
    check: p19,
    quick_n: 90_000,
    thorough_n: 3_000_000,
    need: &["conventions compared", "tab widths compared", "encoding modes compared", "positions matched", "issues matched"],
};

fn p19(c: &Case, obs: &mut Obs) -> Result<(), String> {
    let b = &c.input[..];
    let base = run_cst(b, &c.opts)?;
    let base_a = run_ast(b, &c.opts)?;
    let mut r = Rng::new(c.n);
    for v in 0..3 {
        let mut o = c.opts;
        let what = match v {
            0 => {
                o.char_index = !o.char_index;
                "source convention"
            },
            1 => {
                o.tab = *r.pick(&[1, 2, 3, 4, 7, 8, 16]);
                "tab width"
            },
            _ => {
                o.boxed = !o.boxed;
                "encoding mode"
            },
        };
        let other = run_cst(b, &o)?;
        if v == 0 && recovered(&base.forest) {
            obs.count("skipped");
            continue;
        }
        obs.count(["conventions compared", "tab widths compared", "encoding modes compared"][v]);
        let (x, y) = (skel(b, &base.forest), skel(b, &other.forest));
        if x != y {
            return Err(format!("the {what} changes the tree of {:?} ({} and {})\n  {x}\n  {y}", lossy(b), c.opts.show(), o.show()));
        }
        // every place in one result corresponds to exactly one place in the other
        let mut there: std::collections::HashMap<Loc, Loc> = Default::default();
        let mut back: std::collections::HashMap<Loc, Loc> = Default::default();
        let mut meet = |p: Loc, q: Loc| -> Result<(), String> {
            if *there.entry(p).or_insert(q) != q || *back.entry(q).or_insert(p) != p {
                return Err(format!("under another {what}, {p:?} corresponds to {q:?}, and elsewhere to {:?}/{:?}, in {:?} ({} and {})", there.get(&p), back.get(&q), lossy(b), c.opts.show(), o.show()));
            }
            Ok(())
        };
        let (mut l1, mut l2) = (vec![], vec![]);
        base.forest.iter().for_each(|t| t.leaves(&mut l1));
        other.forest.iter().for_each(|t| t.leaves(&mut l2));
        // a token open at the end has an end of its own
        for (p, q) in l1.iter().zip(&l2) {
            if (p.s, p.e) != (q.s, q.e) {
                return Err(format!("the {what} moves a leaf: {p:?} and {q:?} in {:?}", lossy(b)));
            }
            meet(p.span[0], q.span[0])?;
            if !unterminated(p.kind) {
                meet(p.span[1], q.span[1])?;
            }
            obs.count("positions matched");
        }
        let a = run_ast(b, &o)?;
        if let Some(d) = differ(&a, &base_a, false) {
            return Err(format!("the {what} changes the abstract tree of {:?}: {d}", lossy(b)));
        }
        // the same issues, but for those that the encoding mode turns off
        let keep = |i: &&issue::Issue| v != 2 || i.tag.as_str() != "NonASCIICharacter";
        let key = |i: &issue::Issue| format!("{} {} {:?} {:?} {}", i.tag.as_str(), sev(i.sev), i.val, i.msg, i.actions.iter().map(|a| a.label.clone()).collect::<Vec<_>>().join("; "));
        for (p, q, which) in [(&base.fatal, &other.fatal, "fatal"), (&base.nonfatal, &other.nonfatal, "other")] {
            let p: Vec<&issue::Issue> = p.iter().filter(keep).collect();
            let q: Vec<&issue::Issue> = q.iter().filter(keep).collect();
            let (x, y): (Vec<String>, Vec<String>) = (p.iter().map(|i| key(i)).collect(), q.iter().map(|i| key(i)).collect());
            if x != y {
                return Err(format!("the {what} changes the {which} issues of {:?} ({} and {})\n  {x:?}\n  {y:?}", lossy(b), c.opts.show(), o.show()));
            }
            obs.add("issues matched", x.len() as u64);
        }
        if base.flag != other.flag {
            return Err(format!("the {what} changes the encoding flag of {:?}", lossy(b)));
        }
        for i in 0..4 {
            if base.tracked[i].len() != other.tracked[i].len() {
                return Err(format!("the {what} changes the tracked places ({i}) of {:?}: {:?} and {:?}", lossy(b), base.tracked[i], other.tracked[i]));
            }
            for (p, q) in base.tracked[i].iter().zip(&other.tracked[i]) {
                meet(*p, *q)?;
            }
        }
    }
    obs.sig(&super::syntax::shape(&base.forest));
    Ok(())
}
