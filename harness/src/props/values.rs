//! The values the interface hands out: trees and what walks them, positions, names and printed forms.

use super::syntax::{rnd_source, shape};
use super::*;
use crate::runner::*;
use std::fmt::Debug;
use wolfram_parser::cst::*;
use wolfram_parser::source::{BoxPosition, CharacterSpan, LineColumn, LineColumnSpan, Location, Source, Span, SpanKind};
use wolfram_parser::tokenize::{Token, TokenInput, TokenKind, TokenSource, TokenStr};

// ---- P20 trees and what walks them ----------------------------------------------------------------------

/// Children of a node, in order, found without the visitors of the library.
fn kids<I, S>(c: &Cst<I, S>) -> Vec<&Cst<I, S>> {
    match c {
        Cst::Token(_) | Cst::Code(_) => vec![],
        Cst::Call(CallNode { head, body }) => {
            let mut v: Vec<&Cst<I, S>> = match head {
                CallHead::Concrete(s) => s.0.iter().collect(),
                CallHead::Aggregate(h) => vec![&**h],
            };
            match body {
                CallBody::Group(GroupNode(n)) => v.extend(n.children.0.iter()),
                CallBody::GroupMissingCloser(GroupMissingCloserNode(n)) => v.extend(n.children.0.iter()),
            }
            v
        },
        Cst::SyntaxError(n) => n.children.0.iter().collect(),
        Cst::Prefix(PrefixNode(n)) => n.children.0.iter().collect(),
        Cst::Infix(InfixNode(n)) => n.children.0.iter().collect(),
        Cst::Postfix(PostfixNode(n)) => n.children.0.iter().collect(),
        Cst::Binary(BinaryNode(n)) => n.children.0.iter().collect(),
        Cst::Ternary(TernaryNode(n)) => n.children.0.iter().collect(),
        Cst::PrefixBinary(PrefixBinaryNode(n)) => n.children.0.iter().collect(),
        Cst::Compound(CompoundNode(n)) => n.children.0.iter().collect(),
        Cst::Group(GroupNode(n)) => n.children.0.iter().collect(),
        Cst::GroupMissingCloser(GroupMissingCloserNode(n)) => n.children.0.iter().collect(),
        Cst::GroupMissingOpener(GroupMissingOpenerNode(n)) => n.children.0.iter().collect(),
        Cst::Box(b) => b.children.0.iter().collect(),
    }
}

/// What tells a node from others, without its children.
fn label<I: TokenInput, S: Debug>(c: &Cst<I, S>) -> String {
    match c {
        Cst::Token(t) => format!("Token {:?} {} {:?}", t.tok, gen::escape(t.input.as_bytes()), t.src),
        Cst::Code(n) => format!("Code {} {} {:?}", n.first, n.second, n.src),
        Cst::Box(n) => format!("Box {:?} {:?}", n.kind, n.src),
        Cst::Call(CallNode { head, body }) => format!(
            "Call {} {}",
            match head {
                CallHead::Concrete(s) => format!("{}", s.0.len()),
                CallHead::Aggregate(_) => "aggregate".into(),
            },
            match body {
                CallBody::Group(GroupNode(n)) => format!("Group {:?}", n.op),
                CallBody::GroupMissingCloser(GroupMissingCloserNode(n)) => format!("GroupMissingCloser {:?}", n.op),
            }
        ),
        Cst::SyntaxError(n) => format!("SyntaxError {:?}", n.err),
        Cst::Prefix(PrefixNode(n)) => format!("Prefix {:?}", n.op),
        Cst::Infix(InfixNode(n)) => format!("Infix {:?}", n.op),
        Cst::Postfix(PostfixNode(n)) => format!("Postfix {:?}", n.op),
        Cst::Binary(BinaryNode(n)) => format!("Binary {:?}", n.op),
        Cst::Ternary(TernaryNode(n)) => format!("Ternary {:?}", n.op),
        Cst::PrefixBinary(PrefixBinaryNode(n)) => format!("PrefixBinary {:?}", n.op),
        Cst::Compound(CompoundNode(n)) => format!("Compound {:?}", n.op),
        Cst::Group(GroupNode(n)) => format!("Group {:?}", n.op),
        Cst::GroupMissingCloser(GroupMissingCloserNode(n)) => format!("GroupMissingCloser {:?}", n.op),
        Cst::GroupMissingOpener(GroupMissingOpenerNode(n)) => format!("GroupMissingOpener {:?}", n.op),
    }
}

fn preorder<'a, I, S>(c: &'a Cst<I, S>, out: &mut Vec<&'a Cst<I, S>>) {
    out.push(c);
    for k in kids(c) {
        preorder(k, out);
    }
}

fn labels<I: TokenInput, S: Debug>(s: &CstSeq<I, S>) -> Vec<String> {
    let mut v = vec![];
    for c in &s.0 {
        all_labels(c, &mut v);
    }
    v
}

fn all_labels<I: TokenInput, S: Debug>(c: &Cst<I, S>, out: &mut Vec<String>) {
    out.push(label(c));
    for k in kids(c) {
        all_labels(k, out);
    }
    out.push("]".into());
}

/// The same without trivia; the head of a call becomes one expression.
fn agg_labels<I: TokenInput, S: Debug>(c: &Cst<I, S>, out: &mut Vec<String>) {
    if dropped(c) {
        return;
    }
    let l = label(c);
    out.push(match c {
        Cst::Call(_) => format!("Call aggregate {}", l.splitn(3, ' ').nth(2).unwrap()),
        _ => l,
    });
    for k in kids(c) {
        agg_labels(k, out);
    }
    out.push("]".into());
}

fn dropped<I, S>(c: &Cst<I, S>) -> bool {
    matches!(
        c,
        Cst::Token(Token {
            tok: TokenKind::Whitespace | TokenKind::InternalNewline | TokenKind::ToplevelNewline | TokenKind::Comment | TokenKind::Boxes_MultiWhitespace,
            ..
        })
    )
}

const BOXES: &[BoxKind] = &[
    BoxKind::RowBox, BoxKind::GridBox, BoxKind::TagBox, BoxKind::TemplateBox, BoxKind::InterpretationBox, BoxKind::SubscriptBox, BoxKind::SuperscriptBox,
    BoxKind::StyleBox, BoxKind::NamespaceBox, BoxKind::OverscriptBox, BoxKind::SubsuperscriptBox, BoxKind::GraphicsBox,
];

/// Put in node classes the parser itself does not make: boxes, embedded code, groups without an opener.
fn decorate<'i>(r: &mut Rng, c: Cst<TokenStr<'i>>, obs: &mut Obs) -> Cst<TokenStr<'i>> {
    let seq = |r: &mut Rng, s: CstSeq<TokenStr<'i>>, obs: &mut Obs| -> CstSeq<TokenStr<'i>> { NodeSeq(s.0.into_iter().map(|c| decorate(r, c, obs)).collect()) };
    match c {
        Cst::Token(t) => match r.below(12) {
            0 => {
                obs.count("boxes put in");
                let n = r.range(1, 3);
                let src = t.src;
                Cst::Box(BoxNode { kind: r.pick(BOXES).clone(), children: NodeSeq((0..n).map(|_| Cst::Token(t.clone())).collect()), src })
            },
            1 => {
                obs.count("code put in");
                Cst::Code(CodeNode { first: wolfram_expr::Expr::from(r.below(3) as i64), second: wolfram_expr::Expr::string("s"), src: t.src })
            },
            2 if t.tok == TokenKind::Whitespace => Cst::Token(Token { tok: TokenKind::Boxes_MultiWhitespace, ..t }),
            _ => Cst::Token(t),
        },
        Cst::Group(GroupNode(mut n)) => {
            n.children = seq(r, n.children, obs);
            if r.chance(1, 6) {
                obs.count("missing openers put in");
                Cst::GroupMissingOpener(GroupMissingOpenerNode(n))
            } else {
                Cst::Group(GroupNode(n))
            }
        },
        Cst::Infix(InfixNode(mut n)) => {
            n.children = seq(r, n.children, obs);
            Cst::Infix(InfixNode(n))
        },
        Cst::Prefix(PrefixNode(mut n)) => {
            n.children = seq(r, n.children, obs);
            Cst::Prefix(PrefixNode(n))
        },
        Cst::Binary(BinaryNode(mut n)) => {
            n.children = seq(r, n.children, obs);
            Cst::Binary(BinaryNode(n))
        },
        Cst::Call(CallNode { head, body }) => {
            // trivia in the head stays what it is: there is one expression
            Cst::Call(CallNode { head, body: body.map_op(|mut n| { n.children = seq(r, n.children, obs); n }) })
        },
        c => c,
    }
}

/// Where a node lies: from its first leaf to its last.
fn extent(c: &Cst<TokenStr>) -> (Location, Location) {
    match c {
        Cst::Token(t) => t.src.start_end(),
        Cst::Box(b) => b.src.start_end(),
        Cst::Code(n) => n.src.start_end(),
        _ => {
            let k = kids(c);
            (extent(k[0]).0, extent(k[k.len() - 1]).1)
        },
    }
}

/// Some rewriting of single nodes, by kind.
fn rewrite<'i>(how: u64, c: Cst<TokenStr<'i>>) -> Cst<TokenStr<'i>> {
    match (how % 4, c) {
        (0, Cst::Token(mut t)) => {
            t.tok = TokenKind::Unknown;
            Cst::Token(t)
        },
        (1, Cst::Group(GroupNode(mut n))) => {
            // loses children
            n.children.0.truncate(1);
            Cst::Group(GroupNode(n))
        },
        (2, Cst::Infix(InfixNode(n))) => {
            // another class, with the children the other way round
            let mut ch = n.children;
            ch.0.reverse();
            Cst::SyntaxError(SyntaxErrorNode { err: wolfram_parser::parse::SyntaxErrorKind::ExpectedTilde, children: ch })
        },
        (3, Cst::Call(n)) => match n.head {
            CallHead::Concrete(mut s) => s.0.remove(0),
            CallHead::Aggregate(h) => *h,
        },
        (_, c) => c,
    }
}

pub static P20: Prop = Prop {
    id: "P20",
    rule: "distinct tree shapes walked, rewritten, copied and aggregated as their own structure says",
    assumptions: &[],
    sys_len: corpus_len,
    sys_case: corpus_case,
    random: |r| {
        let b = if r.chance(1, 5) { any_input(r, 30) } else { rnd_source(r) };
        let o = rnd_opts(r, false);
        Case::new(b).opts(o).n(r.next())
    },
    check: p20,
    quick_n: 250_000,
    thorough_n: 6_000_000,
    need: &["nodes visited", "boxes put in", "code put in", "missing openers put in", "rewritten", "aggregated", "calls with an aggregate head", "arguments of calls"],
};

fn p20(c: &Case, obs: &mut Obs) -> Result<(), String> {
    let b = &c.input[..];
    let seq = call("parse_bytes_cst_seq", b.len(), || parse_bytes_cst_seq(b, &c.opts.make()))?.syntax;
    p20_tree(b, &seq, c, obs)?;
    if c.n % 2 == 1 {
        let mut r = Rng::new(c.n);
        let NodeSeq(v) = seq.clone();
        let seq = NodeSeq(v.into_iter().map(|c| decorate(&mut r, c, obs)).collect());
        p20_tree(b, &seq, c, obs)?;
    }
    let f = forest(b, &seq);
    if f.iter().any(|t| matches!(t, Tree::Node { .. })) {
        obs.sig(&shape(&f));
        obs.sample(|| gen::escape(b));
    }
    Ok(())
}

/// Where the class of a node says it lies, and the node made from it again.
fn by_class<'i>(c: &Cst<TokenStr<'i>>) -> (Span, Cst<TokenStr<'i>>) {
    match c.clone() {
        Cst::Token(n) => (n.src, n.into()),
        Cst::Code(n) => (n.src, n.into()),
        Cst::Box(n) => (n.src, n.into()),
        Cst::Call(n) => {
            let s = n.get_source();
            let again = CallNode {
                head: match n.head {
                    CallHead::Aggregate(h) => CallHead::aggregate(*h),
                    h => h,
                },
                body: n.body,
            };
            (s, again.into())
        },
        Cst::SyntaxError(n) => (n.get_source(), n.into()),
        Cst::Prefix(n) => (n.get_source(), n.into()),
        Cst::Infix(n) => (n.get_source(), n.into()),
        Cst::Postfix(n) => (n.get_source(), n.into()),
        Cst::Binary(n) => (n.get_source(), n.into()),
        Cst::Ternary(n) => (n.get_source(), n.into()),
        Cst::PrefixBinary(n) => (n.get_source(), n.into()),
        Cst::Compound(n) => (n.get_source(), n.into()),
        Cst::Group(n) => (n.get_source(), n.into()),
        Cst::GroupMissingCloser(n) => (n.get_source(), n.into()),
        Cst::GroupMissingOpener(n) => (n.get_source(), n.into()),
    }
}

fn classes<'i>(n: usize, all: &[&Cst<TokenStr<'i>>], obs: &mut Obs) -> Result<(), String> {
    for c in all {
        let (s, again) = call("get_source of a class of nodes", n, || by_class(c))?;
        if s.start_end() != extent(c) {
            return Err(format!("by its class {} lies at {:?}, its leaves from {:?}", label(c), s.start_end(), extent(c)));
        }
        if again != **c {
            return Err(format!("made from its class again, {} is {}", label(c), label(&again)));
        }
        if let Cst::Call(CallNode { body, .. }) = c {
            let k: &[Cst<TokenStr>] = match body {
                CallBody::Group(GroupNode(n)) => &n.children.0,
                CallBody::GroupMissingCloser(GroupMissingCloserNode(n)) => &n.children.0,
            };
            let want = (extent(&k[0]).0, extent(&k[k.len() - 1]).1);
            let mut copy = body.clone();
            let got = call("CallBody::get_source", n, || (body.get_source(), body.as_op().get_source(), copy.as_op_mut().get_source()))?;
            if [got.0, got.1, got.2].iter().any(|s| s.start_end() != want) {
                return Err(format!("the arguments of {} lie at {got:?}, their leaves from {want:?}", label(c)));
            }
            obs.count("arguments of calls");
        }
        let k = kids(c);
        let mut list: CstSeq<TokenStr<'i>> = NodeSeq(vec![]);
        for (i, x) in k.iter().enumerate() {
            if list.len() != i || list.is_empty() != (i == 0) {
                return Err(format!("a list of {i} nodes says it has {}", list.len()));
            }
            list.push((*x).clone());
        }
        if list.0.iter().zip(&k).any(|(x, y)| x != *y) || list.0.len() != k.len() {
            return Err(format!("the children of {}, put into a list, are not the same", label(c)));
        }
        list.clear();
        if !list.is_empty() || list.len() != 0 {
            return Err("a list is not empty after clear".into());
        }
    }
    Ok(())
}

fn p20_tree<'i>(b: &'i [u8], seq: &CstSeq<TokenStr<'i>>, c: &Case, obs: &mut Obs) -> Result<(), String> {
    let n = b.len();
    // visit: every node once, parents before children, in order
    let mut want: Vec<&Cst<TokenStr>> = vec![];
    seq.0.iter().for_each(|c| preorder(c, &mut want));
    let addr = |v: &[&Cst<TokenStr<'i>>]| -> Vec<usize> { v.iter().map(|c| *c as *const _ as usize).collect() };
    let mut got = vec![];
    call("CstSeq::visit", n, || seq.visit(&mut |c: &Cst<TokenStr>| got.push(c as *const _ as usize)))?;
    if got != addr(&want) {
        return Err(format!("CstSeq::visit came by {} nodes instead of {}, or in another order", got.len(), want.len()));
    }
    for c in &seq.0 {
        let (mut got, mut want) = (vec![], vec![]);
        call("Cst::visit", n, || c.visit(&mut |c: &Cst<TokenStr>| got.push(c as *const _ as usize)))?;
        preorder(c, &mut want);
        if got != addr(&want) {
            return Err(format!("Cst::visit came by {} nodes instead of {}, or in another order", got.len(), want.len()));
        }
    }
    obs.add("nodes visited", want.len() as u64);
    // the same, with leave to change them
    let mut copy = seq.clone();
    let want_mut: Vec<usize> = {
        let mut v = vec![];
        copy.0.iter().for_each(|c| preorder(c, &mut v));
        addr(&v)
    };
    let mut got = vec![];
    call("CstSeq::visit_mut", n, || copy.visit_mut(&mut |c: &mut Cst<TokenStr>| got.push(c as *const _ as usize)))?;
    if got != want_mut {
        return Err(format!("CstSeq::visit_mut came by {} nodes instead of {}, or in another order", got.len(), want_mut.len()));
    }
    if copy != *seq {
        return Err("CstSeq::visit_mut changed a tree by itself".into());
    }
    // mapping
    let base = labels(seq);
    let mut came = vec![];
    let same = call("CstSeq::map_visit", n, || {
        copy.map_visit(&mut |c: Cst<TokenStr<'i>>| {
            came.push(label(&c));
            c
        })
    })?;
    if same != *seq || labels(&same) != base {
        return Err("CstSeq::map_visit changed a tree by itself".into());
    }
    if came != want.iter().map(|c| label(c)).collect::<Vec<_>>() {
        return Err("CstSeq::map_visit did not come by every node once, in order".into());
    }
    for how in 0..4 {
        let mut by_ref = seq.clone();
        call("CstSeq::visit_mut", n, || {
            by_ref.visit_mut(&mut |c: &mut Cst<TokenStr<'i>>| {
                *c = rewrite(how, c.clone());
            })
        })?;
        let by_value = call("CstSeq::map_visit", n, || seq.clone().map_visit(&mut |c| rewrite(how, c)))?;
        // what it must be
        let mut plain = vec![];
        fn go<'i>(how: u64, c: &Cst<TokenStr<'i>>, out: &mut Vec<String>) {
            let c = rewrite(how, c.clone());
            out.push(label(&c));
            for k in kids(&c) {
                go(how, k, out);
            }
            out.push("]".into());
        }
        seq.0.iter().for_each(|c| go(how, c, &mut plain));
        // (the number of head elements is part of a call's label and does not change here)
        if labels(&by_value) != plain {
            return Err(format!("CstSeq::map_visit gives {:?} instead of {:?}", labels(&by_value), plain));
        }
        if labels(&by_ref) != plain {
            return Err(format!("CstSeq::visit_mut gives {:?} instead of {:?}", labels(&by_ref), plain));
        }
        if plain != base {
            obs.count("rewritten");
        }
    }
    // where nodes lie
    for c in &want {
        let got = call("Cst::get_source", n, || c.get_source())?.start_end();
        if got != extent(c) {
            return Err(format!("{} lies at {:?}, its leaves from {:?}", label(c), got, extent(c)));
        }
    }
    if n <= 300 {
        classes(n, &want, obs)?;
    }
    // owned copies
    for c in &seq.0 {
        let owned = call("Cst::into_owned_input", n, || c.clone().into_owned_input())?;
        let (mut x, mut y) = (vec![], vec![]);
        all_labels(&owned, &mut x);
        all_labels(c, &mut y);
        if x != y {
            return Err(format!("the owned copy is {x:?} instead of {y:?}"));
        }
    }
    // aggregation: the same without trivia
    let agg = call("aggregate_cst_seq", n, || abstract_cst::aggregate_cst_seq(seq.clone()))?;
    let mut plain = vec![];
    seq.0.iter().for_each(|c| agg_labels(c, &mut plain));
    if labels(&agg) != plain {
        return Err(format!("the aggregate tree is {:?} instead of {:?}", labels(&agg), plain));
    }
    obs.count("aggregated");
    // walking aggregate trees
    let mut v: Vec<&Cst<TokenStr>> = vec![];
    agg.0.iter().for_each(|c| preorder(c, &mut v));
    let mut got = vec![];
    call("CstSeq::visit", n, || agg.visit(&mut |c: &Cst<TokenStr>| got.push(c as *const _ as usize)))?;
    if got != addr(&v) {
        return Err("CstSeq::visit does not come by every node of an aggregate tree once, in order".into());
    }
    for c in &v {
        if matches!(c, Cst::Call(_)) {
            obs.count("calls with an aggregate head");
        }
        let got = call("Cst::get_source", n, || c.get_source())?.start_end();
        if got != extent(c) {
            return Err(format!("aggregate {} lies at {:?}, its leaves from {:?}", label(c), got, extent(c)));
        }
    }
    if n <= 300 {
        classes(n, &v, obs)?;
    }
    let mapped = call("CstSeq::map_visit", n, || agg.clone().map_visit(&mut |c| c))?;
    if labels(&mapped) != plain {
        return Err("CstSeq::map_visit changed an aggregate tree by itself".into());
    }
    for c in &agg.0 {
        let owned = call("Cst::into_owned_input", n, || c.clone().into_owned_input())?;
        let (mut x, mut y) = (vec![], vec![]);
        all_labels(&owned, &mut x);
        all_labels(c, &mut y);
        if x != y {
            return Err(format!("the owned copy of an aggregate tree is {x:?} instead of {y:?}"));
        }
    }
    let _ = c;
    Ok(())
}

// ---- P21 positions ------------------------------------------------------------------------------------------

fn lc(l: u32, c: u32) -> LineColumn {
    LineColumn(std::num::NonZeroU32::new(l).unwrap(), std::num::NonZeroU32::new(c).unwrap())
}

const GRID: u64 = 4;

/// All pairs of line/column spans on a small grid; all pairs of character spans; box positions.
fn p21_len(t: bool) -> u64 {
    let g = if t { GRID + 1 } else { GRID };
    let p = (g * g) * (g * g + 1) / 2;
    let q = 8 * 9 / 2;
    p * p + q * q + 2000
}

fn tri(mut i: u64) -> (u64, u64) {
    // the i-th pair a <= b
    let mut b = 0;
    while i > b {
        i -= b + 1;
        b += 1;
    }
    (i, b)
}

fn p21_case(t: bool, i: u64) -> Case {
    let g = if t { GRID + 1 } else { GRID };
    let p = (g * g) * (g * g + 1) / 2;
    if i < p * p {
        let (a, b) = tri(i / p);
        let (c, d) = tri(i % p);
        let f = |x: u64| format!("{} {}", x / g + 1, x % g + 1);
        return Case::new(format!("{} {} {} {}", f(a), f(b), f(c), f(d))).aux("lc");
    }
    let i = i - p * p;
    let q = 8 * 9 / 2;
    if i < q * q {
        let (a, b) = tri(i / q);
        let (c, d) = tri(i % q);
        return Case::new(format!("{a} {b} {c} {d}")).aux("ch");
    }
    let i = i - q * q;
    let mut r = Rng::new(i);
    rnd_box(&mut r)
}

fn rnd_box(r: &mut Rng) -> Case {
    let p: Vec<String> = (0..r.below(4)).map(|_| r.range(1, 4).to_string()).collect();
    Case::new(format!("{} {} {} {}", r.below(8), r.range(1, 3), r.range(2, 6), p.join(" "))).aux("box")
}

pub static P21: Prop = Prop {
    id: "P21",
    rule: "distinct pairs of spans (or box positions) whose order, overlap, containment, joining and printing were as due",
    assumptions: &["spans whose start is not after their end; box positions in the arrangements BoxPosition::between documents"],
    sys_len: p21_len,
    sys_case: p21_case,
    random: |r| {
        let num = |r: &mut Rng| -> u64 {
            match r.below(5) {
                0 => 1,
                1 => r.range(1, 12) as u64,
                2 => *r.pick(&[255u64, 256, 65535, 65536, 2147483647, 2147483648, 4294967295, 4294967294]),
                _ => 1 + r.next() % 4294967294,
            }
        };
        match r.below(5) {
            0..=2 => {
                let mut p: Vec<(u64, u64)> = (0..4).map(|_| (num(r), num(r))).collect();
                if r.chance(1, 2) {
                    // the same line, more often
                    let l = p[0].0;
                    let k = r.below(4);
                    p[k].0 = l;
                    p[3 - k].0 = l;
                }
                let (a, b) = (p[0].min(p[1]), p[0].max(p[1]));
                let (c, d) = (p[2].min(p[3]), p[2].max(p[3]));
                Case::new(format!("{} {} {} {} {} {} {} {}", a.0, a.1, b.0, b.1, c.0, c.1, d.0, d.1)).aux("lc")
            },
            3 => {
                let p: Vec<u64> = (0..4).map(|_| num(r) - 1).collect();
                Case::new(format!("{} {} {} {}", p[0].min(p[1]), p[0].max(p[1]), p[2].min(p[3]), p[2].max(p[3]))).aux("ch")
            },
            _ => rnd_box(r),
        }
    },
    check: p21,
    quick_n: 400_000,
    thorough_n: 8_000_000,
    need: &["line and column spans", "character spans", "box positions", "overlapping", "apart", "touching", "on one line", "across lines"],
};

fn eq<T: PartialEq + Debug>(what: &str, got: T, want: T) -> Result<(), String> {
    if got == want { Ok(()) } else { Err(format!("{what} is {got:?} instead of {want:?}")) }
}

fn p21(c: &Case, obs: &mut Obs) -> Result<(), String> {
    let txt = String::from_utf8_lossy(&c.input).into_owned();
    let v: Option<Vec<u32>> = txt.split_whitespace().map(|x| x.parse().ok()).collect();
    // (smaller inputs made from a violating one need not be positions)
    let Some(v) = v else { return Ok(()) };
    match (&c.aux[..], v.len()) {
        (b"lc", 8) => {
            let p: Vec<(u32, u32)> = v.chunks(2).map(|x| (x[0], x[1])).collect();
            if v.contains(&0) || p[0] > p[1] || p[2] > p[3] {
                return Ok(());
            }
            p21_lc(&p, obs)?;
        },
        (b"ch", 4) => {
            if v[0] > v[1] || v[2] > v[3] {
                return Ok(());
            }
            p21_ch(&v, obs)?;
        },
        (b"box", n) if n >= 3 => p21_box(&v, obs)?,
        _ => return Ok(()),
    }
    obs.sig(&txt);
    obs.sample(|| format!("{} {txt}", String::from_utf8_lossy(&c.aux)));
    Ok(())
}

fn p21_span(what: &str, a: Span, b: Span, s: (Location, Location), t: (Location, Location), cmp: Option<std::cmp::Ordering>) -> Result<(), String> {
    let what = format!("{what} {a} and {b}");
    eq(&format!("{what}: start_end"), a.start_end(), s)?;
    eq(&format!("{what}: start, end"), (a.start(), a.end()), s)?;
    eq(&format!("{what}: order"), a.partial_cmp(&b), cmp)?;
    eq(&format!("{what}: order of the sources"), Source::Span(a).partial_cmp(&Source::Span(b)), cmp)?;
    eq(&format!("{what}: order with an unknown source"), Source::Unknown.partial_cmp(&Source::Span(b)), None)?;
    eq(&format!("{what}: equality"), a == b, s == t)?;
    eq(&format!("{what}: equality of the sources"), Source::Span(a) == Source::Span(b), s == t)?;
    eq(&format!("{what}: unknown"), (Source::Span(a).is_unknown(), Source::unknown().is_unknown()), (false, true))?;
    eq(&format!("{what}: Span::at"), Span::at(s.0).start_end(), (s.0, s.0))?;
    eq(&format!("{what}: printed"), format!("{}", Source::Span(a)), format!("{a}"))?;
    eq(&format!("{what}: debug"), format!("{a:?} {a:#?}"), format!("{a} src!({a})"))?;
    eq(&format!("{what}: unknown, printed"), format!("{}", Source::Unknown), "<unknown>".to_string())?;
    eq(&format!("{what}: general source"), a.into_general(), Source::Span(a))?;
    if cmp != Some(std::cmp::Ordering::Greater) && s.0 <= t.1 {
        eq(&format!("{what}: between"), call("Span::between", 0, || <Span as TokenSource>::between(a, b))?.start_end(), (s.0, t.1))?;
        let g = call("Source::between", 0, || <Source as TokenSource>::between(Source::Span(a), Source::Span(b)))?;
        eq(&format!("{what}: between, as sources"), source_span(&g), Some([loc(s.0), loc(t.1)]))?;
        let g = call("Source::between", 0, || <Source as TokenSource>::between(Source::Span(a), Source::Unknown))?;
        eq(&format!("{what}: between, one unknown"), g.is_unknown(), true)?;
        let g = call("Source::between", 0, || <Source as TokenSource>::between(Source::Unknown, Source::Span(a)))?;
        eq(&format!("{what}: between, one unknown"), g.is_unknown(), true)?;
    }
    Ok(())
}

fn p21_lc(p: &[(u32, u32)], obs: &mut Obs) -> Result<(), String> {
    let q: Vec<LineColumn> = p.iter().map(|x| lc(x.0, x.1)).collect();
    let l: Vec<Location> = q.iter().map(|x| Location::LineColumn(*x)).collect();
    for i in 0..4 {
        eq("line and column", (q[i].line().get(), q[i].column().get()), p[i])?;
        eq("printed", format!("{} {}", q[i], l[i]), format!("{0}:{1} {0}:{1}", p[i].0, p[i].1))?;
        for j in 0..4 {
            eq(&format!("order of {} and {}", q[i], q[j]), q[i].partial_cmp(&q[j]), Some(p[i].cmp(&p[j])))?;
            eq(&format!("order of locations {} and {}", q[i], q[j]), l[i].partial_cmp(&l[j]), Some(p[i].cmp(&p[j])))?;
            eq("equality", l[i] == l[j], p[i] == p[j])?;
        }
        eq("order with a character index", l[i].partial_cmp(&Location::CharacterIndex(p[i].0)), None)?;
        eq("order with a character index", Location::CharacterIndex(p[i].0).partial_cmp(&l[i]), None)?;
    }
    let (a, b) = (LineColumnSpan { start: q[0], end: q[1] }, LineColumnSpan { start: q[2], end: q[3] });
    let (sa, sb) = (Span::from(a), Span::from(b));
    eq("Span::line_column", call("Span::line_column", 0, || Span::line_column(q[0], q[1]))?, sa)?;
    if p[0] < p[1] && call("Span::line_column", 0, || Span::line_column(q[1], q[0])).is_ok() {
        return Err(format!("Span::line_column({}, {}) makes a span that ends before it begins", q[1], q[0]));
    }
    p21_span("spans", sa, sb, (l[0], l[1]), (l[2], l[3]), Some(p[0].cmp(&p[2])))?;
    eq("kind", sa.kind(), SpanKind::LineColumnSpan(a))?;
    eq("source", Source::from(a), Source::Span(sa))?;
    let text = if p[0].0 == p[1].0 { format!("{}:{}-{}", p[0].0, p[0].1, p[1].1) } else { format!("{}:{}-{}:{}", p[0].0, p[0].1, p[1].0, p[1].1) };
    eq("printed", (format!("{a}"), format!("{sa}")), (text.clone(), text))?;
    for i in 0..4 {
        eq(&format!("{a} contains {}", q[i]), a.contains(q[i]), p[0] <= p[i] && p[i] <= p[1])?;
    }
    let want = p[0] <= p[3] && p[2] <= p[1];
    for (what, got) in [("overlaps", a.overlaps(b)), ("overlaps, the other way round", b.overlaps(a)), ("overlaps, as spans", sa.overlaps(sb)), ("overlaps, as spans, the other way round", sb.overlaps(sa))] {
        eq(&format!("{a} {b}: {what}"), got, want)?;
    }
    if call("Span::overlaps", 0, || sa.overlaps(Span::from(CharacterSpan(1, 2)))).is_ok() {
        return Err("a span of lines and columns is compared with a span of characters".into());
    }
    obs.count("line and column spans");
    obs.count(if want { "overlapping" } else { "apart" });
    if p[1] == p[2] || p[3] == p[0] {
        obs.count("touching");
    }
    obs.count(if p[0].0 == p[1].0 { "on one line" } else { "across lines" });
    Ok(())
}

fn p21_ch(v: &[u32], obs: &mut Obs) -> Result<(), String> {
    let l: Vec<Location> = v.iter().map(|x| Location::CharacterIndex(*x)).collect();
    let (a, b) = (CharacterSpan(v[0], v[1]), CharacterSpan(v[2], v[3]));
    let (sa, sb) = (Span::from(a), Span::from(b));
    eq("from_character_span", Span::from_character_span(v[0], v[1]), sa)?;
    p21_span("character spans", sa, sb, (l[0], l[1]), (l[2], l[3]), Some(v[0].cmp(&v[2])))?;
    eq("kind", sa.kind(), SpanKind::CharacterSpan(a))?;
    eq("printed", format!("{sa} {}", l[0]), format!("{}..{} {}", v[0], v[1], v[0]))?;
    for i in 0..4 {
        for j in 0..4 {
            eq(&format!("order of {} and {}", v[i], v[j]), l[i].partial_cmp(&l[j]), Some(v[i].cmp(&v[j])))?;
        }
    }
    let want = v[0] <= v[3] && v[2] <= v[1];
    eq(&format!("{sa} {sb}: overlaps"), (sa.overlaps(sb), sb.overlaps(sa)), (want, want))?;
    obs.count("character spans");
    obs.count(if want { "overlapping" } else { "apart" });
    if v[1] == v[2] || v[3] == v[0] {
        obs.count("touching");
    }
    Ok(())
}

fn p21_box(v: &[u32], obs: &mut Obs) -> Result<(), String> {
    let (how, a, b) = (v[0], v[1] as usize, v[2] as usize);
    let p: Vec<usize> = v[3..].iter().map(|x| *x as usize).collect();
    let list = |p: &[usize]| p.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(", ");
    let with = |x: usize| {
        let mut q = p.clone();
        q.push(x);
        q
    };
    eq("printed", BoxPosition::At(p.clone()).to_string(), format!("{{{}}}", list(&p)))?;
    eq("printed", BoxPosition::Before(p.clone()).to_string(), format!("Before[{{{}}}]", list(&p)))?;
    eq("printed", BoxPosition::After(p.clone()).to_string(), format!("After[{{{}}}]", list(&p)))?;
    let front = p.iter().map(|x| format!("{x}, ")).collect::<String>();
    let sp = BoxPosition::Spanning { index: p.clone(), span: (a, b) };
    eq("printed", sp.to_string(), format!("{{{front}{a} ;; {b}}}"))?;
    eq("printed", Source::from(sp.clone()).to_string(), sp.to_string())?;
    eq("order of box positions", Source::Box(sp.clone()).partial_cmp(&Source::Box(sp.clone())), None)?;
    eq("unknown", Source::Box(sp.clone()).is_unknown(), false)?;
    let at = |q: Vec<usize>| BoxPosition::At(q);
    let parent = |q: &[usize]| q[..q.len() - 1].to_vec();
    // (start, end, what lies between)
    let (s, e, want) = match how {
        0 => (at(p.clone()), at(p.clone()), Some(at(p.clone()))),
        1 => (sp.clone(), sp.clone(), Some(sp.clone())),
        2 => (at(with(2)), at(with(2 + b)), Some(BoxPosition::Spanning { index: p.clone(), span: (2, 2 + b) })),
        3 if !p.is_empty() => (at(with(1)), at(with(1 + b)), Some(at(parent(&p)))),
        4 if !p.is_empty() => (at(with(1)), BoxPosition::Spanning { index: p.clone(), span: (2, b) }, Some(at(parent(&p)))),
        5 => {
            let mut e = with(2 + b);
            e.extend([1, 4]);
            (at(with(2)), at(e), Some(BoxPosition::Spanning { index: p.clone(), span: (2, 2 + b) }))
        },
        6 if !p.is_empty() => (BoxPosition::Before(with(1)), at(with(1 + b)), Some(at(parent(&p)))),
        7 if !p.is_empty() => (at(with(1)), BoxPosition::After(with(1 + b)), Some(at(parent(&p)))),
        _ => (at(vec![]), at(vec![]), Some(at(vec![]))),
    };
    let got = call("BoxPosition::between", 0, || BoxPosition::between(&s, &e))?;
    eq(&format!("between {s} and {e}"), got, want.clone())?;
    let g = call("Source::between", 0, || <Source as TokenSource>::between(Source::Box(s.clone()), Source::Box(e.clone())))?;
    eq(&format!("between {s} and {e}, as sources"), g, want.map_or(Source::Unknown, Source::Box))?;
    obs.count("box positions");
    Ok(())
}

// ---- P24 names and printed forms --------------------------------------------------------------------------

static NAMES: &str = include_str!("../../data/names.tsv");

/// (class, name, symbol) of every operator and token kind.
fn names() -> &'static [(&'static str, &'static str, &'static str)] {
    static V: std::sync::OnceLock<Vec<(&'static str, &'static str, &'static str)>> = std::sync::OnceLock::new();
    V.get_or_init(|| {
        let leak = |s: String| -> &'static str { Box::leak(s.into_boxed_str()) };
        NAMES
            .lines()
            .filter_map(|l| l.split_once('\t'))
            .map(|(c, n)| (c, n, leak(if c == "Token" { token_symbol(n) } else { op_symbol(n) })))
            .collect()
    })
}

fn op_symbol(n: &str) -> String {
    match n {
        "Token_Comment" => "Token`Comment".into(),
        _ => match n.strip_prefix("CodeParser_") {
            Some(x) => format!("CodeParser`{x}"),
            None => format!("System`{n}"),
        },
    }
}

fn token_symbol(n: &str) -> String {
    match n {
        "EndOfFile" | "Symbol" | "String" | "Integer" | "Real" | "Rational" | "Whitespace" => format!("System`{n}"),
        "ToplevelNewline" | "InternalNewline" => "Token`Newline".into(),
        _ => format!("Token`{}", n.replace('_', "`")),
    }
}

const OP_CLASSES: &[&str] = &["Infix", "Prefix", "Postfix", "Binary", "Ternary", "PrefixBinary", "Compound", "Group", "Call"];

/// What a class of operators makes of a symbol: its name, and the symbol the operator gives back.
fn look_up(class: &str, s: &'static str) -> Option<(String, String)> {
    use wolfram_parser::parse::operators::*;
    let s = wolfram_parser::symbol::Symbol::try_new(s)?;
    fn go<O: Operator + Debug>(s: wolfram_parser::symbol::Symbol) -> Option<(String, String)> {
        O::try_from_symbol(s).map(|o| (format!("{o:?}"), o.to_symbol().as_str().to_string()))
    }
    match class {
        "Infix" => go::<InfixOperator>(s),
        "Prefix" => go::<PrefixOperator>(s),
        "Postfix" => go::<PostfixOperator>(s),
        "Binary" => go::<BinaryOperator>(s),
        "Ternary" => go::<TernaryOperator>(s),
        "PrefixBinary" => go::<PrefixBinaryOperator>(s),
        "Compound" => go::<CompoundOperator>(s),
        "Group" => go::<GroupOperator>(s),
        "Call" => go::<CallOperator>(s),
        _ => TokenKind::from_symbol(s).map(|k| (format!("{k:?}"), k.to_symbol().as_str().to_string())),
    }
}

const FOREIGN: &[&str] = &["System`NoSuchOperator", "Global`Plus", "CodeParser`Plus", "Token`Plu", "Global`x", "System`plus", "Token`Error", "CodeParser`GroupNode", "System`LeafNode"];

fn p24_len(t: bool) -> u64 {
    (names().len() + FOREIGN.len()) as u64 + 1 + corpus_len(t)
}

fn p24_case(t: bool, i: u64) -> Case {
    let k = i as usize;
    let n = names();
    if k < n.len() {
        return Case::new(n[k].2).aux("name").n(i);
    }
    let k = k - n.len();
    if k < FOREIGN.len() {
        return Case::new(FOREIGN[k]).aux("name").n(u64::MAX);
    }
    if k == FOREIGN.len() {
        return Case::new("").aux("enums");
    }
    let mut c = corpus_case(t, (k - FOREIGN.len() - 1) as u64);
    c.aux = b"print".to_vec();
    c
}

pub static P24: Prop = Prop {
    id: "P24",
    rule: "distinct names, character sequences and tree shapes whose printed form and reading back were as due",
    assumptions: &["trees are printed in the line and column convention and hold valid UTF-8 (other trees are not supported by FmtAsExpr)"],
    sys_len: p24_len,
    sys_case: p24_case,
    random: |r| match r.below(3) {
        0 => {
            let mut s = String::new();
            for _ in 0..1 + r.below(8) {
                match r.below(7) {
                    0 => s.push(char::from_u32(r.below(0x80) as u32).unwrap()),
                    1 => s.push(char::from_u32(r.below(0x10000) as u32).unwrap_or('x')),
                    2 => s.push_str(&format!("\\[{}]", r.pick(gen::longnames()).name)),
                    3 => s.push_str(&format!("\\:{:04x}", r.below(0x10000))),
                    4 => s.push_str(&format!("\\.{:02x}", r.below(0x100))),
                    5 => s.push_str(&format!("\\|{:06x}", r.below(0x110000))),
                    _ => s.push_str(*r.pick(&["\\123", "\\\"", "\\\\", "\\n", "\\t", "\\r", "\\b", "\\f", "\\<", "\\>", "\\\n", "\\\r\n", "\\\r", "\r\n", "\\!", "\\(", "\\)", "\\*", "\\ ", "\\@", "\\^", "\\_", "\\`", "\\%", "\\/", "\\+", "\\&", "\\007", "\\177", "\\377", "\\q", "\\[", "\\:12"])),
                }
            }
            Case::new(s).aux("chars")
        },
        1 => Case::new(String::from_utf8_lossy(&any_input(r, 20)).into_owned()).aux("chars"),
        _ => Case::new(if r.chance(1, 4) { gen::text(r, 30) } else { rnd_source(r) }).aux("print"),
    },
    check: p24,
    quick_n: 600_000,
    thorough_n: 12_000_000,
    need: &["operator names", "token names", "foreign names", "enumerations", "characters", "trees printed", "escaped characters"],
};

fn p24(c: &Case, obs: &mut Obs) -> Result<(), String> {
    match &c.aux[..] {
        b"name" => {
            let s = String::from_utf8_lossy(&c.input).into_owned();
            // (smaller inputs made from a violating one need not be symbols)
            let Some(s) = names().iter().map(|n| n.2).chain(FOREIGN.iter().copied()).find(|n| *n == s) else { return Ok(()) };
            p24_name(s, obs)?;
            obs.sig(&s);
        },
        b"enums" => {
            p24_enums()?;
            obs.count("enumerations");
        },
        b"chars" => {
            if let Some(s) = std::str::from_utf8(&c.input).ok().filter(|s| !s.contains('\u{feff}')) {
                p24_chars(s, c, obs)?;
            }
        },
        _ => p24_print(&c.input, c, obs)?,
    }
    Ok(())
}

fn p24_name(s: &'static str, obs: &mut Obs) -> Result<(), String> {
    for class in OP_CLASSES {
        let want = names().iter().find(|n| n.0 == *class && n.2 == s).map(|n| (n.1.to_string(), s.to_string()));
        eq(&format!("{class} operator of {s}"), call("try_from_symbol", 0, || look_up(class, s))?, want.clone())?;
        if want.is_some() {
            obs.count("operator names");
        }
    }
    let kinds: Vec<&str> = names().iter().filter(|n| n.0 == "Token" && n.2 == s).map(|n| n.1).collect();
    let got = call("TokenKind::from_symbol", 0, || look_up("Token", s))?;
    match (&got, kinds.is_empty()) {
        (None, true) => obs.count("foreign names"),
        (Some((k, y)), false) if kinds.contains(&k.as_str()) && y == s => obs.count("token names"),
        _ => return Err(format!("token kind of {s} is {got:?} instead of one of {kinds:?}")),
    }
    let sym = wolfram_parser::symbol::Symbol::try_new(s).ok_or("not a symbol")?;
    if let Some(k) = TokenKind::from_symbol(sym) {
        let n = format!("{k:?}");
        let closers: Vec<&str> = crate::model::parse::GROUPS.iter().map(|g| g.1).collect();
        eq(&format!("{n}.isError()"), k.isError(), n.starts_with("Error_"))?;
        eq(&format!("{n}.isUnterminated()"), k.isUnterminated(), n.starts_with("Error_Unterminated"))?;
        eq(&format!("{n}.isCloser()"), k.isCloser(), closers.contains(&n.as_str()))?;
        if n.starts_with("Buffer") {
            // (never made; keeps the numbering of the others)
            return Ok(());
        }
        eq(&format!("{n}.isTrivia()"), k.isTrivia(), matches!(n.as_str(), "InternalNewline" | "ToplevelNewline" | "Comment" | "Whitespace" | "Boundary"))?;
        eq(&format!("{n}.isTriviaButNotToplevelNewline()"), k.isTriviaButNotToplevelNewline(), k.isTrivia() && n != "ToplevelNewline")?;
    }
    Ok(())
}

fn p24_enums() -> Result<(), String> {
    use wolfram_parser::parse::SyntaxErrorKind;
    use wolfram_parser::source::SourceConvention;
    use wolfram_parser::issue::{IssueTag, Severity};
    macro_rules! round {
        ($t:ident: $($v:ident)*) => {
            $(
                eq("name", $t::$v.as_str(), stringify!($v))?;
                eq(concat!(stringify!($t), " of a name"), $t::from_str(stringify!($v)), Some($t::$v))?;
            )*
            for s in ["", "Nonsense", "ambiguous", "error", "Fata", "BOMB", "Bom"] {
                eq(concat!(stringify!($t), " of another name"), $t::from_str(s), None)?;
            }
        };
    }
    round!(IssueTag: Ambiguous UnhandledCharacter UnexpectedCharacter UnexpectedCarriageReturn UnexpectedSpaceCharacter UnexpectedNewlineCharacter UnexpectedDot UnexpectedSign
        UnexpectedImplicitTimes UnexpectedLetterlikeCharacter UnrecognizedLongName UndocumentedSlotSyntax NonASCIICharacter IncompleteUTF8Sequence StraySurrogate BOM
        SyntaxUndocumentedMessageName PrefixNotNot StrangeCall StrangeCallSlotSequence);
    round!(Severity: Formatting Remark Warning Error Fatal);
    round!(UnsafeCharacterEncoding: IncompleteUTF8Sequence StraySurrogate BOM);
    for u in [UnsafeCharacterEncoding::IncompleteUTF8Sequence, UnsafeCharacterEncoding::StraySurrogate, UnsafeCharacterEncoding::BOM] {
        eq("missing reason", u.missing_reason(), format!("UnsafeCharacterEncoding_{u:?}"))?;
        eq("encoding of a missing reason", UnsafeCharacterEncoding::from_missing_reason(&u.missing_reason()), Some(u))?;
        eq("encoding of another reason", UnsafeCharacterEncoding::from_missing_reason(u.as_str()), None)?;
    }
    for (k, n) in [(SyntaxErrorKind::ExpectedSymbol, "ExpectedSymbol"), (SyntaxErrorKind::ExpectedSet, "ExpectedSet"), (SyntaxErrorKind::ExpectedTilde, "ExpectedTilde")] {
        eq("syntax error", SyntaxErrorKind::from_str(n), Some(k.clone()))?;
        eq("symbol of a syntax error", k.to_symbol().as_str(), format!("SyntaxError`{n}").as_str())?;
    }
    eq("syntax error", SyntaxErrorKind::from_str("Expected"), None)?;
    macro_rules! boxes {
        ($($v:ident)*) => { $(
            eq("name of a box", BoxKind::$v.as_str(), stringify!($v))?;
            eq("box of a symbol", BoxKind::from_symbol(wolfram_parser::symbol::Symbol::try_new(concat!("System`", stringify!($v))).unwrap()), Some(BoxKind::$v))?;
        )* };
    }
    boxes!(TagBox SuperscriptBox RowBox GridBox TemplateBox InterpretationBox SubscriptBox StyleBox NamespaceBox OverscriptBox SubsuperscriptBox GraphicsBox);
    let y = wolfram_parser::symbol::Symbol::try_new("System`FractionBox").unwrap();
    eq("another box", BoxKind::from_symbol(y).map(|b| b.as_str().to_string()), Some("FractionBox".into()))?;
    eq("no box", BoxKind::from_symbol(wolfram_parser::symbol::Symbol::try_new("System`Boxes").unwrap()), None)?;
    use wolfram_parser::ast::AbstractSyntaxError as A;
    for (k, n) in [
        (A::CommaTopLevel, "CommaTopLevel"),
        (A::OpenParen, "OpenParen"),
        (A::OpenSquare, "OpenSquare"),
        (A::ColonColonOpenSquare, "ColonColonOpenSquare"),
        (A::LeftDoubleBracket, "LeftDoubleBracket"),
        (A::NonAssociativePatternTest, "NonAssociativePatternTest"),
        (A::LinearSyntaxBang, "LinearSyntaxBang"),
        (A::ExpectedTilde, "ExpectedTilde"),
    ] {
        eq("name of an abstract syntax error", k.as_str(), n)?;
    }
    // settings by number
    let num: Vec<i32> = (-300..300).chain([i32::MIN, i32::MAX, 65536, 256, 257]).collect();
    for i in num {
        eq("first line behaviour", FirstLineBehavior::try_from(i).ok().map(|x| x as i32), [FirstLineBehavior::NotScript, FirstLineBehavior::Check, FirstLineBehavior::Script].get(i as usize).map(|x| *x as i32))?;
        eq("encoding mode", EncodingMode::try_from(i).ok(), [EncodingMode::Normal, EncodingMode::Box].get(i as usize).copied())?;
        eq("stringify mode", StringifyMode::try_from(i).ok().map(|x| x as i32), [StringifyMode::Normal, StringifyMode::Tag, StringifyMode::File].into_iter().nth(i as usize).map(|x| x as i32))?;
        eq("source convention", SourceConvention::try_from(i).ok(), [SourceConvention::LineColumn, SourceConvention::CharacterIndex].get(i as usize).copied())?;
    }
    Ok(())
}

fn p24_chars(s: &str, c: &Case, obs: &mut Obs) -> Result<(), String> {
    use wolfram_parser::read::WLCharacter;
    let o = c.opts.make();
    let a: Vec<WLCharacter> = iter::wolfram_chars(s, &o).collect();
    // (\[RawTab] and the like print as the character itself)
    let raw = |x: &WLCharacter| format!("{x:?}").ends_with(", Raw)");
    for x in a.iter().filter(|x| raw(x)) {
        let t = call("printing characters", s.len(), || x.to_string())?;
        let y: Vec<WLCharacter> = iter::wolfram_chars(&t, &o).collect();
        let shown = format!("{x:?}").replace("StringMeta_Backslash", "Char('\\\\')").replace("StringMeta_DoubleQuote", "Char('\"')");
        if t.chars().count() != 1 || y.len() != 1 || shown != format!("{:?}, Raw)", y[0]).replace("), Raw)", ", Raw)") {
            return Err(format!("{x:?} is printed as {t:?}, which reads as {y:?}"));
        }
        obs.count("raw characters");
    }
    let some_raw = a.iter().any(raw);
    let text = call("printing characters", s.len(), || a.iter().map(|x| x.to_string()).collect::<String>())?;
    let b: Vec<WLCharacter> = iter::wolfram_chars(&text, &o).collect();
    if a != b && !some_raw {
        return Err(format!("{s:?} is printed as {text:?}, which reads as {b:?} instead of {a:?}"));
    }
    let g = call("printing characters", s.len(), || a.iter().map(|x| format!("{x:#}")).collect::<String>())?;
    if !g.chars().all(|x| matches!(x, ' '..='~')) {
        return Err(format!("the graphical form of {s:?} is {g:?}"));
    }
    // the graphical form of a character reads as that character (control characters with an escape of their own, and what
    // has a meaning only in strings, excepted)
    let point = |x: &WLCharacter| {
        let d = format!("{x:?}");
        let d = d.trim_start_matches("WLCharacter(");
        d.rsplit_once(", ").map_or(d.trim_end_matches(')'), |x| x.0).trim_end_matches(')').to_string()
    };
    for x in a.iter().filter(|x| !raw(x)) {
        let p = point(x);
        if !p.starts_with("Char") || matches!(p.as_str(), "Char('\\u{8}'" | "Char('\\u{c}'" | "Char('\\t'" | "Char('\\n'" | "Char('\\r'") {
            continue;
        }
        let g = format!("{x:#}");
        let y: Vec<WLCharacter> = iter::wolfram_chars(&g, &o).collect();
        if y.len() != 1 || point(&y[0]) != p {
            return Err(format!("the graphical form of {x:?} is {g:?}, which reads as {y:?}"));
        }
        obs.count("graphical forms");
    }
    obs.add("characters", a.len() as u64);
    if a.iter().any(|x| format!("{x:?}").contains(", ")) {
        obs.count("escaped characters");
        obs.sig(&text);
        obs.sample(|| format!("{s:?} prints as {text:?}, graphically {g:?}"));
    }
    Ok(())
}

/// {{line, column}, {line, column}}, as an expression
fn place(s: [Loc; 2]) -> String {
    format!("{{{{{}, {}}}, {{{}, {}}}}}", s[0].0, s[0].1, s[1].0, s[1].1)
}

fn reach(t: &Tree) -> [Loc; 2] {
    let mut l = vec![];
    t.leaves(&mut l);
    [l[0].span[0], l[l.len() - 1].span[1]]
}

fn render_list(b: &[u8], f: &[Tree], out: &mut String) {
    out.push_str("System`List[");
    for t in f {
        render(b, t, out);
        out.push_str(", ");
    }
    out.push(']');
}

fn render_leaf(b: &[u8], t: &Tok, out: &mut String) {
    let head = if is_error(t.kind) { "ErrorNode" } else { "LeafNode" };
    let text = std::str::from_utf8(&b[t.s..t.e]).unwrap_or("");
    out.push_str(&format!("CodeParser`{head}[{}, \"{text}\", {}]", token_symbol(t.kind), place(t.span)));
}

fn render(b: &[u8], t: &Tree, out: &mut String) {
    match t {
        Tree::Leaf(t) => render_leaf(b, t, out),
        Tree::Node { class: "Call", ch, .. } => {
            out.push_str("CodeParser`CallNode[");
            if let Tree::Node { ch, .. } = &ch[0] {
                match &ch[..] {
                    [Tree::Node { class: "AggHead", ch, .. }] => render(b, &ch[0], out),
                    _ => render_list(b, ch, out),
                }
            }
            out.push_str(", ");
            render(b, &ch[1], out);
            out.push_str(&format!(", {}]", place(reach(t))));
        },
        Tree::Node { class, op, ch } => {
            out.push_str(&format!("CodeParser`{class}Node["));
            out.push_str(&if *class == "SyntaxError" { format!("SyntaxError`{op}") } else { op_symbol(op) });
            out.push_str(", ");
            render_list(b, ch, out);
            out.push_str(&format!(", {}]", place(reach(t))));
        },
    }
}

/// Commas before closing brackets and blanks may come and go.
fn plain(s: &str) -> String {
    s.replace(", ]", "]")
}

fn p24_print(b: &[u8], c: &Case, obs: &mut Obs) -> Result<(), String> {
    use wolfram_parser::fmt_as_expr::FmtAsExpr;
    if std::str::from_utf8(b).is_err() {
        return Ok(());
    }
    let o = Opts { char_index: false, ..c.opts }.make();
    let seq = call("parse_bytes_cst_seq", b.len(), || parse_bytes_cst_seq(b, &o))?.syntax;
    let agg = call("aggregate_cst_seq", b.len(), || abstract_cst::aggregate_cst_seq(seq.clone()))?;
    for (what, seq) in [("tree", &seq), ("aggregate tree", &agg)] {
        let f = forest(b, seq);
        let mut want = String::new();
        render_list(b, &f, &mut want);
        let got = call("FmtAsExpr", b.len(), || FmtAsExpr(seq).to_string())?;
        if plain(&got) != plain(&want) {
            return Err(format!("the {what} of {:?} is printed as\n {got}\ninstead of\n {want}", gen::escape(b)));
        }
        obs.count("trees printed");
        if f.iter().any(|t| matches!(t, Tree::Node { .. })) {
            obs.sig(&shape(&f));
            obs.sample(|| want.clone());
        }
    }
    if let Ok(ts) = call("tokenize_bytes", b.len(), || tokenize_bytes(b, &o))? {
        let mut want = String::from("System`List[");
        for t in toks(b, &ts) {
            render_leaf(b, &t, &mut want);
            want.push_str(", ");
        }
        want.push(']');
        let got = call("FmtAsExpr", b.len(), || FmtAsExpr(&ts).to_string())?;
        if plain(&got) != plain(&want) {
            return Err(format!("the tokens of {:?} are printed as\n {got}\ninstead of\n {want}", gen::escape(b)));
        }
    }
    Ok(())
}
