//! Abstraction of trees that do not come straight from the parser: other kinds of sources and text, boxes, code.

use super::syntax::{rnd_source, shape};
use super::*;
use crate::runner::*;
use std::fmt::Debug;
use wolfram_parser::abstract_cst::{abstract_cst, aggregate_cst_seq};
use wolfram_parser::ast::{AbstractSyntaxError, Ast, AstMetadata};
use wolfram_parser::cst::*;
use wolfram_parser::issue::{Issue, IssueTag, Severity};
use wolfram_parser::parse::operators::{CallOperator, GroupOperator};
use wolfram_parser::source::{Source, Span};
use wolfram_parser::tokenize::{Token, TokenInput, TokenKind, TokenSource, TokenStr};

type C = Cst<TokenStr<'static>>;

/// The same tree with other sources.
fn map_src<I: Clone, S: Clone, T>(c: &Cst<I, S>, f: &mut dyn FnMut(&S) -> T) -> Cst<I, T> {
    fn seq<I: Clone, S: Clone, T>(s: &CstSeq<I, S>, f: &mut dyn FnMut(&S) -> T) -> CstSeq<I, T> {
        NodeSeq(s.0.iter().map(|c| map_src(c, f)).collect())
    }
    fn op<I: Clone, S: Clone, T, O: Copy>(n: &OperatorNode<I, S, O>, f: &mut dyn FnMut(&S) -> T) -> OperatorNode<I, T, O> {
        OperatorNode { op: n.op, children: seq(&n.children, f) }
    }
    match c {
        Cst::Token(t) => Cst::Token(Token { tok: t.tok, input: t.input.clone(), src: f(&t.src) }),
        Cst::Call(CallNode { head, body }) => Cst::Call(CallNode {
            head: match head {
                CallHead::Concrete(s) => CallHead::Concrete(seq(s, f)),
                CallHead::Aggregate(h) => CallHead::Aggregate(Box::new(map_src(h, f))),
            },
            body: match body {
                CallBody::Group(GroupNode(n)) => CallBody::Group(GroupNode(op(n, f))),
                CallBody::GroupMissingCloser(GroupMissingCloserNode(n)) => CallBody::GroupMissingCloser(GroupMissingCloserNode(op(n, f))),
            },
        }),
        Cst::SyntaxError(n) => Cst::SyntaxError(SyntaxErrorNode { err: n.err, children: seq(&n.children, f) }),
        Cst::Prefix(PrefixNode(n)) => Cst::Prefix(PrefixNode(op(n, f))),
        Cst::Infix(InfixNode(n)) => Cst::Infix(InfixNode(op(n, f))),
        Cst::Postfix(PostfixNode(n)) => Cst::Postfix(PostfixNode(op(n, f))),
        Cst::Binary(BinaryNode(n)) => Cst::Binary(BinaryNode(op(n, f))),
        Cst::Ternary(TernaryNode(n)) => Cst::Ternary(TernaryNode(op(n, f))),
        Cst::PrefixBinary(PrefixBinaryNode(n)) => Cst::PrefixBinary(PrefixBinaryNode(op(n, f))),
        Cst::Compound(CompoundNode(n)) => Cst::Compound(CompoundNode(op(n, f))),
        Cst::Group(GroupNode(n)) => Cst::Group(GroupNode(op(n, f))),
        Cst::GroupMissingCloser(GroupMissingCloserNode(n)) => Cst::GroupMissingCloser(GroupMissingCloserNode(op(n, f))),
        Cst::GroupMissingOpener(GroupMissingOpenerNode(n)) => Cst::GroupMissingOpener(GroupMissingOpenerNode(op(n, f))),
        Cst::Box(n) => Cst::Box(BoxNode { kind: n.kind.clone(), children: seq(&n.children, f), src: f(&n.src) }),
        Cst::Code(n) => Cst::Code(CodeNode { first: n.first.clone(), second: n.second.clone(), src: f(&n.src) }),
    }
}

/// An abstract tree with every node replaced by what `f` makes of it, where it makes something.
fn map_ast(a: &Ast, f: &mut dyn FnMut(&Ast) -> Option<Ast>) -> Ast {
    if let Some(b) = f(a) {
        return b;
    }
    let mut b = a.clone();
    let mut many = |v: &mut Vec<Ast>| v.iter_mut().for_each(|x| *x = map_ast(x, f));
    match &mut b {
        Ast::Leaf { .. } | Ast::Error { .. } | Ast::Code { .. } => {},
        Ast::Call { head, args, .. } | Ast::CallMissingCloser { head, args, .. } => {
            many(args);
            **head = map_ast(head, f);
        },
        Ast::SyntaxError { children, .. } | Ast::GroupMissingCloser { children, .. } | Ast::GroupMissingOpener { children, .. } => many(children),
        Ast::AbstractSyntaxError { args, .. } | Ast::Box { args, .. } => many(args),
        Ast::Group { children, .. } => {
            let c = &mut **children;
            for x in [&mut c.0, &mut c.1, &mut c.2] {
                *x = map_ast(x, f);
            }
        },
        Ast::TagBox_GroupParen { group, .. } => {
            let c = &mut **group;
            for x in [&mut c.0, &mut c.1, &mut c.2] {
                *x = map_ast(x, f);
            }
        },
        Ast::PrefixNode_PrefixLinearSyntaxBang(c, _) => {
            for x in c.iter_mut() {
                *x = map_ast(x, f);
            }
        },
    }
    b
}

fn data_mut(a: &mut Ast) -> &mut AstMetadata {
    match a {
        Ast::Leaf { data, .. } | Ast::Error { data, .. } | Ast::Call { data, .. } | Ast::CallMissingCloser { data, .. } | Ast::SyntaxError { data, .. } => data,
        Ast::AbstractSyntaxError { data, .. } | Ast::Box { data, .. } | Ast::Code { data, .. } | Ast::Group { data, .. } | Ast::GroupMissingCloser { data, .. } => data,
        Ast::GroupMissingOpener { data, .. } | Ast::TagBox_GroupParen { data, .. } | Ast::PrefixNode_PrefixLinearSyntaxBang(_, data) => data,
    }
}

fn data_of(a: &Ast) -> &AstMetadata {
    match a {
        Ast::Leaf { data, .. } | Ast::Error { data, .. } | Ast::Call { data, .. } | Ast::CallMissingCloser { data, .. } | Ast::SyntaxError { data, .. } => data,
        Ast::AbstractSyntaxError { data, .. } | Ast::Box { data, .. } | Ast::Code { data, .. } | Ast::Group { data, .. } | Ast::GroupMissingCloser { data, .. } => data,
        Ast::GroupMissingOpener { data, .. } | Ast::TagBox_GroupParen { data, .. } | Ast::PrefixNode_PrefixLinearSyntaxBang(_, data) => data,
    }
}

/// Without issues, and without sources unless they are to be kept.
fn bare(a: &Ast, sources: bool) -> Ast {
    fn go(a: &mut Ast, sources: bool) {
        let d = data_mut(a);
        d.issues.clear();
        if !sources {
            d.source = Source::Unknown;
        }
        match a {
            Ast::Leaf { .. } | Ast::Error { .. } | Ast::Code { .. } => {},
            Ast::Call { head, args, .. } | Ast::CallMissingCloser { head, args, .. } => {
                go(head, sources);
                args.iter_mut().for_each(|x| go(x, sources));
            },
            Ast::SyntaxError { children, .. } | Ast::GroupMissingCloser { children, .. } | Ast::GroupMissingOpener { children, .. } => children.iter_mut().for_each(|x| go(x, sources)),
            Ast::AbstractSyntaxError { args, .. } | Ast::Box { args, .. } => args.iter_mut().for_each(|x| go(x, sources)),
            Ast::Group { children, .. } => {
                let c = &mut **children;
                [&mut c.0, &mut c.1, &mut c.2].into_iter().for_each(|x| go(x, sources));
            },
            Ast::TagBox_GroupParen { group, .. } => {
                let c = &mut **group;
                [&mut c.0, &mut c.1, &mut c.2].into_iter().for_each(|x| go(x, sources));
            },
            Ast::PrefixNode_PrefixLinearSyntaxBang(c, _) => c.iter_mut().for_each(|x| go(x, sources)),
        }
    }
    let mut a = a.clone();
    go(&mut a, sources);
    a
}

/// Every node, parents first.
fn each(a: &Ast, f: &mut dyn FnMut(&Ast)) {
    f(a);
    match a {
        Ast::Leaf { .. } | Ast::Error { .. } | Ast::Code { .. } => {},
        Ast::Call { head, args, .. } | Ast::CallMissingCloser { head, args, .. } => {
            each(head, f);
            args.iter().for_each(|x| each(x, f));
        },
        Ast::SyntaxError { children, .. } | Ast::GroupMissingCloser { children, .. } | Ast::GroupMissingOpener { children, .. } => children.iter().for_each(|x| each(x, f)),
        Ast::AbstractSyntaxError { args, .. } | Ast::Box { args, .. } => args.iter().for_each(|x| each(x, f)),
        Ast::Group { children, .. } => [&children.0, &children.1, &children.2].into_iter().for_each(|x| each(x, f)),
        Ast::TagBox_GroupParen { group, .. } => [&group.0, &group.1, &group.2].into_iter().for_each(|x| each(x, f)),
        Ast::PrefixNode_PrefixLinearSyntaxBang(c, _) => c.iter().for_each(|x| each(x, f)),
    }
}

/// The issues of the nodes, with the number of the node, with or without the places they name (and not their wording).
fn issues(a: &Ast, places: bool) -> Vec<String> {
    let (mut n, mut v) = (0, vec![]);
    each(a, &mut |a| {
        n += 1;
        for i in &data_of(a).issues {
            let at = if places { format!(" {:?} {:?} {:?}", i.src, i.additional_sources, i.actions) } else { format!(" {} {}", i.additional_sources.len(), i.actions.len()) };
            v.push(format!("node {n}: {} {:?} {:?} {} {:?}{at}", i.make_sym.as_str(), i.tag, i.sev, i.val, i.additional_descriptions));
        }
    });
    v
}

fn abstracted<I: TokenInput + Debug, S: TokenSource + Debug>(c: Cst<I, S>, o: &Opts) -> Result<Ast, String> {
    call("abstract_cst", 0, || abstract_cst(c, o.make().quirk_settings))
}

// ---- boxes -------------------------------------------------------------------------------------------------

fn meta(s: Span) -> AstMetadata {
    AstMetadata { source: Source::Span(s), issues: vec![] }
}

fn token(c: &C, k: TokenKind) -> bool {
    matches!(c, Cst::Token(t) if t.tok == k)
}

/// A group of three children: opener, one expression, closer.
fn three<'a>(c: &'a C, op: GroupOperator, o: TokenKind, e: TokenKind) -> Option<[&'a C; 3]> {
    match c {
        Cst::Group(GroupNode(n)) if n.op == op => match &n.children.0[..] {
            [x, y, z] if token(x, o) && token(z, e) => Some([x, y, z]),
            _ => None,
        },
        _ => None,
    }
}

/// What a node must come out as; everything but boxes is asked of the library, one piece at a time.
fn expected(c: &C, o: &Opts, obs: &mut Obs) -> Result<Ast, String> {
    let Cst::Box(b) = c else { return abstracted(c.clone(), o) };
    let data = meta(b.src);
    let kids = &b.children.0[..];
    if b.kind == BoxKind::SubscriptBox && kids.len() >= 2 {
        let sq = |c| three(c, GroupOperator::CodeParser_GroupSquare, TokenKind::OpenSquare, TokenKind::CloseSquare);
        if let Some([o1, inner, c1]) = sq(&kids[1]) {
            if let Some([o2, x, c2]) = sq(inner) {
                obs.count("parts in subscripts");
                let inner = Ast::Group {
                    kind: GroupOperator::CodeParser_GroupSquare,
                    children: Box::new((expected(o2, o, obs)?, expected(x, o, obs)?, expected(c2, o, obs)?)),
                    data: meta(inner.get_source()),
                };
                let outer = Ast::Group {
                    kind: GroupOperator::CodeParser_GroupSquare,
                    children: Box::new((expected(o1, o, obs)?, inner, expected(c1, o, obs)?)),
                    data: meta(kids[1].get_source()),
                };
                return Ok(Ast::Box { kind: b.kind.clone(), args: vec![expected(&kids[0], o, obs)?, outer], data });
            }
        }
        if let Some([o1, x, c1]) = three(&kids[1], GroupOperator::CodeParser_GroupDoubleBracket, TokenKind::LongName_LeftDoubleBracket, TokenKind::LongName_RightDoubleBracket) {
            obs.count("parts in subscripts");
            let g = Ast::Group {
                kind: GroupOperator::CodeParser_GroupDoubleBracket,
                children: Box::new((expected(o1, o, obs)?, expected(x, o, obs)?, expected(c1, o, obs)?)),
                data: meta(kids[1].get_source()),
            };
            return Ok(Ast::Box { kind: b.kind.clone(), args: vec![expected(&kids[0], o, obs)?, g], data });
        }
    }
    if b.kind == BoxKind::SuperscriptBox && kids.len() >= 2 {
        if let Cst::Box(BoxNode { kind: BoxKind::TagBox, children, src }) = &kids[1] {
            if let [p, Cst::Code(t)] = &children.0[..] {
                let evaluated = format!("{} {}", t.first, t.second) == "System`Evaluated System`Derivative";
                if let (true, Some([x, y, z])) = (evaluated, three(p, GroupOperator::CodeParser_GroupParen, TokenKind::OpenParen, TokenKind::CloseParen)) {
                    obs.count("derivatives in superscripts");
                    let g = Ast::TagBox_GroupParen {
                        group: Box::new((expected(x, o, obs)?, expected(y, o, obs)?, expected(z, o, obs)?, Source::Span(p.get_source()))),
                        tag: CodeNode { first: t.first.clone(), second: t.second.clone(), src: Source::Span(t.src) },
                        data: meta(*src),
                    };
                    return Ok(Ast::Box { kind: b.kind.clone(), args: vec![expected(&kids[0], o, obs)?, g], data });
                }
            }
        }
    }
    obs.count("boxes in general");
    let args = kids.iter().map(|k| expected(k, o, obs)).collect::<Result<Vec<Ast>, String>>()?;
    Ok(Ast::Box { kind: b.kind.clone(), args, data })
}

const KINDS: &[BoxKind] = &[
    BoxKind::SubscriptBox, BoxKind::SubscriptBox, BoxKind::SuperscriptBox, BoxKind::SuperscriptBox, BoxKind::TagBox, BoxKind::TemplateBox, BoxKind::InterpretationBox, BoxKind::StyleBox,
    BoxKind::NamespaceBox, BoxKind::OverscriptBox, BoxKind::SubsuperscriptBox, BoxKind::GraphicsBox,
];

const PIECES: &[&str] = &[
    "x", "2", "\"s\"", "[[x]]", "[[x+y]]", "[x]", "[]", "[[]]", "[[x],y]", "[x,[y]]", "[[x]", "[ [x] ]", "(x)", "()", "(x,y)", "((x))", "f[x]", "f[[x]]", "a+b", "{a}", "#", "x_",
    "\\[LeftDoubleBracket]x\\[RightDoubleBracket]", "\\[LeftDoubleBracket]\\[RightDoubleBracket]", "\\[LeftDoubleBracket]x,y\\[RightDoubleBracket]", "-x", "[(x)]", "([x])", "[[[x]]]",
];

fn piece(r: &mut Rng) -> Option<C> {
    let s: &'static str = *r.pick(PIECES);
    let mut v = aggregate_cst_seq(parse_bytes_cst_seq(s.as_bytes(), &ParseOptions::default()).syntax).0;
    if v.len() == 1 { v.pop() } else { None }
}

fn code(r: &mut Rng, src: Span) -> C {
    let sym = |s: &str| wolfram_expr::Expr::from(wolfram_expr::Symbol::new(s));
    let first = sym(if r.chance(4, 5) { "System`Evaluated" } else { "System`Null" });
    let second = sym(if r.chance(4, 5) { "System`Derivative" } else { "System`Identity" });
    Cst::Code(CodeNode { first, second, src })
}

fn rnd_box(r: &mut Rng, d: usize, src: Span) -> C {
    let kind = if r.chance(1, 6) { BoxKind::Other(wolfram_expr::Symbol::new(*r.pick(&["System`FractionBox", "System`SqrtBox", "System`FrameBox"]))) } else { r.pick(KINDS).clone() };
    let mut ch = vec![];
    let n = if kind == BoxKind::TagBox {
        r.range(1, 3)
    } else if r.chance(1, 8) {
        r.range(1, 4)
    } else {
        2
    };
    for i in 0..n {
        if kind == BoxKind::TagBox && i > 0 {
            ch.push(code(r, src));
        } else if d > 0 && r.chance(1, 3) {
            ch.push(rnd_box(r, d - 1, src));
        } else {
            ch.push(piece(r).unwrap_or_else(|| code(r, src)));
        }
    }
    if kind == BoxKind::SuperscriptBox && r.chance(1, 2) {
        let group = piece(r).unwrap_or_else(|| code(r, src));
        let mut t = vec![group, code(r, src)];
        match r.below(8) {
            0 => drop(t.pop()),
            1 => t.push(code(r, src)),
            _ => {},
        }
        ch.truncate(1);
        ch.push(Cst::Box(BoxNode { kind: BoxKind::TagBox, children: NodeSeq(t), src }));
        if r.chance(1, 6) {
            ch.push(code(r, src));
        }
    }
    Cst::Box(BoxNode { kind, children: NodeSeq(ch), src })
}

// ---- P25 ---------------------------------------------------------------------------------------------------

pub static P25: Prop = Prop {
    id: "P25",
    rule: "distinct tree shapes abstracted alike with other kinds of sources and text, and with boxes for operands",
    assumptions: &["RowBox and GridBox are not supported by abstract_cst and are left out"],
    sys_len: corpus_len,
    sys_case: |_, i| Case::new(gen::corpus()[i as usize].clone()).n(i.wrapping_mul(0x9E37_79B9_7F4A_7C15)),
    random: |r| {
        let b = match r.below(8) {
            0 => any_input(r, 30),
            1 => form_text(r, 3).into_bytes(),
            _ => rnd_source(r),
        };
        let o = rnd_opts(r, false);
        Case::new(b).opts(o).n(r.next())
    },
    check: p25,
    quick_n: 250_000,
    thorough_n: 6_000_000,
    need: &["other sources", "owned text", "boxes put in", "boxes in general", "parts in subscripts", "derivatives in superscripts", "boxes as operands", "calls of boxes", "rows of tildes", "commas between tildes", "one tilde", "patterns with defaults", "quotes in one token", "groups without openers"],
};

fn short(a: &Ast) -> String {
    let s = format!("{a:?}");
    s.chars().take(1500).collect()
}

fn p25(c: &Case, obs: &mut Obs) -> Result<(), String> {
    // (trees outlive the text they were made from only when that is kept)
    let b: &'static [u8] = Box::leak(c.input.clone().into_boxed_slice());
    let r = p25_kept(b, c, obs);
    // nothing refers to it any more
    unsafe { drop(Box::from_raw(b as *const [u8] as *mut [u8])) };
    r
}

fn p25_kept(b: &'static [u8], c: &Case, obs: &mut Obs) -> Result<(), String> {
    let mut r = Rng::new(c.n);
    let o = &c.opts;
    let agg = call("parse_bytes_cst_seq", b.len(), || aggregate_cst_seq(parse_bytes_cst_seq(b, &o.make()).syntax))?;
    for e in &agg.0 {
        let a = abstracted(e.clone(), o)?;
        // sources of another type
        let g = abstracted(map_src(e, &mut |s| Source::Span(*s)), o)?;
        if g != a {
            return Err(format!("with general sources the abstract tree is\n {}\ninstead of\n {}", short(&g), short(&a)));
        }
        let u = abstracted(map_src(e, &mut |_| Source::Unknown), o)?;
        if bare(&u, false) != bare(&a, false) {
            return Err(format!("with unknown sources the abstract tree is\n {}\ninstead of\n {}", short(&u), short(&a)));
        }
        if issues(&u, false) != issues(&a, false) {
            return Err(format!("with unknown sources the issues are\n {:?}\ninstead of\n {:?}", issues(&u, false), issues(&a, false)));
        }
        if issues(&g, true) != issues(&a, true) {
            return Err(format!("with general sources the issues are\n {:?}\ninstead of\n {:?}", issues(&g, true), issues(&a, true)));
        }
        obs.count("other sources");
        let w = abstracted(e.clone().into_owned_input(), o)?;
        if w != a {
            return Err(format!("with owned text the abstract tree is\n {}\ninstead of\n {}", short(&w), short(&a)));
        }
        obs.count("owned text");
        // boxes in place of operands
        let mut put = vec![];
        let mut calls = vec![];
        let with = put_boxes(&mut r, e, true, &mut put, &mut calls);
        if !put.is_empty() {
            let got = abstracted(with, o)?;
            let mut ex = vec![];
            for (t, x) in &put {
                ex.push((t.clone(), expected(x, o, obs)?));
                obs.count("boxes put in");
            }
            let want = map_ast(&a, &mut |n| match n {
                Ast::Leaf { kind: TokenKind::Symbol, input, data } => ex.iter().find(|(t, _)| data.source == Source::Span(t.src) && input.as_bytes() == t.input.as_bytes()).map(|x| x.1.clone()),
                _ => None,
            });
            if bare(&got, true) != bare(&want, true) {
                return Err(format!("with boxes for operands {:?} the abstract tree is\n {}\ninstead of\n {}", put, short(&got), short(&want)));
            }
            // a call of a box is suspicious, but for some kinds of boxes
            let due = {
                let mut want = want.clone();
                for (call, first, last) in &calls {
                    let mut done = false;
                    want = map_ast(&want, &mut |n| match n {
                        Ast::Call { data, .. } if !done && data.source == Source::Span(*call) => {
                            done = true;
                            let mut n = n.clone();
                            data_mut(&mut n).issues.push(Issue {
                                make_sym: wolfram_parser::symbols::CodeParser_SyntaxIssue,
                                tag: IssueTag::StrangeCall,
                                msg: String::new(),
                                sev: Severity::Error,
                                src: Source::Span(*first),
                                val: 0.95,
                                actions: vec![],
                                additional_descriptions: vec![],
                                additional_sources: vec![Source::Span(*last)],
                            });
                            Some(n)
                        },
                        _ => None,
                    });
                    if !done {
                        // the call was taken apart by a rule of its own
                        return Ok(());
                    }
                    obs.count("calls of boxes");
                }
                issues(&want, true)
            };
            if issues(&got, true) != due {
                return Err(format!("with boxes for operands {:?} the issues are\n {:?}\ninstead of\n {:?}", put, issues(&got, true), due));
            }
            obs.count("boxes as operands");
        }
    }
    if b.len() <= 400 {
        let mut nodes = vec![];
        for e in &agg.0 {
            e.visit(&mut |n| nodes.push(n.clone()));
        }
        for n in &nodes {
            box_forms(&mut r, n, o, obs)?;
        }
    }
    let f = forest(b, &agg);
    if f.iter().any(|t| matches!(t, Tree::Node { .. })) {
        obs.sig(&shape(&f));
        obs.sample(|| gen::escape(b));
    }
    Ok(())
}

// ---- forms that only boxes have ------------------------------------------------------------------------------

fn src_of(c: &C) -> Source {
    Source::Span(c.get_source())
}

/// The same nodes and issues, and the same sources but for `unknown` nodes that have none.
fn same(what: &str, got: &Ast, want: &Ast, unknown: usize) -> Result<(), String> {
    let wrong = |w: &str| Err(format!("{what}: {w}:\n {}\ninstead of\n {}", short(got), short(want)));
    if bare(got, false) != bare(want, false) {
        return wrong("the abstract tree is");
    }
    if issues(got, true) != issues(want, true) {
        return wrong("other issues");
    }
    let list = |a: &Ast| {
        let mut v = vec![];
        each(a, &mut |n| v.push(data_of(n).source.clone()));
        v
    };
    let off: Vec<_> = list(got).into_iter().zip(list(want)).filter(|(x, y)| x != y).collect();
    if off.len() > unknown || off.iter().any(|(x, _)| *x != Source::Unknown) {
        return wrong("other sources");
    }
    Ok(())
}

/// Text with such forms in it.
fn form_text(r: &mut Rng, d: usize) -> String {
    let mut x = |d: usize| {
        if d == 0 || r.chance(1, 2) {
            r.pick(&["a", "b", "f", "x_", "2", "\"s\"", "g[x]", "a+b", "#", "-x", "(y)", "f'", "{}"]).to_string()
        } else {
            form_text(r, d - 1)
        }
    };
    let (a, b, c) = (x(d.saturating_sub(1)), x(0), x(d.saturating_sub(1)));
    match r.below(8) {
        0..=2 => {
            let mut s = a;
            for _ in 0..r.range(1, 6) {
                let f = if r.chance(1, 8) { "(f,g)" } else { *r.pick(&["f", "g", "(f)", "h[x]", "(f,)", "Set"]) };
                let y = *r.pick(&["a", "b", "2", "(x+y)", "{a,b}", "f[x]", "(a~f~b)", "x:p:2"]);
                s += &format!("~{f}~{y}");
            }
            if r.chance(1, 6) {
                s += "~";
                s += *r.pick(&["f", "(f,g)", ""]);
            }
            s
        },
        3 => format!("x:{}:{}", r.pick(&["_", "y_", "p", "(a|b)", "_Integer"]), r.pick(&["2", "d", "(a,b)", "{c}", "f'"])),
        4 => format!("{}{}", r.pick(&["f", "g[x]", "(a+b)", "{a}", "#", "\"s\"", "(f')", "f' [x]"]), "'".repeat(r.range(1, 9))),
        5 => format!("{{{a},{b}{}{c}}}", r.pick(&[",", ",,", ";", "+", ",\n", " "])),
        6 => format!("<|{a}->{b},{c}|>"),
        _ => format!("f[{a},{c}]"),
    }
}

/// What the front end writes in one box where text has several nodes must mean the same.
fn box_forms(r: &mut Rng, n: &C, o: &Opts, obs: &mut Obs) -> Result<(), String> {
    use wolfram_parser::parse::SyntaxErrorKind;
    use wolfram_parser::parse::operators::{BinaryOperator as B, InfixOperator as I, PostfixOperator as P, TernaryOperator as T};
    match n {
        Cst::Ternary(TernaryNode(OperatorNode { op: T::CodeParser_TernaryTilde, children: NodeSeq(ch) })) if ch.len() == 5 => {
            // a~f~b~g~c in one row
            let mut links = 1;
            let mut row = ch.clone();
            while let Cst::Ternary(TernaryNode(OperatorNode { op: T::CodeParser_TernaryTilde, children: NodeSeq(more) })) = &row[0] {
                if more.len() != 5 || r.chance(1, 8) {
                    break;
                }
                let more = more.clone();
                row.splice(0..1, more);
                links += 1;
            }
            let infix = |v: Vec<C>| Cst::Infix(InfixNode(OperatorNode { op: I::CodeParser_InfixTilde, children: NodeSeq(v) }));
            let want = abstracted(n.clone(), o)?;
            same("tildes in one row", &abstracted(infix(row.clone()), o)?, &want, links - 1)?;
            obs.count("rows of tildes");
            obs.max("max links in a row of tildes", links as u64);
            // with the end missing
            row.truncate(row.len() - 2);
            let row = infix(row);
            let want = Ast::AbstractSyntaxError {
                kind: AbstractSyntaxError::ExpectedTilde,
                args: vec![abstracted(ch[0].clone(), o)?, abstracted(ch[2].clone(), o)?],
                data: AstMetadata { source: src_of(&row), issues: vec![] },
            };
            same("tildes in one row, the last missing", &abstracted(row, o)?, &want, links - 1)?;
            // commas for the function
            if let Cst::Group(GroupNode(OperatorNode { op: GroupOperator::CodeParser_GroupParen, children: NodeSeq(p) })) = &ch[2] {
                if let [_, comma @ Cst::Infix(InfixNode(OperatorNode { op: I::CodeParser_Comma, .. })), _] = &p[..] {
                    let mut ch = ch.clone();
                    ch[2] = comma.clone();
                    let got = abstracted(Cst::Ternary(TernaryNode(OperatorNode { op: T::CodeParser_TernaryTilde, children: NodeSeq(ch) })), o)?;
                    let mut want = abstracted(n.clone(), o)?;
                    if let Ast::Call { head, .. } = &mut want {
                        if let Ast::AbstractSyntaxError { kind, data, .. } = &mut **head {
                            *kind = AbstractSyntaxError::CommaTopLevel;
                            data.source = src_of(comma);
                            same("commas between tildes", &got, &want, 0)?;
                            obs.count("commas between tildes");
                        }
                    }
                }
            }
        },
        Cst::SyntaxError(SyntaxErrorNode { err: SyntaxErrorKind::ExpectedTilde, children: NodeSeq(ch) }) if ch.len() == 3 => {
            let row = Cst::Infix(InfixNode(OperatorNode { op: I::CodeParser_InfixTilde, children: NodeSeq(ch.clone()) }));
            let want = Ast::AbstractSyntaxError {
                kind: AbstractSyntaxError::ExpectedTilde,
                args: vec![abstracted(ch[0].clone(), o)?, abstracted(ch[2].clone(), o)?],
                data: AstMetadata { source: src_of(&row), issues: vec![] },
            };
            same("one tilde in a row", &abstracted(row, o)?, &want, 0)?;
            obs.count("one tilde");
        },
        Cst::Binary(BinaryNode(OperatorNode { op: B::Optional, children: NodeSeq(ch) })) if ch.len() == 3 => {
            if let Cst::Binary(BinaryNode(OperatorNode { op: B::Pattern, children: NodeSeq(p) })) = &ch[0] {
                let row = p.iter().chain(&ch[1..]).cloned().collect();
                let got = abstracted(Cst::Ternary(TernaryNode(OperatorNode { op: T::CodeParser_TernaryOptionalPattern, children: NodeSeq(row) })), o)?;
                same("a pattern with a default in one row", &got, &abstracted(n.clone(), o)?, 1)?;
                obs.count("patterns with defaults");
            }
        },
        Cst::Postfix(PostfixNode(OperatorNode { op: P::Derivative, children: NodeSeq(ch) })) if ch.len() == 2 => {
            let mut order = 1;
            let mut body = &ch[0];
            while let Cst::Postfix(PostfixNode(OperatorNode { op: P::Derivative, children: NodeSeq(more) })) = body {
                body = &more[0];
                order += 1;
            }
            const QUOTES: &[u8] = b"''''''''''''''''''''''''''''''''''''''''";
            if let (Cst::Token(q), true) = (&ch[1], order <= QUOTES.len()) {
                let q = Token { tok: TokenKind::Boxes_MultiSingleQuote, input: TokenStr::new(&QUOTES[..order]), src: q.src };
                let got = abstracted(Cst::Postfix(PostfixNode(OperatorNode { op: P::Derivative, children: NodeSeq(vec![body.clone(), Cst::Token(q)]) })), o)?;
                same("quotes in one token", &got, &abstracted(n.clone(), o)?, 0)?;
                obs.count("quotes in one token");
            }
        },
        Cst::Group(GroupNode(OperatorNode { op, children: NodeSeq(ch) })) if ch.len() >= 3 => {
            let open = Cst::GroupMissingOpener(GroupMissingOpenerNode(OperatorNode { op: *op, children: NodeSeq(ch[1..].to_vec()) }));
            let source = src_of(&open);
            let args = match abstracted(n.clone(), o)? {
                Ast::Call { args, head, .. } if matches!(*head, Ast::Leaf { ref data, .. } if data.source == Source::Unknown) && *op != GroupOperator::CodeParser_GroupParen => args,
                _ => return Ok(()),
            };
            let want = Ast::GroupMissingOpener { kind: *op, children: args, data: AstMetadata { source, issues: vec![] } };
            same("a group without its opener", &abstracted(open, o)?, &want, 0)?;
            obs.count("groups without openers");
        },
        _ => {},
    }
    Ok(())
}

/// Boxes that may be called.
const CALLED: &[BoxKind] = &[
    BoxKind::TemplateBox, BoxKind::InterpretationBox, BoxKind::SubscriptBox, BoxKind::SuperscriptBox, BoxKind::StyleBox, BoxKind::NamespaceBox, BoxKind::OverscriptBox,
    BoxKind::SubsuperscriptBox,
];

/// Replace some of the symbols that are operands by boxes.
fn put_boxes(r: &mut Rng, c: &C, operand: bool, put: &mut Vec<(Token<TokenStr<'static>>, C)>, calls: &mut Vec<(Span, Span, Span)>) -> C {
    use wolfram_parser::parse::operators::InfixOperator as I;
    fn seq(r: &mut Rng, s: &CstSeq<TokenStr<'static>>, put: &mut Vec<(Token<TokenStr<'static>>, C)>, calls: &mut Vec<(Span, Span, Span)>) -> CstSeq<TokenStr<'static>> {
        NodeSeq(s.0.iter().map(|c| put_boxes(r, c, true, put, calls)).collect())
    }
    match c {
        Cst::Token(t) if operand && t.tok == TokenKind::Symbol && t.input.as_bytes().len() == 1 && r.chance(1, 3) => {
            let x = rnd_box(r, 2, t.src);
            put.push((t.clone(), x.clone()));
            x
        },
        Cst::Infix(InfixNode(n)) if !matches!(n.op, I::MessageName) => Cst::Infix(InfixNode(OperatorNode { op: n.op, children: seq(r, &n.children, put, calls) })),
        Cst::Binary(BinaryNode(n)) => Cst::Binary(BinaryNode(OperatorNode { op: n.op, children: seq(r, &n.children, put, calls) })),
        Cst::Prefix(PrefixNode(n)) => Cst::Prefix(PrefixNode(OperatorNode { op: n.op, children: seq(r, &n.children, put, calls) })),
        Cst::Postfix(PostfixNode(n)) => Cst::Postfix(PostfixNode(OperatorNode { op: n.op, children: seq(r, &n.children, put, calls) })),
        Cst::Ternary(TernaryNode(n)) => Cst::Ternary(TernaryNode(OperatorNode { op: n.op, children: seq(r, &n.children, put, calls) })),
        Cst::PrefixBinary(PrefixBinaryNode(n)) => Cst::PrefixBinary(PrefixBinaryNode(OperatorNode { op: n.op, children: seq(r, &n.children, put, calls) })),
        Cst::Group(GroupNode(n)) => Cst::Group(GroupNode(OperatorNode { op: n.op, children: seq(r, &n.children, put, calls) })),
        Cst::Call(CallNode { head: CallHead::Aggregate(h), body: CallBody::Group(GroupNode(n)) }) => {
            let head = put_boxes(r, h, true, put, calls);
            if let (Cst::Token(_), Cst::Box(b)) = (&**h, &head) {
                if !CALLED.contains(&b.kind) && n.op != CallOperator::CodeParser_GroupTypeSpecifier {
                    calls.push((c.get_source(), n.children.0[0].get_source(), n.children.0[n.children.0.len() - 1].get_source()));
                }
            }
            Cst::Call(CallNode {
                head: CallHead::Aggregate(Box::new(head)),
                body: CallBody::Group(GroupNode(OperatorNode::<_, _, CallOperator> { op: n.op, children: seq(r, &n.children, put, calls) })),
            })
        },
        c => c.clone(),
    }
}
