//! Adapters: run the code under test and turn what it returns into neutral records.

use std::cell::RefCell;
use std::collections::HashMap;
use wolfram_parser::cst::*;
use wolfram_parser::parse::operators as o;
use wolfram_parser::source::{Location, SourceConvention, Source, Span};
use wolfram_parser::tokenize::{Token, TokenInput, TokenKind, TokenStr};
use wolfram_parser::*;

/// Every option a caller can set.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Opts {
    pub first_line: u8, // 0 not script, 1 check, 2 script
    pub char_index: bool,
    pub boxed: bool,
    pub tab: u32,
    pub infix_at: bool,
    pub flatten_times: bool,
    pub old_at3: bool,
}

impl Opts {
    pub const DEFAULT: Opts =
        Opts { first_line: 0, char_index: false, boxed: false, tab: 4, infix_at: true, flatten_times: false, old_at3: false };
    pub fn quirks(&self) -> QuirkSettings {
        QuirkSettings { infix_binary_at: self.infix_at, flatten_times: self.flatten_times, old_at_at_at: self.old_at3 }
    }
    pub fn make(&self) -> ParseOptions {
        ParseOptions::make(
            match self.first_line {
                0 => FirstLineBehavior::NotScript,
                1 => FirstLineBehavior::Check,
                _ => FirstLineBehavior::Script,
            },
            if self.char_index { SourceConvention::CharacterIndex } else { SourceConvention::LineColumn },
            if self.boxed { EncodingMode::Box } else { EncodingMode::Normal },
            self.tab,
            self.quirks(),
        )
    }
    pub fn show(&self) -> String {
        format!(
            "first_line={} char_index={} boxed={} tab={} infix_at={} flatten_times={} old_at3={}",
            self.first_line, self.char_index as u8, self.boxed as u8, self.tab, self.infix_at as u8, self.flatten_times as u8, self.old_at3 as u8
        )
    }
    pub fn parse(s: &str) -> Opts {
        let mut r = Opts::DEFAULT;
        for kv in s.split_whitespace() {
            let (k, v) = kv.split_once('=').unwrap();
            let n: u32 = v.parse().unwrap();
            match k {
                "first_line" => r.first_line = n as u8,
                "char_index" => r.char_index = n != 0,
                "boxed" => r.boxed = n != 0,
                "tab" => r.tab = n,
                "infix_at" => r.infix_at = n != 0,
                "flatten_times" => r.flatten_times = n != 0,
                "old_at3" => r.old_at3 = n != 0,
                _ => panic!("bad option {k}"),
            }
        }
        r
    }
}

// ---- calling the code under test ------------------------------------------------

thread_local! {
    pub static IN_REAL: RefCell<bool> = RefCell::new(false);
    pub static LAST_PANIC: RefCell<String> = RefCell::new(String::new());
}

/// Step budget for an input of `n` bytes: far above what any input needs (see DESIGN.md).
pub fn step_budget(n: usize) -> u64 {
    20_000_000 + 200_000 * n as u64
}

/// Call the code under test. A panic inside it becomes an Err.
pub fn call<T>(what: &str, n: usize, f: impl FnOnce() -> T) -> Result<T, String> {
    verif_hooks::reset(step_budget(n));
    IN_REAL.with(|x| *x.borrow_mut() = true);
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
    IN_REAL.with(|x| *x.borrow_mut() = false);
    r.map_err(|_| format!("{what} panicked: {}", LAST_PANIC.with(|p| p.borrow().clone())))
}

// ---- neutral forms ---------------------------------------------------------------

#[derive(Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct Loc(pub u32, pub u32); // (line, column) or (index, 0)

impl std::fmt::Debug for Loc {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        if self.1 == 0 { write!(f, "{}", self.0) } else { write!(f, "{}:{}", self.0, self.1) }
    }
}

pub fn loc(l: Location) -> Loc {
    match l {
        Location::LineColumn(lc) => Loc(lc.0.get(), lc.1.get()),
        Location::CharacterIndex(i) => Loc(i, 0),
    }
}

pub fn span(s: Span) -> [Loc; 2] {
    [loc(s.start()), loc(s.end())]
}

pub fn source_span(s: &Source) -> Option<[Loc; 2]> {
    match s {
        Source::Span(s) => Some(span(*s)),
        _ => None,
    }
}

thread_local! {
    static NAMES: RefCell<HashMap<(u8, u32), &'static str>> = RefCell::new(HashMap::new());
}

fn intern(class: u8, v: u32, d: &dyn std::fmt::Debug) -> &'static str {
    NAMES.with(|n| {
        *n.borrow_mut().entry((class, v)).or_insert_with(|| Box::leak(format!("{d:?}").into_boxed_str()))
    })
}

pub fn kind_name(k: TokenKind) -> &'static str {
    intern(0, k as u32, &k)
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct Tok {
    pub kind: &'static str,
    pub s: usize,
    pub e: usize,
    pub span: [Loc; 2],
}

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum Tree {
    Leaf(Tok),
    Node { class: &'static str, op: &'static str, ch: Vec<Tree> },
}

pub fn tok(input: &[u8], t: &Token<TokenStr>) -> Tok {
    let b = t.input.as_bytes();
    // where in `input` the text lies; usize::MAX when it is not a part of the input at all
    let (s, e) = if b.is_empty() && (b.as_ptr() as usize) < input.as_ptr() as usize {
        (0, 0)
    } else {
        let s = (b.as_ptr() as usize).wrapping_sub(input.as_ptr() as usize);
        if s > input.len() || s + b.len() > input.len() {
            (usize::MAX, usize::MAX)
        } else {
            (s, s + b.len())
        }
    };
    Tok { kind: kind_name(t.tok), s, e, span: span(t.src) }
}

pub fn toks(input: &[u8], ts: &NodeSeq<Token<TokenStr>>) -> Vec<Tok> {
    ts.0.iter().map(|t| tok(input, t)).collect()
}

fn kids(input: &[u8], c: &CstSeq<TokenStr>) -> Vec<Tree> {
    c.0.iter().map(|x| tree(input, x)).collect()
}

pub fn group_op(op: o::GroupOperator) -> &'static str {
    intern(7, op as u32, &op)
}

pub fn call_op(op: o::CallOperator) -> &'static str {
    intern(8, op as u32, &op)
}

pub fn syntax_err(op: wolfram_parser::parse::SyntaxErrorKind) -> &'static str {
    intern(9, op as u32, &op)
}

pub fn tree(input: &[u8], c: &Cst<TokenStr>) -> Tree {
    match c {
        Cst::Token(t) => Tree::Leaf(tok(input, t)),
        Cst::Call(CallNode { head, body }) => {
            let h = match head {
                CallHead::Concrete(seq) => kids(input, seq),
                CallHead::Aggregate(c) => vec![Tree::Node { class: "AggHead", op: "", ch: vec![tree(input, c)] }],
            };
            let b = match body {
                CallBody::Group(GroupNode(n)) => Tree::Node { class: "Group", op: call_op(n.op), ch: kids(input, &n.children) },
                CallBody::GroupMissingCloser(GroupMissingCloserNode(n)) => {
                    Tree::Node { class: "GroupMissingCloser", op: call_op(n.op), ch: kids(input, &n.children) }
                },
            };
            Tree::Node { class: "Call", op: "", ch: vec![Tree::Node { class: "Head", op: "", ch: h }, b] }
        },
        Cst::SyntaxError(n) => Tree::Node { class: "SyntaxError", op: syntax_err(n.err), ch: kids(input, &n.children) },
        Cst::Prefix(PrefixNode(n)) => Tree::Node { class: "Prefix", op: intern(1, n.op as u32, &n.op), ch: kids(input, &n.children) },
        Cst::Infix(InfixNode(n)) => Tree::Node { class: "Infix", op: intern(2, n.op as u32, &n.op), ch: kids(input, &n.children) },
        Cst::Postfix(PostfixNode(n)) => Tree::Node { class: "Postfix", op: intern(3, n.op as u32, &n.op), ch: kids(input, &n.children) },
        Cst::Binary(BinaryNode(n)) => Tree::Node { class: "Binary", op: intern(4, n.op as u32, &n.op), ch: kids(input, &n.children) },
        Cst::Ternary(TernaryNode(n)) => Tree::Node { class: "Ternary", op: intern(5, n.op as u32, &n.op), ch: kids(input, &n.children) },
        Cst::PrefixBinary(PrefixBinaryNode(n)) => {
            Tree::Node { class: "PrefixBinary", op: intern(6, n.op as u32, &n.op), ch: kids(input, &n.children) }
        },
        Cst::Compound(CompoundNode(n)) => Tree::Node { class: "Compound", op: intern(10, n.op as u32, &n.op), ch: kids(input, &n.children) },
        Cst::Group(GroupNode(n)) => Tree::Node { class: "Group", op: group_op(n.op), ch: kids(input, &n.children) },
        Cst::GroupMissingCloser(GroupMissingCloserNode(n)) => {
            Tree::Node { class: "GroupMissingCloser", op: group_op(n.op), ch: kids(input, &n.children) }
        },
        Cst::GroupMissingOpener(GroupMissingOpenerNode(n)) => {
            Tree::Node { class: "GroupMissingOpener", op: group_op(n.op), ch: kids(input, &n.children) }
        },
        Cst::Box(_) => Tree::Node { class: "Box", op: "", ch: vec![] },
        Cst::Code(_) => Tree::Node { class: "Code", op: "", ch: vec![] },
    }
}

pub fn forest(input: &[u8], c: &CstSeq<TokenStr>) -> Vec<Tree> {
    kids(input, c)
}

impl Tree {
    pub fn leaves<'a>(&'a self, out: &mut Vec<&'a Tok>) {
        match self {
            Tree::Leaf(t) => out.push(t),
            Tree::Node { ch, .. } => ch.iter().for_each(|c| c.leaves(out)),
        }
    }
    pub fn show(&self, input: &[u8]) -> String {
        match self {
            Tree::Leaf(t) => {
                let txt = if t.e <= input.len() { String::from_utf8_lossy(&input[t.s..t.e]).into_owned() } else { "<outside input>".into() };
                format!("{}({:?})", t.kind, txt)
            },
            Tree::Node { class, op, ch } => {
                let c: Vec<String> = ch.iter().map(|c| c.show(input)).collect();
                format!("{class}:{op}[{}]", c.join(", "))
            },
        }
    }
}

pub fn is_trivia(kind: &str) -> bool {
    matches!(kind, "Whitespace" | "InternalNewline" | "ToplevelNewline" | "Comment")
}

/// Remove whitespace, newlines and comments.
pub fn strip(f: &[Tree]) -> Vec<Tree> {
    f.iter()
        .filter(|t| !matches!(t, Tree::Leaf(t) if is_trivia(t.kind)))
        .map(|t| match t {
            Tree::Leaf(t) => Tree::Leaf(*t),
            Tree::Node { class, op, ch } => Tree::Node { class, op, ch: strip(ch) },
        })
        .collect()
}

pub fn show_forest(input: &[u8], f: &[Tree]) -> String {
    f.iter().map(|t| t.show(input)).collect::<Vec<_>>().join("  ;;; ")
}

// ---- abstract trees ------------------------------------------------------------------------------

use crate::model::abs::A;
use wolfram_parser::ast::Ast;

pub fn sev(s: issue::Severity) -> &'static str {
    s.as_str()
}

pub fn issue_text(i: &issue::Issue) -> String {
    let more: Vec<Option<[Loc; 2]>> = i.additional_sources.iter().map(source_span).collect();
    let more: Vec<[Loc; 2]> = more.into_iter().map(|m| m.unwrap_or([Loc(9999999, 0); 2])).collect();
    crate::model::abs::issue(i.tag.as_str(), sev(i.sev), source_span(&i.src).unwrap_or([Loc(9999999, 0); 2]), i.val, &more)
}

pub fn ast(a: &Ast) -> A {
    let kids = |v: &[Ast]| v.iter().map(ast).collect::<Vec<A>>();
    let with = |h: &Ast, v: &[Ast]| {
        let mut k = vec![ast(h)];
        k.extend(v.iter().map(ast));
        k
    };
    let (k, name, ch, data): (&'static str, String, Vec<A>, &wolfram_parser::ast::AstMetadata) = match a {
        Ast::Leaf { kind, input, data } => ("Leaf", format!("{} {}", kind_name(*kind), String::from_utf8_lossy(input.as_bytes())), vec![], data),
        Ast::Error { kind, input, data } => ("Error", format!("{} {}", kind_name(*kind), String::from_utf8_lossy(input.as_bytes())), vec![], data),
        Ast::Call { head, args, data } => ("Call", String::new(), with(head, args), data),
        Ast::CallMissingCloser { head, args, data } => ("CallMissingCloser", String::new(), with(head, args), data),
        Ast::SyntaxError { kind, children, data } => ("SyntaxError", syntax_err(*kind).into(), kids(children), data),
        Ast::AbstractSyntaxError { kind, args, data } => ("AbstractSyntaxError", format!("{kind:?}"), kids(args), data),
        Ast::GroupMissingCloser { kind, children, data } => ("GroupMissingCloser", group_op(*kind).into(), kids(children), data),
        Ast::GroupMissingOpener { kind, children, data } => ("GroupMissingOpener", group_op(*kind).into(), kids(children), data),
        Ast::PrefixNode_PrefixLinearSyntaxBang(ch, data) => ("Bang", String::new(), kids(&ch[..]), data),
        Ast::Box { kind, args, data } => ("Box", format!("{kind:?}"), kids(args), data),
        Ast::Code { data, .. } => ("Code", String::new(), vec![], data),
        Ast::Group { kind, children, data } => {
            ("Group", group_op(*kind).into(), vec![ast(&children.0), ast(&children.1), ast(&children.2)], data)
        },
        Ast::TagBox_GroupParen { data, .. } => ("TagBox", String::new(), vec![], data),
    };
    A { k, name, ch, span: source_span(&data.source), issues: data.issues.iter().map(issue_text).collect() }
}
