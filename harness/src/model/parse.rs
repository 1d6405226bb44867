//! Reference parser: the concrete tree an input stands for. A plain functional precedence climber
//! over the reference lexer; it shares no code with the parser under test.

use super::lex::{self, Mode};
use crate::real::{is_trivia, Loc, Tok, Tree};
use std::collections::HashMap;
use std::sync::OnceLock;

pub struct Op {
    pub class: &'static str,
    pub kind: &'static str,
    pub prec: u8,
    pub op: &'static str,
    /// how it is written, when it is a long name: the name
    pub name: &'static str,
}

pub fn ops() -> &'static Vec<Op> {
    static T: OnceLock<Vec<Op>> = OnceLock::new();
    T.get_or_init(|| {
        include_str!("../../data/ops.tsv")
            .lines()
            .map(|l| {
                let f: Vec<&'static str> = l.split('\t').collect();
                Op { class: f[0], kind: f[1], prec: f[2].parse().unwrap(), op: f[3], name: f[5] }
            })
            .collect()
    })
}

fn prefix_op(k: &str) -> Option<&'static Op> {
    static T: OnceLock<HashMap<&'static str, &'static Op>> = OnceLock::new();
    T.get_or_init(|| ops().iter().filter(|o| o.class == "Prefix").map(|o| (o.kind, o)).collect()).get(k).copied()
}
fn infix_op(k: &str) -> Option<&'static Op> {
    static T: OnceLock<HashMap<&'static str, &'static Op>> = OnceLock::new();
    T.get_or_init(|| ops().iter().filter(|o| o.class != "Prefix" && o.class != "Times").map(|o| (o.kind, o)).collect()).get(k).copied()
}

/// (opener, closer, group)
pub const GROUPS: &[(&str, &str, &str)] = &[
    ("OpenParen", "CloseParen", "CodeParser_GroupParen"),
    ("OpenSquare", "CloseSquare", "CodeParser_GroupSquare"),
    ("OpenCurly", "CloseCurly", "List"),
    ("LessBar", "BarGreater", "Association"),
    ("ColonColonOpenSquare", "CloseSquare", "CodeParser_GroupTypeSpecifier"),
    ("LongName_LeftAngleBracket", "LongName_RightAngleBracket", "AngleBracket"),
    ("LongName_LeftCeiling", "LongName_RightCeiling", "Ceiling"),
    ("LongName_LeftFloor", "LongName_RightFloor", "Floor"),
    ("LongName_LeftDoubleBracket", "LongName_RightDoubleBracket", "CodeParser_GroupDoubleBracket"),
    ("LongName_LeftBracketingBar", "LongName_RightBracketingBar", "BracketingBar"),
    ("LongName_LeftDoubleBracketingBar", "LongName_RightDoubleBracketingBar", "DoubleBracketingBar"),
    ("LongName_LeftAssociation", "LongName_RightAssociation", "Association"),
    ("LongName_OpenCurlyQuote", "LongName_CloseCurlyQuote", "CurlyQuote"),
    ("LongName_OpenCurlyDoubleQuote", "LongName_CloseCurlyDoubleQuote", "CurlyDoubleQuote"),
];

fn group(k: &str) -> Option<&'static (&'static str, &'static str, &'static str)> {
    GROUPS.iter().find(|g| g.0 == k)
}
pub fn closer(k: &str) -> bool {
    GROUPS.iter().any(|g| g.1 == k)
}

fn unsupported(k: &str) -> bool {
    matches!(
        k,
        "LinearSyntax_At" | "LinearSyntax_Amp" | "LinearSyntax_Star" | "LinearSyntax_Under" | "LinearSyntax_Caret" | "LinearSyntax_Space"
            | "LinearSyntax_Percent" | "LinearSyntax_Plus" | "LinearSyntax_Slash" | "LinearSyntax_BackTick" | "LinearSyntax_CloseParen"
            | "QuestionQuestion" | "LongName_Limit" | "LongName_MaxLimit" | "LongName_MinLimit" | "LongName_AutoLeftMatch"
            | "LongName_AutoRightMatch" | "LongName_DiscreteShift" | "LongName_DifferenceDelta" | "LongName_DiscreteRatio" | "LongName_PartialD"
    )
}

fn integral(k: &str) -> Option<(&'static str, &'static str)> {
    Some(match k {
        "LongName_Integral" => ("Integrate", "Integral"),
        "LongName_ContourIntegral" => ("ContourIntegral", "ContourIntegral"),
        "LongName_DoubleContourIntegral" => ("DoubleContourIntegral", "DoubleContourIntegral"),
        "LongName_ClockwiseContourIntegral" => ("ClockwiseContourIntegral", "ClockwiseContourIntegral"),
        "LongName_CounterClockwiseContourIntegral" => ("CounterClockwiseContourIntegral", "CounterClockwiseContourIntegral"),
        _ => return None,
    })
}

fn differential(k: &str) -> bool {
    matches!(k, "LongName_DifferentialD" | "LongName_CapitalDifferentialD")
}

/// Can an expression begin with this token?
fn begins(k: &str) -> bool {
    matches!(
        k,
        "Symbol" | "String" | "Integer" | "Real" | "Rational" | "LinearSyntaxBlob" | "Percent" | "PercentPercent" | "Hash" | "HashHash" | "Under"
            | "UnderUnder" | "UnderUnderUnder" | "UnderDot" | "SemiSemi" | "LessLess" | "OpenParen" | "OpenCurly" | "LessBar"
            | "LongName_LeftCeiling" | "LongName_LeftFloor" | "LongName_LeftAngleBracket" | "LongName_LeftBracketingBar"
            | "LongName_LeftDoubleBracketingBar" | "LongName_LeftAssociation" | "LongName_OpenCurlyQuote" | "LongName_OpenCurlyDoubleQuote"
    ) || prefix_op(k).is_some()
        || integral(k).is_some()
}

fn times(k: &str) -> bool {
    matches!(k, "Star" | "LongName_Times" | "LongName_InvisibleTimes" | "Fake_ImplicitTimes")
}
fn comma(k: &str) -> bool {
    matches!(k, "Comma" | "LongName_InvisibleComma")
}

const CALL: u8 = 176;
const HIGHEST: u8 = 188;
const INTEGRATION: u8 = 92;

#[derive(Clone, Copy, Debug)]
struct T {
    k: &'static str,
    s: usize,
    e: usize,
}

struct P<'a> {
    b: &'a [u8],
    i: usize,
    groups: Vec<&'static str>,
    ctx: Vec<u8>,
}

fn leaf(t: T) -> Tree {
    Tree::Leaf(Tok { kind: t.k, s: t.s, e: t.e, span: [Loc(0, 0); 2] })
}
fn node(class: &'static str, op: &'static str, ch: Vec<Tree>) -> Tree {
    Tree::Node { class, op, ch }
}
fn empty(k: &'static str, at: T) -> T {
    T { k, s: at.s, e: at.s }
}
fn add(ch: &mut Vec<Tree>, trivia: &[T]) {
    ch.extend(trivia.iter().map(|t| leaf(*t)));
}
fn greater(l: u8, r: u8) -> bool {
    (l | 1) > r
}

impl<'a> P<'a> {
    fn mk(&self, (k, e): (&'static str, usize)) -> T {
        let k = if k == lex::NEWLINE { if self.groups.is_empty() { "ToplevelNewline" } else { "InternalNewline" } } else { k };
        T { k, s: self.i, e }
    }
    fn peek(&self) -> T {
        self.mk(lex::token(self.b, self.i, Mode::Normal))
    }
    /// Skip trivia; the token after it is not consumed.
    fn skip(&mut self, newlines: bool) -> (Vec<T>, T) {
        let mut v = vec![];
        loop {
            let t = self.peek();
            if !is_trivia(t.k) || (!newlines && t.k == "ToplevelNewline") {
                return (v, t);
            }
            self.i = t.e;
            v.push(t);
        }
    }
    fn file(&mut self) -> (Vec<T>, T) {
        let mut v = vec![];
        loop {
            let mut t = self.mk(lex::file(self.b, self.i));
            if t.k == "InternalNewline" {
                // before a file name, newlines are always taken for top-level ones
                t.k = "ToplevelNewline";
            }
            if !is_trivia(t.k) {
                return (v, t);
            }
            self.i = t.e;
            v.push(t);
        }
    }
    fn reset(&mut self, v: &[T]) {
        if let Some(t) = v.first() {
            self.i = t.s;
        }
    }
    fn top(&self) -> u8 {
        self.ctx.last().copied().unwrap_or(0)
    }
    fn set(&mut self, p: u8) {
        *self.ctx.last_mut().unwrap() = p;
    }
    /// end of a construct: leave its precedence level and look for an operator that continues it
    fn done(&mut self, class: &'static str, op: &'static str, ch: Vec<Tree>) -> Tree {
        self.ctx.pop();
        self.climb(node(class, op, ch))
    }

    fn process(&self, t: T, last: &Tree) -> T {
        let implicit = match t.k {
            k if differential(k) => self.top() != INTEGRATION,
            "SemiSemi" => matches!(last, Tree::Node { class: "Binary" | "Ternary", op: "Span", .. }),
            k => self.rank(k).is_none(),
        };
        if implicit { empty("Fake_ImplicitTimes", t) } else { t }
    }

    /// Precedence of a token in operator position; None: an operand, so multiplication is implied.
    fn rank(&self, k: &str) -> Option<u8> {
        if k == "EndOfFile" || is_trivia(k) || k.starts_with("Error_") || closer(k) || (unsupported(k) && !k.starts_with("LinearSyntax_")) {
            return Some(0);
        }
        if let Some(o) = infix_op(k) {
            return Some(o.prec);
        }
        if times(k) {
            return Some(108);
        }
        Some(match k {
            "SemiSemi" => 80,
            "OpenSquare" | "LongName_LeftDoubleBracket" | "ColonColonOpenSquare" => CALL,
            "Semi" => 4,
            "Tilde" => 162,
            "SlashColon" => 11,
            "Equal" | "ColonEqual" => 9,
            "ColonColon" => 184,
            "GreaterGreater" | "GreaterGreaterGreater" => 6,
            "Colon" => {
                // inside the right side of `a : b`, another colon gives the default
                let c = self.ctx.iter().rev().find(|p| **p <= 40);
                if c == Some(&40) { 38 } else { HIGHEST }
            },
            k if comma(k) => 2,
            k if differential(k) => 0,
            _ => return None,
        })
    }

    fn climb(&mut self, done: Tree) -> Tree {
        let (tr, t) = self.skip(false);
        let t = self.process(t, &done);
        let p = self.rank(t.k).expect("an operator");
        if greater(self.top(), p) {
            self.reset(&tr);
            return done;
        }
        self.ctx.push(p);
        self.infix(done, tr, t)
    }

    fn take(&mut self, t: T) -> Tree {
        self.i = t.e;
        leaf(t)
    }
    fn atom(&mut self, t: T) -> Tree {
        let l = self.take(t);
        self.climb(l)
    }
    /// trivia (newlines too) and an operand
    fn operand(&mut self, ch: &mut Vec<Tree>) {
        let (tr, t) = self.skip(true);
        add(ch, &tr);
        let x = self.prefix(t);
        ch.push(x);
    }

    fn prefix(&mut self, t: T) -> Tree {
        let k = t.k;
        if k == "EndOfFile" || closer(k) {
            return leaf(empty(if self.top() == 2 { "Error_InfixImplicitNull" } else { "Error_ExpectedOperand" }, t));
        }
        if k.starts_with("Error_") {
            return self.take(t);
        }
        if unsupported(k) {
            return self.take(T { k: "Error_UnsupportedToken", ..t });
        }
        if comma(k) {
            let l = leaf(empty(if self.top() == 0 { "Error_PrefixImplicitNull" } else { "Error_ExpectedOperand" }, t));
            return self.climb(l);
        }
        if let Some(o) = prefix_op(k) {
            let mut ch = vec![self.take(t)];
            self.ctx.push(o.prec);
            self.operand(&mut ch);
            return self.done("Prefix", o.op, ch);
        }
        if let Some(g) = group(k) {
            return self.group(t, g);
        }
        if let Some((both, one)) = integral(k) {
            let mut ch = vec![self.take(t)];
            self.ctx.push(INTEGRATION);
            let (tr, t) = self.skip(true);
            add(&mut ch, &tr);
            let x = if differential(t.k) { leaf(empty("Fake_ImplicitOne", t)) } else { self.prefix(t) };
            ch.push(x);
            let (tr, t) = self.skip(true);
            if !differential(t.k) {
                self.reset(&tr);
                return self.done("Prefix", one, ch);
            }
            add(&mut ch, &tr);
            let x = self.prefix(t);
            ch.push(x);
            return self.done("PrefixBinary", both, ch);
        }
        match k {
            "String" | "Integer" | "Real" | "Rational" | "LinearSyntaxBlob" | "PercentPercent" | "UnderDot" => self.atom(t),
            "Symbol" => {
                let s = self.take(t);
                let n = self.peek();
                let op = match n.k {
                    "Under" => "CodeParser_PatternBlank",
                    "UnderUnder" => "CodeParser_PatternBlankSequence",
                    "UnderUnderUnder" => "CodeParser_PatternBlankNullSequence",
                    "UnderDot" => {
                        let u = self.take(n);
                        return self.climb(node("Compound", "CodeParser_PatternOptionalDefault", vec![s, u]));
                    },
                    _ => return self.climb(s),
                };
                let u = self.under(n);
                self.climb(node("Compound", op, vec![s, u]))
            },
            "Under" | "UnderUnder" | "UnderUnderUnder" => {
                let u = self.under(t);
                self.climb(u)
            },
            "Hash" | "HashHash" | "Percent" => {
                let h = self.take(t);
                let n = self.mk(lex::token(self.b, self.i, if k == "Hash" { Mode::Slot } else { Mode::Digits }));
                let op = match (k, n.k) {
                    ("Hash", "Integer" | "String") => "Slot",
                    ("HashHash", "Integer") => "SlotSequence",
                    ("Percent", "Integer") => "Out",
                    _ => return self.climb(h),
                };
                let a = self.take(n);
                self.climb(node("Compound", op, vec![h, a]))
            },
            "SemiSemi" => {
                let l = leaf(empty("Fake_ImplicitOne", t));
                self.ctx.push(80);
                self.infix(l, vec![], t)
            },
            "LessLess" => {
                let mut ch = vec![self.take(t)];
                self.ctx.push(HIGHEST);
                let (tr, f) = self.file();
                add(&mut ch, &tr);
                ch.push(self.take(f));
                self.done("Prefix", "Get", ch)
            },
            _ => {
                // an operator where an operand should be
                let l = leaf(empty("Error_ExpectedOperand", t));
                let p = self.rank(k).expect("an operator");
                if greater(self.top(), p) {
                    return l;
                }
                self.ctx.push(p);
                self.infix(l, vec![], t)
            },
        }
    }

    fn under(&mut self, t: T) -> Tree {
        let u = self.take(t);
        let n = self.peek();
        if !matches!(n.k, "Symbol" | "Error_ExpectedLetterlike") {
            return u;
        }
        let s = self.take(n);
        let op = match t.k {
            "Under" => "Blank",
            "UnderUnder" => "BlankSequence",
            _ => "BlankNullSequence",
        };
        node("Compound", op, vec![u, s])
    }

    fn group(&mut self, t: T, g: &'static (&'static str, &'static str, &'static str)) -> Tree {
        self.groups.push(g.1);
        let mut ch = vec![self.take(t)];
        self.ctx.push(0);
        loop {
            let (tr, t) = self.skip(true);
            if t.k == g.1 {
                add(&mut ch, &tr);
                ch.push(self.take(t));
                self.groups.pop();
                return self.done("Group", g.2, ch);
            }
            if closer(t.k) {
                if self.groups.contains(&t.k) {
                    self.reset(&tr);
                    self.groups.pop();
                    self.ctx.pop();
                    return node("GroupMissingCloser", g.2, ch);
                }
                add(&mut ch, &tr);
                ch.push(self.take(T { k: "Error_UnexpectedCloser", ..t }));
                continue;
            }
            add(&mut ch, &tr);
            if t.k == "EndOfFile" {
                self.groups.pop();
                self.ctx.pop();
                return node("Cut", g.2, ch);
            }
            let x = self.prefix(t);
            ch.push(x);
        }
    }

    fn infix(&mut self, lhs: Tree, tr: Vec<T>, t: T) -> Tree {
        let k = t.k;
        // calls keep what comes before the bracket as their head
        if let ("OpenSquare" | "LongName_LeftDoubleBracket" | "ColonColonOpenSquare", Some(g)) = (k, group(k)) {
            let mut head = vec![lhs];
            add(&mut head, &tr);
            self.set(HIGHEST);
            let body = self.group(t, g);
            return self.done("Call", "", vec![node("Head", "", head), body]);
        }
        let colon = (k == "Colon").then(|| match &lhs {
            Tree::Leaf(l) if l.kind == "Symbol" || l.kind.starts_with("Error_") => "Pattern",
            Tree::Leaf(l) if matches!(l.kind, "Under" | "UnderUnder" | "UnderUnderUnder") => "Optional",
            Tree::Node { class: "Binary", op: "Pattern", .. } => "Optional",
            Tree::Node {
                class: "Compound",
                op:
                    "CodeParser_PatternBlank" | "CodeParser_PatternBlankSequence" | "CodeParser_PatternBlankNullSequence" | "Blank" | "BlankSequence"
                    | "BlankNullSequence",
                ..
            } => "Optional",
            _ => "ExpectedSymbol",
        });
        let mut ch = vec![lhs];
        add(&mut ch, &tr);
        ch.push(self.take(t));
        if let Some(o) = infix_op(k) {
            match o.class {
                "Postfix" => return self.done("Postfix", o.op, ch),
                "Binary" => {
                    self.operand(&mut ch);
                    return self.done("Binary", o.op, ch);
                },
                _ => loop {
                    self.operand(&mut ch);
                    let (tr, t) = self.skip(true);
                    if !infix_op(t.k).map_or(false, |n| n.class == "Infix" && n.op == o.op) {
                        self.reset(&tr);
                        return self.done("Infix", o.op, ch);
                    }
                    add(&mut ch, &tr);
                    ch.push(self.take(t));
                },
            }
        }
        if times(k) {
            loop {
                self.operand(&mut ch);
                let (mut tr, t) = self.skip(true);
                let mut t = self.process(t, ch.last().unwrap());
                if t.k == "Fake_ImplicitTimes" {
                    self.reset(&tr);
                    let (a, b) = self.skip(false);
                    tr = a;
                    t = self.process(b, ch.last().unwrap());
                }
                if !times(t.k) {
                    self.reset(&tr);
                    return self.done("Infix", "Times", ch);
                }
                add(&mut ch, &tr);
                ch.push(self.take(t));
            }
        }
        if comma(k) {
            loop {
                let (tr, t) = self.skip(true);
                add(&mut ch, &tr);
                let x = if comma(t.k) { leaf(empty("Error_InfixImplicitNull", t)) } else { self.prefix(t) };
                ch.push(x);
                let (tr, t) = self.skip(true);
                if !comma(t.k) {
                    self.reset(&tr);
                    self.ctx.pop();
                    return node("Infix", "CodeParser_Comma", ch);
                }
                add(&mut ch, &tr);
                ch.push(self.take(t));
            }
        }
        match k {
            "Semi" => loop {
                let (tr, t) = self.skip(false);
                add(&mut ch, &tr);
                if t.k == "Semi" || !begins(t.k) {
                    ch.push(leaf(empty("Fake_ImplicitNull", t)));
                    if t.k != "Semi" {
                        return self.done("Infix", "CompoundExpression", ch);
                    }
                } else {
                    let x = self.prefix(t);
                    ch.push(x);
                }
                let (tr, t) = self.skip(true);
                if t.k != "Semi" {
                    self.reset(&tr);
                    return self.done("Infix", "CompoundExpression", ch);
                }
                add(&mut ch, &tr);
                ch.push(self.take(t));
            },
            "SemiSemi" => self.span(ch),
            "Tilde" => {
                self.operand(&mut ch);
                let (tr, t) = self.skip(true);
                if t.k != "Tilde" {
                    self.reset(&tr);
                    return self.done("SyntaxError", "ExpectedTilde", ch);
                }
                add(&mut ch, &tr);
                ch.push(self.take(t));
                self.operand(&mut ch);
                self.done("Ternary", "CodeParser_TernaryTilde", ch)
            },
            "Colon" => {
                let kind = colon.unwrap();
                self.set(if kind == "Optional" { 38 } else { 40 });
                self.operand(&mut ch);
                self.done(if kind == "ExpectedSymbol" { "SyntaxError" } else { "Binary" }, kind, ch)
            },
            "SlashColon" => {
                self.operand(&mut ch);
                let (tr, t) = self.skip(true);
                if !matches!(t.k, "Equal" | "ColonEqual") {
                    self.reset(&tr);
                    return self.done("SyntaxError", "ExpectedSet", ch);
                }
                self.set(9);
                add(&mut ch, &tr);
                ch.push(self.take(t));
                if t.k == "Equal" && self.unset(&mut ch) {
                    return self.done("Ternary", "TagUnset", ch);
                }
                self.operand(&mut ch);
                self.done("Ternary", if t.k == "Equal" { "TagSet" } else { "TagSetDelayed" }, ch)
            },
            "Equal" => {
                if self.unset(&mut ch) {
                    return self.done("Binary", "Unset", ch);
                }
                self.operand(&mut ch);
                self.done("Binary", "Set", ch)
            },
            "ColonEqual" => {
                self.operand(&mut ch);
                self.done("Binary", "SetDelayed", ch)
            },
            "ColonColon" => loop {
                let t = self.mk(lex::tag(self.b, self.i));
                ch.push(self.take(t));
                let (tr, t) = self.skip(true);
                if t.k != "ColonColon" {
                    self.reset(&tr);
                    return self.done("Infix", "MessageName", ch);
                }
                add(&mut ch, &tr);
                ch.push(self.take(t));
            },
            "GreaterGreater" | "GreaterGreaterGreater" => {
                let (tr, f) = self.file();
                add(&mut ch, &tr);
                ch.push(self.take(f));
                self.done("Binary", if k == "GreaterGreater" { "Put" } else { "PutAppend" }, ch)
            },
            _ => unreachable!("{k} in operator position"),
        }
    }

    fn unset(&mut self, ch: &mut Vec<Tree>) -> bool {
        let (tr, t) = self.skip(true);
        if t.k != "Dot" {
            self.reset(&tr);
            return false;
        }
        add(ch, &tr);
        ch.push(self.take(t));
        true
    }

    /// after `a ;;`
    fn span(&mut self, mut ch: Vec<Tree>) -> Tree {
        let (tr, t) = self.skip(false);
        add(&mut ch, &tr);
        if !begins(t.k) {
            ch.push(leaf(empty("Fake_ImplicitAll", t)));
            return self.done("Binary", "Span", ch);
        }
        let second = if t.k == "SemiSemi" { leaf(empty("Fake_ImplicitAll", t)) } else { self.prefix(t) };
        ch.push(second);
        let back = self.i;
        let (tr, t) = self.skip(false);
        if t.k == "SemiSemi" {
            let semi = self.take(t);
            let (tr2, n) = self.skip(false);
            if begins(n.k) && n.k != "SemiSemi" {
                add(&mut ch, &tr);
                ch.push(semi);
                add(&mut ch, &tr2);
                let x = self.prefix(n);
                ch.push(x);
                return self.done("Ternary", "Span", ch);
            }
        }
        self.i = back;
        self.done("Binary", "Span", ch)
    }
}

/// The concrete syntax of the whole input. Nodes of class "Cut" are groups that the end of the
/// input leaves open: how much they keep is not decided here.
pub fn parse(b: &[u8]) -> Vec<Tree> {
    let mut p = P { b, i: 0, groups: vec![], ctx: vec![] };
    let mut out = vec![];
    loop {
        let t = p.peek();
        if t.k == "EndOfFile" {
            return out;
        }
        if is_trivia(t.k) {
            out.push(p.take(t));
        } else if closer(t.k) {
            out.push(p.take(T { k: "Error_UnexpectedCloser", ..t }));
        } else {
            out.push(p.prefix(t));
        }
    }
}

/// First difference between an observed forest and the expected one, if any.
pub fn differ(got: &[Tree], want: &[Tree]) -> Option<String> {
    if got.len() != want.len() {
        return Some(format!("{} nodes where {} are expected", got.len(), want.len()));
    }
    got.iter().zip(want).find_map(|(g, w)| differ1(g, w))
}

fn differ1(g: &Tree, w: &Tree) -> Option<String> {
    match (g, w) {
        (Tree::Leaf(g), Tree::Leaf(w)) => {
            let open = crate::props::unterminated(w.kind);
            let fake = w.s == w.e;
            let same = g.kind == w.kind && if fake { g.s == g.e } else { g.s == w.s && (open || g.e == w.e) };
            (!same).then(|| format!("token {} {}..{} where {} {}..{} is expected", g.kind, g.s as isize, g.e as isize, w.kind, w.s, w.e))
        },
        (Tree::Node { class: "GroupMissingCloser", op, .. }, Tree::Node { class: "Cut", op: wop, .. }) if op == wop => None,
        (Tree::Node { class, op, ch }, Tree::Node { class: wc, op: wo, ch: wch }) if class == wc && op == wo => {
            differ(ch, wch).map(|d| format!("in {class} {op}: {d}"))
        },
        (g, w) => Some(format!("{} where {} is expected", head(g), head(w))),
    }
}

fn head(t: &Tree) -> String {
    match t {
        Tree::Leaf(t) => format!("token {} {}..{}", t.kind, t.s as isize, t.e as isize),
        Tree::Node { class, op, .. } => format!("{class} {op}"),
    }
}
