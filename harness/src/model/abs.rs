//! Reference abstraction: the meaning of a (trivia-free) concrete tree as an abstract tree.

use crate::real::{Loc, Tok, Tree};

/// Abstract trees, neutral form. `k` is the node class; `name` what distinguishes nodes of a class.
/// A call has its head as first child.
#[derive(Clone, PartialEq, Debug)]
pub struct A {
    pub k: &'static str,
    pub name: String,
    pub ch: Vec<A>,
    pub span: Option<[Loc; 2]>,
    pub issues: Vec<String>,
}

pub type Span = Option<[Loc; 2]>;

impl A {
    pub fn new(k: &'static str, name: impl Into<String>, ch: Vec<A>, span: Span) -> A {
        A { k, name: name.into(), ch, span, issues: vec![] }
    }
    pub fn show(&self) -> String {
        let c = |v: &[A]| v.iter().map(|a| a.show()).collect::<Vec<_>>().join(", ");
        match self.k {
            "Leaf" => self.name.clone(),
            "Call" => format!("{}[{}]", self.ch[0].show(), c(&self.ch[1..])),
            _ => format!("{}:{}<{}>", self.k, self.name, c(&self.ch)),
        }
    }
    /// the first place where two trees differ; with or without positions and issues
    pub fn differ(&self, want: &A, meta: bool) -> Option<String> {
        if self.k != want.k || self.name != want.name {
            return Some(format!("{} instead of {}", self.show(), want.show()));
        }
        if self.ch.len() != want.ch.len() {
            return Some(format!("{} instead of {} (number of children)", self.show(), want.show()));
        }
        if meta && self.span != want.span {
            return Some(format!("source {:?} instead of {:?} for {}", self.span, want.span, self.show()));
        }
        if meta && self.issues != want.issues {
            return Some(format!("issues {:?} instead of {:?} for {}", self.issues, want.issues, self.show()));
        }
        self.ch.iter().zip(&want.ch).find_map(|(g, w)| g.differ(w, meta))
    }
    pub fn visit<'a>(&'a self, f: &mut dyn FnMut(&'a A)) {
        f(self);
        self.ch.iter().for_each(|c| c.visit(f));
    }
}

pub struct Abs<'a> {
    pub b: &'a [u8],
    pub infix_at: bool,
    pub flatten_times: bool,
    pub old_at3: bool,
}

fn sym(s: &str, sp: Span) -> A {
    A::new("Leaf", format!("Symbol {s}"), vec![], sp)
}
fn int(s: &str, sp: Span) -> A {
    A::new("Leaf", format!("Integer {s}"), vec![], sp)
}
fn string(s: String, sp: Span) -> A {
    A::new("Leaf", format!("String {s}"), vec![], sp)
}
fn call2(head: A, mut args: Vec<A>, sp: Span) -> A {
    args.insert(0, head);
    A::new("Call", "", args, sp)
}
fn call(head: &str, args: Vec<A>, sp: Span) -> A {
    call2(sym(head, None), args, sp)
}
fn abs_error(kind: &str, args: Vec<A>, sp: Span) -> A {
    A::new("AbstractSyntaxError", kind, args, sp)
}

/// The symbol an operator stands for
fn name(op: &str) -> String {
    match op.strip_prefix("CodeParser_") {
        Some(r) => format!("CodeParser`{r}"),
        None => op.to_string(),
    }
}

fn ends(t: &Tree) -> [Loc; 2] {
    let (mut a, mut b) = (t, t);
    let first = loop {
        match a {
            Tree::Leaf(t) => break t.span[0],
            Tree::Node { ch, .. } => a = &ch[0],
        }
    };
    let last = loop {
        match b {
            Tree::Leaf(t) => break t.span[1],
            Tree::Node { ch, .. } => b = &ch[ch.len() - 1],
        }
    };
    [first, last]
}

fn sp(t: &Tree) -> Span {
    Some(ends(t))
}

fn is(t: &Tree, class: &str, op: &str) -> bool {
    matches!(t, Tree::Node { class: c, op: o, .. } if *c == class && *o == op)
}
fn kids(t: &Tree) -> &[Tree] {
    match t {
        Tree::Node { ch, .. } => ch,
        _ => &[],
    }
}
fn kind(t: &Tree) -> &'static str {
    match t {
        Tree::Leaf(t) => t.kind,
        _ => "",
    }
}
fn number(t: &Tree) -> bool {
    matches!(kind(t), "Integer" | "Real")
}
/// the inside of parentheses around exactly one expression
fn inside(t: &Tree) -> Option<&Tree> {
    if is(t, "Group", "CodeParser_GroupParen") && kids(t).len() == 3 { Some(&kids(t)[1]) } else { None }
}
fn paren_number(t: &Tree) -> bool {
    number(t) || inside(t).map_or(false, paren_number)
}
fn every_other(ch: &[Tree]) -> Vec<&Tree> {
    ch.iter().step_by(2).collect()
}

/// an operand of a product
enum Factor<'t> {
    Plain(&'t Tree),
    Ready(A),
}

const BASIC: &[&str] = &["Equal", "Unequal", "Less", "Greater", "LessEqual", "GreaterEqual"];

fn comparison(kind: &str) -> String {
    match kind {
        "EqualEqual" | "LongName_Equal" | "LongName_LongEqual" => "Equal",
        "BangEqual" | "LongName_NotEqual" => "Unequal",
        "LongName_GreaterSlantEqual" => "GreaterEqual",
        "LongName_LessSlantEqual" => "LessEqual",
        k => k.strip_prefix("LongName_").unwrap_or(k),
    }
    .to_string()
}

impl<'a> Abs<'a> {
    fn text(&self, t: &Tok) -> String {
        if t.e > self.b.len() { "<outside input>".into() } else { String::from_utf8_lossy(&self.b[t.s..t.e]).into_owned() }
    }
    fn txt(&self, t: &Tree) -> String {
        match t {
            Tree::Leaf(t) => self.text(t),
            _ => String::new(),
        }
    }

    fn leaf(&self, t: &Tok) -> A {
        let s = Some(t.span);
        let x = self.text(t);
        match t.kind {
            "PercentPercent" => {
                let mut n = 0;
                let mut rest = &x[..];
                while !rest.is_empty() {
                    let p = ["%", "\\.25", "\\:0025", "\\|000025", "\\045", "\\[RawPercent]"].iter().find(|p| rest.starts_with(**p));
                    match p {
                        Some(p) => {
                            n += 1;
                            rest = &rest[p.len()..];
                        },
                        None => rest = &rest[rest.chars().next().unwrap().len_utf8()..],
                    }
                }
                call("Out", vec![int(&format!("-{n}"), None)], s)
            },
            "Under" => call("Blank", vec![], s),
            "UnderUnder" => call("BlankSequence", vec![], s),
            "UnderUnderUnder" => call("BlankNullSequence", vec![], s),
            "UnderDot" => call("Optional", vec![call("Blank", vec![], s)], s),
            "Hash" => call("Slot", vec![int("1", None)], s),
            "HashHash" => call("SlotSequence", vec![int("1", None)], s),
            "Percent" => call("Out", vec![], s),
            "Fake_ImplicitOne" => int("1", s),
            "Fake_ImplicitAll" => sym("All", s),
            "Error_PrefixImplicitNull" | "Error_InfixImplicitNull" => sym("Null", s),
            k if k.starts_with("Error_") => A::new("Error", format!("{k} {x}"), vec![], s),
            "Symbol" => {
                let code = match &x[..] {
                    "\\[Pi]" => 0x3c0,
                    "\\[Degree]" => 0xb0,
                    "\\[Infinity]" => 0x221e,
                    "\\[ExponentialE]" => 0xf74d,
                    "\\[ImaginaryI]" => 0xf74e,
                    "\\[ImaginaryJ]" => 0xf74f,
                    _ if x.chars().count() == 1 => x.chars().next().unwrap() as u32,
                    _ => {
                        let hex = |p: &str, n: usize| {
                            x.strip_prefix(p).filter(|h| h.len() == n && !h.bytes().any(|c| c.is_ascii_uppercase())).and_then(|h| u32::from_str_radix(h, 16).ok())
                        };
                        let oct = x.strip_prefix('\\').filter(|h| h.len() == 3).and_then(|h| u32::from_str_radix(h, 8).ok());
                        hex("\\:", 4).or(hex("\\|", 6)).or(hex("\\.", 2)).or(oct).unwrap_or(0)
                    },
                };
                let n = match code {
                    0x3c0 => "Pi",
                    0xb0 => "Degree",
                    0x221e => "Infinity",
                    0xf74d => "E",
                    0xf74e | 0xf74f => "I",
                    _ => &x,
                };
                sym(n, s)
            },
            k => A::new("Leaf", format!("{k} {x}"), vec![], s),
        }
    }

    fn quoted(&self, t: &Tree, file: bool) -> A {
        let x = self.txt(t);
        let q = if x.starts_with('"') {
            x
        } else if !file && x.starts_with("\\[") {
            format!("\"{x}\"")
        } else {
            format!("{x:?}")
        };
        string(q, sp(t))
    }

    pub fn all(&self, f: &[Tree]) -> Vec<A> {
        f.iter().map(|t| self.abs(t)).collect()
    }
    fn each(&self, f: &[&Tree]) -> Vec<A> {
        f.iter().map(|t| self.abs(t)).collect()
    }

    /// `Plus@x + y` means `x + y` with the quirk
    fn quirk<'t>(&self, t: &'t Tree, op: &str) -> &'t Tree {
        if self.infix_at && is(t, "Binary", "CodeParser_BinaryAt") {
            let k = kids(t);
            if kind(&k[0]) == "Symbol" && self.txt(&k[0]) == op && kind(&k[1]) == "At" {
                return &k[2];
            }
        }
        t
    }

    fn plus_rand<'t>(&self, t: &'t Tree) -> &'t Tree {
        if is(t, "Prefix", "Plus") { self.plus_rand(&kids(t)[1]) } else { t }
    }

    fn maybe_zero(&self, t: &Tree) -> bool {
        if kind(t) == "Integer" {
            return self.txt(t) == "0";
        }
        if is(t, "Prefix", "Minus") {
            return self.maybe_zero(&kids(t)[1]);
        }
        inside(t).map_or(false, |i| self.maybe_zero(i))
    }

    /// the negation of an expression
    fn negate(&self, t: &Tree, s: Span) -> A {
        if number(t) {
            let x = self.txt(t);
            let k = kind(t);
            return if k == "Integer" && x == "0" { int("0", s) } else { A::new("Leaf", format!("{k} -{x}"), vec![], s) };
        }
        if let Some(i) = inside(t) {
            if self.maybe_zero(i) || paren_number(i) {
                return self.negate(i, s);
            }
        }
        if is(t, "Prefix", "Minus") && self.maybe_zero(&kids(t)[1]) {
            return self.negate(&kids(t)[1], s);
        }
        let mut p = if is(t, "Infix", "Times") { self.product(&every_other(kids(t)), s) } else { self.product(&[t], s) };
        p.ch.insert(1, int("-1", None));
        p
    }

    fn factors<'t>(&self, t: &'t Tree, s: Span, out: &mut Vec<Factor<'t>>) {
        if is(t, "Prefix", "Minus") {
            let x = &kids(t)[1];
            if paren_number(x) {
                out.push(Factor::Ready(self.negate(x, s)));
                return;
            }
            if self.flatten_times {
                out.push(Factor::Ready(int("-1", None)));
                self.factors(x, s, out);
                return;
            }
        }
        if is(t, "Infix", "Times") {
            every_other(kids(t)).into_iter().for_each(|x| self.factors(x, s, out));
            return;
        }
        if is(t, "Binary", "Divide") && self.flatten_times {
            self.factors(&kids(t)[0], s, out);
            out.push(Factor::Ready(self.reciprocal(&kids(t)[2], s)));
            return;
        }
        out.push(Factor::Plain(t));
    }

    fn reciprocal(&self, t: &Tree, s: Span) -> A {
        call("Power", vec![self.abs(t), int("-1", None)], s)
    }

    fn product(&self, ts: &[&Tree], s: Span) -> A {
        let mut f = vec![];
        ts.iter().for_each(|t| self.factors(t, s, &mut f));
        let args = f
            .into_iter()
            .map(|f| match f {
                Factor::Plain(t) => self.abs(self.quirk(t, "Times")),
                Factor::Ready(a) => a,
            })
            .collect();
        call("Times", args, s)
    }

    /// the elements of a bracketed group, without the brackets
    fn elements(&self, inner: &[Tree]) -> Vec<A> {
        let mut v = vec![];
        for t in inner {
            if is(t, "Infix", "CodeParser_Comma") {
                v.extend(every_other(kids(t)).iter().map(|t| self.abs(self.quirk(t, "Comma"))));
            } else {
                v.push(self.abs(t));
            }
        }
        v
    }
    /// same, for brackets which mean nothing where they stand
    fn stray(&self, inner: &[Tree]) -> Vec<A> {
        match inner {
            [t] if is(t, "Infix", "CodeParser_Comma") => self.each(&every_other(kids(t))),
            _ => self.all(inner),
        }
    }

    pub fn abs(&self, t: &Tree) -> A {
        let (class, op, ch) = match t {
            Tree::Leaf(t) => return self.leaf(t),
            Tree::Node { class, op, ch } => (*class, *op, ch),
        };
        let s = sp(t);
        let inner = |skip_last: bool| if skip_last { &ch[1..ch.len() - 1] } else { &ch[1..] };
        match class {
            "Compound" => match op {
                "Blank" | "BlankSequence" | "BlankNullSequence" => call(op, vec![self.abs(&ch[1])], s),
                "CodeParser_PatternBlank" | "CodeParser_PatternBlankSequence" | "CodeParser_PatternBlankNullSequence" => call("Pattern", self.all(ch), s),
                "CodeParser_PatternOptionalDefault" => {
                    call("Optional", vec![call("Pattern", vec![self.abs(&ch[0]), call("Blank", vec![], sp(&ch[1]))], s)], s)
                },
                "Slot" if kind(&ch[1]) != "Integer" => call("Slot", vec![self.quoted(&ch[1], false)], s),
                _ => call(op, vec![self.abs(&ch[1])], s),
            },
            "Prefix" => match op {
                "Minus" => self.negate(&ch[1], s),
                "Plus" => call("Plus", vec![self.abs(self.plus_rand(&ch[1]))], s),
                "CodeParser_PrefixNot2" => {
                    let mut a = call("Not", vec![call("Not", vec![self.abs(&ch[1])], None)], s);
                    a.issues.push(issue("PrefixNotNot", "Warning", ends(&ch[0]), 1.0, &[]));
                    a
                },
                "CodeParser_PrefixLinearSyntaxBang" => {
                    if kind(&ch[1]) == "LinearSyntaxBlob" {
                        A::new("Bang", "", self.all(ch), s)
                    } else {
                        abs_error("LinearSyntaxBang", vec![self.abs(&ch[1])], s)
                    }
                },
                "Get" if kind(&ch[1]) == "String" => call("Get", vec![self.quoted(&ch[1], true)], s),
                _ => call(&name(op), vec![self.abs(&ch[1])], s),
            },
            "Postfix" => match op {
                "HermitianConjugate" => call("ConjugateTranspose", vec![self.abs(&ch[0])], s),
                "Derivative" => {
                    let (mut n, mut x) = (1, &ch[0]);
                    while is(x, "Postfix", "Derivative") {
                        n += 1;
                        x = &kids(x)[0];
                    }
                    call2(call("Derivative", vec![int(&n.to_string(), None)], None), vec![self.abs(x)], s)
                },
                _ => call(&name(op), vec![self.abs(&ch[0])], s),
            },
            "Binary" => {
                let (l, r) = (&ch[0], &ch[2]);
                match op {
                    "Divide" => {
                        let mut f = vec![];
                        self.factors(l, s, &mut f);
                        let mut args: Vec<A> = f
                            .into_iter()
                            .map(|f| match f {
                                Factor::Plain(t) => self.abs(t),
                                Factor::Ready(a) => a,
                            })
                            .collect();
                        args.push(self.reciprocal(r, s));
                        call("Times", args, s)
                    },
                    "CodeParser_BinaryAt" => call2(self.abs(l), vec![self.abs(r)], s),
                    "MapApply" if self.old_at3 => {
                        call("Apply", vec![self.abs(l), self.abs(r), call("List", vec![int("1", None)], None)], s)
                    },
                    "CodeParser_BinarySlashSlash" => call2(self.abs(r), vec![self.abs(l)], s),
                    "Put" | "PutAppend" if kind(r) == "String" => call(op, vec![self.abs(l), self.quoted(r, true)], s),
                    "Unset" => call(op, vec![self.abs(l)], s),
                    "PatternTest" if is(l, "Binary", "PatternTest") => abs_error("NonAssociativePatternTest", vec![self.abs(l), self.abs(r)], s),
                    _ => call(&name(op), vec![self.abs(l), self.abs(r)], s),
                }
            },
            "Infix" => {
                let rands = every_other(ch);
                match op {
                    "CodeParser_InfixInequality" => self.inequality(ch, s),
                    "SameQ" | "UnsameQ" => call(op, self.each(&rands), s),
                    "Plus" => {
                        let mut args = vec![];
                        for (i, x) in rands.iter().enumerate() {
                            let minus = i > 0 && matches!(kind(&ch[2 * i - 1]), "Minus" | "LongName_Minus");
                            args.push(if minus {
                                self.negate(x, Some([ends(&ch[2 * i - 1])[0], ends(x)[1]]))
                            } else {
                                self.abs(self.plus_rand(self.quirk(x, "Plus")))
                            });
                        }
                        call("Plus", args, s)
                    },
                    "Times" => self.product(&rands, s),
                    "Divisible" => call(op, rands.iter().rev().map(|x| self.abs(self.quirk(x, "Divisible"))).collect(), s),
                    "CompoundExpression" => {
                        call(op, rands.iter().map(|x| if kind(x) == "Fake_ImplicitNull" { sym("Null", sp(x)) } else { self.abs(x) }).collect(), s)
                    },
                    "MessageName" => {
                        let mut args = vec![self.abs(rands[0])];
                        args.extend(rands[1..].iter().map(|x| if kind(x) == "String" { self.quoted(x, false) } else { self.abs(x) }));
                        let mut a = call(op, args, s);
                        if rands.len() > 3 {
                            a.issues.push(issue("SyntaxUndocumentedMessageName", "Error", s.unwrap(), 1.0, &[]));
                        }
                        a
                    },
                    _ => {
                        let n = name(op);
                        let short = n.rsplit('`').next().unwrap();
                        call(&n, rands.iter().map(|x| self.abs(self.quirk(x, short))).collect(), s)
                    },
                }
            },
            "Ternary" => match op {
                "CodeParser_TernaryTilde" => {
                    let m = &ch[2];
                    let h = if is(m, "Infix", "CodeParser_Comma") {
                        abs_error("CommaTopLevel", self.elements(std::slice::from_ref(m)), sp(m))
                    } else {
                        self.abs(m)
                    };
                    call2(h, vec![self.abs(&ch[0]), self.abs(&ch[4])], s)
                },
                "TagUnset" => call(op, vec![self.abs(&ch[0]), self.abs(&ch[2])], s),
                "CodeParser_TernaryOptionalPattern" => {
                    call("Optional", vec![call("Pattern", vec![self.abs(&ch[0]), self.abs(&ch[2])], None), self.abs(&ch[4])], s)
                },
                _ => call(op, vec![self.abs(&ch[0]), self.abs(&ch[2]), self.abs(&ch[4])], s),
            },
            "PrefixBinary" => {
                let v = &ch[2];
                let d = is(v, "Prefix", "DifferentialD") || is(v, "Prefix", "CapitalDifferentialD");
                call(&name(op), vec![self.abs(&ch[1]), if d { self.abs(&kids(v)[1]) } else { self.abs(v) }], s)
            },
            "SyntaxError" => A::new("SyntaxError", op, vec![self.abs(&ch[0]), self.abs(&ch[2])], s),
            "Group" => match op {
                "CodeParser_GroupParen" => match inner(true) {
                    [t] if !is(t, "Infix", "CodeParser_Comma") => self.abs(t),
                    i => abs_error("OpenParen", self.stray(i), s),
                },
                "CodeParser_GroupSquare" => abs_error("OpenSquare", self.stray(inner(true)), s),
                "CodeParser_GroupTypeSpecifier" => abs_error("ColonColonOpenSquare", self.stray(inner(true)), s),
                "CodeParser_GroupDoubleBracket" => abs_error("LeftDoubleBracket", self.stray(inner(true)), s),
                _ => call(&name(op), self.elements(inner(true)), s),
            },
            "GroupMissingCloser" => A::new("GroupMissingCloser", op, self.elements(inner(false)), s),
            "GroupMissingOpener" => A::new("GroupMissingOpener", op, self.elements(&ch[..ch.len() - 1]), s),
            "Call" => self.call_node(&kids(&ch[0])[0], &ch[1], s),
            _ => A::new("?", class, vec![], s),
        }
    }

    fn call_node(&self, head: &Tree, body: &Tree, s: Span) -> A {
        let (class, op, ch) = match body {
            Tree::Node { class, op, ch } => (*class, *op, ch),
            _ => unreachable!(),
        };
        let h = self.abs(head);
        if class == "GroupMissingCloser" {
            let mut args = self.elements(&ch[1..]);
            let h = match op {
                "CodeParser_GroupTypeSpecifier" => call("TypeSpecifier", vec![h], None),
                "CodeParser_GroupDoubleBracket" => {
                    args.insert(0, h);
                    sym("Part", None)
                },
                _ => h,
            };
            args.insert(0, h);
            return A::new("CallMissingCloser", "", args, s);
        }
        let (first, last) = (ends(&ch[0]), ends(&ch[ch.len() - 1]));
        let inner = &ch[1..ch.len() - 1];
        if op == "CodeParser_GroupTypeSpecifier" {
            let mut a = call2(call("TypeSpecifier", vec![h], None), self.elements(inner), s);
            if kind(head) != "String" {
                a.issues.push(issue("StrangeCall", "Error", ends(head), 0.95, &[]));
            }
            return a;
        }
        let double = op == "CodeParser_GroupDoubleBracket";
        let nested = !double && inner.len() == 1 && is(&inner[0], "Group", "CodeParser_GroupSquare");
        let mut a = if double || nested {
            let i = if nested { &kids(&inner[0])[1..kids(&inner[0]).len() - 1] } else { inner };
            let mut args = self.elements(i);
            args.insert(0, h);
            call("Part", args, s)
        } else {
            call2(h, self.elements(inner), s)
        };
        if kind(head) == "HashHash" || is(head, "Compound", "SlotSequence") {
            a.issues.push(issue("StrangeCallSlotSequence", "Error", first, 1.0, &[last]));
        } else if let Some(sev) = strange(head, double || nested) {
            a.issues.push(issue("StrangeCall", sev, first, 0.95, &[last]));
        }
        a
    }

    fn inequality(&self, ch: &[Tree], s: Span) -> A {
        let mut first = self.abs(&ch[0]);
        let mut rest: Vec<(String, A)> = vec![];
        let mut vector: Option<bool> = None;
        for p in ch[1..].chunks(2) {
            let r = comparison(kind(&p[0]));
            if !BASIC.contains(&&r[..]) {
                let v = r.starts_with("Vector");
                if vector == Some(!v) {
                    first = chain(first, std::mem::take(&mut rest), vector, s);
                }
                vector = Some(v);
            }
            rest.push((r, self.abs(&p[1])));
        }
        chain(first, rest, vector, s)
    }
}

fn chain(first: A, rest: Vec<(String, A)>, vector: Option<bool>, s: Span) -> A {
    let op = rest[0].0.clone();
    if rest.iter().all(|r| r.0 == op) {
        let mut args = vec![first];
        args.extend(rest.into_iter().map(|r| r.1));
        return if op.starts_with("Vector") { call(&op, vec![call("List", args, None)], s) } else { call(&op, args, s) };
    }
    let mut args = vec![first];
    for (r, a) in rest {
        args.push(sym(&r, None));
        args.push(a);
    }
    call(if vector == Some(true) { "Developer`VectorInequality" } else { "Inequality" }, args, s)
}

/// How odd it is to apply this head: no remark at all for ordinary heads
fn strange(head: &Tree, part: bool) -> Option<&'static str> {
    match head {
        Tree::Leaf(t) => match t.kind {
            "Symbol" | "Hash" | "Under" | "UnderUnder" | "UnderUnderUnder" | "Percent" | "PercentPercent" => None,
            "String" if !part => None,
            "LinearSyntaxBlob" if part => Some("Remark"),
            _ => Some("Error"),
        },
        Tree::Node { class, op, .. } => match (*class, *op) {
            ("Call", _) => None,
            ("Compound", "CodeParser_PatternOptionalDefault") => Some("Error"),
            ("Compound", _) => None,
            ("Binary", "PatternTest") if !part => None,
            ("Prefix", "CodeParser_PrefixLinearSyntaxBang") if part => Some("Remark"),
            ("Infix", "CompoundExpression") => Some(if part { "Remark" } else { "Warning" }),
            ("Group", "CodeParser_GroupParen" | "List" | "Association") => None,
            ("Group", _) => Some("Warning"),
            ("Postfix", "Transpose") if part => None,
            ("Postfix", "Function" | "Derivative") if !part => None,
            _ => Some("Error"),
        },
    }
}

pub fn issue(tag: &str, sev: &str, src: [Loc; 2], val: f64, more: &[[Loc; 2]]) -> String {
    format!("{tag} {sev} {src:?} {val} {more:?}")
}
