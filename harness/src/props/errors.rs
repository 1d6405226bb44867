//! Malformed input is flagged, well-formed input is not.

use super::meaning::{run_ast, show};
use super::syntax::{rnd_source, shape};
use super::*;
use crate::model::parse::{closer, ops, GROUPS};
use crate::runner::*;

// ---- well-formed by construction: every operand is an atom or bracketed ---------------------------------

const ATOM: &[&str] = &[
    "a", "b", "x", "f", "1", "0", "2.5", "1.5`3", "16^^fF", "1*^-3", "\"s\"", "\"\"", "\"(*\"", "#", "#1", "##2", "#name", "%", "%%", "%3", "_", "__", "x_", "x__h", "_h",
    "x_.", "_.", "Pi", "\\[Alpha]", "\\[Infinity]", "ctx`a", "`b", "\u{3b1}", "\\:03b1", "$x1", "\\(x\\)", "\\(\\)",
];

/// (opener, closer) as words that stand alone as an expression
const STAND: &[(&str, &str)] = &[
    ("(", ")"),
    ("{", "}"),
    ("<|", "|>"),
    ("\\[LeftCeiling]", "\\[RightCeiling]"),
    ("\\[LeftFloor]", "\\[RightFloor]"),
    ("\\[LeftAngleBracket]", "\\[RightAngleBracket]"),
    ("\\[LeftBracketingBar]", "\\[RightBracketingBar]"),
    ("\\[LeftDoubleBracketingBar]", "\\[RightDoubleBracketingBar]"),
    ("\\[LeftAssociation]", "\\[RightAssociation]"),
    ("\\[OpenCurlyQuote]", "\\[CloseCurlyQuote]"),
    ("\\[OpenCurlyDoubleQuote]", "\\[CloseCurlyDoubleQuote]"),
];

/// One word of a well-formed expression and what taking it away, or putting another in, would do.
#[derive(Clone)]
struct W {
    s: String,
    bracket: bool,
}

fn w(out: &mut Vec<W>, s: &str) {
    out.push(W { s: s.into(), bracket: false });
}
fn br(out: &mut Vec<W>, s: &str) {
    out.push(W { s: s.into(), bracket: true });
}

fn op_word(kind: &'static str) -> String {
    gen::spell(kind)
}

fn of_class(r: &mut Rng, class: &str) -> &'static str {
    loop {
        let o = r.pick(ops());
        if o.class == class && o.kind != "Fake_ImplicitTimes" && o.kind != "LinearSyntax_Bang" && (r.chance(1, 3) || !o.kind.starts_with("LongName_")) {
            return o.kind;
        }
    }
}

fn operand(r: &mut Rng, d: usize, out: &mut Vec<W>) {
    if d == 0 || r.chance(1, 2) {
        w(out, *r.pick(ATOM));
    } else {
        br(out, "(");
        expr(r, d - 1, out);
        br(out, ")");
    }
}

fn list(r: &mut Rng, d: usize, out: &mut Vec<W>) {
    for i in 0..r.below(4) {
        if i > 0 {
            w(out, ",");
        }
        expr(r, d, out);
    }
}

fn expr(r: &mut Rng, d: usize, out: &mut Vec<W>) {
    if d == 0 {
        return operand(r, 0, out);
    }
    let d = d - 1;
    match r.below(20) {
        0..=1 => operand(r, d, out),
        2..=4 => {
            // ( ) holds exactly one expression
            let g = *r.pick(STAND);
            br(out, g.0);
            if g.0 == "(" { expr(r, d, out) } else { list(r, d, out) }
            br(out, g.1);
        },
        5..=7 => {
            operand(r, d, out);
            let g = *r.pick(&[("[", "]"), ("[", "]"), ("::[", "]"), ("\\[LeftDoubleBracket]", "\\[RightDoubleBracket]"), ("\u{301a}", "\u{301b}")]);
            br(out, g.0);
            list(r, d, out);
            br(out, g.1);
        },
        8 => {
            operand(r, d, out);
            br(out, "[");
            br(out, "[");
            expr(r, d, out);
            br(out, "]");
            br(out, "]");
        },
        9..=12 => {
            operand(r, d, out);
            let class = if r.chance(1, 2) { "Binary" } else { "Infix" };
            let k = of_class(r, class);
            w(out, &op_word(k));
            operand(r, d, out);
            if class == "Infix" && r.chance(1, 2) {
                w(out, &op_word(k));
                operand(r, d, out);
            }
        },
        13 => {
            let k = of_class(r, "Prefix");
            w(out, &op_word(k));
            operand(r, d, out);
        },
        14 => {
            operand(r, d, out);
            let k = of_class(r, "Postfix");
            w(out, &op_word(k));
        },
        15 => {
            operand(r, d, out);
            w(out, "~");
            operand(r, d, out);
            w(out, "~");
            operand(r, d, out);
        },
        16 => {
            let a = *r.pick(&["=", ":="]);
            if r.chance(1, 2) {
                w(out, "t");
                w(out, "/:");
            }
            operand(r, d, out);
            w(out, a);
            operand(r, d, out);
        },
        17 => {
            operand(r, d, out);
            w(out, *r.pick(&[";", "*", "\\[Times]", "+", "-", ""]));
            operand(r, d, out);
        },
        18 => {
            w(out, "p");
            w(out, ":");
            operand(r, d, out);
        },
        _ => match r.below(3) {
            0 => {
                w(out, "\\[Integral]");
                operand(r, d, out);
                w(out, "\\[DifferentialD]");
                operand(r, d, out);
            },
            1 => {
                w(out, "f");
                w(out, "::tag");
            },
            _ => {
                operand(r, d, out);
                w(out, ">> out.m");
            },
        },
    }
}

fn join(r: &mut Rng, ws: &[W]) -> String {
    let mut s = String::new();
    for (i, x) in ws.iter().enumerate() {
        if i > 0 {
            // a line may not end where an expression could
            s.push_str(*r.pick(&[" ", " ", " ", "  ", "\t", " (* c *) ", " \\\n"]));
        }
        s.push_str(&x.s);
    }
    s
}

/// Words of an expression in brackets or not, and a context it is put in.
fn ctx(r: &mut Rng, ws: Vec<W>) -> Vec<W> {
    let mut out = vec![];
    let g = *r.pick(&[("", ""), ("", ""), ("(", ")"), ("{", "}"), ("f[", "]"), ("<|", "|>")]);
    if g.0 == "f[" {
        w(&mut out, "f");
        br(&mut out, "[");
    } else if !g.0.is_empty() {
        br(&mut out, g.0);
    }
    out.extend(ws);
    if !g.1.is_empty() {
        br(&mut out, g.1);
    }
    out
}

fn has(kind: &str, class: &str) -> bool {
    ops().iter().any(|o| o.kind == kind && o.class == class)
}

/// Operators that need an operand before (left) or after them.
fn needs_left() -> Vec<&'static str> {
    ops().iter().filter(|o| matches!(o.class, "Infix" | "Binary" | "Postfix") && !has(o.kind, "Prefix") && o.kind != "Fake_ImplicitTimes").map(|o| o.kind).collect()
}
fn needs_right() -> Vec<&'static str> {
    ops().iter().filter(|o| matches!(o.class, "Infix" | "Binary" | "Prefix") && !has(o.kind, "Postfix") && o.kind != "Fake_ImplicitTimes").map(|o| o.kind).collect()
}

pub static P14: Prop = Prop {
    id: "P14",
    rule: "distinct tree shapes of inputs whose being in error, or not, was known beforehand and was reported as such",
    assumptions: &["well-formed inputs are built so that every operand is an atom or bracketed and words are separated by blanks"],
    sys_len: p14_len,
    sys_case: p14_case,
    random: |r| {
        let o = rnd_opts(r, false);
        if r.chance(1, 3) {
            let b = if r.chance(1, 6) { gen::bytes(r, 30) } else { rnd_source(r) };
            return Case::new(b).opts(o).aux("any");
        }
        let mut ws = vec![];
        let d = r.range(1, 4);
        expr(r, d, &mut ws);
        let mode = match r.below(9) {
            0..=2 => {
                ws = ctx(r, ws);
                "good"
            },
            3 => {
                // a bracket is missing
                ws = ctx(r, ws);
                let at: Vec<usize> = (0..ws.len()).filter(|i| ws[*i].bracket).collect();
                if at.is_empty() {
                    "good"
                } else {
                    let i = *r.pick(&at);
                    ws[i].s = String::new();
                    "bracket"
                }
            },
            4 => {
                // one too many
                ws = ctx(r, ws);
                let i = r.below(ws.len() + 1);
                let g = r.pick(gen::BRACKETS);
                // (not quotes, comments or boxes)
                if matches!(g.0, "\"" | "(*" | "\\(") {
                    "good"
                } else {
                    let s = if r.chance(1, 2) { g.0 } else { g.1 };
                    ws.insert(i, W { s: s.into(), bracket: true });
                    "bracket"
                }
            },
            5 => {
                // nothing after an operator
                let k = *r.pick(&needs_right());
                let mut x = ws;
                let mut y = vec![];
                if !has(k, "Prefix") || has(k, "Infix") || has(k, "Binary") {
                    br(&mut y, "(");
                    y.append(&mut x);
                    br(&mut y, ")");
                }
                w(&mut y, &op_word(k));
                ws = ctx(r, y);
                "operand"
            },
            6 => {
                let k = *r.pick(&needs_left());
                let mut y = vec![];
                w(&mut y, &op_word(k));
                if has(k, "Infix") || has(k, "Binary") {
                    br(&mut y, "(");
                    y.extend(ws);
                    br(&mut y, ")");
                }
                ws = ctx(r, y);
                "operand"
            },
            7 => {
                // something that never ends
                let mut s = *r.pick(&["\"abc", "(* abc", "\\( abc", "\"a\\\"", "\"", "(*", "(*(**)", "\\("]);
                if s.starts_with("\\(") && ws.iter().any(|x| x.s.starts_with("\\(")) {
                    s = "\"";
                }
                let i = ws.len();
                ws.insert(i, W { s: s.into(), bracket: false });
                "open"
            },
            _ => {
                let s = *r.pick(&["37^^1", "2^^2", "1^^1", "1*^z", "\\[Nonsense]", "\\:12", "\\q", "16^^g", "1``", "2^^", "\\[Alpha", "\\", "a`", "a``b", "x`1"]);
                ws = ctx(r, vec![W { s: s.into(), bracket: false }]);
                "token"
            },
        };
        let s = join(r, &ws);
        known(s, mode).opts(o)
    },
    check: p14,
    quick_n: 800_000,
    thorough_n: 20_000_000,
    need: &["good", "bracket", "operand", "open", "token", "any, in error", "any, not in error", "unbalanced", "balanced", "only the abstract tree is in error"],
};

const CTX: &[(&str, &str)] = &[("", ""), ("(", ")"), ("{", "}"), ("f[", "]"), ("{a, ", ", b}"), ("(x;f[", "])")];

/// What is known about an input holds for that input only, not for smaller ones made from it.
fn known(s: String, mode: &str) -> Case {
    let n = crate::rng::hash_bytes(s.as_bytes());
    Case::new(s).aux(mode).n(n)
}

fn p14_len(_: bool) -> u64 {
    gen::corpus().len() as u64 + (ops().len() * 3 * CTX.len()) as u64 + (GROUPS.len() * GROUPS.len() * 2) as u64
}

fn p14_case(_: bool, i: u64) -> Case {
    let mut i = i as usize;
    if i < gen::corpus().len() {
        return Case::new(gen::corpus()[i].clone()).aux("any");
    }
    i -= gen::corpus().len();
    let n = ops().len() * 3 * CTX.len();
    if i < n {
        let c = CTX[i % CTX.len()];
        let (m, o) = ((i / CTX.len()) % 3, &ops()[i / CTX.len() / 3]);
        let t = if o.kind == "Fake_ImplicitTimes" { String::new() } else { op_word(o.kind) };
        let two = matches!(o.class, "Infix" | "Binary");
        let (s, mode) = match m {
            0 if two => (format!("a {t} b"), "good"),
            0 if o.kind == "LinearSyntax_Bang" => (format!("{t} a"), "any"),
            0 if o.class == "Prefix" => (format!("{t} a"), "good"),
            0 => (format!("a {t}"), "good"),
            1 if needs_left().contains(&o.kind) => (if two { format!("{t} b") } else { t }, "operand"),
            2 if needs_right().contains(&o.kind) => (if two { format!("a {t}") } else { t }, "operand"),
            _ => (format!("a {t}"), "any"),
        };
        return known(format!("{}{s}{}", c.0, c.1), mode);
    }
    i -= n;
    // every opener with every closer
    let (g, h, call) = (&GROUPS[i / 2 % GROUPS.len()], &GROUPS[i / 2 / GROUPS.len()], i % 2 == 0);
    let s = format!("{}{} x {}", if call { "f " } else { "" }, gen::spell(g.0), gen::spell(h.1));
    known(s, if g.1 == h.1 { "any" } else { "bracket" })
}

/// In error; a comma with nothing next to it stands for Null and is a matter of style.
fn has_error(f: &[Tree]) -> bool {
    let mut r = false;
    nodes(f, &mut |t| match t {
        Tree::Node { class, .. } => r |= matches!(*class, "SyntaxError" | "GroupMissingCloser" | "GroupMissingOpener"),
        Tree::Leaf(t) => r |= is_error(t.kind) && !matches!(t.kind, "Error_PrefixImplicitNull" | "Error_InfixImplicitNull"),
    });
    r
}

fn ast_errors(a: &[crate::model::abs::A]) -> Vec<&'static str> {
    let mut v = vec![];
    for x in a {
        x.visit(&mut |x| {
            if matches!(x.k, "Error" | "SyntaxError" | "AbstractSyntaxError" | "GroupMissingCloser" | "GroupMissingOpener" | "CallMissingCloser") {
                v.push(x.k);
            }
        });
    }
    v
}

fn p14(c: &Case, obs: &mut Obs) -> Result<(), String> {
    let b = &c.input[..];
    let f = run_cst(b, &c.opts)?.forest;
    let a = run_ast(b, &c.opts)?;
    let bad = has_error(&f);
    let abad = ast_errors(&a);
    let tell = || format!("\n tree: {}\n abstract: {}", show_forest(b, &f), show(&a));
    // both trees tell the same story
    if bad && abad.is_empty() {
        return Err(format!("the concrete tree is in error, the abstract tree is not{}", tell()));
    }
    if !bad && abad.iter().any(|k| *k != "AbstractSyntaxError") {
        return Err(format!("the abstract tree has {:?}, the concrete tree is not in error{}", abad, tell()));
    }
    if !bad && !abad.is_empty() {
        obs.count("only the abstract tree is in error");
    }
    let mode = if c.n == crate::rng::hash_bytes(b) { std::str::from_utf8(&c.aux).unwrap_or("any") } else { "any" };
    match mode {
        "good" => {
            if bad || !abad.is_empty() {
                return Err(format!("this is well formed, but an error is reported{}", tell()));
            }
        },
        "bracket" | "operand" | "open" | "token" => {
            if !bad {
                return Err(format!("this is not well formed ({mode}), but no error is reported{}", tell()));
            }
        },
        _ => {},
    }
    // brackets: matched exactly when no group is reported as broken
    if !recovered(&f) {
        let mut l = vec![];
        f.iter().for_each(|t| t.leaves(&mut l));
        let mut stack: Vec<&str> = vec![];
        let mut ok = true;
        for t in &l {
            if let Some(g) = GROUPS.iter().find(|g| g.0 == t.kind) {
                stack.push(g.1);
            } else if closer(t.kind) || t.kind == "Error_UnexpectedCloser" {
                ok &= stack.pop() == Some(t.kind);
            }
        }
        ok &= stack.is_empty();
        let mut broken = false;
        nodes(&f, &mut |t| match t {
            Tree::Node { class, .. } => broken |= class.starts_with("GroupMissing"),
            Tree::Leaf(t) => broken |= t.kind == "Error_UnexpectedCloser",
        });
        if ok == broken {
            return Err(format!("brackets {}, but the tree says otherwise{}", if ok { "match" } else { "do not match" }, tell()));
        }
        obs.count(if ok { "balanced" } else { "unbalanced" });
    } else {
        obs.count("recovered at the end of the input");
    }
    match mode {
        "good" => obs.count("good"),
        "bracket" => obs.count("bracket"),
        "operand" => obs.count("operand"),
        "open" => obs.count("open"),
        "token" => obs.count("token"),
        _ => obs.count(if bad { "any, in error" } else { "any, not in error" }),
    }
    if l_interesting(&f) {
        obs.sig(&(mode, shape(&f)));
        obs.sample(|| format!("{mode}: {} => {}", gen::escape(b), if bad { "in error" } else { "not in error" }));
    }
    Ok(())
}

fn l_interesting(f: &[Tree]) -> bool {
    f.iter().any(|t| matches!(t, Tree::Node { .. }))
}
