//! Abstract trees.

use super::syntax::rnd_source;
use super::*;
use crate::model::abs::{Abs, A};
use crate::model::parse;
use crate::runner::*;

pub fn run_ast(b: &[u8], o: &Opts) -> Result<Vec<A>, String> {
    call("parse_bytes_ast_seq", b.len(), || parse_bytes_ast_seq(b, &o.make()).syntax.0.iter().map(ast).collect())
}

pub fn abs<'a>(b: &'a [u8], o: &Opts) -> Abs<'a> {
    Abs { b, infix_at: o.infix_at, flatten_times: o.flatten_times, old_at3: o.old_at3 }
}

pub fn differ(got: &[A], want: &[A], meta: bool) -> Option<String> {
    if got.len() != want.len() {
        return Some(format!("{} expressions instead of {}", got.len(), want.len()));
    }
    got.iter().zip(want).find_map(|(g, w)| g.differ(w, meta))
}

pub fn show(f: &[A]) -> String {
    f.iter().map(|a| a.show()).collect::<Vec<_>>().join("  ;;; ")
}

/// The reference concrete tree, unless the end of the input is inside a group or token:
/// what is kept of these is another property's matter, and the real tree is used.
pub fn reference(b: &[u8], o: &Opts) -> Result<Vec<Tree>, String> {
    let want = parse::parse(b);
    let mut cut = has_class(&want, "Cut");
    nodes(&want, &mut |t| cut |= matches!(t, Tree::Leaf(t) if unterminated(t.kind)));
    Ok(strip(&if cut { run_cst(b, o)?.forest } else { want }))
}

// ---- P09 meaning ---------------------------------------------------------------------------------------

pub static P09: Prop = Prop {
    id: "P09",
    rule: "distinct abstract tree shapes (classes and names) equal to the reference abstraction of the reference tree",
    assumptions: &["reference parser and reference abstraction (harness/src/model/{parse,abs}.rs)"],
    sys_len: p09_len,
    sys_case: p09_case,
    random: |r| {
        let b = if r.chance(1, 12) { gen::bytes(r, 30) } else { rnd_source(r) };
        let o = rnd_opts(r, false);
        Case::new(b).opts(o)
    },
    check: p09,
    quick_n: 400_000,
    thorough_n: 8_000_000,
    need: &["Call", "Leaf", "Error", "CallMissingCloser", "GroupMissingCloser", "SyntaxError", "AbstractSyntaxError", "Bang"],
};


const T: &[&str] = &[
    "0", "5", "1.5", "x", "-x", "-0", "-5", "(0)", "((-0))", "(5)", "((2.5))", "(-5)", "(x)", "-(x)", "-(0)", "-(5)", "(x y)", "-(x y)", "- -x", "--x", "+x", "+ +x",
    "+0", "-+x", "(+x)", "a/b", "(a/b)", "-a/b", "Times@x", "Plus@x", "Plus@@x", "Times@-3", "Dot@x", "Plus[x]", "System`Plus@x", "f'", "f''", "f@x", "x&", "!!x", "%", "%%%",
    "\\[Pi]", "\\:03c0", "_", "x_", "x__h", "x_.", "#", "##2", "#a", "{a,b}", "(a,b)", "()", "f[]", "f[[1]]", "a::b", "a::b::c", "a::b::c::d", "a;b;", "a;;b", "<<f", "\"s\"", "",
    "Divisible@x", "And@x", "x-y", "x+y", "x*-y", "-x*y", "x/-y", "1/0", "-1/0", "a~f~b",
];
const O: &[&str] = &[
    "+", "-", "*", "/", " ", "^", "==", "<", "@", "@@@", "//", "\\[Divides]", "&&", ".", ",", ";", "::", "?", ":", "\\[Minus]", "\\[ImplicitPlus]", "~", ">>", "===", "\n", "/.", ":=", "~f~", "/: z =", "'-",
];
const CMP: &[&str] = &["==", "!=", "<", ">=", "\\[LessSlantEqual]", "\\[LessTilde]", "\\[NotGreaterLess]", "\\[VectorLess]", "\\[VectorGreaterEqual]", "\\[LongEqual]"];
const BODY: &[&str] = &["[x]", "[x,y]", "[]", "[[x]]", "[[x,y]]", "[[]]", "[ [x] ]", "[[x],y]", "::[x]", "::[x,y]", "\\[LeftDoubleBracket]x,y\\[RightDoubleBracket]", "[x", "[[x", "::[x", "\\[LeftDoubleBracket]x", "[x][y]", "[[x]][[y]]", "[,]"];

fn p09_len(th: bool) -> u64 {
    let q = if th { 8 } else { 1 };
    let (t, o, c, b) = (T.len() as u64, O.len() as u64, CMP.len() as u64, BODY.len() as u64);
    super::syntax::pair_len(th) + q * t * o * t + q * c * c * c * c + t * b * 2
}
fn p09_case(th: bool, i: u64) -> Case {
    let quirks = |c: Case, q: u64| {
        let mut o = c.opts;
        o.flatten_times = q & 1 != 0;
        o.old_at3 = q & 2 != 0;
        o.infix_at = q & 4 == 0;
        c.opts(o)
    };
    let (t, o, c, b) = (T.len() as u64, O.len() as u64, CMP.len() as u64, BODY.len() as u64);
    let q = if th { 8 } else { 1 };
    let at = |v: &[&'static str], i: u64| v[(i % v.len() as u64) as usize];
    let mut j = i;
    if j < q * t * o * t {
        let w = j % q + if th { 0 } else { (j / 7) % 8 };
        let j = j / q;
        return quirks(Case::new(format!("{}{}{}", at(T, j), at(O, j / t), at(T, j / t / o))), w);
    }
    j -= q * t * o * t;
    if j < q * c * c * c * c {
        let w = j % q;
        let j = j / q;
        return quirks(Case::new(format!("a{}b{}c{}d{}e", at(CMP, j), at(CMP, j / c), at(CMP, j / c / c), at(CMP, j / c / c / c))), w);
    }
    j -= q * c * c * c * c;
    if j < t * b * 2 {
        let h = at(T, j / 2);
        let h = if j % 2 == 0 { h.to_string() } else { format!("({h})") };
        return Case::new(format!("{h}{}", at(BODY, j / 2 / t)));
    }
    quirks(super::syntax::pair_case(th, j - t * b * 2), i % 8)
}

fn p09(c: &Case, obs: &mut Obs) -> Result<(), String> {
    let b = &c.input[..];
    let got = run_ast(b, &c.opts)?;
    let want = abs(b, &c.opts).all(&reference(b, &c.opts)?);
    if let Some(d) = differ(&got, &want, false) {
        return Err(format!("{d}\n  input    {:?}\n  got      {}\n  expected {}", String::from_utf8_lossy(b), show(&got), show(&want)));
    }
    let mut sig = vec![];
    for a in &got {
        a.visit(&mut |a| {
            obs.count(a.k);
            sig.push(a.k);
            if a.k == "Call" && a.ch[0].k == "Leaf" {
                obs.sig(&a.ch[0].name);
            }
        });
    }
    if sig.len() > 2 {
        obs.sig(&sig);
        obs.sample(|| format!("{:?} -> {}", String::from_utf8_lossy(b), show(&got)));
    }
    Ok(())
}

// ---- P23 sources and issues of abstract nodes -----------------------------------------------------------

pub static P23: Prop = Prop {
    id: "P23",
    rule: "distinct abstract tree shapes whose sources and attached issues are those of the concrete tree",
    assumptions: &["reference abstraction harness/src/model/abs.rs applied to the real concrete tree (itself decided by P03, P04, P08)"],
    sys_len: p23_len,
    sys_case: p23_case,
    random: |r| {
        let b = if r.chance(1, 12) { gen::bytes(r, 30) } else { rnd_source(r) };
        let o = rnd_opts(r, false);
        Case::new(b).opts(o)
    },
    check: p23,
    quick_n: 250_000,
    thorough_n: 6_000_000,
    need: &["sources", "synthesized", "issues"],
};

const HEADS: &[&str] = &[
    "<|a|>", "\\[LeftAngleBracket]x\\[RightAngleBracket]", "x\\[Transpose]", "\\(x\\)", "\\!\\(x\\)", "(a;b)", "1", "1.5", "##", "##3", "#\"a\"", "x_", "x_.", "_.", "_h", "_", "%", "%%", "%3", "x?y",
    "x!", "x'", "x&", "f[x]", "f[[x]]", "{x}", "\\[LeftCeiling]x\\[RightCeiling]", "\\[LeftBracketingBar]x\\[RightBracketingBar]", "\"s\"", "f::[x]", "-x", "<<f", "\\1", "[x]", "__", "x___", "\\!x",
];

fn p23_len(th: bool) -> u64 {
    p09_len(th) + (HEADS.len() * BODY.len() * 2) as u64
}
fn p23_case(th: bool, i: u64) -> Case {
    let n = p09_len(th);
    let mut c = if i < n {
        p09_case(th, i)
    } else {
        let j = (i - n) as usize;
        let h = HEADS[j / 2 % HEADS.len()];
        let b = BODY[j / 2 / HEADS.len()];
        Case::new(if j % 2 == 0 { format!("{h}{b}") } else { format!("a\n +  {h} (* c *) {b}") })
    };
    c.opts.char_index = i % 3 == 2;
    c
}

fn p23(c: &Case, obs: &mut Obs) -> Result<(), String> {
    let b = &c.input[..];
    let got = run_ast(b, &c.opts)?;
    let want = abs(b, &c.opts).all(&strip(&run_cst(b, &c.opts)?.forest));
    if let Some(d) = differ(&got, &want, true) {
        return Err(format!("{d}\n  input    {:?}\n  got      {}\n  expected {}", String::from_utf8_lossy(b), show(&got), show(&want)));
    }
    let mut sig = vec![];
    for a in &got {
        a.visit(&mut |a| {
            obs.count(if a.span.is_some() { "sources" } else { "synthesized" });
            obs.add("issues", a.issues.len() as u64);
            sig.push(a.k);
            for i in &a.issues {
                obs.sig(&(i.split(' ').take(2).collect::<Vec<_>>(), a.k));
            }
        });
    }
    if sig.len() > 2 {
        obs.sig(&sig);
        obs.sample(|| format!("{:?} -> {}", String::from_utf8_lossy(b), show(&got)));
    }
    Ok(())
}
