//! The concrete tree, against the reference parser.

use super::*;
use crate::model::parse;
use crate::runner::*;

/// Source text for properties about whole expressions.
pub fn rnd_source(r: &mut Rng) -> Vec<u8> {
    if r.chance(1, 40) {
        return gen::scaled(r);
    }
    match r.below(10) {
        0..=6 => gen::source(r),
        7 => {
            let s = gen::source(r);
            gen::mutate_text(r, &s)
        },
        _ => gen::text(r, 30),
    }
}

// ---- P08 structure -----------------------------------------------------------------------------------

pub static P08: Prop = Prop {
    id: "P08",
    rule: "distinct tree shapes (classes, operators and token kinds) equal to the reference parser's",
    assumptions: &[
        "reference parser harness/src/model/parse.rs over the reference lexer",
        "operator tables (token, precedence, operator) are data taken from the unchanged tree",
        "what an unterminated group or token keeps is decided by P22",
    ],
    sys_len: pair_len,
    sys_case: pair_case,
    random: |r| {
        let b = if r.chance(1, 12) { gen::bytes(r, 30) } else { rnd_source(r) };
        let o = rnd_opts(r, false);
        Case::new(b).opts(o)
    },
    check: p08,
    quick_n: 500_000,
    thorough_n: 10_000_000,
    need: &["Prefix", "Infix", "Postfix", "Binary", "Ternary", "PrefixBinary", "Compound", "Group", "Call", "SyntaxError", "GroupMissingCloser"],
};

/// two operators around and between operands, by position of the second
const FORMS: &[&str] = &["a 1 b 2 c", "1 a 2 b", "a 1 2 b", "a 1\n2 b", "(a 1 b 2 c)", "f[a 1 2 b, 1 c]", "a 1 b 2", "a1b2c"];

pub fn pair_len(th: bool) -> u64 {
    let n = gen::op_kinds().len() as u64;
    n * n * (if th { FORMS.len() as u64 } else { 2 }) + corpus_len(th)
}
pub fn pair_case(th: bool, i: u64) -> Case {
    let k = gen::op_kinds();
    let n = k.len() as u64;
    let f = if th { FORMS.len() as u64 } else { 2 };
    if i >= n * n * f {
        return corpus_case(th, i - n * n * f);
    }
    let (p, q, f) = (i / f / n, i / f % n, i % f);
    // quick: the first form for every pair, the others in turn
    let f = if th { f } else if f == 0 { 0 } else { 1 + (p * 7 + q) % (FORMS.len() as u64 - 1) };
    let s = FORMS[f as usize].replace('1', "\u{1}").replace('2', "\u{2}");
    Case::new(s.replace('\u{1}', &gen::spell(k[p as usize])).replace('\u{2}', &gen::spell(k[q as usize])))
}

fn p08(c: &Case, obs: &mut Obs) -> Result<(), String> {
    let b = &c.input[..];
    let got = run_cst(b, &c.opts)?;
    let want = parse::parse(b);
    if let Some(d) = parse::differ(&got.forest, &want) {
        return Err(format!(
            "{d}\n  input    {:?}\n  got      {}\n  expected {}",
            String::from_utf8_lossy(b),
            show_forest(b, &got.forest),
            show_forest(b, &want)
        ));
    }
    let mut n = 0;
    nodes(&got.forest, &mut |t| {
        if let Tree::Node { class, .. } = t {
            obs.count(class);
            n += 1;
        }
    });
    if n > 0 {
        obs.sig(&shape(&got.forest));
        obs.sample(|| format!("{:?} -> {}", String::from_utf8_lossy(b), show_forest(b, &strip(&got.forest))));
    }
    Ok(())
}

/// Classes, operators and token kinds without positions.
pub fn shape(f: &[Tree]) -> Vec<&'static str> {
    fn go(t: &Tree, v: &mut Vec<&'static str>) {
        match t {
            Tree::Leaf(t) => v.push(t.kind),
            Tree::Node { class, op, ch } => {
                v.push(class);
                v.push(op);
                ch.iter().for_each(|c| go(c, v));
                v.push("]");
            },
        }
    }
    let mut v = vec![];
    f.iter().for_each(|t| go(t, &mut v));
    v
}

// ---- P22 recovery ------------------------------------------------------------------------------------

pub static P22: Prop = Prop {
    id: "P22",
    rule: "distinct shapes of inputs whose end is inside a group or token, recovered as the reference says",
    assumptions: &["reference recovery harness/src/model/recover.rs over the reference parser"],
    sys_len: p22_len,
    sys_case: p22_case,
    random: |r| {
        let mut b: Vec<u8> = vec![];
        let n = 1 + r.below(5);
        for _ in 0..n {
            match r.below(8) {
                0 | 1 => b.extend(r.pick(LINES).as_bytes()),
                2 => {
                    b.extend(r.pick(NAMES).as_bytes());
                    b.extend(r.pick(AFTER).as_bytes());
                },
                3 => b.extend(gen::source(r)),
                4 | 5 => b.extend(r.pick(OPEN).as_bytes()),
                6 => b.extend(gen::text(r, 12)),
                _ => {
                    let w = r.pick(LINES).to_string();
                    b.extend(gen::mutate_text(r, w.as_bytes()))
                },
            }
            b.extend(r.pick(&["\n", "\n", "\n\n", "\r\n", "\r", " ", "", "\n \n", "\n\t", "\n\n\n"]).as_bytes());
            if r.chance(1, 60) {
                // many lines, or a long one
                let l = *r.pick(&["b", "b", "", "  ", "a,", "x + y", "(* c *)", "\u{e9}", "\"s\"", "f[x]", "\t1"]);
                let e = *r.pick(&["\n", "\n", "\n", "\r\n", "\r", " "]);
                let n = if r.chance(1, 20) { r.range(300, 1500) } else { r.range(5, 120) };
                b.extend(format!("{l}{e}").repeat(n).into_bytes());
            }
        }
        if r.chance(1, 20) {
            b.push(0xff);
        }
        let o = rnd_opts(r, false);
        Case::new(b).opts(o)
    },
    check: p22,
    quick_n: 400_000,
    thorough_n: 8_000_000,
    need: &["open groups", "open tokens", "cut before a new statement", "trailing blank lines dropped"],
};

const OPEN: &[&str] = &["{", "f[", "(", "<|", "\"ab", "(* c", "{a, f[", "g[\"x", "\\(", "[[", "f[[", "a::[", "{(* c", "\"", "(*", "\\[LeftCeiling]", "{a,", "f[x_, y_] := {", "{1 + ", "\t{", "  \"q"];
const LINES: &[&str] = &[
    "x = 1", "x := 1", "x", "foo[x_] := y", "foo[x]", "foo[x] == y", "Begin[\"a`\"]", "Clear[x]", "Needs[", "Needs", "] := 1", "] = 2", "]", "} = 1", "(* :Name: x *)", "(* Name *)", "(*:a*)", "(*(* :a*)*)",
    " x = 1", "\tx = 1", "x= 1", "x  :=y", "x (* c *) = 1", "System`Private`NewContextPath[x]", "SetDelayed[a, b]", "Set[a, b]", "{a, b}", "\"str\"", "x += 1", "x == 1", "a`b = 1", "f[x]=", "f [x] = 2", "x=", "é = 1", "Get[x", "get[x",
    "x =.", "x ^= 2", "ab\\\ncd = 1", "(* :unclosed", "", " ", "1 = 2", "f@x = 3", "f[\"a\n= b", "EndPackage[]", "End[ ]", "Package[", "PackageImport[\"x\"]", "x_ = 3", "x, y = 4",
];

/// Names that begin a statement when they are called, and others that do not.
const NAMES: &[&str] = &[
    "BeginPackage", "Begin", "Needs", "End", "EndPackage", "Clear", "ClearAll", "SetOptions", "SetAttributes", "System`Private`NewContextPath", "System`Private`RestoreContextPath", "Protect", "Unprotect",
    "Package", "PackageImport", "PackageScope", "PackageExport", "Get", "SetDelayed", "UpSetDelayed", "TagSetDelayed", "Set", "UpSet", "TagSet", "Block", "Module", "With", "If", "Unset", "TagUnset", "ClearAttributes",
    "Remove", "Put", "Print", "System`Begin", "NewContextPath", "Private`NewContextPath", "begin", "EndPackages", "Beg", "Options", "Attributes", "Protected", "Locked", "Import", "Export", "Function", "Condition", "Rule", "RuleDelayed",
    "List", "System`Clear", "Global`Clear", "`Clear", "ClearSystemCache", "PackageInitialize", "DeclarePackage", "BeginTestSection", "EndTestSection", "VerificationTest", "Test", "CompoundExpression",
];
const AFTER: &[&str] = &["[x]", "[]", "[\"a`\"]", "[", " [x]", "[x, y];", "[x] = 1", "", " = 1", "[x][y]", "[[x]]", "@x", "[ (* c *) ]", "[(* c *) x", "[x}"];

fn p22_names() -> usize {
    OPEN.len() * NAMES.len() * AFTER.len()
}
fn p22_len(_: bool) -> u64 {
    (OPEN.len() * LINES.len() * LINES.len() * 2 + p22_names()) as u64
}
fn p22_case(_: bool, i: u64) -> Case {
    let mut i = i as usize;
    if i < p22_names() {
        let (a, b, c) = (OPEN[i % OPEN.len()], NAMES[i / OPEN.len() % NAMES.len()], AFTER[i / OPEN.len() / NAMES.len()]);
        let mut o = Opts::DEFAULT;
        o.char_index = i % 5 == 1;
        let nl = ["\n", "\r\n", "\n\n", "\r"][(i / 3) % 4];
        return Case::new(format!("{a}{nl}{b}{c}{nl}z")).opts(o);
    }
    i -= p22_names();
    let (a, b, c) = (OPEN[i / 2 % OPEN.len()], LINES[i / 2 / OPEN.len() % LINES.len()], LINES[i / 2 / OPEN.len() / LINES.len()]);
    let nl = ["\n", "\r\n", "\n\n", "\r"][(i / 3) % 4];
    let mut o = Opts::DEFAULT;
    o.char_index = i % 2 == 1;
    Case::new(format!("a\n{a}{nl}{b}{nl}{c}")).opts(o)
}

fn same_tree(g: &Tree, w: &Tree) -> Option<String> {
    match (g, w) {
        (Tree::Leaf(g), Tree::Leaf(w)) => {
            let same = g.kind == w.kind && (g.s, g.e) == (w.s, w.e) || g.kind == w.kind && g.s == g.e && w.s == w.e;
            if !same {
                return Some(format!("token {} {}..{} where {} {}..{} is expected", g.kind, g.s as isize, g.e as isize, w.kind, w.s, w.e));
            }
            (unterminated(g.kind) && g.span != w.span).then(|| format!("position {:?} of {} where {:?} is expected", g.span, g.kind, w.span))
        },
        (Tree::Node { class, op, ch }, Tree::Node { class: wc, op: wo, ch: wch }) if class == wc && op == wo => {
            if ch.len() != wch.len() {
                return Some(format!("{} children of {class} {op} where {} are expected", ch.len(), wch.len()));
            }
            ch.iter().zip(wch).find_map(|(g, w)| same_tree(g, w))
        },
        _ => Some("a different node".into()),
    }
}

fn p22(c: &Case, obs: &mut Obs) -> Result<(), String> {
    let b = &c.input[..];
    let got = run_cst(b, &c.opts)?;
    let plain = parse::parse(b);
    let cut = has_class(&plain, "Cut");
    let mut open = false;
    nodes(&plain, &mut |t| open |= matches!(t, Tree::Leaf(t) if unterminated(t.kind)));
    let want = crate::model::recover::recover(b, &c.opts, plain);
    let d = if got.forest.len() != want.len() {
        Some(format!("{} nodes where {} are expected", got.forest.len(), want.len()))
    } else {
        got.forest.iter().zip(&want).find_map(|(g, w)| same_tree(g, w))
    };
    if let Some(d) = d {
        return Err(format!(
            "{d}\n  input    {:?} {}\n  got      {}\n  expected {}",
            String::from_utf8_lossy(b),
            c.opts.show(),
            show_forest(b, &got.forest),
            show_forest(b, &want)
        ));
    }
    if cut {
        obs.count("open groups");
    }
    if open {
        obs.count("open tokens");
    }
    if cut || open {
        let mut l = vec![];
        want.iter().for_each(|t| t.leaves(&mut l));
        let end = l.last().map_or(0, |t| t.e);
        if end < b.len() {
            let rest = String::from_utf8_lossy(&b[end..]);
            obs.count(if rest.trim().is_empty() { "trailing blank lines dropped" } else { "cut before a new statement" });
        }
        obs.sig(&shape(&want));
        obs.sample(|| format!("{:?} -> {}", String::from_utf8_lossy(b), show_forest(b, &want)));
    }
    Ok(())
}
