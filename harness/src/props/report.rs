//! What a call reports besides the tree: issues, tracked places, and the first line of scripts.

use super::syntax::rnd_source;
use super::*;
use crate::model::chars::{wl_at, Pt};
use crate::model::issues::{due, Act, Due, Text};
use crate::model::track::track;
use crate::model::{lex, pos};
use crate::runner::*;
use issue::{CodeActionKind, Issue};

fn lossy(b: &[u8]) -> String {
    String::from_utf8_lossy(b).into_owned()
}

// ---- P16 issues --------------------------------------------------------------------------------------

pub static P16: Prop = Prop {
    id: "P16",
    rule: "distinct sets of issues (tag, severity, shape of the text) that were exactly those due",
    assumptions: &["reference model harness/src/model/issues.rs; wording is not compared; operator and long-name tables from the pinned tree"],
    sys_len: p16_len,
    sys_case: p16_case,
    random: |r| {
        let b = match r.below(4) {
            0 => rnd_source(r),
            1 => any_input(r, 40),
            _ => suspicious(r),
        };
        let o = rnd_opts(r, false);
        Case::new(b).opts(o)
    },
    check: p16,
    quick_n: 500_000,
    thorough_n: 6_000_000,
    need: &["issues judged", "issues due", "more than ten fatal issues"],
};

const PIECES: &[&str] = &[
    "\\[", "\\[]", "\\[A", "\\[Alpha", "\\[Alpha]", "\\[Alpa]", "\\[Foo]", "\\[alpha]", "\\[1]", "\\\\[Alpa]", "\\\\[Alpha]", "\\\\[RightArrow]", "\\\\[",
    "\\Alpha]", "\\Alpa]", "\\A", "\\G", "\\a", "\\g", "\\8", "\\9", "\\:", "\\:1", "\\:12g4", "\\:2192", "\\:0007", "\\:d800", "\\.", "\\.1", "\\.07", "\\.1b", "\\.7f",
    "\\|", "\\|12", "\\|0f0000", "\\|01f600", "\\|110000", "\\0", "\\07", "\\007", "\\033", "\\177", "\\200", "\\<", "\\>", "\\b", "\\f", "\\n", "\\r", "\\t", "\\\"", "\\\\",
    "\\\t", "\\ ", "\\é", "\\→", "\\\u{7}", "\\?", "\\;", "\\[RawEscape]", "\\[RawTab]", "\\[NonBreakingSpace]", "\\[RightArrow]", "\\[InvisibleApplication]", "\\[COMPATIBILITYNoBreak]",
    "\\[OpenCurlyQuote]", "\\[Beta]", "\\[SZ]", "\\[Continuation]", "\\[IndentingNewLine]", "\\[LineSeparator]",
    "\u{200b}", "\u{200c}", "\u{2018}", "\u{201d}", "\u{2061}", "\u{2063}", "\u{2064}", "→", "\u{279d}", "\u{29f4}", "\u{f3a2}", "\u{f76d}", "\u{80}", "\u{85}", "\u{f0001}", "\u{10ffff}",
    "\u{a0}", "\u{2028}", "\u{2029}", "é", "ß", "α", "Ω", "中", "😀", "\u{e000}", "\u{f522}", "\0", "\u{1}", "\u{7}", "\u{8}", "\u{b}", "\u{c}", "\u{1b}", "\u{7f}", "\r", "\r\n", "\n", "\t",
    "\\\n", "\\\r", "\\\r\n", "\\\n\t", "\"", "\"a\"", "(*", "*)", "#", "##", "%", "#$a", "#a`b", "#`a", "#\"", "#a$", "#é", "::", "a::b", "a::é", "a::b\\[Beta]", "a::$", "a::\u{1}", "::\"x\"", ">>", "<<", ">>>", ">> \"", "a>>f",
    "1..", "1..2", "1.2.3", ".1.2", "1`.a", "1`+2", "1`-.3", "1`+", "1``+2", "1`+..", "1`2..", "1`2.3.", "1*^2..", "1*^2.3.", "16^^a.b.c", "2^^.1.", "#1.a", "##1.", "%1.", "%%1.",
    "--", "-->", "--=", "++", "++=", "|>", "|>=", "<|", "=!", "=!=", "<-", "<->", "|-", "|->", "/.", "/.3", "_.", "_..", "a_..b", "$", "`", "a`b", "a`", "a`1", "x", "+", " ", "=", ">", ".", "!", "-", "3", "[", "]", "{", "}", "(", ")", ",", ";", "\\(", "\\)", "\\!", "\\*", "\\`",
];

fn suspicious(r: &mut Rng) -> Vec<u8> {
    let mut b = vec![];
    let n = 1 + r.below(5);
    for _ in 0..n {
        match r.below(14) {
            0 => b.extend_from_slice(&*gen::bytes(r, 4)),
            1 => {
                let l = &gen::longnames()[r.below(gen::longnames().len())];
                b.extend_from_slice(format!("\\[{}]", l.name).as_bytes());
            },
            2 => {
                let l = &gen::longnames()[r.below(gen::longnames().len())];
                if let Some(c) = l.ch {
                    b.extend_from_slice(c.to_string().as_bytes());
                }
            },
            _ => b.extend_from_slice(r.pick(PIECES).as_bytes()),
        }
    }
    if r.below(20) == 0 {
        // many fatal issues
        let p = b.clone();
        for _ in 0..12 {
            b.push(b' ');
            b.extend_from_slice(&p);
        }
    }
    b
}

fn p16_len(t: bool) -> u64 {
    corpus_len(t) + (PIECES.len() * PIECES.len()) as u64 + 3 * gen::longnames().len() as u64 + if t { 0x110000 } else { 0x10000 }
}
fn p16_case(t: bool, i: u64) -> Case {
    if i < corpus_len(t) {
        return corpus_case(t, i);
    }
    let mut i = (i - corpus_len(t)) as usize;
    if i < PIECES.len() * PIECES.len() {
        return Case::new(format!("{}{}", PIECES[i / PIECES.len()], PIECES[i % PIECES.len()]).into_bytes());
    }
    i -= PIECES.len() * PIECES.len();
    // every long name and every character, in the three settings that matter
    let all = gen::longnames();
    if i < 3 * all.len() {
        let n = &all[i / 3].name;
        return Case::new(match i % 3 {
            0 => format!("a\\[{n}]b"),
            1 => format!("\"\\[{n}]\" \\[{n}"),
            _ => format!("\"\\\\[{n}] \\{n}]\" a::\\[{n}]"),
        }
        .into_bytes());
    }
    let c = char::from_u32((i - 3 * all.len()) as u32).unwrap_or('a');
    Case::new(format!("{c} a{c} \"{c}\" \\:{:04x} a::{c} #{c} (*{c}*)", c as u32 & 0xffff).into_bytes())
}

/// The kind of an issue follows from what it is about.
fn maker_ok(i: &Issue) -> bool {
    let m = i.make_sym.as_str();
    match (i.tag.as_str(), sev(i.sev)) {
        ("IncompleteUTF8Sequence" | "StraySurrogate" | "BOM" | "UnexpectedCarriageReturn" | "NonASCIICharacter", _) => m == "CodeParser`EncodingIssue",
        ("UnexpectedCharacter", _) => m == "CodeParser`EncodingIssue" || m == "CodeParser`SyntaxIssue",
        (_, "Formatting") => m == "CodeParser`FormatIssue",
        _ => m == "CodeParser`SyntaxIssue",
    }
}

fn key(i: &Issue) -> String {
    super::relate::issue_key(i, &|l| l)
}

fn text_ok(t: &str, want: &Text) -> bool {
    match want {
        Text::Is(s) => t == s,
        Text::Denotes(c) => {
            let (w, e) = wl_at(t.as_bytes(), 0);
            t.is_ascii() && e == t.len() && (w.pt == Pt::Ch(*c) || matches!((w.pt, *c), (Pt::Meta('b'), '\x08') | (Pt::Meta('f'), '\x0c') | (Pt::Meta('n'), '\n') | (Pt::Meta('t'), '\t'))) && t.len() > 1
        },
        Text::Name(n) => {
            let s = t.strip_prefix(&"\\".repeat(*n)).and_then(|s| s.strip_prefix('[')).and_then(|s| s.strip_suffix(']'));
            s.map_or(false, |s| gen::longname_char(s).is_some())
        },
    }
}

fn matches(i: &Issue, d: &Due, t: &[Option<Loc>]) -> bool {
    let at = |x: usize| t[x].unwrap_or(Loc(0, 0));
    if i.tag.as_str() != d.tag || sev(i.sev) != d.sev || (i.val * 100.0).round() as u32 != d.val || source_span(&i.src) != Some([at(d.s), at(d.e)]) {
        return false;
    }
    if i.actions.is_empty() && d.optional {
        return true;
    }
    i.actions.len() == d.acts.len()
        && i.actions.iter().zip(&d.acts).all(|(a, w)| match (&a.kind, w) {
            (CodeActionKind::ReplaceText { replacement_text }, Act::Replace(x, s, e)) => text_ok(replacement_text, x) && span(a.src) == [at(*s), at(*e)],
            (CodeActionKind::InsertText { insertion_text }, Act::Insert(x, s)) => insertion_text == x && span(a.src) == [at(*s), at(*s)],
            (CodeActionKind::DeleteText, Act::Delete(s, e)) => span(a.src) == [at(*s), at(*e)],
            _ => false,
        })
}

fn p16(c: &Case, obs: &mut Obs) -> Result<(), String> {
    let b = &c.input[..];
    let r = run_cst(b, &c.opts)?;
    let table = pos::table(b, &c.opts);
    // shape of the report
    let mut seen = std::collections::HashSet::new();
    for (list, fatal) in [(&r.fatal, true), (&r.nonfatal, false)] {
        for i in list.iter() {
            if (sev(i.sev) == "Fatal") != fatal {
                return Err(format!("a {} issue is in the list of {} ones: {}", sev(i.sev), if fatal { "fatal" } else { "other" }, key(i)));
            }
            if !seen.insert(key(i)) {
                return Err(format!("reported twice: {}", key(i)));
            }
            if !maker_ok(i) {
                return Err(format!("a {} issue made as {}: {}", i.tag.as_str(), i.make_sym.as_str(), key(i)));
            }
            if !(0.0..=1.0).contains(&i.val) {
                return Err(format!("confidence {}: {}", i.val, key(i)));
            }
        }
    }
    if r.fatal.len() > 10 {
        return Err(format!("{} fatal issues reported", r.fatal.len()));
    }
    // exactly what is due
    let reference;
    let forest = if recovered(&r.forest) {
        reference = crate::model::parse::parse(b);
        obs.count("inputs left open");
        &reference
    } else {
        &r.forest
    };
    let mut ls = vec![];
    forest.iter().for_each(|t| t.leaves(&mut ls));
    let (must, may) = due(b, &ls, &c.opts);
    for i in r.fatal.iter().chain(&r.nonfatal) {
        if !must.iter().chain(&may).any(|d| matches(i, d, &table)) {
            return Err(format!("reported, but not due: {}\n  due: {:?}", key(i), must));
        }
        obs.count("issues judged");
    }
    let mut fatal_due: Vec<&Due> = vec![];
    for d in &must {
        if d.sev == "Fatal" {
            if !fatal_due.contains(&d) {
                fatal_due.push(d);
            }
            continue;
        }
        if !r.nonfatal.iter().any(|i| matches(i, d, &table)) {
            return Err(format!("due, but not reported: {d:?} at {:?}\n  reported: {:?}", table[d.s], r.nonfatal.iter().map(key).collect::<Vec<_>>()));
        }
    }
    let open: Vec<&&Due> = fatal_due.iter().filter(|d| !r.fatal.iter().any(|i| matches(i, d, &table))).collect();
    if !open.is_empty() && r.fatal.len() < 10 {
        return Err(format!("due, but not reported: {:?}\n  reported: {:?}", open[0], r.fatal.iter().map(key).collect::<Vec<_>>()));
    }
    if let Some(o) = open.iter().map(|d| d.s).min() {
        // the first ten are kept
        obs.count("more than ten fatal issues");
        // (what follows # and file operators is read more than once, in different ways)
        let twice = b.contains(&b'#') || b.windows(2).any(|w| w == b"<<" || w == b">>");
        if !twice && r.fatal.iter().filter(|i| source_span(&i.src).map_or(false, |s| table[o].map_or(false, |t| s[0] > t))).count() > 2 {
            return Err(format!("fatal issues after one that was left out: {:?}", open[0]));
        }
    }
    obs.add("issues due", must.len() as u64);
    for d in &must {
        obs.count(d.tag);
    }
    obs.sig(&must.iter().map(|d| (d.tag, d.sev, d.val, d.e - d.s, d.acts.len())).collect::<Vec<_>>());
    Ok(())
}

// ---- P17 places tracked for formatting ------------------------------------------------------------------

pub static P17: Prop = Prop {
    id: "P17",
    rule: "distinct sets of tracked tokens (list, kind of token, length) that were exactly those due",
    assumptions: &["reference model harness/src/model/track.rs"],
    sys_len: p17_len,
    sys_case: p17_case,
    random: |r| {
        let b = match r.below(6) {
            0 if r.chance(1, 2) => gen::scaled(r),
            0 => any_input(r, 40),
            1 => {
                let s = r.pick(gen::corpus());
                broken(r, s)
            },
            2 => {
                let s = rnd_source(r);
                broken(r, &s)
            },
            3 => {
                let s = suspicious(r);
                broken(r, &s)
            },
            _ => {
                let n = 1 + r.below(6);
                (0..n).flat_map(|_| r.pick(BREAKS).as_bytes().to_vec()).collect()
            },
        };
        let o = rnd_opts(r, false);
        Case::new(b).opts(o)
    },
    check: p17,
    quick_n: 500_000,
    thorough_n: 8_000_000,
    need: &["tracked 0", "tracked 1", "tracked 2", "tracked 3"],
};

const BREAKS: &[&str] = &[
    "\\\n", "\\\r\n", "\\\r", "\\\n  ", "\\\n\t", "\n", "\r\n", "\r", "\t", "\"", "\"a", "b\"", "\"\"", "(*", "*)", "(", "*", ")", "a", "b`c", "1", "12", ".5", "1.", "2^^1", "*^3", "`", "``", "1`2", "+", "=", "!", "<", "-", ">", "|", "/", ".", "..", "_", "__", ":", "::", ":=", "^", "@",
    "#", "##", "%", "%%", "#a", "#1", ">>", "<<", ">>>", "f", "f[x]", "[", "]", "{", "}", "<|", "|>", "\\[Alpha]", "\\:03b1", "\\n", "\\t", "\\[NewLine]", "\\.0a", "\\.09", "\\[Continuation]", "\\(", "\\)", "\\!", "\\", " ", "é", ",", ";", ";;", "&", "'", "$", "~",
];

/// Line continuations, newlines and tabs thrown in anywhere.
fn broken(r: &mut Rng, b: &[u8]) -> Vec<u8> {
    let mut b = b[..b.len().min(60)].to_vec();
    for _ in 0..1 + r.below(4) {
        let at = r.below(b.len() + 1);
        let x = r.pick(&BREAKS[..12]).as_bytes();
        b.splice(at..at, x.iter().copied());
    }
    b
}

fn p17_len(t: bool) -> u64 {
    let n = BREAKS.len() as u64;
    corpus_len(t) + if t { n * n * n * 2 } else { n * n * n }
}
fn p17_case(t: bool, i: u64) -> Case {
    if i < corpus_len(t) {
        return corpus_case(t, i);
    }
    let mut i = (i - corpus_len(t)) as usize;
    let n = BREAKS.len();
    let mut s = String::new();
    for _ in 0..3 {
        s += BREAKS[i % n];
        i /= n;
    }
    if i > 0 {
        s = format!("\"{s}\"");
    }
    Case::new(s.into_bytes())
}

fn p17(c: &Case, obs: &mut Obs) -> Result<(), String> {
    let b = &c.input[..];
    let r = run_cst(b, &c.opts)?;
    let table = pos::table(b, &c.opts);
    let reference;
    let forest = if recovered(&r.forest) {
        reference = crate::model::parse::parse(b);
        obs.count("inputs left open");
        &reference
    } else {
        &r.forest
    };
    let mut ls = vec![];
    forest.iter().for_each(|t| t.leaves(&mut ls));
    let (must, may) = track(b, &ls);
    let at = |i: &usize| table[*i].unwrap_or(Loc(0, 0));
    let names = ["simple line continuations", "complex line continuations", "embedded newlines", "embedded tabs"];
    for k in 0..4 {
        for l in &r.tracked[k] {
            if !must[k].iter().chain(&may[k]).any(|i| at(i) == *l) {
                return Err(format!("{l:?} is reported in the {}, but no such token begins there; due: {:?}", names[k], must[k].iter().map(at).collect::<Vec<_>>()));
            }
        }
        for i in &must[k] {
            if !r.tracked[k].contains(&at(i)) {
                return Err(format!("{:?} is not reported in the {}: {:?}", at(i), names[k], r.tracked[k]));
            }
            obs.count(["tracked 0", "tracked 1", "tracked 2", "tracked 3"][k]);
        }
    }
    if must.iter().any(|m| !m.is_empty()) {
        // the four lists, handed out together
        let t = call("parse_bytes_cst_seq", b.len(), || parse_bytes_cst_seq(b, &c.opts.make()))?.tracked;
        let four = call("TrackedSourceLocations::to_nodes", b.len(), || t.to_nodes())?;
        if four != [t.simple_line_continuations, t.complex_line_continuations, t.embedded_newlines, t.embedded_tabs] {
            return Err(format!("the four lists come out as {four:?}"));
        }
        let kinds: Vec<(usize, &str, usize)> = (0..4).flat_map(|k| must[k].iter().map(move |i| (k, *i)).collect::<Vec<_>>()).map(|(k, i)| ls.iter().find(|t| t.s == i && t.e > i).map_or((k, "", 0), |t| (k, t.kind, t.e - t.s))).collect();
        obs.sig(&kinds);
        obs.sample(|| format!("{:?}: {:?}", lossy(b), kinds));
    }
    Ok(())
}

// ---- P18 the first line of scripts -------------------------------------------------------------------------

pub static P18: Prop = Prop {
    id: "P18",
    rule: "distinct pairs of a kind of first line and a shape of the rest that were handled as due",
    assumptions: &["the first line is special when its first two tokens are # and ! (reference lexer)"],
    sys_len: p18_len,
    sys_case: p18_case,
    random: |r| {
        let line = match r.below(6) {
            0 => any_input(r, 12),
            1 => rnd_source(r),
            _ => {
                let mut l = r.pick(FIRST).as_bytes().to_vec();
                if r.chance(1, 2) {
                    l.extend(any_input(r, 10));
                }
                l
            },
        };
        let rest = match r.below(4) {
            0 => any_input(r, 30),
            1 => suspicious(r),
            2 => r.pick(gen::corpus()).clone(),
            _ => rnd_source(r),
        };
        let mut b = line;
        if r.chance(7, 8) {
            b.extend_from_slice(r.pick(ENDS).as_bytes());
            b.extend(rest);
        }
        let o = rnd_opts(r, false);
        Case::new(b).opts(o)
    },
    check: p18,
    quick_n: 90_000,
    thorough_n: 4_000_000,
    need: &["first line skipped", "nothing to skip", "issues moved", "rest has errors"],
};

const FIRST: &[&str] = &[
    "#!", "#!/usr/bin/env wolframscript", "#! \"quoted", "#!(* x", "#! *) {[", "#!\t", "# !", "#\\\n!", "\\\n#!", "#!=", "#!!", "#!a]", "#", "##!", "#1!", "!", " #!", "", "#!\\", "#!\\[Alpha]", "#!é→😀", "#!\u{feff}", "#!#!",
    "#!a \\", "#&", "#a", "#\"", "#!<<a>>\"b", "#!f::", "\\[Hash]!", "#\\.21",
];
const ENDS: &[&str] = &["\n", "\r\n", "\r", "\n\n", "\n\r", "\u{2028}", "\u{b}", "\\\n"];
const RESTS: &[&str] = &["", "a", "a+b\nc", "1 2", "#!x\ny", "f[", "\"abc", "(* c", "{a\nb=1\n", "\\[Foo]", "a)", " \ta", "\r\na", "\"\\\n\tx\"", "é\u{200b}", "-1.2.3", "a::b", "\u{feff}"];

fn p18_len(t: bool) -> u64 {
    corpus_len(t) + (FIRST.len() * ENDS.len() * RESTS.len() * 2) as u64
}
fn p18_case(t: bool, i: u64) -> Case {
    if i < corpus_len(t) {
        let mut c = corpus_case(t, i);
        c.input.splice(0..0, b"#!x\n".iter().copied());
        return c;
    }
    let mut i = (i - corpus_len(t)) as usize;
    let mut s = String::new();
    for w in [FIRST, ENDS, RESTS] {
        s += w[i % w.len()];
        i /= w.len();
    }
    let mut o = Opts::DEFAULT;
    o.char_index = i > 0;
    Case::new(s.into_bytes()).opts(o)
}

/// Everything a concrete parse tells, positions moved.
struct Story {
    forest: Vec<Tree>,
    fatal: Vec<String>,
    nonfatal: Vec<String>,
    tracked: [Vec<Loc>; 4],
    ast: Vec<crate::model::abs::A>,
    toks: Option<Vec<Tok>>,
    flag: Option<UnsafeCharacterEncoding>,
}

fn story(b: &[u8], o: &Opts, d: usize, mv: &dyn Fn(Loc) -> Loc) -> Result<Story, String> {
    let r = run_cst(b, o)?;
    let a = super::meaning::run_ast(b, o)?;
    let t = run_tokens(b, o)?;
    let mut tracked = r.tracked;
    tracked.iter_mut().for_each(|v| v.iter_mut().for_each(|l| *l = mv(*l)));
    Ok(Story {
        forest: super::relate::shift(&r.forest, d, mv),
        fatal: r.fatal.iter().map(|i| super::relate::issue_key(i, mv)).collect(),
        nonfatal: r.nonfatal.iter().map(|i| super::relate::issue_key(i, mv)).collect(),
        tracked,
        ast: a.iter().map(|a| super::relate::shift_a(a, mv)).collect(),
        toks: t.map(|t| t.iter().map(|t| Tok { s: t.s + d, e: t.e + d, span: t.span.map(mv), ..*t }).collect()),
        flag: r.flag,
    })
}

fn compare(what: &str, got: &Story, want: &Story, b: &[u8]) -> Result<(), String> {
    let text = lossy(b);
    if got.forest != want.forest {
        return Err(format!("{what}: {text:?} parses as {} instead of {}", show_forest(b, &got.forest), show_forest(b, &want.forest)));
    }
    if let Some(e) = super::meaning::differ(&got.ast, &want.ast, true) {
        return Err(format!("{what}: abstract tree of {text:?}: {e}"));
    }
    if got.toks != want.toks {
        return Err(format!("{what}: tokens of {text:?}: {:?} instead of {:?}", got.toks, want.toks));
    }
    if got.flag != want.flag {
        return Err(format!("{what}: encoding of {text:?}: {:?} instead of {:?}", got.flag, want.flag));
    }
    for k in 0..4 {
        if got.tracked[k] != want.tracked[k] {
            return Err(format!("{what}: tracked places ({k}) of {text:?}: {:?} instead of {:?}", got.tracked[k], want.tracked[k]));
        }
    }
    let sort = |v: &[String]| {
        let mut v = v.to_vec();
        v.sort();
        v
    };
    for (g, w) in [(&got.fatal, &want.fatal), (&got.nonfatal, &want.nonfatal)] {
        if sort(g) != sort(w) {
            return Err(format!("{what}: issues of {text:?}: {:?} instead of {:?}", sort(g), sort(w)));
        }
    }
    Ok(())
}

fn p18(c: &Case, obs: &mut Obs) -> Result<(), String> {
    let b = &c.input[..];
    let id = |l: Loc| l;
    let with = |n: u8| Opts { first_line: n, ..c.opts };
    let check = story(b, &with(1), 0, &id)?;
    let script = story(b, &with(2), 0, &id)?;
    compare("two ways to treat scripts differ", &script, &check, b)?;
    let (k, e) = lex::token(b, 0, lex::Mode::Normal);
    let (k2, e2) = lex::token(b, e, lex::Mode::Normal);
    if k != "Hash" || k2 != "Bang" {
        let plain = story(b, &with(0), 0, &id)?;
        compare("no #! line, but not parsed as usual", &check, &plain, b)?;
        obs.count("nothing to skip");
        obs.sig(&(0u8, k, k2, super::syntax::shape(&plain.forest)));
        return Ok(());
    }
    let mut d = e2;
    while d < b.len() {
        let (p, j, _) = crate::model::chars::src_at(b, d);
        d = j;
        if matches!(p, Pt::Ch('\n' | '\r') | Pt::Crlf) {
            break;
        }
    }
    let rest = &b[d..];
    let table = pos::table(b, &c.opts);
    let start = table[d].ok_or("no position")?;
    let mv = |l: Loc| {
        if c.opts.char_index {
            Loc(l.0 + start.0 - 1, 0)
        } else {
            // an end of input without newline leaves the column where it is
            Loc(l.0 + start.0 - 1, if l.0 == 1 { l.1 + start.1 - 1 } else { l.1 })
        }
    };
    let mut want = story(rest, &with(0), d, &mv)?;
    // what the skipped line itself gives rise to
    let line = run_cst(b, &with(1))?;
    let own = |i: &Issue| source_span(&i.src).map_or(false, |s| s[0] < start || (s[0] == start && i.tag.as_str() == "UnexpectedCarriageReturn"));
    let mut got = check;
    if line.fatal.len() < 10 {
        got.fatal = line.fatal.iter().filter(|i| !own(i)).map(key).collect();
    } else {
        got.fatal.clear();
        want.fatal.clear();
    }
    got.nonfatal = line.nonfatal.iter().filter(|i| !own(i)).map(key).collect();
    let carriage = |v: &mut Vec<String>| v.retain(|k| !(k.starts_with("UnexpectedCarriageReturn ") && k.contains(&format!("[{start:?}, {start:?}]"))));
    carriage(&mut want.nonfatal);
    for t in got.tracked.iter_mut() {
        t.retain(|l| *l >= start);
    }
    if std::str::from_utf8(&b[..d]).map_or(true, |s| s.contains('\u{feff}')) {
        got.flag = want.flag;
        got.toks = None;
        want.toks = None;
        // source that is not text is not cut back
        if recovered(&got.forest) {
            obs.count("skipped: not text, and left open");
            return Ok(());
        }
    }
    obs.add("issues moved", want.nonfatal.len() as u64);
    if super::relate::has_error(&want.forest) {
        obs.count("rest has errors");
    }
    compare("after a #! line", &got, &want, b)?;
    obs.count("first line skipped");
    obs.sig(&(1u8, d.min(20), start, super::syntax::shape(&want.forest)));
    obs.sample(|| format!("{:?}", lossy(b)));
    Ok(())
}
