//! Totality, losslessness, positions, tree coverage, encoding.

use super::*;
use crate::model::chars::*;
use crate::model::pos;
use crate::runner::*;
use wolfram_parser::cst::*;
use wolfram_parser::tokenize::TokenStr;

// ---- P01 totality ------------------------------------------------------------------------

pub static P01: Prop = Prop {
    id: "P01",
    rule: "distinct (shape of the tokens, options) of inputs on which every entry point returned",
    assumptions: &["stack of 512 MB per thread; nesting up to 1500 levels", "tab width at least 1"],
    sys_len: p01_len,
    sys_case: p01_case,
    random: p01_random,
    check: p01,
    quick_n: 60_000,
    thorough_n: 2_000_000,
    need: &["calls"],
};

/// Stress shapes: repeated and nested patterns, which show super-linear work and deep recursion.
const STRESS: &[(&str, &str, &str)] = &[
    ("(", "a", ")"), ("f[", "a", "]"), ("{", "a", "}"), ("<|", "a", "|>"), ("f[[", "1", "]]"), ("(", "a", ""), ("f[", "a", ""), ("{", "a", ""), ("[", "", ""),
    ("(*", "c", "*)"), ("(*", "c", ""), ("", "\"", ""), ("a+", "a", ""), ("a^", "a", ""), ("-", "a", ""), ("a/", "b", ""), ("a;", "a", ""), ("a;;", "a", ""),
    (";;", "", ""), ("a,", "a", ""), (",", "", ""), ("a~f~", "a", ""), ("a::b", "", "::c"), ("", "a", "'"), ("", "a", "[x]"), ("", "a", "&"), ("!", "a", ""),
    ("", "", "]"), ("", "", ")"), ("a\n", "", ""), ("a_:b:", "c", ""), ("a:b:", "c", ""), ("x/:y=", "z", ""), ("a=", "b", ""), ("a=b;\n", "", ""), ("f[a\n", "", ""),
    ("\\[Integral]", "x", "\\[DifferentialD]y"), ("\\(", "", "\\)"), ("\\(", "", ""), ("%", "", ""), ("#", "", ""), ("_", "", ""), ("a`", "b", ""), ("1", "", ""), ("1.", "", ""),
    ("1^^", "", ""), ("\\", "", ""), ("\\\n", "", ""), ("\\[", "", ""), (" ", "", ""), ("\t", "", ""), ("\r", "", ""), ("\r\n", "", ""), ("(* *)", "", ""), ("a(*", "", "*)"), ("<<", "a", ""),
    ("a>>", "b", ""), ("a b ", "", ""), ("a<b>", "c", ""), ("@", "", ""), ("{{", "", "}"), ("({[", "", ""), ("([", "", ")]"), ("a?", "b", ""), ("a->", "b", ""), ("\"a\"", "", ""), ("\"", "", "\""),
    ("a//", "b", ""), ("\\[LeftCeiling]", "", ""), ("(\n", "", ""), ("f[\n\n", "", ""), ("a = f[\n", "", ""), ("#1+", "#", "&"), ("\u{feff}", "", ""), ("|->", "", ""),
];

fn sizes(thorough: bool) -> &'static [usize] {
    if thorough { &[1, 2, 3, 7, 20, 60, 200, 600, 1500] } else { &[1, 2, 3, 7, 20, 60, 200, 500] }
}

fn p01_len(th: bool) -> u64 {
    (STRESS.len() * sizes(th).len() * 2 + gen::corpus().len()) as u64
}

fn p01_case(th: bool, i: u64) -> Case {
    let i = i as usize;
    let z = sizes(th);
    if i >= STRESS.len() * z.len() * 2 {
        return Case::new(gen::corpus()[i - STRESS.len() * z.len() * 2].clone());
    }
    let (a, m, e) = STRESS[i / 2 / z.len()];
    let n = z[i / 2 % z.len()];
    let s = format!("{}{}{}", a.repeat(n), m, e.repeat(n));
    let mut o = Opts::DEFAULT;
    if i % 2 == 1 {
        o = Opts { char_index: true, boxed: true, infix_at: false, flatten_times: true, old_at3: true, ..o };
    }
    Case::new(s).opts(o)
}

fn p01_random(r: &mut Rng) -> Case {
    let o = rnd_opts(r, true);
    let max = if r.chance(1, 20) { 300 } else { 40 };
    Case::new(any_input(r, max)).opts(o)
}

/// Work allowed for an input of n bytes, in decoded source characters. Measured on the unchanged tree:
/// about 30 n on ordinary text; unterminated groups re-tokenize and cost up to about n^2.
fn p01(c: &Case, obs: &mut Obs) -> Result<(), String> {
    let b = &c.input[..];
    let o = c.opts.make();
    let n = b.len();
    let mut shape = vec![];
    let steps = |what: &'static str, obs: &mut Obs| -> Result<(), String> {
        let s = verif_hooks::steps();
        obs.count("calls");
        obs.max("max source characters decoded in one call", s);
        let limit = work_limit(n);
        if s > limit {
            return Err(format!("{what} decoded {s} source characters for an input of {n} bytes (limit {limit})"));
        }
        if n >= 64 {
            obs.max("max decoded per 1000 input bytes", s * 1000 / n as u64);
        }
        Ok(())
    };
    if let Ok(s) = std::str::from_utf8(b) {
        call("tokenize", n, || tokenize(s, &o).0.len())?;
        steps("tokenize", obs)?;
        let k = call("iter::source_chars", n, || iter::source_chars(s, &o).count())?;
        steps("iter::source_chars", obs)?;
        let k2 = call("iter::wolfram_chars", n, || iter::wolfram_chars(s, &o).count())?;
        steps("iter::wolfram_chars", obs)?;
        let k3 = call("iter::tokens", n, || iter::tokens(s, &o).count())?;
        steps("iter::tokens", obs)?;
        if k > n || k2 > n || k3 > n {
            return Err(format!("more items than bytes: {k} {k2} {k3} for {n}"));
        }
    }
    call("tokenize_bytes", n, || tokenize_bytes(b, &o).is_ok())?;
    steps("tokenize_bytes", obs)?;
    call("parse_bytes_cst_seq", n, || {
        let r = parse_bytes_cst_seq(b, &o);
        r.syntax.visit(&mut |x| shape.push(std::mem::discriminant(x)));
        drop(r);
    })?;
    steps("parse_bytes_cst_seq", obs)?;
    call("parse_bytes_ast_seq", n, || parse_bytes_ast_seq(b, &o).syntax.0.len())?;
    steps("parse_bytes_ast_seq", obs)?;
    for m in 0..3 {
        call("parse_to_token", n, || {
            parse_to_token(b, &o, [StringifyMode::Normal, StringifyMode::Tag, StringifyMode::File].into_iter().nth(m).unwrap()).syntax.0.len()
        })?;
        steps("parse_to_token", obs)?;
    }
    call("safe_string", n, || safe_string(b, &o).is_ok())?;
    steps("safe_string", obs)?;
    obs.sig(&(shape, c.opts.show()));
    Ok(())
}

fn work_limit(n: usize) -> u64 {
    let n = n as u64;
    2_000 * (n + 10) + 40 * n * n
}

// ---- P02 losslessness -----------------------------------------------------------------------

pub static P02: Prop = Prop {
    id: "P02",
    rule: "distinct sequences of token kinds whose texts were reassembled into the input",
    assumptions: &["first-line handling off"],
    sys_len: corpus_len,
    sys_case: corpus_case,
    random: rnd_bytes,
    check: p02,
    quick_n: 250_000,
    thorough_n: 6_000_000,
    need: &["tokens", "unterminated tokens", "unsafe inputs"],
};

fn p02(c: &Case, obs: &mut Obs) -> Result<(), String> {
    let b = &c.input[..];
    let o = c.opts.make();
    let mut lists: Vec<(&'static str, Vec<Tok>)> = vec![];
    match run_tokens(b, &c.opts)? {
        Some(t) => lists.push(("tokenize_bytes", t)),
        None => obs.count("unsafe inputs"),
    }
    if let Ok(s) = std::str::from_utf8(b) {
        lists.push(("tokenize", call("tokenize", b.len(), || toks(b, &tokenize(s, &o)))?));
        lists.push(("iter::tokens", call("iter::tokens", b.len(), || iter::tokens(s, &o).map(|t| tok(b, &t)).collect())?));
    }
    for (what, ts) in &lists {
        let mut at = 0;
        let mut cut = false;
        for (i, t) in ts.iter().enumerate() {
            if t.s == usize::MAX {
                return Err(format!("{what}: the text of {t:?} is not part of the input"));
            }
            if t.s != at {
                return Err(format!("{what}: token {i} {t:?} starts at byte {} but the previous one ended at {at}", t.s));
            }
            if t.e <= t.s {
                return Err(format!("{what}: token {i} {t:?} is empty"));
            }
            if unterminated(t.kind) {
                obs.count("unterminated tokens");
                if i + 1 != ts.len() {
                    return Err(format!("{what}: unterminated token {t:?} is not the last token"));
                }
                cut = true;
            }
            at = t.e;
        }
        obs.add("tokens", ts.len() as u64);
        if at != b.len() && !cut && !only_continuations(b, at) {
            return Err(format!("{what}: the tokens end at byte {at} of {}", b.len()));
        }
        obs.sig(&ts.iter().map(|t| t.kind).collect::<Vec<_>>());
        obs.sample(|| format!("{:?} -> {:?}", String::from_utf8_lossy(b), ts.iter().map(|t| (t.kind, t.s, t.e)).collect::<Vec<_>>()));
    }
    Ok(())
}

// ---- P03 positions ------------------------------------------------------------------------------

pub static P03: Prop = Prop {
    id: "P03",
    rule: "distinct (token kinds with their locations, convention, tab width) compared with the position model",
    assumptions: &["tab width at least 1", "the end of an unterminated token is decided by P22"],
    sys_len: p03_len,
    sys_case: p03_case,
    random: p03_random,
    check: p03,
    quick_n: 250_000,
    thorough_n: 6_000_000,
    need: &["token locations", "leaf locations", "tabs", "line breaks"],
};

fn p03_len(th: bool) -> u64 {
    corpus_len(th) * 2
}
fn p03_case(th: bool, i: u64) -> Case {
    let mut c = corpus_case(th, i / 2);
    c.opts.char_index = i % 2 == 1;
    c
}

fn p03_random(r: &mut Rng) -> Case {
    let mut o = rnd_opts(r, true);
    o.tab = *r.pick(&[1, 2, 3, 4, 4, 5, 7, 8, 8, 13, 100]);
    o.char_index = r.chance(2, 5);
    let mut b = any_input(r, 40);
    if r.chance(1, 2) {
        // sprinkle the characters that move positions in special ways
        for _ in 0..r.range(1, 6) {
            let t = std::str::from_utf8(&b).map(|s| s.char_indices().map(|x| x.0).collect::<Vec<_>>()).unwrap_or_default();
            let k = if t.is_empty() { r.below(b.len() + 1) } else { *r.pick(&t) };
            let x: &[u8] = *r.pick(&[&b"\t"[..], b"\t\t", b"\n", b"\r\n", b"\r", b"\\\n", b"\\\r\n", b"\"\t", b"(*\t*)", b"(*\n*)", "é".as_bytes(), "\u{1f600}".as_bytes(), b"\xff", b"\\[Alpha]", b"\\\t"]);
            b.splice(k..k, x.iter().copied());
        }
    }
    Case::new(b).opts(o)
}

fn p03(c: &Case, obs: &mut Obs) -> Result<(), String> {
    let b = &c.input[..];
    let want = pos::table(b, &c.opts);
    if b.contains(&b'\t') {
        obs.count("tabs");
    }
    if b.contains(&b'\n') || b.contains(&b'\r') {
        obs.count("line breaks");
    }
    let check = |what: &str, t: &Tok| -> Result<(), String> {
        if t.s == usize::MAX {
            return Err(format!("{what}: text of {t:?} is not part of the input"));
        }
        let s = want[t.s].ok_or_else(|| format!("{what}: {t:?} starts inside a character"))?;
        if t.span[0] != s {
            return Err(format!("{what}: {t:?} starts at byte {}, which is {s:?}", t.s));
        }
        if !unterminated(t.kind) {
            let e = want[t.e].ok_or_else(|| format!("{what}: {t:?} ends inside a character"))?;
            if t.span[1] != e {
                return Err(format!("{what}: {t:?} ends at byte {}, which is {e:?}", t.e));
            }
        }
        Ok(())
    };
    if let Some(ts) = run_tokens(b, &c.opts)? {
        for t in &ts {
            check("tokenize_bytes", t)?;
        }
        obs.add("token locations", ts.len() as u64);
        obs.sig(&(ts.iter().map(|t| (t.kind, t.span)).collect::<Vec<_>>(), c.opts.char_index, c.opts.tab));
        obs.sample(|| format!("{:?} {} -> {:?}", String::from_utf8_lossy(b), c.opts.show(), ts.iter().map(|t| t.span).collect::<Vec<_>>()));
    }
    if let Ok(s) = std::str::from_utf8(b) {
        let ts: Vec<Tok> = call("iter::tokens", b.len(), || iter::tokens(s, &c.opts.make()).map(|t| tok(b, &t)).collect())?;
        for t in &ts {
            check("iter::tokens", t)?;
        }
    }
    let r = run_cst(b, &c.opts)?;
    let mut leaves = vec![];
    r.forest.iter().for_each(|t| t.leaves(&mut leaves));
    for t in &leaves {
        check("parse_bytes_cst_seq", t)?;
    }
    obs.add("leaf locations", leaves.len() as u64);
    Ok(())
}

// ---- P04 the tree covers the source exactly once ---------------------------------------------------

pub static P04: Prop = Prop {
    id: "P04",
    rule: "distinct tree shapes whose leaves were matched with the source text",
    assumptions: &["first-line handling off", "what recovery of an unclosed group at the end of the input drops is decided by P22"],
    sys_len: corpus_len,
    sys_case: corpus_case,
    random: rnd_bytes,
    check: p04,
    quick_n: 250_000,
    thorough_n: 6_000_000,
    need: &["leaves", "inner nodes", "recovered inputs"],
};

fn shape(t: &Tree, out: &mut Vec<(&'static str, &'static str)>) {
    match t {
        Tree::Leaf(t) => out.push((t.kind, "")),
        Tree::Node { class, op, ch } => {
            out.push((class, op));
            ch.iter().for_each(|c| shape(c, out));
            out.push(("", ""));
        },
    }
}

fn p04(c: &Case, obs: &mut Obs) -> Result<(), String> {
    let b = &c.input[..];
    let o = c.opts.make();
    let res = call("parse_bytes_cst_seq", b.len(), || parse_bytes_cst_seq(b, &o))?;
    let f = forest(b, &res.syntax);
    let mut leaves = vec![];
    f.iter().for_each(|t| t.leaves(&mut leaves));
    let rec = recovered(&f);
    let mut at = 0;
    for (i, t) in leaves.iter().enumerate() {
        if t.s == usize::MAX {
            return Err(format!("the text of leaf {t:?} is not part of the input"));
        }
        if t.s != at {
            return Err(format!("leaf {i} {t:?} starts at byte {} but the leaves so far end at {at}: {}", t.s, show_forest(b, &f)));
        }
        at = t.e;
    }
    if at != b.len() && !rec && !only_continuations(b, at) {
        return Err(format!("the leaves end at byte {at} of {}: {}", b.len(), show_forest(b, &f)));
    }
    // every inner node reports the span from its first to its last leaf, and has at least one child
    let mut err = None;
    let mut inner = 0u64;
    call("CstSeq::visit", b.len(), || {
        res.syntax.visit(&mut |n| {
            if matches!(n, Cst::Token(_)) {
                return;
            }
            inner += 1;
            let t = tree(b, n);
            let mut l = vec![];
            t.leaves(&mut l);
            if l.is_empty() {
                err = Some(format!("a node without leaves: {}", t.show(b)));
                return;
            }
            let want = [l[0].span[0], l[l.len() - 1].span[1]];
            let got = span(n.get_source());
            if got != want {
                err = Some(format!("node {} reports {got:?}; its leaves span {want:?}", t.show(b)));
            }
        })
    })?;
    if let Some(e) = err {
        return Err(e);
    }
    obs.add("leaves", leaves.len() as u64);
    obs.add("inner nodes", inner);
    if rec {
        obs.count("recovered inputs");
    }
    let mut sh = vec![];
    f.iter().for_each(|t| shape(t, &mut sh));
    obs.sig(&sh);
    obs.sample(|| format!("{:?} -> {}", String::from_utf8_lossy(b), show_forest(b, &f)));
    let _: Option<TokenStr> = None;
    Ok(())
}

// ---- P05 encoding ----------------------------------------------------------------------------------

pub static P05: Prop = Prop {
    id: "P05",
    rule: "distinct sequences of unsafe sequences, and safe inputs with distinct characters",
    assumptions: &["reference decoder: UTF-8 per the Unicode standard with maximal-subpart replacement"],
    sys_len: p05_len,
    sys_case: p05_case,
    random: p05_random,
    check: p05,
    quick_n: 250_000,
    thorough_n: 6_000_000,
    need: &["unsafe: incomplete", "unsafe: surrogate", "unsafe: byte order mark", "safe inputs"],
};

/// 1- and 2-byte strings completely, all 3-byte strings with lead bytes in the interesting set, 4-byte boundaries.
const EDGE: &[u8] = &[0x00, 0x22, 0x41, 0x7f, 0x80, 0x8f, 0x90, 0x9f, 0xa0, 0xbb, 0xbf, 0xc0, 0xc1, 0xc2, 0xdf, 0xe0, 0xe1, 0xec, 0xed, 0xee, 0xef, 0xf0, 0xf1, 0xf3, 0xf4, 0xf5, 0xff];
fn p05_len(_: bool) -> u64 {
    let e = EDGE.len() as u64;
    256 + 65536 + e * e * e + 14 * e * e * e
}
fn p05_case(_: bool, i: u64) -> Case {
    let e = EDGE.len() as u64;
    let v = if i < 256 {
        vec![i as u8]
    } else if i < 256 + 65536 {
        let i = i - 256;
        vec![(i >> 8) as u8, i as u8]
    } else if i < 256 + 65536 + e * e * e {
        let i = i - 256 - 65536;
        vec![EDGE[(i / e / e) as usize], EDGE[(i / e % e) as usize], EDGE[(i % e) as usize]]
    } else {
        let i = i - 256 - 65536 - e * e * e;
        let lead = [0xe0, 0xe1, 0xec, 0xed, 0xee, 0xef, 0xf0, 0xf1, 0xf3, 0xf4, 0xf5, 0xdf, 0xc2, 0xff][(i / e / e / e) as usize];
        vec![lead, EDGE[(i / e / e % e) as usize], EDGE[(i / e % e) as usize], EDGE[(i % e) as usize]]
    };
    Case::new(v)
}

fn p05_random(r: &mut Rng) -> Case {
    let o = rnd_opts(r, false);
    let b = match r.below(5) {
        0..=2 => gen::bytes(r, 30),
        3 => {
            let n = r.range(1, 12);
            (0..n).map(|_| if r.chance(2, 3) { *r.pick(EDGE) } else { r.next() as u8 }).collect()
        },
        _ => gen::text(r, 30),
    };
    Case::new(b).opts(o)
}

fn p05(c: &Case, obs: &mut Obs) -> Result<(), String> {
    let b = &c.input[..];
    let o = c.opts.make();
    // model
    let mut bad = vec![];
    let mut chars = 0u64;
    let mut i = 0;
    while i < b.len() {
        let (_, j, e) = src_at(b, i);
        if let Some(e) = e {
            bad.push((e, i, j));
        }
        chars += 1;
        i = j;
    }
    let name = |b: Bad| match b {
        Bad::Incomplete => UnsafeCharacterEncoding::IncompleteUTF8Sequence,
        Bad::Surrogate => UnsafeCharacterEncoding::StraySurrogate,
        Bad::Bom => UnsafeCharacterEncoding::BOM,
    };
    for (e, _, _) in &bad {
        obs.count(match e {
            Bad::Incomplete => "unsafe: incomplete",
            Bad::Surrogate => "unsafe: surrogate",
            Bad::Bom => "unsafe: byte order mark",
        });
    }
    // cross-check of the model with the standard library's decoder
    let std_ok = std::str::from_utf8(b).is_ok();
    if std_ok != bad.iter().all(|x| x.0 == Bad::Bom) {
        panic!("model decoder disagrees with std on {b:x?}");
    }
    // safe_string: the text itself, or the kind of the last unsafe sequence
    let got = call("safe_string", b.len(), || safe_string(b, &o).map(|s| (s.as_ptr() as usize, s.len())))?;
    match (got, bad.last()) {
        (Ok((p, n)), None) => {
            if p != b.as_ptr() as usize || n != b.len() {
                return Err("safe_string returned something else than the input".into());
            }
        },
        (Err(f), Some((e, _, _))) => {
            if !bad.iter().any(|x| name(x.0) == f) {
                return Err(format!("safe_string reports {f:?}; unsafe sequences present: {bad:?} (last {e:?})"));
            }
        },
        (g, _) => return Err(format!("safe_string: {:?}, but the unsafe sequences are {bad:?}", g.map(|_| "safe"))),
    }
    // tokenize_bytes and the parsers report unsafe input, with a kind that is present
    let t = call("tokenize_bytes", b.len(), || tokenize_bytes(b, &o).map(|_| ()))?;
    let p = call("parse_bytes_cst_seq", b.len(), || parse_bytes_cst_seq(b, &o))?;
    let a = call("parse_bytes_ast_seq", b.len(), || parse_bytes_ast_seq(b, &o).unsafe_character_encoding)?;
    for (what, f) in [("tokenize_bytes", t.err()), ("parse_bytes_cst_seq", p.unsafe_character_encoding), ("parse_bytes_ast_seq", a)] {
        match f {
            None if bad.is_empty() => {},
            Some(f) if bad.iter().any(|x| name(x.0) == f) => {},
            _ => return Err(format!("{what} reports {f:?}; unsafe sequences present: {bad:?}")),
        }
    }
    // leaves: each unsafe sequence lies in some leaf, and outside comments, strings and the like
    // it is a leaf of its own
    let f = forest(b, &p.syntax);
    if !recovered(&f) {
        let mut leaves = vec![];
        f.iter().for_each(|t| t.leaves(&mut leaves));
        for l in &leaves {
            if l.kind == "Error_UnsafeCharacterEncoding" && !bad.iter().any(|(_, s, e)| *e == l.e && *s >= l.s && continuations(b, l.s, *s)) {
                return Err(format!("leaf {l:?} is marked unsafe; unsafe sequences: {bad:?}"));
            }
        }
    }
    // decoded characters one by one
    if let Ok(s) = std::str::from_utf8(b) {
        let got: Vec<source::SourceCharacter> = call("iter::source_chars", b.len(), || iter::source_chars(s, &o).collect())?;
        if got.len() as u64 != chars {
            return Err(format!("iter::source_chars yields {} characters, the model {chars}", got.len()));
        }
        let mut i = 0;
        for g in &got {
            let (w, j, _) = src_at(b, i);
            if !same_point(*g, w) {
                return Err(format!("iter::source_chars at byte {i}: {g:?}, the model says {w:?}"));
            }
            i = j;
        }
    }
    if bad.is_empty() {
        obs.count("safe inputs");
        if !b.is_ascii() {
            obs.sig(&b);
        }
    } else {
        obs.sig(&bad);
        obs.sample(|| format!("{b:x?} -> {bad:?}"));
    }
    Ok(())
}

pub fn same_point(g: source::SourceCharacter, w: Pt) -> bool {
    use source::SourceCharacter as P;
    match (g, w) {
        (P::Char(a), Pt::Ch(b)) => a == b,
        (P::EndOfFile, Pt::Eof) => true,
        (P::CRLF, Pt::Crlf) => true,
        (P::Unsafe1ByteUtf8Sequence, Pt::Unsafe(1)) => true,
        (P::Unsafe2ByteUtf8Sequence, Pt::Unsafe(2)) => true,
        (P::Unsafe3ByteUtf8Sequence, Pt::Unsafe(3)) => true,
        (P::LinearSyntax_Space, Pt::LinearSpace) => true,
        (P::LineContinuation_LineFeed, Pt::Lc('n')) => true,
        (P::LineContinuation_CarriageReturn, Pt::Lc('r')) => true,
        (P::LineContinuation_CRLF, Pt::Lc('w')) => true,
        (P::StringMeta_DoubleQuote, Pt::Meta('"')) => true,
        (P::StringMeta_Backslash, Pt::Meta('\\')) => true,
        (P::StringMeta_Open, Pt::Meta('<')) => true,
        (P::StringMeta_Close, Pt::Meta('>')) => true,
        (P::StringMeta_Backspace, Pt::Meta('b')) => true,
        (P::StringMeta_FormFeed, Pt::Meta('f')) => true,
        (P::StringMeta_LineFeed, Pt::Meta('n')) => true,
        (P::StringMeta_CarriageReturn, Pt::Meta('r')) => true,
        (P::StringMeta_Tab, Pt::Meta('t')) => true,
        _ => false,
    }
}
