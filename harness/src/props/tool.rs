//! P27: the command line tool.

use super::*;
use crate::gen;
use crate::props::syntax::rnd_source;
use crate::runner::{Case, Obs, Prop};
use std::io::{Read, Write};
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicU64, Ordering};
use wolfram_parser::fmt_as_expr::FmtAsExpr;

pub static P27: Prop = Prop {
    id: "P27",
    rule: "distinct pairs of arguments and output shapes of the tool that were compared with the library",
    assumptions: &["the tool is built from crates/wolfram-parser/src/bin/main.rs by the harness", "what it has to print is computed with the same library in process (the library's own answers are the subject of the other properties)"],
    sys_len: |_| (gen::corpus().len() + SETS.len() * EDGE.len()) as u64,
    sys_case: |_, i| {
        let i = i as usize;
        let k = gen::corpus().len();
        if i < k {
            return Case::new(gen::corpus()[i].clone()).aux(SETS[i % SETS.len()]);
        }
        Case::new(EDGE[(i - k) / SETS.len()]).aux(SETS[(i - k) % SETS.len()])
    },
    random: |r| {
        let a = *r.pick(SETS);
        let mut b = if r.chance(1, 4) {
            any_input(r, 30)
        } else if a.starts_with("stdin") {
            let mut b = vec![];
            for _ in 0..r.below(5) {
                b.extend(if r.chance(1, 2) { rnd_source(r) } else { gen::text(r, 12) });
                b.extend(r.pick(&["\n", "\n", "\r\n", " \n", "\n\n", ""]).bytes());
            }
            b
        } else {
            rnd_source(r)
        };
        // dumps of deep trees take long: every line is indented at every level
        if b.len() > 200 && (a.contains("--cst") || a.contains("--ast")) {
            b.truncate(200);
        }
        Case::new(b).aux(a)
    },
    check: p27,
    quick_n: 8_000,
    thorough_n: 150_000,
    need: &["printed", "refused", "quiet", "lines answered"],
};

const SETS: &[&str] = &[
    "", "--cst", "--ast", "-tokenize", "-leaf", "-safestring", "--ast --flatten-times", "--flatten-times --ast", "-n", "--ast -n", "-n -tokenize", "-check", "--ast -syntaxq", "-syntaxQ -leaf", "--cst --ast", "-tokenize -leaf", "-leaf --cst", "--flatten-times", "-tokenize --flatten-times",
    "stdin", "stdin --ast", "stdin -tokenize", "stdin --cst", "stdin -leaf", "stdin -safestring", "stdin --flatten-times --ast", "stdin -n", "-safestring -check", "--ast -tokenize -safestring",
    "twice", "twice --ast", "twice --cst -check", "--ast --ast", "--flatten-times --flatten-times --ast", "-file2", "--flatten_times", "-N", "--AST --ast",
];
const EDGE: &[&str] = &["", "\n", "a", "a\n", "  a  \n", "a\r\nb", "a/b/c\n-a/b", "\u{feff}a", "\"\u{e9}\"", "f[", "(*", "a\tb", "#!x\n1", "\\[Alpha]", "a@b+c", "a@@@b", "\\", "\u{0}", "x\u{a0}", "x \u{2003}\n y", "1\n2\n3\n"];

/// What the tool has to print for one input, or nothing if the library refuses it or cannot print it.
fn answer(b: &[u8], args: &[&str]) -> Option<String> {
    let mut mode = "";
    let mut print = true;
    let mut o = Opts::DEFAULT;
    for a in args {
        match *a {
            "-n" | "-check" | "-syntaxq" | "-syntaxQ" => print = false,
            "--flatten-times" => o.flatten_times = true,
            "-tokenize" | "-leaf" | "-safestring" | "--cst" | "--ast" => mode = *a,
            // not an argument of the tool
            _ => return None,
        }
    }
    let o = o.make();
    let n = b.len();
    let s = |f: &mut dyn FnMut() -> Option<String>| -> Option<String> { call("library", n, || f()).ok().flatten() };
    // without output nothing is printed, so a refusal to print does not show
    let show = |f: &dyn Fn() -> String| if print { f() } else { String::new() };
    let r = match mode {
        "-tokenize" => s(&mut || tokenize_bytes(b, &o).ok().map(|t| show(&|| FmtAsExpr(&t).to_string())))?,
        "-leaf" => s(&mut || Some(parse_to_token(b, &o, StringifyMode::Normal)).map(|t| show(&|| FmtAsExpr(&t.syntax).to_string())))?,
        "-safestring" => s(&mut || safe_string(b, &o).ok().map(|t| show(&|| t.to_string())))?,
        "--cst" => s(&mut || Some(format!("{:#?}", parse_bytes_cst_seq(b, &o).syntax)))?,
        "--ast" => s(&mut || Some(format!("{:#?}", parse_bytes_ast_seq(b, &o).syntax)))?,
        _ => s(&mut || Some(parse_bytes_cst_seq(b, &o)).map(|t| show(&|| FmtAsExpr(&t.syntax).to_string())))?,
    };
    Some(if print { r + "\n" } else { String::new() })
}

static COUNT: AtomicU64 = AtomicU64::new(0);

fn p27(c: &Case, obs: &mut Obs) -> Result<(), String> {
    let all: Vec<&str> = std::str::from_utf8(&c.aux).unwrap_or("").split_whitespace().collect();
    let stdin = all.first() == Some(&"stdin");
    let twice = all.first() == Some(&"twice");
    let args: Vec<&str> = all.iter().filter(|a| !matches!(**a, "stdin" | "twice")).copied().collect();
    // a line that is not text cannot be read from the terminal
    if stdin && std::str::from_utf8(&c.input).is_err() {
        return Ok(());
    }
    let mut want = String::new();
    let mut good = true;
    if stdin {
        for line in std::str::from_utf8(&c.input).unwrap().split_inclusive('\n') {
            want.push_str(">>> ");
            match answer(line.trim_end().as_bytes(), &args) {
                Some(a) => want.push_str(&a),
                None => {
                    good = false;
                    break;
                },
            }
            obs.count("lines answered");
        }
        if good {
            want.push_str(">>> ");
        }
    } else {
        match answer(&c.input, &args) {
            Some(a) => want = a,
            None => good = false,
        }
    }

    let dir = std::env::temp_dir().join(format!("wpv-cli-{}-{}", std::process::id(), COUNT.fetch_add(1, Ordering::SeqCst)));
    let exe = std::env::current_exe().expect("own path").with_file_name("cli");
    std::fs::create_dir_all(&dir).expect("scratch directory");
    let file = dir.join("in.wl");
    std::fs::write(&file, &c.input).expect("scratch file");
    if twice {
        std::fs::write(dir.join("other.wl"), "otherfile[]").expect("scratch file");
    }
    let mut cmd = Command::new(&exe);
    // of two files the last one named counts
    if twice {
        cmd.arg("-file").arg("other.wl");
    }
    cmd.args(&args).current_dir(&dir).env("RUST_BACKTRACE", "0").stdout(Stdio::piped()).stderr(Stdio::null());
    if stdin {
        cmd.stdin(std::fs::File::open(&file).expect("scratch file"));
    } else {
        cmd.stdin(Stdio::null());
        // the file can be named anywhere among the arguments
        if twice || c.input.len() % 2 == 0 {
            cmd.arg("-file").arg("in.wl");
        } else {
            cmd = Command::new(&exe);
            cmd.arg("-file").arg(&file).args(&args).current_dir(&dir).env("RUST_BACKTRACE", "0").stdin(Stdio::null()).stdout(Stdio::piped()).stderr(Stdio::null());
        }
    }
    let mut child = cmd.spawn().expect("the tool starts");
    let mut got = vec![];
    let cap = want.len() + if good { 4096 } else { 50_000_000 };
    // read no more than could be due: a tool that goes on printing is stopped there
    let _ = child.stdout.take().unwrap().take(cap as u64).read_to_end(&mut got);
    let over = got.len() == cap;
    if over {
        let _ = child.kill();
    }
    let st = child.wait().expect("the tool ends");
    let after = std::fs::read(&file).ok();
    let files = std::fs::read_dir(&dir).map(|d| d.count()).unwrap_or(0);
    let _ = std::fs::remove_dir_all(&dir);
    let _ = std::io::stdout().flush();

    if over || got != want.as_bytes() {
        // the tool may have begun to print what it then cannot print
        if good || over || !(want.as_bytes().starts_with(&got) || got.starts_with(want.as_bytes())) {
            return Err(format!("the tool with {all:?} prints {:?} where {:?} is due", lossy(&got[..got.len().min(600)]), &want.chars().take(600).collect::<String>()));
        }
    }
    if good != st.success() {
        return Err(format!("the tool with {all:?} ends with {st}, but the library {}", if good { "answers" } else { "refuses this input" }));
    }
    if after.as_deref() != Some(&c.input[..]) || files != 1 + usize::from(twice) {
        return Err("the tool changed the file it was given, or left another one".into());
    }
    obs.count(match (good, want.is_empty()) {
        (false, _) => "refused",
        (true, true) => "quiet",
        _ => "printed",
    });
    let shape: String = want.chars().filter(|c| c.is_ascii_uppercase() || "[]{},".contains(*c)).take(400).collect();
    obs.sig(&(&c.aux, shape));
    obs.sample(|| format!("{all:?} {:?}", lossy(&c.input)));
    Ok(())
}

fn lossy(b: &[u8]) -> String {
    String::from_utf8_lossy(b).into_owned()
}
