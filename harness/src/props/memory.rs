//! Memory: what the calls read and write (judged by AddressSanitizer, when built with it), and what they keep.

use super::*;
use crate::runner::*;
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use super::syntax::shape;
use wolfram_parser::abstract_cst::aggregate_cst_seq;
use wolfram_parser::tokenize::TokenInput;

/// Counts what the current thread has allocated and not yet freed.
pub struct Counting;

thread_local! {
    static LIVE: Cell<i64> = const { Cell::new(0) };
    static PEAK: Cell<i64> = const { Cell::new(0) };
    static BLOCKS: Cell<u64> = const { Cell::new(0) };
}

fn change(by: i64) {
    let _ = LIVE.try_with(|l| {
        let n = l.get() + by;
        l.set(n);
        if by > 0 {
            let _ = BLOCKS.try_with(|b| b.set(b.get() + 1));
            let _ = PEAK.try_with(|p| p.set(p.get().max(n)));
        }
    });
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        change(l.size() as i64);
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        change(l.size() as i64);
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        change(-(l.size() as i64));
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        change(n as i64 - l.size() as i64);
        System.realloc(p, l, n)
    }
}

/// (bytes kept, most bytes in use at once, blocks allocated) by `f`.
fn measured(f: impl FnOnce()) -> (i64, i64, u64) {
    let (l, b) = (LIVE.with(|x| x.get()), BLOCKS.with(|x| x.get()));
    PEAK.with(|p| p.set(l));
    f();
    (LIVE.with(|x| x.get()) - l, PEAK.with(|x| x.get()) - l, BLOCKS.with(|x| x.get()) - b)
}

pub static P26: Prop = Prop {
    id: "P26",
    rule: "distinct (operation, tree shape) run with every access checked and every byte given back",
    assumptions: &[
        "accesses are checked by AddressSanitizer where coverage counts 'calls under AddressSanitizer'",
    ],
    sys_len: corpus_len,
    sys_case: |_, i| Case::new(gen::corpus()[i as usize].clone()).n(i),
    random: |r| {
        let b = match r.below(8) {
            0 => gen::bytes(r, 60),
            1 | 2 => any_input(r, 40),
            3 => {
                // cut anywhere
                let mut b = super::syntax::rnd_source(r);
                b.truncate(r.below(b.len() + 1));
                b
            },
            4 => gen::bytes(r, 8),
            5 => {
                // many of the same, so that what grows with the input shows
                let mut b = vec![];
                let unit = any_input(r, 6);
                for _ in 0..1 + r.below(30) {
                    b.extend_from_slice(&unit);
                }
                b
            },
            _ => super::syntax::rnd_source(r),
        };
        let o = rnd_opts(r, true);
        Case::new(b).opts(o).n(r.next())
    },
    check: p26,
    quick_n: 22_000,
    thorough_n: 2_500_000,
    need: &["trees used after the input was freed", "texts checked", "bytes allocated and given back", "parts of larger buffers"],
};

/// Every text a token gives must be valid.
fn valid_texts<I: TokenInput>(c: &cst::Cst<I>, obs: &mut Obs) -> Result<(), String> {
    let mut bad = None;
    let mut n = 0;
    c.visit(&mut |x: &cst::Cst<I>| {
        if let cst::Cst::Token(t) = x {
            n += 1;
            let b = t.input.as_bytes();
            if std::str::from_utf8(b).is_ok() && t.input.as_str().as_bytes() != b {
                bad = Some(gen::escape(b));
            }
        }
    });
    obs.add("texts checked", n);
    match bad {
        Some(b) => Err(format!("a token has the text {b} as bytes, and another as a string")),
        None => Ok(()),
    }
}

fn use_all(k: usize, b: &[u8], o: &Opts) {
    let p = o.make();
    match k {
        0 => drop(std::hint::black_box(parse_bytes_cst_seq(b, &p))),
        1 => drop(std::hint::black_box(parse_bytes_ast_seq(b, &p))),
        2 => drop(std::hint::black_box(tokenize_bytes(b, &p))),
        3 => drop(std::hint::black_box(parse_to_token(b, &p, StringifyMode::Tag))),
        4 => drop(std::hint::black_box(parse_to_token(b, &p, StringifyMode::File))),
        5 => drop(std::hint::black_box(safe_string(b, &p).map(|s| s.to_string()))),
        6 => {
            let r = parse_bytes_cst_seq(b, &p);
            drop(std::hint::black_box(aggregate_cst_seq(r.syntax)))
        },
        _ => {
            if let Ok(s) = std::str::from_utf8(b) {
                std::hint::black_box(iter::source_chars(s, &p).count());
                std::hint::black_box(iter::wolfram_chars(s, &p).count());
            }
        },
    }
}

fn p26(c: &Case, obs: &mut Obs) -> Result<(), String> {
    let mut r = Rng::new(c.n);
    // exactly as large as the input: a read beyond either end leaves the block
    let b: Box<[u8]> = c.input.clone().into_boxed_slice();
    let o = &c.opts;
    let asan = cfg!(asan);
    let first = r.below(8);
    for k in [first, (first + 1 + r.below(7)) % 8] {
        let mut kept = [0i64; 3];
        for i in 0..3 {
            let mut res = Ok(());
            let (keep, peak, blocks) = measured(|| res = call("an operation", b.len(), || use_all(k, &b, o)));
            res?;
            kept[i] = keep;
            obs.add("bytes allocated and given back", peak as u64);
            obs.max("max blocks in one call", blocks);
            obs.max("max bytes in use at once per byte of input", (peak as u64) / (b.len().max(64) as u64));
        }
        // what is kept from the first call may be a cache; what every further one keeps is lost
        if kept[1] > 0 && kept[2] > 0 {
            return Err(format!("operation {k} on the same input keeps {} bytes, then {} more, then {} more", kept[0], kept[1], kept[2]));
        }
        if asan {
            obs.add("calls under AddressSanitizer", 3);
        }
    }
    // a part of a larger block: as the block ends
    if r.chance(1, 2) {
        let mut v = vec![b'a'; r.below(20)];
        let at = v.len();
        v.extend_from_slice(&b);
        let v = v.into_boxed_slice();
        call("an operation", b.len(), || use_all(r.below(8), &v[at..], o))?;
        obs.count("parts of larger buffers");
    }
    // results that own their text outlive the input
    let (tree, ast) = call("parse_bytes_cst_seq and into_owned_input", b.len(), || {
        let a = parse_bytes_ast_seq(&b, &o.make());
        (parse_bytes_cst_seq(&b, &o.make()).syntax.0.into_iter().map(|c| c.into_owned_input()).collect::<Vec<_>>(), a)
    })?;
    let borrowed: Vec<String> = call("parse_bytes_cst_seq", b.len(), || {
        let s = parse_bytes_cst_seq(&b, &o.make()).syntax;
        s.0.iter().map(|c| {
            let mut t = vec![];
            c.visit(&mut |x: &cst::Cst<_>| {
                if let cst::Cst::Token(k) = x {
                    t.push(gen::escape(k.input.as_bytes()));
                }
            });
            t.join(" ")
        }).collect()
    })?;
    drop(b);
    // the freed block is likely to be given out again
    let fill: Box<[u8]> = vec![0xAAu8; c.input.len()].into_boxed_slice();
    let owned: Vec<String> = tree.iter().map(|c| {
        let mut t = vec![];
        c.visit(&mut |x: &cst::Cst<_>| {
            if let cst::Cst::Token(k) = x {
                t.push(gen::escape(k.input.as_bytes()));
            }
        });
        t.join(" ")
    }).collect();
    drop(std::hint::black_box(fill));
    if owned != borrowed {
        return Err(format!("the texts of an owned tree are {owned:?}, of the tree it was made from {borrowed:?}"));
    }
    for t in &tree {
        valid_texts(t, obs)?;
    }
    std::hint::black_box(format!("{:?} {:?}", ast.syntax, ast.non_fatal_issues).len());
    obs.count("trees used after the input was freed");
    let f = forest(&c.input, &parse_bytes_cst_seq(&c.input, &o.make()).syntax);
    if !f.is_empty() {
        obs.sig(&shape(&f));
        obs.sample(|| gen::escape(&c.input));
    }
    Ok(())
}
