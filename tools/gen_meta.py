#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table."""
import json, os
W = "crates/wolfram-parser/src/"
HOOKS = ["f415199"]
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe, technique, note, hook=None):
    assert len(title) <= 80, title
    for _f in files + [b for _, b in mech]:
        assert _f.startswith("/") or os.path.exists("/repo/" + W + _f), _f
    P.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=[W + f if not f.startswith("/") else f[1:] for f in files],
                  mech=[dict(name=a, where=W + b) for a, b in mech], observe=observe, technique=technique, note=note, hook=hook))

EXPL = "Exploration: every observed execution is judged by the oracle; inputs not generated are not covered. "

p("P01", "Every input is handled: no panic, no crash, bounded work",
  "For every byte sequence and every option setting, tokenizing, parsing to a concrete tree, parsing to an abstract tree, single-token parsing and the character iterators all return a result instead of panicking, overflowing or looping. The work done, measured in source characters decoded, stays below a fixed quadratic bound in the input length.",
  ["inputs", "configurations"], "all byte strings (valid UTF-8 or not, balanced or not), all option combinations with tab width >= 1, nesting up to about 1500 levels",
  "Tests run a few hundred well-chosen strings; panics hide in unlikely combinations of malformed tokens, error recovery and abstraction.",
  ["lib.rs", "read.rs", "tokenize/tokenizer.rs", "parse/parselet.rs", "error.rs", "abstract_cst.rs", "abstract_cst/abstract_call_node.rs"],
  [("parse loop and recovery", "parse.rs"), ("reader end-of-input handling", "read.rs"), ("recovery of unterminated input", "error.rs"), ("abstraction", "abstract_cst.rs")],
  ["every public entry point in lib.rs", "verif_hooks step counter"],
  "runtime monitoring: panic/abort/overflow monitor with a hooked work counter over stress, corpus and fuzz workloads",
  EXPL + "Built with debug assertions and overflow checks; crashes of the process are reproduced alone before they count.",
  "verif_hooks::reset/steps (count decoded source characters)")

p("P02", "The tokens of an input are its text, in order, without gaps or overlaps",
  "The texts of the tokens returned for an input are non-empty slices of that input which follow each other without gap or overlap and together give the whole input. The only part of the input that may be missing is the end, after a token that is unterminated at the end of the input, or a line continuation with nothing after it.",
  ["inputs", "configurations"], "all byte strings, all options except first-line handling, all tokenizing entry points",
  "Tests compare token lists of selected inputs; a tokenizer that drops or duplicates a byte in one corner passes them.",
  ["tokenize/tokenizer.rs", "read.rs", "read/character_decoder.rs", "read/byte_decoder.rs", "lib.rs"],
  [("token text capture", "tokenize/tokenizer.rs"), ("reader offset bookkeeping", "read.rs")],
  ["tokenize", "tokenize_bytes", "iter::tokens"],
  "runtime monitoring: conservation checker over recorded token streams",
  EXPL + "The oracle is pointer arithmetic on the returned slices, independent of the lexer.")

p("P03", "Source positions of tokens are exact in both conventions",
  "Every token and every leaf of a concrete tree reports as its start and end the line and column (or the character index) of the first byte of its text and of the byte after its last. Lines end at LF, CR or CRLF; columns count characters and a tab advances to the next tab stop of the configured width.",
  ["inputs", "configurations"], "all byte strings, both source conventions, all tab widths >= 1, end positions of tokens unterminated at the end of the input excepted",
  "Tests sample short one-line inputs; positions go wrong after particular mixes of tabs, CRLF, continuations, wide characters and bad bytes.",
  ["source.rs", "read/byte_decoder.rs", "read.rs", "tokenize/tokenizer.rs"],
  [("location update per character", "read/byte_decoder.rs"), ("line/column and index arithmetic", "source.rs")],
  ["token spans from tokenize_bytes, iter::tokens and parse_bytes_cst_seq"],
  "runtime monitoring: every reported span is compared online with an independent position model",
  EXPL + "Trusts the 30-line position model in harness/src/model/pos.rs.")

p("P04", "The concrete tree holds every source token exactly once, in order",
  "Reading the leaves of the concrete tree from left to right gives the input text exactly once, with zero-length leaves only for implied or missing operands; text may be missing only where recovery from an unterminated construct at the end of the input cut it off. Every inner node spans exactly from the start of its first leaf to the end of its last one.",
  ["inputs", "configurations"], "all byte strings, all options except first-line handling",
  "Tests compare whole trees for selected inputs; trivia moves between nodes in many code paths (every operator has its own), and each can lose, repeat or reorder it.",
  ["parse.rs", "parse/parselet.rs", "parse_cst.rs", "parse/parselet/under_parselet.rs", "parse/parselet/semi_semi_parselet.rs", "cst.rs", "error.rs"],
  [("node stack, trivia handling and reduction", "parse.rs"), ("per-operator parselets", "parse/parselet.rs"), ("span of a node from its children", "cst.rs")],
  ["leaves and node spans of parse_bytes_cst_seq"],
  "runtime monitoring: exactly-once/ordering checker over the leaves of recorded trees",
  EXPL + "The oracle is pointer arithmetic on leaf texts and first/last-leaf spans.")

p("P05", "UTF-8 is decoded exactly and unsafe input is always flagged",
  "Valid UTF-8 decodes to exactly its characters. Every ill-formed sequence, encoded surrogate and byte order mark is flagged as unsafe with a kind that is present in the input, by tokenizing, parsing and safe-string conversion alike, and no other input is ever flagged; safe-string conversion of unflagged input returns the input itself.",
  ["inputs"], "all byte strings",
  "There are 2^24 three-byte and 2^32 four-byte sequences with subtle boundaries (overlong, surrogate, truncated); tests hold a handful.",
  ["read/byte_decoder.rs", "lib.rs"],
  [("UTF-8 state machine", "read/byte_decoder.rs"), ("safe string", "lib.rs")],
  ["iter::source_chars", "safe_string", "tokenize_bytes", "unsafe flag of parse results"],
  "runtime monitoring: differential monitor against a reference UTF-8 decoder, enumerating all short sequences",
  EXPL + "All 1- and 2-byte strings and boundary 3- and 4-byte strings are enumerated; the model is itself cross-checked with the standard library.")

p("P06", "Character escapes and long names decode to the character they name",
  "Every backslash escape (named characters, two-, four- and six-digit hexadecimal, octal and single-character forms) decodes to exactly the character it denotes together with the way it was written. An escape that is malformed or names no character is never turned into another character, and decoding always resumes at the right place.",
  ["inputs"], "all strings of escapes, all 16-bit and octal escapes, all long names, all ASCII pairs after a backslash",
  "There are a thousand long names and a million code points; tests cover a few of each.",
  ["read/character_decoder.rs", "read/wl_character.rs", "/crates/wolfram-parser/src/generated/long_names_registration.rs"],
  [("escape decoding", "read/character_decoder.rs"), ("long name tables", "generated/long_names_registration.rs")],
  ["iter::wolfram_chars"],
  "runtime monitoring: differential monitor against a reference escape decoder, enumerating all escapes",
  EXPL + "The long-name table was extracted from the pinned tree, so an error already in it would not show.")

p("P07", "Text is split into the right tokens with the right kinds",
  "Tokenizing any input gives the longest-match token sequence of the Wolfram Language's lexical grammar: numbers with bases, precision marks and exponents, names with contexts, strings, nested comments, every operator in plain and named-character form, slots, white space and malformed-token errors. The single-token entry points apply their own rules for message tags and file names.",
  ["inputs", "configurations"], "all byte strings; all number-like strings of up to 5 (thorough: 6) characters, all ASCII punctuation strings of up to 3 (4) characters, every BMP character and long name",
  "Lexing is a decision tree over look-ahead with hundreds of leaves; tests touch common ones, and continuations and escapes can be placed at any point of it.",
  ["tokenize/tokenizer.rs", "tokenize/token_kind.rs", "read/character_decoder.rs", "read/wl_character.rs"],
  [("lexer dispatch and number scanning", "tokenize/tokenizer.rs"), ("character classes", "read/wl_character.rs")],
  ["tokenize", "tokenize_bytes", "iter::tokens", "parse_to_token"],
  "runtime monitoring: every token stream is compared with an independent reference lexer",
  EXPL + "Trusts the reference lexer in harness/src/model/lex.rs.")

# --- more properties are appended by gen_meta_more.py fragments ---
exec(open(os.path.join(os.path.dirname(__file__), "gen_meta_more.py")).read()) if os.path.exists(os.path.join(os.path.dirname(__file__), "gen_meta_more.py")) else None

NA = globals().get("NA", [])
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(here + "/properties.jsonl", "w") as f:
    for q in P:
        d = dict(id=q["id"], title=q["title"], statement=q["statement"], quantifier=dict(over=q["over"], text=q["qtext"]), why_tests_cant=q["why"],
                 anchors=dict(files=q["files"], mechanism=q["mech"], observe_at=q["observe"], hook_needed=q["hook"]))
        f.write(json.dumps(d, ensure_ascii=False) + "\n")
    for n in NA:
        if "prop" in n:
            f.write(json.dumps(n["prop"], ensure_ascii=False) + "\n")
m = dict(version=1, setup_cmd="bash check.sh build",
         hooks=dict(guard="cfg(verif_hooks)", enable='RUSTFLAGS="--cfg verif_hooks" (check.sh sets it)', source_commits=HOOKS),
         checks=[dict(property=q["id"], quick_cmd="bash check.sh " + q["id"], thorough_cmd="VERIF_TIER=thorough bash check.sh " + q["id"], technique=q["technique"], level="exploration",
                      level_note=q["note"], evidence_file=f"evidence/{q['id']}.json") for q in P],
         not_applicable=[dict(property=n["property"], reason=n["reason"]) for n in NA])
with open(here + "/MANIFEST.json", "w") as f:
    json.dump(m, f, indent=1, ensure_ascii=False)
    f.write("\n")
