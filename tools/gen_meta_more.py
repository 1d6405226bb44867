p("P08", "Expressions group by the operator table's precedence and associativity",
  "The concrete tree of any input is the one the Wolfram Language's grammar prescribes: each operator binds its operands by precedence and associativity, chains of an n-ary operator form one node, juxtaposition multiplies, compound tokens (patterns, slots, outputs), calls, spans, tilde and tag forms and integrals take their special shapes, missing operands and stray closers become error nodes in place, and line ends separate expressions exactly outside groups.",
  ["inputs", "configurations"], "all byte strings; every ordered pair of the ~300 operator tokens in several arrangements; what a group left open at the end of the input keeps is P22",
  "There are ~300 operators; every pair interacts, and trivia, newlines, implicit operands and errors each have their own code path per operator. Tests hold a few pairs.",
  ["parse.rs", "parse/parselet.rs", "parse/token_parselets.rs", "precedence.rs", "parse/operators.rs", "parse_cst.rs", "parse/parselet/semi_semi_parselet.rs", "parse/parselet/under_parselet.rs"],
  [("precedence climbing", "parse.rs"), ("token to parselet table", "parse/token_parselets.rs"), ("precedence numbers", "precedence.rs"), ("implicit times and spans", "parse/parselet.rs")],
  ["parse_bytes_cst_seq"],
  "runtime monitoring: every concrete tree is compared with an independent reference parser",
  EXPL + "Trusts the reference lexer and parser in harness/src/model; the operator table (token, precedence, operator) was taken from the pinned tree.")

p("P09", "The abstract tree is the meaning of the source",
  "The abstract tree of any input is the standard expression its source denotes: operators become calls of their symbols, subtraction and division become sums and products with negated or reciprocal terms, products flatten, parentheses vanish, comparison chains become the single comparison or Inequality, patterns, slots, outputs, message names, file names, derivatives, parts, spans and integrals become their full forms, under the quirk settings given by the caller, and malformed parts stay visible as error nodes.",
  ["inputs", "configurations"], "all byte strings, all eight combinations of quirk settings; every pair of operators, and every pair of ~75 notable operands around 30 notable operators",
  "The rewriting rules nest and interact (negation of products of quotients inside sums, quirks, parentheses around numbers); tests hold isolated examples.",
  ["abstract_cst.rs", "abstract_cst/abstract_call_node.rs", "quirks.rs", "lib.rs", "ast.rs"],
  [("abstraction rules", "abstract_cst.rs"), ("calls and parts", "abstract_cst/abstract_call_node.rs"), ("quirk switches", "quirks.rs")],
  ["parse_bytes_ast_seq"],
  "runtime monitoring: every abstract tree is compared with a reference abstraction of the reference tree",
  EXPL + "Trusts harness/src/model/{lex,parse,abs}.rs. Where the end of the input is inside a group or token, the real concrete tree is abstracted (its content is P22's matter).")

p("P22", "Code left open at the end of the input is cut back to its own statement",
  "A group, comment, string or other token that the end of the input leaves open keeps only the text from its beginning to the end of the last non-blank line before the next line that looks like a new statement (an assignment, a definition, a package directive or an annotation comment at the beginning of a line). The open group has the tokens of that text as its direct children, and the open token has exactly that text and its position.",
  ["inputs", "configurations"], "all byte strings that end inside groups or tokens, all line endings, both source conventions, all tab widths; text that is not UTF-8 is kept as it is",
  "Recovery depends on the lines of the whole rest of the file, on line endings, tabs, wide characters and nesting of open groups; the tests hold two examples.",
  ["error.rs", "parse_cst.rs", "lib.rs", "source.rs"],
  [("choice of the statement", "error.rs"), ("open groups", "parse_cst.rs"), ("open tokens", "lib.rs")],
  ["GroupMissingCloser nodes and Error_Unterminated tokens of parse_bytes_cst_seq"],
  "runtime monitoring: recovered nodes are compared with a reference model of recovery",
  EXPL + "Trusts harness/src/model/recover.rs. In the character-index convention the region includes the final line end, and tokens that touch the region are kept, as in the pinned tree.")

p("P23", "Abstract nodes carry the exact source they came from, and their issues",
  "Every abstract node that stands for a piece of source reports exactly this piece as its source (parentheses excluded), every node that was made up by the abstraction (such as the head Plus of a sum) reports none, and the issues attached to abstract nodes are exactly those due: suspicious calls by kind of head with the right severity and places, double negation, and undocumented message names.",
  ["inputs", "configurations"], "all byte strings, both source conventions, all quirk settings",
  "Each rewriting rule passes sources along by hand; tests check a few of them.",
  ["abstract_cst.rs", "abstract_cst/abstract_call_node.rs", "ast.rs"],
  [("source of each rewritten node", "abstract_cst.rs"), ("issues about calls", "abstract_cst/abstract_call_node.rs")],
  ["source and issues of every node from parse_bytes_ast_seq"],
  "runtime monitoring: sources and issues of all abstract nodes are compared with a reference abstraction of the real concrete tree",
  EXPL + "Trusts harness/src/model/abs.rs; message texts are not compared.")

p("P10", "Blanks and comments do not change the structure",
  "Adding or removing spaces, tabs and comments between the tokens of an input changes nothing in its concrete structure but the trivia themselves, and nothing in its abstract tree; line ends may be added in the same way inside groups. Only whether two tokens touch can matter (numbers, names, patterns, implicit multiplication of juxtaposed digits), so trivia is exchanged where there is trivia already or next to brackets and commas.",
  ["inputs", "configurations"], "inputs that do not end inside a group or token; places next to existing trivia, brackets and commas, except directly after operators that read file names",
  "Every parselet eats trivia in its own place before and after its operators; each of some 50 parselets can get it wrong for one kind of trivia in one place.",
  ["parse.rs", "parse_cst.rs", "parse/parselet.rs", "parse/parselet/semi_semi_parselet.rs", "parse/parselet/under_parselet.rs", "agg.rs", "abstract_cst.rs"],
  [("trivia eaten around operators", "parse.rs"), ("trivia dropped before abstraction", "agg.rs")],
  ["parse_bytes_cst_seq and parse_bytes_ast_seq of an input and of its variants with other trivia"],
  "runtime monitoring: executions on variants of an input with other trivia are compared (metamorphic monitor)",
  EXPL + "Needs no reference parser.")

p("P11", "All entry points agree on every input",
  "For any input the parse, token, concrete-tree and abstract-tree entry points, for text and for bytes, for one item and for sequences, tell the same story: the same tokens, trees, issues, tracked places and flags; the token list is the list of leaves of the concrete tree where the tree keeps the tokens in the same reading mode; aggregating and abstracting a concrete tree by hand gives the abstract tree; and single-item entry points accept exactly the inputs with one item.",
  ["inputs", "configurations", "entry points"], "all byte strings (text entry points on UTF-8 ones) under all options",
  "The entry points assemble the result separately (wrapping, offsets, flags, issue lists); the tests mostly use one of them per case.",
  ["lib.rs", "tokenize.rs", "parse.rs", "agg.rs", "abstract_cst.rs"],
  [("entry points", "lib.rs")],
  ["parse_*, tokenize_*, parse_to_ast/cst and their bytes and seq forms"],
  "runtime monitoring: results of all entry points on the same input are compared with each other",
  EXPL + "Needs no reference parser.")

p("P12", "A call's result depends on its arguments only",
  "Every call of the parser returns the same result whatever was parsed before it on the same thread, under whatever options and quirks, whether an earlier call failed or panicked, whatever other threads parse at the same time, and whatever lies around the input in memory.",
  ["inputs", "histories", "schedules"], "random histories of up to 8 calls with different options, quirks and entry points; up to 8 threads parsing at once; inputs embedded in other memory",
  "The quirk settings live in thread-local state, and readers look ahead over the end of the buffer; a leak shows only after a particular history.",
  ["quirks.rs", "lib.rs", "read.rs", "read/byte_buffer.rs"],
  [("thread-local quirk settings", "quirks.rs"), ("buffer ends", "read/byte_buffer.rs")],
  ["parse_bytes_cst_seq, parse_bytes_ast_seq, tokenize_bytes after histories and concurrently"],
  "runtime monitoring: the result of a call after a random history, and next to other threads, is compared with that in a fresh thread",
  EXPL + "Interleavings are those the machine's scheduler gives.")

p("P13", "Quirk settings change exactly what they are documented to change",
  "The quirk settings of a call never change its tokens, concrete tree, issues or tracked places. flatten_times only makes products nested in products come out as one product, infix_binary_at only changes expressions with a binary at whose operands are products or sums of a chain, old_at_at_at only makes `f @@@ x` come out as Apply with a level instead of MapApply; on inputs without these forms all eight settings give the same abstract tree, and settings act independently.",
  ["inputs", "configurations"], "all byte strings, all eight combinations of settings",
  "The settings are consulted at a few places deep in the abstraction; the tests fix them mostly at the default.",
  ["quirks.rs", "abstract_cst.rs", "lib.rs"],
  [("quirk switches", "quirks.rs"), ("places that consult them", "abstract_cst.rs")],
  ["parse_bytes_ast_seq and parse_bytes_cst_seq under all eight quirk settings"],
  "runtime monitoring: executions under different quirk settings are compared with each other and with a reference of what each setting does",
  EXPL + "What a setting does where it matters comes from harness/src/model/abs.rs.")

p("P15", "Expressions on separate lines do not influence each other",
  "A complete piece of source followed by a line end and another piece parses as the two pieces do alone: the tree, abstract tree, issues and tracked places are those of the first followed by those of the second with its positions moved. The only exception are chains of an n-ary operator, which the next line continues when it begins with the same operator.",
  ["inputs", "configurations"], "all pairs of inputs of which the first parses without error; line ends LF, CR LF and blank lines between them; both source conventions and all tab widths",
  "Lookahead past an expression, operators with optional operands and state carried between expressions show only for particular neighbours.",
  ["parse.rs", "parse/parselet.rs", "parse_cst.rs", "tokenize/tokenizer.rs", "lib.rs", "source.rs"],
  [("top-level line ends", "parse.rs"), ("toplevel loop", "lib.rs")],
  ["parse_bytes_cst_seq and parse_bytes_ast_seq of two parts and of their concatenation"],
  "runtime monitoring: the execution on two parts is compared with the executions on each part (metamorphic monitor)",
  EXPL + "Needs no reference parser.")

p("P19", "Source convention, tab width and encoding mode only change positions",
  "The tokens, trees and issues of an input are the same in the line-column and the character-index convention and at every tab width, and every position in one convention denotes the same place as the corresponding one in the other. The tab width only moves columns after tabs. The box encoding mode changes nothing but the report of non-ASCII characters.",
  ["inputs", "configurations"], "all byte strings, both source conventions, tab widths 0 to 16 and large, both encoding modes; recovery of text left open at the end of the input is compared within one convention only",
  "Each convention has its own code for advancing, spanning and recovering; the tests use one of them per case.",
  ["source.rs", "read/byte_decoder.rs", "error.rs", "issue.rs", "lib.rs"],
  [("conventions", "source.rs"), ("encoding mode", "read/byte_decoder.rs")],
  ["parse_bytes_cst_seq under different options"],
  "runtime monitoring: executions under different options are compared with each other through an independent position table",
  EXPL + "Trusts harness/src/model/pos.rs for where a position is in the text.")

p("P16", "Issues reported are exactly those due, in the right place, with right fixes",
  "For any input the set of issues a parse reports is exactly the set due for its text: each strange character (raw or escaped), unrecognized or malformed escape, encoding fault, carriage return, suspicious letter in a name, undocumented slot or message-tag syntax, ambiguous or suspicious number, sign, dot or operator sequence gives one issue with its tag, severity, confidence and exact source span, and code actions whose replacement denotes the same character or removes the fault at the exact place; nothing else is reported, nothing twice; fatal issues are listed apart from the others, at most ten of them.",
  ["inputs", "configurations"], "all byte strings, all options; every character of the basic plane and every long name in several settings; wording and similarity suggestions (which name is proposed) are left open",
  "There are ~45 sites that report issues, each with hand-computed spans and replacement texts, on paths (bad escapes, odd Unicode, numbers that are given back) that tests sample a few dozen times.",
  ["read/byte_decoder.rs", "read/character_decoder.rs", "tokenize/tokenizer.rs", "issue.rs", "read.rs", "byte_encoder.rs", "long_names.rs"],
  [("byte-level issues", "read/byte_decoder.rs"), ("escapes", "read/character_decoder.rs"), ("token-level issues", "tokenize/tokenizer.rs"), ("issue lists", "read.rs")],
  ["fatal_issues and non_fatal_issues of parse_bytes_cst_seq"],
  "runtime monitoring: the issues of every execution are compared with a reference model that derives them from the text and its tokens",
  EXPL + "Trusts harness/src/model/{issues,lex,chars}.rs and the character tables taken from the pinned tree; escapes in file names are left open.")

p("P17", "Tracked line continuations, newlines and tabs are exactly those in the text",
  "The four lists of source locations a parse hands to formatters (simple and complex line continuations, embedded newlines, embedded tabs) hold exactly the starts of the tokens concerned: tokens with a line continuation outside quotes, strings with one inside, and strings and comments with a raw newline or tab in them.",
  ["inputs", "configurations"], "all byte strings, all options, every kind of line end; locations of numbers and operators that were tried over a following line continuation, and of strings with escaped newlines or tabs, are left open",
  "Tracking happens deep in the character loop, depends on the reading mode, and lookahead must not track; tests do not look at it.",
  ["tokenize/tokenizer.rs", "source.rs", "lib.rs"],
  [("line continuations", "tokenize/tokenizer.rs"), ("reading modes", "source.rs")],
  ["tracked of parse_bytes_cst_seq"],
  "runtime monitoring: the tracked locations of every execution are compared with a reference model",
  EXPL + "Trusts harness/src/model/track.rs.")

p("P18", "A script's #! line is skipped, and nothing else changes",
  "With the Check and Script settings an input that begins with the tokens # and ! parses as the text after its first line does alone, with positions counted from the beginning of the file: same tree, abstract tree, tokens, issues and tracked places, whatever the first line holds. An input that does not begin so parses exactly as with NotScript, and with NotScript nothing is skipped.",
  ["inputs", "configurations"], "all byte strings, both source conventions, every line end; issues about the first line itself are left open",
  "First-line handling runs the tokenizer before the parse and shifts all positions; the tests hold two inputs.",
  ["tokenize/tokenizer.rs", "lib.rs", "read.rs"],
  [("first line", "tokenize/tokenizer.rs")],
  ["everything returned by parse_bytes_cst_seq, parse_bytes_ast_seq and tokenize_bytes under the three settings"],
  "runtime monitoring: executions under the three settings and on the rest alone are compared (metamorphic monitor)",
  EXPL + "Uses the reference lexer only to recognize the first two tokens.")

p("P14", "Malformed input is flagged as an error, well-formed input is not",
  "An input whose brackets do not match, that lacks an operand of an operator, leaves a string, comment, box or group open, or holds a malformed token, yields an error node or error token in the concrete tree and an error node in the abstract tree; an input that is well formed yields none in either; and a group is reported as broken exactly when the brackets of the input do not match.",
  ["inputs", "configurations"], "well-formed inputs built from all operators, groups, atoms and trivia; these with one bracket removed or added, one operand removed, one malformed token or open token; arbitrary inputs for the agreement of the two trees and of brackets with groups; a comma with nothing beside it stands for Null and is not counted as an error",
  "Error detection is spread over every parselet and the tokenizer; an error swallowed on one path makes broken code look fine, and tests hold few inputs per path.",
  ["parse_cst.rs", "parse.rs", "parse/parselet.rs", "tokenize/tokenizer.rs", "abstract_cst.rs", "cst.rs"],
  [("error nodes", "parse_cst.rs"), ("missing operands and stray closers", "parse/parselet.rs"), ("error tokens", "tokenize/tokenizer.rs"), ("errors in the abstract tree", "abstract_cst.rs")],
  ["parse_bytes_cst_seq and parse_bytes_ast_seq"],
  "runtime monitoring: executions on inputs whose well-formedness is known by construction; the two trees and a bracket matcher are compared",
  EXPL + "Needs no reference parser.")

p("P20", "Visiting, mapping, copying and aggregating trees keeps their structure",
  "On any concrete tree, as parsed or aggregated or with boxes, code nodes and missing openers put into it: visiting comes by every node exactly once, parents before children and in source order; mapping applies the function to exactly the nodes visiting comes by, replaces exactly what the function replaces and changes nothing else; the source of a node, and of the arguments of a call, reaches from the beginning of its first leaf to the end of its last; an owned copy has the same nodes, text and positions; and aggregation removes exactly the trivia and nothing else.",
  ["inputs", "configurations"], "trees of all byte strings under all options, and such trees with nodes replaced by boxes, code nodes and groups that miss their opener",
  "Each of these walks the 14 node kinds by hand; a kind forgotten, or a child of a call's head skipped, shows only on trees with that kind in that place.",
  ["cst.rs", "agg.rs", "tokenize.rs", "source.rs", "abstract_cst.rs"],
  [("visit, visit_mut, map_visit, get_source, into_owned_input", "cst.rs"), ("aggregation", "agg.rs")],
  ["CstSeq::visit, visit_mut, map_visit, Cst::visit, get_source, into_owned_input, aggregate_cst_seq"],
  "runtime monitoring: every walk of the library is recorded and compared with an independent traversal of the same tree",
  EXPL + "Needs no reference parser.")

p("P21", "Spans order, overlap, contain, join and print as intervals do",
  "Locations order by line and then column, or by character index, and locations of different conventions do not compare; two spans overlap exactly when they share a location, in either order; a span contains exactly the locations from its start to its end; the span between two spans reaches from the start of the first to the end of the second, and is unknown when one of them is; box positions join as their tree positions do; all print in their documented form.",
  ["spans", "box positions"], "all pairs of small spans and random pairs over the whole 32-bit range; box positions in the arrangements BoxPosition::between supports",
  "Comparisons of two-part positions go wrong for particular relations of the four ends only; the tests hold a handful.",
  ["source.rs", "tokenize.rs"],
  [("locations and spans", "source.rs"), ("joining", "tokenize.rs")],
  ["Location, LineColumn, LineColumnSpan, CharacterSpan, Span, Source, BoxPosition"],
  "runtime monitoring: every operation on positions is compared with an interval model",
  EXPL + "Small spans are enumerated, large ones are sampled.")

p("P24", "Names and printed forms denote exactly what they were made from",
  "Every operator and token kind has the symbol of its name, and that symbol, and no other, gives it back; the same holds for issue tags, severities, encodings, syntax errors and box kinds, and settings given by number. The properties of token kinds (error, unterminated, closer, trivia) are those their names say. Characters print so that reading the print gives the same characters; their graphical form is printable ASCII that reads as the same character. A tree or token list printed as an expression has exactly the nodes, operators, text and positions of the tree.",
  ["inputs", "names"], "all operators and token kinds; all text without a byte order mark; trees of all UTF-8 text in the line-column convention, as parsed and aggregated (FmtAsExpr supports no others)",
  "Names are kept in two or three hand-written tables each (about 330 operators, 430 token kinds, ~1000 characters); a swapped or missing entry compiles.",
  ["parse/operators.rs", "tokenize/token_kind.rs", "fmt_as_expr.rs", "read/wl_character.rs", "byte_encoder.rs", "source.rs", "issue.rs", "long_names.rs"],
  [("operators and symbols", "parse/operators.rs"), ("token kinds", "tokenize/token_kind.rs"), ("printing trees", "fmt_as_expr.rs"), ("printing characters", "read/wl_character.rs")],
  ["Operator::to_symbol and try_from_symbol, TokenKind::to_symbol and from_symbol, Display of characters, FmtAsExpr"],
  "runtime monitoring: every name is converted both ways, every print is read back or compared with an independent rendering",
  EXPL + "The list of names (harness/data/names.tsv) was taken from the pinned tree.")

p("P25", "Abstraction depends on structure only, and keeps boxes",
  "The abstract tree of a concrete tree does not depend on how the tree stores its positions (spans, general sources, unknown sources) or its text (borrowed, owned): nodes are the same, and known positions are kept. A box in place of an operand comes out as a box of the same kind and source with its children abstracted one by one, where the operand would be; only part specifications [[..]] in subscripts and derivative tags in superscripts keep their brackets, and only when they have exactly that form. What only boxes write in one node (a~f~b~g~c in one row, x:p:d in one row, several quotes in one token, a group without its opener) means the same as the nested nodes text has for it.",
  ["inputs", "trees"], "trees of all byte strings; boxes of all kinds but RowBox and GridBox (which abstract_cst does not support) in place of operands, nested, with whole and defective part and derivative forms",
  "The abstraction is generic, and only one instance is used by the parser and the tests; boxes come from notebooks only.",
  ["abstract_cst.rs", "abstract_cst/abstract_call_node.rs", "cst.rs", "source.rs", "ast.rs"],
  [("boxes", "abstract_cst.rs"), ("sources", "source.rs")],
  ["abstract_cst on trees with other sources and text, and with boxes"],
  "runtime monitoring: executions on variants of a tree are compared with each other and composed from executions on its parts (metamorphic monitor)",
  EXPL + "Needs no reference parser.")

p("P26", "No call touches memory it does not own, or keeps memory",
  "Whatever bytes and options the public operations are called with, they read and write only the input and blocks they hold, never beyond the ends of the input or in freed blocks; results that own their text stay valid, with the same text, after the input is freed; and repeating a call does not keep any further memory once its results are dropped.",
  ["inputs", "call histories"], "all byte strings in blocks of exactly their size and at the end of larger blocks, all options, the operations tokenize, parse to concrete and abstract trees, parse to token, aggregate, safe_string and the character iterators",
  "The reader works on raw bytes with offsets and look-ahead, tokens borrow from the input; whether an access leaves the block, or a block is lost, shows in no returned value.",
  ["read.rs", "read/byte_buffer.rs", "read/byte_decoder.rs", "tokenize/token.rs", "utils.rs", "cst.rs"],
  [("input bytes", "read/byte_buffer.rs"), ("borrowed and owned text", "tokenize/token.rs"), ("uninitialised tables", "utils.rs")],
  ["parse_bytes_cst_seq, parse_bytes_ast_seq, tokenize_bytes, parse_to_token, safe_string, iter, into_owned_input"],
  "compiler sanitizer (AddressSanitizer build of the harness and the crate) with a counting allocator as leak monitor",
  EXPL + "Only memory errors on executed paths are seen; uninitialised reads are not (no MemorySanitizer without a rebuilt standard library).")

p("P27", "The command line tool prints what the library returns",
  "For every file and every combination of arguments the command line tool prints exactly the printed form of what the library returns for the bytes of the file: the concrete tree as an expression by default or as a debug dump, the abstract tree, the tokens, the single token or the safe string, under the quirks asked for; with -n and the checking arguments it prints nothing. It fails exactly when the library refuses the input, and leaves the file alone. Without a file it answers each line of standard input in turn, and ends when the input ends.",
  ["inputs", "configurations"], "all files, all argument combinations of the tool, lines of text on standard input",
  "No test runs the tool at all.",
  ["bin/main.rs", "lib.rs", "fmt_as_expr.rs"],
  [("arguments and dispatch", "bin/main.rs")],
  ["standard output, exit status and files of the process"],
  "runtime monitoring: the process is run on generated files and input, its output, status and files are compared with the library's answers",
  EXPL + "What the library answers is the subject of the other properties.")
