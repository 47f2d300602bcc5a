#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a generator so that the list stays readable)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state, observe, hook):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                     state=state, observe_at=observe, hook_needed=hook)))

VFS="crates/vfs/src/vfs.rs"; TREE="crates/vfs/src/tree.rs"; WS="crates/vfs/src/workspaces.rs"; LFS="crates/vfs/src/local_fs.rs"
prop("V01","Open editor buffers override the disk, everything else is fresh",
 "After any history of opening, editing, saving and closing editor buffers and of files and directories being created, changed or removed on disk, once the changes have been reported, reading a path yields the open buffer's text if the path is open, otherwise the current text on disk, and nothing if neither exists. Change reports for an open buffer never alter what it reads, closing a buffer falls back to the disk state of that moment, and removing a directory that contains open buffers never loses their text.",
 ["histories","inputs"],"every interleaving of open/edit/close/disk write/delete/mkdir/rmtree/rename with the delivery of the change reports, over every placement of the paths in directories and workspace roots",
 "Which of cache, buffer and disk wins depends on the whole order of earlier operations; the few scripted sessions in the (unbuildable) server tests visit a handful of orders.",
 [VFS,TREE,WS,LFS],[("store_in_memory_file/close_in_memory_file/invalidate_path",VFS),("ensure_file/unload_file",TREE)],
 "in-memory map, directory tree, loaded file contents, disk","Vfs public API: search_path + ensure_file_for_file_entry + file().code()","none")
prop("V02","A change reaches every result derived from the changed file",
 "When the visible text of a file changes, or a file or directory that someone looked for in vain appears, every loaded file that depended on it directly or transitively (through any chain, also cyclic) is invalidated before it is used again, so recomputing any derived result gives what a fresh start would give. Open buffers whose derived result may have changed are announced to the editor, and a change to a file marked as affecting everything is reported as such every time it changes.",
 ["histories","inputs"],"every import graph over the paths (including cycles and imports of missing files), every history of edits and disk changes, every point at which results are or are not recomputed",
 "Staleness needs a particular order of resolve, change, partial recompute and change again; unit tests of the crate do not cover invalidation at all.",
 [VFS,TREE],[("invalidate_files/invalidate_file_by_index",VFS),("add_missing_entry_callback/Invalidations::take",TREE)],
 "per-entry dependents, missing entries, cached derived results","VfsFile::invalidate_references_to calls, on_invalidated_in_memory_file calls, InvalidationResult","none")
prop("V03","Recovery after an internal panic keeps every open buffer",
 "If the analysis state is thrown away after an internal panic and rebuilt from what was saved, every buffer that was open is still open with exactly the text it had, is announced to the editor again, later change reports are still ignored for it, and closing it still falls back to the disk. Files that affect everything still do so after the recovery and no file becomes visible that was neither open nor on disk.",
 ["crash_points","histories"],"a recovery at every point of every history of V01's operations, any number of times",
 "Recovery is only exercised at one scripted point by tests that cannot be built here.",
 [VFS],[("into_panic_recovery/load_panic_recovery",VFS)],
 "saved artefacts, in-memory map, invalidates_db marks","Vfs public API after load_panic_recovery","none")
prop("V04","Every path resolves to the one place that owns it",
 "Looking up a path finds exactly the entry that a direct look at the disk and the open buffers would find, in the most specific workspace root that contains it, regardless of the order in which roots were added, whether roots are nested, and of how often it is asked; files outside every root are kept in the fallback place. Hidden names, site-packages, node_modules and __pycache__ are never listed from disk, symbolic links are followed, and link cycles and broken links are skipped without hanging.",
 ["configurations","inputs"],"every small directory tree with links, every set and order of workspace roots, every path, both case modes",
 "Root order, nesting and link shape multiply; the existing tests have a single check of a path helper.",
 [WS,TREE,LFS],[("strip_short_path_in_workspace/search_path",WS),("into_dir_entry/follow_symlink_internal",LFS)],
 "workspace list, directory tree","Vfs::search_path, Entries walk, FileEntry::absolute_path/relative_path, Parent::workspace_path","none")
prop("V05","Concurrent use never splits or loses a file or a workspace root",
 "However threads interleave, a file gets exactly one identity: all threads that ask for the same file get the same index, one text is kept for it and all readers see that text, distinct files get distinct indexes, and references handed out stay valid while others are added. Workspace roots added concurrently are all present afterwards, each root exactly once, and exactly one of several concurrent additions of the same root reports that it added it.",
 ["schedules"],"every interleaving, at the steps of loading a file, assigning its index and adding a root, of two or more threads over the same or different files and roots",
 "A lost update or a double identity needs two threads between two specific instructions; the test suite is single threaded.",
 [VFS,TREE,WS,"crates/utils/src/lib.rs"],[("with_set_file_index",TREE),("add_uninitialized_file_state",VFS),("push_without_full_access",WS),("InsertOnlyVec","crates/utils/src/lib.rs")],
 "file table, per-entry index, workspace list","returned FileIndex values, Vfs::files.len(), workspaces.load()","none")
prop("V06","Path arithmetic agrees with path semantics",
 "Normalising a path removes every . and .. and duplicate or trailing separator, never escapes the root, is idempotent and names the same location; joining, splitting and making a path relative are inverse to each other wherever both are defined, and containment means being equal or below by whole components. A glob matches exactly the paths its pattern denotes: * and ? never match a separator, ** matches any number of directories, letter case counts exactly as the platform says, and a pattern without wildcards matches only itself.",
 ["inputs"],"every path over a small component alphabet up to a length, every pair of such paths, every small glob pattern",
 "Corner cases combine (root, trailing separator, .. at the root, components that are prefixes of each other); the existing tests list eleven cases.",
 ["crates/vfs/src/lib.rs","crates/vfs/src/normalized_path.rs","crates/vfs/src/path.rs","crates/vfs/src/glob_abs_path.rs"],[("normalize","crates/vfs/src/normalized_path.rs"),("path_relative_to/split_off_*","crates/vfs/src/lib.rs"),("GlobAbsPath","crates/vfs/src/glob_abs_path.rs")],
 "none (functions)","VfsHandler path methods, GlobAbsPath::matches","none")

PP="crates/parsa_python/src/lib.rs"; TOK="crates/parsa_python/src/tokenizer.rs"; GR="crates/parsa/src/grammar.rs"; AU="crates/parsa/src/automaton.rs"; PL="crates/parsa/src/lib.rs"
prop("P01","Parsing any text succeeds and loses no character",
 "For every Unicode text the parser terminates without a panic and returns a tree whose leaves, each preceded by the whitespace and comments in front of it, spell the text exactly, in order and without overlap; at most final line endings are appended. Every inner node spans exactly from its first to its last leaf (the root spans the whole text), parsing long texts takes no more than a few seconds and never exhausts the stack on flat ones, and what lies between leaves is only whitespace, comments, line continuations or characters the language gives no token to.",
 ["inputs"],"every text over an alphabet that exercises every lexical construct (quotes, prefixes, brackets, indentation, continuations, line endings, non-ASCII), to a length; random and mutated longer texts",
 "The input space is all strings; snapshot tests fix about two hundred.",
 [GR,PL,TOK,"crates/parsa/src/backtracking.rs"],[("Grammar::parse",GR),("PythonTokenizer::next",TOK)],
 "token stream, tree vector","Tree/Node API: leaves, start, end, as_code, prefix","none")
prop("P02","Tree navigation answers agree with the tree's shape",
 "For every parsed tree, parent, children, n-th child, siblings, previous and next leaf, last leaf of a subtree, prefix, suffix, leaf at a position, ancestor search and subtree search return exactly what the ordered tree defined by the nesting of nodes prescribes, for every node and every position (a subtree search makes no promise about empty nodes at the very end of what it searches).",
 ["inputs","programs"],"every node and position of every tree obtained from generated programs, valid and broken",
 "Navigation works on a flat preorder array with offsets; off-by-one errors show only in particular shapes (empty nodes, last child, error nodes).",
 [PL],[("create_grammar! Node methods",PL)],"flat node vector","PyNode methods","none")
prop("P03","Text is split into tokens as Python's lexical rules say",
 "Every text is split into names, numbers, operators, strings, bytes, f-string parts, newlines, indents and dedents exactly as the lexical rules of Python prescribe: longest match for numbers and operators, string prefixes and triple quotes, newline and indentation suppressed inside brackets, continuation lines joined, f-string literal parts, replacement fields and format specs nested correctly. Indents and dedents are always balanced at the end of the text, and a statement keyword at the start of a line ends unclosed brackets.",
 ["inputs"],"every text over an alphabet that covers each lexical rule to a length, plus longer random texts built from lexical fragments",
 "Lexical state (indent stack, bracket depth, f-string stack) makes the result depend on unbounded context.",
 [TOK],[("PythonTokenizer",TOK)],"indent stack, bracket level, f-string stack","leaf types and spans of the parsed tree","none")
prop("P04","The parser accepts Python and builds its structure",
 "Every program derivable from the language's grammar is parsed without any error node into the tree of that derivation (operator precedence and associativity, optional parts, first matching alternative), and in every tree, also for broken programs, each node that is not marked as an error has children that its grammar rule allows. A text that is not derivable from the grammar (including its documented leniencies, such as comparison-free targets checked later) therefore always yields at least one error node.",
 ["programs","inputs"],"every program generated from the grammar within size bounds, and every tree produced for mutated programs",
 "Snapshot tests pin the trees of a hundred snippets; automaton construction, backtracking and lookahead interact for every combination of rules.",
 [PP,GR,AU],[("create_grammar! rules",PP),("generate_automatons",AU),("Grammar::parse",GR)],"parse stack, alternatives, tree","node types and children of the parsed tree","none")
prop("P05","A broken statement does not corrupt its neighbours",
 "If a module contains a statement with a syntax error that stays within its line and its brackets and quotes, all other top-level statements are parsed exactly as if the broken one were absent, and appending or removing the broken line never changes what precedes it.",
 ["inputs","programs"],"every sequence of valid statements with broken single-line statements inserted at any place",
 "Error recovery chooses among several strategies depending on the parser stack at the point of the error.",
 [GR],[("error_recovery",GR)],"parse stack during recovery","statement subtrees of the parsed tree","none")
prop("P06","The parsing engine implements ordered-choice grammars faithfully",
 "For every grammar built from sequences, ordered alternatives, options, repetitions, token look-aheads and direct left recursion that the engine accepts, and for every input: right-hand sides that agree on the next symbol are followed together; where the next token can start different symbols, the alternatives are tried in the order in which they are written, each for the whole rest of the rule, and the first that reaches the end of the rule is taken for good; a rule goes on as long as it can take the next token. The engine returns exactly the tree of that reading, with collapsible rules of a single child replaced by the child, and an error node exactly when there is none. Also then, every token is one leaf and every node spans its children.",
 ["programs","inputs"],"a family of small grammars covering each operator and combination, every token string up to a length",
 "Only one JSON grammar is tested; determinisation and backtracking must be right for every grammar.",
 [AU,GR,"crates/parsa/src/backtracking.rs"],[("DFA construction and plans",AU),("BacktrackingTokenizer","crates/parsa/src/backtracking.rs")],"automata, stack, token buffer","trees of harness-defined grammars","none")

CST="crates/parsa_python_cst/src/"
prop("C01","Literals have the value Python gives them",
 "The value computed for a string or bytes literal, or an implicit concatenation of them, is the value Python gives: prefixes, raw mode, all quote styles, single-character, octal, hexadecimal and Unicode escapes, escaped and unescaped line endings of every kind, unknown escapes kept. Integer literals in every base and with underscores have Python's value whenever they fit, and cleaning a docstring never fails and removes exactly the indentation common to all non-blank lines (the first one included, counted in characters) and the surrounding blank space.",
 ["inputs"],"every literal body over an alphabet of escape-relevant characters to a length, every prefix and quote style",
 "Escapes interact with line endings, quote length and multi-byte characters; five unit tests exist.",
 [CST+"strings.rs",CST+"bytes.rs",CST+"lib.rs","crates/utils/src/lib.rs"],[("PythonString::from_literal",CST+"strings.rs"),("parse_python_bytes_literal",CST+"bytes.rs"),("dedent_cow","crates/utils/src/lib.rs")],
 "none (functions)","StringLiteral/Bytes/Int API","none")
prop("C02","Suppression comments act on their line and nothing else",
 "A 'type: ignore' or 'zuban: ignore' comment is recognised for a source range exactly when it stands in a comment on one of the lines the range covers, with exactly the error codes and the offset written there, several comments combining; a file-level one only counts before the first statement, and inline configuration comments are found at exactly the lines that begin with '# mypy: '. Tabs count as blanks, and a # inside a string or another token starts no comment. Inserting the suggested suppression text at the suggested place makes the comment recognised for that position and changes no token.",
 ["inputs"],"every text over fragments of comments, strings, line endings and statements, every start and end position",
 "Position arithmetic over lines, comments and line endings; only sampled by tests of an unbuildable crate.",
 [CST+"lib.rs",CST+"code_actions.rs"],[("type_ignore_comment_for",CST+"lib.rs"),("insertion_point_for_type_ignore",CST+"code_actions.rs")],"none (functions)","Tree::type_ignore_comment_for, has_type_ignore_at_start, mypy_inline_config_directives, insertion_point_for_type_ignore","none")
prop("C03","Editor ranges follow the program's structure",
 "For every program and position, selection ranges start at the position and grow strictly outward to the whole file, each being the span of an enclosing node; every indented block and match statement gives exactly one folding range from its start to its last line; name listing returns, in order, all names that end behind the position (one that ends directly at it may be included); and the place offered for new imports is after the leading docstring and imports and never inside a statement.",
 ["inputs","programs"],"every generated program, valid or broken, every position in it",
 "Positions at token borders, blank lines and end of file each take a different path; three unit tests exist.",
 [CST+"ranges.rs",CST+"lib.rs"],[("selection_ranges/initial_imports_end_code_index",CST+"ranges.rs"),("folding_blocks/filter_all_names",CST+"lib.rs")],"none (functions)","Tree::selection_ranges, folding_blocks, filter_all_names, initial_imports_end_code_index","none")
prop("C04","Cursor queries never fail and see the right context",
 "Asking for the completion context, the call being written, or the symbol under the cursor never panics at any position of any text, valid or broken, and reports the innermost enclosing function, class or lambda as scope. Inside a comment or string it says so, after a dot in an expression it names the expression before the dot, in an import it reports the module path or the members to complete with the right number of dots and the right base, and for a call it reports the innermost call around the cursor with the arguments up to the one being written. On a name or an operator it reports the attribute access, import, operation or definition that this token belongs to.",
 ["inputs","programs"],"every position of every generated program and of every prefix of it",
 "Completion runs on half-written code, whose trees are produced by error recovery; tests cover a dozen comment cases.",
 [CST+"completion.rs",CST+"signatures.rs",CST+"lib.rs"],[("completion_node/scope_for_node",CST+"completion.rs"),("signature_node",CST+"signatures.rs"),("goto_node",CST+"lib.rs")],"none (functions)","Tree::completion_node, signature_node, goto_node, node_parent_scope","none")
prop("C05","Syntax accessors describe the program that was written",
 "For every valid program, walking it through the typed accessors visits every statement once and in order, and reports for each function its parameters in order with kind, annotation and default, its return annotation, whether it is async, its docstring and its decorators; for each class its bases and keyword arguments; for each import its modules, dots, names and aliases; for each assignment its targets and value; and for every name whether it is a definition and which construct defines it.",
 ["programs"],"every program generated from the construct grammar within size bounds",
 "Accessors index children by position; each optional part shifts the positions, so the number of shapes is exponential in the optional parts.",
 [CST+"lib.rs",CST+"match_stmt.rs"],[("typed node accessors",CST+"lib.rs")],"none (functions)","parsa_python_cst typed API","none")

LIC="crates/licensing/src/lib.rs"
prop("L01","Only licences signed by a trusted key are accepted, unaltered",
 "A licence file is accepted only if a holder of one of the trusted private keys signed exactly its name, e-mail, company, validity period, version and level; changing, moving or reassigning any character between or inside these fields, or altering or replacing the signature, makes it rejected, and a malformed licence or key is an error and never a crash.",
 ["inputs","fault_sequences"],"every single or combined modification of every field and of the signature, every subset of trusted keys",
 "Tests change one field at a time in one licence.",
 [LIC],[("to_bytes_message/verify_with_keys",LIC),("hex_string_key_to_bytes",LIC)],"licence fields, signature","verify result (through a guarded hook for keys and time)","cfg(zuban_verif) hook exposing create/sign/verify with explicit keys and time")
prop("L02","A licence is valid exactly within its period",
 "A correctly signed licence is accepted at a moment if and only if that moment lies between its start and its end, both included, to the second; before it is reported as not yet valid and after as expired, and a licence issued for a number of days is valid from now for exactly that many days.",
 ["inputs"],"every ordering and coincidence of start, end and the current second, every number of days",
 "Boundaries and inverted periods are sampled at seven points, none exactly on both ends.",
 [LIC],[("verify_with_keys/create_license",LIC)],"valid_from, valid_until, now","verify result","same hook as L01")
out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
with open(out,"w") as f:
    for p in P:
        assert len(p["title"])<=80,(p["id"],len(p["title"]))
        f.write(json.dumps(p)+"\n")
