HOOKS = {"guard": "cfg(zuban_verif)", "enable": "RUSTFLAGS=\"--cfg zuban_verif\" (tools/build.sh sets it for harness/lic only)", "source_commits": ["d7c0b8b"]}
NOT_APPLICABLE = {}
_R = "TLA+ specification checked with TLC; behaviours generated from it replayed into the real crate"
CLAIM = {
 "V01": ("model_checking", _R, "specs/Vfs.tla: text of every path after every generated history"),
 "V02": ("model_checking", _R, "specs/Vfs.tla: derived results, announcements and database-wide reports"),
 "V03": ("model_checking", _R, "specs/Vfs.tla: everything above after panic recovery"),
 "V04": ("model_checking", _R, "specs/Lookup.tla: every path question over random trees with links, ignored names, nested roots in any order, buffers and roots added later"),
 "V05": ("model_checking", "TLA+ model of the threads, all interleavings checked with TLC; schedules forced on real threads, recorded outcomes judged by the specification", "specs/Conc.tla: all schedules of two threads at the stops, sampled ones of three and four"),
 "V06": ("model_checking", "TLA+ specification of paths and globs, enumerated with TLC; every question put to the real functions", "specs/PathAlg.tla: exhaustive over short path texts, pairs and patterns"),
 "P01": ("model_checking", "TLA+ enumerates and generates texts; the tree of each is recorded from the real parser and judged by the specification", "specs/Fragments.tla, PyMut.tla, TreeShape.tla: exhaustive short texts, mutated programs, long repetitions"),
 "P02": ("model_checking", "TLA+ specification of tree navigation judges every answer recorded from the real tree", "specs/TreeNav.tla: all nodes and positions of trees up to 56 nodes"),
 "P05": ("model_checking", "TLA+ grammar generates programs with their derivation, TLA+ enumerates broken lines; every line is put at every place between statements and the real tree compared with the derivation", "specs/PyGen.tla, Fragments.tla: hundreds of programs, all places at all block levels, 100000 broken lines"),
 "P06": ("model_checking", "TLA+ specification of how the engine reads a grammar makes random grammars and prescribes the tree of every short input; the real engine is built for each grammar at run time", "specs/Engine.tla: thousands of random grammars, every input of up to 4-6 tokens"),
 "P03": ("model_checking", "TLA+ state machine of the tokenizer, explored exhaustively over alphabets of lexically relevant pieces; every behaviour is replayed and all leaves of the real tree compared", "specs/Lexer.tla: all texts of up to 3-5 pieces of 14 alphabets, and generated broken programs"),
 "P04": ("model_checking", "TLA+ grammar generates programs with their derivation; replayed into the real parser", "specs/PyGrammar.tla, PyGen.tla: random derivations over the whole grammar"),
 "C01": ("model_checking", "TLA+ state machines decode literals; all of them within bounds are put to the real functions", "specs/Literal.tla, Concat.tla, IntLit.tla, DocText.tla: exhaustive over short bodies, all prefixes and quotes"),
 "C02": ("model_checking", "TLA+ state machine of the comments on top of the one of the tokenizer, explored exhaustively; every behaviour is put to the real functions", "specs/Ignores.tla, Lexer.tla: all texts of up to 4-6 pieces of 6 alphabets, every range of lines, suggested insertions parsed again"),
 "C03": ("model_checking", "TLA+ specification of ranges judges the answers recorded from the real tree for every position", "specs/Ranges.tla: all positions of generated and enumerated texts"),
 "C04": ("model_checking", "TLA+ specification of what is under a cursor judges the answers recorded from the real tree for every position of generated programs, also cut off there, and of broken texts", "specs/Cursor.tla, PyGen.tla, PyMut.tla, Fragments.tla: all positions; 400000 texts of four pieces asked"),
 "C05": ("model_checking", "TLA+ grammar generates programs; a TLA+ specification of the parts of every construct and of the nature of every name judges what the real accessors say", "specs/Accessors.tla, PyGen.tla: random derivations over the whole grammar"),
 "L01": ("model_checking", "TLA+ state machine of signed, altered and verified licences, explored exhaustively and replayed into the real code", "specs/License.tla, LicenseText.tla: all changes of one or two fields, signature damages and key sets"),
 "L02": ("model_checking", "TLA+ state machine of signed and verified licences, explored exhaustively and replayed into the real code", "specs/License.tla, LicenseDays.tla: all small periods and moments at four times, days up to 2^64"),
}
