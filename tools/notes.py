"""technique and level_note per property, for MANIFEST.json."""
JUDGE = "TLA+ specification evaluated by TLC as oracle over recorded runs of the code (model-based conformance)"
STATE = "TLA+ state machine checked with TLC; its transitions replayed on the code and recorded traces validated against it"
NOTES = {
 "A01": (JUDGE, "Every operator of the grammar language is specified in spec/RpaPeg.tla; TLC recomputes the match size of every case. Exhaustive over small expressions and words, seeded random beyond. Assumes inputs of at most 9 characters."),
 "A02": (JUDGE, "spec/RpaPeg.tla derives the record list with the match; whole records (type, rule, uid, place, size, name) of single and appended parses are compared. Grammars of up to 4 rules."),
 "A03": (JUDGE, "The specification has no optimisations: every session is run under all 8 combinations of optimisation, bitmap and cache, and each result has to be the specified one."),
 "A04": (JUDGE, "spec/Utf.tla decodes UTF-8, UTF-16LE and bytes, malformed input included; results in bytes follow from the decoded characters. Exhaustive truncations of multi-byte characters, random texts and damage."),
 "A05": (JUDGE, "spec/Utf.tla holds the case pairs; the specification compares characters modulo case. Random texts over the borders of every letter range."),
 "A06": (JUDGE, "Left recursion is specified by growing a seed. Direct and indirect (2- and 3-rule) recursion, groups, right operands, directives. Overlapping recursive cycles are left out (no agreed meaning)."),
 "A07": (JUDGE, "Directives are folded in text order in the specification; match and tree of grammars with up to 4 directives compared."),
 "A08": (JUDGE, "The specification has an abort outcome that carries rule and position; return value, error code, name, uid and offset compared, over sessions of 2-3 calls."),
 "A11": (JUDGE, "Scan is specified as the first matching character boundary, repeated scan as iteration of it; inputs of up to 14 characters in three encodings."),
 "A09": (STATE, "spec/RpaLife.tla: open, load, close, compile, run, look-ups as a transition system; all its transitions within the model's bounds are replayed, random longer histories validated by RpaLifeTrace. Pool of 3 grammars and 3 bad texts."),
 "A10": (JUDGE, "spec/RpaMeta.tla reads grammar text character by character; acceptance, error offset and line, resulting rules and unresolved names compared. All texts up to 2 tokens, mutations of valid grammars, damaged UTF-8. Nesting up to 90 (deeper: only that it is refused with a code)."),
 "A12": (JUDGE, "spec/RpaTree.tla defines every navigation function, branch copy, move and user types from the nesting of the records alone; all functions on all records of each parse, plus histories of changes."),
 "A13": (JUDGE, "Several sessions on one database with different stack sizes, call sequences with aborts and refused input, and 8 threads; each single answer must be the one the specification gives for a fresh session. Thread schedules are sampled, not enumerated."),
 "A14": (JUDGE, "spec/RpaMeta.tla gives the table (names, numbers, source text, directives) of up to three texts; table walks forth and back and look-ups compared."),
 "V01": (JUDGE, "spec/RvmAlu.tla computes on bit sequences, so 64-bit words are exact; spec/RvmAluMC.tla proves the definitions against integer arithmetic for all words of 3 bits with TLC. Words from all borders and random ones; loads and stores of every width and register mask. The inverted overflow flag of subtractions is a known finding."),
 "V02": (JUDGE, "spec/RvmCpu.tla is a transition system of the whole machine (registers with types, stack, flags, calls); TLC runs it over random and structured programs in three execution modes and compares the final state, the calls made and the order of execution. Programs of up to about 60 instructions and 300 steps."),
 "V03": (STATE, "spec/RvmLink.tla: emission, labels, data, references and linking as a transition system; every transition of the bounded model is replayed, random longer histories (reallocation, redefinition, relinking) validated by RvmLinkTrace. Behaviour after cutting code below a reference is left out."),
 "V04": (STATE, "spec/RvmScope.tla against a second description (a table per open scope) in RvmScopeMC; every transition of the bounded model is replayed, random histories of up to 120 calls validated. Closing a scope that is not open is left out."),
 "L01": (STATE, "spec/RlArray.tla (plain and chunked arrays as sequences with what was once written behind the end); every transition of the bounded model is replayed, random histories with elements of 1..64 bytes up to 2500 elements validated. Contents behind the length after shrinking are left open."),
 "L02": (STATE, "spec/RlHash.tla, spec/RlMap.tla: bags of key/value in insertion order; every transition replayed, random histories over four kinds of key, few buckets and up to 60-120 calls validated."),
 "L03": (STATE, "spec/RlNamed.tla: the named array as a sequence of name/value; every transition replayed, random histories, copies outliving their origin."),
 "L04": (STATE, "spec/RlSpinMC.tla proves the counting algorithm for all interleavings of 2 (thorough 3) threads; the real code runs under a coroutine scheduler that switches at every memory access (preemption bound 2/3 and random schedules) and TLC decides whether each history is linearizable (RlSyncTrace); collectors, nested collectors and lists: RlObj and RlList with their transitions replayed and random histories validated. Sequentially consistent memory only."),
 "L05": (STATE, "As L04 for lock, trylock and atomics; besides, 2-8 threads of the processor with results judged by RlStress. Schedules at every memory access with at most 2 (thorough 3) preemptions; memory order only as the x86 processor shows it."),
 "L06": (STATE, "spec/RlMem.tla: blocks and what they were booked with; every transition replayed, random histories validated, threads. Whole histories of every component (the driver lines of the other checks, failed loads, aborts and syntax errors included) run on a build with R_DEBUG_MEMALLOC; RlMemLife judges the account before, during and after. Only memory taken through r_malloc and its kin is on the account."),
 "L07": (JUDGE, "spec/Utf.tla; UtfMC proves encoding and decoding inverse and the case partner an involution for all code points with TLC; the code is judged on all code points both ways, all one- and two-byte and many longer sequences, all output sizes."),
 "L08": (STATE, "spec/RlStr.tla: string objects as byte sequences, every transition replayed, random histories validated; the plain helpers judged by RlJudge, exhaustively on short texts and on random ones. Numbers below 2^31; r_printf is not checked."),
 "X01": (JUDGE, "spec/Rex.tla: syntax (parser over character sequences) and language (derivatives). RexMC enumerates expressions to depth 2 with TLC, checks the derivatives against the set of words built bottom-up and that written texts parse back; the texts it prints are replayed on the code on all words to length 4. Generated expressions over several alphabets (UTF-8 of all widths, blanks, escapes, numerics, counts) with words near their language."),
 "X02": (JUDGE, "spec/RexJudge.tla: the real deterministic automaton (all states, transitions, user data) is explored in product with the derivatives of its expressions, over one representative of every class of characters nobody separates: equality for all inputs of that database. Also runs along words with the macros, rex_dfa_next and the simulator. Empty prefixes are not reported by the simulators."),
 "X03": (JUDGE, "spec/RexJudge.tla (ReOk): longest prefix and leftmost-longest by derivatives, byte and UTF-8 mode, long fillers against the prefilter, the same object used again and again, with and without the where argument."),
 "X04": (JUDGE, "spec/RexJudge.tla (HistOk): histories of additions, regex objects and simulations; every text of up to two fragments and many others; a refused text leaves the number of states and all answers as before. Texts the documentation leaves open (numerics without digits or beyond Unicode, counts above 5000, NUL) are skipped."),
 "X05": (JUDGE, "spec/Rexcc.tla reads token files (prolog, rules, epilog) and tokenises by the longest match, the earliest rule first; generated scanners are compiled and run, with and without sub-states, and the files written are compared (user code kept). Broken token files must give nothing. Prolog lines that end in the delimiter are left out."),
 "J01": (JUDGE, "spec/RxJson.tla: the grammar and the value of a text, byte by byte. All token sequences up to four tokens, all number shapes, all single bytes (sampled in quick), random nested texts and mutations, depth limits around the depth, all six ways of reading. Integers beyond 64 bits, reals of more than 15 digits and halves of surrogate pairs are left out."),
 "J02": (JUDGE, "RxJson reads what was written: it has to be one value and to denote (Denotes) the value that was built, for pretty, nullprop, tab, precision and line ends in all combinations; rounding exact on decimals, ties either way."),
 "J03": (JUDGE, "RxJson's events give the records, sizes, navigation and, for every record array size and depth limit, the earliest fault (ties either way); record arrays and texts are exactly sized heap blocks under ASAN, pre-filled with stale records."),
 "J04": (STATE, "spec/RxVal.tla: registers of values and calls on paths; RxValMC checks independence, moves and failing calls for all histories over small values, every transition is replayed and random histories with aliasing validated by RxValTrace, memory balance included. Moving a value into a part of itself is left out."),
 "J05": (STATE, "spec/RxRpc.tla: the table of methods and the answer to every request; RxRpcMC checks registration and dispatch, every transition is replayed, random histories of registrations and requests (text, value, parts; four entry points) validated. A wrong parameter of a typed wrapper may be answered with -1 or -32602."),
 "J06": (STATE, "spec/RxProp.tla: trees over typed variables, paths, rights, checks, notifications; RxPropMC checks rights, atomic failure and single notification, every transition is replayed, random trees and histories (growth, assignment between parts, copies) validated. Paths with other text than a step behind ']' and indexes with leading zeros are left out."),
 "T01": (JUDGE, "spec/RexJudge.tla (GrepOk): rexgrep itself is run on generated expressions (-e, -f), strings, standard input, files and directory trees in every mode (lines, only matching, names, DFA, NFA, sub-states, saved and loaded automata); TLC says what has to be printed from the derivatives. The exit status and -H with strings are left out."),
 "T02": (JUDGE, "spec/RpaJudge.tla (ToolOk): rpagrep itself is run on generated grammars (-e, -f) and texts in every mode (scan, -l, -m, -p, -x, -a), encoding (UTF-8, -b, -16, byte order mark), with -i and without cache, bitmaps, optimizations; TLC says from the grammar's meaning what has to be printed and which exit status is due. The text of -a is not judged; characters shown as garbage (controls, 127..255) are not generated."),
}
NA = {}
