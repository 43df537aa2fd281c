#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (one P(...) per property)."""
import json, os
OUT = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
L = []
def P(id, title, statement, over, text, why, files, mech, observe=None):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "hook_needed": None}
    if observe: a["observe_at"] = observe
    L.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

# ---------------------------------------------------------------- RPA: grammars and matching
P("A01", "A rule matches exactly what its grammar text says",
  "For every well-formed grammar and every input, matching a rule consumes exactly the number of bytes given by the meaning of the grammar operators (literals and escapes, character classes, '.', sequence, ordered choice, greedy ? + *, exclusion '-', negation '^', references), and fails otherwise. A rule that consumes nothing counts as not matching. Parsing, matching and executing agree on the size.",
  ["programs", "inputs"], "all grammars over the operators, all inputs, all start positions",
  "The tests run a few dozen fixed grammar fragments, most as hand assembled programs; nearly all pairs of operator nesting and input are never tried.",
  ["rpa/rpacompiler.c", "rpa/rpaparser.c", "rpa/rpadbex.c", "rpa/rpavm.c", "rpa/rpastat.c"],
  [("code emitted per operator", "rpa/rpacompiler.c"), ("matcher opcodes", "rpa/rpavm.c"), ("translation of grammar text", "rpa/rpadbex.c rpa_parseinfo_*/rpa_dbex_rh_*")],
  ["rpa_stat_match", "rpa_stat_parse", "rpa_stat_exec"])
P("A02", "Parse records are exactly the derivation tree of the match",
  "After a successful parse the records form one properly nested list of start/end pairs, one pair per successful emitting rule application on the accepted derivation path, in derivation order, with exact rule name, rule number, input position and matched size. Nothing from abandoned alternatives, failed repetitions or exclusions, or earlier parses remains.",
  ["programs", "inputs"], "all grammars, inputs and start rules",
  "Existing tests check only a postfix printout of a few expressions; backtracking leaves traces only in particular combinations of choice, repetition and reuse of cached results.",
  ["rpa/rpastat.c", "rpa/rpavm.c", "rpa/rpacompiler.c", "rpa/rpacache.c", "rpa/rparecord.c"],
  [("record emission and rollback", "rpa/rpavm.c"), ("record transfer to caller", "rpa/rpastat.c rpa_stat_parse")], ["rpa_stat_parse records array"])
P("A03", "Optimisations never change the result of matching or parsing",
  "For every grammar and input, all combinations of the optimisation switch, the bitmap switch and the result cache (on, off, any cache history) give the same match size, the same records and the same errors.",
  ["programs", "inputs", "configurations"], "all grammars x inputs x switch settings x cache histories",
  "Tests run everything with the default switches; the optimised forms (merged classes, single-instruction loops, first-character filters, memoised results) are equivalent only if every precondition is checked for every grammar.",
  ["rpa/rpaoptimization.c", "rpa/rpabitmap.c", "rpa/rpacache.c", "rpa/rpadbex.c"],
  [("class/loop merging", "rpa/rpaoptimization.c"), ("first-character bitmaps", "rpa/rpabitmap.c"), ("memoisation", "rpa/rpacache.c, rpa/rpavm.c")])
P("A04", "UTF-8, UTF-16LE and byte input give the same parse of the same characters",
  "For any text, matching its UTF-8 and its UTF-16LE encoding (and its byte encoding when all characters are below 256) accepts the same number of characters and produces the same records up to the width of each character. Malformed or truncated sequences are consumed one byte at a time and never read past the end of the input.",
  ["inputs", "configurations"], "all texts, all encodings, all truncations",
  "Tests use ASCII in UTF-8 almost exclusively.",
  ["rpa/rpastat.c", "rlib/rutf.c"], [("input window filling", "rpa/rpastat.c rpa_stat_*"), ("decoders", "rlib/rutf.c")])
P("A05", "Case-insensitive matching equals matching modulo letter case",
  "With the case-insensitive flag a grammar accepts an input exactly when, character by character, it would be accepted under comparison of each input character or its other-case partner with the pattern; case pairs cover ASCII, Latin-1, Greek and Cyrillic letters. Reported offsets and texts always refer to the original input.",
  ["inputs", "programs"], "all grammars and texts, in every encoding",
  "No test uses the case-insensitive flag on non-ASCII letters or classes.",
  ["rlib/rcharconv.c", "rpa/rpastat.c", "rpa/rpavm.c"], [("case partner of a character", "rlib/rcharconv.c"), ("comparison with both forms", "rpa/rpavm.c")])
P("A06", "Left-recursive rules parse the longest left-associative derivation",
  "A directly or indirectly left-recursive rule terminates on every input and accepts the input obtained by repeatedly growing the left operand until no larger match exists. The records nest to the left, one level per growth step, and agree with the accepted span.",
  ["programs", "inputs"], "all left-recursive grammars and inputs",
  "A handful of fixed left-recursive grammars on one input each; termination and associativity are statements about all inputs.",
  ["rpa/rpacompiler.c", "rpa/rpavm.c", "rpa/rpastat.c", "rpa/rpadbex.c"],
  [("loop detection", "rpa/rpadbex.c"), ("seed growing", "rpa/rpavm.c"), ("record rearrangement", "rpa/rpastat.c rpa_stat_normalizeleftrecursion")])
P("A07", "Emission directives decide exactly which rules appear in the tree",
  "The emit, noemit, emitall, emitnone and emitid directives, taken in text order, decide for every rule whether its applications are recorded and with which user identifier; they never change which inputs match or the sizes matched. Children of a non-emitting rule appear under its nearest emitting ancestor.",
  ["programs", "inputs", "histories"], "all sequences of directives over all grammars",
  "Only one or two fixed directive uses are exercised.",
  ["rpa/rpadbex.c", "rpa/rpacompiler.c"], [("directive handling", "rpa/rpadbex.c"), ("rule preferences", "rpa/rpacompiler.c")])
P("A08", "The abort directive stops the parse at the first failing marked rule",
  "If a rule marked with the abort directive is tried and fails, the whole parse fails with the rule-abort error naming that rule, its identifier and the input offset, and with no alternative tried; grammars without the directive never report it. The session stays usable afterwards.",
  ["programs", "inputs"], "all grammars with marked rules and all inputs",
  "No existing test uses the abort directive.",
  ["rpa/rpadbex.c", "rpa/rpacompiler.c", "rpa/rpastat.c", "rpa/rpavm.c"], [("abort on failure", "rpa/rpacompiler.c"), ("error information", "rpa/rpastat.c")])
P("A09", "A grammar database obeys its open-load-close-compile-run life cycle",
  "Loading needs an open database and running needs a closed and compiled one; a call in the wrong state fails with the documented error code and changes nothing. Re-opening, loading more rules, changing settings and re-compiling at any time always leaves a database that behaves like a fresh one given the same rule text.",
  ["histories"], "all call sequences over one database",
  "Tests follow the single happy path create-open-load-close-compile.",
  ["rpa/rpadbex.c"], [("state checks", "rpa/rpadbex.c rpa_dbex_open/load/close/compile")], ["rpa_dbex_lasterror"])
P("A10", "Grammar text is accepted iff well-formed, and errors point at the fault",
  "Loading accepts a text exactly when it follows the rule grammar; otherwise it fails with a syntax error whose offset is the end of the longest well-formed prefix and whose line is the line of that offset, and adds no rule. A reference to a rule that does not exist makes compilation fail with the name of that rule.",
  ["inputs"], "all grammar texts", "No test loads a malformed grammar text.",
  ["rpa/rpaparser.c", "rpa/rpadbex.c"], [("grammar parser", "rpa/rpaparser.c"), ("error information", "rpa/rpadbex.c")])
P("A11", "Scanning finds the leftmost match and reports its place and size",
  "Scanning returns the first position at which the rule matches together with the size matched there, and reports no match only if there is none at any character boundary up to the end. Repeated scanning from the end of each match enumerates all non-overlapping matches in order and always terminates.",
  ["inputs", "programs"], "all grammars and inputs", "Only the command line tool scans; no test calls it.",
  ["rpa/rpastat.c"], [("scan loop", "rpa/rpastat.c rpa_stat_scan")])
P("A12", "Navigation over parse records is consistent with their nesting",
  "Over every record array produced by a parse, first/last child, next/previous sibling, parent and branch size describe the same ordered tree as the nesting of start and end records, from both the start and the end record of each node. Copying or moving a branch yields exactly the records of that branch, and selecting a node's user type affects just that node.",
  ["inputs", "histories"], "all record trees and all nodes", "No test of tree navigation exists beyond one postfix printout.",
  ["rpa/rparecord.c"], [("tree walking", "rpa/rparecord.c")])
P("A13", "Parsing sessions are independent of each other and of their own past",
  "The result of a parse depends only on the grammar and the input: reusing one session for any sequence of parses, or running several sessions over one compiled database from several threads in any interleaving, gives each call the result it has alone. Errors, aborts and failed parses leave no residue.",
  ["histories", "schedules"], "all sequences of calls on a session; all interleavings of sessions",
  "Tests create one session per parse and use no threads.",
  ["rpa/rpastat.c", "rpa/rpacache.c", "rpa/rpadbex.c"], [("per-call initialisation", "rpa/rpastat.c rpa_stat_init"), ("cache invalidation", "rpa/rpacache.c")])
P("A14", "The rule table lists, names and finds exactly the loaded rules",
  "After closing a database, enumerating its rules forward and backward visits every loaded named rule, anonymous rule and directive once in load order; looking a name up gives the latest rule of that name and fails for any other name. Name, text and length of each rule are the ones written in the grammar.",
  ["histories", "inputs"], "all grammars and load sequences", "Only lookups of existing names are used by tests.",
  ["rpa/rpadbex.c", "rlib/rharray.c"], [("rule table", "rpa/rpadbex.c rpa_dbex_rebuildruleinfo")])
# ---------------------------------------------------------------- REX
P("X01", "A compiled regular expression accepts exactly its language",
  "For every expression over the supported syntax (characters, escapes, classes and negated classes, numeric characters, '.', grouping, alternation, ? + * and counted repetition) and every input, simulating the compiled expression reports exactly the non-empty prefixes of the input that belong to the language of the expression.",
  ["programs", "inputs"], "all expressions and inputs", "Tests cover a few expressions against one or two strings each.",
  ["rex/rexcompiler.c", "rex/rexfragment.c", "rex/rexdb.c", "rex/rexnfasimulator.c", "rex/rextransition.c"],
  [("expression parser", "rex/rexcompiler.c"), ("fragments", "rex/rexfragment.c"), ("simulation", "rex/rexnfasimulator.c")])
P("X02", "Determinised databases accept the same words with the same user data",
  "Converting a database of one or more expressions to deterministic form keeps, for every input, the longest accepted length and the set of expressions (identified by their user data, in priority order) that accept there. Every deterministic state has at most one transition per character.",
  ["programs", "inputs"], "all databases of expressions and inputs", "One test builds small deterministic databases; equivalence ranges over all expressions and inputs.",
  ["rex/rexdfaconv.c", "rex/rexdfa.c", "rex/rexdfasimulator.c", "rex/rexdb.c", "rex/rexstate.c"],
  [("subset construction", "rex/rexdfaconv.c"), ("packed form", "rex/rexdb.c rex_db_todfa")])
P("X03", "Regex match is the longest prefix and scan is leftmost-longest",
  "Matching a regex object returns the length of the longest matching prefix; scanning returns the first position at which a non-empty match exists and its longest length there, in byte and UTF-8 mode, regardless of the prefilter. One regex object gives the same answers when reused any number of times.",
  ["inputs", "programs", "histories"], "all expressions, texts and encodings", "The regex object program in the tests acts only on arguments that no test gives.",
  ["rex/rexregex.c", "rex/rexdfa.c"], [("match and scan", "rex/rexregex.c"), ("prefilter", "rex/rexdfa.c rex_dfa_hash")])
P("X04", "Malformed expressions are rejected and leave the database unchanged",
  "An expression is accepted exactly when it is well-formed; a malformed one is refused with an error result, and the expressions added before it keep matching as before. Rejection never crashes and never yields a usable regex object.",
  ["inputs", "histories"], "all expression texts and add sequences", "No test adds a malformed expression.",
  ["rex/rexcompiler.c", "rex/rexdb.c", "rex/rexregex.c"], [("error handling", "rex/rexcompiler.c"), ("construction failure", "rex/rexregex.c")])
P("X05", "The generated scanner recognises the tokens of its specification file",
  "For every token file, the tables written by the lexer generator, compiled into a program and driven by the published macros, return at every position the longest token and, among equally long ones, the token listed first; user code before and after the rules is kept verbatim.",
  ["programs", "inputs"], "all token files and inputs", "The generator is run once in the build, and its output is never checked.",
  ["rexcc/rexcc.c", "rexcc/rexccmain.c", "rex/rexdfatypes.h"], [("table output", "rexcc/rexcc.c"), ("token file parser", "rexcc/rexcc.c rex_cc_parse")])
# ---------------------------------------------------------------- RVM
P("V01", "Arithmetic and logic instructions compute the documented word and flags",
  "For all operand words, each arithmetic, logic, shift, compare and test instruction stores the mathematically right machine word and sets zero, negative, carry and overflow exactly as unsigned/signed arithmetic requires, so that multi-word additions and subtractions chained through the carry are exact. Instructions without the flag suffix leave flags alone; division by zero stops with an error.",
  ["inputs", "programs"], "all operand values and flag states", "Each instruction is tested on a few operand values; carry corner cases are values tests do not hit.",
  ["rvm/rvmcpu.c", "rvm/rvmcpu.h"], [("instruction implementations", "rvm/rvmcpu.c")])
P("V02", "Control flow and the stack of the virtual machine behave as documented",
  "Conditional branches are taken exactly when the flags satisfy their condition; branches, calls and returns transfer control to the designated instruction; push/pop, multi-register push/pop and frame-relative loads and stores are last-in first-out and address the right slots. Exceeding the stack stops with an error instead of touching other memory.",
  ["programs"], "all programs", "Each instruction appears in a few straight line tests.",
  ["rvm/rvmcpu.c"], [("conditions, branches, stack", "rvm/rvmcpu.c")])
P("V03", "Linking resolves every label to its final address or names the missing one",
  "Whatever the order of emitting code, defining, redefining and referencing labels, linking patches each branch, jump, string and data reference to the final place of its label; a reference to an undefined label makes linking fail and names that label. Looking labels up by name or number is consistent with the order of definition.",
  ["programs", "histories"], "all sequences of emission and definition", "Tests use a couple of labels each.",
  ["rvm/rvmcodegen.c", "rvm/rvmcodemap.c", "rvm/rvmrelocmap.c"], [("relocation", "rvm/rvmrelocmap.c"), ("labels", "rvm/rvmcodemap.c")])
P("V04", "Nested variable scopes resolve to the innermost visible definition",
  "At every point a name resolves to its latest definition in the innermost open scope that has one, a tip lookup sees only the innermost scope, and closing a scope restores exactly the definitions visible before it was opened.",
  ["histories"], "all sequences of push, pop and define", "One fixed push-pop sequence is tested.",
  ["rvm/rvmscope.c"], [("scope stack", "rvm/rvmscope.c")])
# ---------------------------------------------------------------- rlib
P("L01", "Growable arrays hold exactly the sequence of elements put into them",
  "After any sequence of add, insert, replace, delete, push, pop, move, copy, append and resize operations, an array contains exactly the resulting sequence, and the element addresses of a chunked array stay the same while it grows. Out-of-range requests are refused without effect.",
  ["histories"], "all operation sequences and element sizes", "Tests use one or two fixed sequences per operation.",
  ["rlib/rarray.c", "rlib/rcarray.c"], [("growth and moving of elements", "rlib/rarray.c"), ("chunks", "rlib/rcarray.c")])
P("L02", "Hash tables and maps are faithful multimaps under any history",
  "After any sequence of additions, replacements and removals, lookups return the first (or, where asked, the last) live entry of the key, removal takes away exactly the documented entries, iteration visits exactly the live entries in insertion order in both directions, and freed places are reused without disturbing others.",
  ["histories"], "all operation sequences, including colliding keys", "Tests insert a few keys; deletions with collisions and reuse of freed nodes are barely touched.",
  ["rlib/rhash.c", "rlib/rmap.c"], [("buckets", "rlib/rhash.c"), ("node reuse", "rlib/rmap.c")])
P("L03", "Named arrays keep names, indexes and lookups in step",
  "In an array with named members, every index keeps the name and value it was given, replacing a value changes no other member, and head and tail lookups by sized or plain string give the first and the last index added under the name.",
  ["histories"], "all operation sequences", "Tests never look up duplicate names.",
  ["rlib/rharray.c"], [("name index", "rlib/rharray.c")])
P("L04", "Reference-counted objects live exactly as long as someone holds them",
  "An object with a reference count is destroyed exactly once, when the last holder releases it, under every interleaving of acquire and release by concurrent holders; a collector destroys everything still registered exactly once, and removed objects not at all.",
  ["schedules", "histories"], "all interleavings and histories of acquire/release/register", "Tests are single threaded and use one or two references.",
  ["rlib/rref.c", "rlib/robject.c", "rlib/rgc.c"], [("counting", "rlib/rref.c"), ("collector list", "rlib/rgc.c")])
P("L05", "The spin lock is mutually exclusive and the atomics lose no update",
  "Under every interleaving at most one thread is inside the lock, a waiting thread gets in once it is free, trying a held lock fails at once without side effect, and concurrent atomic additions, subtractions, exchanges and compare-exchanges are never lost.",
  ["schedules"], "all interleavings of threads", "The lock test runs one interleaving per run and cannot enumerate schedules.",
  ["rlib/rspinlock.c", "rlib/ratomic.c", "arch/unix/rtypes.h"], [("compare-exchange loop", "rlib/rspinlock.c"), ("atomic primitives", "arch/unix/rtypes.h")])
P("L06", "Destroying what was created returns the memory account to where it was",
  "The allocation counter always equals the bytes currently allocated through the library, and after destroying everything created, over any history including failed loads, syntax errors and aborted parses, it is back at its starting value.",
  ["histories"], "all create/use/destroy histories of every component, including error paths", "Leak lines of the tests cover only their own happy paths.",
  ["rlib/rmem.c", "rpa/rpadbex.c", "rpa/rpastat.c", "rex/rexdb.c", "rex/rexregex.c"], [("accounting", "rlib/rmem.c")])
P("L07", "Character decoding and encoding are inverse and stay inside the buffer",
  "Decoding the encoding of any character in UTF-8 or UTF-16LE yields that character and consumes exactly what encoding wrote; on truncated or malformed input the decoders consume at least one and never more than the available bytes, and report the raw byte. Case partner conversion is an involution on letters that have a partner and identity elsewhere.",
  ["inputs"], "all code points and byte sequences", "No test calls the decoders directly.",
  ["rlib/rutf.c", "rlib/rcharconv.c"], [("decoders and encoders", "rlib/rutf.c")])
P("L08", "String helpers equal the operations on character sequences they name",
  "String objects and helpers (create, assign, append, compare sized and plain, find character or substring forward and backward, duplicate, number conversion) give the results of the corresponding operations on sequences, within the sizes given, for all contents.",
  ["inputs", "histories"], "all strings and sizes", "Tests use a few fixed strings.",
  ["rlib/rstring.c", "rlib/rmem.c"], [("string functions", "rlib/rstring.c")])
# ---------------------------------------------------------------- JSON
P("J01", "JSON text is accepted iff well-formed, with the right value",
  "Reading a text succeeds exactly when it begins with a well-formed JSON value whose nesting is within the requested depth, and yields that value with exact strings (all escapes decoded), 64-bit integers, reals, booleans, nulls, arrays and objects. Otherwise reading fails with an error and never with a partial success.",
  ["inputs"], "all texts and depth limits", "JSON has no test in the suite.",
  ["rexjson/rexjson++.cpp", "rexjson/rexjsondfa.rexcc"], [("tokens", "rexjson/rexjsondfa.rexcc"), ("recursive descent", "rexjson/rexjson++.cpp input::parse_*")])
P("J02", "Writing a JSON value and reading it back gives the same value",
  "For every value, compact and pretty output are well-formed JSON denoting that value (reals to the requested precision, null properties left out exactly when asked), so reading what was written gives the value again. Non-finite reals are written as null.",
  ["inputs", "configurations"], "all values and output settings", "JSON has no test in the suite.",
  ["rexjson/rexjson++.cpp"], [("escaping", "rexjson/rexjson++.cpp escape_str_val"), ("layout", "output::write_stream")])
P("J03", "The C JSON parser records exactly the tree of the text within its limits",
  "The C interface fills the caller's record array with properly nested begin/end records for the value, with exact kinds, names, offsets and sizes, returns the size of the parsed value, and navigation over the records yields the children in text order. Errors (unexpected character, nesting too deep, too few records) are reported with their code and offset, without writing outside the array.",
  ["inputs", "configurations"], "all texts, record array sizes and depth limits", "JSON has no test in the suite.",
  ["rexjson/rexjson.c"], [("records", "rexjson/rexjson.c rexjson_record_add"), ("navigation", "rexjson_recordtree_*")])
P("J04", "JSON values behave as independent typed values",
  "Copying, assigning and moving values gives independent deep copies (a moved-from value becomes null, self-assignment is harmless); access with the wrong type or an index out of range fails with an error and leaves the value unchanged; everything a value holds is released exactly once.",
  ["histories"], "all sequences of value operations", "JSON has no test in the suite.",
  ["rexjson/rexjson++.cpp", "rexjson/rexjson++.h"], [("copy, move and type checks", "rexjson/rexjson++.cpp value")])
P("J05", "JSON-RPC calls always answer with the result or the right error",
  "Every request gets a response carrying the request's id and either the method's result with a null error or a null result with the error code of its fault (unparsable, not an object, missing or non-string method, unknown method, bad parameters, failing method). Methods run exactly once with exactly the given parameters; registering a name again replaces the method.",
  ["inputs", "histories"], "all requests and registration histories", "The RPC header is only syntax checked by the build.",
  ["rexjsonrpc/rpcserver.h"], [("dispatch", "rexjsonrpc/rpcserver.h rpc_server::call"), ("parameter checks", "verify_parameters")])
P("J06", "Property trees enforce access rights, checks and paths",
  "Setting a property writes the bound variable if and only if write access is allowed, the check accepts and the type fits, and calls the change notification exactly once after the write; reading needs read access. A path reaches exactly the property named by its steps and any other path fails without effect; enumeration visits every leaf once with its path.",
  ["histories", "inputs", "configurations"], "all property trees, paths and values", "The property code is only syntax checked by the build.",
  ["rexjsonrpc/property.h", "rexjsonrpc/property.cpp"], [("access checks", "rexjsonrpc/property.h property_object/property_range"), ("navigation", "property_map/property_array")])
# ---------------------------------------------------------------- tools
P("T01", "The regex grep tool prints exactly the matching lines or matches",
  "For every set of patterns and input, line mode prints exactly the lines that contain a match of some pattern, in order and once each, and only-matching mode prints exactly the leftmost-longest matches; deterministic, simulated and saved-and-reloaded automata give identical output.",
  ["inputs", "programs", "configurations"], "all patterns, inputs and mode switches", "No test runs the tool.",
  ["rexgrep/rexgrep.c", "rexgrep/rexgrep-main.c"], [("line and match scanning", "rexgrep/rexgrep.c")])
P("T02", "The grammar grep tool prints exactly the matches its grammar defines",
  "For every grammar and input, line mode prints exactly the lines containing a match, scan mode every non-overlapping match in order, match and parse modes the match at the start and its parsed rules, and the exit status is zero exactly when something matched.",
  ["inputs", "programs", "configurations"], "all grammars, inputs and mode switches", "No test runs the tool.",
  ["rpagrep/rpagrep.c", "rpagrep/unix/rpagrep-main.c"], [("modes", "rpagrep/rpagrep.c")])
with open(OUT, "w") as f:
    for x in L: f.write(json.dumps(x) + "\n")
print(len(L), "properties")
