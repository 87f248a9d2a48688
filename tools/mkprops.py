import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None,hook=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=state or [],mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe or [],hook_needed=hook)))
PX=["src/lib.rs","src/parser/mod.rs","src/parser/atom/mod.rs","src/parser/expression/mod.rs"]
p("C01","Parses sharing one rule set are isolated and follow PEG semantics",
 "Any number of caller threads may parse at the same time with one shared rule set: whatever the interleaving, every call terminates and returns the outcome PEG semantics give for its own text and that rule set alone - the same tree when the whole text matches, an error otherwise. Choice is ordered, repetition is greedy within its minimum and maximum, negation consumes nothing, and text may be any Unicode string.",
 ["schedules","inputs"],"every interleaving of concurrent parse calls (down to single memory accesses of the library), every well-formed (not left-recursive) rule set and every text",
 "The tests call parse from one thread at a time with a dozen ASCII samples; no test runs two parses at once or checks a tree produced under preemption.",
 PX,[("all parse state travels by value in a per-call Status, the rule set is only borrowed","src/parser/mod.rs Status"),("ordered choice / greedy bounded repetition / negation","src/parser/expression/mod.rs parse_or, parse_repeat, parse_not, parse_and"),("whole-input check","src/lib.rs parse_with_debug")],
 [dict(name="Status",meaning="position, remaining characters, potential error of one call",where="src/parser/mod.rs"),dict(name="SetOfRules",meaning="rule name to expression map, shared by reference between calls",where="src/parser/expression/mod.rs")],
 ["return value of parse / parse_debug"])
p("C02","Every failing call reports its own failure, exactly",
 "When several callers fail at the same time, each error describes the caller's own parse and nothing else: its position (character, row, column) and the text of the line before and after it belong to that caller's input, an error(...) construct that is reached outside a negation ends the parse with its message verbatim and is not overridden by other alternatives or repetitions, otherwise a choice reports its deepest failure, and a text matched only in part reports where its last repetition stopped (or, without one, where the match ended). The rule path is present only for debug parses and lists that call's rules only; a debug parse otherwise has the outcome of a normal parse.",
 ["schedules","inputs"],"every interleaving of concurrent failing parses and every failing text, including multi-line and non-ASCII ones",
 "Tests check is_err() on single-threaded samples; two compare a message, none compares position or line context, none runs failures concurrently.",
 PX,[("error built from the Status of the failing call","src/parser/mod.rs Error::from_status"),("deepest error selection and critical short-cut","src/parser/expression/mod.rs parse_or, parse_repeat"),("potential error kept for unconsumed text","src/lib.rs parse_with_debug")],
 [dict(name="potential_error",meaning="why the last repetition stopped",where="src/parser/mod.rs Status"),dict(name="walking_rules",meaning="rules entered so far (debug only)",where="src/parser/mod.rs Status")],
 ["Err value of parse / parse_debug"])
p("C03","No call leaves a trace: outcomes do not depend on history",
 "The outcome of a call - tree, rules, generated text or error, in every detail - depends only on its arguments: it is the same as if it were the first call of a fresh process, whatever calls came before it in the same process or thread. This covers earlier calls that failed, were rejected or used other rule sets with the same rule names, and memory of dropped rule sets and texts that has been reused.",
 ["histories"],"every sequence of earlier compile/parse/transform/generate calls on the same or other threads, including thousands of calls, and every reuse of freed memory",
 "Each test starts from fresh values and runs a handful of calls; none compares a call after a long or failing history with the same call in a fresh process.",
 PX+["src/peg/mod.rs","src/ast/mod.rs"],[("no statics, caches or thread-locals; per-call Status and Context","src/parser/mod.rs, src/peg/mod.rs Context")],
 [dict(name="Context.inside_mods",meaning="modules entered while compiling one grammar",where="src/peg/mod.rs")],["return values of every public operation"])
p("C04","Outcomes do not depend on hash seeds, clocks or memory layout",
 "Parsing, compiling a grammar, transforming a tree and generating code give identical results in every process, whatever the random hash seeds, the wall and monotonic clock (including jumps while a call runs), the addresses and previous contents of allocated memory, the number of processors, the environment variables, and the speed of the caller's thread.",
 ["configurations","fault_sequences"],"every assignment of process randomness, clock readings and jumps, allocator address and reuse policy",
 "A test run draws one set of hash seeds, one heap layout and an undisturbed clock; an outcome that depends on them differs only in some other process.",
 PX+["src/peg/mod.rs","src/peg/gcode.rs","src/ast/mod.rs"],[("rules are looked up by name, never by iteration order","src/parser/expression/mod.rs parse_rule_name"),("duplicates resolved by operation, not by map order","src/parser/expression/mod.rs SetOfRules::add, merge")],
 [dict(name="SetOfRules.0",meaning="HashMap with randomly seeded hasher",where="src/parser/expression/mod.rs")],["return values of every public operation"])
p("C05","A rule set changed at run time is exactly the changes applied to it",
 "After any history of adding, merging and compiling rules, moved between threads in any way, a rule set contains exactly the rules of a sequential model: adding a rule replaces the one of the same name, merging adds the other set's rules and keeps the receiver's own definition on a name clash, and nothing else changes. A parse uses the rules as they are when it starts; parsing never changes them.",
 ["histories","schedules"],"every history of add/merge/build/parse operations over several rule sets and threads, every serialisation order",
 "The tests do one add and one merge without a name clash, single-threaded, and then one parse.",
 ["src/parser/expression/mod.rs","src/lib.rs"],[("add inserts, merge chains the maps with the receiver last","src/parser/expression/mod.rs SetOfRules::add, merge"),("rule lookup at each reference","src/parser/expression/mod.rs parse_rule_name")],
 [dict(name="SetOfRules.0",meaning="current definitions",where="src/parser/expression/mod.rs")],["contents of the rule set","outcome of parse"])
p("C06","Concurrent grammar compilations each yield their own grammar",
 "Compiling a textual grammar returns the rules its notation denotes - literals with and without escapes, hex characters, classes, sequence/choice/repetition/negation precedence, comments, nested modules, error constructs - or an error when the text is not in the notation. This holds for every interleaving of compilations on several threads: no rule, name, literal or error of one compilation ever appears in, or disappears from, another.",
 ["schedules","inputs"],"every interleaving of concurrent compilations and every grammar text, valid or not",
 "Tests compile about twenty small grammars one at a time and mostly only check is_ok/is_err of a later parse.",
 ["src/peg/mod.rs","src/peg/rules.rs","src/peg/peg2code.rs"],[("built-in notation rules rebuilt per call","src/peg/rules.rs parse_peg"),("LL(1) walk over the flattened tree with a per-call Context","src/peg/mod.rs consume_*")],
 [dict(name="Context.inside_mods",meaning="stack of module names of one compilation",where="src/peg/mod.rs")],["return value of rules_from_peg"])
p("C07","Generated code is reproducible and denotes the same rules",
 "Turning a rule set into Rust source yields, for the same rules, the same text in every process and on every thread, however the rule set was built up and whatever the hash seeds; and that text denotes exactly those rules - every literal, error text, character class, bound and name, including quotes, backslashes and control characters.",
 ["configurations","schedules","inputs"],"every hash seed, every order in which rules were added, every interleaving of generating threads, every rule set expressible in the notation",
 "Only a doc example prints generated code; nothing reads it back, compares two processes or uses characters that need escaping.",
 ["src/peg/gcode.rs","src/peg/mod.rs"],[("fold over the rules with per-expression printers and escaping","src/peg/gcode.rs rust_from_rules, atom2code, match_rules2code")],
 [dict(name="SetOfRules.0",meaning="randomly ordered map that is iterated to emit code",where="src/peg/gcode.rs")],["text returned by rust_from_rules"])
p("C08","The generator program never ends successfully with incomplete output",
 "When the generator program exits with success, the bytes accepted by its standard output are exactly the complete generated rules for the parser's own grammar, each byte once and in order, and they denote the rules the library itself uses to read grammars. When output fails for good (disk full, broken pipe, I/O error) the program exits with failure, having written only a prefix; short and interrupted writes are no failure.",
 ["fault_sequences"],"every sequence of short writes, EINTR, EAGAIN, EPIPE, ENOSPC and EIO at every point of the output",
 "The only test prints to a captured buffer that never fails.",
 ["src/main.rs","src/peg/peg2code.rs","src/peg/gcode.rs"],[("one println! of the whole text; a write error panics","src/peg/peg2code.rs print_rules2parse_peg"),("main returns normally only after printing","src/main.rs")],
 [],["bytes written to file descriptor 1","process exit status"])
p("C09","A stalled or abandoned caller never holds up the others",
 "If a caller thread is suspended for any length of time, or never scheduled again, at any instant inside a call, all other callers' calls still complete within a bounded number of their own steps and with their normal outcomes; a suspended caller that resumes completes normally too.",
 ["schedules","fault_sequences"],"every set of stalled callers and every instant at which each is stalled, for every mix of operations",
 "Tests never suspend a thread inside the library.",
 PX+["src/peg/mod.rs","src/ast/mod.rs","src/peg/gcode.rs"],[("no locks, no shared mutable state","whole crate")],
 [],["completion and outcome of the calls of the unstalled threads"])
p("C10","Running out of memory never yields a wrong answer",
 "If any memory allocation fails at any instant of any call, either the process stops loudly (abort or panic) or the call returns exactly its normal outcome; a call never returns a truncated tree, missing rules, a different accept/reject decision or partial text, and concurrent callers' outcomes stay correct.",
 ["fault_sequences"],"every allocation, on every thread, at which memory runs out once or permanently",
 "Tests never make an allocation fail.",
 PX+["src/peg/mod.rs","src/ast/mod.rs","src/peg/gcode.rs"],[("infallible std containers only; allocation failure aborts","whole crate")],
 [],["process status, outcomes of calls that return"])
p("C11","Memory use does not grow with the number of calls",
 "Once the results of calls and the rule sets used are dropped, everything the calls allocated is released: in a process that keeps compiling, parsing (successfully or not), transforming and generating, retained memory stays bounded and does not grow with the number of calls. Heap blocks are released once, with their own size, and not written after release or out of bounds.",
 ["histories"],"every long history of operations on fresh inputs, including failing calls, on several threads",
 "Tests do not account for memory and run each operation a few times.",
 PX+["src/peg/mod.rs","src/ast/mod.rs","src/peg/gcode.rs"],[("owned trees and per-call state, no caches, no unsafe","whole crate")],
 [],["live bytes and blocks of the process heap between calls"])
p("C12","Length costs no stack: flat input runs on a small stack",
 "The stack that a parse or a tree transformation needs does not grow with the number of repetitions, sequence elements, alternatives, literal characters or sibling nodes it processes, only with nesting depth: parsing a long flat text and compacting, pruning, passing through or flattening a wide tree complete on a thread with a small stack, with the usual outcome. (Compiling a grammar is outside this promise: it recurses over the grammar's own length.)",
 ["configurations","inputs"],"every length of flat text, sequence, choice and sibling list, on any caller thread stack size that fits the nesting depth",
 "Tests parse at most a few dozen characters on the test runner's 2 MB stacks.",
 ["src/parser/expression/mod.rs","src/parser/atom/mod.rs","src/ast/mod.rs","src/ast/flat.rs"],[("trampolined loops instead of recursion","src/parser/expression/mod.rs parse_and, parse_or, parse_repeat (idata::tc::tail_call)"),("folds over siblings","src/ast/mod.rs, src/ast/flat.rs")],
 [],["stack high-water mark of the calling thread"])
p("C13","Tree transformations of a shared tree are exact and leave it intact",
 "Several threads may transform one tree at once, in any interleaving: compacting joins exactly the runs of adjacent values and keeps the text, pruning removes exactly the named nodes with their subtrees, passing through replaces exactly the nodes not named by their children (the root stays), and flattening lists begin, values and end of every node in document order. The shared tree itself is never changed.",
 ["schedules","inputs"],"every interleaving of transformations over shared trees, every tree and every list of names",
 "One doc example per transformation, single-threaded, on trees of three to five nodes.",
 ["src/ast/mod.rs","src/ast/flat.rs"],[("transformations take &self and build new trees","src/ast/mod.rs prune, pass_through_except, compact; src/ast/flat.rs flatten")],
 [],["returned trees","the input tree after the calls"])
p("C14","Readers of a shared node list take exactly what they name",
 "Several threads may read one tree, or one flattened node list, at once with the reading helpers (take the first node, peek, take a value, take this value, take the node of this name with its sub-nodes, take this begin or end, check for emptiness): in any interleaving, a reader returns exactly the node, value or name at the head of the list it was given and exactly the rest of that list; when the head is not what was asked for, or the list is empty, it returns an error and nothing is consumed. The error is the one of the same call made alone.",
 ["schedules","inputs","histories"],"every interleaving and sequence of reads over shared lists, every list (with empty and non-ASCII names and values, and end-of-file nodes) and every name asked for",
 "One doc example per reader on lists of one to three nodes, single-threaded; most error branches are never taken.",
 ["src/ast/mod.rs","src/ast/flat.rs"],[("slice-splitting helpers that borrow from the caller's list","src/ast/mod.rs split_first_nodes, consume_val, consume_this_value, consume_node_get_subnodes_for_rule_name_is, check_empty_nodes, get_*; src/ast/flat.rs split_first_nodes, consume_*, peek_first_node, get_*")],
 [],["returned nodes and rests","returned errors"])
# not applicable: pure functions of their input
p("N01","Left-recursive rule sets are rejected instead of overflowing the stack",
 "A rule that reaches itself without consuming input is reported as an error rather than exhausting the stack of the caller.",
 ["programs"],"every rule set","No test uses a left-recursive rule set.",
 ["src/parser/expression/mod.rs"],[("none: rule references recurse","src/parser/expression/mod.rs parse_rule_name")])
p("N02","Parsing time is polynomial in the text length",
 "For a fixed rule set the work of one parse grows polynomially with the text.",
 ["inputs"],"every rule set and text","Tests use short texts.",
 ["src/parser/expression/mod.rs"],[("none: plain backtracking without memoisation","src/parser/expression/mod.rs parse_or")])
p("N03","Every generated rule set compiles with rustc and the crate's macros",
 "Pasting the generated text into the rules! macro compiles and evaluates to the original rules for every rule set, including end-of-file atoms.",
 ["programs"],"every rule set","Only the parser's own grammar was ever pasted back.",
 ["src/peg/gcode.rs","src/lib.rs"],[("one macro call per expression","src/peg/gcode.rs expr2code")])
p("N04","The construction macros build the expression they read as",
 "Each construction macro evaluates to exactly the expression its arguments describe, for every nesting.",
 ["programs"],"every macro program","Doc tests use each macro once or twice.",
 ["src/lib.rs"],[("macro_rules expansions","src/lib.rs rules!, lit!, ematch!, and!, or!, not!, rep!")])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x,ensure_ascii=False)+'\n' for x in P))
