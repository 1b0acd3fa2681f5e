"""What each check runs, and what its evidence says about it."""
COMMON = ["clang's sanitizers report every out-of-bounds or use-after-free access made by the code under test",
          "the harness's reference models and ledgers are correct",
          "a sampled search: behaviours outside the explored seeds are not covered"]
ALLG = ["g/%s.cpp" % g for g in "bytes cls ctx delim expr ident json lists lits look misc nums recov scan state tree uni ws xml".split()]
def gram(h, chunk, quick, thorough, **k):
    return dict(name=h, sources=[h + ".cpp"] + ALLG, extra=["-std=c++20", '-DHARNESS_OPS="%s_ops.hpp"' % h], chunk=chunk, quick=quick, thorough=thorough, **k)
GREAL = ["include/lexy/dsl/*.hpp (nineteen grammars that together use every rule family)", "include/lexy/callback/*.hpp", "include/lexy/action/*.hpp", "include/lexy/grammar.hpp, lexeme.hpp, token.hpp, error.hpp, parse_tree.hpp"]
PROPS = {
 "C01": dict(level="exploration",
   harnesses=[dict(name="c01", sources=["c01.cpp"], chunk=200, quick=dict(runs=40000, time=240), thorough=dict(runs=1500000, time=700)),
              dict(name="c01p", sources=["c01.cpp"], extra=["-std=c++20", "-U__unix__"], chunk=200, quick=dict(runs=10000, time=120), thorough=dict(runs=300000, time=200))],
   rule="A run is a sequence of 2 to 4 read_file calls over files of chosen size and content, encodings and memory resources; each OS call and allocation outcome is a decision; the last call runs with faults off and has to succeed. The same runs once over the POSIX implementation and once over the portable one (C I/O, built without __unix__).",
   state_measure="(file size class, unit width, byte order, threw?, number of failed/short calls, errno of open, failing allocation)",
   tech="OS call and allocation outcomes decided per call, result compared with a reference model of the file",
   note="Sampled search over file contents, call outcomes and allocation failures; every seed is repeatable. Trusts the model in sim/c01.cpp and the interposition list.",
   real=["src/input/file.cpp", "include/lexy/input/file.hpp", "include/lexy/input/buffer.hpp", "the kernel's file data path on a scratch file"],
   stub=["outcome of open/openat/lseek/read/pread/readv/mmap/munmap/close/stat/fstat/fopen (link-time interposition)", "operator new/delete (ledger, failures)", "caller's memory resource"],
   assumptions=COMMON),
 "C02": dict(level="exploration",
   harnesses=[dict(name="c02", sources=["c02.cpp"], chunk=200, quick=dict(runs=40000, time=240), thorough=dict(runs=2000000, time=900))],
   rule="A run delivers a chosen text through a simulated standard input in chosen chunks (sizes around the internal buffer boundaries included), with or without a read error, to one to three successive reads in a chosen encoding, with allocation failures; plus the Compiler Explorer input in file and stdin mode.",
   state_measure="(size class of the input, unit width, byte order, chunking, error position class, failed allocation, outcome)",
   tech="delivery chunking, read errors and allocation outcomes decided per call, result compared with the delivered bytes",
   note="Sampled search; the stdio layer is glibc's own over a simulated device.",
   real=["include/lexy/input/file.hpp (read_stdin)", "include/lexy/_detail/buffer_builder.hpp", "include/lexy/input/buffer.hpp", "include/lexy_ext/compiler_explorer.hpp", "glibc stdio buffering"],
   stub=["the device behind stdin (fopencookie)", "operator new/delete (ledger, failures)"],
   assumptions=COMMON),
 "C03": dict(level="exploration",
   harnesses=[dict(name="c03", sources=["c03.cpp"], chunk=100, quick=dict(runs=60000, time=240), thorough=dict(runs=3000000, time=900))],
   rule="A run is a session of one to three inputs of one shell: lines of chosen lengths (around buffer growth boundaries) typed by a simulated user (user-written prompt, or the default prompt over simulated stdin and stdout), with closing, read errors, unterminated lines and allocation failures at chosen points, and a chosen sequence of peek/bump, mark, reset, re-reading old lexemes, looking up line and column of positions (with and without an anchor), and messages.",
   state_measure="(characters read/100, position/100, ended?, unit width, lines read, marks)",
   tech="user, terminal and allocator simulated, every read outcome decided; character stream, prompts and messages compared with a model of the session",
   note="Sampled search over sessions. For the default prompt the number of lines taken is derived from the prompts shown on simulated stdout.",
   real=["include/lexy_ext/shell.hpp (shell, input, writer, default_prompt)", "include/lexy/_detail/buffer_builder.hpp", "glibc stdio"],
   stub=["the user (lines, closing, errors)", "devices behind stdin and stdout", "operator new/delete (ledger, failures)"],
   assumptions=COMMON),
 "C04": dict(level="exploration",
   harnesses=[gram("c04", 100, dict(runs=120000, time=240), dict(runs=3000000, time=900))],
   rule="A run takes one grammar and one generated text (valid, mutated, truncated or random), parses it from a string with validate, then through a chosen other action and a chosen other way of delivery: buffer, zero-terminated string, forward-only range with iterator end or sentinel, user-written input, contents of a simulated file or stdin, or a shell session whose lines arrive under a chosen schedule; for the grammars that exist over several encodings also in another encoding (ASCII text: everything is compared, other well-formed text: verdict and number of errors).",
   state_measure="(grammar, action, kind of input, verdict, errors, productions)",
   tech="delivery of the input (kind, chunking, line arrival) decided per run, the full record of the parse compared with that of the same text in one string",
   note="Sampled search over texts and deliveries for nineteen fixed grammars; the reference is the same code over a plain string, so a bug that changes every delivery alike is outside this property.",
   real=GREAL + ["include/lexy/input/*.hpp", "include/lexy_ext/shell.hpp", "src/input/file.cpp"],
   stub=["the user at the prompt", "the devices behind files and stdin", "user-written input and iterators", "user callbacks"],
   assumptions=COMMON),
 "C05": dict(level="exploration",
   harnesses=[dict(name="c05", sources=["c05.cpp"], chunk=500, quick=dict(runs=400000, time=240), thorough=dict(runs=20000000, time=900))],
   rule="A run is a history of up to 40 operations on five buffers of one encoding: every constructor, builder (finished or abandoned), raw bytes in either byte order, copy, move, copy and move assignment (same, equal and different memory resources, self), release, adopt, destroy, reading to the end; any allocation may fail.",
   state_measure="(number of operations/4, per buffer: live?, size/4, unit width, released blocks)",
   tech="allocator simulated with a ledger, failures decided per allocation, every buffer compared with a model after every operation",
   note="Sampled search over histories; every block has its exact size, so any overrun or double free is seen.",
   real=["include/lexy/input/buffer.hpp", "include/lexy/_detail/memory_resource.hpp", "include/lexy/_detail/swar.hpp (reading to the end)"],
   stub=["the caller's memory resources (two equal, two different)", "operator new/delete (ledger, failures)"],
   assumptions=COMMON),
 "C06": dict(level="exploration",
   harnesses=[dict(name="c06", sources=["c06.cpp"], chunk=200, quick=dict(runs=100000, time=240), thorough=dict(runs=6000000, time=450)),
              gram("c06p", 100, dict(runs=50000, time=240), dict(runs=2000000, time=450)),
              dict(name="c06n", sources=["c06n.cpp"], chunk=1000, extra=["-std=c++20"], quick=dict(runs=100000, time=60), thorough=dict(runs=20000000, time=250))],
   rule="Three harnesses. Reading again: a random tree, and every node of its first levels, is the input of a parse by node grammars (tnode and pnode with and without a rule, lists, choices, recursion, automatic whitespace, recovery); tokens, errors, values, outcome and end are compared with a model that walks a copy of the tree. Parsing: a history of parse_as_tree calls over nineteen grammars into the same or other trees, with memory resources, allocation failures, throwing callbacks, moves and clears; each resulting tree is compared with a model built from the recorded parse events. Building: a run is a history of up to 13 operations on three trees: building by hand (tokens, productions, containers, cancelled at any point, up to 2000 nodes, abandoned or hit by a failing allocation), reusing, moving, clearing, destroying; after each operation every tree is walked through every accessor and compared with a model.",
   state_measure="(nodes/4, depth) of finished trees",
   tech="allocator simulated with a ledger, failures and cancellations decided per operation, every tree compared with a model after every operation",
   note="Sampled search over histories.",
   real=["include/lexy/parse_tree.hpp", "include/lexy/action/parse_as_tree.hpp", "include/lexy/input/parse_tree_input.hpp, include/lexy/dsl/parse_tree_node.hpp"],
   stub=["the tree's memory resources (ledger, failures)"],
   assumptions=COMMON),
 "C07": dict(level="exploration",
   harnesses=[gram("c07", 100, dict(runs=120000, time=240), dict(runs=4000000, time=900))],
   rule="A run takes one grammar, text, action (validate, parse, parse_as_tree, trace) and input kind, runs it once undisturbed counting every call of user code, every copy or move of a user value and every allocation, then again with a chosen one of them throwing, then once more undisturbed.",
   state_measure="(grammar, action, input kind, kind of failing point, index class of the failing point, outcome)",
   tech="user code and allocator simulated, the failing call chosen per run; object, memory and call ledgers checked, the parse repeated and compared with the undisturbed one",
   note="Sampled search over failing points; every value, sink and state object carries an identity and is registered.",
   real=GREAL, stub=["user callbacks, sinks, error callbacks, scan functions, value types (instrumented, may throw at any call)", "operator new/delete (ledger, failures)"],
   assumptions=COMMON),
 "C08": dict(level="exploration",
   harnesses=[gram("c08", 50, dict(runs=60000, time=240), dict(runs=2000000, time=900))],
   rule="A run starts two to four parses (any grammar, text and action) on real threads of which exactly one may run; at chosen basic blocks of the code under test the simulator hands over to another one. Parses may start further parses inside their callbacks. Each record is compared with that of the same parse run alone.",
   state_measure="(grammars and actions running at once, number of switches class, nesting)",
   tech="thread scheduling simulated: one baton, switch points at instrumented basic blocks decided by the seed; nested parses started inside callbacks; each record compared with the same parse alone",
   note="Sampled search over interleavings at basic block granularity; memory-model effects below sequential consistency are not simulated.",
   real=GREAL, stub=["the thread scheduler (baton)", "user callbacks"],
   assumptions=COMMON + ["threads are switched at basic blocks under sequential consistency"]),
 "C09": dict(level="exploration",
   harnesses=[gram("c09", 100, dict(runs=100000, time=240), dict(runs=3000000, time=900))],
   rule="A run takes one grammar, one text and one kind of diagnostics (trace, tree, lexeme, error report of validate, parse or parse_as_tree, diagnostic writer) with chosen options, writes it through an iterator that tracks its position, then one to three times through a FILE, stderr or stdout in a chosen buffering with failing, short or full writes, or through an iterator that throws at a chosen character, then once more undisturbed.",
   state_measure="(full text) and (grammar, kind, stream, buffering, failure mode, failed?)",
   tech="the sink simulated: buffering, every write outcome and the failing character decided per call; text compared with the undisturbed one, outcome with that of a parse without output",
   note="Sampled search over texts, options and failing points; the text itself is only compared between sinks, not with a specification of the layout.",
   real=GREAL + ["include/lexy/visualize.hpp", "include/lexy/action/trace.hpp", "include/lexy_ext/report_error.hpp", "include/lexy/input_location.hpp", "glibc stdio buffering"],
   stub=["the device behind FILE, stdout and stderr", "the output iterator", "user callbacks", "operator new/delete (ledger)"],
   assumptions=COMMON),
 "C10": dict(level="exploration",
   harnesses=[gram("c10", 200, dict(runs=300000, time=240), dict(runs=12000000, time=900))],
   rule="A run takes one grammar, a text that ends after a chosen character, and an action, and parses it through a user-written input (or strict forward range) that checks every call it gets: no advance past the end, resets only to positions handed out earlier, number of operations bounded by 3(n+16)^2 (n code units).",
   state_measure="(grammar, action, length class, verdict, errors)",
   tech="the input simulated and ended at a chosen character, the protocol checked at every call, progress bounded in operations",
   note="Sampled search over texts and end points; the bound is a fixed polynomial far above what any grammar here needs.",
   real=GREAL, stub=["the input (protocol checker)", "user callbacks"],
   assumptions=COMMON),
 "C11": dict(level="exploration",
   harnesses=[dict(name="c11", sources=["c11.cpp"] + ["g11/%s.cpp" % d for d in "root_custom_tree root_string_parse scan_custom_ws_state scan_list_ws scan_string ws_custom_validate ws_list_parse ws_string_match ws_string_tree".split()],
                   extra=["-std=c++20"], chunk=200, quick=dict(runs=600000, time=240), thorough=dict(runs=30000000, time=900))],
   rule="A run is a scanning session of up to 60 operations over a text that ends at a chosen point: tokens, captures, branches (taken, not taken, failing after being taken), look-ahead, discards, errors, fatal errors, recovery (nested, cancelled, finished), productions, recursion, integers (with separators, a suffix, recovery), identifiers (reserved or not), keywords, look-ahead for sets of literals and keywords, choices, whitespace control, context variables, scan productions inside scan functions whose result may contradict their state; through lexy::scan or through dsl::scan under validate, parse, match or parse_as_tree.",
   state_measure="(driver, errors, end position, tokens, final state)",
   tech="the caller of the scanner simulated: every next operation, its outcome-dependent recovery and the end of the input decided per step, a model of scanner and rules in lockstep after every operation",
   note="Sampled search over operation sequences; the rules used inside have hand-written models in sim/c11_run.hpp.",
   real=["include/lexy/dsl/scan.hpp", "include/lexy/action/scan.hpp", "include/lexy/action/{validate,parse,match,parse_as_tree}.hpp", "include/lexy/dsl/{token,capture,branch,choice,production,peek,lookahead,identifier,digit,integer,recover,whitespace,context_flag,context_counter,until,literal,parse_as}.hpp"],
   stub=["the scan function (chooses every operation)", "the input (string, user-written, list)", "error callback"],
   assumptions=COMMON),
 "C12": dict(level="exploration",
   harnesses=[dict(name="c12", sources=["c12.cpp"] + ["g12/%s.cpp" % d for d in "scan_lines sep_list term_try try_find try_until".split()],
                   extra=["-std=c++20"], chunk=100, quick=dict(runs=100000, time=240), thorough=dict(runs=4000000, time=900))],
   rule="A run is a document of two to ten different lines (some repeated up to sixty times), each a well-formed or corrupted statement of one of twenty kinds (recursion, whitespace control, context variables, expressions, delimited text, lists, scanning, ...), parsed with one of five ways to recover at the end of a line, and each line alone at the same position.",
   state_measure="(document kind, action, verdict, number of errors, failing lines) and (document kind, production and text of an error)",
   tech="a stream of parts with failures injected into chosen ones; every part's outcome compared with that of the part alone",
   note="Sampled search over documents; the reference is the same code on the part alone, so a bug that changes both alike is outside this property.",
   real=GREAL, stub=["the corruption of the parts", "user callbacks and scan functions"],
   assumptions=COMMON),
}
