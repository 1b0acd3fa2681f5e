import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state,observe,hook):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],state=[dict(name=state,meaning="what the property is about",where=files[0])],observe_at=[observe],hook_needed=None)))
p("C01","Reading a file is all-or-nothing under any OS behaviour",
 "For every file and every sequence of operating-system outcomes (failed, interrupted or short calls, failed mappings, failed allocations), reading a file into a buffer either yields a buffer holding exactly the file's bytes decoded in the requested encoding and byte order (with a byte order mark consumed only when one is present and byte order detection was asked for), or reports an error of the documented category: not found, permission denied, or OS error; without any OS or allocation failure it always succeeds. A partial, stale or padded content, or one that ends inside a code unit, is never reported as success. After the call, whether it returned or threw, no file descriptor, mapping or heap block that the call acquired is still held, no descriptor was closed twice, and the buffer's memory came from the caller's memory resource.",
 ["inputs","fault_sequences"],"every file content and size (around every internal size threshold), every encoding/byte order, every placement of OS and allocation faults during the call",
 "The unit tests read a handful of real files on a healthy disk; no test makes open, seek, read, map or an allocation fail, so none of the error paths and no resource release on those paths is ever executed.",
 ["src/input/file.cpp","include/lexy/input/file.hpp","include/lexy/input/buffer.hpp"],
 [("lexy::_detail::read_file","src/input/file.cpp"),("read_file / _read_file_user_data","include/lexy/input/file.hpp"),("make_buffer_from_raw","include/lexy/input/buffer.hpp")],
 "file descriptor, mapping, scratch heap buffer, result buffer","return value of lexy::read_file; open descriptors, mappings and heap blocks after the call",False)
p("C02","Reading standard input is exact for every delivery schedule",
 "However standard input delivers its bytes (any chunking, including chunks that end exactly at internal buffer boundaries), reading it into a buffer yields exactly the delivered bytes, in order, once end of file is reached; a read error anywhere before that yields an OS error and never a truncated success. A second read after end of file yields an empty success and a failed allocation leaves no memory behind. The same exactness holds for the Compiler Explorer input.",
 ["inputs","schedules","fault_sequences"],"every content, chunking, position of end of file or read error, and allocation fault",
 "No existing test feeds standard input at all; chunk boundaries, errors in mid-stream and growth of the internal buffer are never exercised.",
 ["src/input/file.cpp","include/lexy_ext/compiler_explorer.hpp","include/lexy/_detail/buffer_builder.hpp"],
 [("lexy::_detail::read_stdin","src/input/file.cpp"),("compiler_explorer_input","include/lexy_ext/compiler_explorer.hpp"),("buffer_builder::grow/commit","include/lexy/_detail/buffer_builder.hpp")],
 "growing stdin buffer","returned buffer or error",False)
p("C03","The interactive shell delivers every typed character exactly once, in order",
 "For every way a user's lines arrive (any line lengths, any split of a line into reads, a last line without newline, closing or a read error at any instant), the shell input yields exactly the characters of the lines it read, in order, each once, then end of input, and once end of input has been reported for a closed prompt it stays reported. A further line is requested only when the parser needs a character beyond the lines read so far, is announced by the primary prompt for the first line and by the continuation prompt for every later one, and lines not needed by one input are still there for the next. Positions, lexemes and reset points taken earlier stay valid and keep denoting the same characters while later lines are read, the line and column of a position already read are found without requesting anything, and written messages reach the prompt byte for byte.",
 ["schedules","inputs","histories","fault_sequences"],"every line sequence, read split, close or error point, sequence of peek/advance/mark/reset operations, sequence of inputs on one shell, for single- and multi-byte characters",
 "The shell test drives a prompt that returns the fixed lines 'abc' in one piece; split reads, long lines, unterminated last lines, closing mid-line and reuse are never exercised.",
 ["include/lexy_ext/shell.hpp","include/lexy/_detail/buffer_builder.hpp"],
 [("shell::input::is_eof/peek","include/lexy_ext/shell.hpp"),("shell::append_next_line","include/lexy_ext/shell.hpp"),("default_prompt::read_line","include/lexy_ext/shell.hpp"),("buffer_builder::grow","include/lexy/_detail/buffer_builder.hpp")],
 "line buffer, cursor, prompt open/closed state","characters seen through the reader, calls made on the Prompt, bytes written",False)
p("C04","The outcome of a parse does not depend on how the input reaches the parser",
 "For every grammar and character sequence, parsing reports the same verdict, value, errors (kind, text, positions), events and parse tree whether the characters sit in a string, an owning buffer, a forward-only range with or without sentinel, a user-written input, the contents of a simulated file or stdin, or arrive line by line through an interactive session under any delivery schedule. Well-formed text gets the same verdict in every encoding the grammar works with. The actions match, validate, parse and parse_as_tree agree on the verdict for one input, and the last three report the same errors, each exactly once.",
 ["schedules","inputs","programs"],"every grammar, input text and delivery schedule",
 "Tests run each rule on one or two short literal inputs, nearly always through one input type; agreement across inputs and delivery schedules is never compared.",
 ["include/lexy/input/*.hpp","include/lexy_ext/shell.hpp","include/lexy/_detail/swar.hpp","include/lexy/action/*.hpp","include/lexy/dsl/*.hpp"],
 [("buffer reader and SWAR fast paths","include/lexy/input/buffer.hpp, include/lexy/_detail/swar.hpp"),("range and string readers","include/lexy/input/base.hpp"),("shell::input","include/lexy_ext/shell.hpp"),("do_action and handlers","include/lexy/action/base.hpp")],
 "reader position, backtracking markers","result objects, error callback arguments, parse tree, trace output",False)
p("C05","Buffers own their memory exactly once under any history and allocation failure",
 "Over every history of creating, copying, moving, assigning, releasing, adopting and destroying buffers with any mix of memory resources, and with any allocation failing, every live buffer holds exactly the characters it was given and is readable to its end, and every block is returned exactly once to the resource it came from with the size and alignment it was requested with. A failed operation propagates the failure, leaves every buffer that existed before it with its contents intact, and a buffer never switches to another memory resource except by being constructed from one.",
 ["histories","fault_sequences","inputs"],"every operation history over several buffers and resources, every placement of allocation failures, every encoding",
 "Tests construct a few buffers with one resource that never fails; no test makes an allocation fail or checks what is returned to which resource.",
 ["include/lexy/input/buffer.hpp","include/lexy/_detail/memory_resource.hpp"],
 [("buffer special members, builder, adopt/release","include/lexy/input/buffer.hpp"),("make_buffer_from_raw / make_buffer_from_input","include/lexy/input/buffer.hpp"),("memory_resource_ptr","include/lexy/_detail/memory_resource.hpp")],
 "allocated blocks per resource, buffer contents","contents and size of every buffer after every operation; the resources' ledgers",False)
p("C06","Parse trees are lossless, well-formed and memory-clean across any history",
 "Over every history of building, parsing into, reusing, moving, clearing and destroying parse trees, with builds cancelled at any point and any allocation failing, a non-empty tree has one root, its size, depth, parent, child and sibling relations, traversals and queries (tokens below a node, children by kind, node covering a position) all agree, its tokens in traversal order followed by the remaining input spell out exactly the input, and it equals what a fresh tree would contain. A cleared, moved-from or cancelled tree is empty with no nodes and usable again. A tree that is the input of another parse is read node by node exactly as a traversal shows it, and every position reported lies where the node's tokens are. Tree memory comes only from the tree's own resource and is returned to it exactly once with matching size and alignment.",
 ["histories","fault_sequences","inputs"],"every sequence of tree operations and builder calls, tree sizes spanning any number of memory blocks, every placement of allocation failures and parse failures",
 "Tests build small trees once; reuse of a tree that spanned several blocks, cancellation deep in a large tree and failing allocations are not exercised.",
 ["include/lexy/parse_tree.hpp","include/lexy/action/parse_as_tree.hpp","include/lexy/input/parse_tree_input.hpp","include/lexy/dsl/parse_tree_node.hpp"],
 [("pt_buffer reserve/reset/unwind","include/lexy/parse_tree.hpp"),("parse_tree::builder","include/lexy/parse_tree.hpp"),("parse_as_tree handler","include/lexy/action/parse_as_tree.hpp")],
 "node blocks, builder markers, size and depth counters","public tree, node and traversal interface; memory resource ledger",False)
p("C07","A failure in user code at any point unwinds the parse cleanly",
 "Whenever a user-supplied callback, sink, error callback, scan function or allocation throws at any point of a parse, that exact exception reaches the caller, no user-supplied function runs after it, every value, sink and state object that was created is destroyed exactly once, and no memory is left behind. The input, grammar and parse state remain usable and repeating the parse without the failure gives the same outcome as if the failed attempt had never happened. In a parse without failure every value produced is consumed or destroyed exactly once and every value object passed on is the one produced, never a destroyed or stale one.",
 ["fault_sequences","inputs","crash_points"],"every grammar and input, and every index of a callback invocation, value copy/move or allocation at which a failure is injected",
 "No test throws from a callback or fails an allocation during a parse.",
 ["include/lexy/action/parse.hpp","include/lexy/_detail/lazy_init.hpp","include/lexy/callback/*.hpp","include/lexy/dsl/*.hpp","include/lexy/action/validate.hpp"],
 [("lazy_init","include/lexy/_detail/lazy_init.hpp"),("parse handler and value callbacks","include/lexy/action/parse.hpp"),("sinks for containers/strings","include/lexy/callback/container.hpp, include/lexy/callback/string.hpp"),("error sink","include/lexy/action/validate.hpp"),("list/option/scan/expression value plumbing","include/lexy/dsl/*.hpp")],
 "live value objects, sinks, context values","constructor/destructor ledger, propagated exception, heap ledger, result of the repeated parse",False)
p("C08","Concurrent and nested parses do not influence each other",
 "Any number of parses running interleaved in different threads on different inputs, trees and sinks, sharing only immutable input and grammars, or nested inside each other's callbacks, each produce exactly the result, errors, parse tree and output they produce when run alone. No parse observes another one's context variables, recursion depth, whitespace mode, state object or scratch storage.",
 ["schedules","programs","inputs"],"every interleaving of every set of parse, tree building, scanning and report jobs",
 "Every existing test runs one parse at a time on one thread.",
 ["include/lexy/action/*.hpp","include/lexy/dsl/*.hpp","include/lexy_ext/report_error.hpp","include/lexy/visualize.hpp"],
 [("parse_context_control_block","include/lexy/action/base.hpp"),("context variables, recursion depth, whitespace mode","include/lexy/action/base.hpp, include/lexy/dsl/context_*.hpp"),("reporting and visualization","include/lexy_ext/report_error.hpp, include/lexy/visualize.hpp")],
 "per-parse control block; anything with static storage duration","per-task outcome compared with the same task alone",False)
p("C09","Diagnostics output is the same for every sink and survives a failing sink",
 "For every parse, the text of a trace, visualization or error report is the same whether it is written through a FILE or through any output iterator, in any buffering, every output position being written once and in order; asking for it does not change the parse outcome, and colour only adds escape sequences. A trace has one line for every event, with the line and column of its position and its place in the hierarchy. If the stream fails, writes short or is full at any point, the bytes it does accept are a subsequence of that text in order, the outcome of the parse is unaffected and nothing crashes or hangs; if the output iterator throws, the exception propagates with no memory left behind and the text written until then is a prefix of the full text.",
 ["fault_sequences","inputs"],"every input and grammar, option set, stream buffering and every point at which the sink fails",
 "Tests compare a few rendered strings through an in-memory iterator; the FILE path and failing sinks are never exercised.",
 ["include/lexy/visualize.hpp","include/lexy/action/trace.hpp","include/lexy_ext/report_error.hpp"],
 [("cfile_output_iterator, write_str, write_format, visualize_to","include/lexy/visualize.hpp"),("trace_to","include/lexy/action/trace.hpp"),("report_error","include/lexy_ext/report_error.hpp")],
 "output position, spacing and indentation state","bytes received by the sink",False)
p("C10","A parser obeys the input protocol and always finishes when the input ends",
 "Whatever the user-supplied input does within its contract, including ending after any character, a parse over a grammar that consumes in every loop finishes within a number of steps bounded by the input length, never advances past the end of input, and only returns to positions it obtained earlier from the same input. Every position, lexeme and error it reports lies within the input and delimits a forward range.",
 ["inputs","schedules","fault_sequences"],"every grammar, every text, and every instant at which the input ends",
 "Tests sample a few short inputs per rule with trusted readers that tolerate reads beyond the end; nothing checks progress or the protocol.",
 ["include/lexy/dsl/*.hpp","include/lexy/input/*.hpp","include/lexy/action/*.hpp"],
 [("reader protocol peek/bump/current/reset","include/lexy/input/base.hpp"),("loops, recovery, until, delimited, scan","include/lexy/dsl/{loop,list,recover,until,delimited,scan}.hpp")],
 "reader position","calls on the user-supplied reader; simulated step count; reported positions",False)
p("C11","A scanning session behaves like the parse it spells out, whatever the call order",
 "For every sequence of operations on a scanner (parse, branch, capture, match, peek, discard, error, recovery) over any input ending at any point, each operation consumes, produces and reports exactly what the corresponding rule would at that position; a failed operation puts the scanner in the error state in which operations consume and report nothing until recovery. A branch that is not taken and a look-ahead leave the position unchanged, recovery that is cancelled leaves the scanner in the error state, and the final result reflects the state and the errors reported.",
 ["histories","inputs","fault_sequences"],"every sequence of scanner calls and every input, including end of input after any character",
 "The scan tests run one scripted sequence each on a few inputs; sequences, error states and recovery combinations are not explored.",
 ["include/lexy/action/scan.hpp","include/lexy/dsl/scan.hpp"],
 [("scanner state machine","include/lexy/dsl/scan.hpp, include/lexy/action/scan.hpp"),("error_recovery_guard","include/lexy/dsl/scan.hpp")],
 "scanner state (normal, failed, recovering), position","scanner interface results, positions, errors and final result",False)
p("C12","A malformed part that was recovered from does not influence later parts",
 "In a document made of independent parts, of which any may be malformed in any way and is recovered from at its end, every part yields exactly the value, errors (shifted to its place) and tree nodes that it yields as the only part of a document. In particular recursion depth, whitespace mode, context variables and scanner state that a failing part had changed are back to what they were before it, for any number of failing parts.",
 ["fault_sequences","histories","inputs"],"every sequence of well-formed and malformed parts, every place at which a part fails, every recovery rule (try, find, recover, terminator, list separator, scanner guard) that ends it",
 "Tests of recovery look at one failure per input and stop at its end; nothing looks at how the rest of the input is parsed afterwards.",
 ["include/lexy/dsl/recover.hpp","include/lexy/dsl/production.hpp","include/lexy/dsl/whitespace.hpp","include/lexy/dsl/list.hpp","include/lexy/dsl/scan.hpp","include/lexy/action/base.hpp"],
 [("recovery rules","include/lexy/dsl/recover.hpp"),("recursion depth","include/lexy/dsl/production.hpp"),("no_whitespace","include/lexy/dsl/whitespace.hpp"),("context variables","include/lexy/dsl/context_*.hpp"),("error_recovery_guard","include/lexy/dsl/scan.hpp")],
 "parse control block: depth, whitespace flag, context variable stack","value, errors and tree of every part",False)
NA="none needed"
def n(id,title,st,why,files):
    p(id,title,st,["inputs"],"every input",why,files,[(title,files[0])],"none (pure function)","function result",False)
n("N01","Numbers are converted exactly or reported as overflow",
 "For every digit sequence, radix and integer type, converting parsed digits yields the mathematically exact value, or reports overflow (or clamps, where bounded) exactly when it does not fit.",
 "Tests sample a few values around limits.",["include/lexy/callback/integer.hpp","include/lexy/dsl/integer.hpp"])
n("N02","Code points round-trip through every encoding; invalid sequences are rejected",
 "Every code point encodes and decodes to itself in each supported encoding, and every ill-formed code unit sequence is rejected with a position at its start.",
 "Tests sample boundary code points.",["include/lexy/_detail/code_point.hpp","include/lexy/dsl/code_point.hpp"])
n("N03","Character classes and Unicode properties match the Unicode database",
 "For every code point, each character class and case folding agrees with its definition in the supported Unicode version.",
 "Tests sample members of each class.",["include/lexy/dsl/unicode.hpp","include/lexy/_detail/unicode_database.hpp"])
n("N04","Operator expressions follow the declared precedence and associativity",
 "For every operator grammar and operand sequence, the parse groups operands by the declared precedence and associativity.",
 "Tests cover chosen operator mixes.",["include/lexy/dsl/expression.hpp","include/lexy/dsl/operator.hpp"])
n("N05","A position maps to the right line, column and context line",
 "For every input and position, the computed line and column numbers count exactly the newlines and units before it under the chosen counting.",
 "Tests use short fixed inputs.",["include/lexy/input_location.hpp"])
n("N06","Keyword and literal sets match the longest listed alternative",
 "For every literal set and text, the longest listed literal that prefixes the text is matched, and reserved identifiers are never accepted as identifiers.",
 "Tests use small fixed sets.",["include/lexy/dsl/literal.hpp","include/lexy/dsl/identifier.hpp"])
n("N07","Recursion never exceeds the grammar's declared depth",
 "For every input, a grammar with a declared maximum recursion depth reports an error exactly when the nesting exceeds it and never recurses deeper.",
 "Tests use one or two depths.",["include/lexy/dsl/production.hpp","include/lexy/action/base.hpp"])
for q in P:
    assert len(q["title"])<=80,q["id"]
open("/verif/properties.jsonl","w").write("".join(json.dumps(q)+"\n" for q in P))
