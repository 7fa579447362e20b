prop("C01", "Dynamic arrays behave as sequences",
 "Whatever the element size, length and capacity, every operation on a dynamic array (create, insert, push, set, remove, iterate, find, clear, copy, build from a buffer, destroy) has exactly its effect on the sequence: the touched position changes as asked, all other elements keep their value and order, and the length is right. Removed and cleared elements are destroyed exactly once, an element set anew is overwritten without being destroyed, copies are independent, and no operation touches memory outside the array.",
 ["inputs", "histories"], "all lengths, capacities, positions, element values and operation sequences",
 "testbuzzdarray.c pushes a handful of ints; growth, shrink and shifting behave differently at every capacity boundary and position.",
 ["buzzdarray.c", "buzzdarray.h"], [("amortised growth and shifting", "buzzdarray.c"), ("element access", "buzzdarray.h")], "proof",
 "Unbounded proof of every array operation except sorting (C03); representation invariant size<=capacity assumed on entry and re-established.")
prop("C02", "Dictionaries behave as finite maps",
 "After any sequence of writes and removals a key reads back the value last written to it, or nothing when it was never written or was removed, whatever the number of buckets and however keys collide. The size is the number of keys present, iteration visits each present key once with its own value, and operations on one key never change what another key reads. Overwritten and removed entries are destroyed exactly once, and the built-in key comparisons and hashes agree.",
 ["inputs", "histories"], "all bucket counts, hash functions, contents, and keys operated on and observed",
 "testbuzzdict.c inserts a few integers; collisions, bucket removal and shifting inside a bucket are not enumerated.",
 ["buzzdict.c", "buzzdict.h"], [("open hashing with array buckets", "buzzdict.c")], "proof",
 "Unbounded proof for read, write, remove, iterate over an arbitrary dictionary with an arbitrary hash; string keys and destroy are bounded.")
prop("C03", "Sorting yields an ordered permutation",
 "Sorting a dynamic array with a comparison function leaves the same elements the same number of times, in non-decreasing order of the comparison, with the length unchanged, and touches no memory outside the array.",
 ["inputs"], "all array lengths, contents and duplicates",
 "The test sorts one fixed array of ints.",
 ["buzzdarray.c"], [("quicksort with last-element pivot", "buzzdarray.c")], "proof",
 "Partition and recursion under contract; black-box sort bounded.")
prop("C04", "Ordered sets contain exactly what was inserted",
 "After any sequence of insertions and removals a set holds exactly the elements inserted and not removed, once each: lookup finds an element exactly if it is present, the size is the number of present elements, and iteration visits each present element once. A removed element is destroyed and released once, and no element still in the set is destroyed or altered.",
 ["inputs", "histories"], "all element values, tree shapes and operation sequences",
 "testbuzzset.c exercises one insertion and removal order of one tree.",
 ["buzzset.c"], [("binary search tree", "buzzset.c")], "proof",
 "Recursive tree functions under contract with summaries of subtrees; API histories bounded.")
prop("C05", "String interning is a bijection and collection keeps live strings",
 "Registering a string always yields the identifier of exactly that text: equal texts get the same identifier, different texts get different ones, and looking an identifier up gives its text. A collection cycle removes exactly the strings that are neither protected nor marked during it; protected or marked strings keep their identifier and text, and a removed string can be registered again.",
 ["inputs", "histories"], "all registration orders, identifier counters, protection flags and mark sets",
 "testbuzzstrman.c registers a few strings; identifier reuse after wraparound and collection tree shapes are never reached.",
 ["buzzstrman.c"], [("two-way dictionaries", "buzzstrman.c"), ("collection id tree", "buzzstrman.c")], "proof", "")
prop("C06", "Values survive a round trip through the wire format",
 "Writing an integer, float, string or any Buzz value made of nil, integers, floats, strings and tables to a message and reading it back yields an equal value, and the read position ends exactly where the writing ended, so consecutive items can be read back in order. The bytes written do not depend on the host's byte order.",
 ["inputs"], "all values of each type and all prefixes already in the message",
 "No unit test covers the message format; scripts exercise it only through two-robot simulations.",
 ["buzzmsg.c", "buzztype.c"], [("big-endian primitive encoders", "buzzmsg.c"), ("typed value encoder", "buzztype.c")], "proof", "")
prop("C07", "Decoding arbitrary bytes is memory safe and reports truncation",
 "Reading any item from any byte sequence at any position never accesses memory outside the message: it either succeeds and advances by exactly the item's length within the message, or reports failure. A truncated or malformed message received from another robot never crashes the virtual machine.",
 ["inputs", "fault_sequences"], "all message contents, lengths and positions",
 "Tests only exchange well-formed messages.",
 ["buzzmsg.c", "buzztype.c", "buzzvm.c"], [("length checks in the primitive decoders", "buzzmsg.c"), ("message dispatch", "buzzvm.c")], "proof", "")
prop("C08", "Arithmetic, logic and comparison compute the documented result",
 "For any two operands on the stack the arithmetic, comparison and boolean operations replace them with the documented result: integer operands give integer results, a float operand promotes to float, comparisons give 0 or 1 consistently with one ordering, and boolean operations treat exactly nil and integer zero as false. Everything below the operands is untouched, operands are never modified in place, and operands of a wrong type or a missing operand put the machine in an error state instead.",
 ["inputs", "programs"], "all stack depths, operand types and operand values",
 "Script tests evaluate a few constant expressions and compare printed output.",
 ["buzzvm.c", "buzztype.c"], [("binary and unary instruction macros", "buzzvm.c"), ("value comparison", "buzztype.c")], "proof", "")
prop("C09", "Execution never leaves the program and errors stop it",
 "Whatever bytes are loaded as a program, each executed instruction and its operand lie inside the program, otherwise the machine reports a program-counter or instruction error. The machine refuses stack underflow and calls of non-functions by reporting an error, and once in an error or finished state further steps execute nothing and change nothing.",
 ["programs", "inputs"], "all bytecode contents and lengths, all machine states",
 "Tests run only compiler-produced bytecode.",
 ["buzzvm.c", "buzzvm.h"], [("fetch and dispatch", "buzzvm.c"), ("stack and type assertions", "buzzvm.h")], "proof", "")
prop("C10", "Calls and returns nest exactly",
 "Calling a function gives the callee a fresh empty stack and, as locals, what it captured, its self first, followed by the arguments in order, and leaves the function it captured from unchanged; returning restores the caller's stack, locals and next instruction, minus the function and the arguments plus exactly one value, the one returned or nil. This holds for script and native functions, for any number of arguments and nesting depth.",
 ["inputs", "programs"], "all argument counts, nesting depths, stack contents and return values",
 "Script tests call functions with a few fixed argument counts.",
 ["buzzvm.c"], [("call and return instructions", "buzzvm.c")], "proof", "")
prop("C11", "Tables and variables store and return what was assigned",
 "Reading a table field, whose key is any number but NaN or any string, or a global variable gives the value last assigned to it, or nil when there is none, and keys are the same field exactly if they are equal numbers or equal strings; assigning nil to a table field removes it; other fields and variables are unaffected. A function stored in a table receives that table as its self and leaves the original function unchanged. Local variables read back the value last stored in them in the current activation.",
 ["inputs", "programs", "histories"], "all keys, values, table contents and stack depths",
 "Script tests use a few literal keys.",
 ["buzzvm.c", "buzztype.c"], [("table and symbol instructions", "buzzvm.c"), ("key comparison and hash", "buzztype.c")], "proof", "")
prop("C12", "Garbage collection frees only unreachable values",
 "A collection never frees or alters a value reachable from a stack, local symbols, globals, shared tuple spaces or listeners, including through nested tables, closures and cycles, nor a string such a value uses. Every unreachable value is freed by the next collection.",
 ["histories", "inputs"], "all heap graphs, roots and collection points",
 "Tests never inspect the heap; a premature free shows only with a specific allocation pattern.",
 ["buzzheap.c"], [("mark and prune", "buzzheap.c")], "proof", "")
prop("C13", "Virtual stigmergy keeps the newest write on every robot",
 "A robot that writes a tuple stamps it newer than the one it replaces and announces it, and a received tuple replaces the local one exactly when it is newer; older or equal tuples never change the local value, and a query is answered with the newer tuple. When two robots wrote the same tuple at the same stamp, a value beats a removal, then the higher robot identifier wins, unless the user's conflict function chooses; the outcome is announced and the losing writer, and nobody else, is told. So robots that received the same updates, in any order and however often, hold the same tuple. Other tuples and spaces are unaffected.",
 ["schedules", "histories", "inputs"], "all message orders, duplicates, losses, timestamps and writer identities",
 "Tests run a single robot with no incoming messages.",
 ["buzzvstig.c", "buzzvm.c"], [("timestamped tuples", "buzzvstig.c"), ("message handling", "buzzvm.c")], "proof", "")
prop("C14", "Swarm membership tables follow the announcements",
 "For every neighbour the robot's membership record is exactly the set announced by its join, leave and list messages in the order received, an empty list included; joining twice equals joining once, leaving a swarm one is not in changes nothing, and a neighbour from which no announcement came for 50 steps is forgotten at the next one and not before. Records of other robots are unaffected.",
 ["histories", "schedules", "inputs"], "all message sequences and robot and swarm identifiers",
 "Tests run a single robot.",
 ["buzzswarm.c", "buzzvm.c"], [("member dictionary", "buzzswarm.c")], "proof", "")
prop("C15", "Swarm operations compute set algebra on this robot's membership",
 "Creating a swarm makes it known and keeps a membership it already has; joining, leaving and selecting set this robot's membership accordingly and announce it; union, intersection, difference and complement create a swarm whose membership is that boolean function of the operand memberships, announce it when joined, and change no other swarm. Unknown swarms and wrong arguments are refused without effect. Executing a function for a swarm runs it once exactly if the robot is a member, with the swarm's identifier visible during the execution, also of an enclosing one, and restored afterwards.",
 ["inputs", "programs", "histories"], "all membership vectors, swarm identifiers and nesting of executions",
 "testswarm.bzz uses one robot and few swarms.",
 ["buzzswarm.c"], [("swarm script library", "buzzswarm.c")], "proof", "")
prop("C16", "The outgoing queue keeps one newest message per subject in order",
 "Every message appended for sending is eventually the next one out unless a newer one on the same subject superseded it: messages leave in the priority order of their kinds and first-come first-served inside a kind, a tuple update is queued at most once per space and key with the newest stamp, and join, leave and list announcements cancel obsolete ones; a robot announces the list of its swarms periodically. Dropping the next message removes exactly that one, and the size is the number of messages waiting.",
 ["histories", "inputs"], "all append and drop sequences",
 "No unit test covers the queue.",
 ["buzzoutmsg.c"], [("per-kind queues", "buzzoutmsg.c")], "proof", "")
prop("C17", "Received messages are delivered exactly once with their sender",
 "Every message appended to the incoming queue is handed out exactly once, with the identity of the robot that sent it and with its bytes unchanged, messages of one robot in their order of arrival, and the queue then no longer holds it; an empty queue reports that nothing is waiting.",
 ["histories", "inputs"], "all append and extract sequences, senders and payloads",
 "No unit test covers the queue.",
 ["buzzinmsg.c"], [("incoming queue", "buzzinmsg.c")], "proof", "")
prop("C18", "Neighbour queries see exactly the current neighbours",
 "Adding a neighbour records exactly its distance and angles under its identifier and a reset forgets all; iterating, mapping, filtering and reducing apply the user's function once to each recorded neighbour and give precisely the corresponding result, and kin and non-kin queries split the neighbours by the current swarm; results are new structures with the same methods. A broadcast value reaches the listener of exactly its topic, once, with the topic and the sender's identifier, until the topic is ignored.",
 ["inputs", "histories"], "all neighbour sets, values and callback results",
 "testneighbors.bzz runs with no neighbours.",
 ["buzzneighbors.c", "buzzvm.c"], [("neighbour structure", "buzzneighbors.c")], "proof", "Each query proved for an arbitrary neighbour through the iteration and call contracts; real structures of up to 4 neighbours and broadcasts end to end bounded.")
prop("C19", "Value comparison, conversion and copying are consistent",
 "Comparing two values is symmetric, consistent with the numeric order across integers and floats and with the text order of strings, and, except for NaN and functions, reflexive; nil equals only nil; values that are equal as table keys hash equally. Truth conversion treats exactly nil and integer zero as false, and conversions to numbers give the value of the number. Copying a value without cycles yields a value of the same type that compares equal, or for a table holds copies of the same entries, and that shares no mutable part with the original.",
 ["inputs"], "all pairs of values of all types",
 "Tests compare a few constants.",
 ["buzztype.c", "buzzheap.c"], [("value functions", "buzztype.c")], "proof", "Comparison, hashing and copying of one table level proved; comparison of strings with numbers, deep copies and conversions bounded.")
prop("C20", "Math functions return the documented value and random numbers stay in range",
 "Each math function returns the documented function of its argument with the documented type, and a missing or non-numeric argument is an error. Random numbers are a deterministic function of the seed and the calls since; uniform draws lie inside the requested interval for every seed and every pair of bounds, also negative, wide and reversed ones; gaussian takes a deviation and an optional mean, exponential a mean.",
 ["inputs", "histories"], "all arguments, seeds and generator states",
 "testmath.bzz prints a few values.",
 ["buzzmath.c"], [("math library", "buzzmath.c"), ("Mersenne twister", "buzzmath.c")], "proof", "Result types, argument checks, seeding, the generator step and uniform intervals proved with libm uninterpreted; values of libm functions and generator histories bounded.")
prop("C21", "String functions compute the documented text",
 "String length, substring, concatenation and the conversions between strings and numbers return exactly the documented text or number for every string and index, reject indexes outside the string without reading outside it, and report an error on wrong argument types or counts; text that is no number of the type's range converts to nil.",
 ["inputs"], "all strings and indexes",
 "teststring.bzz prints a few cases.",
 ["buzzstring.c"], [("string library", "buzzstring.c")], "proof", "Length, substring, concatenation and what the conversions make of any strtol or strtof result proved for any string; the parsing of concrete texts bounded.")
prop("C22", "Compiled programs mean what the source says",
 "For every valid source program the produced bytecode computes the value the language documentation assigns to it, and every invalid program is rejected with the position of the first error.",
 ["programs"], "all source programs",
 "Tests compile a fixed set of scripts.",
 ["buzzlex.c", "buzzparser.c", "buzzasm.c"], [("single-pass compiler", "buzzparser.c")],
 na="there is no machine-readable semantics of the source language to state a postcondition against: the single-pass parser emits text through stdio while it scans, so the contract would have to be a second compiler, and proving against a hand-written compiler is a model, not a contract of the code")
prop("C23", "Assembling and disassembling preserve the program",
 "Assembling a listing places the strings, each instruction, its operand and every label target at its computed offset, whatever the size of the program, and attaches debug information to the offset of its line; a listing with an unknown instruction, a missing operand or an unknown label is refused. Disassembling a program lists its strings and, for each instruction, its offset, name, operand and debug information, and refuses unknown operation codes and cut operands.",
 ["programs"], "all listings and programs",
 "Tests assemble compiler output only.",
 ["buzzasm.c", "buzzdebug.c"], [("two-pass assembler", "buzzasm.c"), ("debug information by offset", "buzzdebug.c")], "exploration",
 "Operand encoding proved for any value; every instruction, label placement, program sizes around the buffer steps, faulty listings and disassembly bounded.")
prop("C24", "Table iteration applies the function once to every entry",
 "foreach, map, filter and reduce call the given function exactly once for every entry of the table with its key and its value (reduce: and the accumulator so far, starting from the given value): map returns a new table with the function's non-nil results under the same keys, filter one with exactly the entries for which the result is neither nil nor integer zero, reduce the last result. The table itself is not changed by them, size is the number of entries, and an error in the function stops the iteration. Wrong arguments are reported.",
 ["inputs", "programs"], "all tables, keys, values and function results",
 "Script tests iterate a few literal tables and print.",
 ["buzztype.c", "buzzdict.c"], [("table library", "buzztype.c")], "proof",
 "Each function proved for an arbitrary entry through the iteration and call contracts; real tables of up to 4 entries bounded.")
