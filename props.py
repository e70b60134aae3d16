"""The properties, and how each is checked. gen.py writes properties.jsonl and MANIFEST.json from this file."""

COMMON_ASSUMPTIONS = [
    "The 32-bit configuration of the project's own Makefile (-m32, single precision constants), compiled by gcc -O1 with ASan, selected UBSan checks and SSE float math, stands for the other targets.",
    "Time, randomness and logging are supplied by the harness's own platform (engine/platform.cpp), in place of an embedded target.",
    "Generated-input search: absence of a violation is evidence over the cases explored, not a proof.",
]

PROPS = {}
NOT_APPLICABLE = []

def prop(id, title, statement, over, text, why, files, mechanism, harness, rule, technique, note,
         state=(), observe=(), m64=False, assumptions=()):
    PROPS[id] = {
        "title": title, "statement": " ".join(statement.split()), "over": over, "text": " ".join(text.split()), "why": " ".join(why.split()),
        "files": files, "mechanism": [{"name": n, "where": w} for n, w in mechanism],
        "state": [{"name": n, "meaning": m, "where": w} for n, m, w in state],
        "observe": list(observe), "harness": harness, "rule": " ".join(rule.split()), "technique": technique,
        "note": " ".join(note.split()), "m64": m64, "assumptions": list(assumptions),
    }

prop("S01", "StringBuilder is a byte string whatever its fragmentation",
     """After any history of concatenations, prepends, formatted writes, ownership hand-offs (whole, bounded, or by position), culls and case changes
     across several string builders, each one's length, bytes, and NUL-terminated flat form are exactly those of an ordinary byte string put through the same
     operations, and no byte is lost, duplicated or leaked when content moves between builders.
     Reads never alter content and never touch memory outside what they report.""",
     ["histories", "inputs"], "Every sequence of build / move / cut / read operations over a set of builders, with arbitrary binary content and fragment layouts.",
     """The unit tests use a handful of fixed strings and layouts; defects live in particular combinations of fragment boundary and limit
     (three were found and fixed here in operations that the tests call).""",
     ["src/StringBuilder.cpp", "src/StringBuilder.h"],
     [("linked fragments, created, stitched and split by each operation", "StringBuilder::concatHandoffLimit / cull / _create_str_ll / _stack_str_onto_list"),
      ("lazy collapse", "StringBuilder::string / _collapse_into_buffer")],
     "strbuilder", """at least two move/cut operations were applied, and some builder held several fragments when one was.""",
     "stateful model-based property testing (byte-string reference model), coverage-guided, shrinking",
     "Random and coverage-guided operation histories over three builders against std::string; ASan and a heap-balance oracle catch leaks, double frees and overruns.",
     state=[("_root", "the fragment list", "src/StringBuilder.h")], observe=["length()", "copyToBuffer()", "string()", "position()", "count()", "byteAt()"], m64=True)

prop("S02", "StringBuilder tokens, search and replacement match their definitions",
     """Splitting, chunking, imploding and dropping tokens yields exactly the tokens their definitions give on the flat string; searching finds the first
     occurrence at or after the given offset, and replacement replaces every non-overlapping occurrence from the left, in both cases however the string is
     fragmented. Numeric tokens read back as the number that was written, and the static string helpers (case-insensitive search and comparison, trim,
     bounded copy) agree with their standard meanings.""",
     ["inputs", "histories"], "Every haystack, fragment layout, needle, replacement, delimiter set and sequence of token operations.",
     "Tests search a few strings with one layout each; failed partial matches that cross fragment boundaries were wrong and are fixed here.",
     ["src/StringBuilder.cpp", "src/StringBuilder.h"],
     [("search with roll-back of partial matches", "StringBuilder::locate / replace"), ("tokenisation", "StringBuilder::split / chunk / implode / drop_position"),
      ("number parsing", "StringBuilder::position_as_int / position_as_uint64 / position_as_double")],
     "strbuilder", """a hit in a string of several fragments; a replacement in one; more than two token operations with a multi-token result; a number beyond 32 bits or after
     other tokens; a non-empty helper case with a match.""",
     "property testing against std::string definitions, model-based for token histories",
     "Generated haystacks over small alphabets (so that partial matches are common) against std::string::find and naive replacement; token histories against a vector model.",
     observe=["locate()", "contains()", "replace()", "split()", "chunk()", "implode()", "position()", "position_as_*()"], m64=True)

prop("L01", "LinkedList is a sequence under any history of edits",
     """Whatever the history of insertions at either end, removals by position, by value and from the head, and clears, the list holds exactly the sequence
     those operations define: sizes, lookups by position, membership and returned values all agree, removal by value takes every matching element, and the
     list's memory is released.""",
     ["histories"], "Every sequence of list operations, with repeated values.",
     "The tests insert, read and drain in one fixed order; no history mixes removal by value with repeated elements (which was broken and is fixed here).",
     ["src/LightLinkedList.h"], [("singly-linked list with a cached count", "LinkedList<T>")],
     "containers", "at least six operations, the list having held three or more elements.",
     "stateful model-based property testing (vector reference model), shrinking", "Random and coverage-guided histories against a vector; heap-balance and ASan oracles.",
     observe=["get()", "size()", "remove()", "contains()", "clear()"], m64=True)

prop("L02", "PriorityQueue serves the highest priority first, first-in first-out within one",
     """Whatever the history of insertions, conditional insertions, removals, recycling and priority changes, the queue's order is by non-increasing priority, and
     by arrival within equal priority; every operation's reported position, priority, membership and result agrees with that order. Changing one
     element's priority never loses, duplicates or reorders the others.""",
     ["histories"], "Every sequence of queue operations, with ties, repeated elements and extreme priorities.",
     "The tests use one insertion order and drain it; they do not touch priority changes, ties after removal, or reported positions.",
     ["src/PriorityQueue.h"], [("sorted singly-linked list", "PriorityQueue<T>::insert / getLastWithPriority"), ("re-sorting after a change", "PriorityQueue<T>::enforce_priorities")],
     "containers", "the queue held three or more elements, with at least one tie in priority.",
     "stateful model-based property testing (sorted-vector reference model), shrinking", "Random and coverage-guided histories against a sorted vector; heap-balance and ASan oracles.",
     observe=["get()", "getPriority()", "getPosition()", "dequeue()"], m64=True)

prop("L03", "RingBuffer is a bounded FIFO that never drops, repeats or overwrites",
     """For any positive capacity and element type, elements come out in the order they went in, nothing unread is overwritten, an insertion beyond capacity takes
     exactly what fits and says so, and peeking, culling, membership and conditional insertion see exactly the unread elements, through any number of wraps.
     Reading what is not there yields zero and changes nothing.""",
     ["histories", "configurations"], "Every capacity and sequence of single and bulk inserts, reads, peeks, culls and clears.",
     "The tests use one capacity and a few fill/drain rounds; wrap positions combined with partial bulk operations are not sampled.",
     ["src/RingBuffer.h"], [("read and write indices modulo the capacity, with a count", "RingBuffer<T>")],
     "containers", "more elements were pushed than the capacity, and the ring was full at some point.",
     "stateful model-based property testing (deque reference model), three element widths, shrinking", "Random and coverage-guided histories against a deque for 1, 4 and 8-byte elements.",
     observe=["get()", "peek()", "insert()", "cull()", "contains()", "count()"], m64=True)

prop("L04", "ElementPool gives each element to one holder and bounds overdraw",
     """An element handed out is never handed out again before it is given back, pool memory is used before the heap, and the number of heap elements outstanding
     never exceeds the overdraw limit in force when one is taken. Returned elements become available again, and the pool's counters always match what is outstanding.""",
     ["histories", "configurations"], "Every pool size, overdraw limit (changing over time), and sequence of takes and gives.",
     "No test exercises the pool at all.",
     ["src/ElementPool.h", "src/RingBuffer.h"], [("free list in a ring buffer, heap fallback", "ElementPool<T>::take / give / inPool")],
     "containers", "at least one overdraw happened in a history of more than six operations.",
     "stateful model-based property testing, shrinking", "Random histories against a model of holders; held elements are stamped so that double hand-outs and overwrites show.",
     observe=["take()", "give()", "available()", "overdraws()", "lowWaterMark()"], m64=True)

prop("E02", "A state machine follows its planned route, in order, within capacity",
     """Whatever the history of route plans (set, appended, prepended), advances, refused entries, re-plans and resets, the machine attempts exactly the next planned
     state, moves only if the entry is accepted, and reports its current, prior and planned states accordingly. Undefined or invalid states never enter the route, and a plan beyond
     capacity is truncated without disturbing what was planned. Lockouts and slowdowns hold for at least the longer of the times asked for.""",
     ["histories"], "Every sequence of planning, advancing, refusing, re-planning, resetting and waiting, for every route capacity.",
     "The tests walk one scripted route; they do not mix planning with a partly consumed ring of waypoints, refusals, truncation and lockouts.",
     ["src/FiniteStateMachine.h", "src/EnumWrapper.h", "src/RingBuffer.h"],
     [("waypoints in a ring buffer", "StateMachine<T>::_fsm_set_route / _fsm_append_route / _fsm_prepend_state"), ("transition", "StateMachine<T>::_fsm_advance")],
     "fsm", "at least two transitions were made in a history of more than six operations.",
     "stateful model-based property testing (deque reference model), shrinking",
     "Random and coverage-guided histories against a deque of states, with a simulated clock for lockouts.",
     observe=["currentState()", "priorState()", "_fsm_state_planned()", "_fsm_is_next_pos()", "_fsm_is_stable()", "_fsm_lockout()"], m64=True)

prop("E03", "Enum definitions and flag containers mean what they define",
     """For any list of definitions, validity, names, context bytes and exported keys are exactly those of the list, and lookup by name finds the first case-insensitive match or else
     falls back to the declared catch-all, saying truthfully whether it matched. Flag containers of every width behave as bit sets under any sequence of set, clear and flip.""",
     ["inputs", "configurations", "histories"], "Every list of definitions (names, flags, duplicates, catch-alls), every value and every name asked for.",
     "The tests use one well-formed list per module.",
     ["src/EnumWrapper.h", "src/FlagContainer.h"], [("linear search of an immutable list", "EnumDefList<T>"), ("bit operations", "FlagContainer8 / 16 / 32 / 64")],
     "fsm", "a list of three or more in which a name was found and another was not; more than four flag operations.",
     "property testing against the definition list and a bit-set model", "Generated definition lists and queries against a direct scan; random flag histories for each width.",
     observe=["enumValid()", "enumStr()", "getEnumByStr()", "exportKeys()"], m64=True)

prop("R01", "The scheduler runs each due schedule once, on time, for its recurrences",
     """A schedule in the scheduler runs exactly once for each time it falls due and the scheduler is advanced and serviced: never before it is due, never after its recurrences are used up, and never
     while it is disabled, also when the 32-bit microsecond clock wraps. Schedules keep their order of service, one schedule's execution or self-modification never affects another, and the reported
     state (enabled, recurrences, next and last execution) matches.""",
     ["schedules", "histories"], "Every set of schedules, every interleaving of time, advances, service, delays, reconfiguration and self-modification, at every clock phase.",
     "The tests run one schedule set once at the clock's start; no test covers wrap-around, late service, or reconfiguration while queued.",
     ["src/TimerTools/C3PScheduler.cpp", "src/TimerTools/C3PScheduler.h", "src/RingBuffer.h"],
     [("due test with wrap-around", "C3PScheduler::advanceScheduler"), ("execution queue", "C3PScheduler::serviceSchedules"), ("recurrence accounting", "C3PSchedule::execute")],
     "timers", "some schedule ran more than once in a history of more than eight steps.",
     "stateful model-based property testing with a simulated clock, shrinking",
     "Random histories of several schedules against a model with 64-bit time; a schedule disabled or delayed after it was queued may run or be passed over.",
     observe=["executions seen by the schedules' bodies", "enabled()", "recurrence()", "nextExec()", "lastExec()", "profiler"])

prop("R02", "Stop watches and timeouts measure correctly across clock wrap-around",
     """A stop watch reports the count, total, mean, best, worst and last of exactly the runs that were started and stopped, and a timeout expires exactly when its period has passed since
     its mark, with the remaining time falling to zero and never beyond. Both, and the elapsed and remaining time helpers, are right when the counter wraps, and when
     time passes during a call.""",
     ["schedules", "inputs"], "Every history of start, stop, reset, reconfiguration and passage of time, at every clock phase, for millisecond and microsecond clocks.",
     "Tests use the real clock, which never wraps while they run, and cannot make time pass between two clock reads of a call.",
     ["src/TimerTools/TimerTools.h", "src/TimerTools/StopWatch.cpp", "src/AbstractPlatform.cpp", "src/CppPotpourri.h"],
     [("wrap-around subtraction", "delta_assume_wrap"), ("aggregation", "StopWatch::addRuntime"), ("expiry", "PeriodicTimeout::expired / remaining")],
     "timers", "at least two timed runs; a timeout seen both running and expired; a wrap between the two moments.",
     "stateful model-based property testing with a simulated clock, shrinking", "Random histories against 64-bit arithmetic, with clocks that start just before a wrap and clocks that tick on every read.",
     observe=["executions()", "totalTime()", "meanTime()", "bestTime()", "worstTime()", "expired()", "remaining()"])

prop("R03", "Trace keeps the latest points and times every path exactly",
     """While recording, the trace holds exactly the most recent points up to its capacity, in order, with their file, line and time, and nothing is recorded while it is off. Each stop
     on a path times the earliest unmatched start of that same path, per end point, and nothing leaks or is freed twice.""",
     ["histories"], "Every sequence of trace words (any action, path, file and line), recording changes and resets, for every capacity.",
     "No test leaves path traces; the action and path fields were never decoded (fixed here), nor was the table of timings kept alive (fixed here).",
     ["src/TimerTools/C3PTrace.cpp", "src/TimerTools/C3PTrace.h"],
     [("intake", "C3PTrace::leave_trace"), ("path timing", "TracePath::recordStart / recordStop")],
     "timers", "at least two path timings were completed.",
     "stateful model-based property testing, shrinking", "Random traces against a model; the serialized text is compared row by row; ASan oracle.",
     observe=["serialize() as text", "recording()"])

prop("E01", "Sequenced steps run once each, after what they depend on has passed",
     """For any acyclic set of up to 32 steps, requesting some requests exactly those and all they depend on; a step is dispatched only once requested and after its dependencies have passed, is polled
     only while running, and is never dispatched again once complete unless it is reset. Steps that retry, fail, or finish at once leave the others undisturbed, and every report of progress
     (requested, runnable, running, complete, passed, failed, transitions counted) is exact. Steps that always pass fulfil any request in boundedly many polls.""",
     ["histories", "configurations", "programs"], "Every dependency graph, list order, sequence of requests, resets, polls and step outcomes.",
     "The tests use one fixed graph with one scripted set of outcomes.",
     ["src/AsyncSequencer.cpp", "src/AsyncSequencer.h"],
     [("dependency closure of a request", "AsyncSequencer::_get_dependency_mask"), ("runnable, dispatch and poll passes", "AsyncSequencer::poll"), ("outcomes", "_mark_step_dispatched / _mark_step_complete")],
     "seq", "more than two dispatches, and a step with dependencies passed.",
     "stateful model-based property testing over generated dependency graphs, shrinking",
     "Random graphs and histories against a model of the five flag sets; the calls made to the steps are compared one by one. Dependency cycles are outside the domain.",
     observe=["dispatch and poll calls", "getState()", "request_fulfilled()", "failed_steps()", "poll() result"], m64=True)

prop("N01", "Multi-needle search reports only genuine, disjoint, advancing matches",
     """Every match reported is an occurrence of its needle at the offset given, begins at or after the starting offset and the end of the match before it, and the search always ends, in whatever
     fragments the subject is held, without changing it. With a single needle, every occurrence is found from left to right. Meaningless needles and ranges are refused, and a search cannot be started
     over one in progress.""",
     ["inputs", "histories"], "Every set of needles, subject, fragmentation and starting offset, over repeated searches.",
     "The project's own test of this module is not among its passing tests, and uses random letters in which partial and overlapping matches practically never occur.",
     ["src/MultiStringSearch.cpp", "src/MultiStringSearch.h", "src/StringBuilder.cpp"],
     [("per-needle search from a common offset", "MultiStringSearch::continueSearch"), ("termination", "MultiStringSearch::searchRunning")],
     "seq", "two or more needles, and two or more matches reported.",
     "property testing against direct comparison with the flat subject", "Generated needles and haystacks over small alphabets, so that prefixes and overlaps are common.",
     observe=["runSearch()", "continueSearch()", "lastMatch()"], m64=True)

prop("G01", "Time stamps, numeric helpers, reference counts and the PRNG are exact",
     """Every valid Zulu time from 1970 to 2099 converts to its epoch second and back, and a time with any field out of range is refused with 0. Minimum, maximum, swap, distance, saturation and
     wrapping displacement are exact for every operand of every type (where representable), and a reference count never leaves [0, 64000] nor misreports reaching zero. The bundled generator yields
     the PCG32 stream of its seed and writes exactly the bytes asked for, and random art draws the bishop's walk of exactly the digest given.""",
     ["inputs", "histories"], "Every date and time, every operand (including extremes and equal ones), every seed, length and digest.",
     "The tests try one date and a few operands of some types; leap days after February and cells visited more than 16 times were wrong (fixed here).",
     ["src/CppPotpourri.cpp", "src/CppPotpourri.h"],
     [("calendar arithmetic", "stringToTimestamp / timestampToString"), ("typed inlines", "strict_max / strict_min / strict_abs_delta / delta_assume_wrap"), ("generator", "C3P_pRNG::fill"), ("picture", "randomArt")],
     "base", "every date; unequal operands; more than four reference operations or digest bytes; more than one fill.",
     "property testing against reference implementations (naive calendar, wide arithmetic, PCG32, the walk)",
     "Generated dates, operands at type boundaries, seeds and digests against independent implementations.",
     observe=["stringToTimestamp()", "timestampToString()", "strict_*()", "delta_assume_wrap()", "refTake()", "refRelease()", "fill()", "randomArt()"], m64=True)

prop("G02", "The logger keeps every accepted line, once, whole and in order",
     """Whatever the sink does (takes all, part, or nothing of what is pushed to it), and whenever it is attached, detached, or the log is fetched, the text that comes out is exactly the lines that
     were accepted, once each, in order, each with the time, severity and tag that the options in force asked for. A message over the verbosity limit is refused and left untouched. Formatted log calls
     deliver the formatted text, however long.""",
     ["histories", "fault_sequences"], "Every sequence of messages, option changes, sink behaviours and fetches.",
     "No test covers the logger.",
     ["src/AbstractPlatform.cpp", "src/C3PLogger.h"],
     [("formatting", "C3PLogger::print"), ("backlog or sink", "C3PLogger::_store_or_forward")],
     "base", "more than two lines were accepted.",
     "stateful model-based property testing with a fault-injecting sink, shrinking", "Random histories with a sink of varying appetite; the emitted text is compared with the accepted lines.",
     observe=["print()", "fetchLog()", "bytes received by the sink"], m64=True)

prop("U01", "UUIDs survive the trip through text, and generated ones are valid",
     """Any UUID renders as the canonical lower-case 8-4-4-4-12 text, never outside a buffer too small for it, and text in any case and punctuation, with anything following the 32nd digit, parses back to exactly that UUID.
     Comparison distinguishes any two that differ in any bit, and a generated UUID is a version 4, variant 1 UUID with every other bit random.""",
     ["inputs"], "Every UUID, buffer length, and textual variation.",
     "The tests render one UUID and compare generated ones.",
     ["src/uuid.cpp", "src/uuid.h"], [("nibble parser", "uuid_from_str"), ("renderer", "uuid_to_str"), ("generator", "uuid_gen")],
     "base", "every case in which the text was parsed back.",
     "round-trip property testing", "Generated UUIDs with boundary bytes, and textual variations of them.",
     observe=["uuid_to_str()", "uuid_from_str()", "uuid_compare()", "uuid_gen()"], m64=True)

prop("V01", "Vector and quaternion arithmetic is the arithmetic of 3-space",
     """For every component type, sums, differences, scaling, dot and cross products, comparison and length are those of 3-vectors wherever they are representable, and never alter their operands. Normalisation
     gives the unit vector of the same direction (and leaves zero alone), angles are always within [0, pi] and correct, also for parallel and opposite vectors, and projection and reflection are
     those about the given vector. A quaternion is normalised to unit norm, and one set from a unit "down" vector rotates that vector onto +z.""",
     ["inputs"], "Every pair of vectors, of every component type, including zero, equal, parallel and opposite ones.",
     "The tests use random float vectors only, which are practically never parallel; angles of parallel vectors were not numbers (fixed here).",
     ["src/Vector3.h", "src/Quaternion.h", "src/Quaternion.cpp"],
     [("operators", "Vector3<T>"), ("angles", "Vector3<T>::angle / angle_normalized"), ("attitude", "Quaternion::setDown")],
     "base", "unequal operands; vectors of length over 0.01.",
     "property testing against double-precision reference formulae", "Generated vectors of eight component types, biased towards small integers, parallels and opposites.",
     observe=["operators", "length()", "normalize()", "angle()", "project()", "reflect()", "setDown()"], m64=True)

prop("C01", "A value holds exactly what it was given, and converts exactly or refuses",
     """Whatever is put into a C3PValue or KeyValuePair (any integer width, boolean, float, double, 3-vector, string, byte range, StringBuilder) reads back bit for bit, with its type, length and text. A conversion between
     integer types succeeds precisely when the destination can represent the number and then yields exactly it, one to floating point yields the nearest value, one to boolean tells whether it is non-zero, and every refused
     conversion leaves the value, its change trace and the destination as they were; each accepted write advances the trace by one. Lists of values keep their order, keys and ownership under linking, unlinking, dropping and
     lookup by index or key: each value is freed once, by whoever owns it, and borrowed memory is never freed or altered.""",
     ["inputs", "histories"], "Every value of every native type, every pair of types to convert between, and every history of writes and list operations.",
     "The tests try a few numbers per type; the faults that were fixed here needed particular numbers at the limits of particular pairs of types.",
     ["src/C3PValue/C3PValue.cpp", "src/C3PValue/C3PValue.h", "src/C3PValue/C3PType.cpp", "src/C3PValue/C3PType.h", "src/C3PValue/KeyValuePair.cpp"],
     [("conversion table", "C3PTypeConstraint<T>::set_from / get_as"), ("storage", "C3PValue::_type_pun_get / _type_pun_set"), ("ownership", "C3PValue::~C3PValue / drop / unlink")],
     "value", """numbers: at least one conversion was taken and one refused; matrix: both outcomes among the 121 pairs; vectors and blobs: non-empty and non-zero; lists: something was removed from a list of over two.""",
     "stateful property testing against exact (wide integer) conversion arithmetic and a list model, shrinking",
     "Numbers at and around every type's limits, all pairs of types; every byte outside the destination is guarded; ownership is checked by live counts, AddressSanitizer and leak detection.",
     state=[("target memory", "the value, or a pointer to it", "C3PValue::_target_mem"), ("set trace", "the count of writes", "C3PValue::_set_trace")],
     observe=["set() / set_from()", "get_as()", "get_as_*()", "toString()", "length()", "trace() / dirty()", "link() / unlink() / drop()", "valueWithIdx() / valueWithKey()"],
     assumptions=["NaNs are compared as NaNs. Replacing a string that the value owns by another is outside the domain (its documentation leaves ownership undefined)."])

prop("C02", "Values survive the trip through CBOR",
     """Serializing a value to CBOR appends exactly one well-formed item to whatever the output held, equal to the value: numbers numerically (floats bit for bit), strings and byte strings byte for byte, vectors as tagged arrays of their
     components, and keyed lists as maps holding every entry that has a key, in order, nested to any depth. Decoding that item consumes precisely its bytes and gives an equal value, while a map that cannot be encoded whole
     is refused and nothing is written. Everything that cbor::encoder writes is well-formed, and cbor::decoder reports the same items.""",
     ["inputs"], "Every value with a CBOR encoding, of any size and nesting, and every sequence of encoder calls.",
     "The tests round-trip a few fixed maps; integers at the edges of the five encodings of CBOR, long strings and keys, and fragmentation of the input aren't among them.",
     ["src/C3PValue/KeyValuePair.cpp", "src/C3PValue/C3PType.cpp", "src/C3PValue/C3PValue.cpp", "src/cbor-cpp/cbor.cpp", "src/cbor-cpp/cbor.h"],
     [("value encoders", "C3PTypeConstraint<T>::serialize"), ("map encoder", "KeyValuePair::_encode_to_cbor"), ("item encoder", "cbor::encoder"), ("item decoder", "C3PValueDecoder::_next")],
     "cbor", "the encoding is over two bytes long, or holds a map or array; refusals: every case.",
     "round-trip and differential property testing against an independent CBOR codec (RFC 8949), shrinking",
     "The encoding is decoded both by an independent reference codec and by the library; fragmentation of the input is random.",
     observe=["C3PValue::serialize()", "KeyValuePair::serialize()", "C3PValueDecoder::next()", "KeyValuePair::unserialize()", "cbor::encoder", "cbor::decoder and its listener"])

prop("C03", "CBOR decoding is exact on CBOR, and safe on anything",
     """Any well-formed item of the supported kinds, in any of the widths that its head and lengths may be written in, decodes to its value; items in sequence come out one by one. As long as an item is incomplete, decoding gives nothing and consumes
     nothing, however its bytes are fragmented over the input. No bytes whatever make the decoders read or write outside of the input and their own memory, leak, or hang, and whatever C3PValueDecoder does return was a well-formed item that it consumed exactly, while
     cbor::decoder reports exactly the items that are in its input and KeyValuePair::unserialize() gives values that may be used and freed.""",
     ["inputs", "fault_sequences"], "Every byte string: valid, truncated at any point, corrupted, or hostile; in any fragmentation.",
     "The tests decode only what the library itself encoded, whole. Decoders are the attack surface of a data link.",
     ["src/C3PValue/C3PValue.cpp", "src/C3PValue/KeyValuePair.cpp", "src/cbor-cpp/cbor.cpp", "src/cbor-cpp/cbor.h"],
     [("item parser", "C3PValueDecoder::_next / _handle_map / _handle_array / _handle_tag"), ("length parser", "C3PValueDecoder::_get_length_field"), ("event parser", "cbor::decoder::run"), ("listener", "CBORArgListener")],
     "cbor", "the input is over two bytes long and its reference decoding found an item.",
     "coverage-guided structured fuzzing (grammar, mutation, truncation) against an independent CBOR decoder, with AddressSanitizer, UBSan and leak detection, shrinking",
     "Grammar-generated items in all widths, then mutated and truncated; the reference decoder classifies each input as complete, incomplete or malformed.",
     observe=["C3PValueDecoder::next()", "remaining input", "cbor::decoder events", "KeyValuePair::unserialize()", "sanitizer reports"],
     assumptions=["Outside the claimed kinds (safety is still checked): empty arrays and maps, null and undefined, half floats and other simple values, unknown tags, integers below INT64_MIN, lengths over 32 bits in cbor::decoder.",
                  "Bounded: nesting depth and total length of inputs (the decoders recurse). TimeSeries encodings are excluded from the random bytes: their allocation is of a size given by the input."])

prop("T01", "A time series is a window of the last samples, with exact statistics",
     """A TimeSeries of any numeric type and window size holds exactly the last samples fed, in order, by copies of any range of them (from the newest back, or by absolute position) and by memory index, with exact counts of samples, fullness and
     unread change; asking for more than it has is refused without touching the output. Once the window is full, minimum, maximum, mean, RMS, deviation and median are those of precisely the samples in it, whatever was asked
     before, and they are zero until then and after a purge or change of window. A full series survives the trip through CBOR as a value of equal type, window, count, name, units and samples in order, and nothing is leaked.""",
     ["histories"], "Every history of feeds, bulk feeds, reads, purges and resizings, for ten sample types, owned and external memory.",
     "The tests feed one float and one integer series in fixed patterns; the faults fixed here needed extremes of the sample type, purges in mid-window, or particular window sizes.",
     ["src/TimeSeries/TimeSeries.h", "src/TimeSeries/TimeSeries.cpp", "src/C3PValue/C3PType.cpp"],
     [("window", "TimeSeries<T>::feedSeries / copyValueRange"), ("cached statistics", "TimeSeries<T>::_calculate_*"), ("pack and parse", "C3PTypeConstraint<TimeSeriesBase*>::serialize / construct")],
     "series", "samples were overwritten, and the window holds more than two or there was a reset.",
     "stateful model-based property testing, shrinking",
     "Random histories against a list of samples; statistics against long double arithmetic by definition; leak detection.",
     state=[("samples", "the last window of samples", "TimeSeries<T>::samples"), ("staleness", "which cached statistics are valid", "TimeSeriesBase::_flags")],
     observe=["feedSeries()", "value()", "copyValueRange()", "indexIsWhichSample()", "minValue() / maxValue() / mean() / rms() / stdev() / median() / snr()", "serialize()"],
     assumptions=["Floating point statistics are compared within 1e-9 (1e-7 for deviation) of the largest sample. A window that isn't full isn't serialized. TimeSeries3 can't be instantiated."])

prop("T02", "A sensor filter gives the filtered value and the statistics of its window",
     """A SensorFilter or SensorFilter3 holds exactly the last samples fed, with exact counts, position and fullness, and returns 1 from a feed precisely when its window is full. Its value is the last sample (RAW),
     the running average (previous average weighted by window - 1, plus the sample, over the window) or the median of the window, and minimum, maximum, mean, RMS, deviation and median are those of
     the samples in a full window and zero otherwise. Purging, resizing or changing the strategy starts afresh, without leaks.""",
     ["histories"], "Every history of feeds, bulk feeds, reads, purges, resizings and changes of strategy, for eight sample types and 3-vectors of floats.",
     "No passing test covers these classes.",
     ["src/TimeSeries/SensorFilter.h", "src/TimeSeries/SensorFilter.cpp"],
     [("filters", "SensorFilter<T>::feedFilter"), ("cached statistics", "SensorFilter<T>::_calculate_*"), ("vectors", "SensorFilter3<T>")],
     "series", "samples were overwritten, and the window holds more than two or there was a reset (vector: samples were overwritten).",
     "stateful model-based property testing, shrinking",
     "Random histories against a list of samples; statistics against long double arithmetic by definition; leak detection.",
     state=[("samples", "the last window of samples", "SensorFilter<T>::samples")],
     observe=["feedFilter()", "value()", "minValue() / maxValue() / mean() / rms() / stdev() / median()"],
     assumptions=["The harmonic mean, geometric mean and quantizer strategies are not implemented by the library. RMS and deviation of a window of one, and statistics after bulk writes into the memory without feedFilter(), are outside the domain."])

prop("P01", "Buffers pushed through sinks and forks are conserved, in order, within capacity",
     """Pushing a buffer into a StringBuilderSink or a BufferAccepterFork claims bytes only from the front of the buffer and leaves the exact rest in it, returning -1 when nothing was claimed, 0 for a part and 1 for all; null and empty buffers return -1.
     A sink claims and stores as much as its stated capacity leaves room for; a fork reports the least room of its attached hands (0 if one has none, or if nothing is attached) and claims at most that, and all of it when its hands take all they say they have room for.
     Each hand of a fork receives the claimed stream exactly once and in order from the point of its attachment, even when one hand takes more per push than the other, and is never offered more than it reported room for.""",
     ["histories"], "Every history of pushes, drains, and attachments or removals of hands, for hands that take all or any part of what they are offered, and for trees of forks.",
     "Tests push a few fixed lengths into sinks that always fill up; a partial take by one hand was never tried.",
     ["src/Pipes/BufferAccepter/BufferAccepter.h", "src/Pipes/BufferAccepter/BufferAccepter.cpp"],
     [("sink", "StringBuilderSink::pushBuffer"), ("fork", "BufferAccepterFork::pushBuffer"), ("back-pressure", "BufferAccepterFork::bufferAvailable")],
     "pipes", "a partial claim, and a drain (fork: and hands that took different amounts or were changed; tree: a stall between claims).",
     "stateful model-based property testing with fault-injecting endpoints, shrinking",
     "Random histories against a byte stream model. The endpoints have limited room, and take random parts of what they are offered.",
     state=[("drift", "how far one hand is ahead of what was claimed", "BufferAccepterFork::_left_drift")],
     observe=["pushBuffer()", "bufferAvailable()", "content of the buffer after a push", "what endpoints received"],
     assumptions=["The source pushes the rest of its buffer before (or together with) newer bytes after a partial claim, as the contract in README.md has it."])

prop("P02", "Base64 stages encode and decode exactly, and claim only what fits downstream",
     """Base64Encoder passes the RFC 4648 encoding (with padding) of each request it claims downstream, and Base64Decoder the decoding; a request is the whole push, or one or more chunks of inputLength() bytes if that is set, and a push that is shorter than a chunk is refused.
     A request is claimed if and only if its output fits in what the next stage reports as available (and, for the decoder, it is well-formed base64); otherwise the push returns -1 with the buffer's content unchanged and nothing passed on.
     Encoding followed by decoding is the identity on every byte sequence, under any pattern of back-pressure.""",
     ["inputs", "histories"], "Every byte sequence, including malformed base64, every chunk length, and every room downstream.",
     "Tests use fixed vectors and random text into an endpoint with a million bytes of room.",
     ["src/Pipes/BufferAccepter/Base64/C3P_B64.cpp", "src/Pipes/BufferAccepter/Base64/C3P_B64.h"],
     [("encoder", "Base64Encoder::_encode"), ("decoder", "Base64Decoder::_decode"), ("validation", "Base64Decoder::_b64_str_integrity")],
     "pipes", "something was claimed, and something was refused or malformed.",
     "property-based testing against a reference codec (RFC 4648), round trips, shrinking",
     "Random pushes with random room downstream, against an independent codec; valid base64 with one edit (replaced, erased, inserted, misplaced padding).",
     observe=["pushBuffer()", "bufferAvailable()", "what the endpoint received"],
     assumptions=["The next stage takes what it has said it has room for. Whether non-zero bits under the padding are accepted is left open."])

prop("P03", "Typed pipes deliver every value once, in order, in whole items",
     """C3PTypePipeSource::pushValue() passes the full CBOR encoding of the value downstream and returns 0 if it fits in what the next stage reports as available, and otherwise passes on nothing and returns a negative code; byteCount() is the number of bytes of the values that it passed on.
     C3PTypePipeSink delivers to its callback, in order and exactly once, each value whose encoding is complete in the bytes pushed (and no longer than its maximum buffer), claims exactly the bytes of the values delivered (which byteCount() counts), and leaves the rest for a later push, whatever the fragmentation.
     Values and flat maps that go from a source to a sink arrive with equal content.""",
     ["histories", "inputs"], "Every sequence of values, every fragmentation, every room downstream.",
     "Tests push values one at a time, in whole pieces.",
     ["src/Pipes/BufferAccepter/C3PTypePipe/C3PTypePipe.cpp", "src/Pipes/BufferAccepter/C3PTypePipe/C3PTypePipe.h"],
     [("source", "C3PTypePipeSource::_private_push"), ("sink", "C3PTypePipeSink::pushBuffer")],
     "pipes", "source: a success and a refusal; arrivals: split values, and several values in one push; maps: a map of more than two pairs.",
     "stateful model-based property testing, shrinking",
     "Random values of thirteen kinds over a stream cut at random points; the order, number and content (by re-encoding) of the deliveries; leak detection.",
     observe=["pushValue()", "pushBuffer()", "byteCount()", "delivered values"],
     assumptions=["CBOR is the only packing format with an implementation. The bytes are encodings of values (C03 covers other input)."])

prop("P04", "Three-axis pipelines deliver every vector to every stage for its sense",
     """A vector pushed into a TripleAxisFork goes unchanged, with its optional error figure, to the left and then the right stage, and the return is 0 if both accepted it, -1 if one did and -2 if none did. A TripleAxisTerminus accepts (0) exactly the vectors of its sense: it keeps the last one and the last error figure, counts them, notes the time,
     calls its callback, and is fresh until read unless the callback returned 0.
     A TripleAxisSingleFilter feeds vectors of its sense to its filter and passes on only the filter's outputs (with the last error figure, if there was any: scaled by the squared window for a moving average), relays other senses with the return code from downstream (-1 without a next stage), and its value is fresh if it's a new output that downstream didn't take (or has no downstream), until read.""",
     ["histories"], "Every tree of forks, filters and termini, and every sequence of vectors of any sense, with or without error figures.",
     "No passing test covers these classes.",
     ["src/Pipes/TripleAxisPipe/TripleAxisPipe.cpp", "src/Pipes/TripleAxisPipe/TripleAxisPipe.h"],
     [("fork", "TripleAxisFork::pushVector"), ("terminus", "TripleAxisTerminus::pushVector"), ("filter", "TripleAxisSingleFilter::pushVector")],
     "pipes", "the tree has a fork, and vectors were both accepted everywhere and not.",
     "stateful model-based property testing, shrinking",
     "Random trees and histories against a model of each stage (the filter's values are from a SensorFilter3, which T02 covers).",
     state=[("freshness", "whether the last vector was read", "TripleAxisTerminus::_fresh_data")],
     observe=["pushVector()", "getDataWithErr()", "accessors", "callbacks"],
     assumptions=["TripleAxisConvention, TripleAxisCompass and TripleAxisOrientation are outside the domain: what they should compute isn't documented, or is marked as unfinished."])

prop("K01", "The console runs the command of each complete line once, in order",
     """Whatever pushes a ParsingConsole's input is divided into, each line (text up to the set terminator, trimmed; blank lines are ignored) whose first word names a defined command (the first defined with that name, ignoring case; otherwise the first with that one character as its shortcut) and which has at least the arguments that the command requires, causes exactly one call of that command's callback, with the remaining words (split at spaces, trimmed) as its arguments, at the push that completes the line and in line order; nothing else causes a call, and an unterminated line stays pending.
     A push is claimed whole (returning 1), with three exceptions: a null or empty push returns -1; a push that begins with a backspace removes the last pending character (if any), leaving the rest of that push with the caller; and a push that takes the pending input over the length limit discards all of the pending input without running it.
     The history is, in order, the last maxHistoryDepth() lines that ran (and, with historyFail(), lines that failed).""",
     ["histories", "inputs"], "Every set of commands, every text, and every way of dividing it into pushes and fragments.",
     "Tests push three well-formed lines.",
     ["src/Console/C3PConsole.cpp", "src/Console/C3PConsole.h"],
     [("input", "ParsingConsole::pushBuffer"), ("lines", "ParsingConsole::_process_buffer"), ("lookup", "ParsingConsole::_exec_line"), ("execution", "ParsingConsole::_exec_line")],
     "console", "a push ended in the middle of a line, and there was an unknown command, a missing argument, a backspace or a push with several lines.",
     "stateful model-based property testing, shrinking",
     "Random command sets (defined in all four ways, with clashing names and shortcuts) and input streams cut at random points, for the four terminators, against a model of the console.",
     state=[("pending input", "the bytes after the last complete line", "ParsingConsole::_buffer"), ("history", "lines that ran", "ParsingConsole::_history")],
     observe=["callbacks and their arguments", "pushBuffer()'s return and the caller's buffer", "printHistory()", "historyDepth()"],
     assumptions=["Lines are text without zero bytes. The console isn't re-entered from its callbacks."])

prop("K02", "The console's output is delivered in order, and its settings are independent",
     """Text from commands and from printToLog() goes to the attached efferant completely and in order, and is kept while the efferant refuses it or if there is none; fetchLog() takes exactly the text that hasn't gone out.
     console_handler_conf() with a setting's name (ignoring case) and a value changes that setting (echo, help-on-fail, prompt, force, rxterm, history depth, history logerrors) and no other, without a value changes nothing, and fails for an unknown name; a reduced history depth drops the oldest lines.
     The help lists every defined command.""",
     ["histories", "configurations"], "Every interleaving of commands, log text, refusals by the efferant, and setting changes.",
     "Tests use an efferant that always accepts, and no setting commands.",
     ["src/Console/C3PConsole.cpp", "src/Console/C3PConsole.h"],
     [("output", "ParsingConsole::_relay_to_output_target"), ("settings", "ParsingConsole::console_handler_conf"), ("help", "ParsingConsole::_print_help")],
     "console", "output: text was written, and the efferant refused some or it was fetched; settings: two or more changes, and lines in the history.",
     "stateful model-based property testing, shrinking",
     "Random histories against a model of the log and of each setting (every accessor is compared after every operation).",
     observe=["what the efferant received", "fetchLog()", "accessors", "console_handler_help()"],
     assumptions=["The efferant takes all of a push or none of it. The wording of reports is open."])

prop("M01", "M2M messages read back as written, from any fragmentation",
     """An M2M header or message that is written has the documented length (header_length(), payload_length() and total_length() agree with the bytes written) and reads back with the same code, flags, id and payload, whatever the fragmentation and whatever follows it, which is left in the buffer; it is complete exactly when its last byte has arrived, and serializing it again gives the same bytes.
     A header that isn't all there yet gives -2, one with a wrong code, a wrong checksum or an impossible length is refused (-3), and attempt_header_parse() never changes the buffer.
     ack() and reply() turn a received message that expects a reply into an outbound reply with the same code and id.""",
     ["inputs"], "Every code, flag, id and payload length (up to 24 bits), every fragmentation, and any bytes in place of a header.",
     "No passing test covers the M2M link.",
     ["src/M2MLink/M2MMsgHdr.cpp", "src/M2MLink/M2MMsg.cpp", "src/M2MLink/M2MLink.h", "src/M2MLink/README.md"],
     [("header written", "M2MMsgHdr::serialize"), ("header read", "M2MMsg::attempt_header_parse"), ("payload", "M2MMsg::accumulate"), ("reply", "M2MMsg::reply")],
     "m2m", "headers: a payload above 255 bytes; any_bytes: a header was accepted; messages: a message with payload and an answer with payload.",
     "property-based round-trip testing, shrinking",
     "Random headers and payload maps; a format computed by the harness for the lengths; the payload is compared by its encoding; damage to code and checksum; leak detection.",
     observe=["serialize()", "attempt_header_parse()", "unserialize() and accumulate()", "getPayload()", "accessors"],
     assumptions=["The payload itself has no checksum. CBOR is the only payload format with an implementation."])

prop("M02", "Two links connect over a reliable transport and deliver every message once",
     """Two M2MLinks over a reliable transport reach LIVE and learn each other's identity (if there is one), whatever the order of polls, the delays and the fragmentation; from then on each message sent arrives at the other application exactly once, in the order sent (if the transport refused nothing), each reply arrives once at the sender, with the id that send() returned, and both links become idle without a reply timeout.
     writeRemoteLog() always takes its buffer, delivers the text to the other side's log if that side allows it, and returns -2 if there is no connection.
     hangup() delivers what its caller had sent, leaves both links HUNGUP and unconnected, where send() fails, and reset() on both sides makes a new session; nothing leaks.""",
     ["histories", "schedules"], "Every interleaving of polls, sends, partial deliveries and time, and transports that refuse writes.",
     "No passing test covers the M2M link.",
     ["src/M2MLink/M2MLink.cpp", "src/M2MLink/M2MLink.h", "src/M2MLink/M2MMsg.cpp"],
     [("input", "M2MLink::pushBuffer"), ("state machine", "M2MLink::_fsm_poll"), ("sending", "M2MLink::send"), ("replies", "M2MLink::_clean_msg_queues"), ("logs", "M2MLink::writeRemoteLog"), ("hangup", "M2MLink::hangup")],
     "m2m", "more than two messages, an answer, and a delivery that cut a message.",
     "stateful model-based property testing over two real endpoints and a simulated clock, shrinking",
     "Two real links joined by a simulated transport with random cuts, delays, refusals and poll orders; the history of sends and arrivals is judged; leak detection.",
     state=[("session state", "the link's position in its connection life cycle", "M2MLink (StateMachine)"), ("queues", "outbound messages, and messages awaiting a reply", "M2MLink::_outbound_messages")],
     observe=["send(), currentState(), isConnected(), linkIdle(), remoteIdentity(), replyTimeouts()", "application callbacks", "poll()'s log"],
     assumptions=["At most three messages are outstanding per side. Delays of delivery in a session stay below the reply timeout. AUTH and M2MService aren't implemented in the code."])

prop("M03", "A link survives noise and loss, and retries within bounds",
     """An M2MLink takes any bytes in any state without memory error or leak, and always claims all of a push. After noise, two links (with keep-alives) return to LIVE and exchange messages again; a forced hangup takes effect without the counterparty, and reset() makes the link usable again.
     If whole writes are lost or repeated, a message that expects a reply is sent at most four times, at least the reply timeout apart, and is given up only after that (which replyTimeouts() counts), a message that expects no reply is written once, and everything that is delivered was sent.""",
     ["fault_sequences", "schedules", "inputs"], "Any bytes from the counterparty, any damage or loss in a session, and every schedule of polls and time.",
     "No passing test covers the M2M link.",
     ["src/M2MLink/M2MLink.cpp", "src/M2MLink/M2MLink.h", "src/M2MLink/M2MMsg.cpp", "src/M2MLink/M2MMsgHdr.cpp"],
     [("input", "M2MLink::pushBuffer"), ("recovery", "M2MLink::_process_for_sync"), ("retries", "M2MLink::_clean_msg_queues"), ("hangup", "M2MLink::hangup"), ("reset", "M2MLink::reset")],
     "m2m", "garbage: more than 60 bytes reached a link that was live; recovery: more than 30 bytes of noise; lossy: two messages that expect a reply, and a loss or an application that doesn't answer.",
     "fuzzing with structured frames, and stateful property testing with injected faults, shrinking",
     "Frames that are right in form and anything in content, random bytes and sync patterns; address, undefined-behaviour and leak detection; for losses, the history of writes and arrivals is judged.",
     observe=["pushBuffer()", "currentState()", "application callbacks", "every write to the transport", "replyTimeouts()"],
     assumptions=["In the loss target, what isn't lost arrives intact. After noise a few messages might be lost before the link has noticed."])

prop("Y01", "Identities and UUIDs survive text, storage and CBOR",
     """A UUID's text form (8-4-4-4-12 lower-case hexadecimal) parses back to the same UUID, comparison and copying agree with its 16 bytes, and a generated UUID is marked as version 4 and as RFC 4122.
     A UUID Identity that is stored (toBuffer(), serialize()) takes exactly length() bytes and comes back, as it does from CBOR, with the same handle, UUID and ownership flag and not dirty; a buffer that is too small gives 0 and isn't exceeded, and fromBuffer() gives nothing for malformed bytes, or exactly the content that is in them.
     getIdentity() finds an identity by its own name and format, and no other.""",
     ["inputs"], "Every UUID, every handle, every damage to the stored form, and any bytes.",
     "Tests cover a few UUIDs and one identity without storage.",
     ["src/Identity/Identity.cpp", "src/Identity/Identity.h", "src/Identity/IdentityUUID.cpp", "src/Identity/IdentityUUID.h", "src/uuid.cpp", "src/uuid.h"],
     [("text", "uuid_from_str"), ("generation", "uuid_gen"), ("storage", "Identity::toBuffer"), ("retrieval", "Identity::fromBuffer")],
     "identity", "uuids: a text of 32 or more digits; identities: a handle of more than two characters; any_bytes: an identity was accepted.",
     "property-based round-trip testing, shrinking",
     "Random UUIDs, handles and damage; buffers of exact size under the address sanitizer; leak detection.",
     observe=["uuid_to_str(), uuid_from_str(), uuid_compare(), uuid_gen()", "toBuffer(), serialize(), fromBuffer()", "CBOR through KeyValuePair"],
     assumptions=["UUID is the only identity format that the repository implements with storage."])

prop("D01", "A stored record comes back exactly, or is refused",
     """save() of a SimpleDataRecord appends a 40-byte descriptor and the serialized content to the buffer (prior content of the buffer is kept), and leaves the record clean (isDirty() until the content changes again); without a name (-1) or if the content can't be serialized (-2) it fails and appends nothing (names are cut to 16 characters).
     load() of those bytes, from a pointer or a StringBuilder in any fragmentation and whatever follows them, hands exactly the content to deserialize(), once, and gives the same hash, timestamp and type.
     A record that is truncated or has another version or type (-1), another storage tag (-2), damaged content (-3), or content that deserialize() doesn't take (-4) is refused, and content that isn't what was saved is never handed over; any bytes are memory-safe.""",
     ["inputs", "fault_sequences"], "Every content and name, every damage to the stored bytes, and any bytes.",
     "No test of the project covers records.",
     ["src/Storage/SimpleDataRecord.cpp", "src/Storage/Storage.h"],
     [("save", "SimpleDataRecord::save"), ("load", "SimpleDataRecord::load"), ("hash", "SimpleDataRecord::_calculate_hash"), ("descriptor", "SimpleDataRecord::_descriptor_deserialize")],
     "storage", "records: content of more than 8 bytes; any_bytes: more bytes than a descriptor.",
     "property-based round-trip testing with injected damage, shrinking",
     "A record whose content and failures are set by the harness; damage to every field; buffers of exact size under the address sanitizer; leak detection.",
     observe=["save(), load() and what they return", "isDirty(), wasLoaded(), hash(), timestamp()", "what reaches deserialize()"],
     assumptions=["The format is CBOR, as it is in the repository. Asynchronous block-wise storage (DataRecord) is unfinished in the code, and isn't covered."])

prop("D02", "A configuration keeps its keys and types, and survives storage",
     """A ConfRecord holds one value of the declared type for every exported key of its list; setConf() and getConf(), by key or by name, convert as C3PValue does (0 on success, -3 if there is no conversion, -2 for an unknown name), and change no other value.
     A saved configuration loads with every value the same, also into a record with a later form of the list (more, fewer, or reordered keys), where keys that aren't stored (as strings that were never set) keep the value they had, and a key that has another type now takes what C3PValue converts to it (load() fails if a value doesn't fit).
     The configuration of a list with another name, or a damaged one, is refused and changes nothing; after any bytes whatever, the record has all its keys with their types.""",
     ["inputs", "histories", "configurations"], "Every list of keys and types, every history of setting, reading, saving and loading, and any bytes.",
     "No test of the project covers configuration records.",
     ["src/Storage/RecordTypes/ConfRecord.cpp", "src/Storage/RecordTypes/ConfRecord.h", "src/Storage/Storage.h"],
     [("values", "ConfRecord::_allocate_kvp"), ("set and get", "ConfRecord::setConf"), ("storage", "ConfRecord::serialize"), ("retrieval", "ConfRecord::deserialize")],
     "storage", "conf: more than three changes to a list of more than two keys; any_content: damaged content of a right form (always).",
     "stateful property-based testing against a model, round trips, shrinking",
     "The model is one independent C3PValue for each key. Lists of generated names and types (integers, floating point, strings, vectors).",
     observe=["setConf(), getConf(), keyList(), getKVP()", "save(), load()"],
     assumptions=["Keys of type BINARY are left out: the repository notes that they don't work."])

prop("I01", "An image's size, format and memory agree, and it survives storage",
     """An Image's bytesUsed() is exactly what its size and format need (whole bytes; 0 without a format), its buffer has at least that many, and a setSize(), setBufferByCopy(), setBuffer(), reallocate() or other change that is refused (false) leaves size, format, buffer and pixels as they were; a buffer that was given by the user is used in place, and never freed or resized.
     serialize() writes the size, the flags and the format with the pixels, and deserialize() of those bytes into an empty Image gives the same size, format, flags (text wrap, code page, flips) and pixels in a buffer of its own, as does CBOR through a KeyValuePair.
     deserialize() refuses bytes that are too short or too long for the size they state, and any Image that already has a format, and is memory-safe for any bytes.""",
     ["inputs", "histories"], "Every history of size, format and buffer changes, and any stored bytes.",
     "Tests of the project allocate images of a few sizes in one format, and store none.",
     ["src/Image/Image.cpp", "src/Image/Image.h"],
     [("size", "Image::bytesUsed"), ("memory", "Image::reallocate"), ("storage", "Image::serialize"), ("retrieval", "Image::deserialize")],
     "image", "buffers: more than three changes to an image that ends with a size; any_bytes: accepted, or more than ten bytes; sizes: more than 255 pixels in both directions.",
     "stateful property-based testing against a model, round trips and fuzzing, shrinking",
     "The model is size, format and bytes. Given buffers have the exact size, under the address sanitizer; leak detection.",
     observe=["setSize(), setBuffer(), setBufferByCopy(), reallocate(), deallocate()", "serialize(), deserialize(), CBOR"],
     assumptions=["An image has up to 65535 pixels in each direction."])

prop("I02", "A pixel reads back as written, and no other changes",
     """In every format and orientation (rotation and flips), and with the coordinates that the orientation gives, getPixel() of an Image returns the color last written to that pixel by setPixel() or fill(), cut to the bits that the format has, and every other pixel is unchanged; out of the image setPixel() returns false and changes nothing, and getPixel() is 0.
     setPixel() by red, green and blue keeps the most significant bits that the format has for each, and getPixelAsFormat() converts by the same rule.
     The bytes of a pixel are at its position in row-major order, most significant byte first, whatever the orientation was when it was drawn.""",
     ["inputs", "histories"], "Every format, size, orientation, color and history of writes.",
     "Tests of the project draw in one format, and look at few pixels.",
     ["src/Image/Image.cpp", "src/Image/Image.h"],
     [("write", "Image::setPixel"), ("read", "Image::getPixel"), ("orientation", "Image::_remap_for_orientation"), ("conversion", "Image::getPixelAsFormat")],
     "image", "pixels: more than four writes to an image of at least 2 by 2.",
     "stateful property-based testing against a model, shrinking",
     "The model is an array of colors. A second image on the same buffer gives the layout. Buffers have the exact size, under the address sanitizer.",
     observe=["setPixel(), fill(), getPixel(), getPixelAsFormat()", "the buffer's bytes"],
     assumptions=["Formats with pixel functions: monochrome, 8 to 32 bits; GREY_4 has none in the repository. In R8_G8_B8_ALPHA the bytes are in the reverse order. A rotation by 90 or 270 degrees is the transposition that the code has. Conversions are between the color formats."])

prop("I03", "Shapes and text cover exactly their pixels, clipped to the image",
     """Lines have one pixel for every step of the longer axis, with both ends, at most one pixel off the ideal line; rectangles, filled rectangles, fast lines and filled triangles cover exactly their area, circles are symmetric rings of their radius, and filled circles and rounded rectangles fill their outlines; bitmaps are copied pixel by pixel.
     Everything has the one color that was given, and drawing across or beyond the edge gives exactly the part that is in the image; any coordinates whatever are memory-safe, and drawing ends.
     Text is the sequence of its characters' glyphs (in built-in and custom fonts, at any text size, wrapped if so set), the cursor is where the next would go, and getTextBounds() is the box of them; an ImageScaler copies, magnifies or reduces its part of the source to the target, and refuses ranges that don't fit.""",
     ["inputs"], "Every shape, position, text, font and image size.",
     "Tests of the project draw a few shapes, and look at no pixels.",
     ["src/Image/Image.cpp", "src/Image/Image.h", "src/Image/ImageUtils/ImageScalers.cpp", "src/Image/ImageUtils.h"],
     [("lines", "Image::drawLine"), ("areas", "Image::fillTriangle"), ("circles", "Image::drawCircle"), ("text", "Image::drawChar"), ("bounds", "Image::getTextBounds"), ("scaling", "ImageScaler::apply")],
     "image", "shapes: more than four pixels are in the image; anywhere: more than one call on an image with memory; chars: more than three pixels were drawn; text: three characters or more; scaler: more than four pixels were copied.",
     "property-based testing against geometric references and a metamorphic relation, shrinking",
     "The metamorphic relation: the same shape on an image with wide margins, cut to the small image.",
     observe=["drawLine(), drawRect(), fillRect(), drawCircle(), fillCircle(), drawRoundRect(), fillRoundRect(), drawTriangle(), fillTriangle(), drawBitmap()", "drawChar(), writeString(), getTextBounds()", "ImageScaler"],
     assumptions=["drawEllipse() is unfinished in the repository, and isn't covered. The pixels of the built-in font are pinned by a hash. A scale is a power of two or its inverse."])

prop("B01", "A UART passes every byte in order, exactly once, and says how much it took",
     """The bytes that a UARTAdapter takes (write() in any of its forms, or pushBuffer()) leave in order, each exactly once, and the bytes that came in are read() in order, each exactly once; what didn't fit in the transmit buffer isn't taken, is still in the caller's StringBuilder, and isn't in the returned count.
     pushBuffer() returns 1 if it took all, 0 if it took a part and -1 if it took nothing; pendingTxBytes(), pendingRxBytes() and bufferAvailable() are exact at all times.
     Received bytes go on to the read callback only as far as it has room and accepts them, the rest stay; a UART that isn't initialized or can't transmit takes nothing, and deinit() and reset() drop both buffers.""",
     ["histories", "fault_sequences"], "Every history of writes, reads, traffic, refusals and restarts, with buffers of any size.",
     "No test of the project covers UARTs.",
     ["src/BusQueue/UARTAdapter.cpp", "src/BusQueue/UARTAdapter.h", "src/RingBuffer.h"],
     [("writing", "UARTAdapter::write"), ("a pipe's end", "UARTAdapter::pushBuffer"), ("reading", "UARTAdapter::read"), ("passing on", "UARTAdapter::_handle_rx_push")],
     "bus", "uart: more than eight bytes went out or were read.",
     "stateful property-based testing against a model, with a simulated device and injected refusals, shrinking",
     "The model is two queues of bytes. The hardware, which a port supplies, is simulated.",
     observe=["write(), read(), pushBuffer()", "pendingTxBytes(), pendingRxBytes(), bufferAvailable()", "what the transmitter takes, and what the read callback gets"],
     assumptions=["The interrupt handlers of a port run between calls, and not within them. After reset() the options are as the code has them."])

prop("B02", "I2C jobs run one at a time in order, and each comes back to its owner once",
     """Jobs that are queued on an I2CAdapter begin in the order in which they were queued, one at a time, each with the address, sub-address, opcode and buffer it was given, and each begun job comes back to its callback exactly once per run, with its own outcome; one whose callback asks for it is queued again behind the rest.
     queue_io_job(), writeX(), readX() and ping_device() report success exactly if the job was taken (begun at once only if the bus is idle and the platform wants that); with no operation to be had they return false.
     Purging (the current job, the queue, or one device's jobs) brings back exactly those jobs, with QUEUE_FLUSH, and a device that is destroyed gets no callback after; every pooled operation returns to its pool as new, buffers are freed exactly if so marked, and a ping sweep records for each address whether a device answered.""",
     ["histories", "schedules", "fault_sequences"], "Every history of jobs, completions, failures, purges, device removals and restarts, for pools and queues of any size.",
     "No test of the project covers bus adapters.",
     ["src/BusQueue/I2CAdapter.cpp", "src/BusQueue/I2CDevice.cpp", "src/BusQueue/I2CBusOp.cpp", "src/BusQueue/I2CAdapter.h", "src/BusQueue/BusQueue.h", "src/ElementPool.h"],
     [("queue", "I2CAdapter::queue_io_job"), ("progress", "I2CAdapter::_bus_poll"), ("devices", "I2CDevice::writeX"), ("purge", "BusAdapter::purge_queued_work_by_dev"), ("reclaim", "BusAdapter::_reclaim_queue_item")],
     "bus", "i2c: more than five jobs completed, and one was queued again.",
     "stateful property-based testing against a model, with simulated hardware and injected faults, shrinking",
     "The model is a queue of jobs with planned outcomes. The hardware, which a port supplies, is simulated, with immediate or polled operations. Leak detection.",
     observe=["what begins on the simulated bus, with what content", "callbacks and their faults", "what calls return", "pool and queue counts", "the ping map"],
     assumptions=["One ping sweep at a time. Jobs of the user's own are kept by the user (shouldReap(false))."])

prop("B03", "SPI jobs run by priority, select only their chip, and come back once",
     """Jobs that are queued on an SPIAdapter run one at a time, by priority and then in the order in which they were queued, each with the parameters, buffer, frame size and mode it was given, and each comes back to its callback exactly once per run, with its own outcome; a job that finds the bus busy is tried again.
     While a job has the bus its chip-select pin is active (at its own polarity), and no other is, and when it has ended or was aborted the pin is inactive.
     A job that the guarded full queue refuses is reported with -1 and comes back with QUEUE_FLUSH; purging brings back exactly the jobs it should; every pooled operation returns to its pool as new, and buffers are freed exactly if so marked.""",
     ["histories", "schedules", "fault_sequences"], "Every history of jobs, completions, failures, refusals and purges, for pools and queues of any size.",
     "No test of the project covers bus adapters.",
     ["src/BusQueue/SPIAdapter.cpp", "src/BusQueue/SPIBusOp.cpp", "src/BusQueue/SPIAdapter.h", "src/BusQueue/BusQueue.h", "src/PriorityQueue.h"],
     [("queue", "SPIAdapter::queue_io_job"), ("progress", "SPIAdapter::_bus_poll"), ("callbacks", "SPIAdapter::service_callback_queue"), ("chip select", "SPIBusOp::_assert_cs"), ("end", "SPIBusOp::markComplete")],
     "bus", "spi: more than five jobs completed, and more than one priority was in the queue.",
     "stateful property-based testing against a model, with simulated hardware and pins, and injected faults, shrinking",
     "The model is a priority queue of jobs with planned outcomes. The hardware and the pins, which a port supplies, are simulated. Leak detection.",
     observe=["what begins on the simulated bus, with what content", "the chip-select pins", "callbacks and their faults", "what calls return", "pool and queue counts"],
     assumptions=["Jobs of the user's own are kept by the user (shouldReap(false))."])

prop("P05", "GPS sentences are each judged once, however the stream of bytes is cut",
     """Pieces of a serial stream given to GPSWrapper::pushBuffer() are taken whole, and once more than 140 bytes wait, each complete line (ended by \\n) is judged exactly once and in order, and counted as parsed or as rejected, however the stream is cut; the unfinished rest waits for its end, and of a rest over 1024 bytes the oldest are dropped.
     A sentence is parsed if it is of a known type (RMC, GGA, GSA, GLL, GST, GSV, VTG, of any talker) and within the length limit, its fields are well-formed, and its checksum is right (or absent, with \\r at the end); anything else is rejected and changes nothing.
     RMC gives latitude and longitude (NaN if unknown) and the UTC as a Unix time, GGA the satellites and the altitude in mm, GSA the dilutions of precision, VTG the bearing, the speed in mm/s and one callback with the location so far (a time, altitude or speed that isn't given leaves the old); haversineDistance() is the great-circle distance.""",
     ["inputs", "histories"], "Every sequence of sentences, damage and noise, cut anywhere.",
     "Tests of the project do not cover the GPS parser.",
     ["src/Pipes/BufferAccepter/GPSWrapper/GPSWrapper.cpp", "src/Pipes/BufferAccepter/GPSWrapper/GPSWrapper.h"],
     [("intake", "GPSWrapper::pushBuffer"), ("lines", "GPSWrapper::_attempt_parse"), ("fields", "GPSWrapper::_scan"), ("checksum", "GPSWrapper::_check"), ("time", "GPSWrapper::_gettime"), ("distance", "GPSWrapper::haversineDistance")],
     "gps", "stream: more than three sentences were parsed; any_bytes: more than 40 bytes; distance: the points are more than 1 m apart.",
     "property-based testing against a model that generates the sentences from values, fuzzing, shrinking",
     "The model generates each sentence from its values, and knows what it should do. Under the address sanitizer. In several time zones.",
     observe=["the counts of parsed and rejected sentences", "the location in each callback and after each push", "bufferAvailable()", "haversineDistance()"],
     assumptions=["Years are 2000 to 2037. A sentence without a checksum is accepted only if \\r ends it. Coordinates come with their direction. RMC's status isn't looked at."])

prop("B04", "Cryptographic jobs run one at a time by priority, and each comes back once",
     """Jobs that are queued on a CryptoProcessor run one at a time, by priority and then in the order in which they were queued: each poll advances the current job once and brings back at most one ended job, which comes to its callback exactly once per run, complete and with its own fault (that of the step that failed, RECALLED if the user aborted it, QUEUE_FLUSH if the queue was full), and one whose callback asks for it is queued again (at priority 0).
     queue_job() returns 0, -1 for a job that isn't idle, or -2 if the queue is full (the job then comes back); purging (the current job, the queue, or one owner's jobs) brings back exactly those jobs, with QUEUE_FLUSH, and returns their number; ended jobs are deleted, or (if the user keeps them) wiped, idle and usable again without a fault, their buffers are freed exactly if so marked, and the counts of jobs, failures, frees and floods are exact.
     A random-number operation fills exactly its buffer (its own, if it is to allocate one) with the numbers of the platform, and fails with MEM if it has none.""",
     ["histories", "fault_sequences"], "Every history of queueing, polling, purging and recalling, with any faults.",
     "Tests of the project do not cover the queue of jobs.",
     ["src/CryptoBurrito/CryptoBurritoUtils.cpp", "src/CryptoBurrito/CryptoBurrito.h"],
     [("queue", "CryptoProcessor::queue_job"), ("work", "CryptoProcessor::_advance_work_queue"), ("callbacks", "CryptoProcessor::_advance_callback_queue"), ("purges", "CryptoProcessor::purge_queued_work_by_dev"), ("steps", "CryptOp::advance"), ("release", "CryptoProcessor::_reclaim_queue_item"), ("random", "CryptOpRNG::_advance")],
     "crypto", "more than five callbacks, and jobs of several priorities in the queue at once.",
     "stateful property-based testing against a model of the queue, shrinking",
     "The queue and the random-number operation are built without a backend (none can be built here); the other operations are stand-ins that end, fail or take steps as generated. Under the address and leak sanitizers.",
     observe=["callbacks, with state and fault", "which job is advanced, and in which state", "deletions and wipes", "the counters that printDebug() prints"],
     assumptions=["Callbacks may queue jobs, and do not purge."])

prop("I04", "A graph shows every sample at its height, and stays inside its frame",
     """An ImageGraph plots sample i of an enabled trace in column i of its plot, at a height proportional to where the sample is in the range of the trace (the least value of the range on the axis), with exactly one point for each sample that fits in the width and none for others; the range encloses the visible samples, and is exactly theirs if autoscaled and not negative.
     Whatever the data, size, position, grid and curve options, everything it draws is inside its rectangle, and a graph that doesn't fit in the image draws nothing; the axes are drawn, and upright grid lines are at multiples of the grid, moving with the offset of the data unless they are locked.
     A trace without data, or an option without its numbers, is memory-safe and draws an empty graph.""",
     ["inputs"], "Every dataset, size, position and combination of options.",
     "No test of the project covers graphs.",
     ["src/Image/ImageUtils/ImageGraph.cpp", "src/Image/ImageUtils/ImageGraph.h"],
     [("plotting", "ImageGraph<T>::drawGraph"), ("the range", "ImageGraphTrace<T>::findBounds"), ("the size of the plot", "ImageGraph<T>::frustum_width")],
     "gfx", "words and floats: more than two samples are shown in a plot of more than 3 by 3 pixels.",
     "property-based testing against a reference plot, shrinking",
     "The datasets are in memory of exactly their size, so that samples beyond the end are noticed.",
     observe=["drawGraph()", "ImageGraphTrace: minValue(), maxValue(), copyFrom()", "Image: getPixel()"],
     assumptions=["Samples are finite. With texts (ranges, values, the accented sample), which may be wider than the graph, only memory safety is checked. Traces 1 and 2 aren't drawn by the repository."])

prop("I05", "Bars and compasses show their value, and stay inside their rectangle",
     """A progress bar of UIGfxWrapper is full up to its fraction of its length (nothing at 0, all at 1, within a pixel between) and empty beyond, from left to right or from the bottom to the top, with its outline around it, whatever it showed before; a zoom bar shows the part between its two fractions.
     The red half of a compass needle points in the direction of the bearing and the white half away from it, both over the whole radius.
     None of them changes a pixel outside of the rectangle that it was given.""",
     ["inputs", "histories"], "Every position, size and sequence of values.",
     "No test of the project covers these.",
     ["src/Image/ImageUtils/ImageUtils.cpp", "src/Image/ImageUtils.h"],
     [("progress", "UIGfxWrapper::drawProgressBarH"), ("zoom", "UIGfxWrapper::drawZoomBarV"), ("bearings", "UIGfxWrapper::drawCompass")],
     "gfx", "progress and zoom: the bar is longer than six pixels, and was drawn; compass: the radius is over four pixels.",
     "property-based testing against geometric references over sequences of values, shrinking",
     "Rounded corners aren't judged: only the rows and columns between them.",
     observe=["drawProgressBarH(), drawProgressBarV()", "drawZoomBarH(), drawZoomBarV()", "drawCompass()", "Image: getPixel()"],
     assumptions=["Fractions are from 0 to 1, and those of zoom bars are in order. Values that are printed may be wider than the bar. drawHeatMap() and drawVector() aren't covered: the former draws at the corner of the image, wherever it's told to, and the repository notes both as unfinished."])
