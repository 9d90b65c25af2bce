"""What each check is made of."""

HINTS = ["-DUPD_PLATFORM_ENDIANESS=LITTLE", "-DUPD_PLATFORM_SIGNED_MODE=TWOS_COMPLEMENT"]
CONFIGS = {
    "cpp11": dict(std="c++11", defs=[], compiler="clang"),
    "cpp17": dict(std="c++17", defs=[], compiler="gcc"),
    "cpp11-hints": dict(std="c++11", defs=HINTS, compiler="gcc"),
    "cpp17-hints": dict(std="c++17", defs=HINTS, compiler="clang"),
    "cpp11-le": dict(std="c++11", defs=HINTS[:1], compiler="gcc"),
    "cpp17-le": dict(std="c++17", defs=HINTS[:1], compiler="clang"),
    "cpp11-tc": dict(std="c++11", defs=HINTS[1:], compiler="clang"),
    "cpp17-tc": dict(std="c++17", defs=HINTS[1:], compiler="gcc"),
}
ALL8 = list(CONFIGS)
# Without instrumentation, optimized
CONFIGS["cpp11-hints-O2"] = dict(std="c++11", defs=HINTS, compiler="gcc", flags=["-O2"])
CONFIGS["cpp17-O3"] = dict(std="c++17", defs=[], compiler="clang", flags=["-O3"])
CONFIGS["cpp11-O0"] = dict(std="c++11", defs=[], compiler="gcc", flags=["-O0"])
CONFIGS["cpp17-O2"] = dict(std="c++17", defs=[], compiler="gcc", flags=["-O2"])
CONFIGS["cpp11-msan"] = dict(std="c++11", defs=[], compiler="clang",
                             flags=["-O0", "-fsanitize=memory", "-fsanitize-recover=memory", "-fno-sanitize-memory-param-retval",
                                    "-Wl,--wrap=__msan_warning"])
STD4 = ALL8[:4]
STD2 = ["cpp11", "cpp17-hints"]

CHECKS = {
    "C01": dict(
        units=[dict(src="c01.cpp", parts=5, configs=ALL8, defs=["-DDEC=0"]),
               dict(src="c01.cpp", tag="-full", partlist=[5], tiers=["thorough"], configs=STD2, defs=["-DDEC=0"],
                    flags=["-O2"], shards=8)],
        budget=dict(thorough=7200),
        technique="exhaustive enumeration of values on the real code against an independent oracle",
        rule="sweeps: one state per value, one transition per value set in, and read back from, the real tuples, views and arrays in the "
             "8 formats; all values of 8 and 16-bit types; for wider types +-2^k+d (|d|<=4), every byte at every position over 6 backgrounds, "
             "all combinations of boundary bytes; thorough adds all 2^32 values",
        assumptions=["64-bit values are covered on boundary lattices only",
                     "the smallest value of two's complement types is outside the domain of sign-magnitude and ones' complement"],
    ),
    "C02": dict(
        units=[dict(src="c01.cpp", parts=5, configs=ALL8, defs=["-DDEC=1"]),
               dict(src="c01.cpp", tag="-full", partlist=[5], tiers=["thorough"], configs=STD2, defs=["-DDEC=1"],
                    flags=["-O2"], shards=8)],
        budget=dict(thorough=7200),
        technique="exhaustive enumeration of byte patterns on the real code against an independent oracle",
        rule="sweeps: one state per byte pattern, decoded by the real tuples, views and arrays in the 8 formats; all patterns of 8 and "
             "16-bit types; for wider types the same lattices of patterns as C01; thorough adds all 2^32 patterns",
        assumptions=["64-bit patterns are covered on boundary lattices only"],
    ),
    "C03": dict(
        units=[dict(src="c03.cpp", partlist=[4]),
               dict(src="c03.cpp", tag="-pairs", partlist=[0, 1, 2, 3], configs_quick=STD2, configs_thorough=STD4)],
        rule="breadth-first search over the contents of a real tuple under set, assignment (from tuples and views of other formats), "
             "raw byte write, copy and construction; one state per content; after each operation the whole content, all the elements, "
             "invoke() and guard bytes are compared with an independent model",
        assumptions=["assignment of tuples holding plain arrays from other formats does not compile and is not explored",
                     "sources of other formats are rvalues: others do not compile"],
    ),
    "C04": dict(
        units=[dict(src="c04.cpp", partlist=[0, 3]),
               dict(src="c04.cpp", tag="-kinds", partlist=[1, 2], configs_quick=STD2, configs_thorough=STD4)],
        rule="breadth-first search over the contents of the bytes under a real view, for every kind of iterator (7 kinds; pointers at 8 "
             "alignments; const pointers and const iterators cross-checked in every state), under set, assignment and direct writes to "
             "the bytes; every slice of tuples with all sequences of writes; guard bytes and iterators that refuse to leave their range",
        assumptions=["assigning a view of the very same type rebinds it (implicit assignment): not explored"],
    ),
    "C05": dict(
        units=[dict(src="c05.cpp", partlist=[0]),
               dict(src="c05.cpp", tag="-more", partlist=[1, 3], configs_quick=STD2, configs_thorough=STD4),
               dict(src="c05.cpp", tag="-all", partlist=[2, 4, 5, 6], tiers=["thorough"], configs=STD4)],
        technique="exhaustive enumeration of signatures and objects on the real code, counting the bytes really exchanged",
        rule="depth-first enumeration of signature x announcing object (key, tuple, action owning or not, hook, dispatcher) x values x form: "
             "every announced size is compared with the independent wire size and with the number of bytes that go through counting "
             "sources and sinks; signatures are the unary, binary and ternary products of the parameter and return alphabets",
    ),
    "C06": dict(
        units=[dict(src="c06.cpp", partlist=[0, 1, 2, 3], configs_quick=STD2, configs_thorough=STD4),
               dict(src="c06.cpp", tag="-more", partlist=[4, 5], tiers=["thorough"], configs=STD4)],
        technique="exhaustive enumeration of keyrings, arguments and output forms on the real code against an independent encoder",
        rule="depth-first enumeration of key x argument list (boundary lattices, up to 2 simultaneous deviations from a base list) x output "
             "form; each message is sent 2 or 3 times through different forms and once more from tuples of two formats",
    ),
    "C07": dict(
        units=[dict(src="c07.cpp", partlist=[4]),
               dict(src="c07.cpp", tag="-all", partlist=[0, 1, 2, 3], configs_quick=STD2, configs_thorough=STD4)],
        technique="exhaustive enumeration of response bytes, input forms and hooks on the real code against an independent decoder",
        rule="sweeps over all the patterns of 8 and 16-bit returns (one state per pattern) and depth-first enumeration of boundary patterns "
             "(up to two bytes deviating from three bases) x input form / hook kind x hook form; hooks are also reused for several responses",
    ),
    "C08": dict(
        units=[dict(src="c08.cpp", parts=5)],
        technique="exhaustive enumeration of indexes and packet sequences on the real dispatcher against a reference model",
        rule="sweeps over every index value (256 or 65536) on one dispatcher, depth-first enumeration of packet sequences x entry points "
             "(operator(), get_action, get_index and operator[]) x input/output forms, boundary arguments and returned values",
    ),
    "C09": dict(
        units=[dict(src="c09.cpp", parts=4)],
        rule="breadth-first search over the operations put(byte of the alphabet) and complete unloading, the real dispatcher "
             "and the reference model side by side; two states are merged when the model states (and, in the concrete "
             "scenarios, the object representations) are equal",
    ),
    "C10": dict(
        units=[dict(src="c10.cpp", parts=4)],
        rule="as C09, with the operations put, get and complete unloading through every output form in every state",
    ),
    "C11": dict(
        units=[dict(src="c11.cpp", parts=4, configs_quick=STD2, configs_thorough=STD4)],
        rule="depth-first enumeration of all the streams of up to 2 packets (3 in the thorough tier) from an alphabet of valid and invalid "
             "packets; every packet is cut at every position between single byte loads and a bulk load through every input form (or a "
             "request-response call through every pair of forms); responses are unloaded at every position; sources refuse to be read "
             "past the packet",
        assumptions=["single-buffered dispatchers are not loaded while a response is pending (documented restriction)"],
    ),
    "C12": dict(
        units=[dict(src="c12.cpp", parts=3, configs_quick=STD2, configs_thorough=STD4),
               dict(src="c12.cpp", tag="-endurance", partlist=[3, 4], configs=STD2, flags=["-O2"]),
               dict(src="c12.cpp", tag="-long", partlist=[9], tiers=["thorough"], configs=["cpp11"], flags=["-O2"])],
        rule="depth-first enumeration of all the histories of valid, dropped and failing packets up to a depth; after each of them every "
             "probe request is served and compared with the same request on a fresh dispatcher; endurance runs repeat one kind of packet "
             "past the capacity of 8 and 16-bit counters (32-bit ones in the thorough tier)",
    ),
    "C13": dict(
        units=[dict(src="c13.cpp", parts=7)],
        rule="all the products of one to three signatures of an alphabet (sizes checked against exact oracles), and for a set of keyrings "
             "every sequence of requests up to a length with every byte position of request and response exercised; the dispatcher sits "
             "between poisoned guards, under AddressSanitizer",
    ),
    "C14": dict(
        units=[dict(src="c14.cpp", parts=4, configs_quick=["cpp11", "cpp17"], configs_thorough=STD4)],
        rule="breadth-first search over replacements (every form of callback, as a temporary or a named object which is changed or destroyed "
             "afterwards), byte loads and unloads, the real dispatcher along with its model; callbacks register the addresses of their "
             "copies, so that uses after destruction, leaks and double destructions are seen",
        assumptions=["replace<Index, function>() is explored with gcc only: clang cannot deduce the arguments of unevaluated"],
    ),
    "C15": dict(
        units=[dict(src="c15.cpp", parts=4, configs_quick=STD2, configs_thorough=STD4)],
        rule="breadth-first search to the fixpoint over loads and unloads through every form, with an exception thrown at every byte by the "
             "source, the sink, the callback and the user-defined serialization; the model counts each byte as taken or handed over "
             "exactly once; complete closure unless the evidence lists a bounded scenario",
        assumptions=["a byte handed to a sink which then throws counts as delivered, a byte which a source refuses to give as not loaded",
                     "replying when a response failed or never existed is not explored"],
    ),
    "C16": dict(
        units=[dict(src="c16.cpp", parts=4, configs_quick=STD2, configs_thorough=STD4)],
        rule="breadth-first search over byte loads, unloads and replies to every target through every form; each reply is decoded by a second "
             "real dispatcher and its buffer read back with the key; large responses are enumerated depth-first",
        assumptions=["replying before any response was produced, or after a failed callback, is not explored (the documentation does not settle it)"],
    ),
    "C17": dict(
        units=[dict(src="c17.cpp", partlist=[0, 3, 4], configs=STD2, configs_thorough=STD4),
               dict(src="c17.cpp", tag="-b", partlist=[1, 5, 6, 8], configs_quick=["cpp17"], configs_thorough=STD4),
               dict(src="c17.cpp", tag="-c", partlist=[2, 12, 10], configs_quick=["cpp11-hints"], configs_thorough=STD4),
               dict(src="c17.cpp", tag="-all", partlist=[7, 9, 11, 13, 14, 15, 16, 17], tiers=["thorough"], configs=STD2)],
        technique="exhaustive enumeration of keyrings, keys, ways to obtain them and callees on the real code",
        rule="keyrings of every size up to 40 and around the changes of index width, over four families of (identical, alike, permuted) "
             "signatures; every key x way to obtain it is compared with the expected index and bytes and its request served by nine "
             "dispatchers; every index is routed too",
        assumptions=["large keyrings: keys are taken at the ends, around powers of two and in the middle in the quick tier, all the "
                     "indexes being routed; index width alone beyond 520 callbacks"],
    ),
    "C18": dict(
        units=[dict(src="c18.cpp", parts=6, configs_quick=STD2, configs_thorough=STD4)],
        rule="breadth-first search over all the schedules of a caller which pipelines all the scripts of up to 3 or 4 calls, two bounded byte "
             "channels and a callee (loading, unloading by byte or completely, over all four dispatchers), with invalid requests in between; "
             "results, calls and their order are compared with direct calls, and schedules may not get stuck; then every boundary "
             "argument list and result in lock-step, all formats",
    ),
    "C19": dict(
        units=[dict(src="c19.cpp", parts=6, configs=ALL8 + ["cpp11-hints-O2", "cpp17-O3"])],
        technique="exhaustive exploration of the real code in every configuration, comparison of the complete transcripts",
        rule="the same exhaustive explorations (all 16-bit integers, lattices of wider ones, tuples, keys, sizes, histories of dispatchers) "
             "run in the eight configurations (and two optimized builds); each scenario leaves a digest of its whole transcript (bytes, values, "
             "sizes, statuses, calls), and all the digests of a scenario must be equal; the interfaces of C++17 (deduction) are used where "
             "they exist",
    ),
    "C20": dict(
        units=[dict(src="c20.cpp", parts=4, configs_quick=["cpp11", "cpp17"], configs_thorough=STD4)],
        technique="explicit-state breadth-first search over histories with moves, on the real code",
        rule="breadth-first search over puts, gets, drains, replacements and nine kinds of moves (construction, assignment to "
             "new and used ones, swap, return, growth of a vector...) of buffered and plain dispatchers: the last kind of move is part of the state, and a "
             "moved dispatcher must answer as the one it was moved from would; depth-first search over moves of actions and of messages; a "
             "registry of live callbacks catches a callback lost, duplicated or used after its end",
    ),
    "C21": dict(
        units=[dict(src="c21.cpp", parts=5, configs_quick=["cpp11-O0", "cpp17-O2"],
                    configs_thorough=["cpp11-O0", "cpp17-O2", "cpp11-hints-O2", "cpp17-O3"]),
               dict(src="c21.cpp", tag="-msan", parts=5, configs=["cpp11-msan"])],
        technique="exhaustive exploration of histories of the real code on differently filled memory, comparison of all the outputs; "
                  "tracking of initialised bytes during the same exploration",
        rule="every history of packets, unloads, replies and moves to a depth, then every request and every form of output (get, write_to, "
             "reply), and every key, action, plain dispatcher and tuple, each run with its place, the stack and the heap filled with 3 "
             "patterns: the bytes must equal those of a new object on zeroed memory; the same paths are run with memory initialisation "
             "tracking, every byte handed to an output being checked",
        assumptions=["bytes of a tuple which user-defined serializations never set are zero, not those of a previous value: only "
                     "new tuples are looked at with such types"],
    ),
    "C26": dict(
        units=[dict(src="c26.cpp", parts=3, configs_quick=STD2, configs_thorough=STD4)],
        rule="breadth-first search over loads and unloads through every form, and depth-first enumeration of streams cut and delivered in "
             "every way, of dispatchers derived by the user from buffered_dispatcher: nine kinds of layouts (external, shared, larger, private or "
             "adjacent buffers, multiple, virtual and repeated inheritance), next to the reference model; exact allocations "
             "and guards around the buffers",
    ),
    "C27": dict(
        units=[dict(src="c27.cpp", shards=4, configs_quick=["cpp11-hints-O2", "cpp17-O3"],
                    configs_thorough=["cpp11-hints-O2", "cpp17-O3", "cpp11-O0", "cpp17-O2"])],
        technique="exhaustive exploration of the interruptions of one operation by another, on the machine code of the real library",
        rule="for every ordered pair of operations (tuples, views, keys, dispatchers of every kind, replies, hooks, constant objects used by "
             "both; two formats), the first one is executed instruction by instruction under a controlled scheduler (processor trap flag); at "
             "each boundary the whole second operation runs, then the first one goes to its end from there; both must produce what they "
             "produce alone. One state per boundary; one more run interrupted at every boundary",
        assumptions=["an operation interrupts another as a whole, as interrupt handlers do",
                     "allocation and the standard library are outside of the exploration",
                     "instructions of the code generated for x86-64 by the compilers used"],
    ),
    "C28": dict(
        units=[dict(src="c28.cpp", parts=3, configs_quick=["cpp11-O0", "cpp17-O2"],
                    configs_thorough=["cpp11-O0", "cpp17-O2", "cpp11-hints-O2", "cpp17-O3"],
                    defs=["-Wl,--wrap=malloc,--wrap=calloc,--wrap=realloc,--wrap=aligned_alloc,--wrap=posix_memalign"])],
        technique="exhaustive enumeration of sequences of operations on the real code, counting the allocations",
        rule="depth-first enumeration of all the sequences of operations (requests in every form, byte by byte, unknown indices, moves, "
             "replacements, replies, partial packets) of plain, single and double-buffered dispatchers, weak and owning, over usual, large and wide "
             "keyrings, and of tuples, views, keys, hooks and actions: operator new and the C allocation functions are counted "
             "during each of them; only making or replacing an owning action may allocate, and all it allocates is released",
        assumptions=["what the callbacks, sources, destinations and exceptions of the user allocate is theirs"],
    ),
    "C29": dict(
        units=[dict(src="c29.cpp", parts=6, configs_quick=STD2, configs_thorough=STD4, defs=["-Wno-noexcept-type"])],
        technique="exhaustive enumeration of kinds of callables, sources and destinations over the places which take them, on the real code",
        rule="depth-first enumeration of 23 kinds of callables (functors of every qualification, move-only, final, derived, virtual, lambdas, "
             "functions and pointers, plain and noexcept, std::function) and 2 of known functions, over 9 signatures and every place which takes "
             "a callable, and of 26 kinds of sources and as many destinations over every operation which takes one, as variables and as temporary "
             "objects, with several values: calls, states, bytes read and written are compared with an independent oracle",
        assumptions=["callables which are only callable as lvalues or only as rvalues, and destinations returning a value, are left out"],
    ),
    "C30": dict(
        units=[dict(src="c30.cpp", parts=3, configs_quick=["cpp11-hints-O2", "cpp17-O3"],
                    configs_thorough=["cpp11-hints-O2", "cpp17-O3", "cpp11-O0", "cpp17-O2"])],
        technique="exhaustive exploration of the interruptions of sending by receiving and conversely, on the machine code of the real library",
        rule="for double-buffered dispatchers (provided and derived ones; 1 and 2-byte indices; weak and owning; two formats), every way of "
             "sending a response of every callback from several positions, and every loading of several bytes of the next request (and dropped "
             "packets): one is executed instruction by instruction under a controlled scheduler (processor trap flag) and the other runs at "
             "each boundary, as a whole or one byte at each boundary; bytes sent, statuses and everything which follows are those of the "
             "two operations one after the other",
        assumptions=["the operation which interrupts is not interrupted", "no request is complete before the response is sent",
                     "instructions of the code generated for x86-64 by the compilers used"],
    ),
    "C31": dict(
        units=[dict(src="c31.cpp", parts=4, configs_quick=STD2, configs_thorough=STD4)],
        technique="exhaustive enumeration of the nestings of operations into one another, on the real code against an independent oracle",
        rule="depth-first enumeration of pairs and triples of nested operations (plain dispatchers, their actions and get_action(), weak and "
             "owning, buffered dispatchers, actions without storage, keys, hooks, tuples; nine signatures): each call of a callback, a source "
             "or a destination is a point where the next operation is made, on the same object whenever it has no buffer; calls, arguments "
             "before and after, bytes and results of each level are compared with an independent oracle",
        assumptions=["an operation does not replace the callback being served, nor uses a buffered dispatcher which is serving it"],
    ),
    "C32": dict(
        programs="misuses", configs_quick=["cpp11-hints", "cpp17"],
        configs_thorough=["cpp11", "cpp11-hints", "cpp14", "cpp17", "cpp17-hints", "cpp20"],
        technique="exhaustive enumeration of the programs made of a place of the API and of what may fill it, judged by the real code",
        rule="every place of the API which announces what it takes (about 90: sources, destinations, callables, types of elements, indices, "
             "keys, arguments, formats, keyrings, replacements) filled with each of its right uses and of its misuses: the real headers must "
             "instantiate the former and refuse the latter",
        assumptions=["programs outside of the enumerated fillings"],
    ),
    "C33": dict(
        programs="headers", configs_quick=["cpp11-hints", "cpp17"], configs_thorough=["cpp11", "cpp11-hints", "cpp14", "cpp17", "cpp17-hints", "cpp20"],
        technique="exhaustive enumeration of the orders of inclusion, each compiled and used, and of programs of several units which are run",
        rule="each public header alone and after each other one (thorough: all triples), with what it declares put to use; programs of "
             "13 translation units, each including the headers in another order, linked together, each run alone and after each other: same "
             "results everywhere; header of the Python binding alone, before and after each other one, and in several units",
    ),
    "C22": dict(
        python=True, script="c22.py", parts=4, variants_quick=["py"], variants_thorough=["py", "py-asan"],
        modules={"keys_%s_%s" % (e, s): ("keys.cpp", ["-DENDIANESS=" + E, "-DSIGNED_MODE=" + S])
                 for e, E, s, S in (("le", "little_endian", "tc", "twos_complement"), ("be", "big_endian", "ob", "offset_binary"),
                                    ("le", "little_endian", "sm", "signed_magnitude"), ("be", "big_endian", "oc", "ones_complement"))},
        modules_thorough={"wide": ("wide.cpp", [])}, parts_thorough=5,
        budget=dict(quick=150),
        technique="exhaustive enumeration of arguments, payloads and failures on the real extension module against an independent oracle",
        rule="depth-first search over all the keys of keyrings with every kind of parameter in four formats: arguments (all 8-bit values, "
             "lattices of wider ones, two arguments at a time), arguments of a wrong range, type or number at every position, all patterns "
             "of 8-bit responses, lattices of wider ones, every length and kind of payload, with a failure at every position",
        assumptions=["what is accepted as a truth value is left to pybind11"],
    ),
    "C23": dict(
        python=True, script="c23.py", parts=5, variants_quick=["py"], variants_thorough=["py", "py-asan"],
        modules={"disp": ("disp.cpp", []), "widedisp": ("widedisp.cpp", ["-O0"])},
        budget=dict(quick=150),
        technique="explicit-state breadth-first search over histories of the real extension module, run along with a reference model",
        rule="breadth-first search over loads, unloads, bulk reads and writes (failing at every byte, or giving unsuitable values), calls with "
             "unsuitable arguments and replacements by 7 kinds of Python callbacks (working, raising, exiting, of a wrong arity, giving "
             "unsuitable values), in 3 formats: statuses, bytes, calls, exceptions and the lifetime of the callbacks are compared",
    ),
    "C24": dict(
        python=True, script="c24.py", parts=4, variants=["py"],
        modules={"keys_%s_%s" % (e, s): ("keys.cpp", ["-DENDIANESS=" + E, "-DSIGNED_MODE=" + S])
                 for e, E, s, S in (("le", "little_endian", "tc", "twos_complement"), ("be", "big_endian", "ob", "offset_binary"),
                                    ("le", "little_endian", "sm", "signed_magnitude"), ("be", "big_endian", "oc", "ones_complement"))},
        budget=dict(quick=150),
        technique="stateless exploration of every interleaving of concurrent calls on the real client, stepped by a controlled scheduler",
        rule="depth-first search over the steps of up to 3 (thorough: 4) concurrent calls - start, each resumption, cancellation, failure and "
             "closing - for 8 shapes of requests and up to 21 kinds of responses, and over the orders in which up to 3 asyncio requests are "
             "resolved, failed or cancelled: requests sent, results and exceptions are compared with an independent oracle",
        assumptions=["subclasses of bytes as responses are left out"],
    ),
    "C25": dict(
        python=True, script="c25.py", parts=8, variants=["py"],
        modules={"tpl_" + n: ("stub.cpp", ["-DNAME=" + n]) for n in
                 ("alpha beta gamma delta eps both sub bare plain shade badtemplate badsyntax badcode badload badinit".split())},
        budget=dict(quick=150),
        technique="exhaustive enumeration of import histories with failures injected at every step, on the real hook and a stand-in compiler",
        rule="all sequences of imports up to a depth over marked, unmarked, shadowed, missing and broken modules, in histories of several "
             "processes with editions in between, and all failures (5 kinds of exceptions before and after each of the steps of an import), "
             "one or two at a time, followed by imports of everything: builds, their configuration and the modules are compared with a model",
        assumptions=["imports are made by one thread at a time", "the compiler is replaced by a stand-in; the rest of cppimport is real"],
    ),
}
