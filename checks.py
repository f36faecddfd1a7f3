"""What is built and run for each property."""
from gen import functions, headers, lists, members, predicates, refusals
SAN = ["-O1", "-g1", "-fno-omit-frame-pointer", "-fsanitize=address,undefined",
       "-fno-sanitize-recover=all", "-DVM_SANITIZED"]
CONFIGS = {
    # assertions on, address and undefined behaviour sanitizers
    "gsan": dict(cxx="g++", flags=SAN + ["-D_GLIBCXX_ASSERTIONS"]),
    "csan": dict(cxx="clang++", flags=SAN + ["-D_GLIBCXX_ASSERTIONS"]),
    # as shipped: optimized, assertions off
    "grel": dict(cxx="g++", flags=["-O2", "-DNDEBUG"]),
    "crel": dict(cxx="clang++", flags=["-O3", "-DNDEBUG", "-fbracket-depth=1024"]),
    "gO3": dict(cxx="g++", flags=["-O3"]),
    "cO2": dict(cxx="clang++", flags=["-O2"]),
    # sanitizers without assertions: what release builds would do to memory
    "gsanrel": dict(cxx="g++", flags=SAN + ["-DNDEBUG"]),
    # every byte read must have been handed out: memcheck, byte by byte
    "vg": dict(cxx="g++", flags=["-O1", "-g1", "-DVM_MEMCHECK"], scale=0.05,
               wrap=["valgrind", "-q", "--partial-loads-ok=no", "--error-exitcode=99", "--exit-on-first-error=yes"]),
    "gdbg": dict(cxx="g++", flags=["-O0", "-g1"]),
    "cdbg": dict(cxx="clang++", flags=["-O0", "-g1", "-fbracket-depth=1024"]),
    # later standards
    "g20": dict(cxx="g++", flags=["-O2", "-std=c++20"]),
    "c23": dict(cxx="clang++", flags=SAN + ["-std=c++2b", "-fbracket-depth=1024"]),
    "gtsan": dict(cxx="g++", flags=["-O1", "-g1", "-fsanitize=thread", "-DVM_SANITIZED", "-DVM_TSAN"]),
    "ctsan0": dict(cxx="clang++", flags=["-O0", "-g1", "-fsanitize=thread", "-DVM_SANITIZED", "-DVM_TSAN"]),
    "ctsan": dict(cxx="clang++", flags=["-O1", "-g1", "-fsanitize=thread", "-DVM_SANITIZED", "-DVM_TSAN"]),
}
CHECKS = {}


def block(prop, mon, quick, rule):
    CHECKS[prop] = dict(
        configs=["gsan", "grel", "csan"],
        thorough_configs=["gsan", "grel", "csan", "crel", "gsanrel"],
        harness=[dict(src="m_block.cpp", flags=["-DMONITORS=%d" % mon],
                      cases={"quick": (quick, 1), "thorough": (quick * 12, 2)})],
        min_distinct=1000, rule=rule)


block("M01", 1, 4000,
      "A case is a random history (20-140 operations, 1 of 1000 of 70000 rounds) on a random geometry (block size, count, buffer "
      "placement); after every operation alignment, bounds, disjointness, contents and canaries are checked. "
      "Distinct: reached block map states (regions with sizes and use) per geometry.")
block("M02", 2, 4000,
      "As M01; after every operation the whole block map is walked and compared with the live allocations. "
      "Distinct: block map states.")
block("M03", 4, 2500,
      "As M01; before every request an oracle looks for a free run that holds it, after it the blocks used are "
      "compared with the minimum; every history ends with allocating the whole buffer and then each block. "
      "Distinct: block map states.")
block("M13", 8, 4000,
      "As M01 with hostile buffers (null, empty, tiny, misaligned); reported start and size are compared with "
      "the definition and all bytes not stored by the user must stay as they were. Distinct: block map states.")

CHECKS["M04"] = dict(
    configs=["gsan", "grel", "crel"], thorough_configs=["gsan", "grel", "crel", "csan", "gsanrel"],
    harness=[dict(src="m_misuse.cpp", cases={"quick": (150, 2), "thorough": (2500, 4)})],
    min_distinct=300,
    rule="A case drives a random history to a random state; there each kind of misuse (double deallocation, "
         "pointer into a region, to a free block, misaligned, before and behind the buffer, destruction in use) is "
         "carried out in a forked copy whose end and standard error are observed; correct use (null, release, "
         "orderly destruction) likewise. Distinct: (misuse, position, number of live regions).")
CHECKS["M05"] = dict(
    configs=["gsan", "grel", "csan"], thorough_configs=["gsan", "grel", "csan", "crel", "gsanrel"],
    harness=[dict(src="m_upstream.cpp", cases={"quick": (4000, 1), "thorough": (60000, 2)})],
    min_distinct=1000,
    rule="A case is a random history (up to 230000 operations) on a block, monotonic or chained resource whose upstream records every call and "
         "fails at random points; after each operation the calls received are compared with what a model of the local "
         "buffer says must be forwarded. Distinct: (local state, number of upstream regions or calls).")
CHECKS["M14"] = dict(
    configs=["gsan", "grel", "csan"], thorough_configs=["gsan", "grel", "csan", "crel", "gsanrel"],
    harness=[dict(src="m_stack.cpp", cases={"quick": (5000, 1), "thorough": (150000, 2)})],
    min_distinct=1000,
    rule="A case builds a random stack of 2-9 block, monotonic and user-defined resources above a system layer that refuses "
         "at random and makes 30-150 operations at random members; origin (told from the address), alignment, overlap at "
         "all levels, contents, regions in use and the blocks held from the system are checked. Distinct: (shape of the "
         "stack, member asked, member that served).")
CHECKS["M06"] = dict(
    configs=["gsan", "grel", "csan"], thorough_configs=["gsan", "grel", "csan", "crel", "gsanrel"],
    harness=[dict(src="m_mono.cpp", cases={"quick": (15000, 1), "thorough": (400000, 2)})],
    min_distinct=1000,
    rule="A case is a random history (allocate with any size and alignment, deallocate, release; 1 of 2500 of 220000 "
         "operations) on a random buffer, "
         "compared after every operation with a bump-pointer model, canaries and contents. Distinct: (space left, "
         "position, live regions).")
CHECKS["M07"] = dict(
    configs=["gsan", "grel", "csan"], thorough_configs=["gsan", "grel", "csan", "crel", "gsanrel"],
    harness=[dict(src="m_system.cpp", extra_src=["m_system_tu.cpp"],
                  cases={"quick": (2500, 1), "thorough": (60000, 2)}),
             dict(src="m_exit.cpp", libs=["-pthread"], configs=["gdbg", "crel", "gsan"],
                  thorough_configs=["gdbg", "cdbg", "grel", "crel", "gsan", "csan"],
                  cases={"quick": (400, 1), "thorough": (12000, 1)})],
    min_distinct=1000,
    rule="A case is a random history of allocations and deallocations on the system and null resources above a system "
         "layer that grants exactly the size and alignment asked for, guards its blocks and fails at random; or a "
         "process that ends, with uses in destructors of static and thread objects and exit handlers. Distinct: "
         "(size, alignment, live regions).")
CHECKS["M08"] = dict(
    configs=["ctsan", "gtsan", "grel", "crel", "gsan"],
    harness=[dict(src="m_default.cpp", extra_src=["m_system_tu.cpp"], libs=["-pthread"],
                  cases={"quick": (1200, 1), "thorough": (40000, 1)}),
             dict(src="m_exit.cpp", flags=["-DDEFAULT_ONLY"], libs=["-pthread"], configs=["grel", "gsan"],
                  thorough_configs=["gdbg", "grel", "crel", "gsan"],
                  cases={"quick": (300, 1), "thorough": (8000, 1)})],
    exclusive=True, min_distinct=500,
    rule="A case is a concurrent history of installs of distinct resources and reads by 2-7 threads in two translation "
         "units, checked for linearizability as a register (7 of 8 cases), or a sequential one compared with a model "
         "that also uses objects built earlier, or a process that ends and reads and installs while it does. Distinct: orders of threads' installations as observed; model states.")
CHECKS["U02"] = dict(
    configs=["ctsan", "gtsan", "ctsan0", "crel", "grel"],
    harness=[dict(src="u_threads.cpp", libs=["-pthread"], cases={"quick": (500, 1), "thorough": (12000, 2)}),
             dict(src="u_threads.cpp", flags=["-DFIRST_USE"], libs=["-pthread"],
                  cases={"quick": (150, 1), "thorough": (4000, 1)})],
    exclusive=True, min_distinct=500,
    rule="A case carries 2-12 actors on, each with objects of its own and a fixed random history of 10-130 operations, by "
         "2-6 threads without synchronization or handing them over under a lock; races are watched for, and everything an "
         "actor saw is compared with its history when alone. First use: a fresh process whose threads call the accessors "
         "and use objects at once. Distinct: (history of an actor, way of sharing).")
CHECKS["U03"] = dict(
    configs=["gsan", "grel", "crel", "gdbg"], thorough_configs=["gsan", "csan", "grel", "crel", "gdbg", "cO2"],
    harness=[dict(src="u_effects.cpp", libs=["-pthread"], cases={"quick": (2500, 1), "thorough": (150000, 2)})],
    min_distinct=100,
    rule="A case is a random history on a resource (on any upstream), the system resource, holders, timers or values; "
         "around every call memory obtained and freed by the process, the error number, the rounding mode and signals "
         "are compared, 1 of 12 cases runs in a process whose output is captured, and 1 of 32 does work on 4 MiB or "
         "thousands of regions with a stack of 96-192 KiB. Distinct: (kind of call, size of the history's state).")
CHECKS["M09"] = dict(
    configs=["gsan", "grel", "csan"], thorough_configs=["gsan", "grel", "csan", "crel", "gsanrel"],
    harness=[dict(src="m_alloc.cpp", flags=["-DMONITOR=9"], cases={"quick": (6000, 1), "thorough": (200000, 2)})],
    min_distinct=1000,
    rule="A case is a random history of typed and byte requests through allocators of two element types, copies and "
         "rebound ones, on recording resources of which two compare equal and which fail at random, plus a request of "
         "hostile size on a resource that grants everything. Distinct: (count, allocator, element sizes, outcome).")
CHECKS["M12"] = dict(
    configs=["gsan", "grel", "csan"], thorough_configs=["gsan", "grel", "csan", "crel", "gsanrel"],
    harness=[dict(src="m_alloc.cpp", flags=["-DMONITOR=12"], cases={"quick": (6000, 1), "thorough": (200000, 2)})],
    min_distinct=40,
    rule="A case builds and deletes objects of instrumented types with arguments of random categories on a resource that "
         "records and fails at random; constructor, destructor, move and copy events are compared with what was asked. "
         "Distinct: (argument list, object type, way of construction, refused).")
CHECKS["M10"] = dict(
    configs=["gsan", "csan", "grel"], thorough_configs=["gsan", "grel", "csan", "crel", "gsanrel"],
    harness=[dict(src="m_bytes.cpp", flags=["-DMONITOR=10"], cases={"quick": (12000, 1), "thorough": (400000, 2)}),
             dict(src="m_bytes.cpp", flags=["-DMONITOR=10", "-DCONSTANT_BRANCH"], configs=["gsan"],
                  thorough_configs=["gsan", "csan"], cases={"quick": (6000, 1), "thorough": (200000, 1)}),
             dict(src="m_secret.cpp", extra_src=["m_secret_tu.cpp"], configs=["grel", "crel", "gO3", "cO2"],
                  thorough_configs=["grel", "crel", "gO3", "cO2", "gdbg", "cdbg"],
                  cases={"quick": (4000, 1), "thorough": (100000, 1)}),
             dict(src="m_large.cpp", flags=["-DMONITOR=10"], configs=["grel"], thorough_configs=["grel", "crel", "gdbg"],
                  cases={"quick": (20, 1), "thorough": (240, 1)})],
    min_distinct=1000,
    rule="A case zeroes a random range of a random buffer (every byte of the buffer is compared afterwards; all small "
         "ranges also in constant expressions), or runs a small program that zeroes a secret on the stack, in an object "
         "or on the heap just before its lifetime ends and looks for remains; some ranges have megabytes, one exceeds 4 GiB. Distinct: (buffer, range); (place, size).")
CHECKS["M11"] = dict(
    configs=["gsan", "csan", "grel"], thorough_configs=["gsan", "grel", "csan", "crel", "gsanrel"],
    harness=[dict(src="m_bytes.cpp", flags=["-DMONITOR=11"], cases={"quick": (12000, 1), "thorough": (400000, 2)}),
             dict(src="m_bytes.cpp", flags=["-DMONITOR=11", "-DCONSTANT_BRANCH"], configs=["gsan", "csan"],
                  cases={"quick": (6000, 1), "thorough": (200000, 1)}),
             dict(src="m_large.cpp", flags=["-DMONITOR=11"], configs=["grel"], thorough_configs=["grel", "crel", "gdbg"],
                  cases={"quick": (20, 1), "thorough": (240, 1)})],
    min_distinct=1000,
    rule="A case moves within a random buffer (all kinds of overlap) and copies between two buffers of random byte-sized "
         "types; the result is compared with a copy taken before. All moves and copies within 11 bytes are also made in "
         "constant expressions, some over megabytes or 4 GiB. Distinct: (positions, length); (types, length).")
SCALAR = dict(configs=["gsan", "crel", "grel", "csan"], thorough_configs=["gsan", "csan", "grel", "crel", "gO3", "gdbg"])


def scalar(prop, src, flags, quick, rule, constant_branch=True, **kw):
    hs = [dict(src=src, flags=flags, cases={"quick": (quick, 1), "thorough": (quick * 40, 2)})]
    if constant_branch:
        hs.append(dict(src=src, flags=flags + ["-DCONSTANT_BRANCH"], configs=["gsan", "csan"],
                       cases={"quick": (quick // 2, 1), "thorough": (quick * 20, 1)}))
    CHECKS[prop] = dict(SCALAR, harness=hs, min_distinct=500, rule=rule, **kw)


scalar("C01", "c_align.cpp", [], 2500,
       "A case draws 40 values of every bit width (near multiples, near both ends) and alignments 2^0..2^63 and compares "
       "every function with its definition in 128 bit arithmetic; small numbers exhaustively, 16 bit types exhaustively, "
       "240 values x 64 alignments in constant expressions. Distinct: (value, alignment).")
scalar("C02", "c_bits.cpp", ["-DMONITOR=2"], 2000,
       "Every byte, every number of bits 1-64 and of bytes 1-8, enumerations at all width limits, sets of types with "
       "0-26 bools; values of 16 bits exhaustively, wider ones at random over all bit lengths, and in constant "
       "expressions. Distinct: values and widths.")
scalar("C03", "c_bits.cpp", ["-DMONITOR=3"], 2500,
       "All values of 8 and 16 bit types, all values with one or two bits, random ones of every bit length, for nine "
       "unsigned types, each compared with a bit-by-bit count; 320 values per type in constant expressions. Distinct: "
       "values.")
scalar("C04", "c_div.cpp", [], 150,
       "All pairs of 8 bit operands, and for each of 13x13 pairs of integer types random operands biased to the limits, "
       "compared with 128 bit division; 225 operand pairs for each of 25 type pairs in constant expressions. Distinct: "
       "(operands, type widths and signs).")
scalar("C05", "c_arrays.cpp", [], 2000,
       "A case builds arrays in each of the ways at random lengths, with argument lists of random value categories of an "
       "element type that owns a resource and records each copy, move and destruction; elements, lengths, sources and "
       "live objects are compared. Also in constant expressions. Distinct: (builder, length, element type), value "
       "category masks.", constant_branch=False)
CHECKS["C05"]["min_distinct"] = 60
scalar("C06", "c_memv.cpp", [], 60000,
       "A case places a range at the edge of an inaccessible page (or in between), the bytes next to it forbidden to the "
       "address sanitizer and to memcheck, and compares the result with a loop; "
       "some have megabytes, one exceeds 4 GiB; all sizes to 80 with the different byte at every position. Distinct: (size, position of the difference, edge).",
       constant_branch=False)
CHECKS["C06"]["harness"].append(
    dict(src="m_large.cpp", flags=["-DMONITOR=6"], configs=["grel"], thorough_configs=["grel", "crel", "gdbg"],
         cases={"quick": (20, 1), "thorough": (240, 1)}))
CHECKS["C06"]["configs"] = ["grel", "crel", "gdbg", "gsan", "vg"]
CHECKS["C06"]["thorough_configs"] = ["gsan", "csan", "grel", "crel", "gO3", "gdbg", "vg"]
CHECKS["C07"] = dict(
    configs=["gsan", "grel", "csan", "crel"],
    harness=[dict(src="c_abort.cpp", cases={"quick": (960, 1), "thorough": (12000, 2)})], min_distinct=200,
    rule="A case carries out one conditional abort in a forked copy whose end and standard error are observed: 12 format "
         "kinds with random arguments, handled and blocked signals, 11 macro call sites. Distinct: (kind, message).")
scalar("C08", "c_casts.cpp", [], 1500,
       "A case reinterprets random bytes between all pairs of 23 types of equal size, shifts random values of 14 types by "
       "random amounts and takes enumerators' values; 8 bit shifts exhaustively, 8 values x every amount x 9 types in "
       "constant expressions. Distinct: (bytes, types), (value, amount).", constant_branch=False)
scalar("C09", "c_foreach.cpp", [], 6000,
       "A case iterates over argument lists and tuples of random value categories with lvalue, const and temporary "
       "functions, some of which throw; the calls received are compared with the list, copies and moves are counted. "
       "Distinct: (form, categories, calls made, thrown).", constant_branch=False)
CHECKS["C09"]["min_distinct"] = 60
scalar("P01", "p_pimpl.cpp", [], 6000,
       "A case is a random history of constructions, copies, moves, assignments and destructions of five holders and two "
       "free objects of a type that records every operation and throws at random; after each step the single operation "
       "expected is compared with those observed. Distinct: (noexcept mask, operation, objects alive, size, arguments).",
       constant_branch=False)
CHECKS["P01"]["min_distinct"] = 300
scalar("P02", "p_timer.cpp", ["-DMONITOR=2"], 6000,
       "A case is a random history of five timers (construction from seven to eleven kinds of callbacks, moves, "
       "assignments, resets, destruction) under a scripted clock; calls, arguments and the owners of every callback are "
       "compared with a model after each step. Distinct: kinds of callback, (timers holding one, step, live callbacks).",
       constant_branch=False)
CHECKS["P02"]["min_distinct"] = 60
scalar("P03", "p_timer.cpp", ["-DMONITOR=3"], 2500,
       "A case is a random history of construct, reset, move and read on timers with eight scripted clocks of different "
       "periods that advance at every look; results are compared with 128 bit rational arithmetic. Distinct: (elapsed "
       "ticks, clock).", constant_branch=False)


def programs(prop, generate, rule, min_distinct=500):
    """Type-level properties: generated programs, each in one configuration in turn."""
    CHECKS[prop] = dict(configs=["gdbg", "cdbg", "grel", "crel"], generate=generate, rule=rule, min_distinct=min_distinct)


programs("T01", lists.t01,
         "A case is a random type list (0 to 90 elements, two with more than 256, repetitions, with and without sizes); the answers of all list "
         "operations, with random predicates and relations, are compared with those of a Python list. Distinct: (list, "
         "question).")
programs("T02", lists.t02,
         "A case is a random list of constants of 19 arithmetic and enumeration types and pointers, or a range at a "
         "random place including the limits of the type; all answers are compared with those of a Python list of (type, "
         "value) pairs. Distinct: (list, question).")
programs("T03", lists.t03,
         "A case is a random concatenation of up to 60 lists (in total up to 300 elements) or product of two to six lists, compared with the list the "
         "definition gives. Distinct: (lists, question).", 200)
programs("T04", functions.t04,
         "A case is a function type with random return type and parameters and one of the 24 qualifier combinations, with "
         "classes whose call operator or member has it; all traits are compared with what was declared. Distinct: "
         "(function type, question).")
programs("T05", members.t05,
         "A case is a random class (19 kinds of member, access, 12 shapes of class), a type that is not a class, or an "
         "overload set of free functions; the answers of all generated checkers to random questions and to ones near the "
         "member are compared with what was declared. Distinct: (class, question).")
programs("T06", predicates.t06,
         "A case is a class with known operations or a random operation applied to random types; detection, detected and "
         "default types and the exact and convertible forms are compared with what is known of the class or with detection "
         "by overload resolution. Distinct: (operation, types, question).")
programs("T07", predicates.t07,
         "A case is a random type (fundamental, array, tuple, wrapper, list, look-alikes, nested) with all qualifiers and "
         "references, or random lists of types and arrays; predicates and transformations are compared with how the type "
         "was built. Distinct: (type, question).")
programs("P04", predicates.p04,
         "A case is a random aggregate (1 to 11 members, nested up to four deep, arrays, over-alignment) with the layout "
         "the x86-64 ABI prescribes; the predicate is compared with the gaps in that layout and, with g++, with the bytes "
         "the compiler clears as padding. Distinct: (type, question).", 300)
programs("U01", headers.u01,
         "A case is a program of one to three translation units (and the monitor's) that include public headers alone, twice or any "
         "together in random orders, before anything else; each says what it gets from representative uses of all it includes (also "
         "before main), compared with the known answers, and where shared entities are. Distinct: (unit, question).", 500)
CHECKS["U01"].update(configs=["grel", "cdbg", "gsan", "crel", "g20", "gdbg", "csan", "c23"], listener=["u_headers.cpp"])

programs("X01", refusals.x01,
         "A case is a use that makes no sense (a holder too small, a copy of what owns its state, a reinterpretation between sizes, "
         "a position outside of a list...) in a program that judges its effects; it is refused by the compiler, or it runs and "
         "has to be right. The same program with a use that makes sense must compile and be right. Distinct: uses.", 80)
CHECKS["X01"].update(configs=["gsan", "csan"])

# thorough runs also cover later language standards
for _check in CHECKS.values():
    if not _check.get("exclusive"):
        _check["thorough_configs"] = _check.get("thorough_configs", _check["configs"]) + ["g20", "c23"]
