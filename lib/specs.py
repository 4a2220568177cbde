"""What each property's check builds and runs."""

SANF = ["-fsanitize=address,undefined,float-cast-overflow", "-fno-sanitize-recover=undefined,float-cast-overflow", "-fno-omit-frame-pointer"]
VARIANTS = {
    # gcc AddressSanitizer + LeakSanitizer + UndefinedBehaviorSanitizer
    "asan": {"cxx": "g++", "flags": ["-std=gnu++17", "-w", "-g1", "-O1"] + SANF},
    "asan-O0": {"cxx": "g++", "flags": ["-std=gnu++17", "-w", "-g1", "-O0"] + SANF},
    "asan-clang": {"cxx": "clang++", "flags": ["-std=gnu++17", "-w", "-g1", "-O1"] + SANF},
    # the library's contracts/asserts compiled out, as in a release build
    "asan-ndebug": {"cxx": "g++", "flags": ["-std=gnu++17", "-w", "-g1", "-O1", "-DNDEBUG"] + SANF},
    "tsan": {"cxx": "g++", "flags": ["-std=gnu++17", "-w", "-g1", "-O1", "-fsanitize=thread"],
             "wrap": ["setarch", "-R"]},
    "tsan-clang": {"cxx": "clang++", "flags": ["-std=gnu++17", "-w", "-g1", "-O1", "-fsanitize=thread"],
                   "wrap": ["setarch", "-R"]},
    "plain-O0": {"cxx": "g++", "flags": ["-std=gnu++17", "-w", "-g1", "-O0"]},
    "plain-O2": {"cxx": "g++", "flags": ["-std=gnu++17", "-w", "-g1", "-O2"]},
    "plain-O3": {"cxx": "g++", "flags": ["-std=gnu++17", "-w", "-g1", "-O3"]},
    "clang-O2": {"cxx": "clang++", "flags": ["-std=gnu++17", "-w", "-g1", "-O2"]},
    "valgrind": {"cxx": "g++", "flags": ["-std=gnu++17", "-w", "-g", "-O1"],
                 "wrap": ["valgrind", "-q", "--error-exitcode=99", "--track-origins=no"]},
}
ENV = {
    "ASAN_OPTIONS": "detect_leaks=1:abort_on_error=0:exitcode=77:detect_stack_use_after_return=1:strict_string_checks=1:allocator_may_return_null=1:hard_rss_limit_mb=6000:max_free_fill_size=4096:free_fill_byte=171",
    "UBSAN_OPTIONS": "print_stacktrace=1:halt_on_error=1:exitcode=77",
    "TSAN_OPTIONS": "halt_on_error=1:exitcode=77:second_deadlock_stack=1:history_size=4",
    "LC_ALL": "C",
}


def COMMON_FLAGS(repo, gen, root):
    return ["-I" + repo, "-I" + gen, "-I" + root + "/harness"]


AT = ["-latomic"]
PROPS = {}

PROPS["A02"] = {
    "rule": "random (type, scheme, operation, spelling, memory orders, operand) tuples over 15 value types and 7 schemes plus "
            "60-step histories on one variable; a case is counted once per distinct tuple including operands, and only where the built-in operation is defined",
    "assumptions": ["operands are restricted to those where the built-in operation has defined behaviour"],
    "units": [
        {"name": "seq", "variant": "asan-O0", "libs": AT, "scale": 1.0, "tscale": 10,
         "src": ["atomics_seq_main.cc", "atomics_seq1.cc", "atomics_seq2.cc", "atomics_seq3.cc", "atomics_seq4.cc", "atomics_seq_mix.cc"]},
        {"name": "seq-clang", "variant": "clang-O2", "libs": AT, "workload": "seq", "thorough_only": True, "tscale": 10,
         "src": ["atomics_seq_main.cc", "atomics_seq1.cc", "atomics_seq2.cc", "atomics_seq3.cc", "atomics_seq4.cc", "atomics_seq_mix.cc"]},
    ],
}

PROPS["A01"] = {
    "rule": "threads (4, thorough 6) hammer one variable through every scheme/operation/spelling with random operands while the operand's own code "
            "widens the update window; a case is a recorded history, and counts as non-trivial when the recovered serial order switches threads more "
            "often than there are threads (hash of the thread sequence), or is a distinct deterministic interference inside the update window",
    "assumptions": ["types without padding bits for the compare-and-swap schemes", "a lock-scheme variable is only updated through the lock scheme and read after the updates",
                    "x86 compare_exchange_weak never fails spuriously; retry loops are exercised through contention and injected interference"],
    "units": [
        *[{"name": "conc%d" % n, "variant": "plain-O2", "libs": AT, "src": ["atomics_conc.cc"], "flags": ["-DPART=%d" % n], "exclusive": n < 5, "scale": 3, "tscale": 8} for n in (1, 2, 3, 4, 5)],
        *[{"name": "conc%d-tsan" % n, "variant": "tsan", "libs": AT, "src": ["atomics_conc.cc"], "flags": ["-DPART=%d" % n], "workload": "conc%d" % n, "scale": 0.2, "tscale": 6} for n in (1, 2, 3, 4)],
    ],
}

PROPS["A03"] = {
    "rule": "message-passing litmus rounds over every scheme/operation/spelling with default and explicit orders, ticket locks built from the operations, and data "
            "touched under the lock scheme; each round is one case, observed by ThreadSanitizer's happens-before engine",
    "assumptions": ["ThreadSanitizer's model of C++ memory orders (it does not model reordering beyond happens-before)"],
    "units": [
        {"name": "order1", "variant": "tsan", "libs": AT, "src": ["atomics_order.cc"], "flags": ["-DPART=1"], "tscale": 10},
        {"name": "order2", "variant": "tsan", "libs": AT, "src": ["atomics_order.cc"], "flags": ["-DPART=2"], "tscale": 10},
        {"name": "order1-clang", "variant": "tsan-clang", "libs": AT, "src": ["atomics_order.cc"], "flags": ["-DPART=1"], "workload": "order1", "tscale": 10, "thorough_only": True},
        {"name": "order2-clang", "variant": "tsan-clang", "libs": AT, "src": ["atomics_order.cc"], "flags": ["-DPART=2"], "workload": "order2", "tscale": 10, "thorough_only": True},
    ],
}

PROPS["U01"] = {
    "rule": "random histories of all modifiers/constructors/comparisons on capacities 1..65536 with int, char, double, string, lifetime-tracked and move-only elements, "
            "arguments that are the vector's own elements, single-pass iterators, growth and self-assignment/self-swap, "
            "compared with a reference sequence after every step; distinct = hash of the history prefix (operation, position, size)",
    "units": [
        {"name": "fv", "variant": "asan", "src": ["fixed_vector.cc"], "tscale": 12},
        {"name": "fv-ndebug", "variant": "asan-ndebug", "src": ["fixed_vector.cc"], "workload": "fv", "tscale": 6},
        {"name": "fv-clang", "variant": "asan-clang", "src": ["fixed_vector.cc"], "workload": "fv", "thorough_only": True, "tscale": 6},
    ],
}

PROPS["M01"] = {
    "rule": "random operand pairs (everyday, large and tiny, the whole range of exponents, infinities, zeros of both signs, NaN) and scalars of ten types for 40 container types (array, multi-dimensional array, dimensioned array, tuple) through every arithmetic operator and spelling, including operands that are "
            "the destination itself or one of its elements; distinct = hash of the operand values",
    "assumptions": ["operands are restricted to those where the built-in operation on the elements is defined", "floating point as IEEE 754 without excess precision: a single operation must give exactly the built-in result"],
    "units": [
        u for k in range(1, 7) for u in (
            {"name": "elem%d" % k, "variant": "asan-O0", "src": ["elementwise.cc"], "flags": ["-std=gnu++20", "-DPART=%d" % k], "tscale": 15},
            {"name": "elem%d-clang" % k, "variant": "asan-clang", "src": ["elementwise.cc"], "flags": ["-std=gnu++20", "-DPART=%d" % k], "workload": "elem%d" % k, "tscale": 15, "thorough_only": True},
            {"name": "elem%d-O3" % k, "variant": "plain-O3", "src": ["elementwise.cc"], "flags": ["-std=gnu++20", "-DPART=%d" % k], "workload": "elem%d" % k, "tscale": 15, "thorough_only": True})
    ],
}

PROPS["M02"] = {
    "rule": "random contents (small, close, huge, zeros of both signs, NaN) for 27 array shapes (1 to 7 dimensions, up to 90300 elements): every index tuple through every access form, every out-of-range position of every dimension, all six relations on equal, nearly equal and unrelated pairs; distinct = hash of the compared contents",
    "assumptions": ["values without an order (NaN) compare as they do in the standard containers"],
    "units": [
        {"name": "idx", "variant": "asan", "src": ["indexing.cc"], "tscale": 12},
        {"name": "idx-ndebug", "variant": "asan-ndebug", "src": ["indexing.cc"], "workload": "idx", "tscale": 6},
        {"name": "idx-clang", "variant": "asan-clang", "src": ["indexing.cc"], "workload": "idx", "tscale": 6, "thorough_only": True},
    ],
}

PROPS["M03"] = {
    "rule": "random, triangular, scaled-permutation, diagonally shifted, skew and nilpotent matrices of sizes 1..6 and rectangular shapes in int, float and double; distinct = hash of the entries; inverses and solves only count when the condition allows a verdict",
    "assumptions": ["tolerances scale with the magnitude of the terms and the condition number", "the accumulating product's destination is a different matrix from its factors"],
    "units": [
        {"name": "mat", "variant": "asan", "src": ["matrix.cc"], "tscale": 12},
        {"name": "mat-O3", "variant": "plain-O3", "src": ["matrix.cc"], "workload": "mat", "tscale": 40, "thorough_only": True},
        {"name": "mat-clang", "variant": "asan-clang", "src": ["matrix.cc"], "workload": "mat", "tscale": 12, "thorough_only": True},
    ],
}

PROPS["M04"] = {
    "rule": "random vectors of 1..500 elements (int, long, unsigned, float, double; fixed and dynamic containers, ranges, argument lists) through every reduction and vector product; distinct = hash of the operand values",
    "assumptions": ["sums stay inside the element type's range", "tolerances scale with the magnitude of the terms"],
    "units": [
        {"name": "red", "variant": "asan", "src": ["reductions.cc"], "tscale": 20},
        {"name": "red-n", "variant": "asan", "src": ["reductions.cc"], "flags": ["-DUSE_NORMAL_H"], "workload": "red", "tscale": 20},
        {"name": "red-clang", "variant": "asan-clang", "src": ["reductions.cc"], "workload": "red", "tscale": 20, "thorough_only": True},
    ],
}

PROPS["G01"] = {
    "rule": "random simple polygons of 3..1000 vertices (star shaped and chains in the plane, convex in space, repeated and collinear vertices), segments and point sets, in three scalar types, both orientations, renumbered, moved rigidly and warped, through every spelling; distinct = hash of the coordinates",
    "assumptions": ["plane polygons are simple with non-zero area, space polygons convex and planar (only the area vector is judged for warped ones)", "tolerances scale with coordinate magnitude"],
    "units": [
        {"name": "planar", "variant": "asan", "src": ["planar.cc"], "tscale": 20},
        {"name": "planar-clang", "variant": "asan-clang", "src": ["planar.cc"], "workload": "planar", "tscale": 20, "thorough_only": True},
        {"name": "planar-O3", "variant": "plain-O3", "src": ["planar.cc"], "workload": "planar", "tscale": 60, "thorough_only": True},
    ],
}
PROPS["G02"] = {
    "rule": "random tetrahedra, hexahedra (affine and warped), frusta and pyramids over convex and dented bases in random affine frames, in three scalar types, faces renumbered, shuffled and consistently flipped; distinct = hash of the coordinates",
    "assumptions": ["solids are non-degenerate with consistently oriented faces; hexahedra have a positive Jacobian", "tolerances scale with coordinate magnitude"],
    "units": [
        {"name": "solids", "variant": "asan", "src": ["solids.cc"], "tscale": 20},
        {"name": "solids-clang", "variant": "asan-clang", "src": ["solids.cc"], "workload": "solids", "tscale": 20, "thorough_only": True},
        {"name": "solids-O3", "variant": "plain-O3", "src": ["solids.cc"], "workload": "solids", "tscale": 60, "thorough_only": True},
    ],
}

ELEM = ["repo:ristra/elements/elements.cc"]
def _elem(name, src, flags, ts):
    return [
        {"name": name, "variant": "asan", "src": [src] + ELEM, "flags": flags, "tscale": ts},
        {"name": name + "-clang", "variant": "asan-clang", "src": [src] + ELEM, "flags": flags, "workload": name, "tscale": ts, "thorough_only": True},
        {"name": name + "-vg", "variant": "valgrind", "src": [src] + ELEM, "flags": flags, "workload": name, "scale": 0.02, "tscale": 2, "thorough_only": True, "timeout": 3000},
    ]
PROPS["E01"] = {
    "rule": "random points (interior, boundary, nodes, outside) and random deformed elements for the seven fixed-order element types, and random orders (hexahedra to order 10) and node sets for the arbitrary-order ones, storage pre-filled and sometimes with room to spare; distinct = hash of (element, nodes, point)",
    "assumptions": ["node layouts are those of the documentation's pictures", "one-dimensional nodes are distinct"],
    "units": _elem("basis", "elements.cc", ["-DPART=1"], 15),
}
PROPS["E02"] = {
    "rule": "as E01, for every partial derivative in every direction; distinct = hash of (element, nodes, point)",
    "assumptions": ["node layouts are those of the documentation's pictures", "one-dimensional nodes are distinct"],
    "units": _elem("partials", "elements.cc", ["-DPART=2"], 15),
}
PROPS["E03"] = {
    "rule": "every rule (Gauss, Lobatto), dimension 1..4 and order 1..8: every single-degree polynomial up to the exactness degree plus random tensor polynomials, in fresh and in reused larger storage; distinct = hash of (rule, order, polynomial)",
    "assumptions": ["orders 1..8 (the tables' range); the one-point Lobatto rule is the midpoint rule"],
    "units": _elem("quadrature", "quadrature.cc", [], 10),
}
PROPS["E04"] = {
    "rule": "random nodal positions and partials (2d with 3..12 nodes, 3d with 8..32, 4d with 16), structured matrices (permutations, triangular, sparse), storage pre-filled with garbage, node lists longer than the element; distinct = hash of the matrix",
    "assumptions": ["inverses of matrices that are not nearly singular"],
    "units": _elem("jac", "jacobian.cc", [], 15),
}

PROPS["U02"] = {
    "rule": "random extents (also zero, and ones whose product needs more than 32 bits, over reserved memory) for ranks 1..4, random sections/slices/strides of them, every index of the small ones; distinct = hash of (rank, extents, origin, section)",
    "assumptions": ["a view is flattened only when it is contiguous"],
    "units": [
        {"name": "views", "variant": "asan", "src": ["views.cc"], "scale": 0.6, "tscale": 12},
        {"name": "views-clang", "variant": "asan-clang", "src": ["views.cc"], "workload": "views", "tscale": 12, "thorough_only": True},
        {"name": "views-ndebug", "variant": "asan-ndebug", "src": ["views.cc"], "workload": "views", "tscale": 12, "thorough_only": True},
    ],
}

LUA = {"flags": ["-I/usr/include/lua5.3"], "libs": ["-llua5.3"]}


def _lua(name, src, scale, tscale, flags=(), repo=()):
    f = LUA["flags"] + list(flags)
    s = [src] + list(repo)
    return [
        {"name": name, "variant": "asan", "src": s, "flags": f, "libs": LUA["libs"], "scale": scale, "tscale": tscale},
        {"name": name + "-clang", "variant": "asan-clang", "src": s, "flags": f + ["-frelaxed-template-template-args"], "libs": LUA["libs"], "workload": name, "tscale": tscale, "thorough_only": True},
        {"name": name + "-ndebug", "variant": "asan-ndebug", "src": s, "flags": f, "libs": LUA["libs"], "workload": name, "tscale": tscale, "thorough_only": True},
    ]


PROPS["L01"] = {
    "rule": "random values of 30 C++ types (boundary integers, all bit patterns of doubles, strings with every byte, nested containers) written as Lua source and read back through globals, "
            "tables, function results and held results, or passed as arguments; plus every cell of a value-kind x target-type matrix; distinct = hash of (type, literal)",
    "assumptions": ["Lua 5.3 with 64-bit integers and doubles", "unsigned values above the largest signed 64-bit integer are not passed as arguments"],
    "units": _lua("values", "lua_values.cc", 1.0, 20),
}
PROPS["L02"] = {
    "rule": "random sessions of 120 steps over some 40 kinds of use and misuse on one interpreter with foreign rows on its stack; after each step the stack rows, held values and a canary script are checked; "
            "plus long repetitions; distinct = hash of (previous step, step)",
    "assumptions": ["errors raised inside Lua finalizers are not provoked"],
    "units": _lua("errors", "lua_errors.cc", 1.0, 15),
}
PROPS["L03"] = {
    "rule": "random histories of opening, copying, overwriting and dropping states, results and wrapped functions, with finalizer-counted objects in up to four interpreters; distinct = hash of the operation sequence",
    "units": _lua("life", "lua_life.cc", 10, 200),
}
PROPS["P01"] = {
    "rule": "random arguments through every calling form, every kind of failure with the interpreter probed after it, 2000-fold repetition of every operation with object counts compared, and each allocation the interpreter makes inside an operation failing in turn; over several initialise/finalise cycles; distinct = hash of the arguments or operation",
    "assumptions": ["one thread holding the interpreter lock"],
    "units": [
        {"name": "python", "variant": "asan", "src": ["python_embed.cc", "python_embed2.cc"], "flags": ["-I/usr/include/python3.12"], "libs": ["-lpython3.12"], "tscale": 10},
        {"name": "python-clang", "variant": "asan-clang", "src": ["python_embed.cc", "python_embed2.cc"], "flags": ["-I/usr/include/python3.12"], "libs": ["-lpython3.12"], "workload": "python", "tscale": 10, "thorough_only": True},
        {"name": "python-O0", "variant": "asan-O0", "src": ["python_embed.cc", "python_embed2.cc"], "flags": ["-I/usr/include/python3.12"], "libs": ["-lpython3.12"], "workload": "python", "tscale": 10, "thorough_only": True},
    ],
}
DBC = ["repo:ristra/assertions/dbc_impl.cc"]
PROPS["I01"] = {
    "rule": "random 60-step histories of installing sources, adding and replacing values of 10 types, registering targets, resolving, reading and clearing, against a reference model of the sources; distinct = hash of (sources present, targets, which were found)",
    "assumptions": ["a target is asked for in the type its source holds (other types are conversion failures, see L01)"],
    "units": _lua("inputs", "inputs.cc", 8, 150, ["-DPART=1"], DBC),
}
PROPS["I02"] = {
    "rule": "random 12-step histories of one initial value (supply, resolve, get, query) of 6 types and of functions, with counting validators, against a reference state machine; distinct = hash of the operation sequence",
    "units": _lua("initval", "inputs.cc", 8, 150, ["-DPART=2"], DBC)
    + _lua("initval-dbc", "inputs.cc", 4, 50, ["-DPART=2", "-DRISTRA_DBC_THROW"], DBC)[:1],
}

PROPS["D01"] = {
    "rule": "four source files, one per assertion mode, linked into one program; every assertion with random operands of 5 types (including infinities, NaN, boundary integers), "
            "argument evaluations counted; error macros with random messages; distinct = hash of (mode, type, operands)",
    "assumptions": ["operands of one assertion have one type, as the macros require"],
    "units": [
        {"name": "dbc", "variant": "asan-O0", "src": ["dbc_main.cc", "dbc_throw.cc", "dbc_notify.cc", "dbc_quiet.cc", "dbc_off.cc"] + DBC, "scale": 2, "tscale": 40},
        {"name": "dbc-clang", "variant": "asan-clang", "src": ["dbc_main.cc", "dbc_throw.cc", "dbc_notify.cc", "dbc_quiet.cc", "dbc_off.cc"] + DBC, "workload": "dbc", "tscale": 40, "thorough_only": True},
        {"name": "dbc-ndebug", "variant": "asan-ndebug", "src": ["dbc_off.cc", "dbc_quiet.cc", "dbc_notify.cc", "dbc_throw.cc", "dbc_main.cc"] + DBC, "workload": "dbc", "scale": 2, "tscale": 40},
    ],
}
BPO = ["-lboost_program_options"]
PROPS["I03"] = {
    "rule": "random sets of registered options (flags, int, long, double, text, repeated) in groups, random command lines using long, abbreviated, short, merged, joined and separate spellings, shuffled, with unregistered, malformed, "
            "incomplete and terminated ones; distinct = hash of the command line",
    "assumptions": ["values are non-empty", "negative numbers are joined to their option"],
    "units": [
        {"name": "args", "variant": "asan", "src": ["arguments.cc"], "libs": BPO, "scale": 6, "tscale": 120},
        {"name": "args-clang", "variant": "asan-clang", "src": ["arguments.cc"], "libs": BPO, "workload": "args", "tscale": 120, "thorough_only": True},
    ],
}
PROPS["U03"] = {
    "rule": "one to twelve random containers of 0..700 elements of four kinds, random tuples of 0..12 elements, predicates, value sets and callables that keep state, are not copied, or throw; addresses reached are compared with the containers' own; distinct = hash of (sizes, leading values)",
    "assumptions": ["containers zipped together have equal sizes, except where a mismatch is provoked in a child process"],
    "units": [
        {"name": "lockstep", "variant": "asan", "src": ["lockstep.cc"], "scale": 4, "tscale": 80},
        {"name": "lockstep-ndebug", "variant": "asan-ndebug", "src": ["lockstep.cc"], "workload": "lockstep", "scale": 4, "tscale": 80},
        {"name": "lockstep-clang", "variant": "asan-clang", "src": ["lockstep.cc"], "workload": "lockstep", "tscale": 80, "thorough_only": True},
    ],
}
PROPS["U04"] = {
    "rule": "random paths, texts with every byte value, delimiter sets, numbers around powers of ten, UTF-8 and malformed text, and six threads splitting with different delimiters; distinct = hash of the text",
    "assumptions": ["POSIX paths", "white space always separates when splitting"],
    "units": [
        {"name": "strings", "variant": "asan", "src": ["strings.cc"], "scale": 4, "tscale": 60},
        {"name": "strings-tsan", "variant": "tsan", "src": ["strings.cc"], "flags": ["-DTHREADS"], "scale": 4, "tscale": 60},
        {"name": "strings-clang", "variant": "asan-clang", "src": ["strings.cc"], "workload": "strings", "tscale": 60, "thorough_only": True},
    ],
}

import os as _os
INSITU = ["-DRISTRA_ENABLE_CATALYST", "-I" + _os.path.join(_os.path.dirname(_os.path.dirname(_os.path.abspath(__file__))), "harness", "insitu")]
PROPS["C01"] = {
    "rule": "random histories of building grids from points, cells and fields, random renumbered meshes of boxes with shared faces and ghost cells (2 and 3 dimensions), writing and co-processing runs, against stand-ins for VTK and Catalyst that keep "
            "what they are given and count references; distinct = hash of (shape, form, sizes) or of the history",
    "assumptions": ["stand-ins for VTK, Catalyst, MPI and the flecsi mesh (harness/insitu) instead of the real libraries: reference counting, replacement of same-named arrays and single precision points as in VTK",
                    "adding vertices and inserting points are not mixed in one grid", "every field is added with as many values as it says"],
    "units": [
        {"name": "insitu3", "variant": "asan", "src": ["insitu_grid.cc"], "flags": INSITU + ["-DDIM=3"], "scale": 4, "tscale": 15},
        {"name": "insitu2", "variant": "asan", "src": ["insitu_grid.cc"], "flags": INSITU + ["-DDIM=2"], "scale": 2, "tscale": 15},
        {"name": "insitu3-clang", "variant": "asan-clang", "src": ["insitu_grid.cc"], "flags": INSITU + ["-DDIM=3"], "workload": "insitu3", "tscale": 15, "thorough_only": True},
        {"name": "insitu3-O0", "variant": "asan-O0", "src": ["insitu_grid.cc"], "flags": INSITU + ["-DDIM=3"], "workload": "insitu3", "tscale": 8, "thorough_only": True},
    ],
}
PROPS["C02"] = {
    "rule": "random input files naming scripts, pairs of images around the two percent limit and of different shapes, pairs of files, texts, log and timer histories; distinct = hash of the inputs",
    "assumptions": ["script names are relative", "images are PGM, PPM or 32-bit TGA", "the system clock is not set while a timer runs"],
    "units": [
        {"name": "insitu-utils", "variant": "asan", "src": ["insitu_utils.cc"], "scale": 3, "tscale": 40},
        {"name": "insitu-utils-clang", "variant": "asan-clang", "src": ["insitu_utils.cc"], "workload": "insitu-utils", "tscale": 40, "thorough_only": True},
    ],
}

PROPS["T01"] = {
    "rule": "11 kinds of self-contained jobs (linear algebra, arithmetic containers, shapes, solids, elements, quadrature and Jacobians, sequences and views, strings and times, Lua states, read-only use of shared objects), "
            "60 random instances each, run in random order by 4 threads (thorough 8) per round, aligned and staggered; distinct = (job, instance, round, thread)",
    "assumptions": ["each thread uses its own objects, or only reads shared ones", "failures that report on the process's standard error stream are not provoked concurrently"],
    "units": [
        {"name": "once", "variant": "tsan", "src": ["at_once.cc"] + ELEM, "flags": LUA["flags"], "libs": LUA["libs"] + ["-pthread"], "scale": 3, "tscale": 40},
        {"name": "once-O2", "variant": "plain-O2", "src": ["at_once.cc"] + ELEM, "flags": LUA["flags"], "libs": LUA["libs"] + ["-pthread"], "workload": "once", "scale": 5, "tscale": 200},
        {"name": "once-clang", "variant": "tsan-clang", "src": ["at_once.cc"] + ELEM, "flags": LUA["flags"] + ["-frelaxed-template-template-args"], "libs": LUA["libs"] + ["-pthread"], "workload": "once", "tscale": 20, "thorough_only": True},
    ],
}
