"""Metadata of the properties: the source of properties.jsonl and MANIFEST.json (tools/gen.py)."""
META = {}
NA = {}
FILES = {}


def P(id, title, statement, over, qtext, why, files, mech, observe=None, state=None, technique="", note=""):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if observe:
        a["observe_at"] = observe
    if state:
        a["state"] = [{"name": n, "meaning": m} for n, m in state]
    a["hook_needed"] = None
    META[id] = {"prop": {"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": qtext},
                         "why_tests_cant": why, "anchors": a}, "technique": technique, "note": note}


AT = "ristra/atomics/src/"
P("A01", "Concurrent atomic updates are indivisible",
  "When threads update one shared variable with the atomic operations (any scheme, any operation, any spelling: free function, member, operator), the values the calls returned and the final value are those of some one-at-a-time order of all the calls. No update is lost, applied twice or computed from a half-written value, and a call returns the value produced (or, for post-increment and post-decrement, replaced) by its own update.",
  ["schedules", "inputs"], "every interleaving of any number of threads, every scheme, operation and operand",
  "The examples add in a few threads and look at the final sum, which most lost returns and rare lost updates do not change.",
  [AT + "atomics.h", AT + "atomics-macro-function.h", AT + "atomics-macro-function-prepost.h", AT + "atomics-macro-member.h", AT + "atomics-macro-operator.h", AT + "atomics-macro-class.h"],
  [("compare-and-swap retry loop", AT + "atomics-macro-function.h"), ("fetch-based scheme", AT + "atomics.h"), ("lock scheme", AT + "atomics.h")],
  ["return values of every call", "the final value"], [("shared variable", "the value all threads update")],
  "offline serializability check (Eulerian path over recorded before/after pairs) of stress histories with delays injected through hooked operands; ThreadSanitizer",
  "Real threads on 8 cores, delays and interfering updates injected inside the library's read-modify-write window through operand types; plus TSan runs of the same workload.")
P("A02", "Atomic operations compute the built-in result",
  "Used from one thread, each atomic operation changes the variable exactly as the corresponding built-in expression on its value and operand would (after the usual arithmetic conversions) and returns that value, or the previous value for post-increment and post-decrement. This is so for every scheme, every spelling, every memory order, every value type the library accepts and operands of other types; minimum and maximum take the smaller and larger of the two.",
  ["inputs", "configurations"], "every value type, scheme, operation, spelling, memory order and operand for which the built-in operation is defined",
  "The unit tests use a few values of few types with default orders.",
  [AT + "atomics.h", AT + "atomics-macro-function.h", AT + "atomics-macro-function-prepost.h", AT + "atomics-macro-member.h", AT + "atomics-macro-member-prepost.h", AT + "atomics-macro-operator.h", AT + "atomics-macro-operator-prepost.h", AT + "atomics-macro-class.h", AT + "atomics-macro-class-prepost.h"],
  [("operation generators", AT + "atomics-macro-function.h"), ("operator spellings", AT + "atomics-macro-operator.h")],
  ["return value and stored value after each call"], None,
  "online differential monitor against the built-in operators under ASan+UBSan, over random operands and long mixed histories",
  "15 value types x 7 schemes x every operation and spelling, boundary-heavy random operands.")
P("A03", "Atomic updates publish what their thread wrote before",
  "An update made with the default order, or with an explicitly releasing one, makes everything its thread wrote earlier visible to any thread that observes the update with an acquiring operation, without a data race on that data. Hence the operations can be used for message passing and to build locks, under every scheme, operation and spelling that takes or defaults the order.",
  ["schedules", "configurations"], "every interleaving and every scheme, operation and spelling, with default or explicit orders",
  "No test hands over non-atomic data through an atomic update, and a missing order rarely shows on x86.",
  [AT + "atomics.h", AT + "atomics-macro-function.h", AT + "atomics-macro-member.h", AT + "atomics-macro-operator.h", AT + "atomics-macro-class.h"],
  [("memory order arguments and defaults", AT + "atomics-macro-function.h"), ("order forwarding", AT + "atomics-macro-member.h")],
  ["payload read by the receiving thread", "happens-before edges seen by TSan"], None,
  "ThreadSanitizer happens-before race detection over message-passing litmus rounds and ticket locks built from the operations, plus payload value checks",
  "TSan derives happens-before from the orders actually passed to the hardware operations, so a weakened order is reported in any schedule that executes the hand-over.")

UT = "ristra/utils/"
P("U01", "A fixed-capacity vector behaves as a bounded sequence",
  "Through any history of constructions, assignments, insertions, erasures, resizes, swaps and element accesses within its capacity, a fixed-capacity vector holds the same element sequence, size and iteration order as an ordinary vector given the same calls, and the positions returned by insert and erase are the same. It never touches memory outside its own storage, checked access outside the size throws, and two compare equal exactly when their sequences do.",
  ["histories", "inputs"], "every history of operations within the capacity, every element type and capacity",
  "The tests run one short script on one element type.",
  [UT + "fixed_vector.h"], [("element shifting in insert and erase", UT + "fixed_vector.h"), ("size bookkeeping", UT + "fixed_vector.h")],
  ["size, elements, iterators, returned positions after each call"], [("size", "number of live elements"), ("storage", "fixed in-object array")],
  "model-based online monitor (std::vector as reference) over random histories, with guard words, lifetime-counted elements, ASan and UBSan",
  "The whole observable state is compared after every step of every history.")
P("U02", "Array views address exactly their elements",
  "A multi-dimensional view over memory - dynamic, static or strided, whole, sliced, sectioned or transposed - reads and writes exactly the element that the row-major layout of the underlying array gives for each index, visits every index once in order when iterated, and reports the extents, strides, size and emptiness that this implies. Its bounds contain exactly the valid indices, bounds iterators move and compare by position, checked access outside the bounds throws, views compare as the sequences of their elements, and one-dimensional array references do the same for their sub-ranges.",
  ["inputs", "histories"], "every rank, extents, slice, section, stride and iterator movement",
  "The tests look at a few 1-3 dimensional views with a few indices.",
  [UT + "array_view.h", UT + "array_view_impl.h", UT + "array_ref.h"],
  [("bounds, index, strides", UT + "array_view.h"), ("slice and section", UT + "array_view.h"), ("array references", UT + "array_ref.h")],
  ["addresses of elements reached through the view", "iterator sequence"], None,
  "online differential monitor against explicit index enumeration of the backing memory, under ASan+UBSan",
  "Random ranks 1..4 and extents; every index of every small view is resolved and its address compared, and sampled positions of views over 6 GB of reserved memory.")

MA = "ristra/math/"
P("M01", "Container arithmetic is the arithmetic of the elements",
  "Every arithmetic operator and compound assignment between the fixed-size numeric containers (arrays, multi-dimensional arrays, dimensioned arrays, tuples) and between them and scalars yields, element by element, what the built-in operator yields on the elements, and changes nothing else. This holds when an operand is the destination itself or one of its elements.",
  ["inputs"], "every container type and size, operator, operand values and aliasing",
  "The tests use a few values of one or two sizes and never alias operands.",
  [MA + "array.h", MA + "multi_array.h", MA + "tuple.h", MA + "vector.h", UT + "dimensioned_array.h"],
  [("operator overloads", MA + "array.h"), ("tuple traversal", MA + "tuple.h")],
  ["elements of result and operands"], None,
  "online differential monitor against built-in element arithmetic on saved operands, with aliased operands, under ASan+UBSan",
  "40 container types; every single operation is compared exactly, sign of zero included.")
P("M02", "Array indexing, iteration and ordering follow row-major layout",
  "Each index tuple of a fixed-size array denotes its own element, at the row-major position (column-major where so declared), through every form of access, and forward and reverse iteration, front and back, fill, swap, and construction from lists agree with it. Checked access throws for exactly the out-of-range indices, and the six comparisons are those of the lexicographic order of the element sequences.",
  ["inputs", "configurations"], "every shape, index tuple and pair of contents",
  "The tests read a few positions of one or two shapes.",
  [MA + "array.h", MA + "multi_array.h", UT + "dimensioned_array.h"],
  [("stride computation", MA + "multi_array.h"), ("access functions", MA + "array.h"), ("comparisons", MA + "array.h")],
  ["element addresses, iteration sequences, comparison results"], None,
  "online monitor: exhaustive index enumeration and lexicographic oracle on random contents, under ASan+UBSan",
  "Every index of 27 shapes, all relations on equal, nearly equal and unrelated pairs.")
P("M03", "Matrix operations satisfy their defining equations",
  "Products, transposes, outer products, rotations, reflections, projections, norms, traces, cofactors, determinants, inverses, linear solves and exponentials of the dense fixed-size matrices satisfy the equations that define them, within rounding, for every matrix where they are defined; so does scaled matrix-vector multiplication and the other updating forms.",
  ["inputs"], "every matrix, size and shape for which the operation is defined",
  "The tests check one or two matrices with friendly values (identities, symmetric ones) per routine.",
  [MA + "matrix.h", MA + "multi_array.h", MA + "general.h"],
  [("dense matrix routines", MA + "matrix.h")], ["results against residuals"], None,
  "online residual monitor in extended precision with condition-number-scaled tolerances over random structured matrices, under ASan+UBSan",
  "Exact integer determinants, long double sums and residuals; ill-conditioned cases are not judged.")
P("M04", "Reductions and vector products give their textbook values",
  "Averages, minima and maxima (of a sequence and element-wise), dot, cross and triple products, magnitudes, unit vectors, normals, squares, cubes and signs, and distances, midpoints and centroids of points, give their mathematical value within rounding for every input whose sums and products the element type can represent, whichever container, iterator range or argument list they are given. They do not modify their inputs.",
  ["inputs"], "every input sequence, element type, container and calling form",
  "The tests use a few short lists of small positive values.",
  [MA + "general.h", MA + "general_impl.h", MA + "vector.h", MA + "array.h"],
  [("reductions", MA + "general.h"), ("vector products", MA + "general.h")], ["returned values"], None,
  "online differential monitor against extended precision and exact integer oracles, under ASan+UBSan",
  "1..500 elements, signs, ties and extremes at every position.")

GE = "ristra/geometry/"
P("G01", "Planar measures equal the exact geometric ones",
  "Areas, centroids, normals and midpoints of segments, triangles, quadrilaterals and simple polygons of non-zero area in the plane, and of convex ones in space, equal the exact geometric values within rounding, however the vertices are renumbered, for both orientations, whichever calling form is used, and after rigid motions.",
  ["inputs"], "every simple polygon, position, orientation, numbering and calling form",
  "The tests use unit squares and triangles at the origin.",
  [GE + "area.h", GE + "area_impl.h", GE + "centroid.h", GE + "centroid_impl.h", GE + "normal.h", GE + "point.h", GE + "space_vector.h", GE + "shapes/triangle.h", GE + "shapes/quadrilateral.h", GE + "shapes/polygon.h"],
  [("shoelace and fan sums", GE + "area_impl.h"), ("shape classes", GE + "shapes/polygon.h")], ["returned measures"], None,
  "online differential monitor against long double fan triangulation plus metamorphic renumbering/motion checks, under ASan+UBSan",
  "3..1000 vertices, star shaped and chains in the plane, convex in space, in float, double and long double.")
P("G02", "Volumes and centroids of solids equal the exact ones",
  "Volumes and centroids of tetrahedra, hexahedra and general polyhedra of non-zero volume equal the exact geometric values within rounding, for every position, size and shape, and do not depend on which face comes first or where a face's numbering starts.",
  ["inputs"], "every non-degenerate solid, position, face order and numbering",
  "The tests use unit cubes and one tetrahedron.",
  [GE + "shapes/tetrahedron.h", GE + "shapes/hexahedron.h", GE + "shapes/polyhedron.h", GE + "shapes/geometric_shapes.h"],
  [("face integral sums", GE + "shapes/polyhedron.h"), ("tetrahedral decomposition", GE + "shapes/hexahedron.h")], ["returned measures"], None,
  "online differential monitor against long double decompositions plus metamorphic face-order checks, under ASan+UBSan",
  "Affine and warped hexahedra, frusta, pyramids and tetrahedra in random frames.")

EL = "ristra/elements/"
elf = [EL + "elements.h", EL + "elements.cc", EL + "utilities.h"]
P("E01", "Finite element bases interpolate their nodes",
  "At every point, the basis functions of each element (4, 8 and 12 node and arbitrary order quadrilaterals; 8, 20 and 32 node and arbitrary order hexahedra; 16 node tesseract) are the ones that reproduce the element's polynomial space from its nodes: one at their own node, zero at the others, summing to one. Physical positions are the corresponding combination of the vertices, and one-dimensional node distributions, node numbering and vertex queries are consistent with it.",
  ["inputs"], "every point, order, node distribution and vertex set",
  "The tests evaluate few points of some elements and mostly check sums, which cannot tell permuted bases apart.",
  elf, [("basis evaluation", EL + "elements.cc"), ("physical position", EL + "elements.cc")], ["basis values, physical positions"], None,
  "online differential monitor against an independently solved interpolation basis (long double Vandermonde), under ASan+UBSan",
  "All element types, interior/boundary/outside points.")
P("E02", "Basis derivatives are the derivatives of the basis",
  "At every point, each partial derivative that an element reports is the derivative of the corresponding basis function in that direction, for every element type and arbitrary order, so the partials sum to zero and differentiate the element's polynomials exactly.",
  ["inputs"], "every point, direction, order and node distribution",
  "The tests compare sums at few points, which cancel errors.",
  elf, [("partial derivative evaluation", EL + "elements.cc")], ["partial derivative values"], None,
  "online differential monitor against derivatives of an independently solved interpolation basis, under ASan+UBSan",
  "All directions of all element types.")
P("E03", "Quadrature rules integrate the polynomials they promise",
  "The Gauss-Legendre rule with n points integrates polynomials of degree up to 2n-1 exactly, the Gauss-Lobatto rule up to 2n-3, over the reference line, and the tensor-product weights do so in two, three and four dimensions; all weights are positive and sum to the reference volume.",
  ["inputs", "configurations"], "every supported order, dimension and polynomial within the degree",
  "The tests look at some orders and the weights' sum.",
  elf, [("point and weight tables", EL + "elements.cc")], ["points, weights, integrals"], None,
  "online monitor integrating every monomial up to the exactness degree and random tensor polynomials with the reported points and weights, under ASan+UBSan",
  "Exhaustive over rule, dimension and order 1..8.")
P("E04", "Jacobians, their determinants and inverses are exact",
  "The Jacobian computed from vertices and partials is the matrix of derivatives of position with respect to reference coordinates in two, three and four dimensions, its determinant is that matrix's determinant, and its inverse multiplies with it to the identity. Only the outputs are written and results do not depend on what the output storage held before.",
  ["inputs"], "every set of vertices and partials with a non-singular Jacobian",
  "The tests use unit cells whose Jacobians are diagonal.",
  elf, [("jacobian routines", EL + "elements.cc")], ["matrix entries, determinant, inverse"], None,
  "online residual monitor in long double over random and structured matrices with poisoned outputs, under ASan+UBSan",
  "2d with 3..12 nodes, 3d with 8..32, 4d with 16.")

EM = "ristra/embedded/"
P("L01", "Values cross between C++ and Lua unchanged or not at all",
  "Reading a Lua value as a C++ type - number, truth value, string, array, vector, matrix, tuple of results - yields exactly the value Lua holds, and passing a C++ argument gives Lua exactly that value in that position, or throws if Lua has no such value. A value the requested type cannot represent (wrong kind, fraction or out of range for an integer, wrong number of elements or results, absent) makes the conversion throw and is never truncated, cut short or padded; only numbers read as floating point are rounded, to the nearest value of that type; an absent value yields the default where one is given, and sizes are the lengths Lua gives. Keys find exactly the entry stored under that key.",
  ["inputs"], "every value, C++ type, nesting and way of reaching it (global, field, index, result)",
  "The tests read a handful of small numbers and strings.",
  [EM + "embed_lua.h"], [("lua_value conversions", EM + "embed_lua.h"), ("lua_push and lua_ref", EM + "embed_lua.h"), ("lua_result_t::as and get_results", EM + "embed_lua.h")],
  ["value returned by as<T>()", "value a Lua function sees"], None,
  "online round-trip monitor: random values are written as Lua source by an independent serialiser and read back, and a kind x type acceptance matrix is checked, under ASan+UBSan",
  "30 C++ types; all byte values in strings, all bit patterns in doubles, integer boundaries.")
P("L02", "A failing Lua operation is reported and leaves the interpreter as it was",
  "Every error in embedded Lua - bad source, missing file, raising or missing function, wrong type, absent key - reaches the caller as a C++ exception rather than ending the program, and whether an operation succeeds or fails the interpreter's stack is left as it was found, held values keep their values, nothing accumulates, and the interpreter goes on working.",
  ["histories", "inputs"], "every sequence of successful and failing operations on one interpreter",
  "The tests provoke hardly any error and never use the interpreter after one.",
  [EM + "embed_lua.h"], [("checked calls and error reporting", EM + "embed_lua.h"), ("stack discipline of results", EM + "embed_lua.h")],
  ["exception raised", "rows on the Lua stack", "registry references"], [("Lua stack", "rows the host left there"), ("registry", "references held for C++ results")],
  "online invariant monitor (stack rows, registry size, held values, canary script) over random sessions of use and misuse, under ASan+UBSan",
  "some 40 kinds of step, 120 steps per session, foreign rows on the stack.")
P("L03", "Lua values live exactly as long as something refers to them",
  "A result, wrapped function or state object obtained from Lua stays valid for as long as any copy of it exists, also after the state object it came from and the result it was taken from are gone; when the last one goes the Lua object becomes collectable and the interpreter is closed, exactly once.",
  ["histories"], "every history of creating, copying, assigning and dropping states, results and wrapped functions, in any order",
  "The tests drop everything in one order at the end of the program.",
  [EM + "embed_lua.h"], [("lua_ref_t registry references", EM + "embed_lua.h"), ("shared ownership of the state", EM + "embed_lua.h"), ("Lua_Func_Wrapper", EM + "embed_lua.h")],
  ["finalizer counts of tracked Lua objects", "number of interpreters closed"], [("reference", "registry slot that keeps a Lua object alive")],
  "online lifetime monitor: finalizer-counting Lua objects audited against a reference count model over random histories, with ASan and LeakSanitizer",
  "Up to four interpreters at a time, every object audited after forced collections.")
P("P01", "Embedded Python passes values unchanged, reports errors and leaks nothing",
  "Arguments and results of embedded Python calls keep their value, type, number and order; a Python error of any kind (running out of memory included) becomes a C++ exception with no error left pending, and the interpreter goes on working; and no operation, successful or failing, accumulates Python objects or changes the reference count of what it was given.",
  ["inputs", "histories"], "every argument list, callee, failure and sequence of operations",
  "The test makes two calls with positive numbers.",
  [EM + "embed_python.h"], [("python_build_args, python_set_tuple_element", EM + "embed_python.h"), ("python_call_function", EM + "embed_python.h"), ("python_as_long, python_as_double", EM + "embed_python.h")],
  ["returned values", "exceptions", "object and reference counts"], [("reference counts", "who owns which Python object"), ("error indicator", "Python's pending error")],
  "online monitor of values, error indicator, reference counts and allocated-block counts over random calls, failures and repetitions, under ASan+UBSan",
  "Leaks of Python objects are judged by the interpreter's own block count, since its pools hide them from LeakSanitizer.")

IN = "ristra/initialization/"
P("I01", "An input's value comes from the right source",
  "After resolving, each registered input has exactly the value the Lua input file gives it, or else the one the hard-coded source gives it; resolving reports success exactly when every registered input was found in a source, and an input found nowhere is not readable, and one the file holds with the wrong kind of value is an error, never passed over for the default. Reading does not consume or change a source, so repeating a read or a resolution gives the same values, and later replacements of a source or of an entry take effect at the next resolution. The same holds for values asked for without registration.",
  ["histories", "inputs", "configurations"], "every set of sources, types, keys and order of registering, resolving, replacing and reading",
  "The tests resolve one fixed configuration once.",
  [IN + "input_engine.h", IN + "input_source.h", IN + "inputs_impl.h", IN + "input.h"],
  [("input_engine_t::resolve_inputs", IN + "input_engine.h"), ("lua_source_t key lookup", IN + "input_source.h"), ("hard_coded_source_t registry", IN + "input_source.h")],
  ["get_value, get_instant_value, resolved, resolve_inputs"], [("registry", "resolved values by type and name"), ("targets", "names to resolve")],
  "model-based online monitor: random histories against a reference model of both sources, checked after every resolution, under ASan+UBSan",
  "10 value types including functions; generated Lua input files.")
P("I02", "An initial value is handed out only when resolved and valid",
  "Getting an initial value returns the value its input was resolved to, and throws if it was not resolved or its validator rejects it; its validity and resolvedness queries always tell which of these is the case now, also after inputs were replaced, withdrawn and resolved again, and its status tells what the last of these calls found; for values and functions, with or without a validator.",
  ["histories", "inputs"], "every history of supplying, resolving, validating and getting, every value and validator",
  "The tests get two valid values.",
  [IN + "init_value.h", IN + "input_engine.h"], [("init_value_t::get, valid, resolved", IN + "init_value.h")],
  ["value or exception of get()", "status(), valid(), resolved()"], [("status", "registered, initialized, valid, invalid or failed")],
  "model-based online monitor: random histories of one initial value against a reference state machine with counting validators, under ASan+UBSan",
  "Six value types and functions; contracts off and throwing.")


DB = "ristra/assertions/"
P("D01", "A failed assertion is acted on, a true one is not",
  "With the contracts on, every contract assertion has the value of its condition and evaluates its operands once. When the condition is false it takes exactly the action its source file was built with - throw a logic error, write one line to the report stream, or nothing - naming the file, line, function and what failed; when it is true it does nothing. This holds when files built with different actions are linked together, and with the contracts compiled out only the unconditional assertion still acts. The error-raising macros throw the exception type they stand for after reporting place and message, and behave as one statement.",
  ["inputs", "configurations"], "every assertion, operand values and types, and mix of configurations",
  "The tests use one configuration per program and a few small integers.",
  [DB + "dbc.h", DB + "dbc_impl.h", DB + "dbc_impl.cc", DB + "errors.h", DB + "exceptions.h", DB + "here.h"],
  [("assertion macros and functions", DB + "dbc.h"), ("message construction", DB + "dbc_impl.cc"), ("error macros", DB + "errors.h")],
  ["exception, report stream, return value and evaluation count of each assertion"], [("dbc_action", "what this file does about a failed assertion")],
  "online monitor of exceptions, report stream, values and evaluation counts in a program that links all four assertion modes, under ASan+UBSan",
  "Built without optimisation, so that functions shared between files by the linker are shared here too.")
P("I03", "Command line arguments reach the program as they were given",
  "Each registered argument that is given has exactly the value on the command line, in any spelling (long, unambiguously abbreviated, short, joined or separate) and order, counts as given, and does not disturb the others; one that is not given yields the caller's default and does not count. Unregistered arguments are ignored. A malformed, missing or doubly given value is reported as an error rather than yielding a value, and something is printed only for an error or a request for help, and only if printing is wanted; usage texts name the program as it was called and list every registered argument under its group.",
  ["inputs"], "every set of registered arguments and every command line",
  "There is no test of it.",
  [IN + "arguments.h"], [("command_line_arguments_t::process_arguments", IN + "arguments.h"), ("command_line_variables_t::as", IN + "arguments.h")],
  ["values, counts, error flag, text on cout and cerr"], None,
  "model-based online monitor over random registrations and command lines, with the output streams captured, under ASan+UBSan",
  "Six kinds of argument, three command lines per set of registrations.")
P("U03", "Lockstep helpers visit every position once, in order",
  "Zipping containers, running a task over them, and the for-each, visit, zip and tie helpers for tuples reach exactly the elements of each container or tuple, position by position and each once, in order, as references to the elements themselves (so writes reach them and nothing is copied), and never go beyond the shortest container. Filtering iterators visit exactly the accepted elements in order, conversions between tuples and arrays keep every element in place, and the set helpers yield exactly the common elements, or each value once, in sorted order without changing their inputs.",
  ["inputs"], "every number, kind and length of containers, tuples and predicates",
  "The tests walk one or two fixed containers.",
  [UT + "zip.h", UT + "zip_impl.h", UT + "tasks.h", UT + "tuple_for_each.h", UT + "tuple_visit.h", UT + "tuple_visit_impl.h", UT + "tuple_zip.h", UT + "tuple_zip_impl.h", UT + "tuple_to_array.h", UT + "static_for.h", UT + "filter_iterator.h", UT + "algorithm.h", UT + "template_helpers.h"],
  [("zip iterator", UT + "zip_impl.h"), ("recursive tuple visit", UT + "tuple_visit_impl.h"), ("filter_iterator", UT + "filter_iterator.h")],
  ["addresses and order of the elements reached"], None,
  "online monitor comparing the addresses and values reached with the containers' own, with length mismatches run in child processes, under ASan+UBSan",
  "Debug and release builds; 1 to 12 containers of different kinds.")
P("U04", "String and path helpers keep every character",
  "Splitting yields exactly the non-empty pieces between white space or the given delimiter characters, whatever the bytes and from any number of threads at once; replacing changes exactly the non-overlapping occurrences; base name, extension and stem split a path at its last separator and the last dot of the base name and put together give the path; wide strings have the characters of the text, fixed-length strings hold any text up to their length and refuse longer ones, digit counts, zero padding and time parts are exact.",
  ["inputs", "schedules"], "every string, delimiter set, path and number; any number of threads",
  "There are no tests of them.",
  [UT + "string_utils.h", UT + "trivial_string.h", UT + "const_string.h", UT + "time_utils.h"],
  [("split", UT + "string_utils.h"), ("path helpers", UT + "string_utils.h"), ("trivial_string", UT + "trivial_string.h")],
  ["returned strings"], None,
  "online differential monitor against independent reference implementations under ASan+UBSan, and concurrent splitting under ThreadSanitizer",
  "All byte values; UTF-8 decoded by hand.")

CT = "ristra/io/catalyst/"
P("C01", "In-situ visualisation receives the mesh and fields as described",
  "The grid handed to the co-processor or written to a file has the points of the application's mesh one for one and in order (to single precision, the third coordinate zero for plane meshes), one cell per cell of the mesh - ghost cells left out when the whole mesh is converted - with its vertices and its faces seen from outside, and every added field under its name, on the points or cells asked for, with every value in its entry and component; the grid keeps its own copy of added scalar, vector and tensor fields. Writing writes that grid, in the pieces asked for, under the name asked for; a run gives the co-processor one pipeline per script in order, every step's time and number, the step's grid whenever it wants data, and forces output on the last step. Every VTK object is released exactly once, also when the builder is reset, reused or outlived by its grid.",
  ["inputs", "histories"], "every mesh, field, type and history of building, resetting, writing and co-processing",
  "There are no tests of it and it is not built here.",
  [CT + "adaptor.h", CT + "flecsale_unstructuredGrid.h", CT + "vtk/unstructuredGrid.h"],
  [("UnstructuredGrid builder", CT + "vtk/unstructuredGrid.h"), ("createMesh, writeCellsToGrid", CT + "flecsale_unstructuredGrid.h"), ("adaptor_t, initAdaptor, processCatalyst", CT + "adaptor.h")],
  ["points, cells and arrays VTK holds", "what is written and co-processed", "number of live VTK objects"], [("reference counts", "who holds which VTK object"), ("builder", "points and cells not yet pushed")],
  "online monitor: the real headers compiled against recording stand-ins for VTK, Catalyst and the mesh, their contents compared with the description and their references counted, under ASan+UBSan+LeakSanitizer",
  "VTK and ParaView are not installed; the stand-ins (harness/insitu) implement the parts of their interface the code uses.")
P("C02", "In-situ helpers report exactly what is there",
  "The scripts of an input file are exactly those it names, in order, each found beside the input file wherever that is; two images are alike exactly when both can be read, have the same width, height and channels and at most two percent of their samples differ; two files are identical exactly when all their bytes are; replacing changes the first occurrence and leaves a text without one unchanged; log files hold exactly what was logged, newly or appended; a timer tells the time between its latest start and its stop, and that a timer not stopped has none. None of them leaves memory or files behind.",
  ["inputs", "histories"], "every input file, image, file and text, every history of logging and timing",
  "There are no tests of it.",
  [CT + "utils/catalystUtils.hpp", CT + "utils/insituLog.hpp", CT + "utils/insituTimer.hpp"],
  [("getCatalystScripts, imageCompare, compareFiles", CT + "utils/catalystUtils.hpp"), ("InsituLog", CT + "utils/insituLog.hpp"), ("InsituTimer", CT + "utils/insituTimer.hpp")],
  ["returned lists, verdicts, texts and durations", "files written", "open files and unreleased memory"], None,
  "online differential monitor against independent references over generated files, images and histories, with open files counted, under ASan+UBSan+LeakSanitizer",
  "The bundled JSON and image libraries are exercised only through these helpers.")

P("T01", "Separate objects can be used from several threads at once",
  "Threads that each use their own objects (vectors, matrices, arrays and tuples; fixed-capacity vectors and views; points, shapes and solids; elements, quadrature rules and Jacobians; string, path and time helpers; Lua states), or only read objects they share, do not interfere: there is no data race and every call gives the result it gives when it runs alone. Failures that report on the standard error stream are outside this guarantee.",
  ["schedules", "inputs"], "every interleaving of any number of threads, every combination of the library's functions",
  "The tests are single threaded; hidden shared state (a cached result, a static scratch buffer, a lazily built table) gives right answers there.",
  ["ristra/math/matrix.h", "ristra/math/array.h", "ristra/math/multi_array.h", "ristra/math/general.h", "ristra/geometry/shapes/polygon.h", "ristra/geometry/shapes/polyhedron.h", "ristra/geometry/shapes/hexahedron.h", "ristra/elements/elements.cc", "ristra/utils/fixed_vector.h", "ristra/utils/array_view.h", "ristra/utils/string_utils.h", "ristra/embedded/embed_lua.h"],
  [("basis functions and quadrature tables", "ristra/elements/elements.cc"), ("matrix algebra", "ristra/math/matrix.h"), ("string splitting", "ristra/utils/string_utils.h"), ("interpreter state", "ristra/embedded/embed_lua.h")],
  ["results of every call, alone and in company"], None,
  "ThreadSanitizer over concurrent mixes of library calls, with an offline comparison of every result with the one observed alone",
  "Only shared state reached by the 11 kinds of jobs is seen; the Lua library itself is not instrumented.")
