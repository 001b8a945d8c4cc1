"""Which translation unit simulates what, and what is real or stubbed in it."""
STD_STUB = ["thread scheduling, mutexes, once-initialisation, clocks and sleeps (simulated, virtual)", "operator new/delete (simulated heap at a fixed address: seeded reuse, fill, failures)"]
STD_ASSUME = ["memory accesses inside precompiled libstdc++/libc code are not instrumented (their allocations, locks and C-locale calls are)", "clang -O0 code of the library is what is executed; weaker memory orders than sequential consistency are covered by the happens-before race check, not by executing them",
              "sampling, not enumeration: a clean batch is evidence, not proof"]
EXPR_REAL = ["stator run-time and compile-time expressions, parser, printing, simplify, derivative, sub, arrays, dictionaries (all of /repo/stator/symbolic reached from the parser and the runtime), stator::Exception, libstdc++ containers, strings and streams (instantiated with instrumentation)"]
WORLDS = {
    "expr": {"src": ["expr_world.cpp"]},
    "num": {"src": ["num_world.cpp"]},
    "ctn": {"src": ["ctn_world.cpp"]},
    "io": {"src": ["io_world.cpp"], "flags": ["-isystem", "@SIM@/shim"]},
    "xml": {"src": ["xml_world.cpp"], "flags": ["-isystem", "@SIM@/shim"]},
    "py": {"src": ["py_world.cpp"], "flags": ["-I@SIM@", "-I/usr/include/python3.12"], "libs": ["-lpython3.12", "-lexpat", "-lz", "-lm", "-ldl", "-lutil"]},
}
NUM_REAL = ["stator numeric library: root searches (stator/symbolic/numeric.hpp)"]
CHECKS = {
    "C01": {"world": "expr", "real": EXPR_REAL, "stub": STD_STUB, "assumptions": STD_ASSUME, "quick": 50},
    "C02": {"world": "num", "real": ["stator polynomials (arithmetic, roots, bounds, printing), compile-time expressions, automatic differentiation, Taylor series, intervals, root searches, StackVector, units, string helpers, arrays, geometric measures; the parts of Eigen and libstdc++ they instantiate"], "stub": STD_STUB, "assumptions": STD_ASSUME, "quick": 50},
    "C03": {"world": "expr", "real": EXPR_REAL, "stub": STD_STUB, "assumptions": STD_ASSUME, "quick": 50},
    "C04": {"world": "expr", "parts": [["expr", 0.44], ["num", 0.12], ["ctn", 0.09], ["xml", 0.14], ["io", 0.11], ["py", 0.10]],
            "real": EXPR_REAL + ["root searches, polynomials, automatic differentiation, stack vectors and the rest of the numeric library", "arrays and dictionaries of failing elements", "the XML wrapper and rapidxml", "printing to failing streams, number text under changing locales", "the Python module in an embedded CPython 3.12 (its own objects counted too)"],
            "stub": STD_STUB + ["objective functions, element types, files, streams and locales (simulated, failing at seeded points)", "the Python allocators (simulated)"], "assumptions": STD_ASSUME + ["outside run-time expressions only memory is judged: what an operation returns there belongs to the other properties"], "quick": 75},
    "C05": {"world": "ctn", "real": ["stator arrays (linear, row-major, fixed, dynamic), StackVector, Dict, ArrayRT/DictRT through Expr, Polynomial"], "stub": STD_STUB + ["element type (simulated: copies, assignments, constructions and comparisons fail at seeded points)"], "assumptions": STD_ASSUME, "quick": 50, "reference": "an executable model of each container (sequence, grid or map of element values) stepped alongside it"},
    "C06": {"world": "expr", "real": EXPR_REAL, "stub": STD_STUB, "assumptions": STD_ASSUME, "quick": 50},
    "C07": {"world": "expr", "real": EXPR_REAL, "stub": STD_STUB + ["storage of the text (simulated, damaged)"], "assumptions": STD_ASSUME, "quick": 50},
    "C08": {"world": "io", "real": EXPR_REAL + ["polynomial, matrix, array, interval and number printing", "XML attribute conversions (stator/xml.hpp)", "libstdc++ streams and locale facets (custom numpunct)"], "stub": STD_STUB + ["the C library's numeric locale (simulated: printf/strto* honour a seeded decimal character; the character classes become Latin-1's)"], "assumptions": STD_ASSUME, "quick": 50},
    "C09": {"world": "num", "real": NUM_REAL, "stub": STD_STUB + ["the objective function (simulated, misbehaving at seeded evaluations)"], "assumptions": STD_ASSUME, "quick": 50, "reference": "the recorded evaluations of the objective, and the same search with a well-behaved objective"},
    "C10": {"world": "io", "real": EXPR_REAL + ["printing operators of expressions, polynomials, stack vectors, compile-time expressions and constants", "libstdc++ ostream"], "stub": STD_STUB + ["the stream buffer (fails, throws, fails once or takes a short write at seeded bytes)"], "assumptions": STD_ASSUME, "quick": 50, "reference": "the same print to a healthy stream in a fresh simulated process"},
    "C11": {"world": "expr", "real": EXPR_REAL, "stub": STD_STUB, "assumptions": STD_ASSUME, "quick": 50},
    "C12": {"world": "xml", "real": ["stator XML wrapper (Document, Node, Attribute, paths, parse-error reports, Exception)", "the rapidxml parser (the copy shipped with the installed Boost)", "libstdc++ file streams, strings and streams"], "stub": STD_STUB + ["the file (simulated: short, interrupted and failing reads, failing seeks and stat, truncation, content that changes between reads)", "rapidxml's printer (not part of Boost's copy; a small replacement in sim/shim)"], "assumptions": STD_ASSUME, "quick": 50, "reference": "a small XML tree model of the generated document stepped through the same edits, and positions computed from the bytes delivered"},
    "C13": {"world": "py", "real": ["the binding module pysrc/stator/core.cpp, pybind11, the stator symbolic library", "CPython 3.12 (statically linked, not instrumented)"], "stub": STD_STUB + ["the Python allocators (fixed addresses, poisoned, never reused; failures at seeded points)", "the order of client calls, also from inside each other's argument conversions"], "assumptions": STD_ASSUME + ["allocation failures inside pybind11's own code are not injected: pybind11 itself terminates or dereferences null there"], "quick": 50, "reference": "the same operation through the C++ API"},
    "C15": {"world": "xml", "real": ["stator XML wrapper (Document, Node, Attribute, paths, Exception)", "the rapidxml parser (the copy shipped with the installed Boost)", "libstdc++ file streams, strings and streams"], "stub": STD_STUB + ["the files (simulated, one per loading thread)", "rapidxml's printer (not part of Boost's copy; a small replacement in sim/shim)"], "assumptions": STD_ASSUME, "quick": 40, "reference": "the same thread's calls alone in a fresh simulated process, and a small XML tree model stepped alongside each thread"},
    "C14": {"world": "expr", "real": EXPR_REAL, "stub": STD_STUB + ["disk (append log per client; only bytes written before the crash survive)"], "assumptions": STD_ASSUME, "quick": 50},
}
