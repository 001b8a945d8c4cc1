#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so the list stays reviewable)."""
import json, os
P=[]
def p(id,title,statement,over,text,why,files,mechanism,state=None,observe=None,hook=None):
    d={"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,
       "anchors":{"files":files,"mechanism":[{"name":a,"where":b} for a,b in mechanism]}}
    assert len(title)<=80,(id,len(title))
    if state: d["anchors"]["state"]=[{"name":a,"meaning":b,"where":c} for a,b,c in state]
    if observe: d["anchors"]["observe_at"]=observe
    d["anchors"]["hook_needed"]=hook
    P.append(d)
S="stator/symbolic/"
p("C01","Threads sharing runtime expressions see each call behave as if it ran alone",
  "When several threads use the same runtime expressions at once, only through operations that do not modify them (copying and dropping handles, comparing, hashing, printing as text or LaTeX, simplifying, differentiating, substituting, evaluating by substitution, combining into new expressions, reading arrays and dictionaries, parsing their own text, calls that fail with an exception), every call gives exactly the outcome it gives when executed alone in a fresh process. No interleaving of such calls contains a data race, a deadlock, a hang or a crash.",
  ["schedules","histories","programs"],
  "every interleaving, at memory-access granularity, of every small multi-threaded program over a set of shared runtime expressions",
  "The test-suite is single threaded: no schedule other than the serial one is ever run, and a race on a cache, a static or a reference count needs a particular overlap to show.",
  [S+"runtime.hpp",S+"parser.hpp",S+"binary_ops_rt.hpp",S+"unary_ops_rt.hpp",S+"array_rt.hpp",S+"dict_rt.hpp",S+"variable_rt.hpp",S+"constants_rt.hpp",S+"simplify.hpp","stator/repr.hpp","stator/hash.hpp","stator/string.hpp"],
  [("immutable nodes behind shared_ptr<const RTBase>",S+"runtime.hpp: Expr, RTBase"),("stateless visitors created per call",S+"runtime.hpp: SimplifyRT, SubstituteRT, DerivativeRT"),("atomic reference counts","std::shared_ptr")],
  [("reference counts of shared nodes","lifetime of every shared sub-expression",S+"runtime.hpp: Expr::Base")],
  ["outcome (value or exception) of every public call","every memory access made by library code"])
p("C02","Numeric and compile-time algebra calls are re-entrant across threads",
  "Polynomial arithmetic, evaluation, root finding and root bounding, fixed-order automatic differentiation, Taylor expansion, interval arithmetic, iterative root searches, geometric measures and container printing can run in any number of threads at once on shared read-only inputs, and every call gives exactly the outcome it gives when executed alone in a fresh process. No interleaving of such calls contains a data race, a deadlock, a hang or a crash, including the very first use of each function in the process.",
  ["schedules","histories"],
  "every interleaving, at memory-access granularity, of small multi-threaded programs of numeric-layer calls, including racing first calls",
  "Tests are single threaded; lazily initialised function-local statics and any hidden scratch state are only exposed by overlapping (first) calls.",
  [S+"polynomial.hpp",S+"numeric.hpp",S+"ad.hpp",S+"taylor.hpp",S+"interval.hpp",S+"uncertainty.hpp",S+"array.hpp","stator/orphan/stack_vector.hpp","stator/geometry/sphere.hpp","stator/geometry/box.hpp","stator/string.hpp"],
  [("results returned by value, no shared scratch buffers",S+"polynomial.hpp: solve_real_roots*"),("function-local static const limits with guarded initialisation",S+"polynomial.hpp: maxSqrt")],
  [("maxSqrt","largest safely squarable coefficient",S+"polynomial.hpp")],
  ["outcome of every public call","every memory access made by library code"])
p("C03","A failed allocation is reported as such and damages nothing",
  "If any memory allocation made during an operation on runtime expressions fails (parsing, printing, simplifying, differentiating, substituting, evaluating, comparing, hashing, arithmetic, array and dictionary construction), the call either reports the memory failure as an exception or gives exactly the outcome it gives without the failure: it never terminates the process and never returns a truncated, partial or otherwise different result. All expressions that existed before the call are unchanged, and repeating the call once memory is available gives the normal outcome.",
  ["fault_sequences","histories","inputs"],
  "every placement of single, repeated, persistent and size-dependent allocation failures inside every operation of every operation history",
  "No test makes an allocation fail; each operation contains tens to thousands of allocation points and the outcome depends on which one fails.",
  [S+"runtime.hpp",S+"parser.hpp",S+"binary_ops_rt.hpp",S+"unary_ops_rt.hpp",S+"array.hpp",S+"array_rt.hpp",S+"dict.hpp",S+"dict_rt.hpp",S+"variable_rt.hpp",S+"constants_rt.hpp","stator/repr.hpp","stator/string.hpp","stator/exception.hpp"],
  [("RAII ownership everywhere, results built before being published",S+"runtime.hpp"),("no observable mutation of operands",S+"runtime.hpp")],
  None,["outcome of the faulted call","structure of every other live expression after it","outcome of the retried call"])
p("C04","Every operation history gives back all the memory it took, exactly once",
  "After any history of library operations, including operations that fail part-way (parse errors, bad casts, mismatched dimensions, failed allocations, failing user callbacks) and whatever order threads drop their handles in, once all results are released no memory obtained by the library remains unreachable, repeating the same history does not make memory use grow, and no memory is used after release, released twice or accessed outside its bounds.",
  ["histories","fault_sequences","schedules"],
  "every sequence of operations, failures and handle releases, over one or several threads",
  "Tests run without any heap accounting, exit right after the last assertion, and almost never take the failure paths.",
  [S+"runtime.hpp",S+"parser.hpp",S+"array_rt.hpp",S+"dict_rt.hpp",S+"constants_rt.hpp",S+"ad.hpp","stator/exception.hpp","stator/string.hpp"],
  [("shared_ptr ownership without cycles",S+"runtime.hpp: Expr"),("unique_ptr token tables and buffers",S+"parser.hpp, stator/string.hpp"),("virtual destructors of node and token base classes",S+"runtime.hpp, "+S+"parser.hpp")],
  None,["every allocation and release","every heap access"])
p("C05","Containers stay consistent when an element operation or allocation fails",
  "When an element's construction, copy, assignment or comparison throws, or an allocation fails, part-way through an operation on an array (linear or row-major, of fixed capacity used within it or dynamic), stack vector, dictionary or polynomial, the exception reaches the caller and the container stays consistent: its reported size and dimensions always match the elements that can be iterated, and every element is one it held before or one that was being stored. An append or resize of an array that fails leaves the array exactly as it was in size and content, and the container stays usable afterwards.",
  ["fault_sequences","histories"],
  "every position at which an element operation or allocation can fail in every history of container operations",
  "Tests only use elements that never throw and allocations that never fail.",
  [S+"array.hpp",S+"array_rt.hpp",S+"dict.hpp",S+"dict_rt.hpp","stator/orphan/stack_vector.hpp",S+"polynomial.hpp"],
  [("size bookkeeping next to element storage",S+"array.hpp: resize, push_back; stator/orphan/stack_vector.hpp: push_back, extend")],
  [("_dimension/_dimensions","logical size of an array",S+"array.hpp"),("_size","elements in a stack vector","stator/orphan/stack_vector.hpp")],
  ["size, dimensions, iteration and element values after each operation"])
p("C06","A caught library error can always be read, completely, by anyone holding it",
  "Reading the message of a caught library error never throws, never terminates the process and never modifies anything visible to another reader, however little memory is left and however many threads hold the same error object; every read of it returns the same text, which stays valid while the error lives and equals the text of the same failing call executed alone. If memory runs out while an error is being raised, the caller still receives an exception.",
  ["schedules","fault_sequences"],
  "every interleaving of readers sharing one error object and every allocation failure while an error is raised, copied or read",
  "Tests at most check that an error is thrown; none reads one from two threads or with memory exhausted.",
  ["stator/exception.hpp"],
  [("message text stored in the exception object","stator/exception.hpp: what, operator<<, copy constructor")],
  [("message text","complete description of the error","stator/exception.hpp")],
  ["what() text and address stability","termination","accesses made by what()"])
p("C07","Damaged expression text is rejected cleanly or loads as a sound expression",
  "However a stored or transmitted expression text (of up to 4 kilobytes) is damaged (truncated, torn, bit-flipped, zero-filled, spliced, duplicated, reordered), loading it either fails with an ordinary exception or yields an expression that can be printed, compared, hashed, simplified, differentiated and released like any other: it never crashes, never hangs, never reads outside the text and never loses memory. Loading an undamaged text gives the same outcome whatever damaged texts were loaded before it or are being loaded alongside it.",
  ["fault_sequences","histories","inputs"],
  "every damage pattern applied to every record of every stored collection, in every load order",
  "Tests parse a fixed list of well-formed strings and a couple of malformed ones, never in sequence with damaged neighbours.",
  [S+"parser.hpp",S+"runtime.hpp"],
  [("tokeniser bounds checks and error reporting",S+"parser.hpp: ExprTokenizer::consume, consumeFloat, parserLoc, expect"),("per-call tokeniser state",S+"parser.hpp: Expr(const std::string&)")],
  None,["outcome of each load","heap accesses","steps used"])
p("C08","Number text is independent of the ambient locale, whenever it changes",
  "The text the library prints for numbers, polynomials, matrices, arrays and expressions, the expressions it reads from text, the numbers it reads from and writes into XML attributes, and the text of its error messages do not depend on the process-wide C++ or C locale, even if that locale is changed by the application between any two steps of a call. The library never changes that ambient state itself.",
  ["configurations","schedules","fault_sequences"],
  "every locale configuration (decimal and grouping characters, character classes) and every instant at which it may change during a call",
  "Tests run in the C locale only and never change it.",
  ["stator/repr.hpp","stator/string.hpp","stator/exception.hpp",S+"parser.hpp",S+"polynomial.hpp",S+"symbolic.hpp","stator/xml.hpp"],
  [("number formatting",'stator/repr.hpp: repr(Float); stator/string.hpp: string_format'),("number parsing",S+"parser.hpp: parseToken")],
  None,["printed text","parsed value","ambient locale after the call"])
p("C09","Root searches survive a misbehaving objective function",
  "For every objective function, including one that returns NaN or infinities, jumps, stays constant or throws at any evaluation, the Newton-Raphson, Halley and bisection searches stop: with an iteration limit after a number of evaluations proportional to that limit, and without one within a bounded number of evaluations once the objective returns only NaN or infinity. For a starting point within the bounds the objective is only evaluated within them; success is reported only with a finite point within the bounds at which the objective was actually evaluated and was not NaN, and an exception thrown by the objective reaches the caller unchanged.",
  ["fault_sequences","inputs"],
  "every sequence of faulty objective evaluations over every starting point, bounds, iteration limit and precision",
  "Tests only use smooth, well-behaved objective functions.",
  [S+"numeric.hpp",S+"polynomial.hpp"],
  [("step acceptance and bound bookkeeping",S+"numeric.hpp: process_iterative_step, bisection_step"),("iteration cap",S+"numeric.hpp: newton_raphson, halleys_method, bisection")],
  [("low_bound/high_bound","bracket of the root",S+"numeric.hpp")],
  ["every objective evaluation (argument, count)","returned flag and point"])
p("C10","Printing to a failing output stream loses only what the stream lost",
  "When the output stream given to the library's printing operators fails or throws at any byte, the caller sees that through the stream in the usual way, the bytes delivered before the failure are a prefix of the full text, the printed object is unchanged, and printing it again to a healthy stream gives the full text. Printing leaves the stream's formatting settings (flags, precision, fill, locale) as the caller set them.",
  ["fault_sequences","configurations"],
  "every byte position and failure mode of the output stream, for every printable type and stream configuration",
  "Tests print only to in-memory streams that never fail.",
  [S+"symbolic.hpp","stator/orphan/stack_vector.hpp",S+"polynomial.hpp",S+"precision.hpp","stator/exception.hpp"],
  [("operator<< via repr",S+"symbolic.hpp"),("operator<< of StackVector","stator/orphan/stack_vector.hpp")],
  None,["bytes received by the stream buffer","stream state and exceptions","object afterwards"])
p("C11","Outcomes depend on the operands' values, not on history or memory layout",
  "Any operation on runtime expressions gives the same outcome whatever operations (successful or failed) were executed before it in the process and wherever its operands happen to lie in memory, including at addresses previously used by released expressions. Expressions that are structurally equal compare equal, hash equally (not-a-number values aside), are interchangeable as dictionary keys and give structurally equal results, no matter how, when or in what insertion order they were built.",
  ["histories","configurations"],
  "every preceding history and every placement of objects in memory (including address reuse) for every operation",
  "Tests build each operand once, in one order, in one heap layout, and never reuse addresses deliberately.",
  [S+"runtime.hpp",S+"dict.hpp",S+"dict_rt.hpp",S+"array_rt.hpp",S+"variable_rt.hpp","stator/hash.hpp",S+"parser.hpp"],
  [("structural equality and value-based hashes",S+"runtime.hpp: operator==, std::hash<Expr>; "+S+"dict.hpp: std::hash<Dict>")],
  None,["outcome of each operation after the history vs. in a fresh process","equality and hash of equal expressions"])
p("C12","Loading an XML file under I/O faults fails cleanly or yields what was read",
  "Loading an XML document from a file that is missing, empty, unseekable, truncated, bit-flipped, shrinking or growing, or whose reads fail part-way, ends in an ordinary exception or in a document whose content is that of the bytes actually read: it never crashes, hangs, exhausts memory or reads outside the data. Navigating, converting and editing the loaded document reports missing items as errors with the right location, and a failed operation leaves the document usable.",
  ["fault_sequences","histories"],
  "every fault placed in the file's reads, and every navigation/edit history over the loaded document",
  "No test includes the XML support at all.",
  ["stator/xml.hpp"],
  [("file loading and error reporting","stator/xml.hpp: Document, Node, Attribute")],
  None,["outcome of the load","navigation results against a reference tree"])
p("C13","Python clients: faults in conversions or memory never corrupt shared objects",
  "For every history of calls made by several Python clients sharing expressions, numbers, lists and dictionaries through the Python module, with allocations failing or conversion arguments misbehaving at any point, every call either raises a Python exception or returns the value the documented operation gives on its operands (operand order respected for reflected operators); objects not named as the target of a mutation are unchanged, the interpreter never crashes, and repeating a failed call without the fault gives the normal value.",
  ["fault_sequences","histories","schedules"],
  "every interleaving of client calls and every placement of allocation or conversion failures inside them",
  "The Python tests run one short fault-free script.",
  ["pysrc/stator/core.cpp","pysrc/stator/__init__.py",S+"runtime.hpp"],
  [("binding of operators, indexing, iteration and conversions","pysrc/stator/core.cpp")],
  None,["value or exception of each Python call against a reference model"])
p("C14","Saved expressions survive a crash and restart with their value intact",
  "An expression of finite numbers, variables, arithmetic, powers, equality, sin, cos, exp, ln, units, uncertainties, lists, dictionaries and indexing that is saved as text whose bytes are completely stored before a crash is recovered, by a freshly started process that loads that text, as an expression with the same value for all variable values and the same text when saved again, and numbers are recovered to the last bit. A record only partly stored at the crash affects no other record.",
  ["crash_points","histories","inputs"],
  "every crash point in every history of saving expressions, followed by recovery in a fresh process",
  "Tests compare a handful of hand-written strings with their printed form in one process lifetime.",
  [S+"runtime.hpp",S+"parser.hpp","stator/repr.hpp",S+"binary_ops.hpp",S+"unary_ops.hpp",S+"symbolic.hpp"],
  [("printing with minimal parentheses and full precision",S+"runtime.hpp: ReprVisitor; stator/repr.hpp"),("Pratt parser binding powers",S+"parser.hpp; "+S+"binary_ops.hpp")],
  None,["value of the recovered expression evaluated by an independent evaluator","text saved again"])
p("C15","Threads reading one loaded XML document each see what they would see alone",
  "When several threads share one loaded XML document and only read it (finding nodes and attributes, stepping through siblings and parents, reading names, values and paths, converting attribute values, printing, and failing on missing items), while other threads load, navigate and edit documents of their own, every call gives exactly the outcome it gives when executed alone in a fresh process, also when another thread's calls run out of memory. No interleaving of such calls contains a data race, a deadlock, a hang or a crash.",
  ["schedules","histories","fault_sequences"],
  "every interleaving, at memory-access granularity, of small multi-threaded programs over one shared and several private documents",
  "No test includes the XML support, and no test uses more than one thread.",
  ["stator/xml.hpp","stator/exception.hpp"],
  [("navigation without hidden state","stator/xml.hpp: Node, Attribute"),("document owned by one object and not changed by reading it","stator/xml.hpp: Document")],
  None,["outcome (value or exception) of every public call","every memory access made by library code"])
# --- pure properties: listed, not claimed -------------------------------------------------
def q(id,title,st,files,mech):
    p(id,title,st,["inputs"],"every input of the functions concerned","Inputs are unbounded; tests sample a few.",files,mech)
q("C30","Symbolic derivatives are correct","The derivative of every expression with respect to a variable evaluates, wherever both are defined, to the true derivative of the expression's value.",[S+"symbolic.hpp",S+"binary_ops.hpp",S+"unary_ops.hpp"],[("derivative rules",S+"binary_ops.hpp")])
q("C31","Simplification preserves value","Simplifying an expression never changes its value at any point where the original is defined.",[S+"runtime.hpp",S+"simplify.hpp"],[("identity and folding rules",S+"runtime.hpp: SimplifyRT")])
q("C32","Substitution is capture-free replacement","Substituting a value or expression for a variable replaces exactly the occurrences of that variable.",[S+"sub.hpp",S+"runtime.hpp"],[("substitution visitors",S+"runtime.hpp")])
q("C33","The parser honours operator precedence and associativity","Expression text is parsed with the documented precedence and associativity of every operator.",[S+"parser.hpp",S+"binary_ops.hpp"],[("binding powers",S+"binary_ops.hpp")])
q("C34","Polynomial real roots are complete and accurate","The real-root solvers return all real roots, with multiplicity where documented, to the stated precision and in order.",[S+"polynomial.hpp"],[("bounders and bisectors",S+"polynomial.hpp")])
q("C35","Automatic differentiation and Taylor series match the true derivatives","Automatic differentiation and Taylor expansion give the coefficients of the true Taylor series to rounding error.",[S+"ad.hpp",S+"taylor.hpp"],[("AD recurrences",S+"ad.hpp")])
q("C36","Interval results enclose every possible value","An interval operation's result contains every value obtainable from values inside its operands.",[S+"interval.hpp"],[("interval rules",S+"interval.hpp")])
q("C37","Units are tracked through arithmetic","Arithmetic on quantities with units combines both values and units consistently.",[S+"units.hpp"],[("units rules",S+"units.hpp")])
q("C38","Compile-time and run-time algebra agree","An expression built at compile time and the same expression converted to run time evaluate, differentiate and simplify to the same value.",[S+"symbolic.hpp",S+"runtime.hpp"],[("conversion",S+"runtime.hpp: Expr constructors")])
q("C39","Geometric intersection predicates are exact for all configurations","Ray and shape intersection functions return the first crossing for all positions and directions.",["stator/geometry"],[("polynomial intersection",'stator/geometry')])
open(os.path.join(os.path.dirname(__file__),"..","properties.jsonl"),"w").write("".join(json.dumps(x)+"\n" for x in P))
print(len(P))
