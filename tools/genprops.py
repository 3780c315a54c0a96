"""Writes properties.jsonl."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def p(id, title, statement, over, qtext, why, files, mech):
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
              "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}})


M, TH, IR = "src/main.rs", "src/thumb.rs", "src/ir.rs"
p("C01", "Arithmetic of stack bounds keeps every unknown visible",
  "Adding and maximising stack figures gives the exact sum or maximum of the numbers. The result is marked exact only when every figure that went into it was exact; a lower bound or an unknown figure always makes the result a lower bound, an unknown figure counting as zero bytes. The maximum of a sequence takes every element into account, whatever their number and order, and an empty sequence has no maximum.",
  ["inputs"], "all figures, exact or not, and all sequences of bounds", "the tool's tests only look at two exact figures of small programs; the marker matters in combinations no firmware example produces",
  [M], [("maximum of two bounds and of a sequence", "src/main.rs max, max_of"), ("sums of bounds", "src/main.rs impl Add for Max"), ("conversion of a local figure", "src/main.rs impl Into<Max> for Local")])
p("C02", "Without recursion a function's bound is its own usage plus the worst callee's",
  "In a call graph without cycles every node receives a cumulative bound: its local usage plus the maximum of the cumulative bounds of all its direct callees, or its local usage alone when it calls nothing. A node is treated only after all its callees. The bounds are computed for every node whenever the compiler recorded the stack usage of at least one function, and for none otherwise.",
  ["programs"], "all acyclic call graphs with any mixture of known and unknown local usage", "the end-to-end tests check the bound of the entry point of a few tiny graphs; wrong neighbours, orders or skipped nodes show only on other shapes",
  [M], [("acyclic propagation", "src/main.rs run(): Topo over Reversed(&g)")])
p("C03", "Recursion is detected and its bound is exact only if it uses no stack",
  "When the call graph has a cycle, every strongly connected component that has several members or a function calling itself is reported as a cycle, and no other. All members of a cycle receive the same bound: the largest local usage in the cycle, marked as a lower bound unless it is an exact zero, plus the largest bound of the callees outside the cycle, if any. Functions outside cycles still get their own usage plus the maximum over all their callees.",
  ["programs"], "all call graphs with cycles", "the test suite has one two-function cycle; self recursion, nested components, cycles with callees and mixed exactness are not sampled",
  [M], [("component loop", "src/main.rs run(): kosaraju_scc")])
p("C04", "A start point restricts the analysis to exactly what is reachable from it",
  "When a start function is given and found, the analysed graph consists of exactly the functions reachable from it, once each and unchanged, with exactly the calls between them. The start is found by exact symbol name or else by unhashed path when this matches a single function; when it is not found or ambiguous, an error is logged and the whole graph is analysed. Without a start the graph is left unfiltered.",
  ["programs", "configurations"], "all graphs and all start arguments", "no test passes a start point",
  [M], [("start lookup and graph copy", "src/main.rs run(): Dfs, one2two")])
p("C05", "Every direct call in the intermediate code becomes an edge of the call graph",
  "For every function definition that survived linking, every direct call yields an edge from the caller to the node of the called symbol, resolved through symbol aliases, unless the callee is a compiler intrinsic known to produce no call. Memory intrinsics yield edges to all library routines present that may implement them; on targets whose machine code is analysed intrinsics are left to that analysis. A call to an undefined external symbol leads to a node of unknown usage, at most one per symbol, and parallel calls produce one edge.",
  ["programs"], "all modules, symbol tables and targets", "tests cover a handful of programs; a call dropped for one intrinsic, alias or target remains invisible there",
  [M], [("edge construction", "src/main.rs run(): Stmt::DirectCall, Stmt::BitcastCall")])
p("C06", "An indirect call may reach every function of compatible type",
  "Every indirect call of a surviving function marks all registered signatures compatible with the call's signature as called by that function. For every called signature one function-pointer node with zero own usage is added, with an edge from every caller and an edge to every function registered under that signature. Every defined or declared surviving function with type information is registered under its signature, and if some symbol has no type information every function-pointer node also gets an edge to an unknown function.",
  ["programs"], "all sets of functions, signatures and indirect calls", "the tests contain few function types; a callee missing for some signature, or an unknown symbol ignored, needs other programs",
  [M], [("registration and indirect edges", "src/main.rs run(): indirects")])
p("C07", "Two signatures are compatible exactly when all parameter and result types agree",
  "Two function signatures are compatible if and only if they have the same number of parameters, the parameters agree pairwise, and either both return nothing or both return types that agree. Two types agree if they are equal, or if both are pointers of which at least one is opaque. In particular compatibility is symmetric and reflexive.",
  ["inputs"], "all pairs of types and signatures", "the parser tests never compare types; the end-to-end tests compare few and equal ones",
  ["src/ir.rs", "src/ir/ty.rs"], [("compatibility of signatures", "src/ir.rs FnSig::loosely_equal"), ("compatibility of types", "src/ir/ty.rs Type::loosely_equal")])
p("C08", "No call statement of a function body is lost or misread",
  "Parsing a function definition yields one statement per line of its body, in order. Every line that performs a call - plain, tail, invoking or assigning its result, to a named function, through a local value, through a cast constant, or to inline assembly - is reported as a call of that kind with the callee's name or its signature as written. A line that is no call is never reported as one, and a line that is a call is never skipped as something else: it is either understood or an error.",
  ["inputs"], "all function bodies", "the unit tests quote a few lines; the grammar has many combinations of attributes, conventions, types and callees",
  ["src/ir/define.rs"], [("statement parser", "src/ir/define.rs stmt, direct_call, indirect_call, bitcast_call, other")])
p("C09", "Module items are recognised with the right name and signature",
  "Parsing a module yields its items in order: each function definition with its name, signature and statements, and each function declaration with its name and (LLVM intrinsics, which are no functions of the program, aside) signature. Names are reported without sigil and quotes. Every other top-level line is recognised as what it is by its leading keyword and skipped without swallowing a following line; a module that cannot be parsed to its end is an error.",
  ["inputs"], "all modules", "the unit tests quote a few items; linkage, attribute and argument combinations are open-ended",
  ["src/ir.rs", "src/ir/item.rs", "src/ir/define.rs"], [("module parser", "src/ir.rs items, parse"), ("declarations", "src/ir/item.rs declare"), ("definitions", "src/ir/define.rs parse")])
p("C10", "Types are read and printed faithfully",
  "Every type of the supported grammar is parsed to the type it denotes, with all nested element and parameter types, bit widths, lengths and pointer levels, consuming exactly its text. Printing a type writes each component once, in order, so that different types print differently. A text that is no type is not accepted as one.",
  ["inputs"], "all type expressions, to any nesting", "unit tests check single examples; nesting and combinations are unbounded",
  ["src/ir/ty.rs", "src/ir.rs"], [("type parser", "src/ir/ty.rs type_"), ("printing", "src/ir/ty.rs Display")])
p("C11", "Machine code is walked instruction by instruction",
  "The walk over a function's machine code advances by two bytes over every halfword that is a complete instruction and by four over every 32-bit instruction, as the architecture defines them. Regions that the symbol table marks as data are skipped entirely and nothing in them is interpreted; the walk covers the function up to its end.",
  ["inputs"], "all halfwords, all layouts of code and data", "the firmware examples contain a small part of the instruction set and few data layouts",
  [TH], [("decoder loop", "src/thumb.rs analyze")])
p("C12", "Stack adjustments are recognised with the right size and never missed",
  "Every instruction in the supported set that pushes registers or lowers the stack pointer by a constant adds exactly its number of bytes to the function's stack figure, and the function is reported as modifying the stack pointer. The figure is withheld when the function contains a branch that makes a linear sum meaningless. No other instruction changes the figure.",
  ["inputs"], "all encodings of 16-bit and 32-bit instructions", "the firmware examples use a few prologues",
  [TH], [("prologue patterns", "src/thumb.rs analyze: PUSH, SUB SP, VPUSH, STMDB")])
p("C13", "Branch and call targets are decoded exactly",
  "For every direct call instruction and every direct branch the reported displacement is exactly the one the architecture defines for its encoding. A register branch that may call a function is reported as an indirect call, and a return is not. Nothing else is reported as a call or branch.",
  ["inputs"], "all encodings of direct and indirect branches", "the firmware examples contain only near targets; sign extension and bit placement show in far or backward ones",
  [TH], [("branch patterns", "src/thumb.rs analyze: B, BL, BLX, BX")])
p("C14", "Calls found in machine code become edges of the call graph",
  "On targets whose machine code is analysed, every function of the symbol table is analysed with its own bytes and address; every call it contains, and every branch that leaves the function, becomes an edge to the function at the target address, at most one per pair. An unconditional or conditional branch inside the function is no call. A function without type information that makes an indirect call gets an edge to an unknown function.",
  ["programs"], "all programs and symbol tables", "the tests look at very few edges of small programs",
  [M], [("machine-code edges", "src/main.rs run(): thumb::analyze results")])
p("C15", "The local stack figure of a function is the most trustworthy one available",
  "A function's local usage is the compiler's figure recorded for its canonical name, and unknown without one. On targets whose machine code is analysed a missing figure is replaced by the analysed one, or by zero when the code does not touch the stack pointer, and the compiler's figure is overridden only for functions containing inline assembly or produced by outlining when it disagrees. A function whose extent is unknown (its symbol has no size and no two mapping symbols bound it) keeps what the compiler recorded. Contradictory figures otherwise stop the analysis.",
  ["programs"], "all combinations of recorded and analysed figures", "tests see consistent figures only",
  [M], [("selection of the local figure", "src/main.rs run()")])
p("C16", "Every function symbol is one node with a canonical, unambiguous name",
  "Every address of the symbol table that holds a function is exactly one node; all its names, without mapping symbols, lead to that node, and its canonical name is one that has stack information when there is one. The hash suffix of a shown name is dropped only if the name then still identifies a single function. Figures and definitions are taken from both the program and the compiler support library.",
  ["programs"], "all symbol tables", "tests have few aliases and no ambiguous names",
  [M], [("node creation", "src/main.rs run()"), ("name shortening", "src/main.rs dehash, run()")])
p("C17", "The DOT output shows the whole graph faithfully",
  "The DOT output is one well-formed digraph: every node is listed once with its number, demangled name with quotes escaped, cumulative bound when there is one (`=` for exact, `>=` for a lower bound) and local usage (`?` when unknown), dashed for function pointers. Every edge is listed once from caller to callee, and every cycle is a cluster listing all its members.",
  ["programs"], "all graphs and cycles", "tests grep one or two lines of the output of small programs",
  [M], [("DOT printer", "src/main.rs dot"), ("label escaping", "src/main.rs Escaper")])
p("C18", "The top output lists every function by decreasing usage under the true maximum",
  "The top output starts with the largest cumulative bound over all nodes, followed by the column titles and one line per node with its own usage and demangled name. Lines are sorted by decreasing own usage. Nodes of unknown usage are listed as zero.",
  ["programs"], "all graphs", "no test uses this format",
  [M], [("top printer", "src/main.rs top")])
p("C19", "The compiler wrapper passes invocations through and reports the support library",
  "The wrapper runs the compiler it was given with all original arguments in order, plus the flag that emits stack sizes, plus the flag that emits intermediate code exactly when the support library itself is compiled, and returns the compiler's exit code. Whenever a linked support library is named on the command line its path is reported, and when the support library is compiled the path of its intermediate code is reported as output directory, crate name and extra file name. Missing mandatory arguments are an error.",
  ["inputs", "configurations"], "all compiler command lines", "tests run it with the arguments one Cargo version produces",
  ["src/wrapper.rs"], [("wrapper", "src/wrapper.rs wrapper"), ("argument parser", "src/wrapper.rs RustcArgs::parse")])
p("C20", "The build is run as requested and its failure is reported",
  "The program is built with the requested target, features and binary or example in release mode with the flags the analysis needs; naming neither or both of binary and example is an error. If the build fails the tool analyses nothing and exits with the build's exit code; compiler messages other than the wrapper's reports are passed on. The analysis assumes the target that is built: the one given by flag, else the one configured for the project, else the host. Unsupported toolchains are refused unless explicitly overridden, and any error leads to a non-zero exit code.",
  ["configurations", "fault_sequences"], "all command lines and build outcomes", "tests use one command line and successful builds",
  [M], [("build invocation", "src/main.rs run()"), ("exit code", "src/main.rs main")])
p("C21", "A failed write of the output is never ignored",
  "If any write of the report fails, the printing stops and the failure is returned. Success is reported only when every write succeeded, including the ones made while labels are escaped, and none of the text is left in a buffer that is yet to be written.",
  ["fault_sequences"], "every position at which writing may fail", "tests never make a write fail",
  [M], [("printers", "src/main.rs dot, top"), ("label escaping", "src/main.rs Escaper")])
p("C24", "The artefacts of the requested program's build are the ones analysed",
  "Machine code and symbols are read from the executable of the requested binary or example for the requested target in release mode. Intermediate code is read from the newest module that belongs to this program in the directory into which the compiler puts it, stack sizes from the object file of that same module and from the support library, and the support library's parts are the ones the build reported last. No module of another program and no older one is used.",
  ["configurations", "inputs"], "all directory contents and orders, and all build reports", "tests find one module in a fresh directory",
  [M], [("artefact paths", "src/main.rs run()"), ("selection of the module", "src/main.rs run(): loop over the directory")])
p("C22", "The reported bound is never below the stack the program really uses",
  "For every program and every execution the bound of the entry point, when marked exact, is at least the number of stack bytes the execution uses.",
  ["programs", "schedules"], "all programs and all their executions", "needs every execution of every program",
  [M, TH], [("whole analysis", "src/main.rs run()")])
p("C23", "The analysis always terminates and does not crash on valid input",
  "For every valid executable and module the tool terminates with a report or a diagnosed error, without crashing.",
  ["inputs"], "all executables and modules", "needs every input",
  [M, TH, IR], [("whole analysis", "src/main.rs run()")])

with open(V + "/properties.jsonl", "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["id"] + str(len(x["title"]))
        f.write(json.dumps(x) + "\n")
print(len(P))
