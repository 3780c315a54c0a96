"""property id -> (module, function); what the manifest says about each check"""
PROPS = {
    "C01": ("bounds", "arithmetic"),
    "C02": ("propagate", "acyclic"),
    "C03": ("propagate", "cycles"),
    "C04": ("reach", "filtered"),
    "C05": ("edges", "direct_calls"),
    "C06": ("indirect", "indirect_calls"),
    "C07": ("compat", "compatible"),
    "C08": ("parse", "statements"),
    "C09": ("parse", "items"),
    "C10": ("parse", "types"),
    "C11": ("thumb", "steps"),
    "C12": ("thumb", "figure"),
    "C13": ("thumb", "targets"),
    "C14": ("machine", "machine_edges"),
    "C15": ("machine", "local_figures"),
    "C16": ("nodes", "function_nodes"),
    "C17": ("output", "dot"),
    "C18": ("output", "top"),
    "C19": ("wrapper", "wrapper"),
    "C20": ("build", "invocation"),
    "C21": ("output", "io_errors"),
    "C24": ("build", "artifacts"),
}
AI = "path-sensitive abstract interpretation of the MIR"
NOTE = "static analysis: sound relative to the library models of sa/models.py; loops are analysed for a generic iteration"
PAI = "abstract interpretation of the parser's MIR over abstract texts (sentence forms with holes for nested types, statements and items; induction over repetitions)"
PNOTE = "static analysis: for every text of the sentence forms of sa/props/parse.py; sound relative to the models of nom's combinators in sa/pstr.py"
TECH = {
    "C01": (AI + ", compared with decision-tree specifications", NOTE),
    "C02": (AI + " of the driver: the walk over the graph in dependency order, reductions over callees recognised as maxima, recorded values compared with a specification", NOTE),
    "C03": (AI + " of the driver: the walk over strongly connected components; classification, report and recorded values compared with a specification", NOTE),
    "C04": (AI + " of the driver: selection of the start, traversal and copy of the graph; every way to the bound computation classified", NOTE),
    "C05": (AI + " of the driver, effects on the call graph compared with a decision-tree specification per statement", NOTE),
    "C06": (AI + " of the driver: registration, marking and materialisation of function-pointer calls; guards compared with a specification per formatter fact", NOTE),
    "C07": (AI + ", compared with a decision-tree specification over all pairs of type kinds and an invariant of the pairwise loop", NOTE),
    "C08": (PAI + "; the statement and the rest of the text compared with the sentence form", PNOTE),
    "C09": (PAI + "; the item and the rest of the text compared with the sentence form", PNOTE),
    "C10": (PAI + "; the type, the rest of the text and the printed tape compared with the sentence form, near misses must be rejected", PNOTE),
    "C11": (AI + " of the decoder loop with a bit-precise guard domain (decision diagrams over the instruction's bits); the advance compared with the architecture for every encoding", NOTE),
    "C12": (AI + " of the decoder loop with a bit-precise guard domain; the change of the figure compared with an instruction table for every encoding", NOTE),
    "C13": (AI + " of the decoder loop with a bit-precise guard domain; recorded displacements compared with an instruction table for every encoding", NOTE),
    "C14": (AI + " of the driver: arguments of every machine code analysis, completeness of the loops over its results, guards compared with a specification", NOTE),
    "C15": (AI + " of the driver: decision tree of the local figure compared with the effects on every path, contradictory scenarios must be infeasible", NOTE),
    "C16": (AI + " of the driver; registrations of every name and node are matched, and the acceptance conditions of filters compared with a specification", NOTE),
    "C17": (AI + " with an output-tape domain; the tape is compared with a token grammar", NOTE),
    "C18": (AI + " with an output-tape domain and reduction/sort-order recognition", NOTE),
    "C19": (AI + " of the wrapper: the option loop as a state machine compared per option with its specification, the command and the reports compared on every path", NOTE),
    "C20": (AI + " of the driver: the build command as an abstract sequence of options, compared with the required one for every case of the command line; dominance of later effects by the build's success", NOTE),
    "C21": (AI + " with typestate of write results", NOTE),
    "C24": (AI + " of the driver: provenance of every analysed file; the search for the module recognised as a maximum over matching files", NOTE),
}
NA = {
    "C22": "compares the report with stack depths at run time; needs the hardware semantics and every execution of the analysed program, which no static argument over this tool's source can bound",
    "C23": "termination and absence of panics for every input depend on third-party parsers (xmas-elf, nom, petgraph) and unbounded recursion; assertions that stop the tool are intended behaviour",
}
