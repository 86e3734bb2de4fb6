HOOK_COMMITS = ["712656e"]
TRACE = "TLA+ state machine of the search (BranchBound), TLC checks recorded searches of the solver against it (BBTrace)"
BOTH = TRACE + " and the design model (BBDesign)"
SAMPLED = ("Exploration of generated instances (sizes 3 to the built maximum, both modes, many weight scales, densities and "
           "probability patterns); every step of the recorded searches is checked by TLC against the specification. "
           "Trusts TLC, the generator's reach, and the recording hooks. ")
NOTES = {
    "C01": (BOTH, SAMPLED + "The design model shows that the demands on the steps give an optimal result on all searches of small instances."),
    "C02": (TRACE, SAMPLED + "The printed cycle and cost are read back from the solver's output."),
    "C03": (BOTH, SAMPLED + "Invariant: every better tour is in a live subproblem, after every event."),
    "C04": (TRACE, SAMPLED),
    "C05": (TRACE, SAMPLED + "Ties between equally near neighbours are allowed in every way."),
    "C06": (TRACE, SAMPLED),
    "C07": (TRACE, SAMPLED),
    "C08": (TRACE, SAMPLED),
    "C09": (TRACE, SAMPLED),
    "C10": (TRACE, SAMPLED + "The processor clock is virtual; jumps past the limit are placed at sampled and, on small instances, at all events."),
    "C11": (TRACE, SAMPLED),
    "C13": (TRACE, SAMPLED + "Minimality by the exchange property, on the adjusted weights of every logged relaxation."),
    "C26": (TRACE, SAMPLED),
}
GEN = "; behaviours generated by TLC are executed on the real code (under AddressSanitizer and UBSan) and recorded runs judged by TLC"
NOTES.update({
    "C12": ("TLA+ state machines of Prim and Kruskal (MstDesign) checked by TLC on all small graphs, trees of the real code judged by TLC (MstTrace)" ,
            "All graphs up to 4 vertices with 3 weights (thorough: 4), each in two random edge orders, and random graphs up to 64 vertices."),
    "C14": ("TLA+ state machine of sorting by exchanges (SortGen), sorted graphs of the real code judged by TLC (SortTrace)",
            "All sequences of up to 6 edges over 4 keys, 7 over 3, all orders of 6 keys (thorough 7), random edge lists up to 780 edges, both modes."),
    "C20": ("TLA+ service (Service): histories of solves generated by TLC (ServiceGen) run in single processes, answers followed by TLC (ServiceTrace)",
            "All histories of two requests over 6 instances and 4 memory contents for one pool, a selection for hundreds of other pools, longer ones; some with sanitizers, some with Kruskal."),
    "C21": ("TLA+ service (Service): answers of both modes to the same weights with 8 matrices of probabilities followed by TLC (ServiceTrace)",
            SAMPLED),
    "C15": ("TLA+ priority queue (PQueue)" + GEN, "All operation sequences up to a depth from several starting heaps, random ones of thousands of "
            "operations, and sequences that make the heap as degenerate as possible."),
    "C16": ("TLA+ equivalence classes (MergeFind)" + GEN, "All operation sequences up to a depth on up to 5 elements, random ones up to 60 elements."),
    "C17": ("TLA+ sequences (Seqs)" + GEN, "All operation sequences up to a depth for both lists, random ones with up to 150 operations."),
    "C18": ("TLA+ reading machine (Reader)" + GEN.replace("behaviours", "files").replace("executed on", "read by").replace("recorded runs", "the graphs"),
            "All matrix files of up to 4 vertices with few values, with and without one defect, random ones up to 20 vertices."),
    "C19": ("TLA+ reading machine (Reader); graphs read from generated TSPLIB files by the real code (under AddressSanitizer and UBSan) judged by TLC",
            "Random files up to 50 vertices in several layouts and other edge weight types. " + "Distances off the integer grid are compared in the driver."),
})
NOTES["C22"] = ("TLA+ driver pipeline (Pipeline); runs generated by TLC are executed by the real driver with stand-ins for build, network and solver, "
                "and followed by TLC (PipelineTrace); complete runs with the real build and solver",
                "All runs of up to 3 instances with every failure in the model, a selection executed. Model accuracy of the network itself is outside.")
NOTES["C23"] = ("TLA+ machine from the network's answer to the matrix (Network), checked by TLC; matrix files of the real program for generated "
                "and random answers (torch, model and clustering are stand-ins) judged by TLC (NetTrace)",
                "All answers of small models over few levels, random ones for the models of 20, 50 and 100 cities. The trained network is outside.")
NOTES["C24"] = ("TLA+ machine from solve to analysis (Report); folders generated by TLC are filled with result files of the real solver and read "
                "by the real analysis; TLC compares with what the solver knew (ReportTrace)",
                "All folders of up to 3 results by origin, interruption and improvements (thorough 4), every result file of thousands of solves, "
                "and the cycles of runs of the real driver. Profiles and tables are C27's.")
NOTES["C25"] = ("TLA+ machine of the conversion (Dat); coordinate files generated by TLC and random ones are converted by the real converter, the words "
                "of the data file followed by TLC (DatTrace)",
                "All files of up to 4 lines (thorough 5), random ones up to 30 cities. tsplib95 and networkx are stand-ins: their reading is outside.")
NOTES["C27"] = ("TLA+ sweep over the incumbents of both modes (Profile), checked by TLC against its definition; histories generated by TLC and random ones "
                "go through the real profiles, folders of result files of the real solver through the real analysis and tables, judged by TLC (ProfileTrace)",
                "All pairs of histories of two instances with up to 2 incumbents; random ones up to 14 instances. pandas and matplotlib are stand-ins, the "
                "p-values of scipy are taken as they are, drawings are outside.")
NOTES["C28"] = ("TLA+ machine of the calls of the network and rules of the question (Asked), checked by TLC; instances generated by TLC and random ones go through "
                "the real program with a recording stand-in for the model; the calls and questions are followed by TLC (AskedTrace)",
                "All instances of up to 5 places of a 3 x 3 grid with every number of neighbours (thorough 6), random ones for models up to 100. torch and the "
                "trained model are stand-ins; targets and class weights, which the answer does not depend on, are outside.")
NOT_APPLICABLE = {}
NOTES["C29"] = ("TLA+ layers of the network on integers (Convolution), on instances enumerated by TLC, which checks that they commute with renumbering (ConvGen); results of the "
                "real layers and of the network judged by TLC (ConvTrace)",
                "All instances of 2 cities and some of 3 with one feature, random ones of up to 6 cities and 3 features through the layers; networks of up to 5 layers for up "
                "to 16 cities, renumbered. torch is replaced by its operations on numpy.")
