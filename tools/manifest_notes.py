TECH = {"*": "static: path-partitioned abstract interpretation (constant propagation and value numbering) of generator, emitted code and library"}
NOTES = {"*": "The code is never run: driver programs are interpreted abstractly, with data symbolic, through the code the analysed generator emits for schema skeletons and through the library; a violation is reported only if every path at some region of the input gives another result. Bounded by the listed skeletons and drivers. Trusts the models of the Python built-ins and of pyang's statement API in /verif/sa; constructs the analysis cannot follow leave an obligation undecided (quiet), and the evidence lists those."}
NA = {
 "C32": "The property is about decimal arithmetic (quantize, contexts, float powers of ten) at run time, done by the decimal module and not by code of the repository that could be analysed.",
}
BOUND = {}
