"""What a run of the verifier takes for granted."""
BASE = [
    "clang 18 front end (lowers the C++ sources to LLVM IR; the IR of this run is the verified text)",
    "verifier in /verif/engine (IR semantics, path enumeration, loop cutting)",
    "z3 and cvc5 (an obligation counts as discharged when one of them answers unsat, or it simplifies to true)",
    "models of the C++ standard library and runtime in /verif/engine/stl.py",
    "specifications in /verif/contracts",
]
ASSUMPTIONS = [
    "partial correctness: termination is not proved",
    "closed world: virtual calls dispatch to the classes present in the lowered sources",
    "memory allocation never fails",
    "signed integer overflow wraps (the shipped build does not trap or exploit it)",
    "objects of namespace scope keep the value of their initialiser unless the contract says otherwise",
]
