BASE = ("Obligations generated from /repo's source on every run, for all inputs and iterations; partial correctness. "
        "Trusts z3, the VC generator and its models of builtins, and the interface contracts (proved on the implementations by the other tasks). ")
MORE = {
    "C01": "Induction over the number of dice; counting lemma in Lean.",
    "C02": "Recurrences of the incremental selection proved on the code; that they count N-tuples is proved in Lean.",
    "C03": "Sum over pairs for arbitrary finite maps.",
    "C04": "Structured texts with any number of entries; ASCII digits.",
    "C05": "MIN/MAX of arguments sharing a variable is a listed finding.",
    "C06": "AND's roll is a listed finding; random.choices by contract.",
    "C07": "Structure of sharing is proved; the weight per reference is a listed finding.",
    "C08": "Versions are found by executing set_var on an arbitrary state.",
    "C09": "Floats as exact rationals.",
    "C10": "complies() of an impossible constraint is a listed finding; sets of constraints identified by their text.",
    "C11": "",
    "C12": "Loop invariants over the ghost state WORLD(k); no variable named stdout.",
    "C13": "Frame conditions on every operation and query.",
    "C14": "The float 1.1 of NOT's cost as 11/10.",
    "C15": "rply's driver is trusted; the LR table it builds is proved by induction over trees; ASCII texts.",
    "C17": "Printed form and contained variables of every kind of expression; the printed text is read as the same tokens again (automata over the code's token patterns).",
    "C16": "matplotlib and PIL by contract; the doubled comparison histogram is a listed finding.",
}
NOTES = {c: (BASE + m).strip() for c, m in MORE.items()}
TECH = {c: "; counting lemmas in Lean" for c in ("C01", "C02")}
TECH["C15"] = "; LR table proved by invariant and induction over trees"
LEVEL = {}
NOT_APPLICABLE = []
