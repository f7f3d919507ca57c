"""What every check trusts, assumes, and covers only in a bounded way."""
TRUSTED = [
    "z3 (its answer 'unsat'); Lean 4 and Mathlib for lemmas/*.lean",
    "vf/engine.py, loops.py, invariants.py: generation of obligations from the AST (symbolic execution of a Python subset; partial correctness)",
    "vf/models.py, strings.py, sums.py, regexes.py: contracts of Python's builtins and library functions (run against CPython by selftest/run.py)",
    "Python ints are mathematical integers (exact: they are unbounded); floats are treated as exact rationals (rounding excluded by the properties)",
    "the interface contracts used at call sites are those proved of the implementations by the other tasks; they are connected by name in vf/ifaces.py and vf/base.py",
]
ASSUMPTIONS = {
    "*": [
        "termination is not proved (except for the loop of the lexer); recursion depth and memory are not modelled",
        "generators and comprehensions are evaluated eagerly; dicts and sets follow __eq__/__hash__ (their agreement is C10)",
        "distributions and outcomes known only by interface are immutable values (that is C13)",
    ],
    "C01": ["the faces are those of get_single_dice_outcome_map's contract (proved for C04); at least one face with positive multiplicity"],
    "C02": ["list laws of sort/take/drop/sum used by the proof are the Lean theorems of lemmas/Dice.lean; faces as in C01"],
    "C03": ["operands share no variable: their constraint sets always combine (precondition of the property)"],
    "C04": ["re.findall and str.split by model on structured text; digits are ASCII"],
    "C05": ["MIN and MAX over arguments that share a variable: known finding C05-minmax"],
    "C06": ["random.choices is an independent weighted draw with replacement; AND: known finding C06-and"],
    "C07": ["weights: known finding C07-weight; nested VAR and variables named stdout are outside the contract"],
    "C08": ["variable names match the token pattern (letters and '_', no digits), so <name><number> names a version uniquely",
            "different constraint sets stay different when a constraint on a fresh version is added (proved over the meaning, assumed for identity of sets)"],
    "C09": ["counts are positive (as constructed by the other contracts)"],
    "C10": ["the text of a set of constraints determines the texts of its members (used by __eq__/__hash__ over texts)", "complies on the impossible constraint: known finding C10-complies"],
    "C12": ["contracts of parser and expressions by token (STEP/RESULT); no variable is called stdout"],
    "C13": ["get_constraint_result_map hands out the live map by design of the interface; callers inside the repository do not write to it (proved)"],
    "C14": ["the float 1.1 in the cost of NOT is treated as 11/10"],
    "C15": ["rply's LR driver and its lexer stream (trusted, third party); the LR table is the one rply builds from the productions and precedences in the code, and is then proved",
            "ASCII texts; the matcher of re is the ordered backtracking matcher"],
    "C16": ["pyplot, PIL and BytesIO by contract: hist draws at v the weights of the samples v if v is alone in its bin, plot draws its points, savefig stores the current figure",
            "comparison histogram doubled: known finding C16-double"],
    "C17": ["the matcher of re is the ordered backtracking matcher; ASCII texts; the list of what can stand before and after a token in printed text (vf/contracts/printing.py: tokens) is read off the proved forms by hand",
            "parsing the same tokens again gives the same tree (that is C15)"],
}
R = "random and small exhaustive inputs executed on the real code and compared with the independent reference of rt/ref.py for the seconds of the tier; "
BOUNDED_RULE = {
    "C01": R + "dice terms with few dice and small face lists",
    "C02": R + "keep/drop terms with few dice, small face lists, all K",
    "C03": R + "pairs of small outcome maps under every operator",
    "C04": R + "dice type texts with up to a few entries",
    "C05": R + "expressions of small depth",
    "C06": R + "expressions of small depth with recorded draws",
    "C07": R + "programs of a few lines with shared variables",
    "C08": R + "programs of a few lines with reassignments",
    "C09": R + "outcome maps of a few values with gaps",
    "C10": R + "sets of a few constraints over few variables, all orders",
    "C11": R + "dividends and divisors of few outcomes",
    "C12": R + "sequences of a few calls of short programs",
    "C13": R + "sequences of operations on shared objects",
    "C14": R + "expressions of small depth",
    "C15": R + "random lines from the grammar and mutations of them",
    "C17": R + "expressions of small depth: printed, parsed again, printed again",
    "C16": R + "plots of small distributions, with the plotting calls recorded",
}
LEVELS = {}
