"""Which contracts decide which property.  A task is (module, function, args)."""
OPS = ["__add__", "__sub__", "__mul__", "__floordiv__", "__equal__", "__not_equal__", "__lt__", "__le__",
       "__gt__", "__ge__", "__and__", "__or__", "max_operator", "min_operator"]
UNOPS = ["not_operator", "__abs__"]
EXPRS = ["add", "subtract", "multiply", "divide", "bin==", "bin!=", "bin<=", "bin<", "bin>=", "bin>", "binAND",
         "binOR", "MAX", "MIN", "abs", "not", "parenthesis"]
DIV = "__floordiv__"


def t(name, *args):
    mod, fn = name.split(".")
    return (mod, fn) + args


CONSTANTS = ["integer", "negative", "True", "False"]
CREATE = [t("construct.from_values"), t("construct.from_outcomes"), t("construct.empty"), t("construct.unconstrained"), t("construct.from_values", "default")]
PROGRAMS = ["roll", "max", "min", "get_probability_distributions_dict", "get_probability_distributions", "get_average",
            "get_histogram", "get_at_least_histogram", "get_at_most_histogram", "get_estimated_cost"]

KINDS = ["null", "impossible", "var"]
SETOPS = ["combine_sets", "add_constraint", "is_possible", "complies"]
QUERIES = ["get_constraint_result_map", "get_result_map", "get_dict_form", "at_least", "at_most", "max", "min", "average", "contains_zero"]
CONSTRAINTS = (
    [t("constraints.single", k) for k in KINDS] + [t("constraints.pair", a, b) for a in KINDS for b in KINDS]
    + [t("constraints.never_apart")] + [t("constraints.set_factory", k) for k in ("default", "given")]
    + [t("merging.merge_new"), t("merging.merge_all"), t("merging.build"), t("merging.equality")] + [t("merging.operate", o) for o in SETOPS]
)
STATE = [t("state.set_var"), t("state.constants")] + [
    t("state.version_order", o)
    for o in ("set_var", "set_constant", "get_var", "get_constant", "has_var", "has_constant", "get_var_dict", "get_constant_dict")
]


def OUT(*ops):
    return [t("outcome.binop", o) for o in ops] + [t("outcome.binop", o, "same") for o in ops]


def DIST(*ops):
    return [t("distribution.binop", o) for o in ops] + [t("distribution.binop", o, "same") for o in ops]


def KEEP(what):
    return [t("keep." + what, m, s) for m in ("keep", "drop") for s in ("number", "none")]


def VARS(*methods):
    return [t("variables." + f, m) for f in ("assign", "refer") for m in methods]


TASKS = {
    "C01": [t("dice.distribution", s) for s in ("number", "none")] + [t("dice.lemmas")]
    + OUT("__add__") + DIST("__add__") + [t("distribution.value_binop", "__add__")] + CREATE + [t("lemma.lean", "Dice")],
    "C02": KEEP("distribution") + KEEP("roll") + KEEP("extremes") + [t("lemma.lean", "Dice")],
    "C03": OUT(*OPS) + [t("outcome.unop", o) for o in UNOPS]
    + DIST(*OPS) + [t("distribution.unop", o) for o in UNOPS]
    + [t("distribution.value_binop", o) for o in OPS] + [t("distribution.value_binop", o, "same") for o in OPS if o != DIV] + [t("expression.distribution", e) for e in EXPRS]
    + [t("constants.distribution", c) for c in CONSTANTS] + CREATE,
    "C04": [t("dice_text.simple", s) for s in ("number", "%", "F")] + [t("dice_text.bracket")],
    "C05": [t("constants.value_of", c, "max", "min") for c in CONSTANTS] + [t("expression.extremes", e) for e in EXPRS] + [t("expression.minmax_lemma")] + [t("distribution.value_binop", o) for o in ("max_operator", "min_operator")] + [t("dice.extremes", s) for s in ("number", "none")]
    + VARS("max", "min") + KEEP("extremes") + [t("distribution.tables")],
    "C06": [t("constants.value_of", c, "roll") for c in CONSTANTS] + [t("expression.roll", e) for e in EXPRS] + [t("dice.roll", s) for s in ("number", "none")] + VARS("roll") + KEEP("roll"),
    "C07": STATE + VARS("get_probability_distribution") + CONSTRAINTS + DIST(*OPS)
    + [t("distribution.unop", o) for o in UNOPS],
    "C08": STATE + [t("construct.states")] + VARS("get_probability_distribution") + CONSTRAINTS,
    "C09": [t("distribution.tables")] + [t("distribution.cumulative", s) for s in ("at_least", "at_most")],
    "C10": CONSTRAINTS + [t("outcome.equality")] + OUT(*OPS) + [t("outcome.unop", o) for o in UNOPS],
    "C11": OUT(DIV) + DIST(DIV) + [t("expression.distribution", "divide"),
            t("expression.extremes", "divide"), t("expression.roll", "divide")],
    "C12": [t("interpreter.program", m) for m in PROGRAMS] + [t("interpreter.defaults", h) for h in ("nothing", "parser", "state factory")] + [t("construct.states")] + STATE,
    "C13": [t("frame.operation", o) for o in OPS + UNOPS + QUERIES] + [t("frame.outcome", o) for o in OPS + UNOPS] + STATE
    + [t("merging.merge_new"), t("merging.merge_all"), t("merging.build")] + [t("merging.operate", o) for o in SETOPS]
    + [t("constraints.single", k) for k in KINDS] + [t("constraints.pair", a, b) for a in KINDS for b in KINDS],
    "C14": [t("constants.value_of", c, "estimated_cost") for c in CONSTANTS] + [t("expression.cost", e) for e in EXPRS] + [t("dice.cost", s) for s in ("number", "none")] + VARS("estimated_cost") + KEEP("cost"),
    "C15": [t("parsing.tokens", h) for h in ("given", "default")] + [t("parsing.productions", h) for h in ("given", "default")] + [t("parsing.table"), t("parsing.refusal"), t("parsing.lexing")]
    + [t("parsing.entry", h) for h in ("no state", "given")],
    "C16": [t("plots.histogram", m) for m in ("get_histogram", "get_at_least_histogram", "get_at_most_histogram")] + [t("plots.compare_histogram")]
    + [t("plots.line_plot", m, s) for m in ("get_compare", "get_compare_at_least", "get_compare_at_most") for s in ("default", "given")]
    + [t("distribution.tables"), t("distribution.cumulative", "at_least"), t("distribution.cumulative", "at_most")],
    "C17": [t("printing.operator", e) for e in EXPRS] + [t("printing.leaf", k) for k in CONSTANTS + ["assign", "refer"]]
    + [t("printing.dice_text", k, s) for k in ("dice", "keep", "drop") for s in ("number", "none")]
    + [t("printing.tokens")],
}

for prop in ("C01", "C02", "C03", "C04", "C06", "C09", "C14", "C16"):  # their obligations have finite sums
    TASKS[prop] = TASKS[prop] + [t("lemma.lean", "Sums")]

ALL = ["C%02d" % k for k in range(1, 18)]


def task_name(task):
    return task[0] + "." + task[1] + "(" + ",".join(str(a) for a in task[2:]) + ")"
