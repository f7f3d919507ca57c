"""The parser: every line has the one tree of the language, everything else is
rejected with ValueError.

PythonDiceParser.__init__ and PythonDiceLexer.__init__ are executed; the generator
classes of rply are known by contract (they record productions, precedences and
token patterns).  Then
 * every production function builds the node of its rule from the right symbols,
 * the LR table rply makes from exactly these productions and precedences is proved
   right for token sequences of any length: every reduction it can make yields a
   tree that obeys the ranks (invariant of the stack), and every tree that obeys the
   ranks is accepted and rebuilt (induction over the tree, one obligation per
   production and context),
 * the token patterns match, at every position of every text, what the patterns of
   the language match (bisimulation of the matchers)."""
import glob
import json
import subprocess

from ifaces import *
from strings import SStr

PARSER = P + "python_dice_parser:PythonDiceParser"
LEXER = P + "python_dice_lexer:PythonDiceLexer"

E = "E"  # an expression
X = EX
# role: (symbols, class, arguments as positions of symbols; text of a token, state, factory)
RULES = {
    "parenthesis": (["(", E, ")"], "ParenthesisEnclosedExpression", [1]),
    "not": (["!", E], "NotExpression", [1]),
    "keep": (["keep"], "DropKeepExpression", ["text0", "factory"]),
    "dice": (["dice"], "DiceExpression", ["text0", "factory"]),
    "integer": (["integer"], "ConstantIntegerExpression", ["text0", "factory"]),
    "binary": (["binary"], "ConstantBinaryExpression", ["text0", "factory"]),
    "add": ([E, "+", E], "AddExpression", [0, 2]),
    "subtract": ([E, "-", E], "SubtractExpression", [0, 2]),
    "multiply": ([E, "*", E], "MultiplyExpression", [0, 2]),
    "divide": ([E, "//", E], "IntegerDivisionExpression", [0, 2]),
    "compare": ([E, "operator", E], "BinaryOperatorExpression", ["text1", 0, 2]),
    "minmax": (["minmax", "(", E, ",", E, ")"], "MinMaxExpression", ["text0", 2, 4]),
    "abs": (["abs", "(", E, ")"], "AbsExpression", [2]),
    "assign": (["VAR", "name", "=", E], "VarAssignmentExpression", ["state", "text1", 3]),
    "refer": (["name"], "GetVarExpression", ["state", "text0"]),
}
RANK = {"add": 1, "subtract": 1, "multiply": 2, "divide": 2, "compare": 3}
PREFIX = ("not", "assign")
MODULES = {
    "ParenthesisEnclosedExpression": "parentheses_enclosed_expression",
    "NotExpression": "not_expression",
    "DropKeepExpression": "drop_keep_expression",
    "DiceExpression": "dice_expression",
    "ConstantIntegerExpression": "constant_integer_expression",
    "ConstantBinaryExpression": "constant_binary_expression",
    "AddExpression": "add_expression",
    "SubtractExpression": "subtract_expression",
    "MultiplyExpression": "multiply_expression",
    "IntegerDivisionExpression": "integer_division_expression",
    "BinaryOperatorExpression": "binary_operator_expression",
    "MinMaxExpression": "minmax_expression",
    "AbsExpression": "abs_expression",
    "VarAssignmentExpression": "var_assignment_expression",
    "GetVarExpression": "get_var_expression",
}

# the tokens of the language, first match wins
ENTRY = r"(-?\d+--?\d+(\*\d+)?|-?\d+(\*\d+)?)"
DICE = r"\d*d(\d+|%|F|\[(\s*" + ENTRY + r"\s*,\s*)*\s*" + ENTRY + r"\s*(,?)\s*\])"
TOKENS = [
    ("(", r"\("),
    (")", r"\)"),
    (",", r","),
    ("!", r"!(?!=)"),
    ("keep", DICE + r"[kd]\d+"),
    ("dice", DICE),
    ("operator", r"==|!=|<=|<|>=|>|\bAND\b|\bOR\b"),
    ("integer", r"-?\d+"),
    ("binary", r"\bTrue\b|\bFalse\b"),
    ("+", r"\+"),
    ("-", r"-"),
    ("*", r"\*"),
    ("//", r"//"),
    ("minmax", r"\bMAX\b|\bMIN\b"),
    ("abs", r"\bABS\b"),
    ("=", r"=(?!=)(?<!==)"),
    ("VAR", r"\bVAR\b"),
    ("name", r"\b[a-z_]+\b"),
]
IGNORED = [r"\s+"]


class Grammar:
    """what the code told rply"""

    def __init__(self):
        self.tokens = None
        self.precedence = []
        self.productions = []  # (name, symbols, function, precedence)
        self.error = None
        self.rules = []
        self.ignored = []


def plain(interp, v):
    """a concrete value, lists as lists"""
    from models import as_values

    if v is None or isinstance(v, (str, int)):
        return v
    if isinstance(v, tuple):
        return [plain(interp, x) for x in v]
    if isinstance(v, Ref):
        values = as_values(interp, v)
        if values is not None:
            return [plain(interp, x) for x in values]
    raise Unsupported(f"grammar data {v!r}")


def rply_contracts(ctx, g):
    i = ctx.interp

    def generator(interp, a, k):
        names = ["tokens", "precedence", "cache_id"]
        given = dict(zip(names, a))
        given.update(k)
        if g.tokens is not None:
            raise Unsupported("two parser generators")
        g.tokens = plain(interp, given["tokens"])
        g.precedence = plain(interp, given.get("precedence", ()))
        return Opaque("ParserGenerator", None)

    def production(interp, obj, a, k):
        rule = plain(interp, a[0] if a else k["rule"])
        prec = plain(interp, a[1] if len(a) > 1 else k.get("precedence"))
        parts = rule.split()
        if len(parts) < 3 or parts[1] != ":":
            raise PyRaise("ParserGeneratorError")

        def register(interp2, b, k2):
            for body in " ".join(parts[2:]).split("|"):
                g.productions.append((parts[0], body.split(), b[0], prec))
            return b[0]

        return Builtin("production", register)

    def error(interp, obj, a, k):
        g.error = a[0]
        return a[0]

    i.external["rply.ParserGenerator"] = generator
    i.external["rply.parsergenerator.ParserGenerator"] = generator
    i.handlers["ParserGenerator"] = {
        "production": production,
        "error": error,
        "build": lambda interp, obj, a, k: Opaque("LRParser", None),
    }

    def lexer(interp, a, k):
        if g.rules or g.ignored:
            raise Unsupported("two lexers")
        return Opaque("LexerGenerator", None)

    def add(interp, obj, a, k):
        given = dict(zip(["name", "pattern", "flags"], a))
        given.update(k)
        if plain(interp, given.get("flags", 0)) != 0:
            raise Unsupported("flags")
        g.rules.append((plain(interp, given["name"]), plain(interp, given["pattern"])))

    def ignore(interp, obj, a, k):
        given = dict(zip(["pattern", "flags"], a))
        given.update(k)
        if plain(interp, given.get("flags", 0)) != 0:
            raise Unsupported("flags")
        g.ignored.append(plain(interp, given["pattern"]))

    i.external["rply.LexerGenerator"] = lexer
    i.external["rply.lexergenerator.LexerGenerator"] = lexer
    i.handlers["LexerGenerator"] = {"add": add, "ignore": ignore, "build": lambda interp, obj, a, k: Opaque("Lexer", None)}


def parser(ctx, how="given"):
    """execute the constructors; (grammar, parser object, factory)"""
    i = ctx.interp
    g = Grammar()
    rply_contracts(ctx, g)
    factory = opaque("IProbabilityDistributionFactory", "factory")
    states = opaque("IProbabilityDistributionStateFactory", "states")
    if how == "default":
        made = {}
        for cls, v in (("probability_distribution_factory:ProbabilityDistributionFactory", factory), ("probability_distribution_state_factory:ProbabilityDistributionStateFactory", states)):
            m, c = (PD + cls).split(":")
            i.overrides[(m, c)] = lambda interp, a, k, v=v: v
    obj = None

    def run():
        g.__init__()
        lexer = i.call(i.get(LEXER), [])
        if how == "default":
            g.rules, g.ignored = [], []
            return i.call(i.get(PARSER), [])
        return i.call(i.get(PARSER), [lexer, factory, states])

    paths = ctx.paths(run)
    if len(paths) != 1 or paths[0].kind == "raise":
        ctx.record("the parser is built", False, str([(r.kind, r.exc) for r in paths]))
        return None
    return g, paths[0], factory, states


def roles(ctx, g):
    """token name of the code -> token of the language, by position in the bisimulation"""
    from regexes import compare

    return compare(g.rules, g.ignored, TOKENS, IGNORED)


def tokens(ctx, how="given"):
    """the token patterns match what the language says, in every text"""
    built = parser(ctx, how)
    if built is None:
        return
    g = built[0]
    res = roles(ctx, g)
    ctx.record("tokens of every text", res.ok, f"differ after {res.before!r} on {res.text!r}: {res.got} instead of {res.want}" if not res.ok else "")
    if res.ok:
        ctx.record("the parser knows the tokens", set(res.names) <= set(g.tokens), str(g.tokens))


def rule_of(ctx, g, names):
    """role of each production, in order"""
    kinds = {}
    known = {tuple(s): role for role, (s, _, _) in RULES.items()}
    if len(set(names.values())) != len(names):
        raise Unsupported("several names for a token")
    lhs = {p[0] for p in g.productions}
    if len(lhs) != 1:
        raise Unsupported("several nonterminals")
    (nt,) = lhs
    out = []
    for name, symbols, func, prec in g.productions:
        key = tuple(E if s == nt else names.get(s, "?" + s) for s in symbols)
        out.append(known.get(key))
    return nt, out


def productions(ctx, how):
    """exactly the rules of the language, and each builds its node"""
    i = ctx.interp
    for cls, mod in MODULES.items():

        def make(interp, a, k, cls=cls, mod=mod):
            init = interp.class_attr(interp.get(EX + mod + ":" + cls), "__init__")
            names = [x.arg for x in init.node.args.args][1:]
            given = dict(zip(names, a))
            for key, v in k.items():
                if key not in names or key in given:
                    raise PyRaise("TypeError")
                given[key] = v
            if len(a) > len(names) or set(given) != set(names):
                raise PyRaise("TypeError")
            return Opaque("node", None, (cls, [given[n] for n in names]))

        i.overrides[(EX + mod, cls)] = make
    built = parser(ctx, how)
    if built is None:
        return
    g, r0, factory, states = built
    res = roles(ctx, g)
    if not res.ok:
        raise Unsupported("the tokens differ")
    nt, kinds = rule_of(ctx, g, res.names)
    for role in RULES:
        ctx.record(f"rule {role}", kinds.count(role) == 1, str(kinds))
    for (name, symbols, func, prec), role in zip(g.productions, kinds):
        ctx.record(f"{name} : {' '.join(symbols)} is a rule of the language", role is not None)
        if role is None:
            continue
        spec, cls, args = RULES[role]
        state = opaque("IProbabilityDistributionState", "state")
        children = []
        for n, s in enumerate(spec):
            if s == E:
                children.append(opaque("IDiceExpression", f"child{n}"))
            else:
                children.append(Opaque("Token", z3.Const(f"token{n}", Thing), (symbols[n], f"text of token {n}")))
        i.handlers["Token"] = {
            "prop:value": lambda interp, obj: obj.data[1],
            "prop:name": lambda interp, obj: obj.data[0],
            "getstr": lambda interp, obj, a, k: obj.data[1],
            "gettokentype": lambda interp, obj, a, k: obj.data[0],
        }
        want = []
        for a in args:
            if a == "state":
                want.append(state)
            elif a == "factory":
                want.append(factory)
            elif isinstance(a, str):
                want.append(f"text of token {a[4:]}")
            else:
                want.append(children[a])

        def run():
            i.heap = type(r0.heap)(r0.heap)
            return i.call(func, [state, i.alloc(ListCell([("c", tuple(children))]))])

        for r in ctx.paths(run):
            if r.kind == "raise":
                ctx.record(f"{role}: raises {r.exc.name}", False, str(r.all))
                continue
            v = r.value
            ok = isinstance(v, Opaque) and v.iface == "node" and v.data[0] == cls and len(v.data[1]) == len(want)
            ok = ok and all(same(x, y) for x, y in zip(v.data[1], want))
            ctx.record(f"{role}: builds its node", ok, f"{v!r} {getattr(v, 'data', None)} instead of {cls} {want}")


def same(x, y):
    if isinstance(x, Opaque) and isinstance(y, Opaque):
        return x.iface == y.iface and x.term.eq(y.term)
    return isinstance(x, str) and isinstance(y, str) and x == y


# ------------------------------------------------------------------ the table
SCRIPT = """
import json, sys, warnings
warnings.simplefilter("ignore")
import rply
g = json.load(sys.stdin)
p = rply.ParserGenerator(g["tokens"], precedence=[(a, b) for a, b in g["precedence"]])
for name, symbols, prec in g["productions"]:
    p.production(name + " : " + " ".join(symbols), precedence=prec)(lambda *a: None)
t = p.build().lr_table
json.dump({"action": [dict(x) for x in (t.lr_action if isinstance(t.lr_action, list) else [t.lr_action[k] for k in range(len(t.lr_action))])],
           "goto": [dict(x) for x in (t.lr_goto if isinstance(t.lr_goto, list) else [t.lr_goto.get(k, {}) for k in range(len(t.lr_action))])],
           "default": list(t.default_reductions),
           "productions": [[q.name, list(q.prod)] for q in t.grammar.productions]}, sys.stdout)
"""


def lr_table(g):
    data = json.dumps({"tokens": g.tokens, "precedence": g.precedence, "productions": [(n, s, p) for n, s, _, p in g.productions]})
    python = "/opt/venv/bin/python"
    run = subprocess.run([python, "-c", SCRIPT], input=data, capture_output=True, text=True, timeout=120)
    if run.returncode != 0:
        raise Unsupported("rply refuses the grammar: " + run.stderr[-300:])
    return json.loads(run.stdout)


def shape(role, children):
    """(class of the root, does the right edge swallow what follows)"""
    if role in PREFIX:
        return ("prefix", True)
    if role in RANK:
        return ("binary", RANK[role], children[1][-1])
    return ("atom", False)


SHAPES = [("atom", False), ("prefix", True)] + [("binary", r, o) for r in (1, 2, 3) for o in (False, True)]


def obeys(role, children):
    """does a node with children of these shapes obey the ranks?"""
    if role not in RANK:
        return True
    left, right = children
    rank = RANK[role]
    if left[-1] or (left[0] == "binary" and left[1] < rank):
        return False
    return right[0] != "binary" or right[1] > rank


def table(ctx):
    built = parser(ctx)
    if built is None:
        return
    g = built[0]
    res = roles(ctx, g)
    if not res.ok:
        raise Unsupported("the tokens differ")
    nt, kinds = rule_of(ctx, g, res.names)
    if None in kinds or sorted(kinds) != sorted(RULES):
        raise Unsupported("the rules differ")
    t = lr_table(g)
    action, goto, default = t["action"], t["goto"], t["default"]
    prods = t["productions"]
    number = {}
    for n, (name, symbols) in enumerate(prods):
        if n:
            number[n] = kinds[[(p[0], p[1]) for p in g.productions].index((name, symbols))]
    syms = {role: next(s for n, s in prods[1:] if number[prods.index([n, s])] == role) for role in RULES}
    prod_no = {role: n for n, role in number.items()}
    terms = list(g.tokens) + ["$end"]
    ctx.record("no empty and no unit rule", all(s and s != [nt] for s in syms.values()), str(syms))

    def step(state, symbol):
        """next state, or None"""
        if symbol == nt:
            return goto[state].get(nt)
        if default[state]:
            return None
        a = action[state].get(symbol, None)
        return a if a is not None and a > 0 else None

    def reduces(state, look):
        """number of the production reduced in this state, or None"""
        a = default[state] or action[state].get(look)
        return -a if a is not None and a < 0 else None

    # every tree that obeys the ranks is accepted and rebuilt
    bad = {role: [] for role in RULES}
    count = {role: 0 for role in RULES}
    todo = [(0, s, "$end") for s in SHAPES]
    seen = set(todo)
    while todo:
        p, want, look = todo.pop()
        for role in RULES:
            rhs = syms[role]
            holes = sum(s == nt for s in rhs)
            combos = [c for c in product_of(SHAPES, holes) if obeys(role, c) and shape(role, c) == want]
            if not combos:
                continue
            count[role] += 1
            cur, hole, ok = p, 0, True
            for n, s in enumerate(rhs):
                if s == nt:
                    follow = rhs[n + 1] if n + 1 < len(rhs) else look
                    for c in combos:
                        item = (cur, c[hole], follow)
                        if item not in seen:
                            seen.add(item)
                            todo.append(item)
                    hole += 1
                cur = step(cur, s)
                if cur is None:
                    ok = False
                    break
            if not ok or reduces(cur, look) != prod_no[role]:
                bad[role].append((p, want, look))
    top = goto[0].get(nt)
    ctx.record("a whole tree is accepted", top is not None and not default[top] and action[top].get("$end") == 0, str(action[top] if top is not None else None))
    for role in RULES:
        ctx.record(f"{role}: accepted wherever the ranks allow it ({count[role]} contexts)", count[role] > 0 and not bad[role], str(bad[role][:5]))

    # every reduction the table can make obeys the ranks
    facts = set()
    wrong = {role: set() for role in RULES}
    changed = True
    paths = {}
    for role in RULES:
        for p in range(len(action)):
            cur, trail = p, []
            for s in syms[role]:
                trail.append(cur)
                cur = step(cur, s)
                if cur is None:
                    break
            if cur is not None and goto[p].get(nt) is not None:
                paths[(role, p)] = (trail, cur)
    while changed:
        changed = False
        for (role, p), (trail, end) in paths.items():
            rhs = syms[role]
            for look in terms:
                if reduces(end, look) != prod_no[role]:
                    continue
                choices = []
                for n, s in enumerate(rhs):
                    if s == nt:
                        follow = rhs[n + 1] if n + 1 < len(rhs) else look
                        choices.append([x for x in SHAPES if (trail[n], x, follow) in facts])
                for c in product_lists(choices):
                    if not obeys(role, c):
                        wrong[role].add((p, c, look))
                    f = (p, shape(role, c), look)
                    if f not in facts:
                        facts.add(f)
                        changed = True
    for role in RULES:
        ctx.record(f"{role}: reduced only where it obeys the ranks", not wrong[role], str(sorted(wrong[role], key=str)[:5]))
    accepting = [(s, x) for s in range(len(action)) for x in action[s] if action[s][x] == 0]
    ctx.record("only whole lines are accepted", all(s == top and x == "$end" for s, x in accepting), str(accepting))


def product_of(shapes, n):
    import itertools

    return list(itertools.product(shapes, repeat=n))


def product_lists(choices):
    import itertools

    return list(itertools.product(*choices))


# ------------------------------------------------------------------ the calls
TREE = z3.Function("tree_of", Thing, Thing, Expr)
TOKENSOF = z3.Function("tokens_of", Thing, Thing)
NOTREE = z3.Function("no_tree", Thing, BOOL)
BADCHARS = z3.Function("no_tokens", Thing, BOOL)


def entry(ctx, how):
    """parse: the tree of the tokens of the text, bound to the state; ValueError otherwise"""
    i = ctx.interp
    text = opaque("text", "text")
    lexer = opaque("IPythonDiceLexer", "lexer")
    g = Grammar()
    rply_contracts(ctx, g)
    states = opaque("IProbabilityDistributionStateFactory", "states")
    factory = opaque("IProbabilityDistributionFactory", "factory")
    fresh = opaque("IProbabilityDistributionState", "new_state")
    given = opaque("IProbabilityDistributionState", "state")
    i.handlers["IProbabilityDistributionStateFactory"] = {"create_new_empty_set": lambda interp, obj, a, k: fresh}

    def lex(interp, obj, a, k):
        t = a[0] if a else k["input_text"]
        if not isinstance(t, Opaque) or t.iface != "text":
            raise Unsupported("text handed to the lexer")
        if interp.branch(BADCHARS(t.term)):
            raise PyRaise("ValueError")
        return Opaque("tokens", TOKENSOF(t.term))

    i.handlers["IPythonDiceLexer"] = {"lex": lex}

    def parse(interp, obj, a, k):
        tokens_ = a[0] if a else k["tokenizer"]
        state = a[1] if len(a) > 1 else k.get("state")
        if not (isinstance(tokens_, Opaque) and tokens_.iface == "tokens"):
            raise Unsupported("tokens handed to the parser")
        if not (isinstance(state, Opaque) and state.iface == "IProbabilityDistributionState"):
            raise Unsupported("state handed to the parser")
        if interp.branch(NOTREE(tokens_.term)):
            raise PyRaise("ValueError")
        return Opaque("IDiceExpression", TREE(tokens_.term, state.term))

    i.handlers["LRParser"] = {"parse": parse}
    obj = i.call(i.get(PARSER), [lexer, factory, states])
    args = [text] if how == "no state" else [text, given]
    state = fresh if how == "no state" else given
    toks = TOKENSOF(text.term)
    done = False
    for r in ctx.paths(lambda: i.call(i.getattr(obj, "parse"), args)):
        if r.kind == "raise":
            ctx.record(f"raises {r.exc.name}", r.exc.name == "ValueError", "")
            ctx.prove("rejects only what is no line", r.all, z3.Or(BADCHARS(text.term), NOTREE(toks)))
            continue
        done = True
        v = r.value
        ok = isinstance(v, tuple) and len(v) == 2 and isinstance(v[0], Opaque) and isinstance(v[1], Opaque)
        ctx.record("returns the tree and the state", ok, repr(v))
        if ok:
            ctx.prove("the tree of the tokens of the text", r.all, v[0].term == TREE(toks, state.term))
            ctx.prove("the state", r.all, v[1].term == state.term)
            ctx.prove("accepts only lines", r.all, z3.Not(z3.Or(BADCHARS(text.term), NOTREE(toks))))
    ctx.record("returns", done)


def refusal(ctx):
    """the error handler of the parser raises ValueError, whatever the token"""
    i = ctx.interp
    built = parser(ctx)
    if built is None:
        return
    g, r0 = built[0], built[1]
    ctx.record("there is an error handler", g.error is not None)
    if g.error is None:
        return
    some = lambda interp, obj, a, k: opaque("text", "some")
    shown = lambda interp, obj, a, k: SStr([("text", interp.prover.fresh("text", Thing))])
    i.handlers["Token"] = {"getstr": some, "gettokentype": some, "prop:value": lambda interp, obj: opaque("text", "some"), "prop:name": lambda interp, obj: opaque("text", "some")}
    for where in ("somewhere", "end"):
        i.handlers["Token"]["getsourcepos"] = lambda interp, obj, a, k: None if where == "end" else opaque("SourcePosition", "position")
        i.handlers["Token"]["prop:source_pos"] = lambda interp, obj: None if where == "end" else opaque("SourcePosition", "position")
        number = lambda interp, obj: interp.prover.fresh("pos", INT)
        i.handlers["SourcePosition"] = {"prop:idx": number, "prop:lineno": number, "prop:colno": number, "__str__": shown}
        maybe = lambda interp, obj, a, k: interp.prover.fresh("holds", BOOL)
        i.handlers["text"] = {"__str__": shown, "__eq__": maybe, "__ne__": maybe, "startswith": maybe, "endswith": maybe, "__contains__": maybe}
        i.handlers["exception"] = {}

        def run():
            i.heap = type(r0.heap)(r0.heap)
            return i.call(g.error, [opaque("IProbabilityDistributionState", "state"), opaque("Token", "token")])

        for r in ctx.paths(run):
            ctx.record(f"a token at the {where} is refused with ValueError", r.kind == "raise" and r.exc.name == "ValueError", f"{r.kind} {r.exc}")


def lexing(ctx):
    """lex: all tokens of the text, or ValueError (and no other failure) where the
    text has none; the line with the first bad character is found"""
    from invariants import Cand, integer_while_rule

    i, p = ctx.interp, ctx.p
    g = Grammar()
    rply_contracts(ctx, g)
    n, size, idx = z3.Ints("lines size idx")
    LEN = z3.Function("line_length", INT, INT)
    OFF = z3.Function("line_offset", INT, INT)
    k = z3.Int("k")
    i.assume(z3.And(n >= 1, size >= 0, OFF(0) == 0, OFF(n) == size + 1))
    i.assume(z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < n), z3.And(LEN(k) >= 0, OFF(k + 1) == OFF(k) + LEN(k) + 1)), patterns=[LEN(k)]))
    i.assume(z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < n), LEN(k) >= 0), patterns=[OFF(k)]))
    i.assume(z3.And(0 <= idx, idx < size))
    text = opaque("text", "text")
    bad = BADCHARS(text.term)

    def stream(interp, obj, a, kw):
        t = a[0] if a else kw["s"]
        if not (isinstance(t, Opaque) and t.term is not None and t.term.eq(text.term)):
            raise Unsupported("text handed to the lexer")
        return Opaque("stream", TOKENSOF(t.term))

    def read_all(interp, obj, a, kw):
        if interp.branch(bad):
            raise PyRaise("LexingError", Opaque("LexingError", z3.Const("error", Thing)))
        x = interp.prover.fresh("token", Thing)
        return interp.alloc(ListCell([("e", Seg([x], z3.Function("is_token", Thing, Thing, BOOL)(obj.term, x), Opaque("Token", x), None, ("stream", obj.term)))]))

    i.handlers["Lexer"] = {"lex": stream}
    i.handlers["stream"] = {"__iter__": read_all}
    i.handlers["LexingError"] = {"getsourcepos": lambda interp, obj, a, kw: Opaque("SourcePosition", z3.Const("position", Thing)),
                                 "prop:source_pos": lambda interp, obj: Opaque("SourcePosition", z3.Const("position", Thing)),
                                 "prop:message": lambda interp, obj: None}
    i.handlers["SourcePosition"] = {"prop:idx": lambda interp, obj: idx}

    def split(interp, obj, a, kw):
        if list(a) != ["\n"] or kw:
            raise Unsupported("split of the text")
        return Opaque("lines", None)

    def line(interp, obj, a, kw):
        key = a[0]
        if isinstance(key, slice):
            raise Unsupported("slice of the lines")
        key = as_int(key)
        if interp.branch(z3.And(key >= -n, key < 0)):
            key = key + n
        elif not interp.branch(z3.And(key >= 0, key < n)):
            raise PyRaise("IndexError")
        return Opaque("line", key)

    some = lambda interp, obj, a, kw: Opaque("piece", None)
    shown = lambda interp, obj, a, kw: SStr([("text", interp.prover.fresh("text", Thing))])
    i.handlers["text"] = {"split": split, "__len__": lambda interp, obj, a, kw: size, "__getitem__": some, "__str__": shown}
    i.handlers["lines"] = {"__getitem__": line, "__len__": lambda interp, obj, a, kw: n}
    i.handlers["line"] = {"__len__": lambda interp, obj, a, kw: LEN(obj.term), "__getitem__": some, "__str__": shown}
    i.handlers["piece"] = {"__str__": shown, "strip": some}

    def propose(interp, keys):
        cands = []
        for x in keys:
            cands.append(Cand(f"{x} >= 0", lambda t, x=x: t[x] >= 0))
            cands.append(Cand(f"{x} < lines", lambda t, x=x: t[x] < n))
            for y in keys:
                if x != y:
                    cands.append(Cand(f"{x} == {y}", lambda t, x=x, y=y: t[x] == t[y]))
                    cands.append(Cand(f"{x} counts from the line {y}", lambda t, x=x, y=y: t[x] + OFF(t[y]) == idx))
        return [], cands

    def variant(interp, keys):
        return [Cand(str(x), lambda t, x=x: t[x]) for x in keys] + [Cand(f"lines - {x}", lambda t, x=x: n - t[x]) for x in keys]

    i.while_hints.append(integer_while_rule(propose, variant))
    obj = i.call(i.get(LEXER), [])
    done = refused = False
    for r in ctx.paths(lambda: i.call(i.getattr(obj, "lex"), [text])):
        if r.kind == "raise":
            refused = True
            ctx.record(f"raises {r.exc.name}", r.exc.name == "ValueError", str(r.all))
            ctx.prove("rejects only texts without tokens", r.all, bad)
            continue
        done = True
        ctx.prove("accepts only texts with tokens", r.all, z3.Not(bad))
        cell = ctx.at(r, lambda: i.cell(r.value)).value if isinstance(r.value, Ref) else None
        ok = isinstance(cell, ListCell) and len(cell.segs) == 1 and cell.segs[0][0] == "e" and cell.segs[0][1].ident == ("stream", TOKENSOF(text.term))
        ctx.record("returns all tokens", ok, repr(r.value))
    ctx.record("returns", done)
    ctx.record("refuses", refused)
    for label, names in i.loop_notes:
        if label.endswith(" ends"):
            ctx.record("the search for the line ends", bool(names), label)
