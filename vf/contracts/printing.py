"""Printed text and contained variables of expressions."""
import re

from ifaces import *
from strings import SStr, to_str
import constants as K
import dice as DI
import expression as E
import keep as KP
import variables as V


# printed form: text of the operands ("1", "2", "name") and what stands between them, where
# blanks matter only if the tokens would run together without
FORMS = {
    "add": ["1", r"\s*\+\s*", "2"],
    "subtract": ["1", r"\s*-\s+", "2"],
    "multiply": ["1", r"\s*\*\s*", "2"],
    "divide": ["1", r"\s*//\s*", "2"],
    "abs": [r"\s*ABS\s*\(\s*", "1", r"\s*\)\s*"],
    "not": [r"\s*!\s*", "1"],
    "parenthesis": [r"\s*\(\s*", "1", r"\s*\)\s*"],
}
for _s in E.SYMBOLS:
    FORMS["bin" + _s] = ["1", (r"\s+%s\s+" if _s.isalpha() else r"\s*%s\s*") % re.escape(_s), "2"]
for _m in E.MINMAX:
    FORMS[_m] = [r"\s*%s\s*\(\s*" % _m, "1", r"\s*,\s*", "2", r"\s*\)\s*"]
ASSIGN = [r"\s*VAR\s+", "name", r"\s*=\s*", "1"]


def atoms_of(value):
    return [value] if isinstance(value, str) else list(value.atoms)


def is_text(value):
    return isinstance(value, (str, SStr))


def matches(ctx, r, what, got, form, operands):
    """got consists of the operands' texts with the given text between"""
    if not is_text(got):
        ctx.record(what, False, repr(got))
        return
    atoms = atoms_of(got)
    want = []
    for f in form:
        want += atoms_of(operands[f]) if f in operands else [re.compile(f)]
    k = 0
    for w in want:
        if isinstance(w, re.Pattern):
            if k < len(atoms) and isinstance(atoms[k], str):
                if not w.fullmatch(atoms[k]):
                    ctx.record(what, False, f"{atoms[k]!r} for {w.pattern}")
                    return
                k += 1
            elif not w.fullmatch(""):
                ctx.record(what, False, f"{got!r}: nothing printed for {w.pattern}")
                return
        elif isinstance(w, str):
            if k >= len(atoms) or atoms[k] != w:
                ctx.record(what, False, f"{got!r}: {w!r} expected at {k}")
                return
            k += 1
        elif k < len(atoms) and not isinstance(atoms[k], str) and atoms[k][0] == w[0]:
            ctx.prove(what, r.all, z3.And(*[a == b for a, b in zip(atoms[k][1:], w[1:])]))
            k += 1
        else:
            ctx.record(what, False, f"{got!r}: operand {w!r} expected at {k}")
            return
    ctx.record(what + ", nothing more", all(isinstance(a, str) and not a.strip() for a in atoms[k:]), repr(got))


def printed(ctx, obj, form, operands):
    i = ctx.interp
    for r in ctx.paths(lambda: to_str(i, obj)):
        if r.kind == "raise":
            ctx.record(f"printing raises {r.exc.name}", False)
            continue
        matches(ctx, r, "the text names the operation and its operands in order", r.value, form, operands)


def variables(ctx, obj, want):
    from models import set_to_sym

    i = ctx.interp
    x = z3.Const("x", Name)

    def run():
        value = i.call(i.getattr(obj() if callable(obj) else obj, "get_contained_variables"), [])
        if not isinstance(value, Ref) or not isinstance(i.cell(value), (SymSet, ConcSet)):
            return None
        s = set_to_sym(i, i.cell(value))
        return z3.BoolVal(False) if s.kkind is None else s.dom(x)

    for r in ctx.paths(run):
        if r.kind == "raise":
            ctx.record(f"variables: raises {r.exc.name}", False)
        elif r.value is None:
            ctx.record("the variables are a set", False, repr(r.value))
        else:
            ctx.prove("the variables are exactly those referred to", r.all, r.value == want(x))


def operator(ctx, which):
    i = ctx.interp
    i.encode(V.name_of(z3.Const("n0", Name)))
    obj, es, _ = E.build(ctx, which)
    own_variables(ctx)
    operands = {str(k + 1): to_str(i, e) for k, e in enumerate(es)}
    printed(ctx, obj, FORMS[which], operands)
    variables(ctx, obj, lambda x: z3.Or(*[REFERS(e.term, x) for e in es]))


REFERS = None


def own_variables(ctx):
    """contract of the operands: the names they refer to, as a set of the caller's own"""
    global REFERS
    i = ctx.interp
    kind = i.encode(V.name_of(z3.Const("n0", Name)))[0]
    sort = z3.Const("e1", opaque("IDiceExpression", "e1").term.sort()).sort()
    REFERS = z3.Function("refers_to", sort, Name, BOOL)
    i.handlers["IDiceExpression"]["get_contained_variables"] = lambda interp, obj, a, k: interp.alloc(
        SymSet(kind, lambda x: REFERS(obj.term, x))
    )


def leaf(ctx, which):
    """constants, references and assignments"""
    i = ctx.interp
    i.encode(V.name_of(z3.Const("n0", Name)))
    n = z3.Const("n", Name)
    state = opaque("IProbabilityDistributionState", "state")
    if which in ("assign", "refer"):
        V.install(ctx)
        own_variables(ctx)
        e = expr("e")
        if which == "assign":
            obj = i.call(i.get(V.ASSIGN), [state, V.name_of(n), e])
            printed(ctx, obj, ASSIGN, {"1": to_str(i, e), "name": V.name_of(n)})
            variables(ctx, obj, lambda x: z3.BoolVal(False))
        else:
            obj = i.call(i.get(V.GET), [state, V.name_of(n)])
            printed(ctx, obj, ["name"], {"name": V.name_of(n)})
            variables(ctx, obj, lambda x: x == n)
        return
    obj, value = K.build(ctx, which)
    variables(ctx, obj, lambda x: z3.BoolVal(False))
    for r in ctx.paths(lambda: to_str(i, obj)):
        if r.kind == "raise":
            ctx.record(f"printing raises {r.exc.name}", False)
            continue
        got = r.value
        if which in ("True", "False"):
            ctx.record("printed as written", got == which, repr(got))
            continue
        atoms = atoms_of(got) if is_text(got) else []
        if len(atoms) == 2 and atoms[0] == "-" and not isinstance(atoms[1], str) and atoms[1][0] in ("num", "int"):
            ctx.prove("the text denotes the number", r.all, z3.And(as_int(atoms[1][1]) == -value, value <= 0))
        elif len(atoms) == 1 and not isinstance(atoms[0], str) and atoms[0][0] in ("num", "int"):
            ctx.prove("the text denotes the number", r.all, as_int(atoms[0][1]) == value)
        else:
            ctx.record("the text denotes the number", False, repr(got))


def dice_text(ctx, kind, shape):
    """dice print their own text"""
    i = ctx.interp
    i.encode(V.name_of(z3.Const("n0", Name)))
    install_dists(ctx)
    DI.install_faces(ctx)
    n, k = z3.Int("N"), z3.Int("K")
    i.assume(n >= 0)
    i.assume(k >= 0)
    atoms = ([("num", n)] if shape == "number" else []) + ["d", ("dtype", DI.DTYPE)]
    if kind != "dice":
        atoms += ["k" if kind == "keep" else "d", ("num", k)]
    text = SStr(atoms)
    cls = i.get(EX + DI.NAMECLS) if kind == "dice" else i.get(KP.CLS)
    fac = opaque("IProbabilityDistributionFactory", "factory")

    for r in ctx.paths(lambda: to_str(i, i.call(cls, [text, fac]))):
        if r.kind == "raise":
            ctx.record(f"printing raises {r.exc.name}", False)
            continue
        matches(ctx, r, "printed as written", r.value, ["text"], {"text": text})
    variables(ctx, lambda: i.call(cls, [text, fac]), lambda x: z3.BoolVal(False))


def tokens(ctx):
    """the texts that FORMS puts together are read as the same tokens again"""
    import parsing as PA
    from regexes import ASCII, END, alone

    built = PA.parser(ctx)
    if built is None:
        return
    g = built[0]
    res = PA.roles(ctx, g)
    if not res.ok:
        raise Unsupported("the tokens differ")
    every = set(ASCII)
    blank = {c for c in ASCII if re.match(r"\s", c)}
    letters = {c for c in ASCII if re.match(r"\w", c)}
    symbols = every - letters
    start = set("0123456789-d(!AMTFV_abcdefghijklmnopqrstuvwxyz")  # of an expression
    done = blank | set("),+-*/=!<>") | {END}  # after an operand
    apart = blank | set("(,!+*/=<>") | {None}  # before an operand
    anything = every | {None}
    specs = [(role, every, apart, done) for role in ("keep", "dice", "integer", "binary", "name")]
    specs += [
        ("(", every, anything, blank | start),
        (")", every, anything, done),
        (",", every, anything, blank | start),
        ("!", every, apart, blank | start),
        ("operator", symbols, anything, blank | start),
        ("operator", letters, blank, blank),
        ("+", every, anything, blank | start),
        ("-", every, anything, blank),
        ("*", every, anything, blank | start),
        ("//", every, anything, blank | start),
        ("minmax", every, apart, blank | {"("}),
        ("abs", every, apart, blank | {"("}),
        ("=", every, blank | letters, blank | start),
        ("VAR", every, apart, blank),
        (None, every, anything, (every - blank) | {END}),
    ]
    for role, first, before, after in specs:
        names = [n for n, r in res.names.items() if r == role] if role else [None]
        for n in names:
            bad = alone(g.rules, g.ignored, n, first, before, after)
            ctx.record(f"a printed {role or 'blank'} is read as itself", bad is None, bad or "")
        ctx.record(f"the token {role} exists", bool(names), str(res.names))
