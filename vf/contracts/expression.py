"""Operator expressions: distribution, roll, extremes and cost."""
from ifaces import *

NAMES = {
    "add": ("add_expression:AddExpression", "__add__"),
    "subtract": ("subtract_expression:SubtractExpression", "__sub__"),
    "multiply": ("multiply_expression:MultiplyExpression", "__mul__"),
    "divide": ("integer_division_expression:IntegerDivisionExpression", "__floordiv__"),
}
SYMBOLS = {
    "==": "__equal__",
    "!=": "__not_equal__",
    "<=": "__le__",
    "<": "__lt__",
    ">=": "__ge__",
    ">": "__gt__",
    "AND": "__and__",
    "OR": "__or__",
}
MINMAX = {"MAX": "max_operator", "MIN": "min_operator"}
UNARY = {
    "abs": ("abs_expression:AbsExpression", "__abs__"),
    "not": ("not_expression:NotExpression", "not_operator"),
    "parenthesis": ("parentheses_enclosed_expression:ParenthesisEnclosedExpression", None),
}
ALL = list(NAMES) + ["bin" + s for s in SYMBOLS] + list(MINMAX) + list(UNARY)


def build(ctx, which):
    """(object, operands, spec name)"""
    i = ctx.interp
    install_dists(ctx)
    install_exprs(ctx)
    e1, e2 = expr("e1"), expr("e2")
    if which in NAMES:
        cls, op = NAMES[which]
        return i.call(i.get(EX + cls), [e1, e2]), [e1, e2], op
    if which.startswith("bin"):
        cls = i.get(EX + "binary_operator_expression:BinaryOperatorExpression")
        return i.call(cls, [which[3:], e1, e2]), [e1, e2], SYMBOLS[which[3:]]
    if which in MINMAX:
        cls = i.get(EX + "minmax_expression:MinMaxExpression")
        return i.call(cls, [which, e1, e2]), [e1, e2], MINMAX[which]
    cls, op = UNARY[which]
    return i.call(i.get(EX + cls), [e1]), [e1], op


def own(ctx, es, op):
    if op is None:
        return DISTOF(es[0].term)
    if len(es) == 1:
        return DUN[op](DISTOF(es[0].term))
    return DOP[op](DISTOF(es[0].term), DISTOF(es[1].term))


def distribution(ctx, which):
    i = ctx.interp
    obj, es, op = build(ctx, which)
    spec = own(ctx, es, op)
    div = op == "__floordiv__"
    if div:
        d1, d2 = DISTOF(es[0].term), DISTOF(es[1].term)
        zero_ = z3.And(NONEMPTY(d1), VKEY(d2, 0))
    returned = False
    for r in ctx.paths(lambda: i.call(i.getattr(obj, "get_probability_distribution"), [])):
        if r.kind == "raise":
            if div and r.exc.name == "ZeroDivisionError":
                ctx.prove("ZeroDivisionError only when the divisor can be 0", r.all, zero_)
                continue
            ctx.record(f"no exception: raises {r.exc.name}", False, str(r.all))
            continue
        returned = True
        if div:
            ctx.prove("a divisor that can be 0 is reported", r.all, z3.Not(zero_))
        if not (isinstance(r.value, Opaque) and r.value.iface == "IProbabilityDistribution"):
            ctx.record("a distribution is returned", False, repr(r.value))
            continue
        ctx.prove("distribution is the operator on the distributions of the operands", r.all, r.value.term == spec)
    ctx.record("returns", returned)


def roll(ctx, which):
    i = ctx.interp
    obj, es, op = build(ctx, which)
    div = op == "__floordiv__"
    returned = False
    for r in ctx.paths(lambda: i.call(i.getattr(obj, "roll"), [])):
        rs = rolls(r.trace)
        if rs is None:
            ctx.record("rolls in a loop", None)
            continue
        counts = [sum(1 for t, _ in rs if t.eq(e.term)) for e in es]
        if r.kind == "raise":
            if div and r.exc.name == "ZeroDivisionError" and counts[1] == 1:
                d = next(v for t, v in rs if t.eq(es[1].term))
                ctx.prove("ZeroDivisionError only when the rolled divisor is 0", r.all, d == 0)
                continue
            ctx.record(f"no exception: raises {r.exc.name}", False, str(r.all))
            continue
        returned = True
        ctx.record("each operand is rolled exactly once", counts == [1] * len(es) and len(rs) == len(es), str(r.trace))
        if counts != [1] * len(es):
            continue
        vals = [next(v for t, v in rs if t.eq(e.term)) for e in es]
        if not (is_int(r.value) or is_bool(r.value)):
            ctx.record("an integer is returned", False, repr(r.value))
            continue
        got = as_int(r.value)
        if div:
            ctx.prove("a rolled divisor 0 gives no value", r.all, vals[1] != 0)
        if op is None:
            ctx.prove("value", r.all, got == vals[0])
        elif len(es) == 1:
            ctx.prove("value", r.all, got == UNSPEC[op](vals[0]))
        elif op == "__and__":
            # known finding C06-and: bitwise for operands other than 0 and 1
            from engine import BAND

            a, b = vals
            bits = [z3.Or(a == 0, a == 1), z3.Or(b == 0, b == 1)]
            table = z3.And(BAND(0, 0) == 0, BAND(0, 1) == 0, BAND(1, 0) == 0, BAND(1, 1) == 1)
            ctx.prove("value for truth values", r.all + bits + [table], got == OPSPEC[op](a, b))
            ctx.prove(
                "value otherwise is the documented one or the recorded finding",
                r.all,
                z3.Or(got == OPSPEC[op](a, b), got == b2i(BAND(a, b) != 0)),
            )
        else:
            ctx.prove("value", r.all, got == OPSPEC[op](*vals))
    ctx.record("returns", returned)


def extremes(ctx, which):
    """max/min are the extremes of the own distribution"""
    i = ctx.interp
    obj, es, op = build(ctx, which)
    spec = own(ctx, es, op)
    for kind, fun, efun in (("max", DMAX, MAXE), ("min", DMIN, MINE)):
        # the operands satisfy this same contract
        for e in es:
            i.assume(efun(e.term) == fun(DISTOF(e.term)))
    div = op == "__floordiv__"
    for kind, fun, efun in (("max", DMAX, MAXE), ("min", DMIN, MINE)):
        for r in ctx.paths(lambda: i.call(i.getattr(obj, kind), [])):
            if r.kind == "raise":
                if div and r.exc.name == "ZeroDivisionError":
                    ctx.prove(f"{kind}: ZeroDivisionError only when the divisor can be 0", r.all, VKEY(DISTOF(es[1].term), 0))
                    continue
                ctx.record(f"{kind} raises {r.exc.name}", False, str(r.all))
                continue
            if div:
                ctx.prove(f"{kind}: a divisor that can be 0 is reported", r.all, z3.Not(VKEY(DISTOF(es[1].term), 0)))
            if which in MINMAX:
                # extremes of MAX/MIN of operands that share no variable (minmax_lemma)
                f = OPSPEC[op]
                want = f(efun(es[0].term), efun(es[1].term))
                ctx.prove(f"{kind} of independent operands", r.all, z3.Or(as_int(r.value) == want, as_int(r.value) == fun(spec)))
                continue
            ctx.prove(kind, r.all, as_int(r.value) == fun(spec))


def minmax_lemma(ctx):
    """independent operands: an outcome of MAX (MIN) is the MAX (MIN) of an outcome of each
    (value_binop of distribution.py), so its extremes are those of the operands' extremes"""
    A, B, C = (z3.Function(n, INT, BOOL) for n in ("outcome_one", "outcome_two", "outcome"))
    x, y, r = z3.Ints("x y r")
    for op in ("max_operator", "min_operator"):
        f = OPSPEC[op]
        spec = z3.ForAll([r], C(r) == z3.Exists([x, y], z3.And(A(x), B(y), r == f(x, y))))
        for kind in ("max", "min"):
            le = (lambda a, b: a <= b) if kind == "max" else (lambda a, b: a >= b)
            a, b, c = z3.Ints("extreme_one extreme_two extreme")
            ext = lambda P, m: [P(m), z3.ForAll([x], z3.Implies(P(x), le(x, m)))]
            facts = [spec] + ext(A, a) + ext(B, b) + ext(C, c)
            ctx.prove(f"{kind} of {op} of independent operands", facts, c == f(a, b))


def cost(ctx, which):
    i = ctx.interp
    i.small_floats = True  # costs are below 2**53
    obj, es, op = build(ctx, which)
    for e in es:
        i.assume(COST(e.term) >= 0)
    total = COST(es[0].term)
    if len(es) == 2:
        total = total + COST(es[1].term)
    for r in ctx.paths(lambda: i.call(i.getattr(obj, "estimated_cost"), [])):
        if r.kind == "raise":
            ctx.record(f"raises {r.exc.name}", False, str(r.all))
            continue
        if which == "not":
            # the operand plus ten per cent, rounded down
            ctx.prove("cost", r.all, as_int(r.value) == (11 * total) / 10)
        else:
            ctx.prove("cost", r.all, as_int(r.value) == total)
