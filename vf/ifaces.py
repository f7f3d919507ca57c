"""Contracts of distributions and expressions as seen by their callers."""
from base import *

DOP = {n: z3.Function("dist" + n, Dist, Dist, Dist) for n in OPSPEC}
DUN = {n: z3.Function("dist" + n, Dist, Dist) for n in UNSPEC}
DMAX = z3.Function("dist_max", Dist, INT)
DMIN = z3.Function("dist_min", Dist, INT)
VKEY = z3.Function("reports", Dist, INT, BOOL)
NONEMPTY = z3.Function("has_outcomes", Dist, BOOL)
MAXE = z3.Function("expr_max", Expr, INT)
MINE = z3.Function("expr_min", Expr, INT)
COST = z3.Function("expr_cost", Expr, INT)
VARS = z3.Function("expr_vars", Expr, Name, BOOL)
DTABLE = {n: z3.Function("dist_" + n, Dist, Thing) for n in ("get_dict_form", "at_least", "at_most")}
DAVG = z3.Function("dist_average", Dist, z3.RealSort())


def is_dist(i, v):
    if isinstance(v, Opaque):
        return v.iface == "IProbabilityDistribution"
    return isinstance(v, Ref) and isinstance(i.cell(v), InstCell) and any(
        getattr(c, "name", "") == "IProbabilityDistribution" for c in i.cell(v).cls.mro()
    )


def opaque_dist(term, data=None):
    return Opaque("IProbabilityDistribution", term, data)


def install_dists(ctx):
    """the contract proved for ProbabilityDistribution, for callers"""
    i = ctx.interp
    p = ctx.p
    table = {}

    def binary(name):
        def fn(interp, obj, a, k):
            if len(a) != 1 or not is_dist(interp, a[0]):
                raise PyRaise("TypeError")
            x, y = obj, a[0]
            if name == "__floordiv__" and interp.branch(z3.And(NONEMPTY(x.term), VKEY(y.term, 0))):
                raise PyRaise("ZeroDivisionError")
            data = None
            if name == "__add__" and x.data and y.data and x.data["plain"] and y.data["plain"]:
                data = convolve(p, x.data, y.data)
            return opaque_dist(DOP[name](x.term, y.term), data)

        return fn

    for n in OPSPEC:
        table[n] = binary(n)
    for n in UNSPEC:
        table[n] = lambda interp, obj, a, k, n=n: opaque_dist(DUN[n](obj.term))

    def extreme(kind):
        fun = DMAX if kind == "max" else DMIN

        def fn(interp, obj, a, k):
            return fun(obj.term)

        return fn

    table["max"] = extreme("max")
    table["min"] = extreme("min")
    table["contains_zero"] = lambda interp, obj, a, k: VKEY(obj.term, 0)
    table["average"] = lambda interp, obj, a, k: DAVG(obj.term)
    for n in DTABLE:
        table[n] = lambda interp, obj, a, k, n=n: Opaque("table:" + n, DTABLE[n](obj.term))
    i.handlers["IProbabilityDistribution"] = table

    def create(interp, obj, a, k):
        from models import map_to_sym

        m = a[0] if a else k.get("result_map")
        term = p.fresh("dist", Dist)
        if m is None:
            data = dict(vk=lambda v: z3.BoolVal(False), vw=lambda v: z3.IntVal(0), plain=True)
        else:
            cell = map_to_sym(interp, interp.cell(m))
            if cell.kkind == "int":
                data = dict(vk=cell.dom, vw=lambda v: z3.If(cell.dom(v), cell.val(v), z3.IntVal(0)), plain=True)
            elif cell.kkind is None:
                data = dict(vk=lambda v: z3.BoolVal(False), vw=lambda v: z3.IntVal(0), plain=True)
            else:
                data = dict(outs=cell)
                data["plain"] = False
            interp.event("create", m, term)
        return opaque_dist(term, data)

    i.handlers["IProbabilityDistributionFactory"] = {"create": create}


def convolve(p, a, b):
    def vw(v):
        x = p.fresh("cx", INT)
        return p.mk_sum([x], z3.If(z3.And(a["vk"](x), b["vk"](v - x)), a["vw"](x) * b["vw"](v - x), z3.IntVal(0)))

    def vk(v):
        from loops import exists

        x = p.fresh("cx", INT)
        return exists(p, [x], z3.And(a["vk"](x), b["vk"](v - x)))

    return dict(vk=vk, vw=vw, plain=True)


def install_exprs(ctx):
    i = ctx.interp
    table = {}

    def roll(interp, obj, a, k):
        v = ctx.p.fresh("roll", INT)
        interp.event("roll", obj.term, v)
        return v

    table["roll"] = roll

    def getdist(interp, obj, a, k):
        interp.event("distribution", obj.term)
        return opaque_dist(DISTOF(obj.term))

    table["get_probability_distribution"] = getdist

    def num(fun, name):
        def fn(interp, obj, a, k):
            interp.event(name, obj.term)
            return fun(obj.term)

        return fn

    table["max"] = num(MAXE, "max")
    table["min"] = num(MINE, "min")
    table["estimated_cost"] = num(COST, "cost")
    table["get_contained_variables"] = lambda interp, obj, a, k: interp.alloc(
        SymSet(("op", "str:name"), lambda x: VARS(obj.term, x))
    )
    i.handlers["IDiceExpression"] = table


def expr(name):
    return opaque("IDiceExpression", name)


def rolls(trace):
    """(operands rolled, values) or None when a roll happens in a loop"""
    out = []
    for e in trace:
        if e[0] == "roll":
            out.append((e[1], e[2]))
        elif e[0] == "loop":
            return None
    return out
