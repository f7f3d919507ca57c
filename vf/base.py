"""Obligations, tasks and the contracts assumed for objects known by interface.

A task proves the contract of some functions of /repo; it makes its own
interpreter, executes the real source and sends obligations to the prover."""
import os
import time
import traceback

import z3

from values import *  # noqa: F401,F403
from values import Out as OutSort
from engine import Interp
from sums import Prover, FDIV

REPO = os.environ.get("VF_REPO", "/repo")
P = "python_dice.src."
PD = P + "probability_distribution."
EX = P + "expression."
CO = P + "constraint."

INT, BOOL = z3.IntSort(), z3.BoolSort()

# ghost functions of the interface contracts
COMBINE = z3.Function("combine", CS, CS, CS)
POSS = z3.Function("possible", CS, BOOL)
VALUE = OutSort.value
CSET = OutSort.cset
MKOUT = OutSort.mk
DOM = z3.Function("keys", Dist, OutSort, BOOL)
CNT = z3.Function("ways", Dist, OutSort, INT)
EMPTYCS = z3.Const("unconstrained", CS)
DISTOF = z3.Function("distribution_of", Expr, Dist)


class Obl:
    def __init__(self, name, ok, detail="", seconds=0.0):
        self.name, self.ok, self.detail, self.seconds = name, ok, detail, seconds


class Ctx:
    """one task run"""

    def __init__(self, name):
        self.name = name
        self.interp = Interp(REPO, Prover())
        self.p = self.interp.prover
        self.obls = []
        install_interfaces(self.interp)

    def record(self, name, ok, detail=""):
        self.obls.append(Obl(f"{self.name}/{name}", ok, detail))
        return ok

    def prove(self, name, facts, goal, timeout=None):
        start = time.time()
        if isinstance(goal, bool):
            goal = z3.BoolVal(goal)
        ok = self.p.valid(facts, goal, timeout)
        detail = ""
        if ok is not True:
            detail = f"goal {goal}\nunder {facts}\n" + (f"countermodel {self.p.last_model}" if ok is False else f"unknown: {self.p.last_reason}")
        self.obls.append(Obl(f"{self.name}/{name}", ok, detail[:6000], time.time() - start))
        return ok

    def equal(self, name, facts, lhs, rhs, timeout=None):
        start = time.time()
        self.p.last_model = None
        ok = self.p.equal(facts, lhs, rhs, timeout)
        detail = ""
        if ok is not True:
            detail = f"{lhs} == {rhs}\nunder {facts}\n{self.p.last_reason}\n{self.p.last_model}"
        self.obls.append(Obl(f"{self.name}/{name}", ok, detail[:6000], time.time() - start))
        return ok

    def positive(self, name, facts, e):
        start = time.time()
        self.p.last_model = None
        ok = self.p.positive(facts, e)
        detail = "" if ok is True else f"{e} > 0\nunder {facts}\n{self.p.last_reason}\n{self.p.last_model}"
        self.obls.append(Obl(f"{self.name}/{name}", ok, detail[:6000], time.time() - start))
        return ok

    def paths(self, thunk):
        """all feasible paths of a piece of real code; facts = path condition"""
        out = self.interp.explore(thunk)
        good = []
        for r in out:
            facts = self.interp.all_facts() + r.facts + r.conds
            if self.p.infeasible(list(self.p.axioms) + facts):
                continue
            if r.kind != "raise" and getattr(r, "value", None) is POISON:
                raise Unsupported("result of a loop without invariant")
            r.all = facts
            good.append(r)
        if not good:
            raise Vacuous(f"{self.name}: no feasible path")
        return good

    def at(self, r, thunk):
        """evaluate something in the state at the end of a path (no forks)"""
        i = self.interp
        saved = (i.heap, i.conds, i.facts, i.trace)
        base_c, base_f = list(i.conds), list(i.facts)
        i.heap = type(r.heap)(r.heap)
        i.conds = base_c + r.conds
        i.facts = base_f + r.facts
        try:
            res = i.explore(thunk)
        finally:
            i.heap, i.conds, i.facts, i.trace = saved
        if len(res) != 1:
            raise Unsupported("observation forks")
        x = res[0]
        if x.kind not in ("normal", "return"):
            raise Unsupported(f"observation raises {x.exc}")
        return x


class Vacuous(Exception):
    pass


# ------------------------------------------------------------------ interface contracts
def other_out(i, o):
    """(value, cset) of an outcome argument"""
    v = i.getattr(o, "value")
    c = i.getattr(o, "constraint_set")
    return as_int(v), i.encode(c)[1]


PYFLOOR = lambda a, b: FDIV(a, b)
b2i = lambda c: z3.If(c, z3.IntVal(1), z3.IntVal(0))

# the integer function of every operation (the specification)
OPSPEC = {
    "__add__": lambda a, b: a + b,
    "__sub__": lambda a, b: a - b,
    "__mul__": lambda a, b: a * b,
    "__floordiv__": PYFLOOR,
    "__equal__": lambda a, b: b2i(a == b),
    "__not_equal__": lambda a, b: b2i(a != b),
    "__lt__": lambda a, b: b2i(a < b),
    "__le__": lambda a, b: b2i(a <= b),
    "__gt__": lambda a, b: b2i(a > b),
    "__ge__": lambda a, b: b2i(a >= b),
    "__and__": lambda a, b: b2i(z3.And(a > 0, b > 0)),
    "__or__": lambda a, b: b2i(z3.Or(a > 0, b > 0)),
    "max_operator": lambda a, b: z3.If(a >= b, a, b),
    "min_operator": lambda a, b: z3.If(a <= b, a, b),
}
UNSPEC = {
    "not_operator": lambda a: b2i(z3.Not(a > 0)),
    "__abs__": lambda a: z3.If(a >= 0, a, -a),
}


def install_interfaces(i):
    def binary(name):
        def fn(interp, obj, args, kwargs):
            if len(args) != 1 or not is_outcome(interp, args[0]):
                raise PyRaise("TypeError")
            v2, c2 = other_out(interp, args[0])
            v1 = VALUE(obj.term)
            if name == "__floordiv__" and interp.branch(v2 == 0):
                raise PyRaise("ZeroDivisionError")
            return Opaque("IProbabilityOutcome", MKOUT(OPSPEC[name](v1, v2), COMBINE(CSET(obj.term), c2)))

        return fn

    out = {n: binary(n) for n in OPSPEC}
    for n in UNSPEC:
        out[n] = lambda interp, obj, a, k, n=n: Opaque("IProbabilityOutcome", MKOUT(UNSPEC[n](VALUE(obj.term)), CSET(obj.term)))
    out["prop:value"] = lambda interp, obj: z3.simplify(VALUE(obj.term))
    out["prop:constraint_set"] = lambda interp, obj: Opaque("IConstraintSet", z3.simplify(CSET(obj.term)))
    out["is_possible"] = lambda interp, obj, a, k: POSS(z3.simplify(CSET(obj.term)))

    def out_eq(interp, obj, a, k):
        v, c = other_out(interp, a[0])
        return z3.And(VALUE(obj.term) == v, CSET(obj.term) == c)

    out["__eq__"] = out_eq
    i.handlers["IProbabilityOutcome"] = out

    cs = {}

    def combine(interp, obj, a, k):
        other = a[0] if a else k["constraint_set"]
        return Opaque("IConstraintSet", COMBINE(obj.term, interp.encode(other)[1]))

    cs["combine_sets"] = combine
    cs["is_possible"] = lambda interp, obj, a, k: POSS(obj.term)
    i.handlers["IConstraintSet"] = cs

    fac = {}

    def create_empty(interp, obj, a, k):
        v = a[0] if a else k["value"]
        return Opaque("IProbabilityOutcome", MKOUT(as_int(v), EMPTYCS))

    fac["create_empty"] = create_empty
    i.handlers["IProbabilityOutcomeFactory"] = fac


def is_outcome(i, v):
    if isinstance(v, Opaque):
        return v.iface == "IProbabilityOutcome"
    return isinstance(v, Ref) and isinstance(i.cell(v), InstCell) and any(getattr(c, "name", "") == "IProbabilityOutcome" for c in i.cell(v).cls.mro())


def opaque(iface, name):
    sort = SORT_OF_IFACE.get(iface, Thing)
    return Opaque(iface, z3.Const(name, sort))


def out_term(i, v):
    """Out term of an outcome value (opaque or instance)"""
    a, c = other_out(i, v)
    return MKOUT(a, c)
