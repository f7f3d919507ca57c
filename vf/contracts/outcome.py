"""ProbabilityOutcome: value and constraint set of every operation."""
from base import *

CLS = PD + "probability_outcome:ProbabilityOutcome"


def make(ctx, n):
    i = ctx.interp
    v = z3.Int("v" + n)
    c = z3.Const("c" + n, CS)
    return v, c, i.call(i.get(CLS), [v, Opaque("IConstraintSet", c)])


def binop(ctx, name, same=None):
    i = ctx.interp
    i.aliasing_covered = True
    v1, c1, a = make(ctx, "1")
    if same:
        other, v2, c2 = a, v1, c1
    else:
        other = opaque("IProbabilityOutcome", "o2")
        v2, c2 = VALUE(other.term), CSET(other.term)

    def run():
        return i.call(i.getattr(a, name), [other])

    div = name == "__floordiv__"
    returned = False
    for r in ctx.paths(run):
        if div and r.kind == "raise" and r.exc.name == "ZeroDivisionError":
            ctx.prove("division by zero is raised only for divisor 0", r.all, v2 == 0)
            continue
        if r.kind == "raise":
            ctx.record(f"no exception: raises {r.exc.name}", False, str(r.all))
            continue
        returned = True
        x = ctx.at(r, lambda: other_out(i, r.value))
        rv, rc = x.value
        if div:
            ctx.prove("divisor 0 gives no value", r.all, v2 != 0)
        ctx.equal("value", r.all, rv, OPSPEC[name](v1, v2))
        ctx.equal("constraints are combined", r.all, rc, COMBINE(c1, c2))
    ctx.record("returns", returned)


def unop(ctx, name):
    i = ctx.interp
    v1, c1, a = make(ctx, "1")
    for r in ctx.paths(lambda: i.call(i.getattr(a, name), [])):
        if r.kind == "raise":
            ctx.record(f"no exception: raises {r.exc.name}", False, str(r.all))
            continue
        rv, rc = ctx.at(r, lambda: other_out(i, r.value)).value
        ctx.equal("value", r.all, rv, UNSPEC[name](v1))
        ctx.equal("constraints are kept", r.all, rc, c1)


def equality(ctx):
    """outcomes are equal exactly when value and constraint set are, and then their
    hashes are equal"""
    from models import b_hash

    i = ctx.interp
    v1, c1, a = make(ctx, "1")
    v2, c2, b = make(ctx, "2")
    EQ = z3.Function("sets_equal", CS, CS, BOOL)
    H = z3.Function("hash_of_set", CS, INT)
    x, y = z3.Consts("x!e y!e", CS)
    i.assume(z3.ForAll([x, y], z3.Implies(EQ(x, y), H(x) == H(y))))  # C10, merging.equality
    i.assume(z3.ForAll([x], EQ(x, x)))
    table = i.handlers["IConstraintSet"]
    table["__eq__"] = lambda interp, obj, args, k: EQ(obj.term, interp.encode(args[0])[1])
    table["__ne__"] = lambda interp, obj, args, k: z3.Not(EQ(obj.term, interp.encode(args[0])[1]))
    table["__hash__"] = lambda interp, obj, args, k: H(obj.term)

    def run():
        return (i.truth(i.compare("__eq__", a, b)), i.truth(i.compare("__ne__", a, b)), b_hash(i, [a], {}), b_hash(i, [b], {}),
                i.truth(i.compare("__eq__", a, a)))

    for r in ctx.paths(run):
        if r.kind == "raise":
            ctx.record(f"comparison raises {r.exc.name}", False, str(r.all))
            continue
        eq, ne, h1, h2, me = r.value
        ctx.prove("equal when value and constraints are", r.all, to_bool(eq) == z3.And(v1 == v2, EQ(c1, c2)))
        ctx.prove("equal outcomes have equal hashes", r.all + [to_bool(eq)], as_int(h1) == as_int(h2))
        ctx.prove("!= is not ==", r.all, to_bool(ne) == z3.Not(to_bool(eq)))
        ctx.prove("an outcome equals itself", r.all, to_bool(me))
    other = opaque("something_else", "x")
    for r in ctx.paths(lambda: i.call(i.getattr(a, "is_possible"), [])):
        ctx.prove("possible when its constraints are", r.all, to_bool(r.value) == POSS(c1))
