"""Making distributions and outcomes: constructors and factories."""
from ifaces import *
import distribution as D

FACTORY = PD + "probability_distribution_factory:ProbabilityDistributionFactory"
OUTFACTORY = PD + "probability_outcome_factory:ProbabilityOutcomeFactory"
CSFACTORY = CO + "constraint_set_factory:ConstraintSetFactory"


def from_values(ctx, how="given"):
    """create({value: count}): each value unconstrained, with its count; if no factory of
    outcomes is given the default one is used"""
    i = ctx.interp
    k = z3.Function("given", INT, BOOL)
    w = z3.Function("count", INT, INT)
    given = opaque("IProbabilityOutcomeFactory", "factory")
    if how == "default":
        m, c = OUTFACTORY.split(":")
        i.overrides[(m, c)] = lambda interp, a, kw: given
    fac = i.call(i.get(FACTORY), [] if how == "default" else [given])
    v = z3.Int("v")
    o = z3.Const("o", OutSort)
    for r in ctx.paths(lambda: i.call(i.getattr(fac, "create"), [i.alloc(SymMap("int", "int", k, w))])):
        if r.kind == "raise":
            ctx.record(f"raises {r.exc.name}", False, str(r.all))
            continue
        m = D.ways(ctx, r, r.value).value
        ctx.prove("outcomes are the values, unconstrained", r.all, m.dom(o) == z3.And(k(VALUE(o)), CSET(o) == EMPTYCS))
        ctx.equal("counts", r.all + [m.dom(o)], m.val(o), w(VALUE(o)))
        n = D.ways(ctx, r, r.value, "get_result_map").value
        ctx.prove("values reported", r.all, n.dom(v) == k(v))
        ctx.equal("ways of a value", r.all, z3.If(n.dom(v), n.val(v), z3.IntVal(0)), z3.If(k(v), w(v), z3.IntVal(0)))


def from_outcomes(ctx):
    i = ctx.interp
    D.install(ctx)
    d = z3.Const("d", Dist)
    fac = i.call(i.get(FACTORY), [opaque("IProbabilityOutcomeFactory", "factory")])
    o = z3.Const("o", OutSort)
    given = i.alloc(D.dist_map(ctx, d))
    for r in ctx.paths(lambda: i.call(i.getattr(fac, "create"), [given])):
        if r.kind == "raise":
            ctx.record(f"raises {r.exc.name}", False, str(r.all))
            continue
        m = D.ways(ctx, r, r.value).value
        ctx.prove("outcomes", r.all, m.dom(o) == DOM(d, o))
        ctx.equal("counts", r.all + [m.dom(o)], m.val(o), CNT(d, o))


def empty(ctx):
    i = ctx.interp
    fac = i.call(i.get(FACTORY), [opaque("IProbabilityOutcomeFactory", "factory")])
    for args in ([], [None]):
        for r in ctx.paths(lambda: i.call(i.getattr(fac, "create"), list(args))):
            if r.kind == "raise":
                ctx.record(f"raises {r.exc.name}", False, str(r.all))
                continue
            m = D.ways(ctx, r, r.value).value
            o = z3.Const("o", OutSort)
            ctx.prove("no outcome", r.all, z3.Not(m.dom(o)) if m.kkind is not None else z3.BoolVal(True))


def unconstrained(ctx):
    """the default factories: a value with the constraint set that holds always"""
    i = ctx.interp
    v = z3.Int("v")
    fac = i.call(i.get(OUTFACTORY), [])
    for r in ctx.paths(lambda: i.call(i.getattr(fac, "create_empty"), [], {"value": v})):
        if r.kind == "raise":
            ctx.record(f"raises {r.exc.name}", False, str(r.all))
            continue

        def look():
            cs = i.getattr(r.value, "constraint_set")
            both = i.call(i.getattr(cs, "combine_sets"), [cs])
            fresh = i.getattr(i.call(i.getattr(fac, "create_empty"), [], {"value": v}), "constraint_set")
            return (
                as_int(i.getattr(r.value, "value")) == v,
                i.truth(i.call(i.getattr(r.value, "is_possible"), [])),
                i.truth(i.compare("__eq__", both, cs)),
                i.truth(i.call(i.getattr(both, "is_possible"), [])),
                i.truth(i.compare("__eq__", fresh, cs)),
            )

        x = ctx.at(r, look).value
        for name, ok in zip(("value", "possible", "combining with itself changes nothing", "the combination is possible", "always the same set"), x):
            ctx.prove(name, r.all, to_bool(ok))


def states(ctx):
    """a state factory with nothing given makes states of their own, empty"""
    i = ctx.interp
    cls = PD + "probability_distribution_state_factory:ProbabilityDistributionStateFactory"
    value = z3.Int("value")

    def run():
        sf = i.call(i.get(cls), [])
        one, two = (i.call(i.getattr(sf, "create_new_empty_set"), []) for _ in range(2))
        ask = lambda s: [i.truth(i.call(i.getattr(s, g), ["a"])) for g in ("has_var", "has_constant")]
        before = ask(one) + ask(two)
        i.call(i.getattr(one, "set_constant"), ["a", value])
        three = i.call(i.getattr(sf, "create_new_empty_set"), [])
        return before + ask(two) + ask(three), as_int(i.call(i.getattr(one, "get_constant"), ["a"]))

    for r in ctx.paths(run):
        if r.kind == "raise":
            ctx.record(f"raises {r.exc.name}", False, str(r.all))
            continue
        for b in r.value[0]:
            ctx.prove("a new state is empty and its own", r.all, z3.Not(to_bool(b)))
        ctx.prove("what is set is there", r.all, r.value[1] == value)
