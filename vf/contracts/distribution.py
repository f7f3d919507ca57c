"""ProbabilityDistribution: numbers of ways of combinations, and its tables."""
from base import *

CLS = PD + "probability_distribution:ProbabilityDistribution"


def dist_map(ctx, d, nonneg=True):
    """the outcome map of an abstract distribution"""
    return SymMap(("op", "IProbabilityOutcome"), "int", lambda o: DOM(d, o), lambda o: CNT(d, o))


def wf(ctx, d):
    """well-formed: counts of the keys are not negative"""
    o = z3.Const("o!wf", OutSort)
    return z3.ForAll([o], z3.Implies(DOM(d, o), CNT(d, o) >= 0))


def counted(d):
    """every outcome a distribution reports has a positive number of ways"""
    o = z3.Const("o!counted", OutSort)
    return z3.ForAll([o], z3.Implies(DOM(d, o), CNT(d, o) > 0))


def install(ctx):
    i = ctx.interp

    def result_map(interp, obj, a, k):
        return interp.alloc(dist_map(ctx, obj.term))

    i.handlers["IProbabilityDistribution"] = {"get_constraint_result_map": result_map}


def make(ctx, n):
    """a real distribution object holding the abstract map of d"""
    i = ctx.interp
    d = z3.Const("d" + n, Dist)
    ref = i.alloc(dist_map(ctx, d))
    fac = opaque("IProbabilityOutcomeFactory", "factory")
    obj = i.call(i.get(CLS), [fac, ref])
    return d, obj


def ways(ctx, r, value, key="get_constraint_result_map"):
    """(dom, val) of the map a distribution reports, as functions"""
    i = ctx.interp

    def run():
        from models import map_to_sym

        m = i.call(i.getattr(value, key), [])
        cell = map_to_sym(i, i.cell(m))
        if cell.kkind is None:  # a map nothing was ever put into
            kind = "int" if key == "get_result_map" else ("op", "IProbabilityOutcome")
            return SymMap(kind, "int", lambda x: z3.BoolVal(False), lambda x: z3.IntVal(0), cell.default)
        return cell

    out = ctx.at(r, run)
    integers(ctx, out.value)
    return out


def integers(ctx, m):
    """numbers of ways are exact: no floating-point number ends up in the map"""
    if m.vkind == "real":
        ctx.record("numbers of ways are integers", False, "a floating-point number is used as a number of ways")


def product(ctx, f, d1, d2, o):
    p, q = z3.Consts("p!b q!b", OutSort)
    res = MKOUT(f(VALUE(p), VALUE(q)), COMBINE(CSET(p), CSET(q)))
    body = z3.If(
        z3.And(DOM(d1, p), DOM(d2, q), res == o, POSS(CSET(o))),
        CNT(d1, p) * CNT(d2, q),
        z3.IntVal(0),
    )
    return ctx.p.mk_sum([p, q], body)


def binop(ctx, name, same=None):
    """`same`: the operand is the distribution itself; otherwise any other distribution"""
    i = ctx.interp
    install(ctx)
    i.aliasing_covered = True
    d1, a = make(ctx, "1")
    if same:
        other, d2 = a, d1
    else:
        other = opaque("IProbabilityDistribution", "d2")
        d2 = other.term
    o = z3.Const("o", OutSort)
    p, q = z3.Consts("p q", OutSort)
    res = MKOUT(OPSPEC[name](VALUE(p), VALUE(q)), COMBINE(CSET(p), CSET(q)))
    some = z3.Exists([p, q], z3.And(DOM(d1, p), DOM(d2, q), res == o, POSS(CSET(o))))
    div = name == "__floordiv__"
    z = z3.Exists([p, q], z3.And(DOM(d1, p), DOM(d2, q), VALUE(q) == 0))
    returned = False
    for r in ctx.paths(lambda: i.call(i.getattr(a, name), [other])):
        if div and r.kind == "raise" and r.exc.name == "ZeroDivisionError":
            ctx.prove("ZeroDivisionError only when a divisor is 0", r.all, z)
            continue
        if r.kind == "raise":
            ctx.record(f"no exception: raises {r.exc.name}", False, str(r.all))
            continue
        returned = True
        if div:
            ctx.prove("a divisor 0 is reported", r.all, z3.Not(z))
        x = ways(ctx, r, r.value)
        m = x.value
        val = z3.If(m.dom(o), m.val(o), z3.IntVal(0))
        ctx.equal("ways", r.all, val, product(ctx, OPSPEC[name], d1, d2, o))
        ctx.prove("keys", r.all, m.dom(o) == some)
        ctx.positive("counts stay positive", r.all + [counted(d1), counted(d2), m.dom(o)], m.val(o))
    ctx.record("returns", returned)


def unop(ctx, name):
    i = ctx.interp
    install(ctx)
    d1, a = make(ctx, "1")
    o = z3.Const("o", OutSort)
    p = z3.Const("p!b", OutSort)
    res = MKOUT(UNSPEC[name](VALUE(p)), CSET(p))
    spec = ctx.p.mk_sum([p], z3.If(z3.And(DOM(d1, p), res == o), CNT(d1, p), z3.IntVal(0)))
    for r in ctx.paths(lambda: i.call(i.getattr(a, name), [])):
        if r.kind == "raise":
            ctx.record(f"no exception: raises {r.exc.name}", False, str(r.all))
            continue
        m = ways(ctx, r, r.value).value
        ctx.equal("ways", r.all, z3.If(m.dom(o), m.val(o), z3.IntVal(0)), spec)
        ctx.prove("keys", r.all, m.dom(o) == z3.Exists([p], z3.And(DOM(d1, p), res == o)))
        ctx.positive("counts stay positive", r.all + [counted(d1), m.dom(o)], m.val(o))


def value_ways(ctx, d, v):
    """number of ways of a value in an abstract distribution"""
    p = z3.Const("p!v", OutSort)
    return ctx.p.mk_sum([p], z3.If(z3.And(DOM(d, p), VALUE(p) == v), CNT(d, p), z3.IntVal(0)))


def value_key(d, v):
    p = z3.Const("p!k", OutSort)
    return z3.Exists([p], z3.And(DOM(d, p), VALUE(p) == v))


def value_binop(ctx, name, same=None):
    """operands that share no variable: the counts multiply, value by value"""
    i = ctx.interp
    install(ctx)
    i.aliasing_covered = True
    d1, a = make(ctx, "1")
    if same:
        other, d2 = a, d1
    else:
        other = opaque("IProbabilityDistribution", "d2")
        d2 = other.term
    p, q = z3.Consts("p q", OutSort)
    noshare = z3.ForAll([p, q], z3.Implies(z3.And(DOM(d1, p), DOM(d2, q)), POSS(COMBINE(CSET(p), CSET(q)))))
    i.assume(noshare)
    div = name == "__floordiv__"
    r_ = z3.Int("r")
    b1, b2 = z3.Consts("p!1 q!1", OutSort)
    f = OPSPEC[name]
    spec = ctx.p.mk_sum(
        [b1, b2],
        z3.If(
            z3.And(DOM(d1, b1), DOM(d2, b2), f(VALUE(b1), VALUE(b2)) == r_), CNT(d1, b1) * CNT(d2, b2), z3.IntVal(0)
        ),
    )
    for r in ctx.paths(lambda: i.call(i.getattr(a, name), [other])):
        if r.kind == "raise":
            if div and r.exc.name == "ZeroDivisionError":
                continue
            ctx.record(f"no exception: raises {r.exc.name}", False, str(r.all))
            continue
        m = ways(ctx, r, r.value, "get_result_map").value
        ctx.equal("ways of a value", r.all, z3.If(m.dom(r_), m.val(r_), z3.IntVal(0)), spec)
        ctx.prove(
            "values reported",
            r.all,
            m.dom(r_) == z3.Exists([p, q], z3.And(DOM(d1, p), DOM(d2, q), f(VALUE(p), VALUE(q)) == r_)),
        )


def some_outcome(d):
    """what a positive total says: there is an outcome (an empty sum is 0)"""
    o = z3.Const("o!some", OutSort)
    return z3.Exists([o], DOM(d, o))


def total(ctx, d):
    p = z3.Const("p!t", OutSort)
    return ctx.p.mk_sum([p], z3.If(DOM(d, p), CNT(d, p), z3.IntVal(0)))


def tables(ctx):
    """get_result_map, get_dict_form, average, max, min, contains_zero"""
    i = ctx.interp
    install(ctx)
    d, a = make(ctx, "1")
    v = z3.Int("v")
    T = total(ctx, d)
    i.assume(T > 0)
    i.assume(some_outcome(d))
    i.assume(wf(ctx, d))

    def each(name, obs):
        for r in ctx.paths(lambda: i.call(i.getattr(a, name), [])):
            if r.kind == "raise":
                ctx.prove(f"{name}: no {r.exc.name}", r.all, z3.BoolVal(False))
                continue
            obs(r)

    def as_map(r):
        from models import map_to_sym

        return ctx.at(r, lambda: map_to_sym(i, i.cell(r.value))).value

    def result_map(r):
        m = as_map(r)
        integers(ctx, m)
        ctx.equal("get_result_map: ways", r.all, z3.If(m.dom(v), m.val(v), z3.IntVal(0)), value_ways(ctx, d, v))
        ctx.prove("get_result_map: keys", r.all, m.dom(v) == value_key(d, v))
        ctx.positive("get_result_map: numbers of ways are positive", r.all + [counted(d), m.dom(v)], m.val(v))

    each("get_result_map", result_map)

    def dict_form(r):
        m = as_map(r)
        ctx.equal(
            "get_dict_form: probability",
            r.all,
            z3.If(m.dom(v), m.val(v), z3.RealVal(0)),
            z3.ToReal(value_ways(ctx, d, v)) / z3.ToReal(T),
        )
        ctx.prove("get_dict_form: keys", r.all, m.dom(v) == value_key(d, v))
        w = z3.Int("v!sum")
        all_ = ctx.p.mk_sum([w], z3.If(m.dom(w), m.val(w), z3.RealVal(0)))
        ctx.equal("get_dict_form: probabilities sum to 1", r.all, all_, z3.ToReal(T) / z3.ToReal(T))

    each("get_dict_form", dict_form)

    def average(r):
        p = z3.Const("p!a", OutSort)
        spec = ctx.p.mk_sum([p], z3.If(DOM(d, p), VALUE(p) * CNT(d, p), z3.IntVal(0)))
        ctx.equal("average", r.all, as_real(r.value), z3.ToReal(spec) / z3.ToReal(T))

    each("average", average)

    def extreme(kind):
        def obs(r):
            m = as_int(r.value)
            ctx.prove(f"{kind} is reported", r.all, value_key(d, m))
            o = z3.Const("o", OutSort)
            ctx.prove(f"{kind} bounds", r.all + [DOM(d, o)], VALUE(o) <= m if kind == "max" else VALUE(o) >= m)

        return obs

    each("max", extreme("max"))
    each("min", extreme("min"))
    each("contains_zero", lambda r: ctx.prove("contains_zero", r.all, to_bool(i.truth(r.value)) == value_key(d, z3.IntVal(0))))


def cumulative(ctx, name):
    """at_least / at_most for every integer between the extremes"""
    i = ctx.interp
    install(ctx)
    d, a = make(ctx, "1")
    v = z3.Int("v")
    T = total(ctx, d)
    i.assume(T > 0)
    i.assume(some_outcome(d))
    i.assume(wf(ctx, d))
    p = z3.Const("p!c", OutSort)
    side = (lambda x: x >= v) if name == "at_least" else (lambda x: x <= v)
    ways_ = ctx.p.mk_sum([p], z3.If(z3.And(DOM(d, p), side(VALUE(p))), CNT(d, p), z3.IntVal(0)))
    lo, hi = z3.Consts("lo hi", OutSort)
    within = z3.Exists([lo, hi], z3.And(DOM(d, lo), DOM(d, hi), VALUE(lo) <= v, v <= VALUE(hi)))
    for r in ctx.paths(lambda: i.call(i.getattr(a, name), [])):
        if r.kind == "raise":
            ctx.prove(f"no {r.exc.name}", r.all, z3.BoolVal(False))
            continue
        from models import map_to_sym

        m = ctx.at(r, lambda: map_to_sym(i, i.cell(r.value))).value
        ctx.prove("keys are the integers between the extremes", r.all, m.dom(v) == within)
        one = z3.ToReal(T) / z3.ToReal(T)
        ctx.prove("total over total is 1", r.all, one == 1)
        shift = one - 1 if name == "at_least" else z3.RealVal(0)
        ctx.equal("probability", r.all + [m.dom(v)], as_real(m.val(v)) + shift, z3.ToReal(ways_) / z3.ToReal(T))
