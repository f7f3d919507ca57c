"""DiceExpression: N dice with the faces of a dice type."""
from ifaces import *
from strings import SStr
from loops import Form

HELPER = ("python_dice.src.expression.dice_expression_helper", "get_single_dice_outcome_map")
DTYPE = z3.Const("X", Thing)
FK = z3.Function("is_face", Thing, INT, BOOL)
FW = z3.Function("face_weight", Thing, INT, INT)
POW = z3.Function("n_dice_ways", INT, INT, INT)
KPOW = z3.Function("n_dice_total", INT, INT, BOOL)
NAMECLS = "dice_expression:DiceExpression"


def face(x):
    return z3.If(FK(DTYPE, x), FW(DTYPE, x), z3.IntVal(0))


def install_faces(ctx):
    """contract of get_single_dice_outcome_map (proved for C04): the faces of the
    type with their multiplicities, at least one, all positive"""
    i = ctx.interp

    def helper(interp, a, k):
        arg = a[0] if a else k.get("dice_type_string")
        if not (isinstance(arg, SStr) and len(arg.atoms) == 1 and arg.atoms[0][0] == "dtype"):
            raise Unsupported("dice type text")
        t = arg.atoms[0][1]
        return interp.alloc(SymMap("int", "int", lambda x: FK(t, x), lambda x: FW(t, x)))

    i.get(EX + "dice_expression_helper:get_single_dice_outcome_map")
    i.overrides[HELPER] = helper
    x = z3.Int("x!f")
    ctx.some_face = z3.Int("some_face")
    i.assume(z3.ForAll([x], z3.Implies(FK(DTYPE, x), FW(DTYPE, x) > 0)))
    i.assume(FK(DTYPE, ctx.some_face))


def build(ctx, shape="number"):
    i = ctx.interp
    install_dists(ctx)
    install_faces(ctx)
    i.hints.append(dice_hint(ctx))
    fac = opaque("IProbabilityDistributionFactory", "factory")
    if shape == "number":
        n = z3.Int("N")
        i.assume(n >= 0)
        text = SStr([("num", n), "d", ("dtype", DTYPE)])
    else:
        n = z3.IntVal(1)
        text = SStr(["d", ("dtype", DTYPE)])
    return i.call(i.get(EX + NAMECLS), [text, fac]), n


def spec_step(p, k, v):
    """definition: n+1 dice = one more face"""
    x = p.fresh("fx", INT)
    return p.mk_sum([x], z3.If(FK(DTYPE, x), FW(DTYPE, x) * POW(k, v - x), z3.IntVal(0)))


def kspec_step(k, v):
    x = z3.Int("x!ks")
    return z3.Exists([x], z3.And(FK(DTYPE, x), KPOW(k, v - x)))


def dice_hint(ctx):
    """after k iterations the accumulated distribution is that of k dice"""
    p = ctx.p

    def data_at(k):
        return dict(vk=lambda v: KPOW(k, v), vw=lambda v: z3.If(KPOW(k, v), POW(k, v), z3.IntVal(0)), plain=True)

    def hint(i, comp, summary, k, lo):
        if comp.kind != ("op", "IProbabilityDistribution") or not i.branchless_true(lo == 0):
            return None

        def at(kk):
            return opaque_dist(z3.Function("dist_of_n_dice", INT, Dist)(kk), data_at(kk))

        def equal(interp, s, c, facts, value, kk):
            if not isinstance(value, Opaque) or not value.data or not value.data.get("plain"):
                return False
            v = p.fresh("v", INT)
            kk = z3.simplify(kk)
            vk, vw = value.data["vk"](v), z3.If(value.data["vk"](v), value.data["vw"](v), z3.IntVal(0))
            if p.valid(facts, kk == 0) is True:
                return p.valid(facts, vk == (v == 0)) is True and p.equal(facts, vw, b2i(v == 0)) is True
            prev = z3.simplify(kk - 1)
            y = z3.Int("y!z")
            # POW(k,·) is 0 outside KPOW(k,·): lemma proved below (pow_zero)
            extra = [z3.ForAll([y], z3.Implies(z3.Not(KPOW(prev, y)), POW(prev, y) == 0))]
            return (
                p.valid(facts, vk == kspec_step(prev, v)) is True
                and p.equal(facts + extra, vw, spec_step(p, prev, v)) is True
            )

        return Form(at, equal)

    return hint


def pow_facts(n, v):
    """definition of POW/KPOW at 0"""
    return [POW(0, v) == b2i(v == 0), KPOW(0, v) == (v == 0)]


def distribution(ctx, shape="number"):
    i, p = ctx.interp, ctx.p
    obj, n = build(ctx, shape)
    v = z3.Int("v")
    y = z3.Int("y")
    defs = [z3.ForAll([y], z3.And(*pow_facts(0, y)))]
    one = z3.ForAll([y], z3.And(KPOW(1, y) == FK(DTYPE, y), POW(1, y) == face(y)))
    for r in ctx.paths(lambda: i.call(i.getattr(obj, "get_probability_distribution"), [])):
        if r.kind == "raise":
            ctx.record(f"raises {r.exc.name}", False, str(r.all))
            continue
        d = r.value.data if isinstance(r.value, Opaque) else None
        if not d or not d.get("plain"):
            ctx.record("result is a plain distribution", None, repr(r.value))
            continue
        facts = r.all + defs + [one, z3.ForAll([y], z3.Implies(z3.Not(KPOW(n, y)), POW(n, y) == 0))]
        ctx.prove("totals reported", facts, d["vk"](v) == KPOW(n, v))
        ctx.equal("ways of a total", facts, z3.If(d["vk"](v), d["vw"](v), z3.IntVal(0)), POW(n, v))
    lemmas(ctx)


def lemmas(ctx):
    """facts about the specification function, by induction on the number of dice"""
    p = ctx.p
    y, v, k = z3.Ints("y v k")
    x = z3.Int("x")
    # one die
    ctx.equal("spec: one die", [z3.ForAll([y], POW(0, y) == b2i(y == 0))], spec1(p, v), face(v))
    # POW is 0 where KPOW is false: the summands of the step vanish
    ih = z3.ForAll([y], z3.Implies(z3.Not(KPOW(k, y)), POW(k, y) == 0))
    ctx.prove(
        "spec: no ways where no total (induction step, per summand)",
        [ih, z3.Not(kspec_step(k, v)), FK(DTYPE, x)],
        FW(DTYPE, x) * POW(k, v - x) == 0,
    )


def spec1(p, v):
    x = p.fresh("fx", INT)
    return p.mk_sum([x], z3.If(FK(DTYPE, x), FW(DTYPE, x) * z3.If(v - x == 0, z3.IntVal(1), z3.IntVal(0)), z3.IntVal(0)))


def extremes(ctx, shape="number"):
    i, p = ctx.interp, ctx.p
    obj, n = build(ctx, shape)
    y, k = z3.Ints("y k")
    facts_k = [k >= 0]
    for kind in ("max", "min"):
        m = z3.Int(kind + "_face")
        le = (lambda a, b: a <= b) if kind == "max" else (lambda a, b: a >= b)
        ext = [FK(DTYPE, m), z3.ForAll([y], z3.Implies(FK(DTYPE, y), le(y, m)))]
        # lemma: the extreme total of k dice is k times the extreme face
        ih = [z3.ForAll([y], z3.Implies(KPOW(k, y), le(y, k * m))), KPOW(k, k * m)]
        v, x = z3.Ints("v x")
        ctx.prove(f"spec {kind}: base", [], le(z3.IntVal(0), 0 * m))
        ctx.prove(f"spec {kind}: bound step", ext + ih + facts_k + [FK(DTYPE, x), KPOW(k, v - x)], le(v, (k + 1) * m))
        ctx.prove(f"spec {kind}: attained step", ext + ih + facts_k, z3.And(FK(DTYPE, m), KPOW(k, (k + 1) * m - m)))
        for r in ctx.paths(lambda: i.call(i.getattr(obj, kind), [])):
            if r.kind == "raise":
                ctx.record(f"{kind} raises {r.exc.name}", False, str(r.all))
                continue
            ctx.prove(f"{kind} is the number of dice times the {kind} face", r.all + ext, as_int(r.value) == n * m)


def draws(trace):
    return [e for e in trace if e[0] == "draw"], [e for e in trace if e[0] == "loop"]


def check_draw(ctx, r, event, n):
    """n independent draws, every face with its multiplicity as weight"""
    _, pop, wts, count, t = event
    ctx.prove("number of dice drawn", r.all, z3.If(count > 0, count, z3.IntVal(0)) == n)
    v = z3.Int("v")
    ok = pairs_weight(ctx, pop, wts, v)
    if ok is None:
        ctx.record("faces and weights of the draw", None, "shape of population not recognised")
        return t
    ctx.equal("weight of every face in the draw", r.all, ok, face(v))
    return t


def pairs_weight(ctx, pop, wts, v):
    """total weight given to value v by (population, weights)"""
    p = ctx.p
    from models import same_ident

    if wts is None:
        return None
    if len(pop) != 1 or len(wts) != 1 or pop[0][0] != "e" or wts[0][0] != "e":
        return None
    a, b = pop[0][1], wts[0][1]
    if a.ident is None or b.ident is None or not same_ident(a.ident, b.ident) or len(a.vars) != len(b.vars):
        return None
    sub = list(zip(b.vars, a.vars))
    w = z3.substitute(as_int(b.elem), *sub)
    return p.mk_sum(a.vars, z3.If(z3.And(a.mem, as_int(a.elem) == v), w, z3.IntVal(0)))


def roll(ctx, shape="number"):
    i = ctx.interp
    obj, n = build(ctx, shape)
    from models import sum_l

    for r in ctx.paths(lambda: i.call(i.getattr(obj, "roll"), [])):
        if r.kind == "raise":
            ctx.record(f"raises {r.exc.name}", False, str(r.all))
            continue
        ds, loops = draws(r.trace)
        if loops or len(ds) > 1:
            raise Unsupported("dice drawn in several steps")
        if not ds:
            ctx.prove("no dice are drawn only when there are none", r.all, n == 0)
            ctx.prove("no dice total 0", r.all, as_int(r.value) == 0)
            continue
        t = check_draw(ctx, r, ds[0], n)
        ctx.prove("the roll is the sum of the dice", r.all, as_int(r.value) == sum_l(t))


def cost(ctx, shape="number"):
    i, p = ctx.interp, ctx.p
    obj, n = build(ctx, shape)
    x = p.fresh("fx", INT)
    faces = p.mk_sum([x], z3.If(FK(DTYPE, x), z3.IntVal(1), z3.IntVal(0)))
    for r in ctx.paths(lambda: i.call(i.getattr(obj, "estimated_cost"), [])):
        if r.kind == "raise":
            ctx.record(f"raises {r.exc.name}", False, str(r.all))
            continue
        ctx.equal("cost is dice times distinct faces", r.all, as_int(r.value), n * faces)
