"""DropKeepExpression: N dice of which the K highest are kept or dropped.

The specification counts sorted lists of faces, die by die:
  B(n, l): weighted n-tuples of faces that sorted give l,
  U(m, l): weighted (S+m)-tuples whose S highest (keep) or lowest (drop) dice sorted
           give l, where S is the number of dice that count,
by their recurrences (one more die is inserted; then the lowest, or the highest, of
the S+1 goes).  That these recurrences count exactly the N-tuples of the property is
lemma keep_counts / drop_counts in /verif/lemmas/Dice.lean."""
from ifaces import *
from strings import SStr
from loops import Form
from models import NIL, SNOC, SORTL, TAKE, DROP, SUML, LENL, len_l, map_to_sym
from dice import DTYPE, FK, FW, POW, KPOW, face, install_faces, dice_hint, pow_facts, draws, check_draw, pairs_weight
from values import IList

CLS = EX + "drop_keep_expression:DropKeepExpression"
BK = z3.Function("built_key", INT, IList, BOOL)
BW = z3.Function("built_ways", INT, IList, INT)
UK = z3.Function("kept_key", INT, IList, BOOL)
UW = z3.Function("kept_ways", INT, IList, INT)


def insert(l, x):
    return SORTL(SNOC(l, x))


def replace(mode, l, x):
    s = insert(l, x)
    return DROP(s, z3.IntVal(1)) if mode == "keep" else TAKE(s, z3.simplify(len_l(s) - 1))


def step(p, key, ways, fun, l):
    """(key, ways) of l after one more die"""
    x, o = p.fresh("fx", INT), p.fresh("ol", IList)
    hit = z3.And(FK(DTYPE, x), key(o), fun(o, x) == l)
    y, q = p.fresh("fy", INT), p.fresh("oq", IList)
    some = z3.Exists([y, q], z3.substitute(hit, (x, y), (o, q)))
    return some, p.mk_sum([x, o], z3.If(hit, FW(DTYPE, x) * ways(o), z3.IntVal(0)))


def is_lists(kind):
    return kind == "ilist" or (isinstance(kind, tuple) and kind[0] == "str" and len(kind[1]) == 1 and kind[1][0][0] == "join")


def list_hint(ctx, mode):
    p = ctx.p

    def hint(i, comp, summary, k, lo):
        if comp.cellkind != "map" or not is_lists(comp.kind[0]) or comp.kind[1] != "int" or not i.branchless_true(lo == 0):
            return None
        kind = comp.kind[0]
        forms = []
        for key, ways, fun in ((BK, BW, insert), (UK, UW, lambda l, x: replace(mode, l, x))):

            def cell(kk, key=key, ways=ways):
                return SymMap(kind, "int", lambda l: key(kk, l), lambda l: ways(kk, l))

            def equal(interp, s, c, facts, value, kk, key=key, ways=ways, fun=fun):
                kk = z3.simplify(kk)
                l = p.fresh("l", IList)
                m = map_to_sym(interp, value)
                if m.kkind is None:
                    return False
                zero = z3.IntVal(0)
                got = z3.If(m.dom(l), m.val(l), zero)
                if p.valid(facts, kk == 0) is True:
                    if key is BK:
                        return p.valid(facts, z3.And(m.dom(l) == (l == NIL), got == b2i(l == NIL))) is True
                    if p.valid(facts, z3.And(m.dom(l) == BK(ctx.selected, l), z3.Implies(m.dom(l), m.val(l) == BW(ctx.selected, l)))) is True:
                        return True
                    return False
                prev = z3.simplify(kk - 1)
                some, total = step(p, lambda o: key(prev, o), lambda o: ways(prev, o), fun, l)
                return p.valid(facts, m.dom(l) == some) is True and p.equal(facts, got, total) is True

            forms.append(Form(None, equal, cell=cell))
        return forms

    # one hint per form
    return [lambda i, c, s, k, lo, n=n: (hint(i, c, s, k, lo) or [None, None])[n] for n in (0, 1)]


def list_laws():
    """facts about integer lists (lemmas/Dice.lean)"""
    x, n, l = z3.Int("x!ll"), z3.Int("n!ll"), z3.Const("l!ll", IList)
    return [
        z3.ForAll([x], SORTL(SNOC(NIL, x)) == SNOC(NIL, x)),
        z3.ForAll([l, n], SORTL(DROP(SORTL(l), n)) == DROP(SORTL(l), n)),
        z3.ForAll([l, n], SORTL(TAKE(SORTL(l), n)) == TAKE(SORTL(l), n)),
        z3.ForAll([x], DROP(SNOC(NIL, x), 1) == NIL),
        z3.ForAll([l], TAKE(l, 0) == NIL),
        LENL(NIL) == 0,
        SUML(NIL) == 0,
        z3.ForAll([l], z3.Implies(LENL(l) == 0, SUML(l) == 0)),
    ]


def build(ctx, mode, shape):
    i = ctx.interp
    install_dists(ctx)
    install_faces(ctx)
    i.hints.append(dice_hint(ctx))
    k = z3.Int("K")
    i.assume(k >= 0)
    parts = ["d", ("dtype", DTYPE), "k" if mode == "keep" else "d", ("num", k)]
    if shape == "number":
        n = z3.Int("N")
        i.assume(n >= 0)
        parts = [("num", n)] + parts
    else:
        n = z3.IntVal(1)
    ctx.selected = k if mode == "keep" else z3.simplify(n - k)
    i.hints += list_hint(ctx, mode)
    fac = opaque("IProbabilityDistributionFactory", "factory")
    for law in list_laws():
        i.assume(law)
    return SStr(parts), fac, n, k


def cases(mode, n, k):
    """(nothing counts, everything counts)"""
    return (k == 0, k >= n) if mode == "keep" else (k >= n, k == 0)


def distribution(ctx, mode, shape):
    i, p = ctx.interp, ctx.p
    text, fac, n, k = build(ctx, mode, shape)
    v, y = z3.Ints("v y")
    none, every = cases(mode, n, k)
    defs = [z3.ForAll([y], z3.And(*pow_facts(0, y))),
            z3.ForAll([y], z3.And(KPOW(1, y) == FK(DTYPE, y), POW(1, y) == face(y))),
            z3.ForAll([y], z3.Implies(z3.Not(KPOW(n, y)), POW(n, y) == 0))]

    def run():
        return i.call(i.getattr(i.call(i.get(CLS), [text, fac]), "get_probability_distribution"), [])

    l = z3.Const("l", IList)
    for r in ctx.paths(run):
        if r.kind == "raise":
            ctx.record(f"raises {r.exc.name}", False, str(r.all))
            continue
        d = r.value.data if isinstance(r.value, Opaque) else None
        if not d or not d.get("plain"):
            ctx.record("result is a plain distribution", None, repr(r.value))
            continue
        got = z3.If(d["vk"](v), d["vw"](v), z3.IntVal(0))
        facts = r.all + defs
        m = p.fresh("m", INT)
        rest = z3.simplify(n - ctx.selected)
        feasible = lambda c: not p.infeasible(list(p.axioms) + r.all + [c])
        if feasible(z3.And(every, z3.Not(none))):
            ctx.prove("all dice: totals", facts + [every, z3.Not(none)], d["vk"](v) == KPOW(n, v))
            ctx.equal("all dice: ways", facts + [every, z3.Not(none)], got, POW(n, v))
        if feasible(none):
            ctx.prove("no dice: total 0", facts + [none], d["vk"](v) == (v == 0))
            ctx.equal("no dice: one way", facts + [none], got, b2i(v == 0))
        some = [z3.Not(none), z3.Not(every)]
        if feasible(z3.And(*some)):
            o = p.fresh("ol", IList)
            spec = p.mk_sum([o], z3.If(z3.And(UK(rest, o), SUML(o) == v), UW(rest, o), z3.IntVal(0)))
            ctx.prove("some dice: totals", facts + some, d["vk"](v) == z3.Exists([l], z3.And(UK(rest, l), SUML(l) == v)))
            ctx.equal("some dice: ways", facts + some, got, spec)


def make(ctx, text, fac):
    i = ctx.interp
    return i.call(i.get(CLS), [text, fac])


def roll(ctx, mode, shape):
    from models import sum_l

    i = ctx.interp
    text, fac, n, k = build(ctx, mode, shape)
    none, every = cases(mode, n, k)
    for r in ctx.paths(lambda: i.call(i.getattr(make(ctx, text, fac), "roll"), [])):
        if r.kind == "raise":
            ctx.record(f"raises {r.exc.name}", False, str(r.all))
            continue
        got = as_int(r.value)
        ds, loops = draws(r.trace)
        if loops or len(ds) > 1:
            raise Unsupported("dice drawn in several steps")
        if not ds:
            ctx.prove("no dice are drawn only when none counts", r.all, none)
            ctx.prove("nothing counts: 0", r.all, got == 0)
            continue
        t = check_draw(ctx, r, ds[0], n)
        s = SORTL(t)
        part = DROP(s, z3.simplify(n - k)) if mode == "keep" else TAKE(s, z3.simplify(n - k))
        want = z3.If(none, z3.IntVal(0), z3.If(every, sum_l(t), SUML(part)))
        ctx.prove("the roll is the sum of the dice that count", r.all, got == want)


def extremes(ctx, mode, shape):
    i = ctx.interp
    text, fac, n, k = build(ctx, mode, shape)
    none, every = cases(mode, n, k)
    y = z3.Int("y")
    for kind in ("max", "min"):
        m = z3.Int(kind + "_face")
        le = (lambda a, b: a <= b) if kind == "max" else (lambda a, b: a >= b)
        ext = [FK(DTYPE, m), z3.ForAll([y], z3.Implies(FK(DTYPE, y), le(y, m)))]
        for r in ctx.paths(lambda: i.call(i.getattr(make(ctx, text, fac), kind), [])):
            if r.kind == "raise":
                ctx.record(f"{kind} raises {r.exc.name}", False, str(r.all))
                continue
            count = z3.If(none, z3.IntVal(0), z3.If(every, n, ctx.selected))
            ctx.prove(f"{kind} is the number of dice that count times the {kind} face", r.all + ext, as_int(r.value) == count * m)


def cost(ctx, mode, shape):
    i, p = ctx.interp, ctx.p
    text, fac, n, k = build(ctx, mode, shape)
    none, every = cases(mode, n, k)
    x = p.fresh("fx", INT)
    faces = p.mk_sum([x], z3.If(FK(DTYPE, x), z3.IntVal(1), z3.IntVal(0)))
    for r in ctx.paths(lambda: i.call(i.getattr(make(ctx, text, fac), "estimated_cost"), [])):
        if r.kind == "raise":
            ctx.record(f"raises {r.exc.name}", False, str(r.all))
            continue
        got = as_int(r.value)
        for what, cond, want in (
            ("some dice: dice times dice that count times distinct faces", z3.And(z3.Not(none), z3.Not(every)), n * ctx.selected * faces),
            ("all dice: dice times distinct faces", z3.And(every, z3.Not(none)), n * faces),
            ("no dice: a constant", z3.And(none, n > 0), z3.IntVal(2)),
        ):
            if not p.infeasible(list(p.axioms) + r.all + [cond]):
                ctx.equal(what, r.all + [cond], got, want)
