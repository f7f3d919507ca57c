"""get_single_dice_outcome_map: the faces a dice type text denotes."""
from ifaces import *
from strings import SStr, Entries

FN = EX + "dice_expression_helper:get_single_dice_outcome_map"


def outcome_map(ctx, text, check):
    i = ctx.interp
    for r in ctx.paths(lambda: i.call(i.get(FN), [text])):
        if r.kind == "raise":
            ctx.record(f"raises {r.exc.name}", False, str(r.all))
            continue
        from models import map_to_sym

        m = ctx.at(r, lambda: map_to_sym(i, i.cell(r.value))).value
        if m.vkind == "real":
            ctx.record("multiplicities are integers", False, "a floating-point multiplicity")
        check(r, m)


def simple(ctx, which):
    v = z3.Int("v")
    if which == "number":
        n = z3.Int("n")
        ctx.interp.assume(n >= 1)
        text, spec = SStr([("num", n)]), z3.And(1 <= v, v <= n)
    elif which == "%":
        text, spec = "%", z3.And(1 <= v, v <= 100)
    else:
        text, spec = "F", z3.And(-1 <= v, v <= 1)

    def check(r, m):
        ctx.prove("faces", r.all, m.dom(v) == spec)
        ctx.prove("each face once", r.all + [m.dom(v)], m.val(v) == 1)

    outcome_map(ctx, text, check)


def bracket(ctx):
    i, p = ctx.interp, ctx.p
    n = z3.Int("n_entries")
    e = Entries(n)
    for f in e.facts():
        i.assume(f)
    v = z3.Int("v")
    text = SStr(["[", ("entries", e, True), "]"])
    j = p.fresh("j", INT)

    def covers(j, v):
        lo, hi = e.low(j), e.high(j)
        return z3.And(0 <= j, j < n, z3.Or(z3.And(lo <= v, v <= hi), z3.And(hi <= v, v <= lo)))

    spec = p.mk_sum([j], z3.If(covers(j, v), e.weight(j), z3.IntVal(0)))
    jj = z3.Int("j!q")

    def check(r, m):
        ctx.equal("multiplicity is the sum over the entries that cover the face", r.all, z3.If(m.dom(v), m.val(v), z3.IntVal(0)), spec)
        ctx.prove("faces are those of entries with a positive multiplier", r.all, m.dom(v) == z3.Exists([jj], z3.And(covers(jj, v), e.weight(jj) > 0)))

    outcome_map(ctx, text, check)
