"""Constants: value of rolls, extremes and distribution, and cost."""
from ifaces import *
from strings import SStr

TEXTS = {"integer": "constant_integer_expression:ConstantIntegerExpression", "negative": "constant_integer_expression:ConstantIntegerExpression",
         "True": "constant_binary_expression:ConstantBinaryExpression", "False": "constant_binary_expression:ConstantBinaryExpression"}


def build(ctx, which):
    i = ctx.interp
    install_dists(ctx)
    fac = opaque("IProbabilityDistributionFactory", "factory")
    n = z3.Int("n")
    if which == "integer":
        i.assume(n >= 0)
        text, value = SStr([("num", n)]), n
    elif which == "negative":
        i.assume(n >= 0)
        text, value = SStr(["-", ("num", n)]), -n
    else:
        text, value = which, z3.IntVal(1 if which == "True" else 0)
    return i.call(i.get(EX + TEXTS[which]), [text, fac]), value


def value_of(ctx, which, *methods):
    i = ctx.interp
    obj, value = build(ctx, which)
    for name in methods:
        for r in ctx.paths(lambda: i.call(i.getattr(obj, name), [])):
            if r.kind == "raise":
                ctx.record(f"{name}: raises {r.exc.name}", False, str(r.all))
                continue
            want = z3.IntVal(2) if name == "estimated_cost" else value
            ctx.prove(f"{name} of a constant", r.all, as_int(r.value) == want)


def distribution(ctx, which):
    i = ctx.interp
    obj, value = build(ctx, which)
    v = z3.Int("v")
    for r in ctx.paths(lambda: i.call(i.getattr(obj, "get_probability_distribution"), [])):
        if r.kind == "raise":
            ctx.record(f"raises {r.exc.name}", False, str(r.all))
            continue
        data = r.value.data if isinstance(r.value, Opaque) else None
        if not data or not data["plain"]:
            raise Unsupported("distribution of a constant")
        ctx.prove("the value is certain", r.all, z3.And(data["vk"](v) == (v == value), data["vw"](v) == b2i(v == value)))
