"""Frame conditions: operations and queries leave their operands as they were, give
the same answer when repeated, and hand out maps of their own."""
from base import *
import distribution as D
import outcome as O

MAPS = ["get_constraint_result_map", "get_result_map", "get_dict_form", "at_least", "at_most"]
NUMBERS = ["max", "min", "average", "contains_zero"]


def arbitrary_map(ctx, cell, n):
    """some other contents of a map the caller may have written to"""
    i, p = ctx.interp, ctx.p
    if cell.kkind is None:
        return None
    ks, vs = i.sort_of(cell.kkind), i.sort_of(cell.vkind) if cell.vkind is not None else None
    if vs is None:
        return None
    dom, val = p.fresh_fun(f"scribble_dom{n}", ks, BOOL), p.fresh_fun(f"scribble_val{n}", ks, vs)
    return SymMap(cell.kkind, cell.vkind, lambda x: dom(x), lambda x: val(x), cell.default)


def look(ctx, obj):
    from models import map_to_sym

    i = ctx.interp
    return map_to_sym(i, i.cell(i.call(i.getattr(obj, "get_constraint_result_map"), [])))


def operation(ctx, name):
    """an operation or query leaves the distributions (and the map the first was made
    from) unchanged; the answer does not change with the map it handed out"""
    i = ctx.interp
    D.install(ctx)
    i.handlers["IProbabilityDistribution"]["contains_zero"] = lambda interp, obj, a, k: z3.Bool("d2_has_zero")
    changed = lambda interp, obj, a, k: interp.event("modified", obj.term)
    i.handlers["IConstraintSet"]["add_constraint"] = changed
    d = z3.Const("d1", Dist)
    given = i.alloc(D.dist_map(ctx, d))
    a = i.call(i.get(D.CLS), [opaque("IProbabilityOutcomeFactory", "factory"), given])
    second = i.alloc(D.dist_map(ctx, z3.Const("d2", Dist)))
    b = i.call(i.get(D.CLS), [opaque("IProbabilityOutcomeFactory", "factory"), second])
    T = D.total(ctx, d)
    i.assume(T > 0)
    i.assume(D.some_outcome(d))
    i.assume(D.wf(ctx, d))
    o = z3.Const("o", OutSort)
    args = [b] if name in OPSPEC else []
    from models import map_to_sym

    for r in ctx.paths(lambda: i.call(i.getattr(a, name), args)):
        if r.kind == "raise" and r.exc.name not in ("ZeroDivisionError", "ValueError", "IndexError"):
            ctx.record(f"raises {r.exc.name}", False, str(r.all))
            continue
        ctx.record("nothing is modified", "modified" not in repr(r.trace), repr(r.trace))
        for what, ref, dist in (("the map given", given, d), ("the map of the operand", second, z3.Const("d2", Dist))):
            m = map_to_sym(i, r.heap[ref.oid])
            ctx.prove(f"{what} is unchanged", r.all, z3.And(m.dom(o) == DOM(dist, o), z3.Implies(DOM(dist, o), m.val(o) == CNT(dist, o))))
        for what, obj, dist in (("the distribution", a, d), ("the operand", b, z3.Const("d2", Dist))):
            m = ctx.at(r, lambda: look(ctx, obj)).value
            ctx.prove(f"{what} is unchanged", r.all, z3.And(m.dom(o) == DOM(dist, o), z3.Implies(DOM(dist, o), m.val(o) == CNT(dist, o))))
        if r.kind == "raise":
            continue
        if name in MAPS and name != "get_constraint_result_map":  # that one hands out the live map
            first = map_to_sym(i, r.heap[r.value.oid])
            key = z3.Const("key", i.sort_of(first.kkind)) if first.kkind is not None else None

            def scribble():
                new = arbitrary_map(ctx, first, name)
                if new is not None:
                    i.set_cell(r.value, new)
                return look(ctx, a)

            m = ctx.at(r, scribble).value
            ctx.prove("the map handed out is the caller's own", r.all, z3.And(m.dom(o) == DOM(d, o), z3.Implies(DOM(d, o), m.val(o) == CNT(d, o))))
        elif name in OPSPEC or name in UNSPEC:
            ctx.record("a distribution of its own", isinstance(r.value, Ref) and r.value not in (a, b), repr(r.value))
    if name in MAPS or name in NUMBERS:

        def twice():
            return i.call(i.getattr(a, name), []), i.call(i.getattr(a, name), [])

        for r in ctx.paths(twice):
            if r.kind == "raise":
                continue
            x, y = r.value
            if name in MAPS:
                if name != "get_constraint_result_map":
                    ctx.record("a new map each time", x != y)
                mx, my = map_to_sym(i, r.heap[x.oid]), map_to_sym(i, r.heap[y.oid])
                if mx.kkind is None:
                    continue
                key = z3.Const("key", i.sort_of(mx.kkind))
                ctx.prove("the same keys again", r.all, mx.dom(key) == my.dom(key))
                ctx.equal("the same values again", r.all + [mx.dom(key)], mx.val(key), my.val(key))
            elif name == "contains_zero":
                ctx.prove("the same answer again", r.all, to_bool(i.truth(x)) == to_bool(i.truth(y)))
            else:
                ctx.equal("the same answer again", r.all, to_z3(x), to_z3(y))


def outcome(ctx, name):
    """an operation on outcomes leaves both unchanged"""
    i = ctx.interp
    i.sealing = False
    i.handlers["IConstraintSet"]["add_constraint"] = lambda interp, obj, a, k: interp.event("modified", obj.term)
    v1, c1, a = O.make(ctx, "1")
    v2, c2, b = O.make(ctx, "2")
    for r in ctx.paths(lambda: i.call(i.getattr(a, name), [b] if name in OPSPEC else [])):
        if r.kind == "raise" and r.exc.name != "ZeroDivisionError":
            ctx.record(f"raises {r.exc.name}", False, str(r.all))
            continue
        ctx.record("nothing is modified", "modified" not in repr(r.trace), repr(r.trace))
        for obj, v, c in ((a, v1, c1), (b, v2, c2)):
            got = ctx.at(r, lambda: other_out(i, obj)).value
            ctx.prove("the outcome is unchanged", r.all, z3.And(got[0] == v, got[1] == c))
