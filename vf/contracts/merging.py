"""ConstraintMerger and ConstraintSet over constraints known by their contract
(proved for the three kinds in constraints.py): SAT says which assignments satisfy a
constraint, CAN which constraints can merge, MERGED is the conjunction of two that
can, PART whether some assignment satisfies a constraint."""
from ifaces import *
from models import b_hash
from invariants import Cand, while_rule, fold_rule, kind_and_members
from constraints import Assign

SAT = z3.Function("satisfies", Con, Assign, BOOL)
CAN = z3.Function("can_merge", Con, Con, BOOL)
MERGED = z3.Function("merged", Con, Con, Con)
PART = z3.Function("constraint_possible", Con, BOOL)
CKIND = ("op", "IConstraint")
MERGER = CO + "constraint_merger:ConstraintMerger"
CSET_CLS = CO + "constraint_set:ConstraintSet"


def allsat(members, s):
    c = z3.Const("c!sat", Con)
    return z3.ForAll([c], z3.Implies(members(c), SAT(c, s)))


def apart(members):
    a, b = z3.Consts("a!ap b!ap", Con)
    return z3.ForAll([a, b], z3.Implies(z3.And(members(a), members(b), a != b), z3.And(z3.Not(CAN(a, b)), z3.Not(CAN(b, a)))))


def some(members):
    c = z3.Const("c!some", Con)
    return z3.Exists([c], members(c))


def install(ctx):
    i, p = ctx.interp, ctx.p

    def can(interp, obj, a, k):
        return CAN(obj.term, (a[0] if a else k["other"]).term)

    def merge(interp, obj, a, k):
        o = (a[0] if a else k["other"]).term
        if not interp.branch(CAN(obj.term, o)):
            raise PyRaise("ValueError")
        return Opaque("IConstraint", MERGED(obj.term, o))

    i.handlers["IConstraint"] = {
        "can_merge": can,
        "merge": merge,
        "is_possible": lambda interp, obj, a, k: PART(obj.term),
    }
    a, b, s = z3.Const("a!m", Con), z3.Const("b!m", Con), z3.Const("s!m", Assign)
    i.assume(z3.ForAll([a, b, s], z3.Implies(CAN(a, b), SAT(MERGED(a, b), s) == z3.And(SAT(a, s), SAT(b, s)))))

    def propose(interp, entry):
        target = p.fresh_fun("target", Assign, BOOL)
        s = z3.Const("s!t", Assign)
        meaning = lambda m: z3.ForAll([s], target(s) == z3.And(*[allsat(x, s) for x in m.values()]))
        cands = [Cand("meaning", meaning), Cand("not empty", lambda m: z3.Implies(z3.Or(*[some(x) for x in entry.values()]), z3.Or(*[some(x) for x in m.values()])))]
        for key in entry:
            cands.append(Cand(f"apart {key}", lambda m, key=key: apart(m[key])))
        return [meaning(entry)], cands

    i.while_hints.append(while_rule(CKIND, propose))


def given(ctx, name):
    """(reference, membership) of an arbitrary set of constraints"""
    f = z3.Function(name, Con, BOOL)
    return ctx.interp.alloc(SymSet(CKIND, lambda x: f(x))), (lambda x: f(x))


def check_frame(ctx, r, ref, members, what):
    _, now = kind_and_members(ctx.interp, r.heap[ref.oid])
    c = z3.Const("c!fr", Con)
    ctx.prove(what, r.all, now(c) == members(c))


def merge_new(ctx):
    i = ctx.interp
    install(ctx)
    old, members = given(ctx, "given")
    new = z3.Const("new", Con)
    i.assume(apart(members))
    m = i.call(i.get(MERGER), [])
    s = z3.Const("s", Assign)
    for r in ctx.paths(lambda: i.call(i.getattr(m, "merge_new_constraints"), [], {"constraint_set": old, "new_constraint": Opaque("IConstraint", new)})):
        if r.kind == "raise":
            ctx.record(f"raises {r.exc.name}", False, str(r.all))
            continue
        ctx.record("a set of its own", isinstance(r.value, Ref) and r.value != old, repr(r.value))
        check_frame(ctx, r, old, members, "the given set is unchanged")
        _, got = kind_and_members(i, r.heap[r.value.oid])
        ctx.prove("the result holds when all of them hold", r.all, allsat(got, s) == z3.And(allsat(members, s), SAT(new, s)))
        ctx.prove("no two of the result can merge", r.all, apart(got))
        ctx.prove("the result is not empty", r.all, some(got))


def merge_all(ctx):
    i = ctx.interp
    install(ctx)
    old, members = given(ctx, "given")
    m = i.call(i.get(MERGER), [])
    s = z3.Const("s", Assign)
    for r in ctx.paths(lambda: i.call(i.getattr(m, "merge_constraints"), [old])):
        if r.kind == "raise":
            ctx.record(f"raises {r.exc.name}", False, str(r.all))
            continue
        ctx.record("a set of its own", isinstance(r.value, Ref) and r.value != old, repr(r.value))
        check_frame(ctx, r, old, members, "the given set is unchanged")
        _, got = kind_and_members(i, r.heap[r.value.oid])
        ctx.prove("the result holds when all of them hold", r.all, allsat(got, s) == allsat(members, s))
        ctx.prove("no two of the result can merge", r.all, apart(got))
        ctx.prove("the result is empty only for nothing", r.all + [members(z3.Const("c", Con))], some(got))


# ------------------------------------------------------------------ ConstraintSet
def install_merger(ctx):
    """the merger by the contract proved above"""
    i, p = ctx.interp, ctx.p
    s = z3.Const("s!mg", Assign)

    def result(members, extra):
        h = p.fresh_fun("merged_set", Con, BOOL)
        got = lambda x: h(x)
        goal = allsat(members, s)
        if extra is not None:
            goal = z3.And(goal, SAT(extra, s))
            i.assume(z3.Implies(apart(members), apart(got)))
            i.assume(some(got))
        else:
            i.assume(apart(got))
            i.assume(z3.Implies(some(members), some(got)))
        i.assume(z3.ForAll([s], allsat(got, s) == goal))
        return i.alloc(SymSet(CKIND, got))

    def new(interp, obj, a, k):
        args = dict(zip(("constraint_set", "new_constraint"), a), **k)
        kind, members = kind_and_members(interp, interp.cell(args["constraint_set"]))
        return result(members, interp.encode(args["new_constraint"])[1])

    def everything(interp, obj, a, k):
        args = dict(zip(("constraint_set",), a), **k)
        kind, members = kind_and_members(interp, interp.cell(args["constraint_set"]))
        return result(members, None)

    i.handlers["IConstraintMerger"] = {"merge_new_constraints": new, "merge_constraints": everything}

    def propose(interp, first):
        s = z3.Const("s!f", Assign)
        cands = [Cand("meaning", lambda m, done: z3.ForAll([s], allsat(done, s) == z3.And(*[allsat(x, s) for x in m.values()])))]
        cands.append(Cand("not empty", lambda m, done: z3.Implies(some(done), z3.Or(*[some(x) for x in m.values()]))))
        for key in first:
            cands.append(Cand(f"apart {key}", lambda m, done, key=key: apart(m[key])))
        return [], cands

    i.fold_rules.append(fold_rule(CKIND, propose))


def observe(ctx, r, obj):
    """membership of the public view of a constraint set"""
    i = ctx.interp

    def look():
        ref = i.getattr(obj, "constraints")
        return kind_and_members(i, i.cell(ref))[1]

    return ctx.at(r, look).value


def a_set(ctx, name, r=None):
    """(object, membership of what it was built from): an arbitrary constraint set"""
    i = ctx.interp
    ref, members = given(ctx, name)
    c = z3.Const("one_" + name, Con)
    i.assume(members(c))
    return ref, members


def build(ctx):
    """the constructor"""
    i = ctx.interp
    install(ctx)
    install_merger(ctx)
    ref, members = given(ctx, "given")
    s, c = z3.Const("s", Assign), z3.Const("c", Con)
    merger = opaque("IConstraintMerger", "merger")
    for r in ctx.paths(lambda: i.call(i.get(CSET_CLS), [ref, merger])):
        if r.kind == "raise":
            ctx.record("only ValueError", r.exc.name == "ValueError", r.exc.name)
            ctx.prove("only for an empty set", r.all, z3.Not(members(c)))
            continue
        got = observe(ctx, r, r.value)
        check_frame(ctx, r, ref, members, "the given set is unchanged")
        ctx.prove("holds when all of them hold", r.all, allsat(got, s) == allsat(members, s))
        ctx.prove("no two can merge", r.all, apart(got))
        ctx.prove("not empty", r.all, some(got))


def operate(ctx, what):
    i = ctx.interp
    install(ctx)
    install_merger(ctx)
    merger = opaque("IConstraintMerger", "merger")
    ref1, m1 = a_set(ctx, "first")
    ref2, m2 = a_set(ctx, "second")
    s = z3.Const("s", Assign)
    new = z3.Const("new", Con)

    def run():
        a = i.call(i.get(CSET_CLS), [ref1, merger])
        b = i.call(i.get(CSET_CLS), [ref2, merger])
        va = kind_and_members(i, i.cell(i.getattr(a, "constraints")))[1]
        vb = kind_and_members(i, i.cell(i.getattr(b, "constraints")))[1]
        if what == "combine_sets":
            out = i.call(i.getattr(a, "combine_sets"), [b])
        elif what == "add_constraint":
            out = i.call(i.getattr(a, "add_constraint"), [Opaque("IConstraint", new)])
        elif what == "is_possible":
            out = i.call(i.getattr(a, "is_possible"), [])
        elif what == "complies":
            out = i.call(i.getattr(a, "complies"), [ctx.values])
        return a, b, va, vb, out

    if what == "complies":
        OBEYS = z3.Function("obeys", Con, BOOL)
        ctx.values = opaque("var_values", "var_values")
        i.handlers["IConstraint"]["complies"] = lambda interp, obj, a, k: OBEYS(obj.term)
    for r in ctx.paths(run):
        if r.kind == "raise":
            ctx.record(f"raises {r.exc.name}", False, str(r.all))
            continue
        a, b, va, vb, out = r.value
        c = z3.Const("c", Con)
        nowa, nowb = observe(ctx, r, a), observe(ctx, r, b)
        ctx.prove("the other set is unchanged", r.all, nowb(c) == vb(c))
        if what != "add_constraint":
            ctx.prove("the set is unchanged", r.all, nowa(c) == va(c))
        if what == "combine_sets":
            ctx.record("a set of its own", isinstance(out, Ref) and out not in (a, b), repr(out))
            got = observe(ctx, r, out)
            ctx.prove("combining is conjunction", r.all, allsat(got, s) == z3.And(allsat(va, s), allsat(vb, s)))
            ctx.prove("no two can merge", r.all, apart(got))
        elif what == "add_constraint":
            ctx.prove("adding is conjunction", r.all, allsat(nowa, s) == z3.And(allsat(va, s), SAT(new, s)))
            ctx.prove("no two can merge", r.all, apart(nowa))
        elif what == "is_possible":
            every = z3.ForAll([c], z3.Implies(va(c), PART(c)))
            ctx.prove("possible when every member is", r.all, to_bool(out) == every)
        elif what == "complies":
            every = z3.ForAll([c], z3.Implies(va(c), OBEYS(c)))
            ctx.prove("complies when every member does", r.all, to_bool(out) == every)


def equality(ctx):
    """equal sets have the same members, so the same meaning, and equal hashes.
    (The converse is not claimed: sets are compared by their printed form.)"""
    i = ctx.interp
    install(ctx)
    install_merger(ctx)
    merger = opaque("IConstraintMerger", "merger")
    ref1, m1 = a_set(ctx, "first")
    ref2, m2 = a_set(ctx, "second")
    s = z3.Const("s", Assign)

    def run():
        a = i.call(i.get(CSET_CLS), [ref1, merger])
        b = i.call(i.get(CSET_CLS), [ref2, merger])
        va = kind_and_members(i, i.cell(i.getattr(a, "constraints")))[1]
        vb = kind_and_members(i, i.cell(i.getattr(b, "constraints")))[1]
        eq = i.truth(i.compare("__eq__", a, b))
        ne = i.truth(i.compare("__ne__", a, b))
        return va, vb, eq, ne, b_hash(i, [a], {}), b_hash(i, [b], {}), i.truth(i.compare("__eq__", a, a))

    for r in ctx.paths(run):
        if r.kind == "raise":
            ctx.record(f"raises {r.exc.name}", False, str(r.all))
            continue
        va, vb, eq, ne, h1, h2, self_eq = r.value
        yes = r.all + [to_bool(eq)]
        ctx.prove("equal sets mean the same", yes, allsat(va, s) == allsat(vb, s))
        ctx.equal("equal sets have equal hashes", yes, as_int(h1), as_int(h2))
        ctx.prove("!= is not ==", r.all, to_bool(ne) == z3.Not(to_bool(eq)))
        ctx.prove("a set equals itself", r.all, to_bool(self_eq))
