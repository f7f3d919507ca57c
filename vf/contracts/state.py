"""The state of a program: variables, their versions and constants.

An arbitrary state: every dictionary or number an empty state has is replaced by an
arbitrary one.  set_var tags each outcome with "this version of the variable has
the value of the outcome"; the version a variable gets in a state is found by
executing set_var, so nothing is assumed about how versions are counted."""
from ifaces import *
from strings import SStr
import distribution as D

STATE = PD + "probability_distribution_state:ProbabilityDistributionState"
ADD = z3.Function("with_constraint", CS, Con, CS)
NAMEKIND = ("str", (("name", "Name"),))
VARCON = {}
VKNOWN = z3.Function("dist_has_value", Dist, INT, BOOL)
VWAYS = z3.Function("dist_value_ways", Dist, INT, INT)


def varcon(sort):
    if str(sort) not in VARCON:
        VARCON[str(sort)] = z3.Function(f"has_value_{sort}", sort, INT, Con)
    return VARCON[str(sort)]


def name_of(n):
    return SStr([("name", n)])


def install(ctx):
    i, p = ctx.interp, ctx.p
    install_dists(ctx)
    ctx.live = {}  # a distribution hands out its own map, not a copy

    def result_map(interp, obj, a, k):
        ref = ctx.live.get(obj.term.get_id())
        return ref if ref is not None else interp.alloc(D.dist_map(ctx, obj.term))

    i.handlers["IProbabilityDistribution"]["get_constraint_result_map"] = result_map
    i.handlers["IProbabilityDistribution"]["get_result_map"] = lambda interp, obj, a, k: interp.alloc(
        SymMap("int", "int", lambda v: VKNOWN(obj.term, v), lambda v: VWAYS(obj.term, v))
    )
    i.encode(SStr([("name", z3.Const("n0", Name))]))

    def var_value(interp, obj, a, k):
        from models import set_to_sym

        name = a[0] if a else k["name"]
        values = a[1] if len(a) > 1 else k["values"]
        cell = interp.cell(values)
        if not isinstance(cell, ConcSet) or len(cell.items) != 1 or not is_int(cell.items[0]):
            raise Unsupported("values of a variable")
        kind, term = interp.encode(name)
        interp.event("version", kind, term)
        return Opaque("IConstraint", varcon(term.sort())(term, as_int(cell.items[0])), (kind, term))

    i.handlers["IConstraintFactory"] = {"var_value_constraint": var_value}

    # an own copy of an outcome: its constraint set may be changed
    outcls = i.get("python_dice.interface.probability_distribution.i_probability_outcome:IProbabilityOutcome")
    setcls = i.get("python_dice.interface.constraint.i_constraint_set:IConstraintSet")

    def add(interp, a, k):
        me, con = a[0], a[1] if len(a) > 1 else k["constraint"]
        cell = interp.cell(me)
        inner = cell.fields["inner"]
        interp.set_cell(me, InstCell(cell.cls, {"inner": Opaque("IConstraintSet", ADD(inner.term, con.term))}))

    owned_set = ClassVal("OwnConstraintSet", [setcls], {"add_constraint": NativeMethod("add_constraint", add)}, None)
    get = lambda n: PropertyVal(NativeMethod(n, lambda interp, a, k: interp.cell(a[0]).fields["own " + n]))
    owned_out = ClassVal("OwnOutcome", [outcls], {n: get(n) for n in ("value", "constraint_set")}, None)

    def copy(interp, obj, a, k):
        cs = interp.alloc(InstCell(owned_set, {"inner": Opaque("IConstraintSet", CSET(obj.term))}))
        return interp.alloc(InstCell(owned_out, {"own value": VALUE(obj.term), "own constraint_set": cs}))

    i.handlers["IProbabilityOutcome"]["__deepcopy__"] = copy
    i.handlers["IConstraintSet"]["__deepcopy__"] = lambda interp, obj, a, k: interp.alloc(
        InstCell(owned_set, {"inner": obj})
    )

    def foreign(interp, obj, a, k):
        interp.event("modified", "constraint set of an existing outcome")

    i.handlers["IConstraintSet"]["add_constraint"] = foreign

    def encode_instance(ref):
        cell = i.cell(ref)
        names = [getattr(c, "name", "") for c in cell.cls.mro()]
        if "IProbabilityOutcome" in names:
            return ("op", "IProbabilityOutcome"), out_term(i, ref)
        if cell.cls is owned_set:
            return ("op", "IConstraintSet"), cell.fields["inner"].term
        raise Unsupported("object as value")

    i.encode_instance = encode_instance


def arbitrary(ctx):
    """an arbitrary state object"""
    i, p = ctx.interp, ctx.p
    obj = i.call(i.get(STATE), [opaque("IProbabilityDistributionFactory", "df"), opaque("IConstraintFactory", "cf")])
    consts = i.call(i.getattr(obj, "get_constant_dict"), [])
    vars_ = i.call(i.getattr(obj, "get_var_dict"), [])
    fields = dict(i.cell(obj).fields)
    for n, v in sorted(fields.items()):
        if isinstance(v, Ref) and isinstance(i.cell(v), (ConcMap, SymMap)):
            dist = v == vars_
            kind = ("op", "IProbabilityDistribution") if dist else "int"
            dom = z3.Function(f"dom_{n}", Name, BOOL)
            val = z3.Function(f"val_{n}", Name, Dist if dist else INT)
            default = i.cell(v).default
            i.set_cell(v, SymMap(NAMEKIND, kind, lambda x, dom=dom: dom(x), lambda x, val=val: val(x), default))
        elif is_int(v):
            fields[n] = z3.Int(f"field_{n}")
        elif isinstance(v, Opaque):
            pass
        else:
            raise Unsupported(f"field {n} of the state")
    i.set_cell(obj, InstCell(i.cell(obj).cls, fields))
    return obj, consts, vars_


def versions(trace):
    out = []
    for e in trace:
        if e[0] == "version":
            out.append((e[1], e[2]))
        elif e[0] == "loop":
            for _, t in e[3]:
                out += versions(t)
    return out


def modifications(trace):
    out = []
    for e in trace:
        if e[0] == "modified":
            out.append(e)
        elif e[0] == "loop":
            for _, t in e[3]:
                out += modifications(t)
    return out


def version_number(i, kind, term, name):
    """the number in the text of a version, which must be <name>…<number>"""
    s = i.decode(kind, term)
    if not isinstance(s, SStr):
        raise Unsupported("text of a version")
    nums = [a[1] for a in s.atoms if not isinstance(a, str) and a[0] in ("num", "int")]
    names = [a[1] for a in s.atoms if not isinstance(a, str) and a[0] == "name"]
    if len(nums) != 1 or len(names) != 1 or len(s.terms()) != 2:
        raise Unsupported("text of a version")
    return names[0], nums[0]


def set_var(ctx, what="all"):
    """contract of set_var in an arbitrary state"""
    i, p = ctx.interp, ctx.p
    install(ctx)
    obj, consts, vars_ = arbitrary(ctx)
    n, m = z3.Consts("n m", Name)
    d = z3.Const("d", Dist)
    live = ctx.live[d.get_id()] = i.alloc(D.dist_map(ctx, d))
    pre_c, pre_v = i.cell(consts), i.cell(vars_)
    o = z3.Const("o", OutSort)
    assume_fresh(ctx, d)
    from models import map_to_sym

    for r in ctx.paths(lambda: i.call(i.getattr(obj, "set_var"), [name_of(n), opaque_dist(d)])):
        if r.kind == "raise":
            ctx.record(f"raises {r.exc.name}", False, str(r.all))
            continue
        ctx.record("existing outcomes are not modified", not modifications(r.trace), str(r.trace))
        now = map_to_sym(i, r.heap[live.oid])
        ctx.prove("the given distribution is unchanged", r.all, z3.And(now.dom(o) == DOM(d, o), z3.Implies(DOM(d, o), now.val(o) == CNT(d, o))))
        post_v, post_c = map_to_sym(i, r.heap[vars_.oid]), map_to_sym(i, r.heap[consts.oid])
        ctx.prove("the variable exists", r.all, post_v.dom(n))
        ctx.prove(
            "other variables are unchanged", r.all + [m != n],
            z3.And(post_v.dom(m) == pre_v.dom(m), z3.Implies(pre_v.dom(m), post_v.val(m) == pre_v.val(m))),
        )
        ctx.prove(
            "constants are unchanged", r.all,
            z3.And(post_c.dom(m) == pre_c.dom(m), z3.Implies(pre_c.dom(m), post_c.val(m) == pre_c.val(m))),
        )
        created = [e for e in r.trace if e[0] == "create"]
        if len(created) > 1:
            created = [e for e in created if p.valid(r.all, post_v.val(n) == e[2]) is True] or created
        vs = one_version(ctx, r)
        if not created or not vs:
            # nothing is bound here: right only if there is nothing to bind
            ctx.prove("the outcomes are bound to a new version", r.all, z3.Not(DOM(d, z3.Const("q", OutSort))))
            continue
        if len(created) != 1:
            raise Unsupported("distributions made by set_var")
        _, given, term = created[0]
        ctx.prove("the variable is the new distribution", r.all, post_v.val(n) == term)
        if len(vs) != 1:
            raise Unsupported(f"versions made by set_var: {vs} {r.trace}")
        kind, vt = vs[0]
        base, num = version_number(i, kind, vt, n)
        ctx.prove("the version belongs to the variable", r.all, base == n)
        cell = map_to_sym(i, r.heap[given.oid])
        q = z3.Const("q", OutSort)
        con = varcon(vt.sort())
        tag = lambda x: MKOUT(VALUE(x), ADD(CSET(x), con(vt, VALUE(x))))
        ctx.prove("every outcome, tagged with its value", r.all, cell.dom(o) == z3.Exists([q], z3.And(DOM(d, q), tag(q) == o)))
        ctx.prove("with its number of ways", r.all + [DOM(d, q)], cell.val(tag(q)) == CNT(d, q))


def assume_fresh(ctx, d):
    """sets of constraints that do not speak of a new version stay different when the
    same constraint on it is added (proved for ConstraintSet: the constraint is added
    next to the others)"""
    c1, c2 = z3.Consts("c1!f c2!f", CS)
    k = z3.Const("k!f", Con)
    ctx.interp.assume(z3.ForAll([c1, c2, k], z3.Implies(ADD(c1, k) == ADD(c2, k), c1 == c2)))


def one_version(ctx, r):
    """versions made on a path, without repetitions"""
    out = []
    for kind, term in versions(r.trace):
        if not any(kind == k and (term.eq(t) or ctx.p.valid(r.all, term == t) is True) for k, t in out):
            out.append((kind, term))
    return out


def measure(ctx, obj, x):
    """version the variable x would get in the current state"""
    i = ctx.interp
    res = i.explore(lambda: i.call(i.getattr(obj, "set_var"), [name_of(x), opaque_dist(z3.Const("d_m", Dist))]))
    out = []
    for r in res:
        if r.kind == "raise":
            raise Unsupported("set_var raises")
        vs = one_version(ctx, r)
        if not vs:  # see set_var
            continue
        if len(vs) != 1:
            raise Unsupported(f"versions made by set_var: {vs} {r.trace}")
        base, num = version_number(i, *vs[0], x)
        out.append((r.conds, r.facts, num))
    return out


def version_order(ctx, op):
    """versions of a variable only grow, and grow whenever it is assigned"""
    i, p = ctx.interp, ctx.p
    install(ctx)
    obj, consts, vars_ = arbitrary(ctx)
    n, m = z3.Consts("n m", Name)
    d = z3.Const("d", Dist)
    assume_fresh(ctx, d)
    before = measure(ctx, obj, m)
    args = {
        "set_var": [name_of(n), opaque_dist(d)],
        "set_constant": [name_of(n), z3.Int("v")],
        "get_var": [name_of(n)],
        "get_constant": [name_of(n)],
        "has_var": [name_of(n)],
        "has_constant": [name_of(n)],
        "get_var_dict": [],
        "get_constant_dict": [],
    }[op]
    for r in ctx.paths(lambda: i.call(i.getattr(obj, op), list(args))):
        if r.kind == "raise" and r.exc.name != "KeyError":
            ctx.record(f"raises {r.exc.name}", False, str(r.all))
            continue
        saved = (i.heap, i.conds, i.facts)
        i.heap, i.conds, i.facts = type(r.heap)(r.heap), i.conds + r.conds, i.facts + r.facts
        try:
            after = measure(ctx, obj, m)
        finally:
            i.heap, i.conds, i.facts = saved
        for c0, f0, v0 in before:
            for c1, f1, v1 in after:
                facts = r.all + c0 + f0 + c1 + f1
                if p.infeasible(list(p.axioms) + facts):
                    continue
                ctx.prove("versions never shrink", facts, v1 >= v0)
                if op == "set_var":
                    ctx.prove("an assigned variable gets a new version", facts + [m == n], v1 > v0)


def constants(ctx):
    """set_constant and the lookups in an arbitrary state"""
    i, p = ctx.interp, ctx.p
    install(ctx)
    obj, consts, vars_ = arbitrary(ctx)
    n, m = z3.Consts("n m", Name)
    v = z3.Int("v")
    pre_c, pre_v = i.cell(consts), i.cell(vars_)
    from models import map_to_sym

    def unchanged(r, ref, pre, what, but=None):
        post = map_to_sym(i, r.heap[ref.oid])
        facts = r.all + ([m != but] if but is not None else [])
        ctx.prove(what, facts, z3.And(post.dom(m) == pre.dom(m), z3.Implies(pre.dom(m), post.val(m) == pre.val(m))))
        return post

    for r in ctx.paths(lambda: i.call(i.getattr(obj, "set_constant"), [name_of(n), v])):
        if r.kind == "raise":
            ctx.record(f"set_constant raises {r.exc.name}", False, str(r.all))
            continue
        post = unchanged(r, consts, pre_c, "other constants are unchanged", n)
        ctx.prove("the constant is recorded", r.all, z3.And(post.dom(n), post.val(n) == v))
        unchanged(r, vars_, pre_v, "variables are unchanged")
    for op, pre in (("get_constant", pre_c), ("get_var", pre_v), ("has_constant", pre_c), ("has_var", pre_v)):
        for r in ctx.paths(lambda: i.call(i.getattr(obj, op), [name_of(n)])):
            unchanged(r, consts, pre_c, f"{op}: constants are unchanged")
            unchanged(r, vars_, pre_v, f"{op}: variables are unchanged")
            if op.startswith("has"):
                if r.kind == "raise":
                    ctx.record(f"{op} raises {r.exc.name}", False, str(r.all))
                    continue
                ctx.prove(f"{op}", r.all, to_bool(r.value) == pre.dom(n))
                continue
            if r.kind == "raise":
                ctx.record(f"{op}: only KeyError", r.exc.name == "KeyError", r.exc.name)
                ctx.prove(f"{op}: KeyError only for an unknown name", r.all, z3.Not(pre.dom(n)))
                continue
            ctx.prove(f"{op}: unknown names are reported", r.all, pre.dom(n))
            got = r.value.term if isinstance(r.value, Opaque) else as_int(r.value)
            ctx.prove(f"{op}: the recorded value", r.all, got == pre.val(n))
