"""Single constraints: what they mean, merging, possibility, equality and hash.

An assignment s gives every variable a value (LOOK).  A constraint means: always
(null), never (impossible), or "the variable has one of these values"."""
from ifaces import *
from strings import SStr
from models import b_hash

FACTORY = CO + "constraint_factory:ConstraintFactory"
Assign = z3.DeclareSort("Assignment")
LOOK = z3.Function("value_in", Assign, Name, INT)
KINDS = ["null", "impossible", "var"]


def make(ctx, kind, n):
    """(object, meaning(s), facts)"""
    i = ctx.interp
    fac = ctx.factory
    if kind == "null":
        return i.getattr(fac, "null_constraint"), lambda s: z3.BoolVal(True)
    if kind == "impossible":
        return i.getattr(fac, "impossible_constraint"), lambda s: z3.BoolVal(False)
    name = z3.Const(f"name{n}", Name)
    vals = z3.Function(f"values{n}", INT, BOOL)
    ref = i.alloc(SymSet("int", lambda x: vals(x)))
    obj = i.call(i.getattr(fac, "var_value_constraint"), [SStr([("name", name)]), ref])
    return obj, lambda s: vals(LOOK(s, name))


def begin(ctx):
    i = ctx.interp
    i.sealing = False  # proved below: constraints keep their meaning
    i.encode(SStr([("name", z3.Const("n0", Name))]))
    ctx.factory = i.call(i.get(FACTORY), [])
    # every value can be assigned to every variable
    n, v = z3.Const("n!a", Name), z3.Int("v!a")
    give = z3.Function("assignment_with", Name, INT, Assign)
    i.assume(z3.ForAll([n, v], LOOK(give(n, v), n) == v))
    ctx.give = give


def kind_of(i, obj):
    if isinstance(obj, Ref) and isinstance(i.cell(obj), InstCell):
        names = [getattr(c, "name", "") for c in i.cell(obj).cls.mro()]
        for k, iface in (("null", "INullConstraint"), ("impossible", "IImpossibleConstraint"), ("var", "IVarValueConstraint")):
            if iface in names:
                return k
    raise Unsupported("kind of a constraint")


def meaning(ctx, r, obj):
    """meaning of a constraint object from its public properties, at the end of a path"""
    i = ctx.interp
    k = ctx.at(r, lambda: kind_of(i, obj)).value
    if k == "null":
        return lambda s: z3.BoolVal(True)
    if k == "impossible":
        return lambda s: z3.BoolVal(False)

    def look():
        from models import set_to_sym

        return i.encode(i.getattr(obj, "name"))[1], set_to_sym(i, i.cell(i.getattr(obj, "values")))

    name, vals = ctx.at(r, look).value
    return lambda s: vals.dom(LOOK(s, name)) if vals.kkind is not None else z3.BoolVal(False)


def single(ctx, kind):
    """is_possible, complies"""
    i = ctx.interp
    begin(ctx)
    c, m = make(ctx, kind, 1)
    s = z3.Const("s", Assign)
    if kind == "var":
        # satisfiable exactly when some value is allowed
        x = z3.Int("x!v")
        name = z3.Const("name1", Name)
        vals = z3.Function("values1", INT, BOOL)
        sat = z3.Exists([x], vals(x))
        for r in ctx.paths(lambda: None):
            ctx.prove("some value allowed: an assignment satisfies it", r.all + [vals(x)], m(ctx.give(name, x)))
            ctx.prove("no value allowed: none does", r.all + [z3.Not(sat)], z3.Not(m(s)))
            break
    else:
        sat = z3.BoolVal(kind == "null")
    for r in ctx.paths(lambda: i.call(i.getattr(c, "is_possible"), [])):
        if r.kind == "raise":
            ctx.record(f"raises {r.exc.name}", False)
            continue
        ctx.prove("possible exactly when satisfiable", r.all, to_bool(r.value) == sat)
        same(ctx, r, c, m)
    for r in ctx.paths(lambda: (i.truth(i.compare("__eq__", c, c)), i.truth(i.compare("__ne__", c, c)))):
        if r.kind == "raise":
            ctx.record(f"comparison raises {r.exc.name}", False)
            continue
        ctx.prove("a constraint equals itself", r.all, z3.And(to_bool(r.value[0]), z3.Not(to_bool(r.value[1]))))
    if kind == "impossible":
        return  # complies(): recorded finding C10-complies
    asg = i.alloc(SymMap(("str", (("name", "Name"),)), "int", lambda x: z3.Function("assigned", Name, BOOL)(x), lambda x: LOOK(s, x)))
    for r in ctx.paths(lambda: i.call(i.getattr(c, "complies"), [asg])):
        if r.kind == "raise":
            ctx.record(f"complies raises {r.exc.name}", False)
            continue
        if kind == "null":
            ctx.prove("complies", r.all, to_bool(r.value))
        else:
            known = z3.Function("assigned", Name, BOOL)(z3.Const("name1", Name))
            ctx.prove("complies", r.all, to_bool(r.value) == z3.Implies(known, m(s)))


def same(ctx, r, obj, m):
    """the constraint still means what it did"""
    s = z3.Const("s!same", Assign)
    ctx.prove("the constraint is unchanged", r.all, meaning(ctx, r, obj)(s) == m(s))


def pair(ctx, k1, k2):
    i = ctx.interp
    begin(ctx)
    c1, m1 = make(ctx, k1, 1)
    c2, m2 = make(ctx, k2, 2)
    s = z3.Const("s", Assign)
    n1, n2 = z3.Const("name1", Name), z3.Const("name2", Name)
    if k1 == "var":
        can = z3.BoolVal(False) if k2 != "var" else n1 == n2
    else:
        can = z3.BoolVal(True)
    for r in ctx.paths(lambda: i.call(i.getattr(c1, "can_merge"), [c2])):
        if r.kind == "raise":
            ctx.record(f"can_merge raises {r.exc.name}", False)
            continue
        ctx.prove("can_merge", r.all, to_bool(r.value) == can)
    for r in ctx.paths(lambda: i.call(i.getattr(c1, "merge"), [c2])):
        if r.kind == "raise":
            ctx.record("only ValueError", r.exc.name == "ValueError", r.exc.name)
            ctx.prove("only when they can not merge", r.all, z3.Not(can))
            continue
        ctx.prove("only what can merge is merged", r.all, can)
        ctx.prove("merging is conjunction", r.all, meaning(ctx, r, r.value)(s) == z3.And(m1(s), m2(s)))
        same(ctx, r, c1, m1)
        same(ctx, r, c2, m2)
    for r in ctx.paths(lambda: (i.truth(i.compare("__eq__", c1, c2)), i.truth(i.compare("__ne__", c1, c2)), b_hash(i, [c1], {}), b_hash(i, [c2], {}))):
        if r.kind == "raise":
            ctx.record(f"comparison raises {r.exc.name}", False)
            continue
        eq, ne, h1, h2 = r.value
        ctx.prove("equal constraints mean the same", r.all + [to_bool(eq)], m1(s) == m2(s))
        ctx.prove("equal constraints have equal hashes", r.all + [to_bool(eq)], as_int(h1) == as_int(h2))
        ctx.prove("!= is not ==", r.all, to_bool(ne) == z3.Not(to_bool(eq)))
        if k1 == k2:
            alike = z3.BoolVal(True)
            if k1 == "var":
                x = z3.Int("x!e")
                v1, v2 = (z3.Function(f"values{j}", INT, BOOL) for j in (1, 2))
                alike = z3.And(n1 == n2, z3.ForAll([x], v1(x) == v2(x)))
            if k1 != "var":
                ctx.prove("constraints of the same kind are equal", r.all, to_bool(eq))


def theory():
    """the contract proved above for the three kinds, as axioms over constraints"""
    SAT = z3.Function("satisfies", Con, Assign, BOOL)
    CAN = z3.Function("can_merge", Con, Con, BOOL)
    PART = z3.Function("constraint_possible", Con, BOOL)
    KIND = z3.Function("constraint_kind", Con, INT)  # 0 null, 1 impossible, 2 variable
    NAME = z3.Function("constraint_name", Con, Name)
    VAL = z3.Function("constraint_values", Con, INT, BOOL)
    c, d, s, x = z3.Const("c!th", Con), z3.Const("d!th", Con), z3.Const("s!th", Assign), z3.Int("x!th")
    axioms = [
        z3.ForAll([c], z3.And(KIND(c) >= 0, KIND(c) <= 2)),
        z3.ForAll([c, s], SAT(c, s) == z3.If(KIND(c) == 0, True, z3.If(KIND(c) == 1, False, VAL(c, LOOK(s, NAME(c)))))),
        z3.ForAll([c, d], CAN(c, d) == z3.If(KIND(c) == 2, z3.And(KIND(d) == 2, NAME(c) == NAME(d)), True)),
        z3.ForAll([c], PART(c) == z3.If(KIND(c) == 0, True, z3.If(KIND(c) == 1, False, z3.Exists([x], VAL(c, x))))),
    ]
    return SAT, CAN, PART, KIND, NAME, VAL, axioms


def never_apart(ctx):
    """lemma: constraints of which no two can merge, and which are each possible, hold
    together (they are on different variables, so values can be chosen one by one);
    a set of which one is not possible never holds"""
    i = ctx.interp
    SAT, CAN, PART, KIND, NAME, VAL, axioms = theory()
    members = z3.Function("in_set", Con, BOOL)
    a, b, c, n, x = z3.Const("a!l", Con), z3.Const("b!l", Con), z3.Const("c!l", Con), z3.Const("n!l", Name), z3.Int("x!l")
    apart = z3.ForAll([a, b], z3.Implies(z3.And(members(a), members(b), a != b), z3.Not(CAN(a, b))))
    possible = z3.ForAll([a], z3.Implies(members(a), PART(a)))
    # choice: an allowed value of each constraint that has one; a member on each name
    # that has one; and the assignment made of these choices
    pick = z3.Function("allowed_value", Con, INT)
    on = z3.Function("member_on", Name, Con)
    s0 = z3.Const("chosen", Assign)
    choice = [
        z3.ForAll([c, x], z3.Implies(VAL(c, x), VAL(c, pick(c)))),
        z3.ForAll([c], z3.Implies(z3.And(members(c), KIND(c) == 2), z3.And(members(on(NAME(c))), KIND(on(NAME(c))) == 2, NAME(on(NAME(c))) == NAME(c)))),
        z3.ForAll([n], LOOK(s0, n) == pick(on(n))),
    ]
    for fact in axioms + choice:
        i.assume(fact)
    m = z3.Const("m", Con)
    s = z3.Const("s", Assign)
    ctx.prove("possible members that can not merge hold together", i.all_facts() + [apart, possible, members(m)], SAT(m, s0))
    ctx.prove("a member that is not possible never holds", i.all_facts() + [members(m), z3.Not(PART(m))], z3.Not(SAT(m, s)))
    # two different values of one variable
    v, w = z3.Ints("v w")
    c1, c2 = z3.Const("c1", Con), z3.Const("c2", Con)
    on_v = lambda c, v: z3.And(KIND(c) == 2, NAME(c) == n, z3.ForAll([x], VAL(c, x) == (x == v)))
    ctx.prove("two values of one variable never hold together", i.all_facts() + [on_v(c1, v), on_v(c2, w), v != w], z3.Not(z3.And(SAT(c1, s), SAT(c2, s))))
    ctx.prove("the same value does", i.all_facts() + [on_v(c1, v), on_v(c2, v), LOOK(s, n) == v], z3.And(SAT(c1, s), SAT(c2, s)))


SETFACTORY = CO + "constraint_set_factory:ConstraintSetFactory"


def set_factory(ctx, given):
    """a new constraint set always holds"""
    from merging import kind_and_members

    i = ctx.interp
    begin(ctx)
    args = {} if given == "default" else {"constraint_factory": ctx.factory}
    s = z3.Const("s", Assign)

    def run():
        f = i.call(i.get(SETFACTORY), [], args)
        a, b = (i.call(i.getattr(f, "create_constraint_set"), []) for _ in range(2))
        members = []
        for x in (a, b):
            ref = i.getattr(x, "constraints")
            members.append(list(i.cell(ref).items) if isinstance(i.cell(ref), ConcSet) else None)
        return a, b, members

    for r in ctx.paths(run):
        if r.kind == "raise":
            ctx.record(f"raises {r.exc.name}", False)
            continue
        a, b, (ma, mb) = r.value
        ctx.record("sets of their own", a != b)
        for m in (ma, mb):
            if m is None:
                raise Unsupported("members of a new set")
            ctx.record("not empty", len(m) > 0)
            for c in m:
                ctx.prove("always holds", r.all, meaning(ctx, r, c)(s))
