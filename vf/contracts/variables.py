"""Assignment and reference of a variable, against the contract of the state."""
from ifaces import *
from state import name_of

ASSIGN = EX + "var_assignment_expression:VarAssignmentExpression"
GET = EX + "get_var_expression:GetVarExpression"
CONST = z3.Function("constant_of", Name, INT)
HASC = z3.Function("has_constant", Name, BOOL)
VAR = z3.Function("variable_of", Name, Dist)
HASV = z3.Function("has_variable", Name, BOOL)


def install(ctx):
    """ghost: the constants and variables of the state"""
    i = ctx.interp
    install_dists(ctx)
    install_exprs(ctx)
    i.encode(name_of(z3.Const("n0", Name)))

    def text(v):
        return i.encode(v)[1]

    def set_constant(interp, obj, a, k):
        interp.event("set_constant", text(a[0] if a else k["name"]), as_int(a[1] if len(a) > 1 else k["value"]))

    def set_var(interp, obj, a, k):
        d = a[1] if len(a) > 1 else k["distribution"]
        if not isinstance(d, Opaque):
            raise Unsupported("distribution given to the state")
        interp.event("set_var", text(a[0] if a else k["name"]), d.term)

    def get(has, val, wrap, name):
        def fn(interp, obj, a, k):
            t = text(a[0] if a else k["name"])
            interp.event(name, t)
            if interp.branch(has(t)):
                return wrap(val(t))
            raise PyRaise("KeyError")

        return fn

    i.handlers["IProbabilityDistributionState"] = {
        "set_constant": set_constant,
        "set_var": set_var,
        "get_constant": get(HASC, CONST, lambda t: t, "get_constant"),
        "get_var": get(HASV, VAR, opaque_dist, "get_var"),
        "has_constant": lambda interp, obj, a, k: HASC(text(a[0] if a else k["name"])),
        "has_var": lambda interp, obj, a, k: HASV(text(a[0] if a else k["name"])),
    }


# method -> (what the operand is asked, what is recorded)
RECORDS = {
    "roll": ("roll", ["set_constant"]),
    "max": ("max", ["set_constant", "set_var"]),
    "min": ("min", ["set_constant", "set_var"]),
    "estimated_cost": ("cost", ["set_constant"]),
    "get_probability_distribution": ("distribution", ["set_var"]),
}


def assign(ctx, method):
    i = ctx.interp
    install(ctx)
    n = z3.Const("n", Name)
    e = expr("e")
    obj = i.call(i.get(ASSIGN), [opaque("IProbabilityDistributionState", "state"), name_of(n), e])
    asked, records = RECORDS[method]
    for r in ctx.paths(lambda: i.call(i.getattr(obj, method), [])):
        if r.kind == "raise":
            ctx.record(f"raises {r.exc.name}", False, str(r.all))
            continue
        if any(x[0] == "loop" for x in r.trace):
            raise Unsupported("loop in an assignment")
        ev = [x[0] for x in r.trace]
        ctx.record("evaluated once", ev.count(asked) == 1, str(r.trace))
        ctx.record("recorded once", sorted(x for x in ev if x.startswith("set_")) == sorted(records), str(r.trace))
        firstset = min([k for k, x in enumerate(ev) if x.startswith("set_")] or [99])
        ctx.record("the value is computed before it is recorded", asked in ev and ev.index(asked) < firstset, str(r.trace))
        roll = next((x[2] for x in r.trace if x[0] == "roll"), None)
        value = {"roll": roll, "max": MAXE(e.term), "min": MINE(e.term), "estimated_cost": COST(e.term), "get_probability_distribution": DISTOF(e.term)}[method]
        if value is None:
            continue
        for x in r.trace:
            if x[0] == "set_constant":
                ctx.prove("the value is recorded for the variable", r.all, z3.And(x[1] == n, x[2] == value))
            if x[0] == "set_var":
                ctx.prove("the distribution is recorded for the variable", r.all, z3.And(x[1] == n, x[2] == DISTOF(e.term)))
        got = r.value.term if isinstance(r.value, Opaque) else as_int(r.value)
        if method == "get_probability_distribution" and not isinstance(r.value, Opaque):
            ctx.record("a distribution is returned", False)
            continue
        if method == "estimated_cost":
            value = value + 2
        ctx.prove("the value is reported", r.all, got == value)


def refer(ctx, method):
    i = ctx.interp
    install(ctx)
    n = z3.Const("n", Name)
    obj = i.call(i.get(GET), [opaque("IProbabilityDistributionState", "state"), name_of(n)])
    dist = method == "get_probability_distribution"
    has, val = (HASV, VAR) if dist else (HASC, CONST)
    if method in ("max", "min"):
        # what assignments record: the extreme of the distribution of the variable
        i.assume(z3.Implies(HASC(n), z3.And(HASV(n), CONST(n) == (DMAX if method == "max" else DMIN)(VAR(n)))))
    for r in ctx.paths(lambda: i.call(i.getattr(obj, method), [])):
        ctx.record("nothing is recorded", not [x for x in r.trace if x[0].startswith("set_")], str(r.trace))
        if r.kind == "raise":
            ctx.record("only KeyError", r.exc.name == "KeyError", r.exc.name)
            ctx.prove("only for a variable without value", r.all, z3.Not(has(n)))
            continue
        ctx.prove("only for a variable with a value", r.all, has(n))
        if dist != isinstance(r.value, Opaque):
            ctx.record("kind of the value", False, repr(r.value))
            continue
        got = r.value.term if dist else as_int(r.value)
        ctx.prove("the recorded value", r.all, got == (val(n) if method not in ("max", "min") else (DMAX if method == "max" else DMIN)(VAR(n))))
