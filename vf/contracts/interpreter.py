"""The interpreter: a program runs line by line, once, with one state.

A line is parsed to a token bound to the state; evaluating a token gives a result
and a new content of the state (STEP, RESULT: the contracts of the expressions).
The state owns the dictionaries it hands out.  WORLD(k) is the state after the first
k lines; the contract says that the state is WORLD(n) after the call, that the
result of the last line is the one reported, and that the reported dictionary is an
own copy of the values in WORLD(n).  Precondition: no variable is called stdout."""
from ifaces import *
from loops import Form
from models import b_len
from strings import SStr, lit_name

World = z3.DeclareSort("World")
LINE = z3.Function("line", INT, Thing)
TOKEN = z3.Function("token", Thing, Expr)
BADTEXT = z3.Function("not_a_line", Thing, BOOL)
WORLD = z3.Function("world", INT, World)
CDOM = z3.Function("constant_names", World, Name, BOOL)
CVAL = z3.Function("constant", World, Name, INT)
VDOM = z3.Function("variable_names", World, Name, BOOL)
VVAL = z3.Function("variable", World, Name, Dist)
KINDS = {"roll": INT, "max": INT, "min": INT, "get_probability_distribution": Dist, "estimated_cost": INT}
STEP = {m: z3.Function("step_" + m, Expr, World, World) for m in KINDS}
RESULT = {m: z3.Function("result_" + m, Expr, World, s) for m, s in KINDS.items()}
FAILS = {m: z3.Function("fails_" + m, Expr, World, BOOL) for m in KINDS}
PICTURE = {m: z3.Function("picture_" + m, Dist, Thing) for m in ("get_histogram", "get_at_least_histogram", "get_at_most_histogram")}
INTERP = "python_dice.src.python_dice_interpreter:PythonDiceInterpreter"

CALLS = {
    "roll": ("roll", "constants"),
    "max": ("max", "constants"),
    "min": ("min", "constants"),
    "get_probability_distributions_dict": ("get_probability_distribution", "get_dict_form"),
    "get_probability_distributions": ("get_probability_distribution", "itself"),
    "get_average": ("get_probability_distribution", "average"),
    "get_histogram": ("get_probability_distribution", "get_histogram"),
    "get_at_least_histogram": ("get_probability_distribution", "get_at_least_histogram"),
    "get_at_most_histogram": ("get_probability_distribution", "get_at_most_histogram"),
    "get_estimated_cost": ("estimated_cost", "sum"),
}


class Setup:
    pass


def build(ctx, method):
    i, p = ctx.interp, ctx.p
    install_dists(ctx)
    s = Setup()
    s.n = z3.Int("n")
    s.w0 = z3.Const("w0", World)
    s.stdout = i.encode("stdout")[1]
    i.assume(s.n >= 0)
    i.assume(WORLD(0) == s.w0)
    dists = i.handlers["IProbabilityDistribution"]
    for m in PICTURE:
        dists[m] = lambda interp, obj, a, k, m=m: Opaque("picture", PICTURE[m](obj.term))

    s.constants = i.alloc(content(ctx, s, s.w0, "constants"))
    s.vars = i.alloc(content(ctx, s, s.w0, "vars"))
    s.ghost = i.alloc(InstCell(i.get(INTERP), {"world": Opaque("World", s.w0), "parsed": z3.IntVal(0)}))
    s.state = opaque("IProbabilityDistributionState", "state")

    def agrees(interp, what, ref, w):
        """the dictionary of the state still holds what the world says"""
        cell = interp.cell(ref)
        now = content(ctx, s, w, what)
        x = p.fresh("x", Name)
        from models import map_to_sym

        c = map_to_sym(interp, cell)
        ok = p.valid(interp.all_facts(), z3.Implies(x != s.stdout, z3.And(c.dom(x) == now.dom(x), z3.Implies(now.dom(x), c.val(x) == now.val(x)))))
        return ok

    s.agrees = agrees

    def token(m):
        def fn(interp, obj, a, k):
            if a or k or obj.data is not s:
                raise Unsupported("token call")
            cell = interp.cell(s.ghost)
            w = cell.fields["world"].term
            for what, ref in (("constants", s.constants), ("vars", s.vars)):
                if agrees(interp, what, ref, w) is not True:
                    interp.event("interference", what)
            if interp.branch(FAILS[m](obj.term, w)):
                raise PyRaise("EvaluationFailure")
            new = STEP[m](obj.term, w)
            fields = dict(cell.fields)
            fields["world"] = Opaque("World", new)
            interp.heap[s.ghost.oid] = InstCell(cell.cls, fields)
            interp.heap[s.constants.oid] = content(ctx, s, new, "constants")
            interp.heap[s.vars.oid] = content(ctx, s, new, "vars")
            res = RESULT[m](obj.term, w)
            return opaque_dist(res) if KINDS[m] == Dist else res

        return fn

    i.handlers["IDiceExpression"] = {m: token(m) for m in KINDS}

    def parse(interp, obj, a, k):
        text = a[0] if a else k.get("input_text")
        st = a[1] if len(a) > 1 else k.get("state")
        if not (isinstance(text, SStr) and len(text.atoms) == 1 and text.atoms[0][0] == "text"):
            raise Unsupported("text handed to the parser")
        if not (isinstance(st, Opaque) and st.term.eq(s.state.term)):
            interp.event("foreign state", repr(st))
        cell = interp.cell(s.ghost)
        fields = dict(cell.fields)
        fields["parsed"] = z3.simplify(fields["parsed"] + 1)
        interp.heap[s.ghost.oid] = InstCell(cell.cls, fields)
        t = text.atoms[0][1]
        if interp.branch(BADTEXT(t)):
            raise PyRaise("EvaluationFailure")
        return (Opaque("IDiceExpression", TOKEN(t), s), s.state)

    i.handlers["IPythonDiceParser"] = {"parse": parse}
    i.handlers["IProbabilityDistributionState"] = {
        "get_constant_dict": lambda interp, obj, a, k: s.constants,
        "get_var_dict": lambda interp, obj, a, k: s.vars,
    }
    m = CALLS[method][0]

    def step(k):
        w = WORLD(k)
        return WORLD(k + 1) == STEP[m](TOKEN(LINE(k)), w)

    def hint(interp, comp, summary, k, lo):
        if comp.key == ("field", s.ghost.oid, "world"):
            def at(kk):
                return Opaque("World", WORLD(kk))

            def equal(interp, summ, c, facts, value, kk):
                extra = [step(z3.simplify(kk - 1))]
                return isinstance(value, Opaque) and p.valid(facts + extra, value.term == WORLD(kk)) is True

            return Form(at, equal)
        for ref, what in ((s.constants, "constants"), (s.vars, "vars")):
            if comp.key == ("cell", ref.oid):
                def cell(kk, what=what):
                    return content(ctx, s, WORLD(kk), what)

                def equal(interp, summ, c, facts, value, kk, what=what):
                    from models import map_to_sym

                    now = content(ctx, s, WORLD(kk), what)
                    v = map_to_sym(interp, value)
                    x = p.fresh("x", Name)
                    extra = [step(z3.simplify(kk - 1))]
                    return p.valid(facts + extra, z3.Implies(x != s.stdout, z3.And(v.dom(x) == now.dom(x), z3.Implies(now.dom(x), v.val(x) == now.val(x))))) is True

                return Form(cell, equal, cell=cell)
        return None

    i.hints.append(hint)
    s.step = step
    k = z3.Int("k!line")
    line = SStr([("text", LINE(k))])
    s.lines = i.alloc(ListCell([("e", Seg([k], z3.And(0 <= k, k < s.n), line, ("asc", k), ("seq", z3.IntVal(0), s.n)))]))
    s.obj = i.call(i.get(INTERP), [opaque("IPythonDiceParser", "parser"), s.state, opaque("IProbabilityDistributionStateFactory", "sf"), opaque("IProbabilityDistributionFactory", "df")])
    return s


def content(ctx, s, w, what):
    """a dictionary of the state; nothing is known about the key stdout"""
    p = ctx.p
    d = p.fresh("stdout_kept", BOOL)
    v = p.fresh("stdout_value", INT if what == "constants" else Dist)
    kind = "int" if what == "constants" else ("op", "IProbabilityDistribution")
    dom, val = (CDOM, CVAL) if what == "constants" else (VDOM, VVAL)
    return SymMap(("str", (("name", "Name"),)), kind, lambda x: z3.If(x == s.stdout, d, dom(w, x)), lambda x: z3.If(x == s.stdout, v, val(w, x)))


def events_of(trace, name):
    for e in trace:
        if e[0] == name:
            yield e
        elif e[0] == "loop":
            for _, t in e[3]:
                yield from events_of(t, name)


def program(ctx, method):
    i, p = ctx.interp, ctx.p
    s = build(ctx, method)
    m, how = CALLS[method]
    finished = False
    from models import map_to_sym

    for r in ctx.paths(lambda: i.call(i.getattr(s.obj, method), [s.lines])):
        if r.kind == "raise":
            ctx.record(f"only failures of a line are raised ({r.exc.name})", r.exc.name == "EvaluationFailure", str(r.all))
            continue
        ctx.record("only the own state is used", not list(events_of(r.trace, "foreign state")), str(r.trace))
        ctx.record("the values of the state are not touched", not list(events_of(r.trace, "interference")), str(r.trace))
        g = r.heap[s.ghost.oid].fields
        last = z3.simplify(s.n - 1)
        facts = r.all + [z3.Implies(s.n > 0, s.step(last))]
        ctx.equal("every line is parsed once", facts, as_int(g["parsed"]), s.n)
        ctx.prove("every line is evaluated once, in order", facts, g["world"].term == WORLD(s.n))
        agree = ctx.at(r, lambda: (i.branchless_true(s.agrees(i, "constants", s.constants, g["world"].term) is True and s.agrees(i, "vars", s.vars, g["world"].term) is True),)).value[0]
        ctx.record("the state is not modified otherwise", agree)
        w = WORLD(last)
        res = RESULT[m](TOKEN(LINE(last)), w)
        if how == "sum":
            k = z3.Int("k!s")
            want = p.mk_sum([k], z3.If(z3.And(0 <= k, k < s.n), RESULT[m](TOKEN(LINE(k)), WORLD(k)), z3.IntVal(0)))
            ctx.equal("the cost is the sum over the lines", facts, as_int(r.value), want)
            finished = True
            continue
        if i.prover.infeasible(list(p.axioms) + facts + [s.n > 0]):
            if how in ("constants", "get_dict_form", "itself", "average"):
                own(ctx, s, r)
                if isinstance(r.value, Ref):
                    c = map_to_sym(i, r.heap[r.value.oid])
                    ok = c.kkind is None
                    if not ok:
                        ok = p.valid(facts, z3.Not(c.dom(z3.Const("x!name", Name))))
                    ctx.record("a program without lines reports nothing", ok is True)
            continue
        finished = True
        facts = facts + [s.n > 0]
        if how in PICTURE:
            ok = isinstance(r.value, Opaque) and r.value.iface == "picture"
            ctx.record("a picture", ok, repr(r.value))
            if ok:
                ctx.prove("the picture of the last line", facts, r.value.term == PICTURE[how](res))
            continue
        own(ctx, s, r)
        if not isinstance(r.value, Ref):
            continue
        c = map_to_sym(i, r.heap[r.value.oid])
        x = z3.Const("x!name", Name)
        dom, val = (CDOM, CVAL) if how == "constants" else (VDOM, VVAL)

        def shown(t):
            return {"constants": lambda: t, "itself": lambda: t, "average": lambda: DAVG(t), "get_dict_form": lambda: DTABLE["get_dict_form"](t)}[how]()

        ctx.prove("stdout is reported", facts, c.dom(s.stdout))
        ctx.prove("stdout is the result of the last line", facts, c.val(s.stdout) == shown(res))
        other = facts + [x != s.stdout]
        ctx.prove("exactly the variables are reported", other, c.dom(x) == dom(WORLD(s.n), x))
        ctx.prove("with their current value", other + [c.dom(x)], c.val(x) == shown(val(WORLD(s.n), x)))
    ctx.record("returns", finished)


def own(ctx, s, r):
    ctx.record("the result is a dictionary of its own", isinstance(r.value, Ref) and r.value not in (s.constants, s.vars), repr(r.value))


def defaults(ctx, how):
    """what an interpreter starts from.  Nothing given: the parser of the language and
    an empty state, its own, kept from line to line; a state factory given: the empty
    state it makes; a parser given: that parser."""
    i = ctx.interp
    install_dists(ctx)
    seen = []
    given_parser, own_parser = opaque("IPythonDiceParser", "given"), opaque("IPythonDiceParser", "default")
    made = opaque("IProbabilityDistributionState", "made")
    i.overrides[(P + "python_dice_parser", "PythonDiceParser")] = lambda interp, a, k: own_parser
    line = SStr([("text", z3.Const("line", Thing))])

    def parse(interp, obj, a, k):
        text = a[0] if a else k.get("input_text")
        st = a[1] if len(a) > 1 else k.get("state")
        size = None
        if isinstance(st, Ref):
            size = [b_len(interp, [interp.call(interp.getattr(st, g), [])], {}) for g in ("get_var_dict", "get_constant_dict")]
        seen.append((obj.term, text is line or text == line, st, size))
        return (Opaque("IDiceExpression", z3.Const("token", Expr)), st)

    i.handlers["IPythonDiceParser"] = {"parse": parse}
    i.handlers["IDiceExpression"] = {"estimated_cost": lambda interp, obj, a, k: z3.Int("cost")}
    i.handlers["IProbabilityDistributionStateFactory"] = {"create_new_empty_set": lambda interp, obj, a, k: made}
    args = {
        "nothing": {},
        "parser": {"parser": given_parser},
        "state factory": {"probability_distribution_state_factory": opaque("IProbabilityDistributionStateFactory", "sf")},
    }[how]

    def run():
        del seen[:]
        one, two = (i.call(i.get(INTERP), [], dict(args)) for _ in range(2))
        for o, n in ((one, 1), (two, 1), (one, 2)):
            i.call(i.getattr(o, "get_estimated_cost"), [i.alloc(ListCell([("c", (line,) * n)]))])
        return list(seen)

    for r in ctx.paths(run):
        if r.kind == "raise":
            ctx.record(f"raises {r.exc.name}", False, str(r.all))
            continue
        calls = r.value
        ctx.record("every line is parsed once", len(calls) == 4 and all(c[1] for c in calls), repr(calls))
        if len(calls) != 4:
            continue
        parser = given_parser if how == "parser" else own_parser
        ctx.record("by the parser of the interpreter", all(c[0].eq(parser.term) for c in calls), repr(calls))
        first, second, third, last = (c[2] for c in calls)
        if how == "state factory":
            ctx.record("with the state the factory made", all(isinstance(c[2], Opaque) and c[2].term.eq(made.term) for c in calls), repr(calls))
            continue
        ctx.record("one state for all lines", isinstance(first, Ref) and first == third == last, repr(calls))
        ctx.record("an own state for each interpreter", isinstance(second, Ref) and second != first, repr(calls))
        for c in calls:
            ctx.record("the state starts empty", c[3] == [0, 0], repr(c[3]))
