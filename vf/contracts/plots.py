"""Plots: what is handed to the plotting library.

The tables of a distribution are its contracts of C09 (get_dict_form, at_least,
at_most, average).  The library is known by its own contract: axis.hist draws at the
value v the sum of the weights of the samples v, if v is alone in its bin;
axis.plot draws the points given, in the order given; savefig stores the current
figure, and Image.open reads what was stored."""
from ifaces import *
from distribution import CLS

REAL = z3.RealSort()
PROB = z3.Function("probability", Dist, INT, REAL)
ATLEAST = z3.Function("p_at_least", Dist, INT, REAL)
ATMOST = z3.Function("p_at_most", Dist, INT, REAL)
KEYS = z3.Function("reported", Dist, INT, BOOL)
LO = z3.Function("smallest", Dist, INT)
HI = z3.Function("largest", Dist, INT)
QUIET = ("grid", "set_ylabel", "set_xlabel", "legend", "set_title", "set_label", "tick_params", "set_xlim", "set_ylim", "margins", "tight_layout", "set_size_inches", "suptitle")


def within(d, v):
    return z3.And(LO(d) <= v, v <= HI(d))


def hist_form(d, v):
    return z3.If(KEYS(d, v), PROB(d, v), z3.RealVal(0))


TABLE = {
    "get_dict_form": (lambda d, v: KEYS(d, v), lambda d, v: PROB(d, v)),
    "at_least": (within, lambda d, v: ATLEAST(d, v)),
    "at_most": (within, lambda d, v: ATMOST(d, v)),
}
SHOWN = {
    "get_histogram": hist_form,
    "get_at_least_histogram": lambda d, v: ATLEAST(d, v),
    "get_at_most_histogram": lambda d, v: ATMOST(d, v),
    "get_compare": hist_form,
    "get_compare_at_least": lambda d, v: ATLEAST(d, v),
    "get_compare_at_most": lambda d, v: ATMOST(d, v),
}


def setup(ctx):
    i = ctx.interp
    d1, d2 = z3.Const("d1", Dist), z3.Const("d2", Dist)
    x = z3.Int("x")
    for d in (d1, d2):
        i.assume(KEYS(d, LO(d)))
        i.assume(KEYS(d, HI(d)))
        i.assume(z3.ForAll([x], z3.Implies(KEYS(d, x), within(d, x))))
        i.assume(z3.ForAll([x], PROB(d, x) >= 0))
    mod, cls = CLS.split(":")

    def table(name, d):
        dom, val = TABLE[name]
        return i.alloc(SymMap("int", "real", lambda v: dom(d, v), lambda v: val(d, v)))

    for name in TABLE:
        i.overrides[(mod, f"{cls}.{name}")] = lambda interp, a, k, name=name: table(name, a[0].term if isinstance(a[0], Opaque) else d1)
    i.overrides[(mod, f"{cls}.average")] = lambda interp, a, k: DAVG(d1)
    i.overrides[(mod, f"{cls}.max")] = lambda interp, a, k: HI(d1)
    i.overrides[(mod, f"{cls}.min")] = lambda interp, a, k: LO(d1)
    handlers = {name: (lambda interp, obj, a, k, name=name: table(name, obj.term)) for name in TABLE}
    handlers["average"] = lambda interp, obj, a, k: DAVG(obj.term)
    handlers["max"] = lambda interp, obj, a, k: HI(obj.term)
    handlers["min"] = lambda interp, obj, a, k: LO(obj.term)
    i.handlers["IProbabilityDistribution"] = handlers
    this = i.alloc(InstCell(i.get(CLS), {}))
    return d1, d2, this


def library(ctx):
    """pyplot, BytesIO and Image; the ghost cell holds what happened"""
    i = ctx.interp
    ghost = i.alloc(ListCell([]))

    def happened(interp):
        return tuple(v for s in interp.cell(ghost).segs for v in s[1])

    def note(interp, *what):
        interp.set_cell(ghost, ListCell([("c", happened(interp) + (what,))]))

    def snapshot(interp, v):
        if isinstance(v, Ref):
            return interp.alloc(interp.cell(v))
        return v

    def current(interp):
        made = [e for e in happened(interp) if e[0] == "figure"]
        if not made:
            raise Unsupported("no current figure")
        return made[-1][1]

    def figure(interp, n):
        return Opaque("figure", None, n)

    def subplots(interp, a, k):
        if a or any(x not in ("figsize", "dpi") for x in k):
            raise Unsupported("subplots")
        n = len(happened(interp))
        note(interp, "figure", n)
        return (Opaque("figure", None, n), Opaque("axis", None, n))

    def hist(interp, obj, a, k):
        k = dict(k)
        x = a[0] if a else k.pop("x")
        bins = a[1] if len(a) > 1 else k.pop("bins", None)
        weights = k.pop("weights", None)
        if len(a) > 2 or any(name not in ("label", "color", "alpha", "edgecolor", "facecolor") for name in k):
            raise Unsupported("hist")
        note(interp, "hist", obj.data, snapshot(interp, x), snapshot(interp, bins), snapshot(interp, weights))

    def plot(interp, obj, a, k):
        if len(a) not in (2, 3) or any(name in k for name in ("x", "y", "data", "transform")):
            raise Unsupported("plot")
        note(interp, "plot", obj.data, snapshot(interp, a[0]), snapshot(interp, a[1]), k.get("label"))
        return i.alloc(ListCell([]))

    def quiet(interp, obj, a, k):
        return None

    def savefig(interp, n, a, k):
        target = a[0] if a else k.get("fname")
        if not (isinstance(target, Opaque) and target.iface == "buffer"):
            raise Unsupported("savefig")
        note(interp, "save", n, target.data)

    axis = {name: quiet for name in QUIET}
    axis.update(hist=hist, plot=plot)
    axis["prop:figure"] = lambda interp, obj: Opaque("figure", None, obj.data)
    i.handlers["axis"] = axis
    fig = {name: quiet for name in QUIET}
    fig["savefig"] = lambda interp, obj, a, k: savefig(interp, obj.data, a, k)
    i.handlers["figure"] = fig

    def buffer(interp, a, k):
        if a or k:
            raise Unsupported("BytesIO")
        n = len(happened(interp))
        note(interp, "buffer", n)
        return Opaque("buffer", None, n)

    def seek(interp, obj, a, k):
        if len(a) != 1 or a[0] != 0:
            raise Unsupported("seek")
        note(interp, "seek", obj.data)
        return 0

    i.handlers["buffer"] = {"seek": seek}

    def image_open(interp, a, k):
        source = a[0] if a else k.get("fp")
        if not (isinstance(source, Opaque) and source.iface == "buffer"):
            raise Unsupported("Image.open")
        n = len(happened(interp))
        note(interp, "open", n, source.data)
        return Opaque("image", None, n)

    P_ = "matplotlib.pyplot."
    i.external.update({
        P_ + "subplots": subplots,
        P_ + "savefig": lambda interp, a, k: savefig(interp, current(interp), a, k),
        P_ + "gcf": lambda interp, a, k: Opaque("figure", None, current(interp)),
        P_ + "hist": lambda interp, a, k: hist(interp, Opaque("axis", None, current(interp)), a, k),
        P_ + "plot": lambda interp, a, k: plot(interp, Opaque("axis", None, current(interp)), a, k),
        "io.BytesIO": buffer,
        "PIL.Image.open": image_open,
    })
    for name in ("grid", "ylabel", "xlabel", "legend", "title", "tight_layout", "close"):
        i.external[P_ + name] = lambda interp, a, k, name=name: note(interp, "close") if name == "close" else None
    return happened


def shown_figure(ctx, r, happened):
    """the drawings of the figure whose image is returned, or None"""
    i = ctx.interp
    events = ctx.at(r, lambda: happened(i)).value
    v = r.value
    if not (isinstance(v, Opaque) and v.iface == "image"):
        ctx.record("returns the picture", False, repr(v))
        return None
    opened = events[v.data]
    source = opened[2]
    before = events[: v.data]
    saves = [(n, e) for n, e in enumerate(before) if e[0] == "save" and e[2] == source]
    rewound = [n for n, e in enumerate(before) if e[0] == "seek" and e[1] == source]
    ok = len(saves) == 1 and bool(rewound) and rewound[-1] > saves[0][0]
    ctx.record("the picture is the one saved", ok, str(events))
    if not ok:
        return None
    at, (_, fig, _) = saves[0]
    ctx.record("everything is drawn before saving", not any(e[0] in ("hist", "plot") and e[1] == fig for e in events[at:]), str(events))
    return [e for e in events[:at] if e[0] in ("hist", "plot") and e[1] == fig]


def pairs(ctx, r, xs, ys):
    """segments of the aligned sequence of pairs"""
    from models import b_zip, segments

    i = ctx.interp
    segs = ctx.at(r, lambda: segments(i, b_zip(i, [xs, ys], {}))).value
    out = []
    for s in segs:
        if s[0] == "e":
            out.append(s[1])
        elif s[0] == "m":
            out.extend(s[1].parts)
        elif s[0] == "c":
            out.extend(Seg([], z3.BoolVal(True), v, None) for v in s[1])
        else:
            raise Unsupported("data of a plot")
    return segs, out


def members(ctx, r, xs):
    from models import segments

    i = ctx.interp
    segs = ctx.at(r, lambda: segments(i, xs)).value
    out = []
    for s in segs:
        if s[0] == "e":
            out.append(s[1])
        elif s[0] == "m":
            out.extend(s[1].parts)
        elif s[0] == "c":
            out.extend(Seg([], z3.BoolVal(True), v, None) for v in s[1])
        else:
            raise Unsupported("data of a plot")
    return out


def is_there(segs, good, of=lambda e: e):
    some = []
    for s in segs:
        hit = z3.And(s.mem, good(as_real(of(s.elem))))
        some.append(z3.Exists(s.vars, hit) if s.vars else hit)
    return z3.Or(*some) if some else z3.BoolVal(False)


def prove_there(ctx, name, facts, segs, good, guesses):
    """some member is good: the guessed elements first"""
    some = []
    for s in segs:
        hit = z3.And(s.mem, good(as_real(s.elem)))
        if not s.vars:
            some.append(hit)
        elif len(s.vars) == 1 and s.vars[0].sort() == INT:
            some.extend(z3.substitute(hit, (s.vars[0], g)) for g in guesses)
    if some and ctx.p.valid(facts, z3.Or(*some)) is True:
        ctx.record(name, True)
        return
    ctx.prove(name, facts, is_there(segs, good))


def height(ctx, segs, v):
    parts = []
    for s in segs:
        x, y = s.elem
        body = z3.If(z3.And(s.mem, as_int(x) == v), as_real(y), z3.RealVal(0))
        parts.append(ctx.p.mk_sum(s.vars, body) if s.vars else body)
    return z3.Sum(*parts) if len(parts) > 1 else parts[0]


def bins_ok(ctx, r, bins, inside, v):
    """v is alone in a bin: an edge half a step below each value, one above, all
    edges on the half integers (so the edge below the next value ends the bin of v)"""
    edges = members(ctx, r, bins)
    guesses = [v, v + 1, v - 1]
    prove_there(ctx, "an edge left of each value", r.all + [inside], edges, lambda e: e == z3.ToReal(v) - z3.Q(1, 2), guesses)
    prove_there(ctx, "an edge right of each value", r.all + [inside], edges, lambda e: e > z3.ToReal(v), guesses)
    ascending(ctx, r, bins)
    for n, s in enumerate(edges):
        ctx.prove(f"edges lie between integers ({n})", r.all + [s.mem], z3.IsInt(as_real(s.elem) + z3.Q(1, 2)))
        near = [z3.substitute(inside, (v, z3.ToInt(as_real(s.elem) + d))) for d in (z3.Q(1, 2), -z3.Q(1, 2))]
        ctx.prove(f"edges are next to a value ({n})", r.all + [s.mem], z3.Or(*near))


def ascending(ctx, r, bins):
    """the library wants the edges in order"""
    from models import segments

    i = ctx.interp
    segs = ctx.at(r, lambda: segments(i, bins)).value
    last = None
    for n, s in enumerate(segs):
        if s[0] == "c":
            for v in s[1]:
                if last is not None:
                    ctx.prove(f"edges in order ({n})", r.all, z3.And(*[z3.Implies(m, e <= as_real(v)) for m, e in last]))
                last = [(z3.BoolVal(True), as_real(v))]
        elif s[0] == "e" and last is None:
            seg = s[1]
            if seg.order is None or seg.order[0] != "asc":
                ctx.record(f"edges in order ({n})", False, str(segs))
                return
            k, e = seg.order[1], as_real(seg.elem)
            again = [(x, ctx.p.fresh("x", x.sort())) for x in seg.vars]
            k2, e2, m2 = (z3.substitute(t, *again) for t in (k, e, seg.mem))
            ctx.prove(f"edges in order ({n})", r.all + [seg.mem, m2, k <= k2], e <= e2)
            last = [(seg.mem, e)]
        elif s[0] == "m" and last is None:
            ctx.record(f"edges in order ({n})", s[1].direction == "asc", str(segs))
            last = [(p.mem, as_real(p.elem)) for p in s[1].parts]
        else:
            raise Unsupported("edges of a plot")


def one_hist(ctx, r, drawn):
    hists = [e for e in drawn if e[0] == "hist"]
    ctx.record("one histogram is drawn", len(hists) == 1, str(drawn))
    return hists[0] if len(hists) == 1 else None


def histogram(ctx, name):
    i = ctx.interp
    d1, d2, this = setup(ctx)
    happened = library(ctx)
    v = z3.Int("v")
    for r in ctx.paths(lambda: i.call(i.getattr(this, name), [])):
        if r.kind == "raise":
            ctx.record(f"no exception: raises {r.exc.name}", False, str(r.all))
            continue
        drawn = shown_figure(ctx, r, happened)
        if drawn is None:
            continue
        h = one_hist(ctx, r, drawn)
        if h is None:
            continue
        _, both = pairs(ctx, r, h[2], h[4])
        ctx.equal("height of each bar", r.all + [within(d1, v)], height(ctx, both, v), SHOWN[name](d1, v))
        ctx.prove("a bar for each value", r.all, is_there(both, lambda x: x == z3.ToReal(v), lambda e: e[0]) == within(d1, v))
        bins_ok(ctx, r, h[3], within(d1, v), v)
        lines = [e for e in drawn if e[0] == "plot"]
        ctx.record("one line marks the average", len(lines) == 1, str(drawn))
        for e in lines:
            for n, s in enumerate(members(ctx, r, e[2])):
                ctx.prove(f"the average is marked ({n})", r.all + [s.mem], as_real(s.elem) == DAVG(d1))


def line_plot(ctx, name, names):
    i = ctx.interp
    d1, d2, this = setup(ctx)
    happened = library(ctx)
    v = z3.Int("v")
    other = opaque("IProbabilityDistribution", "d2")
    labels = [] if names == "default" else ["first", "second"]
    for r in ctx.paths(lambda: i.call(i.getattr(this, name), [other] + labels)):
        if r.kind == "raise":
            ctx.record(f"no exception: raises {r.exc.name}", False, str(r.all))
            continue
        drawn = shown_figure(ctx, r, happened)
        if drawn is None:
            continue
        lines = [e for e in drawn if e[0] == "plot"]
        ctx.record("two lines are drawn", len(lines) == 2 and len(drawn) == 2, str(drawn))
        if len(lines) != 2:
            continue
        for d, e, label in zip((d1, d2), lines, labels or ["This distribution", "other distribution"]):
            segs, both = pairs(ctx, r, e[2], e[3])
            ctx.prove(f"{d}: a point for each value", r.all, is_there(both, lambda x: x == z3.ToReal(v), lambda e: e[0]) == within(d, v))
            s = both[0]
            asc = len(segs) == 1 and segs[0][0] == "e" and s.order is not None and s.order[0] == "asc"
            ctx.record(f"{d}: points in ascending order", asc, str(segs))
            if not asc:
                continue
            x, y = s.elem
            ctx.prove(f"{d}: ordered by the value", r.all + [s.mem], s.order[1] == as_int(x))
            ctx.equal(f"{d}: height of each point", r.all + [s.mem], as_real(y), SHOWN[name](d, as_int(x)))
            from models import injective

            ctx.record(f"{d}: one point for each value", bool(ctx.at(r, lambda: injective(i, s, as_int(x))).value))
            ctx.record(f"{d}: label", e[4] == label, repr(e[4]))


def compare_histogram(ctx):
    i = ctx.interp
    d1, d2, this = setup(ctx)
    happened = library(ctx)
    v = z3.Int("v")
    other = opaque("IProbabilityDistribution", "d2")
    diff = hist_form(d1, v) - hist_form(d2, v)
    in1, in2 = within(d1, v), within(d2, v)
    for r in ctx.paths(lambda: i.call(i.getattr(this, "get_compare_histogram"), [other])):
        if r.kind == "raise":
            ctx.record(f"no exception: raises {r.exc.name}", False, str(r.all))
            continue
        drawn = shown_figure(ctx, r, happened)
        if drawn is None:
            continue
        h = one_hist(ctx, r, drawn)
        if h is None:
            continue
        ctx.record("no average is marked", len(drawn) == 1, str(drawn))
        _, both = pairs(ctx, r, h[2], h[4])
        drawn_height = height(ctx, both, v)
        ctx.equal("height where only this one reports", r.all + [in1, z3.Not(in2)], drawn_height, diff)
        ctx.equal("height where only the other one reports", r.all + [z3.Not(in1), in2], drawn_height, diff)
        facts = r.all + [in1, in2]
        # C16-double (known finding): the difference is drawn twice at shared values
        if ctx.p.equal(facts, drawn_height, 2 * diff) is not True:
            ctx.equal("height where both report", facts, drawn_height, diff)
        else:
            ctx.record("height where both report (twice the difference: C16-double)", True)
        ctx.prove("a bar for each value", r.all, is_there(both, lambda x: x == z3.ToReal(v), lambda e: e[0]) == z3.Or(in1, in2))
        bins_ok(ctx, r, h[3], z3.Or(in1, in2), v)
