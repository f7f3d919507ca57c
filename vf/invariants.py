"""Loops proved with an invariant over the collections they change.

The contract proposes invariants as formulas over the membership of the collections
(of objects of one kind) that the loop modifies, whatever they are called; those
that hold at entry and are preserved by the body (proved by executing it once from
an arbitrary state satisfying them) hold at the end."""
import z3

from values import *  # noqa: F401,F403
from loops import modified, read, write, CONTAINER, cell_family
import models


def kind_and_members(interp, cell):
    """(kind of the members or None, membership) of a set or list"""
    if isinstance(cell, (ConcSet, SymSet)):
        s = models.set_to_sym(interp, cell)
        if s.kkind is None:
            return None, (lambda x: z3.BoolVal(False))
        return s.kkind, s.dom
    if isinstance(cell, ListCell):
        kinds, parts = [], []
        for s in cell.segs:
            if s[0] == "c":
                for v in s[1]:
                    k, t = interp.encode(v)
                    kinds.append(k)
                    parts.append(lambda x, t=t: x == t)
            elif s[0] == "e":
                seg = s[1]
                k, t = interp.encode(seg.elem)
                kinds.append(k)

                def part(x, seg=seg, t=t):
                    from loops import exists

                    fresh = [interp.prover.fresh("m", v.sort()) for v in seg.vars]
                    pairs = list(zip(seg.vars, fresh))
                    return exists(interp.prover, fresh, z3.And(z3.substitute(seg.mem, *pairs), x == z3.substitute(t, *pairs)))

                parts.append(part)
            else:
                raise Unsupported("list in a loop invariant")
        if len(set(kinds)) > 1:
            raise Unsupported("mixed list")
        if not kinds:
            return None, (lambda x: z3.BoolVal(False))
        return kinds[0], (lambda x: z3.simplify(z3.Or(*[p(x) for p in parts])) if len(parts) > 1 else parts[0](x))
    raise Unsupported("collection")


def generic(interp, cell, kind):
    p = interp.prover
    h = p.fresh_fun("members", interp.sort_of(kind), z3.BoolSort())
    if isinstance(cell, (ConcSet, SymSet)):
        return SymSet(kind, lambda x: h(x)), (lambda x: h(x))
    v = p.fresh("m", interp.sort_of(kind))
    return ListCell([("e", Seg([v], h(v), interp.decode(kind, v), None, None))]), (lambda x: h(x))


class Cand:
    def __init__(self, name, formula):
        self.name, self.formula = name, formula  # formula(members by component)


def referenced(heap, oid, skip):
    """is the object referenced from anything but the given variable?"""
    def holds(v):
        if isinstance(v, Ref):
            return v.oid == oid
        if isinstance(v, tuple):
            return any(holds(x) for x in v)
        return False

    for o in list(heap):
        cell = heap[o]
        if isinstance(cell, FrameCell):
            for n, v in cell.vars.items():
                if (o, n) != skip and holds(v):
                    return True
        elif isinstance(cell, InstCell):
            if any(holds(v) for v in cell.fields.values()):
                return True
        elif isinstance(cell, ConcMap):
            if any(holds(v) for v in cell.items.values()):
                return True
        elif isinstance(cell, ListCell):
            if any(s[0] == "c" and any(holds(v) for v in s[1]) for s in cell.segs):
                return True
    return False


def while_rule(kind, propose):
    """hint for while loops over collections of the given kind"""

    def hint(interp, test, body, label):
        i, p = interp, interp.prover
        base = type(i.heap)(i.heap)
        trace0 = len(i.trace)

        def step():
            if not i.branch(test()):
                return "exit"
            try:
                body()
            except ContinueSig:
                pass
            except BreakSig:
                return "exit"
            return "next"

        comps = {}  # key -> dict(ref, members)
        gone = set()

        def havoced():
            heap = type(base)(base)
            for key, c in comps.items():
                if c["poison"]:
                    write(heap, key, POISON)
                elif key[0] == "cell":
                    heap[key[1]] = c["cell"]
                else:
                    heap[c["ref"].oid] = c["cell"]
                    write(heap, key, c["ref"])
            return heap

        def run(extra=()):
            saved = i.heap, i.facts
            i.heap, i.facts = havoced(), i.facts + list(extra)
            try:
                return i.explore(step)
            finally:
                i.heap, i.facts = saved

        for _ in range(8):
            results = run()
            if any(r.kind != "normal" for r in results):
                raise Unsupported("loop left by return or exception")
            if any(r.trace for r in results):
                raise Unsupported("events in a while loop")
            start = havoced()
            keys = {}
            for r in results:
                if r.value == "next":
                    for key in modified(start, r.heap):
                        keys.setdefault(key, []).append(r)
            own = {c["ref"].oid for c in comps.values() if c.get("ref")}
            keys = {k: v for k, v in keys.items() if not (k[0] == "cell" and k[1] in own)}
            new = [k for k in keys if k not in comps and k not in gone]
            if not new:
                break
            # variables first: what they are bound to may be changed in place too
            variables = [k for k in new if k[0] != "cell"] or new
            for key in variables:
                old = read(base, key)
                if old is UNDEF:
                    comps[key] = dict(poison=True)
                    continue
                if key[0] == "cell":
                    cell = old
                else:
                    if not isinstance(old, Ref) or not isinstance(base[old.oid], (ConcSet, SymSet, ListCell)):
                        raise Unsupported(f"while loop at {label} changes something else than collections")
                    if referenced(base, old.oid, (key[1], key[2])):
                        raise Unsupported("collection of a loop is shared")
                    cell = base[old.oid]
                k, _ = kind_and_members(i, cell)
                if k not in (None, kind):
                    raise Unsupported("members of a collection in a loop")
                g, members = generic(i, cell, kind)
                c = dict(poison=False, cell=g, members=members, first=cell)
                if key[0] != "cell":
                    saved = i.heap
                    i.heap = type(base)(base)
                    c["ref"] = i.alloc(g)
                    i.heap = saved
                    # the object the variable starts with is not shared: nothing sees it again
                    comps.pop(("cell", old.oid), None)
                    gone.add(("cell", old.oid))
                comps[key] = c
        else:
            raise Unsupported("loop state does not settle")
        boxes = {k: c for k, c in comps.items() if not c["poison"]}
        entry = {k: kind_and_members(i, c["first"])[1] for k, c in boxes.items()}
        facts0, cands = propose(i, entry)
        for f in facts0:
            i.assume(f)
        now = {k: c["members"] for k, c in boxes.items()}
        cands = [c for c in cands if p.valid(i.all_facts(), c.formula(entry)) is True]
        while True:
            held = [c.formula(now) for c in cands]
            results = run(held)
            failed = set()
            for r in results:
                if r.kind != "normal" or r.value != "next":
                    continue
                after = {}
                for key, c in boxes.items():
                    v = read(r.heap, key)
                    if key[0] != "cell":
                        if not isinstance(v, Ref) or (v.oid in base and v.oid != c["ref"].oid):
                            raise Unsupported("collection of a loop becomes shared")
                        v = r.heap[v.oid]
                    k, members = kind_and_members(i, v)
                    if k not in (None, kind):
                        raise Unsupported("members of a collection in a loop")
                    after[key] = members
                facts = i.all_facts() + held + r.conds + r.facts
                for c in cands:
                    if c not in failed and p.valid(facts, c.formula(after)) is not True:
                        failed.add(c)
            if not failed:
                break
            cands = [c for c in cands if c not in failed]
        i.loop_notes.append((label, [c.name for c in cands]))
        i.heap = havoced()
        for c in cands:
            i.assume(c.formula(now))
        if i.branch(test()):
            raise Infeasible()
        return True

    return hint


def fold_rule(kind, propose):
    """rule for a loop over an unordered collection that changes collections:
    propose(interp, members, processed) gives the invariant after the elements of
    `processed`; used by loops.Summary for what it can not classify"""

    def fold(summary, pending):
        i, p, b = summary.i, summary.p, summary.b
        boxes = {}
        for c in pending:
            if c.cellkind not in ("set",) or c.kind != kind:
                return False
            boxes[c.key] = c
        if len(b.elems) != 1 or b.elems[0].sort() != i.sort_of(kind):
            return False
        done = p.fresh_fun("processed", b.elems[0].sort(), z3.BoolSort())
        x = p.fresh("x", b.elems[0].sort())
        e = b.elems[0]
        mem = lambda t: z3.substitute(b.mem, (e, t))
        now = {k: (lambda y, d=c.symbols["dom"]: d(y)) for k, c in boxes.items()}
        first = {}
        for k, c in boxes.items():
            cell = c.init if k[0] == "cell" else i.heap[c.init.oid]
            kk, members = kind_and_members(i, cell)
            first[k] = members
        nothing = lambda t: z3.BoolVal(False)
        facts0, cands = propose(i, first)
        start = i.all_facts() + facts0
        cands = [c for c in cands if p.valid(start, c.formula(first, nothing)) is True]
        processed = lambda t: done(t)
        more = lambda t: z3.Or(done(t), t == e)
        while True:
            held = facts0 + [c.formula(now, processed) for c in cands]
            held.append(z3.ForAll([x], z3.Implies(done(x), mem(x))))
            held.append(z3.Not(done(e)))
            results = b.explore(type(summary.havoc_heap)(summary.havoc_heap), held)
            if any(r.kind not in ("normal", "continue") for r in results):
                return False
            failed = set()
            for r in results:
                after = {k: kind_and_members(i, summary.new_cell(r, c))[1] for k, c in boxes.items()}
                facts = i.all_facts() + held + [b.mem] + r.conds + r.facts
                for c in cands:
                    if c not in failed and p.valid(facts, c.formula(after, more)) is not True:
                        failed.add(c)
            if not failed:
                break
            cands = [c for c in cands if c not in failed]
        if not cands:
            return False
        i.loop_notes.append((summary.label, [c.name for c in cands]))
        final = {}
        for k, c in boxes.items():
            h = p.fresh_fun("members", i.sort_of(kind), z3.BoolSort())
            final[k] = lambda y, h=h: h(y)
            c.final = SymSet(kind, lambda y, h=h: h(y))
        for f in facts0:
            i.assume(f)
        for c in cands:
            i.assume(c.formula(final, mem))
        return True

    return fold


def integer_while_rule(propose, variant=None):
    """hint for while loops that change integers only: propose(interp, terms) gives
    candidate invariants as functions of {variable: term}; variant(terms) gives
    candidate variants (integers that stay >= 0 and fall in every round)"""

    def hint(interp, test, body, label):
        i, p = interp, interp.prover
        base = type(i.heap)(i.heap)
        comps = {}
        wrap = {}  # things known by an integer count as that integer

        def number(v):
            if isinstance(v, Opaque) and v.term is not None and v.term.sort() == z3.IntSort():
                return v.term
            return as_int(v)

        def havoced():
            heap = type(base)(base)
            for key, t in comps.items():
                write(heap, key, POISON if t is None else wrap[key](t))
            return heap

        def step():
            if not i.branch(test()):
                return "exit"
            try:
                body()
            except ContinueSig:
                pass
            except BreakSig:
                return "exit"
            return "next"

        def run(extra=()):
            saved = i.heap, i.facts
            i.heap, i.facts = havoced(), i.facts + list(extra)
            try:
                return [r for r in i.explore(step) if not p.infeasible(list(p.axioms) + i.all_facts() + r.conds + r.facts)]
            finally:
                i.heap, i.facts = saved

        for _ in range(8):
            results = run()
            start = havoced()
            new = set()
            for r in results:
                if r.trace or r.kind not in ("normal", "raise"):
                    raise Unsupported("while loop left by return, or with events")
                for key in modified(start, r.heap):
                    if key not in comps:
                        new.add(key)
            if not new:
                break
            for key in new:
                old = read(base, key)
                known = isinstance(old, Opaque) and is_z3(old.term) and old.term.sort() == z3.IntSort()
                if key[0] == "cell" or not (old is UNDEF or is_int(old) or known):
                    return False
                if known:
                    if any(not isinstance(read(r.heap, key), Opaque) or read(r.heap, key).iface != old.iface for r in results if r.kind == "normal"):
                        return False
                    wrap[key] = lambda t, iface=old.iface: Opaque(iface, t)
                else:
                    wrap[key] = lambda t: t
                comps[key] = None if old is UNDEF else p.fresh("w", z3.IntSort())
        else:
            raise Unsupported("loop state does not settle")
        ints = {k: t for k, t in comps.items() if t is not None}
        entry = {k: number(read(base, k)) for k in ints}
        facts0, cands = propose(i, list(ints))
        for f in facts0:
            i.assume(f)
        cands = [c for c in cands if p.valid(i.all_facts(), c.formula(entry)) is True]
        while True:
            held = [c.formula(ints) for c in cands]
            results = run(held)
            failed = set()
            rounds = [r for r in results if r.kind == "normal" and r.value == "next"]
            for r in rounds:
                after = {k: number(read(r.heap, k)) for k in ints}
                facts = i.all_facts() + held + r.conds + r.facts
                for c in cands:
                    if c not in failed and p.valid(facts, c.formula(after)) is not True:
                        failed.add(c)
            if not failed:
                break
            cands = [c for c in cands if c not in failed]
        i.loop_notes.append((label, [c.name for c in cands]))
        if variant is not None:
            good = []
            for v in variant(i, list(ints)):
                ok = True
                for r in rounds:
                    after = {k: number(read(r.heap, k)) for k in ints}
                    facts = i.all_facts() + held + r.conds + r.facts
                    ok = ok and p.valid(facts, z3.And(v.formula(ints) >= 0, v.formula(after) < v.formula(ints))) is True
                if ok:
                    good.append(v.name)
                    break
            i.loop_notes.append((label + " ends", good))
        raised = sorted({r.exc.name for r in results if r.kind == "raise"})
        i.heap = havoced()
        for c in cands:
            i.assume(c.formula(ints))
        for name in raised:
            if i.branch(p.fresh("raises", z3.BoolSort())):
                raise PyRaise(name)
        if i.branch(test()):
            raise Infeasible()
        return True

    return hint
