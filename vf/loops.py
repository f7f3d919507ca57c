"""Loops over symbolic collections.

A loop over a collection given by membership is replaced by a summary of what all
its iterations do together.  The body is executed once on a generic element from a
state in which everything the body modifies is arbitrary (havoc); for each modified
component one of the schemes below is proposed and its side condition is proved by
the prover (an inductive step).  No side condition proved: Unsupported.

  number   h' = h + d(e)                     ->  h0 + Σ d
  number   h' = max(h, t(e)) / min           ->  extreme of h0 and all t
  number   h' = h ^ t(e)                     ->  xor-fold
  bool     h' = h or r(e) / h and r(e)       ->  exists / for all
  dict     eff'(x) = eff(x) + d(e,x)         ->  eff0(x) + Σ d,  keys added
  dict     last write / first write wins     ->  value of the (provably unique) writer
  set      add / remove                      ->  dom0 or exists e / dom0 and no e
  list     append                            ->  segment
  ordered loops: closed forms f(k) proposed by the contract (init, step proved),
  running prefixes of sums, and execution of the last iteration for the rest."""
import z3

from values import *  # noqa: F401,F403
import models
from models import segments, MultiSeg, ATL
from sums import free_consts, fun_names, flat_and, solve_linear, split_pair, joint


def for_loop(interp, iterable, bind, body, label=""):
    """run the loop; True if it was left by break"""
    interp.loop_depth += 1
    try:
        return for_loop_(interp, iterable, bind, body, label)
    finally:
        interp.loop_depth -= 1


def for_loop_(interp, iterable, bind, body, label):
    watch = None
    src = iterable.ref if isinstance(iterable, ViewVal) else iterable
    if isinstance(src, Ref) and not isinstance(interp.cell(src), InstCell):
        watch = src
    for seg in segments(interp, iterable):
        if seg[0] == "c":
            for v in seg[1]:
                before = interp.cell(watch) if watch else None
                try:
                    bind(v)
                    body()
                except ContinueSig:
                    pass
                except BreakSig:
                    return True
                if watch and interp.cell(watch) is not before:
                    check_changed(interp, watch, before)
        elif seg[0] == "e":
            if sym_loop(interp, seg[1], bind, body, label, watch):
                return True
        elif seg[0] == "m":
            multi_loop(interp, seg[1], bind, body, label, watch)
        elif seg[0] == "s":
            if seg[1].loop(interp, bind, body, label):
                return True
        else:
            raise Unsupported("iteration over an undetermined list")
    return False


def check_changed(interp, ref, before):
    now = interp.cell(ref)
    if isinstance(before, ConcMap) and isinstance(now, ConcMap):
        if list(before.items) == list(now.items):
            return
    raise Unsupported("collection changed while it is iterated")


def multi_loop(interp, multi, bind, body, label, watch):
    """several segments in sorted order: every part is summarised; lists built in
    the loop are kept as one merged segment"""
    before = type(interp.heap)(interp.heap)
    for part in multi.parts:
        if part.vars:
            if sym_loop(interp, Seg(part.vars, part.mem, part.elem, None, None), bind, body, label, watch, plain=True):
                raise Unsupported("break in merged loop")
        else:
            raise Unsupported("merged loop")
    for oid, cell in list(interp.heap.items()):
        old = before.get(oid)
        if isinstance(cell, ListCell) and isinstance(old, ListCell) and cell is not old:
            added = cell.segs[len(old.segs) :]
            if len(added) == len(multi.parts) and all(s[0] == "e" for s in added):
                parts = [s[1] for s in added]
                keys = moved_keys(interp, multi, parts)
                moved = MultiSeg(parts, keys, multi.direction, multi.origin if keys else None)
                interp.heap[oid] = ListCell(old.segs + [("m", moved)], cell.is_tuple)
            elif added:
                raise Unsupported("merged loop")


def moved_keys(interp, multi, parts):
    """the sort keys of a merged list for a list built element by element from it"""
    if not multi.keys:
        return None
    keys = []
    for old, new, key in zip(multi.parts, parts, multi.keys):
        if len(old.vars) != len(new.vars) or any(a.sort() != b.sort() for a, b in zip(old.vars, new.vars)):
            return None
        pairs = list(zip(old.vars, new.vars))
        if not z3.simplify(z3.substitute(old.mem, *pairs)).eq(z3.simplify(new.mem)):
            return None
        keys.append(interp.subst(key, pairs))
    return keys


# ------------------------------------------------------------------ components
class Comp:
    def __init__(self, key, init):
        self.key = key
        self.init = init  # value (var/field) or cell
        self.kind = None
        self.havoc = None  # value or cell put in the heap
        self.names = set()  # havoc symbols
        self.final = None  # value/cell after the loop
        self.prefix = None  # value at the current element of an ordered loop
        self.ref = None  # havoc Ref of a re-bound container
        self.cellkind = None
        self.how = None

    def __repr__(self):
        return f"Comp{self.key}"


def same(a, b):
    if a is b:
        return True
    if is_z3(a) and is_z3(b):
        return a.eq(b)
    if is_z3(a) or is_z3(b):
        return False
    if isinstance(a, Opaque) and isinstance(b, Opaque):
        return a.iface == b.iface and a.term.eq(b.term)
    if isinstance(a, tuple) and isinstance(b, tuple):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, (int, str, float, bool)) and type(a) is type(b):
        return a == b
    if isinstance(a, Ref) and isinstance(b, Ref):
        return a == b
    if type(a).__name__ == "SStr" and type(b).__name__ == "SStr":
        return a.same(b)
    return False


def read(heap, key):
    if key[0] == "cell":
        return heap[key[1]]
    cell = heap[key[1]]
    table = cell.vars if key[0] == "var" else cell.fields
    return table.get(key[2], UNDEF)


def write(heap, key, value):
    if key[0] == "cell":
        heap[key[1]] = value
        return
    cell = heap[key[1]]
    if key[0] == "var":
        vars_ = dict(cell.vars)
        if value is UNDEF:
            vars_.pop(key[2], None)
        else:
            vars_[key[2]] = value
        heap[key[1]] = FrameCell(vars_)
    else:
        fields = dict(cell.fields)
        if value is UNDEF:
            fields.pop(key[2], None)
        else:
            fields[key[2]] = value
        heap[key[1]] = InstCell(cell.cls, fields, cell.sealed)


def modified(base, heap):
    out = []
    for oid, old in base.items():
        new = heap.get(oid)
        if new is old or new is None:
            continue
        if isinstance(old, FrameCell):
            for n in set(old.vars) | set(new.vars):
                if not same(old.vars.get(n, UNDEF), new.vars.get(n, UNDEF)):
                    out.append(("var", oid, n))
        elif isinstance(old, InstCell):
            for n in set(old.fields) | set(new.fields):
                if not same(old.fields.get(n, UNDEF), new.fields.get(n, UNDEF)):
                    out.append(("field", oid, n))
        else:
            out.append(("cell", oid))
    return out


CONTAINER = (ConcMap, SymMap, ConcSet, SymSet, ListCell)


def cell_family(cell):
    if isinstance(cell, (ConcMap, SymMap)):
        return "map"
    if isinstance(cell, (ConcSet, SymSet)):
        return "set"
    if isinstance(cell, ListCell):
        return "list"
    return None


def generic_cell(interp, comp, cells):
    """arbitrary content of the same shape as all the given cells"""
    p = interp.prover
    fam = {cell_family(c) for c in cells}
    if len(fam) != 1 or None in fam:
        return None
    fam = fam.pop()
    comp.cellkind = fam
    if fam == "map":
        kk = vk = None
        default = None
        for c in cells:
            default = c.default
            try:
                s = models.map_to_sym(interp, c)
            except Unsupported:
                return None
            kk, vk = interp.unify_kind(kk, s.kkind), interp.unify_kind(vk, s.vkind)
        if kk is None or vk is None:
            return None
        dom = p.fresh_fun("hdom", interp.sort_of(kk), z3.BoolSort())
        val = p.fresh_fun("hval", interp.sort_of(kk), interp.sort_of(vk))
        comp.kind = (kk, vk)
        comp.names = {dom.name(), val.name()}
        comp.symbols = {"dom": dom, "val": val}
        return SymMap(kk, vk, lambda x: dom(x), lambda x: val(x), default)
    if fam == "set":
        kk = None
        for c in cells:
            kk = interp.unify_kind(kk, models.set_to_sym(interp, c).kkind)
        if kk is None:
            return None
        dom = p.fresh_fun("hset", interp.sort_of(kk), z3.BoolSort())
        comp.kind = kk
        comp.names = {dom.name()}
        comp.symbols = {"dom": dom}
        return SymSet(kk, lambda x: dom(x))
    comp.kind = "list"
    hid = next(p.counter)
    comp.names = {f"hlist!{hid}"}
    comp.symbols = {"id": hid}
    return ListCell([("h", hid)], cells[0].is_tuple)


def generic_value(interp, comp, values, heap, cells_of):
    """havoc value for a variable or field; POISON if it has no generic form"""
    p = interp.prover
    comp.symbols = {}
    comp.names = set()
    if any(v is UNDEF or v is POISON for v in values):
        return POISON
    if all(is_num(v) for v in values):
        kind = "bool" if all(is_bool(v) for v in values) else ("real" if any(is_real(v) for v in values) else "int")
        c = p.fresh("h", interp.sort_of(kind))
        comp.kind = kind
        comp.names = {c.decl().name()}
        comp.symbols = {"const": c}
        return c
    if all(isinstance(v, Opaque) for v in values) and len({v.iface for v in values}) == 1:
        c = p.fresh("ho", values[0].term.sort())
        comp.kind = ("op", values[0].iface)
        comp.names = {c.decl().name()}
        comp.symbols = {"const": c}
        return Opaque(values[0].iface, c)
    if all(isinstance(v, Ref) for v in values):
        cells = [cells_of(v) for v in values]
        if all(isinstance(c, CONTAINER) for c in cells):
            g = generic_cell(interp, comp, cells)
            if g is None:
                return POISON
            ref = interp.alloc(g)
            heap[ref.oid] = g
            comp.ref = ref
            return ref
        return POISON
    if all(isinstance(v, str) or type(v).__name__ == "SStr" for v in values):
        return POISON
    return POISON


# ------------------------------------------------------------------ the summary
class Body:
    """exploration of one loop"""

    def __init__(self, interp, seg, bind, body):
        p = interp.prover
        self.i = interp
        self.seg = seg
        self.mark = next(p.counter)
        self.elems = [p.fresh("e", v.sort()) for v in seg.vars]
        self.pairs = list(zip(seg.vars, self.elems))
        self.mem = z3.substitute(seg.mem, *self.pairs) if self.pairs else seg.mem
        self.elem = interp.subst(seg.elem, self.pairs)
        self.order = None
        if seg.order:
            self.order = (seg.order[0], z3.substitute(seg.order[1], *self.pairs))
        self.bind = bind
        self.body = body

    def explore(self, heap, extra=()):
        i = self.i
        saved = i.heap
        i.heap = heap
        nf = len(i.facts)
        i.facts = i.facts + [self.mem] + list(extra)

        def run():
            self.bind(self.elem)
            self.body()

        try:
            results = i.explore(run)
        finally:
            i.heap = saved
            i.facts = i.facts[:nf]
        return results


def sym_loop(interp, seg, bind, body, label, watch=None, plain=False):
    if z3.is_false(z3.simplify(seg.mem)):
        return False
    if seg.vars == []:
        if interp.branch(seg.mem):
            try:
                bind(seg.elem)
                body()
            except ContinueSig:
                pass
            except BreakSig:
                return True
        return False
    loop = Summary(interp, seg, bind, body, label, watch, plain)
    return loop.run()


class Summary:
    def __init__(self, interp, seg, bind, body, label, watch, plain):
        self.i = interp
        self.p = interp.prover
        self.seg = seg
        self.label = label
        self.watch = watch
        self.bind = bind
        self.body = body
        self.b = Body(interp, seg, bind, body)
        self.comps = {}
        self.newvars = set()
        self.plain = plain
        self.no_exit = False

    # -------------------------------------------------------- discovery
    def discover(self):
        i = self.i
        base = type(i.heap)(i.heap)
        comps = {}
        results = None
        for _ in range(8):
            heap = type(base)(base)
            for c in comps.values():
                write(heap, c.key, c.havoc)
                if c.ref is not None:
                    heap[c.ref.oid] = c.refcell
            self.havoc_heap = heap
            results = self.b.explore(type(heap)(heap))
            changed = False
            values = {}
            for r in results:
                if r.kind not in ("normal", "continue"):
                    continue
                for key in modified(heap, r.heap):
                    values.setdefault(key, []).append((read(r.heap, key), r.heap))
            for key, news in values.items():
                if any(c.ref is not None and key == ("cell", c.ref.oid) for c in comps.values()):
                    raise Unsupported("re-bound container changed in place in a loop")
                if key[0] == "cell" and self.watch is not None and key[1] == self.watch.oid:
                    if any(not same_keys(i, base[key[1]], v) for v, _ in news):
                        raise Unsupported("collection changed while it is iterated")
                old = read(base, key)
                if key in comps:
                    c = comps[key]
                    if not self.kinds_fit(c, news):
                        changed = True
                        self.make_generic(c, old, news, base, extra=c.seen)
                    continue
                c = Comp(key, old)
                c.seen = []
                comps[key] = c
                changed = True
                self.make_generic(c, old, news, base, extra=[])
            if not changed:
                break
        else:
            raise Unsupported("loop state does not settle")
        self.comps = comps
        self.results = results
        # aliases: no two components may end in the same new container
        for r in results:
            if r.kind not in ("normal", "continue"):
                continue
            seen = set()
            for c in comps.values():
                if c.key[0] != "cell":
                    v = read(r.heap, c.key)
                    if isinstance(v, Ref) and c.ref is not None:
                        if v.oid in seen or (v.oid in base and v.oid != (c.ref.oid)):
                            raise Unsupported("aliased containers in a loop")
                        seen.add(v.oid)

    def make_generic(self, c, old, news, base, extra):
        i = self.i
        c.seen = list(extra) + news
        if c.key[0] == "cell":
            cells = [old] + [v for v, _ in c.seen]
            c.havoc = generic_cell(i, c, cells)
            if c.havoc is None:
                raise Unsupported("loop changes a container of undetermined shape")
            return
        values = [old] + [v for v, _ in c.seen]
        heaps = {id(v): h for v, h in c.seen}

        def cells_of(v):
            for w, h in c.seen:
                if w is v:
                    return h[v.oid]
            return base[v.oid]

        c.ref = None
        tmp = {}
        if any(isinstance(v, Ref) and v.oid in base for v, _ in c.seen):
            # bound to an object that exists already: no generic form
            c.symbols, c.names, c.havoc = {}, set(), POISON
            return
        c.havoc = generic_value(i, c, values, tmp, cells_of)
        if c.ref is not None:
            c.refcell = tmp[c.ref.oid]
            i.heap.pop(c.ref.oid, None)

    def kinds_fit(self, c, news):
        i = self.i
        if c.havoc is POISON:
            return True
        for v, h in news:
            if c.key[0] == "cell" or c.ref is not None:
                cell = v if c.key[0] == "cell" else (h[v.oid] if isinstance(v, Ref) else None)
                if cell is None or cell_family(cell) != c.cellkind:
                    return False
                if c.cellkind == "map":
                    s = models.map_to_sym(i, cell)
                    if (i.unify_kind(c.kind[0], s.kkind), i.unify_kind(c.kind[1], s.vkind)) != c.kind:
                        return False
                if c.cellkind == "set":
                    if i.unify_kind(c.kind, models.set_to_sym(i, cell).kkind) != c.kind:
                        return False
            elif is_num(v):
                if c.kind not in ("int", "real", "bool"):
                    return False
                k = "bool" if is_bool(v) else ("real" if is_real(v) else "int")
                if c.kind != k and i.unify_kind(c.kind, k) != c.kind:
                    return False
            elif isinstance(v, Opaque):
                if c.kind != ("op", v.iface):
                    return False
            else:
                return False
        return True

    # -------------------------------------------------------- terms of a path
    def new_cell(self, r, c):
        v = read(r.heap, c.key)
        if c.key[0] == "cell":
            return v
        if not isinstance(v, Ref):
            raise Unsupported("container variable")
        return r.heap[v.oid]

    def merged(self, rs, terms):
        out = terms[-1]
        for r, t in zip(reversed(rs[:-1]), reversed(terms[:-1])):
            out = z3.If(z3.And(*r.conds) if r.conds else z3.BoolVal(True), t, out)
        return z3.simplify(out)

    def all_names(self):
        out = set()
        for c in self.comps.values():
            out |= c.names
        return out

    def zeroed(self, e):
        """havoc symbols replaced by empty/zero"""
        rep = {}
        for c in self.comps.values():
            s = c.symbols
            if "const" in s and c.kind in ("int", "real", "bool"):
                zero = {"int": z3.IntVal(0), "real": z3.RealVal(0), "bool": z3.BoolVal(False)}[c.kind]
                rep[s["const"].decl().name()] = lambda zero=zero: zero
            if "dom" in s:
                rep[s["dom"].name()] = lambda *a: z3.BoolVal(False)
            if "val" in s and c.kind[1] in ("int", "real"):
                z = z3.IntVal(0) if c.kind[1] == "int" else z3.RealVal(0)
                rep[s["val"].name()] = lambda *a, z=z: z
            elif "val" in s:
                z = z3.Const(f"any_{s['val'].range()}", s["val"].range())
                rep[s["val"].name()] = lambda *a, z=z: z
        return z3.simplify(self.p.subst_fun(e, rep))

    def free_of_havoc(self, e):
        return not self.p.mentions(e, self.all_names())

    def skolem(self, e):
        """constants created in the body become functions of the element"""
        allowed = {x.decl().name() for x in self.b.elems} | self.all_names() | self.bound_names
        pairs = []
        for n, c in free_consts(e).items():
            if n in allowed or "!" not in n or n in self.p.sums or n in self.p.exts:
                continue
            if int(n.rsplit("!", 1)[1]) > self.b.mark:
                f = self.skolems.get(n)
                if f is None:
                    f = self.p.fresh_fun("sk", *[x.sort() for x in self.b.elems], c.sort())
                    self.skolems[n] = f
                pairs.append((c, f(*self.b.elems)))
        return z3.substitute(e, *pairs) if pairs else e

    def open_exit(self, e):
        """elements of inner loops that leave them are quantified; other constants
        of the body become functions of all quantified elements"""
        allowed = {x.decl().name() for x in self.b.elems} | self.all_names() | self.bound_names
        fresh = []
        for n, c in free_consts(e).items():
            if n in allowed or "!" not in n or n in self.p.sums or n in self.p.exts:
                continue
            if int(n.rsplit("!", 1)[1]) > self.b.mark:
                fresh.append((n, c))
        inner = [c for n, c in fresh if n in self.i.exit_elems]
        args = self.b.elems + inner
        pairs = []
        for n, c in fresh:
            if n in self.i.exit_elems:
                continue
            f = self.p.fresh_fun("sk", *[x.sort() for x in args], c.sort())
            pairs.append((c, f(*args)))
        return (z3.substitute(e, *pairs) if pairs else e), inner

    def base_facts(self):
        return self.i.all_facts() + [self.b.mem]

    def quant_exists(self, f):
        return exists(self.p, self.b.elems, f)

    # -------------------------------------------------------- classification
    def run(self):
        i = self.i
        self.skolems = {}
        self.bound_names = set()
        self.discover()
        exits = [r for r in self.results if r.kind in ("return", "raise", "break")]
        normal = [r for r in self.results if r.kind in ("normal", "continue")]
        # locals first bound in the loop
        if exits:
            return self.with_exits(normal, exits)
        self.finish(normal)
        return False

    def with_exits(self, normal, exits):
        i = self.i
        names = self.all_names()
        choice = i.choose(1 + len(exits))
        if choice == 0:
            # no element leaves the loop
            for r in exits:
                cond = z3.And(*(r.conds + r.facts)) if r.conds or r.facts else z3.BoolVal(True)
                cond, extra = self.open_exit(cond)
                if not self.free_of_havoc(cond):
                    continue  # dropping a condition of the path is sound
                i.conds.append(forall(self.p, self.b.elems + extra, z3.Implies(self.b.mem, z3.Not(cond))))
            if not i.feasible():
                raise Infeasible()
            self.no_exit = True
            if not normal:
                # every element leaves the loop: it is empty
                return False
            self.finish(normal)
            return False
        r = exits[choice - 1]
        # the element that leaves the loop; what the earlier iterations did is arbitrary
        i.heap = type(r.heap)(r.heap)
        for x in self.b.elems:
            i.exit_elems.add(x.decl().name())
        if not z3.is_true(self.b.mem):
            i.conds.append(self.b.mem)
        i.conds.extend(r.conds)
        i.facts.extend(r.facts)
        i.trace.extend(self.loop_events(normal, before_exit=True))
        i.trace.extend(r.trace)
        if not i.feasible():
            raise Infeasible()
        if r.kind == "return":
            raise ReturnSig(r.value)
        if r.kind == "raise":
            raise r.exc
        return True

    def loop_events(self, normal, before_exit=False):
        events = []
        if any(r.trace for r in normal):
            events.append(("loop", self.b.elems, self.b.mem, [(r.conds, r.trace) for r in normal], before_exit))
        return events

    def finish(self, normal):
        i = self.i
        self.generalise(normal)
        pending = [c for c in self.comps.values() if c.havoc is not POISON]
        poison = [c for c in self.comps.values() if c.havoc is POISON]
        resolved = []
        for c in list(pending):
            if self.classify(c, normal):
                resolved.append(c)
                pending.remove(c)
        if pending and all(c.init is UNDEF and c.key[0] == "var" for c in poison) and self.ordered_index():
            again = self.with_prefixes(pending, resolved, normal)
            if len(again) == len(pending):
                for c in poison:
                    c.final = POISON
                return self.apply(normal)
            for c in again:
                c.final, c.how = None, None
        if (pending or poison) and self.ordered_index():
            if self.ordered(pending, poison, resolved):
                return
        if pending and self.b.order is not None:
            # running prefixes of sums
            again = self.with_prefixes(pending, resolved, normal)
            for c in again:
                pending.remove(c)
                resolved.append(c)
        if pending and any(rule(self, pending) for rule in i.fold_rules):
            resolved += pending
            pending = []
        for c in pending + poison:
            c.final = POISON if c.key[0] != "cell" else None
            if c.key[0] == "cell":
                raise Unsupported(f"loop at {self.label}: effect on a container not recognised")
        self.apply(normal)

    def generalise(self, normal):
        """facts established in the body hold for every element"""
        i = self.i
        for r in normal:
            for f in r.facts:
                g = self.skolem(z3.Implies(z3.And(self.b.mem, *r.conds), f))
                if self.free_of_havoc(g):
                    bound = [x for x in self.b.elems if x.decl().name() in free_consts(g)]
                    i.assume(z3.ForAll(bound, g) if bound else g)

    def apply(self, normal, mem=None):
        i = self.i
        i.trace.extend(self.loop_events(normal))
        for c in self.comps.values():
            if c.final is None:
                raise Unsupported("loop component without summary")
            if c.ref is not None and c.final is not POISON:
                ref = i.alloc(c.final)
                write(i.heap, c.key, ref)
            elif c.init is UNDEF:
                write(i.heap, c.key, POISON)
            else:
                write(i.heap, c.key, c.final)

    def classify(self, c, rs):
        try:
            if c.cellkind == "map":
                return self.classify_map(c, rs)
            if c.cellkind == "set":
                return self.classify_set(c, rs)
            if c.cellkind == "list":
                return self.classify_list(c, rs)
            if c.kind in ("int", "real"):
                return self.classify_number(c, rs)
            if c.kind == "bool":
                return self.classify_bool(c, rs)
        except NotClassified:
            return False
        return False

    # numbers -----------------------------------------------------
    def number_terms(self, c, rs):
        out = []
        for r in rs:
            v = read(r.heap, c.key)
            if not is_num(v):
                raise NotClassified()
            out.append(as_real(v) if c.kind == "real" else as_int(v))
        return out

    def classify_number(self, c, rs):
        p = self.p
        h = c.symbols["const"]
        terms = self.number_terms(c, rs)
        new = self.merged(rs, terms)
        init = as_real(c.init) if c.kind == "real" else as_int(c.init)
        cand = self.zeroed(z3.simplify(new - h))
        cand = self.skolem(cand)
        if self.free_of_havoc(cand) and self.p.equal(self.base_facts(), self.skolem(new) - h, cand):
            c.delta = cand
            c.how = "sum"
            ident = self.seg.ident
            if (
                ident and ident[0] == "L" and len(self.b.elems) == 1 and models.is_identity_seg(self.seg)
                and z3.simplify(cand).eq(z3.simplify(models.at_l(ident[1], self.b.elems[0])))
            ):
                c.final = init + models.sum_l(ident[1])
            else:
                c.final = init + p.mk_sum(self.b.elems, z3.If(self.b.mem, cand, models.zero_like(cand)))
            if self.b.order is not None:
                c.prefix = self.prefix_of(init, cand)
            return True
        # max / min
        options = [self.skolem(t) for t in terms if self.free_of_havoc(t)]
        for t in options[:2]:
            for kind in ("max", "min"):
                best = z3.If(t > h, t, h) if kind == "max" else z3.If(t < h, t, h)
                # the element takes part on the paths where it is compared
                part = self.zero_cond(rs, terms, h, t, kind)
                if part is None:
                    continue
                goal = new == z3.If(part, best, h)
                if p.valid(self.base_facts(), self.skolem(goal)) is True:
                    m = p.fresh(kind, init.sort())
                    fresh = [p.fresh("x", x.sort()) for x in self.b.elems]
                    pairs = list(zip(self.b.elems, fresh))
                    mm = z3.substitute(z3.And(self.b.mem, part), *pairs)
                    tt = z3.substitute(t, *pairs)
                    le = (lambda a, b: a <= b) if kind == "max" else (lambda a, b: a >= b)
                    self.i.assume(le(init, m))
                    self.i.assume(z3.ForAll(fresh, z3.Implies(mm, le(tt, m))))
                    self.i.assume(z3.Or(m == init, z3.Exists(fresh, z3.And(mm, m == tt))))
                    c.final = m
                    c.how = kind
                    return True
        # xor fold
        if z3.is_app(new) and new.decl().name() == "bxor":
            a, b = new.children()
            t = b if a.eq(h) else (a if b.eq(h) else None)
            if t is not None and self.free_of_havoc(t):
                from engine import BXOR

                t = self.skolem(t)
                c.final = BXOR(init, p.mk_ext("xorfold", self.b.elems, self.b.mem, t))
                c.how = "xor"
                return True
        return False

    def zero_cond(self, rs, terms, h, t, kind):
        return z3.BoolVal(True)

    def prefix_of(self, init, cand):
        p = self.p
        direction, key = self.b.order
        other = [p.fresh("e", x.sort()) for x in self.b.elems]
        pairs = list(zip(self.b.elems, other))
        key2 = z3.substitute(key, *pairs)
        before = (key2 < key) if direction == "asc" else (key2 > key)
        # the order must separate the elements
        m2 = z3.substitute(self.b.mem, *pairs)
        if p.valid(self.base_facts() + [m2, key2 == key], z3.And(*[a == b for a, b in pairs])) is not True:
            return None
        d2 = z3.substitute(cand, *pairs)
        return init + p.mk_sum(other, z3.If(z3.And(m2, before), d2, models.zero_like(d2)))

    def classify_bool(self, c, rs):
        h = c.symbols["const"]
        terms = []
        for r in rs:
            v = read(r.heap, c.key)
            if not is_bool(v):
                raise NotClassified()
            terms.append(to_z3(v))
        new = self.merged(rs, terms)
        init = to_z3(c.init)
        off = self.skolem(z3.simplify(z3.substitute(new, (h, z3.BoolVal(False)))))
        on = self.skolem(z3.simplify(z3.substitute(new, (h, z3.BoolVal(True)))))
        if not self.free_of_havoc(off) or not self.free_of_havoc(on):
            return False
        if self.p.valid(self.base_facts(), on) is True:
            c.final = z3.simplify(z3.Or(init, self.quant_exists(z3.And(self.b.mem, off))))
            return True
        if self.p.valid(self.base_facts(), z3.Not(off)) is True:
            c.final = z3.simplify(z3.And(init, z3.Not(self.quant_exists(z3.And(self.b.mem, z3.Not(on))))))
            return True
        return False

    # maps --------------------------------------------------------
    def map_terms(self, c, rs, x):
        doms, vals = [], []
        for r in rs:
            cell = models.map_to_sym(self.i, self.new_cell(r, c))
            if cell.kkind is None:
                doms.append(z3.BoolVal(False))
                vals.append(None)
                continue
            cell = models.coerce_map(self.i, cell, c.kind[0], c.kind[1])
            doms.append(cell.dom(x))
            vals.append(cell.val(x))
        filler = next((v for v in vals if v is not None), None)
        if filler is None:
            raise NotClassified()
        vals = [filler if v is None else v for v in vals]
        return self.merged(rs, doms), self.merged(rs, vals)

    def init_map(self, c):
        cell = c.init if c.key[0] == "cell" else self.i.heap[c.init.oid]
        cell = models.map_to_sym(self.i, cell)
        if cell.kkind is None:
            return None
        return models.coerce_map(self.i, cell, c.kind[0], c.kind[1])

    def classify_map(self, c, rs):
        p, i = self.p, self.i
        kk, vk = c.kind
        x = p.fresh("x", i.sort_of(kk))
        xname = x.decl().name()
        self.bound_names.add(xname)
        new_dom, new_val = self.map_terms(c, rs, x)
        new_dom, new_val = self.skolem(new_dom), self.skolem(new_val)
        hd, hv = c.symbols["dom"](x), c.symbols["val"](x)
        rho = self.skolem(self.zeroed(new_dom))
        facts = self.base_facts()
        if not self.free_of_havoc(rho):
            return False
        grows = p.valid(facts, new_dom == z3.Or(hd, rho)) is True
        init = self.init_map(c)
        default = (c.havoc if c.key[0] == "cell" else c.refcell).default
        idom = (lambda y: init.dom(y)) if init is not None else (lambda y: z3.BoolVal(False))
        elems, mem = self.b.elems, self.b.mem
        if not grows:
            # keys removed only
            keep = z3.simplify(z3.substitute(new_dom, (hd, z3.BoolVal(True))))
            if self.free_of_havoc(keep) and p.valid(facts, z3.And(new_dom == z3.And(hd, keep), z3.Implies(new_dom, new_val == hv))) is True:
                c.final = SymMap(
                    kk, vk,
                    lambda y: z3.And(idom(y), z3.Not(exists(p, elems, z3.And(mem, z3.Not(z3.substitute(keep, (x, y))))))),
                    init.val if init else None, default)
                return True
            return False

        def dom_after(y):
            return z3.simplify(z3.Or(idom(y), exists(p, elems, z3.And(mem, z3.substitute(rho, (x, y))))))

        # does a written value depend on the one before?
        other = p.fresh_fun("z", x.sort(), hv.sort())
        alt = p.subst_fun(new_val, {c.symbols["val"].name(): lambda *a: other(*a)})
        plain = p.valid(facts, z3.Implies(rho, alt == new_val), 1500) is True
        if vk in ("int", "real") and not plain:
            z = z3.IntVal(0) if vk == "int" else z3.RealVal(0)
            eff_new, eff_old = z3.If(new_dom, new_val, z), z3.If(hd, hv, z)
            cand = self.skolem(self.zeroed(z3.If(new_dom, new_val, z)))
            if self.free_of_havoc(cand) and p.equal(facts, eff_new, eff_old + cand):

                def val_after(y):
                    s = p.mk_sum(elems, z3.If(mem, z3.substitute(cand, (x, y)), z))
                    if init is None:
                        return s
                    return z3.If(init.dom(y), init.val(y), z) + s

                c.final = SymMap(kk, vk, dom_after, val_after, default)
                c.how = "additive map"
                return True
        # overwrite / keep first
        v = self.skolem(self.zeroed(new_val))
        if not self.free_of_havoc(v):
            return False
        over = p.valid(facts, z3.Implies(new_dom, new_val == z3.If(rho, v, hv))) is True
        first = not over and p.valid(facts, z3.Implies(new_dom, new_val == z3.If(hd, hv, v))) is True
        if not over and not first:
            return False
        # all writers of a key agree
        e2 = [p.fresh("e", t.sort()) for t in elems]
        pairs = list(zip(elems, e2))
        rho2, v2, mem2 = (z3.substitute(t, *pairs) for t in (rho, v, mem))
        if p.valid(facts + [mem2, rho, rho2], v == v2) is not True:
            return False
        writer = self.writer(rho, v, x, kk, vk)

        def val_final(y):
            w = z3.simplify(exists(p, elems, z3.And(mem, z3.substitute(rho, (x, y)))))
            if init is None:
                return writer(y)
            if over:
                return z3.If(w, writer(y), init.val(y))
            return z3.If(init.dom(y), init.val(y), writer(y))

        c.final = SymMap(kk, vk, dom_after, val_final, default)
        c.how = "overwrite map"
        return True

    def writer(self, rho, v, x, kk, vk):
        """value stored under a key by the elements writing it"""
        p = self.p
        solved = solve_all(self.b.elems, rho)
        if solved is not None:
            vv = z3.substitute(v, *solved)
            if not any(e.decl().name() in free_consts(vv) for e in self.b.elems):
                return lambda y: z3.substitute(vv, (x, y))
        f = p.fresh_fun("written", x.sort(), v.sort())
        y = p.fresh("y", x.sort())
        ry, vy = z3.substitute(rho, (x, y)), z3.substitute(v, (x, y))
        self.i.assume(z3.ForAll(self.b.elems + [y], z3.Implies(z3.And(self.b.mem, ry), f(y) == vy)))
        return lambda t: f(t)

    # sets --------------------------------------------------------
    def classify_set(self, c, rs):
        p, i = self.p, self.i
        kk = c.kind
        x = p.fresh("x", i.sort_of(kk))
        self.bound_names.add(x.decl().name())
        doms = []
        for r in rs:
            cell = models.set_to_sym(i, self.new_cell(r, c))
            doms.append(z3.BoolVal(False) if cell.kkind is None else cell.dom(x))
        new = self.skolem(self.merged(rs, doms))
        hd = c.symbols["dom"](x)
        facts = self.base_facts()
        start = models.set_to_sym(i, c.init if c.key[0] == "cell" else i.heap[c.init.oid])
        idom = start.dom if start.kkind is not None else (lambda y: z3.BoolVal(False))
        rho = self.skolem(self.zeroed(new))
        elems, mem = self.b.elems, self.b.mem
        if self.free_of_havoc(rho) and p.valid(facts, new == z3.Or(hd, rho)) is True:
            c.final = SymSet(kk, lambda y: z3.simplify(z3.Or(idom(y), exists(p, elems, z3.And(mem, z3.substitute(rho, (x, y)))))))
            return True
        keep = z3.simplify(z3.substitute(new, (hd, z3.BoolVal(True))))
        if self.free_of_havoc(keep) and p.valid(facts, new == z3.And(hd, keep)) is True:
            c.final = SymSet(
                kk, lambda y: z3.And(idom(y), z3.Not(exists(p, elems, z3.And(mem, z3.Not(z3.substitute(keep, (x, y)))))))
            )
            return True
        return False

    # lists -------------------------------------------------------
    def classify_list(self, c, rs):
        i = self.i
        added = []
        for r in rs:
            cell = self.new_cell(r, c)
            if not cell.segs or cell.segs[0] != ("h", c.symbols["id"]):
                return False
            added.append(cell.segs[1:])
        elems, mem = self.b.elems, self.b.mem
        init = c.init if c.key[0] == "cell" else i.heap[c.init.oid]
        if all(not a for a in added):
            c.final = init
            return True
        conds = [z3.And(*r.conds) if r.conds else z3.BoolVal(True) for r in rs]
        active = [(cd, a) for cd, a in zip(conds, added) if a]
        if any(not self.free_of_havoc(cd) for cd, _ in active):
            return False
        if all(len(a) == 1 and a[0][0] == "c" and len(a[0][1]) == 1 for _, a in active):
            values = [a[0][1][0] for _, a in active]
            try:
                elem = i.merge([cd for cd, _ in active], values)
            except Unsupported:
                return False
            elem = self.map_value(elem)
            if elem is None:
                return False
            total = len(active) == len(rs)
            m = mem if total else z3.And(mem, self.skolem(z3.Or(*[cd for cd, _ in active])))
            order = self.b.order
            ident = self.seg.ident if total else None
            seg = Seg(elems, m, elem, order, ident)
            c.final = ListCell(init.segs + [self.normal_seg(seg)], init.is_tuple)
            return True
        if len(active) == 1 and all(s[0] == "e" for s in active[0][1]) and len(active[0][1]) == 1:
            s = active[0][1][0][1]
            elem = self.map_value(s.elem, {v.decl().name() for v in s.vars})
            if elem is None:
                return False
            m = z3.And(mem, self.skolem(active[0][0]), s.mem)
            if not self.free_of_havoc(m):
                return False
            c.final = ListCell(init.segs + [("e", Seg(elems + s.vars, m, elem, None, None))], init.is_tuple)
            return True
        return False

    def normal_seg(self, seg):
        """a copy of an integer list is that integer list"""
        if seg.ident and seg.ident[0] == "L" and len(seg.vars) == 1 and models.is_identity_seg(seg):
            return ("L", seg.ident[1])
        return ("e", seg)

    def map_value(self, v, extra=frozenset()):
        i = self.i
        if isinstance(v, tuple):
            out = tuple(self.map_value(x, extra) for x in v)
            return None if any(x is None for x in out) else out
        if is_z3(v):
            self.bound_names |= extra
            v = self.skolem(v)
            return v if self.free_of_havoc(v) else None
        if isinstance(v, Opaque):
            self.bound_names |= extra
            t = self.skolem(v.term)
            return Opaque(v.iface, t, v.data) if self.free_of_havoc(t) else None
        if type(v).__name__ == "SStr":
            return v.mapped(lambda t: self.map_value(t, extra))
        if isinstance(v, Ref):
            return None
        return v

    # ordered loops -------------------------------------------------
    def ordered_index(self):
        """loop over consecutive integers lo..hi-1?"""
        ident = self.seg.ident
        if self.plain or not ident or len(self.b.elems) != 1:
            return False
        return ident[0] in ("range", "L", "seq") and self.b.order is not None and self.b.order[0] == "asc" and self.b.order[1].eq(self.b.elems[0])

    def bounds(self):
        ident = self.seg.ident
        if ident[0] == "range":
            return ident[1], ident[2]
        if ident[0] == "L":
            return z3.IntVal(0), models.len_l(ident[1])
        return ident[1], ident[2]

    def ordered(self, pending, poison, resolved):
        """closed forms proposed by the contract, then the last iteration"""
        i, p = self.i, self.p
        lo, hi = self.bounds()
        k = self.b.elems[0]
        # the summary of resolved components must hold for every prefix: they are
        # re-summarised below with the membership k < hi - 1
        forms = {}
        for c in pending:
            for hint in i.hints:
                form = hint(i, c, self, k, lo)
                if form is not None and self.check_init(c, form, lo):
                    forms.setdefault(c.key, []).append(form)
        for c in resolved:
            if c.prefix is not None:
                forms[c.key] = [Form(lambda kk, c=c: z3.substitute(c.prefix, (k, kk)), None)]
        chosen = {}
        # try the combinations (few)
        import itertools

        keys = list(forms)
        done = False
        for combo in itertools.islice(itertools.product(*[forms[x] for x in keys]), 16):
            cand = dict(zip(keys, combo))
            if self.check_step(cand, k):
                chosen = cand
                done = True
                break
        if not done:
            return False
        # sums of what is now known by index
        for c in list(pending):
            if c.key not in chosen and c.kind in ("int", "real") and c.init is not UNDEF and self.classify(c, self.form_results):
                if c.how == "sum" and c.prefix is not None:
                    chosen[c.key] = Form(lambda kk, c=c: z3.substitute(c.prefix, (k, kk)), None)
        # lists that get one element per round
        for c in list(pending):
            if c.key in chosen or c.init is UNDEF or c.kind != "list":
                continue
            form = self.list_form(c, k, lo)
            if form is not None:
                chosen[c.key] = form
        unresolved = [c for c in pending if c.key not in chosen] + poison
        self.generalise([])
        if all(c.init is UNDEF or c.init is POISON for c in unresolved):
            # everything has a closed form
            n_hi = z3.If(hi >= lo, hi, lo)
            if not i.branch(hi >= lo):
                for c in unresolved:
                    c.final = POISON
                for c in self.comps.values():
                    c.final = c.init
                return self.restore_empty()
            for key, form in chosen.items():
                c = self.comps[key]
                if c.final is None:
                    c.final = form.cell(i, hi) if c.ref is not None or c.key[0] == "cell" else form.at(hi)
                    for f in form.facts(hi) if form.facts else []:
                        i.assume(f)
            for c in unresolved:
                c.final = POISON
            self.apply(self.form_results)
            return True
        # the rest is determined by the last iteration
        if any(c.key not in chosen for c in resolved):
            return False
        if not i.branch(hi > lo):
            for c in self.comps.values():
                c.final = c.init
            return self.restore_empty()
        last = z3.simplify(hi - 1)
        i.trace.extend(
            [("loop", self.b.elems, z3.And(self.b.mem, k < last), [(r.conds, r.trace) for r in self.form_results], False)]
            if any(r.trace for r in self.form_results)
            else []
        )
        for key, form in chosen.items():
            c = self.comps[key]
            value = form.cell(i, last) if c.ref is not None or c.key[0] == "cell" else form.at(last)
            if c.ref is not None:
                ref = i.alloc(value)
                write(i.heap, key, ref)
            else:
                write(i.heap, key, value)
            for f in form.facts(last) if form.facts else []:
                i.assume(f)
        for c in unresolved:
            if c.key[0] == "cell":
                raise Unsupported("container without closed form in an ordered loop")
            write(i.heap, c.key, POISON)
        try:
            self.bind(i.subst(self.seg.elem, [(self.seg.vars[0], last)]))
            self.body()
        except ContinueSig:
            pass
        except (ReturnSig, BreakSig, PyRaise):
            if not self.no_exit:
                raise
            raise Infeasible()
        return True

    def list_form(self, c, k, lo):
        init = c.init if c.key[0] == "cell" else self.i.heap[c.init.oid]
        if not isinstance(init, ListCell) or not self.classify_list(c, self.form_results):
            return None
        final, c.final = c.final, None
        if len(final.segs) != len(init.segs) + 1 or final.segs[-1][0] != "e":
            return None
        seg = final.segs[-1][1]
        if len(seg.vars) != 1 or not seg.vars[0].eq(k) or seg.ident != self.seg.ident:
            return None

        def cell(kk):
            part = Seg(seg.vars, z3.And(lo <= k, k < kk), seg.elem, ("asc", k), ("seq", lo, kk))
            return ListCell(init.segs + [("e", part)], init.is_tuple)

        return Form(None, None, cell=cell)

    def restore_empty(self):
        for c in self.comps.values():
            if c.init is not UNDEF:
                write(self.i.heap, c.key, c.init)
        return True

    def check_init(self, c, form, lo):
        i = self.i
        init = c.init
        if c.ref is not None:
            init = i.heap[c.init.oid]
        return form.equal(i, self, c, i.all_facts() + (form.facts(lo) if form.facts else []), init, lo, None)

    def check_step(self, chosen, k):
        """with all closed forms at k, the body leads to the forms at k+1"""
        i = self.i
        heap = type(self.havoc_heap)(self.havoc_heap)
        extra = []
        for key, form in chosen.items():
            c = self.comps[key]
            if c.ref is not None:
                heap[c.ref.oid] = form.cell(i, k)
            elif c.key[0] == "cell":
                heap[key[1]] = form.cell(i, k)
            else:
                write(heap, key, form.at(k))
            if form.facts:
                extra += form.facts(k) + form.facts(k + 1)
        results = self.b.explore(heap, extra)
        # here no iteration leaves the loop (see with_exits)
        results = [r for r in results if r.kind in ("normal", "continue")]
        self.form_results = results
        base = i.all_facts() + [self.b.mem] + extra
        for key, form in chosen.items():
            c = self.comps[key]
            if c.how == "sum":
                continue
            for r in results:
                value = self.new_cell(r, c) if (c.ref is not None or key[0] == "cell") else read(r.heap, key)
                if not form.equal(i, self, c, base + r.conds + r.facts, value, k + 1, r):
                    return False
        return True

    def with_prefixes(self, pending, resolved, normal):
        """replace resolved numbers by their running prefix and classify again"""
        pre = {c: c.prefix for c in resolved if c.prefix is not None}
        if not pre:
            return []
        heap = type(self.havoc_heap)(self.havoc_heap)
        for c, value in pre.items():
            write(heap, c.key, value)
        results = self.b.explore(heap)
        if any(r.kind not in ("normal", "continue") for r in results):
            return []
        # the prefixes mention fresh bound symbols only inside sums
        self.generalise(results)
        out = []
        for c in pending:
            if self.classify(c, results):
                out.append(c)
        return out


class NotClassified(Exception):
    pass


class Form:
    """closed form of a loop component: value (or cell) at index k"""

    def __init__(self, at, equal, facts=None, cell=None):
        self.at = at
        self._equal = equal
        self.facts = facts
        self._cell = cell

    def cell(self, interp, k):
        return self._cell(k)

    def equal(self, interp, summary, comp, facts, value, k, result):
        if self._equal is None:
            return True
        return self._equal(interp, summary, comp, facts, value, k)


def same_keys(interp, a, b):
    if isinstance(a, ConcMap) and isinstance(b, ConcMap):
        return list(a.items) == list(b.items)
    if isinstance(a, (ConcMap, SymMap)) and isinstance(b, (ConcMap, SymMap)):
        sa, sb = models.map_to_sym(interp, a), models.map_to_sym(interp, b)
        if sa.kkind != sb.kkind:
            return False
        x = interp.prover.fresh("x", interp.sort_of(sa.kkind))
        return interp.prover.valid(interp.all_facts(), sa.dom(x) == sb.dom(x)) is True
    return False


def exists(p, vars_, f):
    """∃ vars. f, with variables fixed by equations eliminated"""
    vars_ = list(vars_)
    f = z3.simplify(f)
    if z3.is_or(f):
        return z3.Or(*[exists(p, vars_, c) for c in f.children()])
    atoms = flat_and([f])
    changed = True
    while changed:
        changed = False
        atoms = split_pair(atoms, vars_)
        fixed = joint(atoms, vars_, p.mentions)
        if fixed is not None:
            vars_ = [v for v in vars_ if not v.eq(fixed[0])]
            atoms = flat_and([z3.substitute(t, fixed) for t in atoms])
            changed = True
            continue
        for n, a in enumerate(atoms):
            if z3.is_quantifier(a) and not a.is_forall() and not a.is_lambda():
                inner = [p.fresh("e", a.var_sort(j)) for j in range(a.num_vars())]
                vars_ = vars_ + inner
                atoms = flat_and(atoms[:n] + [z3.substitute_vars(a.body(), *reversed(inner))] + atoms[n + 1 :])
                changed = True
                break
            if z3.is_eq(a):
                hit = None
                for l, r in ((a.arg(0), a.arg(1)), (a.arg(1), a.arg(0))):
                    b = next((v for v in vars_ if v.eq(l)), None)
                    if b is not None and not p.mentions(r, {b.decl().name()}):
                        hit = (b, r)
                        break
                if hit is None:
                    s = solve_linear(a, vars_)
                    if s is not None and not p.mentions(s[1], {s[0].decl().name()}):
                        hit = s
                if hit is not None:
                    vars_ = [v for v in vars_ if not v.eq(hit[0])]
                    atoms = flat_and([z3.substitute(t, hit) for t in atoms])
                    changed = True
                    break
    body = z3.And(*atoms) if atoms else z3.BoolVal(True)
    used = [v for v in vars_ if p.mentions(body, {v.decl().name()})]
    return z3.Exists(used, body) if used else body


def forall(p, vars_, f):
    """∀ vars. f, variables that only name a term of the hypothesis eliminated"""

    def negate(e):
        if z3.is_or(e):
            return z3.And(*[negate(c) for c in e.children()])
        if z3.is_quantifier(e) and not e.is_forall() and not e.is_lambda():
            fresh = [p.fresh("q", e.var_sort(j)) for j in range(e.num_vars())]
            atoms = flat_and([z3.substitute_vars(e.body(), *reversed(fresh))])
            neg = [a.arg(0) for a in atoms if z3.is_not(a)]
            pos = [a for a in atoms if not z3.is_not(a)]
            concl = z3.Or(*neg) if neg else z3.BoolVal(False)
            return z3.ForAll(fresh, z3.Implies(z3.And(*pos), concl) if pos else concl)
        return z3.Not(e)

    return negate(exists(p, vars_, z3.Not(f)))


def tidy(p, fact):
    """an equivalent fact, easier to instantiate"""
    if z3.is_quantifier(fact) and fact.is_forall():
        fresh = [p.fresh("q", fact.var_sort(j)) for j in range(fact.num_vars())]
        return forall(p, fresh, z3.substitute_vars(fact.body(), *reversed(fresh)))
    return fact


def solve_all(vars_, f):
    """substitution for the variables implied by the equations in f, or None"""
    atoms = flat_and([f])
    out = []
    left = list(vars_)
    changed = True
    while left and changed:
        changed = False
        for a in atoms:
            if not z3.is_eq(a):
                continue
            hit = None
            for l, r in ((a.arg(0), a.arg(1)), (a.arg(1), a.arg(0))):
                b = next((v for v in left if v.eq(l)), None)
                if b is not None and b.decl().name() not in free_consts(r):
                    hit = (b, r)
                    break
            if hit is None:
                hit = solve_linear(a, left)
            if hit is not None:
                out = [(v, z3.substitute(t, hit)) for v, t in out] + [hit]
                left = [v for v in left if not v.eq(hit[0])]
                atoms = flat_and([z3.substitute(t, hit) for t in atoms])
                changed = True
                break
    return out if not left else None


# ------------------------------------------------------------------ while
def while_loop(interp, test, body, label="", other=None):
    interp.loop_depth += 1
    try:
        return while_loop_(interp, test, body, label, other)
    finally:
        interp.loop_depth -= 1


def while_loop_(interp, test, body, label, other):
    for hint in interp.while_hints:
        if hint(interp, test, body, label):
            return
    if other is not None and other():
        return
    for _ in range(64):
        cond = test()
        if isinstance(cond, bool):
            if not cond:
                return
        else:
            cond = z3.simplify(cond)
            base = list(interp.prover.axioms) + interp.all_facts()
            if interp.prover.infeasible(base + [cond]):
                return
            if not interp.prover.infeasible(base + [z3.Not(cond)]):
                raise Unsupported(f"while loop at {label} without invariant")
        try:
            body()
        except ContinueSig:
            continue
        except BreakSig:
            return
    raise Unsupported("while loop too long")
