"""Contracts of Python's builtins and of the library functions the repository uses
(trusted; cross-checked against CPython/PyPy by selftest.py)."""
import z3

from values import *  # noqa: F401,F403
from values import Out as OutSort

# ------------------------------------------------------------------ integer lists
NIL = z3.Const("nil", IList)
SNOC = z3.Function("snoc", IList, z3.IntSort(), IList)
SORTL = z3.Function("sortl", IList, IList)
TAKE = z3.Function("take", IList, z3.IntSort(), IList)
DROP = z3.Function("drop", IList, z3.IntSort(), IList)
SUML = z3.Function("suml", IList, z3.IntSort())
LENL = z3.Function("lenl", IList, z3.IntSort())
ATL = z3.Function("atl", IList, z3.IntSort(), z3.IntSort())


REVL = z3.Function("revl", IList, IList)


def rev_l(t):
    """the list the other way round; always outermost (see take_l, drop_l)"""
    if t.eq(NIL):
        return t
    if t.decl().name() == "revl":
        return t.arg(0)
    return REVL(t)


def sort_l(t):
    while t.decl().name() in ("sortl", "revl"):
        t = t.arg(0)
    return SORTL(t)


def at_l(t, k):
    if t.decl().name() == "revl":
        return ATL(t.arg(0), z3.simplify(len_l(t) - 1 - k))
    return ATL(t, k)


def len_l(t):
    if t.eq(NIL):
        return z3.IntVal(0)
    name = t.decl().name()
    if name == "snoc":
        return z3.simplify(len_l(t.arg(0)) + 1)
    if name in ("sortl", "revl"):
        return len_l(t.arg(0))
    if name == "take":
        return t.arg(1)
    if name == "drop":
        return z3.simplify(len_l(t.arg(0)) - t.arg(1))
    return LENL(t)


def list_term(interp, cell):
    """IList term of a list of integers"""
    t = NIL
    first = True
    for seg in cell.segs:
        if seg[0] == "c":
            for v in seg[1]:
                t = SNOC(t, as_int(v))
        elif seg[0] == "L" and first:
            t = seg[1]
        elif seg[0] == "e" and first and seg[1].ident and seg[1].ident[0] == "L" and is_identity_seg(seg[1]):
            t = seg[1].ident[1]
        else:
            raise Unsupported("list is not an integer list")
        first = False
    return t


def is_identity_seg(seg):
    if len(seg.vars) != 1 or not is_z3(seg.elem):
        return False
    return z3.simplify(seg.elem).eq(z3.simplify(at_l(seg.ident[1], seg.vars[0])))


def seg_of_l(interp, t):
    i = interp.prover.fresh("ix", z3.IntSort())
    interp.assume(len_l(t) >= 0)
    return Seg([i], z3.And(i >= 0, i < len_l(t)), at_l(t, i), ("asc", i), ("L", t))


# ------------------------------------------------------------------ maps and sets
def map_to_sym(interp, cell):
    """SymMap form of a map cell"""
    if isinstance(cell, SymMap):
        return cell
    kk = vk = None
    enc = []
    for k, v in cell.items.items():
        k = unfreeze(k)
        k1, _ = interp.encode(k)
        v1, _ = interp.encode(v)
        kk, vk = interp.unify_kind(kk, k1), interp.unify_kind(vk, v1)
        enc.append((k, v))
    items = [(interp.encode_as(kk, k), interp.encode_as(vk, v)) for k, v in enc]

    def dom(x):
        return z3.simplify(z3.Or(*[x == k for k, _ in items])) if items else z3.BoolVal(False)

    def val(x):
        out = None
        for k, v in items:
            out = v if out is None else z3.If(x == k, v, out)
        return out

    return SymMap(kk, vk, dom, val if items else None, cell.default)


def freeze(key):
    return (type(key).__name__, key)


def unfreeze(key):
    return key[1]


def is_plain_key(key):
    return (
        (isinstance(key, (int, str, bool)) and not is_z3(key))
        or (isinstance(key, tuple) and all(is_plain_key(k) for k in key))
        or isinstance(key, (ClassVal, FuncVal, Builtin))
        or key is None
    )


def norm_key(key):
    if isinstance(key, bool):
        return int(key)
    return key


def key_kinds(interp, cell, key, value=None):
    kk, _ = interp.encode(key)
    kk = interp.unify_kind(cell.kkind, kk)
    return kk


def sym_get(interp, cell, key):
    """value or raise KeyError (forks)"""
    if cell.kkind is None:
        present = False
    else:
        term = encode_key(interp, cell.kkind, key)
        if term is None:
            present = False
        else:
            present = interp.branch(cell.dom(term))
    if present:
        return interp.decode(cell.vkind, cell.val(term))
    if cell.default is not None:
        return None
    raise PyRaise("KeyError")


def encode_key(interp, kind, key):
    """term of key in a map with keys of the kind; None if it can not be there"""
    try:
        return interp.encode_as(kind, key)
    except Unsupported:
        k, _ = interp.encode(key)
        if k == "bool" and kind == "int":
            raise
        if isinstance(kind, tuple) and kind[0] == "op" and k in ("int", "bool", "real"):
            raise
        raise


def default_value(interp, cell):
    d = cell.default
    if d == "int":
        return 0
    return interp.call(d, [])


def getitem(interp, obj, key):
    if isinstance(obj, Ref):
        cell = interp.cell(obj)
        if isinstance(cell, InstCell):
            m = interp.class_attr(cell.cls, "__getitem__")
            if m is None:
                raise PyRaise("TypeError")
            return interp.call(m, [obj, key])
        if isinstance(cell, ConcMap):
            if is_plain_key(key):
                k = freeze(norm_key(key))
                if k in cell.items:
                    return cell.items[k]
                if cell.default is not None:
                    value = default_value(interp, cell)
                    setitem(interp, obj, key, value)
                    return value
                raise PyRaise("KeyError")
            if not cell.items:
                if cell.default is not None:
                    value = default_value(interp, cell)
                    setitem(interp, obj, key, value)
                    return value
                raise PyRaise("KeyError")
            # symbolic key in a small concrete map: case split
            for k, v in cell.items.items():
                if interp.branch(interp.truth(interp.compare("__eq__", key, unfreeze(k)))):
                    return v
            if cell.default is not None:
                value = default_value(interp, cell)
                setitem(interp, obj, key, value)
                return value
            raise PyRaise("KeyError")
        if isinstance(cell, SymMap):
            value = sym_get(interp, cell, key)
            if value is None and cell.default is not None:
                value = default_value(interp, cell)
                setitem(interp, obj, key, value)
            return value
        if isinstance(cell, ListCell):
            return list_index(interp, cell, key)
    if isinstance(obj, tuple):
        if isinstance(key, slice):
            if all(x is None or isinstance(x, int) for x in (key.start, key.stop, key.step)):
                return obj[key]
            raise Unsupported("tuple slice")
        if isinstance(key, int):
            if -len(obj) <= key < len(obj):
                return obj[key]
            raise PyRaise("IndexError")
    if isinstance(obj, str) and isinstance(key, (int, slice)):
        try:
            return obj[key]
        except (IndexError, TypeError) as e:
            raise Unsupported("string index") from e
    if isinstance(obj, Opaque):
        return interp.opaque_call(obj, "__getitem__", [key])
    if isinstance(obj, ExtVal) or isinstance(obj, Builtin) or isinstance(obj, ClassVal):
        return ExtVal("typing.generic")
    if type(obj).__name__ == "SStr":
        from strings import index_str

        return index_str(interp, obj, key)
    raise Unsupported(f"subscript of {obj!r}")


def list_index(interp, cell, key):
    if isinstance(key, slice):
        return list_slice(interp, cell, key)
    if all(s[0] == "c" for s in cell.segs):
        values = [v for s in cell.segs for v in s[1]]
        if isinstance(key, int):
            if -len(values) <= key < len(values):
                return values[key]
            raise PyRaise("IndexError")
        if len(values) <= 12:
            for i, v in enumerate(values):
                if interp.branch(z3.Or(key == i, key == i - len(values))):
                    return v
            raise PyRaise("IndexError")
    if len(cell.segs) == 1 and cell.segs[0][0] == "L":
        t = cell.segs[0][1]
        k = as_int(key)
        n = len_l(t)
        k = z3.If(k < 0, k + n, k)
        if not interp.branch(z3.And(k >= 0, k < n)):
            raise PyRaise("IndexError")
        return at_l(t, z3.simplify(k))
    if len(cell.segs) == 1 and cell.segs[0][0] == "e" and is_int(key) and not isinstance(key, bool):
        s = cell.segs[0][1]
        if s.ident and s.ident[0] in ("range", "seq") and len(s.vars) == 1 and s.order and s.order[0] == "asc" and s.order[1].eq(s.vars[0]):
            lo, hi, v = as_int(s.ident[1]), as_int(s.ident[2]), s.vars[0]
            if interp.prover.valid([], s.mem == z3.And(lo <= v, v < hi)) is True:
                n = z3.If(hi > lo, hi - lo, z3.IntVal(0))
                k = as_int(key)
                k = z3.If(k < 0, k + n, k)
                if not interp.branch(z3.And(k >= 0, k < n)):
                    raise PyRaise("IndexError")
                at = settle(interp, lo + k)
                return interp.subst(s.elem, [(v, at)])
    if isinstance(key, int) and key in (0, -1):
        seg = cell.segs[0 if key == 0 else -1]
        if seg[0] == "c":
            return seg[1][key]
        if len(cell.segs) == 1 and seg[0] == "e" and seg[1].order and len(seg[1].vars) == 1:
            s = seg[1]
            nonempty = z3.Exists(s.vars, s.mem)
            if not interp.branch(nonempty):
                raise PyRaise("IndexError")
            first = (key == 0) == (s.order[0] == "asc")
            ext = extreme(interp, "min" if first else "max", s.vars, s.mem, s.order[1])
            if s.order[1].eq(s.vars[0]):
                interp.assume(z3.substitute(s.mem, (s.vars[0], ext)))
                return interp.subst(s.elem, [(s.vars[0], ext)])
            raise Unsupported("first element of a sorted list")
        if len(cell.segs) == 1 and seg[0] == "m" and seg[1].keys:
            m = seg[1]
            firsts = [k[0] if isinstance(k, tuple) else k for k in m.keys]
            if all(is_int(f) and is_int(p.elem) and to_z3(f).eq(to_z3(p.elem)) for f, p in zip(firsts, m.parts)):
                first = (key == 0) == (m.direction == "asc")
                try:
                    return collection_extreme(interp, "min" if first else "max", [seg], UNDEF)
                except PyRaise:
                    raise PyRaise("IndexError") from None
    raise Unsupported("list index")


def clamp(k, n):
    k = z3.If(k < 0, k + n, k)
    return z3.simplify(z3.If(k < 0, z3.IntVal(0), z3.If(k > n, n, k)))


def settle(interp, term):
    """simplify an index term with the facts of the path"""
    term = z3.simplify(term)
    while z3.is_app(term) and term.decl().kind() == z3.Z3_OP_ITE:
        c = term.arg(0)
        facts = list(interp.prover.axioms) + interp.all_facts()
        if interp.prover.check(facts + [z3.Not(c)], 2000) == "unsat":
            term = z3.simplify(term.arg(1))
        elif interp.prover.check(facts + [c], 2000) == "unsat":
            term = z3.simplify(term.arg(2))
        else:
            term = z3.simplify(term.arg(1) if interp.branch(c) else term.arg(2))
    return term


def list_slice(interp, cell, key):
    if key.step is not None:
        if isinstance(key.step, int) and key.step == -1 and key.start is None and key.stop is None:
            return reversed_list(interp, cell)
        raise Unsupported("slice step")
    if key.start is None and key.stop is None:
        return interp.alloc(ListCell(list(cell.segs), cell.is_tuple))
    if all(s[0] == "c" for s in cell.segs):
        values = [v for s in cell.segs for v in s[1]]
        if all(x is None or isinstance(x, int) for x in (key.start, key.stop)):
            return interp.alloc(ListCell([("c", tuple(values[key.start : key.stop]))], cell.is_tuple))
    # asc list of distinct keys without its first/last element
    if len(cell.segs) == 1 and cell.segs[0][0] == "e" and not (cell.segs[0][1].ident and cell.segs[0][1].ident[0] == "L"):
        s = cell.segs[0][1]
        if s.order and len(s.vars) == 1 and s.order[1].eq(s.vars[0]):
            cut = None
            if key.start in (None, 0) and key.stop == -1:
                cut = "last"
            elif key.start == 1 and key.stop is None:
                cut = "first"
            if cut:
                if not interp.branch(z3.Exists(s.vars, s.mem)):
                    return interp.alloc(ListCell([], cell.is_tuple))
                small = (cut == "first") == (s.order[0] == "asc")
                ext = extreme(interp, "min" if small else "max", s.vars, s.mem, s.order[1])
                return interp.alloc(
                    ListCell([("e", Seg(s.vars, z3.And(s.mem, s.vars[0] != ext), s.elem, s.order, None))], cell.is_tuple)
                )
        raise Unsupported("slice")
    t = list_term(interp, cell)
    n = len_l(t)
    interp.assume(n >= 0)
    lo = settle(interp, clamp(as_int(key.start), n)) if key.start is not None else z3.IntVal(0)
    hi = settle(interp, clamp(as_int(key.stop), n)) if key.stop is not None else None
    if hi is not None:
        # l[lo:hi] = drop(take(l, max(lo,hi)), lo)
        hi = settle(interp, z3.If(hi < lo, lo, hi))
        t = take_l(t, hi)
    t = drop_l(t, lo)
    return interp.alloc(ListCell([("L", t)], cell.is_tuple))


def take_l(t, n):
    if z3.simplify(n).eq(z3.simplify(len_l(t))):
        return t
    if t.decl().name() == "revl":
        return rev_l(drop_l(t.arg(0), len_l(t) - n))
    return TAKE(t, z3.simplify(n))


def drop_l(t, n):
    n = z3.simplify(n)
    if z3.is_int_value(n) and n.as_long() == 0:
        return t
    if t.decl().name() == "revl":
        return rev_l(take_l(t.arg(0), len_l(t) - n))
    return DROP(t, n)


def setitem(interp, obj, key, value):
    if not isinstance(obj, Ref):
        raise Unsupported(f"item assignment on {obj!r}")
    cell = interp.cell(obj)
    if isinstance(cell, InstCell):
        m = interp.class_attr(cell.cls, "__setitem__")
        if m is None:
            raise PyRaise("TypeError")
        interp.call(m, [obj, key, value])
        return
    if isinstance(cell, ConcMap):
        if is_plain_key(key):
            items = dict(cell.items)
            items[freeze(norm_key(key))] = value
            interp.set_cell(obj, ConcMap(items, cell.default))
            return
        cell = map_to_sym(interp, cell)
    if isinstance(cell, SymMap):
        kk, _ = interp.encode(key)
        vk, _ = interp.encode(value)
        kk, vk = interp.unify_kind(cell.kkind, kk), interp.unify_kind(cell.vkind, vk)
        cell = coerce_map(interp, cell, kk, vk)
        k, v = interp.encode_as(kk, key), interp.encode_as(vk, value)
        old_dom, old_val = cell.dom, cell.val
        interp.set_cell(
            obj,
            SymMap(
                kk,
                vk,
                lambda x: z3.simplify(z3.Or(x == k, old_dom(x))),
                (lambda x: z3.If(x == k, v, old_val(x))) if old_val is not None else (lambda x: v),
                cell.default,
            ),
        )
        return
    if isinstance(cell, ListCell):
        if all(s[0] == "c" for s in cell.segs) and isinstance(key, int):
            values = [v for s in cell.segs for v in s[1]]
            if not -len(values) <= key < len(values):
                raise PyRaise("IndexError")
            values[key] = value
            interp.set_cell(obj, ListCell([("c", tuple(values))], cell.is_tuple))
            return
    raise Unsupported("item assignment")


def coerce_map(interp, cell, kk, vk):
    if cell.kkind == kk and cell.vkind == vk:
        return cell
    from engine import EMPTY_TEXT, is_join

    if cell.kkind not in (None, kk) and not (cell.kkind == EMPTY_TEXT and is_join(kk)):
        raise Unsupported("keys of different kinds")
    if cell.val is None:
        return SymMap(kk, vk, cell.dom, None, cell.default)
    old = cell.val
    conv = {("bool", "int"): lambda t: z3.If(t, z3.IntVal(1), z3.IntVal(0)), ("int", "real"): z3.ToReal,
            ("bool", "real"): lambda t: z3.If(t, z3.RealVal(1), z3.RealVal(0))}
    if cell.vkind == vk:
        f = lambda t: t  # noqa: E731
    elif (cell.vkind, vk) in conv:
        f = conv[(cell.vkind, vk)]
    else:
        raise Unsupported("values of different kinds")
    return SymMap(kk, vk, cell.dom, lambda x: f(old(x)), cell.default)


def containers_equal(interp, a, b):
    """== of two dictionaries, sets or lists"""
    from loops import forall

    p = interp.prover
    maps, sets = (ConcMap, SymMap), (ConcSet, SymSet)
    for family, convert in ((maps, map_to_sym), (sets, set_to_sym)):
        if not (isinstance(a, family) and isinstance(b, family)):
            continue
        x, y = convert(interp, a), convert(interp, b)
        if x.kkind is None and y.kkind is None:
            return True
        if x.kkind is None or y.kkind is None:
            x = y if x.kkind is None else x
            v = p.fresh("k", interp.sort_of(x.kkind))
            return forall(p, [v], z3.Not(x.dom(v)))
        if x.kkind != y.kkind or interp.sort_of(x.kkind) != interp.sort_of(y.kkind):
            raise Unsupported("comparison of containers")
        v = p.fresh("k", interp.sort_of(x.kkind))
        same = x.dom(v) == y.dom(v)
        if family is maps:
            s1, s2 = x.val(v), y.val(v)
            if s1.sort() != s2.sort() or s1.sort() not in (z3.IntSort(), z3.BoolSort()):
                raise Unsupported("comparison of containers")
            same = z3.And(same, z3.Implies(x.dom(v), s1 == s2))
        elif x.kkind != "int":
            raise Unsupported("comparison of containers")
        return forall(p, [v], same)
    if isinstance(a, ListCell) and isinstance(b, ListCell) and a.is_tuple == b.is_tuple:
        if all(s[0] == "c" for s in a.segs + b.segs):
            left, right = ([v for s in c.segs for v in s[1]] for c in (a, b))
            return interp.equal(tuple(left), tuple(right))
    if type(a) is not type(b) and not any(isinstance(a, f) and isinstance(b, f) for f in (maps, sets)) and {type(a), type(b)} <= {ConcMap, SymMap, ConcSet, SymSet, ListCell}:
        return False
    raise Unsupported("comparison of containers")


def delitem(interp, obj, key):
    cell = interp.cell(obj) if isinstance(obj, Ref) else None
    if isinstance(cell, ConcMap) and is_plain_key(key):
        k = freeze(norm_key(key))
        if k not in cell.items:
            raise PyRaise("KeyError")
        items = dict(cell.items)
        del items[k]
        interp.set_cell(obj, ConcMap(items, cell.default))
        return
    if isinstance(cell, (SymMap, ConcMap)):
        cell = map_to_sym(interp, cell)
        k = interp.encode_as(cell.kkind, key)
        if not interp.branch(cell.dom(k)):
            raise PyRaise("KeyError")
        old = cell.dom
        interp.set_cell(obj, SymMap(cell.kkind, cell.vkind, lambda x: z3.And(x != k, old(x)), cell.val, cell.default))
        return
    if isinstance(cell, ListCell) and not cell.is_tuple:
        if isinstance(key, int):
            list_method(interp, obj, "pop").fn(interp, [key], {})
            return
        if isinstance(key, slice) and key.step is None and (key.start is None) != (key.stop is None):
            # what stays is the slice on the other side
            rest = slice(key.stop, None) if key.start is None else slice(None, key.start)
            interp.set_cell(obj, interp.cell(list_slice(interp, cell, rest)))
            return
    raise Unsupported("del")


def contains(interp, container, item):
    if isinstance(container, ViewVal):
        if container.kind == "keys":
            return contains(interp, container.ref, item)
        return contains(interp, to_list(interp, container), item)
    if isinstance(container, RangeVal):
        if is_int(item) or is_bool(item):
            x = as_int(item)
            return z3.simplify(z3.And(as_int(container.lo) <= x, x < as_int(container.hi)))
        return False
    if isinstance(container, Ref):
        cell = interp.cell(container)
        if isinstance(cell, InstCell):
            m = interp.class_attr(cell.cls, "__contains__")
            if m is None:
                raise Unsupported("in")
            return interp.truth(interp.call(m, [container, item]))
        if isinstance(cell, ConcMap):
            if is_plain_key(item):
                if freeze(norm_key(item)) in cell.items:
                    return True
                if all(is_plain_key(unfreeze(k)) for k in cell.items):
                    return False
            return any_eq(interp, [unfreeze(k) for k in cell.items], item)
        if isinstance(cell, (SymMap, SymSet)):
            if cell.kkind is None:
                return False
            return cell.dom(interp.encode_as(cell.kkind, item))
        if isinstance(cell, ConcSet):
            return any_eq(interp, cell.items, item)
        if isinstance(cell, ListCell):
            parts = []
            for seg in cell.segs:
                if seg[0] == "c":
                    parts.append(any_eq(interp, seg[1], item))
                elif seg[0] == "e":
                    s = seg[1]
                    eq = interp.truth(interp.compare("__eq__", s.elem, item))
                    parts.append(z3.Exists(s.vars, z3.And(s.mem, to_bool(eq))))
                elif seg[0] == "L":
                    s = seg_of_l(interp, seg[1])
                    parts.append(z3.Exists(s.vars, z3.And(s.mem, s.elem == as_int(item))))
                else:
                    raise Unsupported("in")
            if all(isinstance(p, bool) for p in parts):
                return any(parts)
            return z3.Or(*[to_bool(p) for p in parts])
    if isinstance(container, tuple):
        return any_eq(interp, container, item)
    if isinstance(container, str) and isinstance(item, str):
        return item in container
    if isinstance(container, Opaque):
        return interp.truth(interp.opaque_call(container, "__contains__", [item]))
    if type(container).__name__ == "SStr":
        from strings import str_contains

        return str_contains(interp, container, item)
    raise Unsupported(f"in {container!r}")


def any_eq(interp, items, item):
    parts = []
    for v in items:
        eq = interp.truth(interp.compare("__eq__", item, v))
        if eq is True:
            return True
        if eq is not False:
            parts.append(eq)
    if not parts:
        return False
    return z3.Or(*parts)


def make_set(interp, values):
    ref = interp.alloc(ConcSet(()))
    for v in values:
        set_add(interp, ref, v)
    return ref


def set_to_sym(interp, cell):
    if isinstance(cell, SymSet):
        return cell
    kk = None
    for v in cell.items:
        kk = interp.unify_kind(kk, interp.encode(v)[0])
    terms = [interp.encode_as(kk, v) for v in cell.items]
    return SymSet(kk, lambda x: z3.Or(*[x == t for t in terms]) if terms else z3.BoolVal(False))


def is_inst(interp, v):
    return isinstance(v, Ref) and isinstance(interp.cell(v), InstCell)


def set_add(interp, ref, value):
    cell = interp.cell(ref)
    if isinstance(cell, ConcSet) and cell.items and is_inst(interp, value) and all(is_inst(interp, v) for v in cell.items):
        if not any(interp.identical(value, v) is True for v in cell.items):
            if not interp.branch(to_bool(any_eq(interp, cell.items, value))):
                interp.set_cell(ref, ConcSet(cell.items + (value,)))
        return
    if isinstance(cell, ConcSet):
        if all(is_plain_key(v) for v in cell.items) and is_plain_key(value):
            if any(type(v) is type(value) and v == value for v in cell.items):
                return
            interp.set_cell(ref, ConcSet(cell.items + (value,)))
            return
        if not cell.items:
            interp.set_cell(ref, ConcSet((value,)))
            return
        cell = set_to_sym(interp, cell)
    kk = interp.unify_kind(cell.kkind, interp.encode(value)[0])
    if cell.kkind not in (None, kk):
        raise Unsupported("set of different kinds")
    t = interp.encode_as(kk, value)
    old = cell.dom
    interp.set_cell(ref, SymSet(kk, lambda x: z3.simplify(z3.Or(x == t, old(x)))))


def list_append(interp, ref, value):
    cell = interp.cell(ref)
    interp.set_cell(ref, ListCell(cell.segs + [("c", (value,))], cell.is_tuple))
    merge_segs(interp, ref)


def merge_segs(interp, ref):
    cell = interp.cell(ref)
    segs = []
    for s in cell.segs:
        if segs and segs[-1][0] == "c" and s[0] == "c":
            segs[-1] = ("c", segs[-1][1] + s[1])
        else:
            segs.append(s)
    interp.set_cell(ref, ListCell(segs, cell.is_tuple))


def dict_update(interp, ref, other):
    from loops import for_loop

    if isinstance(other, Ref) and isinstance(interp.cell(other), (ConcMap, SymMap)):
        mine, theirs = interp.cell(ref), interp.cell(other)
        if isinstance(mine, ConcMap) and not mine.items:
            interp.set_cell(ref, type(theirs)(*[getattr(theirs, s) for s in type(theirs).__slots__]))
            new = interp.cell(ref)
            new.default = mine.default
            return
        if isinstance(theirs, ConcMap):
            for k, v in theirs.items.items():
                setitem(interp, ref, unfreeze(k), v)
            return
        m = map_to_sym(interp, mine)
        kk, vk = interp.unify_kind(m.kkind, theirs.kkind), interp.unify_kind(m.vkind, theirs.vkind)
        m, t = coerce_map(interp, m, kk, vk), coerce_map(interp, theirs, kk, vk)
        interp.set_cell(
            ref,
            SymMap(kk, vk, lambda x: z3.Or(m.dom(x), t.dom(x)), lambda x: z3.If(t.dom(x), t.val(x), m.val(x)), m.default),
        )
        return
    for_loop(interp, other, lambda e: _update_pair(interp, ref, e), lambda: None, "update")


def _update_pair(interp, ref, pair):
    k, v = unpack(interp, pair, 2)
    setitem(interp, ref, k, v)


# ------------------------------------------------------------------ iteration
def segments(interp, it):
    """list of segments of an iterable"""
    if isinstance(it, RangeVal):
        lo, hi = it.lo, it.hi
        if isinstance(lo, int) and isinstance(hi, int) and hi - lo <= 400:
            return [("c", tuple(range(lo, hi)))]
        k = interp.prover.fresh("i", z3.IntSort())
        lo, hi = as_int(lo), as_int(hi)
        return [("e", Seg([k], z3.And(lo <= k, k < hi), k, ("asc", k), ("range", lo, hi)))]
    if isinstance(it, ViewVal):
        return map_segments(interp, it.ref, it.kind)
    if isinstance(it, tuple):
        return [("c", it)]
    if isinstance(it, str):
        return [("c", tuple(it))]
    if isinstance(it, Ref):
        cell = interp.cell(it)
        if isinstance(cell, (ConcMap, SymMap)):
            return map_segments(interp, it, "keys")
        if isinstance(cell, ConcSet):
            if len(cell.items) <= 1:
                return [("c", cell.items)]
            if all(is_plain_key(v) or is_inst(interp, v) for v in cell.items) and len(cell.items) <= 3:
                # the order of a set is not known: all of them
                import itertools

                orders = list(itertools.permutations(cell.items))
                return [("c", orders[interp.choose(len(orders))])]
            cell = set_to_sym(interp, cell)
        if isinstance(cell, SymSet):
            if cell.kkind is None:
                return []
            k = interp.prover.fresh("m", interp.sort_of(cell.kkind))
            return [("e", Seg([k], cell.dom(k), interp.decode(cell.kkind, k), None, ("set", it.oid, id(cell), cell)))]
        if isinstance(cell, ListCell):
            return [("e", seg_of_l(interp, s[1])) if s[0] == "L" else s for s in cell.segs]
        if isinstance(cell, InstCell):
            m = interp.class_attr(cell.cls, "__iter__")
            if m is not None:
                return segments(interp, interp.call(m, [it]))
    if isinstance(it, Opaque):
        table = interp.handlers.get(it.iface, {})
        if "__iter__" in table:
            return segments(interp, table["__iter__"](interp, it, [], {}))
    if type(it).__name__ == "SeqVal":
        return [("s", it)]
    raise Unsupported(f"iteration over {it!r}")


def map_segments(interp, ref, kind):
    cell = interp.cell(ref)
    if isinstance(cell, ConcMap):
        if kind == "keys":
            return [("c", tuple(unfreeze(k) for k in cell.items))]
        if kind == "values":
            return [("c", tuple(cell.items.values()))]
        return [("c", tuple((unfreeze(k), v) for k, v in cell.items.items()))]
    if cell.kkind is None:
        return []
    k = interp.prover.fresh("k", interp.sort_of(cell.kkind))
    key = interp.decode(cell.kkind, k)
    if kind == "keys":
        elem = key
    else:
        value = interp.decode(cell.vkind, cell.val(k))
        elem = value if kind == "values" else (key, value)
    return [("e", Seg([k], cell.dom(k), elem, None, ("map", ref.oid, id(cell), cell)))]


def to_list(interp, it, is_tuple=False):
    if isinstance(it, Ref) and isinstance(interp.cell(it), ListCell):
        return interp.alloc(ListCell(list(interp.cell(it).segs), is_tuple))
    segs = segments(interp, it)
    if any(s[0] == "s" for s in segs):
        raise Unsupported("list of an external sequence")
    return interp.alloc(ListCell(segs, is_tuple))


def as_values(interp, it):
    """concrete Python list of elements, or None"""
    segs = segments(interp, it)
    if all(s[0] == "c" for s in segs):
        return [v for s in segs for v in s[1]]
    return None


def reversed_list(interp, cell):
    segs = []
    for s in reversed(cell.segs):
        if s[0] == "c":
            segs.append(("c", tuple(reversed(s[1]))))
        elif s[0] == "e" and s[1].order:
            o = s[1].order
            segs.append(
                ("e", Seg(s[1].vars, s[1].mem, s[1].elem, ("desc" if o[0] == "asc" else "asc", o[1]), ("rev", s[1].ident)))
            )
        elif s[0] == "L":
            segs.append(("L", rev_l(s[1])))
        elif s[0] == "e" and s[1].ident and s[1].ident[0] == "L" and is_identity_seg(s[1]):
            segs.append(("L", rev_l(s[1].ident[1])))
        else:
            raise Unsupported("reversed")
    return interp.alloc(ListCell(segs))


def sort_list(interp, cell, key=None, reverse=False):
    """sorted copy as segments"""
    if is_z3(reverse):
        raise Unsupported("reverse")
    if all(s[0] == "c" for s in cell.segs):
        values = [v for s in cell.segs for v in s[1]]
        if len(values) <= 1:
            return [("c", tuple(values))]
        keys = [interp.call(key, [v]) if key is not None else v for v in values]
        if all(isinstance(k, (int, str, tuple)) and not is_z3(k) and is_plain_key(k) for k in keys):
            order = sorted(range(len(values)), key=lambda i: keys[i], reverse=reverse)
            return [("c", tuple(values[i] for i in order))]
        if key is None and all(is_int(v) or is_bool(v) for v in values):
            t = sort_l(list_term(interp, cell))
            return [("L", rev_l(t) if reverse else t)]
        raise Unsupported("sort")
    if key is None:
        try:
            t = list_term(interp, cell)
        except Unsupported:
            t = None
        if t is not None:
            t = sort_l(t)
            return [("L", rev_l(t) if reverse else t)]
    direction = "desc" if reverse else "asc"
    if len(cell.segs) == 1 and cell.segs[0][0] == "e":
        s = cell.segs[0][1]
        if (isinstance(key, Builtin) and key.name in ("str", "repr", "hash", "id")) or (key is None and type(s.elem).__name__ == "SStr"):
            # some order: nothing is known about it
            return [("e", Seg(s.vars, s.mem, s.elem, None, None))]
        k = interp.call(key, [s.elem]) if key is not None else s.elem
        if isinstance(k, tuple):
            # ties on the first component must not be possible
            first = k[0]
            if not (is_z3(first) and len(s.vars) == 1 and injective(interp, s, first)):
                raise Unsupported("sort of tuples")
            k = first
        if is_int(k):
            k = as_int(k)
            return [("e", Seg(s.vars, s.mem, s.elem, (direction, k), ("sorted", direction, s.ident)))]
        raise Unsupported("sort")
    # several segments: the result is one ascending multiset
    parts = []
    for s in cell.segs:
        if s[0] == "e":
            parts.append(s[1])
        elif s[0] == "c":
            for v in s[1]:
                parts.append(Seg([], z3.BoolVal(True), v, None))
        else:
            raise Unsupported("sort")
    keys = []
    for s in parts:
        k = interp.call(key, [s.elem]) if key is not None else s.elem
        keys.append(k)
    return [("m", MultiSeg(parts, keys, direction))]


class MultiSeg:
    """several segments merged into one sorted sequence"""

    def __init__(self, parts, keys, direction, origin=None):
        self.parts = parts
        self.keys = keys
        self.direction = direction
        self.origin = origin if origin is not None else object()  # lists of one origin go in step


def injective(interp, s, term):
    e2 = [interp.prover.fresh("e", v.sort()) for v in s.vars]
    pairs = list(zip(s.vars, e2))
    t2 = z3.substitute(term, *pairs)
    m2 = z3.substitute(s.mem, *pairs)
    return (
        interp.prover.valid(
            interp.all_facts() + [s.mem, m2, term == t2], z3.And(*[a == b for a, b in pairs]), 3000
        )
        is True
    )


def extreme(interp, kind, vars_, mem, term):
    """max or min of term over the elements (non-empty): canonical constant with
    its defining facts"""
    p = interp.prover
    app = p.mk_ext(kind, vars_, mem, term)
    fresh = [p.fresh("x", v.sort()) for v in vars_]
    pairs = list(zip(vars_, fresh))
    m, t = z3.substitute(mem, *pairs), z3.substitute(term, *pairs)
    order = (t <= app) if kind == "max" else (t >= app)
    interp.assume(z3.ForAll(fresh, z3.Implies(m, order)))
    if len(vars_) == 1 and term.eq(vars_[0]):
        interp.assume(z3.substitute(mem, (vars_[0], app)))
    else:
        interp.assume(z3.Exists(fresh, z3.And(m, t == app)))
    return app


def unpack(interp, value, count):
    if isinstance(value, tuple):
        values = list(value)
    else:
        values = as_values(interp, value)
    if values is None:
        raise Unsupported("unpacking")
    if len(values) != count:
        raise PyRaise("ValueError")
    return values


class StarVal:
    def __init__(self, value):
        self.value = value


def star(interp, value):
    values = as_values(interp, value) if not isinstance(value, tuple) else list(value)
    if values is None:
        return [StarVal(value)]
    return values


# ------------------------------------------------------------------ lengths
def length(interp, obj):
    if isinstance(obj, (str, tuple)):
        return len(obj)
    if isinstance(obj, RangeVal):
        d = as_int(obj.hi) - as_int(obj.lo)
        return z3.simplify(z3.If(d > 0, d, z3.IntVal(0)))
    if isinstance(obj, ViewVal):
        return length(interp, obj.ref)
    if isinstance(obj, Ref):
        cell = interp.cell(obj)
        if isinstance(cell, InstCell):
            m = interp.class_attr(cell.cls, "__len__")
            if m is None:
                raise PyRaise("TypeError")
            return interp.call(m, [obj])
        if isinstance(cell, ConcMap):
            return len(cell.items)
        if isinstance(cell, ConcSet):
            if len(cell.items) <= 1 or all(is_plain_key(v) for v in cell.items):
                return len(cell.items)
            cell = set_to_sym(interp, cell)
        if isinstance(cell, ListCell):
            total = 0
            for s in cell.segs:
                if s[0] == "c":
                    total = total + len(s[1])
                elif s[0] == "L":
                    interp.assume(len_l(s[1]) >= 0)
                    total = total + len_l(s[1])
                elif s[0] == "e" and s[1].ident and s[1].ident[0] == "L":
                    total = total + len_l(s[1].ident[1])
                elif s[0] == "e":
                    total = total + card(interp, s[1].vars, s[1].mem)
                else:
                    raise Unsupported("len")
            return total
        if isinstance(cell, (SymMap, SymSet)):
            if cell.kkind is None:
                return 0
            x = interp.prover.fresh("x", interp.sort_of(cell.kkind))
            return card(interp, [x], cell.dom(x))
    if type(obj).__name__ == "SStr":
        from strings import str_length

        return str_length(interp, obj)
    if isinstance(obj, Opaque):
        return interp.opaque_call(obj, "__len__", [])
    raise Unsupported(f"len of {obj!r}")


def card(interp, vars_, mem):
    if z3.is_false(z3.simplify(mem)):
        return 0
    n = interp.prover.mk_sum(vars_, z3.If(mem, z3.IntVal(1), z3.IntVal(0)))
    fresh = [interp.prover.fresh("x", v.sort()) for v in vars_]
    m = z3.substitute(mem, *list(zip(vars_, fresh)))
    interp.assume(n >= 0)
    interp.assume(z3.ForAll(fresh, z3.Implies(m, n > 0)))
    interp.assume(z3.Implies(n > 0, z3.Exists(fresh, m)))
    return n


# ------------------------------------------------------------------ methods
def object_method(interp, obj, name):
    if name == "__eq__":
        return Builtin("__eq__", lambda i, a, k: isinstance(a[0], Ref) and a[0] == obj)
    return None


def bm(name, fn):
    return Builtin(name, lambda i, a, k: fn(*a, **k))


def method(interp, obj, cell, name):
    """method of a container"""
    i = interp
    if isinstance(cell, (ConcMap, SymMap)):
        return map_method(i, obj, name)
    if isinstance(cell, (ConcSet, SymSet)):
        return set_method(i, obj, name)
    if isinstance(cell, ListCell):
        return list_method(i, obj, name)
    raise Unsupported(f"attribute {name} of {cell!r}")


def copy_cell(interp, ref):
    c = interp.cell(ref)
    return interp.alloc(type(c)(*[getattr(c, s) for s in type(c).__slots__]))


def map_method(i, obj, name):
    if name in ("keys", "values", "items"):
        return bm(name, lambda: ViewVal(obj, name))
    if name == "copy":
        return bm(name, lambda: copy_cell(i, obj))
    if name == "get":

        def get(key, default=None):
            cell = i.cell(obj)
            if isinstance(cell, ConcMap):
                if is_plain_key(key) and all(is_plain_key(unfreeze(k)) for k in cell.items):
                    return cell.items.get(freeze(norm_key(key)), default)
                for k, v in cell.items.items():
                    if i.branch(i.truth(i.compare("__eq__", key, unfreeze(k)))):
                        return v
                return default
            if cell.kkind is None:
                return default
            t = i.encode_as(cell.kkind, key)
            d = cell.dom(t)
            value = i.decode(cell.vkind, cell.val(t))
            if is_num(default) and is_num(value):
                return i.merge([d, z3.Not(d)], [value, default])
            if i.branch(d):
                return value
            return default

        return bm(name, get)
    if name == "setdefault":

        def setdefault(key, default=None):
            if i.branch(i.truth(contains(i, obj, key))):
                return getitem(i, obj, key)
            setitem(i, obj, key, default)
            return default

        return bm(name, setdefault)
    if name == "update":

        def update(*args, **kwargs):
            if args:
                dict_update(i, obj, args[0])
            for k, v in kwargs.items():
                setitem(i, obj, k, v)

        return bm(name, update)
    if name == "pop":

        def pop(key, *default):
            if i.branch(i.truth(contains(i, obj, key))):
                value = getitem(i, obj, key)
                delitem(i, obj, key)
                return value
            if default:
                return default[0]
            raise PyRaise("KeyError")

        return bm(name, pop)
    if name == "clear":
        return bm(name, lambda: i.set_cell(obj, ConcMap({}, i.cell(obj).default)))
    if name in ("__getitem__", "__contains__", "__len__", "__setitem__"):
        fn = {"__getitem__": getitem, "__contains__": contains, "__len__": length, "__setitem__": setitem}[name]
        return bm(name, lambda *a: fn(i, obj, *a))
    raise Unsupported(f"dict.{name}")


def set_method(i, obj, name):
    if name == "add":
        return bm(name, lambda v: set_add(i, obj, v))
    if name == "copy":
        return bm(name, lambda: copy_cell(i, obj))
    if name in ("union", "intersection", "difference"):

        def op(*others):
            ref = copy_cell(i, obj)
            for o in others:
                ref = set_op(i, name, ref, o)
            return ref

        return bm(name, op)
    if name == "update":

        def update(*others):
            for o in others:
                i.set_cell(obj, i.cell(set_op(i, "union", obj, o)))

        return bm(name, update)
    if name in ("remove", "discard"):

        def remove(v):
            cell = i.cell(obj)
            present = i.truth(contains(i, obj, v))
            if name == "remove" and not i.branch(present):
                raise PyRaise("KeyError")
            if isinstance(cell, ConcSet) and is_plain_key(v) and all(is_plain_key(x) for x in cell.items):
                i.set_cell(obj, ConcSet(tuple(x for x in cell.items if x != v)))
                return
            if isinstance(cell, ConcSet) and len(cell.items) == 1 and name == "remove":
                i.set_cell(obj, ConcSet(()))
                return
            if isinstance(cell, ConcSet) and is_inst(i, v) and all(is_inst(i, x) for x in cell.items):
                out = [x for x in cell.items if i.identical(x, v) is not True and not i.branch(to_bool(i.truth(i.compare("__eq__", v, x))))]
                i.set_cell(obj, ConcSet(tuple(out)))
                return
            cell = set_to_sym(i, cell)
            if cell.kkind is None:
                return
            t = i.encode_as(cell.kkind, v)
            old = cell.dom
            i.set_cell(obj, SymSet(cell.kkind, lambda x: z3.And(x != t, old(x))))

        return bm(name, remove)
    if name == "pop":

        def pop():
            cell = i.cell(obj)
            if isinstance(cell, ConcSet) and len(cell.items) == 1:
                i.set_cell(obj, ConcSet(()))
                return cell.items[0]
            cell = set_to_sym(i, cell)
            if cell.kkind is None:
                raise PyRaise("KeyError")
            sort = i.sort_of(cell.kkind)
            y, x = i.prover.fresh("x", sort), i.prover.fresh("popped", sort)
            old = cell.dom
            if not i.branch(z3.Exists([y], old(y))):
                raise PyRaise("KeyError")
            i.assume(old(x))
            i.set_cell(obj, SymSet(cell.kkind, lambda t: z3.And(t != x, old(t))))
            return i.decode(cell.kkind, x)

        return bm(name, pop)
    if name in ("issubset", "issuperset", "isdisjoint"):

        def rel(other):
            a, b = set_to_sym(i, i.cell(obj)), set_to_sym(i, i.cell(as_set(i, other)))
            kk = i.unify_kind(a.kkind, b.kkind)
            if kk is None:
                return True
            x = i.prover.fresh("x", i.sort_of(kk))
            if name == "issubset":
                f = z3.Implies(a.dom(x), b.dom(x))
            elif name == "issuperset":
                f = z3.Implies(b.dom(x), a.dom(x))
            else:
                f = z3.Not(z3.And(a.dom(x), b.dom(x)))
            return z3.ForAll([x], f)

        return bm(name, rel)
    if name == "clear":
        return bm(name, lambda: i.set_cell(obj, ConcSet(())))
    raise Unsupported(f"set.{name}")


def as_set(i, value):
    if isinstance(value, Ref) and isinstance(i.cell(value), (ConcSet, SymSet)):
        return value
    if isinstance(value, ViewVal) or (isinstance(value, Ref) and isinstance(i.cell(value), (ConcMap, SymMap))):
        ref = value.ref if isinstance(value, ViewVal) else value
        if isinstance(value, ViewVal) and value.kind != "keys":
            return new_set(i, value)
        cell = i.cell(ref)
        if isinstance(cell, ConcMap):
            return make_set(i, [unfreeze(k) for k in cell.items])
        return i.alloc(SymSet(cell.kkind, cell.dom))
    return new_set(i, value)


def new_set(i, it):
    from loops import for_loop

    values = as_values(i, it)
    if values is not None:
        return make_set(i, values)
    ref = i.alloc(ConcSet(()))
    for_loop(i, it, lambda e: set_add(i, ref, e), lambda: None, "set")
    return ref


def set_op(i, name, a, b):
    ca, cb = i.cell(as_set(i, a)), i.cell(as_set(i, b))
    if isinstance(ca, ConcSet) and isinstance(cb, ConcSet):
        if ca.items + cb.items and all(is_inst(i, v) for v in ca.items + cb.items):
            if name == "union":
                return make_set(i, list(ca.items) + list(cb.items))
            keep = [v for v in ca.items if i.branch(to_bool(any_eq(i, cb.items, v))) == (name == "intersection")]
            return i.alloc(ConcSet(tuple(keep)))
        if all(is_plain_key(v) for v in ca.items + cb.items):
            if name == "union":
                return make_set(i, list(ca.items) + list(cb.items))
            keep = [v for v in ca.items if (v in cb.items) == (name == "intersection")]
            return make_set(i, keep)
    sa, sb = set_to_sym(i, ca), set_to_sym(i, cb)
    kk = i.unify_kind(sa.kkind, sb.kkind)
    if name == "union":
        dom = lambda x: z3.simplify(z3.Or(sa.dom(x), sb.dom(x)))  # noqa: E731
    elif name == "intersection":
        dom = lambda x: z3.And(sa.dom(x), sb.dom(x))  # noqa: E731
    else:
        dom = lambda x: z3.And(sa.dom(x), z3.Not(sb.dom(x)))  # noqa: E731
    return i.alloc(SymSet(kk, dom))


def list_method(i, obj, name):
    if name == "append":
        return bm(name, lambda v: list_append(i, obj, v))
    if name == "extend":

        def extend(it):
            cell = i.cell(obj)
            other = to_list(i, it)
            i.set_cell(obj, ListCell(cell.segs + i.cell(other).segs, cell.is_tuple))
            merge_segs(i, obj)

        return bm(name, extend)
    if name == "copy":
        return bm(name, lambda: copy_cell(i, obj))
    if name == "sort":

        def sort(key=None, reverse=False):
            cell = i.cell(obj)
            i.set_cell(obj, ListCell(sort_list(i, cell, key, reverse), cell.is_tuple))

        return bm(name, sort)
    if name == "reverse":
        return bm(name, lambda: i.set_cell(obj, i.cell(reversed_list(i, i.cell(obj)))))
    if name == "pop":

        def pop(index=-1):
            cell = i.cell(obj)
            if all(s[0] == "c" for s in cell.segs) and isinstance(index, int):
                values = [v for s in cell.segs for v in s[1]]
                if not values:
                    raise PyRaise("IndexError")
                v = values.pop(index)
                i.set_cell(obj, ListCell([("c", tuple(values))], cell.is_tuple))
                return v
            try:
                t = list_term(i, cell)
            except Unsupported:
                t = None
            if t is not None and index in (0, -1):
                n = len_l(t)
                i.assume(n >= 0)
                if not i.branch(n > 0):
                    raise PyRaise("IndexError")
                if index == 0:
                    i.set_cell(obj, ListCell([("L", drop_l(t, z3.IntVal(1)))], cell.is_tuple))
                    return at_l(t, z3.IntVal(0))
                i.set_cell(obj, ListCell([("L", take_l(t, z3.simplify(n - 1)))], cell.is_tuple))
                return at_l(t, z3.simplify(n - 1))
            if index == -1 and cell.segs and cell.segs[-1][0] == "c":
                last = cell.segs[-1][1]
                i.set_cell(obj, ListCell(cell.segs[:-1] + [("c", last[:-1])], cell.is_tuple))
                return last[-1]
            if all(s[0] == "c" or (s[0] == "e" and s[1].order is None) for s in cell.segs):
                # the order is not known: some member, and the others
                from invariants import kind_and_members

                kind, members = kind_and_members(i, cell)
                sort = i.sort_of(kind)
                y = i.prover.fresh("x", sort)
                if not i.branch(z3.Exists([y], members(y))):
                    raise PyRaise("IndexError")
                x = i.prover.fresh("popped", sort)
                rest = i.prover.fresh_fun("rest", sort, z3.BoolSort())
                i.assume(members(x))
                i.assume(z3.ForAll([y], members(y) == z3.Or(rest(y), y == x)))
                v = i.prover.fresh("m", sort)
                i.set_cell(obj, ListCell([("e", Seg([v], rest(v), i.decode(kind, v), None, None))], cell.is_tuple))
                return i.decode(kind, x)
            raise Unsupported("list.pop")

        return bm(name, pop)
    if name == "insert":

        def insert(index, value):
            cell = i.cell(obj)
            if index == 0:
                i.set_cell(obj, ListCell([("c", (value,))] + cell.segs, cell.is_tuple))
                merge_segs(i, obj)
                return
            raise Unsupported("list.insert")

        return bm(name, insert)
    if name == "remove":

        def remove(value):
            cell = i.cell(obj)
            if all(s[0] == "c" for s in cell.segs):
                values = [v for s in cell.segs for v in s[1]]
                for index, v in enumerate(values):
                    if i.branch(i.truth(i.compare("__eq__", v, value))):
                        del values[index]
                        i.set_cell(obj, ListCell([("c", tuple(values))], cell.is_tuple))
                        return
                raise PyRaise("ValueError")
            raise Unsupported("list.remove")

        return bm(name, remove)
    if name == "count" or name == "index":
        raise Unsupported(f"list.{name}")
    raise Unsupported(f"list.{name}")


def value_method(interp, obj, name):
    if isinstance(obj, ViewVal):
        if name in ("__iter__",):
            return bm(name, lambda: obj)
        raise Unsupported(f"view.{name}")
    if isinstance(obj, str) or type(obj).__name__ == "SStr":
        from strings import str_method

        return str_method(interp, obj, name)
    if is_num(obj):
        if name in ("__add__", "__sub__", "__mul__", "__floordiv__", "__and__", "__or__", "__xor__"):
            return bm(name, lambda o: interp.arith(name, obj, o))
        if name in ("__eq__", "__ne__", "__lt__", "__le__", "__gt__", "__ge__"):
            return bm(name, lambda o: interp.compare(name, obj, o))
        if name == "__abs__":
            return bm(name, lambda: b_abs(interp, [obj], {}))
        raise PyRaise("AttributeError")
    if obj is None:
        raise PyRaise("AttributeError")
    if isinstance(obj, tuple):
        if name == "index" or name == "count":
            raise Unsupported("tuple method")
        raise PyRaise("AttributeError")
    if isinstance(obj, Builtin) and obj.name == "dict" and name == "fromkeys":
        def fromkeys(it, value=None):
            from loops import for_loop

            ref = interp.alloc(ConcMap({}))
            for_loop(interp, it, lambda e: setitem(interp, ref, e, value), lambda: None, "fromkeys")
            return ref

        return bm(name, fromkeys)
    raise Unsupported(f"attribute {name} of {obj!r}")


def repeated(interp, value, count):
    """the segments of a list with an element count times"""
    k = interp.prover.fresh("k", z3.IntSort())
    return [("e", Seg([k], z3.And(0 <= k, k < as_int(count)), value, ("asc", k), ("range", z3.IntVal(0), as_int(count))))]


def container_op(interp, name, a, b):
    from strings import concat

    if isinstance(a, str) or type(a).__name__ == "SStr":
        if name == "__add__" and (isinstance(b, str) or type(b).__name__ == "SStr"):
            return concat([a, b])
        if name == "__mul__" and isinstance(a, str) and isinstance(b, int):
            return a * b
        if name == "__mul__" and ((isinstance(a, str) and is_int(b)) or (isinstance(b, str) and is_int(a))):
            from strings import SStr

            return SStr([("text", interp.prover.fresh("text", Thing))])
        if name == "__mod__" and isinstance(a, str):
            from strings import percent

            return percent(interp, a, b)
        raise Unsupported(f"string {name}")
    if isinstance(a, tuple):
        if name == "__add__" and isinstance(b, tuple):
            return a + b
        if name == "__add__" and isinstance(b, Ref):
            other = interp.cell(b)
            return interp.alloc(ListCell([("c", a)] + other.segs, True))
        raise Unsupported("tuple operator")
    if isinstance(a, ViewVal):
        if name in ("__or__", "__and__", "__sub__"):
            return set_op(interp, {"__or__": "union", "__and__": "intersection", "__sub__": "difference"}[name], a, b)
        raise Unsupported("view operator")
    cell = interp.cell(a)
    if isinstance(cell, (ConcSet, SymSet)) and name in ("__or__", "__and__", "__sub__"):
        return set_op(interp, {"__or__": "union", "__and__": "intersection", "__sub__": "difference"}[name], a, b)
    if isinstance(cell, (ConcSet, SymSet)) and name == "__xor__":
        return set_op(interp, "union", set_op(interp, "difference", a, b), set_op(interp, "difference", b, a))
    if isinstance(cell, ListCell) and name == "__add__":
        if isinstance(b, tuple):
            other = [("c", b)]
        elif isinstance(b, Ref) and isinstance(interp.cell(b), ListCell):
            other = interp.cell(b).segs
        else:
            raise PyRaise("TypeError")
        ref = interp.alloc(ListCell(cell.segs + other, cell.is_tuple))
        merge_segs(interp, ref)
        return ref
    if isinstance(cell, ListCell) and name == "__mul__" and isinstance(b, int) and all(s[0] == "c" for s in cell.segs):
        values = [v for s in cell.segs for v in s[1]]
        return interp.alloc(ListCell([("c", tuple(values * b))], cell.is_tuple))
    if isinstance(cell, ListCell) and name == "__mul__" and is_int(b) and all(s[0] == "c" for s in cell.segs):
        values = [v for s in cell.segs for v in s[1]]
        if len(values) == 1:
            return interp.alloc(ListCell(repeated(interp, values[0], b), cell.is_tuple))
    if isinstance(cell, (ConcMap, SymMap)) and name == "__or__":
        ref = copy_cell(interp, a)
        dict_update(interp, ref, b)
        return ref
    raise Unsupported(f"{name} of a container")


def inplace(interp, name, ref, value):
    cell = interp.cell(ref)
    if isinstance(cell, ListCell) and name == "__add__" and not cell.is_tuple:
        other = to_list(interp, value)
        interp.set_cell(ref, ListCell(cell.segs + interp.cell(other).segs))
        merge_segs(interp, ref)
        return ref
    if isinstance(cell, (ConcSet, SymSet)) and name in ("__or__", "__and__", "__sub__"):
        interp.set_cell(ref, interp.cell(container_op(interp, name, ref, value)))
        return ref
    if isinstance(cell, (ConcMap, SymMap)) and name == "__or__":
        dict_update(interp, ref, value)
        return ref
    return container_op(interp, name, ref, value)


# ------------------------------------------------------------------ builtins
EXC_PARENTS = {
    "ValueError": {"Exception"},
    "TypeError": {"Exception"},
    "KeyError": {"LookupError", "Exception"},
    "IndexError": {"LookupError", "Exception"},
    "ZeroDivisionError": {"ArithmeticError", "Exception"},
    "AttributeError": {"Exception"},
    "NotImplementedError": {"RuntimeError", "Exception"},
    "AssertionError": {"Exception"},
    "RuntimeError": {"Exception"},
    "NameError": {"Exception"},
    "UnboundLocalError": {"NameError", "Exception"},
    "ArithmeticError": {"Exception"},
    "LookupError": {"Exception"},
    "OverflowError": {"ArithmeticError", "Exception"},
    "StopIteration": {"Exception"},
    "Exception": set(),
    "LexingError": {"Exception"},
    "ParsingError": {"Exception"},
}


def exception_matches(name, cls):
    wanted = cls.name.split(".")[-1] if isinstance(cls, (Builtin, ExtVal, ClassVal)) else None
    if wanted is None:
        raise Unsupported("exception handler")
    return wanted == name or wanted == "BaseException" or wanted in EXC_PARENTS.get(name, {"Exception"})


def b_len(i, a, k):
    return length(i, a[0])


def b_range(i, a, k):
    if len(a) == 1:
        lo, hi = 0, a[0]
    elif len(a) == 2:
        lo, hi = a
    elif len(a) == 3 and not is_z3(a[2]) and a[2] == 1:
        lo, hi = a[0], a[1]
    elif len(a) == 3 and all(isinstance(x, int) for x in a):
        return tuple(range(*a))
    elif len(a) == 3 and a[2] == -1:
        # descending: elements hi+1..lo
        ref = to_list(i, RangeVal(i.arith("__add__", a[1], 1), i.arith("__add__", a[0], 1)))
        return reversed_list(i, i.cell(ref))
    else:
        raise Unsupported("range step")
    if is_real(lo) or is_real(hi):
        raise PyRaise("TypeError")
    if not (is_int(lo) or is_bool(lo)) or not (is_int(hi) or is_bool(hi)):
        raise Unsupported("range")
    return RangeVal(lo, hi)


def b_list(i, a, k):
    if not a:
        return i.alloc(ListCell([]))
    if isinstance(a[0], str):
        return i.alloc(ListCell([("c", tuple(a[0]))]))
    return to_list(i, a[0])


def b_tuple(i, a, k):
    if not a:
        return ()
    values = as_values(i, a[0])
    if values is not None:
        return tuple(values)
    return to_list(i, a[0], True)


def b_dict(i, a, k):
    ref = i.alloc(ConcMap({}))
    if a:
        dict_update(i, ref, a[0])
    for key, v in k.items():
        setitem(i, ref, key, v)
    return ref


def b_set(i, a, k):
    if not a:
        return i.alloc(ConcSet(()))
    return copy_cell(i, as_set(i, a[0]))


def b_sorted(i, a, k):
    ref = to_list(i, a[0])
    return i.alloc(ListCell(sort_list(i, i.cell(ref), k.get("key"), k.get("reverse", False))))


def b_reversed(i, a, k):
    return reversed_list(i, i.cell(to_list(i, a[0])))


def b_sum(i, a, k):
    start = a[1] if len(a) > 1 else k.get("start", 0)
    total = start
    for s in segments(i, a[0]):
        if s[0] == "c":
            for v in s[1]:
                total = i.binop("__add__", total, v)
        elif s[0] == "e":
            seg = s[1]
            if seg.ident and seg.ident[0] == "L" and is_identity_seg(seg):
                part = sum_l(seg.ident[1])
            else:
                if not is_num(seg.elem):
                    raise Unsupported("sum")
                e = as_real(seg.elem) if is_real(seg.elem) else as_int(seg.elem)
                part = i.prover.mk_sum(seg.vars, z3.If(seg.mem, e, zero_like(e)))
            total = i.binop("__add__", total, part)
        else:
            raise Unsupported("sum")
    return total


def zero_like(e):
    return z3.RealVal(0) if e.sort() == z3.RealSort() else z3.IntVal(0)


def sum_l(t):
    if t.eq(NIL):
        return z3.IntVal(0)
    name = t.decl().name()
    if name == "snoc":
        return sum_l(t.arg(0)) + t.arg(1)
    if name in ("sortl", "revl"):
        return sum_l(t.arg(0))
    return SUML(t)


def minmax(kind):
    def fn(i, a, k):
        if len(a) == 1:
            values = as_values(i, a[0])
            if values is None:
                if k.get("key") is not None:
                    raise Unsupported("max with key")
                segs = segments(i, a[0])
                default = k.get("default", UNDEF)
                return collection_extreme(i, kind, segs, default)
            if not values:
                if "default" in k:
                    return k["default"]
                raise PyRaise("ValueError")
        else:
            values = a
        key = k.get("key")
        if key is not None and len(values) > 1:
            raise Unsupported("max with key")
        best = values[0]
        for v in values[1:]:
            if is_num(best) and is_num(v):
                if not is_z3(best) and not is_z3(v):
                    best = (max if kind == "max" else min)(best, v)
                else:
                    x, y = (as_real(best), as_real(v)) if is_real(best) or is_real(v) else (as_int(best), as_int(v))
                    best = z3.If(y > x, y, x) if kind == "max" else z3.If(y < x, y, x)
            else:
                raise Unsupported("max of values")
        return best

    return fn


def collection_extreme(i, kind, segs, default):
    parts = []
    for s in segs:
        if s[0] == "c":
            for v in s[1]:
                parts.append(([], z3.BoolVal(True), v))
        elif s[0] == "e":
            parts.append((s[1].vars, s[1].mem, s[1].elem))
        elif s[0] == "m":
            for p in s[1].parts:
                parts.append((p.vars, p.mem, p.elem))
        else:
            raise Unsupported("max")
    nonempty = z3.Or(*[z3.Exists(v, m) if v else m for v, m, _ in parts]) if parts else z3.BoolVal(False)
    if not i.branch(nonempty):
        if default is not UNDEF:
            return default
        raise PyRaise("ValueError")
    if len(parts) == 1:
        v, m, e = parts[0]
        if not is_num(e):
            raise Unsupported("max of values")
        return extreme(i, kind, v, m, as_real(e) if is_real(e) else as_int(e))
    # fresh extreme over several parts
    real = any(is_real(e) for _, _, e in parts)
    app = i.prover.fresh(kind, z3.RealSort() if real else z3.IntSort())
    some = []
    for v, m, e in parts:
        t = as_real(e) if real else as_int(e)
        order = (t <= app) if kind == "max" else (t >= app)
        i.assume(z3.ForAll(v, z3.Implies(m, order)) if v else order)
        some.append(z3.Exists(v, z3.And(m, t == app)) if v else (t == app))
    i.assume(z3.Or(*some))
    return app


def b_abs(i, a, k):
    v = a[0]
    if isinstance(v, Opaque):
        return i.opaque_call(v, "__abs__", [])
    if isinstance(v, Ref) and isinstance(i.cell(v), InstCell):
        m = i.class_attr(i.cell(v).cls, "__abs__")
        if m is None:
            raise PyRaise("TypeError")
        return i.call(m, [v])
    if is_num(v):
        if not is_z3(v):
            return abs(v)
        x = v if is_real(v) else as_int(v)
        return z3.If(x >= 0, x, -x)
    raise Unsupported("abs")


def b_int(i, a, k):
    if not a:
        return 0
    v = a[0]
    if is_int(v):
        return v
    if is_bool(v):
        return as_int(v) if is_z3(v) else int(v)
    if is_real(v):
        x = to_z3(v)
        return rounded(i, z3.If(x >= 0, z3.ToInt(x), -z3.ToInt(-x)), x, "truncated")
    if isinstance(v, str):
        try:
            return int(v)
        except ValueError as e:
            raise PyRaise("ValueError") from e
    if type(v).__name__ == "SStr":
        from strings import parse_int

        return parse_int(i, v)
    raise Unsupported("int()")


def inexact(x):
    """a quotient of floating-point numbers: the exact rational is only an approximation"""
    stack, seen = [x], set()
    while stack:
        e = stack.pop()
        if e.get_id() in seen:
            continue
        seen.add(e.get_id())
        if z3.is_app(e):
            if e.decl().kind() == z3.Z3_OP_DIV and not z3.is_rational_value(z3.simplify(e.arg(1))):
                return True
            if e.decl().name() == "float":
                return True
            stack.extend(e.children())
    return False


def rounded(i, exact, x, how):
    """float to integer: nothing is known about the rounding of an inexact number.
    An integer that became a float is inexact too (beyond 2**53), unless the contract
    says that its numbers are small"""
    if z3.is_rational_value(z3.simplify(x)):
        return exact
    return exact if i.small_floats and not inexact(x) else z3.Function(how, z3.RealSort(), z3.IntSort())(x)


FLOAT = z3.Function("float", z3.RealSort(), z3.RealSort())


def b_float(i, a, k):
    v = a[0]
    if is_real(v):
        return v
    if is_num(v):
        return FLOAT(as_real(v)) if is_z3(v) else as_real(v)
    raise Unsupported("float()")


def b_bool(i, a, k):
    return i.truth(a[0])


def b_str(i, a, k):
    from strings import to_str

    if not a:
        return ""
    return to_str(i, a[0])


def b_isinstance(i, a, k):
    return i.isinstance(a[0], a[1])


def b_type(i, a, k):
    v = a[0]
    if isinstance(v, Ref) and isinstance(i.cell(v), InstCell):
        return i.cell(v).cls
    return ExtVal("type")


def b_callable(i, a, k):
    raise Unsupported("callable")


def b_zip(i, a, k):
    if len(a) == 1 and isinstance(a[0], StarVal):
        segs = segments(i, a[0].value)
        if len(segs) == 1 and segs[0][0] == "e" and isinstance(segs[0][1].elem, tuple):
            s = segs[0][1]
            if not i.branch(z3.Exists(s.vars, s.mem)):
                return i.alloc(ListCell([]))
            lists = []
            for part in s.elem:
                lists.append(i.alloc(ListCell([("e", Seg(s.vars, s.mem, part, s.order, s.ident))], True)))
            return i.alloc(ListCell([("c", tuple(lists))]))
        if len(segs) == 1 and segs[0][0] == "m":
            m = segs[0][1]
            width = len(m.parts[0].elem)
            lists = []
            for w in range(width):
                parts = [Seg(p.vars, p.mem, p.elem[w], p.order, p.ident) for p in m.parts]
                lists.append(i.alloc(ListCell([("m", MultiSeg(parts, m.keys, m.direction, m.origin))], True)))
            nonempty = z3.Or(*[z3.Exists(p.vars, p.mem) if p.vars else p.mem for p in m.parts])
            if not i.branch(nonempty):
                return i.alloc(ListCell([]))
            return i.alloc(ListCell([("c", tuple(lists))]))
        raise Unsupported("zip(*)")
    if any(isinstance(x, StarVal) for x in a):
        raise Unsupported("zip(*)")
    rows = [segments(i, x) for x in a]
    if all(all(s[0] == "c" for s in r) for r in rows):
        lists = [[v for s in r for v in s[1]] for r in rows]
        return i.alloc(ListCell([("c", tuple(zip(*lists)))]))
    if len({len(r) for r in rows}) == 1:
        out = []
        for group in zip(*rows):
            if all(s[0] == "e" for s in group):
                base = group[0][1]
                elems = [base.elem]
                for s in group[1:]:
                    other = s[1]
                    if not same_ident(base.ident, other.ident) or len(base.vars) != len(other.vars):
                        raise Unsupported("zip of unrelated sequences")
                    pairs = list(zip(other.vars, base.vars))
                    if i.prover.valid(i.all_facts(), base.mem == z3.substitute(other.mem, *pairs)) is not True:
                        raise Unsupported("zip of unrelated sequences")
                    elems.append(i.subst(other.elem, pairs))
                out.append(("e", Seg(base.vars, base.mem, tuple(elems), base.order, base.ident)))
            elif all(s[0] == "m" and s[1].keys is not None and s[1].origin is group[0][1].origin and s[1].direction == group[0][1].direction for s in group):
                first = group[0][1]

                def of(other, n):
                    pairs = list(zip(other.parts[n].vars, first.parts[n].vars))
                    return i.subst(other.parts[n].elem, pairs)

                parts = [
                    Seg(p.vars, p.mem, tuple(of(s[1], n) for s in group), p.order, p.ident)
                    for n, p in enumerate(first.parts)
                ]
                out.append(("m", MultiSeg(parts, first.keys, first.direction, first.origin)))
            elif all(s[0] == "c" and len(s[1]) == len(group[0][1]) for s in group):
                out.append(("c", tuple(zip(*[s[1] for s in group]))))
            else:
                raise Unsupported("zip")
        return i.alloc(ListCell(out))
    raise Unsupported("zip")


def same_ident(a, b):
    if a is None or b is None or len(a) != len(b):
        return False
    for x, y in zip(a, b):
        if isinstance(x, tuple) and isinstance(y, tuple):
            if not same_ident(x, y):
                return False
        elif is_z3(x) and is_z3(y):
            if not x.eq(y):
                return False
        elif is_z3(x) or is_z3(y):
            return False
        elif isinstance(x, (SymMap, SymSet)):
            if x is not y:
                return False
        elif x != y:
            return False
    return True


def b_enumerate(i, a, k):
    values = as_values(i, a[0])
    start = a[1] if len(a) > 1 else k.get("start", 0)
    if not is_int(start):
        raise Unsupported("enumerate")
    if values is None:
        segs = segments(i, a[0])
        if len(segs) != 1:
            raise Unsupported("enumerate")
        kind, s = segs[0]
        if kind == "L":
            k = i.prover.fresh("k", z3.IntSort())
            part = Seg([k], z3.And(0 <= k, k < len_l(s)), (z3.simplify(k + as_int(start)), at_l(s, k)), ("asc", k), ("seq", z3.IntVal(0), len_l(s)))
        elif kind == "e" and s.ident and s.ident[0] in ("range", "seq") and len(s.vars) == 1 and s.order and s.order[0] == "asc" and s.order[1].eq(s.vars[0]):
            place = z3.simplify(s.vars[0] - as_int(s.ident[1]) + as_int(start))
            part = Seg(s.vars, s.mem, (place, s.elem), s.order, s.ident)
        elif kind == "e" and s.order is None and s.vars:
            # some numbering: nothing is known about it
            place = i.prover.fresh_fun("place", *[v.sort() for v in s.vars], z3.IntSort())
            i.assume(z3.ForAll(s.vars, z3.Implies(s.mem, place(*s.vars) >= 0)))
            part = Seg(s.vars, s.mem, (place(*s.vars) + as_int(start), s.elem), None, None)
        else:
            raise Unsupported("enumerate")
        return i.alloc(ListCell([("e", part)]))
    if not isinstance(start, int):
        raise Unsupported("enumerate")
    return i.alloc(ListCell([("c", tuple((start + n, v) for n, v in enumerate(values)))]))


def b_map(i, a, k):
    from loops import for_loop

    if len(a) != 2:
        raise Unsupported("map")
    ref = i.alloc(ListCell([]))
    for_loop(i, a[1], lambda e: list_append(i, ref, i.call(a[0], [e])), lambda: None, "map")
    return ref


def b_filter(i, a, k):
    from loops import for_loop

    ref = i.alloc(ListCell([]))

    def step(e):
        if i.branch(i.truth(i.call(a[0], [e]) if a[0] is not None else e)):
            list_append(i, ref, e)

    for_loop(i, a[1], step, lambda: None, "filter")
    return ref


def quant(kind):
    def fn(i, a, k):
        parts = []
        for s in segments(i, a[0]):
            if s[0] == "c":
                for v in s[1]:
                    parts.append(to_bool(i.truth(v)))
            elif s[0] == "e":
                t = to_bool(i.truth(s[1].elem))
                m = s[1].mem
                parts.append(
                    z3.Exists(s[1].vars, z3.And(m, t)) if kind == "any" else z3.ForAll(s[1].vars, z3.Implies(m, t))
                )
            else:
                raise Unsupported(kind)
        if not parts:
            return kind == "all"
        return z3.simplify(z3.Or(*parts) if kind == "any" else z3.And(*parts))

    return fn


HASHES = {}


def hash_term(interp, value):
    if isinstance(value, bool):
        value = int(value)
    if is_int(value):
        # hash of an int is a function of its value
        return z3.Function("hash_int", z3.IntSort(), z3.IntSort())(to_z3(value))
    if isinstance(value, str):
        # concrete strings and symbolic strings with the same text share a hash
        from strings import text_key

        return z3.Function("hash_str", Thing, z3.IntSort())(text_key(interp, value))
    if type(value).__name__ == "SStr":
        from strings import text_key

        return z3.Function("hash_str", Thing, z3.IntSort())(text_key(interp, value))
    if isinstance(value, Opaque):
        table = interp.handlers.get(value.iface, {})
        if "__hash__" in table:
            return table["__hash__"](interp, value, [], {})
        sort = value.term.sort()
        return z3.Function(f"hash_{sort}", sort, z3.IntSort())(value.term)
    if isinstance(value, tuple):
        f = z3.Function(f"hash_tuple{len(value)}", *([z3.IntSort()] * (len(value) + 1)))
        return f(*[hash_term(interp, v) for v in value])
    if isinstance(value, Ref) and isinstance(interp.cell(value), InstCell):
        m = interp.class_attr(interp.cell(value).cls, "__hash__")
        if m is not None:
            return interp.call(m, [value])
    raise Unsupported("hash")


def b_hash(i, a, k):
    return hash_term(i, a[0])


def b_print(i, a, k):
    raise Unsupported("print")


def b_getattr(i, a, k):
    if not isinstance(a[1], str):
        raise Unsupported("getattr")
    try:
        return i.getattr(a[0], a[1])
    except PyRaise:
        if len(a) > 2:
            return a[2]
        raise


def b_iter(i, a, k):
    if isinstance(a[0], Ref) and isinstance(i.cell(a[0]), ListCell) and i.cell(a[0]).once is None:
        return i.alloc(ListCell(list(i.cell(a[0]).segs)))
    return a[0]


def iterator(fn):
    """a builtin whose result can be walked through once"""

    def run(i, a, k):
        ref = fn(i, a, k)
        if isinstance(ref, Ref) and ref not in a:
            i.one_shot(ref)
        return ref

    return run


def b_next(i, a, k):
    raise Unsupported("next")


def b_round(i, a, k):
    raise Unsupported("round")


def b_divmod(i, a, k):
    return (i.arith("__floordiv__", a[0], a[1]), i.arith("__mod__", a[0], a[1]))


def b_pow(i, a, k):
    return i.arith("__pow__", a[0], a[1])


def b_frozenset(i, a, k):
    return b_set(i, a, k)


BUILTINS = {}
for _n, _f in {
    "len": b_len,
    "range": b_range,
    "list": b_list,
    "tuple": b_tuple,
    "dict": b_dict,
    "set": b_set,
    "frozenset": b_frozenset,
    "sorted": b_sorted,
    "reversed": iterator(b_reversed),
    "sum": b_sum,
    "max": minmax("max"),
    "min": minmax("min"),
    "abs": b_abs,
    "int": b_int,
    "float": b_float,
    "bool": b_bool,
    "str": b_str,
    "repr": b_str,
    "isinstance": b_isinstance,
    "type": b_type,
    "zip": iterator(b_zip),
    "enumerate": iterator(b_enumerate),
    "map": iterator(b_map),
    "filter": iterator(b_filter),
    "any": quant("any"),
    "all": quant("all"),
    "hash": b_hash,
    "getattr": b_getattr,
    "iter": iterator(b_iter),
    "next": b_next,
    "round": b_round,
    "divmod": b_divmod,
    "pow": b_pow,
    "print": b_print,
    "callable": b_callable,
    "object": lambda i, a, k: i.alloc(OpaqueCell("object")),
}.items():
    BUILTINS[_n] = Builtin(_n, _f)
for _n in EXC_PARENTS:
    BUILTINS[_n] = Builtin(_n, lambda i, a, k, _n=_n: Opaque("exception", z3.Const("exc", Thing), _n))
BUILTINS["BaseException"] = Builtin("BaseException", None)
BUILTINS["staticmethod"] = Builtin("staticmethod", lambda i, a, k: StaticMethod(a[0]))
BUILTINS["classmethod"] = Builtin("classmethod", lambda i, a, k: ClassMethod(a[0]))
BUILTINS["property"] = Builtin("property", lambda i, a, k: PropertyVal(a[0]))
BUILTINS["NotImplemented"] = ExtVal("NotImplemented")


# ------------------------------------------------------------------ library modules
def op2(name, cmp=False):
    def fn(i, a, k):
        return i.compare(name, a[0], a[1]) if cmp else i.binop(name, a[0], a[1])

    return fn


def operator_module():
    names = {}
    for n, d in {
        "add": "__add__",
        "sub": "__sub__",
        "mul": "__mul__",
        "floordiv": "__floordiv__",
        "truediv": "__truediv__",
        "mod": "__mod__",
        "and_": "__and__",
        "or_": "__or__",
        "xor": "__xor__",
        "pow": "__pow__",
    }.items():
        names[n] = Builtin(n, op2(d))
    for n in ("eq", "ne", "lt", "le", "gt", "ge"):
        names[n] = Builtin(n, op2(f"__{n}__", True))
    names["not_"] = Builtin("not_", lambda i, a, k: i.negate(i.truth(a[0])))
    names["neg"] = Builtin("neg", lambda i, a, k: i.arith("__sub__", 0, a[0]))
    names["abs"] = Builtin("abs", b_abs)
    names["contains"] = Builtin("contains", lambda i, a, k: contains(i, a[0], a[1]))
    names["getitem"] = Builtin("getitem", lambda i, a, k: getitem(i, a[0], a[1]))

    def itemgetter(i, a, k):
        keys = list(a)
        return Builtin(
            "itemgetter",
            lambda i2, b, k2: getitem(i2, b[0], keys[0]) if len(keys) == 1 else tuple(getitem(i2, b[0], x) for x in keys),
        )

    names["itemgetter"] = Builtin("itemgetter", itemgetter)

    def attrgetter(i, a, k):
        return Builtin("attrgetter", lambda i2, b, k2: i2.getattr(b[0], a[0]))

    names["attrgetter"] = Builtin("attrgetter", attrgetter)
    return names


def choices(i, a, k):
    """random.choices(population, weights, k=n): n draws, each an element of the
    population whose weight is positive"""
    population = a[0]
    weights = a[1] if len(a) > 1 else k.get("weights")
    count = k.get("k", 1)
    pop = segments(i, population)
    wts = segments(i, weights) if weights is not None else None
    if is_real(count):
        raise PyRaise("TypeError")
    n = as_int(count)
    t = i.prover.fresh("draws", IList)
    i.assume(LENL(t) == z3.If(n > 0, n, z3.IntVal(0)))
    i.event("draw", pop, wts, n, t)
    return i.alloc(ListCell([("L", t)]))


def b_copy(i, a, k):
    v = a[0]
    if isinstance(v, Ref) and not isinstance(i.cell(v), InstCell):
        return copy_cell(i, v)
    if isinstance(v, Ref):
        return copy_cell(i, v)
    if isinstance(v, Opaque):
        table = i.handlers.get(v.iface, {})
        if "__copy__" in table:
            return table["__copy__"](i, v, [], {})
    return v


def b_deepcopy(i, a, k):
    v = a[0]
    if isinstance(v, Opaque):
        table = i.handlers.get(v.iface, {})
        if "__deepcopy__" in table:
            return table["__deepcopy__"](i, v, [], {})
        raise Unsupported("deepcopy of an abstract object")
    memo = {}

    def go(x):
        if isinstance(x, tuple):
            return tuple(go(y) for y in x)
        if isinstance(x, Opaque):
            return b_deepcopy(i, [x], {})
        if not isinstance(x, Ref):
            return x
        if x.oid in memo:
            return memo[x.oid]
        c = i.cell(x)
        if isinstance(c, InstCell):
            ref = i.alloc(c)
            memo[x.oid] = ref
            i.set_cell(ref, InstCell(c.cls, {n: go(f) for n, f in c.fields.items()}))
            return ref
        if isinstance(c, ConcMap):
            ref = i.alloc(ConcMap({n: go(f) for n, f in c.items.items()}, c.default))
        elif isinstance(c, ConcSet):
            ref = i.alloc(ConcSet(tuple(go(y) for y in c.items)))
        elif isinstance(c, ListCell) and all(s[0] == "c" for s in c.segs):
            ref = i.alloc(ListCell([("c", tuple(go(y) for y in s[1])) for s in c.segs], c.is_tuple))
        elif isinstance(c, (SymMap, SymSet, ListCell)):
            ref = copy_cell(i, x)
        else:
            raise Unsupported("deepcopy")
        memo[x.oid] = ref
        return ref

    return go(v)


def math_module():
    def floor(i, a, k):
        v = a[0]
        if is_int(v) or is_bool(v):
            return v
        return rounded(i, z3.ToInt(to_z3(v)), to_z3(v), "floored")

    def ceil(i, a, k):
        v = a[0]
        if is_int(v) or is_bool(v):
            return v
        return rounded(i, -z3.ToInt(-to_z3(v)), to_z3(v), "ceiled")

    return {"floor": Builtin("floor", floor), "ceil": Builtin("ceil", ceil), "trunc": Builtin("trunc", b_int)}


def b_reduce(i, a, k):
    values = as_values(i, a[1])
    if values is not None:
        if len(a) > 2:
            acc = a[2]
        else:
            if not values:
                raise PyRaise("TypeError")
            acc, values = values[0], values[1:]
        for v in values:
            acc = i.call(a[0], [acc, v])
        return acc
    if len(a) < 3:
        raise Unsupported("reduce without start")
    from loops import for_loop

    frame = i.alloc(FrameCell({"acc": a[2]}))

    def step(e):
        acc = i.cell(frame).vars["acc"]
        if acc is POISON:
            raise Unsupported("reduce without invariant")
        i.set_cell(frame, FrameCell({"acc": i.call(a[0], [acc, e])}))

    for_loop(i, a[1], step, lambda: None, "reduce")
    if i.cell(frame).vars["acc"] is POISON:
        raise Unsupported("reduce without invariant")
    return i.cell(frame).vars["acc"]


def collections_module():
    def defaultdict(i, a, k):
        d = a[0] if a else None
        if isinstance(d, Builtin) and d.name == "int":
            d = "int"
        ref = i.alloc(ConcMap({}, d))
        if len(a) > 1:
            dict_update(i, ref, a[1])
        return ref

    def counter(i, a, k):
        ref = i.alloc(ConcMap({}, "int"))
        if a:
            if isinstance(a[0], Ref) and isinstance(i.cell(a[0]), (ConcMap, SymMap)):
                dict_update(i, ref, a[0])
            else:
                raise Unsupported("Counter")
        return ref

    return {
        "defaultdict": Builtin("defaultdict", defaultdict),
        "Counter": Builtin("Counter", counter),
        "OrderedDict": Builtin("dict", b_dict),
    }


def itertools_module():
    def product(i, a, k):
        if k:
            raise Unsupported("itertools.product")
        from loops import for_loop

        ref = i.alloc(ListCell([]))

        def level(n, acc):
            if n == len(a):
                list_append(i, ref, tuple(acc))
                return
            for_loop(i, a[n], lambda e: level(n + 1, acc + [e]), lambda: None, "product")

        level(0, [])
        return ref

    def chain(i, a, k):
        ref = i.alloc(ListCell([]))
        for x in a:
            other = to_list(i, x)
            i.set_cell(ref, ListCell(i.cell(ref).segs + i.cell(other).segs))
        merge_segs(i, ref)
        return ref

    def repeat(i, a, k):
        if len(a) != 2:
            raise Unsupported("repeat")
        from loops import for_loop

        ref = i.alloc(ListCell([]))
        for_loop(i, RangeVal(0, a[1]), lambda e: list_append(i, ref, a[0]), lambda: None, "repeat")
        return ref

    return {"product": Builtin("product", product), "chain": Builtin("chain", chain), "repeat": Builtin("repeat", repeat)}


def external_module(interp, name):
    table = {
        "operator": operator_module,
        "math": math_module,
        "random": lambda: {"choices": Builtin("choices", choices)},
        "copy": lambda: {"copy": Builtin("copy", b_copy), "deepcopy": Builtin("deepcopy", b_deepcopy)},
        "functools": lambda: {"reduce": Builtin("reduce", b_reduce)},
        "collections": collections_module,
        "itertools": itertools_module,
    }
    if name in table:
        mod = ModuleVal(name)
        mod.attrs = table[name]()
        return mod
    if name == "re":
        from strings import re_module

        mod = ModuleVal(name)
        mod.attrs = re_module()
        return mod
    if name in ("typing", "abc", "rply", "io", "matplotlib", "PIL", "enum", "dataclasses", "rply.token", "rply.errors",
                "typing_extensions", "warnings", "logging", "collections.abc"):
        mod = ModuleVal(name)
        mod.attrs = {}
        if name == "typing":
            mod.attrs = {"cast": Builtin("cast", lambda i, a, k: a[1]), "TYPE_CHECKING": False}
        return mod
    return None


def install(interp):
    pass
