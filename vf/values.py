"""Values of the symbolic Python interpreter.

int/bool/real values are Python constants or z3 terms; everything mutable lives in
the heap as an immutable cell addressed by a Ref."""
from fractions import Fraction

import z3


class Unsupported(Exception):
    """the code uses something outside the verifier's subset"""


class Infeasible(Exception):
    pass


class PyRaise(Exception):
    def __init__(self, name, value=None):
        super().__init__(name)
        self.name = name
        self.value = value


class ReturnSig(Exception):
    def __init__(self, value):
        super().__init__()
        self.value = value


class BreakSig(Exception):
    pass


class ContinueSig(Exception):
    pass


class Ref:
    __slots__ = ("oid",)

    def __init__(self, oid):
        self.oid = oid

    def __eq__(self, other):
        return isinstance(other, Ref) and self.oid == other.oid

    def __hash__(self):
        return hash(("ref", self.oid))

    def __repr__(self):
        return f"Ref({self.oid})"


class Undef:
    def __repr__(self):
        return "Undef"


UNDEF = Undef()


class Poison:
    """a local whose value after a loop was not determined"""

    def __repr__(self):
        return "Poison"


POISON = Poison()


class Opaque:
    """an object known only by the contract of its interface"""

    __slots__ = ("iface", "term", "data")

    def __init__(self, iface, term, data=None):
        self.iface = iface
        self.term = term
        self.data = data

    def __repr__(self):
        return f"<{self.iface} {self.term}>"


class FuncVal:
    def __init__(self, node, module, closure, cls=None, name=None, defaults=None, kwdefaults=None):
        self.node = node
        self.module = module
        self.closure = closure  # list of frame Refs, innermost last
        self.cls = cls  # class name for name mangling
        self.name = name or getattr(node, "name", "<lambda>")
        self.defaults = defaults or []
        self.kwdefaults = kwdefaults or {}

    def __repr__(self):
        return f"<function {self.name}>"


class BoundMethod:
    def __init__(self, func, self_value):
        self.func = func
        self.self_value = self_value


class StaticMethod:
    def __init__(self, func):
        self.func = func


class ClassMethod:
    def __init__(self, func):
        self.func = func


class PropertyVal:
    def __init__(self, func):
        self.func = func


class Builtin:
    def __init__(self, name, fn):
        self.name = name
        self.fn = fn

    def __repr__(self):
        return f"<builtin {self.name}>"


class NativeMethod(Builtin):
    """a method of a ghost class, written in Python on the verifier's side"""


class ClassVal:
    def __init__(self, name, bases, attrs, module):
        self.name = name
        self.bases = bases
        self.attrs = attrs
        self.module = module

    def mro(self):
        out = [self]
        for base in self.bases:
            if isinstance(base, ClassVal):
                for c in base.mro():
                    if c not in out:
                        out.append(c)
            elif base not in out:
                out.append(base)
        return out

    def __repr__(self):
        return f"<class {self.name}>"


class ExtVal:
    """attribute of a module outside the repository (not modelled)"""

    def __init__(self, name):
        self.name = name

    def __eq__(self, other):
        return isinstance(other, ExtVal) and other.name == self.name

    def __hash__(self):
        return hash(("ext", self.name))

    def __repr__(self):
        return f"<external {self.name}>"


class ModuleVal:
    def __init__(self, name):
        self.name = name
        self.attrs = {}


class RangeVal:
    def __init__(self, lo, hi):
        self.lo = lo
        self.hi = hi


class ViewVal:
    """dict view: kind in keys, values, items"""

    def __init__(self, ref, kind):
        self.ref = ref
        self.kind = kind


class SuperVal:
    def __init__(self, cls, obj):
        self.cls = cls
        self.obj = obj


# ------------------------------------------------------------------ heap cells
class FrameCell:
    __slots__ = ("vars",)

    def __init__(self, vars_):
        self.vars = vars_


class InstCell:
    __slots__ = ("cls", "fields", "sealed")

    def __init__(self, cls, fields, sealed=False):
        self.cls = cls
        self.fields = fields
        self.sealed = sealed  # constructed, of a class whose objects may not change


class ConcMap:
    """dict with concrete keys, insertion ordered"""

    __slots__ = ("items", "default")

    def __init__(self, items, default=None):
        self.items = items  # dict
        self.default = default


class SymMap:
    """dict: dom/val are Python functions of a z3 key.  kkind/vkind: see codec."""

    __slots__ = ("kkind", "vkind", "dom", "val", "default", "meta")

    def __init__(self, kkind, vkind, dom, val, default=None, meta=None):
        self.kkind = kkind
        self.vkind = vkind
        self.dom = dom
        self.val = val
        self.default = default
        self.meta = meta


class SymSet:
    __slots__ = ("kkind", "dom", "meta")

    def __init__(self, kkind, dom, meta=None):
        self.kkind = kkind
        self.dom = dom
        self.meta = meta


class ConcSet:
    __slots__ = ("items",)

    def __init__(self, items):
        self.items = items  # tuple


class Seg:
    """part of a list: the elements elem, one for every value of vars with mem,
    in the order given: None (unspecified) or ("asc", int term)"""

    __slots__ = ("vars", "mem", "elem", "order", "ident")

    def __init__(self, vars_, mem, elem, order=None, ident=None):
        self.vars = vars_
        self.mem = mem
        self.elem = elem
        self.order = order
        self.ident = ident


class ListCell:
    """segments: ("c", tuple of values) | ("e", Seg) | ("h", id) | ("L", term)
    once: None for a list; for an iterator the loop depth it was made at, or "used" """

    __slots__ = ("segs", "is_tuple", "once")

    def __init__(self, segs, is_tuple=False, once=None):
        self.segs = [s for s in segs if not (s[0] == "c" and not s[1])]
        self.is_tuple = is_tuple
        self.once = once


class OpaqueCell:
    """mutable external object (buffer, figure, ...)"""

    __slots__ = ("name",)

    def __init__(self, name):
        self.name = name


# ------------------------------------------------------------------ z3 sorts
CS = z3.DeclareSort("CS")  # constraint sets (up to ==)
Out = z3.Datatype("Out")
Out.declare("mk", ("value", z3.IntSort()), ("cset", CS))
Out = Out.create()
Con = z3.DeclareSort("Con")  # constraints
Name = z3.DeclareSort("Name")  # variable names
Dist = z3.DeclareSort("Dist")
Expr = z3.DeclareSort("Expr")
IList = z3.DeclareSort("IList")  # integer lists
Thing = z3.DeclareSort("Thing")

SORT_OF_IFACE = {
    "IProbabilityOutcome": Out,
    "IConstraintSet": CS,
    "IConstraint": Con,
    "IProbabilityDistribution": Dist,
    "IDiceExpression": Expr,
    "str:name": Name,
}


def is_z3(v):
    return isinstance(v, z3.ExprRef)


def is_int(v):
    return (isinstance(v, int) and not isinstance(v, bool)) or (is_z3(v) and v.sort() == z3.IntSort())


def is_bool(v):
    return isinstance(v, bool) or (is_z3(v) and v.sort() == z3.BoolSort())


def is_real(v):
    return isinstance(v, (float, Fraction)) or (is_z3(v) and v.sort() == z3.RealSort())


def is_num(v):
    return is_int(v) or is_bool(v) or is_real(v)


def to_z3(v):
    """number or bool to z3"""
    if is_z3(v):
        return v
    if isinstance(v, bool):
        return z3.BoolVal(v)
    if isinstance(v, int):
        return z3.IntVal(v)
    if isinstance(v, float):
        v = Fraction(str(v))
    if isinstance(v, Fraction):
        return z3.RealVal(str(v))
    raise Unsupported(f"no z3 form of {v!r}")


def to_bool(v):
    if isinstance(v, bool):
        return z3.BoolVal(v)
    return v


def as_int(v):
    """z3 Int (bools become 0/1)"""
    if isinstance(v, bool):
        return z3.IntVal(1 if v else 0)
    if isinstance(v, int):
        return z3.IntVal(v)
    if is_z3(v):
        if v.sort() == z3.BoolSort():
            return z3.If(v, z3.IntVal(1), z3.IntVal(0))
        if v.sort() == z3.IntSort():
            return v
    raise Unsupported(f"not an integer: {v!r}")


def as_real(v):
    if is_real(v):
        return to_z3(v)
    return z3.ToReal(as_int(v))
