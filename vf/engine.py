"""Symbolic execution of the repository's Python source (AST), for all inputs.

Statements and expressions of a documented subset are executed on symbolic values;
loops over symbolic collections are summarised, and every summary is justified by
obligations sent to the prover (see loops.py).  Anything outside the subset raises
Unsupported: the function is then not decided by this verifier."""
import ast
import os

import z3

from values import *  # noqa: F401,F403
from values import Out as OutSort
from sums import Prover, FDIV

OPS = {
    ast.Add: "__add__",
    ast.Sub: "__sub__",
    ast.Mult: "__mul__",
    ast.FloorDiv: "__floordiv__",
    ast.Div: "__truediv__",
    ast.Mod: "__mod__",
    ast.Pow: "__pow__",
    ast.BitAnd: "__and__",
    ast.BitOr: "__or__",
    ast.BitXor: "__xor__",
}
CMP = {
    ast.Eq: "__eq__",
    ast.NotEq: "__ne__",
    ast.Lt: "__lt__",
    ast.LtE: "__le__",
    ast.Gt: "__gt__",
    ast.GtE: "__ge__",
}
BAND = z3.Function("band", z3.IntSort(), z3.IntSort(), z3.IntSort())
BOR = z3.Function("bor", z3.IntSort(), z3.IntSort(), z3.IntSort())
EMPTY_TEXT = ("str", ())  # kind of the text "" alone: also integers joined by anything


def is_join(kind):
    return len(kind[1]) == 1 and isinstance(kind[1][0], tuple) and kind[1][0][0] == "join"


BXOR = z3.Function("bxor", z3.IntSort(), z3.IntSort(), z3.IntSort())
HASH = {}
ITE_AX = []


# objects of these may change after they are made: their contracts speak about that; all
# others are proved as they are when new, and so must stay that way
STATEFUL = ("IProbabilityDistribution", "IProbabilityDistributionState", "IConstraintSet")

PERMANENT = {}  # cells of loaded modules: never rolled back


MUTATORS = ("append", "add", "update", "setdefault", "pop", "popitem", "clear", "extend", "insert", "remove", "discard", "sort", "reverse",
            "appendleft", "intersection_update", "difference_update", "symmetric_difference_update", "__setitem__", "__delitem__")


def changed_names(repo):
    """names of variables and attributes whose value some function of the package changes
    in place, or that it assigns as globals"""
    out, rebound = set(), set()

    def note(node):
        while isinstance(node, ast.Subscript):
            node = node.value
        if isinstance(node, ast.Name):
            out.add(node.id)
        elif isinstance(node, ast.Attribute):
            out.add(node.attr)

    for folder, _, files in os.walk(os.path.join(repo, "python_dice")):
        if os.sep + "test" in folder:
            continue
        for file in files:
            if not file.endswith(".py"):
                continue
            with open(os.path.join(folder, file)) as handle:
                tree = ast.parse(handle.read())
            for func in ast.walk(tree):
                if not isinstance(func, (ast.FunctionDef, ast.Lambda)):
                    continue
                for node in ast.walk(func):
                    if isinstance(node, ast.Global):
                        rebound.update(node.names)
                    elif isinstance(node, ast.Attribute) and not isinstance(node.ctx, ast.Load):
                        base = node.value
                        if not isinstance(base, ast.Name) or base.id[:1].isupper() or base.id == "cls":
                            rebound.add(node.attr)
                    elif isinstance(node, ast.Subscript) and not isinstance(node.ctx, ast.Load):
                        note(node)
                    elif isinstance(node, ast.AugAssign):
                        note(node.target)
                    elif isinstance(node, ast.Call) and isinstance(node.func, ast.Attribute) and node.func.attr in MUTATORS:
                        note(node.func.value)
    return out, rebound


class Heap(dict):
    def __missing__(self, oid):
        return PERMANENT[oid]


class PathResult:
    def __init__(self, conds, facts, heap, trace, kind, value, exc=None):
        self.conds = conds
        self.facts = facts
        self.heap = heap
        self.trace = trace
        self.kind = kind  # normal return raise break continue
        self.value = value
        self.exc = exc


def models_module():
    import models

    return models


class Interp:
    def __init__(self, repo, prover=None):
        self.repo = repo
        self.prover = prover or Prover()
        PERMANENT.clear()  # one interpreter at a time
        self.heap = Heap()
        self.conds = []  # branch decisions
        self.facts = []  # assumptions (preconditions, callee postconditions)
        self.trace = []  # ghost events
        self.external = {}  # contracts of functions outside the repository
        self.decisions = []
        self.taken = []
        self.alternatives = []
        self.modules = {}
        self.overrides = {}  # (module, qualname) -> handler
        self.loop_depth = 0
        self.handlers = {}  # iface -> {method: handler}
        self.hints = []
        self.while_hints = []
        self.fold_rules = []
        self.next_oid = 1
        self.depth = 0
        self.sealing = True
        self._kept = None
        self.small_floats = False  # integers that become floats are below 2**53
        self.functions = {}  # qualified name -> times executed
        self.protected = {}  # oid -> description (frame condition)
        self.quiet = 0
        self.obligations = []
        self.loop_notes = []
        self.assigned_mut = []
        self.name_literals = {}
        self.exit_elems = set()
        from strings import pattern_handlers

        self.handlers["pattern"] = pattern_handlers()
        from models import install

        install(self)

    # ------------------------------------------------------------ heap
    def alloc(self, cell):
        oid = self.next_oid
        self.next_oid += 1
        self.heap[oid] = cell
        return Ref(oid)

    def cell(self, ref):
        return self.heap[ref.oid]

    def set_cell(self, ref, cell):
        if ref.oid in PERMANENT:
            raise Unsupported("state of a module or class that changes between calls")
        for other in self.heap.values():
            if isinstance(other, InstCell) and other.sealed and any(isinstance(f, Ref) and f.oid == ref.oid for f in other.fields.values()):
                raise Unsupported("state of an object that changes between calls")
        self.heap[ref.oid] = cell

    # ------------------------------------------------------------ path control
    def all_facts(self):
        return self.facts + self.conds

    def assume(self, fact):
        if isinstance(fact, bool):
            fact = z3.BoolVal(fact)
        if z3.is_quantifier(fact) and fact.is_forall():
            from loops import tidy

            fact = tidy(self.prover, fact)
        if not z3.is_true(fact):
            self.facts.append(fact)

    def event(self, *what):
        if not self.quiet:
            self.trace.append(what)

    def branch(self, cond):
        """decide a condition, forking where both answers are possible"""
        if isinstance(cond, bool):
            return cond
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        base = list(self.prover.axioms) + self.all_facts()
        if self.prover.infeasible(base + [z3.Not(cond)]):
            return True
        if self.prover.infeasible(base + [cond]):
            return False
        index = len(self.taken)
        if index < len(self.decisions):
            choice = self.decisions[index]
        else:
            choice = True
        self.taken.append(choice)
        self.conds.append(cond if choice else z3.Not(cond))
        return choice

    def branchless_true(self, cond):
        """provably true here?"""
        return self.prover.valid(self.all_facts(), cond) is True

    def choose(self, count):
        """nondeterministic choice among count alternatives (forks)"""
        for index in range(count - 1):
            position = len(self.taken)
            if position < len(self.decisions):
                choice = self.decisions[position]
            else:
                choice = True
            self.taken.append(choice)
            if choice:
                return index
        return count - 1

    def explore(self, thunk, limit=400):
        base = (Heap(self.heap), list(self.conds), list(self.facts), list(self.trace))
        saved = (self.decisions, self.taken)
        results = []
        pending = [[]]
        while pending:
            prefix = pending.pop()
            self.heap = Heap(base[0])
            self.conds, self.facts, self.trace = list(base[1]), list(base[2]), list(base[3])
            self.decisions, self.taken = prefix, []
            value, exc = None, None
            try:
                value = thunk()
                kind = "normal"
            except ReturnSig as sig:
                kind, value = "return", sig.value
            except BreakSig:
                kind = "break"
            except ContinueSig:
                kind = "continue"
            except PyRaise as error:
                kind, exc = "raise", error
            except Infeasible:
                kind = None
            taken = self.taken
            for i in range(len(prefix), len(taken)):
                if taken[i] is True:
                    pending.append(taken[:i] + [False])
            if kind is None:
                continue
            results.append(
                PathResult(
                    self.conds[len(base[1]) :],
                    self.facts[len(base[2]) :],
                    self.heap,
                    self.trace[len(base[3]) :],
                    kind,
                    value,
                    exc,
                )
            )
            if len(results) > limit:
                raise Unsupported("too many paths")
        self.heap = Heap(base[0])
        self.conds, self.facts, self.trace = list(base[1]), list(base[2]), list(base[3])
        self.decisions, self.taken = saved
        return results

    def feasible(self):
        return not self.prover.infeasible(list(self.prover.axioms) + self.all_facts())

    # ------------------------------------------------------------ modules
    def module(self, name):
        if name in self.modules:
            return self.modules[name]
        from models import external_module

        ext = external_module(self, name)
        if ext is not None:
            self.modules[name] = ext
            return ext
        path = os.path.join(self.repo, *name.split("."))
        file = path + ".py"
        if not os.path.exists(file):
            file = os.path.join(path, "__init__.py")
        if not os.path.exists(file):
            mod = ModuleVal(name)
            mod.attrs = None
            self.modules[name] = mod
            return mod
        with open(file) as handle:
            tree = ast.parse(handle.read())
        mod = ModuleVal(name)
        frame = self.alloc(FrameCell({"__name__": name}))
        mod.frame = frame
        mod.file = file
        self.modules[name] = mod
        env = Env(self, [frame], mod, None)
        first = self.next_oid
        env.block(tree.body)
        mod.attrs = "frame"
        for oid in [frame.oid] + list(range(first, self.next_oid)):
            if oid in self.heap:
                PERMANENT[oid] = self.heap[oid]
        return mod

    def module_attr(self, mod, name):
        if mod.attrs is None:
            return ExtVal(f"{mod.name}.{name}")
        if isinstance(mod.attrs, dict):
            if name in mod.attrs:
                return mod.attrs[name]
            return ExtVal(f"{mod.name}.{name}")
        vars_ = self.heap[mod.frame.oid].vars
        if name in vars_:
            return vars_[name]
        sub = self.module(mod.name + "." + name)
        return sub

    def get(self, dotted):
        """class or function of the repository: 'pkg.mod:Name'"""
        mod, name = dotted.split(":")
        m = self.module(mod)
        vars_ = self.heap[m.frame.oid].vars
        if name not in vars_:
            raise Unsupported(f"{dotted} does not exist")
        return vars_[name]

    # ------------------------------------------------------------ calls
    def call(self, func, args=(), kwargs=None):
        kwargs = kwargs or {}
        args = list(args)
        self.depth += 1
        try:
            if self.depth > 60:
                raise Unsupported("recursion")
            return self._call(func, args, kwargs)
        finally:
            self.depth -= 1

    def _call(self, func, args, kwargs):
        if isinstance(func, Builtin):
            return func.fn(self, args, kwargs)
        if isinstance(func, BoundMethod):
            return self._call(func.func, [func.self_value] + args, kwargs)
        if isinstance(func, StaticMethod):
            return self._call(func.func, args, kwargs)
        if isinstance(func, FuncVal):
            return self.call_function(func, args, kwargs)
        if isinstance(func, ClassVal):
            return self.instantiate(func, args, kwargs)
        if isinstance(func, Ref) and isinstance(self.cell(func), InstCell):
            method = self.class_attr(self.cell(func).cls, "__call__")
            if method is not None:
                return self._call(method, [func] + args, kwargs)
        if isinstance(func, Opaque):
            return self.opaque_call(func, "__call__", args, kwargs)
        if isinstance(func, ExtVal) and func.name in self.external:
            return self.external[func.name](self, args, kwargs)
        raise Unsupported(f"call of {func!r}")

    def instantiate(self, cls, args, kwargs):
        key = (cls.module, cls.name)
        if key in self.overrides:
            return self.overrides[key](self, args, kwargs)
        ref = self.alloc(InstCell(cls, {}))
        init = self.class_attr(cls, "__init__")
        if init is not None:
            self._call(init, [ref] + args, kwargs)
        elif any(isinstance(c, ExtVal) and c.name not in ("abc.ABC", "builtins.object", "rply.token.Token") for c in cls.mro()):
            raise Unsupported(f"constructor of {cls.name} inherits from outside")
        elif args or kwargs:
            raise PyRaise("TypeError")
        if self.sealing and not any(getattr(c, "name", "") in STATEFUL for c in cls.mro()):
            cell = self.heap[ref.oid]
            self.heap[ref.oid] = InstCell(cell.cls, cell.fields, True)
        return ref

    def call_function(self, func, args, kwargs):
        node = func.node
        qual = f"{func.module.name}:{(func.cls + '.') if func.cls else ''}{func.name}"
        key = (func.module.name, f"{(func.cls + '.') if func.cls else ''}{func.name}")
        if key in self.overrides:
            return self.overrides[key](self, args, kwargs)
        self.functions[qual] = self.functions.get(qual, 0) + 1
        spec = node.args
        names = [a.arg for a in spec.posonlyargs + spec.args]
        local = {}
        if len(args) > len(names) and spec.vararg is None:
            raise PyRaise("TypeError")
        for name, value in zip(names, args):
            local[name] = value
        if spec.vararg is not None:
            local[spec.vararg.arg] = tuple(args[len(names) :])
        extra = {}
        for name, value in kwargs.items():
            if name in names or name in [a.arg for a in spec.kwonlyargs]:
                if name in local:
                    raise PyRaise("TypeError")
                local[name] = value
            elif spec.kwarg is not None:
                extra[name] = value
            else:
                raise PyRaise("TypeError")
        if spec.kwarg is not None:
            raise Unsupported("**kwargs")
        defaults = func.defaults
        for name, value in zip(names[len(names) - len(defaults) :], defaults):
            local.setdefault(name, value)
        for name, value in func.kwdefaults.items():
            local.setdefault(name, value)
        for name in names + [a.arg for a in spec.kwonlyargs]:
            if name not in local:
                raise PyRaise("TypeError")
        frame = self.alloc(FrameCell(local))
        env = Env(self, func.closure + [frame], func.module, func.cls)
        if isinstance(node, ast.Lambda):
            return env.eval(node.body)
        env.find_scopes(node)
        if env.is_generator:
            return self.generate(env, node)
        try:
            env.block(node.body)
        except ReturnSig as sig:
            return sig.value
        return None

    def generate(self, env, node):
        """the values a generator yields, computed at once: only where that can not be told
        apart from computing them one by one (the body changes nothing but its own)"""
        from loops import modified

        before = type(self.heap)(self.heap)
        own = env.frames[-1].oid
        env.yields = self.alloc(ListCell([]))
        try:
            env.block(node.body)
        except ReturnSig:
            pass
        if any(key[1] != own for key in modified(before, self.heap)):
            raise Unsupported("generator with effects")
        self.one_shot(env.yields)
        return env.yields

    def one_shot(self, ref):
        cell = self.cell(ref)
        if isinstance(cell, ListCell):
            self.heap[ref.oid] = ListCell(cell.segs, cell.is_tuple, self.loop_depth)

    def use(self, value):
        """a variable or field is read to be used: an iterator serves once"""
        if isinstance(value, Ref):
            cell = self.heap.get(value.oid)
            if isinstance(cell, ListCell) and cell.once is not None:
                if cell.once == "used" or cell.once != self.loop_depth:
                    raise Unsupported("an iterator used more than once")
                self.heap[value.oid] = ListCell(cell.segs, cell.is_tuple, "used")
        return value

    # ------------------------------------------------------------ attributes
    def class_attr(self, cls, name):
        for c in cls.mro():
            if isinstance(c, ClassVal) and name in c.attrs:
                self.check_kept(name, c.attrs[name], True)
                return c.attrs[name]
        return None

    def check_kept(self, name, value, place=False):
        """a module or class level value that some function of the package changes is not
        what it was when the module was loaded"""
        if isinstance(value, (FuncVal, ClassVal, ModuleVal)):
            return
        changed, rebound = self.kept_names()
        if name in changed and isinstance(value, Ref) and value.oid in PERMANENT or name in rebound and place:
            raise Unsupported("state of a module or class that changes between calls")

    def kept_names(self):
        if self._kept is None:
            self._kept = changed_names(self.repo)
        return self._kept

    def getattr(self, obj, name):
        if isinstance(obj, Ref):
            cell = self.cell(obj)
            if isinstance(cell, InstCell):
                attr = self.class_attr(cell.cls, name)
                if isinstance(attr, PropertyVal):
                    return self.call(attr.func, [obj])
                if name in cell.fields:
                    value = cell.fields[name]
                    if value is POISON:
                        raise Unsupported(f"attribute {name} not determined by a loop")
                    return value
                if attr is not None:
                    if isinstance(attr, (FuncVal, NativeMethod)):
                        return BoundMethod(attr, obj)
                    if isinstance(attr, StaticMethod):
                        return attr.func
                    if isinstance(attr, ClassMethod):
                        return BoundMethod(attr.func, cell.cls)
                    return attr
                if name == "__class__":
                    return cell.cls
                from models import object_method

                default = object_method(self, obj, name)
                if default is not None:
                    return default
                raise PyRaise("AttributeError")
            from models import method

            return method(self, obj, cell, name)
        if isinstance(obj, Opaque):
            return self.opaque_attr(obj, name)
        if isinstance(obj, ClassVal):
            if name == "__name__":
                return obj.name
            attr = self.class_attr(obj, name)
            if attr is None:
                raise PyRaise("AttributeError")
            if isinstance(attr, StaticMethod):
                return attr.func
            if isinstance(attr, ClassMethod):
                return BoundMethod(attr.func, obj)
            return attr
        if isinstance(obj, ModuleVal):
            return self.module_attr(obj, name)
        if isinstance(obj, SuperVal):
            mro = self.cell(obj.obj).cls.mro()
            rest = mro[mro.index(obj.cls) + 1 :]
            for c in rest:
                if isinstance(c, ClassVal) and name in c.attrs:
                    attr = c.attrs[name]
                    if isinstance(attr, PropertyVal):
                        return self.call(attr.func, [obj.obj])
                    return BoundMethod(attr, obj.obj) if isinstance(attr, FuncVal) else attr
            if name == "__init__":
                return Builtin("object.__init__", lambda i, a, k: None)
            raise Unsupported(f"super().{name}")
        if isinstance(obj, ExtVal):
            return self.external_attr(obj, name)
        if isinstance(obj, FuncVal) and name in ("__name__", "__qualname__"):
            return obj.name
        if isinstance(obj, Builtin) and name == "__name__":
            return obj.name.split(".")[-1]
        from models import value_method

        return value_method(self, obj, name)

    def external_attr(self, obj, name):
        return ExtVal(f"{obj.name}.{name}")

    def setattr(self, obj, name, value):
        if isinstance(obj, Ref) and isinstance(self.cell(obj), InstCell):
            cell = self.cell(obj)
            if isinstance(self.class_attr(cell.cls, name), PropertyVal):
                raise PyRaise("AttributeError")
            if cell.sealed:
                raise Unsupported("an object that changes between calls")
            fields = dict(cell.fields)
            fields[name] = value
            self.set_cell(obj, InstCell(cell.cls, fields))
            return
        raise Unsupported(f"attribute assignment on {obj!r}")

    # ------------------------------------------------------------ opaque objects
    def opaque_attr(self, obj, name):
        table = self.handlers.get(obj.iface, {})
        if "prop:" + name in table:
            return table["prop:" + name](self, obj)
        if name in table:
            return Builtin(f"{obj.iface}.{name}", lambda i, a, k: table[name](i, obj, a, k))
        raise Unsupported(f"{obj.iface}.{name} has no contract")

    def opaque_call(self, obj, name, args, kwargs=None):
        table = self.handlers.get(obj.iface, {})
        if name not in table:
            raise Unsupported(f"{obj.iface}.{name} has no contract")
        return table[name](self, obj, args, kwargs or {})

    def isinstance(self, value, cls):
        if isinstance(cls, tuple):
            answers = [self.isinstance(value, c) for c in cls]
            return any(answers)
        if isinstance(cls, Builtin):
            name = cls.name
            if name == "int":
                return is_int(value) or is_bool(value)
            if name == "bool":
                return is_bool(value)
            if name == "float":
                return is_real(value)
            if name == "str":
                return isinstance(value, str) or type(value).__name__ == "SStr"
            if name == "dict":
                return isinstance(value, Ref) and isinstance(self.cell(value), (ConcMap, SymMap))
            if name == "set":
                return isinstance(value, Ref) and isinstance(self.cell(value), (ConcSet, SymSet))
            if name == "list":
                return isinstance(value, Ref) and isinstance(self.cell(value), ListCell) and not self.cell(value).is_tuple
            if name == "tuple":
                return isinstance(value, tuple) or (
                    isinstance(value, Ref) and isinstance(self.cell(value), ListCell) and self.cell(value).is_tuple
                )
            if name == "object":
                return True
            raise Unsupported(f"isinstance {name}")
        if isinstance(value, Opaque):
            if isinstance(cls, ClassVal):
                iface = value.iface
                if iface.startswith("str:"):
                    return False
                known = self.iface_classes(iface)
                if cls.name in known:
                    return True
                # an object known by interface only may be an instance of any
                # implementing class; other interfaces are disjoint
                if any(isinstance(c, ClassVal) and c.name == iface for c in cls.mro()):
                    raise Unsupported(f"isinstance of an abstract {iface} with {cls.name}")
                return False
            return False
        if isinstance(value, Ref) and isinstance(self.cell(value), InstCell):
            if isinstance(cls, (ClassVal, ExtVal)):
                return cls in self.cell(value).cls.mro()
            return False
        if isinstance(cls, ClassVal):
            return False
        if isinstance(cls, ExtVal):
            raise Unsupported(f"isinstance with {cls.name}")
        raise Unsupported("isinstance")

    def iface_classes(self, iface):
        extra = {"IVarValueConstraint": {"IVarValueConstraint", "IConstraint"}}
        return extra.get(iface, {iface})

    # ------------------------------------------------------------ truth
    def truth(self, value):
        """z3 Bool or bool"""
        if isinstance(value, bool):
            return value
        if value is None:
            return False
        if isinstance(value, (int, float)) and not is_z3(value):
            return value != 0
        if is_z3(value):
            if value.sort() == z3.BoolSort():
                return value
            return value != 0
        if isinstance(value, (str, tuple)):
            return len(value) > 0
        if type(value).__name__ == "SStr":
            return self.negate(value.equals(self, ""))
        if isinstance(value, Opaque):
            table = self.handlers.get(value.iface, {})
            if "__bool__" in table:
                return table["__bool__"](self, value, [], {})
            return True
        if isinstance(value, Ref):
            cell = self.cell(value)
            if isinstance(cell, InstCell):
                for name in ("__bool__", "__len__"):
                    m = self.class_attr(cell.cls, name)
                    if m is not None:
                        return self.truth(self.call(m, [value]))
                return True
            from models import length

            n = length(self, value)
            if isinstance(n, int):
                return n > 0
            return n > 0
        return True

    def both(self, a, b):
        if isinstance(a, bool) and isinstance(b, bool):
            return a and b
        return z3.simplify(z3.And(to_bool(a), to_bool(b)))

    def negate(self, b):
        return (not b) if isinstance(b, bool) else z3.Not(b)

    # ------------------------------------------------------------ operators
    def binop(self, name, a, b):
        from models import container_op

        if isinstance(a, Opaque) and name in self.handlers.get(a.iface, {}):
            return self.opaque_call(a, name, [b])
        if isinstance(a, Ref):
            cell = self.cell(a)
            if isinstance(cell, InstCell):
                m = self.class_attr(cell.cls, name)
                if m is not None:
                    return self.call(m, [a, b])
                raise PyRaise("TypeError")
            return container_op(self, name, a, b)
        if isinstance(a, ViewVal):
            return container_op(self, name, a, b)
        if isinstance(a, (str, tuple)) or type(a).__name__ == "SStr":
            return container_op(self, name, a, b)
        if is_num(a) and is_num(b):
            return self.arith(name, a, b)
        if isinstance(b, Ref) and isinstance(self.cell(b), ListCell) and name == "__mul__" and is_int(a):
            return container_op(self, name, b, a)
        raise Unsupported(f"{name} of {a!r} and {b!r}")

    def arith(self, name, a, b):
        concrete = not is_z3(a) and not is_z3(b)
        if name in ("__and__", "__or__", "__xor__"):
            if is_bool(a) and is_bool(b):
                if concrete:
                    return {"__and__": a & b, "__or__": a | b, "__xor__": a ^ b}[name]
                x, y = to_z3(a), to_z3(b)
                return {"__and__": z3.And(x, y), "__or__": z3.Or(x, y), "__xor__": z3.Xor(x, y)}[name]
            if concrete:
                return {"__and__": a & b, "__or__": a | b, "__xor__": a ^ b}[name]
            fun = {"__and__": BAND, "__or__": BOR, "__xor__": BXOR}[name]
            x, y = as_int(a), as_int(b)
            return fun(x, y)
        if name in ("__floordiv__", "__mod__"):
            if is_real(a) or is_real(b):
                raise Unsupported("float floor division")
            x, y = as_int(a), as_int(b)
            if self.branch(y == 0):
                raise PyRaise("ZeroDivisionError")
            if concrete:
                return int(a) // int(b) if name == "__floordiv__" else int(a) % int(b)
            q = FDIV(x, y)
            return q if name == "__floordiv__" else x - y * q
        if name == "__truediv__":
            if self.branch(as_real(b) == 0):
                raise PyRaise("ZeroDivisionError")
            return as_real(a) / as_real(b)
        if name == "__pow__":
            if concrete and is_int(a) and is_int(b) and b >= 0:
                return a**b
            if not is_z3(b) and is_int(b) and 0 <= b <= 4:
                out = z3.IntVal(1) if is_int(a) or is_bool(a) else z3.RealVal(1)
                for _ in range(b):
                    out = out * (as_real(a) if is_real(a) else as_int(a))
                return z3.simplify(out)
            raise Unsupported("power")
        if concrete and not is_real(a) and not is_real(b):
            a, b = int(a), int(b)
            return {"__add__": a + b, "__sub__": a - b, "__mul__": a * b}[name]
        if is_real(a) or is_real(b):
            x, y = as_real(a), as_real(b)
        else:
            x, y = as_int(a), as_int(b)
        return {"__add__": lambda: x + y, "__sub__": lambda: x - y, "__mul__": lambda: x * y}[name]()

    def compare(self, name, a, b):
        if isinstance(a, Opaque):
            table = self.handlers.get(a.iface, {})
            if name in table:
                return self.opaque_call(a, name, [b])
            if name in ("__eq__", "__ne__"):
                eq = isinstance(b, Opaque) and b.term.sort() == a.term.sort() and (a.term == b.term)
                if not isinstance(b, Opaque) or b.term.sort() != a.term.sort():
                    if b is not None and not (a.iface[0] == "I" and a.iface[1:2].isupper()):
                        raise Unsupported(f"comparison of {a.iface}")
                    eq = False
                return eq if name == "__eq__" else self.negate(eq)
            raise Unsupported(f"{name} of {a!r}")
        if isinstance(a, Ref) and isinstance(self.cell(a), InstCell):
            m = self.class_attr(self.cell(a).cls, name)
            if m is not None:
                return self.call(m, [a, b])
            if name == "__ne__":
                return self.negate(self.truth(self.compare("__eq__", a, b)))
            if name == "__eq__":
                return a == b if isinstance(b, Ref) else False
            raise Unsupported(f"{name} of instance")
        if is_num(a) and is_num(b):
            if not is_z3(a) and not is_z3(b):
                return {
                    "__eq__": a == b,
                    "__ne__": a != b,
                    "__lt__": a < b,
                    "__le__": a <= b,
                    "__gt__": a > b,
                    "__ge__": a >= b,
                }[name]
            if is_bool(a) and is_bool(b) and name in ("__eq__", "__ne__"):
                eq = to_z3(a) == to_z3(b)
                return eq if name == "__eq__" else z3.Not(eq)
            if is_real(a) or is_real(b):
                x, y = as_real(a), as_real(b)
                from models import inexact

                zero = any(z3.is_rational_value(t) and str(t) == "0" for t in (x, y))
                if not zero and (inexact(x) or inexact(y)):
                    # rounding decides: nothing is known
                    return z3.Function("float" + name, z3.RealSort(), z3.RealSort(), z3.BoolSort())(x, y)
            else:
                x, y = as_int(a), as_int(b)
            return {
                "__eq__": lambda: x == y,
                "__ne__": lambda: x != y,
                "__lt__": lambda: x < y,
                "__le__": lambda: x <= y,
                "__gt__": lambda: x > y,
                "__ge__": lambda: x >= y,
            }[name]()
        if name in ("__eq__", "__ne__"):
            eq = self.equal(a, b)
            return eq if name == "__eq__" else self.negate(eq)
        if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b) and a:
            # lexicographic
            strict = self.compare({"__le__": "__lt__", "__ge__": "__gt__"}.get(name, name), a[0], b[0])
            same = self.compare("__eq__", a[0], b[0])
            rest = self.compare(name, a[1:], b[1:]) if len(a) > 1 else name in ("__le__", "__ge__")
            return z3.simplify(z3.Or(to_bool(strict), z3.And(to_bool(same), to_bool(rest))))
        if isinstance(a, Ref) and isinstance(b, Ref) and all(isinstance(self.cell(x), (ConcSet, SymSet)) for x in (a, b)):
            if name in ("__le__", "__lt__"):
                sub = self.call(self.getattr(a, "issubset"), [b])
            else:
                sub = self.call(self.getattr(a, "issuperset"), [b])
            if name in ("__le__", "__ge__"):
                return sub
            return self.both(sub, self.negate(self.equal(a, b)))
        raise Unsupported(f"{name} of {a!r} and {b!r}")

    def equal(self, a, b):
        if type(a).__name__ == "SStr":
            return a.equals(self, b)
        if type(b).__name__ == "SStr":
            return b.equals(self, a)
        if isinstance(b, Opaque):
            return self.compare("__eq__", b, a)
        if a is None or b is None:
            return a is None and b is None
        if isinstance(a, str) and isinstance(b, str):
            return a == b
        if isinstance(a, tuple) and isinstance(b, tuple):
            if len(a) != len(b):
                return False
            parts = [self.truth(self.compare("__eq__", x, y)) for x, y in zip(a, b)]
            if all(isinstance(p, bool) for p in parts):
                return all(parts)
            return z3.And(*[to_bool(p) for p in parts])
        if isinstance(a, Ref) and isinstance(b, Ref):
            if a == b:
                return True
            return models_module().containers_equal(self, self.cell(a), self.cell(b))
        if isinstance(a, Ref) or isinstance(b, Ref):
            other = b if isinstance(a, Ref) else a
            if other is None or is_num(other) or isinstance(other, str):
                return False
            raise Unsupported("comparison of containers")
        if (is_num(a) and isinstance(b, (str, tuple))) or (is_num(b) and isinstance(a, (str, tuple))):
            return False
        if isinstance(a, (ClassVal, FuncVal, Builtin)) or isinstance(b, (ClassVal, FuncVal, Builtin)):
            return a is b
        if type(a) is not type(b) and isinstance(a, (str, tuple)) and isinstance(b, (str, tuple)):
            return False
        raise Unsupported(f"== of {a!r} and {b!r}")

    def identical(self, a, b):
        if a is None or b is None:
            return a is None and b is None
        if isinstance(a, bool) and isinstance(b, bool):
            return a == b
        if isinstance(a, Ref) and isinstance(b, Ref):
            return a == b
        if isinstance(a, (ClassVal, FuncVal, Builtin)):
            return a is b
        if isinstance(a, Opaque) and isinstance(b, Opaque) and a is b:
            return True
        if is_bool(a) and is_bool(b):
            return to_z3(a) == to_z3(b)
        if getattr(self, "aliasing_covered", False) and any(isinstance(x, Opaque) for x in (a, b)) \
                and all(isinstance(x, (Opaque, Ref)) for x in (a, b)):
            # the contract runs the aliased call as a case of its own
            return False
        raise Unsupported(f"'is' of {a!r} and {b!r}")

    # ------------------------------------------------------------ encodings
    def encode(self, value):
        """(kind, z3 term) of a value usable as key or stored in a symbolic map"""
        if is_bool(value):
            return "bool", to_z3(value)
        if is_int(value):
            return "int", to_z3(value)
        if is_real(value):
            return "real", to_z3(value)
        if isinstance(value, Opaque):
            return ("op", value.iface), value.term
        if type(value).__name__ == "SStr":
            return value.encode(self)
        if isinstance(value, str):
            from strings import lit_name, SHAPES, SStr

            if value == "":
                from models import NIL

                return EMPTY_TEXT, NIL
            t = lit_name(self, value)
            shape = (("name", "Name"),)
            SHAPES.setdefault(shape, (("name", t),))
            return ("str", shape), t
        if isinstance(value, Ref) and isinstance(self.cell(value), InstCell):
            enc = getattr(self, "encode_instance", None)
            if enc is not None:
                return enc(value)
        if isinstance(value, Ref) and isinstance(self.cell(value), ListCell) and self.cell(value).is_tuple:
            from models import list_term

            return "ilist", list_term(self, self.cell(value))
        if isinstance(value, tuple) and all(is_int(v) for v in value):
            from models import NIL, SNOC

            t = NIL
            for v in value:
                t = SNOC(t, as_int(v))
            return "ilist", t
        raise Unsupported(f"cannot store {value!r} in a symbolic container")

    def decode(self, kind, term):
        if kind in ("int", "bool", "real"):
            return term
        if kind == "ilist":
            return self.alloc(ListCell([("L", term)], True))
        if isinstance(kind, tuple) and kind[0] == "op":
            return Opaque(kind[1], term)
        if isinstance(kind, tuple) and kind[0] == "str":
            from strings import decode_str

            if kind == EMPTY_TEXT:
                return ""
            return decode_str(kind, term)
        raise Unsupported(f"decode {kind}")

    def sort_of(self, kind):
        if kind == "int":
            return z3.IntSort()
        if kind == "bool":
            return z3.BoolSort()
        if kind == "real":
            return z3.RealSort()
        if kind == "ilist":
            return IList
        if kind[0] == "op":
            return SORT_OF_IFACE.get(kind[1], Thing)
        if kind[0] == "str":
            from strings import sort_of_str

            if kind == EMPTY_TEXT:
                return IList
            return sort_of_str(kind)
        raise Unsupported(f"sort of {kind}")

    def encode_as(self, kind, value):
        k, t = self.encode(value)
        if k == kind:
            return t
        if kind == "real" and k in ("int", "bool"):
            return as_real(value)
        if kind == "int" and k == "bool":
            return as_int(value)
        if k == EMPTY_TEXT and isinstance(kind, tuple) and kind[0] == "str":
            if is_join(kind):
                return t
            if kind[1] == (("name", "Name"),):
                from strings import lit_name

                return lit_name(self, value)
        raise Unsupported(f"mixed kinds {kind} and {k}")

    def unify_kind(self, k1, k2):
        if k1 is None:
            return k2
        if k2 is None or k1 == k2:
            return k1
        if {k1, k2} <= {"int", "real", "bool"}:
            return "real" if "real" in (k1, k2) else "int"
        for a, b in ((k1, k2), (k2, k1)):
            if a == EMPTY_TEXT and isinstance(b, tuple) and b[0] == "str" and (is_join(b) or b[1] == (("name", "Name"),)):
                return b
        raise Unsupported(f"mixed kinds {k1} and {k2}")

    # ------------------------------------------------------------ substitution in values
    def subst(self, value, pairs):
        if is_z3(value):
            return z3.substitute(value, *pairs)
        if isinstance(value, Opaque):
            return Opaque(value.iface, z3.substitute(value.term, *pairs), value.data)
        if isinstance(value, tuple):
            return tuple(self.subst(v, pairs) for v in value)
        if type(value).__name__ == "SStr":
            return value.subst(self, pairs)
        return value

    def merge(self, conds, values):
        """ite of values under mutually exclusive conditions covering everything"""
        first = values[0]
        if len(values) == 1:
            return first
        if all(v is first for v in values):
            return first
        if all(isinstance(v, (int, str, bool)) and not is_z3(v) for v in values) and all(
            v == first and type(v) is type(first) for v in values
        ):
            return first
        if all(isinstance(v, tuple) and len(v) == len(first) for v in values):
            return tuple(self.merge(conds, [v[i] for v in values]) for i in range(len(first)))
        if all(isinstance(v, Ref) for v in values) and all(v == first for v in values):
            return first
        if all(is_num(v) for v in values):
            if all(is_bool(v) for v in values):
                terms = [to_z3(v) for v in values]
            elif any(is_real(v) for v in values):
                terms = [as_real(v) for v in values]
            else:
                terms = [as_int(v) for v in values]
            return self.ite(conds, terms)
        if all(isinstance(v, Opaque) and v.iface == first.iface for v in values):
            return Opaque(first.iface, self.ite(conds, [v.term for v in values]))
        if all(type(v).__name__ == "SStr" for v in values):
            encs = [self.encode(v) for v in values]
            if all(k == encs[0][0] for k, _ in encs):
                return self.decode(encs[0][0], self.ite(conds, [t for _, t in encs]))
        raise Unsupported(f"cannot merge {values!r}")

    def ite(self, conds, terms):
        out = terms[-1]
        for c, t in zip(reversed(conds[:-1]), reversed(terms[:-1])):
            out = z3.If(c, t, out)
        return out


# ====================================================================== evaluation
class Env:
    """one activation: chain of frames, current module and class"""

    def __init__(self, interp, frames, module, cls):
        self.i = interp
        self.frames = frames
        self.module = module
        self.cls = cls
        self.nonlocals = set()
        self.globals = set()
        self.is_generator = False
        self.local_names = None

    def find_scopes(self, node):
        for sub in walk_scope(node):
            if isinstance(sub, ast.Nonlocal):
                self.nonlocals |= set(sub.names)
            elif isinstance(sub, ast.Global):
                self.globals |= set(sub.names)
            elif isinstance(sub, (ast.Yield, ast.YieldFrom)):
                self.is_generator = True

    # ------------------------------------------------------------ names
    def mangle(self, name):
        if self.cls and name.startswith("__") and not name.endswith("__"):
            return "_" + self.cls.lstrip("_") + name
        return name

    def lookup(self, name):
        name = self.mangle(name)
        for ref in reversed(self.frames):
            vars_ = self.i.heap[ref.oid].vars
            if name in vars_:
                value = vars_[name]
                self.i.check_kept(name, value, ref == self.module.frame)
                if value is POISON:
                    raise Unsupported(f"value of {name} after a loop is not determined")
                if value is UNDEF:
                    raise PyRaise("UnboundLocalError")
                return value
        vars_ = self.i.heap[self.module.frame.oid].vars
        if name in vars_:
            self.i.check_kept(name, vars_[name], True)
            return vars_[name]
        from models import BUILTINS

        if name in BUILTINS:
            return BUILTINS[name]
        raise PyRaise("NameError")

    def assign_name(self, name, value):
        name = self.mangle(name)
        target = self.frames[-1]
        if name in self.nonlocals:
            for ref in reversed(self.frames[:-1]):
                if name in self.i.heap[ref.oid].vars:
                    target = ref
                    break
            else:
                raise Unsupported("nonlocal")
        if name in self.globals:
            raise Unsupported("global statement")
        cell = self.i.heap[target.oid]
        vars_ = dict(cell.vars)
        vars_[name] = value
        self.i.heap[target.oid] = FrameCell(vars_)

    # ------------------------------------------------------------ statements
    def block(self, stmts):
        for s in stmts:
            self.stmt(s)

    def stmt(self, node):
        method = getattr(self, "s_" + type(node).__name__, None)
        if method is None:
            raise Unsupported(f"statement {type(node).__name__} at line {node.lineno}")
        method(node)

    def s_Expr(self, node):
        if isinstance(node.value, ast.Constant):
            return
        self.eval(node.value)

    def s_Pass(self, node):
        pass

    def s_Import(self, node):
        for alias in node.names:
            if alias.asname:
                self.assign_name(alias.asname, self.i.module(alias.name))
            else:
                top = alias.name.split(".")[0]
                if top == "python_dice":
                    self.i.module(alias.name)
                self.assign_name(top, self.i.module(top))

    def s_ImportFrom(self, node):
        name = node.module or ""
        if node.level:
            parts = self.module.name.split(".")
            if not self.module.file.endswith("__init__.py"):
                parts = parts[:-1]
            parts = parts[: len(parts) - (node.level - 1)]
            name = ".".join(parts + ([name] if name else []))
        mod = self.i.module(name)
        for alias in node.names:
            if alias.name == "*":
                raise Unsupported("import *")
            self.assign_name(alias.asname or alias.name, self.i.module_attr(mod, alias.name))

    def s_FunctionDef(self, node):
        defaults = [self.eval(d) for d in node.args.defaults]
        kwdefaults = {
            a.arg: self.eval(d) for a, d in zip(node.args.kwonlyargs, node.args.kw_defaults) if d is not None
        }
        # a class body frame is not part of the closure of its methods
        frames = [f for f in self.frames if not isinstance(self.i.heap[f.oid].vars.get("__classbody__"), bool)]
        func = FuncVal(node, self.module, frames, self.cls, defaults=defaults, kwdefaults=kwdefaults)
        value = func
        for deco in reversed(node.decorator_list):
            value = self.decorate(deco, value)
        self.assign_name(node.name, value)

    def decorate(self, deco, func):
        if isinstance(deco, ast.Name) and deco.id == "staticmethod":
            return StaticMethod(func)
        if isinstance(deco, ast.Name) and deco.id == "classmethod":
            return ClassMethod(func)
        if isinstance(deco, ast.Name) and deco.id == "property":
            return PropertyVal(func)
        if isinstance(deco, ast.Name) and deco.id in ("abstractmethod", "final", "override"):
            return func
        value = self.eval(deco)
        if isinstance(value, ExtVal) and value.name in ("abc.abstractmethod", "typing.final", "typing.no_type_check"):
            return func
        return self.i.call(value, [func])

    def s_ClassDef(self, node):
        bases = []
        for b in node.bases:
            if isinstance(b, ast.Subscript):
                continue
            bases.append(self.eval(b))
        frame = self.i.alloc(FrameCell({"__classbody__": True}))
        env = Env(self.i, self.frames + [frame], self.module, node.name)
        env.block(node.body)
        attrs = dict(self.i.heap[frame.oid].vars)
        attrs.pop("__classbody__")
        for deco in node.decorator_list:
            raise Unsupported("class decorator")
        self.assign_name(node.name, ClassVal(node.name, bases, attrs, self.module.name))

    def s_Return(self, node):
        raise ReturnSig(self.passed(node.value) if node.value is not None else None)

    def s_Assign(self, node):
        value = self.passed(node.value) if isinstance(node.targets[0], ast.Name) else self.eval(node.value)
        for target in node.targets:
            self.assign(target, value)

    def s_AnnAssign(self, node):
        if node.value is not None:
            self.assign(node.target, self.eval(node.value))

    def s_AugAssign(self, node):
        target = node.target
        name = OPS.get(type(node.op))
        if name is None:
            raise Unsupported("augmented operator")
        if isinstance(target, ast.Name):
            old = self.lookup(target.id)
            self.assign_name(target.id, self.aug(name, old, self.eval(node.value)))
        elif isinstance(target, ast.Attribute):
            obj = self.eval(target.value)
            attr = self.mangle(target.attr)
            old = self.i.getattr(obj, attr)
            self.i.setattr(obj, attr, self.aug(name, old, self.eval(node.value)))
        elif isinstance(target, ast.Subscript):
            obj = self.eval(target.value)
            key = self.eval_index(target.slice)
            from models import getitem, setitem

            old = getitem(self.i, obj, key)
            setitem(self.i, obj, key, self.aug(name, old, self.eval(node.value)))
        else:
            raise Unsupported("augmented assignment")

    def aug(self, name, old, value):
        if isinstance(old, Ref) and not isinstance(self.i.cell(old), InstCell):
            from models import inplace

            return inplace(self.i, name, old, value)
        return self.i.binop(name, old, value)

    def assign(self, target, value):
        if isinstance(target, ast.Name):
            self.assign_name(target.id, value)
        elif isinstance(target, (ast.Tuple, ast.List)):
            from models import unpack

            if any(isinstance(t, ast.Starred) for t in target.elts):
                raise Unsupported("starred assignment")
            values = unpack(self.i, value, len(target.elts))
            for t, v in zip(target.elts, values):
                self.assign(t, v)
        elif isinstance(target, ast.Attribute):
            self.i.setattr(self.eval(target.value), self.mangle(target.attr), value)
        elif isinstance(target, ast.Subscript):
            from models import setitem

            obj = self.eval(target.value)
            setitem(self.i, obj, self.eval_index(target.slice), value)
        else:
            raise Unsupported("assignment target")

    def s_Delete(self, node):
        from models import delitem

        for target in node.targets:
            if isinstance(target, ast.Subscript):
                delitem(self.i, self.eval(target.value), self.eval_index(target.slice))
            elif isinstance(target, ast.Name):
                cell = self.i.heap[self.frames[-1].oid]
                vars_ = dict(cell.vars)
                vars_.pop(self.mangle(target.id), None)
                self.i.heap[self.frames[-1].oid] = FrameCell(vars_)
            else:
                raise Unsupported("del")

    def s_If(self, node):
        if self.i.branch(self.i.truth(self.eval(node.test))):
            self.block(node.body)
        else:
            self.block(node.orelse)

    def s_Break(self, node):
        raise BreakSig()

    def s_Continue(self, node):
        raise ContinueSig()

    def s_Nonlocal(self, node):
        pass

    def s_Global(self, node):
        pass

    def s_Assert(self, node):
        if not self.i.branch(self.i.truth(self.eval(node.test))):
            raise PyRaise("AssertionError")

    def s_Raise(self, node):
        if node.exc is None:
            raise Unsupported("bare raise")
        exc = node.exc
        if isinstance(exc, ast.Call):
            value = self.eval(exc.func)
            for arg in list(exc.args) + [k.value for k in exc.keywords]:
                self.eval(arg)  # building the message may fail itself
        else:
            value = self.eval(exc)
        if isinstance(value, Builtin):
            raise PyRaise(value.name)
        if isinstance(value, ExtVal):
            raise PyRaise(value.name.split(".")[-1])
        if isinstance(value, ClassVal):
            raise PyRaise(value.name)
        if isinstance(value, Opaque) and value.iface == "exception":
            raise PyRaise(value.data, value)
        raise Unsupported("raise")

    def s_Try(self, node):
        if node.finalbody:
            raise Unsupported("finally")
        from models import exception_matches

        try:
            self.block(node.body)
        except PyRaise as error:
            for handler in node.handlers:
                if handler.type is None:
                    match = True
                else:
                    types = handler.type.elts if isinstance(handler.type, ast.Tuple) else [handler.type]
                    match = any(exception_matches(error.name, self.eval(t)) for t in types)
                if match:
                    if handler.name:
                        value = error.value
                        if not (isinstance(value, Opaque) and value.iface in self.i.handlers):
                            value = Opaque("exception", z3.Const("exc", Thing), error.name)
                        self.assign_name(handler.name, value)
                    self.block(handler.body)
                    return
            raise
        self.block(node.orelse)

    def s_With(self, node):
        raise Unsupported("with")

    def s_For(self, node):
        from loops import for_loop

        iterable = self.eval(node.iter)

        def bind(elem):
            self.assign(node.target, elem)

        broke = for_loop(self.i, iterable, bind, lambda: self.block(node.body), label=f"{self.module.name}:{node.lineno}")
        if not broke:
            self.block(node.orelse)

    def counted(self, node):
        """a while loop that counts: (counter name, +1 or -1, bound, step past the bound)"""
        test = node.test
        if isinstance(test, ast.Name):
            return test.id, -1, ast.Constant(0, lineno=node.lineno, col_offset=0), 0
        if not isinstance(test, ast.Compare) or len(test.ops) != 1:
            return None
        left, op, right = test.left, type(test.ops[0]), test.comparators[0]

        def steps(name):
            """the changes of a name by one in the loop"""
            found = []
            for stmt in node.body:
                if isinstance(stmt, ast.AugAssign) and isinstance(stmt.target, ast.Name) and stmt.target.id == name:
                    if isinstance(stmt.value, ast.Constant) and stmt.value.value == 1:
                        found.append({ast.Add: 1, ast.Sub: -1}.get(type(stmt.op)))
                    else:
                        found.append(None)
                elif isinstance(stmt, ast.Assign) and len(stmt.targets) == 1 and isinstance(stmt.targets[0], ast.Name) and stmt.targets[0].id == name:
                    v = stmt.value
                    good = (
                        isinstance(v, ast.BinOp)
                        and isinstance(v.left, ast.Name)
                        and v.left.id == name
                        and isinstance(v.right, ast.Constant)
                        and v.right.value == 1
                    )
                    found.append({ast.Add: 1, ast.Sub: -1}.get(type(v.op)) if good else None)
            return found[0] if len(found) == 1 else None

        flip = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE, ast.NotEq: ast.NotEq}
        if not (isinstance(left, ast.Name) and steps(left.id)):
            left, op, right = right, flip.get(op), left
        if not isinstance(left, ast.Name):
            return None
        step = steps(left.id)
        want = {1: {ast.Lt: 0, ast.LtE: 1, ast.NotEq: 0}, -1: {ast.Gt: 0, ast.GtE: 1, ast.NotEq: 0}}
        if step is None or op not in want[step]:
            return None
        return left.id, step, right, want[step][op]

    def counted_while(self, node):
        """a counting while loop as a loop over a range.  The number of rounds is a guess that
        is validated: the test holds at the start of every round, the counter has moved by
        one at its end, and the test fails after the last one.  False: not such a loop"""
        from loops import for_loop
        from models import b_range

        if node.orelse:
            return False
        guess = self.counted(node)
        if guess is None:
            return False
        name, step, bound, past = guess
        for sub in ast.walk(node.test):
            if isinstance(sub, ast.Call) and not (isinstance(sub.func, ast.Name) and sub.func.id == "len"):
                return False
        try:
            start = self.lookup(name)
        except Unsupported:
            return False
        end = self.eval(bound)
        if not (is_num(start) and is_num(end)) or is_real(start) or is_real(end):
            return False
        i = self.i
        if not is_z3(start) and not is_z3(end):
            return False
        start_, end_ = as_int(start), as_int(end)
        span = (end_ - start_ if step == 1 else start_ - end_) + past
        label = f"{self.module.name}:{node.lineno}"
        target = ast.Name(id=name, ctx=ast.Store())
        seen = [None]

        def valid(cond):
            if isinstance(cond, bool):
                return cond
            return i.prover.infeasible(list(i.prover.axioms) + i.all_facts() + [z3.Not(cond)])

        def bind(elem):
            value = elem if step == 1 else start_ - elem
            seen[0] = as_int(value)
            self.assign(target, value)

        def done():
            now = self.lookup(name)
            if not is_num(now) or not valid(as_int(now) == seen[0] + step):
                raise Unsupported(f"while loop at {label} without invariant")
            self.assign(target, start)

        def body():
            if not valid(i.truth(self.eval(node.test))):
                raise Unsupported(f"while loop at {label} without invariant")
            try:
                self.block(node.body)
            except ContinueSig:
                done()
                raise
            except BreakSig:
                raise Unsupported(f"break in the counting loop at {label}")
            done()

        rounds = b_range(i, [start_, end_ + past] if step == 1 else [z3.IntVal(0), span], {})
        for_loop(i, rounds, bind, body, label=label)
        final = end_ + past if step == 1 else end_ - past
        self.assign(target, z3.simplify(z3.If(span > 0, final, start_)))
        if not valid(i.negate(i.truth(self.eval(node.test)))):
            raise Unsupported(f"while loop at {label} without invariant")
        return True

    def s_While(self, node):
        from loops import while_loop

        while_loop(self.i, lambda: self.i.truth(self.eval(node.test)), lambda: self.block(node.body), label=f"{self.module.name}:{node.lineno}", other=lambda: self.counted_while(node))
        if node.orelse:
            raise Unsupported("while else")

    # ------------------------------------------------------------ expressions
    def eval(self, node):
        method = getattr(self, "e_" + type(node).__name__, None)
        if method is None:
            raise Unsupported(f"expression {type(node).__name__} at line {node.lineno}")
        return method(node)

    def eval_index(self, node):
        if isinstance(node, ast.Slice):
            return slice(
                None if node.lower is None else self.eval(node.lower),
                None if node.upper is None else self.eval(node.upper),
                None if node.step is None else self.eval(node.step),
            )
        return self.eval(node)

    def e_Constant(self, node):
        if isinstance(node.value, (bytes, complex)) or node.value is Ellipsis:
            raise Unsupported("constant")
        return node.value

    def e_Name(self, node):
        return self.i.use(self.lookup(node.id))

    def e_Attribute(self, node):
        return self.i.use(self.i.getattr(self.eval(node.value), self.mangle(node.attr)))

    def passed(self, node):
        """evaluate something that is only handed on"""
        if isinstance(node, ast.Name):
            return self.lookup(node.id)
        return self.eval(node)

    def e_Yield(self, node):
        from models import list_append

        if not self.is_generator:
            raise Unsupported("yield")
        list_append(self.i, self.yields, self.eval(node.value) if node.value is not None else None)
        return None

    def e_YieldFrom(self, node):
        if not self.is_generator:
            raise Unsupported("yield")
        self.i.call(self.i.getattr(self.yields, "extend"), [self.eval(node.value)])
        return None

    def e_Subscript(self, node):
        from models import getitem

        return getitem(self.i, self.eval(node.value), self.eval_index(node.slice))

    def e_Call(self, node):
        if isinstance(node.func, ast.Name) and node.func.id == "super" and not node.args:
            self_value = None
            for ref in reversed(self.frames):
                vars_ = self.i.heap[ref.oid].vars
                if "self" in vars_:
                    self_value = vars_["self"]
                    break
            for c in self.i.cell(self_value).cls.mro():
                if isinstance(c, ClassVal) and c.name == self.cls:
                    return SuperVal(c, self_value)
            raise Unsupported("super")
        func = self.eval(node.func)
        own = isinstance(func, (FuncVal, ClassVal)) or isinstance(func, BoundMethod) and isinstance(func.func, FuncVal)
        read = self.passed if own else self.eval
        args = []
        for a in node.args:
            if isinstance(a, ast.Starred):
                value = self.eval(a.value)
                from models import star

                args.extend(star(self.i, value))
            else:
                args.append(read(a))
        kwargs = {}
        for k in node.keywords:
            if k.arg is None:
                raise Unsupported("**")
            kwargs[k.arg] = read(k.value)
        return self.i.call(func, args, kwargs)

    def e_BinOp(self, node):
        name = OPS.get(type(node.op))
        if name is None:
            raise Unsupported("operator")
        left = self.eval(node.left)
        return self.i.binop(name, left, self.eval(node.right))

    def e_UnaryOp(self, node):
        value = self.eval(node.operand)
        if isinstance(node.op, ast.Not):
            return self.i.negate(self.i.truth(value))
        if isinstance(node.op, ast.USub):
            if is_num(value):
                if not is_z3(value):
                    return -value
                return -as_int(value) if not is_real(value) else -value
            raise Unsupported("unary minus")
        if isinstance(node.op, ast.UAdd) and is_num(value):
            return value
        raise Unsupported("unary operator")

    def e_BoolOp(self, node):
        is_and = isinstance(node.op, ast.And)
        value = None
        for index, sub in enumerate(node.values):
            value = self.eval(sub)
            if index == len(node.values) - 1:
                return value
            t = self.i.branch(self.i.truth(value))
            if is_and and not t:
                return value if not is_z3(value) or not is_bool(value) else False
            if not is_and and t:
                return value if not is_z3(value) or not is_bool(value) else True
        return value

    def e_Compare(self, node):
        left = self.eval(node.left)
        result = True
        for op, right_node in zip(node.ops, node.comparators):
            right = self.eval(right_node)
            value = self.compare_op(op, left, right)
            if len(node.ops) == 1:
                return value
            if not self.i.branch(self.i.truth(value)):
                return False
            result = value
            left = right
        return result

    def compare_op(self, op, a, b):
        from models import contains

        if isinstance(op, ast.Is):
            return self.i.identical(a, b)
        if isinstance(op, ast.IsNot):
            return self.i.negate(self.i.identical(a, b))
        if isinstance(op, ast.In):
            return contains(self.i, b, a)
        if isinstance(op, ast.NotIn):
            return self.i.negate(contains(self.i, b, a))
        return self.i.compare(CMP[type(op)], a, b)

    def e_IfExp(self, node):
        if self.i.branch(self.i.truth(self.eval(node.test))):
            return self.eval(node.body)
        return self.eval(node.orelse)

    def e_NamedExpr(self, node):
        value = self.eval(node.value)
        self.assign(node.target, value)
        return value

    def e_Tuple(self, node):
        return tuple(self.elements(node.elts))

    def elements(self, elts):
        out = []
        for e in elts:
            if isinstance(e, ast.Starred):
                from models import star

                out.extend(star(self.i, self.eval(e.value)))
            else:
                out.append(self.eval(e))
        return out

    def display(self, kind, elts):
        """a list or set display with starred parts, element by element and part by part"""
        from models import BUILTINS

        ref = self.i.call(BUILTINS[kind], [])
        one, many = {"list": ("append", "extend"), "set": ("add", "update")}[kind]
        for e in elts:
            starred = isinstance(e, ast.Starred)
            self.i.call(self.i.getattr(ref, many if starred else one), [self.eval(e.value if starred else e)])
        return ref

    def e_List(self, node):
        if any(isinstance(e, ast.Starred) for e in node.elts):
            return self.display("list", node.elts)
        return self.i.alloc(ListCell([("c", tuple(self.elements(node.elts)))]))

    def e_Set(self, node):
        from models import make_set

        if any(isinstance(e, ast.Starred) for e in node.elts):
            return self.display("set", node.elts)
        return make_set(self.i, self.elements(node.elts))

    def e_Dict(self, node):
        from models import setitem

        ref = self.i.alloc(ConcMap({}))
        for k, v in zip(node.keys, node.values):
            if k is None:
                from models import dict_update

                dict_update(self.i, ref, self.eval(v))
                continue
            key = self.eval(k)
            setitem(self.i, ref, key, self.eval(v))
        return ref

    def e_Lambda(self, node):
        defaults = [self.eval(d) for d in node.args.defaults]
        frames = [f for f in self.frames if not isinstance(self.i.heap[f.oid].vars.get("__classbody__"), bool)]
        return FuncVal(node, self.module, frames, self.cls, name="<lambda>", defaults=defaults)

    def e_JoinedStr(self, node):
        from strings import concat, to_str

        parts = []
        for v in node.values:
            if isinstance(v, ast.Constant):
                parts.append(v.value)
            else:
                if v.format_spec is not None or v.conversion not in (-1, 115):
                    raise Unsupported("format")
                parts.append(to_str(self.i, self.eval(v.value)))
        return concat(parts)

    def comprehension(self, node, emit):
        from loops import for_loop

        frame = self.i.alloc(FrameCell({}))
        env = Env(self.i, self.frames + [frame], self.module, self.cls)

        def level(index, outer):
            if index == len(node.generators):
                emit(env)
                return
            gen = node.generators[index]
            if gen.is_async:
                raise Unsupported("async")
            iterable = (self if index == 0 else env).eval(gen.iter)

            def body():
                for cond in gen.ifs:
                    if not self.i.branch(self.i.truth(env.eval(cond))):
                        return
                level(index + 1, env)

            for_loop(self.i, iterable, lambda e: env.assign(gen.target, e), body, label=f"{self.module.name}:{node.lineno}")

        level(0, self)

    def e_ListComp(self, node):
        from models import list_append

        ref = self.i.alloc(ListCell([]))
        self.comprehension(node, lambda env: list_append(self.i, ref, env.eval(node.elt)))
        return ref

    def e_GeneratorExp(self, node):
        ref = self.e_ListComp(node)
        self.i.one_shot(ref)
        return ref

    def e_SetComp(self, node):
        from models import set_add

        ref = self.i.alloc(ConcSet(()))
        self.comprehension(node, lambda env: set_add(self.i, ref, env.eval(node.elt)))
        return ref

    def e_DictComp(self, node):
        from models import setitem

        ref = self.i.alloc(ConcMap({}))

        def emit(env):
            key = env.eval(node.key)
            setitem(self.i, ref, key, env.eval(node.value))

        self.comprehension(node, emit)
        return ref


def walk_scope(node):
    """nodes of a function body, not entering nested functions"""
    stack = list(node.body)
    while stack:
        n = stack.pop()
        yield n
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        stack.extend(ast.iter_child_nodes(n))
