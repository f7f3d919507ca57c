"""Structured strings: concatenations of literals and symbolic pieces.

atoms: str                  literal text
       ("num", n)           a run of decimal digits with value n >= 0 (any leading zeros)
       ("int", n)           str(n)
       ("ws", w)            a possibly empty run of white space
       ("name", t)          a variable name: letters and '_' only (no digits)
       ("dtype", t)         text of a dice type: digits % F [ ] , - * white space
       ("join", sep, l)     sep.join(str(x) for x in l)
       ("text", t)          unknown text t (sort Thing)
       ("setof", key)       repr of a set (equal texts imply equal sets)
       ("entry", E, i)      i-th entry of a bracketed list, shape decided on demand
       ("entries", E, blanks)  all entries joined by commas"""
import re

import z3

from values import *  # noqa: F401,F403

try:
    import re._parser as sre_parse
    import re._constants as sre
except ImportError:  # pragma: no cover
    import sre_parse
    import sre_constants as sre

NAME_LITS = {}
SHAPES = {}


class SStr:
    def __init__(self, atoms):
        out = []
        for a in atoms:
            if isinstance(a, str):
                if not a:
                    continue
                if out and isinstance(out[-1], str):
                    out[-1] += a
                    continue
            out.append(a)
        self.atoms = tuple(out)

    def __repr__(self):
        return f"SStr{self.atoms!r}"

    def terms(self):
        out = []
        for a in self.atoms:
            if not isinstance(a, str):
                out.extend(t for t in a[1:] if is_z3(t))
        return out

    def shape(self):
        out = []
        for a in self.atoms:
            if isinstance(a, str):
                out.append(a)
            elif a[0] in ("entry", "entries", "ws"):
                raise Unsupported("text used as a key")
            else:
                out.append(tuple(x if not is_z3(x) else str(x.sort()) for x in a))
        return tuple(out)

    def same(self, other):
        return len(self.atoms) == len(other.atoms) and all(
            (a == b if isinstance(a, str) or isinstance(b, str) else same_atom(a, b)) for a, b in zip(self.atoms, other.atoms)
        )

    def encode(self, interp):
        shape = self.shape()
        terms = self.terms()
        if len(terms) == 1:
            SHAPES[shape] = self.atoms
            return ("str", shape), terms[0]
        if not terms:
            raise Unsupported("literal text")
        if not injective_shape(self.atoms):
            raise Unsupported("text key that does not determine its parts")
        SHAPES[shape] = self.atoms
        d = tuple_sort([t.sort() for t in terms])
        return ("str", shape), d.constructor(0)(*terms)

    def subst(self, interp, pairs):
        return SStr([a if isinstance(a, str) else tuple(z3.substitute(x, *pairs) if is_z3(x) else x for x in a) for a in self.atoms])

    def mapped(self, fn):
        out = []
        for a in self.atoms:
            if isinstance(a, str):
                out.append(a)
            else:
                parts = []
                for x in a:
                    if is_z3(x):
                        x = fn(x)
                        if x is None:
                            return None
                    parts.append(x)
                out.append(tuple(parts))
        return SStr(out)

    def equals(self, interp, other):
        if isinstance(other, str):
            other = SStr([other])
        if not isinstance(other, SStr):
            return False
        return equal_str(interp, self, other)


def same_atom(a, b):
    if len(a) != len(b):
        return False
    for x, y in zip(a, b):
        if is_z3(x) and is_z3(y):
            if not x.eq(y):
                return False
        elif is_z3(x) or is_z3(y):
            return False
        elif x is not y and x != y:
            return False
    return True


TUPLES = {}


def tuple_sort(sorts):
    key = tuple(str(s) for s in sorts)
    if key not in TUPLES:
        d = z3.Datatype("Text_" + "_".join(key))
        d.declare("mk", *[(f"f{i}_" + "_".join(key), s) for i, s in enumerate(sorts)])
        TUPLES[key] = d.create()
    return TUPLES[key]


def sort_of_str(kind):
    atoms = SHAPES[kind[1]]
    terms = SStr(atoms).terms()
    if len(terms) == 1:
        return terms[0].sort()
    return tuple_sort([t.sort() for t in terms])


def decode_str(kind, term):
    atoms = SHAPES[kind[1]]
    terms = SStr(atoms).terms()
    if len(terms) == 1:
        values = [term]
    else:
        d = tuple_sort([t.sort() for t in terms])
        values = [z3.simplify(d.accessor(0, j)(term)) for j in range(len(terms))]
    out = []
    n = 0
    for a in atoms:
        if isinstance(a, str):
            out.append(a)
            continue
        parts = []
        for x in a:
            if is_z3(x):
                parts.append(values[n])
                n += 1
            else:
                parts.append(x)
        out.append(tuple(parts))
    return SStr(out)


def injective_shape(atoms):
    """does the text determine the pieces?  name/text pieces separated so that
    digits delimit them"""
    kinds = [a if isinstance(a, str) else a[0] for a in atoms]
    symbolic = [a for a in atoms if not isinstance(a, str)]
    if len(symbolic) <= 1:
        return True
    # name LITERAL? int : names and the literal have no digits
    if len(symbolic) == 2 and symbolic[0][0] == "name" and symbolic[1][0] in ("int", "num"):
        lits = [a for a in atoms if isinstance(a, str)]
        return all(not any(ch.isdigit() for ch in lit) for lit in lits) and kinds[-1] in ("int", "num") and nonneg(symbolic[1])
    # name ... setof: the literal before the set contains a character no name has
    if len(symbolic) == 2 and symbolic[1][0] == "setof" and symbolic[0][0] == "name":
        index = [j for j, a in enumerate(atoms) if not isinstance(a, str)]
        between = atoms[index[0] + 1 : index[1]]
        return any(isinstance(b, str) and ("=" in b or "," in b) for b in between)
    return False


def nonneg(atom):
    return atom[0] in ("num", "int")  # counters; a '-' would also separate


def lit_name(interp, text):
    """Name constant of a literal"""
    table = interp.name_literals
    if text not in table:
        c = z3.Const(f"lit:{text}", Name)
        for other in table.values():
            interp.prover.axioms.append(c != other)
        table[text] = c
    return table[text]


def equal_str(interp, a, b):
    a, b = resolve(interp, a), resolve(interp, b)
    if a.same(b):
        return True
    # name against literal
    if len(a.atoms) == 1 and len(b.atoms) == 1:
        for x, y in ((a.atoms[0], b.atoms[0]), (b.atoms[0], a.atoms[0])):
            if isinstance(x, tuple) and x[0] == "name" and isinstance(y, str):
                if re.fullmatch(r"[A-Za-z_]+", y):
                    return x[1] == lit_name(interp, y)
                return False
            if isinstance(x, tuple) and x[0] == "dtype" and isinstance(y, str):
                if not re.fullmatch(r"[0-9%F\[\],\-*\s]+", y):
                    return False
                raise Unsupported("comparison of a dice type text")
            if isinstance(x, tuple) and x[0] == "int" and isinstance(y, str):
                if re.fullmatch(r"0|-?[1-9][0-9]*", y):
                    return x[1] == int(y)
                return False
            if isinstance(x, tuple) and x[0] == "text":
                if isinstance(y, str):
                    return x[1] == text_key(interp, y)
                if isinstance(y, tuple) and y[0] == "text":
                    return x[1] == y[1]
    if not b.atoms or not a.atoms:
        s = a if a.atoms else b
        parts = []
        for x in s.atoms:
            if isinstance(x, str) or x[0] in ("num", "int", "name", "dtype", "setof"):
                return False
            if x[0] == "join":
                from models import NIL

                parts.append(x[2] == NIL)
            else:
                raise Unsupported("comparison with empty text")
        return z3.And(*parts) if len(parts) != 1 else parts[0]
    def shape_of(x):
        try:
            return x.shape()
        except Unsupported:
            return None

    if shape_of(a) is not None and shape_of(a) == shape_of(b) and injective_shape(a.atoms):
        parts = []
        inexact = False
        for x, y in zip(a.atoms, b.atoms):
            if isinstance(x, str):
                continue
            if x[0] == "setof":
                inexact = True
                parts.append(x[1] == y[1])
                continue
            for s, t in zip(x[1:], y[1:]):
                if is_z3(s):
                    parts.append(s == t)
        eq = z3.And(*parts) if len(parts) != 1 else parts[0]
        if inexact:
            # equal texts imply equal parts; equal sets may print differently
            f = text_key(interp, a) == text_key(interp, b)
            interp.assume(z3.Implies(f, eq))
            return f
        return eq
    # texts with different literal starts differ
    if isinstance(a.atoms[0], str) and isinstance(b.atoms[0], str):
        x, y = a.atoms[0], b.atoms[0]
        n = min(len(x), len(y))
        if x[:n] != y[:n]:
            return False
        if a.atoms[1:] == () and len(x) < len(y):
            return False
        if b.atoms[1:] == () and len(y) < len(x):
            return False
    # literal against digits / sign
    for s, t in ((a, b), (b, a)):
        if len(t.atoms) == 1 and isinstance(t.atoms[0], str):
            if cannot_equal(s, t.atoms[0]):
                return False
    raise Unsupported("comparison of texts")


def cannot_equal(s, lit):
    """is the structured text certainly different from the literal?"""
    first = s.atoms[0]
    if not isinstance(first, str):
        if first[0] == "num" and (not lit or not lit[0].isdigit()):
            return True
        if first[0] == "name" and (not lit or not re.match(r"[A-Za-z_]", lit)):
            return True
    else:
        if not lit.startswith(first):
            return True
    last = s.atoms[-1]
    if not isinstance(last, str):
        if last[0] == "num" and (not lit or not lit[-1].isdigit()):
            return True
    elif not lit.endswith(last):
        return True
    return False


TEXTS = {}


def text_key(interp, s):
    """sort Thing: equal texts have equal keys"""
    if isinstance(s, str):
        if s not in TEXTS:
            TEXTS[s] = z3.Const(f"text:{s}", Thing)
        return TEXTS[s]
    if len(s.atoms) == 1 and not isinstance(s.atoms[0], str) and s.atoms[0][0] == "text":
        return s.atoms[0][1]
    if not s.terms():
        return text_key(interp, "".join(s.atoms))
    shape = s.shape()
    terms = s.terms()
    f = z3.Function("text" + repr(shape), *[t.sort() for t in terms], Thing)
    return f(*terms)


def concat(parts):
    atoms = []
    for p in parts:
        if isinstance(p, str):
            atoms.append(p)
        elif isinstance(p, SStr):
            atoms.extend(p.atoms)
        else:
            raise Unsupported("concatenation")
    s = SStr(atoms)
    if not s.atoms:
        return ""
    if len(s.atoms) == 1 and isinstance(s.atoms[0], str):
        return s.atoms[0]
    return s


SETTEXT = {}


def to_str(interp, value):
    if isinstance(value, str) or isinstance(value, SStr):
        return value
    if value is None:
        return "None"
    if isinstance(value, bool) or (isinstance(value, int) and not is_z3(value)):
        return str(value)
    if is_int(value):
        return SStr([("int", value)])
    if isinstance(value, Opaque):
        table = interp.handlers.get(value.iface, {})
        if "__str__" in table:
            return table["__str__"](interp, value, [], {})
        f = z3.Function(f"str_{value.term.sort()}", value.term.sort(), Thing)
        return SStr([("text", f(value.term))])
    if isinstance(value, Ref):
        cell = interp.cell(value)
        if isinstance(cell, InstCell):
            for name in ("__str__", "__repr__"):
                m = interp.class_attr(cell.cls, name)
                if m is not None:
                    return interp.call(m, [value])
        if isinstance(cell, (SymSet, ConcSet)):
            from models import is_inst, set_to_sym, segments

            if isinstance(cell, ConcSet) and (not cell.items or all(is_inst(interp, v) for v in cell.items)):
                if not cell.items:
                    return "set()"
                parts = ["{"]
                for k, v in enumerate(v for seg in segments(interp, value) for v in seg[1]):
                    m = interp.class_attr(interp.cell(v).cls, "__repr__")
                    parts += [", "] if k else []
                    parts.append(interp.call(m, [v]) if m is not None else to_str(interp, v))
                return concat(parts + ["}"])
            s = set_to_sym(interp, cell)
            if s.kkind is None:
                return "set()"
            sort = interp.sort_of(s.kkind)
            x = interp.prover.fresh("x", sort)
            dom = s.dom(x)
            # the set as an SMT array
            # and the order in which this very set prints its members
            hit = SETTEXT.get(id(cell))
            if hit is None:
                arr = interp.prover.fresh("setv", z3.ArraySort(sort, z3.BoolSort()))
                hit = SETTEXT[id(cell)] = (cell, arr, interp.prover.fresh("print_order", Thing))
            _, arr, order = hit
            interp.assume(z3.ForAll([x], z3.Select(arr, x) == dom))
            return SStr([("setof", arr, order)])
    if isinstance(value, (ClassVal, ExtVal, FuncVal, Builtin, float)) or is_real(value) or isinstance(value, (tuple, ModuleVal)):
        return SStr([("text", interp.prover.fresh("text", Thing))])
    if isinstance(value, (ViewVal, RangeVal)) or isinstance(value, Ref):
        return SStr([("text", interp.prover.fresh("text", Thing))])
    raise Unsupported(f"str of {value!r}")


# ------------------------------------------------------------------ bracketed entries
class Entries:
    """entries 0..n-1 of a bracketed list: value or range, signs, multiplier"""

    def __init__(self, n, name="E"):
        I, B = z3.IntSort(), z3.BoolSort()
        self.n = n
        self.a = z3.Function(f"{name}_a", I, I)
        self.b = z3.Function(f"{name}_b", I, I)
        self.m = z3.Function(f"{name}_m", I, I)
        self.neg1 = z3.Function(f"{name}_neg1", I, B)
        self.neg2 = z3.Function(f"{name}_neg2", I, B)
        self.isrange = z3.Function(f"{name}_range", I, B)
        self.hasmult = z3.Function(f"{name}_mult", I, B)
        self.trailing = z3.Const(f"{name}_trailing", B)

    def facts(self):
        i = z3.Int("i")
        return [
            self.n >= 1,
            z3.ForAll([i], self.a(i) >= 0),
            z3.ForAll([i], self.b(i) >= 0),
            z3.ForAll([i], self.m(i) >= 0),
        ]

    def low(self, i):
        return z3.If(self.neg1(i), -self.a(i), self.a(i))

    def high(self, i):
        return z3.If(self.isrange(i), z3.If(self.neg2(i), -self.b(i), self.b(i)), self.low(i))

    def weight(self, i):
        return z3.If(self.hasmult(i), self.m(i), z3.IntVal(1))


def resolve(interp, s):
    """decide the shape of entries (forks)"""
    if not any(not isinstance(a, str) and a[0] == "entry" for a in s.atoms):
        return s
    out = []
    for a in s.atoms:
        if isinstance(a, str) or a[0] != "entry":
            out.append(a)
            continue
        _, e, i = a
        interp.assume(e.a(i) >= 0)
        interp.assume(e.b(i) >= 0)
        interp.assume(e.m(i) >= 0)
        if interp.branch(e.neg1(i)):
            out.append("-")
        out.append(("num", e.a(i)))
        if interp.branch(e.isrange(i)):
            out.append("-")
            if interp.branch(e.neg2(i)):
                out.append("-")
            out.append(("num", e.b(i)))
        if interp.branch(e.hasmult(i)):
            out.append("*")
            out.append(("num", e.m(i)))
    return SStr(out)


def parse_int(interp, s):
    s = resolve(interp, s)
    atoms = [a for a in s.atoms]
    while atoms and not isinstance(atoms[0], str) and atoms[0][0] == "ws":
        atoms = atoms[1:]
    while atoms and not isinstance(atoms[-1], str) and atoms[-1][0] == "ws":
        atoms = atoms[:-1]
    if len(atoms) == 1 and not isinstance(atoms[0], str) and atoms[0][0] in ("num", "int"):
        return atoms[0][1]
    if len(atoms) == 2 and atoms[0] in ("-", "+") and not isinstance(atoms[1], str) and atoms[1][0] == "num":
        return -atoms[1][1] if atoms[0] == "-" else atoms[1][1]
    if not atoms:
        raise PyRaise("ValueError")
    if any(not isinstance(a, str) and a[0] in ("name", "dtype", "text", "join", "entries", "setof") for a in atoms):
        raise Unsupported("int of text")
    # digits with anything else between them is not a number
    text = "".join(a if isinstance(a, str) else "1" if a[0] in ("num", "int") else " " for a in atoms)
    try:
        int(text)
    except ValueError as e:
        raise PyRaise("ValueError") from e
    raise Unsupported("int of text")


# ------------------------------------------------------------------ regular expressions
DIGITS = "0123456789"
ALPHA = sorted(set(DIGITS + "-*,[]%Fdk \t+_.=abz|"))


class Nfa:
    def __init__(self, pattern):
        self.eps = {}
        self.step = {}
        self.n = 0
        tree = sre_parse.parse(pattern)
        start = self.new()
        self.start = start
        self.accept = self.build(list(tree), start)

    def new(self):
        self.n += 1
        self.eps[self.n] = set()
        self.step[self.n] = []
        return self.n

    def build(self, items, s):
        for op, arg in items:
            s = self.one(op, arg, s)
        return s

    def chars(self, test, s):
        t = self.new()
        self.step[s].append((test, t))
        return t

    def one(self, op, arg, s):
        if op is sre.LITERAL:
            return self.chars({chr(arg)}, s)
        if op is sre.NOT_LITERAL:
            return self.chars(set(ALPHA) - {chr(arg)}, s)
        if op is sre.ANY:
            return self.chars(set(ALPHA), s)
        if op is sre.IN:
            return self.chars(charset(arg), s)
        if op is sre.SUBPATTERN:
            return self.build(list(arg[-1]), s)
        if op is sre.BRANCH:
            t = self.new()
            for alt in arg[1]:
                a = self.new()
                self.eps[s].add(a)
                self.eps[self.build(list(alt), a)].add(t)
            return t
        if op in (sre.MAX_REPEAT, sre.MIN_REPEAT):
            lo, hi, sub = arg
            for _ in range(lo):
                s = self.build(list(sub), s)
            if hi is sre.MAXREPEAT:
                a = self.new()
                self.eps[s].add(a)
                b = self.build(list(sub), a)
                t = self.new()
                self.eps[b].add(a)
                self.eps[a].add(t)
                return t
            t = self.new()
            self.eps[s].add(t)
            for _ in range(hi - lo):
                s = self.build(list(sub), s)
                self.eps[s].add(t)
            return t
        if op is sre.AT and arg is sre.AT_BEGINNING_STRING or op is sre.AT and arg is sre.AT_BEGINNING:
            return s  # used at the start only (checked by the caller's pattern)
        if op is sre.AT and arg in (sre.AT_END, sre.AT_END_STRING):
            t = self.new()
            self.step[s].append(("END", t))
            return t
        raise Unsupported(f"regular expression {op}")

    def closure(self, states):
        out, todo = set(states), list(states)
        while todo:
            for t in self.eps[todo.pop()]:
                if t not in out:
                    out.add(t)
                    todo.append(t)
        return frozenset(out)

    def move(self, states, ch):
        return self.closure({t for s in states for test, t in self.step[s] if test != "END" and ch in test})

    def end(self, states):
        states = set(self.closure(states))
        while True:
            more = self.closure({t for s in states for test, t in self.step[s] if test == "END"})
            if more <= states:
                return frozenset(states)
            states |= more


def charset(arg):
    out = set()
    negate = False
    for op, a in arg:
        if op is sre.NEGATE:
            negate = True
        elif op is sre.LITERAL:
            out.add(chr(a))
        elif op is sre.RANGE:
            out |= {c for c in ALPHA if a[0] <= ord(c) <= a[1]}
        elif op is sre.CATEGORY:
            out |= {
                sre.CATEGORY_DIGIT: set(DIGITS),
                sre.CATEGORY_SPACE: {" ", "\t"},
                sre.CATEGORY_NOT_DIGIT: set(ALPHA) - set(DIGITS),
                sre.CATEGORY_NOT_SPACE: set(ALPHA) - {" ", "\t"},
                sre.CATEGORY_WORD: {c for c in ALPHA if c.isalnum() or c == "_"},
                sre.CATEGORY_NOT_WORD: {c for c in ALPHA if not (c.isalnum() or c == "_")},
            }[a]
        else:
            raise Unsupported("character class")
    return (set(ALPHA) - out) if negate else out


def regex_decide(interp, pattern, s, mode):
    """does the regular expression match every / no text of this structure?"""
    if isinstance(s, str):
        fn = {"match": re.match, "fullmatch": re.fullmatch, "search": re.search}[mode]
        return fn(pattern, s) is not None
    s = resolve(interp, s)
    nfa = Nfa(pattern)
    if mode == "search" and not pattern.startswith("^"):
        loop = True
    else:
        loop = False
    start = nfa.closure({nfa.start})
    # possible (state set, accepted a prefix) pairs
    current = {(start, nfa.accept in start)}

    def advance(pairs, chars):
        out = set()
        for states, acc in pairs:
            for ch in chars:
                nxt = nfa.move(states, ch)
                if loop:
                    nxt = nfa.closure(set(nxt) | {nfa.start})
                out.add((nxt, acc or nfa.accept in nxt))
        return out

    for atom in s.atoms:
        if isinstance(atom, str):
            for ch in atom:
                if ch not in ALPHA:
                    raise Unsupported("character outside the alphabet")
                current = advance(current, [ch])
        elif atom[0] in ("num", "ws"):
            chars = DIGITS if atom[0] == "num" else " \t"
            reach = advance(current, chars) if atom[0] == "num" else set(current)
            while True:
                more = advance(reach, chars) | reach
                if more == reach:
                    break
                reach = more
            current = reach
        elif atom[0] == "entries":
            # (digits - * , white space) in any order is an over-approximation
            chars = DIGITS + "-*, "
            reach = advance(current, DIGITS + "- ")
            while True:
                more = advance(reach, chars) | reach
                if more == reach:
                    break
                reach = more
            current = reach
        else:
            raise Unsupported("regular expression on unknown text")
    answers = set()
    for states, acc in current:
        final = nfa.end(states)
        if mode == "fullmatch":
            answers.add(nfa.accept in final)
        else:
            answers.add(acc or nfa.accept in final)
    if len(answers) != 1:
        raise Unsupported("regular expression not decided by the structure of the text")
    return answers.pop()


def single_chars(pattern):
    """set of characters if the pattern matches runs of single characters"""
    tree = list(sre_parse.parse(pattern))

    def go(items):
        if len(items) != 1:
            return None
        op, arg = items[0]
        if op is sre.LITERAL:
            return {chr(arg)}
        if op is sre.IN:
            return charset(arg)
        if op is sre.SUBPATTERN:
            return go(list(arg[-1]))
        if op is sre.BRANCH:
            out = set()
            for alt in arg[1]:
                sub = go(list(alt))
                if sub is None:
                    return None
                out |= sub
            return out
        if op in (sre.MAX_REPEAT,) and arg[0] == 1:
            return go(list(arg[2]))
        return None

    return go(tree)


def is_plus(pattern):
    return pattern.endswith("+")


def remove_chars(interp, s, chars):
    out = []
    for a in s.atoms:
        if isinstance(a, str):
            out.append("".join(c for c in a if c not in chars))
        elif a[0] == "num":
            if chars & set(DIGITS):
                raise Unsupported("digits removed")
            out.append(a)
        elif a[0] == "ws":
            if {" ", "\t"} <= chars:
                continue
            if chars & {" ", "\t"}:
                raise Unsupported("some white space removed")
            out.append(a)
        elif a[0] == "entries":
            if chars & set(DIGITS + "-*,"):
                raise Unsupported("entry text removed")
            if {" ", "\t"} <= chars:
                out.append(("entries", a[1], False))
            elif chars & {" ", "\t"}:
                raise Unsupported("some white space removed")
            else:
                out.append(a)
        elif a[0] == "entry":
            if chars & set(DIGITS + "-*"):
                raise Unsupported("entry text removed")
            out.append(a)
        else:
            raise Unsupported("removal from unknown text")
    s = SStr(out)
    return concat([s])


def may_contain(atom, ch):
    kind = atom[0]
    if kind in ("num",):
        return ch in DIGITS
    if kind == "int":
        return ch in DIGITS + "-"
    if kind == "ws":
        return ch.isspace()
    if kind == "name":
        return ch.isalpha() or ch == "_"
    if kind == "dtype":
        return ch in DIGITS + "%F[],-* \t"
    if kind == "entry":
        return ch in DIGITS + "-*"
    return True


def split_atoms(interp, s, chars, maxsplit=-1):
    """split at every occurrence of one of the characters; list of strings or Ref"""
    if isinstance(s, str):
        s = SStr([s])
    if any(not isinstance(a, str) and a[0] == "entry" for a in s.atoms) and chars & set("-*"):
        s = resolve(interp, s)
    if len(s.atoms) == 1 and not isinstance(s.atoms[0], str) and s.atoms[0][0] == "join" and chars == {s.atoms[0][1]}:
        # integers joined by the separator: their texts (one empty text for none)
        from models import NIL, seg_of_l

        l = s.atoms[0][2]
        if interp.branch(l == NIL):
            return interp.alloc(ListCell([("c", ("",))]))
        seg = seg_of_l(interp, l)
        return interp.alloc(ListCell([("e", Seg(seg.vars, seg.mem, SStr([("int", seg.elem)]), seg.order, seg.ident))]))
    if any(not isinstance(a, str) and a[0] == "entries" for a in s.atoms):
        if chars == {","}:
            return split_entries(interp, s)
        raise Unsupported("split of a bracketed list")
    parts = [[]]
    for a in s.atoms:
        if isinstance(a, str):
            piece = ""
            for ch in a:
                if ch in chars and (maxsplit < 0 or len(parts) <= maxsplit):
                    parts[-1].append(piece)
                    parts.append([])
                    piece = ""
                else:
                    piece += ch
            parts[-1].append(piece)
        else:
            if any(may_contain(a, ch) for ch in chars):
                raise Unsupported("split inside unknown text")
            parts[-1].append(a)
    return interp.alloc(ListCell([("c", tuple(concat([SStr(p)]) for p in parts))]))


def split_entries(interp, s):
    pre, post, ent = [], [], None
    for a in s.atoms:
        if not isinstance(a, str) and a[0] == "entries":
            ent = a
        elif ent is None:
            pre.append(a)
        else:
            post.append(a)
    if any(isinstance(a, str) for a in pre + post):
        raise Unsupported("split of a bracketed list")
    e, blanks = ent[1], ent[2]
    k = interp.prover.fresh("i", z3.IntSort())

    def elem(i):
        core = [("entry", e, i)]
        return SStr([("ws", i)] + core + [("ws", i)]) if blanks else SStr(core)

    segs = [("e", Seg([k], z3.And(k >= 0, k < e.n), elem(k), ("asc", k), ("range", z3.IntVal(0), e.n)))]
    if interp.branch(e.trailing):
        segs.append(("c", (SStr([("ws", e.n)]) if blanks else "",)))
    return interp.alloc(ListCell(segs))


def re_module():
    def matcher(mode):
        def fn(i, a, k):
            pattern, s = a[0], a[1]
            if len(a) > 2 or k or not isinstance(pattern, str):
                raise Unsupported("re flags")
            if not (isinstance(s, str) or isinstance(s, SStr)):
                raise PyRaise("TypeError")
            if regex_decide(i, pattern, s, mode):
                return Opaque("match", z3.Const("match", Thing))
            return None

        return fn

    def sub(i, a, k):
        pattern, repl, s = a[:3]
        if repl != "" or len(a) > 3 or k:
            raise Unsupported("re.sub")
        if isinstance(s, str):
            return re.sub(pattern, repl, s)
        chars = single_chars(pattern)
        if chars is None:
            raise Unsupported("re.sub")
        return remove_chars(i, s, chars)

    def split(i, a, k):
        pattern, s = a[:2]
        if len(a) > 2 or k:
            raise Unsupported("re.split")
        if isinstance(s, str):
            return i.alloc(ListCell([("c", tuple(re.split(pattern, s)))]))
        tree = list(sre_parse.parse(pattern))
        if len(tree) != 1 or tree[0][0] not in (sre.LITERAL, sre.IN):
            raise Unsupported("re.split")
        chars = {chr(tree[0][1])} if tree[0][0] is sre.LITERAL else charset(tree[0][1])
        return split_atoms(i, s, chars)

    out = {"sub": Builtin("sub", sub), "split": Builtin("split", split)}
    for mode in ("match", "fullmatch", "search"):
        out[mode] = Builtin(mode, matcher(mode))

    def compile_(i, a, k):
        if len(a) != 1 or k or not isinstance(a[0], str):
            raise Unsupported("re.compile")
        return Opaque("pattern", z3.Const("pattern", Thing), a[0])

    out["compile"] = Builtin("compile", compile_)
    return out


def pattern_handlers():
    mod = re_module()

    def use(name):
        def fn(i, obj, a, k):
            return i.call(mod[name], [obj.data] + list(a), k)

        return fn

    return {n: use(n) for n in ("match", "fullmatch", "search", "sub", "split")}


# ------------------------------------------------------------------ methods
def percent(interp, text, value):
    """text % value with %s and %d only"""
    values = list(value) if isinstance(value, tuple) else [value]
    out = []
    for piece in re.split(r"(%.)", text):
        if not piece.startswith("%"):
            out.append(piece)
        elif piece == "%%":
            out.append("%")
        elif piece in ("%s", "%d") and values:
            v = values.pop(0)
            if piece == "%d" and not is_int(v):
                raise Unsupported("%d")
            out.append(to_str(interp, v))
        else:
            raise Unsupported("% format")
    if values:
        raise PyRaise("TypeError")
    return concat(out)


def str_method(interp, obj, name):
    from models import bm, as_values

    i = interp
    if name == "split":

        def split(sep=None, maxsplit=-1):
            if isinstance(obj, str) and isinstance(sep, (str, type(None))):
                return i.alloc(ListCell([("c", tuple(obj.split(sep, maxsplit)))]))
            if not isinstance(sep, str) or len(sep) != 1:
                raise Unsupported("split")
            return split_atoms(i, obj, {sep}, maxsplit)

        return bm(name, split)
    if name == "partition":

        def partition(sep):
            ref = split_atoms(i, obj, {sep}, 1)
            parts = as_values(i, ref)
            if parts is None:
                raise Unsupported("partition")
            if len(parts) == 1:
                return (parts[0], "", "")
            return (parts[0], sep, parts[1])

        return bm(name, partition)
    if name == "join":

        def join(it):
            values = as_values(i, it)
            if values and isinstance(obj, str) and len(obj) == 1 and not obj.isdigit() and obj != "-":
                # integers joined by a separator that is no part of them
                nums = [v.atoms[0][1] for v in values if isinstance(v, SStr) and len(v.atoms) == 1 and v.atoms[0][0] == "int"]
                if len(nums) == len(values):
                    from models import NIL, SNOC

                    t = NIL
                    for v in nums:
                        t = SNOC(t, as_int(v))
                    return SStr([("join", obj, t)])
            if values is not None:
                out = []
                for n, v in enumerate(values):
                    if n:
                        out.append(obj)
                    out.append(v)
                return concat(out) if out else ""
            from models import segments, is_identity_seg

            segs = segments(i, it)
            if len(segs) == 1 and segs[0][0] == "e" and isinstance(obj, str) and len(obj) == 1 and not obj.isdigit() and obj != "-":
                s = segs[0][1]
                if isinstance(s.elem, SStr) and len(s.elem.atoms) == 1 and s.elem.atoms[0][0] == "int" and s.ident and s.ident[0] == "L":
                    inner = Seg(s.vars, s.mem, s.elem.atoms[0][1], s.order, s.ident)
                    if is_identity_seg(inner):
                        return SStr([("join", obj, s.ident[1])])
            raise Unsupported("join")

        return bm(name, join)
    if name == "replace":

        def replace(old, new, *count):
            if isinstance(obj, str) and not count:
                return obj.replace(old, new)
            if new == "" and isinstance(old, str) and len(old) == 1 and not count:
                return remove_chars(i, obj, {old})
            raise Unsupported("replace")

        return bm(name, replace)
    if name in ("strip", "lstrip", "rstrip"):

        def strip(chars=None):
            if isinstance(obj, str):
                return getattr(obj, name)(chars)
            atoms = list(obj.atoms)
            wanted = set(" \t\n\r") if chars is None else set(chars)
            if name in ("strip", "lstrip"):
                while atoms:
                    if isinstance(atoms[0], str):
                        t = atoms[0].lstrip("".join(wanted))
                        if t:
                            atoms[0] = t
                            break
                        atoms = atoms[1:]
                    elif atoms[0][0] == "ws" and chars is None:
                        atoms = atoms[1:]
                    elif atoms[0][0] in ("num", "name") and not any(may_contain(atoms[0], c) for c in wanted):
                        break
                    elif atoms[0][0] in ("entry",) and chars is None:
                        break
                    elif atoms[0][0] == "entries" and not wanted & set(DIGITS + "-*,") and not atoms[0][2]:
                        break
                    elif atoms[0][0] == "entries" and wanted == {"[", "]"}:
                        break
                    else:
                        raise Unsupported("strip")
            if name in ("strip", "rstrip"):
                while atoms:
                    if isinstance(atoms[-1], str):
                        t = atoms[-1].rstrip("".join(wanted))
                        if t:
                            atoms[-1] = t
                            break
                        atoms = atoms[:-1]
                    elif atoms[-1][0] == "ws" and chars is None:
                        atoms = atoms[:-1]
                    elif atoms[-1][0] in ("num", "name") and not any(may_contain(atoms[-1], c) for c in wanted):
                        break
                    elif atoms[-1][0] in ("entry",) and chars is None:
                        break
                    elif atoms[-1][0] == "entries" and wanted <= {"[", "]"}:
                        break
                    else:
                        raise Unsupported("strip")
            return concat([SStr(atoms)])

        return bm(name, strip)
    if name in ("startswith", "endswith"):

        def starts(prefix):
            if isinstance(obj, str) and isinstance(prefix, (str, tuple)):
                return getattr(obj, name)(prefix)
            s = resolve(i, obj)
            if not isinstance(prefix, str) or not prefix:
                raise Unsupported(name)
            atom = s.atoms[0] if name == "startswith" else s.atoms[-1]
            ch = prefix[0] if name == "startswith" else prefix[-1]
            if isinstance(atom, str):
                if len(atom) >= len(prefix):
                    return getattr(atom, name)(prefix)
                if atom[0 if name == "startswith" else -1] != ch:
                    return False
            elif atom[0] in ("num", "name") and not may_contain(atom, ch):
                return False
            raise Unsupported(name)

        return bm(name, starts)
    if name in ("isdigit", "isnumeric", "isdecimal"):

        def isdigit():
            if isinstance(obj, str):
                return getattr(obj, name)()
            s = resolve(i, obj)
            if any(isinstance(a, str) and any(not c.isdigit() for c in a) for a in s.atoms):
                return False
            if all((isinstance(a, str)) or a[0] == "num" for a in s.atoms):
                return True
            raise Unsupported(name)

        return bm(name, isdigit)
    if name in ("lower", "upper", "title") and isinstance(obj, str):
        return bm(name, lambda: getattr(obj, name)())
    if name == "format":
        if not isinstance(obj, str):
            raise Unsupported("format")

        def format_(*args, **kwargs):
            import string

            out, auto = [], 0
            for literal, field, spec, conversion in string.Formatter().parse(obj):
                out.append(literal)
                if field is None:
                    continue
                if spec or conversion not in (None, "s"):
                    raise Unsupported("format")
                if field == "":
                    field, auto = str(auto), auto + 1
                if field.isdigit() and int(field) < len(args):
                    out.append(to_str(i, args[int(field)]))
                elif field in kwargs:
                    out.append(to_str(i, kwargs[field]))
                else:
                    raise Unsupported("format")
            return concat(out)

        return bm(name, format_)
    if name == "count" and isinstance(obj, str):
        return bm(name, lambda x: obj.count(x))
    raise Unsupported(f"str.{name}")


def str_contains(interp, s, item):
    if not isinstance(item, str) or len(item) != 1:
        raise Unsupported("in text")
    if any(not isinstance(a, str) and a[0] == "entry" for a in s.atoms) and item in "-*":
        s = resolve(interp, s)
    if any(isinstance(a, str) and item in a for a in s.atoms):
        return True
    if any(not isinstance(a, str) and may_contain(a, item) for a in s.atoms):
        raise Unsupported("in unknown text")
    return False


def str_length(interp, s):
    raise Unsupported("length of text")


def index_str(interp, s, key):
    if isinstance(key, slice) and key.step is None:
        start, stop = key.start, key.stop
        atoms = list(s.atoms)
        if start is not None:
            if not (isinstance(start, int) and start >= 0 and atoms and isinstance(atoms[0], str) and len(atoms[0]) >= start):
                if start != 0:
                    raise Unsupported("slice of text")
            else:
                atoms[0] = atoms[0][start:]
        if stop is not None:
            if not (isinstance(stop, int) and stop < 0 and isinstance(atoms[-1], str) and len(atoms[-1]) >= -stop):
                raise Unsupported("slice of text")
            atoms[-1] = atoms[-1][:stop]
        return concat([SStr(atoms)])
    if isinstance(key, int) and key in (0, -1):
        s = resolve(interp, s)
        a = s.atoms[key]
        if isinstance(a, str):
            return a[key]
    raise Unsupported("index of text")
