"""python3-vt selftest/run.py: run the verifier on samples.py and compare with CPython.

For every sample and input: the result CPython computes must be allowed by a path
the verifier found (path condition, facts and result together satisfiable), and no
path may allow another one."""
import os
import random
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [os.path.join(os.path.dirname(HERE), "vf"), os.path.join(os.path.dirname(HERE), "vf", "contracts")]
sys.dont_write_bytecode = True
sys.setrecursionlimit(20000)
os.environ["VF_REPO"] = HERE
import inspect  # noqa: E402
from fractions import Fraction  # noqa: E402

import z3  # noqa: E402

import samples  # noqa: E402
from base import *  # noqa: E402,F403
from models import map_to_sym, set_to_sym  # noqa: E402

LOW, HIGH = -9, 9  # values occurring in samples stay within, sums are enumerated over them
INT = z3.IntSort()


def in_list(x, vals):
    return z3.Or(*[x == v for v in vals]) if vals else z3.BoolVal(False)


def look(x, pairs):
    out = z3.IntVal(0)
    for k, v in pairs:
        out = z3.If(x == k, z3.IntVal(v), out)
    return out


class Sample:
    def __init__(self, name):
        self.name = name
        self.fn = getattr(samples, name)
        self.params = list(inspect.signature(self.fn).parameters) if inspect.isfunction(self.fn) else []
        self.ctx = Ctx("selftest " + name)
        self.ctx.interp.small_floats = True
        self.ctx.interp.sealing = False
        i = self.ctx.interp
        self.funs = {}
        args = []
        for p in self.params:
            if p in "de":
                dom, val = z3.Function("dom_" + p, INT, z3.BoolSort()), z3.Function("val_" + p, INT, INT)
                self.funs[p] = (dom, val)
                args.append(i.alloc(SymMap("int", "int", lambda k, dom=dom: dom(k), lambda k, val=val: val(k))))
            elif p in "st":
                dom = z3.Function("dom_" + p, INT, z3.BoolSort())
                self.funs[p] = (dom,)
                args.append(i.alloc(SymSet("int", lambda k, dom=dom: dom(k))))
            else:
                args.append(z3.Int(p))
        self.paths = self.ctx.paths(lambda: i.call(i.get("samples:" + name), args))
        self.results = [self.observe(r) for r in self.paths]

    def observe(self, r):
        if r.kind == "raise":
            return ("raise", r.exc.name)
        v = r.value
        i = self.ctx.interp
        if isinstance(v, Ref):
            cell = r.heap[v.oid]
            if isinstance(cell, (ConcMap, SymMap)):
                return ("map", self.ctx.at(r, lambda: map_to_sym(i, i.cell(v))).value)
            if isinstance(cell, (ConcSet, SymSet)):
                return ("set", self.ctx.at(r, lambda: set_to_sym(i, i.cell(v))).value)
            raise Unsupported("result " + type(cell).__name__)
        return ("value", to_z3(v))

    def concrete(self, f, inp):
        """f with the inputs in place and the sums written out"""
        p = self.ctx.p
        for _ in range(8):
            subs = []
            for name, fs in self.funs.items():
                got = inp[name]
                x = z3.Var(0, INT)
                subs.append((fs[0], in_list(x, list(got))))
                if len(fs) > 1:
                    subs.append((fs[1], look(x, list(got.items()))))
            if subs:
                f = z3.substitute_funs(f, *subs)
            f = z3.simplify(z3.substitute(f, *[(z3.Int(n), z3.IntVal(v)) for n, v in inp.items() if isinstance(v, int)]))
            sums = self.sums_in(f)
            if not sums:
                return f
            pairs = []
            for s in sums:
                binders, body = p.expand(s)
                total = z3.RealVal(0) if s.sort() == z3.RealSort() else z3.IntVal(0)
                for combo in combos(len(binders)):
                    total = total + z3.substitute(body, *[(b, z3.IntVal(v)) for b, v in zip(binders, combo)])
                pairs.append((s, total))
            f = z3.substitute(f, *pairs)
        raise Unsupported("sums do not end")

    def sums_in(self, f):
        out, seen, stack = [], set(), [f]
        while stack:
            e = stack.pop()
            if e.get_id() in seen:
                continue
            seen.add(e.get_id())
            if self.ctx.p.is_sum(e):
                out.append(e)
                continue
            stack += e.children() if not z3.is_quantifier(e) else [e.body()]
        return out

    def run(self, inp):
        try:
            want = ("value", self.fn(**{k: (dict(v) if isinstance(v, dict) else v) for k, v in inp.items()}))
        except Exception as error:  # pylint: disable=broad-except
            want = ("raise", type(error).__name__)
        if isinstance(want[1], dict):
            want = ("map", want[1])
        if isinstance(want[1], (set, frozenset)):
            want = ("set", want[1])
        allowed = False
        for r, (kind, value) in zip(self.paths, self.results):
            facts = [self.concrete(f, inp) for f in list(self.ctx.p.axioms) + r.all]
            same = kind == want[0]
            if same and kind == "value":
                w = want[1]
                num = lambda t: z3.ToReal(as_int(t)) if t.sort() != z3.RealSort() else t
                eq = num(value) == num(to_z3(Fraction(w) if isinstance(w, float) else w))
            elif same and kind == "map":
                eq = z3.And(*[z3.And(value.dom(z3.IntVal(v)) == (v in want[1]), value.val(z3.IntVal(v)) == want[1][v] if v in want[1] else True) for v in range(LOW * 6, HIGH * 6)])
            elif same and kind == "set":
                eq = z3.And(*[value.dom(z3.IntVal(v)) == (v in want[1]) for v in range(LOW * 6, HIGH * 6)])
            elif same:
                eq = z3.BoolVal(value == want[1])
            else:
                eq = z3.BoolVal(False)
            eq = self.concrete(eq, inp)
            s = z3.Solver()
            s.set("timeout", 20000)
            s.add(*facts)
            s.push()
            s.add(*self.div_defs(facts + [eq]), eq)
            got = s.check()
            s.pop()
            allowed = allowed or got == z3.sat or got == z3.unknown
            s.push()
            s.add(*self.div_defs(facts + [eq]), z3.Not(eq))
            other = s.check()
            if other == z3.sat:
                return f"allows another result than {want}: path {r.kind} {value}"
            if other == z3.unknown:
                return "undecided"
            s.pop()
        return None if allowed else f"does not allow {want}"

    def div_defs(self, fs):
        from sums import definitions

        return definitions(fs)


def combos(n):
    if n == 0:
        return [()]
    return [(v,) + rest for v in range(LOW * (4 if n == 1 else 1), HIGH * (4 if n == 1 else 1) + 1) for rest in combos(n - 1)]


def inputs(params, rng):
    out = {}
    for p in params:
        if p in "de":
            out[p] = {rng.randint(-5, 5): rng.randint(1, 4) for _ in range(rng.choice([0, 1, 2, 3, 4]))}
        elif p in "st":
            out[p] = {rng.randint(-4, 4) for _ in range(rng.choice([0, 1, 2, 3, 4]))}
        elif p == "k":
            out[p] = rng.randint(0, 3)
        else:
            out[p] = rng.randint(-5, 6)
    return out


def main():
    rng = random.Random(int(os.environ.get("VERIF_SEED", "1")))
    rounds = int(sys.argv[1]) if len(sys.argv) > 1 else 12
    only = sys.argv[2:]
    bad = ok = und = 0
    for name, fn in list(vars(samples).items()):
        if not inspect.isfunction(fn) or fn.__module__ != "samples" or (only and name not in only):
            continue
        try:
            s = Sample(name)
        except Unsupported as error:
            print(f"{name}: outside the subset: {error}")
            continue
        for _ in range(rounds):
            inp = inputs(s.params, rng)
            why = s.run(inp)
            if why == "undecided":
                und += 1
            elif why:
                bad += 1
                print(f"{name}{inp}: {why}")
                break
            else:
                ok += 1
    print(f"{ok} agree, {und} undecided, {bad} DIFFER")
    return 1 if bad else 0


if __name__ == "__main__":
    code = main()
    sys.stdout.flush()
    os._exit(code)
