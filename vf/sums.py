"""Finite sums over symbolic domains, and the prover used for all obligations.

A sum  Σ_{vars} body  ranges over all values of the bound constants; `body` is 0
outside a finite set (every binder comes from iterating a finite collection, whose
membership condition is part of the body).  It is represented by an application
S_n(free constants of the body); the definition is kept in the registry.

Equality of sums is decided by rules proved in lemmas/Sums.lean: flattening of
nested sums and products (Fubini), elimination of a binder fixed by an equation
(delta), splitting by linearity, and pointwise equality of the bodies (SMT)."""
import itertools
import time

import z3


FDIV = z3.Function("floordiv", z3.IntSort(), z3.IntSort(), z3.IntSort())


def has_quantifier(e):
    seen, stack = set(), [e]
    while stack:
        x = stack.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            return True
        stack.extend(x.children())
    return False


def definitions(formulas):
    """defining equations of the floor divisions that occur (ground ones)"""
    seen, out, stack = set(), [], list(formulas)
    quantified = False
    while stack:
        x = stack.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            stack.append(x.body())
            continue
        if z3.is_app(x):
            if x.decl().eq(FDIV):
                if has_var(x):
                    quantified = True
                else:
                    a, b = x.children()
                    out.append(x == z3.If(b > 0, a / b, (-a) / (-b)))
            stack.extend(x.children())
    if quantified:
        a, b = z3.Ints("fd!a fd!b")
        out.append(z3.ForAll([a, b], FDIV(a, b) == z3.If(b > 0, a / b, (-a) / (-b)), patterns=[FDIV(a, b)]))
    return out


def has_var(e):
    if z3.is_var(e):
        return True
    return any(has_var(c) for c in e.children())


def is_uninterp_const(e):
    return z3.is_const(e) and e.decl().kind() == z3.Z3_OP_UNINTERPRETED


def free_consts(e):
    seen, out, stack = set(), {}, [e]
    while stack:
        x = stack.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            stack.append(x.body())
        elif z3.is_app(x):
            if is_uninterp_const(x):
                out[x.decl().name()] = x
            else:
                stack.extend(x.children())
    return out


def ordered_consts(e):
    """free constants in order of first occurrence"""
    seen, out = set(), {}

    def go(x):
        if x.get_id() in seen:
            return
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            go(x.body())
        elif z3.is_app(x):
            if is_uninterp_const(x):
                out.setdefault(x.decl().name(), x)
            else:
                for c in x.children():
                    go(c)

    go(e)
    return list(out.items())


def fun_names(e):
    """names of uninterpreted functions (arity > 0) in e"""
    seen, out, stack = set(), set(), [e]
    while stack:
        x = stack.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            stack.append(x.body())
        elif z3.is_app(x):
            if x.num_args() and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                out.add(x.decl().name())
            stack.extend(x.children())
    return out


class Stats:
    def __init__(self):
        self.queries = 0
        self.seconds = 0.0
        self.max_seconds = 0.0
        self.unknown = 0


def list_total(binders, guards, term):
    """the entries of a list of integers, added up over all its positions, times a
    constant: the sum of the list"""
    if len(binders) != 1 or binders[0].sort() != z3.IntSort():
        return None
    b = binders[0]
    name = b.decl().name()
    factors = list(term.children()) if z3.is_mul(term) else [term]
    entries = [f for f in factors if z3.is_app(f) and f.decl().name() == "atl" and f.num_args() == 2 and f.arg(1).eq(b)]
    if len(entries) != 1:
        return None
    entry = entries[0]
    others = [f for f in factors if not f.eq(entry)]
    if len(others) != len(factors) - 1 or any(name in free_consts(f) for f in others + [entry.arg(0)]):
        return None
    from models import len_l, sum_l

    solver = z3.Solver()
    solver.set("timeout", 300)
    solver.add(z3.And(*guards) != z3.And(b >= 0, b < len_l(entry.arg(0))))
    if solver.check() != z3.unsat:
        return None
    out = sum_l(entry.arg(0))
    for f in others:
        out = f * out
    return out


def interval_count(binders, guards, term):
    """number of integers a single binder ranges over, if the term is constant and
    the guards are a lower and an upper bound"""
    if len(binders) != 1 or binders[0].sort() != z3.IntSort():
        return None
    b = binders[0]
    name = b.decl().name()
    if name in free_consts(term):
        return None
    low, high = [], []
    for g in guards:
        neg = False
        while z3.is_not(g):
            neg, g = not neg, g.arg(0)
        if not (z3.is_app(g) and g.num_args() == 2 and z3.is_int(g.arg(0)) and z3.is_int(g.arg(1))):
            return None
        if z3.is_le(g):
            e, strict = g.arg(1) - g.arg(0), False
        elif z3.is_ge(g):
            e, strict = g.arg(0) - g.arg(1), False
        elif z3.is_lt(g):
            e, strict = g.arg(1) - g.arg(0), True
        elif z3.is_gt(g):
            e, strict = g.arg(0) - g.arg(1), True
        else:
            return None
        if neg:
            e, strict = -e, not strict
        if strict:
            e = e - 1
        # now e >= 0
        rest = z3.simplify(z3.substitute(e, (b, z3.IntVal(0))), som=True)
        slope = z3.simplify(z3.substitute(e, (b, z3.IntVal(1))) - rest, som=True)
        if not z3.is_int_value(slope) or slope.as_long() not in (1, -1):
            return None
        if not z3.is_true(z3.simplify(e - (slope * b + rest) == 0, som=True)):
            return None
        if slope.as_long() == 1:
            low.append(z3.simplify(-rest))
        else:
            high.append(z3.simplify(rest + 1))
    if not low or not high:
        return None
    lo, hi = low[0], high[0]
    for x in low[1:]:
        lo = z3.If(x > lo, x, lo)
    for x in high[1:]:
        hi = z3.If(x < hi, x, hi)
    n = z3.simplify(hi - lo)
    return z3.If(n > 0, n, z3.IntVal(0))


class Prover:
    """z3, and cvc5 as second opinion where z3 answers unknown"""

    def __init__(self, timeout_ms=8000):
        self.timeout = timeout_ms
        self.stats = Stats()
        self.exts = {}
        self.sums = {}  # name -> (params, binders, body)
        self.sum_keys = {}
        self.canon_cache = {}
        self.counter = itertools.count(1)
        self.cache = {}
        self.last_model = None
        self.last_reason = ""
        self.axioms = []

    # ------------------------------------------------------------ fresh names
    def fresh(self, prefix, sort):
        return z3.Const(f"{prefix}!{next(self.counter)}", sort)

    def fresh_fun(self, prefix, *sorts):
        return z3.Function(f"{prefix}!{next(self.counter)}", *sorts)

    # ------------------------------------------------------------ solver
    def check(self, formulas, timeout=None):
        """'sat' | 'unsat' | 'unknown' of the conjunction"""
        formulas = [f for f in formulas if not z3.is_true(f)]
        key = (tuple(sorted(f.get_id() for f in formulas)), timeout)
        hit = self.cache.get(key)
        if hit is not None:
            self.last_model = hit[1]
            return hit[0]
        start = time.time()
        solver = z3.Solver()
        solver.set("timeout", timeout or self.timeout)
        solver.set("random_seed", 0)
        for f in formulas:
            solver.add(f)
        answer = str(solver.check())
        self.last_model = None
        if answer == "sat":
            try:
                self.last_model = str(solver.model())[:4000]
            except z3.Z3Exception:
                pass
        if answer == "unknown":
            self.stats.unknown += 1
            self.last_reason = solver.reason_unknown()
        spent = time.time() - start
        self.stats.queries += 1
        self.stats.seconds += spent
        self.stats.max_seconds = max(self.stats.max_seconds, spent)
        # keep the formulas alive: ids are reused after garbage collection
        self.cache[key] = (answer, self.last_model, list(formulas))
        return answer

    def infeasible(self, formulas, timeout=2000):
        """provably contradictory (pruning only: False is always sound)"""
        if any(has_quantifier(f) for f in formulas):
            ground = [f for f in formulas if not has_quantifier(f)]
            if self.check(ground, timeout) == "unsat":
                return True
            return self.check(formulas, min(timeout, 250)) == "unsat"
        return self.check(formulas, timeout) == "unsat"

    def valid(self, facts, goal, timeout=None):
        """facts |- goal?  True / False (sat: countermodel) / None (unknown)"""
        goal = z3.simplify(goal) if not isinstance(goal, bool) else z3.BoolVal(goal)
        if z3.is_true(goal):
            return True
        ground = [f for f in list(self.axioms) + list(facts) if not has_quantifier(f)]
        if len(ground) < len(self.axioms) + len(facts) and not has_quantifier(goal):
            if self.check(ground + [z3.Not(goal)], 1500) == "unsat":
                return True
        if has_quantifier(goal) and self.by_witness(list(facts), goal, timeout):
            return True
        answer = self._valid(facts, goal, timeout)
        if answer is not True:
            defs = definitions(list(facts) + [goal])
            if defs:
                answer = self._valid(list(facts) + defs, goal, timeout)
        if answer is not True:
            same = self.same_folds(facts, goal)
            if same:
                answer = self._valid(list(facts) + same, goal, timeout)
        return answer

    def same_folds(self, facts, goal):
        """xor over the same members of the same term is the same"""
        apps, stack, seen = [], [goal], set()
        while stack:
            x = stack.pop()
            if x.get_id() in seen or z3.is_quantifier(x):
                continue
            seen.add(x.get_id())
            if z3.is_app(x):
                if x.decl().name() in self.exts and self.exts[x.decl().name()][0] == "xorfold":
                    apps.append(x)
                stack.extend(x.children())
        out = []
        for k, a in enumerate(apps):
            for b in apps[:k]:
                _, fa, ma, ta = self.expand_ext(a)
                _, fb, mb, tb = self.expand_ext(b)
                if [v.sort() for v in fa] != [v.sort() for v in fb]:
                    continue
                pairs = list(zip(fb, fa))
                mb, tb = z3.substitute(mb, *pairs), z3.substitute(tb, *pairs)
                if self._valid(list(facts), z3.And(ma == mb, z3.Implies(ma, ta == tb)), None) is True:
                    out.append(a == b)
        return out

    # quantified goals: open the hypothesis, try witnesses -----------------
    def by_witness(self, facts, goal, timeout, depth=0):
        if depth > 6:
            return False
        if z3.is_and(goal):
            return all(self.valid(facts, c, timeout) is True for c in goal.children())
        if z3.is_eq(goal) and goal.arg(0).sort() == z3.BoolSort():
            a, b = goal.children()
            return self.by_witness(facts, z3.Implies(a, b), timeout, depth + 1) and self.by_witness(
                facts, z3.Implies(b, a), timeout, depth + 1
            )
        if z3.is_not(goal):
            hyp, concl = [goal.arg(0)], z3.BoolVal(False)
        elif z3.is_implies(goal):
            hyp, concl = [goal.arg(0)], goal.arg(1)
        elif z3.is_quantifier(goal) and goal.is_forall():
            fresh = [self.fresh("w", goal.var_sort(i)) for i in range(goal.num_vars())]
            return self.valid(facts, z3.substitute_vars(goal.body(), *reversed(fresh)), timeout) is True
        elif z3.is_or(goal):
            negs = [c.arg(0) for c in goal.children() if z3.is_not(c)]
            pos = [c for c in goal.children() if not z3.is_not(c)]
            hyp, concl = negs, (z3.Or(*pos) if pos else z3.BoolVal(False))
        else:
            hyp, concl = [], goal
        for case in self.open_all(hyp):
            extra = [f for f in facts if not has_quantifier(f)]
            consts = [c for h in case + extra for c in free_consts(h).values()]
            if not self._witness(facts, case, concl, consts, extra, timeout):
                return False
        return True

    def _witness(self, facts, case, concl, consts, extra, timeout):
        short = min(timeout or self.timeout, 3000)
        base = list(self.axioms) + facts + case
        ground = extra + case
        if z3.is_false(concl) or not has_quantifier(concl):
            return self.check(base + [z3.Not(concl)], short) == "unsat"
        opts = self.instances(concl, consts + list(free_consts(concl).values()))
        if opts is None:
            return False
        target = z3.Or(*opts)
        if self.check(ground + [z3.Not(target)], short) == "unsat":
            return True
        if len(base) == len(ground):
            return False
        return self.check(base + [z3.Not(target)], short) == "unsat"

    def open_all(self, hyps):
        """cases (lists of formulas) with positive existentials opened"""
        cases = [[]]
        todo = list(hyps)
        while todo:
            h = z3.simplify(todo.pop(0))
            if z3.is_and(h):
                todo = list(h.children()) + todo
            elif z3.is_quantifier(h) and not h.is_forall() and not h.is_lambda():
                fresh = [self.fresh("w", h.var_sort(i)) for i in range(h.num_vars())]
                todo.insert(0, z3.substitute_vars(h.body(), *reversed(fresh)))
            elif z3.is_not(h) and z3.is_quantifier(h.arg(0)) and h.arg(0).is_forall():
                q = h.arg(0)
                fresh = [self.fresh("w", q.var_sort(i)) for i in range(q.num_vars())]
                todo.insert(0, z3.Not(z3.substitute_vars(q.body(), *reversed(fresh))))
            elif z3.is_not(h) and z3.is_or(h.arg(0)):
                todo = [z3.Not(c) for c in h.arg(0).children()] + todo
            elif z3.is_or(h) and has_quantifier(h):
                out = []
                for c in h.children():
                    for sub in self.open_all([c] + todo):
                        out += [base + sub for base in cases]
                return out
            else:
                cases = [c + [h] for c in cases]
        return cases

    def instances(self, concl, consts):
        """instances of the existentials of the conclusion by the constants"""
        seen, pool = set(), {}
        for c in consts:
            if c.get_id() not in seen:
                seen.add(c.get_id())
                pool.setdefault(str(c.sort()), []).append(c)
        ints = pool.get("Int", [])
        if 0 < len(ints) <= 4:
            pool["Int"] = ints + [z3.IntVal(0)] + [a - b for a in ints for b in ints if a is not b]
        out = []

        def go(f, limit=400):
            if z3.is_quantifier(f) and not f.is_forall():
                sorts = [f.var_sort(i) for i in range(f.num_vars())]
                choices = [pool.get(str(s), []) for s in sorts]
                if any(not c for c in choices):
                    return []
                res = []
                for combo in itertools.product(*choices):
                    res += go(z3.simplify(z3.substitute_vars(f.body(), *reversed(combo))))
                    if len(res) > limit:
                        raise OverflowError
                return res
            if z3.is_or(f) and has_quantifier(f):
                return [x for c in f.children() for x in go(c)]
            if z3.is_and(f) and has_quantifier(f):
                parts = [go(c) for c in f.children()]
                n = 1
                for q in parts:
                    n *= len(q)
                if n > limit:
                    raise OverflowError
                return [z3.And(*combo) for combo in itertools.product(*parts)]
            return [f]

        try:
            out = go(z3.simplify(concl))
        except OverflowError:
            return None
        return out or None

    def _valid(self, facts, goal, timeout=None):
        answer = self.check(list(self.axioms) + list(facts) + [z3.Not(goal)], timeout)
        if answer == "unsat":
            return True
        if answer == "sat":
            return False
        # second try with another configuration
        answer = self._second(list(self.axioms) + list(facts) + [z3.Not(goal)], timeout)
        return True if answer == "unsat" else (False if answer == "sat" else None)

    def _second(self, formulas, timeout):
        start = time.time()
        solver = z3.SolverFor("ALL") if False else z3.Solver()
        solver.set("timeout", timeout or self.timeout)
        solver.set("smt.mbqi", False)
        solver.set("random_seed", 7)
        for f in formulas:
            solver.add(f)
        answer = str(solver.check())
        spent = time.time() - start
        self.stats.queries += 1
        self.stats.seconds += spent
        self.stats.max_seconds = max(self.stats.max_seconds, spent)
        return answer if answer == "unsat" else "unknown"

    # ------------------------------------------------------------ sums
    def mk_sum(self, binders, body):
        """the sum in canonical form: linear combination of sums of single terms"""
        body = z3.simplify(body)
        if not binders:
            return body
        bound = {b.decl().name() for b in binders}
        free = [c for n, c in ordered_consts(body) if n not in bound]
        ren = [(b, z3.Const(f"bound${i}", b.sort())) for i, b in enumerate(binders)]
        ren += [(c, z3.Const(f"param${i}", c.sort())) for i, c in enumerate(free)]
        canon = z3.substitute(body, *ren)
        key = (tuple(str(b.sort()) for b in binders), canon.sexpr())
        hit = self.canon_cache.get(key)
        if hit is None:
            params = [z3.Const(f"param${i}", c.sort()) for i, c in enumerate(free)]
            bnds = [z3.Const(f"bound${i}", b.sort()) for i, b in enumerate(binders)]
            raw = self.raw_sum(bnds, canon)
            self.canon_cache[key] = raw
            hit = raw
            parts = []
            for bi, guards, term in self.normal(raw, []):
                parts.append(self.tidy_sum(bi, guards, term))
            hit = zero(canon)
            for x in parts:
                hit = x if z3.is_int_value(hit) or z3.is_rational_value(hit) else hit + x
            self.canon_cache[key] = hit
        pairs = [(z3.Const(f"param${i}", c.sort()), c) for i, c in enumerate(free)]
        return z3.substitute(hit, *pairs) if pairs else hit

    def tidy_sum(self, binders, guards, term):
        if not binders:
            return z3.If(z3.And(*guards), term, zero(term)) if guards else term
        # factors that do not depend on the binders
        names = {b.decl().name() for b in binders}
        # order of the binders and guards independent of their names
        best = None
        for perm in itertools.islice(itertools.permutations(binders), 24):
            ren = [(b, z3.Const(f"tidy${i}", b.sort())) for i, b in enumerate(perm)]
            gs = sorted((z3.simplify(z3.substitute(g, *ren)) for g in guards), key=lambda g: g.sexpr())
            t = z3.simplify(z3.substitute(term, *ren), som=True)
            key = ([str(b.sort()) for b in perm], [g.sexpr() for g in gs], t.sexpr())
            if best is None or key < best[0]:
                best = (key, [n for _, n in ren], gs, t)
        _, bnds, gs, t = best
        outer = [g for g in gs if not self.mentions(g, {b.decl().name() for b in bnds})]
        inner = [g for g in gs if not any(g.eq(x) for x in outer)]
        count = interval_count(bnds, inner, t)
        if count is not None:
            t = t * count
            return z3.If(z3.And(*outer), t, zero(t)) if outer else t
        total = list_total(bnds, inner, t)
        if total is not None:
            return z3.If(z3.And(*outer), total, zero(total)) if outer else total
        body = z3.If(z3.And(*inner), t, zero(t)) if inner else t
        out = self.raw_sum(bnds, body)
        return z3.If(z3.And(*outer), out, zero(out)) if outer else out

    def raw_sum(self, binders, body):
        body = z3.simplify(body)
        if not binders:
            return body
        if z3.is_int_value(body) or z3.is_rational_value(body):
            if body.as_fraction() == 0 if z3.is_rational_value(body) else body.as_long() == 0:
                return body
        bound = {b.decl().name() for b in binders}
        free = [c for n, c in ordered_consts(body) if n not in bound]
        canon = z3.substitute(
            body,
            *[(b, z3.Const(f"bound${i}", b.sort())) for i, b in enumerate(binders)],
            *[(c, z3.Const(f"param${i}", c.sort())) for i, c in enumerate(free)],
        )
        key = (tuple(str(b.sort()) for b in binders), canon.sexpr())
        name = self.sum_keys.get(key)
        if name is None:
            name = f"Sum!{next(self.counter)}"
            self.sum_keys[key] = name
            params = [z3.Const(f"param${i}", c.sort()) for i, c in enumerate(free)]
            bnds = [z3.Const(f"bound${i}", b.sort()) for i, b in enumerate(binders)]
            self.sums[name] = (params, bnds, canon)
        fun = z3.Function(name, *[c.sort() for c in free], body.sort()) if free else None
        return fun(*free) if free else z3.Const(name, body.sort())

    def mk_ext(self, kind, binders, mem, term):
        """canonical symbol for max/min/xor of term over the members"""
        body = z3.simplify(z3.And(mem, term == z3.Const("ext$value", term.sort())))
        bound = {b.decl().name() for b in binders} | {"ext$value"}
        free = [c for n, c in ordered_consts(body) if n not in bound]
        ren = [(b, z3.Const(f"bound${i}", b.sort())) for i, b in enumerate(binders)]
        ren += [(c, z3.Const(f"param${i}", c.sort())) for i, c in enumerate(free)]
        canon = z3.substitute(body, *ren)
        key = (kind, tuple(str(b.sort()) for b in binders), canon.sexpr())
        name = self.sum_keys.get(key)
        if name is None:
            name = f"{kind}!{next(self.counter)}"
            self.sum_keys[key] = name
            self.exts[name] = (
                kind,
                [z3.Const(f"param${i}", c.sort()) for i, c in enumerate(free)],
                [z3.Const(f"bound${i}", b.sort()) for i, b in enumerate(binders)],
                z3.substitute(mem, *ren),
                z3.substitute(term, *ren),
            )
        if not free:
            return z3.Const(name, term.sort())
        return z3.Function(name, *[c.sort() for c in free], term.sort())(*free)

    def expand_ext(self, app):
        kind, params, binders, mem, term = self.exts[app.decl().name()]
        fresh = [self.fresh("s", b.sort()) for b in binders]
        pairs = list(zip(params, app.children())) + list(zip(binders, fresh))
        return kind, fresh, z3.substitute(mem, *pairs), z3.substitute(term, *pairs)

    def expand(self, app):
        """(fresh binders, body) of a sum application"""
        params, binders, body = self.sums[app.decl().name()]
        fresh = [self.fresh("s", b.sort()) for b in binders]
        pairs = list(zip(params, app.children())) + list(zip(binders, fresh))
        return fresh, z3.substitute(body, *pairs)

    def is_sum(self, e):
        return z3.is_app(e) and e.decl().name() in self.sums

    def has_sum(self, e):
        seen, stack = set(), [e]
        while stack:
            x = stack.pop()
            if x.get_id() in seen:
                continue
            seen.add(x.get_id())
            if z3.is_quantifier(x):
                stack.append(x.body())
            elif z3.is_app(x):
                if self.is_sum(x):
                    return True
                stack.extend(x.children())
        return False

    def subst_fun(self, e, replacements):
        """replace function symbols: name -> python function(args)->expr, also
        inside the definitions of sums"""
        cache = {}

        def go(x):
            hit = cache.get(x.get_id())
            if hit is not None:
                return hit[1]
            if z3.is_quantifier(x):
                body = go(x.body())
                if body.eq(x.body()):
                    out = x
                else:
                    names = [z3.Const(f"q!{next(self.counter)}", x.var_sort(i)) for i in range(x.num_vars())]
                    inst = z3.substitute_vars(body, *reversed(names))
                    out = z3.ForAll(names, inst) if x.is_forall() else z3.Exists(names, inst)
            elif z3.is_app(x):
                children = [go(c) for c in x.children()]
                name = x.decl().name()
                if name in replacements:
                    out = replacements[name](*children)
                elif self.is_sum(x) and self._mentions(name, replacements):
                    params, binders, body = self.sums[name]
                    nb = go(body)
                    fresh = [self.fresh("s", b.sort()) for b in binders]
                    nb = z3.substitute(nb, *(list(zip(params, children)) + list(zip(binders, fresh))))
                    out = self.mk_sum(fresh, nb)
                elif name in self.exts and self._mentions(name, replacements):
                    kind, params, binders, mem, term = self.exts[name]
                    fresh = [self.fresh("s", b.sort()) for b in binders]
                    pairs = list(zip(params, children)) + list(zip(binders, fresh))
                    out = self.mk_ext(kind, fresh, z3.substitute(go(mem), *pairs), z3.substitute(go(term), *pairs))
                elif all(a.eq(b) for a, b in zip(children, x.children())):
                    out = x
                else:
                    out = x.decl()(*children)
            else:
                out = x
            cache[x.get_id()] = (x, out)
            return out

        return go(e)

    def _mentions(self, sum_name, replacements):
        if sum_name in self.exts:
            _, _, _, mem, term = self.exts[sum_name]
            names = fun_names(mem) | set(free_consts(mem)) | fun_names(term) | set(free_consts(term))
        else:
            body = self.sums[sum_name][2]
            names = fun_names(body) | set(free_consts(body))
        if names & set(replacements):
            return True
        return any((n in self.sums or n in self.exts) and self._mentions(n, replacements) for n in names)

    def mentions(self, e, names):
        """does e mention one of the symbols, also through sums?"""
        have = fun_names(e) | set(free_consts(e))
        if have & names:
            return True
        return any((n in self.sums or n in self.exts) and self._mentions(n, dict.fromkeys(names)) for n in have)

    # monomials: list of (binders, guards, term)
    def monomials(self, e, depth=0):
        if depth > 60:
            return [([], [], e)]
        if not self.has_sum(e):
            if z3.is_app(e) and e.decl().kind() == z3.Z3_OP_ITE and z3.is_arith(e):
                c, a, b = e.children()
                return [(bi, [c] + g, t) for bi, g, t in self.monomials(a, depth + 1)] + [
                    (bi, [z3.Not(c)] + g, t) for bi, g, t in self.monomials(b, depth + 1)
                ]
            if z3.is_app(e) and e.decl().kind() == z3.Z3_OP_MUL:
                for i, c in enumerate(e.children()):
                    if z3.is_app(c) and c.decl().kind() == z3.Z3_OP_ITE:
                        rest = [x for j, x in enumerate(e.children()) if j != i]
                        cond, a, b = c.children()
                        prod = lambda v: z3.simplify(z3.Product(*(rest + [v])) if rest else v)
                        return self.monomials(z3.If(cond, prod(a), prod(b)), depth + 1)
            if z3.is_app(e) and e.decl().kind() == z3.Z3_OP_ADD:
                return [m for c in e.children() for m in self.monomials(c, depth + 1)]
            return [([], [], e)]
        kind = e.decl().kind()
        ch = e.children()
        if self.is_sum(e):
            binders, body = self.expand(e)
            return [(binders + bi, g, t) for bi, g, t in self.monomials(body, depth + 1)]
        if kind == z3.Z3_OP_ADD:
            return [m for c in ch for m in self.monomials(c, depth + 1)]
        if kind == z3.Z3_OP_SUB:
            out = self.monomials(ch[0], depth + 1)
            for c in ch[1:]:
                out = out + [(bi, g, -t) for bi, g, t in self.monomials(c, depth + 1)]
            return out
        if kind == z3.Z3_OP_UMINUS:
            return [(bi, g, -t) for bi, g, t in self.monomials(ch[0], depth + 1)]
        if kind == z3.Z3_OP_MUL:
            acc = [([], [], None)]
            for c in ch:
                ms = self.monomials(c, depth + 1)
                acc = [
                    (b1 + b2, g1 + g2, t2 if t1 is None else t1 * t2)
                    for b1, g1, t1 in acc
                    for b2, g2, t2 in ms
                ]
            return acc
        if kind == z3.Z3_OP_ITE and not self.has_sum(ch[0]):
            return [(bi, [ch[0]] + g, t) for bi, g, t in self.monomials(ch[1], depth + 1)] + [
                (bi, [z3.Not(ch[0])] + g, t) for bi, g, t in self.monomials(ch[2], depth + 1)
            ]
        if kind == z3.Z3_OP_TO_REAL:
            return [(bi, g, z3.ToReal(t)) for bi, g, t in self.monomials(ch[0], depth + 1)]
        if kind == z3.Z3_OP_DIV and e.sort() == z3.RealSort():
            return [(bi, g, t / ch[1]) for bi, g, t in self.monomials(ch[0], depth + 1)]
        return [([], [], e)]

    def reduce_mono(self, mono, facts):
        """delta elimination and guard simplification; None if it vanishes"""
        binders, guards, term = mono
        binders = list(binders)
        changed = True
        atoms = flat_and(guards)
        if any(z3.is_false(a) for a in atoms):
            return None
        while changed:
            changed = False
            atoms = split_pair(atoms, binders)
            fixed = joint(atoms, binders, self.mentions)
            if fixed is not None:
                binders = [b for b in binders if not b.eq(fixed[0])]
                atoms = flat_and([z3.substitute(x, fixed) for x in atoms])
                term = z3.substitute(term, fixed)
                changed = True
                continue
            for a in atoms:
                if not z3.is_eq(a):
                    continue
                for lhs, rhs in ((a.arg(0), a.arg(1)), (a.arg(1), a.arg(0))):
                    hit = next((b for b in binders if b.eq(lhs)), None)
                    target = rhs
                    if hit is None:
                        # k + c == t  (linear in a binder with coefficient +-1)
                        solved = solve_linear(a, binders)
                        if solved is None:
                            continue
                        hit, target = solved
                    if hit.decl().name() in free_consts(target) or self.mentions(target, {hit.decl().name()}):
                        continue
                    binders = [b for b in binders if not b.eq(hit)]
                    atoms = flat_and([z3.substitute(x, (hit, target)) for x in atoms])
                    term = z3.substitute(term, (hit, target))
                    changed = True
                    break
                if changed:
                    break
            if any(z3.is_false(a) for a in atoms):
                return None
        term = z3.simplify(term)
        if (z3.is_int_value(term) or z3.is_rational_value(term)) and str(term) == "0":
            return None
        # (condition) * ite inside the term
        if self.infeasible(list(self.axioms) + list(facts) + atoms, 1500):
            return None
        # conditions implied by the others
        for a in [x for x in atoms if has_quantifier(x)]:
            rest = [x for x in atoms if not x.eq(a)]
            if self.by_witness(list(facts) + rest, a, 1500):
                atoms = rest
        return (binders, atoms, term)

    def normal(self, e, facts):
        out = []
        todo = self.monomials(e)
        while todo:
            m = self.reduce_mono(todo.pop(0), facts)
            if m is None:
                continue
            if self.has_sum(m[2]):
                more = self.monomials(m[2])
                if not (len(more) == 1 and not more[0][0]):
                    todo = [(m[0] + b, m[1] + g, t) for b, g, t in more] + todo
                    continue
            out.append(m)
        return out

    def equal(self, facts, lhs, rhs, timeout=None):
        """facts |- lhs == rhs, with sums.  True/False/None"""
        if lhs.sort() != rhs.sort():
            if lhs.sort() == z3.IntSort():
                lhs = z3.ToReal(lhs)
            if rhs.sort() == z3.IntSort():
                rhs = z3.ToReal(rhs)
        if lhs.eq(rhs):
            return True
        if not self.has_sum(lhs) and not self.has_sum(rhs):
            return self.valid(facts, lhs == rhs, timeout)
        if self.check([f for f in facts if not has_quantifier(f)] + [lhs != rhs], 1000) == "unsat":
            return True
        left, right = self.normal(lhs, facts), self.normal(rhs, facts)
        groups = {}
        for sign, monos in ((1, left), (-1, right)):
            for binders, guards, term in monos:
                key = tuple(sorted(str(b.sort()) for b in binders))
                groups.setdefault(key, []).append((sign, binders, guards, term))
        result = True
        for key, monos in sorted(groups.items(), key=lambda kv: len(kv[0])):
            answer = self._group(facts, key, monos, timeout)
            if answer is not True:
                self.last_reason = f"sums differ over binders {key}: " + "; ".join(
                    f"{'+' if s > 0 else '-'} Σ{[str(x) for x in b]} [{z3.And(*g) if g else True}] {t}" for s, b, g, t in monos
                )[:3000]
                result = False if answer is False else None
                return result
        return result

    def nonneg(self, facts, e):
        """facts |- e >= 0, summand by summand (sum_nonneg)"""
        return all(
            self.valid(list(facts) + list(guards), term >= zero(term)) is True for _, guards, term in self.normal(e, facts)
        )

    def positive(self, facts, e):
        """facts |- e > 0: no summand is negative and some is positive (sum_pos)"""
        monos = self.normal(e, facts)
        for binders, guards, term in monos:
            if self.valid(list(facts) + list(guards), term >= zero(term)) is not True:
                return None
        cases = [z3.And(*(list(guards) + [term > zero(term)])) for _, guards, term in monos]
        goal = z3.Or(*[z3.Exists(m[0], c) if m[0] else c for m, c in zip(monos, cases)])
        return self.valid(facts, goal)

    def reindexings(self, pairs, guards, term):
        """bijective changes of one integer binder: b -> c - b"""
        out = [pairs]
        ints = [i for i, (b, _) in enumerate(pairs) if b.sort() == z3.IntSort()]
        if len(ints) == 1:
            bound = {b.decl().name() for b, _ in pairs}
            free = {}
            for g in list(guards) + [term]:
                for n, c in free_consts(g).items():
                    if c.sort() == z3.IntSort() and n not in bound and not self.is_sum(c):
                        free[n] = c
            for c in list(free.values())[:4]:
                alt = list(pairs)
                b, target = alt[ints[0]]
                alt[ints[0]] = (b, c - target)
                out.append(alt)
        return out

    def _group(self, facts, key, monos, timeout):
        base = sorted(monos[0][1], key=lambda b: str(b.sort()))
        options = []
        for sign, binders, guards, term in monos:
            if not options:
                options.append([(sign, guards, term)])
                continue
            variants = []
            for perm in itertools.permutations(base):
                if [str(p.sort()) for p in perm] != [str(b.sort()) for b in binders]:
                    continue
                pairs = list(zip(binders, perm))
                for change in self.reindexings(pairs, guards, term):
                    variants.append(
                        (
                            sign,
                            [z3.substitute(g, *change) for g in guards] if change else guards,
                            z3.substitute(term, *change) if change else term,
                        )
                    )
            options.append(variants)
        count = 1
        for o in options:
            count *= len(o)
        answer = None
        totals = []
        for combo in itertools.product(*options) if count <= 200 else [[o[0] for o in options]]:
            total = None
            for sign, guards, term in combo:
                value = z3.If(z3.And(*guards), term, zero(term)) if guards else term
                value = value if sign > 0 else -value
                total = value if total is None else total + value
            totals.append(total)
        ground = [f for f in list(self.axioms) + list(facts) if not has_quantifier(f)]
        for total in totals:
            if self.check(ground + [total != zero(total)], 1500) == "unsat":
                return True
        for total in totals:
            got = self.valid(facts, total == zero(total), timeout)
            if got is True:
                return True
            if got is False:
                answer = False if answer is None else answer
        return answer


def zero(e):
    return z3.RealVal(0) if e.sort() == z3.RealSort() else z3.IntVal(0)


def flat_and(guards):
    out = []
    stack = [z3.simplify(g) if not isinstance(g, bool) else z3.BoolVal(g) for g in guards]
    while stack:
        g = stack.pop(0)
        if z3.is_true(g):
            continue
        if z3.is_and(g):
            stack = list(g.children()) + stack
            continue
        if z3.is_not(g) and z3.is_or(g.arg(0)):
            stack = [z3.Not(c) if not z3.is_not(c) else c.arg(0) for c in g.arg(0).children()] + stack
            continue
        if not any(g.eq(x) for x in out):
            out.append(g)
    return out


def split_pair(atoms, binders):
    """t == mk(a, b) is value(t) == a and cset(t) == b (unless t is itself a binder)"""
    out, changed = [], False
    for a in atoms:
        if z3.is_eq(a) and a.arg(0).sort().kind() == z3.Z3_DATATYPE_SORT and not any(b.eq(s) for b in binders for s in a.children()):
            l, r = a.children()
            sort = l.sort()
            mk = sort.constructor(0)
            if l.decl().eq(mk) or r.decl().eq(mk):
                changed = True
                for k in range(mk.arity()):
                    acc = sort.accessor(0, k)
                    out.append(z3.simplify(acc(l)) == z3.simplify(acc(r)))
                continue
        out.append(a)
    return flat_and(out) if changed else atoms


def joint(atoms, binders, mentions):
    """(b, mk(t...)) for a binder whose components are all fixed"""
    for b in binders:
        if b.sort().kind() != z3.Z3_DATATYPE_SORT:
            continue
        mk = b.sort().constructor(0)
        parts = []
        for k in range(mk.arity()):
            acc = b.sort().accessor(0, k)(b)
            found = None
            for a in atoms:
                if z3.is_eq(a):
                    for l, r in ((a.arg(0), a.arg(1)), (a.arg(1), a.arg(0))):
                        if l.eq(acc) and not mentions(r, {b.decl().name()}):
                            found = r
            if found is None:
                break
            parts.append(found)
        if len(parts) == mk.arity():
            return b, mk(*parts)
    return None


def solve_linear(atom, binders):
    """binder isolated from an integer equation where it has coefficient +-1"""
    lhs, rhs = atom.arg(0), atom.arg(1)
    if lhs.sort() != z3.IntSort():
        return None
    for b in binders:
        if b.sort() != z3.IntSort():
            continue
        expr = lhs - rhs
        at0 = z3.simplify(z3.substitute(expr, (b, z3.IntVal(0))))
        coef = z3.simplify(z3.substitute(expr, (b, z3.IntVal(1))) - at0)
        if z3.is_int_value(coef) and abs(coef.as_long()) == 1:
            # check linearity
            if z3.is_true(z3.simplify(expr - (at0 + coef * b) == 0)):
                target = z3.simplify(-at0 if coef.as_long() == 1 else at0)
                if b.decl().name() not in free_consts(target):
                    return b, target
    return None
