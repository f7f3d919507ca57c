"""Do two ordered lists of token patterns match the same thing at every position of
every (ASCII) text?

Each list is one ordered alternation, compiled to a program with prioritised
threads (the semantics of the backtracking matcher of re: first alternative first,
greedy repetition first).  The subset construction over ordered thread lists is a
finite automaton; the product of two of them, with the last two characters as
context for \\b and lookbehind, decides equality.  A difference comes with a text."""
import re

from values import Unsupported

try:
    from re import _parser as sre
except ImportError:  # pragma: no cover
    import sre_parse as sre

ASCII = [chr(c) for c in range(128)]
END = "END"


def category(name):
    table = {
        "CATEGORY_DIGIT": r"\d",
        "CATEGORY_NOT_DIGIT": r"\D",
        "CATEGORY_SPACE": r"\s",
        "CATEGORY_NOT_SPACE": r"\S",
        "CATEGORY_WORD": r"\w",
        "CATEGORY_NOT_WORD": r"\W",
    }
    if name not in table:
        raise Unsupported(f"pattern category {name}")
    return frozenset(c for c in ASCII if re.match(table[name], c))


def char_set(op, arg):
    """set of characters of a one-character pattern, or None"""
    name = str(op)
    if name == "LITERAL":
        return frozenset([chr(arg)]) if arg < 128 else frozenset()
    if name == "NOT_LITERAL":
        return frozenset(ASCII) - {chr(arg)}
    if name == "ANY":
        return frozenset(ASCII) - {"\n"}
    if name == "IN":
        out, negate = set(), False
        for o, a in arg:
            n = str(o)
            if n == "NEGATE":
                negate = True
            elif n == "RANGE":
                out |= {chr(c) for c in range(a[0], min(a[1], 127) + 1)}
            elif n == "CATEGORY":
                out |= category(str(a))
            else:
                out |= char_set(o, a)
        return frozenset(ASCII) - out if negate else frozenset(out)
    return None


WORD = category("CATEGORY_WORD")


class Program:
    def __init__(self):
        self.code = []

    def emit(self, *ins):
        self.code.append(list(ins))
        return len(self.code) - 1

    def pattern(self, p):
        for op, arg in p:
            self.item(op, arg)

    def item(self, op, arg):
        s = char_set(op, arg)
        name = str(op)
        if s is not None:
            self.emit("char", s)
        elif name == "SUBPATTERN":
            if arg[1] or arg[2]:
                raise Unsupported("flags in a pattern")
            self.pattern(arg[3])
        elif name == "BRANCH":
            ends = []
            choices = arg[1]
            for n, c in enumerate(choices):
                if n < len(choices) - 1:
                    split = self.emit("split", None, None)
                    self.code[split][1] = len(self.code)
                    self.pattern(c)
                    ends.append(self.emit("jump", None))
                    self.code[split][2] = len(self.code)
                else:
                    self.pattern(c)
            for e in ends:
                self.code[e][1] = len(self.code)
        elif name in ("MAX_REPEAT", "MIN_REPEAT"):
            lo, hi, body = arg
            lazy = name == "MIN_REPEAT"
            many = hi == sre.MAXREPEAT
            if not many and hi > 60 or lo > 60:
                raise Unsupported("long repetition")
            for _ in range(lo):
                self.pattern(body)
            if many:
                if body.getwidth()[0] == 0:
                    raise Unsupported("repetition of the empty word")
                split = self.emit("split", None, None)
                start = len(self.code)
                self.pattern(body)
                self.emit("jump", split)
                a, b = start, len(self.code)
                self.code[split][1:] = [b, a] if lazy else [a, b]
            else:
                for _ in range(hi - lo):
                    split = self.emit("split", None, None)
                    start = len(self.code)
                    self.pattern(body)
                    self.code[split].append("optional")
                    self.code[split][1] = start
                # every optional part leaves to the end
                for ins in self.code:
                    if ins[0] == "split" and ins[-1] == "optional":
                        a, b = ins[1], len(self.code)
                        ins[1:] = [b, a] if lazy else [a, b]
        elif name == "AT":
            at = str(arg)
            if at not in ("AT_BOUNDARY", "AT_NON_BOUNDARY"):
                raise Unsupported(f"anchor {at}")
            self.emit("boundary", at == "AT_BOUNDARY")
        elif name in ("ASSERT", "ASSERT_NOT"):
            direction, body = arg
            sets = []
            for o, a in body:
                s = char_set(o, a)
                if s is None:
                    raise Unsupported("lookaround")
                sets.append(s)
            if direction > 0 and len(sets) == 1:
                self.emit("ahead", name == "ASSERT", sets[0])
            elif direction < 0 and 1 <= len(sets) <= 2:
                self.emit("behind", name == "ASSERT", tuple(sets))
            else:
                raise Unsupported("lookaround")
        else:
            raise Unsupported(f"pattern {name}")


class Matcher:
    """ordered alternation of tagged patterns"""

    def __init__(self, rules):
        prog = Program()
        for n, (tag, text) in enumerate(rules):
            split = prog.emit("split", None, None) if n < len(rules) - 1 else None
            if split is not None:
                prog.code[split][1] = len(prog.code)
            prog.pattern(sre.parse(text))
            prog.emit("match", tag)
            if split is not None:
                prog.code[split][2] = len(prog.code)
        self.code = prog.code

    def sets(self):
        for ins in self.code:
            if ins[0] == "char":
                yield ins[1]
            if ins[0] == "ahead":
                yield ins[2]

    def behind(self):
        for ins in self.code:
            if ins[0] == "behind":
                yield from ins[2]

    def close(self, threads, hist, nxt):
        """(ordered threads waiting for a character, tag matched here or None)"""
        out, seen = [], set()

        def go(pc):
            """False: a match was found, nothing of lower priority counts"""
            stack = [pc]
            while stack:
                pc = stack.pop()
                if pc in seen:
                    continue
                seen.add(pc)
                ins = self.code[pc]
                kind = ins[0]
                if kind == "char":
                    out.append(pc)
                elif kind == "match":
                    return ins[1]
                elif kind == "jump":
                    stack.append(ins[1])
                elif kind == "split":
                    stack.append(ins[2])
                    stack.append(ins[1])
                elif kind == "boundary":
                    before = hist[1] is not None and hist[1] in WORD
                    after = nxt != END and nxt in WORD
                    if (before != after) == ins[1]:
                        stack.append(pc + 1)
                elif kind == "ahead":
                    if (nxt != END and nxt in ins[2]) == ins[1]:
                        stack.append(pc + 1)
                elif kind == "behind":
                    sets = ins[2]
                    chars = hist[2 - len(sets) :]
                    hit = all(c is not None and c in s for c, s in zip(chars, sets))
                    if hit == ins[1]:
                        stack.append(pc + 1)
            return None

        for pc in threads:
            tag = go(pc)
            if tag is not None:
                return out, tag
        return out, None

    def step(self, threads, c):
        return tuple(pc + 1 for pc in threads if c in self.code[pc][1])


class Result:
    pass


def compare(rules, ignored, want_rules, want_ignored):
    IGN = "ignored"
    a = Matcher([((IGN,), p) for p in ignored] + [(("token", n), p) for n, p in rules])
    b = Matcher([((IGN,), p) for p in want_ignored] + [(("token", n), p) for n, p in want_rules])
    sets = list(a.sets()) + list(b.sets()) + list(a.behind()) + list(b.behind()) + [WORD]
    classes = {}
    for c in ASCII:
        classes.setdefault(tuple(c in s for s in sets), c)
    letters = list(classes.values())
    hsets = list(a.behind()) + list(b.behind()) + [WORD]
    hclass = {}
    canon = {None: None}
    for c in letters:
        canon[c] = hclass.setdefault(tuple(c in s for s in hsets), c)
    hists = [(None, None)] + [(x, y) for x in [None] + list(hclass.values()) for y in hclass.values()]
    res = Result()
    res.ok, res.text, res.before, res.got, res.want, res.names = True, None, None, None, None, {}
    res.states = 0

    def fail(state, parents, extra, got, want):
        text = []
        while state is not None:
            parent, c = parents[state]
            if c is not None:
                text.append(c)
            if parent is None:
                res.before = "".join(x or "" for x in state[2])
            state = parent
        res.text = "".join(reversed(text)) + extra
        res.ok, res.got, res.want = False, got, want
        return res

    NONE = ("none", "none")
    parents = {}
    todo = []
    for h in hists:
        s = ((0,), (0,), h, NONE)
        parents[s] = (None, None)
        todo.append(s)
    while todo:
        state = todo.pop()
        ta, tb, hist, last = state
        res.states += 1
        if res.states > 400000:
            raise Unsupported("token patterns too large to compare")
        for c in letters + [END]:
            wa, ma = a.close(ta, hist, c)
            wb, mb = b.close(tb, hist, c)
            now = last
            if ma is not None or mb is not None:
                # a record of one matcher alone makes the records differ in place
                now = (ma if ma is not None else ("old",) + (last[0],), mb if mb is not None else ("old",) + (last[1],))
                if (ma is None) != (mb is None):
                    now = ("differ", ma, mb)
            na = a.step(wa, c) if c != END else ()
            nb = b.step(wb, c) if c != END else ()
            if not na and not nb:
                extra = "" if c == END else c
                if now[0] == "differ":
                    return fail(state, parents, extra, now[1], now[2])
                if now != NONE:
                    x, y = now
                    if x[0] == "token" and y[0] == "token":
                        if res.names.setdefault(x[1], y[1]) != y[1]:
                            return fail(state, parents, extra, x, y)
                    elif x != y:
                        return fail(state, parents, extra, x, y)
                continue
            nxt = (na, nb, (hist[1], canon[c]), now)
            if nxt not in parents:
                parents[nxt] = (state, c)
                todo.append(nxt)
    return res


def alone(rules, ignored, tag, first, before, after):
    """Is every text of this token, wherever it was read, read as this token again when it
    follows one of `before` and is followed by one of `after`, whatever comes then?

    tag: name of the token, None for ignored text; first: characters it may start with;
    before, after: characters, None and END for the ends of the text.
    Returns None or an example."""
    want = ("ignored",) if tag is None else ("token", tag)
    m = Matcher([(("ignored",), p) for p in ignored] + [(("token", n), p) for n, p in rules])
    sets = list(m.sets()) + list(m.behind()) + [WORD, frozenset(first)]
    sets += [frozenset(x for x in s if x is not None and x != END) for s in (before, after)]
    classes = {}
    for c in ASCII:
        classes.setdefault(tuple(c in s for s in sets), c)
    letters = list(classes.values())
    hsets = list(m.behind()) + [WORD]
    hclass, canon = {}, {None: None}
    for c in letters:
        canon[c] = hclass.setdefault(tuple(c in s for s in hsets), c)
    chars = list(hclass.values())
    hists = [(None, None)] + [(x, y) for x in [None] + chars for y in chars]
    earlier = {canon[c] for c in letters if c in before}
    new = [(x, y) for x, y in hists if (y is None and None in before) or (y is not None and y in earlier)]
    ends = [c for c in letters if c in after] + ([END] if END in after else [])
    parents, todo = {}, []
    for ha in hists:
        for hb in new:
            s = ((0,), (0,), ha, hb)
            parents[s] = (None, "")
            todo.append(s)
    while todo:
        state = todo.pop()
        ta, tb, ha, hb = state
        if len(parents) > 400000:
            raise Unsupported("token patterns too large to analyse")
        nonempty = parents[state][0] is not None
        if nonempty and any(m.close(ta, ha, c)[1] == want for c in letters + [END]):
            for c in ends:
                waiting, got = m.close(tb, hb, c)
                if got != want or (c != END and m.step(waiting, c)):
                    text, s = "", state
                    while parents[s][0] is not None:
                        s, x = parents[s]
                        text = x + text
                    return f"{text!r} between {''.join(x or '' for x in s[3])!r} and {c!r}"
        for c in letters:
            if not nonempty and c not in first:
                continue
            na = m.step(m.close(ta, ha, c)[0], c)
            if not na:
                continue
            nb = m.step(m.close(tb, hb, c)[0], c)
            nxt = (na, nb, (ha[1], canon[c]), (hb[1], canon[c]))
            if nxt not in parents:
                parents[nxt] = (state, c)
                todo.append(nxt)
    return None
