"""Reference semantics used by the bounded run-time contract checks (runs on the
interpreter of the repository, PyPy 3.9).  Written from the property statements;
imports nothing from python_dice."""
import itertools
from fractions import Fraction

# ---------------------------------------------------------------- dice types
# ("n", sides) | ("%",) | ("F",) | ("list", [entry...], style)
# entry = (a, b or None, mult or None)


def die_faces(die):
    faces = {}

    def add(face, amount):
        if amount:
            faces[face] = faces.get(face, 0) + amount

    if die[0] == "n":
        for face in range(1, die[1] + 1):
            add(face, 1)
    elif die[0] == "%":
        for face in range(1, 101):
            add(face, 1)
    elif die[0] == "F":
        for face in (-1, 0, 1):
            add(face, 1)
    else:
        for low, high, mult in die[1]:
            amount = 1 if mult is None else mult
            if high is None:
                add(low, amount)
            else:
                for face in range(min(low, high), max(low, high) + 1):
                    add(face, amount)
    return faces


def digits(number, zeros):
    return ("-" if number < 0 else "") + "0" * zeros + str(abs(number))


def entry_text(entry, zeros=0):
    low, high, mult = entry
    text = digits(low, zeros)
    if high is not None:
        text += "-" + digits(high, zeros)
    if mult is not None:
        text += "*" + digits(mult, zeros)
    return text


def die_text(die):
    if die[0] == "n":
        return digits(die[1], die[2] if len(die) > 2 else 0)
    if die[0] in "%F":
        return die[0]
    style = die[2] if len(die) > 2 else 0
    sep = [",", ", ", " , ", ",  "][style & 3]
    body = sep.join(entry_text(e, style >> 4) for e in die[1])
    if style & 4:
        body += ","
    if style & 8:
        body = " " + body + " "
    return "[" + body + "]"


def dice_text(number, die):
    return ("" if number is None else str(number)) + "d" + die_text(die)


def conv(one, two):
    out = {}
    for a, c in one.items():
        for b, d in two.items():
            out[a + b] = out.get(a + b, 0) + c * d
    return out


def dice_counts(number, die):
    faces = die_faces(die)
    out = {0: 1}
    for _ in range(1 if number is None else number):
        out = conv(out, faces)
    return out


def dk_counts(number, die, mode, amount):
    """weighted N-tuples, K highest kept / dropped (by plain enumeration of
    multisets)."""
    faces = die_faces(die)
    number = 1 if number is None else number
    if (amount == 0) if mode == "k" else (amount >= number):
        return {0: 1}
    states = {(): 1}
    for _ in range(number):
        new = {}
        for key, count in states.items():
            for face, weight in faces.items():
                nkey = tuple(sorted(key + (face,), reverse=True))
                new[nkey] = new.get(nkey, 0) + count * weight
        states = new
    out = {}
    for key, count in states.items():
        chosen = key[:amount] if mode == "k" else key[amount:]
        total = sum(chosen)
        out[total] = out.get(total, 0) + count
    return out


# ---------------------------------------------------------------- operators
def _b(x):
    return 1 if x else 0


OPS = {
    "+": lambda a, b: a + b,
    "-": lambda a, b: a - b,
    "*": lambda a, b: a * b,
    "//": lambda a, b: a // b,
    "==": lambda a, b: _b(a == b),
    "!=": lambda a, b: _b(a != b),
    "<=": lambda a, b: _b(a <= b),
    "<": lambda a, b: _b(a < b),
    ">=": lambda a, b: _b(a >= b),
    ">": lambda a, b: _b(a > b),
    "AND": lambda a, b: _b(a > 0 and b > 0),
    "OR": lambda a, b: _b(a > 0 or b > 0),
    "MAX": lambda a, b: a if a >= b else b,
    "MIN": lambda a, b: a if a <= b else b,
}
BINARY = ["==", "!=", "<=", "<", ">=", ">", "AND", "OR"]


def un_abs(a):
    return a if a >= 0 else -a


def un_not(a):
    return _b(not a > 0)


def combine(op, one, two):
    out = {}
    for a, c in one.items():
        for b, d in two.items():
            r = OPS[op](a, b)
            out[r] = out.get(r, 0) + c * d
    return out


def unary(fn, one):
    out = {}
    for a, c in one.items():
        out[fn(a)] = out.get(fn(a), 0) + c
    return out


# ---------------------------------------------------------------- expressions
# ("c",n) ("t",bool) ("d",N,die) ("k",N,die,mode,K) ("o",op,l,r) ("a",e) ("n",e)
# ("p",e) ("v",name) ("=",name,e)


def text(e):
    kind = e[0]
    if kind == "c":
        return str(e[1])
    if kind == "t":
        return "True" if e[1] else "False"
    if kind == "d":
        return dice_text(e[1], e[2])
    if kind == "k":
        return dice_text(e[1], e[2]) + e[3] + str(e[4])
    if kind == "o":
        if e[1] in ("MAX", "MIN"):
            return f"{e[1]}({text(e[2])}, {text(e[3])})"
        return f"({text(e[2])}) {e[1]} ({text(e[3])})"
    if kind == "a":
        return f"ABS({text(e[1])})"
    if kind == "n":
        return f"!({text(e[1])})"
    if kind == "p":
        return f"({text(e[1])})"
    if kind == "v":
        return e[1]
    if kind == "=":
        return f"VAR {e[1]} = {text(e[2])}"
    raise AssertionError(kind)


def variables(e):
    if e[0] == "v":
        return {e[1]}
    out = set()
    for part in e[1:]:
        if isinstance(part, tuple) and part and part[0] in "ctdkoanpv=":
            out |= variables(part)
    return out


def leaf_counts(e):
    if e[0] == "c":
        return {e[1]: 1}
    if e[0] == "t":
        return {1 if e[1] else 0: 1}
    if e[0] == "d":
        return dice_counts(e[1], e[2])
    if e[0] == "k":
        return dk_counts(e[1], e[2], e[3], e[4])
    return None


def cond_counts(e, env):
    """distribution of e given the values of the variables (true semantics)"""
    leaf = leaf_counts(e)
    if leaf is not None:
        return leaf
    if e[0] == "v":
        return {env[e[1]]: 1}
    if e[0] == "p":
        return cond_counts(e[1], env)
    if e[0] == "a":
        return unary(un_abs, cond_counts(e[1], env))
    if e[0] == "n":
        return unary(un_not, cond_counts(e[1], env))
    if e[0] == "o":
        return combine(e[1], cond_counts(e[2], env), cond_counts(e[3], env))
    raise AssertionError(e)


def true_program(lines):
    """joint enumeration: every VAR is drawn once.  Returns for every name (and
    stdout) its normalised distribution at the end; raises ZeroDivisionError."""
    envs = {(): Fraction(1)}
    stdout = None
    names = []
    for line in lines:
        new = {}
        out = {}
        for env, weight in envs.items():
            denv = dict(env)
            expr = line[2] if line[0] == "=" else line
            counts = cond_counts(expr, denv)
            total = sum(counts.values())
            for value, count in counts.items():
                p = weight * Fraction(count, total)
                out[value] = out.get(value, 0) + p
                if line[0] == "=":
                    nenv = dict(denv)
                    nenv[line[1]] = value
                    key = tuple(sorted(nenv.items()))
                    new[key] = new.get(key, 0) + p
        if line[0] == "=":
            envs = new
            if line[1] not in names:
                names.append(line[1])
        stdout = out
    result = {}
    for name in names:
        dist = {}
        for env, weight in envs.items():
            v = dict(env)[name]
            dist[v] = dist.get(v, 0) + weight
        result[name] = dist
    result["stdout"] = stdout
    return result


def product_program(lines):
    """the same with the weight of a variable counted once per reference (the
    recorded known finding of C07): outcome maps (value, bindings) -> count."""
    state = {}
    times = {}
    stdout = None

    def ev(e):
        leaf = leaf_counts(e)
        if leaf is not None:
            return {(v, ()): c for v, c in leaf.items()}
        if e[0] == "v":
            return state[e[1]]
        if e[0] == "p":
            return ev(e[1])
        if e[0] in "an":
            fn = un_abs if e[0] == "a" else un_not
            out = {}
            for (v, b), c in ev(e[1]).items():
                out[(fn(v), b)] = out.get((fn(v), b), 0) + c
            return out
        if e[0] == "o":
            one, two = ev(e[2]), ev(e[3])
            out = {}
            for (v, b), c in one.items():
                db = dict(b)
                for (w, b2), d in two.items():
                    ok = all(db.get(n, x) == x for n, x in b2)
                    value = OPS[e[1]](v, w)
                    if not ok:
                        continue
                    nb = dict(db)
                    nb.update(b2)
                    key = (value, tuple(sorted(nb.items())))
                    out[key] = out.get(key, 0) + c * d
            return out
        raise AssertionError(e)

    for line in lines:
        if line[0] == "=":
            dist = ev(line[2])
            times[line[1]] = times.get(line[1], 0) + 1
            fresh = (line[1], times[line[1]])
            bound = {}
            for (v, b), c in dist.items():
                key = (v, tuple(sorted(b + ((fresh, v),))))
                bound[key] = bound.get(key, 0) + c
            state[line[1]] = bound
        else:
            dist = ev(line)
        stdout = dist
    out = {}
    for name, dist in list(state.items()) + [("stdout", stdout)]:
        counts = {}
        for (v, _), c in dist.items():
            counts[v] = counts.get(v, 0) + c
        out[name] = counts
    return out


def normalise(counts):
    total = sum(counts.values())
    return {k: Fraction(v, total) for k, v in counts.items() if v}


def true_values(lines):
    """set of joint (env) values; used for supports"""
    return true_program(lines)
