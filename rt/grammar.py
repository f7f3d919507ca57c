"""The language of the documentation: tokens, precedence, evaluation.
Independent of python_dice (hand written precedence climbing parser)."""
import re

import ref

ENTRY = r"-?[0-9]+(?:--?[0-9]+)?(?:\*[0-9]+)?"
DIE = r"(?:[0-9]+|%|F|\[\s*" + ENTRY + r"(?:\s*,\s*" + ENTRY + r")*\s*,?\s*\])"
TOKENS = [
    ("(", r"\("),
    (")", r"\)"),
    (",", r","),
    ("!", r"!(?!=)"),
    ("DK", r"[0-9]*d" + DIE + r"[kd][0-9]+"),
    ("DICE", r"[0-9]*d" + DIE),
    ("BIN", r"==|!=|<=|<|>=|>|\bAND\b|\bOR\b"),
    ("INT", r"-?[0-9]+"),
    ("BOOL", r"\bTrue\b|\bFalse\b"),
    ("ADD", r"\+|-"),
    ("MUL", r"\*|//"),
    ("MINMAX", r"\bMAX\b|\bMIN\b"),
    ("ABS", r"\bABS\b"),
    ("=", r"=(?!=)"),
    ("VAR", r"\bVAR\b"),
    ("NAME", r"\b[a-z_]+\b"),
]
COMPILED = [(kind, re.compile(pattern)) for kind, pattern in TOKENS]
BLANK = re.compile(r"\s+")
RANK = {"ADD": 1, "MUL": 2, "BIN": 3}


def lex(text):
    """list of (kind, text), or None where some character starts no token"""
    out = []
    pos = 0
    while pos < len(text):
        match = BLANK.match(text, pos)
        if match:
            pos = match.end()
            continue
        for kind, pattern in COMPILED:
            match = pattern.match(text, pos)
            if match and match.end() > pos:
                out.append((kind, match.group()))
                pos = match.end()
                break
        else:
            return None
    return out


class Reject(Exception):
    pass


def parse(tokens):
    if tokens is None:
        return None
    stream = list(tokens) + [("end", "")]
    pos = [0]

    def peek():
        return stream[pos[0]]

    def take(kind):
        token = stream[pos[0]]
        if token[0] != kind:
            raise Reject()
        pos[0] += 1
        return token[1]

    def prefix():
        kind, word = peek()
        if kind == "(":
            take("(")
            inner = expression(0)
            take(")")
            return ("p", inner)
        if kind == "!":
            take("!")
            return ("n", expression(0))
        if kind == "VAR":
            take("VAR")
            name = take("NAME")
            take("=")
            return ("=", name, expression(0))
        if kind == "ABS":
            take("ABS")
            take("(")
            inner = expression(0)
            take(")")
            return ("a", inner)
        if kind == "MINMAX":
            take("MINMAX")
            take("(")
            one = expression(0)
            take(",")
            two = expression(0)
            take(")")
            return ("m", word, one, two)
        if kind in ("DK", "DICE", "INT", "BOOL", "NAME"):
            take(kind)
            return ("leaf", kind, word)
        raise Reject()

    def expression(level):
        left = prefix()
        while peek()[0] in RANK and RANK[peek()[0]] > level:
            kind = peek()[0]
            word = take(kind)
            right = expression(RANK[kind])
            left = ("o", word, left, right)
        return left

    try:
        tree = expression(0)
        if peek()[0] != "end":
            return None
        return tree
    except Reject:
        return None


def evaluate(tree, env, bitand=False):
    """roll of a tree without dice; env: name -> value (assignments update it)"""
    kind = tree[0]
    if kind == "p":
        return evaluate(tree[1], env, bitand)
    if kind == "n":
        return ref.un_not(evaluate(tree[1], env, bitand))
    if kind == "a":
        return ref.un_abs(evaluate(tree[1], env, bitand))
    if kind == "=":
        value = evaluate(tree[2], env, bitand)
        env[tree[1]] = value
        return value
    if kind == "m":
        one = evaluate(tree[2], env, bitand)
        return ref.OPS[tree[1]](one, evaluate(tree[3], env, bitand))
    if kind == "o":
        if tree[1] == "//":
            # the divisor is looked at first
            two = evaluate(tree[3], env, bitand)
            if two == 0:
                raise ZeroDivisionError()
            return evaluate(tree[2], env, bitand) // two
        one = evaluate(tree[2], env, bitand)
        two = evaluate(tree[3], env, bitand)
        if tree[1] == "AND" and bitand:
            return 1 if one & two else 0
        return ref.OPS[tree[1]](one, two)
    if tree[1] == "INT":
        return int(tree[2])
    if tree[1] == "BOOL":
        return 1 if tree[2] == "True" else 0
    if tree[1] == "NAME":
        if tree[2] not in env:
            raise KeyError(tree[2])
        return env[tree[2]]
    raise AssertionError(tree)


def show(tree):
    kind = tree[0]
    if kind == "p":
        return f"({show(tree[1])})"
    if kind == "n":
        return f"!{show(tree[1])}"
    if kind == "a":
        return f"ABS({show(tree[1])})"
    if kind == "=":
        return f"VAR {tree[1]} = {show(tree[2])}"
    if kind == "m":
        return f"{tree[1]}({show(tree[2])}, {show(tree[3])})"
    if kind == "o":
        return f"{show(tree[2])} {tree[1]} {show(tree[3])}"
    return tree[2]


def contained(tree):
    kind = tree[0]
    if kind in "pna":
        return contained(tree[1])
    if kind == "=":
        return set()
    if kind in "mo":
        return contained(tree[2]) | contained(tree[3])
    return {tree[2]} if tree[1] == "NAME" else set()
