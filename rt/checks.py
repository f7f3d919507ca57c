"""Bounded run-time contract checks of the real code (one generator per property).

Every check_<ID>(ctx) exercises the public API of /repo's current tree on
enumerated and seeded random inputs and reports to ctx.  It is the replay /
failing-input search of the deductive check and the labelled bounded stand-in for
functions outside the verifier's subset."""
import bisect
import itertools
import math
import random as pyrandom
import re
from fractions import Fraction

import ref
from hot import hot, signed

from python_dice import PythonDiceInterpreter
from python_dice.interface.constraint.i_constraint import IConstraint
from python_dice.interface.expression.i_dice_expression import IDiceExpression
from python_dice.interface.i_python_dice_parser import IPythonDiceParser
from python_dice.src.constraint.constraint_factory import ConstraintFactory
from python_dice.src.constraint.constraint_merger import ConstraintMerger
from python_dice.src.constraint.constraint_set import ConstraintSet
from python_dice.src.constraint.constraint_set_factory import ConstraintSetFactory
from python_dice.src.expression.abs_expression import AbsExpression
from python_dice.src.expression.add_expression import AddExpression
from python_dice.src.expression.binary_operator_expression import BinaryOperatorExpression
from python_dice.src.expression.constant_binary_expression import ConstantBinaryExpression
from python_dice.src.expression.constant_integer_expression import ConstantIntegerExpression
from python_dice.src.expression.dice_expression import DiceExpression
from python_dice.src.expression.dice_expression_helper import get_single_dice_outcome_map
from python_dice.src.expression.drop_keep_expression import DropKeepExpression
from python_dice.src.expression.get_var_expression import GetVarExpression
from python_dice.src.expression.integer_division_expression import IntegerDivisionExpression
from python_dice.src.expression.minmax_expression import MinMaxExpression
from python_dice.src.expression.multiply_expression import MultiplyExpression
from python_dice.src.expression.not_expression import NotExpression
from python_dice.src.expression.parentheses_enclosed_expression import ParenthesisEnclosedExpression
from python_dice.src.expression.subtract_expression import SubtractExpression
from python_dice.src.expression.var_assignment_expression import VarAssignmentExpression
from python_dice.src.probability_distribution.probability_distribution_factory import ProbabilityDistributionFactory
from python_dice.src.probability_distribution.probability_distribution_state_factory import (
    ProbabilityDistributionStateFactory,
)
from python_dice.src.probability_distribution.probability_outcome import ProbabilityOutcome
from python_dice.src.probability_distribution.probability_outcome_factory import ProbabilityOutcomeFactory
from python_dice.src.python_dice_parser import PythonDiceParser

FACTORY = ProbabilityDistributionFactory()
PARSER = PythonDiceParser()


def fresh_interpreter():
    return PythonDiceInterpreter(parser=PARSER)


def attempt(fn):
    """("ok", value) or ("raise", exception class name)"""
    try:
        return ("ok", fn())
    except Exception as error:  # pylint: disable=broad-except
        return ("raise", type(error).__name__, str(error)[:200])


class Stub(IDiceExpression):
    """operand with given answers, counting the calls"""

    def __init__(self, roll=None, dist=None, mx=None, mn=None, cost=None, names=(), log=None, tag="", text="x"):
        self.r, self.d, self.mx, self.mn, self.c = roll, dist, mx, mn, cost
        self.names, self.tag, self.text = set(names), tag, text
        self.log = [] if log is None else log

    @staticmethod
    def add_production_function(parser_generator, probability_distribution_factory):
        raise AssertionError

    def roll(self):
        self.log.append((self.tag, "roll"))
        return self.r

    def max(self):
        self.log.append((self.tag, "max"))
        return self.mx if self.mx is not None else self.d.max()

    def min(self):
        self.log.append((self.tag, "min"))
        return self.mn if self.mn is not None else self.d.min()

    def estimated_cost(self):
        self.log.append((self.tag, "cost"))
        return self.c

    def get_probability_distribution(self):
        self.log.append((self.tag, "dist"))
        return self.d

    def get_contained_variables(self):
        return set(self.names)

    def __str__(self):
        return self.text


def binary_expression(op, one, two):
    if op == "+":
        return AddExpression(one, two)
    if op == "-":
        return SubtractExpression(one, two)
    if op == "*":
        return MultiplyExpression(one, two)
    if op == "//":
        return IntegerDivisionExpression(one, two)
    if op in ("MAX", "MIN"):
        return MinMaxExpression(op, one, two)
    return BinaryOperatorExpression(op, one, two)


def dist_op(op, one, two):
    if op == "+":
        return one + two
    if op == "-":
        return one - two
    if op == "*":
        return one * two
    if op == "//":
        return one // two
    if op == "==":
        return one.__equal__(two)
    if op == "!=":
        return one.__not_equal__(two)
    if op == "<":
        return one < two
    if op == "<=":
        return one <= two
    if op == ">":
        return one > two
    if op == ">=":
        return one >= two
    if op == "AND":
        return one & two
    if op == "OR":
        return one | two
    if op == "MAX":
        return one.max_operator(two)
    if op == "MIN":
        return one.min_operator(two)
    raise AssertionError(op)


# ------------------------------------------------------------------ generators
BASE_DICE = [
    ("n", 1),
    ("n", 2),
    ("n", 3),
    ("n", 4),
    ("n", 6),
    ("F",),
    ("list", [(5, None, None)]),
    ("list", [(-1, None, None), (1, None, None)]),
    ("list", [(-3, None, None), (-7, None, None)]),
    ("list", [(0, None, None), (10, None, None)]),
    ("list", [(9, None, None), (10, None, None), (-11, None, None)]),
    ("list", [(1, None, 3), (2, None, None), (8, None, 2)]),
    ("list", [(-2, -5, None), (3, 1, 2)]),
    ("list", [(2, None, None), (2, None, None), (-2, None, 4), (0, 2, None)]),
    ("list", [(100, None, None), (7, None, 5)], 4),
    ("list", [(-10, None, 2), (-9, None, None), (-1, None, None), (12, None, None)], 8),
]


def random_die(rng, max_entries=4, span=6, big=False):
    kind = rng.randrange(8)
    if kind == 0:
        return ("n", rng.randint(1, 8))
    if kind == 1:
        return ("F",)
    entries = []
    for _ in range(rng.randint(1, max_entries)):
        low = rng.randint(-span, span)
        if big and rng.random() < 0.3:
            low = rng.choice([-1000, -100, -99, -12, -10, 10, 11, 99, 100, 123, 1005])
        high = low + rng.randint(-3, 3) if rng.random() < 0.4 else None
        mult = rng.choice([1, 2, 3, 10]) if rng.random() < 0.35 else None
        entries.append((low, high, mult))
    return ("list", entries, rng.randrange(16))


def hot_die(rng, width=300):
    """a die with one feature of a magnitude taken from the source"""
    kind = rng.randrange(6)
    if kind == 0:
        return ("n", hot(rng, width))
    style = rng.randrange(16)
    if kind == 1:
        return ("list", [(signed(rng), None, None), (rng.randint(-3, 3), None, rng.choice([None, 2]))], style)
    if kind == 2:
        low = rng.choice([rng.randint(-5, 5), signed(rng, 10 ** 6)])
        ends = [low, low + hot(rng, width) - rng.randint(0, 1)]
        if rng.random() < 0.4:
            ends.reverse()
        return ("list", [(ends[0], ends[1], rng.choice([None, 3]))], style)
    if kind == 3:
        return ("list", [(rng.randint(-5, 5), None, hot(rng)), (rng.randint(-9, 9), None, None)], style)
    # blanks after the commas of a long list: lexing time doubles per entry (see DESIGN.md)
    count = hot(rng, 60)
    style = style if count < 10 else style & 4
    if kind == 4:
        base = rng.randint(-3, 3)
        return ("list", [(base + rng.randint(-9, 9), None, None) for _ in range(count)], style)
    return ("list", [(base, None, rng.choice([None, 1, 2])) for base in rng.sample(range(-80, 81), count)], style)


def hot_map(rng, span=None, size=150, nonzero=False):
    """counts with a value, a weight or a number of values of such a magnitude"""
    kind = rng.randrange(4)
    if kind == 0:
        out = random_map(rng)
        out[signed(rng, span)] = rng.randint(1, 4)
    elif kind == 1:
        out = random_map(rng)
        out[rng.randint(-4, 4)] = hot(rng)
    elif kind == 2:
        start = rng.randint(-20, 5)
        out = {start + i: rng.randint(1, 3) for i in range(hot(rng, size))}
    else:
        a = signed(rng, span)
        out = {a: rng.randint(1, 3), a + rng.choice([-1, 1]): 1}
    if nonzero:
        out.pop(0, None)
        if not out:
            out[1] = 1
    return out


def random_map(rng, size=5, span=8, weights=5, nonzero=False):
    out = {}
    for _ in range(rng.randint(1, size)):
        key = rng.randint(-span, span)
        if nonzero and key == 0:
            key = 1 + rng.randrange(3)
        out[key] = rng.randint(1, weights)
    return out


EDGE_MAPS = [
    {0: 1},
    {1: 1},
    {-1: 2},
    {0: 3, 1: 2},
    {-1: 1, 0: 1, 1: 1},
    {-2: 1, 3: 4},
    {5: 2, -5: 3, 7: 1},
    {2: 1, 3: 1, 4: 6},
    {-3: 1, -2: 5},
    {10: 1, -10: 1, 0: 7, 4: 2},
]


def random_expression(rng, depth, names, dice=None, ops=None, allow_div=True, leaf_var=0.5):
    ops = ops or ["+", "-", "*", "//", "==", "!=", "<=", "<", ">=", ">", "AND", "OR", "MAX", "MIN"]
    if depth == 0 or rng.random() < 0.2:
        if names and rng.random() < leaf_var:
            return ("v", rng.choice(names))
        kind = rng.randrange(8)
        if kind <= 1:
            if rng.random() < 0.08:
                return ("c", signed(rng, 10 ** 6))
            return ("c", rng.randint(-4, 7))
        if kind == 2:
            return ("t", rng.random() < 0.5)
        die = rng.choice(
            dice
            or [
                ("n", 2),
                ("n", 3),
                ("n", 4),
                ("F",),
                ("list", [(-1, None, 2), (2, None, None)]),
                ("list", [(-3, -1, None), (4, None, None)]),
            ]
        )
        if kind == 3:
            return ("k", rng.randint(1, 3), die, rng.choice("kd"), rng.randint(0, 3))
        return ("d", rng.choice([None, 1, 2, 2]), die)
    kind = rng.randrange(12)
    if kind == 0:
        return ("a", random_expression(rng, depth - 1, names, dice, ops, allow_div, leaf_var))
    if kind == 1:
        return ("n", random_expression(rng, depth - 1, names, dice, ops, allow_div, leaf_var))
    if kind == 2:
        return ("p", random_expression(rng, depth - 1, names, dice, ops, allow_div, leaf_var))
    op = rng.choice(ops)
    if op == "//" and not allow_div:
        op = "+"
    one = random_expression(rng, depth - 1, names, dice, ops, allow_div, leaf_var)
    two = random_expression(rng, depth - 1, names, dice, ops, allow_div, leaf_var)
    if op == "//" and rng.random() < 0.7:
        two = ("o", "+", ("a", two), ("c", rng.randint(1, 3)))
    return ("o", op, one, two)


def program_size(lines):
    """rough size of the joint space, to keep the enumeration small"""
    size = 1
    for line in lines:
        for leaf in leaves(line):
            if leaf[0] in "dk":
                faces = len(ref.die_faces(leaf[2]))
                size *= max(1, faces) ** (1 if leaf[1] is None else leaf[1])
    return size


def leaves(e):
    if e[0] in "ctdkv":
        return [e]
    if e[0] == "=":
        return leaves(e[2])
    if e[0] in "anp":
        return leaves(e[1])
    return leaves(e[2]) + leaves(e[3])


def counts_of(result_map):
    return {int(k): v for k, v in result_map.items() if v}


# ------------------------------------------------------------------ C01
def dice_work(number, faces, span):
    """combinations of outcomes made when dice are added one by one"""
    total = 0
    ways = 1  # multisets of faces drawn so far
    for k in range(1 if number is None else number):
        total += faces * min(span * k + 1, ways)
        ways = ways * (faces + k) // (k + 1)
    return total


def check_C01(ctx):
    def one(number, die):
        text = ref.dice_text(number, die)
        want = ref.dice_counts(number, die)
        got = attempt(lambda: dict(DiceExpression(text, FACTORY).get_probability_distribution().get_result_map()))
        ctx.case(text, len(want) > 1, ("ok", want), got, f"DiceExpression({text!r}).get_probability_distribution().get_result_map()")

    for die in BASE_DICE:
        for number in (None, 0, 1, 2, 3, 4):
            one(number, die)
    one(2, ("%",))
    one(None, ("%",))
    one(12, ("n", 6))
    one(10, ("n", 2))
    one(11, ("F",))
    one(1, ("n", 20))
    one(None, ("n", 100))
    for text, want in (("3d6", ref.dice_counts(3, ("n", 6))), ("0d4", {0: 1}), ("2dF", ref.dice_counts(2, ("F",)))):
        got = attempt(lambda: dict(fresh_interpreter().get_probability_distributions([text])["stdout"].get_result_map()))
        ctx.case("program " + text, True, ("ok", want), got, f"get_probability_distributions([{text!r}])")
    rng = ctx.rng
    while ctx.more():
        if rng.random() < 0.3:
            die = hot_die(rng) if rng.random() < 0.6 else random_die(rng)
            number = rng.choice([None, 1, 2, hot(rng, 120)])
            faces = len(ref.die_faces(die))
            span = max(ref.die_faces(die), default=0) - min(ref.die_faces(die), default=0)
            if faces and dice_work(number, faces, span) < 20000 and (number or 1) * faces < 900:
                one(number, die)
            continue
        die = random_die(rng, big=True)
        number = rng.choice([None, 0, 1, 2, 3, 4, 5, 6])
        faces = len(ref.die_faces(die))
        if faces == 0:
            continue
        if number is not None and number * faces > 60:
            continue
        one(number, die)


# ------------------------------------------------------------------ C02
def check_C02(ctx):
    def one(number, die, mode, amount):
        text = ref.text(("k", number, die, mode, amount))
        want = ref.dk_counts(number, die, mode, amount)
        got = attempt(lambda: dict(DropKeepExpression(text, FACTORY).get_probability_distribution().get_result_map()))
        ctx.case(text, len(want) > 1, ("ok", want), got, f"DropKeepExpression({text!r}).get_probability_distribution()")
        for _ in range(6):
            roll = attempt(lambda: DropKeepExpression(text, FACTORY).roll())
            ctx.truth(
                text + " roll",
                len(want) > 1,
                roll[0] == "ok" and roll[1] in want,
                f"DropKeepExpression({text!r}).roll() = {roll[1:]}, not a possible outcome of the term",
            )

    for die in BASE_DICE:
        for mode in "kd":
            for number, amount in ((None, 0), (None, 1), (1, 0), (1, 1), (0, 0), (0, 2), (2, 1), (3, 1), (3, 2), (2, 3), (3, 3), (3, 0), (4, 2)):
                if number == 4 and len(ref.die_faces(die)) > 5:
                    continue
                one(number, die, mode, amount)
    for number, die, mode, amount in (
        (5, ("n", 3), "k", 3),
        (5, ("n", 3), "d", 2),
        (6, ("n", 2), "k", 4),
        (6, ("F",), "d", 4),
        (4, ("n", 12), "k", 2),
        (4, ("n", 11), "d", 1),
        (12, ("n", 2), "k", 11),
        (12, ("n", 2), "d", 10),
    ):
        one(number, die, mode, amount)
    for text, number, die, mode, amount in (
        ("3d4k2", 3, ("n", 4), "k", 2),
        ("3d4d2", 3, ("n", 4), "d", 2),
        ("4d[1*3,5]k1", 4, ("list", [(1, None, 3), (5, None, None)]), "k", 1),
        ("3d[-2,2*4,9]d1", 3, ("list", [(-2, None, None), (2, None, 4), (9, None, None)]), "d", 1),
        ("3dFk5", 3, ("F",), "k", 5),
        ("2d3d0", 2, ("n", 3), "d", 0),
    ):
        statistic(ctx, text, DropKeepExpression(text, FACTORY).roll, ref.dk_counts(number, die, mode, amount))
    rng = ctx.rng
    while ctx.more():
        if rng.random() < 0.04:
            number, die = rng.choice([(2, weighted_die(rng)), (3, weighted_die(rng)), (hot(rng, 40), ("list", [(3, None, None), (-1, None, rng.choice([None, 4]))]))])
            if len(ref.die_faces(die)) ** number <= 200 or len(ref.die_faces(die)) == 2:
                mode, amount = rng.choice("kd"), rng.choice([1, 1, 2, number // 2])
                text = f"{ref.dice_text(number, die)}{mode}{amount}"
                statistic(ctx, text, DropKeepExpression(text, FACTORY).roll, ref.dk_counts(number, die, mode, amount), 500)
        if rng.random() < 0.25:
            die = hot_die(rng, 40) if rng.random() < 0.5 else ("n", rng.randint(1, 2))
            faces = len(ref.die_faces(die))
            number = rng.choice([1, 2, hot(rng, 40)])
            if 0 < faces and faces ** min(number, 3) <= 2500 and (number <= 3 or faces <= 2):
                one(number, die, rng.choice("kd"), rng.choice([rng.randint(0, 3), hot(rng, 50), max(0, number - rng.randint(0, 2))]))
            continue
        die = random_die(rng, big=True)
        faces = len(ref.die_faces(die))
        number = rng.choice([None, 1, 2, 3, 4, 5])
        if faces == 0 or faces ** (number or 1) > 3000:
            continue
        one(number, die, rng.choice("kd"), rng.randint(0, 6))


def weighted_die(rng):
    """faces in no particular order with very different multiplicities"""
    faces = rng.sample(range(-9, 20), rng.choice([2, 2, 2, 3, 4]))
    return ("list", [(f, None, rng.choice([None, 1, 2, 9, 40, hot(rng, 5000)])) for f in faces])


def statistic(ctx, label, roll, counts, times=6000):
    """Goodness of fit with a false alarm probability far below 1e-9 per test."""
    total = sum(counts.values())
    seen = {}
    pyrandom.seed(ctx.seed * 7919 + len(label))
    for _ in range(times):
        value = roll()
        seen[value] = seen.get(value, 0) + 1
    bad = [v for v in seen if v not in counts]
    problem = None
    if bad:
        problem = f"rolled {bad[:3]}, which cannot happen"
    else:
        for value, count in counts.items():
            p = count / total
            sigma = math.sqrt(times * p * (1 - p))
            if sigma and abs(seen.get(value, 0) - times * p) > 8 * sigma + 10:
                problem = f"value {value} rolled {seen.get(value, 0)} of {times} times, expected about {times * p:.0f}"
                break
    ctx.truth(label + " frequencies", len(counts) > 1, problem is None, f"{label}: {problem}")


# ------------------------------------------------------------------ C03
ALL_OPS = list(ref.OPS)


def check_C03(ctx):
    def one(op, m1, m2):
        if op == "//" and 0 in m2:
            return
        want = ref.combine(op, m1, m2)
        got = attempt(lambda: counts_of(dist_op(op, FACTORY.create(dict(m1)), FACTORY.create(dict(m2))).get_result_map()))
        ctx.case(f"{m1} {op} {m2}", len(m1) * len(m2) > 1, ("ok", want), got, f"distribution {m1} {op} distribution {m2}")
        got = attempt(
            lambda: counts_of(
                binary_expression(op, Stub(dist=FACTORY.create(dict(m1))), Stub(dist=FACTORY.create(dict(m2))))
                .get_probability_distribution()
                .get_result_map()
            )
        )
        ctx.case(f"expr {m1} {op} {m2}", len(m1) * len(m2) > 1, ("ok", want), got, f"expression over {m1} {op} {m2}")
        if m1 == m2:

            def itself():
                d = FACTORY.create(dict(m1))
                return counts_of(dist_op(op, d, d).get_result_map())

            ctx.case(f"itself {m1} {op}", len(m1) > 1, ("ok", want), attempt(itself), f"distribution {m1} {op} itself")

    def single(m):
        for name, fn, direct, expr in (
            ("ABS", ref.un_abs, lambda d: abs(d), AbsExpression),
            ("NOT", ref.un_not, lambda d: d.not_operator(), NotExpression),
            ("paren", lambda a: a, None, ParenthesisEnclosedExpression),
        ):
            want = ref.unary(fn, m)
            if direct is not None:
                got = attempt(lambda: counts_of(direct(FACTORY.create(dict(m))).get_result_map()))
                ctx.case(f"{name} {m}", len(m) > 1, ("ok", want), got, f"{name} of distribution {m}")
            got = attempt(
                lambda: counts_of(expr(Stub(dist=FACTORY.create(dict(m)))).get_probability_distribution().get_result_map())
            )
            ctx.case(f"expr {name} {m}", len(m) > 1, ("ok", want), got, f"{name} expression over {m}")

    for m in EDGE_MAPS:
        single(m)
    for op in ALL_OPS:
        for m1 in EDGE_MAPS:
            for m2 in EDGE_MAPS:
                one(op, m1, m2)
        for a in range(-3, 4):
            for b in range(-3, 4):
                one(op, {a: 2}, {b: 3})
    # operands with variables of their own
    for op in ALL_OPS:
        lines = [("=", "a", ("d", None, ("n", 3))), ("=", "b", ("d", None, ("list", [(-2, None, None), (1, None, 2)]))), ("o", op, ("v", "a"), ("v", "b"))]
        want = ref.product_program(lines)["stdout"]
        got = attempt(
            lambda: counts_of(
                fresh_interpreter().get_probability_distributions([ref.text(l) for l in lines])["stdout"].get_result_map()
            )
        )
        ctx.case("program " + op, True, ("ok", want), got, f"program {[ref.text(l) for l in lines]}")
    for op in ALL_OPS:
        text = f"3 {op} 2" if op not in ("MAX", "MIN") else f"{op}(3, 2)"
        got = attempt(lambda: counts_of(fresh_interpreter().get_probability_distributions([text])["stdout"].get_result_map()))
        ctx.case("program " + text, True, ("ok", {ref.OPS[op](3, 2): 1}), got, f"program {text!r}")
    rng = ctx.rng
    while ctx.more():
        if rng.random() < 0.25:
            op = rng.choice(ALL_OPS)
            left = hot_map(rng)
            right = hot_map(rng, nonzero=op == "//") if rng.random() < 0.5 else random_map(rng, nonzero=op == "//")
            if rng.random() < 0.5 and not (op == "//" and 0 in left):
                left, right = right, left
            if len(left) * len(right) < 3000:
                one(op, left, right)
            single(hot_map(rng))
        elif rng.random() < 0.15:
            single(random_map(rng, 8, 12))
        else:
            op = rng.choice(ALL_OPS)
            right = random_map(rng, 7, 12, 9, nonzero=op == "//")
            one(op, dict(right) if rng.random() < 0.2 else random_map(rng, 7, 12, 9), right)


# ------------------------------------------------------------------ C04
def check_C04(ctx):
    def one(die):
        text = ref.die_text(die)
        want = ref.die_faces(die)
        got = attempt(lambda: dict(get_single_dice_outcome_map(text)))
        ctx.case(text, len(want) > 1, ("ok", want), got, f"get_single_dice_outcome_map({text!r})")
        if want:
            got = attempt(
                lambda: dict(fresh_interpreter().get_probability_distributions(["d" + text])["stdout"].get_result_map())
            )
            ctx.case("d" + text, len(want) > 1, ("ok", want), got, f"program ['d{text}']")

    for n in list(range(1, 25)) + [99, 100, 101, 120]:
        one(("n", n))
        one(("n", n, 1))
        one(("n", n, 2))
    one(("%",))
    one(("F",))
    values = [-12, -10, -3, -2, -1, 0, 1, 2, 9, 10, 13]
    for a in values:
        for style in list(range(16)) + [16, 32, 48]:
            one(("list", [(a, None, None)], style))
        for mult in (0, 1, 2, 3, 10, 12):
            one(("list", [(a, None, mult), (4, None, None)]))
        for b in values:
            one(("list", [(a, b, None)]))
            one(("list", [(a, b, 3), (1, None, None)], 5))
            one(("list", [(a, b, 8), (1, None, None)], 32))
            one(("list", [(7, None, None), (a, b, 0)]))
    rng = ctx.rng
    while ctx.more():
        if rng.random() < 0.3:
            one(hot_die(rng, 1200))
            continue
        entries = []
        for _ in range(rng.randint(1, 6)):
            low = rng.choice([rng.randint(-5, 5), rng.randint(-130, 130)])
            high = low + rng.randint(-12, 12) if rng.random() < 0.4 else None
            mult = rng.choice([0, 1, 2, 3, 4, 10, 11, 100]) if rng.random() < 0.4 else None
            entries.append((low, high, mult))
        one(("list", entries, rng.randrange(16) + rng.choice([0, 0, 16, 32])))


# ------------------------------------------------------------------ C05
def refs_shared(e):
    """True if some MAX/MIN inside e has arguments whose value depends on a
    common variable (known finding of C05)."""
    if e[0] == "=":
        return refs_shared(e[2])
    if e[0] in "ctdkv":
        return False
    if e[0] in "anp":
        return refs_shared(e[1])
    if e[1] in ("MAX", "MIN"):
        return bool(ref.variables(e[2]) or ref.variables(e[3])) or refs_shared(e[2]) or refs_shared(e[3])
    return refs_shared(e[2]) or refs_shared(e[3])


def check_C05(ctx):
    def leaf(e):
        counts = {k: v for k, v in ref.leaf_counts(e).items() if v}
        text = ref.text(e)
        if e[0] == "k":
            make = lambda: DropKeepExpression(text, FACTORY)
        elif e[0] == "d":
            make = lambda: DiceExpression(text, FACTORY)
        elif e[0] == "c":
            make = lambda: ConstantIntegerExpression(text, FACTORY)
        else:
            make = lambda: ConstantBinaryExpression(text, FACTORY)
        for name, want in (("max", max(counts)), ("min", min(counts))):
            got = attempt(lambda: getattr(make(), name)())
            ctx.case(f"{text} {name}", len(counts) > 1, ("ok", want), got, f"{name} of {text!r}")
        for _ in range(3):
            roll = attempt(lambda: make().roll())
            ctx.truth(text + " bound", len(counts) > 1, roll[0] == "ok" and min(counts) <= roll[1] <= max(counts), f"roll of {text!r} = {roll[1:]} outside [{min(counts)}, {max(counts)}]")

    for die in BASE_DICE:
        for number in (None, 0, 1, 2, 3):
            leaf(("d", number, die))
        for mode in "kd":
            for number, amount in ((None, 0), (None, 1), (2, 0), (2, 1), (2, 2), (2, 3), (3, 1), (3, 2), (0, 1)):
                leaf(("k", number, die, mode, amount))
    for n in (-7, 0, 3, 12):
        leaf(("c", n))
    leaf(("t", True))
    leaf(("t", False))

    # operators over operands known only by distribution, min and max
    def operator_case(op, m1, m2):
        if op == "//" and 0 in m2:
            return
        counts = ref.combine(op, m1, m2)
        one = lambda: Stub(dist=FACTORY.create(dict(m1)), mx=max(m1), mn=min(m1))
        two = lambda: Stub(dist=FACTORY.create(dict(m2)), mx=max(m2), mn=min(m2))
        for name, want in (("max", max(counts)), ("min", min(counts))):
            got = attempt(lambda: getattr(binary_expression(op, one(), two()), name)())
            ctx.case(f"{name} {m1} {op} {m2}", True, ("ok", want), got, f"{name} of {m1} {op} {m2}")

    def unary_case(m):
        for label, fn, cls in (("ABS", ref.un_abs, AbsExpression), ("NOT", ref.un_not, NotExpression), ("paren", lambda a: a, ParenthesisEnclosedExpression)):
            counts = ref.unary(fn, m)
            for name, want in (("max", max(counts)), ("min", min(counts))):
                got = attempt(lambda: getattr(cls(Stub(dist=FACTORY.create(dict(m)), mx=max(m), mn=min(m))), name)())
                ctx.case(f"{name} {label} {m}", True, ("ok", want), got, f"{name} of {label} {m}")

    for op in ALL_OPS:
        for m1 in EDGE_MAPS:
            for m2 in EDGE_MAPS[:7]:
                operator_case(op, m1, m2)
    for m in EDGE_MAPS:
        unary_case(m)

    def program(lines):
        texts = [ref.text(l) for l in lines]
        shared = any(refs_shared(l) for l in lines)
        try:
            want = ref.true_program(lines)
        except ZeroDivisionError:
            return
        except KeyError:
            return
        for name, pick in (("max", max), ("min", min)):
            got = attempt(lambda: getattr(fresh_interpreter(), name)(texts))
            expected = pick(want["stdout"])
            if lines[-1][0] != "=" and ref.variables(lines[-1]):
                # a bare reference gives the recorded value; the extreme of an
                # expression over variables is that of its distribution
                pass
            ok = got[0] == "ok" and got[1]["stdout"] == expected and all(
                got[1].get(n) == pick(want[n]) for n in want if n != "stdout"
            )
            if not ok and shared:
                ctx.known("C05-minmax", f"{name}({texts}) = {got[1:]}, extremes of the distribution { {n: pick(d) for n, d in want.items()} }")
                continue
            ctx.truth(f"{name} {texts}", True, ok, f"{name}({texts}) = {got[1:]}, extremes of the distribution { {n: pick(d) for n, d in want.items()} }")

    program([("=", "a", ("d", None, ("n", 6))), ("o", "MIN", ("v", "a"), ("p", ("o", "-", ("c", 7), ("v", "a"))))])
    program([("=", "a", ("d", None, ("n", 6))), ("o", "-", ("v", "a"), ("v", "a"))])
    program([("=", "a", ("d", None, ("n", 6))), ("=", "a", ("o", "+", ("v", "a"), ("c", 1))), ("v", "a")])
    rng = ctx.rng
    while ctx.more():
        kind = rng.randrange(5)
        if kind == 4:
            left, right = hot_map(rng), (hot_map if rng.random() < 0.5 else random_map)(rng)
            if len(left) * len(right) < 2000:
                operator_case(rng.choice(ALL_OPS), *rng.choice([(left, right), (right, left)]))
            unary_case(hot_map(rng))
            die = hot_die(rng, 200)
            faces = ref.die_faces(die)
            if faces and len(faces) < 250:
                leaf(("d", rng.choice([None, 1, 2]), die))
            if len(faces) < 20 and faces:
                leaf(("k", 2, die, rng.choice("kd"), rng.choice([0, 1, hot(rng, 60)])))
            small = rng.choice([("n", 1), ("n", 2), ("list", [(-1, None, None), (2, None, None)]), ("F",)])
            leaf(("d", hot(rng, 100), small))
            if len(ref.die_faces(small)) < 3:
                number = hot(rng, 40)
                leaf(("k", number, small, rng.choice("kd"), rng.choice([1, number - 1, number, hot(rng, 40)])))
            leaf(("c", signed(rng)))
        elif kind == 0:
            operator_case(rng.choice(ALL_OPS), random_map(rng), random_map(rng))
        elif kind == 1:
            die = random_die(rng, big=True)
            if not ref.die_faces(die) or len(ref.die_faces(die)) > 12:
                continue
            leaf(("d", rng.choice([None, 0, 1, 2, 3, 4]), die))
            if len(ref.die_faces(die)) < 8:
                leaf(("k", rng.choice([None, 1, 2, 3, 4]), die, rng.choice("kd"), rng.randint(0, 5)))
        else:
            lines = random_program(rng, max_size=400)
            program(lines)


def random_program(rng, assigns=None, names=("a", "b", "c"), depth=2, max_size=2000, final=True, **kw):
    while True:
        lines = []
        known = []
        for _ in range(rng.randint(0, 3) if assigns is None else assigns):
            name = rng.choice(names)
            lines.append(("=", name, random_expression(rng, rng.randint(0, depth - 1), known, **kw)))
            if name not in known:
                known.append(name)
        if final or not lines:
            lines.append(random_expression(rng, depth, known, **kw))
        if program_size(lines) <= max_size:
            return lines


# ------------------------------------------------------------------ C06
def check_C06(ctx):
    values = list(range(-4, 8)) + [10, -10, 16]

    def one(op, a, b):
        if op == "//" and b == 0:
            return
        log = []
        got = attempt(lambda: binary_expression(op, Stub(roll=a, log=log, tag="l"), Stub(roll=b, log=log, tag="r")).roll())
        want = ref.OPS[op](a, b)
        ok = got[0] == "ok" and got[1] == want
        if not ok and op == "AND" and not (a in (0, 1) and b in (0, 1)) and got == ("ok", 1 if a & b else 0):
            ctx.known("C06-and", f"{a} AND {b} rolls {got[1]}, its distribution is {{{want}: 1}}")
        else:
            ctx.truth(f"{a} {op} {b}", True, ok, f"roll of ({a}) {op} ({b}) = {got[1:]}, the distribution gives {want}")
            if got[0] == "ok":
                ctx.truth(f"{a} {op} {b} type", True, isinstance(got[1], int) and str(got[1]) == str(int(got[1])), f"roll of ({a}) {op} ({b}) = {got[1]!r}, not an integer")
        calls = sorted(log)
        ctx.truth(f"{a} {op} {b} calls", True, calls == [("l", "roll"), ("r", "roll")], f"roll of {op} used operand calls {log}")

    for op in ALL_OPS:
        for a in values:
            for b in values:
                one(op, a, b)

    def unary_case(a):
        for label, fn, cls in (("ABS", ref.un_abs, AbsExpression), ("NOT", ref.un_not, NotExpression), ("paren", lambda x: x, ParenthesisEnclosedExpression)):
            log = []
            got = attempt(lambda: cls(Stub(roll=a, log=log, tag="l")).roll())
            ctx.case(f"{label} {a}", True, ("ok", fn(a)), got, f"roll of {label}({a})")
            ctx.truth(f"{label} {a} calls", True, log == [("l", "roll")], f"roll of {label} used operand calls {log}")

    for a in values:
        unary_case(a)
        for text in (str(a),):
            got = attempt(lambda: ConstantIntegerExpression(text, FACTORY).roll())
            ctx.case(f"const {a}", True, ("ok", a), got, f"roll of {text}")
    for text, want in (("True", 1), ("False", 0)):
        got = attempt(lambda: ConstantBinaryExpression(text, FACTORY).roll())
        ctx.case(f"const {text}", True, ("ok", want), got, f"roll of {text}")

    for name, start in (("a", 3), ("b_c", -2)):
        state = ProbabilityDistributionStateFactory().create_new_empty_set()
        log = []
        got = attempt(lambda: VarAssignmentExpression(state, name, Stub(roll=start, log=log, tag="l")).roll())
        ctx.case(f"assign {name}", True, ("ok", start), got, f"roll of VAR {name} = {start}")
        ctx.truth(f"assign {name} calls", True, log == [("l", "roll")], f"assignment used operand calls {log}")
        got = attempt(lambda: GetVarExpression(state, name).roll())
        ctx.case(f"get {name}", True, ("ok", start), got, f"roll of {name} after VAR {name} = {start}")

    for die in BASE_DICE:
        for number in (None, 0, 1, 2, 3):
            counts = ref.dice_counts(number, die)
            text = ref.dice_text(number, die)
            expression = DiceExpression(text, FACTORY)
            for _ in range(10):
                got = attempt(expression.roll)
                ctx.truth(f"{text} roll", len(counts) > 1, got[0] == "ok" and got[1] in counts, f"roll of {text} = {got[1:]} has no way of happening")
    for text, number, die in (
        ("2d3", 2, ("n", 3)),
        ("d[1*5,2]", None, ("list", [(1, None, 5), (2, None, None)])),
        ("3d[0,1*2]", 3, ("list", [(0, None, None), (1, None, 2)])),
        ("dF", None, ("F",)),
        ("4d2", 4, ("n", 2)),
        ("d6", None, ("n", 6)),
    ):
        statistic(ctx, text, DiceExpression(text, FACTORY).roll, ref.dice_counts(number, die))

    def program(lines):
        texts = [ref.text(l) for l in lines]
        try:
            want = ref.true_program(lines)
        except (ZeroDivisionError, KeyError):
            return
        if any("AND" in t for t in texts):
            return
        for _ in range(4):
            interpreter = fresh_interpreter()
            got = attempt(lambda: interpreter.roll(texts))
            ok = got[0] == "ok" and got[1]["stdout"] in want["stdout"] and all(got[1].get(n) in want[n] for n in want)
            ctx.truth(f"roll {texts}", True, ok, f"roll({texts}) = {got[1:]}, distribution {({k: sorted(v) for k, v in want.items()})}")

    rng = ctx.rng
    while ctx.more():
        if rng.random() < 0.02:
            die = weighted_die(rng)
            number = rng.choice([None, 1, 2, 3, hot(rng, 150) if len(ref.die_faces(die)) == 2 else 4])
            text = ref.dice_text(number, die)
            statistic(ctx, text, DiceExpression(text, FACTORY).roll, ref.dice_counts(number, die), 600)
        kind = rng.randrange(4)
        if kind == 3:
            a = signed(rng)
            b = rng.choice([a, a + 1, a - 1, -a, signed(rng), rng.randint(-5, 5)])
            one(rng.choice(ALL_OPS), *rng.choice([(a, b), (b, a)]))
            unary_case(a)
            ctx.case(f"const {a}", True, ("ok", a), attempt(lambda: ConstantIntegerExpression(str(a), FACTORY).roll()), f"roll of {a}")
            if rng.random() < 0.1:
                die = hot_die(rng, 200)
                if ref.die_faces(die):
                    number = rng.choice([None, 1, 2, hot(rng, 150)])
                    faces = ref.die_faces(die)
                    text = ref.dice_text(number, die)
                    low, high = min(faces) * (number or 1), max(faces) * (number or 1)
                    for _ in range(3):
                        got = attempt(lambda: DiceExpression(text, FACTORY).roll())
                        ctx.truth(f"{text} roll", len(faces) > 1, got[0] == "ok" and low <= got[1] <= high, f"roll of {text} = {got[1:]}, outside {low} to {high}")
        elif kind == 0:
            one(rng.choice(ALL_OPS), rng.randint(-50, 50), rng.randint(-50, 50))
        elif kind == 1:
            unary_case(rng.randint(-100, 100))
        else:
            program(random_program(rng, max_size=300))


# ------------------------------------------------------------------ C07 / C08
def compare_program(ctx, lines, prop, kind):
    texts = [ref.text(l) for l in lines]
    got = attempt(
        lambda: {
            name: counts_of(dist.get_result_map())
            for name, dist in fresh_interpreter().get_probability_distributions(texts).items()
        }
    )
    try:
        true = ref.true_program(lines)
    except ZeroDivisionError:
        ctx.truth(f"{texts}", True, got[0] == "raise" and got[1] == "ZeroDivisionError", f"{texts}: divisor can be 0, got {got[1:]}")
        return
    except KeyError:
        return
    if got[0] != "ok":
        ctx.truth(f"{texts}", True, False, f"{texts}: raised {got[1:]}")
        return
    product = ref.product_program(lines)
    for name, dist in true.items():
        counts = got[1].get(name)
        label = f"{texts} {name}"
        if counts is None:
            ctx.truth(label, True, False, f"{texts}: no distribution for {name}")
            continue
        norm = ref.normalise(counts)
        if norm == {k: v for k, v in dist.items() if v}:
            ctx.truth(label, len(dist) > 1, True, "")
        elif set(norm) == set(dist) and counts == product[name]:
            ctx.known(
                "C07-weight",
                f"{texts}: {name} reported {counts}, drawing each variable once gives { {k: str(v) for k, v in dist.items()} }",
            )
        else:
            ctx.truth(label, True, False, f"{texts}: {name} reported {counts}, drawing each variable once gives { {k: str(v) for k, v in dist.items()} }")


def assign(name, e):
    return ("=", name, e)


D2, D3, D4, D6 = (("d", None, ("n", n)) for n in (2, 3, 4, 6))
A, B, C = ("v", "a"), ("v", "b"), ("v", "c")
W = ("d", None, ("list", [(1, None, 3), (-2, None, 1), (4, None, 2)]))


def op(o, l, r):
    return ("o", o, l, r)


def check_C07(ctx):
    fixed = [
        [assign("a", D6), op("-", A, A)],
        [assign("a", D6), op("==", A, A)],
        [assign("a", D3), op("*", A, op("+", A, ("c", 1)))],
        [assign("a", D3), assign("b", op("+", A, D2)), op("-", B, A)],
        [assign("a", D3), assign("b", op("+", A, D2)), assign("c", op("*", A, D2)), op("-", B, C)],
        [assign("a", D3), assign("b", ("n", op(">", A, ("c", 1)))), op("*", A, B)],
        [assign("a", op("-", D3, D3)), assign("b", ("a", A)), op("+", A, B)],
        [assign("a", D3), assign("b", A), op("-", A, B)],
        [assign("a", D3), assign("b", D3), op("-", op("+", A, B), op("+", B, A))],
        [assign("a", D3), assign("b", D2), op("MAX", op("-", A, B), op("-", B, A))],
        [assign("a", D3), op("AND", op(">", A, ("c", 1)), op("<", A, ("c", 3)))],
        [assign("a", D3), op("OR", op("==", A, ("c", 1)), op("==", A, ("c", 3)))],
        [assign("a", W), A],
        [assign("a", W), op("+", A, D2)],
        [assign("a", W), op("-", A, A)],
        [assign("a", ("d", 2, ("n", 3))), op("+", A, A)],
        [assign("a", D4), op("//", A, A)],
        [assign("a", D3), assign("b", op("-", ("c", 2), A)), op("//", A, B)],
    ]
    for o in ALL_OPS:
        fixed.append([assign("a", D3), op(o, op("+", A, ("c", 1)), A)])
        fixed.append([assign("a", D3), assign("b", D2), op(o, op("+", A, B), op("+", B, ("c", 2)))])
        fixed.append([assign("a", D3), assign("b", op(o, A, ("c", 2))), op("+", op("*", A, ("c", 100)), B)])
    # a variable that depends on many others, each with a value of its own
    for n in (3, 4, 5, 6, 8, 12):
        names = ["abcdefghijklmnopqrstuvwxyz"[k] for k in range(n)]
        chain = [assign(names[0], D2)]
        for k in range(1, n):
            chain.append(assign(names[k], op("+", ("v", names[k - 1]), ("c", k))))
        last = ("v", names[-1])
        fixed.append(chain + [op("-", last, A)])
        fixed.append(chain + [assign("z", op("+", last, D2)), op("-", ("v", "z"), ("v", "z"))])
        fixed.append(chain + [assign("z", op("+", last, D2)), op("-", ("v", "z"), A)])
        if n <= 5:
            wide = [assign(x, D2) for x in names]
            total = ("v", names[0])
            for x in names[1:]:
                total = op("+", total, ("v", x))
            z = ("v", "z")
            fixed.append(wide + [assign("z", total), op("-", z, total)])
            fixed.append(wide + [assign("z", op("+", total, D2)), op("-", z, z)])
            fixed.append(wide + [assign("z", op("+", total, D2)), op("-", z, ("v", names[-1]))])
    for lines in fixed:
        compare_program(ctx, lines, "C07", "fixed")
    rng = ctx.rng
    while ctx.more():
        names = tuple("abcdefgh") if rng.random() < 0.2 else ("a", "b", "c")
        lines = random_program(rng, assigns=rng.randint(1, 7 if len(names) > 3 else 4), names=names, max_size=600, depth=rng.randint(1, 3), leaf_var=0.75)
        # every name assigned at most once here; C08 covers reassignment
        seen = set()
        ok = True
        for line in lines:
            if line[0] == "=":
                ok = ok and line[1] not in seen
                seen.add(line[1])
        if ok:
            compare_program(ctx, lines, "C07", "random")


def check_C08(ctx):
    fixed = [
        [assign("a", D3), assign("b", A), assign("a", D3), op("-", A, B)],
        [assign("a", D3), assign("a", op("+", A, D2)), op("-", A, A)],
        [assign("a", D3), assign("b", A), assign("a", op("+", A, D2)), op("-", A, B)],
        [assign("a", D3), assign("b", A), assign("a", D3), assign("c", A), assign("a", D3), op("+", op("*", A, ("c", 100)), op("+", op("*", B, ("c", 10)), C))],
        [assign("a", D3), assign("b", A), assign("a", D3), assign("c", A), op("-", B, C)],
        [assign("a", D2), assign("b", D3), assign("a", B), assign("b", D2), op("+", op("*", A, ("c", 10)), B)],
        [assign("a", D2), assign("a", D3), A],
        [assign("a", ("c", 1)), assign("a", op("+", A, A)), assign("a", op("+", A, A)), A],
    ]
    for name1, name2 in (("a", "a_"), ("a", "aa"), ("a_", "a__"), ("x", "xx"), ("a_b", "a"), ("ab", "b")):
        v1, v2 = ("v", name1), ("v", name2)
        fixed.append([assign(name1, D3), assign(name2, D3), op("-", v1, v2)])
        fixed.append([assign(name1, D3), assign(name2, D3), assign(name1, D3), assign(name1, D3), op("+", op("*", v1, ("c", 10)), v2)])
        fixed.append([assign(name1, D2), assign(name2, v1), assign(name1, D2), op("-", v1, v2)])
    for lines in fixed:
        compare_program(ctx, lines, "C08", "fixed")
    # many reassignments: counters of more than one digit must stay apart
    many = [assign("a", D2), assign("b", A)] + [assign("a", D2)] * 11 + [op("+", op("*", A, ("c", 10)), B)]
    compare_program(ctx, many, "C08", "many")

    # state level: constants and vars, interleaved
    def history(ops):
        state = ProbabilityDistributionStateFactory().create_new_empty_set()
        consts, maps = {}, {}
        held = []
        for step in ops:
            if step[0] == "const":
                state.set_constant(step[1], step[2])
                consts[step[1]] = step[2]
            else:
                state.set_var(step[1], FACTORY.create(dict(step[2])))
                maps[step[1]] = dict(step[2])
                held.append((state.get_var(step[1]), dict(step[2]), len(held), step[1]))
            for name in ("a", "b", "a_", "c"):
                got = (attempt(lambda: state.get_constant(name))[:2], state.has_constant(name))
                want = (("ok", consts[name]), True) if name in consts else (("raise", "KeyError"), False)
                ctx.truth(f"{ops} const {name}", True, got == want, f"after {ops[:ops.index(step) + 1]}: constant {name} is {got}, expected {want}")
                got = attempt(lambda: dict(state.get_var(name).get_result_map()))[:2]
                want = ("ok", maps[name]) if name in maps else ("raise", "KeyError")
                ctx.truth(f"{ops} var {name}", True, got == want and state.has_var(name) == (name in maps), f"after {ops[:ops.index(step) + 1]}: variable {name} is {got}, expected {want}")
        # two recorded values are combined freely unless they are the same one
        for one in held:
            for two in held:
                got = counts_of((one[0] - two[0]).get_result_map())
                if one[2] == two[2]:
                    good = set(got) == {0}
                else:
                    good = got == ref.combine("-", one[1], two[1])
                ctx.truth(f"{ops} pair {one[2]} {two[2]}", True, good, f"history {ops}: value {one[2]} minus value {two[2]} gives {got}")

    history([("var", "a", {1: 1, 2: 1}), ("var", "a", {1: 1, 2: 1})])
    history([("const", "a", 4), ("var", "a", {1: 1, 2: 1}), ("const", "a", 5), ("var", "a", {1: 2, 2: 1})])
    history([("var", "a", {1: 1, 2: 1}), ("var", "b", {1: 1, 2: 1}), ("var", "a", {1: 1, 3: 1}), ("const", "b", 2), ("var", "b", {2: 1, 1: 1})])
    for mode in ("roll", "max", "min"):
        interpreter = fresh_interpreter()
        interpreter.get_probability_distributions(["VAR a = d3", "VAR b = a"])
        getattr(interpreter, mode)(["VAR a = d3"])
        got = attempt(lambda: counts_of(interpreter.get_probability_distributions(["VAR a = d3", "a - b"])["stdout"].get_result_map()))
        ctx.case(f"after {mode}", True, ("ok", {-2: 1, -1: 2, 0: 3, 1: 2, 2: 1}), got, f"VAR a = d3; VAR b = a; {mode} VAR a = d3; VAR a = d3; a - b")
    rng = ctx.rng
    while ctx.more():
        if rng.random() < 0.1:
            # many assignments of one name, an early value kept under another
            total = hot(rng, 130)
            keep = rng.randrange(min(total, 12)) + 1
            die = rng.choice([D2, ("d", None, ("list", [(signed(rng, 10 ** 5), None, None), (0, None, None)]))])
            lines = [assign("a", die)] * keep + [assign("b", A)] + [assign("a", die)] * (total - keep + 1)
            texts = [ref.text(l) for l in lines] + [ref.text(op(rng.choice(["-", "+"]), A, B))]
            faces = ref.die_faces(die[2])
            want = ref.combine("-" if " - " in texts[-1] else "+", faces, faces)
            got = attempt(lambda: counts_of(fresh_interpreter().get_probability_distributions(texts)["stdout"].get_result_map()))
            ctx.case(f"{keep} of {total} {texts[-1]} {die}", True, ("ok", want), got, f"{keep} times {texts[0]!r}, 'VAR b = a', {total - keep + 1} times {texts[0]!r}, {texts[-1]!r}")
            continue
        if rng.random() < 0.3:
            ops = []
            for _ in range(rng.randint(1, 5)):
                name = rng.choice(["a", "b", "a_"])
                if rng.random() < 0.3:
                    ops.append(("const", name, rng.randint(-3, 3)))
                else:
                    ops.append(("var", name, random_map(rng, 3, 3, 2)))
            history(ops)
        else:
            compare_program(ctx, random_program(rng, assigns=rng.randint(2, 6), names=("a", "b"), max_size=600, depth=2, leaf_var=0.7), "C08", "random")


# ------------------------------------------------------------------ C09
def close(a, b):
    return abs(a - b) <= 1e-9 * max(1.0, abs(a), abs(b))


def same_table(got, want):
    return got[0] == "ok" and set(got[1]) == set(want) and all(close(got[1][k], want[k]) for k in want)


def tables(counts):
    total = sum(counts.values())
    probability = {k: Fraction(v, total) for k, v in counts.items()}
    low, high = min(counts), max(counts)
    values = range(low, high + 1)
    return {
        "prob": probability,
        "average": sum(k * p for k, p in probability.items()),
        "at_least": {v: sum(p for k, p in probability.items() if k >= v) for v in values},
        "at_most": {v: sum(p for k, p in probability.items() if k <= v) for v in values},
        "hist": {v: probability.get(v, Fraction(0)) for v in values},
    }


def constrained_distribution(rng, counts):
    """a distribution whose outcome map has several outcomes per value"""
    factory = ConstraintFactory()
    merger = ConstraintMerger()
    out = {}
    result = {}
    for value, count in counts.items():
        for number in range(rng.randint(1, 3)):
            constraints = ConstraintSet({factory.var_value_constraint("v", {number, value})}, merger)
            out[ProbabilityOutcome(value, constraints)] = count + number
    for outcome, count in out.items():
        result[outcome.value] = result.get(outcome.value, 0) + count
    return FACTORY.create(out), result


def check_C09(ctx):
    def one(counts, distribution=None):
        d = FACTORY.create(dict(counts)) if distribution is None else distribution
        t = tables(counts)
        label = str(sorted(counts.items()))
        nt = len(counts) > 1
        for _ in range(2):
            ctx.case(label + " map", nt, ("ok", dict(counts)), attempt(lambda: dict(d.get_result_map())), f"get_result_map of {counts}")
            got = attempt(d.get_dict_form)
            ctx.truth(label + " prob", nt, same_table(got, t["prob"]), f"get_dict_form of {counts} = {got[1:]}")
            got = attempt(d.average)
            ctx.truth(label + " average", nt, got[0] == "ok" and close(got[1], t["average"]), f"average of {counts} = {got[1:]}, expected {float(t['average'])}")
            for name in ("at_least", "at_most"):
                got = attempt(getattr(d, name))
                ctx.truth(label + name, nt, same_table(got, t[name]), f"{name} of {counts} = {got[1:]}, expected { {k: float(v) for k, v in t[name].items()} }")
            ctx.case(label + " max", nt, ("ok", max(counts)), attempt(d.max), f"max of {counts}")
            ctx.case(label + " min", nt, ("ok", min(counts)), attempt(d.min), f"min of {counts}")
            ctx.case(label + " zero", nt, ("ok", 0 in counts), attempt(lambda: bool(d.contains_zero())), f"contains_zero of {counts}")

    for m in EDGE_MAPS:
        one(m)
    one({3: 1, 1: 2, 2: 7})
    one({-30: 1, 30: 5})
    one({100: 1})
    one({-4: 10 ** 12, 9: 1})
    one({1: 10 ** 20, 2: 10 ** 20 + 1})
    rng = ctx.rng
    while ctx.more():
        counts = random_map(rng, 7, rng.choice([4, 10, 40]), rng.choice([1, 5, 100]))
        if rng.random() < 0.3:
            counts = hot_map(rng, span=1500, size=400)
        items = list(counts.items())
        rng.shuffle(items)
        counts = dict(items)
        if rng.random() < 0.3:
            distribution, result = constrained_distribution(rng, counts)
            one(result, distribution)
        else:
            one(counts)


# ------------------------------------------------------------------ C10
def make_constraint(factory, spec):
    if spec == "null":
        return factory.null_constraint
    if spec == "impossible":
        return factory.impossible_constraint
    return factory.var_value_constraint(spec[0], set(spec[1]))


def holds(specs, assignment):
    for spec in specs:
        if spec == "null":
            continue
        if spec == "impossible":
            return False
        if assignment[spec[0]] not in spec[1]:
            return False
    return True


def satisfiable(specs):
    allowed = {}
    for spec in specs:
        if spec == "impossible":
            return False
        if spec != "null":
            allowed[spec[0]] = allowed.get(spec[0], set(spec[1])) & set(spec[1])
    return all(allowed.values())


def check_C10(ctx):
    factory = ConstraintFactory()
    merger = ConstraintMerger()
    names = ["a", "b", "c"]
    domain = [0, 1, 2, 3]
    assignments = [dict(zip(names, v)) for v in itertools.product(domain, repeat=3)]

    def meaning(cset):
        if not cset.is_possible():
            if any(cset.complies(a) for a in assignments):
                ctx.known("C10-complies", f"impossible constraint set {cset}: complies() is True")
            return None
        return tuple(bool(cset.complies(a)) for a in assignments)

    def wanted(specs):
        if not satisfiable(specs):
            return None
        return tuple(holds(specs, a) for a in assignments)

    def build(specs):
        cset = ConstraintSet({make_constraint(factory, specs[0])}, merger)
        for spec in specs[1:]:
            cset.add_constraint(make_constraint(factory, spec))
        return cset

    def check_partial(cset, specs, label):
        # assignments of fewer variables: only constraints on them can fail
        if not satisfiable(specs):
            return
        for name in names:
            for value in domain:
                want = all(s == "null" or s[0] != name or value in s[1] for s in specs)
                got = attempt(lambda: bool(cset.complies({name: value})))
                ctx.case(f"{label} partial {name}={value}", True, ("ok", want), got, f"{label}.complies({{{name!r}: {value}}})")

    def one(specs1, specs2):
        label = f"{specs1} + {specs2}"
        got = attempt(lambda: meaning(build(specs1)))
        ctx.case(f"build {specs1}", True, ("ok", wanted(specs1)), got, f"constraints {specs1} added in order")
        got = attempt(lambda: meaning(build(specs1).combine_sets(build(specs2))))
        ctx.case(label, True, ("ok", wanted(specs1 + specs2)), got, f"combine_sets of {label}")
        got = attempt(lambda: meaning(ConstraintSet({make_constraint(factory, s) for s in specs1 + specs2}, merger)))
        ctx.case("set " + label, True, ("ok", wanted(specs1 + specs2)), got, f"ConstraintSet of {label}")
        left, right = build(specs1), build(specs2)
        if left == right:
            ctx.truth("equal " + label, True, hash(left) == hash(right) and meaning(left) == meaning(right) and not left != right, f"{label} compare equal but differ")
        ctx.truth("self " + label, True, left == left and hash(left) == hash(build(specs1)) and left == build(specs1), f"{specs1} built twice: not equal or different hash")
        check_partial(left, specs1, str(specs1))
        for v1, v2 in ((1, 1), (1, 2)):
            o1, o2 = ProbabilityOutcome(v1, left), ProbabilityOutcome(v2, right)
            if o1 == o2:
                ctx.truth("outcome " + label, True, hash(o1) == hash(o2) and v1 == v2 and meaning(left) == meaning(right), f"outcomes {v1},{specs1} and {v2},{specs2} compare equal but differ")
            else:
                ctx.truth("outcome " + label, True, not (v1 == v2 and left == right), f"outcomes {v1},{specs1} and {v2},{specs2} differ although value and constraints are equal")
            ctx.truth("outcome possible " + label, True, o1.is_possible() == satisfiable(specs1), f"outcome over {specs1}: is_possible {o1.is_possible()}")

    def pair(s1, s2):
        c1, c2 = make_constraint(factory, s1), make_constraint(factory, s2)
        if c1.can_merge(c2):
            got = attempt(lambda: meaning(ConstraintSet({c1.merge(c2)}, merger)))
            ctx.case(f"merge {s1} {s2}", True, ("ok", wanted([s1, s2])), got, f"merge of {s1} and {s2}")
        elif s1 not in ("null", "impossible"):
            got = attempt(lambda: c1.merge(c2))
            ctx.truth(f"merge {s1} {s2}", True, got[0] == "raise" and got[1] == "ValueError", f"merge of {s1} and {s2}, which cannot merge, gives {got[1:]}")
        if c1 == c2:
            same = wanted([s1]) == wanted([s2]) and hash(c1) == hash(c2)
            ctx.truth(f"eq {s1} {s2}", True, same and not c1 != c2, f"constraints {s1} and {s2} compare equal but differ")
        else:
            ctx.truth(f"eq {s1} {s2}", True, s1 != s2 and c1 != c2, f"constraints {s1} and {s2} compare different")

    specs = ["null", "impossible", ("a", (1,)), ("a", (2,)), ("a", (1, 2)), ("a", (2, 3)), ("b", (1,)), ("b", (1, 2)), ("b", (0, 3)), ("a", (0,))]
    for s1 in specs:
        for s2 in specs:
            pair(s1, s2)
            one([s1], [s2])
            for s3 in specs[:7]:
                one([s1, s2], [s3])
    ctx.case("empty", True, ("raise", "ValueError"), attempt(lambda: ConstraintSet(set(), merger))[:2], "ConstraintSet of no constraint")
    ctx.case("fresh", True, ("ok", wanted(["null"])), attempt(lambda: meaning(ConstraintSetFactory().create_constraint_set())), "create_constraint_set()")
    got = attempt(lambda: bool(factory.var_value_constraint("a", set()).is_possible()))
    ctx.case("empty values", True, ("ok", False), got, "is_possible of a variable with no value")
    # names that are prefixes of one another
    for n1, n2 in (("a_1", "a_11"), ("a", "a_1"), ("a_1", "a_2")):
        c1 = factory.var_value_constraint(n1, {1})
        c2 = factory.var_value_constraint(n2, {2})
        ctx.truth(f"names {n1} {n2}", True, not c1.can_merge(c2) and c1 != c2, f"constraints on {n1} and {n2} can merge")
        ctx.truth(f"names possible {n1} {n2}", True, ConstraintSet({c1, c2}, merger).is_possible(), f"constraints on {n1} and {n2} reported impossible together")
    rng = ctx.rng

    def wide():
        """large value sets, large values, many variables"""
        size = hot(rng, 80)
        base = rng.choice([0, signed(rng)])
        full = [base + i for i in range(size)]
        v1 = set(rng.sample(full, rng.randint(1, size)))
        v2 = set(rng.sample(full, rng.randint(1, size)))
        if rng.random() < 0.3:
            v1 = v1 | v2
        for left, right in ((v1, v2), (v2, v1)):
            merged = factory.var_value_constraint("x", set(left)).merge(factory.var_value_constraint("x", set(right)))
            got = {v for v in full if merged.complies({"x": v})} if merged.is_possible() else set()
            ctx.truth(f"wide {sorted(left)} {sorted(right)}", True, got == left & right, f"merge of x in {sorted(left)} and x in {sorted(right)} allows {sorted(got)}")
            together = ConstraintSet({factory.var_value_constraint("x", set(left))}, merger).combine_sets(ConstraintSet({factory.var_value_constraint("x", set(right))}, merger))
            got = {v for v in full if together.complies({"x": v})} if together.is_possible() else set()
            ctx.truth(f"wide set {sorted(left)} {sorted(right)}", True, got == left & right, f"constraint sets x in {sorted(left)} and x in {sorted(right)} together allow {sorted(got)}")
        many = [(f"v{'x' * (i % 3)}_{i}", (i % 5,)) for i in range(hot(rng, 30))]
        cset = ConstraintSet({make_constraint(factory, s) for s in many}, merger)
        good = {name: values[0] for name, values in many}
        ok = cset.is_possible() and cset.complies(good)
        name = rng.choice(many)[0]
        ok = ok and not cset.complies({**good, name: 99}) and not cset.combine_sets(ConstraintSet({factory.var_value_constraint(name, {77})}, merger)).is_possible()
        ctx.truth(f"many {len(many)} {name}", True, ok, f"{len(many)} constraints on different variables {many[:3]}...: wrong about {name}")
        members = {make_constraint(factory, s) for s in many if s[0] != name} | {factory.var_value_constraint(name, set())}
        ctx.truth(f"many one empty {len(many)} {name}", True, not ConstraintSet(members, merger).is_possible(), f"{len(many)} constraints on different variables of which {name} has no value left: reported possible")
        # different sets of values that look alike: same size, sum, extremes
        a = signed(rng) if rng.random() < 0.3 else rng.randint(-6, 6)
        step = rng.randint(1, 4)
        base = set(rng.sample(range(a - 8, a + 8), rng.randint(0, 6)))
        twins = [base | {a, a + 3 * step}, base | {a + step, a + 2 * step}]
        odd = set(rng.sample(range(-9, 9), rng.randint(1, 5)))
        for left, right in ((twins[0], twins[1]), (twins[1], twins[0]), (odd, {-v for v in odd}), (odd, odd | {max(odd) + 1}), (odd, set(odd))):
            n1, n2 = rng.choice([("x", "x"), ("x", "x"), ("x", "y"), ("x_1", "x_11")])
            c1, c2 = factory.var_value_constraint(n1, set(left)), factory.var_value_constraint(n2, set(right))
            same = left == right and n1 == n2
            what = f"{n1} in {sorted(left)} and {n2} in {sorted(right)}"
            ctx.truth(f"twins {what}", True, (c1 == c2) <= same and (c1 == c2) != (c1 != c2) and (c1 != c2 or hash(c1) == hash(c2)), f"constraints {what}: == {c1 == c2}, != {c1 != c2}, hashes {hash(c1)} {hash(c2)}")
            s1, s2 = ConstraintSet({c1}, merger), ConstraintSet({c2}, merger)
            ctx.truth(f"twin sets {what}", True, (s1 == s2) <= same, f"constraint sets {what} compare equal")
            o1, o2 = ProbabilityOutcome(a, s1), ProbabilityOutcome(a, s2)
            ctx.truth(f"twin outcomes {what}", True, (o1 == o2) <= same, f"outcomes under {what} compare equal")

    while ctx.more():
        def some():
            out = []
            for _ in range(rng.randint(1, 5)):
                r = rng.random()
                if r < 0.12:
                    out.append("null")
                elif r < 0.16:
                    out.append("impossible")
                else:
                    out.append((rng.choice(names), tuple(sorted(rng.sample(domain, rng.randint(1, 3))))))
            return out

        if rng.random() < 0.2:
            wide()
        s1, s2 = some(), some()
        one(s1, s2)
        got = attempt(lambda: meaning_of_merge(merger, factory, s1, assignments))
        ctx.case(f"merger {s1}", True, ("ok", wanted(s1)), got, f"merge_constraints of {s1}")


def meaning_of_merge(merger, factory, specs, assignments):
    merged = merger.merge_constraints({make_constraint(factory, s) for s in specs})
    if not all(c.is_possible() for c in merged):
        return None
    return tuple(all(c.complies(a) for c in merged) for a in assignments)


# ------------------------------------------------------------------ C11
def check_C11(ctx):
    def one(m1, m2):
        make = lambda: IntegerDivisionExpression(Stub(dist=FACTORY.create(dict(m1))), Stub(dist=FACTORY.create(dict(m2))))
        zero = 0 in m2
        counts = None if zero else ref.combine("//", m1, m2)
        for name in ("max", "min"):
            got = attempt(lambda: getattr(make(), name)())[:2]
            want = ("raise", "ZeroDivisionError") if zero else ("ok", (max if name == "max" else min)(counts))
            ctx.case(f"{name} {m1}//{m2}", True, want, got, f"{name} of {m1} // {m2}")
        got = attempt(lambda: counts_of(make().get_probability_distribution().get_result_map()))[:2]
        ctx.case(f"dist {m1}//{m2}", True, ("raise", "ZeroDivisionError") if zero else ("ok", counts), got, f"distribution of {m1} // {m2}")

    def roll(a, b):
        got = attempt(lambda: IntegerDivisionExpression(Stub(roll=a), Stub(roll=b)).roll())[:2]
        want = ("raise", "ZeroDivisionError") if b == 0 else ("ok", math.floor(Fraction(a, b)))
        ctx.case(f"roll {a}//{b}", True, want, got, f"roll of {a} // {b}")

    for m1 in EDGE_MAPS:
        for m2 in EDGE_MAPS:
            one(m1, m2)
    for a in range(-7, 8):
        for b in range(-4, 5):
            roll(a, b)
    for a, b in ((10 ** 18, 7), (-(10 ** 18), 7), (10 ** 20 + 1, -3), (5, 10 ** 9)):
        roll(a, b)
        one({a: 1}, {b: 1})
    one({1: 1}, {5: 1, 0: 1, -5: 3})
    for texts, zero in (
        (["VAR a = d3 - 1", "6 // a"], True),
        (["VAR a = d3 - 1", "a // (a + 1)"], False),
        (["d6 // (d4 - 4)"], True),
        (["6 // 0"], True),
        (["6 // dF"], True),
        (["6 // (d2 - d2)"], True),
    ):
        for call in ("get_probability_distributions", "max", "min"):
            got = attempt(lambda: getattr(fresh_interpreter(), call)(texts))
            ok = (got[0] == "raise" and got[1] == "ZeroDivisionError") if zero else got[0] == "ok"
            ctx.truth(f"{call} {texts}", True, ok, f"{call}({texts}) gives {got[:2]}")
    rng = ctx.rng
    while ctx.more():
        if rng.random() < 0.3:
            roll(signed(rng), rng.choice([signed(rng), rng.randint(-9, 9)]))
            left, right = hot_map(rng), hot_map(rng, nonzero=rng.random() < 0.5)
            if len(left) * len(right) < 2000:
                one(left, rng.choice([right, random_map(rng, 4, 6)]))
        elif rng.random() < 0.5:
            roll(rng.randint(-60, 60), rng.randint(-9, 9))
        else:
            one(random_map(rng, 4, 20), random_map(rng, 4, 6, nonzero=rng.random() < 0.5))


# ------------------------------------------------------------------ C12
class Token:
    def __init__(self, log, line, state, answer):
        self.log, self.line, self.state, self.answer = log, line, state, answer

    def _do(self, what):
        self.log.append((what, self.line))
        return self.answer(what, self.line, self.state)

    def roll(self):
        return self._do("roll")

    def max(self):
        return self._do("max")

    def min(self):
        return self._do("min")

    def get_probability_distribution(self):
        return self._do("dist")

    def estimated_cost(self):
        return self._do("cost")


class StubParser(IPythonDiceParser):
    def __init__(self, log, answer):
        self.log, self.answer = log, answer

    def parse(self, input_text, state=None):
        self.log.append(("parse", input_text, id(state)))
        return Token(self.log, input_text, state, self.answer), state


CALLS = {
    "roll": "roll",
    "max": "max",
    "min": "min",
    "get_probability_distributions_dict": "dist",
    "get_probability_distributions": "dist",
    "get_average": "dist",
    "get_estimated_cost": "cost",
}


def check_C12(ctx):
    def stub_case(call, lines, values):
        """lines: (name or None); values: ints"""
        log = []
        state = ProbabilityDistributionStateFactory().create_new_empty_set()
        texts = [f"line{i} {n}" for i, n in enumerate(lines)]
        names = dict(zip(texts, lines))
        nums = dict(zip(texts, values))
        # identical lines are separate evaluations
        if len(lines) > 2 and ctx.rng.random() < 0.3:
            texts[-1] = texts[0]

        def answer(what, line, st):
            if names[line] is not None:
                if what in ("roll", "max", "min"):
                    st.set_constant(names[line], nums[line])
                if what == "dist":
                    st.set_var(names[line], FACTORY.create({nums[line]: 2, nums[line] + 1: 1}))
            if what == "dist":
                return FACTORY.create({nums[line]: 2, nums[line] + 1: 1})
            return nums[line]

        interpreter = PythonDiceInterpreter(parser=StubParser(log, answer), starting_state=state)
        got = attempt(lambda: getattr(interpreter, call)(texts))
        label = f"{call} {texts} {values}"
        parses = [e for e in log if e[0] == "parse"]
        evals = [e for e in log if e[0] != "parse"]
        ctx.truth(label + " parse", len(lines) > 1, [e[1] for e in parses] == texts and all(e[2] == id(state) for e in parses), f"{call}: parsed {[e[1] for e in parses]}, lines {texts}")
        ctx.truth(label + " eval", len(lines) > 1, evals == [(CALLS[call], t) for t in texts], f"{call}: evaluated {evals}, lines {texts}")
        if got[0] != "ok":
            ctx.truth(label, True, False, f"{label}: raised {got[1:]}")
            return
        if call == "get_estimated_cost":
            ctx.case(label, len(lines) > 1, sum(nums[t] for t in texts), got[1], label)
            return
        want = {}
        for t in texts:
            if names[t] is not None:
                want[names[t]] = nums[t]
        if texts:
            want["stdout"] = nums[texts[-1]]
        have = {}
        for name, value in got[1].items():
            if call in ("roll", "max", "min"):
                have[name] = value
            elif call == "get_average":
                have[name] = round(value - 1 / 3, 9)
            elif call == "get_probability_distributions_dict":
                have[name] = min(value)
                ctx.truth(label + " probs", True, set(value) == {min(value), min(value) + 1} and close(value[min(value)], 2 / 3), f"{label}: {value}")
            else:
                have[name] = value.min()
        ctx.case(label, len(lines) > 1, want, {k: (int(v) if v == int(v) else v) for k, v in have.items()}, label)

    for call in CALLS:
        for lines in ([], [None], ["a"], ["a", None], ["a", "b", None], ["a", "a"], [None, "b"], ["a", "b", "a", None, None]):
            for _ in range(2):
                stub_case(call, lines, [ctx.rng.randint(-9, 9) for _ in lines])

    # results are independent of later calls and of changes to them
    programs = [["VAR a = 3", "a"], ["VAR b = d4", "b + 1"], ["d6"], ["VAR a = 7"], ["VAR c = 1", "VAR a = 2"]]

    def view(call, result):
        if call == "get_probability_distributions":
            return {k: sorted(v.get_result_map().items()) for k, v in result.items()}
        if isinstance(result, dict):
            return {k: (sorted(v.items()) if isinstance(v, dict) else v) for k, v in result.items()}
        return result

    for first in CALLS:
        for second in CALLS:
            for p1 in programs[:3]:
                for p2 in programs:
                    interpreter = fresh_interpreter()
                    start = attempt(lambda: getattr(interpreter, first)(p1))
                    if start[0] != "ok":
                        ctx.truth(f"{first} {p1}", True, False, f"{first}({p1}) raised {start[1:]}")
                        continue
                    before = view(first, start[1])
                    attempt(lambda: getattr(interpreter, second)(p2))
                    after = view(first, start[1])
                    ctx.truth(f"{first} {p1} then {second} {p2}", True, before == after, f"result of {first}({p1}) changed from {before} to {after} by {second}({p2})")
    for call in ("roll", "max", "min", "get_probability_distributions", "get_probability_distributions_dict", "get_average"):
        interpreter = fresh_interpreter()
        result = getattr(interpreter, call)(["VAR a = 3", "a + 1"])
        result["a"] = None
        result["b"] = 55
        result.pop("stdout")
        got = attempt(lambda: view(call, getattr(interpreter, call)(["a + 1"])))
        want = attempt(lambda: view(call, getattr(fresh_interpreter(), call)(["VAR a = 3", "a + 1"])))
        ctx.truth(f"{call} own result", True, got == want, f"after changing the result of {call}: {got[1:]}, expected {want[1:]}")
    # one interpreter, several calls: state carries over; two interpreters: it does not
    interpreter = fresh_interpreter()
    interpreter.roll(["VAR a = 3"])
    ctx.case("carry", True, ("ok", 5), attempt(lambda: interpreter.roll(["a + 2"])["stdout"]), "roll VAR a = 3, then roll a + 2")
    ctx.case("apart", True, ("raise", "KeyError"), attempt(lambda: fresh_interpreter().roll(["a"]))[:2], "variable of another interpreter")
    first, second = PythonDiceInterpreter(), PythonDiceInterpreter()
    first.get_probability_distributions(["VAR a = d3"])
    ctx.case("apart dist", True, ("raise", "KeyError"), attempt(lambda: second.get_probability_distributions(["a"]))[:2], "variable of another interpreter")
    for call in ("get_histogram", "get_at_least_histogram", "get_at_most_histogram"):
        log = []
        shown = []

        class Shown:
            def __getattr__(self, name):
                def method(*_, **__):
                    shown.append((name, self.line))
                    return "image"

                return method

        def answer(what, line, st):
            item = Shown()
            item.line = line
            return item

        interpreter = PythonDiceInterpreter(parser=StubParser(log, answer))
        got = attempt(lambda: getattr(interpreter, call)(["one", "two", "three"]))
        ctx.case(call, True, ("ok", "image"), got, f"{call} returns the image")
        ctx.case(call + " lines", True, [("dist", "one"), ("dist", "two"), ("dist", "three")], [e for e in log if e[0] != "parse"], f"{call} evaluations")
        ctx.case(call + " image", True, [(call, "three")], shown, f"{call} draws the last line")
    rng = ctx.rng

    def history():
        """several calls on one interpreter, any mixture of kinds, many names and lines"""
        names = ["a", "b", "c", "stdout_", "dd"] + [f"n{'_' * i}" for i in range(hot(rng, 12) if rng.random() < 0.5 else 0)]
        log, plan, given = [], {}, []

        def answer(what, line, st):
            name, number = plan[line]
            # every evaluation of the line gives another result
            number += len(given)
            given.append(number)
            if what == "dist":
                out = FACTORY.create({number: 2, number + 1: 1})
                if name is not None:
                    st.set_var(name, out)
                return out
            if name is not None and what in ("roll", "max", "min"):
                st.set_constant(name, number)
            return number

        interpreter = PythonDiceInterpreter(parser=StubParser(log, answer))
        consts, dists, trace = {}, {}, []
        kept = []
        for turn in range(rng.randint(2, 5)):
            call = rng.choice(list(CALLS)) if rng.random() < 0.5 or not trace else trace[-1][0]
            count = hot(rng, 60) if rng.random() < 0.1 else rng.randint(0, 5)
            texts = [f"t{turn} l{i}" for i in range(count)]
            for text in texts:
                plan[text] = (rng.choice(names) if rng.random() < 0.7 else None, signed(rng, 10 ** 6) if rng.random() < 0.2 else rng.randint(-9, 9))
            if count > 1 and rng.random() < 0.3:
                texts[-1] = texts[0]
            if texts and turn and rng.random() < 0.3:
                texts[rng.randrange(count)] = rng.choice(list(plan))
            trace.append((call, [plan[t] for t in texts]))
            del log[:], given[:]
            got = attempt(lambda: getattr(interpreter, call)(texts))
            label = str(trace)
            if got[0] != "ok":
                ctx.truth(label, True, False, f"calls (kind, [(name, value) per line]) {trace}: the last raised {got[1:]}")
                return
            evals = [e for e in log if e[0] != "parse"]
            ctx.truth(label + " eval", True, evals == [(CALLS[call], t) for t in texts], f"{trace}: evaluated {evals[:6]}, lines {texts[:6]}")
            if call == "get_estimated_cost":
                ctx.case(label, True, sum(given), got[1], label)
                continue
            if len(given) != len(texts):
                return
            store = dists if CALLS[call] == "dist" else consts
            for text, number in zip(texts, given):
                if plan[text][0] is not None:
                    store[plan[text][0]] = number
            if texts:
                store["stdout"] = given[-1]
            want = dict(store) if texts else {}
            have = {}
            for name, value in got[1].items():
                if call in ("roll", "max", "min"):
                    have[name] = value
                elif call == "get_average":
                    have[name] = int(round(value - 1 / 3)) if close(value, round(value - 1 / 3) + 1 / 3) else value
                elif call == "get_probability_distributions_dict":
                    have[name] = min(value) if same_table(("ok", value), {min(value): 2 / 3, min(value) + 1: 1 / 3}) else value
                else:
                    have[name] = value.min() if dict(value.get_result_map()) == {value.min(): 2, value.min() + 1: 1} else value
            ctx.truth(label, True, have == want, f"calls (kind, [(name, value) per line]) {trace}, evaluation k adding k to the value: the last gives {have}, expected {want}")
            kept.append((call, got[1], view(call, got[1]), len(trace)))
        for call, result, was, turn in kept:
            ctx.truth(f"{trace} kept", True, view(call, result) == was, f"{trace}: the result of call {turn} changed later")

    while ctx.more():
        if rng.random() < 0.4:
            history()
            continue
        lines = [rng.choice([None, "a", "b", "stdout_", "c"]) for _ in range(rng.randint(0, 6))]
        stub_case(rng.choice(list(CALLS)), lines, [rng.randint(-30, 30) for _ in lines])


# ------------------------------------------------------------------ C13
def snapshot(distribution):
    return [(o.value, str(o.constraint_set), o.is_possible(), c) for o, c in distribution.get_constraint_result_map().items()]


def state_snapshot(state, names):
    return {n: (snapshot(state.get_var(n)) if state.has_var(n) else None, attempt(lambda: state.get_constant(n))[:2]) for n in names}


def check_C13(ctx):
    rng = ctx.rng

    def make_pool():
        state = ProbabilityDistributionStateFactory().create_new_empty_set()
        state.set_var("a", FACTORY.create({1: 1, 2: 2, -1: 1}))
        state.set_var("b", FACTORY.create({0: 1, 3: 1}))
        pool = [FACTORY.create({1: 1, -2: 3, 5: 1}), FACTORY.create({2: 2}), state.get_var("a"), state.get_var("b"), state.get_var("a") + state.get_var("b")]
        if rng.random() < 0.2:
            extra = hot_map(rng, span=300, size=60)
            pool.append(FACTORY.create(dict(extra)))
            if len(extra) < 20:
                state.set_var("c", pool[-1])
                pool.append(state.get_var("c"))
        return state, pool

    queries = ["get_result_map", "get_dict_form", "average", "at_least", "at_most", "max", "min", "contains_zero"]

    def step(state, pool, trace):
        kind = rng.randrange(5)
        if kind == 0:
            name = rng.choice(queries)
            index = rng.randrange(len(pool))
            trace.append(f"pool[{index}].{name}()")
            first = attempt(getattr(pool[index], name))
            copy = dict(first[1]) if first[0] == "ok" and isinstance(first[1], dict) else first
            again = attempt(getattr(pool[index], name))
            again = dict(again[1]) if again[0] == "ok" and isinstance(again[1], dict) else again
            ctx.truth(f"repeat {name}", True, copy == again, f"{trace}: repeating {name} gives {again}, first {copy}")
            if first[0] == "ok" and isinstance(first[1], dict):
                how = rng.randrange(3)
                if how == 0:
                    first[1].clear()
                elif how == 1 and first[1]:
                    first[1][rng.choice(list(first[1]))] = 77
                else:
                    first[1][10 ** 9] = 1
                fresh = attempt(getattr(pool[index], name))
                ctx.truth(f"own {name}", True, fresh[0] == "ok" and dict(fresh[1]) == copy, f"{trace}: changing the result of {name} changes the distribution")
        elif kind in (1, 2):
            o = rng.choice(ALL_OPS)
            i, j = rng.randrange(len(pool)), rng.randrange(len(pool))
            trace.append(f"pool[{i}] {o} pool[{j}]")
            got = attempt(lambda: dist_op(o, pool[i], pool[j]))
            if got[0] == "ok" and len(got[1].get_constraint_result_map()) < 40:
                pool.append(got[1])
        elif kind == 3:
            i = rng.randrange(len(pool))
            o = rng.choice(["abs", "not"])
            trace.append(f"{o} pool[{i}]")
            pool.append(abs(pool[i]) if o == "abs" else pool[i].not_operator())
        else:
            i = rng.randrange(len(pool))
            name = rng.choice(["a", "b", "c"])
            trace.append(f"set_var({name!r}, pool[{i}])")
            before = state_snapshot(state, ["a", "b", "c", "d"])
            state.set_var(name, pool[i])
            after = state_snapshot(state, ["a", "b", "c", "d"])
            for other in before:
                if other != name:
                    ctx.truth(f"set_var {name} {other}", True, before[other] == after[other], f"{trace}: set_var({name!r}) changed {other} from {before[other]} to {after[other]}")
            pool.append(state.get_var(name))

    # outcomes without ways, and reading the outcomes between two queries
    for faces in ({1: 0, 2: 3}, {0: 1, 5: 0, 7: 2}, {2: 1, 3: 1}):
        d = FACTORY.create(dict(faces))
        first = (dict(d.get_result_map()), d.get_dict_form(), d.max(), d.min(), str(d))
        d + FACTORY.create({1: 1})
        d.get_constraint_result_map()
        abs(d)
        again = (dict(d.get_result_map()), d.get_dict_form(), d.max(), d.min(), str(d))
        ctx.truth(f"without ways {faces}", True, first == again, f"{faces}: {first} before and {again} after use in a sum")

    def run():
        state, pool = make_pool()
        trace = []
        for _ in range(rng.randint(2, 6)):
            before = [snapshot(d) for d in pool]
            extra = list(pool)
            step(state, pool, trace)
            for index, (distribution, old) in enumerate(zip(extra, before)):
                now = snapshot(distribution)
                ctx.truth(f"frame {trace[-1]} {index}", len(old) > 1, now == old, f"{trace}: distribution {index} changed from {old} to {now}")

    # constraint sets
    def constraints():
        factory, merger = ConstraintFactory(), ConstraintMerger()
        base = [("a", (1, 2)), ("b", (1,)), "null", ("c", (0, 3))]
        specs1 = [rng.choice(base + ["impossible", ("a", (2, 3))]) for _ in range(rng.randint(1, 3))]
        specs2 = [rng.choice(base + [("a", (1,)), ("b", (2,))]) for _ in range(rng.randint(1, 3))]
        raw = {make_constraint(factory, s) for s in specs1}
        raw_before = [str(c) for c in raw]
        one = ConstraintSet(raw, merger)
        two = ConstraintSet({make_constraint(factory, s) for s in specs2}, merger)
        ctx.truth("raw set", True, [str(c) for c in raw] == raw_before, f"building a set from {specs1} changed it to {raw}")
        before = (str(one), str(two), one.is_possible(), two.is_possible())
        both = one.combine_sets(two)
        after = (str(one), str(two), one.is_possible(), two.is_possible())
        ctx.truth("combine", True, before == after, f"combine_sets of {specs1} and {specs2} changed {before} to {after}")
        kept = str(both)
        got = both.constraints
        got.clear()
        ctx.truth("constraints", True, str(both) == kept, f"changing the returned constraints of {specs1}+{specs2} changed the set")
        one.add_constraint(make_constraint(factory, ("a", (2,))))
        ctx.truth("result apart", True, str(both) == kept and str(two) == before[1], f"adding to {specs1} changed {specs2} or their combination")
        sets = {make_constraint(factory, s) for s in specs2}
        was = [str(c) for c in sets]
        merger.merge_constraints(sets)
        merger.merge_new_constraints(sets, make_constraint(factory, specs1[0]))
        ctx.truth("merger", True, [str(c) for c in sets] == was, f"merger changed its argument {specs2}")
        held = factory.var_value_constraint("a", {1, 2})
        text = str(held)
        held.merge(factory.var_value_constraint("a", {2, 3}))
        held.complies({"a": 5})
        held.can_merge(factory.null_constraint)
        ctx.truth("constraint", True, str(held) == text, "merge changed a constraint")

    # building from a map, dice expressions
    def maps():
        data = hot_map(rng) if rng.random() < 0.4 else random_map(rng)
        keep = dict(data)
        d = FACTORY.create(data)
        d.get_result_map()[99] = 1
        d.get_result_map().popitem()
        d.get_dict_form()[98] = 1
        if max(data) - min(data) < 2000:
            d.at_least()
        ctx.truth("create", True, data == keep, f"create changed its argument {keep} to {data}")
        data[77] = 1
        data[rng.choice(list(data))] += 1
        ctx.truth("create copy", True, dict(d.get_result_map()) == keep, f"distribution of {keep} follows later changes of its argument")

    def expressions():
        e = random_expression(rng, 0, [])
        if e[0] not in "dkc":
            return
        text = ref.text(e)
        expression = PARSER.parse(text)[0]
        want = {k: v for k, v in ref.leaf_counts(e).items() if v}
        for _ in range(2):
            calls = ["roll", "max", "min", "estimated_cost"]
            rng.shuffle(calls)
            for call in calls:
                getattr(expression, call)()
            got = attempt(lambda: dict(expression.get_probability_distribution().get_result_map()))
            ctx.case(f"{text} repeated", True, ("ok", want), got, f"distribution of {text} after {calls}")

    def tree():
        expression_lines = random_program(rng, assigns=0, max_size=200, depth=2)
        text = ref.text(expression_lines[0])
        expression = PARSER.parse(text)[0]
        first = attempt(lambda: (dict(expression.get_probability_distribution().get_result_map()), expression.max(), expression.min(), expression.estimated_cost()))
        expression_again = attempt(lambda: (dict(expression.get_probability_distribution().get_result_map()), expression.max(), expression.min(), expression.estimated_cost()))
        ctx.truth(f"{text} twice", True, first[:2] == expression_again[:2], f"{text}: evaluated twice: {first[1:]} and {expression_again[1:]}")

    for _ in range(60):
        run()
        constraints()
        maps()
        expressions()
    while ctx.more():
        rng.choice([run, constraints, maps, expressions, tree])()


# ------------------------------------------------------------------ C14
def check_C14(ctx):
    def leaf(e):
        text = ref.text(e)
        if e[0] == "c":
            want, make = 2, lambda: ConstantIntegerExpression(text, FACTORY)
        elif e[0] == "t":
            want, make = 2, lambda: ConstantBinaryExpression(text, FACTORY)
        elif e[0] == "d":
            want = (1 if e[1] is None else e[1]) * len(ref.die_faces(e[2]))
            make = lambda: DiceExpression(text, FACTORY)
        else:
            number = 1 if e[1] is None else e[1]
            faces = len(ref.die_faces(e[2]))
            if e[3] == "k":
                want = number * faces if e[4] >= number else 2 if e[4] == 0 else number * e[4] * faces
            else:
                want = 2 if e[4] >= number else number * faces if e[4] == 0 else number * (number - e[4]) * faces
            make = lambda: DropKeepExpression(text, FACTORY)
        got = attempt(lambda: make().estimated_cost())
        ctx.case(f"cost {text}", True, ("ok", want), got, f"estimated_cost of {text}")

    def composite(a, b):
        for o in ALL_OPS:
            got = attempt(lambda: binary_expression(o, Stub(cost=a), Stub(cost=b)).estimated_cost())
            ctx.case(f"cost {a} {o} {b}", True, ("ok", a + b), got, f"estimated_cost of {o} over operand costs {a}, {b}")
        for label, cls, want in (("ABS", AbsExpression, a), ("paren", ParenthesisEnclosedExpression, a), ("NOT", NotExpression, a + a // 10)):
            got = attempt(lambda: cls(Stub(cost=a)).estimated_cost())
            ctx.case(f"cost {label} {a}", True, ("ok", want), got, f"estimated_cost of {label} over operand cost {a}")
        state = ProbabilityDistributionStateFactory().create_new_empty_set()
        got = attempt(lambda: VarAssignmentExpression(state, "x", Stub(cost=a)).estimated_cost())
        ctx.case(f"cost VAR {a}", True, ("ok", a + 2), got, f"estimated_cost of an assignment of cost {a}")
        got = attempt(lambda: GetVarExpression(state, "x").estimated_cost())
        ctx.case(f"cost var {a}", True, ("ok", a), got, f"estimated_cost of a variable assigned with cost {a}")

    for die in BASE_DICE + [("%",)]:
        for number in (None, 0, 1, 2, 5, 12):
            leaf(("d", number, die))
        for mode in "kd":
            for number in (None, 0, 1, 2, 3, 7):
                for amount in range(0, 9):
                    leaf(("k", number, die, mode, amount))
    for n in (-30, -1, 0, 1, 2, 12):
        leaf(("c", n))
    leaf(("t", True))
    leaf(("t", False))
    for a in (0, 1, 2, 3, 9, 10, 11, 19, 20, 27, 99, 1234):
        for b in (0, 1, 7, 12):
            composite(a, b)
    rng = ctx.rng
    while ctx.more():
        kind = rng.randrange(4)
        if kind == 3:
            composite(hot(rng, 10 ** 14), hot(rng, 10 ** 14))
            die = hot_die(rng, 600)
            if ref.die_faces(die):
                leaf(("d", rng.choice([None, 1, 2, hot(rng)]), die))
                number = hot(rng)
                leaf(("k", number, rng.choice([die, ("n", rng.randint(1, 9))]), rng.choice("kd"), rng.choice([hot(rng), number, number - 1, rng.randint(0, 3)])))
        elif kind == 0:
            composite(rng.randint(0, 10 ** rng.randint(1, 6)), rng.randint(0, 1000))
        else:
            die = random_die(rng, big=True)
            if ref.die_faces(die):
                leaf(("d", rng.choice([None, rng.randint(0, 30)]), die))
                leaf(("k", rng.choice([None, rng.randint(0, 30)]), die, rng.choice("kd"), rng.randint(0, 12)))


# ------------------------------------------------------------------ C15
import grammar  # noqa: E402


def check_C15(ctx):
    rng = ctx.rng

    def state_for(names):
        state = ProbabilityDistributionStateFactory().create_new_empty_set()
        return state

    def one(tokens, spaces=None):
        """tokens: list of token texts; joined with blanks"""
        text = " ".join(tokens) if spaces is None else spaces(tokens)
        tree = grammar.parse(grammar.lex(text))
        got = attempt(lambda: type(PARSER.parse(text)[0]).__name__)
        if tree is None:
            ctx.truth(f"reject {text}", len(tokens) > 1, got[0] == "raise" and got[1] == "ValueError", f"{text!r} is not a line of the language but parsing gives {got[:2]}")
            return False
        if got[0] != "ok":
            ctx.truth(f"accept {text}", len(tokens) > 1, False, f"{text!r} is well formed but parsing raises {got[1:]}")
            return False
        ctx.truth(f"accept {text}", len(tokens) > 1, True, "")
        return True

    def value(tokens, env):
        """the tree, observed through rolls for given values of the names"""
        text = " ".join(tokens)
        tree = grammar.parse(grammar.lex(text))
        if tree is None:
            return
        if any("AND" == t for t in tokens):
            pass
        state = ProbabilityDistributionStateFactory().create_new_empty_set()
        for name, number in env.items():
            state.set_constant(name, number)
        want = attempt(lambda: grammar.evaluate(tree, dict(env)))[:2]
        got = attempt(lambda: PARSER.parse(text, state=state)[0].roll())[:2]
        if want != got and "AND" in tokens:
            pinned = attempt(lambda: grammar.evaluate(tree, dict(env), bitand=True))[:2]
            if pinned == got:
                ctx.truth(f"value {text} {env}", len(tokens) > 1, True, "")
                return
        ctx.case(f"value {text} {env}", len(tokens) > 1, want, got, f"roll of {text!r} with {env}")
        names = set(env)
        expression = attempt(lambda: PARSER.parse(text, state=state)[0])
        if expression[0] == "ok":
            ctx.case(f"text {text}", len(tokens) > 1, grammar.lex(grammar.show(tree)), grammar.lex(str(expression[1])), f"str of the parse of {text!r}")

    env = {"a": 3, "b": -2, "c": 7, "e": 1}
    ops = ["+", "-", "*", "//", "==", "<", ">=", "AND", "OR", "!=", "<=", ">"]
    for o1 in ops:
        one(["a", o1, "b"])
        for values in (env, {"a": 2, "b": 5, "c": 3, "e": 4}, {"a": -7, "b": 2, "c": -1, "e": 0}):
            value(["a", o1, "b"], values)
            for o2 in ops:
                value(["a", o1, "b", o2, "c"], values)
                value(["(", "a", o1, "b", ")", o2, "c"], values)
                value(["a", o1, "(", "b", o2, "c", ")"], values)
                value(["!", "a", o1, "b", o2, "c"], values)
                value(["a", o1, "!", "b", o2, "c"], values)
                value(["VAR", "x", "=", "a", o1, "b", o2, "c"], values)
                value(["ABS", "(", "a", o1, "b", ")", o2, "c"], values)
                value(["MAX", "(", "a", ",", "b", o1, "c", ")", o2, "e"], values)
                value(["MIN", "(", "a", o1, "b", ",", "c", ")", o2, "!", "e"], values)
    vocabulary = ["a", "1", "-2", "(", ")", "+", "-", "*", "//", "==", "AND", "!", "ABS", "MAX", ",", "VAR", "=", "True", "2d6", "3d4k1"]
    for n in (1, 2, 3):
        for tokens in itertools.product(vocabulary, repeat=n):
            one(list(tokens))
    for text in (
        "1 +", "+ 1", "1 2", "(1", "1)", "", " ", "VAR", "VAR a", "VAR a =", "VAR A = 1", "a = 1", "VAR 1 = 1", "ABS 1", "ABS(1", "MAX(1)", "MAX(1, 2, 3)",
        "MIN(, 1)", "1 == ", "!", "d", "2d", "d[]", "d[1", "d[1,,2]", "d[a]", "2d6k", "2d6d", "d6k-1", "$", "1 $ 2", "1 / 2", "1.5", "Foo", "A", "TRUE",
        "max(1, 2)", "abs(1)", "1 and 2", "a b", "1 == == 1", "VAR a = VAR b = 1", "VAR a = VAR b", "()", "( )", "d6 d6", "1 & 2", "[1]", "d%%", "dFF",
    ):
        tree = grammar.parse(grammar.lex(text))
        got = attempt(lambda: type(PARSER.parse(text)[0]).__name__)
        if tree is None:
            ctx.truth(f"reject {text!r}", True, got[0] == "raise" and got[1] == "ValueError", f"{text!r} is not a line of the language but parsing gives {got[:2]}")
        else:
            ctx.truth(f"accept {text!r}", True, got[0] == "ok", f"{text!r} is well formed but parsing raises {got[1:]}")
    for text, cls in (
        ("d6", DiceExpression), ("2d6", DiceExpression), ("10d%", DiceExpression), ("dF", DiceExpression), ("3d[1,2-4*2,-5--3,]", DiceExpression),
        ("d[ 1 , 2 ]", DiceExpression), ("2d6k1", DropKeepExpression), ("2d6d1", DropKeepExpression), ("d%k1", DropKeepExpression), ("3dFd2", DropKeepExpression),
        ("4d[1,-2*3]k2", DropKeepExpression), ("5", ConstantIntegerExpression), ("-5", ConstantIntegerExpression), ("True", ConstantBinaryExpression),
        ("False", ConstantBinaryExpression), ("d", GetVarExpression), ("abc_d", GetVarExpression), ("_", GetVarExpression),
    ):
        got = attempt(lambda: type(PARSER.parse(text)[0]).__name__)
        ctx.case(f"kind {text}", True, ("ok", cls.__name__), got, f"class of the parse of {text!r}")
        got = attempt(lambda: str(PARSER.parse(text)[0]))
        ctx.case(f"str {text}", True, ("ok", text), got, f"str of the parse of {text!r}")

    def random_tokens(depth):
        kind = rng.randrange(12)
        if depth == 0 or kind <= 3:
            return [rng.choice(["a", "b", "c", "e", str(rng.randint(0, 9)), str(-rng.randint(1, 9)), "True", "False"])]
        if kind == 4:
            return ["("] + random_tokens(depth - 1) + [")"]
        if kind == 5:
            return ["!"] + random_tokens(depth - 1)
        if kind == 6:
            return ["ABS", "("] + random_tokens(depth - 1) + [")"]
        if kind == 7:
            return [rng.choice(["MAX", "MIN"]), "("] + random_tokens(depth - 1) + [","] + random_tokens(depth - 1) + [")"]
        if kind == 8 and depth > 1:
            return ["VAR", rng.choice(["x", "y"]), "="] + random_tokens(depth - 1)
        return random_tokens(depth - 1) + [rng.choice(ops)] + random_tokens(depth - 1)

    letters = "abdkzF_ABSMINXVORDTruels0123456789 \t\n+-*/=<>!()[],%&.$"
    every = "".join(map(chr, range(128)))

    def judge(text):
        tree = grammar.parse(grammar.lex(text))
        got = attempt(lambda: str(PARSER.parse(text)[0]))
        if tree is None:
            ctx.truth(f"reject {text!r}", True, got[0] == "raise" and got[1] == "ValueError", f"{text!r} is not a line of the language but parsing gives {got[:2]}")
        else:
            got = (got[0], grammar.lex(got[1])) if got[0] == "ok" else got
            ctx.case(f"accept {text!r}", True, ("ok", grammar.lex(grammar.show(tree))), got, f"str of the parse of {text!r}")

    # each character alone, at either end and inside of lines
    for c in every:
        for line in ("d6", "a", "5", "(1)", "2d6k1", "VAR x = d[1,2] + 3", "a AND !b"):
            for k in (0, 1, 2, len(line) // 2, len(line) - 1, len(line)):
                judge(line[:k] + c + line[k:])
            judge(line + c + c)
            judge(c + line + c)
    words = vocabulary + ops + ["False", "MIN", "OR", "d6", "d%", "dF", "d[1,2*3,-4--1]", "2d[ 3 , -1 ]k1", "10d10d3", "ab_c", "d", "k", "0", "007", "b", "_", "VARx", "ABSx", "xAND", "TrueX"]

    def characters():
        """accept/reject, token boundaries and kinds on running text"""
        kind = rng.randrange(4)
        if kind == 0:
            text = "".join(rng.choice(letters) for _ in range(rng.randint(1, 8)))
        elif kind == 1:
            text = "".join(rng.choice(words) + rng.choice(["", "", " ", "  ", "\t", "\n"]) for _ in range(rng.randint(1, 6)))
        else:
            tokens = random_tokens(rng.randint(1, 3))
            text = "".join(t + rng.choice(["", " ", " "]) for t in tokens)
            if kind == 3:
                spot = rng.randrange(len(text) + 1)
                text = text[:spot] + rng.choice(letters if rng.random() < 0.7 else every) + text[spot + rng.randrange(2):]
        judge(text)

    while ctx.more():
        r = rng.random()
        if rng.random() < 0.4:
            characters()
        elif r < 0.7:
            tokens = random_tokens(rng.randint(1, 4))
            value(tokens, {n: rng.randint(-6, 9) for n in "abce"})
        elif r < 0.85:
            tokens = random_tokens(3)
            i = rng.randrange(len(tokens))
            if rng.random() < 0.5:
                del tokens[i]
            else:
                tokens.insert(i, rng.choice(vocabulary))
            one(tokens)
        else:
            one([rng.choice(vocabulary) for _ in range(rng.randint(4, 7))])


# ------------------------------------------------------------------ C17
def shape_of(expression):
    """class and operands, recursively"""
    parts = [shape_of(v) for v in vars(expression).values() if isinstance(v, IDiceExpression)]
    return (type(expression).__name__,) + tuple(parts)


def check_C17(ctx):
    rng = ctx.rng
    values = {"a": 3, "b": -2, "c": 7, "ab": 4, "_": -1, "x_y": 0, "d": 2, "k": 5}

    def parsed(text):
        state = ProbabilityDistributionStateFactory().create_new_empty_set()
        for name, number in values.items():
            state.set_constant(name, number)
        return PARSER.parse(text, state=state)[0]

    def one(text, observe=True):
        tree = grammar.parse(grammar.lex(text))
        if tree is None:
            return
        first = attempt(lambda: parsed(text))
        if first[0] != "ok":
            return  # C15
        first = first[1]
        printed = attempt(lambda: str(first))
        ctx.truth(f"print {text}", True, printed[0] == "ok" and isinstance(printed[1], str), f"printing the parse of {text!r} gives {printed}")
        if printed[0] != "ok":
            return
        tokens = lambda t: None if t is None else [(k, int(v) if k == "INT" else re.sub(r"\s", "", v)) for k, v in t]
        ctx.case(f"text {text}", True, tokens(grammar.lex(text)), tokens(grammar.lex(printed[1])), f"str of the parse of {text!r}: {printed[1]!r}")
        again = attempt(lambda: parsed(printed[1]))
        ctx.truth(f"parse {text}", True, again[0] == "ok", f"{text!r} prints as {printed[1]!r}, which does not parse")
        if again[0] != "ok":
            return
        again = again[1]
        ctx.case(f"same {text}", True, shape_of(first), shape_of(again), f"{text!r} prints as {printed[1]!r}, which is another expression")
        ctx.case(f"stable {text}", True, printed, attempt(lambda: str(first)), f"second printing of {text!r}")
        ctx.case(f"names {text}", True, grammar.contained(tree), set(first.get_contained_variables()), f"variables of {text!r}")
        mine = first.get_contained_variables()
        if isinstance(mine, set):
            mine.add("other")
            ctx.case(f"own {text}", True, grammar.contained(tree), set(first.get_contained_variables()), f"variables of {text!r} after the caller changed the set handed out")
        if observe and not any(k in ("DICE", "DK") for k, _ in grammar.lex(text)):
            ctx.case(f"roll {text}", True, attempt(lambda: parsed(text).roll())[:2], attempt(lambda: parsed(printed[1]).roll())[:2], f"roll of {text!r} and of {printed[1]!r}")

    leaf = ["a", "b", "c", "ab", "_", "x_y", "d", "k", "0", "5", "-3", "007", "-0", "True", "False", "d6", "2d%", "3dF", "d[1,-2--1*3]", "0d4", "4d6k2", "d[ 1 , 2, ]", "5dFd1", "10d[-4]k12"]
    ops = ["+", "-", "*", "//", "==", "<", ">=", "AND", "OR", "!=", "<=", ">"]
    for x in leaf:
        one(x)
        for form in ("!%s", "(%s)", "ABS(%s)", "VAR z = %s", "!!%s", "((%s))", "ABS(!%s)", "VAR y = VAR z = %s"):
            one(form % x)
        for y in leaf:
            for o in ops:
                one(f"{x} {o} {y}", False)
            one(f"MAX({x}, {y})", False)
            one(f"MIN({x} ,{y})", False)
    for o1 in ops:
        for o2 in ops:
            for form in ("a %s b %s c", "(a %s b) %s c", "a %s (b %s c)", "!a %s b %s c", "a %s !b %s c", "VAR x = -1 %s b %s -5", "MAX(a %s b, c %s d)"):
                one(form % (o1, o2))

    def text(depth):
        kind = rng.randrange(12)
        if depth == 0 or kind <= 2:
            if rng.random() < 0.3:
                return ref.dice_text(rng.choice([0, 1, 2, 11]), random_die(rng))
            return rng.choice(leaf)
        if kind == 3:
            return "(" + text(depth - 1) + ")"
        if kind == 4:
            return "!" + text(depth - 1)
        if kind == 5:
            return "ABS(" + text(depth - 1) + ")"
        if kind == 6:
            return rng.choice(["MAX", "MIN"]) + "(" + text(depth - 1) + ", " + text(depth - 1) + ")"
        if kind == 7:
            return "VAR " + rng.choice(["x", "y", "ab"]) + " = " + text(depth - 1)
        return text(depth - 1) + " " + rng.choice(ops) + " " + text(depth - 1)

    while ctx.more():
        one(text(rng.randint(1, 6)))


# ------------------------------------------------------------------ C16
def check_C16(ctx):
    import matplotlib

    matplotlib.use("Agg")
    from matplotlib import axes, pyplot

    import io

    from PIL import Image

    calls = []
    real_hist, real_plot, real_savefig = axes.Axes.hist, axes.Axes.plot, pyplot.savefig
    tiny = io.BytesIO()
    Image.new("RGB", (2, 2)).save(tiny, format="tiff")

    def hist(self, x, bins=None, weights=None, **kw):
        calls.append(("hist", list(x), None if bins is None else list(bins), None if weights is None else list(weights)))
        return None

    def plot(self, *args, **kw):
        calls.append(("plot",) + tuple(list(a) if isinstance(a, (list, tuple)) else a for a in args[:3]) + (kw.get("label"),))
        return []

    def savefig(target, *args, **kw):
        target.write(tiny.getvalue())

    def shown(fn):
        calls.clear()
        got = attempt(fn)
        pyplot.close("all")
        return got

    def heights(call):
        """probability drawn at each value: weight of every bin, bin by bin"""
        _, xs, bins, weights = call
        out = {}
        for x, w in zip(xs, weights):
            out[x] = out.get(x, 0) + w
        return out

    def good_bins(call, values):
        bins = sorted(call[2])
        # every value lies strictly inside a bin of its own
        used = set()
        for v in values:
            spot = bisect.bisect_left(bins, v)
            if spot == 0 or spot == len(bins) or bins[spot] == v or spot in used:
                return False
            used.add(spot)
        # and no bar reaches beyond the values
        return all(any(abs(abs(b - v) - 0.5) < 1e-9 for v in values) for b in bins)

    def one(m1, m2):
        d1, d2 = FACTORY.create(dict(m1)), FACTORY.create(dict(m2))
        t1, t2 = tables(m1), tables(m2)
        for call, table in (("get_histogram", t1["hist"]), ("get_at_least_histogram", t1["at_least"]), ("get_at_most_histogram", t1["at_most"])):
            got = shown(getattr(d1, call))
            hists = [c for c in calls if c[0] == "hist"]
            ok = got[0] == "ok" and len(hists) == 1 and same_table(("ok", heights(hists[0])), table) and good_bins(hists[0], table)
            ctx.truth(f"{call} {m1}", len(m1) > 1, ok, f"{call} of {m1} draws {calls[:2]}, expected { {k: float(v) for k, v in table.items()} }; {got[:2]}")
            if got[0] == "ok":
                plots = [c for c in calls if c[0] == "plot"]
                ok = len(plots) == 1 and all(close(x, t1["average"]) for x in plots[0][1])
                ctx.truth(f"{call} average {m1}", len(m1) > 1, ok, f"{call} of {m1} marks {plots}, average {float(t1['average'])}")
        for call, a, b in (("get_compare", t1["hist"], t2["hist"]), ("get_compare_at_least", t1["at_least"], t2["at_least"]), ("get_compare_at_most", t1["at_most"], t2["at_most"])):
            for names in ((), ("first", "second")):
                got = shown(lambda: getattr(d1, call)(d2, *names))
                plots = [c for c in calls if c[0] == "plot"]
                ok = got[0] == "ok" and len(plots) == 2
                for p, table in zip(plots, (a, b)):
                    ok = ok and same_table(("ok", dict(zip(p[1], p[2]))), table) and list(p[1]) == sorted(p[1]) and len(p[1]) == len(table)
                if ok and names:
                    ok = [p[4] for p in plots] == list(names)
                ctx.truth(f"{call} {m1} {m2}", len(m1) > 1, ok, f"{call} of {m1} and {m2} draws {calls[:2]}; {got[:2]}")
        got = shown(lambda: d1.get_compare_histogram(d2))
        hists = [c for c in calls if c[0] == "hist"]
        want = {}
        for v in list(t1["hist"]) + list(t2["hist"]):
            want[v] = t1["hist"].get(v, 0) - t2["hist"].get(v, 0)
        doubled = {v: w * (2 if v in t1["hist"] and v in t2["hist"] else 1) for v, w in want.items()}
        if got[0] == "ok" and len(hists) == 1 and not same_table(("ok", heights(hists[0])), want) and same_table(("ok", heights(hists[0])), doubled):
            ctx.known("C16-double", f"get_compare_histogram of {m1} and {m2} draws the difference twice at shared values")
        else:
            ok = got[0] == "ok" and len(hists) == 1 and same_table(("ok", heights(hists[0])), want)
            ctx.truth(f"compare hist {m1} {m2}", True, ok, f"get_compare_histogram of {m1} and {m2} draws {calls[:2]}, expected { {k: float(v) for k, v in want.items()} }; {got[:2]}")

    axes.Axes.hist, axes.Axes.plot, pyplot.savefig = hist, plot, savefig
    try:
        for m1, m2 in zip(EDGE_MAPS, EDGE_MAPS[1:] + EDGE_MAPS[:1]):
            one(m1, m2)
        rng = ctx.rng
        while ctx.more():
            if rng.random() < 0.3:
                one(hot_map(rng, span=700, size=400), random_map(rng, 5, 9))
            else:
                one(random_map(rng, 5, 9), random_map(rng, 5, 9))
    finally:
        axes.Axes.hist, axes.Axes.plot, pyplot.savefig = real_hist, real_plot, real_savefig
