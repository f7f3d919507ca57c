"""Magnitudes worth trying: the integers that appear as literals in the source of
the tree under check (a threshold in the code is only crossed by an input of that
size), their neighbours, and some fixed round numbers."""
import ast
import os
import re

ROUND = [
    7, 8, 9, 10, 11, 12, 13, 16, 17, 20, 21, 31, 32, 33, 50, 64, 99, 100, 101, 127, 128, 255, 256, 257, 512, 999, 1000, 1001, 4096,
    9999, 65535, 65536, 10 ** 6, 2 ** 31, 10 ** 12 + 1, 2 ** 53 + 1, 10 ** 18 + 3, 2 ** 64 + 1,
]


def literals():
    root = os.path.join(os.environ.get("VF_REPO", "/repo"), "python_dice")
    found = set()
    for folder, _, files in os.walk(root):
        if "test" in os.path.basename(folder) or os.sep + "test" in folder:
            continue
        for name in files:
            if not name.endswith(".py"):
                continue
            try:
                with open(os.path.join(folder, name)) as handle:
                    tree = ast.parse(handle.read())
            except (OSError, SyntaxError, ValueError):
                continue
            for node in ast.walk(tree):
                if isinstance(node, ast.Constant):
                    if isinstance(node.value, (int, float)) and not isinstance(node.value, bool):
                        if abs(node.value) < 10 ** 30:
                            found.add(abs(int(node.value)))
                    elif isinstance(node.value, str) and len(node.value) < 60:
                        for digits in re.findall(r"\d+", node.value)[:6]:
                            if len(digits) < 20:
                                found.add(int(digits))
    return sorted(found)


SOURCE = [n for n in literals() if n > 2]
NEAR = sorted({m for n in SOURCE for m in (n - 1, n, n + 1, n + 2)} | {n * n for n in SOURCE if n < 1000} | {2 * n + 1 for n in SOURCE})


def upto(limit):
    """source magnitudes not above limit"""
    return [n for n in NEAR if 0 < n <= limit]


def hot(rng, limit=None):
    pool = NEAR if rng.random() < 0.6 else ROUND
    if limit is not None:
        pool = [n for n in pool if n <= limit]
    if not pool:
        return rng.randint(1, max(1, min(limit or 50, 50)))
    return rng.choice(pool)


def signed(rng, limit=None):
    n = hot(rng, limit)
    return -n if rng.random() < 0.4 else n
