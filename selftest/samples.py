"""Functions in the style of the repository, executed both by the verifier (for all
inputs) and by CPython (on samples).  Parameters: d, e maps of integers; s, t sets;
n, m integers; x list of integers."""
import collections
import copy


def total(d):
    out = 0
    for value, count in d.items():
        out += value * count
    return out


def counts(d):
    return sum(d.values())


def positive(d):
    return sum(count for value, count in d.items() if value > 0)


def shift(d, n):
    return {value + n: count for value, count in d.items()}


def collect(d, n):
    out = {}
    for value, count in d.items():
        key = abs(value - n)
        out[key] = out.get(key, 0) + count
    return out


def collect_default(d, e):
    out = collections.defaultdict(int)
    for a, x in d.items():
        for b, y in e.items():
            out[a * b] += x * y
    return dict(out)


def collect_if(d, e):
    out = {}
    for a in d:
        for b in e:
            key = max(a, b)
            if key not in out:
                out[key] = 0
            out[key] += d[a] * e[b]
    return out


def collect_try(d):
    out = {}
    for a, x in d.items():
        try:
            out[a // 2] += x
        except KeyError:
            out[a // 2] = x
    return out


def setdefaults(d, n):
    out = {n: 1}
    for a, x in d.items():
        out.setdefault(a, 0)
        out[a] += x
    return out


def collect_outside(d, n):
    out = {value: 0 for value in d if value > n}
    out.update({n: 7})
    return out


def counter(d):
    out = collections.Counter()
    for a, x in d.items():
        out[a % 3] += x
    return dict(out)


def greatest(d):
    return max(d)


def least(d):
    return min(d.keys())


def greatest_count(d):
    return max(d.values())


def default_max(d, n):
    return max((k for k in d if k > n), default=n)


def running_max(d, n):
    best = n
    for k in d:
        if k > best:
            best = k
    return best


def every(d, n):
    return all(k > n for k in d)


def some(d, n):
    return any(k == n for k in d)


def found(d, n):
    for k in d:
        if k * 2 == n:
            return True
    return False


def found_else(d, n):
    for k in d:
        if k == n:
            break
    else:
        return -1
    return 1


def lookup(d, n):
    return d[n]


def lookup_default(d, n):
    return d.get(n, n + 1)


def member(d, n):
    return n in d


def size(d):
    return len(d)


def truthy(d):
    if d:
        return 1
    return 0


def pop(d, n):
    d = dict(d)
    return d.pop(n, -1)


def delete(d, n):
    d = dict(d)
    del d[n]
    return d


def write(d, n, m):
    e = d.copy()
    e[n] = m
    return e


def aliased(d, n):
    e = dict(d)
    f = e
    f[n] = 5
    return e


def copied(d, n):
    e = dict(d)
    f = copy.copy(e)
    f[n] = 5
    return e


def gaps(d):
    return {k: d.get(k, 0) for k in range(min(d), max(d) + 1)}


def cumulative(d):
    out = {}
    acc = 0
    for k in range(min(d), max(d) + 1):
        acc += d.get(k, 0)
        out[k] = acc
    return out


def descending(d):
    out = {}
    acc = 0
    for k in reversed(range(min(d), max(d) + 1)):
        acc += d.get(k, 0)
        out[k] = acc
    return out


def by_sorted(d):
    out = {}
    acc = 0
    for k in sorted(d):
        acc += d[k]
        out[k] = acc
    return out


def floor(n, m):
    return n // m


def modulo(n, m):
    return n % m


def truncated(n, m):
    return int(n / 2) + m


def halves(n):
    return n / 2 + 0.5


def rounding(n):
    return int(n * 1.5)


def compare(n, m):
    return (n < m) + 2 * (n <= m) + 4 * (n == m) + 8 * (n != m)


def logic(n, m):
    return (n and m) or n - 1


def chained(n, m):
    return 0 <= n < m


def ternary(n, m):
    return n if n > m else m - n


def negation(n):
    return not n


def unary(n, m):
    return -n + abs(m) - +n


def power(n):
    return n ** 2


def floats(n, m):
    return n / 4 + m


def sets(s, t):
    return s & t


def union(s, t):
    return s | t


def minus(s, t):
    return s - t


def symmetric(s, t):
    return s ^ t


def subset(s, t):
    return s <= t


def set_of(d, n):
    return {k // 2 for k in d if k != n}


def add_to(s, n):
    s = set(s)
    s.add(n)
    return s


def discard(s, n):
    s = set(s)
    s.discard(n)
    return s


def remove(s, n):
    s = set(s)
    s.remove(n)
    return s


def disjoint(s, t):
    return s.isdisjoint(t)


def set_sum(s, n):
    out = n
    for v in s:
        if v % 2 == 0:
            continue
        out -= v
    return out


def set_loop(s, d):
    out = set()
    for v in s:
        if v in d:
            out.add(d[v])
    return out


def index_range(n, m):
    squares = [k * k for k in range(n, m)]
    if not squares:
        return 77
    return squares[0] + 10 * squares[-1] + 100 * squares[(m - n) // 2]


def index_other(n, m):
    try:
        return [k * 2 for k in range(5)][n] + m
    except IndexError:
        return 99


def index_filtered(n, m):
    odd = [k for k in range(n, m) if k % 2]
    if len(odd) > 2:
        return odd[-1]
    return 0


def while_count(n):
    total = 0
    while n > 0:
        total += n
        n -= 1
    return total + 1000 * n


def while_up(n, m):
    k = n
    total = 0
    while k <= m:
        k += 1
        if k % 3 == 0:
            continue
        total += k * k
    return total + 1000 * k


def while_down(n):
    count = 0
    while n > 3:
        n -= 3
        count += 1
        if count > 4:
            break
    return count


def raises(n, m):
    if n > m:
        raise ValueError(f"{n} is too large")
    return m - n


def handled(n, m):
    try:
        return n // m
    except ZeroDivisionError:
        return 99


def handled_other(d, n):
    try:
        return d[n]
    except ValueError:
        return 99


def finally_path(n, m):
    out = [0]
    try:
        out[0] = n // m
    except ZeroDivisionError:
        out[0] = -1
    return out[0]


def closure(n, m):
    def inner(k):
        return k * n

    return inner(m) + inner(1)


def defaults(n, m=4, k=2):
    return n * m + k


def keyword(n):
    return defaults(n, k=3) - defaults(m=n, n=2)


def unpack(n, m):
    (a, b), c = (m, n), n + m
    a, b = b, a
    return a * 100 + b * 10 + c


def lambda_sort(n, m):
    return sorted([n, m, 3], key=lambda v: -v)[0]


def concrete_list(n, m):
    out = [n, m]
    out.append(n + m)
    out.extend([1, 2])
    return sum(out) + out[-1] - out[0] + len(out)


def slices(n, m):
    out = [n, m, 7, 8]
    return sum(out[1:]) - sum(out[:-1]) + out[1:3][1]


def zipped(n, m):
    return sum(a * b for a, b in zip([n, m], [m, 3]))


def enumerated(n, m):
    return sum(i * v for i, v in enumerate([n, m, 5]))


class Box:
    size = 3

    def __init__(self, value):
        self._value = value

    @property
    def value(self):
        return self._value + self.size

    @staticmethod
    def twice(value):
        return value * 2

    @classmethod
    def make(cls, value):
        return cls(cls.twice(value))

    def __add__(self, other):
        return Box(self._value + other.value)

    def __eq__(self, other):
        return isinstance(other, Box) and self._value == other._value

    def __hash__(self):
        return hash(self._value)


class Bag(Box):
    size = 10

    @property
    def value(self):
        return super().value * 2


def boxes(n, m):
    return (Box.make(n) + Bag(m)).value


def box_equal(n, m):
    return Box(n) == Bag(m)


def box_differ(n, m):
    return Box(n) != Box(m)


def box_mutate(n, m):
    box = Box(n)
    other = box
    other._value = m
    return box.value


def equal_sets(s, t):
    return s == t


def equal_maps(d, e):
    return d == e


def equal_made(d, n):
    other = dict(d)
    other[n] = 3
    return 1 if d == other else (2 if d != {} else 3)


def equal_set_made(s, n):
    return (s | {n}) == s


def equal_lists(n, m):
    return [n, 2] == [m, 2]


def enumerated(n, m):
    return sum(k * v for k, v in enumerate(range(n, m)))


def enumerated_from(n, m):
    return sum(k - v for k, v in enumerate([v * v for v in range(n, m)], start=n))


def star_set(s, t):
    return len({*s, *t, 3})


def star_list(d):
    return sum([*d.keys(), *d.values(), 5])


def star_sorted(s):
    return sum(sorted({*s, 0}))


def yielded(d):
    def pairs():
        for key, value in d.items():
            if value > 1:
                yield key * 2, value

    totals = {}
    for key, value in pairs():
        totals[key] = totals.get(key, 0) + value
    return sum(totals.values())


def yield_from(n, m):
    def numbers():
        yield 5
        yield from range(n, m)

    return sum(numbers())


def generator_handed_on(s):
    def add(values):
        return sum(values)

    squares = (x * x for x in s)
    return add(squares)


def generator_twice(s):
    squares = (x + 1 for x in s)
    return sum(squares) + sum(squares)


def generator_in_loop(s, n):
    numbers = iter([1, 2, n])
    total = 0
    for x in s:
        total += x * sum(numbers)
    return total


def zip_twice(d):
    both = zip(d.keys(), d.values())
    first = sum(k for k, _ in both)
    return first + sum(v for _, v in both)


def map_list_twice(s):
    numbers = list(map(abs, s))
    return sum(numbers) - max([0] + numbers)
