"""C00 (not a property of the code under test) the engine's models of Python, compared with Python itself

Each obligation runs a construct on symbolic values; models of its paths are re-run on plain Python by the runner, and
the observations must be equal.  Integers are unbounded, so a construct that gives up on symbolic values is reported."""
import bisect
import collections
import contextlib
import copy
import dataclasses
import functools
import heapq
import itertools
import math
import operator
import re
import statistics
import string
import typing
from collections import Counter, OrderedDict, defaultdict, deque, namedtuple
from functools import cache, lru_cache, partial, reduce
from itertools import chain

from props.common import *

T = []


def case(f):
    T.append(f)
    return f


class P:
    def __init__(self, x, y):
        self.x, self.y = x, y

    def __eq__(self, o):
        return isinstance(o, P) and (self.x, self.y) == (o.x, o.y)

    def __hash__(self):
        return hash((self.x, self.y))

    def __repr__(self):
        return f"P({self.x!r}, {self.y!r})"


@dataclasses.dataclass(frozen=True)
class D:
    x: int
    y: int


@dataclasses.dataclass
class E:
    x: int
    y: list = dataclasses.field(default_factory=list)


N = namedtuple("N", "x y")


class NT(typing.NamedTuple):
    x: int
    y: int = 0


@case
def index_of(a, b, c, s, t):
    try:
        return [a, b].index(c)
    except ValueError as e:
        return str(e)


@case
def tuple_index(a, b, c, s, t):
    try:
        return (a, b).index(c)
    except ValueError:
        return -1


@case
def remove_and_count(a, b, c, s, t):
    l = [a, b, a]
    l.remove(a)
    return l, l.count(c), [s, t].count(s)


@case
def map_str(a, b, c, s, t):
    return ",".join(map(str, [a, b])), list(map(repr, [s, a])), list(map(len, [s, t, [a]]))


@case
def map_str_method(a, b, c, s, t):
    return list(map(str.upper, [s, t])), sorted([s, t], key=str.lower), list(map(str.strip, [s, t]))


@case
def join_gen(a, b, c, s, t):
    return " ".join(str(x) for x in (a, b, s)), "".join([s, t]), s.join(["x", t])


@case
def filter_kinds(a, b, c, s, t):
    return list(filter(None, [a, s, b])), list(filter(lambda x: x > 0, [a, b])), list(filter(str.isalpha, [s, t]))


@case
def operators(a, b, c, s, t):
    return operator.eq(a, b), operator.lt(a, b), operator.add(a, b), operator.mul(a, 2), operator.not_(a), operator.contains([a, b], c)


@case
def operator_getters(a, b, c, s, t):
    return (sorted([{"k": a}, {"k": b}], key=operator.itemgetter("k")), max([P(a, s), P(b, t)], key=operator.attrgetter("x")).x,
            operator.itemgetter(0, 1)((a, b)), operator.methodcaller("upper")(s))


@case
def reduce_ops(a, b, c, s, t):
    return reduce(operator.add, [a, b, c], 0), reduce(lambda x, y: x if x >= y else y, [a, b]), reduce(operator.or_, [{1: a}, {2: b}], {})


@case
def chains(a, b, c, s, t):
    return list(chain.from_iterable([[a], [b, s]])), list(chain([a], [t])), list(itertools.chain(*[[a, b]]))


@case
def itertools_more(a, b, c, s, t):
    return (list(itertools.starmap(lambda x, y: x + y, [(a, b)])), list(itertools.filterfalse(lambda x: x > 0, [a, b])),
            list(itertools.pairwise([a, b, c])), list(itertools.compress([a, b], [True, a > b])),
            [(k, list(g)) for k, g in itertools.groupby([a, b], key=lambda x: x > 0)],
            list(itertools.takewhile(lambda x: x < b, [a, c])), list(itertools.dropwhile(lambda x: x < b, [a, c])))


@case
def sums(a, b, c, s, t):
    return sum([a, b, c]), sum(x > 0 for x in (a, b)), sum(1 for x in (a, b) if x > c), sum([[a], [b]], []), sum([a, b], start=c)


@case
def bool_arith(a, b, c, s, t):
    return (a > b) + 1, int(a > b), [s, t][a > b], (a > b) * "x", -(a > b), (a > b) & (b > c), not (a > b), [a] * (a > b)


@case
def booleans_is(a, b, c, s, t):
    r = a > b
    return r is True, r is not True, (r is False), r == True, {True: "y", False: "n"}[r]


@case
def match_bool(a, b, c, s, t):
    match a > b:
        case True:
            return "yes"
        case False:
            return "no"
        case _:
            return "neither"


@case
def match_values(a, b, c, s, t):
    match [a, s]:
        case [0, _]:
            return "zero"
        case [int(), "a"]:
            return "int a"
        case [x, str(y)] if x > b:
            return y
        case _:
            return "other"


@case
def match_none(a, b, c, s, t):
    out = []
    for v in (a, None, s, (a, b), [a], {"k": a}, P(a, b)):
        match v:
            case None:
                out.append("none")
            case int(n):
                out.append(n)
            case str():
                out.append(v)
            case (x, y):
                out.append(x)
            case [z]:
                out.append([z])
            case {"k": w}:
                out.append(("k", w))
            case P(x=q):
                out.append(("P", q))
    return out


@case
def dict_ops(a, b, c, s, t):
    d = {a: 1}
    d[b] = 2
    d.setdefault(c, 3)
    e = dict(zip([a, b], [s, t]))
    f = {k: v for k, v in d.items() if v > 1}
    g = dict([(a, s)], z=t)
    return d, e, len(f), list(g.items()), d.get(c), d.pop(a, None), b in d, list(d), {**d, **e} == (d | e)


@case
def dict_views(a, b, c, s, t):
    d = {"x": a, "y": b}
    return (d.items() >= {"x": a}.items(), d.keys() & {"x", "z"}, "x" in d.keys(), a in d.values(), sorted(d.items(), key=lambda kv: kv[1]),
            max(d, key=d.get), max(d, key=lambda k: d[k]), list(reversed(d)), next(iter(d.values())), list(d.keys() - {"x"}))


@case
def default_dicts(a, b, c, s, t):
    d = defaultdict(list)
    for k, v in ((a, s), (b, t)):
        d[k].append(v)
    n = Counter([a, b, a])
    o = OrderedDict()
    o[a] = 1
    o.move_to_end(a)
    return dict(d), n[a], n[c], n.most_common(1)[0][1], list(o), sorted(Counter([s, t]).values())


@case
def counters(a, b, c, s, t):
    x, y = Counter([a, b]), Counter([b, a])
    x.update([c])
    return x == y, x - y == Counter([c]), sum(x.values()), (y + y)[a]


@case
def sets(a, b, c, s, t):
    x = {a, b}
    y = set([b, c])
    return len(x), len(x | y), len(x & y), len(x - y), x <= y, a in y, len(frozenset([s, t])), len({v for v in (a, b, c)}), x.isdisjoint(y), x == y


@case
def custom_hash(a, b, c, s, t):
    return len({P(a, 1), P(b, 1)}), P(a, 1) in [P(b, 1)], P(a, 1) in {P(b, 1): 1}, len(dict.fromkeys([P(a, s), P(b, t)]))


@case
def dataclass_eq(a, b, c, s, t):
    return D(a, b) == D(b, a), dataclasses.replace(D(a, b), x=c).x, E(a).y, dataclasses.astuple(D(a, b)), E(a) == E(b)


@case
def dataclass_hash(a, b, c, s, t):
    return len({D(a, 1), D(b, 1)}), D(a, 2) in {D(c, 2)}


@case
def named_tuples(a, b, c, s, t):
    n = N(a, b)
    x, y = n
    return n.x, n._replace(x=c).x, x == n[0], n == N(b, a), len({n, N(b, a)}), str(n), NT(a).y, n._asdict()


@case
def strings(a, b, c, s, t):
    return (s.upper(), s + t, s * 2, s[::-1], s[0:1], s.replace("a", "bb"), s.split("a"), s.strip(), t in s, s.startswith(("a", "b")),
            s.find(t), s.partition("a"), s.rsplit("a", 1), s.splitlines(), s.title(), s.ljust(3, "."), s.center(4), s.isdigit(), len(s), s < t)


@case
def string_words(a, b, c, s, t):
    return s.split(), " ".join((s + " " + t).split()), s.count("a"), s.translate({97: "z"}), s.translate(str.maketrans("a", "q")), s.casefold(), [ch for ch in s], list(enumerate(s))


@case
def string_formats(a, b, c, s, t):
    return f"{a}:{s!r}", "%s-%d" % (s, a), "{} {x}".format(a, x=s), "{0}{1}{0}".format(s, t), f"{a + b}", "{a}".format_map({"a": a})


@case
def string_compare(a, b, c, s, t):
    return s == t, min(s, t), sorted([s, t]), s in ("a", "b"), s in "ab", s.lower() == t.lower(), "".join(sorted(s)), max(s + "a"), set(s) == set(t), ord(s[0]) if s else 0


@case
def regexes(a, b, c, s, t):
    m = re.match(r"(?P<x>a+)|(?P<y>b)", s)
    return (bool(m), m.lastgroup if m else None, [x.group() for x in re.finditer(r"\w", s)], re.sub("a", "-", s), re.split("a", s),
            re.findall("[ab]", s + t), bool(re.search("b$", s)), re.compile("a", re.I).match(s) is None, bool(re.fullmatch("[ab]*", s)))


@case
def regex_functions(a, b, c, s, t):
    scan = re.compile(r"""(?P<word>[a-b]+)|(?P<other>.)""", re.VERBOSE | re.DOTALL)
    pos = 0
    out = []
    text = s + t
    while pos < len(text):
        m = scan.match(text, pos)
        out.append((m.lastgroup, m[0], m.end()))
        pos = m.end()
    return out, re.sub(r"(a)", lambda m: m.group(1).upper(), s), re.sub("(a)", r"<\1>", s), re.subn("a", "", s)


@case
def min_max(a, b, c, s, t):
    return min(a, b), max([a, b, c]), min([], default=a), max((a, "x"), (b, "y"), key=lambda p: p[0]), sorted([a, b], reverse=True), min(len(s), a), math.isclose(a, b)


@case
def sort_keys(a, b, c, s, t):
    l = [(a, "x"), (b, "y"), (c, "z")]
    l.sort(key=lambda p: (-p[0], p[1]))
    k = sorted([a, b], key=functools.cmp_to_key(lambda x, y: (x > y) - (x < y)))
    return l, k, sorted([(a, 1), (b, 0)]), list(reversed([a, b])), [x for _, x in sorted(zip([a, b], "xy"), key=lambda p: p[0])]


@case
def math_functions(a, b, c, s, t):
    return math.prod([a, 2]), math.fsum([a, b]), abs(a), divmod(a, 3), a // 2, a % 5, -a, a ** 2, round(a), math.floor(a), math.floor(a / 2), math.ceil(a / 2)


@case
def means(a, b, c, s, t):
    return statistics.mean([a, b]), statistics.fmean([a, b]), sum([a, b]) / len([a, b])


@case
def divisions(a, b, c, s, t):
    return (a + b) / 2, (a / 4) * 100.0, a / 2 == b / 2, float(a) > b, int(a / 2 * 2), (a / 2).is_integer()


@case
def generators(a, b, c, s, t):
    def g():
        yield a
        x = yield from h()
        yield x

    def h():
        yield b
        return c
    it = iter([a, b])
    return list(g()), next(it), next(it, None), next(it, "end"), [*g()], dict(enumerate(g())), any(x > 0 for x in g()), all(x > 0 for x in g())


@case
def unpacking(a, b, c, s, t):
    first, *rest = [a, b, c]
    (x, y), z = (a, b), c
    def f(*args, k=None, **kw):
        return args, k, kw
    return first, rest, x, y, z, f(*rest, k=s, **{"w": t}), [*rest, a], (*rest,), {**{"p": a}}


@case
def walrus(a, b, c, s, t):
    if (n := a + b) > c:
        return n
    return [m for x in (a, b) if (m := x * 2) > 0]


@case
def excepts(a, b, c, s, t):
    out = []
    try:
        if a > b:
            raise KeyError(a)
        raise ValueError(f"bad {s}")
    except KeyError as e:
        out.append(e.args[0])
    except (ValueError, TypeError) as e:
        out.append(str(e))
    else:
        out.append("no")
    finally:
        out.append("fin")
    with contextlib.suppress(IndexError):
        [s][5]
    try:
        {"x": 1}[s]
    except KeyError as e:
        out.append(e.args)
    try:
        int(s)
    except ValueError:
        out.append("not int")
    return out


@case
def context_managers(a, b, c, s, t):
    log = []

    @contextlib.contextmanager
    def cm(x):
        log.append(x)
        try:
            yield x
        finally:
            log.append("out")
    with cm(a) as v, contextlib.ExitStack() as st:
        st.callback(log.append, v)
    return log


@case
def queues(a, b, c, s, t):
    d = deque([a, b])
    d.append(c)
    d.appendleft(s)
    h = []
    heapq.heappush(h, (a, 1))
    heapq.heappush(h, (b, 2))
    l = [1, 5, 9]
    return d.popleft(), list(d), c in d, heapq.heappop(h), bisect.bisect(l, a), heapq.nlargest(1, [a, b]), heapq.nsmallest(1, [a, b], key=lambda x: -x)


@case
def copies(a, b, c, s, t):
    x = {"k": [a, (b, s)]}
    y = copy.deepcopy(x)
    z = copy.copy(x)
    y["k"].append(c)
    return x, y, z is x, z["k"] is x["k"], [a, b][:], list((a,)), [a].copy()


@case
def slices(a, b, c, s, t):
    l = [a, b, c]
    l[1:2] = [s, t]
    del l[0]
    return l, l[::-1], l[-1], l[:1], l.pop(), l.insert(0, a), l, [a] + l, l * 2, l == [a, s], (a, b) < (b, a)


@case
def partials(a, b, c, s, t):
    f = partial(lambda x, y: x - y, a)
    g = partial(str.replace, s, "a")
    return f(b), g("x"), list(map(partial(max, a), [b, c]))


@case
def cached(a, b, c, s, t):
    calls = []

    @lru_cache(maxsize=None)
    def f(x):
        calls.append(1)
        return x + 1

    @cache
    def g(x, y=0):
        calls.append(2)
        return x
    return f(a), f(b), g(s), g(s), len(calls)


@case
def cached_property(a, b, c, s, t):
    class K:
        @functools.cached_property
        def v(self):
            return a + 1

        @property
        def w(self):
            return b

        @staticmethod
        def st(x):
            return x

        @classmethod
        def cl(cls, x):
            return x
    k = K()
    return k.v, k.v, k.w, K.st(a), k.cl(c), getattr(k, "w"), hasattr(k, "zz")


@case
def comparisons(a, b, c, s, t):
    return a < b < c, a == b == c, a <= b != c, (a, s) == (b, t), [a] == [b], None in (a, b), a in range(0, 3), a not in (b, c), 0 < a <= 5


@case
def isinstances(a, b, c, s, t):
    return (isinstance(a, (int, str)), isinstance(s, str), type(a) is int, type(s) == str, isinstance(a > b, bool), type(a) in (int, float),
            isinstance({}, dict), isinstance(a, collections.abc.Hashable), callable(a), isinstance([], collections.abc.Sequence), type(s).__name__,
            isinstance(s, collections.abc.Iterable), isinstance(a, float), isinstance(s, (list, tuple)), a.__class__ is int)


@case
def string_truth(a, b, c, s, t):
    return bool(s), s or "none", not s, a or "zero", a and s, "yes" if s else "no", [x for x in (s, t, a) if x], s == "" or a == 0


@case
def numbers_text(a, b, c, s, t):
    return str(a), str(a) == str(b), int(str(a)), repr(s), str([a, s]), str((a,)), str({"k": a})


@case
def zips(a, b, c, s, t):
    return list(zip([a, b], s + "xy")), list(itertools.zip_longest([a], [b, c])), list(zip(*[(a, b), (b, c)])), dict(zip("xy", (a, b))), [x == y for x, y in zip([a, b], [b, c], strict=True)]


@case
def closures(a, b, c, s, t):
    n = 0

    def inc(x):
        nonlocal n
        n += x
        return n
    fs = [lambda y, x=x: x + y for x in (a, b)]
    return inc(a), inc(b), [f(c) for f in fs], (lambda *xs: sum(xs))(a, b), [[x, y] for x in (a, b) for y in (s,) if x > 0]


@case
def while_loops(a, b, c, s, t):
    i, out = 0, []
    text = s + t
    while True:
        if i >= len(text):
            break
        ch = text[i]
        i += 1
        if ch == "a":
            continue
        out.append(ch)
    else:
        out.append("never")
    for x in (a, b):
        if x > 0:
            break
    else:
        out.append("none positive")
    return out


@case
def chained_maps(a, b, c, s, t):
    m = collections.ChainMap({"x": a}, {"x": b, "y": c})
    return m["x"], m["y"], dict(m), m.new_child({"y": a})["y"]


@case
def type_dispatch(a, b, c, s, t):
    @functools.singledispatch
    def f(x):
        return "other"

    @f.register
    def _(x: int):
        return ("int", x)

    @f.register(str)
    def _(x):
        return ("str", x)

    @f.register(list)
    def _(x):
        return [f(y) for y in x]
    table = {int: "i", str: "s", list: "l"}
    return f(a), f(s), f([a, None]), table.get(type(a)), table[type(s)]


@case
def attributes(a, b, c, s, t):
    p = P(a, b)
    setattr(p, "z", s)
    return vars(p)["x"] == a, getattr(p, "q", c), p.__dict__["z"], [v for v in p.__dict__.values()], p.__class__.__name__, hasattr(p, "x")


def obligations(tier):
    out = []
    for f in T:
        def run(ctx, f=f):
            a, b, c = ctx.int("a"), ctx.int("b"), ctx.int("c")
            s, t = ctx.str("s", 2, "aB ", 0), ctx.str("t", 1, "ab", 0)
            r = f(a, b, c, s, t)
            ctx.observe("r", r)
            ctx.check(True, "ran")
        out.append(Ob(f.__name__, run, {}, [], "three integers, two texts"))
    return out
