"""C20 query optimisation preserves the answers and every atom"""
from props.common import *
from richard.core.atoms import get_atom_variables
from richard.core.constants import DISJUNCTION, IGNORED
from richard.processor.semantic_composer.optimizer.BasicQueryOptimizer import BasicQueryOptimizer
from richard.processor.semantic_composer.optimizer.FrontResolveName import FrontResolveName
from richard.processor.semantic_composer.optimizer.IsolateIndependentParts import IsolateIndependentParts
from richard.processor.semantic_composer.optimizer.SortByCost import SortByCost

ASSUMPTIONS = ["the answers are compared for conjunctions of plain facts (and scopes of these); other predicates may depend on the order of atoms",
               "a relation with a size has a size for each of its arguments"]

A, B, C, D = [Variable(n) for n in "ABCD"]


def variables(x):
    if isinstance(x, Variable):
        return [x.name]
    if isinstance(x, (tuple, list)):
        out = []
        for e in x:
            for v in variables(e):
                if not v in out:
                    out.append(v)
        return out
    return []


def atoms_of(x, keep_scoped=True):
    """all atoms at any depth, with holes for the lists in their arguments"""
    out = []
    for a in x:
        if isinstance(a, list):
            out.extend(atoms_of(a, keep_scoped))
        elif isinstance(a, tuple):
            lists = [e for e in a if isinstance(e, list)]
            if keep_scoped or not (a[0] == "scoped"):
                out.append(tuple(["<list>" if isinstance(e, list) else e for e in a]))
            for e in lists:
                out.extend(atoms_of(e, keep_scoped))
    return out


def same_count(ctx, xs, ys):
    """the same elements, each exactly as often"""
    if len(xs) != len(ys):
        return False
    return ctx.all_([ctx.eq(ctx.count([ctx.eq(x, z) for z in xs]), ctx.count([ctx.eq(x, z) for z in ys])) for x in xs])


def sized(facts, sizes):
    for name, (size, arguments) in sizes.items():
        facts.get_relations()[name].relation_size = size
        facts.get_relations()[name].argument_sizes = arguments
    return facts


def model_sizes(model, names):
    return [[r.relation_size, list(r.argument_sizes)] for n in names for r in model.find_relations(n)]


def cost(atom, bound, sizes):
    if not atom[0] in sizes:
        return 0
    size, arguments = sizes[atom[0]]
    if size == IGNORED:
        return 10 ** 15
    product = 1
    for a, s in zip(atom[1:], arguments):
        if isinstance(s, str) and s == IGNORED:
            continue
        if isinstance(a, (list, tuple)):
            continue
        if isinstance(a, Variable) and not a.name in bound:
            continue
        product = product * s
    return size / product


def optimized(ctx, model, query, roots):
    before = clone(query)
    kept = list(roots)
    names = ["p", "q", "r", "resolve_name"]
    sizes = clone(model_sizes(model, names))
    iterations = BasicQueryOptimizer(model).optimize(query, roots)
    ctx.check(ctx.eq(query, before) and ctx.eq(roots, kept), "the query is left alone")
    ctx.check(ctx.eq(model_sizes(model, names), sizes), "the model is left alone")
    again = BasicQueryOptimizer(model).optimize(query, roots)
    ctx.check(ctx.eq(list(iterations.values()), list(again.values())), "the same every time")
    ctx.check(ctx.eq(list(iterations.values())[0], before), "the first step is the query")
    return iterations


def last(iterations):
    return list(iterations.values())[-1]


# queries of plain facts; roots are chosen
QUERIES = {
    "chain": [("p", A, B), ("q", B, C), ("r", C)],
    "star": [("r", A), ("p", A, B), ("q", A, C)],
    "star2": [("p", A, B), ("q", C, A), ("r", B), ("r", C)],
    "parts": [("p", A, B), ("q", C, D)],
    "cycle": [("p", A, B), ("q", B, A), ("p", B, C)],
    "same": [("p", A, B), ("p", A, B), ("r", B), ("r", B)],
    "constants": [("p", "k1", A), ("q", A, "k2"), ("r", "k1")],
    "names": [("p", A, B), ("resolve_name", "k1", B), ("q", B, C)],
    "names2": [("resolve_name", "k1", A), ("resolve_name", "k2", B), ("p", A, C), ("q", C, B)],
    "repeat": [("p", A, A), ("q", A, B), ("p", B, B)],
    "bridge": [("r", A), ("p", B, C), ("q", A, B), ("q", C, D)],
    "scope": [("p", A, B), ("scoped", [("q", B, C), ("r", C)])],
}


def answers(ctx, name, roots, bound, symbolic_sizes):
    """the optimized query has the same answers for the root variables"""
    k1, k2 = ctx.int("k1"), ctx.int("k2")
    query = replace(QUERIES[name], {"k1": k1, "k2": k2})
    used = set([a[0] for a in atoms_of(query)])
    rows = {"p": 2, "q": 2, "r": 1, "resolve_name": 1}
    tables = {n: int_table(ctx, n[0], rows[n] if n in used else 0, 1 if n == "r" else 2) for n in rows}
    if symbolic_sizes:
        sizes = {n: (ctx.choice("size " + n, [1, 5, 50]), [ctx.choice("arg " + n, [1, 7])] * (1 if n == "r" else 2)) for n in sorted(used) if n in rows}
    else:
        sizes = {n: (10, [10] * (1 if n == "r" else 2)) for n in used if n in rows}
    model = Model([sized(Facts(tables), sizes)])
    result = last(optimized(ctx, model, query, list(roots)))
    ctx.observe("query", repr(shape(result)))
    binding = {v: ctx.int("b" + v) for v in bound}
    solver = Solver(model)
    got = solver.solve(result, dict(binding))
    flat = [a for a in query if a[0] != "scoped"]
    for a in query:
        if a[0] == "scoped":
            flat = flat + a[1]
    want = reference_answers(ctx, tables, flat, binding)
    got = [{v: g[v] for v in roots if v in g} for g in got]
    want = [(f, {v: w[v] for v in roots if v in w}) for f, w in want]
    check_answers(ctx, got, want, "optimized", distinct=False)
    if len(got) > 0:
        ctx.cover("answers")


def replace(x, values):
    if isinstance(x, (list, tuple)):
        out = [replace(e, values) for e in x]
        return out if isinstance(x, list) else tuple(out)
    if isinstance(x, str) and x in values:
        return values[x]
    return x


def shape(x):
    if isinstance(x, list):
        return [shape(e) for e in x]
    if isinstance(x, tuple):
        return tuple([shape(e) if not isinstance(e, int) else 0 for e in x])
    return x


def var(ctx, label, letters):
    return Variable(ctx.str(label, 1, letters, 1))


def structure(ctx, n, letters):
    """isolation: any conjunction of n atoms with any variables"""
    query = []
    for i in range(n):
        kind = ctx.choice(f"kind{i}", ["one", "two", "nested", "disjunction"] if i < 2 else ["two"])
        if kind == "one":
            query.append(("r", var(ctx, f"v{i}", letters)))
        elif kind == "two":
            query.append(("p", var(ctx, f"v{i}", letters), var(ctx, f"w{i}", letters)))
        elif kind == "nested":
            query.append(("not", [("q", var(ctx, f"v{i}", letters), i)]))
        else:
            query.append((DISJUNCTION, [[("q", i, i)], [("r", i), ("q", i, var(ctx, f"v{i}", letters))]]))
    roots = [ctx.str("root", 1, letters + "X", 1)]
    before = clone(query)
    got = IsolateIndependentParts().isolate(query, roots)
    ctx.check(ctx.eq(query, before), "the query is left alone")
    ctx.check(same_count(ctx, atoms_of(query, False), atoms_of(got, False)), "every atom exactly as often")
    isolated(ctx, got, roots, [])
    separated(ctx, got, roots)
    if any([a[0] == "scoped" for a in got]):
        ctx.cover("isolated")


def separated(ctx, atoms, roots):
    """after the first atom, what is not connected to a root variable is isolated"""
    if len(atoms) == 0:
        return
    head = variables(atoms[0])
    linked = [v for v in roots if not v in head]
    more = True
    while more:
        more = False
        for atom in atoms[1:]:
            own = [v for v in variables(atom) if not v in head]
            if any([v in linked for v in own]):
                for v in own:
                    if not v in linked:
                        linked.append(v)
                        more = True
    for atom in atoms[1:]:
        if atom[0] == "scoped":
            separated(ctx, atom[1], [])
        else:
            ctx.check(any([v in linked for v in variables(atom) if not v in head]), "what is not connected to a root variable is isolated")


def isolated(ctx, atoms, roots, bound):
    """an isolated part shares nothing with the rest but what is bound, and has no root variable"""
    for i, atom in enumerate(atoms):
        if atom[0] == "scoped":
            earlier = list(bound)
            for a in atoms[:i]:
                if a[0] != "scoped":
                    earlier.extend(variables(a))
            own = [v for v in variables(atom) if not v in earlier]
            for v in own:
                ctx.check(not v in roots, "no root variable in an isolated part")
                ctx.check(not v in variables(atoms[:i] + atoms[i + 1:]), "an isolated part shares no variable with the rest that is not bound")
            isolated(ctx, atom[1], [], earlier)
            ctx.check(len(atom[1]) > 0, "not empty")


def relation_sizes(ctx, label, names):
    sizes = {}
    for n, count in names:
        kind = ctx.choice(label + n, ["any", "ignored", "argument ignored"])
        if kind == "ignored":
            sizes[n] = (IGNORED, [])
        else:
            arguments = [ctx.int(f"{label}{n}{i}", 1, 100) for i in range(count)]
            if kind == "argument ignored":
                arguments[0] = IGNORED
            sizes[n] = (ctx.int(f"{label}{n}", 0, 10 ** 9), arguments)
    return sizes


COSTS = {
    "variables": ([("p", A, B), ("q", B, C), ("r", C)], [("p", 2), ("q", 2), ("r", 1)]),
    "constants": ([("p", A, 1), ("q", "x", 2), ("r", A)], [("p", 2), ("q", 2), ("r", 1)]),
    "equal": ([("p", A, B), ("p", B, A), ("q", A, C), ("q", 0, A)], [("p", 2), ("q", 2)]),
    "unknown": ([("p", A, B), ("no_such", A), ("q", C, B)], [("p", 2), ("q", 2)]),
    "nested": ([("p", A, B), ("not", [("q", B, C), ("r", B)])], [("p", 2), ("q", 2), ("r", 1)]),
    "argument": ([("p", [("q", A, B), ("r", B)], A), ("r", A)], [("p", 2), ("q", 2), ("r", 1)]),
}


def costs(ctx, name):
    """the cheapest atom first, given what is bound by the atoms before it"""
    query, names = COSTS[name]
    sizes = relation_sizes(ctx, "s", names)
    tables = {n: [] for n, c in names}
    model = Model([sized(Facts(tables), sizes)])
    before = clone(query)
    got = SortByCost().sort(query, model)
    ctx.check(ctx.eq(query, before), "the query is left alone")
    ctx.observe("order", repr(got))
    full = dict(sizes)
    full["not"] = (IGNORED, [])
    in_order(ctx, got, query, [], full)


def in_order(ctx, got, query, bound, sizes):
    ctx.check(len(got) == len(query), "every atom once")
    todo = list(query)
    bound = list(bound)
    for atom in got:
        matching = [a for a in todo if alike(a, atom)]
        ctx.check(len(matching) > 0, "the atoms of the query")
        best = matching[0]
        for a in todo:
            ctx.check(cost(best, bound, sizes) <= cost(a, bound, sizes), "the cheapest atom first")
        todo.remove(best)
        for x, y in zip(atom, best):
            if isinstance(y, list):
                ctx.cover("nested")
                in_order(ctx, x, y, bound, sizes)
        bound = bound + variables(atom)


def alike(a, b):
    return len(a) == len(b) and all([(isinstance(x, list) and isinstance(y, list)) or x == y for x, y in zip(a, b)])


def highest(ctx):
    """a relation offered by several modules costs the most of these"""
    s1, s2, t = ctx.int("s1", 0, 1000), ctx.int("s2", 0, 1000), ctx.int("t", 0, 1000)
    model = Model([sized(Facts({"p": [], "q": []}), {"p": (s1, [1]), "q": (t, [1])}), sized(Facts({"p": []}), {"p": (s2, [1])})])
    query = [("p", A), ("q", A)]
    got = SortByCost().sort(query, model)
    first = s1 if s1 > s2 else s2
    ctx.check(first == t or ctx.eq(got, query if first < t else [query[1], query[0]]), "the highest cost counts")


NAMES = {
    "front": [("resolve_name", "x", A), ("p", A, B)],
    "back": [("p", A, B), ("q", A, 1), ("resolve_name", "x", B)],
    "deep": [("intent", [("p", A, [("resolve_name", "x", A), ("q", A, 0)]), ("resolve_name", "y", B)]), ("resolve_name", "z", C)],
    "lists": [("or", [[("resolve_name", "x", A), ("p", A, 1)], [("resolve_name", "x", A)], []]), ("r", A, "", None, [])],
    "twice": [("resolve_name", "x", A), ("p", A, B), ("resolve_name", "x", A), ("p", A, B), ("intent", [("resolve_name", "x", A), ("resolve_name", "y", A)])],
    "only": [("not", [("resolve_name", "x", A)])],
    "none": [("p", A, ("f", 1)), ("q", ["a", "b"], A)],
    "empty": [],
}


def fronted(x):
    """(name resolution atoms, the rest)"""
    names, rest = [], []
    for e in x:
        if isinstance(e, tuple) and e[0] == "resolve_name" and isinstance(x, list):
            names.append(e)
        elif isinstance(e, list) or (isinstance(e, tuple) and isinstance(x, list)):
            n, r = fronted(e)
            names.extend(n)
            rest.append(r)
        else:
            rest.append(e)
    return names, rest if isinstance(x, list) else tuple(rest)


def names_first(ctx):
    query = NAMES[ctx.choice("query", sorted(NAMES))]
    t = ctx.str("t", 2, "xyz'", 0)
    query = replace(query, {"x": t, "y": ctx.int("y")})
    before = clone(query)
    got = FrontResolveName().sort(query)
    names, rest = fronted(before)
    ctx.check(ctx.eq(query, before), "the query is left alone")
    ctx.check(ctx.eq(got[len(names):], rest), "the rest is left as it is")
    ctx.check(same_count(ctx, got[:len(names)], names), "all name resolution is in front")


DEEP = {
    "find": [("intent_list", "$1", [("resolve_name", "x", B), ("p", A, B), ("q", A, C)])],
    "quantified": [("all", A, [("r", A), ("p", A, B)], [("q", B, C), ("r", C)]), ("p", C, D)],
    "count": [("count", D, [("p", A, B), ("q", B, C), ("resolve_name", "x", C)]), ("r", D)],
    "or": [("or", [[("p", A, B), ("r", A)], [("q", A, B)]]), ("r", B)],
    "disjunction": [("p", A, B), (DISJUNCTION, [[("q", B, C), ("r", C)], [("resolve_name", "x", C)]]), ("q", C, D), (DISJUNCTION, [[("r", D)], []])],
    "not": [("p", A, B), ("not", [("q", B, C), ("not", [("r", C), ("p", C, B)])]), ("p", A, B)],
    "twice": [("resolve_name", "x", A), ("p", A, B), ("resolve_name", "x", A), ("intent", [("resolve_name", "x", A), ("r", B), ("r", B)])],
    "empty": [],
    "one": [("r", A)],
    "lists": [("table", ["$1", "$2"], ["", "km"], [("p", A, B)]), ("p", (A, 0), None)],
}


def whole(ctx, name, roots, deep):
    """all steps together: every atom at any depth, as often as before; name resolution before the other atoms of the same list"""
    query = replace(DEEP[name], {"x": ctx.str("t", 1, "x'", 0)})
    used = [a[0] for a in atoms_of(query)]
    sizes = {n: (ctx.choice("size " + n, [0, 7, 50, IGNORED] if deep else [0, 30, IGNORED]), [ctx.choice("arg " + n, [0, 9] if deep or n == "q" else [9])] * (1 if n == "r" else 2)) for n in ("p", "q", "r") if n in used}
    if "resolve_name" in used and ctx.flag("names sized"):
        sizes["resolve_name"] = (1000, [1000, 1000])
    model = Model([sized(Facts({"p": [], "q": [], "r": [], "resolve_name": []}), sizes)])
    iterations = optimized(ctx, model, query, roots)
    steps = list(iterations.values())
    for step in steps:
        ctx.check(same_count(ctx, atoms_of(query, False), atoms_of(step, False)), "every atom exactly as often")
    isolated(ctx, steps[-1], roots, [])
    separated(ctx, steps[-1], roots)
    n = len([a for a in atoms_of(query) if a[0] == "resolve_name"])
    ctx.check(any([len(step) >= n and all([a[0] == "resolve_name" for a in step[:n]]) for step in steps]), "name resolution is moved to the front")


def long_query(ctx, n):
    """a query of many atoms: connected, in separate parts, with names, with the same atom many times"""
    vs = [Variable(f"V{i}") for i in range(n + 1)]
    kind = ctx.choice("query", ["chain", "parts", "same", "star", "nested"])
    k = ctx.int("k")
    if kind == "chain":
        query = [(("p", "q")[i % 2], vs[i], vs[i + 1]) for i in range(n)] + [("resolve_name", k, vs[n])]
    elif kind == "parts":
        query = [("p", vs[i], vs[i + 1]) for i in range(0, n, 2)]
    elif kind == "same":
        query = [("p", vs[0], vs[1]), ("q", vs[1], k)] * (n // 2)
    elif kind == "star":
        query = [("p", vs[0], vs[i]) for i in range(1, n)] + [("q", vs[1], k)]
    else:
        query = [("not", [("q", vs[i], k), ("r", vs[i + 1])]) for i in range(n - 1)] + [("p", vs[0], vs[n - 1])]
    p, q, r, a = ctx.choice("sizes", [(1, 1, 1, 1), (40, 1, 0, 1), (40, 300, 40, 9), (0, 40, 1, 9)])
    sizes = {m: (size, [a] * (1 if m == "r" else 2)) for m, size in (("p", p), ("q", q), ("r", r))}
    facts = Facts({"p": [[0, 1]], "q": [[1, 0]], "r": [[0]], "resolve_name": [[5, 0]]})
    model = Model([sized(facts, sizes)])
    roots = ctx.choice("roots", [["V0"], [f"V{n - 1}"], []])
    steps = list(optimized(ctx, model, query, roots).values())
    for step in steps:
        ctx.check(same_count(ctx, atoms_of(query, False), atoms_of(step, False)), "every atom exactly as often")
    isolated(ctx, steps[-1], roots, [])
    separated(ctx, steps[-1], roots)
    if kind == "chain":
        got = Solver(model).solve(steps[-1], {})
        ctx.check(ctx.iff(len(got) > 0, ctx.all_([k == 5, n % 2 == 0])), "the same answers")
        if len(got) > 0:
            ctx.cover("answers")


def obligations(tier):
    deep = tier == "thorough"
    out = []
    for name, query in QUERIES.items():
        vs = variables([a for a in query if a[0] != "scoped"])
        sets = [[], [vs[0]], [vs[-1]], vs] + ([vs[:2]] if len(vs) > 2 else [])
        done = []
        for roots in sets:
            if roots in done:
                continue
            done.append(roots)
            for bound in ([], [vs[0]]):
                if bound and (not deep and roots != [vs[-1]]):
                    continue
                out.append(Ob(f"answers {name} {''.join(roots)} {''.join(bound)}", answers, dict(name=name, roots=roots, bound=bound, symbolic_sizes=False), covers=["answers"],
                              bounds="p, q: 2 rows, r, names: 1 row of arbitrary integers"))
        if deep or name in ("chain", "names2"):
            out.append(Ob(f"answers {name} sizes", answers, dict(name=name, roots=[vs[-1]], bound=[], symbolic_sizes=True), covers=["answers"], bounds="as above, 3 relation sizes, 2 argument sizes"))
    for n in (1, 2, 3) + ((4,) if deep else ()):
        out.append(Ob(f"structure {n}", structure, dict(n=n, letters="ABCD" if n < 4 else "ABC"), covers=["isolated"] if n > 1 else [], bounds=f"all conjunctions of {n} atoms with variables out of ABCD, any root variable"))
    for name in COSTS:
        out.append(Ob(f"costs {name}", costs, dict(name=name), covers=["nested"] if name in ("nested", "argument") else [], bounds="relation sizes 0-1000000000, argument sizes 1-100, or ignored"))
    out.append(Ob("highest", highest, bounds="sizes 0-1000"))
    out.append(Ob("names first", names_first, bounds="7 queries, texts of at most 2 characters"))
    for name in DEEP:
        out.append(Ob(f"whole {name}", whole, dict(name=name, roots=["A"], deep=deep), bounds="3-4 relation sizes and 1-2 argument sizes for each of 3 relations"))
    out.append(Ob("whole no roots", whole, dict(name="quantified", roots=[], deep=deep), bounds="as above"))
    out.append(Ob("long query", long_query, dict(n=16), covers=["answers"], bounds="16 atoms of 5 shapes, 3 relation sizes, 2 argument sizes, 3 root sets"))
    return out
