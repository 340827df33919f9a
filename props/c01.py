"""C01 conjunctive queries return exactly the satisfying assignments"""
from props.common import *

X, Y, Z, W = Variable("X"), Variable("Y"), Variable("$2"), Variable("E1")

QUERIES = {
    "one": [("p", X, Y)],
    "one-repeated": [("p", X, X)],
    "one-const": [("p", 0, Y)],
    "ground": [("p", 0, 1)],
    "join": [("p", X, Y), ("q", Y, Z)],
    "join-const-str": [("p", X, "0"), ("q", X, Y)],
    "same-args": [("p", X, Y), ("q", X, Y)],
    "swap": [("p", X, Y), ("p", Y, X)],
    "cross": [("p", X, Y), ("q", Z, W)],
    "repeated-later": [("p", X, Y), ("q", Z, Z)],
    "chain": [("p", X, Y), ("q", Y, Z), ("p", Z, W)],
    "triangle": [("p", X, Y), ("q", Y, Z), ("p", Z, X)],
    "same-atom-twice": [("p", X, Y), ("p", X, Y)],
}


def conj(ctx, atoms, rows, bound, kinds):
    tables = {}
    for t in sorted(set(a[0] for a in atoms)):
        n = ctx.choice("n" + t, rows)
        tables[t] = [[mixed_value(ctx, f"{t}{r}{c}", kinds) if kinds else ctx.int(f"{t}{r}{c}") for c in range(2)]
                     for r in range(n)]
    binding = {}
    for name in bound:
        binding[name] = mixed_value(ctx, "bind" + name, kinds) if kinds else ctx.int("bind" + name)
    facts = Facts(tables)
    solver = Solver(Model([facts]))
    results = solver.solve(atoms, binding)
    ctx.observe("results", results)
    check_answers(ctx, results, reference_answers(ctx, tables, atoms, binding), "conjunction")
    if len(results) > 0:
        ctx.cover("some answer")
    else:
        ctx.cover("no answer")


def many(ctx, n):
    """no answer is lost when there are many, and long conjunctions are solved to the end"""
    k = ctx.int("k", n - 3, n + 1)
    place = ctx.choice("place", [0, n // 2, n])
    rows = [[i, i % 7] for i in range(n)]
    rows.insert(place, [k, 3])
    tables = {"p": rows, "q": [[i, i + 1] for i in range(40)]}
    solver = Solver(Model([Facts(tables)]))
    kind = ctx.choice("query", ["all", "some", "join", "one", "chain", "chain back"])
    if kind == "all":
        r = solver.solve([("p", X, Y)], {"Q": 1})
        ctx.check(ctx.same_set([[b["X"], b["Y"]] for b in r], rows), "all rows")
    elif kind == "some":
        r = solver.solve([("p", X, 3)], {})
        ctx.check(ctx.same_set([b["X"] for b in r], [a for a, b in rows if b == 3]), "all rows with a value")
    elif kind == "join":
        r = solver.solve([("p", X, Y), ("q", Y, Z)], {})
        ctx.check(ctx.same_set([[b["X"], b["Y"], b["$2"]] for b in r], [[a, b, b + 1] for a, b in rows]), "all combinations")
    elif kind == "one":
        r = solver.solve([("p", n - 1, Y), ("p", k, W)], {})
        want = [[(n - 1) % 7, b] for a, b in rows if a == k] + ([[3, b] for a, b in rows if a == k] if k == n - 1 else [])
        ctx.check(ctx.same_set([[b["Y"], b["E1"]] for b in r], want), "rows at the end")
    else:
        names = [Variable("V" + str(i)) for i in range(31)]
        atoms = [("q", names[i], names[i + 1]) for i in range(30)]
        start = ctx.int("start", 7, 12)
        if kind == "chain":
            r = solver.solve(atoms, {"V0": start})
        else:
            atoms.reverse()
            r = solver.solve(atoms, {"V30": start + 30})
        ctx.check((len(r) == 1) == (start <= 10), "a long conjunction")
        ctx.cover("found" if len(r) == 1 else "not found")
        if len(r) == 1:
            ctx.check(ctx.eq([r[0]["V" + str(i)] for i in range(31)], [start + i for i in range(31)]), "all variables are bound")


def obligations(tier):
    out = []
    deep = tier == "thorough"
    for name, atoms in QUERIES.items():
        n = len(atoms)
        rows = [0, 2] if n < 3 else [2]
        if deep:
            rows = [0, 1, 2, 3] if n < 2 else [0, 1, 2]
        out.append(Ob(f"ints {name}", conj, dict(atoms=atoms, rows=rows, bound=[], kinds=None),
                      covers=["some answer", "no answer"] if "str" not in name else ["no answer"], bounds=f"{rows} rows per relation, arbitrary integers"))
    for name in ["one", "one-repeated", "join", "swap", "cross"]:
        for bound in (["X"], ["Y"], ["X", "Y"], ["Q"]):
            out.append(Ob(f"bound {name} {bound}", conj, dict(atoms=QUERIES[name], rows=[2], bound=bound, kinds=None),
                          covers=["some answer"], bounds="2 rows per relation, arbitrary integers"))
    for name in ["one-repeated", "one-const", "ground"] + (["join", "same-args"] if deep else []):
        out.append(Ob(f"mixed {name}", conj, dict(atoms=QUERIES[name], rows=[2] if not deep or len(QUERIES[name]) == 1 else [1],
                                                  bound=[], kinds=["int", "'0'", "''"]),
                      bounds="2 rows, cells: any integer, '0', ''"))
    out.append(Ob("many", many, dict(n=300 if deep else 120), covers=["found", "not found"], bounds="120-300 rows of which one is arbitrary, conjunctions of 30 atoms"))
    return out
