"""C02 solving leaves query, binding and facts alone and can be repeated"""
from props.common import *

X, Y, Z = Variable("X"), Variable("Y"), Variable("Z")

QUERIES = {
    "fact": [("p", X, Y)],
    "join": [("p", X, Y), ("q", Y, Z)],
    "not": [("p", X, Y), ("not", [("q", X, Y)])],
    "all": [("all", X, [("p", X, Y)], [("q", X, Z)])],
    "find_all": [("find_all", "X", [("p", X, Y)], Z)],
    "find_list": [("find_all", ["X", "Y"], [("p", X, Y)], Z)],
    "count": [("count", Z, [("p", X, Y)])],
    "sum": [("sum", Z, X, [("p", X, Y)])],
    "or": [("$disjunction", [[("p", X, 1)], [("q", X, Y), ("p", Y, Z)]])],
    "scoped": [("p", X, Y), ("scoped", [("q", Y, Z)])],
    "equals": [("p", X, Y), ("equals", X, Y)],
    "rule": [("r", X, Y)],
    "rule-const": [("r", 1, Y), ("q", Y, Z)],
    "nothing": [],
}


def model(tables):
    from richard.module.InferenceModule import InferenceModule
    from richard.type.InferenceRule import InferenceRule
    rules = InferenceModule()
    rules.insert_rule(InferenceRule(("r", X, Y), [("p", X, Z), ("q", Z, Y)]))
    rules.insert_rule(InferenceRule(("r", X, X), [("p", X, 1)]))
    return Model([Facts(tables), rules])


def history(ctx, first, second, bound, add):
    tables = {t: int_table(ctx, t, 2 if t == "p" and not add else 1, 2) for t in "pq"}
    binding = {"Q": ctx.int("bq")}
    if bound:
        binding["X"] = ctx.int("bx")
    other = {"X": ctx.int("ox"), "Z": 7}
    solver = Solver(model(tables))
    atoms, atoms2 = clone(QUERIES[first]), clone(QUERIES[second])
    before = clone([atoms, atoms2, binding, other, tables])
    r1 = solver.solve(atoms, binding)
    first_answer = clone(r1)
    solver.solve(atoms2, other)
    solver.solve(atoms2)
    r2 = solver.solve(atoms, binding)
    ctx.observe("r", first_answer)
    ctx.check(ctx.eq(r1, first_answer), "earlier answers do not change")
    ctx.check(ctx.eq(r2, first_answer), "the same query gives the same answers")
    ctx.check(ctx.eq([atoms, atoms2, binding, other, tables], before), "query, binding and facts are unchanged")
    fresh = Solver(model(clone(tables))).solve(clone(QUERIES[first]), clone(binding))
    ctx.check(ctx.eq(fresh, first_answer), "earlier queries have no influence on the answers")
    ctx.check(ctx.eq(Solver(model(clone(tables)), log_stats=True).solve(clone(QUERIES[first]), clone(binding)), first_answer),
              "gathering statistics does not change the answers")
    if len(r1) > 0:
        ctx.cover("answers")
    if add:
        a, b = ctx.int("na"), ctx.int("nb")
        t = ctx.choice("table", ["p", "q"])
        if ctx.flag("with store"):
            solver.solve([("store", [(t, Variable("A"), b)])], {"A": a})
        else:
            solver.write_atom((t, a, b))
        ctx.check(ctx.eq(tables[t], before[4][t] + [[a, b]]), "the fact is added")
        r3 = solver.solve(atoms, binding)
        fresh = Solver(model(clone(tables))).solve(clone(QUERIES[first]), clone(binding))
        ctx.check(ctx.eq(r3, fresh), "after adding a fact the next query reflects it")
        ctx.check(ctx.eq(r1, first_answer), "earlier answers do not change (after adding)")


def long_history(ctx, n, rows):
    """many queries on one solver, over larger tables"""
    a = ctx.int("a")
    tables = {"p": [[i, (i * 7) % 5] for i in range(rows)] + [[a, 1]], "q": [[i % 5, i] for i in range(rows)]}
    solver = Solver(model(tables))
    before = clone(tables)
    which = ctx.choice("query", ["fact", "join", "not", "find_all", "count", "rule-const", "or"])
    binding = {"X": a, "W": 5} if which != "find_all" else {"W": 5}
    query = clone(QUERIES[which])
    first = clone(solver.solve(query, binding))
    names = [m for m in QUERIES if m not in ("all", "rule", "join", "find_list")]
    for i in range(n):
        solver.solve(clone(QUERIES[names[i % len(names)]]), {"X": i % 9})
    ctx.check(ctx.eq(solver.solve(query, binding), first), "the same query gives the same answers, after many others")
    ctx.check(ctx.eq(tables, before), "the facts are unchanged")
    ctx.check(ctx.eq(Solver(model(tables)).solve(query, binding), first), "earlier queries have no influence on the answers")
    solver.write_atom(("p", a, 2))
    ctx.check(ctx.eq(solver.solve(query, binding), Solver(model(clone(tables))).solve(query, binding)), "after adding a fact the next query reflects it")


def obligations(tier):
    out = []
    deep = tier == "thorough"
    names = list(QUERIES)
    for i, first in enumerate(names):
        seconds = names if deep else [first, names[(i + 3) % len(names)]]
        for second in seconds:
            out.append(Ob(f"{first} then {second}", history, dict(first=first, second=second, bound=False, add=False),
                          bounds="p: 2 rows, q: 1 row, arbitrary integers"))
        out.append(Ob(f"{first} bound", history, dict(first=first, second=names[(i + 5) % len(names)], bound=True, add=False),
                      bounds="p: 2 rows, q: 1 row, arbitrary integers, X bound"))
        out.append(Ob(f"{first} add", history, dict(first=first, second=names[(i + 1) % len(names)], bound=deep, add=True),
                      bounds="p: 1 row, q: 1 row, one fact added, arbitrary integers"))
    out.append(Ob("long history", long_history, dict(n=60, rows=25), bounds="60 queries over 25 rows, an arbitrary integer in one of them"))
    return out
