"""C06 aggregates equal the aggregate of the sub-query's answers"""
from props.common import *

X, Y, Z, V, R = Variable("X"), Variable("Y"), Variable("Z"), Variable("V"), Variable("R")
ASSUMPTIONS = ["decimal numbers are modelled as real numbers (no rounding)"]
BODIES = {
    "p": [("p", X, V)],
    "join": [("p", X, V), ("q", X, Y)],
    "filter": [("p", X, V), ("greater_than", V, 0)],
    "bound": [("p", Y, V), ("equals", X, Y)],
    "never": [("p", X, V), ("equals", 1, 2)],
    "or": [("$disjunction", [[("q", X, V)], [("p", X, V)]])],
    "outer": [("p", X, V), ("less_than", V, Z)],
}
AGGREGATES = ["count", "sum", "avg", "arg_min", "arg_max", "percentage"]


def tables_of(ctx, rows, kind):
    t = {"p": [[ctx.int(f"x{i}"), ctx.int(f"v{i}") if kind == "int" else ctx.real(f"v{i}")] for i in range(rows)],
         "q": [[ctx.int("qx"), ctx.int("qv") if kind == "int" else ctx.real("qv")]]}
    ctx.assume(ctx.distinct(t["p"]))
    return t


def reference(ctx, tables, body, binding):
    """the answers of the body (forks on their conditions): plain atoms and comparisons over distinct facts"""
    if body == BODIES["or"]:
        first = reference(ctx, tables, [("q", X, V)], binding)
        return first if len(first) > 0 else reference(ctx, tables, [("p", X, V)], binding)
    out = []
    plain = [a for a in body if a[0] in tables]
    for f, asg in reference_answers(ctx, tables, plain, binding):
        if not f:
            continue
        ok = True
        for a in body:
            if a[0] in tables:
                continue
            args = [asg[x.name] if is_var(x) and x.name in asg else x for x in a[1:]]
            if a[0] == "equals" and is_var(args[0]):
                asg = dict(asg)
                asg[args[0].name] = args[1]
            elif a[0] == "equals":
                ok = ok and args[0] == args[1]
            elif a[0] == "greater_than":
                ok = ok and args[0] > args[1]
            else:
                ok = ok and args[0] < args[1]
        if ok:
            out.append(asg)
    return out


def query(name, body, result=R):
    if name == "count":
        return ("count", result, body)
    if name in ("sum", "avg"):
        return (name, result, V, body)
    if name == "percentage":
        return ("percentage", result, body, BODIES["p"])
    return (name, X, V, body)


def total(answers):
    s = 0
    for a in answers:
        s = s + a["V"]
    return s


def aggregate(ctx, name, body, rows, kind, bound):
    tables = tables_of(ctx, rows, kind)
    binding = {"Q": ctx.int("q")}
    if bound == "X":
        binding["X"] = ctx.int("bx")
    if body == "outer":
        binding["Z"] = ctx.int("bz")
    answers = reference(ctx, tables, BODIES[body], binding)
    before = clone(binding)
    r = Solver(Model([Facts(tables)])).solve([query(name, clone(BODIES[body]))], binding)
    ctx.observe("r", r)
    ctx.cover("empty" if len(answers) == 0 else "some")
    ctx.check(ctx.eq(binding, before), "the binding is unchanged")
    if name in ("count", "sum") or (name == "percentage" and len(reference(ctx, tables, BODIES["p"], binding)) > 0):
        ctx.check(len(r) == 1, "exactly one answer")
    elif len(answers) == 0:
        ctx.check(len(r) == 0, "no answer for an empty sub-query")
        return
    ctx.check(len(r) == 1, "exactly one answer")
    want = dict(before)
    if name == "count":
        want["R"] = len(answers)
    elif name == "sum":
        want["R"] = total(answers)
    elif name == "avg":
        ctx.check(ctx.close(r[0]["R"] * len(answers), total(answers)), "average times number is the sum")
        want["R"] = r[0]["R"]
    elif name == "percentage":
        n = len(reference(ctx, tables, BODIES["p"], binding))
        ctx.check(ctx.close(r[0]["R"] * n, 100 * len(answers)), "percentage of the denominator's answers")
        want["R"] = r[0]["R"]
    else:
        low = r[0]["V"]
        ctx.check(ctx.all_([(low <= a["V"]) if name == "arg_min" else (low >= a["V"]) for a in answers]), "the extreme")
        ctx.check(ctx.any_([ctx.all_([ctx.eq(low, a["V"]), ctx.eq(r[0]["X"], a["X"])]) for a in answers]), "an answer that attains it")
        want["V"] = low
        if "X" not in want:
            want["X"] = r[0]["X"]
    ctx.check(ctx.eq(visible(r[0]), want), "the result is bound and nothing else")


def empty_percentage(ctx):
    t = {"p": [], "q": [[ctx.int("a"), ctx.int("b")]]}
    r = Solver(Model([Facts(t)])).solve([("percentage", R, [("q", X, V)], [("p", X, V)])], {})
    ctx.check(len(r) == 0, "percentage of nothing has no answer")
    t = {"p": [[ctx.int("c"), ctx.int("d")]], "q": []}
    r = Solver(Model([Facts(t)])).solve([("percentage", R, [("q", X, V)], [("p", X, V)])], {})
    ctx.check(ctx.eq(r, [{"R": 0}]), "nothing of something is 0")
    for a in ("count", "sum"):
        r = Solver(Model([Facts(t)])).solve([query(a, [("q", X, V)])], {})
        ctx.check(ctx.eq([visible(s) for s in r], [{"R": 0}]), a + " of nothing is 0")


def more_than_all(ctx, swap):
    """the first of a percentage may have more answers than the second"""
    n, m = (1, 3) if not swap else (3, 2)
    t = {"p": [[ctx.int(f"x{i}"), ctx.int(f"v{i}")] for i in range(m)], "q": [[ctx.int(f"y{i}"), ctx.int(f"w{i}")] for i in range(n)]}
    ctx.assume(ctx.distinct(t["p"]))
    ctx.assume(ctx.distinct(t["q"]))
    first, second = [("p", X, V), ("less_than", V, ctx.int("limit"))], [("q", X, Y)]
    limit = first[1][2]
    k = ctx.count([row[1] < limit for row in t["p"]])
    r = Solver(Model([Facts(t)])).solve([("percentage", R, second, first) if swap else ("percentage", R, first, second)], {})
    if swap and k == 0:
        ctx.check(len(r) == 0, "percentage of nothing has no answer")
        return
    ctx.check(len(r) == 1, "exactly one answer")
    ctx.check(ctx.close(r[0]["R"] * k, 100 * n) if swap else ctx.close(r[0]["R"] * n, 100 * k), "a percentage can be anything")
    ctx.cover("more than all" if r[0]["R"] > 100 else "not more")


def confirm(ctx, name, rows, const):
    """a result that has a value is confirmed"""
    tables = tables_of(ctx, rows, "int")
    c = ctx.int("c")
    binding = {} if const else {"R": c}
    answers = tables["p"]
    r = Solver(Model([Facts(tables)])).solve([query(name, BODIES["p"], c if const else R)], binding)
    if name == "count":
        right = ctx.eq(c, len(answers))
    elif name == "percentage":
        right = ctx.eq(c, 100)
    else:
        s = 0
        for a in answers:
            s = s + a[1]
        right = ctx.eq(c, s) if name == "sum" else ctx.eq(c * len(answers), s)
    ctx.check(ctx.iff(len(r) == 1, right), "confirmed exactly when right")
    for s in r:
        ctx.check(ctx.eq(visible(s), {} if const else {"R": c}), "the binding is unchanged")
    ctx.cover("confirmed" if len(r) > 0 else "denied")


def compared(ctx, name):
    """the result can be used by the next atom"""
    tables = tables_of(ctx, 2, "int")
    c = ctx.int("c")
    solver = Solver(Model([Facts(tables)]))
    q = query(name, BODIES["p"])
    res = V if name in ("arg_min", "arg_max") else R
    value = solver.solve([q], {})[0][res.name]
    ctx.check(ctx.iff(len(solver.solve([q, ("greater_than", res, c)], {})) == 1, value > c), "greater_than of the result")
    ctx.check(ctx.iff(len(solver.solve([q, ("equals", res, c)], {})) == 1, value == c), "equals of the result")
    r = solver.solve([("q", X, Y), ("count", R, [("p", X, V)])], {})
    n = ctx.count([ctx.eq(row[0], tables["q"][0][0]) for row in tables["p"]])
    ctx.check(ctx.eq(r, [{"X": tables["q"][0][0], "Y": tables["q"][0][1], "R": n}]), "under the current binding")


def many(ctx, n):
    """aggregates of many answers"""
    a, b = ctx.int("a"), ctx.int("b")
    first = ctx.flag("first")
    rows = [[i, (i * 37) % 101 - 30] for i in range(n)]
    rows = [[-1, a]] + rows + [[-2, b]] if first else rows + [[-1, a], [-2, b]]
    solver = Solver(Model([Facts({"p": rows, "q": [[i] for i in range(n // 2)]})]))
    values = [v for x, v in rows]
    total_of = 0
    for v in values:
        total_of = total_of + v
    kind = ctx.choice("aggregate", AGGREGATES)
    if kind == "count":
        ctx.check(ctx.eq(solver.solve([("count", R, [("p", X, V)])], {}), [{"R": n + 2}]), "count")
    elif kind == "sum":
        ctx.check(ctx.eq([visible(x) for x in solver.solve([("sum", R, V, [("p", X, V)])], {})], [{"R": total_of}]), "sum")
    elif kind == "avg":
        r = solver.solve([("avg", R, V, [("p", X, V)])], {})
        ctx.check(ctx.eq(r[0]["R"] * (n + 2), total_of), "average")
    elif kind == "percentage":
        r = solver.solve([("percentage", R, [("p", X, V), ("q", X)], [("p", X, V)])], {})
        ctx.check(len(r) == 1 and ctx.close(r[0]["R"], 100.0 * (n // 2) / (n + 2)), "percentage")
    else:
        r = solver.solve([(kind, X, V, [("p", X, V)])], {})
        best = values[0]
        for v in values:
            if (v < best if kind == "arg_min" else v > best):
                best = v
        ctx.check(ctx.eq(r[0]["V"], best), "the best value")
        ctx.check(ctx.any_([ctx.all_([ctx.eq(r[0]["X"], x), ctx.eq(v, best)]) for x, v in rows]), "of one that has it")


def obligations(tier):
    deep = tier == "thorough"
    out = []
    for name in AGGREGATES:
        for body in BODIES:
            rows = 2
            if deep:
                rows = 3
            covers = ["some"] if body == "or" else ["empty"] if body == "never" else ["some"] if body in ("p", "bound") else ["some", "empty"]
            out.append(Ob(f"{name} {body}", aggregate, dict(name=name, body=body, rows=rows, kind="int", bound=None),
                          covers=covers, bounds=f"{rows} distinct facts p, 1 fact q, arbitrary integers"))
        for rows in (1, 3):
            out.append(Ob(f"{name} {rows} rows", aggregate, dict(name=name, body="p", rows=rows, kind="int", bound=None),
                          covers=["some"], bounds=f"{rows} distinct facts, arbitrary integers"))
        out.append(Ob(f"{name} real", aggregate, dict(name=name, body="p", rows=3 if deep else 2, kind="real", bound=None),
                      covers=["some"], bounds="distinct facts, arbitrary decimal numbers"))
        out.append(Ob(f"{name} X bound", aggregate, dict(name=name, body="p", rows=2, kind="int", bound="X"),
                      covers=["some", "empty"], bounds="2 distinct facts, arbitrary integers"))
        out.append(Ob(f"{name} compared", compared, dict(name=name), bounds="2 distinct facts, arbitrary integers"))
        if name not in ("arg_min", "arg_max"):
            for const in (False, True):
                out.append(Ob(f"{name} confirm {const}", confirm, dict(name=name, rows=2, const=const), covers=["confirmed", "denied"],
                              bounds="2 distinct facts, arbitrary integers"))
    for swap in (False, True):
        out.append(Ob(f"more than all {swap}", more_than_all, dict(swap=swap), covers=["more than all"] + ([] if swap else ["not more"]), bounds="up to 3 facts of each relation, arbitrary integers"))
    out.append(Ob("nothing", empty_percentage, bounds="one fact"))
    out.append(Ob("many", many, dict(n=200 if tier == "thorough" else 60), bounds="60-200 answers of which two are arbitrary"))
    return out
