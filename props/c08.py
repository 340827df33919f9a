"""C08 collecting predicates return exactly the distinct answers"""
from props.common import *

X, Y, Z, R = Variable("X"), Variable("Y"), Variable("Z"), Variable("R")
BODIES = {
    "p": [("p", X, Y)],
    "swap": [("p", Y, X)],
    "join": [("p", X, Y), ("q", Y, Z)],
    "const": [("p", X, 0)],
    "or": [("$disjunction", [[("q", Z, X)], [("p", X, Y)]])],
    "outer": [("p", X, Y), ("q", X, X)],
}
LISTS = [["X"], ["X", "Y"], ["Y", "X"], ["Z", "X"], ["X", "Nowhere"], ["Nowhere"], []]


def uniq(ctx, items):
    out = []
    for x in items:
        if not ctx.member(x, out):
            out.append(x)
    return out


def answers(ctx, tables, body, binding):
    if body == "or":
        for branch in ([("q", Z, X)], [("p", X, Y)]):
            got = uniq(ctx, [a for f, a in reference_answers(ctx, tables, branch, binding) if f])
            if len(got) > 0:
                return got
        return []
    return uniq(ctx, [a for f, a in reference_answers(ctx, tables, BODIES[body], binding) if f])


def collect(ctx, body, what, rows, bound, kinds):
    tables = {"p": [[mixed_value(ctx, f"p{r}{c}", kinds) for c in range(2)] for r in range(rows)],
              "q": [[mixed_value(ctx, f"q{c}", kinds) for c in range(2)]]}
    binding = {"Q": ctx.int("q")}
    if bound:
        binding[bound] = ctx.int("b")
    before = clone(binding)
    solver = Solver(Model([Facts(tables)]))
    want = []
    for a in answers(ctx, tables, body, binding):
        if isinstance(what, list):
            want.append([a[v] if v in a else None for v in what])
        elif what in a:
            want.append(a[what])
    want = uniq(ctx, want)
    r = solver.solve([("find_all", clone(what), clone(BODIES[body]), R)], binding)
    ctx.observe("all", r)
    ctx.check(len(r) == 1, "find_all succeeds once")
    ctx.check(ctx.eq(r[0]["R"], want), "every distinct value once, in order of first appearance")
    ctx.check(ctx.eq({k: v for k, v in r[0].items() if k != "R"}, before), "nothing else is bound")
    r1 = solver.solve([("find_one", clone(what), clone(BODIES[body]), R)], binding)
    ctx.observe("one", r1)
    if len(want) == 0:
        ctx.check(len(r1) == 0, "find_one fails when there is nothing")
        ctx.cover("none")
    else:
        w = dict(before)
        w["R"] = want[0]
        ctx.check(ctx.eq(r1, [w]), "find_one gives the first value")
        ctx.cover("some")
    ctx.check(ctx.eq(binding, before), "the binding passed in is unchanged")
    # under the bindings of an enclosing query
    if bound == "X":
        lead = solver.solve([("equals", X, binding["X"]), ("find_all", clone(what), clone(BODIES[body]), R)], {"Q": before["Q"]})
        ctx.check(ctx.eq(lead, r), "the bindings made earlier in the query count")


def collected_values(ctx):
    """falsy and look-alike values, and a later use of the collection"""
    vals = [mixed_value(ctx, f"v{i}", ["int", "''", "'0'"]) for i in range(3)]
    facts = Facts({"p": [[v, 1] for v in vals]})
    solver = Solver(Model([facts]))
    want = uniq(ctx, vals)
    ctx.check(ctx.eq(solver.solve([("find_all", "X", [("p", X, Y)], R)], {}), [{"R": want}]), "distinct values by value and type")
    ctx.check(ctx.eq(solver.solve([("find_one", "X", [("p", X, Y)], R)], {}), [{"R": want[0]}]), "the first value, falsy or not")
    ctx.check(ctx.eq(solver.solve([("find_all", "X", [("p", X, Y)], R), ("equals", R, Z)], {}), [{"R": want, "Z": want}]), "passed on")


def part(ctx, name):
    k = ctx.choice(name, ["int", "''", "str", "list", "atoms"])
    if k == "list":
        return []
    if k == "atoms":
        return [("q", ctx.int(name + "i"))]
    return mixed_value(ctx, name, [k])


def destructure(ctx, size, plen):
    """('destructure', [atom], pattern...)"""
    parts = ["pred"] + [part(ctx, f"a{i}") for i in range(size)]
    atom = tuple(parts)
    binding = {"Q": ctx.int("q")}
    stored = list(parts)
    if size > 0 and ctx.flag("bound in atom"):
        # a part of the atom is a bound variable
        binding["A"] = parts[1]
        atom = ("pred", Variable("A")) + tuple(parts[2:])
    pattern, want, ok = [], dict(binding), size == plen
    for i in range(plen + 1):
        kind = ctx.choice(f"pat{i}", ["var", "same", "other"]) if i > 0 else ctx.choice("pat", ["same", "var", "other"])
        if kind == "var":
            pattern.append(Variable(f"P{i}"))
            if i < len(stored):
                want[f"P{i}"] = stored[i]
        elif kind == "same" and i < len(stored):
            pattern.append(stored[i])
        else:
            c = "different" if i == 0 else mixed_value(ctx, f"c{i}", ["int"])
            pattern.append(c)
            if i < len(stored):
                ok = ok and ctx.all_([ctx.eq(c, stored[i])])
    via = ctx.flag("in variable")
    before = clone(binding)
    b = dict(binding)
    if via:
        b["Atom"] = [atom]
        want["Atom"] = [atom]
    r = Solver(Model([])).solve([tuple(["destructure", Variable("Atom") if via else [atom]] + pattern)], b)
    ctx.observe("r", r)
    if ok:
        ctx.check(ctx.eq(r, [want]), "each pattern variable gets the corresponding part")
        ctx.cover("match")
    else:
        for s in r:
            ctx.check(ctx.all_([s.get(f"P{i}") is None for i in range(plen + 1)]), "no part is bound when the shape or a constant differs")
            ctx.check(ctx.all_([ctx.eq(s[k], before[k]) for k in before]), "other variables are unchanged")
        ctx.cover("no match")


def many(ctx, n):
    """many answers are all collected"""
    k = ctx.int("k", -2, n + 1)
    rows = [[(i * 7) % n, i % 5] for i in range(n)]
    rows.insert(ctx.choice("place", [0, n // 2, n]), [k, 5])
    solver = Solver(Model([Facts({"p": rows})]))
    what = ctx.choice("what", ["X", ["X"], ["X", "Y"], "Y"])
    if what == "X":
        want = [a for a, b in rows]
    elif what == "Y":
        want = [b for a, b in rows]
    else:
        want = [row[:len(what)] for row in rows]
    r = solver.solve([("find_all", what, [("p", X, Y)], R)], {})
    ctx.check(ctx.eq([b["R"] for b in r], [uniq(ctx, want)]), "all values in order, each once")


def obligations(tier):
    deep = tier == "thorough"
    out = []
    for body in BODIES:
        for bound in (None, "X", "Y"):
            for what in (["X", "Nowhere"] + LISTS if deep else ["X", ["X", "Y"], ["Z", "X"]]):
                out.append(Ob(f"{body} {what} {bound}", collect,
                              dict(body=body, what=what, rows=3 if deep and body in ("p", "const") and not bound else 2, bound=bound, kinds=["int"]),
                              bounds="2 facts p, 1 fact q, arbitrary integers"))
    for what in ["Nowhere"] + LISTS:
        out.append(Ob(f"p {what}", collect, dict(body="p", what=what, rows=2, bound=None, kinds=["int"]), bounds="2 facts, arbitrary integers"))
    out.append(Ob("p three", collect, dict(body="p", what="X", rows=3, bound=None, kinds=["int"]), covers=["some"], bounds="3 facts, arbitrary integers"))
    out.append(Ob("p none", collect, dict(body="p", what="X", rows=0, bound=None, kinds=["int"]), covers=["none"], bounds="no facts"))
    out.append(Ob("mixed", collect, dict(body="p", what=["X", "Y"], rows=2, bound=None, kinds=["int", "''"]), bounds="2 facts, any integer or ''"))
    out.append(Ob("values", collected_values, bounds="3 facts, any integer, '' or '0'"))
    for size in (0, 1, 2):
        for plen in (0, 1, 2):
            if deep or size + plen < 4:
                out.append(Ob(f"destructure {size} {plen}", destructure, dict(size=size, plen=plen),
                              covers=["match", "no match"] if size == plen else ["no match"],
                              bounds="parts: integers, texts, lists and atoms"))
    out.append(Ob("destructure atom 2", destructure, dict(size=2, plen=1), covers=["no match"], bounds="parts: integers, texts, lists and atoms"))
    out.append(Ob("many", many, dict(n=101 if tier == "thorough" else 53), bounds="54-102 answers of which one is arbitrary"))
    return out
