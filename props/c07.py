"""C07 quantifiers and negation have their logical meaning"""
from props.common import *

X, Y, Z, E = Variable("X"), Variable("Y"), Variable("Z"), Variable("E")
BODIES = {
    "q": [("q", X, Y)],
    "q-const": [("q", X, 0)],
    "join": [("q", X, Y), ("p", Y, Z)],
    "ground": [("p", 0, 1)],
    "same": [("q", Y, Y)],
    "empty": [],
    "outer": [("q", X, E)],
}


def setup(ctx, prows=2, qrows=2):
    return {"p": int_table(ctx, "p", prows, 2), "q": int_table(ctx, "q", qrows, 2)}


def holding(ctx, tables, body, binding):
    """distinct answers of the body (forks on their conditions)"""
    out = []
    for f, a in reference_answers(ctx, tables, body, binding):
        if f:
            if not ctx.member(a, out):
                out.append(a)
    return out


def bindings_before(ctx, tables, outer):
    """the enclosing query's answers"""
    base = {"Q": ctx.int("q"), "E": ctx.int("e")}
    if outer == "none":
        return [], base, [base]
    if outer == "bound":
        base["X"] = ctx.int("x")
        return [], base, [base]
    return [("p", X, Variable("W"))], base, holding(ctx, tables, [("p", X, Variable("W"))], base)


def simple(ctx, form, body, outer):
    """not, none, scoped and the numeric determiners"""
    tables = setup(ctx, 2 if outer == "query" else 1)
    lead, base, outers = bindings_before(ctx, tables, outer)
    n = None
    inner = clone(BODIES[body])
    if form in ("not", "none", "scoped"):
        atom = (form, inner)
    else:
        n = ctx.int("n")
        number = n
        if ctx.flag("number in variable"):
            base["N"] = n
            for o in outers:
                o["N"] = n
            number = Variable("N")
        atom = (form, inner, number)
    before = clone(base)
    r = Solver(Model([Facts(tables)])).solve(lead + [atom], base)
    ctx.observe("r", r)
    want = []
    for o in outers:
        k = len(holding(ctx, tables, BODIES[body], o))
        if form in ("not", "none"):
            ok = k == 0
        elif form == "scoped":
            ok = k > 0
        elif form == "det_equals":
            ok = n == k
        elif form == "det_greater_than":
            ok = n < k
        else:
            ok = n > k
        if ok:
            want.append(o)
    ctx.check(ctx.eq(r, want), f"{form}: exactly the bindings for which it holds, each once, unchanged")
    ctx.check(ctx.eq(base, before), "the binding passed in is unchanged")
    ctx.cover("holds" if len(want) > 0 else "fails")


RANGES = {"p": [("p", X, Y)], "p1": [("p", X, 1)], "join": [("p", X, Y), ("q", Y, Z)], "outer": [("p", X, E)]}


def every(ctx, rng, body, outer, prows, qrows):
    tables = setup(ctx, prows, qrows)
    base = {"Q": ctx.int("q"), "E": ctx.int("e")}
    if outer == "X":
        base["X"] = ctx.int("x")
    if outer == "Y":
        base["Y"] = ctx.int("y")
    before = clone(base)
    r = Solver(Model([Facts(tables)])).solve([("all", X, clone(RANGES[rng]), clone(BODIES[body]))], base)
    ctx.observe("r", r)
    entities = []
    for a in holding(ctx, tables, RANGES[rng], base):
        if not ctx.member(a["X"], entities):
            entities.append(a["X"])
    ok = True
    for e in entities:
        b = dict(base)
        b["X"] = e
        if len(holding(ctx, tables, BODIES[body], b)) == 0:
            ok = False
    want = []
    if ok:
        for e in entities:
            b = dict(before)
            b["X"] = e
            want.append(b)
    ctx.check(ctx.eq(r, want), "all: every distinct entity, when all satisfy the body, otherwise none")
    ctx.check(ctx.eq(base, before), "the binding passed in is unchanged")
    ctx.cover("holds" if len(want) > 0 else "fails")


def nested(ctx, form):
    """quantifiers inside quantifiers"""
    tables = setup(ctx, 2, 2)
    b = {"Q": ctx.int("q")}
    solver = Solver(Model([Facts(tables)]))
    ps, qs = tables["p"], tables["q"]
    if form == "not not":
        r = solver.solve([("not", [("not", [("p", X, Y)])])], dict(b, X=1))
        want = ctx.any_([ctx.eq(row[0], 1) for row in ps])
    elif form == "not join":
        r = solver.solve([("p", X, Y), ("not", [("q", X, Z), ("not", [("q", Z, Y)])])], b)
        for row in ps:
            ok = not ctx.any_([ctx.all_([ctx.eq(q[0], row[0]), ctx.not_(ctx.any_([ctx.all_([ctx.eq(s[0], q[1]), ctx.eq(s[1], row[1])])
                                                                                  for s in qs]))]) for q in qs])
            ctx.check(ctx.iff(ctx.member(dict(b, X=row[0], Y=row[1]), r), ok), "not ... not")
        ctx.check(len(r) <= len(ps), "no more answers than bindings")
        return
    elif form == "all none":
        r = solver.solve([("all", X, [("p", X, Y)], [("none", [("q", X, Z)])])], b)
        ok = ctx.not_(ctx.any_([ctx.eq(p[0], q[0]) for p in ps for q in qs]))
        for p in ps:
            ctx.check(ctx.iff(ctx.member(dict(b, X=p[0]), r), ok), "all ... none")
        ctx.check(ctx.iff(len(r) > 0, ok), "all ... none")
        return
    elif form == "det all":
        # at least two p for which every q with that subject has object 1
        n = ctx.int("n")
        r = solver.solve([("det_greater_than", [("p", X, 1)], n)], b)
        k = ctx.count([ctx.all_([ctx.eq(p[1], 1), ctx.not_(ctx.any_([ctx.eq(p, x) for x in ps[:i]]))]) for i, p in enumerate(ps)])
        want = k > n
    else:
        r = solver.solve([("scoped", [("p", X, Y), ("scoped", [("q", Y, Z)])]), ("p", X, Y)], b)
        ok = ctx.any_([ctx.eq(p[1], q[0]) for p in ps for q in qs])
        for p in ps:
            ctx.check(ctx.iff(ctx.member(dict(b, X=p[0], Y=p[1]), r), ok), "scoped variables stay inside")
        return
    ctx.check(ctx.iff(ctx.eq(r, [dict(b, X=1) if form == "not not" else b]), want), form + " holds when it should")
    ctx.check(ctx.iff(len(r) == 0, ctx.not_(want)), form + " fails when it should")


def large(ctx):
    """relations that announce a number of results (ResultIterator)"""
    from richard.entity.ResultIterator import ResultIterator
    k = ctx.choice("k", [0, 1, 5])
    n = ctx.int("n")

    class Many(SomeModule):
        def __init__(self):
            super().__init__()
            self.add_relation(Relation("many", query_function=lambda values, context: ResultIterator([None], k)))
    solver = Solver(Model([Many()]))
    for form, ok in (("det_equals", n == k), ("det_greater_than", n < k), ("det_less_than", n > k)):
        r = solver.solve([(form, [("many", X)], n)], {})
        ctx.check(ctx.iff(ctx.eq(r, [{}]), ok), form + " of an announced number")
    ctx.check((len(solver.solve([("not", [("many", X)])], {})) == 1) == (k == 0), "not")
    ctx.check(ctx.eq(solver.solve([("count", Y, [("many", X)])], {}), [{"Y": k}]), "count")
    seen = []
    for r in solver.solve([("many", X)], {}):
        seen.append(r)
        if len(seen) > k:
            break
    ctx.check(len(seen) == k, "it delivers the announced number of results")


def many(ctx, n):
    """quantifiers over many entities, of which one is arbitrary"""
    k = ctx.int("k", -2, n + 1)
    tables = {"p": [[i, 0] for i in range(n)] + [[k, 0]], "q": [[i, j] for i in range(n) for j in range(2)]}
    solver = Solver(Model([Facts(tables)]))
    inside = k >= 0 and k < n
    form = ctx.choice("form", ["all", "none", "not", "det_equals", "det_greater_than", "det_less_than", "scoped"])
    if form == "all":
        r = solver.solve([("all", X, [("p", X, Y)], [("q", X, Z)])], {"Q": 1})
        ctx.check((len(r) > 0) == inside, "all of them")
        if inside:
            ctx.check(ctx.same_set([b["X"] for b in r], list(range(n))), "each of them")
    elif form in ("none", "not"):
        r = solver.solve([(form, [("q", k, Z), ("p", k, Y)])], {"Q": 1})
        ctx.check(ctx.eq(r, [] if inside else [{"Q": 1}]), "none of them")
    elif form == "scoped":
        r = solver.solve([("scoped", [("p", X, Y), ("q", k, Y)])], {"Q": 1})
        ctx.check(ctx.eq(r, [{"Q": 1}] if inside else []), "once")
    else:
        m = ctx.choice("number", [n - 1, n, n + 1])
        size = n if inside else n + 1
        ok = m == size if form == "det_equals" else size > m if form == "det_greater_than" else size < m
        body = [("p", X, Y), ("equals", Y, 0)]
        r = solver.solve([(form, body, m)], {"Q": 1})
        ctx.check(ctx.eq(r, [{"Q": 1}] if ok else []), "the number of answers")
    ctx.cover("inside" if inside else "outside")


def obligations(tier):
    deep = tier == "thorough"
    out = []
    for form in ("not", "none", "scoped", "det_equals", "det_greater_than", "det_less_than"):
        for body in BODIES:
            for outer in (["none", "bound", "query"] if deep or body in ("q", "outer") else ["bound"] if body != "same" else ["none"]):
                covers = ["holds", "fails"]
                if body == "empty":
                    covers = [] if form in ("not", "none", "scoped") else covers
                elif body in ("q", "join") and outer == "none" and form in ("not", "none", "scoped"):
                    covers = []
                out.append(Ob(f"{form} {body} {outer}", simple, dict(form=form, body=body, outer=outer), covers=covers,
                              bounds="1 or 2 facts p, 2 facts q, arbitrary integers"))
    for rng in RANGES:
        for body in (BODIES if deep else ["q", "outer", "q-const"]):
            for outer in ("", "X", "Y"):
                out.append(Ob(f"all {rng} {body} {outer}", every, dict(rng=rng, body=body, outer=outer, prows=2, qrows=2 if deep or rng == "p" else 1),
                              covers=["holds"] if rng == "p" and body in ("q", "q-const", "outer") and outer == "" else [],
                              bounds="2 facts p, 1 or 2 facts q, arbitrary integers"))
    out.append(Ob("all three", every, dict(rng="p", body="q", outer="", prows=3, qrows=2), covers=["holds", "fails"],
                  bounds="3 facts p, 2 facts q, arbitrary integers"))
    for form in ("not not", "not join", "all none", "det all", "scoped scoped"):
        out.append(Ob(form, nested, dict(form=form), bounds="2 facts p, 2 facts q, arbitrary integers"))
    out.append(Ob("announced", large, bounds="0, 1 or 5 results, any number"))
    out.append(Ob("many", many, dict(n=150 if tier == "thorough" else 50), covers=["inside", "outside"], bounds="50-150 entities of which one is arbitrary"))
    return out
