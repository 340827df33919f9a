"""C03 a disjunction yields the answers of its first succeeding branch only"""
from props.common import *

X, Y, Z = Variable("X"), Variable("Y"), Variable("Z")
BRANCH = {
    "p": [("p", X, Y)],
    "q": [("q", X, Y)],
    "p-const": [("p", X, 0)],
    "q-join": [("q", X, Z), ("p", Z, Y)],
    "not": [("not", [("p", X, Y)]), ("q", Y, Y)],
    "empty": [],
}


def answers(ctx, tables, atoms, binding):
    """answers of plain atoms and 'not' of plain atoms, with their conditions"""
    plain = [a for a in atoms if a[0] != "not"]
    out = []
    for f, asg in reference_answers(ctx, tables, plain, binding):
        conds = [f]
        for a in atoms:
            if a[0] == "not":
                conds.append(ctx.not_(ctx.any_([g for g, _ in reference_answers(ctx, tables, a[1], binding)])))
        out.append((ctx.all_(conds), asg))
    return out


def disjunction(ctx, names, bound, nested=False, lead=False, mixed=False):
    tables = {t: ([[mixed_value(ctx, f"{t}{r}{c}", ["int", "''", "'0'"]) for c in range(2)] for r in range(1)] if mixed
                  else int_table(ctx, t, ctx.choice("n" + t, [0, 2]) if t == "p" else 1, 2)) for t in "pq"}
    binding = {}
    if bound:
        binding["X"] = mixed_value(ctx, "x", ["int", "''"]) if mixed else ctx.int("x")
    if bound == "XY":
        binding["Y"] = ctx.int("y")
    trace = Trace()
    branches = [[("mark", i)] + list(BRANCH[n]) + [("mark", 10 + i)] for i, n in enumerate(names)]
    disj = ("$disjunction", branches)
    if nested:
        disj = ("$disjunction", [[("$disjunction", branches[:-1])], branches[-1]])
    atoms = ([("q", X, X)] if lead else []) + [disj]
    solver = Solver(Model([Facts(tables), trace]))
    results = solver.solve(atoms, binding)
    ctx.observe("results", results)
    ctx.observe("marks", trace.marks)
    if lead:
        binding = dict(binding)
        row = tables["q"][0]
        if not ctx.all_([ctx.eq(row[0], row[1])] + ([ctx.eq(binding["X"], row[0])] if "X" in binding else [])):
            ctx.check(len(results) == 0 and len(trace.marks) == 0, "without answers before it, nothing is executed")
            return
        binding["X"] = row[0]
    # the first branch with an answer (decided by the path: the results depend on it)
    done = False
    marks = []
    for i, n in enumerate(names):
        exp = answers(ctx, tables, BRANCH[n], binding)
        marks.append(i)
        found = 0
        for f, a in exp:
            if f:
                found += 1
        if found > 0:
            ctx.cover(f"branch {i}")
            check_answers(ctx, results, exp, f"branch {i}", distinct=False)
            done = True
            break
    if not done:
        ctx.cover("none")
        ctx.check(len(results) == 0, "no branch succeeds: no answer")
    ctx.check(ctx.eq([m for m in trace.marks if m < 10], marks), "only the branches up to the first success are executed, once each")
    for b in trace.bindings:
        for k, v in binding.items():
            ctx.check(ctx.eq(b[k], v), "every branch sees the variables bound before")


def literal(ctx):
    """branches that always or never succeed; an empty disjunction fails"""
    trace = Trace()
    n = ctx.choice("n", [0, 1, 2, 3])
    kinds = [ctx.choice(f"k{i}", ["yes", "no", "empty"]) for i in range(n)]
    v = ctx.int("v")
    branches = []
    for i, k in enumerate(kinds):
        if k == "yes":
            branches.append([("mark", i), ("let", X, v)])
        elif k == "no":
            branches.append([("mark", i), ("equals", 1, 2), ("mark", 10 + i)])
        else:
            branches.append([])
    b = {"Q": v}
    results = Solver(Model([trace])).solve([("$disjunction", branches)], b)
    ctx.observe("results", results)
    want, marks = [], []
    for i, k in enumerate(kinds):
        if k != "empty":
            marks.append(i)
        if k == "yes":
            want = [{"Q": v, "X": v}]
            break
        if k == "empty":
            want = [{"Q": v}]
            break
    ctx.check(ctx.eq(results, want), "the first succeeding branch gives the answers")
    ctx.check(ctx.eq(trace.marks, marks), "branches after it are not executed")


def leaf(ctx, name, tables, binding):
    """an atom, and its answers to a binding"""
    kind = ctx.choice(name, ["let", "p", "p0", "less"])
    v = ctx.int(name + ".v") if kind in ("let", "less") else 0
    atom = {"let": ("let", Variable("Y" + name), v), "p": ("p", X), "p0": ("p", 0), "less": ("less_than", X, v)}[kind]
    return atom


def expected(ctx, tables, atoms, binding, marks):
    """what a sequence of atoms answers; evaluated in order, depth first"""
    if len(atoms) == 0:
        return [binding]
    atom = atoms[0]
    out = []
    if atom[0] == "mark":
        marks.append(atom[1])
        out = [binding]
    elif atom[0] == "let":
        out = [{**binding, atom[1].name: atom[2]}]
    elif atom[0] == "less_than":
        out = [binding] if binding["X"] < atom[2] else []
    elif atom[0] == "p":
        for (v,) in tables["p"]:
            if isinstance(atom[1], Variable):
                if "X" not in binding:
                    out.append({**binding, "X": v})
                elif binding["X"] == v:
                    out.append(binding)
            elif atom[1] == v:
                out.append(binding)
    else:
        for branch in atom[1]:
            out = expected(ctx, tables, branch, binding, marks)
            if len(out) > 0:
                break
    results = []
    for b in out:
        for r in expected(ctx, tables, atoms[1:], b, marks):
            if r not in results:
                results.append(r)
    return results


def tree(ctx, outer, inner):
    """disjunctions within disjunctions, before and after other atoms"""
    tables = {"p": int_table(ctx, "p", ctx.choice("rows", [1, 0]), 1)}
    binding = {"X": ctx.int("x")}
    trace = Trace()

    def branch(i, name):
        if i in inner:
            parts = [("$disjunction", [[("mark", i * 10 + j), leaf(ctx, f"{name}.{j}", tables, binding)] for j in range(2)])]
            where = inner[i]
            if where == "first":
                parts.append(leaf(ctx, name + ".then", tables, binding))
            elif where == "last":
                parts.insert(0, leaf(ctx, name + ".if", tables, binding))
            return parts + [("mark", i)]
        return [("mark", i), leaf(ctx, name, tables, binding)]

    atoms = [("$disjunction", [branch(i, f"b{i}") for i in range(1, outer + 1)])]
    query = clone(atoms)
    marks = []
    want = expected(ctx, tables, atoms, binding, marks)
    results = Solver(Model([Facts(tables), trace])).solve(query, dict(binding))
    ctx.cover("answers" if len(want) > 0 else "none")
    ctx.check(ctx.eq(results, want), "the answers of the first succeeding branches")
    ctx.check(ctx.eq(trace.marks, marks), "only these branches are executed")


def many(ctx, n):
    """any of many branches can be the first that succeeds"""
    k = ctx.int("k", -1, n)
    rows = ctx.choice("rows", [1, 3, 120])
    trace = Trace()
    solver = Solver(Model([Facts({"p": [[k, j] for j in range(rows)]}), trace]))
    r = solver.solve([("$disjunction", [[("mark", i), ("p", i, Y)] for i in range(n)])], {"Q": 1})
    if k >= 0 and k < n:
        ctx.cover("found")
        ctx.check(ctx.eq(trace.marks, list(range(k + 1))), "the branches up to the first that succeeds")
        ctx.check(ctx.eq([b["Y"] for b in r], list(range(rows))), "all of its answers")
    else:
        ctx.check(len(r) == 0 and ctx.eq(trace.marks, list(range(n))), "all branches are tried")


def obligations(tier):
    deep = tier == "thorough"
    out = [Ob("literal", literal, bounds="up to 3 branches")]
    pairs = [("p", "q"), ("p-const", "p"), ("q-join", "p"), ("not", "q"), ("p", "empty"), ("q", "p", "empty"), ("p-const", "q", "p")]
    for names in pairs:
        for bound in (False, "X"):
            out.append(Ob(f"{'|'.join(names)} {bound}", disjunction, dict(names=names, bound=bound), covers=["branch 0"] + ([] if names[0] == "q" and not bound else ["branch 1"]),
                          bounds="p: 0 or 2 rows, q: 1 row, arbitrary integers"))
    out.append(Ob("nested", disjunction, dict(names=("p-const", "q", "p"), bound="X", nested=True), bounds="p: 0 or 2 rows, q: 1 row"))
    out.append(Ob("after an atom", disjunction, dict(names=("p-const", "q", "p"), bound=False, lead=True), bounds="p: 0 or 2 rows, q: 1 row"))
    out.append(Ob("mixed", disjunction, dict(names=("p", "q"), bound="X", mixed=True), bounds="1 row each, cells any integer, '' or '0'"))
    for outer, inner in [(1, {1: "first"}), (2, {1: "only"}), (2, {1: "first"}), (2, {1: "last"}), (2, {2: "first"})] + ([(2, {1: "first", 2: "last"}), (3, {1: "last", 2: "first"})] if deep else []):
        out.append(Ob(f"tree {outer} {inner}", tree, dict(outer=outer, inner=inner), covers=["answers", "none"], bounds="one disjunction in another, p: 0 or 1 row, arbitrary integers"))
    if deep:
        for a in BRANCH:
            for b in BRANCH:
                for c in BRANCH:
                    out.append(Ob(f"{a}|{b}|{c} XY", disjunction, dict(names=(a, b, c), bound="XY"), bounds="p: 0 or 2 rows, q: 1 row"))
    out.append(Ob("many", many, dict(n=60 if deep else 30), covers=["found"], bounds="30-60 branches, each may be the first, with at most 120 answers"))
    return out
