"""C04 a relation offered by several modules is the union of all of them"""
from props.common import *
from richard.entity.ResultIterator import ResultIterator

X, Y = Variable("X"), Variable("Y")


class Mod(SomeModule):
    """offers the relations of its tables; they can be read-only or write-only"""

    def __init__(self, tables, read=True, write=True):
        super().__init__()
        self.tables = tables
        self.writes = []
        self.reads = 0
        for name in tables:
            self.add_relation(Relation(name, arguments=["a", "b"], query_function=self.query if read else None,
                                       write_function=self.write if write else None))

    def query(self, values, context):
        self.reads += 1
        return [list(r) for r in self.tables[context.relation.predicate]
                if not [1 for a, b in zip(r, values) if b is not None and not a == b]]

    def write(self, values, context):
        self.writes.append((context.relation.predicate, list(values)))


ARGS = {"XY": ("p", X, Y), "XX": ("p", X, X), "0Y": ("p", 0, Y), "X''": ("p", X, "")}


def union(ctx, sizes, atom, kinds, others):
    mods = []
    rows = []
    for m, n in enumerate(sizes):
        t = [[mixed_value(ctx, f"m{m}r{r}c{c}", kinds) for c in range(2)] for r in range(n)]
        rows.extend(t)
        mods.append(Mod({"p": t, "other" + str(m): [[1, 2]]}))
    if others:
        mods.insert(1, Mod({"q": [[5, 5]]}))
    results = Solver(Model(mods)).solve([atom], {})
    ctx.observe("results", results)
    check_answers(ctx, results, reference_answers(ctx, {"p": rows}, [atom], {}), "union")
    if len(results) > 1:
        ctx.cover("several answers")


def order(ctx):
    """answers follow the order of the modules"""
    v = [ctx.int(f"v{i}") for i in range(4)]
    ctx.assume(ctx.distinct(v))
    mods = [Mod({"p": [[v[0], 1], [v[1], 1]]}), Mod({"p": [[v[2], 1]]}), Mod({"p": [[v[3], 1], [v[0], 1]]})]
    r = Solver(Model(mods)).solve([("p", X, Y)], {})
    ctx.check(ctx.eq([b["X"] for b in r], v), "answers in the order of modules and rows")


def store(ctx):
    """a stored fact reaches every module that can store it and no other"""
    n = ctx.choice("modules", [1, 2, 3])
    preds = [ctx.choice(f"offers{i}", [["p"], ["q"], ["p", "q"]]) for i in range(n)]
    writable = [ctx.flag(f"writable{i}") for i in range(n)]
    mods = [Mod({x: [] for x in preds[i]}, read=ctx.flag(f"readable{i}"), write=writable[i]) for i in range(n)]
    a = mixed_value(ctx, "a", ["int", "''", "str"])
    solver = Solver(Model(mods))
    offered = any("p" in x for x in preds)
    if ctx.flag("write_atom"):
        _, exc = ctx.raises(lambda: solver.write_atom(("p", a, 1)))
    else:
        _, exc = ctx.raises(lambda: solver.solve([("store", [("p", Variable("A"), 1)])], {"A": a}))
    ctx.check((exc is None) == offered, "an error exactly when no module offers the predicate")
    for i in range(n):
        want = [("p", [a, 1])] if "p" in preds[i] and writable[i] else []
        ctx.check(ctx.eq(mods[i].writes, want), "stored once in every module that can store it, and nowhere else")
    ctx.cover("stored" if exc is None else "error")


def missing(ctx):
    """a predicate that no module offers"""
    solver = Solver(Model([Mod({"p": [[ctx.int("v"), 1]]})]))
    name = ctx.choice("name", ["pp", "P", "p_", "q", "isa"])
    where = ctx.choice("where", ["single", "after", "not", "or", "find_all", "store", "write"])
    atom = (name, X, Y)
    b = {"X": 1, "Y": 2}
    if where == "single":
        _, exc = ctx.raises(lambda: solver.solve([atom], b))
    elif where == "after":
        _, exc = ctx.raises(lambda: solver.solve([("p", Variable("A"), Variable("B")), atom], b))
    elif where == "not":
        _, exc = ctx.raises(lambda: solver.solve([("not", [atom])], b))
    elif where == "or":
        _, exc = ctx.raises(lambda: solver.solve([("$disjunction", [[("equals", 1, 2)], [atom]])], b))
    elif where == "find_all":
        _, exc = ctx.raises(lambda: solver.solve([("find_all", "X", [atom], Variable("R"))], b))
    elif where == "store":
        _, exc = ctx.raises(lambda: solver.solve([("store", [atom])], b))
    else:
        _, exc = ctx.raises(lambda: solver.write_atom((name, 1, 2)))
    ctx.check(exc is not None, "an unknown predicate is an error")
    ctx.check(exc is None or name in str(exc), "the error names the predicate")


class Raw(SomeModule):
    def __init__(self, rows):
        super().__init__()
        self.rows = rows
        self.add_relation(Relation("p", query_function=lambda values, context: self.rows))


def malformed(ctx):
    good = [ctx.int("a"), ctx.int("b")]
    bad = ctx.choice("bad", [(1, 2), [1], [1, 2, 3], [], "ab", None, 5, {"a": 1}])
    where = ctx.choice("where", ["only", "first", "second", "other module"])
    mods = [Raw([bad]) if where in ("only", "other module") else Raw([bad, good]) if where == "first" else Raw([good, bad])]
    if where == "other module":
        mods.insert(0, Raw([good]))
    args = [X, Y] if ctx.flag("variables") else [X, good[1]]
    _, exc = ctx.raises(lambda: Solver(Model(mods)).solve([tuple(["p"] + args)], {}))
    ctx.check(exc is not None, "a malformed row is an error")


def not_a_list(ctx):
    bad = ctx.choice("bad", [None, "", "ab", (), 0, {}, ([1, 2],), True])
    first = ctx.flag("good module first")
    mods = ([Raw([[ctx.int("a"), 2]])] if first else []) + [Raw(bad)]
    _, exc = ctx.raises(lambda: Solver(Model(mods)).solve([("p", X, Y)], {}))
    ctx.check(exc is not None, "answers that are not a list are an error")
    atoms = ctx.choice("atoms", [("p", 1), ("p", 1, 2)])
    _, exc = ctx.raises(lambda: Solver(Model(mods)).solve(atoms, {}))
    ctx.check(exc is not None, "a query must be a list of atoms")


def announced(ctx):
    """a relation that only announces a number of answers can't be merged with another"""
    many = Raw(ResultIterator([None], ctx.choice("number", [0, 1, 3])))
    mods = [many] + [Raw([[ctx.int("a"), 2]]) for _ in range(ctx.choice("others", [0, 1, 2]))]
    if ctx.flag("last"):
        mods.reverse()
    result, exc = ctx.raises(lambda: Solver(Model(mods)).solve([("p", X, Y)], {}))
    ctx.check((exc is not None) == (len(mods) > 1), "an error, rather than a part of the answers")
    if exc is None:
        ctx.check(len(result) == many.rows.number, "on its own it is fine")


def many(ctx, n, rows):
    """many modules with many rows"""
    k = ctx.int("k", -2, n * rows + 1)
    where = ctx.choice("module", [0, n // 2, n - 1])
    tables = [[[m * rows + i, 0] for i in range(rows)] for m in range(n)]
    tables[where].append([k, 0])
    mods = [Mod({"p": t}) for t in tables]
    solver = Solver(Model(mods))
    want = list(range(n * rows))
    if ctx.flag("store"):
        solver.solve([("store", [("p", k, 1)])], {})
        ctx.check(ctx.all_([ctx.eq(m.writes, [("p", [k, 1])]) for m in mods]), "every module gets it")
    ctx.check(ctx.same_set([b["X"] for b in solver.solve([("p", X, Y)], {})], want + [k]), "the union of all")
    ctx.check(len(solver.solve([("p", X, Y)], {})) == len(want) + (0 if k >= 0 and k < len(want) else 1), "each row once")


def obligations(tier):
    deep = tier == "thorough"
    out = []
    for name, atom in ARGS.items():
        out.append(Ob(f"union {name}", union, dict(sizes=[1, 2], atom=atom, kinds=["int", "''"], others=True),
                      bounds="modules with 1 and 2 rows; cells any integer or ''"))
    out.append(Ob("union three", union, dict(sizes=[1, 1, 1], atom=ARGS["XY"], kinds=["int", "'0'"], others=False), covers=["several answers"],
                  bounds="three modules with 1 row; cells any integer or '0'"))
    out.append(Ob("union strings", union, dict(sizes=[1, 1], atom=ARGS["XY"], kinds=["str", "0"], others=False), covers=["several answers"],
                  bounds="two modules with 1 row; cells 0 or a string of one character of 01a and quotes"))
    if deep:
        for name, atom in ARGS.items():
            out.append(Ob(f"union 2 2 {name}", union, dict(sizes=[2, 2], atom=atom, kinds=["int"], others=True), bounds="modules with 2 and 2 rows of integers"))
            out.append(Ob(f"union 1 1 mixed {name}", union, dict(sizes=[1, 1], atom=atom, kinds=["int", "str", "''", "'0'"], others=True), bounds="modules with 1 row"))
    out.append(Ob("order", order, bounds="three modules, 5 rows, 4 distinct integers"))
    out.append(Ob("store", store, covers=["stored", "error"], bounds="up to three modules"))
    out.append(Ob("missing", missing, bounds="5 names, 7 places"))
    out.append(Ob("malformed", malformed, bounds="8 kinds of malformed rows at 4 places"))
    out.append(Ob("announced", announced, bounds="one relation with 0, 1 or 3 announced answers, 0-2 others"))
    out.append(Ob("not a list", not_a_list, bounds="8 kinds of results"))
    out.append(Ob("many", many, dict(n=12, rows=2 if not deep else 5), bounds="12 modules of 2-5 rows, one arbitrary row"))
    return out
