"""C09 what is stored is found again"""
from props import sqlstub
from props.common import *
from richard.module.BasicDialogContext import BasicDialogContext
from richard.module.BasicOutputBuffer import BasicOutputBuffer
from richard.module.SimpleMemoryModule import SimpleMemoryModule

ASSUMPTIONS = ["sqlite3 is modelled by a small SQL engine in the symbolic runs (props/sqlstub.py); sampled paths are re-run on the real sqlite3"]
X, Y, A, B = Variable("X"), Variable("Y"), Variable("A"), Variable("B")


class Memory(SimpleMemoryModule):
    """a memory with typeless columns"""

    def __init__(self):
        super().__init__()
        self.add_relation(Relation("fact", arguments=["a", "b"]))
        self.add_relation(Relation("name", arguments=["a"]))

    def clear(self):
        super().clear()
        cursor = self.data_source.connection.cursor()
        cursor.execute("CREATE TABLE fact (a, b)")
        cursor.execute("CREATE TABLE name (a)")


# kind -> module, relations (name, arity), value kinds
KINDS = {
    "memory": (Memory, [("fact", 2), ("name", 1)], ["int", "text"]),
    "memory-int": (Memory, [("fact", 2), ("name", 1)], ["int"]),
    "dialog": (BasicDialogContext, [("dialog_isa", 2), ("context", 1)], ["text"]),
    "output": (BasicOutputBuffer, [("output_value_with_unit", 2), ("output_value", 1), ("output_type", 1)], ["int", "''", "list"]),
    "output-int": (BasicOutputBuffer, [("output_table", 2), ("output_list", 1), ("output_name_not_found", 1)], ["int"]),
}


def value(ctx, name, kinds):
    k = ctx.choice(name + "k", kinds)
    if k == "text":
        return ctx.str(name, 2, "a0'", 0)
    if k == "list":
        return [ctx.int(name + "l"), ""]
    return mixed_value(ctx, name, [k])


def check_relation(ctx, solver, pred, arity, stored, probe, label):
    """all facts, and those that match one given value"""
    rows = [s[1:] for s in stored if s[0] == pred]
    variables = [X, Y][:arity]
    r = solver.solve([tuple([pred] + variables)], {})
    got = [[b[v.name] for v in variables] for b in r]
    ctx.observe(label + pred, got)
    ctx.check(ctx.same_set([list(x) for x in rows], got), label + f": {pred} holds exactly what is stored")
    if probe is not None:
        want = [list(x) for x in rows if x[0] == probe]
        r = solver.solve([tuple([pred, probe] + variables[1:])], {})
        got = [[probe] + [b[v.name] for v in variables[1:]] for b in r]
        ctx.check(ctx.same_set(want, got), label + f": {pred} with a given value")
        r = solver.solve([tuple([pred] + variables)], {"X": probe})
        ctx.check(ctx.same_set(want, [[b[v.name] for v in variables] for b in r]), label + f": {pred} with a bound variable")


def same(a, b):
    """equal by value and type (text and number are never equal)"""
    return a == b


def history(ctx, kind, ops, steps):
    cls, relations, kinds = KINDS[kind]
    module, other = cls(), cls()
    solver = Solver(Model([module]))
    other_solver = Solver(Model([other]))
    stored = []
    for i in range(steps):
        op = ctx.choice(f"op{i}", ops)
        pred, arity = relations[0] if i != 1 else ctx.choice(f"rel{i}", relations)
        vals = [value(ctx, f"v{i}{c}", kinds) for c in range(arity)]
        if op == "write":
            solver.write_atom(tuple([pred] + vals))
            stored.append(tuple([pred] + vals))
        elif op == "store":
            solver.solve([("store", [tuple([pred] + vals)])], {"A": 1})
            stored.append(tuple([pred] + vals))
        elif op == "store-bound":
            b = {"A": vals[0]}
            r = solver.solve([("store", [tuple([pred, A] + vals[1:])])], b)
            ctx.check(ctx.eq(r, [{"A": vals[0]}]), "storing succeeds once and binds nothing")
            stored.append(tuple([pred] + vals))
        elif op == "store-two":
            p2, a2 = relations[-1]
            second = tuple([p2] + [vals[0]] * a2)
            solver.solve([("store", [tuple([pred] + vals), second])], {})
            stored.append(tuple([pred] + vals))
            stored.append(second)
        elif op == "store-each":
            # once for every answer of the query before it
            facts = solver.solve([tuple([pred] + [X, Y][:arity])], {})
            seen = [b["X"] for b in facts]
            solver.solve([tuple([pred] + [X, Y][:arity]), ("store", [tuple([relations[-1][0]] + [X] * relations[-1][1])])], {})
            for x in seen:
                stored.append(tuple([relations[-1][0]] + [x] * relations[-1][1]))
        elif op == "clear":
            module.clear()
            stored = []
            ctx.cover("cleared")
        for p, n in relations:
            check_relation(ctx, solver, p, n, stored, vals[0] if p == pred and i == steps - 1 and op != "store-each" else None, f"step {i}")
            ctx.check(len(other_solver.solve([tuple([p] + [X, Y][:n])], {})) == 0, "another memory does not see it")


def order(ctx, kind):
    """several facts are all stored, in order; equal facts are not lost"""
    cls, relations, kinds = KINDS[kind]
    module = cls()
    trace = Trace()
    solver = Solver(Model([module, trace]))
    v = [value(ctx, f"v{i}", kinds) for i in range(3)]
    pred, arity = relations[0]
    n = ctx.choice("n", [0, 1, 2, 3])
    solver.solve([("store", [tuple([pred, v[i], v[0]]) for i in range(n)] + [("mark", i) for i in range(n)])], {})
    ctx.check(ctx.eq(trace.written, list(range(n))), "every atom is stored once, in order")
    rows = solver.solve([(pred, X, Y)], {})
    seen = []
    for i in range(n):
        if not ctx.member([v[i], v[0]], seen):
            seen.append([v[i], v[0]])
    ctx.check(ctx.eq([[b["X"], b["Y"]] for b in rows], seen), "found in the order of storing")
    # variables of an earlier answer
    t2 = Trace()
    Solver(Model([module, t2])).solve([(pred, X, Y), ("store", [("mark", X)])], {})
    ctx.check(ctx.eq(t2.written, [s[0] for s in seen]), "stored with the values of each answer")
    _, exc = ctx.raises(lambda: solver.solve([("store", ctx.choice("bad", [(pred, 1, 2), "text", 5, Variable("Unbound")]))], {}))
    ctx.check(exc is not None, "storing something that is not a list is an error")


def nested(ctx):
    """variables inside nested structures are replaced when stored"""
    buffer = BasicOutputBuffer()
    solver = Solver(Model([buffer]))
    a = mixed_value(ctx, "a", ["int", "''", "str"])
    solver.solve([("store", [("output_list", [A, [B, ("p", A)]]), ("output_table", [[A]], (A, "x"))])], {"A": a, "C": 5})
    ctx.check(ctx.eq(solver.solve([("output_list", X)], {}), [{"X": [a, [B, ("p", a)]]}]), "bound variables are replaced at any depth")
    ctx.check(ctx.eq(solver.solve([("output_table", X, Y)], {}), [{"X": [[a]], "Y": (a, "x")}]), "bound variables are replaced at any depth")


def many(ctx, kind, n):
    """a memory with many facts: none is lost, and each is found by its values"""
    cls, relations, kinds = KINDS[kind]
    module = cls()
    solver = Solver(Model([module]))
    text = kind == "dialog"
    pred, arity = relations[0]
    at = ctx.choice("at", [0, n // 2, n - 1])
    v, w = (ctx.str("v", 2, "a0'", 0), "y1") if text else (ctx.int("v"), 1)
    rows = [[v, w] if i == at else [f"x{i}", f"y{i % 3}"] if text else [i, i % 3] for i in range(n)]
    for i in range(0, n, 2):
        solver.solve([("store", [(pred, rows[i][0], rows[i][1]), (pred, rows[i + 1][0], rows[i + 1][1])])], {})
    got = [[b["X"], b["Y"]] for b in solver.solve([(pred, X, Y)], {})]
    ctx.check(ctx.same_set(got, rows), "all facts that were stored")
    got = [[v, b["Y"]] for b in solver.solve([(pred, v, Y)], {"B": 1})]
    ctx.check(ctx.same_set(got, [row for row in rows if row[0] == v]), "those with a given first value")
    got = [[b["X"], w] for b in solver.solve([(pred, X, Y)], {"Y": w})]
    ctx.check(ctx.same_set(got, [row for row in rows if row[1] == w]), "those with a given last value")
    module.clear()
    ctx.check(solver.solve([(pred, X, Y)], {}) == [], "and none after clearing")


def obligations(tier):
    deep = tier == "thorough"
    out = []
    ops = ["write", "store", "store-bound", "store-two", "clear"]
    for kind in KINDS:
        out.append(Ob(f"{kind} history", history, dict(kind=kind, ops=ops if kind.endswith("-int") or deep else ["write", "store-bound", "clear"], steps=2),
                      covers=["cleared"], bounds="2 steps; values: any integer / texts of at most 2 characters of a0' / lists"))
        out.append(Ob(f"{kind} each", history, dict(kind=kind, ops=["store", "store-each"], steps=2), bounds="2 steps"))
        if kind.endswith("-int"):
            out.append(Ob(f"{kind} long history", history, dict(kind=kind, ops=["store", "clear"] if not deep else ops, steps=3), covers=["cleared"],
                          bounds="3 steps, any integers"))
    for kind in ("memory-int", "dialog", "output-int", "memory"):
        out.append(Ob(f"{kind} order", order, dict(kind=kind), bounds="up to 3 facts"))
    out.append(Ob("nested", nested, bounds="any integer or text of 1 character"))
    for kind in ("memory-int", "dialog", "output-int"):
        out.append(Ob(f"{kind} many", many, dict(kind=kind, n=40), bounds="40 facts, one of them with any value"))
    return out
