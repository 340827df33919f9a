"""C25 dialog contexts are active exactly between their start and end"""
from props import sqlstub
from props.common import *
from richard.module.BasicDialogContext import BasicDialogContext

ASSUMPTIONS = ["sqlite3 is modelled by props/sqlstub.py (sampled paths run on the real one)", "names of contexts are texts",
               "a body does not itself start the context it is in (whether that start outlives the body is not specified)"]

X, Y = Variable("X"), Variable("Y")


class Boom(Exception):
    pass


class Probe(SomeModule):
    """look(n): record what is active; boom: fails with an error; no: has no answers"""

    def __init__(self, world):
        super().__init__()
        self.world = world
        self.add_relation(Relation("look", arguments=["n"], query_function=self.look))
        self.add_relation(Relation("boom", arguments=["n"], query_function=self.boom))
        self.add_relation(Relation("no", arguments=["n"], query_function=lambda values, context: []))
        self.add_relation(Relation("many", arguments=["n"], query_function=lambda values, context: [[1], [2]]))

    def look(self, values, context):
        self.world.compare(context.binding)
        return [[None]]

    def boom(self, values, context):
        raise Boom("boom")


class World:
    def __init__(self, ctx, names):
        self.ctx = ctx
        self.names = names
        self.dialog = BasicDialogContext()
        self.solver = Solver(Model([Probe(self), self.dialog]))
        self.active = []
        self.seen = 0
        self.schedule = []
        self.position = 0
        self.binding = {}

    def now(self, probe):
        """whether the context is active, as the solver sees it"""
        return len(self.solver.solve([("context", probe)])) > 0

    def same(self, active):
        ctx = self.ctx
        for n in self.names:
            want = ctx.member(n, active)
            got = self.now(n)
            ctx.check(ctx.iff(got, want), "active exactly between start and end")
            if got:
                ctx.cover("active")
            else:
                ctx.cover("not active")
        found = [b["X"] for b in self.solver.solve([("context", X)])]
        ctx.check(ctx.same_set(found, active), "the active contexts can be asked for")

    def compare(self, binding):
        """called from within a body: what should be active there comes from the schedule"""
        self.ctx.check(self.position < len(self.schedule), "executed once")
        self.same(self.schedule[self.position])
        self.ctx.check(self.ctx.eq(visible(binding), self.binding), "with the binding")
        self.position += 1


def without(ctx, active, name):
    return [a for a in active if not a == name]


def predict(ctx, op, active, schedule):
    """active contexts afterwards, and whether it failed; fills the schedule of what is active at each look"""
    kind = op[0]
    if kind == "look":
        schedule.append(list(active))
        return active, False
    if kind == "boom":
        return active, True
    if kind in ("no", "many"):
        return active, False
    if kind == "start_context":
        return (active if op[1] in active else active + [op[1]]), False
    if kind == "end_context":
        return without(ctx, active, op[1]), False
    # with_context
    was = op[1] in active
    now = active if was else active + [op[1]]
    failed = False
    for i, inner in enumerate(op[2]):
        now, failed = predict(ctx, inner, now, schedule)
        if failed or inner[0] == "no":
            break
    if not was:
        now = without(ctx, now, op[1])
    return now, failed


def body(ctx, label, names, depth, size, around):
    """any body: looks, nested contexts, ends and errors"""
    out = []
    for i in range(size):
        kinds = ["look", "boom", "no", "end_context", "start_context"] + (["with_context"] if depth > 0 else [])
        kind = ctx.choice(f"{label}.{i}", kinds)
        if kind in ("look", "boom", "no"):
            out.append((kind, 0))
            continue
        name = names[ctx.choice(f"{label}.{i}.name", list(range(len(names))))]
        if kind == "end_context":
            out.append((kind, name))
        elif kind == "start_context":
            ctx.assume(not any([name == a for a in around]))
            out.append((kind, name))
        else:
            out.append((kind, name, body(ctx, f"{label}.{i}", names, depth - 1, 1, around + [name]) + [("look", 0)]))
    return out + [("look", 0)]


def history(ctx, length, depth, size, first):
    """any sequence of operations"""
    names = [ctx.str(f"name{i}", 1, "aA'%", 1) for i in range(2)] + ["question"]
    world = World(ctx, names)
    bound = ctx.int("bound")
    for i in range(length):
        kind = first if i == 0 else ctx.choice(f"op{i}", ["start_context", "end_context", "with_context"])
        name = names[ctx.choice(f"op{i}.name", [0, 1])]
        op = (kind, name)
        if kind == "with_context":
            op = (kind, name, body(ctx, f"op{i}", names[:2], depth, size, [name]))
        world.schedule, world.position = [], 0
        active, failed = predict(ctx, op, world.active, world.schedule)
        world.binding = {"B": bound}
        got, exc = ctx.raises(lambda: world.solver.solve([op], {"B": bound}))
        ctx.check(world.position == len(world.schedule), "the body is executed")
        if failed:
            ctx.cover("failed")
            ctx.check(isinstance(exc, Boom), "the error is reported")
        else:
            ctx.check(exc is None, "no error")
            ctx.check(len(got) == 1 and ctx.eq(visible(got[0]), {"B": bound}), "succeeds once and binds nothing")
        world.active = active
        world.same(active)


def in_query(ctx, length):
    """several operations in one query; and the name may come from a variable"""
    names = [ctx.str(f"name{i}", 2, "aA", 1) for i in range(2)]
    world = World(ctx, names)
    N, M = Variable("N"), Variable("M")
    world.binding = {"N": names[0], "M": names[1]}
    ops, plain = [], []
    for i in range(length):
        kind = ctx.choice(f"op{i}", ["start_context", "end_context", "with_context", "boom"])
        v = ctx.choice(f"op{i}.name", [0, 1])
        if kind == "boom":
            ops.append((kind, 0))
            plain.append((kind, 0))
        elif kind == "with_context":
            ops.append((kind, (N, M)[v], [("look", 0)]))
            plain.append((kind, names[v], [("look", 0)]))
        else:
            ops.append((kind, (N, M)[v]))
            plain.append((kind, names[v]))
        ops.append(("look", 0))
        plain.append(("look", 0))
    active = []
    failed = False
    for op in plain:
        active, failed = predict(ctx, op, active, world.schedule)
        if failed:
            break
    got, exc = ctx.raises(lambda: world.solver.solve(ops, dict(world.binding)))
    ctx.check((exc is not None) == failed, "an error if there is one")
    ctx.check(world.position == len(world.schedule), "all executed")
    world.same(active)


def guarded(ctx):
    """a body that has no answers, or many, and one that depends on its own context"""
    names = [ctx.str(f"name{i}", 1, "abA", 1) for i in range(2)]
    world = World(ctx, names)
    started = ctx.flag("started")
    if started:
        world.solver.solve([("start_context", names[1])])
    world.binding = {}
    kind = ctx.choice("body", ["own", "other", "no", "many"])
    inner = {"own": [("context", names[0]), ("look", 0)], "other": [("context", names[1]), ("look", 0)], "no": [("no", 0), ("look", 0)], "many": [("many", 1), ("look", 0)]}[kind]
    active = [names[1]] if started else []
    during = active + [names[0]]
    other = names[0] == names[1]
    if kind == "own" or (kind == "other" and (started or other)) or kind == "many":
        world.schedule = [during] * 4
    got = world.solver.solve([("with_context", names[0], inner)])
    ctx.check(len(got) == 1, "succeeds")
    ctx.check((world.position > 0) == (len(world.schedule) > 0), "the condition sees the context")
    world.same(active)


def information(ctx, count, length, letters):
    """what is known about entities is found again, whatever the contexts, until the dialog is cleared"""
    names = ["q", "r"]
    world = World(ctx, names)
    rows = []
    for i in range(count):
        e, t = ctx.str(f"e{i}", length, letters, 0), ctx.str(f"t{i}", 1, letters, 1)
        how = ctx.choice(f"how{i}", ["write", "store", "inside"])
        atom = ("dialog_isa", e, t)
        if how == "write":
            world.solver.write_atom(atom)
        elif how == "store":
            world.solver.solve([("store", [atom])])
        else:
            world.solver.solve([("with_context", "q", [("store", [atom])])])
        rows.append([e, t])
        step = ctx.choice(f"then{i}", ["nothing", "start_context", "end_context", "clear"])
        if step == "clear":
            ctx.cover("cleared")
            world.dialog.clear()
            rows = []
            world.active = []
        elif step != "nothing":
            world.solver.solve([(step, "r")])
            world.active = ["r"] if step == "start_context" else []
        got = [[b["X"], b["Y"]] for b in world.solver.solve([("dialog_isa", X, Y)])]
        ctx.check(ctx.same_set(got, rows), "found again until cleared")
        probe = ctx.str(f"probe{i}", length, letters, 0)
        got = [[probe, b["Y"]] for b in world.solver.solve([("dialog_isa", probe, Y)])]
        for r in rows:
            ctx.check(ctx.implies(ctx.eq(r[0], probe), ctx.member(r, got)), "by entity")
        for g in got:
            ctx.check(ctx.member(g, rows), "only those")
        if len(got) > 0:
            ctx.cover("found")
        world.same(world.active)


def many(ctx, n):
    """many contexts: started, nested, and ended in any order"""
    names = [f"c{i}" for i in range(n)]
    extra = ctx.str("extra", 3, "c15x", 1)
    world = World(ctx, [extra, "c1", "c15", "c7", "c"])
    order = ctx.choice("order", ["up", "down", "nested", "again"])
    active = []
    if order == "nested":
        op = ("look", 0)
        for name in reversed(names):
            op = ("with_context", name, [op, ("look", 0)])
        ops = [("start_context", "c15"), op]
    elif order == "again":
        ops = [("start_context", names[i % 7]) for i in range(n)] + [("end_context", names[i]) for i in range(0, 7, 2)] + [("end_context", extra)]
    else:
        ops = [("start_context", name) for name in names] + [("start_context", extra), ("look", 0)]
        ops = ops + [("end_context", name) for name in (names if order == "up" else names[::-1])[:n - 3]] + [("look", 0), ("with_context", "c1", [("look", 0)])]
    for op in ops:
        world.schedule, world.position = [], 0
        active, failed = predict(ctx, op, active, world.schedule)
        got, exc = ctx.raises(lambda: world.solver.solve([op]))
        ctx.check(exc is None and len(got) == 1 and world.position == len(world.schedule), "it succeeds once")
    world.same(active)


def obligations(tier):
    deep = tier == "thorough"
    out = []
    for first in ("start_context", "end_context", "with_context"):
        out.append(Ob(f"history {first}", history, dict(length=3 if deep else 2, depth=1, size=1, first=first), covers=["active", "not active", "failed"],
                      bounds="2-3 operations on any two names, bodies of 1 operation, nested twice"))
    out.append(Ob("longer body", history, dict(length=1, depth=2 if deep else 1, size=2, first="with_context"), covers=["active", "not active", "failed"], bounds="a body of 2 operations, nested"))
    out.append(Ob("after start", lambda ctx: started_then(ctx, 2 if deep else 1), covers=["active", "not active", "failed"], bounds="a started context, then a body of 1-2 operations"))
    out.append(Ob("in a query", in_query, dict(length=3 if deep else 2), covers=["active", "not active"], bounds="2-3 operations in one query, any two names"))
    out.append(Ob("guarded", guarded, covers=["active", "not active"], bounds="any two names"))
    out.append(Ob("information", information, dict(count=2, length=1, letters="a'"), covers=["found", "cleared"], bounds="2 facts of texts of at most 1 character of 2"))
    out.append(Ob("any text", information, dict(count=1, length=3, letters="abA '\"%\\1\u00e9"), covers=["found", "cleared"], bounds="a fact of texts of at most 3 characters of 10"))
    if deep:
        out.append(Ob("longer information", information, dict(count=2, length=2, letters="ab'"), covers=["found", "cleared"], bounds="2 facts of texts of at most 2 characters of 3"))
    out.append(Ob("many", many, dict(n=18), covers=["active", "not active"], bounds="18 contexts, in 4 orders, and one of any name of at most 3 characters"))
    return out


def started_then(ctx, size):
    names = [ctx.str(f"name{i}", 1, "aA'%", 1) for i in range(2)] + ["question"]
    world = World(ctx, names)
    world.solver.solve([("start_context", names[0])])
    op = ("with_context", names[ctx.choice("name", [0, 1])], body(ctx, "body", names[:2], 1, size, []))
    ctx.assume(not any([o[0] == "start_context" and o[1] == op[1] for o in op[2]]))
    world.active, failed = predict(ctx, op, [names[0]], world.schedule)
    got, exc = ctx.raises(lambda: world.solver.solve([op]))
    ctx.check((exc is not None) == failed, "an error if there is one")
    if failed:
        ctx.cover("failed")
    ctx.check(world.position == len(world.schedule), "the body is executed")
    world.same(world.active)
