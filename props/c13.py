"""C13 inference rules yield exactly the logical consequences"""
from props.common import *
from richard.core.constants import DISJUNCTION
from richard.module.CoreModule import CoreModule
from richard.module.InferenceModule import InferenceModule
from richard.type.InferenceRule import InferenceRule

ASSUMPTIONS = ["recursive programs: facts without cycles (a cycle is an infinite recursion by design)"]

X, Y, Z, W, A, B, Q = [Variable(n) for n in "XYZWABQ"]
K = "<k>"   # an arbitrary integer constant

# programs: (head, body) in order
PROGRAMS = {
    "copy": [(("r", X, Y), [("p", X, Y)])],
    "swap": [(("r", Y, X), [("p", X, Y)])],
    "join": [(("r", X, Y), [("p", X, Z), ("q", Z, Y)])],
    "names": [(("r", Z, X), [("p", Z, Y), ("q", Y, X)])],
    "two rules": [(("r", X, Y), [("p", X, Y)]), (("r", X, Y), [("q", Y, X)])],
    "facts": [(("r", 0, K), []), (("r", K, ""), []), (("r", X, Y), [("p", X, Y)])],
    "head constant": [(("r", K, Y), [("p", Y, Z)]), (("r", X, 0), [("q", X, X)])],
    "head repeat": [(("r", X, X), [("p", X, Y)]), (("r", Y, Z), [("q", Y, Z)])],
    "any": [(("r", X, X), []), (("r", X, K), [])],
    "arities": [(("r", X), [("p", X, X)]), (("r", X, Y), [("p", X, Y)]), (("r", X, Y, Z), [("p", X, Y), ("q", Y, Z)])],
    "chain": [(("s", X, Y), [("p", X, Y)]), (("r", Y, X), [("s", Y, Z), ("q", Z, X)])],
    "same names": [(("s", Y, X), [("p", Y, Z), ("q", Z, X)]), (("r", X, Y), [("s", Y, X), ("p", Y, Z)])],
    "twice": [(("s", X, Y), [("p", X, Y)]), (("r", X, Y), [("s", X, Z), ("s", Z, Y)])],
    "body constant": [(("r", X, Y), [("p", X, K), ("q", 0, Y)])],
    "not": [(("r", X, Y), [("p", X, Y), ("not", [("q", Y, X)])])],
    "or": [(("r", X, Y), [(DISJUNCTION, [[("p", X, Y)], [("q", Y, X)]])])],
    "local": [(("r", X, X), [("p", X, W), ("p", W, Y)]), (("r", W, X), [("q", W, X)])],
    "scoped": [(("r", X, X), [("p", X, A), ("scoped", [("q", Y, Z)])]), (("r", X, A), [("q", X, A), ("scoped", [("p", A, Z), ("q", Z, Y)])])],
    "none": [(("r", A, B), [("p", A, B), ("none", [("q", B, Y)])]), (("r", A, A), [("q", A, Z), ("not", [("scoped", [("p", Z, X)])])])],
    "local or": [(("r", A, B), [(DISJUNCTION, [[("p", A, Y), ("q", Y, B)], [("q", B, Z), ("scoped", [("p", Z, X), ("p", W, A)])]]), ("p", A, X)])],
    "falsy": [(("r", X, Y), [("p", 0, X), ("q", X, Y)]), (("r", "", Y), [("p", Y, Y)])],
}
RECURSIVE = {
    "ancestor": [(("r", X, Y), [("p", X, Y)]), (("r", X, Y), [("p", X, Z), ("r", Z, Y)])],
    "left names": [(("r", Y, X), [("p", Y, Z), ("r", Z, X)]), (("r", X, Y), [("p", X, Y)])],
    "mutual": [(("s", X, Y), [("p", X, Z), ("r", Z, Y)]), (("r", X, Y), [("p", X, Z), ("s", Z, Y)]), (("r", X, X), [("q", X, X)])],
}


LONG = {
    "ancestor": RECURSIVE["ancestor"],
    "recursion first": [(("r", X, Y), [("p", X, Z), ("r", Z, Y)]), (("r", A, B), [("p", A, B)])],
    "mutual": [(("r", X, Y), [("p", X, Y)]), (("r", Y, X), [("p", Y, Z), ("s", Z, X)]), (("s", X, Y), [("p", X, Y)]), (("s", X, Y), [("p", X, Z), ("r", Z, Y)])],
}


def put(ctx, x, k):
    """constants in place of K"""
    if isinstance(x, tuple):
        return tuple([put(ctx, e, k) for e in x])
    if isinstance(x, list):
        return [put(ctx, e, k) for e in x]
    if isinstance(x, str) and x == K:
        return k
    return x


class Consequences:
    """all derivations: (condition, environment) by naming apart and unification with symbolic facts"""

    def __init__(self, ctx, rules, tables, depth):
        self.ctx = ctx
        self.rules = rules
        self.tables = tables
        self.depth = depth

    def solve(self, atoms, env, depth):
        """[(formula, env)]; the variables in env belong to the atoms"""
        out = [(True, env)]
        for atom in atoms:
            step = []
            for f, e in out:
                for g, e2 in self.atom(atom, e, depth):
                    step.append((self.ctx.all_([f, g]), e2))
            out = step
        return out

    def value(self, arg, env):
        if isinstance(arg, Variable):
            return env.get(arg.name, arg)
        return arg

    def atom(self, atom, env, depth):
        ctx = self.ctx
        pred = atom[0]
        if pred == "scoped":
            return [(ctx.any_([f for f, e in self.solve(atom[1], env, depth)]), env)]
        if pred in ("not", "none"):
            none = ctx.not_(ctx.any_([f for f, e in self.solve(atom[1], env, depth)]))
            return [(none, env)]
        if pred == DISJUNCTION:
            # the first branch with answers
            out = []
            earlier = []
            for branch in atom[1]:
                answers = self.solve(branch, env, depth)
                out.extend([(ctx.all_([f] + [ctx.not_(g) for g in earlier]), e) for f, e in answers])
                earlier.extend([f for f, e in answers])
            return out
        args = [self.value(a, env) for a in atom[1:]]
        out = []
        if pred in self.tables:
            for row in self.tables[pred]:
                out.extend(self.match(atom[1:], args, row, env))
            return out
        for head, body in self.rules:
            if head[0] != pred or len(head) != len(atom):
                continue
            if depth == 0:
                continue
            inner = {}
            cond = []
            for h, a in zip(head[1:], args):
                if isinstance(a, Variable):
                    continue
                if isinstance(h, Variable):
                    if h.name in inner:
                        cond.append(ctx.eq(inner[h.name], a))
                    else:
                        inner[h.name] = a
                else:
                    cond.append(ctx.eq(h, a))
            for f, e in self.solve(body, inner, depth - 1):
                row = [self.value(h, e) for h in head[1:]]
                if any([isinstance(c, Variable) for c in row]):
                    continue      # not a tuple: an argument that is bound by nothing
                for g, e2 in self.match(atom[1:], args, row, env):
                    out.append((ctx.all_(cond + [f, g]), e2))
        return out

    def match(self, names, args, row, env):
        cond = []
        e2 = dict(env)
        for n, a, c in zip(names, args, row):
            if isinstance(a, Variable):
                if a.name in e2:
                    cond.append(self.ctx.eq(e2[a.name], c))
                else:
                    e2[a.name] = c
            else:
                cond.append(self.ctx.eq(a, c))
        return [(self.ctx.all_(cond), e2)]


def setup(ctx, name, programs, rows, acyclic):
    k = ctx.int("k")
    rules = put(ctx, programs[name], k)
    tables = {"p": int_table(ctx, "p", rows[0], 2), "q": int_table(ctx, "q", rows[1], 2)}
    if acyclic:
        for row in tables["p"]:
            ctx.assume(row[0] < row[1])
    module = InferenceModule()
    for head, body in rules:
        module.insert_rule(InferenceRule(head, body))
    solver = Solver(Model([Facts(tables), module]))
    return solver, Consequences(ctx, rules, tables, rows[0] + (1 if name == 'mutual' else 0) if acyclic else 2), tables


# first and second argument of the query: name of a variable, or a constant; * : bound
def query(ctx, name, programs, rows, acyclic, args, binding):
    solver, ref, tables = setup(ctx, name, programs, rows, acyclic)
    b = {v: ctx.int("b" + v) for v in binding}
    terms = [ctx.int(f"c{i}") if a == "const" else a if a == "" or a == 0 else Variable(a) for i, a in enumerate(args)]
    atoms = [tuple(["r"] + terms)]
    got = solver.solve(atoms, b)
    ctx.observe("got", got)
    want = ref.solve(atoms, dict(b), ref.depth)
    check_answers(ctx, got, want, "rule", distinct=False)
    if len(got) > 0:
        ctx.cover("answers")


def conjunction(ctx, name, rows, order):
    """rules inside a larger query"""
    solver, ref, tables = setup(ctx, name, PROGRAMS, rows, False)
    atoms = {"before": [("r", X, Z), ("q", Z, Y)], "after": [("p", Y, X), ("r", X, Z)], "twice": [("r", X, Y), ("r", Y, Z)]}[order]
    b = {"W": ctx.int("bW")}
    got = solver.solve(atoms, b)
    ctx.observe("got", got)
    check_answers(ctx, got, ref.solve(atoms, dict(b), ref.depth), "rule in a query", distinct=False)
    if len(got) > 0:
        ctx.cover("answers")


def rule_order(ctx):
    """rules are tried in the order given, each whose head matches exactly once, in the binding of its head"""
    k1, k2, a = ctx.int("k1"), ctx.int("k2"), ctx.int("a")
    trace = Trace()
    module = InferenceModule()
    module.insert_rule(InferenceRule(("r", k1, 10), [("mark", 1)]))
    module.insert_rule(InferenceRule(("r", X, 20), [("mark", 2), ("mark", X)]))
    module.insert_rule(InferenceRule(("r", k2, 30), [("mark", 3), ("none_such", X)]))
    module.insert_rule(InferenceRule(("r", k2, 40), [("mark", 4)]))
    facts = Facts({"none_such": []})
    got = Solver(Model([trace, module, facts])).solve([("r", a, Y)], {"X": 5})
    want_marks, want = [], []
    if k1 == a:
        want_marks.append(1)
        want.append(10)
    want_marks.extend([2, a])
    want.append(20)
    if k2 == a:
        want_marks.extend([3, 4])
        want.append(40)
    ctx.observe("got", got)
    ctx.check(ctx.eq(trace.marks, want_marks), "the rules that match, in order, once")
    ctx.check(ctx.eq(got, [{"X": 5, "Y": w} for w in want]), "the answers in the order of the rules")


def passed_atoms(ctx):
    """a list of atoms as an argument keeps its own variables, whatever the names in the rule"""
    tables = {"p": int_table(ctx, "p", 2, 2), "q": []}
    inner = ctx.choice("names", [(X, Y), (A, B), (Q, X), (Y, Q), (X, X)])
    program = ctx.choice("program", ["direct", "via", "with other", "switch"])
    rules = {
        "direct": [(("knows", X), [("scoped", X)])],
        "via": [(("knows", X), [("sub", X, 1)]), (("sub", A, X), [("scoped", A)])],
        "with other": [(("knows", X), [("p", Y, A), ("scoped", X)])],
        "switch": [(("knows", A), [("not", [("not", [("scoped", A)])])])],
    }[program]
    module = InferenceModule()
    for head, body in rules:
        module.insert_rule(InferenceRule(head, body))
    solver = Solver(Model([Facts(tables), module]))
    binding = {v: ctx.int("b" + v) for v in ctx.choice("binding", [[], ["X"], ["A", "Y"], ["Q"]])}
    body = [("p", inner[0], inner[1])]
    if ctx.flag("by variable"):
        atoms = [("knows", Variable("Body"))]
        b = dict(binding)
        b["Body"] = body
    else:
        atoms = [("knows", body)]
        b = dict(binding)
    got = solver.solve(atoms, b)
    truth = ctx.any_([f for f, a in reference_answers(ctx, tables, body, binding)])
    ctx.check(len(got) <= 1 and ctx.iff(len(got) == 1, truth), "a scoped body is true exactly when it has an answer")
    if len(got) == 1:
        ctx.cover("true")
        ctx.check(ctx.eq(got[0], b), "nothing is bound")


def long_chain(ctx, name, n):
    """many derivation steps: along a chain of n facts, from any start to any goal"""
    rows = [[i, i + 1] for i in range(n)]
    module = InferenceModule()
    for head, body in LONG[name]:
        module.insert_rule(InferenceRule(head, body))
    solver = Solver(Model([Facts({"p": rows, "q": [[n, n]]}), module]))
    which = ctx.choice("which", ["start", "goal", "both"])
    if which == "start":
        start = ctx.int("start")
        got = solver.solve([("r", start, A)], {"X": 7})
        want = []
        if start >= 0 and start < n:
            want = [{"X": 7, "A": j} for j in range(start + 1, n + 1)]
            ctx.cover("answers")
        ctx.check(ctx.same_set(got, want), "everything further along the chain")
    elif which == "goal":
        goal = ctx.int("goal")
        start = ctx.choice("from", [0, 1, n - 3])
        got = solver.solve([("r", start, goal)], {})
        ctx.check(ctx.iff(len(got) > 0, ctx.all_([goal > start, goal <= n])), "reached exactly when it is further along the chain")
        ctx.check(ctx.all_([ctx.eq(b, {}) for b in got]), "nothing is bound")
    else:
        got = solver.solve([("r", A, B)], {})
        a, b = ctx.int("a"), ctx.int("b")
        found = ctx.any_([ctx.all_([ctx.eq(g["A"], a), ctx.eq(g["B"], b)]) for g in got])
        ctx.check(ctx.iff(found, ctx.all_([a >= 0, a < b, b <= n])), "all pairs")


def nested_rules(ctx, n):
    """a chain of n rules, each defined by the next one, with the arguments in turn swapped"""
    module = InferenceModule()
    for i in range(n):
        module.insert_rule(InferenceRule((f"r{i}", X, Y) if i % 3 else (f"r{i}", Y, X), [(f"r{i + 1}", X, Y)]))
    swaps = len([i for i in range(n) if i % 3 == 0])
    tables = {f"r{n}": int_table(ctx, "p", 2, 2)}
    solver = Solver(Model([Facts(tables), module]))
    a = ctx.int("a")
    got = solver.solve([("r0", a, Z)], {"Y": 1})
    rows = [row if swaps % 2 == 0 else [row[1], row[0]] for row in tables[f"r{n}"]]
    want = [(ctx.eq(row[0], a), {"Y": 1, "Z": row[1]}) for row in rows]
    check_answers(ctx, got, want, "rule", distinct=False)
    if len(got) > 0:
        ctx.cover("answers")


def many_rules(ctx, n):
    """a predicate with n rules and a rule with n atoms"""
    module = InferenceModule()
    keys = [ctx.int("k0"), ctx.int("k1")]
    heads = [keys[0] if i == 3 else keys[1] if i == n - 2 else i for i in range(n)]
    for i in range(n):
        module.insert_rule(InferenceRule(("r", heads[i], X), [("p", X, i)]))
    vs = [Variable(f"V{i}") for i in range(n + 1)]
    module.insert_rule(InferenceRule(("s", vs[0], vs[n]), [("p", vs[i], vs[i + 1]) for i in range(n)]))
    rows = [[i, i + 1] for i in range(n + 2)]
    solver = Solver(Model([Facts({"p": rows}), module]))
    a = ctx.int("a")
    got = solver.solve([("r", a, Y)], {})
    want = [(ctx.eq(heads[i], a), {"Y": i - 1}) for i in range(1, n)]
    check_answers(ctx, got, want, "rules", distinct=False)
    got = solver.solve([("s", a, Y)], {})
    check_answers(ctx, got, [(ctx.eq(a, i), {"Y": i + n}) for i in range(3)], "a long rule", distinct=False)


def obligations(tier):
    deep = tier == "thorough"
    out = []
    shapes = {
        "free": (["A", "B"], []),
        "clash": (["Y", "X"], ["Z", "W"]),
        "clash bound": (["X", "Y"], ["Y", "Z"]),
        "bound": (["A", "X"], ["A", "Y"]),
        "const": (["const", "Z"], ["X"]),
        "const2": (["W", "const"], ["Y"]),
        "same": (["Q", "Q"], ["X"]),
        "same bound": (["Z", "Z"], ["Z"]),
        "ground": (["const", "const"], ["X", "Q"]),
        "falsy": ([0, "Y"], []),
        "falsy2": (["", "A"], ["X"]),
    }
    for name in PROGRAMS:
        for s, (args, binding) in shapes.items():
            if name == "any" and s in ("free", "clash", "same"):
                continue      # no argument is bound by anything
            covers = ["answers"] if not s.startswith("falsy") else []
            out.append(Ob(f"{name} {s}", query, dict(name=name, programs=PROGRAMS, rows=(2, 2) if deep else (2, 1), acyclic=False, args=args, binding=binding),
                          covers=covers, bounds="p: 2 rows, q: 1-2 rows, arbitrary integers, arbitrary constant"))
    for name in RECURSIVE:
        for s, (args, binding) in shapes.items():
            if s.startswith("falsy"):
                continue
            covers = ["answers"] if not (s.startswith("same") and name != "mutual") else []
            out.append(Ob(f"{name} {s}", query, dict(name=name, programs=RECURSIVE, rows=(4, 1) if deep else (3, 1), acyclic=True, args=args, binding=binding),
                          covers=covers, bounds="p: 3-4 rows without cycles, q: 1 row, arbitrary integers"))
    for name in ("join", "two rules", "head repeat", "chain", "local", "any", "same names", "scoped", "none"):
        for order in ("before", "after", "twice"):
            if name == "any" and order != "after":
                continue
            out.append(Ob(f"{name} {order}", conjunction, dict(name=name, rows=(2, 1), order=order), covers=["answers"], bounds="p: 2 rows, q: 1 row"))
    for name in LONG:
        out.append(Ob(f"long chain {name}", long_chain, dict(name=name, n=40 if deep else 30), covers=["answers"], bounds="a chain of 30-40 facts; arbitrary start, goal"))
    out.append(Ob("nested rules", nested_rules, dict(n=40), covers=["answers"], bounds="40 rules deep; 2 rows of arbitrary integers"))
    out.append(Ob("many rules", many_rules, dict(n=30), bounds="30 rules of one predicate; a body of 30 atoms"))
    out.append(Ob("rule order", rule_order, bounds="4 rules, arbitrary integers"))
    out.append(Ob("passed atoms", passed_atoms, covers=["true"], bounds="p: 2 rows of arbitrary integers; 5 name pairs, 4 rule sets"))
    return out
