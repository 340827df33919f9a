"""C14 learned rules and grammar take effect immediately and only add"""
from props.common import *
from props.c13 import Consequences, put, K
from props.c15 import build, shape, Licensed, W, R, SP
from richard.entity.GrammarRules import GrammarRules
from richard.entity.SentenceRequest import SentenceRequest
from richard.module.GrammarModule import GrammarModule
from richard.module.InferenceModule import InferenceModule
from richard.processor.parser.BasicParser import BasicParser
from richard.processor.parser.helper.SimpleGrammarRulesParser import SimpleGrammarRulesParser
from richard.type.InferenceRule import InferenceRule

X, Y, Z, A, B, Head, Body = [Variable(n) for n in ["X", "Y", "Z", "A", "B", "Head", "Body"]]

# what there is from the start; p and q are facts, r and s have rules only, p may get rules too
BASE = {
    "none": [],
    "rule": [(("r", X, Y), [("p", X, Y)])],
    "more": [(("r", X, K), []), (("s", X, Y), [("p", Y, X)]), (("r", X, Y), [("s", X, Z), ("q", Z, Y)])],
}
# what is learned: (head, body)
LEARN = {
    "copy": (("r", X, Y), [("q", X, Y)]),
    "fact": (("r", X, Y), []),
    "constant": (("r", K, Y), [("q", Y, Z)]),
    "join": (("r", Z, X), [("p", Z, Y), ("q", Y, X)]),
    "of facts": (("p", X, Y), [("q", Y, X)]),
    "via": (("s", Y, X), [("q", X, Y)]),
    "scoped": (("r", X, Y), [("q", X, Y), ("not", [("p", Y, X)])]),
    "two scopes": (("r", X, Y), [("p", X, Y), ("not", [("q", Z, X), ("not", [("p", Z, Y)])])]),
    "own": (("r", X, X), [("p", X, Z)]),
}


def substitute(x, binding):
    if isinstance(x, Variable):
        return binding[x.name] if x.name in binding else x
    if isinstance(x, tuple):
        return tuple([substitute(e, binding) for e in x])
    if isinstance(x, list):
        return [substitute(e, binding) for e in x]
    return x


QUERIES = {"r": [("r", A, B)], "r clash": [("r", Y, X)], "p": [("p", A, B)], "s": [("s", B, A)]}


class World:
    def __init__(self, ctx, base, rows):
        self.ctx = ctx
        self.k = ctx.int("k")
        self.tables = {"p": int_table(ctx, "p", rows[0], 2), "q": int_table(ctx, "q", rows[1], 2)}
        self.rules = put(ctx, BASE[base], self.k)
        module = InferenceModule()
        for head, body in self.rules:
            module.insert_rule(InferenceRule(head, body))
        self.rules = list(self.rules)
        self.solver = Solver(Model([Facts(self.tables), module]))

    def learn(self, head, body, binding, by_variable=False):
        ctx = self.ctx
        before = clone(binding)
        b = dict(binding)
        atom = ("learn_rule", head, body)
        if by_variable:
            b["Head"] = head
            b["Body"] = body
            atom = ("learn_rule", Head, Body)
        got = self.solver.solve([atom], b)
        ctx.check(len(got) == 1 and ctx.eq(visible(got[0]), visible(b)), "learning succeeds once and binds nothing")
        ctx.check(ctx.eq(before, binding), "the binding is left alone")
        self.rules.append((substitute(head, binding), substitute(body, binding)))

    def ask(self, query, label, binding=None):
        ctx = self.ctx
        ref = Both(ctx, self.rules, self.tables, 3)
        if not any([h[0] == query[0][0] for h, b in self.rules]) and query[0][0] not in self.tables:
            return
        got = self.solver.solve(query, dict(binding or {}))
        ctx.observe(label, got)
        check_answers(ctx, got, ref.solve(query, dict(binding or {}), ref.depth), label, distinct=False)
        if len(got) > 0:
            ctx.cover("answers")


class Both(Consequences):
    """facts and rules of one predicate together"""

    def atom(self, atom, env, depth):
        pred = atom[0]
        if pred in self.tables:
            facts = Consequences(self.ctx, [], {pred: self.tables[pred]}, depth)
            out = facts.atom(atom, env, depth)
            tables, self.tables = self.tables, {k: v for k, v in self.tables.items() if k != pred}
            rules = RulesOnly(self, pred, tables)
            self.tables = tables
            return out + rules.atom(atom, env, depth)
        return Consequences.atom(self, atom, env, depth)


class RulesOnly(Consequences):
    """the rules of one predicate; everything else by facts and rules"""

    def __init__(self, owner, pred, tables):
        Consequences.__init__(self, owner.ctx, [r for r in owner.rules if r[0][0] == pred], {}, owner.depth)
        self.owner = owner

    def solve(self, atoms, env, depth):
        return self.owner.solve(atoms, env, depth)


def learn_one(ctx, base, learn, bound, rows, query):
    """the same questions before and after"""
    world = World(ctx, base, rows)
    binding = {v: ctx.int("b" + v) for v in bound}
    head, body = put(ctx, LEARN[learn], world.k)
    world.ask(QUERIES[query], "before")
    world.learn(head, body, binding, ctx.flag("by variable"))
    b = {}
    if ctx.flag("question bound"):
        b = {"A": ctx.int("bA"), "X": ctx.int("qX")}
    world.ask(QUERIES[query], "after", b)
    world.ask(QUERIES[query], "again", b)


def learn_two(ctx, base, first, rows):
    """two rules learned one after another"""
    world = World(ctx, base, rows)
    second = ctx.choice("second", sorted(LEARN))
    for name, bound in ((first, ctx.choice("bound1", [[], ["X"]])), (second, ctx.choice("bound2", [[], ["Y"], ["Z", "X"]]))):
        head, body = put(ctx, LEARN[name], world.k)
        if name == "fact":
            bound = ["X", "Y"]
        world.learn(head, body, {v: ctx.int("b" + v) for v in bound})
        world.ask(QUERIES["r"], "after " + name)
    world.ask(QUERIES["p"], "p")
    world.ask(QUERIES["s"], "s")


def learn_per_answer(ctx, rows):
    """inside a query, a rule is learned for each of the answers so far"""
    world = World(ctx, "rule", rows)
    head, body = ctx.choice("rule", [(("r", X, Z), [("q", Z, Y)]), (("r", Y, X), []), (("s", X, Y), [])])
    got = world.solver.solve([("q", X, Y), ("learn_rule", head, body)], {})
    ctx.check(ctx.same_set(got, [{"X": r[0], "Y": r[1]} for r in world.tables["q"]]), "an answer for each")
    for row in world.tables["q"]:
        asg = {"X": row[0], "Y": row[1]}
        world.rules.append((substitute(head, asg), substitute(body, asg)))
    world.ask(QUERIES["r"], "r")
    world.ask(QUERIES["s"], "s")
    ctx.cover("done")


def facts_afterwards(ctx):
    """stored facts and learned rules are used together"""
    world = World(ctx, "rule", (1, 1))
    head, body = (("p", X, Y), [("q", Y, X)])
    steps = ctx.choice("steps", ["learn store", "store learn", "learn store learn"])
    for step in steps.split(" "):
        if step == "learn":
            world.learn(head, body, {})
        else:
            world.solver.write_atom(("p", ctx.int("n1"), ctx.int("n2")))
        world.ask(QUERIES["p"], "p")
        world.ask(QUERIES["r"], "r")


def bad_head(ctx):
    """a head that is not a single atom"""
    world = World(ctx, "rule", (1, 1))
    t = ctx.str("t", 2, "ar", 0)
    head = ctx.choice("head", ["atoms", "atom in a list", "none", "text", "number", "unbound", "bound"])
    value = {"atoms": [("r", X, Y), ("s", X, Y)], "atom in a list": [("r", X, Y)], "none": [], "text": t, "number": ctx.int("n", -2, 2), "unbound": A,
             "bound": B}[head]
    got, exc = ctx.raises(lambda: world.solver.solve([("learn_rule", value, [("q", X, Y)])], {"B": [("r", X, Y)]}))
    ctx.check(exc is not None, "reported as an error")
    ctx.check(len(str(exc)) > 0, "with a message")
    world.ask(QUERIES["r"], "unchanged")


GRAMMAR = [("s", ["E"], [("n", ["E"])]), ("s", ["E"], [("n", ["E"]), SP, ("v", ["E"])]), ("n", ["E"], [W("a")]), ("n", ["E"], [("n", ["E"]), W("b")]), ("v", ["E"], [W("c")])]
# learned syntax: as text, and as rules (variants of optional words)
LEARNED = {
    "word": ("n(E) -> 'c'", [("n", ["E"], [W("c")])]),
    "same": ("n(E) -> 'a'", [("n", ["E"], [W("a")])]),
    "sentence": ("s(E) -> v(E) n(F)", [("s", ["E"], [("v", ["E"]), SP, ("n", ["F"])])]),
    "recursive": ("v(E) -> v(E) + 'c'", [("v", ["E"], [("v", ["E"]), W("c")])]),
    "new": ("w(E, F) -> 'b'", [("w", ["E", "F"], [W("b")])]),
    "use": ("s(E) -> w(E, F)+n(F)", [("s", ["E"], [("w", ["E", "F"]), ("n", ["F"])])]),
    "arguments": ("n() -> 'a'", [("n", [], [W("a")])]),
    "more arguments": ("s(E, F) -> 'c' n(E)", [("s", ["E", "F"], [W("c"), SP, ("n", ["E"])])]),
    "regexp": ("n(E) -> /[ab][ab]/", [("n", ["E"], [R("[ab][ab]")])]),
    "optional": ("s(E) -> n(E) 'b'? 'c'", [("s", ["E"], [("n", ["E"]), SP, W("b"), SP, W("c")]), ("s", ["E"], [("n", ["E"]), SP, W("c")])]),
    "joint": ("s(E) -> n(E) ~ 'c'", [("s", ["E"], [("n", ["E"]), SP, W("c")]), ("s", ["E"], [("n", ["E"]), W("c")])]),
}


def licensed(rules, text):
    ref = Licensed(rules, text)
    out = []
    for nargs in sorted(set([len(a) for c, a, k in rules if c == "s"])):
        out.extend(ref.trees("s", nargs, 0, len(text)))
    return out


def renumber(tree, numbers):
    """rule indexes by the number of the rule text"""
    if isinstance(tree, tuple) and isinstance(tree[0], str):
        return tree
    return (numbers[tree[0]], [renumber(c, numbers) for c in tree[1]])


def learn_grammar(ctx, n, first, seconds):
    """parse, learn, parse, learn, parse"""
    text = ctx.str("t", n, "abc ", 1)
    ctx.assume(not "  " in text)
    grammar = GrammarRules(build(GRAMMAR, "sem"))
    parser = BasicParser(grammar)
    solver = Solver(Model([GrammarModule(grammar)]))
    rules = list(GRAMMAR)
    numbers = list(range(len(GRAMMAR)))
    names = [first] + ([ctx.choice("second", seconds)] if len(seconds) > 0 else [])
    earlier = []
    by_variable = ctx.flag("by variable")
    for step in range(len(names) + 1):
        result, exc = ctx.raises(lambda: parser.process(SentenceRequest(text)))
        ctx.check(exc is None, "no crash")
        got = [shape(p.parse_tree, "sem") for p in result.products]
        want = [renumber(t, numbers) for t in licensed(rules, text)]
        ctx.check(ctx.same_set(got, want), "the readings of the grammar as it is now")
        for g in earlier:
            ctx.check(ctx.member(g, got), "earlier readings are kept")
        if len(got) > len(earlier) and step > 0:
            ctx.cover("new reading")
        earlier = got
        if step < len(names):
            syntax, added = LEARNED[names[step]]
            number = len(GRAMMAR) + step
            rule = {"syn": syntax, "sem": lambda *args, number=number: number}
            if by_variable:
                done = solver.solve([("learn_grammar_rule", X)], {"X": rule, "Y": 1})
            else:
                done = solver.solve([("learn_grammar_rule", rule)], {"Y": 1})
            ctx.check(len(done) == 1 and ctx.eq(done[0]["Y"], 1), "learning succeeds once")
            rules.extend(added)
            numbers.extend([number] * len(added))


PARTS = {
    "s": ("s(E) -> n(E) v(E)", [("s", ["E"], [("n", ["E"]), SP, ("v", ["E"])])]),
    "s of n": ("s(E) -> n(E)", [("s", ["E"], [("n", ["E"])])]),
    "n": ("n(E) -> 'a'", [("n", ["E"], [W("a")])]),
    "n with m": ("n(E) -> m(F)+n(E)", [("n", ["E"], [("m", ["F"]), ("n", ["E"])])]),
    "m": ("m(E) -> 'b'", [("m", ["E"], [W("b")])]),
    "other m": ("m(E, F) -> 'c'", [("m", ["E", "F"], [W("c")])]),
    "v": ("v(E) -> 'b' m(E, F)", [("v", ["E"], [W("b"), SP, ("m", ["E", "F"])])]),
}


def grow(ctx, n, known, order):
    """a grammar that is learned rule by rule, with a sentence after every rule, also when rules it needs aren't there yet"""
    text = ctx.str("t", n, "abc ", 1)
    ctx.assume(not "  " in text)
    grammar = GrammarRules(build([a for k in known for a in PARTS[k][1]], "sem"))
    parser = BasicParser(grammar)
    solver = Solver(Model([GrammarModule(grammar)]))
    rules = [a for k in known for a in PARTS[k][1]]
    left = list(order)
    turn = ctx.choice("turn", list(range(len(order))))
    left = left[turn:] + left[:turn]
    if ctx.flag("reverse"):
        left.reverse()
    found = 0
    while True:
        result, exc = ctx.raises(lambda: parser.process(SentenceRequest(text)))
        ctx.check(exc is None, "no crash")
        got = [shape(p.parse_tree, "sem") for p in result.products]
        ctx.check(ctx.same_set(got, licensed(rules, text)), "the readings of the grammar as it is now")
        ctx.check((result.error_type == "") == (len(got) > 0), "an error exactly if there are none")
        if len(got) > found:
            ctx.cover("new reading")
        found = len(got)
        if len(left) == 0:
            break
        name = left.pop(0)
        syntax, added = PARTS[name]
        solver.solve([("learn_grammar_rule", {"syn": syntax, "sem": lambda *args, number=len(rules): number})], {})
        rules.extend(added)


def learned_extras(ctx):
    """the other parts of a learned rule count as well"""
    grammar = GrammarRules(build(GRAMMAR, "sem"))
    solver = Solver(Model([GrammarModule(grammar)]))
    f, g = (lambda: 1), (lambda: 2)
    boost = ctx.int("boost")
    dialog = [("p", "e1")]
    solver.solve([("learn_grammar_rule", {"syn": "n(E) -> 'x' v(E)", "sem": f, "exec": g, "boost": boost, "dialog": dialog})], {})
    trees = BasicParser(grammar).process(SentenceRequest("x c")).products
    ctx.check(len(trees) == 1, "understood")
    rule = trees[0].parse_tree.children[0].rule
    ctx.check(rule.sem is f and rule.exec is g and rule.dialog is dialog, "meaning, execution and inferences")
    ctx.check(ctx.eq(rule.boost, boost), "boost")
    ctx.check(rule.antecedent.predicate == "n" and rule.antecedent.arguments == ["E"] and [c.predicate for c in rule.consequents] == ["x", " ", "v"], "syntax")


def bad_grammar(ctx, n):
    """a rule that is not correct is an error and changes nothing"""
    rule = ctx.choice("rule", [{"syn": "n(E) 'x'"}, {"sem": 1}, {"syn": "n(E -> 'c'"}, {"syn": "n(E) -> 'c' x"}, {}])
    text = ctx.str("t", n, "abc ", 1)
    ctx.assume(not "  " in text)
    grammar = GrammarRules(build(GRAMMAR, "sem"))
    parser = BasicParser(grammar)
    got, exc = ctx.raises(lambda: Solver(Model([GrammarModule(grammar)])).solve([("learn_grammar_rule", rule)], {}))
    ctx.check(exc is not None, "an error")
    result = parser.process(SentenceRequest(text))
    ctx.check(ctx.same_set([shape(p.parse_tree, "sem") for p in result.products], licensed(GRAMMAR, text)), "the grammar is as it was")


def obligations(tier):
    deep = tier == "thorough"
    out = []
    rows = (2, 2) if deep else (1, 2)
    for base in BASE:
        for learn in LEARN:
            for bound in ([], ["X"], ["Y", "Z"], ["X", "Y"]):
                if learn == "fact" and bound != ["X", "Y"]:
                    continue
                if not deep and base == "more" and bound == ["Y", "Z"]:
                    continue
                q = {"of facts": "p", "via": "s"}.get(learn, "r")
                out.append(Ob(f"learn {base} {learn} {''.join(bound)}", learn_one, dict(base=base, learn=learn, bound=bound, rows=rows, query=q), covers=["answers"],
                              bounds=f"p: {rows[0]} rows, q: {rows[1]} rows of arbitrary integers, arbitrary bound values"))
    for first in sorted(LEARN):
        out.append(Ob(f"learn two {first}", learn_two, dict(base="rule", first=first, rows=(1, 1) if not deep else (2, 1)), covers=["answers"],
                      bounds="p: 1-2 rows, q: 1 row, every second rule, 6 combinations of bound variables"))
    out.append(Ob("learn per answer", learn_per_answer, dict(rows=(1, 2)), covers=["done"], bounds="p: 1 row, q: 2 rows"))
    out.append(Ob("facts afterwards", facts_afterwards, covers=["answers"], bounds="1 row each and a stored row"))
    out.append(Ob("bad head", bad_head, bounds="7 kinds of head"))
    for first in LEARNED:
        covers = ["new reading"] if deep or first not in ("new", "use", "arguments") else []
        out.append(Ob(f"grammar {first}", learn_grammar, dict(n=5, first=first, seconds=sorted(LEARNED) if deep else []), covers=covers,
                      bounds="all texts of at most 5 characters of 'abc ', 1 learned rule (thorough: 2)"))
    for first in ("new", "word", "arguments", "optional"):
        out.append(Ob(f"grammar two {first}", learn_grammar, dict(n=4, first=first, seconds=["use", "sentence", "recursive", "same"]), covers=["new reading"],
                      bounds="all texts of at most 4 characters of 'abc ', 2 learned rules"))
    for known, order in ((["s", "n"], ["m", "v", "n with m", "other m"]), (["s", "s of n", "n with m", "v"], ["n", "m", "other m"]), (["m"], ["n", "s of n", "n with m", "other m"]), ([], ["s of n", "n", "m"])):
        out.append(Ob(f"grow from {len(known)} {order[0]}", grow, dict(n=6 if deep else 5, known=known, order=order), covers=["new reading"],
                      bounds=f"all texts of at most {6 if deep else 5} characters of 'abc ', {len(order)} rules learned in several orders"))
    out.append(Ob("learned extras", learned_extras, bounds="arbitrary boost"))
    out.append(Ob("bad grammar", bad_grammar, dict(n=3), bounds="5 faulty rules, all texts of at most 3 characters"))
    return out
