"""C26 a sentence's inferences, actions and query run once, in that order"""
from props.common import *
from richard.block.FindAll import FindAll
from richard.block.FindOne import FindOne
from richard.block.TryFirst import TryFirst
from richard.core.Logger import Logger
from richard.core.System import System
from richard.core.constants import e1
from richard.entity.ProcessResult import ProcessResult
from richard.entity.SentenceRequest import SentenceRequest
from richard.interface.SomeProcessor import SomeProcessor
from richard.processor.parser.BasicParser import BasicParser
from richard.processor.parser.helper.SimpleGrammarRulesParser import SimpleGrammarRulesParser
from richard.processor.semantic_composer.SemanticComposer import SemanticComposer
from richard.processor.semantic_composer.SemanticComposerProduct import SemanticComposerProduct
from richard.processor.semantic_composer.optimizer.BasicQueryOptimizer import BasicQueryOptimizer
from richard.processor.semantic_executor.AtomExecutor import AtomExecutor

X, Y, Z = Variable("X"), Variable("Y"), Variable("Z")
NAMES = ("p", "q")


class Boom(Exception):
    pass


class World(SomeModule):
    """tables that can be added to; everything that happens is recorded"""

    def __init__(self, tables):
        super().__init__()
        self.tables = {k: [list(r) for r in v] for k, v in tables.items()}
        self.events = []
        for name in tables:
            self.add_relation(Relation(name, arguments=["a", "b"][:1 if name == "p" else 2], query_function=self.query, write_function=self.write))
        self.add_relation(Relation("mark", arguments=["n"], query_function=self.mark, write_function=self.write))
        self.add_relation(Relation("boom", arguments=["n"], query_function=self.boom, write_function=self.boom))

    def query(self, values, context):
        name = context.relation.predicate
        return [list(r) for r in self.tables[name] if all([v is None or v == c for v, c in zip(values, r)])]

    def write(self, values, context):
        name = context.relation.predicate
        self.events.append(("write", name, list(values)))
        if name in self.tables:
            self.tables[name].append(list(values))

    def mark(self, values, context):
        self.events.append(("mark", values[0]))
        return [[None]]

    def boom(self, values, context):
        self.events.append(("boom", values[0]))
        raise Boom("boom")


class Reference:
    """what should happen"""

    def __init__(self, tables):
        self.tables = {k: [list(r) for r in v] for k, v in tables.items()}
        self.events = []

    def put(self, atom, env):
        if atom[0] == "boom":
            self.events.append(("boom", atom[1]))
            raise Boom()
        values = [env.get(a.name) if is_var(a) else a for a in atom[1:]]
        self.events.append(("write", atom[0], values))
        if atom[0] in self.tables:
            self.tables[atom[0]].append(values)

    def solve(self, atoms, env):
        if len(atoms) == 0:
            return [env]
        out = []
        for e in self.atom(atoms[0], env):
            out.extend(self.solve(atoms[1:], e))
        return out

    def atom(self, atom, env):
        if atom[0] == "mark":
            self.events.append(("mark", env.get(atom[1].name) if is_var(atom[1]) else atom[1]))
            return [env]
        if atom[0] == "boom":
            self.events.append(("boom", atom[1]))
            raise Boom()
        if atom[0] == "store":
            for a in atom[1]:
                self.put(a, env)
            return [env]
        if atom[0] == "not":
            return [env] if len(self.solve(atom[1], env)) == 0 else []
        out = []
        for row in list(self.tables[atom[0]]):
            e = dict(env)
            ok = True
            for a, c in zip(atom[1:], row):
                if is_var(a):
                    if a.name not in e:
                        e[a.name] = c
                    elif not e[a.name] == c:
                        ok = False
                elif not a == c:
                    ok = False
            if ok and e not in out:
                # the same answer twice is one answer
                out.append(e)
        return out

    def run(self, inferences, actions, query):
        """(answers or None, failed)"""
        try:
            for a in inferences:
                self.put(a, {})
            self.solve(actions, {})
            return self.solve(query, {}), False
        except Boom:
            return None, True


def family(k, l):
    """inferences, actions and queries"""
    inferences = [[], [("p", k)], [("p", k), ("q", k, l)], [("mark", 1), ("p", l), ("mark", 2)], [("p", k), ("boom", 1), ("p", l)], [("q", l, k), ("q", l, k)]]
    actions = [[], [("mark", 3)], [("store", [("p", l)]), ("mark", 4)], [("p", X), ("store", [("q", X, k)])], [("q", X, Y), ("mark", Y), ("store", [("p", Y), ("p", X)])],
               [("p", X), ("boom", 2)], [("not", [("p", k)]), ("store", [("p", k)])], [("p", k), ("p", l), ("mark", 5)], [("store", [("mark", 6)]), ("store", [("mark", 7)])],
               [("boom", 3)], [("store", [("p", k), ("boom", 4), ("p", l)])]]
    queries = [[], [("p", X)], [("p", X), ("q", X, Y)], [("q", Y, X), ("mark", X)], [("mark", 8), ("p", k)], [("not", [("p", k)])], [("p", X), ("store", [("q", X, X)]), ("q", X, Y)],
               [("p", X), ("boom", 5)], [("mark", 9), ("mark", 10)], [("p", X), ("p", Y), ("q", X, Y), ("q", Y, X)]]
    return inferences, actions, queries


class Given(SomeProcessor):
    """delivers given products in place of the composer"""

    def __init__(self, products):
        super().__init__()
        self.products = products

    def get_name(self):
        return "given"

    def process(self, request):
        return ProcessResult(self.products, "")


def compare(ctx, world, ref, got, exc, want, failed, label=""):
    ctx.check(ctx.eq(world.events, ref.events), "everything once, and in order" + label)
    ctx.check((exc is not None) == failed, "an error is reported, and only then" + label)
    if failed:
        ctx.cover("failed")
        ctx.check(isinstance(exc, Boom), "the error itself" + label)
        return
    ctx.cover("executed")
    if len(want) > 0:
        ctx.cover("answers")
    bindings = got.products[0].bindings
    ctx.check(got.error_type == "" and len(got.products) == 1 and got.products[0].get_output() == bindings, "one result" + label)
    ctx.check(ctx.same_set([visible(b) for b in bindings], want), "the answers of the meaning" + label)
    ctx.check(ctx.distinct(bindings) if len(want) == 0 or len(want[0]) > 0 else True, "each once" + label)


def execute(ctx, inference, action, rows, times=1, stats=False):
    k, l = ctx.int("k"), ctx.int("l")
    inferences, actions, queries = family(k, l)
    tables = {"p": int_table(ctx, "p", rows, 1), "q": int_table(ctx, "q", 1, 2)}
    world = World(tables)
    ref = Reference(tables)
    logger = Logger()
    if stats:
        logger.log_stats()
        logger.log_all_tests()
    for t in range(times):
        q = ctx.choice(f"query{t}", list(range(len(queries))))
        steps = {"first": [("mark", 100)], "last": clone(queries[q])}
        if times == 1 and inference % 2 == 0:
            steps = {"Semantics": clone(queries[q])}
        product = SemanticComposerProduct(steps, clone(inferences[inference]), clone(actions[action]), [])
        composer = Given([product])
        request = SentenceRequest("x", logger)
        request.set_current_product(composer, product)
        executor = AtomExecutor(composer, Model([world]))
        got, exc = ctx.raises(lambda: executor.process(request))
        want, failed = ref.run(inferences[inference], actions[action], queries[q])
        compare(ctx, world, ref, got, exc, want, failed)
        ctx.check(ctx.eq([product.inferences, product.executable, product.get_semantics_last_iteration()], [inferences[inference], actions[action], queries[q]]), "the meaning is left alone")


def alternatives(ctx, block):
    """each interpretation is executed once; the others are not"""
    k, l = ctx.int("k"), ctx.int("l")
    tables = {"p": int_table(ctx, "p", 1, 1), "q": int_table(ctx, "q", 1, 2)}
    world = World(tables)
    ref = Reference(tables)
    parts = [([("p", k)], [("mark", 1)], [("p", X)]), ([("q", k, l)], [("p", X), ("mark", X)], [("q", X, Y)]), ([], [("store", [("p", l)])], [])]
    chosen = [parts[ctx.choice(f"alternative{i}", [0, 1, 2])] for i in range(2)]
    composer = Given([SemanticComposerProduct({"Semantics": q}, i, a, []) for i, a, q in chosen])
    executor = AtomExecutor(composer, Model([world]))
    system = System(model=Model([world]), input_pipeline=[block(composer), TryFirst(executor)])
    got = system.enter(SentenceRequest("x"))
    for n in range(2 if block is FindAll else 1):
        want, failed = ref.run(*chosen[n])
    ctx.check(ctx.eq(world.events, ref.events), "each interpretation that is tried once")
    ctx.check(ctx.same_set(got, want), "the answers of the last one")
    ctx.cover("answers")


def whole(ctx, optimize, turns):
    """from the rules of a grammar to the answers"""
    k = ctx.int("k")
    E1, E2 = Variable("E1"), Variable("E2")
    grammar = SimpleGrammarRulesParser().parse_read_grammar([
        {"syn": "s(E1) -> 'tell' n(E1)", "sem": lambda n: [("p", E1)], "exec": lambda n: [("mark", 1), ("store", n)]},
        {"syn": "s(E1) -> 'ask' n(E2)", "sem": lambda n: [("q", E1, E2), ("p", E1)], "dialog": [("mark", 2), ("p", k)]},
        {"syn": "s(E1) -> 'do'", "sem": lambda: [], "exec": lambda: [("p", E1), ("mark", E1), ("store", [("q", E1, E1)])]},
        {"syn": "s(E1) -> 'note' n(E1)", "sem": lambda n: [("p", E1), ("mark", 4)], "dialog": lambda n: n + [("q", k, k)], "exec": lambda n: [("not", n), ("mark", 5)]},
        {"syn": "s(E1) -> 'fail'", "sem": lambda: [("p", E1)], "dialog": [("boom", 1)]},
        {"syn": "n(E1) -> 'it'", "sem": lambda: [("p", k)], "dialog": [("mark", 3)]},
    ])
    tables = {"p": int_table(ctx, "p", 1, 1), "q": int_table(ctx, "q", 2, 2)}
    world = World(tables)
    model = Model([world])
    parser = BasicParser(grammar)
    composer = SemanticComposer(parser, query_optimizer=BasicQueryOptimizer(model) if optimize else None)
    executor = AtomExecutor(composer, model)
    system = System(model=model, input_pipeline=[FindOne(parser), TryFirst(composer), TryFirst(executor)])
    it = [("p", k)]
    meanings = {
        "tell it": ([("mark", 3)], [("mark", 1), ("store", it)], [("p", X)]),
        "ask it": ([("mark", 3), ("mark", 2), ("p", k)], [], [("q", X, Y), ("p", X)]),
        "do": ([], [("p", X), ("mark", X), ("store", [("q", X, X)])], []),
        "note it": ([("mark", 3), ("p", k), ("q", k, k)], [("not", it), ("mark", 5)], [("p", X), ("mark", 4)]),
        "fail": ([("boom", 1)], [], [("p", X)]),
    }
    ref = Reference(tables)
    for t in range(turns):
        text = ctx.choice(f"text{t}", sorted(meanings))
        request = SentenceRequest(text)
        _, exc = ctx.raises(lambda: system.enter(request))
        want, failed = ref.run(*meanings[text])
        if not optimize or text != "note it":
            ctx.check(ctx.eq(world.events, ref.events), "everything once, and in order")
        else:
            # the optimizer may have moved the last mark
            ctx.check(ctx.eq(world.events[:len(ref.events) - 3], ref.events[:len(ref.events) - 3]), "in order")
            ref.events = list(world.events)
        ctx.check((exc is not None) == failed, "an error is reported")
        if failed:
            ctx.cover("failed")
            continue
        ctx.cover("answers")
        bindings = request.get_current_product(executor).bindings
        roots = request.get_current_product(composer).return_variables
        found = [b[roots[0]] for b in bindings if roots[0] in b]
        ctx.check(ctx.same_set(found, [w["X"] for w in want if "X" in w]), "the answers of the meaning")
        ctx.check((len(bindings) > 0) == (len(want) > 0), "success only if there are answers")


def many(ctx, n):
    """many inferences, actions and conditions, an error in any of them"""
    at = ctx.int("at", -1, 3 * n)
    k = ctx.int("k")

    def atoms(kind, first):
        return [("boom", first + i) if at == first + i else (kind, k if i % 5 == 0 else i) for i in range(n)]

    inferences = atoms("p", 0)
    actions = [("store", [a]) if i % 4 == 0 else a for i, a in enumerate(atoms("mark", n))]
    query = [("mark", 0)] + atoms("mark", 2 * n) + [("p", k)]
    world, ref = World({"p": [[n]], "q": []}), Reference({"p": [[n]], "q": []})
    product = SemanticComposerProduct({"Semantics": clone(query)}, clone(inferences), clone(actions), [])
    composer = Given([product])
    request = SentenceRequest("x", Logger())
    request.set_current_product(composer, product)
    got, exc = ctx.raises(lambda: AtomExecutor(composer, Model([world])).process(request))
    want, failed = ref.run(inferences, actions, query)
    compare(ctx, world, ref, got, exc, want, failed)


def obligations(tier):
    deep = tier == "thorough"
    out = []
    for i in range(6):
        for a in range(11):
            fails = i == 4 or a in (5, 9, 10)
            out.append(Ob(f"execute {i} {a}", execute, dict(inference=i, action=a, rows=2 if deep else 1, stats=a % 2 == 0), covers=["failed"] if fails else ["executed", "answers", "failed"],
                          bounds="any of 10 queries, tables of 1-2 rows of arbitrary integers"))
    for i, a in ((0, 2), (1, 3), (3, 6), (2, 4)):
        out.append(Ob(f"twice {i} {a}", execute, dict(inference=i, action=a, rows=1, times=2), covers=["executed", "answers", "failed"], bounds="two sentences with any of 10 queries, one row of arbitrary integers"))
    for name, block in (("one", FindOne), ("all", FindAll), ("first", TryFirst)):
        out.append(Ob(f"alternatives {name}", alternatives, dict(block=block), covers=["answers"], bounds="two interpretations of 3 kinds, arbitrary integers"))
    for optimize in (False, True):
        out.append(Ob(f"whole {optimize}", whole, dict(optimize=optimize, turns=3 if deep else 2), covers=["answers", "failed"], bounds="2-3 sentences out of 5, tables of arbitrary integers"))
    out.append(Ob("many", many, dict(n=20), covers=["executed", "failed"], bounds="20 inferences, 20 actions, 20 conditions, an error in any one of them or none"))
    return out
