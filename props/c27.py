"""C27 understanding a sentence does not depend on earlier sentences"""
from props.common import *
from props.c15 import GRAMMARS, build, shape
from props.c18 import renaming
from props.c20 import sized
from richard.block.FindOne import FindOne
from richard.block.TryFirst import TryFirst
from richard.core.System import System
from richard.core.constants import e1
from richard.entity.GrammarRules import GrammarRules
from richard.entity.SentenceRequest import SentenceRequest
from richard.processor.parser.BasicParser import BasicParser
from richard.processor.parser.helper.SimpleGrammarRulesParser import SimpleGrammarRulesParser
from richard.processor.semantic_composer.SemanticComposer import SemanticComposer
from richard.processor.semantic_composer.optimizer.BasicQueryOptimizer import BasicQueryOptimizer
from richard.type.SemanticTemplate import SemanticTemplate

E1, E2, E3, Body = [Variable(n) for n in ["E1", "E2", "E3", "Body"]]

ASSUMPTIONS = ["the functions of the grammar rules depend on their arguments only"]


def dump(grammar):
    """everything a grammar consists of"""
    out = []
    for cat in grammar.index:
        for n in grammar.index[cat]:
            for r in grammar.index[cat][n]:
                out.append((cat, n, r.boost, id(r.sem), id(r.exec), clone(r.dialog) if isinstance(r.dialog, list) else id(r.dialog),
                            [(c.predicate, list(c.arguments), c.position_type, c.optional) for c in [r.antecedent] + r.consequents]))
    return out


def parsing(ctx, grammar, prior, n, m):
    """the same trees in the same order, and the same errors, after any other texts"""
    rules, letters, size = GRAMMARS[grammar]
    rules_again = build(rules, "sem")
    parser = BasicParser(GrammarRules(build(rules, "sem")))
    before = dump(parser.grammar)
    text = ("a b" if grammar == "ambiguous" else "") + ctx.str("t", n, letters, 0)
    fresh = BasicParser(GrammarRules(rules_again)).process(SentenceRequest(text))
    history = [ctx.choice("prior", prior), ctx.str("other", m, letters, 0), text] if m > 0 else [ctx.choice("prior", prior), text]
    results = []
    for t in history:
        results.append(parser.process(SentenceRequest(t)))
    twice = parser.process(SentenceRequest(text))
    want = [shape(p.parse_tree, "sem") for p in fresh.products]
    for r in (results[len(results) - 1], twice):
        ctx.check(ctx.eq([shape(p.parse_tree, "sem") for p in r.products], want), "the same trees in the same order")
        ctx.check(ctx.eq([r.error_type, r.error_args], [fresh.error_type, fresh.error_args]), "the same error")
    ctx.check(dump(parser.grammar) == before, "the grammar is left alone")
    ctx.cover("understood" if len(want) > 0 else "not understood")


def story_rules():
    return [
        {"syn": "s(E1) -> n(E1) 'on'? v(E1, E2)", "sem": lambda *a: a[0] + a[-1] + [("said", E1, E3)], "dialog": [("topic", e1)]},
        {"syn": "s(E1) -> n(E1)+'!'", "sem": lambda n: [("call", n, E2)], "exec": lambda n: [("do", E1, n)], "dialog": lambda n: n},
        {"syn": "s(E1, E2) -> n(E1) n(E2)", "sem": lambda a, b: a + b + [("not", [("same", E1, E2), ("p", E3)])]},
        {"syn": "v(E1, E2) -> 'b'", "sem": lambda: [("r", E1, E2), ("r", E2, E3)]},
        {"syn": "v(E1, E2) -> 'b' n(E2)", "sem": lambda n: [("r", E1, E2)] + n},
        {"syn": "n(E1) -> 'a'", "sem": lambda: STATIC},
        {"syn": "n(E1) -> 'c'", "sem": lambda: [("q", E1, E2)], "boost": 1},
        {"syn": "n(E1) -> 'c'", "sem": lambda: [("p", E1)], "dialog": [("isa", e1, "c")]},
        {"syn": "n(E1) -> 'x'", "sem": lambda: [][1]},
        {"syn": "n(E1) -> 'y'"},
    ]


STATIC = [("p", E1), ("p", E2)]


class Line:
    """a parser, a composer and an optimizer"""

    def __init__(self, optimize):
        sizes = {"p": (100, [10]), "q": (50, [50, 5]), "r": (1000, [30, 30]), "said": (5, [5, 5])}
        model = Model([sized(Facts({n: [] for n in sizes}), sizes)])
        self.parser = BasicParser(SimpleGrammarRulesParser().parse_read_grammar(story_rules()))
        self.composer = SemanticComposer(self.parser, query_optimizer=BasicQueryOptimizer(model) if optimize else None)

    def understand(self, text):
        """(error or None, the meanings of all trees)"""
        request = SentenceRequest(text)
        result = self.parser.process(request)
        out = []
        for product in result.products:
            request.set_current_product(self.parser, product)
            try:
                p = self.composer.process(request).products[0]
                out.append((product.parse_tree.inline_str(), p.get_semantics_last_iteration(), p.inferences, p.executable, [Variable(v) for v in p.return_variables]))
            except Exception as e:
                out.append((product.parse_tree.inline_str(), [("exception", type(e).__name__, str(e))], [], [], []))
        return (result.error_type, result.error_args), out


def names(x):
    if isinstance(x, Variable):
        return {x.name}
    if isinstance(x, (list, tuple)):
        out = set()
        for y in x:
            out |= names(y)
        return out
    return {x} if isinstance(x, str) and x[0:1] == "$" else set()


def reify(x):
    """reified variables as variables, to compare them up to renaming"""
    if isinstance(x, str) and x[0:1] == "$":
        return ("reified", Variable(x))
    if isinstance(x, tuple):
        return tuple([reify(y) for y in x])
    if isinstance(x, list):
        return [reify(y) for y in x]
    return x


def alike(ctx, a, b):
    ctx.check(ctx.eq(a[0], b[0]), "the same error")
    ctx.check(len(a[1]) == len(b[1]), "as many trees")
    for x, y in zip(a[1], b[1]):
        ctx.check(x[0] == y[0], "the same trees in the same order")
        ctx.check(renaming(reify(list(x[1:])), reify(list(y[1:])), {}, {}), "the same meaning up to variable names")


WORDS = ["a b", "c!", "a c", "x!", "y!", "c on b c", "a d", "", "a", "c b a"]


def meaning(ctx, optimize, first, n, extra):
    """the same meanings after any other sentences, with variables of their own"""
    line = Line(optimize)
    text = ctx.str("t", n, "abc! x", 0) if n > 0 else ctx.choice("text", WORDS)
    static = clone(STATIC)
    want = Line(optimize).understand(text)
    used = set()
    for t in [first] + [ctx.choice(f"other{i}", WORDS) for i in range(extra)] + [text, text]:
        got = line.understand(t)
        if t is text:
            alike(ctx, got, want)
            if len(got[1]) > 0:
                ctx.cover("understood")
        for m in got[1]:
            mine = names(list(m[1:]))
            ctx.check(len(mine & used) == 0, "no variable of another sentence")
            used |= mine
    ctx.check(STATIC == static, "the meanings in the grammar are left alone")


def same_request(ctx):
    """the alternatives of one sentence don't influence each other either"""
    line = Line(ctx.flag("optimize"))
    text = ctx.choice("text", ["c b c", "c c", "c!", "c on b c"])
    want = {}
    request = SentenceRequest(text)
    products = line.parser.process(request).products
    order = ctx.choice("order", [list(range(len(products))), list(reversed(range(len(products)))), [0, 0] + list(range(len(products)))])
    for i in order:
        request.set_current_product(line.parser, products[i])
        p = line.composer.process(request).products[0]
        m = [p.get_semantics_last_iteration(), p.inferences, p.executable, [Variable(v) for v in p.return_variables]]
        other = Line(line.composer.query_optimizer is not None)
        r2 = SentenceRequest(text)
        r2.set_current_product(other.parser, other.parser.process(r2).products[i])
        q = other.composer.process(r2).products[0]
        ctx.check(renaming(reify(m), reify([q.get_semantics_last_iteration(), q.inferences, q.executable, [Variable(v) for v in q.return_variables]]), {}, {}), "the meaning of that tree")


def many(ctx, optimize, n):
    """after many sentences"""
    line = Line(optimize)
    text = ctx.str("t", 2, "abc! ", 0) if ctx.flag("any") else ctx.choice("text", WORDS)
    want = Line(optimize).understand(text)
    used = set()
    for i in range(n):
        got = line.understand(WORDS[(i * 7) % len(WORDS)] if i % 3 else "a " * (i % 8) + "b" * (i % 5))
        for m in got[1]:
            used |= names(list(m[1:]))
    got = line.understand(text)
    alike(ctx, got, want)
    for m in got[1]:
        ctx.check(len(names(list(m[1:])) & used) == 0, "no variable of another sentence")
    ctx.cover("understood" if len(got[1]) > 0 else "not understood")


def obligations(tier):
    deep = tier == "thorough"
    out = []
    priors = {"ambiguous": ["a b c", "x", ""], "left": ["a+(a)", "a+", "("], "ambiguous left": ["a+b+a+a", "a++"], "regexp": ["12 A", "b b", "5"], "regexp split": ["abab1", "ab"],
              "regexp quote": ["'a' a", "''"], "argument counts": ["ab!", "a"], "prefixes": ["abc", "bcc"], "doubles": ["ab"], "case": ["ABB"], "word as category": ["sa"], "units": ["xx"]}
    for g in priors:
        out.append(Ob(f"parsing {g}", parsing, dict(grammar=g, prior=priors[g], n=4 if deep else 3, m=2 if deep else 1), covers=["understood", "not understood"],
                      bounds="a text of 1-3, any text of at most 1-2 characters, and then any text of at most 3-4 characters"))
    for optimize in (False, True):
        for first in WORDS:
            out.append(Ob(f"meaning {optimize} {first}", meaning, dict(optimize=optimize, first=first, n=4 if deep else 3, extra=1 if deep else 0), covers=["understood"],
                          bounds=f"{first!r} (and another of 10 sentences), and then any text of at most 3-4 characters, twice"))
        out.append(Ob(f"sentences {optimize}", meaning, dict(optimize=optimize, first="a b", n=0, extra=2), covers=["understood"], bounds="any 4 sentences out of 10"))
    out.append(Ob("same request", same_request, bounds="4 sentences with several trees, in 3 orders"))
    for optimize in (False, True):
        out.append(Ob(f"many {optimize}", many, dict(optimize=optimize, n=60), covers=["understood"], bounds="60 sentences, then any text of at most 2 characters"))
    return out
