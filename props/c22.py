"""C22 every sentence gets a readable answer and leaves the system usable"""
from props.common import *
from props.c15 import Licensed, W, R, SP
from richard.block.FindAll import FindAll
from richard.block.FindOne import FindOne
from richard.block.TryFirst import TryFirst
from richard.core.BasicGenerator import BasicGenerator
from richard.core.System import System
from richard.core.constants import e1
from richard.entity.SentenceRequest import SentenceRequest
from richard.grammar.en_us_write import get_en_us_write_grammar
from richard.module.BasicOutputBuffer import BasicOutputBuffer
from richard.module.InferenceModule import InferenceModule
from richard.module.helper.SimpleInferenceRuleParser import SimpleInferenceRuleParser
from richard.processor.parser.BasicParser import BasicParser
from richard.processor.parser.helper.SimpleGrammarRulesParser import SimpleGrammarRulesParser
from richard.processor.semantic_composer.SemanticComposer import SemanticComposer
from richard.processor.semantic_composer.optimizer.BasicQueryOptimizer import BasicQueryOptimizer
from richard.processor.semantic_executor.AtomExecutor import AtomExecutor

ASSUMPTIONS = ["the application's meanings use predicates that the model has, and its write grammar words every output the meanings store",
               "the model of the application is the one in the harness: greeting, yes/no question, list, statement and number"]

E1, E2, X, Body = [Variable(n) for n in ["E1", "E2", "X", "Body"]]

INTENTS = """
intent_yn(Body) :- ( scoped(Body), store(output_type('yes')) ; store(output_type('no')) ).
intent_list(X, Body) :- find_all(X, Body, Elements), store(output_type('list'), output_list(Elements)).
intent_hi() :- store(output_type('hi')).
intent_tell(X) :- store(p(X)), store(output_type('ok')).
"""

# grammar: (read rules as written, the same as (category, variables, parts), letters)
READ = {
    "app": ([
        {"syn": "s() -> 'a'", "sem": lambda: [("intent_hi",)]},
        {"syn": "s(E1) -> 'b' num(E1)+'?'", "sem": lambda num: [("intent_yn", num + [("p", E1)])]},
        {"syn": "s(E1) -> 'b' num(E1)", "sem": lambda num: [], "exec": lambda num: num + [("intent_tell", E1)]},
        {"syn": "s(E1) -> 'a'+'?'", "sem": lambda: [("intent_list", e1, [("p", E1)])]},
        {"syn": "num(E1) -> /[0-9]+/", "sem": lambda text: [("equals", E1, text)]},
    ], [("s", [], [W("a")]), ("s", ["E1"], [W("b"), SP, ("num", ["E1"]), W("?")]), ("s", ["E1"], [W("b"), SP, ("num", ["E1"])]),
        ("s", ["E1"], [W("a"), W("?")]), ("num", ["E1"], [R("[0-9]+")])], "aB ?1x"),
    "ambiguous": ([
        {"syn": "s(E1) -> n(E1) n(E2)", "sem": lambda a, b: [("intent_yn", a + b)]},
        {"syn": "s(E1) -> n(E1)+n(E2)+'b'", "sem": lambda a, b: [("intent_yn", a + b)]},
        {"syn": "n(E1) -> 'a'", "sem": lambda: [("p", E1)]},
        {"syn": "n(E1) -> 'a' n(E1)", "sem": lambda n: n},
        {"syn": "n(E1) -> 'a' 'a'", "sem": lambda: [("missing", E1)]},
    ], [("s", ["E1"], [("n", ["E1"]), SP, ("n", ["E2"])]), ("s", ["E1"], [("n", ["E1"]), ("n", ["E2"]), W("b")]), ("n", ["E1"], [W("a")]),
        ("n", ["E1"], [W("a"), SP, ("n", ["E1"])]), ("n", ["E1"], [W("a"), SP, W("a")])], "ab x"),
    "marks": ([
        {"syn": "s() -> '?'+'a'", "sem": lambda: [("intent_hi",)]},
        {"syn": "s() -> '!'+'.'+'?'", "sem": lambda: [("intent_hi",)]},
        {"syn": "s() -> '!' '!' '!' 'a'", "sem": lambda: [("intent_hi",)]},
    ], [("s", [], [W("?"), W("a")]), ("s", [], [W("!"), W("."), W("?")]), ("s", [], [W("!"), SP, W("!"), SP, W("!"), SP, W("a")])], "?!. a"),
}
WRITE = [
    {"syn": "s() -> 'Hi'", "if": [("output_type", "hi")]},
    {"syn": "s() -> 'Yes'", "if": [("output_type", "yes")]},
    {"syn": "s() -> 'No'", "if": [("output_type", "no")]},
    {"syn": "s() -> 'OK'", "if": [("output_type", "ok")]},
    {"syn": "s() -> 'List:' format(E1)", "if": [("output_type", "list"), ("output_list", E1)], "format": lambda elements: ",".join(elements)},
]


class App:
    def __init__(self, ctx, which, blocks, optimize, rows):
        raw, self.rules, self.letters = READ[which]
        self.ctx = ctx
        self.which = which
        self.p = [[r] for r in rows]
        self.buffer = BasicOutputBuffer()
        inferences = InferenceModule()
        for rule in SimpleInferenceRuleParser().parse(INTENTS)[0]:
            inferences.insert_rule(rule)
        self.facts = Facts({"p": [[r] for r in rows], "missing": []})
        self.facts.relations["p"].write_function = self.store
        self.model = Model([self.facts, inferences, self.buffer])
        parser = BasicParser(SimpleGrammarRulesParser().parse_read_grammar(raw))
        composer = SemanticComposer(parser, query_optimizer=BasicQueryOptimizer(self.model) if optimize else None)
        executor = AtomExecutor(composer, self.model)
        generator = BasicGenerator(SimpleGrammarRulesParser().parse_write_grammar(get_en_us_write_grammar() + WRITE), self.model, self.buffer)
        self.system = System(model=self.model, output_generator=generator,
                             input_pipeline=[b(p) for b, p in zip(blocks, [parser, composer, executor])])

    def store(self, values, context):
        self.facts.tables["p"].append(list(values))

    def say(self, text):
        """enter a text and give the answer"""
        _, exc = self.ctx.raises(lambda: self.system.enter(SentenceRequest(text)))
        self.ctx.check(exc is None, "no text is too much for the system")
        out, exc = self.ctx.raises(lambda: self.system.read_output())
        self.ctx.check(exc is None, "there is an answer")
        self.ctx.check(isinstance(out, str) and len(out) > 0, "a readable answer")
        for name in self.buffer.relations:
            rel = self.buffer.relations[name]
            self.ctx.check(self.buffer.data_source.select(name, rel.arguments, [None for a in rel.arguments]) == [], "nothing of the answer is left behind")
        return out

    def expected(self, text):
        """the answer, as documented"""
        plain = squeeze(text)
        ref = Licensed(self.rules, plain)
        trees = ref.trees("s", 0, 0, len(plain)) + ref.trees("s", 1, 0, len(plain))
        if len(plain) == 0:
            self.ctx.cover("no sentence")
            return "No sentence given"
        if len(trees) == 0:
            stop = ref.furthest()
            if stop == len(plain):
                self.ctx.cover("too short")
                return "Sorry, I don't understand"
            self.ctx.cover("unknown word")
            return "Could not understand: " + plain[stop:stop + 9] + " ..."
        self.ctx.cover("understood")
        return self.understood(trees)

    def understood(self, trees):
        if self.which == "ambiguous":
            # a reading with 'missing' fails; which reading is taken first is up to the heuristics
            answers = ["Yes" if len(self.p) > 0 and not uses_missing(t) else "No" for t in trees]
            return answers
        kind = trees[0][0]
        if kind == 0 or self.which == "marks":
            return "Hi"
        if kind == 3:
            return "List: " + ",".join([r[0] for r in unique(self.p)])
        number = trees[0][1][2][1][0][2]
        if kind == 1:
            found = False
            for r in self.p:
                if r[0] == number:
                    found = True
            return "Yes" if found else "No"
        self.p.append([number])
        return "OK"


def uses_missing(tree):
    return tree[0] == 4 or any([uses_missing(c) for c in tree[1] if not isinstance(c[0], str)])


def unique(rows):
    out = []
    for r in rows:
        if r not in out:
            out.append(r)
    return out


def squeeze(text):
    """runs of whitespace as one space"""
    out = ""
    for c in text:
        if c in " \t\n\r":
            if not out.endswith(" "):
                out = out + " "
        else:
            out = out + c
    return out


def fits(ctx, answer, want):
    return ctx.member(answer, want) if isinstance(want, list) else ctx.eq(answer, want)


BLOCKS = {"one first first": [FindOne, TryFirst, TryFirst], "first": [TryFirst, TryFirst, TryFirst], "one": [FindOne, FindOne, FindOne]}


def texts(ctx, which, blocks, optimize, n, prefix, alphabet):
    app = App(ctx, which, BLOCKS[blocks], optimize, [ctx.str("row", 1, "01", 1)])
    text = prefix + ctx.str("t", n, alphabet or app.letters, 0)
    want = app.expected(text)
    answer = app.say(text)
    ctx.observe("answer", answer)
    ctx.check(fits(ctx, answer, want), "the documented answer")


def two(ctx, which, first, n):
    """the second answer depends on the second text (and on what was learned) only"""
    app = App(ctx, which, BLOCKS["one first first"], True, ["1"])
    for text in (ctx.choice("first", first), ctx.str("t", n, app.letters, 0), "b 1?" if which == "app" else "a a"):
        want = app.expected(text)
        ctx.check(fits(ctx, app.say(text), want), "the documented answer")


def unread(ctx, n):
    """the answer may not be worded: an error, after which the next sentence is answered as usual"""
    app = App(ctx, "app", BLOCKS["first"], True, ["1"])
    broken = ctx.choice("broken", ["unknown type", "two values", "no rule", "format"])
    k = ctx.int("k")
    atoms = {"unknown type": [("output_type", "nothing")], "two values": [("output_type", "value"), ("output_value", k)],
             "no rule": [("output_value", k)], "format": [("output_type", "list"), ("output_list", k)]}[broken]
    solver = Solver(app.model)
    for a in atoms:
        solver.write_atom(a)
    out, exc = ctx.raises(lambda: app.system.read_output())
    ctx.check(exc is not None, "it is reported that there are no words for the output")
    text = ctx.str("t", n, app.letters, 0)
    ctx.check(fits(ctx, app.say(text), app.expected(text)), "the documented answer")


def long_dialog(ctx, n):
    """a dialog of many sentences, and any text in the middle"""
    app = App(ctx, "app", BLOCKS["one first first"], True, ["1"])
    texts = ["a", "b 1", "b 2?", "a?", "", "x", f"b 33", "b 33?", "b"]
    for i in range(n):
        text = ctx.str("t", 2, "ab1? ", 0) if i == n // 2 else texts[(i * 5) % 9]
        want = app.expected(text)
        ctx.check(fits(ctx, app.say(text), want), "the documented answer")


def longest(ctx, n):
    """long texts: understood, or shown from where the understanding stopped"""
    app = App(ctx, "app", BLOCKS["first"], True, ["1"])
    c = ctx.str("c", 1, "1 ?xa", 0)
    kind = ctx.choice("kind", ["digits", "spaces", "rest", "number"])
    text = {"digits": "b " + "12" * n + c + "?", "spaces": "a" + " " * n + c, "rest": "b 1" + c + "x" * n, "number": "b " + "7" * n + c}[kind]
    want = app.expected(text)
    ctx.check(fits(ctx, app.say(text), want), "the documented answer")


def obligations(tier):
    deep = tier == "thorough"
    out = []
    all_ = ["understood", "unknown word", "no sentence", "too short"]
    for blocks in BLOCKS:
        for optimize in (False, True):
            n = 6 if deep else 5
            out.append(Ob(f"app {blocks} {optimize}", texts, dict(which="app", blocks=blocks, optimize=optimize, n=n, prefix="", alphabet=None), covers=all_,
                          bounds=f"all texts of at most {n} characters of {READ['app'][2]!r}"))
    out.append(Ob("app question", texts, dict(which="app", blocks="one first first", optimize=True, n=5 if deep else 4, prefix="b ", alphabet="012?a "), covers=all_[:2] + all_[3:],
                  bounds="'b ' and any text of at most 4-5 characters"))
    out.append(Ob("any character", texts, dict(which="app", blocks="one first first", optimize=True, n=4 if deep else 3, prefix="",
                                               alphabet="ab1? \t\n'\"\\%$(){}[]+*/-_.,;:<>=E\u00e9\u4e2d\u0130\u00df"), covers=all_, bounds="all texts of at most 3-4 characters of 31"))
    out.append(Ob("long", texts, dict(which="app", blocks="one first first", optimize=True, n=3, prefix="b 0123456", alphabet="7x? "), covers=["understood", "unknown word"],
                  bounds="long texts with any rest of at most 3 characters"))
    out.append(Ob("long unknown", texts, dict(which="app", blocks="first", optimize=True, n=3, prefix="a 012345", alphabet="6x? "), covers=["unknown word"],
                  bounds="long texts with any rest of at most 3 characters"))
    for blocks in BLOCKS:
        out.append(Ob(f"ambiguous {blocks}", texts, dict(which="ambiguous", blocks=blocks, optimize=True, n=8 if deep else 7, prefix="", alphabet=None), covers=all_,
                      bounds="all texts of at most 7-8 characters of ab x"))
    out.append(Ob("marks", texts, dict(which="marks", blocks="one first first", optimize=True, n=5 if deep else 4, prefix="", alphabet=None), covers=all_,
                  bounds="all texts of at most 4-5 characters of ?!. a; sentences that start with punctuation"))
    out.append(Ob("long marks", texts, dict(which="marks", blocks="first", optimize=False, n=4, prefix="! !", alphabet=" !a?"), covers=["understood", "too short", "unknown word"],
                  bounds="'! !' and any text of at most 4 characters"))
    firsts = ["a", "", "x", "b", "b 1", "b 2?", "a?", "b 3", "\n", "a x"]
    for f in firsts:
        out.append(Ob(f"two {f!r}", two, dict(which="app", first=[f], n=5 if deep else 4), covers=["understood"], bounds=f"{f!r}, then any text of at most 4-5 characters, then a question"))
    out.append(Ob("two ambiguous", two, dict(which="ambiguous", first=["a a", "a", "x", "a a a"], n=3), covers=["understood"], bounds="4 first texts, then any text of at most 3 characters, then a question"))
    out.append(Ob("unread", unread, dict(n=2), covers=["understood"], bounds="4 outputs without words, then any text of at most 2 characters"))
    out.append(Ob("long dialog", long_dialog, dict(n=40), covers=all_, bounds="40 sentences, any text of at most 2 characters in the middle"))
    out.append(Ob("long texts", longest, dict(n=60), covers=["understood", "unknown word"], bounds="4 kinds of text of 60-120 characters, any character in it"))
    return out
