"""C24 with several languages, each sentence is handled by its own language"""
from props.common import *
from props.c15 import Licensed, W, R, SP, build, shape, GRAMMARS
from richard.block.FindAll import FindAll
from richard.block.FindOne import FindOne
from richard.block.TryFirst import TryFirst
from richard.core.System import System
from richard.entity.GrammarRules import GrammarRules
from richard.entity.ProcessResult import ProcessResult
from richard.entity.SentenceRequest import SentenceRequest
from richard.interface.Product import SomeProduct
from richard.interface.SomeProcessor import SomeProcessor
from richard.processor.language_selector.LanguageSelector import LanguageSelector
from richard.processor.language_selector.Multilingual import Multilingual
from richard.processor.parser.BasicParser import BasicParser
from richard.processor.parser.helper.SimpleGrammarRulesParser import SimpleGrammarRulesParser
from richard.processor.semantic_composer.SemanticComposer import SemanticComposer
from richard.processor.semantic_executor.AtomExecutor import AtomExecutor

LOCALES = ["en_US", "nl_NL", "de_DE"]
BLOCKS = {"one": FindOne, "all": FindAll, "first": TryFirst}


class Thing(SomeProduct):
    def __init__(self, value):
        self.value = value

    def get_output(self):
        return self.value

    def log(self, logger):
        pass


class Stub(SomeProcessor):
    """the processor of a language: understands a sentence (in a number of ways) or not"""

    def __init__(self, locale, world):
        super().__init__()
        self.locale = locale
        self.world = world

    def get_name(self):
        return "stub " + self.locale

    def process(self, request):
        self.world.trace.append((self.locale, request.text))
        n = self.world.understood(self.locale, request.text)
        if n == 0:
            return ProcessResult([], "error_" + self.locale, [self.world.code])
        return ProcessResult([Thing((self.locale, request.text, i)) for i in range(n)], "")


class After(SomeProcessor):
    """a later processor, which may not be able to deal with an interpretation"""

    def __init__(self, before, world):
        super().__init__()
        self.before = before
        self.world = world

    def get_name(self):
        return "after"

    def process(self, request):
        value = request.get_current_product(self.before).value
        self.world.trace.append(("after", value))
        if self.world.usable(value):
            return ProcessResult([Thing(("used", value))], "")
        return ProcessResult([], "error_after", [self.world.code])


class World:
    def __init__(self, ctx, most):
        self.ctx = ctx
        self.most = most
        self.memo = {}
        self.trace = []
        self.code = ctx.int("code")

    def understood(self, locale, text):
        key = (locale, text)
        if key not in self.memo:
            self.memo[key] = self.ctx.choice("understood " + locale + " " + text, list(range(self.most + 1)))
        return self.memo[key]

    def usable(self, value):
        if value not in self.memo:
            self.memo[value] = self.ctx.flag("usable " + str(value))
        return self.memo[value]


def expected(world, locales, text, first, second, after):
    """(trace, output, error), as documented"""
    trace = []
    error = None
    output = None
    for locale in locales:
        trace.append((locale, text))
        n = world.understood(locale, text)
        ok = False
        if n == 0:
            error = error or "error_" + locale
        failed = None
        for i in range(n):
            if not after:
                output = (locale, text, i)
                ok = True
            else:
                value = (locale, text, i)
                trace.append(("after", value))
                if world.usable(value):
                    output = ("used", value)
                    ok = True
                else:
                    failed = "error_after"
            if (ok and second == "one") or second == "first":
                break
        if not ok:
            error = error or failed
        if (ok and first == "one") or first == "first":
            break
    return trace, output, error


def dispatch(ctx, first, second, after, most, sentences):
    """the languages are tried in their order, each by its own processor"""
    world = World(ctx, most)
    locales = ctx.choice("locales", [["en_US"], ["nl_NL", "en_US"], ["en_US", "nl_NL"], ["de_DE", "en_US", "nl_NL"], ["nl_NL", "de_DE", "en_US"]])
    stubs = {l: Stub(l, world) for l in LOCALES}
    selector = LanguageSelector(list(locales))
    multi = Multilingual(stubs, selector)
    blocks = [BLOCKS[first](selector), BLOCKS[second](multi)]
    if after:
        blocks.append(FindOne(After(multi, world)))
    errors = {"output_type": []}
    for e in ["error_" + l for l in LOCALES] + ["error_after"]:
        errors["output_" + e] = []
    facts = Facts(errors)
    system = System(model=Model([facts]), input_pipeline=blocks)
    for text in sentences:
        world.trace = []
        facts.written = []
        request = SentenceRequest(text)
        output, exc = ctx.raises(lambda: system.enter(request))
        trace, want, error = expected(world, locales, text, first, second, after)
        ctx.check(exc is None, "no exception")
        ctx.check(world.trace == trace, "the languages in their order, until one succeeds")
        if want is None:
            ctx.cover("not understood")
            ctx.check(output is None and len(facts.written) == 2, "an error if no language succeeds")
            ctx.check(ctx.eq(facts.written, [("output_type", [error]), ("output_" + error, [world.code])]), "the first error")
        else:
            ctx.cover("understood")
            ctx.check(facts.written == [], "no error when a language succeeds")
            if first == "one" and (second == "one" or not after):
                ctx.check(output == want or second == "all", "the result of that language")
            language = want[1][0] if after else want[0]
            if first == "one":
                ctx.check(request.get_current_product(selector).locale == language, "the language is known")
    ctx.check(selector.locales == locales and multi.processors == stubs, "the configuration is left alone")


def missing(ctx):
    """a language without a processor"""
    world = World(ctx, 1)
    locales = ctx.choice("locales", [["en_US"], ["nl_NL", "en_US"], ["en_US", "nl_NL"], ["de_DE", "en_US", "nl_NL"], ["nl_NL", "de_DE"]])
    have = ctx.subset("have", LOCALES)
    selector = LanguageSelector(list(locales))
    multi = Multilingual({l: Stub(l, world) for l in have}, selector)
    request = SentenceRequest("hi")
    result = selector.process(request)
    ctx.check(result.error_type == "" and [p.locale for p in result.products] == locales, "a product for each language")
    ctx.check([p.get_output() for p in result.products] == locales, "its name")
    for p in result.products:
        world.trace = []
        request.set_current_product(selector, p)
        got, exc = ctx.raises(lambda: multi.process(request))
        if p.locale in have:
            ctx.cover("present")
            ctx.check(exc is None and world.trace == [(p.locale, "hi")], "its own processor")
        else:
            ctx.cover("absent")
            ctx.check(exc is not None and p.locale in str(exc) and world.trace == [], "an error that names the language")


def names(ctx, n):
    """the name of a language is not interpreted: 'nl' is not 'nl_NL'"""
    world = World(ctx, 1)
    have = ["nl", "nl_NL", "N"]
    locale = ctx.str("locale", n, "nlNL_", 1)
    selector = LanguageSelector([locale])
    multi = Multilingual({l: Stub(l, world) for l in have}, selector)
    request = SentenceRequest("hi")
    request.set_current_product(selector, selector.process(request).products[0])
    got, exc = ctx.raises(lambda: multi.process(request))
    for l in have:
        if locale == l:
            ctx.cover("present")
            ctx.check(exc is None and world.trace == [(l, "hi")], "its own processor")
            return
    ctx.cover("absent")
    ctx.check(exc is not None and locale in str(exc) and world.trace == [], "an error that names the language")


# the same words mean something else in the second language
ENGLISH = ([("s", ["E"], [("n", ["E"]), SP, ("v", ["E"])]), ("s", ["E"], [("n", ["E"])]), ("n", ["E"], [W("a")]), ("n", ["E"], [W("b")]), ("v", ["E"], [W("b")]), ("v", ["E"], [W("c"), SP, ("n", ["F"])])])
DUTCH = ([("s", ["E"], [("v", ["E"]), SP, ("n", ["E"])]), ("s", ["E"], [("n", ["E"])]), ("n", ["E"], [W("a"), W("c")]), ("n", ["E"], [W("b")]), ("v", ["E"], [W("c")]), ("v", ["E"], [W("b")]),
          ("n", ["E"], [R("[0-9]+")])])


def texts(ctx, n, order):
    """real parsers: the trees of the first language that understands the text"""
    grammars = {"en_US": ENGLISH, "nl_NL": DUTCH}
    selector = LanguageSelector(order)
    multi = Multilingual({l: BasicParser(GrammarRules(build(r, "sem"))) for l, r in grammars.items()}, selector)
    facts = Facts({"output_type": [], "output_unknown_word": [], "output_no_sentence": [], "output_not_understood": []})
    system = System(model=Model([facts]), input_pipeline=[FindOne(selector), FindOne(multi)])
    for turn in range(2):
        text = ctx.str("t", n if turn == 0 else 2, "abc 1" if turn == 0 else "abc ", 0)
        ctx.assume(not "  " in text)
        facts.written = []
        request = SentenceRequest(text)
        tree = system.enter(request)
        done = False
        for l in order:
            want = Licensed(grammars[l], text).trees("s", 1, 0, len(text))
            if not done and len(want) > 0:
                done = True
                ctx.cover(l)
                ctx.check(tree is not None and facts.written == [], "understood")
                ctx.check(request.get_current_product(selector).locale == l, "by the first language that can")
                ctx.check(ctx.member(shape(tree, "sem"), want), "a tree of that language")
                ctx.check(ctx.same_set([shape(p.parse_tree, "sem") for p in request.get_alternative_products(multi)], want), "and all others are of that language")
        if not done:
            ctx.cover("none")
            ctx.check(tree is None and len(facts.written) == 2, "an error is reported")
            alone = BasicParser(GrammarRules(build(grammars[order[0]], "sem"))).process(SentenceRequest(text))
            ctx.check(ctx.eq(facts.written, [("output_type", [alone.error_type]), ("output_" + alone.error_type, alone.error_args)]), "the error of the first language")


def meaning(ctx, order, turns, rows):
    """composing and executing work on the tree of the language"""
    E1, E2 = Variable("E1"), Variable("E2")
    grammars = {
        "en_US": [{"syn": "s(E1) -> 'hot' n(E1)", "sem": lambda n: n + [("hot", E1)]}, {"syn": "n(E1) -> 'a'", "sem": lambda: [("a", E1)]}, {"syn": "n(E1) -> 'b'", "sem": lambda: [("b", E1)]}],
        "nl_NL": [{"syn": "s(E1) -> 'heet' n(E1)", "sem": lambda n: n + [("called", E1)]}, {"syn": "s(E1) -> n(E1) 'hot'", "sem": lambda n: n + [("hot", E1)]},
                  {"syn": "n(E1) -> 'a'", "sem": lambda: [("b", E1)]}],
    }
    tables = {n: int_table(ctx, n, rows if n in ("a", "hot") else 1, 1) for n in ("a", "b", "hot", "called")}
    facts = Facts(dict(tables))
    for n in ("output_type", "output_unknown_word"):
        facts.tables[n] = []
        facts.add_relation(Relation(n, arguments=["x"], query_function=facts.query, write_function=facts.write))
    model = Model([facts])
    selector = LanguageSelector(order)
    multi = Multilingual({l: BasicParser(SimpleGrammarRulesParser().parse_read_grammar(g)) for l, g in grammars.items()}, selector)
    composer = SemanticComposer(multi)
    executor = AtomExecutor(composer, model)
    system = System(model=model, input_pipeline=[FindOne(selector), FindOne(multi), TryFirst(composer), TryFirst(executor)])
    means = {"hot a": ("a", "hot"), "hot b": ("b", "hot"), "heet a": ("b", "called"), "a hot": ("b", "hot"), "hot c": None, "heet b": None}
    for turn in range(turns):
        text = ctx.choice(f"text{turn}", sorted(means))
        request = SentenceRequest(text)
        facts.written = []
        bindings = system.enter(request)
        if means[text] is None:
            ctx.check(bindings is None and len(facts.written) == 2, "not understood")
            continue
        ctx.cover("understood")
        ctx.check(facts.written == [], "understood")
        first, second = means[text]
        values = [list(b.values())[0] for b in bindings]
        for row in tables[first]:
            ctx.check(ctx.iff(ctx.member(row, tables[second]), ctx.member(row[0], values)), "the answers by the meaning in its language")
        for v in values:
            ctx.check(ctx.all_([ctx.member([v], tables[first]), ctx.member([v], tables[second])]), "only those")


def many(ctx, n):
    """many languages: the first that understands"""
    world = World(ctx, 1)
    first = [ctx.int("first"), ctx.int("second")]
    locales = [f"l{i}" if i % 2 else f"L{i // 2}" for i in range(n)]
    world.understood = lambda locale, text: 1 if locales.index(locale) == first[0] or locales.index(locale) == first[1] else 0
    selector = LanguageSelector(list(locales))
    multi = Multilingual({l: Stub(l, world) for l in reversed(locales)}, selector)
    errors = {"output_type": []}
    for l in locales:
        errors["output_error_" + l] = []
    facts = Facts(errors)
    system = System(model=Model([facts]), input_pipeline=[FindOne(selector), FindOne(multi)])
    request = SentenceRequest("hi")
    output = system.enter(request)
    trace, want, error = expected(world, locales, "hi", "one", "one", False)
    ctx.check(world.trace == trace, "the languages in their order, until one succeeds")
    if want is None:
        ctx.cover("not understood")
        ctx.check(output is None and ctx.eq(facts.written, [("output_type", [error]), ("output_" + error, [world.code])]), "the first error")
    else:
        ctx.cover("understood")
        ctx.check(output == want and facts.written == [] and request.get_current_product(selector).locale == want[0], "the result of that language")


def obligations(tier):
    deep = tier == "thorough"
    out = []
    for first in BLOCKS:
        for second in BLOCKS:
            for after in (False, True):
                out.append(Ob(f"{first} {second}{' after' if after else ''}", dispatch,
                              dict(first=first, second=second, after=after, most=2 if not after or deep else 1, sentences=["one", "two", "one"] if not after else ["one", "two"] if deep else ["one"]),
                              covers=["understood", "not understood"], bounds="5 orders of at most 3 languages, each understanding each sentence in 0-2 ways"))
    out.append(Ob("two sentences after", dispatch, dict(first="one", second="one", after=True, most=1, sentences=["one", "two", "one"]), covers=["understood", "not understood"],
                  bounds="5 orders of at most 3 languages, each understanding each sentence or not"))
    out.append(Ob("missing", missing, covers=["present", "absent"], bounds="5 orders, any set of processors"))
    out.append(Ob("names", names, dict(n=6 if deep else 5), covers=["present", "absent"], bounds="any name of at most 5-6 characters of nlNL_"))
    for order in (["en_US", "nl_NL"], ["nl_NL", "en_US"]):
        out.append(Ob(f"texts {order[0]}", texts, dict(n=5 if deep else 4, order=order), covers=["en_US", "nl_NL", "none"], bounds="any text of at most 4-5 characters of 'abc 1', then any of at most 2"))
        out.append(Ob(f"meaning {order[0]}", meaning, dict(order=order, turns=3 if deep else 2, rows=2), covers=["understood"], bounds="any 2-3 out of 6 sentences, facts of arbitrary integers"))
    out.append(Ob("many", many, dict(n=20), covers=["understood", "not understood"], bounds="20 languages, any two of which understand, or one or none"))
    return out
