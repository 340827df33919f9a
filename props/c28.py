"""C28 logging only observes, and shows what was selected"""
from props.common import *
from props import c22, c26
from richard.block.FindAll import FindAll
from richard.block.FindOne import FindOne
from richard.block.TryFirst import TryFirst
from richard.core.Logger import Logger, nullLogger
from richard.core.System import System
from richard.core.atoms import format_value
from richard.entity.GrammarRule import GrammarRule
from richard.entity.ParseTreeNode import ParseTreeNode
from richard.entity.ProcessResult import ProcessResult
from richard.entity.RuleConstituent import RuleConstituent
from richard.entity.SentenceRequest import SentenceRequest
from richard.interface.Product import SomeProduct
from richard.interface.SomeProcessor import SomeProcessor
from richard.processor.language_selector.LanguageSelector import LanguageSelector
from richard.processor.parser.BasicParserProduct import BasicParserProduct
from richard.processor.semantic_composer.SemanticComposerProduct import SemanticComposerProduct
from richard.processor.semantic_executor.AtomExecutor import AtomExecutor
from richard.processor.semantic_executor.AtomExecutorProduct import AtomExecutorProduct

X = Variable("X")
BLOCKS = {"one": FindOne, "all": FindAll, "first": TryFirst}


def marks(text):
    """the parts between « and », in order"""
    out = []
    part = None
    for c in text:
        if c == "«":
            part = ""
        elif c == "»":
            out.append(part)
            part = None
        elif part is not None:
            part = part + c
    return out


class Marked(SomeProduct):
    def __init__(self, mark):
        self.mark = mark

    def log(self, logger):
        logger.add("«" + self.mark + "»")

    def get_output(self):
        return self.mark


class Step(SomeProcessor):
    """delivers the given products, or an error"""

    def __init__(self, name, alternatives, events):
        super().__init__()
        self.name = name
        self.alternatives = alternatives
        self.events = events
        self.n = 0

    def get_name(self):
        return "«" + self.name + "»"

    def process(self, request):
        products, error = self.alternatives[min(self.n, len(self.alternatives) - 1)]
        self.n += 1
        self.events.append((self, error, [p.mark for p in products]))
        return ProcessResult(products, error)


def settings(ctx, processors, label=""):
    """a logger with any settings, and whether it is active, what it shows of each processor, and whether stats are shown"""
    logger = Logger()
    tests = ctx.choice("tests" + label, ["default", "all", "last", "none", "all then none", "none then last"])
    for step in tests.split(" then "):
        if step == "all":
            logger.log_all_tests()
        elif step == "last":
            logger.log_only_last_test()
        elif step == "none":
            logger.log_no_tests()
    last = ctx.flag("last test" + label)
    logger.is_last_test = last
    active = step == "all" or (step in ("last", "default") and last)
    products = ctx.choice("products" + label, ["none", "all", "some"])
    shown = list(processors)
    if products == "all":
        logger.log_products()
    elif products == "some":
        shown = [p for i, p in enumerate(processors) if ctx.flag(f"show {i}" + label)]
        logger.log_products(*shown)
        if len(shown) == 0:
            shown = list(processors)
    else:
        shown = []
    stats = ctx.flag("stats" + label)
    if stats:
        logger.log_stats()
    return logger, active, shown if active else [], stats and active


def some_settings(ctx, processors):
    logger = Logger()
    kind = ctx.choice("settings", ["all", "last", "not last", "first", "off"])
    if kind == "all":
        logger.log_all_tests()
    if kind == "last" or kind == "first":
        logger.is_last_test = True
    if kind == "off":
        logger.log_no_tests()
    shown = processors[:1] if kind == "first" else processors
    logger.log_products(*([] if kind == "all" else shown))
    logger.log_stats()
    return logger, kind in ("all", "last", "first"), shown if kind in ("all", "last", "first") else [], True


def steps(ctx, events, count):
    """processors, possibly with equal names, with 1-2 outcomes of 0-2 products and an error or not"""
    out = []
    alike = count > 1 and ctx.flag("equal names")
    for i in range(count):
        alternatives = []
        for k in range(2 if i > 0 else 1):
            n, failed = ctx.choice(f"outcome {i}.{k}", [(1, False), (2, False), (0, True), (1, True)] if k == 0 else [(1, False), (0, True)])
            alternatives.append(([Marked(f"{i}.{k}.{j}" + t) for j, t in enumerate(["", "ab"][:n])], "«error " + str(i) + "»" if failed else ""))
        out.append(Step("P" if alike else "P" + str(i), alternatives, events))
    return out


def run(processors, blocks, logger):
    request = SentenceRequest("x", logger) if logger is not None else SentenceRequest("x")
    for p in processors:
        p.n = 0
        p.events.clear()
    pipeline = [BLOCKS[b](p) for b, p in zip(blocks, processors)]
    system = System(input_pipeline=pipeline)
    result = pipeline[0].process(request)
    return (result.error_type, [request.get_current_product(p) for p in processors], [request.get_alternative_products(p) for p in processors], list(processors[0].events))


def selection(ctx, blocks):
    """what is logged of each step, and that it changes nothing"""
    events = []
    processors = steps(ctx, events, len(blocks))
    plain = run(processors, blocks, None)
    logger, active, shown, stats = settings(ctx, processors)
    logged = run(processors, blocks, logger)
    ctx.check(plain == logged, "logging changes nothing")
    ctx.check(len(nullLogger.entries) == 0, "without a logger nothing is kept")
    ctx.check(logger.is_active() == active, "active when selected")
    ctx.check(logger.should_log_stats() == stats, "statistics when selected")
    want = []
    for processor, error, products in plain[3]:
        if any([p is processor for p in shown]):
            want.append(processor.name)
            if error != "":
                want.append(error[1:-1])
            want.extend(products)
    ctx.cover("logged" if len(want) > 0 else "not logged")
    ctx.check(ctx.eq(marks(str(logger)), want), "the log shows what was selected, in order")
    if len(want) == 0:
        ctx.check(str(logger) == "", "nothing else")


def entries(ctx, n, sizes=(0,)):
    """the log is the sequence of what was added"""
    logger = Logger()
    want = []
    for i in range(n):
        size = ctx.choice(f"size{i}", list(sizes))
        text = "«" + ctx.choice(f"filler{i}", ["c", "c ", "c\n"] if size > 0 else [""]) * size + ctx.str(f"text{i}", 2, "ab{%") + "»"
        kind = ctx.choice(f"kind{i}", ["add", "header", "subheader", "comment", "error", "key value", "separator"])
        if kind == "add":
            logger.add(text)
        elif kind == "header":
            logger.add_header(text)
        elif kind == "subheader":
            logger.add_subheader(text)
        elif kind == "comment":
            logger.add_comment(text)
        elif kind == "error":
            logger.add_error(text)
        elif kind == "key value":
            logger.add_key_value("«key»", text)
            want.append("key")
        else:
            number = ctx.choice(f"number{i}", [1, 12, 12345])
            before = str(logger)
            logger.add_test_separator(number)
            ctx.check(str(number) in str(logger)[len(before):], "the number of the test")
            continue
        want.append(text[1:-1])
    ctx.check(ctx.eq(marks(str(logger)), want), "every entry once, in order")
    ctx.check(ctx.eq(str(logger), str(logger)), "reading the log doesn't change it")


# ------------------------------------------------------------------------------------------------ the products

def rule(cat):
    return GrammarRule(RuleConstituent(cat, [], "relation"), [])


def leaf(ctx, name):
    if ctx.flag(name + ".space"):
        return ParseTreeNode("", [], " ", rule("x"))
    return ParseTreeNode("word", [], "«" + ctx.str(name, 1, "ab", 1) + "»", rule("x"))


def tree(ctx, name, depth):
    n = ctx.choice(name + ".children", [1, 2, 3] if depth == 0 else [1, 2])
    children = []
    for i in range(n):
        if depth < 2 and (depth == 0 or i == 0) and ctx.flag(f"{name}.{i}.inner"):
            children.append(tree(ctx, f"{name}.{i}", depth + 1))
        else:
            children.append(leaf(ctx, f"{name}.{i}") if n < 3 and depth < 2 else ParseTreeNode("word", [], "«b" + str(i) + "»", rule("x")))
    return ParseTreeNode("«" + name + "»", children, "", rule("x"))


def nodes(node):
    out = [node.category[1:-1]] if node.category != "" and node.form == "" else []
    if node.form != "" and node.form != " ":
        out.append(node.form[1:-1])
    for c in node.children:
        out.extend(nodes(c))
    return out


def forms(node, d=0):
    """form of each word with its depth"""
    return ([(node.form, d)] if node.form not in ("", " ") else []) + [x for c in node.children for x in forms(c, d + 1)]


def flat(node):
    return [node] + [x for c in node.children for x in flat(c)]


def depths(node, d=0):
    """category of each inner node with its depth"""
    out = [(node.category, d)] if node.form == "" else []
    for c in node.children:
        out.extend(depths(c, d + 1))
    return out


def trees(ctx):
    """the tree in the log shows each of its nodes, in order"""
    t = tree(ctx, "s", 0)
    want = nodes(t)
    text = str(t)
    ctx.check(ctx.eq(marks(text), want), "the printed tree has every node once, in order")
    ctx.check(ctx.eq(marks(t.inline_str()), want), "on a single line as well")
    ctx.check("\n" not in t.inline_str(), "a single line")
    lines = text.split("\n")
    where = {}
    for cat, d in depths(t):
        found = [l for l in lines if cat in l]
        ctx.check(len(found) == 1, "a line for each node")
        if d not in where:
            where[d] = found[0].find(cat)
        ctx.check(found[0].find(cat) == where[d], "nodes of the same depth are below each other")
    ctx.check(all([where[d] < where[d + 1] for d in where if d + 1 in where]), "deeper nodes are indented further")
    for form, d in forms(t):
        found = [l for l in lines if form in l]
        ctx.check(any([l.find("word") > where[d - 1] for l in found]), "leaves are indented further as well")
    spaces = len([x for x in flat(t) if x.form == " "])
    ctx.check(len([l for l in lines if l.endswith("' '")]) == spaces, "spaces too")
    logger = Logger()
    BasicParserProduct(t).log(logger)
    ctx.check(ctx.eq(marks(str(logger)), want), "and so does the log")


def value(ctx, name, depth):
    kind = ctx.choice(name + ".kind", ["text", "variable", "atom", "list", "number"] if depth < 2 else ["text"])
    if kind == "text":
        return "«" + ctx.str(name, 1, "a'\n") + "»"
    if kind == "variable":
        return Variable("«" + name + "»")
    if kind == "number":
        return ctx.choice(name + ".number", [70, 0])
    n = ctx.choice(name + ".size", [0, 1, 2] if depth == 0 else [1])
    parts = [value(ctx, f"{name}{i}", depth + 1) for i in range(n)]
    return ("«" + name + "»", *parts) if kind == "atom" else parts


def texts(v):
    if isinstance(v, str):
        return [v[1:-1]]
    if isinstance(v, Variable):
        return [v.name[1:-1]]
    if isinstance(v, (tuple, list)):
        return [t for x in v for t in texts(x)]
    return []


def numbers(v):
    if isinstance(v, int):
        return [v]
    return [t for x in v for t in numbers(x)] if isinstance(v, (tuple, list)) else []


def meanings(ctx, which):
    """the meaning in the log shows every atom and value, in order"""
    v = [("«p»", value(ctx, "v", 0))]
    ctx.check(ctx.eq(marks(format_value(v)), texts(v)), "every part once, in order")
    text = format_value(v)
    for t in texts(v):
        text = text.replace("«" + t + "»", "")
    ctx.check(text.count("70") == numbers(v).count(70) and text.count("0") == len(numbers(v)), "numbers too")
    other = [("«q»", 1)]
    parts = {"semantics": ({"«first»": other, "«second»": v}, [], []), "same": ({"«first»": v, "«second»": clone(v), "«third»": other}, [], []),
             "inferences": ({"«first»": other}, v, []), "executable": ({"«first»": other}, [], v)}[which]
    product = SemanticComposerProduct(parts[0], parts[1], parts[2], ["«R1»", "«R2»"])
    logger = Logger()
    product.log(logger)
    want = texts(parts[2]) + texts(parts[1]) + ["R1", "R2"]
    previous = None
    for name, sem in parts[0].items():
        if previous is None or not ctx.eq(sem, previous):
            want.append(name[1:-1])
            want.extend(texts(sem))
        previous = sem
    ctx.check(ctx.eq(marks(str(logger)), want), "the log has the meaning")


def answers(ctx, n):
    bindings = []
    for i in range(n):
        bindings.append({k: "«" + ctx.str(f"{k}{i}", 1, "ab'") + "»" for k in ["X", "Y"][:ctx.choice(f"size{i}", [0, 1, 2])]})
    stats = {k: c for k, c in [("«p»", 3), ("«q»", 12)][:ctx.choice("stats", [0, 1, 2])]}
    logger = Logger()
    AtomExecutorProduct(bindings, stats).log(logger)
    ctx.check(ctx.eq(marks(str(logger)), [v[1:-1] for b in bindings for v in b.values()] + [k[1:-1] for k in stats]), "the log has every answer")
    for k in stats:
        ctx.check(len([l for l in str(logger).split("\n") if k in l and str(stats[k]) in l]) == 1, "and the statistics")


def locale(ctx):
    """the language that is tried"""
    name = "«" + ctx.str("name", 5, "nlNL_", 1) + "»"
    logger = Logger()
    logger.log_all_tests()
    logger.log_products()
    names = [name, "«en_US»"]
    selector = LanguageSelector(names)
    SentenceRequest("x", logger).exec_process(selector)
    ctx.check(ctx.eq(marks(str(logger)), [n[1:-1] for n in names]), "the log names each language")


# ------------------------------------------------------------------------------------------------ counting

def statistics(ctx, query):
    """the statistics count how often each relation was consulted, for this sentence"""
    k, l = ctx.int("k", 0, 1), 1
    inferences, actions, queries = c26.family(k, l)
    tables = {"p": int_table(ctx, "p", 2, 1, 0, 1), "q": [[1, 0]]}
    world = c26.World(tables)
    calls = []
    for name in ("p", "q", "mark"):
        def count(values, context, name=name, f=world.relations[name].query_function):
            calls.append(name)
            return f(values, context)
        world.relations[name].query_function = count
    model = Model([world])
    unasked = Solver(model)
    unasked.solve([("p", X)])
    ctx.check(len(unasked.stats) == 0, "no statistics unless asked for")
    calls.clear()
    composer = c26.Given([SemanticComposerProduct({"Semantics": clone(queries[query])}, [], clone(actions[ctx.choice("action", [0, 3, 4, 6])]), [])])
    executor = AtomExecutor(composer, model)
    logger = Logger()
    logger.log_products()
    logger.is_last_test = ctx.flag("last")
    stats = ctx.flag("stats")
    if stats:
        logger.log_stats()
    stats = stats and logger.is_last_test
    for t in range(2):
        request = SentenceRequest("x", logger)
        request.set_current_product(composer, composer.products[0])
        calls.clear()
        before = str(logger)
        result, exc = ctx.raises(lambda: request.exec_process(executor))
        ctx.check((exc is not None) == (query == 7 and "mark" not in calls and "p" in calls and exc is not None), "no other errors")
        if exc is not None:
            return
        found = result.products[0].stats
        for name in ("p", "q", "mark"):
            n = len([c for c in calls if c == name])
            if stats:
                ctx.cover("counted")
                ctx.check((found[name] if name in found else 0) == n, "how often it was consulted")
                if n > 0:
                    lines = [s.strip() for s in str(logger)[len(before):].split("\n")]
                    ctx.check(name + ": " + str(n) in lines, "shown in the log")
            else:
                ctx.check(len(found) == 0, "no statistics unless asked for")


# ------------------------------------------------------------------------------------------------ a whole application

SENTENCES = ["a", "b 1?", "b 2", "a?", "", "b", "x", "b x"]


def whole(ctx, blocks, turns):
    """two copies of an application, one with and one without logging"""
    rows = ["1", "2"][:ctx.choice("rows", [1, 0, 2])]
    quiet = c22.App(ctx, "app", c22.BLOCKS[blocks], True, rows)
    loud = c22.App(ctx, "app", c22.BLOCKS[blocks], True, rows)
    processors = [b.processor for b in loud.system.reader_pipeline]
    logger, active, shown, stats = some_settings(ctx, processors)
    for t in range(turns):
        text = ctx.choice(f"text{t}", SENTENCES) if t < turns - 1 else ctx.str("text", 2, "ab ?1x")
        before = str(logger)
        first, second = SentenceRequest(text), SentenceRequest(text, logger)
        a, b = quiet.system.enter(first), loud.system.enter(second)
        ctx.check(ctx.eq(a is None, b is None), "the same success")
        if a is not None:
            ctx.cover("understood")
            ctx.check(ctx.eq(a, b), "the same answers")
        ctx.check(ctx.eq(quiet.system.read_output(), loud.system.read_output()), "the same output")
        ctx.check(ctx.eq(quiet.facts.tables, loud.facts.tables), "the same facts")
        added = str(logger)[len(before):]
        ctx.check(len(nullLogger.entries) == 0, "without a logger nothing is kept")
        for p in processors:
            tried = second.get_alternative_products(p) != []
            ctx.check((p.get_name() in added) if tried and p in shown else (p.get_name() not in added or p in shown), "the steps that were selected")
    if len(shown) == 0:
        ctx.check(str(logger) == "", "nothing is logged")


def many_entries(ctx, n):
    """many entries, and any text among them"""
    logger = Logger()
    want = []
    at = ctx.choice("at", [0, n // 2, n - 1])
    for i in range(n):
        text = "«" + (ctx.str("text", 2, "ab{%\n") if i == at else f"entry {i % 5}") + "»"
        [logger.add, logger.add_header, logger.add_subheader, logger.add_comment, logger.add_error, lambda t: logger.add_key_value("«key»", t)][i % 6](text)
        want.extend(["key"] if i % 6 == 5 else [])
        want.append(text[1:-1])
    ctx.check(ctx.eq(marks(str(logger)), want), "every entry once, in order")


def obligations(tier):
    deep = tier == "thorough"
    out = []
    for blocks in (["one"], ["all", "one"], ["one", "first"], ["first", "all"]) + ((["one", "all", "one"],) if deep else ()):
        out.append(Ob(f"selection {' '.join(blocks)}", selection, dict(blocks=blocks), covers=["logged", "not logged"],
                      bounds="1-3 steps of at most 2 outcomes, every setting of the logger"))
    out.append(Ob("entries", entries, dict(n=3 if deep else 2), bounds="2-3 entries of 7 kinds, texts of at most 2 characters of ab{%"))
    out.append(Ob("long entries", entries, dict(n=1, sizes=(0, 30, 100, 300, 2500, 20000)), bounds="an entry of 7 kinds, texts of up to 60000 characters"))
    out.append(Ob("trees", trees, bounds="trees of depth 3 with at most 3 children, forms of 1 character"))
    for which in ("semantics", "same", "inferences", "executable"):
        out.append(Ob(f"meanings {which}", meanings, dict(which=which), bounds="atoms and lists of depth 2-3, texts of at most 1 character of a, ', newline"))
    out.append(Ob("answers", answers, dict(n=3 if deep else 2), bounds="2-3 answers of at most 2 variables, texts of at most 1 character"))
    out.append(Ob("locale", locale, bounds="any name of at most 5 characters of nlNL_"))
    for query in (1, 2, 3, 5, 6, 9):
        out.append(Ob(f"statistics {query}", statistics, dict(query=query), covers=["counted"], bounds="2 rows, integers 0 and 1"))
    for blocks in c22.BLOCKS:
        out.append(Ob(f"whole {blocks}", whole, dict(blocks=blocks, turns=3 if deep else 2), covers=["understood"], bounds="one of 8 sentences, then any text of at most 2 characters; 5 settings"))
    out.append(Ob("many entries", many_entries, dict(n=80), bounds="80 entries, any text of at most 2 characters in one of them"))
    return out
