"""C16 parse trees are tried in the documented order of preference"""
from props.c15 import GRAMMARS, W, R, SP, build, shape
from props.common import *
from richard.core.constants import POS_TYPE_REG_EXP, POS_TYPE_RELATION, POS_TYPE_WORD_FORM
from richard.entity.GrammarRule import GrammarRule
from richard.entity.GrammarRules import GrammarRules
from richard.entity.ParseTreeNode import ParseTreeNode
from richard.entity.RuleConstituent import RuleConstituent
from richard.entity.SentenceRequest import SentenceRequest
from richard.processor.parser.BasicParser import BasicParser
from richard.processor.parser.tree_sort_heuristics.BasicParseTreeSortHeuristics import BasicParseTreeSortHeuristics

ASSUMPTIONS = ["tree shapes: a chain of up to 3 nodes with word and regular expression leaves at any of its nodes"]

WHITE = " \t\n\r\u00a0\x0b"


def leaf(kind):
    """as the parser makes it: a token node, with the text below it"""
    t = POS_TYPE_REG_EXP if kind == "re" else POS_TYPE_WORD_FORM
    rule = GrammarRule(RuleConstituent("a", [], t), [RuleConstituent("a", ["terminal"], POS_TYPE_WORD_FORM)])
    return ParseTreeNode("a", [], "a", rule)


def node(boost, children, name="n"):
    rule = GrammarRule(RuleConstituent(name, [], POS_TYPE_RELATION), [RuleConstituent("a", [], POS_TYPE_WORD_FORM) for c in children], boost=boost)
    return ParseTreeNode(name, children, "", rule)


# (depth, number of regular expression tokens, builder of a tree with the given boosts)
SHAPES = [
    (1, 0, lambda b: node(b[0], [leaf("w")])),
    (1, 1, lambda b: node(b[0], [leaf("re")])),
    (2, 0, lambda b: node(b[0], [node(b[1], [leaf("w")])])),
    (2, 1, lambda b: node(b[0], [leaf("w"), node(b[1], [leaf("re"), leaf("w")])])),
    (2, 2, lambda b: node(b[0], [node(b[1], [leaf("re")]), leaf("re")])),
    (3, 1, lambda b: node(b[0], [node(b[1], [node(0, [leaf("re")])]), leaf("w")])),
    (3, 0, lambda b: node(b[0], [leaf("w"), node(0, [leaf("w"), node(b[1], [leaf("w")])]), node(0, [leaf("w")])])),
    (2, 0, lambda b: node(b[0], [node(b[1], [leaf("w")]), node(0, [leaf("w")])])),
]


def used_boosts(i, b):
    return b[0] if i < 2 else b[0] + b[1]


def before(ctx, x, y):
    """x (total boost, number of regular expressions, depth) goes before y"""
    return ctx.any_([x[0] > y[0],
                     ctx.all_([ctx.eq(x[0], y[0]), ctx.any_([x[1] < y[1], ctx.all_([x[1] == y[1], x[2] > y[2]])])])])


def sorting(ctx, n, shapes, first):
    trees, keys = [], []
    for i in range(n):
        k = first if i == 0 else ctx.choice(f"shape{i}", shapes)
        b = [ctx.int(f"b{i}0"), ctx.int(f"b{i}1")]
        depth, regexps, build_tree = SHAPES[k]
        trees.append(build_tree(b))
        keys.append((used_boosts(k, b), regexps, depth))
    given = list(trees)
    result = BasicParseTreeSortHeuristics().sort_trees(trees)
    ctx.check(len(trees) == n and all([trees[i] is given[i] for i in range(n)]), "the given list is unchanged")
    ctx.check(len(result) == n, "no tree is lost or duplicated")
    index = []
    for t in result:
        found = [i for i in range(n) if t is given[i]]
        ctx.check(len(found) == 1 and found[0] not in index, "the trees themselves, each once")
        index.extend(found)
    ctx.observe("order", index)
    for p in range(n):
        for q in range(p + 1, n):
            i, j = index[p], index[q]
            ctx.check(ctx.not_(before(ctx, keys[j], keys[i])), "ordered by boost, then regular expressions, then depth")
            if i > j:
                ctx.check(before(ctx, keys[i], keys[j]), "ties keep the order")
    ctx.cover("sorted")


DOUBLE = ([("s", ["P"], [("n", ["E"]), SP, ("v", ["P"])]), ("s", ["P"], [W("a"), SP, ("v", ["P"])]), ("s", ["P"], [R("[0-9]+"), SP, ("v", ["P"])]), ("n", ["E"], [("m", ["E"])]), ("n", ["E"], [W("a")]),
           ("n", ["E"], [W("1")]), ("m", ["E"], [W("a")]), ("m", ["E"], [R("[0-9]+")]), ("v", ["P"], [W("b")]), ("v", ["P"], [W("b")])])


def pipeline(ctx, text):
    """the processor delivers the trees in this order, whatever the boosts of the rules"""
    rules = build(DOUBLE, "sem")
    boosts = {}
    for i in ctx.choice("boosted", [[0, 1], [1, 6], [2, 7], [4, 9], [0, 8]]):
        boosts[i] = ctx.int(f"boost{i}")
        rules[i].boost = boosts[i]
    result = BasicParser(GrammarRules(rules)).process(SentenceRequest(text))
    ctx.check(len(result.products) > 2, "several trees")
    keys = []
    for p in result.products:
        def walk(t):
            if t.rule.antecedent.position_type == POS_TYPE_RELATION:
                b, r, d = boosts.get(t.rule.sem(), 0), 0, 0
                for c in t.children:
                    b2, r2, d2 = walk(c)
                    b, r, d = b + b2, r + r2, max(d, d2)
                return b, r, d + 1
            return 0, 1 if t.rule.antecedent.position_type == POS_TYPE_REG_EXP else 0, 0
        keys.append(walk(p.parse_tree))
    for i in range(len(keys) - 1):
        ctx.check(ctx.not_(before(ctx, keys[i + 1], keys[i])), "delivered in the order of preference")
    plain = BasicParser(GrammarRules(build(DOUBLE, "sem"))).process(SentenceRequest(text))
    ctx.check(len(plain.products) == len(result.products), "boosts don't change the set of trees")


def whitespace(ctx, grammar, words, maxlen):
    """any run of whitespace is read as one space"""
    rules = GRAMMARS[grammar][0]
    parser = BasicParser(GrammarRules(build(rules, "sem")))
    parts = ctx.choice("words", words)
    i = ctx.choice("gap", list(range(0, len(parts) + 1)))
    run = ctx.str("run", maxlen, WHITE, 1)
    text, plain = "", ""
    for k, w in enumerate(parts):
        sep = run if k == i else (" " if k > 0 else "")
        text = text + sep + w
        plain = plain + (" " if len(sep) > 0 else "") + w
    if i == len(parts):
        text = text + run
        plain = plain + " "
        ctx.cover("at the end")
    a = parser.process(SentenceRequest(text))
    b = parser.process(SentenceRequest(plain))
    ctx.check(ctx.eq([shape(p.parse_tree, "sem") for p in a.products], [shape(p.parse_tree, "sem") for p in b.products]), "the same trees in the same order")
    ctx.check(ctx.eq([a.error_type, a.error_args], [b.error_type, b.error_args]), "the same error")
    if len(a.products) > 0:
        ctx.cover("understood")


def many(ctx, n):
    """many trees, one with any boost"""
    at = ctx.choice("at", [0, n // 2, n - 1])
    trees, keys = [], []
    for i in range(n):
        k = (i * 5) % len(SHAPES)
        b = [ctx.int("b0") if i == at else (i * 3) % 11 - 5, ctx.int("b1") if i == at else i % 2]
        depth, regexps, build_tree = SHAPES[k]
        trees.append(build_tree(b))
        keys.append((used_boosts(k, b), regexps, depth))
    result = BasicParseTreeSortHeuristics().sort_trees(list(trees))
    index = [[j for j in range(n) if t is trees[j]][0] for t in result]
    ctx.check(sorted(index) == list(range(n)), "the trees themselves, each once")
    for p in range(n - 1):
        i, j = index[p], index[p + 1]
        ctx.check(ctx.not_(before(ctx, keys[j], keys[i])), "ordered by boost, then regular expressions, then depth")
        if i > j:
            ctx.check(before(ctx, keys[i], keys[j]), "ties keep the order")
    ctx.cover("sorted")


def long_tree(ctx, n):
    """large trees: the boosts of all rules count"""
    trees, keys = [], []
    for i in range(3):
        b = ctx.int(f"b{i}")
        levels = n + (i if i < 2 else 0)
        at = ctx.choice(f"at{i}", [0, levels - 1] if i else [0, n // 2, levels - 1])
        t = node(b if at == 0 else 1, [leaf("re" if i == 2 else "w")])
        for k in range(1, levels):
            t = node(b if at == k else 1, [leaf("w"), t] if k % 2 else [t] + [leaf("re") for _ in range(5 if k == 4 else 0)])
        trees.append(t)
        keys.append((b + levels - 1, 6 if i == 2 else 5, levels))
    result = BasicParseTreeSortHeuristics().sort_trees(list(trees))
    index = [[j for j in range(3) if t is trees[j]][0] for t in result]
    ctx.check(sorted(index) == [0, 1, 2], "the trees themselves, each once")
    for p in range(3):
        for q in range(p + 1, 3):
            i, j = index[p], index[q]
            ctx.check(ctx.not_(before(ctx, keys[j], keys[i])), "ordered by boost, then regular expressions, then depth")
            if i > j:
                ctx.check(before(ctx, keys[i], keys[j]), "ties keep the order")


def long_whitespace(ctx, n):
    """long runs, and many of them"""
    parser = BasicParser(GrammarRules(build(GRAMMARS["right"][0], "sem")))
    c = ctx.str("c", 2, WHITE, 1)
    runs = [c if i == n // 2 else WHITE[i % len(WHITE)] * (1 + (i * 37) % 60) for i in range(n)]
    text, plain = "", ""
    for run in runs:
        text, plain = text + "b" + run, plain + "b "
    a, b = parser.process(SentenceRequest(text + "a")), parser.process(SentenceRequest(plain + "a"))
    ctx.check(len(b.products) == 1, "understood")
    ctx.check(ctx.eq([shape(p.parse_tree, "sem") for p in a.products], [shape(p.parse_tree, "sem") for p in b.products]), "the same trees in the same order")


def obligations(tier):
    deep = tier == "thorough"
    out = []
    for first in range(len(SHAPES)):
        out.append(Ob(f"order of three {first}", sorting, dict(n=3, shapes=list(range(8)), first=first), covers=["sorted"], bounds="3 trees, any shapes of the family, any boosts"))
        out.append(Ob(f"order of four {first}", sorting, dict(n=4, shapes=list(range(8)) if deep else [2, 3, 5], first=first), covers=["sorted"],
                      bounds="4 trees of any shapes of the family, any boosts"))
    for text in ("a b", "1 b"):
        out.append(Ob(f"pipeline {text}", pipeline, dict(text=text), bounds="two rules with any boosts"))
    out.append(Ob("whitespace", whitespace, dict(grammar="ambiguous", words=[["a", "b", "c"], ["a", "b"], ["c", "x", "a"], []], maxlen=3 if deep else 2),
                  covers=["understood", "at the end"], bounds="runs of at most 2-3 characters of " + repr(WHITE)))
    out.append(Ob("whitespace regexp", whitespace, dict(grammar="regexp quote", words=[["'a", "a'"], ["'a", "b'", "a"], ["''", "a"]], maxlen=3 if deep else 2),
                  covers=["understood", "at the end"], bounds="runs of at most 2-3 characters of " + repr(WHITE)))
    out.append(Ob("many", many, dict(n=30), covers=["sorted"], bounds="30 trees, any boosts for one of them"))
    out.append(Ob("large trees", long_tree, dict(n=30), bounds="3 trees of about 30 levels, any boost at 2-3 of the levels"))
    out.append(Ob("long whitespace", long_whitespace, dict(n=20), bounds="20 runs of up to 60 characters, any characters in one of them"))
    return out
