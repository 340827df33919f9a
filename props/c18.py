"""C18 composition connects variables as the grammar says and nowhere else"""
from props.common import *
from richard.core.constants import POS_TYPE_REG_EXP, POS_TYPE_RELATION, POS_TYPE_WORD_FORM
from richard.entity.GrammarRule import GrammarRule
from richard.entity.GrammarRules import GrammarRules
from richard.entity.ParseTreeNode import ParseTreeNode
from richard.entity.ReifiedVariable import ReifiedVariable
from richard.entity.RuleConstituent import RuleConstituent
from richard.entity.SentenceRequest import SentenceRequest
from richard.processor.parser.BasicParser import BasicParser
from richard.processor.parser.BasicParserProduct import BasicParserProduct
from richard.processor.parser.helper.SimpleGrammarRulesParser import SimpleGrammarRulesParser
from richard.processor.parser.helper.grammar_functions import apply
from richard.processor.semantic_composer.SemanticComposer import SemanticComposer
from richard.type.SemanticTemplate import SemanticTemplate

ASSUMPTIONS = ["the arguments of a rule's antecedent are different variables",
               "a reified variable names a variable of the rule's syntax",
               "the exec of a rule replaces what its children contribute to exec (as documented)"]

SLOT = ["__$Slot$__"]
SLOT2 = ["__$Slot2$__"]


class Real:
    """what a grammar's functions use"""

    def var(self, name):
        return Variable(name)

    def name(self, name):
        return ReifiedVariable(name)

    def template(self, slots, body):
        return SemanticTemplate(slots, body)

    def apply(self, template, *values):
        return apply(template, *values)


class Scope:
    """the same, with classes of variables in place of names"""

    def __init__(self, counter, names, incoming):
        self.counter = counter
        self.env = list(zip(names, incoming))

    def lookup(self, name):
        for n, c in self.env:
            if n == name:
                return c
        self.counter.append(len(self.counter))
        self.env.append((name, self.counter[-1]))
        return self.counter[-1]

    def var(self, name):
        return ("<var>", self.lookup(name))

    def name(self, name):
        return ("<name>", self.lookup(name))

    def template(self, slots, body):
        return ("<template>", slots, body)

    def apply(self, template, *values):
        return fill(template[2], list(zip([s[0] for s in template[1]], values)))


def fill(atoms, pairs):
    out = []
    for a in atoms:
        hit = [v for s, v in pairs if isinstance(a, str) and a == s]
        if len(hit) > 0:
            out.extend(hit[0])
        elif isinstance(a, list):
            out.append(fill(a, pairs))
        elif isinstance(a, tuple):
            out.append(tuple([fill([x], pairs)[0] if not isinstance(x, list) else fill(x, pairs) for x in a]))
        else:
            out.append(a)
    return out


class Rule:
    """cat(args) -> cons: a consequent is a word or (cat, args); sem, exec and dialog take (names, kids)"""

    def __init__(self, cat, args, cons, sem, exec=None, dialog=None, fixed_dialog=None):
        self.cat = cat
        self.args = args
        self.cons = cons
        self.sem = sem
        self.exec = exec
        self.dialog = dialog
        self.fixed_dialog = fixed_dialog
        real = Real()
        consequents = [RuleConstituent(c, [], POS_TYPE_WORD_FORM) if isinstance(c, str) else RuleConstituent(c[0], c[1], POS_TYPE_RELATION) for c in cons]
        self.static = fixed_dialog(real) if fixed_dialog else None
        self.rule = GrammarRule(RuleConstituent(cat, args, POS_TYPE_RELATION), consequents, sem=lambda *kids: sem(real, kids),
                                exec=(lambda *kids: exec(real, kids)) if exec else None,
                                dialog=(lambda *kids: dialog(real, kids)) if dialog else self.static if fixed_dialog else [])


class Tree:
    def __init__(self, rule, kids):
        self.rule = rule
        self.kids = kids

    def node(self):
        children = []
        kids = list(self.kids)
        for c in self.rule.cons:
            if isinstance(c, str):
                word = GrammarRule(RuleConstituent(c, [], POS_TYPE_WORD_FORM), [RuleConstituent(c, ["terminal"], POS_TYPE_WORD_FORM)])
                children.append(ParseTreeNode(c, [], c, word))
            else:
                children.append(kids.pop(0).node())
        return ParseTreeNode(self.rule.cat, children, "", self.rule.rule)

    def meaning(self, counter, incoming):
        """(semantics, inferences, executable) with classes"""
        r = self.rule
        scope = Scope(counter, r.args, incoming)
        kids, inferences, executable = [], [], []
        sub = list(self.kids)
        for c in r.cons:
            if isinstance(c, str):
                continue
            sem, inf, exe = sub.pop(0).meaning(counter, [scope.lookup(a) for a in c[1]])
            kids.append(sem)
            inferences = inferences + inf
            executable = executable + exe
        sem = r.sem(scope, kids)
        if r.exec:
            executable = r.exec(scope, kids)
        if r.dialog:
            inferences = inferences + r.dialog(scope, kids)
        elif r.fixed_dialog:
            inferences = inferences + r.fixed_dialog(scope)
        return sem, inferences, executable


class Matcher:
    def __init__(self, ctx):
        self.ctx = ctx
        self.pairs = []

    def same(self, real, ref):
        if isinstance(ref, tuple) and len(ref) > 0 and isinstance(ref[0], str) and ref[0] == "<var>":
            if not isinstance(real, Variable):
                return False
            self.pairs.append((real.name, ref[1]))
            return True
        if isinstance(ref, tuple) and len(ref) > 0 and isinstance(ref[0], str) and ref[0] == "<name>":
            if not isinstance(real, str):
                return False
            self.pairs.append((real, ref[1]))
            return True
        if isinstance(ref, tuple) and len(ref) > 0 and isinstance(ref[0], str) and ref[0] == "<template>":
            return isinstance(real, SemanticTemplate) and real.args == ref[1] and self.same(real.body, ref[2])
        if isinstance(ref, (list, tuple)):
            if isinstance(ref, list) != isinstance(real, list) or isinstance(ref, tuple) != isinstance(real, tuple) or len(real) != len(ref):
                return False
            return all([self.same(a, b) for a, b in zip(real, ref)])
        return self.ctx.eq(real, ref)

    def by_predicate(self, real, ref):
        """lists of atoms with different predicates, in any order"""
        if len(real) != len(ref):
            return False
        for atom in ref:
            found = [a for a in real if isinstance(a, tuple) and a[0] == atom[0]]
            if len(found) != 1 or not self.same(found[0], atom):
                return False
        return True


class Holder:
    def get_name(self):
        return "Parser"


def compose(ctx, composer, tree, label):
    """compose, compare with the reference, and return the variable names that occur"""
    request = SentenceRequest("")
    node = tree.node()
    request.set_current_product(composer.parser, BasicParserProduct(node))
    result = composer.process(request)
    ctx.check(len(result.products) == 1 and result.error_type == "", label + ": one composition")
    product = result.products[0]
    counter = list(range(len(tree.rule.args)))
    sem, inferences, executable = tree.meaning(counter, list(counter))
    m = Matcher(ctx)
    ctx.check(len(product.return_variables) == len(tree.rule.args), label + ": a root variable for each argument")
    for i, v in enumerate(product.return_variables):
        m.pairs.append((v, i))
    ctx.check(m.same(product.get_semantics_last_iteration(), sem), label + ": the meaning has every atom, unchanged but for its variables")
    ctx.check(m.by_predicate(product.inferences, inferences), label + ": the inferences have every atom")
    ctx.check(m.same(product.executable, executable), label + ": the executable has every atom")
    names = {}
    for name, cls in m.pairs:
        ctx.check(ctx.iff(cls in names.values(), name in names), label + ": the same variable exactly when connected")
        if name in names:
            ctx.check(names[name] == cls, label + ": connected as the grammar says")
        names[name] = cls
    ctx.observe(label, sorted([c for n, c in m.pairs]))
    return list(names)


def names(ctx, label, n, letters):
    return [ctx.str(label + str(i), 1, letters, 1) for i in range(n)]


def different(ctx, xs):
    for i in range(len(xs)):
        for j in range(i):
            ctx.assume(not xs[i] == xs[j])


# a few trees; `pick(n)` gives variable names for one of the rules, the others have names that clash

def tree_simple(ctx, which, letters, k, t):
    def pick(rule, defaults):
        return names(ctx, rule, len(defaults), letters) if which and rule in which.split("+") else defaults

    s = pick("s", ["A", "A", "B", "A", "C"])
    np = pick("np", ["B", "A", "B", "A"])
    vp = pick("vp", ["A", "B", "B", "C"])
    different(ctx, vp[:2])
    noun = pick("noun", ["C", "A"])
    n = Rule("noun", [noun[0]], ["x"], lambda v, kids: [("noun", v.var(noun[0]), k), ("of", v.var(noun[1]), t)])
    rnp = Rule("np", [np[0]], ["the", ("noun", [np[1]])], lambda v, kids: [("np", v.var(np[2]))] + kids[0] + [("found", v.var(np[3]), [("deep", v.var("D"), v.var(np[3]))])])
    rvp = Rule("vp", [vp[0], vp[1]], ["sees"], lambda v, kids: [("sees", v.var(vp[0]), v.var(vp[2])), ("not", [("x", v.var(vp[3]), v.var(vp[1]))])])
    rs = Rule("s", [s[0]], [("np", [s[2]]), ("vp", [s[1], s[2]])], lambda v, kids: [("intent", v.name(s[2]), kids[0] + kids[1])] + [("p", v.var(s[3]), v.var(s[4]), k)])
    return Tree(rs, [Tree(rnp, [Tree(n, [])]), Tree(rvp, [])])


def tree_twice(ctx, which, letters, k, t):
    """the same rules at several places"""
    def pick(rule, defaults):
        return names(ctx, rule, len(defaults), letters) if which and rule in which.split("+") else defaults

    s = pick("s", ["A", "A", "B", "B"])
    x = pick("x", ["A", "B", "A"])
    y = pick("y", ["A", "B", "C"])
    rx = Rule("x", [x[0]], [("y", [x[1]])], lambda v, kids: [("x", v.var(x[0]), v.var(x[2]))] + kids[0])
    ry = Rule("y", [y[0]], ["y"], lambda v, kids: [("y", v.var(y[1]), (t, v.var(y[2])), k)])
    rs = Rule("s", [s[0]], [("x", [s[1]]), ("x", [s[2]]), ("y", [s[3]])], lambda v, kids: kids[1] + [("or", [kids[0], kids[1]])] + kids[2])
    return Tree(rs, [Tree(rx, [Tree(ry, [])]), Tree(rx, [Tree(ry, [])]), Tree(ry, [])])


def tree_swap(ctx, which, letters, k, t):
    """arguments in another order, given twice, not used"""
    def pick(rule, defaults):
        return names(ctx, rule, len(defaults), letters) if which and rule in which.split("+") else defaults

    s = pick("s", ["A", "B", "B", "A", "A"])
    different(ctx, s[:2])
    a = pick("a", ["A", "B", "B", "A"])
    different(ctx, a[:2])
    b = pick("b", ["B", "A", "A", "B"])
    different(ctx, b[:2])
    rb = Rule("b", [b[0], b[1]], ["b"], lambda v, kids: [("b", v.var(b[2]), v.var(b[3]))])
    ra = Rule("a", [a[0], a[1]], ["(", ("b", [a[2], a[3]]), ")"], lambda v, kids: kids[0] + [("a", v.var(a[0]), v.var(a[1]), k)])
    rs = Rule("s", [s[0], s[1]], [("a", [s[2], s[3]]), ("b", [s[4], s[4]])], lambda v, kids: kids[0] + [("all", v.var(s[0]), kids[1])])
    return Tree(rs, [Tree(ra, [Tree(rb, [])]), Tree(rb, [])])


def tree_template(ctx, which, letters, k, t):
    """templates with own variables, applied higher up, and values that are not atoms"""
    def pick(rule, defaults):
        return names(ctx, rule, len(defaults), letters) if which and rule in which.split("+") else defaults

    s = pick("s", ["A", "A", "A", "B"])
    np = pick("np", ["A", "B", "A", "C"])
    det = pick("det", ["A", "B"])
    rnumber = Rule("number", [], ["5"], lambda v, kids: k)
    rname = Rule("name", [], ["x"], lambda v, kids: t)
    rdet = Rule("det", [det[0]], [("number", [])], lambda v, kids: v.template([SLOT, SLOT2], [("count", v.var(det[0]), v.var(det[1]), SLOT + SLOT2, kids[0])]))
    rnp = Rule("np", [np[0]], [("det", [np[1]]), ("name", [])],
               lambda v, kids: v.template([SLOT], v.apply(kids[0], [("name", v.var(np[2]), kids[1])], SLOT) + [("local", v.var(np[3]))]))
    rs = Rule("s", [s[0]], [("np", [s[1]])], lambda v, kids: v.apply(kids[0], [("body", v.var(s[2]), [("in", v.var(s[3]))])]) + [("intent", v.name(s[1]))])
    return Tree(rs, [Tree(rnp, [Tree(rdet, [Tree(rnumber, [])]), Tree(rname, [])])])


def tree_exec(ctx, which, letters, k, t):
    """inferences and executables, from functions and fixed"""
    def pick(rule, defaults):
        return names(ctx, rule, len(defaults), letters) if which and rule in which.split("+") else defaults

    s = pick("s", ["A", "A", "B"])
    x = pick("x", ["A", "B", "A"])
    y = pick("y", ["A", "B", "B"])
    ry = Rule("y", [y[0]], ["y"], lambda v, kids: [("y", v.var(y[0]), v.var(y[1]))], exec=lambda v, kids: [("do_y", v.var(y[1]), [("deep", v.var(y[2]))], k)],
              fixed_dialog=lambda v: [("learn_y", v.var(y[0]), v.var(y[1]), t), ("note_y", v.var(y[2]), [("scoped", v.var(y[2]))])])
    rx = Rule("x", [x[0]], [("y", [x[1]])], lambda v, kids: [("x", v.var(x[2]))], exec=(lambda v, kids: kids[0] + [("do_x", v.var(x[1]), v.var(x[2]))]) if ctx.flag("x exec") else None,
              dialog=lambda v, kids: [("learn_x", kids[0], v.var(x[2]), v.var("Z"))])
    rw = Rule("w", [], ["w"], lambda v, kids: [], exec=lambda v, kids: [("do_w", v.var("A"), v.var(x[0]))], fixed_dialog=lambda v: [("learn_w", v.var("A"), k)])
    rs = Rule("s", [s[0]], [("w", []), ("x", [s[1]])], lambda v, kids: [("s", v.var(s[2]))] + kids[1], exec=(lambda v, kids: [("do_s", v.var(s[0]), kids[1])]) if ctx.flag("s exec") else None)
    return Tree(rs, [Tree(rw, []), Tree(rx, [Tree(ry, [])])])


TREES = {"simple": (tree_simple, ["s", "np", "vp", "noun"]), "twice": (tree_twice, ["s", "x", "y"]), "swap": (tree_swap, ["s", "a", "b"]),
         "template": (tree_template, ["s", "np", "det"]), "exec": (tree_exec, ["s", "x", "y"])}


def constants(ctx):
    k = ctx.choice("k", ["int", "zero", "float", "none", "empty"])
    k = {"int": ctx.int("ki"), "zero": 0, "float": 1.5, "none": None, "empty": []}[k]
    return k, ctx.str("t", 2, "A$1'", 0)


def one(ctx, tree, which, letters):
    make, rules = TREES[tree]
    k, t = ctx.int("k"), ctx.str("t", 1, "A$", 0)
    composer = SemanticComposer(Holder())
    compose(ctx, composer, make(ctx, which, letters, k, t), "composition")


def values(ctx, tree):
    """constants and texts are left as they are"""
    k, t = constants(ctx)
    composer = SemanticComposer(Holder())
    compose(ctx, composer, TREES[tree][0](ctx, None, "", k, t), "composition")


def again(ctx, first, second):
    """sentences after one another: all variables are new, and the grammar is as it was"""
    k = ctx.int("k")
    t = ctx.str("t", 1, "A$", 0)
    trees = [TREES[first][0](ctx, ctx.choice("symbolic", [None, "s"]), "ABC", k, t), TREES[second][0](ctx, None, "", k, t)]
    order = ctx.choice("order", [[0, 1, 0], [0, 0, 1], [1, 0, 1]])
    statics = [clone(static_parts(tree)) for tree in trees]
    composer = SemanticComposer(Holder())
    seen = set()
    for i in order:
        found = compose(ctx, composer, trees[i], "composition")
        for n in found:
            ctx.check(not n in seen, "a variable of a sentence is not one of another sentence")
        seen.update(found)
        ctx.check(ctx.eq([static_parts(tree) for tree in trees], statics), "the grammar is not altered")


def static_parts(tree):
    out = [tree.rule.static, tree.rule.args, [c if isinstance(c, str) else [c[0], list(c[1])] for c in tree.rule.cons], list(tree.rule.rule.antecedent.arguments),
           [list(c.arguments) for c in tree.rule.rule.consequents]]
    for kid in tree.kids:
        out.extend(static_parts(kid))
    return out


def fixed_meaning(ctx):
    """a rule whose functions return the same list every time"""
    sem = [("p", Variable("A"), [("q", Variable("B"))])]
    exe = [("e", Variable("A"))]
    inf = [("i", Variable("B"))]
    keep = clone([sem, exe, inf])
    rule = GrammarRule(RuleConstituent("s", ["A"], POS_TYPE_RELATION), [RuleConstituent("x", ["A"], POS_TYPE_RELATION)], sem=lambda x: sem, exec=lambda x: exe, dialog=inf)
    kid = GrammarRule(RuleConstituent("x", ["B"], POS_TYPE_RELATION), [RuleConstituent("w", [], POS_TYPE_WORD_FORM)], sem=lambda: sem, exec=lambda: exe, dialog=inf)
    word = ParseTreeNode("w", [], "w", GrammarRule(RuleConstituent("w", [], POS_TYPE_WORD_FORM), []))
    node = ParseTreeNode("s", [ParseTreeNode("x", [word], "", kid)], "", rule)
    composer = SemanticComposer(Holder())
    shapes = []
    for i in range(3):
        request = SentenceRequest("")
        request.set_current_product(composer.parser, BasicParserProduct(node))
        product = composer.process(request).products[0]
        ctx.check(len(product.inferences) == 2 and len(product.executable) == 1, "every atom once")
        shapes.append([product.get_semantics_last_iteration(), product.inferences, product.executable, [Variable(v) for v in product.return_variables]])
        ctx.check([sem, exe, inf] == keep, "the grammar's own lists are not altered")
    for s in shapes[1:]:
        ctx.check(renaming(shapes[0], s, {}, {}), "the same up to the names of variables")


def repeated(ctx, kids):
    """constituents may contribute the same atom: it occurs as often as it is contributed"""
    v = [ctx.int(f"v{i}") for i in range(kids + 1)]
    fixed = ctx.flag("fixed")
    nodes = []
    for i in range(kids):
        inf = [("i", v[i])] + ([("i", v[i])] if ctx.flag(f"twice{i}") else [])
        rule = GrammarRule(RuleConstituent("x", [], POS_TYPE_RELATION), [RuleConstituent("w", [], POS_TYPE_WORD_FORM)], sem=lambda i=i: [("m", v[i])],
                           dialog=inf if fixed else lambda inf=inf: list(inf))
        word = ParseTreeNode("w", [], "w", GrammarRule(RuleConstituent("w", [], POS_TYPE_WORD_FORM), []))
        nodes.append((ParseTreeNode("x", [word], "", rule), inf))
    top = [("i", v[kids])]
    rule = GrammarRule(RuleConstituent("s", [], POS_TYPE_RELATION), [RuleConstituent("x", [], POS_TYPE_RELATION)] * kids, sem=lambda *parts: [a for p in parts for a in p],
                       exec=lambda *parts: [("e", p) for p in parts], dialog=top if fixed else lambda *parts: top)
    composer = SemanticComposer(Holder())
    request = SentenceRequest("")
    request.set_current_product(composer.parser, BasicParserProduct(ParseTreeNode("s", [n for n, inf in nodes], "", rule)))
    product = composer.process(request).products[0]
    want = [a for n, inf in nodes for a in inf] + top
    real = product.inferences
    ctx.check(len(real) == len(want), "every inference as often as it is contributed")
    for w in want:
        ctx.check(ctx.count([ctx.eq(a, w) for a in real]) == ctx.count([ctx.eq(a, w) for a in want]), "each of the inferences")
    ctx.check(ctx.eq(product.get_semantics_last_iteration(), [("m", v[i]) for i in range(kids)]), "the meaning, in order")
    ctx.check(ctx.eq(product.executable, [("e", [("m", v[i])]) for i in range(kids)]), "the executable, in order")


def renaming(a, b, there, back):
    if isinstance(a, Variable) and isinstance(b, Variable):
        if a.name in there or b.name in back:
            return there.get(a.name) == b.name and back.get(b.name) == a.name
        there[a.name] = b.name
        back[b.name] = a.name
        return True
    if isinstance(a, (list, tuple)):
        return type(a) == type(b) and len(a) == len(b) and all([renaming(x, y, there, back) for x, y in zip(a, b)])
    return a == b


def from_text(ctx, n):
    """a parsed sentence with a name: the text of the name is unchanged, also if it looks like a variable"""
    E1, E2 = Variable("E1"), Variable("E2")
    grammar = SimpleGrammarRulesParser().parse_read_grammar([
        {"syn": "s(E1) -> name(E1) 'sees'? name(E2)", "sem": lambda a, b: a + b + [("sees", E1, E2)]},
        {"syn": "name(E1) -> /[^ ]+/", "sem": lambda text: [("name", E1, text)]},
    ])
    a, b = ctx.str("a", n, "E1$x", 1), ctx.str("b", n, "E1$x", 1)
    parser = BasicParser(grammar)
    composer = SemanticComposer(parser)
    request = SentenceRequest(a + " sees " + b)
    trees = parser.process(request).products
    ctx.check(len(trees) == 1, "one reading")
    request.set_current_product(parser, trees[0])
    product = composer.process(request).products[0]
    got = product.get_semantics_last_iteration()
    ctx.check(len(got) == 3, "all atoms")
    v1, v2 = got[2][1], got[2][2]
    ctx.check(isinstance(v1, Variable) and isinstance(v2, Variable) and v1.name != v2.name and product.return_variables == [v1.name], "two variables, the first is the root")
    ctx.check(ctx.eq(got, [("name", v1, a), ("name", v2, b), ("sees", v1, v2)]), "the names as written")


def missing(ctx):
    """a rule without meaning is reported"""
    grammar = SimpleGrammarRulesParser().parse_read_grammar([
        {"syn": "s(E1) -> a(E1) b(E1)"} if ctx.flag("s") else {"syn": "s(E1) -> a(E1) b(E1)", "sem": lambda a, b: []},
        {"syn": "a(E1) -> 'a'", "sem": lambda: []},
        {"syn": "b(E1) -> 'b'"} if ctx.flag("b") else {"syn": "b(E1) -> 'b'", "sem": lambda: []},
    ])
    parser = BasicParser(grammar)
    request = SentenceRequest("a b")
    request.set_current_product(parser, parser.process(request).products[0])
    got, exc = ctx.raises(lambda: SemanticComposer(parser).process(request))
    complete = all([r.sem is not None for c in "sab" for r in grammar.find_rules(c, 1)])
    ctx.check(ctx.iff(exc is None, complete), "reported")
    if exc is not None:
        ctx.cover("reported")
        ctx.check("sem" in str(exc), "with the missing part")


def nesting(ctx, n, kind):
    """a deep tree, or a rule with many constituents"""
    k = ctx.int("k")
    a, b = ctx.choice("names", [("A", "B"), ("B", "A"), ("B", "C"), ("A", "A")])
    if kind == "deep":
        tree = Tree(Rule("x", ["A", "B"], ["w"], lambda v, kids: [("leaf", v.var("A"), v.var("B"), v.var("C"), k)]), [])
        for i in range(n):
            rule = Rule("x", ["A", "B"], ["(", ("x", [a, b])], lambda v, kids, i=i: kids[0] + [("n", v.var("A"), v.var("C"), i)] + ([("in", v.var("B"), [("deep", v.var(b))])] if i % 5 == 0 else []),
                        exec=(lambda v, kids: kids[0] + [("do", v.var(a), k)]) if i % 2 else None, dialog=(lambda v, kids: [("learn", v.var("B"), k)]) if i == n - 1 else None)
            tree = Tree(rule, [tree])
    else:
        leaf = Rule("x", ["A", "B"], ["w"], lambda v, kids: [("leaf", v.var("A"), v.var("B"), v.var("C"), k)], exec=lambda v, kids: [("do", v.var("B"), v.var("Z"))])
        names = [[a, b] if i == n // 2 else [f"V{i}", f"V{i + 1}"] for i in range(n)]
        tree = Tree(Rule("s", ["A", "B"], [("x", m) for m in names], lambda v, kids: [e for kid in kids for e in kid] + [("s", v.var("V1"), v.var("B"))]), [Tree(leaf, []) for i in range(n)])
    compose(ctx, SemanticComposer(Holder()), tree, "composition")


def repeated_many(ctx, kids):
    """many constituents with inferences, some the same"""
    v = [ctx.int(f"v{i % 3}") if i % 8 == 0 else i for i in range(kids)]
    nodes = []
    for i in range(kids):
        rule = GrammarRule(RuleConstituent("x", [], POS_TYPE_RELATION), [RuleConstituent("w", [], POS_TYPE_WORD_FORM)], sem=lambda i=i: [("m", v[i])], dialog=[("i", v[i], 0)] * (1 + i % 2))
        word = ParseTreeNode("w", [], "w", GrammarRule(RuleConstituent("w", [], POS_TYPE_WORD_FORM), []))
        nodes.append(ParseTreeNode("x", [word], "", rule))
    rule = GrammarRule(RuleConstituent("s", [], POS_TYPE_RELATION), [RuleConstituent("x", [], POS_TYPE_RELATION)] * kids, sem=lambda *parts: [a for p in parts for a in p],
                       exec=lambda *parts: [("e", p) for p in parts])
    composer = SemanticComposer(Holder())
    request = SentenceRequest("")
    request.set_current_product(composer.parser, BasicParserProduct(ParseTreeNode("s", nodes, "", rule)))
    product = composer.process(request).products[0]
    want = [("i", v[i], 0) for i in range(kids) for j in range(1 + i % 2)]
    ctx.check(len(product.inferences) == len(want), "every inference as often as it is contributed")
    ctx.check(ctx.same_set([list(a) for a in product.inferences], [list(a) for a in want]), "each of the inferences")
    ctx.check(ctx.eq(product.get_semantics_last_iteration(), [("m", v[i]) for i in range(kids)]), "the meaning, in order")
    ctx.check(ctx.eq(product.executable, [("e", [("m", v[i])]) for i in range(kids)]), "the executable, in order")


def obligations(tier):
    deep = tier == "thorough"
    out = []
    for t, (make, rules) in TREES.items():
        for r in rules:
            letters = "ABCDZ" if deep else "ABCD"
            out.append(Ob(f"{t} {r}", one, dict(tree=t, which=r, letters=letters), bounds=f"any variable names out of {letters} for the rule {r}; arbitrary constants"))
        for i, r in enumerate(rules):
            for q in rules[:i]:
                out.append(Ob(f"{t} {q}+{r}", one, dict(tree=t, which=q + "+" + r, letters="ABC" if deep else "AB"),
                              bounds=f"any variable names out of AB (thorough: ABC) for the rules {q} and {r}; arbitrary constants"))
        out.append(Ob(f"values {t}", values, dict(tree=t), bounds="5 kinds of constant, texts of at most 2 characters"))
    for first in TREES:
        for second in TREES:
            if not deep and (list(TREES).index(first) + list(TREES).index(second)) % 2 == 1:
                continue
            out.append(Ob(f"again {first} {second}", again, dict(first=first, second=second), bounds="3 sentences, any variable names out of ABC for the main rule"))
    for kids in (1, 2) + ((3,) if tier == "thorough" else ()):
        out.append(Ob(f"repeated {kids}", repeated, dict(kids=kids), bounds=f"{kids} constituents with arbitrary integers"))
    out.append(Ob("fixed meaning", fixed_meaning, bounds="3 compositions"))
    out.append(Ob("from text", from_text, dict(n=3 if deep else 2), bounds="names of at most 2-3 characters"))
    out.append(Ob("missing", missing, covers=["reported"], bounds="4 grammars"))
    for kind, n in (("deep", 30), ("wide", 25)):
        out.append(Ob(kind, nesting, dict(n=n, kind=kind), bounds=f"{n} levels or constituents, 4 name pairs"))
    out.append(Ob("repeated many", repeated_many, dict(kids=30), bounds="30 constituents"))
    return out
