"""C15 the parser returns exactly the parse trees the grammar allows"""
from props.common import *
from richard.core.constants import POS_TYPE_REG_EXP, POS_TYPE_RELATION, POS_TYPE_WORD_FORM, NO_SENTENCE, NOT_UNDERSTOOD, UNKNOWN_WORD
from richard.entity.GrammarRule import GrammarRule
from richard.entity.GrammarRules import GrammarRules
from richard.entity.RuleConstituent import RuleConstituent
from richard.entity.SentenceRequest import SentenceRequest
from richard.processor.parser.BasicParser import BasicParser
from richard.processor.parser.earley.EarleyParser import EarleyParser

ASSUMPTIONS = ["grammars without empty constituents and without cycles of unit rules",
               "regular expressions of the family are greedy character class sequences; their meaning is written by hand in the harness"]

DIGITS = "0123456789"
SMALL = "abcdefghijklmnopqrstuvwxyz"


def digits(t):
    return len(t) > 0 and all([c in DIGITS for c in t])


def name(t):
    return len(t) > 0 and t[0] in "ABC" and all([c in "abc" for c in t[1:]])


def two(t):
    return len(t) == 2 and all([c in "ab" for c in t])


def optional(t):
    return t == "a" or t == "ab"


def quoted(t):
    return len(t) >= 2 and t[0] == "'" and t[len(t) - 1] == "'" and all([c != "'" for c in t[1:len(t) - 1]])


REGEXPS = {"[0-9]+": digits, "[A-C][a-c]*": name, "[ab][ab]": two, "ab?": optional, "'[^']*'": quoted}


class W:
    def __init__(self, word):
        self.word = word


class R:
    def __init__(self, exp):
        self.exp = exp


# rule: (category, variables, consequents); a consequent is (category, variables), W or R
SP = W(" ")
GRAMMARS = {
    "ambiguous": ([("s", ["P"], [("n", ["E"]), SP, ("v", ["P", "E"])]), ("s", ["P"], [("n", ["E"]), SP, W("b"), SP, ("n", ["F"])]),
                   ("v", ["P", "E"], [W("b"), SP, ("n", ["E"])]), ("n", ["E"], [("m", ["E"])]), ("n", ["E"], [W("a")]), ("m", ["E"], [W("a")]), ("m", ["E"], [W("c")])],
                  "abc ", 6),
    "left": ([("s", ["E"], [("e", ["E"])]), ("e", ["E"], [("e", ["E"]), W("+"), ("t", ["E"])]), ("e", ["E"], [("t", ["E"])]),
              ("t", ["E"], [W("a")]), ("t", ["E"], [W("("), ("e", ["E"]), W(")")])], "a+()", 6),
    "ambiguous left": ([("s", ["E"], [("s", ["E"]), W("+"), ("s", ["E"])]), ("s", ["E"], [W("a")]), ("s", ["E"], [W("b")])], "ab+", 7),
    "right": ([("s", [], [("x", [])]), ("x", [], [W("a"), ("x", [])]), ("x", [], [W("b"), SP, ("x", [])]), ("x", [], [W("a")])], "ab ", 6),
    "centre": ([("s", [], [("x", ["A"])]), ("x", ["A"], [W("a"), ("x", ["A"]), W("b")]), ("x", ["A"], [W("c")]), ("x", ["A"], [W("a"), ("x", ["B"]), W("c")])], "abc", 6),
    "prefixes": ([("s", [], [("w", []), ("w", [])]), ("s", [], [("w", [])]), ("w", [], [W("a")]), ("w", [], [W("ab")]), ("w", [], [W("abc")]), ("w", [], [W("bc")]), ("w", [], [W("c")])],
                 "abc", 5),
    "regexp": ([("s", ["E"], [("n", ["E"])]), ("s", ["E"], [("n", ["E"]), SP, ("n", ["F"])]), ("n", ["E"], [R("[0-9]+")]), ("n", ["E"], [R("[A-C][a-c]*")]), ("n", ["E"], [W("b")]),
                ("n", ["E"], [W("5")])], "Aab05 ", 4),
    "regexp split": ([("s", ["E"], [("n", ["E"]), ("n", ["F"])]), ("n", ["E"], [R("[0-9]+")]), ("n", ["E"], [R("[ab][ab]")]), ("n", ["E"], [R("ab?")])], "ab1", 5),
    "regexp quote": ([("s", [], [("q", []), SP, ("q", [])]), ("s", [], [("q", [])]), ("q", [], [R("'[^']*'")]), ("q", [], [W("a")])], "'a ", 5),
    "argument counts": ([("s", ["A"], [("n", ["A"])]), ("s", ["A", "B"], [("n", ["A", "B"]), W("!")]), ("s", [], [("n", []), W("!")]), ("n", ["A"], [W("a")]), ("n", ["A", "B"], [W("a"), W("b")]),
                         ("n", ["A", "B"], [("n", ["A"]), SP, ("n", ["B"])]), ("n", [], [W("b")])], "ab !", 5),
    "argument counts 2": ([("s", ["A"], [("x", ["A"]), ("n", ["A", "B"]), W("c")]), ("s", ["A"], [("x", ["A"]), ("n", ["A"]), W("d")]), ("x", ["A"], [W("x")]),
                           ("n", ["A"], [W("a")]), ("n", ["A", "B"], [W("b")])], "xabcd", 4),
    "argument counts 3": ([("s", ["A"], [("n", ["A"]), W("c")]), ("s", ["A"], [("n", ["A", "B"]), W("d")]), ("s", [], [("n", []), ("n", ["A"])]), ("n", ["A"], [W("a")]),
                           ("n", ["A", "B"], [W("a")]), ("n", ["A", "B"], [("m", ["A"])]), ("m", ["A"], [W("a")]), ("m", ["A"], [W("b")]), ("n", [], [("m", ["A"])]), ("n", [], [W("a")])], "abcd", 3),
    "doubles": ([("s", [], [W("a"), ("n", [])]), ("s", [], [W("a"), ("n", [])]), ("n", [], [W("b")]), ("n", [], [W("b")]), ("n", [], [W("B")])], "abB", 3),
    "case": ([("s", [], [W("Ab"), ("n", [])]), ("n", [], [W("\u00c9")]), ("n", [], [W("e\u00f1")]), ("n", [], [W("b")])], "aAbB\u00e9\u00c9e\u00f1\u00d1", 4),
    "units": ([("s", [], [("a", [])]), ("s", [], [("b", [])]), ("a", [], [("b", [])]), ("a", [], [("c", [])]), ("b", [], [("c", [])]), ("c", [], [W("x")]), ("c", [], [W("x"), ("c", [])]), ("b", [], [W("y")])],
              "xy", 4),
    "word as category": ([("s", [], [("a", [])]), ("s", [], [W("a"), ("a", [])]), ("a", [], [W("b")]), ("a", [], [W("s")]), ("b", [], [W("a")]), ("s", [], [("b", []), W("s")])], "abs", 4),
    "long words": ([("s", [], [W("which"), SP, W("x")]), ("s", [], [W("which x"), W("!")])], "x! ", 3),
}


def build(rules, attach):
    out = []
    for i, (cat, args, cons) in enumerate(rules):
        items = []
        for c in cons:
            if isinstance(c, W):
                items.append(RuleConstituent(c.word, [], POS_TYPE_WORD_FORM))
            elif isinstance(c, R):
                items.append(RuleConstituent(c.exp, [], POS_TYPE_REG_EXP))
            else:
                items.append(RuleConstituent(c[0], c[1], POS_TYPE_RELATION))
        ante = RuleConstituent(cat, args, POS_TYPE_RELATION)
        if attach == "sem":
            out.append(GrammarRule(ante, items, sem=lambda i=i: i))
        elif attach == "exec":
            out.append(GrammarRule(ante, items, exec=lambda i=i: i))
        elif attach == "dialog":
            out.append(GrammarRule(ante, items, dialog=[("d", i)]))
        else:
            out.append(GrammarRule(ante, items, boost=i))
    return out


def rule_index(rule, attach):
    if attach == "sem":
        return rule.sem()
    if attach == "exec":
        return rule.exec()
    if attach == "dialog":
        return rule.dialog[0][1]
    return rule.boost


def shape(node, attach):
    """(index of the rule, children) with ("w", word) and ("re", text) leaves"""
    if node.rule.antecedent.position_type == POS_TYPE_WORD_FORM:
        return ("w", node.form)
    if node.rule.antecedent.position_type == POS_TYPE_REG_EXP:
        leaf = node.children[0].form if len(node.children) > 0 else node.form
        return ("re", node.rule.antecedent.predicate, leaf)
    return (rule_index(node.rule, attach), [shape(c, attach) for c in node.children])


class Licensed:
    """all trees by spans, and the places a left to right reading reaches"""

    def __init__(self, rules, text):
        self.rules = rules
        self.text = text
        self.memo = {}
        self.reach = 0
        self.seen = set()
        self.ends_memo = {}

    def trees(self, cat, nargs, i, j):
        key = (cat, nargs, i, j)
        if key not in self.memo:
            out = []
            for r, (c, args, cons) in enumerate(self.rules):
                if c == cat and len(args) == nargs:
                    out.extend([(r, list(seq)) for seq in self.sequences(cons, 0, i, j)])
            self.memo[key] = out
        return self.memo[key]

    def sequences(self, cons, k, i, j):
        if k == len(cons):
            return [[]] if i == j else []
        out = []
        last = k == len(cons) - 1
        for m in range(i + 1, j + 1):
            if last and m != j:
                continue
            if j - m < len(cons) - 1 - k:
                continue
            firsts = self.item(cons[k], i, m)
            if len(firsts) == 0:
                continue
            for rest in self.sequences(cons, k + 1, m, j):
                out.extend([[f] + rest for f in firsts])
        return out

    def word(self, w, i):
        part = self.text[i:i + len(w)]
        return part.lower() == w.lower()

    def item(self, c, i, j):
        if isinstance(c, W):
            return [("w", c.word)] if j - i == len(c.word) and self.token(c, i, j) else []
        if isinstance(c, R):
            return [("re", c.exp, self.text[i:j])] if self.token(c, i, j) else []
        return self.trees(c[0], len(c[1]), i, j)

    def token(self, c, i, j):
        key = (c.word if isinstance(c, W) else c.exp, isinstance(c, W), i, j)
        if key not in self.memo:
            if isinstance(c, W):
                self.memo[key] = bool(self.word(c.word, i))
            else:
                self.memo[key] = bool(REGEXPS[c.exp](self.text[i:j]))
        return self.memo[key]

    def furthest(self):
        """the furthest end of a token that can come next after what was read before it"""
        n = len(self.text)
        agenda = []
        for nargs in sorted(set([len(a) for c, a, k in self.rules if c == "s"])):
            agenda.append(("s", nargs, 0))
        seen = set(agenda)
        furthest = 0
        while len(agenda) > 0:
            cat, nargs, i = agenda.pop()
            for c, args, cons in self.rules:
                if c != cat or len(args) != nargs:
                    continue
                # positions before each consequent
                places = [i]
                for item in cons:
                    after = []
                    for p in places:
                        if not isinstance(item, (W, R)):
                            need = (item[0], len(item[1]), p)
                            if need not in seen:
                                seen.add(need)
                                agenda.append(need)
                        for q in range(p + 1, n + 1):
                            if q not in after and len(self.item(item, p, q)) > 0:
                                after.append(q)
                                furthest = max(furthest, q)
                            elif isinstance(item, (W, R)) and q > p and len(self.item(item, p, q)) > 0:
                                furthest = max(furthest, q)
                    places = after
        return furthest


def leaves(node):
    if len(node.children) == 0:
        return [node]
    out = []
    for c in node.children:
        out.extend(leaves(c))
    return out


def parse(ctx, grammar, n, attach, prefix, alphabet):
    rules, letters, size = GRAMMARS[grammar]
    text = prefix + ctx.str("t", n, alphabet or letters, 0)
    grammar_rules = GrammarRules(build(rules, attach))
    ref = Licensed(rules, text)
    want = []
    for nargs in sorted(set([len(a) for c, a, k in rules if c == "s"])):
        want.extend(ref.trees("s", nargs, 0, len(text)))
    result, exc = ctx.raises(lambda: EarleyParser().parse(grammar_rules, text))
    ctx.check(exc is None, "no crash")
    got = [shape(t, attach) for t in result.products]
    ctx.observe("got", len(got))
    if len(want) > 0:
        ctx.cover("understood")
    if len(want) > 1:
        ctx.cover("several trees")
    for g in got:
        ctx.check(ctx.member(g, want), "every tree is licensed by the grammar")
    for w in want:
        ctx.check(ctx.member(w, got), "every licensed tree is returned")
    ctx.check(ctx.distinct(got), "every tree once")
    for t in result.products:
        spelled = "".join([l.form for l in leaves(t)])
        ctx.check(ctx.eq(spelled.lower(), text.lower()), "the leaves spell the text")
    if len(want) > 0:
        ctx.check(result.error_type == "", "no error when understood")
    else:
        ctx.check(len(result.error_type) > 0, "an error when there is no tree")
        stop = ref.furthest()
        if len(text) == 0:
            ctx.cover("empty")
            ctx.check(result.error_type == NO_SENTENCE, "no sentence")
        elif stop == len(text):
            ctx.cover("ends early")
            ctx.check(result.error_type == NOT_UNDERSTOOD, "the text ends too early")
        else:
            ctx.cover("unknown")
            ctx.check(result.error_type == UNKNOWN_WORD, "unknown word")
            arg = result.error_args[0]
            rest = text[stop:]
            ctx.check(len(result.error_args) == 1 and len(arg) > 0, "with the offending text")
            shown = arg[:len(arg) - 4] if arg.endswith(" ...") else arg
            ctx.check(len(shown) > 0 and rest.startswith(shown), "that is where the understanding stopped")


POOL = [("s", ["A"], [("x", ["A"])]), ("s", [], [("x", ["A"]), ("y", [])]), ("s", ["A"], [W("a"), ("s", ["A"])]), ("s", ["A", "B"], [("x", ["A"]), SP, ("x", ["B"])]),
        ("s", ["A"], [("s", ["A"]), ("s", ["B"])]), ("x", ["A"], [W("a")]), ("x", ["A"], [("x", ["A"]), W("b")]), ("x", ["A"], [("y", [])]), ("x", ["A"], [R("[ab][ab]")]),
        ("x", ["A", "B"], [W("a")]), ("s", ["A"], [("x", ["A", "B"]), W("b")]), ("y", [], [W("b")]), ("y", [], [W("a"), ("y", [])]), ("y", [], [W("ab")]), ("y", [], [("x", ["A"]), ("x", ["B"])])]
# the last two would make y -> x x -> .. and x -> y: no cycle of unit rules


def any_grammar(ctx, n, first, second, rest):
    """grammars put together from a pool of rules"""
    rules = [POOL[first], POOL[second]] + [POOL[i] for i in sorted(set([ctx.choice(f"rule{k}", list(range(len(POOL)))) for k in range(rest)])) if i not in (first, second)]
    name = "any"
    GRAMMARS[name] = (rules, "ab ", n)
    parse(ctx, name, n, "sem", "", None)


def process(ctx, grammar, n):
    """the processor delivers the parser's trees"""
    rules, letters, size = GRAMMARS[grammar]
    text = ctx.str("t", n, letters, 0)
    ctx.assume(not "  " in text)
    grammar_rules = GrammarRules(build(rules, "sem"))
    trees = EarleyParser().parse(grammar_rules, text)
    result = BasicParser(grammar_rules).process(SentenceRequest(text))
    ctx.check(ctx.same_set([shape(t, "sem") for t in trees.products], [shape(p.parse_tree, "sem") for p in result.products]), "the parser's trees")
    ctx.check(len(trees.products) == len(result.products), "each once")
    ctx.check(ctx.eq([trees.error_type, trees.error_args], [result.error_type, result.error_args]), "the parser's error")


def many(ctx, grammar, prefix, suffix):
    """a long sentence, with any character in the middle"""
    GRAMMARS["long"] = GRAMMARS[grammar]
    rules, letters, size = GRAMMARS[grammar]
    text = prefix + ctx.str("c", 1, letters, 1) + suffix
    grammar_rules = GrammarRules(build(rules, "sem"))
    ref = Licensed(rules, text)
    want = [t for nargs in sorted(set([len(a) for c, a, k in rules if c == "s"])) for t in ref.trees("s", nargs, 0, len(text))]
    result, exc = ctx.raises(lambda: EarleyParser().parse(grammar_rules, text))
    ctx.check(exc is None, "no crash")
    got = [shape(t, "sem") for t in result.products]
    ctx.check(len(got) == len(want) and all([g in want for g in got]) and all([w in got for w in want]), "exactly the licensed trees")
    ctx.check((result.error_type == "") == (len(want) > 0), "an error when there is no tree")
    ctx.cover("understood" if len(want) > 0 else "not understood")


def obligations(tier):
    deep = tier == "thorough"
    out = []
    for g, (rules, letters, size) in GRAMMARS.items():
        covers = ["understood", "unknown", "empty", "ends early"]
        if g in ("ambiguous", "ambiguous left", "prefixes", "regexp", "regexp split", "doubles", "units"):
            covers.append("several trees")
        prefix = "which" if g == "long words" else ""
        if prefix:
            covers.remove("empty")
        if g in ("prefixes", "units"):
            covers.remove("ends early")
        n = size + (3 if deep else 1)
        out.append(Ob(g, parse, dict(grammar=g, n=n, attach="sem", prefix=prefix, alphabet=None), covers=covers,
                      bounds=f"all texts of at most {n} characters of {letters!r}"))
    for first in range(5):
        for second in range(5, 15):
            out.append(Ob(f"any grammar {first} {second}", any_grammar, dict(n=4, first=first, second=second, rest=2 if deep else 1),
                          bounds="grammars of 3 (thorough: 4) rules from a pool of 15, all texts of at most 4 characters of 'ab '"))
    for attach in ("exec", "dialog", "boost"):
        out.append(Ob(f"doubles {attach}", parse, dict(grammar="doubles", n=3, attach=attach, prefix="", alphabet=None), covers=["several trees"],
                      bounds="all texts of at most 3 characters"))
        out.append(Ob(f"ambiguous left {attach}", parse, dict(grammar="ambiguous left", n=5, attach=attach, prefix="", alphabet=None), covers=["several trees"],
                      bounds="all texts of at most 5 characters"))
    out.append(Ob("long rest", parse, dict(grammar="long words", n=2, attach="sem", prefix="whic 0123456789 abcdef", alphabet="xw "), covers=["unknown"],
                  bounds="texts whose rest is longer than what is shown"))
    for g in ("ambiguous left", "regexp", "prefixes"):
        out.append(Ob(f"process {g}", process, dict(grammar=g, n=4 if deep else 3), bounds="all texts of at most 3-4 characters without double spaces"))
    for g, prefix, suffix in (("left", "a+" * 30, "+(a+a)+a"), ("left", "(" * 15 + "a", "a" + ")" * 15), ("right", "a" * 50 + "b a", "a" * 20), ("centre", "a" * 25, "b" * 25),
                              ("prefixes", "", "bc"), ("ambiguous left", "a+b+a+a", "b"), ("regexp", "A" + "abc" * 12 + " " + "1" * 30, "0" * 10), ("units", "x" * 40, "x" * 10)):
        out.append(Ob(f"long {g} {len(prefix)}", many, dict(grammar=g, prefix=prefix, suffix=suffix), covers=["understood"], bounds="a long sentence with any character in the middle"))
    return out
