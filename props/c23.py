"""C23 generated output follows the first applicable writing rule"""
from props.common import *
from richard.core.BasicGenerator import BasicGenerator
from richard.core.constants import CATEGORY_FORMAT, CATEGORY_TEXT, CATEGORY_VALUE, POS_TYPE_RELATION, POS_TYPE_WORD_FORM
from richard.entity.GrammarRule import GrammarRule
from richard.entity.GrammarRules import GrammarRules
from richard.entity.RuleConstituent import RuleConstituent
from richard.module.BasicOutputBuffer import BasicOutputBuffer
from richard.processor.parser.helper.SimpleGrammarRulesParser import SimpleGrammarRulesParser

ASSUMPTIONS = ["conditions are conjunctions (and 'not') of facts", "every variable used in a rule's parts is an argument of the rule or bound by its condition",
               "rules do not call themselves forever"]


class O:
    """an optional part"""

    def __init__(self, cat, args):
        self.cat = cat
        self.args = args


# rule: (category, variables, parts, condition, options); a part is a word, (category, variables) or O
def make(rules):
    out = []
    for cat, args, parts, cond, more in rules:
        items = []
        for p in parts:
            if isinstance(p, str):
                items.append(RuleConstituent(p, [], POS_TYPE_WORD_FORM))
            elif isinstance(p, O):
                items.append(RuleConstituent(p.cat, list(p.args), POS_TYPE_RELATION, optional=True))
            else:
                items.append(RuleConstituent(p[0], list(p[1]), POS_TYPE_RELATION))
        out.append(GrammarRule(RuleConstituent(cat, list(args), POS_TYPE_RELATION), items, sem=atoms(cond), exec=more.get("format"), post=more.get("post")))
    return GrammarRules(out)


def atoms(cond):
    """capitals are variables"""
    def term(t):
        if isinstance(t, str) and t[0].isupper():
            return Variable(t)
        if isinstance(t, list):
            return [tuple([a[0]] + [term(x) for x in a[1:]]) for a in t]
        return t
    return [tuple([a[0]] + [term(x) for x in a[1:]]) for a in cond] if len(cond) > 0 else None


class Missing(Exception):
    pass


class Writer:
    """the documented output"""

    def __init__(self, rules, tables):
        self.rules = rules
        self.tables = tables

    def solve(self, cond, binding):
        """the first solution, trying the rows in order"""
        if len(cond) == 0:
            return binding
        atom = cond[0]
        if atom[0] == "not":
            return self.solve(cond[1:], binding) if self.solve(atom[1], binding) is None else None
        if atom[0] == "equals":
            a, b = [binding[x] if isinstance(x, str) and x in binding else x for x in atom[1:]]
            return self.solve(cond[1:], binding) if a == b else None
        for row in self.tables[atom[0]]:
            more = dict(binding)
            ok = True
            for arg, cell in zip(atom[1:], row):
                if isinstance(arg, str) and arg[0].isupper():
                    if arg not in more:
                        more[arg] = cell
                    elif not more[arg] == cell:
                        ok = False
                elif not arg == cell:
                    ok = False
            if ok:
                found = self.solve(cond[1:], more)
                if found is not None:
                    return found
        return None

    def write(self):
        return self.node([], "s", [])

    def node(self, used, cat, values):
        chosen = None
        for i, (c, args, parts, cond, more) in enumerate(self.rules):
            if c != cat or len(args) != len(values):
                continue
            binding = self.solve(cond, dict(zip(args, values)))
            if binding is None:
                continue
            chosen = (i, binding)
            if i not in used:
                break
        if chosen is None:
            raise Missing(cat)
        i, binding = chosen
        used.append(i)
        more = self.rules[i][4]
        out = []
        for p in self.rules[i][2]:
            if isinstance(p, str):
                out.append(p)
                continue
            optional = isinstance(p, O)
            name, args = (p.cat, p.args) if optional else p
            vals = [binding[a] for a in args]
            if name == "value":
                out.append(vals[0])
            elif name == "text":
                out.append(str(vals[0]))
            elif name == "format":
                out.append(more["format"](*vals))
            else:
                try:
                    out.append(self.node(used, name, vals))
                except Missing as e:
                    if not optional or str(e) != name or self.applies(name, vals):
                        raise e
                    out.append("")
        result = self.join(out)
        return more["post"](result) if "post" in more else result

    def applies(self, cat, values):
        for c, args, parts, cond, more in self.rules:
            if c == cat and len(args) == len(values) and self.solve(cond, dict(zip(args, values))) is not None:
                return True
        return False

    def join(self, out):
        if all([isinstance(x, str) for x in out]):
            text = ""
            for x in out:
                text = text + x
            return text
        return out[0] if len(out) == 1 else out


def run(ctx, rules, tables, times=1, grammar=None, more=()):
    module = Facts(tables)
    model = Model([module] + list(more))
    buffer = BasicOutputBuffer()
    generator = BasicGenerator(grammar or make(rules), model, buffer)
    ref = Writer(rules, tables)
    for t in range(times):
        try:
            want = ref.write()
            missing = None
        except Missing as e:
            missing = str(e)
        buffer.data_source.insert("output_type", ["type"], ["x"])
        got, exc = ctx.raises(lambda: generator.generate_output())
        ctx.check(buffer.data_source.select("output_type", ["type"], [None]) == [], "the buffer is emptied")
        if missing is not None:
            ctx.cover("missing")
            ctx.check(exc is not None, "a missing rule is reported")
            ctx.check(missing in str(exc), "with the name of the category")
        else:
            ctx.cover("text")
            ctx.check(exc is None, "there is output")
            ctx.observe("output", got)
            ctx.check(ctx.eq(got, want), "the output by the first rules that apply")
            ctx.check(isinstance(got, str) == isinstance(want, str), "a text if it should be")


def named(x, names):
    """another name for variables"""
    if isinstance(x, O):
        return O(x.cat, [names.get(a, a) for a in x.args])
    if isinstance(x, tuple):
        return tuple([named(y, names) for y in x])
    if isinstance(x, list):
        return [named(y, names) for y in x]
    if isinstance(x, str):
        return names.get(x, x)
    return x


# kinds of words: np(E) says who E is
STORY = [
    ("s", [], [("np", ["A"]), " ", ("vp", ["K"])], [("type", 1), ("subject", "K", "A")], {}),
    ("s", [], ["impossible"], [("type", 2)], {}),
    ("s", [], [("np", ["A"]), O("who", ["A"])], [("type", 3), ("subject", "K", "A")], {}),
    ("vp", ["P"], [("verb", ["P"]), " ", ("np", ["B"])], [("object", "P", "B")], {}),
    ("vp", ["P"], [("verb", ["P"])], [], {}),
    ("verb", ["P"], ["sees"], [("pred", "P", "see")], {}),
    ("verb", ["P"], ["is"], [], {}),
    ("np", ["Q"], ["the ", O("adj", ["Q"]), ("noun", ["Q"])], [("noun", "Q", "N")], {}),
    ("np", ["Q"], [("value", ["N"])], [("name", "Q", "N")], {}),
    ("np", ["Q"], [("value", ["N"])], [("nick", "Q", "N")], {}),
    ("np", ["Q"], ["it"], [], {}),
    ("adj", ["Q"], ["big "], [("big", "Q")], {}),
    ("noun", ["Q"], [("value", ["N"])], [("noun", "Q", "N")], {}),
    ("who", ["Q"], [" who ", ("vp", ["P"])], [("subject", "P", "Q")], {}),
]


def story(ctx, types, rows):
    """a sentence about entities with any identities"""
    ids = [ctx.int(f"i{i}") for i in range(rows)]
    tables = {"type": [[ctx.choice("type", types)]],
              "subject": [[1, ids[0]]], "object": [[1, ctx.ite(ctx.bool("same"), ids[0], ids[1])]] if ctx.flag("object") else [],
              "pred": [[1, ctx.choice("pred", ["see", "be"])]],
              "name": [[ids[0], "ann"]], "nick": [[ids[1], "bo"]], "big": [[ids[rows - 1]]],
              "noun": [[ids[rows - 1], "block"]] if ctx.flag("noun") else []}
    run(ctx, STORY, tables, times=2)


def renamed(ctx, rule, letters):
    """the names of a rule's variables don't matter"""
    own = sorted(set([v for v in "AKPQNB" if v in str([STORY[rule][1], [p if not isinstance(p, O) else p.args for p in STORY[rule][2]], STORY[rule][3]])]))
    names = {}
    for v in own:
        names[v] = ctx.choice("name " + v, [l for l in letters if l not in names.values()])
    rules = list(STORY)
    rules[rule] = tuple(named(list(STORY[rule][:4]), names)) + (STORY[rule][4],)
    rules[rule] = (STORY[rule][0],) + rules[rule][1:]
    i, j = ctx.int("i"), ctx.int("j")
    tables = {"type": [[ctx.choice("type", [1, 3])]], "subject": [[1, i]], "object": [[1, j]], "pred": [[1, "see"]],
              "name": [[j, "ann"]], "nick": [[i, "bo"], [j, "cy"]], "big": [[j]], "noun": [[ctx.int("k"), "block"]]}
    run(ctx, rules, tables)


def values(ctx, how):
    """any value is rendered as itself, also when it looks like nothing"""
    v = mixed_value(ctx, "v", ["int", "0", "''", "'0'", "1.5", "neg", "str", "list", "empty list"])
    v = [] if v == "empty list" else [ctx.int("e"), 0] if v == "list" else v
    tables = {"v": [[v]]}
    seen = []

    def show(*args):
        seen.append(list(args))
        return args[0]
    rules = {
        "value": [("s", [], [("value", ["X"])], [("v", "X")], {})],
        "in text": [("s", [], ["<", ("value", ["X"]), ">"], [("v", "X")], {})],
        "twice": [("s", [], [("value", ["X"]), ("value", ["X"])], [("v", "X")], {})],
        "passed": [("s", [], [("a", ["X"])], [("v", "X")], {}), ("a", ["Y"], [("b", ["Y"])], [], {}), ("b", ["X"], [("value", ["X"])], [], {})],
        "optional": [("s", [], [O("a", ["X"])], [("v", "X")], {}), ("a", ["Y"], [("value", ["Y"])], [], {})],
        "matched": [("s", [], [("a", ["X"])], [("v", "X")], {}), ("a", ["Y"], ["same"], [("v", "Y")], {}), ("a", ["Y"], ["other"], [], {})],
        "falsy": [("s", [], [("a", ["X"])], [("v", "X")], {}), ("a", ["Y"], ["zero"], [("equals", "Y", 0)], {}), ("a", ["Y"], ["none"], [("not", [("v", "Y")])], {}),
                  ("a", ["Y"], ["other"], [], {})],
        "format": [("s", [], [("format", ["X", "Y"])], [("v", "X"), ("v", "Y")], {"format": show})],
    }[how]
    run(ctx, rules, tables)
    if how == "format":
        ctx.check(ctx.eq(seen, [[v, v], [v, v]]), "the formatter gets the values in order")


def as_text(ctx, n):
    """text() renders the value as text, whatever is in it"""
    v = ctx.str("v", n, "aA '\\%{}", 0) if ctx.flag("str") else ctx.choice("v", [0, 10, -1, 2.5, 1.0, []])
    run(ctx, [("s", [], [("text", ["X"])], [("v", "X")], {})] if ctx.flag("only") else [("s", [], ["'", ("text", ["X"]), "!"], [("v", "X")], {})], {"v": [[v]]})


def choosing(ctx, n, rows):
    """the first rule whose condition holds"""
    rules = []
    tables = {"t": int_table(ctx, "t", rows, 2, 0, 5), "u": int_table(ctx, "u", 1, 1, 0, 5)}
    a, b = ctx.int("a", 0, 5), ctx.int("b", 0, 5)
    conds = [[], [("t", "X", a)], [("t", "X", "X")], [("t", "X", "Y"), ("u", "Y")], [("u", "X"), ("not", [("t", "X", b)])], [("t", "X", "Y"), ("t", "Y", "Z")]]
    args = ctx.choice("args", [[], ["X"]])
    for i in range(n):
        cond = conds[ctx.choice(f"cond{i}", list(range(1 if len(args) == 0 else 0, len(conds))))]
        rules.append(("a", args, [f"rule {i} ", ("value", ["X"])], cond, {}))
    rules.append(("a", ["X", "Y"], ["wrong"], [], {}))
    if len(args) > 0:
        rules.append(("a", [], ["wrong too"], [], {}))
    rules.append(("s", [], ["first", ("a", ["X"] if args else []), "second", ("a", ["X"] if args else [])], [("u", "X")], {}))
    run(ctx, rules, tables, times=2)


def post(ctx):
    """the last step gets the whole text of the rule"""
    seen = []

    def tidy(x):
        seen.append(x)
        return "[" + x + "]" if isinstance(x, str) else x
    v = ctx.str("v", 2, "ab ", 0)
    rules = [("s", [], [("a", ["X"]), " ", O("a", ["X"]), O("b", ["X"])], [("v", "X")], {"post": tidy}), ("a", ["X"], [("value", ["X"]), "."], [], {"post": tidy}),
             ("a", ["X"], [("value", ["X"])], [], {"post": tidy}), ("b", ["X"], ["never"], [("w", "X")], {"post": tidy})]
    run(ctx, rules, {"v": [[v]], "w": [[ctx.str("w", 2, "ab ", 0)]]})
    half = len(seen) // 2
    ctx.check(ctx.eq(seen[:half], seen[half:]), "it sees the text")


def post_value(ctx):
    """the last step also gets a result that is not a text, and its result is the output"""
    v = mixed_value(ctx, "v", ["int", "0", "''", "1.5", "neg", "str", "list", "empty list"])
    v = [] if v == "empty list" else [ctx.int("e"), 0] if v == "list" else v
    result = ctx.choice("result", ["text", "", 0, "same", "list"])
    seen = []

    def wrap(x):
        seen.append(x)
        return x if result == "same" else [x] if result == "list" else result

    def end(x):
        return ["end", x]
    inner = ctx.choice("inner", [{}, {"post": wrap}])
    outer = ctx.choice("outer", [{}, {"post": end}, {"post": wrap}])
    more = [("value", ["X"])] if ctx.flag("two") else []
    rules = [("s", [], [("a", ["X"])], [("v", "X")], outer), ("a", ["X"], [("value", ["X"])] + more, [], inner)]
    run(ctx, rules, {"v": [[v]]})
    half = len(seen) // 2
    ctx.check(ctx.eq(seen[:half], seen[half:]), "it sees the value")


def optional(ctx, n):
    """optional parts without a rule are left out, and all others stay, in every use"""
    parts = ["<"]
    tables = {}
    for i in range(n):
        tables[f"o{i}"] = int_table(ctx, f"o{i}_", 1, 1, 0, 3)
        parts.append(O(f"o{i}", ["X"]) if ctx.flag(f"optional{i}") else (f"o{i}", ["X"]))
        parts.append(",")
    tables["v"] = [[ctx.int("v", 0, 3)], [ctx.int("w", 0, 3)]]
    rules = [("s", [], [("a", ["X"]), ("a", ["Y"]), ("a", ["X"])], [("v", "X"), ("v", "Y"), ("not", [("equals", "X", "Y")])], {}), ("a", ["X"], parts, [], {})]
    for i in range(n):
        rules.append((f"o{i}", ["Z"], [f"part {i}"], [(f"o{i}", "Z")], {}))
    run(ctx, rules, tables)


def from_text(ctx):
    """rules as an application writes them"""
    E1, E2 = Variable("E1"), Variable("E2")
    raw = [
        {"syn": "s() -> 'Who' ~ 'is' name(E1)+'?'", "if": [("t", E1)]},
        {"syn": "s() -> name(E1)+name(E2) text(E1) ~ text(E2)", "if": [("v", E1, E2)], "post": lambda out: out + "."},
        {"syn": "s() -> 'none'"},
        {"syn": "name(E1) -> adj(E1)?+text(E2)", "if": [("name", E1, E2)]},
        {"syn": "name(E1) -> format(E1, E2)", "if": [("v", E2, E1)], "format": lambda a, b: f"{b}:{a}"},
        {"syn": "name(E1) -> 'it\\'s' text(E1)"},
        {"syn": "adj(E1) -> 'old-'", "if": [("old", E1)]},
    ]
    rules = [
        ("s", [], ["Who", " ", "is", " ", ("name", ["X"]), "?"], [("t", "X")], {}),
        ("s", [], [("name", ["X"]), ("name", ["Y"]), " ", ("text", ["X"]), " ", ("text", ["Y"])], [("v", "X", "Y")], {"post": lambda out: out + "."}),
        ("s", [], ["none"], [], {}),
        ("name", ["X"], [O("adj", ["X"]), ("text", ["N"])], [("name", "X", "N")], {}),
        ("name", ["X"], [("format", ["X", "Y"])], [("v", "Y", "X")], {"format": lambda a, b: f"{b}:{a}"}),
        ("name", ["X"], ["it's", " ", ("text", ["X"])], [], {}),
        ("adj", ["X"], ["old-"], [("old", "X")], {}),
    ]
    letters = "ab"
    a, b, c = [ctx.str(n, 1, letters, 1) for n in ("a", "b", "c")]
    tables = {"t": [[a]] if ctx.flag("question") else [], "v": [[b, c]] if ctx.flag("statement") else [], "name": [[ctx.str("n", 1, letters, 1), "Ann"], [ctx.str("m", 1, letters, 1), "Bo"]],
              "old": [[ctx.str("o", 1, letters, 1)]]}
    run(ctx, rules, tables, times=2, grammar=SimpleGrammarRulesParser().parse_write_grammar(raw))


def many_rules(ctx, n):
    """many rules, of which the first applicable one is taken; many parts; many levels"""
    a = ctx.int("a")
    rows = [[i, i + 1] for i in range(n)]
    rows[n // 2] = [a, n]
    rules = [("s", [], ["start"] + [("line", ["X"]) if i == n // 2 else f"w{i} " for i in range(n)] + [("pick", ["X"])], [("u", "X")], {})]
    for i in range(n):
        rules.append(("pick", ["X"], [f"rule {i} "], [("u", "X"), ("t", "X", i)], {}))
        rules.append((f"deep{i}", ["X"], ["(", (f"deep{i + 1}", ["X"]), ")"], [], {}))
    rules.append((f"deep{n}", ["X"], [("value", ["X"])], [], {}))
    rules.append(("line", ["Y"], [("deep0", ["Y"]), "."], [("t", "Y", "Z")], {}))
    rules.append(("line", ["Y"], ["none"], [], {}))
    run(ctx, rules, {"t": rows, "u": [[ctx.int("b", -1, n + 1)]]}, times=2)


def obligations(tier):
    deep = tier == "thorough"
    out = []
    out.append(Ob("story", story, dict(types=[1, 2, 3, 4], rows=2), covers=["text", "missing"], bounds="any two entities, 4 kinds of sentences, 2 outputs"))
    out.append(Ob("story of three", story, dict(types=[1, 3], rows=3), covers=["text"], bounds="any three entities, 2 kinds of sentences, 2 outputs"))
    for r in range(len(STORY)):
        if any([len(STORY[r][1]), len(STORY[r][3])]):
            out.append(Ob(f"renamed {r}", renamed, dict(rule=r, letters="AKPQNB" if deep else "AKPQN"), covers=["text"] if r < 3 or r > 4 else ["text"],
                          bounds=f"rule {r} with any names for its variables, any identities"))
    for how in ("value", "in text", "twice", "passed", "optional", "matched", "falsy", "format"):
        out.append(Ob(f"values {how}", values, dict(how=how), covers=["text"], bounds="a value of 9 kinds"))
    out.append(Ob("as text", as_text, dict(n=5 if deep else 3), covers=["text"], bounds="texts of at most 3-5 characters of 8, and some other values"))
    for n in (1, 2, 3) if deep else (1, 2):
        out.append(Ob(f"choosing {n}", choosing, dict(n=n, rows=2), covers=["text", "missing"], bounds=f"{n} rules with any of 6 conditions, 3 rows of integers 0-5"))
    out.append(Ob("post", post, covers=["text"], bounds="texts of at most 2 characters"))
    out.append(Ob("post value", post_value, covers=["text"], bounds="a value of 8 kinds, 5 kinds of results of the last step"))
    for n in (1, 2, 3) if deep else (1, 2):
        out.append(Ob(f"optional {n}", optional, dict(n=n), covers=["text", "missing"], bounds=f"{n} parts that are optional or not, integers 0-3"))
    out.append(Ob("from text", from_text, covers=["text"], bounds="any pattern of which facts are known"))
    out.append(Ob("many rules", many_rules, dict(n=20), covers=["text", "missing"], bounds="20 rules, parts and levels, any identities in two facts"))
    return out
