"""C17 grammar rule text denotes exactly the documented rule"""
from props.common import *
from richard.core.constants import POS_TYPE_REG_EXP, POS_TYPE_RELATION, POS_TYPE_WORD_FORM
from richard.processor.parser.earley.EarleyParser import EarleyParser
from richard.processor.parser.helper.SimpleGrammarRulesParser import SimpleGrammarRulesParser

ASSUMPTIONS = ["a comma before a closing parenthesis, a rule without constituents and a stray quote may be accepted or rejected",
               "a backslash directly before the closing quote or slash has no notation"]


class Unclear(Exception):
    pass


class Reject(Exception):
    pass


UPPER = "ABCDEFGHIJKLMNOPQRSTUVWXYZ"
WORD = "abcdefghijklmnopqrstuvwxyz" + UPPER + "0123456789_"
FULL, NONE, MAYBE = "space", "nothing", "optional space"


def delimited(text, i):
    """the text between delimiters and the position after it; None if there is no other end"""
    q = text[i]
    value = ""
    escaped = False
    j = i + 1
    n = len(text)
    while j < n:
        d = text[j]
        if d == "\\" and j + 1 < n and text[j + 1] == q:
            value = value + q
            escaped = True
            j += 2
        elif d == q:
            if len(value) == 0:
                return None
            return value, j + 1
        else:
            value = value + d
            j += 1
    if escaped:
        raise Unclear()
    return None


def scan(text):
    out = []
    stray = False
    i = 0
    n = len(text)
    while i < n:
        c = text[i]
        if c in " \n\t\r":
            i += 1
        elif c == "'" or c == '"':
            found = delimited(text, i)
            if found is None:
                stray = True
                i += 1
            else:
                out.append(("word", found[0]))
                i = found[1]
        elif c == "/":
            found = delimited(text, i)
            if found is None:
                raise Reject()
            out.append(("re", found[0]))
            i = found[1]
        elif c == "-":
            if i + 1 < n and text[i + 1] == ">":
                out.append(("->", None))
                i += 2
            else:
                raise Reject()
        elif c in "(),?+~":
            kind = [k for k in "(),?+~" if k == c][0]
            out.append((kind, None))
            i += 1
        elif c in WORD:
            j = i
            while j < n and text[j] in WORD:
                j += 1
            out.append(("name", text[i:j]))
            i = j
        else:
            raise Reject()
    return out, stray


class Reader:
    def __init__(self, tokens, write):
        self.tokens = tokens
        self.write = write
        self.pos = 0
        self.lenient = False

    def kind(self):
        return self.tokens[self.pos][0] if self.pos < len(self.tokens) else None

    def take(self, kind):
        if self.kind() != kind:
            raise Reject()
        self.pos += 1
        return self.tokens[self.pos - 1][1]

    def category(self):
        name = self.take("name")
        args = []
        self.take("(")
        while self.kind() == "name":
            arg = self.take("name")
            if not arg[0] in UPPER:
                raise Reject()
            args.append(arg)
            if self.kind() == ",":
                self.take(",")
                if self.kind() == ")":
                    self.lenient = True
                elif self.kind() != "name":
                    raise Reject()
            elif self.kind() != ")":
                raise Reject()
        self.take(")")
        return name, args

    def rule(self):
        head = self.category()
        self.take("->")
        items = []
        sep = NONE
        if self.pos == len(self.tokens):
            self.lenient = True
        while self.pos < len(self.tokens):
            optional = False
            if self.kind() == "word":
                item = (POS_TYPE_WORD_FORM, self.take("word"), [])
                may = True
            elif self.kind() == "re":
                item = (POS_TYPE_REG_EXP, self.take("re"), [])
                may = False
            else:
                name, args = self.category()
                item = (POS_TYPE_RELATION, name, args)
                may = self.write
            if self.kind() == "?":
                if not may:
                    raise Reject()
                self.take("?")
                optional = True
            items.append((sep, item, optional))
            sep = FULL
            if self.kind() in ("+", "~"):
                sep = NONE if self.kind() == "+" else MAYBE
                self.pos += 1
                if self.pos == len(self.tokens):
                    raise Reject()
        return head, items


SPACE = (POS_TYPE_WORD_FORM, " ", [])


def variants(items):
    """all forms of the rule: any subset of optional parts, each with the space before it unless it comes first"""
    out = [[]]
    for sep, item, optional in items:
        forms = []
        for v in out:
            if len(v) == 0 or sep != FULL:
                forms.append(v + [item])
            if len(v) > 0 and sep != NONE:
                forms.append(v + [SPACE, item])
            if optional:
                forms.append(v)
        out = forms
    return out


def read(text, write, parser):
    simple = [{"syn": text}]
    return parser.parse_write_grammar(simple) if write else parser.parse_read_grammar(simple)


def forms(grammar, name, count):
    return [[(c.position_type, c.predicate, c.arguments) for c in r.consequents] for r in grammar.find_rules(name, count)]


def check_text(ctx, text, write):
    lenient = False
    try:
        tokens, stray = scan(text)
        reader = Reader(tokens, write)
        head, items = reader.rule()
        kind = "rule"
        lenient = stray or reader.lenient
    except Reject:
        kind = "rejected"
    except Unclear:
        ctx.cover("unclear")
        return
    ctx.observe("kind", kind)
    got, exc = ctx.raises(lambda: read(text, write, SimpleGrammarRulesParser()))
    if kind == "rejected":
        ctx.cover("rejected")
        ctx.check(exc is not None, "a malformed text is an error")
        ctx.check(text in str(exc), "that shows the text")
        return
    if exc is not None:
        ctx.check(lenient, "a text in the notation is accepted")
        ctx.check(text in str(exc), "the error shows the text")
        return
    ctx.cover("accepted")
    name, args = head
    rules = got.find_rules(name, len(args))
    for r in rules:
        ctx.check(r.antecedent.predicate == name and ctx.eq(r.antecedent.arguments, args), "the antecedent")
    ctx.check(ctx.same_set(forms(got, name, len(args)), variants(items)), "exactly the constituents written")


TEMPLATES = {
    "plain": "s(E1) -> np(E1) vp(E1, E2)",
    "words": "s() -> 'a b'? \"c\" n()",
    "operators": "s(E)->'x'+n(E)~'?'",
    "regexp": "s(E) -> /[a-z]+/ + n(E) ~ /\\/x/",
    "escapes": "s(E) -> 'it\\'s' \"a\\\"b\" n(E)",
    "optional": "s(E) -> 'a'? 'b'?~n(E) 'c'?+'d'",
    "optional category": "s(E) -> n(E)? 'a' m(E, F)?",
    "quotes": "s(E) -> '\"' n(E) \"'\"",
}
ALPHABET = "aX1'\"\\(),?+~/-> $"


def edited(ctx, template, write, op, lo, hi, alphabet):
    """one edit of a text: insert, replace, delete or truncate at any position"""
    text = TEMPLATES[template]
    i = ctx.choice("at", list(range(len(text) + 1))[lo:hi])
    if op == "truncate":
        text = text[:i]
    elif op == "delete":
        text = text[:i] + text[i + 1:]
    elif op == "insert":
        text = text[:i] + ctx.str("c", 1, alphabet, 1) + text[i:]
    elif op == "replace":
        text = text[:i] + ctx.str("c", 1, alphabet, 1) + text[i + 1:]
    elif op == "insert2":
        text = text[:i] + ctx.str("c", 2, alphabet, 2) + text[i:]
    elif op == "swap":
        text = text[:i] + text[i + 1:i + 2] + text[i:i + 1] + text[i + 2:]
    check_text(ctx, text, write)


def short(ctx, n, prefix, suffix, alphabet, write):
    check_text(ctx, prefix + ctx.str("t", n, alphabet, 0) + suffix, write)


TOKENS = {
    "plain": ["s", "(", "E1", ")", "->", "np", "(", "E1", ")", "vp", "(", "E1", ",", "E2", ")"],
    "mixed": ["s", "(", ")", "->", "'a'", "?", "+", "'b b'", "~", "n", "(", ")", "/x y/"],
}


def layout(ctx, template, maxlen):
    """space between tokens does not matter"""
    tokens = TOKENS[template]
    i = ctx.choice("at", list(range(len(tokens) + 1)))
    space = ctx.str("s", maxlen, " \n\t", 0)
    close = ctx.flag("close")
    text = ""
    for k, t in enumerate(tokens):
        if k == i:
            text = text + space
        elif not close or (k > 0 and t[0] in WORD and tokens[k - 1][-1] in WORD):
            text = text + " "
        text = text + t
    if i == len(tokens):
        text = text + space
    check_text(ctx, text, False)


def content(ctx, maxlen):
    """quoted words, expressions and names with any content"""
    kind = ctx.choice("kind", ["'", '"', "/", "name", "category"])
    if kind == "name":
        name = ctx.str("n", 1, "XA", 1) + ctx.str("m", maxlen, "aZ0_", 0)
        check_text(ctx, "s(" + name + ") -> n(" + name + ", E) 'a'", False)
        return
    if kind == "category":
        name = ctx.str("n", maxlen + 1, "aZ0_", 1)
        check_text(ctx, "s(E) -> " + name + "(E) 'a'", False)
        return
    value = ctx.str("v", maxlen + 1, "a'\"/\\ +?(-", 1)
    ctx.assume(not ("\\" + kind) in value and value[len(value) - 1] != "\\")
    src = kind + value.replace(kind, "\\" + kind) + kind
    grammar = read("s(E) -> " + src + " n(E)", False, SimpleGrammarRulesParser())
    got = forms(grammar, "s", 1)
    item = (POS_TYPE_REG_EXP if kind == "/" else POS_TYPE_WORD_FORM, value, [])
    ctx.check(ctx.eq(got, [[item, SPACE, (POS_TYPE_RELATION, "n", ["E"])]]), "the content without its escapes")


def structure(ctx, size, write, categories):
    """any combination of constituents, operators and optional markers"""
    items = []
    text = "s(E) ->"
    for k in range(size):
        sep = FULL
        if k > 0:
            sep = ctx.choice(f"sep{k}", [FULL, NONE, MAYBE])
            text = text + {FULL: " ", NONE: "+", MAYBE: " ~ "}[sep]
        optional = ctx.flag(f"optional{k}")
        if categories and ctx.flag(f"category{k}"):
            item = (POS_TYPE_RELATION, "c" + str(k), ["E"])
            text = text + "c" + str(k) + "(E)"
        else:
            item = (POS_TYPE_WORD_FORM, "w" + str(k), [])
            text = text + "'w" + str(k) + "'"
        if optional:
            text = text + "?"
        items.append((NONE if k == 0 else sep, item, optional))
    ctx.assume(any([not o for s, i, o in items]))
    if not write and any([o and i[0] == POS_TYPE_RELATION for s, i, o in items]):
        got, exc = ctx.raises(lambda: read(text, write, SimpleGrammarRulesParser()))
        ctx.check(exc is not None and text in str(exc), "a category is never optional in a reading rule")
        ctx.cover("rejected")
        return
    got = read(text, write, SimpleGrammarRulesParser())
    ctx.check(ctx.same_set(forms(got, "s", 1), variants(items)), "all combinations, and no others")


def acceptance(ctx, n, size):
    """what a reading rule accepts"""
    items = []
    text = "s(E) ->"
    for k in range(size):
        sep = ctx.choice(f"sep{k}", [FULL, NONE, MAYBE]) if k > 0 else NONE
        kind = ctx.choice(f"kind{k}", ["word", "optional word", "category"] if k < 2 else ["word", "optional word"])
        text = text + {FULL: " ", NONE: "+" if k > 0 else " ", MAYBE: "~"}[sep]
        letter = "abc"[k]
        text = text + {"word": f"'{letter}'", "optional word": f"'{letter}'?", "category": f"{letter}(E)"}[kind]
        items.append((sep, letter, kind == "optional word"))
    ctx.assume(any([not o for s, i, o in items]))
    simple = [{"syn": text, "sem": 1}] + [{"syn": f"{c}(E) -> '{c}'"} for c in "abc"]
    grammar = SimpleGrammarRulesParser().parse_read_grammar(simple)
    spellings = [""]
    for sep, letter, optional in items:
        spellings = [v + x for v in spellings for x in ([letter] if v == "" or sep != FULL else []) + ([" " + letter] if v != "" and sep != NONE else []) + ([""] if optional else [])]
    sentence = ctx.str("t", n, "abc ", 1)
    result = EarleyParser().parse(grammar, sentence)
    want = ctx.any_([ctx.eq(sentence, s) for s in spellings if len(s) <= n])
    ctx.check(ctx.iff(len(result.products) > 0, want), "exactly the texts with the spaces as written")
    if len(result.products) > 0:
        ctx.cover("accepted")


def extras(ctx):
    """the other parts of a rule are passed on as they are, for reading and for writing"""
    f, g, h = (lambda: 1), [("a", 1)], (lambda: 2)
    boost = ctx.int("boost")
    d = [("b", 1)]
    given = {}
    for key, value in (("sem", f), ("exec", h), ("dialog", d), ("boost", boost), ("if", g), ("format", "x"), ("post", h)):
        if ctx.flag(key):
            given[key] = value
    syn = ctx.choice("syn", ["s(A, B) -> 'x' n(B)", "s(A, B) -> 'x'? n(B)"])
    for write in (False, True):
        rule = dict(given)
        rule["syn"] = syn
        parser = SimpleGrammarRulesParser()
        grammar = parser.parse_write_grammar([rule]) if write else parser.parse_read_grammar([rule])
        for r in grammar.find_rules("s", 2):
            ctx.check(r.sem is given.get("if" if write else "sem"), "meaning or condition")
            ctx.check(r.exec is given.get("format" if write else "exec"), "execution or format")
            if write:
                ctx.check(r.post is given.get("post"), "post processing")
            else:
                ctx.check(ctx.eq(r.dialog, given.get("dialog", [])), "inferences")
                ctx.check(ctx.eq(r.boost, given.get("boost", 0)), "boost")
    got, exc = ctx.raises(lambda: SimpleGrammarRulesParser().parse_read_grammar([given]))
    ctx.check(exc is not None, "a rule without syntax is an error")


def several(ctx):
    """the rules of a grammar are kept apart, in order"""
    texts = ["n(A) -> 'a'", "n(A, B) -> 'b'", "n(A) -> 'c'", "m(A) -> 'd'?+'e'", "n() -> 'f'"]
    order = []
    for k in range(4):
        order.append(ctx.choice(f"r{k}", [t for t in texts if not t in order]))
    grammar = SimpleGrammarRulesParser().parse_read_grammar([{"syn": t} for t in order])
    for name, count in (("n", 0), ("n", 1), ("n", 2), ("m", 1), ("m", 0), ("x", 1)):
        want = []
        for t in order:
            if t[0] == name and t.index(")") == {0: 2, 1: 3, 2: 6}[count]:
                want.extend([["d", "e"], ["e"]] if name == "m" else [[t[t.index("'") + 1]]])
        got = [[c.predicate for c in r.consequents] for r in grammar.find_rules(name, count)]
        ctx.check(got == want, "the rules of each category and number of arguments, in order")


def long_rule(ctx, n, write):
    """a rule of many constituents, words and arguments, with any character in the middle"""
    c = ctx.str("c", 1, "a?+~' /X,", 1)
    at = ctx.choice("at", [1, n // 2, n - 1])
    parts = []
    for k in range(n):
        kind = k % 4
        part = f"n{k}(E{k}, X)" if kind == 0 else "'" + "w" * k + "'" if kind == 1 else "/[a-z]" + str(k) + "/" if kind == 2 else f"m{k}()"
        parts.append(part)
    text = "s(" + ", ".join([f"E{k}" for k in range(n)]) + ") -> " + " ".join(parts[:at]) + " 'x" + c + "' " + " ".join(parts[at:])
    check_text(ctx, text, write)


def many_rules(ctx, n):
    """a grammar of many rules"""
    boost = ctx.int("boost")
    bad = ctx.choice("bad", [None, 0, n // 2, n - 1])
    rules = []
    for k in range(n):
        rules.append({"syn": f"c{k % 7}({'E, F' if k % 3 else 'E'}) -> 'w{k}'" + ("?+'x'" if k % 5 == 0 else "") + ("(" if bad == k else ""), "boost": boost + k})
    grammar, exc = ctx.raises(lambda: SimpleGrammarRulesParser().parse_read_grammar(rules))
    if bad is not None:
        ctx.check(exc is not None and rules[bad]["syn"] in str(exc), "the rule that cannot be read is named")
        ctx.cover("rejected")
        return
    ctx.cover("accepted")
    ctx.check(exc is None, "accepted")
    for c in range(7):
        for args in (1, 2):
            want = []
            for k in range(n):
                if k % 7 == c and (2 if k % 3 else 1) == args:
                    want.extend([([f"w{k}", "x"], boost + k), (["x"], boost + k)] if k % 5 == 0 else [([f"w{k}"], boost + k)])
            ctx.check(ctx.eq([([x.predicate for x in r.consequents], r.boost) for r in grammar.find_rules(f"c{c}", args)], want), "all rules of the category, in order")


def obligations(tier):
    deep = tier == "thorough"
    out = []
    for t, text in TEMPLATES.items():
        write = t == "optional category"
        for op in ("truncate", "delete", "swap"):
            out.append(Ob(f"{op} {t}", edited, dict(template=t, write=write, op=op, lo=0, hi=None, alphabet=""), bounds="every position of " + text))
        for op in ("insert", "replace") + (("insert2",) if deep else ()):
            step = 4 if op == "insert2" else 10
            for lo in range(0, len(text) + 1, step):
                out.append(Ob(f"{op} {t} {lo}", edited, dict(template=t, write=write, op=op, lo=lo, hi=lo + step, alphabet=ALPHABET),
                              bounds=f"every position of {text}; any characters of {ALPHABET!r}"))
    n = 4 if deep else 3
    out.append(Ob("read optional category", edited, dict(template="optional category", write=False, op="delete", lo=0, hi=None, alphabet=""), covers=["rejected"], bounds="every position"))
    out.append(Ob("short heads", short, dict(n=n, prefix="", suffix=" -> 'a'", alphabet="s(E,)", write=False), covers=["rejected"], bounds=f"at most {n} characters"))
    out.append(Ob("short arguments", short, dict(n=n, prefix="s(", suffix=") -> n(E)", alphabet="aX1,( '", write=False), covers=["accepted", "rejected"], bounds=f"s(..) with at most {n} characters"))
    out.append(Ob("short syntax", short, dict(n=n, prefix="s(E) -> 'a'", suffix="'b'", alphabet=ALPHABET, write=False), covers=["accepted", "rejected"], bounds=f"'a'..'b' with at most {n} characters"))
    out.append(Ob("short writing syntax", short, dict(n=n, prefix="s(E) -> n(E)", suffix="m(E)", alphabet="?+~'\"/ a", write=True), covers=["accepted", "rejected"], bounds=f"n(E)..m(E) with at most {n} characters"))
    out.append(Ob("short ends", short, dict(n=n, prefix="s(E) -> n(E)", suffix="", alphabet="?+~'\"/ a()E-", write=False), covers=["accepted", "rejected"], bounds=f"n(E).. with at most {n} characters"))
    for t in TOKENS:
        out.append(Ob(f"layout {t}", layout, dict(template=t, maxlen=3 if deep else 2), covers=["accepted"], bounds="at most 2-3 spaces at every place"))
    out.append(Ob("content", content, dict(maxlen=3 if deep else 2), bounds="words and expressions of at most 3-4 characters with escapes"))
    for size in (1, 2, 3) + ((4,) if deep else ()):
        out.append(Ob(f"structure {size} words", structure, dict(size=size, write=False, categories=False), bounds=f"all rules of {size} words"))
        if size < 4:
            out.append(Ob(f"structure {size} reading", structure, dict(size=size, write=False, categories=True), covers=["rejected"] if size > 1 else [], bounds=f"all rules of {size} constituents"))
            out.append(Ob(f"structure {size} writing", structure, dict(size=size, write=True, categories=True), bounds=f"all writing rules of {size} constituents"))
    if not deep:
        out.append(Ob("structure 4 words", structure, dict(size=4, write=False, categories=False), bounds="all rules of 4 words"))
    out.append(Ob("acceptance 2", acceptance, dict(n=4, size=2), covers=["accepted"], bounds="all rules of 2 constituents, all texts of at most 4 characters"))
    out.append(Ob("acceptance 3", acceptance, dict(n=6 if deep else 5, size=3), covers=["accepted"], bounds="all rules of 3 constituents, all texts of at most 5-6 characters"))
    out.append(Ob("extras", extras, bounds="all combinations of parts, arbitrary boost"))
    out.append(Ob("several", several, bounds="all orders of 4 of 5 rules"))
    for write in (False, True):
        out.append(Ob(f"long rule {write}", long_rule, dict(n=30, write=write), covers=["accepted", "rejected"], bounds="a rule of 31 constituents and 30 arguments, any character at 3 places"))
    out.append(Ob("many rules", many_rules, dict(n=120), covers=["accepted", "rejected"], bounds="120 rules, any boost, one of 3 of them malformed or none"))
    return out
