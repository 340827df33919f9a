"""C12 inference rule text is read faithfully or rejected"""
import os
import tempfile

from props.common import *
from richard.core.constants import DISJUNCTION
from richard.module.InferenceModule import InferenceModule
from richard.module.helper.SimpleInferenceRuleParser import SimpleInferenceRuleParser
from richard.type.InferenceRule import InferenceRule

ASSUMPTIONS = ["texts for which the notation is ambiguous are left out: a comma before a closing parenthesis, a group followed by a comma, "
               "an ungrouped list of atoms followed by a term that is not an atom, a predicate that starts with a capital, digit or underscore, "
               "a backslash directly before the closing quote, a branch list of one branch inside a conjunction counts as grouping"]


class Ambiguous(Exception):
    pass


class Reject(Exception):
    pass


LOWER = "abcdefghijklmnopqrstuvwxyz"
UPPER = "ABCDEFGHIJKLMNOPQRSTUVWXYZ"
DIGITS = "0123456789"
WORD = LOWER + UPPER + DIGITS + "_"


def scan(text):
    """(kind, value) pairs; comments are tokens too"""
    out = []
    i = 0
    n = len(text)
    while i < n:
        c = text[i]
        if c in " \n\t\r":
            i += 1
        elif c == "#":
            while i < n and text[i] != "\n":
                i += 1
            out.append(("comment", None))
        elif c == "'" or c == '"':
            value = ""
            j = i + 1
            escaped = False
            while j < n:
                d = text[j]
                if d == "\\" and j + 1 < n and text[j + 1] == c:
                    value = value + c
                    escaped = True
                    j += 2
                elif d == c:
                    break
                else:
                    value = value + d
                    j += 1
            if j >= n:
                if escaped:
                    raise Ambiguous()
                raise Reject()
            out.append(("string", value))
            i = j + 1
        elif c in DIGITS:
            j = i
            while j < n and text[j] in DIGITS:
                j += 1
            kind = "int"
            if j + 1 < n and text[j] == "." and text[j + 1] in DIGITS:
                kind = "float"
                j += 1
                while j < n and text[j] in DIGITS:
                    j += 1
            out.append((kind, text[i:j]))
            if j < n and text[j] in WORD:
                raise Reject()
            i = j
        elif c in WORD:
            j = i
            while j < n and text[j] in WORD:
                j += 1
            word = text[i:j]
            if c in UPPER:
                out.append(("variable", word))
            elif c == "_":
                out.append(("underscore", word))
            else:
                out.append(("name", word))
            i = j
        elif c in "(),.;":
            for k in "(),.;":
                if c == k:
                    out.append((k, None))
            i += 1
        elif c == ":" and i + 1 < n and text[i + 1] == "-":
            out.append((":-", None))
            i += 2
        else:
            raise Reject()
    return out


class Reference:
    def __init__(self, toks):
        self.toks = [t for t in toks if t[0] != "comment"]
        self.i = 0

    def peek(self, k=0):
        return self.toks[self.i + k][0] if self.i + k < len(self.toks) else "end"

    def take(self, kind):
        if self.peek() != kind:
            raise Reject()
        self.i += 1
        return self.toks[self.i - 1][1]

    def rules(self):
        out = []
        while self.peek() != "end":
            head = self.atom()
            body = []
            if self.peek() == ":-":
                self.i += 1
                body = self.atoms(False)
            self.take(".")
            out.append((head, body))
        return out

    def atom(self):
        if self.peek() in ("variable", "underscore", "int") and self.peek(1) == "(":
            raise Ambiguous()
        name = self.take("name")
        self.take("(")
        args = []
        while self.peek() != ")":
            args.append(self.term())
            if self.peek() == ",":
                self.i += 1
                if self.peek() == ")":
                    raise Ambiguous()
            elif self.peek() != ")":
                raise Reject()
        self.take(")")
        return tuple([name] + args)

    def term(self):
        k = self.peek()
        if k == "string":
            return self.take(k)
        if k == "int":
            return int(self.take(k))
        if k == "float":
            return float(self.take(k))
        if k == "variable":
            return Variable(self.take(k))
        return self.atoms(True)

    def atoms(self, in_term):
        """a conjunction, or a single group"""
        if self.peek() == "(":
            branches = self.branches()
            if len(branches) == 1:
                if self.peek() == "," and not in_term:
                    raise Ambiguous()
                return branches[0]
            out = [(DISJUNCTION, branches)]
        else:
            out = [self.atom()]
        while self.peek() == ",":
            self.i += 1
            if self.peek() == ")" or in_term and self.peek() in ("string", "int", "float", "variable"):
                raise Ambiguous()
            if self.peek() == "(":
                branches = self.branches()
                if len(branches) == 1:
                    out.extend(branches[0])
                else:
                    out.append((DISJUNCTION, branches))
            else:
                out.append(self.atom())
        return out

    def branches(self):
        self.take("(")
        out = [self.atoms(False)]
        while self.peek() == ";":
            self.i += 1
            out.append(self.atoms(False))
        self.take(")")
        return out


def reference(text):
    """-> ("rules", list) or ("reject", None) or ("ambiguous", None)"""
    try:
        return "rules", Reference(scan(text)).rules()
    except Reject:
        return "reject", None
    except Ambiguous:
        return "ambiguous", None


def flat(x):
    """a disjunction of a single branch is that branch"""
    if isinstance(x, list):
        out = []
        for e in x:
            e = flat(e)
            if isinstance(e, tuple) and len(e) == 2 and isinstance(e[0], str) and e[0] == DISJUNCTION and len(e[1]) == 1:
                out.extend(e[1][0])
            else:
                out.append(e)
        return out
    if isinstance(x, tuple):
        return tuple([flat(e) for e in x])
    return x


def typed(x):
    """with the kinds of the values"""
    if isinstance(x, Variable):
        return ("variable", x.name)
    if isinstance(x, list):
        return ["list"] + [typed(e) for e in x]
    if isinstance(x, tuple):
        return ("atom", x[0]) + tuple([typed(e) for e in x[1:]])
    if isinstance(x, float):
        return ("float", x)
    if isinstance(x, int):
        return ("int", x)
    return ("string", x)


def check_text(ctx, text, parser):
    kind, want = reference(text)
    ctx.observe("kind", kind)
    if kind == "ambiguous":
        ctx.cover("ambiguous")
        return
    result, exc = ctx.raises(lambda: parser.parse(text))
    ctx.check(exc is None, "parsing does not crash")
    rules, pos = result
    if kind == "rules":
        ctx.cover("accepted")
        ctx.check(rules is not None and pos is None, "a text in the notation is accepted")
        got = [(r.head, flat(r.body)) for r in rules]
        ctx.check(ctx.eq([(typed(h), typed(b)) for h, b in got], [(typed(h), typed(flat(b))) for h, b in want]), "read as exactly the rules written")
    else:
        ctx.cover("rejected")
        ctx.check(rules is None, "a text that is not in the notation is rejected")
        ctx.check(pos is not None and isinstance(pos, int) and pos >= 0, "with the place of the problem")


TEMPLATES = {
    "fact": "p('a', 10).",
    "rule": "p(X) :- q(X, 0), r().",
    "two": 'p(1.5). q("b").',
    "or": "p(X) :- (q(X) ; r(X), s(X)), t(1).",
    "nested": "p(X) :- f(X, (q(X), r(1))).",
    "args": "p(X) :- or((a(1), b(2)), (c(3)), d(X)).",
    "comment": "# c\np(1). # d\nq(2).#e",
    "string": "p('a\\'b', \"c\\\"d\", 'x').",
    "group": "p(X) :- (q(X), (r(X) ; s(X))).",
    "deep": "p(X) :- not(q(X), (r(X) ; (s(X), t(2)))), u(X).",
}
ALPHABET = "aX1'\"\\(),.;:-# \n_$"


def edited(ctx, template, op, lo, hi, alphabet):
    """one edit of a text: insert, replace, delete or truncate at any position"""
    text = TEMPLATES[template]
    i = ctx.choice("at", list(range(len(text) + 1))[lo:hi])
    if op == "truncate":
        text = text[:i]
    elif op == "delete":
        text = text[:i] + text[i + 1:]
    elif op == "insert":
        text = text[:i] + ctx.str("c", 1, alphabet, 1) + text[i:]
    elif op == "replace":
        text = text[:i] + ctx.str("c", 1, alphabet, 1) + text[i + 1:]
    elif op == "insert2":
        text = text[:i] + ctx.str("c", 2, alphabet, 2) + text[i:]
    elif op == "swap":
        text = text[:i] + text[i + 1:i + 2] + text[i:i + 1] + text[i + 2:]
    check_text(ctx, text, SimpleInferenceRuleParser())


def short(ctx, n, prefix, suffix, alphabet):
    check_text(ctx, prefix + ctx.str("t", n, alphabet, 0) + suffix, SimpleInferenceRuleParser())


def layout(ctx, template, maxlen):
    """any spacing and comments between any two tokens change nothing"""
    pieces = {
        "rule": ["p", "(", "X", ",", "'a b'", ")", ":-", "q", "(", "X", ",", "0", ")", ",", "(", "r", "(", ")", ";", "s", "(", "1.5", ")", ")", ".",
                 "t", "(", "2", ")", "."],
    }[template]
    plain = " ".join(pieces)
    i = ctx.choice("gap", list(range(len(pieces) + 1)))
    kind = ctx.choice("kind", ["space", "comment", "end comment", "two comments"])
    if kind == "space":
        sep = ctx.str("s", maxlen, " \n\t", 1)
    else:
        body = ctx.str("c", maxlen, "a #'\".(1)", 0)
        sep = "#" + body + "\n"
        if kind == "two comments":
            sep = " " + sep + ctx.str("s", 1, " \n\t", 0) + "#" + ctx.str("d", 1, "a'.", 0) + "\n"
        if kind == "end comment":
            ctx.assume(i == len(pieces))
            sep = "#" + body
            ctx.cover("comment without newline")
    text = " ".join(pieces[:i]) + " " + sep + " ".join(pieces[i:])
    parser = SimpleInferenceRuleParser()
    want, pos = parser.parse(plain)
    ctx.check(want is not None and pos is None, "the plain text is accepted")
    got, pos = parser.parse(text)
    ctx.check(got is not None and pos is None, "accepted with any layout")
    ctx.check(ctx.eq([(typed(r.head), typed(r.body)) for r in got], [(typed(r.head), typed(r.body)) for r in want]), "layout changes nothing")
    check_text(ctx, plain, parser)


def literals(ctx, maxlen):
    """names, variables, numbers and strings of any contents"""
    name = ctx.str("n", 1, "az", 1) + ctx.str("n2", maxlen, "aZ0_", 0)
    kind = ctx.choice("kind", ["'", '"', "int", "float", "variable"])
    if kind == "int":
        digits = ctx.str("d", maxlen + 1, DIGITS, 1)
        src, value = digits, int(digits)
    elif kind == "float":
        a, b = ctx.str("d", maxlen, "0159", 1), ctx.str("e", maxlen, "0159", 1)
        src = a + "." + b
        value = float(src)
    elif kind == "variable":
        src = ctx.str("v", 1, "AXZ", 1) + ctx.str("v2", maxlen, "aZ0_", 0)
        value = Variable(src)
    else:
        value = ctx.str("s", maxlen + 1, "a'\"\\\n #.(", 0)
        # a backslash before a quote, or at the end, has no notation
        ctx.assume(not "\\'" in value and not '\\"' in value)
        ctx.assume(len(value) == 0 or value[len(value) - 1] != "\\")
        src = kind + value.replace(kind, "\\" + kind) + kind
    where = ctx.choice("where", ["fact", "body", "nested"])
    if where == "fact":
        text = name + "(" + src + ")."
        want = [((name, value), [])]
    elif where == "body":
        text = "h(X) :- " + name + "(X," + src + ", Y)."
        want = [(("h", Variable("X")), [(name, Variable("X"), value, Variable("Y"))])]
    else:
        text = "h(" + src + ") :- f((" + name + "(" + src + "), g()))."
        want = [(("h", value), [("f", [(name, value), ("g",)])])]
    rules, pos = SimpleInferenceRuleParser().parse(text)
    ctx.check(rules is not None and pos is None, "accepted")
    ctx.check(ctx.eq([(typed(r.head), typed(r.body)) for r in rules], [(typed(h), typed(b)) for h, b in want]), "values are read as written")


def files(ctx):
    """importing: the rules take effect, or an error names the file"""
    good = ["p(1).\n", "p(2).\nq(X) :- p(X).", "# nothing\n", "", "q(X) :-\n\n  p(X).\n\np(3)\n\n.\n\n\np(4). p(5).", "\n\np('a\n\nb').\r\n\r\n# x\n\n\tq(X)\n#y\n\n:- p(X).",
            "".join([f"p({i}).\n" + ("\n# " + str(i) + ". p(0)\n" if i % 7 == 0 else "") for i in range(30)]) + "q(X) :- " + "p(X), " * 10 + "p(X)."]
    bad = ["p(1", "p(1). q", "p(1)) .", "p(-1).", "'p'.", "p(1). %"]
    folder = tempfile.mkdtemp()
    path = folder + "/some_rules.pl"
    path2 = folder + "/other_rules.pl"
    try:
        texts = [ctx.choice("first", good + bad), ctx.choice("second", good + bad)]
        ctx.assume(texts[1] != good[6] or texts[0] in ("p(1).\n", "p(1)"))     # the long one
        ctx.assume(texts[0] != good[6] or texts[1] in ("p(1).\n", "p(1)"))
        module = InferenceModule()
        want = []
        for p, text in zip([path, path2], texts):
            with open(p, "w") as f:
                f.write(text)
            _, exc = ctx.raises(lambda: module.import_rules(p))
            if text in bad:
                ctx.check(exc is not None, "a text that is not in the notation is an error")
                ctx.check(p in str(exc), "the error names the file")
                ctx.cover("bad file")
            else:
                ctx.check(exc is None, "a good file is imported")
                kind, rules = reference(text)
                want.extend(rules)
        facts = [h[1] for h, b in want if h[0] == "p"]
        solver = Solver(Model([module]))
        if len(facts) > 0:
            ctx.check(ctx.same_set([b["X"] for b in solver.solve([("p", Variable("X"))], {})], facts), "the facts of all good files")
        if len([1 for h, b in want if h[0] == "q"]) > 0 and len(facts) > 0:
            ctx.check(ctx.same_set([b["X"] for b in solver.solve([("q", Variable("X"))], {})], facts), "the rules of all good files")
    finally:
        for p in (path, path2):
            if os.path.exists(p):
                os.remove(p)
        os.rmdir(folder)


def long_text(ctx, n):
    """texts of many rules, atoms, arguments, branches and nested lists: read as written, whatever is in the middle"""
    c = ctx.str("c", 1, "X1,.)a", 1)
    shape = ctx.choice("shape", ["rules", "body", "arguments", "branches", "nested", "string", "digits", "name"])
    k = n // 2
    if shape == "rules":
        text = "".join([f"p{i}(X, {i}) :- q(X)." + ("\n" if i % 3 else "\n\n# x\n") for i in range(k)]) + "r(" + c + ").\n" + "s(1).\n" * k
    elif shape == "body":
        text = "p(X) :- " + "q(X), " * k + "r(" + c + "), " + "q(X), " * k + "s(X)."
    elif shape == "arguments":
        text = "p(" + ", ".join([str(i) for i in range(k)]) + ", " + c + ", " + ", ".join(["'b'"] * k) + ")."
    elif shape == "branches":
        text = "p(X) :- (" + " ; ".join([f"q(X, {i})" for i in range(k)]) + " ; r(" + c + ") ; " + " ; ".join(["s(X), t(X)"] * k) + ")."
    elif shape == "nested":
        text = "p(X) :- " + "not(" * 12 + "r(" + c + ")" + ")" * 12 + "."
    elif shape == "string":
        text = "p('" + "a b. #" * k + c + "') :- q(X)."
    elif shape == "digits":
        text = "p(" + "1234567890" * 3 + c + ")."
    else:
        text = "p" + "aB_1" * k + c + "(X)."
    check_text(ctx, text, SimpleInferenceRuleParser())


def obligations(tier):
    deep = tier == "thorough"
    out = []
    for t, text in TEMPLATES.items():
        for op in ("truncate", "delete", "swap"):
            out.append(Ob(f"{op} {t}", edited, dict(template=t, op=op, lo=0, hi=None, alphabet=""), bounds="every position of " + text))
        for op in ("insert", "replace") + (("insert2",) if deep else ()):
            step = 8 if op == "insert2" else 100
            for lo in range(0, len(text) + 1, step):
                out.append(Ob(f"{op} {t} {lo}", edited, dict(template=t, op=op, lo=lo, hi=lo + step, alphabet=ALPHABET), bounds=f"every position of {text}; any characters of {ALPHABET!r}"))
    n = 4 if deep else 3
    out.append(Ob("short texts", short, dict(n=n + 1, prefix="", suffix="", alphabet="p(1). #"), covers=["rejected"], bounds=f"all texts of at most {n + 1} characters of 'p(1). #'"))
    out.append(Ob("short arguments", short, dict(n=n, prefix="p(", suffix=").", alphabet=ALPHABET), covers=["accepted", "rejected"], bounds=f"p(..). with at most {n} characters"))
    out.append(Ob("short bodies", short, dict(n=n, prefix="p(X) :- ", suffix="r(X).", alphabet="q(),; 1X."), covers=["accepted", "rejected"], bounds=f"p(X) :- ..r(X). with at most {n} characters"))
    out.append(Ob("short after", short, dict(n=n, prefix="p(1)", suffix="", alphabet=".q(): -#"), covers=["accepted", "rejected"], bounds=f"p(1).. with at most {n} characters"))
    out.append(Ob("layout", layout, dict(template="rule", maxlen=3 if deep else 2), covers=["comment without newline"], bounds="spacing or comments of at most 2-3 characters at every place"))
    out.append(Ob("literals", literals, dict(maxlen=2), bounds="names, variables, numbers and strings of at most 3 characters"))
    out.append(Ob("long texts", long_text, dict(n=60), covers=["accepted", "rejected"], bounds="60 rules, atoms, arguments, branches; 12 nested lists; any character in the middle"))
    out.append(Ob("files", files, covers=["bad file"], bounds="two files of 13 texts"))
    return out
