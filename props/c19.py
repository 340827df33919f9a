"""C19 applying a semantic template substitutes exactly its slots"""
from props.common import *
from richard.core.constants import Body, Range
from richard.processor.parser.helper.grammar_functions import apply
from richard.type.SemanticTemplate import SemanticTemplate

ASSUMPTIONS = ["a slot's token is not also a text in an atom"]

A, B = Variable("A"), Variable("B")
SCOPE = ["__$Scope$__"]


def fill(x, pairs):
    """the elements that take the place of x"""
    for slot, value in pairs:
        if isinstance(x, str) and x == slot[0]:
            return list(value)
    if isinstance(x, list):
        return [flat(x, pairs)]
    if isinstance(x, tuple):
        return [tuple(flat(list(x), pairs))]
    return [x]


def flat(xs, pairs):
    out = []
    for x in xs:
        out.extend(fill(x, pairs))
    return out


def element(ctx, label, depth, slots):
    """an element of a list of atoms"""
    kinds = ["atom", "atom with list", "atom in atom", "list"] if depth > 0 else ["atom", "empty atom"]
    kind = ctx.choice(label, ["slot" + str(i) for i in range(len(slots))] + kinds)
    if kind.startswith("slot"):
        return slots[int(kind[4:])][0]
    if kind == "atom":
        return ("p" + label, A, ctx.int(label + "k"))
    if kind == "empty atom":
        return ("r",)
    if kind == "atom with list":
        return ("f", B, elements(ctx, label, depth - 1, slots, 2), 1)
    if kind == "atom in atom":
        return ("g", tuple(["h"] + elements(ctx, label, depth - 1, slots, 1)), ctx.str(label + "t", 1, "_$", 0))
    return elements(ctx, label, depth - 1, slots, 2)


def elements(ctx, label, depth, slots, most):
    n = ctx.choice(label + "n", list(range(most + 1)))
    return [element(ctx, label + "." + str(i), depth, slots) for i in range(n)]


def value(ctx, label, slots, most):
    """the atoms for a slot: any number, possibly with slots of their own"""
    out = []
    for i in range(ctx.choice(label + "n", list(range(most + 1)))):
        kind = ctx.choice(label + str(i), ["atom", "deep"] + ["slot" + str(j) for j in range(len(slots))] + ["deep slot" + str(j) for j in range(len(slots))])
        if kind == "atom":
            out.append((label, ctx.int(label + str(i) + "k"), A))
        elif kind == "deep":
            out.append((label, [("q", ctx.int(label + str(i) + "k"))], (0, "")))
        elif kind.startswith("slot"):
            out.append(slots[int(kind[4:])][0])
        else:
            out.append((label, slots[int(kind[9:])] + [("x", 1)]))
    return out


def check(ctx, template, values, label):
    body, args, given = clone(template.body), clone(template.args), clone(values)
    got = apply(template, *values)
    want = flat(body, list(zip(args, given)))
    ctx.check(isinstance(got, list) and ctx.eq(got, want), label + ": exactly the slots are replaced, by their atoms in order")
    ctx.check(ctx.eq(typed(got), typed(want)), label + ": lists stay lists and atoms stay atoms")
    ctx.check(ctx.eq([template.body, template.args], [body, args]), label + ": the template is unchanged")
    ctx.check(ctx.eq(list(values), given), label + ": the arguments are unchanged")
    return got


def typed(x):
    if isinstance(x, list):
        return ["list"] + [typed(e) for e in x]
    if isinstance(x, tuple):
        return ["atom"] + [typed(e) for e in x]
    return 0


def shapes(ctx, first, depth, most):
    """one slot, any template"""
    slots = [Body]
    kinds = {"slot": Body[0], "atom": ("p", A, ctx.int("k"))}
    body = [kinds[first]] if first in kinds else [("f", B, elements(ctx, "l", depth, slots, 2 if most > 0 else 1)), ("g", Body)] if first == "list" else [("g", ("h", Body[0], elements(ctx, "l", depth, slots, 1)))]
    body = body + elements(ctx, "t", depth, slots, most)
    check(ctx, SemanticTemplate([Body], body), [value(ctx, "v", [], 2)], "apply")


def two(ctx, depth, most, own):
    """two slots, and arguments that contain slots themselves"""
    slots = [Range, Body]
    if ctx.flag("swap"):
        slots = [Body, Range]
    body = ctx.choice("body", [Range + Body, Body + Range, [("none", Range + Body)], [("all", A, Range, Body)], Range + [("not", Body)] + Range, [("f", ("g", Range[0]), [[Body]])]])
    body = clone(body) + elements(ctx, "t", depth, [], most)
    check(ctx, SemanticTemplate(slots, body), [value(ctx, "r", [Body, Range, SCOPE][:own], 1), value(ctx, "b", [Range, Body][:own], 2)], "apply")


def again(ctx):
    """the same template with other arguments; the earlier result stays"""
    template = SemanticTemplate([Body], ctx.choice("body", [[Body[0]], [("f", A, Body + [("q", ctx.int("k"))]), Body[0]], [("f", (0, [("g", Body)]))]]))
    first = check(ctx, template, [value(ctx, "v", [Body], 1)], "first")
    kept = clone(first)
    second = check(ctx, template, [value(ctx, "w", [SCOPE], 2)], "second")
    second.append(("extra",))
    ctx.check(ctx.eq(first, kept), "the results are separate")
    check(ctx, template, [[("z", ctx.int("z"))]], "third")


def nested(ctx):
    """a template applied with the slot of another template, that is applied later"""
    inner = SemanticTemplate([Range, Body], [("det", A, Range, Body + [("k", ctx.int("k"))])])
    noun = value(ctx, "n", [], 1)
    own = ctx.choice("own", [Body, Range, SCOPE])
    outer = SemanticTemplate([own], check(ctx, inner, [noun, own], "inner"))
    verb = value(ctx, "v", [], 2)
    got = check(ctx, outer, [verb], "outer")
    ctx.check(ctx.eq(got, [("det", A, noun, verb + [("k", inner.body[0][3][1][1])])]), "as if applied at once")


def none(ctx):
    """a template without slots, and slots without an argument"""
    body = [("p", ctx.int("k"), [("q",)]), ("r", Body)]
    got = apply(SemanticTemplate([], clone(body)))
    ctx.check(ctx.eq(got, body), "no slots")
    got = apply(SemanticTemplate([Range, Body], clone(body)), [("x",)])
    ctx.check(ctx.eq(got, body), "a slot without an argument stays")


def many(ctx, n):
    """a large template: many atoms, deep nesting, many slots, many atoms for a slot"""
    slots = [Body, Range] if ctx.flag("two slots") else [Body]
    v = [("v", ctx.int("v"), i) for i in range(ctx.choice("atoms", [0, 1, n]))]
    w = [("w", [("x", ctx.int("w"))])] + [("w", i) for i in range(n // 2)]
    kind = ctx.choice("shape", ["long", "deep", "wide atom", "many slots"])
    s, t = slots[0][0], slots[-1][0]
    if kind == "long":
        body = [("p", A, i) if i % 9 else ("f", [s, ("q", i)], B) for i in range(n)] + [t]
    elif kind == "deep":
        body = [("leaf", A), s]
        for i in range(n):
            body = [("f", B, body) if i % 3 else ("g", body + [t] if i == 4 else body, i)]
    elif kind == "wide atom":
        body = [tuple(["p"] + [[s] if i % 8 == 0 else i for i in range(n)] + [[t, ("q", A)]])]
    else:
        body = [s, t] * (n // 4) + [("p", [t] * 5 + [s] * 5)]
    check(ctx, SemanticTemplate(slots, body), [v, w][:len(slots)], "large")


def obligations(tier):
    deep = tier == "thorough"
    out = []
    for first in ("slot", "atom", "list", "deep"):
        out.append(Ob(f"shapes {first}", shapes, dict(first=first, depth=1, most=1 if deep or first != "list" else 0), bounds="templates of at most 2-3 elements of depth 2-3; arguments of at most 2 atoms"))
    if deep:
        out.append(Ob("shapes deeper", shapes, dict(first="deep", depth=2, most=0), bounds="templates of 1 element of depth 4"))
    for own in (0, 1, 2, 3):
        out.append(Ob(f"two {own}", two, dict(depth=0, most=1 if own == 0 else 0, own=own), bounds="6 templates with two slots; arguments of at most 2 atoms with up to 3 slots of their own"))
    out.append(Ob("again", again, bounds="3 templates, 3 applications"))
    out.append(Ob("nested", nested, bounds="a template in a template"))
    out.append(Ob("none", none, bounds="2 templates"))
    out.append(Ob("large", many, dict(n=40), bounds="40 atoms, levels, arguments or slots; arguments of up to 40 atoms"))
    return out
