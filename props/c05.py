"""C05 comparison and arithmetic predicates agree with arithmetic"""
from props.common import *

X, Y, Z = Variable("X"), Variable("Y"), Variable("Z")
ASSUMPTIONS = ["decimal numbers are modelled as real numbers (no rounding)"]


def number(ctx, name, kind):
    return ctx.int(name) if kind == "int" else ctx.real(name)


def place(ctx, name, value, binding, var, modes=("const", "bound")):
    """the value as a constant or in a bound variable; 'unbound': neither"""
    mode = ctx.choice(name, modes)
    if mode == "const":
        return value, True
    if mode == "bound":
        binding[var.name] = value
        return var, True
    return var, False


def extra(ctx):
    return {"Q": ctx.int("q")}


def compare(ctx, pred, kinds):
    a, b = number(ctx, "a", kinds[0]), number(ctx, "b", kinds[1])
    binding = extra(ctx)
    x, _ = place(ctx, "x", a, binding, X)
    y, _ = place(ctx, "y", b, binding, Y)
    before = clone(binding)
    r = Solver(Model([])).solve([(pred, x, y)], binding)
    ctx.observe("r", r)
    true = {"equals": lambda: a == b, "greater_than": lambda: a > b, "less_than": lambda: a < b}[pred]()
    ctx.check(ctx.iff(len(r) == 1, true), pred + " holds exactly when the comparison does")
    ctx.check(len(r) < 2, "at most one answer")
    for s in r:
        ctx.check(ctx.eq(s, before), "the binding is unchanged")


def same_variable(ctx):
    a = ctx.int("a")
    for pred, want in (("equals", 1), ("greater_than", 0), ("less_than", 0)):
        r = Solver(Model([])).solve([(pred, X, X)], {"X": a})
        ctx.check(len(r) == want, pred + " of a value and itself")


def equals_values(ctx):
    """equality of values of any kind, and binding of one side"""
    kinds = ["int", "str", "''", "list", "atom"]

    def value(name):
        k = ctx.choice(name + "k", kinds)
        if k == "list":
            return [ctx.int(name + "l")] if ctx.flag(name + "e") else []
        if k == "atom":
            return [("p", ctx.int(name + "t"))]
        return mixed_value(ctx, name, [k])
    a = value("a")
    binding = extra(ctx)
    mode = ctx.choice("mode", ["both", "left", "right", "none", "left const", "right const"])
    if mode in ("both", "left"):
        binding["X"] = a
    b = a
    if mode == "both":
        b = value("b")
        binding["Y"] = b
    elif mode == "right":
        binding["Y"] = a
    x = a if mode == "left const" else X
    y = a if mode == "right const" else Y
    before = clone(binding)
    solver = Solver(Model([]))
    r, exc = ctx.raises(lambda: solver.solve([("equals", x, y)], binding))
    if mode == "none":
        ctx.check(exc is not None and not isinstance(exc, (TypeError, KeyError, AttributeError, IndexError)),
                  "two unbound sides are a descriptive error")
        return
    ctx.check(exc is None, "no error")
    ctx.observe("r", r)
    if mode == "both":
        ctx.check(ctx.iff(len(r) == 1, ctx.eq(a, b)), "equal exactly when the values are")
    else:
        ctx.check(len(r) == 1, "an unbound side can always be made equal")
        want = dict(before)
        if mode in ("left", "right const"):
            want["Y" if mode == "left" else "X"] = a
        elif mode in ("right", "left const"):
            want["X" if mode == "right" else "Y"] = a
        ctx.check(ctx.eq(r[0], want), "the unbound side gets the value of the other, nothing else changes")
    ctx.check(ctx.eq(binding, before), "the binding passed in is unchanged")


def multiply(ctx, kinds, third):
    a, b = number(ctx, "a", kinds[0]), number(ctx, "b", kinds[1])
    c = number(ctx, "c", kinds[0]) if third != "unbound" else None
    binding = extra(ctx)
    x, _ = place(ctx, "x", a, binding, X)
    y, _ = place(ctx, "y", b, binding, Y)
    z = c if third == "const" else Z
    if third == "bound":
        binding["Z"] = c
    before = clone(binding)
    r = Solver(Model([])).solve([("multiply", x, y, z)], binding)
    ctx.observe("r", r)
    if third == "unbound":
        want = dict(before)
        want["Z"] = a * b
        ctx.check(ctx.eq(r, [want]), "the product is bound")
    else:
        ctx.check(ctx.iff(len(r) == 1, ctx.eq(a * b, c)), "a given product is confirmed exactly when it is right")
        for s in r:
            ctx.check(ctx.eq(s, before), "the binding is unchanged")
        if len(r) > 0:
            ctx.cover("confirmed")
        else:
            ctx.cover("denied")


def chain(ctx):
    """results of one predicate are the input of the next"""
    a, b, c = ctx.int("a"), ctx.int("b"), ctx.int("c")
    r = Solver(Model([])).solve([("let", X, a), ("multiply", X, b, Y), ("greater_than", Y, c), ("equals", Z, Y)], {})
    ctx.check(ctx.iff(len(r) == 1, a * b > c), "chained comparison")
    for s in r:
        ctx.check(ctx.eq(s, {"X": a, "Y": a * b, "Z": a * b}), "chained values")
    facts = Facts({"p": [[a], [b]]})
    r = Solver(Model([facts])).solve([("p", X), ("less_than", X, c)], {})
    ctx.check(ctx.iff(ctx.any_([ctx.eq(s, {"X": a}) for s in r]), a < c), "filter keeps what holds")
    ctx.check(ctx.iff(ctx.any_([ctx.eq(s, {"X": b}) for s in r]), b < c), "filter keeps what holds")


def let(ctx):
    v = mixed_value(ctx, "v", ["int", "''", "str", "1.5", "neg"])
    if ctx.flag("list"):
        v = [v]
    binding = extra(ctx)
    y = v
    if ctx.flag("from variable"):
        binding["Y"] = v
        y = Y
    want = dict(binding)
    want["X"] = v
    r = Solver(Model([])).solve([("let", X, y)], binding)
    ctx.observe("r", r)
    ctx.check(ctx.eq(r, [want]), "the variable gets the value")


def unbound(ctx, pred):
    """an unbound argument is a descriptive error, a falsy one is not"""
    a = mixed_value(ctx, "a", ["int", "0", "1.5", "neg"])
    binding = extra(ctx)
    modes = ("const", "bound", "unbound")
    x, xb = place(ctx, "x", a, binding, X, modes)
    y, yb = place(ctx, "y", ctx.int("b"), binding, Y, modes)
    atom = (pred, x, y, Z) if pred == "multiply" else (pred, x, y)
    _, exc = ctx.raises(lambda: Solver(Model([])).solve([atom], binding))
    ctx.check((exc is None) == (xb and yb), "an error exactly when an argument is unbound")
    if exc is not None:
        ctx.check(not isinstance(exc, (TypeError, KeyError, AttributeError, IndexError)), "the error is descriptive")
        ctx.check(len(str(exc)) > 0, "the error has a text")


def strings(ctx):
    """texts compare as texts"""
    a, b = ctx.str("a", 2, "0Aab"), ctx.str("b", 2, "0Aab")
    for pred, want in (("equals", a == b), ("greater_than", a > b), ("less_than", a < b)):
        r = Solver(Model([])).solve([(pred, X, Y)], {"X": a, "Y": b})
        ctx.check(ctx.iff(len(r) == 1, want), pred + " of texts")


def obligations(tier):
    out = []
    kinds = [("int", "int"), ("real", "real"), ("int", "real")]
    for pred in ("equals", "greater_than", "less_than"):
        for k in kinds:
            out.append(Ob(f"{pred} {k[0]} {k[1]}", compare, dict(pred=pred, kinds=k), bounds="all numbers"))
    out.append(Ob("same variable", same_variable, bounds="all integers"))
    out.append(Ob("equals values", equals_values, bounds="integers, texts of at most 1 character, lists of at most one element, atoms"))
    for third in ("unbound", "bound", "const"):
        for k in kinds:
            out.append(Ob(f"multiply {k[0]} {k[1]} {third}", multiply, dict(kinds=k, third=third),
                          covers=[] if third == "unbound" else ["confirmed", "denied"], bounds="all numbers"))
    out.append(Ob("chain", chain, bounds="all integers"))
    out.append(Ob("let", let, bounds="integers, texts, 1.5"))
    for pred in ("greater_than", "less_than", "multiply"):
        out.append(Ob(f"unbound {pred}", unbound, dict(pred=pred), bounds="all integers, 1.5"))
    out.append(Ob("strings", strings, bounds="texts of at most 2 characters of '0Aab'"))
    return out
