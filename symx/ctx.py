"""
The interface between a harness and the engine.  The same harness runs symbolically (SymCtx: inputs are symbolic,
`check` is a solver query) and concretely (ConcreteCtx: inputs come from a counterexample or a sampled path, `check`
evaluates; the code under test is imported normally, without the engine).
"""
import math


class AssumptionFailed(BaseException):
    pass


class CheckFailed(BaseException):
    def __init__(self, label):
        super().__init__(label)
        self.label = label


class BaseCtx:
    def _name(self, name):
        n = self._names.get(name, 0)
        self._names[name] = n + 1
        return name if n == 0 else f"{name}#{n}"

    def flag(self, name):
        return self.choice(name, [False, True])

    def fail(self, label):
        self.check(False, label)

    def subset(self, name, items):
        return [x for i, x in enumerate(items) if self.flag(f"{name}{i}")]

    def implies(self, a, b):
        return self.any_([self.not_(a), b])

    def iff(self, a, b):
        return self.all_([self.implies(a, b), self.implies(b, a)])

    def member(self, x, items):
        """x == some element of items"""
        return self.any_([self.eq(x, y) for y in items])

    def same_set(self, a, b):
        """equal as sets (a, b: lists)"""
        return self.all_([self.member(x, b) for x in a] + [self.member(x, a) for x in b])

    def distinct(self, items):
        return self.all_([self.not_(self.eq(items[i], items[j])) for i in range(len(items)) for j in range(i)])

    def raises(self, fn):
        """run fn; returns (value, None) or (None, exception) for an ordinary exception"""
        try:
            return fn(), None
        except Exception as e:   # noqa
            return None, e


class ConcreteCtx(BaseCtx):
    symbolic = False

    def __init__(self, inputs, known=()):
        self.inputs = inputs
        self.observations = []
        self.checks = 0
        self._names = {}
        self.known = frozenset(known)
        self.covers = set()

    def _get(self, name, default):
        return self.inputs.get(self._name(name), default)

    def int(self, name, lo=None, hi=None):
        return self._get(name, lo if lo is not None else 0)

    def real(self, name, lo=None, hi=None):
        return self._get(name, 0)

    def bool(self, name):
        return self._get(name, False)

    def choice(self, name, options):
        options = list(options)
        return options[self._get(name, 0)]

    def str(self, name, maxlen, alphabet, minlen=0):
        return self._get(name, alphabet[0] * minlen)

    def assume(self, cond):
        if not cond:
            raise AssumptionFailed()

    def check(self, cond, label):
        self.checks += 1
        if not cond:
            raise CheckFailed(label)

    def cover(self, label):
        self.covers.add(label)

    def observe(self, name, value):
        self.observations.append((name, value))

    def eq(self, a, b):
        return a == b

    def all_(self, items):
        return all([bool(x) for x in items])

    def any_(self, items):
        return any([bool(x) for x in items])

    def not_(self, x):
        return not x

    def close(self, a, b):
        return math.isclose(float(a), float(b), rel_tol=1e-9, abs_tol=1e-9)

    def ite(self, c, a, b):
        return a if c else b

    def count(self, items):
        return sum(1 for x in items if x)


def make_symctx():
    import z3
    from symx import core
    from symx.core import SymInt, SymReal, SymBool, truth, f_and, f_or, f_not, f_eq, mk_bool
    from symx.strs import SymStr, SymChr

    class SymCtx(BaseCtx):
        symbolic = True

        def __init__(self, path, known=()):
            self.path = path
            self._names = {}
            self.known = frozenset(known)

        def int(self, name, lo=None, hi=None):
            name = self._name(name)
            v = z3.Int(name)
            if lo is not None:
                self.path.assume(v >= lo)
            if hi is not None:
                self.path.assume(v <= hi)
            r = SymInt(v)
            self.path.inputs[name] = r
            return r

        def real(self, name, lo=None, hi=None):
            name = self._name(name)
            v = z3.Real(name)
            if lo is not None:
                self.path.assume(v >= lo)
            if hi is not None:
                self.path.assume(v <= hi)
            r = SymReal(v)
            self.path.inputs[name] = r
            return r

        def bool(self, name):
            name = self._name(name)
            r = SymBool(z3.Bool(name))
            self.path.inputs[name] = r
            return r

        def choice(self, name, options):
            options = list(options)
            name = self._name(name)
            i = self.path.choose(len(options))
            self.path.inputs[name] = i
            return options[i]

        def str(self, name, maxlen, alphabet, minlen=0):
            name = self._name(name)
            n = minlen + self.path.choose(maxlen - minlen + 1)
            dom = frozenset(alphabet)
            items = []
            for k in range(n):
                v = z3.Int(f"{name}[{k}]")
                if len(dom) == 1:
                    items.append(alphabet[0])
                    continue
                codes = sorted(ord(c) for c in dom)
                if codes == list(range(codes[0], codes[-1] + 1)):
                    self.path.assume(z3.And(v >= codes[0], v <= codes[-1]))
                else:
                    self.path.assume(z3.Or(*[v == c for c in codes]))
                items.append(SymChr(v, dom))
            r = SymStr.make(items)
            self.path.inputs[name] = r
            return r

        def assume(self, cond):
            self.path.assume(z3.simplify(truth(cond)))

        def check(self, cond, label):
            self.path.check(truth(cond), label)

        def cover(self, label):
            self.path.covers[label] = self.path.covers.get(label, 0) + 1

        def observe(self, name, value):
            self.path.observations.append((name, value))

        def eq(self, a, b):
            return mk_bool(f_eq(a, b))

        def all_(self, items):
            return mk_bool(f_and(list(items)))

        def any_(self, items):
            return mk_bool(f_or(list(items)))

        def not_(self, x):
            return mk_bool(f_not(x))

        def close(self, a, b):
            return self.eq(a, b)

        def ite(self, c, a, b):
            """numeric if-then-else without forking"""
            return core.mk_num(z3.If(truth(c), core._num(a), core._num(b)))

        def count(self, items):
            e = z3.IntVal(0)
            for x in items:
                e = e + z3.If(truth(x), z3.IntVal(1), z3.IntVal(0))
            return core.mk_num(e)

    return SymCtx
