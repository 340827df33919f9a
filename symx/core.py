"""
Symbolic values and path exploration.

A *path* is one execution of a harness in which every data-dependent branch on a symbolic value is a decision,
recorded as an integer in a trace.  Paths are explored depth first by re-execution from a trace prefix; every
feasible alternative is found with an SMT query.  See DESIGN.md for the argument why completing the exploration
without a violation means that the assertions hold for every value of the symbolic inputs within their bounds.
"""
import os
import sys
import time
from fractions import Fraction

import z3

z3.set_param("model.compact", False)


class EngineStop(BaseException):
    """Base of the control flow exceptions of the engine (never caught by `except Exception`)."""


class PathInfeasible(EngineStop):
    pass


class PathDone(EngineStop):
    pass


class Inconclusive(EngineStop):
    pass


def where():
    """the innermost place outside the engine (for messages)"""
    f = sys._getframe(1)
    names = []
    while f is not None and len(names) < (12 if os.environ.get("SYMX_DEBUG") else 3):
        if "/symx/" not in f.f_code.co_filename or os.environ.get("SYMX_DEBUG"):
            names.append(f"{f.f_code.co_filename.split('/')[-1]}:{f.f_lineno} {f.f_code.co_name}")
        f = f.f_back
    return " < ".join(names)


class Violation(EngineStop):
    def __init__(self, label, detail=""):
        super().__init__(label)
        self.label = label
        self.detail = detail


TRUE = z3.BoolVal(True)
FALSE = z3.BoolVal(False)

CUR = None  # the current path


class Path:
    def __init__(self, prefix, query_timeout_ms=15000, max_decisions=4000):
        self.prefix = list(prefix)
        self.trace = []
        self.pending = []
        self.solver = z3.SimpleSolver()
        self.solver.set("timeout", query_timeout_ms)
        self.timeout = query_timeout_ms
        self.answering = self.solver
        self.model = None
        self.known = {}
        self.keep = []
        self.max_decisions = max_decisions
        self.queries = 0
        self.solver_time = 0.0
        self.checks = {}
        self.covers = {}
        self.inputs = {}       # name -> sym or concrete value, in creation order
        self.observations = []
        self.violation = None
        self.functions = {}
        self.dom = {}          # ast id of a variable -> frozenset domain (small finite)

    # --- solver helpers
    def query(self, *assumptions):
        t = time.time()
        self.answering = self.solver
        r = self.solver.check(*assumptions)
        for attempt in (1, 2, 3):
            # a hard (nonlinear) query gets a fresh solver, another seed and other tactics
            if r != z3.unknown:
                break
            self.answering = z3.SimpleSolver() if attempt == 1 else z3.Solver()
            self.answering.set("timeout", self.timeout)
            self.answering.set("random_seed", attempt)
            self.answering.add(self.solver.assertions())
            self.answering.add(*assumptions)
            r = self.answering.check()
        self.solver_time += time.time() - t
        self.queries += 1
        if r == z3.unknown:
            raise Inconclusive("solver answered unknown: " + self.solver.reason_unknown())
        return r == z3.sat

    def get_model(self):
        if self.model is None:
            if not self.query():
                raise PathInfeasible()
            self.model = self.answering.model()
        return self.model

    def add(self, cond):
        self.solver.add(cond)
        self.keep.append(cond)

    def learn(self, cond, value):
        self.known[cond.get_id()] = value
        self.keep.append(cond)

    # --- branching
    def branch(self, cond):
        """cond: z3 Bool; returns a python bool; records the decision"""
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        k = self.known.get(cond.get_id())
        if k is not None:
            return k
        s = z3.simplify(cond)
        if z3.is_true(s):
            return True
        if z3.is_false(s):
            return False
        k = self.known.get(s.get_id())
        if k is not None:
            return k
        neg = False
        if z3.is_not(s):
            s = s.arg(0)
            neg = True
            k = self.known.get(s.get_id())
            if k is not None:
                return not k
        v = self._decide(s)
        self.learn(s, v)
        self.learn(cond, v != neg)
        return v != neg

    def _decide(self, s):
        pos = len(self.trace)
        if pos < len(self.prefix):
            d = self.prefix[pos]
            if d in (2, 3):
                # a forced decision: implied by the path condition
                self.trace.append(d)
                return d == 3
            v = bool(d)
            self.trace.append(d)
            self._assume_branch(s, v)
            return v
        if pos > self.max_decisions:
            raise Inconclusive("too many decisions on one path")
        m = self.get_model()
        v = z3.is_true(m.eval(s, model_completion=True))
        other = z3.Not(s) if v else s
        if self.query(other):
            self.pending.append(self.trace + [0 if v else 1])
            self.trace.append(1 if v else 0)
            self.add(s if v else z3.Not(s))
        else:
            self.trace.append(3 if v else 2)
        return v

    def _assume_branch(self, s, v):
        c = s if v else z3.Not(s)
        self.add(c)
        if self.model is not None:
            if not z3.is_true(self.model.eval(c, model_completion=True)):
                self.model = None

    def choose(self, n):
        """a free n-way choice"""
        if n == 1:
            return 0
        pos = len(self.trace)
        if pos < len(self.prefix):
            d = self.prefix[pos]
        else:
            d = 0
            for i in range(n - 1, 0, -1):
                self.pending.append(self.trace + [i])
        self.trace.append(d)
        return d

    def assume(self, cond):
        if z3.is_true(cond):
            return
        self._assume_branch(cond, True)
        if len(self.trace) >= len(self.prefix):
            self.get_model()
        self.learn(cond, True)

    def realize(self, expr):
        """turn an Int/Real/Bool z3 expression into a python value, forking over all its possible values"""
        s = z3.simplify(expr)
        v = z3_value(s)
        if v is not None:
            return v
        n = 0
        while True:
            pos = len(self.trace)
            if pos < len(self.prefix):
                # the value is recorded in the trace
                val = self.prefix[pos]
                assert isinstance(val, tuple), "trace mismatch"
                kind, val = val
                self.trace.append((kind, val))
                zv = to_z3(val)
                if kind == "eq":
                    self._assume_branch(s == zv, True)
                    return val
                elif kind == "only":
                    return val
                else:
                    self._assume_branch(s != zv, True)
                    n += 1
                    continue
            val = z3_value(self.get_model().eval(s, model_completion=True))
            zv = to_z3(val)
            if self.query(s != zv):
                if n > 300:
                    raise Inconclusive("more than 300 values in a realization, at " + where())
                self.pending.append(self.trace + [("ne", val)])
                self.trace.append(("eq", val))
                self.add(s == zv)
            else:
                self.trace.append(("only", val))
            return val

    # --- assertions
    def check(self, cond, label):
        replayed = len(self.trace) < len(self.prefix)
        if not replayed:
            self.checks[label] = self.checks.get(label, 0) + 1
        if z3.is_true(cond):
            return
        s = z3.simplify(cond)
        if z3.is_true(s):
            return
        # (while the prefix of an earlier path is replayed, this query was answered on that path already)
        if not replayed and self.query(z3.Not(s)):
            self.model = self.answering.model()
            self.violation = label
            raise Violation(label)
        self.learn(s, True)
        self.learn(cond, True)


def z3_value(v):
    if z3.is_int_value(v):
        return v.as_long()
    if z3.is_true(v):
        return True
    if z3.is_false(v):
        return False
    if z3.is_rational_value(v):
        return Fraction(v.numerator_as_long(), v.denominator_as_long())
    return None


def to_z3(v):
    if isinstance(v, bool):
        return z3.BoolVal(v)
    if isinstance(v, int):
        return z3.IntVal(v)
    if isinstance(v, Fraction):
        return z3.RealVal(str(v))
    if isinstance(v, float):
        f = Fraction(v)
        return z3.RealVal(f"{f.numerator}/{f.denominator}")
    raise TypeError(v)


# --------------------------------------------------------------------------------------------- numbers


class Sym:
    """marker base class of all symbolic values"""
    __slots__ = ()


def _num(x):
    """-> z3 arith expression or None"""
    t = type(x)
    if t is SymInt or t is SymReal:
        return x.e
    if t is SymBool:
        return z3.If(x.e, z3.IntVal(1), z3.IntVal(0))
    if t is int:
        return z3.IntVal(x)
    if t is bool:
        return z3.IntVal(int(x))
    if t is float:
        if x != x or x in (float("inf"), float("-inf")):
            return None
        return to_z3(x)
    if t is Fraction:
        return to_z3(x)
    return None


def _coerce(a, b):
    if a.is_real() and not b.is_real():
        b = z3.ToReal(b)
    elif b.is_real() and not a.is_real():
        a = z3.ToReal(a)
    return a, b


def mk_num(e):
    s = z3.simplify(e) if z3.is_app(e) and e.num_args() > 0 else e
    v = z3_value(s)
    if v is not None:
        if isinstance(v, Fraction):
            return SymReal(s)
        return v
    return SymReal(s) if s.is_real() else SymInt(s)


def mk_bool(e):
    if z3.is_true(e):
        return True
    if z3.is_false(e):
        return False
    return SymBool(e)


def _arith(name):
    def op(self, other):
        o = _num(other)
        if o is None:
            return NotImplemented
        a, b = _coerce(_num(self), o)
        if name == "add":
            return mk_num(a + b)
        if name == "sub":
            return mk_num(a - b)
        if name == "mul":
            return mk_num(a * b)
    return op


def _rarith(name):
    def op(self, other):
        o = _num(other)
        if o is None:
            return NotImplemented
        a, b = _coerce(o, _num(self))
        if name == "add":
            return mk_num(a + b)
        if name == "sub":
            return mk_num(a - b)
        if name == "mul":
            return mk_num(a * b)
    return op


def _cmp(name):
    def op(self, other):
        o = _num(other)
        if o is None:
            if name == "eq":
                return False if not isinstance(other, Sym) else NotImplemented
            if name == "ne":
                return True if not isinstance(other, Sym) else NotImplemented
            return NotImplemented
        a, b = _coerce(_num(self), o)
        if name == "eq":
            r = a == b
        elif name == "ne":
            r = a != b
        elif name == "lt":
            r = a < b
        elif name == "le":
            r = a <= b
        elif name == "gt":
            r = a > b
        else:
            r = a >= b
        return mk_bool(z3.simplify(r))
    return op


class _SymNum(Sym):
    __slots__ = ("e",)

    def __init__(self, e):
        self.e = e

    __add__ = _arith("add")
    __sub__ = _arith("sub")
    __radd__ = _rarith("add")
    __rsub__ = _rarith("sub")
    __eq__ = _cmp("eq")
    __ne__ = _cmp("ne")
    __lt__ = _cmp("lt")
    __le__ = _cmp("le")
    __gt__ = _cmp("gt")
    __ge__ = _cmp("ge")

    def __mul__(self, other):
        if isinstance(other, (list, tuple, str)) and not isinstance(other, Sym):
            return other * self.__index__()
        if type(other).__name__ == "SymStr":
            return NotImplemented
        return _arith("mul")(self, other)

    __rmul__ = __mul__

    def __neg__(self):
        return mk_num(-_num(self))

    def __pos__(self):
        return self

    def __abs__(self):
        a = _num(self)
        return mk_num(z3.If(a >= 0, a, -a))

    def __truediv__(self, other):
        o = _num(other)
        if o is None:
            return NotImplemented
        if CUR.branch(o == 0):
            raise ZeroDivisionError("division by zero")
        a, b = _num(self), o
        a = a if a.is_real() else z3.ToReal(a)
        b = b if b.is_real() else z3.ToReal(b)
        return SymReal(z3.simplify(a / b))

    def __rtruediv__(self, other):
        o = _num(other)
        if o is None:
            return NotImplemented
        return SymReal(o if o.is_real() else z3.ToReal(o)).__truediv__(self)

    def _divmod(self, a, b):
        if CUR.branch(b == 0):
            raise ZeroDivisionError("integer division or modulo by zero")
        if a.is_real() or b.is_real():
            a, b = _coerce(a, b)
            if not a.is_real():
                a, b = z3.ToReal(a), z3.ToReal(b)
            q = z3.ToReal(z3.ToInt(a / b))
            return mk_num(q), mk_num(a - q * b)
        if CUR.branch(b > 0):
            return mk_num(a / b), mk_num(a % b)
        # python: floor semantics
        q = (-a) / (-b)
        return mk_num(q), mk_num(a - q * b)

    def __floordiv__(self, other):
        o = _num(other)
        return NotImplemented if o is None else self._divmod(_num(self), o)[0]

    def __mod__(self, other):
        o = _num(other)
        return NotImplemented if o is None else self._divmod(_num(self), o)[1]

    def __rfloordiv__(self, other):
        o = _num(other)
        return NotImplemented if o is None else self._divmod(o, _num(self))[0]

    def __rmod__(self, other):
        o = _num(other)
        return NotImplemented if o is None else self._divmod(o, _num(self))[1]

    def __divmod__(self, other):
        o = _num(other)
        return NotImplemented if o is None else self._divmod(_num(self), o)

    def __pow__(self, other):
        if type(other) is int and 0 <= other <= 4:
            r = 1
            for _ in range(other):
                r = r * self
            return r
        return self.value() ** (other.value() if isinstance(other, Sym) else other)

    def __bool__(self):
        return CUR.branch(_num(self) != 0)

    def value(self):
        v = CUR.realize(_num(self))
        return v

    def __hash__(self):
        return hash(self.value())

    def __str__(self):
        return str(self.value())

    def __repr__(self):
        return repr(self.value())

    def __format__(self, spec):
        return format(self.value(), spec)

    def __int__(self):
        return int(self.value())

    def __float__(self):
        return float(self.value())

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __reduce__(self):
        v = self.value()
        return (float if isinstance(v, Fraction) else type(v), (float(v) if isinstance(v, Fraction) else v,))


class SymInt(_SymNum):
    __slots__ = ()

    @property
    def __class__(self):
        return int

    def __index__(self):
        return self.value()

    def __trunc__(self):
        return self

    def __floor__(self):
        return self

    def __ceil__(self):
        return self

    def __round__(self, n=None):
        if n is None or n >= 0:
            return self
        return round(self.value(), n)

    def bit_length(self):
        return self.value().bit_length()

    def __and__(self, o):
        return self.value() & (o.value() if isinstance(o, Sym) else o)

    def __or__(self, o):
        return self.value() | (o.value() if isinstance(o, Sym) else o)

    def __xor__(self, o):
        return self.value() ^ (o.value() if isinstance(o, Sym) else o)

    def __lshift__(self, o):
        return self.value() << (o.value() if isinstance(o, Sym) else o)

    def __rshift__(self, o):
        return self.value() >> (o.value() if isinstance(o, Sym) else o)

    def __invert__(self):
        return -self - 1

    def is_integer(self):
        return True


class SymReal(_SymNum):
    __slots__ = ()

    @property
    def __class__(self):
        return float

    def value(self):
        v = CUR.realize(self.e)
        return float(v)

    def __round__(self, n=None):
        k = 10 ** (n or 0)
        # half to even is decided exactly on the rational
        x = self.e * k
        fl = z3.ToInt(x)
        diff = x - z3.ToReal(fl)
        r = z3.If(diff < to_z3(Fraction(1, 2)), fl,
                  z3.If(diff > to_z3(Fraction(1, 2)), fl + 1, z3.If(fl % 2 == 0, fl, fl + 1)))
        if n is None:
            return mk_num(r)
        return SymReal(z3.simplify(z3.ToReal(r) / k))

    def __trunc__(self):
        return mk_num(z3.If(self.e >= 0, z3.ToInt(self.e), -z3.ToInt(-self.e)))

    def __floor__(self):
        return mk_num(z3.ToInt(self.e))

    def __ceil__(self):
        return mk_num(-z3.ToInt(-self.e))

    def is_integer(self):
        return mk_bool(z3.IsInt(self.e))


class SymBool(Sym):
    __slots__ = ("e",)

    def __init__(self, e):
        self.e = e

    @property
    def __class__(self):
        return bool

    def __bool__(self):
        return CUR.branch(self.e)

    def value(self):
        return CUR.branch(self.e)

    def _b(self, o):
        if type(o) is bool:
            return z3.BoolVal(o)
        if type(o) is SymBool:
            return o.e
        return None

    def __and__(self, o):
        b = self._b(o)
        return NotImplemented if b is None else mk_bool(z3.And(self.e, b))

    def __or__(self, o):
        b = self._b(o)
        return NotImplemented if b is None else mk_bool(z3.Or(self.e, b))

    def __xor__(self, o):
        b = self._b(o)
        return NotImplemented if b is None else mk_bool(z3.Xor(self.e, b))

    __rand__ = __and__
    __ror__ = __or__
    __rxor__ = __xor__

    def __eq__(self, o):
        b = self._b(o)
        if b is not None:
            return mk_bool(z3.simplify(self.e == b))
        n = _num(o)
        if n is None:
            return NotImplemented if isinstance(o, Sym) else False
        return mk_bool(_num(self) == n)

    def __ne__(self, o):
        r = self.__eq__(o)
        if r is NotImplemented:
            return r
        return (not r) if type(r) is bool else mk_bool(z3.Not(r.e))

    __lt__ = _cmp("lt")
    __le__ = _cmp("le")
    __gt__ = _cmp("gt")
    __ge__ = _cmp("ge")
    __add__ = _arith("add")
    __radd__ = _rarith("add")
    __sub__ = _arith("sub")
    __rsub__ = _rarith("sub")
    __mul__ = _arith("mul")
    __rmul__ = _rarith("mul")

    def __neg__(self):
        return -mk_num(_num(self))

    def __pos__(self):
        return mk_num(_num(self))

    __abs__ = __pos__

    def __invert__(self):
        return ~int(self.value())

    def __truediv__(self, o):
        return mk_num(_num(self)) / o

    def __rtruediv__(self, o):
        return o / mk_num(_num(self))

    def __hash__(self):
        return hash(self.value())

    def __str__(self):
        return str(self.value())

    def __repr__(self):
        return repr(self.value())

    def __index__(self):
        return int(self.value())

    def __int__(self):
        return int(self.value())

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __reduce__(self):
        return (bool, (self.value(),))


# --------------------------------------------------------------------------------------------- formulas


def truth(x):
    """python truth value of x as a z3 Bool, without forking"""
    t = type(x)
    if t is SymBool:
        return x.e
    if t is bool:
        return TRUE if x else FALSE
    if z3.is_expr(x):
        return x
    if t is SymInt or t is SymReal:
        return x.e != 0
    return TRUE if x else FALSE


def f_and(items):
    out = []
    for x in items:
        x = truth(x)
        if z3.is_false(x):
            return FALSE
        if not z3.is_true(x):
            out.append(x)
    if not out:
        return TRUE
    return out[0] if len(out) == 1 else z3.And(*out)


def f_or(items):
    out = []
    for x in items:
        x = truth(x)
        if z3.is_true(x):
            return TRUE
        if not z3.is_false(x):
            out.append(x)
    if not out:
        return FALSE
    return out[0] if len(out) == 1 else z3.Or(*out)


def f_not(x):
    x = truth(x)
    if z3.is_true(x):
        return FALSE
    if z3.is_false(x):
        return TRUE
    return z3.Not(x)


def f_eq(a, b):
    """python's == as a formula, structurally over lists, tuples and dicts; no forking"""
    from symx.strs import SymStr
    if a is b:
        return TRUE
    ta, tb = type(a), type(b)
    if ta is SymStr or tb is SymStr:
        sa = a if ta is SymStr else SymStr.lift(a)
        sb = b if tb is SymStr else SymStr.lift(b)
        if sa is None or sb is None:
            return FALSE
        return sa.eq_formula(sb)
    na, nb = _num(a), _num(b)
    if na is not None and nb is not None:
        na, nb = _coerce(na, nb)
        return z3.simplify(na == nb)
    if isinstance(a, Sym) or isinstance(b, Sym):
        return FALSE
    if isinstance(a, dict) and isinstance(b, dict):
        if len(a) != len(b):
            return FALSE
        out = []
        for k in a:
            if k not in b:
                return FALSE
            out.append(f_eq(a[k], b[k]))
        return f_and(out)
    if (isinstance(a, list) and isinstance(b, list)) or (isinstance(a, tuple) and isinstance(b, tuple)):
        if len(a) != len(b):
            return FALSE
        return f_and([f_eq(x, y) for x, y in zip(a, b)])
    if ta is tb and hasattr(a, "__dataclass_fields__"):
        return f_and([f_eq(getattr(a, f), getattr(b, f)) for f in a.__dataclass_fields__])
    return TRUE if a == b else FALSE


def has_sym(x, depth=6):
    if isinstance(x, Sym):
        return True
    t = type(x)
    if t in (int, str, bool, float, type(None), bytes):
        return False
    if depth == 0:
        return False
    if isinstance(x, (list, tuple, set, frozenset)):
        for y in x:
            if has_sym(y, depth - 1):
                return True
        return False
    if isinstance(x, dict):
        for k, v in dict.items(x):
            if type(k).__name__ == "SymKey" or has_sym(k, depth - 1) or has_sym(v, depth - 1):
                return True
        return False
    return False


def realize_deep(x):
    if isinstance(x, Sym):
        return x.value()
    if type(x) is list:
        return [realize_deep(y) for y in x]
    if type(x) is tuple:
        return tuple(realize_deep(y) for y in x)
    if isinstance(x, tuple) and hasattr(x, "_make"):
        return type(x)._make(realize_deep(y) for y in x)
    if isinstance(x, dict):
        return {realize_deep(k): realize_deep(v) for k, v in x.items()}
    if isinstance(x, (set, frozenset)):
        return type(x)(realize_deep(y) for y in x)
    return x


def eval_model(x, model):
    """concrete python value of x under a model"""
    from symx.strs import SymStr
    t = type(x)
    if t is SymInt or t is SymReal or t is SymBool:
        v = z3_value(model.eval(x.e, model_completion=True))
        return float(v) if isinstance(v, Fraction) else v
    if t is SymStr:
        return x.eval_model(model)
    if t is list:
        return [eval_model(y, model) for y in x]
    if t is tuple:
        return tuple(eval_model(y, model) for y in x)
    if isinstance(x, tuple) and hasattr(x, "_make"):
        return t._make(eval_model(y, model) for y in x)
    if isinstance(x, dict):
        return {eval_model(k, model): eval_model(v, model) for k, v in x.items()}
    return x
