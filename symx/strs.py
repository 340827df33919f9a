"""
Symbolic strings: a sequence (of concrete length) of items.  An item is

  * a str of length 1              - a concrete character
  * SymChr(expr, domain)           - a character with a symbolic code point from a finite domain
  * IntPiece(expr)                 - the decimal text of a symbolic integer (only made by str(); opaque)
  * ReprPiece(SymStr)              - the repr() of a symbolic string (only made by repr(); opaque)

Every operation on the opaque pieces that is not concatenation or comparison of aligned texts first realizes them.
"""
import z3

from symx import core
from symx.core import Sym, SymInt, SymBool, SymReal, mk_bool, f_and, f_or, f_not, TRUE, FALSE


class SymChr:
    __slots__ = ("expr", "domain")

    def __init__(self, expr, domain):
        self.expr = expr
        self.domain = domain          # frozenset of 1-char strings

    def member(self, pred):
        """formula: the character satisfies pred"""
        yes = [c for c in self.domain if pred(c)]
        if not yes:
            return FALSE
        if len(yes) == len(self.domain):
            return TRUE
        if len(yes) * 2 > len(self.domain):
            no = [c for c in self.domain if not pred(c)]
            return f_and([self.expr != ord(c) for c in sorted(no)])
        return f_or([self.expr == ord(c) for c in sorted(yes)])

    def map(self, fn):
        """apply a str->str function; returns a SymChr/str, or None when it is not length preserving on the domain"""
        table = {c: fn(c) for c in self.domain}
        if any(len(v) != 1 for v in table.values()):
            return None
        if all(k == v for k, v in table.items()):
            return self
        values = frozenset(table.values())
        if len(values) == 1:
            return next(iter(values))
        e = self.expr
        for k, v in sorted(table.items()):
            if k != v:
                e = z3.If(self.expr == ord(k), z3.IntVal(ord(v)), e)
        return SymChr(z3.simplify(e), values)

    def pick(self):
        return chr(core.CUR.realize(self.expr))


class IntPiece:
    __slots__ = ("expr",)

    def __init__(self, expr):
        self.expr = expr

    def pick(self):
        return str(core.CUR.realize(self.expr))


class RealPiece:
    __slots__ = ("expr",)

    def __init__(self, expr):
        self.expr = expr

    def pick(self):
        return str(float(core.CUR.realize(self.expr)))


class ReprPiece:
    __slots__ = ("text",)

    def __init__(self, text):
        self.text = text

    def pick(self):
        return repr(self.text.value())


OPAQUE = (IntPiece, RealPiece, ReprPiece)


def item_eq(a, b):
    """equality of two single character items, as a formula"""
    if type(a) is str:
        if type(b) is str:
            return TRUE if a == b else FALSE
        a, b = b, a
    if type(b) is str:
        if b not in a.domain:
            return FALSE
        if len(a.domain) == 1:
            return TRUE
        return a.expr == ord(b)
    if a.expr.eq(b.expr):
        return TRUE
    if not (a.domain & b.domain):
        return FALSE
    return a.expr == b.expr


def item_test(item, pred):
    if type(item) is str:
        return TRUE if pred(item) else FALSE
    return item.member(pred)


class SymStr(Sym):
    __slots__ = ("items",)

    def __init__(self, items):
        self.items = tuple(items)

    @property
    def __class__(self):
        return str

    # ------------------------------------------------------------------ construction

    @staticmethod
    def lift(x):
        if type(x) is SymStr:
            return x
        if isinstance(x, str):
            return SymStr(tuple(x))
        return None

    @staticmethod
    def make(items):
        items = tuple(items)
        for i in items:
            if type(i) is not str:
                return SymStr(items)
        return "".join(items)

    def opaque(self):
        for i in self.items:
            if type(i) in OPAQUE:
                return True
        return False

    def chars(self):
        """the items, after realizing opaque pieces"""
        if not self.opaque():
            return self.items
        out = []
        for i in self.items:
            if type(i) in OPAQUE:
                out.extend(i.pick())
            else:
                out.append(i)
        self.items = tuple(out)
        return self.items

    def value(self):
        out = []
        for i in self.items:
            out.append(i if type(i) is str else i.pick())
        return "".join(out)

    def eval_model(self, model):
        out = []
        for i in self.items:
            if type(i) is str:
                out.append(i)
            elif type(i) is ReprPiece:
                out.append(repr(core.eval_model(i.text, model)))
            else:
                v = core.z3_value(model.eval(i.expr, model_completion=True))
                out.append(chr(v) if type(i) is SymChr else str(float(v)) if type(i) is RealPiece else str(v))
        return "".join(out)

    # ------------------------------------------------------------------ comparison

    def eq_formula(self, other):
        a, b = self.items, other.items
        if not self.opaque() and not other.opaque():
            if len(a) != len(b):
                return FALSE
            return f_and([item_eq(x, y) for x, y in zip(a, b)])
        r = aligned_eq(a, b)
        if r is not None:
            return r
        # fork over the values of the single characters first: these have small domains
        a, b = ([i.pick() if type(i) is SymChr else i for i in s] for s in (a, b))
        r = aligned_eq(a, b)
        if r is not None:
            return r
        a, b = self.chars(), other.chars()
        if len(a) != len(b):
            return FALSE
        return f_and([item_eq(x, y) for x, y in zip(a, b)])

    def __eq__(self, other):
        o = SymStr.lift(other)
        if o is None:
            if isinstance(other, Sym):
                return False
            return NotImplemented if not isinstance(other, (int, float, list, tuple, dict, type(None))) else False
        return mk_bool(self.eq_formula(o))

    def __ne__(self, other):
        r = self.__eq__(other)
        if r is NotImplemented:
            return r
        return mk_bool(f_not(r))

    def _lex(self, other, strict_result_when_equal):
        """formula self < other (strict) or self <= other"""
        a, b = self.chars(), other.chars()
        n = min(len(a), len(b))
        if len(a) == len(b):
            r = TRUE if strict_result_when_equal else FALSE
        else:
            r = TRUE if len(a) < len(b) else FALSE
        for i in range(n - 1, -1, -1):
            x, y = a[i], b[i]
            xe = z3.IntVal(ord(x)) if type(x) is str else x.expr
            ye = z3.IntVal(ord(y)) if type(y) is str else y.expr
            r = z3.simplify(f_or([xe < ye, f_and([xe == ye, r])]))
        return r

    def __lt__(self, other):
        o = SymStr.lift(other)
        return NotImplemented if o is None else mk_bool(self._lex(o, False))

    def __le__(self, other):
        o = SymStr.lift(other)
        return NotImplemented if o is None else mk_bool(self._lex(o, True))

    def __gt__(self, other):
        o = SymStr.lift(other)
        return NotImplemented if o is None else mk_bool(o._lex(self, False))

    def __ge__(self, other):
        o = SymStr.lift(other)
        return NotImplemented if o is None else mk_bool(o._lex(self, True))

    def __hash__(self):
        return hash(self.value())

    def __bool__(self):
        return len(self.items) > 0

    # ------------------------------------------------------------------ sequence

    def __len__(self):
        return len(self.chars())

    def __iter__(self):
        for i in self.chars():
            yield i if type(i) is str else SymStr((i,))

    def __getitem__(self, key):
        c = self.chars()
        if isinstance(key, slice):
            def idx(v):
                return v.value() if isinstance(v, Sym) else v
            return SymStr.make(c[slice(idx(key.start), idx(key.stop), idx(key.step))])
        if isinstance(key, Sym):
            key = key.value()
        return SymStr.make((c[key],))

    def __add__(self, other):
        o = SymStr.lift(other)
        if o is None:
            return NotImplemented
        return SymStr.make(self.items + o.items)

    def __radd__(self, other):
        o = SymStr.lift(other)
        if o is None:
            return NotImplemented
        return SymStr.make(o.items + self.items)

    def __mul__(self, n):
        return SymStr.make(self.items * n)

    __rmul__ = __mul__

    def __contains__(self, sub):
        return self.find(sub) >= 0

    def __mod__(self, args):
        from symx.instrument import fmt_percent
        return fmt_percent(self, args)

    def __str__(self):
        return self.value()

    def __repr__(self):
        return repr(self.value())

    def __format__(self, spec):
        return format(self.value(), spec)

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __reduce__(self):
        return (str, (self.value(),))

    # ------------------------------------------------------------------ search

    def match_at(self, pos, sub):
        c = self.chars()
        if pos + len(sub) > len(c):
            return FALSE
        return f_and([item_eq(c[pos + i], s) for i, s in enumerate(sub)])

    def find(self, sub, start=0, end=None):
        s = SymStr.lift(sub)
        if s is None:
            raise TypeError("must be str, not " + type(sub).__name__)
        c = self.chars()
        sub = s.chars()
        start, end, _ = slice(start, end).indices(len(c))
        for p in range(start, end - len(sub) + 1):
            if core.CUR.branch(self.match_at(p, sub)):
                return p
        return -1

    def rfind(self, sub, start=0, end=None):
        c = self.chars()
        sub = SymStr.lift(sub).chars()
        start, end, _ = slice(start, end).indices(len(c))
        for p in range(end - len(sub), start - 1, -1):
            if core.CUR.branch(self.match_at(p, sub)):
                return p
        return -1

    def index(self, sub, start=0, end=None):
        r = self.find(sub, start, end)
        if r < 0:
            raise ValueError("substring not found")
        return r

    def rindex(self, sub, start=0, end=None):
        r = self.rfind(sub, start, end)
        if r < 0:
            raise ValueError("substring not found")
        return r

    def count(self, sub, start=0, end=None):
        n, p = 0, start
        ls = len(sub)
        if ls == 0:
            return len(self) + 1
        while True:
            p = self.find(sub, p, end)
            if p < 0:
                return n
            n += 1
            p += ls

    def startswith(self, prefix, start=0, end=None):
        if isinstance(prefix, tuple):
            return mk_bool(f_or([core.truth(self.startswith(p, start, end)) for p in prefix]))
        s = self[start:end] if (start or end is not None) else self
        s = SymStr.lift(s)
        return mk_bool(s.match_at(0, SymStr.lift(prefix).chars()))

    def endswith(self, suffix, start=0, end=None):
        if isinstance(suffix, tuple):
            return mk_bool(f_or([core.truth(self.endswith(p, start, end)) for p in suffix]))
        s = self[start:end] if (start or end is not None) else self
        s = SymStr.lift(s)
        sub = SymStr.lift(suffix).chars()
        if len(sub) > len(s.items):
            return False
        return mk_bool(s.match_at(len(s.chars()) - len(sub), sub))

    def removeprefix(self, p):
        return self[len(p):] if self.startswith(p) else self

    def removesuffix(self, p):
        return self[:len(self) - len(p)] if len(p) and self.endswith(p) else self

    def replace(self, old, new, count=-1):
        c = self.chars()
        o = SymStr.lift(old).chars()
        n = SymStr.lift(new).items
        if len(o) == 0:
            return str.replace(self.value(), str(old), str(new), count)
        out = []
        p = 0
        while p < len(c):
            if count != 0 and p + len(o) <= len(c) and core.CUR.branch(self.match_at(p, o)):
                out.extend(n)
                p += len(o)
                count -= 1
            else:
                out.append(c[p])
                p += 1
        return SymStr.make(out)

    # ------------------------------------------------------------------ classes and mapping

    def _class(self, pred, empty=False):
        c = self.chars()
        if not c:
            return empty
        return mk_bool(f_and([item_test(i, pred) for i in c]))

    def isdigit(self):
        return self._class(str.isdigit)

    def isdecimal(self):
        return self._class(str.isdecimal)

    def isnumeric(self):
        return self._class(str.isnumeric)

    def isalpha(self):
        return self._class(str.isalpha)

    def isalnum(self):
        return self._class(str.isalnum)

    def isspace(self):
        return self._class(str.isspace)

    def isprintable(self):
        return self._class(str.isprintable, True)

    def isascii(self):
        return self._class(str.isascii, True)

    def _case(self, pred_bad, pred_cased):
        c = self.chars()
        return mk_bool(f_and([f_and([f_not(item_test(i, pred_bad)) for i in c]),
                              f_or([item_test(i, pred_cased) for i in c])]))

    def isupper(self):
        return self._case(lambda ch: ch.islower() or ch.istitle() and not ch.isupper(), str.isupper)

    def islower(self):
        return self._case(lambda ch: ch.isupper() or ch.istitle() and not ch.islower(), str.islower)

    def isidentifier(self):
        c = self.chars()
        if not c:
            return False
        return mk_bool(f_and([item_test(c[0], str.isidentifier)] +
                             [item_test(i, lambda ch: ("a" + ch).isidentifier()) for i in c[1:]]))

    def _map(self, fn, items=None):
        out = []
        for i in (self.chars() if items is None else items):
            if type(i) is str:
                out.extend(fn(i))
            else:
                m = i.map(fn)
                if m is None:
                    # split the domain: characters whose mapping changes the length are picked out
                    odd = lambda ch: len(fn(ch)) != 1
                    if core.CUR.branch(i.member(odd)):
                        out.extend(fn(i.pick()))
                    else:
                        out.append(SymChr(i.expr, frozenset(ch for ch in i.domain if not odd(ch))).map(fn))
                else:
                    out.append(m)
        return SymStr.make(out)

    def lower(self):
        if any(i == "Σ" or (type(i) is SymChr and "Σ" in i.domain) for i in self.chars()):
            return self.value().lower()
        return self._map(str.lower)

    def upper(self):
        return self._map(str.upper)

    def casefold(self):
        return self._map(str.casefold)

    def swapcase(self):
        return self._map(str.swapcase)

    def capitalize(self):
        c = self.chars()
        if not c:
            return ""
        return self._map(str.title, c[:1]) + SymStr.lift(SymStr.make(c[1:])).lower()

    # ------------------------------------------------------------------ strip / split

    def _strip_pred(self, chars):
        if chars is None:
            return str.isspace
        if isinstance(chars, Sym):
            chars = chars.value()
        return lambda ch: ch in chars

    def lstrip(self, chars=None):
        p = self._strip_pred(chars)
        c = self.chars()
        i = 0
        while i < len(c) and core.CUR.branch(item_test(c[i], p)):
            i += 1
        return SymStr.make(c[i:])

    def rstrip(self, chars=None):
        p = self._strip_pred(chars)
        c = self.chars()
        i = len(c)
        while i > 0 and core.CUR.branch(item_test(c[i - 1], p)):
            i -= 1
        return SymStr.make(c[:i])

    def strip(self, chars=None):
        return SymStr.lift(self.lstrip(chars)).rstrip(chars)

    def split(self, sep=None, maxsplit=-1):
        c = self.chars()
        out = []
        if sep is None:
            cur = []
            i = 0
            while i < len(c):
                if core.CUR.branch(item_test(c[i], str.isspace)):
                    if cur:
                        out.append(SymStr.make(cur))
                        cur = []
                    i += 1
                else:
                    if not cur and maxsplit >= 0 and len(out) >= maxsplit:
                        rest = SymStr.lift(SymStr.make(c[i:])).rstrip()
                        out.append(rest)
                        return out
                    cur.append(c[i])
                    i += 1
            if cur:
                out.append(SymStr.make(cur))
            return out
        s = SymStr.lift(sep).chars()
        if not s:
            raise ValueError("empty separator")
        start = 0
        p = 0
        while p + len(s) <= len(c):
            if (maxsplit < 0 or len(out) < maxsplit) and core.CUR.branch(self.match_at(p, s)):
                out.append(SymStr.make(c[start:p]))
                p += len(s)
                start = p
            else:
                p += 1
        out.append(SymStr.make(c[start:]))
        return out

    def partition(self, sep):
        p = self.find(sep)
        if p < 0:
            return (self, "", "")
        return (self[:p], sep, self[p + len(sep):])

    def rpartition(self, sep):
        p = self.rfind(sep)
        if p < 0:
            return ("", "", self)
        return (self[:p], sep, self[p + len(sep):])

    def join(self, parts):
        out = []
        first = True
        for p in parts:
            l = SymStr.lift(p)
            if l is None:
                raise TypeError("sequence item: expected str instance, " + type(p).__name__ + " found")
            if not first:
                out.extend(self.items)
            first = False
            out.extend(l.items)
        return SymStr.make(out)

    def format(self, *args, **kwargs):
        from symx.instrument import fmt_format
        return fmt_format(self.value(), args, kwargs)

    def encode(self, *args, **kwargs):
        return SymBytes(self)

    def zfill(self, n):
        return self.value().zfill(n)

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        if hasattr(str, name):
            return getattr(self.value(), name)
        raise AttributeError(f"'str' object has no attribute '{name}'")


class SymBytes(Sym):
    """the encoded form of a symbolic string; only usable as the input of a (modelled) digest"""
    __slots__ = ("text",)

    def __init__(self, text):
        self.text = text

    def value(self):
        return self.text.value().encode()

    def decode(self, *a, **k):
        return self.text

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        return getattr(self.value(), name)

    def __len__(self):
        return len(self.value())

    def __iter__(self):
        return iter(self.value())

    def __hash__(self):
        return hash(self.value())

    def __eq__(self, o):
        if type(o) is SymBytes:
            return self.text == o.text
        return self.value() == o


# ------------------------------------------------------------------------------------ aligned comparison

_DIGITS = "0123456789"


def _can_continue_int(item):
    """may this item continue (be part of) a decimal number?"""
    if type(item) is str:
        return item in _DIGITS
    if type(item) is SymChr:
        return any(c in item.domain for c in _DIGITS)
    return True   # an opaque piece


def aligned_eq(a, b):
    """equality of two texts containing opaque pieces; None when they cannot be aligned without realizing"""
    conj = []
    i = j = 0
    while i < len(a) and j < len(b):
        x, y = a[i], b[j]
        tx, ty = type(x), type(y)
        if tx is RealPiece or ty is RealPiece:
            if tx is ty:
                if not x.expr.eq(y.expr):
                    for s, k in ((a, i + 1), (b, j + 1)):
                        if k < len(s) and (type(s[k]) is not str or s[k] in "0123456789.e+-"):
                            return None
                    conj.append(x.expr == y.expr)
                i += 1
                j += 1
                continue
            return None
        if tx is IntPiece or ty is IntPiece:
            if tx is IntPiece and ty is IntPiece:
                if x.expr.eq(y.expr):
                    i += 1
                    j += 1
                    continue
                if (i + 1 < len(a) and _can_continue_int(a[i + 1])) or (j + 1 < len(b) and _can_continue_int(b[j + 1])):
                    return None
                conj.append(x.expr == y.expr)
                i += 1
                j += 1
                continue
            # an integer against literal characters
            if tx is IntPiece:
                piece, lit, k, nxt = x, b, j, (a[i + 1] if i + 1 < len(a) else None)
            else:
                piece, lit, k, nxt = y, a, i, (b[j + 1] if j + 1 < len(b) else None)
            if nxt is not None and _can_continue_int(nxt):
                return None
            digits = ""
            if type(lit[k]) is ReprPiece:
                return FALSE
            if type(lit[k]) is SymChr and not any(c in "-0123456789" for c in lit[k].domain):
                return FALSE
            if type(lit[k]) is not str:
                return None
            if type(lit[k]) is str and lit[k] == "-":
                digits = "-"
                k += 1
            while k < len(lit) and type(lit[k]) is str and lit[k] in _DIGITS:
                digits += lit[k]
                k += 1
            if k < len(lit) and type(lit[k]) is not str and _can_continue_int(lit[k]):
                return None
            if digits in ("", "-") or str(int(digits)) != digits:
                return FALSE
            conj.append(piece.expr == int(digits))
            if tx is IntPiece:
                i += 1
                j = k
            else:
                j += 1
                i = k
            continue
        if tx is ReprPiece or ty is ReprPiece:
            if tx is ReprPiece and ty is ReprPiece:
                # repr is injective and self-delimiting
                conj.append(core.f_eq(x.text, y.text))
                i += 1
                j += 1
                continue
            if tx is ReprPiece:
                piece, lit, k = x, b, j
            else:
                piece, lit, k = y, a, i
            c = lit[k]
            if type(c) is not str:
                return None
            if c not in "'\"":
                return FALSE
            # a literal repr: find its end
            e = k + 1
            while e < len(lit):
                if type(lit[e]) is not str:
                    return None
                if lit[e] == "\\":
                    e += 2
                    continue
                if lit[e] == c:
                    break
                e += 1
            if e >= len(lit):
                return FALSE
            import ast
            text = "".join(lit[k:e + 1])
            try:
                val = ast.literal_eval(text)
            except Exception:
                return FALSE
            if repr(val) != text:
                return FALSE
            conj.append(core.f_eq(piece.text, val))
            if tx is ReprPiece:
                i += 1
                j = e + 1
            else:
                j += 1
                i = e + 1
            continue
        f = item_eq(x, y)
        if z3.is_false(f):
            return FALSE
        conj.append(f)
        i += 1
        j += 1
    if i != len(a) or j != len(b):
        return FALSE
    return f_and(conj)
