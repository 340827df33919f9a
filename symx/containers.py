"""dict / set replacements that accept symbolic keys, and a structural model of hash()"""
import collections
import types

from symx import core
from symx.core import Sym, f_eq, f_and, TRUE, FALSE, has_sym
import z3


class HashTok:
    """the value of hash(x), represented by the structure it was computed from (hash is taken to be injective on
    these structures; equal keys of a dict additionally have to be ==, so a collision could only merge *less*)"""
    __slots__ = ("s", "sym", "_h")

    def __init__(self, s, sym):
        self.s = s
        self.sym = sym
        self._h = None

    def eq_formula(self, o):
        if type(o) is HashTok:
            return f_eq(self.s, o.s)
        if isinstance(o, int) and not isinstance(o, Sym):
            return TRUE if (not self.sym and self.__index__() == o) else FALSE
        return FALSE

    def __eq__(self, o):
        return core.mk_bool(self.eq_formula(o))

    def __ne__(self, o):
        return core.mk_bool(core.f_not(self.eq_formula(o)))

    def __index__(self):
        if self._h is None:
            self._h = hash(core.realize_deep(self.s))
        return self._h

    __int__ = __index__

    def __hash__(self):
        return self.__index__()

    def __repr__(self):
        return f"HashTok({self.s!r})"


def _struct(x):
    t = type(x)
    if t is HashTok:
        return x.s, x.sym
    if isinstance(x, Sym):
        return ("v", x), True
    if t is tuple or (isinstance(x, tuple) and t.__hash__ is tuple.__hash__):
        parts = [_struct(y) for y in x]
        return ("t",) + tuple(p[0] for p in parts), any(p[1] for p in parts)
    if t in (list, dict, set) or isinstance(x, (list, dict, set)):
        raise TypeError(f"unhashable type: '{t.__name__}'")
    h = getattr(t, "__hash__", None)
    if isinstance(h, types.FunctionType):
        r = h(x)
        if type(r) is HashTok:
            return r.s, r.sym
        return ("i", r), False
    hash(x)
    return ("v", x), False


def sym_hash(x):
    s, sym = _struct(x)
    if type(x) in (int, bool, float, type(None)):
        return hash(x)
    return HashTok(s, sym)


class KeyW:
    """a key with a user defined hash that is concrete"""
    __slots__ = ("k", "h")

    def __init__(self, k, h):
        self.k = k
        self.h = h

    def __hash__(self):
        return self.h

    def __eq__(self, o):
        return type(o) is KeyW and (self.k is o.k or bool(self.k == o.k))


class SymKey:
    """a symbolic key: identity hash; compared explicitly"""
    __slots__ = ("k", "h")

    def __init__(self, k, h=None):
        self.k = k
        self.h = h


def wrap_key(k):
    """-> (native key, symbolic?)"""
    t = type(k)
    if t in (str, int, bool, float, type(None)):
        return k, False
    if isinstance(k, Sym):
        return SymKey(k), True
    if t is HashTok:
        return (SymKey(k), True) if k.sym else (k, False)
    if t is tuple or (isinstance(k, tuple) and t.__hash__ is tuple.__hash__):
        s, sym = _struct(k)
        if sym:
            return SymKey(k), True
        # may contain objects with custom hashes
        if all(type(y) in (str, int, bool, float, type(None)) for y in k):
            return k, False
        return KeyW(k, hash(core.realize_deep(s))), False
    h = getattr(t, "__hash__", None)
    if isinstance(h, types.FunctionType):
        r = h(k)
        if type(r) is HashTok:
            if r.sym:
                return SymKey(k, r), True
            return KeyW(k, r.__index__()), False
    if isinstance(k, (list, dict, set)):
        raise TypeError(f"unhashable type: '{t.__name__}'")
    return k, False


def unwrap(n):
    t = type(n)
    return n.k if t is KeyW or t is SymKey else n


def keys_match(n1, n2):
    """do two native keys denote equal keys? forks"""
    a, b = unwrap(n1), unwrap(n2)
    if a is b:
        return True
    h1 = n1.h if type(n1) is SymKey else None
    h2 = n2.h if type(n2) is SymKey else None
    if h1 is not None or h2 is not None:
        if h1 is None:
            h1 = _tok(a)
        if h2 is None:
            h2 = _tok(b)
        if not core.CUR.branch(f_eq(h1.s, h2.s)):
            return False
        return bool(a == b)
    return core.CUR.branch(f_eq(a, b))


def _tok(k):
    s, sym = _struct(k)
    return HashTok(s, sym)


_MISSING = object()


class SymDict(dict):
    __slots__ = ("nsym",)

    def __init__(self, *args, **kwargs):
        self.nsym = 0
        if args:
            src = args[0]
            if isinstance(src, dict):
                for k in src:
                    self[k] = src[k]
            elif hasattr(src, "keys"):
                for k in src.keys():
                    self[k] = src[k]
            else:
                for k, v in src:
                    self[k] = v
        for k, v in kwargs.items():
            self[k] = v

    @property
    def __class__(self):
        return dict

    @classmethod
    def fromkeys(cls, it, value=None):
        d = SymDict()
        for k in it:
            d[k] = value
        return d

    def _find(self, k):
        """the native key under which k is stored, or _MISSING (second value: native key to use for insertion)"""
        n, sym = wrap_key(k)
        if not sym:
            if dict.__contains__(self, n):
                return n, n
            if self.nsym == 0:
                return _MISSING, n
            for c in list(dict.keys(self)):
                if type(c) is SymKey and keys_match(c, n):
                    return c, n
            return _MISSING, n
        for c in list(dict.keys(self)):
            if keys_match(c, n):
                return c, n
        return _MISSING, n

    def __contains__(self, k):
        return self._find(k)[0] is not _MISSING

    def __getitem__(self, k):
        f, _ = self._find(k)
        if f is _MISSING:
            return self.__missing__(k)
        return dict.__getitem__(self, f)

    def __missing__(self, k):
        raise KeyError(k)

    def __setitem__(self, k, v):
        f, n = self._find(k)
        if f is _MISSING:
            f = n
            if type(n) is SymKey:
                self.nsym += 1
        dict.__setitem__(self, f, v)

    def __delitem__(self, k):
        f, _ = self._find(k)
        if f is _MISSING:
            raise KeyError(k)
        if type(f) is SymKey:
            self.nsym -= 1
        dict.__delitem__(self, f)

    def get(self, k, default=None):
        f, _ = self._find(k)
        return default if f is _MISSING else dict.__getitem__(self, f)

    def setdefault(self, k, default=None):
        f, _ = self._find(k)
        if f is _MISSING:
            self[k] = default
            return default
        return dict.__getitem__(self, f)

    def pop(self, k, *default):
        f, _ = self._find(k)
        if f is _MISSING:
            if default:
                return default[0]
            raise KeyError(k)
        v = dict.__getitem__(self, f)
        if type(f) is SymKey:
            self.nsym -= 1
        dict.__delitem__(self, f)
        return v

    def move_to_end(self, k, last=True):
        f, _ = self._find(k)
        if f is _MISSING:
            raise KeyError(k)
        items = [(n, dict.__getitem__(self, n)) for n in dict.__iter__(self) if n is not f]
        one = [(f, dict.__getitem__(self, f))]
        dict.clear(self)
        for n, v in (items + one if last else one + items):
            dict.__setitem__(self, n, v)

    def popitem(self, last=True):
        if not last:
            for k in self:
                return k, self.pop(k)
        n, v = dict.popitem(self)
        if type(n) is SymKey:
            self.nsym -= 1
        return unwrap(n), v

    def clear(self):
        dict.clear(self)
        self.nsym = 0

    def __iter__(self):
        for n in dict.__iter__(self):
            yield unwrap(n)

    def __reversed__(self):
        return iter([unwrap(n) for n in dict.__reversed__(self)])

    def keys(self):
        return DictView(self, 0)

    def values(self):
        return DictView(self, 1)

    def items(self):
        return DictView(self, 2)

    def update(self, *args, **kw):
        for k, v in SymDict(*args, **kw).items():
            self[k] = v

    def copy(self):
        d = SymDict()
        for n, v in dict.items(self):
            dict.__setitem__(d, n, v)
        d.nsym = self.nsym
        return d

    __copy__ = copy

    def __deepcopy__(self, memo):
        import copy
        d = SymDict()
        for k, v in self.items():
            d[copy.deepcopy(k, memo)] = copy.deepcopy(v, memo)
        return d

    def __or__(self, o):
        if not isinstance(o, dict):
            return NotImplemented
        d = self.copy()
        for k in o:
            d[k] = o[k]
        return d

    def __ror__(self, o):
        d = SymDict(o)
        for k in self:
            d[k] = self[k]
        return d

    def __ior__(self, o):
        for k in o:
            self[k] = o[k]
        return self

    def __eq__(self, o):
        if not isinstance(o, dict):
            return NotImplemented
        if len(self) != len(o):
            return False
        for k in self:
            if k not in o:
                return False
        conj = []
        for k in self:
            a, b = self[k], o[k]
            r = (a is b) or (a == b)
            if type(r) is core.SymBool:
                conj.append(r.e)
            elif not r:
                return False
        return core.mk_bool(f_and(conj))

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else core.mk_bool(core.f_not(r))

    __hash__ = None

    def __repr__(self):
        return "{" + ", ".join(f"{k!r}: {v!r}" for k, v in self.items()) + "}"

    __str__ = __repr__

    def __reduce__(self):
        return (dict, (list(self.items()),))


class SymDefaultDict(SymDict):
    __slots__ = ("default_factory",)

    def __init__(self, default_factory=None, *args, **kw):
        self.default_factory = default_factory
        super().__init__(*args, **kw)

    def __missing__(self, k):
        if self.default_factory is None:
            raise KeyError(k)
        v = self.default_factory()
        self[k] = v
        return v


class SymCounter(SymDict):
    __slots__ = ()

    def __init__(self, *args, **kw):
        self.nsym = 0
        self.update(*args, **kw)

    @property
    def __class__(self):
        return collections.Counter

    def __missing__(self, k):
        return 0

    def update(self, it=(), **kw):
        for src in (it, kw):
            if isinstance(src, dict):
                for k in src:
                    self[k] = self[k] + src[k]
            else:
                for k in src or ():
                    self[k] = self[k] + 1

    def subtract(self, it=(), **kw):
        for k, v in SymCounter(it, **kw).items():
            self[k] = self[k] - v

    def copy(self):
        return SymCounter(self)

    __copy__ = copy

    def most_common(self, n=None):
        items = sorted(self.items(), key=lambda kv: kv[1], reverse=True)
        return items if n is None else items[:n]

    def elements(self):
        for k, v in self.items():
            for _ in range(v):
                yield k

    def total(self):
        return sum(self.values())

    def _combine(self, o, f):
        r = SymCounter()
        for k in list(self) + [k for k in o if k not in self]:
            v = f(self[k], o[k])
            if v > 0:
                r[k] = v
        return r

    def __add__(self, o):
        return self._combine(o, lambda a, b: a + b)

    def __sub__(self, o):
        return self._combine(o, lambda a, b: a - b)

    def __or__(self, o):
        return self._combine(o, max)

    def __and__(self, o):
        return self._combine(o, min)

    def __eq__(self, o):
        if not isinstance(o, collections.Counter):
            return SymDict.__eq__(self, o)
        return all(self[k] == o[k] for c in (self, o) for k in c)

    def __ne__(self, o):
        return not self == o

    def __le__(self, o):
        return all(self[k] <= o[k] for c in (self, o) for k in c)

    def __ge__(self, o):
        return all(self[k] >= o[k] for c in (self, o) for k in c)

    __hash__ = None


class DictView:
    """keys / values / items of a SymDict"""
    def __init__(self, d, kind):
        self.d = d
        self.kind = kind

    def __iter__(self):
        d = self.d
        for n in dict.__iter__(d):
            if self.kind == 0:
                yield unwrap(n)
            elif self.kind == 1:
                yield dict.__getitem__(d, n)
            else:
                yield unwrap(n), dict.__getitem__(d, n)

    def __len__(self):
        return len(self.d)

    def __reversed__(self):
        return iter(list(self)[::-1])

    def __contains__(self, x):
        if self.kind == 0:
            return x in self.d
        if self.kind == 2:
            return x[0] in self.d and bool(self.d[x[0]] == x[1])
        return any(bool(v == x) for v in self)

    def _set(self):
        return SymSet(self)

    def __and__(self, o):
        return self._set() & SymSet(o)

    def __or__(self, o):
        return self._set() | SymSet(o)

    def __sub__(self, o):
        return self._set() - SymSet(o)

    def __xor__(self, o):
        return self._set() ^ SymSet(o)

    __rand__ = __and__

    def __rsub__(self, o):
        return SymSet(o) - self._set()

    def isdisjoint(self, o):
        return self._set().isdisjoint(o)

    def __eq__(self, o):
        return self._set() == SymSet(o)

    def __le__(self, o):
        return self._set() <= SymSet(o)

    def __ge__(self, o):
        return self._set() >= SymSet(o)

    def __repr__(self):
        return f"dict_{('keys', 'values', 'items')[self.kind]}({list(self)!r})"


class SymSet(set):
    """iterates concrete-keyed elements in native order followed by symbolic ones in insertion order"""
    __slots__ = ("d",)

    def __init__(self, it=()):
        # elements live in a native set of native keys; symbolic elements in a SymDict
        self.d = SymDict()
        for x in it:
            self.add(x)

    @property
    def __class__(self):
        return set

    def add(self, x):
        if x in self:
            return
        n, sym = wrap_key(x)
        if sym:
            self.d[x] = None
        else:
            set.add(self, n)

    def __contains__(self, x):
        n, sym = wrap_key(x)
        if not sym:
            if set.__contains__(self, n):
                return True
            return x in self.d if len(self.d) else False
        for c in list(set.__iter__(self)):
            if keys_match(c, n):
                return True
        return x in self.d

    def __iter__(self):
        for n in set.__iter__(self):
            yield unwrap(n)
        for k in self.d:
            yield k

    def __len__(self):
        return set.__len__(self) + len(self.d)

    def __bool__(self):
        return len(self) > 0

    def discard(self, x):
        n, sym = wrap_key(x)
        for c in list(set.__iter__(self)):
            if (not sym and c == n) or (sym and keys_match(c, n)):
                set.discard(self, c)
                return
        self.d.pop(x, None)

    def remove(self, x):
        if x not in self:
            raise KeyError(x)
        self.discard(x)

    def pop(self):
        for x in self:
            self.discard(x)
            return x
        raise KeyError("pop from an empty set")

    def clear(self):
        set.clear(self)
        self.d.clear()

    def update(self, *others):
        for o in others:
            for x in o:
                self.add(x)

    def copy(self):
        return SymSet(self)

    __copy__ = copy

    def union(self, *others):
        r = SymSet(self)
        r.update(*others)
        return r

    def intersection(self, *others):
        r = SymSet(self)
        for o in others:
            o = o if isinstance(o, (set, frozenset, dict)) else SymSet(o)
            r = SymSet([x for x in r if x in o])
        return r

    def difference(self, *others):
        r = SymSet(self)
        for o in others:
            o = o if isinstance(o, (set, frozenset, dict)) else SymSet(o)
            r = SymSet([x for x in r if x not in o])
        return r

    def symmetric_difference(self, o):
        o = SymSet(o)
        return SymSet([x for x in self if x not in o] + [x for x in o if x not in self])

    def _op(name):
        def f(self, o):
            if not isinstance(o, (set, frozenset, DictView)):
                return NotImplemented
            return getattr(self, name)(o)
        return f

    def _rop(name):
        def f(self, o):
            if not isinstance(o, (set, frozenset, DictView)):
                return NotImplemented
            return getattr(SymSet(o), name)(self)
        return f

    __or__ = _op("union")
    __and__ = _op("intersection")
    __sub__ = _op("difference")
    __xor__ = _op("symmetric_difference")
    __ror__ = _rop("union")
    __rand__ = _rop("intersection")
    __rsub__ = _rop("difference")
    __rxor__ = _rop("symmetric_difference")

    def __ior__(self, o):
        self.update(o)
        return self

    def __iand__(self, o):
        r = self & o
        self.clear()
        self.update(r)
        return self

    def __isub__(self, o):
        for x in list(o):
            self.discard(x)
        return self

    intersection_update = __iand__
    difference_update = __isub__

    def issubset(self, o):
        o = o if isinstance(o, (set, frozenset, dict)) else SymSet(o)
        return all(x in o for x in self)

    def issuperset(self, o):
        return all(x in self for x in o)

    def isdisjoint(self, o):
        return not any(x in self for x in o)

    def __le__(self, o):
        return self.issubset(o)

    def __ge__(self, o):
        return self.issuperset(o)

    def __lt__(self, o):
        return len(self) < len(o) and self.issubset(o)

    def __gt__(self, o):
        return len(self) > len(o) and self.issuperset(o)

    def __eq__(self, o):
        if not isinstance(o, (set, frozenset)):
            return NotImplemented
        return len(self) == len(o) and self.issubset(o)

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else not r

    __hash__ = None

    def __repr__(self):
        return "{" + ", ".join(repr(x) for x in self) + "}" if len(self) else "set()"

    __str__ = __repr__

    def __reduce__(self):
        return (set, (list(self),))
