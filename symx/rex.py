"""
Regular expressions over symbolic text: a backtracking matcher (Python's own semantics: leftmost, first alternative,
greedy/lazy) over the parse tree made by the standard library's regex parser.  Concrete text goes to `re` itself.
"""
import re
try:
    from re import _parser as sre_parse, _constants as C
except ImportError:
    import sre_parse
    import sre_constants as C

import z3

from symx import core
from symx.core import Sym, f_and, f_or, f_not, TRUE, FALSE
from symx.strs import SymStr, SymChr, item_test, item_eq

_CACHE = {}


def _pat(p, flags=0):
    if isinstance(p, Sym):
        p = p.value()
    if not isinstance(p, re.Pattern):
        p = re.compile(p, flags)
    key = (p.pattern, p.flags)
    if key not in _CACHE:
        _CACHE[key] = (p, sre_parse.parse(p.pattern, p.flags & ~re.DEBUG))
    return _CACHE[key]


_CATS = {
    C.CATEGORY_DIGIT: lambda c: c.isdecimal(),
    C.CATEGORY_NOT_DIGIT: lambda c: not c.isdecimal(),
    C.CATEGORY_SPACE: lambda c: re.match(r"\s", c) is not None,
    C.CATEGORY_NOT_SPACE: lambda c: re.match(r"\S", c) is not None,
    C.CATEGORY_WORD: lambda c: re.match(r"\w", c) is not None,
    C.CATEGORY_NOT_WORD: lambda c: re.match(r"\W", c) is not None,
}


def _in_pred(items):
    neg = False
    preds = []
    for op, av in items:
        if op is C.NEGATE:
            neg = True
        elif op is C.LITERAL:
            preds.append(lambda c, v=av: ord(c) == v)
        elif op is C.RANGE:
            preds.append(lambda c, lo=av[0], hi=av[1]: lo <= ord(c) <= hi)
        elif op is C.CATEGORY:
            preds.append(_CATS[av])
        else:
            raise core.Inconclusive(f"regex set item {op}")
    if neg:
        return lambda c: not any(p(c) for p in preds)
    return lambda c: any(p(c) for p in preds)


def _fold(pred, flags):
    if flags & re.IGNORECASE:
        return lambda c: pred(c) or pred(c.lower()) or pred(c.upper()) if len(c.lower()) == len(c.upper()) == 1 else pred(c)
    return pred


class M:
    """a match object"""
    def __init__(self, text, pos, end, groups, ngroups, names, pattern):
        self._t, self._s, self._e, self._g = text, pos, end, dict(groups)
        self._n = ngroups
        self._names = names
        self.re = pattern
        self.string = SymStr.make(text)
        self.lastindex = list(self._g)[-1] if self._g else None      # the group that was closed last
        self.lastgroup = next((n for n, i in names.items() if i == self.lastindex), None)

    def _one(self, g):
        if isinstance(g, str):
            g = self._names[g]
        if g == 0:
            return SymStr.make(self._t[self._s:self._e])
        if g > self._n:
            raise IndexError("no such group")
        if g not in self._g:
            return None
        a, b = self._g[g]
        return SymStr.make(self._t[a:b])

    def group(self, *gs):
        if not gs:
            return self._one(0)
        if len(gs) == 1:
            return self._one(gs[0])
        return tuple(self._one(g) for g in gs)

    def __getitem__(self, g):
        return self._one(g)

    def groups(self, default=None):
        return tuple(default if self._one(i) is None else self._one(i) for i in range(1, self._n + 1))

    def groupdict(self, default=None):
        return {k: self._one(v) for k, v in self._names.items()}

    def span(self, g=0):
        if isinstance(g, str):
            g = self._names[g]
        if g == 0:
            return (self._s, self._e)
        return self._g.get(g, (-1, -1))

    def start(self, g=0):
        return self.span(g)[0]

    def end(self, g=0):
        return self.span(g)[1]

    def expand(self, template):
        return _template(template, self)


class Matcher:
    def __init__(self, p, tree, text):
        self.flags = p.flags
        self.p = p
        self.tree = tree
        self.t = text

    def br(self, f):
        return core.CUR.branch(f)

    def run(self, pos, full=False):
        """-> (end, groups) or None"""
        n = len(self.t)

        def done(i, g):
            if full and i != n:
                return None
            return (i, g)
        return self.seq(list(self.tree), 0, pos, {}, done)

    def test(self, i, pred):
        return self.br(item_test(self.t[i], _fold(pred, self.flags)))

    def is_word(self, i):
        return 0 <= i < len(self.t) and self.br(item_test(self.t[i], _CATS[C.CATEGORY_WORD]))

    def seq(self, ops, k, i, g, cont):
        if k == len(ops):
            return cont(i, g)
        op, av = ops[k]
        nxt = lambda j, gg: self.seq(ops, k + 1, j, gg, cont)
        n = len(self.t)
        if op is C.LITERAL:
            return nxt(i + 1, g) if i < n and self.test(i, lambda c: ord(c) == av) else None
        if op is C.NOT_LITERAL:
            return nxt(i + 1, g) if i < n and self.test(i, lambda c: ord(c) != av) else None
        if op is C.ANY:
            ok = i < n and (self.flags & re.DOTALL or self.test(i, lambda c: c != "\n"))
            return nxt(i + 1, g) if ok else None
        if op is C.IN:
            return nxt(i + 1, g) if i < n and self.test(i, _in_pred(av)) else None
        if op is C.BRANCH:
            for alt in av[1]:
                r = self.seq(list(alt), 0, i, g, nxt)
                if r is not None:
                    return r
            return None
        if op is C.SUBPATTERN:
            group, add, sub, p = av

            def close(j, gg):
                if group is not None:
                    gg = dict(gg)
                    gg.pop(group, None)
                    gg[group] = (i, j)
                return nxt(j, gg)
            return self.seq(list(p), 0, i, g, close)
        if op in (C.MAX_REPEAT, C.MIN_REPEAT):
            lo, hi, sub = av
            hi = n + 1 if hi is C.MAXREPEAT else hi
            sub = list(sub)
            greedy = op is C.MAX_REPEAT

            def rep(count, j, gg):
                def again():
                    if count >= hi:
                        return None

                    def after(jj, g2):
                        if jj == j and count >= lo:
                            return None     # no progress
                        return rep(count + 1, jj, g2)
                    return self.seq(sub, 0, j, gg, after)
                if count < lo:
                    return again()
                if greedy:
                    r = again()
                    return r if r is not None else nxt(j, gg)
                r = nxt(j, gg)
                return r if r is not None else again()
            return rep(0, i, g)
        if op is C.AT:
            if av in (C.AT_BEGINNING, C.AT_BEGINNING_STRING):
                ok = i == 0 or (av is C.AT_BEGINNING and self.flags & re.MULTILINE and self.test(i - 1, lambda c: c == "\n"))
            elif av is C.AT_END_STRING:
                ok = i == n
            elif av is C.AT_END:
                ok = i == n or (i == n - 1 and self.test(i, lambda c: c == "\n")) or \
                    (self.flags & re.MULTILINE and self.test(i, lambda c: c == "\n"))
            elif av in (C.AT_BOUNDARY, C.AT_NON_BOUNDARY):
                ok = (self.is_word(i - 1) != self.is_word(i)) == (av is C.AT_BOUNDARY)
            else:
                raise core.Inconclusive(f"regex anchor {av}")
            return nxt(i, g) if ok else None
        if op is C.GROUPREF:
            if av not in g:
                return None
            a, b = g[av]
            if i + (b - a) > n:
                return None
            if not self.br(f_and([item_eq(self.t[a + x], self.t[i + x]) for x in range(b - a)])):
                return None
            return nxt(i + (b - a), g)
        if op in (C.ASSERT, C.ASSERT_NOT):
            direction, p = av
            if direction > 0:
                r = self.seq(list(p), 0, i, g, lambda j, gg: (j, gg))
            else:
                w = p.getwidth()
                if w[0] != w[1]:
                    raise core.Inconclusive("regex look-behind")
                r = None
                if i - w[0] >= 0:
                    r = self.seq(list(p), 0, i - w[0], g, lambda j, gg: (j, gg) if j == i else None)
            if (r is not None) != (op is C.ASSERT):
                return None
            return nxt(i, r[1] if r is not None else g)
        raise core.Inconclusive(f"regex operator {op}")


def _text(s):
    if type(s) is SymStr:
        return s.chars()
    if isinstance(s, str):
        return None
    raise TypeError(f"expected string or bytes-like object, got '{type(s).__name__}'")


def _m(p, tree, text, pos, full=False):
    r = Matcher(p, tree, text).run(pos, full)
    if r is None:
        return None
    return M(text, pos, r[0], r[1], p.groups, dict(p.groupindex), p)


def match(p, s, flags=0, endpos=None):
    pos = 0
    if isinstance(p, re.Pattern):
        pos, flags = flags, 0
    p, tree = _pat(p, flags)
    t = _text(s)
    if t is None:
        return p.match(s, pos)
    return _m(p, tree, t, pos)


def fullmatch(p, s, flags=0):
    p, tree = _pat(p, 0 if isinstance(p, re.Pattern) else flags)
    t = _text(s)
    if t is None:
        return p.fullmatch(s)
    return _m(p, tree, t, 0, True)


def search(p, s, flags=0):
    pos = 0
    if isinstance(p, re.Pattern):
        pos, flags = flags, 0
    p, tree = _pat(p, flags)
    t = _text(s)
    if t is None:
        return p.search(s, pos)
    for i in range(pos, len(t) + 1):
        m = _m(p, tree, t, i)
        if m is not None:
            return m
    return None


def finditer(p, s, flags=0):
    p, tree = _pat(p, 0 if isinstance(p, re.Pattern) else flags)
    t = _text(s)
    if t is None:
        yield from p.finditer(s)
        return
    i = 0
    last_empty_ok = -1
    while i <= len(t):
        m = _m(p, tree, t, i)
        if m is None or (m.end() == m.start() == last_empty_ok):
            i += 1
            continue
        yield m
        if m.end() == m.start():
            i += 1
        else:
            i = m.end()
            last_empty_ok = -1


def findall(p, s, flags=0):
    p0, _ = _pat(p, 0 if isinstance(p, re.Pattern) else flags)
    if _text(s) is None:
        return p0.findall(s)
    out = []
    for m in finditer(p0, s):
        if p0.groups == 0:
            out.append(m.group())
        elif p0.groups == 1:
            out.append(m.groups("")[0])
        else:
            out.append(m.groups(""))
    return out


def _template(repl, m):
    if isinstance(repl, Sym):
        repl = repl.value()
    if "\\" not in repl:
        return repl
    out = SymStr(())
    i = 0
    r = re.compile(r"\\(?:g<(\w+)>|(\d+)|(.))", re.S)
    while i < len(repl):
        k = r.match(repl, i)
        if not k:
            out = SymStr(out.items + (repl[i],))
            i += 1
            continue
        i = k.end()
        if k.group(1) or k.group(2):
            g = k.group(1) or k.group(2)
            v = m.group(int(g) if g.isdigit() else g) or ""
            out = SymStr(out.items + SymStr.lift(v).items)
        else:
            c = k.group(3)
            out = SymStr(out.items + ({"n": "\n", "t": "\t", "r": "\r", "\\": "\\"}.get(c, "\\" + c),))
    return SymStr.make(out.items)


def sub(p, repl, s, count=0, flags=0):
    return subn(p, repl, s, count, flags)[0]


def subn(p, repl, s, count=0, flags=0):
    p, tree = _pat(p, 0 if isinstance(p, re.Pattern) else flags)
    t = _text(s)
    if t is None:
        if isinstance(repl, Sym):
            repl = repl.value()
        return p.subn(repl, s, count)
    out = []
    pos = 0
    n = 0
    for m in finditer(p, s):
        if count and n >= count:
            break
        n += 1
        out.extend(t[pos:m.start()])
        r = repl(m) if callable(repl) else _template(repl, m)
        out.extend(SymStr.lift(r).items)
        pos = m.end()
    out.extend(t[pos:])
    return SymStr.make(out), n


def split(p, s, maxsplit=0, flags=0):
    p, tree = _pat(p, 0 if isinstance(p, re.Pattern) else flags)
    t = _text(s)
    if t is None:
        return p.split(s, maxsplit)
    out = []
    pos = 0
    n = 0
    for m in finditer(p, s):
        if maxsplit and n >= maxsplit:
            break
        n += 1
        out.append(SymStr.make(t[pos:m.start()]))
        out.extend(m.groups())
        pos = m.end()
    out.append(SymStr.make(t[pos:]))
    return out
