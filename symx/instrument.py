"""
Imports the code under test (package `richard`) from its *current source*, rewritten so that the handful of Python
operations that are implemented in C and cannot see symbolic values go through the models below.

Rewritten: every call f(x) -> __symx_call__(f, x); f-strings; a % b; `in` / `not in`; dict / set displays and
comprehensions.  Everything else (control flow, attribute access, comparison, arithmetic, indexing, exceptions,
classes, closures, generators) is executed by the Python interpreter itself on the symbolic values.
"""
import ast
import builtins
import collections
import copy as copy_mod
import dataclasses
import functools
import importlib
import importlib.abc
import importlib.machinery
import importlib.util
import itertools
import math
import operator
import os
import re
import statistics
import sys
import types

from symx import core, rex
from symx.core import Sym, SymInt, SymBool, SymReal, has_sym, mk_bool, realize_deep
from symx.strs import SymStr, IntPiece, RealPiece, ReprPiece, SymBytes
from symx.containers import SymCounter, SymDict, SymSet, SymDefaultDict, sym_hash, HashTok, DictView

FUNCS = {}          # qualified name -> number of calls: the functions of the code under test that were executed
TRACE_PREFIX = None

# ------------------------------------------------------------------------------------------------ AST rewriting

_KEEP = {"super", "locals", "globals", "vars", "dir", "eval", "exec"}


class Rewriter(ast.NodeTransformer):
    def _call(self, name, args, node):
        return ast.copy_location(
            ast.Call(func=ast.Name(id=name, ctx=ast.Load()), args=args, keywords=[]), node)

    def visit_Call(self, node):
        self.generic_visit(node)
        if isinstance(node.func, ast.Name) and node.func.id in _KEEP:
            return node
        return ast.copy_location(
            ast.Call(func=ast.Name(id="__symx_call__", ctx=ast.Load()),
                     args=[node.func] + node.args, keywords=node.keywords), node)

    def visit_JoinedStr(self, node):
        parts = []
        for v in node.values:
            if isinstance(v, ast.Constant):
                parts.append(v)
            else:
                value = self.visit(v.value)
                spec = self.visit(v.format_spec) if v.format_spec is not None else ast.Constant(value="")
                parts.append(ast.Tuple(elts=[value, ast.Constant(value=v.conversion), spec], ctx=ast.Load()))
        return self._call("__symx_fstr__", parts, node)

    def visit_BinOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Mod):
            return self._call("__symx_mod__", [node.left, node.right], node)
        return node

    def visit_AugAssign(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Mod) and isinstance(node.target, ast.Name):
            load = ast.copy_location(ast.Name(id=node.target.id, ctx=ast.Load()), node)
            return ast.copy_location(ast.Assign(targets=[node.target], value=self._call("__symx_mod__", [load, node.value], node)), node)
        return node

    def _decorators(self, node):
        self.generic_visit(node)
        node.decorator_list = [self._call("__symx_deco__", [d], d) for d in node.decorator_list]
        return node

    visit_FunctionDef = visit_AsyncFunctionDef = visit_ClassDef = _decorators

    def visit_Match(self, node):
        singleton = any(isinstance(n, ast.MatchSingleton) and isinstance(n.value, bool) for c in node.cases for n in ast.walk(c.pattern))
        self.generic_visit(node)
        if singleton:
            node.subject = self._call("__symx_bools__", [node.subject], node.subject)
        return node

    def visit_Compare(self, node):
        self.generic_visit(node)
        if len(node.ops) == 1 and isinstance(node.ops[0], (ast.In, ast.NotIn)):
            name = "__symx_in__" if isinstance(node.ops[0], ast.In) else "__symx_notin__"
            return self._call(name, [node.left, node.comparators[0]], node)
        if len(node.ops) == 1 and isinstance(node.ops[0], (ast.Is, ast.IsNot)):
            for side in (node.left, node.comparators[0]):
                if isinstance(side, ast.Constant) and isinstance(side.value, bool):
                    node.left = self._call("__symx_bools__", [node.left], node)
                    node.comparators = [self._call("__symx_bools__", [node.comparators[0]], node)]
                    break
        return node

    def visit_Dict(self, node):
        self.generic_visit(node)
        elts = []
        for k, v in zip(node.keys, node.values):
            if k is None:
                elts.append(ast.Tuple(elts=[v], ctx=ast.Load()))
            else:
                elts.append(ast.Tuple(elts=[k, v], ctx=ast.Load()))
        return self._call("__symx_dict__", elts, node)

    def visit_Set(self, node):
        self.generic_visit(node)
        return self._call("__symx_set__", [ast.List(elts=node.elts, ctx=ast.Load())], node)

    def visit_DictComp(self, node):
        self.generic_visit(node)
        gen = ast.ListComp(elt=ast.Tuple(elts=[node.key, node.value], ctx=ast.Load()), generators=node.generators)
        return self._call("__symx_dictcomp__", [ast.copy_location(gen, node)], node)

    def visit_SetComp(self, node):
        self.generic_visit(node)
        gen = ast.ListComp(elt=node.elt, generators=node.generators)
        return self._call("__symx_set__", [ast.copy_location(gen, node)], node)

    def visit_MatchMapping(self, node):
        return node

    def visit_MatchValue(self, node):
        return node

    def visit_AnnAssign(self, node):
        # class/module level annotations are not computation
        if node.value is not None:
            node.value = self.visit(node.value)
        return node


def rewrite(source, filename):
    tree = ast.parse(source, filename)
    tree = Rewriter().visit(tree)
    ast.fix_missing_locations(tree)
    return compile(tree, filename, "exec", dont_inherit=True)


class SymxLoader(importlib.abc.Loader):
    def __init__(self, path, is_pkg):
        self.path = path
        self.is_pkg = is_pkg

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        with open(self.path, encoding="utf-8") as f:
            source = f.read()
        code = rewrite(source, self.path)
        module.__dict__.update(HOOKS)
        exec(code, module.__dict__)


class SymxFinder(importlib.abc.MetaPathFinder):
    """packages: {top level package name: directory}"""
    def __init__(self, packages):
        self.packages = packages

    def find_spec(self, fullname, path=None, target=None):
        top = fullname.split(".")[0]
        if top not in self.packages:
            return None
        base = os.path.join(self.packages[top], *fullname.split(".")[1:])
        init = os.path.join(base, "__init__.py")
        if os.path.isfile(init):
            return importlib.util.spec_from_file_location(
                fullname, init, loader=SymxLoader(init, True), submodule_search_locations=[base])
        if os.path.isfile(base + ".py"):
            return importlib.util.spec_from_file_location(fullname, base + ".py", loader=SymxLoader(base + ".py", False))
        if os.path.isdir(base):
            spec = importlib.machinery.ModuleSpec(fullname, None, is_package=True)
            spec.submodule_search_locations = [base]
            return spec
        return None


def install(packages):
    sys.meta_path.insert(0, SymxFinder(packages))


# ------------------------------------------------------------------------------------------------ text rendering


def to_text(x, r=False):
    """str(x) (or repr(x) when r)"""
    t = type(x)
    if t is str:
        return repr(x) if r else x
    if t is SymStr:
        return SymStr((ReprPiece(x),)) if r else x
    if t is SymInt:
        return SymStr((IntPiece(x.e),))
    if t is SymReal:
        return SymStr((RealPiece(x.e),))
    if t is SymBool:
        return str(x.value())
    if t in (int, float, bool, type(None)):
        return repr(x)
    if t is list or t is tuple or t is SymDict or t is SymSet or t is dict or t is set or t is SymDefaultDict:
        if t is list:
            return SymStr.lift("[") + SymStr.lift(", ").join([to_text(y, True) for y in x]) + "]"
        if t is tuple:
            inner = SymStr.lift(", ").join([to_text(y, True) for y in x])
            return SymStr.lift("(") + inner + (",)" if len(x) == 1 else ")")
        if t is set or t is SymSet:
            if len(x) == 0:
                return "set()"
            return SymStr.lift("{") + SymStr.lift(", ").join([to_text(y, True) for y in x]) + "}"
        return SymStr.lift("{") + SymStr.lift(", ").join(
            [SymStr.lift(to_text(k, True)) + ": " + to_text(v, True) for k, v in x.items()]) + "}"
    if isinstance(x, type) or isinstance(x, (types.FunctionType, types.ModuleType)):
        return repr(x)
    if isinstance(x, tuple) and hasattr(t, "_fields") and "_replace" in dir(t) and getattr(t.__repr__, "__module__", "") in ("collections", f"namedtuple_{t.__name__}"):
        inner = SymStr.lift(", ").join([SymStr.lift(n + "=") + to_text(v, True) for n, v in zip(t._fields, x)])
        return SymStr.lift(t.__name__ + "(") + inner + ")"
    if not r:
        m = _python_method(t, "__str__")
        if m is not None:
            return m(x)
    m = _python_method(t, "__repr__")
    if m is not None and t.__str__ is object.__str__ or (m is not None and r):
        return m(x)
    if isinstance(x, BaseException):
        if r:
            return SymStr.lift(t.__name__ + "(") + SymStr.lift(", ").join([to_text(a, True) for a in x.args]) + ")"
        if len(x.args) == 0:
            return ""
        return to_text(x.args[0]) if len(x.args) == 1 else to_text(x.args)
    return repr(x) if r else str(x)


def _python_method(t, name):
    m = getattr(t, name, None)
    return m if isinstance(m, types.FunctionType) else None


def flat(s):
    return SymStr.make(s.items) if type(s) is SymStr else s


def fmt_fstr(*parts):
    out = SymStr(())
    for p in parts:
        if type(p) is str:
            out = SymStr(out.items + tuple(p))
        else:
            value, conv, spec = p
            out = SymStr(out.items + SymStr.lift(fmt_value(value, conv, spec)).items)
    return flat(out)


def fmt_value(value, conv, spec):
    if conv == 114:
        value = to_text(value, True)
    elif conv == 115:
        value = to_text(value)
    elif conv == 97:
        value = ascii(realize_deep(value))
    if isinstance(spec, Sym):
        spec = spec.value()
    if spec == "":
        return to_text(value)
    if isinstance(value, Sym):
        value = value.value()
    return format(value, spec)


def fmt_percent(fmt, args):
    f = fmt.value() if isinstance(fmt, Sym) else fmt
    if not has_sym(args):
        return str.__mod__(f, args)
    if isinstance(args, dict):
        return str.__mod__(f, realize_deep(args))
    vals = list(args) if type(args) is tuple else [args]
    out = SymStr(())
    i = 0
    n = 0
    while i < len(f):
        c = f[i]
        if c != "%":
            out = SymStr(out.items + (c,))
            i += 1
            continue
        m = re.compile(r"%([#0\- +]*)(\d+)?(?:\.(\d+))?([a-zA-Z%])").match(f, i)
        if not m:
            raise ValueError("unsupported format character")
        i = m.end()
        if m.group(4) == "%":
            out = SymStr(out.items + ("%",))
            continue
        if n >= len(vals):
            raise TypeError("not enough arguments for format string")
        v = vals[n]
        n += 1
        if m.group(4) in "sr" and not m.group(1) and not m.group(2) and not m.group(3):
            t = to_text(v, m.group(4) == "r")
        elif m.group(4) in "di" and type(v) is SymInt and not m.group(1) and not m.group(2):
            t = to_text(v)
        else:
            t = str.__mod__(m.group(0), (realize_deep(v),))
        out = SymStr(out.items + SymStr.lift(t).items)
    if n < len(vals):
        raise TypeError("not all arguments converted during string formatting")
    return flat(out)


def fmt_format(f, args, kwargs):
    if not has_sym(args) and not has_sym(kwargs):
        try:
            return str.format(f, *args, **kwargs)
        except TypeError:
            pass
    import string
    out = SymStr(())
    auto = 0
    for lit, field, spec, conv in string.Formatter().parse(f):
        out = SymStr(out.items + tuple(lit))
        if field is None:
            continue
        m = re.compile(r"^(\w*)((?:\.\w+|\[[^\]]+\])*)$").match(field)
        if m is None:
            return str.format(f, *realize_deep(args), **realize_deep(kwargs))
        name, rest = m.groups()
        if name == "":
            v = args[auto]
            auto += 1
        elif name.isdigit():
            v = args[int(name)]
        else:
            v = kwargs[name]
        for a in re.compile(r"\.(\w+)|\[([^\]]+)\]").finditer(rest):
            if a.group(1):
                v = getattr(v, a.group(1))
            else:
                k = a.group(2)
                v = v[int(k)] if k.isdigit() else v[k]
        c = {None: -1, "r": 114, "s": 115, "a": 97}[conv]
        if "{" in (spec or ""):
            return str.format(f, *realize_deep(args), **realize_deep(kwargs))
        out = SymStr(out.items + SymStr.lift(fmt_value(v, c, spec or "")).items)
    return flat(out)


def op_mod(a, b):
    if type(a) is str or type(a) is SymStr:
        return fmt_percent(a, b)
    return a % b


# ------------------------------------------------------------------------------------------------ other operations


def op_in(x, c):
    t = type(c)
    if t is str:
        if type(x) is SymStr:
            return SymStr.lift(c).find(x) >= 0
        return x in c
    if t is list or t is tuple:
        # as list.__contains__, with one decision per element
        for y in c:
            if y is x:
                return True
            r = y == x
            if r is True or (r is not False and bool(r)):
                return True
        return False
    if (t is dict or t is set or t is frozenset) and (has_sym(x) or _custom_hash(x)):
        if t is dict:
            return x in SymDict(c)
        return x in SymSet(c)
    return x in c


def _custom_hash(x):
    return isinstance(getattr(type(x), "__hash__", None), types.FunctionType)


def op_notin(x, c):
    return not op_in(x, c)


def mk_dict(*pairs):
    d = SymDict()
    for p in pairs:
        if len(p) == 1:
            d.update(p[0])
        else:
            d[p[0]] = p[1]
    return d


def mk_dictcomp(pairs):
    d = SymDict()
    for k, v in pairs:
        d[k] = v
    return d


# ------------------------------------------------------------------------------------------------ call models

HANDLERS = {}


def handles(*fs):
    def deco(h):
        for f in fs:
            HANDLERS[f] = h
        return h
    return deco


@handles(str)
def h_str(*args, **kw):
    if len(args) == 1 and not kw:
        return flat(to_text(args[0]))
    return str(*realize_deep(args), **kw)


@handles(repr)
def h_repr(x):
    return flat(to_text(x, True))


@handles(format)
def h_format(x, spec=""):
    return flat(fmt_value(x, -1, spec))


@handles(print)
def h_print(*args, sep=" ", end="\n", file=None, flush=False):
    out = sys.stdout if file is None else file
    text = flat(SymStr.lift(" " if sep is None else sep).join([SymStr.lift(to_text(a)) for a in args]) + SymStr.lift("\n" if end is None else end))
    if type(text) is str or isinstance(_python_method(type(out), "write"), types.FunctionType):
        out.write(text)
    elif out not in (sys.__stdout__, sys.__stderr__):
        call(out.write, text)
    return None


@handles(ascii)
def h_ascii(x):
    return ascii(realize_deep(x))


@handles(type)
def h_type(*args, **kw):
    if len(args) == 1:
        t = type(args[0])
        return {SymInt: int, SymBool: bool, SymReal: float, SymStr: str, SymBytes: bytes, SymDict: dict,
                SymSet: set, SymDefaultDict: collections.defaultdict,
                SymCounter: collections.Counter}.get(t, t)
    return type(*args, **kw)


@handles(dict)
def h_dict(*args, **kw):
    return SymDict(*args, **kw)


@handles(collections.OrderedDict)
def h_odict(*args, **kw):
    return SymDict(*args, **kw)


@handles(collections.defaultdict)
def h_ddict(*args, **kw):
    return SymDefaultDict(*args, **kw)


@handles(dict.fromkeys)
def h_fromkeys(it, value=None):
    return SymDict.fromkeys(it, value)


@handles(set)
def h_set(*args):
    return SymSet(*args)


@handles(frozenset)
def h_frozenset(*args):
    if args:
        items = list(args[0])
        if not has_sym(items) and not any(_custom_hash(i) for i in items):
            return frozenset(items)
        return SymSet(items)
    return frozenset()


@handles(collections.Counter)
def h_counter(*args, **kw):
    return SymCounter(*args, **kw)


@handles(hash)
def h_hash(x):
    return sym_hash(x)


@handles(len)
def h_len(x):
    return len(x)


@handles(bool)
def h_bool(*args):
    if args and type(args[0]) is SymBool:
        return args[0]
    return bool(*args)


@handles(int)
def h_int(*args, **kw):
    if len(args) == 1 and not kw:
        x = args[0]
        t = type(x)
        if t is SymInt:
            return x
        if t is SymBool:
            return core.mk_num(core._num(x))
        if t is SymReal:
            return x.__trunc__()
        if t is SymStr:
            return parse_int(x)
    return int(*realize_deep(args), **kw)


@handles(float)
def h_float(*args):
    if len(args) == 1:
        x = args[0]
        t = type(x)
        if t is SymReal:
            return x
        if t is SymInt:
            return SymReal(core.z3.ToReal(x.e))
        if t is SymStr:
            return parse_float(x)
    return float(*realize_deep(args))


def _digits_value(items):
    z3 = core.z3
    e = z3.IntVal(0)
    for i in items:
        d = z3.IntVal(ord(i) - 48) if type(i) is str else i.expr - 48
        e = e * 10 + d
    return z3.simplify(e)


def _plain_int(s):
    """(sign, digit items) when the text is [+-]?[0-9]+ (ascii), else None; forks"""
    c = s.chars()
    sign = 1
    if c and core.CUR.branch(item_test(c[0], lambda ch: ch in "+-")):
        if core.CUR.branch(item_test(c[0], lambda ch: ch == "-")):
            sign = -1
        c = c[1:]
    if not c:
        return None
    for i in c:
        if not core.CUR.branch(item_test(i, lambda ch: ch in "0123456789")):
            return None
    return sign, c


def item_test(i, p):
    from symx.strs import item_test as it
    return it(i, p)


def parse_int(s):
    if len(s.items) == 1 and type(s.items[0]) is IntPiece:
        return core.mk_num(s.items[0].expr)
    r = _plain_int(s)
    if r is None:
        return int(s.value())
    sign, digits = r
    return core.mk_num(sign * _digits_value(digits))


def parse_float(s):
    c = s.chars()
    dot = -1
    for n, i in enumerate(c):
        if core.CUR.branch(item_test(i, lambda ch: ch == ".")):
            dot = n
            break
    z3 = core.z3
    if dot < 0:
        r = _plain_int(s)
        if r is None:
            return float(s.value())
        return SymReal(z3.simplify(z3.ToReal(r[0] * _digits_value(r[1]))))
    a = SymStr(c[:dot])
    b = c[dot + 1:]
    ra = _plain_int(a) if a.items else (1, ())
    ok = ra is not None and all(core.CUR.branch(item_test(i, lambda ch: ch in "0123456789")) for i in b)
    if not ok or (not ra[1] and not b):
        return float(s.value())
    v = z3.ToReal(_digits_value(ra[1] + b)) / (10 ** len(b))
    return SymReal(z3.simplify(ra[0] * v))


@handles(chr)
def h_chr(x):
    return chr(realize_deep(x))


@handles(ord)
def h_ord(x):
    if type(x) is SymStr:
        c = x.chars()
        if len(c) == 1 and type(c[0]) is not str:
            return SymInt(c[0].expr)
        x = x.value()
    return ord(x)


@handles(round)
def h_round(x, *n):
    if isinstance(x, Sym):
        return x.__round__(*n)
    return round(x, *n)


@handles(isinstance)
def h_isinstance(x, c):
    return isinstance(x, c)


@handles(min)
def h_min(*args, **kw):
    return min(*args, **kw)


@handles(copy_mod.copy)
def h_copy(x):
    if isinstance(x, (SymDict, SymSet)) and type(x) in (SymDict, SymSet, SymDefaultDict):
        return x.copy()
    return copy_mod.copy(x)


@handles(re.match)
def h_re_match(p, s, flags=0):
    return rex.match(p, s, flags)


@handles(re.fullmatch)
def h_re_fullmatch(p, s, flags=0):
    return rex.fullmatch(p, s, flags)


@handles(re.search)
def h_re_search(p, s, flags=0):
    return rex.search(p, s, flags)


@handles(re.findall)
def h_re_findall(p, s, flags=0):
    return rex.findall(p, s, flags)


@handles(re.finditer)
def h_re_finditer(p, s, flags=0):
    return rex.finditer(p, s, flags)


@handles(re.sub)
def h_re_sub(p, repl, s, count=0, flags=0):
    return rex.sub(p, repl, s, count, flags)


@handles(re.subn)
def h_re_subn(p, repl, s, count=0, flags=0):
    return rex.subn(p, repl, s, count, flags)


@handles(re.split)
def h_re_split(p, s, maxsplit=0, flags=0):
    return rex.split(p, s, maxsplit, flags)


@handles(re.compile)
def h_re_compile(p, flags=0):
    if isinstance(p, Sym):
        p = p.value()
    return re.compile(p, flags)


@handles(re.escape)
def h_re_escape(s):
    if type(s) is SymStr:
        return s._map(lambda c: re.escape(c))
    return re.escape(s)


@handles(math.prod)
def h_prod(it, *, start=1):
    return functools.reduce(lambda a, b: a * b, it, start)


@handles(math.fsum, statistics.fsum if hasattr(statistics, "fsum") else math.fsum)
def h_fsum(it):
    items = list(it)
    if not has_sym(items):
        return math.fsum(items)
    return h_float(sum(items))


@handles(math.floor)
def h_floor(x):
    return x.__floor__() if isinstance(x, Sym) else math.floor(x)


@handles(math.ceil)
def h_ceil(x):
    return x.__ceil__() if isinstance(x, Sym) else math.ceil(x)


@handles(math.trunc)
def h_trunc(x):
    return x.__trunc__() if isinstance(x, Sym) else math.trunc(x)


@handles(math.fabs)
def h_fabs(x):
    return h_float(abs(x)) if isinstance(x, Sym) else math.fabs(x)


@handles(math.isnan, math.isinf)
def h_isnan(x):
    return False if isinstance(x, Sym) else math.isnan(x)


@handles(math.isclose)
def h_isclose(a, b, *, rel_tol=1e-09, abs_tol=0.0):
    if not has_sym((a, b)):
        return math.isclose(a, b, rel_tol=rel_tol, abs_tol=abs_tol)
    d = abs(a - b)
    return bool(a == b) or bool(d <= abs(a) * rel_tol) or bool(d <= abs(b) * rel_tol) or bool(d <= abs_tol)


@handles(statistics.mean)
def h_mean(it):
    items = list(it)
    if not has_sym(items):
        return statistics.mean(items)
    s = sum(items)
    if isinstance(s, int) and s % len(items) == 0:
        return s // len(items)
    return s / len(items)


@handles(statistics.fmean)
def h_fmean(it):
    items = list(it)
    if not has_sym(items):
        return statistics.fmean(items)
    return h_float(sum(items)) / len(items)


@handles(statistics.median)
def h_median(it):
    items = sorted(it)
    n = len(items)
    if n == 0:
        raise statistics.StatisticsError("no median for empty data")
    return items[n // 2] if n % 2 else (items[n // 2 - 1] + items[n // 2]) / 2


class Cached:
    """functools.lru_cache (unlimited; a cache that forgets is slower, not different, for functions without state)"""
    def __init__(self, f, maxsize=None):
        self.f = f
        self.d = SymDict()
        self.hits = self.misses = 0
        self.maxsize = maxsize
        functools.update_wrapper(self, f)

    def __call__(self, *args, **kw):
        key = args + (tuple(sorted(kw.items())),) if kw else args
        if key in self.d:
            self.hits += 1
            return self.d[key]
        self.misses += 1
        r = call(self.f, *args, **kw)
        if self.maxsize is not None and len(self.d) >= self.maxsize:
            for k in self.d:
                del self.d[k]
                break
        if self.maxsize != 0:
            self.d[key] = r
        return r

    def __get__(self, obj, cls=None):
        return self if obj is None else types.MethodType(self, obj)

    def cache_clear(self):
        self.d.clear()
        self.hits = self.misses = 0

    def cache_info(self):
        return self.hits, self.misses, self.maxsize, len(self.d)


@handles(functools.lru_cache)
def h_lru_cache(maxsize=128, typed=False):
    if callable(maxsize):
        return Cached(maxsize, 128)
    return lambda f: Cached(f, maxsize)


@handles(functools.cache)
def h_cache(f):
    return Cached(f)


def _generated(f):
    return isinstance(f, types.FunctionType) and "__symx_call__" not in f.__globals__ or \
        isinstance(f, types.FunctionType) and f.__code__.co_filename == "<string>"


def _dataclass(cls):
    names = [f.name for f in dataclasses.fields(cls) if f.compare]
    if _generated(cls.__dict__.get("__hash__")):
        cls.__hash__ = lambda self: sym_hash(tuple(getattr(self, n) for n in names))
    if cls.__dataclass_params__.repr and "__repr__" in cls.__dict__:
        shown = [f.name for f in dataclasses.fields(cls) if f.repr]
        r = cls.__dict__["__repr__"]
        if hasattr(r, "__wrapped__") or _generated(r):
            cls.__repr__ = lambda self: flat(SymStr.lift(cls.__qualname__ + "(") + SymStr.lift(", ").join(
                [SymStr.lift(n + "=") + to_text(getattr(self, n), True) for n in shown]) + ")")
    return cls


@handles(dataclasses.dataclass)
def h_dataclass(cls=None, **kw):
    if cls is not None:
        return _dataclass(dataclasses.dataclass(cls, **kw))
    d = dataclasses.dataclass(**kw)
    return lambda c: _dataclass(d(c))


def deco(d):
    """a decorator"""
    try:
        h = HANDLERS.get(d)
    except TypeError:
        h = None
    return h if h is not None else d


def bools(x):
    """symbolic booleans are decided (for `is True`, `case True:`)"""
    if type(x) is core.SymBool:
        return bool(x)
    if type(x) in (list, tuple):
        return type(x)(bools(y) for y in x)
    return x


_C_METHOD = type(re.compile("").match)      # (a C method that knows its class)
_C_FUNCTIONS = (_C_METHOD, types.BuiltinFunctionType, types.MethodDescriptorType, types.WrapperDescriptorType, types.MethodWrapperType,
                types.ClassMethodDescriptorType)


def enter(f):
    """a C function that is handed to a higher order function is called through its model"""
    if isinstance(f, _C_FUNCTIONS) or isinstance(f, type) and not f.__flags__ & (1 << 9) or type(f) is types.FunctionType and f in HANDLERS:
        return lambda *args, **kw: call(f, *args, **kw)
    return f


_HIGHER = {map, filter, functools.reduce, functools.partial, itertools.starmap, itertools.filterfalse, itertools.takewhile,
           itertools.dropwhile, functools.cmp_to_key}

_SAFE_TYPES = (types.FunctionType, types.MethodType)

# C implemented callables that treat their arguments as opaque objects, or only use protocols that symbolic values
# implement (iteration, comparison, truth, arithmetic, length)
_OPAQUE = {
    list, tuple, enumerate, zip, map, filter, reversed, sorted, any, all, sum, max, iter, next, id, getattr, hasattr,
    setattr, delattr, callable, issubclass, abs, divmod, object, property, staticmethod, classmethod, range, slice,
    functools.reduce, functools.partial, itertools.product, itertools.chain, itertools.islice, itertools.permutations,
    itertools.combinations, itertools.count, itertools.repeat, itertools.groupby, itertools.zip_longest,
    itertools.chain.from_iterable, itertools.takewhile, itertools.dropwhile, itertools.accumulate, itertools.tee,
    copy_mod.deepcopy, collections.deque, Exception, ValueError, KeyError, TypeError, IndexError,
    RuntimeError, NotImplementedError, super, types.SimpleNamespace,
}
# pure Python library code that works on symbolic values as it is
_TRANSPARENT = {"copy", "functools", "collections", "dataclasses", "contextlib", "typing", "abc", "enum", "operator",
                "symx", "props", "unittest", "types", "itertools", "bisect", "heapq"}

_OPAQUE_METHODS = {
    list: {"append", "extend", "insert", "pop", "remove", "index", "count", "sort", "reverse", "copy", "clear",
           "__contains__", "__getitem__", "__setitem__", "__len__", "__iter__"},
    tuple: {"index", "count"},
    collections.deque: {"append", "appendleft", "pop", "popleft", "extend", "clear", "rotate", "extendleft"},
}


def list_index(l, x, start=0, stop=sys.maxsize):
    for i, y in enumerate(l):
        if start <= i < stop and (y is x or y == x):
            return i
    raise ValueError(flat(SymStr.lift(to_text(x, True)) + " is not in list") if type(l) is list else "tuple.index(x): x not in tuple")


_TRANSPARENT_C = {"_operator", "_heapq", "_bisect", "_functools", "itertools", "_collections"}


def call(*args, **kw):
    f = args[0]
    args = args[1:]
    t = type(f)
    if kw and ("key" in kw or "func" in kw or "default_factory" in kw):
        kw = {k: enter(v) if k in ("key", "func", "default_factory") else v for k, v in kw.items()}
    if t is types.FunctionType:
        h = HANDLERS.get(f)
        if h is not None:
            return h(*args, **kw)
        if "__symx_call__" in f.__globals__:
            FUNCS[f.__code__] = None
            return f(*args, **kw)
        if (f.__module__ or "").split(".")[0] in _TRANSPARENT:
            return f(*args, **kw)
        return native(f, args, kw)
    if t is types.MethodType:
        c = getattr(f.__func__, "__code__", None)
        if c is not None:
            FUNCS[c] = None
        elif isinstance(f.__func__, types.BuiltinFunctionType):
            return native(f, args, kw)
        return f(*args, **kw)
    if t is types.BuiltinFunctionType or t is types.MethodWrapperType or t is _C_METHOD:
        s = f.__self__
        if s is None or isinstance(s, types.ModuleType):
            h = HANDLERS.get(f)
            if h is not None:
                return h(*args, **kw)
            if f in _OPAQUE:
                if f is functools.reduce or f is functools.cmp_to_key:
                    args = (enter(args[0]),) + args[1:]
                return f(*args, **kw)
            if isinstance(s, types.ModuleType) and s.__name__ in _TRANSPARENT_C:
                if s.__name__ == "_operator":
                    if f is operator.contains:
                        return op_in(args[1], args[0])
                    if f is operator.mod:
                        return op_mod(*args)
                return f(*args, **kw)
            return native(f, args, kw)
        if s is itertools.chain:
            return f(*args, **kw)
        st = type(s)
        if st is list or st is tuple or st is collections.deque:
            if f.__name__ == "index":
                return list_index(s, *args)
            if f.__name__ in _OPAQUE_METHODS[st]:
                return f(*args, **kw)
            return native(f, args, kw)
        if st is str:
            name = f.__name__
            if name == "join":
                parts = list(args[0])
                for p in parts:
                    if type(p) is SymStr:
                        return SymStr.lift(s).join(parts)
                return s.join(parts)
            if name == "format":
                return fmt_format(s, args, kw)
            if name == "format_map":
                return fmt_format(s, (), args[0])
            if has_sym(args):
                return getattr(SymStr.lift(s), name)(*args, **kw)
            return f(*args, **kw)
        if st is dict:
            if f.__name__ in ("get", "pop", "setdefault", "__contains__", "__getitem__") and args and has_sym(args[0]):
                d = SymDict(s)
                if f.__name__ in ("get", "__contains__", "__getitem__"):
                    return getattr(d, f.__name__)(*args, **kw)
                return native(f, args, kw)
            if f.__name__ == "fromkeys":
                return SymDict.fromkeys(*args)
            return f(*args, **kw)
        if isinstance(s, re.Pattern):
            return getattr(rex, f.__name__)(s, *args, **kw)
        if s is dict or s is SymDict:
            if f.__name__ == "fromkeys":
                return SymDict.fromkeys(*args)
        return native(f, args, kw)
    try:
        h = HANDLERS.get(f)
    except TypeError:
        h = None
    if h is not None:
        return h(*args, **kw)
    if t is type or isinstance(f, type):
        # a class: python level classes are entered directly
        if f in _HIGHER and args:
            args = (enter(args[0]),) + args[1:]
        elif f is itertools.groupby or f is itertools.accumulate:
            args = args[:1] + tuple(enter(a) for a in args[1:])
        if f in _OPAQUE or f.__module__ in ("itertools", "operator", "functools") or f.__flags__ & (1 << 9):   # heap type (defined in Python)
            return f(*args, **kw)
        return native(f, args, kw)
    if t is types.MethodDescriptorType or t is types.WrapperDescriptorType:
        # e.g. str.upper(x)
        if args and f.__objclass__ is str and (type(args[0]) is SymStr or has_sym(args)):
            return getattr(SymStr.lift(args[0]), f.__name__)(*args[1:], **kw)
        if args and f.__objclass__ in (dict, set) and isinstance(args[0], (SymDict, SymSet)):
            return getattr(args[0], f.__name__)(*args[1:], **kw)
        return f(*args, **kw)
    # callable objects (lambdas are functions), functools.partial, ...
    return f(*args, **kw)


def native(f, args, kw):
    """a C function without a model: symbolic arguments are replaced by each of their possible values in turn"""
    if has_sym(args) or has_sym(kw):
        m = getattr(f, "__module__", "") or ""
        if not m.startswith(("symx", "props")):
            args = realize_deep(args)
            kw = realize_deep(kw)
    return f(*args, **kw)


HOOKS = {
    "__symx_call__": call,
    "__symx_fstr__": fmt_fstr,
    "__symx_mod__": op_mod,
    "__symx_in__": op_in,
    "__symx_notin__": op_notin,
    "__symx_dict__": mk_dict,
    "__symx_dictcomp__": mk_dictcomp,
    "__symx_deco__": deco,
    "__symx_bools__": bools,
    "__symx_set__": lambda items: SymSet(items),
}
