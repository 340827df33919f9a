"""
A signature of the global mutable state of the code under test (modules, classes, function defaults, closures,
function attributes and caches, and everything reachable from them).  Paths run one after another in one process only
as long as this state stays as it was; otherwise every path gets a process of its own.
"""
import sys
import types

_ATOM = (int, str, float, bool, bytes, type(None), complex)


def signature():
    seen = set()
    sig = []
    stack = []
    for name, mod in sorted(sys.modules.items()):
        if name == "richard" or name.startswith("richard."):
            stack.append(mod)
    while stack:
        x = stack.pop()
        t = type(x)
        if t in _ATOM:
            sig.append(x)
            continue
        i = id(x)
        if i in seen:
            continue
        seen.add(i)
        if isinstance(x, types.ModuleType):
            n = x.__name__
            if not (n == "richard" or n.startswith("richard.")):
                continue
            d = x.__dict__
            sig.append((n, len(d)))
            for k, v in d.items():
                if not k.startswith("__"):
                    sig.append(id(v))
                    stack.append(v)
            continue
        if isinstance(x, type):
            if not str(x.__module__).startswith("richard"):
                continue
            d = x.__dict__
            sig.append((x.__qualname__, len(d)))
            for k, v in list(d.items()):
                if k.startswith("__") and k not in ("__init__", "__call__"):
                    continue
                if k.startswith("_abc"):
                    continue
                sig.append(id(v))
                stack.append(v)
            continue
        if isinstance(x, types.FunctionType):
            if not str(x.__module__).startswith("richard"):
                continue
            for part in (x.__defaults__, x.__kwdefaults__, x.__closure__, x.__dict__):
                if part:
                    stack.append(part)
            continue
        if isinstance(x, types.CellType):
            try:
                sig.append(id(x.cell_contents))
                stack.append(x.cell_contents)
            except ValueError:
                pass
            continue
        if hasattr(x, "cache_info"):
            try:
                sig.append(tuple(x.cache_info()))
            except Exception:
                pass
        if isinstance(x, dict):
            sig.append(("d", len(x)))
            for k, v in dict.items(x):
                sig.append(id(k))
                sig.append(id(v))
                stack.append(v)
            continue
        if isinstance(x, (list, tuple)):
            sig.append(("l", len(x)))
            for v in x:
                sig.append(id(v))
                stack.append(v)
            continue
        if isinstance(x, (set, frozenset)):
            sig.append(("s", len(x)))
            continue
        if isinstance(x, types.MethodType):
            stack.append(x.__self__)
            continue
        d = getattr(x, "__dict__", None)
        if isinstance(d, dict) and str(getattr(t, "__module__", "")).startswith("richard"):
            sig.append((t.__qualname__, len(d)))
            for k, v in d.items():
                sig.append(id(v))
                stack.append(v)
        elif hasattr(t, "__slots__") and str(getattr(t, "__module__", "")).startswith("richard"):
            for k in t.__slots__ if not isinstance(t.__slots__, str) else [t.__slots__]:
                v = getattr(x, k, None)
                sig.append(id(v))
                stack.append(v)
    return sig
