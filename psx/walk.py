"""Counts what an object graph holds."""
import types
from collections import deque

SKIP = (type, types.ModuleType, types.FunctionType, types.BuiltinFunctionType,
        str, bytes, int, float, bool, type(None))


def size(root):
    """Number of container entries reachable from a server's objects."""
    seen = set()
    todo = [root]
    n = 0
    while todo:
        x = todo.pop()
        if isinstance(x, SKIP) or id(x) in seen:
            continue
        mod = type(x).__module__
        if mod.startswith("z3") or mod.startswith("psx.") and \
           not isinstance(x, (dict, set)) or mod.startswith("vh."):
            continue
        seen.add(id(x))
        if isinstance(x, types.MethodType):
            todo.append(x.__self__)
            continue
        if isinstance(x, dict):
            n += len(x)
            todo.extend(list(x.keys()))
            todo.extend(list(x.values()))
        elif isinstance(x, (list, tuple, set, frozenset, deque)):
            n += len(x)
            todo.extend(list(x))
        d = getattr(x, "__dict__", None)
        if isinstance(d, dict) and not isinstance(x, SKIP):
            todo.extend(list(d.values()))
    return n
