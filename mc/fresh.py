"""Puts the loaded package back into the state it has right after import (a fresh process without the cost of one).

Covers module globals, class attributes, function defaults and attributes, and memoizing wrappers; containers are put
back in place, so code that holds a reference to one sees the restored contents too.
"""
import inspect
import sys
import types

import numpy as np


def modules():
    return [m for n, m in sorted(sys.modules.items()) if n == "pybsm" or n.startswith("pybsm.")]


def _copy(x, depth=0):
    if depth > 6:
        return x
    if type(x) is dict:
        return {k: _copy(v, depth + 1) for k, v in x.items()}
    if type(x) is list:
        return [_copy(v, depth + 1) for v in x]
    if type(x) is set:
        return set(x)
    if isinstance(x, np.ndarray):
        return x.copy()
    return x


def _refill(x, saved):
    """Restore container x in place from the saved contents; returns what should be bound."""
    if type(x) is type(saved) and type(x) in (dict, set):
        x.clear()
        x.update(_copy(saved))
    elif type(x) is type(saved) and type(x) is list:
        x[:] = _copy(saved)
    elif isinstance(x, np.ndarray) and isinstance(saved, np.ndarray) and x.shape == saved.shape and x.dtype == saved.dtype:
        if x.flags.writeable and not np.array_equal(x, saved):
            x[...] = saved
    else:
        return saved
    return x


class Snapshot:
    def __init__(self):
        self.spaces = []   # (namespace owner, {name: (object, contents)})
        self.funcs = {}
        seen = set()
        for m in modules():
            self._space(m, seen)

    def _space(self, owner, seen):
        if id(owner) in seen:
            return
        seen.add(id(owner))
        names = {}
        for k, v in list(vars(owner).items()):
            if k.startswith("__") and k.endswith("__"):
                continue
            names[k] = (v, _copy(v) if type(v) in (dict, list, set) or isinstance(v, np.ndarray) else v)
            if inspect.isclass(v) and str(getattr(v, "__module__", "")).startswith("pybsm"):
                self._space(v, seen)
            self._func(v)
        self.spaces.append((owner, names))

    def _func(self, v):
        if isinstance(v, (staticmethod, classmethod)):
            v = v.__func__
        if isinstance(v, property):
            for f in (v.fget, v.fset, v.fdel):
                self._func(f)
            return
        hops = 0
        while v is not None and hops < 6:
            hops += 1
            if isinstance(v, types.FunctionType) and str(v.__module__).startswith("pybsm"):
                cells = [(c, c.cell_contents, _copy(c.cell_contents)) for c in (v.__closure__ or ())
                         if self._filled(c)]
                self.funcs[id(v)] = (v, v.__defaults__, _copy(list(v.__defaults__ or ())), _copy(dict(v.__dict__)), cells)
            elif hasattr(v, "cache_clear"):
                self.funcs[id(v)] = (v, None, None, None, None)
            v = getattr(v, "__wrapped__", None)

    @staticmethod
    def _filled(c):
        try:
            c.cell_contents
            return True
        except ValueError:
            return False

    def reset(self):
        for owner, names in self.spaces:
            now = vars(owner)
            for k in [k for k in now if k not in names and not (k.startswith("__") and k.endswith("__"))]:
                if not isinstance(now[k], types.ModuleType):
                    delattr(owner, k)
            for k, (v, saved) in names.items():
                if saved is not v:
                    v = _refill(v, saved)
                if now.get(k, self) is not v:
                    setattr(owner, k, v)
        for f, defaults, saved, attrs, cells in self.funcs.values():
            if attrs is None:
                f.cache_clear()
                continue
            for d, s in zip(defaults or (), saved):
                _refill(d, s) if d is not s else None
            if f.__dict__ != attrs or attrs:
                f.__dict__.clear()
                f.__dict__.update(_copy(attrs))
            for c, v, s in cells:
                if v is not s:
                    _refill(v, s)
                if c.cell_contents is not v:
                    c.cell_contents = v
