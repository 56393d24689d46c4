"""Neighbours of a call: calls whose arguments agree with it on every cheap digest.

After the real call (in a child, so that nothing of this is seen outside), each neighbour is executed twice: once with
whatever the package remembers, and once with the package put back to its just-imported state.  Both must agree: an
answer remembered under rounded values, shapes, totals, extremes, end points or a subset of the arguments does not.
"""
import copy

import numpy as np

from mc import fresh, zygote
from mc.core import snap

SNAP = None


def prepare():
    """Record the package's just-imported state (nothing has been evaluated yet)."""
    global SNAP
    import importlib
    import pkgutil

    import pybsm
    for m in pkgutil.walk_packages(pybsm.__path__, "pybsm."):
        if "__main__" in m.name or "test" in m.name:
            continue
        try:
            importlib.import_module(m.name)
        except Exception:  # an optional part that is not installed
            pass
    SNAP = fresh.Snapshot()


def flat(x, depth=0):
    if isinstance(x, np.ndarray):
        return [x] if x.dtype.kind in "biufc" else []
    if isinstance(x, (tuple, list)):
        return [a for y in x for a in flat(y, depth)]
    if isinstance(x, (int, float, complex, np.generic, bool)):
        return [np.asarray(x)]
    if depth > 3 or not hasattr(x, "__dict__"):
        return []
    return [a for k, v in sorted(vars(x).items()) if k not in ("sensor", "scenario") for a in flat(v, depth + 1)]


def arrays(a):
    """Variants of an array, most alike first."""
    if a.dtype.kind not in "iuf" or a.size == 0 or not np.all(np.isfinite(a)):
        return
    up = (lambda x: x * np.asarray(1.01, a.dtype)) if a.dtype.kind == "f" else (lambda x: x + 1)
    if a.size > 1:
        rev = a[tuple(slice(None, None, -1) for _ in a.shape)].copy()
        if not np.array_equal(rev, a):
            yield rev                                   # same shape, total and extremes
        if a.ndim == 2 and a.shape[0] == a.shape[1] and not np.array_equal(a, a.T):
            yield a.T.copy()
        f = a.ravel()
        for i in range(1, a.size - 2):
            if f[i] != f[i + 1]:
                b = f.copy()
                b[i], b[i + 1] = f[i + 1], f[i]
                yield b.reshape(a.shape)                # same ends as well
                break
    if a.size > 2:
        b = a.ravel().copy()
        i = a.size // 2
        b[i] = up(b[i:i + 1])[0] if b[i] != 0 else b[i] + np.asarray(1, a.dtype)
        yield b.reshape(a.shape)                        # same ends and shape
        b = a.ravel().copy()
        b[-1] = up(b[-1:])[0]
        if b[-1] != a.ravel()[-1]:
            yield b.reshape(a.shape)
    yield up(a)


def variants(x):
    if isinstance(x, np.ndarray):
        yield from arrays(x)
    elif isinstance(x, (bool, np.bool_)):
        yield not x
    elif isinstance(x, (int, np.integer)):
        yield x + 1
    elif isinstance(x, (float, np.floating)):
        if np.isfinite(x):
            yield x * 1.0003 if x else 4e-4
    elif isinstance(x, list) and x and all(isinstance(y, (int, float)) for y in x):
        for v in arrays(np.array(x)):
            yield v.tolist()
    elif hasattr(x, "__dict__") and not callable(x) and type(x).__module__.startswith("pybsm"):
        for k in sorted(vars(x)):
            if k.startswith("_"):
                continue
            for v in variants(getattr(x, k)):
                y = copy.deepcopy(x)
                try:
                    setattr(y, k, v)
                except Exception:
                    continue
                yield y


def neighbours(args, kw):
    for i, x in enumerate(args):
        for v in variants(x):
            yield args[:i] + (v,) + args[i + 1:], kw
    for k, x in kw.items():
        for v in variants(x):
            yield args, {**kw, k: v}


def changes(args):
    """Ways to change the arguments themselves (the same objects, other contents): (argument, attribute, content)."""
    for i, x in enumerate(args):
        if isinstance(x, np.ndarray):
            for v in list(arrays(x))[:2]:
                yield i, None, v
        elif hasattr(x, "__dict__") and not callable(x) and type(x).__module__.startswith("pybsm"):
            for k in sorted(vars(x)):
                if not k.startswith("_"):
                    for v in list(variants(getattr(x, k)))[:1]:
                        yield i, k, v


def change(args, i, k, v):
    x = args[i] if k is None else getattr(args[i], k)
    if isinstance(x, np.ndarray) and x.shape == np.shape(v):
        x.flags.writeable = True
        x[...] = v
    else:
        setattr(args[i], k, v)


def _quiet(fn, args, kw):
    np.random.seed(99)
    try:
        return fn(*args, **kw)
    except Exception as e:
        return type(e).__name__


def _flat(out):
    return out if isinstance(out, str) else [np.array(x) for x in flat(out)]


def _objects(fn, args, kw, limit, bad):
    """Neither the caller's arrays nor the answers handed out are what is remembered."""
    n = 0
    SNAP.reset()
    out = _quiet(fn, copy.deepcopy(args), copy.deepcopy(kw))
    cold = _flat(out)
    if isinstance(cold, str):
        return n
    for x in flat(out):
        if x.flags.writeable:
            x[...] = 3
    n += 2
    warm = _do(fn, args, kw)
    if not _agree(warm, cold):
        bad.append(f"changing what it returned changes its next answer: {str(warm)[:80]} instead of {str(cold)[:80]}")
    for i, k, v in list(changes(args))[:limit]:
        n += 3
        SNAP.reset()
        same = copy.deepcopy(args)
        _quiet(fn, same, kw)
        other = copy.deepcopy(args)
        try:
            change(same, i, k, v)
            change(other, i, k, v)
        except Exception:
            continue
        warm = _flat(_quiet(fn, same, kw))
        SNAP.reset()
        cold = _flat(_quiet(fn, other, kw))
        if not _agree(warm, cold):
            bad.append(f"argument {i} {k or ''} changed in place: {str(warm)[:80]} instead of {str(cold)[:80]}")
    return n


def _do(fn, args, kw):
    np.random.seed(99)
    try:
        return flat(fn(*copy.deepcopy(args), **copy.deepcopy(kw)))
    except Exception as e:
        return type(e).__name__


def _agree(a, b, rel=1e-10):
    if isinstance(a, str) or isinstance(b, str):
        return type(a) is type(b) and a == b
    if len(a) != len(b):
        return False
    for x, y in zip(a, b):
        if x.shape != y.shape:
            return False
        if x.size == 0 or np.array_equal(x, y):
            continue
        with np.errstate(all="ignore"):
            single = np.result_type(x, y) in (np.float32, np.complex64)
            tol = max(rel, 1e-5 * single) * (np.abs(y) + np.nanmax(np.abs(y)))
            if not np.all((np.abs(x - y) <= tol) | (x == y) | (np.isnan(x) & np.isnan(y))):
                return False
    return True


def _work(fn, args, kw, limit, offset):
    import warnings
    warnings.simplefilter("ignore")
    n, bad = 0, []
    todo = list(neighbours(args, kw))
    if len(todo) > limit:  # (every neighbour is reached from some state; the default state meets all of them)
        step = -(-len(todo) // limit)
        todo = todo[offset % step::step]
    SNAP.reset()
    base = _quiet(fn, copy.deepcopy(args), copy.deepcopy(kw))
    was = snap(base)
    for a, k in todo:
        n += 1
        warm = _do(fn, a, k)
        warm = [np.array(x) for x in warm] if isinstance(warm, list) else warm
        altered = snap(base) != was
        SNAP.reset()
        cold = _do(fn, a, k)
        what = next((i for i, (p, q) in enumerate(zip(args, a)) if p is not q), None)
        what = f"argument {what if what is not None else [x for x in k if k[x] is not kw[x]]} varied: "
        if altered:
            bad.append(what + "the answer given before has changed")
        if not _agree(warm, cold):
            bad.append(what + f"{str(warm)[:80]} instead of {str(cold)[:80]}")
        if len(bad) > 3:
            break
        SNAP.reset()
        base = _quiet(fn, copy.deepcopy(args), copy.deepcopy(kw))
    if not bad:
        n += _objects(fn, args, kw, limit, bad)
    return n, bad


def probe(bag, kind, fn, args, kw, share=1):
    """bag.probe: (most neighbours, which share of them when there are more)."""
    if SNAP is None:
        return
    limit, offset = bag.probe
    n, bad = zygote.run(_work, fn, args, kw, limit if share >= 1 else max(2, int(min(limit, 24) * share)), offset)
    bag.ops += 3 * n
    for b in bad:
        bag.fail(kind + ":remembers-another-call", f"{getattr(fn, '__name__', fn)} {b}")
