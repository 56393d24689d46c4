"""Explorer: enumerates a bounded space of states, executes the real package on every one, checks invariants.

A property module provides an object with
  world                 arguments for make_world (which database entries exist), or None if no database is needed
  states(tier)          the complete list of states, JSON-able, simplest first
  observe(state)        runs the package on the state; returns an observation; reports through Fail
  edges(states)         optional: pairs of indices; relate(a, obs_a, b, obs_b) is checked on each (a transition)
States are executed in enumeration order inside a worker (so neighbouring states follow each other in one process:
a value remembered under an incomplete key shows up as a disagreement with the reference model).
"""
import hashlib
import importlib
import itertools
import json
import multiprocessing as mp
import os
import pickle
import sys
import time
import traceback
import warnings
import zlib

import numpy as np

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FAILFAST = bool(os.environ.get("VERIF_FAILFAST"))  # (only to rank planted changes quickly)
NPROC = int(os.environ.get("VERIF_NPROC", "8"))


class Fail(Exception):
    """A property violation: kind is stable across runs, detail is for humans."""

    def __init__(self, kind, detail=""):
        super().__init__(f"{kind}: {detail}")
        self.kind, self.detail = kind, detail


class Bag:
    """Collects failures and operation counts of one state."""

    def __init__(self):
        self.fails, self.ops, self.maxerr = [], 0, {}
        self.probe, self.probed = None, []  # whether calls are followed by their neighbours (mc/decoys.py)
        self.guise = "all"  # which other representations of equal arguments are tried ("layout": no other types)

    def fail(self, kind, detail=""):
        if len(self.fails) < 20:
            self.fails.append((kind, str(detail)[:600]))

    def that(self, cond, kind, detail=""):
        if not cond:
            self.fail(kind, detail() if callable(detail) else detail)
        return bool(cond)

    def close(self, got, want, kind, rtol=1e-9, atol=0.0, detail=""):
        """got agrees with want everywhere (shape, finiteness and value)."""
        try:
            g, w = np.asarray(got), np.asarray(want)
            if g.shape != w.shape:
                if g.size != w.size or g.size != 1:
                    return self.that(False, kind, f"shape {g.shape} instead of {w.shape} {detail}")
                g, w = g.reshape(-1), w.reshape(-1)
            if not np.issubdtype(g.dtype, np.number):
                return self.that(False, kind, f"not numeric: {got!r} {detail}")
            bad = ~(np.abs(g - w) <= atol + rtol * np.abs(w)) & ~((g == w) | (np.isnan(g) & np.isnan(w)))
        except Exception as e:  # an answer that cannot even be compared is a wrong answer
            return self.that(False, kind, f"{type(e).__name__}: {e} {detail}")
        if bad.any():
            i = tuple(int(x) for x in np.argwhere(bad)[0]) if g.ndim else ()
            return self.that(False, kind, f"got {g[i]!r} instead of {w[i]!r} at {i} ({int(bad.sum())}/{g.size}) {detail}")
        return True


class Timeout(Exception):
    pass


def size(x):
    return x.nbytes if isinstance(x, np.ndarray) else sum(map(size, x)) if isinstance(x, tuple) else 0


def snap(x):
    """A picklable deep snapshot used to see whether an argument was changed."""
    if isinstance(x, np.ndarray):
        return ("nd", x.shape, x.dtype.str, x.tobytes())
    if isinstance(x, (list, tuple)):
        return (type(x).__name__, tuple(snap(y) for y in x))
    if isinstance(x, dict):
        return ("dict", tuple((k, snap(x[k])) for k in sorted(x)))
    if isinstance(x, (int, float, complex, str, bool, type(None), np.generic)):
        return ("v", repr(x))
    if callable(x):
        return ("fn",)
    if hasattr(x, "__dict__"):
        return (type(x).__name__, tuple((k, snap(v)) for k, v in sorted(vars(x).items())))
    return ("o", repr(type(x)))


def same(a, b):
    """Bitwise-ish equality of two results (arrays, tuples, scalars)."""
    if isinstance(a, tuple) and isinstance(b, tuple):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    try:
        return np.array_equal(np.asarray(a), np.asarray(b), equal_nan=True)
    except TypeError:
        return bool(np.all(np.asarray(a) == np.asarray(b)))


def call(bag, kind, fn, *args, again=True, expect=None, **kw):
    """Run fn on the real code: arguments must survive, a second identical call must agree.

    expect: exception types that are the specified outcome (returns the exception then).
    """
    before = snap(args) + snap(kw)
    bag.ops += 1
    try:
        with warnings.catch_warnings(), np.errstate(all="ignore"):
            warnings.simplefilter("ignore")
            out = fn(*args, **kw)
            if again:
                bag.ops += 1
                if isinstance(out, (np.ndarray, tuple)):
                    keep = pickle.loads(pickle.dumps(out))
                else:
                    keep = out
                out2 = fn(*args, **kw)
    except Exception as e:
        if expect and isinstance(e, expect):
            return e
        bag.fail(kind + ":raises", f"{type(e).__name__}: {e} at "
                 + "; ".join(f"{os.path.basename(f.filename)}:{f.lineno}" for f in traceback.extract_tb(e.__traceback__)[-3:]))
        raise Skip() from e
    if expect:
        bag.fail(kind + ":accepts", f"no {'/'.join(x.__name__ for x in expect)} raised, returned {str(out)[:80]}")
        raise Skip()
    if snap(args) + snap(kw) != before:
        bag.fail(kind + ":changes-its-input", fn.__name__)
    if again and not same(keep, out2):
        bag.fail(kind + ":not-repeatable", f"{fn.__name__}: same arguments, different result")
    if again and bag.guise and not bag.fails and size(args) < 40000:
        disguised(bag, kind, fn, args, kw, out)
    if bag.probe and fn not in bag.probed and not bag.fails:
        from mc import decoys
        bag.probed.append(fn)
        decoys.probe(bag, kind, fn, args, kw, 4e5 / (1 + size(args)))  # fewer for large arguments
    return out


def guises(x, k):
    """The same value represented differently: another memory layout, a read-only view, another numeric type."""
    if isinstance(x, np.ndarray) and x.dtype.kind in "iufc" and x.size:
        if k == 0 and x.ndim:
            y = np.empty(x.shape[:-1] + (2 * x.shape[-1] + 1,), x.dtype)
            y[...] = 3
            y[..., 1::2] = x
            return y[..., 1::2]
        if k == 1:
            y = x[tuple(slice(None, None, -1) for _ in x.shape)].copy()[tuple(slice(None, None, -1) for _ in x.shape)]
            y.flags.writeable = False
            return y
        if k == 2:
            return np.asfortranarray(x).copy("F")
        if k in (3, 4) and x.dtype.kind in "iuf":
            with np.errstate(all="ignore"):
                y = x.astype(np.int32 if k == 3 else np.int64)
            return y if np.array_equal(y, x) else x
        if k == 5 and x.dtype.kind in "iu":
            return x.astype(float)
        return x
    if k == 3 and type(x) is float:
        return np.float64(x)
    if k == 4 and type(x) is float and x == int(x if abs(x) < 1e9 else 0) and abs(x) < 1e9:
        return int(x)
    if isinstance(x, tuple) and type(x) is tuple:
        return tuple(guises(y, k) for y in x)
    return x


def disguised(bag, kind, fn, args, kw, out):
    """The answer does not depend on how the arguments are represented (one representation per call, in turn)."""
    bag.turn = getattr(bag, "turn", zlib.crc32(repr(bag.where).encode()) if hasattr(bag, "where") else 0) + 1
    order = (0, 1, 2) if bag.guise == "layout" else (0, 3, 1, 4, 2, 5)
    for i in range(len(order)):
        k = order[(bag.turn + i) % len(order)]
        other = tuple(guises(x, k) for x in args)
        if any(o is not x for o, x in zip(other, args)):
            break
    else:
        return
    bag.ops += 1
    try:
        with warnings.catch_warnings(), np.errstate(all="ignore"):
            warnings.simplefilter("ignore")
            got = fn(*other, **kw)
    except Exception as e:
        bag.fail(kind + ":depends-on-representation", f"{fn.__name__} {GUISES[k]}: {type(e).__name__}: {e}")
        return
    from mc.decoys import _agree, flat
    single = any(a.dtype in (np.float32, np.complex64, np.float16) for a in flat(args) + flat(out) + flat(tuple(kw.values())))
    if not _agree(flat(got), flat(out), 1e-4 if single else 1e-9):
        bag.fail(kind + ":depends-on-representation", f"{fn.__name__} {GUISES[k]}: {str(got)[:120]} instead of {str(out)[:120]}")


GUISES = ["strided", "reversed read-only", "column-major", "32-bit whole numbers", "64-bit whole numbers", "floats"]


class Skip(Exception):
    """The state cannot be explored further after a recorded failure."""


def key(st):
    return json.dumps(st, sort_keys=True)


class Al(list):
    """An alphabet: values combined with those of other parameters, and extra ones (tiny, extreme, nearly equal to
    the default) explored as single deviations only."""

    def __init__(self, main, extra=()):
        super().__init__(list(main) + list(extra))
        self.n = len(main)


TIER = "quick"  # set by main() before the property module is imported
RUNGS = {"quick": 3, "thorough": 10}


def ladder(vals, per_decade=None):
    """Values that fill the space between the smallest and the largest of an alphabet: irregular ones, evenly spread in
    magnitude (so that no magnitude is skipped), of both signs if the alphabet has both, whole only if all of it is,
    and two close to the base value.  None and non-numbers are ignored."""
    num = [x for x in vals if isinstance(x, (int, float)) and not isinstance(x, bool)]
    if len(num) < 2:
        return []
    whole = all(isinstance(x, int) for x in num)
    out = []
    for sign in (1, -1):
        mag = sorted(sign * x for x in num if sign * x > 0)
        if len(mag) < 2:
            continue
        lo, hi = float(mag[0]), float(mag[-1])
        rungs = max(2, int(round((per_decade or RUNGS[TIER]) * np.log10(hi / lo))))
        rungs = min(rungs, 24 if TIER == "quick" else 120)
        for i in range(rungs):
            x = lo * (hi / lo) ** ((i + 0.37) / rungs)
            out.append(sign * float(f"{x:.4g}"))
    base = num[0]
    out += [float(f"{base * k:.5g}") for k in (1.003, 0.93, 0.37)] if base else []
    if whole:
        out = [int(round(x)) for x in out]
    lo, hi = min(num), max(num)
    keep = []
    for x in out:
        if lo <= x <= hi and x not in num and x not in keep:
            keep.append(x)
    return keep


def widen(params, skip=(), per_decade=None):
    """The same alphabets with the rungs of their ladders appended as single deviations."""
    out = {}
    for p, al in params.items():
        if p in skip:
            out[p] = al
            continue
        n = getattr(al, "n", len(al))
        out[p] = Al(list(al)[:n], list(al)[n:] + ladder(al, per_decade))
    return out


def lattice(params, k, include=(), bases=()):
    """All assignments that differ from the default (first value) in at most k parameters, fewest first,
    plus the full product over each named subset in `include`, plus every single deviation (of every value, extra
    ones too) from each of `bases`.  Values are JSON-able."""
    width = {p: getattr(params[p], "n", len(params[p])) for p in params}
    names = list(params)
    seen, out = set(), []

    def add(dev):
        kk = tuple(sorted(dev.items()))
        if kk not in seen:
            seen.add(kk)
            out.append(dict(dev))

    for n in range(k + 1):
        for sub in itertools.combinations(names, n):
            for idx in itertools.product(*[range(1, width[p] if n > 1 else len(params[p])) for p in sub]):
                add(dict(zip(sub, idx)))
    for sub in include:
        for idx in itertools.product(*[range(width[p]) for p in sub]):
            add({p: i for p, i in zip(sub, idx) if i})
    for base in bases:
        add(base)
        for p in names:
            if p not in base:
                for i in range(1, len(params[p])):
                    add({**base, p: i})
    return out


def values(params, dev):
    return {p: params[p][dev.get(p, 0)] for p in params}


def lattice_edges(states, field=None):
    """Pairs (i, j) where state j is state i with exactly one more deviation (a step of the lattice)."""
    get = (lambda s: s) if field is None else (lambda s: s[field])
    index = {}
    for i, s in enumerate(states):
        index.setdefault(tuple(sorted(get(s).items())), i)
    for j, s in enumerate(states):
        dev = get(s)
        for p in dev:
            rest = tuple(sorted((q, v) for q, v in dev.items() if q != p))
            if rest in index:
                yield index[rest], j


# ------------------------------------------------------------------------------------------ running
_PROP = None
_PROBED = {}


def probed(prop, states, tier):
    """States whose calls are followed by their neighbours, with how many: the first state of each kind all of them
    (unless they are too costly), evenly spaced others a share, so that together they cover every kind of neighbour."""
    n, limit, first = getattr(prop, "probes", {}).get(tier, (400, 24, 5000) if tier == "quick" else (4000, 80, 5000))
    step = max(1, (len(states) + n - 1) // max(n, 1))
    out, kinds = {}, set()
    for i, s in enumerate(states):
        kind = str(prop.probe_kind(s) if hasattr(prop, "probe_kind") else s.get("op"))
        if kind not in kinds:
            kinds.add(kind)
            out[i] = (first, 0)
        elif n and i % step == 0:
            out[i] = (limit, i // step)
    return out


def _run_state(st, probe=None):
    bag = Bag()
    bag.probe, bag.where, bag.guise = probe, st, getattr(_PROP, "guise", "all")
    obs = None
    try:
        obs = _PROP.observe(st, bag)
    except Skip:
        pass
    except Fail as f:
        bag.fail(f.kind, f.detail)
    except Exception as e:  # nothing in a harness raises on the specified behaviour: the answer was unusable
        bag.fail("unexpected-exception", traceback.format_exc()[-500:] + repr(e)[:80])
    return obs, bag.fails, bag.ops


def _run_chunk(chunk):
    out = []
    for i, st in chunk:
        try:
            out.append((i,) + _run_state(st, _PROBED.get(i)) + (None,))
        except Exception:
            out.append((i, None, [], 0, traceback.format_exc()))
    return out


def load_known():
    path = os.path.join(VERIF, "known_findings.json")
    with open(path) as f:
        return json.load(f)


def execute(prop, tier, seed, t0):
    """Returns a report dict."""
    global _PROP, _PROBED
    _PROP = prop
    states = prop.states(tier)
    _PROBED = probed(prop, states, tier)
    keys = [key(s) for s in states]
    distinct = len(set(keys))
    n = len(states)
    chunks, size = [], max(1, min(getattr(prop, "chunk", 64), (n + NPROC * 4 - 1) // (NPROC * 4)))
    for a in range(0, n, size):
        chunks.append([(i, states[i]) for i in range(a, min(n, a + size))])
    results = [None] * n
    errors = []
    if NPROC > 1 and n > 1 and not getattr(prop, "serial", False):
        ctx = mp.get_context("fork")
        with ctx.Pool(NPROC, maxtasksperchild=getattr(prop, "tasks_per_child", None)) as pool:
            for out in pool.imap_unordered(_run_chunk, chunks):
                for i, obs, fails, ops, err in out:
                    results[i] = (obs, fails, ops)
                    if err:
                        errors.append((i, err))
    else:
        for c in chunks:
            for i, obs, fails, ops, err in _run_chunk(c):
                results[i] = (obs, fails, ops)
                if err:
                    errors.append((i, err))
            if FAILFAST and any(results[i][1] for i, _ in c):
                break
    results = [r or (None, [], 0) for r in results]
    violations = []
    ops = 0
    for i, (obs, fails, o) in enumerate(results):
        ops += o
        for kind, detail in fails:
            violations.append({"kind": kind, "detail": detail, "state": states[i]})
    edge_count = 0
    if hasattr(prop, "edges"):
        for a, b in prop.edges(states):
            oa, ob = results[a][0], results[b][0]
            if oa is None or ob is None:
                continue
            edge_count += 1
            bag = Bag()
            try:
                prop.relate(states[a], oa, states[b], ob, bag)
            except Skip:
                pass
            except Fail as f:
                bag.fail(f.kind, f.detail)
            for kind, detail in bag.fails:
                violations.append({"kind": kind, "detail": detail, "state": states[a], "to": states[b]})
    outcomes = len({hashlib.sha1(pickle.dumps(_round(r[0]))).hexdigest() for r in results if r[0] is not None})
    return {"states": states, "distinct": distinct, "ops": ops, "edges": edge_count, "violations": violations,
            "errors": errors, "outcomes": outcomes, "results": results,
            "executed": sum(1 for r in results if r[2])}


def _round(o):
    if isinstance(o, dict):
        return {k: _round(v) for k, v in o.items()}
    if isinstance(o, (list, tuple)):
        return [_round(v) for v in o]
    if isinstance(o, np.ndarray):
        return np.round(o, 9).tobytes() if o.dtype.kind in "fc" else o.tobytes()
    return o


def norm_state(v):
    return key({"state": v["state"], "to": v.get("to")})


def main(pid, argv):
    import logging
    warnings.simplefilter("ignore")
    np.seterr(all="ignore")
    logging.disable(logging.WARNING)
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    if "--tier" in argv:
        tier = argv[argv.index("--tier") + 1]
    t0 = time.time()
    global TIER
    TIER = tier
    sys.modules.setdefault("mc.core", sys.modules[__name__]).TIER = tier
    mod = importlib.import_module(f"mc.props.{pid}")
    prop = mod.Prop()
    prop.pid, prop.tier, prop.seed = pid, tier, seed
    from mc.world import make_world
    w = getattr(prop, "world", "none")
    try:
        prop.w = make_world(**(w if isinstance(w, dict) else {"entries": w}))
        if hasattr(prop, "setup"):
            prop.setup()
        if getattr(prop, "neighbours", True):
            from mc import decoys
            decoys.prepare()
    except Exception as e:
        # the package does not even import: every property that needs it is broken
        traceback.print_exc()
        return _finish(prop, pid, tier, seed, t0, {"states": [{}], "distinct": 1, "ops": 1, "edges": 0, "outcomes": 0,
                       "errors": [], "violations": [{"kind": "package-unusable", "detail": repr(e), "state": {}}]})
    if "--replay" in argv:
        return replay(prop, argv[argv.index("--replay") + 1])
    rep = execute(prop, tier, seed, t0)
    if rep["errors"]:
        i, err = rep["errors"][0]
        print(f"checker error on state {key(rep['states'][i])}\n{err}", file=sys.stderr)
        if not rep["violations"]:
            return 2
    return _finish(prop, pid, tier, seed, t0, rep)


def _finish(prop, pid, tier, seed, t0, rep):
    known = [k for k in load_known()["known"] if k["property"] == pid]
    hit, fresh = {}, []
    for v in rep["violations"]:
        for k in known:
            if v["kind"] == k["kind"] and (key(v["state"]) == key(k["state"])) and _within(v, k):
                hit[k["id"]] = k
                break
        else:
            fresh.append(v)
    for k in hit.values():
        print(f"KNOWN-FINDING: property={pid} {k['id']}: {k['what']}")
    code = 0
    rdir = os.path.join(VERIF, "evidence", "replay")
    os.makedirs(rdir, exist_ok=True)
    shown = {}
    for v in fresh:
        if v["kind"] in shown:
            shown[v["kind"]] += 1
            continue
        shown[v["kind"]] = 1
        if len(shown) > 8:
            continue
        name = f"{pid}-{len(shown)}.json"
        path = os.path.join(rdir, name)
        with open(path, "w") as f:
            json.dump({"property": pid, "kind": v["kind"], "detail": v["detail"], "state": v["state"],
                       "to": v.get("to"), "tier": tier, "seed": seed,
                       "replay_with": f"/opt/venv/bin/python /verif/mc/run.py {pid} --replay {path}"}, f, indent=1)
        print(f"VIOLATION property={pid} replay={path} kind={v['kind']} {v['detail'][:300]}".replace("\n", " "))
        code = 1
    if fresh:
        print(f"{len(fresh)} violations of {len(shown)} kinds: "
              + ", ".join(f"{k} x{n}" for k, n in list(shown.items())[:12]))
    st = rep["states"]
    pick = [st[i] for i in sorted({0, len(st) // 3, 2 * len(st) // 3, len(st) - 1}) if st]
    ev = {"property": pid, "tier": tier, "seed": seed, "level": "model_checking",
          "coverage": {"states": rep["distinct"], "transitions": rep["edges"] + rep["ops"],
                       "traces_validated_against_impl": rep.get("executed", 0), "samples": pick,
                       "implementation_calls": rep["ops"], "state_to_state_relations_checked": rep["edges"],
                       "distinct_observations": rep["outcomes"], "exhaustive": True,
                       "bound": prop.bound(tier) if hasattr(prop, "bound") else "",
                       **(prop.extra() if hasattr(prop, "extra") else {})},
          "assumptions": getattr(prop, "assumptions", []),
          "wall_s": round(time.time() - t0, 2), "violations": len(fresh)}
    with open(os.path.join(VERIF, "evidence", f"{pid}.json"), "w") as f:
        json.dump(ev, f, indent=1)
    if code == 0:
        print(f"OK property={pid} states={rep['distinct']} transitions={rep['edges'] + rep['ops']} "
              f"observations={rep['outcomes']} wall={ev['wall_s']}s")
    return code


def _within(v, k):
    return k.get("detail_contains", "") in v["detail"]


def replay(prop, path):
    global _PROP
    _PROP = prop
    with open(path) as f:
        r = json.load(f)
    obs, fails, _ = _run_state(r["state"], (5000, 0))
    if r.get("to") is not None:
        obs2, f2, _ = _run_state(r["to"], (5000, 0))
        fails += f2
        bag = Bag()
        if obs is not None and obs2 is not None:
            prop.relate(r["state"], obs, r["to"], obs2, bag)
        fails += bag.fails
    for kind, detail in fails:
        print(f"{kind}: {detail}")
    if fails:
        print(f"VIOLATION property={r['property']} replay={path}")
        return 1
    print("state replays without a violation")
    return 0
