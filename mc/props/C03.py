"""C03: a scenario's atmosphere always matches its current settings (all operation sequences up to a depth)."""
import copy
import itertools
import pickle

import numpy as np

from mc import configs as cf
from mc import core

# operations on scenario A and on scenario B
OPS = [("A", "ihaze", 2), ("A", "ihaze", 1), ("A", "ihaze", 3), ("A", "altitude", 500.0), ("A", "altitude", 9000.0),
       ("A", "altitude", 30000.0), ("A", "ground_range", 0.0), ("A", "ground_range", 8000.0),
       ("A", "ground_range", 1300.5), ("A", "ground_range", -1.0), ("A", "read", None), ("A", "radiance", None),
       ("A", "copy", None), ("A", "pickle", None), ("A", "attrs", None), ("B", "altitude", 500.0),
       ("B", "ihaze", 2), ("B", "read", None), ("A", "altitude", 1500.25), ("A", "altitude", 1000.002),
       ("A", "ground_range", 1000.5), ("A", "altitude", 1000.0), ("A", "ground_range", 1000.0)]
SETTERS = [i for i, o in enumerate(OPS) if o[0] == "A" and o[1] in ("ihaze", "altitude", "ground_range")] + [10, 12]
# one setting away and back, for longer histories
TRIPS = [OPS.index(o) for o in (("A", "ihaze", 2), ("A", "ihaze", 1), ("A", "altitude", 500.0), ("A", "altitude", 1000.0),
                                ("A", "ground_range", 8000.0), ("A", "ground_range", 1000.0), ("A", "read", None))]


# representations of a setting
KINDS = {"int": int, "float64": np.float64, "float32": np.float32, "int64": np.int64, "int32": np.int32, "array": np.array,
         "mixed": None}


def as_kind(kind, op, x, i=0):
    if kind == "mixed":
        kind = list(KINDS)[(i * 5 + len(op)) % 6]
    return x if kind is None else KINDS[kind](x)


AWAY = {"ihaze": 2, "altitude": 500.0, "ground_range": 8000.0}


class Prop:
    neighbours = False
    world = {"entries": cf.ENTRIES, "small_index": True}
    chunk = 4
    assumptions = ["database of 32 entries with an index of the same size; two scenarios"]

    def bound(self, tier):
        return f"all sequences of up to {self.depth(tier)[0]} operations out of {len(OPS)} (setters with valid, " \
               f"off-grid and invalid values, reads, copies, a second scenario) and of up to {self.depth(tier)[1]} " \
               f"out of the {len(SETTERS)} setters and reads of one scenario, and of up to {self.depth(tier)[2]} out of " \
               f"{len(TRIPS)} that move one setting away and back or read (those also with every setting as a whole number, a numpy scalar, a " \
               "zero-dimensional array or a mixture, one shorter); direct and interpolated; every number of " \
               "settings up to 700 (2200 thorough) and powers of two up to 65536 between two reads"

    def depth(self, tier):
        return (3, 4, 5) if tier == "quick" else (4, 5, 7)

    def states(self, tier):
        st = []
        d, ds, dt = self.depth(tier)
        for interp in (False, True, None):
            for pre in itertools.chain([()], itertools.product(range(len(OPS)), repeat=1),
                                       itertools.product(range(len(OPS)), repeat=2)):
                if len(pre) < 2:
                    st.append({"interp": interp, "prefix": list(pre), "more": 0, "ops": "all"})
                else:
                    st.append({"interp": interp, "prefix": list(pre), "more": d - 2, "ops": "all"})
            if interp is None:
                continue
            for pre in itertools.product(SETTERS, repeat=2):
                st.append({"interp": interp, "prefix": list(pre), "more": ds - 2, "ops": "setters"})
            for pre in itertools.product(TRIPS, repeat=3):
                st.append({"interp": interp, "prefix": list(pre), "more": dt - 3, "ops": "trips"})
            # the same settings as whole numbers, numpy scalars, zero-dimensional arrays
            for kind in KINDS:
                for pre in itertools.product(TRIPS, repeat=2):
                    st.append({"interp": interp, "prefix": list(pre), "more": dt - 3, "ops": "trips", "kind": kind})
            for par in list(AWAY) + ["mixed"]:
                top = 700 if tier == "quick" else 2200
                for lo in range(1, top, 100):
                    st.append({"interp": interp, "long": par, "k": [lo, lo + 100]})
            for k in (1023, 1024, 2047, 2048, 4096, 10000, 32768, 65535, 65536, 65537):
                st.append({"interp": interp, "long": "mixed", "k": [k, k + 1]})
        return st

    def want(self, interp, alt, rng, haze):
        kk = (bool(interp), alt, rng, haze)
        memo = self.__dict__.setdefault("_memo", {})
        if kk not in memo:
            if interp:
                # the reference blend needs a haze of the database
                memo[kk] = cf.bilinear(self.w.atlas, alt, rng, haze) if haze in (1, 2) else None
                # corners must exist in the reduced database: the grid of the package is the documented one
                if memo[kk] is not None and not self.corners(alt, rng, haze):
                    memo[kk] = None
            else:
                memo[kk] = self.w.atlas.lookup(alt, rng, haze)
        return memo[kk]

    def corners(self, alt, rng, haze):
        from mc.world import Atlas
        full = self.__dict__.setdefault("_full", Atlas())

        def around(xs, x):
            lo, hi = max(a for a in xs if a <= x), min(a for a in xs if a >= x)
            return {lo, hi}
        alts = [a for a in full.altitudes if a <= 20000]
        rngs = [g for g in full.ranges if g <= 300000]
        return all((a, g, haze) in self.w.atlas.by_m for a in around(alts, alt) for g in around(rngs, rng))

    def fresh(self, interp, a):
        """What a scenario built with these settings gives (its value is checked against the database as well)."""
        kk = ("fresh", bool(interp), tuple(a))
        memo = self.__dict__.setdefault("_memo", {})
        if kk not in memo:
            from pybsm.simulation import Scenario
            memo[kk] = np.array(Scenario("fresh", a[0], a[1], a[2], **({"interp": True} if interp else {})).atm)
        return memo[kk]

    def long(self, st, bag):
        """Every number of settings (of one parameter, of all in turn) between two reads of one scenario."""
        from pybsm.simulation import Scenario
        start = {"ihaze": 1, "altitude": 1000.0, "ground_range": 1000.0}
        s = Scenario("long", *start.values(), **({"interp": True} if st["interp"] else {}))
        now = dict(start)
        self.read(s, st["interp"], list(now.values()), bag, "start")
        for k in range(*st["k"]):
            names = list(AWAY) if st["long"] == "mixed" else [st["long"]]
            goal = {p: AWAY[p] if now[p] == start[p] else start[p] for p in names}
            for j in range(k - 1, -1, -1):  # the last setting of each is not what the previous read saw
                p = names[j % len(names)]
                setattr(s, p, goal[p] if j // len(names) % 2 == 0 else now[p])
            now.update({p: goal[p] for p in names[:k]})
            bag.ops += k
            self.read(s, st["interp"], list(now.values()), bag, f"{k} settings of {st['long']} since the last read")
            if bag.fails:
                break
        return None

    def observe(self, st, bag):
        if "long" in st:
            return self.long(st, bag)
        alphabet = {"all": list(range(len(OPS))), "setters": SETTERS, "trips": TRIPS}[st["ops"]]
        n = 0
        for extra in range(0 if st["more"] == 0 else 1, st["more"] + 1):
            for rest in itertools.product(alphabet, repeat=extra):
                self.history(st["interp"], st["prefix"] + list(rest), bag, st.get("kind"))
                n += 1
                if bag.fails:
                    return n
        return n

    def history(self, interp, seq, bag, kind=None):
        from pybsm.simulation import Scenario
        args = {"A": [1, 1000.0, 1000.0], "B": [1, 1000.0, 2000.0]}
        kw = {} if interp is None else {"interp": interp}
        sc = {n: Scenario(n, *[as_kind(kind, p, x) for p, x in zip(("ihaze", "altitude", "ground_range"), a)], **kw)
              for n, a in args.items()}
        names = {"ihaze": 0, "altitude": 1, "ground_range": 2}
        for i, k in enumerate(list(seq) + [10, 17]):
            who, op, val = OPS[k]
            s = sc[who]
            bag.ops += 1
            where = [OPS[j] for j in seq[:i + 1]]
            if op in names:
                setattr(s, op, as_kind(kind, op, val, i))
                args[who][names[op]] = val
                if getattr(s, op) != val:
                    bag.fail("setting-not-kept", where)
            elif op == "read":
                self.read(s, interp, args[who], bag, where)
            elif op == "radiance":  # an evaluation that uses the atmosphere
                from pybsm.radiance import total_radiance
                w = self.want(interp, args[who][1], args[who][2], args[who][0])
                if w is not None:
                    try:
                        total_radiance(s.atm, 0.3, 290.0)
                    except Exception as e:
                        bag.fail("valid-settings-raise", f"{e!r} after {where}")
            elif op == "copy":
                sc[who] = copy.copy(s)
                s.altitude = 2000.0  # the original goes its own way
                s.ihaze = 2
                self.read(s, interp, [2, 2000.0, args[who][2]], bag, [*where, "the original"])
            elif op == "pickle":
                sc[who] = pickle.loads(pickle.dumps(s))
            elif op == "attrs":
                s.target_temperature = 280.0
                s.cn2_at_1m = 0.0
                s.aircraft_speed = 9.0

    def read(self, s, interp, a, bag, where):
        want = self.want(interp, a[1], a[2], a[0])
        if want is None:
            try:
                got = s.atm
            except IndexError:
                return
            except Exception as e:
                bag.fail("wrong-error", f"{e!r} after {where}")
                return
            bag.fail("invalid-settings-give-an-atmosphere", f"{a} after {where}: {np.shape(got)}")
            return
        try:
            got = s.atm
            again = s.atm
        except Exception as e:
            bag.fail("valid-settings-raise", f"{e!r} settings {a} after {where}")
            return
        if np.shape(got) != want.shape or not np.allclose(got, want, rtol=1e-6, atol=1e-30):
            bag.close(got, want, "stale-or-wrong-atmosphere", 1e-6, 1e-30, f"settings {a} after {where}")
        elif not np.array_equal(got, self.fresh(interp, a)):
            bag.fail("not-what-a-fresh-scenario-gives", f"settings {a} after {where}")
        if not np.array_equal(got, again):
            bag.fail("two-reads-differ", where)
