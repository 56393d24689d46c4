"""C02: interpolated atmospheres are the bilinear blend of the enclosing entries."""
import itertools

import numpy as np

from mc import configs as cf
from mc import core


# entries taken out of the synthetic database besides those beyond the horizon, so that every corner of a cell is the
# missing one somewhere (alone or with a neighbour, for one haze or both)
HOLES = [(5000.0, 6000.0, 1), (12000.0, 34000.0, 2), (18000.0, 120000.0, 1), (18000.0, 120000.0, 2), (225.0, 500.0, 1),
         (9000.0, 0.0, 2), (9000.0, 100.0, 2), (3000.0, 17000.0, 1), (4000.0, 17000.0, 1), (20000.0, 260000.0, 2),
         (2.0, 100.0, 1), (14000.0, 78000.0, 1), (16000.0, 80000.0, 1)]


def entries():
    from mc.world import Atlas
    return [k for k in Atlas().by_m if k not in set(HOLES)]


class Prop:
    world = {"entries": entries(), "small_index": True}
    chunk = 32
    assumptions = ["synthetic database; numpy.genfromtxt on the (unchanged) index file is answered from a per-process "
                   "memory so that every cell can be visited (C01 reads it for real)"]

    def bound(self, tier):
        return f"every cell of the grid at {1 if tier == 'quick' else 4} interior points, every cell edge, every grid " \
               "point (a third of them in the quick tier), both haze codes; points at several distances from every grid line; points around the border of the domain"

    def setup(self):
        real = np.genfromtxt
        memo = {}

        def quick(fname, *a, **k):
            kk = (str(fname), repr(a), repr(sorted(k.items(), key=str)))
            if not isinstance(fname, str) or not fname.endswith("fileDecoder.csv"):
                return real(fname, *a, **k)
            if kk not in memo:
                memo[kk] = real(fname, *a, **k)
            return memo[kk].copy()

        np.genfromtxt = quick

    def states(self, tier):
        w = self.w.atlas
        alts = [a for a in w.altitudes if a <= 20000]
        rngs = [g for g in w.ranges if g <= 300000]
        frac = [(0.37, 0.71)] if tier == "quick" else [(0.37, 0.71), (0.004, 0.5), (0.997, 0.03), (0.5, 0.999)]
        pts = []
        for (a0, a1), (g0, g1) in itertools.product(zip(alts, alts[1:]), zip(rngs, rngs[1:])):
            for fa, fg in frac:
                pts.append((a0 + fa * (a1 - a0), g0 + fg * (g1 - g0)))
        for a in alts:
            for g0, g1 in zip(rngs, rngs[1:]):
                pts.append((a, g0 + 0.25 * (g1 - g0)))
        for g in rngs:
            for a0, a1 in zip(alts, alts[1:]):
                pts.append((a0 + 0.75 * (a1 - a0), g))
        for n, (a, g) in enumerate(itertools.product(alts, rngs)):
            if tier == "thorough" or n % 3 == 0 or g in (0.0, 300000.0):
                pts.append((a, g))
        # next to grid lines
        for a in alts[1:-1]:
            pts += [(np.nextafter(a, 0), 1234.0), (np.nextafter(a, 1e9), 1234.0)]
        for g in rngs[1:-1]:
            pts += [(9000.5, float(np.nextafter(g, 0))), (9000.5, float(np.nextafter(g, 1e9)))]
        for n, (x, off) in enumerate(itertools.product(alts[:-1], (1e-6, 1e-3, 0.011, 0.17, 0.9))):
            pts += [(x + off, 1234.5 + n), (alts[alts.index(x) + 1] - off, 61234.5 + n)]
        for n, (x, off) in enumerate(itertools.product(rngs[:-1], (1e-6, 1e-3, 0.011, 0.3, 2.7, 29.0))):
            nxt = rngs[rngs.index(x) + 1]
            if x + off < nxt - off:
                pts += [(9000.5 + n, x + off), (5321.5 - n, nxt - off)]
        pts += [(19999.999, 299999.999), (2.0001, 0.0001)]
        st = [{"op": "in", "alt": float(a), "rng": float(g), "haze": h} for a, g in pts for h in (1, 2)]
        out = [(1.999, 0.0), (0.0, 0.0), (-5.0, 100.0), (20000.001, 1000.0), (24500.0, 1000.0), (22000.0, 0.0),
               (1000.0, -1.0), (1000.0, 300000.01), (9000.0, 300500.0), (9000.0, 301000.0), (9000.0, 305000.0),
               (float("inf"), 0.0), (1000.0, float("inf")), (1.0, 301000.0)]
        st += [{"op": "out", "alt": a, "rng": g, "haze": h} for a, g in out for h in (1, 2)]
        st += [{"op": "out", "alt": 1500.5, "rng": 1500.5, "haze": h} for h in (0, 3, 1.5)]
        st += [{"op": "types", "kind": k} for k in ("int", "np64", "npint")]
        return st

    def observe(self, st, bag):
        from pybsm import utils
        if st["op"] == "out":
            core.call(bag, "outside", utils.load_database_atmosphere, st["alt"], st["rng"], st["haze"],
                      expect=(IndexError,))
            return "IndexError"
        if st["op"] == "types":
            conv = {"int": int, "np64": np.float64, "npint": np.int64}[st["kind"]]
            for a, g, h in ((3, 150, 2), (1500, 700, 1), (2, 0, 1), (13000, 82000, 2)):
                got = core.call(bag, "interp", utils.load_database_atmosphere, conv(a), conv(g), conv(h))
                bag.close(got, cf.bilinear(self.w.atlas, float(a), float(g), h), "not-the-bilinear-blend", 1e-6, 1e-30)
            return st["kind"]
        want = cf.bilinear(self.w.atlas, st["alt"], st["rng"], st["haze"])
        if want is None:
            core.call(bag, "missing-corner", utils.load_database_atmosphere, st["alt"], st["rng"], st["haze"],
                      expect=(IndexError,))
            return "missing"
        got = core.call(bag, "interp", utils.load_database_atmosphere, st["alt"], st["rng"], st["haze"], again=False)
        bag.close(got, want, "not-the-bilinear-blend", 1e-6, 1e-30)
        bag.close(got[:, 0], want[:, 0], "wavelengths", 1e-12)
        direct = self.w.atlas.lookup(st["alt"], st["rng"], st["haze"])
        if direct is not None:
            bag.close(got, direct, "grid-point-differs-from-entry", 1e-6)
        return float(got[700, 2]) if np.shape(got) == (1371, 6) else None
