"""C15: the wavelength-weighted composite is a true weighted mean."""
import itertools

import numpy as np

from mc import core, ref

GRID = np.linspace(-1, 1, 5)
FUNS = {
    "identity": lambda a: a,
    "six-fifths": lambda a: 0.05 * (a / 1e-6) ** 1.2,
    "array": lambda a: np.exp(-(GRID * a * 1e6) ** 2),
    "matrix": lambda a: np.outer(GRID, GRID) * a * 1e6 + 1.0,
    "complex": lambda a: np.exp(1j * GRID * a * 1e6),
    "negative": lambda a: -3.0 + GRID * a * 1e6,
    "constant": lambda a: np.full(4, 0.7),
    **{f"as-many-{n}": lambda a, n=n: np.cos(np.linspace(0, 3, n) * a * 1e6) for n in (1, 2, 3, 4, 9, 24, 57)},
    **{f"square-{n}": lambda a, n=n: np.outer(np.linspace(0, 1, n), np.linspace(1, 3, n) ** 2) * a * 1e6 - 0.5 for n in (3, 9)},
    "table": lambda a: np.outer(np.arange(24), [1.0, 2.0]) * a * 1e6 + 1.0,
    "int": lambda a: np.array([1, 2, 3]) * int(round(a * 1e7)),
}


class Prop:
    world = "none"
    WLS = [[0.5e-6], [0.5e-6, 0.7e-6], [0.7e-6, 0.5e-6], [0.4e-6, 0.5e-6, 0.9e-6], [3.5e-6, 0.5e-6, 1e-6, 0.9e-6],
           [1.0e-6 + 1e-8 * i for i in range(9)], [0.5e-6, 0.5005e-6, 0.501e-6], [1e-6, 1.00001e-6, 3e-6],
           [0.5e-6, 0.5e-6 * (1 + 1e-12), 0.5e-6 * (1 + 2e-12)],
           [0.4e-6 + 1.37e-9 * i for i in range(57)], [3e-6 + 1.9e-9 * ((i * 97) % 401) for i in range(401)],
           [float(x) for x in np.geomspace(0.3e-6, 14e-6, 1371)],
           [0.5e-6, 0.5e-6], [0.7e-6, 0.5e-6, 0.7e-6], [0.5e-6, 0.5e-6, 0.5e-6, 1e-6], [1e-6, 2e-6, 2e-6],
           [0.5e-6 + 1e-7 * (i * i % 7) for i in range(24)]]
    MANY = [1000, 1024, 1372, 1501, 2000, 2049, 4096, 5000, 10000, 20011]
    SCALE = [1.0, 7.0, 1e-12, 3e19]
    assumptions = ["one weight per wavelength, of which some may be equal"]

    def bound(self, tier):
        return "all wavelength sets, all permutations up to four wavelengths, ten weight patterns (three of wide dynamic range, two with negative weights), four scales, eighteen " \
               "function shapes (some with as many values as there are wavelengths); up to 20011 wavelengths"

    def weights(self, k, n):
        i = np.arange(n)
        return [np.ones(n), 1.0 + i, np.where(i == n - 1, 1.0, 0.0), np.where(i == 0, 0.0, 1.0) if n > 1 else np.ones(1),
                (i * 7 % 5 + 1), 0.1 ** (2.0 * i), np.where(i == n - 1, 1.0, 3.7e-9 * (1 + i)),
                np.exp(-3.1 * ((i * 5) % (n + 1))), np.where(i == n - 1, 2.0 * n, -1.0), -1.0 - i][k]

    def states(self, tier):
        return [{"f": f, "wl": w, "wt": k, "scale": s} for f in FUNS for w in range(len(self.WLS)) for k in range(10)
                for s in range(1 if "-" in f and f[-1].isdigit() else len(self.SCALE))] + [
            {"f": f, "n": n, "wt": k, "scale": 0} for f in ("identity", "six-fifths", "negative") for n in self.MANY
            for k in (0, 1, 3, 4, 6, 7)]

    def observe(self, st, bag):
        from pybsm.otf.functional import weighted_by_wavelength as fn
        wl = np.array(self.WLS[st["wl"]]) if "wl" in st else np.geomspace(0.3e-6, 14e-6, st["n"])
        wt = self.weights(st["wt"], len(wl)) * (self.SCALE[st["scale"]] if st["scale"] else 1)
        f = FUNS[st["f"]]
        store, asked = {}, []

        def stored(a):  # returns the same object every time, as a caller with a table would
            a = float(np.asarray(a).reshape(-1)[0])
            asked.append(a)
            if a not in store:
                store[a] = f(a)
            return store[a]

        got = core.call(bag, "weighted", fn, wl, wt, stored, again=True)
        want = ref.wmean(wl, wt, f)
        bag.close(got, want, "not-the-weighted-mean", 1e-9, 1e-15)
        bag.that(set(asked) <= set(float(x) for x in wl), "evaluated-elsewhere", sorted(set(asked)))
        for a, x in store.items():
            bag.that(core.same(x, f(a)), "function-values-overwritten", st)
        if not np.iscomplexobj(want) and np.all(wt >= 0):
            vals = np.array([np.asarray(f(a), float) for a, w in zip(wl, wt) if w > 0])
            lo, hi = vals.min(0), vals.max(0)
            slack = 1e-9 * (np.abs(lo) + np.abs(hi))
            bag.that(np.all(np.reshape(got, np.shape(lo)) >= lo - slack) and np.all(np.reshape(got, np.shape(lo)) <= hi + slack),
                     "outside-the-range-of-values", st)
        if len(wl) == 1:
            bag.close(got, f(wl[0]), "single-wavelength-differs-from-function", 1e-12)
        if st["f"] == "constant":
            bag.close(got, np.full(4, 0.7), "weights-do-not-sum-to-one", 1e-12)
        if len(wl) <= 4:
            for perm in itertools.permutations(range(len(wl))):
                p = list(perm)
                other = core.call(bag, "weighted", fn, wl[p], wt[p], f, again=False)
                bag.close(other, got, "depends-on-order", 1e-9, 1e-15)
        lists = core.call(bag, "weighted", fn, wl[::-1], wt[::-1], f, again=False)  # negative strides
        bag.close(lists, got, "depends-on-order", 1e-9, 1e-15)
        return np.asarray(got)

    def edges(self, states):
        index = {core.key(s): i for i, s in enumerate(states)}
        for i, s in enumerate(states):
            if s["scale"] == 0 and "wl" in s:
                for k in range(1, len(self.SCALE)):
                    j = index.get(core.key(dict(s, scale=k)))
                    if j is not None:
                        yield i, j

    def relate(self, a, oa, b, ob, bag):
        bag.close(ob, oa, "depends-on-scale-of-weights", 1e-9, 1e-15)
