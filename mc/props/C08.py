"""C08: detected signal = band integral of transmitted light + dark current; spectral resampling."""
import itertools

import numpy as np

from mc import core, ref
from mc.core import Al

GRIDS = {
    "even": [0.50e-6, 0.51e-6, 0.52e-6, 0.53e-6, 0.54e-6],
    "uneven": [0.50e-6, 0.505e-6, 0.53e-6, 0.60e-6, 0.61e-6, 0.9e-6],
    "hole": [1.0e-6, 1.01e-6, 1.02e-6, 1.03e-6, 2.0e-6],
    "two-bands": [float(x) for x in np.r_[np.linspace(0.4e-6, 0.7e-6, 61), np.linspace(3e-6, 5e-6, 40), np.linspace(8e-6, 8.001e-6, 9), 14e-6]],
    "two": [3.0e-6, 5.0e-6],
    "one": [1.0e-6],
    "long": [(8.0 + 0.01 * i) * 1e-6 for i in range(201)],
    "long-uneven": [float(x) for x in np.geomspace(0.4e-6, 2.5e-6, 333)],
    "all": [float(x) for x in np.geomspace(0.3e-6, 14e-6, 1371)],
    "bunched": [float(x) for x in 1e-6 * (1.0 + np.linspace(0, 1, 97) ** 4)],
}


class Prop:
    world = "none"
    assumptions = ["spectral grids increasing in wavelength"]

    def bound(self, tier):
        return "deviation-bounded lattice over the ten arguments (2 quick, 3 thorough); full product of resampling tables"

    P = {"grid": ["even", "uneven", "two", "one", "long", "long-uneven", "all", "bunched", "hole", "two-bands"], "rad": ["flat", "ramp", "spike", "zero", "int", "neg", "mixed", "faint"],
         "trans": ["ones", "half", "zero-ends", "ramp"], "D": Al([0.1, 0.25], [0.1001, 0.005, 3.0]), "f": Al([1.0, 0.4], [1.0001, 50.0]),
         "w_x": Al([8e-6, 5e-6], [8.001e-6, 1e-7]),
         "w_y": Al([8e-6, 1.1e-5], [8.001e-6, 1e-7, 1e-4]), "qe": ["ones", "ramp", "zero", "dip"], "other": ["zero", "scalar0", "flat", "ramp"],
         "dark": Al([0.0, 1e3, 7], [1e-6, 0.4, 1e12])}
    P = core.widen(P, skip=("grid", "rad", "trans", "qe", "other"))

    def states(self, tier):
        st = [{"op": "rate", "dev": d} for d in core.lattice(self.P, 2 if tier == "quick" else 4)]
        tables = ["full", "narrow", "wide", "shift-left", "shift-right", "disjoint", "ends", "uneven", "two", "single", "single-off"]
        for t, g, v in itertools.product(tables, ["even", "uneven", "one", "desc", "2d", "exact"],
                                         ["ramp", "ones", "bump", "neg", "int"]):
            st.append({"op": "resample", "t": t, "g": g, "v": v})
        for w, v in itertools.product((3, 4, 7), (0, 1)):
            st.append({"op": "bad", "w": w, "n": w - 1 if v else w + 1})
        # every position of a query relative to a short uneven table
        for n in range(2, 5 if tier == "quick" else 6):
            for gaps in itertools.product((1, 2), repeat=n - 1):
                for vals in itertools.product((0, 1, 3), repeat=n):
                    st.append({"op": "table", "gaps": gaps, "vals": vals})
        return st

    @staticmethod
    def shape(k, lam):
        n = lam.size
        return {"flat": np.full(n, 3.0e6), "ramp": np.linspace(0.2, 0.9, n), "spike": np.eye(1, n, n // 2)[0] * 2e7,
                "zero": np.zeros(n), "int": np.arange(n) + 1, "ones": np.ones(n),
                "neg": -np.linspace(1e6, 4e6, n), "mixed": 3e6 * np.cos(2.0 * np.arange(n)), "faint": np.linspace(1e-9, 2e-9, n),
                "dip": np.where(np.arange(n) == n // 2, 0.0, 0.8), "half": np.full(n, 0.5),
                "zero-ends": np.r_[0.0, np.full(max(n - 2, 0), 0.7), 0.0][:n], "scalar0": np.zeros(1)}[k]

    def observe(self, st, bag):
        from pybsm import radiance as R
        if st["op"] == "rate":
            p = core.values(self.P, st["dev"])
            lam = np.array(GRIDS[p["grid"]])
            rad = self.shape(p["rad"], lam)
            trans, qe = self.shape(p["trans"], lam), self.shape(p["qe"], lam)
            other = self.shape(p["other"], lam) * (1e3 if p["other"] != "scalar0" else 1)
            got = core.call(bag, "rate", R.signal_rate, lam, rad, trans, p["D"], p["f"], p["w_x"], p["w_y"], qe,
                            other, p["dark"])
            want = ref.signal_rate(lam, rad, trans, p["D"], p["f"], p["w_x"], p["w_y"], qe, other, p["dark"])
            bag.close(got[0], want[0], "signal-rate", 1e-9, 1e-12)
            bag.close(got[1], want[1], "focal-plane-irradiance", 1e-9)
            bag.close(got[2], want[2], "spectral-rate", 1e-9)
            dn = core.call(bag, "detect", R.photon_detection_rate, want[1], p["w_x"], p["w_y"], lam, qe)
            bag.close(dn, want[2], "photon-detection-rate", 1e-9)
            # additivity in the light: rate(L, other) - dark = [rate(L,0) - dark] + [rate(0,other) - dark]
            z = np.zeros(lam.size)
            a = core.call(bag, "rate", R.signal_rate, lam, rad, trans, p["D"], p["f"], p["w_x"], p["w_y"], qe, z, 0.0)
            b = core.call(bag, "rate", R.signal_rate, lam, z, trans, p["D"], p["f"], p["w_x"], p["w_y"], qe, other, 0.0)
            bag.close(got[0] - p["dark"], a[0] + b[0], "signal-not-additive", 1e-8, 1e-6)
            return [float(got[0]), float(a[0]), float(b[0])]
        if st["op"] == "resample":
            lam = {"even": np.linspace(0.4e-6, 0.8e-6, 41), "uneven": np.array(GRIDS["uneven"]),
                   "one": np.array([0.55e-6]), "desc": np.linspace(0.8e-6, 0.4e-6, 9),
                   "2d": np.linspace(0.4e-6, 0.8e-6, 12).reshape(3, 4), "exact": np.array([0.5e-6, 0.6e-6, 0.7e-6])}[st["g"]]
            x = {"full": np.linspace(0.4e-6, 0.8e-6, 9), "narrow": np.linspace(0.5e-6, 0.6e-6, 6),
                 "wide": np.linspace(0.3e-6, 1.2e-6, 5), "shift-left": np.linspace(0.3e-6, 0.55e-6, 7),
                 "shift-right": np.linspace(0.55e-6, 1e-6, 7), "disjoint": np.linspace(2e-6, 3e-6, 3),
                 "ends": np.array([0.5e-6, 0.7e-6]), "uneven": np.array([0.41e-6, 0.5e-6, 0.50001e-6, 0.7e-6]),
                 "two": np.array([0.3e-6, 0.9e-6]), "single": np.array([0.55e-6]), "single-off": np.array([0.61e-6])}[st["t"]]
            y = {"ramp": np.linspace(1.0, 2.0, x.size), "ones": np.ones(x.size),
                 "bump": np.sin(np.arange(x.size)) ** 2, "neg": -np.arange(1.0, x.size + 1),
                 "int": np.arange(x.size) + 1}[st["v"]]
            got = core.call(bag, "resample", R.resample_by_wavelength, x, y, lam)
            bag.close(got, ref.interp0(lam, x, y), "resample", 1e-9, 1e-12)
            return got
        if st["op"] == "bad":
            core.call(bag, "resample-length", R.resample_by_wavelength, np.arange(1.0, st["w"] + 1), np.ones(st["n"]),
                      np.array([1.5]), expect=(ValueError,))
            return 0
        x = np.cumsum((1,) + tuple(st["gaps"])) * 1e-6
        y = np.array(st["vals"], dtype=float)
        q = np.unique(np.r_[x, (x[1:] + x[:-1]) / 2, x * 0.75 + 0.25 * np.r_[x[1:], x[-1] + 1e-6], x[0] - 1e-9,
                            x[-1] + 1e-9])
        got = core.call(bag, "table", R.resample_by_wavelength, x, y, q)
        bag.close(got, ref.interp0(q, x, y), "resample-table", 1e-9, 1e-9)
        return got

    def edges(self, states):
        sub = [s["dev"] if s["op"] == "rate" else None for s in states]
        n = sum(1 for s in sub if s is not None)
        return core.lattice_edges(states[:n], "dev")

    def relate(self, a, oa, b, ob, bag):
        (p,) = set(b["dev"]) - set(a["dev"])
        if p in ("w_x", "w_y"):
            k = self.P[p][b["dev"][p]] / self.P[p][0]
            bag.close(ob[1], oa[1] * k, f"signal-not-proportional-to-{p}", 1e-9, 1e-12)
            bag.close(ob[2], oa[2] * k, f"signal-not-proportional-to-{p}", 1e-9, 1e-12)
        if p == "dark":
            bag.close(ob[0] - oa[0], self.P[p][b["dev"][p]], "dark-current-not-added", 1e-6, 1e-6 + 1e-9 * abs(oa[0]))
