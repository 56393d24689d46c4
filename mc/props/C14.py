"""C14: turbulence blur follows path, wind, exposure and wavelength."""
import math

import numpy as np

from mc import core, ref
from mc.core import Al

AX = np.array([-0.95, -0.5, -0.13, 0.0, 0.02, 0.31, 0.7])


class Prop:
    world = "none"
    POLY = {"alt": Al([1000.0, 50.0, 500.25, 9000.0, 2e6], [1000.01, 1499.999, 1.0]),
            "slant": Al([1500.0, 60.0, 9100.5, 40000.0, 2.1e6], [1500.01, 1000.0, 1000.001]),
            "D": Al([0.1, 0.02, 0.5], [0.1001, 2.5]), "wind": Al([21.0, 0.0, 57.0], [21.01, 0.01, 1.0]),
            "cn2": Al([1.7e-14, 0.0, 3e-13], [1e-20, 1e-17, 1e-16, 1.701e-14, 1e-11]),
            "t": Al([1e-3, 0.0, 0.05], [1e-6, 1e-4, 1.001e-3, 1.0]),
            "speed": Al([5.0, 0.0, 60.0], [0.001, 0.1, 1.0, 5.01, 1000.0]), "wl": [0, 1, 2, 3]}
    POLY = {**core.widen(POLY, skip=("wl",)), "wl": POLY["wl"]}
    WL = [([0.5e-6, 0.6e-6, 0.7e-6], [1.0, 0.5, 0.2]), ([1.06e-6], [3.0]), ([0.4e-6, 0.9e-6], [0.0, 2.0]),
          ([8e-6, 10e-6, 9e-6, 12e-6], [0.1, 0.9, 0.4, 0.6])]
    assumptions = ["frequencies inside the diffraction cutoff for the monotonicity clauses; slant range between "
                   "the altitude and the distance of the horizon"]

    def bound(self, tier):
        return f"polychromatic response: all assignments with at most {2 if tier == 'quick' else 3} deviations over " \
               "8 parameters plus the full product of wind, near-ground strength, exposure and speed; profile, " \
               "coherence diameter and single-wavelength forms: full products of their alphabets"

    def states(self, tier):
        st = []
        for v in (0.0, 1e-3, 1.0, 10.0, 21.0, 27.0, 57.0):
            for c in (0.0, 1e-25, 1e-18, 1.7e-14, 1e-13, 3e-16):
                for k in range(6):
                    st.append({"op": "hv", "v": v, "c": c, "h": k})
        for lam in (0.4e-6, 1e-6, 4e-6, 10.6e-6):
            for path in range(5):
                for prof in range(5):
                    st.append({"op": "r0", "lam": lam, "path": path, "prof": prof})
        for lam in (0.5e-6, 4e-6):
            for d in (0.05, 0.3):
                for r0 in (0.01, 0.08, 3.0, 1e3):
                    for alpha in (0.0, 1e-6, 0.5, 0.999, 1.0):
                        st.append({"op": "single", "lam": lam, "D": d, "r0": r0, "alpha": alpha})
                    for td in (0.0, 1e-6, 1e-3, 0.02, 5.0):
                        for vel in (0.0, 1e-3, 2.0, 30.0):
                            st.append({"op": "wind", "lam": lam, "D": d, "r0": r0, "td": td, "vel": vel})
        for v in core.ladder([1e-3, 300.0], 12):
            st += [{"op": "hv", "v": v, "c": 1.7e-14, "h": k} for k in (2, 5)]
        for v in (0, 27, 57):
            st += [{"op": "hv", "v": v, "c": c, "h": k} for c in (0, 2e-14) for k in range(len(self.HS))]
        for g in self.GRIDS:
            st += [{"op": o, "lam": 0.5e-6, "D": 0.3, "r0": 0.08, "alpha": 0.5, "td": 1e-3, "vel": 2.0, "grid": g} for o in ("single", "wind")]
            for w in (0, 1):
                st.append({"op": "poly", "dev": {}, "grid": g, "w": w})
        for c in core.ladder([1e-25, 1e-13], 2):
            st += [{"op": "hv", "v": 21.0, "c": c, "h": k} for k in (0, 5)]
        for lam in core.ladder([0.4e-6, 10.6e-6], 10):
            st.append({"op": "r0", "lam": lam, "path": 0, "prof": 1})
        one = {"lam": 0.5e-6, "D": 0.3, "r0": 0.08}
        for name, al in (("lam", [0.3e-6, 12e-6]), ("D", [0.005, 3.0]), ("r0", [0.003, 1e3])):
            for x in core.ladder(al, 6):
                st.append({"op": "single", "alpha": 0.5, **{**one, name: x}})
                st.append({"op": "wind", "td": 1e-3, "vel": 2.0, **{**one, name: x}})
        for x in core.ladder([1e-6, 1.0], 4):
            st.append({"op": "single", "alpha": x, **one})
        for x in core.ladder([1e-6, 5.0], 4):
            st.append({"op": "wind", "td": x, "vel": 2.0, **one})
        for x in core.ladder([1e-3, 300.0], 4):
            st.append({"op": "wind", "td": 1e-3, "vel": x, **one})
        for d in core.lattice(self.POLY, 2 if tier == "quick" else 3, [["wind", "cn2", "t", "speed"]]):
            p = core.values(self.POLY, d)
            horizon = math.sqrt(2 * ref.R_EARTH * p["alt"] + p["alt"] ** 2)
            if p["alt"] <= p["slant"] <= horizon:
                st.append({"op": "poly", "dev": d})
        return st

    GRIDS = ["line", "long", "large", "whole", "single", "flat"]

    def special(self, g, cut):
        if g == "line":
            return np.linspace(-0.9, 0.9, 7) * cut, np.zeros(7)
        if g == "long":
            x = np.linspace(-0.7, 0.7, 20011)
            x[10005] = 0
            return x * cut, x * 0
        if g == "large":
            x, y = np.linspace(-0.69, 0.7, 301), np.linspace(0.7, -0.68, 277)
            x[150] = y[138] = 0
            return np.meshgrid(x * cut, y * cut)
        if g == "whole":
            return np.meshgrid(np.rint(AX * cut * 0.7).astype(np.int32), np.rint(-AX * cut * 0.7).astype(np.int32))
        if g == "single":
            return np.array([[0.31 * cut]]), np.array([[0.0]])
        return np.full((3, 3), 0.2 * cut), np.full((3, 3), -0.4 * cut)

    HS = [np.array([0.0, 1.0, 50.0, 300.0]), np.array([0.0]), np.array([1000.0, 5000.0, 11000.0, 20000.0]),
          np.array([[0.0, 12.5], [800.0, 31000.0]]), np.array([0, 10, 4000, 12000]), np.linspace(0.0, 24500.0, 99)]

    def paths(self, k):
        return [np.linspace(0.0, 3000.0, 501), np.linspace(0.0, 8.0e4, 10000), np.r_[0.0, 1.0, 5.0, 40.0, 41.0, 900.0],
                np.array([0, 100, 300, 700]), np.linspace(0.0, 1.0, 3)][k]

    def profile(self, k, z):
        x = np.asarray(z, float)
        return [np.full(x.shape, 1e-14), 1e-13 * np.exp(-x / 400.0), 1e-15 * (1 + x / x[-1]),
                np.where(x > x[-1] / 2, 2e-14, 0.0), 1e-14 * (2 + np.sin(x / x[-1] * 7))][k]

    def observe(self, st, bag):
        from pybsm.otf import functional as F
        if st["op"] == "hv":
            h = self.HS[st["h"]]
            got = core.call(bag, "hv", F.hufnagel_valley_turbulence_profile, h, st["v"], st["c"])
            bag.close(got, ref.hv(h, st["v"], st["c"]), "profile-not-the-sum-of-its-terms", 1e-9, 1e-300)
            return got
        if st["op"] == "r0":
            z = self.paths(st["path"])
            cn2 = self.profile(st["prof"], z)
            got = core.call(bag, "r0", F.coherence_diameter, st["lam"], z, cn2)
            bag.close(got, ref.r0(st["lam"], z, cn2), "coherence-diameter", 1e-9)
            one = core.call(bag, "r0", F.coherence_diameter, 1e-6, z, cn2, again=False)
            bag.close(got, one * (st["lam"] / 1e-6) ** 1.2, "not-wavelength-to-the-six-fifths", 1e-9)
            dbl = core.call(bag, "r0", F.coherence_diameter, st["lam"], z, 2 * cn2, again=False)
            bag.close(dbl, got * 2 ** (-0.6), "not-strength-to-the-minus-three-fifths", 1e-9)
            lng = core.call(bag, "r0", F.coherence_diameter, st["lam"], z * 3, cn2, again=False)
            bag.close(lng, got * 3 ** (-0.6), "not-length-to-the-minus-three-fifths", 1e-9)
            if st["prof"] == 0 and len(z) > 400:
                exact = (0.423 * (2 * math.pi / st["lam"]) ** 2 * 1e-14 * z[-1] * 3 / 8) ** (-0.6)
                bag.close(got, exact, "uniform-path-closed-form", 1e-4)
            return float(got)
        cut = st["D"] / st["lam"] if "lam" in st else None
        if st["op"] in ("single", "wind"):
            u, v = self.special(st["grid"], cut) if "grid" in st else np.meshgrid(AX * cut * 0.7, -AX * cut * 0.7)
            if st["op"] == "single":
                got = core.call(bag, "turbulence", F.turbulence_OTF, u, v, st["lam"], st["D"], st["r0"], st["alpha"])
                bag.close(got, ref.turbulence(u, v, st["lam"], st["D"], st["r0"], st["alpha"]), "turbulence-formula",
                          1e-9, 1e-300)
            else:
                a = (st["lam"], st["D"], st["r0"], st["td"], st["vel"])
                got = core.call(bag, "wind", F.wind_speed_turbulence_OTF, u, v, *a)
                bag.close(got, ref.wind_turbulence(u, v, *a), "wind-speed-formula", 1e-9, 1e-300)
            bag.that(np.all(np.abs(got[(u == 0) & (v == 0)] - 1) < 1e-12), "not-one-at-zero-frequency")
            bag.that(np.all(got <= 1 + 1e-12) and np.all(got >= 0), "outside-zero-to-one", float(np.max(got)))
            return got
        p = core.values(self.POLY, st["dev"])
        p["wl"] = st.get("w", p["wl"])
        wl, wt = (np.array(x) for x in self.WL[p["wl"]])
        u, v = self.special(st["grid"], p["D"] / np.max(wl)) if "grid" in st else self.grid(p, wl)
        got, band = core.call(bag, "poly", F.polychromatic_turbulence_OTF, u, v, wl, wt, p["alt"], p["slant"], p["D"],
                              p["wind"], p["cn2"], p["t"], p["speed"])
        want, wband = ref.poly_turbulence(u, v, wl, wt, p["alt"], p["slant"], p["D"], p["wind"], p["cn2"], p["t"], p["speed"])
        # (at satellite heights the path heights lose digits in the difference of large squares)
        tol = 1e-6 if p["slant"] < 1e5 else 2e-3
        bag.close(got, want, "polychromatic-turbulence", 0.0, tol)
        bag.close(band, wband, "band-coherence-diameter", tol)
        bag.that(np.all(np.abs(np.asarray(got)[(u == 0) & (v == 0)] - 1) < 1e-12), "not-one-at-zero-frequency")
        return np.asarray(got)

    def grid(self, p, wl):
        cut = p["D"] / np.max(wl) * 0.7
        return np.meshgrid(AX * cut, -AX * cut)

    def edges(self, states):
        ii = [i for i, s in enumerate(states) if s["op"] == "poly" and "grid" not in s]
        for a, b in core.lattice_edges([states[i] for i in ii], "dev"):
            yield ii[a], ii[b]

    def relate(self, a, oa, b, ob, bag):
        (q,) = set(b["dev"]) - set(a["dev"])
        if q not in ("wind", "cn2", "t", "speed"):
            return
        sign = 1 if self.POLY[q][b["dev"][q]] > self.POLY[q][0] else -1
        bag.that(np.all(sign * (ob - oa) <= 1e-9), f"improves-with-{q}",
                 f"{q} from {self.POLY[q][0]} to {self.POLY[q][b['dev'][q]]}: {float(np.max(sign * (ob - oa)))}")
