"""C28: line-of-sight geometry closes on the curved earth."""
import math

import numpy as np

from mc import core, ref

R = ref.R_EARTH
H_S = [1.0, 2.0, 32.5, 75.0, 500.0, 1000.0, 3999.5, 9000.0, 12000.0, 24500.0, 4e5, 2e6]
H_T = [0.0, 0.001, 1.5, 120.0, 3000.0, -90.0]
FRAC = [0.0, 1e-9, 1e-7, 1e-4, 0.01, 0.05, 0.1, 0.25, 0.5, 0.75, 0.9, 0.99, 1.0]
IFOV = [1e-6, 8e-6, 2.5e-4]


class Prop:
    world = "none"
    assumptions = ["sensor above the target; ground range at most the distance of their common horizon; double precision "
                   "(squared distances to 0.1 m^2)"]

    def alph(self, tier):
        if tier == "quick":
            return sorted(H_S + core.ladder(H_S, 2)), H_T + core.ladder(H_T[1:5], 1) + [-3.3, -411.0], sorted(FRAC + core.ladder(FRAC[1:], 1))
        hs = sorted(set(H_S + [150.0, 225.0] + [1000.0 * i for i in range(2, 13)] + [14000.0, 16000.0, 18000.0, 20000.0, 7e5, 3.6e7]
                        + [10.0 ** (k / 4) for k in range(1, 30)]))
        return hs, H_T + [10.0, 500.0, 1000.0], sorted(set(FRAC + [i / 60 for i in range(61)]))

    def bound(self, tier):
        a = self.alph(tier)
        return f"full product of {len(a[0])} sensor heights, {len(a[1])} target heights and {len(a[2])} fractions of the horizon " \
               "distance; every step to the next ground range; every database altitude and range up to the horizon" \
               if tier == "thorough" else \
               f"full product of {len(a[0])} sensor heights, {len(a[1])} target heights and {len(a[2])} fractions of the horizon distance"

    def states(self, tier):
        hs, ht, fr = self.alph(tier)
        st = [{"hs": s, "ht": t, "k": k, "g": self.ground(s, t, f)} for s in hs for t in ht if s - t >= 0.45
              for k, f in enumerate(fr)]
        if tier == "thorough":
            from mc.world import Atlas
            at = Atlas()
            for a in at.altitudes:
                for k, g in enumerate(at.ranges):
                    if (a, g, 1) in at.by_m:
                        st.append({"hs": a, "ht": 0.0, "k": 1000 + k, "g": g})
        return st

    def ground(self, hs, ht, frac):
        hor = R * math.acos(R / (R + hs)) + (R * math.acos(R / (R + ht)) if ht > 0 else 0.0)
        return hor * frac if ht >= 0 else min(hor * frac, R * math.acos((R + ht) / (R + hs)) * frac)

    def observe(self, st, bag):
        from pybsm import geospatial as G
        hs, ht, g = st["hs"], st["ht"], st["g"]
        where = str(st)
        true = ref.slant_curved(ht, hs, g)
        for conv in (float, np.float64):
            s = float(core.call(bag, "slant", G.curved_earth_slant_range, conv(ht), conv(hs), conv(g)))
        bag.that(abs(s * s - true * true) <= 0.15 * (1 + hs / R) ** 2 + 1e-12 * true * true, "slant-range", f"{s} instead of {true} {where}")
        # the same line seen from its other end, and the level line at the sensor's height
        back = float(core.call(bag, "slant", G.curved_earth_slant_range, hs, ht, g, again=False))
        bag.that(abs(back * back - true * true) <= 0.15 * (1 + hs / R) ** 2 + 1e-12 * true * true, "slant-range-from-the-other-end", f"{back} {where}")
        flat = float(core.call(bag, "slant", G.curved_earth_slant_range, hs, hs, g, again=False))
        chord = 2 * (R + hs) * math.sin(g / R / 2)
        bag.that(abs(flat * flat - chord * chord) <= 0.15 * (1 + hs / R) ** 2 + 1e-12 * chord * chord, "level-slant-range", f"{flat} instead of {chord} {where}")
        if g == 0:
            bag.that(abs(s - (hs - ht)) <= 0.15 / (hs - ht), "slant-straight-down", f"{s} {where}")
        # nadir angle: the triangle's angle at the sensor
        th = g / R
        nad = math.atan2((R + ht) * math.sin(th), (hs - ht) + 2 * (R + ht) * math.sin(th / 2) ** 2)
        n = float(core.call(bag, "nadir", G.nadir_angle, ht, hs, true))
        bag.that(math.isfinite(n) and abs(math.cos(n) - math.cos(nad)) <= 0.05 / (R * true) + 1e-15, "nadir-angle",
                 f"{n} instead of {nad} {where}")
        if g == 0:
            bag.that(n <= 3 * math.sqrt(0.05 / (R * true)), "nadir-angle-straight-down", f"{n} {where}")
        n2 = float(core.call(bag, "nadir", G.nadir_angle, ht, hs, s, again=False))
        bag.that(math.isfinite(n2), "nadir-undefined", f"{n2} at the computed slant range {where}")
        z, h = core.call(bag, "path", G.altitude_along_slant_path, ht, hs, true)
        z, h = np.asarray(z), np.asarray(h)
        bag.that(z.shape == h.shape and z.ndim == 1 and z.size >= 2, "path-shape", where)
        bag.that(np.all(np.diff(z) > 0) and abs(z[0]) < 1e-9 and abs(z[-1] - true) <= 1e-9 * true, "path-extent", where)
        tol = 1e-3 + 1e-8 * hs + 0.1 / true
        bag.close(h, ref.height_at(ht, hs, true, z), "path-heights", 0, tol, where)
        bag.that(abs(h[0] - ht) <= tol, "path-does-not-start-at-the-target", f"{h[0]} {where}")
        bag.that(abs(h[-1] - hs) <= tol, "path-does-not-end-at-the-sensor", f"{h[-1]} {where}")
        if g <= 0.99 * self.ground(hs, ht, 1.0) and ht >= 0:
            bag.that(np.all(h >= ht - tol) or ht > 0, "path-below-the-target", where)
        for i in IFOV:
            bag.close(core.call(bag, "gsd", G.ground_sample_distance, i, true), i * true, "ground-sample-distance", 1e-12)
        return [s, n, n2]

    def edges(self, states):
        for i in range(len(states) - 1):
            a, b = states[i], states[i + 1]
            if a["hs"] == b["hs"] and a["ht"] == b["ht"] and a["k"] + 1 == b["k"]:
                yield i, i + 1

    def relate(self, a, oa, b, ob, bag):
        bag.that(ob[0] ** 2 >= oa[0] ** 2 - 0.1 - 1e-12 * oa[0] ** 2, "slant-range-shrinks", f"{a} {oa[0]} -> {b} {ob[0]}")
        if b["g"] > R * math.acos((R + max(b["ht"], 0)) / (R + b["hs"])):
            return  # beyond the sensor's horizon at the target's height the angle at the sensor shrinks again
        t = 0.1 / (R * ref.slant_curved(a["ht"], a["hs"], a["g"])) + 1e-14
        bag.that(math.cos(ob[1]) <= math.cos(oa[1]) + t, "nadir-angle-shrinks", f"{a} {oa[1]} -> {b} {ob[1]}")
