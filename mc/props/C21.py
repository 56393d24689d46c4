"""C21: pixel values map to reflectance and to 8 bits monotonically and within range."""
import itertools

import numpy as np

from mc import core, ref

LEVELS = [0, 1, 2, 100, 254, 255]


LARGE = [(700, 600), (1100, 1000), (1, 300000), (2200, 131)]


def big(kind, shape=(23, 31)):
    y, x = np.mgrid[0:shape[0], 0:shape[1]]
    return {"ramp": x + 31.0 * y, "uneven": ((x * 7 + y * 13 + x * y * 5) % 211) * 1.0,
            "negative": ((x * 3 + y) % 101) - 50.0, "outliers": np.where((x == 3) & (y < 2), 9e5, (x * y) % 50) * 1.0,
            "tiny": 1e-7 * ((x * 5 + y) % 13), "huge": 1e12 + 1e9 * ((x + y * 3) % 29), "two": ((x + y) % 2) * 3.0,
            "mostly": 7.0 + (x == 30) * (y == 22) * 4, "uniform": np.full(x.shape, 42.0), "zero": np.zeros(x.shape),
            "float-uniform": np.full(x.shape, 0.1), "offset": 1e6 + 1e-3 * ((x * 5 + y) % 13),
            "corner": 20.0 + 60.0 * (x >= x.shape[1] - x.shape[1] // 13) + 120.0 * (y >= y.shape[0] - y.shape[0] // 13) + (x + y) % 5,
            "last": 10.0 + ((x * 7 + y * 3) % 23) + 150.0 * (x % 4 == 3) * (y % 3 == 2),
            "rows": 5.0 + (y % 2) * 90 + (x % 2) * 40 + (x * y) % 3,
            "unit": ((x * 5 + y * 3) % 17) / 16.0, "nearly-uniform": 100.0 + 1e-9 * (x == 3)}[kind]


BIG = ["ramp", "uneven", "negative", "outliers", "tiny", "huge", "two", "mostly", "uniform", "zero", "float-uniform", "offset", "unit", "nearly-uniform"]


class Prop:
    world = "none"
    chunk = 12
    assumptions = ["numeric images with at least one pixel; at least two distinct calibration points"]

    def bound(self, tier):
        return f"all 2x2 and 1x{5 if tier == 'thorough' else 4} images over the pixel alphabet {LEVELS}; all orders of all " \
               "calibration sets; calibrations of up to 5000 points; contents x pixel types x percentiles"

    CAL = [[(0, 0.05), (200, 0.95)], [(10, 0.5), (11, 0.6)], [(0, 0.0), (50, 0.8), (254, 0.9)],
           [(-20, 0.3), (90, 0.1), (100, 0.9), (300, 0.2)], [(1, 0.9), (100, 0.1)], [(0.5, 0.2), (1.5, 0.2), (99.5, 1.4)],
           [(0, -0.5), (254, 1.5)], [(0, 0), (1, 1)], [(100, 0.25), (101, 0.3), (150, 0.3), (180, 0.9), (254, 1.0)]]
    DT = ["float64", "float32", "uint8", "int16", "uint16", "int64"]

    MANY = [5, 9, 10, 11, 12, 16, 17, 31, 64, 101, 256, 257, 1000, 5000]

    def states(self, tier):
        st = [{"op": "points", "n": n, "k": k, "o": o, "dtype": d} for n in self.MANY for k in ("square", "saw", "falls", "steps")
              for o in ("up", "down", "mixed") for d in self.DT]
        for n in (1, 2, 3, 4) + ((5,) if tier == "thorough" else ()):
            for px in itertools.product(LEVELS, repeat=n):
                st.append({"op": "small", "px": list(px)})
        for c, cal in enumerate(self.CAL):
            for perm in itertools.permutations(range(len(cal))):
                for d in self.DT:
                    for t in ("float", "int", "list"):
                        if t == "int" and any(p[0] != int(p[0]) or p[1] != int(p[1]) for p in cal):
                            continue
                        st.append({"op": "cal", "c": c, "perm": list(perm), "dtype": d, "t": t})
        for k in BIG:
            for d in self.DT:
                if d in ("uint8", "int16", "uint16") and (k in ("huge", "outliers", "ramp") or d[0] == "u" and k == "negative"):
                    continue
                st.append({"op": "ref", "img": k, "dtype": d})
                for lo, hi in ((0.1, 99.9), (0, 100), (2, 98), (10, 50), (0.2, 99.8), (40, 60), (0, 50)):
                    st.append({"op": "stretch", "img": k, "dtype": d, "p": [lo, hi]})
        # the whole range of each integer type, already stretched or nearly so
        for d in ("uint8", "int8", "uint16", "int16", "int32", "uint32", "float32", "float64"):
            for kind in ("full", "full-rare", "full-two", "full-low", "almost-full", "off-by-one"):
                for lo, hi in ((0.1, 99.9), (0, 100), (2, 98), (25, 75), (5, 60)):
                    st.append({"op": "stretch", "img": kind, "dtype": d, "p": [lo, hi]})
                st.append({"op": "ref", "img": kind, "dtype": d})
        for s, shape in enumerate(LARGE):
            for k in ("ramp", "uneven", "negative", "corner", "last", "rows", "unit") if tier == "quick" else BIG + ["corner", "last", "rows"]:
                for d in ("float64", "uint8", "int16"):
                    if d != "float64" and k not in ("uneven", "corner", "last", "rows"):
                        continue
                    st.append({"op": "ref", "img": k, "dtype": d, "size": s})
                    st.append({"op": "stretch", "img": k, "dtype": d, "p": [0.1, 99.9] if d == "uint8" else [2, 98], "size": s})
        return st

    def observe(self, st, bag):
        from pybsm.simulation import RefImage
        from pybsm.simulation import functional as S
        where = str(st)
        if st["op"] == "small":
            px = np.array(st["px"], dtype=np.uint8)
            shapes = [px.reshape(1, -1), px.reshape(-1, 1)] + ([px.reshape(2, 2)] if px.size == 4 else [])
            out = []
            for a in shapes:
                got = core.call(bag, "stretch", S.stretch_contrast_convert_8bit, a)
                self.stretched(bag, a, np.asarray(got), 0.1, 99.9, where)
                r = RefImage(a, 0.5)
                self.default_cal(bag, a, r, where)
                if len(set(st["px"])) > 1:
                    g = core.call(bag, "reflectance", S.img_to_reflectance, a, r.pix_values, r.refl_values)
                    self.mapped(bag, a, g, r.pix_values, r.refl_values, where)
                out.append(np.asarray(got))
            return out
        if st["op"] == "cal":
            cal = [self.CAL[st["c"]][i] for i in st["perm"]]
            kind = {"float": float, "int": int, "list": float}[st["t"]]
            p, q = [kind(x[0]) for x in cal], [kind(x[1]) for x in cal]
            if st["t"] != "list":
                p, q = np.array(p), np.array(q)
            lv = np.array([0, 1, 2, 10, 11, 49, 50, 51, 99, 100, 101, 150, 179, 181, 200, 253, 254, 255])
            a = np.concatenate([lv, lv[::-1]]).reshape(4, 9)
            a = a.astype(st["dtype"])
            if a.dtype.kind == "f":
                a = a + np.linspace(0, 0.9, 36).reshape(4, 9).astype(st["dtype"])
            g = core.call(bag, "reflectance", S.img_to_reflectance, a, p, q)
            self.mapped(bag, a, g, p, q, where)
            return np.asarray(g)
        if st["op"] == "points":  # many calibration points
            n = st["n"]
            i = np.arange(n)
            i = {"up": i, "down": i[::-1], "mixed": np.argsort((i * 7919) % (2 * n + 1), kind="stable")}[st["o"]]
            x = i / (n - 1.0)
            p = 3.0 + 240.0 * x
            q = {"square": 0.02 + 0.9 * x ** 2, "saw": 0.3 + 0.5 * ((i * 3) % 7) / 7 + 0.1 * x, "falls": 0.97 - 0.9 * np.sqrt(x),
                 "steps": np.floor(4 * x) / 5 + 0.1}[st["k"]]
            a = ((np.arange(600) * 37) % 256).reshape(20, 30).astype(st["dtype"])
            if a.dtype.kind == "f":
                a = a + np.linspace(-0.4, 0.4, 600).reshape(20, 30).astype(a.dtype)
            g = core.call(bag, "reflectance", S.img_to_reflectance, a, p, q)
            tol = 1e-9 if a.dtype != np.float32 else 1e-6 * n
            bag.close(g, ref.to_reflectance(a, p, q), "reflectance", 0, tol, where)
            bag.that(np.min(g) >= 0 and np.max(g) <= 1, "reflectance-outside-0..1", where)
            return np.asarray(g)
        if "full" in st["img"] or st["img"] == "off-by-one":
            a = self.full(st["img"], np.dtype(st["dtype"]))
        else:
            a = big(st["img"], *([LARGE[st["size"]]] if "size" in st else [])).astype(st["dtype"])
        if st["op"] == "ref":
            r = RefImage(a, 0.5)
            self.default_cal(bag, a, r, where)
            if a.min() < a.max() and r.pix_values[1] > r.pix_values[0]:
                g = core.call(bag, "reflectance", S.img_to_reflectance, a, r.pix_values, r.refl_values)
                self.mapped(bag, a, g, r.pix_values, r.refl_values, where)
                frac = float(np.mean((np.asarray(g) > 0.0499) & (np.asarray(g) < 0.9501)))
                bag.that(frac > 0.97, "default-calibration-does-not-cover-the-image", f"{frac} {where}")
                return self.brief(st, g)
            return None
        lo, hi = st["p"]
        got = core.call(bag, "stretch", S.stretch_contrast_convert_8bit, a, [lo, hi])
        self.stretched(bag, a, np.asarray(got), lo, hi, where)
        if st["p"] == [0.1, 99.9]:
            bag.that(core.same(S.stretch_contrast_convert_8bit(a), got), "default-percentiles", where)
        return self.brief(st, got)

    def full(self, kind, dt):
        lo, hi = (np.iinfo(dt).min, np.iinfo(dt).max) if dt.kind in "iu" else (0, 255)
        y, x = np.mgrid[0:23, 0:31]
        q = ((x * 7 + y * 13 + x * y * 5) % 256)  # every level of a byte
        step = (hi - lo) // 255
        a = {"full": lo + q * step, "full-rare": lo + np.where(q == 0, 0, np.where(q == 255, 255, 100 + q % 50)) * step,
             "full-two": lo + (x + y) % 2 * 255 * step, "full-low": lo + np.where((x == 30) & (y == 22), 255, q // 8) * step,
             "almost-full": lo + np.clip(q, 1, 254) * step, "off-by-one": lo + np.where(q == 0, 1, q) * step}[kind]
        if kind.startswith("full"):
            a[0, 0], a[-1, -1] = lo, hi
        return a.astype(dt)

    def brief(self, st, a):
        a = np.asarray(a)
        return a if "size" not in st else [float(a.mean()), float(a.std())]

    def default_cal(self, bag, a, r, where):
        bag.close(r.pix_values, [np.percentile(a, 0.2), np.percentile(a, 99.8)], "default-calibration-pixels", 1e-6, 1e-12, where)
        bag.close(r.refl_values, [0.05, 0.95], "default-calibration-reflectances", 1e-12, 0, where)

    def mapped(self, bag, a, g, p, q, where):
        g = np.asarray(g)
        want = ref.to_reflectance(a, p, q)
        lo = min(abs(x - y) for x, y in itertools.combinations(np.sort(np.asarray(p, float)), 2))
        tol = 1e-9 if a.dtype != np.float32 else 1e-5 * max(1.0, 256 / lo) * 1e-1
        bag.close(g, want, "reflectance", 0, tol + 1e-9, where)
        bag.that(g.min() >= 0 and g.max() <= 1, "reflectance-outside-0..1", where)

    def stretched(self, bag, a, got, lo, hi, where):
        bag.that(got.dtype == np.uint8 and got.shape == a.shape, "not-an-8-bit-image-of-the-same-size",
                 f"{got.dtype} {got.shape} {where}")
        want = ref.stretch(a, lo, hi)
        x, y = np.percentile(a.astype(float), lo), np.percentile(a.astype(float), hi)
        if y - x > 1e-9 * abs(y):
            # rounding of exact halves may go either way
            bag.that(np.all(np.abs(got.astype(int) - want) <= 1), "stretched-value", f"{np.abs(got.astype(int) - want).max()} {where}")
            bag.that(np.mean(got.astype(int) != want) <= 0.02 or a.size < 50 and
                     np.all(np.abs((np.clip((a.astype(float) - x) * 255 / (y - x), 0, 255)) - got) <= 0.5 + 1e-6),
                     "stretched-value", f"{np.mean(got.astype(int) != want)} {where}")
            bag.that(got[a <= x].size == 0 or np.all(got[a <= x] == 0), "low-percentile-not-0", where)
            bag.that(got[a >= y].size == 0 or np.all(got[a >= y] == 255), "high-percentile-not-255", where)
        o = np.argsort(a.ravel(), kind="stable")
        bag.that(np.all(np.diff(got.ravel()[o].astype(int)) >= 0), "not-monotone", where)
        if a.min() == a.max():
            bag.that(got.min() == got.max(), "uniform-image-not-uniform", where)
