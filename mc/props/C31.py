"""C31: restoration filter and elementary optics relations hold for every input."""
import itertools
import math

import numpy as np

from mc import core, ref


def otf(kind, shape):
    n = int(np.prod(shape))
    x = np.linspace(0, 1, n).reshape(shape)
    return {"real": np.cos(4 * x), "positive": np.exp(-x * 3), "complex": np.exp(-x) * np.exp(3j * x),
            "imag": 1j * (0.2 + x), "zero": np.where(x > 0.5, 0.0, 1 - x), "negative": -0.1 - x,
            "big": 1e8 * (1 + x) + 0j, "decades": 10.0 ** (2 - 12 * x), "fading": 10.0 ** (1 - 9 * x) * np.exp(5j * x), "int": (np.arange(n).reshape(shape) % 4) + 1,
            "complex64": (np.exp(-x) * np.exp(3j * x)).astype(np.complex64)}[kind]


KINDS = ["real", "positive", "complex", "imag", "zero", "negative", "big", "int", "complex64", "decades", "fading"]
NSR = [1e-12, 1e-3, 0.1, 1.0, 50.0, "flat", "ramp", "low", "decades", "high", "spike", "whole", "holes", "one-hole", "alternate"]


class Prop:
    world = "none"
    assumptions = ["positive noise-to-signal ratio (zero only where the response does not vanish)"]
    A = [1e-6, 8e-6, 0.02, 0.1, 1, 3.0]
    B = [0.01, 0.25, 1, 7.5, 1200.0]
    C = [-1e-3, 0.0, 2e-5, 1.0]

    def bound(self, tier):
        return "Wiener: full product of 11 responses, 7 shapes, 13 noise terms; elementary relations: full products of their alphabets"

    def states(self, tier):
        st = []
        for k in KINDS:
            for s in ([5], [4, 4], [3, 7], [1], [2, 3, 4], [40], [300, 270]):
                for n in NSR + [0.0]:
                    if n in (0.0, "holes", "one-hole", "alternate") and k in ("zero", "real"):
                        continue
                    st.append({"op": "wiener", "k": k, "s": s, "n": n})
        extra = [] if tier == "quick" else [10.0 ** k for k in range(-9, 6)]
        for k, n in itertools.product(KINDS, core.ladder([1e-24, 1e6], 2) + [1e-30]):
            st.append({"op": "wiener", "k": k, "s": [3, 7], "n": n})
        for a in core.ladder(self.A[:2] + self.A[2:]):
            st += [{"op": "ifov", "a": a, "b": 0.37}, {"op": "gsd", "a": a, "b": 731.0}, {"op": "object", "a": a, "b": 3.1, "c": 77.0},
                   {"op": "dark", "a": 0.9, "b": a, "c": 1.3e-6}, {"op": "image", "a": a, "b": 2e-5, "c": 0.7}]
        for b in core.ladder(self.B):
            st += [{"op": "ifov", "a": 7e-6, "b": b}, {"op": "gsd", "a": 3e-6, "b": b}, {"op": "object", "a": 0.3, "b": b, "c": 41.0},
                   {"op": "object", "a": 0.3, "b": 9.1, "c": b}, {"op": "dark", "a": b, "b": 8e-6, "c": 7e-6},
                   {"op": "dark", "a": 0.2, "b": 8e-6, "c": b * 1e-6}, {"op": "image", "a": 0.21, "b": 1e-4, "c": b}]
        for c in core.ladder([-1.0, -1e-6, 1e-6, 1.0]):
            st.append({"op": "image", "a": 0.21, "b": c, "c": 1.3})
        # far and near, large and small at once: several arguments away from the ordinary together
        wide = [float(f"{1.37 * 10.0 ** k:.4g}") for k in range(-9, 11, 1 if tier != "quick" else 2)]
        for b, c in itertools.product([float(f"{2.3 * 10.0 ** (k / 2):.4g}") for k in range(-8, 25)], repeat=2):
            st.append({"op": "object", "a": 0.41, "b": b, "c": c})
        for a, b in itertools.product(wide, repeat=2):
            st += [{"op": "ifov", "a": a, "b": b}, {"op": "gsd", "a": a, "b": b}]
        for a, b, c in itertools.product(wide, repeat=3):
            st += [{"op": "image", "a": a, "b": b, "c": c}, {"op": "dark", "a": a, "b": b, "c": c}]
        for a, b in itertools.product(self.A + extra, self.B + extra):
            st.append({"op": "ifov", "a": a, "b": b})
            st.append({"op": "gsd", "a": a, "b": b})
        for a, b, c in itertools.product(self.A + extra, self.B + extra, self.B + extra[::3]):
            st.append({"op": "object", "a": a, "b": b, "c": c})
            st.append({"op": "dark", "a": b, "b": a, "c": c * 1e-6})
        for a, b, c in itertools.product(self.A + extra, self.C + extra[::3], self.B + extra[::3]):
            st.append({"op": "image", "a": a, "b": b, "c": c})
        return st

    def observe(self, st, bag):
        from pybsm.otf import functional as F
        from pybsm.simulation import functional as S
        from pybsm import geospatial as G
        where = str(st)
        if st["op"] == "wiener":
            h = otf(st["k"], st["s"])
            x = np.linspace(0.01, 0.9, h.size).reshape(h.shape)
            y = np.linspace(0, 1, h.size).reshape(h.shape)
            n = {"flat": np.full(h.shape, 0.05), "ramp": x, "low": 1e-6 + 9e-4 * y, "decades": 10.0 ** (12 * y - 9), "high": 1e7 + 40 * y,
                 "spike": np.where(y < 0.999, 2e-5, 3.0), "whole": np.arange(1, h.size + 1).reshape(h.shape),
                 # no noise at all in some of the bins
                 "holes": np.where(y < 0.6, 0.0, x), "one-hole": np.where(y == 0, 0.0, 0.3 + y),
                 "alternate": (np.arange(h.size).reshape(h.shape) % 2) * 1e-3}.get(st["n"], st["n"])
            got = core.call(bag, "wiener", S.wiener_filter, h, n)
            w = np.conj(h) / (np.asarray(h * np.conj(h)).real + n)
            tol = 1e-5 if st["k"] == "complex64" else 1e-10
            bag.that(np.all(np.abs(got - w) <= tol * (np.abs(w) + 1e-300)), "wiener", f"{np.abs(got - w).max()} {where}")
            bag.that(np.shape(got) == h.shape, "wiener-shape", where)
            if st["n"] in (0.0, 1e-12) and st["k"] != "zero" and np.abs(h).min() > 1e-3:
                bag.that(np.all(np.abs(got * h - 1) <= 1e-4), "wiener-not-the-inverse", where)
            return np.asarray(got)
        a, b, c = st["a"], st["b"], st.get("c")
        if st["op"] == "ifov":
            got, want = core.call(bag, "ifov", S.instantaneous_FOV, a, b), a / b
        elif st["op"] == "gsd":
            got, want = core.call(bag, "gsd", G.ground_sample_distance, a, b), a * b
        elif st["op"] == "object":
            got, want = core.call(bag, "object", F.object_domain_defocus_radii, a, b, c), 0.62 * a * (1 / b - 1 / c)
            bag.close(got, want, "object-defocus", 1e-9, 1e-15 * a / min(b, c), where)
            return float(got)
        elif st["op"] == "image":
            got, want = core.call(bag, "image", F.image_domain_defocus_radii, a, b, c), 0.62 * a * b / c / c
        else:
            got, want = core.call(bag, "dark", F.dark_current_from_density, a, b, c), a * b * c / ref.Q
        bag.close(got, want, st["op"], 1e-12, 0, where)
        return float(got)
