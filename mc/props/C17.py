"""C17: a slice at any angle follows that direction of the response."""
import math

import numpy as np

from mc import core, ref

ANGLES = [k * math.pi / 12 for k in range(25)] + [0.1, 0.3217, 1.0, 1.1071, 2.0, 3.3, 4.4444, 5.9] \
    + [math.pi / 2 - 1e-9, math.pi / 2 + 1e-9, math.pi - 1e-9, 1e-12, -1e-12, 1e-3, 0.02, -0.005, math.pi / 4 + 1e-3, math.pi / 2 - 0.01]


def image(kind, n):
    u = np.linspace(-1.0, 1.0, n)
    uu, vv = np.meshgrid(u, u[::-1])
    if kind == "u":
        return uu.copy()
    if kind == "v":
        return vv.copy()
    if kind == "plane":
        return 0.3 + 0.7 * uu - 0.45 * vv
    if kind == "gauss":
        return np.exp(-(uu / 0.3) ** 2 - (vv / 0.8) ** 2)
    if kind == "rotated":
        a, b = uu * 0.8 + vv * 0.6, -uu * 0.6 + vv * 0.8
        return np.exp(-(a / 0.25) ** 2 - (b / 0.7) ** 2)
    if kind == "signed":
        return np.sinc(2.3 * uu) * np.sinc(1.2 * vv)
    if kind == "uneven":  # no symmetry at all
        i, j = np.mgrid[0:n, 0:n]
        return ((i * 7 + j * 13 + i * j * 5) % 31) / 31.0 - 0.2
    if kind == "unit":
        x = np.zeros((n, n))
        x[max(0, n // 2 - 2), n - 1 - n // 3] = 1.0
        return x
    if kind == "one":
        return np.ones((n, n))
    if kind == "int":
        i, j = np.mgrid[0:n, 0:n]
        return (i * 3 + j * 11) % 17
    if kind == "float32":
        return image("uneven", n).astype(np.float32)
    if kind == "fortran":
        return np.asfortranarray(image("uneven", n))
    if kind == "view":
        return np.repeat(np.repeat(image("uneven", n), 2, 0), 2, 1)[::2, ::2]
    if kind == "complex":
        return image("plane", n) * np.exp(1.7j * uu - 0.9j * vv)
    if kind == "imaginary":
        return 1j * image("uneven", n)
    if kind == "complex64":
        return (image("uneven", n) - 2j * image("plane", n)).astype(np.complex64)
    if kind == "faint":
        return image("uneven", n) * 1e-9
    if kind == "offset":
        return image("uneven", n) + 4096.0
    raise KeyError(kind)


KINDS = ["u", "v", "plane", "gauss", "rotated", "signed", "uneven", "unit", "one", "int", "float32", "fortran", "view", "complex", "imaginary", "complex64", "faint", "offset"]
SYMMETRIC = {"gauss", "rotated", "signed", "one"}


def wide(a):
    return np.asarray(a, complex if np.iscomplexobj(a) else float)


class Prop:
    world = "none"
    assumptions = ["square responses of at least 2x2 samples"]

    def sizes(self, tier):
        return [2, 3, 4, 5, 7, 8, 11, 12, 20, 31, 101] if tier == "quick" else list(range(2, 40)) + [50, 64, 101, 150, 201]

    def bound(self, tier):
        return f"every size of {self.sizes(tier)} x {len(KINDS)} contents x {len(self.angles(tier))} angles (and each " \
               "angle a turn below, a turn above and three turns above)"

    def angles(self, tier):
        return ANGLES if tier == "quick" else ANGLES + [k * math.pi / 90 for k in range(180)]

    def states(self, tier):
        st = [{"n": n, "kind": k, "tier": tier} for n in self.sizes(tier) for k in KINDS]
        big = (64, 128, 129, 200, 256, 257, 400, 513) if tier == "quick" else (256, 257, 300, 400, 512, 513, 777)
        return st + [{"n": n, "kind": k, "tier": tier, "few": 9} for n in big for k in ("uneven", "rotated", "complex")] + [
            {"n": n, "kind": k, "tier": tier, "few": 22} for n, k in ((1000, "uneven"), (1001, "uneven"), (1024, "complex"), (1025, "uneven"), (1501, "uneven"), (1501, "complex"))]

    def pair(self, bag, got, want, kind, detail):
        g = np.asarray(got)
        # the sample at exactly one half-width may or may not be there (it is on the border of the array)
        m = min(len(g), len(want))
        bag.that(g.ndim == 1 and abs(len(g) - len(want)) <= 1 and m > 0, kind + ":length", f"{g.shape} {len(want)} {detail}")
        scale = 1e-9 if "faint" in detail else 1.0
        bag.close(g[:m], want[:m], kind, 0.0, 2e-6 if "float32" in detail or "complex64" in detail else 1e-9 * scale, detail)

    def observe(self, st, bag):
        from pybsm.otf import functional as F
        n, kind = st["n"], st["kind"]
        a = image(kind, n)
        c = (n - 1) / 2.0
        centre = np.mean([a[int(i), int(j)] for i in (math.floor(c), math.ceil(c)) for j in (math.floor(c), math.ceil(c))])
        obs = []
        for ang in self.angles(st["tier"])[::st.get("few", 1)]:
            where = f"{kind} n={n} angle={ang:.6f}"
            got = core.call(bag, "slice", F.slice_otf, a, ang)
            want = ref.slice2d(wide(a), ang)
            self.pair(bag, got, want, "not-the-samples-along-the-ray", where)
            bag.close(np.asarray(got)[0], centre, "does-not-start-at-the-centre", 0.0, 1e-6, where)
            for turn in (-1, 1, 3):
                full = core.call(bag, "slice", F.slice_otf, a, ang + turn * 2 * math.pi, again=False)
                self.pair(bag, full, np.asarray(got), "a-full-turn-changes-the-slice", where)
            if kind in SYMMETRIC:
                opp = core.call(bag, "slice", F.slice_otf, a, ang + math.pi, again=False)
                self.pair(bag, opp, np.asarray(got), "opposite-direction-differs", where)
            obs.append(np.asarray(got)[:len(want)])
        if n % 2:
            m = n // 2
            for k, line in ((0.0, a[m, m:]), (math.pi / 2, a[m::-1, m]), (math.pi, a[m, m::-1]), (-math.pi / 2, a[m:, m])):
                got = np.asarray(core.call(bag, "slice", F.slice_otf, a, k))
                mm = min(len(got), len(line))
                bag.close(got[:mm], wide(line[:mm]), "axis-slice-is-not-the-axis", 0.0, 1e-6, f"{kind} {n} {k}")
        return obs
