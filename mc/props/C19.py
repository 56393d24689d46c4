"""C19: blurring and resampling preserve level, linearity and geometry."""
import math

import numpy as np

from mc import core

SHAPES = [(24, 24), (17, 40), (41, 15), (3, 5), (1, 30), (64, 2), (90, 70)]
LARGE = [(300, 260), (520, 33), (600, 700), (1030, 12), (9, 1300), (3000, 7), (2, 9000), (8, 8)]
RATIOS = [1.0, 0.5, 0.31, 2.0, 1.7, 0.25, 1 / 3.0, 0.97, 1.04, 0.9999, 5.0, 0.05, 8.0, 20.0, 0.01]
IMAGES = ["uniform", "ramp_x", "ramp_y", "impulse", "uneven", "checker", "corner", "pedestal", "faint", "signs"]
DTYPES = ["float64", "float32", "uint8", "uint16", "int16"]


def image(kind, shape, dtype):
    y, x = np.mgrid[0:shape[0], 0:shape[1]]
    if kind == "uniform":
        a = np.full(shape, 137.0)
    elif kind == "ramp_x":
        a = 3.0 + 2 * x
    elif kind == "ramp_y":
        a = 5.0 + 2 * y
    elif kind == "impulse":
        a = np.zeros(shape)
        a[shape[0] // 2, shape[1] // 2] = 200.0
    elif kind == "uneven":
        a = ((x * 7 + y * 13 + x * y * 5) % 211) + 0.0
    elif kind == "checker":
        a = ((x // 2 + y // 2) % 2) * 180.0 + 20
    elif kind == "pedestal":
        a = 3e7 + ((x * 5 + y * 11) % 13) / 7.0
        if np.dtype(dtype).kind in "iu":
            a -= 3e7 - 200
    elif kind == "faint":
        a = 1e-9 * (1 + (x * 3 + y * 7) % 17)
        if np.dtype(dtype).kind in "iu":
            a = (x * 3 + y * 7) % 3 + 0.0
    elif kind == "signs":
        a = ((x * 7 + y * 3) % 19 - 9) * (13.7 if np.dtype(dtype).kind == "f" else 12)
        if np.dtype(dtype).kind == "u":
            a -= a.min()
    else:
        a = 10.0 + 200.0 * ((x < shape[1] / 3) & (y < shape[0] / 3))
    return a.astype(dtype)


def resize(a, out_shape):
    """Bilinear resampling about pixel centres, edge pixels extended."""
    a = np.asarray(a, float)
    for ax in (0, 1):
        n, m = a.shape[ax], out_shape[ax]
        x = np.clip((np.arange(m) + 0.5) * (n / m) - 0.5, 0, n - 1)
        i = np.minimum(np.floor(x).astype(int), max(n - 2, 0))
        f = x - i
        j = np.minimum(i + 1, n - 1)
        sh = (-1, 1) if ax == 0 else (1, -1)
        f = f.reshape(sh)
        a = np.take(a, i, ax) * (1 - f) + np.take(a, j, ax) * f
    return a


def blur(a, k):
    """Weighted sum of the neighbours around the kernel's middle tap, mirrored at the border."""
    a = np.asarray(a, float)
    cy, cx = k.shape[0] // 2, k.shape[1] // 2

    def idx(n, off):
        p = np.arange(n) + off
        if n == 1:
            return np.zeros(n, int)
        p = np.mod(p, 2 * n - 2)
        return np.where(p < n, p, 2 * n - 2 - p)

    out = np.zeros(a.shape)
    rows = [idx(a.shape[0], i - cy) for i in range(k.shape[0])]
    cols = [idx(a.shape[1], j - cx) for j in range(k.shape[1])]
    for i, r in enumerate(rows):
        for j, c in enumerate(cols):
            if k[i, j]:
                out += k[i, j] * a[np.ix_(r, c)]
    return out


def mirrored(k):
    """The kernel turned about its middle tap."""
    out = np.zeros((k.shape[0] + 1 - k.shape[0] % 2, k.shape[1] + 1 - k.shape[1] % 2))
    out[:k.shape[0], :k.shape[1]] = k
    return out[::-1, ::-1]


def rounded(shape, ratio, got):
    """shape x ratio rounded; where that is a tie, either neighbour."""
    out = []
    for i, n in enumerate(shape):
        w = int(np.round(n * ratio))
        if i < len(got) and abs(got[i] - n * ratio) <= 0.5 + 1e-6:
            w = got[i]
        out.append(w)
    return tuple(out)


class Prop:
    guise = "layout"  # (the pixel types the resampler supports have their own states)
    world = "none"
    assumptions = ["single-channel images; borders are mirrored, resampling is bilinear about pixel centres (integer "
                   "images to within their rounding)"]
    GSD, RNG = 0.5, 2000.0
    OTFS = ["narrow", "wide_x", "wide_y", "flat", "signed", "fine", "even"]
    PHASED = ["right", "up", "left-down", "coma"]  # complex responses: the image is convolved with the returned kernel

    def bound(self, tier):
        return "resampling: every image content x shape x pixel type x ratio x level; blurring: every content x shape " \
               "x pixel type x response x ratio" + (" (x three ground sample distances)" if tier == "thorough" else
                                                    " (uneven shapes with float64, others with two shapes)")

    def states(self, tier):
        st = []
        for im in IMAGES:
            for s in range(len(SHAPES)):
                for t in DTYPES:
                    for r in range(len(RATIOS)):
                        st.append({"op": "resample", "im": im, "shape": s, "dtype": t, "r": r})
        for g in ((1.0,) if tier == "quick" else (1.0, 0.37, 6.0)):
            for im in IMAGES:
                for s in range(len(SHAPES)):
                    for t in DTYPES:
                        if tier == "quick" and t != "float64" and s not in (0, 1):
                            continue
                        for o in self.OTFS:
                            for r in range(len(RATIOS)) if tier != "quick" else (0, 1, 4, 6):
                                st.append({"op": "apply", "im": im, "shape": s, "dtype": t, "otf": o, "r": r, "g": g})
            for im in ("impulse", "uneven", "corner", "ramp_x", "uniform", "signs"):
                for s in (0, 1, 2, 6):
                    for t in ("float64", "float32", "uint8") if tier == "quick" else DTYPES:
                        for o in self.PHASED:
                            for r in (0, 1, 4, 6) if tier == "quick" else range(len(RATIOS)):
                                st.append({"op": "apply", "im": im, "shape": s, "dtype": t, "otf": o, "r": r, "g": g})
        for h, w in self.sweep(tier):
            for r in (2, 6, 4, 1):
                st.append({"op": "resample", "im": "uneven", "size": [h, w], "shape": 0, "dtype": "float64", "r": r})
        for im in ("uneven", "corner", "ramp_y"):
            for s in range(len(SHAPES), len(SHAPES) + len(LARGE)):
                for t in ("float64", "uint8"):
                    for r in (0, 1, 2, 4) if LARGE[s - len(SHAPES)] != (8, 8) else (12, 13):
                        st.append({"op": "resample", "im": im, "shape": s, "dtype": t, "r": r})
                        for o in ("wide_x", "signed", "up") if tier != "quick" or r < 2 else ():
                            st.append({"op": "apply", "im": im, "shape": s, "dtype": t, "otf": o, "r": r, "g": 1.0})
        return st

    def sweep(self, tier):
        """Every small width beside a few heights, and the other way around."""
        m = 41 if tier == "quick" else 90
        return [x for k in range(2, m) for f in ((60,) if tier == "quick" else (7, 60, 61, 240)) for x in ((k, f), (f, k))]

    def otf(self, name, dx):
        """dx: angle of one image pixel; responses with blur of a few pixels."""
        n = 64 if name == "even" else 51
        fine = 3.0 if name == "fine" else 1.0  # the response covers frequencies beyond the image's sampling
        df = fine / (n * dx)
        ax = (np.arange(n) - n // 2) * df
        u, v = np.meshgrid(ax, -ax)
        g = lambda sx, sy: np.exp(-2 * (math.pi * dx) ** 2 * ((sx * u) ** 2 + (sy * v) ** 2))  # noqa: E731
        if name in ("narrow", "fine", "even"):
            return g(1.3, 1.3), df
        if name == "wide_x":
            return g(3.0, 1.3), df
        if name == "wide_y":
            return g(1.3, 2.5), df
        if name == "flat":
            return np.ones((n, n)), df
        if name in self.PHASED:
            p = {"right": 2 * u, "up": 3 * v, "left-down": -1.5 * u - 2.5 * v, "coma": 9 * dx ** 2 * u ** 3}[name]
            return g(1.3, 1.0) * np.exp(-2j * math.pi * dx * p), df
        return g(1.0, 1.0) * np.sinc(3 * dx * u) * np.cos(5 * dx * v), df

    def observe(self, st, bag):
        import cv2
        from pybsm.otf import functional as F
        cv2.setNumThreads(1)
        shape, ratio = tuple(st["size"]) if "size" in st else (SHAPES + LARGE)[st["shape"]], RATIOS[st["r"]]
        a = image(st["im"], shape, st["dtype"])
        where = str(st)
        integer = a.dtype.kind in "iu"
        want_shape = tuple(int(np.round(n * ratio)) for n in shape)
        if st["op"] == "resample":
            if min(want_shape) < 1:
                return None
            if st["dtype"] == "int16" and False:
                return None
            dx = 3e-4
            got = np.asarray(core.call(bag, "resample", F.resample_2D, a, dx * ratio, dx))
            want_shape = rounded(shape, ratio, got.shape)
            self.judge(bag, got, a, resize(a, want_shape), want_shape, where, integer, 0.0)
            self.uniform(bag, st, got, 137.0, where)
            lin = core.call(bag, "resample", F.resample_2D, a.astype(float) * 2.5 - 7.0, dx * ratio, dx, again=False)
            bag.close(lin, resize(a, want_shape) * 2.5 - 7.0, "resampling-not-linear", 0,
                      self.tol(a.astype(float) * 2.5 - 7.0, np.asarray(lin)) + 1e-10, where)
            return got
        gsd = self.GSD * st["g"]
        dx = 2 * math.atan(gsd / 2 / self.RNG)
        h, df = self.otf(st["otf"], dx)
        ifov = gsd / self.RNG / ratio
        if min(want_shape) < 1:
            return None
        psf = np.array(F.otf_to_psf(h, df, dx))
        if min(round(n * ratio) for n in psf.shape) < 1:
            return None
        got, kern = core.call(bag, "apply", F.apply_otf_to_image, a, gsd, self.RNG, h, df, ifov)
        keep = np.array(got), np.array(kern)
        full = blur(a, psf if st["otf"] not in self.PHASED else mirrored(psf))
        want_shape = rounded(shape, ratio, keep[0].shape)
        self.judge(bag, np.asarray(got), a, resize(full, want_shape), want_shape, where, integer, 1.0)
        self.uniform(bag, st, np.asarray(got), 137.0, where)
        bag.close(kern, resize(psf, rounded(psf.shape, ratio, keep[1].shape)), "resampled-kernel", 0,
                  1e-5 * np.abs(psf).max(), where)
        if st["otf"] == "flat" and ratio == 1.0:
            # (an impulse response leaves the image as it is)
            bag.close(got, a, "flat-response-changes-the-image", 1e-6, 1e-4 if not integer else 1, where)
        if np.all(psf >= -1e-12):
            lo, hi = float(a.min()), float(a.max())
            bag.that(got.min() >= lo - 1e-4 * (1 + abs(lo)) and got.max() <= hi + 1e-4 * (1 + hi), "outside-input-range",
                     f"[{got.min()},{got.max()}] of [{lo},{hi}] {where}")
        # the returned arrays are the caller's: changing them does not change a later answer
        for x in (got, kern):
            if isinstance(x, np.ndarray) and x.flags.writeable:
                x[...] = 0
        got2, kern2 = core.call(bag, "apply", F.apply_otf_to_image, a, gsd, self.RNG, h, df, ifov, again=False)
        bag.that(core.same(got2, keep[0]) and core.same(kern2, keep[1]), "returned-array-shared", where)
        if not integer:
            b = image("uneven", shape, st["dtype"])
            s2, _ = core.call(bag, "apply", F.apply_otf_to_image, (a * 2 + b * 0.5).astype(a.dtype), gsd, self.RNG, h, df,
                              ifov, again=False)
            b2, _ = core.call(bag, "apply", F.apply_otf_to_image, b, gsd, self.RNG, h, df, ifov, again=False)
            bag.close(s2, keep[0] * 2.0 + b2 * 0.5, "not-linear", 1e-5, 2e-3, where)
        if st["im"] == "impulse" and ratio == 1.0 and shape == (90, 70) and not integer \
                and st["otf"] in ("narrow", "wide_x", "wide_y"):
            sx, sy = {"narrow": (1.3, 1.3), "wide_x": (3.0, 1.3), "wide_y": (1.3, 2.5)}[st["otf"]]
            y, x = np.mgrid[0:90, 0:70]
            g = np.exp(-0.5 * (((x - 35) / sx) ** 2 + ((y - 45) / sy) ** 2))
            g *= 200 / g.sum()
            bag.that(np.abs(g - keep[0]).max() <= 0.12 * g.max(), "impulse-not-spread-as-the-response-says",
                     f"{np.abs(g - keep[0]).max() / g.max()} {where}")
        return keep[0]

    def judge(self, bag, got, a, want, want_shape, where, integer, slack):
        bag.that(got.shape == want_shape, "output-size", f"{got.shape} of {a.shape} {where}")
        bag.that(got.dtype == a.dtype, "pixel-type-changed", f"{got.dtype} {where}")
        if got.shape != want_shape:
            raise core.Skip()
        if integer:
            info = np.iinfo(a.dtype)
            want = np.clip(want, info.min, info.max)
        tol = 1.02 + slack if integer else self.tol(a, got)
        bag.close(got.astype(float), want, "pixel-values", 0, tol, where)

    def tol(self, a, got, k=1.0):
        """Rounding: of the values; where positions in between are asked for, of those positions (single precision)."""
        m, span = float(np.abs(a).max()), float(a.max()) - float(a.min())
        if a.dtype != np.float64:
            return k * (2e-6 * m + 4e-7 * max(a.shape) * span)
        return k * (1e-10 * m if got.shape == a.shape else 1.5e-7 * m + 4e-7 * max(a.shape) * span)

    def uniform(self, bag, st, got, level, where):
        if st["im"] == "uniform":
            bag.that(np.all(np.abs(got.astype(float) - level) <= 1e-4 * level), "uniform-image-not-uniform",
                     f"{got.min()}..{got.max()} {where}")
