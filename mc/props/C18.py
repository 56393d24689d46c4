"""C18: a point-spread function sums to one, is centred and undoes the transform."""
import math

import numpy as np

from mc import core


def axis(n, df):
    """Frequencies of an n-sample response as the package lays them out (zero in the middle for odd n)."""
    return (np.arange(n) - (n - 1) / 2.0) * df


def fft_axis(n, df):
    return (np.arange(n) - n // 2) * df


class Prop:
    """Works in units of the input sample spacing: dx_in = 1/(n df) = 1e-6 rad."""
    world = "none"
    DX = 1e-6
    SIG = [(1.0, 1.0), (1.0, 2.0), (2.0, 1.0), (3.0, 1.2), (1.5, 4.0), (2.5, 2.5)]
    BROAD = [(6.0, 9.0), (14.0, 10.0), (20.0, 20.0), (33.0, 27.0), (80.0, 70.0)]  # (with small ratios)
    SHIFT = [(2, 0), (0, 3), (-1, 2), (4, -3)]  # rightwards, upwards
    RATIO = [1.0, 2.0, 3.0, 0.5, 1.37, 1.0 / 3.0, 0.71]
    assumptions = ["for even-sized responses the zero-frequency sample sits where the discrete Fourier transform puts it; "
                   "resampled kernels are compared within the error of bilinear interpolation"]

    def ns(self, tier):
        return [21, 31, 40, 64, 101] if tier == "quick" else [11, 12, 15, 16, 21, 22, 31, 40, 51, 64, 75, 100, 101, 151, 200]

    def bound(self, tier):
        return f"sizes {self.ns(tier)} x 6 Gaussian widths, flat, sinc, pillbox, obscured-pupil and 1..12-sized " \
               "responses x 7 sampling ratios"

    def states(self, tier):
        st = []  # a flat response's impulse cannot be sampled at a coarser spacing (documented precondition)
        for n in self.ns(tier):
            for r in self.RATIO:
                for k in range(len(self.SIG)):
                    st.append({"kind": "gauss", "n": n, "r": r, "k": k})
                for kind in ("flat", "sinc", "pill", "ring", "signed"):
                    if kind != "flat" or r >= 1:
                        st.append({"kind": kind, "n": n, "r": r, "k": 0})
        for n in (64, 100, 128, 160, 200, 201, 240):
            for k in range(len(self.BROAD)):
                for r in (1.0, 0.5, 0.25, 0.2, 0.125, 0.1, 0.3, 0.17, 0.06):
                    if 6 * max(self.BROAD[k]) <= n and min(self.BROAD[k]) * r >= 1.4:
                        st.append({"kind": "gauss", "n": n, "r": r, "k": len(self.SIG) + k})
        for n, k in ((500, 4), (501, 4), (1000, 4), (1001, 3), (1500, 4), (1501, 4)):
            for r in (1.0, 0.5, 0.25, 0.1, 0.2):
                st.append({"kind": "gauss", "n": n, "r": r, "k": len(self.SIG) + k})
        for n in (21, 40):
            for k in range(len(self.SIG)):
                for r in (5.0, 8.0, 0.04, 0.09):
                    st.append({"kind": "gauss", "n": n, "r": r, "k": k})
        # a linear phase displaces the kernel; unequal numbers of rows and columns
        for n in self.ns(tier):
            for k in range(len(self.SHIFT) if n > 16 else 0):
                for r in (1.0, 2.0, 3.0, 1.37):
                    st.append({"kind": "shift", "n": n, "r": r, "k": k})
            for m in (n + 1, n + 10, n // 2, 2 * n, 300):
                for r in (1.0, 2.0, 0.71, 3.0):
                    for k in (2, 3, 5):
                        st.append({"kind": "rect", "n": n, "m": m, "r": r, "k": k})
        for n in (128, 251, 256, 300, 512) if tier == "quick" else (128, 199, 251, 256, 257, 300, 400, 512, 640):
            for kind in ("gauss", "shift", "pill", "signed"):
                st.append({"kind": kind, "n": n, "r": 1.0, "k": 3 if kind == "gauss" else 0})
        for n in list(range(2, 13)):
            for r in self.RATIO:
                for kind in ("flat", "gauss"):
                    if r >= 1:
                        st.append({"kind": kind, "n": n, "r": r, "k": 0})
        return st

    def otf(self, st):
        n = st["n"]
        df = 1.0 / (n * self.DX)
        ax = fft_axis(n, df)
        u, v = np.meshgrid(fft_axis(st.get("m", n), df), -ax)
        q = np.hypot(u, v) * self.DX  # cycles per input sample, Nyquist 0.5
        if st["kind"] == "flat":
            return np.ones((n, n)), df
        if st["kind"] == "shift":
            x, y = self.SHIFT[st["k"]]
            return np.exp(-2 * (math.pi * 1.5 * q) ** 2 - 2j * math.pi * self.DX * (u * x + v * y)), df
        if st["kind"] in ("gauss", "rect"):
            sx, sy = (self.SIG + self.BROAD)[st["k"]]
            return np.exp(-2 * (math.pi * self.DX) ** 2 * ((sx * u) ** 2 + (sy * v) ** 2)), df
        if st["kind"] == "sinc":
            return np.sinc(4 * self.DX * u) * np.sinc(2 * self.DX * v) * np.exp(-2 * (math.pi * q) ** 2), df
        if st["kind"] == "pill":
            return np.clip(1 - q / 0.35, 0, 1), df
        if st["kind"] == "ring":
            return np.clip(1 - q / 0.45, 0, 1) * (0.6 + 0.4 * np.cos(12 * q)), df
        return np.exp(-(q / 0.2) ** 2) * np.cos(9 * q), df

    def observe(self, st, bag):
        from pybsm.otf import functional as F
        h, df = self.otf(st)
        n, r = st["n"], st["r"]
        where = str(st)
        psf = np.asarray(core.call(bag, "psf", F.otf_to_psf, h, df, 1 / (n * df) / r))
        bag.that(psf.ndim == 2 and psf.dtype.kind == "f" and np.all(np.isfinite(psf)), "not-finite", where)
        bag.close(psf.sum(), 1.0, "does-not-sum-to-one", 1e-9, 0, where)
        full = max(1, int(n * r))
        bag.that(max(psf.shape) <= full + 1 and min(psf.shape) >= min(full - 1, 10), "kernel-size", f"{psf.shape} of {full} {where}")
        # centroid: an even n has its peak half a sample past the middle
        slack = 0.5 * max(1.0, r, r * n / st.get("m", n)) + 0.02
        iy, ix = np.mgrid[0:psf.shape[0], 0:psf.shape[1]]
        cx, cy = (psf * ix).sum() - (psf.shape[1] - 1) / 2, (psf * iy).sum() - (psf.shape[0] - 1) / 2
        if full == 1:
            bag.that(psf.shape == (1, 1) and psf[0, 0] == 1.0, "single-sample-kernel", f"{psf} {where}")
        if st["kind"] == "shift":
            x, y = (self.SHIFT[st["k"]][0] * r, -self.SHIFT[st["k"]][1] * r)
            bag.that(max(abs(cx - x), abs(cy - y)) <= slack + 0.06 * max(abs(x), abs(y)) + 1e-6, "not-displaced-as-its-phase-says",
                     f"({cx:.3f},{cy:.3f}) instead of ({x},{y}) {where}")
            if r == 1.0:
                self.exact(st, h, psf, bag, where)
            return psf
        if st["kind"] == "rect":
            bag.that(max(abs(cx), abs(cy)) <= slack + 1e-6, "not-centred", f"({cx:.3f},{cy:.3f}) {where}")
            if st["m"] >= n >= 6 * max((self.SIG + self.BROAD)[st["k"]]):
                self.widths(st, psf, bag, where)
            return psf
        if st["kind"] in ("gauss", "flat", "pill"):
            # parity: cropping an odd kernel to an even window (or the reverse) moves the middle by half a sample
            bag.that(max(abs(cx), abs(cy)) <= slack + 1e-6, "not-centred", f"({cx:.3f},{cy:.3f}) {where}")
        if st["kind"] == "gauss" and min((self.SIG + self.BROAD)[st["k"]]) * r >= 0.9 and 6 * max((self.SIG + self.BROAD)[st["k"]]) <= n:
            w = 0.0 if n % 2 else 0.5 * r  # resampling keeps the place of the middle, the window is laid around it
            bag.that(0.7 * w - 0.05 <= min(cx, cy) and max(cx, cy) <= w + 0.05, "not-centred-on-zero-frequency",
                     f"({cx:.3f},{cy:.3f}) instead of {w} {where}")
        if n % 2 and r == 1.0:
            bag.that(max(abs(cx), abs(cy)) <= 0.51, "not-centred", f"({cx:.3f},{cy:.3f}) {where}")
            self.exact(st, h, psf, bag, where)
        elif n % 2 == 0 and r == 1.0:
            bag.that(max(abs(cx), abs(cy)) <= 0.51, "not-centred", f"({cx:.3f},{cy:.3f}) {where}")
        if st["kind"] == "flat" and (r == 1.0 or (n % 2 and r == 3.0)):
            pk = np.unravel_index(np.argmax(psf), psf.shape)
            mid = (np.asarray(psf.shape) - 1) / 2
            bag.that(np.all(np.abs(np.asarray(pk) - mid) <= 0.51), "flat-response-not-an-impulse", f"peak at {pk} of {psf.shape} {where}")
            if r == 1.0:
                bag.that(abs(psf.max() - 1) < 1e-9, "flat-response-not-an-impulse", where)
        if st["kind"] == "gauss" and n >= 21 and max((self.SIG + self.BROAD)[st["k"]]) * 6 <= n:
            # the window is large enough to hold 95 % of the blur, at any sampling
            held = 1.0
            for sig, m in zip((self.SIG + self.BROAD)[st["k"]], psf.shape[::-1]):
                held *= math.erf((m + 1) / 2 / (math.sqrt(2 * (sig * r) ** 2 + 0.3)))
            bag.that(held > 0.93 or min(psf.shape) >= full - 1, "crop-loses-blur", f"{held} {psf.shape} {where}")
        if st["kind"] == "gauss" and n >= 21:
            self.widths(st, psf, bag, where)
        return psf

    def exact(self, st, h, psf, bag, where):
        """At the response's own spacing the kernel is the inverse transform itself, cropped around its middle."""
        n, dx = st["n"], 1 / (st["n"] * (1.0 / (st["n"] * self.DX)))
        if int(n * dx / dx) != n:  # (the count of samples is rounded down, and rounding reaches the next one here)
            return
        k = np.arange(n) - n // 2
        ph = np.exp(2j * math.pi * np.outer(k, k) / n)
        # rows run down, v runs up; every response used here is symmetric about both axes
        full = np.real(ph @ h @ ph) / n ** 2
        m = psf.shape[0]
        bag.that(psf.shape[0] == psf.shape[1], "kernel-not-square", str(psf.shape))
        best = None
        for off in {(n - m) // 2, (n - m + 1) // 2}:
            w = full[off:off + m, off:off + m]
            if w.shape == psf.shape:
                w = w / w.sum()
                e = np.abs(w - psf).max()
                best = e if best is None else min(best, e)
        bag.that(best is not None and best <= 1e-9 + 1e-7 * np.abs(psf).max(), "not-the-inverse-transform", f"{best} {where}")
        # the window is large enough to hold 95 % of the blur (or everything)
        if m < n - 5:
            off = (n - m) // 2
            held = full[off:off + m, off:off + m].sum() / full.sum()
            bag.that(held > 0.95 - 1e-9, "crop-loses-blur", f"{held} {where}")

    def widths(self, st, psf, bag, where):
        """The kernel of a Gaussian response is a Gaussian of that width on each axis, in the new spacing."""
        sx, sy = (self.SIG + self.BROAD)[st["k"]]
        r = st["r"]
        if max(sx, sy) * 6 > st["n"] or min(sx, sy) * r < (0.9 if r >= 1 else 1.4) or min(sx, sy) < 1.5 and r != 1.0:
            return
        mx, my = psf.sum(axis=0), psf.sum(axis=1)
        tol = (0.02 if min(sx, sy) < 1.5 else 1e-3) if r == 1.0 and st["kind"] == "gauss" else 0.06
        bag.that(np.abs(np.outer(my, mx) - psf).max() <= tol * psf.max(), "gaussian-not-separable", where)
        for prof, sig, side in ((mx, sx, "horizontal"), (my, sy, "vertical")):
            best, m = np.inf, len(prof)
            for size in {math.floor(st["n"] * r + 1e-9), math.floor(st["n"] * r - 1e-9), round(st["n"] * r)}:
                for c in np.arange(-8 - int(2 * r), 9 + int(2 * r)) * 0.25 + (m - 1) / 2.0:
                    # resampling hits a whole number of samples; compare over the returned window
                    g = np.exp(-0.5 * ((np.arange(m) - c) / (sig * size / st["n"])) ** 2)
                    g = g / g.sum()
                    best = min(best, np.abs(g - prof).max() / g.max())
            bag.that(best <= tol, "gaussian-width", f"{side} {best:.5f} {psf.shape} {where}")
