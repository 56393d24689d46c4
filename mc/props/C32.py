"""C32: what the documentation says cannot be answered is refused with the documented error, never answered."""
import itertools
import warnings

import numpy as np

from mc import core
from mc import configs as cf

ZERO = [0, 0.0, -0.0]
NUM = [1e-6, 0.05, 1.0, 3, 1e4]
EMPTY = []


def arr(x):
    return np.array(x, dtype=float)


def grid(n):
    x = (np.arange(n) - n // 2) * 1.3e3
    return np.meshgrid(x, x)


W = {"two": [0.5e-6, 0.6e-6], "one": [4e-6], "three": [8e-6, 9e-6, 1.1e-5], "empty": EMPTY}
IMG = {"line": (7,), "row": (1, 9), "cube": (4, 5, 3), "scalar": (), "plane": (6, 8), "square": (21, 21)}


def image(name):
    s = IMG[name]
    return np.linspace(0.1, 1.0, int(np.prod(s))).reshape(s)


class Prop:
    """A state is one call: function, which documented precondition it breaks ("bad"), and its other arguments."""
    world = {"entries": [(1000.0, 1000.0, 1)]}
    neighbours = False
    assumptions = ["numbers are Python numbers (numpy's zeros divide to infinity with a warning instead)"]

    def bound(self, tier):
        return "every function with documented errors x every documented reason x the product of 3 zeros and 5 magnitudes " \
               "of the other arguments x sizes 1..3 of spectra and 6 image shapes; kernels and calibrations of every length"

    def states(self, tier):
        st = []

        def add(op, **kw):
            st.append({"op": op, **kw})

        for z, a, b in itertools.product(ZERO, NUM, NUM):
            add("altitude_along_slant_path", err="ZeroDivisionError", a=[a, b, z])
            add("nadir_angle", err="ZeroDivisionError", a=[a, b, z])
            add("object_domain_defocus_radii", err="ZeroDivisionError", a=[a, z, b])
            add("object_domain_defocus_radii", err="ZeroDivisionError", a=[a, b, z])
            add("image_domain_defocus_radii", err="ZeroDivisionError", a=[a, b, z])
            add("instantaneous_FOV", err="ZeroDivisionError", a=[a, z])
            for w in W:
                for op in ("at_focal_plane_irradiance", "cold_shield_self_emission", "cold_stop_self_emission", "optics_self_emission",
                           "signal_rate"):
                    add(op, err="ZeroDivisionError", w=w, D=z, f=a, x=b)
            for n in (1, 4, 5):
                add("circular_aperture_OTF", err="ZeroDivisionError", n=n, lam=z, D=a, x=min(b, 0.5))
                add("circular_aperture_OTF_with_defocus", err="ZeroDivisionError", n=n, lam=z, D=a, x=b)
                add("circular_aperture_OTF_with_defocus", err="ZeroDivisionError", n=n, lam=a * 1e-6, D=z, x=b)
                add("wind_speed_turbulence_OTF", err="ZeroDivisionError", n=n, r0=z, D=a, x=b)
                add("polychromatic_turbulence_OTF", err="ZeroDivisionError", n=n, rng=z, D=a, x=b)
                add("polychromatic_turbulence_OTF", err="IndexError", n=n, rng=b, D=a, x=b, w="empty")
            for n in (1, 3):
                add("coherence_diameter", err="ZeroDivisionError", lam=z, n=n + 1, x=a * 1e-15)
            for k in ("plane", "square"):
                add("otf_to_psf", err="ZeroDivisionError", img=k, df=z, dx=a)
                add("otf_to_psf", err="ZeroDivisionError", img=k, df=a, dx=z)
                add("resample_2D", err="ZeroDivisionError", img=k, dx=a, out=z)
                add("resample_2D", err="error", img=k, dx=z, out=a)
        for a, b in itertools.product(NUM, NUM):
            add("otf_to_psf", err="IndexError", img="line", df=a, dx=b)
            for k in ("line", "scalar"):
                add("resample_2D", err="IndexError", img=k, dx=a, out=b)
        for x in NUM:
            add("coherence_diameter", err="ValueError", lam=x, n=0, x=x)
        for n in range(0, 6):
            for m in range(0, 6):
                if n != m:
                    add("resample_by_wavelength", err="ValueError", n=n, m=m)
        for k, v in itertools.product((0, 1, 2, 3), repeat=2):
            if k < 2 or v < 2 or k != v:
                for im in ("plane", "line"):
                    add("img_to_reflectance", err="ValueError", n=k, m=v, img=im)
        for x in (0.0, 0.5, 0.9, 0.99, 1.01, 1.1, 2.0, -1.0, 100.0, "nan", "inf", "-inf"):
            for s in ((1,), (3,), (1, 3), (3, 1), (3, 3), (2, 5), (7, 7)):
                add("noise_gain", err="ValueError", total=x, s=list(s))
        for k in ("line", "scalar"):
            add("total_radiance", err="IndexError", img=k, x=0.15)
            add("total_radiance", err="IndexError", img=k, x=1.0)
            add("reflectance_to_photoelectrons", err="IndexError", img=k, x=1e-3)
        for x in NUM:
            add("weighted_by_wavelength", err="IndexError", n=0, m=0)
        # empty spectra: an empty answer, announced by a warning
        for a, b in itertools.product(NUM, NUM):
            for op in ("at_focal_plane_irradiance", "cold_shield_self_emission", "cold_stop_self_emission",
                       "optics_self_emission", "blackbody_radiance", "focal_plane_integrated_irradiance"):
                add(op, warn=True, w="empty", D=a, f=b, x=a)
            for e in itertools.product((True, False), repeat=5):
                if any(e):
                    add("signal_rate", warn=True, w="empty", D=a, f=b, x=a, e=list(e))
        return st

    def call(self, st):
        from pybsm import geospatial as G, noise as N
        from pybsm.otf import functional as F
        from pybsm.radiance import functional as R
        from pybsm.simulation import functional as S
        op = st["op"]
        for m in (G, F, R, S, N):
            if hasattr(m, op) and getattr(getattr(m, op), "__module__", "").startswith("pybsm"):
                fn = getattr(m, op)
        w = arr(W[st["w"]]) if "w" in st else None
        L = None if w is None else 1e6 * (1 + np.arange(w.size))
        if "a" in st:
            return fn, tuple(st["a"])
        if op == "at_focal_plane_irradiance":
            return fn, (st["D"], st["f"], L)
        if op == "cold_shield_self_emission":
            return fn, (w, 80.0 + st["x"], st["D"], st["f"])
        if op == "cold_stop_self_emission":
            return fn, (w, 250.0, min(st["x"], 1.0), st["D"], st["f"])
        if op == "optics_self_emission":
            return fn, (w, 250.0, 0.1, min(st["x"], 1.0), st["D"], st["f"])
        if op == "blackbody_radiance":
            return fn, (w, 270.0 + st["x"])
        if op == "focal_plane_integrated_irradiance":
            return fn, (L, 0.0, 0.9, 0.1, w, 1e-8, 270.0, st["D"], st["f"])
        if op == "signal_rate":
            e = st.get("e") or [False] * 5
            full = np.array([0.5e-6, 0.6e-6])
            v = [arr([]) if gone else x for gone, x in zip(e, (full, np.ones(2), np.ones(2), np.ones(2), np.zeros(2)))]
            if not st.get("warn"):
                v = [w, L, np.ones(w.size), np.ones(w.size), np.zeros(w.size)]
            return fn, (v[0], v[1], v[2], st["D"], st["f"], 1e-5, 1e-5, v[3], v[4], st["x"])
        if op in ("circular_aperture_OTF", "circular_aperture_OTF_with_defocus", "wind_speed_turbulence_OTF",
                  "polychromatic_turbulence_OTF"):
            u, v = grid(st["n"])
            if op == "circular_aperture_OTF":
                return fn, (u, v, st["lam"], st["D"], st["x"])
            if op == "circular_aperture_OTF_with_defocus":
                return fn, (u, v, st["lam"], st["D"], 2.0, st["x"])
            if op == "wind_speed_turbulence_OTF":
                return fn, (u, v, 5e-7, st["D"], st["r0"], 1e-3, st["x"])
            w = arr(W[st.get("w", "two")])
            return fn, (u, v, w, np.ones(w.size), 900.0, st["rng"], st["D"], 21.0, 1.7e-14, 1e-3, st["x"])
        if op == "coherence_diameter":
            return fn, (st["lam"], np.arange(st["n"]) * 10.0, np.full(st["n"], st["x"]))
        if op == "otf_to_psf":
            return fn, (image(st["img"]), st["df"], st["dx"])
        if op == "resample_2D":
            return fn, (image(st["img"]), st["dx"], st["out"])
        if op == "resample_by_wavelength":
            return fn, (4e-7 + np.arange(st["n"]) * 1e-8, np.ones(st["m"]), np.array([4.05e-7, 4.1e-7]))
        if op == "img_to_reflectance":
            return fn, (image(st["img"]), np.linspace(0.2, 0.9, st["n"]), np.linspace(0.1, 0.8, st["m"]))
        if op == "noise_gain":
            k = np.zeros(st["s"])
            k.ravel()[0] = float(st["total"]) - 0.25 * (k.size > 1)
            k.ravel()[-1] += 0.25 * (k.size > 1)
            return fn, (k,)
        if op == "total_radiance":
            return fn, (image(st["img"]), st["x"], 290.0)
        if op == "reflectance_to_photoelectrons":
            return fn, (image(st["img"]), cf.build_sensor(cf.values(cf.SENSOR, {})), st["x"])
        if op == "weighted_by_wavelength":
            return fn, (arr([]), arr([]), lambda lam: np.ones((2, 2)) * lam)
        raise AssertionError(op)

    def observe(self, st, bag):
        fn, args = self.call(st)
        before = core.snap(args)
        bag.ops += 1
        with warnings.catch_warnings(record=True) as seen, np.errstate(all="ignore"):
            warnings.simplefilter("always")
            try:
                out = fn(*args)
                got = None
            except Exception as e:
                out, got = None, e
        bag.that(core.snap(args) == before, "refused-call-changes-its-input", str(st))
        if "err" in st:
            bag.that(got is not None, "answered-what-cannot-be-answered", f"{str(out)[:150]} {st}")
            if got is not None:
                kinds = {c.__name__ for c in type(got).__mro__}
                bag.that(st["err"] in kinds, "another-error-than-documented", f"{type(got).__name__}: {got} {st}")
            return [type(got).__name__]
        flagged = any(issubclass(x.category, UserWarning) and "empty" in str(x.message).lower() for x in seen)
        bag.that(flagged, "empty-input-not-announced", f"{got!r} {st}")
        if st["op"] != "signal_rate":
            bag.that(got is None and np.size(out) == 0, "empty-input-without-an-empty-answer", f"{got!r} {str(out)[:80]} {st}")
        return [flagged, type(got).__name__]
