"""C30: plots show the evaluated quantities."""
import math

import numpy as np

from mc import chain
from mc import configs as cf
from mc import core, ref

NAMES = {"aperture": "ap_OTF", "turbulence": "turb_OTF", "detector": "det_OTF", "jitter": "jit_OTF", "drift": "drft_OTF",
         "wavefront": "wav_OTF", "image processing": "filter_OTF", "system": "system_OTF"}
TERMS = {"Total": "total_noise", "Scene": "scene_noise", "Path": "path_noise", "Emission / Stray": "self_emission_noise",
         "Dark Current": "dark_current_noise", "Quantization": "quantization_noise", "Readout": None}
ANGLES = [0.0, math.pi / 2, math.pi / 4, 0.3, 1.2, 2.0, math.pi, 4.0, 3 * math.pi / 2, 5.9, 2 * math.pi, -0.4, -math.pi / 2,
          9.0, -20.0]
MAXV = [0, 1, 5000, 0.25]
SHOW_SHAPES = [(1, 1), (1, 7), (7, 1), (3, 5), (5, 3), (24, 24), (64, 31), (301, 277), (1100, 16), (4, 6, 3), (40, 30, 3),
               (5, 4, 4)]
SHOW_TYPES = ["uint8", "uint16", "float64", "float32"]
GSDS = [0.05, 1.0, 3.19 / 160.0, 1e-3, 30.0, 2500.0]


class Prop:
    neighbours = False
    world = {"entries": cf.ENTRIES, "small_index": True}
    chunk = 12
    assumptions = ["matplotlib's Agg renderer; figures drawn on fresh axes; off the axes the plotted frequency is the "
                   "bilinear slice of the radial frequency (within 0.15 of a sample)"]

    def __init__(self):
        self.P = chain.parameters(False)
        self.P["spectral"] = ["vis", "mwir_qe", "wide", "lwir"]
        for p in ("dark_current", "other_irradiance", "int_time"):
            self.P[p] = cf.NARROW[p]

    def angles(self, tier):
        return ANGLES if tier == "quick" else sorted(set(ANGLES + [k * math.pi / 24 for k in range(-60, 61)]))

    def bound(self, tier):
        return f"all single deviations{'' if tier == 'quick' else ' and pairs'} of the evaluation's parameters x two models; " \
               f"{len(self.angles(tier))} angles and {len(MAXV)} axis limits each; reference images of {len(SHOW_SHAPES)} " \
               f"shapes x {len(SHOW_TYPES)} pixel types x {len(GSDS)} sample distances shown"

    def states(self, tier):
        lat = core.lattice(self.P, 1)
        if tier == "thorough":
            core_p = ("spectral", "f", "p_x", "p_y", "filter_kernel", "max_n", "D", "cn2_at_1m", "read_noise", "da_x", "s_y",
                      "int_time", "dark_current", "optics_emissivity")
            seen = {core.key(d) for d in lat}
            lat += [d for d in core.lattice({p: self.P[p] for p in core_p}, 2) if core.key(d) not in seen]
        shown = [{"show": list(sh), "type": t, "gsd": g} for sh in SHOW_SHAPES for t in SHOW_TYPES for g in GSDS
                 if not (len(sh) == 3 and t == "uint16")]
        return shown + [{"dev": d, "model": m} for m in ("niirs", "niirs5") for d in lat if not
                (m == "niirs5" and "filter_kernel" in d and d["filter_kernel"] > 1)]

    def setup(self):
        import matplotlib
        matplotlib.use("Agg", force=True)

    def lines(self, ax):
        """Plotted curves by their legend entry."""
        lg = ax.get_legend()
        if lg is None:
            return {}
        out = {}
        curves = ax.get_lines()
        texts = [t.get_text() for t in lg.get_texts()]
        for i, (t, h) in enumerate(zip(texts, lg.get_lines())):
            match = [c for c in curves if c.get_color() == h.get_color() and c.get_linestyle() == h.get_linestyle()
                     and c.get_linewidth() == h.get_linewidth()]
            out[t] = match[0] if len(match) == 1 else (curves[i] if i < len(curves) else None)
        return out

    def observe(self, st, bag):
        import matplotlib.pyplot as plt
        from pybsm import metrics as M
        if "show" in st:
            return self.show(st, bag)
        v = core.values(self.P, st["dev"])
        if chain.atmosphere(self.w.atlas, v, bag) is None:
            return None
        s, sc = cf.build_sensor(v), cf.build_scenario(v, v["interp"])
        bag.ops += 1
        try:
            nm = getattr(M, st["model"])(s, sc, v["interp"])
        except Exception as e:
            bag.fail("evaluation-raises", repr(e))
            raise core.Skip() from e
        before = core.snap(nm)
        try:
            for a in self.angles(self.tier):
                self.mtf(nm, a, v, bag)
            for m in MAXV:
                self.noise(nm, m, v, bag)
        finally:
            plt.close("all")
        bag.that(core.snap(nm) == before, "plotting-changes-the-evaluation", st)
        return [float(nm.snr.total_noise), float(nm.df)]

    settings = None

    def draw(self, bag, kind, fn, *a):
        import matplotlib
        bag.ops += 1
        if self.settings is None:
            self.settings = dict(matplotlib.rcParams)
        try:
            fn(*a)
        except Exception as e:
            bag.fail(f"{kind}-raises", f"{type(e).__name__}: {e} {a[1:]}")
            raise core.Skip() from e
        now = dict(matplotlib.rcParams)
        if now != self.settings:
            bag.fail(f"{kind}-changes-settings", f"{[k for k in now if now[k] != self.settings.get(k)][:4]}")
            matplotlib.rcParams.update(self.settings)

    def show(self, st, bag):
        """A reference image is drawn pixel by pixel, first row on top, over its size on the ground."""
        import matplotlib.pyplot as plt
        from pybsm.simulation import RefImage
        sh, gsd = tuple(st["show"]), st["gsd"]
        k = np.arange(math.prod(sh)).reshape(sh)
        img = ((k * 37 + k // 11) % 251).astype(np.uint8)
        if st["type"].startswith("float"):
            img = (img / 251.0).astype(st["type"]) * (1.0 if len(sh) == 3 else 40.0)
        else:
            img = img.astype(st["type"]) * (1 if st["type"] == "uint8" else 200)
        img = img.astype(st["type"])
        ri = RefImage(img, gsd, np.array([3.0, 200.0]), np.array([0.1, 0.8]), "shown")
        before, keep = core.snap(vars(ri)), img.copy()
        plt.close("all")
        try:
            self.draw(bag, "image-plot", lambda r: r.show(), ri)
            ax = plt.gca()
            if bag.that(len(ax.images) == 1, "image-drawn", len(ax.images)):
                im = ax.images[0]
                got = np.asarray(im.get_array())
                bag.that(got.shape == sh and np.array_equal(np.asarray(got, dtype=float), np.asarray(keep, dtype=float)),
                         "image-pixels", st)
                w, h = sh[1] * gsd, sh[0] * gsd
                bag.close(np.array(im.get_extent()), np.array([-w / 2, w / 2, -h / 2, h / 2]), "image-extent", 1e-9)
                bag.that(im.origin == "upper", "image-upside-down", im.origin)
                lo, hi = ax.get_ylim()
                left, right = ax.get_xlim()
                bag.that(lo < hi and left < right, "image-axes-flipped", (lo, hi, left, right))
            bag.that("X" in ax.get_xlabel() and "Y" in ax.get_ylabel() and "(m)" in ax.get_xlabel()
                     and "(m)" in ax.get_ylabel(), "image-labels", (ax.get_xlabel(), ax.get_ylabel()))
            bag.that(core.snap(vars(ri)) == before and ri.img is img, "showing-changes-the-image", st)
        finally:
            plt.close("all")
        return None

    def mtf(self, nm, ang, v, bag):
        import matplotlib.pyplot as plt
        from pybsm.metrics.functional import plot_common_MTFs
        plt.close("all")
        self.draw(bag, "response-plot", plot_common_MTFs, nm, ang)
        ax = plt.gca()
        curves = self.lines(ax)
        bag.that(set(NAMES) <= set(curves) and len(ax.get_lines()) == len(NAMES), "response-plot-legend", sorted(curves))
        for name, comp in NAMES.items():
            c = curves.get(name)
            if c is None:
                bag.fail("response-missing", f"{name} at {ang}")
                continue
            x, y = (np.asarray(q, dtype=float) for q in c.get_data())
            want = np.abs(ref.slice2d(np.asarray(getattr(nm.otf, comp)), ang))
            bag.close(y, want, f"plotted-{name}", 1e-7, 1e-7, detail=f"angle {ang}")
            step = float(nm.df) * 1e-3 / v["f"]
            on_axis = abs(math.sin(2 * ang)) < 1e-12
            bag.close(x, np.arange(len(want)) * step, "plotted-frequency", 1e-6, (1e-6 if on_axis else 0.15) * step,
                      detail=f"{name} angle {ang}")
        top = max([float(np.max(t.get_ydata())) for t in ax.get_lines()] + [0.0])
        end = max([float(np.max(t.get_xdata())) for t in ax.get_lines()] + [0.0])
        lo, hi = ax.get_ylim()
        left, right = ax.get_xlim()
        bag.that(lo <= 0.05 and hi >= 0.99 * top and left <= 0.02 * end and right >= 0.9 * end, "response-cut-off", f"{lo} {hi} {top} {left} {right} {end}")
        nyq = 0.5 / (v["p_x"] / v["f"]) / v["f"] * 1e-3
        marks = [float(t.xy[0]) for t in ax.texts if hasattr(t, "xy")]
        bag.that(len(marks) == 1 and abs(marks[0] - nyq) <= 1e-9 * nyq, "nyquist-mark", f"{marks} instead of {nyq}")
        if ang in (0.0, 0.3):
            bag.ops += 1
            plt.gcf().canvas.draw()

    def noise(self, nm, mx, v, bag):
        import matplotlib.pyplot as plt
        from pybsm.metrics.functional import plot_noise_terms
        # a figure of its own, whatever is open already
        ink = lambda n: [(len(a.lines), len(a.patches), len(a.texts), a.get_title()) for a in plt.figure(n).axes]  # noqa: E731
        was = {n: ink(n) for n in plt.get_fignums()}
        self.draw(bag, "noise-plot", plot_noise_terms, nm, mx)
        new = [n for n in plt.get_fignums() if n not in was]
        bag.that(len(new) == 1 and all(n in plt.get_fignums() and ink(n) == was[n] for n in was), "noise-plot-in-an-open-figure",
                 f"{len(was)} open, {len(new)} new")
        fig = plt.figure(new[-1]) if new else plt.gcf()
        ax = plt.gca()
        fig.canvas.draw()
        bars = [b for b in ax.patches if hasattr(b, "get_height")]
        bag.that(len(bars) == len(TERMS), "noise-bars", len(bars))
        # the label printed under each bar
        ticks = [(float(x), t.get_text().strip()) for x, t in zip(ax.get_xticks(), ax.get_xticklabels())]
        found = {}
        for b in bars:
            mid = b.get_x() + b.get_width() / 2
            lab = [t for x, t in ticks if abs(x - mid) < 0.25]
            found[lab[0] if lab else f"?{mid}"] = float(b.get_y() + b.get_height())
        for lab, field in TERMS.items():
            want = float(np.asarray(getattr(nm.snr, field))) if field else v["read_noise"]
            if lab not in found:
                bag.fail("noise-term-missing", f"{lab} not in {sorted(found)}")
            else:
                bag.close(found[lab], want, f"noise-{lab}", 1e-9)
        title = ax.get_title()
        words = title.replace("%", " ").split()
        nums = [int(w) for w in words if w.lstrip("-").isdigit()]
        want = [int(nm.snr.tgt_n), int(nm.snr.tgt_n - nm.snr.bkg_n), int(nm.snr.well_fraction * 100.0)]
        bag.that(nums == want, "noise-title", f"{title!r}, expected {want}")
        if mx == 0:
            lo, hi = ax.get_ylim()
            top = max(found.values(), default=0.0)
            bag.that(lo <= 0 and (top == 0 or top <= hi <= 2 * top), "noise-automatic-limit", f"{lo} {hi} for {top}")
        if mx > 0:
            lo, hi = ax.get_ylim()
            bag.that(lo == 0 and abs(hi - mx) < 1e-12, "noise-axis-limit", f"{lo} {hi} for {mx}")
