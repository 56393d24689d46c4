"""C12: every blur component equals its documented formula, is a proper transfer function and is oriented correctly."""
import numpy as np

from mc import configs as cf
from mc import core, ref
from mc.core import Al

# name -> (parameter alphabets in positional order, reference, bounded magnitude, real and even, x params, y params)
FR = 5.0e4  # rad^-1 scale of the frequency grids


def _comp():
    pos = {"jitter_OTF": ({"s_x": Al([0.0, 1e-6, 7e-6], [1e-9, 1e-7, 1e-4]), "s_y": Al([0.0, 3e-6, 1e-5], [1e-9, 1e-7, 1e-4])}, ref.jitter, True, "s_x", "s_y"),
           "drift_OTF": ({"a_x": Al([0.0, 4e-6, -9e-6, 5e-5], [1e-9, -1e-7, 1e-3]), "a_y": Al([0.0, 6e-6, -2e-5, 3e-5], [1e-9, -1e-7, 1e-3])}, ref.drift, True, "a_x", "a_y"),
           "gaussian_OTF": ({"bx": Al([1e-5, 3e-5, 2e-6], [1e-9, 1.0001e-5, 1e-3]), "by": Al([1e-5, 5e-6, 4e-5], [1e-9, 1.0001e-5, 1e-3])}, ref.gaussian, True, "bx", "by"),
           "detector_OTF": ({"w_x": Al([8e-6, 1.7e-5, 0.0], [1e-9, 8.001e-6, 1e-4]), "w_y": Al([8e-6, 5e-6, 0.0], [1e-9, 8.001e-6, 1e-4]), "f": Al([1.0, 0.3], [20.0])}, ref.detector, True,
                            "w_x", "w_y"),
           "detector_OTF_with_aggregation": ({"w_x": [8e-6, 1.2e-5], "w_y": [8e-6, 5e-6], "p_x": [8e-6, 1.5e-5],
                                              "p_y": [8e-6, 1.0e-5], "f": [1.0, 0.3], "n": Al([1, 2, 3, 4], [7, 16])},
                                             ref.detector_agg, True, ("w_x", "p_x"), ("w_y", "p_y")),
           "defocus_OTF": ({"D": [0.1, 0.3], "w_x": Al([0.0, 5e-6, 2e-5], [1e-9, 1e-7]), "w_y": Al([0.0, 7e-6, 1e-5], [1e-9, 1e-7])},
                           lambda u, v, D, a, b: ref.defocus_gauss(u, v, a, b), True, "w_x", "w_y"),
           "cte_OTF": ({"p_x": [8e-6, 2e-5], "p_y": [8e-6, 1.3e-5], "nx": Al([0, 100, 3000], [2.5, 1, 700.3]), "ny": Al([0, 50, 2000], [7.3, 1, 300.7]),
                        "ph": Al([1, 3, 4], [2.5, 3.7]), "eff": Al([0.99999, 0.9995, 1.0], [0.9999999, 0.9]), "f": [1.0, 0.5]}, ref.cte, True,
                       ("p_x", "nx"), ("p_y", "ny")),
           "diffusion_OTF": ({"alpha": Al([1e4, 3e5, 2e6], [1.0, 1e8]), "ald": [5e-6, 0.0, 2e-5], "al0": [1e-4, 2e-5], "f": [1.0, 0.25]},
                             ref.diffusion, True, None, None),
           "wavefront_OTF": ({"lam": [0.5e-6, 4e-6], "pv": Al([0.0, 0.3, 2.0], [1e-4, 0.01, 0.05]), "L_x": [0.1, 0.03], "L_y": [0.1, 0.4]},
                             ref.wavefront, True, "L_x", "L_y"),
           "wavefront_OTF_2": ({"cutoff": [2e5, 1e5, 6e4], "rms": Al([0.0, 0.05, 0.18, 0.25], [1e-4, 0.01, 0.1799, 0.36, 0.7, 1.5, 5.0])}, ref.wavefront2, None, None,
                               None)}
    return pos


COMP = {name: (core.widen(c[0]),) + c[1:] for name, c in _comp().items()}
OFF = {"jitter_OTF": ("s_x", "s_y"), "drift_OTF": ("a_x", "a_y"), "detector_OTF": ("w_x", "w_y"),
       "defocus_OTF": ("w_x", "w_y"), "cte_OTF": ("nx", "ny"), "wavefront_OTF": ("pv",)}


def grids():
    s = np.array([-1.0, -0.63, -0.25, -1e-3, 0.0, 1e-3, 0.1, 0.4, 0.77, 1.0]) * FR
    uu, vv = np.meshgrid(s, s[::-1])
    g = {"square": (uu, vv), "tall": (uu[:, 3:6], vv[:, 3:6] * 1.7), "wide": (uu[2:5], vv[2:5]),
         "line_u": (s, np.zeros(s.size)), "line_v": (np.zeros(s.size), s), "single": (np.array([3e4]), np.array([-2e4])),
         "zero": (np.zeros(3), np.zeros(3)), "fortran": (np.asfortranarray(uu), np.asfortranarray(vv)),
         "int": (np.array([0, 10000, -20000, 31000]), np.array([7000, 0, -20000, 45000])),
         "high": (uu * 6, vv * 6)}
    return g


# many frequencies: for every component with its last and its middle parameter values
LONG = np.linspace(-1, 1, 20011) * FR
BIG = {"long": (LONG, LONG[::-1] * 0.3), "large": tuple(np.meshgrid(np.linspace(-1, 1, 301) * FR, np.linspace(1, -1, 277) * FR)),
       "whole": (np.arange(-90000, 90001, 613, dtype=np.int32), np.arange(-90000, 90001, 613, dtype=np.int32)[::-1])}

_S = np.array([-1.0, -0.63, -0.25, 0.0, 1e-3, 0.1, 0.4, 0.77, 1.0])
FAR = {f"x{k:g}": tuple(np.meshgrid(_S * FR * k, _S[::-1] * FR * k * 0.7)) for k in (1e-6, 1e-3, 0.1, 20, 150, 1e3, 1e4, 1e6)}
FAR.update({f"sweep{i}": (np.geomspace(10.0 ** (i + 2), 10.0 ** (i + 5), 400), np.geomspace(10.0 ** (i + 5), 10.0 ** (i + 2), 400) / 3) for i in range(4)})

GR = grids()
ALLG = {**GR, **BIG, **FAR}
NOHIGH = {"wavefront_OTF_2": 1.0}


class Prop:
    world = "none"
    probes = {"quick": (150, 12, 12), "thorough": (2000, 40, 100)}
    assumptions = ["signed frequency grids of ten shapes; parameter alphabets listed in the source"]

    def bound(self, tier):
        return "full parameter product of every component on every grid; single deviations on grids of 0.05 to 5e10 cycles per radian and logarithmic sweeps; all image-filter kernels of the alphabet on " \
               "grids inside and beyond Nyquist; TDI full product"

    def states(self, tier):
        st = []
        for name, (par, *_) in COMP.items():
            devs = core.lattice(par, len(par) if len(par) < 5 or tier == "thorough" else 3)
            for d in devs:
                for g in (GR if len(devs) < 120 or tier == "thorough" else ("square", "tall", "int", "zero")):
                    st.append({"op": name, "dev": d, "g": g})
            for d in ({}, {p: 1 for p in par}, {p: min(2, len(par[p]) - 1) for p in par}):
                st += [{"op": name, "dev": d, "g": g} for g in BIG]
            for d in core.lattice(par, 1):
                st += [{"op": name, "dev": d, "g": g} for g in FAR]
        tdi = {"w": [8e-6, 2e-5], "n": Al([1, 4, 16.0], [2, 3, 25.0, 64, 96.0, 256, 1000.0, 1500, 2048, 5000]),
               "ph": Al([1, 2, 4], [3, 8]), "beta": Al([1.0, 1.02, 0.9], [1.0000001, 1.0001, 0.5]), "f": [1.0, 0.5]}
        for d in core.lattice(tdi, 5, (), [{"beta": 1}, {"beta": 1, "ph": 2}, {"beta": 2, "n": 2}, {"beta": 3, "n": 8}]):
            for g in ("line_u", "square", "single", "int"):
                st.append({"op": "tdi", "dev": d, "g": g})
        st += [{"op": "tdi", "dev": d, "g": g} for d in ({}, {"n": 1, "beta": 1}, {"beta": 2, "n": 2}) for g in BIG]
        st += [{"op": "tdi", "dev": d, "g": g} for d in core.lattice(tdi, 1) for g in FAR]
        st += [{"op": "tdi", "dev": {"n": n, "ph": ph, "beta": b}, "g": "line_u"} for n in range(8, 13) for ph in (0, 2) for b in (1, 2, 5)]
        self.TDI = tdi
        for k in cf.KERNELS:
            if k == "flat1":
                continue
            for ifov in (8e-6, 1.3e-5) if tier == "quick" else (8e-6, 1.3e-5, 2e-6):
                for g in ("square", "line_u", "line_v", "single", "nyquist", "zero"):
                    st.append({"op": "filter", "k": k, "ifov": ifov, "g": g})
        st.append({"op": "filter0"})
        # the diffusion coefficient may be an array: one value per frequency
        st += [{"op": "alpha", "a": a, "ald": ald, "g": g} for a in range(4) for ald in (5e-6, 0.0, 2e-5)
               for g in ("square", "tall", "line_u", "single", "zero", "fortran", "large", "long")]
        return st

    TDI = None

    def observe(self, st, bag):
        from pybsm.otf import functional as F
        if st["op"] == "tdi":
            p = core.values(self.TDI, st["dev"])
            u = ALLG[st["g"]][0]
            got = core.call(bag, "tdi", F.tdi_OTF, u, p["w"], p["n"], p["ph"], p["beta"], p["f"])
            bag.close(got, ref.tdi(u, p["w"], p["n"], p["ph"], p["beta"], p["f"]), "tdi-formula", 1e-9, 1e-9)
            z = core.call(bag, "tdi", F.tdi_OTF, np.zeros(2), p["w"], p["n"], p["ph"], p["beta"], p["f"])
            bag.close(z, np.ones(2), "tdi-not-one-at-zero-frequency", 1e-12)
            bag.that(np.all(np.abs(got) <= 1 + 1e-9), "tdi-magnitude-above-one", st)
            neg = core.call(bag, "tdi", F.tdi_OTF, -u, p["w"], p["n"], p["ph"], p["beta"], p["f"])
            bag.close(neg, np.conj(got), "tdi-not-hermitian", 1e-9, 1e-9)
            return got
        if st["op"] == "alpha":
            u, v = ALLG[st["g"]]
            i = np.arange(u.size).reshape(u.shape)
            alpha = [1e4 * 1.01 ** (i % 700), 3e5 + 0.0 * i, 1e3 * (1 + i * 7 % 11), np.where(i % 2 == 0, 1.0, 1e8)][st["a"]]
            got = core.call(bag, "diffusion_OTF", F.diffusion_OTF, u, v, alpha, st["ald"], 1e-4, 1.0)
            bag.close(got, ref.diffusion(u, v, alpha, st["ald"], 1e-4, 1.0), "diffusion_OTF-formula", 1e-9, 1e-12)
            return got
        if st["op"] == "filter":
            return self.filter(st, bag, F)
        if st["op"] == "filter0":
            # a sum-to-one kernel leaves the mean level alone: response one at zero frequency
            out = {}
            for k in cf.KERNELS:
                if k == "flat1":
                    continue
                h = core.call(bag, "filter", F.filter_OTF, np.zeros(1), np.zeros(1), cf.kernel(k), 8e-6)
                out[k] = float(h[0])
            if any(abs(x - 1) > 1e-9 for x in out.values()):
                worst = max(abs(x - 1) for x in out.values())
                kind = "filter-not-one-at-zero-frequency" + ("" if worst < 0.004 else "-by-more-than-grid-resolution")
                bag.fail(kind, ", ".join(f"{k}: {x:.6f}" for k, x in sorted(out.items())))
            return out
        par, fun, bounded, xs, ys = COMP[st["op"]]
        p = core.values(par, st["dev"])
        u, v = ALLG[st["g"]]
        fn = getattr(F, st["op"])
        args = list(p.values())
        got = core.call(bag, st["op"], fn, u, v, *args)
        want = fun(u, v, *args)
        bag.close(got, want, st["op"] + "-formula", 1e-9, 1e-12)
        zero = np.zeros((2, 2))
        h0 = core.call(bag, st["op"], fn, zero, zero, *args, again=False)
        bag.close(h0, np.ones((2, 2)), st["op"] + "-not-one-at-zero-frequency", 1e-9)
        if bounded:
            bag.that(np.all(np.abs(got) <= 1 + 1e-9), st["op"] + "-magnitude-above-one", float(np.max(np.abs(got))))
        rev = core.call(bag, st["op"], fn, -u, -v, *args, again=False)
        bag.close(rev, got, st["op"] + "-not-symmetric", 1e-9, 1e-12)
        bag.that(np.all(np.isfinite(got)), st["op"] + "-not-finite", st)
        if st["op"] in OFF:
            q = dict(p)
            for n in OFF[st["op"]]:
                q[n] = 0.0
            off = core.call(bag, st["op"], fn, u, v, *q.values(), again=False)
            bag.close(off, np.ones(np.shape(u)), st["op"] + "-zero-amplitude-has-effect", 1e-12)
        return got

    def probe_kind(self, s):
        return s["op"], s.get("k") if s["op"] == "filter" else None

    def filter(self, st, bag, F):
        k, ifov = cf.kernel(st["k"]), st["ifov"]
        ny = 0.5 / ifov
        if st["g"] == "nyquist":
            s = np.array([-2.3, -1.6, -0.9, -0.3, 0.2, 0.55, 0.95, 1.3, 1.9, 2.4]) * ny
            u, v = np.meshgrid(s, s[::-1])
        else:
            u, v = (np.asarray(a, float) for a in ALLG[st["g"]])
            sc = 0.97 * ny / max(np.abs(u).max(), np.abs(v).max(), 1.0)
            u, v = u * sc, v * sc
        got = core.call(bag, "filter", F.filter_OTF, u, v, k, ifov, again=False)
        want = ref.kernel_mtf(u, v, k, ifov)
        bag.close(got, want, "filter-formula", 0.0, ref.kernel_mtf_tol(k))
        return np.asarray(got)

    def edges(self, states):
        groups = {}
        for i, s in enumerate(states):
            if s["op"] in COMP:
                groups.setdefault((s["op"], s["g"]), []).append(i)
        for ii in groups.values():
            sub = [states[i] for i in ii]
            for a, b in core.lattice_edges(sub, "dev"):
                yield ii[a], ii[b]

    def relate(self, a, oa, b, ob, bag):
        """Frame condition: a horizontal parameter has no effect where u = 0, a vertical one none where v = 0."""
        (p,) = set(b["dev"]) - set(a["dev"])
        _, _, _, xs, ys = COMP[a["op"]]
        if xs is None:
            return
        xs, ys = (xs,) if isinstance(xs, str) else xs, (ys,) if isinstance(ys, str) else ys
        u, v = ALLG[a["g"]]
        m = (u == 0) if p in xs else (v == 0) if p in ys else np.zeros(np.shape(u), bool)
        if m.any():
            bag.close(np.asarray(ob)[m], np.asarray(oa)[m], f"{a['op']}-{p}-acts-on-the-other-axis", 1e-9, 1e-12)
