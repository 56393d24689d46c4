"""C09: exposure limit and noise budget of the signal-to-noise calculation."""
import itertools
import math

import numpy as np

from mc import configs as cf
from mc import core, ref
from mc.core import Al

SNR_FIELDS = ("opt_trans qe other_irradiance tgt_n_rate bkg_n_rate tgt_FPA_irradiance bkg_FPA_irradiance weights tgt_n "
              "bkg_n int_time well_fraction contrast_signal signal_noise dark_current_noise quantization_noise "
              "self_emission_noise total_noise snr").split()


def compare_snr(bag, got, want, tol=1e-9):
    for f in SNR_FIELDS:
        atol = 1e-12
        if f in ("contrast_signal", "snr"):  # a difference of large numbers
            atol = 1e-9 * (want["tgt_n"] + want["bkg_n"]) / (1.0 if f == "contrast_signal" else want["total_noise"])
        bag.close(getattr(got, f, None), want[f], "snr." + f, tol, atol)


class Prop:
    world = "none"
    SKIP = ("s_x", "s_y", "da_x", "da_y", "pv", "pv_wavelength", "L_x", "L_y", "filter_kernel", "frame_stacks", "p_x", "p_y")
    assumptions = ["spectra of three wavelength bands; two-parameter deviations from a visible and an infrared base "
                   "(three in the thorough tier), full product of the exposure parameters"]

    def __init__(self):
        self.P = {k: v for k, v in cf.SENSOR.items() if k not in self.SKIP}
        self.P["scene"] = Al(["bright", "dim", "equal", "dark-target", "swap"], ["close", "black", "nearly-black", "blazing"])
        f = self.P["max_well_fill"]
        self.P["max_well_fill"] = Al(f[:f.n], f[f.n:] + [0.0, 1.5, 40.0])
        self.EXPO = ["int_time", "n_tdi", "max_n", "max_well_fill", "dark_current", "scene"]

    def bound(self, tier):
        return f"all assignments with at most {2 if tier == 'quick' else 3} deviations over {len(self.P)} parameters " \
               "from two bases; full product over exposure parameters; check_well_fill over a full grid"

    def states(self, tier):
        st = []
        lat = core.lattice(self.P, 2 if tier == "quick" else 3, [self.EXPO])
        ir = self.P["spectral"].index("mwir")
        for d in lat:
            st.append({"op": "snr", "dev": d})
        for d in lat:
            if "spectral" not in d and (len(d) < 3 or tier == "thorough"):
                st.append({"op": "snr", "dev": dict(d, spectral=ir)})
        # around the well limit itself: signal/limit = just under, at, just over
        for ratio in [0.5, 0.999, 1.0, 1.001, 2.0, 50.0] + [1 + s * x for x in core.ladder([1e-10, 0.5], 1) for s in (1, -1)] + core.ladder([1.6, 1e7], 1):
            for fill in (1.0, 0.6, 0.05, 1.5, 40.0):
                for brighter in ("target", "background"):
                    for tdi in (1.0, 4):
                        st.append({"op": "limit", "ratio": ratio, "fill": fill, "b": brighter, "tdi": tdi})
        for n, m in itertools.product([0.0, 1.0, 99, 100, 100.0, 100.5, 101, 1e3, 1e9], [0.0, 1.0, 100, 100.0, 1e6]):
            st.append({"op": "fill", "n": n, "m": m})
        return st

    def scene(self, kind, lam):
        x = (lam - lam[0]) / (lam[-1] - lam[0])
        level = 3e7 if lam[0] < 3e-6 else 6e6
        hi, lo = level * (1 + 0.5 * x), level * (0.6 - 0.3 * x)
        return {"bright": (hi, lo), "dim": (hi * 1e-3, lo * 1e-3), "equal": (hi, hi.copy()), "dark-target": (lo, hi),
                "swap": (lo * 1e-3, hi * 1e-3), "close": (hi, hi * (1 - 1e-6)), "black": (hi, hi * 0), 
                "nearly-black": (lo * 1e-9, hi * 1e-9), "blazing": (hi * 1e6, lo * 1e5)}[kind]

    def grid(self, name):
        wl = cf.SPECTRAL[name]["wl"]
        return np.linspace(wl[0], wl[-1], 9)

    def observe(self, st, bag):
        from pybsm import radiance as R
        if st["op"] == "fill":
            got = core.call(bag, "fill", R.check_well_fill, st["n"], st["m"])
            bag.close(got, st["m"] / st["n"] if st["n"] > st["m"] else 1.0, "check-well-fill", 1e-12)
            return float(got)
        if st["op"] == "limit":
            v = cf.values(cf.SENSOR, {})
            v["n_tdi"], v["max_well_fill"] = st["tdi"], st["fill"]
            rs = cf.ref_sensor(v)
            lam = self.grid("vis")
            a, b = self.scene("bright", lam)
            tgt, bkg = (a, b) if st["b"] == "target" else (b, a)
            n = max(ref.snr(rs, lam, tgt, bkg)[k] for k in ("tgt_n", "bkg_n"))
            v["max_n"] = rs.max_n = n / (st["ratio"] * st["fill"])
            s = cf.build_sensor(v)
            got = core.call(bag, "snr", R.photon_detector_SNR, s, lam, tgt, bkg, again=False)
            want = ref.snr(rs, lam, tgt, bkg)
            compare_snr(bag, got, want, 1e-8)
            lim = st["fill"] * s.max_n * (1 + 1e-9)
            bag.that(got.tgt_n <= lim and got.bkg_n <= lim, "well-overfilled", f"{got.tgt_n} {got.bkg_n} > {lim}")
            return [float(got.tgt_n), float(got.bkg_n)]
        dev = {k: i for k, i in st["dev"].items() if k != "scene"}
        v = cf.values({**cf.SENSOR, "max_well_fill": self.P["max_well_fill"]}, dev)
        s, rs = cf.build_sensor(v), cf.ref_sensor(v)
        lam = self.grid(v["spectral"])
        tgt, bkg = self.scene(self.P["scene"][st["dev"].get("scene", 0)], lam)
        before = core.snap(s)
        got = core.call(bag, "snr", R.photon_detector_SNR, s, lam, tgt, bkg, again=False)
        bag.that(core.snap(s) == before, "sensor-changed", st)
        want = ref.snr(rs, lam, tgt, bkg)
        compare_snr(bag, got, want)
        lim = s.max_well_fill * s.max_n * (1 + 1e-12)
        bag.that(got.tgt_n <= lim and got.bkg_n <= lim, "well-overfilled", f"{got.tgt_n} {got.bkg_n} > {lim}")
        bag.that(got.int_time <= s.int_time * (1 + 1e-12), "integration-time-grew", got.int_time)
        swap = core.call(bag, "snr", R.photon_detector_SNR, s, lam, bkg, tgt, again=False)
        bag.close(swap.snr, -got.snr, "snr-not-antisymmetric", 1e-9, 1e-12)
        bag.close(swap.total_noise, got.total_noise, "noise-depends-on-order", 1e-9)
        rss = math.sqrt(max(got.tgt_n, got.bkg_n) + ref.quant_noise(s.max_n, s.bit_depth) ** 2 + s.read_noise ** 2
                        + float(np.sum(np.asarray(v["other_noise"], float) ** 2)))
        bag.close(got.total_noise, rss, "noise-not-root-sum-square", 1e-9)
        # signal per unit exposure is the rate, for target and background alike
        bag.close(got.tgt_n, got.tgt_n_rate * got.int_time * s.n_tdi, "target-signal-vs-rate", 1e-9)
        bag.close(got.bkg_n, got.bkg_n_rate * got.int_time * s.n_tdi, "background-signal-vs-rate", 1e-9)
        return [float(getattr(got, f)) for f in ("tgt_n", "bkg_n", "int_time", "total_noise", "snr")] + [
            float(got.tgt_n_rate)]

    def edges(self, states):
        n = sum(1 for s in states if s["op"] == "snr")  # these come first
        return core.lattice_edges(states[:n], "dev")

    NOISE_ONLY = {"read_noise": 1, "other_noise": 1}

    def relate(self, a, oa, b, ob, bag):
        (p,) = set(b["dev"]) - set(a["dev"])
        if p in self.NOISE_ONLY:  # frame condition: signal unaffected, noise up, |snr| down
            bag.close(ob[:3], oa[:3], f"{p}-changes-signal", 1e-12)
            bag.that(ob[3] >= oa[3] and abs(ob[4]) <= abs(oa[4]) * (1 + 1e-12), f"{p}-does-not-add-noise", (oa, ob))
        if p in ("int_time", "n_tdi") and self.P[p][b["dev"][p]] > self.P[p][0]:
            bag.that(ob[0] >= oa[0] * (1 - 1e-12) and ob[1] >= oa[1] * (1 - 1e-12), f"more-{p}-collects-less", (oa, ob))
