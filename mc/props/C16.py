"""C16: the system response is the product of its documented components, each from current values."""
import numpy as np

from mc import configs as cf
from mc import core, ref
from mc.core import Al

COMPS = ["ap_OTF", "turb_OTF", "det_OTF", "jit_OTF", "drft_OTF", "wav_OTF", "filter_OTF"]
# parameter -> components documented to depend on it (all others: none)
DEPENDS = {"D": ["ap_OTF", "turb_OTF", "wav_OTF"], "eta": ["ap_OTF"], "f": ["det_OTF", "filter_OTF"], "w_x": ["det_OTF"],
           "w_y": ["det_OTF"], "p_x": ["filter_OTF"], "s_x": ["jit_OTF"], "s_y": ["jit_OTF"], "da_x": ["drft_OTF"],
           "da_y": ["drft_OTF"], "n_tdi": ["drft_OTF", "turb_OTF"], "pv": ["wav_OTF"], "pv_wavelength": ["wav_OTF"],
           "L_x": ["wav_OTF"], "L_y": ["wav_OTF"], "filter_kernel": ["filter_OTF"], "altitude": ["turb_OTF"],
           "aircraft_speed": ["turb_OTF"], "ha_wind_speed": ["turb_OTF"], "cn2_at_1m": ["turb_OTF"],
           "ARG_slant": ["turb_OTF"], "ARG_time": ["drft_OTF", "turb_OTF"],
           "ARG_wl": ["ap_OTF", "turb_OTF", "wav_OTF"]}


class Prop:
    probes = {"quick": (48, 8, 8), "thorough": (400, 16, 16)}
    world = {"entries": cf.ENTRIES[:1], "small_index": True}
    BASE = {"pv": 0.1, "s_x": 0.4e-6, "s_y": 0.7e-6, "da_x": 0.4e-3, "da_y": 0.6e-3, "aircraft_speed": 8.0}
    assumptions = ["the image filter is compared within the accuracy of its 100-sample interpolation grid; L_x, L_y "
                   "given explicitly or defaulted to the aperture; small frequency grids"]

    def __init__(self):
        self.P = {k: v for k, v in cf.SENSOR.items()}
        self.P["filter_kernel"] = ["flat1", "sharp", "row", "col", "asym", "none"]
        self.P.update({k: v for k, v in cf.SCENARIO.items() if k not in ("ihaze", "ground_range")})
        self.P["pv"] = Al([0.1, 0.0, 0.6], [1e-3, 0.01, 2.0])
        self.P["s_x"] = Al([0.4e-6, 0.0, 1.1e-6], [1e-9, 1e-5])
        self.P["s_y"] = Al([0.7e-6, 0.0, 1.7e-6], [1e-9, 1e-5])
        self.P["da_x"] = Al([0.4e-3, 0.0, 1.3e-3], [1e-6, -0.4e-3, 0.05])
        self.P["da_y"] = Al([0.6e-3, 0.0, -2.1e-3], [1e-6, -1e-6, 0.05])
        self.P["aircraft_speed"] = Al([8.0, 0.0, 60.0], [0.01, 0.5, 8.01, 1000.0])
        self.P["ARG_slant"] = Al([1.5, 6.25], [1.0, 1.0001])  # in units of the altitude
        self.P["ARG_time"] = Al([1e-3, 0.0, 6e-3], [1e-6, 1.001e-3, 0.5])
        self.P["ARG_wl"] = Al(list(range(4)), list(range(4, len(self.WL))))
        self.P["ARG_grid"] = ["square", "line", "tall"]
        self.P.update(core.widen({k: self.P[k] for k in ("pv", "s_x", "s_y", "da_x", "da_y", "aircraft_speed", "ARG_slant",
                                                         "ARG_time")}))
        self.CORE = [p for p in self.P if p in DEPENDS and p != "filter_kernel"]

    WL = [([0.5e-6, 0.55e-6, 0.6e-6], [1.0, 0.4, 0.7]), ([1.5e-6], [2.0]), ([0.8e-6, 0.6e-6], [0.2, 0.9]),
          ([8e-6, 9e-6, 10e-6, 11e-6], [0.2, 1.0, 0.9, 0.1]), ([0.45e-6, 0.7e-6, 0.9e-6], [1.0, 0.97, 0.9]),
          ([3e-6, 4e-6, 5e-6], [7.0, 7.0, 7.0]), ([0.5e-6, 0.9e-6], [1.0, 1e-3]), ([0.5e-6, 0.9e-6], [1e-4, 1.0]),
          ([0.5e-6, 0.9e-6, 1.4e-6], [0.0, 2e12, 1e12]), ([0.5e-6, 0.50001e-6, 0.9e-6], [1e-9, 3e-9, 2e-9]),
          ([0.4e-6 + 0.05e-6 * i for i in range(17)], [((i * 7) % 11 + 1) / 11.0 for i in range(17)]),
          ([0.6e-6 + 0.02e-6 * i for i in range(30)], [1.0 + 0.004 * i for i in range(30)]),
          ([12e-6, 0.4e-6], [0.55, 0.45]), ([0.8e-6, 0.8e-6, 1.6e-6], [0.3, 0.3, 0.4])]

    def bound(self, tier):
        return "all single deviations over every sensor, scenario and call parameter, all pairs" \
               + (" and triples" if tier == "thorough" else "") + " over those a component depends on (the filter kernel " \
               "with single deviations of the rest); every lattice step checked as a frame condition; sequences that " \
               "change one sensor and scenario in place"

    def states(self, tier):
        lat = core.lattice(self.P, 1, (), [{"ARG_wl": 3, "D": 1}])
        for w in range(len(self.WL)):
            lat += [{"ARG_wl": w, "pv": k, "D": d} for k in (2, 4) for d in (1, 2)]
        seen = {core.key(d) for d in lat}
        for d in core.lattice({p: self.P[p] for p in self.CORE}, 2 if tier == "quick" else 3):
            if core.key(d) not in seen:
                seen.add(core.key(d))
                lat.append(d)
        for k in range(1, len(self.P["filter_kernel"])):
            for d in core.lattice({p: self.P[p] for p in ("f", "p_x", "p_y", "D", "ARG_wl", "da_x", "ARG_grid")}, 1):
                d = dict(d, filter_kernel=k)
                if core.key(d) not in seen:
                    seen.add(core.key(d))
                    lat.append(d)
        st = [{"op": "otf", "dev": d} for d in lat]
        # histories: one sensor and one scenario, changed in place from setting to setting
        names = [p for p in self.CORE if not p.startswith("ARG")]
        for a in names:
            for b in names:
                if a != b:
                    st.append({"op": "hist", "seq": [a, b]})
        return st

    def objects(self, v):
        return cf.build_sensor(v), cf.build_scenario(v)

    def grid(self, name, d):
        ax = np.array([-1.0, -0.55, -0.21, 0.0, 0.08, 0.37, 0.9]) * d * 1.6e6
        u, v = np.meshgrid(ax, -ax)
        return {"square": (u, v), "line": (ax, np.zeros(7)), "tall": (u[:, 2:4], v[:, 2:4])}[name]

    def evaluate(self, bag, s, sc, v, again=True):
        from pybsm.otf import functional as F
        u, w = self.grid(v["ARG_grid"], 0.1)
        slant = v["ARG_slant"] * v["altitude"]
        wl, wt = (np.array(x) for x in self.WL[v["ARG_wl"]])
        got = core.call(bag, "common", F.common_OTFs, s, sc, u, w, wl, wt, slant, v["ARG_time"], again=False)
        want = ref.common(cf.ref_sensor(v), cf.Rec(**v), u, w, wl, wt, slant, v["ARG_time"])
        k = cf.kernel(v["filter_kernel"])
        if k.size > 1:
            ifov = v["p_x"] / v["f"]
            bag.close(got.filter_OTF, ref.kernel_mtf(u, w, k, ifov), "filter_OTF", 0.0, ref.kernel_mtf_tol(k))
            want["filter_OTF"] = np.asarray(got.filter_OTF)
        else:
            want["filter_OTF"] = np.ones(u.shape)
            bag.close(got.filter_OTF, want["filter_OTF"], "filter_OTF", 1e-12)
        for c in COMPS[:-1]:
            bag.close(getattr(got, c, None), want[c], c, 1e-9, 1e-9 if c != "turb_OTF" else 1e-6, detail=str(v)[:0])
        if "r0_band" in want:
            bag.close(got.r0_band, want["r0_band"], "r0_band", 1e-6)
        if v["cn2_at_1m"] == 0:
            bag.close(got.turb_OTF, np.ones(u.shape), "turbulence-without-near-ground-strength", 1e-12)
        prod = 1.0
        for c in COMPS:
            prod = prod * np.asarray(getattr(got, c, np.nan))
        bag.close(got.system_OTF, prod, "system-not-the-product", 1e-9, 1e-14)
        bag.close(got.system_OTF, ref.product(want), "system-response", 1e-6, 1e-6)
        return got

    def observe(self, st, bag):
        v = core.values(self.P, st.get("dev", {}))
        v["ihaze"], v["ground_range"] = 1, 1000.0
        s, sc = self.objects(v)
        if st["op"] == "otf":
            before = core.snap(s)
            got = self.evaluate(bag, s, sc, v)
            bag.that(core.snap(s) == before, "sensor-changed", st)
            self.evaluate(bag, s, sc, v)
            return {c: np.asarray(getattr(got, c)) for c in COMPS}
        self.evaluate(bag, s, sc, v)
        scn = ("altitude", "aircraft_speed", "ha_wind_speed", "cn2_at_1m")
        for i, p in enumerate(st["seq"] + st["seq"][:1]):
            new = self.P[p][1 if i < 2 else 0]
            if p in ("L_x", "L_y") and new is None:
                new = v["D"]
            if p == "filter_kernel":
                continue
            v[p] = new
            # a default that followed another parameter at construction keeps its value
            if p == "D":
                v["L_x"], v["L_y"] = s.L_x, s.L_y
            setattr(sc if p in scn else s, p, new)
            self.evaluate(bag, s, sc, v)
        return None

    def edges(self, states):
        ii = [i for i, s in enumerate(states) if s["op"] == "otf"]
        for a, b in core.lattice_edges([states[i] for i in ii], "dev"):
            yield ii[a], ii[b]

    def relate(self, a, oa, b, ob, bag):
        (p,) = set(b["dev"]) - set(a["dev"])
        if p == "ARG_grid":
            return
        for c in COMPS:
            if c not in DEPENDS.get(p, ()):
                bag.close(ob[c], oa[c], f"{p}-changes-{c}", 1e-12, 1e-14)
