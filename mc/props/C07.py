"""C07: focal-plane irradiance, self emission, hemisphere closure."""
import itertools

import numpy as np

from mc import core, ref


class Prop:
    world = "none"
    DF = [(0.1, 1.0), (0.2, 0.4), (0.5, 0.5), (2, 1), (0.1, 10.0), (1, 3), (0.07, 0.33), (0.01, 2.0), (2.0, 0.5),
          (0.0501, 40.0), (1.3, 0.11), (0.1, 0.061), (3.3, 3.7), (0.2, 0.9), (0.0013, 1.0), (0.31, 0.77), (0.113, 1.41)]
    T = [70.0, 200.0, 293.0, 300, 300.5, 500.0, 30.0, 2000.0, 15.0, 4.0, 6000.0]
    E = [0.0, 0.05, 0.1, 0.5, 1.0, 1, 1e-6, 0.005, 0.999]
    TAU = [1.0, 0.8, 0.5, 0.0, 1e-4, 0.999]
    assumptions = ["apertures and focal lengths over the listed ratios; spectra of 1, 4 and 200 wavelengths"]

    def bound(self, tier):
        return "full product of (D, f), temperature, emissivity, transmission and spectrum alphabets"

    def states(self, tier):
        t = self.T + core.ladder(self.T) + ([float(x) for x in range(80, 400, 20)] if tier == "thorough" else [])
        st = []
        for i in range(len(self.DF)):
            # (every rung of the other alphabets, one at a time)
            for e in core.ladder(self.E):
                st.append({"op": "stop", "df": i, "w": "few", "t": 293.0, "e": e})
                st.append({"op": "optics", "df": i, "w": "few", "t": 293.0, "e": e, "tau": 0.8})
            for tau in core.ladder(self.TAU):
                st.append({"op": "optics", "df": i, "w": "few", "t": 293.0, "e": 0.1, "tau": tau})
            for w in ("one", "few", "many", "full", "far"):
                for q in t if w not in ("full", "far") else (40.0, 300.0, 15.0) if w == "full" else (3.0, 15.0, 77.0, 300.0):
                    st.append({"op": "shield", "df": i, "w": w, "t": q})
                    for e in self.E:
                        st.append({"op": "stop", "df": i, "w": w, "t": q, "e": e})
                        for tau in self.TAU:
                            st.append({"op": "optics", "df": i, "w": w, "t": q, "e": e, "tau": tau})
                for k in ("one", "ramp", "int", "zero", "2d"):
                    st.append({"op": "plain", "df": i, "w": w, "k": k})
            for t_opt, e_opt, ls, ot in itertools.product([1.0, 0.6, 0.0], [0.0, 0.3, 1.0], [0.0, 5.0], [250.0, 300.0]):
                st.append({"op": "band", "df": i, "t_opt": t_opt, "e_opt": e_opt, "ls": ls, "ot": ot})
            for dl in [1e-12, 1e-9, 3e-8] + core.ladder([1e-12, 1e-5]):
                for lam in (0.4e-6, 3e-6, 14e-6):
                    st.append({"op": "band", "df": i, "t_opt": 0.6, "e_opt": 0.3, "ls": 0.0, "ot": 300.0, "dl": dl, "lam": lam})
                    st.append({"op": "band", "df": i, "t_opt": 0.0, "e_opt": 0.3, "ls": 0.0, "ot": 300.0, "dl": dl, "lam": lam})
        return st

    def lam(self, w):
        return {"one": np.array([4e-6]), "few": np.array([0.5e-6, 3.3e-6, 10e-6, 14e-6]),
                "far": np.array([20e-6, 50e-6, 1e-4, 1e-3, 0.01]), "many": np.linspace(0.3e-6, 14e-6, 200), "full": np.geomspace(0.3e-6, 14e-6, 1500)}[w]

    def observe(self, st, bag):
        from pybsm import radiance as R
        d, f = self.DF[st["df"]]
        if st["op"] == "band":
            lam0, dl = np.array([st.get("lam", 10e-6)]), st.get("dl", 2e-6)
            rad = np.array([12.5])
            got = core.call(bag, "band", R.focal_plane_integrated_irradiance, rad, st["ls"], st["t_opt"], st["e_opt"],
                            lam0, dl, st["ot"], d, f)
            tot = st["t_opt"] * 12.5 + st["e_opt"] * ref.planck(lam0[0], st["ot"]) * dl + st["ls"]
            bag.close(got, np.array([ref.fp_irr(d, f, tot)]), "band-irradiance")
            return got
        lam = self.lam(st["w"])
        if st["op"] == "plain":
            rad = {"one": np.ones(lam.size), "ramp": np.linspace(1, 9e6, lam.size),
                   "int": np.arange(lam.size) + 3, "zero": np.zeros(lam.size),
                   "2d": np.outer([1.0, 2.0], np.arange(1.0, lam.size + 1))}[st["k"]]
            got = core.call(bag, "focal-plane", R.at_focal_plane_irradiance, d, f, rad)
            bag.close(got, ref.fp_irr(d, f, rad), "focal-plane-irradiance")
            return got
        bb = ref.planck(lam, st["t"])
        tiny = 1e-290
        if st["op"] == "shield":
            got = core.call(bag, "shield", R.cold_shield_self_emission, lam, st["t"], d, f)
            bag.close(got, ref.cold_shield(lam, st["t"], d, f), "cold-shield", 1e-9, tiny)
            stop = core.call(bag, "stop", R.cold_stop_self_emission, lam, st["t"], 1.0, d, f)
            bag.close(got + stop, np.pi * bb, "hemisphere-not-closed", 1e-9, tiny)
            warm = core.call(bag, "optics", R.optics_self_emission, lam, st["t"], 1.0, 1.0, d, f)
            bag.close(got + warm, np.pi * bb, "hemisphere-not-closed-optics", 1e-9, tiny)
            return got
        if st["op"] == "stop":
            got = core.call(bag, "stop", R.cold_stop_self_emission, lam, st["t"], st["e"], d, f)
            bag.close(got, ref.cold_stop(lam, st["t"], st["e"], d, f), "cold-stop", 1e-9, tiny)
        else:
            got = core.call(bag, "optics", R.optics_self_emission, lam, st["t"], st["e"], st["tau"], d, f)
            bag.close(got, ref.optics_emission(lam, st["t"], st["e"], st["tau"], d, f), "optics-emission", 1e-9, tiny)
        return got
