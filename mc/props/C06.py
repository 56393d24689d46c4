"""C06: at-aperture radiance = path + scattered + emitted + reflected; Planck; GIQE targets."""
import numpy as np

from mc import core, ref

ATM_KINDS = ["db", "ones", "notau", "zeros", "int", "long"]
WL = {"um": [0.4e-6, 1.0e-6, 3.0e-6, 4.5e-6, 10e-6, 14e-6], "one": [2.2e-6], "dense": None, "radio": [1.3e-5, 2e-4, 3e-3, 0.1, 1.0]}


class Prop:
    world = {"entries": [(1000.0, 1000.0, 1), (9000.0, 8000.0, 2)], "small_index": True}
    REFL = [0.0, 0.07, 0.15, 0.3, 0.5, 1.0, 1, 0, 1e-6, 0.004, 0.1501, 0.999, 1.2, 1.9, 7.0, -0.1]
    COLD = [3.0, 1.0, 0.2, 0.03, 12.0, 25.0] + core.ladder([0.02, 40.0], 2)
    TEMP = [282.0, 280.0, 300.0, 300, 250.0, 1000.0, 5800.0, 40.0, 299.5, 300.001, 199.0, 2000.0]
    assumptions = ["temperatures 0.02-5800 K, wavelengths 0.3-14 um (to a metre for cold bodies)"]

    def bound(self, tier):
        return "full product of reflectance, temperature, wavelength-set and atmosphere alphabets"

    def states(self, tier):
        st = []
        temps = self.TEMP + ([float(t) for t in range(200, 400, 5)] if tier == "thorough" else [])
        temps = temps + core.ladder(self.TEMP)
        refl = self.REFL + core.ladder(self.REFL) + ([i / 20 for i in range(21)] if tier == "thorough" else [])
        for t in temps:
            for w in WL:
                st.append({"op": "planck", "t": t, "w": w})
        for t in self.COLD:
            st.append({"op": "planck", "t": t, "w": "radio"})
            st.append({"op": "planck", "t": t, "w": "um"})
        for a in ATM_KINDS + ["db2", "row1", "fortran"]:  # (glints reflect more than a perfect diffuser)
            for r in refl:
                for t in temps:
                    st.append({"op": "total", "a": a, "r": r, "t": t})
            for e in (0, 1, True, False):
                st.append({"op": "giqe", "a": a, "e": e})
        return st

    def wl(self, w):
        return np.array(WL[w]) if WL[w] else np.linspace(0.3e-6, 14e-6, 500)

    def atm(self, a):
        at = self.w.atlas
        base = at.lookup(1000.0, 1000.0, 1)
        if a == "db":
            return base[::7].copy()
        if a == "db2":
            return at.lookup(9000.0, 8000.0, 2)[3::5].copy()
        if a == "row1":
            return base[170:171].copy()
        if a == "fortran":
            return np.asfortranarray(base[40::50])
        if a == "long":
            return np.vstack([base, at.lookup(9000.0, 8000.0, 2)])
        m = base[100:1300:60].copy()
        if a == "ones":
            m[:, 1:] = 1.0
        elif a == "notau":
            m[:, 1] = 0.0
        elif a == "zeros":
            m[:, 1:] = 0.0
        elif a == "int":
            m[:, 1:] = np.round(m[:, 1:])
        return m

    def observe(self, st, bag):
        from pybsm import radiance
        if st["op"] == "planck":
            lam = self.wl(st["w"])
            got = core.call(bag, "planck", radiance.blackbody_radiance, lam, st["t"])
            bag.close(got, ref.planck(lam, st["t"]), "planck-law", 1e-9)
            hotter = core.call(bag, "planck", radiance.blackbody_radiance, lam, st["t"] + 2)
            m = got > 1e-300
            bag.that(np.all(hotter[m] > got[m]), "planck-not-increasing-with-temperature", st)
            return got
        m = self.atm(st["a"])
        if st["op"] == "total":
            got = core.call(bag, "total", radiance.total_radiance, m, st["r"], st["t"])
            bag.close(got, ref.total_radiance(m, st["r"], st["t"]), "total-radiance", 1e-9, 1e-12)
            return got
        got = core.call(bag, "giqe", radiance.giqe_radiance, m, st["e"])
        want = ref.giqe_radiance(m, st["e"])
        bag.close(got[0], want[0], "giqe-target", 1e-9, 1e-12)
        bag.close(got[1], want[1], "giqe-background", 1e-9, 1e-12)
        return got

    def edges(self, states):
        idx = {}
        for i, s in enumerate(states):
            if s["op"] == "total" and s["t"] == 300.0:
                idx.setdefault(s["a"], []).append(i)
        for a, ii in idx.items():
            for x, y in zip(ii, ii[1:]):
                yield x, y

    def relate(self, a, oa, b, ob, bag):
        # affine in reflectance: the difference quotient is the same between any two reflectances
        if a["r"] == b["r"]:
            bag.close(oa, ob, "radiance-depends-on-more-than-reflectance", 1e-12)
            return
        m = self.atm(a["a"])
        slope = m[:, 5] / 0.15 - ref.planck(m[:, 0], 300.0) * m[:, 1]
        bag.close((ob - oa), slope * (b["r"] - a["r"]), "radiance-not-affine-in-reflectance", 1e-6,
                  1e-9 * float(np.max(np.abs(oa)) + 1))
