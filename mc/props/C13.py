"""C13: diffraction response = autocorrelation of the (obscured, defocused) pupil."""
import numpy as np

from mc import core, ref


class Prop:
    world = "none"
    ETA = [0.0, 1e-4, 0.005, 0.02, 0.05, 0.2, 1 / 3, 0.4, 0.5, 0.6, 0.75, 0.9, 0.95, 0.97, 0.99]
    D = [0.1, 0.25, 1.0, 0.003]
    LAM = [0.5e-6, 1.0e-6, 4e-6, 10.5e-6]
    WAVES = [0.0, 0.01, -0.01, 0.05, 0.1, -0.1, 0.2, 0.25, -0.25, 1e-4, -1e-4, 1e-3]
    FN = [(0.1, 1.0), (0.1, 0.3), (0.3, 0.6), (0.05, 4.0), (1.1, 17.0), (0.2, 0.31), (0.003, 0.02)]
    assumptions = ["defocus up to a quarter wave (series accuracy 2e-3); obscuration up to 0.99; radial grids with the "
                   "region boundaries eta, (1-eta)/2, (1+eta)/2 and the cutoff, on both sides"]

    def bound(self, tier):
        return "full product of obscuration, diameter, wavelength and direction on dense radial grids; full product of " \
               "defocus, f-number and wavelength"

    def states(self, tier):
        eta = self.ETA + ([i / 40 for i in range(1, 37)] if tier == "thorough" else [])
        st = []
        for e in eta:
            for d in self.D:
                for lam in self.LAM:
                    for ang in (0.0, 0.6, 2.1, 4.0):
                        st.append({"op": "ap", "eta": e, "D": d, "lam": lam, "ang": ang})
        one = {"op": "ap", "D": self.D[0], "lam": self.LAM[0], "ang": 0.6}
        st += [dict(one, eta=e) for e in core.ladder(self.ETA)]
        st += [dict(one, eta=e, D=d) for d in core.ladder(self.D) for e in (0.0, 0.31)]
        st += [dict(one, eta=e, lam=x) for x in core.ladder(self.LAM, 10) for e in (0.0, 0.31)]
        st += [dict(one, eta=e, ang=x) for x in (-0.3, 0.001, 1.3, 1.5707, 3.5, 5.1) for e in (0.0, 0.31)]
        st += [{"op": "defocus", "w": w, "fn": fn, "lam": x} for w in core.ladder(self.WAVES)
               for fn, x in ((0, 0.5e-6), (2, 1.7e-6))]
        st += [{"op": "defocus", "w": w, "fn": fn, "lam": 0.7e-6} for w in (0.03, -0.17) for fn in range(3, len(self.FN))]
        for w in self.WAVES + ([0.15, 0.3, 0.4, -0.4] if tier == "thorough" else []):
            for fn in range(3):
                for lam in self.LAM[:2] + [4e-6]:
                    st.append({"op": "defocus", "w": w, "fn": fn, "lam": lam})
        return st

    def radii(self, eta):
        base = np.r_[np.linspace(0, 1.2, 61), eta, (1 - eta) / 2, (1 + eta) / 2, 1.0]
        near = np.r_[base[61:] - 1e-4, base[61:] + 1e-4, base[61:] - 1e-7, base[61:] + 1e-7]
        return np.unique(np.r_[base, near[near >= 0]])

    def observe(self, st, bag):
        from pybsm.otf import functional as F
        if st["op"] == "ap":
            r0 = st["D"] / st["lam"]
            r = self.radii(st["eta"])
            u, v = r * r0 * np.cos(st["ang"]), r * r0 * np.sin(st["ang"])
            got = core.call(bag, "aperture", F.circular_aperture_OTF, u, v, st["lam"], st["D"], st["eta"])
            want = ref.aperture(u, v, st["lam"], st["D"], st["eta"])
            bag.close(got, want, "not-the-pupil-autocorrelation", 0.0, 2e-6)
            away = np.ones(r.size, bool)
            for x in (st["eta"], (1 - st["eta"]) / 2, (1 + st["eta"]) / 2, 1.0):
                away &= np.abs(r - x) > 1e-5
            bag.close(got[away], want[away], "not-the-pupil-autocorrelation-tight", 0.0, 1e-9)
            bag.that(abs(got[0] - 1) < 1e-9, "not-one-at-zero-frequency", got[0])
            bag.that(np.all(got[r > 1 + 1e-9] == 0), "response-beyond-cutoff", float(np.max(np.abs(got[r > 1 + 1e-9]))))
            bag.that(np.all(np.abs(got) <= 1 + 1e-9), "magnitude-above-one", float(np.max(got)))
            s = np.linspace(-1.1, 1.1, 7) * r0
            uu, vv = np.meshgrid(s, s[::-1])
            two = core.call(bag, "aperture", F.circular_aperture_OTF, uu, vv, st["lam"], st["D"], st["eta"], again=False)
            bag.close(two, ref.aperture(uu, vv, st["lam"], st["D"], st["eta"]), "2d-grid", 0.0, 2e-6)
            bag.close(two, two.T, "depends-on-direction", 1e-9, 1e-12)
            # fine fields: every frequency far below the cutoff, or just one
            for part in (r[:1], np.array([0.0, 1e-9, 3e-7, 8e-6]), np.array([3e-7]), np.array([9e-6]), np.array([4e-5, 9e-5]),
                         np.array([7e-4]), np.array([0.004, 0.009]), r[-1:]) + ((r[13:14], r[47:48]) if st["ang"] == 0.6 else ()):
                pu, pv = part * r0 * np.cos(st["ang"]), part * r0 * np.sin(st["ang"])
                alone = core.call(bag, "aperture", F.circular_aperture_OTF, pu, pv, st["lam"], st["D"], st["eta"], again=False)
                exact = ref.aperture(pu, pv, st["lam"], st["D"], st["eta"])
                bag.close(alone, exact, "few-frequencies", 0.0, np.minimum(2e-6, 1e-3 * part / (1 - st["eta"]) + 2e-8 / (1 - st["eta"])))
            # the frequencies as whole numbers (of 32 bits)
            k = np.unique(np.round(r * r0).astype(np.int64))
            k = k[k < 2 ** 30].astype(np.int32)
            ku, kv = np.round(k * np.cos(st["ang"])).astype(np.int32), np.round(k * np.sin(st["ang"])).astype(np.int32)
            whole = core.call(bag, "aperture", F.circular_aperture_OTF, ku, kv, st["lam"], st["D"], st["eta"], again=False)
            bag.close(whole, ref.aperture(ku * 1.0, kv * 1.0, st["lam"], st["D"], st["eta"]), "whole-frequencies", 0.0, 2e-6)
            if st["ang"] == 0.6 and st["lam"] == self.LAM[0] and st["D"] == self.D[0]:
                for n, m in ((130, 97), (1, 30011)):
                    bu, bv = np.meshgrid(np.linspace(-1.1, 1.1, m) * r0, np.linspace(0.9, -0.9, n) * r0)
                    big = core.call(bag, "aperture", F.circular_aperture_OTF, bu, bv, st["lam"], st["D"], st["eta"], again=False)
                    bag.close(big, ref.aperture(bu, bv, st["lam"], st["D"], st["eta"]), "large-grid", 0.0, 2e-6)
            return got
        d, f = self.FN[st["fn"]]
        r0 = d / st["lam"]
        dz = st["w"] * st["lam"] * 2 * (1 + 4 * (f / d) ** 2)
        r = np.r_[0.0, 0.01, 0.03, np.linspace(0.05, 1.15, 23)]
        u, v = r * r0 * 0.8, -r * r0 * 0.6
        got = core.call(bag, "defocus", F.circular_aperture_OTF_with_defocus, u, v, st["lam"], d, f, dz)
        want = ref.aperture_defocus(u, v, st["lam"], d, f, dz)
        tol = 2e-3 if abs(st["w"]) > 0.1 else 1e-4
        tol = 5e-3 if abs(st["w"]) > 0.25 else tol
        kk = np.array([0, 3, 40, 500, 6000, 61000, 80000], dtype=np.int32)
        whole = core.call(bag, "defocus", F.circular_aperture_OTF_with_defocus, kk, kk[::-1], st["lam"], d, f, dz, again=False)
        bag.close(whole, ref.aperture_defocus(kk * 1.0, kk[::-1] * 1.0, st["lam"], d, f, dz), "whole-frequencies", 0.0, tol)
        bag.close(got, want, "not-the-defocused-autocorrelation", 0.0, tol)
        bag.that(abs(got[0] - 1) < 1e-9, "defocus-not-one-at-zero-frequency", got[0])
        bag.that(np.all(got[r > 1 + 1e-9] == 0), "defocus-response-beyond-cutoff", st)
        neg = core.call(bag, "defocus", F.circular_aperture_OTF_with_defocus, u, v, st["lam"], d, f, -dz, again=False)
        bag.close(neg, got, "depends-on-sign-of-defocus", 1e-9, 1e-9)
        if st["w"] == 0.0:
            foc = core.call(bag, "aperture", F.circular_aperture_OTF, u, v, st["lam"], d, 0.0, again=False)
            bag.close(got, foc, "zero-defocus-differs-from-focused", 0.0, 1e-9)
            tiny = core.call(bag, "defocus", F.circular_aperture_OTF_with_defocus, u, v, st["lam"], d, f,
                             1e-3 * st["lam"], again=False)
            bag.close(tiny, foc, "vanishing-defocus-differs-from-focused", 0.0, 1e-4)
        return got

    def edges(self, states):
        """Scaling: the response depends on frequency only through rho * wavelength / diameter."""
        groups = {}
        for i, s in enumerate(states):
            if s["op"] == "ap":
                groups.setdefault(s["eta"], []).append(i)
        for ii in groups.values():
            for a, b in zip(ii, ii[1:]):
                yield a, b

    def relate(self, a, oa, b, ob, bag):
        r = self.radii(a["eta"])
        away = np.ones(r.size, bool)
        for x in (a["eta"], (1 - a["eta"]) / 2, (1 + a["eta"]) / 2, 1.0):
            away &= np.abs(r - x) > 1e-5
        bag.close(ob[away], oa[away], "not-a-function-of-reduced-frequency", 0.0, 1e-9)
