"""C24: ground resolved distance is never finer than the detector or the blur allows."""
import itertools

import numpy as np

from mc import core, ref


def curves():
    c = {}
    for n in (2, 3, 6, 51, 140, 1000, 1):
        x = np.linspace(0.0, 1.0, n)
        for k, w in enumerate((2.0, 0.8, 0.4, 0.2, 0.08)):
            c[f"gauss{n}", k] = np.exp(-(x / w) ** 2)
        for k, w in enumerate((1.0, 0.7, 0.4, 0.3)):
            c[f"linear{n}", k] = np.clip(1 - x / w, 0, None) if w < 1 else 1 - 0.999 * x
        for k, w in enumerate((1.0, 0.8, 0.5, 0.1)):
            c[f"level{n}", k] = 1 - (1 - w) * x ** 0.5
    return c


class Prop:
    world = "none"
    CUR = curves()
    SNR = [0.1, 2.0, 2.9999, 3.0, 3.0001, 3.5, 6.0, 17.0, 60.0, 1e4, 1e9]
    IFOV = [1e-5, 2.5e-6, 1e-7]
    SLANT = [1.0, 1500.0, 2e6]
    DF = [50.0, 2000.0, 1e5]
    assumptions = ["non-increasing transfer functions"]

    def bound(self, tier):
        return "full product of 52 transfer functions (and as many longer ones, up to 1000 samples), 11 signal-to-noise ratios, 3 fields of view, 3 slant ranges and 3 " \
               "frequency steps; all pairs of them over whole orders of magnitude; every step to a blurrier response or a noisier image; all non-increasing responses of up " \
               f"to {4 if tier == 'quick' else 6} samples over a five-level alphabet"

    def states(self, tier):
        st = [{"op": "c", "c": list(c), "snr": s, "f": f, "r": r, "df": d} for c in self.CUR if int(c[0].lstrip("abcdefghijklmnopqrstuvwxyz")) < 100 for s in range(len(self.SNR))
              for f in self.IFOV for r in self.SLANT for d in self.DF]
        for k, c in enumerate(self.CUR):
            for s in core.ladder([3e-3, 3e10], 2 if tier == "quick" else 8):
                st.append({"op": "x", "c": list(c), "snr": s, "f": self.IFOV[0], "r": self.SLANT[1], "df": self.DF[1]})
            for f, r, d in zip(core.ladder(self.IFOV, 4)[k % 3::3], core.ladder(self.SLANT)[k % 5::3], core.ladder(self.DF, 5)[k % 4::4]):
                st.append({"op": "x", "c": list(c), "snr": 6.0 + k, "f": f, "r": r, "df": d})
        for k, c in enumerate(self.CUR):
            if int(c[0].lstrip("abcdefghijklmnopqrstuvwxyz")) >= 100:
                for s in self.SNR:
                    st.append({"op": "x", "c": list(c), "snr": s, "f": 1e-9, "r": 1500.0, "df": 40.0 + k})
        # whole orders of magnitude, two parameters at a time: from a laboratory bench to the stars
        far, fov = np.geomspace(1e-3, 1e12, 16), np.geomspace(1e-10, 1.0, 11)
        step, noise = np.geomspace(1e-3, 1e9, 13), np.geomspace(1e-6, 1e15, 22)
        for k, c in enumerate(self.CUR):
            if k % (13 if tier == "quick" else 5) == 2:
                for a, b in itertools.combinations(({"r": far}, {"f": fov}, {"df": step}, {"snr": noise}), 2):
                    (pa, xa), (pb, xb) = *a.items(), *b.items()
                    st += [{"op": "x", "c": list(c), "snr": 40.0, "f": 1e-9, "r": 1500.0, "df": 2000.0, pa: float(x), pb: float(y)}
                           for x in xa for y in xb]
        for n in range(1, 5 if tier == "quick" else 7):
            for m in itertools.combinations_with_replacement([1.0, 0.6, 0.5, 0.25, 0.0], n):
                for s in (2.0, 3.0, 5.0, 6.0, 12.0, 40.0):
                    st.append({"op": "m", "m": list(m), "snr": s})
        return st

    def observe(self, st, bag):
        from pybsm.metrics import functional as M
        if st["op"] == "m":
            h, snr = np.array(st["m"]), st["snr"]
            got = float(core.call(bag, "grd", M.ground_resolved_distance, h, 100.0, snr, 1e-7, 10.0))
            level = 3.0 / snr
            # with equal samples any frequency on the plateau is a crossing
            on = [i for i in range(len(h)) if abs(h[i] - level) < 1e-12]
            if len(on) > 1:
                lo, hi = 10.0 / (100.0 * on[-1] + 1e-12), 10.0 / (100.0 * on[0] + 1e-12)
                bag.that(max(lo, 2e-6) * (1 - 1e-9) <= got <= hi * (1 + 1e-9), "resolved-distance", f"{got} {lo} {hi} {st}")
            else:
                bag.close(got, ref.grd(h, 100.0, snr, 1e-7, 10.0), "resolved-distance", 1e-9, 0, str(st))
            return got
        h = self.CUR[tuple(st["c"])]
        snr = self.SNR[st["snr"]] if st["op"] == "c" else st["snr"]
        got = core.call(bag, "grd", M.ground_resolved_distance, h, st["df"], snr, st["f"], st["r"])
        plate = np.any(np.diff(h) == 0) and abs(3 / snr - h[-1]) < 1e-12
        if not plate:
            bag.close(got, ref.grd(h, st["df"], snr, st["f"], st["r"]), "resolved-distance", 1e-8, 0, str(st))
        bag.that(float(got) >= 2 * st["f"] * st["r"] * (1 - 1e-12), "finer-than-the-detector", str(st))
        twice = core.call(bag, "grd", M.ground_resolved_distance, h, st["df"], snr, st["f"], 2 * st["r"], again=False)
        bag.close(twice, 2 * got, "not-proportional-to-slant-range", 1e-12, 0, str(st))
        return float(got)

    def edges(self, states):
        index = {(tuple(s["c"]), s["snr"], s["f"], s["r"], s["df"]): i for i, s in enumerate(states) if s["op"] == "c"}
        for (c, s, f, r, d), i in index.items():
            for nxt in ((((c[0], c[1] + 1)), s, f, r, d), (c, s - 1, f, r, d)):
                if nxt in index:
                    yield i, index[nxt]

    def relate(self, a, oa, b, ob, bag):
        if a["c"] != b["c"]:
            ha, hb = self.CUR[tuple(a["c"])], self.CUR[tuple(b["c"])]
            if np.any(hb > ha + 1e-12):
                return
        bag.that(ob >= oa * (1 - 1e-9), "finer-with-more-blur-or-noise", f"{a} {oa} -> {b} {ob}")
