"""C23: image-quality equations match their published form and move the right way."""
import itertools
import math

import numpy as np

from mc import core, ref

RER = [0.05, 0.2, 0.35, 0.6, 0.8999999, 0.9, 0.9000001, 0.97, 1.0, 1.13, 1.6]
GSD = [1e-4, 0.01, 0.0254, 0.3, 0.52832, 3.0, 30.0]
EHO = [0.7, 1.0, 1.3, 1.9, 2.6]
NG = [1.0, 1.7, 10.0]
SNR = [0.5, 3.0, 20.0, 50.0, 300.0, 1e6]
EL = [math.pi / 2, 1.5704, 1.2, math.pi / 4, 0.3, 0.05]


class Prop:
    world = "none"
    assumptions = ["positive inputs (the signal-to-noise ratio may be negative: a target darker than its background), elevation angle in (0, pi/2], edge responses at most one for the monotonicity clauses"]

    def alph(self, tier):
        if tier == "quick":
            return RER, GSD, EHO, NG, SNR, EL
        return (sorted(RER + [0.01, 0.1, 0.5, 0.75, 0.85, np.nextafter(0.9, 0).item(), np.nextafter(0.9, 1).item()]),
                sorted(GSD + [1e-3, 0.1, 0.8, 200.0]), sorted(EHO + [0.5, 1.1]), sorted(NG + [0.3, 2.5]),
                sorted(SNR + [0.1, 1.0, 8.0, 5000.0]), sorted(EL + [1.5, 0.9, 0.6, 0.01], reverse=True))

    def bound(self, tier):
        return "full product of edge response, ground sample distance, overshoot, noise gain, signal-to-noise and " \
               f"elevation alphabets of sizes {[len(a) for a in self.alph(tier)]}; every step between neighbouring values"

    def states(self, tier):
        R, G, E, N, S, A = [range(len(a)) for a in self.alph(tier)]
        self.A = self.alph(tier)
        st = [{"op": "g3", "i": list(i)} for i in itertools.product(R, G, E, N, S)]
        st += [{"op": "g4", "i": list(i)} for i in itertools.product(R, G, E, N, S, A)]
        st += [{"op": "g5", "i": list(i)} for i in itertools.product(R, R, G, S, A)]
        # every rung of every alphabet, one at a time, from two ratings
        alph = self.alph(tier)
        for k, al in enumerate(alph):
            for x in core.ladder(self.WIDE[k]) + (self.near() if k == 5 else []):
                for b in ((3, 3, 1, 1, 2, 2), (6, 1, 2, 0, 4, 3)):
                    v = [a[j] for a, j in zip(alph, b)]
                    v[k] = x
                    st.append({"op": "g3", "v": v[:5]})
                    st.append({"op": "g4", "v": v})
                    st.append({"op": "g5", "v": [v[0], alph[0][b[1]], v[1], v[4], v[5]]})
                    st.append({"op": "g5", "v": [alph[0][b[1]], v[0], v[1], v[4], v[5]]})
        # a target darker than its background: the same equations with a negative signal-to-noise ratio
        for x in (-0.05, -0.5, -3.0, -40.0, -1e3, -1e7):
            for b in ((3, 3, 1, 1, 2), (6, 1, 2, 0, 4), (9, 5, 3, 2, 0)):
                r, g, e, n, a = (al[j] for al, j in zip((alph[0], alph[1], alph[2], alph[3], alph[5]), b))
                st += [{"op": "g3", "v": [r, g, e, n, x]}, {"op": "g4", "v": [r, g, e, n, x, a]},
                       {"op": "g5", "v": [r, alph[0][1], g, x, a]}]
        return st

    @staticmethod
    def near():
        """Elevation angles around the distinguished ones."""
        return [a + d for a in (math.pi / 12, math.pi / 6, math.pi / 4, math.pi / 3, 5 * math.pi / 12, math.pi / 2, 1.0, 0.5)
                for d in (0.0, 1e-12, -1e-12, 1e-7, -1e-7, 1e-4, -1e-4, 3e-3, -3e-3, 0.03, -0.03) if a + d <= math.pi / 2]

    def observe(self, st, bag):
        from pybsm.metrics import functional as M
        tier = self.tier
        R, G, E, N, S, A = self.alph(tier)
        if "v" in st:
            al = [[x] for x in st["v"]]
            R, G, E, N, S, A = (al + [[0]])[:6] if st["op"] != "g5" else (al[0] + al[1], al[2], [0], [0], al[3], al[4])
            st = dict(st, i=[0, 1, 0, 0, 0] if st["op"] == "g5" else [0] * 6)
        i = st["i"]
        if st["op"] == "g3":
            a = (R[i[0]], G[i[1]], E[i[2]], N[i[3]], S[i[4]])
            got = core.call(bag, "giqe3", M.giqe3, *a)
            bag.close(got, ref.giqe3(*a), "giqe3", 1e-10, 1e-10, str(a))
            return float(got)
        if st["op"] == "g4":
            a = (R[i[0]], G[i[1]], E[i[2]], N[i[3]], S[i[4]], A[i[5]])
            got, gp = core.call(bag, "giqe4", M.giqe4, *a)
            w, wg = ref.giqe4(*a)
            bag.close(got, w, "giqe4", 1e-10, 1e-10, str(a))
            bag.close(gp, wg, "giqe4-ground-distance", 1e-10, 0, str(a))
            return float(got), float(gp)
        a = (R[i[0]], R[i[1]], G[i[2]], S[i[3]], A[i[4]])
        got, gw, r = core.call(bag, "giqe5", M.giqe5, *a)
        w, wg, wr = ref.giqe5(*a)
        bag.close(got, w, "giqe5", 1e-10, 1e-10, str(a))
        bag.close(gw, wg, "giqe5-weighted-distance", 1e-10, 0, str(a))
        bag.close(r, wr, "giqe5-edge-response", 1e-10, 0, str(a))
        sw = core.call(bag, "giqe5", M.giqe5, a[1], a[0], *a[2:], again=False)
        bag.close(np.array(sw), np.array([got, gw, r]), "giqe5-order-of-edge-responses", 1e-12, 0, str(a))
        return float(got), float(gw)

    def edges(self, states):
        index = {(s["op"], tuple(s["i"])): k for k, s in enumerate(states) if "i" in s}
        for k, s in enumerate(states):
            if "v" in s:
                continue
            for d in range(len(s["i"])):
                n = list(s["i"])
                n[d] += 1
                j = index.get((s["op"], tuple(n)))
                if j is not None:
                    yield k, j

    #         rer gsd eho ng snr el : sign of the rating when the (ascending) alphabet moves on
    WIDE = [[1e-9, 30.0], [1e-6, 3e4], [1e-2, 30.0], [1e-3, 1e4], [1e-3, 1e9], [1e-7, math.pi / 2]]
    SIGN = {"g3": [1, -1, -1, -1, 1], "g4": [1, -1, -1, -1, 1, -1], "g5": [1, 1, -1, 1, -1]}

    def relate(self, a, oa, b, ob, bag):
        (d,) = [k for k in range(len(a["i"])) if a["i"][k] != b["i"][k]]
        R = self.alph(self.tier)[0]
        if a["op"] == "g4" and d == 0 and R[a["i"][0]] < 0.9 <= R[b["i"][0]]:
            return  # another regime
        if a["op"] == "g5" and d < 2 and max(R[b["i"][0]], R[b["i"][1]]) > 1:
            return
        x, y = (oa, ob) if a["op"] == "g3" else (oa[0], ob[0])
        s = self.SIGN[a["op"]][d]
        bag.that(s * (y - x) >= -1e-12, "rating-moves-the-wrong-way", f"{a} -> {b}: {x} -> {y}")
        if (a["op"], d) in (("g4", 5), ("g5", 4)):
            bag.that(ob[1] >= oa[1], "ground-distance-shrinks-with-obliquity", f"{a} -> {b}")
