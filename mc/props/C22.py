"""C22: edge response, relative edge response and overshoot obey their definitions."""
import math

import numpy as np

from mc import core, ref


def curve(kind, n):
    x = np.linspace(0.0, 1.0, n)
    if not isinstance(kind, str):  # (width, boost): edges from plainly rising over barely falling to overshooting ones
        return np.exp(-(x / kind[0]) ** 2) * (1 + kind[1] * x ** 2)
    return {"gauss": np.exp(-(x / 0.4) ** 2), "wide": np.exp(-(x / 2.0) ** 2), "linear": 1 - x,
            "sharp": np.exp(-(x / 0.5) ** 2) * (1 + 3 * x), "peaked": 1 + 2 * np.exp(-((x - 0.3) / 0.1) ** 2) - x,
            "flat": np.ones(n), "cut": (x < 0.35) * 1.0, "ringing": np.sinc(3 * x), "point": (x == 0) * 1.0,
            "narrow": np.exp(-(x / 0.08) ** 2), "half": 0.5 * np.exp(-x),
            "boost": (1 + 0.8 * np.sin(2.2 * x * math.pi) ** 2) * (1 - x ** 2)}[kind]


KINDS = ["gauss", "wide", "linear", "sharp", "peaked", "flat", "cut", "ringing", "point", "narrow", "half", "boost"]
DF = [2000.0, 351.0, 12345.6, 0.5, 1e6]
IFOV = [8e-6, 3e-6, 4.1e-5, 1e-7, 1e-3]
POS = [0.0, 1e-6, 0.01, 0.25, 0.5, 1.0, 1.25, 2.75, 3.0, 7.3, 60.0]


def surface(ku, kv, n):
    """A response whose u axis carries one curve and whose v axis carries another."""
    m = n // 2
    q = np.abs(np.arange(n) - m)
    a, b = curve(ku, m + 1), curve(kv, m + 1)
    return np.outer(b[q], a[q]) / max(a[0] * b[0], 1e-9) * a[0]


class Prop:
    world = "none"
    assumptions = ["one-dimensional responses on a uniform frequency grid; two-dimensional ones of odd size"]

    def bound(self, tier):
        return f"12 curve shapes x sizes {self.sizes(tier)} x 3 frequency steps x 3 fields of view x 8 positions (and their " \
               "mirror images); two-dimensional: all ordered pairs of curves x 9 pairs of fields of view"

    def sizes(self, tier):
        return [2, 3, 11, 51] if tier == "quick" else [1, 2, 3, 4, 5, 8, 11, 20, 51, 101, 400]

    def states(self, tier):
        st = []
        for k in KINDS:
            for n in self.sizes(tier):
                for d in DF:
                    for f in IFOV:
                        st.append({"op": "one", "k": k, "n": n, "df": d, "f": f})
        for d, f in zip(core.ladder(DF, 2), (core.ladder(IFOV, 3) * 5)[1:]):
            for k in KINDS:
                st.append({"op": "one", "k": k, "n": (7, 24, 64, 129)[len(st) % 4], "df": d, "f": f})
        fine = 1 if tier == "quick" else 4
        for w in np.linspace(0.15, 1.2, 8 * fine):
            for k in np.linspace(0.0, 6.0, 25 * fine):
                st.append({"op": "one", "k": [round(float(w), 4), round(float(k), 4)], "n": 60, "df": 1 / 60.0, "f": 1.0})
        for k in np.linspace(3.5, 5.2, 60 * fine):  # edges that dip by 1e-6 up to 1e-2
            st.append({"op": "one", "k": [0.25, round(float(k), 4)], "n": 60, "df": 1 / 60.0, "f": 1.0})
        for n in ([200, 777, 1500] if tier == "quick" else [130, 200, 257, 512, 777, 1025, 3000, 6001]):
            for k in KINDS:
                st.append({"op": "one", "k": k, "n": n, "df": 1.3 / n, "f": 1.0})
        for i, n in enumerate([1001, 1024, 2049, 4097, 9001, 30000]):
            for k in KINDS[i % 4::4]:
                st.append({"op": "one", "k": k, "n": n, "df": 1.7 / n, "f": 1.0})
        for a in KINDS:
            for b in KINDS:
                for fx in range(3):
                    for fy in range(3):
                        for d in DF[:1] if tier == "quick" else DF:
                            st.append({"op": "two", "k": [a, b], "n": 101 if (fx + fy) % 2 else 31, "df": d, "fx": fx, "fy": fy})
        return st

    def observe(self, st, bag):
        from pybsm.metrics import functional as M
        where = str(st)
        df = st["df"]
        if st["op"] == "one":
            h, f = curve(st["k"], st["n"]), st["f"]
            obs = []
            for p in POS:
                want = ref.edge_response(p, h, df, f)
                got = core.call(bag, "edge", M.edge_response, p, h, df, f)
                tol = 1e-9 * (1 + np.abs(h).max())
                bag.close(got, want, "edge-response", 1e-9, tol, where)
                mir = core.call(bag, "edge", M.edge_response, -p, h, df, f, again=False)
                bag.close(got + mir, 1.0, "not-antisymmetric", 0, tol, where)
                lin = core.call(bag, "edge", M.edge_response, p, 3 * h + curve("linear", st["n"]), df, f, again=False)
                bag.close(lin - 0.5, 3 * (want - 0.5) + ref.edge_response(p, curve("linear", st["n"]), df, f) - 0.5,
                          "not-linear-in-the-response", 1e-9, 10 * tol, where)
                obs.append(float(got))
            for p in core.ladder(POS[1:]) + [0.5 + 1e-9, 1.2499, 2.9]:
                bag.close(core.call(bag, "edge", M.edge_response, p, h, df, f, again=False), ref.edge_response(p, h, df, f),
                          "edge-response", 1e-9, 1e-9 * (1 + np.abs(h).max()), where)
            bag.close(M.edge_response(0.0, h, df, f), 0.5, "not-half-at-the-edge", 1e-12, 0, where)
            r = core.call(bag, "rer", M.relative_edge_response, h, df, f)
            bag.close(r, ref.rer(h, df, f), "relative-edge-response", 1e-8, 1e-9, where)
            e = core.call(bag, "eho", M.edge_height_overshoot, h, df, f)
            if ref.eho_gap(h, df, f) > 1e-11:
                bag.close(e, ref.eho(h, df, f), "overshoot", 1e-8, 1e-9, where)
            return obs + [float(r), float(e)]
        h = surface(*st["k"], st["n"])
        m = st["n"] // 2
        fx, fy = IFOV[st["fx"]], IFOV[st["fy"]]
        # (a slice stops one sample short of the border)
        for hs in (h, np.asfortranarray(h)):
            a, b = core.call(bag, "giqe5_RER", M.giqe5_RER, hs, df, fx, fy)
            t = core.call(bag, "edge_terms", M.giqe_edge_terms, hs, df, fx, fy)
        ok, best = False, ""
        for end in (-1, None):
            u, v = h[m, m:][:end], h[m::-1, m][:end]
            wu, wv = ref.rer(u, df, fx), ref.rer(v, df, fy)
            eu, ev = ref.eho(u, df, fx), ref.eho(v, df, fy)
            want = [wu, wv, math.sqrt(max(0, wu * wv)), math.sqrt(max(0, eu * ev))]
            got = [float(a), float(b), float(t[0]), float(t[1])]
            skip = min(ref.eho_gap(u, df, fx), ref.eho_gap(v, df, fy)) < 1e-10
            bad = [i for i in range(4) if not (abs(got[i] - want[i]) <= 1e-8 + 1e-8 * abs(want[i])
                                               or i == 3 and (skip or eu * ev < 0) or i == 2 and wu * wv < 0)]
            if not bad:
                ok = True
            else:
                best = f"{got} instead of {want}"
        bag.that(ok, "edge-terms-of-2d-response", f"{best} {where}")
        return got
