"""C11: noise gain for every small kernel; quantization noise."""
import itertools
import math
from fractions import Fraction

import numpy as np

from mc import core, ref


def k_norm(n):
    return float(n)


class Prop:
    world = "none"
    assumptions = ["kernels up to 3x3 over tenths or over a five-value alphabet, plus embedded/transposed variants"]
    chunk = 2000

    def bound(self, tier):
        return "all 1xN/Nx1 (N<=4, quick) kernels over 7 taps in tenths, all 2x2 over 9 taps, all symmetric 3x3 " \
               "(corner, edge, centre), 2-D shapes; full product of ranges and bit depths"

    def states(self, tier):
        taps = [-5, -1, 0, 1, 3, 5, 10]
        st = []
        for n in (1, 2, 3, 4) if tier == "quick" else (1, 2, 3, 4, 5):
            for k in itertools.product(taps, repeat=n):
                if sum(k) in (10, 9, 11, 0, -10, 5, 20) or n <= 2:
                    st.append({"op": "gain", "k": [list(k)]})
                    if n > 1:
                        st.append({"op": "gain", "k": [[x] for x in k]})
                        st.append({"op": "gain1", "k": list(k)})
        for k in itertools.product([-5, -3, -1, 0, 1, 2, 4, 6, 9], repeat=4):
            if abs(sum(k) - 10) <= (1 if tier == "quick" else 20):
                st.append({"op": "gain", "k": [list(k[:2]), list(k[2:])]})
        # symmetric 3x3 in hundredths: corner c, edge e, centre completes to 1 (or misses by a little)
        for c in range(-12, 13, 1 if tier == "thorough" else 2):
            for e in range(-25, 26, 1 if tier == "thorough" else 3):
                for miss in (0, 1, -1, 100):
                    st.append({"op": "gain", "k": [[c, e, c], [e, 100 - 4 * c - 4 * e + miss, e], [c, e, c]], "d": 100})
        # two 3x3 kernels with the same taps in different places, and a padded one
        for m in range(1, 8):
            for pos in itertools.combinations(range(9), 2):
                k = [0] * 9
                k[pos[0]], k[pos[1]] = 10 + m, -m
                st.append({"op": "gain", "k": [k[:3], k[3:6], k[6:]]})
                k[pos[0]], k[pos[1]] = -m, 10 + m
                st.append({"op": "gain", "k": [k[:3], k[3:6], k[6:], [0, 0, 0]]})
        for k in ([[1]], [[0, 1, 0]], [[2, -1]], [[1, 1], [1, -2]], [[1, 1]], [[0]], [[2]]):
            st.append({"op": "int", "k": k})
        for k in ([[12, -11]], [[-16, 33, -16]], [[-13], [27], [-13]], [[0, -20, 0], [-20, 81, -20], [0, -20, 0]], [[100, -99]],
                  [[-128, 127], [1, 1]], [[60, 60], [-60, -59]], [[127, -127], [1, 1]]):
            for d in ("int8", "int16", "int32", "float32"):
                st.append({"op": "typed", "k": k, "t": d})
        # sums that miss one by little and by much
        for m in core.ladder([3e-5, 40.0], 4 if tier == "quick" else 20):
            for k in ([0.2, 0.6, 0.2], [0.0, -1.0, 2.0, 0.0], [-3.0, 7.0, -3.0], [1.0]):
                for i in (0, len(k) - 1):
                    for sg in (1, -1):
                        st.append({"op": "miss", "k": k, "i": i, "m": sg * m})
        for n in (5, 6, 7, 8, 9, 11, 15, 16, 33, 100):  # larger kernels
            for a in (0.1, 1.7, -0.4):
                st += [{"op": "large", "n": n, "a": a, "w": w} for w in (0, 2, -3, 5 * n)]
        for r in core.ladder([1e-9, 1e14], 2):
            st.append({"op": "quant", "r": r, "b": 9.3})
        for b in core.ladder([1.0, 100.0], 8):
            st.append({"op": "quant", "r": 4321.7, "b": b})
        for r in (0.0, 1e-9, 0.3, 1.0, 12, 1e3, 1e14, 1e6, 100000000, 3.7e4):
            for b in (1, 1.0, 1.001, 2, 3.999, 4, 7.5, 8, 10, 11.9, 12, 14, 16, 24, 32, 100.0):
                st.append({"op": "quant", "r": r, "b": b})
        # rounding: all 8-neighbour kernels in thirds, sevenths
        for den in (3, 6, 7, 9, 11, 13, 17):
            for a in range(1, den):
                st.append({"op": "gain", "k": [[a, den - a]], "d": den})
                st.append({"op": "gain", "k": [[-a, 2 * a, den - a]], "d": den})
                st.append({"op": "gain", "k": [[-a], [den + 2 * a], [-a]], "d": den})
        return st

    def observe(self, st, bag):
        from pybsm import noise
        if st["op"] == "quant":
            got = core.call(bag, "quant", noise.quantization_noise, st["r"], st["b"])
            bag.close(got, ref.quant_noise(st["r"], st["b"]), "quantization-noise", 1e-12)
            twice = core.call(bag, "quant", noise.quantization_noise, 2 * st["r"], st["b"])
            bag.close(twice, 2 * got, "quantization-noise-not-proportional", 1e-12)
            if st["r"]:
                finer = core.call(bag, "quant", noise.quantization_noise, st["r"], st["b"] + 1)
                bag.that(finer < got, "quantization-noise-not-decreasing", st)
            return float(got)
        if st["op"] == "miss":
            k = np.array([st["k"]])
            k[0, st["i"]] += st["m"]
            for x in (k, k.T.copy(), k[0]):
                core.call(bag, "gain-of-bad-kernel", noise.noise_gain, x, expect=(ValueError,))
            return -1.0
        if st["op"] == "large":
            y, x = np.mgrid[0:st["n"], 0:st["n"] + st["w"]]
            k = np.cos(0.3 * x + 0.11 * y * y) * st["a"] / k_norm(st["n"])
            k[0, 0] += 1 - math.fsum(k.ravel())
            got = core.call(bag, "gain", noise.noise_gain, k)
            bag.close(got, math.sqrt(math.fsum((k ** 2).ravel())), "noise-gain", 1e-9)
            k[1, 1] += 0.01
            core.call(bag, "gain-of-bad-kernel", noise.noise_gain, k, expect=(ValueError,))
            return float(got)
        if st["op"] in ("int", "typed"):
            k = np.array(st["k"]).astype(st.get("t", int))
            exact = Fraction(int(np.sum(st["k"])))
        else:
            d = st.get("d", 10)
            k = np.array(st["k"], dtype=float) / d
            exact = Fraction(int(np.sum(st["k"])), d)
        if exact == 1:
            got = core.call(bag, "gain", noise.noise_gain, k)
            bag.close(got, math.sqrt(float(np.sum(k.astype(float) ** 2))), "noise-gain", 1e-9)
            for name, alt in (("transposed", k.T), ("mirrored", np.flip(k)), ("padded", np.pad(k, 1))):
                g2 = core.call(bag, "gain", noise.noise_gain, alt)
                bag.close(g2, got, "noise-gain-depends-on-" + name, 1e-9)
            return float(got)
        core.call(bag, "gain-of-bad-kernel", noise.noise_gain, k, expect=(ValueError,))
        return -1.0
