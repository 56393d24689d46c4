"""C05: concurrent calls return what sequential ones return (bounded-preemption exploration of real threads)."""
import os

import numpy as np

from mc import configs as cf
from mc import core, fresh, sched


def flat(x):
    """Everything observable in a result, as a list of arrays."""
    if isinstance(x, np.ndarray):
        return [x]
    if isinstance(x, (tuple, list)):
        return [a for y in x for a in flat(y)]
    if isinstance(x, (int, float, complex, np.generic, bool)):
        return [np.asarray(x)]
    if x is None or isinstance(x, str):
        return []
    return [a for k, v in sorted(vars(x).items()) if k not in ("sensor", "scenario") for a in flat(v)]


def freeze(x):
    return [np.array(a) for a in flat(x)]


class Prop:
    neighbours = False
    world = {"entries": cf.ENTRIES, "small_index": True}
    chunk = 4
    assumptions = ["interleavings of package code at source-line granularity (bytecode granularity for loads and shared "
                   "scenarios at one preemption); numpy and SciPy calls are atomic; package state put back to its "
                   "just-imported value before every schedule"]
    CHEAP = ["load-load", "load-same", "load-haze", "interp-load", "interp-interp", "shared-atm", "shared-atm-interp",
             "shared-atm-load", "snr-snr", "snr-sensors", "otf-scenarios", "otf-sensors", "psf-psf", "blur-blur",
             "turb-turb", "interp-absent"]
    TWO = ["load-load", "load-same", "load-haze", "interp-load", "shared-atm", "shared-atm-interp", "shared-atm-load",
           "psf-psf", "blur-blur", "interp-absent"]
    DEAR = ["reflectance", "niirs-scenarios", "niirs-sensors", "niirs-niirs5", "niirs5-niirs5", "niirs-shared-scenario"]

    def bound(self, tier):
        return "two threads: two preemptions at line granularity for loads, shared scenarios, blur kernels; one for signal " \
               "models and system responses; one at the first visit of every line for NIIRS " \
               "(with an image filter: of every line of the metrics and every function entry); one preemption at bytecode granularity for loads and shared scenarios" \
               + ("" if tier == "quick" else "; three threads, two preemptions, for loads; two preemptions for all but NIIRS; every line visit for NIIRS")

    def setup(self):
        import pybsm.metrics  # noqa: F401  (imports everything)
        self.snapshot = fresh.Snapshot()
        self.len, self.points = {}, {}
        for h in self.CHEAP + self.DEAR:
            self.len[h], self.points[h] = [], []
            for f in self.harness(h):
                r = sched.Runner(self.w.root + os.sep)
                r.trail = []
                self.len[h].append(r.run([f], [(0, 1 << 60)])[1][0])
                first, last = {}, {}
                for k, where in enumerate(r.trail):
                    first.setdefault(where, k)
                    last[where] = k
                pts = set(first.values()) | (set(last.values()) if self.tier == "thorough" else set())
                if h == "niirs-niirs5" and self.tier == "quick":  # (its image filter is slow)
                    entry = {}
                    for k, where in enumerate(r.trail):
                        entry.setdefault(where[:3], k)
                    pts = {k for where, k in first.items() if "metrics" in where[0]} | set(entry.values())
                self.points[h].append(sorted(pts | {self.len[h][-1]}))
        for h in self.CHEAP[:8]:
            self.len[h + "@op"] = [sched.Runner(self.w.root + os.sep, True).run([f], [(0, 1 << 60)])[1][0]
                                   for f in self.harness(h)]
        self.expected = {}

    def states(self, tier):
        st = []
        for h in self.CHEAP:
            two = h in self.TWO or tier == "thorough"
            for first in (0, 1):
                for k in range(self.len[h][first] + 1):
                    st.append({"h": h, "first": first, "k": k, "two": bool(two)})
        for h in self.CHEAP[:8]:
            for first in (0, 1):
                n = self.len[h + "@op"][first]
                for k in range(0, n + 1, 16):
                    st.append({"h": h, "first": first, "op": [k, min(k + 16, n + 1)]})
        for h in self.DEAR:
            for first in (0, 1):
                pts = self.points[h][first] if tier == "quick" else list(range(self.len[h][first] + 1))
                for k in range(0, len(pts), 8):
                    st.append({"h": h, "first": first, "seg": pts[k:k + 8]})
        if tier == "thorough":
            for h in ("load-load", "shared-atm", "shared-atm-interp"):
                for a in range(3):
                    for b in range(3):
                        if a != b:
                            for k in range(self.len[h][0] + 1):
                                st.append({"h": h, "three": [a, b], "k": k})
        return st

    # ------------------------------------------------------------------ harnesses: functions on shared fresh objects
    def harness(self, h):
        from pybsm import utils
        from pybsm.metrics import niirs, niirs5
        from pybsm.otf import functional as F
        from pybsm import radiance as R
        direct, interp = utils.load_database_atmosphere_no_interp, utils.load_database_atmosphere
        X, Y, Z = (1000.0, 1000.0, 1), (500.0, 2000.0, 1), (9000.0, 0.0, 2)
        if h == "load-load":
            return [lambda: direct(*X), lambda: direct(*Y), lambda: direct(*Z)]
        if h == "load-same":
            return [lambda: direct(*X), lambda: direct(*X)]
        if h == "load-haze":
            return [lambda: direct(1000.0, 1000.0, 1), lambda: direct(1000.0, 1000.0, 2)]
        if h == "interp-load":
            return [lambda: interp(1500.25, 1300.5, 1), lambda: direct(2000.0, 1000.0, 1)]
        if h == "interp-interp":
            return [lambda: interp(1500.25, 1000.0, 1), lambda: interp(1000.0, 1300.5, 2)]
        if h == "interp-absent":
            def absent():
                try:
                    direct(1000.0, 1234.0, 1)
                except IndexError:
                    return 1.0
                return 0.0
            return [absent, lambda: direct(*X)]
        if h.startswith("shared-atm"):
            sc = cf.build_scenario(cf.values(cf.SCENARIO, {"ground_range": 3} if h.endswith("interp") else {}),
                                   interp=h.endswith("interp"))
            if h.endswith("load"):
                return [lambda: sc.atm, lambda: direct(500.0, 1000.0, 2)]
            return [lambda: sc.atm, lambda: sc.atm, lambda: sc.atm]
        lam = np.linspace(0.5003e-6, 0.5702e-6, 5)
        mk = lambda **d: cf.build_sensor(cf.values(cf.SENSOR, {}, d))  # noqa: E731
        if h in ("snr-snr", "snr-sensors"):
            s = mk(read_noise=20.0, max_n=900.0, other_noise=[3.0, 4.0])
            s2 = mk(dark_current=3e5, eta=0.4) if h == "snr-sensors" else s
            a, b = 3e7 * (1 + lam * 1e6), 2e7 * (2 - lam * 1e6)
            return [lambda: R.photon_detector_SNR(s, lam, a, b), lambda: R.photon_detector_SNR(s2, lam, b, a * 0.5)]
        g = np.linspace(-1, 1, 5) * 2e5
        uu, vv = np.meshgrid(g, -g)
        wl, wt = np.array([0.5e-6, 0.55e-6]), np.array([1.0, 0.5])
        if h in ("otf-scenarios", "otf-sensors"):
            s = mk(pv=0.2, s_x=1e-6, da_x=1e-3)
            s2 = mk(eta=0.3, da_y=1e-3) if h == "otf-sensors" else s
            c = cf.build_scenario(cf.values(cf.SCENARIO, {"aircraft_speed": 1}))
            c2 = cf.build_scenario(cf.values(cf.SCENARIO, {"altitude": 2, "cn2_at_1m": 2})) if h != "otf-sensors" else c
            return [lambda: F.common_OTFs(s, c, uu, vv, wl, wt, 1500.0, 1e-3),
                    lambda: F.common_OTFs(s2, c2, uu, vv, wl, wt[::-1], 9100.0, 2e-3)]
        if h == "turb-turb":
            return [lambda: F.polychromatic_turbulence_OTF(uu, vv, wl, wt, 1000.0, 1500.0, 0.1, 21.0, 1.7e-14, 1e-3, 5.0),
                    lambda: F.polychromatic_turbulence_OTF(uu, vv, wl, wt, 9000.0, 9500.0, 0.2, 57.0, 1e-13, 2e-3, 0.0)]
        ax = np.linspace(-1, 1, 31)
        xx, yy = np.meshgrid(ax, -ax)
        h1, h2 = np.exp(-3 * (xx ** 2 + yy ** 2)), np.exp(-8 * xx ** 2 - 2 * yy ** 2)
        if h == "psf-psf":
            return [lambda: F.otf_to_psf(h1, 1.0, 0.05), lambda: F.otf_to_psf(h2, 2.0, 0.02)]
        if h == "blur-blur":
            im = np.add.outer(np.arange(20.0) ** 1.5, np.arange(24.0))
            return [lambda: F.apply_otf_to_image(im, 1.0, 20.0, h1, 1.0, 0.1),
                    lambda: F.apply_otf_to_image(im, 1.0, 30.0, h2, 1.5, 0.07)]
        if h == "reflectance":
            from pybsm.utils import load_database_atmosphere_no_interp as ld
            atm = self.__dict__.setdefault("_atm", ld(*X))
            s = mk(read_noise=20.0, n_tdi=3, max_n=900.0)
            return [lambda: R.reflectance_to_photoelectrons(atm, s, 1e-3),
                    lambda: R.reflectance_to_photoelectrons(atm, s, 3e-3, 310)]
        s = mk(pv=0.2, filter_kernel="sharp" if h == "niirs-niirs5" else "flat1", s_x=1e-6)
        c = cf.build_scenario(cf.values(cf.SCENARIO, {}))
        if h == "niirs-scenarios":
            c2 = cf.build_scenario(cf.values(cf.SCENARIO, {"altitude": 2, "ihaze": 1}))
            return [lambda: niirs(s, c), lambda: niirs(s, c2)]
        if h == "niirs-sensors":
            s2 = mk(D=0.17, eta=0.3)
            return [lambda: niirs(s, c), lambda: niirs(s2, c)]
        if h == "niirs-shared-scenario":
            ir = mk(spectral="mwir", max_n=1e9)
            return [lambda: niirs(s, c), lambda: niirs(ir, c)]
        if h == "niirs-niirs5":
            return [lambda: niirs(s, c), lambda: niirs5(s, c)]
        c2 = cf.build_scenario(cf.values(cf.SCENARIO, {"ground_range": 2}))
        return [lambda: niirs5(s, c), lambda: niirs5(s, c2)]

    def want(self, h):
        if h not in self.expected:
            out = []
            for i in range(len(self.harness(h))):
                self.snapshot.reset()
                out.append(flat(self.harness(h)[i]()))
            self.expected[h] = out
        return self.expected[h]

    def schedule(self, bag, h, plan, threads=2, opcodes=False):
        want = self.want(h)
        self.snapshot.reset()
        fns = self.harness(h)[:threads]
        res, steps = sched.Runner(self.w.root + os.sep, opcodes, freeze=freeze).run(fns, plan)
        bag.ops += sum(steps)
        self.judge(bag, res, want, f"{h} plan {plan}{' bytecodes' if opcodes else ''}")
        # a later call in the same process
        later = [("ok", f()) for f in fns]
        self.judge(bag, later, want, f"{h}, called again after plan {plan}")
        return steps

    def judge(self, bag, res, want, where):
        for i, (kind, val, *record) in enumerate(res):
            if kind == "stuck":
                bag.fail("deadlock", f"thread {i}: {where}")
            elif kind == "raised":
                bag.fail("concurrent-call-raises", f"thread {i}: {val!r}: {where}")
            else:
                for got in [flat(val)] + record:  # (as it is now, and as it was when the call returned it)
                    if len(got) != len(want[i]) or not all(a.shape == b.shape and np.array_equal(a, b, equal_nan=True)
                                                           for a, b in zip(got, want[i])):
                        bag.fail("concurrent-result-differs", f"thread {i}: {where}")
                        break

    def observe(self, st, bag):
        h = st["h"]
        n = 0
        if "three" in st:
            a, b = st["three"]
            c = 3 - a - b
            for k2 in range(self.len[h][1] + 1):
                self.schedule(bag, h, [(a, st["k"]), (b, k2), (c, 1 << 60), (a, 0), (b, 0)], 3)
                n += 1
                if bag.fails:
                    break
            return n
        a, b = st["first"], 1 - st["first"]
        if "op" in st or "seg" in st:
            for k in range(*st["op"]) if "op" in st else st["seg"]:
                self.schedule(bag, h, [(a, k), (b, 1 << 60)], opcodes="op" in st)
                n += 1
                if bag.fails:
                    break
            return n
        for k2 in range(self.len[h][b] + 1) if st["two"] else [1 << 60]:
            self.schedule(bag, h, [(a, st["k"]), (b, k2), (a, 1 << 60)])
            n += 1
            if bag.fails:
                break
        return n

    def extra(self):
        return {"scheduling_points_per_thread": self.len}
