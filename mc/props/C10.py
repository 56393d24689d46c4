"""C10: reflectance -> photoelectron curve."""
import numpy as np

from mc import configs as cf
from mc import core, ref
from mc.core import Al


COLD = cf.SENSOR["cold_shield_temperature"].index(20.0)


class Prop:
    probes = {"quick": (60, 12, 20), "thorough": (400, 40, 100)}
    world = {"entries": cf.ENTRIES, "small_index": True}
    SKIP = ("s_x", "s_y", "da_x", "da_y", "pv", "pv_wavelength", "L_x", "L_y", "filter_kernel", "frame_stacks", "p_x",
            "p_y", "read_noise", "bit_depth", "other_noise", "max_well_fill", "int_time")
    assumptions = ["three synthetic atmospheres and one with zeroed columns"]

    def __init__(self):
        self.P = {k: v for k, v in cf.SENSOR.items() if k not in self.SKIP}
        self.P["int"] = Al([1e-3, 2e-2, 1e-5, 1, 0.0], [1e-9, 1.0001e-3])
        self.P["atm"] = ["a", "b", "night", "ones", "dim", "dimmer"]
        self.P["temp"] = Al([None, 300, 250.0, 400.0], [300.01, 299.0, 200.5, 600.0])
        self.P.update(core.widen({k: self.P[k] for k in ("int", "temp")}))
        self.BIG = ["spectral", "max_n", "int", "temp"]

    def bound(self, tier):
        return f"at most {2 if tier == 'quick' else 3} deviations over {len(self.P)} parameters and the full product " \
               "of band, well capacity, integration time and temperature"

    def states(self, tier):
        # (the last ones overfill the well, or do not quite fill it, by a given part)
        return [{"dev": d} for d in core.lattice(self.P, 2 if tier == "quick" else 3, [self.BIG], self.bases())] + [
            {"dev": d, "over": x} for d in ({}, {"spectral": 9, "int": 1}, {"spectral": 7, "eta": 1}, {"n_tdi": 1})
            for x in [1.0] + [1 + s * e for e in core.ladder([1e-10, 0.7], 2) for s in (1, -1)] + core.ladder([2.0, 1e7], 1)]

    def bases(self):
        """Single deviations from thermal bands too, with room in the wells and with full ones."""
        sp = self.P["spectral"].index
        return [{"spectral": sp("lwir"), "int": 2}, {"spectral": sp("mwir")}, {"spectral": sp("lwir"), "max_n": 1},
                {"atm": 4, "temp": 2, "cold_shield_temperature": COLD}, {"atm": 5, "cold_shield_temperature": COLD}]

    def atm(self, kind):
        at = self.w.atlas
        m = at.lookup(1000.0, 1000.0, 1) if kind != "b" else at.lookup(9000.0, 8000.0, 2)
        m = m.copy()
        if kind == "night":
            m[:, 4:] = 0.0
        if kind == "ones":
            m[:, 1] = 1.0
            m[:, 2:5] = 0.0
        if kind.startswith("dim"):  # hardly any light at all
            m[:, 1:] *= 1e-15 if kind == "dim" else 1e-40
        return m

    def observe(self, st, bag):
        from pybsm import radiance as R
        dev = {k: i for k, i in st["dev"].items() if k in cf.SENSOR}
        v = cf.values(cf.SENSOR, dev)
        s, rs = cf.build_sensor(v), cf.ref_sensor(v)
        p = core.values(self.P, st["dev"])
        atm = self.atm(p["atm"])
        if "over" in st:
            full = cf.Rec(**{**vars(rs), "max_n": 1e300})
            s.max_n = rs.max_n = float(np.max(ref.refl_curve(atm, full, p["int"], 300.0)[1])) / st["over"]
        args = (atm, s, p["int"]) + (() if p["temp"] is None else (p["temp"],))
        before = core.snap(s)
        got = core.call(bag, "curve", R.reflectance_to_photoelectrons, *args, again=False)
        bag.that(core.snap(s) == before, "sensor-changed", st)
        refl, pe, wts = got
        wr, wpe, lam, w, sat = ref.refl_curve(atm, rs, p["int"], 300.0 if p["temp"] is None else float(p["temp"]))
        bag.close(refl, wr, "reflectance-grid", 1e-12, 1e-15)
        bag.close(pe, wpe, "photoelectrons", 1e-9, 1e-12)
        bag.that(np.all(pe <= s.max_n * (1 + 1e-12)), "well-overfilled", float(np.max(pe)))
        if sat > 1:
            bag.close(np.max(pe), s.max_n, "saturated-curve-does-not-fill-the-well", 1e-9)
        # affine: second differences vanish
        d2 = np.diff(pe, 2)
        bag.that(np.all(np.abs(d2) <= 1e-9 * (np.max(np.abs(pe)) + 1e-300)), "curve-not-affine", float(np.max(np.abs(d2))))
        wts = np.asarray(wts)
        if bag.that(wts.shape == (2, lam.size), "weights-shape", wts.shape):
            bag.close(wts[0], lam, "weights-wavelengths", 1e-12)
            bag.close(wts[1], w, "weights", 1e-9, 1e-15)
            bag.close(np.max(wts[1]), 1.0, "weights-not-normalized", 1e-12)
        return [float(pe[0]), float(pe[-1]), float(sat)]

    def edges(self, states):
        return core.lattice_edges([s for s in states if "over" not in s], "dev")

    def relate(self, a, oa, b, ob, bag):
        (p,) = set(b["dev"]) - set(a["dev"])
        if p == "n_tdi" and oa[2] == 1 and ob[2] == 1:
            k = self.P[p][b["dev"][p]]
            bag.close(ob[:2], [x * k for x in oa[:2]], "not-proportional-to-tdi", 1e-9)
