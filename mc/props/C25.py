"""C25: a NIIRS evaluation is the documented chain from scene to rating."""
import math

import numpy as np

from mc import chain
from mc import configs as cf
from mc import core, ref

OUT = "gsd_x gsd_y gsd_gm rer_gm eho_gm ng niirs niirs_4 gsd_gp elev_angle".split()


class Prop:
    world = {"entries": chain.ENTRIES, "small_index": True}
    chunk = 24
    probes = {"quick": (64, 10, 10), "thorough": (400, 16, 30)}
    P = chain.parameters()
    assumptions = ["a database of 110 entries with the documented file format; the image filter's response is compared to "
                   "its definition within its interpolation grid and the rest of the chain uses the package's value"]

    def bound(self, tier):
        return f"all assignments with at most two deviations over {len(self.P)} sensor, scenario and call parameters (image " \
               "filters: with the parameters they meet), the full product of altitude, range, haze and interpolation, 31 places from nadir to grazing views and from 2 m to orbit" \
               + ("; triples over exposure, geometry and blur parameters; every filter pair" if tier == "thorough" else "")

    def states(self, tier):
        return chain.states(self.P, tier)

    def observe(self, dev, bag):
        from pybsm.metrics import niirs
        v = chain.values(self.P, dev)
        got = chain.evaluate(self.w.atlas, v, niirs, bag)
        if got is None:
            return None
        nm, o, rs, s, sc = got
        h = chain.responses(bag, v, nm, o, True)
        bag.close(nm.gsd_y, o["gsd_y"], "gsd_y", 1e-9)
        gm = math.sqrt(o["gsd_x"] * o["gsd_y"])
        bag.close(nm.gsd_gm, gm, "gsd_gm", 1e-9)
        u, w = chain.slices(h)
        rx, ry = ref.rer(u, o["df"], o["ifov_x"]), ref.rer(w, o["df"], o["ifov_y"])
        ex, ey = ref.eho(u, o["df"], o["ifov_x"]), ref.eho(w, o["df"], o["ifov_y"])
        rer, eho = math.sqrt(rx * ry), math.sqrt(ex * ey)
        bag.close(nm.rer_gm, rer, "rer_gm", 1e-5)
        gap = min(ref.eho_gap(u, o["df"], o["ifov_x"]), ref.eho_gap(w, o["df"], o["ifov_y"]))
        if gap > 1e-5:
            bag.close(nm.eho_gm, eho, "eho_gm", 1e-5)
        ng = ref.noise_gain(rs.filter_kernel)
        bag.close(nm.ng, ng, "ng", 1e-9)
        snr = math.sqrt(rs.frame_stacks) * o["snr"]["snr"]
        bag.close(nm.niirs, ref.giqe3(nm.rer_gm, gm, nm.eho_gm, ng, snr), "niirs", 1e-7)
        el = math.pi / 2 - math.acos(min(1.0, ref.cos_nadir(0.0, v["altitude"], o["slant_range"])))
        n4, gp = ref.giqe4(nm.rer_gm, gm, nm.eho_gm, ng, snr, el)
        bag.close(nm.niirs_4, n4, "niirs_4", 1e-6)
        bag.close(nm.gsd_gp, gp, "gsd_gp", 1e-6)
        return {k: float(getattr(nm, k)) for k in OUT}

    def edges(self, states):
        return core.lattice_edges(states)

    NOEFFECT = {"own", "target_reflectance", "target_temperature", "background_reflectance", "background_temperature"}

    def relate(self, a, oa, b, ob, bag):
        (p,) = set(b) - set(a)
        if p in self.NOEFFECT:  # the GIQE assumes its own target
            bag.close(np.array(list(ob.values())), np.array(list(oa.values())), f"{p}-changes-the-rating", 1e-12)
        if p == "frame_stacks":
            bag.that(ob["niirs"] > oa["niirs"] and ob["niirs_4"] > oa["niirs_4"], "stacking-does-not-help", (a, b))
