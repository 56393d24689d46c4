"""C26: a GIQE 5 evaluation ignores sharpening and follows the same chain."""
import math

import numpy as np

from mc import chain
from mc import configs as cf
from mc import core, ref
from mc.props.C09 import SNR_FIELDS

SHARED = ("slant_range atm tgt_radiance bkg_radiance radiance_wavelengths mtf_wavelengths mtf_weights cutoff_frequency uu vv "
          "df ifov_x ifov_y gsd_x elev_angle").split()
OUT = "gsd_x rer_0 rer_90 rer gsd_w niirs elev_angle".split()


class Prop:
    world = {"entries": chain.ENTRIES, "small_index": True}
    chunk = 24
    probes = {"quick": (64, 10, 10), "thorough": (400, 16, 30)}
    P = chain.parameters()
    assumptions = ["a database of 110 entries with the documented file format"]

    def bound(self, tier):
        return f"all assignments with at most two deviations over {len(self.P)} sensor, scenario and call parameters, the " \
               "full product of altitude, range, haze and interpolation, 31 places from nadir to grazing views and from 2 m to orbit" \
               + ("; triples over exposure, geometry and blur parameters" if tier == "thorough" else "") \
               + "; shared intermediates compared with the GIQE 3/4 evaluation at every single deviation"

    def states(self, tier):
        return chain.states(self.P, tier)

    def observe(self, dev, bag):
        from pybsm.metrics import niirs, niirs5
        v = chain.values(self.P, dev)
        got = chain.evaluate(self.w.atlas, v, niirs5, bag)
        if got is None:
            return None
        nm, o, rs, s, sc = got
        h = chain.responses(bag, v, nm, o, False)
        u, w = chain.slices(h)
        rx, ry = ref.rer(u, o["df"], o["ifov_x"]), ref.rer(w, o["df"], o["ifov_y"])
        bag.close(nm.rer_0, rx, "rer_0", 1e-5)
        bag.close(nm.rer_90, ry, "rer_90", 1e-5)
        snr = math.sqrt(rs.frame_stacks) * o["snr"]["snr"]
        el = math.pi / 2 - math.acos(min(1.0, ref.cos_nadir(0.0, v["altitude"], o["slant_range"])))
        n5, gw, rer = ref.giqe5(nm.rer_0, nm.rer_90, o["gsd_x"], snr, el)
        bag.close(nm.niirs, n5, "niirs", 1e-6)
        bag.close(nm.gsd_w, gw, "gsd_w", 1e-6)
        bag.close(nm.rer, rer, "rer", 1e-9)
        if len(dev) <= 1:
            self.shared(bag, v, nm, niirs)
        return {k: float(getattr(nm, k)) for k in OUT}

    def shared(self, bag, v, nm, niirs):
        """The GIQE 3/4 evaluation of the same settings reports the same intermediates."""
        s, sc = cf.build_sensor(v), cf.build_scenario(v, v["interp"])
        n3 = niirs(s, sc, v["interp"])  # (records its assumptions on the scenario)
        bag.ops += 1
        for k in SHARED:
            bag.close(getattr(nm, k), getattr(n3, k), f"shared-{k}-differs", 1e-12)
        for k in SNR_FIELDS + ["path_noise", "scene_noise"]:
            bag.close(getattr(nm.snr, k), getattr(n3.snr, k), f"shared-{k}-differs", 1e-12, 1e-14)
        for c in ("ap_OTF", "turb_OTF", "det_OTF", "jit_OTF", "drft_OTF", "wav_OTF"):
            bag.close(getattr(nm.otf, c), getattr(n3.otf, c), f"shared-{c}-differs", 1e-12, 1e-14)

    def edges(self, states):
        return core.lattice_edges(states)

    NOEFFECT = {"own", "target_reflectance", "target_temperature", "background_reflectance", "background_temperature",
                "filter_kernel"}

    def relate(self, a, oa, b, ob, bag):
        (p,) = set(b) - set(a)
        if p in self.NOEFFECT:
            bag.close(np.array(list(ob.values())), np.array(list(oa.values())), f"{p}-changes-the-rating", 1e-12)
        if p == "frame_stacks":
            bag.that(ob["niirs"] > oa["niirs"], "stacking-does-not-help", (a, b))
