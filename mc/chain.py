"""What a NIIRS evaluation must report, step by step, for one sensor and one scenario (shared by C25 and C26)."""
import math

import numpy as np

from mc import configs as cf
from mc import core, ref
from mc.core import Al
from mc.props.C09 import SNR_FIELDS, compare_snr
from mc.props.C16 import COMPS

R_IN = ("radiance_wavelengths", "tgt_radiance", "bkg_radiance", "mtf_wavelengths", "mtf_weights", "uu", "vv")


# from straight down to grazing, from 2 m to orbit: the first, a middle and the last range of every altitude, and places
# inside two cells of the grid
REACH = {2.0: (100.0, 3000.0), 32.5: (8000.0, 16000.0), 75.0: (2000.0, 24000.0), 150.0: (13000.0, 34000.0), 225.0: (19000.0, 44000.0),
         500.0: (16000.0, 70000.0), 1000.0: (30000.0, 95000.0), 2000.0: (64000.0, 140000.0), 3000.0: (9000.0, 180000.0),
         5000.0: (100000.0, 240000.0), 8000.0: (54000.0, 290000.0), 11000.0: (150000.0, 300000.0), 16000.0: (30000.0, 300000.0),
         20000.0: (0.0, 300000.0), 24500.0: (0.0, 300000.0), 550000.0: (0.0,)}
GEO = [(a, g) for a, gs in REACH.items() for g in gs]
CELLS = [(a, g) for a in (500.0, 1000.0) for g in (26000.0, 28000.0)] + [(a, g) for a in (9000.0, 10000.0) for g in (200000.0, 205000.0)] + [(a, g) for a in (500.0, 1000.0, 9000.0, 10000.0) for g in (0.0, 100.0)]
PLACES = [None] + GEO + [(700.0, 27500.0), (999.9, 26001.0), (9500.0, 204000.0), (9000.5, 200000.0)]
OVER = [(1000.0, 0.5), (1000.0, 9.0), (991.5, 33.0), (9500.0, 77.0)]  # almost straight down
PLACES += OVER
ENTRIES = cf.ENTRIES + [(a, g, h) for a, g in GEO + CELLS for h in (1, 2)]


def values(P, dev):
    v = core.values(P, dev)
    if v["place"] is not None:
        v["altitude"], v["ground_range"] = v["place"]
    return v


def parameters(wide=True):
    P = dict(cf.NARROW)
    P["place"] = Al([None], PLACES[1:])
    P["interp"] = [False, True]
    # the scenario's own interpolation flag (as the call's, or the opposite) and whether its atmosphere was read before
    P["own"] = ["same", "read", "other", "other read"]
    # how the caller says so: a Python or a numpy boolean, a whole number, None, by position or by name
    P["flag"] = Al(["plain"], ["numpy", "number", "none", "named", "named number"])
    P["pv"] = Al([0.1, 0.0], [1e-3, 0.01, 2.0])
    P["s_x"], P["s_y"] = Al([4e-7, 0.0, 1.1e-6], [1e-9, 1e-5]), Al([7e-7, 0.0, 1.7e-6], [1e-9, 1e-5])
    P["da_x"] = Al([4e-4, 0.0, 1.3e-3], [1e-6, -4e-4, 0.05])
    P["da_y"] = Al([6e-4, 0.0, -2.1e-3], [1e-6, -1e-6, 0.05])
    P["aircraft_speed"] = Al([8.0, 0.0, 60.0], [0.01, 0.5, 8.01, 1000.0])
    P["filter_kernel"] = ["flat1", "sharp", "row", "col", "asym", "none"]
    P["read_noise"] = Al([12.0, 0.0, 35.0], [0.01, 1.0, 1e4])
    return core.widen(P, skip=("spectral", "filter_kernel", "ihaze", "other_noise", "interp", "own", "place", "flag")) if wide else P


def bases(P):
    """Settings from which every single deviation is explored too: a hot band that fills the wells, a cool one read
    through the database's blend."""
    return [{"spectral": P["spectral"].index("lwir"), "max_n": 1},
            {"spectral": P["spectral"].index("mwir"), "interp": 1, "ground_range": 2}]


def states(P, tier):
    """All single deviations, all pairs (filter kernels: pairs with the parameters they meet in the chain)."""
    with_kernel = {"p_x", "f", "interp", "frame_stacks", "spectral", "p_y", "D"}
    lat = []
    for d in core.lattice(P, 2, [["spectral", "altitude", "ground_range", "interp"], ["altitude", "interp", "own"]] if tier == "thorough" else
                          [["altitude", "ground_range", "interp", "ihaze"], ["altitude", "interp", "own"]], bases(P)):
        k = d.get("filter_kernel", 0)
        if 0 < k < 5 and len(d) == 2 and tier == "quick":
            (o,) = set(d) - {"filter_kernel"}
            if o not in with_kernel or k not in (1, 2):
                continue
        lat.append(d)
    lat += [{"place": k, **d} for k in range(1, len(PLACES)) for d in ({"interp": 1}, {"spectral": 9}, {"ihaze": 1}, {"interp": 1, "spectral": 7, "ihaze": 1},
                                                                        {"filter_kernel": 1, "f": 1}, {"eta": 1, "p_y": 1})]
    off = PLACES.index((700.0, 27500.0))
    lat += [{"place": off, "interp": i, "flag": k} for k in range(1, len(P["flag"])) for i in (0, 1)]
    if tier == "thorough":
        seen = {core.key(d) for d in lat}
        # triples over the parameters that meet in the exposure, geometry and blur steps
        for names in (["spectral", "int_time", "max_n", "n_tdi", "max_well_fill", "bit_depth", "frame_stacks"],
                      ["spectral", "altitude", "ground_range", "interp", "p_x", "p_y", "f", "D", "eta", "ihaze"],
                      ["D", "altitude", "n_tdi", "int_time", "aircraft_speed", "cn2_at_1m", "da_x", "ha_wind_speed"]):
            for d in core.lattice({p: P[p] for p in names}, 3):
                if core.key(d) not in seen:
                    seen.add(core.key(d))
                    lat.append(d)
    return lat


def atmosphere(atlas, v, bag):
    """The documented atmosphere, or None when the request is outside the database."""
    if not v["interp"]:
        return atlas.lookup(v["altitude"], v["ground_range"], v["ihaze"])
    return cf.bilinear(atlas, v["altitude"], v["ground_range"], v["ihaze"])


def switch(v):
    """The interpolation switch as this caller spells it: further positional and named arguments."""
    on, how = v["interp"], v.get("flag", "plain")
    x = {"numpy": np.bool_(on), "none": on or None}.get(how, int(on) if "number" in how else bool(on))
    if "named" in how:
        return (), {"interp": x}
    return ((x,) if on or how != "plain" else ()), {}


def evaluate(atlas, v, fun, bag, again=False):
    """Run one evaluation; returns (metrics, reference record) or None when an index error is the specified outcome."""
    s, sc = cf.build_sensor(v), cf.build_scenario(v, v["interp"] != ("other" in v["own"]))
    atm = atmosphere(atlas, v, bag)
    before = core.snap(s)
    if "read" in v["own"]:
        try:
            sc.atm
        except IndexError:
            pass
    more, named = switch(v)
    if atm is None:
        core.call(bag, fun.__name__, fun, s, sc, *more, expect=(IndexError,), again=False, **named)
        bag.that(core.snap(s) == before, "sensor-changed")
        return None
    try:
        bag.ops += 1
        nm = fun(s, sc, *more, **named)
    except Exception as e:
        bag.fail("evaluation-raises", f"{type(e).__name__}: {e}")
        raise core.Skip() from e
    bag.that(core.snap(s) == before, "sensor-changed", "the evaluation altered the sensor")
    bag.that(nm.sensor is s and nm.scenario is sc, "evaluation-not-linked-to-its-inputs")
    emissive = bool(cf.SPECTRAL[v["spectral"]]["wl"][0] >= 2.9e-6)
    want = {"name": "scenario", "ihaze": v["ihaze"], "altitude": v["altitude"], "ground_range": v["ground_range"],
            "aircraft_speed": v["aircraft_speed"], "ha_wind_speed": v["ha_wind_speed"], "cn2_at_1m": v["cn2_at_1m"],
            "target_reflectance": 0.0 if emissive else 0.15, "background_reflectance": 0.0 if emissive else 0.07,
            "target_temperature": 282.0 if emissive else v["target_temperature"],
            "background_temperature": 280.0 if emissive else v["background_temperature"]}
    for k, x in want.items():
        bag.that(getattr(sc, k, None) == x, f"scenario-{k}", f"{getattr(sc, k, None)} instead of {x}")
    if bag.probe:
        from mc import decoys
        decoys.probe(bag, fun.__name__, fun, (s, sc, v["interp"]), {})
    # the chain
    rs, rsc = cf.ref_sensor(v), cf.Rec(**v)
    lam = atm[:, 0]
    keep = (lam >= rs.opt_trans_wavelengths[0]) & (lam <= rs.opt_trans_wavelengths[-1])
    bag.close(nm.atm, atm[keep], "atmosphere", 1e-5, 1e-12)
    slant = ref.slant_curved(0.0, v["altitude"], v["ground_range"])
    bag.close(nm.slant_range, slant, "slant_range", 1e-6)
    if bag.fails:
        raise core.Skip()
    o = ref.niirs_chain(rs, rsc, np.asarray(nm.atm), float(nm.slant_range))
    for k in R_IN:
        bag.close(getattr(nm, k, None), o[k], k, 1e-9, 1e-3 if k in ("uu", "vv") else 0.0)
    for k in ("cutoff_frequency", "df", "ifov_x", "ifov_y", "gsd_x"):
        bag.close(getattr(nm, k, None), o[k], k, 1e-9)
    compare_snr(bag, nm.snr, o["snr"])
    bag.close(nm.snr.path_noise, o["snr"]["path_noise"], "path_noise", 1e-9)
    bag.close(nm.snr.scene_noise, o["snr"]["scene_noise"], "scene_noise", 1e-6,
              1e-7 * o["snr"]["path_noise"])
    elev = math.pi / 2 - math.acos(min(1.0, ref.cos_nadir(0.0, v["altitude"], slant)))
    bag.close(nm.elev_angle, elev, "elev_angle", 0, 1e-5)
    return nm, o, rs, s, sc


def responses(bag, v, nm, o, filtered):
    """Check every component and return the reference system response."""
    from pybsm.otf import functional as F
    k = cf.kernel(v["filter_kernel"])
    comp = dict(o["otf"])
    if filtered and k.size > 1:
        ifov = v["p_x"] / v["f"]
        bag.close(nm.otf.filter_OTF, ref.kernel_mtf(o["uu"], o["vv"], k, ifov), "filter_OTF", 0.0, ref.kernel_mtf_tol(k))
        comp["filter_OTF"] = F.filter_OTF(o["uu"], o["vv"], k, ifov)
    else:
        comp["filter_OTF"] = np.ones(o["uu"].shape)
    for c in COMPS:
        bag.close(getattr(nm.otf, c, None), comp[c], c, 1e-8, 1e-8 if c != "turb_OTF" else 2e-6)
    if "r0_band" in comp:
        bag.close(nm.otf.r0_band, comp["r0_band"], "r0_band", 1e-6)
    h = ref.product(comp)
    bag.close(nm.otf.system_OTF, h, "system_OTF", 1e-6, 5e-6)
    return np.abs(h)


def slices(h):
    return h[50, 50:100], h[50:0:-1, 50]


def summary(nm, names):
    out = {n: getattr(nm, n) for n in names}
    out["snr"] = {f: np.array(getattr(nm.snr, f)) for f in SNR_FIELDS}
    return out
