"""Sensor and scenario configuration spaces shared by the checks.

Every parameter has an ordered alphabet of JSON-able values whose first element is the base value.  `SENSOR`
covers every documented sensor attribute, `SCENARIO` every scenario attribute.
"""
import numpy as np

from mc.core import Al, widen

ALTS = [1000.0, 500.0, 9000.0, 2000.0]
RNGS = [1000.0, 0.0, 8000.0, 2000.0]
ENTRIES = [(a, g, h) for a in ALTS for g in RNGS for h in (1, 2)]

UM = 1e-6
SPECTRAL = {
    "vis": {"wl": [0.5003e-6, 0.5702e-6]},
    "vis_uneven": {"wl": [0.5003e-6, 0.5111e-6, 0.5305e-6, 0.5702e-6], "trans": [0.2, 0.9, 0.5, 0.7]},
    "vis_qe": {"wl": [0.5003e-6, 0.5702e-6], "trans": [0.8, 0.4], "qewl": [0.4401e-6, 0.5201e-6, 0.5502e-6],
               "qe": [0.1, 0.9, 0.3]},
    "wide": {"wl": [0.4003e-6, 0.7002e-6], "trans": [0.6, 0.9]},
    "nir_grid": {"wl": [0.9e-6, 1.0e-6]},
    "swir": {"wl": [2.8703e-6, 2.9502e-6]},
    "edge": {"wl": [2.9e-6, 2.97e-6]},
    "mwir": {"wl": [3.5003e-6, 3.6502e-6], "trans": [0.9, 0.7]},
    "mwir_qe": {"wl": [3.5003e-6, 3.6502e-6], "qewl": [3.5304e-6, 3.7e-6], "qe": [0.7, 0.5]},
    "lwir": {"wl": [8.0003e-6, 8.1502e-6]},
    # weights over many decades, the faint ones at the short end (they set the cutoff frequency)
    "decades": {"wl": [0.5003e-6, 0.6202e-6], "qewl": [0.48e-6, 0.5351e-6, 0.5552e-6, 0.5953e-6, 0.7e-6],
                "qe": [1e-12, 1e-8, 1e-4, 0.02, 1.0]},
    # no response in the middle of the band, a faint throughput at its end
    "gap": {"wl": [0.5003e-6, 0.5801e-6, 0.6402e-6], "trans": [0.9, 0.3, 1e-6],
            "qewl": [0.5e-6, 0.5151e-6, 0.5252e-6, 0.5653e-6, 0.5754e-6, 0.7e-6], "qe": [0.8, 0.0, 0.0, 0.0, 0.6, 0.7]},
    # more than one electron per photon (photoconductive gain)
    "gain": {"wl": [0.5003e-6, 0.5702e-6], "trans": [0.9, 0.7], "qewl": [0.5e-6, 0.5401e-6, 0.6e-6], "qe": [0.9, 1.6, 2.4]},
    # finely sampled curves
    "fine": {"wl": [0.5003e-6 + 2.7e-9 * i for i in range(41)], "trans": [0.3 + 0.02 * ((i * 5) % 31) for i in range(41)],
             "qewl": [0.4905e-6 + 3.9e-9 * i for i in range(35)], "qe": [0.1 + 0.03 * ((i * 7) % 23) for i in range(35)]},
}

KERNELS = {
    "none": [[1.0]],
    "flat1": None,  # the 1-D default np.array([1])
    "sharp": [[0.0, -0.1, 0.0], [-0.1, 1.4, -0.1], [0.0, -0.1, 0.0]],
    "row": [[-0.25, 1.5, -0.25]],
    "col": [[-0.2], [1.4], [-0.2]],
    "blur": [[0.0625, 0.125, 0.0625], [0.125, 0.25, 0.125], [0.0625, 0.125, 0.0625]],
    "diag": [[0.5, 0.0], [0.0, 0.5]],
    "asym": [[0.0, 0.25, 0.0], [0.0, 0.5, 0.25]],
}

SENSOR = {
    "spectral": ["vis", "vis_uneven", "vis_qe", "wide", "nir_grid", "swir", "edge", "mwir", "mwir_qe", "lwir",
                 "decades", "gap", "fine", "gain"],
    "D": Al([0.1, 0.17], [0.1001, 0.01, 2.5]),
    "f": Al([1.0, 0.6], [1.0001, 12.0, 0.2]),
    "p_x": Al([8e-6, 1.2e-5], [8.001e-6, 3e-5]),
    "p_y": Al([8e-6, 6e-6], [8.0005e-6, 2e-5]),
    "w_x": Al([8e-6, 7e-6], [7.999e-6, 1e-6]),
    "w_y": Al([8e-6, 5e-6], [7.999e-6, 1e-6]),
    "eta": Al([0.0, 0.3, 0.45], [0.005, 0.02, 0.1, 0.9]),
    "int_time": Al([1e-3, 7e-3], [1e-6, 0.25]),
    "dark_current": Al([0.0, 3e5], [1e-3, 1.0, 1e9]),
    "other_irradiance": Al([0.0, 4e4], [1e-3, 1e8]),
    "read_noise": Al([0.0, 35.0], [0.01, 1.0, 1e4]),
    "max_n": Al([100000000, 900.0], [1.0, 1e12]),
    "max_well_fill": Al([1.0, 0.6], [0.999, 1e-3]),
    "bit_depth": Al([100.0, 8, 11.9], [1, 16, 24.0]),
    "n_tdi": Al([1.0, 3, 16], [2, 64, 1000.0]),
    "cold_shield_temperature": Al([70.0, 285.0], [71.0, 400.0, 20.0]),
    "optics_temperature": Al([270.0, 300.0], [270.5, 500.0]),
    "optics_emissivity": Al([0.0, 0.12], [1e-4, 0.01, 1.0]),
    "cold_filter_transmission": Al([1.0, 0.8], [0.999, 0.01]),
    "cold_filter_temperature": Al([70.0, 250.0], [71.0, 400.0]),
    "cold_filter_emissivity": Al([0.0, 0.2], [1e-4, 0.01, 1.0]),
    "s_x": Al([0.0, 1.1e-6], [1e-9, 1e-5]),
    "s_y": Al([0.0, 1.7e-6], [1e-9, 1e-5]),
    "da_x": Al([0.0, 1.3e-3], [1e-6, -1e-6, 0.05]),
    "da_y": Al([0.0, -2.1e-3], [1e-6, -1e-6, 0.05]),
    "pv": Al([0.0, 0.4], [1e-3, 0.01, 2.0]),
    "pv_wavelength": Al([0.633e-6, 1.0e-6], [0.6331e-6, 10e-6]),
    "L_x": Al([None, 0.05], [0.0999, 0.01, 3.0]),
    "L_y": Al([None, 0.2], [0.1001, 0.01, 3.0]),
    "other_noise": Al([[0], [20.0], [3.0, 4.0, 12.0]], [[0.01], [1.0, 0.0], [7.0, 7.0], [30.0, 2.0, 30.0, 0.5], [5, 9, 5],
                                                       [float(i % 7) for i in range(40)], [[1.0, 2.0], [3.0, 4.0]]]),
    "filter_kernel": ["flat1", "sharp", "row", "col"],
    "frame_stacks": Al([1, 4], [2, 3, 100]),
}
SCENARIO = {
    "ihaze": [1, 2],
    "altitude": Al([1000.0, 500.0, 9000.0, 1500.25], [1000.01, 999.5]),
    "ground_range": Al([1000.0, 0.0, 8000.0, 1300.5], [1000.01, 0.001, 1999.999]),
    "aircraft_speed": Al([0.0, 60.0], [0.01, 0.5, 1000.0]),
    "ha_wind_speed": Al([21.0, 57.0], [1.0, 21.1, 0.0]),
    "cn2_at_1m": Al([1.7e-14, 0.0, 3e-13], [1e-20, 1e-17, 1.71e-14, 1e-11]),
    "target_reflectance": Al([0.15, 0.4], [0.0, 1.0, 0.151]),
    "target_temperature": Al([295.0, 310.0], [295.001, 282.0]),
    "background_reflectance": Al([0.07, 0.3], [0.0, 1.0, 0.07001]),
    "background_temperature": Al([293.0, 270.0], [293.001, 280.0]),
}
NARROW = {**SENSOR, **SCENARIO}  # (without ladders, for checks whose states are costly)
WIDE = widen({**SENSOR, **SCENARIO}, skip=("spectral", "filter_kernel", "ihaze", "other_noise"))
SENSOR, SCENARIO = {p: WIDE[p] for p in SENSOR}, {p: WIDE[p] for p in SCENARIO}
BASE_PV = 0.1  # a base in which pv is on, so that pv_wavelength and L matter


def kernel(name):
    k = KERNELS[name]
    return np.array([1]) if k is None else np.array(k)


def values(space, dev, base=None):
    v = {p: space[p][dev[p]] if p in dev else space[p][0] for p in space}
    for p, x in (base or {}).items():
        if p not in dev:
            v[p] = x
    return v


def split(dev):
    return ({p: i for p, i in dev.items() if p in SENSOR}, {p: i for p, i in dev.items() if p in SCENARIO})


def sensor_kwargs(v):
    names = ("eta p_y w_x w_y int_time dark_current other_irradiance read_noise max_n max_well_fill bit_depth n_tdi "
             "cold_shield_temperature optics_temperature optics_emissivity cold_filter_transmission "
             "cold_filter_temperature cold_filter_emissivity s_x s_y da_x da_y pv pv_wavelength").split()
    return {n: v[n] for n in names}


def build_sensor(v, name="sensor"):
    from pybsm.simulation import Sensor
    sp = SPECTRAL[v["spectral"]]
    s = Sensor(name, v["D"], v["f"], v["p_x"], np.array(sp["wl"]), **sensor_kwargs(v))
    if "trans" in sp:
        s.optics_transmission = np.array(sp["trans"])
    if "qe" in sp:
        s.qe_wavelengths = np.array(sp["qewl"])
        s.qe = np.array(sp["qe"])
    if v["L_x"] is not None:
        s.L_x = v["L_x"]
    if v["L_y"] is not None:
        s.L_y = v["L_y"]
    s.other_noise = np.array(v["other_noise"])
    s.filter_kernel = kernel(v["filter_kernel"])
    s.frame_stacks = v["frame_stacks"]
    return s


class Rec:
    """A plain record: the reference model's own view of a sensor or scenario."""

    def __init__(self, **kw):
        self.__dict__.update(kw)


def ref_sensor(v):
    """What the sensor built from v must hold, from the documentation alone."""
    sp = SPECTRAL[v["spectral"]]
    r = Rec(**sensor_kwargs(v))
    r.D, r.f, r.p_x = v["D"], v["f"], v["p_x"]
    r.opt_trans_wavelengths = np.array(sp["wl"])
    r.optics_transmission = np.array(sp.get("trans", [1.0] * len(sp["wl"])))
    r.qe_wavelengths = np.array(sp.get("qewl", sp["wl"]))
    r.qe = np.array(sp.get("qe", [1.0] * len(sp["wl"])))
    r.L_x = v["D"] if v["L_x"] is None else v["L_x"]
    r.L_y = v["D"] if v["L_y"] is None else v["L_y"]
    r.other_noise = np.array(v["other_noise"], dtype=float)
    r.filter_kernel = kernel(v["filter_kernel"])
    r.frame_stacks = v["frame_stacks"]
    return r


def build_scenario(v, interp=False, name="scenario"):
    from pybsm.simulation import Scenario
    return Scenario(name, v["ihaze"], v["altitude"], v["ground_range"], v["aircraft_speed"],
                    v["target_reflectance"], v["target_temperature"], v["background_reflectance"],
                    v["background_temperature"], v["ha_wind_speed"], v["cn2_at_1m"], interp)


def ref_scenario(v):
    return Rec(**{k: v[k] for k in SCENARIO})


def bilinear(atlas, alt, rng, haze):
    """Reference interpolation; None when the request is outside the database."""
    alts = [a for a in atlas.altitudes if a <= 20000.0]
    rngs = [g for g in atlas.ranges if g <= 300000.0]
    if not (alts[0] <= alt <= alts[-1] and rngs[0] <= rng <= rngs[-1]):
        return None

    def around(xs, x):
        lo = max(a for a in xs if a <= x)
        hi = min(a for a in xs if a >= x)
        return [(lo, 1.0)] if lo == hi else [(lo, (hi - x) / (hi - lo)), (hi, (x - lo) / (hi - lo))]

    acc = 0.0
    for a, wa in around(alts, alt):
        for g, wg in around(rngs, rng):
            m = atlas.lookup(a, g, haze)
            if m is None:
                return None
            acc = acc + wa * wg * m
    return acc
