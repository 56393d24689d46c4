"""C27: results never depend on what was evaluated before.

A history is executed in a child of a pristine process; afterwards every evaluation of it is repeated, on objects built
from the tracked attribute values, in a pristine child of its own, and compared.
"""
import sys

import numpy as np

from mc import configs as cf
from mc import core, decoys, zygote
from mc.props.C05 import flat

GARBAGE = 0.123456789

# settings: name -> (where, attribute, value)
SET = {k: ("sensor", k, v) for k, v in {
    "D": 0.17, "f": 0.6, "p_x": 1.2e-5, "p_y": 6e-6, "w_x": 7e-6, "w_y": 5e-6, "eta": 0.3, "int_time": 7e-3,
    "dark_current": 3e5, "other_irradiance": 4e4, "read_noise": 35.0, "max_n": 900.0, "max_well_fill": 0.6,
    "bit_depth": 8, "n_tdi": 3, "optics_temperature": 300.0, "optics_emissivity": 0.12,
    "cold_filter_transmission": 0.8, "cold_filter_temperature": 250.0, "cold_filter_emissivity": 0.2,
    "cold_shield_temperature": 285.0, "s_x": 1.1e-6, "s_y": 1.7e-6, "da_x": 1.3e-3, "da_y": -2.1e-3, "pv": 0.4,
    "pv_wavelength": 1e-6, "L_x": 0.05, "L_y": 0.2, "frame_stacks": 4}.items()}
SET.update({k: ("scenario", k, v) for k, v in {
    "ihaze": 2, "altitude": 500.0, "ground_range": 2000.0, "aircraft_speed": 60.0, "ha_wind_speed": 57.0,
    "cn2_at_1m": 3e-13, "target_reflectance": 0.4, "target_temperature": 310.0, "background_reflectance": 0.3,
    "background_temperature": 270.0}.items()})
SET["optics_transmission"] = ("array", "optics_transmission", [0.3, 0.9])
SET["qe"] = ("array", "qe", [0.2, 0.8])
SET["qe_wavelengths"] = ("array", "qe_wavelengths", [0.48e-6, 0.62e-6])
SET["opt_trans_wavelengths"] = ("array", "opt_trans_wavelengths", [0.5103e-6, 0.5902e-6])
SET["other_noise"] = ("array", "other_noise", [20.0])
SET["filter_kernel"] = ("array", "filter_kernel", [[-0.25, 1.5, -0.25]])
SET["band"] = ("band", None, "mwir")
# the same array object, changed in place
INPLACE = {"qe!": ("qe", [0.9, 0.1]), "optics_transmission!": ("optics_transmission", [0.5, 0.25]),
           "opt_trans_wavelengths!": ("opt_trans_wavelengths", [0.5203e-6, 0.5802e-6]), "other_noise!": ("other_noise", [7.0]),
           "qe_wavelengths!": ("qe_wavelengths", [0.45e-6, 0.6e-6]), "filter_kernel!": ("filter_kernel", None)}
INPUTS = ["u", "wl", "wt", "tgt", "atm", "otf", "img", "kern", "zpath"]
# which input arrays an evaluation reads
READS = {"common": ("u", "wl", "wt"), "parts": ("u", "kern"), "turb": ("u", "wl", "wt"), "path": ("zpath",),
         "blurred": ("img", "otf"), "quality": ("otf", "kern"), "images": ("img", "otf"), "snr": ("lam", "tgt", "bkg"),
         "refl": ("atm",), "radiances": ("atm",), "simulate": ("img",), "psf": ("otf",), "blur": ("img", "otf"),
         "resampled": ("img",), "sliced": ("otf",), "edges": ("otf",), "rer5": ("otf",), "gain": ("kern",),
         "wiener": ("otf",), "stretched": ("img",), "total": ("atm",), "giqe": ("atm",), "filtered": ("u", "kern"),
         "profile": ("zpath",), "fried": ("zpath",), "cutoff": ("otf",)}
ARRAYS = ["qe", "optics_transmission", "qe_wavelengths", "opt_trans_wavelengths", "filter_kernel"]
VARIANTS = 6
SENSOR_NAMES = [k for k in cf.SENSOR if k != "spectral"] + ["optics_transmission", "qe", "qe_wavelengths",
                                                          "opt_trans_wavelengths"]


def spectral(name):
    sp = cf.SPECTRAL[name]
    n = len(sp["wl"])
    return {"opt_trans_wavelengths": list(sp["wl"]), "optics_transmission": sp.get("trans", [1.0] * n),
            "qe_wavelengths": sp.get("qewl", list(sp["wl"])), "qe": sp.get("qe", [1.0] * n)}


def base():
    v = {p: a[0] for p, a in cf.SENSOR.items() if p != "spectral"}
    v.update({p: a[0] for p, a in cf.SCENARIO.items()})
    v.update(spectral("vis"))
    v.update(da_x=4e-4, da_y=6e-4, s_x=4e-7, pv=0.1, aircraft_speed=8.0, other_noise=[0.0], filter_kernel=[1.0],
             L_x=0.1, L_y=0.1, name="sensor", sname="scenario", read_noise=12.0)
    return v


def inputs():
    ax = np.linspace(-1, 1, 9) * 1.5e5
    u, w = np.meshgrid(ax, -ax)
    lam = np.linspace(0.5003e-6, 0.5702e-6, 5)
    q = np.linspace(-1, 1, 33)      # (more than a thousand elements: such arrays are abbreviated when printed)
    y, x = np.mgrid[0:36, 0:30]
    return {"u": u, "v": w, "wl": np.array([0.5e-6, 0.56e-6]), "wt": np.array([1.0, 0.4]), "lam": lam,
            "tgt": 3e7 * (1 + lam / lam[0]), "bkg": 2e7 * (1 + lam / lam[-1]),
            "atm": np.stack([lam, 0.8 + 0 * lam, 1e4 + 0 * lam, 2e5 * lam / lam[0], 3e5 + 0 * lam, 9e6 + 0 * lam], axis=1),
            "otf": np.exp(-4 * (q[None, :] ** 2 + 2 * q[:, None] ** 2)), "img": 50.0 + (x * 7 + y * 5) % 31,
            "kern": np.array([[0.0, 0.1, 0.0], [0.1, 0.6, 0.1], [0.0, 0.1, 0.0]]), "zpath": np.linspace(0, 2000.0, 50)}


CHANGED = {"u": lambda a: a * 0.5, "wl": lambda a: a * 1.1, "wt": lambda a: a[::-1].copy(), "tgt": lambda a: a * 1.7,
           "atm": lambda a: np.concatenate([a[:, :1], a[:, 1:] * 0.7], axis=1), "otf": lambda a: a ** 3,
           "img": lambda a: a[::-1] * 1.0, "kern": lambda a: np.roll(a, 1, 0) * 1.0, "zpath": lambda a: a * 2.0}


class Ctx:
    def __init__(self, v, x):
        self.v, self.x = dict(v), {k: np.array(a) for k, a in x.items()}
        self.build()

    def build(self):
        from pybsm.simulation import Scenario, Sensor
        v = self.v
        s = Sensor(v["name"], v["D"], v["f"], v["p_x"], np.array(v["opt_trans_wavelengths"]))
        for n in SENSOR_NAMES:
            x = v[n]
            setattr(s, n, np.array(x) if isinstance(x, list) else x)
        self.s = s
        self.sc = Scenario(v["sname"], v["ihaze"], v["altitude"], v["ground_range"], v["aircraft_speed"],
                           v["target_reflectance"], v["target_temperature"], v["background_reflectance"],
                           v["background_temperature"], v["ha_wind_speed"], v["cn2_at_1m"])

    def state(self):
        """Attribute values as they are on the objects."""
        return {**{n: _plain(getattr(self.s, n, None)) for n in SENSOR_NAMES},
                **{n: getattr(self.sc, n, None) for n in cf.SCENARIO}}


def _plain(x):
    return np.asarray(x).tolist() if isinstance(x, (np.ndarray, list)) else x


def load(c):
    from pybsm import utils
    return utils.load_database_atmosphere_no_interp(c.v["altitude"], c.v["ground_range"], c.v["ihaze"])


def interp(c):
    from pybsm import utils
    return utils.load_database_atmosphere(c.v["altitude"] + 200.5, c.v["ground_range"] + 300.25, c.v["ihaze"])


def atm(c):
    return c.sc.atm


def snr(c):
    from pybsm import radiance as R
    return R.photon_detector_SNR(c.s, c.x["lam"], c.x["tgt"], c.x["bkg"])


def refl(c):
    from pybsm import radiance as R
    return R.reflectance_to_photoelectrons(c.x["atm"], c.s, c.v["int_time"])


def refl_scene(c):
    from pybsm import radiance as R
    return R.reflectance_to_photoelectrons(c.sc.atm, c.s, c.v["int_time"], 310.0)


def radiances(c):
    from pybsm import radiance as R
    return [R.giqe_radiance(c.x["atm"], 0), R.total_radiance(c.x["atm"], 0.3, 290.0), R.giqe_radiance(c.x["atm"], 1)]


def common(c):
    from pybsm.otf import functional as F
    return F.common_OTFs(c.s, c.sc, c.x["u"], c.x["v"], c.x["wl"], c.x["wt"], 1500.0, c.v["int_time"])


def parts(c):
    from pybsm.otf import functional as F
    u, v, s = c.x["u"], c.x["v"], c.v
    return [F.detector_OTF(u, v, s["w_x"], s["w_y"], s["f"]), F.jitter_OTF(u, v, s["s_x"], s["s_y"]),
            F.circular_aperture_OTF(u, v, 0.55e-6, s["D"], s["eta"]),
            F.circular_aperture_OTF_with_defocus(u, v, 0.55e-6, s["D"], s["f"], 2e-5),
            F.wavefront_OTF(u, v, 0.55e-6, s["pv"], s["L_x"], s["L_y"]), F.drift_OTF(u, v, s["da_x"], s["da_y"]),
            F.filter_OTF(u[:3], v[:3], c.x["kern"], s["p_x"] / s["f"])]


def turb(c):
    from pybsm.otf import functional as F
    v = c.v
    return list(F.polychromatic_turbulence_OTF(c.x["u"], c.x["v"], c.x["wl"], c.x["wt"], v["altitude"], 2 * v["altitude"],
                                               v["D"], v["ha_wind_speed"], v["cn2_at_1m"], v["int_time"],
                                               v["aircraft_speed"]))


def path(c):
    from pybsm import geospatial as G
    from pybsm.otf import functional as F
    cn2 = F.hufnagel_valley_turbulence_profile(c.x["zpath"], c.v["ha_wind_speed"], c.v["cn2_at_1m"])
    return [F.coherence_diameter(0.55e-6, c.x["zpath"], cn2), cn2,
            list(G.altitude_along_slant_path(0.0, c.v["altitude"], 2 * c.v["altitude"])),
            G.curved_earth_slant_range(0.0, c.v["altitude"], c.v["ground_range"])]


def blurred(c):
    from pybsm.otf import functional as F
    df = 1e6 / 21
    return [list(F.apply_otf_to_image(c.x["img"], 0.3, 3e5, c.x["otf"], df, c.v["p_x"] / c.v["f"] / 4)),
            F.otf_to_psf(c.x["otf"], df, 1e-6), F.resample_2D(c.x["img"], 1e-6, 1e-6), F.slice_otf(c.x["otf"], 0.7)]


def quality(c):
    from pybsm import noise
    from pybsm.metrics import functional as M
    h = c.x["otf"]
    return [list(M.giqe_edge_terms(h, 4e3, c.v["p_x"] / c.v["f"], c.v["p_y"] / c.v["f"])),
            list(M.giqe5_RER(h, 4e3, c.v["p_x"] / c.v["f"], c.v["p_y"] / c.v["f"])),
            M.ground_resolved_distance(h[10, 10:], 4e3, 20.0, c.v["p_x"] / c.v["f"], 1500.0),
            noise.noise_gain(c.x["kern"]), noise.quantization_noise(c.v["max_n"], c.v["bit_depth"])]


def images(c):
    from pybsm.simulation import RefImage
    from pybsm.simulation import functional as S
    r = RefImage(c.x["img"], 0.3)
    return [S.img_to_reflectance(c.x["img"], r.pix_values, r.refl_values), S.stretch_contrast_convert_8bit(c.x["img"]),
            S.stretch_contrast_convert_8bit(c.x["img"], [5, 80]), S.wiener_filter(c.x["otf"], 0.02)]


# one call each: nothing in between can drive what it remembers out of a memory of one entry
def psf(c):
    from pybsm.otf import functional as F
    return F.otf_to_psf(c.x["otf"], 1e6 / 21, 1e-6)


def blur(c):
    from pybsm.otf import functional as F
    return list(F.apply_otf_to_image(c.x["img"], 0.3, 3e5, c.x["otf"], 1e6 / 21, c.v["p_x"] / c.v["f"] / 4))


def resampled(c):
    from pybsm.otf import functional as F
    return F.resample_2D(c.x["img"], 1e-6, 1.3e-6)


def sliced(c):
    from pybsm.otf import functional as F
    return F.slice_otf(c.x["otf"], 0.7)


def filtered(c):
    from pybsm.otf import functional as F
    return F.filter_OTF(c.x["u"][:3], c.x["v"][:3], c.x["kern"], c.v["p_x"] / c.v["f"])


def edges(c):
    from pybsm.metrics import functional as M
    return list(M.giqe_edge_terms(c.x["otf"], 4e3, c.v["p_x"] / c.v["f"], c.v["p_y"] / c.v["f"]))


def rer5(c):
    from pybsm.metrics import functional as M
    return list(M.giqe5_RER(c.x["otf"], 4e3, c.v["p_x"] / c.v["f"], c.v["p_y"] / c.v["f"]))


def cutoff(c):
    from pybsm.metrics import functional as M
    return M.ground_resolved_distance(c.x["otf"][10, 10:], 4e3, 20.0, c.v["p_x"] / c.v["f"], 1500.0)


def gain(c):
    from pybsm import noise
    return noise.noise_gain(c.x["kern"])


def wiener(c):
    from pybsm.simulation import functional as S
    return S.wiener_filter(c.x["otf"], 0.02)


def stretched(c):
    from pybsm.simulation import functional as S
    return S.stretch_contrast_convert_8bit(c.x["img"])


def total(c):
    from pybsm import radiance as R
    return R.total_radiance(c.x["atm"], 0.3, 290.0)


def giqe(c):
    from pybsm import radiance as R
    return R.giqe_radiance(c.x["atm"], 1)


def profile(c):
    from pybsm.otf import functional as F
    return F.hufnagel_valley_turbulence_profile(c.x["zpath"], c.v["ha_wind_speed"], c.v["cn2_at_1m"])


def fried(c):
    from pybsm.otf import functional as F
    return F.coherence_diameter(0.55e-6, c.x["zpath"], 1e-15 * np.exp(-np.linspace(0, 3, 50)))


def niirs(c):
    from pybsm.metrics import niirs as f
    return f(c.s, c.sc)


def niirs_interp(c):
    from pybsm.metrics import niirs as f
    return f(c.s, c.sc, True)


def niirs5(c):
    from pybsm.metrics import niirs5 as f
    return f(c.s, c.sc)


def simulate(c):
    from pybsm.simulation import RefImage, simulate_image
    np.random.seed(5)
    r = RefImage(np.kron(c.x["img"], np.ones((3, 3))), 0.004)
    return list(simulate_image(r, c.s, c.sc))


EVAL = {f.__name__: f for f in (load, interp, atm, snr, refl, refl_scene, radiances, common, parts, turb, path, blurred,
                                quality, images, niirs, niirs_interp, niirs5, simulate)}
CHEAP = [k for k in EVAL if k not in ("simulate",)]
SOLO = {f.__name__: f for f in (psf, blur, resampled, sliced, filtered, edges, rer5, cutoff, gain, wiener, stretched, total,
                                giqe, profile, fried)}
EVAL.update(SOLO)
RECORDS = {"niirs", "niirs_interp", "niirs5"}


def arrays(out):
    return [np.array(a) for a in flat(out)]


def variant(a, j):
    """The j-th array that agrees with a on cheap digests (a itself when there are fewer)."""
    return next((b for i, b in enumerate(decoys.arrays(a)) if i == int(j)), a)


def nudged(x):
    if isinstance(x, (int, np.integer)) and x >= 4:
        return x + 1
    return x * 1.0003 if x else 4e-4


def process():
    """What an evaluation shares with the rest of the process."""
    import locale
    import os
    import random
    import threading
    import warnings
    return {"random numbers": repr(np.random.get_state()), "random module": hash(random.getstate()), "folder": os.getcwd(),
            "environment": dict(os.environ), "floating-point errors": (np.geterr(), np.geterrcall()), "recursion": sys.getrecursionlimit(),
            "warning filters": [str(f) for f in warnings.filters], "printing": repr(np.get_printoptions()),
            "threads": threading.active_count(), "search path": list(sys.path), "locale": locale.setlocale(locale.LC_ALL),
            "streams": (id(sys.stdout), id(sys.stderr)), "umask": _umask()}


def _umask():
    import os
    m = os.umask(0o22)
    os.umask(m)
    return m


def elsewhere(op):
    """Something unrelated happens in the process."""
    import os
    import random
    if op == "at:folder":
        os.chdir("/")
    elif op == "at:printing":
        np.set_printoptions(precision=2, threshold=5, suppress=True)
    elif op == "at:random":
        np.random.seed(99)
        random.seed(7)
    elif op == "at:time":
        import time
        from datetime import datetime  # noqa: F401
        real = time.time
        time.time = lambda: real() + 4e7


ELSEWHERE = ["at:folder", "at:printing", "at:random", "at:time"]


def perform(v, x, seq):
    """Runs a history; returns the steps [(evaluation, settings before, inputs before, result)] and complaints."""
    c = Ctx(v, x)
    want = dict(v)          # attribute values as the history set them
    wx = {k: np.array(a) for k, a in x.items()}
    held, steps, bad = [], [], []
    last = None
    for op in seq:
        if op in ELSEWHERE:
            elsewhere(op)
            continue
        if op in EVAL:
            np.seterr(all="warn", under="ignore")  # (the explorer's own setting would hide a change)
            around = process()
            before = dict(want), {k: np.array(a) for k, a in wx.items()}
            try:
                out = EVAL[op](c)
            except IndexError as e:
                steps.append((op,) + before + (("IndexError",),))
                last = None
                continue
            except Exception as e:
                steps.append((op,) + before + ((f"{type(e).__name__}: {e}",),))
                last = None
                continue
            got = arrays(out)
            after = process()
            diff = [n for n in after if after[n] != around[n] and not (op == "simulate" and n == "random numbers")]
            if diff:
                bad.append(("process-altered", f"{op} in {seq}: {diff} {[after[n] for n in diff][:1]}"[:300]))
            steps.append((op,) + before + (got,))
            if op in RECORDS:
                em = want["opt_trans_wavelengths"][0] >= 2.9e-6
                want["target_reflectance"], want["background_reflectance"] = (0.0, 0.0) if em else (0.15, 0.07)
                if em:
                    want["target_temperature"], want["background_temperature"] = 282.0, 280.0
            now = c.state()
            diff = [n for n in now if now[n] != _plain(want[n])]
            if diff:
                bad.append(("objects-altered", f"{op} in {seq}: {diff} {[now[n] for n in diff][:2]}"))
            diff = [k for k in wx if not np.array_equal(c.x[k], wx[k])]
            if diff:
                bad.append(("inputs-altered", f"{op} in {seq}: {diff}"))
            for name, o, arr in held:
                if not core.same(tuple(arrays(o)), tuple(arr)):
                    bad.append(("earlier-result-altered", f"{op} altered what {name} returned in {seq}"))
                    break
            held.append((op, out, got))
            last = (op, out)
        elif op == "scramble":
            if last and last[0] not in ("atm",):
                for a in flat(last[1]):
                    if isinstance(a, np.ndarray) and a.flags.writeable and a.size:
                        a[...] = np.asarray(GARBAGE).astype(a.dtype)
                held = [h for h in held if h[1] is not last[1]]
        elif op == "second":     # continue on other objects with the same names and values, keeping the first alive
            held.append(("objects", [], []))
            c2 = Ctx(want, wx)
            c2.old, c = c, c2
        elif op == "rebuild":    # the same, but the first objects are gone
            held, last = [], None
            c.s = c.sc = None
            c = Ctx(want, wx)
        elif op.startswith("input:"):
            k, _, j = op[6:].partition("#")
            wx[k] = variant(wx[k], j) if j else CHANGED[k](wx[k])
            c.x[k][...] = wx[k]
        elif op.startswith("new:"):      # another array in the old one's place
            k, _, j = op[4:].partition("#")
            wx[k] = variant(wx[k], j)
            c.x[k] = np.array(wx[k])
        elif op.startswith("~"):         # a little more
            n = op[1:]
            o = c.sc if SET[n][0] == "scenario" else c.s
            want[n] = c.v[n] = nudged(want[n])
            setattr(o, n, want[n])
        elif op.startswith("array:"):    # an array much like the old one
            n, _, j = op[6:].partition("#")
            want[n] = c.v[n] = variant(np.array(want[n], float), j).tolist()
            setattr(c.s, n, np.array(want[n]))
        elif op in INPLACE:
            n, val = INPLACE[op]
            a = getattr(c.s, n)
            new = np.full(a.shape, 1.0 / a.size) if val is None else np.resize(np.array(val), a.shape)
            if a.dtype.kind in "iu":
                continue
            a[...] = new
            want[n] = new.tolist()
        else:
            neg = op.startswith("-")     # back to the base value
            where, n, val = SET[op.lstrip("-")]
            if where == "band":
                items = spectral("vis" if neg else val).items()
            else:
                items = [(n, base()[n] if neg else val)]
            for n, val in items:
                want[n] = val
                setattr(c.sc if where == "scenario" else c.s, n, np.array(val) if isinstance(val, list) else val)
                c.v[n] = val
    return steps, bad


def alone(op, v, x):
    try:
        return arrays(EVAL[op](Ctx(v, x)))
    except IndexError:
        return ("IndexError",)
    except Exception as e:
        return (f"{type(e).__name__}: {e}",)


class Prop:
    neighbours = False
    world = {"entries": cf.ENTRIES, "small_index": True}
    chunk = 6
    assumptions = ["a fresh process is a child forked from one that has imported the package and evaluated nothing",
                   "the array scenario.atm is the scenario's own state and is not overwritten by the histories"]
    memo = {}

    def bound(self, tier):
        return f"histories over {len(EVAL)} evaluations, {len(SET)} settings (assigned on the same objects, on second " \
               f"objects, on rebuilt objects), {len(INPLACE)} in-place changes of sensor arrays, {len(INPUTS)} in-place " \
               "changes of input arrays, unrelated changes of the process (folder, random numbers, clock, printing) and overwriting of returned arrays: evaluation-change-evaluation for every " \
               "evaluation and change" + (", for every ordered pair of evaluations around every change, and all " \
               "sequences of three evaluations" if tier == "thorough" else
               ", suites of all evaluations around every change, all ordered pairs of evaluations")

    def setup(self):
        import cv2
        import pybsm.metrics  # noqa: F401
        import pybsm.radiance  # noqa: F401
        import pybsm.simulation  # noqa: F401
        cv2.setNumThreads(1)

    def states(self, tier):
        st = []
        add = lambda *seq: st.append({"seq": list(seq)})  # noqa: E731
        sets, inpl, inp = list(SET), list(INPLACE), ["input:" + k for k in INPUTS]
        for a in CHEAP:
            add(a, "scramble", a)
            add(a, a, "scramble", a)
            for m in sets:
                if not self.relevant(a, m):
                    continue
                add(a, m, a, "-" + m, a)
                add(a, "second", m, a)
                add(a, m, "rebuild", a)
            for m in inpl:
                if not self.relevant(a, m):
                    continue
                add(*self.prep(m), a, m, a)
            for m in inp:
                add(a, m, a)
            for b in CHEAP:
                if a != b:
                    add(a, b, a)
                    add(a, "scramble", b)
            for k in READS.get(a, ()):
                js = [f"#{j}" for j in range(VARIANTS)]
                for j in js:
                    add(a, "input:" + k + j, a)
                    add(a, "new:" + k + j, a)
            near = ["~" + m for m in sets if SET[m][0] in ("sensor", "scenario") and isinstance(base()[m], (int, float))
                    and m not in ("ihaze", "altitude", "ground_range", "bit_depth", "frame_stacks")
                    and self.relevant(a, m)]
            for i in range(0, len(near), 6):
                add(a, *[x for m in near[i:i + 6] for x in (m, a)])
            for n in ARRAYS:
                if self.relevant(a, n) and a not in ("parts", "turb", "path", "blurred", "quality"):
                    for j in range(VARIANTS):
                        add(n if n == "filter_kernel" else "qe_wavelengths" if n == "qe" else "D", a, f"array:{n}#{j}", a)
        for a in SOLO:
            add(a, "scramble", a)
            for k in READS[a]:
                add(a, "input:" + k, a)
                for j in range(VARIANTS):
                    add(a, f"input:{k}#{j}", a, "scramble", a)
                    add(a, f"new:{k}#{j}", a)
        light = [k for k in CHEAP]
        for m in sets:
            add(*light, m, *light[::-1])
        for m in inpl:
            add(*self.prep(m), *light, m, *light)
        for m in ("scramble", "altitude", "filter_kernel", "input:img"):
            add("simulate", m, "simulate")
        add("niirs", "simulate", "niirs5")
        for m in ELSEWHERE:
            add(*light, m, *light)
            add(m, *light)
            add("simulate", m, "simulate")
        if tier == "thorough":
            for a in CHEAP:
                for b in CHEAP:
                    for c in CHEAP:
                        add(a, b, "scramble", c)
                    if a != b:
                        for m in sets:
                            if self.relevant(b, m) or self.relevant(a, m):
                                add(a, m, b, "-" + m, b)
                        for m in inpl:
                            if self.relevant(b, m):
                                add(*self.prep(m), a, m, b)
            for m in sets:
                add("simulate", m, "simulate")
            for i, m in enumerate(sets):
                for n in sets[i + 1:]:
                    for a in ("niirs", "common", "snr"):
                        if self.relevant(a, m) and self.relevant(a, n):
                            add(a, m, n, a, "-" + m, a)
        seen, out = set(), []
        for s in st:
            if core.key(s) not in seen:
                seen.add(core.key(s))
                out.append(s)
        return sorted(out, key=lambda s: len(s["seq"]))

    NEEDS = {"load": {"ihaze", "altitude", "ground_range"}, "interp": {"ihaze", "altitude", "ground_range"},
             "atm": {"ihaze", "altitude", "ground_range"}, "radiances": set(), "images": set()}

    def relevant(self, a, m):
        """Evaluations that read no objects meet every change of an object in the suites only."""
        m = m.strip("!~")
        if a in self.NEEDS:
            return m in self.NEEDS[a]
        where = SET[m][0]
        if a in ("parts", "turb", "path", "blurred", "quality"):
            return m in ("D", "f", "p_x", "altitude")
        if where == "scenario" and a in ("snr", "refl"):
            return m in ("ihaze", "altitude")
        return True

    def prep(self, m):
        n = m.rstrip("!")
        return [n] if n in ("filter_kernel", "qe", "qe_wavelengths", "optics_transmission", "other_noise") else []

    def observe(self, st, bag):
        v, x = base(), inputs()
        steps, bad = zygote.run(perform, v, x, st["seq"])
        bag.ops += len(steps)
        for kind, detail in bad:
            bag.fail(kind, detail)
        for i, (op, sv, sx, got) in enumerate(steps):
            k = (op, core.key({n: _plain(a) for n, a in sv.items()}), tuple(a.tobytes() for a in sx.values()))
            k = hash(k)
            if k not in self.memo:
                if len(self.memo) > 4000:
                    self.memo.clear()
                self.memo[k] = zygote.run(alone, op, sv, sx)
            want = self.memo[k]
            if isinstance(want, tuple) or isinstance(got, tuple):
                bag.that(want == got, "history-changes-the-result", f"step {i} {op}: {str(got)[:80]} alone: {str(want)[:80]} in {st['seq']}")
                continue
            if len(want) != len(got) or any(a.shape != b.shape for a, b in zip(want, got)):
                bag.fail("history-changes-the-result", f"step {i} {op}: shapes {[a.shape for a in got][:6]} in {st['seq']}")
                continue
            for a, b in zip(got, want):
                with np.errstate(all="ignore"):
                    tol = 1e-10 * (np.abs(b) + (np.nanmax(np.abs(b)) if b.size else 0))
                    ok = (np.abs(a - b) <= tol) | (a == b) | (np.isnan(a) & np.isnan(b))
                if not np.all(ok):
                    bag.fail("history-changes-the-result", f"step {i} {op} of {st['seq']}: {a[~ok].ravel()[:2]} alone {b[~ok].ravel()[:2]}")
                    break
        return [len(g) if not isinstance(g, tuple) else g for _, _, _, g in steps] + [
            float(np.nansum(np.abs(g[0].real))) if not isinstance(g, tuple) and len(g) and g[0].size else 0 for _, _, _, g in steps]
