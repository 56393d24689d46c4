"""C20: a simulated image is the sensor's view of the scene, in photoelectrons."""
import logging
import math
import warnings

import numpy as np

from mc import configs as cf
from mc import core, ref
from mc.props import C19

BANDS = {"one": {"wl": [0.5003e-6, 0.5202e-6]},
         "uneven": {"wl": [0.5003e-6, 0.5111e-6, 0.5305e-6], "trans": [0.2, 0.9, 0.5]},
         "qe": {"wl": [0.5003e-6, 0.5302e-6], "trans": [0.8, 0.4], "qewl": [0.4401e-6, 0.5151e-6, 0.5502e-6],
                "qe": [0.1, 0.9, 0.3]},
         "blind": {"wl": [0.5003e-6, 0.5502e-6], "qewl": [0.5121e-6, 0.5302e-6], "qe": [0.6, 0.9]},
         "lwir": {"wl": [8.0003e-6, 8.0302e-6]}}
cf.SPECTRAL.update({"c20_" + k: v for k, v in BANDS.items()})


SHAPES = [(168, 210), (340, 290), (150, 702), (211, 163)]


def picture(kind, small=False, shape=0):
    h, w = (60, 84) if small else SHAPES[shape]
    y, x = np.mgrid[0:h, 0:w]
    if kind == "uint8":
        return (60 + 90 * ((x // 21 + y // 14) % 2) + (x * 7 + y * 13) % 17).astype(np.uint8)
    if kind == "float":
        return 0.2 + 0.5 * (x > w / 2) + 0.1 * np.sin(y / 9.0)
    if kind == "uint16":
        return (3000 + 200 * ((x * 5 + y * 3) % 97)).astype(np.uint16)
    if kind == "float32":
        return (10 + 80 * (y > h / 3) + x / 10.0).astype(np.float32)
    if kind == "neg":
        return (((x * 3 + y) % 101) - 50).astype(np.int16)
    raise KeyError(kind)


class Listener(logging.Handler):
    """Notices a warning, by whatever channel, that the image oversamples its reference."""

    def __init__(self):
        super().__init__(logging.WARNING)
        self.texts = []

    oversampled = property(lambda self: any("sampl" in t.lower() for t in self.texts))

    def emit(self, record):
        self.texts.append(record.getMessage())

    def __enter__(self):
        self.catch = warnings.catch_warnings(record=True)
        self.seen = self.catch.__enter__()
        warnings.simplefilter("always")
        self.off = logging.root.manager.disable
        logging.disable(logging.NOTSET)
        logging.getLogger().addHandler(self)

    def __exit__(self, *a):
        logging.getLogger().removeHandler(self)
        logging.disable(self.off)
        self.catch.__exit__(*a)
        self.texts += [str(w.message) for w in self.seen if w.category is not DeprecationWarning]


class Prop:
    world = {"entries": cf.ENTRIES, "small_index": True}
    chunk = 3
    probes = {"quick": (14, 3, 3), "thorough": (200, 8, 20)}
    assumptions = ["the reference image samples the blur kernel (documented precondition), so no blurred level is negative",
                   "a saturated exposure is scaled in level only; blur uses the sensor's integration time",
                   "the noise clauses are decided from residual statistics of one fixed random stream per state "
                   "(six standard errors)"]

    def __init__(self):
        P = {"pic": ["uint8", "float", "uint16", "float32", "neg"], "gsd": [0.004, 0.0025, 0.012],
             "calib": ["default", "two", "unsorted", "three"],
             "spectral": ["c20_one", "c20_uneven", "c20_qe", "c20_blind", "c20_lwir"]}
        for p in ("D f p_x p_y w_x w_y eta int_time dark_current other_irradiance read_noise max_n max_well_fill bit_depth "
                  "n_tdi optics_temperature optics_emissivity cold_filter_transmission s_x s_y da_x da_y pv pv_wavelength "
                  "L_x L_y other_noise filter_kernel frame_stacks").split():
            P[p] = cf.NARROW[p]
        P["n_tdi"] = [1.0, 3]
        P["filter_kernel"] = ["flat1", "blur"]
        P["int_time"] = core.Al([1e-3, 4e-6, 7e-3], [4e-8, 3e-7])
        P["max_n"] = [100000000, 2000.0]
        P["read_noise"] = core.Al([0.0, 35.0, 900.0], [0.003, 0.02, 0.1])
        P["pv"] = [0.1, 0.0, 0.6]
        P["s_x"], P["s_y"] = [1e-6, 0.0, 4e-6], [2e-6, 0.0, 6e-6]
        P["da_x"], P["da_y"] = [1e-3, 0.0, 3e-3], [2e-3, 0.0, -4e-3]
        P["shape"] = list(range(len(SHAPES)))
        P["small"] = [0, 1]
        P["gsd"] = core.Al([0.004, 0.0025, 0.012], [0.02, 0.031, 0.062])
        P["s_x"], P["s_y"] = core.Al(P["s_x"], [5e-5]), core.Al(P["s_y"], [6e-5])
        # direct atmospheres: grid points only (flat-earth slant range is what the evaluation uses)
        P["altitude"] = [1000.0, 2000.0]
        P["ground_range"] = [1000.0, 0.0, 2000.0]
        P["ihaze"] = [1, 2]
        P["aircraft_speed"] = [10.0, 0.0, 60.0]
        P["ha_wind_speed"] = [21.0, 57.0]
        P["cn2_at_1m"] = [1.7e-14, 0.0, 3e-13]
        P["target_reflectance"] = [0.15, 0.4]
        P["target_temperature"] = [295.0, 310.0]
        P["background_reflectance"] = [0.07, 0.3]
        P["background_temperature"] = [293.0, 270.0]
        self.P = P

    def bound(self, tier):
        return "every single deviation over the picture, its calibration and every sensor and scenario parameter" + (
            ", the full product of picture and calibration, and read noise x bit depth x exposure x well; read noise from 0 to 700 times the quantization noise" if tier == "quick"
            else " and every pair over the parameters that shape noise, blur and geometry")

    def states(self, tier):
        P = self.P
        if tier == "quick":
            lat = core.lattice(P, 1, [["pic", "calib"], ["read_noise", "bit_depth", "int_time"], ["p_x", "p_y", "f"],
                                      ["altitude", "ground_range", "gsd"]])
            lat += [{"shape": 1, "pic": k} for k in range(1, 5)]
        else:
            lat = core.lattice(P, 1, [["pic", "calib", "gsd"], ["read_noise", "bit_depth", "int_time", "max_n"],
                                      ["p_x", "p_y", "f"], ["altitude", "ground_range", "gsd", "ihaze"],
                                      ["shape", "pic"]])
            seen = {core.key(d) for d in lat}
            for d in core.lattice({p: P[p] for p in ("gsd spectral D f p_x p_y int_time n_tdi max_n s_x da_y pv cn2_at_1m "
                                                     "altitude ground_range filter_kernel aircraft_speed").split()}, 2):
                if core.key(d) not in seen:
                    lat.append(d)
        # a reference image coarser than the detector's view of it: more pixels than the picture has
        far = {"small": 1, "s_x": 3, "s_y": 3}
        lat += [dict(far, gsd=g) for g in (2, 3, 4, 5)] + [dict(far, gsd=5, pic=2, calib=1), dict(far, gsd=4, read_noise=1)]
        lat = [d for d in lat if d.get("gsd", 0) < 3 or "small" in d]  # (the picture must sample the blur)
        # keep settings with the same blur next to each other
        noise = ("pic", "calib", "read_noise", "bit_depth", "other_noise", "max_n", "max_well_fill")
        quiet = [{"quiet": [n, b]} for n, b in ([(2000.0, 8), (5e4, 11.9)] if tier == "quick" else
                                                [(n, b) for n in (300.0, 2000.0, 5e4, 1e7) for b in (1, 4.5, 8, 11.9, 16)])]
        return quiet + sorted(lat, key=lambda d: (len(d), core.key({p: i for p, i in d.items() if p not in noise})))

    def calibration(self, name, img):
        lo, hi = float(np.min(img)), float(np.max(img))
        m = lo + (hi - lo) * 0.4
        if name == "default":
            return None, None
        if name == "two":
            return np.array([lo, hi]), np.array([0.1, 0.6])
        if name == "unsorted":
            return np.array([hi, lo, m]), np.array([0.9, 0.02, 0.5])
        return np.array([lo + 0.1 * (hi - lo), m, hi - 0.2 * (hi - lo)]), np.array([0.0, 0.7, 0.8])

    _otf = {}

    def response(self, v, s, sc, lam, wt, slant, bag):
        from pybsm.otf import functional as F
        keys = ("spectral D f p_x p_y w_x w_y eta int_time n_tdi s_x s_y da_x da_y pv pv_wavelength L_x L_y filter_kernel "
                "altitude ground_range aircraft_speed ha_wind_speed cn2_at_1m").split()
        k = core.key({p: v[p] for p in keys}) + repr(lam.tobytes()) + repr(np.round(wt, 12).tobytes())
        if k not in self._otf:
            cut = v["D"] / lam.min()
            ax = np.array([(i - 750) / 750.0 for i in range(1501)]) * cut
            u, w = np.meshgrid(ax, -ax)
            o = ref.common(s, sc, u, w, lam, wt, slant, v["int_time"])
            h = ref.product(o)
            if cf.kernel(v["filter_kernel"]).size > 1:
                h = h * F.filter_OTF(u, w, cf.kernel(v["filter_kernel"]), v["p_x"] / v["f"])
            self._otf.clear()
            self._otf[k] = (h, cut / 750.0)
        return self._otf[k]

    def quiet(self, well, bits, bag):
        """Without photons only read and quantization noise are left: their combination is read off one random stream
        exactly, so neither can be lost at any ratio of the two."""
        import cv2
        from pybsm.simulation import RefImage
        from pybsm.simulation import functional as S
        cv2.setNumThreads(1)
        full = {p: a[0] for p, a in cf.NARROW.items()}
        full.update({p: a[0] for p, a in self.P.items()})
        full.update(spectral="c20_one", int_time=1e-16, max_n=well, bit_depth=bits)
        q = ref.quant_noise(well, bits)
        img = picture("float", small=True)
        stream, out = None, []
        for k in (0.0, 1e-3, 0.01, 0.03, 0.07, 0.12, 0.2, 0.29, 0.37, 0.55, 0.8, 1.0, 1.3, 2.1, 3.4, 4.7, 8.0, 20.0, 60.0, 700.0):
            full["read_noise"] = k * q
            s, sc = cf.build_sensor(full), cf.build_scenario(full)
            np.random.seed(4242)
            bag.ops += 1
            noisy = np.asarray(S.simulate_image(RefImage(img, 0.012), s, sc)[2])
            g = q * math.sqrt(1 + k * k)
            bag.that(abs(noisy.std() / g - 1) < 6 / math.sqrt(2 * noisy.size) and
                     abs(noisy.mean()) < 6 * g / math.sqrt(noisy.size), "dark-noise-level", f"{noisy.std()} of {g} at {k} {well} {bits}")
            z = noisy / g
            if stream is None:
                stream = z
            elif np.corrcoef(z.ravel(), stream.ravel())[0, 1] > 1 - 1e-10:  # (the same draws: compared one by one)
                bag.close(z, stream, "dark-noise", 1e-9, 1e-9, f"read noise {k} times quantization, well {well}, {bits} bits")
        return None

    def observe(self, dev, bag):
        import cv2
        if "quiet" in dev:
            return self.quiet(*dev["quiet"], bag)
        from pybsm.otf import functional as F
        from pybsm.simulation import RefImage
        from pybsm.simulation import functional as S
        cv2.setNumThreads(1)
        v = core.values(self.P, dev)
        full = {**{p: a[0] for p, a in cf.NARROW.items()}, **v}
        s, sc = cf.build_sensor(full), cf.build_scenario(full)
        img = picture(v["pic"], bool(v["small"]), v["shape"])
        pix, refl = self.calibration(v["calib"], img)
        ri = RefImage(img, v["gsd"], None if pix is None else pix.copy(), None if refl is None else refl.copy())
        before = core.snap(s), core.snap(ri), self.public(sc)
        where = str(dev)
        np.random.seed(12345)
        bag.ops += 1
        said = Listener()
        try:
            with said:
                true, blur, noisy = S.simulate_image(ri, s, sc)
        except Exception as e:
            bag.fail("simulate-raises", f"{type(e).__name__}: {e} {where}")
            return None
        bag.that((core.snap(s), core.snap(ri), self.public(sc)) == before, "inputs-changed", where)
        if len(dev) <= 1 and list(dev) in ([], ["gsd"], ["read_noise"]):
            np.random.seed(12345)
            again = S.simulate_image(ri, s, sc)
            bag.that(core.same((true, blur, noisy), tuple(again)), "same-seed-different-image", where)
            np.random.seed(777)
            other = S.simulate_image(ri, s, sc)
            bag.that(core.same((true, blur), tuple(other[:2])), "noise-leaks-into-noiseless-images", where)
            bag.that(not core.same(other[2], noisy), "noise-not-random", where)
            bag.ops += 2
        if bag.probe:
            from mc import decoys
            decoys.probe(bag, "simulate", S.simulate_image, (ri, s, sc), {})
        # true image
        rs = cf.ref_sensor(full)
        atm = self.w.atlas.lookup(v["altitude"], v["ground_range"], v["ihaze"])
        grid, pe, lam, wt, sat = ref.refl_curve(atm, rs, v["int_time"])
        if pix is None:
            pix = np.array([np.percentile(img, 0.2), np.percentile(img, 99.8)])
            refl = np.array([0.05, 0.95])
        rho = ref.to_reflectance(img[::1], pix, refl) if img.size < 5000 else self.fast_reflectance(img, pix, refl)
        want = np.interp(rho, grid, pe)
        bag.close(true, want, "true-image", 1e-6, 1e-6 * pe.max(), where)
        bag.that(np.max(true) <= v["max_n"] * (1 + 1e-9), "above-the-well", f"{np.max(true)} {where}")
        # blurred image
        slant = math.hypot(v["altitude"], v["ground_range"])
        on = wt > 0
        h, df = self.response(full, rs, cf.Rec(**full), lam[on], wt[on], slant, bag)
        dx = 2 * math.atan(v["gsd"] / 2 / slant)
        psf = np.asarray(F.otf_to_psf(h, df, dx))
        ifov = (v["p_x"] + v["p_y"]) / 2 / v["f"]
        ratio = v["gsd"] / slant / ifov
        size = C19.rounded(img.shape, ratio, np.shape(blur))
        bag.that(np.shape(blur) == size, "image-size", f"{np.shape(blur)} instead of {size} {where}")
        bag.that(np.shape(noisy) == np.shape(blur) and np.shape(true) == img.shape, "image-size", where)
        if all(a > b for a, b in zip(size, img.shape)):
            bag.that(said.oversampled, "oversampling-not-announced", f"{size} from {img.shape} {where}")
        if all(a <= b for a, b in zip(size, img.shape)):
            bag.that(not said.oversampled, "oversampling-announced-wrongly", f"{size} from {img.shape} {where}")
        if bag.fails:
            return None
        soft = C19.resize(C19.blur(want, psf), size)
        # the wiggles between neighbouring responses are far above this
        bag.close(blur, soft, "blurred-image", 0.0, 2e-5 * np.ptp(want) + 1e-6 * want.max(), where)
        # noise
        if v["read_noise"] == 0 and v["bit_depth"] >= 64:  # nothing but counts
            bag.close(noisy, np.round(noisy), "photons-not-whole", 0.0, 1e-6 + 1e-9 * want.max(), where)
        q = ref.quant_noise(v["max_n"], v["bit_depth"])
        camera = math.hypot(q, v["read_noise"])
        if 1e-4 <= camera <= 0.12 and want.max() < 1e7:  # what is left beside the counts is the camera's own noise
            rest = np.asarray(noisy) - np.round(noisy)
            bag.that(abs(rest.var() / camera ** 2 - 1) <= 6 * math.sqrt(2 / rest.size) + 1e-4, "camera-noise",
                     f"{rest.std()} instead of {camera} {where}")
        var = soft + q ** 2 + v["read_noise"] ** 2
        self.noise(bag, np.asarray(noisy), soft, var, where)
        return {"true": np.asarray(true)[::29, ::31], "blur": np.asarray(blur)[::7, ::7]}

    def fast_reflectance(self, img, pix, refl):
        vals, inv = np.unique(img, return_inverse=True)
        return ref.to_reflectance(vals, pix, refl)[inv].reshape(img.shape)

    def noise(self, bag, noisy, level, var, where):
        z = ((noisy - level) / np.sqrt(var)).ravel()
        order = np.argsort(level.ravel(), kind="stable")
        n = z.size
        for name, part in (("all", z), ("dark half", z[order[:n // 2]]), ("bright half", z[order[n // 2:]])):
            m = part.size
            if m < 50:
                continue
            se = 1 / math.sqrt(m)
            bag.that(abs(part.mean()) <= 6 * se, "noise-biased", f"{name} mean {part.mean():.4f} of {se:.4f} {where}")
            # kurtosis of the Poisson part widens the error of the variance
            kurt = 2.0 + float(np.mean(1.0 / np.maximum(level, 1e-9) * (level / var) ** 2))
            bag.that(abs(part.var() - 1) <= 6 * se * math.sqrt(kurt), "noise-level",
                     f"{name} variance {part.var():.4f} of the documented {where}")
        if n > 400:
            zz = ((noisy - level) / np.sqrt(var))
            c = np.mean(zz[:, 1:] * zz[:, :-1]), np.mean(zz[1:] * zz[:-1])
            bag.that(max(abs(x) for x in c) <= 6 / math.sqrt(n), "noise-correlated", f"{c} {where}")

    def public(self, sc):
        names = ("name ihaze altitude ground_range aircraft_speed target_reflectance target_temperature "
                 "background_reflectance background_temperature ha_wind_speed cn2_at_1m interp").split()
        return core.snap({n: getattr(sc, n, None) for n in names})

    def edges(self, states):
        off = sum("quiet" in d for d in states)
        for i, j in core.lattice_edges(states[off:]):
            yield i + off, j + off

    FREE = {"target_reflectance", "target_temperature", "background_reflectance", "background_temperature", "frame_stacks",
            "other_noise", "max_well_fill", "read_noise", "bit_depth"}

    def relate(self, a, oa, b, ob, bag):
        (p,) = set(b) - set(a)
        if p in self.FREE:
            for k in ("true", "blur"):
                bag.close(ob[k], oa[k], f"{p}-changes-{k}", 1e-9)
