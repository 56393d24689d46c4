"""C29: sensors, scenarios and reference images keep and default what they are given."""
import itertools
import math

import numpy as np

from mc import core, ref

POS = ["name", "D", "f", "p_x", "opt_trans_wavelengths"]
REQ = {"name": "cam", "D": 0.31, "f": 4.2, "p_x": 9e-6, "opt_trans_wavelengths": [0.41e-6, 0.55e-6, 0.83e-6]}
# documented defaults (and a distinct given value) in constructor order
OPT = {"eta": (0.0, 0.37), "p_y": (None, 7e-6), "w_x": (None, 8.1e-6), "w_y": (None, 6.3e-6), "int_time": (1, 0.0123),
       "dark_current": (0, 4.4e4), "other_irradiance": (0.0, 12.5), "read_noise": (0, 17.0), "max_n": (100000000, 54321),
       "max_well_fill": (1.0, 0.55), "bit_depth": (100.0, 11.9), "n_tdi": (1.0, 6.0), "cold_shield_temperature": (70.0, 88.0),
       "optics_temperature": (270.0, 299.0), "optics_emissivity": (0.0, 0.13), "cold_filter_transmission": (1.0, 0.77),
       "cold_filter_temperature": (70.0, 91.0), "cold_filter_emissivity": (0.0, 0.24), "s_x": (0.0, 1.1e-7),
       "s_y": (0.0, 2.2e-7), "da_x": (0.0, 3.3e-5), "da_y": (0.0, -4.4e-5), "pv": (0.0, 0.66), "pv_wavelength": (0.633e-6, 1.1e-6)}
SREQ = {"name": "scene", "ihaze": 2, "altitude": 3000.0, "ground_range": 11000.0}
SOPT = {"aircraft_speed": (0, 33.0), "target_reflectance": (0.15, 0.41), "target_temperature": (295, 311.0),
        "background_reflectance": (0.07, 0.22), "background_temperature": (293, 277.0), "ha_wind_speed": (21, 44.0),
        "cn2_at_1m": (1.7e-14, 5e-15)}
# wavelengths are kept as they are given: falling, unordered, repeated, whole numbers, one of them, many
WAVES = {"falling": [0.83e-6, 0.55e-6, 0.41e-6], "mixed": [0.55e-6, 0.83e-6, 0.41e-6, 0.6e-6], "repeated": [0.5e-6, 0.5e-6, 0.7e-6],
         "one": [0.6e-6], "whole": [4, 2, 9], "wild": [-1.0, 0.0, 3e5], "many": [(i * 37 % 101) * 1e-8 + 4e-7 for i in range(101)]}


NAMES = ["", " ", " blank ", "tab\t", "line\nbreak\n", "UPPER lower", "MWIR", "caméra №7 ☂", "x" * 5000, "0", "None", "../a/b.txt", "%s {0}", "a,b;c",
         "trailing.", "nul\0inside", 7, None, ("a", 1)]


# other values worth giving: falsy, one, negative, tiny, whole numbers for reals
ODD = [0, 0.0, 1, -1.5, 1e-12, 3] + core.ladder([1.7e-9, 3.1e11], 1) + [2.5, 99.5, 1e5 + 0.25, -2.5e7]


class Prop:
    neighbours = False
    world = "none"
    assumptions = ["two objects are built from separate arrays (an array handed to two objects is the caller's)"]

    def bound(self, tier):
        return f"sensor: all subsets of at most {2 if tier == 'quick' else 3} given optional arguments, all-given, by keyword " \
               "and by position, and the full product of pitch and width arguments; scenario: all subsets; independence: " \
               "every attribute written on one of two objects, before and after the other is built; reference images: " \
               "product of shapes, sample distances and altitudes"

    def states(self, tier):
        st = []
        names = list(OPT)
        subs = [c for k in range(3 if tier == "quick" else 4) for c in itertools.combinations(names, k)] + [tuple(names)]
        subs += [tuple(names[:k]) for k in range(len(names))]
        for c in subs:
            st.append({"op": "sensor", "given": list(c)})
        for n in OPT:
            for x in ODD:
                st.append({"op": "sensor", "given": [n], "value": x})
        for n in SOPT:
            for x in ODD:
                st.append({"op": "scenario", "given": [n], "value": x})
        for n in ("D", "f", "p_x"):
            for x in ODD[2:]:
                st.append({"op": "sensor", "given": [], "req": n, "value": x})
        for w in WAVES:
            for n in ([], ["eta", "p_y"], names):
                st.append({"op": "sensor", "given": n, "waves": w})
        for x in NAMES:
            for op in ("sensor", "scenario"):
                st += [{"op": op, "given": [], "req": "name", "value": x}, {"op": op, "given": ["eta"] if op == "sensor" else ["ha_wind_speed"],
                                                                            "req": "name", "value": x, "v": 0.5}]
            st.append({"op": "refname", "value": x})
        for n in ("ihaze", "altitude", "ground_range"):
            for x in ODD:
                st.append({"op": "scenario", "given": [], "req": n, "value": x})
        for c in itertools.product((None, 5e-6, 9e-6, 2e-5), repeat=3):
            for px in (9e-6, 2.5e-5):
                st.append({"op": "pitch", "p_x": px, "p_y": c[0], "w_x": c[1], "w_y": c[2]})
        for c in itertools.product((None, 5, 7.5, 9, 31), repeat=3):  # in micrometres, whole or not
            for px in (8, 9.5, 3):
                st.append({"op": "pitch", "p_x": px, "p_y": c[0], "w_x": c[1], "w_y": c[2]})
        for x in (1e-12, 1e-9, 1e-6, 1e-4, 1e-3, 9e-3, 0.03, 0.2):  # nearly square, nearly full
            for px in (9e-6, 2.5e-5):
                for a, b, c in itertools.product((None, px * (1 + x), px * (1 - x)), repeat=3):
                    st.append({"op": "pitch", "p_x": px, "p_y": a, "w_x": b, "w_y": c})
        for k in range(len(SOPT) + 1):
            for c in itertools.combinations(SOPT, k):
                st.append({"op": "scenario", "given": list(c)})
        for a in list(REQ)[:4] + list(OPT) + ["L_x", "L_y", "frame_stacks"] + ["opt_trans_wavelengths", "optics_transmission",
                                                                               "qe", "qe_wavelengths", "other_noise", "filter_kernel"]:
            for when in ("before", "after"):
                for how in ("set", "inplace"):
                    st.append({"op": "indep", "attr": a, "when": when, "how": how})
        for a in list(SREQ) + list(SOPT):
            for when in ("before", "after"):
                st.append({"op": "sindep", "attr": a, "when": when})
        alts = [500.0, 3000.0, 2e6, 7.7e5, 1.0, 1234.5, 0.25, 99.9, 3e6 + 1 / 3, 1000, 3e7] + core.ladder([0.37, 4.1e7], 1)
        for shape in ((4, 6), (3, 3), (30, 10), (1, 1), (700, 900)):
            for gsd in [0.01, 0.3, 1.0, 7.5, 60.0, 2, 1 / 3] + core.ladder([0.0013, 310.0], 1):
                for alt in alts + [None]:
                    for dt in ("float64", "uint8"):
                        st.append({"op": "ref", "shape": list(shape), "gsd": gsd, "alt": alt, "dtype": dt})
        for p in (None, [1.0, 9.0], [5, 1, 30]):
            for r in (None, [0.1, 0.4], [0.3, 0.1, 0.9]):
                if p is None or r is None or len(p) == len(r):
                    st.append({"op": "cal", "pix": p, "refl": r})
        return st

    def expect_sensor(self, kw, px, D, wl):
        v = {n: d for n, (d, _) in OPT.items()}
        v.update(kw)
        if v["p_y"] is None:
            v["p_y"] = px
        if v["w_x"] is None:
            v["w_x"] = px
        if v["w_y"] is None:
            v["w_y"] = v["w_x"] / px * v["p_y"]
        v.update(p_x=px, D=D, L_x=D, L_y=D, frame_stacks=1)
        n = len(wl)
        v.update(opt_trans_wavelengths=np.array(wl), optics_transmission=np.ones(n), qe=np.ones(n), qe_wavelengths=np.array(wl))
        return v

    def check_sensor(self, bag, s, v, where, kind="sensor"):
        for n, want in v.items():
            got = getattr(s, n, None)
            if n in ("w_y", "p_y"):
                bag.close(got, want, f"{kind}-{n}", 1e-12, 0, where)
            elif isinstance(want, np.ndarray):
                bag.that(isinstance(got, np.ndarray) and np.array_equal(got, want), f"{kind}-{n}", f"{got} {want} {where}")
            else:
                bag.that(got is want or got == want, f"{kind}-{n}", f"{got} instead of {want} {where}")
        bag.that(np.array_equal(np.asarray(s.other_noise, float).ravel(), [0.0]), f"{kind}-other_noise", where)
        k = np.asarray(s.filter_kernel, float).ravel()
        bag.that(np.array_equal(k, [1.0]), f"{kind}-filter_kernel", where)

    def make(self, kw, **over):
        from pybsm.simulation import Sensor
        a = dict(REQ, **over)
        a["opt_trans_wavelengths"] = np.array(a["opt_trans_wavelengths"])
        return Sensor(*[a[n] for n in POS], **kw)

    def observe(self, st, bag):
        from pybsm.simulation import RefImage, Scenario, Sensor
        where = str(st)
        op = st["op"]
        bag.ops += 1
        if op == "sensor":
            kw = {n: st.get("v", st.get("value", OPT[n][1])) for n in st["given"]}
            req = dict(REQ, **({st["req"]: st["value"]} if "req" in st else {}))
            if "waves" in st:
                req["opt_trans_wavelengths"] = WAVES[st["waves"]]
            s = self.make(kw, **req)
            v = self.expect_sensor(kw, req["p_x"], req["D"], req["opt_trans_wavelengths"])
            v.update(name=req["name"], f=req["f"])
            self.check_sensor(bag, s, v, where)
            allkw = Sensor(**dict(req, opt_trans_wavelengths=np.array(req["opt_trans_wavelengths"])), **kw)
            self.check_sensor(bag, allkw, v, where)
            if st["given"] == list(OPT)[:len(st["given"])]:  # by position, in the documented order
                a = [np.array(req[n]) if n == "opt_trans_wavelengths" else req[n] for n in POS]
                self.check_sensor(bag, Sensor(*a, *kw.values()), v, where, "positional-sensor")
            return None
        if op == "pitch":
            kw = {n: st[n] for n in ("p_y", "w_x", "w_y") if st[n] is not None}
            s = self.make(kw, p_x=st["p_x"])
            v = self.expect_sensor(kw, st["p_x"], REQ["D"], REQ["opt_trans_wavelengths"])
            self.check_sensor(bag, s, v, where)
            return [s.p_x, s.p_y, s.w_x, s.w_y]
        if op == "scenario":
            kw = {n: st.get("v", st.get("value", SOPT[n][1])) for n in st["given"]}
            req = dict(SREQ, **({st["req"]: st["value"]} if "req" in st else {}))
            sc = Scenario(*req.values(), **kw)
            want = dict(req, **{n: d for n, (d, _) in SOPT.items()}, **{}) | kw
            for n, x in want.items():
                bag.that(getattr(sc, n, None) == x, f"scenario-{n}", f"{getattr(sc, n, None)} instead of {x} {where}")
            if st["given"] == list(SOPT)[:len(st["given"])]:
                sc = Scenario(*req.values(), *kw.values())
                for n, x in want.items():
                    bag.that(getattr(sc, n, None) == x, f"positional-scenario-{n}", f"{getattr(sc, n, None)} {x} {where}")
            return None
        if op == "indep":
            a = st["attr"]
            first = self.make({})
            fresh = {n: core.snap(x) for n, x in vars(first).items()}
            other = self.make({}) if st["when"] == "after" else None
            cur = getattr(first, a)
            if st["how"] == "inplace":
                if not isinstance(cur, np.ndarray):
                    return None
                cur[...] = cur * 3 + 1
            else:
                setattr(first, a, "other" if a == "name" else np.array([5.0, 6.0]) if isinstance(cur, np.ndarray) else 0.7654)
                got = getattr(first, a)
                bag.that(np.all(got == ("other" if a == "name" else [5.0, 6.0] if isinstance(cur, np.ndarray) else 0.7654)),
                         "assignment-not-kept", where)
                now = {n: core.snap(x) for n, x in vars(first).items()}
                diff = [n for n in now if n.lstrip("_") != a and now[n] != fresh.get(n)]
                bag.that(not diff, "assignment-changes-another-attribute", f"{diff} {where}")
            if other is None:
                other = self.make({})
            diff = [n for n, x in vars(other).items() if core.snap(x) != fresh[n]]
            bag.that(not diff, "objects-share-values", f"{diff} {where}")
            return None
        if op == "sindep":
            a = st["attr"]
            first = Scenario(*SREQ.values())
            names = list(SREQ) + list(SOPT)
            fresh = {n: getattr(first, n) for n in names}
            other = Scenario(*SREQ.values()) if st["when"] == "after" else None
            new = "other" if a == "name" else 1 if a == "ihaze" else 777.5
            setattr(first, a, new)
            bag.that(getattr(first, a) == new, "assignment-not-kept", where)
            bag.that(all(getattr(first, n) == fresh[n] for n in names if n != a), "assignment-changes-another-attribute", where)
            other = other or Scenario(*SREQ.values())
            bag.that(all(getattr(other, n) == fresh[n] for n in names), "objects-share-values", where)
            return None
        if op == "refname":
            img = np.arange(20.0).reshape(4, 5)
            for r in (RefImage(img, 1.0, name=st["value"]), RefImage(img, 1.0, np.array([0.0, 9.0]), np.array([0.1, 0.2]), st["value"])):
                bag.that(r.name == st["value"] and r.img is img, "reference-image-name", where)
                s, sc = r.estimate_capture_parameters()
                bag.that(r.name == st["value"] and s.f > 0 and sc.altitude == 2000000, "reference-image-name", where)
            return None
        if op == "cal":
            img = np.arange(20.0).reshape(4, 5)
            pix = None if st["pix"] is None else np.array(st["pix"])
            refl = None if st["refl"] is None else np.array(st["refl"])
            if pix is not None and refl is None:
                core.call(bag, "refimage", lambda: RefImage(img, 1.0, pix, refl), expect=(ValueError,), again=False)
                return None
            r = RefImage(img, 1.0, pix, refl, "nm")
            bag.that(r.img is img and r.gsd == 1.0 and r.name == "nm", "reference-image-arguments", where)
            if pix is not None:
                bag.that(np.array_equal(r.pix_values, st["pix"]) and np.array_equal(r.refl_values, st["refl"]),
                         "reference-image-calibration", where)
            return None
        y, x = np.mgrid[0:st["shape"][0], 0:st["shape"][1]]
        img = ((x * 7 + y * 3) % 11 * 10).astype(st["dtype"])
        before = core.snap(img)
        r = RefImage(img, st["gsd"])
        bag.that(r.name == "ref_image", "reference-image-name", where)
        s, sc = r.estimate_capture_parameters() if st["alt"] is None else r.estimate_capture_parameters(st["alt"])
        alt = 2000000 if st["alt"] is None else st["alt"]
        bag.that(core.snap(img) == before, "estimate-changes-the-image", where)
        bag.that(sc.altitude == alt and sc.ground_range == 0, "estimated-geometry", f"{sc.altitude} {sc.ground_range} {where}")
        bag.close(s.p_x / s.f * alt, st["gsd"], "estimated-sample-distance", 1e-9, 0, where)
        bag.close(s.p_y / s.f * alt, st["gsd"], "estimated-sample-distance-y", 1e-9, 0, where)
        lam = s.opt_trans_wavelengths
        ifov = 2 * math.atan(st["gsd"] / 2 / alt)
        bag.that(1.22 * float(np.median(lam)) / s.D < ifov and 1.22 * float(np.max(lam)) / s.D < ifov,
                 "estimated-diffraction-coarser-than-a-pixel", f"{s.D} {where}")
        bag.that(np.allclose(lam, [380e-9, 700e-9], rtol=1e-9, atol=0) and s.w_x == s.p_x, "estimated-band", where)
        bag.that(sc.cn2_at_1m == 0 and sc.aircraft_speed == 0 and sc.ihaze == 1, "estimated-scene-degrades", where)
        s2, sc2 = r.estimate_capture_parameters() if st["alt"] is None else r.estimate_capture_parameters(st["alt"])
        s2.D, sc2.altitude = 9.0, 1.0
        s2.opt_trans_wavelengths[...] = 1.0
        bag.that(s.D != 9.0 and sc.altitude == alt and s.opt_trans_wavelengths[0] != 1.0, "estimates-share-objects", where)
        s3, _ = r.estimate_capture_parameters()
        bag.that(abs(s3.opt_trans_wavelengths[0] - 380e-9) < 1e-12, "estimates-share-objects", where)
        return [s.D, s.f]
