"""C01: direct database loads return exactly the requested entry, and only documented conditions succeed."""
import numpy as np

from mc import core

BY_NUMBER = {}


class Prop:
    world = "all"
    chunk = 24
    assumptions = ["synthetic database files in the documented binary layout, unique per entry (the checkout has only "
                   "Git-LFS pointers); the documented grid itself is kept as an independent copy"]

    def bound(self, tier):
        return "all 3430 entries; every off-database pair of a database altitude and range; near-misses of every grid " \
               "value; unknown haze codes; argument types; undefined, infinite, negative, signed-zero, constant, vanishing and enormous contents"

    def states(self, tier):
        w = self.w.atlas
        st = [{"op": "entry", "alt": a, "rng": g, "haze": h} for (a, g, h) in sorted(w.by_m)]
        for a in w.altitudes:
            for g in w.ranges:
                for h in (1, 2):
                    if (a, g, h) not in w.by_m:
                        st.append({"op": "absent", "alt": a, "rng": g, "haze": h})
        steps = (0.5, -0.5, 1e-6, -1e-6) if tier == "thorough" else (0.5, -0.5, 1e-6)
        for a in w.altitudes:
            for d in steps:
                st.append({"op": "absent", "alt": a + d, "rng": 0.0, "haze": 1})
                st.append({"op": "absent", "alt": a + d, "rng": 1000.0, "haze": 2})
        for g in w.ranges:
            for d in steps:
                st.append({"op": "absent", "alt": 9000.0, "rng": g + d, "haze": 1})
        for h in (0, 3, -1, 1.5, 12):
            st.append({"op": "absent", "alt": 1000.0, "rng": 1000.0, "haze": h})
        for a, g in ((-1000.0, 0.0), (1000.0, -1000.0), (1.0, 1.0), (1e6, 0.0), (0.0, 0.0), (1000.0, 3e5), (2.0, 3e5)):
            st.append({"op": "absent", "alt": a, "rng": g, "haze": 1})
        # contents out of the ordinary (the synthetic database holds them where nothing interpolates)
        for k in w.peculiar:
            st.append({"op": "entry", "alt": k[0], "rng": k[1], "haze": k[2], "again": True})
        for kind in ("int", "np64", "np32", "npint"):
            st.append({"op": "types", "kind": kind})
        for first in ([1000.0, 0.0, 1], [500.0, 2000.0, 2]):
            st.append({"op": "mutate", "first": first})
        return [s for s in st if s["op"] != "absent" or (s["alt"], s["rng"], s["haze"]) not in w.by_m]

    def check(self, bag, got, want, what):
        if not bag.that(isinstance(got, np.ndarray) and got.shape == (1371, 6), "shape",
                        f"{what}: {getattr(got, 'shape', type(got))}"):
            return
        bag.close(got[:, 0], want[:, 0], "wavelengths", 1e-12, 0, what)
        bag.close(got[:, 1], want[:, 1], "transmission", 1e-7, 0, what)
        for c, n in ((2, "path-thermal"), (3, "surface-emission"), (4, "solar-scatter"), (5, "ground-reflected")):
            bag.close(got[:, c], want[:, c], "radiance-" + n, 1e-6, 0, what)

    def observe(self, st, bag):
        from pybsm import utils
        load = utils.load_database_atmosphere_no_interp
        if st["op"] == "entry":
            got = core.call(bag, "load", load, st["alt"], st["rng"], st["haze"],
                            again="again" in st or st["rng"] in (0.0, 5000.0) or self.tier == "thorough")
            self.check(bag, got, self.w.atlas.lookup(st["alt"], st["rng"], st["haze"]), st)
            return float(np.nansum(got)) if np.shape(got) == (1371, 6) else None
        if st["op"] == "absent":
            core.call(bag, "absent-condition", load, st["alt"], st["rng"], st["haze"], expect=(IndexError,))
            return "IndexError"
        if st["op"] == "types":
            conv = {"int": int, "np64": np.float64, "np32": np.float32, "npint": np.int64}[st["kind"]]
            for a, g, h in ((2.0, 100.0, 2), (1000.0, 0.0, 1), (20000.0, 300000.0, 1), (24500.0, 85000.0, 2)):
                got = core.call(bag, "load", load, conv(a), conv(g), conv(h))
                self.check(bag, got, self.w.atlas.lookup(a, g, h), (st, a, g, h))
            return st["kind"]
        # a result that the caller overwrites does not come back changed
        a = core.call(bag, "load", load, *st["first"])
        a[:] = -1.0
        b = core.call(bag, "load", load, *st["first"])
        self.check(bag, b, self.w.atlas.lookup(*st["first"]), "after the caller overwrote an earlier result")
        return float(np.sum(b))
