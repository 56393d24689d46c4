"""C04: fault injection into the atmosphere database; all fault/repair/request histories up to a depth."""
import itertools
import os
import shutil

import numpy as np

from mc import configs as cf
from mc import core

X, Y = (1000.0, 1000.0, 1), (1000.0, 2000.0, 1)
CELL = [(1000.0, 1000.0, 1), (1000.0, 2000.0, 1), (2000.0, 1000.0, 1), (2000.0, 2000.0, 1)]
KINDS = ["missing", "truncated-half", "lfs-stub", "empty", "one-sample-short", "one-byte-short", "one-sample-long",
         "doubled", "directory", "one-column-short"]
OPS = ["damage-X", "repair-X", "damage-Y", "repair-Y", "load-X", "load-Y", "interp-XY", "scenario-direct",
       "scenario-interp", "toggle-direct", "interp-at-X"]


class Prop:
    neighbours = False
    world = {"entries": cf.ENTRIES, "small_index": True, "load": False}
    chunk = 6
    assumptions = ["damage that changes the size or type of the file (a right-sized file with other numbers in it is "
                   "another database, not a detectable fault); every worker has its own database"]

    def bound(self, tier):
        return f"all histories of {self.depth(tier)} operations over damage/repair/request on two files for " \
               f"{len(KINDS)} kinds of damage; all 15 sets of damaged corners with all repair orders; index faults; " \
               "faults inside evaluations"

    def depth(self, tier):
        return 3 if tier == "quick" else 4

    def states(self, tier):
        st = []
        for k in KINDS:
            for pre in itertools.product(range(len(OPS)), repeat=1 if tier == "quick" else 2):
                deep = tier == "thorough" or k in ("missing", "truncated-half")
                st.append({"op": "history", "kind": k, "prefix": list(pre),
                           "more": self.depth(tier) - len(pre) + (1 if deep and tier == "quick" else 0)})
        for k in KINDS:
            for n in range(1, 5):
                for sub in itertools.combinations(range(4), n):
                    st.append({"op": "corners", "kind": k, "sub": list(sub)})
        for k in ("missing", "empty", "header-only", "truncated", "entry-removed"):
            st.append({"op": "index", "kind": k})
        for k in KINDS:
            for ev in ("niirs", "niirs5", "niirs-interp", "simulate"):
                st.append({"op": "evaluate", "kind": k, "ev": ev})
        return st

    # ------------------------------------------------------------ the faulty medium
    def repair(self, w, e):
        p = w.path(w.atlas.by_m[e])
        if os.path.isdir(p):
            shutil.rmtree(p)
        w.write_entry(w.atlas.by_m[e])

    def damage(self, w, e, kind):
        n = w.atlas.by_m[e]
        p = w.path(n)
        self.repair(w, e)
        good = w.atlas.raw(n).tobytes(order="F")
        if kind == "missing":
            os.unlink(p)
        elif kind == "directory":
            os.unlink(p)
            os.mkdir(p)
        else:
            data = {"truncated-half": good[:len(good) // 2], "empty": b"", "one-sample-short": good[:-4],
                    "one-byte-short": good[:-1], "one-sample-long": good + good[:4], "doubled": good + good,
                    "one-column-short": good[:-4 * 1371],
                    "lfs-stub": b"version https://git-lfs.github.com/spec/v1\noid sha256:" + b"0" * 64
                                + b"\nsize 27420\n"}[kind]
            w.write_entry(n, data)

    def heal(self, w):
        for e in CELL:
            self.repair(w, e)
        p = os.path.join(w.atms, "fileDecoder.csv")
        keep = getattr(self, "_index", None)
        if keep is None or keep[0] != p:
            with open(p) as f:
                self._index = (p, f.read())
        else:
            with open(p, "w") as f:
                f.write(keep[1])

    # ------------------------------------------------------------ requests
    def request(self, bag, where, fn, want, may_answer=False):
        """want None: the request must raise (or, where a good earlier answer is on record, may give `may_answer`)."""
        bag.ops += 1
        try:
            got = fn()
        except Exception as e:
            if want is not None:
                bag.fail("good-data-refused", f"{type(e).__name__}: {e} in {where}")
            return None
        ref = want if want is not None else may_answer
        if ref is False or ref is None:
            bag.fail("damaged-data-became-an-atmosphere", f"{where}: returned {np.shape(got)}")
        elif np.shape(got) != np.shape(ref) or not np.allclose(got, ref, rtol=1e-6, atol=1e-30):
            bag.fail("wrong-atmosphere", f"{where}")
        return got

    def observe(self, st, bag):
        w = self.w.private()
        self.heal(w)
        try:
            return getattr(self, "do_" + st["op"])(st, bag, w)
        finally:
            self.heal(w)

    def do_history(self, st, bag, w):
        n = 0
        for rest in itertools.product(range(len(OPS)), repeat=st["more"]):
            seq = st["prefix"] + list(rest)
            # only histories with damage say anything; the rest are other states of the space
            if 0 not in seq and 2 not in seq:
                continue
            self.heal(w) if any(o in seq for o in (0, 2)) else None
            self.history(st["kind"], seq + [4, 7, 8], bag, w)
            n += 1
            if bag.fails:
                break
        return n

    def history(self, kind, seq, bag, w):
        from pybsm import utils
        from pybsm.simulation import Scenario
        bad = set()
        a = w.atlas
        direct = Scenario("d", 1, X[0], X[1])
        interp = Scenario("i", 1, 1000.0, 1300.5, interp=True)
        dset, seen = X, {}
        for i, o in enumerate(seq):
            op = OPS[o]
            where = f"{kind}: " + " > ".join(OPS[q] for q in seq[:i + 1])
            if op.startswith(("damage", "repair")):
                e = X if op.endswith("X") else Y
                if op.startswith("damage"):
                    self.damage(w, e, kind)
                    bad.add(e)
                else:
                    self.repair(w, e)
                    bad.discard(e)
            elif op in ("load-X", "load-Y"):
                e = X if op == "load-X" else Y
                self.request(bag, where, lambda: utils.load_database_atmosphere_no_interp(*e),
                             None if e in bad else a.lookup(*e))
            elif op == "interp-XY":
                self.request(bag, where, lambda: utils.load_database_atmosphere(1000.0, 1300.5, 1),
                             None if bad else cf.bilinear(a, 1000.0, 1300.5, 1))
            elif op == "interp-at-X":
                self.request(bag, where, lambda: utils.load_database_atmosphere(*X),
                             None if X in bad else a.lookup(*X))
            elif op == "toggle-direct":
                dset = Y if dset == X else X
                direct.ground_range = dset[1]
                seen.pop("d", None)
            elif op == "scenario-direct":
                want = None if dset in bad else a.lookup(*dset)
                got = self.request(bag, where, lambda: direct.atm, want, seen.get("d", False))
                if got is not None:
                    seen["d"] = a.lookup(*dset)
            elif op == "scenario-interp":
                full = cf.bilinear(a, 1000.0, 1300.5, 1)
                got = self.request(bag, where, lambda: interp.atm, None if bad else full, seen.get("i", False))
                if got is not None:
                    seen["i"] = full

    def do_corners(self, st, bag, w):
        from pybsm import utils
        from pybsm.simulation import Scenario
        full = cf.bilinear(w.atlas, 1500.25, 1300.5, 1)
        for order in itertools.permutations(st["sub"]):
            sc = Scenario("s", 1, 1500.25, 1300.5, interp=True)
            for i in order:
                self.damage(w, CELL[i], st["kind"])
            for done in range(len(order) + 1):
                left = order[done:]
                want = None if left else full
                self.request(bag, f"{st['kind']} corners {left}",
                             lambda: utils.load_database_atmosphere(1500.25, 1300.5, 1), want)
                self.request(bag, f"scenario, {st['kind']} corners {left}", lambda: sc.atm, want)
                # neighbours that do not need the damaged corners are served
                for i, e in enumerate(CELL):
                    self.request(bag, f"corner {i} alone, damaged {left}",
                                 lambda: utils.load_database_atmosphere_no_interp(*e),
                                 None if i in left else w.atlas.lookup(*e))
                self.request(bag, "a cell elsewhere", lambda: utils.load_database_atmosphere(1500.25, 1300.5, 2),
                             cf.bilinear(w.atlas, 1500.25, 1300.5, 2))
                if left:
                    self.repair(w, CELL[left[0]])
        return len(st["sub"])

    def do_index(self, st, bag, w):
        from pybsm import utils
        from pybsm.simulation import Scenario
        p = os.path.join(w.atms, "fileDecoder.csv")
        lines = self._index[1].splitlines(keepends=True)
        sc = Scenario("s", *[X[2], X[0], X[1]])
        si = Scenario("i", 1, 1000.0, 1300.5, interp=True)
        if st["kind"] == "missing":
            os.unlink(p)
        else:
            n = w.atlas.by_m[X]
            keep = {"empty": [], "header-only": lines[:1], "truncated": [ln for ln in lines if ln.split(",")[0] != str(n)][:6],
                    "entry-removed": [ln for ln in lines if ln.split(",")[0] != str(n)]}[st["kind"]]
            with open(p, "w") as f:
                f.writelines(keep)
        where = f"index {st['kind']}"
        for rnd in range(2):
            want = None if rnd == 0 else w.atlas.lookup(*X)
            wi = None if rnd == 0 else cf.bilinear(w.atlas, 1000.0, 1300.5, 1)
            self.request(bag, where, lambda: utils.load_database_atmosphere_no_interp(*X), want)
            self.request(bag, where, lambda: utils.load_database_atmosphere(1000.0, 1300.5, 1), wi)
            self.request(bag, where, lambda: sc.atm, want)
            self.request(bag, where, lambda: si.atm, wi)
            if rnd == 0 and st["kind"] == "entry-removed":
                self.request(bag, where, lambda: utils.load_database_atmosphere_no_interp(*Y), w.atlas.lookup(*Y))
            self.heal(w)
        return st["kind"]

    def do_evaluate(self, st, bag, w):
        from pybsm.metrics import niirs, niirs5
        from pybsm.simulation import RefImage, simulate_image
        v = cf.values(cf.SENSOR, {})
        v["D"] = 0.01
        img = RefImage(np.arange(64, dtype=np.uint8).reshape(8, 8) * 3, 0.5)

        def evaluate(s, sc):
            if st["ev"] == "niirs":
                return niirs(s, sc).niirs
            if st["ev"] == "niirs5":
                return niirs5(s, sc).niirs
            if st["ev"] == "niirs-interp":
                return niirs(s, sc, interp=True).niirs
            np.random.seed(3)
            return simulate_image(img, s, sc)[2]

        def fresh():
            sv = cf.values(cf.SCENARIO, {"ground_range": 3} if st["ev"] == "niirs-interp" else {})
            sv["cn2_at_1m"] = 0.0
            return cf.build_sensor(v), cf.build_scenario(sv)

        want = evaluate(*fresh())
        s, sc = fresh()
        for target in (X, Y) if st["ev"] == "niirs-interp" else (X,):
            self.damage(w, target, st["kind"])
            s, sc = fresh()
            self.request(bag, f"{st['ev']} with {st['kind']}", lambda: evaluate(s, sc), None)
            self.repair(w, target)
            for who in ((s, sc), fresh()):
                bag.ops += 1
                try:
                    got = evaluate(*who)
                    bag.that(np.array_equal(got, want), "evaluation-after-repair-differs", f"{st}: {got} {want}")
                except Exception as e:
                    bag.fail("evaluation-after-repair-raises", f"{st}: {e!r}")
        return np.asarray(want).ravel()[:3]
