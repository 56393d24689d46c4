"""The closed environment the explorers run pyBSM in.

The repository copy has only Git-LFS pointer files for the atmosphere database, so nothing that needs an
atmosphere can run on it as it is.  `make_world` builds, in a scratch directory, a copy of the package source
from /repo's *current working tree* plus a complete synthetic database: one correctly sized binary file for each
of the 3430 entries, with physically plausible columns that are unique to the entry.  The model of the database
(`Atlas`) is independent of the package: it holds the documented grid and the formula of every entry.
"""
import atexit
import csv
import os
import shutil
import sys
import tempfile

os.environ.setdefault("OPENBLAS_NUM_THREADS", "1")
os.environ.setdefault("OMP_NUM_THREADS", "1")
os.environ.setdefault("MPLBACKEND", "Agg")
sys.dont_write_bytecode = True

import numpy as np  # noqa: E402

REPO = os.environ.get("VERIF_REPO", "/repo")
HERE = os.path.dirname(os.path.abspath(__file__))
NWAV = 1371


def _some(value, every=7):
    def f(a):
        a = a.copy()
        a.reshape(-1)[::every] = value
        return a
    return f


ODD = [_some(np.nan), _some(np.inf), _some(-np.inf, 11), lambda a: -a, lambda a: np.zeros_like(a), lambda a: np.ones_like(a),
       _some(-0.0, 3), lambda a: a * np.float32(1e27), lambda a: a * np.float32(1e-30), _some(np.nan, 1), lambda a: a[::-1],
       lambda a: np.sort(a, axis=0), _some(2.5, 5), lambda a: np.where(a > np.median(a), np.float32(np.nan), a),
       lambda a: np.repeat(a[:1], len(a), axis=0)]


class Atlas:
    """Reference model of the atmosphere database: which entries exist and what each contains."""

    def __init__(self, index_path=os.path.join(HERE, "grid.csv")):
        self.entries = {}  # (alt_km, range_km, ihaze) as text -> file number
        with open(index_path) as f:
            for row in csv.reader(f):
                if row and row[0].strip().isdigit():
                    self.entries[(row[1].strip(), row[2].strip(), int(row[3]))] = int(row[0])
        self.by_m = {}
        for (a, g, h), n in self.entries.items():
            self.by_m[(self.metres(a), self.metres(g), h)] = n
        self._wl = np.array([(0.3 + 13.7 * i / (NWAV - 1)) * 1e-6 for i in range(NWAV)])
        self._cache = {}
        # entries above the interpolation grid whose contents are out of the ordinary
        high = sorted(k for k in self.by_m if k[0] > 20000.0)
        self.peculiar = dict(zip(high[::max(1, len(high) // len(ODD))], ODD))

    @staticmethod
    def metres(km_text):
        """Kilometres written in decimal -> the metres a user would write (exact decimal shift)."""
        from decimal import Decimal
        return float(Decimal(km_text) * 1000)

    @property
    def altitudes(self):
        return sorted({self.metres(k[0]) for k in self.entries})

    @property
    def ranges(self):
        return sorted({self.metres(k[1]) for k in self.entries})

    def raw(self, n):
        """float32 columns of file n: transmission and four radiances in W/(cm^2 sr um)."""
        if n in self._cache:
            return self._cache[n]
        if not hasattr(self, "_num"):
            self._num = {v: k for k, v in self.by_m.items()}
        alt, rng, haze = self._num[n]
        um = self._wl * 1e6
        slant = np.sqrt(alt * alt + rng * rng) / 1000.0
        # per-entry signatures: deterministic, not smooth in the grid coordinates
        sig = [((n * m) % 1.0) for m in (0.6180339887, 0.7548776662, 0.5698402910, 0.8191725134, 0.6710436067)]
        ext = (0.17 if haze == 1 else 0.55) * (0.55 / um) ** 1.1 * 0.02
        band = 0.03 * np.exp(-((um - 1.38) / 0.1) ** 2) + 0.05 * np.exp(-((um - 6.3) / 1.0) ** 2) + 0.002
        tau = np.exp(-(ext + band) * slant) * (0.93 + 0.06 * sig[0])
        from math import pi  # noqa: F401
        bb = _planck(um, 288.0)
        sun = 6.87e-5 * _planck(um, 5800.0) / np.pi
        pth = (1 - tau) * bb * (0.8 + 0.3 * sig[1]) + 1e-9
        emis = 0.85 * tau * bb * (0.9 + 0.1 * sig[4])
        scat = (1 - tau) * sun * (0.05 + 0.03 * sig[2]) + 1e-9
        refl = 0.15 * tau * sun * (0.6 + 0.3 * sig[3]) + 1e-9
        out = np.stack([tau, pth, emis, scat, refl], axis=1).astype(np.float32)
        odd = self.peculiar.get(self._num[n])
        if odd is not None:
            out = odd(out)
        if len(self._cache) > 600:
            self._cache.clear()
        self._cache[n] = out
        return out

    def atm(self, n):
        """The matrix the documentation promises for entry n."""
        r = self.raw(n).astype(np.float64)
        out = np.empty((NWAV, 6))
        out[:, 0] = self._wl
        out[:, 1] = r[:, 0]
        out[:, 2:] = r[:, 1:] * 1e10
        return out

    def lookup(self, altitude, ground_range, ihaze):
        n = self.by_m.get((float(altitude), float(ground_range), int(ihaze)))
        return None if n is None else self.atm(n)


def _planck(um, temp):
    """Blackbody radiance in W/(cm^2 sr um)."""
    lam = um * 1e-6
    with np.errstate(over="ignore"):
        x = 6.62607004e-34 * 299792458.0 / (lam * 1.38064852e-23 * temp)
        return 2 * 6.62607004e-34 * 299792458.0 ** 2 / lam ** 5 / np.expm1(np.minimum(x, 700)) * 1e-10


class World:
    def __init__(self, root, atlas):
        self.root = root
        self.atlas = atlas
        self.atms = os.path.join(root, "pybsm", "atms")

    def private(self):
        """A private copy of this world for the calling process, made on first use; pybsm is imported from it."""
        if getattr(self, "_mine", None) is None or self._mine[0] != os.getpid():
            import copy
            import warnings
            root = tempfile.mkdtemp(prefix=f"p{os.getpid()}_", dir=self.root)
            shutil.copytree(os.path.join(self.root, "pybsm"), os.path.join(root, "pybsm"))
            w = copy.copy(self)
            w.root, w.atms = root, os.path.join(root, "pybsm", "atms")
            sys.path.insert(0, root)
            assert "pybsm" not in sys.modules
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                import pybsm  # noqa: F401
                assert os.path.realpath(pybsm.__file__).startswith(os.path.realpath(root)), pybsm.__file__
            self._mine = (os.getpid(), w)
        return self._mine[1]

    def path(self, n):
        return os.path.join(self.atms, f"{n}.bin")

    def write_entry(self, n, data=None):
        with open(self.path(n), "wb") as f:
            f.write(self.atlas.raw(n).tobytes(order="F") if data is None else data)


def make_world(entries="all", load=True, small_index=False):
    """Copy the package source out of the working tree, add the synthetic database, import pybsm from there.

    entries: "all", "none", or an iterable of (altitude_m, range_m, ihaze) to materialise.
    small_index: keep only those entries in the database index too (a smaller database, so loads are quick).
    """
    atlas = Atlas()
    base = "/dev/shm" if os.path.isdir("/dev/shm") and os.access("/dev/shm", os.W_OK) \
        and shutil.disk_usage("/dev/shm").free > 2 ** 28 else None
    root = tempfile.mkdtemp(prefix="pybsm_mc_", dir=base)
    owner = os.getpid()

    def cleanup():
        if os.getpid() == owner:
            shutil.rmtree(root, ignore_errors=True)

    atexit.register(cleanup)
    src = os.path.join(REPO, "src", "pybsm")
    shutil.copytree(src, os.path.join(root, "pybsm"), ignore=shutil.ignore_patterns("*.bin", "__pycache__"))
    w = World(root, atlas)
    os.makedirs(w.atms, exist_ok=True)
    if entries == "all":
        for n in atlas.by_m.values():
            w.write_entry(n)
    elif entries != "none":
        entries = list(entries)
        for k in entries:
            w.write_entry(atlas.by_m[k])
        if small_index:
            keep = {atlas.by_m[k] for k in entries}
            path = os.path.join(w.atms, "fileDecoder.csv")
            with open(path) as f:
                lines = f.read().splitlines(keepends=True)
            with open(path, "w") as f:
                f.writelines(ln for ln in lines if not ln[:1].isdigit() or int(ln.split(",")[0]) in keep)
            atlas.by_m = {k: n for k, n in atlas.by_m.items() if n in keep}
    if load:
        import warnings
        sys.path.insert(0, root)
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            import pybsm
            assert os.path.realpath(pybsm.__file__).startswith(os.path.realpath(root)), pybsm.__file__
    return w
