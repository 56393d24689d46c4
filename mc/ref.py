"""Reference model of pyBSM: every documented quantity computed a second time, independently of the package.

Boring on purpose: plain formulas from the IBSM equations quoted in the documentation, scalar-minded, no caching, no
shared state.  Where a second derivation exists (pupil autocorrelation, direct sums instead of FFTs, dense
quadrature) it is used instead of the package's closed form.
"""
import math

import numpy as np

H, C, K, Q = 6.62607004e-34, 299792458.0, 1.38064852e-23, 1.60217662e-19
R_EARTH = 6378164.0


# ------------------------------------------------------------------ basics
def trapz(y, x):
    y = np.broadcast_to(np.asarray(y, dtype=float), np.shape(x))
    x = np.asarray(x, dtype=float)
    return float(np.sum((x[1:] - x[:-1]) * (y[1:] + y[:-1])) / 2.0)


def interp0(x, xp, fp):
    """Linear interpolation, zero outside [xp[0], xp[-1]]."""
    x = np.asarray(x, dtype=float)
    xp = np.asarray(xp, dtype=float)
    fp = np.asarray(fp, dtype=float)
    if len(xp) == 1:
        return np.where(x == xp[0], fp[0], 0.0)
    j = np.clip(np.searchsorted(xp, x, side="right") - 1, 0, len(xp) - 2)
    t = (x - xp[j]) / (xp[j + 1] - xp[j])
    val = fp[j] + t * (fp[j + 1] - fp[j])
    return np.where((x < xp[0]) | (x > xp[-1]), 0.0, val)


# ------------------------------------------------------------------ geometry
def slant_curved(h_t, h_s, g):
    """Chord between two points above a circular earth, cancellation-free form."""
    a, c = R_EARTH + h_s, R_EARTH + h_t
    return math.sqrt((a - c) ** 2 + 4.0 * a * c * math.sin(g / R_EARTH / 2.0) ** 2)


def cos_nadir(h_t, h_s, s):
    a, c = R_EARTH + h_s, R_EARTH + h_t
    return ((a - c) * (a + c) + s * s) / (2.0 * a * s)


def height_at(h_t, h_s, s, z):
    """Height of the point at distance z from the target on the straight line to the sensor (Stewart's theorem)."""
    a, c = R_EARTH + h_s, R_EARTH + h_t
    z = np.asarray(z, dtype=float)
    q = (a * a * z + c * c * (s - z)) / s - z * (s - z)
    return np.sqrt(q) - R_EARTH


# ------------------------------------------------------------------ radiometry
def planck(lam, t):
    lam = np.asarray(lam, dtype=float)
    with np.errstate(over="ignore"):
        return 2.0 * H * C * C / lam ** 5 / (np.exp(H * C / (lam * K * t)) - 1.0)


def fp_irr(d, f, rad):
    return np.asarray(rad, dtype=float) * math.pi / (1.0 + 4.0 * (f / d) ** 2)


def cold_shield(lam, t, d, f):
    return (math.pi - math.pi / (1.0 + 4.0 * (f / d) ** 2)) * planck(lam, t)


def cold_stop(lam, t, e, d, f):
    return fp_irr(d, f, e * planck(lam, t))


def optics_emission(lam, t, e, tau, d, f):
    return fp_irr(d, f, tau * e * planck(lam, t))


def detection_rate(e, wx, wy, lam, qe):
    return np.asarray(lam) / (H * C) * qe * wx * wy * e


def total_radiance(atm, rho, t):
    return atm[:, 2] + (1.0 - rho) * planck(atm[:, 0], t) * atm[:, 1] + atm[:, 4] + atm[:, 5] * rho / 0.15


def giqe_radiance(atm, emissive):
    if emissive:
        return total_radiance(atm, 0.0, 282.0), total_radiance(atm, 0.0, 280.0)
    return total_radiance(atm, 0.15, 282.0), total_radiance(atm, 0.07, 280.0)


def signal_rate(lam, rad, trans, d, f, wx, wy, qe, other, dark):
    e = trans * fp_irr(d, f, rad) + other
    dn = detection_rate(e, wx, wy, lam, qe)
    return trapz(dn, lam) + dark, e, dn


def sensor_terms(s, lam):
    """(transmission, quantum efficiency, irradiance from inside the camera and stray light)."""
    trans = s.cold_filter_transmission * (1.0 - s.eta ** 2) * interp0(lam, s.opt_trans_wavelengths,
                                                                        s.optics_transmission)
    qe = interp0(lam, s.qe_wavelengths, s.qe)
    other = (cold_shield(lam, s.cold_shield_temperature, s.D, s.f)
             + optics_emission(lam, s.optics_temperature, s.optics_emissivity, s.cold_filter_transmission, s.D, s.f)
             + cold_stop(lam, s.cold_filter_temperature, s.cold_filter_emissivity, s.D, s.f)
             + s.other_irradiance)
    return trans, qe, other


def quant_noise(pe_range, bits):
    return pe_range / (2.0 ** bits - 1.0) / math.sqrt(12.0)


def snr(s, lam, tgt, bkg):
    o = {}
    trans, qe, other = sensor_terms(s, lam)
    o["opt_trans"], o["qe"], o["other_irradiance"] = trans, qe, other
    tr, te, tw = signal_rate(lam, tgt, trans, s.D, s.f, s.w_x, s.w_y, qe, other, s.dark_current)
    br, be, _ = signal_rate(lam, bkg, trans, s.D, s.f, s.w_x, s.w_y, qe, other, s.dark_current)
    o["tgt_n_rate"], o["bkg_n_rate"], o["tgt_FPA_irradiance"], o["bkg_FPA_irradiance"] = tr, br, te, be
    o["weights"] = tw
    full = s.max_well_fill * s.max_n
    most = max(tr, br) * s.int_time * s.n_tdi
    scale = full / most if most > full else 1.0
    o["int_time"] = s.int_time * scale
    o["tgt_n"] = tr * o["int_time"] * s.n_tdi
    o["bkg_n"] = br * o["int_time"] * s.n_tdi
    o["well_fraction"] = max(o["tgt_n"], o["bkg_n"]) / s.max_n
    o["contrast_signal"] = o["tgt_n"] - o["bkg_n"]
    o["signal_noise"] = math.sqrt(max(o["tgt_n"], o["bkg_n"]))
    o["dark_current_noise"] = math.sqrt(s.n_tdi * s.dark_current * o["int_time"])
    o["quantization_noise"] = quant_noise(s.max_n, s.bit_depth)
    o["self_emission_noise"] = math.sqrt(trapz(detection_rate(other, s.w_x, s.w_y, lam, qe), lam)
                                         * o["int_time"] * s.n_tdi)
    var = o["signal_noise"] ** 2 + o["quantization_noise"] ** 2 + s.read_noise ** 2
    for n in np.asarray(s.other_noise, dtype=float).ravel():
        var += n * n
    o["total_noise"] = math.sqrt(var)
    o["snr"] = o["contrast_signal"] / o["total_noise"]
    return o


def refl_curve(atm, s, int_time, t=300.0):
    """Reflectance -> photoelectrons before and after exposure reduction."""
    lam = atm[:, 0]
    keep = (lam >= s.opt_trans_wavelengths[0]) & (lam <= s.opt_trans_wavelengths[-1])
    atm = atm[keep]
    lam = atm[:, 0]
    trans, qe, other = sensor_terms(s, lam)
    ends = []
    for rho in (0.0, 1.0):
        r, _, dn = signal_rate(lam, total_radiance(atm, rho, t), trans, s.D, s.f, s.w_x, s.w_y, qe, other,
                               s.dark_current)
        ends.append(r * int_time * s.n_tdi)
    ref = np.array([i / 99.0 for i in range(100)])
    pe = ends[0] + ref * (ends[1] - ends[0])
    sat = pe.max() / s.max_n
    if sat > 1:
        pe = pe / sat
    return ref, pe, lam, dn / dn.max(), max(sat, 1.0)


# ------------------------------------------------------------------ transfer functions
def sinc(x):
    x = np.asarray(x, dtype=float) * math.pi
    safe = np.where(x == 0, 1.0, x)
    return np.where(x == 0, 1.0, np.sin(safe) / safe)


def lens_area(r1, r2, d):
    """Area common to two discs of radius r1 and r2 whose centres are d apart."""
    d = np.asarray(d, dtype=float)
    lo, hi = min(r1, r2), max(r1, r2)
    out = np.where(d >= r1 + r2, 0.0, np.where(d <= hi - lo, math.pi * lo * lo, np.nan))
    m = np.isnan(out)
    if m.any():
        x = d[m]
        c1 = np.clip((x * x + r1 * r1 - r2 * r2) / (2 * x * r1), -1, 1)
        c2 = np.clip((x * x + r2 * r2 - r1 * r1) / (2 * x * r2), -1, 1)
        tri = 0.5 * np.sqrt(np.maximum(0, (-x + r1 + r2) * (x + r1 - r2) * (x - r1 + r2) * (x + r1 + r2)))
        out = out.copy()
        out[m] = r1 * r1 * np.arccos(c1) + r2 * r2 * np.arccos(c2) - tri
    return out


def aperture(u, v, lam, d, eta):
    """Autocorrelation of the annular pupil, by areas of overlapping discs (pupil radius 1)."""
    shift = 2.0 * np.hypot(u, v) * lam / d
    if eta == 0:
        return lens_area(1.0, 1.0, shift) / math.pi
    return (lens_area(1.0, 1.0, shift) - 2.0 * lens_area(1.0, eta, shift) + lens_area(eta, eta, shift)) \
        / (math.pi * (1.0 - eta ** 2))


def aperture_defocus(u, v, lam, d, f, dz):
    """Autocorrelation of a disc pupil with quadratic phase, by quadrature."""
    w20 = dz * 0.5 / (1.0 + 4.0 * (f / d) ** 2)
    s = 2.0 * np.hypot(u, v) * lam / d
    out = np.zeros(np.shape(s))
    for i, q in np.ndenumerate(s):
        if q >= 2.0:
            continue
        # integrate over y = sin(t) to remove the end-point singularity
        ymax = math.sqrt(max(0.0, 1.0 - (q / 2) ** 2))
        t = np.linspace(0.0, math.asin(min(1.0, ymax)), 4001)
        y, dy = np.sin(t), np.cos(t)
        hw = np.cos(t) - q / 2
        c = 2.0 * math.pi / lam * w20 * 2.0 * q
        g = 2.0 * hw if c == 0 else 2.0 * np.sin(c * hw) / c
        out[i] = 2.0 * trapz(g * dy, t) / math.pi
    return out


def cte(u, v, px, py, nx, ny, ph, eff, f):
    ax = ph * nx * (1 - eff) * (1 - np.cos(2 * math.pi * px * u / f))
    ay = ph * ny * (1 - eff) * (1 - np.cos(2 * math.pi * py * v / f))
    return np.exp(-(ax + ay))


def defocus_gauss(u, v, wx, wy):
    return np.exp(-math.pi ** 2 / 4.0 * ((wx * u) ** 2 + (wy * v) ** 2))


def detector(u, v, wx, wy, f):
    return sinc(wx * u / f) * sinc(wy * v / f)


def detector_agg(u, v, wx, wy, px, py, f, n):
    """n x n detectors read as one: phasor sum about the group's centre."""
    def row(w, p):
        tot = 0
        for i in range(n):
            tot = tot + np.exp(2j * math.pi * (i - (n - 1) / 2.0) * p * w / f)
        return np.real(tot) / n
    return row(u, px) * row(v, py) * detector(u, v, wx, wy, f)


def diffusion(u, v, alpha, ald, al0, f):
    def g(length):
        return 1.0 - np.exp(-alpha * ald) / (1.0 + alpha * length)
    rho = np.hypot(u, v)
    ell = al0 / np.sqrt(1.0 + (2 * math.pi * al0 * rho / f) ** 2)
    return g(ell) / g(al0)


def drift(u, v, ax, ay):
    return sinc(ax * u) * sinc(ay * v)


def gaussian(u, v, bx, by):
    return np.exp(-math.pi * ((u * bx) ** 2 + (v * by) ** 2))


def jitter(u, v, sx, sy):
    return np.exp(-2.0 * math.pi ** 2 * ((sx * u) ** 2 + (sy * v) ** 2))


def tdi(u, w, n, ph, beta, f):
    xx = w * u / (f * beta)
    m = int(round(n * ph))
    tot = 0
    for i in range(m):
        tot = tot + np.exp(-2j * math.pi * xx * (beta - 1.0) * i)
    return sinc(xx) * tot / m


def turbulence(u, v, lam, d, r0, alpha):
    rho = np.hypot(u, v)
    return np.exp(-3.44 * (lam * rho / r0) ** (5 / 3) * (1.0 - alpha * (lam * rho / d) ** (1 / 3)))


def wind_turbulence(u, v, lam, d, r0, td, vel):
    w = math.exp(-vel * td / r0)
    return w * turbulence(u, v, lam, d, r0, 0.5) + (1 - w) * turbulence(u, v, lam, d, r0, 0.0)


def wavefront(u, v, lam, pv, lx, ly):
    return np.exp(-pv * (1.0 - np.exp(-lam ** 2 * ((u / lx) ** 2 + (v / ly) ** 2))))


def wavefront2(u, v, cutoff, rms):
    q = np.hypot(u, v) / cutoff
    return 1.0 - (rms / 0.18) ** 2 * (1.0 - 4.0 * (q - 0.5) ** 2)


def hv(h, wind, cn2):
    h = np.asarray(h, dtype=float)
    return (5.94e-53 * (wind / 27.0) ** 2 * h ** 10 * np.exp(-h / 1000.0) + 2.7e-16 * np.exp(-h / 1500.0)
            + cn2 * np.exp(-h / 100.0))


def r0(lam, z, cn2):
    z = np.asarray(z, dtype=float)
    integ = trapz(cn2 * (z / z[-1]) ** (5 / 3), z)
    return (0.423 * (2 * math.pi / lam) ** 2 * integ) ** (-3 / 5)


def path_r0_1um(alt, slant, wind, cn2):
    z = np.array([slant * i / 9999.0 for i in range(10000)])
    return r0(1e-6, z, hv(height_at(0.0, alt, slant, z), wind, cn2))


def wmean(wl, wt, fun):
    tot, acc = 0.0, 0.0
    for a, b in zip(wl, wt):
        tot += b
        acc = acc + b * fun(a)
    return acc / tot


def poly_turbulence(u, v, wl, wt, alt, slant, d, wind, cn2, t, speed):
    base = path_r0_1um(alt, slant, wind, cn2)
    def r(lam):
        return base * (lam / 1e-6) ** 1.2
    return wmean(wl, wt, lambda a: wind_turbulence(u, v, a, d, r(a), t, speed)), wmean(wl, wt, r)


def kernel_mtf(u, v, kernel, ifov):
    """|Fourier transform| of an image filter sampled at one tap per ifov; v is positive up, rows run down."""
    kernel = np.atleast_2d(np.asarray(kernel, dtype=float))
    tot = 0
    for i in range(kernel.shape[0]):
        for j in range(kernel.shape[1]):
            tot = tot + kernel[i, j] * np.exp(-2j * math.pi * ifov * (j * np.asarray(u) - i * np.asarray(v)))
    return np.abs(tot)


def kernel_mtf_tol(kernel, n=100):
    """How much the response can change over one sample of an n-point grid, in each direction."""
    kernel = np.atleast_2d(np.asarray(kernel, dtype=float))
    t = 0.0
    # |H| does not depend on the origin of the taps; bound the slope about the central tap
    ci, cj = (kernel.shape[0] - 1) / 2.0, (kernel.shape[1] - 1) / 2.0
    for i in range(kernel.shape[0]):
        for j in range(kernel.shape[1]):
            t += abs(kernel[i, j]) * 2 * math.pi / n * (abs(i - ci) + abs(j - cj))
    return 2.0 * t + 1e-9


def common(s, sc, u, v, wl, wt, slant, t):
    """Every component of the system response (the image filter is left to the caller)."""
    o = {"ap_OTF": wmean(wl, wt, lambda a: aperture(u, v, a, s.D, s.eta))}
    if sc.cn2_at_1m > 0:
        o["turb_OTF"], o["r0_band"] = poly_turbulence(u, v, wl, wt, sc.altitude, slant, s.D, sc.ha_wind_speed,
                                                      sc.cn2_at_1m, t * s.n_tdi, sc.aircraft_speed)
    else:
        o["turb_OTF"] = np.ones(u.shape)
    o["det_OTF"] = detector(u, v, s.w_x, s.w_y, s.f)
    o["jit_OTF"] = jitter(u, v, s.s_x, s.s_y)
    o["drft_OTF"] = drift(u, v, s.da_x * t * s.n_tdi, s.da_y * t * s.n_tdi)
    o["wav_OTF"] = wmean(wl, wt, lambda a: wavefront(u, v, a, s.pv * (s.pv_wavelength / a) ** 2, s.L_x, s.L_y))
    return o


def product(o):
    r = 1.0
    for k in ("ap_OTF", "turb_OTF", "det_OTF", "jit_OTF", "drft_OTF", "wav_OTF", "filter_OTF"):
        if k in o:
            r = r * o[k]
    return r


def slice2d(a, ang):
    """Samples of a square, u-rightwards v-upwards array along a ray from the centre (bilinear)."""
    n = a.shape[0]
    step = 2.0 / (n - 1)
    r = np.arange(0.0, 1.0, np.linspace(-1.0, 1.0, n)[1] + 1.0)
    out = []
    for q in r:
        x = (q * math.cos(ang) + 1.0) / step
        y = (1.0 - q * math.sin(ang)) / step
        j, i = min(max(int(math.floor(x)), 0), n - 2), min(max(int(math.floor(y)), 0), n - 2)
        fx, fy = x - j, y - i
        out.append((1 - fy) * ((1 - fx) * a[i, j] + fx * a[i, j + 1]) + fy * ((1 - fx) * a[i + 1, j]
                                                                               + fx * a[i + 1, j + 1]))
    return np.array(out)


# ------------------------------------------------------------------ image-quality metrics
def edge_response(pos, mtf, df, ifov):
    w = df * np.arange(len(mtf)) + 1e-6
    return 0.5 + trapz(mtf / w * np.sin(2 * math.pi * w * ifov * pos), w) / math.pi


def rer(mtf, df, ifov):
    return edge_response(0.5, mtf, df, ifov) - edge_response(-0.5, mtf, df, ifov)


def eho(mtf, df, ifov):
    e = [edge_response(1.0 + 0.25 * i, mtf, df, ifov) for i in range(9)]
    return e[1] if all(b > a for a, b in zip(e, e[1:])) else max(e)


def eho_gap(mtf, df, ifov):
    """Smallest |step| of the edge: how close the monotone test is to its threshold."""
    e = [edge_response(1.0 + 0.25 * i, mtf, df, ifov) for i in range(9)]
    return min(abs(b - a) for a, b in zip(e, e[1:]))


def giqe3(rer_, gsd, eho_, ng, snr_):
    return 11.81 + 3.32 * math.log10(0.0254 * rer_ / gsd) - 1.48 * eho_ - ng / snr_


def giqe4(rer_, gsd, eho_, ng, snr_, el):
    a, b = (3.32, 1.559) if rer_ >= 0.9 else (3.16, 2.817)
    gp = gsd / math.sqrt(math.sin(el))
    return 10.251 - a * math.log10(gp / 0.0254) + b * math.log10(rer_) - 0.656 * eho_ - 0.334 * ng / snr_, gp


def giqe5(r1, r2, gsd, snr_, el):
    gw = gsd / math.sin(el) ** 0.25
    r = (max(r1, r2) * min(r1, r2) ** 2) ** (1 / 3)
    return (9.57 - 3.32 * math.log10(gw / 0.0254) + 3.32 * (1 - math.exp(-1.9 / snr_)) * math.log10(r)
            - 2.0 * math.log10(r) ** 4 - 1.8 / snr_), gw, r


def grd(mtf, df, snr_, ifov, slant):
    level = 3.0 / snr_
    w = [df * i for i in range(len(mtf))]
    if level <= mtf[-1]:
        cut = w[-1]
    elif level >= mtf[0]:
        cut = w[0]
    else:
        i = max(i for i in range(len(mtf)) if mtf[i] >= level)
        cut = w[i] + (mtf[i] - level) / (mtf[i] - mtf[i + 1]) * (w[i + 1] - w[i])
    return slant * max(1.0 / (cut + 1e-12), 2.0 * ifov)


# ------------------------------------------------------------------ images
def to_reflectance(img, pix, ref):
    """Piecewise linear through the calibration points (in any order), extended linearly, clipped to [0, 1]."""
    o = np.argsort(np.asarray(pix, dtype=float), kind="stable")
    p, r = np.asarray(pix, dtype=float)[o], np.asarray(ref, dtype=float)[o]
    img = np.asarray(img, dtype=float)
    j = np.minimum(np.maximum(np.searchsorted(p, img) - 1, 0), len(p) - 2)
    return np.clip(r[j] + (img - p[j]) / (p[j + 1] - p[j]) * (r[j + 1] - r[j]), 0.0, 1.0)


def wiener(otf, nsr):
    return np.conj(otf) / (np.real(otf * np.conj(otf)) + nsr)


def stretch(img, lo=0.1, hi=99.9):
    x = np.asarray(img, dtype=float)
    a, b = np.percentile(x, lo), np.percentile(x, hi)
    if not b > a:
        return np.clip(np.round(np.clip(x - a, 0, 255)), 0, 255).astype(int)
    return np.round(np.clip((x - a) * 255.0 / (b - a), 0, 255)).astype(int)


def noise_gain(k):
    return math.sqrt(float(np.sum(np.asarray(k, dtype=float) ** 2)))


# ------------------------------------------------------------------ whole evaluations
def niirs_chain(s, sc, atm_full, slant):
    """The NIIRS evaluation up to the pieces both GIQE versions share."""
    lam = atm_full[:, 0]
    keep = (lam >= s.opt_trans_wavelengths[0]) & (lam <= s.opt_trans_wavelengths[-1])
    atm = atm_full[keep]
    lam = atm[:, 0]
    emissive = s.opt_trans_wavelengths[0] >= 2.9e-6
    o = {"atm": atm, "radiance_wavelengths": lam, "emissive": bool(emissive), "slant_range": slant}
    o["tgt_radiance"], o["bkg_radiance"] = giqe_radiance(atm, emissive)
    o["snr"] = q = snr(s, lam, o["tgt_radiance"], o["bkg_radiance"])
    gain = q["int_time"] * s.n_tdi
    scene = [trapz(detection_rate(q[k] - q["other_irradiance"], s.w_x, s.w_y, lam, q["qe"]), lam) * gain
             for k in ("tgt_FPA_irradiance", "bkg_FPA_irradiance")]
    path = signal_rate(lam, atm[:, 2] + atm[:, 4], q["opt_trans"], s.D, s.f, s.w_x, s.w_y, q["qe"], 0.0, 0.0)[0] * gain
    q["path_noise"] = math.sqrt(path)
    q["scene_noise"] = math.sqrt(max(max(scene) - path, 0.0))
    on = q["weights"] > 0
    o["mtf_wavelengths"], o["mtf_weights"] = lam[on], q["weights"][on]
    o["cutoff_frequency"] = s.D / o["mtf_wavelengths"].min()
    axis = np.array([(i - 50) / 50.0 for i in range(101)]) * o["cutoff_frequency"]
    o["uu"], o["vv"] = np.tile(axis, (101, 1)), np.tile(-axis[:, None], (1, 101))
    o["df"] = o["cutoff_frequency"] / 50.0
    o["otf"] = common(s, sc, o["uu"], o["vv"], o["mtf_wavelengths"], o["mtf_weights"], slant, q["int_time"])
    o["ifov_x"], o["ifov_y"] = s.p_x / s.f, s.p_y / s.f
    o["gsd_x"], o["gsd_y"] = slant * o["ifov_x"], slant * o["ifov_y"]
    return o
