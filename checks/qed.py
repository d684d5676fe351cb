"""Shared parts of the quantum-module checks: the four builds, units, references, generators."""
from checks.common import *
import ctypes
from scipy.special import kv, gamma as Gam
C_, ME, QE, HB, EPS0, AL = 299792458.0, 9.10938356e-31, 1.6021766208e-19, 1.0545718e-34, 8.854187817e-12, 0.0072973525664
ES = ME ** 2 * C_ ** 3 / (QE * HB)
NAMES = ("SId", "SIf", "nmd", "nmf")
DP = ctypes.c_double
VP = ctypes.c_void_p
ASSUME = ["both unit systems and both precisions are separate builds of the repository's headers (C++17, -O1)",
          "tolerances follow from the rounding of the working precision and the conditioning of the formula",
          "in single precision and SI units, momenta are limited so that their squares stay representable to the stated accuracy"]
BASE_D = set("sw_lambda sw_rate sw_rate_static t1_interp t2_interp poisson root quad besselk".split())
BASE_P = set("sw_new sw_new_default sw_copy sw_move t1_new t1_dup t2_new t2_dup".split())
ENG_D = set("lambda optd optd_static dndt interp interp_static cum".split())
ENG_P = set("new raw dup".split())


def conv(a):
    if isinstance(a, np.ndarray):
        return VP(a.ctypes.data)
    if isinstance(a, (float, np.floating)):
        return DP(float(a))
    if isinstance(a, (bool, int, np.integer)):
        return ctypes.c_int(int(a))
    if isinstance(a, str):
        return ctypes.c_char_p(a.encode())
    return a


class Lib:
    def __init__(self, path):
        self.L = ctypes.CDLL(path)

    def __getattr__(self, nm):
        f = getattr(self.L, nm)
        s = nm.split("_", 1)[1] if nm[:3] in ("bw_", "qs_") else None
        if nm in BASE_D or s in ENG_D:
            f.restype = DP
        elif nm in BASE_P or s in ENG_P:
            f.restype = VP
        w = (lambda *a: VP(f(*[conv(x) for x in a]))) if f.restype is VP else (lambda *a: f(*[conv(x) for x in a]))
        setattr(self, nm, w)
        return w


class Var:
    def __init__(self, nm):
        self.nm, self.norm, self.flt = nm, nm[:2] == "nm", nm[2] == "f"
        self.u = 2.0 ** -24 if self.flt else 2.0 ** -53
        self.dt = np.float32 if self.flt else np.float64
        self.tiny = 1.4e-45 if self.flt else 5e-324
        self.max = float(np.finfo(self.dt).max)
        # half of the builds in the oldest supported language, where the Bessel functions are those of Boost
        self.flags = "-std=c++%d -O1 -DREAL=%s%s" % (11 if nm in ("nmd", "SIf") else 17, "float" if self.flt else "double",
                                                        " -DPXRMP_USE_NORMALIZED_UNITS" if self.norm else "")

    def r(self, x):
        """round to the working precision"""
        with np.errstate(all="ignore"):
            return np.asarray(x, dtype=self.dt).astype(float)

    # physical quantities to the units of the build; lam is the normalisation length
    def mom(self, p):  # in m c
        return self.r(np.array(p, float) * (1 if self.norm else ME * C_))

    def fld(self, f, lam):  # E/Es and cB/Es
        f = np.array(f, float)
        if self.norm:
            return self.r(f * (ME * C_ * lam / (2 * np.pi * HB)))
        g = f * ES
        g[..., 3:] /= C_
        return self.r(g)

    def unmom(self, p):
        return np.array(p, float) / (1 if self.norm else ME * C_)

    def unfld(self, f, lam):
        f = np.array(f, float)
        if self.norm:
            return f / (ME * C_ * lam / (2 * np.pi * HB))
        f = f / ES
        f[..., 3:] *= C_
        return f

    def energy(self, e):  # in m c^2
        return float(self.r(e * (1 if self.norm else ME * C_ ** 2)))

    def time(self, t, lam):  # seconds
        return float(self.r(t * 2 * np.pi * C_ / lam if self.norm else t))

    def rate(self, w, lam):  # 1/s -> units of the build
        return w * lam / (2 * np.pi * C_) if self.norm else w

    def length(self, x, lam):
        return float(self.r(x * 2 * np.pi / lam if self.norm else x))


VARS = [Var(n) for n in NAMES]
VAR = {v.nm: v for v in VARS}


def prepare_qed(base=True, eng=False, extra=()):
    import threading
    th = []
    for v in VARS:
        fl = v.flags
        if base:
            th.append((v, "B", lambda v=v, fl=fl: build.cxx("qb" + v.nm, "qed_base.cpp", fl)))
        if eng:
            th.append((v, "E", lambda v=v, fl=fl: build.cxx("qe" + v.nm, "qed_eng.cpp", fl)))
    for (v, k, _), p in zip(th, build.parallel(*[t for _, _, t in th])):
        setattr(v, k, Lib(p))


A = lambda *x: np.array(x, dtype=float)


def bad(x):
    return not np.all(np.isfinite(x))


# ---------------------------------------------------------------- generators (JSON-able physical cases)
LOG = lambda a, b: st.floats(a, b).map(lambda e: float(10.0 ** e))
unit3 = st.one_of(st.sampled_from([[1., 0., 0.], [0., 1., 0.], [0., 0., 1.], [0., 0., -1.], [0., -1., 0.], [0.6, 0.8, 0.]]),
                  st.tuples(st.floats(-1, 1), st.floats(-3.14159, 3.14159)).map(
                      lambda q: [math.sqrt(1 - q[0] ** 2) * math.cos(q[1]), math.sqrt(1 - q[0] ** 2) * math.sin(q[1]), q[0]]))
LAM = st.one_of(st.sampled_from([1.0, 1e-6, 8e-7]), LOG(-9, 1))
VN = st.sampled_from(NAMES)


def mom3(lo, hi, zero=False):
    s = st.tuples(LOG(lo, hi), unit3).map(lambda q: [q[0] * c for c in q[1]])
    return st.one_of(s, s, s, s, s, st.just([0., 0., 0.])) if zero else s


def fields(lo, hi):
    """E/Es and cB/Es: random, single, parallel, perpendicular, null (plane wave), zero"""
    return st.fixed_dictionaries({"kind": st.sampled_from(["random", "random", "random", "E", "B", "null", "parallel", "perp", "zero", "E=cB"]),
                                  "E": LOG(lo, hi), "B": LOG(lo, hi), "e": unit3, "b": unit3})


def mkfield(c, p=None):
    E, B = np.array(c["e"]) * c["E"], np.array(c["b"]) * c["B"]
    k = c["kind"]
    n = np.array(p, float) if p is not None and np.any(p) else np.array(c["b"])
    n = n / np.linalg.norm(n)
    if k == "E":
        B = B * 0
    elif k == "B":
        E = E * 0
    elif k == "zero":
        E, B = E * 0, B * 0
    elif k == "parallel":
        E, B = n * c["E"], n * c["B"] * (1 if c["e"][0] >= 0 else -1)
    elif k in ("null", "perp"):
        t = np.cross(n, c["e"])
        if np.linalg.norm(t) < 1e-3:
            t = np.cross(n, [0.3, -0.5, 0.8])
        t /= np.linalg.norm(t)
        E = t * c["E"]
        # plane wave: along (chi nearly 0) or against the momentum
        B = np.cross(n, t) * (c["E"] if k == "null" else c["B"]) * (1 if c["e"][0] >= 0 else -1)
    elif k == "E=cB":
        B = np.array(c["b"]) * c["E"]
    return np.concatenate([E, B])


# ---------------------------------------------------------------- references
LD = np.longdouble


def chi_ref(v, lep, p, f, lam):
    """Quantum parameter from the values the code sees (p in code units, f in code units), with an error bound.
    Returns (value, tolerance)."""
    q = np.array(v.unmom(p), LD)
    F = np.array(v.unfld(f, lam), LD)
    E, B = F[:3], F[3:]
    P = np.sqrt((q * q).sum())
    if P == 0:
        return 0.0, 0.0
    n = q / P
    S = float(np.sqrt((E * E).sum()) + np.sqrt((B * B).sum()))
    u = v.u
    # squares of momenta below the smallest representable number
    p2 = float((np.array(p, LD) ** 2).sum())
    d = min(1.0, 4 * v.tiny / p2) if p2 > 0 else 1.0
    if not lep:
        w = E - n * (n * E).sum() + np.cross(n, B)
        val = float(P * np.sqrt((w * w).sum()))
        return val, float(P) * S * (16 * u + 6 * d) + val * (16 * u + 6 * d)
    g = np.sqrt(1 + P * P)
    b = q / g
    be = (b * E).sum()
    w = E + np.cross(b, B)
    # (E + b x B)^2 - (b.E)^2 without cancellation
    bm = P / g
    lw = w - n * (n * w).sum()
    inner = (lw * lw).sum() + (n * E).sum() ** 2 / (g * g)
    val = float(g * np.sqrt(inner))
    db = min(math.sqrt(4 * u), 4 * u / float(bm) + 4 * u) + 2 * d
    di = S * S * (40 * u + 4 * db)
    if v.flt and not v.norm:
        di += 1e-37 / ES ** 2
    i = float(inner)
    hi, lo = math.sqrt(i + di), math.sqrt(max(0.0, i - di))
    return val, float(g) * max(hi - math.sqrt(i), math.sqrt(i) - lo) + val * (16 * u + 2 * d)


_t = np.linspace(0, 1, 1201)


def ik(nu, z):
    """integral of K_nu from z to infinity (nu = 1/3 or 5/3), z > 0, array"""
    z = np.atleast_1d(np.asarray(z, float))
    T = np.arccosh(1 + 745 / z)
    if nu < 1:
        T = np.minimum(T, 60.0)
    t = T[:, None] * _t[None, :]
    c = np.cosh(t)
    w = np.full(len(_t), 1.0)
    w[0] = w[-1] = 0.5
    return (np.exp(-z[:, None] * c) * np.cosh(nu * t) / c * w).sum(1) * T / (len(_t) - 1)


_gx, _gw = np.polynomial.legendre.leggauss(160)


def tt_int(chi, ce):
    x = chi / (ce * (chi - ce))
    return (ik(1 / 3, 2 / 3 * x) - (2 - chi * x) * kv(2 / 3, 2 / 3 * x)) / (np.pi * np.sqrt(3))


def tt_num(chi, frac):
    """integral of the pair spectrum over electron fractions 0..frac"""
    s = (_gx + 1) / 2
    f = frac * s ** 3
    return float((tt_int(chi, f * chi) * chi * frac * 3 * s * s * _gw / 2).sum())


def TT(chi):
    return 2 * tt_num(chi, 0.5)


def kk_int(chi, cg):
    y = 2 * cg / (3 * chi * (chi - cg))
    return (ik(5 / 3, y) + 1.5 * cg * y * kv(2 / 3, y)) / (np.pi * np.sqrt(3) * chi)


def kk_num(chi, frac):
    """integral of the photon spectrum over photon fractions 0..frac; fractions near one are decaying"""
    tot = 0.0
    x = 1 / (1 + 1.5 * chi)  # scale of the fraction f/(1-f) ~ 1.5 chi
    cuts = [c for c in (0, min(1 - x, 0.5), 1 - x * 0.5, 1 - x * 0.1, 1 - x * 0.02) if c < frac] + [frac]
    cuts = sorted(set(max(0.0, c) for c in cuts))
    for a, b in zip(cuts[:-1], cuts[1:]):
        s = (_gx + 1) / 2
        if a == 0:
            f = b * s ** 3
            w = b * 3 * s * s * _gw / 2
        else:
            f = a + (b - a) * s
            w = (b - a) * _gw / 2
        ok = f < 1
        tot += float((kk_int(chi, f[ok] * chi) * chi * w[ok]).sum())
    return tot


def kk_small(chi, frac):
    """the same for small chi, where the spectrum ends near frac ~ chi"""
    fmax = min(frac, 1 - 1e-12)
    # substitute y: f = 3 chi y / (2 + 3 chi y)
    ym = 2 * fmax / (3 * chi * (1 - fmax))
    tot, e = 0.0, [0.0]
    for c in (0.3, 1.5, 4, 10, 25, 60, 150, 400):
        if c < ym:
            e.append(c)
    e.append(min(ym, 700.0))
    for a, b in zip(e[:-1], e[1:]):
        if b <= a:
            continue
        s = (_gx + 1) / 2
        if a == 0:
            y, w = b * s ** 3, b * 3 * s * s * _gw / 2
        else:
            y, w = a + (b - a) * s, (b - a) * _gw / 2
        f = 3 * chi * y / (2 + 3 * chi * y)
        df = 6 * chi / (2 + 3 * chi * y) ** 2
        k = (ik(5 / 3, y) + 1.5 * chi * f * y * kv(2 / 3, y)) / (np.pi * np.sqrt(3))
        tot += float((k * df * w).sum())
    return tot


def KK(chi):
    return kk_small(chi, 1.0)


def bw_rate(chi, en, tt):  # 1/s, energy in m c^2
    return AL * ME * C_ ** 2 / HB * tt / (chi * en)


RE = QE * QE / (4 * np.pi * EPS0 * ME * C_ ** 2)


def qs_rate(en, kk):
    return AL * AL * C_ / RE * kk / en
