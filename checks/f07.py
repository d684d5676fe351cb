from checks.common import *
from fractions import Fraction
PID = "F07"
RULE = ("A case is one evaluation of a stencil or of one axis of modified wavenumbers: non-trivial when the order is above 2 or "
        "spectral. Distinct = distinct case parameters.")
ASSUMPTIONS = ["even stencil orders up to 32 (staggered and nodal), 0 meaning the spectral derivative"]
CTX = {}


def prepare():
    CTX["F"] = F(build.fortran_lib())


def exact(order, nodal):
    """Coefficients of the antisymmetric stencil that differentiates odd polynomials up to degree `order`-1 exactly (order/2
    unknowns, exact rational solution)."""
    m = order // 2
    x = [Fraction(i) if nodal else Fraction(2 * i - 1, 2) for i in range(1, m + 1)]
    # sum_i c_i * 2 * x_i**(2k+1) = delta_k0
    A = [[2 * xi ** (2 * k + 1) for xi in x] + [Fraction(1 if k == 0 else 0)] for k in range(m)]
    for i in range(m):
        p = next(r for r in range(i, m) if A[r][i] != 0)
        A[i], A[p] = A[p], A[i]
        A[i] = [v / A[i][i] for v in A[i]]
        for r in range(m):
            if r != i and A[r][i]:
                A[r] = [a - A[r][i] * b for a, b in zip(A[r], A[i])]
    return [A[i][m] for i in range(m)]


_memo = {}


def ex(order, nodal):
    if (order, nodal) not in _memo:
        _memo[order, nodal] = exact(order, nodal)
    return _memo[order, nodal]


def run_fd(kind):
    def run(c):
        o, nodal = c["order"], c["nodal"]
        m = o // 2
        buf = np.full(m + 20, -3.5e44)
        if kind == "fornberg":
            CTX["F"]("fd_weights", buf[10:], o, nodal)
        else:
            CTX["F"]("__gpstd_solver_MOD_fd_weights_hvincenti", o, buf[10:], not nodal)
        if not (np.all(buf[:10] == -3.5e44) and np.all(buf[10 + m:] == -3.5e44)):
            raise Violation("stencil coefficients written outside their array")
        w = buf[10:10 + m]
        ref = ex(o, nodal)
        # antisymmetric stencil sum_i w_i (f(x_i) - f(-x_i)); exact coefficients, relative to each
        for i in range(m):
            if not abs(w[i] - float(ref[i])) <= 1e-11 * abs(float(ref[i])) + 1e-12 * (1e3 if o > 20 else 1) * 1e-3:
                raise Violation("%s order %d %s: coefficient %d is %r, exact %r" % (kind, o, "nodal" if nodal else "staggered", i + 1,
                                                                                  float(w[i]), float(ref[i])))
        # the derivative of random polynomials of degree up to the order
        rng = np.random.default_rng(c["seed"])
        x = np.array([float(i) if nodal else i - 0.5 for i in range(1, m + 1)]) / m
        for deg in range(o + 1):
            got = float(np.sum(w * m * (x ** deg - (-x) ** deg)))
            want = 1.0 if deg == 1 else 0.0
            if abs(got - want) > 1e-9 * m:
                raise Violation("%s order %d %s: derivative of x^%d at 0 is %r" % (kind, o, "nodal" if nodal else "staggered", deg, got))
        return {"nontrivial": o > 2, "labels": ["nodal" if nodal else "staggered"]}
    return run


def run_k(c):
    n, o, d, stg = c["n"], c["order"] if not c["spectral"] else 0, c["d"], not c["nodal"]
    k, kf, kb = (np.zeros(n + 8, dtype=complex) for _ in range(3))
    CTX["F"]("f_compute_k_1d", n, o, d, stg, k, kf, kb)
    k, kf, kb = k[:n], kf[:n], kb[:n]
    j = np.arange(n)
    j = np.where(j > n // 2, j - n, j)
    kk = 2 * np.pi * j / (n * d)
    if o == 0:
        ref = kk
    else:
        w = [float(x) for x in ex(o, not stg)]
        # symbol of the stencil: i k = sum_i w_i (e^{ik x_i} - e^{-ik x_i}) / d
        x = [(i - 0.5 if stg else i) * d for i in range(1, o // 2 + 1)]
        ref = sum(2 / d * wi * np.sin(kk * xi) for wi, xi in zip(w, x))
    sc = np.max(np.abs(ref)) + 1 / d
    # the highest frequency of an even number of points has no sign
    nyq = np.zeros(n, bool)
    if n % 2 == 0:
        nyq[n // 2] = True
    err = np.where(nyq, np.minimum(np.abs(k - ref), np.abs(k + ref)), np.abs(k - ref))
    if np.any(err > 1e-11 * sc) or np.any(np.isnan(k)):
        i = int(np.argmax(err))
        raise Violation("modified wavenumber %d of %d, order %d, d=%g: %r expected %r" % (i, n, o, d, complex(k[i]), float(ref[i])))
    ph = np.exp(1j * kk * d / 2) if stg else np.ones(n)
    # forward and backward operators carry the half-cell shift, in opposite directions
    for nm, a, p in (("forward", kf, np.conj(ph)), ("backward", kb, ph)):
        e = np.abs(a - k * p)
        e = np.where(nyq, np.minimum(e, np.abs(a + k * p)), e)
        if np.any(e > 1e-11 * sc):
            i = int(np.argmax(e))
            raise Violation("%s operator %d of %d: %r expected %r" % (nm, i, n, complex(a[i]), complex((k * p)[i])))
    return {"nontrivial": o != 2 and n > 2, "labels": ["spectral" if o == 0 else "order", "even" if n % 2 == 0 else "odd", "stag" if stg else "nodal"]}


fd = st.fixed_dictionaries({"order": st.integers(1, 16).map(lambda x: 2 * x), "nodal": st.booleans(), "seed": SEED})
kc = st.fixed_dictionaries({"order": st.integers(1, 16).map(lambda x: 2 * x), "nodal": st.booleans(), "spectral": st.sampled_from([False, False, True]),
                            "n": st.integers(2, 200), "d": st.sampled_from([1.0, 0.37, 1e-6, 8.5e-7, 12.0])})
PARTS = [Part("fornberg", fd, run_fd("fornberg"), quick=1500, thorough=20000), Part("factorial", fd, run_fd("factorial"), quick=1500, thorough=20000),
         Part("wavenumbers", kc, run_k, quick=6000, thorough=100000, shards=2)]
