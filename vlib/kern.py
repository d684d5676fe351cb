"""Reference shapes, padded arrays and particle sets for the kernel checks."""
import math
import numpy as np
from hypothesis import strategies as st
C = 299792458.0
EPS0 = 8.854187817620389e-12


def bspl(n, x):
    """Centred cardinal B-spline of degree n (truncated powers), independent of the formulas in the code."""
    x = np.asarray(x, float)
    if n == 0:
        return ((x >= -0.5) & (x < 0.5)).astype(float)
    # work on |x| (even function) with the shortest sum, to keep cancellation small
    a = np.abs(x)
    h = (n + 1) / 2.0
    s = np.zeros_like(a)
    for k in range(n + 2):
        t = h - k - a
        s = s + (-1) ** k * math.comb(n + 1, k) * np.where(t > 0, t, 0.0) ** n
    return s / math.factorial(n)


def weights(n, u, nodes):
    """W[p, i] = B_n(u_p - nodes_i)"""
    return bspl(n, np.asarray(u)[:, None] - np.asarray(nodes, float)[None, :])


class Arr:
    """Fortran-ordered array with index lower bounds, embedded in a larger buffer whose margins hold canaries."""
    PAD = 2048
    CAN = -7.25e77

    def __init__(self, lo, hi, init=None):
        self.lo, self.hi = tuple(lo), tuple(hi)
        self.shape = tuple(h - l + 1 for l, h in zip(lo, hi))
        n = int(np.prod(self.shape))
        self.buf = np.full(n + 2 * self.PAD, self.CAN)
        self.v = self.buf[self.PAD:self.PAD + n].reshape(self.shape, order="F")
        assert self.v.base is not None
        self.v[...] = 0.0 if init is None else init
        self.flat = self.buf[self.PAD:]

    def nodes(self, d):
        return np.arange(self.lo[d], self.hi[d] + 1)

    def canary(self):
        n = self.v.size
        return bool(np.all(self.buf[:self.PAD] == self.CAN) and np.all(self.buf[self.PAD + n:] == self.CAN))


def pad1(a):
    """1-D particle array, separately allocated with margin so that block reads past the end stay in memory."""
    b = np.zeros(len(a) + 512)
    b[:len(a)] = a
    return b[:len(a)]


NP = st.one_of(st.integers(1, 12), st.integers(1, 12), st.integers(13, 140), st.sampled_from([8, 16, 32, 64, 63, 65, 128, 129, 257]))
SEED = st.integers(0, 2 ** 31 - 1)
POSK = st.sampled_from(["uniform", "uniform", "mixed", "mixed", "nodes", "half", "edge", "onecell"])
LVECT = st.sampled_from([1, 2, 3, 4, 7, 8, 16, 32, 64])


def positions(rng, kind, n, ncell):
    """n positions in grid units in [0, ncell)"""
    u = rng.random(n) * ncell
    node = np.floor(rng.random(n) * ncell)
    if kind == "nodes":
        u = node
    elif kind == "half":
        u = node + 0.5
    elif kind == "edge":
        u = np.where(rng.random(n) < 0.5, 0.0, np.nextafter(float(ncell), 0))
    elif kind == "onecell":
        u = math.floor(rng.random() * ncell) + rng.random(n)
    elif kind == "mixed":
        s = rng.integers(0, 8, n)
        u = np.where(s == 0, node, u)
        u = np.where(s == 1, node + 0.5, u)
        u = np.where(s == 2, np.nextafter(node, ncell), u)
        u = np.where(s == 3, np.nextafter(node + 0.5, 0), u)
        u = np.where((s == 4), np.nextafter(node + 1, 0), u)
    return np.clip(u, 0.0, np.nextafter(float(ncell), 0))


def momenta(rng, kind, n):
    """u = gamma v in m/s (any size), and 1/gamma"""
    d = rng.normal(size=(3, n))
    d /= np.linalg.norm(d, axis=0)
    if kind == "cold":
        m = np.zeros(n)
    elif kind == "thermal":
        m = np.abs(rng.normal(size=n)) * 0.1
    elif kind == "rel":
        m = 10 ** rng.uniform(-1, 2, n)
    elif kind == "axis":
        ax = rng.integers(0, 3, n)
        s = np.where(rng.random(n) < 0.5, -1.0, 1.0)
        d = np.zeros((3, n))
        d[ax, np.arange(n)] = s
        m = 10 ** rng.uniform(-2, 3, n)
    else:
        m = 10 ** rng.uniform(-4, 3, n) * (rng.random(n) > 0.1)
    u = d * m * C
    g = np.sqrt(1.0 + np.sum(u * u, axis=0) / C ** 2)
    return u, 1.0 / g


MOMK = st.sampled_from(["wide", "wide", "rel", "thermal", "axis", "cold"])


def log10(lo, hi):
    return st.floats(lo, hi).map(lambda x: float(10.0 ** x))


SCALE = st.sampled_from([1.0, 1e-6, 3.7e-7, 1e3])
ASPECT = st.sampled_from([1.0, 1.0, 0.5, 1.7, 3.3, 0.21])


def nz(x):
    return float(x) if abs(x) > 1e-300 else 0.0


def ints(t):
    return np.array(list(t), dtype=np.int64)


def rel_err(arr, prior, ref, scale, what, tol=2e-11):
    """arr (Arr or ndarray) must equal prior + ref to tol*scale everywhere."""
    from vlib.harness import Violation
    v = arr.v if isinstance(arr, Arr) else arr
    if isinstance(arr, Arr) and not arr.canary():
        raise Violation(what + ": memory outside the array was written")
    err = np.abs(v - prior - ref)
    lim = tol * scale + 4e-15 * np.abs(prior)
    if not np.all(err <= lim):
        i = np.unravel_index(np.argmax(np.where(np.isnan(err), np.inf, err / (lim + 1e-300))), err.shape)
        lo = arr.lo if isinstance(arr, Arr) else (0,) * v.ndim
        raise Violation("%s: at %s got %r expected %r (prior %r)" % (
            what, [int(a + l) for a, l in zip(i, lo)], float(v[i]), float(np.broadcast_to(prior + ref, v.shape)[i]),
            float(np.broadcast_to(prior, v.shape)[i])))


PART_CASE = {
    "np": NP, "seed": SEED, "pos": POSK, "mom": MOMK, "lvect": LVECT, "h": SCALE, "asp": st.tuples(ASPECT, ASPECT, ASPECT),
    "org": st.tuples(*[st.sampled_from([0.0, -3.0, 17.0, -100.5])] * 3), "prior": st.booleans(),
    "n": st.tuples(st.integers(1, 9), st.integers(1, 9), st.integers(1, 9)), "g": st.tuples(*[st.integers(3, 5)] * 3),
    "q": st.sampled_from([-1.602e-19, 1.602e-19, 3.1]), "wk": st.sampled_from(["one", "wide", "zero"]),
    "cdt": st.floats(0.02, 0.999), "ncalls": st.integers(1, 2)}


class Parts:
    """Particle set described by a PART_CASE case. Positions x are at n+1, inside the tile; time step below the
    crossing time of the smallest cell."""

    def __init__(self, case, dims=3, gate=None):
        self.rng = rng = np.random.default_rng(case["seed"])
        self.dims = dims
        self.d = np.array(case["asp"][:dims]) * case["h"]
        self.org = np.array(case["org"][:dims]) * self.d
        self.n = list(case["n"][:dims])
        self.g = list(case["g"][:dims])
        self.np = n = case["np"]
        self.u = [positions(rng, case["pos"], n, self.n[k]) for k in range(dims)]
        if case.get("inner"):  # a tile inside the domain owns half a cell below its first node
            self.u = [u - 0.5 for u in self.u]
        self.x = [pad1(self.org[k] + self.u[k] * self.d[k]) for k in range(dims)]
        self.y = pad1(rng.normal(size=n))
        u, gi = momenta(rng, case["mom"], n)
        self.p = [pad1(c) for c in u]
        self.gi = pad1(gi)
        self.vel = [c * gi for c in u]
        self.w = pad1({"one": np.ones(n), "wide": 10 ** rng.uniform(-3, 6, n), "zero": rng.integers(0, 2, n).astype(float)}[case["wk"]])
        self.q = case["q"]
        self.dt = case["cdt"] * float(min(self.d)) / C
        self.iv = 1.0 / float(np.prod(self.d))
        self.qw = self.q * np.array(self.w)

    def shape(self, k, order, arr, off=0.0, t=0.0, arr_dim=None):
        """weights[p, i] along axis k at position x - t*v*dt on the grid shifted by off"""
        v = self.vel[k if self.dims == 3 else (0, 2)[k]]
        u = (np.array(self.x[k]) - t * v * self.dt - self.org[k]) / self.d[k] - off
        return weights(order, u, arr.nodes(k if arr_dim is None else arr_dim))

    def arr(self, scale, prior):
        a = Arr([-g for g in self.g], [n + g for n, g in zip(self.n, self.g)])
        a.prior = self.rng.normal(size=a.v.shape) * scale if prior else np.zeros(a.v.shape)
        a.v[...] = a.prior
        return a

    def unchanged(self, name):
        from vlib.harness import Violation
        if not hasattr(self, "_snap"):
            self._snap = [np.array(a) for a in (*self.x, self.y, *self.p, self.gi, self.w)]
            return
        for s, a in zip(self._snap, (*self.x, self.y, *self.p, self.gi, self.w)):
            if not np.array_equal(s, a):
                raise Violation(name + ": changed its particle arguments")
