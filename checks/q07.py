from checks.qed import *
PID = "Q07"
RULE = ("A case is one table (one- or two-dimensional, owning or viewing its storage) with several look-ups of every kind: non-trivial "
        "when a look-up falls strictly between nodes. Distinct = distinct case parameters.")
ASSUMPTIONS = ["finite data, except null probabilities (logarithm minus infinity) in two-dimensional tables, looked up along the first coordinate",
               "coordinates inside the table, increasing; the equally-spaced look-ups get equally spaced coordinates (to rounding)"]
VR = [VAR["nmd"], VAR["nmf"]]


def prepare():
    for k, p in zip(("nmd", "nmf"), build.parallel(*[lambda r=r: build.cxx("qb" + r, "qed_base.cpp", VAR[r].flags) for r in ("nmd", "nmf")])):
        VAR[k].B = Lib(p)


def coords(v, rng, n, kind, lo, span):
    if kind == "equi":
        x = v.r(np.linspace(lo, lo + span, n))
    elif kind == "log":
        x = v.r(np.log(np.geomspace(10.0 ** min(lo / 100, 3), 10.0 ** (min(lo / 100, 3) + 1 + abs(span) % 3), n)))
    else:
        x = v.r(np.sort(lo + span * rng.uniform(0, 1, n)))
    # coordinates resolved well by the precision
    if np.any(np.diff(x) <= 64 * v.u * np.max(np.abs(x)) * (1 if kind == "any" else n)):
        raise Discard()
    return x


def query(v, rng, x, q):
    """a coordinate inside the table: node, neighbour of a node by one ulp, or inside"""
    i = int(q[1] * (len(x) - 1) + 0.5)
    if q[0] == "node":
        r = x[i]
    elif q[0] in ("up", "down"):
        t = np.array(x[i], dtype=v.dt)
        r = float(np.nextafter(t, v.dt(np.inf if q[0] == "up" else -np.inf)))
    elif q[0] == "last":
        r = x[-1]
    elif q[0] == "prelast":
        r = float(np.nextafter(np.array(x[-1], dtype=v.dt), v.dt(-np.inf)))
    else:
        r = x[0] + q[1] * (x[-1] - x[0])
    r = float(v.r(r))
    return min(max(r, x[0]), x[-1])


def bracket(x, r):
    i = min(max(int(np.searchsorted(x, r, side="right")) - 1, 0), len(x) - 2)
    return i, (r - x[i]) / (x[i + 1] - x[i])


def run1(c):
    v = VAR[c["v"]]
    rng = np.random.default_rng(c["seed"])
    L, n = v.B, c["n"]
    x = coords(v, rng, n, c["kind"], c["lo"], c["span"])
    y = v.r(rng.normal(size=n) * 10.0 ** c["e"] + c["off"])
    h = L.t1_new(int(c["raw"]), n, x, y)
    if not L.t1_init(h):
        raise Violation("a constructed table says it is not initialised")
    inside = False
    for q in c["q"]:
        r = query(v, rng, x, q)
        i, w = bracket(x, r)
        want = (1 - w) * y[i] + w * y[i + 1]
        tol = 12 * v.u * (abs(y[i]) + abs(y[i + 1]))
        inside |= 0 < w < 1
        # only the bracketing data may matter
        for poison in (False, True):
            if poison:
                m = [k for k in range(n) if k not in (i, i + 1)]
                for k in m:
                    L.t1_poke(h, 1, k, float("nan"))
            for eq in ((0, 1) if c["kind"] != "any" else (0,)):
                g = L.t1_interp(h, eq, r)
                if not abs(g - want) <= tol:
                    raise Violation("1D %s look-up at %r (node %d + %r): %r, linear interpolant %r (%s)" % ("equispaced" if eq else "general", r, i, w, g, want, v.nm))
                if w == 0 and g != y[i]:
                    raise Violation("1D %s look-up at node %d returns %r, datum %r (%s)" % ("equispaced" if eq else "general", i, g, y[i], v.nm))
            if poison:
                for k in m:
                    L.t1_poke(h, 1, k, float(y[k]))
    L.t1_del(h)
    return {"nontrivial": inside, "labels": [c["kind"], "view" if c["raw"] else "owner", c["v"]]}


def run2(c):
    v = VAR[c["v"]]
    rng = np.random.default_rng(c["seed"])
    L, n, m = v.B, c["n"], c["m"]
    x = coords(v, rng, n, c["kind"], c["lo"], c["span"])
    z = coords(v, rng, m, c["kind"], c["span"], c["lo"] if c["lo"] > 0 else 3.0)
    y = v.r(rng.normal(size=(n, m)) * 10.0 ** c["e"] + c["off"])
    if c["inf"]:
        y[rng.uniform(size=(n, m)) < 0.3] = -np.inf
    h = L.t2_new(int(c["raw"]), n, x, m, z, np.ascontiguousarray(y).ravel())
    if not L.t2_init(h):
        raise Violation("a constructed table says it is not initialised")
    if (L.t2_size(h, 0), L.t2_size(h, 1), L.t2_size(h, 2)) != (n, m, n * m):
        raise Violation("table sizes %r" % ((L.t2_size(h, 0), L.t2_size(h, 1), L.t2_size(h, 2)),))
    inside = False
    eqs = c["kind"] != "any"
    for q, p in zip(c["q"], c["p"]):
        r, s = query(v, rng, x, q), query(v, rng, z, p)
        i, w = bracket(x, r)
        j, t = bracket(z, s)
        inside |= 0 < w < 1 and 0 < t < 1
        jj = int(p[1] * (m - 1) + 0.5)
        if L.t2_interp(h, 4, float(i), float(jj), 0) != y[i, jj]:
            raise Violation("datum (%d, %d) is %r, stored %r" % (i, jj, L.t2_interp(h, 4, float(i), float(jj), 0), y[i, jj]))
        for poison in (False, True):
            if poison:
                pk = [(a, b) for a in range(n) for b in range(m) if not (a in (i, i + 1) and (b in (j, j + 1, jj)))]
                for a, b in pk:
                    L.t2_poke(h, 2, a * m + b, float("nan"))
            if not c["inf"]:
                cs = y[i:i + 2, j:j + 2]
                want = (1 - w) * ((1 - t) * cs[0, 0] + t * cs[0, 1]) + w * ((1 - t) * cs[1, 0] + t * cs[1, 1])
                for k in ((0, 1) if eqs else (0,)):
                    g = L.t2_interp(h, k, r, s, 0)
                    if not abs(g - want) <= 24 * v.u * np.abs(cs).sum():
                        raise Violation("2D %s look-up at %r, %r: %r, bilinear interpolant %r (%s)" % ("equispaced" if k else "general", r, s, g, want, v.nm))
            col = y[i:i + 2, jj]
            for k in ((2, 3) if eqs else (2,)):
                g = L.t2_interp(h, k, r, 0.0, jj)
                nm = "2D first-coordinate %s look-up" % ("equispaced" if k == 3 else "general")
                if c["inf"]:
                    at0, at1 = r == x[i], r == x[i + 1]
                    if k == 2 and (at0 or at1):
                        continue  # 0 x infinity: only the equispaced search is used with null probabilities
                    # any weight but exactly zero of minus infinity counts
                    want = col[0] if at0 else col[1] if at1 else -np.inf if not np.all(np.isfinite(col)) else (1 - w) * col[0] + w * col[1]
                    if not (g == want or np.all(np.isfinite(col)) and abs(g - want) <= 24 * v.u * np.abs(col).sum()):
                        raise Violation("%s with null probabilities: %r, expected %r (%s)" % (nm, g, want, v.nm))
                    continue
                want = (1 - w) * col[0] + w * col[1]
                if not abs(g - want) <= 24 * v.u * np.abs(col).sum():
                    raise Violation("%s at %r, column %d: %r, linear interpolant %r (%s)" % (nm, r, jj, g, want, v.nm))
            if poison:
                for a, b in pk:
                    L.t2_poke(h, 2, a * m + b, float(y[a, b]))
    # outside the first coordinate: the equispaced first-coordinate look-up keeps the end value
    if eqs:
        for r, i in ((x[0] - abs(x[-1] - x[0]) * 0.3, 0), (x[-1] + abs(x[-1] - x[0]) * 0.3, n - 1)):
            g = L.t2_interp(h, 3, float(v.r(r)), 0.0, m - 1)
            if g != y[i, m - 1]:
                raise Violation("look-up beyond the first coordinate gives %r, end value %r (%s)" % (g, y[i, m - 1], v.nm))
    L.t2_del(h)
    return {"nontrivial": inside or c["inf"], "labels": [c["kind"], "view" if c["raw"] else "owner", c["v"]]}


Q = st.tuples(st.sampled_from(["node", "up", "down", "in", "in", "in", "last", "prelast"]), st.floats(0, 1))
base = {"v": st.sampled_from(["nmd", "nmf"]), "seed": SEED, "kind": st.sampled_from(["equi", "equi", "log", "any"]), "lo": st.one_of(st.floats(-100, 100), st.just(0.0)),
        "span": LOG(-2, 3), "e": st.integers(-6, 6), "off": st.sampled_from([0.0, 0.0, 1.0, -300.0]), "raw": st.booleans()}
c1 = st.fixed_dictionaries(dict(base, n=st.one_of(st.integers(2, 12), st.integers(2, 300)), q=st.lists(Q, min_size=1, max_size=10)))
c2 = st.fixed_dictionaries(dict(base, n=st.integers(2, 12), m=st.integers(2, 12), q=st.lists(Q, min_size=6, max_size=6), p=st.lists(Q, min_size=6, max_size=6),
                                inf=st.sampled_from([False, False, False, True])))
PARTS = [Part("table1", c1, run1, quick=4000, thorough=150000, shards=3), Part("table2", c2, run2, quick=3000, thorough=100000, shards=4)]
