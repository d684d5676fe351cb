from checks.simc import *
PID = "F16"
JOBS = 4
RULE = ("A case is a load profile cut into a decomposition, a rank table, an interval table, a pair of boxes, a field moved from one "
        "decomposition to another, or a set of particles whose load is projected: non-trivial when there are at least two processes "
        "(boxes: when they meet; projection: when the load is uneven). Distinct = distinct case parameters.")
ASSUMPTIONS = ["at least one cell per process along every axis, loads not negative",
               "the values of a field on nodes shared by neighbouring processes agree before it is moved, as they do after a "
               "guard exchange",
               "moving particles to the new decomposition (remap_particles, create_new_tile_split) is driven from outside the "
               "repository and not covered"]
CTX = {}
M = "__load_balance_MOD_"


def prepare():
    CTX["F"] = F(build.fortran_lib())
    sim.prepare()


# ------------------------------------------------------------------ cutting a load profile
@st.composite
def bal_case(draw):
    p = draw(st.integers(1, 9))
    n = draw(st.one_of(st.integers(p, p + 4), st.integers(p, 60), st.integers(p, 400)))
    kind = draw(st.sampled_from(["flat", "ramp", "peak", "front", "back", "sparse", "random", "zero", "steps"]))
    return dict(p=p, n=n, kind=kind, seed=draw(SEED), scale=draw(st.sampled_from([1.0, 1e-6, 1e-30, 3e8, 1.0 / 3])))


def profile(c):
    r = np.random.default_rng(c["seed"])
    n = c["n"]
    x = np.arange(n)
    if c["kind"] == "flat":
        v = np.ones(n)
    elif c["kind"] == "ramp":
        v = 1.0 + x if r.integers(2) else n - x.astype(float)
    elif c["kind"] == "peak":
        v = np.full(n, float(r.integers(2)))
        v[r.integers(n)] += 10 * n
    elif c["kind"] == "front":
        v = (x < r.integers(1, n + 1)) * 1.0
    elif c["kind"] == "back":
        v = (x >= r.integers(0, n)) * 1.0
    elif c["kind"] == "sparse":
        v = (r.random(n) < 0.15) * r.integers(1, 9, n)
    elif c["kind"] == "random":
        v = r.random(n)
    elif c["kind"] == "zero":
        v = np.zeros(n)
    else:
        v = np.repeat(r.integers(0, 5, n // 3 + 1), 3)[:n]
    return np.ascontiguousarray(np.asarray(v, float) * c["scale"])


def partition(a, b, n, p, what):
    """The intervals [a, b] must be p consecutive, not empty intervals from 0 to n-1."""
    a, b = [int(v) for v in a], [int(v) for v in b]
    if a[0] != 0 or b[-1] != n - 1:
        raise Violation("%s: the processes hold the cells %s, not 0 to %d" % (what, list(zip(a, b)), n - 1))
    for k in range(p):
        if b[k] < a[k] or (k and a[k] != b[k - 1] + 1):
            raise Violation("%s: the processes hold the cells %s: empty, overlapping or not adjacent at process %d of %d" %
                            (what, list(zip(a, b)), k, p))
    return a, b


def balanced(v, a, b, p, what):
    tot, top = float(v.sum()), float(v.max())
    for k in range(p):
        s = float(v[a[k]:b[k] + 1].sum())
        if s > (tot / p + top) * (1 + 1e-9):
            raise Violation("%s: process %d of %d holds cells %d to %d with load %g; the mean is %g and the heaviest cell %g" %
                            (what, k, p, a[k], b[k], s, tot / p, top))


def run_bal(c):
    v = profile(c)
    n, p = c["n"], c["p"]
    keep = v.copy()
    a, b = np.full(p + 2, -77, np.int64), np.full(p + 2, -77, np.int64)
    CTX["F"](M + "balance_in_dir", v, n, p, a, b)
    if not np.array_equal(v, keep):
        raise Violation("balance_in_dir changed the load it was given")
    if a[p:].tolist() != [-77] * 2 or b[p:].tolist() != [-77] * 2:
        raise Violation("balance_in_dir wrote behind its result")
    a, b = partition(a[:p], b[:p], n, p, "balance_in_dir of %d cells (%s)" % (n, c["kind"]))
    balanced(v, a, b, p, "balance_in_dir of %d cells (%s)" % (n, c["kind"]))
    # every process gets its number of cells, and every cell is found in the process that holds it
    lo, hi = np.array(a, np.int64), np.array(b, np.int64)
    for k in range(p):
        nn = np.zeros(1, np.int64)
        CTX["F"](M + "compute_currproc_array_dimensions", nn, lo, hi, p, k)
        if nn[0] != b[k] - a[k] + 1:
            raise Violation("process %d holds cells %d to %d, computed size %d" % (k, a[k], b[k], nn[0]))
    for cell in {0, n - 1, -1, n} | {q for k in range(p) for q in (a[k], b[k], (a[k] + b[k]) // 2)}:
        r = np.full(1, -9, np.int64)
        CTX["F"](M + "get_proc_interval", r, cell, lo, hi, p)
        want = next((k for k in range(p) if a[k] <= cell <= b[k]), -1)
        if r[0] != want:
            raise Violation("cell %d is held by process %d, get_proc_interval found %d" % (cell, want, r[0]))
    return {"nontrivial": p > 1, "labels": [c["kind"], "p=%d" % p]}


# ------------------------------------------------------------------ ranks
@st.composite
def rank_case(draw):
    return dict(np=[draw(st.integers(1, 7)) for _ in range(3)], seed=draw(SEED))


def run_rank(c):
    px, py, pz = c["np"]
    seen = set()
    for z in range(-1, pz + 1):
        for y in range(-1, py + 1):
            for x in range(-1, px + 1):
                r = np.full(1, -9, np.int64)
                CTX["F"](M + "pxr_convertindtoproc", np.zeros(1, np.int32), x, y, z, px, py, pz, r, False)
                want = x % px + (y % py) * px + (z % pz) * px * py
                if r[0] != want:
                    raise Violation("process (%d, %d, %d) of %d x %d x %d has rank %d, not %d" % (x, y, z, px, py, pz, want, r[0]))
                seen.add(int(r[0]))
    # limits of every rank
    r = np.random.default_rng(c["seed"])
    lim = []
    for p in c["np"]:
        e = np.concatenate([[0], np.cumsum(r.integers(1, 9, p))])
        lim.append((e[:-1].astype(np.int64), (e[1:] - 1).astype(np.int64)))
    n = px * py * pz
    o = [np.full(n, -9, np.int64) for _ in range(6)]
    (xa, xb), (ya, yb), (za, zb) = lim
    CTX["F"](M + "get_1darray_proclimits", *o, xa, ya, za, xb, yb, zb, px, py, pz, n, False)
    for k in range(n):
        x, y, z = k % px, k // px % py, k // (px * py)
        w = [xa[x], xb[x] + 1, ya[y], yb[y] + 1, za[z], zb[z] + 1]
        g = [int(q[k]) for q in o]
        if g != [int(q) for q in w]:
            raise Violation("limits of rank %d (%d, %d, %d): %s instead of %s" % (k, x, y, z, g, [int(q) for q in w]))
    # a sorted list of ranks, as in the list of partners
    arr = np.unique(r.integers(0, 50, r.integers(1, 12))).astype(np.int32)
    for q in range(-1, 52):
        i = np.full(1, -9, np.int64)
        CTX["F"](M + "binary_search", i, np.array([q], np.int32), arr, len(arr))
        want = (arr.tolist().index(q) + 1) if q in arr else -1
        if i[0] != want:
            raise Violation("binary_search of %d in %s gave %d, not %d" % (q, arr.tolist(), i[0], want))
    return {"nontrivial": n > 1, "labels": ["n=%d" % min(n, 20)]}


# ------------------------------------------------------------------ boxes
@st.composite
def box_case(draw):
    dim = draw(st.sampled_from([2, 3]))
    b = st.tuples(st.integers(-12, 12), st.integers(0, 10))
    return dict(dim=dim, a=[list(draw(b)) for _ in range(dim)], b=[list(draw(b)) for _ in range(dim)])


def run_box(c):
    a = [(q, q + n) for q, n in c["a"]]
    b = [(q, q + n) for q, n in c["b"]]
    d = c["dim"]
    o = [np.full(1, -99, np.int64) for _ in range(2 * d)]
    f = np.zeros(1, np.int64)
    CTX["F"](M + "get_%ddintersection" % d, *[int(v) for q in a for v in q], *[int(v) for q in b for v in q], *o, f)
    w = [(max(p[0], q[0]), min(p[1], q[1])) for p, q in zip(a, b)]
    meet = all(x <= y for x, y in w)
    if bool(f[0]) != meet:
        raise Violation("boxes %s and %s: %s" % (a, b, "they meet, not found" if meet else "they do not meet, found to meet"))
    if meet and [int(v[0]) for v in o] != [v for q in w for v in q]:
        raise Violation("boxes %s and %s meet in %s, not in %s" % (a, b, w, [int(v[0]) for v in o]))
    return {"nontrivial": meet, "labels": ["%dd" % d]}


# ------------------------------------------------------------------ moving a field
@st.composite
def remap_case(draw, dim):
    sp = draw(splits(dim, True).filter(lambda s: s != [1, 1, 1]))
    g = draw(st.integers(2, 4))
    n = [draw(st.integers(max(6, (g + 1) * p), max(6, (g + 1) * p) + 8)) for p in sp]
    if dim == 2:
        n[1] = 1
    cuts = []
    for k in range(3):
        p = sp[k]
        if dim == 2 and k == 1:
            cuts.append([])
            continue
        e = draw(st.lists(st.integers(1, n[k] - 1), min_size=p - 1, max_size=p - 1, unique=True))
        cuts.append(sorted(e))
    return dict(dim=dim, n=n, split=sp, g=g, cuts=cuts, topology=draw(st.sampled_from([0, 0, 1])), seed=draw(SEED),
                names=draw(st.lists(st.sampled_from(["ex", "ey", "ez", "bx", "by", "bz"]), min_size=1, max_size=2, unique=True)))


def run_remap(c):
    dim, n = c["dim"], c["n"]
    g = (c["g"], c["g"] if dim == 3 else 0, c["g"])
    text = mkdeck(dim, n if dim == 3 else [n[0], 0, n[2]], c["split"], guards=g, cpu=dict(topology=c["topology"]))
    r = np.random.default_rng(c["seed"])
    lim = []
    for k in range(3):
        e = [0] + c["cuts"][k] + [n[k] if (dim == 3 or k != 1) else 1]
        lim += [[str(v) for v in e[:-1]], [str(v - 1) for v in e[1:]]]
    files = {"new.txt": "\n".join(" ".join(v) for v in lim) + "\n"}
    ops, glob = [], {}
    cart = c["topology"] == 0
    for f in c["names"]:
        # one value per node of the whole grid, upper end included
        glob[f] = r.standard_normal((n[0] + 1, n[1] + 1 if dim == 3 else 1, n[2] + 1))
        files["f_" + f] = ("f", glob[f])
        ops += ["loadf %s f_%s" % (f, f)]
    for f in c["names"]:
        ops.append("remap %s new.txt %d" % (f, 1 if cart else 0))
    np_ = int(np.prod(c["split"]))
    with sim.run(text, ops, np_, files=files) as R:
        for f in c["names"]:
            D = R.dumps("remap_" + f)
            for k, d in enumerate(D):
                i = [int(d[q]) for q in ("xc", "yc", "zc")]
                lo = [int(lim[2 * a][i[a]]) for a in range(3)]
                hi = [int(lim[2 * a + 1][i[a]]) for a in range(3)]
                size = [int(d[q]) for q in ("nx", "ny", "nz")]
                if any(size[a] != hi[a] - lo[a] + 1 for a in range(3)):
                    raise Violation("process %s is to hold cells %s to %s, sizes %s" % (i, lo, hi, size))
                a = d.a["f"]
                lb = d.lb["f"]
                s = tuple(slice(-lb[q], -lb[q] + (size[q] + 1 if (dim == 3 or q != 1) else 1)) for q in range(3))
                w = glob[f][lo[0]:hi[0] + 2, lo[1]:hi[1] + 2 if dim == 3 else 1, lo[2]:hi[2] + 2]
                if not np.array_equal(a[s], w):
                    bad = np.argwhere(a[s] != w)[0].tolist()
                    raise Violation("%s moved to process %s (cells %s to %s): node %s has %.17g, not %.17g" %
                                    (f, i, lo, hi, bad, a[s][tuple(bad)], w[tuple(bad)]))
                m = np.ones(a.shape, bool)
                m[s] = False
                if not np.all(a[m] == -7.25e77):
                    raise Violation("%s moved to process %s: guards written" % (f, i))
    return {"nontrivial": True, "labels": ["%dd" % dim, "%d processes" % np_, "topology %d" % c["topology"]]}


# ------------------------------------------------------------------ load of the particles
@st.composite
def load_case(draw, dim):
    sp = draw(splits(dim))
    g = 2
    n = [draw(st.integers(max(6, 3 * p), max(6, 3 * p) + 8)) for p in sp]
    return dict(dim=dim, n=n, split=sp, npart=draw(st.integers(0, 300)), nsp=draw(st.integers(1, 2)), seed=draw(SEED),
                shape=draw(st.sampled_from(["even", "slab", "corner"])), tiles=[draw(st.integers(1, 2)) for _ in range(3)],
                tp=draw(st.sampled_from([1.0, 3e-7, 0.0, 12.5])), tc=draw(st.sampled_from([1.0, 1e-8, 0.0, 4.0])))


def run_load(c):
    dim, n = c["dim"], list(c["n"])
    d = (1e-6, 1.5e-6, 0.75e-6)
    org = (-2e-6, 1e-6, 0.)
    g = (2, 2 if dim == 3 else 0, 2)
    text = mkdeck(dim, n if dim == 3 else [n[0], 0, n[2]], c["split"], d=d, org=org, guards=g, tiles=c["tiles"],
                  species=[dict(name="s%d" % k) for k in range(c["nsp"])])
    r = np.random.default_rng(c["seed"])
    rows, cnt = [], [np.zeros(m, np.int64) for m in n]
    for k in range(c["npart"]):
        t = r.random(3)
        if c["shape"] == "slab":
            t[r.integers(3)] *= 0.3
        if c["shape"] == "corner":
            t = t ** 3
        cell = [min(int(t[q] * n[q]), n[q] - 1) for q in range(3)]
        x = [org[q] + d[q] * (cell[q] + 0.05 + 0.9 * r.random()) for q in range(3)]
        if dim == 2:
            x[1] = 0.
        for q in range(3):
            cnt[q][cell[q]] += 1
        rows.append([1 + r.integers(c["nsp"])] + x + [0., 0., 0.] + [1.0, float(k), 0.])
    files = {"p.bin": ("p", np.array(rows).reshape(-1, 10))}
    np_ = int(np.prod(c["split"]))
    with sim.run(text, ["loadp p.bin", "newsplit %.17g %.17g" % (c["tp"], c["tc"])], np_, files=files) as R:
        D = R.dumps("newsplit")
        for k, dd in enumerate(D):
            for q, ax in enumerate("xyz"):
                if dim == 2 and q == 1:
                    continue
                others = [n[m] for m in range(3) if m != q and not (dim == 2 and m == 1)]
                w = cnt[q] * c["tp"] + float(np.prod(others)) * c["tc"]
                v = dd.a["l" + ax]
                close(v, w, 1e-12 * (np.abs(w).max() + 1e-300), "process %d: load along %s" % (k, ax))
                a, b = partition(dd.a[ax + "a"], dd.a[ax + "b"], n[q], c["split"][q], "new split along " + ax)
                balanced(w, a, b, c["split"][q], "new split along " + ax)
    return {"nontrivial": c["npart"] > 0 and c["tp"] > 0, "labels": ["%dd" % dim, c["shape"], "%d processes" % np_]}


PARTS = [Part("balance", bal_case(), run_bal, quick=4000, thorough=60000, shards=1, thorough_shards=4),
         Part("ranks", rank_case(), run_rank, quick=120, thorough=1200, shards=1),
         Part("boxes", box_case(), run_box, quick=4000, thorough=40000, shards=1),
         Part("remap3d", remap_case(3), run_remap, quick=40, thorough=300, shards=2),
         Part("remap2d", remap_case(2), run_remap, quick=40, thorough=300, shards=2),
         Part("load3d", load_case(3), run_load, quick=40, thorough=250, shards=2),
         Part("load2d", load_case(2), run_load, quick=40, thorough=250, shards=2)]
