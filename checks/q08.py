from checks.qed import *
PID = "Q08"
RULE = ("A case is one table or engine taken through files (complete, cut at every byte or at drawn bytes, missing), copies and exports: non-trivial when "
        "the data have at least two different values. Distinct = distinct case parameters.")
ASSUMPTIONS = ["tables have at least two coordinates; files are written and read by the same build",
               "files are cut at arbitrary byte offsets, not corrupted inside",
               "a table that views foreign storage is not read into"]
T = VARS


def prepare():
    prepare_qed(True, True)


VAL = st.one_of(st.floats(-1e3, 1e3), st.sampled_from([0.0, -0.0, float("inf"), float("-inf"), float("nan"), 1e-45, 5e-324, 1e-40, 3e38, -1e300, 1 / 3]))


def eqb(a, b):
    a, b = np.asarray(a, float), np.asarray(b, float)
    return a.shape == b.shape and bool(np.all((a == b) & (np.signbit(a) == np.signbit(b)) | np.isnan(a) & np.isnan(b)))


def data(v, rng, n, special):
    y = rng.normal(size=n) * 10.0 ** rng.integers(-30, 30, size=n)
    for k, s in enumerate(special):
        if n:
            y[(k * 7 + 3) % n] = s
    return v.r(y)


class Tab:
    """a table through the interface, one- or two-dimensional"""
    def __init__(self, L, d, h):
        self.L, self.d, self.h = L, d, h

    def f(self, nm, *a):
        return getattr(self.L, ("t1_" if self.d == 1 else "t2_") + nm)(*a)

    @staticmethod
    def make(L, d, raw, x, z, y):
        return Tab(L, d, L.t1_new(int(raw), len(x), x, y) if d == 1 else L.t2_new(int(raw), len(x), x, len(z), z, y))

    @staticmethod
    def empty(L, d):
        e = A(0)
        return Tab(L, d, L.t1_new(0, 0, e, e) if d == 1 else L.t2_new(0, 0, e, 0, e, e))

    def dup(self, how):
        return Tab(self.L, self.d, self.f("dup", self.h, how))

    def arrays(self):
        o = []
        for w in ((0, 1) if self.d == 1 else (0, 1, 2)):
            a = np.full(self.f("size", self.h, w), 7.0)
            if len(a):
                self.f("get", self.h, w, a)
            o.append(a)
        # the copy-returning accessors
        for w in ((2,) if self.d == 1 else (3, 4, 5, 6)):
            a = np.full(self.f("size", self.h, 0 if self.d == 1 else (w - 3) % 2), 7.0)
            if len(a):
                self.f("get", self.h, w, a)
            o.append(a)
        return o

    def init(self):
        return bool(self.f("init", self.h))

    def kill(self):
        self.f("del", self.h)


def same(t, want, what, v):
    got = t.arrays()
    ref = want + ([want[0]] if t.d == 1 else [want[0], want[1], want[0], want[1]])
    for k, (a, b) in enumerate(zip(got, ref)):
        if not eqb(a, b):
            raise Violation("%s: array %d of the %dD table differs: %r, original %r (%s)" % (what, k, t.d, a[:8], b[:8], v.nm))
    if not t.init():
        raise Violation("%s is not an initialised table (%s)" % (what, v.nm))


def run_tab(c):
    v = VAR[c["v"]]
    L = v.B
    rng = np.random.default_rng(c["seed"])
    n, m, d = c["n"], c["m"], c["d"]
    x = v.r(np.sort(rng.normal(size=n)) * 10.0 ** c["e"])
    z = v.r(np.sort(rng.normal(size=m)))
    y = data(v, rng, n if d == 1 else n * m, c["sp"])
    want = [x, y] if d == 1 else [x, z, y]
    t = Tab.make(L, d, c["raw"], x, z, y)
    same(t, want, "a constructed table", v)
    E = Tab.empty(L, d)
    if E.init():
        raise Violation("an empty table says it is initialised")
    with tempfile.TemporaryDirectory(prefix="q08") as tmp:
        fn = tmp + "/a table.bin"
        t.f("write", t.h, fn)
        E.f("read", E.h, fn)
        same(E, want, "a saved and loaded table", v)
        # loading into a table of another size
        o = Tab.make(L, d, False, v.r(np.arange(n + c["dn"]) * 1.0), v.r(np.arange(m + 1) * 1.0), v.r(np.arange((n + c["dn"]) * (1 if d == 1 else m + 1)) * 1.0))
        o.f("read", o.h, fn)
        same(o, want, "a table loaded over another one", v)
        # and saving that again
        o.f("write", o.h, tmp + "/b")
        B = open(fn, "rb").read()
        if open(tmp + "/b", "rb").read() != B:
            raise Violation("a loaded table is saved as a different file (%s)" % v.nm)
        # incomplete files
        cuts = range(len(B)) if len(B) <= 160 else sorted({int(q * len(B)) for q in c["cut"]} | {0, 7, 8, len(B) - 1, len(B) - v.dt(0).nbytes})
        for k in cuts:
            open(tmp + "/c", "wb").write(B[:k])
            for q in (Tab.empty(L, d), t.dup(0)):
                q.f("read", q.h, tmp + "/c")
                if q.init():
                    raise Violation("a table read from the first %d of %d bytes says it is initialised (%dD, %s)" % (k, len(B), d, v.nm))
                q.kill()
        for q in (Tab.empty(L, d), t.dup(0)):
            q.f("read", q.h, tmp + "/missing")
            if q.init():
                raise Violation("a table read from a missing file says it is initialised (%dD, %s)" % (d, v.nm))
            # it recovers
            q.f("read", q.h, fn)
            same(q, want, "a table loaded after a failed attempt", v)
            q.kill()
        o.kill()
    cs = [t.dup(0), t.dup(1), t.dup(3), E.dup(2)]
    # copies are independent of the original and of each other
    for k, w in enumerate(cs):
        same(w, want, "copy %d" % k, v)
    for k, w in enumerate(cs):
        for a in range(len(want)):
            w.f("poke", w.h, a, 0, 100.0 + k)
    same(t, want, "the original after writing to its copies", v)
    for k, w in enumerate(cs):
        for a, g in enumerate(w.arrays()[:len(want)]):
            if not (g[0] == 100.0 + k and eqb(g[1:], want[a][1:])):
                raise Violation("copies of a table share storage (%s)" % v.nm)
    t.kill()
    for k, w in enumerate(cs):
        if w.arrays()[0][0] != 100.0 + k:
            raise Violation("a copy changed when the original was deleted")
        w.kill()
    E.kill()
    return {"nontrivial": len(set(map(float, y))) > 1, "labels": ["%dD" % d, v.nm, "view" if c["raw"] else "owner"]}


def results(v, pre, h, c, lam, us):
    """what an engine computes for the drawn particles (exact values)"""
    f = lambda nm, *a: getattr(v.E, pre + "_" + nm)(*a)
    out = []
    for s in c["parts"]:
        p = v.mom(s["p"])
        g = v.fld(mkfield(s["f"], s["p"]), lam)
        o = A(s["o"], 9, 9)
        f("evolve", h, p, g, float(v.r(s["dt"])), o)
        out += list(o)
    return out


def gens(v, pre, h, c, lam):
    out = []
    for s in c["parts"]:
        p = v.mom([x * 1e3 for x in s["p"]])
        g = v.fld(mkfield(dict(s["f"], kind="perp"), s["p"]), lam)
        n = 2
        o = np.zeros(8 * n + 2)
        v.E.__getattr__(pre + "_gen")(h, 0, p, g, 1.0, n, A(0, 0), o)
        out += list(o) + list(p)
    return out


def run_eng(c):
    v = VAR[c["v"]]
    pre = c["pre"]
    f = lambda nm, *a: getattr(v.E, pre + "_" + nm)(*a)
    rng = np.random.default_rng(c["seed"])
    lam = float(v.r(c["lam"])) if v.norm else 1.0
    n1, na, nb = c["n"], c["na"], c["nb"]
    ctrl = np.array(v.r(A(c["cmin"], 0.02, 20, n1, 0.01, 300, na, nb)))
    xs = v.r(np.linspace(math.log(ctrl[1]), math.log(ctrl[2]), n1))
    ys = v.r(rng.uniform(-3, 3, n1))
    ca = v.r(np.linspace(math.log(ctrl[4]), math.log(ctrl[5]), na))
    cb = v.r(np.linspace(0, 0.5, nb) if pre == "bw" else np.log(np.geomspace(1e-4, 1, nb)))
    cum = np.sort(rng.uniform(0, 0.5 if pre == "bw" else 1, (na, nb)), axis=1)
    cum[:, 0] = 0 if pre == "bw" else cum[:, 0]
    cum[:, -1] = 0.5 if pre == "bw" else 1
    with np.errstate(divide="ignore"):
        y2 = v.r(np.log(cum))
    us = v.r(np.array(c["u"]))
    tabs = [xs, ys, ca, cb, y2.ravel()]
    h = f("raw", ctrl, lam, us, len(us), n1, xs, ys, na, ca, nb, cb, np.ascontiguousarray(y2).ravel())

    def innards(x):
        o = np.zeros(15)
        f("innards", x, o, None)
        arr = [np.zeros(max(1, int(k))) for k in o[9:14]]
        f("innards", x, o, np.array([a.ctypes.data for a in arr], dtype=np.uint64))
        return o, [a[:int(k)] for a, k in zip(arr, o[9:14])]

    def check(x, what, two=True):
        o, arr = innards(x)
        if not eqb(o[:8], ctrl) or o[8] != lam or list(o[9:14]) != [n1, n1, na, nb, na * nb]:
            raise Violation("%s has other parameters or sizes: %r, original %r, %r, %r (%s %s)" % (what, o, ctrl, lam, (n1, na, nb), pre, v.nm))
        for k, (a, b) in enumerate(zip(arr, tabs)):
            if not eqb(a, b):
                raise Violation("%s: table array %d differs: %r, original %r (%s %s)" % (what, k, a[:6], b[:6], pre, v.nm))
    live = [h]
    check(h, "an engine built from parts")
    R, G = results(v, pre, h, c, lam, us), None
    with tempfile.TemporaryDirectory(prefix="q08") as tmp:
        fs = [tmp + "/dndt", tmp + "/cum"]
        for k in (0, 1):
            f("wfile", h, k, fs[k])
        e = f("new", ctrl, 0, lam, us, len(us))
        live.append(e)
        for k in (c["order"], 1 - c["order"]):
            f("rfile", e, k, fs[k])
        check(e, "an engine with loaded tables")
        ds = [("a copied engine", f("dup", e, 0)), ("an exported and rebuilt engine", f("dup", e, 2)), ("a copy of a rebuilt engine", f("dup", f("dup", h, 2), 0)),
              ("an engine with loaded tables", e)]
        # the state of the random stream must be equal as well: draw from every engine alike
        for nm, d in ds:
            live.append(d)
            check(d, nm)
            r = results(v, pre, d, c, lam, us)
            if not eqb(r, R):
                raise Violation("%s computes other optical depths: %r, original %r (%s %s)" % (nm, r, R, pre, v.nm))
        base = f("dup", h, 0)
        G = gens(v, pre, base, c, lam)
        for nm, d in ds:
            g = gens(v, pre, d, c, lam)
            if not eqb(g, G):
                raise Violation("%s generates other particles: %r, original %r (%s %s)" % (nm, g[:10], G[:10], pre, v.nm))
        if pre == "bw":  # assignment replaces everything, whatever the target was
            for k, x in enumerate((f("new", np.array(v.r(A(0.3, 0.5, 5, n1 + 3, 0.5, 7, na + 1, nb + 2))), 0, 3.5e-7, us[:1], 1), f("dup", h, 0), ds[2][1])):
                if k == 1:
                    f("set_lambda", x, 3.5e-7)
                f("assign", x, base if k < 2 else x)
                check(x, "an engine after assignment %d" % k)
                if f("lambda", x) != lam:
                    raise Violation("an assigned engine has the normalisation length %r, original %r (%s)" % (f("lambda", x), lam, v.nm))
                if not eqb(results(v, pre, x, c, lam, us), R):
                    raise Violation("an assigned engine computes other optical depths (assignment %d, %s)" % (k, v.nm))
                if k < 2:
                    f("assign", x, h)  # the random stream starts over
                    if not eqb(gens(v, pre, x, c, lam), G):
                        raise Violation("an assigned engine generates other particles (%s)" % v.nm)
        mv = f("dup", ds[0][1], 1)
        check(mv, "a moved engine")
        if not eqb(results(v, pre, mv, c, lam, us), R):
            raise Violation("a moved engine computes other optical depths (%s %s)" % (pre, v.nm))
        # the length belongs to each engine
        l2 = float(v.r(c["lam2"]))
        cp = f("dup", e, 0)
        f("set_lambda", cp, l2)
        if f("lambda", e) != lam or f("lambda", cp) != (l2 if v.norm else 1.0):
            raise Violation("normalisation length: original %r (%r), copy %r (%r)" % (f("lambda", e), lam, f("lambda", cp), l2))
        # incomplete and missing files: the engine behaves as one without the table
        plain = f("new", ctrl, 0, lam, us, len(us))
        cc = dict(c, parts=c["parts"][:1])
        want = results(v, pre, plain, cc, lam, us)
        B = open(fs[0], "rb").read()
        for q in c["cut"] + [None]:
            nm = tmp + "/missing"
            if q is not None:
                nm = tmp + "/cutf"
                open(nm, "wb").write(B[:int(q * len(B))])
            x = f("new", ctrl, 0, lam, us, len(us))
            f("rfile", x, 0, nm)
            got = results(v, pre, x, cc, lam, us)
            if not eqb(got, want):
                raise Violation("an engine whose table file %s computes %r, one without table %r (%s %s)" % (
                    "is missing" if q is None else "ends after %d of %d bytes" % (int(q * len(B)), len(B)), got, want, pre, v.nm))
            f("del", x)
    ch = any(o != s["o"] for o, s in zip(R[::3], c["parts"]))
    return {"nontrivial": ch, "labels": [pre, v.nm]}


# no copy of an engine outlives its source's tables in run_eng: nothing is deleted there but engines without views
base = {"v": VN, "seed": SEED}
tab = st.fixed_dictionaries(dict(base, d=st.sampled_from([1, 2]), n=st.integers(2, 8), m=st.integers(2, 6), e=st.integers(-20, 20), raw=st.booleans(), dn=st.integers(-1, 5).map(lambda x: max(x, 0)),
                                 sp=st.lists(VAL, max_size=4), cut=st.lists(st.floats(0, 0.999999), min_size=3, max_size=8)))
part = st.fixed_dictionaries({"p": mom3(1.5, 4), "f": st.fixed_dictionaries({"kind": st.sampled_from(["random", "perp", "E"]), "E": LOG(-3, -1), "B": LOG(-3, -1), "e": unit3, "b": unit3}),
                              "dt": LOG(-20, -10), "o": st.floats(0.001, 5)})
eng = st.fixed_dictionaries(dict(base, pre=st.sampled_from(["bw", "qs"]), lam=LAM, lam2=LOG(-8, -3), n=st.integers(2, 12), na=st.integers(3, 6), nb=st.integers(3, 6), cmin=LOG(-3, -1),
                                 order=st.integers(0, 1), u=st.lists(st.floats(0.01, 0.99), min_size=1, max_size=5), parts=st.lists(part, min_size=1, max_size=4),
                                 cut=st.lists(st.floats(0, 0.999999), min_size=1, max_size=2)))
PARTS = [Part("tables", tab, run_tab, quick=1500, thorough=40000, shards=4), Part("engines", eng, run_eng, quick=600, thorough=15000, shards=4)]
