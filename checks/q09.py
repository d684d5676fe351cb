from checks.qed import *
PID = "Q09"
RULE = ("A case is one history of operations on up to eight vectors and four foreign buffers, or one use of fixed arrays: non-trivial when the history contains "
        "a copy, a move or an assignment and a later write. Distinct = distinct case parameters.")
ASSUMPTIONS = ["vectors of a class whose array allocations are recorded, with guard zones around each block",
               "a vector that was moved from is only assigned to, measured, copied or destroyed; views on foreign storage refuse to be resized",
               "new elements of a sized or enlarged vector hold no particular value until written"]
NS, NB = 8, 4


def prepare():
    for k, p in zip(("nmd", "nmf"), build.parallel(*[lambda r=r: build.cxx("qb" + r, "qed_base.cpp", VAR[r].flags) for r in ("nmd", "nmf")])):
        VAR[k].B = Lib(p)


OPN = ["sized", "from vector", "empty", "copy", "move", "copy assignment", "move assignment", "destruction", "resize", "view", "list", "self copy assignment",
       "self move assignment", "assignment of a temporary", "write", "raw write"]


def run_hist(c):
    L = VAR["nmd"].B
    L.pv_reset()
    raw = [np.arange(64) + 1000.0 * b for b in range(NB)]
    for b in range(NB):
        L.raw_set(b, raw[b])
    S = [None] * NS  # {"v": list (None = unknown), "own": bool or None (moved from), "buf": view}
    cnt = [0]
    hist = []
    shared = False
    wrote = False

    def val():
        cnt[0] += 1
        return cnt[0] + 0.5

    def vals(a):
        s = S[a]
        if s["buf"] is not None:
            return [float(x) for x in raw[s["buf"]][4:4 + s["n"]]]
        return s["v"]

    def verify():
        at = "; ".join(hist[-12:])
        for a in range(NS):
            if bool(L.pv_has(a)) != (S[a] is not None):
                raise RuntimeError("harness out of step")
            if S[a] is None:
                continue
            w = vals(a)
            if L.pv_size(a) != len(w):
                raise Violation("vector %d has size %d, not %d, after: %s" % (a, L.pv_size(a), len(w), at))
            for how in range(6):
                o = np.full(256, -1.0)
                k = L.pv_read(a, how, o)
                if k != len(w):
                    raise Violation("vector %d: %d elements read by way %d, size %d, after: %s" % (a, k, how, len(w), at))
                for i, x in enumerate(w):
                    if x is not None and o[i] != x:
                        raise Violation("vector %d element %d is %r (way %d), should be %r, after: %s" % (a, i, o[i], how, x, at))
            if w:
                o = np.zeros(4)
                L.pv_ends(a, o)
                for k, x in enumerate((w[0], w[-1], w[0], w[-1])):
                    if x is not None and o[k] != x:
                        raise Violation("vector %d: %s element is %r, should be %r, after: %s" % (a, "last" if k % 2 else "first", o[k], x, at))
        for b in range(NB):
            o = np.zeros(64)
            L.raw_get(b, o)
            if not np.array_equal(o, raw[b]):
                i = int(np.nonzero(o != raw[b])[0][0])
                raise Violation("foreign buffer %d changed at %d: %r, should be %r, after: %s" % (b, i - 4, o[i], raw[b][i], at))
        if L.pv_bad():
            raise Violation("storage freed twice, foreign storage freed, or written out of bounds, after: %s" % at)
        own = [s for s in S if s is not None and s["own"]]
        live = L.pv_live()
        if not sum(1 for s in own if s["v"]) <= live <= len(own):
            raise Violation("%d blocks alive for %d owning vectors, after: %s" % (live, len(own), at))

    e = A(0)
    for op, a, b, n, x in c["ops"]:
        nm = OPN[op]
        d = np.array([val() for _ in range(max(n, 3))])
        # construction takes a free slot, everything else a used one
        pool = [k for k in range(NS) if (S[k] is None) == (op in (0, 1, 2, 3, 4, 9, 10))]
        if op != 15:
            if not pool:
                continue
            a = pool[a % len(pool)]
        if op in (3, 4, 5, 6):
            pool = [k for k in range(NS) if S[k] is not None and k != a]
            if not pool:
                continue
            b = pool[b % len(pool)]
        src = S[b]
        if op == 8 and S[a]["own"] is None:
            continue  # moved from
        if op == 14:
            w = vals(a)
            if not w:
                continue
            how, i = n % 5, x % len(w)
            i = 0 if how == 3 else len(w) - 1 if how == 4 else i
            L.pv_write(a, how, i, float(d[0]))
            if S[a]["buf"] is not None:
                raw[S[a]["buf"]][4 + i] = d[0]
            else:
                S[a]["v"][i] = d[0]
            wrote = wrote or shared
            hist.append("write %d[%d] by way %d" % (a, i, how))
            verify()
            continue
        if op == 15:
            b = b % NB
            raw[b][4 + x % 56] = d[0]
            L.raw_set(b, raw[b])
            hist.append("write buffer %d[%d]" % (b, x % 56))
            verify()
            continue
        if op == 9:
            b = b % NB
            n = min(n, 40)
        t = L.pv_op(op, a, b, n, d)
        hist.append("%s %d%s%s" % (nm, a, " from %d" % b if op in (3, 4, 5, 6, 9) else "", " size %d" % n if op in (0, 1, 8, 9, 13) else ""))
        if bool(t) != (op == 8 and S[a]["buf"] is not None):
            raise Violation("%s: exception %r, after: %s" % (nm, bool(t), "; ".join(hist[-12:])))
        dl = [float(q) for q in d[:n]]
        if op == 0:
            S[a] = {"v": [None] * n, "own": True, "buf": None}
        elif op == 1:
            S[a] = {"v": dl, "own": True, "buf": None}
        elif op == 2:
            S[a] = {"v": [], "own": True, "buf": None}
        elif op in (3, 5):
            S[a] = {"v": list(vals(b)), "own": True, "buf": None}
            shared = True
        elif op in (4, 6):
            S[a] = dict(src)
            S[b] = {"v": [], "own": None, "buf": None}
            shared = True
        elif op == 7:
            S[a] = None
        elif op == 8:
            if not t:
                S[a]["v"] = (S[a]["v"] + [None] * n)[:n]
        elif op == 9:
            S[a] = {"v": None, "own": False, "buf": b, "n": n}
        elif op == 10:
            S[a] = {"v": [float(q) for q in d[:3]], "own": True, "buf": None}
        elif op == 13:
            S[a] = {"v": dl, "own": True, "buf": None}
            shared = True
        verify()
    for a in range(NS):
        if S[a] is not None:
            L.pv_op(7, a, 0, 0, e)
            S[a] = None
            hist.append("destruction %d" % a)
    verify()
    if L.pv_live():
        raise Violation("%d blocks never freed, after: %s" % (L.pv_live(), "; ".join(hist[-12:])))
    return {"nontrivial": wrote, "labels": sorted(set(OPN[o[0]] for o in c["ops"]))}


def run_arr(c):
    v = VAR[c["v"]]
    N = c["N"]
    d = v.r(np.array(c["d"][:N]))
    w = np.array([i % N for i, _ in c["w"]] + [0], dtype=np.int32)
    x = v.r(np.array([q for _, q in c["w"]] + [0.0]))
    nw = len(c["w"])
    o = np.full(6 * N + 2, -9.0)
    v.B.array_run(N, d, w, x, nw, o)
    a = d.copy()
    for i in range(nw):
        a[w[i]] = x[i]
    b = d
    k = a.copy()
    if nw:
        k[w[0]] = v.r(v.dt(x[0]) + v.dt(1))
    want = np.concatenate([a, a, a, a, b, k, [N]])
    if not np.array_equal(o[:-1], want):
        raise Violation("array of %d: %r, should be %r (%s)" % (N, o[:-1], want, v.nm))
    if o[-1] != -9.0:
        raise RuntimeError("array_run wrote too much")
    z = v.r(np.array(c["d"]))
    o = np.zeros(5)
    v.B.array_ctor(z, o)
    if not np.array_equal(o, z):
        raise Violation("arrays built from lists hold %r, given %r (%s)" % (o, z, v.nm))
    return {"nontrivial": nw > 0, "labels": ["N=%d" % N, v.nm]}


op = st.tuples(st.sampled_from([0, 1, 1, 1, 2, 3, 3, 4, 4, 5, 5, 5, 6, 6, 6, 7, 7, 8, 8, 9, 10, 11, 12, 13, 14, 14, 14, 15]), st.integers(0, 7), st.integers(0, 7), st.one_of(st.integers(0, 5), st.integers(0, 40)),
               st.integers(0, 200))
hist = st.fixed_dictionaries({"ops": st.one_of(st.lists(op, min_size=1, max_size=60), st.lists(op, min_size=15, max_size=60))})
arr = st.fixed_dictionaries({"v": st.sampled_from(["nmd", "nmf"]), "N": st.sampled_from([1, 2, 3, 5]), "d": st.lists(st.floats(-1e6, 1e6), min_size=5, max_size=5),
                             "w": st.lists(st.tuples(st.integers(0, 4), st.floats(-1e3, 1e3)), max_size=6)})
PARTS = [Part("vectors", hist, run_hist, quick=3000, thorough=120000, shards=4), Part("arrays", arr, run_arr, quick=600, thorough=20000)]
