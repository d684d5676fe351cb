from checks.common import *
PID = "F04"
RULE = ("A case is one call of one gathering routine (or E and B pair) on random grid fields with random contents in the particle "
        "arrays: non-trivial when at least two particles gather a field that is not constant. Distinct = distinct case parameters.")
ASSUMPTIONS = ["particles inside the tile; guard cells >= 3", "on the discontinuities of the order-0 shape (order 1 with lower order in "
               "velocity) either neighbouring node is accepted", "kernels compiled only with -D DEV are out of scope"]
CTX = {}


def prepare():
    CTX["F"] = F(build.fortran_lib())


ORD = st.integers(1, 3)
CASE = dict({k: v for k, v in PART_CASE.items() if k not in ("mom", "q", "wk", "cdt", "ncalls")}, lower=st.booleans(),
            nodal=st.sampled_from([False, False, True]), fk=st.sampled_from(["random", "random", "uniform", "spike"]),
            fs=st.sampled_from([1.0, 1e12, 1e-5]))


class G:
    def __init__(self, case, dims):
        c = dict(case, mom="cold", q=1.0, wk="one", cdt=0.5)
        self.P = P = Parts(c, dims)
        self.case, self.dims = case, dims
        self.fl, self.out, self.pr = [], [], []
        for i in range(6):
            a = P.arr(1.0, False)
            if case["fk"] == "random":
                a.v[...] = P.rng.normal(size=a.v.shape) * case["fs"]
            elif case["fk"] == "uniform":
                a.v[...] = P.rng.normal() * case["fs"]
            else:
                a.v[tuple(P.rng.integers(0, s) for s in a.v.shape)] = case["fs"]
            a.prior = np.array(a.v)
            self.fl.append(a)
            pr = P.rng.normal(size=P.np) * case["fs"] if case["prior"] else np.zeros(P.np)
            self.pr.append(pr)
            self.out.append(pad1(np.array(pr)))
        self.can = [np.array(o.base) for o in self.out]

    def reference(self, i, no, bump=0.0):
        """field i in 0..5 (Ex..Bz); bump moves the staggered coordinates by a tiny amount (for the order-0 shape)"""
        P, axes = self.P, ((0, 1, 2) if self.dims == 3 else (0, 2))
        W = []
        for k, ax in enumerate(axes):
            stag = (ax == i) if i < 3 else (ax != i - 3)
            o = no[k] - (1 if stag and self.case["lower"] else 0)
            off = 0.5 if stag and not self.case["nodal"] else 0.0
            u = (np.array(P.x[k]) - P.org[k]) / P.d[k] - off + (bump if o == 0 else 0.0)
            W.append(weights(o, u, self.fl[i].nodes(k)))
        a = self.fl[i].v
        return np.einsum("ijk,pi,pj,pk->p", a, *W, optimize=True) if self.dims == 3 else np.einsum("ik,pi,pk->p", a, *W, optimize=True)

    def check(self, name, which, no):
        c = self.case
        for i in range(6):
            if i not in which:
                if not np.array_equal(self.out[i], self.pr[i]):
                    raise Violation("%s changed the array of another field component" % name)
                continue
            got = np.array(self.out[i]) - self.pr[i]
            lim = 1e-11 * c["fs"] * 10
            r = self.reference(i, no)
            ok = np.abs(got - r) <= lim
            if not np.all(ok) and c["lower"] and 1 in no:
                # either side of the jump of the order-0 shape, per axis
                cand = [self.reference(i, no, b) for b in (1e-9, -1e-9)]
                ok |= np.any([np.abs(got - x) <= lim for x in cand], axis=0)
                if not np.all(ok):
                    amb = np.zeros(self.P.np, bool)
                    for k in range(self.dims):
                        u = (np.array(self.P.x[k]) - self.P.org[k]) / self.P.d[k]
                        f = np.abs(u * 2 - np.round(u * 2))
                        amb |= f < 1e-8
                    ok |= amb & np.array([self.corner_ok(i, no, p, got[p], lim) if amb[p] else False for p in range(self.P.np)])
            if not np.all(ok):
                p = int(np.argmin(ok))
                raise Violation("%s: component %s of particle %d got %r expected %r" % (name, ["Ex", "Ey", "Ez", "Bx", "By", "Bz"][i],
                                                                                       p, float(got[p]), float(r[p])))
            if c["fk"] == "uniform" and not np.all(np.abs(got - self.fl[i].v.flat[0]) <= lim):
                raise Violation("%s: a uniform field is not gathered exactly" % name)
            b = np.array(self.out[i].base)
            if not np.array_equal(b[self.P.np:], self.can[i][self.P.np:]):
                raise Violation("%s wrote past the end of a particle array" % name)
            if not np.array_equal(self.fl[i].v, self.fl[i].prior) or not self.fl[i].canary():
                raise Violation("%s changed the grid field" % name)
        self.P.unchanged(name)
        return {"nontrivial": self.P.np > 1 and c["fk"] != "uniform",
                "labels": [c["pos"], c["fk"], "lower" if c["lower"] else "same order", "nodal" if c["nodal"] else "staggered"]}

    def corner_ok(self, i, no, p, val, lim):
        """all combinations of sides of the order-0 jumps for one particle"""
        import itertools
        P, axes = self.P, ((0, 1, 2) if self.dims == 3 else (0, 2))
        for sg in itertools.product((-1e-9, 1e-9), repeat=self.dims):
            t = np.asarray(self.fl[i].v)
            for k, ax in enumerate(axes):
                stag = (ax == i) if i < 3 else (ax != i - 3)
                o = no[k] - (1 if stag and self.case["lower"] else 0)
                off = 0.5 if stag and not self.case["nodal"] else 0.0
                u = (P.x[k][p] - P.org[k]) / P.d[k] - off + (sg[k] if o == 0 else 0.0)
                t = np.tensordot(weights(o, [u], self.fl[i].nodes(k))[0], t, axes=(0, 0))
            if abs(val - t) <= lim:
                return True
        return False


def run(kind, name, order):
    dims = 2 if "2d" in kind else 3

    def f(case):
        g = G(case, dims)
        P = g.P
        P.unchanged(name)
        no = [order] * dims if order else list(case["no"])[:dims]
        ga, nv = ints(P.g), ints([n + 1 for n in P.n])
        fl = [a.flat for a in g.fl]
        E, B = sum([[a, ga, nv] for a in fl[:3]], []), sum([[a, ga, nv] for a in fl[3:]], [])
        box = [*P.org, *P.d]
        lo, nd, lv = case["lower"], case["nodal"], case["lvect"]
        X = P.x if dims == 3 else [P.x[0], P.x[1]]
        X3 = P.x if dims == 3 else [P.x[0], P.y, P.x[1]]
        call = CTX["F"]
        allw = range(6)
        if kind in ("s3d", "s2d"):
            call(name % "e", P.np, *X, *g.out[:3], *box, *E, lo, nd)
            call(name % "b", P.np, *X, *g.out[3:], *box, *B, lo, nd)
        elif kind == "v2d":
            call(name % "e", P.np, *X, *g.out[:3], *box, *E, lv, lo, nd)
            call(name % "b", P.np, *X, *g.out[3:], *box, *B, lv, lo, nd)
        elif kind == "n3d":
            call(name % "e", P.np, *X, *g.out[:3], *box, *no, *E, lo, nd)
            call(name % "b", P.np, *X, *g.out[3:], *box, *no, *B, lo, nd)
        elif kind == "n3d4":
            call(name % "e", P.np, *X, *g.out[:3], *box, *no, *E, False, lo, nd)
            call(name % "b", P.np, *X, *g.out[3:], *box, *no, *B, False, lo, nd)
        elif kind == "n2d":
            call(name % "e", P.np, *X3, *g.out[:3], *box, *no, *E, False, False, lo, nd)
            call(name % "b", P.np, *X3, *g.out[3:], *box, *no, *B, False, False, lo, nd)
        elif kind == "eb3d":
            call(name, P.np, *X, *g.out, *box, *P.n, *P.g, *fl, lv, lo, nd)
        elif kind in ("ebg3d", "ebg2d"):
            call(name, P.np, *X, *g.out, *box, *E, *B, lv, lo, nd)
        elif kind == "gen3d":
            call(name, P.np, *X, *g.out, *box, *no, *E, *B, False, lo, nd, lv, case["algo"])
        elif kind == "gen2d":
            if case["algo"] < 0:
                allw = ()
            call(name, P.np, *X3, *g.out, P.org[0], 0.0, P.org[1], P.d[0], 1.0, P.d[1], no[0], no[0], no[1], *E, *B, False, lo,
                 nd, lv, case["algo"])
        return g.check(name.replace("%s", "[eb]"), allw, no)
    return f


def w(**extra):
    return st.fixed_dictionaries(dict(CASE, **extra))


KW = dict(quick=1200, thorough=40000)
NO = st.tuples(ORD, ORD, ORD)
SAME = st.one_of(NO, ORD.map(lambda o: (o, o, o)))
PARTS = [Part("scalar_%d" % o, w(), run("s3d", "get%%s3d_energy_conserving_scalar_%d_%d_%d" % (o, o, o), o), **KW) for o in (1, 2, 3)]
PARTS += [Part("vec%s_%d" % (v, o), w(lower=st.just(True)) if (v, o) == ("2", 1) else w(), run(k, "geteb3d_energy_conserving_vecv%s_%d_%d_%d" % (v, o, o, o), o), **KW)
          for v, o, k in (("1", 1, "eb3d"), ("2", 1, "eb3d"), ("3", 1, "eb3d"), ("4", 1, "ebg3d"), ("3", 2, "eb3d"), ("4", 2, "ebg3d"),
                          ("2", 3, "eb3d"), ("3", 3, "ebg3d"))]
PARTS += [Part("any3d", w(no=NO), run("n3d4", "pxr_get%s3d_n_energy_conserving", 0), **KW),
          Part("any3d_warp", w(no=NO), run("n3d", "pxrget%s3d_n_energy_conserving", 0), **KW),
          Part("any2d", w(no=NO), run("n2d", "pxr_get%s2dxz_n_energy_conserving", 0), **KW)]
PARTS += [Part("scalar2d_%d" % o, w(), run("s2d", "pxr_get%%s2dxz_energy_conserving_scalar_%d_%d" % (o, o), o), **KW) for o in (1, 2, 3)]
PARTS += [Part("vect2d_%d" % o, w(), run("v2d", "pxr_get%%s2dxz_energy_conserving_vect_%d_%d" % (o, o), o), **KW) for o in (1, 2, 3)]
PARTS += [Part("vect2d_eb_3", w(), run("ebg2d", "pxr_geteb2dxz_energy_conserving_vect_3_3", 3), **KW),
          Part("generic3d", w(no=SAME, algo=st.integers(0, 2)), run("gen3d", "geteb3d_energy_conserving_generic", 0), **KW),
          Part("generic2d", w(no=SAME, algo=st.integers(-1, 2)), run("gen2d", "geteb2dxz_energy_conserving_generic", 0), **KW)]
