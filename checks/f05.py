from checks.common import *
PID = "F05"
RULE = ("A case is one pusher call on a generated set of particles with per-particle fields: non-trivial when at least one particle "
        "has non-zero momentum and a non-zero field (for position pushes: non-zero velocity). Distinct = distinct case parameters.")
ASSUMPTIONS = ["inverse gamma on entry consistent with the momentum", "cyclotron angle per step up to about 30, electric kick per step up to 1e3 c"]
CTX = {}
LD = np.longdouble
MU0 = 1.2566370614359173e-06


def prepare():
    CTX["F"] = F(build.fortran_lib())


case = st.fixed_dictionaries({
    "np": NP, "seed": SEED, "mom": MOMK, "lvect": LVECT, "fk": st.sampled_from(["eb", "eb", "b", "e", "drift", "zero", "mixed"]),
    "wc": st.floats(-4, 1.3), "ke": st.floats(-6, 2), "q": st.sampled_from([-1.6021764620000001e-19, 1.6021764620000001e-19, 3.2e-19]),
    "m": st.sampled_from([9.10938291e-31, 1.6726e-27, 2.0e-30]), "dt": st.sampled_from([1e-16, 3.3e-17, 2e-15, 7e-13]),
    "rr": st.floats(-9, -2)})


class S:
    def __init__(self, c, rr=False):
        rng = np.random.default_rng(c["seed"])
        n = c["np"]
        self.n, self.q, self.m, self.dt = n, c["q"], c["m"], c["dt"] * (1e-3 if rr else 1.0)
        u, gi = momenta(rng, c["mom"], n)
        if rr:
            u = np.where(np.abs(u) > 0, np.clip(u, -50 * C, 50 * C), 0.0)
        gi = 1 / np.sqrt(1 + np.sum(u * u, axis=0) / C ** 2)
        a = self.q * self.dt / self.m
        e = rng.normal(size=(3, n))
        b = rng.normal(size=(3, n))
        fk = c["fk"]
        ke, wc = 10 ** c["ke"], 10 ** c["wc"]
        if rr:
            # weak enough for the reaction to stay a correction: choose the time step so that tau0 / dt x kick^2 is small
            ke, wc = min(ke, 0.3), min(wc, 0.3)
        E = e * (ke * C / a)
        B = b * (wc / a) * (10 ** rng.uniform(-1, 0, n))
        if fk == "mixed":
            E *= rng.integers(0, 2, n)
            B *= rng.integers(0, 2, (3, n))
        if fk in ("b", "zero"):
            E[:] = 0
        if fk in ("e", "zero"):
            B[:] = 0
        if fk == "drift":
            v = u * gi
            E = -np.cross(v.T, B.T).T
        self.u0, self.gi0, self.E0, self.B0 = u, gi, E, B
        self.u = [pad1(x) for x in u]
        self.gi = pad1(gi)
        self.E = [pad1(x) for x in E]
        self.B = [pad1(x) for x in B]
        self.rng = rng
        self.c = c

    def call(self, name, *extra, which=None):
        CTX["F"](name, self.n, *self.u, self.gi, *extra, *self.E, *self.B, self.q, self.m, self.dt, *([] if which is None else [which]))
        for x, y in zip(self.E + self.B, (*self.E0, *self.B0)):
            if not np.array_equal(x, y):
                raise Violation(name + ": changed its field arguments")

    def out(self):
        return np.array(self.u), np.array(self.gi)

    def info(self, pos=False):
        nz = np.any(self.u0 != 0, axis=0)
        f = np.any(self.E0 != 0, axis=0) | np.any(self.B0 != 0, axis=0)
        return {"nontrivial": bool(np.any(nz & (f | pos))), "labels": [self.c["mom"], self.c["fk"]]}


def cross(a, b):
    a, b = LD(a), LD(b)
    return np.array([a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]])


def norm(a):
    return np.sqrt(np.sum(LD(a) ** 2, axis=0))


def igam(u):
    return 1 / np.sqrt(1 + np.sum(LD(u) ** 2, axis=0) / LD(C) ** 2)


def close(got, want, scale, tol, what, c):
    err = norm(np.atleast_2d(LD(got) - LD(want)))
    lim = tol * scale
    bad = ~(err <= lim)
    if np.any(bad):
        i = int(np.argmax(bad))
        raise Violation("%s: particle %d: got %s, expected %s" % (what, i, np.atleast_2d(got)[:, i].tolist(),
                                                                  [float(x) for x in np.atleast_2d(LD(want))[:, i]]))


def check_gi(s, u, gi, name):
    ref = igam(u)
    close(gi, ref, np.abs(ref), 1e-12, name + ": stored inverse gamma", s.c)


def boris_ref(u, E, B, a):
    um = LD(u) + LD(a) / 2 * LD(E)
    t = LD(a) / 2 * LD(B) * igam(um)
    t2 = np.sum(t * t, axis=0)
    # closed form of the rotation u' - um = (um + u') x t
    up = ((1 - t2) * um + 2 * cross(um, t) + 2 * t * np.sum(um * t, axis=0)) / (1 + t2)
    return up + LD(a) / 2 * LD(E)


def run_boris(block):
    name = "pxr_boris_push_u_3d" + ("_block" if block else "")

    def run(c):
        s = S(c)
        if block:
            s.callb = CTX["F"](name, s.n, *s.u, s.gi, *s.E, *s.B, s.q, s.m, s.dt, c["lvect"])
        else:
            s.call(name)
        u, gi = s.out()
        a = s.q * s.dt / s.m
        ref = boris_ref(s.u0, s.E0, s.B0, a)
        sc = norm(s.u0) + norm(a * s.E0) + 1e-30
        close(u, ref, sc, 1e-12, name, c)
        check_gi(s, u, gi, name)
        if c["fk"] in ("b", "zero"):
            close(norm(u), norm(s.u0), sc, 1e-12, name + ": |u| in a magnetic field", c)
        # the step is undone by the opposite step from the new momentum
        s2 = S(c)
        for k in range(3):
            s2.u[k][:] = u[k]
        s2.gi[:] = gi
        s2.dt = -s.dt
        if block:
            CTX["F"](name, s2.n, *s2.u, s2.gi, *s2.E, *s2.B, s2.q, s2.m, s2.dt, c["lvect"])
        else:
            s2.call(name)
        close(s2.out()[0], s.u0, sc, 1e-11, name + ": reversed step", c)
        return s.info()
    return run


def vay_residual(u, E, B, a, uh, name, c, tol=1e-10):
    """u must satisfy u = uh + a/2 (E + v x B), v = u/gamma(u)"""
    u = LD(u)
    rhs = LD(uh) + LD(a) / 2 * (LD(E) + cross(u * igam(u), B))
    tau = norm(LD(a) / 2 * LD(B))
    sc = norm(uh) + norm(a * E) + norm(u) + 1e-30
    close(u, rhs, sc * (1 + tau) ** 2, tol, name, c)


def run_vay(which):
    name = "pxr_ebcancelpush3d"

    def run(c):
        s = S(c)
        a = s.q * s.dt / s.m
        half = LD(s.u0) + LD(a) / 2 * (LD(s.E0) + cross(LD(s.u0) * LD(s.gi0), s.B0))
        sc = norm(s.u0) + norm(a * s.E0) + norm(a * s.B0) * C + 1e-30
        if which in (0, 2):
            s.call(name, which=which)
            u, gi = s.out()
            vay_residual(u, s.E0, s.B0, a, half if which == 0 else s.u0, "Vay push which=%d" % which, c)
            check_gi(s, u, gi, name)
            if which == 0 and c["fk"] == "drift":
                close(u, s.u0, (norm(s.u0) + 1e-30) * (1 + norm(a * s.B0)) ** 2, 1e-10, "Vay push: drift velocity", c)
        else:
            s.call(name, which=1)
            u, gi = s.out()
            close(u, half, sc, 1e-12, "Vay first half", c)
            check_gi(s, u, gi, name)
            # the two halves make the full step
            s.call(name, which=2)
            vay_residual(s.out()[0], s.E0, s.B0, a, u, "Vay second half", c)
        return s.info()
    return run


def run_split(c):
    s = S(c)
    a = s.q * s.dt / s.m
    CTX["F"]("pxr_epush_v", s.n, *s.u, *s.E, s.q, s.m, s.dt)
    u1 = s.out()[0]
    sc = norm(s.u0) + norm(a * s.E0) + 1e-30
    close(u1, LD(s.u0) + LD(a) * LD(s.E0), sc, 1e-13, "pxr_epush_v", c)
    CTX["F"]("pxr_set_gamma", s.n, *s.u, s.gi)
    u1b, gi = s.out()
    if not np.array_equal(u1, u1b):
        raise Violation("pxr_set_gamma changed the momentum")
    check_gi(s, u1, gi, "pxr_set_gamma")
    CTX["F"]("pxr_bpush_v", s.n, *s.u, s.gi, *s.B, s.q, s.m, s.dt)
    u2, gi2 = s.out()
    if not np.array_equal(gi, gi2):
        raise Violation("pxr_bpush_v changed the inverse gamma")
    close(norm(u2), norm(u1), sc, 1e-12, "pxr_bpush_v: |u|", c)
    t = LD(a) / 2 * LD(s.B0) * LD(gi)
    close(LD(u2) - LD(u1), cross(LD(u1) + LD(u2), t), (norm(u1) + 1e-30) * (1 + norm(t)), 1e-12, "pxr_bpush_v: rotation", c)
    return s.info()


def run_rr(kind):
    name = ("pxr_boris_push_rr_%s_u_3d" % kind).lower()

    def run(c):
        s = S(c, rr=True)
        q, m = s.q, s.m
        c2 = LD(C) ** 2
        # keep the reaction a correction: tau0 * (a/c)^2 * gamma^2 * dt small, by shortening the time step scale
        tau0 = q * q * MU0 / (6 * math.pi * m * C)
        if kind != "LL":
            # scale fields so that the largest relative change per step is 10^rr
            k = tau0 / s.dt
            amp = max(1e-300, float(np.max((norm(q * s.dt / m * s.E0) / C + norm(q * s.dt / m * s.B0)) ** 2 *
                                           (1 + np.sum(s.u0 ** 2, axis=0) / C ** 2) ** 1.5)))
            f = min(1.0, math.sqrt(10 ** c["rr"] / max(amp * k, 1e-300)))
        else:
            f = 1.0
        for arr0, arr in ((s.E0, s.E), (s.B0, s.B)):
            arr0 *= f
            for i in range(3):
                arr[i][:] = arr0[i]
        a = LD(q) * LD(s.dt) / LD(m)
        old = s.rng.normal(size=(6, s.n)) * np.concatenate([np.abs(s.E0), np.abs(s.B0)]).max(axis=1)[:, None]
        oldp = [pad1(x) for x in old]
        s.call(name, *(oldp if kind == "LL" else []))
        u, gi = s.out()
        E, B, dt = LD(s.E0), LD(s.B0), LD(s.dt)
        ul = boris_ref(s.u0, s.E0, s.B0, a)
        um = (ul + LD(s.u0)) / 2
        g = 1 / igam(um)
        v = um / g
        dot = lambda x, y: np.sum(x * y, axis=0)
        if kind == "S09":
            al = (ul - LD(s.u0)) / dt
            w = (al - v * dot(v, al) / c2) / (1 / LD(tau0) + dot(v, al) / c2)
            rr = a * cross(w, B) - g / c2 * dot(w, al) * um * dt
            amp = norm(a * B) * norm(al) * tau0 + g / c2 * tau0 * norm(al) ** 2 * norm(um) * dt
        elif kind == "B08":
            u2 = dot(um, um)
            et = E - um * np.where(u2 > 0, dot(E, um) / np.where(u2 > 0, u2, 1), 0)
            f2 = et + cross(v, B)
            k0 = 2 * LD(q) ** 4 * dt / (3 * LD(m) ** 3 * LD(C) ** 5 * 4 * LD(math.pi) * LD(EPS0))
            rr = -k0 * g * dot(f2, f2) * um
            amp = k0 * g * (norm(E) + norm(cross(v, B))) ** 2 * norm(um)
        else:
            dE = (E - LD(old[:3])) / dt
            dB = (B - LD(old[3:])) / dt
            k0 = LD(q) ** 3 * dt / (6 * LD(m) ** 2 * LD(C) ** 3 * LD(math.pi) * LD(EPS0))
            f = E + cross(v, B)
            qm = LD(q) / LD(m)
            rr = k0 * (g * (dE + cross(v, dB)) + qm * (cross(E, B) + cross(B, cross(B, v)) + E * dot(v, E) / c2
                                                       - g ** 2 / c2 * v * (dot(f, f) - dot(v, E) ** 2 / c2)))
            amp = np.abs(k0) * (g * (norm(dE) + norm(v) * norm(dB)) + abs(qm) * ((norm(E) + norm(B) * norm(v)) ** 2 * (norm(v) * g ** 2 / c2 + 1 / LD(C)) + norm(E) * norm(B) + norm(B) ** 2 * norm(v)))
        ref = ul + rr
        sc = norm(s.u0) + norm(a * E) + 1e-30
        close(LD(u) - ref, np.zeros_like(ref), sc * 1e-3 + amp, 1e-9, name, c)
        check_gi(s, u, gi, name)
        if kind != "LL" and c["fk"] == "b":
            if np.any(norm(u) > norm(s.u0) * (1 + 1e-12)):
                raise Violation(name + ": energy grew in a magnetic field")
        return s.info()
    return run


def run_pos(name, dims, comps, ny):
    def run(c):
        s = S(c)
        n = s.n
        x0 = s.rng.normal(size=(dims, n)) * C * s.dt * 10 ** s.rng.uniform(-1, 3)
        x = [pad1(t) for t in x0]
        us = [s.u[k] for k in comps] if ny is None else s.u
        CTX["F"](name, n, *x, *us, s.gi, s.dt)
        for k in range(dims):
            j = comps[k] if ny is None else (0, 2)[k]
            dx = LD(s.u0[j]) * LD(s.gi0) * LD(s.dt)
            close(x[k], LD(x0[k]) + dx, np.abs(x0[k]) + np.abs(dx) + 1e-300, 1e-14, name + " axis %d" % k, c)
        if not (np.array_equal(s.out()[0], s.u0) and np.array_equal(s.gi, s.gi0)):
            raise Violation(name + ": changed momentum or inverse gamma")
        return s.info(pos=True)
    return run


KW = dict(quick=4000, thorough=150000)
PARTS = [Part("boris", case, run_boris(False), **KW), Part("boris_block", case, run_boris(True), **KW)]
PARTS += [Part("vay_%d" % w, case, run_vay(w), **KW) for w in (0, 1, 2)]
PARTS += [Part("split_boris", case, run_split, **KW)]
PARTS += [Part("reaction_" + k, case, run_rr(k), **KW) for k in ("S09", "B08", "LL")]
PARTS += [Part("pushxyz", case, run_pos("pxr_pushxyz", 3, (0, 1, 2), None), **KW),
          Part("pushxz", case, run_pos("pxr_pushxz", 2, (0, 2), None), **KW),
          Part("push2dxz", case, run_pos("pxr_push2dxz", 2, (0, 2), 1), **KW)]
