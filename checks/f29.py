"""F29: valid simulations run to their end, without memory errors, and give finite results."""
from checks.simc import *
from checks import f22
PID = "F29"
JOBS = 7
RULE = ("A case is a generated input deck that combines any dimension, solver (finite differences of several orders, spectral with local, global and "
        "hybrid transforms, absorbing layers), species, loading, pushers, algorithm selectors, sorting, laser antennas, outputs, particle dumps, "
        "temporal diagnostics, tilings, process splits and threads, run for a few steps by the program instrumented with AddressSanitizer and with "
        "signalling NaN in uninitialised real variables; non-trivial when it has at least two of: several processes, several tiles, several "
        "threads, species, an antenna, output, a spectral solver. Distinct = distinct case parameters.")
ASSUMPTIONS = ["decks within the preconditions listed in DESIGN.md (guard cells against orders and cells per process, groups of the hybrid solver)",
               "plasma frequency at most 0.1 c per cell, so that the fields stay finite",
               "AddressSanitizer sees accesses outside allocations and the stack, not those into a neighbouring component of one allocation"]


def prepare():
    sim.BIN["asan"] = build.fortran_driver(omp=True, opt="-O1 -finit-real=snan -g1 -fsanitize=address")


def maybe(draw, k=1, n=3):
    return draw(st.integers(0, n)) < k


@st.composite
def case(draw, dim):
    kind = draw(st.sampled_from(["fdtd"] * 4 + ["local", "local", "global", "hybrid", "pml"]))
    split = [1, 1, draw(st.integers(1, 4))] if kind == "global" else draw(splits(dim, kind == "hybrid"))
    if draw(st.booleans()):
        no = [draw(st.integers(1, 3))] * 3
    else:
        no = [draw(st.integers(1, 3)) for _ in range(3)]
    g0 = max(no) + 2 - (max(no) == 1)
    g = [g0 + draw(st.integers(0, 2)) for _ in range(3)]
    jg = g if kind != "fdtd" else [min(max(no) + 1 + draw(st.integers(0, 2)), g[k]) for k in range(3)]
    n = [draw(st.integers(max(6, g[a] + 1) * split[a], max(10, g[a] + 4) * split[a] if split[a] > 1 else 14)) for a in range(3)]
    sol = dict(nox=no[0], noy=no[1], noz=no[2], currdepo=draw(st.sampled_from([0, 1, 2] if dim == 2 else [0, 1, 2, 3, 4, 5, 6])),
               fieldgathe=draw(st.integers(0, 2)), rhodepo=draw(st.integers(0, 2)))
    if kind == "fdtd":
        o = draw(st.sampled_from([2, 2, 4]))
        sol.update(norderx=o, nordery=o, norderz=o)
    else:
        sol.update(l_spectral=True, g_spectral=draw(st.booleans()) if kind != "pml" else False)
        for q in "xyz":
            sol["norder" + q] = draw(st.sampled_from([0, 2, 4, 16]))
    if kind in ("global", "hybrid"):
        sol["fftw_with_mpi"] = True
        if dim == 3 and maybe(draw, 2):
            sol["fftw_mpi_tr"] = True
    if kind == "hybrid":
        sol.update(fftw_hybrid=True, nb_group_z=draw(st.sampled_from([k for k in range(1, split[2] + 1) if split[2] % k == 0])))
        n[2], n[1] = max(n[2], 2 * g[2] + 1), max(n[1], 2 * g[1] + 1)
        n[2] += n[2] % 2
    if kind == "pml":
        ab = draw(st.sampled_from([[1, 1, 1], [0, 0, 1], [1, 0, 0], [0, 1, 0], [1, 1, 0], [0, 1, 1], [1, 0, 1]]))
        if dim == 2:
            ab = [ab[0], 0, ab[2]] if ab[0] or ab[2] else [1, 0, 1]
        for a in range(3):
            if ab[a]:
                sol["absorbing_bcs_" + "xyz"[a]] = True
            sol["n%s_pml" % "xyz"[a]] = draw(st.integers(1, min(n[a], n[a] // 2 + g[a])))
    if dim == 2:
        n[1] = 4
    d = [draw(st.sampled_from([1e-6, 0.7e-6, 1.6e-6])) for _ in range(3)]
    org = [draw(st.sampled_from([0., -0.5, 0.37])) * n[k] * d[k] for k in range(3)]
    sp = []
    for k in range(draw(st.sampled_from([0, 1, 1, 2, 3]))):
        f = [sorted([draw(st.floats(-0.1, 1.1)), draw(st.floats(-0.1, 1.1))]) if draw(st.booleans()) else [-0.1, 1.1] for _ in range(3)]
        s = dict(name="s%d" % k, mass=draw(st.sampled_from([1., 1836.])), charge=draw(st.sampled_from([1., -1., 2.])), nppcell=draw(st.sampled_from([1, 2, 4])))
        for a in range(3):
            x = "xyz"[a]
            s[x + "_min"], s[x + "_max"] = [org[a] + q * n[a] * d[a] for q in f[a]]
            s["vdrift_" + x] = draw(st.sampled_from([0., 0.3, -0.2]))
            s["vth_" + x] = draw(st.sampled_from([0., 0.08]))
        sp.append(s)
    extra = []
    if sp and maybe(draw):
        extra.append(("sorting", dict(activation=1, **{"d" + x: draw(st.sampled_from([0.5, 1., 2.])) for x in "xyz"},
                                      **{"shift" + x: draw(st.sampled_from([0., 0.5, -0.3])) for x in "xyz"})))
        for s in sp:
            s.update(sorting_period=draw(st.integers(1, 2)), sorting_start=draw(st.integers(0, 1)))
    las = draw(st.sampled_from([0, 0, 0, 1, 2]))
    for k in range(las):
        a = draw(f22.case(dim))
        a["spot"] = [org[q] + draw(st.floats(0.1, 0.9)) * n[q] * d[q] for q in range(3)]
        a["a"] = [x * 0.05 for x in a["a"]]
        extra.append(("antenna", f22.section(a)))
    steps = draw(st.integers(1, 5))
    if maybe(draw):
        extra.append(("output", dict({"output_frequency": draw(st.integers(1, 3)), "output_step_min": 0, "output_step_max": steps},
                                     **{q: 1 for q in sorted(draw(st.sets(st.sampled_from("ex ey ez bx by bz jx jy jz rho dive divj divb".split()), min_size=1)))})))
        for s in sp:
            if draw(st.booleans()):
                extra.append(("particle_dump", dict(species_name=s["name"], diag_period=draw(st.integers(1, 3)), **{"dump_u%s_%s" % (x, m): v for x in "xyz" for m, v in (("min", -1e12), ("max", 1e12))})))
    if sp and maybe(draw):
        extra.append(("temporal", dict({"frequency": draw(st.integers(1, 3)), "format": draw(st.integers(0, 1))},
                                       **{q: 1 for q in sorted(draw(st.sets(st.sampled_from("kinE exE eyE ezE bxE byE bzE divE-rho rho divE".split()), min_size=1)))})))
    if maybe(draw, 1, 5):
        extra.append(("timestat", dict(activation=1, period=draw(st.integers(1, 2)), it_start=0, buffersize=draw(st.integers(1, 3)))))
    cpu = dict(topology=draw(st.integers(0, 2)) if kind in ("fdtd", "local", "pml") else 0, mpicom_curr=draw(st.integers(0, 2)), partcom=draw(st.integers(0, 2)),
               fg_p_pp_separated=draw(st.integers(0, 2)), lvec_curr_depo=draw(st.sampled_from([8, 4, 16])), lvec_charge_depo=draw(st.sampled_from([8, 4, 64])),
               lvec_fieldgathe=draw(st.sampled_from([8, 1, 64])), mpi_buf_size=draw(st.sampled_from([10, 2000])))
    return dict(dim=dim, kind=kind, n=n, split=split, d=d, org=org, g=g, jg=jg, tiles=[draw(st.integers(1, 3)) for _ in range(3)], sp=sp, sol=sol, cpu=cpu,
                plasma=dict(nlab=draw(st.sampled_from([0.01, 0.1])) ** 2 * C ** 2 / min(d) ** 2 * EPS0 * ME / QE ** 2, pdistr=draw(st.sampled_from([1, 1, 2, 3])),
                            particle_pusher=draw(st.integers(0, 1))),
                extra=extra, steps=steps, threads=draw(st.sampled_from([1, 1, 2, 3])))


def run(c):
    dk = mkdeck(c["dim"], c["n"], c["split"], d=c["d"], org=c["org"], guards=c["g"], jguards=c["jg"], tiles=c["tiles"], species=c["sp"], cpu=c["cpu"],
                solver=c["sol"], plasma=c["plasma"], extra=c["extra"], main=dict(nsteps=c["steps"]))
    with sim.run(dk, ["step %d" % c["steps"], "dumpf e", "dumpp p"], int(np.prod(c["split"])), which="asan", threads=c["threads"], timeout=200, allow_fail=True,
                 env=dict(ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=77")) as r:
        t = r.text("log") if os.path.exists(os.path.join(r.d, "log")) else ""
        i = t.find("ERROR: AddressSanitizer")
        if i >= 0:
            raise Violation("memory error: " + " ".join(t[i:i + 900].split()))
        if not r.ok:
            raise Violation("the run did not reach its end (exit %s): ...%s" % (r.rc, "\n".join(l for l in t.splitlines() if l.strip())[-900:]))
        for p, f in enumerate(r.dumps("e")):
            for q in "ex ey ez bx by bz jx jy jz".split():
                if not np.isfinite(f.cells(q)).all():
                    raise Violation("process %d: %s is not finite after %d steps" % (p, q, c["steps"]))
        for p, f in enumerate(r.dumps("p")):
            for k in range(len(c["sp"])):
                R = f.parts(k + 1)[:, [0, 2, 3, 4, 5, 6, 13]]
                if not np.isfinite(R).all():
                    raise Violation("process %d: records of species %d are not finite after %d steps" % (p, k + 1, c["steps"]))
    names = [e[0] for e in c["extra"]]
    score = [np.prod(c["split"]) > 1, np.prod(c["tiles"]) > 1, c["threads"] > 1, len(c["sp"]) > 0, "antenna" in names, "output" in names, c["kind"] != "fdtd"]
    return {"nontrivial": sum(bool(x) for x in score) >= 2, "labels": ["%dD" % c["dim"], c["kind"], "%d threads" % c["threads"], "%d species" % len(c["sp"])] + sorted(set(names))}


PARTS = [Part("run3d", case(3), run, quick=105, thorough=4000, shards=7, timeout=220),
         Part("run2d", case(2), run, quick=84, thorough=4000, shards=7, timeout=220)]
