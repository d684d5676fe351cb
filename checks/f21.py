from checks.simc import *
import os
PID = "F21"
RULE = ("A case is a generated input file (random sections, keys, order, spacing, comments, prose between sections) and generated command-line overrides "
        "given to the program: non-trivial when at least three keys are set.")
ASSUMPTIONS = ["the layout the reader is written for: one key per line, at most a few blanks after '=' (integers are read from ten characters), every section except "
               "species, antenna and particle_dump at most once, section main before particle_dump and a species before the dump that names it, '#' anywhere "
               "makes the line a comment", "species names differ"]
K = 0
# key: (kind, entry of the dump)
I, R, L, A = "i", "r", "l", "a"


def xyz(pat, kind, out):
    return {pat % a: (kind, out % a) for a in "xyz"}


CPU = dict(xyz("nproc%s", I, "nproc%s"), topology=(I, "topology"), mpicom_curr=(I, "mpicom_curr"), partcom=(I, "partcom"), fg_p_pp_separated=(I, "fg_p_pp"),
           particle_pusher=(I, "pusher"), lvec_curr_depo=(I, "lvec_curr"), lvec_charge_depo=(I, "lvec_charge"), lvec_fieldgathe=(I, "lvec_fg"),
           mpi_buf_size=(I, "mpi_buf_size"), c_dim=(I, "c_dim"))
PLASMA = dict(nlab=(R, "nlab"), gamma0=(R, "g0"), pdistr=(A, "pdistr"), particle_pusher=(I, "pusher"))
SOLVER = dict(dict(xyz("norder%s", I, "norder%s"), **xyz("no%s", I, "no%s")), **dict(xyz("n%s_pml", I, "n%spml"), **xyz("absorbing_bcs_%s", L, "absorb_%s")))
SOLVER.update(currdepo=(I, "currdepo"), fieldgathe=(I, "fieldgathe"), rhodepo=(I, "rhodepo"), partcom=(I, "partcom"), mpi_buf_size=(I, "mpi_buf_size"),
              lvec_curr_depo=(I, "lvec_curr"), lvec_charge_depo=(I, "lvec_charge"), lvec_fieldgathe=(I, "lvec_fg"), l_spectral=(L, "l_spectral"), g_spectral=(L, "g_spectral"),
              l_staggered=(L, "l_staggered"), fftw_with_mpi=(L, "fftw_with_mpi"), fftw_mpi_transpose=(L, "fftw_mpi_tr"), fftw_hybrid=(L, "fftw_hybrid"),
              p3dfft_flag=(L, "p3dfft"), nb_group_z=(I, "nb_group_z"), fg_p_pp_separated=(I, "fg_p_pp"))
SORTING = dict(dict(xyz("d%s", R, "sorting_d%s"), **xyz("shift%s", R, "sorting_s%s")), activation=(I, "sorting"), verbose=(L, "sorting_verb"))
TIMESTAT = dict(activation=(I, "ts_act"), period=(I, "ts_period"), it_start=(I, "ts_start"), per_it=(I, "ts_perit"), buffersize=(I, "ts_nbuf"))
MAIN = dict(dict(xyz("n%s", I, "n%s_global_grid"), **xyz("ntile%s", I, "ntile%s")), **dict(xyz("d%s", R, "d%s"), **xyz("%smin", R, "%smin")))
MAIN.update(dict(xyz("%smax", R, "%smax"), **dict(xyz("nguards%s", I, "n%sguards"), **xyz("njguards%s", I, "n%sjguards"))))
MAIN.update(dict(xyz("ngguards_%s", I, "n%sg_group"), t_max=(R, "tmax"), nsteps=(A, "nsteps"), dtcoef=(R, "dtcoef"), l_plasma=(L, "l_plasma"), c_dim=(I, "c_dim")))
OUTPUT = dict(output_frequency=(I, "out_freq"), output_step_min=(I, "out_min"), output_step_max=(I, "out_max"))
OUTPUT.update({k: (I, "c_" + k) for k in ["ex", "ey", "ez", "bx", "by", "bz", "jx", "jy", "jz", "rho", "dive", "divj", "divb"]})
TEMPORAL = dict(frequency=(I, "td_freq"), format=(I, "td_format"))
TEMPORAL.update({k: (I, "td_act%d" % (i + 1)) for i, k in enumerate(["kinE", "exE", "eyE", "ezE", "bxE", "byE", "bzE", "divE-rho", "rho", "divE"])})
SEC = dict(main=MAIN, cpusplit=CPU, plasma=PLASMA, solver=SOLVER, sorting=SORTING, timestat=TIMESTAT, output=OUTPUT, temporal=TEMPORAL)
# position in the dumped vector, factor
SPECIES = dict(charge=(R, 0, QE), mass=(R, 1, ME), nppcell=(I, 14, 1), sorting_period=(A, 15, 1), sorting_start=(A, 16, 1))
for a in range(3):
    SPECIES["%s_min" % "xyz"[a]] = (R, 2 + 2 * a, 1)
    SPECIES["%s_max" % "xyz"[a]] = (R, 3 + 2 * a, 1)
    SPECIES["vdrift_%s" % "xyz"[a]] = (R, 8 + a, C)
    SPECIES["vth_%s" % "xyz"[a]] = (R, 11 + a, C)
DUMP = dict(diag_period=(I, 1))
for a in range(3):
    for q, e in enumerate(["min", "max"]):
        DUMP["dump_%s_%s" % ("xyz"[a], e)] = (R, 2 + 2 * a + q)
        DUMP["dump_u%s_%s" % ("xyz"[a], e)] = (R, 8 + 2 * a + q)
ANT = dict(lambda_laser=(R, 24), laser_ctau=(R, 19), t_peak=(R, 21), laser_a_1=(R, 12), laser_a_2=(R, 13), laser_w0=(R, 16), polangle=(R, 23), temporal_order=(I, 26), window=(I, 27))
for a in range(3):
    ANT["spot_%s" % "xyz"[a]] = (R, a)
    ANT["vector_%s" % "xyz"[a]] = (R, 3 + a)
    ANT["pvec_%s" % "xyz"[a]] = (R, 6 + a)
ANTDEF = {k: 0. for k in list(range(14)) + [16, 19, 21, 23, 24, 27]}
ANTDEF[26] = 2.
for k in (14, 15):
    ANTDEF.pop(k, None)
# command line: key -> (kind, entries)
CL = dict(dict(xyz("ntile%s", I, "ntile%s"), **xyz("nproc%s", I, "nproc%s")), **dict(xyz("no%s", I, "no%s"), **xyz("n%s", A, "n%s_global_grid")))
CL.update(dict(xyz("absorbing_bcs_%s", L, "absorb_%s"), **dict(xyz("n%spml", I, "n%spml"), **xyz("ngguards_%s", A, "n%sg_group"))))
CL.update(distr=(I, "pdistr"), tmax=(R, "tmax"), nsteps=(A, "nsteps"), dtcoef=(R, "dtcoef"), fieldgathe=(A, "fieldgathe"), currdepo=(A, "currdepo"), rhodepo=(A, "rhodepo"),
          partcom=(A, "partcom"), particle_pusher=(A, "pusher"), sorting=(A, "sorting"), lvec_curr_depo=(A, "lvec_curr"), lvec_charge_depo=(A, "lvec_charge"),
          lvec_fieldgathe=(A, "lvec_fg"), l_plasma=(L, "l_plasma"), l_spectral=(L, "l_spectral"), g_spectral=(L, "g_spectral"), fftw_with_mpi=(L, "fftw_with_mpi"),
          fftw_hybrid=(L, "fftw_hybrid"), fftw_mpi_transpose=(L, "fftw_mpi_tr"), p3dfft_flag=(L, "p3dfft"), mpicom_curr=(A, "mpicom_curr"), mpi_buf_size=(A, "mpi_buf_size"),
          nb_group_z=(A, "nb_group_z"), c_dim=(A, "c_dim"), nguardsx=(A, "nxguards"), nguardsy=(A, "nyguards"), nguardsz=(A, "nzguards"))
DEF = dict(c_dim=3, ntilex=1, ntiley=1, ntilez=1, norderx=2, nordery=2, norderz=2, nxpml=0, nypml=0, nzpml=0, absorb=0, absorb_x=0, absorb_y=0, absorb_z=0, l_spectral=0,
           g_spectral=0, l_staggered=1, nb_group_x=1, nb_group_y=1, nb_group_z=1, nox=1, noy=1, noz=1, nxguards=2, nyguards=2, nzguards=2, nxjguards=2, nyjguards=2, nzjguards=2,
           topology=0, mpicom_curr=1, currdepo=0, rhodepo=0, fieldgathe=0, partcom=0, pusher=0, fg_p_pp=0, lvec_curr=8, lvec_charge=64, lvec_fg=256, mpi_buf_size=2000, sorting=0,
           sorting_dx=1, sorting_dy=1, sorting_dz=1, sorting_sx=0, sorting_sy=0, sorting_sz=0, ts_act=0, ts_period=0, ts_start=0, ts_perit=0, ts_nbuf=1, dtcoef=.7, tmax=0, nsteps=0,
           nlab=1e23, g0=1, nspecies=0, npdumps=0, l_plasma=1, pdistr=1, pbxmin=0, pbxmax=0, pbymin=0, pbymax=0, pbzmin=0, pbzmax=0, td_freq=0, td_format=0, fftw_with_mpi=0,
           fftw_hybrid=0, fftw_mpi_tr=0, p3dfft=0, out_freq=-1, out_min=0, c_ex=0, c_ey=0, c_ez=0, c_bx=0, c_by=0, c_bz=0, c_jx=0, c_jy=0, c_jz=0, c_rho=0, c_dive=0, c_divj=0, c_divb=0)
BASE = {}


def prepare():
    sim.prepare()


ints = st.one_of(st.integers(0, 20), st.integers(-3, 100000), st.integers(0, 999999999))
reals = st.one_of(st.integers(-1000, 1000).map(lambda k: k / 8.), st.floats(-1e3, 1e3, allow_nan=False).map(lambda x: 0. if abs(x) < 1e-30 else x),
                  st.tuples(st.floats(1, 9.99), st.integers(-25, 25), st.sampled_from([1, -1])).map(lambda t: t[0] * 10. ** t[1] * t[2]))


@st.composite
def value(draw, kind):
    if kind in (I, A):
        return draw(ints)
    if kind == L:
        return draw(st.booleans())
    return draw(reals)


@st.composite
def written(draw, kind, v):
    if kind in (I, A):
        s = "%d" % v
        return draw(st.sampled_from(["", " ", "  "])) + s if len(s) < 8 else draw(st.sampled_from(["", " "])) + s if len(s) < 10 else s
    b = draw(st.sampled_from(["", " ", "   "]))
    if kind == L:
        return b + draw(st.sampled_from([".TRUE.", "T", ".true.", "True"] if v else [".FALSE.", "F", ".false.", "False"]))
    r = repr(v)
    f = draw(st.integers(0, 3))
    if f == 1 and "e" in r:
        r = r.replace("e", "d")
    elif f == 2:
        r = "%.17E" % v
    elif f == 3 and v == int(v) and abs(v) < 1e6:
        r = "%d" % v
    return b + r


NOISE = ["", "   ", "# a comment", "#nx = 7", "# end::main", "#section::species", "  # ntilex = 3  currdepo = 5", "nproc = x # y = 3"]
PROSE = ["", "The run of Monday", "nx = 999", "ntilex=5", "charge = 7.", "section::nothing", "end::main", "# section::main", "section of the notes"]


@st.composite
def body(draw, keys):
    """[(text, key or None, value)], keys: {name: kind}"""
    ks = draw(st.one_of(st.lists(st.sampled_from(sorted(keys)), max_size=6), st.permutations(sorted(keys))))
    out = []
    for k in ks:
        if draw(st.integers(0, 5)) == 0:
            out.append((draw(st.sampled_from(NOISE)), None, None))
        v = draw(value(keys[k]))
        eq = draw(st.sampled_from([" =", "=", "   ="]))
        out.append((draw(st.sampled_from(["", "  ", "      "])) + k + eq + draw(written(keys[k], v)) + draw(st.sampled_from(["", "  "])), k, v))
    return out


@st.composite
def case(draw):
    fixed = draw(st.lists(st.sampled_from(sorted(SEC)), unique=True, max_size=8))
    if draw(st.booleans()):
        fixed = [s for s in draw(st.permutations(sorted(SEC)))]
    secs = [[s, draw(body({k: q[0] for k, q in SEC[s].items()}))] for s in fixed]
    names = draw(st.lists(st.sampled_from(["electron", "electrons", "e", "ion", "ions2", "proton", "p+", "electron_2"]), unique=True, max_size=3))
    for nm in names:
        b = draw(body({k: q[0] for k, q in SPECIES.items()}))
        b.insert(draw(st.integers(0, len(b))), ("name=" + draw(st.sampled_from(["", " "])) + nm, "name", nm))
        secs.append(["species", b])
    for _ in range(draw(st.sampled_from([0, 0, 0, 1, 2]))):
        secs.append(["antenna", draw(body({k: q[0] for k, q in ANT.items()}))])
    for _ in range(draw(st.sampled_from([0, 0, 1, 2])) if names else 0):
        b = draw(body({k: q[0] for k, q in DUMP.items()}))
        nm = draw(st.sampled_from(names))
        b.insert(draw(st.integers(0, len(b))), ("species_name=" + nm, "species_name", nm))
        secs.append(["particle_dump", b])
    # any order, species before the dumps that name them, main before the dumps
    order = draw(st.permutations(range(len(secs))))
    secs = [secs[k] for k in order]
    secs = [s for s in secs if s[0] != "particle_dump"] + [s for s in secs if s[0] == "particle_dump"]
    cut_ = len([s for s in secs if s[0] != "particle_dump"])
    if cut_ < len(secs) and draw(st.booleans()):
        # main and the species first, everything else mixed with the dumps
        first = [s for s in secs if s[0] in ("main", "species")]
        rest = [s for s in secs if s[0] not in ("main", "species")]
        secs = first + [rest[k] for k in draw(st.permutations(range(len(rest))))]
    text = []
    for name, b in secs:
        if draw(st.integers(0, 3)) == 0:
            text.append(draw(st.sampled_from(PROSE)))
        text.append(draw(st.sampled_from(["", "  "])) + "section::" + name + draw(st.sampled_from(["", "  "])))
        text += [t for t, _, _ in b]
        text.append(draw(st.sampled_from(["", "  "])) + "end::" + name)
    cl = []
    if draw(st.booleans()):
        for k in draw(st.lists(st.sampled_from(sorted(CL)), max_size=10)):
            v = draw(value(CL[k][0]))
            cl.append([k, v, draw(written(CL[k][0], v)).strip()])
    return {"secs": [[n, [[k, v] for _, k, v in b if k]] for n, b in secs], "text": text, "cl": cl,
            "file": draw(st.sampled_from([None, None, "deck.pixr", "my_run-2.pixr"])), "nl": draw(st.booleans())}


def start(text, args, file):
    files = {"deckonly.txt": "1\n"}
    if file:
        files[file] = text
        text = "section::main\n nx = 77\n nsteps = 13\nend::main\n"
        args = [file] + args
    with sim.run(text, ["barrier"], files=files, args=args) as r:
        return r.dumps("deck")[0]


def expected(c):
    if not BASE:
        D = start("", [], None)
        for k, v in DEF.items():
            if not D.s[k] == v:
                raise Violation("default of %s: %r instead of %r" % (k, D.s[k], v))
        BASE.update(D.s)
    e = dict(BASE)
    sp, dumps = [], []
    for n, b in c["secs"]:
        if n in SEC:
            for k, v in b:
                e[SEC[n][k][1]] = float(v)
                if n == "main" and k[:7] == "nguards":
                    e["n%sg_group" % k[7]] = float(v)
                if n == "solver" and k.startswith("absorbing") and any(e["absorb_" + a] for a in "xyz"):
                    pass
            if n == "solver" and any(e["absorb_" + a] for a in "xyz"):
                e["absorb"] = 1.
        elif n == "species":
            s = {k: 0. for k in range(20)}
            s[0], s[1] = -QE, ME
            # deposition flag and freeze flag are not read from the file
            for k, v in b:
                if k == "name":
                    nm = v
                else:
                    s[SPECIES[k][1]] = float(v) * SPECIES[k][2]
            sp.append((nm, s, None))
        elif n == "antenna":
            a = dict(ANTDEF)
            for k, v in b:
                a[ANT[k][1]] = float(v)
            for q in (1., -1.):
                s = {k: 0. for k in range(20)}
                s[0], s[1], s[14], s[17], s[19] = q, ME, 1., 1., 1.
                sp.append(("laser_antenna", s, a))
        else:
            p = {0: -1., 1: -1.}
            for a in range(3):
                p[2 + 2 * a], p[3 + 2 * a] = e["xyz"[a] + "min"], e["xyz"[a] + "max"]
                p[8 + 2 * a], p[9 + 2 * a] = 1e7, 1e9
            for k, v in b:
                if k == "species_name":
                    p[0] = 1. + [q[0] for q in sp].index(v)
                else:
                    p[DUMP[k][1]] = float(v)
            dumps.append(p)
    for k, v, _ in c["cl"]:
        e[CL[k][1]] = float(v)
        if k[:7] == "nguards":
            e["n%sjguards" % k[7]] = float(v)
    if any(e["absorb_" + a] for a in "xyz"):
        e["absorb"] = 1.
    e["nspecies"], e["npdumps"] = float(len(sp)), float(len(dumps))
    return e, sp, dumps


def same(a, b):
    return a == b or abs(a - b) <= 4e-16 * abs(b) or (a != a and b != b)


def run(c):
    e, sp, dumps = expected(c)
    D = start("\n".join(c["text"]) + ("\n" if c["nl"] else ""), [q for k, _, w in c["cl"] for q in (k, w)], c["file"])
    for k, v in D.s.items():
        if k in e and not same(v, e[k]):
            raise Violation("%s is %r, expected %r" % (k, v, e[k]))
    for i, (nm, s, a) in enumerate(sp):
        v = D.a["sp%d" % (i + 1)]
        for k, w in s.items():
            if k in (17, 18) and a is None:
                continue
            if k == 19:
                if bool(v[k]) != bool(w):
                    raise Violation("species %d: antenna flag %r" % (i + 1, v[k]))
            elif k == 18:
                continue
            elif not same(v[k], w):
                raise Violation("species %d (%s) value %d is %r, expected %r" % (i + 1, nm, k, v[k], w))
        if int(v[24]) != len(nm) or [chr(int(q)) for q in v[20:20 + min(4, len(nm))]] != list(nm[:4]):
            raise Violation("species %d: name is not %s" % (i + 1, nm))
        if a is not None:
            w = D.a["an%d" % (i + 1)]
            for k, q in a.items():
                if not same(w[k], q):
                    raise Violation("antenna of species %d value %d is %r, expected %r" % (i + 1, k, w[k], q))
    for i, p in enumerate(dumps):
        w = D.a["pd%d" % (i + 1)]
        for k, q in p.items():
            if not same(w[k], q):
                raise Violation("particle dump %d value %d is %r, expected %r" % (i + 1, k, w[k], q))
    n = sum(len(b) for _, b in c["secs"]) + len(c["cl"])
    return {"keys": n, "nontrivial": n >= 3, "labels": ["%d keys %d args" % (min(n, 40) // 10 * 10, min(len(c["cl"]), 1))]}


# ---- what the start-up derives from the input -------------------------------------------------

@st.composite
def full(draw):
    dim = draw(st.sampled_from([2, 3]))
    sp = draw(splits(dim))
    while int(np.prod(sp)) > 2:
        sp = draw(splits(dim))
    n = [draw(st.integers(max(4, 4 * s), 14)) for s in sp]
    c = {"dim": dim, "n": n, "split": sp, "d": [draw(st.sampled_from([1e-6, 2.5e-7, 1., 3e-5])) for _ in range(3)], "org": [draw(st.sampled_from([0., -3e-6, 1e-5])) for _ in range(3)],
         "tiles": [draw(st.integers(1, 3)) for _ in range(3)], "nsteps": draw(st.integers(0, 50)), "tmax": draw(st.floats(.1, 40.)), "nlab": 10. ** draw(st.integers(18, 26)),
         "g0": draw(st.sampled_from([1., 2., 13.])), "dtcoef": draw(st.sampled_from([.5, .7, 1.])), "sort": [draw(st.integers(1, 16)) / 4. for _ in range(6)], "cl": {}}
    keys = ["nx", "ny", "nz", "ntilex", "ntiley", "ntilez", "nsteps", "dtcoef", "nguardsx", "nguardsy", "nguardsz", "nprocx", "nprocz"]
    for k in draw(st.lists(st.sampled_from(keys), unique=True, max_size=5)):
        if k[:5] == "nproc":
            continue
        c["cl"][k] = draw({"nx": st.integers(9, 15), "ny": st.integers(9, 15), "nz": st.integers(9, 15), "nsteps": st.integers(0, 9), "dtcoef": st.sampled_from([.3, .9])}.get(
            k, st.integers(1, 2) if "tile" in k else st.integers(3, 4)))
    if draw(st.booleans()):
        c["cl"].update({"nproc" + a: sp[i] for i, a in enumerate("xyz")})
        c["file_split"] = [1, 1, 1]
    return c


def runf(c):
    dim, n, cl = c["dim"], list(c["n"]), c["cl"]
    org, d = c["org"], c["d"]
    hi = [org[a] + n[a] * d[a] for a in range(3)]
    fs = c.get("file_split", c["split"])
    deck = mkdeck(dim, n, fs, d, org, tiles=c["tiles"], main={"nsteps": c["nsteps"], "t_max": c["tmax"], "dtcoef": c["dtcoef"]}, plasma={"nlab": c["nlab"], "gamma0": c["g0"]},
                  extra=[("sorting", {"dx": c["sort"][0], "dy": c["sort"][1], "dz": c["sort"][2], "shiftx": c["sort"][3], "shifty": c["sort"][4], "shiftz": c["sort"][5]})])
    args = [q for k, v in cl.items() for q in (k, sim.fmt(v))]
    P = int(np.prod(c["split"]))
    with sim.run(deck, ["deck deck"], nproc=P, args=args) as r:
        D = r.dumps("deck")
    D0 = D[0]
    nn = [cl.get("n" + a, n[i] + 1) - 1 for i, a in enumerate("xyz")]
    ax = (0, 1, 2) if dim == 3 else (0, 2)
    dd = list(d)
    for a in ax:
        k = "xyz"[a]
        if D0.i("n%s_global" % k) != nn[a]:
            raise Violation("n%s_global is %d for %d grid points" % (k, D0.i("n%s_global" % k), nn[a] + 1))
        dd[a] = (hi[a] - org[a]) / nn[a]
        for key, w in (("d" + k, dd[a]), (k + "min", org[a]), (k + "max", hi[a]), ("sorting_d" + k, c["sort"][a] * dd[a]), ("sorting_s" + k, c["sort"][3 + a] * dd[a])):
            if not abs(D0[key] - w) <= 1e-12 * max(abs(w), dd[a]):
                raise Violation("%s is %r, expected %r" % (key, D0[key], w))
        for q in D:
            if q.i("nproc" + k) != c["split"][a]:
                raise Violation("nproc%s is %d, expected %d" % (k, q.i("nproc" + k), c["split"][a]))
            t = cl.get("ntile" + k, c["tiles"][a])
            loc = q.i("n%s_grid" % k) if q.i("n%s_grid" % k) else 0
            if q.i("ntile" + k) not in ((t,) if nn[a] // c["split"][a] // t >= 5 else (t, 1)):
                raise Violation("ntile%s is %d, expected %d" % (k, q.i("ntile" + k), t))
            g = cl.get("nguards" + k, 3)
            if q.i("n%sguards" % k) != g or q.i("n%sjguards" % k) != g:
                raise Violation("guard cells along %s: %d and %d, expected %d" % (k, q.i("n%sguards" % k), q.i("n%sjguards" % k), g))
    cfl = cl.get("dtcoef", c["dtcoef"]) / (C * math.sqrt(sum(1 / dd[a] ** 2 for a in ax)))
    if not abs(D0["dt"] - cfl) <= 1e-12 * cfl:
        raise Violation("dt is %r, expected %r" % (D0["dt"], cfl))
    w0 = QE * math.sqrt(c["nlab"] / (ME * EPS0))
    ns = cl.get("nsteps", c["nsteps"])
    if ns == 0:
        x = c["tmax"] / (w0 * cfl)
        if x < 2e9 and abs(D0["nsteps"] - x) > .5 + 1e-9 * x:
            raise Violation("nsteps is %d, t_max over the time step is %g" % (D0.i("nsteps"), x))
    else:
        if D0.i("nsteps") != ns:
            raise Violation("nsteps is %d, expected %d" % (D0.i("nsteps"), ns))
        if not abs(D0["tmax"] - ns * w0 * cfl) <= 1e-11 * ns * w0 * cfl:
            raise Violation("tmax is %r, expected %r" % (D0["tmax"], ns * w0 * cfl))
    return {"nontrivial": True, "labels": ["%dd %dp %s" % (dim, P, "cl" if cl else "file")]}


PARTS = [Part("deck", case(), run, 500, 8000, shards=4, thorough_shards=8),
         Part("start", full(), runf, 80, 1500, shards=4, thorough_shards=8)]
