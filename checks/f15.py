from checks.simc import *
from collections import Counter
PID = "F15"
RULE = ("A case is a generated deck (2D or 3D, tiles, initial capacity) and a generated history of up to 40 operations that add, remove and resize "
        "(add by position, at a tile, in groups, through the Python entry point; remove by index, with species count, by mask; resize), checked after "
        "every operation: non-trivial when something is removed after the arrays grew.")
ASSUMPTIONS = ["the order of records inside a tile is not specified", "indices, tiles and sizes passed are valid ones"]


def prepare():
    sim.prepare()


@st.composite
def case(draw, dim, big=False):
    t = [draw(st.integers(1, 3)) for _ in range(3)]
    if dim == 2:
        t[1] = 1
    n = [max(5, 4 * t[k]) + draw(st.integers(0, 5)) for k in range(3)]
    ns = draw(st.integers(1, 2))
    ops = []
    hot = [draw(st.integers(0, 2)) for _ in range(3)] if draw(st.booleans()) else None  # many operations on one tile
    kinds = ["add", "add", "add", "addat", "addat", "rm", "rm", "rmsp", "mask", "group", "resize", "fill", "drain"] + (["pyadd"] if dim == 3 else [])
    for _ in range(draw(st.integers(1, 120 if big else 40))):
        o = {"o": draw(st.sampled_from(kinds)), "s": draw(st.integers(1, ns)), "k": draw(st.integers(0, 10 ** 6))}
        tl = hot if hot and draw(st.booleans()) else [draw(st.integers(0, 2)) for _ in range(3)]
        o["t"] = [1 + tl[k] % t[k] for k in range(3)]
        if o["o"] in ("group", "pyadd", "fill", "drain"):
            o["n"] = draw(st.integers(1, 30))
        if o["o"] == "add":
            o["edge"] = draw(st.booleans())
        ops.append(o)
    return {"dim": dim, "n": n, "tiles": t, "ns": ns, "ppc": [draw(st.sampled_from([0, 0, 1, 2])) for _ in range(ns)], "ops": ops,
            "org": [draw(st.sampled_from([0., -3.3e-6, 7.1e-5])) for _ in range(3)], "seed": draw(st.integers(0, 2 ** 31))}


def run(c):
    rng = np.random.default_rng(c["seed"])
    dim, n, ns = c["dim"], c["n"], c["ns"]
    ax = [0, 1, 2] if dim == 3 else [0, 2]
    d = np.array([1e-6, 0.7e-6, 1.3e-6])
    org = np.array(c["org"])
    uid = [0]

    def rec(edge=False):
        x = rng.random(3)
        for k in ax:
            if edge:
                x[k] = np.clip((np.round(x[k] * n[k] * 2) / 2 + rng.choice([0, 1e-9, -1e-9])) / n[k], 0, 1 - 1e-12)
        x = org + x * np.array(n) * d
        uid[0] += 1
        r = np.zeros(10)
        r[:3] = x
        if dim == 2:
            r[1] = 0
        r[3:] = rng.normal(size=7)
        r[8] = uid[0]
        return r

    txt = lambda r: " ".join("%.17g" % v for v in r)
    tiles = [(s, a, b, e) for s in range(1, ns + 1) for a in range(1, c["tiles"][0] + 1) for b in range(1, c["tiles"][1] + 1) for e in range(1, c["tiles"][2] + 1)]
    # the model follows each record from dump to dump; only counts are needed to build a valid history, and those follow
    # from the operations once the tile of a record added by position is known: such records never share a tile with an index-based removal
    cnt = {t: 0 for t in tiles}
    free = {t: 0 for t in tiles}  # lower bound of the count of each tile
    lines, plan = [], []
    for o in c["ops"]:
        t = (o["s"],) + tuple(o["t"])
        k, kind = o["k"], o["o"]
        at = "%d %d %d %d" % t
        todo = []
        if kind == "add":
            r = rec(o["edge"])
            todo.append(("tiles add %d %s" % (o["s"], txt(r)), ("+", o["s"], None, [r], 1)))
        elif kind == "pyadd":
            rs = [rec() for _ in range(o["n"])]
            todo.append(("tiles pyadd %d %d %s" % (o["s"], len(rs), " ".join(txt(r) for r in rs)), ("+", o["s"], None, rs, len(rs))))
        elif kind in ("addat", "fill"):
            for _ in range(o.get("n", 1)):
                r = rec()
                todo.append(("tiles addat %s %s" % (at, txt(r)), ("+", o["s"], t, [r], 0)))
        elif kind == "group":
            rs = [rec() for _ in range(o["n"])]
            todo.append(("tiles group %s %d %s" % (at, len(rs), " ".join(txt(r) for r in rs)), ("+", o["s"], t, rs, 0)))
        elif kind in ("rm", "rmsp", "drain"):
            for q in range(min(o.get("n", 1), cnt[t])):
                i = k % (cnt[t] - q) + 1
                todo.append(("tiles %s %s %d" % ("rmsp" if kind == "rmsp" else "rm", at, i), ("-", o["s"], t, i, kind == "rmsp")))
        elif kind == "mask":
            # the length of the mask must be the true count: only where nothing was added by position
            if cnt[t] and not free[t]:
                m = np.random.default_rng(k).integers(0, 2, cnt[t])
                todo.append(("tiles mask %s %d %s" % (at, cnt[t], " ".join(map(str, m))), ("m", o["s"], t, m)))
        elif kind == "resize":
            if not free[t]:
                new = max(cnt[t], 1) + k % 20
                todo.append(("tiles resize %s %d" % (at, new), ("r", o["s"], t, new)))
        for line, p in todo:
            lines += [line, "dumpp d%d" % len(plan)]
            plan.append(p)
            if p[0] == "+":
                if p[2] is None:
                    for q in tiles:
                        if q[0] == p[1]:
                            free[q] += len(p[3])
                else:
                    cnt[p[2]] += len(p[3])
            elif p[0] == "-":
                cnt[p[2]] -= 1
            elif p[0] == "m":
                cnt[p[2]] -= int((p[3] == 0).sum())
    if not plan:
        raise Discard()
    far = -1.
    sp = [dict(name="s%d" % k, nppcell=c["ppc"][k], x_min=far, x_max=far, z_min=far, z_max=far) for k in range(ns)]
    dk = mkdeck(dim, n, (1, 1, 1), d=d, org=org, tiles=c["tiles"], species=sp)
    grew = shrunk = False
    cur = {t: [] for t in tiles}
    tot = {s: 0 for s in range(1, ns + 1)}
    key = lambda p: tuple(p[:7]) + tuple(p[13:16]) if len(p) > 10 else tuple(p)
    cap = {}
    with sim.run(dk, ["dumpp d"] + lines, 1) as res:
        for j in range(-1, len(plan)):
            D = res.dumps("d" if j < 0 else "d%d" % j)[0]
            now = {}
            for s in range(1, ns + 1):
                for tix, (info, rows) in D.tiles(s).items():
                    now[(s,) + tix] = (info, [key(q) for q in rows])
            if j < 0:
                if set(now) != set(tiles):
                    raise Violation("tiles %s instead of %s" % (sorted(now), sorted(tiles)))
            what = "after operation %d (%s): " % (j + 1, lines[2 * j].split(" ", 6)[1:6] if j >= 0 else "start")
            p = plan[j] if j >= 0 else ("r", 1, None, None)
            exp = {t: Counter(v) for t, v in cur.items()}
            if p[0] == "+":
                if p[2] is not None:
                    exp[p[2]] += Counter(key(r) for r in p[3])
                else:
                    for r in p[3]:
                        hit = []
                        for t in tiles:
                            if t[0] == p[1]:
                                info = now[t][0]
                                if all(info[8 + 2 * k] - 1e-9 * d[k] - 1e-12 * abs(org[k]) <= r[k] <= info[9 + 2 * k] + 1e-9 * d[k] + 1e-12 * abs(org[k]) for k in ax) and key(r) in now[t][1]:
                                    hit.append(t)
                        if len(hit) != 1:
                            raise Violation(what + "record at %r is in %d of the tiles that hold its position" % ([float(v) for v in r[:3]], len(hit)))
                        exp[hit[0]] += Counter([key(r)])
                    tot[p[1]] += p[4]
            elif p[0] == "-":
                exp[p[2]] -= Counter([cur[p[2]][p[3] - 1]])
                if p[4]:
                    tot[p[1]] -= 1
                shrunk |= grew
            elif p[0] == "m":
                exp[p[2]] = Counter(q for q, m in zip(cur[p[2]], p[3]) if m)
                tot[p[1]] -= int((p[3] == 0).sum())
                shrunk |= grew
            for t in tiles:
                info, rows = now[t]
                got = Counter(rows)
                if got != exp[t]:
                    a, b = list((exp[t] - got).elements()), list((got - exp[t]).elements())
                    raise Violation(what + "tile %s holds %d records instead of %d; missing %r, unexpected %r" % (t, len(rows), sum(exp[t].values()), a[:1], b[:1]))
                if not (info[1] >= info[0] and info[24] >= info[1] or info[23] == 0 and info[0] == 0):
                    raise Violation(what + "tile %s: %d records, capacity %d, arrays of %d" % (t, info[0], info[1], info[24]))
                if p[0] == "r" and p[2] == t and info[1] != p[3] and info[23]:
                    raise Violation(what + "tile %s: capacity %d instead of %d" % (t, info[1], p[3]))
                grew |= t in cap and info[1] > cap[t]
                cap[t] = info[1]
                cur[t] = rows
            for s in tot:
                if D.i("npart%d" % s) != tot[s]:
                    raise Violation(what + "species %d counts %d particles instead of %d" % (s, D.i("npart%d" % s), tot[s]))
    return {"nontrivial": shrunk, "labels": sorted({o["o"] for o in c["ops"]})}


PARTS = [Part("tiles3d", case(3), run, quick=60, thorough=3000, shards=3), Part("tiles2d", case(2), run, quick=40, thorough=2000, shards=2),
         Part("long", case(3, True), run, quick=0, thorough=600)]
JOBS = 5
