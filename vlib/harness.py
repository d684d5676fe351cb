"""Common machinery of the checks: case generation with Hypothesis, sharding over processes, crash isolation,
shrinking, replay, known findings and evidence."""
import faulthandler, hashlib, importlib, json, os, signal, subprocess, sys, tempfile, time, traceback
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Violation(Exception):
    """The property is broken on this case."""


class Discard(Exception):
    """The case is outside the stated domain (counted, never a failure)."""


class Part:
    """One generated sub-check. strategy: Hypothesis strategy of a JSON-able case. run(case) raises Violation or
    returns None / {'nontrivial': bool, 'labels': [...]}"""

    def __init__(self, name, strategy, run, quick=200, thorough=None, shards=1, thorough_shards=None, timeout=90,
                 shrink_s=60, replays=3):
        self.name, self.strategy, self.run = name, strategy, run
        self.n = {"quick": quick, "thorough": thorough if thorough is not None else quick * 20}
        self.shards = {"quick": shards, "thorough": thorough_shards or max(shards, 4)}
        self.shrink_s, self.replays, self.timeout = shrink_s, replays, timeout


def canon(case):
    return json.dumps(case, sort_keys=True, default=float)


def _worker(part, seed, n, out, cur, tier, budget):
    import hypothesis as hy
    from hypothesis import HealthCheck, Phase, given, settings
    t0 = time.time()
    st = {"evaluations": 0, "discarded": 0, "skipped": 0, "nt": set(), "labels": {}, "samples": [], "best": None,
          "msg": None, "t_fail": None}

    def test(case):
        if st["t_fail"] is not None:
            if time.time() - st["t_fail"] > part.shrink_s:
                return
        elif time.time() - t0 > budget:
            st["skipped"] += 1
            return
        txt = canon(case)
        case = json.loads(txt)  # what a replay sees
        with open(cur, "w") as f:
            f.write(txt)
        try:
            info = part.run(case) or {}
        except Discard:
            st["discarded"] += 1
            return
        except Violation as e:
            if st["t_fail"] is None:
                st["t_fail"] = time.time()
            st["evaluations"] += 1
            st["best"], st["msg"] = case, str(e)
            raise
        if st["t_fail"] is None:
            st["evaluations"] += 1
            for l in info.get("labels", ()):
                st["labels"][l] = st["labels"].get(l, 0) + 1
            if info.get("nontrivial", True):
                st["nt"].add(hashlib.sha1(txt.encode()).hexdigest()[:16])
                if len(st["samples"]) < 2 and len(txt) < 4000:
                    st["samples"].append({"part": part.name, "case": case})
    f = given(part.strategy)(test)
    f = settings(max_examples=n, deadline=None, database=None, report_multiple_bugs=False, print_blob=False,
                 phases=[Phase.generate, Phase.shrink], suppress_health_check=list(HealthCheck))(f)
    f = hy.seed(seed)(f)
    err = None
    try:
        f()
    except BaseException:
        if st["best"] is None:
            err = traceback.format_exc()
    st["nt"] = sorted(st["nt"])
    st["err"] = err
    st["part"] = part.name
    st["wall"] = time.time() - t0
    tmp = out + ".tmp"
    with open(tmp, "w") as g:
        json.dump(st, g, default=float)
    os.rename(tmp, out)


def _fork(fn, log):
    pid = os.fork()
    if pid:
        return pid
    try:
        fd = os.open(log, os.O_WRONLY | os.O_CREAT | os.O_APPEND, 0o644)
        os.dup2(fd, 1)
        os.dup2(fd, 2)
        os.setpgid(0, 0)
        faulthandler.enable()
        fn()
        os._exit(0)
    except BaseException:
        traceback.print_exc()
        os._exit(70)


def _replay_once(mod, part, case, log):
    """Runs one case in a forked process. Returns (failed, message)."""
    d = tempfile.mkdtemp(prefix="vrep")
    o = os.path.join(d, "o")

    def go():
        try:
            part.run(case)
            r = [False, ""]
        except Discard:
            r = [False, "discarded"]
        except Violation as e:
            r = [True, str(e)]
        with open(o, "w") as f:
            json.dump(r, f)
    pid = _fork(go, log)
    t0 = time.time()
    while True:
        p, stt = os.waitpid(pid, os.WNOHANG)
        if p:
            break
        if time.time() - t0 > part.timeout:
            os.killpg(pid, signal.SIGKILL)
            os.waitpid(pid, 0)
            return (True, "the code under test did not finish within %d s" % part.timeout)
        time.sleep(0.01)
    try:
        if os.path.exists(o):
            return tuple(json.load(open(o)))
    finally:
        subprocess.call(["rm", "-rf", d])
    if os.WIFSIGNALED(stt):
        return (True, "the code under test died with signal %d" % os.WTERMSIG(stt))
    if os.WIFEXITED(stt) and os.WEXITSTATUS(stt) not in (0, 70):
        return (True, "the code under test ended the process with status %d" % os.WEXITSTATUS(stt))
    return (None, "harness error in replay, see %s" % log)


def load(pid):
    return importlib.import_module("checks." + pid.lower())


def known(pid):
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    return [k for k in json.load(open(p))["findings"] if k["property"] == pid]


def main(pid, tier, replay=None, only=None, scale=1.0):
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    mod = load(pid)
    work = tempfile.mkdtemp(prefix="v%s_" % pid)
    os.environ["VERIF_WORK"] = work
    code = 2
    try:
        mod.prepare()
        t_build = time.time() - t0
        if replay:
            code = _replay(mod, pid, replay, work)
        else:
            code = _main(mod, pid, tier, seed, work, t0, t_build, only, scale)
    finally:
        subprocess.call(["rm", "-rf", work])
    return code


def _parts(mod):
    ps = mod.parts() if callable(getattr(mod, "parts", None)) else mod.PARTS
    return {p.name: p for p in ps}


def _replay(mod, pid, path, work):
    r = json.load(open(path))
    part = _parts(mod)[r["part"]]
    res, msg = _replay_once(mod, part, r["case"], os.path.join(work, "log"))
    print("part:", r["part"])
    print("case:", canon(r["case"])[:2000])
    if res:
        print("message:", msg)
        print("VIOLATION property=%s replay=%s" % (pid, path))
        return 1
    print("no violation on this case (%s)" % msg)
    return 0 if res is False else 2


def _main(mod, pid, tier, seed, work, t0, t_build, only, scale):
    parts = _parts(mod)
    if only:
        parts = {k: v for k, v in parts.items() if k in only}
    parts = {k: v for k, v in parts.items() if v.n[tier] > 0}
    jobs = []
    budget = 420 if tier == "quick" else 3600 * 3
    for i, p in enumerate(parts.values()):
        sh = p.shards[tier]
        n = max(1, int(round(p.n[tier] * scale / sh)))
        for s in range(sh):
            js = int(hashlib.sha256(("%d/%s/%d" % (seed, p.name, s)).encode()).hexdigest()[:12], 16)
            jobs.append((p, s, js, n))
    jobs.sort(key=lambda j: -getattr(j[0], "weight", 1))
    running, results, crashes, errors = {}, [], [], []
    q = list(jobs)
    maxp = int(os.environ.get("VERIF_JOBS", os.cpu_count() or 8))
    jobdir = {}
    if getattr(mod, "JOBS", None):
        maxp = min(maxp, mod.JOBS)
    deadline = t0 + (780 if tier == "quick" else 3600 * 6)
    while q or running:
        while q and len(running) < maxp:
            p, s, js, n = q.pop(0)
            base = os.path.join(work, "%s-%d" % (p.name, s))
            pidn = _fork(lambda: _worker(p, js, n, base + ".out", base + ".cur", tier, budget), base + ".log")
            running[pidn] = (p, s, base)
        done, stt = os.waitpid(-1, os.WNOHANG)
        if not done:
            if time.time() > deadline:
                for k in running:
                    os.killpg(k, signal.SIGKILL)
                for k in running:
                    os.waitpid(k, 0)
                errors += ["%s-%d: time limit" % (p.name, s) for p, s, b in running.values()]
                break
            for k, (p, s, base) in running.items():
                # one case running for longer than the part allows: end it (it is then replayed like a crash)
                if os.path.exists(base + ".cur") and time.time() - os.path.getmtime(base + ".cur") > p.timeout + 10:
                    os.killpg(k, signal.SIGKILL)
            time.sleep(0.01)
            continue
        if done not in running:
            continue
        p, s, base = running.pop(done)
        if os.path.exists(base + ".out"):
            r = json.load(open(base + ".out"))
            if r["err"]:
                errors.append("%s: %s" % (p.name, r["err"]))
            results.append((p, r))
        elif os.WIFEXITED(stt) and os.WEXITSTATUS(stt) == 70:
            errors.append("%s: %s" % (p.name, open(base + ".log").read()[-3000:]))
        else:
            crashes.append((p, json.load(open(base + ".cur")) if os.path.exists(base + ".cur") else None, stt, base + ".log"))
    ev = {"evaluations": 0, "distinct_nontrivial": 0, "discarded": 0, "skipped_for_time": 0, "parts": {}, "samples": [], "labels": {}}
    nts = {}
    fails = []
    for p, r in results:
        ev["evaluations"] += r["evaluations"]
        ev["discarded"] += r["discarded"]
        ev["skipped_for_time"] += r["skipped"]
        nts.setdefault(p.name, set()).update(r["nt"])
        d = ev["parts"].setdefault(p.name, {"evaluations": 0, "wall_s": 0})
        d["evaluations"] += r["evaluations"]
        d["wall_s"] = round(max(d["wall_s"], r["wall"]), 2)
        for k, v in r["labels"].items():
            ev["labels"][p.name + ":" + k] = ev["labels"].get(p.name + ":" + k, 0) + v
        if len([x for x in ev["samples"] if x["part"] == p.name]) < 1:
            ev["samples"] += r["samples"][:1]
        if r["best"] is not None:
            fails.append((p, r["best"], r["msg"]))
    for k, v in nts.items():
        ev["parts"][k]["distinct_nontrivial"] = len(v)
    ev["distinct_nontrivial"] = sum(len(v) for v in nts.values())
    ev["rule"] = mod.RULE
    for p, case, stt, log in crashes:
        if case is None:
            errors.append("%s: worker died before its first case (%d)\n%s" % (p.name, stt, open(log).read()[-3000:]))
            continue
        fails.append((p, case, "the code under test died (wait status %d)" % stt))
    # confirm every failure by replaying it in fresh processes
    viol = []
    seen = {}
    for p, case, msg in fails:
        if seen.get(p.name, 0) >= 2:
            continue
        hits, msgs = 0, []
        for _ in range(p.replays):
            res, m = _replay_once(mod, p, case, os.path.join(work, "replay.log"))
            hits += res is True
            msgs.append(m)
        if hits == 0:
            print("NOT-REPRODUCED part=%s (%s / %s): not reported" % (p.name, msg[:300], msgs[0][:300]))
            ev.setdefault("not_reproduced", []).append({"part": p.name, "message": msg[:500]})
            continue
        seen[p.name] = seen.get(p.name, 0) + 1
        rd = os.path.join(VERIF, "replays")
        os.makedirs(rd, exist_ok=True)
        path = os.path.join(rd, "%s-%s-%s.json" % (pid, p.name, hashlib.sha1(canon(case).encode()).hexdigest()[:10]))
        with open(path, "w") as f:
            json.dump({"property": pid, "part": p.name, "case": case, "message": msg, "replayed": [hits, p.replays]}, f, indent=1)
        viol.append((p, path, msg))
    # known findings: each is a specific case, probed on every run
    nk = 0
    for k in known(pid):
        if k.get("status") == "fixed" or (only and k["part"] not in only):
            continue
        part = _parts(mod)[k["part"]]
        os.environ["VERIF_PROBE"] = "1"
        res, m = _replay_once(mod, part, k["case"], os.path.join(work, "replay.log"))
        os.environ.pop("VERIF_PROBE")
        if res:
            nk += 1
            print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
    ev["known_findings_seen"] = nk
    wall = time.time() - t0
    ev["build_s"] = round(t_build, 1)
    evd = os.path.join(VERIF, "evidence")
    os.makedirs(evd, exist_ok=True)
    if not only:
        with open(os.path.join(evd, pid + ".json"), "w") as f:
            json.dump({"property": pid, "tier": tier, "seed": seed, "level": "exploration", "coverage": ev,
                       "wall_s": round(wall, 2), "violations": len(viol), "assumptions": list(getattr(mod, "ASSUMPTIONS", []))},
                      f, indent=1, default=float)
    for p, path, msg in viol:
        print("part %s: %s" % (p.name, msg[:1500]))
        print("VIOLATION property=%s replay=%s" % (pid, path))
    for e in errors:
        print("ERROR", e[-3000:])
    print("%s %s seed=%d: %d cases, %d distinct non-trivial, %d violation(s), %d error(s), build %.1f s, total %.1f s" %
          (pid, tier, seed, ev["evaluations"], ev["distinct_nontrivial"], len(viol), len(errors), t_build, wall))
    if os.environ.get("VERIF_VERBOSE"):
        for k, d in sorted(ev["parts"].items()):
            print("   %-40s %s %s" % (k, d, {a.split(":", 1)[1]: b for a, b in ev["labels"].items() if a.split(":")[0] == k}))
    if viol:
        return 1
    return 2 if errors else 0
