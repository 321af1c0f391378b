#!/usr/bin/env python3
"""check.py PROP            run the check of one property (tier from VERIF_TIER, seed from VERIF_SEED)
   check.py replay FILE     re-execute a replay file and report what it does
   check.py selftest PROP   determinism self-test over many seeds and worker counts

Exit status: 0 held, 1 violated (and replayed), 2 the check itself failed."""
import ctypes, json, os, re, shutil, signal, struct, subprocess, sys, tempfile, threading, time, mmap
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import build as B
from plan import PLAN

NCPU = 8
MINB = float(os.environ.get("VERIF_MIN_BUDGET", "40"))   # seconds spent on minimising
HANG_CPU = 45.0     # seconds of CPU without any simulated event
HANG_LONG = 300.0   # the same, in the long histories (one event can be 4 GB of work)


def no_aslr():
    try:
        ctypes.CDLL(None).personality(0x0040000)
    except Exception:
        pass


def sim_env(env):
    e = {"PATH": "/usr/bin:/bin", "HOME": "/nonexistent", "LC_ALL": "C",
         "ASAN_OPTIONS": "detect_leaks=0:allocator_may_return_null=1:abort_on_error=0:exitcode=66:hard_rss_limit_mb=2500:"
                         "detect_stack_use_after_return=0:handle_segv=1:quarantine_size_mb=16:thread_local_quarantine_size_kb=64"}
    e.update(env)
    return e


def cpu_time(pid):
    try:
        f = open("/proc/%d/stat" % pid).read().rsplit(")", 1)[1].split()
        return (int(f[11]) + int(f[12])) / os.sysconf("SC_CLK_TCK")
    except Exception:
        return None


def read_header(path):
    try:
        with open(path, "rb") as f:
            h = f.read(40)
        if len(h) < 40:
            return None
        magic, run, count, evh, progress = struct.unpack("<QQQQQ", h)
        return (run, progress, evh, count) if magic == 0x53494d43 else None
    except OSError:
        return None


def read_choices(path):
    with open(path, "rb") as f:
        magic, run, count, evh, _ = struct.unpack("<QQQQQ", f.read(40))
        v = struct.unpack("<%dI" % count, f.read(4 * count))
    return run, list(v), "%016x" % evh


def crash_class(rc, err, timed_out):
    if timed_out:
        return "hang"
    m = re.search(r"ERROR: AddressSanitizer:? ([A-Za-z0-9_-]+)", err)
    if m:
        return "memory-error:" + m.group(1)
    if "hard rss limit exhausted" in err:
        return "memory-exhausted"
    if rc < 0:
        return "crash:signal-%d" % -rc
    m = re.search(r"Fatal error: exception ([A-Za-z_.]+)", err)
    if m:
        return "crash:exception-" + m.group(1)
    return "crash:exit-%d" % rc


def execute(cmd, env, chpath, tmo, errpath):
    """Run a simulator process under the progress watchdog.
    Returns (returncode, stdout, stderr, timed_out)."""
    e = sim_env(env)
    e["SIM_CHOICES"] = chpath
    with open(errpath, "wb") as ef, open(errpath + ".out", "wb") as of:
        p = subprocess.Popen(cmd, env=e, stdout=of, stderr=ef, stdin=subprocess.DEVNULL,
                             preexec_fn=no_aslr, cwd=os.path.dirname(errpath))
        last, mark, lastt, hung = None, 0.0, time.time(), False
        wait = 0.002
        while True:
            try:
                p.wait(wait)
                break
            except subprocess.TimeoutExpired:
                pass
            wait = min(wait * 1.5, 0.25)
            h = read_header(chpath)
            c = cpu_time(p.pid)
            if c is None:
                continue
            if (h and h[:2]) != last:
                last, mark, lastt = h and h[:2], c, time.time()
            elif c - mark > tmo or time.time() - lastt > 5 * tmo:
                hung = True
                p.kill()
                p.wait()
                break
    err = open(errpath, "rb").read().decode("latin1")
    out = open(errpath + ".out", "rb").read().decode("latin1")
    return p.returncode, out, err, hung


class Sim:
    def __init__(self, prop, work, hang=None):
        self.prop, self.work, self.n, self.hang = prop, work, 0, hang or HANG_CPU
        self.lock = threading.Lock()

    def fresh(self):
        with self.lock:
            self.n += 1
            d = os.path.join(self.work, "%s%d" % (self.prop, self.n))
        os.makedirs(d)
        return d

    def bin(self, variant):
        return os.path.join(self.work, "b", variant)

    def shard(self, pers, seed, start, stride, count, budget):
        d = self.fresh()
        out = os.path.join(d, "out.json")
        cmd = [self.bin(pers["bin"]), "run", self.prop, str(seed), str(start), str(stride), str(count), str(budget), out]
        rc, so, err, hung = execute(cmd, pers["env"], os.path.join(d, "ch"), self.hang, os.path.join(d, "err"))
        res = None
        if os.path.exists(out):
            try:
                res = json.load(open(out))
            except ValueError:
                res = None
        if res is None:
            if read_header(os.path.join(d, "ch")) is None:
                # the process died before its first run: start-up of the library itself
                res = {"violation": {"run": start, "class": "startup-" + crash_class(rc, err, hung), "detail": err[-1500:], "choices": [], "hash": "0"}}
            else:
                run, ch, h = read_choices(os.path.join(d, "ch"))
                res = {"runs": (run - start) // max(stride, 1) + 1,
                       "violation": {"run": run, "class": crash_class(rc, err, hung), "detail": tidy(err), "hash": h, "choices": ch}}
        shutil.rmtree(d)
        return res

    def replay(self, pers, choices, verbose=False, tmo=None):
        tmo = tmo or self.hang
        d = self.fresh()
        f = os.path.join(d, "script")
        with open(f, "w") as h:
            h.write(" ".join(map(str, choices)) + "\n")
        cmd = [self.bin(pers["bin"]), "replay", self.prop, f] + (["v"] if verbose else [])
        rc, so, err, hung = execute(cmd, pers["env"], os.path.join(d, "ch"), tmo, os.path.join(d, "err"))
        res = {"class": None, "hash": None, "detail": "", "used": len(choices), "trace": []}
        if verbose:
            res["trace"] = [l[4:] for l in err.splitlines() if l.startswith("  | ")]
        m = re.match(r"(OK|VIOL) ([0-9a-f]+) used=(\d+) ?(.*)", so)
        if m and rc in (0, 1) and not hung:
            res["hash"], res["used"] = m.group(2), int(m.group(3))
            if m.group(1) == "VIOL":
                res["class"], res["detail"] = m.group(4), "\n".join(so.splitlines()[1:])
        else:
            hd = read_header(os.path.join(d, "ch"))
            res["class"] = ("" if hd else "startup-") + crash_class(rc, err, hung)
            res["hash"] = "%016x" % hd[2] if hd else "0"
            res["detail"] = tidy(err)
            if hd:
                res["used"] = min(len(choices), hd[3])
        shutil.rmtree(d)
        return res


def tidy(err):
    ls = [l for l in err.splitlines() if not l.startswith("  | ")]
    keep = [l for l in ls if re.search(r"ERROR|SUMMARY|exception|Fatal|^\s*#[0-9] ", l)]
    return "\n".join(keep[:14])[:2000]


def minimise(sim, pers, choices, cls, budget, ok=None):
    """Greedy parallel shrink of the choice list: drop chunks, zero chunks, lower values."""
    t_end = time.time() + budget
    best = list(choices)
    tries = [0]

    def same(c):
        r = sim.replay(pers, c, tmo=8.0)
        return r["class"] == cls
    pred = ok or same

    def ok(c):
        tries[0] += 1
        return pred(c)

    def first(cands):
        # deterministic: the first candidate, in order, that still fails the same way
        for i in range(0, len(cands), NCPU):
            if time.time() > t_end:
                return None
            grp = cands[i:i + NCPU]
            with ThreadPoolExecutor(NCPU) as ex:
                rs = list(ex.map(ok, grp))
            for c, r in zip(grp, rs):
                if r:
                    return c
        return None

    if pred is same:
        r = sim.replay(pers, best)
        if r["class"] == cls:
            best = best[:r["used"]]
    # tail truncation
    while best and time.time() < t_end:
        n = len(best)
        c = first([best[:k] for k in sorted({0, n // 8, n // 4, n // 2, 3 * n // 4, 7 * n // 8, n - 1}) if k < n])
        if c is None:
            break
        best = c
    changed = True
    while changed and time.time() < t_end:
        changed = False
        size = max(1, len(best) // 2)
        while size >= 1 and time.time() < t_end:
            i = 0
            while i < len(best) and time.time() < t_end:
                cands = []
                for j in range(i, min(len(best), i + 4 * size), size):
                    cands.append(best[:j] + best[j + size:])
                    if any(best[j:j + size]):
                        cands.append(best[:j] + [0] * len(best[j:j + size]) + best[j + size:])
                c = first(cands)
                if c is not None:
                    best, changed = c, True
                else:
                    i += 4 * size
            size //= 2
        for i in range(len(best)):
            if time.time() > t_end:
                break
            v = best[i]
            if v > 1:
                c = first([best[:i] + [x] + best[i + 1:] for x in sorted({1, v // 8, v // 2, v - 1}) if 0 < x < v])
                if c is not None:
                    best, changed = c, True
        while best and best[-1] == 0:
            best = best[:-1]
    return best, tries[0]


def load_known(prop):
    known, p = [], os.path.join(HERE, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"known: property=(\S+) class=(\S+) match=(\S+) (.*)", l.strip())
            if m and m.group(1) == prop:
                known.append((m.group(2), m.group(3), m.group(4)))
    return known


def merge(dst, src):
    for k, v in src.items():
        dst[k] = dst.get(k, 0) + v


def main():
    if len(sys.argv) >= 3 and sys.argv[1] == "replay":
        return do_replay(sys.argv[2])
    if sys.argv[1:] == ["setup"]:
        return setup()
    if len(sys.argv) >= 3 and sys.argv[1] == "selftest":
        return selftest(sys.argv[2:])
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if len(sys.argv) > 2:
        tier = sys.argv[2]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    plan = PLAN[prop]
    t0 = time.time()
    work = tempfile.mkdtemp(prefix="cksim-%s-" % prop, dir=os.environ.get("VERIF_TMP"))
    try:
        return check(prop, plan, tier, seed, work, t0)
    finally:
        shutil.rmtree(work, ignore_errors=True)


def setup():
    """Checks that the simulator can be built and run here."""
    work = tempfile.mkdtemp(prefix="cksim-setup-", dir=os.environ.get("VERIF_TMP"))
    try:
        B.build(os.path.join(work, "b"))
        r = Sim("C02", work).shard(PLAN["C02"]["personalities"][0], 1, 0, 1, 5, 60)
        print("setup: simulator built, %d trial runs" % r.get("runs", 0))
        return 0
    except B.BuildError as e:
        print("setup: %s" % e)
        return 1
    finally:
        shutil.rmtree(work, ignore_errors=True)


def selftest(props, runs=200, reps=3, seeds=(1, 2, 3)):
    """Determinism: the same runs several times, side by side, in different processes."""
    work = tempfile.mkdtemp(prefix="cksim-self-", dir=os.environ.get("VERIF_TMP"))
    bad = 0
    try:
        B.build(os.path.join(work, "b"))
        for prop in props:
            sim = Sim(prop, work)
            pers = PLAN[prop]["personalities"]
            jobs = [(s, k, r) for s in seeds for k in range(len(pers)) for r in range(reps)]

            def go(j):
                s, k, _ = j
                d = sim.fresh()
                rc, out, err, _ = execute([sim.bin(pers[k]["bin"]), "hashes", prop, str(s), str(k), "8", str(runs)], pers[k]["env"],
                                          os.path.join(d, "ch"), HANG_CPU, os.path.join(d, "err"))
                return out if rc == 0 else out + "exit %d" % rc
            with ThreadPoolExecutor(NCPU) as ex:
                res = dict(zip(jobs, ex.map(go, jobs)))
            n = sum(x != y for (s, k, r) in jobs for x, y in zip(res[s, k, 0].splitlines(), res[s, k, r].splitlines()))
            n += sum(len(res[s, k, 0].splitlines()) != len(res[s, k, r].splitlines()) for (s, k, r) in jobs)
            print("%s: %d of %d runs differ between processes" % (prop, n, len(jobs) * runs))
            bad += n
        return 1 if bad else 0
    finally:
        shutil.rmtree(work, ignore_errors=True)


def check(prop, plan, tier, seed, work, t0):
    try:
        B.build(os.path.join(work, "b"), fast="long" in plan)
    except B.BuildError as e:
        print("check error: the simulator does not build against this tree\n%s" % e)
        return 2
    t_build = time.time() - t0
    sim = Sim(prop, work)
    pers = plan["personalities"]
    count, budget = plan[tier]["runs"], plan[tier]["budget"]
    nsh = max(NCPU, len(pers)) if tier == "quick" else max(NCPU, len(pers)) * 4
    jobs = [(pers[i % len(pers)], i) for i in range(nsh)]
    waves = (nsh + NCPU - 1) // NCPU
    t1 = time.time()
    if plan.get("cross"):
        return check_cross(prop, plan, tier, seed, sim, pers, count, budget, t0, t_build)
    ljobs = plan.get("long", {}).get(tier, [])
    lsim = Sim(prop + "L", work, HANG_LONG)
    with ThreadPoolExecutor(NCPU) as ex:
        fs = [ex.submit(lsim.shard, p, seed, 1000 * k, 1, n, 1e9) for k, (p, n) in enumerate(ljobs)]
        fs = [ex.submit(sim.shard, p, seed, i, nsh, (count + nsh - 1) // nsh, budget / waves) for p, i in jobs] + fs
        res = [f.result() for f in fs]
    lres, res = res[len(jobs):], res[:len(jobs)]
    t_sim = time.time() - t1
    # determinism: the first runs of some shards again, in fresh processes
    det, mismatch = 0, 0
    for (p, i), r in list(zip(jobs, res))[:4]:
        fr = r.get("first", [])
        if not fr or r.get("violation"):
            continue
        d = sim.fresh()
        rc, out, err, hung = execute([sim.bin(p["bin"]), "hashes", prop, str(seed), str(i), str(nsh), str(len(fr))], p["env"],
                                     os.path.join(d, "ch"), HANG_CPU, os.path.join(d, "err"))
        got = [l.split() for l in out.splitlines()]
        if [[str(a), b] for a, b in fr] != got:
            if not any(x.get("violation") for x in res):
                bad = [(x, y) for x, y in zip(fr, got) if [str(x[0]), x[1]] != y][:3]
                print("warning: %d of %d repeated runs were not identical: %s" % (len(bad), len(fr), bad))
                mismatch += len(bad)
        det += len(fr)
    known = load_known(prop)
    viols = []
    for (p, i), r in zip(jobs, res):
        v = r.get("violation")
        if v:
            v["pers"], v["shard"], v["sim"], v["stride"] = p, i, sim, nsh
            viols.append(v)
    for k, ((p, n), r) in enumerate(zip(ljobs, lres)):
        v = r.get("violation")
        if v:
            v["pers"], v["shard"], v["sim"], v["stride"] = p, 1000 * k, lsim, 1
            viols.append(v)
    res = res + lres
    reported = []
    for v in viols:
        k = [x for x in known if x[0] == v["class"] and re.search(x[1], v["detail"])]
        if k:
            print("KNOWN-FINDING: property=%s %s" % (prop, k[0][2]))
        else:
            reported.append(v)
    status, replay = 0, None
    if reported:
        status, replay = report(prop, seed, sorted(reported, key=lambda v: (v["sim"] is lsim, len(v["choices"]))), tier)
    evidence(prop, plan, tier, seed, pers, res, t0, t_build, t_sim, det, len(reported), status, mismatch)
    if status == 1:
        print("VIOLATION property=%s replay=%s" % (prop, replay))
    elif status == 0:
        tot = sum(r.get("runs", 0) for r in res)
        print("held: property=%s runs=%d in %.1fs (seed %d, %s)" % (prop, tot, time.time() - t0, seed, tier))
    return status


def outcome(sim, p, ch, verbose=False):
    r = sim.replay(p, ch, verbose=verbose)
    return (r["class"] or "", r["hash"]), r


def check_cross(prop, plan, tier, seed, sim, pers, count, budget, t0, t_build):
    """The same seeds on every personality: the logs must be identical."""
    nsh = 4 if tier == "quick" else 16
    per = (count + nsh - 1) // nsh
    jobs = [(i, p) for i in range(nsh) for p in pers]
    t1 = time.time()

    def go(job):
        i, p = job
        q = {"bin": p["bin"], "env": dict(p["env"], SIM_SEQ="1")}
        return sim.shard(q, seed, i, nsh, per, budget * NCPU / len(jobs))
    with ThreadPoolExecutor(NCPU) as ex:
        res = list(ex.map(go, jobs))
    t_sim = time.time() - t1
    suspects = []
    for i in range(nsh):
        rs = [(p, r) for (k, p), r in zip(jobs, res) if k == i]
        n = min(len(r.get("first", [])) for _, r in rs)
        if n == 0 or any(r.get("violation") for _, r in rs):
            for p, r in rs:
                if r.get("violation"):
                    suspects.append((p, r["violation"]["run"]))
        for j in range(n):
            hs = {r["first"][j][1] for _, r in rs}
            if len(hs) > 1:
                suspects.append((pers[0], rs[0][1]["first"][j][0]))
                break
    status, replay, det = 0, None, 0
    for p, run in suspects[:6]:
        # recover the choices of that run
        d = sim.fresh()
        execute([sim.bin(p["bin"]), "hashes", prop, str(seed), str(run), "1", "1"], p["env"], os.path.join(d, "ch"), HANG_CPU, os.path.join(d, "err"))
        if read_header(os.path.join(d, "ch")) is None:
            continue
        _, ch, _ = read_choices(os.path.join(d, "ch"))
        with ThreadPoolExecutor(NCPU) as ex:
            outs = list(ex.map(lambda q: outcome(sim, q, ch)[0], pers))
        if len(set(outs)) < 2:
            continue
        a = 0
        b = next(k for k in range(len(pers)) if outs[k] != outs[0])
        pa, pb = pers[a], pers[b]
        differ = lambda c: outcome(sim, pa, c)[0] != outcome(sim, pb, c)[0]
        best, tries = minimise(sim, None, ch, None, MINB if tier == "quick" else 120, ok=differ)
        for c in (best, ch):
            (oa, ra), (ob, rb) = outcome(sim, pa, c, True), outcome(sim, pb, c, True)
            if oa != ob and outcome(sim, pa, c)[0] == oa and outcome(sim, pb, c)[0] == ob:
                rd = os.path.join(HERE, "replays")
                os.makedirs(rd, exist_ok=True)
                replay = os.path.join(rd, "%s-seed%d.json" % (prop, seed))
                det_txt = next(("%s / %s" % (x, y) for x, y in zip(ra["trace"] + ["(end)"], rb["trace"] + ["(end)"]) if x != y), "")
                json.dump({"property": prop, "kind": "cross", "seed": seed, "run": run, "personalities": [pa, pb], "choices": c,
                           "outcomes": [oa, ob], "first_difference": det_txt, "minimiser_replays": tries,
                           "trace": ra["trace"][-200:], "trace_b": rb["trace"][-200:]}, open(replay, "w"), indent=1)
                print("class: differs-between-processors\n%s against %s: %s" % (pa["env"], pb["env"], det_txt))
                for l in ra["trace"][-20:]:
                    print("   " + l)
                status = 1
                break
        if status:
            break
    if suspects and not status:
        print("check error: a difference between processors did not replay: %s" % suspects[:3])
        status = 2
    evidence(prop, plan, tier, seed, pers, res, t0, t_build, t_sim, 0, status == 1, status)
    if status == 1:
        print("VIOLATION property=%s replay=%s" % (prop, replay))
    elif status == 0:
        print("held: property=%s runs=%d in %.1fs (seed %d, %s)" % (prop, sum(r.get("runs", 0) for r in res), time.time() - t0, seed, tier))
    return status


def report(prop, seed, viols, tier):
    rd = os.path.join(HERE, "replays")
    os.makedirs(rd, exist_ok=True)
    path = os.path.join(rd, "%s-seed%d.json" % (prop, seed))
    for v in viols[:4]:
        p, sim = v["pers"], v["sim"]
        r = sim.replay(p, v["choices"])
        if r["class"] != v["class"]:
            continue
        best, tries = (v["choices"], 0) if sim.hang > HANG_CPU else minimise(sim, p, v["choices"], v["class"], MINB if tier == "quick" else 120)
        for ch in (best, v["choices"]):
            a, b = sim.replay(p, ch), sim.replay(p, ch, verbose=True)
            if a["class"] == v["class"] and b["class"] == v["class"] and a["hash"] == b["hash"]:
                json.dump({"property": prop, "scenario": sim.prop, "kind": "choices", "seed": seed, "run": v["run"], "bin": p["bin"], "env": p["env"],
                           "class": a["class"], "detail": b["detail"], "hash": a["hash"], "choices": ch,
                           "original_choices": len(v["choices"]), "minimiser_replays": tries, "trace": b["trace"][-400:]},
                          open(path, "w"), indent=1)
                print("class: %s\n%s" % (a["class"], b["detail"]))
                print("minimised from %d to %d choices; trace:" % (len(v["choices"]), len(ch)))
                for l in b["trace"][-25:]:
                    print("   " + l)
                return 1, path
    # not reproducible from its own choices alone: the failure depends on earlier
    # runs of the same process.  The whole history of that process is the replay.
    for v in viols[:4]:
        p, sim, nsh = v["pers"], v["sim"], v["stride"]
        n = (v["run"] - v["shard"]) // nsh + 1
        rs = [sim.shard(p, seed, v["shard"], nsh, n, 1e9).get("violation") for _ in range(2)]
        if all(x and x["class"] == v["class"] and x["run"] == v["run"] and x["hash"] == v["hash"] for x in rs):
            json.dump({"property": prop, "scenario": sim.prop, "kind": "history", "seed": seed, "run": v["run"], "bin": p["bin"], "env": p["env"],
                       "start": v["shard"], "stride": nsh, "count": n, "class": v["class"], "detail": v["detail"], "hash": v["hash"]},
                      open(path, "w"), indent=1)
            print("class: %s\n%s\n(reproduced from the history of %d runs)" % (v["class"], v["detail"], n))
            return 1, path
    print("check error: violation did not replay: %s %s" % (viols[0]["class"], viols[0]["detail"]))
    return 2, None


def do_replay(path):
    j = json.load(open(path))
    work = tempfile.mkdtemp(prefix="cksim-replay-")
    try:
        B.build(os.path.join(work, "b"), fast=True)
        sc = j.get("scenario", j["property"])
        sim = Sim(sc, work, HANG_LONG if sc.endswith("L") else HANG_CPU)
        if j["kind"] == "cross":
            os_ = [outcome(sim, p, j["choices"])[0] for p in j["personalities"]]
            print("recorded: %s\nreplayed: %s" % (j["outcomes"], os_))
            return 1 if os_[0] != os_[1] else 0
        p = {"bin": j["bin"], "env": j["env"]}
        if j["kind"] == "choices":
            r = sim.replay(p, j["choices"], verbose=True)
            for l in r["trace"]:
                print("   " + l)
        else:
            r = sim.shard(p, j["seed"], j["start"], j["stride"], j["count"], 1e9).get("violation") or {"class": None, "hash": None, "detail": ""}
        print("recorded: %s %s\nreplayed: %s %s\n%s" % (j["class"], j["hash"], r["class"], r["hash"], r["detail"]))
        return 1 if r["class"] is not None else 0
    finally:
        shutil.rmtree(work, ignore_errors=True)


def evidence(prop, plan, tier, seed, pers, res, t0, t_build, t_sim, det, nviol, status, mismatch=0):
    tot = lambda k: sum(r.get(k, 0) for r in res)
    faults, probes = {}, {}
    hashes = set()
    for r in res:
        merge(faults, r.get("faults", {}))
        merge(probes, r.get("probes", {}))
        hashes.update(r.get("hashes", []))
    wall = time.time() - t0
    samples = []
    for r in res:
        samples += r.get("samples", [])[:1]
    samples = samples[:4]
    runs = tot("runs")
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "exploration",
          "coverage": {
              "evaluations": runs,
              "distinct_nontrivial": len(hashes),
              "rule": plan["rule"],
              "samples": samples,
              "simulated_runs": runs,
              "runs_per_hour": int(runs / max(t_sim, 1e-3) * 3600),
              "seeds": "VERIF_SEED=%d; run i of the batch draws every choice from splitmix64(seed, property, i)" % seed,
              "seeds_per_hour": int(runs / max(t_sim, 1e-3) * 3600),
              "simulated_steps": tot("sim_steps"),
              "simulated_time": "the library reads no clock: simulated time is the count of scheduler steps (%d)" % tot("sim_steps"),
              "events_logged": tot("events"),
              "choices_drawn": tot("choices"),
              "faults_injected": faults,
              "reach_probes": probes,
              "distinct_interleavings": len(hashes),
              "interleaving_measure": "distinct 64-bit hashes of the full event log (operation, fragment size, fault, schedule) of non-trivial runs",
              "abstract_states_reached_per_shard": max([r.get("states", 0) for r in res] or [0]),
              "personalities": [dict(bin=p["bin"], **p["env"]) for p in pers] + [dict(bin=p["bin"], runs=n, **p["env"]) for p, n in plan.get("long", {}).get(tier, [])],
              "real_components": plan.get("real", REAL),
              "stub_components": plan.get("stubs", STUBS),
              "determinism_rechecked_runs": det,
              "determinism_mismatches": mismatch,
              "build_s": round(t_build, 2),
          },
          "assumptions": plan.get("assumptions", ASSUME),
          "wall_s": round(wall, 2), "violations": nviol}
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)


REAL = ["all of src/cryptokit.ml, src/cryptokitBignum.ml and every C primitive and stub, compiled from /repo's working tree",
        "OCaml runtime (GC, channels, systhreads), zarith, zlib"]
STUBS = ["CPUID answers", "RDRAND instruction", "getentropy(2)", "/dev/random and /dev/urandom", "simulated file descriptors", "malloc/caml_stat_alloc of the stubs (accounted, can fail)", "zlib allocator (accounted, can fail)"]
ASSUME = ["sampled, not exhaustive: a clean batch is evidence, not proof",
          "reference models in sim/refm.ml are correct (independent re-implementations, cross-validated against hashlib and known answers)"]

if __name__ == "__main__":
    sys.exit(main())
