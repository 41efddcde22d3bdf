#!/usr/bin/env python3
"""Driver of the deterministic-simulation checks: build from /repo's working tree, explore seeds, gate, minimise, report.

  dst.py check PROP [--tier quick|thorough] [--runs N] [--scenario NAME]   run one property's check
  dst.py replay FILE                                                       replay a violation file in a fresh process
  dst.py run PROP SCENARIO SEED [-v]                                       one run, verbose
  dst.py selftest [PROP ...] [--n N]                                       determinism + replay self-test
  dst.py build                                                             build everything (setup)
"""
import sys, os, re, json, time, hashlib, subprocess, threading, glob, shutil, collections, struct, signal, tempfile
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("DST_REPO", "/repo")
BUILD = os.environ.get("DST_BUILD", os.path.join(HERE, "build"))
NCPU = int(os.environ.get("DST_JOBS", str(os.cpu_count() or 8)))
CXX = "g++"
DEFS = ["-D_ENABLE_LIKELY_"]
FLAGS_LIB = ["-std=c++17", "-O1", "-g1", "-fsanitize=thread", "-pthread", "-w", "-fno-omit-frame-pointer"] + DEFS
FLAGS_SIM = ["-std=c++17", "-O2", "-g1", "-pthread", "-w", "-fno-omit-frame-pointer"]
LINK = ["-no-pie", "-rdynamic", "-pthread", "-ldl"]
FAULTS = ["spurious_wakeup", "thread_stall", "late_timer", "alloc_failure", "thread_create_failure", "callback_error",
          "callback_positive_status", "callback_exception", "slow_callback", "cancel", "suspend_resume", "timeout_in_flight",
          "shutdown_in_flight", "disk_open_error", "disk_write_error", "disk_short_write", "disk_torn_file", "disk_read_error",
          "disk_flip", "init_or_destroy_failure", "starved", "caller_contention", "clock_jump", "field_damage"]


class Infra(Exception):
    pass


# ------------------------------------------------------------------------------------------------ build
def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else p.encode())
        h.update(b"\0")
    return h.hexdigest()[:24]


def tree(root, exts):
    out = []
    for d, dn, fs in os.walk(root):
        dn.sort()
        for f in sorted(fs):
            if os.path.splitext(f)[1] in exts:
                out.append(os.path.join(d, f))
    return out


def rd(p):
    with open(p, "rb") as f:
        return f.read()


def scenarios_in(path):
    return re.findall(r"^SCENARIO(?:_F)?\(\s*(\w+)\s*,\s*(\w+)", rd(path).decode(), re.M)


def harness_files():
    return sorted(glob.glob(os.path.join(HERE, "harness", "*.cpp")))


def files_for(prop):
    return [f for f in harness_files() if any(p == prop for p, _ in scenarios_in(f))]


def run_jobs(jobs):
    """jobs: list of (cmd, out). Runs missing ones in parallel."""
    todo = [j for j in jobs if not os.path.exists(j[1])]
    lock, errs = threading.Lock(), []

    def work():
        while True:
            with lock:
                if not todo or errs:
                    return
                cmd, out = todo.pop(0)
            tmp = out + ".tmp%d.%d" % (os.getpid(), threading.get_ident() & 0xffff)
            r = subprocess.run(cmd + ["-o", tmp], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            if r.returncode:
                errs.append("%s\n%s" % (" ".join(cmd), r.stdout.decode(errors="replace")[-4000:]))
                return
            os.replace(tmp, out)
    ts = [threading.Thread(target=work) for _ in range(NCPU)]
    [t.start() for t in ts]
    [t.join() for t in ts]
    if errs:
        raise Infra("build failed: " + errs[0])


def build(props=None):
    """Build library objects from /repo/src and the harness binaries of the given properties. Returns {prop: [binary]}"""
    os.makedirs(os.path.join(BUILD, "obj"), exist_ok=True)
    src = os.path.join(REPO, "src")
    hdrs = tree(src, {".h", ".inl", ".hpp"})
    hsig = sha(*[x for h in hdrs for x in (os.path.relpath(h, src), rd(h))])
    jobs, libobjs = [], []
    for c in tree(src, {".cpp"}):
        rel = os.path.relpath(c, src)
        o = os.path.join(BUILD, "obj", "%s-%s.o" % (os.path.basename(c)[:-4], sha(rel, rd(c), hsig, " ".join(FLAGS_LIB), src)))
        libobjs.append(o)
        jobs.append(([CXX] + FLAGS_LIB + ["-I", src, "-c", c], o))
    simh = [os.path.join(HERE, "sim", "sim.h")]
    simsig = sha(*[rd(x) for x in simh])
    simc = os.path.join(HERE, "sim", "sim.cpp")
    simo = os.path.join(BUILD, "obj", "sim-%s.o" % sha(rd(simc), simsig, " ".join(FLAGS_SIM)))
    jobs.insert(0, ([CXX] + FLAGS_SIM + ["-I", os.path.join(HERE, "sim"), "-c", simc], simo))
    hh = sorted(glob.glob(os.path.join(HERE, "harness", "*.h")))
    hhsig = sha(*[rd(x) for x in hh])
    files = harness_files() if props is None else sorted({f for p in props for f in files_for(p)})
    hobjs = {}
    for f in files:
        o = os.path.join(BUILD, "obj", "%s-%s.o" % (os.path.basename(f)[:-4], sha(rd(f), hsig, hhsig, simsig, " ".join(FLAGS_LIB), src)))
        hobjs[f] = o
        jobs.insert(0, ([CXX] + FLAGS_LIB + ["-I", os.path.join(HERE, "sim"), "-I", os.path.join(HERE, "harness"), "-I", src, "-c", f], o))
    run_jobs(jobs)
    bins, links = collections.defaultdict(list), []
    for f in files:
        b = os.path.join(BUILD, "%s-%s.bin" % (os.path.basename(f)[:-4], sha(hobjs[f], simo, *libobjs)))
        links.append(([CXX, hobjs[f], simo] + libobjs + LINK, b))
        for p in sorted({p for p, _ in scenarios_in(f)}):
            bins[p].append(b)
    run_jobs(links)
    keep = set(libobjs) | set(hobjs.values()) | {simo}
    now = time.time()
    for o in glob.glob(os.path.join(BUILD, "obj", "*.o")) + glob.glob(os.path.join(BUILD, "*.bin")):
        if o not in keep and not any(o in v for v in bins.values()) and now - os.path.getmtime(o) > 7200:
            os.unlink(o)
    return bins


# ------------------------------------------------------------------------------------------------ simulator processes
class Sim:
    def __init__(self, binary):
        self.binary = binary
        self.p = subprocess.Popen([binary], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, cwd="/")

    def cmd(self, line):
        try:
            self.p.stdin.write((line + "\n").encode())
            self.p.stdin.flush()
            out = []
            while True:
                l = self.p.stdout.readline()
                if not l:
                    raise Infra("simulator process ended unexpectedly on: " + line[:200])
                l = l.decode(errors="replace").rstrip("\n")
                if l == "DONE":
                    return out
                out.append(l)
        except BrokenPipeError:
            raise Infra("simulator process is gone")

    def close(self):
        try:
            self.p.stdin.close()
        except Exception:
            pass
        self.p.kill()
        self.p.wait()


def listing(binary):
    out = subprocess.check_output([binary, "--list"]).decode().split("\n")
    return [(int(a), p, n) for a, p, n in (l.split() for l in out if l)]


Res = collections.namedtuple("Res", "status cls msg hash behav steps now switches nw nr trunc cfg W R pcs blk faults")


def parse_result(lines):
    r = dict(W=[], R=[], pcs=[], blk=[], faults={})
    for l in lines:
        if l.startswith("RESULT\t"):
            f = l.split("\t")
            r.update(status=int(f[1]), cls=f[2], msg=f[3], hash=f[4], behav=f[5], steps=int(f[6]), now=int(f[7]), switches=int(f[8]),
                     nw=int(f[9]), nr=int(f[10]), trunc=int(f[11]), cfg=int(f[12]))
        elif l.startswith("W"):
            r["W"] = [int(x) for x in l.split()[1:]]
        elif l.startswith("R"):
            r["R"] = [tuple(int(y) for y in x.split(":")) for x in l.split()[1:]]
        elif l.startswith("PCS"):
            r["pcs"] = l.split()[1:]
        elif l.startswith("BLK"):
            f = l.split()
            r["blk"].append((int(f[1]), f[2:]))
        elif l.startswith("FAULTS"):
            r["faults"] = dict((k, int(v)) for k, v in (x.split("=") for x in l.split()[1:]))
    if "status" not in r:
        raise Infra("no result from simulator")
    return Res(**r)


def do_run(sim, idx, seed, record=1, verbose=0):
    return parse_result(sim.cmd("run %d %d %d %d" % (idx, seed, record, verbose)))


def do_trace(sim, idx, cfg, W, R, verbose=0, record=0):
    return parse_result(sim.cmd("trace %d %d %d %d %d %s %d %s" % (
        idx, cfg, verbose, record, len(W), " ".join(map(str, W)), len(R), " ".join("%d:%d:%d:%d" % x for x in R))))


def symbolize(binary, pcs):
    if not pcs:
        return []
    try:
        out = subprocess.run(["addr2line", "-f", "-C", "-e", binary] + ["0x%x" % (int(x, 16) - 1) for x in pcs],
                             capture_output=True, timeout=60).stdout.decode(errors="replace").split("\n")
    except Exception:
        return pcs
    res = []
    for i in range(0, len(out) - 1, 2):
        if out[i] == "??" or "sim.cpp" in out[i + 1] or "/sim/" in out[i + 1]:
            continue
        res.append("%s at %s" % (out[i][:120], re.sub(r".*/(repo|verif)/", r"\1/", out[i + 1])))
    return res[:16]


# ------------------------------------------------------------------------------------------------ minimisation
def minimise(binary, idx, base, budget_s=45.0):
    """Shrink workload choices and schedule/fault records while the same violation class persists."""
    sims = [Sim(binary) for _ in range(NCPU)]
    t0 = time.time()
    trials = [0]

    def left():
        return budget_s - (time.time() - t0)

    def bad_many(cands):
        """cands: list of (W,R,cfg); returns index of the first (lowest) that still fails the same way, or None."""
        res = [None] * len(cands)

        def w(k):
            for i in range(k, len(cands), len(sims)):
                if left() <= 0:
                    return
                try:
                    r = do_trace(sims[k], idx, cands[i][2], cands[i][0], cands[i][1])
                    res[i] = r.status == 2 and r.cls == base.cls
                except Infra:
                    sims[k].close()
                    sims[k] = Sim(binary)
        ts = [threading.Thread(target=w, args=(k,)) for k in range(min(len(sims), len(cands)))]
        [t.start() for t in ts]
        [t.join() for t in ts]
        trials[0] += len(cands)
        for i, x in enumerate(res):
            if x:
                return i
        return None

    W, R, cfg = list(base.W), list(base.R), base.cfg

    def ddmin_R(R):
        n = 2
        while R and left() > 0:
            sz = max(1, (len(R) + n - 1) // n)
            parts = [(i, min(len(R), i + sz)) for i in range(0, len(R), sz)]
            done = False
            for b in range(0, len(parts), 64):
                c = [(W, R[:a] + R[e:], cfg) for a, e in parts[b:b + 64]]
                k = bad_many(c)
                if k is not None:
                    R = c[k][1]
                    n = max(2, n - 1)
                    done = True
                    break
            if not done:
                if sz == 1:
                    break
                n = min(len(R), n * 2)
        return R

    def shrink_W(W):
        while W and W[-1] == 0:
            W = W[:-1]
        # truncation (missing choices are 0)
        for k in (0, 1, 2, 4, 8, 16, 32, 64, 128):
            if k < len(W) and bad_many([(W[:k], R, cfg)]) == 0:
                W = W[:k]
                break
        for _ in range(3):
            ch = False
            i = 0
            while i < len(W) and left() > 0:
                if W[i]:
                    opts = sorted({0, W[i] // 2, W[i] - 1})
                    c = [(W[:i] + [o] + W[i + 1:], R, cfg) for o in opts if o < W[i]]
                    if i + 1 < len(W):
                        c.append((W[:i] + W[i + 1:], R, cfg))
                    k = bad_many(c)
                    if k is not None:
                        W = c[k][0]
                        ch = True
                        continue
                i += 1
            if not ch:
                break
        while W and W[-1] == 0:
            W = W[:-1]
        return W
    for c2 in (cfg & ~7, cfg & ~3, cfg & ~4):
        if c2 != cfg and bad_many([(W, R, c2)]) == 0:
            cfg = c2
            break
    if bad_many([(W, [], cfg)]) == 0:
        R = []
    for _ in range(3):
        before = (len(W), len(R), sum(W))
        R = ddmin_R(R)
        W = shrink_W(W)
        if (len(W), len(R), sum(W)) == before or left() <= 0:
            break
    [s.close() for s in sims]
    return W, R, cfg, trials[0]


# ------------------------------------------------------------------------------------------------ check
def load_conf():
    with open(os.path.join(HERE, "conf.json")) as f:
        return json.load(f)


def known_findings():
    p = os.path.join(HERE, "KNOWN_FINDINGS")
    out = []
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            m = re.match(r"finding: property=(\S+) scenario=(\S+) class=(\S+) (.*)", l)
            if m:
                out.append(m.groups())
    return out


def explore(prop, tier, seed, runs_override=None, only=None, jobs=None, keep_hash=None, quiet=False):
    conf = load_conf()
    bins = build([prop])
    if prop not in bins:
        raise Infra("no scenario for " + prop)
    scen = []
    for b in bins[prop]:
        for i, p, n in listing(b):
            if p == prop and (only is None or n == only):
                scen.append((b, i, n))
    pc = conf["properties"].get(prop, {})
    wall_cap = {"quick": 200.0, "thorough": 3000.0}[tier]
    chunks = []
    for b, i, n in scen:
        w = pc.get("weights", {}).get(n, 1.0)
        tot = runs_override or int(pc.get("runs", conf["default_runs"]) * w * (1 if tier == "quick" else conf["thorough_factor"]))
        cs = max(10, min(200, tot // 64 or 1))
        for s in range(0, tot, cs):
            chunks.append((s / tot, b, i, n, s, min(cs, tot - s)))
    chunks.sort(key=lambda c: (c[0], c[3]))
    t0 = time.time()
    lock = threading.Lock()
    stats = {n: dict(runs=0, steps=0, switches=0, ns=0, threads=0, faults=[0] * len(FAULTS), fruns=[0] * len(FAULTS), probes=[0] * 64)
             for _, _, n in scen}
    fails, errs = [], []
    hdir = keep_hash or os.path.join(BUILD, "hash.%d" % os.getpid())
    os.makedirs(hdir, exist_ok=True)
    queue = list(chunks)
    kf = {(s, c) for p, s, c, _ in known_findings() if p == prop}
    stop = [False]

    def worker(w):
        sims = {}
        hf = os.path.join(hdir, "w%d" % w)
        try:
            while True:
                with lock:
                    if not queue or stop[0] or time.time() - t0 > wall_cap:
                        return
                    _, b, i, n, s, c = queue.pop(0)
                if b not in sims:
                    sims[b] = Sim(b)
                for l in sims[b].cmd("batch %d %d %d %d %d %s %d %f" % (i, seed, s, c, 1, hf, 1000000, 1e9)):
                    f = l.split("\t")
                    if f[0] == "FAIL":
                        with lock:
                            fails.append((s, n, b, int(f[1]), int(f[2]), int(f[3]), f[4], f[5], f[6]))
                            if (n, f[4]) not in kf:
                                stop[0] = True
                    elif f[0] == "BATCH":
                        with lock:
                            st = stats[n]
                            st["runs"] += int(f[2]); st["steps"] += int(f[3]); st["switches"] += int(f[4]); st["ns"] += int(f[5]); st["threads"] += int(f[6])
                            for k, x in enumerate(f[7].split()):
                                a, r = x.split("/")
                                st["faults"][k] += int(a); st["fruns"][k] += int(r)
                            for k, x in enumerate(f[8].split()):
                                st["probes"][k] += int(x)
        except Infra as e:
            errs.append(str(e))
            stop[0] = True
        finally:
            for s in sims.values():
                s.close()
    ts = [threading.Thread(target=worker, args=(w,)) for w in range(jobs or NCPU)]
    [t.start() for t in ts]
    [t.join() for t in ts]
    hs, bs = set(), set()
    nh = 0
    for f in sorted(glob.glob(os.path.join(hdir, "w*"))):
        d = rd(f)
        for k in range(0, len(d) - 15, 16):
            hs.add(d[k:k + 8]); bs.add(d[k + 8:k + 16]); nh += 1
    if not keep_hash:
        shutil.rmtree(hdir, ignore_errors=True)
    return dict(stats=stats, fails=fails, errs=errs, wall=time.time() - t0, distinct=len(hs), behav=len(bs), scen=scen, bins=bins,
                complete=not queue)


def gate_and_report(prop, seed, fail):
    s0, n, b, idx, rseed, st, cls, msg, hsh = fail
    sim = Sim(b)
    r1 = do_run(sim, idx, rseed)
    sim.close()
    if r1.status != 2 or r1.hash != hsh or r1.cls != cls:
        raise Infra("seed %d of %s does not reproduce: %s/%s vs %s/%s" % (rseed, n, cls, hsh, r1.cls, r1.hash))
    if r1.trunc:
        W = R = None
        out = dict(property=prop, scenario=n, mode="seed", seed=rseed, base_seed=seed, cls=cls, msg=msg, hash=hsh)
        final = r1
    else:
        sim = Sim(b)
        r2 = do_trace(sim, idx, r1.cfg, r1.W, r1.R)
        sim.close()
        if r2.status != 2 or r2.cls != cls or r2.hash != hsh:
            raise Infra("trace replay of seed %d of %s differs: %s/%s vs %s/%s (%s)" % (rseed, n, cls, hsh, r2.cls, r2.hash, r2.msg))
        W, R, cfg, trials = minimise(b, idx, r1)
        sim = Sim(b)
        final = do_trace(sim, idx, cfg, W, R, verbose=1)
        sim.close()
        sim = Sim(b)
        again = do_trace(sim, idx, cfg, W, R)
        sim.close()
        if final.status != 2 or final.cls != cls or again.hash != final.hash or again.cls != cls:
            raise Infra("minimised trace of seed %d of %s does not replay in a fresh process" % (rseed, n))
        out = dict(property=prop, scenario=n, mode="trace", cfg=cfg, workload=W, schedule=[list(x) for x in R],
                   seed=rseed, base_seed=seed, cls=cls, msg=final.msg, hash=final.hash,
                   original=dict(choices=len(r1.W), records=len(r1.R), steps=r1.steps),
                   minimised=dict(choices=len(W), records=len(R), steps=final.steps, trials=trials), faults=final.faults)
    out["where"] = symbolize(b, final.pcs)
    out["blocked"] = {("T%d" % t): symbolize(b, p) for t, p in final.blk}
    os.makedirs(os.path.join(HERE, "replay"), exist_ok=True)
    path = os.path.join(HERE, "replay", "%s-%s-%s.json" % (prop, n, sha(cls, str(rseed))[:8]))
    with open(path, "w") as f:
        json.dump(out, f, indent=1)
    return path, out


REAL = ("real: all of /repo/src that the scenario links (engines, groups, managers, thread pool, queues, params, events, messages, storage), "
        "libstdc++ synchronisation wrappers; stub: pthread/futex scheduling, clocks and timers, sleeping, operator new, random_device, "
        "file system calls (fault layer over scratch files where the property uses files), user callbacks supplied by the harness")


def check(prop, tier, runs=None, only=None):
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    x = explore(prop, tier, seed, runs, only)
    kf = [(s, c, d) for p, s, c, d in known_findings() if p == prop]
    new = [f for f in x["fails"] if f[5] == 2 and not any(s == f[1] and c == f[6] for s, c, _ in kf)]
    infra = [f for f in x["fails"] if f[5] == 3]
    viol = 0
    rc = 0
    report = None
    if new:
        new.sort(key=lambda f: (f[0], f[1], f[4]))
        report = gate_and_report(prop, seed, new[0])
        viol = 1
        rc = 1
    elif infra or x["errs"]:
        raise Infra("; ".join(x["errs"][:2] + ["%s seed %d: %s %s" % (f[1], f[4], f[6], f[7]) for f in infra[:3]]))
    printed = set()
    for s, c, d in kf:
        if any(f[1] == s and f[6] == c for f in x["fails"]) and (s, c) not in printed:
            printed.add((s, c))
            print("KNOWN-FINDING: property=%s %s" % (prop, d))
    tot = sum(s["runs"] for s in x["stats"].values())
    fk = {}
    for k, name in enumerate(FAULTS):
        a = sum(s["faults"][k] for s in x["stats"].values())
        r = sum(s["fruns"][k] for s in x["stats"].values())
        if a:
            fk[name] = {"fired": a, "runs": r}
    cov = dict(
        evaluations=tot, distinct_nontrivial=x["distinct"],
        rule="one evaluation = one complete simulated execution of the real code from one seed, checked during and after the run; distinct = "
             "different 64-bit hash of the sequence of (thread, synchronisation operation) steps actually executed",
        samples=[dict(scenario=n, seed_index=k, base_seed=seed) for n in x["stats"] for k in (0, 1)][:8],
        runs_per_hour=int(tot / max(x["wall"], 1e-3) * 3600), seeds_per_hour=int(tot / max(x["wall"], 1e-3) * 3600),
        simulated_seconds=round(sum(s["ns"] for s in x["stats"].values()) / 1e9, 3),
        scheduler_steps=sum(s["steps"] for s in x["stats"].values()), context_switches=sum(s["switches"] for s in x["stats"].values()),
        faults_injected=fk, distinct_interleavings=x["distinct"], distinct_observed_behaviours=x["behav"],
        per_scenario={n: dict(runs=s["runs"], sim_seconds=round(s["ns"] / 1e9, 3), mean_steps=round(s["steps"] / max(1, s["runs"]), 1),
                              mean_threads=round(s["threads"] / max(1, s["runs"]), 2),
                              probes={str(i): v for i, v in enumerate(s["probes"]) if v}) for n, s in x["stats"].items()},
        components=REAL, complete=x["complete"])
    ev = dict(property=prop, tier=tier, seed=seed, level="exploration", coverage=cov,
              assumptions=["sequentially consistent memory (weak-memory reorderings are not simulated)",
                           "seeded sampling of schedules and faults, not exhaustive",
                           "simulated time advances 200 ns per synchronisation step and jumps to the next timer when nothing can run"],
              wall_s=round(time.time() - t0, 2), violations=viol)
    if only is None:
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
    print("%s %s: %d runs in %.1f s (+build, total %.1f s), %d distinct interleavings, %.0f simulated s, faults %s" % (
        prop, tier, tot, x["wall"], time.time() - t0, x["distinct"], cov["simulated_seconds"],
        ", ".join("%s=%d" % (k, v["fired"]) for k, v in fk.items())))
    if rc:
        path, o = report
        print("violation class %s: %s" % (o["cls"], o["msg"]))
        print("seed %d, minimised to %s" % (o["seed"], json.dumps(o.get("minimised", {}))))
        for l in o["where"][:10]:
            print("   at " + l)
        for t, l in list(o["blocked"].items())[:8]:
            print("   blocked %s: %s" % (t, " <- ".join(l[:8])))
        print("VIOLATION property=%s replay=%s" % (prop, path))
    return rc


def replay(path, verbose=True):
    o = json.load(open(path))
    bins = build([o["property"]])
    for b in bins[o["property"]]:
        for i, p, n in listing(b):
            if p == o["property"] and n == o["scenario"]:
                if o["mode"] == "seed":
                    line = "run %d %d 0 %d" % (i, o["seed"], 1)
                else:
                    line = "trace %d %d %d 1 %d %s %d %s" % (i, o["cfg"], 1, len(o["workload"]), " ".join(map(str, o["workload"])),
                                                           len(o["schedule"]), " ".join(":".join(map(str, x)) for x in o["schedule"]))
                p = subprocess.run([b], input=(line + "\nquit\n").encode(), stdout=subprocess.PIPE,
                                   stderr=None if verbose else subprocess.DEVNULL)
                r = parse_result(p.stdout.decode(errors="replace").split("\n"))
                print("status %d class %s: %s (hash %s, recorded %s)" % (r.status, r.cls, r.msg, r.hash, o["hash"]))
                for l in symbolize(b, r.pcs):
                    print("   at " + l)
                for t, l in r.blk:
                    print("   blocked T%d: %s" % (t, " <- ".join(symbolize(b, l)[:9])))
                if r.status == 2 and r.cls == o["cls"] and r.hash == o["hash"]:
                    print("VIOLATION property=%s replay=%s" % (o["property"], path))
                    return 1
                return 0 if r.status == 1 else 2
    raise Infra("scenario not found")


def one(prop, name, seed, verbose):
    bins = build([prop])
    for b in bins[prop]:
        for i, p, n in listing(b):
            if p == prop and n == name:
                pr = subprocess.run([b], input=("run %d %d 1 %d\nquit\n" % (i, seed, verbose)).encode(), stdout=subprocess.PIPE)
                r = parse_result(pr.stdout.decode(errors="replace").split("\n"))
                print(r._replace(W=len(r.W), R=len(r.R), pcs=0, blk=0))
                for l in symbolize(b, r.pcs):
                    print("   at " + l)
                for t, l in r.blk:
                    print("   blocked T%d: %s" % (t, " <- ".join(symbolize(b, l)[:9])))


def selftest(props, n):
    """Every seed twice at different worker counts in different processes: identical logs; plus exact trace replay of every seed."""
    bins = build(props or None)
    bad = 0
    tot = 0
    for prop in sorted(props or bins):
        for b in bins[prop]:
            for i, p, nm in listing(b):
                if p != prop:
                    continue
                outs = []
                for jobs in (1, NCPU, 3):
                    hd = os.path.join(BUILD, "st.%d" % os.getpid())
                    shutil.rmtree(hd, ignore_errors=True)
                    os.makedirs(hd)
                    ps = []
                    for w in range(jobs):
                        pr = subprocess.Popen([b], stdin=subprocess.PIPE, stdout=subprocess.DEVNULL)
                        pr.stdin.write(("batch %d 77 %d %d %d %s/w%d 1000000 1e9\nquit\n" % (i, w, (n - w + jobs - 1) // jobs, jobs, hd, w)).encode())
                        pr.stdin.close()
                        ps.append(pr)
                    [pr.wait() for pr in ps]
                    res = {}
                    for w in range(jobs):
                        d = rd("%s/w%d" % (hd, w))
                        for k in range(0, len(d), 16):
                            res[w + jobs * (k // 16)] = d[k:k + 16]
                    outs.append(res)
                    shutil.rmtree(hd, ignore_errors=True)
                diff = [k for k in outs[0] if any(o.get(k) != outs[0][k] for o in outs)]
                # exact trace replay
                sims = [Sim(b) for _ in range(NCPU)]
                mism = []

                def w(k):
                    import random
                    for q in range(k, min(n, 400), NCPU):
                        seed = 1000003 * q + 17
                        a = do_run(sims[k], i, seed)
                        if a.trunc:
                            continue
                        c = do_trace(sims[k], i, a.cfg, a.W, a.R)
                        if (a.status, a.cls, a.hash, a.behav, a.now) != (c.status, c.cls, c.hash, c.behav, c.now):
                            mism.append((seed, a.hash, c.hash, a.cls, c.cls))
                ts = [threading.Thread(target=w, args=(k,)) for k in range(NCPU)]
                [t.start() for t in ts]
                [t.join() for t in ts]
                [s.close() for s in sims]
                tot += n
                print("%s %s: %d seeds x 3 worker counts, %d diverged; trace replay of %d: %d differ %s" % (prop, nm, n, len(diff), min(n, 400), len(mism), mism[:3]), flush=True)
                bad += len(diff) + len(mism)
    print("selftest: %d seeds, %d problems" % (tot, bad))
    return 1 if bad else 0


def main():
    a = sys.argv[1:]
    def opt(name, default=None):
        if name in a:
            k = a.index(name)
            v = a[k + 1]
            del a[k:k + 2]
            return v
        return default
    scratch = os.environ["DST_SCRATCH"] = tempfile.mkdtemp(prefix="dst_")    # the only place where simulated programs write files
    signal.signal(signal.SIGTERM, lambda *_: sys.exit(143))
    try:
        if a[0] == "check":
            tier = opt("--tier", os.environ.get("VERIF_TIER", "quick"))
            runs = opt("--runs")
            only = opt("--scenario")
            return check(a[1], tier, int(runs) if runs else None, only)
        if a[0] == "replay":
            return replay(a[1])
        if a[0] == "run":
            v = "-v" in a
            one(a[1], a[2], int(a[3]), 1 if v else 0)
            return 0
        if a[0] == "selftest":
            n = int(opt("--n", "300"))
            return selftest(a[1:], n)
        if a[0] == "build":
            build(None)
            return 0
    except Infra as e:
        print("ERROR: %s" % e)
        return 2
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    print(__doc__)
    return 2


if __name__ == "__main__":
    sys.exit(main())
