#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]: builds the worker of a property from /repo's working tree, runs
its workloads in parallel, collects what the monitors reported, writes evidence/<PROPERTY>.json.
Exit 0: held on everything explored. 1: VIOLATION. 2: error of the check."""
import fcntl, fnmatch, glob, hashlib, json, os, re, shutil, signal, struct, subprocess, sys, tempfile, threading, time
from concurrent.futures import ThreadPoolExecutor

V = os.path.dirname(os.path.abspath(__file__))
os.chdir(V)
sys.path.insert(0, V)
from checks_config import CHECKS  # noqa: E402

JOBS = min(8, os.cpu_count() or 8)
MAX_CRASHES_PER_CHUNK = 60
ASAN = ("abort_on_error=0:exitcode=77:detect_leaks=0:handle_abort=1:allocator_may_return_null=0:"
        "max_allocation_size_mb=1500:hard_rss_limit_mb=3000:detect_stack_use_after_return=0:"
        "malloc_context_size=8:strict_string_checks=0:symbolize=1:quarantine_size_mb=8")
UBSAN = "print_stacktrace=1:halt_on_error=1:exitcode=77"


def die(msg):
    print("CHECK-ERROR: " + msg)
    sys.exit(2)


def build(targets):
    os.makedirs("build", exist_ok=True)
    with open("build/.lock", "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        t = time.time()
        p = subprocess.run(["make", "-s", f"-j{JOBS}"] + ["build/" + x for x in targets],
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode:
            print(p.stdout[-4000:])
            die("build failed")
        return time.time() - t


FRAME = re.compile(r"^\s*#\d+ 0x[0-9a-f]+ in (.+?) (/\S+?):(\d+)")


def func_name(f):
    f = re.sub(r"\(.*", "", f)
    i = f.rfind("haptics::")
    if i >= 0:
        f = f[i:]
    return f.strip()


def classify_crash(err, rc):
    """(key, detail): the kind of failure and the innermost function of the code under test."""
    kind = None
    m = re.search(r"ERROR: AddressSanitizer: ([\w-]+)", err)
    if m:
        kind = "asan:" + m.group(1)
    m2 = re.search(r"runtime error: (.+)", err)
    if m2:
        msg = m2.group(1)
        msg = re.sub(r"-?\d[\d.e+]*|nan|inf", "N", msg)
        msg = re.sub(r"'[^']*'", "T", msg)
        kind = "ubsan:" + re.sub(r"\s+", " ", msg)[:70]
    m3 = re.search(r"Assertion [`'](.+?)' failed", err)
    if m3:
        kind = "assert:" + m3.group(1)[:60]
    m4 = re.search(r"terminate called", err)
    if m4:
        kind = "terminate"
    if "hard rss limit exhausted" in err:
        kind = "rss-limit"
    if kind is None:
        kind = f"signal:{-rc}" if rc < 0 else f"exit:{rc}"
    site, first = "?", ""
    for ln in err.splitlines():
        m = FRAME.match(ln)
        if m and "/source/" in m.group(2) and not m.group(2).startswith("/verif") and "/usr/" not in m.group(2):
            site = func_name(m.group(1))
            first = ln.strip()
            break
    detail = ""
    for ln in err.splitlines():
        if "ERROR:" in ln or "runtime error" in ln or "Assertion" in ln:
            detail = ln.strip()
            break
    return f"crash:{kind}:{site}", (detail + " @ " + first)[:400]


class Run:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.lock = threading.Lock()
        self.viol, self.stats, self.samples = {}, {}, []
        self.cases, self.hashes = 0, set()
        self.incomplete, self.hangs = [], 0
        self.tmp = tempfile.mkdtemp(prefix=f"verif-{prop}-", dir="/dev/shm" if os.path.isdir("/dev/shm") and os.access("/dev/shm", os.W_OK) else "/tmp")

    def add(self, key, mode, worker, case, detail):
        with self.lock:
            v = self.viol.setdefault(key, {"key": key, "n": 0, "worker": worker, "mode": mode, "case": case, "detail": detail})
            v["n"] += 1
            if case < v["case"]:
                v.update(case=case, detail=detail, mode=mode, worker=worker)

    def parse(self, path, worker, mode):
        if not os.path.exists(path):
            return
        with open(path, errors="replace") as f:
            for ln in f:
                p = ln.rstrip("\n").split("\t")
                if p[0] == "V" and len(p) >= 4:
                    self.add(p[2], mode, worker, int(p[1]), p[3])
                elif p[0] == "C":
                    with self.lock:
                        self.cases += 1
                        if p[3] == "1":
                            self.hashes.add((mode, p[2]))
                elif p[0] == "S":
                    with self.lock:
                        k = f"{mode}.{p[1]}"
                        if p[1].startswith("max:"):
                            self.stats[k] = max(self.stats.get(k, float("-inf")), float(p[2]))
                        else:
                            self.stats[k] = self.stats.get(k, 0) + float(p[2])
                elif p[0] == "X":
                    with self.lock:
                        if len(self.samples) < 6:
                            self.samples.append({"mode": mode, "case": int(p[1]), "case_text": p[2]})

    def once(self, worker, mode, a, b, tag, cpu_ms, env_extra):
        out, prog, tmp = (os.path.join(self.tmp, f"{tag}.{x}") for x in ("rep", "prog", "d"))
        os.makedirs(tmp, exist_ok=True)
        env = dict(os.environ, ASAN_OPTIONS=ASAN, UBSAN_OPTIONS=UBSAN, VF_CASE_CPU_MS=str(cpu_ms),
                   LC_ALL="C", HOME=tmp, TMPDIR=tmp, **env_extra)
        errf = os.path.join(self.tmp, f"{tag}.err")
        with open(errf, "wb") as e:
            p = subprocess.Popen([os.path.join(V, "build", worker), mode, str(a), str(b), str(self.seed), out, prog, tmp],
                                 stdout=subprocess.DEVNULL, stderr=e, stdin=subprocess.DEVNULL, env=env, cwd=tmp)
            try:
                rc = p.wait(timeout=800)
            except subprocess.TimeoutExpired:
                p.kill()
                p.wait()
                rc = "wall"
        at = a
        if os.path.exists(prog):
            with open(prog, "rb") as f:
                d = f.read(8)
                if len(d) == 8:
                    at = struct.unpack("<q", d)[0]
        with open(errf, errors="replace") as f:
            err = f.read()[:200000]
        return rc, at, err, out

    def chunk(self, worker, mode, a, b, n, cpu_ms, env_extra):
        crashes = 0
        cur = a
        part = 0
        while cur < b:
            tag = f"{mode}-{n}-{part}"
            part += 1
            rc, at, err, out = self.once(worker, mode, cur, b, tag, cpu_ms, env_extra)
            self.parse(out, worker, mode)
            if rc == 0:
                break
            if rc == 2:
                die(f"{worker} {mode}: {err[-500:]}")
            if rc == "wall":
                with self.lock:
                    self.incomplete.append(f"{mode}[{cur},{b}) wall-clock watchdog at case {at}")
                break
            if rc == -signal.SIGPROF:
                # CPU budget of one case exhausted: run it once more alone, with four times the budget
                rc2, _, err2, out2 = self.once(worker, mode, at, at + 1, tag + "r", cpu_ms * 4, env_extra)
                self.parse(out2, worker, mode)
                if rc2 == -signal.SIGPROF:
                    self.hangs += 1
                    self.add("hang:" + self.hang_site(worker, mode, at, cpu_ms, env_extra), mode, worker, at,
                             f"no result within {cpu_ms * 4} ms of CPU time")
                elif rc2 != 0:
                    k, d = classify_crash(err2, rc2 if isinstance(rc2, int) else 1)
                    self.add(k, mode, worker, at, d)
            elif rc == -signal.SIGKILL:
                with self.lock:
                    self.incomplete.append(f"{mode}: worker killed (memory) at case {at}")
            else:
                k, d = classify_crash(err, rc)
                self.add(k, mode, worker, at, d)
            with self.lock:
                self.cases += 1
            crashes += 1
            cur = at + 1
            if crashes >= MAX_CRASHES_PER_CHUNK:
                with self.lock:
                    self.incomplete.append(f"{mode}[{cur},{b}) given up after {crashes} crashes")
                break

    def hang_site(self, worker, mode, at, cpu_ms, env_extra):
        return mode


def match_known(known, prop, key):
    for k in known:
        if k.get("status") == "known" and k["property"] == prop and fnmatch.fnmatchcase(key, k["key"]):
            return k
    return None


def esc(s):
    return re.sub(r"([\[\]])", r"[\1]", s)


def main():
    if len(sys.argv) >= 3 and sys.argv[1] == "--replay":
        return replay(sys.argv[2])
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    cfg = CHECKS[prop]
    t0 = time.time()
    targets = sorted({w["worker"] for w in cfg["work"]} | set(cfg.get("extra_targets", [])))
    tb = build(targets)
    run = Run(prop, tier, seed)
    try:
        ev = explore(run, cfg, prop, tier, seed)
    finally:
        shutil.rmtree(run.tmp, ignore_errors=True)
    ev["wall_s"] = round(time.time() - t0, 2)
    ev["coverage"]["build_s"] = round(tb, 2)
    return finish(run, cfg, prop, tier, seed, ev)


def explore(run, cfg, prop, tier, seed):
    with ThreadPoolExecutor(JOBS) as ex:
        futs = []
        for w in cfg["work"]:
            n = w[tier] if tier in w else w["quick"]
            size = max(1, min(w.get("chunk", 10**9), (n + JOBS * 2 - 1) // (JOBS * 2)))
            for i, a in enumerate(range(0, n, size)):
                futs.append(ex.submit(run.chunk, w["worker"], w["mode"], a, min(n, a + size), i,
                                      w.get("cpu_ms", 10000), w.get("env", {})))
        for f in futs:
            f.result()
    cov = {"evaluations": run.cases, "distinct_nontrivial": len(run.hashes), "rule": cfg["rule"],
           "samples": run.samples or [{"note": "no sample recorded"}],
           "observed": {k: (int(v) if v == int(v) else round(v, 6)) for k, v in sorted(run.stats.items())
                        if abs(v) < 1e300}}
    if run.incomplete:
        cov["incomplete"] = run.incomplete[:20]
    return {"property": prop, "tier": tier, "seed": seed, "level": cfg.get("level", "exploration"), "coverage": cov,
            "assumptions": cfg.get("assumptions", [])}


def finish(run, cfg, prop, tier, seed, ev):
    known = []
    if os.path.exists("known_findings.txt"):
        known = [json.loads(l) for l in open("known_findings.txt") if l.startswith("{")]
    new, seen = [], {}
    for key, v in sorted(run.viol.items()):
        k = match_known(known, prop, key)
        if k:
            seen.setdefault(k["key"], (k, 0, v))
            seen[k["key"]] = (k, seen[k["key"]][1] + v["n"], v)
        else:
            new.append(v)
    ev["violations"] = len(new)
    if seen:
        ev["coverage"]["known_findings_seen"] = {k: n for k, (_, n, _) in seen.items()}
    listed = [k for k in known if k.get("status") == "known" and k["property"] == prop]
    os.makedirs("evidence/replay", exist_ok=True)
    with open(f"evidence/{prop}.json", "w") as f:
        json.dump(ev, f, indent=1)
    for k in listed:
        n = seen[k["key"]][1] if k["key"] in seen else 0
        print(f"KNOWN-FINDING: property={prop} {k['what']} (observed {n} times in this run)")
    for v in new:
        h = hashlib.sha1(v["key"].encode()).hexdigest()[:10]
        path = f"evidence/replay/{prop}-{h}.json"
        with open(path, "w") as f:
            json.dump(dict(v, property=prop, seed=seed, tier=tier), f, indent=1)
        print(f"VIOLATION property={prop} replay={path}")
        print(f"  key={v['key']} count={v['n']} mode={v['mode']} case={v['case']}: {v['detail'][:500]}")
    c = ev["coverage"]
    print(f"{prop} {tier} seed={seed}: {c['evaluations']} executions, {c['distinct_nontrivial']} distinct non-trivial, "
          f"{len(new)} violations, {len(seen)} known findings seen, {ev['wall_s']} s (build {c['build_s']} s)")
    if new:
        return 1
    if run.incomplete:
        print("\n".join(run.incomplete[:10]))
        die("exploration incomplete: no verdict")
    need = cfg.get("min_nontrivial", 2)
    if c["distinct_nontrivial"] < need:
        die(f"only {c['distinct_nontrivial']} non-trivial executions observed")
    return 0


def replay(path):
    v = json.load(open(path))
    build([v["worker"]])
    tmp = tempfile.mkdtemp(prefix="verif-replay-")
    env = dict(os.environ, ASAN_OPTIONS=ASAN, UBSAN_OPTIONS=UBSAN, VF_CASE_CPU_MS="60000")
    try:
        rc = subprocess.call(["build/" + v["worker"], v["mode"], str(v["case"]), str(v["case"] + 1), str(v["seed"]),
                              tmp + "/out", tmp + "/prog", tmp + "/d", "replay"], env=env)
        print("exit", rc)
        print(open(tmp + "/out").read())
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    return 0


if __name__ == "__main__":
    sys.exit(main())
