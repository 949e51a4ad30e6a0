#!/usr/bin/env python3
"""Runs the check of one property: builds the instrumented extension from /repo's working tree, runs the property's
workload in parallel monitored processes, and decides from what the monitors observed.

usage: check.py <property id> <quick|thorough> [--seed N] [--cases N] [--case K (run one case, verbosely)]
exit 0: the property held on everything explored; 1: VIOLATION line printed; 2: the check itself could not run."""
import argparse, json, os, re, shutil, signal, subprocess, sys, tempfile, threading, time, hashlib
from concurrent.futures import ThreadPoolExecutor

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vbuild

VERIF = vbuild.VERIF
WORKER = os.path.join(VERIF, "php", "worker.php")
CASE_TIMEOUT = int(os.environ.get("VERIF_CASE_TIMEOUT", "60"))


def load_config():
    return json.load(open(os.path.join(VERIF, "php", "checks.json")))


def known_findings(prop):
    out = []
    path = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path):
            m = re.match(r"finding: property=(\S+) key=(\S+) (.*)", line.strip())
            if m and m.group(1) == prop:
                out.append((m.group(2), m.group(3)))
    return out


class Worker:
    def __init__(self, b, prop, seed, tier, lo, hi, tmp, name, verbose=False, ini=()):
        self.out = os.path.join(tmp, name)
        self.b, self.prop, self.seed, self.tier, self.lo, self.hi, self.verbose, self.ini = b, prop, seed, tier, lo, hi, verbose, ini
        self.rc = None
        self.hang = False
        self.err = ""

    def progress(self):
        try:
            return int(open(self.out + ".progress").read().split()[0])
        except (OSError, ValueError, IndexError):
            return None

    def run(self):
        env = dict(self.b["env"])
        if self.verbose:
            env["VERBOSE"] = "1"
            env["VMON_TRACE"] = "1"
        cmd = vbuild.php_cmd(self.b, WORKER, self.prop, self.seed, self.tier, self.lo, self.hi, self.out, ini=self.ini)
        with open(self.out + ".err", "wb") as ef:
            p = subprocess.Popen(cmd, env=env, stdin=subprocess.DEVNULL, stdout=ef, stderr=ef, cwd=os.path.dirname(self.out), start_new_session=True)
            last, since = None, time.time()
            while True:
                try:
                    p.wait(1.0)
                    break
                except subprocess.TimeoutExpired:
                    pass
                pr = self.progress()
                if pr != last:
                    last, since = pr, time.time()
                elif time.time() - since > CASE_TIMEOUT:
                    self.hang = True
                    try:
                        os.killpg(p.pid, signal.SIGKILL)
                    except ProcessLookupError:
                        pass
                    p.wait()
                    break
        self.rc = p.returncode
        with open(self.out + ".err", "rb") as f:
            data = f.read()
        self.err = data[-60000:].decode("utf-8", "replace") if not self.verbose else data[-400000:].decode("utf-8", "replace")
        return self

    def result(self):
        try:
            return json.load(open(self.out + ".json"))
        except (OSError, ValueError):
            return None


def crash_key(err, rc):
    """A stable name for a crash: what was detected and in which function of the extension."""
    kind = None
    m = re.search(r"VMON-REPORT: (\S+)", err)
    if m:
        kind = "heap:" + m.group(1)
    m = re.search(r"ERROR: AddressSanitizer:? (\S+)", err) if not kind else None
    if m:
        kind = "asan:" + m.group(1)
    m = re.search(r"runtime error: ([^\n]*)", err) if not kind else None
    if m:
        kind = "ubsan:" + re.sub(r"0x[0-9a-f]+|-?\d+", "N", m.group(1)).strip().replace(" ", "-")[:60]
    if not kind:
        m = re.search(r"PHP Fatal error:\s+([^\n]{0,60})", err)
        if m:
            kind = "fatal:" + re.sub(r"\d+", "N", m.group(1)).replace(" ", "-")
    if not kind:
        kind = "signal:%d" % -rc if rc is not None and rc < 0 else "exit:%s" % rc
    fn = ""
    for m in re.finditer(r" in (\w+) /repo/|teds\.so\((\w+)\+", err):
        fn = m.group(1) or m.group(2)
        break
    if not fn:
        m = re.search(r"(teds_\w+\.[ch]|teds\.c):\d+", err)
        fn = m.group(1) if m else ""
    return kind + ("@" + fn if fn else "")


def is_direct(w):
    """Exit states that the monitors themselves produced: no confirmation needed."""
    return w.rc in (97, 98) or (w.rc is not None and w.rc < 0 and -w.rc in (signal.SIGSEGV, signal.SIGBUS, signal.SIGABRT, signal.SIGILL, signal.SIGFPE) and not w.hang)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("tier", choices=["quick", "thorough"])
    ap.add_argument("--seed", default=os.environ.get("VERIF_SEED", "1") or "1")
    ap.add_argument("--cases", type=int)
    ap.add_argument("--case", type=int)
    ap.add_argument("--procs", type=int, default=int(os.environ.get("VERIF_PROCS", "8")))
    a = ap.parse_args()
    t0 = time.time()
    cfg = load_config()[a.prop]
    total = a.cases or cfg[a.tier]
    try:
        b = vbuild.build(cfg.get("flavour", "asan"))
    except vbuild.BuildError as e:
        sys.stderr.write("build failed: %s\n" % e)
        return 2
    tmp = tempfile.mkdtemp(prefix="verif-%s-" % a.prop)
    try:
        return decide(a, cfg, total, b, tmp, t0)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def decide(a, cfg, total, b, tmp, t0):
    ini = cfg.get("ini", [])
    if a.case is not None:
        w = Worker(b, a.prop, a.seed, a.tier, a.case, a.case + 1, tmp, "one", True, ini).run()
        sys.stderr.write(w.err)
        r = w.result()
        if r is None or w.rc != 0:
            print("case %d: process ended with %s: %s" % (a.case, w.rc, crash_key(w.err, w.rc)))
            return 1
        bad = [v for v in r["violations"] + r["soft"] if v["key"] not in [k[0] for k in known_findings(a.prop)]]
        for v in bad:
            print("case %d: %s: %s" % (v["case"], v["key"], v["msg"]))
        return 1 if bad else 0

    chunk = max(1, min(cfg.get("chunk", 10 ** 9), -(-total // (a.procs * 2))))
    todo = [(lo, min(lo + chunk, total)) for lo in range(0, total, chunk)]
    found, notes, infra = [], [], []     # found: dicts case,key,msg,trace,log
    merged = {"done": 0, "ops": {}, "counts": {}, "events": 0, "checks": 0, "samples": [], "verified": 0, "allocs": 0}
    states, blocks = set(), set()
    lock = threading.Lock()
    stop = threading.Event()
    n_worker = [0]

    def absorb(w, r):
        with lock:
            merged["done"] += r["done"]
            merged["events"] += r["events"]
            merged["checks"] += r["checks"]
            for k, v in (r["ops"] or {}).items():
                merged["ops"][k] = merged["ops"].get(k, 0) + v
            for k, v in (r["counts"] or {}).items():
                merged["counts"][k] = max(merged["counts"].get(k, 0), v) if k.startswith(("largest", "max")) else merged["counts"].get(k, 0) + v
            if len(merged["samples"]) < 3:
                merged["samples"] += r["samples"][:1]
            vm = r.get("vmon") or {}
            merged["verified"] += vm.get("verified", 0)
            merged["allocs"] += vm.get("allocs", 0)
            try:
                d = open(w.out + ".states", "rb").read()
                states.update(d[i:i + 8] for i in range(0, len(d), 8))
                d = open(w.out + ".cov", "rb").read()
                blocks.update(d[i:i + 4] for i in range(0, len(d), 4))
            except OSError:
                pass
            for v in r["violations"] + r.get("soft", []):
                found.append(v)

    def run_range(rng):
        lo, hi = rng
        while lo < hi and not stop.is_set():
            with lock:
                n_worker[0] += 1
                name = "w%d" % n_worker[0]
            w = Worker(b, a.prop, a.seed, a.tier, lo, hi, tmp, name, False, ini).run()
            r = w.result() if not w.hang else None
            if r is not None and w.rc == 0:
                absorb(w, r)
                break
            # the process died or hung at some case: look at that case alone
            at = w.progress()
            if r is not None:
                at = hi - 1  # finished the cases, died while shutting down
            if at is None:
                infra.append("worker for cases %d..%d did not start: rc=%s %s" % (lo, hi, w.rc, w.err[-1500:]))
                stop.set()
                return
            again = Worker(b, a.prop, a.seed, a.tier, at, at + 1, tmp, name + "r", True, ini).run()
            ra = again.result() if not again.hang else None
            if again.hang and w.hang:
                found.append({"case": at, "key": "hang", "msg": "case %d did not finish within %d s, twice" % (at, CASE_TIMEOUT), "trace": [], "log": again.err})
            elif again.rc != 0 or ra is None:
                found.append({"case": at, "key": crash_key(again.err, again.rc), "msg": "process died (exit %s)" % again.rc, "trace": [], "log": again.err})
            elif ra["violations"]:
                found.extend(ra["violations"])
            elif is_direct(w):
                found.append({"case": at, "key": crash_key(w.err, w.rc), "msg": "process died (exit %s) while running cases %d..%d" % (w.rc, lo, at), "trace": [], "log": w.err,
                              "range": [lo, at + 1]})
            else:
                notes.append("case %d: process ended with %s%s but the case alone passes; not counted" % (at, w.rc, " (hang)" if w.hang else ""))
                infra.append(notes[-1] + " " + w.err[-500:])
            if r is not None:
                absorb(w, r)
                break
            # cases lo..at-1 passed before the crash; run them again only for their evidence if nothing was found
            lo = at + 1
            if len(found) >= 8:
                stop.set()

    with ThreadPoolExecutor(a.procs) as ex:
        list(ex.map(run_range, todo))

    known = known_findings(a.prop)
    hit, fresh = {}, []
    for v in found:
        m = [k for k in known if k[0] == v["key"]]
        if m:
            hit[m[0]] = hit.get(m[0], 0) + v.get("n", 1)
        else:
            fresh.append(v)
    for k in known:
        print("KNOWN-FINDING: property=%s %s (seen %d times in this run)" % (a.prop, k[1], hit.get(k, 0)))
    fresh.sort(key=lambda v: v["case"])
    reported = {}
    for v in fresh:
        reported.setdefault(v["key"], v)
    replays = []
    rdir = os.path.join(VERIF, "replays")
    for key, v in list(reported.items())[:5]:
        os.makedirs(rdir, exist_ok=True)
        path = os.path.join(rdir, "%s-%s.txt" % (a.prop, hashlib.sha256(key.encode()).hexdigest()[:10]))
        log = v.get("log", "")
        with open(path, "w") as f:
            f.write("property %s, seed %s, tier %s, case %d\nviolated: %s\n%s\n\nreplay with:\n  python3 %s/bin/check.py %s %s --seed %s --case %d\n%s\n\nhistory of the case:\n%s\n\nlog:\n%s\n" % (
                a.prop, a.seed, a.tier, v["case"], key, v["msg"], VERIF, a.prop, a.tier, a.seed, v["case"],
                ("  (needs the cases %s before it in the same process)" % v["range"]) if "range" in v else "", "\n".join("  " + t for t in v["trace"]), log[-60000:]))
        replays.append(path)
        print("VIOLATION property=%s replay=%s" % (a.prop, path))
        print("  case %d: %s: %s" % (v["case"], key, v["msg"][:600]))
    ops = dict(sorted(merged["ops"].items(), key=lambda kv: -kv[1]))
    ev = {
        "property": a.prop, "tier": a.tier, "seed": int(a.seed) if str(a.seed).isdigit() else 0, "level": cfg["level"],
        "coverage": {
            "evaluations": merged["done"],
            "distinct_nontrivial": len(states),
            "rule": cfg["rule"],
            "samples": [s[:1500] for s in merged["samples"][:3]],
            "monitored_events": merged["events"],
            "oracle_comparisons": merged["checks"],
            "distinct_operations": len(ops),
            "operations": dict(list(ops.items())[:120]),
            "counters": dict(sorted(merged["counts"].items())),
            "extension_basic_blocks_executed": len(blocks),
            "extension_basic_blocks_total": b["blocks"],
            "heap_blocks_tracked": merged["allocs"],
            "freed_blocks_verified_untouched": merged["verified"],
            "notes": notes[:20],
            "violation_details": [{"key": v["key"], "case": v["case"], "msg": v["msg"][:400]} for v in fresh[:20]],
        },
        "wall_s": round(time.time() - t0, 2),
        "violations": len(fresh),
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    p = os.path.join(VERIF, "evidence", a.prop + ".json")
    with open(p + ".tmp", "w") as f:
        json.dump(ev, f, indent=1)
    os.replace(p + ".tmp", p)
    if os.environ.get("VERIF_COV"):  # for looking at what no workload reaches
        open(os.environ["VERIF_COV"], "wb").write(b"".join(sorted(blocks)))
    print("%s %s: %d cases, %d events, %d oracle comparisons, %d distinct states, %d/%d blocks of the extension, %.1f s" % (
        a.prop, a.tier, merged["done"], merged["events"], merged["checks"], len(states), len(blocks), b["blocks"], time.time() - t0))
    if fresh:
        return 1
    if merged["done"] < total:
        sys.stderr.write("only %d of %d cases completed\n%s\n" % (merged["done"], total, "\n".join(infra)))
        return 0 if found and not infra else 2
    return 0


if __name__ == "__main__":
    sys.exit(main())
