#!/usr/bin/env python3
"""check.py <property id> [--tier quick|thorough]: builds from /repo, runs the monitored workload, judges it.

Exit 0: held on everything explored.  Exit 1 + 'VIOLATION property=<id> replay=<path>': broken.
Any other exit: the machinery itself failed.
"""
import argparse, fnmatch, json, os, shutil, signal, subprocess, sys, threading, time, queue, re

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(VERIF, "tools"))
import build as B  # noqa: E402
from checks import CHECKS  # noqa: E402

CPU = 8


def known():
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return json.load(f)["findings"]


class Part:
    """One harness binary in one build variant with a number of cases."""

    def __init__(self, pid, spec, seed, tier, work):
        self.pid, self.spec, self.seed, self.tier, self.work = pid, spec, seed, tier, work
        self.n = spec["thorough"] if tier == "thorough" else spec["quick"]
        self.chunk = spec.get("chunk", max(1, min(400, self.n // 32 or 1)))
        self.res = {"evaluations": 0, "violating_cases": 0, "counts": {}, "keycounts": {}, "samples": []}
        self.viol = []
        self.hashes = set()
        self.inconclusive = []
        self.lock = threading.Lock()
        self.crashes = 0

    def cmd(self, a, b, out, status, cpu=None):
        c = [self.exe, "--seed", str(self.seed), "--from", str(a), "--to", str(b), "--out", out, "--status", status]
        if self.tier == "thorough":
            c.append("--thorough")
        if cpu:
            c += ["--cpu", str(cpu)]
        return c

    def env(self):
        e = dict(os.environ)
        e["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=0:exitcode=98:allocator_may_return_null=1:detect_stack_use_after_return=1:handle_abort=1"
        e["UBSAN_OPTIONS"] = "print_stacktrace=1:exitcode=98"
        e["TSAN_OPTIONS"] = "exitcode=98:halt_on_error=1:second_deadlock_stack=1"
        e["LC_ALL"] = "C"
        e["VERIF_REPO"] = B.REPO
        e.update(self.spec.get("env", {}))
        return e

    def launch(self, a, b, name, cpu=None, wall=None):
        out = os.path.join(self.work, name + ".json")
        status = os.path.join(self.work, name + ".st")
        err = os.path.join(self.work, name + ".err")
        for f in (out, out + ".h"):
            if os.path.exists(f):
                os.unlink(f)
        d = os.path.join(self.work, name + ".d")
        os.makedirs(d, exist_ok=True)
        with open(err, "wb") as ef:
            p = subprocess.Popen(self.cmd(a, b, out, status, cpu), stdout=subprocess.DEVNULL, stderr=ef, env=self.env(), cwd=d,
                                 preexec_fn=self.limits)
            try:
                rc = p.wait(timeout=wall or 840)
            except subprocess.TimeoutExpired:
                p.kill()
                p.wait()
                rc = "timeout"
        shutil.rmtree(d, ignore_errors=True)
        text = ""
        with open(err, "rb") as ef:
            ef.seek(0, 2)
            size = ef.tell()
            ef.seek(max(0, size - 60000))
            text = ef.read().decode("utf-8", "replace")
        at = None
        try:
            with open(status) as f:
                at = int(f.read().split()[0])
        except (OSError, IndexError, ValueError):
            pass
        r = None
        if rc == 0 and os.path.exists(out):
            with open(out) as f:
                r = json.load(f)
            with open(out + ".h", "rb") as f:
                data = f.read()
            r["hashes"] = [data[i:i + 8] for i in range(0, len(data), 8)]
        for f in (out, out + ".h", status, err):
            if os.path.exists(f):
                os.unlink(f)
        return rc, r, at, text

    def limits(self):
        import resource
        if "asan" not in self.spec["variant"] and "tsan" not in self.spec["variant"]:
            resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))

    def merge(self, r):
        with self.lock:
            self.res["evaluations"] += r["evaluations"]
            self.res["violating_cases"] += r["violating_cases"]
            for k in ("counts", "keycounts"):
                for n, v in r[k].items():
                    self.res[k][n] = self.res[k].get(n, 0) + v
            if len(self.res["samples"]) < 6:
                self.res["samples"] += r["samples"][: 6 - len(self.res["samples"])]
            self.viol += r["violations"]
            if len(self.hashes) < 5000000:
                self.hashes.update(r["hashes"])

    def chunk_run(self, a, b):
        name = "%s.%d" % (self.spec["harness"], a)
        while a < b:
            rc, r, at, text = self.launch(a, b, name)
            if r is not None:
                self.merge(r)
                return
            if at is None or not a <= at < b:
                raise RuntimeError("harness %s ended with %s before any case: %s" % (self.exe, rc, text[-1500:]))
            # one case killed the process: keep what came before it, judge it alone, go on after it
            if at > a:
                rc0, r0, _, _ = self.launch(a, at, name)
                if r0 is not None:
                    self.merge(r0)
            if rc == 96:  # ran out of time where that is no fault
                with self.lock:
                    self.inconclusive.append(at)
                a = at + 1
                continue
            self.judge(at, a, name)
            with self.lock:
                self.crashes += 1
                if self.crashes > 40:
                    return
            a = at + 1

    def judge(self, at, start, name):
        rc, r, _, text = self.launch(at, at + 1, name, cpu=90, wall=400)
        how = "alone"
        if r is not None:  # not reproduced alone: with the cases before it, in one process
            rc2, r2, at2, text2 = self.launch(start, at + 1, name, cpu=90, wall=600)
            if r2 is not None or at2 != at:
                self.merge(r)
                with self.lock:
                    self.inconclusive.append(at)
                return
            rc, text, how = rc2, text2, "after cases %d..%d" % (start, at - 1)
        if rc == "timeout" or rc == 96:
            with self.lock:
                self.inconclusive.append(at)
            return
        key = crash_key(rc, text)
        with self.lock:
            self.res["evaluations"] += 1
            self.res["violating_cases"] += 1
            self.res["keycounts"][key] = self.res["keycounts"].get(key, 0) + 1
            self.viol.append({"case": at, "key": key, "detail": "process ended with %s (%s)\n%s" % (rc, how, crash_text(text)),
                              "trace": "", "from": start if how != "alone" else at})


def crash_text(text):
    m = re.search(r"(ERROR: AddressSanitizer|runtime error:|WARNING: ThreadSanitizer|HARNESS-HANG|terminate called|Assertion)", text)
    return text[max(0, m.start() - 300):m.start() + 3500] if m else text[-2500:]


def crash_key(rc, text):
    if "HARNESS-HANG" in text or rc == 97:
        return "hang"
    where = ""
    for m in re.finditer(r"#\d+ (?:0x[0-9a-f]+ in )?(.+?) (/\S+?):(\d+)", text):
        if "/repo/" in m.group(2) or B.REPO in m.group(2):
            fn = re.sub(r"\(.*", "", m.group(1))
            where = fn[:80]
            break
    m = re.search(r"SUMMARY: (\w+Sanitizer): ([\w-]+)", text)
    if m and m.group(1) != "UndefinedBehaviorSanitizer":
        return "%s/%s/%s" % (m.group(1), m.group(2), where)
    m = re.search(r"(\S+?):(\d+):\d+: runtime error: (.*)", text)
    if m:
        msg = re.sub(r"0x[0-9a-f]+|\d+", "#", m.group(3))[:70]
        return "UBSan/%s/%s" % (msg, where or os.path.basename(m.group(1)))
    m = re.search(r"(terminate called[^\n]*|Assertion [^\n]*)", text)
    if m:
        return "abort/" + re.sub(r"\d+", "#", m.group(1))[:90]
    if isinstance(rc, int) and rc < 0:
        return "signal/%s" % signal.Signals(-rc).name
    return "exit/%s" % rc


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("pid")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick")
    ap.add_argument("--replay")
    ap.add_argument("--scale", type=float, default=1.0)
    ap.add_argument("--show", action="store_true")
    a = ap.parse_args()
    pid = a.pid
    spec = CHECKS[pid]
    seed = int(os.environ.get("VERIF_SEED") or "1")
    t0 = time.time()
    work = os.path.join(B.CACHE, "work", "%s-%d" % (pid, os.getpid()))
    os.makedirs(work, exist_ok=True)
    try:
        code = run(a, pid, spec, seed, t0, work)
    except B.BuildError as e:
        print("BUILD-ERROR", e)
        code = 3
    finally:
        shutil.rmtree(work, ignore_errors=True)
    sys.exit(code)


def run(a, pid, spec, seed, t0, work):
    parts = []
    for s in spec["parts"]:
        p = Part(pid, s, seed, a.tier, work)
        p.exe = B.build(s["variant"], s["harness"], pid)
        d = int(subprocess.run([p.exe, "--directed"], capture_output=True, text=True, check=True, env=p.env()).stdout)
        p.directed = d
        p.n = d + int(p.n * a.scale)
        parts.append(p)
    t_build = time.time() - t0
    if a.replay:
        with open(a.replay) as f:
            rp = json.load(f)
        p = parts[rp["part"]]
        p.seed, p.tier = rp["seed"], rp["tier"]
        c = [p.exe, "--seed", str(p.seed), "--from", str(rp.get("from", rp["case"])), "--to", str(rp["case"] + 1), "--verbose", "--cpu", "600"]
        if p.tier == "thorough":
            c.append("--thorough")
        return subprocess.run(c, env=p.env(), cwd=work).returncode
    jobs = queue.Queue()
    for p in parts:
        x = 0
        while x < p.n:
            # directed cases one process each chunk of 8, random ones in chunks
            step = min(8, p.directed - x) if x < p.directed else p.chunk
            jobs.put((p, x, min(p.n, x + step)))
            x += step
    errors = []

    def worker():
        while True:
            try:
                p, x, y = jobs.get_nowait()
            except queue.Empty:
                return
            if errors:
                return
            try:
                p.chunk_run(x, y)
            except Exception as e:  # harness failure
                errors.append(str(e))

    ts = [threading.Thread(target=worker) for _ in range(CPU)]
    [t.start() for t in ts]
    [t.join() for t in ts]
    if errors:
        print("HARNESS-ERROR", errors[0])
        return 4
    listed = [k for k in known() if k["property"] == pid and k.get("status", "open") == "open"]
    hits = {k["id"]: 0 for k in listed}
    new = {}
    n_new = 0
    for i, p in enumerate(parts):
        for v in p.viol:
            hit = None
            for k in listed:
                if any(fnmatch.fnmatchcase(v["key"], pat) for pat in k["keys"]) and (not k.get("case_only") or v["case"] < p.directed):
                    hit = k
                    break
            if hit:
                hits[hit["id"]] += 1
            else:
                n_new += 1
                new.setdefault(v["key"], (i, p, v))
    ev = {"evaluations": 0, "distinct_nontrivial": 0, "rule": spec["rule"], "samples": [], "observed": {}, "parts": []}
    for p in parts:
        ev["evaluations"] += p.res["evaluations"]
        ev["distinct_nontrivial"] += len(p.hashes)
        ev["samples"] += p.res["samples"][:4]
        for k, v in p.res["counts"].items():
            ev["observed"][k] = ev["observed"].get(k, 0) + v
        ev["parts"].append({"harness": p.spec["harness"], "build": p.spec["variant"], "cases": p.res["evaluations"],
                            "fixed_cases": p.directed, "violating_cases": p.res["violating_cases"],
                            "inconclusive_cases": p.inconclusive[:20], "crashed_cases": p.crashes})
    ev["known_findings_seen"] = {k: v for k, v in hits.items()}
    ev["build_s"] = round(t_build, 1)
    doc = {"property": pid, "tier": a.tier, "seed": seed, "level": spec.get("level", "exploration"), "coverage": ev,
           "assumptions": spec.get("assumptions", []), "wall_s": round(time.time() - t0, 1), "violations": n_new}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
        json.dump(doc, f, indent=1)
    total = ev["evaluations"]
    print("%s %s seed=%d: %d cases, %d distinct, build %.0f s, total %.0f s" % (pid, a.tier, seed, total, ev["distinct_nontrivial"], t_build, time.time() - t0))
    print("observed:", json.dumps(ev["observed"], sort_keys=True)[:3000])
    # vacuity: a run that observed too little is an error of the check, not a pass
    if not new and a.scale >= 1.0:
        for k, least in spec.get("floor", {}).items():
            if ev["observed"].get(k, 0) < least:
                print("HARNESS-ERROR too little observed: %s = %d < %d" % (k, ev["observed"].get(k, 0), least))
                return 5
    for k in listed:
        if hits[k["id"]]:
            print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
        else:
            print("note: listed finding %s was not observed in this run" % k["id"])
    rdir = os.path.join(VERIF, "replays", pid)
    shutil.rmtree(rdir, ignore_errors=True)
    if not new:
        return 0
    os.makedirs(rdir, exist_ok=True)
    for n, (key, (i, p, v)) in enumerate(sorted(new.items())[:40]):
        path = os.path.join(rdir, "%d.json" % n)
        with open(path, "w") as f:
            json.dump({"property": pid, "part": i, "harness": p.spec["harness"], "variant": p.spec["variant"], "seed": p.seed,
                       "tier": a.tier, "case": v["case"], "from": v.get("from", v["case"]), "key": key,
                       "detail": v["detail"], "trace": v["trace"],
                       "replay": "cd /verif && ./check.py %s --replay %s" % (pid, path)}, f, indent=1)
        print("violated [%s] x%d: %s" % (key, p.res["keycounts"].get(key, 1), v["detail"][:700 if a.show else 300]))
        if a.show:
            print(v["trace"][:2500])
        print("VIOLATION property=%s replay=%s" % (pid, path))
    return 1


if __name__ == "__main__":
    main()
