#!/usr/bin/env python3
"""check.py <property> [--replay FILE]

Builds the harnesses this property needs from /repo's working tree, runs their
case sets in parallel shards, collects what the monitors observed, matches
violations against known_findings.txt and writes evidence/<property>.json."""
import glob, hashlib, json, mmap, os, re, shutil, signal, struct, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(VERIF, "tools"))
import build as B
from plan import PLAN

TIER = os.environ.get("VERIF_TIER", "quick")
if TIER not in ("quick", "thorough"):
    TIER = "quick"
try:
    SEED = int(os.environ.get("VERIF_SEED", "1"))
except ValueError:
    SEED = int(hashlib.sha256(os.environ["VERIF_SEED"].encode()).hexdigest()[:12], 16)
JOBS = int(os.environ.get("VP_JOBS", "8"))
SAN_ENV = {
    "ASAN_OPTIONS": "detect_leaks=0:abort_on_error=0:exitcode=66:allocator_may_return_null=1:hard_rss_limit_mb=3500:detect_stack_use_after_return=0:symbolize=1:handle_abort=0",
    "UBSAN_OPTIONS": "print_stacktrace=1:halt_on_error=1:exitcode=66",
    "TSAN_OPTIONS": "halt_on_error=1:exitcode=66:second_deadlock_stack=1:report_signal_unsafe=0:history_size=4:suppressions="
                    + os.path.join(VERIF, "tools", "tsan.supp"),
}


def limit_plain():
    import resource
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))


def known():
    r = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"known: property=(\S+) sig=(\S+) (.*)", line.strip())
            if m:
                r.append(m.groups())
    return r


def crash_sig(rc, err):
    """Signature of an abnormal end, from what the sanitizer or libc printed."""
    m = re.search(r"SUMMARY: (\w+): ([\w-]+)[^\n]*? in ([^\n(]+)", err)
    if m:
        return "sanitizer:%s:%s" % (m.group(2), re.sub(r"\s+", "_", m.group(3).strip())[:120])
    m = re.search(r"([\w./-]+):(\d+):\d+: runtime error: ([^\n]*)", err)
    if m:
        txt = re.sub(r"0x[0-9a-f]+|-?\d+", "N", m.group(3))
        return "ub:%s:%s" % (os.path.basename(m.group(1)), re.sub(r"\s+", "_", txt)[:100])
    m = re.search(r"SUMMARY: (\w+): ([\w-]+)", err)
    if m:
        return "sanitizer:%s" % m.group(2)
    m = re.search(r"([\w./-]+):(\d+): ([^\n]*): Assertion `([^\n]*)' failed", err)
    if m:
        return "assert:%s:%s" % (os.path.basename(m.group(1)), re.sub(r"\s+", "_", m.group(4))[:100])
    m = re.search(r"terminate called after throwing an instance of '([^']*)'", err)
    if m:
        return "throw:%s" % m.group(1)
    m = re.search(r"/usr/include/c\+\+[^\n]*: ([^\n]*Assertion [^\n]*)", err)
    if m:
        return "libassert:%s" % re.sub(r"\s+", "_", m.group(1))[:120]
    if rc < 0:
        try:
            return "signal:" + signal.Signals(-rc).name
        except ValueError:
            return "signal:%d" % -rc
    return "exit:%d" % rc


class Stop:
    """Once a violation is on record there is no point in running for much longer."""
    at = None
    known = None

    @classmethod
    def seen(cls, pid, sig):
        if cls.known is None:
            cls.known = {(p, s) for p, s, _ in known()}
        if sig != "harness-error" and (pid, sig) not in cls.known and cls.at is None:
            cls.at = time.time() + (25 if TIER == "quick" else 300)

    @classmethod
    def now(cls):
        return cls.at is not None and time.time() > cls.at


class Shard:
    def __init__(self, pid, run, tier, scratch, idx, nsh):
        self.pid, self.run, self.tier, self.idx, self.nsh = pid, run, tier, idx, nsh
        self.scratch = os.path.join(scratch, "s%d" % idx)
        os.makedirs(self.scratch, exist_ok=True)
        os.chmod(self.scratch, 0o777)
        self.viol, self.stats, self.hashes = [], [], set()
        self.inconclusive = []
        self.total = 0

    def cmd(self, start, count, stride):
        r = self.run
        return [os.path.join(B.BUILD, r["fl"], "h_" + r["h"]), "--mode", r["mode"], "--seed", str(SEED),
                "--start", str(start), "--count", str(count), "--stride", str(stride),
                "--scratch", self.scratch, "--effort", "1" if self.tier == "thorough" else "0",
                "--opt", r.get("opt", "")]

    def one(self, start, count, stride, tmo):
        """Returns (rc or None on hang, err, last case, done?)"""
        st = os.path.join(self.scratch, "status")
        out = os.path.join(self.scratch, "out")
        hs = os.path.join(self.scratch, "hashes")
        er = os.path.join(self.scratch, "err")
        for f in (st, out, hs, er):
            if os.path.exists(f):
                os.unlink(f)
        with open(st, "wb") as f:
            f.write(struct.pack("<QQ", start, 0))
        env = dict(os.environ)
        env.update(SAN_ENV)
        env.update(self.run.get("env", {}))
        env["HOME"] = self.scratch
        env["TMPDIR"] = self.scratch
        with open(er, "wb") as ef:
            p = subprocess.Popen(self.cmd(start, count, stride) + ["--status", st, "--out", out, "--hashes", hs],
                                 stdout=ef, stderr=ef, stdin=subprocess.DEVNULL, env=env, cwd=self.scratch,
                                 start_new_session=True,
                                 preexec_fn=limit_plain if self.run["fl"] in ("plain", "fast") else None)
            last, since = None, time.time()
            hang = stopped = False
            watched = 0
            while True:
                try:
                    p.wait(timeout=0.05 if since + 1 > time.time() else 0.25)
                    break
                except subprocess.TimeoutExpired:
                    pass
                if os.path.exists(out) and os.path.getsize(out) != watched:
                    with open(out, "rb") as of:
                        of.seek(watched)
                        more = of.read()
                    more = more[:more.rfind(b"\n") + 1]
                    watched += len(more)
                    for line in more.splitlines():
                        if b'"viol"' in line:
                            try:
                                Stop.seen(self.pid, json.loads(line.decode("latin1")).get("sig"))
                            except ValueError:
                                pass
                if Stop.now():
                    stopped = True
                    try:
                        os.killpg(p.pid, signal.SIGKILL)
                    except ProcessLookupError:
                        pass
                    p.wait()
                    break
                cur = open(st, "rb").read(16)
                if cur != last:
                    last, since = cur, time.time()
                elif time.time() - since > tmo:
                    hang = True
                    try:
                        os.killpg(p.pid, signal.SIGKILL)
                    except ProcessLookupError:
                        pass
                    p.wait()
                    break
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except ProcessLookupError:
                pass
        cur = struct.unpack("<QQ", open(st, "rb").read(16))
        err = open(er, "rb").read()[-20000:].decode("latin1")
        stat = None
        if os.path.exists(out):
            for line in open(out, "rb"):
                try:
                    d = json.loads(line.decode("latin1"))
                except ValueError:
                    continue
                if d.get("t") == "viol":
                    self.viol.append(dict(case=d["case"], sig=d["sig"], msg=d["msg"], err=""))
                elif d.get("t") == "stat":
                    stat = d
                    self.stats.append(d)
        if os.path.exists(hs):
            b = open(hs, "rb").read()
            for i in range(0, len(b) - 7, 8):
                self.hashes.add(b[i:i + 8])
        for f in os.listdir(self.scratch):
            p2 = os.path.join(self.scratch, f)
            if os.path.isdir(p2):
                shutil.rmtree(p2, ignore_errors=True)
        for v in self.viol:
            Stop.seen(self.pid, v["sig"])
        if stopped:
            return "stopped", err, cur[0], False
        return (None if hang else p.returncode), err, cur[0], stat is not None and cur[1] == 2

    def go(self):
        r = self.run
        n = r["n"][1 if self.tier == "thorough" else 0]
        ids = range(self.idx, n, self.nsh)
        i, restarts, tmo = 0, 0, r.get("timeout", 120)
        self.budget_end = time.time() + r.get("budget", 700 if self.tier == "quick" else 6000)
        while i < len(ids) and not Stop.now():
            rc, err, case, ok = self.one(ids[i], len(ids) - i, self.nsh, tmo)
            if rc == "stopped":
                self.total += max(0, (case - self.idx) // self.nsh - i)
                break
            if ok and rc == 0:
                self.total += len(ids) - i
                break
            k = (case - self.idx) // self.nsh
            self.total += k - i + 1
            if rc is None:
                # hang: a lone rerun with three times the allowance decides
                rc2, err2, _, ok2 = self.one(case, 1, 1, tmo * 3)
                if rc2 == "stopped":
                    break
                if ok2 and rc2 == 0:
                    self.inconclusive.append("case %d of %s/%s exceeded %ds once, finished alone" % (case, r["h"], r["mode"], tmo))
                elif rc2 is None:
                    self.viol.append(dict(case=case, sig="hang:%s" % r["mode"], msg="no progress for %d s" % (tmo * 3), err=err2))
                else:
                    self.viol.append(dict(case=case, sig=crash_sig(rc2, err2), msg="abnormal end", err=err2))
            elif rc in (3, 127, 126):
                self.viol.append(dict(case=case, sig="harness-error", msg="harness failed to start rc=%s" % rc, err=err))
                break
            else:
                self.viol.append(dict(case=case, sig=crash_sig(rc, err), msg="abnormal end rc=%s" % rc, err=err))
            for v in self.viol:
                Stop.seen(self.pid, v["sig"])
            i = k + 1
            restarts += 1
            if restarts > 6:
                break
        return self


def main():
    pid = sys.argv[1]
    plan = PLAN[pid]
    t0 = time.time()
    runs = plan["runs"]
    if len(sys.argv) > 3 and sys.argv[2] == "--replay":
        rep = json.load(open(sys.argv[3]))
        if not B.build(["%s-%s" % (rep["fl"], rep["h"])]):
            sys.exit(2)
        d = tempfile.mkdtemp(prefix="vpscratch")
        os.chmod(d, 0o777)
        env = dict(os.environ)
        env.update(SAN_ENV)
        env.update(rep.get("env", {}))
        rc = subprocess.run([os.path.join(B.BUILD, rep["fl"], "h_" + rep["h"]), "--mode", rep["mode"], "--seed",
                             str(rep["seed"]), "--start", str(rep["case"]), "--count", "1", "--scratch", d,
                             "--effort", str(rep["effort"]), "--opt", rep.get("opt", ""), "--verbose"], env=env, cwd=d).returncode
        shutil.rmtree(d, ignore_errors=True)
        sys.exit(rc)
    only = os.environ.get("VP_ONLY")  # development aid: run only these fl/h/mode
    if only:
        runs = [r for r in runs if re.search(only, "%s/%s/%s" % (r["fl"], r["h"], r["mode"]))]
    runs = [r for r in runs if r["n"][1 if TIER == "thorough" else 0] > 0]
    if not B.build(sorted({"%s-%s" % (r["fl"], r["h"]) for r in runs})):
        print("BUILD-FAILED: /repo does not compile with the harness")
        sys.exit(2)
    tb = time.time() - t0
    base = tempfile.mkdtemp(prefix="vpscratch_%s_" % pid, dir=os.environ.get("VP_TMP", "/tmp"))
    os.chmod(base, 0o777)
    shards = []
    try:
        with ThreadPoolExecutor(JOBS) as ex:
            futs = []
            for ri, r in enumerate(runs):
                nsh = min(r.get("shards", JOBS), max(1, r["n"][1 if TIER == "thorough" else 0]))
                for s in range(nsh):
                    sh = Shard(pid, r, TIER, os.path.join(base, "r%d" % ri), s, nsh)
                    futs.append(ex.submit(sh.go))
            shards = [f.result() for f in futs]
    finally:
        shutil.rmtree(base, ignore_errors=True)
    # aggregate
    evals = sum(s["done"] for sh in shards for s in sh.stats)
    crashed = sum(sh.total for sh in shards)
    hashes = set()
    counters, maxima, samples, per_run = {}, {}, [], {}
    for sh in shards:
        tag = "%s/%s/%s" % (sh.run["fl"], sh.run["h"], sh.run["mode"])
        for h in sh.hashes:
            hashes.add((sh.run["h"], sh.run["mode"], h))
        pr = per_run.setdefault(tag, 0)
        per_run[tag] = pr + sum(s["done"] for s in sh.stats)
        for s in sh.stats:
            for k, v in s["counters"].items():
                counters[k] = counters.get(k, 0) + v
            for k, v in s["maxima"].items():
                maxima[k] = max(maxima.get(k, 0), v)
            for x in s["samples"]:
                if sum(1 for y in samples if y.startswith(tag)) < 2:
                    samples.append(tag + ": " + x)
    kn = known()
    fatal, kfound, errors = [], {}, []
    for sh in shards:
        for v in sh.viol:
            v["run"] = sh.run
            if v["sig"] == "harness-error":
                errors.append(v)
                continue
            hit = None
            for (kp, ks, kw) in kn:
                if kp == pid and ks == v["sig"]:
                    hit = (ks, kw)
            if hit:
                kfound.setdefault(hit, 0)
                kfound[hit] += 1
            else:
                fatal.append(v)
    for (ks, kw), n in sorted(kfound.items()):
        print("KNOWN-FINDING: property=%s %s [%s, seen %d times]" % (pid, kw, ks, n))
    inc = [x for sh in shards for x in sh.inconclusive]
    ev = dict(property=pid, tier=TIER, seed=SEED, level=plan["level"],
              coverage=dict(evaluations=evals, distinct_nontrivial=len(hashes), rule=plan["rule"],
                            samples=samples[:12], counters=counters, maxima=maxima, per_run=per_run),
              assumptions=plan.get("assumptions", []), wall_s=round(time.time() - t0, 1), build_s=round(tb, 1),
              violations=len(fatal), known_findings=[k[0] for k in kfound], inconclusive=inc)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    tmp = os.path.join(VERIF, "evidence", ".%s.tmp" % pid)
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1)
    os.replace(tmp, os.path.join(VERIF, "evidence", pid + ".json"))
    print("%s %s seed=%d: %d cases, %d distinct non-trivial, build %.1fs, total %.1fs" %
          (pid, TIER, SEED, evals, len(hashes), tb, time.time() - t0))
    for x in inc:
        print("INCONCLUSIVE: " + x)
    if fatal:
        os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
        seen = {}
        for v in fatal:
            if v["sig"] in seen:
                seen[v["sig"]] += 1
                continue
            seen[v["sig"]] = 1
            r = v["run"]
            name = "%s_%s.json" % (pid, hashlib.sha1((v["sig"] + r["mode"] + r["fl"]).encode()).hexdigest()[:10])
            path = os.path.join(VERIF, "replays", name)
            with open(path, "w") as f:
                json.dump(dict(property=pid, fl=r["fl"], h=r["h"], mode=r["mode"], seed=SEED, case=v["case"],
                               effort=1 if TIER == "thorough" else 0, opt=r.get("opt", ""), env=r.get("env", {}),
                               sig=v["sig"], msg=v["msg"], err=v["err"][-8000:]), f, indent=1)
            print("VIOLATION property=%s replay=%s" % (pid, path))
            print("  %s/%s/%s case %d sig=%s :: %s" % (r["fl"], r["h"], r["mode"], v["case"], v["sig"], v["msg"][:1500]))
            if v["err"]:
                print("  " + "\n  ".join(v["err"].strip().splitlines()[-25:]))
            if len(seen) >= 12:
                break
        sys.exit(1)
    if errors:
        print("HARNESS-ERROR: " + errors[0]["msg"] + " " + errors[0]["err"][-500:])
        sys.exit(2)
    if evals == 0 or len(hashes) < plan.get("min_distinct", 1):
        print("NOTHING-OBSERVED: %d cases, %d distinct" % (evals, len(hashes)))
        sys.exit(2)
    sys.exit(0)


if __name__ == "__main__":
    main()
