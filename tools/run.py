#!/usr/bin/env python3
"""Decides one property: builds, runs the monitors over the generated workload, judges what they reported.

usage: run.py ID                run the check (VERIF_TIER=quick|thorough, VERIF_SEED)
       run.py ID --replay FILE  re-execute the witness in FILE
Exit: 0 held on everything observed; 1 VIOLATION (line printed); 2 error or inconclusive.
"""
import hashlib, json, os, re, subprocess, sys, threading, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(VERIF, "tools"))
import build as B
from checks import CHECKS

WORKERS = int(os.environ.get("VERIF_JOBS", "8"))
ENV = {
    "ASAN_OPTIONS": "detect_leaks=0:abort_on_error=0:exitcode=98:allocator_may_return_null=1:max_allocation_size_mb=512:"
                    "handle_abort=1:detect_stack_use_after_return=1:strict_memcmp=1:quarantine_size_mb=64",
    "UBSAN_OPTIONS": "print_stacktrace=1:exitcode=98",
    "TSAN_OPTIONS": "halt_on_error=0:report_signal_unsafe=0:ignore_noninstrumented_modules=1:history_size=4:"
                    "second_deadlock_stack=1",
    "MALLOC_PERTURB_": "165",
}


def frames(report):
    """Functions of the code under test in the first stack of a sanitizer report, without addresses and lines."""
    out = []
    for m in re.finditer(r"^\s+#\d+ 0x[0-9a-f]+ in (\S+) (\S+)", report, re.M):
        fn, where = m.group(1), m.group(2)
        if "/src/" in where and "/verif/" not in where:
            if fn not in out:
                out.append(fn)
        if len(out) >= 3:
            break
    if not out:   # TSan prints without "in"
        for m in re.finditer(r"^\s+#\d+ (\S+) (/\S+)", report, re.M):
            if "/reference/src/" in m.group(2) and m.group(1) not in out:
                out.append(m.group(1))
            if len(out) >= 3:
                break
    return out


def crash_sig(text, rc):
    m = re.search(r"ERROR: (AddressSanitizer|ThreadSanitizer): ([\w-]+)", text)
    if m:
        kind = m.group(2)
        if kind in ("requested", "attempting"):
            kind = "-".join(re.search(r"Sanitizer: ([\w -]{4,40})", text).group(1).split()[:3])
        rep = text[m.start():]
    else:
        m = re.search(r"(\S+):\d+:\d+: runtime error: (.*)", text)
        if m:
            kind = "ub:" + re.sub(r"0x[0-9a-f]+|-?\d+", "N", m.group(2))[:60].strip().replace(" ", "-")
            rep = text[m.start():]
        else:
            kind, rep = f"crash-rc{rc}", text
    return f"{kind}@{'<'.join(frames(rep)) or '?'}", rep


def tsan_reports(text):
    res = []
    for m in re.finditer(r"WARNING: ThreadSanitizer: ([^\n(]+)(?:\(pid=\d+\))?\n(.*?)\n==================", text, re.S):
        kind, body = m.group(1).strip().replace(" ", "-"), m.group(2)
        stacks = re.split(r"\n\n", body)
        tops = []
        for st in stacks[:2]:
            f = []
            for fm in re.finditer(r"^\s+#\d+ (\S+) (\S+)", st, re.M):
                if "/reference/src/" in fm.group(2):
                    f.append(fm.group(1))
            tops.append(f[0] if f else "?")
        in_repo = [t for t in tops if t != "?"]
        if not in_repo and "/reference/src/" not in body:
            res.append(("harness", kind, body))   # not about the code under test
        else:
            res.append((f"tsan:{kind}@{'|'.join(sorted(tops))}", kind, body))
    return res


class Run:
    def __init__(self, pid):
        self.pid, self.cfg = pid, CHECKS[pid]
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if self.tier not in ("quick", "thorough"):
            self.tier = "quick"
        try:
            self.seed = int(os.environ.get("VERIF_SEED", "1"))
        except ValueError:
            self.seed = int(hashlib.sha256(os.environ["VERIF_SEED"].encode()).hexdigest()[:12], 16)
        self.t0 = time.time()
        self.viols, self.errors, self.inconclusive = [], [], []
        self.cov, self.distinct, self.samples, self.cases, self.rule = {}, set(), [], 0, ""
        self.lock = threading.Lock()
        self.stop_at = float("inf")
        self.knowns = self.known()
        self.work = os.path.join(VERIF, "build", "run", f"{pid}.{os.getpid()}")
        os.makedirs(self.work, exist_ok=True)

    def cmd(self, exe, args):
        # Harnesses may wish to run as an ordinary process with a bounded stack so that runaway recursion is seen.
        return [exe, "--seed", str(self.seed), "--data", os.path.join(VERIF, "data")] + args + \
               (["--thorough"] if self.tier == "thorough" else [])

    def env(self, extra=None):
        e = dict(os.environ)
        e.update(ENV)
        supp = os.path.join(VERIF, "tools", "tsan.supp")
        if os.path.exists(supp):
            e["TSAN_OPTIONS"] += ":suppressions=" + supp
        e.update(extra or {})
        return e

    def add_viol(self, sig, text, variant, harness, index, trace=None, report=None):
        if sig not in self.knowns:
            self.found()
        with self.lock:
            self.viols.append(dict(sig=sig, text=text, variant=variant, harness=harness, index=index, seed=self.seed,
                                   trace=trace or [], report=(report or "")[:20000]))

    def found(self):
        """A fresh violation: the rest of the run has only a little longer."""
        with self.lock:
            self.stop_at = min(self.stop_at, time.time() + (40 if self.tier == "quick" else 900))

    def fresh_in(self, vf):
        try:
            return any(json.loads(l)["sig"] not in self.knowns for l in open(vf) if l.endswith("\n"))
        except (OSError, ValueError):
            return False

    def run_once(self, exe, args, watchdog_total, tag, vf=None):
        log = os.path.join(self.work, tag + ".log")
        with open(log, "wb") as f:
            p = subprocess.Popen(self.cmd(exe, args), stdout=f, stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL, env=self.env(),
                                 cwd=VERIF)
            end = time.time() + watchdog_total
            while True:
                try:
                    rc = p.wait(0.5 if vf is None else 1)
                    break
                except subprocess.TimeoutExpired:
                    pass
                if vf and self.fresh_in(vf):
                    self.found()
                if time.time() > end or time.time() > self.stop_at:
                    p.kill()
                    p.wait()
                    rc = "timeout"
                    break
        with open(log, "rb") as f:
            f.seek(0, 2)
            n = f.tell()
            f.seek(max(0, n - 4_000_000))
            text = f.read().decode("utf8", "replace")
        return rc, text

    def worker(self, variant, harness, exe, w, start, end, limit):
        tag = f"{harness}.{variant}.{w}"
        restarts, bad = 0, set()
        while start < end:
            if time.time() > self.stop_at:
                return
            out, vf, stf = (os.path.join(self.work, f"{tag}.{x}") for x in ("json", "viol", "st"))
            for f in (out, vf, stf):
                if os.path.exists(f):
                    os.unlink(f)
            rc, text = self.run_once(exe, ["--start", str(start), "--end", str(end), "--out", out, "--viol", vf,
                                           "--status", stf, "--watchdog", str(self.cfg.get("watchdog", 90))],
                                     max(5, limit - (time.time() - self.t0)), tag, vf)
            if os.path.exists(vf):
                for line in open(vf):
                    try:
                        v = json.loads(line)
                    except ValueError:
                        continue
                    self.add_viol(v["sig"], v["text"], variant, harness, v["index"], v["trace"])
            for sig, kind, body in (tsan_reports(text) if variant == "tsan" else []):
                if sig == "harness":
                    with self.lock:
                        self.inconclusive.append("race report outside the code under test: " + body[:1500])
                    continue
                self.add_viol(sig, f"ThreadSanitizer: {kind}", variant, harness, start, report=body)
            if os.path.exists(out):
                s = json.load(open(out))
                with self.lock:
                    self.cases += s["cases"]
                    self.rule = s["rule"]
                    for k, n in s["cov"].items():
                        self.cov[k] = self.cov.get(k, 0) + n
                    self.distinct.update(s["distinct"])
                    self.samples += s["samples"]
            if rc in (0, 1) and os.path.exists(out):
                return
            if rc == 66 and variant == "tsan" and os.path.exists(out):
                return
            index = start
            if os.path.exists(stf):
                d = open(stf, "rb").read()
                index = int.from_bytes(d[:8], "little") if len(d) >= 8 else start
            if rc == 96:
                with self.lock:
                    self.errors.append(text[-1500:])
                return
            if rc == "timeout":
                with self.lock:
                    self.inconclusive.append(f"{tag}: out of time in case {index}")
                return
            if rc == 97:   # a hang: confirm it alone, with much more time
                if time.time() > self.stop_at or limit + 60 - (time.time() - self.t0) < 100:
                    with self.lock:
                        self.inconclusive.append(f"{tag}: out of time in case {index}, which had exceeded the watchdog")
                    return
                rc2, text2 = self.run_once(exe, ["--case", str(index), "--watchdog", "90"], 100, tag + ".hang")
                if rc2 == "timeout" and time.time() > self.stop_at:
                    return
                if rc2 in (97, "timeout"):
                    self.add_viol(self.hang_sig(exe, index, tag), "the call did not return", variant, harness, index,
                                  report=text2)
                elif rc2 not in (0, 1):
                    self.add_viol(*self.crash(text2, rc2), variant, harness, index, report=text2[-15000:])
                else:
                    with self.lock:
                        self.inconclusive.append(f"{tag}: case {index} exceeded the watchdog once")
            elif rc == -9:
                with self.lock:
                    self.inconclusive.append(f"{tag}: killed in case {index}")
                return
            else:
                sig, rep = crash_sig(text, rc)
                self.add_viol(sig, rep.splitlines()[0] if rep.strip() else f"exit {rc}", variant, harness, index,
                              report=rep)
                bad.add(sig)
            with self.lock:
                self.cases += max(0, index - start)
            restarts += 1
            if restarts > 12:
                return
            start = index + 1

    def crash(self, text, rc):
        sig, rep = crash_sig(text, rc)
        return sig, (rep.splitlines() or ["?"])[0]

    def hang_sig(self, exe, index, tag):
        # where it hangs: a stack sample of our own child
        try:
            p = subprocess.Popen(self.cmd(exe, ["--case", str(index), "--watchdog", "60"]), stdout=subprocess.DEVNULL,
                                 stderr=subprocess.DEVNULL, env=self.env(), cwd=VERIF)
            time.sleep(20)
            o = subprocess.run(["gdb", "-p", str(p.pid), "-batch", "-ex", "thread apply all bt 30"], capture_output=True,
                               text=True, timeout=60).stdout
            p.kill()
            p.wait()
            f = []
            for m in re.finditer(r"#\d+\s+(?:0x[0-9a-f]+ in )?(ta_\w+|sa_\w+)", o):
                f.append(m.group(1))
            return "hang@" + (f[-1] if f else "?")
        except Exception:
            return "hang@?"

    def known(self):
        res = {}
        p = os.path.join(VERIF, "known_findings.txt")
        if os.path.exists(p):
            for line in open(p):
                m = re.match(r"known: property=(\S+) sig=(\S+) (.*)", line.strip())
                if m and m.group(1) == self.pid:
                    res[m.group(2)] = m.group(3)
        return res

    def execute(self):
        limit = 3000 if self.tier == "thorough" else 780
        if self.tier == "thorough":
            limit = self.cfg.get("thorough_limit", 6 * 3600)
        for part in self.cfg["parts"]:
            if time.time() > self.stop_at:
                break
            variant, harness = part["variant"], part["harness"]
            bdir = B.build(variant, [harness])
            exe = os.path.join(bdir, harness)
            n = part["cases"][0 if self.tier == "quick" else 1]
            n = int(os.environ.get("VERIF_CASES", n))
            W = min(part.get("workers", WORKERS), n)
            step = (n + W - 1) // W
            th = []
            for w in range(W):
                t = threading.Thread(target=self.worker,
                                     args=(variant, harness, exe, w, w * step, min(n, (w + 1) * step), limit))
                t.start()
                th.append(t)
            for t in th:
                t.join()
        return self.judge()

    def judge(self):
        known = self.knowns
        seen, fresh = {}, {}
        for v in self.viols:
            if v["sig"] in known:
                seen.setdefault(v["sig"], v)
            else:
                fresh.setdefault(v["sig"], v)
        for sig, what in known.items():
            print(f"KNOWN-FINDING: property={self.pid} {what}" + ("" if sig in seen else " (not met in this run)"))
        rdir = os.path.join(VERIF, "replays")
        os.makedirs(rdir, exist_ok=True)
        first = None
        for sig, v in fresh.items():
            name = f"{self.pid}-{hashlib.sha256(sig.encode()).hexdigest()[:10]}.json"
            path = os.path.join(rdir, name)
            json.dump(dict(property=self.pid, tier=self.tier, **v), open(path, "w"), indent=1)
            print(f"VIOLATION property={self.pid} replay={path}")
            print(f"  {sig}: {v['text'][:500]}")
            first = first or path
        cov = {
            "evaluations": self.cases,
            "distinct_nontrivial": len(self.distinct),
            "rule": self.rule,
            "samples": sorted(self.samples, key=len)[:6] or ["none"],
            "observed": dict(sorted(self.cov.items())),
        }
        ev = {
            "property": self.pid, "tier": self.tier, "seed": self.seed, "level": self.cfg["level"], "coverage": cov,
            "assumptions": self.cfg.get("assumptions", []), "wall_s": round(time.time() - self.t0, 1),
            "violations": len(fresh),
        }
        if self.inconclusive:
            cov["inconclusive"] = [x[:300] for x in self.inconclusive[:10]]
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        json.dump(ev, open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w"), indent=1)
        rc = 0
        if fresh:
            rc = 1
        elif self.errors:
            print("ERROR: the harness could not run: " + self.errors[0])
            rc = 2
        else:
            missing = [k for k in self.cfg.get("require", []) if not self.cov.get(k)]
            if missing:
                print(f"INCONCLUSIVE: never observed {missing}")
                rc = 2
            hard = [x for x in self.inconclusive if "out of time" in x or "killed" in x]
            if hard:
                print("INCONCLUSIVE: " + hard[0])
                rc = 2
        print(f"{self.pid} {self.tier} seed={self.seed}: {self.cases} cases, {len(self.distinct)} distinct, "
              f"{len(fresh)} violation(s), {len(seen)} known, {ev['wall_s']} s")
        if rc != 1 and not os.environ.get("VERIF_KEEP"):
            subprocess.run(["rm", "-rf", self.work])
        return rc


def main():
    if len(sys.argv) < 2 or sys.argv[1] not in CHECKS:
        print("usage: run.py ID [--replay FILE]; ids: " + " ".join(sorted(CHECKS)))
        return 2
    r = Run(sys.argv[1])
    if "--replay" in sys.argv:
        v = json.load(open(sys.argv[sys.argv.index("--replay") + 1]))
        r.seed, r.tier = v["seed"], v["tier"]
        bdir = B.build(v["variant"], [v["harness"]])
        exe = os.path.join(bdir, v["harness"])
        return subprocess.run(r.cmd(exe, ["--case", str(v["index"]), "-v"]), env=r.env(), cwd=VERIF).returncode
    return r.execute()


if __name__ == "__main__":
    sys.exit(main())
