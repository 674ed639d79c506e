"""Frame of every check: builds the library from /repo's working tree, runs monitored workloads in shards,
judges what the monitors reported against known-findings.txt, writes the evidence file."""
import json, os, re, shutil, signal, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("REPO_UNDER_TEST", "/repo")
NCPU = max(2, min(8, os.cpu_count() or 8))


class Inconclusive(Exception):
    pass


class ReplayDone(Exception):
    def __init__(self, code):
        self.code = code


def load_known():
    """finding: property=<id> key=<K..> <text>   and   fixed: property=<id> <commit> <text>"""
    out = {}
    for l in open(os.path.join(VERIF, "known-findings.txt")):
        m = re.match(r"finding: property=(\w+) key=(\S+) (.*)", l)
        if m:
            out[(m.group(1), m.group(2))] = m.group(3).strip()
    return out


class Check:
    def __init__(self, prop, tier, seed, level):
        self.prop, self.tier, self.seed, self.level = prop, tier, seed, level
        self.t0 = time.time()
        self.dir = os.path.join(VERIF, "build", prop)
        shutil.rmtree(self.dir, ignore_errors=True)
        os.makedirs(self.dir)
        self.replays = os.path.join(VERIF, "replays")
        os.makedirs(self.replays, exist_ok=True)
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        self.known = load_known()
        self.viol = []       # (key, detail, replay dict)
        self.findings = {}   # key -> (count, example)
        self.counters = {}
        self.samples = []
        self.evaluations = 0
        self.distinct = 0
        self.notes = []
        self.configs = []
        self.assumptions = []
        self.extra = {}
        self.nrun = 0
        self.hangs = 0
        self.replay = None

    @property
    def thorough(self):
        return self.tier == "thorough"

    def log(self, *a):
        print("[%s %6.1fs]" % (self.prop, time.time() - self.t0), *a, flush=True)

    # ---- building -----------------------------------------------------------------------------------------
    def cc(self, cmd, what, must=True, timeout=600, cwd=None):
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=timeout, cwd=cwd)
        if p.returncode and must:
            raise Inconclusive("%s does not build: %s\n%s" % (what, " ".join(cmd), p.stdout[-4000:]))
        return p

    def build(self, harness, name=None, cc="g++", flags=("-O2",), link=(), lib="/repo/src/idna.cpp", hflags=None, optional=(), internals=False, std="-std=c++20", std_lib=None, include=None):
        """Compiles the library's translation unit and the harness (in parallel) and links them.
        `optional`: groups of extra harness flags, the first that compiles is used (internals may be renamed)."""
        name = name or harness
        exe = os.path.join(self.dir, name)
        lib = lib.replace("/repo", REPO)
        inc = ["-I" + (include or os.path.join(REPO, "include"))]
        hinc = inc + (["-I" + os.path.join(REPO, "src")] if internals else []) + ["-I" + os.path.join(VERIF, "harness")]
        flags = list(flags)
        hf = list(hflags if hflags is not None else flags)
        src = os.path.join(VERIF, "harness", harness + ".cpp")
        with ThreadPoolExecutor(3) as ex:
            a = ex.submit(self.cc, [cc, std_lib or std, *flags, *inc, "-c", lib, "-o", exe + ".lib.o"], "the library (%s)" % name)
            tries = list(optional) or [()]
            used = None
            for k, opt in enumerate(tries):
                last = k == len(tries) - 1
                p = self.cc([cc, std, *hf, *opt, *hinc, "-c", src, "-o", exe + ".h.o"], "the harness %s (%s)" % (harness, name), must=last)
                if p.returncode == 0:
                    used = opt
                    break
                self.notes.append("%s: compiled without %s (internal names changed)" % (name, " ".join(opt)))
            a.result()
        lf = [f for f in flags if f.startswith("-fsanitize") or f.startswith("-fno-sanitize")]
        p = self.cc([cc, *lf, exe + ".h.o", exe + ".lib.o", "-o", exe, "-lpthread", *link], "linking %s" % name)
        self.configs.append("%s: %s %s" % (name, cc, " ".join(flags)))
        return exe, used

    # ---- running ------------------------------------------------------------------------------------------
    def shards(self, exe, n=8, prop=None, scale=1.0, limit=None, env=None, args=(), tier=None, seed=None, label="", wrap=(), corpus=False):
        """Runs n shards of a harness in parallel and collects their records."""
        limit = limit or (7200 if self.thorough else 300)
        if self.replay:
            if exe in self.replay["cmd"]:
                self.run_replay(env)
            return
        if self.hangs:
            self.notes.append("%s: not run, a call that does not return is on record" % (label or exe))
            return
        self.nrun += 1
        base = os.path.join(self.dir, "run%d" % self.nrun)
        e = dict(os.environ)
        e["ASAN_OPTIONS"] = "detect_leaks=1:abort_on_error=0:exitcode=77:detect_stack_use_after_return=1:allocator_may_return_null=1:handle_abort=1:strict_string_checks=1"
        e["UBSAN_OPTIONS"] = "print_stacktrace=1:halt_on_error=1:exitcode=77"
        e["TSAN_OPTIONS"] = "halt_on_error=1:exitcode=66:history_size=4"
        if env:
            e.update(env)
        seed = self.seed if seed is None else seed

        def cmd(i, extra=()):
            return [*wrap, exe, "--prop", prop or self.prop, "--tier", tier or self.tier, "--seed", str(seed), "--oracle", os.path.join(VERIF, "oracle"),
                    "--shard", str(i), "--shards", str(n), "--scale", str(scale), *args, *extra]

        def one(i):
            out = "%s.%d" % (base, i)
            more = []
            if corpus:
                os.makedirs(out + ".corpus")
                more = ["--corpus", out + ".corpus"]
            with open(out + ".err", "wb") as err:
                p = subprocess.Popen(cmd(i, ["--out", out + ".json", "--trace", out + ".trace"] + more), stdout=err, stderr=err, env=e, start_new_session=True, cwd=self.dir)
                try:
                    rc = p.wait(timeout=limit)
                except subprocess.TimeoutExpired:
                    try:
                        os.killpg(p.pid, signal.SIGKILL)
                    except ProcessLookupError:
                        pass
                    p.wait()
                    rc = "timeout"
            return i, rc, out

        hashes = []
        with ThreadPoolExecutor(NCPU) as ex:
            res = list(ex.map(one, range(n)))
        for i, rc, out in res:
            rec = None
            if rc == 0:
                try:
                    rec = json.load(open(out + ".json"))
                except Exception as ex_:
                    raise Inconclusive("shard %d wrote no record: %r" % (i, ex_))
                self.merge(rec, cmd(i), e)
                hashes.append(out + ".json.h")
                if corpus:
                    m = re.findall(r"DONE +cov: (\d+) ft: (\d+) corp: (\d+)", open(out + ".err", errors="replace").read())
                    if m:
                        k = self.extra.setdefault("coverage_guided", {"edges_max": 0, "features_max": 0, "inputs_kept": 0})
                        k["edges_max"] = max(k["edges_max"], int(m[-1][0]))
                        k["features_max"] = max(k["features_max"], int(m[-1][1]))
                        k["inputs_kept"] += int(m[-1][2])
                    shutil.rmtree(out + ".corpus", ignore_errors=True)
                continue
            self.bad_end(i, rc, out, cmd, e, limit, label)
        if hashes:
            p = subprocess.run([exe, "--merge", ",".join(hashes)], stdout=subprocess.PIPE, text=True, env=e, cwd=self.dir)
            m = re.search(r"distinct (\d+)", p.stdout or "")
            if m:
                self.distinct += int(m.group(1))
        for f in hashes:
            os.unlink(f)

    def fuzz(self, harness, runs, flags=("-O2", "-g"), length=600, link=(), limit=None, label="coverage-guided", whole=False, **b):
        """Coverage-guided phase: libFuzzer drives the monitor of the harness; the library alone is instrumented."""
        rt = subprocess.run(["clang++", "-print-runtime-dir"], stdout=subprocess.PIPE, text=True).stdout.strip()
        lib = os.path.join(rt, "libclang_rt.fuzzer_no_main-x86_64.a")
        if not os.path.exists(lib):
            self.notes.append("no libFuzzer here: the coverage-guided phase did not run")
            return
        exe, _ = self.build(harness, harness + "_fuzz", cc="clang++", flags=(*flags, "-fsanitize=fuzzer-no-link"), hflags=(*flags, "-DFUZZ", *(("-fsanitize=fuzzer-no-link",) if whole else ())), link=(lib, *link), **b)
        self.shards(exe, n=8, args=("--fuzz", str(runs), "--fuzz-len", str(length)), limit=limit, label=label, corpus=True)

    def bad_end(self, i, rc, out, cmd, e, limit, label):
        """A shard that crashed, was stopped by a sanitizer, or did not come back."""
        case = b""
        try:
            raw = open(out + ".trace", "rb").read()
            k = int.from_bytes(raw[:8], "little")
            case = raw[8:8 + k]
        except OSError:
            pass
        text = open(out + ".err", errors="replace").read()
        cf = out + ".case"
        open(cf, "wb").write(case + b"\n")
        alone = None
        if rc == "timeout" and self.hangs >= 2:
            return  # two are on record
        if case and not case.startswith(b"long"):
            try:
                p = subprocess.run(cmd(i, ["--case", cf]), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", env=e, cwd=self.dir, timeout=60 if rc == "timeout" else 300)
                alone = p.returncode
                atext = p.stdout
            except subprocess.TimeoutExpired:
                alone, atext = "timeout", ""
        if rc == "timeout":
            if alone == "timeout":
                self.hangs += 1
                self.violation("hang", "no answer within 60 s for a single call, and none within %d s before" % limit, case.decode(errors="replace"), cmd(i))
                return
            raise Inconclusive("shard %d of %s did not finish within %d s; its last case alone returns" % (i, label or cmd(i)[0], limit))
        if rc == -signal.SIGKILL and alone in (0, 1, None):
            raise Inconclusive("shard %d was killed (memory?); its last case alone does not fail" % i)
        t = atext if alone not in (None, 0, 1) and atext else text
        m = re.search(r"(SUMMARY: .*|runtime error: .*|ERROR: .*Sanitizer.*|terminate called.*|what\(\): .*|Assertion .*)", t)
        m2 = re.search(r"^.*(runtime error: .*)$", t, re.M)
        head = (m2.group(0) if m2 else m.group(1) if m else t[-300:].strip().replace("\n", " / "))
        kind = "sanitizer report" if (m2 or "Sanitizer" in t) else "crash"
        self.violation(kind, "exit %s%s: %s" % (rc, "" if alone is None else " (alone: %s)" % alone, head[:700]), case.decode(errors="replace"), cmd(i), log=t[:20000])

    def merge(self, rec, cmd, env):
        self.evaluations += rec["evaluations"]
        for k, v in rec["counters"].items():
            self.counters[k] = self.counters.get(k, 0) + v
        for s in rec["samples"]:
            if len(self.samples) < 12:
                self.samples.append(s)
        for k, v in rec["known"].items():
            n, ex = self.findings.get(k, (0, v["example"]))
            self.findings[k] = (n + v["n"], ex)
            if (self.prop, k) not in self.known:
                self.violation("finding " + k, "a deviation not listed for this property: " + v["example"], "", cmd)
        for v in rec["violations"]:
            self.violation(v["key"], v["detail"], v["case"], cmd, past=v.get("past", ""))
        more = rec["nviolations"] - len(rec["violations"])
        if more > 0:
            self.counters["violations not written out"] = self.counters.get("violations not written out", 0) + more

    def violation(self, key, detail, case="", cmd=None, log=None, past=""):
        if (self.prop, key) in self.known:
            n, ex = self.findings.get(key, (0, detail))
            self.findings[key] = (n + 1, ex)
            return
        self.viol.append((key, detail, {"property": self.prop, "key": key, "detail": detail, "case": case, "past": past, "cmd": cmd or [], "tier": self.tier, "seed": self.seed, "log": log or ""}))

    def run_replay(self, env):
        r = self.replay
        cf = os.path.join(self.dir, "replay.case")
        open(cf, "w").write(r.get("past", "") + r["case"] + "\n")
        e = dict(os.environ)
        if env:
            e.update(env)
        cmd = list(r["cmd"]) + (["--case", cf] if r["case"] and not r["case"].startswith("long") else [])
        print("replaying:", " ".join(cmd))
        p = subprocess.run(cmd, env=e, cwd=self.dir)
        print("exit", p.returncode)
        raise ReplayDone(1 if p.returncode else 0)

    def clean(self):
        shutil.rmtree(self.dir, ignore_errors=True)

    def prog(self, cmd, what, limit=120, env=None, bad="crash", cwd=None):
        """Runs a program that judges by itself: lines "BAD key|detail" and a last line "OK <executions>"."""
        e = dict(os.environ)
        e.update(env or {})
        for attempt in (1, 2):
            p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=e, cwd=cwd or self.dir, start_new_session=True)
            try:
                out, _ = p.communicate(timeout=limit * attempt)
                break
            except subprocess.TimeoutExpired:
                try:
                    os.killpg(p.pid, signal.SIGKILL)
                except ProcessLookupError:
                    pass
                p.communicate()
                out = None
        if out is None:
            self.violation("hang", "%s: no end within %d s, twice" % (what, 2 * limit), "", cmd)
            return None
        out = out.decode(errors="replace")
        ok = re.findall(r"^OK (\d+)", out, re.M)
        for m in re.finditer(r"^BAD ([^|\n]*)\|(.*)$", out, re.M):
            self.violation(m.group(1), what + ": " + m.group(2), "", cmd)
        if p.returncode == -signal.SIGKILL:
            raise Inconclusive("%s was killed (memory?)" % what)
        if p.returncode or not ok:
            self.violation(bad, "%s ended with %s: %s" % (what, p.returncode, out[-600:].strip().replace("\n", " / ")), "", cmd, log=out[-20000:])
        for n in ok:
            self.evaluations += int(n)
        return out

    # ---- verdict ------------------------------------------------------------------------------------------
    def finish(self, rule, minimum=1):
        ev = {
            "property": self.prop, "tier": self.tier, "seed": self.seed, "level": self.level,
            "coverage": {"evaluations": self.evaluations, "distinct_nontrivial": self.distinct, "rule": rule, "samples": self.samples or ["(none)"],
                         "observed": self.counters, "builds": self.configs, "known_findings_seen": {k: v[0] for k, v in self.findings.items()}, **self.extra},
            "assumptions": self.assumptions + self.notes, "wall_s": round(time.time() - self.t0, 2), "violations": len(self.viol),
        }
        tmp = os.path.join(VERIF, "evidence", self.prop + ".json.tmp")
        with open(tmp, "w") as f:
            json.dump(ev, f, indent=1)
        os.replace(tmp, os.path.join(VERIF, "evidence", self.prop + ".json"))
        for k, (n, exm) in sorted(self.findings.items()):
            if (self.prop, k) in self.known:
                print("KNOWN-FINDING: property=%s %s: %s [seen %d times, e.g. %s]" % (self.prop, k, self.known[(self.prop, k)], n, exm[:300]))
        if self.viol:
            seen = {}
            for key, detail, rep in self.viol:
                if seen.get(key, 0) >= 3 or len(seen) > 12:
                    continue
                seen[key] = seen.get(key, 0) + 1
                path = os.path.join(self.replays, "%s-%d.json" % (self.prop, sum(seen.values())))
                with open(path, "w") as f:
                    json.dump(rep, f, indent=1)
                print("  %s: %s" % (key, detail[:1000]))
                print("VIOLATION property=%s replay=%s" % (self.prop, path))
            print("%d violations in %d executions, %.1f s" % (len(self.viol), self.evaluations, time.time() - self.t0))
            return 1
        if self.evaluations < minimum:
            raise Inconclusive("only %d executions were observed" % self.evaluations)
        print("held: property=%s on %d executions (%d distinct non-trivial), %.1f s" % (self.prop, self.evaluations, self.distinct, time.time() - self.t0))
        return 0
