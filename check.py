#!/usr/bin/env python3
"""Builds the monitored harnesses of one property from /repo's working tree,
runs them and decides the property.

usage: check.py ID [--tier quick|thorough] [--replay FILE]

Exit 0: held on everything explored. Exit 1: "VIOLATION property=ID replay=F".
Exit 2: no verdict (build failure, error of the harness, out of memory).
"""
import array, json, os, re, shutil, signal, subprocess, sys, tempfile, threading, time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
from props import PROPS, HARNESSES, VARIANTS, ILP32, NOT_ILP32  # noqa: E402

REPO = os.environ.get("VERIF_REPO", "/repo")
EVID = os.path.join(HERE, "evidence")
NCPU = min(8, os.cpu_count() or 8)
WALL_LIMIT = {"quick": 780, "thorough": 6 * 3600}

SAN_ENV = {
    "ASAN_OPTIONS": "exitcode=99:detect_leaks=0:allocator_may_return_null=1:"
                    "detect_stack_use_after_return=0:abort_on_error=0:handle_abort=0",
    "UBSAN_OPTIONS": "exitcode=99:print_stacktrace=1:halt_on_error=1",
    "MSAN_OPTIONS": "exitcode=99:allocator_may_return_null=1",
    "TSAN_OPTIONS": "exitcode=99:halt_on_error=1:second_deadlock_stack=1",
}

INC32 = ["-I" + os.path.join(HERE, "harness", "ilp32"), "-isystem", "/usr/include/x86_64-linux-gnu"]
WRAP = ["-Wl,--wrap=" + f for f in
        ("malloc", "calloc", "realloc", "reallocarray", "free", "strdup", "strndup")]


class NoVerdict(Exception):
    pass


def log(msg):
    print(msg, flush=True)


class Unusable(Exception):
    """The harness does not compile although plain use of the same header does."""
    def __init__(self, harness, variant, text):
        Exception.__init__(self, harness)
        self.harness, self.variant, self.text = harness, variant, text


def builtins32():
    r = subprocess.run(["clang", "-m32", "--rtlib=compiler-rt", "-print-libgcc-file-name"],
                       stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)
    return r.stdout.strip()


class Builder:
    def __init__(self, tmp):
        self.tmp = tmp
        self.built = {}
        self.missing = set()
        self.libc32 = None

    def command(self, harness, variant, out, main=None):
        h = HARNESSES[harness]
        v = VARIANTS[variant]
        cmd = list(v["cc"])
        cmd += h.get("flags", [])
        cmd += h.get("flags_" + variant, [])
        cmd += ["-w", "-DCRE_TEST", "-fno-builtin-malloc", "-fno-builtin-calloc", "-fno-builtin-realloc", "-fno-builtin-free", "-I" + os.path.join(HERE, "harness")]
        cmd += ["-I" + os.path.join(HERE, "harness", d) for d in h.get("own_inc", [])]
        cmd += ["-I" + os.path.join(REPO, d) for d in h["inc"]]
        cmd += [os.path.join(HERE, "harness", (main or harness) + ".c")]
        if main is None:
            cmd += [os.path.join(HERE, "harness", s) for s in h.get("own_src", [])]
        cmd += [os.path.join(REPO, s) for s in h["src"]]
        cmd += ["-o", out]
        if not v.get("nowrap") and main is None:
            cmd += WRAP
        if variant == "ilp32":
            cmd += INC32 + [self.libc32, builtins32()]
        else:
            cmd += h.get("libs", []) + ["-lm", "-pthread"]
        return cmd

    def prepare32(self):
        """Can 32-bit programs be made and run here?"""
        self.libc32 = os.path.join(self.tmp, "libc32.o")
        v = [f for f in VARIANTS["ilp32"]["cc"] if "sanitize" not in f]
        src, exe = os.path.join(self.tmp, "t32.c"), os.path.join(self.tmp, "t32")
        with open(src, "w") as f:
            f.write("#include <string.h>\nint main(int c, char** v) { return strlen(v[c - 1]) == 2 ? 42 : 1; }\n")
        try:
            for cmd in (v[:-2] + ["-w", "-fno-builtin", "-c"] + INC32 +
                        [os.path.join(HERE, "harness", "ilp32", "libc32.c"), "-o", self.libc32],
                        v + ["-w"] + INC32 + [src, self.libc32, builtins32(), "-o", exe]):
                if subprocess.run(cmd, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL).returncode != 0:
                    return False
            return subprocess.run([exe, "ab"]).returncode == 42
        except OSError:
            return False

    def locales(self):
        """A locale unlike C, if there is what makes them; the harnesses do without otherwise."""
        d = os.path.join(self.tmp, "locales")
        try:
            os.mkdir(d)
            subprocess.run(["localedef", "-c", "-i", "tr_TR", "-f", "ISO-8859-9", d + "/tr_TR.ISO-8859-9"],
                           stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=60)
        except (OSError, subprocess.TimeoutExpired):
            pass

    def build_all(self, pairs):
        pairs = sorted(set(pairs))
        if any(p[0] == "h_threads" for p in pairs):
            self.locales()
        if any(p[1] == "ilp32" for p in pairs) and not self.prepare32():
            self.missing.update(p for p in pairs if p[1] == "ilp32")
            pairs = [p for p in pairs if p[1] != "ilp32"]

        def one(p):
            out = os.path.join(self.tmp, "%s.%s" % p)
            r = subprocess.run(self.command(p[0], p[1], out), stdout=subprocess.PIPE,
                               stderr=subprocess.STDOUT, text=True, errors="replace",
                               cwd=self.tmp)
            return p, out, r
        with ThreadPoolExecutor(NCPU) as ex:
            for p, out, r in ex.map(one, pairs):
                if r.returncode != 0 and VARIANTS[p[1]].get("optional"):
                    self.missing.add(p)
                    continue
                if r.returncode != 0 and HARNESSES[p[0]].get("smoke"):
                    # Macros: is just our (legitimate) use of them impossible?
                    r2 = subprocess.run(self.command(p[0], "plain", out, HARNESSES[p[0]]["smoke"]),
                                        stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, cwd=self.tmp)
                    if r2.returncode == 0:
                        raise Unusable(p[0], p[1], r.stdout)
                if r.returncode != 0:
                    raise NoVerdict("build of %s (%s) failed:\n%s" % (p[0], p[1], r.stdout[-4000:]))
                self.built[p] = out


class Failure:
    def __init__(self, job, rc, stderr, episode):
        self.job, self.rc, self.stderr, self.episode = job, rc, stderr, episode

    def headline(self):
        for pat in (r"MONITOR-VIOLATION .*", r"MONITOR-HANG.*", r"MONITOR-SIGNAL.*",
                    r".*runtime error: .*", r".*ERROR: \w+Sanitizer: .*",
                    r".*WARNING: \w+Sanitizer: .*", r"SUMMARY: .*"):
            m = re.search(pat, self.stderr)
            if m:
                return m.group(0).strip()
        return "process ended with status %d" % self.rc


class Runner:
    def __init__(self, prop, tier, seed, builder):
        self.prop, self.tier, self.seed, self.b = prop, tier, seed, builder
        self.lock = threading.Lock()
        self.procs = set()
        self.stop = False
        self.failure = None
        self.error = None
        self.results = []
        self.seq = 0
        self.t_end = time.monotonic() + WALL_LIMIT[tier]

    def spawn(self, job, extra, seedless=False):
        """Run one process; returns (rc, stderr)."""
        exe = self.b.built[(job["harness"], job["variant"])]
        env = dict(os.environ)
        env.update(SAN_ENV)
        env["MON_MODE"] = job["mode"]
        env["LOCPATH"] = os.path.join(self.b.tmp, "locales")
        if job["variant"] == "fuzz":
            cmd = [exe] + extra
        else:
            cmd = [exe, "--mode", job["mode"], "--seed", str(self.seed),
                   "--thorough", "1" if self.tier == "thorough" else "0"] + extra
        with tempfile.TemporaryFile(dir=self.b.tmp) as ef:
            with self.lock:
                if self.stop:
                    return None, ""
                p = subprocess.Popen(cmd, stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL,
                                     stderr=ef, env=env, cwd=self.b.tmp)
                self.procs.add(p)
            timed_out = False
            try:
                p.wait(timeout=max(1, self.t_end - time.monotonic()))
            except subprocess.TimeoutExpired:
                timed_out = True
                p.kill()
                p.wait()
            with self.lock:
                self.procs.discard(p)
            size = ef.seek(0, 2)
            ef.seek(max(0, size - 200000))
            err = ef.read().decode("utf-8", "replace")
        if timed_out:
            return "timeout", err
        return p.returncode, err

    def abort_others(self):
        with self.lock:
            self.stop = True
            for p in self.procs:
                p.kill()

    def judge(self, job, rc, err):
        """Turns the ending of a process into a Failure, NoVerdict or None."""
        if rc == 0:
            return None
        if rc == "timeout":
            raise NoVerdict("%s: wall-clock limit hit, no verdict" % job["name"])
        if rc == 3:
            raise NoVerdict("harness error in %s:\n%s" % (job["name"], err[-3000:]))
        if rc == -9:
            raise NoVerdict("%s was killed (out of memory?)" % job["name"])
        m = re.search(r"MONITOR-CONTEXT mode=\S+ seed=(\d+) episode=(\d+)", err)
        return Failure(job, rc, err, int(m.group(2)) if m else None)

    def run_job(self, job):
        if self.stop:
            return
        try:
            with self.lock:
                self.seq += 1
                out = os.path.join(self.b.tmp, "out.%d" % self.seq)
            if job["variant"] == "fuzz":
                art = os.path.join(EVID, "replays", self.prop, "")
                os.makedirs(art, exist_ok=True)
                extra = ["-runs=%d" % job["count"], "-seed=%d" % (self.seed * 1000 + job["first"] + 1),
                         "-max_len=%d" % job.get("max_len", 4096), "-artifact_prefix=" + art,
                         "-print_final_stats=1", "-max_total_time=300", "-timeout=120", "-rss_limit_mb=4096",
                         "-use_value_profile=1"]
            else:
                extra = ["--first", str(job["first"]), "--step", str(job["step"]),
                         "--count", str(job["count"]), "--cpu", str(job["cpu"]),
                         "--out", out]
                if job["first"] == 0:
                    extra += ["--sample", out + ".sample"]
            rc, err = self.spawn(job, extra)
            if rc is None or self.stop:
                return
            if rc == -9 and time.monotonic() < self.t_end:      # perhaps out of memory: once more
                rc, err = self.spawn(job, extra)
                if rc is None or self.stop:
                    return
            f = self.judge(job, rc, err)
            if f is not None and f.rc == 78 and f.episode is not None:
                # Once more, with a higher limit (it is a limit of processor time).
                limit = max(job["cpu"], min(job["cpu"] * 3, int(self.t_end - time.monotonic()) - 60))
                rc, err2 = self.spawn(job, ["--first", str(f.episode), "--count", str(f.episode + 1),
                                            "--cpu", str(limit)])
                if rc is None:
                    return
                if rc == "timeout":
                    rc = 78         # It used up the first limit and has not ended since.
                else:
                    err = err2
                f = self.judge(job, rc, err)
                if f is None:
                    return
            if f is not None:
                with self.lock:
                    if self.failure is None:
                        self.failure = f
                self.abort_others()
                return
            res = {"job": job}
            if job["variant"] == "fuzz":
                m = re.search(r"stat::number_of_executed_units:\s*(\d+)", err)
                n = int(m.group(1)) if m else 0
                m = re.findall(r"cov: (\d+) ft: (\d+)", err)
                res["data"] = {"episodes": n, "checks": 0, "evals": n, "states": 0,
                               "states_dropped": 0,
                               "events": {"fuzz executions": n,
                                          "max:fuzz coverage features": int(m[-1][1]) if m else 0}}
            else:
                with open(out) as fp:
                    res["data"] = json.load(fp)
                st = array.array("Q")
                if os.path.exists(out + ".states"):
                    with open(out + ".states", "rb") as fp:
                        st.frombytes(fp.read())
                    os.unlink(out + ".states")
                res["states"] = st
                if os.path.exists(out + ".sample"):
                    with open(out + ".sample", errors="replace") as fp:
                        res["sample"] = fp.read()
            with self.lock:
                self.results.append(res)
        except NoVerdict as e:
            with self.lock:
                if self.error is None and not self.stop:
                    self.error = e
            self.abort_others()
        except Exception as e:           # an error of this driver
            with self.lock:
                if self.error is None and not self.stop:
                    self.error = NoVerdict("driver error: %r" % (e,))
            self.abort_others()


def plan(prop, tier):
    jobs = []
    for run in PROPS[prop]["runs"]:
        harness, mode, variants = run["h"], run["m"], run["v"]
        count = run["t"] if tier == "thorough" else run["q"]
        if tier == "thorough":
            variants = variants + run.get("tv", [])
        # A part of the episodes in unoptimised builds too, and under MSan.
        share = {}
        for v, v0 in (("plain", "plain0"), ("tsan", "tsan0")):
            if v in variants and count >= 16 and not run.get("heavy"):
                share[v0] = 0.3
        if tier == "quick" and "msan" in run.get("tv", []):
            share["msan"] = 0.2
        if tier == "thorough" and harness in ILP32 and mode not in NOT_ILP32:
            share["ilp32"] = 0.5
        variants = variants + list(share)
        for v in variants:
            n = run.get("fuzz_runs", 200000) if v == "fuzz" else count
            if n <= 0:
                continue
            if v in share:
                n = max(1, int(n * share[v]))
            if run.get("vq") and v in run["vq"]:
                n = max(1, int(n * run["vq"][v]))
            # (Odd, so that no shard gets all the episodes of one kind.)
            shards = min(run.get("shards", 11 if n >= 64 else NCPU), n)
            for k in range(shards):
                jobs.append({"harness": harness, "mode": mode, "variant": v, "count": n,
                             "first": k, "step": shards, "cpu": run.get("cpu", 40),
                             "heavy": run.get("heavy", False), "max_len": run.get("max_len", 4096),
                             "name": "%s/%s/%s" % (harness, mode, v)})
    return jobs


def known_findings():
    """Lines "known: property=ID match=REGEX | what fails"; "fixed:" lines
    suppress nothing."""
    res = []
    with open(os.path.join(HERE, "known-findings.txt")) as f:
        for line in f:
            m = re.match(r"known: property=(\w+) match=(.*?) \| (.*)", line)
            if m:
                res.append((m.group(1), re.compile(m.group(2)), m.group(3).strip()))
    return res


def write_replay(prop, tier, seed, f):
    d = os.path.join(EVID, "replays", prop)
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, "%s-%s-%s-s%s-e%s.json" % (f.job["harness"], f.job["mode"],
                                                      f.job["variant"], seed, f.episode))
    m = re.search(r"Test unit written to (\S+)", f.stderr)
    with open(path, "w") as fp:
        json.dump({"property": prop, "harness": f.job["harness"], "mode": f.job["mode"],
                   "variant": f.job["variant"], "seed": seed, "tier": tier, "episode": f.episode,
                   "cpu": f.job["cpu"], "status": f.rc, "headline": f.headline(),
                   "fuzz_input": m.group(1) if m else None,
                   "stderr": f.stderr[-20000:]}, fp, indent=1)
        fp.write("\n")
    return path


def write_evidence(prop, tier, seed, t0, results, violations, note=None):
    evals = states_dropped = checks = episodes = 0
    distinct = set()
    events = {}
    per_run = {}
    samples = []
    for r in results:
        d = r["data"]
        evals += d["evals"]
        checks += d["checks"]
        episodes += d["episodes"]
        states_dropped += d["states_dropped"]
        if "states" in r:
            # the state key includes the mode, so that modes do not mix
            salt = hash_str(r["job"]["harness"] + r["job"]["mode"])
            distinct.update(x ^ salt for x in r["states"])
        for k, n in d["events"].items():
            if k.startswith("max:"):
                events[k] = max(events.get(k, 0), n)
            else:
                events[k] = events.get(k, 0) + n
        pr = per_run.setdefault(r["job"]["name"], {"episodes": 0, "oracle_checks": 0})
        pr["episodes"] += d["episodes"]
        pr["oracle_checks"] += d["checks"]
        if r.get("sample") and len(samples) < 6:
            samples.append(r["sample"][:1800])
    p = PROPS[prop]
    ev = {"property": prop, "tier": tier, "seed": seed, "level": p.get("level", "exploration"),
          "coverage": {"evaluations": evals, "distinct_nontrivial": len(distinct),
                       "rule": p["rule"],
                       "samples": samples,
                       "episodes": episodes, "oracle_checks": checks,
                       "runs": per_run, "events_observed": dict(sorted(events.items())),
                       "distinct_count_capped": states_dropped > 0},
          "assumptions": p.get("assumptions", []) + [
              "The sanitizers, the compilers and the heap monitor report what they are documented to report.",
              "Only the executions counted here were observed; other inputs and orders were not."],
          "wall_s": round(time.monotonic() - t0, 2), "violations": violations}
    if note:
        ev["coverage"]["note"] = note
    os.makedirs(EVID, exist_ok=True)
    tmp = os.path.join(EVID, ".%s.%d" % (prop, os.getpid()))
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    os.replace(tmp, os.path.join(EVID, prop + ".json"))
    return evals, len(distinct), events


def hash_str(s):
    h = 0xcbf29ce484222325
    for c in s.encode():
        h = ((h ^ c) * 0x100000001b3) & 0xffffffffffffffff
    return h


def seed_from_env():
    s = os.environ.get("VERIF_SEED", "1")
    try:
        return int(s) & 0xffffffff
    except ValueError:
        return hash_str(s) & 0xffffffff


def do_replay(prop, path, tmp):
    with open(path) as f:
        r = json.load(f)
    b = Builder(tmp)
    try:
        b.build_all([(r["harness"], r["variant"])])
    except Unusable as e:
        log(e.text[:2000])
        log("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    run = Runner(prop, r["tier"], r["seed"], b)
    job = {"harness": r["harness"], "variant": r["variant"], "mode": r["mode"], "cpu": r["cpu"],
           "name": "replay"}
    if r["variant"] == "fuzz":
        extra = [r["fuzz_input"]]
    elif r["episode"] is None:
        raise NoVerdict("the replay file names no episode")
    else:
        extra = ["--first", str(r["episode"]), "--count", str(r["episode"] + 1), "--cpu", str(r["cpu"])]
    rc, err = run.spawn(job, extra)
    sys.stderr.write(err)
    f = run.judge(job, rc, err)
    if f is None:
        log("replay: did not fail")
        return 0
    log("replay: %s" % f.headline())
    log("VIOLATION property=%s replay=%s" % (prop, path))
    return 1


def main():
    argv = sys.argv[1:]
    prop = argv.pop(0) if argv else None
    if prop not in PROPS:
        print(__doc__, file=sys.stderr)
        return 2
    tier = os.environ.get("VERIF_TIER", "quick")
    replay = None
    while argv:
        a = argv.pop(0)
        if a == "--tier":
            tier = argv.pop(0)
        elif a == "--replay":
            replay = argv.pop(0)
        else:
            print(__doc__, file=sys.stderr)
            return 2
    if tier not in WALL_LIMIT:
        tier = "quick"
    seed = seed_from_env()
    t0 = time.monotonic()
    tmp = tempfile.mkdtemp(prefix="verif-%s-" % prop)

    def on_term(sig, frame):
        raise NoVerdict("terminated")
    signal.signal(signal.SIGTERM, on_term)
    try:
        if replay:
            return do_replay(prop, replay, tmp)
        jobs = plan(prop, tier)
        b = Builder(tmp)
        try:
            b.build_all([(j["harness"], j["variant"]) for j in jobs])
        except Unusable as e:
            f = Failure({"harness": e.harness, "mode": "build", "variant": e.variant, "cpu": 60,
                         "name": e.harness + "/build"}, 1, e.text, None)
            path = write_replay(prop, tier, seed, f)
            write_evidence(prop, tier, seed, t0, [], 1, note="a legitimate use does not compile")
            log("%s: a legitimate use of the header does not compile:\n%s" % (prop, e.text[:2000]))
            log("VIOLATION property=%s replay=%s" % (prop, path))
            return 1
        for h, v in sorted(b.missing):
            log("%s: %s cannot be built as %s here, left out" % (prop, h, v))
        jobs = [j for j in jobs if (j["harness"], j["variant"]) not in b.missing]
        r = Runner(prop, tier, seed, b)
        known = [k for k in known_findings() if k[0] == prop]
        for heavy in (False, True):
            js = [j for j in jobs if j["heavy"] == heavy]
            if js and not r.stop:
                with ThreadPoolExecutor(2 if heavy else NCPU) as ex:
                    list(ex.map(r.run_job, js))
        if r.failure is not None:
            f = r.failure
            head = f.headline()
            for _, rx, what in known:
                if rx.search(head):
                    log("KNOWN-FINDING: property=%s %s" % (prop, what))
                    write_evidence(prop, tier, seed, t0, r.results, 0, note="stopped at a known finding")
                    return 0
            path = write_replay(prop, tier, seed, f)
            write_evidence(prop, tier, seed, t0, r.results, 1,
                           note="stopped at the first violation: " + head[:500])
            log("%s [%s, episode %s]: %s" % (prop, f.job["name"], f.episode, head))
            log("VIOLATION property=%s replay=%s" % (prop, path))
            return 1
        if r.error is not None:
            raise r.error
        evals, distinct, events = write_evidence(prop, tier, seed, t0, r.results, 0)
        if evals == 0 or distinct == 0:
            raise NoVerdict("nothing was observed")
        for name in PROPS[prop].get("need", []):
            if events.get(name, 0) == 0:
                raise NoVerdict("the workload never caused \"%s\"" % name)
        log("%s: held on %d evaluations (%d distinct non-trivial), %.1f s"
            % (prop, evals, distinct, time.monotonic() - t0))
        return 0
    except NoVerdict as e:
        print("NO VERDICT for %s: %s" % (prop, e), file=sys.stderr, flush=True)
        return 2
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


if __name__ == "__main__":
    sys.exit(main())
