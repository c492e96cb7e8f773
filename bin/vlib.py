"""Shared machinery of the checks: builds the Go driver from /repo, executes scripts on the
real code, runs TLC on the specifications and on the recorded traces, writes evidence."""
import json, os, re, subprocess, sys, tempfile, time, shutil, random, hashlib
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, "spec")
HARNESS = os.path.join(VERIF, "harness")
TLA_CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
MODCHECK = os.environ.get("VERIF_REPO", "/repo")


class CheckError(Exception):
    """The check itself failed (exit code 2): neither a pass nor a violation."""


class Ctx:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.t0 = time.time()
        self.tmp = tempfile.mkdtemp(prefix="verif-%s-" % pid)
        self.states = self.transitions = self.traces = self.events = 0
        self.samples, self.notes, self.models = [], {}, []
        self.assumptions = []
        self.violations = []
        self.bins = {}
        self.scripts = {}   # id of a recorded run -> (recorded run, how to perform it again)
        self.rng = random.Random("%s/%d" % (pid, seed))
        self.cov = {}

    quick = property(lambda s: s.tier == "quick")

    def n(self, q, t):
        return q if self.quick else t

    # ---- building -------------------------------------------------------------
    def goenv(self):
        env = dict(os.environ)
        env["PATH"] = "/usr/local/go/bin:" + env.get("PATH", "")
        env.update(GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=mod", GOWORK="off", GONOSUMDB="*", GOFLAGS_="")
        env.setdefault("HOME", "/root")
        return env

    def build(self, cmd="pub", race=False):
        key = cmd + ("-race" if race else "")
        if key in self.bins:
            return self.bins[key]
        src = os.path.join(self.tmp, "harness")
        if not os.path.isdir(src):
            shutil.copytree(HARNESS, src)
        out = os.path.join(self.tmp, "drv-" + key)
        args = ["go", "build", "-o", out] + (["-race"] if race else []) + ["./cmd/" + cmd]
        r = subprocess.run(args, cwd=src, env=self.goenv(), capture_output=True, text=True, timeout=600)
        if r.returncode != 0:
            raise CheckError("driver build failed:\n" + r.stdout + r.stderr)
        self.bins[key] = out
        return out

    # ---- running the real code --------------------------------------------------
    def drive(self, kind, runs, cmd="pub", race=False, shards=None, timeout=600):
        """Executes the runs (dicts with ops, cfg, tag) and returns the recorded runs."""
        binary = self.build(cmd, race)
        for i, r in enumerate(runs):
            r["id"] = i
            r.setdefault("cfg", {})
            r.setdefault("tag", "")
        shards = shards or (8 if len(runs) >= 64 else 1)
        parts = [runs[i::shards] for i in range(shards)]
        with ThreadPoolExecutor(shards) as ex:
            res = list(ex.map(lambda a: self._drive(binary, kind, a[1], "%s-%d" % (kind, a[0]), timeout), enumerate(parts)))
        out = [None] * len(runs)
        for part in res:
            for r in part:
                out[r["id"]] = r
        if any(o is None for o in out):
            raise CheckError("driver lost runs")
        for r, o in zip(runs, out):
            self.scripts[id(o)] = (o, dict(kind=kind, cmd=cmd, race=race, run=r))
        return out

    def _drive(self, binary, kind, runs, name, timeout):
        done = []
        pending = list(runs)
        attempt = 0
        while pending:
            attempt += 1
            sp = os.path.join(self.tmp, "script-%s-%d.ndjson" % (name, attempt))
            tp = os.path.join(self.tmp, "trace-%s-%d.ndjson" % (name, attempt))
            with open(sp, "w") as f:
                for r in pending:
                    f.write(json.dumps(r) + "\n")
            env = self.goenv()
            env["GOMEMLIMIT"] = "3GiB"
            env["VERIF_TMP"] = self.tmp
            env["GORACE"] = "halt_on_error=1 exitcode=66"
            def limit():
                import resource
                if "race" not in binary:
                    resource.setrlimit(resource.RLIMIT_AS, (8 << 30, 8 << 30))
            try:
                p = subprocess.run([binary, kind, sp, tp], capture_output=True, text=True, timeout=timeout,
                                   env=env, preexec_fn=limit, cwd=self.tmp)
            except subprocess.TimeoutExpired:
                raise CheckError("driver timed out (%s)" % kind)
            got = []
            if os.path.exists(tp):
                with open(tp) as f:
                    for line in f:
                        if not line.endswith("\n"):
                            break
                        got.append(json.loads(line))
                os.unlink(tp)
            os.unlink(sp)
            done += got
            if p.returncode == 0:
                if len(got) != len(pending):
                    raise CheckError("driver produced %d of %d runs" % (len(got), len(pending)))
                break
            if p.returncode == 2 and "fatal error" not in p.stderr and "panic:" not in p.stderr:
                raise CheckError("driver failed: " + p.stderr[-2000:])
            pending = pending[len(got):]
            if p.returncode != 17 and pending:
                # the code under test took the whole process down: the run is a crash
                r = pending[0]
                what = "race" if p.returncode == 66 else "crash"
                done.append(dict(id=r["id"], tag=r["tag"], cfg=r["cfg"],
                                 evs=[dict(op=what, p=what, msg=p.stderr[-1500:])]))
                pending = pending[1:]
            if attempt >= 3:    # enough to tell: each of these runs is a violation already
                done += [dict(id=r["id"], tag=r["tag"], cfg=r["cfg"], evs=[]) for r in pending]
                break
        return done

    # ---- TLC ----------------------------------------------------------------------
    def _tlc(self, module, cfg, env=None, workers=1, mem="3g", timeout=800, extra=(), xss="64m"):
        md = tempfile.mkdtemp(prefix="md-", dir=self.tmp)
        e = dict(os.environ)
        e.update(env or {})
        args = ["java", "-Xmx" + mem, "-Xss" + xss, "-XX:+UseParallelGC", "-XX:ParallelGCThreads=2",
                "-Dtlc2.tool.fp.FPSet.impl=tlc2.tool.fp.OffHeapDiskFPSet" if False else "-Djava.io.tmpdir=" + md,
                "-cp", TLA_CP, "tlc2.TLC", "-workers", str(workers), "-noGenerateSpecTE", "-metadir", md,
                "-config", cfg] + list(extra) + [module + ".tla"]
        try:
            p = subprocess.run(args, cwd=SPEC, env=e, capture_output=True, text=True, timeout=timeout)
        except subprocess.TimeoutExpired:
            raise CheckError("TLC timed out on " + cfg)
        finally:
            shutil.rmtree(md, ignore_errors=True)
        return p.stdout + p.stderr

    @staticmethod
    def _counts(out):
        m = re.findall(r"([\d,]+) states generated, ([\d,]+) distinct states found", out)
        if m:
            return int(m[-1][0].replace(",", "")), int(m[-1][1].replace(",", ""))
        m = re.findall(r"The number of states generated: ([\d,]+)", out)
        if m:
            return int(m[-1].replace(",", "")), int(m[-1].replace(",", ""))
        return 0, 0

    def model_check(self, module, cfg=None, workers=8, timeout=800, mem="6g"):
        """Exhaustive check of a specification; a failure here is an error of the check."""
        cfg = cfg or ("%s.cfg" % module if module.startswith("MC_") else "MC_%s.cfg" % module)
        out = self._tlc(module, cfg, workers=workers, timeout=timeout, mem=mem)
        if "No error has been found" not in out:
            raise CheckError("specification %s (%s) does not check:\n%s" % (module, cfg, out[-3000:]))
        t, s = self._counts(out)
        self.states += s
        self.transitions += t
        self.models.append(dict(module=module, config=cfg, distinct_states=s, transitions=t))

    def generate(self, module, cfg=None, simulate=None, depth=None, timeout=400, env=None, keep=None, workers=1):
        """Behaviours of the specification printed by TLC as JSON (lines starting with @@)."""
        cfg = cfg or module + ".cfg"
        extra = []
        if simulate:
            extra = ["-simulate", "num=%d" % simulate, "-depth", str(depth or 50), "-seed", str(self.seed), "-aril", "0"]
        out = self._tlc(module, cfg, timeout=timeout, extra=extra, env=env, workers=workers)
        if "No error has been found" not in out and "Progress: " not in out and not simulate:
            raise CheckError("generator %s failed:\n%s" % (module, out[-3000:]))
        if simulate and "Error:" in out:
            raise CheckError("generator %s failed:\n%s" % (module, out[-3000:]))
        scripts = []
        for line in out.splitlines():
            if line.startswith('"@@'):
                scripts.append(json.loads(json.loads(line)[2:]))
        t, s = self._counts(out)
        self.states += s
        self.transitions += t
        self.models.append(dict(module=module, config=cfg, distinct_states=s, transitions=t, behaviours=len(scripts)))
        if not scripts:
            raise CheckError("generator %s produced nothing:\n%s" % (module, out[-2000:]))
        return scripts

    def validate(self, module, runs, cfg=None, kind=None, timeout=700, shard_events=60000, mem="3g", par=7):
        """Checks recorded runs against a trace specification. Records violations."""
        cfg = cfg or module + ".cfg"
        shards, cur, w = [], [], 0
        total = sum(max(1, len(r["evs"])) for r in runs)
        target = min(shard_events, max(1500, total // par + 1))
        for r in runs:
            cur.append(r)
            w += max(1, len(r["evs"]))
            if w >= target:
                shards.append(cur)
                cur, w = [], 0
        if cur:
            shards.append(cur)
        def one(a):
            i, sh = a
            bad = []
            while sh:
                path = os.path.join(self.tmp, "v-%s-%d.ndjson" % (module, i))
                with open(path, "w") as f:
                    for r in sh:
                        f.write(json.dumps(r) + "\n")
                out = self._tlc(module, cfg, env={"TRACE": path}, workers=2, timeout=timeout, mem=mem)
                if re.search("StackOverflow|OutOfMemory|ran out of memory", out):   # limits of TLC judge nothing
                    out = self._tlc(module, cfg, env={"TRACE": path}, workers=1, timeout=timeout, mem="8g", xss="2000m")
                    if re.search("StackOverflow|OutOfMemory|ran out of memory", out):
                        raise CheckError("TLC ran out of memory on %s:\n%s" % (module, out[:3000]))
                os.unlink(path)
                t, s = self._counts(out)
                if "No error has been found" in out:
                    return bad, t, s
                m = re.findall(r"/\\ run = (\d+)", out)
                ml = re.findall(r"/\\ l = (\d+)", out)
                rejected = ("Deadlock reached" in out or re.search(r"Invariant \w+ is violated", out)
                            or (m and "Parsing or semantic analysis failed" not in out and "behavior up to this point" in out))
                if not rejected or not m:
                    raise CheckError("TLC failed on %s:\n%s" % (module, out[-4000:]))
                r = sh[int(m[-1]) - 1]
                bad.append((r, int(ml[-1]) if ml else 0, out))
                return bad, t, s  # one rejection per shard is enough
            return bad, 0, 0
        with ThreadPoolExecutor(par) as ex:
            results = list(ex.map(one, enumerate(shards)))
        for bad, t, s in results:
            self.transitions += t
            self.states += s
            for r, l, out in bad:
                self.reject(r, l, kind or module, out, module, cfg)
        if not any(b for b, _, _ in results):
            self.traces += len(runs)
            self.events += sum(len(r["evs"]) for r in runs)
        if len(self.samples) < 3 and runs:
            r = min(runs[: 200], key=lambda r: abs(len(r["evs"]) - 6))
            s = json.dumps(r)
            self.samples.append(json.loads(s) if len(s) < 6000 else s[:6000])

    def reject(self, run, l, kind, out, module=None, cfg=None):
        ev = run["evs"][l - 1] if 0 < l <= len(run["evs"]) else None
        d = os.path.join(VERIF, "evidence", "replays")
        os.makedirs(d, exist_ok=True)
        h = hashlib.sha1(json.dumps(run["evs"], sort_keys=True).encode()).hexdigest()[:10]
        path = os.path.join(d, "%s-%s.json" % (self.pid, h))
        last = out.split("Error: The behavior up to this point is")[-1]
        with open(path, "w") as f:
            json.dump(dict(property=self.pid, kind=kind, rejected_event=l, event=ev, run=run, module=module, config=cfg,
                           script=self.scripts.get(id(run), (None, None))[1],
                           replay="python3 bin/check.py %s --replay %s" % (self.pid, path),
                           tlc=last[-6000:]), f, indent=1)
        self.violations.append((path, kind, run.get("tag", ""), l, ev))

    def replay(self, path):
        """Performs the script of a recorded violation again on the real code and judges what it does."""
        rec = json.load(open(path))
        if not rec.get("script") or not rec.get("module"):
            print("no script recorded in %s (the run was derived from a concurrent one); rejected event:" % path)
            print(json.dumps(rec["event"])[:2000])
            return
        sc = rec["script"]
        runs = self.drive(sc["kind"], [sc["run"]], cmd=sc["cmd"], race=sc["race"])
        for i, e in enumerate(runs[0]["evs"]):
            print(i + 1, json.dumps(e)[:400])
        self.validate(rec["module"], runs, cfg=rec["config"], kind=rec["kind"])

    # ---- outcome --------------------------------------------------------------------
    def finish(self, level="model_checking"):
        cov = dict(states=self.states, transitions=self.transitions,
                   traces_validated_against_impl=self.traces, events_validated=self.events,
                   models=self.models, samples=self.samples[:3])
        cov.update(self.cov)
        ev = dict(property=self.pid, tier=self.tier, seed=self.seed, level=level, coverage=cov,
                  assumptions=self.assumptions, wall_s=round(time.time() - self.t0, 2), violations=len(self.violations))
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        for path, kind, tag, l, e in self.violations[:5]:
            print("rejected: kind=%s tag=%s event %d: %s" % (kind, tag, l, json.dumps(e)[:600]))
            print("VIOLATION property=%s replay=%s" % (self.pid, path))
        if not self.violations:
            print("OK property=%s tier=%s states=%d transitions=%d traces=%d events=%d wall=%.1fs" % (
                self.pid, self.tier, self.states, self.transitions, self.traces, self.events, time.time() - self.t0))
        return 1 if self.violations else 0

    def cleanup(self):
        shutil.rmtree(self.tmp, ignore_errors=True)
