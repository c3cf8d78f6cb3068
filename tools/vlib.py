"""Common machinery of the checks: compiles the drivers from /repo's working tree, runs TLC, executes scenarios against
the real code and lets TLC judge the recorded runs."""
import concurrent.futures, hashlib, json, os, random, re, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("WEBFRONT_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
HARNESS = os.path.join(VERIF, "harness")
CXXFLAGS = ["-std=c++23", "-O1", "-g1", "-fsanitize=address,bounds", "-fno-sanitize-recover=bounds", "-D_GLIBCXX_SANITIZE_VECTOR=1", "-D_GLIBCXX_ASSERTIONS", "-w"]
NPROC = 8


class Broken(Exception):
    """The check itself could not do its work"""


def enc(data):
    """text form of a byte string for the drivers: runs of at least 8 equal bytes are abbreviated"""
    if not data:
        return "-"
    groups, plain, i = [], [], 0
    data = bytes(data)
    n = len(data)
    while i < n:
        j = i
        while j < n and data[j] == data[i]:
            j += 1
        if j - i >= 8:
            if plain:
                groups.append("".join(plain))
                plain = []
            groups.append("%02x*%d" % (data[i], j - i))
        else:
            plain.append("%02x" % data[i] * (j - i))
        i = j
    if plain:
        groups.append("".join(plain))
    return ",".join(groups)


def unrle(runs):
    return b"".join(bytes([v]) * n for v, n in runs)


class Check:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.quick = tier != "thorough"
        self.rng = random.Random("%s-%d" % (prop, seed))
        self.t0 = time.time()
        self.work = os.path.join(VERIF, ".work", prop)
        shutil.rmtree(self.work, ignore_errors=True)
        os.makedirs(self.work)
        self.pool = concurrent.futures.ThreadPoolExecutor(16)
        self.states = 0
        self.transitions = 0
        self.validated = 0
        self.samples = []
        self.runs = {}
        self.mc = []
        self.violations = []
        self.assumptions = []
        self.extra = {}
        self._n = 0

    # ---------------------------------------------------------------- tools
    def path(self, name):
        return os.path.join(self.work, name)

    def log(self, *a):
        print("[%6.1fs]" % (time.time() - self.t0), *a, flush=True)

    def compile(self, driver, flags=(), name=None):
        """starts the compilation of a driver; the result is the path of the program"""
        out = self.path(name or driver)

        def job():
            cmd = ["g++-13"] + CXXFLAGS + list(flags) + ["-I", os.path.join(HARNESS, "shim"), "-I", HARNESS, "-I", os.path.join(REPO, "include"),
                   os.path.join(HARNESS, driver + ".cpp"), "-o", out]
            r = subprocess.run(cmd, capture_output=True, text=True)
            if r.returncode != 0:
                raise Broken("compilation of %s failed\n%s" % (driver, r.stderr[-3000:]))
            self.log("compiled", name or driver)
            return out
        return self.pool.submit(job)

    def tlc_raw(self, module, cfg, env=None, workers=4, args=(), timeout=800, heap="3g"):
        self._n += 1
        meta = self.path("meta%d" % self._n)
        full = dict(os.environ, TRACES="", ASPECT="", VERBOSE="0", SEED=str(self.seed), TIER=self.tier, MODE="")
        full.update(env or {})
        jar = "/opt/veriftools/tla/tla2tools.jar"
        jars = os.pathsep.join([jar] + [os.path.join("/opt/veriftools/tla", f) for f in sorted(os.listdir("/opt/veriftools/tla")) if f.endswith(".jar") and f != "tla2tools.jar"])
        cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss64m", "-cp", jars, "tlc2.TLC", "-metadir", meta, "-noGenerateSpecTE",
               "-workers", str(workers), "-config", cfg] + list(args) + [module + ".tla"]
        try:
            r = subprocess.run(cmd, cwd=SPEC, env=full, capture_output=True, text=True, timeout=timeout)
        except subprocess.TimeoutExpired:
            raise Broken("TLC timed out on %s/%s" % (module, cfg))
        finally:
            shutil.rmtree(meta, ignore_errors=True)
        return r.returncode, r.stdout + r.stderr

    def account(self, out):
        m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)
        if m:
            self.transitions += int(m[-1][0])
            self.states += int(m[-1][1])
            return int(m[-1][1])
        m = re.findall(r"states checked: (\d+)|(\d+) states checked", out)
        if m:
            n = int(m[-1][0] or m[-1][1])
            self.transitions += n
            return n
        return 0

    def model_check(self, module, cfg, env=None, workers=4, args=(), timeout=800):
        """exhaustive exploration of a configuration of the specification (in the background)"""
        def job():
            t = time.time()
            rc, out = self.tlc_raw(module, cfg, env, workers, args, timeout)
            n = self.account(out)
            if rc != 0 or "No error has been found" not in out:
                raise Broken("model checking of %s/%s failed\n%s" % (module, cfg, out[-4000:]))
            self.mc.append({"module": module, "config": cfg, "distinct_states": n, "wall_s": round(time.time() - t, 1)})
            self.log("model checked %s/%s: %d distinct states" % (module, cfg, n))
            return n
        return self.pool.submit(job)

    def generate(self, module, cfg, env=None, simulate=None, depth=100, timeout=800, workers=1):
        """behaviours of the specification, printed by it as JSON; simulate: number of random ones"""
        args = []
        if simulate:
            args = ["-simulate", "num=%d" % simulate, "-depth", str(depth), "-seed", str(self.seed)]
        rc, out = self.tlc_raw(module, cfg, env, workers, args, timeout)
        if "Error:" in out or rc != 0:
            raise Broken("generation from %s/%s failed\n%s" % (module, cfg, out[-4000:]))
        n = self.account(out)
        found = []
        for line in out.splitlines():
            if line.startswith('"{') or line.startswith('"['):
                found.append(json.loads(json.loads(line)))
        self.log("generated %d behaviours from %s/%s (%d states)" % (len(found), module, cfg, n))
        self.mc.append({"module": module, "config": cfg, "generated_behaviours": len(found), "states": n})
        return found

    # ------------------------------------------------------------ execution
    def execute(self, program, scenarios, shards=NPROC, timeout=600, env=None):
        """runs scenarios [(id, [operations])] against the real code, returns {id: [events]}"""
        scenarios = list(scenarios)
        parts = [scenarios[i::shards] for i in range(shards)]
        self._n += 1
        tag = self._n

        def job(k, part):
            src, dst = self.path("sc%d_%d.txt" % (tag, k)), self.path("ev%d_%d.txt" % (tag, k))
            with open(src, "w") as f:
                for sid, ops in part:
                    f.write("S %d\n" % sid)
                    for o in ops:
                        f.write(o + "\n")
            e = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:allocator_may_return_null=1:max_allocation_size_mb=1024:exitcode=77:log_path=%s" % self.path("asan"))
            e.update(env or {})
            cwd = self.path("cwd%d_%d" % (tag, k))
            os.makedirs(cwd, exist_ok=True)
            r = subprocess.run([program, src, dst], timeout=timeout, env=e, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, cwd=cwd)
            if r.returncode != 0:
                raise Broken("driver failed with status %d" % r.returncode)
            res = {sid: [] for sid, _ in part}
            with open(dst) as f:
                for line in f:
                    try:
                        ev = json.loads(line)
                    except ValueError:
                        continue  # torn by a crash
                    res[ev.pop("s")].append(ev)
            os.remove(dst)
            return res
        allres = {}
        for f in [self.pool.submit(job, k, p) for k, p in enumerate(parts) if p]:
            allres.update(f.result())
        return allres

    # ----------------------------------------------------------- validation
    def judge(self, module, traces, aspect="", mode="", timeout=800, workers=NPROC, cfg="Trace.cfg", env=None, depth=0):
        """traces: {id: events}. Returns the rejected ones {id: index of the first unexplained event}"""
        if not traces:
            return {}
        self._n += 1
        path = self.path("tr%d.json" % self._n)
        with open(path, "w") as f:
            json.dump([{"id": k, "ev": v} for k, v in traces.items()], f)
        e = dict(env or {}, TRACES=path, ASPECT=aspect, MODE=mode)
        try:
            rc, out = self.tlc_raw(module, cfg, e, workers=workers, timeout=timeout, heap="6g")
        except Broken:
            if len(traces) == 1:
                raise
            rc, out = 1, "Error: timeout"
        accepted = {int(x) for x in re.findall(r'<<"ACCEPT", (-?\d+)>>', out)} | {k for k, v in traces.items() if not v}
        failed = "No error has been found" not in out
        if failed:
            if "Parsing or semantic analysis failed" in out or "TLC encountered an unexpected exception" in out and len(traces) == 0:
                raise Broken(out[-3000:])
            if len(traces) > 1:  # an event the specification cannot even evaluate: the run it belongs to is rejected, the others are judged again
                keys = list(traces)
                at = re.findall(r"\btid = (\d+)", out)
                if at and depth < 4:
                    culprit = keys[int(at[-1]) - 1]
                    rest = {k: v for k, v in traces.items() if k != culprit and k not in accepted}
                    res = self.judge(module, rest, aspect, mode, timeout, workers, cfg, env, depth + 1)
                    res[culprit] = 0
                    return res
                if depth >= 4:
                    return {k: 0 for k in keys if at and k == keys[int(at[-1]) - 1]}
                h = len(keys) // 2
                res = {}
                for part in (keys[:h], keys[h:]):
                    res.update(self.judge(module, {k: traces[k] for k in part}, aspect, mode, timeout, workers, cfg, env))
                return res
        self.account(out)
        rejected = {k: 0 for k in traces if k not in accepted}
        if len(traces) == 1 and rejected:
            e["VERBOSE"] = "1"
            rc, out = self.tlc_raw(module, cfg, e, workers=1, timeout=timeout)
            k = next(iter(rejected))
            at = [int(x) for x in re.findall(r'<<"AT", -?\d+, (\d+)>>', out)]
            rejected[k] = max(at, default=0) + 1
            self.last_output = out
        os.remove(path)
        return rejected

    def validate(self, module, program, scenarios, aspect="", mode="", prepare=None, label="", keep=None, cfg="Trace.cfg", env=None, shards=NPROC, drv_env=None, control=None):
        """executes the scenarios and lets the specification judge them; rejected ones are executed again to confirm"""
        scenarios = list(scenarios)
        if not scenarios:
            raise Broken("no scenario for " + label)
        byid = dict(scenarios)
        if len(byid) != len(scenarios):
            raise Broken("duplicate scenario numbers")
        prepare = prepare or (lambda sid, ev: ev)
        results = self.execute(program, scenarios, shards=shards, env=drv_env)
        # after too many hangs a driver gives up: the scenarios left are not judged
        skipped = [k for k, v in results.items() if v and v[-1].get("o") == "skipped"]
        if skipped:
            self.log("%d scenarios were not executed because others hang" % len(skipped))
        traces = {k: prepare(k, v) for k, v in results.items() if k not in set(skipped)}
        nev = sum(len(v) for v in traces.values())
        rejected = self.judge(module, traces, aspect, mode, cfg=cfg, env=env)
        self.log("%s: %d runs, %d events recorded; %d rejected by %s[%s]" % (label or module, len(traces), nev, len(rejected), module, aspect))
        self.validated += len(traces) - len(rejected)
        r = self.runs.setdefault(label or module, {"runs": 0, "events": 0, "spec": module, "aspect": aspect})
        r["runs"] += len(traces)
        r["events"] += nev
        if len(self.samples) < 3 and traces:
            k = next(iter(traces))
            self.samples.append({"scenario": byid[k][:12], "events": json.dumps(traces[k])[:1500]})
        if control and rejected:  # what is also rejected without the cause the property is about is the matter of other properties
            calm = {k: control(byid[k]) for k in rejected}
            ev = self.execute(program, list(calm.items()), shards=shards, env=drv_env)
            other = self.judge(module, {k: prepare(k, ev[k]) for k in calm}, aspect, mode, cfg=cfg, env=env)
            if other:
                self.log("%d runs are also rejected without their cause" % len(other))
                self.extra["rejected_for_another_reason"] = self.extra.get("rejected_for_another_reason", 0) + len(other)
            rejected = {k: v for k, v in rejected.items() if k not in other}
        had = len(self.violations)
        for k in list(rejected)[:6]:
            again = self.execute(program, [(k, byid[k])], shards=1, env=drv_env)
            trace = prepare(k, again[k])
            conf = self.judge(module, {k: trace}, aspect, mode, cfg=cfg, env=env)
            if k not in conf:  # may need the runs which came before it in the same process
                mine = scenarios.index((k, byid[k]))
                before = scenarios[mine % shards:mine + 1:shards]
                trace = prepare(k, self.execute(program, before, shards=1, env=drv_env)[k])
                conf = self.judge(module, {k: trace}, aspect, mode, cfg=cfg, env=env)
            if k in conf:
                self.violation({"spec": module, "aspect": aspect, "mode": mode, "driver": os.path.basename(program), "scenario": byid[k], "events": trace,
                                "first_unexplained_event": conf[k], "event": trace[conf[k] - 1] if 0 < conf[k] <= len(trace) else None,
                                "label": label})
                if len(self.violations) >= 3:
                    return
        if rejected and len(self.violations) == had:  # depends on memory contents, for instance: the recorded run itself is the evidence
            k = next(iter(rejected))
            conf = self.judge(module, {k: traces[k]}, aspect, mode, cfg=cfg, env=env)
            at = traces[k][conf[k] - 1] if k in conf and 0 < conf[k] <= len(traces[k]) else None
            if k not in conf or (at or {}).get("o") == "hang":
                raise Broken("%d runs of %s were rejected but not again when repeated" % (len(rejected), label or module))
            self.violation({"spec": module, "aspect": aspect, "mode": mode, "driver": os.path.basename(program), "scenario": byid[k], "events": traces[k],
                            "first_unexplained_event": conf[k], "event": at, "label": label, "note": "not reproduced by repeating the scenario"})

    # ------------------------------------------------------------- outcome
    def violation(self, info):
        d = os.path.join(VERIF, "evidence", "replay")
        os.makedirs(d, exist_ok=True)
        sig = hashlib.sha1(json.dumps([info.get("scenario"), info.get("spec"), info.get("aspect")]).encode()).hexdigest()[:12]
        path = os.path.join(d, "%s-%s.json" % (self.prop, sig))
        info["property"] = self.prop
        with open(path, "w") as f:
            json.dump(info, f, indent=1)
        self.violations.append((sig, path, info))

    def evidence(self, fresh=0):
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        cov = {"states": self.states, "transitions": self.transitions, "traces_validated_against_impl": self.validated,
               "samples": self.samples or ["none"], "model_checking_runs": self.mc, "conformance_runs": self.runs}
        cov.update(self.extra)
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump({"property": self.prop, "tier": "quick" if self.quick else "thorough", "seed": self.seed, "level": "model_checking",
                       "coverage": cov, "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 1),
                       "violations": fresh, "known_findings": len(self.violations) - fresh}, f, indent=1)

    def finish(self):
        known = {}
        try:
            with open(os.path.join(VERIF, "known_findings.txt")) as f:
                for line in f:
                    m = re.match(r"known: property=(\S+) signature=(\S+) (.*)", line)
                    if m and m.group(1) == self.prop:
                        known[m.group(2)] = m.group(3)
        except FileNotFoundError:
            pass
        fresh = []
        for sig, path, info in self.violations:
            if sig in known:
                print("KNOWN-FINDING: property=%s %s" % (self.prop, known[sig]))
            else:
                fresh.append((sig, path, info))
        self.evidence(len(fresh))
        for sig, path, info in fresh:
            print("unexplained event %s of %s: %s" % (info.get("first_unexplained_event"), info.get("label"), json.dumps(info.get("event"))[:600]))
            print("VIOLATION property=%s replay=%s" % (self.prop, path))
        if not os.environ.get("KEEP_WORK"):
            shutil.rmtree(self.work, ignore_errors=True)
        self.log("done")
        return 1 if fresh else 0


def cuts(rng, data, mode=None):
    """cuts a byte string into pieces"""
    data = bytes(data)
    mode = mode or rng.choice(["one", "bytes", "two", "few", "sizes"])
    if mode == "one" or len(data) < 2:
        return [data]
    if mode == "bytes" and len(data) <= 400:
        return [data[i:i + 1] for i in range(len(data))]
    if mode == "two":
        k = rng.randrange(1, len(data))
        return [data[:k], data[k:]]
    if mode == "sizes":
        k = rng.choice([1, 2, 3, 5, 7, 8, 16, 100, 500])
        k = max(k, len(data) // 60)
        return [data[i:i + k] for i in range(0, len(data), k)]
    n = rng.randrange(2, 7)
    pts = sorted({rng.randrange(1, len(data)) for _ in range(n)})
    return [data[a:b] for a, b in zip([0] + pts, pts + [len(data)])]
