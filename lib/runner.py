"""Shared machinery of the checks: build the driver, run it, run TLC, report."""
import hashlib, json, os, re, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
SPEC = os.path.join(VERIF, "spec")
TLAJARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
KNOWN_FILE = os.path.join(VERIF, "KNOWN_FINDINGS")


class CheckError(Exception):
    pass


def go_env():
    e = dict(os.environ)
    e.update(HOME="/root", GOTOOLCHAIN="local", GOPROXY="off", GOWORK="off", CGO_ENABLED="1",
             GOFLAGS="-mod=mod -buildvcs=false", GOCACHE="/root/.cache/go-build", GOMODCACHE="/root/go/pkg/mod")
    return e


class TLCResult:
    def __init__(self):
        self.ok = False
        self.states = 0        # distinct states
        self.generated = 0
        self.rejected = []     # case indices (1-based)
        self.text = ""
        self.violation = False


def _session_key(c):
    """what makes a session distinct: its script, not its times"""
    if c["kind"] == "run":
        return json.dumps([c["name"], c["ascii"], c["broken"], [[e["it"], e["id"], e["parts"]] for e in c["events"]], [[u["f"], u["v"]] for u in c["ups"]], len(c["pings"])])
    if c["kind"] == "init":
        return json.dumps([c["name"], c["ascii"]])
    if c["kind"] != "session":
        return json.dumps([c.get(k) for k in ("kind", "class", "reply", "delay", "header", "index")])
    return json.dumps([c["name"], c.get("index"), c["re"], c["no"], c["absent"],
                       [[x["ascii"], x["class"], x["broken"], x["gone"], x["items"], x["lists"]] for x in c["conns"]]])


class Run:
    def __init__(self, prop):
        self.prop = prop
        self.tier = os.environ.get("VERIF_TIER", "quick")
        self.thorough = self.tier == "thorough"
        self.seed = int(os.environ.get("VERIF_SEED", "1") or "1")
        self.t0 = time.time()
        self.work = tempfile.mkdtemp(prefix="verif-%s-" % prop)
        self.violations = []   # (description, replay path)
        self.known_hit = []
        self.cov = {}
        self.assumptions = []
        self.known = self._load_known()
        self.distinct = set()
        self.evaluations = 0
        self.samples = []
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self._bins = {}
        rd = os.path.join(VERIF, "replays")
        if os.path.isdir(rd):
            for f in os.listdir(rd):
                if f.startswith(prop + "-"):
                    os.remove(os.path.join(rd, f))

    # ---- known findings ----
    def _load_known(self):
        r = []
        if os.path.exists(KNOWN_FILE):
            for line in open(KNOWN_FILE):
                line = line.strip()
                m = re.match(r"finding: property=(\S+) id=(\S+) (.*)", line)
                if m and m.group(1) == self.prop:
                    r.append((m.group(2), m.group(3)))
        return r

    def known_ids(self):
        return [k for k, _ in self.known]

    # ---- building and running ----
    def build(self, race=False):
        key = "vharness-race" if race else "vharness"
        if key in self._bins:
            return self._bins[key]
        src = os.path.join(VERIF, "harness")
        mod = os.path.join(self.work, "h.mod")
        shutil.copy(os.path.join(src, "go.mod"), mod)
        shutil.copy(os.path.join(src, "go.sum"), os.path.join(self.work, "h.sum"))
        out = os.path.join(self.work, key)
        cmd = ["go", "build", "-modfile=" + mod] + (["-race"] if race else []) + ["-o", out, "."]
        p = subprocess.run(cmd, cwd=src, env=go_env(), capture_output=True, text=True)
        if p.returncode != 0:
            raise CheckError("driver does not build:\n" + p.stdout + p.stderr)
        self._bins[key] = out
        return out

    def drive(self, sub, args=(), race=False, timeout=600, name=None, env=None):
        """Run a driver subcommand; returns its output directory. A crash or hang of the code under test is a violation;
        then None is returned."""
        b = self.build(race)
        d = os.path.join(self.work, name or sub)
        os.makedirs(d, exist_ok=True)
        cmd = [b, sub, "-out", d, "-seed", str(self.seed)] + (["-thorough"] if self.thorough else []) + list(args)
        e = go_env()
        e["GORACE"] = "halt_on_error=0 exitcode=0 log_path=" + os.path.join(d, "race")
        if env:
            e.update(env)
        try:
            p = subprocess.run(cmd, cwd=d, env=e, capture_output=True, timeout=timeout)
        except subprocess.TimeoutExpired as ex:
            err = (ex.stderr or b"").decode("latin-1")[-20000:]
            raise CheckError("driver %s exceeded %ss\n%s" % (sub, timeout, err))
        err = p.stderr.decode("latin-1")
        open(os.path.join(d, "stderr.txt"), "w").write(err)
        if p.returncode == 42:
            self.violation("a call into the library did not return", {"hang": open(os.path.join(d, "hang.txt")).read()[:20000]})
            return None
        if p.returncode != 0:
            crash = [l for l in err.splitlines() if l.startswith(("panic:", "fatal error:", "unexpected fault", "runtime:"))]
            inlib = re.search(r"^(\s+/repo/|github\.com/SKAARHOJ/rawpanel-lib)", err, re.M)
            first = err.find("goroutine ")
            # the goroutine that crashed comes first
            block = err[first:first + 20000].split("\n\n")[0] if first >= 0 else ""
            if crash and inlib and ("/repo/" in block or "fatal error" in err):
                self.violation("the library crashed: " + crash[0], {"stderr": err[:20000]})
                return None
            raise CheckError("driver %s failed (%d):\n%s" % (sub, p.returncode, err[-8000:]))
        races = [f for f in os.listdir(d) if f.startswith("race.")]
        for f in races:
            txt = open(os.path.join(d, f), errors="replace").read()
            for rep in txt.split("=================="):
                if "DATA RACE" in rep and "/repo/" in rep:
                    self.violation("data race reported by the race detector", {"report": rep[:20000]})
                    break
        return d

    def cbind(self, wires, lines):
        """Run the C wrapper's entry points (through an overlaid test) on recorded inputs."""
        ov = os.path.join(self.work, "overlay.json")
        json.dump({"Replace": {REPO + "/rawpanel-lib-c/driver_verif_test.go": os.path.join(VERIF, "cbind", "driver_verif_test.go")}}, open(ov, "w"))
        fin, fout = os.path.join(self.work, "cbind-in.json"), os.path.join(self.work, "cbind-out.json")
        json.dump({"Wires": wires, "Lines": lines}, open(fin, "w"))
        e = go_env()
        e.update(VERIF_IN=fin, VERIF_OUT=fout)
        p = subprocess.run(["go", "test", "-vet=off", "-count=1", "-timeout", "300s", "-run", "TestVerifDriver$", "-overlay", ov, "."],
                           cwd=REPO + "/rawpanel-lib-c", env=e, capture_output=True, text=True)
        if p.returncode != 0 or not os.path.exists(fout):
            t = p.stdout + p.stderr
            if re.search(r"^(panic:|fatal error:)", t, re.M) and "test timed out" not in t:
                self.violation("the C wrapper crashed", {"output": t[:20000]})
                return None
            raise CheckError("C wrapper driver failed:\n" + t[-6000:])
        return json.load(open(fout))

    # ---- TLC ----
    def tlc(self, module, cfg=None, env=None, workers=8, cont=False, timeout=700, extra=(), heap="10g", stack="64m"):
        cfg = cfg or module
        meta = tempfile.mkdtemp(prefix="tlc-", dir=self.work)
        e = dict(os.environ)
        e.update(env or {})
        cmd = ["java", "-Dfile.encoding=UTF-8", "-Xmx" + heap, "-Xss" + stack, "-XX:+UseParallelGC", "-cp", TLAJARS, "tlc2.TLC",
               "-workers", str(workers), "-metadir", meta, "-noGenerateSpecTE", "-config", cfg + ".cfg"]
        if cont:
            cmd.append("-continue")
        cmd += list(extra) + [module + ".tla"]
        try:
            p = subprocess.run(cmd, cwd=SPEC, env=e, capture_output=True, timeout=timeout)
        except subprocess.TimeoutExpired:
            raise CheckError("TLC on %s exceeded %ss" % (module, timeout))
        shutil.rmtree(meta, ignore_errors=True)
        t = p.stdout.decode("utf-8", "replace") + p.stderr.decode("utf-8", "replace")
        t = "\n".join(l for l in t.splitlines() if not l.startswith(("Parsing file", "Semantic processing", "Linting of")))
        r = TLCResult()
        r.text = t
        m = re.search(r"(\d+) states generated, (\d+) distinct states found", t)
        if m:
            r.generated, r.states = int(m.group(1)), int(m.group(2))
        if p.returncode == 0 and "No error has been found" in t and "Error:" not in t:  # (with -continue the exit status says nothing)
            r.ok = True
            return r
        if p.returncode in (10, 11, 12, 13, 14, 75, 76) or "is violated" in t:
            r.violation = True
            # the last state of each printed behaviour
            cur = None
            for line in t.splitlines():
                mm = re.match(r"^(?:/\\ )?i = (\d+)\s*$", line)
                if mm:
                    cur = int(mm.group(1))
                elif line.startswith("State 1:") or line.startswith("1: ") or line.startswith("Error:") or "states generated" in line:
                    if cur is not None:
                        r.rejected.append(cur)
                    cur = None
            if cur is not None:
                r.rejected.append(cur)
            r.rejected = [k for k in dict.fromkeys(r.rejected) if k > 0]
            return r
        raise CheckError("TLC on %s ended with %d:\n%s" % (module, p.returncode, t[-6000:]))

    def validate(self, module, cfg, casefile, nontrivial=None, env=None, sample=2, classify=None, timeout=700, keyf=None, confirm=None):
        """All recorded cases of a file must be accepted by the specification."""
        lines = open(casefile, encoding="utf-8").read().split("\n")
        body = [l.rstrip(",") for l in lines[1:] if l and l not in ("]", "[")]
        n = len(body)
        if n == 0:
            return
        limit = 30 << 20
        if sum(map(len, body)) > 1.5 * limit and n > 1:  # in parts that TLC can hold
            k = part = 0
            while k < n:
                start, size = k, 0
                while k < n and (size < limit or k == start):
                    size += len(body[k])
                    k += 1
                part += 1
                f = "%s.part%d.json" % (casefile[:-5], part)
                with open(f, "w", encoding="utf-8") as o:
                    o.write("[\n" + ",\n".join(body[start:k]) + "\n]\n")
                self.validate(module, cfg, f, nontrivial, env, sample, classify, timeout, keyf, confirm)
                os.remove(f)
            return
        e = {"TRACE_FILE": casefile}
        e.update(env or {})
        t0 = time.time()
        removed = {}
        idx = list(range(n))
        cur = casefile
        for attempt in range(6):
            r = self.tlc(module, cfg, env=dict(e, TRACE_FILE=cur), cont=bool(classify or confirm), timeout=timeout)
            self.states += r.states
            self.transitions += max(0, r.generated - 1)
            if r.ok:
                break
            if not r.rejected:
                raise CheckError("TLC rejected a trace of %s without naming it:\n%s" % (casefile, r.text[-6000:]))
            new = [k for k in r.rejected]
            bad = False
            for k in new:
                case = json.loads(body[idx[k - 1]])
                kid = classify(case) if classify else None
                if kid and kid in self.known_ids():
                    removed[idx[k - 1]] = kid
                    if kid not in self.known_hit:
                        self.known_hit.append(kid)
                elif confirm and bad:
                    continue
                elif confirm and len(removed) < 6 and not confirm(case):
                    removed[idx[k - 1]] = "transient"
                    print("not repeated: case %d of %s (%s)" % (idx[k - 1] + 1, os.path.basename(casefile), case.get("name")))
                    if os.environ.get("VERIF_TRANSIENT"):
                        with open("%s/%s-%s.json" % (os.environ["VERIF_TRANSIENT"], self.prop, case.get("index")), "w") as f:
                            json.dump(case, f)
                    self.cov["not_repeated"] = self.cov.get("not_repeated", 0) + 1
                else:
                    bad = True
                    if len(self.violations) < 5:
                        self.violation("the specification rejects case %d of %s" % (idx[k - 1] + 1, os.path.basename(casefile)),
                                       {"module": module, "cfg": cfg, "case": case, "tlc": r.text[-6000:]})
            if bad or ((classify or confirm) and "states generated" in r.text and r.states > 0 and "Error: Evaluating" not in r.text):
                break
            # an evaluation failure ends TLC: go on without the cases already classified
            idx = [j for j in range(n) if j not in removed]
            cur = casefile + ".%d.json" % attempt
            with open(cur, "w", encoding="utf-8") as f:
                f.write("[\n" + ",\n".join(body[j] for j in idx) + "\n]\n")
        self.traces += n - len(removed)
        self.evaluations += n
        for l in body:
            if nontrivial is None or nontrivial(json.loads(l)):
                self.distinct.add(hashlib.sha1((keyf(json.loads(l)) if keyf else l).encode()).digest()[:10])
        for k in range(min(sample, n)):
            self.samples.append(json.loads(body[(k * 7919 + n // 2) % n]))
        self.cov.setdefault("parts", []).append({"cases": os.path.basename(casefile), "module": module, "cfg": cfg, "count": n, "seconds": round(time.time() - t0, 1)})

    def sessions(self, sub, args=(), timeout=300, name=None, nontrivial=None, module="CheckPanel", race=False):
        """Sessions of a client with scripted panels. A rejected one counts when it is rejected twice more
        while nothing else runs, before three good attempts."""
        if self.violations:
            self.cov["skipped_after_violation"] = self.cov.get("skipped_after_violation", []) + [sub]
            return
        d = self.drive(sub, args, timeout=timeout, name=name, race=race)
        if not d:
            return
        env = {"PROP": self.prop}
        def confirm(case):
            if case.get("index", -1) < 0:
                return True
            again = well = 0
            while again < 2 and well < 3:
                rd = self.drive(sub, list(args) + ["-only", str(case["index"])], timeout=timeout, name="again-%s-%d-%d" % (name or sub, case["index"], again + well), race=race)
                if rd is None:
                    return True
                if self.tlc(module, env=dict(env, TRACE_FILE=rd + "/sessions.json")).ok:
                    well += 1
                else:
                    again += 1
            return again == 2
        self.validate(module, module, d + "/sessions.json", nontrivial or (lambda c: c["kind"] != "leftover"), env=env,
                      confirm=confirm, keyf=_session_key)

    def design(self, module, cfg=None, timeout=700, **kw):
        """The properties hold on the model itself."""
        t0 = time.time()
        r = self.tlc(module, cfg, timeout=timeout, **kw)
        if not r.ok:
            raise CheckError("the model %s does not satisfy its own invariants:\n%s" % (module, r.text[-8000:]))
        self.states += r.states
        self.transitions += max(0, r.generated - 1)
        self.cov.setdefault("models", []).append({"module": module, "cfg": cfg or module, "distinct_states": r.states, "seconds": round(time.time() - t0, 1)})
        return r

    # ---- reporting ----
    def violation(self, what, detail):
        d = os.path.join(VERIF, "replays")
        os.makedirs(d, exist_ok=True)
        p = os.path.join(d, "%s-%d.json" % (self.prop, len(self.violations) + 1))
        with open(p, "w") as f:
            json.dump({"property": self.prop, "what": what, "seed": self.seed, "tier": self.tier, **detail}, f, indent=1)
        self.violations.append((what, p))

    def finish(self, level, rule):
        cov = {"evaluations": self.evaluations, "distinct_nontrivial": len(self.distinct), "rule": rule,
               "samples": _shorten(self.samples[:6])}
        if level == "model_checking":
            cov.update(states=self.states, transitions=self.transitions, traces_validated_against_impl=self.traces)
        cov.update(self.cov)
        ev = {"property": self.prop, "tier": self.tier if self.tier in ("quick", "thorough") else "quick", "seed": self.seed,
              "level": level, "coverage": cov, "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 2),
              "violations": len(self.violations)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        for kid, what in self.known:
            if kid in self.known_hit:
                print("KNOWN-FINDING: property=%s %s: %s" % (self.prop, kid, what))
        for what, p in self.violations:
            print("  " + what)
            print("VIOLATION property=%s replay=%s" % (self.prop, p))
        print("%s: %d cases, %d distinct non-trivial, %d traces validated, %d model states, %d violations, %.1fs" % (
            self.prop, self.evaluations, len(self.distinct), self.traces, self.states, len(self.violations), time.time() - self.t0))
        self.cleanup()
        sys.exit(1 if self.violations else 0)

    def cleanup(self):
        if os.environ.get("VERIF_KEEP"):
            print("kept " + self.work)
        else:
            shutil.rmtree(self.work, ignore_errors=True)


def _shorten(x, depth=0):
    if isinstance(x, str):
        return x if len(x) <= 400 else x[:400] + "..."
    if isinstance(x, list):
        r = [_shorten(y, depth + 1) for y in x[:60]]
        return r + ["... %d more" % (len(x) - 60)] if len(x) > 60 else r
    if isinstance(x, dict):
        return {k: _shorten(v, depth + 1) for k, v in x.items()}
    return x
