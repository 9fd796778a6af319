"""Shared machinery of the checks: build, record, judge with TLC, generate with TLC, report."""
import json, os, re, shutil, subprocess, sys, time, resource

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(ROOT, "spec")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
BIN = os.path.join(ROOT, "target", "debug", "vharness")


class Broken(Exception):
    """The check itself could not be carried out (exit 2)."""


class Violation(Exception):
    def __init__(self, what, data):
        super().__init__(what)
        self.what, self.data = what, data


class Check:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.work = os.path.join(ROOT, "work", pid)
        shutil.rmtree(self.work, ignore_errors=True)
        os.makedirs(self.work)
        self.t0 = time.time()
        self.cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0,
                    "behaviours_generated_from_spec": 0, "steps": [], "samples": []}
        self.assumptions = []
        self.known_hits = []

    @property
    def thorough(self):
        return self.tier == "thorough"

    def n(self, quick, thorough):
        return thorough if self.thorough else quick

    def log(self, *a):
        print(f"[{self.pid} {time.time() - self.t0:6.1f}s]", *a, flush=True)

    # ------------------------------------------------------------------ build
    def build(self, package="harness", binary="vharness"):
        env = dict(os.environ, RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu", CARGO_NET_OFFLINE="true",
                   CARGO_TARGET_DIR=os.path.join(ROOT, "target"))
        env["RUSTFLAGS"] = "-Awarnings"
        p = subprocess.run(["cargo", "build", "--offline", "--quiet", "--manifest-path",
                            os.path.join(ROOT, package, "Cargo.toml")], env=env,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=800)
        if p.returncode != 0:
            errs = "\n".join(l for l in p.stdout.splitlines() if "warning" not in l)
            raise Broken("harness does not build against /repo:\n" + errs[-6000:])
        self.log(f"built {package}")
        return os.path.join(ROOT, "target", "debug", binary)

    # ---------------------------------------------------------------- harness
    def harness(self, driver, out, n=0, extra=(), inp=None, binpath=None, timeout=600, seed=None):
        cmd = [binpath or BIN, driver, "--out", out, "--seed", str(self.seed if seed is None else seed), "--n", str(n)]
        if self.thorough:
            cmd.append("--thorough")
        if inp:
            cmd += ["--in", inp]
        cmd += list(extra)

        def lim():
            resource.setrlimit(resource.RLIMIT_AS, (12 << 30, 12 << 30))
            resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        env = dict(os.environ, RUST_BACKTRACE="0")
        try:
            p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True,
                               timeout=timeout, preexec_fn=lim, env=env, errors="replace")
        except subprocess.TimeoutExpired:
            raise Broken(f"driver {driver} did not finish in {timeout} s")
        if p.returncode != 0:
            cur = ""
            try:
                cur = open(out + ".cur").read()
            except OSError:
                pass
            if "harness:" in p.stderr or not cur:
                raise Broken(f"driver {driver} failed: rc={p.returncode} {p.stderr[-2000:]}")
            kind = {77: "hang", -11: "segmentation fault", -6: "abort", 134: "abort"}.get(p.returncode, f"rc={p.returncode}")
            raise Violation(f"{driver}: the code under test ended the process ({kind})",
                            {"driver": driver, "cmd": cmd, "kind": kind, "case": cur, "stderr": p.stderr[-3000:]})
        return p

    # -------------------------------------------------------------------- TLC
    def tlc(self, module, cfg=None, env=None, args=(), workers=8, timeout=600, heap="8g"):
        meta = os.path.join(self.work, "meta-" + module + str(time.time()))
        cmd = ["java", "-XX:+UseParallelGC", f"-Djava.io.tmpdir={self.work}", f"-Xmx{heap}", "-Xss64m", "-cp", JARS, "tlc2.TLC",
               "-workers", str(workers), "-metadir", meta, "-noGenerateSpecTE", "-lncheck", "final"]
        cmd += list(args)
        if cfg:
            cmd += ["-config", os.path.join(SPEC, cfg)]
        cmd.append(os.path.join(SPEC, module + ".tla"))
        e = dict(os.environ)
        e.update(env or {})
        try:
            p = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                               text=True, timeout=timeout, errors="replace")
        except subprocess.TimeoutExpired:
            raise Broken(f"TLC on {module} did not finish in {timeout} s")
        finally:
            shutil.rmtree(meta, ignore_errors=True)
        out = p.stdout
        m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)
        gen, dist = (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)
        return p.returncode, out, gen, dist

    def model_check(self, module, cfg=None, env=None, timeout=600, min_states=1, args=(), workers=8):
        """Exhaustive check of the specification's own properties."""
        cfg = cfg or module + ".cfg"
        rc, out, gen, dist = self.tlc(module, cfg, env, timeout=timeout, args=args, workers=workers)
        if rc != 0:
            raise Broken(f"the specification {module} ({cfg}) does not satisfy its own properties:\n{out[-4000:]}")
        if dist < min_states:
            raise Broken(f"{module}: only {dist} states explored (vacuous?)")
        self.cov["states"] += dist
        self.cov["transitions"] += gen
        self.cov["steps"].append({"kind": "model_check", "module": module, "cfg": cfg, "states": dist, "transitions": gen})
        self.log(f"model-checked {module} ({cfg}): {dist} states, {gen} transitions")
        return out

    def judge(self, trace, module, env=None, timeout=600, samples=2, what=None, min_lines=1):
        """Every recorded line must be accepted by the specification's judge module."""
        lines = sum(1 for _ in open(trace))
        if lines < min_lines:
            raise Broken(f"{trace}: only {lines} recorded lines")
        e = {"TRACE": trace}
        e.update(env or {})
        rc, out, gen, dist = self.tlc(module, "Judge.cfg", e, timeout=timeout)
        if rc != 0:
            mi = re.findall(r"^(?:/\\ )?lineNo = (\d+)", out, re.M)
            if "is violated" in out and mi:
                i = int(mi[-1])
                line = open(trace).read().splitlines()[i - 1]
                raise Violation(f"{module}: recorded behaviour {i} of {os.path.basename(trace)} is not a behaviour of the specification",
                                {"judge": module, "trace": trace, "line": i, "event": json.loads(line)})
            if rc in (75, 76) and mi:
                # the specification cannot even be evaluated on what was recorded
                i = int(mi[-1])
                line = open(trace).read().splitlines()[i - 1]
                raise Violation(f"{module}: recorded behaviour {i} of {os.path.basename(trace)} is outside the specification",
                                {"judge": module, "trace": trace, "line": i, "event": json.loads(line), "tlc": out[-3000:]})
            raise Broken(f"judge {module} failed on {trace}:\n{out[-5000:]}")
        if dist != lines:
            raise Broken(f"judge {module}: {dist} of {lines} lines judged")
        self.cov["traces_validated_against_impl"] += lines
        self.cov["transitions"] += gen
        self.cov["steps"].append({"kind": "trace_validation", "module": module, "trace": os.path.basename(trace), "lines": lines})
        self.log(f"judged {lines} recorded behaviours with {module}")
        with open(trace) as f:
            ls = [l for _, l in zip(range(40), f)]
        for l in ls[-samples:]:
            self.cov["samples"].append(json.loads(l) if len(l) < 3000 else l[:1500])
        return lines

    def record_and_judge(self, driver, module, n, extra=(), name=None, timeout=600, min_lines=1, env=None, seed=None):
        out = os.path.join(self.work, (name or driver) + ".ndjson")
        self.harness(driver, out, n=n, extra=extra, timeout=timeout, seed=seed)
        r = self.judge(out, module, timeout=timeout, min_lines=min_lines, env=env)
        return r

    def generate(self, module, cfg=None, env=None, args=(), timeout=600, workers=8, min_cases=1, name=None):
        """Behaviours printed by TLC as lines starting with @@ followed by JSON."""
        cfg = cfg or module + ".cfg"
        rc, out, gen, dist = self.tlc(module, cfg, env, args=args, timeout=timeout, workers=workers)
        if rc != 0:
            raise Broken(f"generating from {module} ({cfg}) failed:\n{out[-4000:]}")
        path = os.path.join(self.work, (name or module) + ".gen.ndjson")
        n = 0
        seen = set()
        with open(path, "w") as f:
            for l in out.splitlines():
                if l in seen:
                    continue
                # PrintT of a string prints it quoted with escapes
                if l.startswith('"@@'):
                    s = json.loads(l)[2:]
                    f.write(s + "\n")
                    seen.add(l)
                    n += 1
        if n < min_cases:
            raise Broken(f"{module}: only {n} behaviours generated\n{out[-2000:]}")
        self.cov["states"] += dist
        self.cov["transitions"] += gen
        self.cov["behaviours_generated_from_spec"] += n
        self.cov["steps"].append({"kind": "spec_to_code", "module": module, "cfg": cfg, "behaviours": n, "states": dist})
        self.log(f"generated {n} behaviours from {module} ({dist} states)")
        return path

    def replay_generated(self, driver, path, extra=(), timeout=600):
        """Replays TLC-generated behaviours (field exp = the specification's prediction) into the code."""
        out = path.replace(".gen.", ".out.")
        self.harness(driver, out, inp=path, extra=extra, timeout=timeout)
        n = 0
        for l in open(out):
            e = json.loads(l)
            n += 1
            if e.get("st") != "ok" or e["out"] != e["exp"]:
                raise Violation(f"{driver}: the code does not follow a behaviour generated from the specification",
                                {"driver": driver, "event": e})
            if n <= 2:
                self.cov["samples"].append(e)
        self.cov["traces_validated_against_impl"] += n
        self.log(f"replayed {n} generated behaviours into the code")
        return out

    def replay_judged(self, driver, path, module, extra=(), timeout=600, env=None):
        """Replays TLC-generated behaviours into the code and judges what happened against the specification."""
        out = path.replace(".gen.", ".out.")
        self.harness(driver, out, inp=path, extra=extra, timeout=timeout)
        return self.judge(out, module, timeout=timeout, env=env)

    # ------------------------------------------------------------ concurrency
    def explore(self, scenarios, bound, runs, rnd, name, shards=8, timeout=700):
        """Runs the scenarios on the real channel code under every schedule with at most `bound` preemptions (up to `runs`
        schedules each) and `rnd` random ones; returns the trace of distinct histories, or None if the scheduled copy of
        the code cannot be built (a change of style the stand-ins do not know)."""
        try:
            binpath = self.build("conc", "vconc")
        except Broken as b:
            self.log("scheduled exploration not possible:", str(b)[-1500:])
            self.assumptions.append("scheduled exploration skipped: the channel sources do not build with the scheduling stand-ins")
            return None
        outs = [os.path.join(self.work, f"{name}.{i}.nd") for i in range(shards)]
        env = dict(os.environ, RUST_BACKTRACE="0")
        ps = []
        for i, o in enumerate(outs):
            ef = open(o + ".err", "w")
            ps.append((subprocess.Popen([binpath, "--in", scenarios, "--out", o, "--bound", str(bound), "--max", str(runs),
                                         "--random", str(rnd), "--seed", str(self.seed), "--shard", str(i), "--shards", str(shards)],
                                        stdout=subprocess.PIPE, stderr=ef, env=env, text=True), o))
        end = time.time() + timeout
        total = {}
        try:
            for p, o in ps:
                try:
                    so, _ = p.communicate(timeout=max(1, end - time.time()))
                except subprocess.TimeoutExpired:
                    raise Broken(f"exploration {name} did not finish in {timeout} s")
                if p.returncode != 0:
                    err = open(o + ".err").read()
                    if "harness:" in err:
                        raise Broken(f"exploration failed: {err[-2000:]}")
                    raise Violation("the channel code ended the process under a schedule", {"rc": p.returncode, "stderr": err[-3000:], "out": o})
                for k, v in json.loads(so.strip().splitlines()[-1]).items():
                    if isinstance(v, int):
                        total[k] = total.get(k, 0) + v
        finally:
            for p, _ in ps:
                if p.poll() is None:
                    p.kill()
        out = os.path.join(self.work, name + ".ndjson")
        with open(out, "w") as f:
            for o in outs:
                with open(o) as g:
                    shutil.copyfileobj(g, f)
                os.unlink(o)
        self.cov["steps"].append({"kind": "schedules", "name": name, "bound": bound, **total})
        self.log(f"explored schedules ({name}): {total}")
        return out

    def miri(self, scenarios, seeds, name, timeout=700, flags=""):
        """The scenarios on real threads under Miri (weak memory, random schedules): Miri reports invalid accesses, races,
        leaks and deadlocks; the results go to a trace."""
        env = dict(os.environ, CARGO_NET_OFFLINE="true", CARGO_TARGET_DIR=os.path.join(ROOT, "target", "miri"),
                   RUSTFLAGS="-Awarnings", MIRIFLAGS=f"-Zmiri-many-seeds={seeds[0]}..{seeds[1]} {flags}")
        env.pop("RUSTUP_TOOLCHAIN", None)
        try:
            p = subprocess.run(["cargo", "+nightly", "miri", "run", "--offline", "-q", "--manifest-path",
                                os.path.join(ROOT, "miri", "Cargo.toml"), "--"] + scenarios, env=env, cwd=os.path.join(ROOT, "miri"),
                               stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=timeout, errors="replace")
        except subprocess.TimeoutExpired:
            raise Broken(f"Miri did not finish in {timeout} s")
        if p.returncode != 0:
            if "FAILING SEED" in p.stderr:
                m = re.findall(r"^error: (.*)", p.stderr, re.M)
                raise Violation("Miri: " + (m[0] if m else "failure"), {"stderr": p.stderr[-4000:], "scenarios": scenarios})
            raise Broken("Miri run failed:\n" + p.stderr[-4000:])
        out = os.path.join(self.work, name + ".ndjson")
        lines = [l for l in p.stdout.splitlines() if l.startswith("{")]
        want = len(scenarios) * (seeds[1] - seeds[0])
        if len(lines) != want:
            raise Broken(f"Miri: {len(lines)} of {want} results")
        with open(out, "w") as f:
            f.write("\n".join(lines) + "\n")
        self.cov["steps"].append({"kind": "miri", "scenarios": len(scenarios), "seeds": seeds[1] - seeds[0]})
        self.log(f"Miri: {len(scenarios)} scenarios with {seeds[1] - seeds[0]} schedules each")
        return out

    # --------------------------------------------------------------- evidence
    def evidence(self, violations, level="model_checking"):
        os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
        with open(os.path.join(ROOT, "evidence", self.pid + ".json"), "w") as f:
            json.dump({"property": self.pid, "tier": self.tier, "seed": self.seed, "level": level,
                       "coverage": self.cov, "assumptions": self.assumptions,
                       "wall_s": round(time.time() - self.t0, 2), "violations": violations}, f, indent=1)

    def run(self, plan):
        try:
            if getattr(plan, "uses_harness", True):
                self.build()
            plan(self)
        except Violation as v:
            os.makedirs(os.path.join(ROOT, "work", "replay"), exist_ok=True)
            path = os.path.join(ROOT, "work", "replay", f"{self.pid}.json")
            with open(path, "w") as f:
                json.dump({"property": self.pid, "seed": self.seed, "tier": self.tier, "what": v.what, "data": v.data}, f, indent=1)
            self.log(v.what)
            self.log(json.dumps(v.data)[:3000])
            self.cov["samples"].append({"violation": v.what})
            self.evidence(1)
            print(f"VIOLATION property={self.pid} replay={path}", flush=True)
            return 1
        except Broken as b:
            self.log("CHECK BROKEN:", b)
            self.evidence(0)
            return 2
        except subprocess.TimeoutExpired as b:
            self.log("CHECK BROKEN: timeout", b)
            return 2
        self.evidence(0)
        self.log("held on everything explored")
        # keep disk usage low: traces are only needed when something failed
        shutil.rmtree(self.work, ignore_errors=True)
        return 0
