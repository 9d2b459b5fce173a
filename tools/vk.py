"""Shared machinery of the checks: building, running TLC, reporting."""
import concurrent.futures as cf
import hashlib, json, os, re, resource, shutil, subprocess, sys, time

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VK_REPO", "/repo")
TLA = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
WORK = os.environ.get("VK_WORK", os.path.join(V, "work"))
NCPU = os.cpu_count() or 4


def cargo_env():
    e = dict(os.environ)
    e["PATH"] = "/root/.cargo/bin:" + e.get("PATH", "")
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_TERM_COLOR"] = "never"
    e["RUSTC_WRAPPER"] = ""
    e.setdefault("HOME", "/root")
    e.pop("RUSTFLAGS", None)
    return e


class ToolError(Exception):
    pass


class Check:
    def __init__(self, pid):
        self.pid = pid
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if self.tier not in ("quick", "thorough"):
            self.tier = "quick"
        self.seed = int(os.environ.get("VERIF_SEED", "1") or "1")
        self.t0 = time.time()
        self.work = os.path.join(WORK, pid)
        os.environ.get("VK_KEEP") or shutil.rmtree(self.work, ignore_errors=True)
        os.makedirs(self.work, exist_ok=True)
        self.replays = os.path.join(V, "replay")
        os.makedirs(self.replays, exist_ok=True)
        self.viols = []      # (message, replay path)
        self.known = {}      # key -> text
        self.known_hit = {}
        self.states = self.transitions = self.traces = 0
        self.cov = {}
        self.samples = []
        self.assumptions = []
        self.load_known()

    # ------------------------------------------------------------- budget
    def quick(self):
        return self.tier == "quick"

    def pick(self, q, t):
        return q if self.quick() else t

    def elapsed(self):
        return time.time() - self.t0

    # ------------------------------------------------------------ findings
    def load_known(self):
        p = os.path.join(V, "known-findings.txt")
        if not os.path.exists(p):
            return
        for l in open(p):
            m = re.match(r"finding: property=(\S+) key=(\S+) (.*)", l.strip())
            if m and m.group(1) == self.pid:
                self.known[m.group(2)] = m.group(3)

    def violation(self, msg, replay, key=None):
        """replay: a JSON-serialisable description that reproduces it."""
        if key is not None and key in self.known:
            self.known_hit[key] = self.known_hit.get(key, 0) + 1
            return
        if len(self.viols) >= 5:
            self.viols.append((msg, self.viols[-1][1]))
            return
        h = hashlib.sha1(json.dumps(replay, sort_keys=True, default=str).encode()).hexdigest()[:10]
        p = os.path.join(self.replays, f"{self.pid}-{h}.json")
        with open(p, "w") as f:
            json.dump({"property": self.pid, "msg": msg, "replay": replay}, f, indent=1, default=str)
        self.viols.append((msg, p))

    def finish(self, level="model_checking"):
        for k, txt in self.known.items():
            if k in self.known_hit:
                print(f"KNOWN-FINDING: property={self.pid} {txt}")
        for m, p in self.viols[:5]:
            print(f"VIOLATION property={self.pid} replay={p}")
            print("  " + m[:1500])
        cov = {"states": self.states, "transitions": self.transitions,
               "traces_validated_against_impl": self.traces,
               "samples": self.samples[:3] or ["-"]}
        cov.update(self.cov)
        ev = {"property": self.pid, "tier": self.tier, "seed": self.seed, "level": level,
              "coverage": cov, "assumptions": self.assumptions,
              "wall_s": round(time.time() - self.t0, 2), "violations": len(self.viols)}
        os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
        with open(os.path.join(V, "evidence", self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
        print(f"{self.pid} {self.tier}: {self.states} states, {self.transitions} transitions, "
              f"{self.traces} traces replayed, {len(self.viols)} violations, {ev['wall_s']} s")
        os.environ.get("VK_KEEP") or shutil.rmtree(self.work, ignore_errors=True)
        return 1 if self.viols else 0

    # ------------------------------------------------------------- building
    def cargo(self, args, cwd, target, timeout=800, extra=None):
        e = cargo_env()
        e["CARGO_TARGET_DIR"] = target
        e.update(extra or {})
        r = subprocess.run(["cargo"] + args, cwd=cwd, env=e, capture_output=True, text=True, timeout=timeout)
        if r.returncode != 0:
            raise ToolError("cargo " + " ".join(args) + " failed:\n" + r.stderr[-4000:])

    def harness(self, quiet=False):
        """Builds the harness; quiet: with the library without its front-end logger."""
        kv = "kvq" if quiet else "kv"
        d, t = os.path.join(V, "harness"), os.path.join(V, "target", kv)
        if REPO != "/repo":  # development only: another tree
            t = os.path.join(WORK, kv)
            d2 = os.path.join(WORK, "harness")
            shutil.copytree(d, d2, dirs_exist_ok=True)
            f = os.path.join(d2, "Cargo.toml")
            text = open(f).read().replace("/repo/", REPO + "/")
            open(f, "w").write(text)
            d = d2
        self.cargo(["build", "--offline", "--quiet"] + (["--features", "quiet"] if quiet else []), d, t)
        return os.path.join(t, "debug", "kv")

    def repo_bin(self, args):
        """Builds parts of the repository itself (outside its tree)."""
        t = os.path.join(V, "target", "repo") if REPO == "/repo" else os.path.join(WORK, "repo")
        self.cargo(["build", "--offline", "--quiet"] + args, REPO, t,
                   extra={"CARGO_PROFILE_DEV_OPT_LEVEL": "1", "CARGO_PROFILE_DEV_DEBUG": "0", "CARGO_INCREMENTAL": "0"})
        return os.path.join(t, "debug")

    def kv(self, exe, args, timeout=600, input=None):
        r = subprocess.run([exe] + args, capture_output=True, text=True, timeout=timeout, input=input,
                           errors="replace")
        if r.returncode != 0:
            raise ToolError(f"harness {args} ended with {r.returncode}: {r.stderr[-2000:]}")
        return r.stdout

    # ------------------------------------------------------------------ TLC
    def _spec_dir(self, name):
        d = os.path.join(self.work, name)
        os.makedirs(d)
        for f in os.listdir(os.path.join(V, "spec")):
            if f.endswith(".tla"):
                os.symlink(os.path.join(V, "spec", f), os.path.join(d, f))
        os.makedirs(os.path.join(d, "tmp"))
        return d

    def tlc(self, name, module, cfg, args, timeout=800, heap="2g", gc="-XX:+UseSerialGC"):
        d = self._spec_dir(name)
        open(os.path.join(d, "run.cfg"), "w").write(cfg)
        out = os.path.join(d, "out")
        with open(out, "w") as f:
            try:
                r = subprocess.run(
                    ["java", f"-Xmx{heap}", "-Xss64m", gc, "-XX:TieredStopAtLevel=4", f"-Djava.io.tmpdir={d}/tmp", "-cp", TLA,
                     "tlc2.TLC", "-noGenerateSpecTE", "-metadir", d + "/meta", "-config", "run.cfg"] + args + [module],
                    cwd=d, stdout=f, stderr=subprocess.STDOUT, timeout=timeout)
            except subprocess.TimeoutExpired:
                raise ToolError(f"TLC {name} timed out")
        return r.returncode, out

    @staticmethod
    def tlc_lines(out):
        with open(out, errors="replace") as f:
            for l in f:
                if l.startswith('"@@'):
                    yield json.loads(l)[2:]

    def simulate(self, module, cfgs, num, depth, procs=None, timeout=800, tag="sim"):
        """cfgs: list of (name, cfg text).  Runs `num` behaviours of each, split over
        processes.  Returns {name: [behaviour JSON text]}."""
        procs = procs or NCPU
        per = max(1, procs // len(cfgs))
        jobs = []
        for ci, (name, cfg) in enumerate(cfgs):
            for p in range(per):
                n = num // per + (1 if p < num % per else 0)
                if n:
                    jobs.append((f"{tag}-{name}-{p}", name, cfg, n, (self.seed * 1000003 + ci * 1009 + p * 7919) % (2**31)))
        res = {name: [] for name, _ in cfgs}

        def one(j):
            jn, name, cfg, n, seed = j
            rc, out = self.tlc(jn, module, cfg, ["-simulate", f"num={n}", "-depth", str(depth), "-seed", str(seed), "-workers", "1"], timeout)
            return jn, name, rc, out

        with cf.ThreadPoolExecutor(procs) as ex:
            for jn, name, rc, out in ex.map(one, jobs):
                text = open(out, errors="replace").read()
                if rc != 0:
                    ls = [l for l in text.splitlines() if not l.startswith('"@@')]
                    k = next((i for i, l in enumerate(ls) if "Error" in l or "rror:" in l), 0)
                    tail = "\n".join(ls[k:k + 25])[:3000]
                    raise ToolError(f"TLC {jn} ended with {rc}: the specification itself is broken\n{tail}")
                m = re.search(r"number of states generated: (\d+)", text)
                if m:
                    self.states += int(m.group(1))
                    self.transitions += int(m.group(1))
                res[name].extend(self.tlc_lines(out))
        return res

    def model_check(self, module, cfg, name="mc", timeout=800, workers=None, heap="12g", extra=()):
        rc, out = self.tlc(name, module, cfg, ["-workers", str(workers or NCPU)] + list(extra), timeout, heap=heap,
                           gc="-XX:+UseParallelGC")
        text = open(out, errors="replace").read()
        if rc != 0:
            ls = [l for l in text.splitlines() if not l.startswith('"@@')]
            k = next((i for i, l in enumerate(ls) if "Error" in l or "rror:" in l), 0)
            tail = "\n".join(ls[k:k + 25])[:3000]
            raise ToolError(f"TLC {name} ended with {rc}: the specification itself is broken\n{tail}")
        m = re.findall(r"(\d+) states generated, (\d+) distinct states found", text)
        if m:
            self.transitions += int(m[-1][0])
            self.states += int(m[-1][1])
        lines = list(self.tlc_lines(out))
        return lines

    def refute(self, module, cfg, name):
        """TRUE when TLC finds a violation of the invariant (a deliberately wrong model)."""
        rc, out = self.tlc(name, module, cfg, ["-workers", "4"], 300)
        return rc == 12

    def sample(self, lines, n):
        if len(lines) <= n:
            return lines
        import random
        return random.Random(self.seed).sample(lines, n)

    def write_lines(self, name, lines):
        p = os.path.join(self.work, name)
        with open(p, "w") as f:
            for l in lines:
                f.write(l + "\n")
        return p

    def shards(self, name, lines, n=None):
        n = min(n or NCPU, max(1, len(lines)))
        return [self.write_lines(f"{name}.{i}.nd", lines[i::n]) for i in range(n)]

    def kv_par(self, exe, mode, files, extra=(), timeout=None):
        """Runs the harness on every file.  A run that ends in a crash or does not end
        at all is a violation: the harness survives every panic of the code under test,
        so only an abort, a stack overflow or an endless loop can do that."""
        timeout = timeout or self.pick(200, 800)

        def one(p):
            try:
                x = extra(p) if callable(extra) else list(extra)
                r = subprocess.run([exe, mode, p] + x, capture_output=True, text=True, timeout=timeout, errors="replace",
                                   preexec_fn=lambda: resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30)))
            except subprocess.TimeoutExpired:
                return None, f"no end after {timeout} s", p
            if r.returncode != 0:
                return None, f"ended with {r.returncode}: {r.stderr[-800:]}", p
            return json.loads(r.stdout.strip().splitlines()[-1]), None, p
        with cf.ThreadPoolExecutor(NCPU) as ex:
            res = list(ex.map(one, files))
        out = []
        for r, err, p in res:
            if err:
                self.violation(f"the code under test broke the harness (mode {mode}): {err}",
                               {"cmd": f"kv {mode}", "input": open(p, errors="replace").read()[:200000]})
                r = {"found": [], "n": {}, "behaviours": 0, "probes": 0, "steps": 0, "ops": {}}
            out.append(r)
        return out


def main(checks):
    pid = sys.argv[1]
    if len(sys.argv) > 2:
        os.environ["VERIF_TIER"] = sys.argv[2]
    c = Check(pid)
    try:
        checks[pid](c)
        rc = c.finish()
    except ToolError as e:
        print(f"TOOL ERROR in {pid}: {e}")
        rc = 2
    sys.exit(rc)
