"""Shared parts of the checks: building, running the harness, running TLC."""
import json, os, re, resource, shutil, subprocess, sys, threading, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
BUILD = os.path.join(VERIF, ".build")
SPEC = os.path.join(VERIF, "spec")
TLA = ("/opt/veriftools/tla/tla2tools.jar:"
       "/opt/veriftools/tla/CommunityModules-deps.jar")
SEED = int(os.environ.get("VERIF_SEED", "1") or "1")
TIER = os.environ.get("VERIF_TIER", "quick")
THOROUGH = TIER == "thorough"


class ToolError(Exception):
    """The check itself could not run: no verdict."""


def env():
    e = dict(os.environ)
    e["PATH"] = "/root/.cargo/bin:/usr/local/bin:/usr/bin:/bin:" + e.get("PATH", "")
    e["RUSTUP_TOOLCHAIN"] = "stable-x86_64-unknown-linux-gnu"
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_TERM_COLOR"] = "never"
    e["CARGO_INCREMENTAL"] = "0"
    e.pop("RUSTC_WRAPPER", None)
    e.pop("RUSTFLAGS", None)
    e.pop("CARGO_TARGET_DIR", None)
    return e


class Violation(Exception):
    pass


class Check:
    def __init__(self, prop):
        self.prop = prop
        self.start = time.time()
        self.dir = os.path.join(BUILD, "run", prop)
        shutil.rmtree(self.dir, ignore_errors=True)
        os.makedirs(self.dir)
        self.violations = []
        self.known = []
        self.states = 0
        self.transitions = 0
        self.validated = 0
        self.cov = {}
        self.samples = []
        self.assumptions = []
        self.findings = load_findings(prop)

    def path(self, name):
        return os.path.join(self.dir, name)

    # -- verdicts ----------------------------------------------------------
    def violation(self, what, data):
        """Record a violation, unless it is a listed finding."""
        for f in self.findings:
            if matches(f, what, data):
                self.known.append((f, what))
                return
        self.violations.append((what, data))

    def count(self, key, n=1):
        self.cov[key] = self.cov.get(key, 0) + n

    def sample(self, x, limit=6):
        if len(self.samples) < limit:
            s = x if isinstance(x, str) else json.dumps(x, ensure_ascii=True)
            self.samples.append(s[:600])

    def finish(self, level="model_checking"):
        seen = set()
        for f, _ in self.known:
            if f["id"] not in seen:
                seen.add(f["id"])
                print("KNOWN-FINDING: property=%s %s" % (self.prop, f["what"]))
        cov = dict(self.cov)
        cov["states"] = self.states
        cov["transitions"] = self.transitions
        cov["traces_validated_against_impl"] = self.validated
        cov["samples"] = self.samples
        ev = {
            "property": self.prop, "tier": "thorough" if THOROUGH else "quick",
            "seed": SEED, "level": level, "coverage": cov,
            "assumptions": self.assumptions,
            "wall_s": round(time.time() - self.start, 1),
            "violations": len(self.violations),
        }
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        if self.violations:
            d = os.path.join(BUILD, "replay")
            os.makedirs(d, exist_ok=True)
            p = os.path.join(d, self.prop + ".json")
            with open(p, "w") as f:
                json.dump([{"what": w, "case": d} for w, d in self.violations[:50]], f, indent=1)
            for w, d in self.violations[:5]:
                print("  %s: %s" % (w, json.dumps(d)[:1500]))
            print("VIOLATION property=%s replay=%s" % (self.prop, p))
            return 1
        print("%s: held on everything explored (%d states, %d traces, %.1f s)"
              % (self.prop, self.states, self.validated, time.time() - self.start))
        return 0

    # -- TLC ---------------------------------------------------------------
    def tlc(self, module, cfg=None, constants=None, envs=None, xmx="6g", timeout=600,
            workers=8, model=True, coverage=True):
        """Run TLC on spec/MODULE; returns its printed REJECT records.

        An invariant violation is an error of the specification (the models
        do not depend on the code), so it is no verdict on the code.
        """
        cfgpath = os.path.join(SPEC, (cfg or module) + ".cfg")
        text = open(cfgpath).read()
        for k, v in (constants or {}).items():
            text, n = re.subn(r"\b%s = \S+" % k, "%s = %s" % (k, v), text)
            if n != 1:
                raise ToolError("no constant %s in %s" % (k, cfgpath))
        tag = "%s-%d" % (module, threading.get_ident() % 100000)
        run = self.path("tlc-" + tag)
        os.makedirs(run, exist_ok=True)
        cfgrun = os.path.join(run, module + ".cfg")
        open(cfgrun, "w").write(text)
        e = env()
        e.update(envs or {})
        e["JAVA_TOOL_OPTIONS"] = ""
        cmd = ["java", "-Xmx" + xmx, "-Xss512m", "-Djava.io.tmpdir=" + run, "-XX:+UseParallelGC", "-cp", TLA,
               "tlc2.TLC", "-workers", str(workers), "-metadir", os.path.join(run, "states"),
               "-noGenerateSpecTE", "-config", cfgrun]
        if model and coverage:
            cmd += ["-coverage", "60"]
        cmd.append(os.path.join(SPEC, module + ".tla"))
        try:
            p = subprocess.run(cmd, cwd=run, env=e, stdout=subprocess.PIPE,
                               stderr=subprocess.STDOUT, timeout=timeout)
        except subprocess.TimeoutExpired:
            raise ToolError("TLC timed out on " + module)
        out = p.stdout.decode("utf-8", "replace")
        open(os.path.join(run, "out.txt"), "w").write(out)
        shutil.rmtree(os.path.join(run, "states"), ignore_errors=True)
        if p.returncode != 0 or "No error has been found" not in out:
            tail = "\n".join(l for l in out.splitlines() if not l.startswith(("Pars", "Sem", "Lint")))
            raise ToolError("TLC failed on %s (exit %s):\n%s" % (module, p.returncode, tail[-3000:]))
        m = re.search(r"(\d+) states generated, (\d+) distinct states", out)
        if m:
            self.transitions += int(m.group(1))
            self.states += int(m.group(2))
        if model:
            acts = {}
            for m in re.finditer(r"^<(\w+) line .*?of module (\w+)>: (\d+):(\d+)", out, re.M):
                acts[m.group(2) + "." + m.group(1)] = int(m.group(4))
            self.cov.setdefault("actions", {}).update(acts)
        rej = []
        for l in out.split("\n"):
            if l.startswith('"REJECT '):
                rej.append(json.loads(json.loads(l)[len("REJECT "):]))
        return rej, out

    def validate(self, module, trace, facet=None, what=None, cfg=None, key=None, **kw):
        """Validate recorded traces; every rejected case is a violation."""
        lines = [l for l in open(trace) if l.strip()]
        if not lines:
            raise ToolError("empty trace " + trace)
        rej, out = self.tlc(module, cfg=cfg, model=False,
                            envs={"TRACE": trace, "FACET": facet or self.prop}, **kw)
        self.validated += len(lines)
        for r in sorted(rej, key=lambda r: r["case"]):
            case = json.loads(lines[r["case"] - 1])
            self.violation(what or "trace not explained by the specification",
                           {"recorded": case, "specification": r.get("want")})
        return len(rej)

    # -- harness -----------------------------------------------------------
    def harness(self, cmd, binary=None, timeout=300, what=None, out=None, **kw):
        """Run a harness command; a crash or hang is the code's failure."""
        out = out or self.path(cmd + ".nd")
        args = [binary or VH, cmd, "out=" + out]
        kw.setdefault("seed", SEED)
        args += ["%s=%s" % (k, v) for k, v in kw.items()]
        begin = out + ".begin"
        try:
            p = subprocess.run(args, env=env(), stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                               timeout=timeout, preexec_fn=limits)
            rc, err = p.returncode, p.stderr.decode("utf-8", "replace")
            text = p.stdout.decode("utf-8", "replace")
        except subprocess.TimeoutExpired:
            rc, err, text = "timeout", "", ""
        if rc != 0:
            if os.path.exists(begin) and rc != 2:
                try:
                    case = json.load(open(begin))
                except ValueError:
                    case = open(begin).read()
                self.violation("the code crashed or hung (%s)" % rc, {"recorded": case})
                trim(out)
                return out, text
            raise ToolError("harness %s failed (%s): %s" % (cmd, rc, err[-2000:]))
        return out, text


def trim(path):
    """Drop a torn last line."""
    data = open(path, "rb").read()
    cut = data.rfind(b"\n") + 1
    open(path, "wb").write(data[:cut])


def limits(gib=12):
    resource.setrlimit(resource.RLIMIT_AS, (gib << 30, gib << 30))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


TARGET = os.path.join(BUILD, "target")
VH = os.path.join(TARGET, "debug", "vh")
VHA = os.path.join(TARGET, "debug", "vha")
VHB = os.path.join(TARGET, "debug", "vhb")


def cargo(crate, features="", timeout=800):
    """Build a harness crate against /repo's working tree."""
    e = env()
    e["CARGO_TARGET_DIR"] = TARGET
    cmd = ["cargo", "build", "--offline", "--quiet"]
    if features:
        cmd += ["--features", features]
    p = subprocess.run(cmd, cwd=os.path.join(VERIF, "harness", crate), env=e,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    if p.returncode != 0:
        raise ToolError("harness %s does not build:\n%s" % (crate, p.stdout.decode()[-4000:]))


def load_findings(prop):
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    return [f for f in json.load(open(p))["findings"] if f["property"] == prop]


def matches(finding, what, data):
    """A finding names the exact inputs that fail."""
    text = json.dumps(data, sort_keys=True)
    return any(all(frag in text for frag in alt) for alt in finding["match"])


def parallel(*fs):
    """Run thunks in threads; the first error wins."""
    errs = []

    def go(f):
        try:
            f()
        except BaseException as e:
            errs.append(e)
    ts = [threading.Thread(target=go, args=(f,)) for f in fs]
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    if errs:
        raise errs[0]
