"""Generated parsers: compile them, run them, write down what they do."""
import concurrent.futures as cf
import json, os, re, subprocess, sys, time
import base
from base import ToolError, THOROUGH

sys.setrecursionlimit(100000)
RT = os.path.join(base.VERIF, "harness", "runner", "rt.rs")


def rustc(args, timeout=300):
    p = subprocess.run(["rustc", "--edition", "2018", "--cap-lints", "allow", "-C", "debuginfo=0"] + args,
                       env=base.env(), stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout)
    return p.returncode, p.stderr.decode("utf-8", "replace")


def chewed(c):
    """The runtime library, from the working tree."""
    out = c.path("libchewed.rlib")
    rc, err = rustc(["--crate-name", "chewed", "--crate-type", "rlib",
                     os.path.join(base.REPO, "chewed/src/lib.rs"), "-o", out])
    if rc:
        raise ToolError("chewed does not build:\n" + err)
    return out


class Undecodable(Exception):
    pass


class Decoder:
    """Debug output of generated types, as trees: nodes in preorder, 0 for
    empty, 1 for a literal, 2 and the number of parts, 3 and the branch."""

    def __init__(self, api, text):
        self.types, self.s, self.p = api["types"], text, 0

    def eat(self, x):
        if not self.s.startswith(x, self.p):
            raise Undecodable("%r at %d" % (x, self.p))
        self.p += len(x)

    def ident(self):
        m = re.compile(r"\w+").match(self.s, self.p)
        if not m:
            raise Undecodable("identifier at %d" % self.p)
        self.p = m.end()
        return m.group()

    def value(self, ty):
        d = self.types.get(ty)
        if d is None:
            self.eat(ty)
            if ty != "Epsilon":
                raise Undecodable(ty)
            return [0]
        k = d["k"]
        if k == "alias":
            return self.value(d["fs"][0]["ty"])
        if k == "unit":
            self.eat(ty)
            return [1]
        if k == "enum":
            name = self.ident()
            for i, f in enumerate(d["fs"]):
                if "".join(map(chr, f["n"])) == name:
                    self.eat("(")
                    v = self.value(f["ty"])
                    self.eat(")")
                    return [3, i + 1] + v
            raise Undecodable("variant " + name)
        self.eat(ty)
        self.eat("(" if k == "tuple" else " { ")
        cs = [2, len(d["fs"])]
        for i, f in enumerate(d["fs"]):
            if i:
                self.eat(", ")
            if k == "struct":
                self.eat("".join(map(chr, f["n"])) + ": ")
            cs += self.value(f["ty"])
        self.eat(")" if k == "tuple" else " }")
        return cs

    def whole(self):
        v = self.value("Ast")
        if self.p != len(self.s):
            raise Undecodable("rest")
        return v


def behind(types, ty):
    for _ in range(60):
        d = types.get(ty)
        if not d or d["k"] != "alias":
            return ty
        ty = d["fs"][0]["ty"]
    return ty


def pieces(d):
    """Types that convert to a character."""
    return [] if d["small"] else [t for t in d["api"]["chars"] if d["api"]["types"].get(t, {"k": "alias"})["k"] != "alias"][:12]


def compile_batch(c, lib, dir, tag, cases, externs=()):
    """Returns the binary; sets case["built"]."""
    live = list(cases)
    for attempt in range(6):
        main = os.path.join(dir, "main%s.rs" % tag)
        with open(main, "w") as f:
            f.write("#![allow(warnings)]\n#![recursion_limit=\"1024\"]\n#[path=%s] mod rt;\n" % json.dumps(RT))
            for d in live:
                f.write('#[path="g%d.rs"] mod g%d;\n' % (d["id"], d["id"]))
            f.write("fn table(id: usize, m: &str, s: &str) -> String { if m == \"pieces\" { return pieces(id, s); } match id {\n")
            for d in live:
                types = d["api"]["types"]
                ch = "Some(|x| char::from(x))" if behind(types, "Ast") in d["api"]["chars"] else "None"
                f.write("%d => rt::run::<g%d::Ast>(m, s, %s),\n" % (d["id"], d["id"], ch))
            f.write("_ => panic!() } }\nfn pieces(id: usize, s: &str) -> String { let mut v: Vec<String> = Vec::new(); match id {\n")
            for d in live:
                f.write("%d => { %s }\n" % (d["id"], " ".join(
                    "rt::piece::<g%d::%s>(s, |x| char::from(x), &mut v);" % (d["id"], t) for t in pieces(d))))
            f.write("_ => panic!() }; format!(r#\"{{\"st\":\"pieces\",\"ps\":[{}]}}\"#, v.join(\",\")) }\n"
                    "fn main() { rt::serve(table) }\n")
        out = os.path.join(dir, "run" + tag)
        rc, err = rustc(["--error-format", "json", "--extern", "chewed=" + lib, *externs, main, "-o", out])
        if rc == 0:
            return out, live
        bad = {}
        for l in err.split("\n"):
            try:
                m = json.loads(l)
            except ValueError:
                continue
            if m.get("level") != "error":
                continue
            for sp in m.get("spans", []):
                while sp:
                    g = re.search(r"g(\d+)\.rs$", sp["file_name"])
                    if g:
                        bad.setdefault(int(g.group(1)), m.get("message"))
                    sp = (sp.get("expansion") or {}).get("span")
        if not bad:
            raise ToolError("the generated batch does not compile:\n" + err[:3000])
        for d in live:
            if d["id"] in bad:
                d["built"] = False
                d["why"] = bad[d["id"]]
        live = [d for d in live if d["built"]]
        if not live:
            return None, []
    raise ToolError("the generated batch does not compile")


OTHER = ["boxstr", "iter", "boxiter", "takebox", "takedyn", "takestr"]


def requests(d):
    out = []
    for i, w in enumerate(d["inputs"]):
        modes = ["str", "take"]
        if d["small"]:
            if i % 7 == 0:
                modes.append(OTHER[(d["id"] + i // 7) % len(OTHER)])
        else:
            modes.append(OTHER[(d["id"] + i) % len(OTHER)])
        out += [(i, m) for m in modes]
    if pieces(d):
        out.append((len(d["inputs"]), "pieces"))
    return out


def wait(p, out, patience=20):
    """Its exit status, or None if it writes nothing for so many seconds."""
    size, since = -1, time.time()
    while True:
        try:
            return p.wait(timeout=0.5)
        except subprocess.TimeoutExpired:
            now = os.path.getsize(out)
            if now != size:
                size, since = now, time.time()
            elif time.time() - since > patience:
                return None


def run_batch(c, binary, dir, tag, live):
    """Run every request; a crash or hang is charged to the request it hit."""
    reqs = [(d, i, m) for d in live for i, m in requests(d)]
    at = 0
    crashes = 0
    while at < len(reqs):
        inp = os.path.join(dir, "req" + tag)
        out = os.path.join(dir, "rsp" + tag)
        with open(inp, "w") as f:
            for d, i, m in reqs[at:]:
                w = d["inputs"][i] if m != "pieces" else sorted({x for w in d["inputs"] for x in w})
                f.write("%d\t%s\t%s\n" % (d["id"], m, " ".join(map(str, w))))
        hung = False
        with open(inp) as fi, open(out, "w") as fo:
            p = subprocess.Popen([binary], stdin=fi, stdout=fo, stderr=subprocess.DEVNULL,
                                 preexec_fn=lambda: base.limits(3))
            rc = wait(p, out)
            if rc is None:
                p.kill()
                p.wait()
                rc, hung = -1, True
                c.hangs = getattr(c, "hangs", 0) + 1
        base.trim(out)
        got = [json.loads(l) for l in open(out)]
        for (d, i, m), r in zip(reqs[at:], got):
            d["res"].setdefault(i, []).append({"m": m, "r": r})
        at += len(got)
        if rc != 0 and at < len(reqs):
            d, i, m = reqs[at]
            d["res"].setdefault(i, []).append({"m": m, "r": {"st": "hang" if hung else "crash"}})
            crashes += 2 if hung else 1
            if crashes > 3 or getattr(c, "hangs", 0) > 12:
                return
            # leave this grammar alone
            bad = d["id"]
            while at < len(reqs) and reqs[at][0]["id"] == bad:
                at += 1
        elif at < len(reqs):
            raise ToolError("the runner stopped early")


def record(c, trace, batches=16, runs=True):
    """From the harness's grammars to a trace for TraceParsers."""
    dir = os.path.dirname(trace)
    cases = [json.loads(l) for l in open(trace)]
    lib = chewed(c)
    for d in cases:
        d["built"] = d["code"]["st"] == "ok"
        d["res"] = {}
    good = [d for d in cases if d["built"]]
    groups = [good[i::batches] for i in range(batches)]

    def one(k):
        if not groups[k]:
            return
        binary, live = compile_batch(c, lib, dir, str(k), groups[k])
        if binary and runs:
            run_batch(c, binary, dir, str(k), live)
            os.remove(binary)
    with cf.ThreadPoolExecutor(8) as ex:
        for f in [ex.submit(one, k) for k in range(batches)]:
            f.result()
    out = trace + ".runs"
    with open(out, "w") as f:
        for d in cases:
            line = {k: d[k] for k in ("ev", "id", "t", "code", "built", "again", "api", "named", "why") if k in d}
            line["runs"] = []
            for x in d["res"].pop(len(d.get("inputs", ())), ()):
                line["pieces"] = x["r"].get("ps", [x["r"]])
                c.count("characters_converted", len(line["pieces"]))
            for i in sorted(d["res"]):
                for x in d["res"][i]:
                    r = x["r"]
                    if r["st"] == "ok":
                        try:
                            r["t"] = Decoder(d["api"], "".join(map(chr, r.pop("dbg")))).whole()
                        except Undecodable as e:
                            r["t"], r["why"] = [-1], str(e)
                line["runs"].append({"w": d["inputs"][i], "rs": d["res"][i]})
            c.count("parser_runs", sum(len(x["rs"]) for x in line["runs"]))
            f.write(json.dumps(line) + "\n")
    return out, cases
