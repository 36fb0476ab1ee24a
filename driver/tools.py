"""The command line tools and the macro, run on programs."""
import concurrent.futures as cf
import json, os, random, re, subprocess, threading, time
import base, parsers
from base import ToolError

TARGET = os.path.join(base.BUILD, "repo")
DEBUG = os.path.join(TARGET, "debug")
TOOLS = ("chomp", "autonibble")


def build():
    """The tools and the macro, from the working tree."""
    e = base.env()
    e["CARGO_TARGET_DIR"] = TARGET
    p = subprocess.run(["cargo", "build", "--offline", "--quiet", "-p", "chomp", "-p", "autonibble", "-p", "chomp-macro"],
                       cwd=base.REPO, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=800)
    if p.returncode != 0:
        raise ToolError("the tools do not build:\n" + p.stdout.decode("utf-8", "replace")[-3000:])


HANGS = []
FORKING = threading.Lock()


def run(tool, data, fault):
    """Exit status, standard output (None if not seen) and standard error."""
    close = []
    out = subprocess.PIPE
    with FORKING:  # nobody else is to inherit the ends of the pipe
        if fault == "full":
            out = os.open("/dev/full", os.O_WRONLY)
            close.append(out)
        elif fault == "closed":
            r, out = os.pipe()
            os.close(r)
            close.append(out)
        p = subprocess.Popen([os.path.join(DEBUG, tool)], stdin=subprocess.PIPE, stdout=out, stderr=subprocess.PIPE,
                             env=base.env(), preexec_fn=lambda: base.limits(3))
    for f in close:
        os.close(f)
    try:
        if fault == "slow":
            try:
                for i in range(3):
                    p.stdin.write(data[len(data) * i // 3:len(data) * (i + 1) // 3])
                    p.stdin.flush()
                    time.sleep(0.05)
                data = b""
            except BrokenPipeError:
                data = b""
        o, e = p.communicate(data, timeout=20)
        return p.returncode, o, e
    except subprocess.TimeoutExpired:
        p.kill()
        p.communicate()
        HANGS.append(tool)
        return -999, b"", b""


def event(tool, data, fault, lib):
    """What one run did; nothing once enough of them have hung."""
    if len(HANGS) > 12:
        return None
    st, out, err = run(tool, data, fault)
    out, err = (out or b"").decode("utf-8", "replace"), err.decode("utf-8", "replace")
    o = ("none" if out == "" else "code" if "code" in lib and "".join(out.split()) == "".join(lib["code"].split())
         else "other")
    words = lib["msg"].strip() if lib["st"] == "err" and "msg" in lib else ""
    e = "none" if err == "" else "diag" if words and words in err else "io"
    return {"tool": tool, "fault": fault, "st": st, "out": o, "err": e, "msg": [ord(x) for x in err[:4000]],
            "lib": {k: lib[k] for k in ("st", "e") if k in lib}}


def command_lines(c, cases, trace):
    """Each program through each tool; some of them with faults around it."""
    rnd = random.Random(base.SEED)
    jobs = []
    for d in cases:
        for tool in TOOLS:
            faults = ["none"]
            if rnd.random() < 0.25:
                faults.append(rnd.choice(["full", "closed", "slow"]))
            jobs += [(d, tool, f, d["src"]) for f in faults]
        if rnd.random() < 0.06:
            # far along in the input
            n = rnd.choice([4097, 8193, 65537, 131073, 300000])
            pad = rnd.choice(["\n" * n, " " * n, "// %s\n" % ("x" * n), "/*%s*/" % ("\n\u00e9" * (n // 3))])
            jobs.append((d, "chomp", "none", pad + d["src"]))
            c.count("long_inputs")
    with cf.ThreadPoolExecutor(8) as ex:
        done = list(ex.map(lambda j: event(j[1], j[3].encode(), j[2], j[0][j[1]]), jobs))
    rows = set()
    with open(trace, "a") as f:
        for (d, tool, fault, _), ev in zip(jobs, done):
            if ev is None:
                continue
            c.count("runs_%s_%s" % (tool, fault))
            f.write(json.dumps(dict(ev, ev="cli", toks=d["toks"], common=d["common"], src=d["src"])) + "\n")
            lib = d[tool]
            if lib["st"] == "err" and tool == "chomp":
                m = re.sub(r"`[^`]*`", "", lib["msg"]) if lib["e"] != "syntax" else lib["msg"]
                rows.add((lib["e"], re.sub(r"\d+", "N", m)))
        f.write(json.dumps({"ev": "table", "rows": [{"e": e, "m": [ord(x) for x in m]} for e, m in sorted(rows)]}) + "\n")


# Tokens of Rust that the language has no use for.
FOREIGN = ["1", "0x1F", "1e5", "1.5f32", "1_000u8", "0b101", "1.", "'a'", "'\\n'", "'a", 'b"x"', "b'x'", 'br"x"', 'c"x"',
           'cr"x"', 'cr#"x"#', 'r"x"', 'r#"x"#', '"x"y', "r#x", "r#_", "'static", "/// x\n", "//! x\n", "/** x */", "#[x]",
           "#!", "x!", "::", "->", "..=", "<<=", "$x", "é", "\u4e2d", "-1", "\\", "`", '"\\\n x"', '"a\r\nb"', '"a\rb"']


def slip(rnd, text):
    """A character or a foreign token out of place."""
    at = rnd.randrange(len(text) + 1)
    k = rnd.randrange(5)
    if k == 0:
        return text[:at] + text[at + rnd.randrange(1, 4):]
    if k == 1:
        return text[:at] + rnd.choice(list("\"\\/*:|.!()_;= \nx1#'{}\r\0")) + text[at:]
    if k == 2:
        return text[:at]
    if k == 3:
        return text[:at] + text[at:at + 6] + text[at:]
    return text[:at] + " " + rnd.choice(FOREIGN) + " " + text[at:]


def garbage(rnd, texts):
    """Input that is no program: no text, or no sequence of tokens."""
    if rnd.random() < 0.6:
        text = rnd.choice(texts)
        for _ in range(rnd.randrange(1, 3)):
            text = slip(rnd, text)
        return "none", text.encode()
    if rnd.random() < 0.3:
        return "none", rnd.choice(['match %s;', 'match "a" %s;', 'match "a".%s;', 'let x = %s; match x;', 'match "a" : %s;',
                                   'let %s = "a"; match _;', '%s match _;', 'match _; %s', 'match !%s;', 'match /x/ %s;']
                                  ).replace("%s", rnd.choice(FOREIGN)).encode()
    alphabet = list(" \n\t\"'\\/*.:|!()=;_#{}[]$%^&,<>?`~@0123456789abcxyz") + ["let", "match", "r#", "é", "\u2028", "\0", "\ufeff", "/*", "//"]
    k = rnd.randrange(4)
    if k == 0:
        return "none", "".join(rnd.choice(alphabet) for _ in range(rnd.randrange(12))).encode()
    if k == 1:
        return "none", b'match "a"' + "".join(rnd.choice(alphabet) for _ in range(rnd.randrange(1, 5))).encode() + b";"
    if k == 2 and rnd.random() < 0.6:
        # where a replacement character would do
        bad = rnd.choice([b"\xff", b"\x80", b"\xc3", b"\xe2\x82", b"\xed\xa0\x80", b"\xf5\x80\x80\x80"])
        return "utf8", rnd.choice([b'match "a%s";', b'match "%sb" | "c";', b'// %s\nmatch _;', b'/* %s */match _;',
                                   b'match _;// %s', b'let x = "%s"; match x;']) % bad
    if k == 2:
        return "utf8", b"match _;" + bytes([rnd.randrange(128, 192)]) + bytes(rnd.randrange(256) for _ in range(rnd.randrange(5)))
    return "utf8", bytes([0xff]) + bytes(rnd.randrange(256) for _ in range(rnd.randrange(20)))


def byte_inputs(c, n, trace, texts):
    """What the library makes of these is asked for by the harness."""
    rnd = random.Random(base.SEED + 77)
    todo = [garbage(rnd, texts) for _ in range(n)]
    src = c.path("bytes.in.nd")
    with open(src, "w") as f:
        for i, (fault, b) in enumerate(todo):
            text = "match _;" if fault == "utf8" else b.decode()
            f.write(json.dumps({"id": i, "src": [ord(x) for x in text]}) + "\n")
    out, _ = c.harness("library", binary=base.VHA, out=c.path("bytes.nd"), **{"in": src})
    libs = [json.loads(l) for l in open(out)]
    jobs = [(fault, b, tool, d[tool]) for (fault, b), d in zip(todo, libs) for tool in TOOLS]
    jobs = [j for j in jobs if j[3]["st"] != "div"]
    with cf.ThreadPoolExecutor(8) as ex:
        done = list(ex.map(lambda j: event(j[2], j[1], j[0], j[3] if j[0] == "none" else {"st": "err", "e": "utf8"}), jobs))
    with open(trace, "a") as f:
        for (fault, b, tool, lib), ev in zip(jobs, done):
            if ev is None:
                continue
            c.count("byte_inputs_" + fault)
            f.write(json.dumps(dict(ev, ev="bytes", bytes=list(b))) + "\n")


def invocations(c, cases, trace):
    """Each program as an invocation of the macro."""
    lib = parsers.chewed(c)
    ext = ["--extern", "chomp_macro=" + os.path.join(DEBUG, "libchomp_macro.so"),
           "-L", "dependency=" + os.path.join(DEBUG, "deps")]
    cases = [dict(d) for d in cases if not (d["chomp"]["st"] == "err" and d["chomp"]["msg"] in ("lex error",))]
    good = [d for d in cases if d["chomp"]["st"] == "ok" and "api" in d]
    bad = [d for d in cases if d["chomp"]["st"] == "err"]

    def parser(sub, d, text):
        dir = c.path(sub)
        os.makedirs(dir, exist_ok=True)
        with open(os.path.join(dir, "g%d.rs" % d["id"]), "w", newline="") as f:
            f.write(text)
        return dict(d, built=True, res={}, small=False)
    mac = [parser("macro", d, "chomp_macro::nibble!{\n" + d["src"] + "\n}\n") for d in good]
    ref = [parser("library", d, d["chomp"]["code"]) for d in good]

    def one(sub, ds, k):
        ds = ds[k::8]
        if ds:
            binary, live = parsers.compile_batch(c, lib, c.path(sub), str(k), ds, ext if sub == "macro" else ())
            if binary:
                parsers.run_batch(c, binary, c.path(sub), str(k), live)
                os.remove(binary)
    said = {}
    with cf.ThreadPoolExecutor(8) as ex:
        fs = [ex.submit(one, sub, ds, k) for k in range(8) for sub, ds in (("macro", mac), ("library", ref))]
        fs += [ex.submit(diagnostics, c, lib, ext, bad[k::4], k, said) for k in range(4)]
        for f in fs:
            f.result()
    with open(trace, "a") as f:
        def put(d, ok, err, runs, other, **kw):
            c.count("macro_invocations_" + ("accepted" if ok else "rejected"))
            f.write(json.dumps(dict({"ev": "macro", "toks": d["toks"], "src": d["src"], "ok": ok, "err": err,
                                     "runs": runs, "ref": other}, **kw)) + "\n")
        for m, r in zip(mac, ref):
            if not r["built"]:
                c.count("library_code_not_compiling")
                continue
            runs, other = [m["res"][i] for i in sorted(m["res"])], [r["res"][i] for i in sorted(r["res"])]
            c.count("compared_runs", len(runs))
            put(m, m["built"], "none" if m["built"] else m["why"] or "other", runs, other)
        for d in bad:
            ms = said.get(d["id"], [])
            ok = ms == []
            put(d, ok, "none" if ok else "diag" if d["chomp"]["msg"] in ms[0] else "other", [], [], said=ms,
                lib=d["chomp"])


def diagnostics(c, lib, ext, ds, k, said, places=False):
    """All of rustc's errors, per invocation."""
    dir = c.path("bad%d" % k)
    os.makedirs(dir, exist_ok=True)
    main = os.path.join(dir, "main.rs")
    with open(main, "w") as f:
        f.write("#![allow(warnings)]\n#![recursion_limit=\"1024\"]\n")
        for d in ds:
            f.write('#[path="g%d.rs"] mod g%d;\n' % (d["id"], d["id"]))
            with open(os.path.join(dir, "g%d.rs" % d["id"]), "w", newline="") as g:
                g.write("chomp_macro::nibble!{\n" + d["src"] + "\n}\n")
        f.write("fn main() {}\n")
    if not ds:
        return
    rc, err = parsers.rustc(["--error-format", "json", "--extern", "chewed=" + lib, *ext, "--emit", "metadata",
                             "--crate-type", "bin", main, "-o", os.path.join(dir, "out")])
    for l in err.split("\n"):
        try:
            m = json.loads(l)
        except ValueError:
            continue
        if m.get("level") != "error":
            continue
        for sp in m.get("spans", []):
            g = re.search(r"g(\d+)\.rs$", sp["file_name"])
            if g:
                said.setdefault(int(g.group(1)), []).append(
                    (m["message"], (sp["line_start"] - 1, sp["column_start"] - 1)) if places else m["message"])
                break


def places(c, n):
    """Where rustc says the fault of an invocation is: the number of the token."""
    lib = parsers.chewed(c)
    ext = ["--extern", "chomp_macro=" + os.path.join(DEBUG, "libchomp_macro.so"),
           "-L", "dependency=" + os.path.join(DEBUG, "deps")]
    out, _ = c.harness("places", out=c.path("invoked.in.nd"), n=n, starts=1, seed=base.SEED + 160)
    cases = [d for d in map(json.loads, open(out)) if d["r"]["st"] == "err" and d["r"]["e"] != "syntax"]
    said = {}
    with cf.ThreadPoolExecutor(4) as ex:
        for f in [ex.submit(diagnostics, c, lib, ext, cases[k::4], k, said, True) for k in range(4)]:
            f.result()
    trace = c.path("invoked.nd")
    with open(trace, "w") as f:
        for d in cases:
            if d["id"] not in said:
                c.count("invocations_without_an_error")
                continue
            at = said[d["id"]][0][1]
            c.count("invocations_placed")
            no = [j for j, x in enumerate(d["starts"]) if tuple(x) == at]
            f.write(json.dumps({"ev": "invoked", "toks": d["toks"], "src": d["src"], "r": d["r"],
                                "at": no[0] + 1 if no else -1, "line": at[0], "column": at[1]}) + "\n")
    return trace
