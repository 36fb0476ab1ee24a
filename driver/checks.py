"""The checks, one function per property."""
import json, os, re
import base, parsers, tools
from base import THOROUGH, VHA, VHB, ToolError, cargo, parallel


def size(quick, thorough):
    return thorough if THOROUGH else quick


def replay_terms(c, what, constants):
    """Specification to code: every small term with its predicted outcome."""
    gen = c.path("gen-%s.nd" % what)
    c.tlc("GenTerms", constants=constants, envs={"WHAT": what, "OUT": gen}, model=False, xmx="12g")
    out, text = c.harness(what + "-replay", **{"in": gen})
    n = sum(1 for _ in open(gen))
    c.validated += n
    c.count("replayed_from_specification", n)
    for l in open(out):
        d = json.loads(l)
        c.violation("the code disagrees with the specification's outcome", d)


def kinds(c, path, field="r"):
    for l in open(path):
        r = json.loads(l)[field]
        c.count("outcome_" + r["st"] + ("_" + r["e"] if "e" in r else ""))


def c03(c):
    cargo("core")
    model = {"MaxSize": size(5, 6), "MaxFree": 1, "MaxTerm": size(14, 18)}
    c.tlc("MCReduce", constants=model, timeout=3000)
    replay_terms(c, "expand", {"ProgSize": size(5, 6)})
    out, _ = c.harness("expand", n=size(16000, 80000))
    for l in open(out):
        c.sample(json.loads(l)["t"], 3)
        break
    kinds(c, out)
    c.validate("TraceTerms", out, timeout=3000)
    c.assumptions = ["programs whose expansion needs over 40 contractions or passes size 400 are not tried",
                     "names and places are not compared here (C11, C16)"]


def c04(c):
    cargo("core")
    model_parser(c)
    replay_terms(c, "check", {"GramSize": size(5, 6), "ProgSize": size(4, 5)})
    out, _ = c.harness("check", n=size(20000, 100000))
    for l in open(out):
        c.sample(json.loads(l)["t"], 3)
        break
    kinds(c, out)
    c.validate("TraceTerms", out, timeout=3000)



def model_pipeline(c):
    k = size(4, 5)
    c.tlc("MCPipeline", constants={"SeqLen": k, "LetLen": k, "ProgSize": k, "DefSize": k},
          timeout=3000, coverage=False)


def programs(c, cmd, facet=None):
    """Every short sequence and small program, run through the real code."""
    gen = c.path("programs.nd")
    k = size(4, 5)
    c.tlc("GenPrograms", constants={"SeqLen": k, "LetLen": k, "ProgSize": k, "DefSize": k},
          envs={"OUT": gen}, model=False, xmx="12g", timeout=3000)
    out, _ = c.harness(cmd + "-replay", **{"in": gen})
    c.count("enumerated_programs", sum(1 for _ in open(gen)))
    c.validate("TraceFront", out, facet=facet, timeout=3000)


def sampled(c, out, field, n=3):
    for i, l in enumerate(open(out)):
        if i >= n:
            break
        x = json.loads(l)[field]
        c.sample("".join(map(chr, x)) if field == "w" else x, n)


def c01(c):
    cargo("core")
    parallel(lambda: model_pipeline(c), lambda: programs(c, "front"))
    out, _ = c.harness("front", n=size(8000, 80000))
    sampled(c, out, "src")
    kinds(c, out)
    c.validate("TraceFront", out, timeout=3000)
    out, _ = c.harness("scopes", n=size(1500, 15000))
    c.count("scope_histories", sum(1 for _ in open(out)))
    c.validate("TraceFront", out)
    texts(c)


def texts(c, **kw):
    """Characters out of place."""
    def run():
        out, _ = c.harness("texts", n=size(6000, 60000), **kw)
        for l in open(out):
            d = json.loads(l)
            c.count("text_" + d["r"]["st"] + ("_" + d["s"]["st"] if "s" in d else ""))
        c.validate("TraceFront", out, timeout=3000)
    parallel(lambda: c.tlc("MCLexing", constants={"MaxTokens": size(2, 3)}, timeout=3000, workers=4, coverage=False), run)


def c02(c):
    cargo("auto")
    gen = c.path("programs.nd")
    k = size(4, 5)

    def small():
        c.tlc("GenPrograms", constants={"SeqLen": k, "LetLen": k, "ProgSize": k, "DefSize": k},
              envs={"OUT": gen}, model=False, xmx="12g", timeout=3000)
        out, _ = c.harness("common", binary=VHA, out=c.path("small.nd"), **{"in": gen})
        c.count("enumerated_programs", sum(1 for _ in open(out)))
        c.validate("TraceFront", out, timeout=3000)
    parallel(lambda: model_pipeline(c), small)
    out, _ = c.harness("common", binary=VHA, n=size(8000, 80000), timeout=1500)
    sampled(c, out, "src")
    kinds(c, out)
    c.validate("TraceFront", out, timeout=3000)
    texts(c, binary=VHA)


def c16(c):
    cargo("core")
    parallel(lambda: model_pipeline(c), lambda: programs(c, "places"))
    out, _ = c.harness("places", n=size(6000, 60000))
    sampled(c, out, "src")
    kinds(c, out)
    c.validate("TraceFront", out, timeout=3000)
    # where rustc says it is, when the program is an invocation of the macro
    tools.build()
    c.validate("TraceFront", tools.places(c, size(600, 4000)), timeout=3000)
    c.assumptions = ["the place of a diagnostic is compared when code and specification agree what is wrong;"
                     " disagreement about that is C01, C03 or C04"]


def c18(c):
    cargo("core")
    parallel(lambda: model_pipeline(c), lambda: programs(c, "places"))
    outs = []
    out, _ = c.harness("places", n=size(6000, 60000), seed=base.SEED + 18)
    sampled(c, out, "src")
    outs.append(out)
    c.validate("TraceFront", out, timeout=3000)
    for cmd in ("expand", "check"):
        out, _ = c.harness(cmd, n=size(2500, 25000), seed=base.SEED + 18)
        outs.append(out)
        c.validate("TraceTerms", out, timeout=3000)
    # all the texts side by side, without the facts
    rows = set()
    for out in outs:
        kinds(c, out)
        for l in open(out):
            r = json.loads(l)["r"]
            if r["st"] == "err" and "msg" in r:
                m = re.sub(r"`[^`]*`", "", "".join(map(chr, r["msg"])))
                rows.add((r["e"], re.sub(r"\d+", "N", m)))
    table = c.path("table.nd")
    with open(table, "w") as f:
        f.write(json.dumps({"ev": "table", "rows": [{"e": e, "m": [ord(x) for x in m]} for e, m in sorted(rows)]}) + "\n")
    c.validate("TraceTools", table)
    c.assumptions = ["what a diagnostic says is compared when code and specification agree what is wrong;"
                     " disagreement about that is C01, C03 or C04",
                     "the texts are held to naming the broken rule and the facts, not to exact wording"]


def c17(c):
    cargo("core")
    parallel(lambda: model_pipeline(c), lambda: programs(c, "front"))
    out, _ = c.harness("front", n=size(5000, 50000))
    sampled(c, out, "src")
    c.validate("TraceFront", out, timeout=3000)
    out, _ = c.harness("pairs", n=size(6000, 60000))
    for l in open(out):
        d = json.loads(l)
        c.count("compared_" + d["ev"] + ("_equal" if d["ab"] else "_different"))
    c.validate("TracePairs", out, timeout=3000)



def c05(c):
    cargo("core")
    model_parser(c)
    hor = {"Horizon": size(6, 8), "Strings": size(4, 12)}
    out, _ = c.harness("types", **{"n": 1, "in": small_grammars(c, size(5, 6)), "out": c.path("small.nd")})
    c.validate("TraceLang", out, constants=hor, timeout=3000)
    out, _ = c.harness("types", n=size(10000, 40000))
    sampled(c, out, "t")
    c.count("grammars", sum(1 for _ in open(out)))
    c.validate("TraceLang", out, constants=hor, timeout=3000)
    c.assumptions = ["strings up to %d characters" % hor["Horizon"]]


# ---------------------------------------------------------------------------
# Generated code.

def small_grammars(c, k):
    """Every small accepted grammar, listed by TLC."""
    gen = c.path("gen-small.nd")
    c.tlc("GenTerms", constants={"GramSize": k, "ProgSize": 1}, envs={"WHAT": "check", "OUT": gen},
          model=False, xmx="12g", timeout=3000)
    return gen


def generate(c, sub, **kw):
    d = c.path(sub)
    os.makedirs(d, exist_ok=True)
    out, _ = c.harness("parsers", out=os.path.join(d, "t.nd"), dir=d, timeout=1500, **kw)
    return out


def generated(c, salt, n, runs=True, small=None, every=1):
    """Grammars to running parsers to a trace, in two families: every small
    grammar with every short word, and random grammars with strings they
    denote, damaged ones and others."""
    traces = []
    jobs = [("random", dict(salt=salt, n=n, inputs=size(16, 30), max=size(18, 24)))]
    if small:
        jobs.append(("small", {"salt": salt, "n": 0, "in": small_grammars(c, small), "every": every, "len": 3}))
    for sub, kw in jobs:
        out = generate(c, sub, **kw)
        if os.path.exists(out + ".begin"):
            continue
        trace, cases = parsers.record(c, out, runs=runs)
        c.count("grammars_" + sub, len(cases))
        c.count("grammars_not_compiling", sum(not d["built"] for d in cases))
        sampled(c, out, "t", 2)
        traces.append(trace)
    return traces


def model_parser(c):
    c.tlc("MCParser", constants={"MaxSize": 5, "MaxLen": size(2, 4)}, timeout=3000)


def running(c, salt):
    cargo("core")
    traces = []
    parallel(lambda: model_parser(c),
             lambda: traces.extend(generated(c, salt, size(900, 4000), small=5, every=size(2, 1))))
    for t in traces:
        c.validate("TraceParsers", t, timeout=3000, xmx=size("6g", "16g"))
    n = c.cov.pop("grammars_not_compiling", 0)
    if n:
        c.assumptions.append("%d generated parsers did not compile (C10) and were not run" % n)


def c06(c):
    running(c, 6)
    c.assumptions = c.assumptions + ["inputs up to 40 characters"]


def c07(c):
    running(c, 7)


def c08(c):
    running(c, 8)
    # far along in the input
    out, _ = c.harness("faults", n=size(600, 6000))
    c.count("far_failures", sum(1 for _ in open(out)))
    c.validate("TraceRuns", out, timeout=3000)


def runtime(c, kind, n, ops, calls):
    cargo("core")
    c.tlc("MCRuntime", constants={"MaxLen": size(4, 5), "MaxOps": size(8, 11)}, timeout=3000)
    gen = c.path("gen-%s.nd" % kind)
    c.tlc("GenRuntime", constants={"PlainLen": size(4, 5), "PlainOps": ops, "CallLen": calls},
          envs={"OUT": gen, "WHAT": kind}, model=False, xmx="12g", timeout=3000)
    c.count("histories_from_specification", sum(1 for _ in open(gen)))
    out, _ = c.harness("runtime", out=c.path("replayed.nd"), kind=kind, **{"in": gen})
    c.validate("TraceRuntime", out, timeout=3000)
    out, _ = c.harness("runtime", out=c.path("random.nd"), kind=kind, n=n)
    for l in open(out):
        d = json.loads(l)
        for o in d["ops"]:
            c.count("call_" + o["op"])
    sampled(c, out, "ops", 2)
    c.validate("TraceRuntime", out, timeout=3000)


def c09(c):
    runtime(c, "plain", size(12000, 150000), size(6, 7), 3)
    out, _ = c.harness("runtime", out=c.path("mixed.nd"), kind="all", n=size(4000, 40000))
    c.validate("TraceRuntime", out, timeout=3000)
    out, _ = c.harness("runs", n=size(60, 400))
    c.count("long_inputs", sum(1 for _ in open(out)))
    c.validate("TraceRuns", out)


def c13(c):
    runtime(c, "all", size(16000, 150000), 6, size(3, 4))


def c12(c):
    parallel(lambda: cargo("auto"), tools.build)
    c.tlc("MCTools", constants={"MaxCode": size(6, 12), "Buffer": 3, "MaxText": size(3, 5)})
    out, _ = c.harness("tools", binary=VHA, n=size(1500, 10000), timeout=1500)
    if os.path.exists(out + ".begin"):
        return
    cases = [json.loads(l) for l in open(out)]
    for d in cases:
        x = d["chomp"]
        c.count("outcome_" + x["st"] + ("_" + x["e"] if "e" in x else ""))
        c.sample(d["src"], 4)
    trace = c.path("trace.nd")
    tools.command_lines(c, cases, trace)
    tools.byte_inputs(c, size(1200, 10000), trace, [d["src"] for d in cases if len(d["src"]) < 400])
    tools.invocations(c, cases[:size(700, 5000)], trace)
    c.validate("TraceTools", trace, timeout=3000, xmx=size("6g", "16g"))
    c.assumptions = ["programs nested up to about a hundred deep (the tools run on the default stack)",
                     "bytes that are no text, or that no token can be read from, are not tried as macro invocations"]


def same_files(c, a, b):
    """The same programs compiled in another process."""
    da, db = os.path.dirname(a), os.path.dirname(b)
    for l in open(a):
        d = json.loads(l)
        f = "g%d.rs" % d["id"]
        pa, pb = os.path.join(da, f), os.path.join(db, f)
        if os.path.exists(pa) != os.path.exists(pb) or (os.path.exists(pa) and open(pa).read() != open(pb).read()):
            c.violation("another process generates other code", {"recorded": d["t"]})
        c.count("compared_across_processes")


def c10(c):
    cargo("core")
    kw = dict(salt=10, n=size(1200, 8000), inputs=0, max=size(20, 28))
    a = generate(c, "random", **kw)
    b = generate(c, "second", **kw)
    same_files(c, a, b)
    sampled(c, a, "t", 2)
    small = generate(c, "small", **{"salt": 10, "n": 0, "in": small_grammars(c, size(5, 6)), "len": 0})
    for out in (a, small):
        trace, cases = parsers.record(c, out, runs=False)
        c.count("grammars_compiled", len(cases))
        c.validate("TraceParsers", trace, timeout=3000, xmx=size("6g", "16g"))


def c11(c):
    cargo("core")
    parallel(lambda: model_pipeline(c), lambda: programs(c, "front"))
    out, _ = c.harness("front", n=size(5000, 40000))
    c.validate("TraceFront", out, timeout=3000)
    for cmd, n in (("expand", size(2500, 30000)), ("check", size(1500, 20000))):
        out, _ = c.harness(cmd, n=n)
        c.validate("TraceTerms", out, timeout=3000)
    out = generate(c, "random", salt=11, n=size(1500, 8000), inputs=0, max=size(20, 28))
    for l in open(out):
        c.count("grammars")
    c.validate("TraceParsers", api_only(c, out), timeout=3000, xmx=size("6g", "16g"))
    c.assumptions = ["exact field and variant names are judged when all names of the sequence or alternation are ASCII"]


def api_only(c, out):
    """A trace without runs: what the types offer."""
    trace = out + ".api"
    with open(trace, "w") as f:
        for l in open(out):
            d = json.loads(l)
            d["runs"], d["built"] = [], True
            d.pop("inputs")
            f.write(json.dumps(d) + "\n")
    return trace


def c14(c):
    parallel(lambda: cargo("bench"),
             lambda: c.tlc("MCBigInt", constants={"Small": size(40, 150), "Large": size("FALSE", "TRUE")}, timeout=3000),
             lambda: c.tlc("MCArith", constants={"MaxTokens": size(5, 7)}, timeout=3000))
    gen = c.path("gen.nd")
    c.tlc("GenArith", constants={"Chars": size(4, 5), "Tokens": size(4, 5), "Terms": size(4, 5)},
          envs={"OUT": gen}, model=False, xmx="12g", timeout=3000)
    c.count("texts_from_specification", sum(1 for _ in open(gen)))
    for name, kw in (("replayed", {"in": gen}), ("random", {"n": size(15000, 200000)})):
        out, _ = c.harness("arith", binary=VHB, out=c.path(name + ".nd"), timeout=1500, **kw)
        for l in open(out):
            d = json.loads(l)
            c.count("outcome_" + "_".join(d[p]["st"] for p in ("nibble", "hand", "lalr")))
        sampled(c, out, "w", 3)
        c.validate("TraceArith", out, timeout=3000, xmx=size("6g", "16g"))
    c.assumptions = ["texts where a number or intermediate value does not fit 64 bits, or a divisor is 0, are not judged"]


def c15(c):
    parallel(lambda: cargo("bench"),
             lambda: c.tlc("MCDocument", constants={"MaxTokens": size(7, 9)}, timeout=3000, coverage=False))
    gen = c.path("gen.nd")
    c.tlc("GenDocuments", constants={"FracLen": size(2, 4), "StrLen": size(2, 3), "Toks": size(10, 12), "AnyToks": size(4, 5)},
          envs={"OUT": gen}, model=False, xmx="12g", timeout=3000)
    c.count("documents_from_specification", sum(1 for _ in open(gen)))
    for cmd, name, kw in (("json", "replayed", {"in": gen}), ("json", "random", {"n": size(15000, 200000)}),
                          ("print", "printed", {"n": size(8000, 100000)})):
        out, _ = c.harness(cmd, binary=VHB, out=c.path(name + ".nd"), timeout=1500, **kw)
        for l in open(out):
            d = json.loads(l)
            c.count(cmd + "_" + "_".join(d[p]["st"] for p in ("text", "nibble", "hand", "lalr") if p in d))
        if cmd == "json":
            sampled(c, out, "w", 3)
        c.validate("TraceJson", out, timeout=3000, xmx=size("6g", "16g"))
    c.assumptions = ["the generated parser is held to documents of printable ASCII characters",
                     "numbers of more than 15 digits or beyond 1e300 are only compared between the parsers",
                     "on other texts, and on lone surrogates, only the generated parser is judged"]


CHECKS = {"C01": c01, "C02": c02, "C03": c03, "C04": c04, "C05": c05, "C06": c06, "C07": c07, "C08": c08, "C09": c09, "C10": c10,
          "C11": c11, "C12": c12, "C13": c13, "C14": c14, "C15": c15, "C16": c16, "C17": c17, "C18": c18}
