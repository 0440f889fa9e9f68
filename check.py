#!/usr/bin/env python3
"""Decides one property of /repo: python3 check.py C01

Runs the specifications in spec/ with TLC, replays what they generate into the
code, and checks what the code was recorded to do against them.  Exit 0: the
property held; exit 1 and a VIOLATION line: it is broken; exit 2: the check
itself failed.  VERIF_TIER is quick or thorough, VERIF_SEED any integer.
"""
import json, os, re, shutil, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
SPEC = os.path.join(HERE, "spec")
ENVELOPE = 840  # seconds


class Broken(Exception):
    """the check cannot give an answer"""


class Violation(Exception):
    def __init__(self, what, detail):
        super().__init__(what)
        self.what, self.detail = what, detail


class Run:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.quick = tier != "thorough"
        self.t0 = time.time()
        base = "/dev/shm" if os.access("/dev/shm", os.W_OK) and shutil.disk_usage("/dev/shm").free > (4 << 30) else None
        self.tmp = tempfile.mkdtemp(prefix="verif-%s-" % prop.lower(), dir=base)
        self.states = self.transitions = self.cases = 0
        self.stages, self.samples, self.known = [], [], []
        self.n = 0
        self.bins = {}

    def pick(self, quick, thorough):
        return quick if self.quick else thorough

    def path(self, name):
        return os.path.join(self.tmp, name)

    def left(self):
        return max(30, ENVELOPE - (time.time() - self.t0)) if self.quick else 6 * 3600

    # -- building ---------------------------------------------------------
    def driver(self, race=False):
        """the driver, built from /repo's working tree"""
        if race not in self.bins:
            out = self.path("driver" + ("-race" if race else ""))
            cmd = ["go", "build"] + (["-race"] if race else []) + ["-o", out, "."]
            p = subprocess.run(cmd, cwd=os.path.join(HERE, "driver"), capture_output=True, text=True, timeout=self.left())
            if p.returncode != 0:
                raise Broken("the driver does not build:\n" + p.stderr[-3000:])
            self.bins[race] = out
        return self.bins[race]

    # -- TLC --------------------------------------------------------------
    def tlc(self, module, consts, invariants, simulate=None, env=None, label=None, workers=8):
        """runs TLC on a module of spec/; returns the file of its output.

        consts: name -> TLA+ expression (text).  simulate: (num, depth)."""
        self.n += 1
        name = "M%d" % self.n
        d = self.path(name)
        os.makedirs(d)
        with open(os.path.join(d, name + ".tla"), "w") as f:
            f.write("---- MODULE %s ----\nEXTENDS %s\n" % (name, module))
            for k, v in consts.items():
                f.write("c_%s == %s\n" % (k, v))
            f.write("====\n")
        with open(os.path.join(d, name + ".cfg"), "w") as f:
            for k in consts:
                f.write("CONSTANT %s <- c_%s\n" % (k, k))
            f.write("INIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\n")
            for i in invariants:
                f.write("INVARIANT %s\n" % i)
        out = os.path.join(d, "out")
        cmd = ["java", "-XX:+UseParallelGC", "-Xss64m", "-Djava.io.tmpdir=" + d, "-Xmx%dg" % self.pick(8, 16), "-DTLA-Library=" + SPEC, "-cp", JARS, "tlc2.TLC",
               "-metadir", os.path.join(d, "md"), "-noGenerateSpecTE", "-config", name + ".cfg", "-workers", str(workers)]
        if simulate:
            cmd += ["-simulate", "num=%d" % simulate[0], "-depth", str(simulate[1]), "-seed", str(self.seed)]
        cmd.append(name + ".tla")
        t = time.time()
        with open(out, "w") as f:
            e = dict(os.environ, **(env or {}))
            e.pop("JAVA_TOOL_OPTIONS", None)
            try:
                p = subprocess.run(cmd, cwd=d, stdout=f, stderr=subprocess.STDOUT, env=e, timeout=self.left())
            except subprocess.TimeoutExpired:
                raise Broken("TLC ran out of time on " + module)
        shutil.rmtree(os.path.join(d, "md"), ignore_errors=True)
        said = []
        with open(out, errors="replace") as f:
            for l in f:
                if not l.startswith('"'):
                    said.append(l)
        text = "".join(said)
        gen = dist = 0
        m = re.findall(r"(\d+) states generated, (\d+) distinct states found", text)
        if m:
            gen, dist = int(m[-1][0]), int(m[-1][1])
        m2 = re.search(r"The number of states generated: (\d+)", text)
        if simulate and m2:
            gen = dist = int(m2.group(1))
        info = {"spec": module, "constants": {k: v for k, v in consts.items() if len(v) < 200}, "invariants": list(invariants),
                "states": dist, "transitions": gen, "wall_s": round(time.time() - t, 1)}
        if simulate:
            info["simulated"] = {"runs": simulate[0], "depth": simulate[1]}
        if label:
            info["label"] = label
        self.stages.append(info)
        self.states += dist
        self.transitions += gen
        broken = re.search(r"Invariant (\w+) is violated", text)
        return out, broken.group(1) if broken else None, p.returncode, text, info

    def generate(self, module, consts, invariants, **kw):
        """runs a generator; the specification itself may not be at fault"""
        out, broken, rc, text, info = self.tlc(module, consts, invariants, **kw)
        if broken or rc != 0 or "Error:" in text:
            raise Broken("TLC on %s:\n%s" % (module, text[-3000:]))
        return out

    # -- the code -----------------------------------------------------------
    def drive(self, args, race=False, label=None, count=True):
        exe = self.driver(race)
        prog = tempfile.mkdtemp(prefix="progress-", dir=self.tmp)
        env = dict(os.environ, DRIVER_PROGRESS=prog, GORACE="halt_on_error=1 exitcode=66", GOTRACEBACK="single")
        t = time.time()
        try:
            p = subprocess.run([exe] + args, cwd=self.tmp, capture_output=True, text=True, errors="replace", env=env, timeout=self.left())
        except subprocess.TimeoutExpired:
            raise Broken("the driver ran out of time: " + " ".join(args))
        for l in p.stdout.splitlines():
            if l.startswith("MISMATCH "):
                try:
                    d = json.loads(l[9:])
                    what = d["what"] if isinstance(d, dict) else str(d)
                except ValueError:
                    d, what = {"what": l[9:]}, l[9:300]
                raise Violation(what, {"driver": args, "found": d})
        if p.returncode == 66 and "DATA RACE" in p.stderr:
            raise Violation("calls made at the same time touch the same memory", {"driver": args, "race": p.stderr[-6000:]})
        if p.returncode == 2 and "\ndriver: " in "\n" + p.stderr:
            raise Broken("driver %s: %s" % (args[0], p.stderr[-3000:]))
        if p.returncode != 0:
            # the whole process died: a crash nothing can recover from
            doing = []
            for f in sorted(os.listdir(prog)):
                with open(os.path.join(prog, f), errors="replace") as g:
                    doing.append(g.read(20000))
            if "github.com/yanun0323/goast" in p.stderr and any(doing):
                raise Violation("the code under test ends the process", {"driver": args, "in progress": doing, "stderr": p.stderr[:6000]})
            raise Broken("driver %s ended with %d: %s" % (args[0], p.returncode, p.stderr[-3000:]))
        m = re.search(r"^STATS (.*)$", p.stdout, re.M)
        if not m:
            raise Broken("driver %s says nothing" % args[0])
        st = json.loads(m.group(1))
        self.samples += [{"from": label or args[0], "sample": s} for s in (st.pop("samples", None) or [])[:3]]
        if count:
            if st.get("cases", 0) <= 0:
                raise Broken("driver %s replayed nothing" % args[0])
            self.cases += st["cases"]
        self.stages.append(dict({"driver": label or args[0], "wall_s": round(time.time() - t, 1)}, **st))
        shutil.rmtree(prog, ignore_errors=True)
        return st

    def replay(self, command, vectors, label=None, extra=(), race=False):
        if os.path.getsize(vectors) == 0:
            raise Broken("no vectors for " + command)
        st = self.drive([command, "-in", vectors, "-prop", self.prop] + list(extra), race=race, label=label)
        os.remove(vectors)
        return st

    def validate(self, module, trace, index, invariant, expected, label):
        """checks a recorded trace against a trace specification"""
        out, broken, rc, text, info = self.tlc(module, {}, [invariant], env={"TRACE": trace}, label=label)
        if broken == invariant:
            with open(out, errors="replace") as f:
                said = f.read()
            states = re.findall(r"^State \d+:.*?(?=^State \d+:|\Z|^\d+ states generated)", said, re.M | re.S)
            last = states[-1] if states else said[-3000:]
            m = re.search(r"/\\ c = (\d+)", last)
            case = None
            if m:
                with open(index) as f:
                    for l in f:
                        d = json.loads(l)
                        if d["id"] == int(m.group(1)):
                            case = d
                            break
            where = re.search(r"/\\ bad = (\{.*?\})\s*$", last, re.M | re.S)
            what = "a recorded behaviour is not one of %s (%s)" % (module, invariant)
            raise Violation(what, {"case": case, "deviations": where.group(1) if where else None, "last state": last[-2500:]})
        if broken or rc != 0 or "Error:" in text:
            raise Broken("TLC on %s:\n%s" % (module, text[-3000:]))
        if info["states"] != expected:
            raise Broken("%s: %d states, expected %d: the trace was not read to its end" % (module, info["states"], expected))
        os.remove(trace)

    # -- the end ----------------------------------------------------------------
    def evidence(self, violations):
        cov = {"states": self.states, "transitions": self.transitions, "traces_validated_against_impl": self.cases,
               "samples": self.samples[:12], "stages": self.stages}
        doc = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": "model_checking", "coverage": cov,
               "assumptions": ["Go's own gofmt and imports do what they document", "TLC explores what it reports"],
               "wall_s": round(time.time() - self.t0, 1), "violations": violations}
        text = json.dumps(doc, ensure_ascii=True)
        while len(text) > 60000 and doc["coverage"]["samples"]:
            doc["coverage"]["samples"].pop()
            text = json.dumps(doc, ensure_ascii=True)
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        with open(os.path.join(HERE, "evidence", self.prop + ".json"), "w") as f:
            f.write(text + "\n")


# ---------------------------------------------------------------------------
# Stages the properties share.

BYTES = dict(nl=10, sp=32, tab=9, cr=13, dq=34, sq=39, bq=96, bs=92, slash=47, star=42, lp=40, rp=41, lc=123, rc=125, lb=91, rb=93, comma=44, colon=58, semi=59)
# whole keywords and a run of other bytes
KW = dict(package=256, import_=257, var=258, const=259, type=260, func=261, map=262, chan=263, struct=264, interface=265)
PLAIN = 280


def tlaset(xs):
    return "{" + ", ".join(str(x) for x in sorted(xs)) + "}"


def lexical(r):
    """every short text over some alphabets, against the lexical machine"""
    b, k = BYTES, KW
    broad = [PLAIN, b["sp"], b["nl"], b["slash"], b["star"], b["dq"], b["bq"], b["sq"], b["bs"], b["lp"], b["lc"], b["rb"], b["comma"]]
    marks = [PLAIN, b["nl"], b["slash"], b["star"], b["dq"], b["sq"], b["bq"], b["bs"]]
    seps = [PLAIN] + [b[x] for x in ("nl", "sp", "tab", "cr", "lp", "rp", "lc", "rc", "lb", "rb", "comma", "colon", "semi", "slash", "dq")]
    words = list(k.values()) + [PLAIN, b["sp"], b["nl"], b["tab"], b["slash"], b["star"], b["lp"], b["rp"]]
    var, block, doc = "<<258, 32>>", "<<47, 42>>", "<<47, 47, 32>>"
    escapes = [(name, [b["bs"], b[q]], r.pick(12, 15), f"<<258, 32, {b[q]}>>") for name, q in (("backslashes in a string", "dq"), ("backslashes in a rune", "sq"), ("backslashes in a raw string", "bq"))]
    plans = [("broad", broad, r.pick(4, 6), var), ("marks", marks, r.pick(5, 7), var), ("separators", seps, r.pick(4, 5), var),
             ("keywords", words, r.pick(3, 4), doc + " \\o <<10>>"), ("in a comment", marks, r.pick(4, 6), block)] + escapes
    for label, alpha, n, prefix in plans:
        out = r.generate("GenLex", {"Alphabet": tlaset(alpha), "MaxLen": str(n), "Prefix": prefix},
                         ["Partition", "LineCount", "Shape", "Emit"], label="lexical machine: " + label)
        r.replay("lex", out, label="texts: " + label)


def seq(*xs):
    """symbols of a text, given as names, keywords and numbers"""
    return "<<" + ", ".join(str(BYTES.get(x, KW.get(x, x))) for x in xs) + ">>"


def pumped(r):
    """texts that repeat: deep nesting and long runs"""
    P = PLAIN
    heads = [seq("var", "sp"), seq("func", "sp", P, "lp"), seq("func", "sp", P, "lp", "rp", "sp"), seq("type", "sp", P, "sp"),
             seq("type", "sp", P, "sp", "struct", "sp", "lc", "nl"), seq("type", "sp", P, "sp", "interface", "sp", "lc", "nl"), seq("slash", "star")]
    pieces = [[x] for x in ("lp", "rp", "lc", "rc", "lb", "rb", "comma", "star", "nl", "sp", "dq", "sq", "bq", "bs", "slash", P, "semi", "colon")] + [
        ["slash", "slash"], ["slash", "star"], ["star", "slash"], ["func", "lp"], ["func", "lp", "rp", "sp", "lp"], [P, "sp", "func", "lp"], ["func", "sp"],
        ["struct", "sp", "lc"], ["interface", "sp", "lc"], ["map", "lb"], ["chan", "sp"], ["type", "sp"], ["import_", "sp", "lp", "nl"],
        [P, "sp"], [P, "lp", "rp", "nl"], [P, "sp", "struct", "lc"], ["lb", "rb"], [P, "lb"], ["package", "sp", P, "nl"], ["nl", "var", "sp"], ["nl", "func", "sp", P, "lp", "rp"]]
    tails = [seq(), seq("rp"), seq("rc"), seq(P), seq("rp", "sp", "lc", "rc", "nl")]
    sets = lambda xs: "{" + ", ".join(xs) + "}"
    inv = ["Settles", "Emit"]
    ps = [seq(*x) for x in pieces]
    plans = [("one piece", "1", ps, tails, "<<3, 700%s>>" % r.pick("", ", 3000")), ("two pieces", "2", ps, r.pick(tails[:1], tails), "<<2, 90>>")]
    for label, width, pcs, tls, counts in plans:
        out = r.generate("Pump", {"Heads": sets(heads), "Pieces": sets(pcs), "Tails": sets(tls), "Width": width, "Counts": counts, "Whole": "FALSE"}, inv, label="repeated texts: " + label)
        r.replay("pump", out, label="repeated texts: " + label)
    long(r)


def long(r):
    """texts of tens of thousands of tokens and lines"""
    P = PLAIN
    heads = [seq("var", "sp"), seq("slash", "slash", "sp"), seq("const", "sp", "lp", "nl"), seq("var", "sp", "bq"), seq("slash", "star"), seq("import_", "sp", "dq")]
    pieces = [["nl"], ["sp"], ["comma"], [P, "sp"], [P, "nl"], ["slash", "slash", "nl"], ["slash", "star", P, "star", "slash"], ["dq", P, "dq"], ["bq", "nl"], ["sq", P, "sq", "comma"],
              ["bs", "dq"], ["slash"], ["star"], ["lb", "rb"], ["var", "sp", P, "nl"], ["lp", "nl", "rp"], [P, "sp", "map", "lb", "rb", "nl"], ["rc"], ["cr", "nl"]]
    sets = lambda xs: "{" + ", ".join(seq(*x) if isinstance(x, list) else x for x in xs) + "}"
    out = r.generate("Pump", {"Heads": sets(heads), "Pieces": sets(pieces), "Tails": "{" + seq("nl", "var", "sp", P) + "}", "Width": "1", "Counts": r.pick("<<66000>>", "<<66000, 300000>>"), "Whole": "TRUE"},
                     ["Settles", "Emit"], label="very long texts")
    r.replay("long", out, label="very long texts", extra=["-stack", "8"])
    quotes = ("dq", "sq", "bq")
    out = r.generate("Pump", {"Heads": sets(["var", "sp", q] for q in quotes), "Pieces": sets([["bs"], ["bs", "bs"], ["bs", P]]), "Tails": sets([q, "sp", P, "nl"] for q in quotes), "Width": "1",
                              "Counts": "<<7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 1023, 1024, 1025, 4097>>", "Whole": "TRUE"},
                     ["Settles", "Emit"], label="long runs of backslashes")
    r.replay("long", out, label="long runs of backslashes")
    if r.tier == "thorough":
        out = r.generate("Pump", {"Heads": sets(heads), "Pieces": sets(pieces), "Tails": "{" + seq("nl", "var", "sp", P) + "}", "Width": "2", "Counts": "<<2000>>", "Whole": "TRUE"},
                         ["Settles", "Emit"], label="long texts of two pieces")
        r.replay("long", out, label="long texts of two pieces")


def recorded(r, invariant, corpus, soup, mutants):
    """recorded parses of real, mutated and random texts, against the machines"""
    tr, ix = r.path("texts.ndjson"), r.path("texts.index")
    st = r.drive(["texts", "-prop", r.prop, "-seed", str(r.seed), "-corpus", str(corpus), "-soup", str(soup), "-mutants", str(mutants), "-out", tr, "-index", ix],
                 label="recorded parses")
    r.validate("TraceText", tr, ix, invariant, st["symbols"] + 2 * st["cases"], "recorded parses")


def texts(r, invariant):
    recorded(r, invariant, r.pick(400_000, 2_500_000), r.pick(3000, 30000), r.pick(1500, 15000))


def documents(r):
    """whole files built from items, with their scopes"""
    inv = ["Ordered", "Covers", "OnePkg", "Asks", "Emit"]
    for label, n, rich in [("one item, with comments", 1, "TRUE"), ("items in sequence", 2, "FALSE")]:
        out = r.generate("Doc", {"MaxItems": str(n), "Rich": rich, "Random": "FALSE"}, inv, label="files: " + label)
        r.replay("docs", out, label="files: " + label)
    out = r.generate("Doc", {"MaxItems": "9", "Rich": "TRUE", "Random": "TRUE"}, inv, simulate=(r.pick(1500, 30000), 12), workers=1, label="files: long")
    r.replay("docs", out, label="files: long")


def stored(r):
    """whole files on the disk, written in several ways, read and saved"""
    inv = ["Ordered", "Covers", "OnePkg", "Asks", "Emit"]
    d = r.path("stored")
    out = r.generate("Doc", {"MaxItems": "1", "Rich": "FALSE", "Random": "FALSE"}, inv, label="stored files: one item")
    r.replay("docs", out, label="stored files: one item", extra=["-dir", d])
    out = r.generate("Doc", {"MaxItems": "9", "Rich": "TRUE", "Random": "TRUE"}, inv, simulate=(r.pick(700, 10000), 12), workers=1, label="stored files: long")
    r.replay("docs", out, label="stored files: long", extra=["-dir", d])


def wide(r):
    """declarations with thousands of parts or hundreds of levels"""
    inv = ["Balanced", "OneName", "Emit"]
    plans = [("one part", 1, r.pick(3000, 20000), r.pick(150, 400)), ("two parts", 2, r.pick(40, 400), r.pick(12, 40))]
    for label, width, lists, nests in plans:
        out = r.generate("Wide", {"Width": str(width), "Lists": str(lists), "Nests": str(nests)}, inv, label="wide declarations: " + label)
        r.replay("decls", out, label="wide declarations: " + label, extra=["-seed", str(r.seed), "-count", "1"])


def tall(r):
    """files of tens of thousands of lines or scopes"""
    inv = ["Ordered", "Agrees", "Emit"]
    r.generate("Tall", {"Sizes": "{0, 1, 3}", "Depths": "{0, 2}", "MaxBlocks": "2", "MaxLines": "100"}, inv[:2], label="tall files: counted")
    plans = [("one block", 1, r.pick("{66000}", "{66000, 262144}"), r.pick(200_000, 3_000_000), {}),
             ("blocks in sequence", 6, "{0, 1, 2, 40, 300, 5000}", r.pick(30_000, 100_000), {"simulate": (r.pick(60, 600), 12), "workers": 1})]
    for label, n, sizes, lines, kw in plans:
        out = r.generate("Tall", {"Sizes": sizes, "Depths": r.pick("{8, 130, 300}", "{8, 300, 1000}"), "MaxBlocks": str(n), "MaxLines": str(lines)}, inv, label="tall files: " + label, **kw)
        r.replay("tall", out, label="tall files: " + label, extra=["-stack", "8"])


def declarations(r):
    inv = ["Balanced", "OneName", "Emit"]
    roots = '{"func", "method", "typedecl", "struct", "interface"}'

    def run(label, fuel, comments, spots, count="2", **kw):
        out = r.generate("Decl", {"Fuel": fuel, "Comments": comments, "Spots": spots, "Roots": roots}, inv, label="declarations: " + label, **kw)
        r.replay("decls", out, label="declarations: " + label, extra=["-seed", str(r.seed), "-count", count])
    run("all small ones", r.pick("2", "3"), "FALSE", "FALSE")
    run("with comments", "2", "TRUE", "FALSE")
    run("with one comment anywhere", r.pick("1", "2"), "FALSE", "TRUE")
    run("large", "9", "FALSE", "FALSE", simulate=(r.pick(5000, 80000), 120), workers=4)
    run("large with comments", "9", "TRUE", "TRUE", simulate=(r.pick(4000, 80000), 120), workers=4)


def packages(r):
    """package clauses with comments and blanks around them, or none"""
    out = r.generate("Pack", {"MaxBefore": r.pick("2", "3")}, ["Known", "Emit"], label="package clauses")
    r.replay("pack", out, label="package clauses", extra=["-dir", r.path("pack")])


def nodes(r, what):
    """arrangements of nodes with every operation, iteration, join or copy"""
    n = {"Ops": r.pick(5, 6), "Walks": r.pick(3, 4), "Joins": r.pick(4, 5), "Copies": r.pick(3, 4)}[what]
    out = r.generate("GenNode", {"N": str(n), "MaxArgs": "3"}, ["WellLinked", "CopyApart", what], label="nodes: " + what)
    r.replay("nodes", out, label="nodes: " + what)


def histories(r, invariant):
    """recorded histories of node calls, against the chain of nodes"""
    tr, ix = r.path("nodes.ndjson"), r.path("nodes.index")
    st = r.drive(["histories", "-seed", str(r.seed), "-prop", r.prop, "-count", str(r.pick(250, 3000)), "-length", "60", "-out", tr, "-index", ix],
                 label="recorded histories")
    r.validate("TraceNode", tr, ix, invariant, st["steps"] + st["cases"], "recorded histories")


def ropes(r):
    """histories of very long chains of nodes"""
    out = r.generate("Rope", {"Sizes": "{1, 2, 3, 300, 5000, 70000}", "MaxSteps": "14", "MaxChains": "8", "Plan": '"any"'}, ["Apart", "Single", "Emit"],
                     simulate=(r.pick(150, 3000), 15), workers=1, label="very long chains")
    r.replay("rope", out, label="very long chains")


def huge(r, plan):
    """chains whose length no stack has room for"""
    out = r.generate("Rope", {"Sizes": "{2200000}", "MaxSteps": "5", "MaxChains": "5", "Plan": f'"{plan}"'}, ["Apart", "Single", "Emit"],
                     simulate=(r.pick(4, 12), 6), workers=1, label="huge chains")
    r.replay("rope", out, label="huge chains", extra=["-workers", "1", "-stack", "64", "-most", r.pick("4", "40")])


def asts(r):
    d = r.path("files")
    os.makedirs(d)
    few = {"MaxScopes": "40", "MaxList": "8", "Long": "0", "Tight": '"none"'}
    for label, consts, runs in [("documents and files", few, r.pick(1500, 20000)),
                                ("documents on a disk with little room", dict(few, Tight='"L"'), r.pick(300, 3000)),
                                ("documents on a disk that is full", dict(few, Tight='"all"'), r.pick(200, 2000)),
                                ("documents of many scopes", dict(few, MaxScopes="9000", MaxList="4000", Long="400"), r.pick(24, 300))]:
        out = r.generate("AstDoc", dict(consts, MaxSteps="12", MaxDocs="5"), ["Stable", "Sound", "Read", "Emit"], simulate=(runs, 13), workers=1, label=label)
        r.replay("asts", out, label=label, extra=["-dir", d] + {'"none"': [], '"L"': ["-fsize", "65536"], '"all"': ["-fsize", "4"]}[consts["Tight"]])


def debugged(r):
    """with the debug output switched on nothing else changes"""
    out = r.generate("Decl", {"Fuel": r.pick("1", "2"), "Comments": "FALSE", "Spots": "FALSE", "Roots": '{"func", "method", "typedecl", "struct", "interface"}'},
                     ["Balanced", "OneName", "Emit"], label="debug output: declarations")
    for prop in "C05", "C06":
        dup = r.path("debug-" + prop)
        shutil.copy(out, dup)
        r.replay("decls", dup, label="debug output: declarations, " + prop, extra=["-seed", str(r.seed), "-count", "1", "-prop", prop, "-debug"])
    out = r.generate("Doc", {"MaxItems": "9", "Rich": "TRUE", "Random": "TRUE"}, ["Ordered", "Covers", "OnePkg", "Asks", "Emit"],
                     simulate=(r.pick(60, 1000), 12), workers=1, label="debug output: files")
    r.replay("docs", out, label="debug output: files", extra=["-prop", "C04", "-debug"])


def imported(r):
    """files saved with their imports put right"""
    d = r.path("imports")
    os.makedirs(d)
    out = r.generate("Imports", {"MaxDecls": r.pick("2", "3"), "MaxFuncs": "2"}, ["Complete", "Untouched", "Emit"], label="files with imports")
    r.replay("imports", out, label="files with imports", extra=["-dir", d])


def kinds(r):
    out = r.generate("Kind", {"MaxLen": r.pick("3", "4")}, ["OneKind", "Pairs", "Emit"], label="words and their kinds")
    r.replay("kinds", out, label="words")


def rounds(r):
    inv = ["Commute", "Apart"]
    r.generate("Reentrant", {"Texts": "2", "NFiles": "1", "MaxObjs": r.pick("4", "5"), "Width": r.pick("2", "3"), "Rounds": "2", "Random": "FALSE"}, inv,
               label="calls at the same time: every order")
    d = r.path("files")
    os.makedirs(d)
    out = r.generate("Reentrant", {"Texts": "7", "NFiles": "3", "MaxObjs": "14", "Width": "9", "Rounds": "6", "Random": "TRUE"}, inv + ["Emit"],
                     simulate=(r.pick(400, 5000), 80), workers=1, label="calls at the same time")
    r.replay("rounds", out, label="rounds", extra=["-dir", d], race=True)


def helpers(r):
    out = r.generate("Help", {"Bytes": "{97, 195, 168, 169, 32, 9, 10, 13}", "MaxLen": r.pick("4", "5"), "MaxProbe": "2"}, ["Sane", "Long", "Emit"], label="texts and helpers")
    r.replay("help", out, label="helpers")
    inv = ["Complete", "Emit"]
    out = r.generate("Describe", {"MaxScopes": "2", "MaxNodes": r.pick("3", "5"), "Wide": "FALSE"}, inv, label="descriptions: all small trees")
    r.replay("describe", out, label="descriptions: all small trees")
    out = r.generate("Describe", {"MaxScopes": "5", "MaxNodes": "8", "Wide": "TRUE"}, inv, simulate=(r.pick(800, 20000), 40), workers=1, label="descriptions: large trees")
    r.replay("describe", out, label="descriptions: large trees")


def trie(r):
    inv = ["PrefixClosed", "Function", "LastWins", "Emit"]
    c = {"Bytes": "{97, 195, 169}", "Values": "{0, 1, 2}"}
    plans = [("all small ones", dict(c, Values=r.pick("{0, 1}", "{0, 1, 2}"), MaxLen="2", MaxOps="3", Random="FALSE"), {}),
             ("long", dict(c, MaxLen="4", MaxOps="10", Random="TRUE"), {"simulate": (r.pick(1500, 30000), 12), "workers": 1}),
             ("many branches", dict(c, Bytes=tlaset(range(70)), MaxLen="2", MaxOps="80", Random="TRUE"), {"simulate": (r.pick(40, 600), 82), "workers": 1})]
    ov = r.path("overlay.json")
    with open(ov, "w") as f:
        json.dump({"Replace": {REPO + "/trie_verif_test.go": os.path.join(HERE, "driver", "overlay", "trie_verif_test.go")}}, f)
    for label, consts, kw in plans:
        out = r.generate("Trie", consts, inv, label="prefix trees: " + label, **kw)
        vec = r.path("trie.json")
        r.drive(["json", "-in", out, "-out", vec], label="vectors", count=False)
        t = time.time()
        p = subprocess.run(["go", "test", "-count=1", "-vet=off", "-overlay", ov, "-run", "TestVerifTrie$", "-v", "."], cwd=REPO, capture_output=True, text=True,
                           env=dict(os.environ, VERIF_VECTORS=vec), timeout=r.left())
        m = re.search(r"^MISMATCH (.*)$", p.stdout, re.M)
        if m:
            d = json.loads(m.group(1))
            raise Violation(d["what"], d)
        m = re.search(r'^STATS \{"cases":(\d+)\}', p.stdout, re.M)
        if p.returncode != 0 or not m or int(m.group(1)) == 0:
            raise Broken("prefix tree test: " + (p.stdout + p.stderr)[-3000:])
        r.cases += int(m.group(1))
        r.stages.append({"driver": "prefix trees: " + label, "cases": int(m.group(1)), "wall_s": round(time.time() - t, 1)})


# ---------------------------------------------------------------------------
# The properties.

CHECKS = {
    "C01": lambda r: (documents(r), tall(r), lexical(r), pumped(r), wide(r), texts(r, "C01_Lossless"), stored(r)),
    "C02": lambda r: (lexical(r), long(r), texts(r, "C02_Tokens")),
    "C03": lambda r: (documents(r), tall(r), lexical(r), pumped(r), wide(r), texts(r, "C03_Lines"), histories(r, "C03_Lines"), ropes(r), stored(r)),
    "C04": lambda r: (documents(r), tall(r), recorded(r, "C04_Scopes", r.pick(1_200_000, 6_000_000), 0, 0), stored(r)),
    "C05": lambda r: (documents(r), tall(r), declarations(r), wide(r)),
    "C06": lambda r: (declarations(r), wide(r)),
    "C07": lambda r: (kinds(r), lexical(r), long(r), texts(r, "C07_LexicalKinds")),
    "C08": lambda r: (nodes(r, "Ops"), nodes(r, "Joins"), nodes(r, "Walks"), documents(r), tall(r), wide(r), histories(r, "C08_Links"), ropes(r), texts(r, "C08_Links")),
    "C09": lambda r: (nodes(r, "Ops"), histories(r, "C09_Edits"), ropes(r)),
    "C10": lambda r: (nodes(r, "Joins"), histories(r, "C10_Combine"), ropes(r)),
    "C11": lambda r: (nodes(r, "Copies"), histories(r, "C11_Copies"), ropes(r), huge(r, "copy"), asts(r)),
    "C12": lambda r: (nodes(r, "Walks"), histories(r, "C12_Walks"), ropes(r), huge(r, "walk")),
    "C13": lambda r: asts(r),
    "C14": lambda r: (asts(r), imported(r), stored(r)),
    "C15": lambda r: (asts(r), packages(r), stored(r)),
    "C16": lambda r: rounds(r),
    "C17": lambda r: (documents(r), tall(r), lexical(r), pumped(r), wide(r), texts(r, "C17_Total"), debugged(r)),
    "C18": lambda r: trie(r),
    "C19": lambda r: helpers(r),
}


def known(prop):
    """findings that are recorded instead of repaired: property=<id> <what fails>"""
    out = []
    try:
        with open(os.path.join(HERE, "KNOWN_FINDINGS.txt")) as f:
            for l in f:
                m = re.match(r"finding: property=(\S+) (.*)", l.strip())
                if m and m.group(1) == prop:
                    out.append(m.group(2))
    except OSError:
        pass
    return out


def main():
    if len(sys.argv) != 2 or sys.argv[1] not in CHECKS:
        print("usage: check.py " + "|".join(CHECKS), file=sys.stderr)
        return 2
    prop = sys.argv[1]
    tier = "thorough" if os.environ.get("VERIF_TIER") == "thorough" else "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    r = Run(prop, tier, seed)
    try:
        for k in known(prop):
            print("KNOWN-FINDING: property=%s %s" % (prop, k))
        try:
            r.driver()
            CHECKS[prop](r)
        except Violation as v:
            d = os.path.join(HERE, "replays")
            os.makedirs(d, exist_ok=True)
            f = os.path.join(d, "%s-%d.json" % (prop, seed))
            with open(f, "w") as g:
                json.dump({"property": prop, "seed": seed, "tier": tier, "what": v.what, "detail": v.detail}, g, indent=1)
            r.evidence(1)
            print("what: " + v.what[:2000])
            print("VIOLATION property=%s replay=%s" % (prop, f))
            return 1
        except (Broken, subprocess.TimeoutExpired) as b:
            print("check %s failed: %s" % (prop, b), file=sys.stderr)
            return 2
        r.evidence(0)
        print("%s held: %d states, %d transitions, %d behaviours of the code, %.0f s" % (prop, r.states, r.transitions, r.cases, time.time() - r.t0))
        return 0
    finally:
        shutil.rmtree(r.tmp, ignore_errors=True)


if __name__ == "__main__":
    sys.exit(main())
