"""One function per property."""
import json, os, shutil, subprocess, zlib
from vk import NCPU, REPO, V, WORK, ToolError


def ir_cfg(profile, steps):
    return f'SPECIFICATION Spec\nCONSTANTS\n  Steps = {steps}\n  Profile = "{profile}"\nINVARIANT Inv\nCHECK_DEADLOCK FALSE\n'


def ir_check(c, profiles, num):
    exe = c.harness()
    steps = c.pick(60, 90)
    res = c.simulate("IRSim.tla", [(p, ir_cfg(p, steps)) for p in profiles], num, 900)
    ops, probes, nsteps = {}, 0, 0
    for p in profiles:
        lines = res[p]
        if not lines:
            raise ToolError("no behaviours generated")
        c.samples.append({"profile": p, "behaviour": [s["e"] for s in json.loads(lines[0])[:12]]})
        files = c.shards("b-" + p, lines)
        for i, r in enumerate(c.kv_par(exe, "ir", files)):
            c.traces += r["behaviours"]
            probes += r["probes"]
            nsteps += r["steps"]
            for k, v in r["ops"].items():
                ops[k] = ops.get(k, 0) + v
            for f in r["found"]:
                if c.pid in f["props"]:
                    b = lines[i::len(files)][f["behaviour"]]
                    c.violation(f["msg"], {"cmd": "kv ir", "step": f["step"], "event": f["event"],
                                           "behaviour": json.loads(b)[:f["step"] + 1]}, f.get("key"))
    old = c.cov.get("calls_by_kind", {})
    c.cov.update({"steps_compared": nsteps + c.cov.get("steps_compared", 0), "refusals_probed": probes + c.cov.get("refusals_probed", 0),
                  "calls_by_kind": {k: ops.get(k, 0) + old.get(k, 0) for k in {**ops, **old}}})


def table_check(c, modes):
    """modes: [(mode, depth)] of Table.tla: everything in a small universe."""
    exe = c.harness()
    tot = c.cov.setdefault("tables", {})
    for mode, depth in modes:
        name = f"t-{mode}{depth}"
        cfg = (f'SPECIFICATION Spec\nCONSTANTS\n  Mode = "{mode}"\n  Depth = {depth}\n  Chunk = 150\n'
               f'INVARIANT Inv\nCHECK_DEADLOCK FALSE\n')
        lines = c.model_check("Table.tla", cfg, name)
        base = [l for l in lines if l.startswith('{"base"')]
        lines = sorted(l for l in lines if not l.startswith('{"base"'))
        if len(base) != 1 or not lines:
            raise ToolError("the table is empty")
        n = min(NCPU, len(lines))
        files = [c.write_lines(f"{name}.{i}.nd", base + lines[i::n]) for i in range(n)]
        t = tot.setdefault(f"{mode} {depth}" if mode in ("layout", "remove") else mode, {"behaviours": 0, "calls": 0, "refusals": 0})
        for i, r in enumerate(c.kv_par(exe, "ir", files)):
            c.traces += r["behaviours"]
            t["behaviours"] += r["behaviours"]
            t["calls"] += r["steps"]
            t["refusals"] += r["probes"]
            for f in r["found"]:
                if c.pid in f["props"]:
                    b = json.loads(base[0])["base"] + json.loads(lines[i::n][f["behaviour"] - 1])
                    c.violation(f["msg"], {"cmd": "kv ir", "step": f["step"], "event": f["event"], "behaviour": b[:f["step"] + 1]},
                                f.get("key"))


def prog_cfg(mode, g=4, f=4, b=6, i=6):
    return (f'SPECIFICATION Spec\nCONSTANTS\n  Mode = "{mode}"\n  MaxG = {g}\n  MaxF = {f}\n  MaxB = {b}\n'
            f'  MaxI = {i}\nINVARIANT Inv\nCHECK_DEADLOCK FALSE\n')


def collect(c, exe, kvmode, name, lines, what="programs", extra=()):
    """Runs the harness over generated lines and takes the findings of this property."""
    if not lines:
        raise ToolError("nothing was generated")
    files = c.shards(name, lines)
    tot = c.cov.setdefault("counts", {})
    for i, r in enumerate(c.kv_par(exe, kvmode, files, extra)):
        for k, v in r["n"].items():
            tot[k] = tot.get(k, 0) + v
        c.traces += r["n"].get(what, 0)
        for f in r["found"]:
            if c.pid in f["props"]:
                line = lines[i::len(files)][f["i"]] if f.get("i") is not None else None
                c.violation(f["msg"], {"cmd": "kv " + kvmode, "text": f.get("text"), "input": line}, f.get("key"))


def prog_check(c, runs):
    """runs: [(harness mode, specification mode, sizes, programs)]"""
    exe = c.harness()
    for n, (kvmode, mode, sizes, num) in enumerate(runs):
        name = f"{mode}{n}"
        lines = c.simulate("ProgSim.tla", [(name, prog_cfg(mode, **sizes))], num, 1500, tag=f"p{n}")[name]
        c.samples.append({"mode": mode, "program": json.loads(lines[0])["text"][:20]})
        collect(c, exe, kvmode, name, lines)


def front_cfg(damage, spell, g=4, f=4, b=6, i=6, reports="FALSE"):
    return (f'SPECIFICATION FSpec\nCONSTANTS\n  Mode = "text"\n  MaxG = {g}\n  MaxF = {f}\n  MaxB = {b}\n  MaxI = {i}\n'
            f'  Damage = {damage}\n  Spell = {spell}\n  Reports = {reports}\nINVARIANT FInv\nCHECK_DEADLOCK FALSE\n')


def front_check(c, runs, kvmode="front"):
    """runs: [(damage, spelling, sizes, texts)]"""
    exe = c.harness(quiet=kvmode == "quiet")
    for n, (damage, spell, sizes, num) in enumerate(runs):
        lines = c.simulate("FrontSim.tla", [(f"f{n}", front_cfg(damage, spell, **sizes))], num, 1500, tag=f"f{n}")[f"f{n}"]
        j = json.loads(lines[-1])
        c.samples.append({"verdict": j["v"], "why": j["why"], "text": " ".join(j.get("t") or j.get("b"))[:600]})
        collect(c, exe, kvmode, f"front{n}", lines, what="texts")


def front_table(c, modes, verdicts=("ok", "any", "reject"), kvmode="front"):
    """modes: [(mode, size)] of FrontTable.tla: every text of a family."""
    exe = c.harness(quiet=kvmode == "quiet")
    tot = c.cov.setdefault("tables", {})
    for mode, size in modes:
        name = f"ft-{mode}"
        cfg = f'SPECIFICATION Spec\nCONSTANTS\n  Mode = "{mode}"\n  Size = {size}\n  Chunk = 100\n  Reports = {"TRUE" if kvmode in ("diag", "quiet") else "FALSE"}\nCHECK_DEADLOCK FALSE\n'
        lines = sorted(c.model_check("FrontTable.tla", cfg, name))
        if len(lines) < 100:
            raise ToolError("the table is empty")
        tot[mode] = {}
        for l in lines:
            v = json.loads(l)["v"]
            tot[mode][v] = tot[mode].get(v, 0) + 1
        collect(c, exe, kvmode, name, [l for l in lines if json.loads(l)["v"] in verdicts], what="texts", extra=[] if c.pid == "C12" else ["plain"])


def lex_check(c, num, size=40):
    exe = c.harness()
    cfg = f"SPECIFICATION Spec\nCONSTANT MaxN = {size}\nCHECK_DEADLOCK FALSE\n"
    lines = c.simulate("LexSim.tla", [("lex", cfg)], num, 2 * size + 20, tag="lex")["lex"]
    c.samples.append({"text": "".join(json.loads(lines[0])["b"])[:300]})
    collect(c, exe, "lex", "lex", lines, what="texts")


def report_check(c, num, quiet=False):
    """Histories of the loggers of two threads."""
    exe = c.harness(quiet=quiet)
    lines = c.simulate("ReportSim.tla", [("rep", cfg(inv=("Adds", "Fits"), NOps=16))], num, 40, tag="rep")["rep"]
    c.samples.append({"history": [[x["t"], x["op"]["o"], x["pr"]["at"], x["e"], x["w"]] for x in json.loads(lines[0])["ops"]]})
    collect(c, exe, "report", "rep", lines, what="histories of reports")


def both(*fs):
    def run(c):
        for f in fs:
            f(c)
            if c.viols:  # an answer is there; what follows could take long on a broken tree
                break
    return run


def cfg(spec="Spec", inv=("Inv",), **consts):
    return (f"SPECIFICATION {spec}\nCONSTANTS\n" + "".join(f"  {k} = {v}\n" for k, v in consts.items())
            + "".join(f"INVARIANT {i}\n" for i in inv) + "CHECK_DEADLOCK FALSE\n")


def types_check(c):
    exe = c.harness()
    for n, (steps, slots, num) in enumerate([(30, 6, c.pick(4000, 40000)), (80, 10, c.pick(500, 5000))]):
        lines = c.simulate("TypeSim.tla", [(f"t{n}", cfg(Steps=steps, Slots=slots))], num, steps + 5, tag=f"t{n}")[f"t{n}"]
        c.samples.append({"history": [(e["op"], e["a"]) for e in json.loads(lines[0])[:12]]})
        collect(c, exe, "types", f"types{n}", lines, what="histories")


def ids_check(c):
    exe = c.harness()
    # the design: every interleaving of atomic creations; and that splitting the step breaks it
    lines = c.model_check("Ids.tla", cfg(inv=("Distinct", "Classes"), Threads=c.pick(2, 3), Each=2, Split=100, Atomic="TRUE"), "ids")
    deep = c.simulate("Ids.tla", [("deep", cfg(inv=("Distinct", "Classes"), Threads=6, Each=12, Split=1000, Atomic="TRUE"))],
                      c.pick(160, 2000), 100)["deep"]
    if c.refute("Ids.tla", cfg(inv=("Distinct",), Threads=2, Each=1, Split=100, Atomic="FALSE"), "idsplit"):
        c.cov["split_counter_refuted"] = True
    else:
        raise ToolError("the specification does not tell atomic counters from split ones")
    c.samples.append({"interleaving": json.loads(deep[0])[:20]})
    lines = c.sample(lines, c.pick(3000, 60000)) + deep
    collect(c, exe, "ids", "ids", lines, what="histories", extra=lambda p: [str(c.pick(60000, 600000) if ".0.nd" in p else 0)])


def pass_check(c):
    exe = c.harness()
    kinds = '{"mobs", "madd", "mdel", "mren", "mrev", "fobs", "fren"}'
    few = c.pick('{"madd", "mdel", "mren", "fren"}', kinds)
    lines = c.model_check("PassMan.tla", cfg(MaxOps=3, MaxPasses=3, MaxFuncs=2, Kinds=few), "pm")
    c.cov["histories_enumerated"] = len(lines)
    deep = c.simulate("PassMan.tla", [("deep", cfg(MaxOps=10, MaxPasses=8, MaxFuncs=5, Kinds=kinds))], c.pick(2000, 20000), 20)["deep"]
    c.samples.append({"history": json.loads(deep[0])[:4]})
    collect(c, exe, "pass", "pass", lines + deep, what="histories")


def driver_check(c):
    exe = c.harness()
    n = 400
    texts = c.simulate("FrontSim.tla", [("texts", front_cfg(6, 0, g=2, f=2, b=3, i=3))], n, 1500, tag="texts")["texts"]
    # many errors in one text
    bad = [l for l in texts if json.loads(l)["v"] == "reject"][:20]
    texts += [json.dumps(dict(json.loads(l), times=30)) for l in bad]
    tf = c.write_lines("texts.nd", texts)
    for k, (th, steps, num) in enumerate([(1, 24, c.pick(1500, 15000)), (3, 40, c.pick(1500, 15000))]):
        lines = c.simulate("DriverSim.tla", [(f"d{k}", cfg(Steps=steps, Threads=th, Texts=len(texts), MaxD=steps // 2))], num, steps + 5,
                           tag=f"d{k}")[f"d{k}"]
        c.samples.append({"history": json.loads(lines[0])[:8]})
        collect(c, exe, "driver", f"driver{k}", lines, what="histories", extra=[tf])


def ext_lib(c, chars=False):
    """The environment that executed programs call."""
    p = os.path.join(c.work, "libext%d.so" % chars)
    r = subprocess.run(["gcc", "-shared", "-fPIC", "-O1", "-fno-builtin", "-o", p, os.path.join(V, "harness", "ext.c")]
                       + (["-DVK_CHARS"] if chars else []), capture_output=True, text=True)
    if r.returncode:
        raise ToolError("gcc: " + r.stderr)
    return p


def recorded(c, name, lines):
    """The records the harness wrote next to its inputs, with the numbers of the lines."""
    recs, k = [], min(len(lines), NCPU)
    for i in range(k):
        p = os.path.join(c.work, f"{name}.{i}.nd.opt")
        if os.path.exists(p):
            for l in open(p):
                j = json.loads(l)
                j["i"] = j["i"] * k + i
                recs.append(j)
    return recs


def opt_traces(c, name, lines, kvmode, most=1000000):
    """Programs that the code under test wrote, checked by the specification: each must be
    well formed and have the meaning that the specification gives to the source."""
    recs = c.sample(recorded(c, name, lines), most)
    if not recs:
        return {}
    keep = ("i", "t", "nl", "out", "ret", "ins", "run")
    p = c.write_lines(name + ".rec", [json.dumps({k: r[k] for k in keep}) for r in recs])
    out = [json.loads(l) for l in c.model_check("OptTrace.tla", cfg(inv=(), File=json.dumps(p), MaxSteps=20000), name + "-tr")]
    if len(out) != len(recs):
        raise ToolError(f"{len(out)} verdicts for {len(recs)} recorded programs")
    by = {r["i"]: r for r in recs}
    c.cov["recorded_outputs_checked_by_the_specification"] = c.cov.get("recorded_outputs_checked_by_the_specification", 0) + len(out)
    return {o["i"]: (o["msg"], {"cmd": "kv " + kvmode, "input": lines[o["i"]], "written": by[o["i"]].get("text", by[o["i"]]["t"]),
                                "source": by[o["i"]].get("src")}) for o in out if o["msg"]}


def examples(c):
    return os.path.join(c.repo_bin(["--examples"]), "examples")


def repaired(c):
    """The examples with the repairs of the recorded findings (/verif/fixed), on the library of
    the current tree.  Only used to tell recorded findings from other failures."""
    if getattr(c, "_repaired", None):
        return c._repaired
    d = os.path.join(c.work, "fx")
    os.makedirs(d)
    shutil.copytree(os.path.join(REPO, "koopa", "examples"), os.path.join(d, "koopa", "examples"))
    r = subprocess.run(["patch", "-p1", "-s", "-f", "-i", os.path.join(V, "fixed", "examples.patch")], cwd=d, capture_output=True, text=True)
    if r.returncode:  # the examples were rewritten: fall back to the repaired ones as a whole
        shutil.rmtree(os.path.join(d, "koopa"))
        shutil.copytree(os.path.join(V, "fixed", "examples"), os.path.join(d, "koopa", "examples"))
        c.cov["examples_rewritten"] = True
    with open(os.path.join(d, "Cargo.toml"), "w") as f:
        f.write('[package]\nname = "fx"\nversion = "0.1.0"\nedition = "2024"\n[workspace]\n'
                f'[dependencies]\nkoopa = {{ path = "{REPO}/koopa" }}\nlibloading = "0.9"\n')
        for n in ("opt", "brainfuck", "interpreter"):
            f.write(f'[[bin]]\nname = "{n}"\npath = "koopa/examples/{n}/main.rs"\n')
    t = os.path.join(V, "target", "fx") if REPO == "/repo" else os.path.join(WORK, "fx")
    c.cargo(["build", "--offline", "--quiet"], d, t,
            extra={"CARGO_PROFILE_DEV_OPT_LEVEL": "1", "CARGO_PROFILE_DEV_DEBUG": "0", "CARGO_INCREMENTAL": "0"})
    c._repaired = os.path.join(t, "debug")
    return c._repaired


def tool_check(c, kvmode, name, lines, extra, traces=None):
    """Runs lines through an example program.  extra(dir) gives the arguments of the harness for
    the example programs in dir.  A failure that the repairs of the recorded findings remove is
    one of those findings; every other failure is a violation."""
    if not lines:
        raise ToolError("nothing was generated")
    exe = c.harness()

    def stage(tag, part, d, count):
        bad, files = {}, c.shards(tag, part)
        tot = c.cov.setdefault("counts", {})
        for i, r in enumerate(c.kv_par(exe, kvmode, files, extra(d))):
            for k, v in r["n"].items() if count else ():
                tot[k] = tot.get(k, 0) + v
            if count:
                c.traces += r["n"].get("programs", 0)
            for f in r["found"]:
                if c.pid in f["props"]:
                    line = part[i::len(files)][f["i"]]
                    bad.setdefault(f["i"] * len(files) + i, (f["msg"], {"cmd": "kv " + kvmode, "text": f.get("text"), "input": line}))
        if traces is not None:
            for i, b in opt_traces(c, tag, part, kvmode, traces if count else 1000000).items():
                bad.setdefault(i, b)
        return bad

    bad = stage(name, lines, examples(c), True)
    if bad and c.known:
        idx = sorted(bad)
        still = stage(name + "-again", [lines[i] for i in idx], repaired(c), False)
        c.cov["failures_of_recorded_findings"] = c.cov.get("failures_of_recorded_findings", 0) + len(idx) - len(still)
        bad = {idx[k]: bad[idx[k]] for k in still}
    for i in sorted(bad):
        c.violation(*bad[i])


def probes(c, kvmode, extra):
    """The recorded inputs of the known findings (/verif/known): one that fails, and does not with
    the repairs, is that finding; one that fails all the same is a violation."""
    exe = c.harness()
    for key in sorted(c.known):
        lines = open(os.path.join(V, "known", f"{c.pid}-{key}.nd")).read().splitlines()

        def fails(tag, d):
            r = c.kv_par(exe, kvmode, c.shards(tag, lines), extra(d))
            bad = [f["msg"] for x in r for f in x["found"] if c.pid in f["props"]]
            if c.pid == "C22":
                bad += [m for m, _ in opt_traces(c, tag, lines, kvmode).values()]
            return bad
        bad = fails("probe-" + key, examples(c))
        if bad:
            c.violation(bad[0], {"cmd": "kv " + kvmode, "input": lines},
                        None if fails("probe2-" + key, repaired(c)) else key)


SMALLX = dict(MaxG=4, MaxF=2, MaxB=5, MaxI=5)
BIGX = dict(MaxG=6, MaxF=4, MaxB=9, MaxI=10)


def exec_cfg(sizes, consts, steps):
    return cfg("XSpec", ("XInv",), Mode='"text"', Damage=0, Spell=0, Reports="FALSE", MaxSteps=steps, Consts=consts, **sizes)


def exec_check(c, what, runs):
    """runs: [(sizes, share of constants, programs)]"""
    exe, lib = c.harness(), ext_lib(c)
    if what == "lli":
        def go(name, lines):
            collect(c, exe, "exec", name, lines, extra=[what, lib, "/usr/bin/lli"])
    else:
        def extra(d):
            return [what, lib, os.path.join(d, {"interp": "interpreter", "opt": "opt"}[what])]

        def go(name, lines):
            tool_check(c, "exec", name, lines, extra, 1000000 if what == "opt" else None)
        probes(c, "exec", extra)
    # the closed forms of long loops, confirmed for short ones by the specification
    if what != "opt":
        loops = c.model_check("LoopSim.tla", cfg(Small="{1, 2, 3, 4, 7, 8, 12}", Large="{30000, 100000}"), "loops")
        loops.sort()
        go("loops", c.sample(loops, c.pick(64, 1000)))
    for n, (sizes, consts, num) in enumerate(runs):
        lines = c.simulate("ExecSim.tla", [(f"x{n}", exec_cfg(sizes, consts, c.pick(1500, 4000)))], num, 1500, tag=f"x{n}")[f"x{n}"]
        j = [json.loads(l) for l in lines]
        done = [x for x in j if x["st"] == "done"]
        c.cov["meanings"] = {k: c.cov.get("meanings", {}).get(k, 0) + sum(x["st"] == k for x in j) for k in ("done", "ub", "long")}
        if len(done) < len(j) // 8:
            raise ToolError("hardly any program runs to its end")
        b = max(done, key=lambda x: len(x["out"]))
        c.samples.append({"program": [" ".join(l) for l in b["lines"]][:60], "calls": b["out"][:10], "result": b["ret"]})
        go(f"x{n}", lines)


def llvm_check(c, runs):
    """runs: [(mode, sizes, programs)]"""
    exe = c.harness()
    for n, (mode, sizes, num) in enumerate(runs):
        name = f"l{n}"
        lines = c.simulate("ProgSim.tla", [(name, prog_cfg(mode, **sizes))], num, 1500, tag=name)[name]
        collect(c, exe, "llvm", name, lines, extra=["/usr/bin/llvm-as"])
        recs = recorded(c, name, lines)
        p = c.write_lines(name + ".rec", [json.dumps({"i": r["i"], "ll": r["ll"]}) for r in recs])
        out = [json.loads(l) for l in c.model_check("LLVMTrace.tla", cfg(inv=(), File=json.dumps(p)), name + "-tr")]
        if not recs or len(out) != len(recs):
            raise ToolError(f"{len(out)} verdicts for {len(recs)} modules")
        for o in out:
            r = recs[o["k"] - 1]
            # constructs the specification does not describe are left to the assembler
            msg = "" if o["msg"].startswith("?") else o["msg"]
            if o["msg"].startswith("?"):
                c.cov["not_described"] = c.cov.get("not_described", 0) + 1
            if r["asm"]:
                msg = (msg + "; " if msg else "") + "the assembler refuses it: " + r["asm"][:300]
            if msg:
                c.violation(msg, {"cmd": "kv llvm", "llvm": r["text"], "input": lines[r["i"]]})
        c.cov["modules_judged"] = c.cov.get("modules_judged", 0) + len(out)
        c.samples.append({"llvm": recs[-1]["text"].splitlines()[:25]})


def bf_check(c):
    lib = ext_lib(c, True)

    def extra(d):
        return [lib, d, "/usr/bin/lli"]
    probes(c, "bf", extra)
    for n, (size, steps, num, most) in enumerate([(25, 600, c.pick(1200, 12000), c.pick(300, 3000)), (6, 300, c.pick(600, 6000), 2000),
                                                  (60, 1500, c.pick(100, 2000), c.pick(20, 300))]):
        lines = c.simulate("BF.tla", [(f"b{n}", cfg(Size=size, MaxSteps=steps))], num, 400, tag=f"b{n}")[f"b{n}"]
        tool_check(c, "bf", f"b{n}", lines, extra, most)
        j = [json.loads(l) for l in lines]
        c.cov["meanings"] = {k: c.cov.get("meanings", {}).get(k, 0) + sum(x["st"] == k for x in j) for k in ("done", "reject", "long", "off")}
        b = max(j, key=lambda x: len(x["out"]) if x["st"] == "done" else 0)
        c.samples.append({"program": "".join(b["s"]), "calls": b["out"][:10]})


def capi_lib(c):
    """The C library of the current tree, and where koopa.h puts things."""
    lib = os.path.join(c.repo_bin(["-p", "libkoopa"]), "libkoopa.so")
    exe, lay = os.path.join(c.work, "layout"), os.path.join(c.work, "layout.txt")
    r = subprocess.run(["gcc", "-o", exe, os.path.join(V, "harness", "raw.c"), "-I" + os.path.join(REPO, "libkoopa", "include")],
                       capture_output=True, text=True)
    if r.returncode:
        raise ToolError("gcc: " + r.stderr)
    with open(lay, "w") as f:
        subprocess.run([exe], stdout=f, check=True)
    return [lay, lib]


def raw_cfg(mode, faults, sizes):
    return cfg("RSpec", (), Mode=json.dumps(mode), NFaults=faults, **sizes)


def raw_check(c, runs, mode="raw", faults=0):
    """runs: [(specification mode, sizes, programs)]"""
    exe, ex = c.harness(), capi_lib(c)
    for n, (m, sizes, num) in enumerate(runs):
        name = f"{mode}{n}"
        lines = c.simulate("RawSim.tla", [(name, raw_cfg(m, faults, sizes))], num, 1500, tag=name)[name]
        j = json.loads(lines[-1])
        c.samples.append({"program": j["text"][:20], "faults": j["faults"][:12]} if faults else {"program": j["text"][:20]})
        if faults:
            c.cov["fault_sites"] = c.cov.get("fault_sites", 0) + sum(json.loads(l)["nf"] for l in lines)
        collect(c, exe, mode, name, lines, extra=ex, what="faults" if faults else "programs")


def capi_check(c, small, deep, long):
    """Histories of calls: all short ones on few texts, and many long ones on many texts.
    small: (texts, handles, builders, raws, length); deep, long: numbers and lengths"""
    exe, ex = c.harness(), capi_lib(c)
    texts = c.simulate("RawSim.tla", [("pool", raw_cfg("text", 0, dict(MaxG=3, MaxF=3, MaxB=5, MaxI=5)))], 120, 1500, tag="pool")["pool"]
    rej = c.simulate("FrontSim.tla", [("rej", front_cfg(5, 0, g=2, f=2, b=3, i=3))], 240, 1500, tag="rej")["rej"]
    rej = [l for l in rej if json.loads(l)["v"] == "reject"][:60]
    if not texts or not rej:
        raise ToolError("no texts")

    def go(name, lines, a, r):
        collect(c, exe, "capi", name, lines, what="histories",
                extra=ex + [c.write_lines(name + ".texts", texts[:a]), c.write_lines(name + ".rej", rej[:r])])
    inv, props = ("Inv",), "PROPERTY Lasting\n"
    lines = c.model_check("CApi.tla", cfg(inv=inv, NA=small[0], NT=small[0] + 1, NP=small[1], NB=small[2], NR=small[3], Steps=small[4],
                                          Vias='{"str"}', Bad="FALSE", Sim="FALSE") + props, "hist")
    c.cov["histories_enumerated"] = len(lines)
    lines.sort()
    go("hist", c.sample(lines, c.pick(8000, 200000)), small[0], 1)
    for n, (num, steps) in enumerate((deep, long)):
        lines = c.simulate("CApi.tla", [(f"h{n}", cfg(inv=inv, NA=len(texts), NT=len(texts) + len(rej), NP=6, NB=3, NR=6, Steps=steps,
                                                       Vias='{"str", "file", "raw", "stdio"}', Bad="TRUE", Sim="TRUE"))],
                           num, steps + 5, tag=f"h{n}")[f"h{n}"]
        c.samples.append({"history": json.loads(lines[0])["h"][:8]})
        go(f"h{n}", lines, len(texts), len(rej))


def scale_check(c, stage):
    """Large texts.  stage: what is done with them"""
    exe = c.harness()
    large, quad = c.pick(30000, 200000), c.pick(1200, 5000)
    lines = c.model_check("Scale.tla", cfg(Small=c.pick("{1, 2, 3, 5}", "{1, 2, 3, 4, 5, 6, 9, 12}"), Large=large, Quad=quad), "scale-" + stage)
    lines.sort(key=lambda l: hash_of(json.loads(l)["nm"]))
    c.cov["large_texts"] = {"schemes": len(lines), "repetitions": large, "stage": stage}
    collect(c, exe, "scale", "scale-" + stage, lines, what="schemes", extra=[stage] + (capi_lib(c) if stage == "raw" else []))


def hash_of(s):
    return zlib.crc32(s.encode())


def names_check(c):
    """Histories of the name manager: TLC makes them, the real one answers, TLC judges."""
    exe = c.harness()
    for n, k, num in ((6, 30, c.pick(8000, 60000)), (12, 90, c.pick(4000, 40000))):
        name = f"nm{n}"
        lines = c.simulate("NameSim.tla", [("n", cfg(inv=(), NEnts=n, NOps=k))], num, k + 5, tag=name)["n"]
        if len(lines) < num // 2:
            raise ToolError("too few histories")
        collect(c, exe, "names", name, lines, what="histories")
        recs = recorded(c, name, lines)
        if len(recs) != len(lines):
            if c.viols:
                return
            raise ToolError(f"{len(recs)} records of {len(lines)} histories")
        p = c.write_lines(name + ".rec", [json.dumps(r) for r in recs])
        out = [json.loads(l) for l in c.model_check("NameTrace.tla", cfg(inv=("Distinct",), File=json.dumps(p)), name + "-tr")]
        if len(out) != len(recs):
            raise ToolError(f"{len(out)} verdicts for {len(recs)} histories")
        by = {r["i"]: r for r in recs}
        c.cov["answers_judged"] = c.cov.get("answers_judged", 0) + sum(len(r["ops"]) for r in recs)
        for o in out:
            if o["msg"]:
                c.violation(f"names: {o['msg']}", {"cmd": "kv names", "input": lines[o["i"]], "answers": by[o["i"]]["ops"]})


def sink_check(c):
    """Every plan of a writer with up to two (three) gates, each with some program."""
    exe = c.harness()
    progs = c.simulate("ProgSim.tla", [("w", prog_cfg("api", g=3, f=3, b=4, i=4))], c.pick(300, 3000), 1500, tag="w")["w"]
    pf = c.write_lines("programs", progs)
    for m, gates, kinds, att in ((12, 1, '{"BrokenPipe", "WouldBlock", "StorageFull", "TimedOut", "UnexpectedEof", "Other"}', 2),
                                 (c.pick(4, 6), 2, '{"BrokenPipe", "WouldBlock"}', 2), (c.pick(2, 3), 3, '{"Other"}', 2), (2, 2, '{"InvalidData"}', 3)):
        name = f"s{m}.{gates}.{att}"
        lines = c.model_check("Sink.tla", cfg(inv=("Inv",), M=m, MaxGates=gates, Kinds=kinds, Attempts=att) + "PROPERTY Ends\n", name)
        lines.sort(key=hash_of)
        collect(c, exe, "sink", name, lines, what="plans", extra=[pf, str(m)])
    c.samples.append({"plan": json.loads(lines[0])})


BIG = dict(g=6, f=6, b=9, i=9)
RAWS = dict(MaxG=4, MaxF=4, MaxB=6, MaxI=6)
CHECKS = {
    "C01": both(lambda c: table_check(c, [("rewrite", 0), ("update", 0)]), lambda c: ir_check(c, ["uses", "remove"], c.pick(300, 3000))),
    "C02": both(lambda c: table_check(c, [("layout", 2), ("layout", 3)]),
                lambda c: ir_check(c, ["layout"], c.pick(600, 5000)), lambda c: ir_check(c, ["pops"], c.pick(100, 500))),
    "C03": both(lambda c: table_check(c, [("typing", 0), ("replace", 0), ("decls", 0)]),
                lambda c: ir_check(c, ["typing", "uses"], c.pick(200, 3000))),
    "C04": both(lambda c: table_check(c, [("remove", c.pick(2, 3))]), lambda c: ir_check(c, ["remove"], c.pick(700, 5000))),
    "C08": lambda c: prog_check(c, [("print", "api", dict(g=4, f=4, b=5, i=6), c.pick(2500, 20000)),
                                    ("print", "rt", BIG, c.pick(600, 6000))]),
    "C09": both(lambda c: prog_check(c, [("rt", "rt", {}, c.pick(3000, 20000)), ("rt", "rt", BIG, c.pick(500, 6000))]),
                lambda c: scale_check(c, "print")),
    "C10": both(lambda c: front_table(c, [(m, 3) for m in ("token", "type", "const", "arity", "cfg", "scope")], ("ok",)),
                lambda c: prog_check(c, [("parse", "text", {}, c.pick(2500, 20000)), ("parse", "text", BIG, c.pick(500, 6000))]),
                lambda c: front_check(c, [(4, 0, {}, c.pick(3000, 30000))]), lambda c: scale_check(c, "front")),
    "C11": both(lambda c: front_table(c, [(m, 3) for m in ("token", "type", "const", "arity", "cfg", "scope")], ("any", "reject")),
                lambda c: front_check(c, [(9, 0, {}, c.pick(9000, 120000)), (9, 0, dict(g=1, f=2, b=6, i=3), c.pick(4000, 60000))])),
    "C12": both(lambda c: front_table(c, [("token", 3)]), lambda c: front_check(c, [(6, 2, dict(g=3, f=3, b=4, i=5), c.pick(1500, 20000)), (10, 0, {}, c.pick(3000, 30000))]),
                lambda c: lex_check(c, c.pick(8000, 80000)), lambda c: scale_check(c, "front")),
    "C29": both(lambda c: report_check(c, c.pick(4000, 40000), quiet=True),
                lambda c: front_table(c, [(m, 3) for m in ("token", "const", "arity", "cfg")], kvmode="quiet"),
                lambda c: front_check(c, [(7, 1, dict(g=3, f=3, b=4, i=5, reports="TRUE"), c.pick(1500, 30000))], kvmode="quiet")),
    "C26": both(lambda c: lex_check(c, c.pick(4000, 80000)), lambda c: report_check(c, c.pick(4000, 40000)),
                lambda c: front_table(c, [(m, 3) for m in ("token", "type", "const", "arity", "cfg", "scope")], kvmode="diag"),
                lambda c: front_check(c, [(9, 0, dict(reports="TRUE"), c.pick(1500, 30000)),
                                          (8, 2, dict(g=3, f=3, b=4, i=5, reports="TRUE"), c.pick(1500, 30000))], kvmode="diag")),
    "C25": both(lambda c: lex_check(c, c.pick(16000, 160000)),
                lambda c: front_check(c, [(1, 1, dict(g=3, f=3, b=4, i=5), c.pick(1500, 15000))])),
    "C14": both(lambda c: front_table(c, [("cfg", c.pick(3, 4))]),
                lambda c: prog_check(c, [("parse", "text", dict(g=1, f=2, b=12, i=1), c.pick(4000, 30000)),
                                         ("parse", "text", dict(g=1, f=1, b=25, i=0), c.pick(400, 4000))])),
    "C15": both(lambda c: llvm_check(c, [("api", dict(g=4, f=4, b=6, i=6), c.pick(1500, 20000)), ("rt", BIG, c.pick(300, 4000))]),
                lambda c: scale_check(c, "llvm")),
    "C16": lambda c: exec_check(c, "lli", [(SMALLX, 3, c.pick(500, 8000)), (BIGX, 3, c.pick(900, 12000))]),
    "C22": lambda c: exec_check(c, "opt", [(dict(SMALLX, MaxG=0), 1, c.pick(700, 8000)), (dict(BIGX, MaxG=0), 2, c.pick(500, 6000)),
                                           (BIGX, 7, c.pick(500, 8000))]),
    "C23": lambda c: exec_check(c, "interp", [(SMALLX, 3, c.pick(900, 10000)), (BIGX, 3, c.pick(1300, 14000))]),
    "C24": bf_check,
    "C17": both(lambda c: raw_check(c, [("text", RAWS, c.pick(800, 10000)), ("api", RAWS, c.pick(400, 5000)), ("text", BIGX, c.pick(200, 3000))]),
                lambda c: capi_check(c, (2, 2, 1, 2, c.pick(5, 7)), (c.pick(400, 6000), 25), (c.pick(100, 1500), 100))),
    "C18": both(lambda c: raw_check(c, [("text", RAWS, c.pick(1200, 10000)), ("api", RAWS, c.pick(1200, 12000)), ("text", BIGX, c.pick(300, 3000))]), lambda c: scale_check(c, "raw")),
    "C19": lambda c: raw_check(c, [("api", RAWS, c.pick(800, 8000)), ("api", dict(MaxG=2, MaxF=1, MaxB=3, MaxI=4), c.pick(400, 4000))], "fault", 60),
    "C20": lambda c: capi_check(c, (1, 2, 1, 1, c.pick(5, 7)), (c.pick(1500, 20000), 25), (c.pick(200, 3000), 120)),
    "C27": names_check,
    "C28": sink_check,
    "C05": ids_check,
    "C06": types_check,
    "C13": driver_check,
    "C21": pass_check,
    "C07": both(lambda c: table_check(c, [("eq", 0)]), lambda c: ir_check(c, ["eq"], c.pick(800, 5000))),
}
