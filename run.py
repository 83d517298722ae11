#!/usr/bin/env python3
"""Check driver: contract-based verification of /repo's current sources.

usage: run.py PROPERTY [--tier quick|thorough] [--strict] [--job NAME]

Every run compiles /repo/src from scratch in a temporary directory, lets CBMC
decide every obligation of every job of the property (see spec.py), and maps
the outcome to exit 0 / exit 1 + VIOLATION. See DESIGN.md, "Verdicts".
"""
import argparse
import concurrent.futures as cf
import functools
import json
import os
import re
import resource
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VP_REPO", "/repo")
sys.path.insert(0, os.path.join(HERE, "lib"))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
import inject  # noqa: E402
import spec    # noqa: E402

DEADLINE = 800          # whole check, seconds (limit is 900)
NCPU = 8
INC = ["-I/usr/include/PCSC", "-I" + os.path.join(HERE, "lib"), "-I" + os.path.join(HERE, "lib/config"),
       "-I" + os.path.join(HERE, "harness"), "-I" + os.path.join(REPO, "src")]
REPO_DEF = ["-DEMV_DEBUG_ENABLED", "-D_GNU_SOURCE"]
ALLOC_DEF = ["-Dmalloc=vp_malloc", "-Dfree=vp_free", "-Dcalloc=vp_calloc"]
T0 = time.time()


def left():
    return DEADLINE - (time.time() - T0)


class Tool(Exception):
    """The obligation could not be set up or decided (not a verdict)."""


def limit():
    gb = 14 << 30
    resource.setrlimit(resource.RLIMIT_AS, (gb, gb))


def sh(cmd, timeout, cwd=None, env=None, lim=True):
    t = max(1, min(timeout, left()))
    p = subprocess.Popen(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                         preexec_fn=limit if lim else None, start_new_session=True)
    try:
        out, err = p.communicate(timeout=t)
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9)
        out, err = p.communicate()
        return None, out.decode("utf8", "replace"), err.decode("utf8", "replace")
    return p.returncode, out.decode("utf8", "replace"), err.decode("utf8", "replace")


# ---------------------------------------------------------------- compilation

def src_path(job, name, work):
    """Path of a /repo source, or of its scratch copy with loop contracts."""
    path = os.path.join(REPO, "src", name)
    if not os.path.exists(path):
        raise Tool("source %s not found" % name)
    contracts = job.get("loops", {}).get(name)
    if not contracts:
        return path
    try:
        text = inject.inject(open(path).read(), contracts, job.get("prelude", ""))
    except inject.Mismatch as e:
        raise Tool("loop contracts not applicable: %s" % e)
    out = os.path.join(work, "vpi_" + name)
    with open(out, "w") as f:
        f.write(text)
    return out


def defs(job):
    return ["-D" + d for d in job.get("defines", [])] + (["-DVP_MEM"] if job.get("mem") else [])


def repo_defs(job):
    d = list(REPO_DEF)
    if job.get("alloc"):
        d += ALLOC_DEF
    if job.get("mem"):
        # no decoration by string.h: goto-cc must see plain calls
        d += ["-Dmemcpy=vp_memcpy", "-Dmemset=vp_memset", "-Dmemcmp=vp_memcmp"]
    return d + ["-D" + x for x in job.get("repo_defines", [])]


_defined = None


@functools.lru_cache(None)
def where_defined(fn):
    """Repo source file that defines function fn (textually, column 0)."""
    srcdir = os.path.join(REPO, "src")
    for f in sorted(os.listdir(srcdir)):
        if f.endswith(".c") and f not in ("pcsc.c",):
            text = open(os.path.join(srcdir, f), errors="replace").read()
            if not re.search(r"(?m)^(?:[A-Za-z_].*\b)?%s\s*\(" % re.escape(fn), text):
                continue
            try:
                inject.find_function(text, fn)
                return f
            except inject.Mismatch:
                continue
    return None


def link_goto(job, work, cover):
    """goto-cc harness + runtime + repo sources into one program."""
    extra = ["-DVP_COVER_ON"] if cover else []
    objs = []

    def cc(src, flags, tag):
        out = os.path.join(work, "%s_%s.gb" % (tag, os.path.basename(src)))
        rc, o, e = sh(["goto-cc", "-std=gnu11", "-c", src, "-o", out] + INC + flags, 120)
        if rc != 0:
            raise Tool("goto-cc %s failed:\n%s" % (src, (o + e)[-1500:]))
        return out

    objs.append(cc(os.path.join(HERE, "harness", job["harness"]), extra + defs(job), "h"))
    objs.append(cc(os.path.join(HERE, "lib/vp_rt.c"), extra + defs(job), "r"))
    used = []
    todo = list(job["sources"])
    stubs = set(job.get("stubs", []))
    while True:
        while todo:
            s = todo.pop(0)
            used.append(s)
            objs.append(cc(src_path(job, s, work), repo_defs(job), "s"))
        out = os.path.join(work, "a.gb")
        rc, o, e = sh(["goto-cc", "--function", job["entry"]] + objs + ["-o", out], 120)
        if rc != 0:
            raise Tool("link failed:\n%s" % (o + e)[-1500:])
        # follow references into other repo sources (eg a moved helper)
        rc, o, e = sh(["goto-instrument", "--list-undefined-functions", out], 60)
        for fn in re.findall(r"(?m)^(\w+)$", o):
            if fn.startswith(("__CPROVER", "nondet_", "__builtin")) or fn in stubs:
                continue
            f = where_defined(fn)
            if f and f not in used and f not in todo:
                if job["mode"] == "P" and fn in job.get("replace", []):
                    continue
                todo.append(f)
        if not todo:
            return out, used


CHECKS_OFF = ["--no-standard-checks"]


def reachable(gb):
    """Functions reachable from the entry point of a goto program."""
    rc, o, e = sh(["goto-instrument", "--reachable-call-graph", gb], 60)
    names = set()
    for line in o.splitlines():
        m = re.match(r"(\S+) -> (\S+)$", line)
        if m:
            names.update(m.groups())
    return names


def unwindset(job, gb):
    """unwindset entries; a recursion limit of a function that the program no
    longer has would be refused by cbmc and is left out."""
    us = job.get("unwindset") or {}
    if any("." not in k for k in us):
        names = reachable(gb)
        us = {k: v for k, v in us.items() if "." in k or k in names}
    return us


def cbmc(job, gb, cover, work):
    cmd = ["cbmc", gb, "--json-ui", "--verbosity", "8", "--unwind", str(job["unwind"]), "--drop-unused-functions"]
    us = unwindset(job, gb)
    if us:
        cmd += ["--unwindset", ",".join("%s:%d" % kv for kv in us.items())]
    cmd += job.get("cbmc", [])
    cmd += ["--no-malloc-may-fail"]
    if cover:
        cmd += CHECKS_OFF + ["--no-unwinding-assertions"]
    else:
        cmd += ["--unwinding-assertions", "--trace"]
    if job.get("object_bits"):
        cmd += ["--object-bits", str(job["object_bits"])]
    t = time.time()
    rc, o, e = sh(cmd, ARGS.timeout or job.get("timeout", 600))
    dt = time.time() - t
    if rc is None:
        raise Tool("cbmc timeout after %.0f s" % dt)
    try:
        msgs = json.loads(o)
    except Exception:
        raise Tool("cbmc rc=%s, unreadable output: %s" % (rc, (o + e)[-800:]))
    res = None
    solver = 0.0
    backend = "SAT"
    text = []
    for m in msgs:
        if "result" in m:
            res = m["result"]
        mt = m.get("messageText")
        if mt:
            text.append(mt)
            g = re.match(r"Runtime decision procedure: ([\d.e+-]+)s", mt)
            if g:
                solver += float(g.group(1))
            if mt.startswith(("MiniSAT", "CaDiCaL", "SAT checker", "SMT2", "Passing problem to")):
                backend = mt.strip()
    if res is None:
        raise Tool("cbmc rc=%s gave no result: %s" % (rc, "\n".join(text)[-800:] + e[-300:]))
    return {"result": res, "wall": dt, "solver": solver, "cmd": " ".join(cmd), "text": text, "backend": backend}


def replace_calls(job, gb, work, cover):
    """Replace calls by contract stubs. With "late", the call made by the
    harness is linked in afterwards, so that only the calls made by the code
    under verification (recursion included) are replaced."""
    gb2 = os.path.join(work, "b.gb")
    cmd = ["goto-instrument"]
    for kv in job["replace_calls"].items():
        cmd += ["--replace-calls", "%s:%s" % kv]
    rc, o, e = sh(cmd + [gb, gb2], 300)
    if rc != 0:
        raise Tool("goto-instrument --replace-calls failed:\n%s" % (o + e)[-1500:])
    if job.get("late"):
        lo = os.path.join(work, "late.gb")
        gb3 = os.path.join(work, "c.gb")
        rc, o, e = sh(["goto-cc", "-std=gnu11", "-c", os.path.join(HERE, "harness", job["harness"]), "-DVP_LATE_PART", "-o", lo] + INC + defs(job), 120)
        if rc == 0:
            rc, o, e = sh(["goto-cc", "--function", job["entry"], gb2, lo, "-o", gb3], 120)
        if rc != 0:
            raise Tool("late link failed:\n%s" % (o + e)[-1500:])
        gb2 = gb3
    return gb2, " ".join(cmd)


def run_job(job, root):
    """-> dict(status=ok|fail|tool, ...)"""
    out = {"name": job["name"], "mode": job["mode"], "entry": job["entry"], "status": "ok",
           "obligations": 0, "discharged": 0, "solver_s": 0.0, "wall_s": 0.0, "failed": [],
           "bound": job.get("bound"), "notes": []}
    work = os.path.join(root, job["name"])
    os.makedirs(work, exist_ok=True)
    t = time.time()
    try:
        gb, used = link_goto(job, work, False)
        out["sources"] = used
        if job["mode"] == "P":
            gb2 = os.path.join(work, "b.gb")
            cmd = ["goto-instrument", "--dfcc", job["entry"], "--enforce-contract" if not job.get("rec") else "--enforce-contract-rec", job["enforce"]]
            for r in job.get("replace", []):
                cmd += ["--replace-call-with-contract", r]
            if job.get("loops"):
                cmd += ["--apply-loop-contracts"]
            rc, o, e = sh(cmd + [gb, gb2], 300)
            if rc != 0:
                raise Tool("goto-instrument --dfcc failed:\n%s" % (o + e)[-1500:])
            gb = gb2
            out["instrument_cmd"] = " ".join(cmd)
        if job["mode"] == "I":
            gb, out["instrument_cmd"] = replace_calls(job, gb, work, False)
        r = cbmc(job, gb, False, work)
        out["cmd"] = r["cmd"]
        out["backend"] = r["backend"]
        out["solver_s"] = r["solver"]
        nobody = False
        undec = 0
        for p in r["result"]:
            out["obligations"] += 1
            if p["status"] == "SUCCESS":
                out["discharged"] += 1
            elif p["status"] != "FAILURE":
                undec += 1
            else:
                kind = "unwind" if (".unwind" in p["property"] or ".recursion" in p["property"] or "unwinding assertion" in p.get("description", "")) else \
                    "nobody" if "no-body" in p["property"] else "post"
                nobody = nobody or kind == "nobody"
                loc = p.get("sourceLocation") or {}
                if not loc and p.get("trace"):
                    loc = p["trace"][-1].get("sourceLocation", {})
                out["failed"].append({"property": p["property"], "description": p.get("description", ""),
                                      "kind": kind, "status": p["status"],
                                      "where": "%s:%s %s" % (os.path.basename(loc.get("file", "?")), loc.get("line", "?"), loc.get("function", "")),
                                      "draws": draws(p.get("trace"))})
        out["nobody"] = nobody
        if undec and not out["failed"]:
            raise Tool("%d obligations without verdict (solver gave up)" % undec)
        if out["obligations"] == 0:
            raise Tool("zero obligations generated")
        if out["failed"]:
            out["status"] = "fail"
            if job["mode"] == "I":
                gone = set(job["replace_calls"].values()) - reachable(gb)
                if gone - set(job.get("optional_stubs", [])):
                    # the code no longer calls what the contract abstracts
                    out["status"] = "ok"
                    raise Tool("contract stubs not applicable any more: %s" % ", ".join(sorted(gone)))
        # vacuity guard
        if job.get("cover", True) and not out["failed"]:
            cw = os.path.join(work, "cov")
            os.makedirs(cw, exist_ok=True)
            cgb, _ = link_goto(job, cw, True)
            if job["mode"] == "I":
                cgb, _ = replace_calls(job, cgb, cw, True)
            if job["mode"] == "P":
                cgb2 = os.path.join(cw, "b.gb")
                rc, o, e = sh([x for x in cmd] + [cgb, cgb2], 300)
                if rc != 0:
                    raise Tool("goto-instrument (cover) failed")
                cgb = cgb2
            c = cbmc(job, cgb, True, cw)
            cov = [p for p in c["result"] if p.get("description", "").startswith("COVER ")]
            out["covers"] = {p["description"][6:]: p["status"] == "FAILURE" for p in cov}
            out["solver_s"] += c["solver"]
            if not cov:
                out["notes"].append("no reachability guard")
            bad = [p["description"] for p in cov if p["status"] != "FAILURE"]
            if bad:
                out["notes"].append("VACUOUS: " + ", ".join(bad))
                out["vacuous"] = bad
    except Tool as e:
        if out["status"] != "fail":
            out["status"] = "tool"
        out["notes"].append(str(e))
    out["wall_s"] = round(time.time() - t, 2)
    out["solver_s"] = round(out["solver_s"], 3)
    if not ARGS.keep:
        shutil.rmtree(work, ignore_errors=True)
    return out


def draws(trace):
    """Sequence of nondeterministic choices recorded in a counterexample."""
    if not trace:
        return None
    vals = []
    for s in trace:
        if s.get("stepType") == "assignment" and s.get("lhs") == "vp_rec" and \
                (s.get("sourceLocation") or {}).get("function", "").startswith("vp_draw"):
            v = s.get("value", {})
            if "binary" in v:
                vals.append(int(v["binary"], 2))
            else:
                vals.append(int(re.sub(r"[uUlL]+$", "", v.get("data", "0"))))
    return vals


# ---------------------------------------------------------------- native replay

FLAVOURS = [
    ("gcc-asan-ubsan", ["gcc", "-O1", "-g", "-fsanitize=address,undefined", "-fno-sanitize-recover=all",
                        "-ftrivial-auto-var-init=pattern"]),
    ("gcc-asan-ubsan-zero", ["gcc", "-O1", "-g", "-fsanitize=address,undefined", "-fno-sanitize-recover=all",
                             "-ftrivial-auto-var-init=zero"]),
    ("gcc-plain", ["gcc", "-O2", "-g", "-ftrivial-auto-var-init=pattern"]),
    ("clang-msan", ["clang", "-O1", "-g", "-fsanitize=memory", "-fno-sanitize-recover=all"]),
]


def native_build(job, used, flags, work, tag, extra=()):
    exe = os.path.join(work, "n_" + tag)
    objs = []
    cc = flags[0]
    common = ["-std=gnu11", "-w", "-DVP_NATIVE", "-DVP_ENTRY=" + job["entry"]] + list(extra)

    def comp(src, dd, k, calls=None):
        o = os.path.join(work, "n_%s_%d.o" % (tag, k))
        cfl = [f for f in flags[1:] if f != "-fsanitize=fuzzer"]
        if "-fsanitize=fuzzer" in flags:
            cfl.append("-fsanitize=fuzzer-no-link")
        if calls:
            # the same replacement of calls as in the verified program, on the assembly
            a = o[:-2] + ".s"
            rc, so, se = sh([cc] + cfl + common + INC + dd + ["-fPIC", "-fno-inline", "-fno-optimize-sibling-calls"] +
                            (["-fno-ipa-cp", "-fno-ipa-sra", "-fno-ipa-icf"] if cc == "gcc" else []) + ["-S", src, "-o", a], 120, lim=False)
            if rc != 0:
                raise Tool("native compile failed: %s" % se[-500:])
            text = open(a).read()
            for f, t in calls.items():
                text = re.sub(r"(?m)^(\s*(?:call|jmp)q?\s+)%s(@PLT)?(?=\s|$)" % re.escape(f), r"\g<1>%s@PLT" % t, text)
            open(a, "w").write(text)
            rc, so, se = sh([cc, "-c", a, "-o", o], 60, lim=False)
        else:
            rc, so, se = sh([cc] + cfl + common + INC + dd + ["-c", src, "-o", o], 120, lim=False)
        if rc != 0:
            raise Tool("native compile failed: %s" % se[-500:])
        objs.append(o)

    comp(os.path.join(HERE, "harness", job["harness"]), defs(job), 0)
    if "-fsanitize=fuzzer" in flags:
        sh(["objcopy", "--rename-section", ".data=vpdata", "--rename-section", ".bss=vpbss", objs[0]], 30, lim=False)
    comp(os.path.join(HERE, "lib/vp_rt.c"), defs(job), 1)
    for k, s in enumerate(used):
        comp(os.path.join(REPO, "src", s), repo_defs(job), k + 2, job["replace_calls"] if job["mode"] == "I" else None)
    rc, so, se = sh([cc] + flags[1:] + objs + ["-o", exe], 120, lim=False)
    if rc != 0:
        # functions outside of the program under this contract: calling one discards the run
        und = sorted(set(re.findall(r"undefined reference to `(\w+)'", se)))
        if und:
            c = os.path.join(work, "n_%s_und.c" % tag)
            with open(c, "w") as f:
                f.write("void _exit(int);\n" + "".join("void %s(void) { _exit(77); }\n" % u for u in und))
            rc, so, se = sh([cc, "-w", "-fno-builtin", "-c", c, "-o", c[:-2] + ".o"], 30, lim=False)
            if rc == 0:
                rc, so, se = sh([cc] + flags[1:] + objs + [c[:-2] + ".o", "-o", exe], 120, lim=False)
    if rc != 0:
        raise Tool("native link failed: %s" % se[-500:])
    return exe


NENV = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1",
            UBSAN_OPTIONS="halt_on_error=1:exitcode=99:print_stacktrace=1", MSAN_OPTIONS="exitcode=99")


def native_confirm(job, used, vals, work):
    """Run the recorded choices on the compiled code. -> (flavour, what) or None"""
    rp = os.path.join(work, "replay.txt")
    with open(rp, "w") as f:
        f.write("\n".join(str(v) for v in vals) + "\n")
    env = dict(NENV, VP_REPLAY=rp)
    for tag, flags in FLAVOURS:
        try:
            exe = os.path.join(work, "n_" + tag)
            if not os.path.exists(exe):
                exe = native_build(job, used, flags, work, tag)
        except Tool as x:
            print("  native build (%s): %s" % (tag, x))
            continue
        rc, o, e = sh([exe], 20, env=env, lim=False)
        if rc is None:
            return tag, "does not terminate (20 s)"
        if rc in (0, 77, 78):
            continue
        lines = [l for l in (o + e).splitlines() if "VP:" in l or "ERROR" in l or "runtime error" in l or "WARNING: MemorySanitizer" in l or "Assertion" in l]
        return tag, (lines[0] if lines else "exit %d" % rc)
    return None


def fuzz_search(job, used, secs, work):
    """After a rejected obligation without replayable input: look for one."""
    try:
        exe = native_build(job, used, ["clang", "-O1", "-g", "-fsanitize=fuzzer,address,undefined".split(",")[0]] +
                           ["-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-ftrivial-auto-var-init=pattern"],
                           work, "fuzz", ["-DVP_FUZZ"])
    except Tool as x:
        print("  native build (fuzz): %s" % x)
        return None
    art = os.path.join(work, "crash-")
    rc, o, e = sh([exe, "-max_total_time=%d" % secs, "-seed=%d" % SEED, "-artifact_prefix=" + art, "-timeout=10",
                   "-max_len=4096", "-detect_leaks=0", "-print_final_stats=0"], secs + 30, env=NENV, lim=False)
    for f in os.listdir(work):
        if f.startswith("crash-") and f != "crash-":
            dump = os.path.join(work, "dump.txt")
            sh([exe, os.path.join(work, f)], 30, env=dict(NENV, VP_DUMP=dump), lim=False)
            if os.path.exists(dump):
                return [int(x) for x in open(dump).read().split()]
    return None


# ---------------------------------------------------------------- verdict

def write_replay(pid, kind, job, used, vals, what, failed):
    d = os.path.join(HERE, "replays", pid)
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, "%s.replay" % job["name"])
    with open(path, "w") as f:
        f.write("# property %s, job %s (%s), %s\n" % (pid, job["name"], job["mode"], kind))
        f.write("# %s\n" % what)
        for x in failed[:40]:
            f.write("# failed obligation: [%s] %s (%s) at %s\n" % (x["property"], x["description"], x["status"], x["where"]))
        if vals is not None:
            f.write("# replay: %s/replay.sh %s\n" % (HERE, path))
            f.write("# harness=%s entry=%s sources=%s\n" % (job["harness"], job["entry"], ",".join(used)))
            f.write("# choices, in the order in which the harness draws them:\n")
            f.write("\n".join(str(v) for v in vals) + "\n")
    return path


def do_replay(path):
    text = open(path).read()
    m = re.search(r"^# property (\S+), job (\S+) ", text, re.M)
    src = re.search(r"sources=(\S+)", text)
    vals = [int(l) for l in text.splitlines() if l.strip() and not l.startswith("#")]
    if not src:
        print("no input to replay: the file names a rejected obligation")
        return 2
    job = next(j for j in spec.PROPS[m.group(1)]["jobs"] if j["name"] == m.group(2))
    work = tempfile.mkdtemp(prefix="vp-replay-")
    try:
        c = native_confirm(job, src.group(1).split(","), vals, work)
    finally:
        shutil.rmtree(work, ignore_errors=True)
    print("%s: %s" % c if c else "no failure")
    return 66 if c else 0


def main():
    global ARGS, SEED
    ap = argparse.ArgumentParser()
    ap.add_argument("property", nargs="?")
    ap.add_argument("--replay", help="run the choices of a replay file on the compiled code")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--job")
    ap.add_argument("--strict", action="store_true", help="development: undecided or vacuous jobs exit 3")
    ap.add_argument("--keep")
    ap.add_argument("-v", action="store_true")
    ap.add_argument("--timeout", type=int, help="development: limit per solver run")
    ARGS = ap.parse_args()
    SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
    if ARGS.replay:
        return do_replay(ARGS.replay)
    tier = "thorough" if ARGS.tier == "thorough" else "quick"
    pid = ARGS.property
    prop = spec.PROPS[pid]
    jobs = [dict(j) for j in prop["jobs"] if tier == "thorough" or not j.get("thorough")]
    if ARGS.job:
        jobs = [j for j in jobs if j["name"] == ARGS.job]
    if tier == "thorough":
        for j in jobs:
            j.update(j.get("thorough_args", {}))
    global DEADLINE
    if tier == "thorough":
        DEADLINE = 6 * 3600
    root = ARGS.keep or tempfile.mkdtemp(prefix="vp-%s-" % pid)
    violations = []
    undecided = []
    try:
        jobs.sort(key=lambda j: -j.get("cost", 1))
        with cf.ThreadPoolExecutor(NCPU) as ex:
            results = list(ex.map(lambda j: run_job(j, root), [j for j in jobs if j["mode"] != "F"]))
        byname = {j["name"]: j for j in jobs}
        proof_failed = []
        for r in results:
            job = byname[r["name"]]
            if r["status"] == "tool":
                undecided.append((job, r))
                continue
            if r["status"] != "fail":
                continue
            if job["mode"] in "PI" and not job.get("native"):
                hard = [f for f in r["failed"] if f["kind"] == "post"]
                if hard and not r["nobody"]:
                    proof_failed.append((job, r))
                else:
                    r["notes"].append("undecided: " + ", ".join(f["property"] for f in r["failed"][:5]))
                    undecided.append((job, r))
                continue
            # counterexample: replay against the compiled code
            nw = os.path.join(root, "native_" + job["name"])
            os.makedirs(nw, exist_ok=True)
            confirmed = None
            cands = sorted([f for f in r["failed"] if f["draws"] is not None],
                           key=lambda f: (f["kind"] != "post", not f["description"].startswith("POST"), len(f["draws"])))
            for f in cands[:12]:
                c = native_confirm(job, r["sources"], f["draws"], nw)
                if c:
                    confirmed = (f, c)
                    break
            if confirmed:
                f, c = confirmed
                path = write_replay(pid, "counterexample confirmed on the compiled code (%s)" % c[0], job, r["sources"], f["draws"], c[1], [f] + [x for x in r["failed"] if x is not f])
                violations.append((path, "", "%s: %s [%s] %s" % (job["name"], f["property"], f["description"], c[1])))
                continue
            hard = [f for f in r["failed"] if f["kind"] == "post"]
            if hard and not r["nobody"]:
                proof_failed.append((job, r))
            else:
                r["notes"].append("undecided: " + ", ".join(f["property"] for f in r["failed"][:5]))
                undecided.append((job, r))
        # rejected obligations without a confirmed input: search for one
        if (proof_failed or undecided) and not violations and not ARGS.timeout:
            bjobs = [j for j in jobs if (j["mode"] in "BF" or j.get("native")) and not j.get("nofuzz")]
            per = int(max(5, min(60, (left() - 60) / 2))) if left() > 80 else 0

            def fz(j):
                w = os.path.join(root, "fuzz_" + j["name"])
                os.makedirs(w, exist_ok=True)
                r = next((x for x in results if x["name"] == j["name"]), {})
                used = r.get("sources") or j["sources"]
                vals = fuzz_search(j, used, per, w)
                if vals is None:
                    return None
                c = native_confirm(j, used, vals, w)
                return (j, used, vals, c) if c else None
            if per:
                with cf.ThreadPoolExecutor(NCPU) as ex:
                    for x in ex.map(fz, bjobs):
                        if x:
                            j, used, vals, c = x
                            fl = [f for _, r in proof_failed for f in r["failed"]]
                            path = write_replay(pid, "failing input found by search after a rejected obligation (%s)" % c[0], j, used, vals, c[1], fl)
                            violations.append((path, "", "%s: %s" % (j["name"], c[1])))
        if proof_failed and not violations:
            for job, r in proof_failed:
                hard = [f for f in r["failed"] if f["kind"] == "post"]
                path = write_replay(pid, "rejected obligation", job, r.get("sources", []), None,
                                    "no failing input found; " + r.get("cmd", ""), hard)
                violations.append((path, " no-failing-input-found", "%s: %s [%s]" % (job["name"], hard[0]["property"], hard[0]["description"])))
    finally:
        if not ARGS.keep:
            shutil.rmtree(root, ignore_errors=True)
    wall = time.time() - T0
    write_evidence(pid, prop, tier, jobs, results, violations, undecided, wall)
    for r in results:
        if ARGS.v or r["status"] != "ok" or r["notes"]:
            print("  job %-28s %s %-5s %d/%d obligations, solver %.1fs, wall %.1fs %s" %
                  (r["name"], r["mode"], r["status"], r["discharged"], r["obligations"], r["solver_s"], r["wall_s"], "; ".join(r["notes"])[:600]))
            for f in r["failed"][:8]:
                print("      %s %s: %s at %s" % (f["kind"], f["property"], f["description"], f["where"]))
    if violations:
        for path, suffix, what in violations:
            print("  " + what)
            print("VIOLATION property=%s replay=%s%s" % (pid, path, suffix))
        return 1
    n = sum(r["obligations"] for r in results)
    print("property %s held: %d/%d obligations discharged in %d jobs, %.0f s%s" %
          (pid, sum(r["discharged"] for r in results), n, len(results), wall,
           ("; UNDECIDED jobs: " + ", ".join(j["name"] for j, _ in undecided)) if undecided else ""))
    if results and len(undecided) == len(results):
        print("no obligation of %s could be decided" % pid)
        return 2
    if ARGS.strict and (undecided or any(r.get("vacuous") or r["notes"] for r in results)):
        return 3
    return 0


def write_evidence(pid, prop, tier, jobs, results, violations, undecided, wall):
    byname = {j["name"]: j for j in jobs}
    und = {j["name"] for j, _ in undecided}
    proofs = [r for r in results if not byname[r["name"]].get("bound")]
    bounded = [r for r in results if byname[r["name"]].get("bound")]
    jl = []
    for r in results:
        j = byname[r["name"]]
        jl.append({"job": r["name"], "kind": "contract proof (dfcc)" if j["mode"] == "P" else "modular contract proof (callee contracts)" if j["mode"] == "I" and not j.get("bound") else
                   ("complete harness proof" if not j.get("bound") else "bounded stand-in"),
                   "functions": j.get("functions", [j.get("enforce")] if j.get("enforce") else []),
                   "replaced_by_contract": j.get("replace", []) + sorted(j.get("replace_calls", {})), "stub_contracts": j.get("stubs", []),
                   "bound": j.get("bound"), "status": "undecided" if r["name"] in und else r["status"],
                   "obligations": r["obligations"], "discharged": r["discharged"], "back_end": r.get("backend"),
                   "solver_s": r["solver_s"], "wall_s": r["wall_s"], "reachability_guards": r.get("covers", {}),
                   "cmd": r.get("cmd"), "notes": r["notes"],
                   "failed_obligations": [{k: f[k] for k in ("property", "description", "status", "where")} for f in r["failed"][:20]]})
    cov = {
        "obligations": sum(r["obligations"] for r in proofs),
        "discharged": sum(r["discharged"] for r in proofs),
        "bounded_obligations": sum(r["obligations"] for r in bounded),
        "bounded_discharged": sum(r["discharged"] for r in bounded),
        "checker_cmd": "goto-cc; goto-instrument --dfcc --enforce-contract/--apply-loop-contracts; cbmc --unwinding-assertions (per job: see jobs[].cmd)",
        "trusted_base": ["CBMC 6.11.0 (goto-cc, goto-instrument, cbmc) and its bundled SAT solver",
                         "CBMC's models of memcpy, memset, memcmp, memmove, malloc, free, strlen"],
        "functions_under_contract": sorted({f for j in jobs for f in (j.get("functions") or ([j["enforce"]] if j.get("enforce") else []))}),
        "solver_s": round(sum(r["solver_s"] for r in results), 2),
        "explanation": prop["explanation"] or next((c["level_note"] for c in json.load(open(os.path.join(HERE, "MANIFEST.json")))["checks"] if c["property"] == pid), ""),
        "jobs": jl,
        "undecided_jobs": sorted(und),
    }
    ass = ["emv_debug_internal() only reads its arguments (no-op body during verification)" if not any(j.get("real_debug") for j in jobs) else "emv_debug_internal() is the real one",
           "the memory model of CBMC (flat objects, LP64 little endian) matches the platform"] + prop.get("assumptions", [])
    for j in jobs:
        if j.get("bound"):
            ass.append("bounded, not counted as proved: job %s: %s" % (j["name"], j["bound"]))
    ev = {"property": pid, "tier": tier, "seed": SEED, "level": prop["level"], "coverage": cov, "assumptions": ass,
          "wall_s": round(wall, 2), "violations": len(violations)}
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)


if __name__ == "__main__":
    try:
        sys.exit(main())
    except SystemExit:
        raise
    except Exception:
        import traceback
        traceback.print_exc()
        sys.exit(2)     # no verdict
