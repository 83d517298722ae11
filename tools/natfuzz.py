#!/usr/bin/env python3
"""natfuzz.py SECONDS [JOB...]: searches each modular job for an input on which the compiled code
and its contract disagree. Finds nothing on a correct tree; shows when a harness misbehaves natively."""
import os, sys, tempfile, concurrent.futures as cf
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
secs = int(sys.argv[1]); sel = sys.argv[2:]
sys.argv = [sys.argv[0]]
import run, spec
run.SEED = 1
mode = os.environ.get("MODES", "I")
def one(a):
    pid, j = a
    w = tempfile.mkdtemp(prefix="natfuzz_")
    try:
        v = run.fuzz_search(j, j["sources"], secs, w)
        c = run.native_confirm(j, j["sources"], v, w) if v is not None else None
    except Exception as x:
        v, c = None, repr(x)
    import shutil; shutil.rmtree(w)
    return pid, j["name"], v is not None, c
jobs = [(p, j) for p, d in spec.PROPS.items() for j in d["jobs"] if j["mode"] in mode and (not sel or j["name"] in sel or p in sel)]
with cf.ThreadPoolExecutor(8) as ex:
    for r in ex.map(one, jobs):
        print(*r, flush=True)
