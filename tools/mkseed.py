#!/usr/bin/env python3
"""mkseed.py ID PROPERTY: reads an edit description from stdin (JSON: edits
[[file, old, new]...], needs, what_it_breaks, demo C text) and, after confirming in
a scratch copy that it builds, passes the stable tests and that the demonstration
tells the two apart, writes seeded/ID. Development aid, not used by any check."""
import json, os, shutil, subprocess, sys, tempfile
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sid, prop = sys.argv[1:3]
d = eval(sys.stdin.read())
w = "/tmp/mkseed_" + sid
shutil.rmtree(w, ignore_errors=True)
os.makedirs(w)
r = w + "/repo"
subprocess.check_call(["git", "clone", "-q", "/repo", r])
out = os.path.join(HERE, "seeded", sid)
os.makedirs(out, exist_ok=True)
with open(out + "/demo.c", "w") as f:
    f.write(d["demo"])
with open(out + "/demo.sh", "w") as f:
    f.write('''#!/bin/bash
# cwd: the repository, built. exit 0: behaves as the property says.
here=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 2
trap 'rm -rf "$t"' EXIT
gcc -g -w -fsanitize=address,undefined -fno-sanitize-recover=all %s -Isrc -I_build/src "$here/demo.c" %s \\
	-Wl,--start-group _build/src/libemv_strings.a _build/src/libemv.a _build/src/libiso7816.a _build/src/libiso8825.a _build/src/libiso8859.a -Wl,--end-group \\
	%s -o "$t/demo" || exit 2
ASAN_OPTIONS=detect_leaks=0 timeout 60 "$t/demo"
''' % (d.get("cflags", ""), " ".join("src/" + x for x in d.get("srcs", [])), d.get("libs", "-lboost_locale -lstdc++ -ljson-c" if d.get("strings") else "-lboost_locale -lstdc++")))
os.chmod(out + "/demo.sh", 0o755)

def build():
    b = r + "/_build"
    subprocess.check_call("cd %s && { [ -f %s/build.ninja ] || cmake -S . -B %s -G Ninja -DCMAKE_BUILD_TYPE=Debug -DBUILD_TESTING=ON -DCMAKE_DISABLE_FIND_PACKAGE_Qt5=ON -DCMAKE_DISABLE_FIND_PACKAGE_Qt6=ON -DFETCH_ARGP=OFF -DFETCHCONTENT_FULLY_DISCONNECTED=ON -DCMAKE_PROJECT_emv-utils_INCLUDE=/opt/vp/missing-mcc.cmake -DMCC_JSON_BUILD_PATH=%s/mcc-codes/mcc_codes.json -DMCC_JSON_INSTALL_PATH=/usr/local/share/emv-utils/mcc_codes.json; } >/dev/null 2>&1 && ninja -C %s >/tmp/mkseed_%s/log 2>&1" % (r, b, b, b, b, sid), shell=True, env=dict(os.environ, CC="gcc", CXX="g++"))

def demo():
    return subprocess.call(["bash", out + "/demo.sh"], cwd=r)

build()
a = demo()
for f, old, new in d["edits"]:
    p = r + "/" + f
    s = open(p).read()
    assert s.count(old) == 1, (f, old, s.count(old))
    open(p, "w").write(s.replace(old, new))
build()
b = demo()
junit = w + "/j.xml"
subprocess.call(["ctest", "--test-dir", r + "/_build", "-j8", "--timeout", "100", "--output-junit", junit], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
import xml.etree.ElementTree as ET
passed = {t.get("name") for t in ET.parse(junit).getroot().iter("testcase") if t.get("status") == "run" and t.find("failure") is None}
stable = json.load(open("/opt/vp/BASELINE.json"))["stable"]
miss = [s for s in stable if not any(s == p or s.endswith(p) or s.split("::")[-1] == p for p in passed)]
diff = subprocess.check_output(["git", "-C", r, "diff"]).decode()
open(out + "/patch.diff", "w").write(diff)
json.dump({"property": prop, "needs": d["needs"], "what_it_breaks": d["what_it_breaks"]}, open(out + "/meta.json", "w"), indent=1)
shutil.rmtree(w)
ok = a == 0 and b != 0 and not miss
print(sid, prop, "OK" if ok else "BAD", "unchanged:%d patched:%d missing tests:%s" % (a, b, miss))
if not ok:
    shutil.rmtree(out)
    sys.exit(1)
