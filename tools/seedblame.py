#!/usr/bin/env python3
"""Reports planted bugs whose patch removes lines that /repo's own commits added. Development aid."""
import os, re, subprocess
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
for s in sorted(os.listdir(HERE + "/seeded")):
    f = None; own = orig = 0
    for l in open("%s/seeded/%s/patch.diff" % (HERE, s), errors="replace"):
        if l.startswith("--- a/"): f = l[6:].strip()
        m = re.match(r"@@ -(\d+)", l)
        if m: n = int(m.group(1)); continue
        if l.startswith("-") and not l.startswith("---"):
            b = subprocess.check_output(["git", "-C", "/repo", "blame", "-s", "-L%d,%d" % (n, n), "98c9f43..HEAD", "--", f]).decode()
            if b.startswith("^"): orig += 1
            else: own += 1
            n += 1
        elif l.startswith(" "): n += 1
    print(s, "original lines", orig, "own lines", own)
