"""Mechanical injection of loop contracts into a scratch copy of a source file.

The injected text is added directly after the loop header and nothing else of
the file changes; strip(inject(text)) == text is checked on every run. When the
function or loop cannot be found (because the code was restructured), Mismatch
is raised and the caller falls back to the bounded check.
"""
import re

OPEN = "/*VP<*/"
CLOSE = "/*VP>*/"


class Mismatch(Exception):
    pass


def _mask(text):
    """Same length as text, with comments and literals blanked."""
    out = list(text)
    i, n = 0, len(text)
    while i < n:
        c = text[i]
        if text.startswith("//", i):
            j = text.find("\n", i)
            j = n if j < 0 else j
        elif text.startswith("/*", i):
            j = text.find("*/", i)
            j = n if j < 0 else j + 2
        elif c in "\"'":
            j = i + 1
            while j < n and text[j] != c:
                j += 2 if text[j] == "\\" else 1
            j += 1
        else:
            i += 1
            continue
        for k in range(i, min(j, n)):
            if out[k] != "\n":
                out[k] = " "
        i = j
    return "".join(out)


def _match(m, i, o, c):
    depth = 0
    for k in range(i, len(m)):
        if m[k] == o:
            depth += 1
        elif m[k] == c:
            depth -= 1
            if depth == 0:
                return k
    raise Mismatch("unbalanced " + o)


def find_function(text, name):
    m = _mask(text)
    for f in re.finditer(r"\b%s\s*\(" % re.escape(name), m):
        close = _match(m, f.end() - 1, "(", ")")
        k = close + 1
        while k < len(m) and m[k].isspace():
            k += 1
        if k < len(m) and m[k] == "{" and m[:f.start()].count("{") == m[:f.start()].count("}"):
            return m, k, _match(m, k, "{", "}")
    raise Mismatch("function %s not found" % name)


def loops(text, name):
    """Positions directly after each loop header (in textual order)."""
    m, a, b = find_function(text, name)
    res = []
    dowhile = set()
    for f in re.finditer(r"\b(do|while|for)\b", m[a:b]):
        pos, kw = a + f.start(), f.group(1)
        if kw == "do":
            k = pos + 2
            while m[k].isspace():
                k += 1
            if m[k] != "{":
                raise Mismatch("do without block")
            e = _match(m, k, "{", "}")
            w = re.compile(r"\s*while\s*\(").match(m, e + 1)
            if not w:
                raise Mismatch("do without while")
            dowhile.add(m.index("while", e))
            res.append(("do", pos + 2))
        else:
            if pos in dowhile:
                continue
            k = m.index("(", pos)
            res.append((kw, _match(m, k, "(", ")") + 1))
    return res


def inject(text, contracts, prelude=""):
    """contracts: {function: {ordinal: (kind, clauses)}}"""
    edits = []
    for fn, per in contracts.items():
        ls = loops(text, fn)
        want = per.get("count")
        if want is not None and len(ls) != want:
            raise Mismatch("%s has %d loops, contracts are for %d" % (fn, len(ls), want))
        for ordinal, clause in per.items():
            if ordinal == "count":
                continue
            if ordinal >= len(ls):
                raise Mismatch("%s has no loop %d" % (fn, ordinal))
            edits.append((ls[ordinal][1], clause))
    out = text
    for pos, clause in sorted(edits, reverse=True):
        clause = " ".join(clause.split())
        out = out[:pos] + OPEN + " " + clause + " " + CLOSE + out[pos:]
    if prelude:
        out = OPEN + " " + prelude + " " + CLOSE + out
    if strip(out) != text:
        raise Mismatch("injection changed the source")
    return out


def strip(text):
    return re.sub(re.escape(OPEN) + ".*?" + re.escape(CLOSE), "", text, flags=re.S)
