#!/usr/bin/env python3
"""the integer, character and string literals of the sources (test modules left out), counted per file.

`literals.py` writes overlay/LITERALS.json from /repo (run on the pinned tree only).  check.py
imports hot() for the literals the current tree has more of than that: the harness tries those
values more often.  It is a dictionary for the generators; nothing is judged by it."""
import json, os, re, sys
from collections import Counter
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TOK = re.compile(r"""//[^\n]*|/\*.*?\*/|b?"(?:\\.|[^"\\])*"|b?'(?:\\x[0-9a-fA-F]{2}|\\.|[^'\\])'|\b[0-9][0-9A-Za-z_]*(?:\.[0-9]+)?""", re.S)
ESC = {"n": 10, "r": 13, "t": 9, "0": 0, "\\": 92, "'": 39, '"': 34}


def unesc(s):
    out = bytearray()
    i = 0
    while i < len(s):
        if s[i] == "\\" and i + 1 < len(s):
            if s[i + 1] == "x" and re.match(r"[0-9a-fA-F]{2}", s[i + 2:i + 4]):
                out.append(int(s[i + 2:i + 4], 16)); i += 4; continue
            if s[i + 1] in ESC:
                out.append(ESC[s[i + 1]]); i += 2; continue
        out += s[i].encode(); i += 1
    return bytes(out)


def lits(text):
    m = re.search(r"#\[cfg\(test\)\]\s*mod ", text)
    if m:
        text = text[:m.start()]
    c = Counter()
    for t in TOK.findall(text):
        if t.startswith("/"):
            continue
        if t[0] in "\"'" or t[0] == "b" and len(t) > 1 and t[1] in "\"'":
            q = t.index('"') if '"' in t[:2] else t.index("'")
            b = unesc(t[q + 1:-1])
            if 0 < len(b) <= 64:
                c["s" + b.hex()] += 1
            if len(b) == 1:
                c["n%d" % b[0]] += 1
            continue
        t = re.sub(r"(u8|u16|u32|u64|usize|i8|i16|i32|i64|isize|u128|i128)$", "", t.replace("_", ""))
        try:
            c["n%d" % int(t, 0 if t[:2] in ("0x", "0b", "0o") else 10)] += 1
        except ValueError:
            pass
    return c


def tree(repo):
    r = {}
    for d, _, fs in os.walk(repo):
        if "/target" in d or "/.git" in d or "/tests" in d:
            continue
        for f in fs:
            if f.endswith(".rs"):
                r[os.path.relpath(os.path.join(d, f), repo)] = lits(open(os.path.join(d, f), errors="replace").read())
    return r


def hot(repo):
    base = json.load(open(V + "/overlay/LITERALS.json"))
    all_ = Counter()
    for f, c in base.items():
        all_.update(c)
    new = []
    for f, c in sorted(tree(repo).items()):
        b = base.get(f, {})
        new += [k for k in sorted(c) if c[k] > b.get(k, 0)]
    return sorted(set(new))


if __name__ == "__main__":
    json.dump({f: dict(sorted(c.items())) for f, c in sorted(tree("/repo").items()) if c}, open(V + "/overlay/LITERALS.json", "w"), indent=0, sort_keys=True)
    print(hot("/repo"))
