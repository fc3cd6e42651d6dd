#!/usr/bin/env python3
"""Development tool (no check runs it): writes vlib/data/charsets.json.xz, the reference for C14.

For every page: the Python codec that implements the same published mapping, and the reviewed list of codes
(characters) at which bsdconv is meant to differ from it, or, for pages Python does not know, the mapping in full.
The deviations were reviewed by hand when this file was generated; DESIGN.md lists their kinds."""
import json, lzma, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
from vlib import build, driver, charsets
from vlib.driver import hx, un, counters, Crash

t = build.build("asan")


def ask(conv, codes):
    out = []
    cs = [["N 0 " + hx(conv)] + ["O 0 " + hx(b) for b in codes[i:i + 2000]] for i in range(0, len(codes), 2000)]
    for x in driver.run_cases(t, cs):
        assert not isinstance(x, Crash), x.log
        for y in x[1:]:
            a, c = y.split(" ")
            c = counters(c)
            out.append(None if c.get("IERR") or c.get("OERR") else un(a) or b"")
    return out


doc = {"from": {}, "to": {}}
for name, py in charsets.FROM.items():
    codes = charsets.codes(name)
    if name == "CCCII":
        codes += [bytes.fromhex(l.split()[0]) for l in open(os.path.join(build.REPO, "modules/from/CCCII.txt")) if len(l.split()) > 1 and l[0] != "#" and len(l.split()[0]) == 6]
    dev = {}
    same = 0
    for c, x in zip(codes, ask(name + ":UTF-8", codes)):
        x = None if x is None else x.decode("utf-8")
        w = charsets.pydec(py, c)
        if x == w:
            same += x is not None
        else:
            dev[c.hex()] = x
    doc["from"][name] = dev
    print("from", name, py, "same", same, "deviations", len(dev), list(dev.items())[:6])
U = charsets.universe()
for name, py in charsets.TO.items():
    dev = {}
    same = 0
    for c, x in zip(U, ask("UTF-32BE:" + name, [c.to_bytes(4, "big") for c in U])):
        w = charsets.pyenc(py, c)
        if x == w:
            same += x is not None
        else:
            dev["%x" % c] = None if x is None else x.hex()
    doc["to"][name] = dev
    print("to", name, py, "same", same, "deviations", len(dev), list(dev.items())[:6])
p = os.path.join(build.VERIF, "vlib", "data", "charsets.json.xz")
with lzma.open(p, "wt", preset=9) as f:
    json.dump(doc, f, sort_keys=True)
print(os.path.getsize(p))
