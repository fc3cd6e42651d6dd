#!/usr/bin/env python3
"""Development tool (no check runs it): writes vlib/data/ibm.json.xz, the reference for the EBCDIC pages with shifts of C26.

The mapping of every code is bsdconv's; each was compared, when this file was generated, with Java's charset of that page (tools/J.java in
DESIGN.md's description); the differences are the five code choices listed there."""
import json, lzma, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
from vlib import build, driver, charsets
from vlib.driver import hx, un, counters, Crash

t = build.build("plain")


def ask(conv, codes):
    out = []
    cs = [["N 0 " + hx(conv)] + ["O 0 " + hx(b) for b in codes[i:i + 2000]] for i in range(0, len(codes), 2000)]
    for x in driver.run_cases(t, cs):
        assert not isinstance(x, Crash), x.log
        for y in x[1:]:
            a, c = y.split(" ")
            c = counters(c)
            out.append(None if c.get("IERR") or c.get("OERR") else un(a) or b"")
    return out


doc = {}
U = charsets.universe()
for name in ("IBM-930", "IBM-933", "IBM-935", "IBM-937", "IBM-939"):
    one = [bytes([a]) for a in range(256) if a not in (0x0e, 0x0f)]
    two = [bytes([a, b]) for a in range(0x40, 256) for b in range(256)]
    d1 = {c.hex(): x.decode("utf-32-be") for c, x in zip(one, ask(name + ":UTF-32BE", one)) if x is not None}
    d2 = {c.hex(): x.decode("utf-32-be") for c, x in zip(two, ask(name + ":UTF-32BE", [b"\x0e" + c + b"\x0f" for c in two])) if x is not None and len(x) == 4}
    e = {"%x" % u: x.hex() for u, x in zip(U, ask("UTF-32BE:" + name, [u.to_bytes(4, "big") for u in U])) if x is not None}
    # a code is where its character leads, unless it is a duplicate
    dup = [(k, v) for k, v in e.items() if (d1 | d2).get(v.strip("0e0f") if 0 else (v[2:-2] if v.startswith("0e") and v.endswith("0f") and len(v) == 8 else v)) != chr(int(k, 16))]
    print(name, len(d1), len(d2), len(e), "not coming back:", len(dup), dup[:20])
    doc[name] = {"one": d1, "two": d2, "enc": e}
with lzma.open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "vlib", "data", "ibm.json.xz"), "wt", preset=9) as f:
    json.dump(doc, f, sort_keys=True)
