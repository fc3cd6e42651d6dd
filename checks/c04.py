"""C04: any partition of the input gives the result of the whole."""
from vlib import gen, scale, work
from vlib.driver import Crash, hx, un


def per_piece(cv):
    """conversions whose unit is the piece handed over by design: no decoder, or the pass-through decoder"""
    seg = cv.split("|")[0].split(":")
    return len(seg) < 2 or any(c.split("#")[0].upper() in ("PASS", "SKIP") for c in seg[0].split(","))


def run(ck):
    r = ck.r
    t = ck.tree("plain")
    C = gen.Convs(t, r)
    home = work.Home()
    ck.rule = ("for each (conversion, input): the one-piece result (bytes, counters) against every single split point and byte-by-byte feeding (inputs of up to 24 bytes), "
               "plus random partitions with empty chunks, NULL or data at the flush, caller-owned and library-owned buffers; every codec of every kind is visited, with inputs of up to 70000 bytes too, "
               "stateful phases are favoured.  Non-trivial: a distinct (conversion, input, partition) of a conversion that was created, with at least one boundary inside the input")
    ck.assumptions = ["conversions with BSDCONV-OUTPUT (own stdout) are left out", "conversions without a decoding phase, or with the pass-through decoder PASS in it, take the piece handed over as their unit by design; left out"]
    items = []
    for kind in ("from", "inter", "to"):
        for nm in C.m[kind]:
            if (kind, nm) in gen.SKIP:
                continue
            for k in range(ck.n(4, 20)):
                a = gen.args_for(r, kind, nm)
                c = nm + ("#" + a if a else "")
                cv = {"from": c + r.choice(["", ",BYTE", ",UTF-8", ",ANY#013F"]) + ":BSDCONV", "inter": "UTF-8,BYTE:" + c + ":BSDCONV",
                      "to": "UTF-8,BYTE:" + c}[kind]
                b = gen.payload(r, 40) if kind == "from" else gen.rich(r).encode()[:60]
                items.append((cv, b))
    for e in gen.FROMENC:
        for k in range(ck.n(10, 60)):
            items.append((e + r.choice(["", "", ",BYTE", ",ANY#013F&ERROR"]) + ":" + r.choice(["", "NFC:", "UNIX:", "ZHTW:"]) + r.choice(["UTF-8", "BSDCONV"]), gen.rich(r).encode(gen.FROMENC[e], "ignore")[:60]))
    while len(items) < ck.n(60000, 600000):
        items.append(gen.work_item(C, r, 80))
    # long inputs: every codec once, the decoders of encodings more often
    for kind in ("from", "inter", "to"):
        for nm in C.m[kind]:
            if (kind, nm) in gen.SKIP or gen.EXPAND.search(nm):
                continue
            for n in scale.pick(r, ck.n(1, 8)):
                c = "#".join(filter(None, [nm, gen.args_for(r, kind, nm)]))
                items.append(({"from": c + r.choice(["", ",BYTE", ",ANY#013F&ERROR"]) + ":BSDCONV", "inter": "UTF-8,BYTE:" + c + ":UTF-8,BYTE", "to": "UTF-8,BYTE:" + c + r.choice(["", ",ANY#3F&ERROR"])}[kind], scale.text(r, n)))
    for e in gen.FROMENC:
        for n in scale.pick(r, ck.n(3, 20)):
            items.append((e + r.choice(["", ",BYTE", ",ANY#013F&ERROR"]) + ":" + "".join(x + ":" for x in r.sample(gen.STATEFUL, r.choice([0, 1, 1, 2]))) + r.choice(["UTF-8", "BSDCONV", "GB18030", "JIS", "IBM-930"]), scale.text(r, n, gen.FROMENC[e])))
    items = [i for i in items if not per_piece(i[0])]
    cases, meta = [], []
    for cv, b in items:
        L = ["N 0 " + hx(cv), "O 0 " + hx(b)]
        parts = []
        if len(b) <= 24 and r.random() < 0.6:
            parts += [[b[:i], b[i:]] for i in range(1, len(b))]
        if len(b) > 200:
            parts += [scale.cut(r, b) for _ in range(3)]
        else:
            parts.append([b[i:i + 1] for i in range(len(b))] or [b""])
            for _ in range(4):
                parts.append(gen.split(r, b))
        marks = []
        for p in parts:
            L += ["I 0", "Z 0 -"]
            a = len(L)
            tail = r.choice(["null", "empty", "last"])
            own = r.choice([0, 1])
            for j, c in enumerate(p):
                L.append(work.feed(0, "A", int(tail == "last" and j == len(p) - 1), c, 0, own))
            if tail != "last":
                L.append(work.feed(0, "A", 1, None if tail == "null" else b"", 0, own))
            marks.append((a, len(L), p))
            L.append("R 0")
        L.append("D 0")
        cases.append(L)
        meta.append(marks)
    made = 0
    convs = set()
    for (cv, b), L, x, marks in zip(items, cases, ck.run("plain", cases, env=home.env(t)), meta):
        if isinstance(x, Crash):
            ck.saw((cv, b))
            ck.crash(x, "%s on %s" % (cv, b.hex()), commands=L)
            continue
        if not x[0].startswith("ok"):
            ck.saw(nontrivial=False)
            continue
        made += 1
        convs.add(cv)
        out, cnt = x[1].split(" ")
        for a, e, p in marks:
            ck.saw((cv, b, tuple(p)), len(p) > 1)
            got = b"".join(un(y) or b"" for y in x[a:e])
            if got != un(out):
                ck.violation("bytes:" + cv, "%s on %s: whole gives %s, chunks %s give %s" % (cv, b[:300].hex(), out[:600], [c.hex()[:200] for c in p][:50], got.hex()[:600]),
                             conv=cv, chunks=[c.hex() for c in p], commands=["N 0 " + hx(cv), "O 0 " + hx(b)] + L[a - 2:e + 1])
            elif x[e] != cnt:
                ck.violation("counters:" + cv, "%s on %s: whole counts %s, chunks %s count %s" % (cv, b[:300].hex(), cnt, [c.hex()[:200] for c in p][:50], x[e]),
                             conv=cv, chunks=[c.hex() for c in p], commands=["N 0 " + hx(cv), "O 0 " + hx(b)] + L[a - 2:e + 1])
    home.done()
    ck.sample(dict(conv=items[-1][0], input=items[-1][1].hex()))
    ck.cov.update(inputs=len(items), created=made, distinct_conversions=len(convs))
