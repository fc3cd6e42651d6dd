"""C09: shipped tables are executed as written."""
import os
from vlib import gen, scale, tables
from vlib.driver import Crash, hx, un, counters


def units_to_data(key):
    d, cur = [], []
    for u in key:
        if u == tables.SEP:
            d.append(bytes(cur))
            cur = []
        else:
            cur.append(u)
    d.append(bytes(cur))
    return d


def run(ck):
    r = ck.r
    t = ck.tree("asan")
    tabs = tables.table_only(t)
    ck.rule = ("a reader of the table sources (longest listed sequence, else one error / pass-through) predicts output and error counters; inputs are all entries of every table-only codec in random order, "
               "each of a sample of entries alone, and beginnings of entries (those that hold an entry first), random mixtures of entries, cut-off entries, entries with one unit changed, other data and junk, fed whole or in pieces. Distinct: (codec, input)")
    ck.assumptions = ["lines which are not well-formed entries (the 'Source:' headings) are outside the property: data matching what they compile to are not generated"]
    cases, meta = [], []
    per = {}
    total = 0

    def add(kind, name, tab, unit_list, chunked=False):
        """unit_list: bytes for from; list of data otherwise"""
        ins = r.random() < 0.3
        if kind == "from":
            b = unit_list
            out, ierr = tables.decode([tab], b)
            oerr = 0
            conv = name + (":INSERT#AFTER=2C" if ins else "") + ":BSDCONV"
            want = b"".join(x.hex().upper().encode() + (b"2C" if ins else b"") for x in out)
        else:
            d = unit_list
            b = b",".join(x.hex().upper().encode() for x in d)
            ierr = max(0, len(d) - 1)
            if kind == "inter":
                out, oerr = tables.inter([tab], d), 0
                conv = "BSDCONV:" + name + (":INSERT#AFTER=2C" if ins else "") + ":BSDCONV"
                want = b"".join(x.hex().upper().encode() + (b"2C" if ins else b"") for x in out)
            else:
                out, oerr = tables.encode([tab], d)
                conv = "BSDCONV:" + name
                want = b"".join(out)
        if chunked:
            L = ["N 0 " + hx(conv), "I 0"]
            cs = gen.split(r, b)
            for i, c in enumerate(cs):
                L.append("F 0 A %d 1 %s 0" % (i == len(cs) - 1, hx(c)))
            L += ["R 0", "D 0"]
        else:
            L = ["X %s %s" % (hx(conv), hx(b))]
        cases.append(L)
        meta.append((kind, name, conv, b, want, ierr, oerr))

    nmix = ck.n(1000, 12000)
    ncut = ck.n(2000, 100000)
    ncuts = nested = 0

    def cuts(seqs):
        """beginnings of entries, first those that hold an entry themselves: what was listed has to be taken from them, and the rest be read again"""
        have = set(seqs)
        a, b = [], []
        for c in sorted({e[:n] for e in have for n in range(1, len(e))}):
            (a if any(c[:n] in have for n in range(1, len(c) + 1)) else b).append(c)
        r.shuffle(a)
        r.shuffle(b)
        return a[:ncut * 2], b[:ncut]
    for (kind, name), path in sorted(tabs.items()):
        tab = tables.Table.load(path)
        ent = [e[0] for e in tab.entries if not e[2] and -1 not in e[0]]
        if not ent:
            continue
        per[kind + "/" + name] = len(ent)
        total += len(ent)
        if kind == "from":
            pool = [bytes(k) for k in ent if tables.SEP not in k]
            order = pool[:]
            r.shuffle(order)
            for i in range(0, len(order), 64):
                add(kind, name, tab, b"".join(order[i:i + 64]))
            for k in r.sample(pool, min(len(pool), ck.n(40, 1000))):
                add(kind, name, tab, k)
            a, b = cuts(pool)
            nested += len(a)
            ncuts += len(a) + len(b)
            order = a + b
            for i in range(0, len(order), 24):
                add(kind, name, tab, b"".join(x + r.choice([b"", b"\n", b"\xff", b"A", order[r.randrange(len(order))]]) for x in order[i:i + 24]), r.random() < 0.3)
            for far in [None] * nmix + scale.pick(r, ck.n(1, 6), 5000 if r.random() < 0.9 else 10 ** 9):
                p = []
                for _ in range(far or r.choice([1, 2, 3, 6, 12])):
                    e = r.choice(pool)
                    k = r.random()
                    if k < 0.5:
                        p.append(e)
                    elif k < 0.65:
                        p.append(e[:r.randrange(len(e) + 1)])
                    elif k < 0.8:
                        j = r.randrange(len(e))
                        p.append(e[:j] + bytes([r.randrange(256)]) + e[j + 1:])
                    elif k < 0.9:
                        p.append(bytes([r.randrange(256)]))
                    else:
                        p.append(r.choice([b"A", b"\n", b"\x80", b"\xff", b"&", b";", b"0"]))
                add(kind, name, tab, b"".join(p), r.random() < 0.4)
        else:
            pool = [units_to_data(k) for k in ent]
            pool = [d for d in pool if all(len(x) > 0 for x in d)]
            order = pool[:]
            r.shuffle(order)
            for i in range(0, len(order), 64):
                add(kind, name, tab, [x for d in order[i:i + 64] for x in d])
            for d in r.sample(pool, min(len(pool), ck.n(40, 1000))):
                add(kind, name, tab, d)
            a, b = cuts([tuple(d) for d in pool])
            nested += len(a)
            ncuts += len(a) + len(b)
            order = a + b
            for i in range(0, len(order), 24):
                p = []
                for x in order[i:i + 24]:
                    p += list(x) + r.choice([[], [b"\x01\x41"], [b"\x03\xff"], list(r.choice(order))])
                add(kind, name, tab, p, r.random() < 0.3)
            for far in [None] * nmix + scale.pick(r, ck.n(1, 6), 5000 if r.random() < 0.9 else 10 ** 9):
                p = []
                for _ in range(far or r.choice([1, 2, 3, 6, 12])):
                    e = r.choice(pool)
                    k = r.random()
                    if k < 0.5:
                        p += e
                    elif k < 0.65 and len(e) > 1:
                        p += e[:r.randrange(1, len(e))]
                    elif k < 0.8:
                        j = r.randrange(len(e))
                        x = bytearray(e[j])
                        if len(x) > 1:
                            x[r.randrange(1, len(x))] = r.randrange(256)
                        p += e[:j] + [bytes(x)] + e[j + 1:]
                    elif k < 0.9:
                        x = e[r.randrange(len(e))]
                        p.append(x + bytes([r.randrange(256)]) if r.random() < 0.5 or len(x) < 3 else x[:-1])
                    else:
                        p.append(r.choice([b"\x01\x41", b"\x01\x0a", b"\x01\x4e\x00", b"\x01\x01\xf6\x00", b"\x03\xff", b"\x02\x21\x21", b"\x1b\x5b\x6d"]))
                add(kind, name, tab, p, r.random() < 0.4)
    errs = [0, 0]
    for L, x, (kind, name, conv, b, want, ierr, oerr) in zip(cases, ck.run("asan", cases), meta):
        ck.saw((kind, name, b), bool(want))
        if isinstance(x, Crash):
            ck.crash(x, "%s of %s" % (conv, b.hex()), commands=L)
            continue
        if len(x) == 1:
            if x[0].startswith("null"):
                ck.violation("create:%s/%s" % (kind, name), "%s cannot be created (%s)" % (conv, x[0]), commands=L)
                continue
            o, c = x[0].split(" ")
            got, c = un(o), counters(c)
        else:
            got, c = b"".join(un(y) for y in x[2:-2]), counters(x[-2])
        e = (c.get("IERR", 0), c.get("OERR", 0))
        errs[0] += e[0]
        errs[1] += e[1]
        if got != want:
            ck.violation("output:%s/%s" % (kind, name), "%s of %s gives %s, the table says %s" % (conv, b[:300] if kind != "from" else b[:300].hex(), got[:600] if kind != "to" else got[:300].hex(), want[:600] if kind != "to" else want[:300].hex()), commands=L)
        elif e != (ierr, oerr):
            ck.violation("errors:%s/%s" % (kind, name), "%s of %s counts IERR %d OERR %d, the table says %d, %d" % (conv, b[:300] if kind != "from" else b[:300].hex(), e[0], e[1], ierr, oerr), commands=L)
    ck.sample(dict(conv=meta[-1][2], input=repr(meta[-1][3]), expected=repr(meta[-1][4])))
    ck.cov.update(codecs=len(per), entries_executed=total, beginnings_executed=ncuts, beginnings_holding_an_entry=nested, entries_per_codec=per, errors_counted=dict(IERR=errs[0], OERR=errs[1]))
