"""C12: a piped conversion equals its stages run one after the other."""
import re
from vlib import gen, scale, work
from vlib.driver import Crash, hx, un, counters
from .c04 import per_piece


def crossing(st):
    """whitespace taken out by one stage and put back by a later one: they are meant to work together"""
    op = False
    for s in st:
        d = 0
        for x in re.findall("WHITESPACE-(DE|RE)RAIL", s.upper()):
            if x == "DE":
                d += 1
            elif d:
                d -= 1
            elif op:
                return True
        op = op or d > 0
    return False


def singles(ck, t, env):
    """phases that are stages of their own, and stages cut anywhere with PASS at the joints, against the phases in one stage"""
    r = ck.r
    mid = [c for c in gen.STATEFUL if "NF" not in c and c != "KANJI"]       # aliases of several phases cannot stand alone
    cases, meta = [], []
    for _ in range(ck.n(6000, 60000)):
        f = r.choice(list(gen.FROMENC))
        b = gen.rich(r).encode(gen.FROMENC[f], "ignore")[:60]
        if r.random() < 0.15:
            b = gen.payload(r, 40)
        I = ":".join(r.choice(mid) for _ in range(r.choice([1, 1, 2, 3, 5]))).split(":")
        if any("SCORE-TRAIN" in x for x in I):
            continue
        to = r.choice(gen.TOENC)
        one = ":".join([f] + I + [to])
        st, seg = [], [f]
        for i in I + [to]:
            if r.random() < 0.5 or len(st) > 5:
                seg.append(i)
            elif r.random() < 0.5 and i != to:
                st += [":".join(seg + ["PASS"]), i]
                seg = ["PASS"]
            else:
                st.append(":".join(seg + ["PASS"]))
                seg = ["PASS", i]
        st.append(":".join(seg))
        if len(seg) == 1:
            continue
        L = ["X %s %s" % (hx(one), hx(b))]
        lay = []
        for cv in ("|".join([f + ":PASS"] + I + ["PASS:" + to]), "|".join(st)):
            if cv == one:
                continue
            L += ["N 0 " + hx(cv), "I 0"]
            cs = gen.split(r, b)
            a = len(L)
            L += [work.feed(0, "A", int(j == len(cs) - 1), c, 0, r.choice([0, 1])) for j, c in enumerate(cs)]
            lay.append((cv, a, len(L)))
            L += ["R 0", "D 0"]
        cases.append(L)
        meta.append((one, b, lay))
    nz = lambda d: {n: v for n, v in d.items() if v}
    for L, x, (one, b, lay) in zip(cases, ck.run("plain", cases, env=env), meta):
        if isinstance(x, Crash):
            ck.crash(x, "%s on %s" % (one, b.hex()), commands=L)
            continue
        if x[0].startswith("null"):
            continue
        o, c = x[0].split(" ")
        want, cnt = un(o) or b"", nz(counters(c))
        for cv, a, e in lay:
            ck.saw((cv, b), bool(b))
            if not x[a - 2].startswith("ok"):
                ck.violation("joints-create:" + cv, "%s cannot be created (%s) although %s can" % (cv, x[a - 2], one), commands=L)
                continue
            got, k = b"".join(un(y) or b"" for y in x[a:e]), nz(counters(x[e]))
            if (got, k) != (want, cnt):
                ck.violation("joints:" + cv, "%s on %s: %s, counts %s; in one stage, %s: %s, counts %s" % (cv, b.hex(), got.hex(), k, one, want.hex(), cnt), commands=L)
    ck.cov["joints"] = sum(len(m[2]) for m in meta)


def run(ck):
    r = ck.r
    t = ck.tree("plain")
    C = gen.Convs(t, r, bad=0.0)
    home = work.Home()
    ck.rule = ("conversions of 2 to 5 stages, and of up to 65, and on inputs of up to 70000 bytes (random codecs of every kind; stages that decode what the one before encodes, with stateful phases; sometimes deliberately mismatched), run whole on an input given in one "
               "or several pieces, against every stage run alone on the complete output of the one before: same bytes, and each counter is the sum over the stages. Then the first k stages and the rest "
               "as two instances, the output handed over with BSDCONV_PASS piece by piece. Chains of phases are also run with some or all phases as stages of their own, PASS at the joints, against the same phases in one stage. Non-trivial: distinct (conversion, input) with some output of the first stage")
    ck.assumptions = ["stages after the first start with a decoder (PASS as a decoder takes the pieces handed over as its unit and sees their marks)"]
    back = {"UTF-8": ["UTF-8", "UTF-8", "UTF-8,BYTE", "ESCAPE,UTF-8", "HTMLENTITY,UTF-8"], "UTF-16LE": ["UTF-16LE", "UTF-16BE"], "UTF-16BE": ["UTF-16BE"], "UTF-32BE": ["UTF-32BE"],
            "UTF-32LE": ["UTF-32LE"], "BSDCONV": ["BSDCONV", "BSDCONV", "UTF-8", "HEX"], "CP950": ["CP950", "BIG5", "BYTE", "HKSCS2004"], "GB18030": ["GB18030", "GBK"],
            "JAVA,ASCII": ["ESCAPE,ASCII"], "URL": ["ESCAPE"], "HTMLENTITY,ASCII": ["HTMLENTITY,ASCII", "UTF-8"], "JIS": ["JIS"], "IBM-930,IBM-37": ["IBM-930,IBM-37"], "IBM-935": ["IBM-935"],
            "NAMED-HTMLENTITY,UTF-8": ["NAMED-HTMLENTITY,UTF-8"], "SHIFT-JIS": ["SHIFT-JIS", "CP932"], "CP949": ["CP949"], "RAW": ["UTF-8", "BYTE", "UTF-16BE"], "HEX": ["HEX", "BSDCONV"],
            "ASCII,3F": ["ASCII"], "BYTE": ["UTF-8"], "UTF-8,BYTE": ["UTF-8,BYTE", "CP950,BYTE"]}

    flat = ["UTF-8", "UTF-16LE", "UTF-16BE", "UTF-32BE", "UTF-32LE", "CP950", "GB18030", "UTF-8,BYTE"]

    def stages(n=None, size=60):
        many = n
        n = n or r.choice([2, 2, 2, 2, 3, 3, 4, 5])
        f = r.choice(list(gen.FROMENC))
        b = gen.rich(r).encode(gen.FROMENC[f], "ignore")[:60]
        while len(b) < size and size > 60:
            b += gen.rich(r).encode(gen.FROMENC[f], "ignore") * (size // 2000 + 1)
        if r.random() < 0.2 and size == 60:
            b = gen.payload(r, 40)
        st = []
        fr = f + r.choice(["", "", "", ",BYTE", ",ANY#013F&ERROR"])
        for k in range(n):
            if r.random() < 0.12 and not many:
                s = C.segment()
                to = None
            else:
                ph = [fr]
                for _ in range(r.choice([0, 0, 1, 1, 2])):
                    ph.append(r.choice(gen.STATEFUL))
                to = r.choice(flat if many else list(back))
                ph.append(to)
                s = ":".join(ph)
            st.append(s)
            fr = r.choice(back[to]) if to and r.random() < 0.92 else r.choice(["UTF-8,BYTE", "UTF-8", "GB18030", "JIS", "ESCAPE,BYTE", "UTF-16LE", "BSDCONV"])
        return st, b

    items = []
    n = ck.n(40000, 400000)
    # many stages, long inputs
    extra = [(k, r.choice([60, 60, 500])) for k in [8, 12, 15, 16, 17, 20, 31, 32, 33, 40, 64, 65] * ck.n(6, 60)] + [(r.choice([2, 3, 4]), k) for k in scale.pick(r, ck.n(14, 99)) * ck.n(2, 20)]
    while len(items) < n + len(extra):
        st, b = stages(*extra[len(items) - n]) if len(items) >= n else stages()
        if any("SCORE-TRAIN" in s.upper() for s in st) or crossing(st):
            continue
        if len(gen.EXPAND.findall("|".join(st))) > 1 or any(per_piece(s) for s in st[1:]) or per_piece(st[0]):
            continue
        items.append((st, b))
    env = home.env(t)
    # the stages alone
    cur = [b for _, b in items]
    sums = [{} for _ in items]
    alive = [True] * len(items)
    outs1 = [None] * len(items)
    cuts = {}
    for k in range(max(len(st) for st, _ in items)):
        idx = [i for i, (st, _) in enumerate(items) if alive[i] and k < len(st)]
        if not idx:
            break
        cs = [["X %s %s" % (hx(items[i][0][k]), hx(cur[i]))] for i in idx]
        for i, L, x in zip(idx, cs, ck.run("plain", cs, env=env)):
            if isinstance(x, Crash):
                ck.crash(x, "%s of %s" % (items[i][0][k], cur[i].hex()), commands=L)
                alive[i] = False
                continue
            if x[0].startswith("null"):
                alive[i] = False
                continue
            o, c = x[0].split(" ")
            cur[i] = un(o)
            if k == 0:
                outs1[i] = cur[i]
            for a, v in counters(c).items():
                sums[i][a] = sums[i].get(a, 0) + v
            if len(cur[i]) > (20000 if i < n else 2000000):
                alive[i] = False
    cases, meta = [], []
    for i, (st, b) in enumerate(items):
        if not alive[i]:
            ck.saw(nontrivial=False)
            continue
        cv = "|".join(st)
        L = ["X %s %s" % (hx(cv), hx(b)), "N 0 " + hx(cv), "I 0"]
        cut = lambda: gen.split(r, b) if len(b) < 3000 else [b[q:q + 3777] for q in range(0, len(b), 3777)]
        cs = cut()
        a = len(L)
        for j, c in enumerate(cs):
            L.append(work.feed(0, "A", int(j == len(cs) - 1), c, 0, r.choice([0, 1])))
        e = len(L)
        L += ["R 0", "D 0"]
        k = r.randrange(1, len(st))
        L += ["N 1 " + hx("|".join(st[:k])), "N 2 " + hx("|".join(st[k:])), "I 1", "I 2"]
        h = len(L)
        cs2 = cut()
        for j, c in enumerate(cs2):
            last = j == len(cs2) - 1
            L.append(work.feed(1, "S", int(last), c, 2, r.choice([0, 1])))
            L.append("k 2 A %d" % last)      # the receiver runs before it is handed more
        he = len(L)
        L += ["R 1", "R 2", "D 2", "D 1"]
        cases.append(L)
        meta.append((i, cv, b, a, e, h, he, k))
    depth = {}
    errs = 0
    for L, x, (i, cv, b, a, e, h, he, k) in zip(cases, ck.run("plain", cases, env=env), meta):
        ck.saw((cv, b), bool(outs1[i]))
        depth[len(items[i][0])] = depth.get(len(items[i][0]), 0) + 1
        if isinstance(x, Crash):
            ck.crash(x, "%s on %s" % (cv, b.hex()), commands=L)
            continue
        want, cnt = cur[i], {n: v for n, v in sums[i].items() if v}
        errs += cnt.get("IERR", 0) + cnt.get("OERR", 0)

        def cmp(what, got, c):
            c = {n: v for n, v in c.items() if v}
            if got != want:
                ck.violation("bytes:%s:%s" % (what, cv), "%s on %s, %s: %s; its stages one after the other give %s" % (cv, b.hex(), what, got.hex(), want.hex()), commands=L)
            elif c != cnt:
                ck.violation("counters:%s:%s" % (what, cv), "%s on %s, %s: counts %s; its stages one after the other %s" % (cv, b.hex(), what, c, cnt), commands=L)
        if x[0].startswith("null"):
            ck.violation("create:" + cv, "%s cannot be created although each of its stages can" % cv, commands=L)
            continue
        o, c = x[0].split(" ")
        cmp("whole", un(o), counters(c))
        cmp("pieces", b"".join(un(y) or b"" for y in x[a:e]), counters(x[e]))
        got = b"".join(un(y) or b"" for y, l in zip(x[h:he], L[h:he]) if l.startswith("k "))
        c = counters(x[he])
        for n, v in counters(x[he + 1]).items():
            c[n] = c.get(n, 0) + v
        cmp("handed-over", got, c)
    singles(ck, t, env)
    home.done()
    ck.sample(dict(conv=meta[-1][1], input=meta[-1][2].hex(), result=cur[meta[-1][0]].hex(), counters=sums[meta[-1][0]]))
    ck.cov.update(by_stages=depth, errors_compared=errs)
