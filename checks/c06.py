"""C06: an initialised instance behaves like a fresh one, whatever was abandoned before."""
from vlib import gen, scale, work
from vlib.driver import Crash, hx, un


def run(ck):
    r = ck.r
    ck.rule = ("each case abandons one or more conversions on an instance at a random point (inside multi-byte characters, escapes, shift states, multi-character matches, with held or partly "
               "drained output, after a flush, after a hand-over), initialises it, resets the counters and converts another input whole or in pieces; bytes and counters must equal those of a "
               "newly created instance, and initialisation alone must leave all counters as they were.  Non-trivial: distinct (conversion, abandoned input, input)")
    ck.assumptions = ["files attached with bsdconv_ctl are outside of the comparison"]
    stats = {}
    for variant, quick, thorough in (("plain", 45000, 400000), ("asan", 12000, 100000)):
        t = ck.tree(variant)
        C = gen.Convs(t, r)
        home = work.Home()
        cases, meta = [], []
        items = []
        for kind in ("from", "inter", "to"):
            for nm in C.m[kind]:
                if (kind, nm) in gen.SKIP:
                    continue
                for k in range(ck.n(6, 30)):
                    a = gen.args_for(r, kind, nm)
                    c = nm + ("#" + a if a else "")
                    cv = {"from": c + r.choice(["", ",BYTE", ",ANY#013F"]) + ":BSDCONV", "inter": "UTF-8,BYTE:" + c + ":BSDCONV", "to": "UTF-8,BYTE:" + c}[kind]
                    mk = (lambda: gen.payload(r, 40)) if kind == "from" else (lambda: gen.rich(r).encode()[:50])
                    items.append((cv, mk(), mk()))
                # every combination of options, with something behind that shows what the codec declined
                va = gen.arg_variants(kind, nm)
                for a in va if len(va) > 1 else va * 4:
                    for _ in range(ck.n(2, 8)):
                        c = nm + ("#" + a if a else "")
                        cv = {"from": c + r.choice([",BYTE", ",ANY#013F"]) + ":BSDCONV", "inter": "UTF-8,BYTE:" + c + r.choice([",ANY#013F", ",FULL,UPPER", ",INSERT#AFTER=0121", ""]) + ":BSDCONV",
                              "to": "UTF-8,BYTE:" + c + r.choice([",ANY#3F", ""])}[kind]
                        mk = (lambda: gen.payload(r, 40)) if kind == "from" else (lambda: gen.rich(r, r.choice([1, 2, 3, 8, 12])).encode()[:50])
                        items.append((cv, mk(), mk()))
        while len(items) < ck.n(quick, thorough):
            if r.random() < 0.7:
                cv, b, _ = gen.paired(r)
                f = cv.split(":")[0].split(",")[-1]
                enc = gen.FROMENC.get(cv.split(":")[0].split(",")[0], "utf-8")
                items.append((cv, b[:60], gen.rich(r).encode(enc, "ignore")[:60] if r.random() < .7 else gen.payload(r, 40)))
            else:
                items.append((C.conv(), gen.payload(r, 60), gen.payload(r, 40)))
        for n in scale.pick(r, 99) * (ck.n(15, 100) if variant == "plain" else 2):
            # a long input abandoned, or a long one after
            cv, b, _ = gen.paired(r)
            if gen.EXPAND.search(cv):
                continue
            enc = gen.FROMENC.get(cv.split(":")[0].split(",")[0], "utf-8")
            x = scale.text(r, n, enc)
            items.append((cv, x, b) if r.random() < 0.7 else (cv, b, x))
        for cv, junk, b in items:
            L = ["N 0 " + hx(cv), "I 0"]
            for n in range(r.choice([1, 1, 2])):
                cut = junk[:r.randrange(len(junk) + 1)] if r.random() < 0.8 else junk
                for c in gen.split(r, cut):
                    m = r.choice("HHAAPQZ")
                    L.append(work.feed(0, m, int(r.random() < 0.03), c, r.choice([1, 2, 5]) if m == "P" else 0, r.choice([0, 1])))
                if r.random() < 0.1:
                    L.append(work.feed(0, "H", 1, None))
                if n == 0:
                    L += ["R 0", "I 0", "R 0"]
                    q = len(L) - 3
                else:
                    L.append("I 0")
                if r.random() < 0.1:
                    L.append("I 0")
            L.append("Z 0 -")
            a = len(L)
            parts = [b] if r.random() < 0.6 else gen.split(r, b)
            for c in parts:
                L.append(work.feed(0, "A", 0, c))
            L.append(work.feed(0, "A", 1, None))
            L += ["R 0", "D 0", "N 1 " + hx(cv), "I 1"]
            e = len(L)
            for c in parts:
                L.append(work.feed(1, "A", 0, c))
            L += [work.feed(1, "A", 1, None), "R 1", "D 1"]
            cases.append(L)
            meta.append((a, e, len(parts) + 1, q))
        n = 0
        for (cv, junk, b), L, x, (a, e, k, q) in zip(items, cases, ck.run(variant, cases, env=home.env(t)), meta):
            if isinstance(x, Crash):
                ck.saw((cv, junk, b))
                ck.crash(x, "%s: %s abandoned, then %s" % (cv, junk.hex(), b.hex()), commands=L)
                continue
            ck.saw((cv, junk, b), x[0].startswith("ok"))
            if not x[0].startswith("ok"):
                continue
            n += 1
            old = b"".join(un(y) for y in x[a:a + k])
            new = b"".join(un(y) for y in x[e:e + k])
            # counters of the old instance may have extra names; values must agree, absent means zero
            if old != new:
                ck.violation("bytes:" + cv, "%s after abandoning %s: %s gives %s, on a fresh instance %s" % (cv, L[2:a], b.hex(), old.hex(), new.hex()), commands=L)
            elif x[a + k] != x[e + k]:
                ck.violation("counters:" + cv, "%s after abandoning %s: %s counts %s, on a fresh instance %s" % (cv, L[2:a], b.hex(), x[a + k], x[e + k]), commands=L)
            if x[q] != x[q + 2]:
                ck.violation("init-counters:" + cv, "%s: initialisation changed the counters from %s to %s" % (cv, x[q], x[q + 2]), commands=L)
        stats["compared_" + variant] = n
        if variant == "plain":
            worn(ck, t, C, home, stats)
        home.done()
        ck.sample(dict(conv=items[-1][0], abandoned=items[-1][1].hex(), input=items[-1][2].hex()))
    ck.cov.update(stats)


def worn(ck, t, C, home, stats):
    """The same after hundreds to tens of thousands of conversions, or of pieces of one abandoned conversion."""
    r = ck.r
    items = []
    for kind in ("from", "inter", "to"):
        for nm in C.m[kind]:
            if (kind, nm) in gen.SKIP:
                continue
            a = gen.args_for(r, kind, nm)
            c = nm + ("#" + a if a else "")
            cv = {"from": c + r.choice(["", ",BYTE", ",ANY#013F"]) + ":BSDCONV", "inter": "UTF-8,BYTE:" + c + ":BSDCONV", "to": "UTF-8,BYTE:" + c}[kind]
            if gen.EXPAND.search(cv):
                continue
            mk = (lambda: gen.payload(r, 12)) if kind == "from" else (lambda: gen.rich(r).encode()[:12])
            items += [(cv, m, k, mk() or b"a", mk()) for m, k in zip("CA", r.sample([129, 257, 300, 513, 1025, 2100], 2))]
    for k in (32769, 65537, 70000) * ck.n(3, 20):
        cv, b, _ = gen.paired(r)
        if not gen.EXPAND.search(cv):
            items.append((cv, r.choice("CCA"), k, b[:8] or b"a", b[:60]))
    cases = [["N 0 " + hx(cv), "I 0", "rep 0 %s %d %s" % (m, k, hx(junk)), "I 0", "Z 0 -", "O 0 " + hx(b), "R 0", "D 0", "N 1 " + hx(cv), "I 1", "O 1 " + hx(b), "R 1", "D 1"]
             for cv, m, k, junk, b in items]
    n = 0
    for (cv, m, k, junk, b), L, x in zip(items, cases, ck.run("plain", cases, env=home.env(t))):
        ck.saw((cv, m, k, junk, b), not isinstance(x, Crash) and x[0].startswith("ok"))
        if isinstance(x, Crash):
            ck.crash(x, "%s: %d times %s (%s), then %s" % (cv, k, junk.hex(), m, b.hex()), commands=L)
        elif x[0].startswith("ok"):
            n += 1
            if x[5:7] != x[10:12]:
                ck.violation("worn:" + cv, "%s after %d times %s (%s): %s gives %s, on a fresh instance %s" % (cv, k, junk.hex(), m, b.hex(), x[5:7], x[10:12]), commands=L)
    stats["worn_instances"] = n
