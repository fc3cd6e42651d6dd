"""C19: codecs that edit the stream as their arguments say."""
from collections import Counter
from vlib import filters, gen, scale, uni
from vlib.driver import Crash, hx, un, counters

U = [b"\x01" + uni.be(c) for c in (0x41, 0x42, 0x43, 0x20, 0x0a, 0x7e, 0x7f, 0xe9, 0x3b1, 0x4e00, 0x6f22, 0x3042, 0xac00, 0x1f600, 0x20000, 0xe000, 0x2029)]
OTHER = [b"\x03\x41", b"\x03\x81", b"\x03\xff", b"\x03\x00", b"\x1b\x5b\x31\x6d", b"\x1b\x41", b"\x02\x21\x21", b"\x00\x41", b"\x04\x01\x02", b"\x01", b"\x03", b"\x01\x41\x42", b"\x07" * 40]
FILT = ["CJK", "UNICODE", "BYTE", "ANSI", "LATIN", "PRINT", "HANGUL", "1", "03", "HIRAGANA", "ROMAN", "PUA", "CNS11643", "EMOTICON"]


def hexl(ds):
    return ".".join(d.hex().upper() for d in ds)


# ---- models: each takes a list of data and returns a list of data; counters are added to cnt
def insert(seq, before, after):
    return [x for d in seq for x in before + [d] + after]


def replace(seq, a, b):
    out, i = [], 0
    while i < len(seq):
        if seq[i:i + len(a)] == a:
            out += b
            i += len(a)
        else:
            out.append(seq[i])
            i += 1
    return out


def strings(seq, f, n, before, after):
    out, run = [], []
    for d in seq + [None]:
        if d is not None and filters.admits(f, d):
            run.append(d)
        else:
            if run and len(run) >= n:
                out += before + run + after
            run = []
    return out


def passing(seq, f, limit):
    """(data, passed) for each"""
    out, n = [], 0
    for d in seq:
        ok = f is None or filters.admits(f, d)
        if ok and limit:
            if n < limit:
                n += 1
            else:
                ok = False
        out.append((d, ok))
    return out


def defrag(seq):
    out, lead, q = [], None, []
    for d in seq:
        if lead is None:
            if len(d) > 1 and d[0] == 3 and d[1] > 0x7f:
                lead = d
            else:
                out.append(d)
        elif d[0] == 0x1b:
            q.append(d)
        else:
            out += [lead, d] + q
            lead, q = None, []
    if lead is not None:
        out += [lead] + q
    return out


def gen_phase(r, alpha, cnt):
    """(phase text, model)"""
    def L(lo, hi):
        return [r.choice(alpha) for _ in range(r.randrange(lo, hi + 1))]
    k = r.choice(["INSERT", "REPLACE", "REPLACE", "STRINGS", "STRINGS", "PASS", "PASS", "COUNT", "COUNT", "INSERT", "BIG5-DEFRAG"] + ["NULL"] * (r.random() < 0.2))
    case = lambda s: "".join(r.choice([c, c.lower()]) for c in s)
    f = r.choice(FILT)
    if k == "INSERT":
        b, a = L(0, 3), L(0, 3)
        args = [case("BEFORE") + "=" + hexl(b)] * bool(b) + [case("AFTER") + "=" + hexl(a)] * bool(a)
        r.shuffle(args)
        return case("INSERT") + ("#" + "&".join(args) if args else ""), lambda s: insert(s, b, a)
    if k == "REPLACE":
        a, b = L(1, 4), L(0, 3)
        if r.random() < 0.4:
            a = [a[0]] * r.randrange(1, 4) + a[1:2]           # overlapping with itself
        return case("REPLACE") + "#" + hexl(a) + ("=" + hexl(b) if b or r.random() < 0.3 else ""), lambda s: replace(s, a, b)
    if k == "STRINGS":
        args, fl, n, b, a = [], "PRINT", 1, [], [b"\x01\x0a"]
        if r.random() < 0.7:
            fl = f
            args.append("FOR=" + case(f))
        if r.random() < 0.6:
            n = r.choice([0, 1, 2, 3, 4, 7, -1])
            args.append(case("MIN-LEN") + "=%d" % n)
        if r.random() < 0.5:
            b = L(1, 2)
            args.append("BEFORE=" + hexl(b))
        if r.random() < 0.5:
            a = L(0, 2)
            args.append("AFTER" + ("=" + hexl(a) if a else ""))
        r.shuffle(args)
        return "STRINGS" + ("#" + "&".join(args) if args else ""), lambda s: strings(s, fl, n, b, a)
    if k == "PASS":
        args, fl, lim = [], None, 0
        if r.random() < 0.7:
            fl = f
            args.append("FOR=" + case(f))
        if r.random() < 0.6:
            lim = r.choice([0, 1, 2, 3, 7, 50])
            args.append(case("LIMIT") + "=%d" % lim)
        r.shuffle(args)
        me = "PASS" + ("#" + "&".join(args) if args else "")
        nxt = r.choice(["", "NULL", "REPLACE", "PASS", "INSERT"])
        if nxt == "":
            return me, lambda s: list(s)
        if nxt == "NULL":
            return me + ",NULL", lambda s: [d for d, ok in passing(s, fl, lim) if ok]
        if nxt == "INSERT":
            b = L(1, 2)
            return me + ",INSERT#BEFORE=" + hexl(b), lambda s: [x for d, ok in passing(s, fl, lim) for x in ([d] if ok else b + [d])]
        if nxt == "REPLACE":
            a, b = r.choice(alpha), L(0, 2)
            return me + ",REPLACE#" + hexl([a]) + "=" + hexl(b), lambda s: [x for d, ok in passing(s, fl, lim) for x in (b if not ok and d == a else [d])]
        f2, l2 = r.choice(FILT), r.choice([0, 1, 3])

        def two(s):
            first = passing(s, fl, lim)
            rest = iter(passing([d for d, ok in first if not ok], f2, l2))
            return [d for d, ok in first if ok or next(rest)[1]]
        return me + ",PASS#FOR=%s&LIMIT=%d,NULL" % (f2, l2), two
    if k == "COUNT":
        fl = f if r.random() < 0.7 else None
        key = r.choice(["COUNT", "FOO", "BAR", "IERR2"])
        args = (["FOR=" + case(f)] if fl else []) + ([key] if key != "COUNT" else [])
        r.shuffle(args)

        def count(s):
            cnt[key] += sum(fl is None or filters.admits(fl, d) for d in s)
            return list(s)
        return "COUNT" + ("#" + "&".join(args) if args else ""), count
    if k == "BIG5-DEFRAG":
        return k, defrag
    return "NULL", lambda s: []


def run(ck):
    r = ck.r
    ck.rule = ("random chains of one to three editing phases with random arguments over a small alphabet of data of all types (so that replaced sequences, runs and limits meet), whole and in pieces; the catch-all codecs with every kind of argument on "
               "text with undecodable bytes and unencodable characters; marks across stages; refused arguments. Oracle: list models written here. Distinct: (conversion, data, pieces)")
    cov = {"phases": Counter(), "changed": 0, "replaced": 0, "any": 0, "marked": 0, "refused": 0}
    cases, meta = [], []
    for _ in range(ck.n(8000, 120000)):
        alpha = r.sample(U, r.randrange(2, 6)) + r.sample(OTHER, r.randrange(0, 4))
        alpha = [d for d in alpha if d]
        cnt = Counter()
        ph = [gen_phase(r, alpha, cnt) for _ in range(r.choice([1, 1, 2, 3]))]
        conv = "BSDCONV:%s:INSERT#AFTER=2C:BSDCONV" % ":".join(p for p, _ in ph)
        L = ["N 0 " + hx(conv)]
        lay = []
        for _ in range(8):
            seq = [r.choice(alpha) for _ in range(r.choice([0, 1, 2, 4, 8, 20, 50]))]
            cnt.clear()
            w = list(seq)
            for _, m in ph:
                w = m(w)
            inp = b",".join(d.hex().upper().encode() for d in seq)
            cs = [inp] if r.random() < 0.4 else gen.split(r, inp)
            L += ["Z 0 -", "I 0"]
            a = len(L)
            L += ["F 0 A %d 1 %s 0" % (j == len(cs) - 1, hx(c)) for j, c in enumerate(cs)]
            z = len(L)
            for k in ("COUNT", "FOO", "BAR", "IERR2"):
                L.append("G 0 " + hx(k))
            lay.append((seq, w, dict(cnt), a, z, tuple(cs)))
        cases.append(L)
        meta.append((conv, ph, lay))
    for L, x, (conv, ph, lay) in zip(cases, ck.run("asan", cases), meta):
        names = "+".join(sorted({p.split("#")[0].split(",")[0].upper() for p, _ in ph}))
        if isinstance(x, Crash):
            ck.crash(x, conv, commands=L)
            continue
        if not x[0].startswith("ok"):
            ck.violation("create:" + names, "%s cannot be created: %s" % (conv, x[0]), commands=L[:1])
            continue
        for p, _ in ph:
            cov["phases"][p.split("#")[0].upper()] += 1
        for seq, w, cnt, a, z, cs in lay:
            g = (b"".join(un(y) or b"" for y in x[a:z])).decode("latin-1")
            ws = "".join(d.hex().upper() + "2C" for d in w if d)
            ck.saw((conv, tuple(seq), cs), w != seq)
            cov["changed"] += w != seq
            if g != ws:
                ck.violation("edit:" + names, "%s on %s gives %s, not %s" % (conv, hexl(seq), g[:300], ws[:300]), commands=L[:1] + L[a - 2:z])
            for k, y in zip(("COUNT", "FOO", "BAR", "IERR2"), x[z:z + 4]):
                if int(y.split()[-1]) != cnt.get(k, 0):
                    ck.violation("count", "%s on %s counts %s %s, not %d" % (conv, hexl(seq), k, y, cnt.get(k, 0)), commands=L[:1] + L[a - 2:z + 4])

    big(ck, r, cov)

    # ---- catch-all codecs
    cases, meta = [], []
    for _ in range(ck.n(800, 20000)):
        data = [r.choice(U + OTHER[:7]) for _ in range(r.randrange(1, 4))]
        form = r.choice(["", "list", "drop"])
        err = r.choice([None, "ERROR", "ERROR=FOO", "error=IERR", "ERROR=OERR"])
        args = ([hexl(data)] if form == "list" else ["DROP"] if form == "drop" else []) + ([err] if err else [])
        r.shuffle(args)
        me = "ANY" + ("#" + "&".join(args) if args else "")
        side = r.choice(["from", "to"])
        key = None if not err else err.split("=")[1] if "=" in err else "IERR" if side == "from" else "OERR"
        if side == "from":
            emit = {"": [b"\x01\x3f"], "list": data, "drop": []}[form]
            conv = r.choice(["ASCII,%s:INSERT#AFTER=2C:BSDCONV", "%s:INSERT#AFTER=2C:BSDCONV"]) % me
            b = bytes(r.choice([0x41, 0x42, 0x80, 0xff, 0xc3, 0xa9, 0x7f, 0x20]) for _ in range(r.randrange(30)))
            asc = conv.startswith("ASCII")
            bad = [asc and x < 0x80 for x in b].count(False)
            w = "".join(d.hex().upper() + "2C" for x in b for d in ([bytes([1, x])] if asc and x < 0x80 else emit)).encode()
        else:
            emit = {"": b"\x3f", "list": b"".join(data), "drop": b""}[form]
            conv = r.choice(["UTF-8:ASCII,%s", "UTF-8:%s", "UTF-8:_CP1252,%s"]) % me
            t = "".join(r.choice(["a", "Z", "é", "中", "\U0001f600", "€", "\x7f"]) for _ in range(r.randrange(30)))
            can = (lambda c: c < "\x80") if "ASCII" in conv else (lambda c: False) if "_CP" not in conv else (lambda c: c in "é€")
            b = t.encode()
            bad = sum(not can(c) for c in t)
            w = b"".join(c.encode("cp1252") if can(c) else emit for c in t)
        cs = gen.split(r, b)
        L = ["N 0 " + hx(conv), "I 0"] + ["F 0 A %d 1 %s 0" % (j == len(cs) - 1, hx(c)) for j, c in enumerate(cs)] + ["G 0 " + hx(k) for k in ("IERR", "OERR", "FOO")]
        cases.append(L)
        meta.append((conv, b, w, key, bad, len(cs)))
    for L, x, (conv, b, w, key, bad, n) in zip(cases, ck.run("asan", cases), meta):
        if isinstance(x, Crash):
            ck.crash(x, conv, commands=L)
            continue
        ck.saw((conv, b, n), bad > 0)
        cov["any"] += bad
        g = b"".join(un(y) or b"" for y in x[2:2 + n]) if x[0].startswith("ok") else x[0]
        if g != w:
            ck.violation("any", "%s on %s gives %r, not %r" % (conv, b.hex(), g, w), commands=L)
            continue
        for k, y in zip(("IERR", "OERR", "FOO"), x[-3:]):
            v = bad if k == key else 0
            if int(y.split()[-1]) != v:
                ck.violation("any-count", "%s on %s counts %s %s, not %d" % (conv, b.hex(), k, y, v), commands=L)

    # ---- marks: what a stage marks, the next one takes as it is
    cases, meta = [], []
    for _ in range(ck.n(600, 15000)):
        f = r.choice(["CJK", "UNICODE", "LATIN", "HANGUL", "ROMAN", "EMOTICON", "ANSI", None])
        t = "".join(r.choice("aZ09é中漢각ひ\U0001f600\x7f") for _ in range(r.randrange(25)))
        cs = gen.split(r, t.encode())
        how = r.choice(["mark", "nomark", "again", "filter"])
        mk = "PASS#" + "&".join(r.sample((["MARK"] if how != "nomark" else []) + (["FOR=" + f] if f else []), (how != "nomark") + bool(f))) if how != "nomark" or f else "PASS"
        taken = [f is None or filters.admits(f, uni.internal(ord(c))) for c in t]
        def raw(bs):
            return [b"\x03" + bytes([x]) for x in bs]
        if how == "mark":
            conv = "UTF-8:%s,UTF-16BE|PASS#UNMARK,BYTE:INSERT#AFTER=2C:BSDCONV" % mk
            w = [d for c, k in zip(t, taken) for d in ([uni.internal(ord(c))] if k else raw(c.encode("utf-16-be")))]
        elif how == "nomark":
            conv = "UTF-8:%s,UTF-16BE|PASS#UNMARK,BYTE:INSERT#AFTER=2C:BSDCONV" % mk
            w = [d for c, k in zip(t, taken) for d in raw(uni.internal(ord(c)) if k else c.encode("utf-16-be"))]
        elif how == "again":
            conv = "UTF-8:%s,UTF-16BE|PASS#UNMARK,BYTE:PASS|PASS#UNMARK,BYTE:INSERT#AFTER=2C:BSDCONV" % mk
            w = [d for c, k in zip(t, taken) for d in raw(uni.internal(ord(c)) if k else b"".join(raw(c.encode("utf-16-be"))))]
        else:
            g2 = r.choice(["CJK", "LATIN", "UNICODE"])
            conv = "UTF-8:%s,UTF-16BE|%s,BYTE:INSERT#AFTER=2C:BSDCONV" % (mk, "&".join(r.sample(["PASS#UNMARK", "FOR=" + g2], 2)) if False else "PASS#UNMARK&FOR=" + g2)
            w = [d for c, k in zip(t, taken) for d in (([uni.internal(ord(c))] if filters.admits(g2, uni.internal(ord(c))) else raw(uni.internal(ord(c)))) if k else raw(c.encode("utf-16-be")))]
        cases.append(["N 0 " + hx(conv), "I 0"] + ["F 0 A %d 1 %s 0" % (j == len(cs) - 1, hx(c)) for j, c in enumerate(cs)])
        meta.append((conv, t, "".join(d.hex().upper() + "2C" for d in w), sum(taken)))
    for L, x, (conv, t, w, k) in zip(cases, ck.run("asan", cases), meta):
        if isinstance(x, Crash):
            ck.crash(x, conv, commands=L)
            continue
        ck.saw((conv, t, len(L)), k > 0)
        cov["marked"] += k
        g = b"".join(un(y) or b"" for y in x[2:]).decode() if x[0].startswith("ok") else x[0]
        if g != w:
            ck.violation("mark", "%s on %r gives %s, not %s" % (conv, t, g, w), commands=L)

    # ---- refused arguments
    bad = ["UTF-8:%s:UTF-8" % p for p in (
        "INSERT#X", "INSERT#X=0141", "INSERT#AFTER=zz", "INSERT#BEFORE=01G1", "INSERT#BEFORE=0141&AFTER=01,", "INSERT#AFTER=0141&BEFORE=x", "INSERT#AFTER=0141&MIDDLE=0142", "INSERT#AFTER=01-41", "REPLACE", "REPLACE#", "REPLACE#zz", "REPLACE#zz=0141",
        "REPLACE#0141=zz", "REPLACE#0141.zz=0142", "REPLACE#0141=0142.q", "REPLACE#=0141", "STRINGS#X", "STRINGS#MIN-LEN=x", "STRINGS#MIN-LEN=", "STRINGS#MIN-LEN", "STRINGS#AFTER=zz", "STRINGS#BEFORE=zz", "STRINGS#FOR", "STRINGS#FOR=NOPE",
        "STRINGS#FOR=CJK&X=1", "STRINGS#AFTER=0141&BEFORE=zz", "PASS#X", "PASS#LIMIT=x", "PASS#LIMIT=", "PASS#LIMIT", "PASS#FOR=CJK&LIMITS=3", "PASS#FOR=NOPE", "PASS#MARK", "PASS#UNMARK", "COUNT#FOR=NOPE", "COUNT#FOO&FOR=NOPE")]
    bad += ["PASS#MARK:UTF-8", "PASS#LIMIT=3:UTF-8", "PASS#FOR=NOPE:UTF-8", "PASS#X:UTF-8", "UTF-8:PASS#UNMARK", "UTF-8:PASS#LIMIT=3", "UTF-8:PASS#X", "UTF-8:PASS#FOR=NOPE", "ANY#zz:UTF-8", "ANY#013F&q:UTF-8", "UTF-8:ANY#zz", "UTF-8:ANY#3F.xx",
            "ASCII,ANY#zz:UTF-8", "UTF-8:ASCII,ANY#ERROR&zz"]
    cs = [["X %s %s" % (hx(c), hx(b"abc")), "X %s %s" % (hx("UTF-8:INSERT#AFTER=012D:UTF-8"), hx(b"abc"))] for c in bad]
    for L, x, c in zip(cs, ck.run("asan", cs), bad):
        if isinstance(x, Crash):
            ck.crash(x, c, commands=L)
            continue
        ck.saw(("refuse", c))
        cov["refused"] += x[0].startswith("null")
        if not x[0].startswith("null") or x[0].split(" ")[1] == "0":
            ck.violation("refuse:" + c, "%s is not refused: %s" % (c, x[0]), commands=L)
        if un(x[1].split(" ")[0]) != b"a-b-c-":
            ck.violation("after-refusal", "after refusing %s, a good conversion gives %s" % (c, x[1]), commands=L)
    cov["phases"] = dict(cov["phases"])
    ck.cov["observed"] = cov
    ck.sample({"conversion": "BSDCONV:REPLACE#0141.0141.0142=0143:INSERT#AFTER=2C:BSDCONV", "data": "0141.0141.0141.0142"})


def big(ck, r, cov):
    """arguments, runs, limits and data around the limits of small integers"""
    A, B, C, S = b"\x01A", b"\x01\x4e\x2d", b"\x01\x6f\x22", b"\x1b[1m"
    todo = []

    def rep(n, ds):
        return (ds * (n // len(ds) + 1))[:n]

    def add(text, model, seq, **kw):
        todo.append((text, seq, model(list(seq)), kw))
    for n in scale.pick(r, 99):
        w = rep(n + 3, [B, A, C])
        f = r.choice(["CJK", None])
        lim = lambda s, n=n, f=f: [d for d, ok in passing(s, f, n) if ok]
        add("PASS#LIMIT=%d%s,NULL" % (n, "&FOR=CJK" if f else ""), lim, rep(n * (2 if f else 1) + 5, [B, A] if f else [A, B, C]))
        m = n + r.choice([-1, 0, 1])
        add("STRINGS#FOR=CJK&MIN-LEN=%d" % n, lambda s, n=n: strings(s, "CJK", n, [], [b"\x01\x0a"]), rep(m, [B, C]) + [A] + rep(n, [C]) + [A, A] + rep(n - 1, [B]) + [A] + rep(n + 1, [B, C, C]))
        add("STRINGS#FOR=CJK&MIN-LEN=3", lambda s: strings(s, "CJK", 3, [], [b"\x01\x0a"]), rep(n, [B, C]) + [A, B, C, A])
        add("COUNT#FOR=CJK&FOO", lambda s: s, rep(n, [B]) + [A], FOO=n)
        add("BIG5-DEFRAG", defrag, [b"\x03\xa4"] + [b"\x1b[%dm" % (i % 100) for i in range(min(n, 4200))] + [b"\x03\xa4", A])
        long_ = b"\x01" + bytes(r.randrange(256) for _ in range(n - 1))
        near = long_[:-1] + bytes([long_[-1] ^ 1])
        if n <= 33000:
            add("REPLACE#%s=%s" % (long_.hex(), hexl([A, C])), lambda s, l=long_: replace(s, [l], [A, C]), [A, long_, near, long_[:-1], long_, long_ + b"x", long_])
            add("REPLACE#0141=" + long_.hex(), lambda s, l=long_: replace(s, [A], [l]), [A, B, A])
            side = r.choice(["BEFORE", "AFTER"])
            add("INSERT#%s=%s" % (side, long_.hex()), lambda s, l=long_, k=side: insert(s, [l] * (k == "BEFORE"), [l] * (k == "AFTER")), [A, B])
        if n <= 4200:
            q = [r.choice([A, B, C, S]) for _ in range(n)]
            add("REPLACE#%s=0158" % hexl(q), lambda s, q=q: replace(s, q, [b"\x01X"]), q + q[:-1] + [b"\x01z"] + q + q[1:] + q)
            add("REPLACE#0141=" + hexl(q), lambda s, q=q: replace(s, [A], q), [A, B, A])
            add("INSERT#BEFORE=%s&AFTER=%s" % (hexl(q), hexl(q[:n // 2])), lambda s, q=q, n=n: insert(s, q, q[:n // 2]), [A, B])
            add("STRINGS#FOR=CJK&BEFORE=%s&AFTER=%s" % (hexl(q[:n // 2]), hexl(q)), lambda s, q=q, n=n: strings(s, "CJK", 1, q[:n // 2], q), [A, B, C, A, B])
    cases = []
    for text, seq, w, kw in todo:
        inp = b",".join(d.hex().upper().encode() for d in seq)
        cs = [inp] if r.random() < 0.6 else [inp[i:i + 3001] for i in range(0, len(inp), 3001)] or [b""]
        cases.append(["N 0 " + hx("BSDCONV:%s:INSERT#AFTER=2C:BSDCONV" % text), "I 0"] + ["F 0 A %d 1 %s 0" % (j == len(cs) - 1, hx(c)) for j, c in enumerate(cs)] + ["G 0 " + hx("FOO"), "G 0 " + hx("IERR"), "G 0 " + hx("OERR")])
    for L, x, (text, seq, w, kw) in zip(cases, ck.run("asan", cases), todo):
        ck.saw((text, len(seq)))
        if isinstance(x, Crash):
            ck.crash(x, text[:100], commands=L)
            continue
        g = b"".join(un(y) or b"" for y in x[2:-3]).decode("latin-1") if x[0].startswith("ok") else x[0]
        ws = "".join(d.hex().upper() + "2C" for d in w if d)
        cnt = [int(y.split()[-1]) for y in x[-3:]] if x[0].startswith("ok") else []
        if g != ws or cnt != [kw.get("FOO", 0), max(0, len(seq) - 1), 0]:        # each comma is an error
            i = next((i for i, (a, b) in enumerate(zip(g, ws)) if a != b), min(len(g), len(ws)))
            ck.violation("big:" + text.split("#")[0], "%s... (%d) on %d data: %d digits, expected %d; differs at %d: %s, expected %s; counters %s" % (text[:60], len(text), len(seq), len(g), len(ws), i, g[i:i + 40], ws[i:i + 40], cnt), commands=L)
    # the catch-all codecs
    todo = []
    for n in scale.pick(r, 99):
        todo.append(("ASCII,ANY#013F&ERROR=FOO:UTF-8", b"a" + b"\xff" * n + b"b", b"a" + b"?" * n + b"b", n))
        todo.append(("UTF-8:ASCII,ANY#3F&ERROR=FOO", ("a" + "é" * n + "b").encode(), b"a" + b"?" * n + b"b", n))
        if n <= 4200:
            q = bytes(r.randrange(0x30, 0x7b) for _ in range(n))
            todo.append(("ASCII,ANY#%s&ERROR=FOO:UTF-8" % ".".join("01%02X" % c for c in q), b"a\xffb", b"a" + q + b"b", 1))
            todo.append(("UTF-8:ASCII,ANY#%s&ERROR=FOO" % ".".join("%02X" % c for c in q), "aéb".encode(), b"a" + q + b"b", 1))
            todo.append(("UTF-8:ASCII,ANY#%s&ERROR=FOO" % q.hex(), "aéb".encode(), b"a" + q + b"b", 1))
    cases = [["N 0 " + hx(c), "I 0", "F 0 A 1 1 %s 0" % hx(b), "G 0 " + hx("FOO")] for c, b, w, n in todo]
    for L, x, (c, b, w, n) in zip(cases, ck.run("asan", cases), todo):
        ck.saw((c, len(b)))
        if isinstance(x, Crash):
            ck.crash(x, c[:100], commands=L)
            continue
        g = (un(x[2]) or b"") if x[0].startswith("ok") else x[0]
        if g != w or int(x[3].split()[-1]) != n:
            ck.violation("big:ANY", "%s... on %d bytes gives %d bytes and counts %s, not %d and %d" % (c[:60], len(b), len(g), x[3], len(w), n), commands=L)
    cov["big"] = len(cases)
