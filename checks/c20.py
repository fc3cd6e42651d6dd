"""C20: filters, scorers, bonus phrases, trained scores."""
import os, struct, tempfile
from vlib import filters, gen, tables, uni
from vlib.driver import Crash, hx, un, counters

SCORE_F, OUT_F = 0, 3       # BSDCONV_CTL_ATTACH_SCORE, BSDCONV_CTL_ATTACH_OUTPUT_FILE


def case(r, s):
    return "".join(r.choice([c.upper(), c.lower()]) for c in s)


def run(ck):
    r = ck.r
    tree = ck.tree("asan")
    cov = {"filters": len(filters.NAMES), "admitted": {}, "filter_evaluations": 0, "scored": 0, "bonus": 0, "trained": 0}
    ck.rule = ("every filter against every scalar value and every type of data, by names in any letter case and by alias; every scorer on every scalar value in groups and on assigned characters and range ends alone; bonus tables on every key "
               "and random texts over their characters; training and trained scores over random texts against a map. Oracle: Unicode 13 blocks from Java's character data, ranges and scores written down in vlib/filters.py. Distinct: (filter or scorer, data)")
    # ---- every filter, every scalar value
    allc = list(uni.scalars())
    parts = [allc[i:i + 160000] for i in range(0, len(allc), 160000)]
    cases, meta = [], []
    for f in filters.NAMES + sorted(filters.ALIASES):
        # the three ways in: list of conversion codecs, from and to phases
        cases.append(["N 0 " + hx("UTF-32BE:PASS#FOR=%s,NULL:UTF-32BE" % case(r, f))] + ["O 0 " + hx(uni.u32(p)) for p in parts])
        meta.append(f)
    for L, x, f in zip(cases, ck.run("asan", cases), meta):
        if isinstance(x, Crash):
            ck.crash(x, "filter " + f)
            continue
        if not x[0].startswith("ok"):
            ck.violation("create:" + f, "filter %s cannot be used: %s" % (f, x[0]), commands=L[:1])
            continue
        n = 0
        base = filters.ALIASES.get(f, f)
        for p, y in zip(parts, x[1:]):
            g = un(y.split(" ")[0]) or b""
            got = [int.from_bytes(g[i:i + 4], "big") for i in range(0, len(g), 4)]
            if base in filters.TYPES:
                w = p if base == "UNICODE" else []
            else:
                w = [c for a, b in filters.RANGES[base] for c in range(max(a, p[0]), min(b, p[-1]) + 1) if not 0xd800 <= c < 0xe000]
            n += len(got)
            if got != w:
                d = sorted(set(got) ^ set(w))
                ck.violation("filter:" + f, "filter %s %s U+%04X (%d characters differ)" % (f, "admits" if d and d[0] in set(got) else "does not admit", d[0] if d else 0, len(d)), commands=["X %s %s" % (L[0].split()[2], hx(uni.u32(d[:20])))])
        cov["filter_evaluations"] += len(allc)
        ck.saw(("filter", f), n > 0)
        cov["admitted"][f] = n
    # data of every type, through the other codecs that take filters
    data = [b"\x01", b"\x02", b"\x03", b"\x1b", b"\x00", b"\x04"]
    pool = [b"\x01" + uni.be(c) for c in [0, 0x1f, 0x20, 0x41, 0x7e, 0x7f, 0x80, 0x81, 0x8d, 0xff, 0x100, 0x1100, 0x3042, 0x30a2, 0x4e00, 0xac00, 0x1f600, 0x20000, 0x10ffff, 0xe000]] + \
        [t + d for t in data[1:] for d in (b"A", b"\x4e\x00", b"\x24\x22", b"[1m", b"\x30\x42\x00")]
    for f in filters.NAMES + sorted(filters.ALIASES):
        base = filters.ALIASES.get(f, f)
        if base not in filters.TYPES:
            pool2 = [b"\x01" + uni.be(c) for a, b in filters.RANGES[base] for c in (a - 1, a, b, b + 1) if 0 <= c < 0x110000]
        else:
            pool2 = []
        seq = pool + pool2
        r.shuffle(seq)
        adm = [d for d in seq if filters.admits(f, d)]
        inp = b",".join(d.hex().upper().encode() for d in seq)
        nm = case(r, f)
        txt = lambda q: b"".join(d.hex().upper().encode() for d in q)
        want = {
            "BSDCONV:PASS#FOR=%s,NULL:BSDCONV" % nm: (txt(adm), None),
            "BSDCONV:COUNT#FOR=%s:BSDCONV" % nm: (txt(seq), len(adm)),
            "BSDCONV:PASS#FOR=%s,NULL:BSDCONV,NULL" % nm: (txt(adm), None),
            "BSDCONV:STRINGS#FOR=%s&AFTER:BSDCONV" % nm: (txt(adm), None),
        }
        cs = [["X %s %s" % (hx(c), hx(inp))] for c in want]
        for L, x, c in zip(cs, ck.run("asan", cs), want):
            if isinstance(x, Crash):
                ck.crash(x, c, commands=L)
                continue
            o, k = (x[0].split(" ") + [""])[:2]
            ck.saw((c.upper(), inp))
            w, n = want[c]
            if x[0].startswith("null") or (un(o) or b"") != w or n is not None and counters(k).get("COUNT", 0) != n:
                ck.violation("types:%s:%s" % (f, c.split(":")[1].split("#")[0]), "%s gives %s, not %s%s" % (c, x[0][:300], w.decode()[:200], " and COUNT %d" % n if n is not None else ""), commands=L)
    # names that are no filter
    cs = [["X %s %s" % (hx(c % nm), hx(b"a"))] for nm in ("NOPE", "CJK2", "CJ", "TYPE", "UNICODE_RANGE", "04", "1B1")
          for c in ("UTF-8:PASS#FOR=%s:UTF-8", "UTF-8:COUNT#FOR=%s:UTF-8", "UTF-8:STRINGS#FOR=%s:UTF-8", "UTF-8:UTF-8|PASS#FOR=%s:UTF-8", "UTF-8:PASS#FOR=%s,UTF-8")] + \
        [["X %s %s" % (hx("UTF-8:SCORE#WITH=%s:UTF-8" % nm), hx(b"a"))] for nm in ("NOPE", "CJK2", "HANGUL", "UNICODE_RANGE")]
    for L, x in zip(cs, ck.run("asan", cs)):
        if isinstance(x, Crash):
            ck.crash(x, "unknown filter", commands=L)
            continue
        ck.saw(tuple(L))
        if not x[0].startswith("null"):
            ck.violation("unknown", "%s is accepted: %s" % (bytes.fromhex(L[0].split()[1]).decode(), x[0]), commands=L)

    # ---- scorers
    A = set(uni.assigned13())
    for nm in filters.SCORES:
        S = filters.SCORES[nm]
        ends = {c for a, b, _ in S for c in (a - 1, a, b, b + 1, (a + b) // 2) if 0 <= c < 0x110000}
        singles = sorted({c for c in ends if not 0xd800 <= c < 0xe000} | set(r.sample(sorted(A), ck.n(20000, 100000))))
        groups = [[c] for c in singles] + [allc[i:i + 64] for i in range(0, len(allc), 64)] + [allc[0x2000:0x2000 + n] for n in (4000, 40000, 150000)]
        arg = "" if nm == "CJK" else None
        key = "SCORE"
        cases, meta = [], []
        for i in range(0, len(groups), 3000):
            g = groups[i:i + 3000]
            opts = []
            if nm != "CJK" or r.random() < 0.5:
                opts.append("WITH=" + case(r, nm))
            k = "SCORE"
            if r.random() < 0.4:
                k = r.choice(["FOO", "IERR", "X1"])
                opts.append("AS=" + k)
            r.shuffle(opts)
            cases.append(["N 0 " + hx("UTF-32BE:SCORE%s:UTF-32BE" % ("#" + "&".join(opts) if opts else ""))] + ["O 0 " + hx(uni.u32(q)) for q in g])
            meta.append((g, k))
        for L, x, (g, k) in zip(cases, ck.run("asan", cases), meta):
            if isinstance(x, Crash):
                ck.crash(x, "SCORE " + nm)
                continue
            if not x[0].startswith("ok"):
                ck.violation("score-create", "SCORE with %s cannot be created: %s" % (nm, x[0]), commands=L[:1])
                continue
            for q, y, cmd in zip(g, x[1:], L[1:]):
                o, kk = y.split(" ")
                w = sum(filters.score(nm, b"\x01" + uni.be(c)) for c in q)
                cov["scored"] += w > 0
                ck.saw(("score", nm, q[0], len(q)), w > 0)
                v = counters(kk).get(k, 0)
                if v != w or (un(o) or b"") != uni.u32(q):
                    ck.violation("score:%s" % nm, "scorer %s: U+%04X%s scores %d, not %d%s" % (nm, q[0], "..%04X" % q[-1] if len(q) > 1 else "", v, w, "" if (un(o) or b"") == uni.u32(q) else " and the text changes"), commands=[L[0], cmd])
    # ---- bonus tables
    cases, meta = [], []
    for nm in ("ZH-BONUS", "ZH-BONUS-PHRASE"):
        T = {}
        letters = set()
        for ln in open(os.path.join(tree.root, "modules/inter", nm + ".txt")):
            if ln.startswith("#") or not ln.strip():
                continue
            k, v = ln.split()[:2]
            ks = tuple(int(x[2:], 16) for x in k.split(","))
            vs = v.lstrip("?").split(",")
            if not v.startswith("?") or tuple(int(x[2:], 16) for x in vs[1:]) != ks:
                ck.violation("bonus-data:%s" % k, "%s: the entry %s changes the text: %s" % (nm, k, v))
            if ks not in T:
                T[ks] = int(vs[0], 16)
            letters |= set(ks)
        letters = sorted(letters)
        # characters that begin with the bytes of another
        longer = [c << 8 | x for c in letters if c < 0x1100 and not 0xd8 <= c < 0xe0 for x in (0, 0x41, 0xff)]
        texts0 = [[c] for c in longer]
        keys = list(T)
        mx = max(map(len, T))
        texts = [list(k) for k in T] + texts0 + [list(k[:-1]) + [k[-1] << 8 | x] for k in T for x in (0, 0x4d) if k[-1] < 0x1100 and not 0xd8 <= k[-1] < 0xe0]
        for _ in range(ck.n(800, 20000)):
            t = []
            for _ in range(r.choice([1, 2, 5, 20])):
                k = r.random()
                t += list(r.choice(keys)) if k < 0.5 else [r.choice(letters)] if k < 0.9 else [r.choice([0x41, 0x4e01, 0x20000] + longer)]
            texts.append(t)
        for i in range(0, len(texts), 400):
            L = ["N 0 " + hx("UTF-32BE:%s:UTF-32BE" % nm)]
            lay = []
            for t in texts[i:i + 400]:
                b = uni.u32(t)
                cs = gen.split(r, b)
                L.append("Z 0 -")
                L.append("I 0")
                a = len(L)
                L += ["F 0 A %d 1 %s 0" % (j == len(cs) - 1, hx(c)) for j, c in enumerate(cs)]
                L.append("G 0 " + hx("SCORE"))
                lay.append((t, a, len(L) - 1))
            cases.append(L)
            meta.append((nm, T, mx, lay))
    for L, x, (nm, T, mx, lay) in zip(cases, ck.run("asan", cases), meta):
        if isinstance(x, Crash):
            ck.crash(x, nm)
            continue
        for t, a, z in lay:
            i = w = 0
            while i < len(t):
                for n in range(min(mx, len(t) - i), 0, -1):
                    if tuple(t[i:i + n]) in T:
                        w += T[tuple(t[i:i + n])]
                        i += n
                        break
                else:
                    i += 1
            cov["bonus"] += w > 0
            ck.saw((nm, tuple(t), z - a), w > 0)
            g = b"".join(un(y) or b"" for y in x[a:z])
            v = int(x[z].split()[-1])
            if g != uni.u32(t) or v != w:
                ck.violation("bonus:" + nm, "%s on %s: score %d, not %d%s" % (nm, ["%X" % c for c in t], v, w, "" if g == uni.u32(t) else ", and the text changes to " + g.hex()), commands=L[:1] + L[a - 2:z + 1])

    # ---- training and trained scores
    with tempfile.TemporaryDirectory() as td:
        for env in ({"HOME": td + "/none", "BSDCONV_SCORE": td + "/sc"}, {"HOME": td}):
            for f in os.listdir(td):
                if os.path.isfile(td + "/" + f):
                    os.unlink(td + "/" + f)
            path = td + "/sc" if "BSDCONV_SCORE" in env else td + "/.bsdconv.score"
            m = {}
            pool = r.sample(sorted(A), 30) + [0x41, 0xff, 0x100, 0xffff, 0x10000, 0x10ffff]
            for rnd in range(ck.n(6, 60)):
                texts = [[r.choice(pool) for _ in range(r.randrange(30))] for _ in range(6)]
                L = ["N 0 " + hx("UTF-32BE:SCORE-TRAIN:UTF-32BE"), "ctlfile 0 %d . 0" % OUT_F]
                new = b""
                outs = []
                for t in texts:
                    for c in t:
                        if m.get(c, 0) == 0:
                            new += struct.pack(">I", c)
                        m[c] = min(3, m.get(c, 0) + 1)
                    L.append("O 0 " + hx(uni.u32(t)))
                L += ["ctlread 0 0", "D 0", "N 0 " + hx("UTF-32BE:SCORE#WITH=TRAINED:UTF-32BE")]
                L += ["O 0 " + hx(uni.u32(t)) for t in texts] + ["O 0 " + hx(uni.u32([c])) for c in pool]
                # another score file attached
                blob = bytes(r.randrange(256) for _ in range(300))
                L += ["ctlfile 0 %d %s 0" % (SCORE_F, hx(blob)), "O 0 " + hx(uni.u32([0x41, 0xff, 0x12b, 0x12c, 0x4e00]))]
                x = ck.run("asan", [L], env=tree.env(**env))[0]
                if isinstance(x, Crash):
                    ck.crash(x, "SCORE-TRAIN", commands=L)
                    break
                ok = x[0].startswith("ok")
                got_new = un(x[2 + len(texts)]) or b""
                res = x[5 + len(texts):]
                ck.saw(("train", tuple(map(tuple, texts))), bool(new))
                cov["trained"] += 1
                if not ok or any((un(y.split(" ")[0]) or b"") != uni.u32(t) for y, t in zip(x[2:2 + len(texts)], texts)):
                    ck.violation("train-text", "SCORE-TRAIN changes the text or is refused: %s" % x[0], commands=L, env=sorted(env))
                if got_new != new:
                    ck.violation("train-new", "SCORE-TRAIN lists %s as new, not %s" % (got_new.hex(), new.hex()), commands=L)
                for t, y in zip(texts + [[c] for c in pool], res):
                    o, k = y.split(" ")
                    w = sum(m.get(c, 0) for c in t)
                    if counters(k).get("SCORE", 0) != w or (un(o) or b"") != uni.u32(t):
                        ck.violation("trained", "trained score of %s is %s, not %d" % (["%X" % c for c in t], k, w), commands=L)
                        break
                w = blob[0x41] + blob[0xff] + blob[0x12b]
                if counters(res[len(texts) + len(pool) + 1].split(" ")[1]).get("SCORE", 0) != w:
                    ck.violation("attached", "score file attached by a control call: %s, not %d" % (res[-1], w), commands=L)
                try:
                    disk = open(path, "rb").read()
                except OSError as e:
                    ck.violation("train-file", "no score file %s: %s" % (os.path.basename(path), e))
                    break
                if {i for i, v in enumerate(disk) if v} != set(m) or any(disk[c] != v for c, v in m.items()):
                    ck.violation("train-file", "the score file does not hold one byte per character with its count up to 3", commands=L)
    ck.cov["observed"] = cov
    ck.sample({"filter": "CJK", "char": "U+4E00", "score": 5})
