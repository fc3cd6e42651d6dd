"""C26: the charsets computed or switched rather than looked up: GB18030, ISO-2022-JP, Big5 user defined area, EBCDIC with shifts."""
import json, lzma, os
from vlib import charsets, gen, scale, uni
from vlib.driver import Crash, hx, un, counters

IBM = ("IBM-930", "IBM-933", "IBM-935", "IBM-937", "IBM-939")


# ---- references: a decoder takes bytes and gives the characters and the number of malformed bytes
def py2(codec, pre, lo=0x21, hi=0x7f, post=b"\x1b(B"):
    t = {}
    for a in range(lo, hi):
        for b in range(lo, hi):
            try:
                t[bytes([a, b])] = (pre + bytes([a, b]) + post).decode(codec)
            except UnicodeDecodeError:
                pass
    return t


J208 = py2("iso2022_jp", b"\x1b$B")
J208[b"\x21\x40"] = "\\"           # the Unicode consortium's table has the ASCII one, Python the full width one
J212 = py2("iso2022_jp_1", b"\x1b$(D")
ESCAPES = {b"\x1b(B": "ascii", b"\x1b(J": "roman", b"\x1b(I": "kana", b"\x1b$@": "208", b"\x1b$B": "208", b"\x1b$(D": "212"}


def d_jis(b, ascii=True):
    out, e, i, m = [], 0, 0, "ascii"
    while i < len(b):
        for s in ESCAPES:
            if b.startswith(s, i):
                m = ESCAPES[s]
                i += len(s)
                break
        else:
            c = b[i]
            if m in ("208", "212"):
                u = (J208 if m == "208" else J212).get(b[i:i + 2])
                if u:
                    out.append(u)
                    i += 2
                    continue
            elif m in ("roman", "kana"):
                if m == "kana" and 0x21 <= c <= 0x5f:
                    c |= 0x80
                u = "¥" if c == 0x5c else "‾" if c == 0x7e else chr(0xff61 + c - 0xa1) if 0xa1 <= c <= 0xdf else None
                if u:
                    out.append(u)
                    i += 1
                    continue
            if ascii and 1 <= b[i] < 0x80:
                out.append(chr(b[i]))
            else:
                e += 1
            i += 1
    return out, e


def gb4(v):
    v, d = divmod(v, 10)
    v, c = divmod(v, 126)
    a, b = divmod(v, 10)
    return bytes([0x81 + a, 0x30 + b, 0x81 + c, 0x30 + d])


def gbdec(b):
    try:
        u = b.decode("gb18030")
        return u if len(u) == 1 and not 0xd800 <= ord(u) < 0xe000 else None
    except UnicodeDecodeError:
        return None


_gb2 = {}


def d_gb(b):
    out, e, i = [], 0, 0
    while i < len(b):
        c = b[i]
        if 1 <= c < 0x80:
            out.append(chr(c))
            i += 1
            continue
        if 0x81 <= c <= 0xfe and i + 1 < len(b):
            d = b[i + 1]
            if 0x30 <= d <= 0x39:
                q = b[i:i + 4]
                u = gbdec(q) if len(q) == 4 and 0x81 <= q[2] <= 0xfe and 0x30 <= q[3] <= 0x39 else None
                if u:
                    out.append(u)
                    i += 4
                    continue
            else:
                q = b[i:i + 2]
                if q not in _gb2:
                    _gb2[q] = gbdec(q) if 0x40 <= d <= 0xfe and d != 0x7f else None
                if _gb2[q]:
                    out.append(_gb2[q])
                    i += 2
                    continue
        e += 1
        i += 1
    return out, e


def uda(q):
    """the user defined areas of code page 950"""
    a, b = q
    if not (0x40 <= b <= 0x7e or 0xa1 <= b <= 0xfe):
        return None
    n = b - 0x40 if b < 0x80 else b - 0x62
    for lo, hi, base in ((0xfa, 0xfe, 0xe000), (0x8e, 0xa0, 0xe311), (0x81, 0x8d, 0xeeb8), (0xc6, 0xc8, 0xf6b1)):
        if lo <= a <= hi:
            if lo == 0xc6:
                if a == 0xc6 and b < 0xa1:
                    return None
                return chr(base + 157 * (a - lo) + n - 63)
            return chr(base + 157 * (a - lo) + n)
    return None


def d_uda(b):
    out, e, i = [], 0, 0
    while i < len(b):
        u = uda(b[i:i + 2]) if i + 1 < len(b) else None
        if u:
            out.append(u)
            i += 2
        elif 1 <= b[i] < 0x80:
            out.append(chr(b[i]))
            i += 1
        else:
            e += 1
            i += 1
    return out, e


def ibm(tab):
    one = {bytes.fromhex(k): v for k, v in tab["one"].items()}
    two = {bytes.fromhex(k): v for k, v in tab["two"].items()}

    def dec(b):
        out, e, i, m = [], 0, 0, 0
        while i < len(b):
            c = b[i]
            u, n = None, 1
            if c in (0x0e, 0x0f):
                m = c == 0x0e
                i += 1
                continue
            if m and c >= 0x40:
                u, n = two.get(b[i:i + 2]), 2
            else:
                u = one.get(b[i:i + 1])
            if u is None:
                e += 1
                i += 1
            else:
                out.append(u)
                i += n
        return out, e
    return one, two, dec


def run(ck):
    r = ck.r
    with lzma.open(os.path.join(os.path.dirname(charsets.__file__), "data", "ibm.json.xz"), "rt") as f:
        ref = json.load(f)
    ck.rule = ("every code: GB18030 one, two and four bytes (of the latter all of the BMP's, and the supplementary ones sampled, in full in thorough) and every character back; JIS X 0201, 0208 and 0212 under each of their escapes; the Big5 user defined areas; "
               "the single and double byte codes of five EBCDIC pages, and every character back; then random mixtures of characters, mode switches, cut and damaged sequences, whole, in pieces and after a use broken off, against reference decoders "
               "(Python's tables; IBM's frozen, compared with Java); what the EBCDIC encoders emit must be decoded by the reference to the same text, end in single byte mode, and hold no idle shift. "
               "Distinct: (charset, code) and (charset, text)")
    ck.assumptions = ["ISO-2022-JP can only be decoded; JIS as an output is no ISO-2022-JP", "a malformed sequence counts an error for its first byte and decoding goes on with the next byte", "NUL belongs to the codec 00",
                      "JIS decodes what JIS X 0208 and 0212 lack as ASCII where it can: known finding"]
    cov = {"codes": 0, "bad_codes": 0, "encoded": 0, "not_encodable": 0, "mixtures": 0, "malformed_bytes": 0, "pieces": 0, "shifts": 0}
    pages = {n: ibm(ref[n]) for n in IBM}
    DEC = {"GB18030": d_gb, "JIS": d_jis, "CP950-UDA,ASCII": d_uda, "_JIS": lambda b: d_jis(b, False)}
    for n in IBM:
        DEC[n] = pages[n][2]

    # ---- every code
    cases, meta = [], []

    def block(conv, codes, pre=b"", sep=b"", size=256, post=b""):
        """decodes codes in one go (with a separator that is itself a character), then one by one where that differs"""
        for i in range(0, len(codes), size):
            part = codes[i:i + size]
            cases.append(["N 0 " + hx(conv + ":UTF-8"), "O 0 " + hx(pre + b"".join(c + sep for c in part) + post)])
            meta.append((conv, part, pre, sep, post))

    def single(conv, codes, pre=b"", post=b""):
        for i in range(0, len(codes), 300):
            part = codes[i:i + 300]
            cases.append(["N 0 " + hx(conv + ":UTF-8")] + ["O 0 " + hx(pre + c + post) for c in part])
            meta.append((conv, part, pre, None, post))

    two = [bytes([a, b]) for a in range(0x80, 256) for b in range(256)]
    good = [q for q in two if d_gb(q)[1] == 0 and len(d_gb(q)[0]) == 1]
    bad = sorted(set(two) - set(good))
    block("GB18030", good, sep=b"\n")
    single("GB18030", r.sample(bad, ck.n(6000, len(bad))))
    four = [gb4(v) for v in range(39420)]
    good = [q for q in four if gbdec(q)]
    bad = [q for q in four if not gbdec(q)]
    block("GB18030", good)
    single("GB18030", r.sample(bad, ck.n(min(len(bad), 3000), len(bad))))
    sup = range(189000, 189000 + 0x100000)
    ends = [0, 1, 0xffff, 0x10000, 0xfffff] + [i * 1260 for i in range(1, 832)] + [i * 1260 - 1 for i in range(1, 832)] + [i << 8 for i in range(4096)]
    block("GB18030", [gb4(sup[i]) for i in (ends + r.sample(range(0x100000), 20000) if ck.tier == "quick" else range(0x100000))], size=1024)
    single("GB18030", [gb4(v) for v in [sup[0] - 1, sup[-1] + 1] + r.sample(range(39420, sup[0]), 300) + r.sample(range(sup[-1] + 1, 126 * 12600 - 1), 300)])
    for p in ESCAPES:
        if ESCAPES[p] in ("208", "212"):
            t = J208 if ESCAPES[p] == "208" else J212
            block("JIS", sorted(t), pre=p)
            single("_JIS", [bytes([a, b]) for a in range(0x20, 0x80) for b in range(0x20, 0x80) if bytes([a, b]) not in t], pre=p)
        else:
            single("JIS", [bytes([a]) for a in range(256)], pre=p)
            single("_JIS", [bytes([a]) for a in range(256)], pre=p)
    good = [q for q in two if uda(q)]
    block("CP950-UDA,ASCII", good)
    single("CP950-UDA,ASCII", [q for q in two if not uda(q)])
    for n in IBM:
        one, dbl, _ = pages[n]
        single(n, [bytes([a]) for a in range(256)])
        single(n, [bytes([a]) for a in range(256)], pre=b"\x0e", post=b"\x0f\xc1")
        block(n, sorted(dbl), pre=b"\x0e", post=b"\x0f\xc1")
        bad = [q for q in (bytes([a, b]) for a in range(0x40, 256) for b in range(256)) if q not in dbl]
        single(n, r.sample(bad, ck.n(3000, len(bad))), pre=b"\x0e", post=b"\x0f\xc1")
    again, ameta = [], []
    for L, x, (conv, part, pre, sep, post) in zip(cases, ck.run("asan", cases), meta):
        if isinstance(x, Crash):
            ck.crash(x, conv, commands=L)
            continue
        if not x[0].startswith("ok"):
            ck.violation("create:%s" % conv, "%s cannot be created: %s" % (conv, x[0]), commands=L[:1])
            continue
        if sep is not None:
            w, e = DEC[conv](pre + b"".join(c + sep for c in part) + post)
            o, k = x[1].split(" ")
            k = counters(k)
            cov["codes"] += len(part)
            for c in part:
                ck.saw((conv, pre, c))
            if (un(o) or b"") != "".join(w).encode() or k.get("IERR", 0) != e or k.get("OERR", 0):
                again.append([L[0]] + ["O 0 " + hx(pre + c + post) for c in part])
                ameta.append((conv, part, pre, post, L))
            continue
        judge(ck, cov, DEC, conv, part, pre, post, x[1:], L)
    for L, x, (conv, part, pre, post, L0) in zip(again, ck.run("asan", again), ameta):
        if isinstance(x, Crash):
            ck.crash(x, conv, commands=L)
        elif not judge(ck, cov, DEC, conv, part, pre, post, x[1:], L):
            ck.violation("sequence:%s" % conv, "%s: each of the codes decodes as it should, the sequence of them does not" % conv, commands=L0)

    # ---- every character back
    U = charsets.universe()
    U8 = [u for u in range(1, 0x10000) if not 0xd800 <= u < 0xe000]
    U8 += range(0x10000, 0x110000) if ck.tier != "quick" else sorted({0x10000 + i for i in ends} | set(r.sample(range(0x10000, 0x110000), 20000)))
    cases, meta = [], []
    for i in range(0, len(U8), 512):
        cases.append(["N 0 " + hx("UTF-32BE:GB18030"), "O 0 " + hx(b"".join(u.to_bytes(4, "big") for u in U8[i:i + 512]))])
        meta.append(("GB18030", U8[i:i + 512]))
    for n in IBM:
        e = {int(k, 16): bytes.fromhex(v) for k, v in ref[n]["enc"].items()}
        yes = [u for u in U if u in e]
        no = [u for u in U if u not in e]
        for i in range(0, len(yes), 256):
            cases.append(["N 0 " + hx("UTF-32BE:" + n)] + ["O 0 " + hx(u.to_bytes(4, "big")) for u in yes[i:i + 256]])
            meta.append((n, yes[i:i + 256], e))
        for i in range(0, len(no), 512):
            cases.append(["N 0 " + hx("UTF-32BE:" + n), "O 0 " + hx(b"".join(u.to_bytes(4, "big") for u in no[i:i + 512]))])
            meta.append((n, no[i:i + 512], None))
    for L, x, m in zip(cases, ck.run("asan", cases), meta):
        if isinstance(x, Crash):
            ck.crash(x, "encode %s" % m[0], commands=L)
            continue
        for u in m[1]:
            ck.saw(("enc", m[0], u))
        if m[0] == "GB18030":
            cov["encoded"] += len(m[1])
            o, k = x[1].split(" ")
            w = b"".join(chr(u).encode("gb18030") for u in m[1])
            if un(o) != w or counters(k).get("OERR"):
                o = un(o)
                n = next((i for i in range(len(w)) if o[:i + 1] != w[:i + 1]), len(w))
                done = len(w[:n].decode("gb18030", "ignore"))
                ck.violation("encode:GB18030", "GB18030: U+%04X does not come out as %s" % (m[1][min(done, len(m[1]) - 1)], chr(m[1][min(done, len(m[1]) - 1)]).encode("gb18030").hex()), commands=L)
        elif m[2] is None:
            cov["not_encodable"] += len(m[1])
            o, k = x[1].split(" ")
            if un(o) or counters(k).get("OERR") != len(m[1]):
                ck.violation("unenc:%s" % m[0], "%s: of %d characters the page lacks, %d count an error and %s comes out" % (m[0], len(m[1]), counters(k).get("OERR", 0), o[:40]), commands=L)
        else:
            cov["encoded"] += len(m[1])
            for u, y in zip(m[1], x[1:]):
                o, k = y.split(" ")
                if un(o) != m[2][u] or counters(k).get("OERR"):
                    ck.violation("encode:%s" % m[0], "%s: U+%04X comes out as %s, not %s" % (m[0], u, o, m[2][u].hex()), codec=m[0], code=u)

    # ---- mixtures, decoded
    jp = [(s, ESCAPES[s]) for s in ESCAPES]
    jt = {"208": sorted(J208), "212": sorted(J212), "roman": [bytes([c]) for c in range(0x20, 0x7f)], "kana": [bytes([c]) for c in range(0x21, 0x60)], "ascii": [bytes([c]) for c in range(0x20, 0x7f)]}

    def cut(b):
        """damages a text in one place"""
        i = r.randrange(len(b)) if b else 0
        k = r.random()
        return b[:i] + b[i + 1:] if k < 0.3 else b[:i] + bytes([r.randrange(256)]) + b[i + 1:] if k < 0.6 else b[:i] + bytes([r.choice([0x1b, 0x0e, 0x0f, 0x24, 0x28, 0x30, 0x81, 0xff, r.randrange(256)])]) + b[i:] if k < 0.85 else b[:i]

    def mixture(conv):
        b = b""
        if conv in ("JIS", "_JIS"):
            m = "ascii"
            for _ in range(r.randrange(1, 25)):
                if r.random() < 0.3:
                    s, m = r.choice(jp)
                    b += s
                elif r.random() < 0.06:
                    b += r.choice([b"\n", b"\t", b" ", b"\x1b", b"\x1b$", b"\x1b(", b"\x1b$(", b"\x1b($D", b"\x1b(X", b"\x1b$A", b"\xb1", b"\x80", b"\xff"])
                elif m == "ascii" and conv == "_JIS":
                    continue
                else:
                    b += r.choice(jt[m])
            if b"\x1b($" in b:      # accepted besides ESC $ ( D, unspecified
                b = b.replace(b"\x1b($", b"")
        elif conv == "GB18030":
            for _ in range(r.randrange(1, 25)):
                k = r.random()
                c = r.randrange(0x20, 0x7f) if k < 0.3 else r.randrange(0x4e00, 0x9fff) if k < 0.55 else r.choice(U8)
                b += chr(c).encode("gb18030")
        elif conv.startswith("CP950"):
            for _ in range(r.randrange(1, 25)):
                b += bytes([r.randrange(0x20, 0x7f)]) if r.random() < 0.3 else r.choice(good950)
        else:
            one, dbl, _ = pages[conv]
            ones, dbls = lists[conv]
            m = 0
            for _ in range(r.randrange(1, 25)):
                k = r.random()
                if k < 0.25:
                    m = r.random() < 0.6
                    b += b"\x0e" if m else b"\x0f"
                elif m and k < 0.32:
                    b += bytes([r.randrange(1, 0x40)])
                    if b[-1] in (0x0e, 0x0f):
                        m = b[-1] == 0x0e
                else:
                    b += r.choice(dbls if m else ones)
        for _ in range(r.choice([0, 0, 1, 1, 2, 4])):
            b = cut(b)
        return b.replace(b"\x1b($", b"") if "JIS" in conv else b

    good950 = [q for q in two if uda(q)]
    lists = {n: (sorted(pages[n][0]), sorted(pages[n][1])) for n in IBM}
    cases, meta = [], []
    for conv in DEC:
        for far in [None] * (ck.n(1200, 30000) if conv not in IBM else ck.n(500, 12000)) + scale.pick(r, ck.n(4, 30)):
            b = mixture(conv)
            while far and len(b) < far:
                b += mixture(conv)
            if "JIS" in conv:
                b = b.replace(b"\x1b($", b"")
            k = r.random()
            L = ["N 0 " + hx(conv + ":UTF-8")]
            if k < 0.3:      # a use broken off first
                j = mixture(conv)
                L += ["I 0", "F 0 A 0 1 %s 0" % hx(j)]
            if k < 0.5:
                ps = gen.split(r, b) or [b""]
                cov["pieces"] += len(ps)
                L += ["I 0", "Z 0 -"] + ["F 0 A %d 1 %s 0" % (i == len(ps) - 1, hx(p)) for i, p in enumerate(ps)] + ["R 0"]
            else:
                L += ["O 0 " + hx(b)]
            cases.append(L)
            meta.append((conv, b))
    for L, x, (conv, b) in zip(cases, ck.run("asan", cases), meta):
        if isinstance(x, Crash):
            ck.crash(x, "%s on %s" % (conv, b.hex()), commands=L)
            continue
        w, e = DEC[conv](b)
        w = "".join(w).encode()
        ck.saw((conv, b), e == 0 or len(w) > 1)
        cov["mixtures"] += 1
        cov["malformed_bytes"] += e
        if L[-1] == "R 0":
            o = b"".join(un(y.split(" ")[0]) or b"" for y in x[-1 - sum(l.startswith("F 0 A") for l in L[L.index("Z 0 -"):]):-1])
            k = counters(x[-1].split(" ")[-1])
        else:
            o, k = x[-1].split(" ")
            o, k = un(o) or b"", counters(k)
        if o != w or k.get("IERR", 0) != e:
            ck.violation("mixture:%s" % conv, "%s: %s decodes to %r with %d errors, not %r with %d" % (conv, b.hex(), o.decode("utf-8", "replace"), k.get("IERR", 0), w.decode(), e), commands=L)

    # ---- mixtures, encoded with shifts
    cases, meta = [], []
    for n in IBM:
        e = {int(k, 16): bytes.fromhex(v) for k, v in ref[n]["enc"].items()}
        s1 = [u for u in e if len(e[u]) == 1]
        s2 = [u for u in e if len(e[u]) == 4]
        out = [u for u in r.sample(U, 2000) if u not in e]
        for far in [None] * ck.n(800, 20000) + scale.pick(r, ck.n(6, 30), 20000):
            t = []
            for _ in range(far or r.randrange(1, 30)):
                k = r.random()
                src = s1 if k < 0.35 else s2 if k < 0.9 else out
                t += [r.choice(src) for _ in range(r.choice([1, 1, 2, 5]))]
            k = r.random()
            b = "".join(map(chr, t)).encode()
            L = ["N 0 " + hx("UTF-8:" + n)]
            if k < 0.3:      # a use broken off first, in double byte mode
                L += ["I 0", "F 0 A 0 1 %s 0" % hx(chr(r.choice(s2)).encode())]
            if k < 0.5:
                ps = gen.split(r, b)
                cov["pieces"] += len(ps)
                L += ["I 0", "Z 0 -"] + ["F 0 A %d 1 %s 0" % (i == len(ps) - 1, hx(p)) for i, p in enumerate(ps)] + ["R 0"]
            else:
                L += ["O 0 " + hx(b)]
            cases.append(L)
            meta.append((n, t, e))
    for L, x, (n, t, e) in zip(cases, ck.run("asan", cases), meta):
        what = "%s of %s" % (n, "".join(map(chr, t)))
        if isinstance(x, Crash):
            ck.crash(x, what, commands=L)
            continue
        ck.saw((n, "enc", tuple(t)))
        cov["mixtures"] += 1
        if L[-1] == "R 0":
            o = b"".join(un(y.split(" ")[0]) or b"" for y in x[-1 - sum(l.startswith("F 0 A") for l in L[L.index("Z 0 -"):]):-1])
            k = counters(x[-1].split(" ")[-1])
        else:
            o, k = x[-1].split(" ")
            o, k = un(o) or b"", counters(k)
        one, dbl, dec = pages[n]
        w = []
        for u in t:
            if u in e:
                w += dec(e[u])[0]
        g, bad = dec(o)
        cov["shifts"] += o.count(b"\x0e")
        if g != w or bad:
            ck.violation("shift:%s" % n, "%s gives %s, which reads %s" % (what, o.hex(), "".join(g)), commands=L)
        missing = sum(u not in e for u in t)
        if k.get("OERR", 0) != missing:
            ck.violation("shift-errors:%s" % n, "%s counts %d errors for %d characters the page lacks" % (what, k.get("OERR", 0), missing), commands=L)
        m, last = 0, None
        for c in o:
            if c == 0x0e and (m) or c == 0x0f and (not m or last == 0x0e):
                ck.violation("idle-shift:%s" % n, "%s gives %s with an idle shift" % (what, o.hex()), commands=L)
                break
            if c in (0x0e, 0x0f):
                m = c == 0x0e
            last = c
        if m:
            ck.violation("open-shift:%s" % n, "%s gives %s, which ends in double byte mode" % (what, o.hex()), commands=L)
    ck.sample({"conversion": "UTF-8:" + meta[0][0], "text": "".join(map(chr, meta[0][1]))})

    # ---- known: what the Japanese charset does not do
    x = ck.run("asan", [["X %s %s" % (hx("JIS:UTF-8"), hx(b"\x1b$B\x29\x21"))]])
    if x[0][0].split(" ")[0] == hx(b")!"):
        ck.violation("jis:unassigned", "JIS: the unassigned code 2921 of JIS X 0208 decodes as )! without an error")
    ck.cov = cov


def judge(ck, cov, DEC, conv, part, pre, post, res, L):
    hit = False
    for c, y in zip(part, res):
        o, k = y.split(" ")
        o, k = un(o) or b"", counters(k)
        w, e = DEC[conv](pre + c + post)
        ck.saw((conv, pre, c))
        cov["bad_codes" if e else "codes"] += 1
        if o != "".join(w).encode() or k.get("IERR", 0) != e or k.get("OERR", 0):
            hit = True
            ck.violation("decode:%s:%s" % (conv, pre.hex()), "%s: %s decodes to %r with %d errors, not %r with %d" % (conv, (pre + c + post).hex(), o.decode("utf-8", "replace"), k.get("IERR", 0), "".join(w), e), codec=conv, code=(pre + c + post).hex())
    return hit
