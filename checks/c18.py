"""C18: whitespace taken out and put back."""
import itertools
from vlib import gen, scale, uni
from vlib.driver import Crash, hx, un, counters

WS = "\t\n\r "
# phases between the pair, with letters they act on; what they do to text without whitespace is asked of the library itself
BETWEEN = {
    "": "",
    "UPPER": "abcxyzàéω", "LOWER": "ABCXYZÀÉΩ", "FULL": "abc019!~", "HALF": "ａｂｃ０１！", "NFC": "e\u0301a\u0300\u0323o\u0302각가", "NFD": "éàộö각가", "NFKC": "ﬁ①éｶﾞ", "ZHTW": "后里里面简体中国", "ZHCN": "後裡繁體國後",
    "ZHTW:ZHTW-WORDS": "软件鼠标软件硬盘网络之后", "UPSIDEDOWN": "abcdefg", "WIDTH": "abc中ω", "COUNT": "abc", "CASEFOLD": "ABCßΣ", "NFD:NFC": "éàộö각", "UPPER:NFC:LOWER": "ABÇéÉ", "AMBIGUOUS-PAD": "aωб中",
    "INSERT#AFTER=012D": "abcd", "REPLACE#0161=0178.0179": "aab", "REPLACE#0161.0162=017A": "abaab", "STRINGS#FOR=CJK": "ab中文字c", "TRIM-WIDTH#5": "abcdefgh", "PASS#FOR=CJK:UPPER": "ab中文", "SCORE": "ab中文", "NFC:UPPER:NFD": "éàa\u0300\u0323",
    "AMBIGUOUS-PAD:AMBIGUOUS-UNPAD": "aωб中", "UNIX": "abc", "KANA-PHONETIC": "アイカ゛ｶﾞ",
}


def strip(s):
    return "".join(c for c in s if c not in WS)


def put_back(s, t):
    """whitespace of s at its place between the characters of t"""
    out, i = [], 0
    for c in s:
        if c in WS:
            out.append(c)
        else:
            out.append(t[i])
            i += 1
    return "".join(out)


def prefixes(s):
    """the text without whitespace up to each whitespace, and all of it"""
    return [strip(s[:i]) for i, c in enumerate(s) if c in WS and (i == 0 or s[i - 1] not in WS)] + [strip(s)]


def splits(b):
    for m in range(1 << (len(b) - 1)) if b else [0]:
        out, a = [], 0
        for i in range(1, len(b)):
            if m >> (i - 1) & 1:
                out.append(b[a:i])
                a = i
        out.append(b[a:])
        yield out


def run(ck):
    r = ck.r
    A = [c for c in uni.assigned13() if c and chr(c) not in WS]
    ck.rule = ("every string of up to %d over space, tab, line feed, carriage return and two letters, every cut of the shorter ones, through the pair alone, nested pairs and pairs in sequence; random texts in pieces with %d kinds of phases "
               "between the pair, whose own effect on text without whitespace is taken from the library. Oracle: where the phases keep the number of characters before it, every whitespace stands where it stood; otherwise text and whitespace each come complete and in order. "
               "Distinct: (conversion, text, cut)") % (ck.n(5, 7), len(BETWEEN))
    cov = {"whitespace": 0, "leading": 0, "trailing": 0, "runs": 0, "cut_inside_run": 0, "same_number": 0, "number_changed": 0}
    PAIRS = ["D:R", "D:R:D:R", "D:D:R:R", "D:UPPER:D:R:LOWER:R:UPPER", "D:D:R:NFD:NFC:R", "D:R:NFD:D:NFC:R", "R:D:R", "D:R:R"]

    names = {"D": "WHITESPACE-DERAIL", "R": "WHITESPACE-RERAIL"}

    def conv(p):
        return "UTF-8:%s:UTF-8" % ":".join(names.get(x, x) for x in p.split(":"))
    up = {p: (str.upper if "UPPER" in p else str) for p in PAIRS + ["D:NFC:R", "D:NFD:R", "D:NFD:NFC:R"]}
    cases, meta = [], []
    ex = ["".join(t) for n in range(ck.n(5, 7) + 1) for t in itertools.product(" \n\ra\u4e00", repeat=n)]
    short = ["".join(t) for n in range(1, ck.n(5, 6)) for t in itertools.product(" \ta", repeat=n)]
    for p in PAIRS:
        for i in range(0, len(ex), 1500):
            part = ex[i:i + 1500]
            cases.append(["N 0 " + hx(conv(p))] + ["O 0 " + hx(s.encode()) for s in part])
            meta.append((p, [(s, 1 + j, 2 + j, None) for j, s in enumerate(part)]))
        L = ["N 0 " + hx(conv(p))]
        lay = []
        for s in short:
            for cs in splits(s.encode()):
                L.append("I 0")
                a = len(L)
                late = r.random() < 0.3
                for j, c in enumerate(cs):
                    L.append("F 0 A %d 1 %s 0" % (j == len(cs) - 1 and not late, hx(c)))
                if late:
                    L.append("F 0 A 1 1 . 0")
                lay.append((s, a, len(L), cs))
        cases.append(L)
        meta.append((p, lay))

    def text(letters):
        s = []
        for _ in range(r.choice([0, 1, 2, 4, 8, 20, 60])):
            k = r.random()
            if k < 0.4:
                s.append("".join(r.choice(WS) for _ in range(r.choice([1, 1, 2, 5]))))
            elif letters:
                s.append("".join(r.choice(letters) for _ in range(r.choice([1, 1, 2, 4]))))
            else:
                s.append(chr(r.choice(A)))
        return "".join(s)
    for _ in range(ck.n(60, 1500)):
        p = r.choice(PAIRS[:3] + PAIRS[6:])
        L = ["N 0 " + hx(conv(p))]
        lay = []
        for _ in range(30):
            s = text("")
            cs = gen.split(r, s.encode())
            L.append("I 0")
            a = len(L)
            for j, c in enumerate(cs):
                L.append("F 0 A %d 1 %s 0" % (j == len(cs) - 1, hx(c)))
            lay.append((s, a, len(L), cs))
        cases.append(L)
        meta.append((p, lay))

    # texts and runs of whitespace around the limits of small integers
    for n in scale.pick(r, ck.n(16, 99)) + [65537, 140000]:
        p = r.choice(PAIRS[:3] + PAIRS[6:] + ["D:NFC:R", "D:NFD:R", "D:NFD:NFC:R"] * 4)
        L = ["N 0 " + hx(conv(p))]
        lay = []
        # marks that a phase in between holds back when the whitespace is taken out
        held = ""
        while len(held) < n * 3:
            held += r.choice(["q", "q\u0323", "q\u0323\u0307", "q\u0323 \n", "q\u0323\u0307\t", " "])
        body = "".join(r.choice("ab中 \n") for _ in range(n))
        for s in (body, held, "x" * (n - 1) + " " + "y" * 3 + " \n", "a" + "".join(r.choice(WS) for _ in range(n)) + "b c", "中" * n + "\t" + "ж" * n + " "):
            b = s.encode()
            k = r.choice([len(b) + 1, 1000, 4096])
            cs = [b[i:i + k] for i in range(0, len(b), k)]
            L.append("I 0")
            a = len(L)
            L += ["F 0 A %d 1 %s 0" % (j == len(cs) - 1, hx(c)) for j, c in enumerate(cs)]
            lay.append((s, a, len(L), cs))
        cases.append(L)
        meta.append((p, lay))

    def note(s, cs):
        n = sum(c in WS for c in s)
        cov["whitespace"] += n
        cov["leading"] += s[:1] in WS and bool(s)
        cov["trailing"] += s[-1:] in WS and bool(s)
        cov["runs"] += any(a in WS and b in WS for a, b in zip(s, s[1:]))
        if cs:
            cov["cut_inside_run"] += any(a[-1:] in b"\t\n\r " and b[:1] in b"\t\n\r " and a and b for a, b in zip(cs, cs[1:]))
        return n

    for L, x, (p, lay) in zip(cases, ck.run("asan", cases), meta):
        if isinstance(x, Crash):
            ck.crash(x, conv(p), commands=L)
            continue
        if not x[0].startswith("ok"):
            ck.violation("create:" + p, "%s cannot be created: %s" % (conv(p), x[0]), commands=L[:1])
            continue
        for s, a, z, cs in lay:
            g = un(x[a].split(" ")[0]) or b"" if cs is None else b"".join(un(y) or b"" for y in x[a:z])
            w = (up[p](s) if "UPPER" in p else s).encode()
            ck.saw((p, s, tuple(cs or ())), note(s, cs) > 0)
            if g != w:
                ck.violation("identity:" + p, "%s turns %r%s into %r" % (conv(p), s[:200], " in pieces %r" % (cs[:10],) if cs else "", g[:500]), text=s[:5000], length=len(s), commands=L[:1] + L[a - (cs is not None):z])

    # ---- phases in between
    plan, asked = [], []
    for _ in range(ck.n(500, 12000)):
        b = r.choice(list(BETWEEN))
        ss = [text(BETWEEN[b] + ("q" if r.random() < 0.3 else "")) for _ in range(12)]
        plan.append((b, ss))
        pre = [q for s in ss for q in prefixes(s)]
        asked.append(["N 0 " + hx("UTF-8:%s:UTF-8" % b if b else "UTF-8:UTF-8")] + ["O 0 " + hx(q.encode()) for q in pre])
    cases, meta = [], []
    for (b, ss), L0, x in zip(plan, asked, ck.run("asan", asked)):
        if isinstance(x, Crash):
            ck.crash(x, b, commands=L0)
            continue
        sep = ":" + b + ":" if b else ":"
        L = ["N 0 " + hx("UTF-8:WHITESPACE-DERAIL%sWHITESPACE-RERAIL:UTF-8" % sep), "N 1 " + hx("UTF-8:WHITESPACE-DERAIL%sUTF-8" % sep)]
        lay = []
        ans = iter(x[1:])
        for s in ss:
            same = True
            for q in prefixes(s):
                t = (un(next(ans).split(" ")[0]) or b"").decode()
                same = same and len(t) == len(q)
            cs = gen.split(r, s.encode())
            L.append("I 0")
            a = len(L)
            for j, c in enumerate(cs):
                L.append("F 0 A %d 1 %s 0" % (j == len(cs) - 1, hx(c)))
            z = len(L)
            L += ["O 0 " + hx(s.encode()), "O 1 " + hx(s.encode())]
            lay.append((s, t, same, a, z, cs))
        cases.append(L)
        meta.append((b, lay))
    for L, x, (b, lay) in zip(cases, ck.run("asan", cases), meta):
        if isinstance(x, Crash):
            ck.crash(x, b, commands=L)
            continue
        for s, t, same, a, z, cs in lay:
            gs = [("in pieces %r" % (cs,), b"".join(un(y) or b"" for y in x[a:z])), ("whole", un(x[z].split(" ")[0]) or b"")]
            alone = (un(x[z + 1].split(" ")[0]) or b"").decode("utf-8", "replace")
            ck.saw((b, s, tuple(cs)), note(s, cs) > 0)
            if alone != t:
                ck.violation("between:" + b, "phases after WHITESPACE-DERAIL see something else than the text without whitespace: %s makes %r of %r, not %r" % (b, alone, s, t), text=s, commands=L[:2] + L[z + 1:z + 2])
            if any(c in WS for c in t):
                continue
            cov["same_number" if same else "number_changed"] += 1
            for how, g in gs:
                g = g.decode("utf-8", "replace")
                if same:
                    if g != put_back(s, t):
                        ck.violation("place:" + b, "%s between: %r %s gives %r, not %r" % (b, s, how, g, put_back(s, t)), text=s, commands=L[:1] + L[a - 1:z + 1])
                else:
                    if strip(g) != t:
                        ck.violation("text:" + b, "%s between: %r %s gives the text %r, not %r" % (b, s, how, strip(g), t), text=s, commands=L[:1] + L[a - 1:z + 1])
                    if [c for c in g if c in WS] != [c for c in s if c in WS]:
                        ck.violation("lost:" + b, "%s between: %r %s gives %r, whitespace is not the same" % (b, s, how, g), text=s, commands=L[:1] + L[a - 1:z + 1])
    # one codec of the pair alone; data that is not Unicode
    cs, want = [], []
    for _ in range(ck.n(100, 1000)):
        s = text("ab中é")
        for c, w in (("UTF-8:WHITESPACE-DERAIL:UTF-8", strip(s)), ("UTF-8:WHITESPACE-RERAIL:UTF-8", s), ("BYTE:WHITESPACE-DERAIL:WHITESPACE-RERAIL:BYTE", s), ("BYTE:WHITESPACE-DERAIL:BYTE", s)):
            cs.append(["X %s %s" % (hx(c), hx(s.encode()))])
            want.append((c, s, w))
    for L, x, (c, s, w) in zip(cs, ck.run("asan", cs), want):
        if isinstance(x, Crash):
            ck.crash(x, c, commands=L)
            continue
        ck.saw((c, s))
        if (un(x[0].split(" ")[0]) or b"") != w.encode():
            ck.violation("alone:" + c, "%s makes %s of %r" % (c, x[0], s), commands=L)
    ck.cov["observed"] = cov
    ck.sample({"text": repr(text("ab"))})
