"""C17: width counting, trimming, ambiguous padding."""
import unicodedata
from vlib import gen, scale, uni
from vlib.driver import Crash, hx, un, counters

PAD = 4                     # BSDCONV_CTL_AMBIGUOUS_PAD
CTL = set(range(0x20)) | set(range(0x7f, 0xa0))


def eaw(c):
    """East Asian Width as the counters name it; control characters have none"""
    if c in CTL:
        return None
    w = unicodedata.east_asian_width(chr(c))
    return "FULL" if w in "FW" else "AMBI" if w == "A" else "HALF"


def run(ck):
    r = ck.r
    A = list(uni.assigned13())
    pua = [0xe000, 0xf8ff, 0xf0000, 0xffffd, 0x100000, 0x10fffd, 0xf1234, 0xe123]
    ALL = A + [c for c in pua if c not in set(A)]
    K = {c: eaw(c) for c in ALL}
    by = {k: [c for c in ALL if K[c] == k] for k in ("FULL", "HALF", "AMBI", None)}
    ctl = sorted(CTL)
    ck.rule = ("WIDTH: every assigned character alone and random strings of up to 200; TRIM-WIDTH: random strings over all classes, widths from negative to beyond the string, both treatments of ambiguous characters, in pieces; AMBIGUOUS-PAD: "
               "every assigned character, with the control switched at piece boundaries, and padding followed by unpadding. Oracle: unicodedata east_asian_width (F, W full; A ambiguous; the rest half; control characters none). "
               "Distinct: (conversion, text, pieces)")
    cov = {"classes": {str(k): len(v) for k, v in by.items()}, "trims": 0, "trimmed": 0, "exactly_full": 0, "wide_does_not_fit": 0, "pads": 0, "control_switches": 0}

    def text(n):
        out = []
        for _ in range(n):
            k = r.random()
            if k < 0.3:
                out.append(r.choice(by["FULL"]))
            elif k < 0.5:
                out.append(r.choice(by["AMBI"]))
            elif k < 0.55:
                out.append(r.choice(ctl))
            elif k < 0.65:
                out.append(0xa0)
            elif k < 0.8:
                out.append(r.choice(by["HALF"]))
            else:
                out.append(r.choice([0x61, 0x20, 0x7e, 0xa1, 0x300, 0x4e00, 0x3042, 0xff61, 0xff01, 0x2010]))
        return out

    # ---- WIDTH, every character and strings
    cases, meta = [], []
    order = ALL[:]
    r.shuffle(order)
    for i in range(0, len(order), 3000):
        part = [[c] for c in order[i:i + 3000]]
        cases.append(["N 0 " + hx("UTF-32BE:WIDTH:UTF-32BE")] + ["O 0 " + hx(uni.u32(s)) for s in part])
        meta.append(part)
    for _ in range(ck.n(60, 2000)):
        part = [text(r.choice([0, 1, 2, 5, 30, 200])) for _ in range(50)]
        cases.append(["N 0 " + hx("UTF-32BE:WIDTH:UTF-32BE")] + ["O 0 " + hx(uni.u32(s)) for s in part])
        meta.append(part)
    for L, x, part in zip(cases, ck.run("asan", cases), meta):
        if isinstance(x, Crash):
            ck.crash(x, "WIDTH", commands=L)
            continue
        for s, y, cmd in zip(part, x[1:], L[1:]):
            o, k = y.split(" ")
            k = counters(k)
            w = {n: sum(K.get(c, eaw(c)) == n for c in s) for n in ("FULL", "HALF", "AMBI")}
            ck.saw(("width", tuple(s)), bool(s))
            if (un(o) or b"") != uni.u32(s):
                ck.violation("width-text", "WIDTH changes the text %s to %s" % (["%X" % c for c in s[:20]], o), commands=L[:1] + [cmd])
            for n in w:
                if k.get(n, 0) != w[n]:
                    ck.violation("width:%s" % ("%X" % s[0] if len(s) == 1 else n), "WIDTH counts %s %d, not %d, in %s" % (n, k.get(n, 0), w[n], ["%X" % c for c in s[:20]]), commands=L[:1] + [cmd])
                    break

    # counted once by each WIDTH, over pieces, whatever is around it
    cases, meta = [], []
    for n in [None] * ck.n(60, 1500) + scale.pick(r, ck.n(12, 99)) + [140000]:
        conv, times = r.choice([("UTF-8:WIDTH:UTF-8", 1), ("UTF-8:WIDTH:WIDTH:UTF-8", 2), ("UTF-8:WIDTH:NULL", 1), ("UTF-8:AMBIGUOUS-PAD:AMBIGUOUS-UNPAD:WIDTH:UTF-8", 1), ("UTF-8:WIDTH:UTF-16LE|UTF-16LE:WIDTH:UTF-8", 2)])
        if n:
            # one class more often than small integers can say
            s = [r.choice(by[r.choice(["FULL", "HALF", "AMBI"])])] * n + [c for c in text(20) if c]
            r.random() < 0.5 and r.shuffle(s)
        else:
            s = [c for c in text(r.choice([1, 5, 40, 150])) if c]
        b = "".join(map(chr, s)).encode()
        cs = [b[i:i + 5000] for i in range(0, len(b), 5000)] if n else gen.split(r, b)
        cases.append(["N 0 " + hx(conv), "I 0"] + ["F 0 A %d 1 %s 0" % (j == len(cs) - 1, hx(c)) for j, c in enumerate(cs)] + ["G 0 " + hx(n) for n in ("FULL", "HALF", "AMBI")])
        meta.append((conv, times, s))
    for L, x, (conv, times, s) in zip(cases, ck.run("asan", cases), meta):
        if isinstance(x, Crash):
            ck.crash(x, conv, commands=L)
            continue
        ck.saw((conv, tuple(s), len(L)))
        for n, y in zip(("FULL", "HALF", "AMBI"), x[-3:]):
            w = times * sum(K.get(c, eaw(c)) == n for c in s)
            if int(y.split()[-1]) != w:
                ck.violation("width-pieces:" + n, "%s counts %s %s, not %d" % (conv, n, y, w), text=s, commands=L)

    # ---- TRIM-WIDTH
    cases, meta = [], []
    for far in [None] * ck.n(600, 15000) + scale.pick(r, ck.n(16, 99)):
        wide = r.random() < 0.5
        L = None
        lay = []
        top = r.choice([3, 8, 40])
        w = r.choice([0, 1, 2, 3, 4, 5, 7, 10, 20, 1000, 2 ** 31 - 1, -1, -7] + [r.randrange(2 * top)] * 6)
        arg = ["%d" % w] + ([r.choice(["AMBI-AS-WIDE", "AMBIGUOUS-AS-WIDE", "ambi-as-wide"])] if wide else [])
        r.shuffle(arg)
        L = ["N 0 " + hx("UTF-32BE:TRIM-WIDTH#%s:UTF-32BE" % "&".join(arg))]
        if far:
            w = far + r.choice([-1, 0, 1])
            arg[[a[0] in "aA" for a in arg].index(False)] = "%d" % w
            L = ["N 0 " + hx("UTF-32BE:TRIM-WIDTH#%s:UTF-32BE" % "&".join(arg))]
        for _ in range(2 if far else 12):
            if far:
                s = (text(50) * (far // 20 + 1))[:r.choice([far - 1, far, far + 70])] if r.random() < 0.5 else [r.choice(by["HALF"])] * (far + r.randrange(-2, 3)) + text(5)
            else:
                s = text(r.randrange(top + 1))
            b = uni.u32(s)
            cs = [b] if r.random() < 0.5 else [b[i:i + 4000] for i in range(0, len(b), 4000)] if far else gen.split(r, b)
            L.append("I 0")
            a = len(L)
            for j, c in enumerate(cs):
                L.append("F 0 A %d 1 %s 0" % (j == len(cs) - 1, hx(c)))
            lay.append((s, a, len(L)))
        cases.append(L)
        meta.append((w, wide, lay))
    for L, x, (w, wide, lay) in zip(cases, ck.run("asan", cases), meta):
        if isinstance(x, Crash):
            ck.crash(x, "TRIM-WIDTH", commands=L)
            continue
        if not x[0].startswith("ok"):
            ck.violation("trim-create", "cannot be created: %s" % x[0], commands=L[:1])
            continue
        for s, a, z in lay:
            left, n = w, 0
            for c in s:
                k = {"FULL": 2, "HALF": 1, "AMBI": 2 if wide else 1, None: 0}[K.get(c, eaw(c))]
                if k > left:
                    cov["wide_does_not_fit"] += left == 1
                    break
                left -= k
                n += 1
            cov["trims"] += 1
            cov["trimmed"] += n < len(s)
            cov["exactly_full"] += left == 0
            g = b"".join(un(y) or b"" for y in x[a:z])
            ck.saw(("trim", w, wide, tuple(s), z - a), n < len(s))
            if g != uni.u32(s[:n]):
                ck.violation("trim", "TRIM-WIDTH to %d%s keeps %d characters of %s, not %d" % (w, ", ambiguous as wide" if wide else "", len(g) // 4, ["%X" % c for c in s], n), commands=L[:1] + L[a - 1:z])
    # data of other kinds has no width; bad arguments are refused
    cs = [["X %s %s" % (hx(c), hx(i))] for c, i in (
        ("BYTE:TRIM-WIDTH#0:BYTE", b"ab"), ("BYTE,UTF-8:TRIM-WIDTH#3:BYTE,UTF-8", b"a"), ("UTF-8:TRIM-WIDTH:UTF-8", b"a"), ("UTF-8:TRIM-WIDTH#:UTF-8", b"a"), ("UTF-8:TRIM-WIDTH#AMBI-AS-WIDE:UTF-8", b"a"),
        ("UTF-8:TRIM-WIDTH#x:UTF-8", b"a"), ("UTF-8:TRIM-WIDTH#5&WIDE:UTF-8", b"a"), ("UTF-8:TRIM-WIDTH#3:UTF-8", b"a"))]
    want = ["6162 ", None, "null ", "null ", "null ", "null ", "null ", "61 "]
    for L, x, w in zip(cs, ck.run("asan", cs), want):
        if isinstance(x, Crash):
            ck.crash(x, "TRIM-WIDTH arguments", commands=L)
            continue
        ck.saw(tuple(L))
        if w and not x[0].startswith(w):
            ck.violation("trim-args", "%s gives %s, not %s" % (bytes.fromhex(L[0].split()[1]).decode(), x[0], w), commands=L)

    # ---- padding
    NB = 0xa0

    def pad(s, on):
        return [d for c in s for d in ([c, NB] if on and K.get(c, eaw(c)) == "AMBI" else [c])]

    def unpad(s, st, on):
        out = []
        for c in s:
            if st and c == NB:
                st = False
                continue
            st = on and K.get(c, eaw(c)) == "AMBI"
            out.append(c)
        return out, st

    cases, meta = [], []
    big = ALL[:]
    r.shuffle(big)
    texts = [big[i:i + 2000] for i in range(0, len(big), 2000)] + [text(r.choice([1, 3, 10, 60])) for _ in range(ck.n(400, 10000))]
    texts += [[r.choice(by["AMBI"])] * n + text(5) for n in scale.pick(r, ck.n(6, 99)) + [70000]]
    for s in texts:
        L = ["N 0 " + hx("UTF-32BE:AMBIGUOUS-PAD:UTF-32BE"), "N 1 " + hx("UTF-32BE:AMBIGUOUS-UNPAD:UTF-32BE"), "N 2 " + hx("UTF-32BE:AMBIGUOUS-PAD:AMBIGUOUS-UNPAD:UTF-32BE"),
             "O 0 " + hx(uni.u32(s)), "O 1 " + hx(uni.u32(pad(s, True))), "O 2 " + hx(uni.u32(s)), "O 1 " + hx(uni.u32(s))]
        want = [pad(s, True), s, s, unpad(s, False, True)[0]]
        # the control call between pieces
        pieces = []
        for slot, f in ((0, "pad"), (1, "unpad")):
            p, q = s[:60], []
            while p:
                n = r.choice([1, 1, 2, 3, 10])
                q.append(p[:n])
                p = p[n:]
            L.append("I %d" % slot)
            on, st = True, False
            for j, c in enumerate(q):
                if r.random() < 0.4:
                    on = r.random() < 0.5
                    L.append("ctl %d %d %d" % (slot, PAD, on))
                    cov["control_switches"] += 1
                a = len(L)
                L.append("F %d A %d 1 %s 0" % (slot, j == len(q) - 1, hx(uni.u32(c))))
                if f == "pad":
                    o = pad(c, on)
                else:
                    o, st = unpad(c, st, on)
                pieces.append((f, a, o))
        L.append("O 0 " + hx(uni.u32(s)))                   # init puts it back
        cases.append(L)
        meta.append((s, want, pieces))
    for L, x, (s, want, pieces) in zip(cases, ck.run("asan", cases), meta):
        if isinstance(x, Crash):
            ck.crash(x, "AMBIGUOUS-PAD", commands=L)
            continue
        res = [un(y.split(" ")[0]) or b"" for y in x[3:7]] + [un(x[-1].split(" ")[0]) or b""]
        cov["pads"] += len(want[0]) - len(s)
        ck.saw(("pad", tuple(s)), len(want[0]) > len(s))
        for nm, g, w in zip(("AMBIGUOUS-PAD", "AMBIGUOUS-UNPAD of padded text", "AMBIGUOUS-PAD:AMBIGUOUS-UNPAD", "AMBIGUOUS-UNPAD", "AMBIGUOUS-PAD after it had been switched and initialised"), res, want + want[:1]):
            if g != uni.u32(w):
                d = next((i for i in range(0, min(len(g), 4 * len(w)), 4) if g[i:i + 4] != uni.u32(w)[i:i + 4]), min(len(g), 4 * len(w)))
                ck.violation("pad:" + nm.split(" ")[0], "%s is wrong at character %d near %s" % (nm, d // 4, ["%X" % c for c in w[max(0, d // 4 - 2):d // 4 + 2]]), commands=L)
        for f, a, w in pieces:
            if (un(x[a]) or b"") != uni.u32(w):
                ck.violation("pad-control:" + f, "%s with the control switched: %s, not %s" % (f, x[a], uni.u32(w).hex()), commands=L)
    ck.cov["observed"] = cov
    ck.sample({"trim": "TRIM-WIDTH#3", "text": ["%X" % c for c in text(6)]})
