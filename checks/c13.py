"""C13: NFC, NFD, NFKC, NFKD against the Unicode character database."""
import unicodedata
from vlib import gen, scale, uni
from vlib.driver import Crash, hx, un

FORMS = ("NFC", "NFD", "NFKC", "NFKD")


def run(ck):
    r = ck.r
    t = ck.tree("asan")
    ck.rule = ("every assigned character alone, every canonical composition pair (adjacent, with a blocking or a non-blocking mark in between, in reverse), every Hangul syllable from its jamo and from LV + T, and random "
               "strings rich in marks of all combining classes in any order, jamo, composites, singletons, compatibility characters and composition exclusions, against Python's unicodedata; the result normalised again "
               "must not change; canonically equivalent spellings (decomposed, recomposed, marks reordered) must give equal results. Fed whole or in pieces. Distinct: (form, string)")
    A = uni.assigned13()
    As = set(A)
    ck.assumptions = ["assigned in Unicode 13.0, the version of the shipped data; normalisation of these characters is stable, so unicodedata %s decides" % unicodedata.unidata_version]
    marks = [c for c in A if unicodedata.combining(chr(c))]
    byccc = {}
    for c in marks:
        byccc.setdefault(unicodedata.combining(chr(c)), []).append(c)
    classes = sorted(byccc)
    canon, compat = [], []
    pairs = []
    for c in A:
        d = unicodedata.decomposition(chr(c))
        if not d:
            continue
        if d.startswith("<"):
            compat.append(c)
        else:
            canon.append(c)
            x = [int(y, 16) for y in d.split()]
            if len(x) == 2:
                pairs.append((x[0], x[1], c))
    bases = sorted({a for a, _, _ in pairs})
    jamo = list(range(0x1100, 0x1200)) + list(range(0xa960, 0xa97d)) + list(range(0xd7b0, 0xd7c7)) + list(range(0xd7cb, 0xd7fc))
    strings = [chr(c) for c in A]
    for a, b, c in pairs:
        ca, cb = chr(a), chr(b)
        cl = unicodedata.combining(cb)
        strings += [ca + cb, cb + ca, ca + cb + cb, chr(c) + cb]
        for _ in range(2):
            m = chr(r.choice(marks))
            strings += [ca + m + cb, ca + cb + m, m + ca + cb]
        if cl:
            strings.append(ca + chr(r.choice(byccc[cl])) + cb)
    for s in range(11172):
        L, V, T = 0x1100 + s // 588, 0x1161 + s % 588 // 28, 0x11a7 + s % 28
        x = chr(L) + chr(V)
        if s % 28:
            strings.append(x + chr(T))
            strings.append(chr(0xac00 + s - s % 28) + chr(T))
        else:
            strings.append(x)
            strings.append(chr(0xac00 + s) + chr(r.choice([0x11a7, 0x11a8, 0x11c2, 0x11c3, 0x1161, 0x300])))
    edge = [0x10ff, 0x1100, 0x1112, 0x1113, 0x1160, 0x1161, 0x1175, 0x1176, 0x11a7, 0x11a8, 0x11c2, 0x11c3, 0xac00, 0xac01, 0xd7a3, 0xac1c]
    for a in edge:
        for b in edge:
            for c in edge:
                if a in As and b in As and c in As:
                    strings.append(chr(a) + chr(b) + chr(c))
    nstruct = len(strings)

    def one():
        k = r.random()
        if k < 0.3:
            return chr(r.choice(bases)) if r.random() < 0.8 else chr(r.choice(canon))
        if k < 0.6:
            return "".join(chr(r.choice(byccc[r.choice(classes)])) for _ in range(r.choice([1, 1, 2, 2, 3, 6])))
        if k < 0.7:
            return chr(r.choice(marks))
        if k < 0.78:
            return chr(r.choice(jamo)) if r.random() < 0.5 else chr(r.randrange(0xac00, 0xd7a4))
        if k < 0.84:
            a, b, c = r.choice(pairs)
            return r.choice([chr(a) + chr(b), chr(c)])
        if k < 0.9:
            return chr(r.choice(compat))
        if k < 0.95:
            return chr(r.choice(canon))
        return chr(r.choice(A))

    equiv = []
    for _ in range(ck.n(120000, 600000)):
        s = "".join(one() for _ in range(r.choice([1, 2, 3, 4, 6, 10, 16])))
        if r.random() < 0.02:
            s = chr(r.choice(bases)) + "".join(chr(r.choice(marks)) for _ in range(r.choice([30, 60, 120]))) + s
        strings.append(s)
    # long texts, and long runs of marks in the order that has to be sorted most
    for n in scale.pick(r, ck.n(12, 99)) + [70000]:
        strings.append("".join(one() for _ in range(n // 3 + 1)))
        if n < 5000:
            a = [chr(r.choice(marks)) for _ in range(n)]
            if r.random() < 0.5:
                a.sort(key=lambda c: -unicodedata.combining(c))
            strings.append(chr(r.choice(bases)) + "".join(a) + "e\u0301")
        strings.append(r.choice(["e\u0323\u0302", "각", "\u1100\u1161\u11a8", "ﬃ", "\u0344", "a", "か\u3099"]) * n)
    # canonically equivalent spellings of a sample
    for _ in range(ck.n(15000, 150000)):
        s = r.choice(strings[nstruct:])
        if len(s) > 500:
            continue
        alt = []
        for ch in s:
            d = unicodedata.normalize("NFD", ch)
            alt.append(r.choice([ch, d, unicodedata.normalize("NFC", ch)]))
        a = list("".join(alt))
        for _ in range(6):
            i = r.randrange(len(a))
            if i + 1 < len(a):
                x, y = unicodedata.combining(a[i]), unicodedata.combining(a[i + 1])
                if x and y and x != y:
                    a[i], a[i + 1] = a[i + 1], a[i]
        equiv.append((s, "".join(a)))
        strings.append("".join(a))
    per = 400
    cases, meta = [], []
    codecs = [("00,UTF-8", "utf-8"), ("UTF-16BE", "utf-16-be"), ("UTF-32LE", "utf-32-le")]
    for f in FORMS:
        for i in range(0, len(strings), per):
            part = strings[i:i + per]
            nm, py = r.choice(codecs)
            conv = "%s:%s:%s" % (nm, f, nm)
            again = "%s:%s:%s:%s" % (nm, f, f, nm)
            L = ["N 0 " + hx(conv), "N 1 " + hx(again)]
            lay = []
            for s in part:
                b = s.encode(py)
                if r.random() < 0.25:
                    cs = gen.split(r, b)
                    L.append("I 0")
                    a = len(L)
                    for j, c in enumerate(cs):
                        L.append("F 0 A %d 1 %s 0" % (j == len(cs) - 1, hx(c)))
                    lay.append((s, a, len(L), True))
                else:
                    L.append("O 0 " + hx(b))
                    lay.append((s, len(L) - 1, len(L), False))
                if r.random() < 0.15:
                    L.append("O 1 " + hx(b))
                    lay.append((s, len(L) - 1, len(L), False))
            cases.append(L)
            meta.append((f, conv, nm, py, lay))
    changed = 0
    res = {}
    for L, x, (f, conv, nm, py, lay) in zip(cases, ck.run("asan", cases), meta):
        if isinstance(x, Crash):
            ck.crash(x, conv, commands=L)
            continue
        if not (x[0].startswith("ok") and x[1].startswith("ok")):
            ck.violation("create:" + f, "%s cannot be created: %s" % (conv, x[:2]), commands=L[:2])
            continue
        for s, a, e, pieces in lay:
            got = b"".join(un(y) or b"" for y in x[a:e]) if pieces else un(x[a].split(" ")[0])
            w = unicodedata.normalize(f, s)
            ck.saw((f, s), w != s or len(s) > 1)
            changed += w != s
            if got != w.encode(py):
                g = got.decode(py, "replace")
                ck.violation("form:" + f, "%s of %s%s gives %s, Unicode says %s" % (L[a].split(" ")[1] == "1" and "again " + conv or conv, [hex(ord(c)) for c in s], " in pieces" if pieces else "",
                                                                                 [hex(ord(c)) for c in g], [hex(ord(c)) for c in w]), commands=L[:2] + L[(a - 1 if pieces else a):e])
            res[(f, s)] = got.decode(py, "replace")
    neq = 0
    for s, a in equiv:
        if s == a:
            continue
        neq += 1
        for f in FORMS:
            if (f, s) in res and (f, a) in res and res[(f, s)] != res[(f, a)]:
                ck.violation("equivalence:" + f, "%s gives different results for the canonically equivalent %s and %s" % (f, [hex(ord(c)) for c in s], [hex(ord(c)) for c in a]))
    ck.sample([hex(ord(c)) for c in strings[-1]])
    ck.sample([hex(ord(c)) for c in strings[nstruct + 7]])
    ck.cov.update(assigned_characters=len(A), composition_pairs=len(pairs), combining_classes=len(classes), marks=len(marks), results_that_differ_from_their_source=changed, equivalent_spellings_compared=neq)
