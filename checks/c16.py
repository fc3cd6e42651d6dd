"""C16: newline conversions."""
import itertools, re
from vlib import gen, scale, uni
from vlib.driver import Crash, hx, un, counters

EOL = re.compile("\r\n|\r|\n")
KIND = {"UNIX": "\n", "WIN": "\r\n", "MAC": "\r", "NL2BR": "<br />"}


def model(s, chain):
    for k in chain:
        s = EOL.sub(KIND[k], s)
    return s


def splits(b):
    """all ways of cutting b"""
    for m in range(1 << (len(b) - 1)) if b else [0]:
        out, a = [], 0
        for i in range(1, len(b)):
            if m >> (i - 1) & 1:
                out.append(b[a:i])
                a = i
        out.append(b[a:])
        yield out


def run(ck):
    r = ck.r
    A = uni.assigned13()
    ck.rule = ("every string of up to %d units over CR, LF and text, whole, and every string of up to 5 units in every way of cutting its bytes, through UNIX, WIN, MAC, NL2BR and chains of two, and through lists that name them with other codecs; random texts with runs of CR and LF next to "
               "characters whose bytes are 0D and 0A, in UTF-8, UTF-16 and UTF-32 and at cuts inside characters; data that is not Unicode must pass. Oracle: one replacement per CR LF, CR or LF, left to right. Distinct: (chain, text, cut)") % ck.n(7, 9)
    chains = [(k,) for k in KIND] + [(a, b) for a in KIND for b in KIND]
    cases, meta = [], []
    cov = {"line_endings": 0, "cut_inside_crlf": 0, "chains": {}}
    alpha = "\r\na"
    ex = ["".join(t) for n in range(0, ck.n(7, 9) + 1) for t in itertools.product(alpha, repeat=n)]
    for ch in chains:
        sub = ex if len(ch) == 1 else [s for s in ex if len(s) <= ck.n(6, 8)]
        cov["chains"][":".join(ch)] = len(sub)
        for i in range(0, len(sub), 600):
            part = sub[i:i + 600]
            cases.append(["N 0 " + hx("UTF-8:%s:UTF-8" % ":".join(ch))] + ["O 0 " + hx(s.encode()) for s in part])
            meta.append((ch, "utf-8", [(s, 1 + j, 2 + j, None) for j, s in enumerate(part)]))
    # every cut
    short = ["".join(t) for n in range(1, 6) for t in itertools.product(alpha, repeat=n)]
    for ch in [(k,) for k in KIND] + [("WIN", "UNIX"), ("MAC", "WIN"), ("UNIX", "WIN")]:
        L = ["N 0 " + hx("UTF-8:%s:UTF-8" % ":".join(ch))]
        lay = []
        for s in short:
            for cs in splits(s.encode()):
                L.append("I 0")
                a = len(L)
                late = r.random() < 0.3          # the end is announced with an empty input
                for j, c in enumerate(cs):
                    L.append("F 0 A %d 1 %s 0" % (j == len(cs) - 1 and not late, hx(c)))
                if late:
                    L.append("F 0 A 1 1 . 0")
                lay.append((s, a, len(L), cs))
            if len(L) > 6000:
                cases.append(L)
                meta.append((ch, "utf-8", lay))
                L, lay = L[:1], []
        cases.append(L)
        meta.append((ch, "utf-8", lay))
    # listed with other codecs: the first one to know a line ending has it
    for k in KIND:
        for lst, w in [("ZHTW," + k, k), (k + ",ZHTW", k), ("ZHTW,HALF,ZHTW-WORDS,%s,ZHCN" % k, k)] + [("%s,%s" % (k, o), k) for o in KIND if o != k] + [("ZH-FUZZY-TW,%s,%s" % (k, o), k) for o in KIND if o != k]:
            L = ["N 0 " + hx("UTF-8:%s:UTF-8" % lst)]
            lay = []
            for s in short:
                if len(s) > 4:
                    continue
                for cs in splits(s.encode()):
                    L.append("I 0")
                    a = len(L)
                    late = r.random() < 0.3
                    for j, c in enumerate(cs):
                        L.append("F 0 A %d 1 %s 0" % (j == len(cs) - 1 and not late, hx(c)))
                    if late:
                        L.append("F 0 A 1 1 . 0")
                    lay.append((s, a, len(L), cs))
            cases.append(L)
            meta.append(((w,), "utf-8", lay))
            cov["lists"] = cov.get("lists", 0) + 1
    # random
    near = [0x0d0a, 0x0a0d, 0x0d0d, 0x0a0a, 0x0d00, 0x0a00, 0x010d, 0x010a, 0x0d, 0x0a, 0x85, 0x2028, 0x2029, 0x0b, 0x0c, 0x10d0a, 0x10a0d, 0x1f60a, 0x40d, 0x3c]
    near = [c for c in near]

    def text():
        s = []
        for _ in range(r.choice([1, 3, 6, 12, 40, 120])):
            k = r.random()
            if k < 0.5:
                s.append(r.choice(["\r", "\n", "\r\n", "\r\r\n", "\n\r", "\r\n\r\n"]))
            elif k < 0.75:
                s.append(chr(r.choice(near)))
            else:
                s.append(chr(r.choice(A)))
        return "".join(s)
    encs = [("00,UTF-8", "utf-8"), ("UTF-16LE", "utf-16-le"), ("UTF-16BE", "utf-16-be"), ("UTF-32LE", "utf-32-le"), ("UTF-32BE", "utf-32-be")]
    for _ in range(ck.n(300, 8000)):
        ch = r.choice(chains)
        nm, py = r.choice(encs)
        sep = "|" if False else ":"
        L = ["N 0 " + hx("%s:%s:%s" % (nm, sep.join(ch), nm))]
        lay = []
        for far in [None] * 40 + (scale.pick(r, 1) if r.random() < 0.1 else []):
            s = text() if not far else (text() * (far // 2 + 1))[:far] if r.random() < 0.5 else r.choice(["\r", "\n", "\r\n", "a\r"]) * far
            b = s.encode(py)
            cs = gen.split(r, b)
            L.append("I 0")
            a = len(L)
            for j, c in enumerate(cs):
                L.append("F 0 A %d 1 %s 0" % (j == len(cs) - 1, hx(c)))
            lay.append((s, a, len(L), cs))
        cases.append(L)
        meta.append((ch, py, lay))
    for L, x, (ch, py, lay) in zip(cases, ck.run("asan", cases), meta):
        if isinstance(x, Crash):
            ck.crash(x, ":".join(ch), commands=L)
            continue
        if not x[0].startswith("ok"):
            ck.violation("create:" + ":".join(ch), "cannot be created: %s" % x[0], commands=L[:1])
            continue
        for s, a, z, cs in lay:
            if cs is None:
                o, k = x[a].split(" ")
                g = un(o) or b""
                k = counters(k)
            else:
                g = b"".join(un(y) or b"" for y in x[a:z])
                k = {}
                cov["cut_inside_crlf"] += any(c.endswith(b"\r") and d.startswith(b"\n") for c, d in zip(cs, cs[1:]))
            w = model(s, ch).encode(py)
            n = len(EOL.findall(s))
            cov["line_endings"] += n
            ck.saw((ch, py, s, tuple(cs or ())), n > 0)
            if g != w or k.get("IERR") or k.get("OERR"):
                ck.violation("newline:" + ":".join(ch), "%s of %r%s gives %r, not %r%s" % (":".join(ch), s, " in pieces %r" % (cs,) if cs else "", g, w, " counters %s" % k if k else ""), chain=ch, text=s, commands=L[:1] + L[a:z])
    # data that is not Unicode
    cs = [["N 0 " + hx("BYTE:%s:BYTE" % k), "O 0 " + hx(b"\r\na\r\n\n\r" * 3)] for k in KIND]
    for k, x in zip(KIND, ck.run("asan", cs)):
        if isinstance(x, Crash):
            ck.crash(x, "BYTE:%s:BYTE" % k)
            continue
        ck.saw(("byte", k))
        if un(x[1].split(" ")[0]) != b"\r\na\r\n\n\r" * 3:
            ck.violation("byte:" + k, "%s changes data that is not Unicode: %s" % (k, x[1]))
    ck.cov["observed"] = cov
    ck.sample({"text": repr(text())})
