"""Histories of API calls shared by several checks."""
import os, shutil, tempfile
from . import gen
from .driver import hx


class Home:
    """Scratch directory for codecs that read or write files below $HOME or named in the environment."""

    def __init__(self):
        self.dir = tempfile.mkdtemp(prefix="vhome")

    def env(self, tree, **kw):
        return tree.env(HOME=self.dir, BSDCONV_FROM_LOG=os.path.join(self.dir, "f"),
                        BSDCONV_TO_LOG=os.path.join(self.dir, "t"), **kw)

    def done(self):
        shutil.rmtree(self.dir, ignore_errors=True)


def feed(slot, mode, flush, data, extra=0, own=1):
    return "F %d %s %d %d %s %d" % (slot, mode, flush, own, hx(data), extra)


def history(r, C, slots=2, reflush=0.15):
    """A random legal use of up to `slots` instances."""
    L = []
    convs = [C.conv() for _ in range(slots)]
    if r.random() < 0.4:
        convs = [convs[0]] * slots
    live = []
    for s, cv in enumerate(convs):
        L.append("N %d %s" % (s, hx(cv)))
        L.append("I %d" % s)
        live.append(s)
    steps = r.choice([2, 4, 8, 14])
    passes = 0 if any(gen.EXPAND.search(c) for c in convs) else 3
    for _ in range(steps):
        s = r.choice(live)
        k = r.random()
        if k < 0.70:
            m = r.choice("AAAHPLWZQ")
            L.append(feed(s, m, int(r.random() < reflush), r.choice([None, b""]) if r.random() < 0.1 else gen.payload(r, 60),
                          r.choice([0, 1, 5, 100]) if m in "AP" else 0, r.choice([0, 1, 1])))
        elif k < 0.80 and len(live) > 1:
            if passes == 0:
                continue
            passes -= 1
            d = r.choice([x for x in live if x != s])
            L.append(feed(s, "S", r.choice([0, 1]), gen.payload(r, 40), d, 1))
            L.append("k %d A %d" % (d, r.choice([0, 1])))
        elif k < 0.86:
            L.append("I %d" % s)
        elif k < 0.88:
            L.append("P %d" % s)
        elif k < 0.90:
            L.append("Z %d %s" % (s, r.choice(["-", hx("IERR"), hx("nosuch")])))
        elif k < 0.92:
            L.append("ctlfile %d %d %s 0" % (s, r.choice([0, 3]), hx(gen.payload(r, 40))))
        elif k < 0.94:
            L.append("ctl %d 4 %d" % (s, r.choice([0, 1])))
        elif k < 0.96:
            L.append("g %d %s 1" % (s, hx(r.choice(["IERR", "foo", "FULL"]))))
        else:
            L.append("churn %d" % r.randrange(256))
    for s in live:
        if r.random() < 0.8:
            L.append(feed(s, "A", 1, r.choice([None, b"", gen.payload(r, 20)])))
        L.append("R %d" % s)
    for s in reversed(live):        # a passed-on datum may refer to the tables of the earlier instance
        L.append("D %d" % s)
    return L, convs


def rails(r, C):
    """whitespace taken out and put back where other codecs share the phases; -> (commands, conversion)"""
    def alt(n):
        c = [C.codec("inter") if r.random() < 0.3 else r.choice(["UPPER", "NFC", "SUB", "PASS", "FULL", "ZHTW-WORDS", "STRINGS#FOR=CJK", "PASS#LIMIT=2", "REPLACE#0161.0162=0178", "BIG5-DEFRAG", "_NFC", "INSERT#AFTER=012C", "ALIAS-FROM"]) for _ in range(r.choice([0, 1, 1, 2]))]
        c = [x for x in c if ":" not in x]
        c.insert(r.randrange(len(c) + 1), n)
        return ",".join(c)
    ph = [alt("WHITESPACE-DERAIL")] + [r.choice(["NFC", "UPPER", "ZHTW:ZHTW-WORDS", "SPLIT", "STRINGS#FOR=CJK", "_NFC", "PASS"]) for _ in range(r.choice([0, 0, 1, 2]))] + [alt("WHITESPACE-RERAIL")]
    if r.random() < 0.15:
        ph.reverse()
    if r.random() < 0.2:
        ph += [alt("WHITESPACE-DERAIL"), alt("WHITESPACE-RERAIL")]
    cv = ":".join(["UTF-8,BYTE"] + ph + [r.choice(["UTF-8,BYTE", "BSDCONV", "ASCII"])])
    L = ["N 0 " + hx(cv)]
    for _ in range(r.choice([1, 2, 3])):
        L.append("I 0")
        t = "".join(r.choice([" ", "\n", "\t", "a", "b", "ab", "\u8ba1\u7b97\u673a", "\u8ba1", "e\u0301", "Q"]) for _ in range(r.choice([1, 2, 3, 5, 9, 20]))).encode() + r.choice([b"", b"", b"\xff "])
        cs = gen.split(r, t)
        for i, c in enumerate(cs):
            L.append(feed(0, r.choice("AAHP"), int(i == len(cs) - 1 and r.random() < 0.8), c))
    return L + ["R 0", "D 0"], cv


BADCONV = ["", ":", "::", "|", "A", "UTF-8", "UTF-8:", ":UTF-8", "UTF-8:UTF-8|", "|UTF-8:UTF-8", "UTF-8::UTF-8", "UTF-8,:UTF-8",
           "UTF-8:NOPE:UTF-8", "NOPE:UTF-8", "UTF-8:NOPE", "../x:UTF-8", "UTF-8:/etc/passwd", "UTF-8#:UTF-8", "UTF-8:#:UTF-8",
           "#:#", "UTF-8:COUNT#&&:UTF-8", "UTF-8:INSERT#AFTER=0:UTF-8", "UTF-8:TRIM-WIDTH:UTF-8", "UTF-8:" + "UPPER:" * 60 + "UTF-8",
           ",".join(["ASCII"] * 50) + ":UTF-8", "x" * 300 + ":UTF-8", "UTF-8:" + "A" * 4000, "|".join(["UTF-8:UTF-8"] * 40),
           "UTF-8:\xff\xfe:UTF-8", "utf-8:Utf-8", " UTF-8:UTF-8", "UTF-8 :UTF-8", "UTF-8\n:UTF-8", "UTF-8:UTF-8:UTF-8:UTF-8"]


def mangle(r, cv):
    """A damaged conversion string."""
    if r.random() < 0.15:
        return r.choice(BADCONV)
    c = list(cv)
    for _ in range(r.choice([1, 1, 2, 5])):
        if not c:
            break
        i = r.randrange(len(c))
        k = r.random()
        if k < 0.35:
            del c[i]
        elif k < 0.7:
            c[i] = r.choice(":,|#&=*@.-_AZ09x\xff/")
        else:
            c[i:i] = list(r.choice([":", ",", "|", "#", "&", "=", "::", "||", ",,", "##", "UTF-8", "*", "\t", "%s"]))
    return "".join(c)


def editops(r, C):
    cv = C.conv() if r.random() < 0.8 else mangle(r, C.conv())
    cmd = r.choice(["ip", "rp", "ic", "rc"])
    k = r.choice(["from", "inter", "to"])
    cod = C.codec(k)
    idx = r.choice([0, 1, 2, 3, -1, -2, -3, 7, -7, 100, -100, 2**31 - 1, -2**31])
    if cmd in ("ip", "rp"):
        return "%s %s %s %s %d" % (cmd, hx(cv), hx(cod), k, idx)
    return "%s %s %s %d %d" % (cmd, hx(cv), hx(cod), idx, r.choice([0, 1, -1, 5, -5]))
