"""C21: parsing, printing and editing conversion strings."""
import itertools
from vlib import gen, scale
from vlib.driver import Crash, hx, un

FROM, INTER, TO = "from", "inter", "to"
TY = {FROM: 1, INTER: 2, TO: 3}
BLANK = " \t\r\n\f"
EINVAL = "22"


def parse(s):
    """[(type, [codec, ...]), ...] or None; a codec is name#arguments, an empty argument list is as good as none"""
    out = []
    for seg in s.split("|"):
        ph = seg.split(":")
        for i, p in enumerate(ph):
            cs = []
            for c in p.split(","):
                n, h, a = c.partition("#")
                if not n:
                    return None
                cs.append(n + ("#" + a if a else ""))
            out.append((INTER if len(ph) == 1 else FROM if i == 0 else TO if i == len(ph) - 1 else INTER, cs))
    return out


def show(ph):
    """a phase between two others of its stage is joined with a colon, a new stage begins with a bar"""
    s, inside = "", False
    for i, (t, cs) in enumerate(ph):
        if i:
            s += "|" if t == FROM or t == INTER and not inside else ":"
        if t == FROM:
            inside = True
        elif t == TO:
            inside = False
        s += ",".join(cs)
    return s


def formed(ph):
    """the phases make up stages: alone, or from one that decodes to one that encodes"""
    inside = False
    for t, _ in ph:
        if t == (FROM if inside else TO):
            return False
        inside = inside and t != TO or t == FROM
    return not inside


def pidx(n, length):
    return length if n >= length else n % length


def edit(kind, s, codec, a, b):
    new = edit_(kind, s, codec, a, b)
    return None if new is None else (show(new), formed(new))


def edit_(kind, s, codec, a, b):
    ph = parse(s)
    if ph is None:
        return None
    if kind in ("ip", "rp"):
        i = pidx(b, len(ph))
        if kind == "ip":
            return ph[:i] + [(a, [codec])] + ph[i:]
        if i == len(ph):
            return None
        return ph[:i] + [(a, [codec])] + ph[i + 1:]
    i = pidx(a, len(ph))
    if i == len(ph):
        return None
    cs = ph[i][1]
    j = pidx(b, len(cs))
    if kind == "ic":
        new = cs[:j] + [codec] + cs[j:]
    else:
        if j == len(cs):
            return None
        new = cs[:j] + [codec] + cs[j + 1:]
    return ph[:i] + [(ph[i][0], new)] + ph[i + 1:]


def run(ck):
    r = ck.r
    tree = ck.tree("asan")
    ck.rule = ("every editing call with every index from far below to far above on conversions of one to three stages with up to four codecs per phase; generated conversion strings with every codec and random arguments, blanks and letter case, created, "
               "printed, created again from what was printed, and run on the same input; every short string over the separators. Oracle: the grammar and list model here; equal output and counters of both instances. Distinct: (call, string)")
    cov = {"edits": 0, "refused_edits": 0, "created": 0, "refused": 0, "grammar": 0, "prints": 0, "single_phase_stages": 0, "max_length": 0}

    # ---- numbers of stages, phases and codecs, and lengths of arguments, around the limits of small integers
    big = []
    for n in scale.pick(r, ck.n(14, 99), 1100):
        k = r.random()
        if k < 0.3:
            s = ":".join(["ASCII"] + ["UPPER"] * n + ["ASCII"])
        elif k < 0.5:
            s = "|".join(["ASCII:UPPER,PASS:ASCII"] * n)
        elif k < 0.6:
            s = "|".join(["UPPER"] * n)
        elif k < 0.85:
            at = r.randrange(3)
            s = ":".join(",".join([c] * (n if i == at else 1)) for i, c in enumerate(["_UTF-8", "UPPER", "_UTF-8"]))
        else:
            s = "_UTF-8:" + ":".join("REPLACE#" + "&".join("01%02X=01%02X" % (r.randrange(33, 127), r.randrange(33, 127)) for _ in range(n)) for _ in range(3)) + ":_UTF-8"
        big.append(s)
    for n in scale.pick(r, ck.n(12, 99)):
        big.append("_UTF-8:" + r.choice(["REPLACE#0161=", "INSERT#AFTER=", "INSERT#BEFORE="]) + ".".join("01%02X" % r.randrange(33, 127) for _ in range(n // 5 + 1)) + ":_UTF-8,ESCAPE#PREFIX=" + "25" * (n // 2))
    cases = [["N 0 " + hx(s), "P 0", "N 1 " + hx("".join(c + (" " if c in ",:|#&" else "") for c in s)), "P 1", "O 0 6162", "O 1 6162"] for s in big]
    for L, x, s in zip(cases, ck.run("asan", cases), big):
        if isinstance(x, Crash):
            ck.crash(x, "sizes", commands=L)
            continue
        q = parse(s)
        ck.saw(("size", s))
        if x[0] != "ok %d" % len(q) or un(x[1]) != show(q).encode():
            ck.violation("size", "a conversion of %d phases and %d characters gives %s and prints as %d other characters" % (len(q), len(s), x[0], len(un(x[1]) or b"")), commands=L[:2])
        elif x[2:4] != x[:2] or x[4] != x[5] or x[4].startswith("null"):
            ck.violation("size-blanks", "a conversion of %d phases and %d characters is another one with blanks: %s, %s" % (len(q), len(s), x[2], x[5][:200]), commands=L)
    # and edits of them
    cases, meta = [], []
    for s in big[:ck.n(8, 99)]:
        n = len(parse(s))
        L, lay = [], []
        for i in sorted({0, 1, 127, 128, 255, 256, 257, n - 1, n, n + 1, -1, -2, -n, -n - 1, n // 2, 2 ** 31 - 1, -2 ** 31}):
            c = r.choice(["LOWER", "LOWER#" + "A" * r.choice([1, 255, 300])])
            for k in ("ip", "rp"):
                L.append("%s %s %s %s %d" % (k, hx(s), hx(c), INTER, i))
                lay.append((k, c, INTER, i))
            m = max(len(p[1]) for p in parse(s))
            for j in {0, -1, m, m - 1, m // 2, 256, -256}:
                for k in ("ic", "rc"):
                    L.append("%s %s %s %d %d" % (k, hx(s), hx(c), i, j))
                    lay.append((k, c, i, j))
        cases.append(L)
        meta.append((s, lay))
    for L, x, (s, lay) in zip(cases, ck.run("asan", cases), meta):
        if isinstance(x, Crash):
            ck.crash(x, "editing a long conversion", commands=L)
            continue
        for cmd, y, (k, c, a, b) in zip(L, x, lay):
            w = edit(k, s, c, a, b)
            g = un(y)
            g = None if g is None else g.decode()
            cov["edits"] += 1
            ck.saw((k, s, c, a, b), w is not None)
            if w is not None and not w[1] and g is not None and g.replace("|", ":") == w[0].replace("|", ":"):
                continue
            if g != (w and w[0]):
                ck.violation("edit-long:" + k, "%s at %s, %s of a conversion of %d characters gives %r..., not %r..." % (k, a, b, len(s), (g or "")[:80], (w or [""])[0][:80]), commands=[cmd])

    # ---- grammar: every string over separators and codecs
    toks = ["ASCII", ":", "|", ",", "#"]
    cases, meta = [], []
    allowed = {FROM: {"ASCII", "PASS"}, INTER: {"PASS", "UPPER", "NULL"}, TO: {"ASCII", "PASS", "NULL", "RAW"}}
    strs = ["".join(t) for n in range(ck.n(6, 7) + 1) for t in itertools.product(["PASS", ":", "|", ",", "#"], repeat=n)]
    strs = [s for s in strs if "PASSPASS" not in s]
    for i in range(0, len(strs), 2000):
        L = []
        for s in strs[i:i + 2000]:
            L += ["N 0 " + hx(s), "P 0", "D 0"]
        cases.append(L)
        meta.append(strs[i:i + 2000])
    for L, x, ss in zip(cases, ck.run("asan", cases), meta):
        if isinstance(x, Crash):
            ck.crash(x, "grammar", commands=L)
            continue
        for j, s in enumerate(ss):
            ph = parse(s)
            bad = ph is None or any(c.partition("#")[2] for _, cs in ph for c in cs)      # PASS knows no argument PASS
            g = x[3 * j]
            ck.saw(("grammar", s), not bad)
            cov["grammar"] += 1
            if bad != g.startswith("null"):
                ck.violation("grammar", "%r is %s" % (s, "accepted" if bad else "refused: " + g), commands=L[3 * j:3 * j + 3])
            elif bad:
                if ph is None and g != "null " + EINVAL:
                    ck.violation("grammar-error", "%r is refused with error %s, not EINVAL" % (s, g), commands=L[3 * j:3 * j + 1])
            else:
                if g != "ok %d" % len(ph):
                    ck.violation("phases", "%r has %s phases, not %d" % (s, g, len(ph)), commands=L[3 * j:3 * j + 1])
                if (un(x[3 * j + 1]) or b"").decode() != show(ph):
                    ck.violation("print", "%r prints as %r, not %r" % (s, un(x[3 * j + 1]), show(ph)), commands=L[3 * j:3 * j + 2])

    # ---- generated strings
    C = gen.Convs(tree, r, bad=0.02)
    def blanks(s):
        return "".join(c + ("".join(r.choice(BLANK) for _ in range(r.randrange(1, 3))) if r.random() < 0.08 else "") for c in s)
    def case(s):
        return "".join(r.choice([c.upper(), c.lower()]) for c in s)
    cases, meta = [], []
    for _ in range(ck.n(1500, 40000)):
        s = C.conv()
        if r.random() < 0.15:
            s += "|" + r.choice(["UPPER", "PASS", "PASS,UPPER", "REPLACE#61=62", "UNIX", "NFC"])
            cov["single_phase_stages"] += 1
            if r.random() < 0.5:
                s += "|" + C.segment()
        elif r.random() < 0.1:
            s = r.choice(["UPPER", "PASS", "NULL", "INSERT#AFTER=0341", "NFC"]) + "|" + s
            cov["single_phase_stages"] += 1
        if r.random() < 0.1:
            s = "|".join([s] + [C.segment() for _ in range(r.choice([3, 8, 20]))])
        if len(gen.EXPAND.findall(s)) > 1:
            continue
        cov["max_length"] = max(cov["max_length"], len(s))
        ins = [gen.payload(r, 60) for _ in range(3)]
        v = blanks(s)
        w = ":".join("#".join([case(y.split("#")[0])] + y.split("#")[1:]) if "," not in y and "|" not in y else y for y in s.split(":"))
        L = ["N 0 " + hx(s), "P 0"]
        cases.append(L)
        meta.append((s, v, w, ins))
    first = ck.run("asan", cases)
    cases2, meta2 = [], []
    for L, x, (s, v, w, ins) in zip(cases, first, meta):
        if isinstance(x, Crash):
            ck.crash(x, s, commands=L)
            continue
        if not x[0].startswith("ok"):
            cov["refused"] += 1
            cases2.append(["N 0 " + hx(v), "N 1 " + hx(w)])
            meta2.append((s, None, v, w, ins, x[0]))
            continue
        cov["created"] += 1
        p = un(x[1]).decode("utf-8", "surrogateescape")
        q = parse(p)
        if q is None or x[0] != "ok %d" % len(q):
            ck.violation("print-grammar", "%r prints as %r, which is no string of %s phases" % (s, p, x[0]), commands=L)
            continue
        known = all(c.split("#")[0].upper() in C.m[t] for t, cs in parse(s) for c in cs)
        if known and p != show(parse(s)):
            ck.violation("print", "%r prints as %r, not %r" % (s, p, show(parse(s))), commands=L)
        if any(c.split("#")[0].upper() not in C.m[t] for t, cs in q for c in cs):
            ck.violation("print-codec", "%r prints as %r, which names no codec" % (s, p), commands=L)
        M = ["N 0 " + hx(s), "N 1 " + hx(p), "P 1", "N 2 " + hx(v), "P 2", "N 3 " + hx(w)]
        for b in ins:
            M += ["O %d %s" % (k, hx(b)) for k in range(4)]
        cases2.append(M)
        meta2.append((s, p, v, w, ins, None))
    for L, x, (s, p, v, w, ins, err) in zip(cases2, ck.run("asan", cases2), meta2):
        if isinstance(x, Crash):
            ck.crash(x, s, commands=L)
            continue
        ck.saw(("conv", s), p is not None)
        if p is None:
            for y, z in zip(x, (v, w)):
                if y != err:
                    ck.violation("blank-refusal", "%r is refused (%s), %r gives %s" % (s, err, z, y), commands=["N 0 " + hx(s)] + L)
            continue
        cov["prints"] += 1
        if not x[1].startswith("ok"):
            ck.violation("reprint-create", "%r prints as %r, which cannot be created: %s" % (s, p, x[1]), commands=L)
            continue
        if un(x[2]).decode("utf-8", "surrogateescape") != p:
            ck.violation("reprint", "%r prints as %r, which prints as %r" % (s, p, un(x[2])), commands=L)
        for k, t in ((3, v), (5, w)):
            if not x[k].startswith("ok"):
                ck.violation("blanks", "%r is created, %r is not: %s" % (s, t, x[k]), commands=L)
        if x[3].startswith("ok") and un(x[4]).decode("utf-8", "surrogateescape") != p:
            ck.violation("blanks", "%r prints as %r, %r as %r" % (s, p, v, un(x[4])), commands=L)
        for j, b in enumerate(ins):
            o = x[6 + 4 * j:10 + 4 * j]
            for k, t in ((1, p), (2, v), (3, w)):
                if o[k] != o[0]:
                    ck.violation("equivalent:%d" % k, "%r and %r differ on %s: %s and %s" % (s, t, b.hex(), o[0][:200], o[k][:200]), commands=L)
                    break

    # ---- editing
    NAMES = ["UTF-8", "ASCII", "upper", "X#A", "ANY#013F&ERROR", "a", "LONGNAME" * 6, "ESCAPE#FOR=UNICODE&MODE=16", "k#", "P#A=0141.0142&B"]
    bads = ["", "|", "a::b", "a:b|", "a,:b", ":a", "#q:a", "a:,b"]

    def rconv():
        def ph():
            return ",".join(r.choice(NAMES) for _ in range(r.choice([1, 1, 1, 2, 4])))
        return "|".join(":".join(ph() for _ in range(r.choice([1, 2, 3, 3, 5]))) for _ in range(r.choice([1, 1, 2, 3])))
    cases, meta = [], []
    convs = ["a", "a,b", "a:b", "a:b:c", "a,b:c:d,e", "a:b|c:d", "a:b|c", "a|b:c", "a|b", "a:b|c|d:e:f", "a#1&2=3:b#q,c:d"] + bads + [rconv() for _ in range(ck.n(60, 2000))]
    for s in convs:
        n = len(parse(s) or [1, 2])
        L, lay = [], []
        idx = sorted({*range(-2 * n - 2, 2 * n + 3), -1000, 1000, 2 ** 31 - 1, -2 ** 31})
        for i in idx:
            for t in (FROM, INTER, TO):
                for k in ("ip", "rp"):
                    c = r.choice(NAMES[:-2] + ["A,B", "A#1,B"])
                    L.append("%s %s %s %s %d" % (k, hx(s), hx(c), t, i))
                    lay.append((k, c, t, i))
            for j in (range(-5, 7) if len(idx) < 16 or r.random() < 0.4 else (-1, 0, 1, 5)):
                for k in ("ic", "rc"):
                    c = r.choice(NAMES[:-2])
                    L.append("%s %s %s %d %d" % (k, hx(s), hx(c), i, j))
                    lay.append((k, c, i, j))
            L.append("ic %s %s %d %d" % (hx(s), hx("z"), i, r.choice([2 ** 31 - 1, -2 ** 31, 100, -100])))
            lay.append(("ic", "z", i, int(L[-1].split()[4])))
        cases.append(L)
        meta.append((s, lay))
    for L, x, (s, lay) in zip(cases, ck.run("asan", cases), meta):
        if isinstance(x, Crash):
            ck.crash(x, "editing %r" % s, commands=L)
            continue
        for cmd, y, (k, c, a, b) in zip(L, x, lay):
            w = edit(k, s, c, a, b)
            g = un(y)
            g = None if g is None else g.decode()
            cov["edits"] += 1
            cov["refused_edits"] += w is None
            ck.saw((k, s, c, a, b), w is not None)
            if w is not None:
                w, ok = w
                if not ok and g is not None and g.replace("|", ":") == w.replace("|", ":"):
                    continue            # the types do not make up stages: how the phases are joined is not specified
            if g != w:
                nm = {"ip": "insert_phase", "rp": "replace_phase", "ic": "insert_codec", "rc": "replace_codec"}[k]
                ck.violation("edit:" + nm, "bsdconv_%s(%r, %r, %s, %s) gives %r, not %r" % (nm, s, c, a, b, g, w), commands=[cmd])
    ck.cov["observed"] = cov
    ck.sample({"edit": "insert_phase('a:b|c:d', 'x', INTER, -1)", "gives": edit("ip", "a:b|c:d", "x", INTER, -1)[0]})
