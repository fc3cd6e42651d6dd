"""C29: control sequences taken whole; logging codecs record exactly what passes."""
import os, re, shutil, tempfile
from collections import Counter
from vlib import cli, gen, scale, uni
from vlib.driver import Crash, hx, un, counters

FINAL = b"abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNPQRSTUVWXYZ"


def sequences(b, rest):
    """list of ("esc", bytes) and what `rest` says of the single bytes in between: ("d", datum) or ("e",)"""
    out, i = [], 0
    while i < len(b):
        if b[i] == 0x1b and i + 1 < len(b):
            if b[i + 1] != 0x5b:
                out.append(("d", b[i:i + 2]))
                i += 2
                continue
            j = i + 2
            while j < len(b) and b[j] not in FINAL and j - i < 29:
                j += 1
            if j < len(b):
                out.append(("d", b[i:j + 1]))
                i = j + 1
                continue
        k, n = rest(b[i:])
        out.append(k)
        i += n
    return out


def nothing(b):
    return ("e",), 1


def ascii_(b):
    return (("d", b"\x01" + b[:1]) if 0 < b[0] < 0x80 else ("e",)), 1


def byte_(b):
    return ("d", b"\x03" + b[:1]), 1


def utf8(b):
    """one character or one error; the control sequences come first, so that b is what is left of the input"""
    for n in (1, 2, 3, 4):
        try:
            c = ord(b[:n].decode("utf-8"))
        except UnicodeDecodeError:
            continue
        return (("d", uni.internal(c)) if c else ("e",)), n
    return ("e",), 1


REST = {"ANSI-CONTROL": nothing, "ANSI-CONTROL,ASCII": ascii_, "ANSI-CONTROL,BYTE": byte_, "ANSI-CONTROL,UTF-8": utf8}


def text(r):
    b = b""
    for _ in range(r.choice([1, 2, 4, 8, 16])):
        k = r.random()
        par = b";".join(b"%d" % r.choice([0, 1, 7, 31, 48, 255, 1234567]) for _ in range(r.choice([0, 1, 1, 2, 3, 5])))
        if k < 0.35:
            b += b"\x1b[" + r.choice([b"", b"", b"?", b"=", b">"]) + par + bytes([r.choice(FINAL)])
        elif k < 0.45:
            b += b"\x1b" + bytes([r.choice(b"cDEHM78=>()#*\x1b\x00\x80\xff")])
        elif k < 0.5:
            b += b"\x1b[" + bytes(r.choice(b"0123456789;? \x01\x80\xc3") for _ in range(r.choice([24, 25, 26, 27, 28, 29, 30, 31, 40, 70]))) + r.choice([b"", b"m"])
        elif k < 0.6:
            b += (b"\x1b[" + par)[:r.randrange(1, 6)]
        elif k < 0.65:
            b += bytes([r.choice(b"\x1b\x00\x7f\x80\xc3\xe4\xff[m")])
        else:
            b += "".join(r.choice("aZ[m;09 é中\U0001f600") for _ in range(r.randrange(1, 5))).encode()
    return b


def run(ck):
    r = ck.r
    tree = ck.tree("asan")
    cov = {"sequences_taken": 0, "cut_sequences": 0, "longest": 0, "log_lines": Counter(), "refused": 0}
    ck.rule = ("(a) random texts with control sequences of every final byte, parameters, private marks, two byte escapes, runs of 24 to 70 parameter bytes, cut sequences and bytes in between, through ANSI-CONTROL alone and before ASCII, UTF-8 and BYTE, whole and in every "
               "way of cutting (short ones) or random pieces: data and errors; (b) the logging decoder and encoder alone and after other codecs, one to three instances appending to one file, files that exist before, the file read after each call; standard output and "
               "standard error of the command for BSDCONV-OUTPUT; files that cannot be opened. Oracle: the grammar and the list of lines here. Distinct: (conversion, input, pieces)")
    ck.assumptions = ["the letter O, which is no final byte for this decoder, is not generated inside of sequences", "the flags a line of the log ends with are not judged"]
    # ---- (a)
    cases, meta = [], []
    for far in [None] * ck.n(6000, 120000) + scale.pick(r, ck.n(12, 99)):
        c = r.choice(list(REST))
        b = text(r)
        if far:
            b = (b"".join(text(r) for _ in range(8)) + b"a") * (far // 100 + 1) if r.random() < 0.7 else r.choice([b"\x1b[31m", b"\x1bc", b"a", b"\x1b[0;1;2;3;4;5;6;7m\xe4\xb8\xad", b"\x1b[" + b"1" * far]) * (far // 3 + 1 if far < 5000 else 9000)
            b = b[:200000]
        if re.search(rb"\x1b\[[^A-Za-z]{0,29}O", b):
            continue
        cuts = [[b]]
        if len(b) <= 12:
            cuts += [[b[:i], b[i:]] for i in range(1, len(b))] + [[b[i:i + 1] for i in range(len(b))]]
        else:
            cuts += [gen.split(r, b) for _ in range(2)]
        for cs in cuts:
            L = ["N 0 " + hx(c + ":INSERT#AFTER=2C:BSDCONV"), "I 0"]
            L += ["F 0 A %d %d %s 0" % (j == len(cs) - 1, r.random() < 0.5, hx(x)) for j, x in enumerate(cs)] + ["R 0"]
            cases.append(L)
            meta.append((c, b, tuple(cs)))
    for L, x, (c, b, cs) in zip(cases, ck.run("asan", cases), meta):
        if isinstance(x, Crash):
            ck.crash(x, c, commands=L)
            continue
        w = sequences(b, REST[c])
        esc = [k[1] for k in w if k[0] == "d" and k[1][:1] == b"\x1b"]
        ck.saw((c, b, cs), bool(esc))
        cov["sequences_taken"] += len(esc)
        cov["longest"] = max([cov["longest"]] + [len(e) for e in esc])
        bad = sum(k[0] == "e" for k in w)
        cov["cut_sequences"] += bad > 0
        g = b"".join(un(y) or b"" for y in x[2:-1]).decode("latin-1") if x[0].startswith("ok") else x[0]
        ws = "".join(k[1].hex().upper() + "2C" for k in w if k[0] == "d")
        if g != ws:
            ck.violation("ansi:" + c, "%s on %s in pieces %s gives %s, not %s" % (c, b.hex(), [p.hex() for p in cs], g, ws), commands=L)
            continue
        n = counters(x[-1])
        if (n.get("IERR", 0), n.get("OERR", 0)) != (bad, 0):
            ck.violation("ansi-errors:" + c, "%s on %s counts %s, expected %d input errors" % (c, b.hex(), n, bad), commands=L)
    # ---- (b) logs
    d = tempfile.mkdtemp(prefix="vlog")
    try:
        logs(ck, r, tree, d, cov)
    finally:
        shutil.rmtree(d, ignore_errors=True)
    cov["log_lines"] = dict(cov["log_lines"])
    ck.cov["observed"] = cov
    ck.sample({"conversion": "ANSI-CONTROL,ASCII:INSERT#AFTER=2C:BSDCONV", "input": "1b5b33316d41", "expected": "1B5B33316D2C01412C"})


def logs(ck, r, tree, d, cov):
    # conversion, input -> (lines, output, input errors, output errors)
    def from_all(b):
        return ["%02X" % x for x in b], b"", 0, 0

    def from_rest(b):
        return ["%02X" % x for x in b if not 0 < x < 0x80], bytes(x for x in b if 0 < x < 0x80), 0, 0

    def to_all(t):
        return [uni.internal(ord(c)).hex().upper() for c in t], b"", 0, 0

    def to_rest(t):
        return [uni.internal(ord(c)).hex().upper() for c in t if c > "\x7f"], "".join(c for c in t if c < "\x80").encode(), 0, 0

    def to_bytes(t):
        return ["03%02X" % x for x in t.encode()], b"", 0, 0

    def mid(t):
        return ["%02X" % x for x in t.encode("utf-16-be")], b"", 0, 0
    K = [("FROM", "BSDCONV-LOG:UTF-8", from_all), ("FROM", "ASCII,BSDCONV-LOG:ASCII", from_rest), ("TO", "UTF-8:BSDCONV-LOG", to_all), ("TO", "UTF-8:ASCII,BSDCONV-LOG", to_rest), ("TO", "BYTE:BSDCONV-LOG", to_bytes),
         ("FROM", "UTF-8:UTF-16BE|BSDCONV-LOG:UTF-8", mid), ("TO", "UTF-8:INSERT#BEFORE=012D:NULL|ASCII:BSDCONV-LOG", lambda t: ([], b"", 0, 0)), ("TO", "UTF-8:UPPER:BSDCONV-LOG", lambda t: to_all("".join(c.upper() if c.upper() != "SS" else c for c in t)))]
    alpha = "aZ09 é中漢각ひ\U0001f600\U0010ffff\x7f\x01\n"
    cases, meta = [], []
    for n in range(ck.n(1500, 30000)):
        f = os.path.join(d, "log%d" % n)
        old = r.choice([None, "", "old\n"])
        if old is not None:
            open(f, "w").write(old)
        m = r.choice([1, 1, 2, 3])
        ks = [r.choice(K) for _ in range(m)]
        L = ["env %s %s" % (hx("BSDCONV_%s_LOG" % k), hx(f)) for k in ("FROM", "TO")]
        L += ["N %d %s" % (i, hx(k[1])) for i, k in enumerate(ks)] + ["I %d" % i for i in range(m)]
        lines, outs = [], []
        for _ in range(r.randrange(1, 6)):
            i = r.randrange(m)
            t = "".join(r.choice(alpha) for _ in range(r.randrange(12) if n % 60 else r.choice(scale.NEAR + [20000])))
            ln, o, _, _ = ks[i][2](t.encode() if ks[i][2] in (from_all, from_rest) else t)
            lines += ln
            L.append("F %d A %d 1 %s 0" % (i, r.random() < 0.5, hx(t.encode())))
            outs.append((len(L) - 1, o))
        L += ["R %d" % i for i in range(m)]
        if r.random() < 0.8:
            L += ["D %d" % i for i in range(m)]
        cases.append(L)
        meta.append((f, old, ks, lines, outs, m))
    for L, x, (f, old, ks, lines, outs, m) in zip(cases, ck.run("asan", cases), meta):
        names = "+".join(k[1] for k in ks)
        if isinstance(x, Crash):
            ck.crash(x, names, commands=L)
            continue
        ck.saw((names, tuple(L)), bool(lines))
        if not all(y.startswith("ok") for y in x[2:2 + m]):
            ck.violation("log-create", "%s cannot be created: %s" % (names, x[2:2 + m]), commands=L)
            continue
        text = open(f).read() if os.path.exists(f) else ""
        got = text[len(old or ""):].split("\n")
        if not text.startswith(old or "") or got[-1] != "":
            ck.violation("log-file", "the log of %s holds %r, after %r before" % (names, text[-300:], old), commands=L)
            continue
        got = [re.sub(r" \([A-Z ]*\)$", "", l) for l in got[:-1]]
        for k in ks:
            cov["log_lines"][k[1]] += len(lines) // m
        if got != lines:
            ck.violation("log:" + (ks[0][1] if m == 1 else "several"), "the log of %s reads %s, not %s" % (names, got[:40], lines[:40]), commands=L)
            continue
        bad = [(un(x[i]), o) for i, o in outs if (un(x[i]) or b"") != o]
        if bad:
            ck.violation("log-output", "%s gives %r, not %r" % (names, bad[0][0], bad[0][1]), commands=L)
    # files that cannot be opened
    cases = []
    for how in ("", os.path.join(d, "none", "f"), d):
        for k in ("FROM", "TO"):
            conv = "BSDCONV-LOG:UTF-8" if k == "FROM" else "UTF-8:BSDCONV-LOG"
            cases.append(["env %s %s" % (hx("BSDCONV_%s_LOG" % k), hx(how) if how else "-"), "N 0 " + hx(conv)])
    for L, x in zip(cases, ck.run("asan", cases)):
        if isinstance(x, Crash):
            ck.crash(x, "log", commands=L)
            continue
        ck.saw(("refuse", tuple(L)))
        if x[1].startswith("ok"):
            ck.violation("log-refuse", "%s is created, but its log cannot be opened" % un(L[1].split(" ")[2]).decode(), commands=L)
        cov["refused"] += 1
    # standard output and standard error
    for _ in range(ck.n(120, 2000)):
        t = "".join(r.choice(alpha) for _ in range(r.choice([0, 1, 5, 30])))
        dst = r.choice(["", "#STDOUT", "#STDERR", "#stderr", "#Stdout"])
        side = r.choice(["", "ASCII,"])
        conv = "UTF-8:%sBSDCONV-OUTPUT%s" % (side, dst)
        rc, out, err, c = cli.run(tree, "bsdconv", [conv], stdin=t.encode())
        ck.saw((conv, t), bool(t))
        if c:
            ck.crash(c, conv)
            continue
        lines, o, _, _ = (to_rest if side else to_all)(t)
        log = err if "err" in dst.lower() else out
        got = [re.sub(r" \([A-Z ]*\)$", "", l) for l in log.decode().split("\n") if re.match(r"01[0-9A-F]*( \([A-Z ]*\))?$", l)] if not side or log is err else None
        cov["log_lines"]["OUTPUT"] += len(lines)
        if rc != 0 or (got is not None and got != lines) or (log is err and out != o) or (log is out and not side and re.sub(rb"01[0-9A-F]*( \([A-Z ]*\))?\n", b"", out) != b""):
            ck.violation("output", "%s on %r: status %s, output %r, error output %r" % (conv, t, rc, out[:200], err[:200]), conversion=conv, input=t)
    rc, out, err, c = cli.run(tree, "bsdconv", ["UTF-8:BSDCONV-OUTPUT#X"], stdin=b"a")
    if c:
        ck.crash(c, "BSDCONV-OUTPUT#X")
    elif rc == 0:
        ck.violation("output-refuse", "BSDCONV-OUTPUT accepts an unknown argument")
