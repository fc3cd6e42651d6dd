"""C10: the table compiler preserves the meaning of any table source, and is deterministic."""
import os, shutil, subprocess, tempfile
from concurrent.futures import ThreadPoolExecutor
from vlib import build, driver, gen, scale, tables
from vlib.driver import Crash, hx, un, counters

TYPES = [b"\x01", b"\x01", b"\x01", b"\x03", b"\x02", b"\x1b"]


def hexs(r, b):
    s = b.hex()
    return s.upper() if r.random() < 0.7 else s


def source(r, kind, cb):
    """a random well-formed source over a small alphabet, so that keys collide and nest"""
    al = r.sample([0x41, 0x61, 0x42, 0x62, 0x5a, 0x7a, 0x40, 0x5b, 0x30, 0x80, 0xff, 0x00, 0x01, 0x4e], r.choice([2, 3, 5, 8]))
    stars = r.random() < 0.35
    ci = r.random() < 0.4
    cbs = cb and r.random() < 0.5
    lines = []
    keys = []
    for _ in range(r.choice([1, 2, 4, 8, 16, 40])):
        if kind == "from":
            n = r.choice([1, 1, 2, 2, 3, 4, 7])
            k = [[r.choice(al) for _ in range(n)]]
        else:
            k = [[r.choice(TYPES)[0]] + [r.choice(al) for _ in range(r.choice([1, 1, 1, 2, 3]))] for _ in range(r.choice([1, 1, 1, 2, 2, 3]))]
        if keys and r.random() < 0.35:
            # prefix or extension of an earlier one
            o = r.choice(keys)
            if r.random() < 0.5 and (len(o) > 1 or len(o[0]) > 1):
                k = [x[:] for x in o]
                if len(k) > 1 and (kind != "from"):
                    k = k[:r.randrange(1, len(k))]
                elif kind == "from":
                    k[0] = k[0][:r.randrange(1, len(k[0]))]
            else:
                k = [x[:] for x in o]
                if kind == "from":
                    k[0] = k[0] + [r.choice(al)]
                else:
                    k = k + [[1, r.choice(al)]]
        keys.append(k)
        star = stars and r.random() < 0.3
        ks = []
        for x in k:
            u = [hexs(r, bytes([c])) for c in x]
            if star:
                j = r.randrange(0 if kind == "from" else 1, len(u)) if len(u) > (0 if kind == "from" else 1) else None
                if j is not None:
                    u[j] = "*"
                if sum(a == "*" for a in u) > 1:
                    u = [a for a in u]
            ks.append("".join(u))
        key = ",".join(ks)
        if star and "," in key and r.random() < 0.5:
            key = key.replace("*", "41").replace(",", "*", 1)     # the wildcard in the place of a separator
        if key.count("*") > 1:
            key = key.replace("*", "41", key.count("*") - 1)
        if ci and r.random() < 0.6:
            key = "!" + key
        if cbs and r.random() < 0.3:
            out = "?" + r.choice(["", "0141", "0142", "0143", "01ff"])
        elif kind == "to":
            out = ",".join(hexs(r, bytes(r.choice([0x41, 0x42, 0x80, 0x0a, 0x00]) for _ in range(r.choice([1, 1, 2, 5])))) for _ in range(r.choice([1, 1, 1, 2])))
        else:
            out = ",".join(hexs(r, r.choice(TYPES) + bytes(r.choice([0x41, 0x42, 0x80, 0x0a, 0x4e]) for _ in range(r.choice([1, 1, 2])))) for _ in range(r.choice([1, 1, 2, 3])))
        if r.random() < 0.04:
            out = ""
        ln = key + r.choice(["\t", " ", "\t\t", "  ", " \t"]) + out
        if r.random() < 0.1:
            ln += r.choice([" # comment", "#comment", "\t# 4141\t0142", "  ", "\t"])
        lines.append(ln)
        if r.random() < 0.05:
            lines.append(r.choice(["# a comment", "#", "#41\t0199", hexs(r, bytes([r.choice(al)]))]))
    nl = "\r\n" if r.random() < 0.1 else "\n"
    return nl.join(lines) + ("" if r.random() < 0.2 else nl), keys, al


def large(r, kind, n):
    """few entries as long as a line allows, or many entries"""
    lines, keys = [], []
    if r.random() < 0.5:
        al = r.sample([0x41, 0x61, 0x42, 0x80, 0xff, 0x00], 2)
        for _ in range(r.choice([1, 2, 5])):
            ln = min(r.choice([31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 200, 255, 256, 257, 300, 380]), 400)
            if kind == "from":
                k = [[r.choice(al) for _ in range(ln)]]
            else:
                k = [[1, r.choice(al)] if r.random() < 0.7 else [3] + [r.choice(al)] * r.choice([1, 2, 20]) for _ in range(min(ln, 190))]
            if keys and r.random() < 0.6:
                k = [x[:] for x in keys[-1]]
                k[-1].append(r.choice(al)) if kind == "from" else k.append([1, r.choice(al)])
            key = ",".join(bytes(x).hex().upper() for x in k)
            if len(key) > 900:
                continue
            room = (1000 - len(key)) // 2
            o, used = [], 0
            while used < room - 4:
                m = r.choice([2, 3, 4, room - used, 128, 129])
                m = min(m, room - used - 1)
                if m < 2:
                    break
                o.append((b"\x01" if kind != "to" else b"B") + bytes(r.choice(b"AB\x80\n") for _ in range(m - 1)))
                used += m + 1
                if r.random() < 0.1:
                    break
            keys.append(k)
            lines.append(key + "\t" + ",".join(x.hex() for x in o))
        if not keys:
            return large(r, kind, n)
    else:
        al = [0x41, 0xff]
        seen = set()
        while len(keys) < n:
            m = r.choice([1, 2, 2, 3, 3])
            x = bytes(r.randrange(256) for _ in range(m))
            if x in seen:
                continue
            seen.add(x)
            keys.append([list(x)] if kind == "from" else [[1] + list(x)])
            v = r.randrange(1 << 24) if r.random() < 0.9 else 0x41
            lines.append(bytes(keys[-1][0]).hex() + "\t01%06X" % v)
    return "\n".join(lines) + "\n", keys, al


def run(ck):
    r = ck.r
    t = ck.tree("asan")
    ck.rule = ("random sources (nested and duplicate keys in any order, `*`, `!`, `?`, several data in keys and outputs, comments, blanks, CRLF, lines without output; lines up to the limit of their length, up to 65537 entries) are compiled with the sanitized "
               "bsdconv-mktable, twice, from different directories; the files must be identical, and conversions of inputs made from the keys (whole, cut, changed in case or in one unit, concatenated) must "
               "give what a reference reader of the source predicts, error counters included. Distinct: (source, input)")
    ck.assumptions = ["of several entries for one sequence a plain entry beats a callback, then the one spelling more letters exactly wins, then the first (as bsdconv-mktable implements; there is no other description)",
                      "callbacks are exercised for decoding tables only"]
    d = tempfile.mkdtemp(prefix="vtab")
    try:
        _run(ck, r, t, d)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def _run(ck, r, t, d):
    share = os.path.join(d, "share", "bsdconv")
    for k in ("from", "inter", "to", "filter", "scorer"):
        os.makedirs(os.path.join(share, k))
        if os.path.exists(os.path.join(t.share, k, "alias")):
            shutil.copy(os.path.join(t.share, k, "alias"), os.path.join(share, k, "alias"))
    for n in ("from/BSDCONV", "from/BSDCONV.so", "to/BSDCONV", "to/BSDCONV.so", "inter/INSERT", "inter/INSERT.so"):
        shutil.copy(os.path.join(t.share, n), os.path.join(share, n))
    cc, cflags = build.VARIANTS["asan"]
    so = os.path.join(d, "cb.so")
    subprocess.check_call([cc] + cflags.split() + ["-I" + os.path.join(t.root, "src"), os.path.join(build.VERIF, "harness", "so", "cb.c"), "-fPIC", "-shared", "-o", so,
                           "-L" + os.path.join(t.root, "build", "lib"), "-lbsdconv"])
    n = ck.n(2500, 20000)
    specs = []
    far = [k for k in scale.NEAR + [8191, 20000, 65535, 65537] for _ in range(ck.n(2, 10))]
    for i in range(n + len(far)):
        kind = r.choice(["from", "from", "inter", "inter", "to"])
        src, keys, al = source(r, kind, kind == "from") if i < n else large(r, kind, far[i - n])
        specs.append((kind, "T%d" % i, src, keys, al))

    def comp(s):
        kind, name, src = s[:3]
        sf = os.path.join(d, name + ".txt")
        with open(sf, "w", newline="") as f:
            f.write(src)
        out = os.path.join(share, kind, name)
        res = []
        for k in range(2):
            o = out if k == 0 else os.path.join(d, name + ".again")
            e = t.env()
            if k:
                e["ASAN_OPTIONS"] = e["ASAN_OPTIONS"].replace("malloc_fill_byte=190", "malloc_fill_byte=17")
                e["FILLER"] = "x" * 777
            p = subprocess.run([os.path.join(t.bin, "bsdconv-mktable"), sf if k == 0 else name + ".txt", o], cwd=share if k == 0 else d, env=e, capture_output=True, timeout=120)
            if p.returncode:
                return driver.classify(p.stderr.decode("latin-1"), p.returncode, t.root)
            res.append(open(o, "rb").read())
        os.unlink(os.path.join(d, name + ".again"))
        os.unlink(sf)
        if "?" in src:
            os.symlink(so, out + ".so") if False else shutil.copy(so, out + ".so")
        return res[0] == res[1]

    with ThreadPoolExecutor(8) as ex:
        comps = list(ex.map(comp, specs))
    cases, meta = [], []
    feat = dict(star=0, case=0, callback=0, multikey=0)
    for s, c in zip(specs, comps):
        kind, name, src, keys, al = s
        if isinstance(c, Crash):
            ck.crash(c, "compiling %r" % src[:3000], source=src)
            continue
        if c is not True:
            ck.violation("nondeterministic", "two compilations of %r differ" % src[:3000], source=src)
            continue
        tab = tables.Table(src.replace("\r\n", "\n").split("\n"))
        feat["star"] += "*" in src
        feat["case"] += "!" in src
        feat["callback"] += "?" in src
        feat["multikey"] += kind != "from" and any(len(k) > 1 for k in keys)
        ins = []
        for _ in range(ck.n(16, 30)):
            p = []
            for _ in range(r.choice([1, 1, 2, 3, 5])):
                k = [x[:] for x in r.choice(keys)]
                q = r.random()
                if q < 0.25:
                    k[-1] = k[-1][:r.randrange(1 if kind != "from" else 0, len(k[-1]) + 1)]
                elif q < 0.5:
                    x = k[r.randrange(len(k))]
                    j = r.randrange(len(x))
                    if kind == "from" or j:
                        x[j] = x[j] ^ 0x20 if 64 < x[j] < 128 else r.choice(al)
                elif q < 0.65:
                    x = k[r.randrange(len(k))]
                    j = r.randrange(len(x))
                    if kind == "from" or j:
                        x[j] = r.randrange(256)
                elif q < 0.8 and len(k) > 1:
                    k = k[:-1]
                p += k
            if kind == "from":
                ins.append(bytes(c for x in p for c in x))
            else:
                ins.append([bytes(x) for x in p if x])
        conv = name + ":INSERT#AFTER=2C:BSDCONV" if kind == "from" else "BSDCONV:" + name + ":INSERT#AFTER=2C:BSDCONV" if kind == "inter" else "BSDCONV:" + name
        L = ["N 0 " + hx(conv)]
        M = []
        for x in ins:
            if kind == "from":
                b = x
                out, err, i = [], 0, 0
                while i < len(b):
                    m = tab.match_bytes(b, i)
                    if m is None:
                        err += 1
                        i += 1
                        continue
                    out += [b"\x03\xee"] + list(m[1]) if m[2] else m[1]
                    i += m[0]
                want = b"".join(y.hex().upper().encode() + b"2C" for y in out)
                e = (err, 0)
            else:
                b = b",".join(y.hex().encode() for y in x)
                if kind == "inter":
                    want = b"".join(y.hex().upper().encode() + b"2C" for y in tables.inter([tab], x))
                    e = (max(0, len(x) - 1), 0)
                else:
                    out, err = tables.encode([tab], x)
                    want = b"".join(out)
                    e = (max(0, len(x) - 1), err)
            L.append("O 0 " + hx(b))
            M.append((b, want, e))
        L.append("D 0")
        cases.append(L)
        meta.append((s, M))
    env = t.env(BSDCONV_PATH=d)
    for L, x, (s, M) in zip(cases, ck.run("asan", cases, env=env), meta):
        kind, name, src = s[:3]
        if isinstance(x, Crash):
            ck.crash(x, "%s table %r" % (kind, src[:3000]), commands=L, source=src)
            continue
        if not x[0].startswith("ok"):
            ck.violation("create", "the compiled codec cannot be loaded: %r" % src[:3000], source=src)
            continue
        for y, (b, want, e) in zip(x[1:-1], M):
            ck.saw((src, b), bool(want))
            o, c = y.split(" ")
            c = counters(c)
            got = un(o)
            g = (c.get("IERR", 0), c.get("OERR", 0))
            if got != want or g != e:
                f = "".join(a for a in "*!?" if a in src)
                ck.violation("meaning:%s:%s" % (kind, f), "%s table %r on %r gives %r %s, the source says %r %s" % (kind, src[:3000], b[:1000], got, g, want, e), source=src, input=b.hex())
    ck.sample(dict(kind=meta[-1][0][0], source=meta[-1][0][2], input=repr(meta[-1][1][-1][0]), expected=repr(meta[-1][1][-1][1])))
    ck.cov.update(sources=n, sources_with=feat, compared_twice=n)
