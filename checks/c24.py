"""C24: the tools against the library."""
import os, re, shutil, stat, subprocess, tempfile
from concurrent.futures import ThreadPoolExecutor
from vlib import cli, gen, scale
from vlib.driver import Crash, hx, un, counters
from checks.c04 import per_piece

SIZES = [0, 1, 2, 10, 100, 1000, 1022, 1023, 1024, 1025, 1026, 2047, 2048, 2049, 3000, 5000, 20000]
IBUF = 1024
NAMES = ["a", "b.txt", "sp ace", "ünï", "-x", "x.XXXXXX", "%s", "long" * 30, "a\nb", "-i.txt"]


def content(r, n, txt=None):
    if r.random() < 0.5:
        b = b""
        while len(b) < n:
            b += gen.rich(r, 20).encode(r.choice(["utf-8", "utf-8", "utf-8", "cp950", "gb18030", "utf-16-le", "cp1252"]), "ignore") or b"\n"
        # characters across the end of the buffer
        return b[:n]
    if r.random() < 0.5:
        return (r.choice(["中", "é", "😀", "\r\n", "a\u0301", "&#x4e2d;", "각\u11a8", " \n"]) * n).encode()[r.randrange(3):][:n]
    b = b""
    while len(b) < n:
        b += gen.payload(r, 100) + bytes([r.randrange(256)])
    return b[:n]


def report(text):
    """[(file or None, sorted counter lines)]"""
    out, name, lines = [], None, []
    parts = text.split(b"\nFile: ")
    if parts[0]:
        out.append((None, sorted(parts[0].rstrip(b"\n").split(b"\n"))))
    for p in parts[1:]:
        m = re.match(rb"(.*?)\n((?:[^\n]*: \d+\n)+)$", p, re.S)
        out.append((m.group(1), sorted(m.group(2).rstrip(b"\n").split(b"\n"))) if m else ("?", [p]))
    return out


def wanted(files):
    """what the counters of the files come to: [(name or None, {counter: value})]"""
    out = []
    for n, c in files:
        ls = sorted(b"%s: %d" % (k.encode("latin-1"), v) for k, v in c.items() if v)
        if ls:
            out.append((n, ls))
    return out


def snapshot(d):
    s = {}
    for p, ds, fs in os.walk(d):
        for f in ds + fs:
            q = os.path.join(p, f)
            st = os.lstat(q)
            s[os.path.relpath(q, d)] = (stat.S_IFMT(st.st_mode), stat.S_IMODE(st.st_mode), st.st_uid, st.st_gid, open(q, "rb").read() if stat.S_ISREG(st.st_mode) else None)
    return s


def complete(lists, arg):
    """what may follow, from the lists"""
    s = arg
    if s[:1] in "'\"":
        s = s[1:]
    if s[-1:] and s[-1:] in "'\"":
        s = s[:-1]
    s = "".join(c.upper() if c.isascii() else c for c in s)
    m = max(s.rfind(x) for x in ":|,")
    part = s[m + 1:]
    seps = [c for c in s if c in ":|"]
    mode = "to" if seps and seps[-1] == ":" else "from"
    out = []
    for l in ("inter", mode):
        for n in lists[l]:
            if n.startswith(part) and n not in out:
                out.append(n)
    return [s[:m + 1] + n for n in out]


def run(ck):
    r = ck.r
    tree = ck.tree("asan")
    ck.rule = ("the command on standard input, on one to five files (and up to 300 of them with 24 descriptors, and of up to 3 MB), and in place, with generated conversions of every codec and files of 0 to 20000 bytes around multiples of the buffer size, file names with blanks, dashes, newlines and non-ASCII characters, permissions and owners; "
               "missing and unreadable files among others; unknown conversions; standard output that cannot be written; the listing, completion and manual tools over every codec and random arguments. "
               "Oracle: the library on the same bytes (through the driver), the directory before and after, the lists of the library. Distinct: (conversion, contents, way of calling)")
    cov = {"stdin": 0, "files": 0, "inplace": 0, "counters_reported": 0, "missing": 0, "refused": 0, "completions": 0, "pages": 0, "bytes": 0, "unwritable": 0, "without_environment": 0}
    root = tempfile.mkdtemp(prefix="c24-")
    os.chmod(root, 0o755)
    C = gen.Convs(tree, r, bad=0.02)
    jobs = []
    n = ck.n(320, 6000)
    lib = []
    # many files under a low limit of descriptors, large files, long names and conversions, files of other directories and given twice
    scaled = [("many", k) for k in r.sample([40, 64, 100, 127, 128, 129, 255, 256, 257, 300], ck.n(5, 10))] + \
        [("large", k) for k in r.sample([32767, 32768, 65535, 65536, 65537, 70000, 131072, 262143, 1048576, 1048577, 3000000], ck.n(7, 11))] + \
        [("names", k) for k in (200, 248)] + [("conv", k) for k in r.sample(scale.NEAR + [20000, 70000, 100000], ck.n(6, 27))] + [("dirs", 0)] * 3 + [("deep", k) for k in (1, 5, 18)]
    for i in range(n, n + len(scaled) * ck.n(1, 6)):
        kind, k = scaled[i % len(scaled)]
        cv = r.choice(["UTF-8:UPPER:UTF-8", "UTF-8,BYTE:UNIX:UTF-8,BYTE", "UTF-8:NFC:UTF-16LE", "UTF-8,ANY#013F&ERROR:WIDTH:ASCII,3F", "UTF-8:FULL:CP950,ESCAPE", "BYTE:UTF-8", "ESCAPE,UTF-8,BYTE:UTF-8,BYTE"])
        way = r.choice(["files", "inplace"] + ["stdin", "inplace"] * (kind in ("large", "conv")))
        names = ["f"]
        bs = [content(r, r.choice(SIZES))]
        if kind == "many":
            names = ["f%d" % q for q in range(k)]
            bs = [content(r, r.choice(SIZES[:12])) for _ in names]
            if r.random() < 0.5:
                bs[k // 2] = content(r, 70000)
        elif kind == "large":
            bs = [(content(r, 30000) * (k // 30000 + 1))[:k]]
            if way != "stdin" and r.random() < 0.5:
                names, bs = ["f", "g", "h"], [b"small", bs[0], b"small \xff\n"]
        elif kind == "names":
            names = ["n" * k, "é" * (k // 2), "m"]
            bs = [content(r, r.choice(SIZES)) for _ in names]
        elif kind == "conv":
            cv = "UTF-8,BYTE:" + r.choice(["REPLACE#0161=", "INSERT#AFTER="]) + ".".join(["0162"] * 3) + ":UTF-8,BYTE" + ("|UTF-8,BYTE:UTF-8,BYTE" if k < 4 else ",ESCAPE#FOR=ANSI&PREFIX=" + "25" * (k // 2) if k < 5000 else ",ASCII" * (k // 60) + ",ESCAPE#PREFIX=" + "25" * (k // 3))
        elif kind == "deep":
            names = ["/".join(["d" * 200] * k + ["f"]), "/".join(["e" * 50] * 3 * k + ["g"])]
            bs = [content(r, r.choice(SIZES)) for _ in names]
            way = "inplace"
        else:
            names = ["f", "sub/dir/g", "sub/f", "./h", "sub/../k", "F"]
            bs = [content(r, r.choice(SIZES)) for _ in names]
        jobs.append(dict(i=i, conv=cv, way=way, bs=bs, names=names, modes=[r.choice([0o644, 0o600]) for _ in bs], own=[(0, 0)] * len(bs), prefix=("prlimit", "--nofile=24") if kind == "many" else ()))
        cov["scaled"] = cov.get("scaled", 0) + 1
        for b in bs:
            lib.append(["N 0 " + hx(cv), "I 0"] + ["F 0 A 0 1 %s 0" % hx(b[q:q + IBUF]) for q in range(0, len(b), IBUF)] + ["F 0 A 1 1 . 0", "R 0"])
    for i in range(n):
        if r.random() < 0.4:
            cv = gen.paired(r)[0]
        else:
            cv = C.conv()
        if "LOG" in cv.upper() or "SCORE-TRAIN" in cv.upper() or "OUTPUT" in cv.upper():
            cv = "UTF-8:UPPER:UTF-8"
        expand = bool(gen.EXPAND.search(cv))
        way = r.choice(["stdin", "files", "files", "inplace", "inplace"])
        k = 1 if way == "stdin" else r.choice([1, 1, 2, 3, 5])
        bs = [content(r, r.choice(SIZES[:6] if expand else SIZES)) for _ in range(k)]
        if k > 1 and r.random() < 0.3:
            bs[-1] = bs[0]
        names = r.sample(NAMES, k)
        if names[0] in ("-i", "-l"):
            names[0] = "a"
        jobs.append(dict(i=i, conv=cv, way=way, bs=bs, names=names, modes=[r.choice([0o644, 0o600, 0o755, 0o444, 0o664, 0o640, 0o4755, 0o2711, 0o400]) for _ in bs],
                         own=[(r.choice([0, 0, 1000, 12345]), r.choice([0, 0, 1000, 54321])) for _ in bs]))
        for b in bs:
            L = ["N 0 " + hx(cv), "I 0"]
            if per_piece(cv):
                for j in range(0, len(b), IBUF):
                    L.append("F 0 A 0 1 %s 0" % hx(b[j:j + IBUF]))
                L.append("F 0 A 1 1 . 0")
            else:
                L.append("F 0 A 1 1 %s 0" % hx(b))
            L.append("R 0")
            lib.append(L)
    res = iter(ck.run("asan", lib))
    for j in jobs:
        j["lib"] = [next(res) for _ in j["bs"]]

    noenv = {k: v for k, v in tree.env().items() if k != "BSDCONV_PATH"}
    hung = []

    def tool(name, args, stdin=b"", cwd=None, prefix=()):
        """one call in eight without BSDCONV_PATH: the tools then use the directory they were built for"""
        if len(hung) > 3:
            return None, b"", b"", Crash("hang", name, "not run: %d calls before did not end" % len(hung))
        h = sum(map(ord, "".join(args))) % 8
        x = cli.run(tree, name, args, stdin, cwd=cwd, env=noenv if h == 0 else None, timeout=60, prefix=prefix)
        cov["without_environment"] += h == 0
        if x[3] is not None and x[3].kind == "hang":
            hung.append(args)
        return x

    def go(j):
        d = os.path.join(root, "j%d" % j["i"])
        os.mkdir(d)
        for nm, b, m, o in zip(j["names"], j["bs"], j["modes"], j["own"]):
            p = os.path.join(d, nm)
            os.makedirs(os.path.dirname(p) if ".." not in nm else os.path.join(d, "sub"), exist_ok=True)
            with open(p, "wb") as f:
                f.write(b)
            os.chown(p, *o)
            os.chmod(p, m)
        before = snapshot(d)
        if j["way"] == "stdin":
            x = tool("bsdconv", [j["conv"]], j["bs"][0], cwd=d)
        else:
            x = tool("bsdconv", [j["conv"]] + (["-i"] if j["way"] == "inplace" else []) + j["names"], b"unused", cwd=d, prefix=j.get("prefix", ()))
        after = snapshot(d)
        shutil.rmtree(d)
        return x, before, after

    with ThreadPoolExecutor(8) as ex:
        outs = list(ex.map(go, jobs))
    for j, ((rc, out, err, crash), before, after) in zip(jobs, outs):
        cv, way, names = j["conv"], j["way"], j["names"]
        what = "bsdconv '%s' %s %r" % (cv[:200], "-i" if way == "inplace" else "", names[:8] if way != "stdin" else "<")
        rep = dict(conversion=cv, way=way, names=names, contents=[b[:30000].hex() for b in j["bs"][:10]], rc=rc, stdout=out.hex() if len(out) < 5000 else out[:5000].hex(), stderr=err.decode("utf-8", "replace")[-2000:])
        if crash:
            ck.crash(crash, what, **rep)
            continue
        bad = [x for x in j["lib"] if isinstance(x, Crash)]
        if bad:
            ck.crash(bad[0], what, **rep)
            continue
        cov[way] += 1
        for b in j["bs"]:
            ck.saw((cv, b, way), bool(b))
            cov["bytes"] += len(b)
        if j["lib"][0][0].startswith("null"):
            cov["refused"] += 1
            if rc != 1 or out or not err.strip() or before != after:
                ck.violation("refused", "%s: the library refuses it, the command ends with %s and %d bytes" % (what, rc, len(out)), **rep)
            continue
        want = [b"".join(un(y) or b"" for y in x[2:-1]) for x in j["lib"]]
        cn = [counters(x[-1]) for x in j["lib"]]
        if rc != 0:
            ck.violation("status", "%s ends with %s: %s" % (what, rc, err[-300:]), **rep)
            continue
        if way != "inplace":
            if out != b"".join(want):
                ck.violation("output:" + way, "%s: %d bytes, the library gives %d; first difference at %d" % (what, len(out), sum(map(len, want)), next((i for i, (a, b) in enumerate(zip(out, b"".join(want))) if a != b), min(len(out), sum(map(len, want))))), **rep)
            if after != before:
                ck.violation("untouched:" + way, "%s changes the directory: %s" % (what, sorted(set(after) ^ set(before))), **rep)
        else:
            if out:
                ck.violation("output:inplace", "%s prints %d bytes" % (what, len(out)), **rep)
            exp = dict(before)
            names_ = names
            names = [os.path.normpath(nm) for nm in names]
            for nm, w in zip(names, want):
                exp[nm] = before[nm][:4] + (w,)
            if set(after) != set(exp):
                ck.violation("leftover", "%s leaves %s, not %s" % (what, sorted(after), sorted(exp)), **rep)
            else:
                for nm in names:
                    if after[nm][4] != exp[nm][4]:
                        ck.violation("output:inplace", "%s: %s has %d bytes, the library gives %d" % (what, nm, len(after[nm][4]), len(exp[nm][4])), **rep)
                    elif after[nm][:4] != exp[nm][:4]:
                        ck.violation("permissions", "%s: %s had %s, has %s (type, mode, owner, group)" % (what, nm, exp[nm][:4], after[nm][:4]), **rep)
            names = names_
        rp, wr = report(err), wanted([(None if way == "stdin" else nm.encode(), c) for nm, c in zip(names, cn)])
        cov["counters_reported"] += sum(len(x[1]) for x in wr)
        if rp != wr:
            ck.violation("counters:" + ("several" if len(names) > 1 else "one"), "%s reports %s, the library counts %s" % (what, str(rp)[:1500], str(wr)[:1500]), **rep)
    for j in jobs[:3]:
        ck.sample({"conversion": j["conv"], "way": j["way"], "sizes": [len(b) for b in j["bs"]]})

    # ---- files that are not there, conversions that are not known, output nowhere
    d = os.path.join(root, "x")
    os.mkdir(d)
    for nm in ("a", "b"):
        open(os.path.join(d, nm), "wb").write(b"text " + nm.encode() + b"\n")
    os.mkdir(os.path.join(d, "dir"))
    for way in ([], ["-i"]):
        for args, conv_ok in ((["nope"], 0), (["a", "nope", "b"], 1), (["nope", "a"], 0), (["a", "no/where"], 1)):
            for nm in ("a", "b"):
                open(os.path.join(d, nm), "wb").write(b"text " + nm.encode() + b"\n")
            rc, out, err, crash = tool("bsdconv", ["ASCII:UPPER:ASCII"] + way + args, cwd=d)
            what = "bsdconv ASCII:UPPER:ASCII %s" % (way + args)
            ck.saw(("missing", str(way + args)))
            cov["missing"] += 1
            if crash:
                ck.crash(crash, what)
                continue
            a, b = (open(os.path.join(d, x), "rb").read() for x in "ab")
            if rc != 1 or b"nope" not in err and b"where" not in err:
                ck.violation("missing", "%s ends with %s: %r" % (what, rc, err))
            if sorted(os.listdir(d)) != ["a", "b", "dir"] or b != b"text b\n" or way and a != (b"TEXT A\n" if conv_ok else b"text a\n") or not way and out != (b"TEXT A\n" if conv_ok else b""):
                ck.violation("missing", "%s leaves %s %r %r and prints %r" % (what, sorted(os.listdir(d)), a, b, out))
    for bad in ("NOPE:ASCII", "ASCII:NOPE", "", ":", "ASCII:ASCII:", "ASCII:REPLACE:ASCII", "NOPE"):
        for args in ([bad], [bad, "a"], [bad, "-i", "a"]):
            s0 = snapshot(d)
            rc, out, err, crash = tool("bsdconv", args, b"text", cwd=d)
            ck.saw(("bad", str(args)))
            if crash:
                ck.crash(crash, "bsdconv %s" % args)
            elif rc != 1 or out or not err.strip() or snapshot(d) != s0:
                ck.violation("refused", "bsdconv %s ends with %s, prints %r, says %r" % (args, rc, out, err))
    for nbytes in (1, 10, 5000, 200000):
        with open("/dev/full", "wb") as full:
            p = subprocess.run([os.path.join(tree.bin, "bsdconv"), "UTF-8:UPPER:UTF-8"], input=b"x" * nbytes, stdout=full, stderr=subprocess.PIPE, env=tree.env())
        cov["unwritable"] += 1
        ck.saw(("full", nbytes))
        if p.returncode == 0:
            ck.violation("unwritable", "%d bytes to a full device: the command ends with 0" % nbytes)
    for args in (["UTF-8:UTF-8", "dir"], ["UTF-8:UTF-8", "-i", "dir"]):
        s0 = snapshot(d)
        rc, out, err, crash = tool("bsdconv", args, b"", cwd=d)
        ck.saw(("dir", str(args)))
        if crash:
            ck.crash(crash, "bsdconv %s" % args)
        elif rc == 0 or out or snapshot(d) != s0:
            ck.violation("unreadable", "bsdconv %s (a directory) ends with %s, prints %r" % (args, rc, out))

    # ---- listing, completion, manual
    kinds = ("from", "inter", "to", "filter", "scorer")
    x = ck.run("asan", [["ml " + k for k in kinds]])[0]
    if isinstance(x, Crash):
        ck.crash(x, "listing")
        return
    lists = {k: [un(y).decode() for y in v.split(",")] for k, v in zip(kinds, x)}
    want = "".join("[%s]\n" % k.capitalize() + "".join("\t%s\n" % n for n in lists[k]) for k in kinds)
    for args in (["-l"], ["UTF-8:UTF-8", "-l"], ["nope", "-i", "-l"]):
        rc, out, err, crash = tool("bsdconv", args, cwd=d)
        ck.saw(("list", str(args)))
        if crash:
            ck.crash(crash, "bsdconv %s" % args)
        elif rc != 0 or out.decode() != want:
            ck.violation("listing", "bsdconv %s prints %d bytes and ends with %s, the library lists %d bytes" % (args, len(out), rc, len(want)), stdout=out.decode(), want=want)
    rc, out, err, crash = tool("bsdconv", [], cwd=d)
    if crash or rc != 1 or out or b"Usage" not in err:
        ck.violation("usage", "bsdconv without arguments ends with %s: %r" % (rc, err))

    args = ["", ":", "|", ",", "UTF-8:", "UTF-8|", "'UTF-8:", "\"utf-8:U", "'", "''", "utf-8:upper:", "a|b:c,d", "UTF-8:UTF-8|", "ZH", "\"", "utf-8:zh", "utf-8,", "UTF-8:UTF-8,a", "é", "UTF-8:é"]
    for _ in range(ck.n(150, 3000)):
        s = C.conv() if r.random() < 0.5 else r.choice(sum(lists.values(), []))
        s = s.split("#")[0][:r.randrange(0, 40)]
        if r.random() < 0.5:
            s = s.lower()
        if r.random() < 0.2:
            s = r.choice("'\"") + s + r.choice(["", "'", '"'])
        args.append(s)
    args = [a for a in args if "\0" not in a]
    with ThreadPoolExecutor(8) as ex:
        outs = list(ex.map(lambda a: tool("bsdconv-completion", [a], cwd=d), args))
    for a, (rc, out, err, crash) in zip(args, outs):
        ck.saw(("complete", a))
        cov["completions"] += 1
        if crash:
            ck.crash(crash, "bsdconv-completion %r" % a, argument=a)
        elif rc != 0 or out.decode("utf-8", "surrogateescape").split("\n")[:-1] != complete(lists, a):
            ck.violation("completion", "bsdconv-completion %r prints %r, the lists give %r" % (a, out[:300], complete(lists, a)[:8]), argument=a)

    pages = []
    for k in ("from", "inter", "to", "filter"):
        for nm in lists[k]:
            pages.append((k, nm, nm))
    if ck.tier == "quick":
        pages = r.sample(pages, 110) + [p for p in pages if p[1] in ("CNS11643", "UNICODE", "LOCALE")]
    pages += [(k, v, v) for k in ("from", "inter", "to", "filter") for v in ("NOPE", "X" * 300)]

    def manual(k, nm, depth=0):
        p = os.path.join(tree.share, k, nm + ".man")
        if os.path.exists(p):
            b = open(p, "rb").read()
            m = re.match(rb"\.redirect\s+(\S+)", b)
            if m:
                a, q = m.group(1).decode().split("/")
                return manual(a.lower(), q.upper(), depth + 1)
            return ("%s/%s:\n" % (k.upper(), nm)).encode() + b
        al = {}
        p = os.path.join(tree.share, k, "alias")
        if os.path.exists(p):
            for ln in open(p):
                if "\t" in ln and not ln.startswith("#"):
                    f = re.split("\t+", ln.strip())
                    al[f[0]] = f[1]
        if nm in al:
            return ("%s/%s:\nAlias to %s\n" % (k.upper(), nm, al[nm])).encode()
        ex = os.path.exists(os.path.join(tree.share, k, nm + (".so" if k == "filter" else "")))
        return b"No man page for such codec\n" if ex else b"No such codec\n"

    def page(t):
        k, nm, _ = t
        h = sum(map(ord, k + nm)) & 1
        a = nm.lower() if len(nm) & 1 else nm
        return tool("bsdconv-man", [k.upper() if h else k, a] if len(nm) & 2 else ["%s/%s" % (k, a)], cwd=d)
    with ThreadPoolExecutor(8) as ex:
        outs = list(ex.map(page, pages))
    for (k, nm, _), (rc, out, err, crash) in zip(pages, outs):
        if (k, nm) in (("from", "LOCALE"), ("to", "LOCALE"), ("inter", "UNICODE")):
            continue
        ck.saw(("man", k, nm))
        cov["pages"] += 1
        if crash:
            ck.crash(crash, "bsdconv-man %s/%s" % (k, nm))
        elif rc != 0 or out != manual(k, nm):
            ck.violation("manual", "bsdconv-man %s/%s prints %r, the files have %r" % (k, nm, out[:200], manual(k, nm)[:200]))
    for a in ([], ["from"], ["x/y"], ["from", "a", "b"]):
        rc, out, err, crash = tool("bsdconv-man", a, cwd=d)
        ck.saw(("usage", str(a)))
        if crash:
            ck.crash(crash, "bsdconv-man %s" % a)
        elif rc == 0 or b"Usage" not in err:
            ck.violation("manual", "bsdconv-man %s ends with %s" % (a, rc))
    for a in ([], ["a"], ["a", "b", "c", "d"], ["nowhere.txt", "out"], ["dir/none.txt", "out"]):
        s0 = snapshot(d)
        rc, out, err, crash = tool("bsdconv-mktable", a, cwd=d)
        ck.saw(("mktable", str(a)))
        if crash:
            ck.crash(crash, "bsdconv-mktable %s" % a)
        elif rc in (0, None) or not err.strip() + out.strip() or any(snapshot(d).get(x) != y for x, y in s0.items()):
            ck.violation("mktable", "bsdconv-mktable %s ends with %s, says %r" % (a, rc, (out + err)[:200]))
    shutil.rmtree(root, ignore_errors=True)
    ck.cov = cov
