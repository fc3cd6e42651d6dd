"""C22: lists, existence checks, aliases and creation agree."""
import json, os, re, shutil, subprocess, tempfile
from vlib import cns, gen
from vlib.driver import Crash, hx, un

KINDS = ("from", "inter", "to", "filter", "scorer")
REFUSED = "null 95"
LOG = {("from", "BSDCONV-LOG"), ("to", "BSDCONV-LOG"), ("to", "BSDCONV-OUTPUT"), ("to", "BSDCONV-STDOUT")}   # write elsewhere than to the caller
RUNTIME = {("from", "LOCALE"), ("to", "LOCALE"), ("inter", "UNICODE")}      # resolved when used: not listed
NEED = {("inter", "REPLACE"): "61=62", ("inter", "NOBOM"): None, ("inter", "TRIM-WIDTH"): "3"}


def aliases(path):
    d = {}
    for ln in open(path):
        ln = ln.rstrip("\n")
        if ln.startswith("#") or "\t" not in ln:
            continue
        a, b = re.split("\t+", ln, maxsplit=1)
        d[a] = b.strip()
    return d


def expand(al, name, args):
    """the conversion text an alias stands for, its arguments given to each of the codecs"""
    out = []
    for c in al[name].split(","):
        out.append(c + ("&" if "#" in c else "#") + args if args else c)
    return ",".join(out)


def full(al, name, seen=()):
    """the names an alias finally leads to"""
    out = []
    for ph in al[name].split(":"):
        for c in ph.split(","):
            n = c.split("#")[0]
            if n in al and n not in seen:
                out += full(al, n, seen + (n,))
            else:
                out.append(n)
    return out


def conv(kind, s):
    return {"from": "%s:PASS", "inter": "UTF-8:%s:PASS", "to": "UTF-8:%s", "filter": "UTF-8:COUNT#FOR=%s&K:PASS", "scorer": "UTF-8:SCORE#WITH=%s:PASS"}[kind] % s


def recase(r, s):
    return "".join(r.choice([c.upper(), c.lower()]) for c in s)


def run(ck):
    r = ck.r
    tree = ck.tree("asan")
    ck.rule = ("the list of every kind, against the files of the build; every listed name, used in a conversion as listed and in random letter cases; every alias against the text it stands for, with and without arguments, alone, beside other codecs and in pipes, "
               "on texts and byte strings; the existence check on every file name and alias of every kind, and on thousands of other names (mutated, truncated, with dots and slashes, random), which creation has to refuse. "
               "Oracle: the directory contents and alias files read by this check, equal output and counters of alias and expansion. Distinct: (kind, name, arguments) and (alias, input)")
    ck.assumptions = ["LOCALE and UNICODE are resolved from the environment and the installed tables when used, so they are usable without being listed", "arguments given to an alias of several phases are not looked at"]
    cov = {"listed": {}, "used": 0, "aliases": 0, "alias_runs": 0, "checked_names": 0, "refused": 0, "locales": 0, "without_environment": 0, "grown_lists": 0, "added_codecs": 0}
    files = {k: tree.modules(k) for k in KINDS}
    al = {}
    for k in KINDS:
        p = os.path.join(tree.share, k, "alias")
        al[k] = aliases(p) if os.path.exists(p) else {}

    # ---- lists
    lists = {}
    L = ["ml " + k for k in KINDS] + ["ml %s x" % k for k in KINDS] + ["ml 0", "ml 99"]
    for x in ck.run("asan", [L]):
        if isinstance(x, Crash):
            ck.crash(x, "listing", commands=L)
            return
        for i, k in enumerate(KINDS):
            got = [un(y).decode() for y in x[i].split(",")] if x[i] != "." else []
            lists[k] = got
            cov["listed"][k] = len(got)
            if x[i] != x[i + len(KINDS)]:
                ck.violation("list:%s:two" % k, "the two listing functions differ", commands=L)
            want = sorted(set(files[k]) | set(al[k]))
            ck.saw(("list", k), bool(got))
            for n in sorted(set(got) | set(want)):
                if got.count(n) != 1:
                    ck.violation("list:%s/%s" % (k, n), "%s/%s is listed %d times, the files have %s" % (k, n, got.count(n), "it" if n in want else "no such codec"), commands=L)
            if got != sorted(got, key=lambda s: s.encode()):
                ck.violation("list:%s:order" % k, "the list of %s is not in order" % k, commands=L)

    # ---- every name that should be listed works, in any case
    cases, meta = [], []
    for k in KINDS:
        for n in sorted(set(lists[k]) | set(files[k]) | set(al[k])):
            if (k, n) in LOG:
                continue
            for v in [n, n.lower()] + [recase(r, n) for _ in range(ck.n(2, 20))]:
                a = NEED.get((k, n))
                L = ["N 0 " + hx(conv(k, v + ("#" + a if a else ""))), "D 0", "mc %s %s" % (k, hx(v))]
                cases.append(L)
                meta.append((k, n, v))
    for L, x, (k, n, v) in zip(cases, ck.run("asan", cases), meta):
        if isinstance(x, Crash):
            ck.crash(x, "%s/%s" % (k, v), commands=L)
            continue
        ck.saw(("use", k, v))
        cov["used"] += 1
        if not x[0].startswith("ok"):
            ck.violation("unusable:%s/%s" % (k, n), "%s/%s is listed, %s is refused: %s" % (k, n, v, x[0]), commands=L)
        w = "1 1" if n in files[k] else "0 0"
        if x[2] != w:
            ck.violation("check:%s/%s" % (k, n), "the check for %s/%s says %s, not %s" % (k, v, x[2], w), commands=L)

    # ---- aliases against what they stand for
    def one(k, s):
        return s
    cases, meta = [], []
    frame = {"from": ["%s:UTF-8,HEX", "ANY#01FFFD,%s:UTF-8,3F", "ASCII:ASCII|%s:PASS", "%s:UPPER:UTF-8|%s:BSDCONV"],
             "inter": ["UTF-8:%s:BSDCONV", "UTF-8:UPPER:%s:FULL:UTF-8", "UTF-8:%s:UTF-8|UTF-8:%s:UTF-8", "UTF-8:%s:PASS|PASS:LOWER:UTF-8"],
             "to": ["UTF-8:%s", "UTF-8,BYTE:%s,HEX", "UTF-8:HEX,%s", "UTF-8:NFD:%s,UTF-8", "UTF-8:%s,BYTE|BYTE:UPPER:BYTE"]}
    arg = {"from": ["DROP", "0141", "X", "FOR=CJK", "LOOSE", "NUL", "ERROR=FOO"], "inter": ["FOR=CJK", "BEFORE=0141", "X", "0161=0162", "MIN-LEN=2"], "to": ["CESU", "NUL", "SUFFIX=3B", "FOR=CJK", "MODE=8", "X", "DROP", "PREFIX=25"]}
    # the aliases of the distribution keep standing for what they stand for; new ones may come
    for k, names in json.load(open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "vlib", "data", "aliases.json"))).items():
        for n, t in names.items():
            kinds_ = ("from", "inter", "to")
            if k in kinds_ and (any(m not in files[k] and (k, m) not in RUNTIME and m not in al[k] for m in [q.split("#")[0] for ph in t.split(":") for q in ph.split(",")]) or (k, n) in LOG):
                continue
            for f in frame[k][:2] if k in kinds_ else ["UTF-8,BYTE:COUNT#FOR=%s&K:PASS"]:
                A, B = f.replace("%s", n), f.replace("%s", t)
                L = ["N 0 " + hx(A), "N 1 " + hx(B)]
                ins = [gen.rich(r).encode(r.choice(["utf-8", "utf-16-le", "big5", "gbk", "cp1252", "shift_jis"]), "ignore") for _ in range(ck.n(4, 20))] + [bytes(range(256)), gen.rich(r).encode()]
                for b in ins:
                    L += ["O 0 " + hx(b), "O 1 " + hx(b)]
                cases.append(L)
                meta.append((k, n, A, B, ins))
    dead = {k: set(n for n in al[k] if any(m not in files[k] and (k, m) not in RUNTIME for m in full(al[k], n))) for k in al}
    for k in ("from", "inter", "to"):
        for n in sorted(al[k]):
            if (k, n) in LOG:
                continue
            cov["aliases"] += 1
            if n in dead[k]:
                continue
            for a in [""] * 2 + (arg[k] if ":" not in al[k][n] else []):
                args = a
                if a and r.random() < 0.3:
                    args = a + "&" + r.choice(arg[k])
                fs = frame[k] if not a else [r.choice(frame[k])]
                for f in fs * (1 if ck.tier == "quick" else 5):
                    if a and f.count("%s") > 1:
                        continue
                    s = recase(r, n) if r.random() < 0.4 else n
                    A = f.replace("%s", s + ("#" + args if args else ""))
                    B = f.replace("%s", expand(al[k], n, args))
                    L = ["N 0 " + hx(A), "N 1 " + hx(B)]
                    ins = [gen.rich(r).encode(r.choice(["utf-8", "utf-8", "utf-16-le", "big5", "gbk", "cp1252", "shift_jis"]), "ignore") if r.random() < 0.6 else gen.payload(r, 60) for _ in range(ck.n(6, 20))]
                    ins.append(bytes(range(256)))
                    for b in ins:
                        L += ["O 0 " + hx(b), "O 1 " + hx(b)]
                    cases.append(L)
                    meta.append((k, n, A, B, ins))
    for L, x, (k, n, A, B, ins) in zip(cases, ck.run("asan", cases), meta):
        if isinstance(x, Crash):
            ck.crash(x, "%s against %s" % (A, B), commands=L)
            continue
        if x[0][:2] != x[1][:2] or x[0].startswith("null"):
            if x[0] != x[1]:
                ck.violation("alias:%s/%s" % (k, n), "%s gives %s, %s gives %s" % (A, x[0], B, x[1]), commands=L)
            continue
        for i, b in enumerate(ins):
            ck.saw((A, b), bool(b))
            cov["alias_runs"] += 1
            if x[2 + 2 * i] != x[3 + 2 * i]:
                ck.violation("alias:%s/%s" % (k, n), "%s and %s differ on %r: %s and %s" % (A, B, b, x[2 + 2 * i], x[3 + 2 * i]), commands=L)
                break
        ck.sample({"alias": A, "expansion": B}, 4)

    # filters: an alias admits what its filter admits
    cases, meta = [], []
    for n, t in al["filter"].items():
        for b in [gen.rich(r).encode() for _ in range(ck.n(5, 40))]:
            for f in ("UTF-8,BYTE:COUNT#FOR=%s&K:PASS", "UTF-8,BYTE:REPLACE#0141=022121:STRINGS#FOR=%s&MIN-LEN=1:BSDCONV", "ANSI-CONTROL,UTF-8,BYTE:PASS#MARK&FOR=%s"):
                L = ["X %s %s" % (hx(f.replace("%s", m)), hx(b)) for m in (n, t, recase(r, n))]
                cases.append(L)
                meta.append((n, t, f, b))
    for L, x, (n, t, f, b) in zip(cases, ck.run("asan", cases), meta):
        if isinstance(x, Crash):
            ck.crash(x, f % n, commands=L)
            continue
        ck.saw(("filter", n, f, b))
        if len(set(x)) != 1:
            ck.violation("alias:filter/" + n, "%s differs with %s and %s: %s" % (f, n, t, x), commands=L)

    # solve_alias itself: the text of the file, or that there is none
    cases, meta = [], []
    for k in ("from", "inter", "to", "filter"):
        names = set(al[k]) | set(files[k]) | {"NOPE", "A", "UTF", "UTF-", "UTF-8X", "3FF", "C", "CP", "0"}
        for n in sorted(names):
            if (k, n) in RUNTIME:
                continue
            v = r.choice([n, n.lower(), recase(r, n)])
            cases.append(["sa %s %s" % (k, hx(v))])
            meta.append((k, n, v))
    for L, x, (k, n, v) in zip(cases, ck.run("asan", cases), meta):
        if isinstance(x, Crash):
            ck.crash(x, "alias of %s" % v, commands=L)
            continue
        g = un(x[0])
        g = None if g is None else g.decode("latin-1")
        ck.saw(("solve", k, n))
        if g != al[k].get(n):
            ck.violation("solve:%s/%s" % (k, n), "the alias %s/%s stands for %r, not %r" % (k, v, g, al[k].get(n)), commands=L)

    # ---- names that are no codecs
    cases, meta = [], []
    known = {k: set(files[k]) | set(al[k]) | {n for kk, n in RUNTIME if kk == k} for k in KINDS}
    allnames = sorted(set(n for k in KINDS for n in known[k]))
    bad, joined = set(), set()
    for n in allnames:
        for v in (n + "X", n[:-1], n[1:], "_" + n, n.lstrip("_"), n + ".SO", n + ".so", n + ".man", "./" + n, "../from/" + n, n + "/", n + "/.", "../" + n, n.replace("-", "_"), n.replace("-", ""), n + "\x01", n + "\xa0", n + ";", n + "*", "*", "\x7f" + n):
            bad.add(v)
    for _ in range(ck.n(300, 5000)):
        bad.add("".join(chr(r.randrange(0x21, 0x7f)) for _ in range(r.randrange(1, 12))))
        n = list(r.choice(allnames))
        n[r.randrange(len(n))] = r.choice("ABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789-_")
        bad.add("".join(n))
    for k in ("from", "inter", "to", "filter"):
        for n in al[k]:
            for m in [n, r.choice(sorted(al[k])), r.choice(sorted(al[k])), r.choice(files[k])]:
                bad |= {n + m, m + n}
                joined |= {n + m, m + n}
    bad |= {".", "..", "/", "/tmp", "alias", "ALIAS", "...", "../..", "~", "-", "%s", "%n%n", "A" * 200, "A" * 1000, "A" * 5000, "A" * 70000, "_", "from", "\xff", "é", "中"}
    bad = sorted(b for b in bad if b and not re.search("[:|,# \t\r\n\f]", b) and "\0" not in b)
    per = 200
    for k in KINDS:
        mine = [b for b in bad if b.upper() not in known[k] and not (k in ("filter", "scorer") and re.search("[&=]", b))]
        for i in range(0, len(mine), per):
            L = []
            for b in mine[i:i + per]:
                c = conv(k, b)
                if k in ("filter",):
                    c = "UTF-8:COUNT#FOR=%s:PASS" % b
                L += ["N 0 " + hx(c), "D 0", "mc %s %s" % (k, hx(b))]
            cases.append(L)
            meta.append((k, mine[i:i + per]))
    for L, x, (k, names) in zip(cases, ck.run("asan", cases), meta):
        if isinstance(x, Crash):
            ck.crash(x, "names that are no codecs", commands=L)
            continue
        for i, b in enumerate(names):
            ck.saw(("bad", k, b))
            cov["checked_names"] += 1
            if x[3 * i].startswith("ok"):
                ck.violation("accepted:%s%s" % (k, ":joined" if b in joined else ""), "%s/%s is no codec, and can be used" % (k, b[:100]), commands=L[3 * i:3 * i + 3])
            else:
                cov["refused"] += 1
                if k in ("from", "inter", "to") and x[3 * i] not in ((REFUSED, "null 22") if b in joined else (REFUSED,)):
                    ck.violation("refused:%s" % k, "%s/%s is refused with %s, not %s" % (k, b[:100], x[3 * i], REFUSED), commands=L[3 * i:3 * i + 3])
            if x[3 * i + 2] != "0 0":
                ck.violation("exists:%s" % k, "%s/%s is no codec, the check says %s" % (k, b[:100], x[3 * i + 2]), commands=L[3 * i:3 * i + 3])

    # ---- no BSDCONV_PATH in the environment: the installation the library was built for
    default(ck, r, tree, files, al, cov)
    grown(ck, r, tree, cov)
    made_up(ck, tree, cov, frame, arg)

    # ---- LOCALE: the codec named by the environment
    base = tree.env()
    for var in ("LC_ALL", "LC_CTYPE", "LANG"):
        for val, name in (("en_US.UTF-8", "UTF-8"), ("zh_TW.Big5", "BIG5"), ("zh_CN.GB18030", "GB18030"), ("C", "ASCII"), ("POSIX", "ASCII"), ("UTF-8", "UTF-8"), ("x.CP1251", "CP1251"), (None, "ASCII"), ("en.nope", None)):
            e = {a: b for a, b in base.items() if a not in ("LC_ALL", "LC_CTYPE", "LANG")}
            if val is not None:
                e[var] = val
            if var == "LC_ALL" and r.random() < 0.5:
                e["LANG"] = "x.KOI"
            if val is None:
                e.pop("LANG", None)
            for b in (gen.rich(r, 12).encode(), "中文 é".encode("gb18030")):
                L = ["X %s %s" % (hx(c), hx(b)) for c in ("LOCALE:UTF-8,HEX", "locale:UTF-8,HEX", "UTF-8,BYTE:LOCALE,HEX")]
                L += ["X %s %s" % (hx(c % (name or "NOPE")), hx(b)) for c in ("%s:UTF-8,HEX", "%s:UTF-8,HEX", "UTF-8,BYTE:%s,HEX")]
                x = ck.run("asan", [L], env=e)[0]
                if isinstance(x, Crash):
                    ck.crash(x, "LOCALE in %s=%s" % (var, val), commands=L)
                    continue
                ck.saw(("locale", var, val, b))
                cov["locales"] += 1
                if x[:3] != x[3:]:
                    ck.violation("locale", "%s=%s: LOCALE gives %s, %s gives %s" % (var, val, x[:3], name, x[3:]), commands=L)
    # several of them: the first of LC_ALL, LC_CTYPE and LANG
    VALS = (("en_US.UTF-8", "UTF-8"), ("zh_TW.Big5", "BIG5"), ("zh_CN.gb18030", "GB18030"), ("C", "ASCII"), ("ja_JP.CP932", "CP932"), ("ru_RU.CP1251", "CP1251"), ("POSIX", "ASCII"), ("ko.UHC", "UHC"))
    for _ in range(ck.n(24, 400)):
        e = {a: b for a, b in base.items() if a not in ("LC_ALL", "LC_CTYPE", "LANG")}
        name = None
        for var in ("LC_ALL", "LC_CTYPE", "LANG"):
            if r.random() < 0.7:
                e[var], n = r.choice(VALS)
                name = name or n
        name = name or "ASCII"
        b = (gen.rich(r, 12) + "中é").encode(r.choice(["utf-8", "gb18030", "cp932", "big5", "uhc"]), "ignore")
        L = ["X %s %s" % (hx(c % w), hx(b)) for w in ("LOCALE", name) for c in ("%s:UTF-8,HEX", "UTF-8,BYTE:%s,HEX")]
        x = ck.run("asan", [L], env=e)[0]
        if isinstance(x, Crash):
            ck.crash(x, "LOCALE in %s" % e, commands=L)
            continue
        ck.saw(("locales", e.get("LC_ALL"), e.get("LC_CTYPE"), e.get("LANG"), b))
        cov["locales"] += 1
        if x[:2] != x[2:]:
            ck.violation("locale", "LC_ALL=%s LC_CTYPE=%s LANG=%s: LOCALE gives %s, %s gives %s" % (e.get("LC_ALL"), e.get("LC_CTYPE"), e.get("LANG"), x[:2], name, x[2:]), commands=L)
    added(ck, r, tree, cov)
    ck.cov = cov


def added(ck, r, tree, cov):
    """the CNS 11643 codecs that the lists and aliases name, once their tables are there; the inter codec UNICODE is whatever is there"""
    top = tempfile.mkdtemp(prefix="c22-")
    os.chmod(top, 0o755)
    try:
        M, o = cns.install(r, tree, top, ck.n(40, 400))
        if M is None:
            return ck.violation("added:table", "bsdconv-mktable fails on a CNS11643 table: %r" % o)
        cases, meta = [], []
        for _ in range(ck.n(60, 1000)):
            cs = [r.choice(list(M)) if r.random() < 0.7 else r.choice([0x41, 0xe9, 0x4e01, 0x1f600]) for _ in range(r.randrange(1, 9))]
            known = [c for c in cs if c in M]
            u = "".join(map(chr, cs)).encode()
            k = "".join(map(chr, known)).encode()
            raw = b"".join(b"\x8e" + M[c] for c in known)
            for cv, b, w in [("UTF-8:CNS11643:UNICODE:UTF-8", u, u), ("UTF-8:UNICODE:UTF-8", u, u), ("UTF-8:cns11643:cns11643-unicode:UTF-8", u, u), ("UTF-8:CNS11643:CNS11643", k, raw), ("CNS11643:CNS11643-UNICODE:UTF-8", raw, k),
                             ("CNS11643:Unicode:UTF-8", b"a" + raw + b"z", b"a" + k + b"z"), ("UTF-8:CNS11643:CNS11643", b"0" + k + b"~", b"0" + raw + b"~"), ("_CNS11643:_CNS11643", raw, raw), ("CNS11643:BSDCONV", raw, b"".join(b"02" + M[c].hex().upper().encode() for c in known))]:
                cases.append(["X %s %s" % (hx(cv), hx(b))])
                meta.append((cv, b, w))
        for L, x, (cv, b, w) in zip(cases, ck.run("asan", cases, env=tree.env(BSDCONV_PATH=top)), meta):
            if isinstance(x, Crash):
                ck.crash(x, cv, commands=L)
                continue
            ck.saw(("added", cv, b), bool(b))
            cov["added_codecs"] += 1
            if x[0].startswith("null") or (un(x[0].split(" ")[0]) or b"") != w:
                ck.violation("added:" + cv, "with the CNS11643 tables added, %s of %s gives %s, not %s" % (cv, b.hex(), x[0][:300], w.hex()), commands=L)
        L = ["ml " + k for k in KINDS] + ["mc %s %s" % (k, hx(n)) for k, n in (("inter", "CNS11643"), ("inter", "CNS11643-UNICODE"), ("from", "_CNS11643"), ("to", "_CNS11643"))]
        x = ck.run("asan", [L], env=tree.env(BSDCONV_PATH=top))[0]
        if isinstance(x, Crash):
            return ck.crash(x, "lists with the CNS11643 tables", commands=L)
        have = {k: [un(y).decode() for y in x[i].split(",")] for i, k in enumerate(KINDS)}
        for k, n in (("inter", "CNS11643"), ("inter", "CNS11643-UNICODE"), ("from", "_CNS11643"), ("to", "_CNS11643"), ("from", "CNS11643"), ("to", "CNS11643")):
            ck.saw(("added list", k, n))
            if have[k].count(n) != 1:
                ck.violation("added:list", "with the CNS11643 tables added, %s/%s is listed %d times" % (k, n, have[k].count(n)), commands=L)
        if x[len(KINDS):] != ["1 1"] * 4:
            ck.violation("added:check", "the checks for the added CNS11643 tables say %s" % x[len(KINDS):], commands=L)
    finally:
        shutil.rmtree(top, ignore_errors=True)
    # without them it passes everything on
    cases = []
    for _ in range(ck.n(30, 300)):
        b = gen.rich(r, 12).encode() + r.choice([b"", b"\xff", b"\xe4"])
        cases.append(["X %s %s" % (hx(c), hx(b)) for c in ("UTF-8,BYTE:UNICODE:BSDCONV", "UTF-8,BYTE:BSDCONV")])
    for L, x in zip(cases, ck.run("asan", cases)):
        if isinstance(x, Crash):
            ck.crash(x, "UNICODE", commands=L)
            continue
        ck.saw(("unicode", L[0]))
        if x[0] != x[1]:
            ck.violation("added:UNICODE", "UNICODE does not pass its input on: %s, %s" % (x[0][:300], x[1][:300]), commands=L)


def default(ck, r, tree, files, al, cov):
    """everything that looks for the codecs finds the compiled in directory when BSDCONV_PATH is not set"""
    e1 = tree.env()
    e0 = {k: v for k, v in e1.items() if k != "BSDCONV_PATH"}
    b = "aé中\u00a0 1".encode()
    L = ["ml " + k for k in KINDS] + ["ml %s x" % k for k in KINDS]
    for k in KINDS:
        names = [n for n in files[k] + sorted(al[k]) if (k, n) not in LOG]
        for n in r.sample(names, min(len(names), ck.n(12, 100))):
            a = NEED.get((k, n))
            L += ["X %s %s" % (hx(conv(k, n + ("#" + a if a else ""))), hx(b)), "mc %s %s" % (k, n)]
            if k != "scorer":
                L.append("sa %s %s" % (k, n))
        L += ["X %s %s" % (hx(conv(k, "NOPE")), hx(b)), "mc %s NOPE" % k]
    L = [" ".join(w if i == 0 or w in KINDS or L[j].startswith("X") else hx(w) for i, w in enumerate(L[j].split(" "))) if not L[j].startswith("ml") else L[j] for j in range(len(L))]
    # each line by itself as well: nothing may rest on where an earlier call has left the process
    cases = [L] + [[x] for x in L]
    one, two = ck.run("asan", cases, env=e1), ck.run("asan", cases, env=e0)
    for c, x, y in zip(cases, one, two):
        if isinstance(x, Crash) or isinstance(y, Crash):
            ck.crash(x if isinstance(x, Crash) else y, "without BSDCONV_PATH", commands=c)
            continue
        for ln, u, v in zip(c, x, y):
            ck.saw(("default", ln))
            cov["without_environment"] += 1
            if u != v:
                ck.violation("default:" + ln.split(" ")[0], "%s gives %s with BSDCONV_PATH set to the installation directory, %s with the compiled in one" % (ln, u[:200], v[:200]), commands=c)


def grown(ck, r, tree, cov):
    """directories of every number of codecs"""
    kinds = ("from", "inter", "to", "filter", "scorer")
    top = tempfile.mkdtemp(prefix="c22-")
    os.chmod(top, 0o755)
    try:
        for n in range(0, ck.n(42, 140)):
            d = os.path.join(top, str(n))
            want = {}
            for k in kinds:
                p = os.path.join(d, "share", "bsdconv", k)
                os.makedirs(p)
                names = set()
                while len(names) < n:
                    names.add("".join(r.choice("ABXYZ0129-_") for _ in range(r.choice([1, 2, 3, 8, 40]))))
                names = sorted(names)
                cut = r.choice([0, n, n // 2, r.randrange(n + 1)])
                r.shuffle(names)
                for x in names[:cut]:
                    open(os.path.join(p, x + (".so" if k in ("filter", "scorer") else "")), "w").close()
                    for suf in (".so", ".man"):
                        if r.random() < 0.3 and (k not in ("filter", "scorer") or suf == ".man"):
                            open(os.path.join(p, x + suf), "w").close()
                if k != "scorer" and (names[cut:] or r.random() < 0.3):
                    t = ""
                    for x in names[cut:]:
                        if r.random() < 0.3:
                            t += "# %s\tnot one\n" % r.choice(["X", "A-OLD", x + "Q"])
                        t += "%s%s%s\n" % (x, "\t" * r.randrange(1, 4), "UTF-8")
                    open(os.path.join(p, "alias"), "w").write(t)
                else:
                    names = names[:cut]
                want[k] = sorted(names)
            L = ["ml " + k for k in kinds] + ["ml %s x" % k for k in kinds]
            x = ck.run("asan", [L], env=tree.env(BSDCONV_PATH=d))[0]
            if isinstance(x, Crash):
                ck.crash(x, "a directory of %d codecs" % n, want=want)
                continue
            for i, k in enumerate(kinds):
                for y in (x[i], x[i + len(kinds)]):
                    got = [un(z).decode() for z in y.split(",")] if y != "." else []
                    ck.saw(("grown", k, n), n > 0)
                    cov["grown_lists"] += 1
                    if got != want[k]:
                        ck.violation("grown:" + k, "a directory of %d %s codecs lists %d: missing %s, more %s" % (len(want[k]), k, len(got), sorted(set(want[k]) - set(got))[:5], sorted(set(got) - set(want[k]))[:5]), want=want[k])
    finally:
        shutil.rmtree(top, ignore_errors=True)


def resolved(al, text, args=""):
    """the codecs a list of codecs stands for, aliases of aliases included, arguments handed down"""
    out = []
    for c in text.split(","):
        n, _, a = c.partition("#")
        a = "&".join(x for x in (a, args) if x)
        if n.upper() in al:
            out.append(resolved(al, al[n.upper()], a))
        else:
            out.append(n + ("#" + a if a else ""))
    return ",".join(out)


def made_up(ck, tree, cov, frame, arg):
    """aliases nobody ships: of several codecs, with arguments anywhere, of other aliases"""
    r = ck.r
    top = tempfile.mkdtemp(prefix="c22-")
    os.chmod(top, 0o755)
    try:
        al = {}
        for k in KINDS:
            p = os.path.join(top, "share", "bsdconv", k)
            os.makedirs(p)
            for f in os.listdir(os.path.join(tree.share, k)):
                if f != "alias":
                    os.symlink(os.path.join(tree.share, k, f), os.path.join(p, f))
            a = os.path.join(tree.share, k, "alias")
            text = open(a).read() if os.path.exists(a) else ""
            if k in ("from", "inter", "to"):
                al[k] = {}
                real = [m for m in tree.modules(k) if (k, m) not in gen.SKIP and (k, m) not in LOG and m not in ("PASS",)]
                new = []
                for i in range(ck.n(120, 400)):
                    n = ("%s%d%s" % (r.choice(["ZQ", "Q-", "X_"]), i, r.choice(["", "-A", "x" * r.choice([1, 10, 60])]))).upper()
                    cs = []
                    for _ in range(r.choice([1, 2, 2, 3, 4])):
                        c = r.choice(new) if new and r.random() < 0.3 else r.choice(real)
                        s = (r.choice(arg[k]) if c in new else gen.args_for(r, k, c)) if r.random() < 0.5 else ""
                        cs.append(c + ("#" + s if s else ""))
                    al[k][n] = ",".join(cs)
                    if r.random() < 0.2 and i:
                        text += "# %s\tUTF-8\n" % n
                    text += "%s%s%s\n" % (n, "\t" * r.choice([1, 1, 2, 5]), al[k][n])
                    if len(resolved(al[k], n)) < 300:
                        new.append(n)
            if text:
                with open(os.path.join(p, "alias"), "w") as f:
                    f.write(text)
        for k in al:
            name = "ALIAS-" + k.upper()
            w = os.path.join(top, name + ".txt")
            unit = lambda t: ",".join("01%02X" % ord(c) for c in t)
            with open(os.path.join(tree.root, "modules", "inter", name + ".txt")) as f, open(w, "w") as g:
                g.write(f.read() + "".join("%s\t%s\n" % (unit(n), unit(v)) for n, v in al[k].items() if len(unit(n)) + len(unit(v)) < 1000))
            o = os.path.join(top, "share", "bsdconv", "inter", name)
            os.unlink(o)
            p = subprocess.run([os.path.join(tree.bin, "bsdconv-mktable"), w, o], env=tree.env(), capture_output=True, timeout=120)
            if p.returncode:
                return ck.violation("made-up:table", "bsdconv-mktable fails on the aliases: %r" % p.stderr[-300:], aliases=al[k])
            al[k] = {n: v for n, v in al[k].items() if len(unit(n)) + len(unit(v)) < 1000}
        cases, meta = [], []
        for k in ("from", "inter", "to"):
            for n in al[k]:
                if len(resolved(al[k], n)) > 900:
                    continue
                for f in frame[k][:2] + r.sample(frame[k], 2):
                    a = "&".join(r.choice(arg[k]) for _ in range(r.choice([0, 0, 1, 2])))
                    c = (recase(r, n) if r.random() < 0.3 else n) + ("#" + a if a else "")
                    A, B = f.replace("%s", c), f.replace("%s", resolved(al[k], n, a))
                    L = ["N 0 " + hx(A), "N 1 " + hx(B)]
                    for _ in range(3):
                        b = gen.rich(r).encode(r.choice(["utf-8", "utf-8", "utf-16-le", "big5", "gbk"]), "ignore") if r.random() < 0.6 else gen.payload(r, 40)
                        L += ["O 0 " + hx(b), "O 1 " + hx(b)]
                    cases.append(L)
                    meta.append((k, n, A, B))
        used = 0
        for L, x, (k, n, A, B) in zip(cases, ck.run("asan", cases, env=tree.env(BSDCONV_PATH=top)), meta):
            if isinstance(x, Crash):
                ck.crash(x, "%s, %s being %s, against %s" % (A, n, al[k][n], B), commands=L)
                continue
            ok = x[0].startswith("ok")
            used += ok
            ck.saw((A, al[k][n]), ok)
            if x[0][:2] != x[1][:2] or (not ok and x[0] != x[1]):
                ck.violation("made-up:" + k, "with the alias %s for %s, %s gives %s, %s gives %s" % (n, al[k][n], A, x[0], B, x[1]), commands=L)
            elif ok and x[2::2] != x[3::2]:
                ck.violation("made-up:" + k, "with the alias %s for %s, %s and %s differ: %s and %s" % (n, al[k][n], A, B, x[2::2], x[3::2]), commands=L)
        cov["made_up_aliases"], cov["made_up_used"] = sum(map(len, al.values())), used
    finally:
        shutil.rmtree(top, ignore_errors=True)
