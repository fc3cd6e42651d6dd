"""C11: fallback order and error counting in phases that list several codecs."""
import os, re, shutil, subprocess, tempfile
from vlib import gen, scale, tables, uni
from vlib.driver import Crash, hx, un, counters


class Unspecified(Exception):
    """encoding what is no scalar value: no standard form"""


class Any:
    """ANY#...: takes one unit, gives a fixed list of data, counts"""

    def __init__(self, kind, data, key, cnt):
        self.data, self.key, self.cnt = data, key, cnt

    def hit(self):
        if self.key:
            self.cnt[self.key] = self.cnt.get(self.key, 0) + 1
        return (1, self.data, None)

    def match_bytes(self, b, i):
        return self.hit()

    def match_data(self, d, i):
        return self.hit()


class Utf8:
    def match_bytes(self, b, i):
        if b[i] < 0x80:
            return None
        s = uni.utf8_seq(b, i, ())
        if s is None or 0xd800 <= s[0] < 0xe000:
            return None
        return (s[1], [uni.internal(s[0])], None)

    def match_data(self, d, i):
        x = d[i]
        if x[:1] != b"\x01" or not 2 <= len(x) <= 4:
            return None
        c = int.from_bytes(x[1:], "big")
        if c < 0x80 and len(x) == 2:
            return None
        if x[1] == 0 or 0xd800 <= c < 0xe000 or c > 0x10ffff:
            raise Unspecified
        return (1, [chr(c).encode()], None)


class Esc:
    def __init__(self, typ, mode, pre, suf):
        self.typ, self.mode, self.pre, self.suf = typ, mode, pre, suf

    def match_data(self, d, i):
        x = d[i]
        if x[:1] != bytes([self.typ]) or len(x) < 2:
            return None
        v = int.from_bytes(x[1:], "big")
        if self.typ == 3:
            if len(x) != 2:
                return None
            s = {8: "%03o", 10: "%d", 16: "%02X"}[self.mode] % v
        elif self.mode == 16:
            s = x[1:].hex().upper()
            if not self.suf and len(x) == 2:        # nothing but the number of digits tells where it ends
                s = "00" + s
            elif not self.suf and len(x) == 4 and 0x10000 <= v < 0x110000:
                return (1, [b"".join(self.pre + b"%04X" % w for w in (0xd800 | v - 0x10000 >> 10, 0xdc00 | v & 0x3ff))], None)
        elif self.mode == 10:
            s = "%d" % v
        else:
            return None
        return (1, [self.pre + s.encode() + self.suf], None)


class Pass:
    def __init__(self, typ, limit):
        self.typ, self.limit, self.n = typ, limit, 0

    def match_data(self, d, i):
        if self.typ is not None and d[i][:1] != bytes([self.typ]):
            return None
        if self.limit:
            if self.n >= self.limit:
                return None
            self.n += 1
        return (1, [d[i]], None)


class Null:
    def match_data(self, d, i):
        return (1, [], None)


TYPENAME = {1: "UNICODE", 3: "BYTE", 2: "CNS11643", 0x1b: "ANSI"}
JUNK = [b"\x01\x41", b"\x01\x0a", b"\x01\xe9", b"\x01\x4e\x2d", b"\x01\x01\xf6\x00", b"\x03\xff", b"\x03\x41", b"\x02\x21\x21", b"\x1b\x5b\x6d"]


def made_up(r, t, top, n):
    """tables nobody ships: nested and repeated keys of several data, next to the shipped ones"""
    from checks.c10 import source
    T = {}
    for k in os.listdir(t.share):
        os.makedirs(os.path.join(top, "share", "bsdconv", k))
        for f in os.listdir(os.path.join(t.share, k)):
            os.symlink(os.path.join(t.share, k, f), os.path.join(top, "share", "bsdconv", k, f))
    for i in range(n):
        kind = r.choice(["from", "inter", "to", "to"])
        src = source(r, kind, False)[0]
        name, w = "Q%d" % i, os.path.join(top, "q.txt")
        with open(w, "w", newline="") as f:
            f.write(src)
        p = subprocess.run([os.path.join(t.bin, "bsdconv-mktable"), w, os.path.join(top, "share", "bsdconv", kind, name)], env=t.env(), capture_output=True, timeout=120)
        if p.returncode == 0:
            T[(kind, name)] = src, tables.Table(src.replace("\r\n", "\n").split("\n"))
    return T


def run(ck):
    top = tempfile.mkdtemp(prefix="c11-")
    os.chmod(top, 0o755)
    try:
        _run(ck, top)
    finally:
        shutil.rmtree(top, ignore_errors=True)


def _run(ck, top):
    r = ck.r
    t = ck.tree("asan")
    ck.rule = ("phases that list 1 to 4 (and up to 300) of the table-only codecs, of tables made up on the spot with nested keys of several data, _UTF-8, ANY, ESCAPE, PASS and NULL at random, in random order, as from, inter (up to two phases) and to phases of one conversion; a model that tries the "
               "codecs in order at each position predicts the output and every counter. Inputs mix entries of each listed codec, sequences several of them know, cut-off and altered entries, and junk; up to 280000 errors and units. "
               "Distinct: (conversion, input)")
    ck.assumptions = ["characters given to _UTF-8 are scalar values without leading zeros (what it does with others is not specified)"]
    tabs = tables.table_only(t)
    T, pools = {}, {}
    srcs = made_up(r, t, top, ck.n(80, 400))
    own = {k: tab for k, (_, tab) in srcs.items()}
    used = lambda conv: {"/".join(k): s for k, (s, _) in srcs.items() if re.search(r"\b%s\b" % k[1], conv)}
    for key, tab in [(k, tables.Table.load(p)) for k, p in tabs.items()] + sorted(own.items()):
        T[key] = tab
        ents = [e[0] for e in tab.entries if not e[2] and -1 not in e[0]]
        if key[0] == "from":
            pools[key] = [bytes(k) for k in ents if tables.SEP not in k]
        else:
            from checks.c09 import units_to_data
            pools[key] = [d for d in map(units_to_data, ents) if all(len(x) > 0 for x in d)]
    names = {k: sorted(n for kk, n in T if kk == k and pools[(k, n)]) for k in ("from", "inter", "to")}
    # codecs with multi-unit entries or partial coverage get more weight
    fav = {"from": ["ASCII", "_CP1252", "_BIG5-ETEN", "_CP950", "_HKSCS2004", "_GBK", "ASCII-NAMED-HTML-ENTITY", "BYTE", "FALLBACK-UNICODE", "_JIS0208", "_JIS0212", "_CP932", "BSDCONV-KEYWORD"],
           "inter": ["UNIX", "WIN", "ZHTW", "ZHTW-WORDS", "ZHCN", "FULL", "HALF", "UPPER", "LOWER", "KANA-PHONETIC", "NL2BR", "_NFD", "HANJA"],
           "to": ["ASCII", "_CP950", "_GBK", "ASCII-NAMED-HTML-ENTITY", "CP950-TRANS", "CP936-TRANS", "BYTE", "_ISO-8859-1", "BSDCONV-KEYWORD"]}

    mine = {k: [n for kk, n in own if kk == k and pools[(k, n)]] for k in names}

    def pick(kind, cnt):
        """[(spec, matcher, pool)]"""
        out = []
        for _ in range(r.choice([1, 2, 2, 2, 3, 3, 4])):
            k = r.random()
            if k < 0.62 or kind == "inter" and k < 0.8:
                n = r.choice(mine[kind]) if r.random() < 0.25 and mine[kind] else r.choice(fav[kind]) if r.random() < 0.5 else r.choice(names[kind])
                if (kind, n) not in T or not pools[(kind, n)]:
                    continue
                out.append((n.lower() if r.random() < 0.1 else n, T[(kind, n)], pools[(kind, n)]))
            elif kind == "inter":
                if r.random() < 0.1:
                    out.append(("NULL", Null(), []))
                else:
                    ty, lim = r.choice([None, 1, 3, 2, 0x1b]), r.choice([0, 0, 1, 2, 4])
                    a = (["FOR=" + TYPENAME[ty]] if ty is not None else []) + (["LIMIT=%d" % lim] if lim else [])
                    r.shuffle(a)
                    out.append(("PASS" + ("#" + "&".join(a) if a else ""), Pass(ty, lim), []))
            elif k < 0.75:
                if kind == "from":
                    out.append(("_UTF-8", Utf8(), [c.encode() for c in "éÿĀ߿ࠀ中試\uffff\U00010000😀\U0010ffff"]))
                else:
                    out.append(("_UTF-8", Utf8(), [[uni.internal(ord(c))] for c in "\x80éÿĀ߿ࠀ中試\uffff\U00010000😀\U0010ffff"]))
            elif k < 0.88 and kind == "to":
                ty = r.choice([1, 3])
                mode = r.choice([10, 16] if ty == 1 else [8, 10, 16])
                pre, suf = r.choice([b"%", b"\\x", b"&#", b"<", b""]), r.choice([b"", b";", b">"])
                out.append(("ESCAPE#FOR=%s&MODE=%d&PREFIX=%s&SUFFIX=%s" % (TYPENAME[ty], mode, pre.hex(), suf.hex()), Esc(ty, mode, pre, suf), []))
            elif r.random() < 0.6:
                err = "IERR" if kind == "from" else "OERR"
                data, a = ([b"\x01\x3f"] if kind == "from" else [b"\x3f"]), []
                if r.random() < 0.6:
                    data = [r.choice([b"\x01\x21", b"\x01\xff\xfd", b"\x03\x99", b"\x01\x4e\x2d"] if kind == "from" else [b"!", b"??", b"\xe4\xb8\xad"]) for _ in range(r.choice([1, 1, 2]))]
                    a.append(".".join(x.hex() for x in data))
                key = None
                if r.random() < 0.6:
                    key = r.choice([err, "FOO", "BAR", "OERR", "IERR"])
                    a.append("ERROR=" + key if key != err or r.random() < 0.3 else "ERROR")
                if r.random() < 0.15:
                    data = []
                    a.append("DROP")
                out.append(("ANY" + ("#" + "&".join(a) if a else ""), Any(kind, data, key, cnt), []))
        return out or pick(kind, cnt)

    cases, meta = [], []
    stat = dict(multi_codec_phases=0, second_or_later_used=0, ierr=0, oerr=0, other=0)

    class Spy:
        """records whether a codec other than the first handled something"""

        def __init__(self, m, i):
            self.m, self.i = m, i

        def match_bytes(self, b, i):
            x = self.m.match_bytes(b, i)
            if x and self.i:
                stat["second_or_later_used"] += 1
            return x

        def match_data(self, d, i):
            x = self.m.match_data(d, i)
            if x and self.i:
                stat["second_or_later_used"] += 1
            return x

    def mats(ph):
        stat["multi_codec_phases"] += len(ph) > 1
        return [Spy(m, i) for i, (_, m, _) in enumerate(ph)]

    def mix_data(ph):
        p = []
        pool = [q for _, _, q in ph if q]
        for _ in range(r.choice([1, 2, 3, 5, 9])):
            k = r.random()
            if not pool or k > 0.85:
                p.append(r.choice(JUNK))
                continue
            e = r.choice(r.choice(pool))
            if k < 0.5:
                p += e
            elif k < 0.65 and len(e) > 1:
                p += e[:r.randrange(1, len(e))]
            else:
                j = r.randrange(len(e))
                x = bytearray(e[j])
                if len(x) > 1:
                    x[r.randrange(1, len(x))] = r.randrange(256)
                p += e[:j] + [bytes(x)] + e[j + 1:]
        return p

    def mix_bytes(ph):
        p = []
        pool = [q for _, _, q in ph if q]
        for _ in range(r.choice([1, 2, 3, 6, 12])):
            k = r.random()
            if not pool or k > 0.8:
                p.append(r.choice([b"A", b"\n", b"\x80", b"\xff", b"&", b"&am", bytes([r.randrange(256)]), b"\xe4\xb8"]))
                continue
            e = r.choice(r.choice(pool))
            if k < 0.5:
                p.append(e)
            elif k < 0.65:
                p.append(e[:r.randrange(len(e) + 1)])
            else:
                j = r.randrange(len(e))
                p.append(e[:j] + bytes([r.randrange(256)]) + e[j + 1:])
        return b"".join(p)

    def many(kind, cnt, n):
        out = []
        while len(out) < n:
            out += pick(kind, cnt)
        return out

    # long lists of codecs
    lists = [k for k in (16, 31, 32, 33, 40, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 300) for _ in range(ck.n(6, 60))]
    for size in [None] * ck.n(30000, 400000) + lists:
        cnt = {}
        k = r.random()
        ph = []
        if k < 0.4:
            f = many("from", cnt, size) if size else pick("from", cnt)
            b = mix_bytes(f)
            fm = mats(f)
            d, ierr = tables.decode(fm, b)
            ph.append(",".join(x[0] for x in f))
        else:
            f = None
            inters = None
        ni = r.choice([0, 1, 1, 2]) if k < 0.7 else 0
        ips = [many("inter", cnt, size) if size and r.random() < 0.5 else pick("inter", cnt) for _ in range(ni)]
        to = many("to", cnt, size) if size and k >= 0.4 else pick("to", cnt) if r.random() < 0.6 or k >= 0.7 else None
        if f is None:
            if not ips and not to:
                to = pick("to", cnt)
            first = ips[0] if ips else to
            d = mix_data(first)
            b = b",".join(x.hex().upper().encode() for x in d)
            ierr = max(0, len(d) - 1)
            ph.append("BSDCONV")
        for p in ips:
            d = tables.inter(mats(p), [x for x in d if x])
            ph.append(",".join(x[0] for x in p))
        if to:
            try:
                want, oerr = tables.encode(mats(to), [x for x in d if x])
            except Unspecified:
                continue
            want = b"".join(want)
            ph.append(",".join(x[0] for x in to))
        else:
            want, oerr = b"".join(x.hex().upper().encode() + b"2C" for x in d if x), 0
            ph += ["INSERT#AFTER=2C", "BSDCONV"]
        cnt["IERR"] = cnt.get("IERR", 0) + ierr
        cnt["OERR"] = cnt.get("OERR", 0) + oerr
        cnt = {a: v for a, v in cnt.items() if v}
        stat["ierr"] += cnt.get("IERR", 0)
        stat["oerr"] += cnt.get("OERR", 0)
        stat["other"] += sum(v for a, v in cnt.items() if a not in ("IERR", "OERR"))
        conv = ":".join(ph)
        if r.random() < 0.25:
            L = ["N 0 " + hx(conv), "I 0"]
            cs = gen.split(r, b)
            for i, c in enumerate(cs):
                L.append("F 0 A %d 1 %s 0" % (i == len(cs) - 1, hx(c)))
            L += ["R 0", "D 0"]
        else:
            L = ["X %s %s" % (hx(conv), hx(b))]
        cases.append(L)
        meta.append((conv, b, want, cnt))
    # the documented forms of the catch-alls, one error per unit
    for conv, b, want, cnt in [("ASCII,3F:UTF-8", b"a\xffb\xfe\xfd", b"a?b??", dict(IERR=3)), ("UTF-8:ASCII,3F", "aéb中".encode(), b"a?b?", dict(OERR=2)),
                               ("ASCII,SUB:UTF-8", b"a\xffb", "a\ufffdb".encode(), {}), ("UTF-8:ASCII", "éa中".encode(), b"a", dict(OERR=2))]:
        cases.append(["X %s %s" % (hx(conv), hx(b))])
        meta.append((conv, b, want, cnt))
    # numbers of errors and of handled units around the limits of small integers
    for n in scale.pick(r, ck.n(16, 99)) + [140000]:
        z = bytes(r.choice(b"ab\xff\xfe\xfd") for _ in range(20)) * (n // 10)
        e, g = sum(c > 127 for c in z), bytes(c for c in z if c < 128)
        t1 = ("aé中" * n).encode()
        for conv, b, want, cnt in [("ASCII:UTF-8", b"\xff" * n, b"", dict(IERR=n)), ("ASCII:UTF-8", z, g, dict(IERR=e)), ("ASCII,ANY#013F&ERROR=FOO:UTF-8", z, bytes(c if c < 128 else 63 for c in z), dict(FOO=e)),
                                   ("UTF-8:ASCII", t1, b"a" * n, dict(OERR=2 * n)), ("UTF-8:ASCII,ANY#3F3F&ERROR", t1, b"a????" * n, dict(OERR=2 * n)), ("UTF-8:ASCII,ANY#ERROR=BAR&2E", t1, b"a.." * n, dict(BAR=2 * n)),
                                   ("UTF-8:PASS#FOR=UNICODE&LIMIT=%d,NULL:UTF-8" % n, b"x" * (n + 3), b"x" * n, {}), ("UTF-8:PASS#LIMIT=%d,NULL:UTF-8" % n, b"x" * (n - 1), b"x" * (n - 1), {}),
                                   ("ASCII,BYTE:ASCII,BYTE", z, z, {}), ("UTF-8:UPPER,FULL:UTF-8", t1, "AÉ中".encode() * n, {})]:
            if "UPPER" in conv or r.random() < 0.5:
                cases.append(["X %s %s" % (hx(conv), hx(b))])
            else:
                cases.append(["N 0 " + hx(conv), "I 0"] + ["F 0 A %d 1 %s 0" % (i + 4000 >= len(b), hx(b[i:i + 4000])) for i in range(0, len(b), 4000)] + ["R 0", "D 0"])
            meta.append((conv, b, want, cnt))
    for L, x, (conv, b, want, cnt) in zip(cases, ck.run("asan", cases, env=t.env(BSDCONV_PATH=top)), meta):
        ck.saw((conv, b), bool(want) or bool(cnt))
        if isinstance(x, Crash):
            ck.crash(x, "%s of %s" % (conv, b.hex()), commands=L, tables=used(conv))
            continue
        if len(x) == 1:
            if x[0].startswith("null"):
                ck.violation("create", "%s cannot be created (%s)" % (conv, x[0]), commands=L)
                continue
            o, c = x[0].split(" ")
            got, c = un(o), counters(c)
        else:
            if x[0].startswith("null"):
                ck.violation("create", "%s cannot be created (%s)" % (conv, x[0]), commands=L)
                continue
            got, c = b"".join(un(y) for y in x[2:-2]), counters(x[-2])
        c = {a: v for a, v in c.items() if v}
        if got != want:
            ck.violation("output", "%s of %s gives %s instead of %s" % (conv, b[:200], got[:200], want[:200]), commands=L, tables=used(conv), expected=want.hex())
        elif c != cnt:
            ck.violation("counters", "%s of %s counts %s instead of %s" % (conv, b[:200], c, cnt), commands=L, tables=used(conv))
    ck.sample(dict(conv=meta[0][0], input=repr(meta[0][1]), expected=repr(meta[0][2]), counters=meta[0][3]))
    ck.sample(dict(conv=meta[1][0], input=repr(meta[1][1]), expected=repr(meta[1][2]), counters=meta[1][3]))
    ck.cov.update(stat, made_up_tables=len(own))
