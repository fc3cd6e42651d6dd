"""C15: escapes, entities and hexadecimal notations."""
import html.entities, os, re, shutil, sys, tempfile
from vlib import cns, gen, scale, uni
from vlib.driver import Crash, hx, un, counters

sys.set_int_max_str_digits(0)
ESC = re.compile(rb"(?:%|\\)u([0-9A-Fa-f]{4})|(?:%|\\x)([0-9A-Fa-f]{2})|\\([0-3][0-7]{2})")
NUM = re.compile(rb"&#x([0-9A-Fa-f]+);|&#([0-9]+);")
HEXRUN = re.compile(rb"[0-9A-Fa-f]{2,}")
NAMED = {b"&%s;" % k.encode(): v for k, v in html.entities.name2codepoint.items()}
NAMED[b"&apos;"] = 0x27
HEXD = b"0123456789abcdefABCDEF"


def be(c):
    return b"\x01" + uni.be(c)


def m_escape(b):
    """what ESCAPE,00,ASCII,BYTE gives: a list of data"""
    out = []
    i = 0
    while i < len(b):
        m = ESC.match(b, i)
        if not m:
            out.append(be(b[i]) if b[i] < 0x80 else b"\x03" + b[i:i + 1])
            i += 1
            continue
        i = m.end()
        if m[1]:
            v = int(m[1], 16)
            if 0xd800 <= v < 0xdc00:
                n = ESC.match(b, i)
                if n and n[1] and 0xdc00 <= int(n[1], 16) < 0xe000:
                    v = 0x10000 + ((v & 0x3ff) << 10) + (int(n[1], 16) & 0x3ff)
                    i = n.end()
            out.append(be(v))
        elif m[2]:
            out.append(b"\x03" + bytes([int(m[2], 16)]))
        else:
            out.append(b"\x03" + bytes([int(m[3], 8)]))
    return out


def m_entity(b, named):
    """what [NAMED-HTMLENTITY,]HTMLENTITY,00,ASCII,BYTE gives"""
    out = []
    i = 0
    while i < len(b):
        if named and b[i] == 38:
            j = b.find(b";", i, i + 12)
            k = b[i:j + 1] if j > 0 else b""
            v = NAMED.get(k)
            if v is None and k:
                c = {x for x in NAMED if x.lower() == k.lower()}
                if len({NAMED[x] for x in c}) == 1:
                    v = NAMED[c.pop()]
                elif c:
                    return None      # several entities differ in case only: which one is meant is not specified
            if v is not None:
                out.append(be(v))
                i = j + 1
                continue
        m = NUM.match(b, i)
        v = (int(m[1], 16) if m[1] else int(m[2])) if m else None
        if m and v < 1 << 32:
            out.append(be(v))
            i = m.end()
            continue
        out.append(be(b[i]) if b[i] < 0x80 else b"\x03" + b[i:i + 1])
        i += 1
    return out


def m_hexrun(b):
    """what BSDCONV,00,ASCII,BYTE gives: each run of two or more digits is a datum (a digit left over is a byte of its own)"""
    out = []
    i = 0
    while i < len(b):
        m = HEXRUN.match(b, i)
        if m:
            k = m[0]
            out.append(bytes(int(k[j:j + 2], 16) for j in range(0, len(k), 2)))
            i = m.end()
            continue
        out.append(be(b[i]) if b[i] < 0x80 else b"\x03" + b[i:i + 1])
        i += 1
    return out


def enc1(c, mode, pre, suf):
    d = uni.be(c)
    if mode == 10:
        return pre + b"%d" % c + suf
    if not suf:
        if c > 0xffff:
            c -= 0x10000
            return pre + b"%04X" % (0xd800 | c >> 10) + pre + b"%04X" % (0xdc00 | c & 0x3ff)
        return pre + b"%04X" % c
    return pre + d.hex().upper().encode() + suf


def run(ck):
    r = ck.r
    A = uni.assigned13()
    ck.rule = ("(a) encoders: every assigned character through every radix and a set of prefixes and suffixes, every byte through the byte forms, named entities for every HTML 4 entity, image links, hexadecimal forms: "
               "the exact notation, recomputed here; (b) decoders: every escape of every form and near misses, against a grammar written as regular expressions; (c) round trips of random text through every encoder and decoder pair, "
               "whole and in pieces. Distinct: (conversion, input)")
    ck.assumptions = ["an entity spelled in a case that several entities differ in is not specified", "the four-digit notations write supplementary characters as surrogate pairs"]
    cases, meta = [], []
    ccases, cmeta = [], []
    cov = {"cns_table_links": 0, "encoded_characters": 0, "decoded_strings": 0, "escapes_recognised": 0, "near_misses": 0, "round_trips": 0}

    def ask(conv, items, whole=True):
        """items: (bytes in, expected bytes, expected (ierr, oerr) or None, label)"""
        for i in range(0, len(items), 1500):
            part = items[i:i + 1500]
            L = ["N 0 " + hx(conv)]
            lay = []
            for b, w, k, lab in part:
                if not whole and len(b) > 1 and r.random() < 0.5:
                    cs = gen.split(r, b)
                    L.append("I 0")
                    a = len(L)
                    for j, c in enumerate(cs):
                        L.append("F 0 A %d 1 %s 0" % (j == len(cs) - 1, hx(c)))
                    lay.append((a, len(L), True, L))
                else:
                    L.append("O 0 " + hx(b))
                    lay.append((len(L) - 1, len(L), False, L))
            cases.append(L)
            meta.append((conv, part, lay))

    # ---- (a) encoders
    hexs = lambda b: b.hex().upper()
    sufs = [b"", b";", b"}", b"00", b"x;"]
    pres = [b"%u", b"\\u", b"&#x", b"&#", b"U+", b"", b"\\u{", b"\x00\xff", b"a" * 40]
    for mode in (16, 10):
        names = {16: ["", "MODE=16&", "MODE=HEX&", "MODE=hex&"], 10: ["MODE=10&", "MODE=dec&"]}[mode]
        combos = [(p, s) for p in pres for s in sufs]
        for p, s in combos:
            full = (mode, p, s) in ((16, b"%u", b""), (16, b"&#x", b";"), (10, b"&#", b";")) or ck.tier == "thorough"
            conv = "UTF-32BE:ESCAPE#%s%sPREFIX=%s" % (r.choice(names), r.choice(["", "FOR=UNICODE&", "FOR=1&", "for=01&"]), hexs(p))
            if s or r.random() < 0.5:
                conv += "&SUFFIX=" + hexs(s)
            cs = A if full else [0, 1, 0x41, 0x7f, 0x80, 0xff, 0x100, 0xfff, 0x1000, 0xffff, 0x10000, 0x100000, 0x10ffff] + r.sample(A, 1500)
            ask(conv, [(b"".join(c.to_bytes(4, "big") for c in cs[i:i + 64]), b"".join(enc1(c, mode, p, s) for c in cs[i:i + 64]), (0, 0), "chars") for i in range(0, len(cs), 64)])
            cov["encoded_characters"] += len(cs)
    for alias, mode, p, s in (("JAVA", 16, b"\\u", b""), ("SOURCE", 16, b"\\u", b""), ("ASCII-ESCAPED-UNICODE", 16, b"\\u", b""), ("URL", 16, b"%u", b""), ("HTMLENTITY", 16, b"&#x", b";"),
                              ("ASCII-HEX-NUMERIC-HTML-ENTITY", 16, b"&#x", b";"), ("ASCII-DEC-NUMERIC-HTML-ENTITY", 10, b"&#", b";"), ("ESCAPE", 16, b"%u", b"")):
        ask("UTF-32BE:" + alias, [(b"".join(c.to_bytes(4, "big") for c in A[i:i + 64]), b"".join(enc1(c, mode, p, s) for c in A[i:i + 64]), (0, 0), "chars") for i in range(0, len(A), 64)])
        ask("UTF-32BE:ASCII," + alias, [(b"".join(c.to_bytes(4, "big") for c in cs), b"".join(bytes([c]) if 0 < c < 0x80 else enc1(c, mode, p, s) for c in cs), (0, 0), "chars")
                                        for cs in ([c for c in (r.choice(A) if r.random() < 0.5 else r.randrange(1, 0x2dc) for _ in range(20)) if c != 0x2dc] for _ in range(ck.n(300, 5000)))])
        cov["encoded_characters"] += len(A)
    allb = bytes(range(256))
    for mode, names in ((16, ("HEX", "16", "hex")), (10, ("DEC", "10")), (8, ("OCT", "8", "oct"))):
        for p, s in [(a, b) for a in pres for b in sufs]:
            f = {16: b"%02X", 10: b"%d", 8: b"%03o"}[mode]
            conv = "BYTE:ESCAPE#FOR=%s&MODE=%s&PREFIX=%s&SUFFIX=%s" % (r.choice(["BYTE", "3", "03", "byte"]), r.choice(names), hexs(p), hexs(s))
            ask(conv, [(allb, b"".join(p + f % x + s for x in allb), (0, 0), "bytes")] + [(bytes([x]), p + f % x + s, (0, 0), "byte") for x in allb])
    # prefixes and suffixes around the limits of small integers
    for n in scale.pick(r, ck.n(30, 99), 33000):
        p, s = ((bytes(r.randrange(256) for _ in range(n)), r.choice([b"", b";", b"z" * n])) if r.random() < 0.6 else (b"%u", bytes(r.randrange(1, 256) for _ in range(n))))
        cs = r.sample(A, 30 if n < 5000 else 3) + [0x10ffff]
        ask("UTF-32BE:ESCAPE#MODE=%d&PREFIX=%s&SUFFIX=%s" % (10, hexs(p), hexs(s)) if r.random() < 0.5 else "UTF-32BE:ESCAPE#PREFIX=%s&MODE=10&FOR=1&SUFFIX=%s" % (hexs(p), hexs(s)),
            [(uni.u32(cs), b"".join(enc1(c, 10, p, s) for c in cs), (0, 0), "long affix")])
        if s:
            ask("UTF-32BE:ESCAPE#SUFFIX=%s&PREFIX=%s" % (hexs(s), hexs(p)), [(uni.u32(cs), b"".join(enc1(c, 16, p, s) for c in cs), (0, 0), "long affix")])
        ask("BYTE:ESCAPE#FOR=BYTE&PREFIX=%s&SUFFIX=%s" % (hexs(p), hexs(s)), [(b"\x00A\xff", b"".join(p + b"%02X" % x + s for x in b"\x00A\xff"), (0, 0), "long affix")])
    ask("BYTE:URL", [(allb, b"".join(b"%%%02X" % x for x in allb), (0, 0), "bytes")])
    # data of the other kind, and octal Unicode, are refused
    ask("BYTE:ESCAPE#FOR=UNICODE&PREFIX=25", [(allb, b"", (0, 256), "other kind")])
    ask("UTF-32BE:ESCAPE#FOR=BYTE&PREFIX=25", [(b"".join(c.to_bytes(4, "big") for c in A[:500]), b"", (0, 500), "other kind")])
    ask("UTF-32BE:ESCAPE#MODE=8&PREFIX=5C", [(b"".join(c.to_bytes(4, "big") for c in A[:500]), b"", (0, 500), "octal unicode")])
    rev = {}
    for k, v in NAMED.items():
        rev[v] = k
    ask("UTF-32BE:NAMED-HTMLENTITY", [(c.to_bytes(4, "big"), rev[c], (0, 0), "named") for c in rev] + [(c.to_bytes(4, "big"), b"", (0, 1), "not named") for c in r.sample(A, ck.n(3000, 60000)) if c not in rev])
    img = lambda c: b'<img class="unicode_img" src="http://www.unicode.org/cgi-bin/refglyph?24-%X" />' % c
    ask("UTF-32BE:HTML-IMG", [(b"".join(c.to_bytes(4, "big") for c in cs), b"".join(img(c) for c in cs), (0, 0), "img") for cs in ([r.choice(A) for _ in range(8)] for _ in range(ck.n(800, 20000)))])
    info = lambda c: (b'<a href="http://www.fileformat.info/info/unicode/char/%s/index.htm">' % uni.be(c).hex().upper().encode()) + img(c) + b"</a>"
    ask("UTF-32BE:ASCII-HTML-INFO", [(c.to_bytes(4, "big"), info(c), (0, 0), "info") for c in r.sample(A, ck.n(800, 20000))])
    # CNS 11643 data, given or (below) found for a character in a table
    cinfo = lambda d: b'<a href="http://www.cns11643.gov.tw/AIDB/query_general_view.do?page=%X&code=%b"><img src="http://www.cns11643.gov.tw/AIDB/png.do?page=%X&code=%b" /></a>' % (d[0], d[1:].hex().upper().encode(), d[0], d[1:].hex().upper().encode())
    cns_data = [bytes([r.choice([1, 2, 9, 0x0f, 0x10, 0x7f, 0xff])] + [r.randrange(256) for _ in range(r.choice([0, 1, 2, 2, 2, 2, 3, 5]))]) for _ in range(ck.n(400, 8000))]
    ask("BSDCONV:ASCII-HTML-INFO", [(b"02" + d.hex().upper().encode(), cinfo(d), (0, 0), "cns info") for d in cns_data])
    ask("BSDCONV:ASCII-HTML-INFO", [(b"".join(b"02" + d.hex().upper().encode() + b"," for d in ds), b"".join(cinfo(d) for d in ds), None, "cns info") for ds in (r.sample(cns_data, 5) for _ in range(ck.n(60, 600)))])
    ask("BSDCONV:ASCII-HTML-INFO", [(b"03" + bytes(r.choice(HEXD) for _ in range(2)), b"", (0, 1), "no info") for _ in range(40)])
    # RAW: the datum without its type
    ask("UTF-32BE:RAW", [(b"".join(c.to_bytes(4, "big") for c in cs), b"".join(uni.be(c) for c in cs), (0, 0), "raw") for cs in (A[i:i + 64] for i in range(0, len(A), 64))])
    ask("BYTE:RAW", [(allb, allb, (0, 0), "raw")])
    ask("BSDCONV:RAW", [(b",".join(b"%02X" % r.choice([1, 2, 3, 0x1b]) + d.hex().upper().encode() for d in ds), b"".join(ds), None, "raw") for ds in (r.sample(cns_data, 6) for _ in range(ck.n(100, 2000)))])
    hexdump = lambda cs: b"".join(be(c).hex().upper().encode() for c in cs)
    ask("UTF-32BE:BSDCONV", [(b"".join(c.to_bytes(4, "big") for c in cs), hexdump(cs), (0, 0), "hex") for cs in (A[i:i + 64] for i in range(0, len(A), 64))])
    ask("BYTE:BSDCONV", [(allb, b"".join(b"03%02X" % x for x in allb), (0, 0), "hex")])
    ask("UTF-32BE:SPLIT:BSDCONV-KEYWORD,BSDCONV", [(b"".join(c.to_bytes(4, "big") for c in cs), b"".join(be(c).hex().upper().encode() + b"," for c in cs), (0, 0), "list") for cs in (A[i:i + 64] for i in range(64, len(A), 64))])
    ask("BYTE:HEX", [(allb, allb.hex().upper().encode(), (0, 0), "hex")])
    ask("HEX:BYTE", [(allb.hex().encode(), allb, (0, 0), "hex"), (allb.hex().upper().encode(), allb, (0, 0), "hex")] + [(b, bytes.fromhex(b.decode()), (0, 0), "hex") for b in
        (bytes(r.choice(HEXD) for _ in range(2 * r.randrange(1, 30))) for _ in range(ck.n(500, 10000)))])
    # ---- (b) decoders
    SEP = ":INSERT#AFTER=2C:BSDCONV"

    def shown(data):
        return b"".join(d.hex().upper().encode() + b"2C" for d in data)
    items = []
    for v in range(0, 0x10000, 1 if ck.tier == "thorough" else 7):
        p = r.choice([b"%u", b"\\u"])
        b = p + (b"%04X" % v if r.random() < 0.5 else b"%04x" % v)
        items.append((b, shown(m_escape(b)), None, "u"))
    for v in range(256):
        for f in (b"%%%02X", b"%%%02x", b"\\x%02X", b"\\x%02x", b"\\%03o"):
            items.append((f % v, shown(m_escape(f % v)), None, "byte escape"))
    for v in range(512):
        items.append((b"\\%03o" % v, shown(m_escape(b"\\%03o" % v)), None, "octal"))

    def piece():
        k = r.random()
        if k < 0.25:
            return r.choice([b"%u", b"\\u"]) + bytes(r.choice(HEXD) for _ in range(4))
        if k < 0.35:
            return r.choice([b"%", b"\\x"]) + bytes(r.choice(HEXD) for _ in range(2))
        if k < 0.45:
            return b"\\" + bytes(r.choice(b"01234567") for _ in range(3))
        if k < 0.6:
            v = r.randrange(0x10000, 0x110000) - 0x10000
            return b"%s%04X%s%04x" % (r.choice([b"%u", b"\\u"]), 0xd800 | v >> 10, r.choice([b"%u", b"\\u"]), 0xdc00 | v & 0x3ff)
        if k < 0.68:
            return r.choice([b"%u", b"\\u"]) + b"%04x" % r.choice([0xd800, 0xdbff, 0xdc00, 0xdfff, 0xd83d, 0xe000])
        if k < 0.85:
            b = r.choice([b"%u", b"\\u", b"\\x", b"%", b"\\"]) + bytes(r.choice(HEXD + b"gG8;u%\\ ") for _ in range(r.randrange(0, 5)))
            return b
        return r.choice([b"%", b"\\", b"abc", b"u", b"x", b"12", b"\xe6", b"\x80\xff", b" "])
    # every byte in the place of every digit
    for f in (b"%u0041", b"\\u4e2D", b"%u00e9", b"\\ud83d\\ude00", b"%41", b"\\x7e", b"\\101", b"\\377"):
        for i in range(1, len(f)):
            for v in range(256):
                b = f[:i] + bytes([v]) + f[i + 1:] + r.choice([b"", b"z"])
                items.append((b, shown(m_escape(b)), None, "each byte"))
    for _ in range(ck.n(12000, 300000)):
        b = b"".join(piece() for _ in range(r.choice([1, 2, 3, 5, 8])))
        w = m_escape(b)
        cov["escapes_recognised"] += sum(1 for _ in ESC.finditer(b))
        cov["near_misses"] += len(re.findall(rb"[%\\]", ESC.sub(b"", b)))
        items.append((b, shown(w), None, "mixture"))
    for n in scale.pick(r, ck.n(8, 99)):
        b = b"".join(piece() for _ in range(n // 4))
        items.append((b, shown(m_escape(b)), None, "long"))
    cov["decoded_strings"] += len(items)
    ask("ESCAPE,00,ASCII,BYTE" + SEP, items, False)
    for nm, named in (("HTMLENTITY", False), ("NAMED-HTMLENTITY,HTMLENTITY", True), ("ASCII-NUMERIC-HTML-ENTITY", False), ("NCR", False)):
        items = []

        def piece():
            k = r.random()
            if k < 0.3:
                v = r.choice(A) if r.random() < 0.8 else r.choice([0, 1, 0xffffffff, 0xfffffffe, 0x100000000, 1 << 33, 0x7fffffff, 0x80000000, 429496730, 4294967300, 42949672950, 10**12, 0x110000])
                z = b"0" * r.choice([0, 0, 0, 1, 3, 12])
                return (b"&#" + z + b"%d;" % v) if r.random() < 0.5 else (b"&#x" + z + (b"%x;" if r.random() < 0.5 else b"%X;") % v)
            if k < 0.55 and named:
                n = r.choice(list(NAMED))
                if r.random() < 0.2:
                    n = bytes(c ^ 32 if chr(c).isalpha() and r.random() < 0.5 else c for c in n)
                if r.random() < 0.15:
                    n = n[:-1]
                return n
            if k < 0.85:
                return r.choice([b"&", b"&#", b"&#x", b"&#X", b"#", b"&&", b"&#&#x"]) + bytes(r.choice(HEXD + b"gx;;;&# ") for _ in range(r.randrange(0, 5)))
            return r.choice([b"&", b";", b"#", b"abc", b"\xe6", b"&amp", b" "])
        for f in (b"&#x4e2D;", b"&#65;", b"&#20013;", b"&#xE9;") + ((b"&eacute;", b"&lt;", b"&sup2;") if named else ()):
            for i in range(len(f)):
                for v in range(256):
                    b = f[:i] + bytes([v]) + f[i + 1:] + r.choice([b"", b"z"])
                    w = m_entity(b, named)
                    if w is not None:
                        items.append((b, shown(w), None, "each byte"))
        for _ in range(ck.n(8000, 200000)):
            b = b"".join(piece() for _ in range(r.choice([1, 2, 3, 5, 8])))
            w = m_entity(b, named)
            if w is None:
                continue
            cov["escapes_recognised"] += len(NUM.findall(b))
            items.append((b, shown(w), None, "mixture"))
        for n in scale.pick(r, ck.n(4, 99), 40000):
            b = b"".join(piece() for _ in range(n // 4)) if r.random() < 0.5 else (b"&#x" if r.random() < 0.5 else b"&#") + b"0" * n + b"65;b"
            w = m_entity(b, named)
            if w is not None:
                items.append((b, shown(w), None, "long"))
        if named:
            for k, v in NAMED.items():
                items.append((k, shown([be(v)]), None, "named"))
        cov["decoded_strings"] += len(items)
        ask(nm + ",00,ASCII,BYTE" + SEP, items, False)
    items = []
    for f in (b"014E2D", b"41", b"0141,0342", b"1b5B6d"):
        for i in range(len(f)):
            for v in range(256):
                b = f[:i] + bytes([v]) + f[i + 1:] + r.choice([b"", b"z", b","])
                items.append((b, shown(m_hexrun(b)), None, "each byte"))
    for _ in range(ck.n(6000, 150000)):
        b = b"".join(r.choice([bytes(r.choice(HEXD) for _ in range(r.choice([1, 2, 3, 4, 6, 8, 9, 16, 17, 18, 40]))), b",", b"g", b" ", bytes([r.randrange(256)])]) for _ in range(r.choice([1, 2, 3, 5, 9])))
        items.append((b, shown(m_hexrun(b)), None, "mixture"))
    for n in scale.pick(r, ck.n(10, 99)):
        b = bytes(r.choice(HEXD) for _ in range(n)) + b"," + bytes(r.choice(HEXD) for _ in range(4))
        items.append((b, shown(m_hexrun(b)), None, "long run"))
    cov["decoded_strings"] += len(items)
    ask("BSDCONV,00,ASCII,BYTE" + SEP, items, False)
    # ---- (c) round trips
    def text(ok=lambda c: True):
        s = []
        for _ in range(r.choice([1, 2, 5, 12, 40])):
            c = r.choice(A) if r.random() < 0.6 else r.randrange(1, 0x250)
            if 0xd800 <= c < 0xe000 or not ok(c):
                continue
            s.append(chr(c))
        return "".join(s)
    pairs = [("UTF-8:ESCAPE#PREFIX=5C75", "ESCAPE:UTF-8", None), ("UTF-8:ESCAPE#PREFIX=2575", "ESCAPE:UTF-8", None), ("UTF-8:ASCII,JAVA", "ESCAPE,ASCII:UTF-8", "\\%"), ("UTF-8:ASCII,URL", "ESCAPE,ASCII:UTF-8", "\\%"),
             ("UTF-8:HTMLENTITY", "HTMLENTITY:UTF-8", None), ("UTF-8:ASCII-DEC-NUMERIC-HTML-ENTITY", "NCR:UTF-8", None), ("UTF-8:ASCII,HTMLENTITY", "HTMLENTITY,ASCII:UTF-8", "&"),
             ("UTF-8:NAMED-HTMLENTITY,ASCII,HTMLENTITY", "NAMED-HTMLENTITY,HTMLENTITY,ASCII:UTF-8", None), ("UTF-8:NAMED-HTMLENTITY,ASCII,ASCII-DEC-NUMERIC-HTML-ENTITY", "NAMED-HTMLENTITY,HTMLENTITY,ASCII:UTF-8", None),
             ("UTF-8:SPLIT:BSDCONV-KEYWORD,BSDCONV", "BSDCONV:UTF-8", None)]
    rt = []
    for e, d, excl in pairs:
        for _ in range(ck.n(700, 20000)):
            # U+02DC is written as ~ by to/ASCII
            # and U+0000 is a codec of its own
            s = text(lambda c: c and not (excl and chr(c) in excl) and not (c == 0x2dc and "ASCII" in e))
            if not s:
                continue
            rt.append((e, d, s))
    bytepairs = [("BYTE:ESCAPE#FOR=BYTE&PREFIX=25", "ESCAPE:BYTE"), ("BYTE:ESCAPE#FOR=BYTE&PREFIX=5C78&MODE=HEX", "ESCAPE:BYTE"), ("BYTE:ESCAPE#FOR=BYTE&PREFIX=5C&MODE=OCT", "ESCAPE:BYTE"), ("BYTE:HEX", "HEX:BYTE")]
    for e, d in bytepairs:
        for _ in range(ck.n(400, 10000)):
            rt.append((e, d, bytes(r.randrange(256) for _ in range(r.choice([1, 2, 5, 20])))))
    by = {}
    for e, d, s in rt:
        by.setdefault((e, d), []).append(s)
    rcases, rmeta = [], []
    for (e, d), ss in by.items():
        rcases.append(["N 0 " + hx(e)] + ["O 0 " + hx(s if isinstance(s, bytes) else s.encode()) for s in ss])
        rmeta.append((e, d, ss))
    back, bmeta = [], []
    for L, x, (e, d, ss) in zip(rcases, ck.run("asan", rcases), rmeta):
        if isinstance(x, Crash):
            ck.crash(x, e, commands=L)
            continue
        if not x[0].startswith("ok"):
            ck.violation("create:" + e, "%s cannot be created: %s" % (e, x[0]))
            continue
        n = (0, 0)
        B = ["N 0 " + hx(d)]
        lay = []
        for s, y in zip(ss, x[1:]):
            o, k = y.split(" ")
            k = counters(k)
            if k.get("IERR") or k.get("OERR"):
                ck.violation("rt-enc-error:" + e, "%s counts errors %s for %r" % (e, k, s), conversion=e, text=repr(s))
            b = un(o) or b""
            cs = gen.split(r, b) if b and r.random() < 0.5 else [b]
            B.append("I 0")
            a = len(B)
            for j, c in enumerate(cs):
                B.append("F 0 A %d 1 %s 0" % (j == len(cs) - 1, hx(c)))
            lay.append((s, b, a, len(B)))
        back.append(B)
        bmeta.append((e, d, lay))
    for L, x, (e, d, lay) in zip(back, ck.run("asan", back), bmeta):
        if isinstance(x, Crash):
            ck.crash(x, d, commands=L)
            continue
        for s, b, a, z in lay:
            g = b"".join(un(y) or b"" for y in x[a:z])
            w = s if isinstance(s, bytes) else s.encode()
            cov["round_trips"] += 1
            ck.saw(("rt", e, s))
            if g != w:
                ck.violation("rt:%s>%s" % (e, d), "%s of %r is %r, %s gives back %r" % (e, w, b, d, g), encode=e, decode=d, input=w.hex())
    # characters that an added CNS11643 table knows, and others
    top = tempfile.mkdtemp(prefix="c15-")
    os.chmod(top, 0o755)
    try:
        t = ck.tree("asan")
        M, o = cns.install(r, t, top, ck.n(60, 600))
        if M is None:
            ck.violation("cns:table", "bsdconv-mktable fails on a CNS11643 table: %r" % o)
        else:
            for _ in range(ck.n(200, 4000)):
                cs = [r.choice(list(M)) if r.random() < 0.6 else r.choice(A) for _ in range(r.randrange(1, 12))]
                w = b"".join(cinfo(M[c]) if c in M else info(c) for c in cs)
                b = b"".join(c.to_bytes(4, "big") for c in cs)
                C = ["N 0 " + hx("UTF-32BE:ASCII-HTML-INFO"), "O 0 " + hx(b), "O 0 " + hx(b)]
                ccases.append(C)
                cmeta.append((b, w))
            for L, x, (b, w) in zip(ccases, ck.run("asan", ccases, env=t.env(BSDCONV_PATH=top)), cmeta):
                if isinstance(x, Crash):
                    ck.crash(x, "ASCII-HTML-INFO with a CNS11643 table", commands=L)
                    continue
                ck.saw(("cns table", b))
                cov["cns_table_links"] += w.count(b"cns11643.gov.tw") // 2
                for y in x[1:]:
                    if y.startswith("null") or un(y.split(" ")[0]) != w:
                        ck.violation("cns:table", "ASCII-HTML-INFO with a CNS11643 table gives %s for %s, not %r" % (y[:300], b.hex(), w[:200]), commands=L)
                        break
    finally:
        shutil.rmtree(top, ignore_errors=True)

    # ---- verdicts of (a) and (b)
    for L, x, (conv, part, lay) in zip(cases, ck.run("asan", cases), meta):
        if isinstance(x, Crash):
            ck.crash(x, conv, commands=L)
            continue
        if not x[0].startswith("ok"):
            ck.violation("create:" + conv, "%s cannot be created: %s" % (conv, x[0]), commands=L[:1])
            continue
        for (b, w, k, lab), (a, z, pieces, _) in zip(part, lay):
            ck.saw((conv, b), True)
            if pieces:
                g, c = b"".join(un(y) or b"" for y in x[a:z]), None
            else:
                o, c = x[a].split(" ")
                g, c = un(o) or b"", counters(c)
            if g != w:
                i = next((i for i in range(min(len(g), len(w))) if g[i] != w[i]), min(len(g), len(w)))
                ck.violation("%s:%s" % (conv if len(conv) < 60 else conv[:60], lab), "%s of %s%s gives ...%r, not ...%r" % (conv, b[:120].hex() if conv.startswith("UTF-32") else b[:200], " in pieces" if pieces else "", g[max(0, i - 20):i + 40], w[max(0, i - 20):i + 40]),
                             conversion=conv, input=b.hex(), commands=L[:1] + L[a:z])
            elif k is not None and c is not None and (c.get("IERR", 0), c.get("OERR", 0)) != k:
                ck.violation("count:%s:%s" % (conv[:60], lab), "%s of %s counts %s, not %s" % (conv, b[:120].hex(), c, k), conversion=conv, input=b.hex())
    ck.cov["observed"] = cov
    ck.sample({"escape": repr(piece())})
