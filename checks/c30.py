"""C30: long streams, and long lives, in bounded memory."""
import os, re, shutil, tempfile, unicodedata
from collections import Counter
from vlib import cns, gen, work
from vlib.driver import Crash, hx

DIRECTED = [  # pipelines that hold something back for a while, and text on which they have to let go of it again
    ("UTF-8:NFC:UTF-8", "ab".encode()), ("UTF-8:NFC:UTF-8", "e\u0301\u0327x\u0301".encode()), ("UTF-8:NFD:UTF-8", "\u00e9\u1e69x".encode()),
    ("UTF-8:NFKC:UTF-8", "\u1112\u1161\u11ab \uac00\u11a8".encode()), ("UTF-8:NFC:UTF-8", "\uac00\ub098".encode()), ("UTF-8:_NF-HANGUL-COMPOSITION:UTF-8", "\u1100".encode()), ("UTF-8:NFKC:UTF-8", "\u3131\u314b".encode()), ("UTF-8:NFD:NFC:UTF-8", "\u1100\u1161\u1112\u1175".encode()),
    ("UTF-8:NFKD:UTF-8", "\ufb01\u0301\uac01".encode()),
    ("UTF-8:WHITESPACE-DERAIL:ZHTW:WHITESPACE-RERAIL:UTF-8", "\u8ba1\u7b97 \u673a\r\n\u7f51 a b".encode()),
    ("UTF-8:WHITESPACE-DERAIL:ZHTW:ZHTW-WORDS:WHITESPACE-RERAIL:UTF-8", "\u8ba1 \u7b97\u673a\n ab\tc".encode()),
    ("UTF-8:STRINGS#FOR=PRINT&MIN-LEN=3:UTF-8", b"abcdef\x01ab\x02"), ("UTF-8:TRIM-WIDTH#5:UTF-8", "ab\u4e2dcdefg\u0301".encode()),
    ("UTF-8:REPLACE#0161.0162=0178:UTF-8", b"aababcb"), ("UTF-8:ZHTW:ZHTW-WORDS:UTF-8", "\u8ba1\u7b97\u673a\u8f6f\u4ef6".encode()),
    ("BIG5:BIG5-DEFRAG:UTF-8", b"\xa4\xa4\xb4\x1b[1m\xfaab"), ("ANSI-CONTROL,BYTE:BIG5-DEFRAG:BYTE,ANSI-CONTROL|SKIP,BIG5:UTF-8", b"\xa4\x1b[1;33m\xa4ab\xb4\xfa"),
    ("UTF-8:SPLIT:BSDCONV", "ab\u4e2d".encode()), ("GB18030:UTF-16LE", b"\x81\x30\x81\x30\xa1\xa1a\x90\x30"), ("UTF-16LE:UTF-8", b"\xff\xfea\x00\x3d\xd8\x00\xde\x3d"),
    ("JIS:UTF-8", b"\x1b$B\x24\x22\x1b(Bab"), ("UTF-8:JIS", "\u3042a\uff71\u4e9c".encode()), ("ESCAPE,ANY:ESCAPE", b"%41&#65;&amp;\\u0041&#x"),
    ("NAMED-HTMLENTITY,HTMLENTITY,UTF-8:UPPER:UTF-8", b"a&amp;&copy&#6"), ("UTF-8:WIDTH:AMBIGUOUS-PAD:UTF-8", "\u00a1a\u2500".encode()), ("ASCII:ALIAS-FROM:ASCII", b"LOCALE,"), ("ASCII:ALIAS-TO:ASCII", b"LOCALE,"), ("ASCII:ALIAS-FROM:ASCII", b"UTF-8,BIG5,"), ("ASCII:ALIAS-INTER:ASCII", b"UNICODE,"), ("ASCII:ALIAS-INTER:ASCII", b"NFC,FULL,"), ("ASCII:ALIAS-FILTER:ASCII", b"2,"), ("BSDCONV:ASCII-HTML-INFO", b"02014463,0141,"), ("PASS:UTF-8", b"ab"), ("PASS:PASS", b"\x01a")]


def decoded(cv, chunk):
    """what the first phase may take the piece for: marks only, or anything else"""
    enc = {"_CP1255": "cp1255", "_CP1258": "cp1258", "_ISO-8859-8": "iso8859_8", "_UTF-8": "utf-8", "UTF-8": "utf-8"}
    out = ""
    for c in re.split("[:#]", cv.upper())[0].split(","):
        if c in enc:
            t = chunk.decode(enc[c], "ignore")
            out += "".join(x for x in t if ord(x) > 0x7f) if c[0] == "_" else t
    return out or "?"


def by_design(cv, chunk, kind):
    """pipelines that must hold on to text of this kind until it ends"""
    if not chunk:
        return "a piece without data"
    u = cv.upper()
    if "STRINGS" in u and kind in ("uni", "random"):
        return "a run of matching data without end"
    if "DERAIL" in u and kind != "directed":
        return "spaces that nothing takes back"
    if kind == "random" and any("BSDCONV" in st.split(":")[0] for st in u.split("|")[1:]):
        return "hexadecimal without a separator"
    if kind == "random" and "BSDCONV" in u.split(":")[0] and re.fullmatch(rb"[0-9A-Fa-f]+", chunk):
        return "hexadecimal without a separator"
    if kind == "random" and re.search("ANY#0(?![0-9A-F])", u):
        return "data of no bytes"
    if kind == "random" and "NF" in u and not any(unicodedata.combining(c) == 0 for c in decoded(cv, chunk)):
        return "a run of combining characters without end"
    return None


def run(ck):
    r = ck.r
    t = ck.tree("asan")
    C = gen.Convs(t, r)
    home = work.Home()
    env = home.env(t)
    top = tempfile.mkdtemp(prefix="c30-")
    os.chmod(top, 0o755)
    try:
        M, o = cns.install(r, t, top)
        if M is None:
            ck.violation("cns:table", "bsdconv-mktable fails on a CNS11643 table: %r" % o)
        else:
            _run(ck, r, t, C, home, env, dict(env, BSDCONV_PATH=top), "".join(list(map(chr, M))[:6]))
    finally:
        shutil.rmtree(top, ignore_errors=True)
        home.done()


def _run(ck, r, t, C, home, env, cenv, ctext):
    cases, meta = [], []
    N = ck.n(64, 1024)
    skipped = Counter()

    def add(cv, chunk, kind, mode=None):
        d = by_design(cv, chunk, kind)
        mode = mode or r.choice("AZP")
        if d and mode != "C":
            skipped[d] += 1
            mode = "C"
        if not chunk:
            return
        cases.append(["N 0 " + hx(cv), "I 0", "rep 0 %s %d %s" % (mode, N, hx(chunk)), "F 0 A 1 1 - 0", "D 0"])
        meta.append((cv, chunk, mode, kind))
    bd = gen.boundary_data()

    def text():
        return ",".join(x.hex().upper() for x in r.sample(bd, 20)).encode() + b",0141,"
    uni = b",".join(b"01%X" % c if len("%X" % c) % 2 == 0 else b"010%X" % c for c in (0x41, 0x20, 0x4e00, 0x0a, 0x301, 0x1f600, 0xac00, 0x42)) + b","
    for cv, b in DIRECTED:
        for m in "AZPC":
            add(cv, b, "directed", m)
    for kind in ("from", "inter", "to"):
        for nm in C.m[kind]:
            if (kind, nm) in gen.SKIP or "STDOUT" in nm or "FILE" in nm:
                continue
            for a in gen.arg_variants(kind, nm):
                c = nm + ("#" + a if a else "")
                if kind == "from":
                    add(c + ":UTF-8", bytes(range(256)), "bytes")
                    add(c + ":UTF-8", gen.payload(r, 40), "bytes")
                else:
                    cv = "BSDCONV:%s:BSDCONV" % c if kind == "inter" else "BSDCONV:%s,ANY#013F" % c
                    add(cv, text(), "typed")
                    add(cv, uni, "uni")
    for _ in range(ck.n(700, 40000)):
        cv, b = gen.work_item(C, r)
        add(cv, b, "random", r.choice("AAZPC"))
    K, M = Counter(), Counter()
    reps = total = most = 0
    res = ck.run("asan", cases, env=env)
    # with the CNS11643 tables that the distribution leaves out
    k = len(cases)
    for cv, b in [("UTF-8:ASCII-HTML-INFO", ctext + "a\u4e01"), ("UTF-8:ASCII-HTML-INFO", ctext), ("UTF-8:CNS11643:CNS11643-UNICODE:UTF-8", ctext + "b"), ("UTF-8:CNS11643:UNICODE:UTF-8", ctext),
                  ("UTF-8:CNS11643:CNS11643", "a" + ctext), ("UTF-8:UNICODE:UTF-8", ctext), ("ASCII:ALIAS-INTER:ASCII", "UNICODE,")]:
        for m in "AZPC":
            add(cv, b.encode(), "cns", m)
    res = res + ck.run("asan", cases[k:], env=cenv)
    for L, x, (cv, chunk, mode, kind) in zip(cases, res, meta):
        if isinstance(x, Crash):
            ck.crash(x, cv, commands=L)
            continue
        ok = x[0].startswith("ok")
        ck.saw((cv, chunk, mode), ok)
        if not ok:
            continue
        v = [int(y) for y in x[2].split()]
        top = v[3:]
        K[kind] += 1
        M[mode] += 1
        reps += N
        total += N * len(chunk)
        most = max(most, top[7])
        if ck.r.random() < 0.002:
            ck.sample(dict(conversion=cv, chunk=chunk.hex(), mode=mode, repeated=N, heap_per_eighth=top))
        if top[7] > top[3]:
            ck.violation("grow:" + cv, "%s: the heap grows as %s is %s %d times: highest number of bytes allocated in each eighth of them %s"
                         % (cv, chunk.hex()[:160], "converted" if mode == "C" else "fed", N, top), commands=L)
    ck.cov.update(kinds=dict(K), modes=dict(M), repetitions=reps, bytes_fed=total, highest_heap=most, pieces_each=N, held_back_by_design=dict(skipped))
    ck.rule = ("Every codec with every kind of argument, directed pipelines that hold data back, and random pipelines of one to three stages are fed the same piece of text over and over "
               "(output allocated, discarded, or fetched through a 4 KiB buffer), or made to convert it over and over as a whole with bsdconv_init() in between; after every piece the number of heap "
               "bytes is read from the allocator. Nothing may be higher in the last eighth of the pieces than it was in the fourth. distinct_nontrivial counts (conversion, piece, mode) that ran.")
    ck.assumptions = ["Codecs that are defined to hold a run back until it ends are exempt while it does not end: STRINGS on nothing but matching text, WHITESPACE-DERAIL that nothing takes from, a later BSDCONV decoder that sees no separator; "
                      "these are checked as whole conversions instead. A piece of no bytes at all is not fed.",
                      "Heap of the library and of the codecs only, as the sanitizer's allocator reports it; not the resident size."]
