"""C08: the Unicode encoding forms, exhaustively over the scalar values and densely over ill-formed input."""
import itertools
from vlib import gen, scale, uni
from vlib.driver import Crash, hx, un, counters

ENC = {"UTF-8": "utf-8", "UTF-16LE": "utf-16-le", "UTF-16BE": "utf-16-be", "UTF-32LE": "utf-32-le", "UTF-32BE": "utf-32-be"}
# U+0000 has a codec of its own next to the (documented) ASCII range from U+0001
NUL = {"UTF-8": "00,UTF-8"}
OPTS = ["CESU", "LOOSE", "NUL", "OVERLONG", "SUPER"]


def ref(name, b, opt=()):
    if name == "UTF-8":
        return uni.utf8(b, opt)
    order = "little" if name.endswith("LE") else "big"
    return (uni.utf16 if "16" in name else uni.utf32)(b, order)


def run(ck):
    r = ck.r
    ck.rule = ("every scalar value is decoded from and encoded to each of the five forms (in blocks, framed by other characters, and alone) and compared with Python's codecs (UCS-2: the BMP, the rest refused); every byte pair, and "
               "triples/quadruples over the boundary bytes, and random mixtures of well- and ill-formed pieces are decoded and compared with a reference decoder (Unicode table 3-7; one error per "
               "undecodable byte, per unpaired UTF-16 unit), output, IERR and OERR alike, in random chunks. Distinct: (form, direction, input)")
    ck.assumptions = ["Python's codecs implement the Unicode encoding forms", "UTF-32 values which are not scalar values are outside the property"]
    cases, meta = [], []

    def dec(name, b, cps=None, err=0, opt=(), chunks=None):
        conv = NUL.get(name, name) if not opt else "00,ASCII,_UTF-8#" + "&".join(opt)
        if cps is None:
            cps, err = ref(name, b, opt)
        want = uni.ihex(cps)
        if chunks is None:
            cases.append(["X %s %s" % (hx(conv + ":BSDCONV"), hx(b))])
        else:
            L = ["N 0 " + hx(conv + ":BSDCONV"), "I 0"]
            for i, c in enumerate(chunks):
                L.append("F 0 A %d 1 %s 0" % (i == len(chunks) - 1, hx(c)))
            L += ["R 0", "D 0"]
            cases.append(L)
        meta.append(("decode", name, opt, b, want, err))

    def enc(name, cps):
        cases.append(["X %s %s" % (hx("UTF-32BE:" + NUL.get(name, name)), hx(uni.u32(cps)))])
        meta.append(("encode", name, (), uni.u32(cps), "".join(map(chr, cps)).encode(ENC[name]), 0))

    def ucs2(n, cps):
        cases.append(["X %s %s" % (hx("UTF-32BE:" + n), hx(uni.u32(cps)))])
        bmp = [c for c in cps if c < 0x10000]
        meta.append(("encode", n, (), uni.u32(cps), b"".join(c.to_bytes(2, "little" if n.endswith("LE") else "big") for c in bmp), len(cps) - len(bmp)))

    # 1. all scalar values, in blocks (each block also frames its neighbours)
    al = list(uni.scalars())
    B = 512
    for a in range(0, len(al), B):
        blk = al[a:a + B]
        s = "".join(map(chr, blk))
        for n, e in ENC.items():
            dec(n, s.encode(e), blk, 0)
            enc(n, blk)
        for n in ("UCS-2LE", "UCS-2BE"):
            ucs2(n, blk)
    # 2. alone and framed by others, at the boundaries of every length and a sample of the rest
    edge = [x + d for x in (0, 0x7f, 0x80, 0x7ff, 0x800, 0xfff, 0x1000, 0xcfff, 0xd000, 0xd7ff, 0xe000, 0xfffd, 0xffff, 0x10000, 0x3ffff, 0x40000, 0xfffff, 0x100000, 0x10ffff) for d in (-1, 0, 1)]
    edge = [c for c in edge if 0 <= c < 0x110000 and not 0xd800 <= c < 0xe000]
    for c in edge + r.sample(al, ck.n(2000, 40000)):
        for n, e in ENC.items():
            x, y = chr(r.choice(edge)), chr(r.choice(al))
            for s in (chr(c), x + chr(c) + y):
                dec(n, s.encode(e), [ord(k) for k in s], 0)
                enc(n, [ord(k) for k in s])
        for n in ("UCS-2LE", "UCS-2BE"):
            ucs2(n, [r.choice(al), c, r.choice(edge)])
    # 3. ill-formed UTF-8: all pairs, boundary triples and quadruples, framed
    for a in range(256):
        for b in range(0, 256, 8):
            # separated by a character, so that one block covers eight pairs
            dec("UTF-8", b"".join(bytes([a, b + k]) + "中A".encode() for k in range(8)))
    bnd = [0x00, 0x41, 0x7f, 0x80, 0x8f, 0x90, 0x9f, 0xa0, 0xbf, 0xc0, 0xc1, 0xc2, 0xdf, 0xe0, 0xe1, 0xec, 0xed, 0xee, 0xef, 0xf0, 0xf1, 0xf3, 0xf4, 0xf5, 0xf7, 0xf8, 0xfc, 0xfe, 0xff]
    tri = list(itertools.product(bnd, repeat=3))
    for i in range(0, len(tri), 16):
        dec("UTF-8", b"".join(bytes(t) + "éA".encode() for t in tri[i:i + 16]))
    lead = [0xe0, 0xed, 0xef, 0xf0, 0xf1, 0xf3, 0xf4, 0xf5, 0xc0, 0xc2, 0xfc]
    cont = [0x80, 0x8f, 0x90, 0x9f, 0xa0, 0xbf, 0x41, 0xc2, 0xed]
    quad = [(a, b, c, d) for a in lead for b in cont for c in cont for d in cont]
    for i in range(0, len(quad), 16):
        dec("UTF-8", b"".join(bytes(t) + "A".encode() for t in quad[i:i + 16]))
    # 4. UTF-16: all single units, and unit pairs over the surrogate boundaries
    sur = [0x41, 0xd7ff, 0xd800, 0xd801, 0xdbff, 0xdc00, 0xdc01, 0xdfff, 0xe000, 0x00d8, 0x00dc, 0xd8dc, 0xdcd8, 0x4e2d]
    for n in ("UTF-16LE", "UTF-16BE"):
        o = "little" if n.endswith("LE") else "big"
        for a in range(0, 0x10000, 64):
            dec(n, b"".join(u.to_bytes(2, o) + (0x42).to_bytes(2, o) for u in range(a, a + 64)))
        for t in itertools.product(sur, repeat=3):
            b = b"".join(u.to_bytes(2, o) for u in t)
            dec(n, b, chunks=gen.split(r, b) if r.random() < 0.3 else None)
            if r.random() < 0.2:
                dec(n, b + b"\xd8")
    # 5. random mixtures, in chunks, for every form
    for far in [None] * ck.n(24000, 300000) + scale.pick(r, ck.n(20, 99)):
        n = r.choice(list(ENC))
        b = b""
        for _ in range(far or r.choice([1, 2, 3, 5, 8, 13])):
            k = r.random()
            if k < 0.5 or n.startswith("UTF-32"):
                b += chr(r.choice(al) if r.random() < 0.5 else r.choice(edge)).encode(ENC[n])
            elif k < 0.8 and n == "UTF-8":
                p = bytes([r.choice(lead)]) + bytes(r.choice(cont) for _ in range(r.randrange(4)))
                b += p
            elif k < 0.9 and n == "UTF-8":
                b += bytes([r.randrange(256)])
            elif n == "UTF-8":
                b += chr(r.choice(al)).encode()[:-1]
            else:
                b += r.choice(sur).to_bytes(2, "little" if n.endswith("LE") else "big")
        if r.random() < 0.2:
            b = b[:-1]
        dec(n, b, chunks=gen.split(r, b) if r.random() < 0.5 else None)
    # 6. the options relax exactly what they name
    for _ in range(ck.n(16000, 200000)):
        opt = tuple(r.sample(OPTS, r.choice([1, 1, 2, 3, 5])))
        b = b""
        for _ in range(r.choice([1, 2, 3, 5])):
            k = r.random()
            if k < 0.2:
                b += chr(r.choice(edge)).encode()
            elif k < 0.5:
                b += chr(r.choice([0xd800, 0xdbff, 0xdc00, 0xdfff, 0xd83d, 0xde00])).encode("utf-8", "surrogatepass")
            elif k < 0.75:
                v = r.choice([0, 1, 0x41, 0x7f, 0x80, 0x7ff, 0x800, 0xd800, 0xdfff, 0xffff, 0x10000, 0x10ffff, 0x110000, 0x1fffff, 0x200000, 0x3ffffff, 0x4000000, 0x7fffffff])
                m = r.choice([2, 3, 4, 5, 6])
                if v < 1 << {2: 11, 3: 16, 4: 21, 5: 26, 6: 31}[m]:
                    p = []
                    for _ in range(m - 1):
                        p.append(0x80 | v & 0x3f)
                        v >>= 6
                    p.append({2: 0xc0, 3: 0xe0, 4: 0xf0, 5: 0xf8, 6: 0xfc}[m] | v)
                    b += bytes(p[::-1])
            else:
                b += bytes([r.choice(lead + cont)])
        dec("UTF-8", b, opt=opt, chunks=gen.split(r, b) if r.random() < 0.3 else None)
    ierrs = 0
    per = {}
    for L, x, (d, n, opt, b, want, err) in zip(cases, ck.run("asan", cases), meta):
        ck.saw((d, n, opt, b))
        per[d + " " + n] = per.get(d + " " + n, 0) + 1
        if isinstance(x, Crash):
            ck.crash(x, "%s %s %s" % (d, n, b.hex()), commands=L)
            continue
        if len(x) == 1:
            if x[0].startswith("null"):
                ck.violation("create:%s:%s" % (d, n), "%s cannot be created" % L[0], commands=L)
                continue
            o, c = x[0].split(" ")
            got, c = un(o), counters(c)
        else:
            got, c = b"".join(un(y) for y in x[2:-2]), counters(x[-2])
        e = (c.get("IERR", 0), c.get("OERR", 0))
        ierrs += e[0]
        ill = "ill" if err else "well"
        if got != want:
            ck.violation("%s:%s:%s:%s" % (d, n, ill, "&".join(sorted(opt))), "%s %s%s of %s gives %s, expected %s" % (d, n, opt or "", b[:300].hex(), got[:200], want[:200]), commands=L)
        elif e != ((err, 0) if d == "decode" else (0, err)):
            ck.violation("errors:%s:%s:%s:%s" % (d, n, ill, "&".join(sorted(opt))), "%s %s%s of %s counts IERR %d OERR %d, expected %d of the %s counter" % (d, n, opt or "", b[:300].hex(), e[0], e[1], err, "first" if d == "decode" else "second"), commands=L)
    ck.sample(dict(direction=meta[-1][0], form=meta[-1][1], options=meta[-1][2], input=meta[-1][3].hex(), expected=meta[-1][4].decode(), ierr=meta[-1][5]))
    ck.cov.update(cases=per, scalar_values=len(al), input_errors_matched=ierrs)
