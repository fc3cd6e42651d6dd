"""C28: mappings from characters to characters."""
import json, lzma, os, unicodedata
from vlib import gen, scale, uni
from vlib.driver import Crash, hx, un, counters

SEP = 0x10FFFD


def tables():
    with lzma.open(os.path.join(os.path.dirname(uni.__file__), "data", "inter.json.xz"), "rt", encoding="utf-8") as f:
        T = json.load(f)
    A = uni.assigned13()
    S = set(A)
    for n, f in (("UPPER", str.upper), ("LOWER", str.lower), ("CASEFOLD", str.casefold)):
        T[n] = {chr(c): f(chr(c)) for c in A if f(chr(c)) != chr(c)}
    # a simple mapping goes before a full one (the repository's own tests rely on that): the Greek
    # letters with iota subscript, whose simple upper case is the title case, and U+0130
    for c in A:
        t = chr(c).title()
        if len(T["UPPER"].get(chr(c), "")) > 1 and len(t) == 1 and t != chr(c):
            T["UPPER"][chr(c)] = t
    T["LOWER"]["\u0130"] = "i"
    half = {}
    for c in A:
        d = unicodedata.decomposition(chr(c)).split()
        if d and d[0] == "<wide>":
            half[chr(c)] = chr(int(d[1], 16))
        elif d and d[0] == "<narrow>":
            b = {0x3099: 0x309b, 0x309a: 0x309c}.get(int(d[1], 16), int(d[1], 16))      # the spacing sound marks
            half[chr(b)] = chr(c)
    T["HALF"] = half
    T["FULL"] = {v: k for k, v in half.items()}
    TO = {n[3:]: {k: bytes.fromhex(v) for k, v in T.pop(n).items()} for n in list(T) if n.startswith("to:")}
    for n in T:
        if n in ("SUPER", "SUB"):
            for k, v in T[n].items():
                assert k == v or unicodedata.normalize("NFKD", v) == unicodedata.normalize("NFKD", k) or n == "SUPER", (n, k, v)
    return T, TO


def apply(t, m, s):
    """longest match from the left"""
    out, i = [], 0
    while i < len(s):
        for k in range(min(m, len(s) - i), 0, -1):
            v = t.get(s[i:i + k])
            if v is not None:
                out.append(v)
                i += k
                break
        else:
            out.append(s[i])
            i += 1
    return "".join(out)


def run(ck):
    r = ck.r
    T, TO = tables()
    ck.rule = ("every character assigned in Unicode 13, the private use area and some unassigned ones, each alone, through every mapping codec: UPPER, LOWER and CASEFOLD against Python's case mappings (the simple one where there is one, the full one otherwise), HALF and FULL against the wide and narrow decompositions of the Unicode character database "
               "(for the sound marks, the spacing ones) and each other, the others against the reviewed tables; then strings over the keys, prefixes of keys and other characters, whole and in pieces, several of the codecs after one another or as alternatives, "
               "against longest match from the left; data that is no Unicode passes unchanged. Distinct: (codec, character) and (conversion, text)")
    ck.assumptions = ["characters that Unicode 14 and later added are left alone", "the transliteration tables without a standard (Chinese, Japanese, upside down, ASCII folding, kana romanisation) are taken as reviewed when frozen",
                      "a sequence is matched against the longest entry that begins with it"]
    cov = {"characters": {}, "changed": 0, "texts": 0, "pieces": 0, "chains": 0, "other_data": 0}
    tree = ck.tree("asan")
    names = sorted(T)
    ML = {n: max(map(len, T[n])) for n in names}
    U = uni.assigned13() + list(range(0xe000, 0xf900)) + [0x378, 0x2fff, 0xfdd0, 0xffff, 0x1ffff, 0xf0000, 0x10fffe, 0x16000, 0x20000 + 0xfffe]
    U = [u for u in sorted(set(U)) if u and not 0xd800 <= u < 0xe000]

    def enc(s):
        return s.encode("utf-32-be", "surrogatepass")

    # ---- each character alone (the separator is in no table)
    cases, meta = [], []
    for n in names:
        for i in range(0, len(U), 2048):
            part = U[i:i + 2048]
            cases.append(["X %s %s" % (hx("UTF-32BE:%s:UTF-32BE" % n), hx(enc("".join(chr(u) + chr(SEP) for u in part))))])
            meta.append((n, part))
    for L, x, (n, part) in zip(cases, ck.run("asan", cases), meta):
        if isinstance(x, Crash):
            ck.crash(x, n, commands=L)
            continue
        if x[0].startswith("null"):
            ck.violation("create:%s" % n, "%s cannot be created: %s" % (n, x[0]))
            continue
        g = (un(x[0].split(" ")[0]) or b"").decode("utf-32-be", "surrogatepass").split(chr(SEP))
        cov["characters"][n] = cov["characters"].get(n, 0) + len(part)
        if len(g) != len(part) + 1:
            ck.violation("count:%s" % n, "%s: %d characters give %d" % (n, len(part), len(g) - 1), commands=L)
            continue
        for u, o in zip(part, g):
            w = T[n].get(chr(u), chr(u))
            ck.saw((n, u), w != chr(u))
            cov["changed"] += w != chr(u)
            if o != w:
                ck.violation("map:%s" % n, "%s: U+%04X gives %s, not %s" % (n, u, ["%04X" % ord(c) for c in o], ["%04X" % ord(c) for c in w]), codec=n, character=u)

    # ---- the transliterating encoders, and what they do not know left to the next
    cases, meta = [], []
    for n in sorted(TO):
        assert max(map(len, TO[n])) == 1
        for i in range(0, len(U), 2048):
            part = U[i:i + 2048]
            cases.append(["X %s %s" % (hx("UTF-32BE:%s,UTF-32BE" % n), hx(enc("".join(map(chr, part)))))])
            meta.append((n, part))
    for L, x, (n, part) in zip(cases, ck.run("asan", cases), meta):
        if isinstance(x, Crash):
            ck.crash(x, n, commands=L)
            continue
        g = un(x[0].split(" ")[0]) if not x[0].startswith("null") else x[0].encode()
        cov["characters"][n] = cov["characters"].get(n, 0) + len(part)
        at = 0
        for u in part:
            w = TO[n].get(chr(u))
            ck.saw((n, u), w is not None)
            w = w or enc(chr(u))
            if g[at:at + len(w)] != w:
                ck.violation("encode:%s" % n, "%s: U+%04X gives %s, not %s" % (n, u, g[at:at + 4].hex(), w.hex()), codec=n, character=u)
                break
            at += len(w)
        else:
            if g[at:] or counters(x[0].split(" ")[1]).get("OERR", 0):
                ck.violation("encode:%s" % n, "%s gives more, or errors: %s" % (n, x[0][-200:]), commands=L)

    # ---- texts
    keys = {n: sorted(T[n]) for n in names}
    long = {n: [k for k in keys[n] if len(k) > 1] for n in names}
    cases, meta = [], []

    def text(ns):
        s = ""
        for _ in range(r.randrange(1, 12)):
            n = r.choice(ns)
            k = r.random()
            w = r.choice(long[n]) if long[n] and k < 0.45 else r.choice(keys[n])
            if 0.3 < k < 0.5:
                w = w[:r.randrange(len(w)) + 1]
            s += w if k < 0.85 else chr(r.choice(U)) if k < 0.93 else r.choice(["a", "B", " ", "中", "é", "\u0301", "ア", "ｱ", "Ａ"])
            if k > 0.97:
                s += s[-1] * 3
        return s

    for far in [None] * ck.n(12000, 250000) + scale.pick(r, 99) * ck.n(2, 20):
        k = r.random()
        if k < 0.7:
            n = r.choice(names)
            chain, mode = [n], "one"
        elif k < 0.9:
            chain, mode = r.sample(names, r.choice([2, 2, 3])), "chain"
        else:
            chain, mode = r.sample(names, 2), "or"
        s = text(chain)
        while far and len(s) < far:
            s += text(chain) * (far // 500 + 1)
        nm = [c if r.random() < 0.7 else c.lower() if r.random() < 0.5 else c.title() for c in chain]
        src, e = r.choice([("UTF-8", "utf-8"), ("UTF-32BE", "utf-32-be"), ("UTF-16LE", "utf-16-le")])
        conv = "%s:%s:UTF-8" % (src, (":" if mode != "or" else ",").join(nm))
        w = s
        if mode != "or":
            for c in chain:
                w = apply(T[c], ML[c], w)
        else:        # the first alternative that has an entry at a place takes it
            a, b = chain
            out, i = [], 0
            while i < len(s):
                for c in (a, b):
                    m = next((j for j in range(min(ML[c], len(s) - i), 0, -1) if s[i:i + j] in T[c]), 0)
                    if m:
                        out.append(T[c][s[i:i + m]])
                        i += m
                        break
                else:
                    out.append(s[i])
                    i += 1
            w = "".join(out)
        b = s.encode(e, "surrogatepass")
        L = ["N 0 " + hx(conv)]
        if r.random() < 0.2:
            L += ["I 0", "F 0 A 0 1 %s 0" % hx(text(chain).encode(e))]
        if r.random() < 0.5:
            L += ["O 0 " + hx(b)]
        else:
            ps = gen.split(r, b)
            cov["pieces"] += len(ps)
            L += ["I 0"] + ["F 0 A %d 1 %s 0" % (i == len(ps) - 1, hx(p)) for i, p in enumerate(ps)]
        cases.append(L)
        meta.append((conv, s, w, mode))
    for L, x, (conv, s, w, mode) in zip(cases, ck.run("asan", cases), meta):
        if isinstance(x, Crash):
            ck.crash(x, "%s on %s" % (conv, s), commands=L)
            continue
        ck.saw((conv, s), w != s)
        cov["texts"] += 1
        cov["chains"] += mode != "one"
        if not x[0].startswith("ok"):
            ck.violation("create", "%s cannot be created: %s" % (conv, x[0]), commands=L)
            continue
        if L[-1].startswith("O"):
            o = un(x[-1].split(" ")[0]) or b""
        else:
            i = len(L) - 1 - L[::-1].index("I 0")
            o = b"".join(un(y.split(" ")[0]) or b"" for y in x[i + 1:])
        if o != w.encode("utf-8", "surrogatepass"):
            ck.violation("text:%s" % mode, "%s: %r gives %r, not %r" % (conv, s, o.decode("utf-8", "replace"), w), commands=L)
    ck.sample({"conversion": meta[0][0], "text": meta[0][1], "result": meta[0][2]})

    # ---- there and back
    cases, meta = [], []
    for a, b in (("HALF", "FULL"), ("FULL", "HALF")):
        s = "".join(keys[a])
        cases.append(["X %s %s" % (hx("UTF-8:%s:%s:UTF-8" % (a, b)), hx(s.encode()))])
        meta.append((a, b, s))
    for L, x, (a, b, s) in zip(cases, ck.run("asan", cases), meta):
        ck.saw((a, b, "back"))
        if isinstance(x, Crash) or un(x[0].split(" ")[0]) != s.encode():
            ck.violation("back:%s" % a, "%s then %s: %s" % (a, b, x), commands=L)

    # ---- data that is no Unicode: types 02 to 0F, 1B, the same bytes as keys
    cases, meta = [], []
    for n in names:
        data = []
        for k in r.sample(keys[n], min(len(keys[n]), 60)):
            c = ord(k[0])
            data.append(bytes([r.choice([2, 3, 4, 5, 0x1b])]) + c.to_bytes((c.bit_length() + 7) // 8, "big"))
            data.append(b"\x01\x00" + c.to_bytes((c.bit_length() + 7) // 8, "big"))          # no character either: a longer spelling
            data.append(b"\x01" + c.to_bytes((c.bit_length() + 7) // 8, "big") + b"\x01")
        data = [d for d in data if not (d[0] == 1 and d[1] and chr(int.from_bytes(d[1:], "big") if len(d) < 5 and int.from_bytes(d[1:], "big") < 0x110000 else 0xfffd) in T[n])]
        data = [d for d in data if d[0] != 1 or d[1] == 0 or not any(len(k) > 1 for k in keys[n])]
        cases.append(["X %s %s" % (hx("BSDCONV:%s:INSERT#AFTER=2C:BSDCONV" % n), hx(b",".join(d.hex().encode() for d in data)))])
        meta.append((n, data))
    for L, x, (n, data) in zip(cases, ck.run("asan", cases), meta):
        if isinstance(x, Crash):
            ck.crash(x, n, commands=L)
            continue
        o = [y for y in (un(x[0].split(" ")[0]) or b"").upper().split(b"2C") if y]
        o = (un(x[0].split(" ")[0]) or b"").upper()
        w = b"".join(d.hex().upper().encode() + b"2C" for d in data)
        cov["other_data"] += len(data)
        ck.saw((n, "other"))
        if o != w:
            ck.violation("other:%s" % n, "%s: data that are no characters of its table do not pass unchanged" % n, commands=L)
    ck.cov = cov
