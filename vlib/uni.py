"""Unicode helpers and reference decoders used by several oracles."""


def scalars():
    for c in range(0x110000):
        if not 0xd800 <= c < 0xe000:
            yield c


def be(cp):
    """internal form of a code point without the type byte"""
    n = max(1, (cp.bit_length() + 7) // 8)
    return cp.to_bytes(n, "big")


def internal(cp):
    return b"\x01" + be(cp)


def ihex(cps):
    """what to/BSDCONV prints for a sequence of Unicode data"""
    return "".join("01" + be(c).hex().upper() for c in cps).encode()


def u32(cps):
    return b"".join(c.to_bytes(4, "big") for c in cps)


def enc(name, c):
    return chr(c).encode(name)


def utf8_seq(b, i, opt):
    """generalised UTF-8 sequence of two bytes or more at i: (value, length) or None"""
    d = b[i]
    if d & 0xe0 == 0xc0:
        n, v = 2, d & 0x1f
    elif d & 0xf0 == 0xe0:
        n, v = 3, d & 0x0f
    elif d & 0xf8 == 0xf0:
        n, v = 4, d & 0x07
    elif d & 0xfc == 0xf8 and "SUPER" in opt:
        n, v = 5, d & 0x03
    elif d & 0xfe == 0xfc and "SUPER" in opt:
        n, v = 6, d & 0x01
    else:
        return None
    if i + n > len(b):
        return None
    for k in range(1, n):
        if b[i + k] & 0xc0 != 0x80:
            return None
        v = v << 6 | b[i + k] & 0x3f
    if "OVERLONG" not in opt and v < {2: 0x80, 3: 0x800, 4: 0x10000, 5: 0x200000, 6: 0x4000000}[n]:
        return None
    if "SUPER" not in opt and v > 0x10ffff:
        return None
    if v == 0 and "NUL" not in opt:
        return None
    return v, n


def utf8(b, opt=()):
    """(code points, input errors) of ASCII,_UTF-8 with the given options"""
    out, err, i = [], 0, 0
    while i < len(b):
        if b[i] < 0x80:
            out.append(b[i])
            i += 1
            continue
        s = utf8_seq(b, i, opt)
        if s is None:
            err += 1
            i += 1
            continue
        v, n = s
        if 0xd800 <= v < 0xdc00 and "CESU" in opt:
            t = utf8_seq(b, i + n, opt) if i + n < len(b) and b[i + n] >= 0x80 else None
            if t and 0xdc00 <= t[0] < 0xe000:
                out.append(0x10000 + (v - 0xd800 << 10) + t[0] - 0xdc00)
                i += n + t[1]
            elif "LOOSE" in opt:
                out.append(v)
                i += n
            else:
                err += 1
                i += 1
        elif 0xd800 <= v < 0xe000 and "LOOSE" not in opt:
            err += 1
            i += 1
        else:
            out.append(v)
            i += n
    return out, err


def utf16(b, order):
    """an unpaired surrogate or a cut-off unit is one error"""
    out, err, i = [], 0, 0
    while i < len(b):
        if i + 2 > len(b):
            err += len(b) - i
            break
        u = int.from_bytes(b[i:i + 2], order)
        if 0xd800 <= u < 0xdc00:
            v = int.from_bytes(b[i + 2:i + 4], order) if i + 4 <= len(b) else 0
            if 0xdc00 <= v < 0xe000:
                out.append(0x10000 + (u - 0xd800 << 10) + v - 0xdc00)
                i += 4
            else:
                err += 1
                i += 2
        elif 0xdc00 <= u < 0xe000:
            err += 1
            i += 2
        else:
            out.append(u)
            i += 2
    return out, err


def utf32(b, order):
    n = len(b) // 4 * 4
    return [int.from_bytes(b[i:i + 4], order) for i in range(0, n, 4)], len(b) - n


def assigned13():
    """the characters of Unicode 13.0, which the shipped data is of; private use left out"""
    import os
    out = []
    for ln in open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "data", "assigned13.txt")):
        if not ln.startswith("#"):
            a, b = (int(x, 16) for x in ln.split())
            out.extend(range(a, b + 1))
    return out
