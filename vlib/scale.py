"""Lengths and numbers around the limits of small integer types and buffers."""
NEAR = [31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 300, 511, 512, 513, 1000, 1023, 1024, 1025, 2048, 4095, 4096, 4097]
FAR = [8191, 8192, 8193, 16384, 32767, 32768, 32769, 65535, 65536, 65537, 70000]


def pick(r, k, top=10**9):
    """k of them, near and far ones"""
    n = [x for x in NEAR + FAR if x <= top]
    return n if k >= len(n) else r.sample(n, k)


def text(r, n, enc="utf-8"):
    """at least n bytes: one thing over and over, or a rich text, with the odd stranger"""
    from . import gen
    k = r.random()
    b = b""
    if k < 0.45:
        w = r.choice(["a", "é", "中", "😀", " ", "\n", "\r", "\r\n", "\u0301", "a\u0301", "각", "&#65;", "%41", "01", "0141,", "?", "ﬁ", "0", "&", "\\", "\x1b", "\x1b[", "A\u030a\u0323", "后", "软件", "カ\u3099", "\u1100", "\t "]).encode(enc, "ignore") or b"a"
        b = w * (n // len(w) + 1)
        if k < 0.1:
            i = r.randrange(len(b))
            b = b[:i] + gen.rich(r, 10).encode(enc, "ignore") + b[i:]
    elif k < 0.8:
        while len(b) < n:
            b += gen.rich(r, 40).encode(enc, "ignore") + b"a"
            if n > 2000:
                b *= 3
    else:
        while len(b) < n:
            b += gen.payload(r, 100) + b"\n"
            if n > 2000:
                b *= 3
    return b[:n + r.randrange(3)]


def cut(r, b):
    """into pieces, large ones and small ones"""
    k = r.random()
    if k < 0.3:
        q = r.choice([1000, 1024, 4096, 65536, 7])
        return [b[i:i + q] for i in range(0, len(b), q)] or [b""]
    i = r.randrange(len(b) + 1) if k < 0.7 else r.choice([255, 256, 257, 65535, 65536, len(b) - 1])
    a, z = b[:i], b[i:]
    p = [z[j:j + 1] for j in range(min(len(z), 300))] + [z[300:]]
    return ([a] + p) if r.random() < 0.5 else [a, z]
