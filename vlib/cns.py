"""The CNS 11643 tables the distribution names and leaves to be added: made up, beside links to the codecs that are there."""
import os, subprocess


def install(r, t, top, n=40):
    """-> ({character: datum after the type}, path); inter/CNS11643, inter/CNS11643-UNICODE, from/_CNS11643 and to/_CNS11643"""
    base = os.path.join(top, "share", "bsdconv")
    for k in os.listdir(t.share):
        os.makedirs(os.path.join(base, k))
        for f in os.listdir(os.path.join(t.share, k)):
            os.symlink(os.path.join(t.share, k, f), os.path.join(base, k, f))
    M, codes = {}, set()
    for c in [0x4e2d, 0x20000, 0xe9] + r.sample(range(0x4e00, 0x9f00), n) + r.sample(range(0x20000, 0x2a000), n // 4):
        while 1:
            d = bytes([r.choice([1, 2, 3, 15, 16, 0x7f, 0xff])] + [r.randrange(0x21, 0x7f) for _ in range(2)])
            if d not in codes:
                break
        codes.add(d)
        M[c] = d
    h = lambda c: "01" + c.to_bytes((c.bit_length() + 7) // 8, "big").hex().upper()
    src = {("inter", "CNS11643"): [(h(c), "02" + d.hex().upper()) for c, d in M.items()],
           ("inter", "CNS11643-UNICODE"): [("02" + d.hex().upper(), h(c)) for c, d in M.items()],
           ("from", "_CNS11643"): [("8E" + d.hex().upper(), "02" + d.hex().upper()) for d in M.values()],
           ("to", "_CNS11643"): [("02" + d.hex().upper(), "8E" + d.hex().upper()) for d in M.values()]}
    for (k, name), rows in src.items():
        w = os.path.join(top, "w.txt")
        with open(w, "w") as f:
            f.write("".join("%s\t%s\n" % x for x in rows))
        p = subprocess.run([os.path.join(t.bin, "bsdconv-mktable"), w, os.path.join(base, k, name)], env=t.env(), capture_output=True, timeout=120)
        if p.returncode:
            return None, p.stderr
    return M, top
