"""Reference reading of codec table sources, and the specification of matching against them.

A source line is `key<blank>output`.  The key is a sequence of units: hexadecimal bytes, `*` for any
unit, `,` for the boundary between two data (unit 256); a leading `!` makes letters match in both
cases.  The output is a list of data in hexadecimal separated by `,`, or `?...` for the codec's
callback.  Of several entries for one sequence the one that spells more of its letters exactly wins,
otherwise the first; a plain entry beats a callback.
"""
import os

SEP = 256


class Bad(Exception):
    pass


def parse_line(ln):
    """(key alternatives per unit, output data or None, callback data or None), or None for no entry"""
    if ln.startswith("#"):
        return None
    ln = ln.rstrip("\n")
    k = 0
    while k < len(ln) and ln[k] not in "\t ":
        k += 1
    if k == len(ln):
        return None
    key, rest = ln[:k], ln[k:].lstrip("\t ")
    k = 0
    while k < len(rest) and rest[k] not in "\t\r\n# ":
        k += 1
    out = rest[:k]
    ci = key.startswith("!")
    if ci:
        key = key[1:]
    units = []
    i = 0
    while i < len(key):
        if key[i] == "*":
            units.append((range(0, 257), ()))
            i += 1
        elif key[i] == ",":
            units.append(((SEP,), ()))
            i += 1
        else:
            try:
                v = int(key[i:i + 2], 16) if len(key[i:i + 2]) == 2 else None
            except ValueError:
                v = None
            if v is None:
                raise Bad(ln)
            c = chr(v)
            units.append(((v,), (ord(c.swapcase()),) if ci and v < 128 and c.isalpha() else ()))
            i += 2
    cb = out.startswith("?")
    if cb:
        out = out[1:]
    try:
        data = tuple(bytes.fromhex(x) for x in out.split(",")) if out else ()
    except ValueError:
        raise Bad(ln)
    return units, data, cb


class Node:
    __slots__ = ("ch", "val", "cb", "level")

    def __init__(self):
        self.ch = None
        self.val = None
        self.cb = False
        self.level = 0


class Table:
    """trie over units; lines: iterable of source lines"""

    def __init__(self, lines):
        self.root = Node()
        self.entries = []        # (first concrete key, data, callback)
        self.bad = 0
        for ln in lines:
            try:
                e = parse_line(ln)
            except Bad:
                self.bad += 1
                continue
            if e is None or not e[0]:
                continue
            units, data, cb = e
            self.entries.append((tuple((u[0][0] if u[0] else 0) if not isinstance(u[0], range) else -1 for u in units), data, cb))
            cur = [(self.root, 0)]
            for exact, other in units:
                nx = []
                for n, lv in cur:
                    if n.ch is None:
                        n.ch = {}
                    for c in exact:
                        m = n.ch.get(c)
                        if m is None:
                            m = n.ch[c] = Node()
                        nx.append((m, lv + 1))
                    for c in other:
                        m = n.ch.get(c)
                        if m is None:
                            m = n.ch[c] = Node()
                        nx.append((m, lv))
                cur = nx
            for n, lv in cur:
                if n.val is None or (n.cb and not cb) or (n.cb == cb and lv > n.level):
                    n.val, n.cb, n.level = data, cb, lv

    @classmethod
    def load(cls, path):
        with open(path, encoding="latin-1") as f:
            return cls(f)

    # ---- bytes: longest match at position i; returns (length, data) or None
    def match_bytes(self, b, i):
        n = self.root
        best = None
        k = i
        while k < len(b):
            n = n.ch.get(b[k]) if n.ch else None
            if n is None:
                break
            k += 1
            if n.val is not None:
                best = (k - i, n.val, n.cb)
                if n.cb:
                    break
        return best

    # ---- data: longest match from datum i on; returns (number of data, output) or None
    def match_data(self, d, i):
        n = self.root
        best = None
        k = i
        while k < len(d):
            for c in d[k]:
                n = n.ch.get(c) if n.ch else None
                if n is None:
                    return best
            k += 1
            if n.val is not None:
                best = (k - i, n.val, n.cb)
            n = n.ch.get(SEP) if n.ch else None
            if n is None:
                return best
        return best


def decode(tabs, b):
    """a decoding phase: list of data, input errors"""
    out, err, i = [], 0, 0
    while i < len(b):
        for t in tabs:
            m = t.match_bytes(b, i)
            if m:
                out += m[1]
                i += m[0]
                break
        else:
            err += 1
            i += 1
    return out, err


def inter(tabs, d):
    out, i = [], 0
    while i < len(d):
        for t in tabs:
            m = t.match_data(d, i)
            if m:
                out += m[1]
                i += m[0]
                break
        else:
            out.append(d[i])
            i += 1
    return out


def encode(tabs, d):
    out, err, i = [], 0, 0
    while i < len(d):
        for t in tabs:
            m = t.match_data(d, i)
            if m:
                out += m[1]
                i += m[0]
                break
        else:
            err += 1
            i += 1
    return out, err


def table_only(tree):
    """{(kind, name): path} of the codecs that are nothing but a table, in the tree as built"""
    r = {}
    for kind in ("from", "inter", "to"):
        for n in tree.modules(kind):
            p = os.path.join(tree.root, "modules", kind, n + ".txt")
            if os.path.exists(p) and not os.path.exists(p[:-4] + ".c") and not os.path.exists(os.path.join(tree.share, kind, n + ".so")):
                r[(kind, n)] = p
    return r
