"""What each filter and scorer admits, from data independent of the tree (Unicode 13 blocks)."""
import bisect, json, os

_D = json.load(open(os.path.join(os.path.dirname(__file__), "data", "filters.json")))
RANGES = {f: sorted(tuple(_D["blocks"][b]) for b in bl) for f, bl in _D["filters"].items()}
RANGES["PRINT"] = [(0x20, 0x7e)]
RANGES["ROMAN"] = [(0x30, 0x39), (0x41, 0x5a), (0x61, 0x7a)]
RANGES["LATIN1"] = [(0x0, 0x80), (0x82, 0x8c), (0x8e, 0x8e), (0x91, 0x9c), (0x9e, 0xff)]
TYPES = {"UNICODE": 1, "CNS11643": 2, "BYTE": 3, "ANSI": 0x1b}
ALIASES = {"01": "UNICODE", "1": "UNICODE", "02": "CNS11643", "2": "CNS11643", "03": "BYTE", "3": "BYTE", "1B": "ANSI"}
SCORES = {
    "CJK": [(0, 0x7f, 4), (0x3000, 0x303f, 4), (0x3040, 0x309f, 5), (0x30a0, 0x30ff, 5), (0x3100, 0x312f, 4), (0x3400, 0x4db5, 3), (0x4e00, 0x6fff, 5), (0x7000, 0x9fa5, 4), (0x9fa6, 0x9fbb, 3), (0xac00, 0xd7af, 3),
            (0xf900, 0xfa2d, 4), (0xfa30, 0xfa6a, 4), (0xfa70, 0xfad9, 2), (0xff00, 0xffef, 3), (0x20000, 0x2a6d6, 1), (0x2f800, 0x2fa1d, 1)],
    "LATIN1": [(a, b, 2) for a, b in RANGES["LATIN1"]],
}
NAMES = sorted(RANGES) + sorted(TYPES)


def find(rs, c):
    i = bisect.bisect_right(rs, c, key=lambda t: t[0]) - 1
    return rs[i] if i >= 0 and c <= rs[i][1] else None


def admits(name, datum):
    """datum: type byte and data"""
    name = ALIASES.get(name.upper(), name.upper())
    if name in TYPES:
        return len(datum) > 0 and datum[0] == TYPES[name]
    return len(datum) > 0 and datum[0] == 1 and find(RANGES[name], int.from_bytes(datum[1:], "big")) is not None


def score(name, datum):
    if not datum or datum[0] != 1:
        return 0
    f = find(SCORES[name.upper()], int.from_bytes(datum[1:], "big"))
    return f[2] if f else 0
