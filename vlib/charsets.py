"""The legacy character sets with a published mapping, and where bsdconv is meant to differ from Python's codecs."""
import json, lzma, os
from . import uni

SINGLE = ("CP1251", "CP1252", "CP1253", "CP1254", "CP1255", "CP1256", "CP1257", "CP1258", "CP874", "ISO-8859-1", "IBM-37")
FROM = {"CP1251": "cp1251", "CP1252": "cp1252", "CP1253": "cp1253", "CP1254": "cp1254", "CP1255": "cp1255", "CP1256": "cp1256", "CP1257": "cp1257", "CP1258": "cp1258",
        "CP874": "cp874", "ISO-8859-1": "latin-1", "IBM-37": "cp037",
        "CP932": "cp932", "CP936": "cp936", "CP949": "cp949", "CP950": "cp950", "SHIFT-JIS": "shift_jis", "GB2312": "gb2312", "GBK": "gbk", "HKSCS2004": "big5hkscs",
        "HKSCS1999": "big5hkscs", "HKSCS2001": "big5hkscs", "BIG5-ETEN": "big5", "BIG5-2003": "big5", "BIG5E": "cp950", "UAO250": "cp950", "UAO241": "cp950", "CCCII": None}
TO = {"CP1251": "cp1251", "CP1252": "cp1252", "CP1253": "cp1253", "CP874": "cp874", "ISO-8859-1": "latin-1", "IBM-37": "cp037", "CP936": "cp936", "CP949": "cp949", "CP950": "cp950",
      "SHIFT-JIS": "shift_jis", "GB2312": "gb2312", "GBK": "gbk", "UAO250": "cp950", "UAO241": "cp950", "CCCII": None}
_two = None


def codes(name):
    global _two
    one = [bytes([a]) for a in range(256)]
    if name in SINGLE:
        return one
    if name == "CCCII":
        return one
    if _two is None:
        _two = [bytes([a, b]) for a in range(0x80, 256) for b in range(256)]
    return one + _two


def universe():
    return [c for c in uni.assigned13()] + list(range(0xe000, 0xf900)) + [0xfdd0, 0xfffe, 0x378, 0xf0000, 0x10fffd]


def pydec(py, b):
    if py is None:
        return None
    try:
        return b.decode(py)
    except UnicodeDecodeError:
        return None


def pyenc(py, c):
    if py is None:
        return None
    try:
        return chr(c).encode(py)
    except UnicodeEncodeError:
        return None


def load():
    with lzma.open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "data", "charsets.json.xz"), "rt") as f:
        return json.load(f)
