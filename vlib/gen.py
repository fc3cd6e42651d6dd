"""Workload generators: conversion strings, inputs, chunkings."""
import random, re

HEXD = ["01", "0141", "010A", "0120", "01E9", "014E00", "01AC00", "011F600", "01FFFD", "0301", "03FF", "02", "022121",
        "1B5B6D", "00", "", "0", "014", "zz", "013F", "25", "2575", "5C78", "0100", "0141.0142", "0141.", ".", "0141..0142",
        "01000041", "011F6001", "0112345678", "011122334455"]
FILTERS = ["CJK", "UNICODE", "BYTE", "ANSI", "LATIN1", "PRINT", "HANGUL", "CNS11643", "1", "03", "nope", "", "HIRAGANA", "emoticon"]


def _kv(r, d):
    return "&".join(r.sample(d, min(len(d), r.choice([0, 1, 1, 1, 2, 3]))))


def args_for(r, kind, name):
    hx = r.choice
    H = lambda: hx(HEXD)
    F = lambda: hx(FILTERS)
    if name == "ANY":
        return r.choice(["", H(), H() + "&ERROR", "ERROR=" + r.choice(["FOO", "IERR", ""]), "DROP", "DROP&ERROR", H() + "&DROP"])
    if name == "PASS" and kind == "from":
        return _kv(r, ["UNMARK", "FOR=" + F(), "FOR"])
    if name == "PASS" and kind == "to":
        return _kv(r, ["MARK", "FOR=" + F(), "FOR"])
    if name == "PASS" and kind == "inter":
        return _kv(r, ["LIMIT=%d" % r.choice([0, 1, 2, 5]), "FOR=" + F(), "LIMIT=x", "FOR", "LIMIT"])
    if name == "_UTF-8":
        return _kv(r, ["CESU", "LOOSE", "NUL", "OVERLONG", "SUPER", "BAD"]) if kind == "from" else _kv(r, ["CESU", "NUL"])
    if name == "COUNT":
        return _kv(r, ["FOR=" + F(), "KEY", "IERR", "FOR"])
    if name == "INSERT":
        return _kv(r, ["AFTER=" + H(), "BEFORE=" + H(), "AFTER", "X"])
    if name == "REPLACE":
        return "&".join(r.choice([H() + "=" + H(), H()]) for _ in range(r.choice([1, 1, 2, 3])))
    if name == "SCORE":
        return _kv(r, ["WITH=CJK", "WITH=LATIN1", "WITH=nope", "AS=FOO", "AS", "WITH"])
    if name == "STRINGS":
        return _kv(r, ["FOR=" + F(), "MIN-LEN=%d" % r.choice([0, 1, 2, 4, 9]), "AFTER=" + H(), "BEFORE=" + H(), "MIN-LEN"])
    if name == "TRIM-WIDTH":
        return r.choice(["0", "1", "2", "3", "7", "10", "10&AMBI-AS-WIDE", "4&AMBIGUOUS-AS-WIDE", "x", "", "-1", "5&5"])
    if name == "BSDCONV-OUTPUT":
        return ""
    if name == "ESCAPE" and kind == "to":
        return _kv(r, ["PREFIX=" + H(), "SUFFIX=" + H(), "MODE=" + r.choice(["8", "10", "16", "OCT", "DEC", "HEX", "7"]),
                       "FOR=" + r.choice(["UNICODE", "BYTE", "1", "03", "CJK"]), "MODE", "FOR", "PREFIX"])
    return ""


def arg_variants(kind, name):
    """Every combination of the options a codec documents, over a few values each."""
    import itertools
    def prod(*ax):
        return ["&".join(x for x in c if x) for c in itertools.product(*ax)]
    H = ["01", "0141", "0112345678", "014E2D.016587.0141.0142", "03FF", ""]
    FL = ["CJK", "UNICODE", "BYTE", "PRINT"]
    if (kind, name) == ("to", "ESCAPE"):
        return prod(["", "MODE=8", "MODE=10", "MODE=16"], ["", "PREFIX=5C", "PREFIX="], ["", "SUFFIX=7D", "SUFFIX=%s" % ("AB" * 40)], ["", "FOR=UNICODE", "FOR=BYTE"])
    if name == "_UTF-8":
        return prod(["", "CESU"], ["", "NUL"]) + ([] if kind == "to" else prod(["", "CESU"], ["", "LOOSE", "OVERLONG", "SUPER", "OVERLONG&SUPER&CESU&NUL"]))
    if name == "ANY":
        return prod(H, ["", "ERROR", "ERROR=IERR"]) + ["DROP"]
    if name == "PASS" and kind != "inter":
        return prod(["", "MARK" if kind == "to" else "UNMARK"], [""] + ["FOR=" + f for f in FL])
    if name == "PASS":
        return prod(["", "LIMIT=0", "LIMIT=3"], [""] + ["FOR=" + f for f in FL])
    if name == "COUNT":
        return prod([""] + ["FOR=" + f for f in FL], ["", "KEY=K"])
    if name == "INSERT":
        return prod([""] + ["AFTER=" + h for h in H], [""] + ["BEFORE=" + h for h in H])
    if name == "REPLACE":
        return [a + "=" + b for a in H[:5] for b in H] + ["0141=0142&0142=0141&0143", "01=&02=01&03="]
    if name == "SCORE":
        return prod([""] + ["WITH=" + x for x in ("CJK", "LATIN1")], ["", "AS=K"])
    if name == "STRINGS":
        return prod(["FOR=" + f for f in FL], ["", "MIN-LEN=0", "MIN-LEN=1", "MIN-LEN=5"], ["", "AFTER=010A", "AFTER=0141.0142"], ["", "BEFORE=0120.0120"])
    if name == "TRIM-WIDTH":
        return [n + a for n in ("0", "1", "2", "7", "100000") for a in ("", "&AMBI-AS-WIDE")]
    return [""]


def boundary_data():
    """Internal data at the edges: every type byte, lengths to 9, extreme and ordinary contents."""
    out = [b""]
    for t in list(range(0x08)) + [0x1a, 0x1b, 0x1c, 0x20, 0x7f, 0x80, 0xff]:
        for n in range(0, 10):
            for v in (0x00, 0x01, 0x0f, 0x10, 0x20, 0x40, 0x41, 0x7f, 0x80, 0xa1, 0xd8, 0xff):
                out.append(bytes([t] + [v] * n))
                if n > 1:
                    out.append(bytes([t, v] + [0xff] * (n - 1)))
                    out.append(bytes([t, v] + [0] * (n - 1)))
                    out.append(bytes([t] + [0xff] * (n - 1) + [v]))
    for c in (0, 1, 0x7f, 0x80, 0xff, 0x100, 0x3ff, 0x7ff, 0x800, 0xd7ff, 0xd800, 0xdbff, 0xdc00, 0xdfff, 0xe000, 0xfffd, 0xffff, 0x10000, 0x1ffff, 0xfffff, 0x10ffff, 0x110000, 0xffffff):
        out.append(b"\x01" + c.to_bytes(max(1, (c.bit_length() + 7) // 8), "big"))
    return sorted(set(out))


EXPAND = re.compile(r"IMG|INFO", re.I)
SKIP = {("to", "BSDCONV-OUTPUT")}      # writes to the process's own stdout


class Convs:
    def __init__(self, tree, r, bad=0.03):
        self.m = {k: tree.modules(k) for k in ("from", "inter", "to")}
        self.alias = {}
        for k in ("from", "inter", "to"):
            al = []
            for ln in open("%s/%s/alias" % (tree.share, k)):
                if ln.strip() and not ln.startswith("#") and "\t" in ln:
                    al.append(ln.split("\t")[0])
            self.alias[k] = al
        self.r = r
        self.bad = bad
        self.used = {}

    def codec(self, kind):
        r = self.r
        while True:
            if r.random() < 0.25:
                n = r.choice(self.alias[kind])
            else:
                n = r.choice(self.m[kind])
            if (kind, n) in SKIP or (kind, n.upper()) == ("to", "BSDCONV-STDOUT"):
                continue
            break
        self.used[(kind, n)] = self.used.get((kind, n), 0) + 1
        a = args_for(r, kind, n)
        if not a and r.random() < self.bad:
            a = r.choice(["X", "=", "&", "FOR=CJK", "0141", "a=b&c"])
        if r.random() < 0.05:
            n = n.lower()
        return n + ("#" + a if a else "")

    def phase(self, kind):
        n = self.r.choice([1, 1, 1, 1, 2, 2, 3])
        return ",".join(self.codec(kind) for _ in range(n))

    def segment(self, maxinter=3):
        r = self.r
        ph = [self.phase("from")]
        for _ in range(r.choice([0, 0, 1, 1, 2, maxinter])):
            ph.append(self.phase("inter"))
        ph.append(self.phase("to"))
        return ":".join(ph)

    def conv(self):
        while True:
            c = self._conv()
            if len(EXPAND.findall(c)) < 2:      # each multiplies the output by a hundred
                return c

    def _conv(self):
        n = self.r.choice([1, 1, 1, 1, 1, 2, 2, 3])
        if self.r.random() < 0.05:
            return self.phase("inter")
        return "|".join(self.segment() for _ in range(n))


TEXTS = [
    "Hello, World!", "abc", "", "a", "\n", "\r\n", "a\r\nb\nc\rd", "café", "naïve résumé",
    "中文測試", "測試中文字", "简体字转换", "日本語テキスト", "ひらがな", "カタカナ", "ｶﾀｶﾅ", "한국어 조선글", "각",
    "Ελληνικά", "Русский текст", "עברית", "العربية", "ไทย", "😀🎉", "𠀀𠮷", "e\u0301a\u0308\u0323", "\u1100\u1161\u11a8",
    "\u0344\u0958", "ﬁ", "ＦＵＬＬ　ｗｉｄｔｈ", "<b>&amp;&#x4e2d;&#20013;&eacute;</b>", "%u4E2D%41\\u4e2d\\x41\\101",
    "\x1b[1;31mred\x1b[0m", "\x00\x01\x02", "\ufeffbom", "“quotes”—…", "①②③", "★☆", "±×÷", "$€¥", "\u3000 \t ",
    "表示", "許功蓋", "裡里裏", "软件 軟體 鼠标", "0123456789", "ÿþ", "\u00a0\u00ad", "\U0010ffff", "\ue000\uf8ff",
]
ENC = ["utf-8", "utf-16-le", "utf-16-be", "utf-32-le", "utf-32-be", "big5", "cp950", "gbk", "gb18030", "shift_jis", "cp932", "iso2022_jp",
       "iso2022_jp_1", "euc_kr", "cp949", "latin-1", "cp1252", "cp1251", "cp037", "big5hkscs", "cp874"]
SPECIAL = [b"\x1b$B", b"\x1b(B", b"\x1b(I", b"\x1b$(D", b"\x0e", b"\x0f", b"&#", b"&#x", b";", b"%u", b"\\u", b"\\x", b"%", b"\\",
           b"\xff\xfe", b"\xfe\xff", b"\xef\xbb\xbf", b"\xed\xa0\x80", b"\xed\xb0\x80", b"\xc0\x80", b"\xf4\x90\x80\x80", b"\xf0\x82\x82\xac",
           b"\xd8\x3d", b"\xdc\x00", b"\x3d\xd8", b"\x00", b"\x81\x30\x81\x30", b"\x84\x31\xa4\x37", b"\xfa\x40", b"\x8e\x40", b"\xc6\xa1",
           b"0141", b"014E2D", b"01", b"03FF", b"022121", b"1B5B6D", b"BSD", b"&lt;", b"&amp", b"\x1b[", b"\x1b[31m", b"\x1bO", b"\xc8\x7f",
           b"\xf8\x88\x80\x80\x80", b"\xfc\x84\x80\x80\x80\x80", b"\xe3\x81", b"\xf0\x9f", b"\xe2", b"\x8f", b"\xa1\xa1", b"\x88\x62", b"\x80", b"%u0000", b"\\777", b"&#0;", b"\\u0000"]


def text(r):
    return "".join(r.choice(TEXTS) for _ in range(r.choice([1, 1, 2, 3])))


def payload(r, maxlen=None):
    """A byte string: encoded text, tokens, noise, or a mutation of such."""
    k = r.random()
    if k < 0.40:
        e = r.choice(ENC)
        b = text(r).encode(e, "ignore")
    elif k < 0.55:
        b = b"".join(r.choice(SPECIAL + [t.encode() for t in ("a", "é", "中", "😀")]) for _ in range(r.randrange(1, 10)))
    elif k < 0.70:
        b = bytes(r.randrange(256) for _ in range(r.choice([1, 2, 3, 4, 6, 9, 17, 40])))
    elif k < 0.78:
        b = b"".join(bytes([r.choice([0x81, 0x84, 0xa1, 0xb0, 0xd8, 0xe3, 0xf0, 0xfe]), r.randrange(256)]) for _ in range(r.randrange(1, 9)))
    elif k < 0.86:
        b = "".join(r.choice(["01", "03", "02", "1B", "41", "4E2D", "1F600", ",", "\n", " ", "G", "0"]) for _ in range(r.randrange(1, 12))).encode()
    elif k < 0.9:
        b = b""
    else:
        b = bytes(r.choice(b"&#x;%u\\<>0123456789abcdefABCDEF\r\n\t ") for _ in range(r.randrange(1, 30)))
    if r.random() < 0.35 and b:
        b = bytearray(b)
        for _ in range(r.choice([1, 1, 2, 4])):
            op = r.random()
            i = r.randrange(len(b)) if b else 0
            if op < 0.4 and b:
                b[i] = r.randrange(256)
            elif op < 0.7 and b:
                del b[i]
            elif b:
                b[i:i] = r.choice(SPECIAL)
        b = bytes(b)
    if maxlen is not None:
        b = b[:maxlen]
    return b


def split(r, b, how=None):
    """A partition of b into chunks (empty chunks allowed)."""
    if len(b) > 3000 and not how:
        from . import scale
        return scale.cut(r, b)
    how = how or r.choice(["bytes", "rand", "rand", "half", "empties"])
    if how == "bytes":
        return [b[i:i + 1] for i in range(len(b))] or [b""]
    if how == "half":
        k = r.randrange(len(b) + 1)
        return [b[:k], b[k:]]
    out = []
    i = 0
    while i < len(b):
        n = r.choice([1, 1, 1, 2, 3, 5, 8])
        if how == "empties" and r.random() < 0.3:
            out.append(b"")
        out.append(b[i:i + n])
        i += n
    return out or [b""]


# ---- meaningful work: text in a known encoding, through stateful conversions
RICH = ["ascii", "latin", "combining", "hangul", "kana", "halfkana", "han", "space", "ambig", "astral", "symbol", "newline", "entity", "ctrl", "any", "greekcyr", "compat"]
HAN = "中文測試字简体转换日本語漢裡里裏软件軟體鼠标滑鼠東亞亚台臺灣湾発發髪发後后干乾幹面麵鐘鍾钟表示許功蓋的一是不了人我在有他这這来來到时時大地为為子中你說说生国國年着著就那和要她出也得里後自以会會"
MARKS = "\u0300\u0301\u0302\u0308\u0323\u0327\u0328\u0331\u0345\u05b0\u05bc\u0591\u064b\u0651\u3099\u309a\u0f71\u0f72\u1dce\u20d0"
BASES = "aeiouAEIOUcnsyzCNSYZ\u00e9\u00fc\u1e69\u01d5\u0391\u03c9\u0439\u3046\u304b\u30ab\u1100\u0915\u05d0\u0627"


def rich_char(r, k=None):
    k = k or r.choice(RICH)
    if k == "ascii":
        return chr(r.randrange(0x20, 0x7f))
    if k == "latin":
        return chr(r.randrange(0xa0, 0x250))
    if k == "combining":
        return r.choice(BASES) + "".join(r.choice(MARKS) for _ in range(r.choice([1, 1, 2, 3])))
    if k == "hangul":
        return r.choice([chr(r.randrange(0xac00, 0xd7a4)), "\u1100\u1161", "\u1112\u1175\u11c2", "\u1100", "\u11a8", "가\u11a8", "\u3131"])
    if k == "kana":
        return chr(r.randrange(0x3041, 0x3097) + r.choice([0, 0x60]))
    if k == "halfkana":
        return chr(r.randrange(0xff61, 0xffa0))
    if k == "han":
        return r.choice(HAN) if r.random() < 0.7 else chr(r.randrange(0x4e00, 0x9fa6))
    if k == "space":
        return r.choice(" \t  \u3000\u00a0")
    if k == "ambig":
        return r.choice("±×÷°§¨­·αβгд—…“”①②★☆■□♪\u2103\ue000Ω")
    if k == "astral":
        return r.choice(["😀", "𠀀", "\U0010ffff", "\U0001d400", "\U0002f800", chr(r.randrange(0x10000, 0x110000))])
    if k == "symbol":
        return r.choice("€™©®½⅓ﬁﬃ㎏㍿℃Å①⑴ⅳ")
    if k == "newline":
        return r.choice(["\n", "\r\n", "\r", "\n\n"])
    if k == "entity":
        return r.choice(["&amp;", "&#20013;", "&#x4e2d;", "\\u4e2d", "%41", "\\x41", "%u4E2D", "&", "\\", "%", "<", ">", '"', ";", "&eacute;"])
    if k == "ctrl":
        return chr(r.randrange(0x00, 0x20))
    if k == "greekcyr":
        return chr(r.choice([r.randrange(0x391, 0x3ca), r.randrange(0x400, 0x460)]))
    if k == "compat":
        return chr(r.choice([r.randrange(0xff01, 0xff5f), r.randrange(0xf900, 0xfa2e), r.randrange(0x3380, 0x33de), r.randrange(0x2460, 0x24ff)]))
    while True:
        c = r.randrange(0x110000)
        if not 0xd800 <= c < 0xe000:
            return chr(c)


def rich(r, n=None):
    n = n if n is not None else r.choice([0, 1, 2, 3, 5, 8, 13, 20])
    ks = r.sample(RICH, r.choice([1, 2, 3, 5]))
    return "".join(rich_char(r, r.choice(ks)) for _ in range(n))


FROMENC = {"UTF-8": "utf-8", "UTF-16LE": "utf-16-le", "UTF-16BE": "utf-16-be", "UTF-32LE": "utf-32-le", "UTF-32BE": "utf-32-be", "CP950": "cp950",
           "GB18030": "gb18030", "GBK": "gbk", "CP936": "gbk", "CP932": "cp932", "SHIFT-JIS": "shift_jis", "CP949": "cp949", "BIG5": "big5hkscs",
           "JIS": "iso2022_jp_1", "CP1252": "cp1252", "ISO-8859-1": "latin-1", "CP874": "cp874", "IBM-37": "cp037", "UAO250": "big5", "HKSCS2004": "big5hkscs",
           "CP1251": "cp1251", "GB2312": "gb2312"}
# phases in between which keep state over several characters
STATEFUL = ["NFC", "NFD", "NFKC", "NFKD", "NFKD-CASEFOLD", "UNIX", "WIN", "MAC", "NL2BR", "ZHTW", "ZHCN", "ZHTW-WORDS", "ZH-FUZZY-TW", "ZH-FUZZY-CN", "FULL", "HALF",
            "UPPER", "LOWER", "CASEFOLD", "KANJI", "KANA-PHONETIC", "WHITESPACE-DERAIL", "WHITESPACE-RERAIL", "WHITESPACE-DERAIL:NFC:WHITESPACE-RERAIL",
            "WHITESPACE-DERAIL:ZHTW:WHITESPACE-RERAIL", "AMBIGUOUS-PAD", "AMBIGUOUS-UNPAD", "AMBIGUOUS-PAD:AMBIGUOUS-UNPAD", "WIDTH", "COUNT", "COUNT#FOR=CJK&KEY=X", "STRINGS#MIN-LEN=2&FOR=CJK",
            "STRINGS#FOR=PRINT&MIN-LEN=3&AFTER=012C", "STRINGS#FOR=UNICODE&MIN-LEN=4&BEFORE=015B&AFTER=015D", "REPLACE#0161=0162", "REPLACE#014E2D.016587=0158", "REPLACE#0161.0162=0178&0163=0179.017A",
            "INSERT#AFTER=012C", "INSERT#BEFORE=0128&AFTER=0129", "SPLIT", "NOBOM", "PASS#LIMIT=3&FOR=CJK,UPPER", "PASS#LIMIT=3&FOR=CJK,ANY#013F", "PASS#LIMIT=2,FULL,UPPER", "TRIM-WIDTH#7", "TRIM-WIDTH#4&AMBI-AS-WIDE", "ZH-BONUS", "ZH-BONUS-PHRASE", "SCORE#WITH=CJK",
            "ASCIIFOLD", "UPSIDEDOWN", "SUB", "SUPER", "HANJA", "PASS", "BMP-TRANS-TW", "ANY#013F", "ALIAS-FROM", "ALIAS-TO"]
TOENC = ["UTF-8", "UTF-8", "UTF-8", "UTF-16LE", "UTF-16BE", "UTF-32BE", "BSDCONV", "BSDCONV", "CP950", "GB18030", "GBK", "SHIFT-JIS", "CP949", "JIS", "CP1252", "ASCII,3F",
         "HTMLENTITY,ASCII", "JAVA,ASCII", "ASCII,JAVA", "NAMED-HTMLENTITY,HTMLENTITY,ASCII", "IBM-930,IBM-37", "IBM-935", "CP950-TRANS,CP950,ASCII", "CP936-TRANS,CP936", "ASCII-NAMED-HTML-ENTITY,UTF-8",
         "UTF-8,BYTE", "URL", "UCS-2LE", "RAW", "HEX", "ASCII-DEC-NUMERIC-HTML-ENTITY,ASCII", "UTF-8#CESU", "PASS#MARK&FOR=CJK,ASCII", "NULL"]


def paired(r, pipes=True):
    """A sensible conversion and input that mostly decodes: (conv, bytes, text)"""
    f = r.choice(list(FROMENC))
    k = r.random()
    fr = f
    if k < 0.12:
        fr = f + "," + r.choice(["BYTE", "ANY#013F", "ISO-8859-1", "CP1252", "PASS", "UTF-8", "FALLBACK-UNICODE"])
    elif k < 0.3 and f == "UTF-8":
        fr = r.choice(["HTMLENTITY,UTF-8", "ESCAPE,UTF-8", "NAMED-HTMLENTITY,HTMLENTITY,UTF-8", "ANSI-CONTROL,UTF-8", "UTF-8#CESU,UTF-8", "ESCAPE,HTMLENTITY,UTF-8,BYTE"])
    txt = rich(r)
    b = txt.encode(FROMENC[f], "ignore")
    if r.random() < 0.15 and b:
        b = bytearray(b)
        i = r.randrange(len(b))
        if r.random() < 0.5:
            del b[i]
        else:
            b[i] = r.randrange(256)
        b = bytes(b)
    ph = [fr]
    for _ in range(r.choice([0, 1, 1, 1, 2, 3])):
        ph.append(r.choice(STATEFUL))
        if r.random() < 0.15:
            ph[-1] = ph[-1] if ":" in ph[-1] else ph[-1] + "," + r.choice([x for x in STATEFUL if ":" not in x])
    ph.append(r.choice(TOENC))
    cv = ":".join(ph)
    if pipes and r.random() < 0.15:
        back = {"UTF-8": "UTF-8", "UTF-16LE": "UTF-16LE", "UTF-16BE": "UTF-16BE", "UTF-32BE": "UTF-32BE", "BSDCONV": "BSDCONV", "CP950": "CP950", "GB18030": "GB18030", "JAVA,ASCII": "ESCAPE,ASCII"}
        if ph[-1] in back:
            cv += "|" + back[ph[-1]] + ":" + r.choice(STATEFUL + [""] * 20) + ":" + r.choice(TOENC)
            cv = cv.replace("::", ":")
    return cv, b, txt


def work_item(C, r, maxlen=60, paired_share=0.65):
    """(conv, input) for the differential checks"""
    if r.random() < paired_share:
        cv, b, _ = paired(r)
        return cv, b[:maxlen]
    return C.conv(), payload(r, maxlen)
