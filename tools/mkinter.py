#!/usr/bin/env python3
"""Development tool (no check runs it): writes vlib/data/inter.json.xz, the reviewed transliteration tables C28 has no other reference for."""
import json, lzma, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
from vlib import build
NAMES = ["ASCIIFOLD", "BMP-TRANS-CN", "BMP-TRANS-TW", "HANJA", "KANJI", "KANA-PHONETIC", "UPSIDEDOWN", "ZH-FUZZY-CN", "ZH-FUZZY-TW", "ZHCN", "ZHTW", "ZHTW-WORDS", "SUPER", "SUB"]
doc = {}
for n in NAMES:
    d = {}
    for l in open(os.path.join(build.REPO, "modules/inter", n + ".txt"), encoding="utf-8", errors="replace"):
        l = l.split("#")[0].split()
        if len(l) < 2:
            continue
        k, v = ["".join(chr(int(x[2:], 16)) for x in y.split(",")) for y in l[:2]]
        assert all(x.startswith("01") for x in (l[0] + "," + l[1]).split(",")), l
        d.setdefault(k, v)
    doc[n] = d
    print(n, len(d), max(map(len, d)))
for n in ("CP936", "CP950"):
    d = {}
    for l in open(os.path.join(build.REPO, "modules/to", n + "-TRANS.txt"), encoding="utf-8"):
        l = l.split("#")[0].split()
        if len(l) < 2:
            continue
        d.setdefault("".join(chr(int(x[2:], 16)) for x in l[0].split(",")), l[1].replace(",", ""))
    # every code must be one of the character set, and no character one it has a code of its own for
    for k, v in d.items():
        bytes.fromhex(v).decode(n)
        assert k.encode(n, "ignore") == b"", (n, k)
    doc["to:" + n + "-TRANS"] = d
    print(n, len(d), max(map(len, d)))
with lzma.open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "vlib", "data", "inter.json.xz"), "wt", preset=9, encoding="utf-8") as f:
    json.dump(doc, f, sort_keys=True, ensure_ascii=False)
