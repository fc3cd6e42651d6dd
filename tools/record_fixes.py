#!/usr/bin/env python3
"""Rewrites the "fixed" records of known_findings.jsonl from /repo's history (the "known" ones stay)."""
import json, os, subprocess, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
RULES = [("memory grew|without bound", "C30"), ("descriptor output lost", "C05"), ("_JIS|EBCDIC|_GB18030: a second byte", "C26"), ("bsdconv -i", "C27"), ("UPPER, LOWER", "C28"), ("missing was created", "C25"), ("bsdconv_pack", "C21"), ("codec names with dots|not ASCII were left out", "C22"), ("reported the counters|ended with 0", "C24"),
         ("PRINT filter|BONUS", "C20"), ("euro sign|_HKSCS2004|IBM-37|GB2312|_CP1253", "C14"), ("entry without output", "C09"), ("mktable", "C10"), ("leak", "C03"), ("crash", "C01"), ("freed", "C01"), ("overflow", "C01"), ("wrote outside", "C21"), ("one element past", "C01"),
         ("reading|read .*after free", "C01"), ("bsdconv -i", "C27"), ("hash_get", "C23"), ("UTF-8|UTF-16|UTF-32", "C08"), ("GB18030|JIS|CP950-UDA|IBM-930", "C26"),
         ("ESCAPE|entities", "C15"), ("WHITESPACE|rail", "C18"), ("HANGUL|_NF", "C13"), ("BIG5-DEFRAG", "C04"), ("UNPAD", "C17"), ("STRINGS|REPLACE|INSERT", "C19"),
         ("chunk boundary", "C04"), ("abandoned|across bsdconv_init", "C06"), ("BSDCONV_PASS", "C05"), ("flush callback|flush", "C04"), ("working directory", "C22"),
         ("shared object|realpath", "C25"), ("sequence no codec encodes", "C11"), ("bsdconv_ctl", "C11")]
KEEP = []
kf = os.path.join(V, "known_findings.jsonl")
if os.path.exists(kf):
    KEEP = [l for l in open(kf) if l.strip() and json.loads(l).get("status") == "known"]
out = []
log = subprocess.check_output(["git", "-C", "/repo", "log", "--reverse", "--format=%h|%s", "ea78cef..", "--grep=^fix:"], text=True)
for ln in log.splitlines():
    h, s = ln.split("|", 1)
    s = s[5:]
    p = "C01"
    for k, v in RULES:
        if re.search(k, s):
            p = v
            break
    out.append(json.dumps(dict(property=p, status="fixed", commit=h, record="fixed: property=%s %s %s" % (p, h, s))) + "\n")
open(kf, "w").writelines(KEEP + out)
