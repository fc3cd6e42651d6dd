"""C07: instances do not influence each other, interleaved (differential) or in parallel (TSan)."""
import os, subprocess, tempfile
from vlib import gen, scale, work
from vlib.driver import Crash, hx, un, classify


def run(ck):
    r = ck.r
    ck.rule = ("(1) 2..8 (now and then up to 1000) open instances, half of the time of the same conversion, are fed in a random interleaving (with creations, destructions and initialisations of others in between); each must give the "
               "bytes and counters it gives alone; (2) 4..8 threads create, use and destroy instances under ThreadSanitizer with random chunking and yields; every result must equal the sequential "
               "one and no race may be reported.  Non-trivial: distinct interleavings (sequence of slot numbers and inputs), and thread runs with completed conversions")
    ck.assumptions = ["bsdconv_create and bsdconv_destroy change process state (working directory, dynamic loader) and are serialised by the caller, as the threads here do; conversions run concurrently with them",
                      "the schedules explored are those the kernel and the random yields produce"]
    # --- interleaving
    for variant, quick in (("plain", 16000), ("asan", 5000)):
        t = ck.tree(variant)
        C = gen.Convs(t, r)
        home = work.Home()
        cases, meta = [], []
        crowds = [33, 65, 129, 257, 300, 600, 1000] if variant == "plain" else [130, 260]
        for far in [None] * ck.n(quick, quick * 8) + scale.pick(r, 99) * ck.n(2, 10) + [-c for c in crowds] * ck.n(1, 4):
            k = r.choice([2, 2, 3, 4, 8])
            if far and far < 0:        # a crowd
                k, far = -far, None
            its = [gen.work_item(C, r, 40, 0.75) for _ in range(k)]
            if far and not gen.EXPAND.search(its[0][0] + its[1][0]):
                its = its[:2]
                k = 2
                its[0] = (its[0][0], scale.text(r, far, gen.FROMENC.get(its[0][0].split(":")[0].split(",")[0], "utf-8")))
            if r.random() < 0.5:
                its = [(its[0][0], b if r.random() < .5 else its[0][1]) for _, b in its]
            if r.random() < 0.3:       # codecs that share code, not state
                fam = r.choice([["CP950:WHITESPACE-DERAIL:NFC:WHITESPACE-RERAIL:UTF-8", "UTF-8:WHITESPACE-DERAIL:WHITESPACE-RERAIL:UTF-8"], ["JIS:UTF-8", "JIS:NFD:UTF-8"],
                                ["IBM-930,IBM-37:UTF-8", "UTF-8:IBM-930", "UTF-8:IBM-935", "IBM-935:UTF-8"], ["UTF-8:WIDTH:UTF-8", "UTF-8:TRIM-WIDTH#5:UTF-8"], ["GB18030:UTF-8", "UTF-8:GB18030"],
                                ["UTF-8:NFC:UTF-8", "UTF-8:NFD:UTF-8", "UTF-8:_NF-ORDER:UTF-8"], ["UTF-8:COUNT:UTF-8", "UTF-8:COUNT#FOR=CJK:UTF-8"], ["UTF-8:ZH-BONUS-PHRASE:UTF-8", "UTF-8:ZH-BONUS:UTF-8"],
                                ["BSDCONV:BSDCONV", "BSDCONV:UTF-8"], ["UTF-8:STRINGS#MIN-LEN=2:UTF-8", "UTF-8:STRINGS#MIN-LEN=3&FOR=CJK:UTF-8"], ["UTF-8:REPLACE#0161=0162:UTF-8", "UTF-8:REPLACE#0161.0162=0163:UTF-8"]])
                its = [(r.choice(fam), b) for _, b in its]
            L = []
            plan = []
            for s, (cv, b) in enumerate(its):
                ch = gen.split(r, b)
                plan.append([("F", c, 0) for c in ch] + [("F", None, 1)])
            # all creations first, or as they are needed
            lazy = r.random() < 0.4
            alive = set()
            if not lazy:
                for s, (cv, b) in enumerate(its):
                    L += ["N %d %s" % (s, hx(cv)), "I %d" % s]
                    alive.add(s)
            out = {s: [] for s in range(k)}
            order = []
            rr = {}
            while any(plan):
                s = r.choice([i for i in range(k) if plan[i]])
                if s not in alive:
                    L += ["N %d %s" % (s, hx(its[s][0])), "I %d" % s]
                    alive.add(s)
                _, c, fl = plan[s].pop(0)
                L.append(work.feed(s, "A", fl, c, 0, r.choice([0, 1])))
                out[s].append(len(L) - 1)
                order.append(s)
                if fl:
                    L.append("R %d" % s)
                    rr[s] = len(L) - 1
                    if r.random() < 0.5:
                        L.append("D %d" % s)
                        alive.discard(s)
                if r.random() < (0.05 if k < 9 else .002):
                    L += ["N 1020 " + hx(r.choice(its)[0]), "I 1020"] + ([work.feed(1020, "A", 0, gen.payload(r, 20))] if r.random() < .5 else []) + ["D 1020"]
            for s in sorted(alive):
                L.append("D %d" % s)
            alone = len(L)
            for s, (cv, b) in enumerate(its):
                L += ["N 1021 " + hx(cv), "I 1021"] + [L[i].replace("F %d " % s, "F 1021 ", 1) for i in out[s]] + ["R 1021", "D 1021"]
            cases.append(L)
            meta.append((its, out, rr, alone, tuple(order)))
        for L, x, (its, out, rr, alone, order) in zip(cases, ck.run(variant, cases, env=home.env(t)), meta):
            ck.saw((order, tuple(its)))
            if isinstance(x, Crash):
                ck.crash(x, "interleaving of %r" % (its,), commands=L)
                continue
            p = alone
            for s in range(len(its)):
                n = len(out[s])
                a = [x[i] for i in out[s]] + [x[rr[s]]]
                b = x[p + 2:p + 3 + n]
                p += 4 + n
                if a != b:
                    ck.violation("interleaved:" + its[s][0], "%s next to %r gives %r, alone %r" % (its[s], [i[0] for i in its], a, b), commands=L)
        home.done()
        ck.cov["interleavings_" + variant] = len(cases)
        ck.cov["max_instances_open"] = max(crowds)
    ck.sample(dict(instances=[i[0] for i in meta[-1][0]], order=meta[-1][4]))
    # --- threads
    t = ck.tree("tsan")
    home = work.Home()
    thr = os.path.join(t.root, "build", "thr")
    calls = jobs = 0
    # every codec with code of its own, a few to a run so that its threads meet in them; then any conversions
    own = [(k, m) for k in ("from", "inter", "to") for m in t.modules(k) if os.path.exists(os.path.join(t.share, k, m + ".so")) and (k, m) not in gen.SKIP and "LOG" not in m and "TRAIN" not in m and m != "PASS"]
    own += [("filter", m) for m in t.modules("filter")] + [("scorer", m) for m in t.modules("scorer") if m != "TRAINED"]
    r.shuffle(own)
    groups = [own[i:i + 4] for i in range(0, len(own), 4)]
    wide = "aZ é中漢文字體台灣각カﾊﾟＡα\u0301 <>&;\U0001f600\u3000\r\n 12%u4e2d &#x4e2d; 一乙丁七"

    def around(k, m):
        """conversions with this codec, and data it has something to do with"""
        a = gen.args_for(r, k, m) if r.random() < 0.7 else ""
        a = a or {"REPLACE": "0161=0162", "TRIM-WIDTH": "3"}.get(m, "") if k == "inter" else a
        c = m + ("#" + a if a else "")
        txt = "".join(r.choice(wide) for _ in range(r.choice([4, 12, 30])))
        if k == "from":
            b = txt.encode(r.choice(["utf-8", "gb18030", "big5hkscs", "iso2022_jp_2", "utf-16-le", "cp037", "utf-7"]), "ignore")
            return r.choice(["%s:UTF-8", "%s,BYTE:UTF-8,BYTE", "%s,UTF-8:UTF-16LE,BYTE"]) % c, r.choice([b, b, b"\x0e" + b[:len(b) & ~1] + b"\x0f", b"\x1b$B" + b + b"\x1b(B", gen.payload(r, 40)])
        b = txt.encode()
        if k == "inter":
            return r.choice(["UTF-8:%s:UTF-8", "UTF-8,BYTE:%s:BSDCONV", "ANSI-CONTROL,UTF-8,BYTE:%s:BSDCONV"]) % c, b
        if k == "to":
            return r.choice(["UTF-8:%s", "UTF-8,BYTE:%s,HEX", "UTF-8:NFD:%s,UTF-8,BYTE"]) % c, b
        if k == "filter":
            return r.choice(["UTF-8:COUNT#FOR=%s:UTF-8", "UTF-8:STRINGS#FOR=%s&MIN-LEN=2:UTF-8", "UTF-8:PASS#FOR=%s,UTF-8"]) % m, b
        return "UTF-8:SCORE#WITH=%s:UTF-8" % m, b

    for n in range(ck.n(8, 60) + len(groups) * ck.n(1, 6)):
        its = []
        if n >= ck.n(8, 60):
            its = [around(k, m) for k, m in groups[n % len(groups)] for _ in range(3)]
        while n < ck.n(8, 60) and len(its) < 24:
            if r.random() < 0.8:
                cv, b, _ = gen.paired(r)
                cv, b = cv, b[:80]
            else:
                cv, b = C.conv(), gen.payload(r, 80)
            seg = cv.split("|")[0].split(":")
            if len(seg) < 2 or any(c.split("#")[0].upper() in ("PASS", "SKIP") for c in seg[0].split(",")) or "LOG" in cv.upper() or "TRAIN" in cv.upper():
                continue
            its.append((cv, b))
        inp = "".join("%s %s\n" % (cv.encode().hex(), b.hex() or ".") for cv, b in its).encode()
        try:
            p = subprocess.run([thr, str(r.choice([4, 6, 8])), str(ck.n(12, 40) if len(its) > 12 else 10), str(ck.seed * 100 + n)], input=inp, capture_output=True, env=home.env(t), timeout=300)
        except subprocess.TimeoutExpired:
            ck.violation("thread-hang", "the threads did not finish", jobs=its)
            continue
        o = p.stdout.decode("latin-1")
        err = p.stderr.decode("utf-8", "replace")
        for ln in o.splitlines():
            if ln.startswith("MISMATCH"):
                i = int(ln.split()[1])
                ck.violation("parallel:" + its[i][0], "%s on %s in parallel: %s" % (its[i][0], its[i][1].hex(), ln[:600]), jobs=[(c, b.hex()) for c, b in its])
            if ln.startswith("DONE"):
                calls += int(ln.split("calls=")[1])
                jobs += int(ln.split("jobs=")[1].split()[0])
        if "DONE" not in o or p.returncode:
            c = classify(err, p.returncode, t.root)
            if c.kind.startswith("exit") and "ThreadSanitizer" not in err:
                raise RuntimeError("thread harness ended with %s: %s" % (p.returncode, err[-2000:]))
            ck.crash(c, "threads over %r" % ([i[0] for i in its],), jobs=[(c_, b.hex()) for c_, b in its])
        ck.saw((n, tuple(its)), "DONE" in o)
    home.done()
    ck.cov.update(codecs_in_threads=len(own), thread_calls=calls, thread_conversions=jobs)
