"""C05: every output mode delivers the same bytes exactly once and in order."""
from vlib import gen, scale, work
from vlib.driver import Crash, hx, un


def run(ck):
    r = ck.r
    t = ck.tree("asan")
    C = gen.Convs(t, r)
    home = work.Home()
    ck.rule = ("(descriptor output is also exercised with writes which the system cuts short or interrupts) each case feeds one input (of up to 70000 bytes) in random pieces and collects with a random sequence of output modes (allocated with and without slack, caller buffers of 1..n bytes drained "
               "over several calls, FILE, descriptor, held, query, handed to a pass-through instance, dropped with BSDCONV_NULL), some of them in the call that feeds a piece; the concatenation of all deliveries must equal a one-shot run, every query must equal "
               "the bytes still pending (all mode-independent prefixes are known), and no delivery may exceed its buffer or leave room that the next pending datum would have fitted. "
               "Non-trivial: distinct (conversion, input, mode sequence) with non-empty output")
    ck.assumptions = ["a write to a descriptor that fails for good is outside (writes cut short or interrupted are not)", "a caller buffer smaller than the next datum legitimately yields nothing: the monitor then enlarges it"]
    cases, meta = [], []
    modes = {}
    for far in [None] * ck.n(60000, 500000) + scale.pick(r, 99) * ck.n(20, 200):
        cv, b = gen.work_item(C, r, 60, 0.75)
        top = 1 << 16
        if far:
            b = scale.text(r, far, gen.FROMENC.get(cv.split(":")[0].split(",")[0], "utf-8"))
            if gen.EXPAND.search(cv):
                continue
            top = 1 << 22
        sizes = [1, 2, 3, 4, 6, 10, 40, 300] + ([255, 256, 257, 1023, 1024, 1025, 4095, 4096, 4097, 65535, 65536, 65537, 70000] if far else [])
        L = ["N 0 " + hx(cv), "N 1 " + hx("PASS:PASS"), "I 1", "I 0"]
        ops = []
        z = r.choice([1000, 4096, far // 2 + 1, far + 9, 65536]) if far else 0
        for j, c in enumerate(([b[i:i + z] for i in range(0, len(b), z)] if far else gen.split(r, b)) + [None]):
            # feed holding, then drain in some way
            last = c is None
            m = "H" if r.random() < 0.6 else r.choice("APLWSQ")
            x = {"A": r.choice([0, 1, 7, 64]), "P": r.choice(sizes), "S": 1}.get(m, 0)
            L.append(work.feed(0, m, int(last), c, x, r.choice([0, 1])))
            if m == "S":
                L.append("k 1 A 1")
            ops.append((len(L) - 1, "F" + m, x))
            modes[m] = modes.get(m, 0) + 1
            for _ in range(r.choice([0, 1, 1, 2, 4]) if not last else r.choice([1, 2, 5])):
                m = r.choice("AQPPPLWH") if r.random() < 0.9 else r.choice("SZ")
                x = {"A": r.choice([0, 1, 7, 64]), "P": r.choice(sizes)}.get(m, 0)
                if m == "S":
                    L.append("F 0 S 0 0 - 1")
                    L.append("k 1 A 1")
                    ops.append((len(L) - 1, "S", 0))
                else:
                    if m == "Z":        # what is dropped must be known
                        L.append(work.feed(0, "Q", 0, None))
                        ops.append((len(L) - 1, "Q", 0))
                    L.append(work.feed(0, m, 0, None, x))
                    ops.append((len(L) - 1, m, x))
                modes[m] = modes.get(m, 0) + 1
        L.append(work.feed(0, "Q", 0, None))
        ops.append((len(L) - 1, "Q", 0))
        L.append(work.feed(0, "P", 0, None, top))
        ops.append((len(L) - 1, "P", top))
        L.append(work.feed(0, "Q", 0, None))
        ops.append((len(L) - 1, "Q0", 0))
        # feeding and delivering in one call, each mode from the start
        one = len(L)
        for m in "APLWQ":
            L += ["I 0", work.feed(0, m, 1, b, top if m == "P" else 3 if m == "A" else 0)]
        # the whole through HOLD, pending size, drop
        L += ["I 0", work.feed(0, "H", 1, b), work.feed(0, "Q", 0, None), work.feed(0, "Z", 0, None), work.feed(0, "Q", 0, None), work.feed(0, "A", 0, None)]
        L += ["O 0 " + hx(b), "D 1", "D 0"]
        cases.append(L)
        meta.append((cv, b, ops, one, top))
    queries = dropped = 0
    for L, x, (cv, b, ops, one, top) in zip(cases, ck.run("asan", cases, env=home.env(t)), meta):
        if isinstance(x, Crash):
            ck.saw((cv, b))
            ck.crash(x, "%s on %s" % (cv, b.hex()), commands=L)
            continue
        if not x[0].startswith("ok"):
            ck.saw(nontrivial=False)
            continue
        whole = un(x[-3].split(" ")[0])
        ck.saw((cv, b, tuple(o[1:] for o in ops)), len(whole) > 0)

        def bad(k, what):
            ck.violation("%s:%s" % (k, cv), "%s on %s: %s" % (cv, b[:200].hex(), what[:2000]), commands=L)
        # one-call deliveries
        for k, m in enumerate("APLWQ"):
            y = x[one + 2 * k + 1]
            if m == "Q":
                if int(y) != len(whole):
                    bad("query", "query after a whole input says %s, %d bytes are pending" % (y, len(whole)))
            elif m == "P" and len(whole) > top:
                continue
            elif y.startswith("OVERLONG") or un(y) != whole:
                bad("mode-" + m, "one call in mode %s gives %s, one-shot gives %s" % (m, y, whole.hex()))
        k = one + 10
        if int(x[k + 2]) != len(whole) or int(x[k + 4]) != 0 or x[k + 5] != ".":
            bad("drop", "after HOLD the query says %s (%d expected), after BSDCONV_NULL %s and %s remain" % (x[k + 2], len(whole), x[k + 4], x[k + 5]))
        # the mixed run.  Pass-through conversions see other pieces than the one-shot run: their unit is the piece
        seg = cv.split("|")[0].split(":")
        if len(seg) < 2 or any(c.split("#")[0].upper() in ("PASS", "SKIP") for c in seg[0].split(",")):
            continue
        got = b""
        pend = None
        fail = False
        kept, at = b"", 0       # the one-shot result without what was dropped
        for i, m, a in ops:
            y = x[i]
            if m[0] == "F":     # output of a piece just fed: how much is pending is not known before
                m = m[1:]
                pend = None
            if y.startswith("OVERLONG"):
                bad("overlong", "%s -> %s" % (L[i], y))
                fail = True
                break
            if m == "H":
                pend = None
            elif m == "Z":
                kept += whole[at:at + len(got)]
                at += len(got) + pend
                dropped += pend > 0
                if got != kept[-len(got):] and got:
                    bad("bytes-dropped", "before a BSDCONV_NULL call, mixed modes deliver %s, the one-shot run %s" % (got.hex(), kept.hex()))
                    fail = True
                    break
                got = b""
                pend = 0
            elif m in "AWLS":
                d = un(y) or b""
                if pend is not None and len(d) != pend:
                    bad("query-mixed", "query said %d pending, mode %s delivered %d" % (pend, m, len(d)))
                    queries += 1
                got += d
                pend = 0
            elif m == "P":
                d = un(y) or b""
                got += d
                if pend is not None:
                    queries += 1
                    if pend <= a and len(d) != pend:
                        bad("buffer-short", "%d bytes pending, a buffer of %d got %d" % (pend, a, len(d)))
                    pend -= len(d)
            else:
                v = int(y)
                if pend is not None and v != pend:
                    bad("query-mixed", "query says %d, %d bytes are pending" % (v, pend))
                pend = v
                queries += 1
        if not fail and len(whole) < top and got != whole[at:]:
            bad("bytes", "mixed modes deliver %s, one-shot %s" % (got.hex(), whole[at:].hex()))
    short(ck, t, C, home)
    home.done()
    ck.sample(dict(conv=meta[-1][0], input=meta[-1][1].hex(), modes=[o[1:] for o in meta[-1][2]]))
    ck.cov.update(deliveries_by_mode=modes, pending_sizes_compared=queries, deliveries_dropped=dropped)


def short(ck, t, C, home):
    """Descriptor output while the system takes only a part of each write, or none because of a signal."""
    r = ck.r
    cases, meta = [], []
    for far in [None] * ck.n(3000, 30000) + scale.pick(r, 99) * ck.n(3, 20):
        cv, b = gen.work_item(C, r, 60, 0.75)
        if far:
            if gen.EXPAND.search(cv):
                continue
            b = scale.text(r, far, gen.FROMENC.get(cv.split(":")[0].split(",")[0], "utf-8"))
        # some of the conversions which hand over long pieces
        if r.random() < 0.3:
            cv = r.choice(["PASS:PASS", "PASS:BYTE", "BYTE:PASS", "UTF-8:UNICODE:UTF-8,BYTE", "UTF-8,BYTE:INSERT#BEFORE=%s:PASS" % ".".join("01%02X" % r.randrange(256) for _ in range(9)), cv])
        L = ["short 0", "N 0 " + hx(cv), "I 0", "", "I 0"]
        L[3] = "O 0 " + hx(b)
        ch = gen.split(r, b) if r.random() < 0.7 else [b]
        L.append("short %d" % r.randrange(1, 1 << 30))
        for c in ch:
            L.append(work.feed(0, r.choice("WWH"), 0, c))
        L.append(work.feed(0, "W", 1, None))
        L += ["short 0", "I 0"] + [work.feed(0, "A", int(c is None), c) for c in ch + [None]] + ["D 0"]
        cases.append(L)
        meta.append((cv, b, len(ch)))
    hits = 0
    for L, x, (cv, b, n) in zip(cases, ck.run("asan", cases, env=home.env(t), drv=t.drvf), meta):
        if isinstance(x, Crash):
            ck.saw(("short", cv, b))
            ck.crash(x, "%s on %s with writes cut short" % (cv, b.hex()), commands=L)
            continue
        if not x[1].startswith("ok"):
            continue
        h = int(x[7 + n])
        hits += h
        ck.saw(("short", cv, b), h > 0)
        got = b"".join(un(L_) if L_ != "." else b"" for L_, c in zip(x[6:7 + n], L[6:7 + n]) if " W " in c)
        want = b"".join(un(y) for y in x[9 + n:10 + 2 * n])
        if got != want:
            ck.violation("short-write:" + cv, "%s on %s: with %d writes cut short or interrupted the descriptor gets %s, %s is due" % (cv, b.hex()[:400], h, got.hex()[:800], want.hex()[:800]), commands=L)
    ck.cov["writes_cut_short"] = hits
