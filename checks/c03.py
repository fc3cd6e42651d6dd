"""C03: resources held before and after (heap bytes, descriptors, mappings, working directory)."""
from vlib import gen, work
from vlib.driver import Crash, hx


EDITING = [("inter", x) for x in ("INSERT", "INSERT", "REPLACE", "REPLACE", "STRINGS", "STRINGS", "COUNT", "PASS", "SCORE", "SCORE-TRAIN", "TRIM-WIDTH", "AMBIGUOUS-PAD", "NFC", "WIDTH")] + \
          [("from", x) for x in ("PASS", "ANY", "UTF-8", "ESCAPE", "HTMLENTITY", "BYTE")] + [("to", x) for x in ("PASS", "ANY", "RAW", "ESCAPE", "HEX", "UTF-8", "BSDCONV-OUTPUT", "NULL")]


def use(r, C, s, b):
    """one use of slot s, possibly abandoned half way"""
    L = ["I %d" % s]
    ch = gen.split(r, b)
    if r.random() < 0.4:
        ch = ch[:r.randrange(len(ch) + 1)]
    for c in ch:
        m = r.choice("AAAAHPLWZQ")
        L.append(work.feed(s, m, int(r.random() < 0.05), c, r.choice([0, 1, 5]) if m in "AP" else 0, r.choice([0, 1])))
    if r.random() < 0.6:
        L.append(work.feed(s, r.choice("AAHLZ"), 1, r.choice([None, b""])))
    if r.random() < 0.1:
        L.append("g %d %s 3" % (s, hx(r.choice(["foo", "IERR", "X", "WIDTH"]))))
    if r.random() < 0.1:
        L += ["hs %d %s 7" % (s, hx(r.choice("abc"))), "hd %d %s" % (s, hx("a"))]
    if r.random() < 0.1:
        L.append("P %d" % s)
    if r.random() < 0.05:
        L.append("Z %d -" % s)
    return L


def run(ck):
    r = ck.r
    t = ck.tree("asan")
    C = gen.Convs(t, r)
    home = work.Home()
    ck.rule = ("each case runs one cycle (create or refused create, use, destroy; or edit/list/alias call) once to warm process-wide caches, then measures "
               "heap bytes (sanitizer allocator), descriptors, mapped module files and working directory before and after further identical cycles; a second kind "
               "repeats init+use on one instance and demands a fixed point.  Non-trivial: distinct cycle in which something was allocated or refused")
    ck.assumptions = ["memory kept by libc and the dynamic loader for the first use of a feature is excluded by the warm-up cycle",
                      "the sanitizer's allocator statistics count every heap block of the process"]
    cases, ident = [], []
    kinds = {}

    def cycle(k):
        if k == "use":
            cv, b = gen.work_item(C, r)
            L = ["N 0 " + hx(cv)]
            for _ in range(r.choice([1, 1, 2])):
                L += use(r, C, 0, b)
                b = gen.payload(r, 40)
            return L + ["D 0"], cv
        if k == "noinit":
            cv = C.conv()
            return ["N 0 " + hx(cv), "D 0"], cv
        if k == "refused":
            cv = work.mangle(r, r.choice([C.conv(), gen.paired(r)[0]]))
            return ["N 0 " + hx(cv), "D 0"], cv
        if k == "badarg":
            kind = r.choice(["inter", "to", "from"])
            nm = r.choice(C.m[kind])
            if (kind, nm) in gen.SKIP:
                nm = "PASS"
            if r.random() < 0.6:
                # several arguments, of which a later one (or one after others that were taken) is refused
                kind, nm = r.choice(EDITING)
                good = ["BEFORE=0129.010A", "AFTER=01AC00", "0141=0142", "0141.0142=", "FOR=CJK", "FOR=01", "FOR=01.03", "MIN-LEN=2", "LIMIT=3", "MARK", "COUNT", "KEY", "ERROR=FOO", "01FFFD", "013F.0121", "SUFFIX=3B", "PREFIX=25", "MODE=8", "WITH=CJK", "WITH=TRAINED", "LEN=4"]
                bad = ["BEFORE=01zz", "AFTER=0", "AFTER=0129.01g", "0141=zz", "zz=0141", "0141.01=0", "FOR=nope", "FOR=", "MIN-LEN=", "MIN-LEN=-1", "LIMIT=x", "X", "=", "", "ERROR=", "MODE=3", "WITH=nope", "01x", "0", "BEFORE", "AFTER=", "SUFFIX=z"]
                a = [r.choice(good) for _ in range(r.choice([0, 1, 1, 2, 2, 3]))] + [r.choice(bad if r.random() < 0.8 else good)] + [r.choice(good + bad) for _ in range(r.choice([0, 0, 1, 2]))]
                c = nm + "#" + "&".join(a)
                cv = ":".join({"from": [c + r.choice(["", ",UTF-8"]), "UPPER", "UTF-8"], "inter": ["UTF-8", "UPPER", c + r.choice(["", "", "," + c]), "NFC", "UTF-8"], "to": ["UTF-8", "NFC", "ASCII," + c]}[kind])
                return ["N 0 " + hx(cv), "D 0"], cv
            c = nm + "#" + r.choice(["X", "=", "FOR", "FOR=nope", "AFTER=0z", "MODE=3", "LIMIT", "0141=", "KEY", "a&b&c", "FOR=CJK&X", "0141=0142&zz", "DROP&ERROR=X", "WITH=nope", "MIN-LEN=x&Q"])
            cv = ":".join({"from": [c, "UPPER", "UTF-8"], "inter": ["UTF-8", "UPPER", c, "NFC", "UTF-8"], "to": ["UTF-8", "NFC", "ASCII," + c]}[kind])
            return ["N 0 " + hx(cv), "D 0"], cv
        if k == "pass":
            a, b = gen.paired(r, False)[0], gen.paired(r, False)[0]
            L = ["N 0 " + hx(a), "N 1 " + hx(b), "I 0", "I 1"]
            for _ in range(r.choice([1, 2, 3])):
                L += [work.feed(0, "S", int(r.random() < .5), gen.payload(r, 30), 1), "k 1 A %d" % (r.random() < .5)]
            return L + ["D 1", "D 0"], (a, b)
        if k == "ctl":
            cv = "UTF-8:" + r.choice(["SCORE", "AMBIGUOUS-PAD", "SCORE-TRAIN", "SCORE#WITH=TRAINED", "AMBIGUOUS-UNPAD"]) + ":UTF-8"
            return ["N 0 " + hx(cv), "I 0", "ctlfile 0 %d %s 0" % (r.choice([0, 3]), hx(b"\1" * 300)), "ctl 0 4 %d" % r.choice([0, 1]), work.feed(0, "A", 1, gen.rich(r).encode()), "D 0"], cv
        if k == "edit":
            return [work.editops(r, C)], None
        nm = C.codec(r.choice(["from", "inter", "to"]))
        return [r.choice(["mc %s %s", "sa %s %s"]) % (r.choice(["from", "inter", "to", "filter", "scorer", "9"]), hx(r.choice([nm, "CJK", "nope"]))) if r.random() < .8 else
                r.choice(["ml %s", "ml %s x"]) % r.choice(["from", "inter", "to", "filter", "scorer", "9"])], None

    K = ["use"] * 12 + ["noinit"] + ["refused"] * 3 + ["badarg"] * 4 + ["pass"] * 2 + ["ctl"] + ["edit"] * 2 + ["list"]
    for _ in range(ck.n(12000, 120000)):
        k = r.choice(K)
        L, who = cycle(k)
        cases.append(L + L + ["cwd", "res"] + L + L + ["res", "cwd"])
        ident.append((k, who, tuple(L)))
    created = refused = 0
    for L, x, (k, who, cyc) in zip(cases, ck.run("asan", cases, env=home.env(t)), ident):
        ck.saw((k, cyc))
        kinds[k] = kinds.get(k, 0) + 1
        if isinstance(x, Crash):
            ck.crash(x, "%s %r" % (k, who), commands=L)
            continue
        if x[0].startswith("ok"):
            created += 1
        if x[0].startswith("null"):
            refused += 1
        ri = [i for i, l in enumerate(L) if l == "res"]
        a, b = x[ri[0]].split(), x[ri[1]].split()
        if x[ri[0] - 1] != x[-1]:
            ck.violation("cwd", "%s %r changed the working directory" % (k, who), commands=L)
        for n, p, q in zip(("heap bytes", "descriptors", "mappings"), a, b):
            if int(q) > int(p):
                ck.violation("grow:%s:%s" % (n, who if isinstance(who, str) else k), "%s %r: %s grow from %s to %s over two cycles" % (k, who, n, p, q), commands=L)
        if int(a[2]) or int(b[2]):
            ck.violation("mapped:%s" % (who if isinstance(who, str) else k), "%s %r: with every instance destroyed, %s pieces of codec files are still mapped" % (k, who, b[2]), commands=L)
    # one instance used again and again
    cases, ident = [], []
    for _ in range(ck.n(6000, 60000)):
        cv, b = gen.work_item(C, r)
        L = []
        for _ in range(r.choice([1, 2, 3])):
            L += use(r, C, 0, b)
            b = gen.payload(r, 40)
        cases.append(["N 0 " + hx(cv)] + L * 3 + ["I 0", "res"] + L * 4 + ["I 0", "res", "D 0"])
        ident.append((cv, tuple(L)))
    fixed = 0
    for L, x, (cv, u) in zip(cases, ck.run("asan", cases, env=home.env(t)), ident):
        if isinstance(x, Crash):
            ck.saw((cv, u))
            ck.crash(x, "repeated use of %s" % cv, commands=L)
            continue
        ck.saw((cv, u), x[0].startswith("ok"))
        v = [y for l, y in zip(L, x) if l == "res"]
        if [int(z) for z in v[1].split()] > [int(z) for z in v[0].split()]:
            ck.violation("creep:" + cv, "%s grows when it is initialised and used again: %s -> %s" % (cv, v[0], v[1]), commands=L)
        fixed += 1
    # what the leak checker says at the end of a mixed life
    cases = []
    for _ in range(ck.n(60, 600)):
        L = []
        for _ in range(25):
            L += cycle(r.choice(K))[0]
        cases.append(L + ["lsan"])
    env = home.env(t)
    env["ASAN_OPTIONS"] = env["ASAN_OPTIONS"].replace("detect_leaks=0", "detect_leaks=1")
    for L, x in zip(cases, ck.run("asan", cases, env=env)):
        ck.saw(tuple(L))
        if isinstance(x, Crash):
            ck.crash(x, "mixed life", commands=L)
        elif x[-1] != "0":
            ck.violation("lsan", "LeakSanitizer reports unreachable memory after all instances were destroyed", commands=L)
    home.done()
    ck.sample(ident[0])
    ck.cov.update(cycles_by_kind=kinds, created=created, refused=refused, fixed_point_instances=fixed, lsan_runs=len(cases))
