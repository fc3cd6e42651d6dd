"""C25: every file call of a creation fails in turn."""
import errno, os, shutil, tempfile
from vlib import gen, work
from vlib.driver import Crash, hx, un

LEVEL = "fault_enumeration"
ALL = 63
ERR = [errno.EMFILE, errno.EACCES, errno.ENOMEM, errno.EIO, errno.ENOENT, errno.ENFILE]


def run(ck):
    r = ck.r
    tree = ck.tree("asan")
    home = work.Home()
    env = home.env(tree)
    ck.rule = ("for every codec and alias of every kind, every filter and scorer, and generated conversions of several stages: a first creation counts the calls by which it opened, mapped, loaded or resolved a file, then each of these calls fails once, alone (every occurrence), "
               "all from it on, and pairs; besides, creation with 0 to n descriptors left, and with each needed file missing, empty or unloadable in a copy of the installation. After each failure: an error and no instance, "
               "heap bytes, descriptors and module mappings as before (sanitizer allocator), working directory as before, another live instance and the next creation give the undisturbed result. Distinct: (conversion, failing call)")
    ck.assumptions = ["memory exhaustion, and failing getcwd or chdir, are not injected", "a call that already fails in the undisturbed run (a codec without callbacks has no module to load) is not a fault",
                      "ASCII-HTML-INFO does without its CNS 11643 conversion by design, and SCORE-TRAIN opens its file twice, to create it and to use it: these calls may fail without effect"]
    cov = {"conversions": 0, "calls": {}, "faults": 0, "pairs": 0, "exhaustions": 0, "files_missing": 0, "files_damaged": 0, "refused": 0, "not_needed": 0}
    C = gen.Convs(tree, r, bad=0)
    convs = []
    for k in ("from", "inter", "to"):
        for n in tree.modules(k) + C.alias[k]:
            a = {"REPLACE": "#0161=0162", "TRIM-WIDTH": "#3"}.get(n, "") if k == "inter" else ""
            convs.append({"from": "%s:PASS", "inter": "PASS:%s:PASS", "to": "PASS:%s"}[k] % (n + a))
    for n in tree.modules("filter") + ["1", "1B"]:
        convs.append(r.choice(["PASS:COUNT#FOR=%s:PASS", "PASS:STRINGS#FOR=%s:PASS", "PASS:PASS#MARK&FOR=%s", "PASS:PASS#FOR=%s,UPPER:PASS"]) % n)
    for n in tree.modules("scorer"):
        convs.append("PASS:SCORE#WITH=%s:PASS" % n)
    convs += [C.conv() for _ in range(ck.n(60, 1500))]
    # writes between the results; and one whose inner conversion is optional
    convs = [c for c in convs if "BSDCONV-OUTPUT" not in c.upper() and "BSDCONV-STDOUT" not in c.upper()]
    optional = lambda cv, call: "ASCII-HTML-INFO" in cv.upper() or "SCORE-TRAIN" in cv.upper() and call.startswith("fopen") and un(call.split(":")[1]).endswith(b".bsdconv.score")
    if ck.tier == "quick":
        keep = [c for c in convs if r.random() < 0.5 or any(x in c for x in ("#", "NF", "SCORE", "HANGUL"))]
        convs = keep
    probe = "caf\u00e9 \u4e2d\u6587 e\u0301".encode()
    other = "UTF-8:NFC:COUNT#FOR=CJK:UTF-8"

    def creation(cv, n):
        return ["N 0 " + hx(cv), "D 0"] * n

    # ---- how many calls each creation makes
    first = []
    for cv in convs:
        first.append(["fault 0 0 0 %d" % ALL] + creation(cv, 1) + ["fault 0 0 0 %d" % ALL, "N 0 " + hx(cv), "faults", "O 0 " + hx(probe)])
    res = ck.run("asan", first, env=env, drv=tree.drvf)
    cases, meta = [], []
    for cv, L, x in zip(convs, first, res):
        if isinstance(x, Crash):
            ck.crash(x, cv, commands=L)
            continue
        if not x[4].startswith("ok"):
            cov["refused"] += 1
            continue
        n, _, log = x[5].split()
        n = int(n)
        good = x[6]
        calls = log.split(",") if log != "." else []
        cov["conversions"] += 1
        for c in calls:
            c = c.split(":")[0]
            cov["calls"][c] = cov["calls"].get(c, 0) + 1
        plans = [(i, i) for i in range(1, n + 1)]
        if ck.tier == "quick" and len(plans) > 60:
            plans = r.sample(plans, 60)
        for _ in range(min(n, 3)):
            i = r.randrange(1, n + 1)
            plans.append((i, r.choice([i + 1, i + 2, 10 ** 6])))
        for i, j in plans:
            e = r.choice(ERR)
            L = ["fault 0 0 0 %d" % ALL, "N 1 " + hx(other), "N 0 " + hx(cv), "D 0"]
            L += ["fault %d %d %d %d" % (i, j, e, ALL), "N 0 " + hx(cv)]                    # 4 5: once, for what is cached on the way
            L += ["cwd", "res", "fault %d %d %d %d" % (i, j, e, ALL), "N 0 " + hx(cv), "faults", "cwd", "res"]   # 6 .. 12
            L += ["fault 0 0 0 0", "N 0 " + hx(cv), "O 0 " + hx(probe), "D 0", "O 1 " + hx(probe), "D 1"]
            cases.append(L)
            meta.append((cv, i, j, e, calls[i - 1] if i <= len(calls) else "", good))
    base = ck.run("asan", [["X %s %s" % (hx(other), hx(probe))]], env=env, drv=tree.drvf)[0]
    res = ck.run("asan", cases, env=env, drv=tree.drvf)
    for L, x, (cv, i, j, e, call, good) in zip(cases, res, meta):
        name = call.split(":")[0]
        path = bytes.fromhex(call.split(":")[1]).decode("utf-8", "replace") if ":" in call else ""
        path = path.replace(tree.share, "")
        what = "%s: call %d%s (%s %s) fails with %s" % (cv, i, "" if i == j else "..%d" % j, name, path, errno.errorcode[e])
        ck.saw((cv, i, j))
        cov["faults" if i == j else "pairs"] += 1
        if isinstance(x, Crash):
            ck.crash(x, what, commands=L)
            continue
        if x[9].startswith("ok") and optional(cv, call):
            cov["not_needed"] += 1
            continue
        if x[9].startswith("ok"):
            ck.violation("accepted:%s" % name, "%s: an instance is created" % what, commands=L)
            continue
        if x[9] == "null 0":
            ck.violation("noerror:%s" % name, "%s: no error is set" % what, commands=L)
        if x[10].split()[1] == "0":
            ck.violation("harness", "%s: the call is not made" % what, commands=L)
        if x[6] != x[11]:
            ck.violation("cwd:%s" % name, "%s: the working directory was %s, is %s" % (what, un(x[6]), un(x[11])), commands=L)
        if x[7] != x[12]:
            ck.violation("leak:%s" % name, "%s: heap, descriptors, mappings were %s, are %s" % (what, x[7], x[12]), commands=L)
        if x[15] != good:
            ck.violation("after:%s" % name, "%s: the next creation gives %s, not %s" % (what, x[15], good), commands=L)
        if x[17] != base[0]:
            ck.violation("other:%s" % name, "%s: another instance gives %s, not %s" % (what, x[17], base[0]), commands=L)
    ck.sample({"conversion": meta[0][0], "calls": cases[0][8]})

    # ---- few descriptors left
    cases, meta = [], []
    for cv in r.sample(convs, min(len(convs), ck.n(60, 600))):
        for left in list(range(0, 8)) + [10, 14, 20]:
            L = ["N 1 " + hx(other), "N 0 " + hx(cv), "D 0", "nofile %d" % left, "N 0 " + hx(cv), "D 0", "nofile -1"]
            L += ["cwd", "res", "nofile %d" % left, "N 0 " + hx(cv), "nofile -1", "O 0 " + hx(probe), "D 0", "cwd", "res", "N 0 " + hx(cv), "O 0 " + hx(probe), "D 0", "O 1 " + hx(probe), "D 1"]
            cases.append(L)
            meta.append((cv, left))
    for L, x, (cv, left) in zip(cases, ck.run("asan", cases, env=env, drv=tree.drvf), meta):
        what = "%s with %d descriptors left" % (cv, left)
        if isinstance(x, Crash):
            ck.crash(x, what, commands=L)
            continue
        ck.saw((cv, "nofile", left))
        cov["exhaustions"] += 1
        if x[16].startswith("null"):
            continue
        if x[10].startswith("ok"):
            if x[12] != x[17]:
                ck.violation("nofile:accepted", "%s: an instance is created which gives %s, not %s" % (what, x[12], x[17]), commands=L)
        elif x[10] == "null 0":
            ck.violation("nofile:noerror", "%s: no error is set" % what, commands=L)
        if x[7] != x[14] or x[8] != x[15]:
            ck.violation("nofile:leak", "%s: directory and resources were %s %s, are %s %s" % (what, un(x[7]), x[8], un(x[14]), x[15]), commands=L)
        if x[19] != base[0]:
            ck.violation("nofile:other", "%s: another instance gives %s, not %s" % (what, x[19], base[0]), commands=L)

    # ---- files missing or damaged in a copy of the installation
    top = tempfile.mkdtemp(prefix="c25-")
    def farm(d, skip=None, how=None):
        for p, ds, fs in os.walk(tree.share):
            q = os.path.join(d, "share", "bsdconv", os.path.relpath(p, tree.share))
            os.makedirs(q, exist_ok=True)
            for f in fs:
                s = os.path.join(p, f)
                if os.path.relpath(s, tree.share) == skip:
                    if how == "empty":
                        open(os.path.join(q, f), "w").close()
                    elif how == "text":
                        open(os.path.join(q, f), "w").write("no shared object\n" * 10)
                    elif how == "directory":
                        os.mkdir(os.path.join(q, f))
                    elif how == "dangling":
                        os.symlink("/nonexistent/x", os.path.join(q, f))
                else:
                    os.link(s, os.path.join(q, f)) if os.stat(d).st_dev == os.stat(s).st_dev else shutil.copy2(s, os.path.join(q, f))
    todo = []
    for cv, need in (("UTF-16LE:UTF-8", ["from/UTF-16LE", "to/_UTF-8", "to/_UTF-8.so", "from/UTF-16LE.so", "to/ASCII", "inter/ALIAS-TO", "from/ASCII", "inter/COUNT.so", "inter/COUNT"]),
                     ("CP950:ZHCN:GBK", ["from/_CP950", "inter/ZHCN", "to/_GBK", "from/CP950-UDA.so", "inter/ALIAS-FROM", "inter/ALIAS-FROM.so"]),
                     ("UTF-16BE:NFC:UTF-16LE", ["inter/_NFC", "inter/_NFC.so", "inter/_NFC-MAP", "inter/_NF-ORDER", "inter/_NF-ORDER.so", "inter/_NF-ORDER-MAP", "inter/_NF-HANGUL-COMPOSITION.so", "inter/_NFD", "inter/ALIAS-INTER"]),
                     ("UTF-16BE:COUNT#FOR=CJK:PASS", ["filter/CJK.so", "inter/COUNT.so"]), ("UTF-16BE:COUNT#FOR=1:PASS", ["filter/UNICODE.so", "inter/ALIAS-FILTER"]),
                     ("UTF-16BE:SCORE#WITH=LATIN1:PASS", ["scorer/LATIN1.so", "inter/SCORE.so"]), ("UTF-16BE:WIDTH:AMBIGUOUS-PAD:PASS", ["inter/WIDTH", "inter/WIDTH.so", "inter/AMBIGUOUS-PAD.so", "inter/AMBIGUOUS-PAD"]),
                     ("PASS:JIS", ["to/_JIS0212", "to/_JIS0212.so"]), ("JIS:PASS", ["from/_JIS", "from/_JIS.so"]), ("GB18030:GB18030", ["from/_GB18030.so", "to/_GB18030.so"])):
        for f in need:
            if not os.path.exists(os.path.join(tree.share, f)):
                continue
            for how in (["missing", "text", "empty", "dangling", "directory"] if f.endswith(".so") else ["missing", "empty", "dangling", "directory"]):
                todo.append((cv, f, how))
    cases, meta = [], []
    good_path = env["BSDCONV_PATH"]
    for n, (cv, f, how) in enumerate(todo):
        d = os.path.join(top, str(n))
        os.mkdir(d)
        farm(d, f, how)
        L = ["N 1 " + hx(other), "N 0 " + hx(cv), "D 0", "env %s %s" % (hx("BSDCONV_PATH"), hx(d)), "N 0 " + hx(cv), "D 0", "cwd", "res", "N 0 " + hx(cv), "D 0", "cwd", "res",
             "env %s %s" % (hx("BSDCONV_PATH"), hx(good_path)), "N 0 " + hx(cv), "O 0 " + hx(probe), "D 0", "O 1 " + hx(probe)]
        cases.append(L)
        meta.append((cv, f, how))
    try:
        for L, x, (cv, f, how) in zip(cases, ck.run("asan", cases, env=env, drv=tree.drvf), meta):
            what = "%s with %s %s" % (cv, f, how)
            if isinstance(x, Crash):
                ck.crash(x, what, commands=L)
                continue
            ck.saw((cv, f, how))
            cov["files_missing" if how == "missing" else "files_damaged"] += 1
            if x[8].startswith("ok"):
                ck.violation("file:%s:%s" % (how, "module" if f.endswith(".so") else "table"), "%s: an instance is created" % what, commands=L)
            elif x[8] == "null 0":
                ck.violation("file:noerror", "%s: no error is set" % what, commands=L)
            if x[6] != x[10] or x[7] != x[11]:
                ck.violation("file:leak", "%s: directory and resources were %s %s, are %s %s" % (what, un(x[6]), x[7], un(x[10]), x[11]), commands=L)
            if not x[13].startswith("ok") or x[16] != base[0]:
                ck.violation("file:after", "%s: afterwards creation gives %s, another instance %s" % (what, x[13], x[16]), commands=L)
    finally:
        shutil.rmtree(top, ignore_errors=True)
        home.done()
    ck.cov = cov
