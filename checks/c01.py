"""C01: hostile conversion strings, inputs and API histories under ASan + UBSan."""
import os, random, shutil, tempfile
from concurrent.futures import ThreadPoolExecutor
from vlib import cli, gen, scale, work
from vlib.driver import Crash, hx


def run(ck):
    r = ck.r
    t = ck.tree("asan")
    C = gen.Convs(t, r)
    home = work.Home()
    ck.rule = ("each case is one process-recorded API history over the instrumented library: a generated conversion (every codec of every "
               "phase kind occurs), hostile arguments, encoded/mutated/noise input, random chunking, output modes, flushes, resets and edit calls; "
               "non-trivial = the history is distinct and at least one instance in it was created")
    ck.assumptions = ["memory exhaustion is not injected", "ASan/UBSan report every violation of the kinds they instrument (red zones of "
                      "exact-size heap input buffers, stack, globals); no -fsanitize=integer"]
    cases, ident = [], []
    # one deterministic visit to every codec, alone and with input aimed at it
    for kind in ("from", "inter", "to"):
        for nm in C.m[kind] + C.alias[kind]:
            if (kind, nm) in gen.SKIP or "STDOUT" in nm:
                continue
            for k in range(ck.n(6,40)):
                a = gen.args_for(r, kind, nm)
                c = nm + ("#" + a if a else "")
                cv = {"from": c + ":UTF-8,BYTE,ANY#3F", "inter": "UTF-8,BSDCONV,BYTE:" + c + ":BSDCONV",
                      "to": "UTF-8,BSDCONV,ANY#013F:" + c}[kind]
                b = gen.payload(r)
                L = ["X %s %s" % (hx(cv), hx(b)), "N 0 " + hx(cv), "I 0"]
                for ch in gen.split(r, b):
                    L.append(work.feed(0, r.choice("AAHP"), 0, ch, r.choice([0, 1, 3]), r.choice([0, 1])))
                L += [work.feed(0, "A", 1, None), "I 0", work.feed(0, "A", 1, gen.payload(r)), "D 0"]
                cases.append(L)
                ident.append((cv, b))
    ndet = len(cases)
    for _ in range(ck.n(25000, 300000)):
        k = r.random()
        if k < 0.55:
            L, cv = work.history(r, C, r.choice([1, 2, 2, 3]))
            L.append("churn %d" % r.randrange(256))
        elif k < 0.85:
            cv = C.conv() if r.random() < 0.7 else work.mangle(r, C.conv())
            L = ["X %s %s" % (hx(cv), hx(gen.payload(r)))]
        elif k < 0.95:
            L = [work.editops(r, C) for _ in range(3)]
            cv = L[0]
        else:
            nm = C.codec(r.choice(["from", "inter", "to"])) if r.random() < 0.6 else work.mangle(r, C.conv())
            L = ["mc %s %s" % (r.choice(["from", "inter", "to", "filter", "scorer", "9"]), hx(nm)),
                 "sa %s %s" % (r.choice(["from", "inter", "to", "filter", "7"]), hx(nm)), "sd %s" % hx(r.choice(gen.HEXD)),
                 "err %d" % r.choice([0, 1, 2, 12, 22, 95, 88, 9999, -1])]
            cv = nm
        cases.append(L)
        ident.append(repr((cv, L)))
    rr = random.Random("rails/%d" % ck.seed)
    for _ in range(ck.n(3000, 40000)):
        L, cv = work.rails(rr, C)
        cases.append(L)
        ident.append(repr((cv, L)))
    res = ck.run("asan", cases, env=home.env(t))
    modes = {}
    for i, (L, x) in enumerate(zip(cases, res)):
        if isinstance(x, Crash):
            ck.crash(x, "history %r" % (ident[i],), commands=L)
            ck.saw(ident[i])
            continue
        made = any(y.startswith("ok ") for y in x) or any(l[0] == "X" and not y.startswith("null") for l, y in zip(L, x)) or L[0][:2] in ("ip", "rp", "ic", "rc", "mc")
        ck.saw(ident[i], made)
        for l, y in zip(L, x):
            if "OVERLONG" in y:
                ck.violation("overlong-output", "the call reports more bytes than the caller's buffer holds: %s -> %s" % (l, y), commands=L)
            if l.startswith("F "):
                modes[l.split()[2]] = modes.get(l.split()[2], 0) + 1
    systematic(ck, t, C, home)
    ck.sample(ident[3])
    ck.sample(ident[-1])
    # long inputs: length-dependent buffers
    cases, ident = [], []
    for _ in range(ck.n(400, 4000)):
        cv = C.conv()
        b = b"".join(gen.payload(r) for _ in range(40)) * r.choice([1, 5])
        cases.append(["X %s %s" % (hx(cv), hx(b))])
        ident.append((cv, len(b)))
    # every codec: long texts, and single data longer than small integers can say
    for kind in ("from", "inter", "to"):
        for nm in C.m[kind]:
            if (kind, nm) in gen.SKIP or "STDOUT" in nm or gen.EXPAND.search(nm):
                continue
            for n in scale.pick(r, ck.n(1, 6)):
                c = "#".join(filter(None, [nm, gen.args_for(r, kind, nm)]))
                cv = {"from": c + ":UTF-8,BYTE,ANY#3F", "inter": "UTF-8,BYTE:" + c + ":BSDCONV", "to": "UTF-8,BYTE:" + c + ",ANY"}[kind]
                b = scale.text(r, n)
                L = ["N 0 " + hx(cv), "O 0 " + hx(b), "I 0"] + ["F 0 A %d 1 %s 0" % (j == 1, hx(p)) for j, p in enumerate((b[:n // 2], b[n // 2:]))] + ["D 0"]
                cases.append(L)
                ident.append((cv, n))
                if kind != "from":
                    d = b"".join(b"%s%s," % (r.choice([b"01", b"02", b"03", b"1B", b"04", b"00"]), r.choice([b"00", b"41", b"4E", b"FF", b"30"]) * (n + r.choice([-1, 0, 1]))) for _ in range(3)) + b"0141"
                    cases.append(["X %s %s" % (hx("BSDCONV:%s%s" % (c, ":BSDCONV" if kind == "inter" else "")), hx(d))])
                    ident.append((cases[-1][0].split()[1], n))
    for (cv, n), L, x in zip(ident, cases, ck.run("asan", cases, env=home.env(t))):
        ck.saw((cv, n))
        if isinstance(x, Crash):
            ck.crash(x, "%s on %d bytes" % (cv, n), commands=L)
    # names in the environment around the limits of buffers
    cases = []
    for n in scale.pick(r, 99, 40000):
        p = "/" + "x" * (n - 1) if r.random() < 0.5 else ("/nowhere" * (n // 8 + 1))[:n]
        for k, cvs in (("HOME", ["UTF-8:SCORE#WITH=TRAINED:UTF-8", "UTF-8:SCORE-TRAIN:UTF-8", "UTF-8:SCORE:UTF-8"]), ("BSDCONV_SCORE", ["UTF-8:SCORE#WITH=TRAINED:UTF-8", "UTF-8:SCORE-TRAIN:UTF-8"]),
                       ("BSDCONV_FROM_LOG", ["BSDCONV-LOG:UTF-8"]), ("BSDCONV_TO_LOG", ["UTF-8:BSDCONV-LOG"]), ("BSDCONV_PATH", ["UTF-8:UPPER:UTF-8"]), ("LC_ALL", ["LOCALE:LOCALE", "UTF-8:LOCALE"])):
            L = ["env %s %s" % (hx(k), hx(p if k != "LC_ALL" else r.choice(["en_US.", ""]) + p[1:]))]
            if k == "HOME":
                L.append("env %s -" % hx("BSDCONV_SCORE"))
            for c in cvs:
                L += ["X %s %s" % (hx(c), hx(b"a\xe4\xb8\xad")), "X %s %s" % (hx(c), hx(b""))]
            if k == "BSDCONV_PATH":
                L += ["ml from", "mc to " + hx("UTF-8"), "mc filter " + hx("CJK"), "X %s 61" % hx("UTF-8:SCORE#WITH=CJK:COUNT#FOR=CJK:UTF-8"), "env %s %s" % (hx(k), hx(t.env()["BSDCONV_PATH"]))]
            cases.append(L)
    for L, x in zip(cases, ck.run("asan", cases, env=home.env(t))):
        ck.saw(("env", L[0]))
        if isinstance(x, Crash):
            ck.crash(x, "a long name in the environment", commands=L)
    # the command line tools
    d = tempfile.mkdtemp(prefix="vc01")
    env = home.env(t)
    jobs = []
    for i in range(ck.n(160, 1500)):
        sub = os.path.join(d, str(i))
        os.mkdir(sub)
        fn = os.path.join(sub, "f")
        with open(fn, "wb") as f:
            f.write(gen.payload(r))
        cv = C.conv() if r.random() < 0.6 else work.mangle(r, C.conv())
        cv = cv.replace("\0", "") or "UTF-8:UTF-8"
        cvb = cv.encode("utf-8", "replace")
        k = i % 8
        if k == 0:
            j = ("bsdconv", [cvb, b"f"], b"")
        elif k == 1:
            j = ("bsdconv", [cvb], gen.payload(r))
        elif k == 2:
            j = ("bsdconv", [b"-i", cvb, b"f"], b"")
        elif k == 3:
            a = [r.choice([b"", b":", b"UTF-8", cvb, cvb[:r.randrange(len(cvb) + 1)], b"|", b"UTF-8:", b"UTF-8,"])]
            if r.random() < 0.5:
                a.append(r.choice([b"", b"0", b"3", b"-1", b"x"]))
            j = ("bsdconv-completion", a, b"")
        elif k == 4:
            j = ("bsdconv-man", [r.choice([b"", cvb, b"UTF-8", b"from/UTF-8", b"UPPER", b"/", b"x" * 5000])], b"")
        elif k == 5:
            j = ("bsdconv", [r.choice([b"-l", b"-t", b"-h", b"-v", b"-i", b"--", b"", b"-ii", b"-", b"-L"])] + r.choice([[], [cvb], [cvb, b"f"]]), b"")
        elif k == 6:
            with open(os.path.join(sub, "t.txt"), "wb") as f:
                lines = []
                for _ in range(r.randrange(1, 12)):
                    lines.append(r.choice(["0141\t0142", "0141", " ", "0141\t", "!41\t0142", "4?\t?", "*,0142\t01", "0141,0142\t0143,0144", "# x", "00\t", "",
                                           "0141 \t 0142 # c", "%02X\t?" % r.randrange(256), "0141,0142,*\t?01"]))
                f.write(("\n".join(lines) + r.choice(["\n", "", "\r\n"])).encode())
            j = ("bsdconv-mktable", [b"t.txt", b"out"], b"")
        else:
            j = ("bsdconv-dbg", [cvb], gen.payload(r)[:40])
            if not os.path.exists(os.path.join(t.bin, "bsdconv-dbg")):
                j = ("bsdconv", [cvb, b"nofile"], b"")
        jobs.append((j, sub))
    def one(a):
        (tool, args, inp), sub = a
        return cli.run(t, tool, args, inp, cwd=sub, env=env)
    with ThreadPoolExecutor(8) as ex:
        outs = list(ex.map(one, jobs))
    tools = {}
    for ((tool, args, inp), sub), (rc, out, err, c) in zip(jobs, outs):
        ck.saw((tool, tuple(args), inp))
        tools[tool] = tools.get(tool, 0) + 1
        if c:
            files = {f: open(os.path.join(sub, f), "rb").read().hex() for f in os.listdir(sub) if os.path.isfile(os.path.join(sub, f))}
            ck.crash(c, "%s %r" % (tool, args), tool=tool, args=[a.hex() for a in args], stdin=inp.hex(), files=files)
    shutil.rmtree(d)
    home.done()
    ck.cov.update(codecs_visited=len(C.used), deterministic_codec_visits=ndet, feeds_by_output_mode=modes, tool_runs=tools)


def systematic(ck, t, C, home):
    """Every codec, every combination of its documented options, on boundary data; and every codec over whole code ranges."""
    bd = gen.boundary_data()
    cases, ident = [], []
    n = 0
    text = ",".join(x.hex().upper() for x in bd).encode() + b"\n"
    pairs = b"".join(bytes([a, b]) for a in range(256) for b in range(256))
    quads = b"".join(bytes([a, b, c, d]) for a in (0x81, 0x84, 0x90, 0xe3, 0xf4, 0xf8, 0xfe, 0x1b, 0x26, 0x5c) for b in range(0, 256, 5) for c in (0x00, 0x30, 0x80, 0xff) for d in range(0, 256, 17))
    bmp = ",".join("01%02X" % c if c < 256 else "01%04X" % c for c in range(0x10000))
    astral = ",".join("01%06X" % c for p in (1, 2, 3, 14, 15, 16) for c in range(p << 16, (p << 16) + 0x10000, 7 if ck.n(1, 0) else 1))
    for kind in ("from", "inter", "to"):
        for nm in C.m[kind]:
            if (kind, nm) in gen.SKIP or "STDOUT" in nm or "FILE" in nm:
                continue
            for a in gen.arg_variants(kind, nm):
                c = nm + ("#" + a if a else "")
                if kind == "from":
                    n += len(pairs) // 2 + len(quads) // 4
                    for x in (pairs, quads):
                        cases.append(["X %s %s" % (hx(c + ":NULL"), hx(x))])
                        ident.append((c, "from-sweep", len(x)))
                    continue
                cv = "BSDCONV:%s:NULL" % c if kind == "inter" else "BSDCONV:%s,ANY#013F" % c
                n += len(bd)
                cases.append(["X %s %s" % (hx(cv), hx(text))])
                ident.append((cv, "boundary"))
                if not a and not gen.EXPAND.search(nm):
                    for x in (bmp, astral):
                        n += x.count(",") + 1
                        cases.append(["X %s %s" % (hx(cv), hx(x.encode()))])
                        ident.append((cv, "code-sweep", len(x)))
    for (i, L, x) in zip(ident, cases, ck.run("asan", cases, env=home.env(t))):
        ck.saw(i)
        if isinstance(x, Crash):
            ck.crash(x, "systematic visit %r" % (i,), commands=L)
    ck.cov.update(systematic_cases=len(cases), systematic_data=n, boundary_data=len(bd))
