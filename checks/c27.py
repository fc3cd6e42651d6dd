"""C27: the in-place conversion, broken off or disturbed at each of its system calls."""
import errno, os, shutil, signal, stat, subprocess, tempfile
from concurrent.futures import ThreadPoolExecutor
from vlib import gen, work
from vlib.driver import Crash, hx, un
from checks.c04 import per_piece

LEVEL = "fault_enumeration"
ERR = {"open": [errno.EACCES, errno.EMFILE, errno.ENOSPC, errno.EROFS], "read": [errno.EIO, errno.EINTR, errno.EISDIR], "write": [errno.ENOSPC, errno.EIO, errno.EDQUOT, errno.EFBIG],
       "close": [errno.EIO, errno.ENOSPC, errno.EDQUOT], "rename": [errno.EACCES, errno.EIO, errno.EXDEV, errno.ENOSPC], "fsync": [errno.EIO]}
SIZES = [0, 1, 2, 7, 100, 1023, 1024, 1025, 2048, 4095, 4096, 4097, 8192, 8193, 12288, 20000]
CONVS = ["UTF-8:UTF-8", "UTF-8:UPPER:UTF-16LE", "UTF-8:NULL", "UTF-8:ASCII,ANY", "UTF-8:NL2BR:UTF-8", "CP950:UTF-8", "UTF-8:CP950", "UTF-8:NFD:UTF-8", "BYTE:HEX#PREFIX=%", "UTF-8:INSERT#BEFORE=0141&AFTER=0142:UTF-8", "UTF-8:WHITESPACE-DERAIL:WHITESPACE-RERAIL:UTF-8",
         "UTF-8:IBM-930", "UTF-8:BSDCONV", "UTF-8:NFC:UTF-8", "UTF-8:FULL:UTF-32BE", "UTF-8:UTF-8|UTF-8:UTF-16BE"]


def run(ck):
    r = ck.r
    tree = ck.tree("plain")
    home = work.Home()
    base = home.env(tree)
    top = tempfile.mkdtemp(prefix="c27-")
    ck.rule = ("the command converts one to three files in place while every system call it makes on their directory passes through a dispatcher: a first run counts them (open, create, read, write, stat, change mode and owner, close, rename, unlink), then for each of them the "
               "process is killed before it, after it, and halfway through a write, and each fails, transfers half, or (close) fails after closing; once, and from then on. After each run every file of the directory must have its complete old or complete new "
               "contents (what the library gives), with its old permissions and owner; other files next to them, named as temporary files might be, must be untouched; unless killed, nothing else may be left, and the exit status must be 0 just when all files are new; after a failing read, write, create or rename the file at hand must be old. Distinct: (conversion, sizes, call, kind of disturbance)")
    ck.assumptions = ["kills and failures are injected at system calls; power loss (no fsync is promised) is not covered", "unlink is not made to fail together with another call", "a failure to close or stat the input, or to set the owner, need not stop the conversion"]
    cov = {"scenarios": 0, "calls": {}, "kills": 0, "failures": 0, "short": 0, "lasting": 0, "old": 0, "new": 0, "exit_nonzero": 0, "temporary_left_by_kill": 0, "bystanders": 0}
    C = gen.Convs(tree, r, bad=0)

    def content(n):
        k = r.random()
        if k < 0.4:
            return (r.choice(["中", "é", "a\u0301", "\r\n", "hello ", "文字 x", " \n"]) * (n + 1)).encode()[:n]
        b = b""
        while len(b) < n:
            b += gen.rich(r, 30).encode(r.choice(["utf-8", "utf-8", "cp950", "utf-16-le"]), "ignore") or b"\n"
        return b[:n]

    # ---- scenarios
    scen = []
    BY = {}
    want, idx = [], []
    for i in range(ck.n(120, 1200)):
        cv = r.choice(CONVS) if r.random() < 0.7 or i < 6 else C.conv()
        if any(x in cv.upper() for x in ("BSDCONV-OUTPUT", "BSDCONV-STDOUT", "SCORE-TRAIN", "LOG", "PASS#", "BSDCONV_PASS", "LOCALE")) or per_piece(cv):
            cv = r.choice(CONVS)
        n = r.choice([1, 1, 1, 2, 3]) if ck.tier != "quick" or i % 3 else 1
        files = []
        for j in range(n):
            size = r.choice(SIZES) if ck.tier != "quick" or r.random() < 0.8 else r.randrange(40000)
            files.append((r.choice(["a%d", "b %d.txt", "ü%d", "-%d", "%d.XXXXXX"]) % j, content(size), r.choice([0o644, 0o600, 0o755, 0o444, 0o4711, 0o640]), r.choice([0, 0, 65534])))
        # files that are none of its business, with names a temporary file might have
        by = [(r.choice([f[0] + r.choice([".XXXXXX", ".tmp", ".bak", "~", ".orig", ".new", ".000000"]), "tmp", "." + f[0] + ".swp", ".XXXXXX", "XXXXXX"]), content(r.choice([0, 5, 700])), r.choice([0o644, 0o444, 0o600]), r.choice([0, 65534])) for f in files if r.random() < 0.6]
        BY[len(scen)] = list({x[0]: x for x in by if x[0] not in [f[0] for f in files]}.values())
        scen.append((cv, files))
        for f in files:
            want.append(["X %s %s" % (hx(cv), hx(f[1]))])
    res = ck.run("plain", want, env=base)
    k = 0
    good = []
    BYF = {}
    for i, (cv, files) in enumerate(scen):
        new = []
        for f in files:
            x = res[k]
            k += 1
            new.append(None if isinstance(x, Crash) or x[0].startswith("null") else un(x[0].split(" ")[0]) or b"")
        if None not in new:
            good.append((cv, files, new))
            BYF[id(files)] = BY[i]

    hung = []

    def once(cv, files, mode="", at=0, err=0):
        if len(hung) > 3:       # as good as decided: do not wait for the others
            return "skipped", b"", ["on"], {}
        d = tempfile.mkdtemp(dir=top) + "/"
        log = d[:-1] + ".log"
        for n, b, m, u in files + BYF[id(files)]:
            with open(d + n, "wb") as f:
                f.write(b)
            os.chown(d + n, u, u)
            os.chmod(d + n, m)
        env = dict(base, LD_PRELOAD=tree.sud, SUD_DIR=d, SUD_LOG=log, SUD_MODE=mode, SUD_AT=str(at), SUD_ERRNO=str(err))
        try:
            p = subprocess.run([os.path.join(tree.bin, "bsdconv"), cv, "-i"] + [d + f[0] for f in files], env=env, capture_output=True, timeout=60, stdin=subprocess.DEVNULL)
            rc, out = p.returncode, p.stdout + p.stderr
        except subprocess.TimeoutExpired:
            hung.append(cv)
            rc, out = None, b""
        calls = open(log, "rb").read().decode("utf-8", "replace").split("\n")[:-1] if os.path.exists(log) else []
        snap = {}
        for n in os.listdir(d):
            st = os.lstat(d + n)
            snap[n] = (stat.S_IMODE(st.st_mode), st.st_uid, st.st_gid, open(d + n, "rb").read() if stat.S_ISREG(st.st_mode) else None)
        shutil.rmtree(d)
        if os.path.exists(log):
            os.unlink(log)
        return rc, out, calls, snap

    def judge(cv, files, new, mode, at, err, got, calls0):
        rc, out, calls, snap = got
        if rc == "skipped":
            return
        hit = [c for c in calls[1:] if "!" in c]
        kind = hit[0].split("!")[0] if hit else "?"
        what = "%s -i of %s: %s at call %d (%s)%s" % (cv, [(f[0], len(f[1])) for f in files], mode or "undisturbed", at, hit[0] if hit else "", " with " + errno.errorcode[err] if err and mode in ("error", "errors", "late") else "")
        rep = dict(conversion=cv, files=[(f[0], f[1].hex()[:400], len(f[1]), f[2], f[3]) for f in files], mode=mode, at=at, error=err, calls=calls[:60], status=rc, left=[(n, len(s[3] or b""), oct(s[0])) for n, s in snap.items()])
        killed = mode in ("before", "after", "half")
        if not calls or calls[0] != "on":
            raise RuntimeError("the dispatcher is not available: %r %r" % (calls[:1], out[:200]))
        if rc is None:
            ck.violation("hang:%s:%s" % (mode, kind), "%s: no end" % what, **rep)
            return
        if mode and not hit:
            return
        if killed and rc != -signal.SIGKILL or not killed and rc < 0:
            ck.violation("died:%s:%s" % (mode, kind), "%s: ended with signal %s" % (what, rc), **rep)
            return
        states = []
        for (n, b, m, u), w in zip(files, new):
            s = snap.get(n)
            if s is None:
                ck.violation("gone:%s:%s" % (mode, kind), "%s: %s does not exist" % (what, n), **rep)
                states.append("?")
            elif s[3] == w and b != w:
                states.append("new")
            elif s[3] == b:
                states.append("same" if b == w else "old")
            else:
                ck.violation("mixed:%s:%s" % (mode, kind), "%s: %s has neither its old contents (%d bytes) nor its new (%d) but %d bytes" % (what, n, len(b), len(w), len(s[3] or b"")), **rep)
                states.append("?")
            if s and s[:3] != (m, u, u) and not (kind == "chown" and mode in ("error", "errors")):
                ck.violation("mode:%s:%s" % (mode, kind), "%s: %s had mode %o and owner %d, has %o and %d:%d" % (what, n, m, u, s[0], s[1], s[2]), **rep)
        cov["old"] += states.count("old")
        cov["new"] += states.count("new")
        for n, b, m, u in BYF[id(files)]:
            cov["bystanders"] += 1
            if snap.pop(n, None) != (m, u, u, b):
                ck.violation("bystander:%s:%s" % (mode, kind), "%s: %s, which was not to be converted, is not what it was" % (what, n), **rep)
        extra = set(snap) - {f[0] for f in files}
        if killed:
            cov["temporary_left_by_kill"] += bool(extra)
            return
        if extra and not (kind == "unlink" and mode in ("error", "errors")):
            ck.violation("left:%s:%s" % (mode, kind), "%s: %s is left behind" % (what, sorted(extra)), **rep)
        cov["exit_nonzero"] += rc != 0
        if "old" in states and rc == 0:
            ck.violation("status:%s:%s" % (mode, kind), "%s: a file is unchanged, the exit status is 0" % what, **rep)
        if rc != 0 and (not mode or mode == "short"):
            ck.violation("failed:%s:%s" % (mode, kind), "%s: the exit status is %d: %s" % (what, rc, out[-200:]), **rep)
        if mode in ("error", "errors") and kind in ("open", "read", "write", "rename") or mode in ("error", "errors", "late") and kind == "close" and writes_to(hit[0], calls):
            if rc == 0:
                ck.violation("unreported:%s:%s" % (mode, kind), "%s: the exit status is 0" % what, **rep)
            if "old" not in states and "same" not in states:
                ck.violation("lost:%s:%s" % (mode, kind), "%s: no file has its old contents" % what, **rep)

    def writes_to(hit, calls):
        """is the descriptor of this close the temporary file's?"""
        fd = hit.split("!")[1]
        before = calls[:calls.index(hit)]
        return any(c.replace("!", " ").startswith("write %s " % fd) for c in before)

    try:
        with ThreadPoolExecutor(8) as ex:
            firsts = list(ex.map(lambda s: once(s[0], s[1]), good))
            jobs = []
            for (cv, files, new), got in zip(good, firsts):
                judge(cv, files, new, "", 0, 0, got, None)
                calls = [c.replace("!", " ") for c in got[2][1:]]
                cov["scenarios"] += 1
                for c in calls:
                    cov["calls"][c.split(" ")[0]] = cov["calls"].get(c.split(" ")[0], 0) + 1
                ats = list(range(1, len(calls) + 1))
                if len(ats) > ck.n(40, 400):      # all kinds, the first and last ones, a sample of the reads and writes
                    rw = [i for i in ats if calls[i - 1].split(" ")[0] in ("read", "write")]
                    keep = set(ats) - set(rw) | set(rw[:2] + rw[-2:]) | set(r.sample(rw, min(len(rw), ck.n(16, 300))))
                    ats = sorted(keep)
                for at in ats:
                    kind = calls[at - 1].split(" ")[0]
                    ms = ["before", "error"]
                    if kind in ("rename", "unlink", "chmod", "open") or r.random() < 0.3:
                        ms.append("after")
                    if kind in ("read", "write"):
                        ms.append("short")
                    if kind == "write":
                        ms.append("half")
                    if kind in ("read", "write", "rename", "open", "close"):
                        ms.append("errors")
                    if kind == "close":
                        ms.append("late")
                    for m in ms:
                        jobs.append((cv, files, new, m, at, r.choice(ERR.get(kind, [errno.EIO, errno.EPERM])), len(calls)))
            for j, got in zip(jobs, ex.map(lambda j: once(j[0], j[1], j[3], j[4], j[5]), jobs)):
                judge(*j[:6], got, None)
                ck.saw((j[0], tuple(len(f[1]) for f in j[1]), j[4], j[3]))
                cov[{"before": "kills", "after": "kills", "half": "kills", "error": "failures", "late": "failures", "short": "short", "errors": "lasting"}[j[3]]] += 1
        ck.sample({"conversion": good[0][0], "calls": firsts[0][2]})

        # a file that cannot be opened among others; a directory; no file
        for i in range(ck.n(10, 100) if not hung else 0):
            cv, files, new = r.choice(good)
            d = tempfile.mkdtemp(dir=top) + "/"
            for n, b, m, u in files:
                open(d + n, "wb").write(b)
            at = r.randrange(len(files) + 1)
            odd = r.choice(["missing", "dir", "missing/x"])
            if odd == "dir":
                os.mkdir(d + "dir")
            names = [f[0] for f in files]
            names.insert(at, odd)
            try:
                p = subprocess.run([os.path.join(tree.bin, "bsdconv"), cv, "-i"] + [d + n for n in names], env=base, capture_output=True, timeout=60, stdin=subprocess.DEVNULL)
            except subprocess.TimeoutExpired:
                ck.violation("hang:odd", "%s -i of %s: no end" % (cv, names), names=names)
                break
            ck.saw((cv, "odd", odd, at))
            what = "%s -i of %s" % (cv, names)
            if p.returncode <= 0:
                ck.violation("odd-status", "%s: the exit status is %d" % (what, p.returncode), names=names)
            for (n, b, m, u), w, pos in zip(files, new, range(len(files))):
                g = open(d + n, "rb").read()
                if g not in (b, w):
                    ck.violation("odd-mixed", "%s: %s has neither its old nor its new contents" % (what, n), names=names)
            if set(os.listdir(d)) - set(names):
                ck.violation("odd-left", "%s leaves %s" % (what, os.listdir(d)), names=names)
            shutil.rmtree(d)
    finally:
        shutil.rmtree(top, ignore_errors=True)
        home.close() if hasattr(home, "close") else None
    ck.cov = cov
