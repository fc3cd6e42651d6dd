"""Runs command scripts through the instrumented driver and classifies what happened.

A case is a list of command lines.  run_cases() shards the cases over processes and returns for
every case either the list of result lines, or a Crash (sanitizer report, signal, hang) with a
stable key made of the kind of fault and the innermost frame inside the repository's own code.
"""
import os, re, subprocess, tempfile, threading, time, queue, select, signal

HANG_S = 20          # watchdog per case: only ever a suspicion, re-run alone before it counts
HANG_ALONE_S = 60
T0 = time.time()
DEADLINE_S = 760 if os.environ.get("VERIF_TIER", "quick") == "quick" else 6 * 3600   # a run that has become this slow stops starting cases
state = dict(hangs=0, late=0)      # confirmed hangs, cases given up at the deadline


def hx(b):
    """hex argument for the driver; None is NULL"""
    if b is None:
        return "-"
    if isinstance(b, str):
        b = b.encode("utf-8", "surrogateescape")
    return b.hex() if b else "."


def un(s):
    if s == "-":
        return None
    if s == ".":
        return b""
    return bytes.fromhex(s)


def counters(s):
    r = {}
    if s in (".", ""):
        return r
    for e in s.split(","):
        k, v = e.split("=")
        r[un(k).decode("latin-1")] = int(v)
    return r


class Crash:
    def __init__(self, kind, where, log, cmd=None):
        self.kind, self.where, self.log, self.cmd = kind, where, log, cmd

    @property
    def key(self):
        return "%s@%s" % (self.kind, self.where)

    def __repr__(self):
        return "<Crash %s>" % self.key


_FRAME = re.compile(r"^\s*#\d+ 0x[0-9a-f]+ in (\S+) (.*)$", re.M)


def _where(text, root):
    """innermost frames inside the repository's sources, file:function, no line numbers"""
    fr = []
    for fn, loc in _FRAME.findall(text):
        m = re.search(r"(?:^|/)((?:src|modules)/[^\s:]+\.[ch])", loc)
        if m and "libsanitizer" not in loc and "/harness/" not in loc:
            fr.append("%s:%s" % (m.group(1), fn))
            if len(fr) == 1:
                break
    return fr[0] if fr else "?"


def classify(text, rc, root):
    m = re.search(r"ERROR: AddressSanitizer: (\S+)", text)
    if m:
        return Crash(m.group(1), _where(text, root), text)
    m = re.search(r"^VERIFY: (\S+) in (\S+?):", text, re.M)
    if m:
        return Crash("monitor:" + m.group(1), m.group(2), text)
    m = re.search(r"([^\s:]+\.[ch]):(\d+):\d+: runtime error: (.*)", text)
    if m:
        msg = re.sub(r"0x[0-9a-f]+|-?\d+", "N", m.group(3))[:80]
        w = _where(text, root)
        if w == "?":
            mm = re.search(r"((?:src|modules)/\S+)", m.group(1))
            w = mm.group(1) if mm else m.group(1)
        return Crash("ubsan:" + msg, w, text)
    m = re.search(r"WARNING: MemorySanitizer: (\S+)", text)
    if m:
        return Crash("msan:" + m.group(1), _where(text, root), text)
    m = re.search(r"WARNING: ThreadSanitizer: ([a-z -]+)", text)
    if m:
        return Crash("tsan:" + m.group(1).strip(), _where(text, root), text)
    if re.search(r"ERROR: LeakSanitizer", text):
        return Crash("leak", _where(text, root), text)
    if rc is not None and rc < 0:
        return Crash("signal%d" % -rc, _where(text, root), text)
    return Crash("exit%s" % rc, _where(text, root), text)


def _run_once(tree, cases, idxs, env, cwd, timeout_case, cpu=None, prefix=(), drv=None):
    """One driver process over cases[idxs]; returns (results, crashed_index, crash, hung)."""
    res = {}
    script = []
    for i in idxs:
        script.append("B %d" % i)
        script.extend(cases[i])
    script.append("B end")
    data = ("\n".join(script) + "\n").encode()
    outf = tempfile.TemporaryFile()
    errf = tempfile.TemporaryFile()
    inf = tempfile.TemporaryFile()
    inf.write(data)
    inf.seek(0)
    p = subprocess.Popen(list(prefix) + [drv or tree.drv], stdin=inf, stdout=outf, stderr=errf, env=env, cwd=cwd,
                         start_new_session=True)
    hung = False
    last_size, last_t = -1, time.time()
    while True:
        try:
            p.wait(timeout=0.05 if last_size < 0 else 0.5)
            break
        except subprocess.TimeoutExpired:
            sz = os.fstat(outf.fileno()).st_size
            if sz != last_size:
                last_size, last_t = sz, time.time()
            elif time.time() - last_t > timeout_case or sz > 2 << 30:
                hung = True
                try:
                    os.killpg(p.pid, signal.SIGKILL)
                except ProcessLookupError:
                    pass
                p.wait()
                break
    inf.close()
    outf.seek(0)
    text = outf.read().decode("latin-1")
    outf.close()
    errf.seek(0)
    err = errf.read().decode("utf-8", "replace")
    errf.close()
    cur = None
    done = False
    for ln in text.split("\n"):
        if ln.startswith("B "):
            v = ln[2:].strip()
            if v == "end":
                done = True
                cur = None
            else:
                cur = int(v)
                res[cur] = []
        elif cur is not None and ln:
            sp = ln.find(" ")
            res[cur].append(ln[sp + 1:] if sp >= 0 else ln)
    if done and p.returncode == 0:
        return res, None, None, False, err
    if cur is None:
        cur = idxs[0] if not res else None
    if cur is None:      # died after the last case (exit-time report)
        return res, -1, classify(err, p.returncode, tree.root), False, err
    partial = res.pop(cur, [])
    c = classify(err, p.returncode, tree.root)
    if hung:
        c = Crash("hang", "?", "no output for %ds\n" % timeout_case + err[-2000:])
    c.partial = partial
    c.ncmd = len(partial)
    return res, cur, c, hung, err


def run_cases(tree, cases, env=None, cwd=None, jobs=8, shard=None, max_crashes=400, prefix=(), drv=None):
    """Returns list of results (list of result strings, or Crash), in the order of cases."""
    env = env or tree.env()
    own_cwd = None
    if cwd is None:
        own_cwd = tempfile.mkdtemp(prefix="vrun")
        cwd = own_cwd
    n = len(cases)
    results = [None] * n
    q = queue.Queue()
    shard = shard or max(1, min(400, (n + jobs * 4 - 1) // (jobs * 4)))
    for a in range(0, n, shard):
        q.put(list(range(a, min(n, a + shard))))
    errors = []
    ncrash = [0]

    def work():
        while True:
            try:
                idxs = q.get_nowait()
            except queue.Empty:
                return
            try:
                while idxs:
                    if time.time() - T0 > DEADLINE_S:
                        state["late"] += len(idxs)
                        ncrash[0] = max_crashes + 1
                    if ncrash[0] > max_crashes:
                        for i in idxs:
                            results[i] = Crash("skipped", "too many crashes", "")
                        break
                    res, ci, crash, hung, err = _run_once(tree, cases, idxs, env, cwd, HANG_S if state["hangs"] < 3 else 8, prefix=prefix, drv=drv)
                    for k, v in res.items():
                        results[k] = v
                    if ci is None:
                        break
                    if ci == -1:
                        crash.partial = []
                        results[idxs[-1]] = crash
                        break
                    if hung:
                        r2, c2, k2, h2, e2 = _run_once(tree, cases, [ci], env, cwd, HANG_ALONE_S if state["hangs"] < 3 else 20, prefix=prefix, drv=drv)
                        if c2 is None:
                            results[ci] = r2[ci]
                        else:
                            results[ci] = k2
                            state["hangs"] += 1
                            if state["hangs"] >= 3:      # the verdict is clear, more would only take time
                                ncrash[0] = max_crashes + 1
                    else:
                        results[ci] = crash
                        ncrash[0] += 1
                    idxs = [i for i in idxs if i > ci]
            except Exception as e:      # harness trouble, not a verdict
                errors.append(e)
                return

    ths = [threading.Thread(target=work) for _ in range(jobs)]
    for t in ths:
        t.start()
    for t in ths:
        t.join()
    if own_cwd:
        subprocess.call(["rm", "-rf", own_cwd])
    if errors:
        raise errors[0]
    return results
