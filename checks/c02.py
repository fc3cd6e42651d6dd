"""C02: results are a function of conversion, tables and input (MSan + differential)."""
import random
from vlib import gen, scale, work
from vlib.driver import Crash, hx


def run(ck):
    r = ck.r
    home = work.Home()
    ck.rule = ("(1) API histories under MemorySanitizer: any read of uninitialised memory that decides a branch, an address or the output is a report; "
               "(2) the same conversions and inputs run four times in processes that differ in heap fill pattern, allocator caching, order of the cases, "
               "junk on the heap and unrelated open instances: bytes and counters must be equal.  Non-trivial: a distinct (conversion, input) whose instance was created")
    ck.assumptions = ["codecs that read or write files outside the conversion (BSDCONV-LOG, SCORE-TRAIN, SCORE#WITH=TRAINED) are run, but the files are not part of the input",
                      "MSan sees through libc with its interceptors only"]
    # --- MSan
    t = ck.tree("msan")
    C = gen.Convs(t, r)
    cases, ident = [], []
    for kind in ("from", "inter", "to"):
        for nm in C.m[kind] + C.alias[kind]:
            if (kind, nm) in gen.SKIP or "STDOUT" in nm:
                continue
            for k in range(ck.n(3, 20)):
                a = gen.args_for(r, kind, nm)
                c = nm + ("#" + a if a else "")
                cv = {"from": c + ":UTF-8,BYTE,ANY#3F", "inter": "UTF-8,BSDCONV,BYTE:" + c + ":BSDCONV",
                      "to": "UTF-8,BSDCONV,ANY#013F:" + c}[kind]
                b = gen.payload(r)
                L = ["N 0 " + hx(cv), "O 0 " + hx(b), "I 0"]
                L += [work.feed(0, r.choice("AAHP"), 0, ch, r.choice([0, 1, 3]), r.choice([0, 1])) for ch in gen.split(r, b)]
                L += [work.feed(0, "A", 1, None), "R 0", "O 0 " + hx(gen.payload(r)), "D 0"]
                cases.append(L)
                ident.append((cv, b))
    for _ in range(ck.n(6000, 80000)):
        if r.random() < 0.5:
            L, cv = work.history(r, C, r.choice([1, 2]))
            ident.append(repr((cv, L)))
        else:
            cv, b = gen.work_item(C, r)
            L = ["N 0 " + hx(cv), "O 0 " + hx(b), "I 0"] + [work.feed(0, "A", 0, ch) for ch in gen.split(r, b)] + [work.feed(0, "A", 1, None), "R 0", "P 0", "D 0"]
            ident.append((cv, b))
        cases.append(L)
    for _ in range(ck.n(60, 600)):
        cv, b, _ = gen.paired(r)
        if gen.EXPAND.search(cv):
            continue
        b = scale.text(r, scale.pick(r, 1)[0], gen.FROMENC.get(cv.split(":")[0].split(",")[0], "utf-8"))
        cases.append(["N 0 " + hx(cv), "O 0 " + hx(b), "I 0"] + [work.feed(0, "A", 0, ch) for ch in gen.split(r, b)] + [work.feed(0, "A", 1, None), "R 0", "D 0"])
        ident.append((cv, b))
    rr = random.Random("rails/%d" % ck.seed)
    for _ in range(ck.n(1500, 20000)):
        L, cv = work.rails(rr, C)
        cases.append(L)
        ident.append(repr((cv, L)))
    for i, (L, x) in enumerate(zip(cases, ck.run("msan", cases, env=home.env(t)))):
        if isinstance(x, Crash):
            ck.saw(ident[i])
            ck.crash(x, "history %r" % (repr(ident[i])[:1000],), commands=L)
        else:
            ck.saw(ident[i], any(y.startswith("ok ") for y in x))
    nm = len(cases)
    # --- differential
    t = ck.tree("plain")
    items, seen = [], set()
    while len(items) < ck.n(8000, 80000):
        it = gen.work_item(C, r)
        if it not in seen:
            seen.add(it)
            items.append(it)
    while len(items) < ck.n(8000, 80000) + ck.n(150, 1500):
        cv, b, _ = gen.paired(r)
        if not gen.EXPAND.search(cv):
            items.append((cv, scale.text(r, scale.pick(r, 1)[0], gen.FROMENC.get(cv.split(":")[0].split(",")[0], "utf-8"))))
    others = [gen.paired(r)[0] for _ in range(6)]
    runs = []
    for k in range(4):
        order = list(range(len(items)))
        env = home.env(t)
        if k:
            r.shuffle(order)
        if k == 1:
            env["MALLOC_PERTURB_"] = "165"
        if k == 2:
            env["MALLOC_PERTURB_"] = "90"
            env["GLIBC_TUNABLES"] = "glibc.malloc.tcache_count=0"
        cases = []
        for i in order:
            cv, b = items[i]
            L = []
            if k == 1:
                L = ["churn %d" % r.choice([1, 255, 0])]
            if k == 2:
                o = r.choice(others)
                L = ["N 5 " + hx(o), "I 5", work.feed(5, "A", 0, gen.payload(r))]
            if k == 3:
                # the same instance has served something else before, and its counters were used
                L = ["X %s %s" % (hx(r.choice(items)[0]), hx(b)), "N 1 " + hx(cv), "O 1 " + hx(gen.payload(r)), "D 1"]
            L.append("X %s %s" % (hx(cv), hx(b)))
            if k == 2:
                L += ["F 5 A 1 1 - 0", "D 5"]
            cases.append(L)
        res = ck.run("plain", cases, env=env)
        d = {}
        for i, L, x in zip(order, cases, res):
            if isinstance(x, Crash):
                ck.crash(x, "run %d of %r" % (k, items[i]), commands=L)
                d[i] = None
            else:
                d[i] = [y for l, y in zip(L, x) if l[0] == "X"][-1]
        runs.append(d)
    ok = 0
    for i, (cv, b) in enumerate(items):
        v = [d[i] for d in runs]
        ck.saw((cv, b), not (v[0] or "null").startswith("null"))
        if None in v:
            continue
        ok += 1
        if len(set(v)) != 1:
            ck.violation("differs:" + cv, "%s on %s: %r" % (cv, b[:300].hex(), [y and y[:600] for y in v]), conv=cv, input=b.hex(), results=v)
    ck.sample(items[0])
    ck.sample(items[-1])
    home.done()
    ck.cov.update(msan_histories=nm, differential_inputs=len(items), compared=ok, runs_per_input=len(runs))
