"""C23: counters and instance variables against maps."""
from vlib import filters, gen, scale
from vlib.driver import Crash, hx, un, counters

# codecs that count, and what they add for a text: (conversion, [(counter, function of the text)])
def n_ascii(t):
    return sum(c < "\x80" for c in t)


def n_other(t):
    return sum(c >= "\x80" for c in t)


def n_cjk(t):
    return sum(filters.admits("CJK", b"\x01" + ord(c).to_bytes(3, "big")) for c in t)


def convs(r, keys):
    k = lambda: r.choice([x for x in keys if x and not set(x) & set("=&:|,# \t\n") and x.isprintable() and x.isascii()] or ["K"])
    rc = lambda s: "".join(r.choice([c.upper(), c.lower()]) for c in s)
    a, b = k(), k()
    return r.choice([
        ("UTF-8:COUNT#%s:UTF-8" % a, [(a, len)]),
        ("UTF-8:COUNT:UTF-8", [("COUNT", len)]),
        ("UTF-8:COUNT#%s:COUNT#%s:UTF-8" % (a, rc(a)), [(a, len), (a, len)]),
        ("UTF-8:COUNT#%s:UTF-8|UTF-8:COUNT#%s:UTF-8" % (a, b), [(a, len), (b, len)]),
        ("UTF-8:ASCII,ANY#3F&ERROR=%s" % a, [(a, n_other)]),
        ("ASCII,UTF-8:ASCII", [("OERR", n_other)]),
        ("ASCII:COUNT#%s:ASCII" % a, [("IERR", lambda t: sum(len(c.encode()) for c in t if c >= "\x80")), (a, n_ascii)]),
        ("UTF-8:COUNT#FOR=CJK&%s:ASCII,ANY#3F&ERROR=%s" % (a, rc(a)), [(a, n_cjk), (a, n_other)]),
        ("UTF-8:COUNT#OERR:ASCII", [("OERR", len), ("OERR", n_other)]),
        ("UTF-8:PASS:UTF-8", []),
    ])


def up(s):
    return bytes(c - 32 if 97 <= c <= 122 else c for c in (s if isinstance(s, bytes) else s.encode("latin-1")))


def run(ck):
    r = ck.r
    tree = ck.tree("asan")
    ck.rule = ("sequences of 10 to 300 operations on one to four instances of conversions that count, over pools of one to sixty keys that are equal but for letter case, prefixes of each other, empty, or not ASCII: get, add, test, set, delete, reset of one and of all, "
               "addresses kept over later operations, conversions in between, initialisation, destruction with variables set. Oracle: a map of upper-cased names to numbers and a map of names to pointers per instance, compared at every operation and in full after each. "
               "Distinct: operation sequences")
    cov = {"operations": {}, "max_counters": 0, "max_variables": 0, "held_addresses": 0, "conversions": 0, "full_comparisons": 0}
    base = [b"A", b"a", b"AB", b"ab", b"Ab", b"ABC", b"IERR", b"ierr", b"OERR", b"COUNT", b"count", b"", b"\xe9", b"\xc9", b"\xff", b"zz", b"ZZ", b"Z", b"A B", b"%s", b"x" * 200, b"X" * 200, b"[", b"{", b"@", b"`", b"FULL", b"Key", b"kEY"]
    cases, meta = [], []
    for _ in range(ck.n(1200, 30000)):
        pool = r.sample(base, r.choice([1, 2, 4, 8, 20]))
        if r.random() < 0.2:
            pool += [b"k%d" % i for i in range(r.choice([10, 40]))]
        if r.random() < 0.1:        # long names that differ only late
            n = r.choice(scale.NEAR)
            q = bytes(r.choice(b"abXY_09") for _ in range(n))
            pool += [q, q + b"1", q + b"2", q[:-1] + b"!", q[:-1] + b"Q", q[:-1] + b"q", q[:n // 2], q[:n // 2] + b"-" + q[n // 2 + 1:]]
            r.shuffle(pool)
        if r.random() < 0.02:
            pool += [b"many%d" % i for i in range(300)]
        tx = [p.decode("latin-1") for p in pool]
        ns = r.choice([1, 1, 2, 3, 4])
        L, E = [], []            # commands; expected results (None: not looked at)
        cnt, var, adds = {}, {}, {}
        held = {}
        ops = []
        def new(s):
            cv, ad = convs(r, tx)
            L.append("N %d %s" % (s, hx(cv)))
            E.append(("ok", None))
            cnt[s], var[s] = {b"IERR": 0, b"OERR": 0}, {}
            adds[s] = ad
            for k, _ in ad:
                cnt[s].setdefault(up(k), 0)
            L.append("I %d" % s)
            E.append(None)
            for h in [h for h, (t, k) in held.items() if t == s]:
                del held[h]
        def full(s):
            L.append("R %d" % s)
            E.append(("counters", dict(cnt[s])))
            cov["full_comparisons"] += 1
        for s in range(ns):
            new(s)
        for _ in range(r.choice([10, 30, 60, 120, 300])):
            s = r.randrange(ns)
            k = r.choice(pool)
            K = up(k)
            op = r.choice(["G", "g", "g", "Z", "Z-", "R", "hold", "held", "held", "hs", "hs", "hg", "hh", "hd", "F", "I", "X"])
            if op == "X" and r.random() < 0.8:
                op = "hg"
            cov["operations"][op] = cov["operations"].get(op, 0) + 1
            ops.append((op, s, k))
            c, v = cnt[s], var[s]
            if op == "G":
                L.append("G %d %s" % (s, hx(k)))
                E.append(("=", str(c.setdefault(K, 0))))
            elif op == "g":
                n = r.choice([1, 2, 7, 1000000])
                c[K] = c.get(K, 0) + n
                L.append("g %d %s %d" % (s, hx(k), n))
                E.append(("=", str(c[K])))
            elif op == "Z":
                c[K] = 0
                L.append("Z %d %s" % (s, hx(k)))
                E.append(None)
            elif op == "Z-":
                for q in c:
                    c[q] = 0
                L.append("Z %d -" % s)
                E.append(None)
            elif op == "R":
                full(s)
            elif op == "hold":
                h = r.randrange(20)
                c.setdefault(K, 0)
                held[h] = (s, K)
                L.append("hold %d %s %d" % (s, hx(k), h))
                E.append(None)
                cov["held_addresses"] += 1
            elif op == "held" and held:
                h = r.choice(list(held))
                t, q = held[h]
                n = r.choice([0, 1, 3])
                cnt[t][q] += n
                L.append("held 0 %d %d" % (h, n))
                E.append(("=", str(cnt[t][q])))
            elif op == "hs":
                p = r.choice([0, 1, 2, 3, 4096, 10 ** 9])
                v[k] = p
                L.append("hs %d %s %d" % (s, hx(k), p))
                E.append(None)
            elif op == "hg":
                L.append("hg %d %s" % (s, hx(k)))
                E.append(("=", str(v.get(k, 0))))
            elif op == "hh":
                L.append("hh %d %s" % (s, hx(k)))
                E.append(("=", str(int(k in v))))
            elif op == "hd":
                v.pop(k, None)
                L.append("hd %d %s" % (s, hx(k)))
                E.append(None)
            elif op == "F":
                t = gen.rich(r, r.choice([0, 1, 3, 9]))
                t = "".join(x for x in t if x != "\0")
                for q, f in adds[s]:
                    c[up(q)] += f(t)
                L.append("F %d A 1 1 %s 0" % (s, hx(t.encode())))
                E.append(None)
                L.append("I %d" % s)
                E.append(None)
                cov["conversions"] += 1
            elif op == "I":
                L.append("I %d" % s)
                E.append(None)
            elif op == "X":
                L.append("D %d" % s)
                E.append(None)
                new(s)
            cov["max_counters"] = max(cov["max_counters"], len(c))
            cov["max_variables"] = max(cov["max_variables"], len(v))
            if r.random() < 0.2:
                full(s)
        for s in range(ns):
            full(s)
            for k in pool:
                L.append("hh %d %s" % (s, hx(k)))
                E.append(("=", str(int(k in var[s]))))
                L.append("hg %d %s" % (s, hx(k)))
                E.append(("=", str(var[s].get(k, 0))))
            L.append("D %d" % s)
            E.append(None)
        cases.append(L)
        meta.append((E, ops))
    for L, x, (E, ops) in zip(cases, ck.run("asan", cases), meta):
        if isinstance(x, Crash):
            ck.crash(x, "operations on counters and variables", commands=L)
            continue
        ck.saw(tuple(ops), len(ops) > 5)
        for i, e in enumerate(E):
            if e is None:
                continue
            if e[0] == "ok":
                if not x[i].startswith("ok"):
                    ck.violation("create", "refused: %s" % L[i], commands=L)
                    break
            elif e[0] == "=":
                if x[i] != e[1]:
                    ck.violation("op:" + L[i].split()[0], "%s gives %s, the model %s" % (L[i], x[i], e[1]), commands=L[:i + 1])
                    break
            else:
                got = [y.split("=") for y in x[i].split(",")] if x[i] != "." else []
                g = {(un(k) or b""): int(n) for k, n in got}
                if len(g) != len(got):
                    ck.violation("twice", "a counter is kept twice: %s" % x[i], commands=L[:i + 1])
                    break
                if g != e[1]:
                    ck.violation("counters", "%s, the model %s" % (g, e[1]), commands=L[:i + 1])
                    break
    ck.sample({"operations": [(a, s, k.decode("latin-1")) for a, s, k in meta[0][1][:12]]})
    ck.cov = cov
