"""Builds /repo's current working tree, out of tree, in one of several instrumented variants.

The repository's own Makefile does the work (on a copy), so files added or renamed by a change
are picked up; only CC/CFLAGS differ.  Products live under /verif/build/<variant>-<hash of the
sources>, so a second check on the same tree in the same sandbox reuses them."""
import fcntl, hashlib, os, shutil, subprocess, sys, tempfile

REPO = os.environ.get("VERIF_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
OUT = os.path.join(VERIF, "build")

COMMON = "-g -O1 -fno-omit-frame-pointer -w -DBSDCONV_VERIFY"
VARIANTS = {
    # memory errors, undefined behaviour and leaks
    "asan": ("gcc", COMMON + " -fsanitize=address,undefined -fno-sanitize-recover=all"),
    # reads of uninitialised memory that influence control flow, addresses or output
    "msan": ("clang", COMMON + " -fsanitize=memory -fsanitize-memory-track-origins=2 -fno-sanitize-recover=all"),
    # data races
    # (clang: gcc does not watch static variables whose address is not taken)
    "tsan": ("clang", COMMON + " -fsanitize=thread"),
    # as shipped
    "plain": ("gcc", "-g -O2 -w"),
}
RUNENV = {
    "asan": {"ASAN_OPTIONS": "detect_leaks=0:abort_on_error=0:exitcode=99:halt_on_error=1:allocator_may_return_null=1:detect_stack_use_after_return=1:max_malloc_fill_size=4096:malloc_fill_byte=190:detect_odr_violation=0",
             "UBSAN_OPTIONS": "print_stacktrace=1:halt_on_error=1:exitcode=99",
             "LSAN_OPTIONS": "exitcode=99"},
    "msan": {"MSAN_OPTIONS": "halt_on_error=1:exitcode=99:poison_in_dtor=1"},
    "tsan": {"TSAN_OPTIONS": "halt_on_error=1:exitcode=99:second_deadlock_stack=1:report_signal_unsafe=0"},
    "plain": {},
}

class BuildError(Exception):
    pass


def _files():
    for top in ("src", "modules", "tools"):
        base = os.path.join(REPO, top)
        for d, ds, fs in os.walk(base):
            ds.sort()
            for f in sorted(fs):
                p = os.path.join(d, f)
                if os.path.isfile(p):
                    yield p
    yield os.path.join(REPO, "Makefile")


def tree_hash():
    h = hashlib.sha256()
    for p in _files():
        h.update(os.path.relpath(p, REPO).encode() + b"\0")
        with open(p, "rb") as fp:
            h.update(hashlib.sha256(fp.read()).digest())
    return h.hexdigest()[:16]


def _env(cflags):
    e = {k: v for k, v in os.environ.items()
         if k not in ("CFLAGS", "CC", "MAKEFLAGS", "BSDCONV_PATH", "PREFIX", "DESTDIR", "LIBS")}
    e["CFLAGS"] = cflags
    e["LC_ALL"] = "C.UTF-8"
    e["ASAN_OPTIONS"] = "detect_leaks=0"
    return e


def _harness_sources():
    d = os.path.join(VERIF, "harness")
    return sorted(os.path.join(d, f) for f in os.listdir(d) if f.endswith((".c", ".h")))


def build(variant, quiet=True):
    """Returns a Tree for the variant, building it if this exact source tree is not built yet."""
    cc, cflags = VARIANTS[variant]
    hh = hashlib.sha256()
    hh.update(OUT.encode())     # the tools know the directory they were installed to
    for p in _harness_sources() + [os.path.abspath(__file__)]:
        hh.update(open(p, "rb").read())
    key = "%s-%s-%s" % (variant, tree_hash(), hh.hexdigest()[:8])
    os.makedirs(OUT, exist_ok=True)
    dst = os.path.join(OUT, key)
    with open(os.path.join(OUT, variant + ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if not os.path.exists(os.path.join(dst, "ok")):
            # drop trees of older sources so that the disk does not fill up
            for n in os.listdir(OUT):
                if n.startswith(variant + "-"):
                    shutil.rmtree(os.path.join(OUT, n), ignore_errors=True)
            os.makedirs(dst)
            for n in ("src", "modules", "tools", "Makefile"):
                s = os.path.join(REPO, n)
                if os.path.isdir(s):
                    shutil.copytree(s, os.path.join(dst, n), symlinks=True)
                elif os.path.exists(s):
                    shutil.copy2(s, os.path.join(dst, n))
            env = _env(cflags)
            log = os.path.join(dst, "build.log")
            with open(log, "wb") as lf:
                r = subprocess.call(["make", "-j8", "SHELL=/bin/bash", ".SHELLFLAGS=-ec", "CC=" + cc, "PREFIX=" + os.path.join(dst, "build"),
                                     "all"] + (["bsdconv-dbg"] if cc == "gcc" else []), cwd=dst, env=env, stdout=lf, stderr=lf,
                                    stdin=subprocess.DEVNULL, timeout=1500)
            if r:
                tail = open(log, "rb").read()[-3000:].decode("utf-8", "replace")
                raise BuildError("build of variant %s failed:\n%s" % (variant, tail))
            _harness(variant, cc, cflags, dst, env)
            open(os.path.join(dst, "ok"), "w").close()
    return Tree(variant, dst)


def _harness(variant, cc, cflags, dst, env):
    hd = os.path.join(VERIF, "harness")
    jobs = []
    progs = [("drv", "drv.c", ["-lpthread"]), ("thr", "thr.c", ["-lpthread"])]
    if variant in ("asan", "plain"):
        progs.append(("drvf", "drv.c", ["-DFAULTS", "-rdynamic"]))
    for name, src, libs in progs:
        out = os.path.join(dst, "build", name)
        cmd = [cc] + cflags.split() + ["-DVARIANT_" + variant.upper(),
               "-I" + os.path.join(dst, "src"), os.path.join(hd, src), "-o", out,
               "-L" + os.path.join(dst, "build", "lib"), "-lbsdconv", "-ldl"] + libs
        jobs.append(cmd)
    if variant == "plain":
        jobs.append(["gcc", "-O2", "-shared", "-fPIC", os.path.join(hd, "sud.c"), "-o", os.path.join(dst, "build", "sud.so")])
    for cmd in jobs:
        r = subprocess.run(cmd, env=env, capture_output=True, text=True)
        if r.returncode:
            raise BuildError("harness: %s\n%s" % (" ".join(cmd), r.stderr[-3000:]))


class Tree:
    def __init__(self, variant, root):
        self.variant = variant
        self.root = root
        self.bin = os.path.join(root, "build", "bin")
        self.share = os.path.join(root, "build", "share", "bsdconv")
        self.drv = os.path.join(root, "build", "drv")
        self.sud = os.path.join(root, "build", "sud.so")
        self.drvf = os.path.join(root, "build", "drvf")

    def env(self, **kw):
        e = {k: v for k, v in os.environ.items()
             if not k.startswith(("BSDCONV", "ASAN_", "UBSAN_", "LSAN_", "MSAN_", "TSAN_", "LD_"))}
        e["BSDCONV_PATH"] = os.path.join(self.root, "build")
        e["LD_LIBRARY_PATH"] = os.path.join(self.root, "build", "lib")
        e["LC_ALL"] = "C.UTF-8"
        e.update(RUNENV[self.variant])
        e.update(kw)
        return e

    def modules(self, kind):
        """Names of the codecs built for a phase kind (from the build directory itself)."""
        d = os.path.join(self.share, kind)
        if kind in ("filter", "scorer"):
            return sorted(f[:-3] for f in os.listdir(d) if f.endswith(".so"))
        return sorted(f for f in os.listdir(d) if "." not in f and f != "alias")


if __name__ == "__main__":
    for v in sys.argv[1:] or list(VARIANTS):
        t = build(v)
        print(v, t.root)
