"""Runs the command line tools of a built tree in a scratch directory."""
import os, subprocess
from .driver import classify, Crash


def run(tree, tool, args, stdin=b"", cwd=None, env=None, timeout=120, prefix=()):
    """-> (rc, stdout, stderr, Crash or None)"""
    env = env or tree.env()
    try:
        p = subprocess.run(list(prefix) + [os.path.join(tree.bin, tool)] + args, input=stdin, capture_output=True, cwd=cwd, env=env,
                           timeout=timeout)
    except subprocess.TimeoutExpired:
        return None, b"", b"", Crash("hang", tool, "no end after %ds" % timeout)
    err = p.stderr.decode("utf-8", "replace")
    c = None
    if p.returncode < 0 or "Sanitizer" in err or "runtime error:" in err:
        c = classify(err, p.returncode, tree.root)
        if c.where == "?":
            c.where = tool
    return p.returncode, p.stdout, p.stderr, c
