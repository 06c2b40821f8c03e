"""Cleaning bytecode caches removes only bytecode caches."""

import contextlib
import io
import os
import shutil
import stat
import sys
import warnings

from hypothesis import strategies as st

from harness.core import HarnessError, Test, isolated, require
from harness.sut import pycachecleaner

with warnings.catch_warnings():
    warnings.simplefilter("ignore")
    from mcpyrate.repl import macropython

PROPERTY = "X01"
RULE = ("Cases: directory trees of up to 25 entries built in a scratch directory: nested directories and files with names at or near `__pycache__` (including files of that name, nested caches, "
        "names with spaces and other characters), symbolic links (to files, to directories inside and outside, dangling, loops) in any place, read-only files. The cleaner runs in a child "
        "process as an unprivileged user that owns only the scratch directory, by its functions or by the `macropython -c` command. What is left is compared with a set model. Non-trivial: at least one cache and one other entry.")
ASSUMPTIONS = ["the file system is not changed by others meanwhile"]
NAMES = ["__pycache__", "__pycache__", "a", "b", "__pycache__x", "x__pycache__", "__PYCACHE__", "m.cpython-312.pyc", "mod.py", "mod.pyc", "sp ace", "é", ".hidden", "*"]
NOBODY = 65534


@st.composite
def trees(draw):
    entries = []
    n = draw(st.integers(1, 25))
    for i in range(n):
        kind = draw(st.sampled_from(["dir", "dir", "dir", "file", "file", "link", "readonly"]))
        entry = [kind, draw(st.integers(0, i)), draw(st.sampled_from(NAMES))]
        if kind == "link":
            entry.append(draw(st.sampled_from(["outside_dir", "outside_file", "dangling", "root", "sibling", "self"])))
            entry.append(draw(st.integers(0, max(0, i))))
        entries.append(entry)
    return {"entries": entries, "at": draw(st.sampled_from(["root", "root", "slash", "relative", "dot"])), "cli": draw(st.booleans())}


def snapshot(top):
    out = {}
    for root, dirs, files in os.walk(top):
        for name in dirs + files:
            p = os.path.join(root, name)
            s = os.lstat(p)
            kind = "link" if stat.S_ISLNK(s.st_mode) else "dir" if stat.S_ISDIR(s.st_mode) else "file"
            out[os.path.relpath(p, top)] = kind + ":" + (os.readlink(p) if kind == "link" else open(p).read() if kind == "file" else "")
    return out


def build(case, top):
    """Make the tree. Directories that entries go in are numbered; 0 is the root."""
    root = os.path.join(top, "root")
    os.mkdir(root)
    out = os.path.join(top, "outside")
    os.mkdir(out)
    os.mkdir(os.path.join(out, "__pycache__"))
    for f in ("f", "__pycache__/g.pyc"):
        with open(os.path.join(out, f), "w") as h:
            h.write("outside")
    dirs = [root]
    for e in case["entries"]:
        parent = dirs[e[1] % len(dirs)]
        p = os.path.join(parent, e[2])
        if os.path.lexists(p):
            continue
        if e[0] == "dir":
            os.mkdir(p)
            dirs.append(p)
        elif e[0] in ("file", "readonly"):
            with open(p, "w") as h:
                h.write(e[2])
            if e[0] == "readonly":
                os.chmod(p, 0o444)
        else:
            target = {"outside_dir": out, "outside_file": os.path.join(out, "f"), "dangling": os.path.join(top, "nowhere"), "root": root,
                      "sibling": dirs[e[4] % len(dirs)], "self": p}[e[3]]
            os.symlink(target, p)
    return root


def model(before):
    """What should remain, and which caches there are."""
    caches = [p for p, k in before.items() if os.path.basename(p) == "__pycache__" and (k == "dir:" or k.startswith("link:"))]
    real = [p for p in caches if before[p] == "dir:"]
    left = {p: k for p, k in before.items() if not any(p == c or p.startswith(c + os.sep) for c in real)}
    return real, left


def command(*args):
    """Run the command line; return what it printed."""
    sys.argv = ["macropython", *args]
    out = io.StringIO()
    try:
        with contextlib.redirect_stdout(out):
            macropython.main()
        status = "no exit"
    except SystemExit as err:
        status = err.code
    require(not status, f"macropython {args} exits with {status!r}")
    return out.getvalue()


def listing(case, path):
    if not case.get("cli"):
        return pycachecleaner.getpycachedirs(path)
    out = command(*{0: ["-n", "-c", path], 1: ["-c", path, "-n"], 2: ["--clean", path, "--dry-run"]}[len(case["entries"]) % 3])
    return out.splitlines()


def deletion(case, path):
    if not case.get("cli"):
        return pycachecleaner.deletepycachedirs(path)
    out = command("-c" if len(case["entries"]) % 2 else "--clean", path)
    require(out == "", f"printed {out!r}")


def run(case, top):
    root = build(case, top)
    for d, dirs, files in os.walk(top):
        for x in [d] + [os.path.join(d, f) for f in files + dirs]:
            os.lchown(x, NOBODY, NOBODY)
    if os.getuid() == 0:
        os.setgroups([])
        os.setgid(NOBODY)
        os.setuid(NOBODY)
    if os.getuid() == 0:
        raise HarnessError("could not give up privileges")
    os.chdir(top)
    before = snapshot(top)
    inroot = {os.path.relpath(p, "root"): k for p, k in before.items() if p.startswith("root" + os.sep)}
    caches, left = model(inroot)
    path = {"root": root, "slash": root + os.sep, "relative": "root", "dot": "."}[case["at"]]
    if case["at"] == "dot":
        os.chdir(root)
    listed = listing(case, path)
    os.chdir(top)
    require(snapshot(top) == before, "listing changed the file system")
    for p in listed:
        require(p.startswith(path), f"{p!r} does not start with the given path {path!r}")
    rel = sorted(os.path.relpath(os.path.join(root if case["at"] == "dot" else top, p), root) for p in listed)
    require(len(set(rel)) == len(rel), f"listed twice: {rel}")
    links = {p for p, k in inroot.items() if k.startswith("link:") and os.path.basename(p) == "__pycache__"}
    missing, extra = set(caches) - set(rel), set(rel) - set(caches) - links
    require(not missing and not extra, f"listed {rel}, expected {sorted(caches)}")
    if case["at"] == "dot":
        os.chdir(root)
    deletion(case, path)
    os.chdir(top)
    after = snapshot(top)
    got = {os.path.relpath(p, "root"): k for p, k in after.items() if p.startswith("root" + os.sep)}
    # A symbolic link named `__pycache__` to a directory may be removed or not; never what it points to.
    gone, unexpected = {p: k for p, k in left.items() if p not in got and p not in links}, {p: k for p, k in got.items() if p not in left}
    require(not gone, f"deleted although not in a bytecode cache: {gone}")
    require(not unexpected, f"not deleted: {unexpected}")
    require({p: k for p, k in got.items() if left.get(p) != k} == {}, "changed")
    require({p: k for p, k in after.items() if p.startswith("outside")} == {p: k for p, k in before.items() if p.startswith("outside")}, "something outside was deleted")
    if case["at"] == "dot":
        os.chdir(root)
    again = [p for p in listing(case, path) if not os.path.islink(p)]
    require(again == [], f"after deletion, caches are found: {again}")
    deletion(case, path)
    os.chdir(top)
    require({p: k for p, k in snapshot(top).items() if os.path.basename(p) != "__pycache__"} == {p: k for p, k in after.items() if os.path.basename(p) != "__pycache__"}, "the second deletion removed something")
    for bad in (os.path.join(top, "no such"), os.path.join(top, "outside", "f")):
        try:
            pycachecleaner.getpycachedirs(bad)
            raise AssertionError("no error")
        except OSError:
            pass
        except AssertionError:
            require(False, "no error for something that is not a directory")
    return len(caches), len(left), len(links)


def check(case, ctx):
    top = os.path.join(os.environ["VERIF_SCRATCH"], "x")
    shutil.rmtree(top, ignore_errors=True)
    os.mkdir(top)
    try:
        caches, left, links = isolated(run, case, top, timeout=30)
    finally:
        shutil.rmtree(top, ignore_errors=True)
    ctx.event("caches", caches)
    ctx.event("other entries", left)
    ctx.event("links named __pycache__", links)
    ctx.nontrivial_case(caches > 0 and left > 0)


TESTS = [Test("trees", trees(), check, quick=3000, thorough=60000)]
