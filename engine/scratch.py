"""Scratch copy of the package with extensions that match the working tree.

Checks never trust the .so files lying in /repo unless the build stamp shows
that they were built from exactly the sources that are there now."""
import hashlib
import os
import shutil
import subprocess
import sys

REPO = os.environ.get("VERIF_REPO", "/repo")
GENERATED = tuple("src/finalfusion/subword/%s.c" % n for n in ("explicit_indexer", "hash_indexers", "ngrams"))


def sha(p):
    with open(p, "rb") as f:
        return hashlib.sha256(f.read()).hexdigest()


def current(kind):
    out = {}
    for d, _, fs in os.walk(os.path.join(REPO, "src")):
        for f in fs:
            rel = os.path.relpath(os.path.join(d, f), REPO)
            ext = os.path.splitext(f)[1]
            if kind == "in" and ext in (".pyx", ".pxd", ".pxi", ".c", ".h") and rel not in GENERATED:
                out[rel] = sha(os.path.join(d, f))
            if kind == "out" and ext == ".so":
                out[rel] = sha(os.path.join(d, f))
    if kind == "in":
        for f in ("setup.py", "setup.cfg", "pyproject.toml", "README.md", "MANIFEST.in"):
            p = os.path.join(REPO, f)
            if os.path.exists(p):
                out[f] = sha(p)
    return out


def stamp_ok():
    try:
        with open(os.path.join(REPO, "build", ".vp-stamp")) as f:
            a, b = f.read().split("\n--\n")
        parse = lambda t: {l.split(None, 1)[1].strip(): l.split()[0] for l in t.splitlines() if l.strip()}
        return parse(a) == current("in") and parse(b) == current("out") and len(parse(b)) >= 3
    except (OSError, ValueError, IndexError):
        return False


def make(root):
    """-> directory to put on PYTHONPATH (raises on a failed build)"""
    ok = stamp_ok()
    dst = os.path.join(root, "repo")
    os.makedirs(dst)

    def ignore(d, names):
        out = []
        for n in names:
            if n == "__pycache__" or (n.endswith(".so") and not ok) or n.endswith(".pyc"):
                out.append(n)
            elif os.path.relpath(os.path.join(d, n), REPO) in GENERATED:
                out.append(n)
        return out

    shutil.copytree(os.path.join(REPO, "src"), os.path.join(dst, "src"), ignore=ignore)
    if not ok:
        for f in ("setup.py", "setup.cfg", "pyproject.toml", "README.md", "MANIFEST.in"):
            p = os.path.join(REPO, f)
            if os.path.exists(p):
                shutil.copy(p, dst)
        env = dict(os.environ)
        env.pop("PYTHONPATH", None)
        r = subprocess.run([sys.executable, "setup.py", "build_ext", "--inplace"], cwd=dst, env=env,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if r.returncode:
            raise RuntimeError("build failed: " + r.stdout.decode(errors="replace")[-2000:])
        shutil.rmtree(os.path.join(dst, "build"), ignore_errors=True)
    return os.path.join(dst, "src")


if __name__ == "__main__":
    try:
        p = make(sys.argv[1])
        msg = "ok " + p
    except Exception as ex:
        msg = "failed " + str(ex)
    with open(os.path.join(sys.argv[1], "ready.tmp"), "w") as f:
        f.write(msg)
    os.rename(os.path.join(sys.argv[1], "ready.tmp"), os.path.join(sys.argv[1], "ready"))
