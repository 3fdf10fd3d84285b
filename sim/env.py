"""Paths, and the Cython modules compiled from the current /repo tree (outside /repo)."""
import hashlib
import os
import shutil
import subprocess
import sys
import tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SRC = os.path.join(REPO, "CasimirRio")
BUILD = os.path.join(VERIF, ".build")


class HarnessError(Exception):
    """Something is wrong with the machinery or its environment, not with the code under test."""


def build_ext():
    """compile every *.pyx of the tree with the project's own setup script; returns the folder"""
    import numpy
    pyx = sorted(f[:-4] for f in os.listdir(SRC) if f.endswith(".pyx"))
    h = hashlib.sha256(sys.version.encode() + numpy.__version__.encode())
    for name in sorted(os.listdir(SRC)):
        if name.endswith((".pyx", ".pxd", ".pxi")) or name.endswith("_setup.py"):
            h.update(name.encode() + b"\0" + open(os.path.join(SRC, name), "rb").read() + b"\0")
    out = os.path.join(BUILD, h.hexdigest()[:16])
    if os.path.isdir(out):
        return out
    os.makedirs(BUILD, exist_ok=True)
    tmp = tempfile.mkdtemp(dir=BUILD, prefix="tmp-")
    try:
        for name in os.listdir(SRC):
            if name.endswith((".pyx", ".pxd", ".pxi")) or name.endswith("_setup.py"):
                shutil.copy(os.path.join(SRC, name), tmp)
        procs = []
        for m in pyx:
            env = dict(os.environ, CFLAGS="-I" + numpy.get_include())
            procs.append((m, subprocess.Popen(
                [sys.executable, m + "_setup.py", "build_ext", "--inplace", "--force"],
                cwd=tmp, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)))
        for m, p in procs:
            log = p.communicate()[0]
            if p.returncode or not [f for f in os.listdir(tmp) if f.startswith(m + ".") and f.endswith(".so")]:
                raise HarnessError("build of %s failed:\n%s" % (m, log.decode(errors="replace")[-2000:]))
        keep = os.path.join(tmp, "so")
        os.mkdir(keep)
        for f in os.listdir(tmp):
            if f.endswith(".so"):
                shutil.copy(os.path.join(tmp, f), keep)
        try:
            os.rename(keep, out)
        except OSError:
            if not os.path.isdir(out):
                raise
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    return out
