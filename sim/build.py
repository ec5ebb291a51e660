"""Builds what a check needs from the current trees, into a scratch directory."""
import os
import subprocess
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("T2C_REPO", "/repo")


def shim(out):
    so = os.path.join(out, "simdisk.so")
    subprocess.run(["gcc", "-O1", "-U_FORTIFY_SOURCE", "-D_FORTIFY_SOURCE=0", "-fPIC", "-shared", "-o", so,
                    os.path.join(HERE, "simdisk.c"), "-ldl"], check=True, capture_output=True)
    return so


def cython_ext(out):
    """The compiled kernel of /repo's current .pyx; None when it does not build (then: not installed)."""
    pyx = os.path.join(REPO, "src", "tools21cm", "ViteBetti_cython.pyx")
    if not os.path.exists(pyx):
        return None
    script = """
import sys, os, shutil, glob
from setuptools import Extension, Distribution
from setuptools.command.build_ext import build_ext
from Cython.Build import cythonize
import numpy
os.chdir(%r)
os.makedirs("tools21cm", exist_ok=True)
open("tools21cm/__init__.py", "w").close()
shutil.copy(%r, "tools21cm/ViteBetti_cython.pyx")
ext = cythonize([Extension("tools21cm.ViteBetti_cython", ["tools21cm/ViteBetti_cython.pyx"], language="c++",
                 include_dirs=[numpy.get_include()], extra_compile_args=["-O1"])], quiet=True)
d = Distribution(dict(name="x", ext_modules=ext)); c = build_ext(d); c.inplace = 0
c.build_lib = "lib"; c.build_temp = "tmp"; c.ensure_finalized(); c.run()
print("SO=" + os.path.abspath(glob.glob("lib/**/*.so", recursive=True)[0]))
""" % (out, pyx)
    env = dict(os.environ)
    env.pop("LD_PRELOAD", None)
    r = subprocess.run([sys.executable, "-c", script], capture_output=True, text=True, env=env)
    for line in r.stdout.splitlines():
        if line.startswith("SO="):
            return line[3:]
    return None


if __name__ == "__main__":
    import tempfile
    with tempfile.TemporaryDirectory() as t:
        print("shim", shim(t))
