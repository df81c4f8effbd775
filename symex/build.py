"""Scratch copy of /repo's working tree with its extensions built in it."""
import json
import os
import pathlib
import shutil
import subprocess
import tempfile

REPO = os.environ.get("VERIF_REPO", "/repo")
PY = "/opt/venv/bin/python"


def make(extensions=True):
    root = tempfile.mkdtemp(prefix="verif-symex-")
    try:
        ign = shutil.ignore_patterns("*.so", "*.pyc", "__pycache__", "tests")
        shutil.copytree(os.path.join(REPO, "pydatastructs"), os.path.join(root, "pydatastructs"), ignore=ign, symlinks=False)
        # meson.build files list the test files: keep those
        for t in pathlib.Path(REPO, "pydatastructs").rglob("tests"):
            dst = pathlib.Path(root, "pydatastructs", t.relative_to(pathlib.Path(REPO, "pydatastructs")))
            shutil.copytree(t, dst, ignore=shutil.ignore_patterns("*.so", "*.pyc", "__pycache__"))
        for f in ("meson.build", "meson_options.txt", "meson.options", "pyproject.toml", "README.md", "LICENSE"):
            p = os.path.join(REPO, f)
            if os.path.exists(p):
                shutil.copy(p, root)
        if extensions:
            _extensions(root)
    except BaseException:
        shutil.rmtree(root, ignore_errors=True)
        raise
    return root


def _extensions(root):
    env = dict(os.environ)
    env["PATH"] = "/opt/venv/bin:" + env.get("PATH", "")
    env.update(VIRTUAL_ENV="/opt/venv", CXXFLAGS="-std=c++17", CC="/usr/bin/gcc", CXX="/usr/bin/g++",
               PYTHONDONTWRITEBYTECODE="1")
    env.pop("PYTHONPATH", None)
    b = os.path.join(root, "build")

    def run(*cmd):
        r = subprocess.run(cmd, cwd=root, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode:
            raise RuntimeError("build failed: %s\n%s" % (" ".join(cmd), r.stdout[-4000:]))
        return r.stdout
    run("meson", "setup", b, "--prefix=/usr")
    run("ninja", "-C", b)
    out = subprocess.run(["meson", "introspect", "--installed", b], cwd=root, env=env, stdout=subprocess.PIPE, text=True).stdout
    for src, dest in json.loads(out).items():
        if src.endswith(".so"):
            d = os.path.join(root, dest[dest.index("pydatastructs/"):])
            shutil.copy(src, d)


if __name__ == "__main__":
    import time
    t = time.time()
    r = make()
    print(r, time.time() - t)
    shutil.rmtree(r)
