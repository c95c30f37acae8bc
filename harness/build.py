"""Builds repast4py from /repo's working tree into a cache outside /repo, keyed by content.

build() -> directory to put on PYTHONPATH.  Nothing in /repo or /opt/vp is written.
"""
import hashlib, os, shutil, subprocess, sys, tempfile, textwrap, fcntl, glob, time

REPO = os.environ.get("R4V_REPO", "/repo")
PY = "/opt/venv/bin/python"
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

DRIVER = textwrap.dedent("""
    import sys, os, concurrent.futures as cf
    import setuptools
    try:
        from setuptools._distutils import ccompiler
        CC = ccompiler.CCompiler
    except Exception:
        from distutils import ccompiler
        CC = ccompiler.CCompiler
    def par(self, sources, output_dir=None, macros=None, include_dirs=None, debug=0,
            extra_preargs=None, extra_postargs=None, depends=None):
        macros, objects, extra, pp, build = self._setup_compile(
            output_dir, macros, include_dirs, sources, depends, extra_postargs)
        cc = self._get_cc_args(pp, debug, extra_preargs)
        def one(o):
            src, ext = build[o]
            self._compile(o, src, ext, cc, extra, pp)
        with cf.ThreadPoolExecutor(8) as ex:
            list(ex.map(one, [o for o in objects if o in build]))
        return objects
    try:
        from setuptools._distutils.compilers.C import base
        base.Compiler.compile = par
    except Exception:
        pass
    CC.compile = par
    sys.argv = ["setup.py", "build_ext", "--inplace", "--force", "-j", "2"]
    exec(compile(open("setup.py").read(), "setup.py", "exec"))
    """)


def env():
    """Environment for running the code under test (as /opt/vp/env.sh, without the shared ccache)."""
    e = dict(os.environ)
    for k in list(e):
        if k.startswith(("OMPI_", "PMIX_", "CCACHE")):
            del e[k]
    e.update(HOME="/root" if os.access("/root", os.W_OK) else tempfile.gettempdir(),
             PYTHONDONTWRITEBYTECODE="1", PIP_NO_INDEX="1", PYTHONHASHSEED="0",
             CC="mpicxx.openmpi", CXX="mpicxx.openmpi", OMPI_CXX="g++", CCACHE_DISABLE="1",
             OMPI_ALLOW_RUN_AS_ROOT="1", OMPI_ALLOW_RUN_AS_ROOT_CONFIRM="1",
             OMPI_MCA_btl="self,vader", OMPI_MCA_pml="ob1", OMPI_MCA_osc="^ucx",
             OMPI_MCA_plm_rsh_agent="/bin/false", OMPI_MCA_rmaps_base_oversubscribe="1",
             OMPI_MCA_mpi_yield_when_idle="1", OMPI_MCA_hwloc_base_binding_policy="none",
             OMPI_MCA_btl_vader_single_copy_mechanism="none", RDMAV_FORK_SAFE="1",
             HWLOC_COMPONENTS="-gl", OMP_NUM_THREADS="1", MKL_NUM_THREADS="1",
             OPENBLAS_NUM_THREADS="1", NUMBA_NUM_THREADS="1")
    return e


def _files():
    src = os.path.join(REPO, "src")
    for d, dirs, fs in os.walk(src):
        dirs[:] = sorted(x for x in dirs if x not in ("__pycache__",) and not x.endswith(".egg-info"))
        for f in sorted(fs):
            if not f.endswith((".so", ".pyc", ".o")):
                yield os.path.join(d, f)
    for f in ("setup.py", "setup.cfg", "pyproject.toml", "README.md"):
        p = os.path.join(REPO, f)
        if os.path.exists(p):
            yield p


def _digest():
    h = hashlib.sha256()
    h.update(DRIVER.encode())
    for p in _files():
        h.update(os.path.relpath(p, REPO).encode() + b"\0")
        with open(p, "rb") as f:
            h.update(f.read())
        h.update(b"\0")
    return h.hexdigest()[:20]


class BuildError(Exception):
    pass


def cache_root():
    for c in (os.environ.get("R4V_CACHE"), os.path.join(VERIF, ".cache")):
        if c:
            try:
                os.makedirs(c, exist_ok=True)
                t = tempfile.TemporaryFile(dir=c)
                t.close()
                return c
            except OSError:
                pass
    return tempfile.mkdtemp(prefix="r4v.")


def build():
    root = cache_root()
    dest = os.path.join(root, "b-" + _digest())
    with open(os.path.join(root, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if os.path.exists(os.path.join(dest, "ok")):
            os.utime(os.path.join(dest, "ok"))
            return os.path.join(dest, "src")
        shutil.rmtree(dest, ignore_errors=True)
        for p in _files():
            q = os.path.join(dest, os.path.relpath(p, REPO))
            os.makedirs(os.path.dirname(q), exist_ok=True)
            shutil.copyfile(p, q)
        cxx = os.path.join(dest, "cxx")
        with open(cxx, "w") as f:   # later flags win: quicker compile, asserts on
            f.write('#!/bin/sh\nfor a in "$@"; do case "$a" in -show|-showme*) exec mpicxx.openmpi "$@";; esac; done\n'
                    'exec mpicxx.openmpi "$@" -O1 -g0 -w\n')
        os.chmod(cxx, 0o755)
        e = env()
        e.update(CC=cxx, CXX=cxx)
        t = time.time()
        with open(os.path.join(dest, "drv.py"), "w") as f:
            f.write(DRIVER)
        r = subprocess.run([PY, "drv.py"], cwd=dest, env=e, capture_output=True, text=True)
        sos = glob.glob(os.path.join(dest, "src/repast4py/*.so"))
        if r.returncode or len(sos) < 2:
            raise BuildError((r.stdout + r.stderr)[-3000:])
        shutil.rmtree(os.path.join(dest, "build"), ignore_errors=True)
        with open(os.path.join(dest, "ok"), "w") as f:
            f.write("%.1f" % (time.time() - t))
        old = sorted(glob.glob(os.path.join(root, "b-*/ok")), key=os.path.getmtime)[:-8]
        for o in old:
            shutil.rmtree(os.path.dirname(o), ignore_errors=True)
    return os.path.join(dest, "src")


if __name__ == "__main__":
    t = time.time()
    print(build(), "%.1fs" % (time.time() - t))
