"""Import POT from /repo's working tree, with native extensions that match its sources.

The Python files always come straight from /repo.  For the two compiled
extensions the source digest is compared with the stamp the project's own build
leaves; when it does not match (somebody changed C++/Cython sources and did not
rebuild) they are compiled outside the tree and imported from there instead.
"""
import glob
import hashlib
import importlib.abc
import importlib.util
import os
import shutil
import subprocess
import sys
import sysconfig
import tempfile

REPO = os.environ.get("POT_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EXTS = {
    "ot.lp.emd_wrap": ("ot/lp", ["emd_wrap.pyx", "EMD_wrapper.cpp"]),
    "ot.partial.partial_cython": ("ot/partial", ["partial_cython.pyx"]),
}


def _files(directory):
    out = []
    for kind in ("*.pyx", "*.pxd", "*.h", "*.hpp", "*.cpp", "*.c"):
        out += glob.glob(os.path.join(REPO, directory, kind))
    return [
        p
        for p in sorted(out)
        if not (p.endswith(".cpp") and os.path.exists(p[:-4] + ".pyx"))
    ]


def stamp_digest(directory):
    """The digest that /opt/vp/build_ext.py stores as build stamp."""
    h = hashlib.sha256(sys.version.encode())
    files = [os.path.join(REPO, "setup.py"), *glob.glob(REPO + "/ot/helpers/*.py")]
    files += _files(directory)
    for path in sorted(os.path.relpath(f, REPO) for f in files):
        with open(os.path.join(REPO, path), "rb") as f:
            h.update(path.encode() + b"\0" + hashlib.sha256(f.read()).digest())
    return h.hexdigest()


def source_digest(directory, extra=""):
    h = hashlib.sha256((sys.version + extra).encode())
    for path in _files(directory):
        with open(path, "rb") as f:
            h.update(os.path.basename(path).encode() + b"\0" + f.read() + b"\0")
    return h.hexdigest()


def cache_dir():
    for base in (
        os.path.join(VERIF, ".cache"),
        os.path.join(tempfile.gettempdir(), "verif-cache-%d" % os.getuid()),
    ):
        try:
            os.makedirs(base, exist_ok=True)
            t = tempfile.NamedTemporaryFile(dir=base)
            t.close()
            return base
        except OSError:
            continue
    return tempfile.mkdtemp(prefix="verif-cache-")


def compile_ext(ext, flags=("-O2",), tag="", cxx="g++", extra_src=(), libs=()):
    """Cythonize + compile one extension out of tree, return the .so path (cached)."""
    directory, sources = EXTS[ext]
    flags = list(flags)
    digest = source_digest(directory, " ".join([cxx, *flags, tag, *libs]) + "".join(open(f).read() for f in extra_src))
    base = ext.rsplit(".", 1)[1]
    out_dir = os.path.join(cache_dir(), base + "-" + digest[:24])
    so = os.path.join(out_dir, base + sysconfig.get_config_var("EXT_SUFFIX"))
    if os.path.exists(so):
        return so
    work = tempfile.mkdtemp(prefix="potbuild-")
    try:
        src = os.path.join(work, "src")
        shutil.copytree(os.path.join(REPO, directory), src, ignore=shutil.ignore_patterns("*.so", "*.py", "__pycache__"))
        import numpy

        jobs = []
        for s in sources:
            if s.endswith(".pyx"):
                r = subprocess.run(
                    [sys.executable, "-m", "cython", "--cplus", "-3", "--module-name", ext, s, "-o", s[:-4] + ".cpp"],
                    cwd=src, capture_output=True, text=True,
                )
                if r.returncode:
                    raise RuntimeError("cython failed on %s:\n%s" % (s, r.stderr[-3000:]))
                s = s[:-4] + ".cpp"
            jobs.append(s)
        procs = []
        for s in list(jobs) + list(extra_src):
            o = os.path.join(work, os.path.basename(s) + ".o")
            cmd = [cxx, "-c", "-fPIC", "-fopenmp", "-w", "-DNDEBUG", *flags, "-I" + numpy.get_include(),
                   "-I" + sysconfig.get_path("include"), "-I" + src, s, "-o", o]
            if s in extra_src:
                cmd = [c for c in cmd if not c.startswith("-fsanitize-coverage")]
            procs.append((o, subprocess.Popen(cmd, cwd=src, stderr=subprocess.PIPE, text=True)))
        objs = []
        for o, p in procs:
            err = p.communicate()[1]
            if p.returncode:
                raise RuntimeError("compilation failed:\n" + err[-3000:])
            objs.append(o)
        tmp_so = os.path.join(work, "out.so")
        r = subprocess.run([cxx, "-shared", "-fopenmp", *flags, *objs, "-o", tmp_so, *libs], capture_output=True, text=True)
        if r.returncode:
            raise RuntimeError("link failed:\n" + r.stderr[-3000:])
        os.makedirs(out_dir, exist_ok=True)
        fd, t = tempfile.mkstemp(dir=out_dir)
        os.close(fd)
        shutil.copy(tmp_so, t)
        os.chmod(t, 0o755)
        os.replace(t, so)
        return so
    finally:
        shutil.rmtree(work, ignore_errors=True)


class _Blocker(importlib.abc.MetaPathFinder):
    """Optional third-party packages that only slow the import down are left out."""

    def __init__(self, names):
        self.names = names

    def find_spec(self, name, path=None, target=None):
        if name.split(".")[0] in self.names:
            raise ImportError(name + " is left out of this check")
        return None


class _Finder(importlib.abc.MetaPathFinder):
    def __init__(self, table):
        self.table = table

    def find_spec(self, name, path=None, target=None):
        if name in self.table:
            return importlib.util.spec_from_file_location(name, self.table[name])
        return None


def native_table(force=None):
    """{ext: .so path} for the extensions whose in-tree build is not current."""
    table = {}
    for ext, (directory, _) in EXTS.items():
        if force and ext in force:
            table[ext] = force[ext]
            continue
        stamp = os.path.join(REPO, "build/vp-stamps", ext)
        in_tree = glob.glob(os.path.join(REPO, ext.replace(".", "/") + ".*.so"))
        try:
            ok = bool(in_tree) and open(stamp).read() == stamp_digest(directory)
        except OSError:
            ok = False
        if not ok:
            table[ext] = compile_ext(ext)
    return table


def prepare_env(backends=(), omp=1):
    """Environment for a checking process; must run before numpy/ot are imported."""
    for k in ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS", "MKL_NUM_THREADS",
              "TF_NUM_INTRAOP_THREADS", "TF_NUM_INTEROP_THREADS"):
        os.environ[k] = "1"
    if omp > 1:
        os.environ["OMP_NUM_THREADS"] = str(omp)
        os.environ["OMP_WAIT_POLICY"] = "passive"
        os.environ["GOMP_SPINCOUNT"] = "0"
    os.environ["PYTHONDONTWRITEBYTECODE"] = "1"
    os.environ["CUDA_VISIBLE_DEVICES"] = ""
    os.environ["MPLBACKEND"] = "Agg"
    os.environ["TF_CPP_MIN_LOG_LEVEL"] = "3"
    os.environ["PYKEOPS_VERBOSE"] = "0"
    os.environ["JAX_PLATFORMS"] = "cpu"
    os.environ.setdefault("XLA_FLAGS", "--xla_cpu_multi_thread_eigen=false intra_op_parallelism_threads=1")
    sys.dont_write_bytecode = True
    for b, var in (("torch", "POT_BACKEND_DISABLE_PYTORCH"), ("jax", "POT_BACKEND_DISABLE_JAX"),
                   ("tf", "POT_BACKEND_DISABLE_TENSORFLOW"), ("cupy", "POT_BACKEND_DISABLE_CUPY")):
        if b in backends:
            os.environ.pop(var, None)
        else:
            os.environ[var] = "1"


def load(backends=(), force=None, omp=1):
    prepare_env(backends, omp)
    table = native_table(force)
    blocked = {"geomloss", "pykeops", "keopscore"} if "geomloss" not in backends else set()
    if blocked:
        sys.meta_path.insert(0, _Blocker(blocked))
    if table:
        sys.meta_path.insert(0, _Finder(table))
    if REPO in sys.path:
        sys.path.remove(REPO)
    sys.path.insert(0, REPO)
    import ot

    assert os.path.abspath(ot.__file__).startswith(os.path.abspath(REPO) + os.sep), ot.__file__
    return ot
