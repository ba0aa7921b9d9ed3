"""Mirror of /repo's current working tree with its compiled extensions.

The checks never run the code in place: the package is copied into a scratch
directory that the check removes, so that tracked files of /repo stay as they
are, and the extensions in that directory are the ones compiled from the
sources in that directory.  They come, in this order, from
  1. a cache under /verif/.cache keyed by the content of every build input,
  2. /repo's own in-place build, when /opt/vp/state/ext.sum says that it was
     compiled from the very same inputs,
  3. a fresh compilation.
"""
import glob, hashlib, os, shutil, subprocess, sys, tempfile

REPO = os.environ.get("MC_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CACHE = os.path.join(VERIF, ".cache")
EXTRA = ["setup.py", "setup_helpers.py", "cythexts.py", "versioneer.py"]
EXTS = ["regreg/atoms/projl1_cython", "regreg/atoms/mixed_lasso_cython",
        "regreg/atoms/piecewise_linear", "regreg/smooth/cox_utils"]
GENERATED = {e + ".c" for e in EXTS}


def _inputs(root):
    out = []
    for base, dirs, files in os.walk(os.path.join(root, "regreg")):
        dirs.sort()
        for f in sorted(files):
            p = os.path.relpath(os.path.join(base, f), root)
            if f.endswith((".pyx", ".pxd", ".pxi", ".c", ".h")) and p not in GENERATED:
                out.append(p)
    out += [f for f in EXTRA if os.path.isfile(os.path.join(root, f))]
    return out


def _key(root):
    h = hashlib.sha256()
    for p in _inputs(root):
        h.update(p.encode() + b"\0")
        with open(os.path.join(root, p), "rb") as fh:
            h.update(hashlib.sha256(fh.read()).digest())
    h.update(sys.version.encode())
    return h.hexdigest()[:24]


def _repo_sum(root):
    script = r"""
{ git ls-files -co --exclude-standard -- 'regreg/*.pyx' 'regreg/*.pxd' 'regreg/*.pxi' 'regreg/*.c' 'regreg/*.h' \
          setup.py setup_helpers.py cythexts.py versioneer.py regreg/info.py fake_pyrex | LC_ALL=C sort -u |
          while read -r f; do [ -f "$f" ] && sha256sum "$f"; done; } | sha256sum
"""
    r = subprocess.run(["bash", "-c", script], cwd=root, capture_output=True, text=True)
    return r.stdout.strip()


def _copy_tree(dst):
    def ignore(d, names):
        return [n for n in names if n.endswith((".so", ".pyc")) or n == "__pycache__"
                or n == "tests" or n == "sandbox"
                or os.path.relpath(os.path.join(d, n), REPO) in GENERATED]
    shutil.copytree(os.path.join(REPO, "regreg"), os.path.join(dst, "regreg"), ignore=ignore)
    for f in os.listdir(REPO):      # setup.py reads README.rst and other top-level files
        p = os.path.join(REPO, f)
        if os.path.isfile(p) and not os.path.islink(p) and os.path.getsize(p) < 1 << 20:
            shutil.copy(p, dst)
    for d in ["fake_pyrex"]:
        if os.path.isdir(os.path.join(REPO, d)):
            shutil.copytree(os.path.join(REPO, d), os.path.join(dst, d))


def _so(root, e):
    return glob.glob(os.path.join(root, e + ".cpython-*.so"))


def mirror(verbose=False):
    """Returns the scratch directory holding an importable copy of the tree."""
    dst = tempfile.mkdtemp(prefix="mc_regreg_")
    try:
        _copy_tree(dst)
        key = _key(dst)
        cdir = os.path.join(CACHE, key)
        if os.path.isdir(cdir) and all(_so(cdir, e) for e in EXTS):
            for e in EXTS:
                for s in _so(cdir, e):
                    shutil.copy(s, os.path.join(dst, os.path.dirname(e)))
            return dst
        src = None
        try:
            with open("/opt/vp/state/ext.sum") as fh:
                if REPO == "/repo" and fh.read().strip() == _repo_sum(REPO) and all(_so(REPO, e) for e in EXTS):
                    src = REPO
        except OSError:
            pass
        if src is None:
            if verbose:
                print("compiling the extensions", flush=True)
            env = dict(os.environ)
            env["HOME"] = env.get("HOME", "/root")
            env.pop("OPENBLAS_CORETYPE", None)
            r = subprocess.run([sys.executable, "-W", "ignore", "setup.py", "build_ext", "--inplace", "--force"],
                               cwd=dst, env=env, capture_output=True, text=True)
            if r.returncode or not all(_so(dst, e) for e in EXTS):
                print(r.stdout[-2000:], r.stderr[-2000:])
                raise SystemExit("the extensions do not build")
            src = dst
        else:
            for e in EXTS:
                for s in _so(src, e):
                    shutil.copy(s, os.path.join(dst, os.path.dirname(e)))
        try:   # keep for the next check
            tmp = tempfile.mkdtemp(prefix="tmp", dir=_mk(CACHE))
            for e in EXTS:
                _mk(os.path.join(tmp, os.path.dirname(e)))
                for s in _so(dst, e):
                    shutil.copy(s, os.path.join(tmp, os.path.dirname(e)))
            if os.path.isdir(cdir):
                shutil.rmtree(tmp)
            else:
                os.rename(tmp, cdir)
        except OSError:
            pass
        return dst
    except BaseException:
        shutil.rmtree(dst, ignore_errors=True)
        raise


def _mk(d):
    os.makedirs(d, exist_ok=True)
    return d


def activate(dst):
    sys.path.insert(0, dst)
    import regreg
    assert os.path.realpath(regreg.__file__).startswith(os.path.realpath(dst)), regreg.__file__
    return regreg


if __name__ == "__main__":
    d = mirror(verbose=True)
    print("extensions ready for tree", _key(d))
    shutil.rmtree(d)
