"""Compiles the library from /repo's current working tree, in a content-addressed cache under build/.

Modules:
  py   the Python extension, from src/wisard_bind.cc as it is
  src  the C++ API of src/ (native/bind_cpp.cc)
  hdr  the C++ API of the committed include/wisardpkg.hpp (native/bind_cpp.cc)
  gen  the C++ API of the header generate_include.py makes from src/ (native/bind_cpp.cc)
  fuzz the libFuzzer target (native/fuzz_load.cc, clang) over the header generate_include.py makes from src/
  fuzzhdr  the same over the committed header
  shim the clock shim
Nothing is written into /repo.
"""
import fcntl
import hashlib
import os
import shutil
import subprocess

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VT_REPO", "/repo")
BUILD = os.environ.get("VT_BUILD", os.path.join(VERIF, "build"))
NATIVE = os.path.join(VERIF, "native")

BASE_FLAGS = ["-std=c++11", "-fPIC", "-shared", "-fvisibility=hidden", "-fno-gnu-unique",
              "-D_GLIBCXX_ASSERTIONS", "-w"]
VARIANT = {"plain": ["-O1"],
           "asan": ["-O1", "-g1", "-fsanitize=address", "-fno-omit-frame-pointer"]}


class BuildError(Exception):
    pass


def _files(root):
    out = []
    for d, dirs, fs in os.walk(root):
        dirs.sort()
        for f in sorted(fs):
            if f.endswith((".cc", ".h", ".hpp", ".py", ".c", ".cpp", ".hh", ".inl", ".ipp")):
                out.append(os.path.join(d, f))
    return out


def _hash(paths, extra):
    h = hashlib.sha256()
    for p in paths:
        h.update(p.encode() + b"\0")
        with open(p, "rb") as fh:
            h.update(fh.read())
    h.update(repr(extra).encode())
    return h.hexdigest()[:20]


def _pyinc():
    out = subprocess.run(["/usr/bin/python3", "-m", "pybind11", "--includes"], capture_output=True, text=True)
    if out.returncode != 0:
        raise BuildError("pybind11 not found: " + out.stderr)
    return out.stdout.split()


def _run(cmd, cwd=None):
    p = subprocess.run(cmd, cwd=cwd, capture_output=True, text=True, errors="replace")
    if p.returncode != 0:
        raise BuildError("command failed: %s\n%s" % (" ".join(cmd), (p.stdout + p.stderr)[-3000:]))


def _generate(tmp):
    """Runs generate_include.py on the sources outside /repo; returns the folder of the header."""
    g = os.path.join(tmp, "gen")
    os.makedirs(os.path.join(g, "include"))
    os.symlink(os.path.join(REPO, "src"), os.path.join(g, "src"))
    _run(["/usr/bin/python3", "-B", os.path.join(REPO, "generate_include.py")], cwd=g)
    return os.path.join(g, "include")


def _sources(name):
    src = _files(os.path.join(REPO, "src"))
    inc = _files(os.path.join(REPO, "include"))
    b = os.path.join(NATIVE, "bind_cpp.cc")
    if name == "py":
        return src
    if name == "src":
        return src + [b]
    if name == "hdr":
        return inc + [b]
    if name == "gen":
        return src + [os.path.join(REPO, "generate_include.py"), b]
    if name == "fuzz":
        return src + [os.path.join(REPO, "generate_include.py"), os.path.join(NATIVE, "fuzz_load.cc")]
    if name == "fuzzhdr":
        return inc + [os.path.join(NATIVE, "fuzz_load.cc")]
    if name == "shim":
        return [os.path.join(NATIVE, "shim.c")]
    raise KeyError(name)


def build(name, variant="plain"):
    """Returns the path of the built file (an extension module, an executable or the shim)."""
    if name in ("shim", "fuzz", "fuzzhdr"):
        variant = "plain"
    srcs = _sources(name)
    key = _hash(srcs, (name, variant, BASE_FLAGS, VARIANT[variant], REPO))
    out_dir = os.path.join(BUILD, "%s-%s-%s" % (name, variant, key))
    leaf = {"py": "wisardpkg.so", "src": "wpsrc.so", "hdr": "wphdr.so", "gen": "wpgen.so",
            "fuzz": "fuzz_load", "fuzzhdr": "fuzz_load", "shim": "vtshim.so"}[name]
    final = os.path.join(out_dir, leaf)
    if os.path.exists(final):
        return final
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, "lock-%s-%s" % (name, variant)), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        if os.path.exists(final):
            return final
        for old in os.listdir(BUILD):
            if old.startswith("%s-%s-" % (name, variant)):
                shutil.rmtree(os.path.join(BUILD, old), ignore_errors=True)
        tmp = out_dir + ".tmp"
        shutil.rmtree(tmp, ignore_errors=True)
        os.makedirs(tmp)
        target = os.path.join(tmp, leaf)
        if name == "shim":
            _run(["gcc", "-O1", "-shared", "-fPIC", "-o", target, srcs[0]])
        elif name in ("fuzz", "fuzzhdr"):
            inc = os.path.join(REPO, "include") if name == "fuzzhdr" else _generate(tmp)
            _run(["clang++", "-O1", "-g1", "-std=c++11", "-w", "-fsanitize=fuzzer,address", "-D_GLIBCXX_ASSERTIONS",
                  "-I" + inc, os.path.join(NATIVE, "fuzz_load.cc"), "-o", target])
        else:
            flags = BASE_FLAGS + VARIANT[variant] + _pyinc()
            bind = os.path.join(NATIVE, "bind_cpp.cc")
            if name == "py":
                _run(["g++"] + flags + [os.path.join(REPO, "src", "wisard_bind.cc"), "-o", target],
                     cwd=os.path.join(REPO, "src"))
            elif name == "src":
                _run(["g++"] + flags + ["-DVT_SRC", "-DVT_MODULE=wpsrc", "-I" + os.path.join(REPO, "src"),
                                        bind, "-o", target])
            elif name == "hdr":
                _run(["g++"] + flags + ["-DVT_MODULE=wphdr", "-I" + os.path.join(REPO, "include"),
                                        bind, "-o", target])
            elif name == "gen":
                inc = _generate(tmp)
                _run(["g++"] + flags + ["-DVT_MODULE=wpgen", "-I" + inc,
                                        bind, "-o", target])
        os.rename(tmp, out_dir)
        return final


def build_all(specs):
    """specs: iterable of (name, variant). Builds in parallel, returns {(name, variant): path}."""
    from concurrent.futures import ThreadPoolExecutor
    specs = sorted(set(specs))
    with ThreadPoolExecutor(8) as ex:
        res = list(ex.map(lambda s: build(*s), specs))
    return dict(zip(specs, res))
