"""Builds the harnesses from /repo's current working tree (content-addressed object cache)."""
import fcntl
import glob
import hashlib
import os
import shutil
import subprocess
import time
from concurrent.futures import ThreadPoolExecutor


class BuildError(Exception):
    pass


ASAN = ["-O1", "-g1", "-fno-omit-frame-pointer", "-fsanitize=address,undefined", "-fno-sanitize-recover=all",
        "-D_GLIBCXX_ASSERTIONS"]
TSAN = ["-O1", "-g1", "-fno-omit-frame-pointer", "-fsanitize=thread"]
PLAIN = ["-O2", "-g1"]
FLAVOURS = {"asan": ASAN, "tsan": TSAN, "plain": PLAIN, "o3": ["-O3", "-DNDEBUG"],
            # counts executed basic blocks; the harness brings the callback, operator new and the bulk memory functions
            "count": ["-O1", "-g1", "-fsanitize-coverage=trace-pc"]}


def repo_sources(repo, include_cli=False, include_diagram=False):
    out = []
    root = os.path.join(repo, "src", "pymatching")
    for d, _, files in sorted(os.walk(root)):
        rel = os.path.relpath(d, root)
        if "diagram" in rel.split(os.sep) and not include_diagram:
            continue
        for f in sorted(files):
            if not f.endswith(".cc"):
                continue
            if f.endswith(".test.cc") or f.endswith(".perf.cc") or f.endswith(".pybind.cc"):
                continue
            p = os.path.join(d, f)
            if f == "namespaced_main.cc" and not include_cli:
                continue
            out.append(p)
    return out


class Builder:
    def __init__(self, repo, here):
        self.repo, self.here = repo, here
        self.root = os.path.join(here, ".build")
        os.makedirs(self.root, exist_ok=True)
        self.key = self._tree_key()
        self.dir = os.path.join(self.root, self.key)
        os.makedirs(self.dir, exist_ok=True)
        os.utime(self.dir)
        self._prune()

    def _tree_key(self):
        h = hashlib.sha256()
        files = []
        for base in (os.path.join(self.repo, "src"), os.path.join(self.here, "shim"), os.path.join(self.here, "harness")):
            for d, dirs, fs in os.walk(base):
                dirs[:] = [x for x in dirs if x != "__pycache__"]
                for f in fs:
                    if f.endswith((".cc", ".h", ".inl", ".hpp", ".py")):
                        files.append(os.path.join(d, f))
        for f in sorted(files):
            if f.startswith(os.path.join(self.here, "harness")) and not f.endswith(".h") and \
                    os.path.basename(f) != "pyvh.py":
                continue
            h.update(f.encode())
            with open(f, "rb") as fh:
                h.update(hashlib.sha256(fh.read()).digest())
        return h.hexdigest()[:20]

    def _prune(self):
        ds = sorted(glob.glob(os.path.join(self.root, "*")), key=os.path.getmtime, reverse=True)
        for d in ds[3:]:
            if time.time() - os.path.getmtime(d) > 1800:
                shutil.rmtree(d, ignore_errors=True)

    def _run(self, cmd):
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if p.returncode != 0:
            raise BuildError(" ".join(cmd) + "\n" + p.stdout.decode("utf8", "replace")[-4000:])

    def flags(self, flavour, extra=()):
        return ["-std=c++20", "-w", *FLAVOURS[flavour], "-I" + os.path.join(self.repo, "src"),
                "-I" + os.path.join(self.here, "shim"), "-I" + os.path.join(self.here, "harness"), *extra]

    def _obj(self, src, flavour, extra):
        with open(src, "rb") as f:
            content = f.read()
        h = hashlib.sha256((src + "|" + flavour + "|" + " ".join(extra)).encode() + content).hexdigest()[:16]
        return os.path.join(self.dir, h + ".o")

    def compile_many(self, srcs, flavour, extra=(), cxx="g++"):
        objs = [self._obj(s, flavour, tuple(extra) + (cxx,)) for s in srcs]

        def one(a):
            s, o = a
            if os.path.exists(o):
                return
            tmp = o + f".{os.getpid()}.tmp.o"
            self._run([cxx, *self.flags(flavour, extra), "-c", s, "-o", tmp])
            os.replace(tmp, o)

        with ThreadPoolExecutor(8) as ex:
            list(ex.map(one, zip(srcs, objs)))
        return objs

    def build_run(self, r):
        """Returns (argv prefix, env) for a run description."""
        lock = open(os.path.join(self.dir, ".lock"), "w")
        fcntl.flock(lock, fcntl.LOCK_EX)
        try:
            kind = r.get("kind", "cxx")
            flavour = r.get("flavour", "asan")
            if kind == "cxx":
                try:
                    exe = self.cxx_exe(r["harness"], flavour, r)
                except BuildError:
                    # Internals the monitor reads were renamed or moved: judge observable behaviour only.
                    if not r.get("fallback_flags"):
                        raise
                    exe = self.cxx_exe(r["harness"], flavour,
                                       dict(r, cxxflags=tuple(r.get("cxxflags", ())) + tuple(r["fallback_flags"])))
                return list(r.get("wrapper", ())) + [exe], r.get("env", {})
            if kind == "py":
                return self.pymodule(r)
            raise BuildError("unknown run kind " + kind)
        finally:
            lock.close()

    def cxx_exe(self, harness, flavour, r):
        main = os.path.join(self.here, "harness", harness + ".cc")
        srcs = repo_sources(self.repo, r.get("include_cli", False), r.get("include_diagram", False)) if r.get("link_repo", True) else []
        srcs = srcs + [main] + [os.path.join(self.here, "harness", x) for x in r.get("extra_src", [])]
        extra = tuple(r.get("cxxflags", ()))
        own = [x for x in srcs if x.startswith(self.here)]
        objs = (self.compile_many([x for x in srcs if x not in own], flavour) +
                self.compile_many(own, flavour, extra))
        exe = os.path.join(self.dir, "exe_" + harness + "_" + flavour + "_" +
                           hashlib.sha256(" ".join(objs).encode()).hexdigest()[:10])
        if not os.path.exists(exe):
            tmp = exe + f".{os.getpid()}.tmp"
            self._run(["g++", *FLAVOURS[flavour], *objs, "-o", tmp, "-lpthread", *r.get("ldflags", ())])
            os.replace(tmp, exe)
        return exe

    def pymodule(self, r):
        """Builds the extension module from the repository's bindings; returns how to run a Python harness on it."""
        py = "/opt/veriftools/pyvenv/bin/python"
        if not os.path.exists(py):
            py = shutil.which("python3-vt") or "python3"
        q = subprocess.run([py, "-c", "import numpy,sysconfig;print(numpy.get_include());"
                                      "print(sysconfig.get_paths()['include'])"],
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if q.returncode != 0:
            raise BuildError("no python with numpy: " + q.stdout.decode("utf8", "replace")[-1000:])
        np_inc, py_inc = q.stdout.decode().split()
        root = os.path.join(self.repo, "src", "pymatching")
        binds = [os.path.join(d, f) for d, _, fs in sorted(os.walk(root)) for f in sorted(fs) if f.endswith(".pybind.cc")]
        own = [os.path.join(self.here, "shim", "pybind11", "verif_numpy.cc"),
               os.path.join(self.here, "harness", "py_anim_stub.cc")]
        inc = ("-fPIC", "-isystem" + py_inc, "-isystem" + np_inc)
        objs = self.compile_many(binds + repo_sources(self.repo, True) + own, "asan", inc)
        pkg = os.path.join(self.dir, "pkg_" + hashlib.sha256(" ".join(objs).encode()).hexdigest()[:10])
        so = os.path.join(pkg, "pymatching", "_cpp_pymatching.so")
        os.makedirs(os.path.dirname(so), exist_ok=True)
        for f in sorted(os.listdir(root)):
            if f.endswith(".py"):
                shutil.copyfile(os.path.join(root, f), os.path.join(pkg, "pymatching", f))
        if not os.path.exists(so):
            tmp = so + f".{os.getpid()}.tmp"
            self._run(["g++", "-shared", *FLAVOURS["asan"], *objs, "-o", tmp])
            os.replace(tmp, so)
        pre = []
        for lib in ("libasan.so", "libubsan.so", "libstdc++.so"):
            p = subprocess.run(["g++", "-print-file-name=" + lib], stdout=subprocess.PIPE).stdout.decode().strip()
            pre.append(os.path.realpath(p))
        env = {"LD_PRELOAD": " ".join(pre), "PYTHONDONTWRITEBYTECODE": "1", "PYTHONHASHSEED": "0",
               "OPENBLAS_NUM_THREADS": "1", "OMP_NUM_THREADS": "1",
               "PYTHONPATH": os.pathsep.join([pkg, os.path.join(self.here, "shim", "pystubs"),
                                              os.path.join(self.here, "harness")])}
        env.update(r.get("env", {}))
        return [py, "-B", os.path.join(self.here, "harness", r["harness"] + ".py")], env
