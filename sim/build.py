"""Builds the simulation binaries from /repo's working tree.

Objects are cached under a key made of the compiler flags and the contents of
every file the compiler read, so the result depends on file contents only,
never on time stamps.  All output goes to /verif/build (not under version
control).
"""
import concurrent.futures
import fcntl
import glob
import hashlib
import json
import os
import subprocess
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get("SIM_REPO", "/repo")
OUT = os.path.join(VERIF, "build")
CXX = os.environ.get("SIM_CXX", "g++")
GUARD = "SLANG_SIMULATION"

BASE = ["-w", "-fPIC", "-g1", "-O1", "-U_FORTIFY_SOURCE", "-fno-omit-frame-pointer"]
INC = ["Projects/Core", "Projects/Extensions", "Projects/Utils", "Projects"]
DEFS = ["-DDEBUG", "-DLOG_LEVEL=3", "-DUSE_LIBC_EXTENSION", "-DUSE_SYSTEM_EXTENSION", "-D" + GUARD]
COMMON = ["Projects/Core", "Projects/Extensions", "Projects/Utils"]
APPS = {"slang": "Projects/slang", "dbg": "Projects/slang-dbg", "pkg": "Projects/slang-pkg", "app": "Projects/slang-app"}
LIBS = ["-ljsoncpp", "-ldl", "-lpthread"]
# calls classes of the repository; when they no longer look as expected only
# the property decided there is left without an answer
OPTIONAL = ["slang_v.cpp"]


def optional(src):
    return os.path.dirname(src) == os.path.join(HERE, "src") and os.path.basename(src) in OPTIONAL


def sha(data):
    return hashlib.sha256(data).hexdigest()


class FileHashes:
    def __init__(self):
        self.cache = {}

    def get(self, path):
        if path not in self.cache:
            try:
                with open(path, "rb") as f:
                    self.cache[path] = sha(f.read())
            except OSError:
                self.cache[path] = "missing"
        return self.cache[path]


def sources(rel):
    out = []
    for p in sorted(glob.glob(os.path.join(REPO, rel, "**", "*.cpp"), recursive=True)):
        r = os.path.relpath(p, REPO)
        parts = r.split(os.sep)
        if "Tests" in parts or "TestSuite" in parts or "MyUnit" in parts:
            continue
        out.append(p)
    return out


def flags_for(app):
    inc = ["-I" + os.path.join(REPO, i) for i in INC]
    if app:
        inc.append("-I" + os.path.join(REPO, APPS[app]))
    inc.append("-I/usr/include/jsoncpp")
    return BASE + ["-std=c++14"] + DEFS + inc


def plan():
    """(target name, [(source, flags)])"""
    common = [(s, flags_for(None)) for s in sources_common()]
    targets = {}
    for app, rel in APPS.items():
        objs = list(common)
        for s in sources(rel):
            fl = flags_for(app)
            if os.path.basename(s) == "main.cpp":
                fl = fl + ["-Dmain=program_main"]
            objs.append((s, fl))
        own = []
        for s in sorted(glob.glob(os.path.join(HERE, "src", "*.cpp"))):
            b = os.path.basename(s)
            only = None
            for a in APPS:
                if b.startswith(a + "_"):
                    only = a
            if only and only != app:
                continue
            fl = ["-w", "-g1", "-O1", "-U_FORTIFY_SOURCE", "-std=c++17", "-I" + os.path.join(HERE, "src")]
            if only:
                fl = fl + [f for f in flags_for(app) if f.startswith("-I") or f.startswith("-D")]
            own.append((s, fl))
        targets["sim_" + app] = objs + own
    return targets


def sources_common():
    out = []
    for rel in COMMON:
        out += sources(rel)
    return [s for s in out if os.path.basename(s) != "main.cpp"]


def parse_deps(text):
    text = text.replace("\\\n", " ")
    deps = text.split(":", 1)[1].split()
    return sorted(set(deps))


class Builder:
    def __init__(self):
        os.makedirs(os.path.join(OUT, "obj"), exist_ok=True)
        os.makedirs(os.path.join(OUT, "bin"), exist_ok=True)
        self.hashes = FileHashes()
        self.index_path = os.path.join(OUT, "index.json")
        try:
            self.index = json.load(open(self.index_path))
        except (OSError, ValueError):
            self.index = {}
        self.compiled = 0
        self.compiler = subprocess.run([CXX, "--version"], capture_output=True, text=True).stdout

    def key(self, src, flags, deps):
        h = hashlib.sha256()
        h.update((self.compiler + "\0" + "\0".join(flags) + "\0" + src).encode())
        for d in deps:
            h.update(("\0" + d + "\0" + self.hashes.get(d)).encode())
        return h.hexdigest()[:32]

    def obj(self, src, flags):
        ident = sha((src + "\0" + "\0".join(flags)).encode())[:24]
        # a dependency list is valid for the source text it came from
        for entry in self.index.get(ident, []):
            k = self.key(src, flags, entry["deps"])
            if k == entry["key"]:
                path = os.path.join(OUT, "obj", k + ".o")
                if os.path.exists(path):
                    return path, None
        tmp = os.path.join(OUT, "obj", "tmp-%s-%d" % (ident, os.getpid()))
        r = subprocess.run([CXX] + flags + ["-MD", "-MF", tmp + ".d", "-c", src, "-o", tmp + ".o"],
                           capture_output=True, text=True)
        if r.returncode != 0:
            sys.stderr.write(r.stderr[-4000:])
            if optional(src):
                sys.stderr.write("build: left out: " + src + "\n")
                return None, None
            raise SystemExit("build: compilation failed: " + src)
        deps = [d for d in parse_deps(open(tmp + ".d").read()) if not d.startswith("/usr/")]
        os.remove(tmp + ".d")
        k = self.key(src, flags, deps)
        path = os.path.join(OUT, "obj", k + ".o")
        os.replace(tmp + ".o", path)
        return path, (ident, {"deps": deps, "key": k})

    def build(self, wanted=None):
        targets = plan()
        if wanted:
            targets = {t: v for t, v in targets.items() if t in wanted}
        uniq = {}
        for objs in targets.values():
            for s, f in objs:
                uniq[(s, tuple(f))] = None
        with concurrent.futures.ThreadPoolExecutor(max_workers=os.cpu_count() or 4) as ex:
            futs = {k: ex.submit(self.obj, k[0], list(k[1])) for k in uniq}
            for k, f in futs.items():
                path, new = f.result()
                uniq[k] = path
                if new:
                    self.compiled += 1
                    lst = self.index.setdefault(new[0], [])
                    lst.insert(0, new[1])
                    for old in lst[6:]:
                        try:
                            os.remove(os.path.join(OUT, "obj", old["key"] + ".o"))
                        except OSError:
                            pass
                    del lst[6:]
        tmp = self.index_path + ".tmp"
        json.dump(self.index, open(tmp, "w"))
        os.replace(tmp, self.index_path)
        result = {}
        for t, objs in targets.items():
            paths = [p for p in (uniq[(s, tuple(f))] for s, f in objs) if p]
            h = sha("\0".join(paths + LIBS).encode())[:24]
            exe = os.path.join(OUT, "bin", t + "-" + h)
            if not os.path.exists(exe):
                r = subprocess.run([CXX, "-rdynamic", "-no-pie", "-o", exe + ".tmp"] + paths + LIBS, capture_output=True, text=True)
                if r.returncode != 0 and any(optional(s) for s, f in objs):
                    paths = [uniq[(s, tuple(f))] for s, f in objs if not optional(s)]
                    r = subprocess.run([CXX, "-rdynamic", "-no-pie", "-o", exe + ".tmp"] + paths + LIBS, capture_output=True, text=True)
                if r.returncode != 0:
                    sys.stderr.write(r.stderr[-4000:])
                    raise SystemExit("build: link failed: " + t)
                os.replace(exe + ".tmp", exe)
                old = sorted((p for p in glob.glob(os.path.join(OUT, "bin", t + "-*")) if p != exe),
                             key=os.path.getmtime, reverse=True)
                for p in old[3:]:
                    os.remove(p)
            result[t] = exe
        return result


def build(wanted=None):
    os.makedirs(OUT, exist_ok=True)
    with open(os.path.join(OUT, "lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        return Builder().build(wanted)


if __name__ == "__main__":
    for name, path in build(sys.argv[1:] or None).items():
        print(name, path)
