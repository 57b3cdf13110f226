"""Builds harnesses from /repo's working tree, by content.

An object file is reused only if the compiler command and the content of every file
that went into it (source and all included headers of /repo and /verif) are what they
were when it was made; time stamps play no part.  Nothing is written outside the build
folder."""

import fcntl
import hashlib
import json
import os
import re
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, "build"))
CXX = "/usr/bin/g++"
JOBS = int(os.environ.get("VERIF_JOBS", "8"))
FLAGS = ["-std=c++20", "-O1", "-w", "-frounding-math", "-ffunction-sections", "-fdata-sections",
         "-fno-strict-aliasing", "-DVERIF"]
VARIANTS = {"": [], "san": ["-fsanitize=address,undefined", "-fno-sanitize-recover=undefined", "-fno-sanitize=vptr,alignment,float-divide-by-zero",
                            "-fno-omit-frame-pointer", "-g1"]}
ALL = ["utility", "numeric", "algebra", "function", "symbolic", "geometry", "solvers", "dynamics", "io", "hybrid"]

_sha = {}


def sha(path):
    if path not in _sha:
        try:
            with open(path, "rb") as f:
                _sha[path] = hashlib.sha256(f.read()).hexdigest()
        except OSError:
            _sha[path] = None
    return _sha[path]


def rel(path):
    path = os.path.normpath(path)
    for name, root in (("repo:", REPO), ("verif:", VERIF)):
        if path.startswith(root + "/"):
            return name + path[len(root) + 1:]
    return path


def absolute(name):
    if name.startswith("repo:"):
        return os.path.join(REPO, name[5:])
    if name.startswith("verif:"):
        return os.path.join(VERIF, name[6:])
    return name


def deps_of(depfile):
    with open(depfile) as f:
        text = f.read().replace("\\\n", " ")
    return [os.path.normpath(x) for x in text.split(":", 1)[1].split()]


def fresh(obj, command):
    try:
        with open(obj + ".json") as f:
            m = json.load(f)
    except (OSError, ValueError):
        return False
    if m["command"] != command or not os.path.exists(obj):
        return False
    return all(sha(absolute(n)) == h for n, h in m["deps"].items())


def compile_one(src, obj, extra=()):
    flags = FLAGS + list(extra) + ["-I" + os.path.join(VERIF, "shim"), "-I" + os.path.join(REPO, "source"),
                                   "-I" + os.path.join(VERIF, "harness")]
    command = [rel(x) if not x.startswith("-I") else "-I" + rel(x[2:]) for x in flags] + [rel(src)]
    if fresh(obj, command):
        return None
    os.makedirs(os.path.dirname(obj), exist_ok=True)
    r = subprocess.run([CXX] + flags + ["-MMD", "-MF", obj + ".d", "-c", src, "-o", obj + ".tmp"],
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        return "%s\n%s" % (src, "\n".join(dict.fromkeys(x[:400] for x in r.stdout.split("\n") if "error" in x or "required from here" in x))[:6000])
    deps = {rel(d): sha(d) for d in deps_of(obj + ".d")}
    os.replace(obj + ".tmp", obj)
    with open(obj + ".json", "w") as f:
        json.dump({"command": command, "deps": deps}, f)
    os.unlink(obj + ".d")
    return None


def sources(modules):
    """The sources of the project's own lists, so that a file added there is picked up."""
    out = []
    for m in modules:
        if "/" in m:
            out.append(m)
            continue
        with open(os.path.join(REPO, "source", m, "CMakeLists.txt")) as f:
            names = re.findall(r"[\w.-]+\.cpp", f.read())
        for n in dict.fromkeys(names):
            if os.path.exists(os.path.join(REPO, "source", m, n)):
                out.append(m + "/" + n)
    return out


def weight(src):
    try:
        n = os.path.getsize(src)
    except OSError:
        n = 0
    heavy = ("function/function.cpp", "algebra/differential.cpp", "function/taylor_function.cpp", "numeric/number.cpp",
             "function/taylor_model.cpp", "algebra/expansion.cpp", "solvers/nonlinear_programming.cpp",
             "numeric/float_ball.cpp", "dynamics/enclosure.cpp", "function/polynomial.cpp")
    return -(n + (10 ** 9 if src.endswith(heavy) or "/harness/" in src else 0))


def build(harnesses):
    """harnesses: list of (name, [harness sources], [modules], [link flags], variant).  Returns {name: path}."""
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, "lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        jobs = {}
        links = []
        for name, srcs, modules, extra, variant in harnesses:
            tag = "-" + variant if variant else ""
            more = VARIANTS[variant]
            extra = [x for x in more if x.startswith("-fsanitize")] + list(extra)
            mine, libs = [], []
            for s in srcs + ["pbt.cpp"]:
                o = os.path.join(BUILD, "harness" + tag, s.replace("/", "_") + ".o")
                jobs[o] = (os.path.join(VERIF, "harness", s), o, more)
                mine.append(o)
            for s in sources(modules):
                o = os.path.join(BUILD, "lib" + tag, s.replace("/", "_") + ".o")
                jobs[o] = (os.path.join(REPO, "source", s), o, more)
                libs.append(o)
            links.append((name, mine, libs, extra))
        work = sorted(jobs.values(), key=lambda j: weight(j[0]))
        with ThreadPoolExecutor(JOBS) as ex:
            errors = [e for e in ex.map(lambda j: compile_one(*j), work) if e]
        if errors:
            sys.stderr.write("\n".join(errors[:5]) + "\n")
            raise SystemExit(2)
        out = {}

        def link(item):
            name, mine, libs, extra = item
            exe = os.path.join(BUILD, "bin", name)
            key = hashlib.sha256()
            for o in mine + libs:
                key.update((os.path.basename(o) + (object_hash(o) or "")).encode())
            key.update(repr(extra).encode())
            key = key.hexdigest()
            try:
                with open(exe + ".key") as f:
                    if f.read() == key and os.path.exists(exe):
                        return name, exe, None
            except OSError:
                pass
            os.makedirs(os.path.dirname(exe), exist_ok=True)
            rsp = exe + ".rsp"
            with open(rsp, "w") as f:
                f.write("\n".join(mine) + "\n-Wl,--start-lib\n" + "\n".join(libs) + "\n-Wl,--end-lib\n")
            # an archive, so that only the objects that the harness reaches are linked
            lib = exe + ".a"
            if os.path.exists(lib):
                os.unlink(lib)
            subprocess.run(["ar", "rcsT", lib] + libs, check=True)
            r = subprocess.run([CXX, "-o", exe] + mine + [lib, "-Wl,--gc-sections", "-Wl,--allow-multiple-definition"]
                               + list(extra) + ["-lmpfr", "-lgmpxx", "-lgmp", "-lpthread", "-ldl"],
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            os.unlink(lib)
            os.unlink(rsp)
            if r.returncode != 0:
                return name, exe, "\n".join(dict.fromkeys(x[-300:] for x in re.findall(r"undefined reference.*|.*error.*", r.stdout)))[:6000]
            with open(exe + ".key", "w") as f:
                f.write(key)
            return name, exe, None

        with ThreadPoolExecutor(JOBS) as ex:
            for name, exe, err in ex.map(link, links):
                if err:
                    sys.stderr.write("link %s\n%s\n" % (name, err))
                    raise SystemExit(2)
                out[name] = exe
        return out


def object_hash(o):
    # what went into the object stands for the object
    return sha_nocache(o + ".json")


def sha_nocache(path):
    try:
        with open(path, "rb") as f:
            return hashlib.sha256(f.read()).hexdigest()
    except OSError:
        return None
