"""Builds check binaries from /repo's current working tree.

Objects are kept in build/cache, addressed by the content of everything that went into them (the
translation unit, all headers it could include, the command line), so a stale object can never be
used whatever the file times are.
"""
import hashlib
import os
import subprocess
import sys
import tempfile
import time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
LIB = os.path.join(REPO, "src/lib/sup/oac-tree")
CACHE = os.path.join(VERIF, "build", "cache")
BIN = os.path.join(VERIF, "build", "bin" if REPO == "/repo" else
                   "bin-" + hashlib.sha256(REPO.encode()).hexdigest()[:8])
CXX = "g++"

CORE_SOURCES = [
    "base/exceptions.cpp", "base/log_severity.cpp", "base/scope_guard.cpp",
    "procedure/execution_status.cpp", "procedure/procedure_preamble.cpp",
    "runner/breakpoint.cpp", "runner/job_command_queue.cpp", "runner/job_commands.cpp",
    "runner/job_state_monitor.cpp", "runner/job_states.cpp",
]

VARIANTS = {
    # name: (compile flags, link flags, extra harness sources)
    "plain": (["-O1", "-g1"], [], []),
    "asan": (["-O1", "-g1", "-fsanitize=address,undefined", "-fno-sanitize-recover=all",
              "-fno-sanitize=vptr", "-fno-omit-frame-pointer", "-DVERIF_ASAN"],
             ["-fsanitize=address,undefined"], []),
    "sched": (["-O1", "-g1", "-fsanitize=thread", "-DVERIF_SCHED"], ["-rdynamic"],
              ["harness/detsched.cpp", "harness/tsanrt.cpp", "harness/heapguard.cpp"]),
    "tsan": (["-O1", "-g1", "-fsanitize=thread", "-DVERIF_TSAN"], ["-fsanitize=thread"], []),
}
# Harness sources that must never be instrumented for the scheduler.
UNINSTRUMENTED = {"harness/detsched.cpp", "harness/tsanrt.cpp", "harness/heapguard.cpp",
                  "harness/pbt.cpp"}

COMMON = ["-std=c++17", "-Wall", "-Wno-unused", "-Wno-sign-compare", "-Wno-tsan",
          "-pthread", "-fPIC"]


class BuildError(Exception):
    pass


def _hash_file(path, h):
    with open(path, "rb") as f:
        h.update(f.read())


_header_hash = {}


def header_hash(full):
    """One hash over every header a translation unit could include."""
    if full in _header_hash:
        return _header_hash[full]
    h = hashlib.sha256()
    roots = [os.path.join(REPO, "src"), os.path.join(VERIF, "harness")]
    if full:
        roots += [os.path.join(VERIF, "standin"), os.path.join(REPO, "test/unit")]
    for root in roots:
        for d, dirs, files in sorted(os.walk(root)):
            dirs.sort()
            for f in sorted(files):
                if f.endswith((".h", ".hpp", ".in", ".icc", ".inc")):
                    p = os.path.join(d, f)
                    h.update(os.path.relpath(p, root).encode())
                    _hash_file(p, h)
    _header_hash[full] = h.hexdigest()
    return _header_hash[full]


def glob_cpp(root):
    res = []
    for d, dirs, files in sorted(os.walk(root)):
        dirs.sort()
        for f in sorted(files):
            if f.endswith(".cpp"):
                res.append(os.path.join(d, f))
    return res


def include_flags(full):
    inc = ["-I" + os.path.join(REPO, "src/lib"), "-I" + os.path.join(VERIF, "harness"),
           "-I" + os.path.join(VERIF, "checks")]
    if full:
        inc += ["-I" + os.path.join(REPO, "src/app"), "-I" + os.path.join(VERIF, "standin/include"),
                "-I" + os.path.join(VERIF, "build/gen"),
                "-isystem", "/usr/include/libxml2"]
    return inc


def precompiled(flags):
    """Precompiled standard headers for one set of flags; returns the directory holding them."""
    cmd = [CXX] + COMMON + flags + include_flags(True) + ["-x", "c++-header"]
    h = hashlib.sha256("\0".join(cmd).encode())
    h.update(header_hash(True).encode())
    d = os.path.join(CACHE, "pch-" + h.hexdigest()[:24])
    if not os.path.exists(os.path.join(d, "pch.h.gch")):
        os.makedirs(d, exist_ok=True)
        src = os.path.join(d, "pch.h")
        with open(os.path.join(VERIF, "harness/pch.h")) as f, open(src, "w") as g:
            g.write(f.read())
        tmp = os.path.join(d, "tmp%d" % os.getpid())
        r = subprocess.run(cmd + [src, "-o", tmp], stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT)
        if r.returncode != 0:
            raise BuildError("precompiling headers failed:\n" + r.stdout.decode(errors="replace"))
        os.rename(tmp, os.path.join(d, "pch.h.gch"))
    return d


def compile_one(src, flags, full, pch=None):
    cmd = [CXX] + COMMON + flags + include_flags(full)
    if pch:
        cmd += ["-include", os.path.join(pch, "pch.h")]
    cmd += ["-c", src]
    h = hashlib.sha256()
    h.update("\0".join(cmd).encode())
    h.update(header_hash(full).encode())
    checks = os.path.join(VERIF, "checks")
    if os.path.dirname(os.path.abspath(src)) == checks:
        for f in sorted(os.listdir(checks)):
            if f.endswith(".h"):
                _hash_file(os.path.join(checks, f), h)
    _hash_file(src, h)
    obj = os.path.join(CACHE, h.hexdigest()[:40] + ".o")
    if os.path.exists(obj):
        try:
            os.utime(obj)
        except OSError:
            pass
        return obj
    fd, tmp = tempfile.mkstemp(suffix=".o", dir=CACHE)
    os.close(fd)
    r = subprocess.run(cmd + ["-o", tmp], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode != 0:
        os.unlink(tmp)
        raise BuildError("compiling %s failed:\n%s" % (src, r.stdout.decode(errors="replace")[-4000:]))
    os.rename(tmp, obj)
    return obj


def lib_sources(full):
    if not full:
        return [os.path.join(LIB, s) for s in CORE_SOURCES]
    return glob_cpp(LIB) + glob_cpp(os.path.join(VERIF, "standin/src"))


def expand(extra):
    """A source of ours, or "app:<dir>:<name>": a program of the repository, whose main function
    gets the name."""
    if not extra.startswith("app:"):
        return [(os.path.join(VERIF, extra), [])]
    _, d, name = extra.split(":")
    return [(p, ["-Dmain=" + name] if os.path.basename(p) == "main.cpp" else [])
            for p in glob_cpp(os.path.join(REPO, "src/app", d))]


def prune_cache(limit=3 << 30):
    try:
        files = [(os.stat(p).st_mtime, os.stat(p).st_size, p)
                 for p in (os.path.join(CACHE, f) for f in os.listdir(CACHE)) if p.endswith(".o")]
    except OSError:
        return
    total = sum(s for _, s, _ in files)
    for _, size, p in sorted(files):
        if total <= limit:
            break
        try:
            os.unlink(p)
        except OSError:
            pass
        total -= size


def build(jobs_list, jobs=None):
    """jobs_list: [(check source file, scope core|full, variant, extra sources)] -> binaries."""
    os.makedirs(CACHE, exist_ok=True)
    os.makedirs(BIN, exist_ok=True)
    os.makedirs(os.path.join(VERIF, "build/gen"), exist_ok=True)
    prune_cache()
    jobs = jobs or os.cpu_count() or 4
    todo = {}
    plans = []
    for check_src, scope, variant, extra in jobs_list:
        full = scope == "full"
        cflags, lflags, hsrc = VARIANTS[variant]
        srcs = []
        # instrumented objects first: their inline functions win at link time
        srcs.append((os.path.join(VERIF, check_src), tuple(cflags), full))
        for e in extra:
            for s, more in expand(e):
                srcs.append((s, tuple(cflags + more), full))
        for s in lib_sources(full):
            srcs.append((s, tuple(cflags), full))
        for s in ["harness/pbt.cpp"] + hsrc:
            flags = list(cflags)
            if s in UNINSTRUMENTED and variant == "sched":
                flags = ["-O1", "-g1", "-fno-threadsafe-statics", "-DVERIF_SCHED"]
            srcs.append((os.path.join(VERIF, s), tuple(flags), False))
        for k in srcs:
            todo[k] = None
        plans.append((check_src, scope, variant, lflags, srcs))
    keys = list(todo)
    with ThreadPoolExecutor(max_workers=jobs) as ex:
        sets = sorted({k[1] for k in keys if k[2]})
        pch = dict(zip(sets, ex.map(lambda f: precompiled(list(f)), sets)))
        futs = [(k, ex.submit(compile_one, k[0], list(k[1]), k[2],
                              pch[k[1]] if k[2] else None)) for k in keys]
        errors = []
        for k, f in futs:
            try:
                todo[k] = f.result()
            except BuildError as e:
                errors.append(str(e))
        if errors:
            raise BuildError("\n".join(errors))
    result = []
    procs = []
    for check_src, scope, variant, lflags, srcs in plans:
        objs = [todo[k] for k in srcs]
        h = hashlib.sha256("\0".join(objs + lflags).encode()).hexdigest()[:24]
        name = os.path.splitext(os.path.basename(check_src))[0]
        out = os.path.join(BIN, "%s-%s-%s" % (name, variant, h))
        result.append(out)
        if os.path.exists(out):
            continue
        for old in os.listdir(BIN):
            if old.startswith("%s-%s-" % (name, variant)):
                try:
                    os.unlink(os.path.join(BIN, old))
                except OSError:
                    pass
        libs = ["-pthread", "-ldl"] + (["-lxml2"] if scope == "full" else [])
        tmp = out + ".tmp%d" % os.getpid()
        cmd = [CXX] + lflags + objs + libs + ["-o", tmp]
        procs.append((out, tmp, subprocess.Popen(cmd, stdout=subprocess.PIPE,
                                                 stderr=subprocess.STDOUT)))
    for out, tmp, p in procs:
        text = p.communicate()[0].decode(errors="replace")
        if p.returncode != 0:
            raise BuildError("linking %s failed:\n%s" % (out, text[-4000:]))
        os.rename(tmp, out)
    return result
