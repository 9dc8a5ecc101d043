"""Builds the library under test from /repo's working tree, and the harnesses.

Everything lands in /verif/build (ignored by git).  A variant is rebuilt whenever
any byte under the source directories, a compiler flag, or the harness changed.
"""
import hashlib, os, subprocess, sys, concurrent.futures, shutil, fcntl

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, "build"))
BROTLI = ["-lbrotlienc", "-lbrotlidec", "-lbrotlicommon", "-lm"]

VARIANTS = {
    # library flags, harness flags
    "asan": dict(cxx="clang++",
                 flags=["-O1", "-gline-tables-only", "-fsanitize=address",
                        "-fno-omit-frame-pointer"]),
    "plain": dict(cxx="clang++", flags=["-O2", "-gline-tables-only"]),
    "fast": dict(cxx="clang++", flags=["-O1", "-DNDEBUG"]),
    "ubsan": dict(cxx="clang++",
                  flags=["-O1", "-gline-tables-only", "-fsanitize=address",
                         "-fsanitize=bounds,null,return,unreachable,integer-divide-by-zero,vla-bound",
                         "-fno-sanitize-recover=all"]),
    # instrumented memory accesses, runtime supplied by the scheduler harness
    "sched": dict(cxx="clang++",
                  flags=["-O1", "-gline-tables-only", "-fsanitize=thread",
                         "-mllvm", "-tsan-instrument-func-entry-exit=false"]),
}


def tree_hash(paths):
    h = hashlib.sha256()
    for base in paths:
        if os.path.isfile(base):
            h.update(base.encode())
            h.update(open(base, "rb").read())
            continue
        for d, ds, fs in sorted(os.walk(base)):
            ds.sort()
            for f in sorted(fs):
                if f.endswith((".cc", ".h", ".c", ".java")):
                    p = os.path.join(d, f)
                    h.update(p.encode())
                    h.update(open(p, "rb").read())
    return h.hexdigest()


def run(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                       text=True, **kw)
    if r.returncode != 0:
        raise RuntimeError("command failed: %s\n%s" % (" ".join(cmd), r.stdout[-6000:]))
    return r.stdout


def lib_sources(root=None, dirs=("common", "dec", "enc")):
    root = root or os.path.join(REPO, "c")
    out = []
    for d in dirs:
        p = os.path.join(root, d)
        for f in sorted(os.listdir(p)):
            if f.endswith(".cc"):
                out.append(os.path.join(p, f))
    return out


def compile_many(cxx, jobs):
    """jobs: list of (src, obj, flags)"""
    def one(j):
        src, obj, flags = j
        run([cxx] + flags + ["-c", src, "-o", obj])
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        for f in [ex.submit(one, j) for j in jobs]:
            f.result()


class Lock:
    def __init__(self, name):
        os.makedirs(BUILD, exist_ok=True)
        self.f = open(os.path.join(BUILD, "." + name + ".lock"), "w")

    def __enter__(self):
        fcntl.flock(self.f, fcntl.LOCK_EX)

    def __exit__(self, *a):
        self.f.close()


def build_lib(variant, defines=(), root=None, tag="", dirs=("common", "dec", "enc"),
              std="c++11", extra_src=()):
    v = VARIANTS[variant]
    root = root or os.path.join(REPO, "c")
    flags = ["-std=" + std, "-w", "-fPIC", "-I" + os.path.join(root, "include"),
             "-I" + root] + v["flags"] + list(defines)
    key = hashlib.sha256((" ".join([v["cxx"]] + flags + list(dirs) + list(extra_src)) +
                          tree_hash([root] + list(extra_src))).encode()).hexdigest()[:20]
    d = os.path.join(BUILD, "lib-%s%s" % (variant, tag))
    with Lock("lib-%s%s" % (variant, tag)):
        stamp = os.path.join(d, "stamp")
        lib = os.path.join(d, "lib.a")
        if os.path.exists(stamp) and open(stamp).read() == key and os.path.exists(lib):
            return lib, key
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        jobs = []
        for s in lib_sources(root, dirs) + list(extra_src):
            jobs.append((s, os.path.join(d, s.strip("/").replace("/", "_") + ".o"), flags))
        compile_many(v["cxx"], jobs)
        run(["ar", "rcs", lib] + [j[1] for j in jobs])
        for j in jobs:
            os.unlink(j[1])
        open(stamp, "w").write(key)
    return lib, key


def build_harness(name, variant, libs, srcs=None, flags=(), link=(), hflags=None,
                  special=()):
    """libs: list of (path, key).  special: further sources as (path, compiler, flags).
    Returns the binary's path."""
    v = VARIANTS[variant]
    srcs = srcs or [os.path.join(VERIF, "h", name + ".cc")]
    fl = ["-std=c++17", "-w", "-I" + os.path.join(REPO, "c", "include"),
          "-I" + os.path.join(REPO, "c"), "-I" + os.path.join(VERIF, "h")]
    fl += (v["flags"] if hflags is None else hflags) + list(flags)
    key = hashlib.sha256((" ".join(fl + list(link) + [k for _, k in libs] + [repr(special)]) +
                          tree_hash([os.path.join(VERIF, "h")] + list(srcs) +
                                    [x[0] for x in special])).encode()).hexdigest()[:20]
    out = os.path.join(BUILD, "bin-" + name + "-" + variant)
    with Lock("bin-" + name):
        stamp = out + ".stamp"
        if os.path.exists(stamp) and open(stamp).read() == key and os.path.exists(out):
            return out
        objs = []
        jobs = []
        for s in srcs:
            o = os.path.join(BUILD, "%s-%s.o" % (name, os.path.basename(s)))
            jobs.append((s, o, fl))
            objs.append(o)
        for src, cxx, sfl in special:
            o = os.path.join(BUILD, "%s-s-%s.o" % (name, os.path.basename(src)))
            run([cxx] + list(sfl) + ["-c", src, "-o", o])
            objs.append(o)
        compile_many(v["cxx"], jobs)
        run([v["cxx"]] + [f for f in fl if not f.startswith("-I")] + objs +
            [p for p, _ in libs] + BROTLI + ["-lpthread"] + list(link) + ["-o", out])
        for o in objs:
            os.unlink(o)
        open(stamp, "w").write(key)
    return out
