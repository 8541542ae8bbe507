"""Builds DUMA variants and harnesses from /repo's current working tree, in a scratch directory.

Nothing is built inside /repo.  The sources are copied (without the generated duma_config.h and
verinfo.h), createconf.c is compiled and run in the copy exactly as the project's own build does,
and the library objects are compiled from the copy with the project's debug flags.
"""
import glob, hashlib, os, shutil, subprocess, tempfile, fcntl

REPO = os.environ.get("VT_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUILD = os.environ.get("VT_BUILD", os.path.join(VERIF, "build"))


class BuildError(Exception):
    pass


def sh(cmd, cwd=None, env=None, timeout=600):
    r = subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                       timeout=timeout)
    if r.returncode != 0:
        raise BuildError("command failed (%d): %s\n%s" % (
            r.returncode, " ".join(cmd), r.stdout.decode("utf-8", "replace")[-4000:]))
    return r.stdout.decode("utf-8", "replace")


def _clean_env():
    env = {k: v for k, v in os.environ.items()
           if not k.startswith("DUMA_") and k not in (
               "LD_PRELOAD", "MALLOC_0_STRATEGY", "NEW_0_STRATEGY", "CFLAGS", "CPPFLAGS", "LDFLAGS")}
    env["LC_ALL"] = "C"
    return env


# name -> (library defines, extra compile flags, CC, CXX, C++ standard)
BASE = ["-g", "-O0", "-U_FORTIFY_SOURCE", "-w"]
VARIANTS = {
    # what CMake builds as libduma.a (global malloc/free, leak detection, thread safety)
    "static": dict(defs=["-DDUMA_OLD_NEW_MACRO"]),
    # what the GNUmakefile builds as libduma.a on Linux
    "gnustatic": dict(defs=["-DDUMA_SO_NO_LEAKDETECTION", "-DDUMA_NO_STRERROR"], cxxstd="c++98"),
    # what CMake builds as libduma.so
    "so": dict(defs=[], shared=True),
    # what the GNUmakefile builds as libduma.so
    "gnuso": dict(defs=["-DDUMA_SO_NO_LEAKDETECTION", "-DDUMA_NO_STRERROR", "-DDUMA_SO_LIBRARY"],
                  shared=True, cxxstd="c++98"),
    "noglobal": dict(defs=["-DDUMA_NO_GLOBAL_MALLOC_FREE"]),
    "nothreads": dict(defs=["-DDUMA_LIB_NO_THREAD_SAFETY", "-DDUMA_NO_THREAD_SAFETY"]),
    "noleak": dict(defs=["-DDUMA_LIB_NO_LEAKDETECTION"]),
    "explicit": dict(defs=["-DDUMA_EXPLICIT_INIT"]),
    "atexit": dict(defs=["-DDUMA_LIB_PREFER_ATEXIT", "-DDUMA_LIB_PREFER_GETENV"]),
    "nocpp": dict(defs=["-DDUMA_LIB_NO_CPP_SUPPORT", "-DDUMA_NO_CPP_SUPPORT"]),
    # the old macros for C++
    "oldmac": dict(defs=["-DDUMA_OLD_NEW_MACRO", "-DDUMA_OLD_DEL_MACRO"]),
    # only the library is instrumented: the harnesses touch guards on purpose
    "asan": dict(defs=["-DDUMA_NO_GLOBAL_MALLOC_FREE"],
                 flags=["-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-fno-omit-frame-pointer",
                        "-fstack-protector-all"],
                 hflags=["-DVT_SAN=1", "-fno-sized-deallocation"], hlibs=["-Wl,--no-as-needed", "-lasan", "-lubsan", "-Wl,--as-needed"]),
    "ubsan": dict(defs=["-DDUMA_OLD_NEW_MACRO"],
                  flags=["-fsanitize=undefined", "-fno-sanitize-recover=all", "-fno-omit-frame-pointer",
                         "-fstack-protector-all"],
                  hflags=[], hlibs=["-Wl,--no-as-needed", "-lubsan", "-Wl,--as-needed"]),
    "msan": dict(defs=["-DDUMA_NO_GLOBAL_MALLOC_FREE"], cc="clang-18", cxx="clang-18",   # clang++ would bring its own new and delete
                 hlibs=["-Wl,--no-as-needed", "-lstdc++", "-lm", "-Wl,--as-needed"],
                 flags=["-fsanitize=memory", "-fno-omit-frame-pointer"],
                 hflags=["-fsanitize=memory", "-DVT_SAN=1", "-DVT_MSAN=1", "-fno-sized-deallocation", "-Wno-everything"]),
    "tsan": dict(defs=["-DDUMA_NO_GLOBAL_MALLOC_FREE"],
                 flags=["-fsanitize=thread", "-fno-omit-frame-pointer"], cc="gcc", cxx="g++"),
}


def repo_files():
    fs = [f for f in glob.glob(os.path.join(REPO, "*.h"))
          if os.path.basename(f) not in ("duma_config.h", "verinfo.h")]
    fs += [os.path.join(REPO, "createconf.c")]
    for pat in ("src/*.c", "src/*.cpp", "src/*.h"):
        fs += glob.glob(os.path.join(REPO, pat))
    return sorted(fs)


def _hash(files, extra=""):
    h = hashlib.sha256()
    for f in files:
        h.update(os.path.relpath(f, "/").encode())
        with open(f, "rb") as fh:
            h.update(fh.read())
    h.update(extra.encode())
    return h.hexdigest()[:20]


def lib(variant):
    """Builds a DUMA variant; returns dict(inc=..., defs=[...], lib=path)."""
    v = VARIANTS[variant]
    key = _hash(repo_files() + [os.path.abspath(__file__)], variant)
    out = os.path.join(BUILD, "lib", "%s-%s" % (variant, key))
    so = v.get("shared", False)
    res = dict(dir=out, inc=os.path.join(out, "src_copy"), defs=v["defs"], cc=v.get("cc", "gcc"),
               cxx=v.get("cxx", "g++"), flags=v.get("flags", []),
               hflags=v.get("hflags", v.get("flags", [])), hlibs=v.get("hlibs", []), std=v.get("cxxstd", None),
               lib=os.path.join(out, "libduma.so.0.0.0" if so else "libduma.a"), variant=variant,
               shared=so)
    os.makedirs(os.path.join(BUILD, "lib"), exist_ok=True)
    with open(os.path.join(BUILD, "lib", ".lock-" + variant), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if os.path.exists(os.path.join(out, "ok")):
            return res
        if os.path.isdir(out):
            shutil.rmtree(out)
        cp = res["inc"]
        os.makedirs(cp)
        for f in repo_files():
            d = os.path.join(cp, os.path.relpath(f, REPO))
            os.makedirs(os.path.dirname(d), exist_ok=True)
            shutil.copy(f, d)
        with open(os.path.join(cp, "verinfo.h"), "w") as fh:
            fh.write("#ifndef GIT_SOURCE_VERSION_VERINFO_H\n#define GIT_SOURCE_VERSION_VERINFO_H\n"
                     "#define GIT_SOURCE_VERSION \"verif\"\n#endif\n")
        env = _clean_env()
        sh(["gcc", "-g", "-O0", "-w"] + [d for d in v["defs"] if "SO_LIBRARY" not in d] +
           ["createconf.c", "-o", "createconf"], cwd=cp, env=env)
        sh(["./createconf"], cwd=cp, env=env)
        if not os.path.exists(os.path.join(cp, "duma_config.h")):
            raise BuildError("createconf wrote no duma_config.h")
        objs = []
        procs = []
        for src in sorted(glob.glob(os.path.join(cp, "src", "*.c")) +
                          glob.glob(os.path.join(cp, "src", "*.cpp"))):
            obj = os.path.join(out, os.path.basename(src) + ".o")
            cc = res["cxx"] if src.endswith(".cpp") else res["cc"]
            cmd = [cc] + BASE + res["flags"] + v["defs"] + ["-I" + cp, "-c", src, "-o", obj]
            if src.endswith(".cpp") and res["std"]:
                cmd.insert(1, "-std=" + res["std"])
            cmd += ["-fPIC", "-DPIC"] if so else []
            procs.append((cmd, subprocess.Popen(cmd, env=env, stdout=subprocess.PIPE,
                                                stderr=subprocess.STDOUT)))
            objs.append(obj)
        for cmd, p in procs:
            o, _ = p.communicate(timeout=600)
            if p.returncode:
                raise BuildError("compile failed: %s\n%s" % (" ".join(cmd), o.decode()[-4000:]))
        if so:
            sh([res["cxx"], "-shared", "-Wl,-soname,libduma.so.0"] + objs +
               ["-lpthread", "-lc", "-o", res["lib"]], env=env)
            os.symlink("libduma.so.0.0.0", os.path.join(out, "libduma.so.0"))
        else:
            sh(["ar", "crs", res["lib"]] + objs, env=env)
        open(os.path.join(out, "ok"), "w").close()
    return res


def harness(name, variant, srcs, extra=(), link=True, std="c++17", plain=False, libs=()):
    """Compiles a harness (files of /verif/h) against a variant; returns the executable's path."""
    L = lib(variant)
    paths = [os.path.join(VERIF, "h", s) for s in srcs]
    deps = [os.path.abspath(__file__)] + paths + sorted(glob.glob(os.path.join(VERIF, "h", "*.h")))
    key = _hash(deps + repo_files(), variant + "|" + " ".join(extra) + str(link) + std + str(plain))
    outdir = os.path.join(BUILD, "bin")
    os.makedirs(outdir, exist_ok=True)
    exe = os.path.join(outdir, "%s-%s-%s" % (name, variant, key))
    if os.path.exists(exe):
        return exe
    is_cxx = any(p.endswith(".cpp") for p in paths)
    cc = [L["cxx"], "-std=" + std] if is_cxx else [L["cc"]]
    cmd = cc + L["hlibs"] + BASE + L["hflags"]
    if not plain:
        cmd += L["defs"] + ["-I" + L["inc"]]
    cmd += ["-I" + os.path.join(VERIF, "h")] + list(extra) + paths
    if link:
        cmd += [L["lib"]]
        if L["shared"]:
            cmd += ["-Wl,-rpath," + os.path.dirname(L["lib"])]
    cmd += list(libs) + ["-lpthread"]
    tmp = exe + ".tmp%d" % os.getpid()
    if is_cxx:
        for i, c in [(i, x) for i, x in enumerate(cmd) if x in paths and x.endswith(".c")]:
            cmd[i] = tmp + "-" + os.path.basename(c) + ".o"
            sh([L["cc"]] + BASE + [f for f in L["hflags"] if "sized" not in f] + ([] if plain else L["defs"] + ["-I" + L["inc"]]) + list(extra) +
               ["-c", c, "-o", cmd[i]], env=_clean_env())
    sh(cmd + ["-o", tmp], env=_clean_env())
    os.rename(tmp, exe)
    for f in glob.glob(tmp + "-*.o"):
        os.unlink(f)
    return exe
