#!/usr/bin/env python3
"""Builds the engine under test from /repo's working tree, out of tree.

usage: build.py FLAVOR [FLAVOR...]    prints nothing on success, exit 0.

The sources are mirrored by content into $BUILD/src (only files whose content
changed are rewritten, so make's mtimes are reliable), and built there with
the repository's own Makefile into $BUILD/<flavor>.  Nothing in /repo is
written.  A changed Makefile, build script or list of files starts over.
"""
import fcntl, hashlib, os, shutil, subprocess, sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("REPO", "/repo")
BUILD = os.environ.get("VBUILD", os.path.join(HERE, ".build"))
TREES = ["src", "include", "gen", "build", "module", "njs", "test/njs"]

SAN = "-fsanitize=address,undefined -fno-sanitize=nonnull-attribute,shift-base -fno-sanitize-recover=undefined -fno-omit-frame-pointer"
FLAVORS = {
    # name: (make options, CC, CFLAGS, link flags)
    "asan": ([], "gcc", "-O1 -g1 " + SAN, SAN),
    "fast": ([], "gcc", "-O2 -g1", ""),
    "fuzz": ([], "clang", "-O1 -g1 -fsanitize=fuzzer-no-link,address,undefined -fno-sanitize-recover=undefined -fno-sanitize=alignment,function -fno-omit-frame-pointer -DRJS_FUZZ", "-fsanitize=fuzzer,address,undefined"),
    "nocache": (["ENABLE_BINDING_CACHE=0"], "gcc", "-O1 -g1 " + SAN, SAN),
    "intenc": (["ENC_CONV=internal"], "gcc", "-O1 -g1 " + SAN, SAN),
    "iconv": (["ENC_CONV=iconv"], "gcc", "-O1 -g1 " + SAN, SAN),
    "ndebug": (["NOASSERT=1"], "gcc", "-O2 -g1", ""),
    "osize": (["OPTIMIZE_FOR_SIZE=1"], "gcc", "-Os -g1", ""),
    "tsan": ([], "gcc", "-O1 -g1 -fsanitize=thread -fno-omit-frame-pointer", "-fsanitize=thread"),
}


def mirror(dst):
    """Mirror TREES + Makefile into dst by content. Returns key of the file list."""
    names = ["Makefile"]
    for t in TREES:
        for d, ds, fs in os.walk(os.path.join(REPO, t)):
            ds.sort()
            for f in sorted(fs):
                names.append(os.path.relpath(os.path.join(d, f), REPO))
    names = sorted(n for n in names if not n.endswith("libratjs_opt.c"))
    want = set(names)
    for d, ds, fs in os.walk(dst):
        for f in fs:
            p = os.path.join(d, f)
            if os.path.relpath(p, dst) not in want:
                os.unlink(p)
    h = hashlib.sha256()
    for n in names:
        with open(os.path.join(REPO, n), "rb") as f:
            data = f.read()
        p = os.path.join(dst, n)
        old = None
        if os.path.isfile(p):
            with open(p, "rb") as f:
                old = f.read()
        if old != data:
            os.makedirs(os.path.dirname(p), exist_ok=True)
            with open(p, "wb") as f:
                f.write(data)
            shutil.copymode(os.path.join(REPO, n), p)
        h.update(n.encode() + b"\0")
        if n == "Makefile" or n.startswith("build/"):
            h.update(data)
    return h.hexdigest()


def run(cmd, cwd, log):
    p = subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    log.write(" ".join(cmd).encode() + b"\n" + p.stdout)
    if p.returncode:
        sys.stderr.write("build failed: %s\n%s\n" % (" ".join(cmd), p.stdout.decode("utf-8", "replace")[-4000:]))
        sys.exit(2)


def build(flavor):
    opts, cc, cflags, ldflags = FLAVORS[flavor]
    src = os.path.join(BUILD, "src-osize" if flavor == "osize" else "src")
    os.makedirs(src, exist_ok=True)
    key = mirror(src) + repr(FLAVORS[flavor])
    out = os.path.join(BUILD, flavor)
    kf = os.path.join(out, ".key")
    env = {k: v for k, v in os.environ.items() if k not in (
        "O", "ARCH", "DEBUG", "CROSS_COMPILE", "CLANG", "M", "CFLAGS", "LIBS", "HOST_CFLAGS", "HOST_LIBS", "MAKEFLAGS")}
    os.environ.clear()
    os.environ.update(env)
    os.environ["ASAN_OPTIONS"] = "detect_leaks=0"
    old = None
    if os.path.exists(kf):
        old = open(kf).read()
    fresh = old != key
    if fresh:
        shutil.rmtree(out, ignore_errors=True)
    os.makedirs(out, exist_ok=True)
    with open(os.path.join(out, "build.log"), "wb") as log:
        if fresh:
            run(["make", "O=" + out] + opts + ["config"], src, log)
        base = "-Wno-all -Iinclude -I%s/include -I%s/src/lib -DMODULE_DIR=\\\"/usr/lib/ratjs/module\\\" -fPIC " % (out, out)
        make = ["make", "--eval=.DELETE_ON_ERROR:", "O=" + out, "-j8", "CC=" + cc,
                "CFLAGS=" + base + cflags + (" -DNDEBUG" if "NOASSERT=1" in opts else "")]
        # the single-file build names no generated header as a prerequisite
        run(make + [os.path.join(out, "src/lib", n) for n in (
            "rjs_lex_table_inc.c", "rjs_object_table_inc.c", "rjs_bc_inc.c", "rjs_string_table_inc.c", "rjs_object_table_function.h",
            "rjs_ast_inc.c", "rjs_ast.h", "rjs_string_table.h", "rjs_bc.h", "rjs_object_table.h", "rjs_bc_run_inc.c",
            "rjs_token_types.h", "rjs_string_table_function.h")], src, log)
        run(make + [os.path.join(out, "libratjs.a")], src, log)
        if fresh:
            with open(kf, "w") as f:
                f.write(key)
        lib = os.path.join(out, "libratjs.a")
        libs = ["-lm", "-licuuc", "-licudata", "-lstdc++", "-lffi", "-lpthread", "-ldl"]

        def link(target, csrcs, extra=(), lf=None):
            t = os.path.join(out, target)
            deps = [lib] + csrcs
            if os.path.exists(t) and all(os.path.getmtime(d) < os.path.getmtime(t) for d in deps):
                return
            tmp = t + ".tmp"
            run([cc] + cflags.split() + ["-w", "-I" + src + "/include", "-I" + out + "/include", "-I" + out + "/src/lib",
                 "-I" + src + "/src/lib/include", "-I" + src + "/src/lib", "-DMODULE_DIR=\"/nonexistent\"",
                 "-o", tmp] + csrcs + list(extra) + ["-Wl,--whole-archive", lib, "-Wl,--no-whole-archive", "-rdynamic"]
                + (ldflags.split() if lf is None else lf.split()) + libs, src, log)
            os.rename(tmp, t)

        if flavor == "fuzz":
            for n in sorted(os.listdir(os.path.join(HERE, "fuzz"))):
                if n.startswith("fuzz_") and n.endswith(".c"):
                    link(n[:-2], [os.path.join(HERE, "fuzz", n)])
        else:
            link("host", [os.path.join(HERE, "host", n) for n in ("host.c", "hostmem.c")], ["-Wl,--wrap=rjs_gc_add", "-Wl,--wrap=rjs_log"])
            link("ratjs", [os.path.join(src, "src/exe/rjs_main.c")])
            for n in sorted(os.listdir(os.path.join(HERE, "host"))):
                if n.startswith("api_") and n.endswith(".c") and flavor in ("asan",):
                    link(n[:-2], [os.path.join(HERE, "host", n)])


def main():
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        for f in sys.argv[1:]:
            build(f)


main()
