"""From /repo's current working tree to the exported IR, for one configuration."""
import json
import os
import subprocess
import sys
import tempfile
import shutil

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get("MPACK_REPO", "/repo")
SRC = os.path.join(REPO, "src", "mpack")
EXPORT = os.path.join(VERIF, "build", "irexport")

FULL = ["-DMPACK_EXTENSIONS=1", "-DMPACK_COMPATIBILITY=1", "-DMPACK_DEBUG=0"]
CONFIGS = {
    # name: flags
    "rel64": FULL,
    "rel32": FULL + ["-m32"],
    "size64": FULL + ["-DMPACK_OPTIMIZE_FOR_SIZE=1"],
    "dbg64": ["-DMPACK_EXTENSIONS=1", "-DMPACK_COMPATIBILITY=1", "-DMPACK_DEBUG=1"],
    "track64": FULL + ["-DMPACK_READ_TRACKING=1", "-DMPACK_WRITE_TRACKING=1"],
    "track32": FULL + ["-m32", "-DMPACK_READ_TRACKING=1", "-DMPACK_WRITE_TRACKING=1"],
    "def64": ["-DMPACK_DEBUG=0"],
    "nobuilder64": FULL + ["-DMPACK_BUILDER=0"],
    "bpage64": FULL + ["-DMPACK_BUILDER_PAGE_SIZE=256"],
    "bpagedbg64": ["-DMPACK_EXTENSIONS=1", "-DMPACK_COMPATIBILITY=1", "-DMPACK_DEBUG=1", "-DMPACK_WRITE_TRACKING=0", "-DMPACK_READ_TRACKING=0",
                   "-DMPACK_BUILDER_PAGE_SIZE=256"],
    "internal64": FULL + ["-DMPACK_BUILDER_PAGE_SIZE=256", "-DMPACK_BUILDER_INTERNAL_STORAGE=1", "-DMPACK_BUILDER_INTERNAL_STORAGE_SIZE=200"],
    "nostdio64": FULL + ["-DMPACK_STDIO=0"],
    "nostdlib64": FULL + ["-DMPACK_STDIO=0", "-DMPACK_STDLIB=0"],
    "nomalloc64": FULL + ["-DMPACK_STDIO=0", "-DMPACK_STDLIB=0", "-DVP_NO_MALLOC=1"],
    "alloc64": FULL + ["-DMPACK_MALLOC=vp_malloc", "-DMPACK_REALLOC=vp_realloc", "-DMPACK_FREE=vp_free"],
    "alloc2_64": FULL + ["-DMPACK_MALLOC=vp_malloc", "-DMPACK_FREE=vp_free"],
    "freestanding64": FULL + ["-DMPACK_STDIO=0", "-DMPACK_STDLIB=0", "-DMPACK_NO_BUILTINS=1", "-DMPACK_MALLOC=vp_malloc",
                              "-DMPACK_FREE=vp_free", "-ffreestanding"],
    "nodouble64": FULL + ["-DMPACK_DOUBLE=0"],
    "nofloat64": FULL + ["-DMPACK_FLOAT=0", "-DMPACK_DOUBLE=0"],
}


PRE = """#include <stddef.h>
void* vp_malloc(size_t); void* vp_realloc(void*, size_t); void vp_free(void*);
"""


class BuildError(Exception):
    pass


def sources():
    fs = sorted(f for f in os.listdir(SRC) if f.endswith(".c"))
    if "mpack-platform.c" in fs:
        fs.remove("mpack-platform.c")
        fs.insert(0, "mpack-platform.c")
    if len(fs) < 6:
        raise BuildError("expected the six mpack sources in %s, found %r" % (SRC, fs))
    return fs


def run(cmd, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, **kw)
    if p.returncode:
        raise BuildError("%s failed:\n%s" % (" ".join(cmd), p.stderr.decode(errors="replace")[-3000:]))
    return p.stdout


def ensure_export():
    if os.path.exists(EXPORT) and os.path.getmtime(EXPORT) >= os.path.getmtime(os.path.join(HERE, "irexport.cpp")):
        return
    os.makedirs(os.path.dirname(EXPORT), exist_ok=True)
    tmp = EXPORT + ".%d" % os.getpid()
    run(["clang++", "-O1", "-std=c++17", "-fno-rtti", "-I/usr/lib/llvm-18/include", os.path.join(HERE, "irexport.cpp"),
         "-o", tmp, "-L/usr/lib/llvm-18/lib", "-lLLVM-18"])
    os.replace(tmp, EXPORT)


def unity(tmp, extra=""):
    p = os.path.join(tmp, "unity.c")
    with open(p, "w") as f:
        f.write(extra)
        for s in sources():
            f.write('#include "%s"\n' % os.path.join(SRC, s))
    return p


def constants(tmp, config):
    """configuration values that appear in the code as plain numbers"""
    p = os.path.join(tmp, "k.c")
    names = ["MPACK_BUILDER_PAGE_SIZE", "MPACK_NODE_PAGE_SIZE", "MPACK_BUFFER_SIZE"]
    with open(p, "w") as f:
        f.write((PRE if any("vp_malloc" in x for x in CONFIGS[config]) else "") + '#include "mpack/mpack.h"\n')
        for n in names:
            f.write("VPCONST_%s %s\n" % (n[6:], n))
    out = run(["clang", "-std=gnu11", "-E", "-P", "-w", "-I" + os.path.dirname(SRC)] + CONFIGS[config] + [p]).decode()
    r = {}
    for l in out.split("\n"):
        if l.startswith("VPCONST_"):
            k, v = l.split(None, 1)
            v = v.strip().strip("()").rstrip("uUlL")
            if v.isdigit():
                r["MPACK_" + k[8:]] = int(v)
    return r


def ir(config, mem2reg=True):
    """parsed JSON of the module for this configuration"""
    ensure_export()
    tmp = tempfile.mkdtemp(prefix="mpackir.")
    try:
        u = unity(tmp, PRE if any("vp_malloc" in f for f in CONFIGS[config]) else "")
        bc = os.path.join(tmp, "u.bc")
        run(["clang", "-std=gnu11", "-O0", "-Xclang", "-disable-O0-optnone", "-g", "-fno-discard-value-names", "-w",
             "-emit-llvm", "-c", "-I" + SRC, "-I" + os.path.dirname(SRC)] + CONFIGS[config] + [u, "-o", bc])
        if mem2reg:
            bc2 = os.path.join(tmp, "v.bc")
            run(["opt", "-passes=mem2reg", bc, "-o", bc2])
            bc = bc2
        js = json.loads(run([EXPORT, bc]))
        js["consts"] = constants(tmp, config)
        return js
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


if __name__ == "__main__":
    ensure_export()
    for c in sys.argv[1:]:
        j = ir(c)
        print(c, j["ptrbits"], len([f for f in j["functions"] if not f["decl"]]), "functions")
