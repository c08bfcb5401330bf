"""C29: only the configured platform facilities are referenced."""
from base import *

MEM = {"malloc", "free", "realloc", "calloc", "aligned_alloc", "posix_memalign", "strdup", "strndup", "reallocarray", "memalign", "valloc"}
VP = {"vp_malloc", "vp_realloc", "vp_free"}
STRING = {"memcpy", "memmove", "memset", "memcmp", "strlen"}
STDIO = {"fopen", "fclose", "fread", "fwrite", "fseek", "ftell", "feof", "ferror", "fflush", "setvbuf", "setbuf", "clearerr", "rewind",
         "__errno_location"}
DEBUG = {"abort", "fprintf", "snprintf", "vsnprintf", "strncpy", "stderr", "stdout", "printf", "puts", "fputs", "fputc", "vfprintf", "putchar"}
ONLY = {
    "nostdlib64": STRING,
    "nomalloc64": STRING,
    "freestanding64": {"vp_malloc", "vp_free"},
}
NOT = {
    "nostdio64": STDIO - {"__errno_location"} | DEBUG - {"abort", "strncpy"} | {"getc", "fgetc", "ungetc", "fdopen", "freopen", "fgets", "remove", "rename", "perror"},
    "alloc64": MEM,
    "alloc2_64": MEM | {"vp_realloc"},
}


def allowed(cfg, n):
    if cfg in ONLY:
        return n in ONLY[cfg]
    return n not in NOT.get(cfg, ())


NOFP = {"nofloat64": ("float", "double", "x86_fp80", "half", "fp128"), "nodouble64": ("double", "x86_fp80", "fp128")}


def externs(m, fn):
    for blk in fn.blocks:
        for i in blk:
            if i["op"] == "dbg":
                continue
            names = []

            def walk(o):
                if isinstance(o, (list, tuple)):
                    if len(o) == 2 and o[0] in ("fn", "g") and isinstance(o[1], str):
                        names.append(o[1])
                    else:
                        for x in o:
                            walk(x)
                elif isinstance(o, dict):
                    for x in o.values():
                        walk(x)
            walk(i)
            for n in names:
                if n in m.fns:
                    continue
                g = m.globals.get(n)
                if g is not None and not g.get("decl"):
                    continue
                yield n, i


def run(rep, tier):
    rep.explain = ("Every external symbol referenced by the code compiled in each configuration is in that configuration's list: "
                   "with custom allocator macros only those, without stdio, stdlib or malloc none of their functions, and without "
                   "floating point no instruction of a floating type.")
    cfgs = ["rel64", "nostdio64", "nostdlib64", "alloc64", "alloc2_64", "freestanding64", "nofloat64", "nodouble64"]
    if tier == "thorough":
        cfgs += ["nomalloc64"]
    refs = {}
    for cfg in cfgs:
        m = driver.module(cfg)
        rep.configs.append(cfg)
        for fn in m.fns.values():
            rep.functions.add(fn.name)
            for n, i in externs(m, fn):
                if n.startswith("llvm."):
                    continue
                refs.setdefault(cfg, set()).add(n)
                rep.check(allowed(cfg, n), "only-configured-facilities", fn.where(i), fn.name,
                          "refers to %s, which the %s configuration does not provide" % (n, cfg), cfg=cfg)
            if cfg in NOFP:
                for blk in fn.blocks:
                    for i in blk:
                        if i["op"] == "dbg":
                            continue
                        bad = [t for t in (i.get("ty"), i.get("vty"), i.get("sty"), i.get("aty")) if isinstance(t, str) and t in NOFP[cfg]]
                        rep.check(not bad, "no-floating-point", fn.where(i), fn.name, lambda: "uses type %s" % bad[0], cfg=cfg)
    rep.cov["references"] = {c: sorted(r) for c, r in refs.items()}
    rep.roots = len(rep.functions)
    if "malloc" not in refs["rel64"] or "vp_malloc" not in refs["alloc64"] or "fread" not in refs["rel64"] or "vp_malloc" not in refs["freestanding64"]:
        raise Broken("the reference configurations do not use their own facilities")
