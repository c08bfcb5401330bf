"""Which functions a user can call: declared outside the @cond sections of the public headers, or with external
linkage and not called from the library itself (targets of public macros)."""
import os
import re
from build import SRC


def public_names():
    """functions carrying an API documentation comment outside @cond sections"""
    names = set()
    for f in sorted(os.listdir(SRC)):
        if not f.endswith(".h"):
            continue
        text = open(os.path.join(SRC, f), errors="replace").read()
        text = re.sub(r"@cond.*?@endcond", "*/ /*", text, flags=re.S)
        text = re.sub(r"^[ \t]*#(?:[^\n]*\\\n)*[^\n]*", " ", text, flags=re.M)
        text = re.sub(r"//[^\n]*", " ", text)
        for m in re.finditer(r"/\*\*(?:(?!\*/).)*\*/(?:\s|/\*(?:(?!\*/).)*\*/)*([^;{}/]*)[;{]", text, flags=re.S):
            d = re.search(r"\b(mpack_\w+)\s*\(", m.group(1))
            if d and "typedef" not in m.group(1):
                names.add(d.group(1))
    return names


def called_names(mod):
    out = set()

    def walk(o):
        if isinstance(o, list):
            if len(o) == 2 and o[0] in ("fn", "g") and isinstance(o[1], str):
                out.add(o[1])
            else:
                for x in o:
                    walk(x)
        elif isinstance(o, dict):
            for x in o.values():
                walk(x)
    for fn in mod.fns.values():
        for blk in fn.blocks:
            for ins in blk:
                if ins["op"] == "call":
                    walk(ins["callee"])
    return out


def roots(mod):
    pub = public_names()
    called = called_names(mod)
    r = []
    for n, fn in mod.fns.items():
        if fn.local:
            continue
        if n in pub or n not in called:
            r.append(n)
    return sorted(r)


def address_taken(mod):
    """functions whose address is stored or passed (callbacks installed by the library)"""
    out = set()

    def walk(o):
        if isinstance(o, (list, tuple)):
            if len(o) == 2 and o[0] in ("fn", "g") and isinstance(o[1], str):
                if o[1] in mod.fns:
                    out.add(o[1])
            else:
                for x in o:
                    walk(x)
        elif isinstance(o, dict):
            for x in o.values():
                walk(x)
    for fn in mod.fns.values():
        for blk in fn.blocks:
            for ins in blk:
                if ins["op"] == "dbg":
                    continue
                for k, v in ins.items():
                    if k == "callee":
                        continue
                    walk(v)
    return sorted(out)


if __name__ == "__main__":
    import sys
    import build
    from interp import Module
    m = Module(build.ir(sys.argv[1]))
    r = roots(m)
    print(len(r), len([n for n in m.fns if not m.fns[n].local]))
    print("internal:", sorted(n for n in m.fns if not m.fns[n].local and n not in r))
    print("addr:", address_taken(m))
    pub = public_names()
    print("nonpub roots", [n for n in r if n not in pub])
