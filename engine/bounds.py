"""Obligation: every memory access lies inside an object the accessing code owns.  Each obligation is assigned to
a class by the object the address is derived from."""
from terms import *
from domain import ASTEPS
from models import READER, WRITER, TREE, NODEDATA, OBJECTS

BPAGE = "mpack_builder_page_t"
SCALAR = ("base", "enum", "ptr")


def sized(eng, mt):
    """byte size of the object a pointer atom refers to, when its type says so"""
    if mt.get("alloca"):
        return mt["size"]
    if mt.get("errno"):
        return 8
    di = mt.get("di")
    f = mt.get("field")
    if f and (f[1] or "").split("[")[0] in ("reserved", "context") and eng.root in eng.installed:
        return 64       # what the library function that installed this callback left there
    if di is None or mt.get("heap"):
        return None
    d = eng.m.di[eng.m.strip(di)] if eng.m.strip(di) is not None and eng.m.strip(di) >= 0 else None
    if d is None:
        return None
    if d["k"] in ("struct", "union"):
        if eng.m.struct_name(di) == BPAGE:
            return eng.m.consts["MPACK_BUILDER_PAGE_SIZE"]
        return eng.m.sizeof(di)
    if d["k"] in ("ptr", "enum"):
        return eng.m.sizeof(di) if not mt.get("user") or True else None
    if d["k"] == "base" and (d["name"] not in ("char", "unsigned char", "signed char") or d["name"] == "signed char" and mt.get("arg")):
        return eng.m.sizeof(di)
    if d["k"] == "base" and mt.get("arg") and mt.get("outparam"):
        return eng.m.sizeof(di)
    return None


def inside(eng, st, addr, n, mode):
    """(proved, reason)"""
    n = st.norm(n)
    if n.k == "c" and n.a[0] == 0:
        return True
    key, off = eng.split(addr)
    p = eng.prov(key)
    mt = (p.meta or {}) if p is not None else {}
    la = lin(addr)
    hi = ladd(la, lin(n))
    if p is not None and p.k == "g":
        g = eng.m.globals.get(p.a[0]) or {}
        sz = g.get("size")
        if mode == "w" and g.get("const"):
            return False
        if sz is None:
            return True
        base = lin(p)
        return st.prove(lsub(base, la), ASTEPS) and st.prove(ladd(lsub(hi, base), (-sz, ())), ASTEPS)
    if p is not None and st.ts.get(p) == "freed":
        return False
    if len(key) == 1 and p is not None:
        sz = sized(eng, mt)
        if sz is not None and n.k == "c" and 0 <= off and off + n.a[0] <= sz:
            return True
    q = p
    while q is not None and q.meta and q.meta.get("root") and not q.meta.get("alloca"):
        q = q.meta["root"]
    if q is not None and (q.meta or {}).get("alloca"):
        # a local object, or an unknown position in one
        sz = q.meta["size"]
        base = lin(q)
        return st.prove(lsub(base, la), ASTEPS) and st.prove(ladd(lsub(hi, base), (-sz, ())), ASTEPS)
    if p is not None and not mt.get("heap"):
        sz = sized(eng, mt)
        if sz is not None and (sz > 64 or n.k == "c"):
            base = lin(p)
            if st.prove(lsub(base, la), ASTEPS) and st.prove(ladd(lsub(hi, base), (-sz, ())), ASTEPS):
                return True
    for w, (k, a, b) in st.wins.items():
        if mode == "w" and k == "r":
            continue
        if mode == "r" and k == "W":
            continue
        if st.prove(lsub(lin(a), la), ASTEPS) and st.prove(lsub(hi, lin(b)), ASTEPS):
            return True
    return False


def classify(eng, st, addr):
    """what the address is derived from: 'message' (reader or tree input), 'output' (writer buffer), 'caller'
    (buffers of the caller or of the heap handed to it) or 'node' (node storage, stack, objects)"""
    key, off = eng.split(addr)
    p = eng.prov(key)
    if p is None:
        return "other"
    mt = p.meta or {}
    if p.k == "g":
        return "global"
    f = mt.get("field")
    if f:
        s, path = f[0], (f[1] or "")
        if s == READER:
            return "message"
        if s == TREE and path.startswith("data"):
            return "message"
        if s == WRITER and path in ("buffer", "position", "end"):
            return "output"
        if s == WRITER or s in ("mpack_builder_t", "mpack_build_t", "mpack_builder_page_t"):
            return "output"
        if s in (TREE, NODEDATA) or "node" in (s or "") or "page" in (s or ""):
            return "node"
    if mt.get("user"):
        return "caller"
    if mt.get("heap"):
        return "heap"
    if mt.get("alloca"):
        return "stack"
    return "other"
