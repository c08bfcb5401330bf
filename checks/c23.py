"""C23: node accessors modify nothing but an error; the library has no mutable shared state."""
from base import *
from models import CALLBACKS


def writes_allowed_fields():
    return ("error",)


class Immutable(Rule):
    """in functions that access a node (or a tree through a const pointer): every store goes to locals, to the caller's
    output buffer, to memory allocated by the call, or is the tree's error"""

    def start(self, eng, st, fn, args, label):
        self.fn = fn

    def where_to(self, eng, st, addr, n):
        key, off = eng.split(addr)
        p = eng.prov(key)
        if p is None:
            return "unknown"
        p = (p.meta or {}).get("root") or p
        mt = p.meta or {}
        if p.k == "g":
            return "global"
        if mt.get("alloca") or mt.get("heap") or mt.get("user") or mt.get("errno"):
            return None
        s = eng.models.objptr(eng, p)
        if s == TREE and len(key) == 1:
            o = eng.m.offset_of(TREE, "error")
            if off == o[0] and n == o[1]:
                return None
            return "tree"
        if s == NODEDATA or (mt.get("field") or ("",))[0] in (TREE, NODEDATA, "mpack_tree_page_t"):
            return "nodes or data of the tree"
        return "unknown"

    def on_access(self, eng, st, addr, ln, mode, fr, ins):
        if mode != "w":
            return None
        ln = st.norm(ln)
        n = ln.a[0] if ln.k == "c" else 0
        if ln.k == "c" and n == 0:
            return None
        w = self.where_to(eng, st, addr, n)
        return self.chk(w is None, "access-does-not-modify", "stores to %s (%s)" % (w, show(addr)[:120]), eng, fr, ins)


def mk(eng):
    return [Immutable()]


def node_root(m, r):
    """takes a node, or a tree it may not modify"""
    f = m.fns[r]
    for n, di in enumerate(f.argdi[1:]):
        if di is None or di < 0:
            continue
        if m.struct_name(di) == NODE:
            return True
    return False


def run(rep, tier):
    rep.explain = ("Stores in every public node accessor, in all calling contexts, resolved to the object they modify; and every "
                   "global variable of the library is constant or never stored to or handed out.")
    cfgs = ["rel64"] + (["dbg64", "rel32", "def64", "nomalloc64"] if tier == "thorough" else ["dbg64"])
    for c in cfgs:
        ts = roots(c, node_root, callbacks=False)
        if len(ts) < 40:
            raise Broken("only %d functions take a node" % len(ts))
        rep.run(ts, mk)
    for c in dict.fromkeys(cfgs + ["nobuilder64", "track64", "size64", "nofloat64"]):
        globals_constant(rep, driver.module(c), c)


def globals_constant(rep, m, cfg):
    uses = {}
    for fn in m.fns.values():
        for blk in fn.blocks:
            for i in blk:
                if i["op"] == "dbg":
                    continue
                walk(i, lambda g: uses.setdefault(g, []).append((fn, i)))
    for g, d in sorted(m.globals.items()):
        if d.get("const"):
            rep.check(True, "no-shared-state", "constant", g, "", cfg=cfg)
            continue
        if g not in uses or g in m.fns:
            continue
        bad = None
        for fn, i in uses[g]:
            # a mutable global may only be loaded from
            if i["op"] == "load":
                continue
            bad = (fn, i)
            break
        ext = d.get("size") is None or d.get("decl")
        if ext:
            rep.check(g in ("stderr", "stdout", "stdin"), "no-shared-state", "external", g, "refers to external variable %s" % g, cfg=cfg)
            continue
        rep.check(bad is None, "no-shared-state", bad[0].where(bad[1]) if bad else "global", bad[0].name if bad else g,
                  lambda: "modifies or hands out the address of the global variable %s" % g, cfg=cfg)


def walk(o, f):
    if isinstance(o, (list, tuple)):
        if len(o) == 2 and o[0] in ("g",) and isinstance(o[1], str):
            f(o[1])
        else:
            for x in o:
                walk(x, f)
    elif isinstance(o, dict):
        for x in o.values():
            walk(x, f)
