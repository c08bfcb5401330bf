"""C01-C04: every access lies inside the object it is made to.  One analysis; each obligation is assigned to the
properties that speak about the object accessed."""
from base import *
from bounds import inside, classify, BPAGE
from domain import ASTEPS
from parse import Parse, STORES

RULES = {"node-data": ("C01",), "node-children": ("C04",), "parser-state": ("C01", "C04"), "parser-memory": ("C04",)}
PARSE = ("mpack_tree_parse", "mpack_tree_try_parse")


def assign(eng, st, addr, mode):
    """the properties an access at this address is an obligation of"""
    c = classify(eng, st, addr)
    names = eng.objs
    dec = READER in names or TREE in names or NODEDATA in names
    parse = eng.root in PARSE
    if c == "message":
        return ("C01",) if mode == "r" else ("C01", "C03")
    if c == "output":
        return ("C02",)
    if c == "node":
        return ("C04",)
    if c == "global":
        return ("C03",)
    if WRITER in names and not dec:
        return ("C02",)
    if parse:
        return ("C01", "C04")
    if dec and mode == "r":
        return ("C01",)
    return ("C03",)


class Mem(Rule):
    prop = None

    def start(self, eng, st, fn, args, label):
        eng.objs = arg_structs(eng.m, fn.name)
        self.objs = objects(eng, args)
        eng.parse = None
        if fn.name in PARSE:
            eng.parse = Parse(eng, args[0])
            eng.templates.append(eng.parse.template)
            eng.parse.start(st, eng.split_name)
        error_params(eng, st, fn, args)

    def on_access(self, eng, st, addr, ln, mode, fr, ins):
        if self.prop not in assign(eng, st, addr, mode):
            return None
        return self.chk(inside(eng, st, addr, ln, mode), "write-inside" if mode == "w" else "read-inside",
                        lambda: "%s %s bytes at %s, not shown to lie inside the object" % (
                            "writes" if mode == "w" else "reads", show(st.norm(ln)), show(addr)), eng, fr, ins)

    def splits(self, eng, st, fn, args, label):
        return Parse(eng, args[0]).splits(st) if fn.name in PARSE else [""]

    def on_call(self, eng, st, name, args, fr, ins):
        if eng.parse and eng.parse.cut(st, args, fr, ins):
            return [self.chk(ok, rule, lambda: msg + ", when parsing starts", eng, fr, ins) for rule, ok, msg in eng.parse.finish(st.copy())
                    if self.prop in RULES[rule]]

    def on_load(self, eng, st, addr, size, v, fr, ins):
        if eng.parse:
            eng.parse.loaded(st, addr, size, v)

    def on_store(self, eng, st, addr, size, v, fr, ins):
        if eng.parse:
            r = [self.chk(ok, rule, msg, eng, fr, ins) for rule, ok, msg in eng.parse.store(st, addr, size, v) if self.prop in RULES[rule]]
            if r:
                return r
        if self.prop != "C02":
            return None
        key, off = eng.split(addr)
        p = eng.prov(key)
        if p is None:
            return None
        o = eng.m.offset_of(BPAGE, "bytes_used")
        di = (p.meta or {}).get("di")
        if o is None or len(key) != 1 or off != o[0] or size != o[1] or di is None or di < 0 or eng.m.struct_name(di) != BPAGE:
            return None
        v = st.norm(v)
        return self.chk(st.prove(ladd(lin(v), (-eng.m.consts["MPACK_BUILDER_PAGE_SIZE"], ())), ASTEPS), "page-used",
                        lambda: "the used size of a builder page becomes %s, not shown to be within the page" % show(v), eng, fr, ins)

    def exit(self, eng, s, rv, fn, args, label):
        out = []
        if eng.parse:
            out += [self.chkexit(ok, rule, msg, eng, fn) for rule, ok, msg in eng.parse.finish(s) if self.prop in RULES[rule]]
        for sn, o in self.objs:
            F = Fields(eng, sn)
            if sn == READER and self.prop == "C01":
                data, end = s.norm(F.get(s, o, "data")), s.norm(F.get(s, o, "end"))
                out.append(self.chkexit(s.prove(lsub(lin(data), lin(end)), ASTEPS), "position",
                                        lambda: "the read position %s is not shown to be within the data, up to %s" % (show(data), show(end)), eng, fn))
                err = s.norm(F.get(s, o, "error"))
                out += self.window(eng, s, fn, "data-window", data, end, "r")
                if s.bounds(err)[0] > 0 and "_init" not in fn.name and "_destroy" not in fn.name:
                    d = lsub(lin(data), lin(end))
                    out.append(self.chkexit(s.prove(d, ASTEPS) and s.prove(lscale(d, -1), ASTEPS), "no-data-after-error",
                                            "data is left to read after an error", eng, fn))
            if sn == TREE and not eng.parse and self.prop in ("C01", "C04") and "_destroy" not in fn.name:
                p = Parse(eng, o)
                if p.ok and not p.untouched(s):
                    out += [self.chkexit(ok, rule, msg, eng, fn) for rule, ok, msg in p.finish(s) if self.prop in RULES[rule]]
            if sn == WRITER and self.prop == "C02":
                buf, pos, end = (s.norm(F.get(s, o, x)) for x in ("buffer", "position", "end"))
                err = s.norm(F.get(s, o, "error"))
                if s.bounds(buf)[1] == 0:
                    continue        # torn down
                out.append(self.chkexit(s.prove(lsub(lin(buf), lin(pos)), ASTEPS) and s.prove(lsub(lin(pos), lin(end)), ASTEPS), "position",
                                        lambda: "the write position %s is not shown to be within the buffer [%s, %s)" % (show(pos), show(buf), show(end)), eng, fn))
                if s.bounds(err)[1] == 0:
                    out += self.window(eng, s, fn, "buffer-window", buf, end, "w")
        return out

    def window(self, eng, s, fn, rule, lo, hi, mode):
        """[lo, hi) is accessible"""
        if hi is lo or s.prove(lsub(lin(hi), lin(lo)), ASTEPS):
            return [self.chkexit(True, rule, "", eng, fn)]
        n = mklin(lo.w, lsub(lin(hi), lin(lo)))
        return [self.chkexit(inside(eng, s, lo, n, mode), rule, lambda: "[%s, %s) is not shown to be accessible" % (show(lo), show(hi)), eng, fn)]


def mk_for(prop):
    def mk(eng):
        r = Mem()
        r.prop = prop
        return [r]
    return mk


def tasks(cfgs, pred=None, parse=False):
    out = []
    for c in cfgs:
        out += [t for t in roots(c) if t[1] not in PARSE and (pred is None or pred(*t))]
        if parse:
            out += [(c, t[1], {"node_store": s}) for t in roots(c) if t[1] in PARSE for s in STORES]
    return out


EXPLAIN = {
    "C01": "Every read made while decoding, in every calling context of every public function, from data the reader or tree holds, is proved to "
           "lie inside the window of bytes supplied; at every exit the read position is proved to be within the data.",
    "C02": "Every store a writer makes is proved to lie inside its buffer, the pages of an open build, or a block it allocated; at every exit "
           "the write position is proved to be within the buffer.",
    "C03": "Every store to a caller's buffer, a local buffer or an allocated block is proved to lie inside it.",
    "C04": "Every access to node storage, the parse stack and node pages is proved to lie inside it.",
}


def run(prop, rep, tier, mk):
    rep.explain = EXPLAIN[prop]
    cfgs = ["rel64"] + (["size64", "nobuilder64", "nomalloc64"] if tier == "thorough" else [])
    rep.run(tasks(cfgs, parse=prop in ("C01", "C04")), mk)
    need = {"C01": 60, "C02": 60, "C03": 10, "C04": 25}[prop]
    if len(rep.obl) < need:
        raise Broken("only %d access sites found" % len(rep.obl))
