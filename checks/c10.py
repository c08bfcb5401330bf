"""C10: a call that ends in an error returns nothing derived from the data."""
from base import *

HINTS = {"mpack_should_read_bytes_inplace", "mpack_tree_size", "mpack_node_is_nil"}   # not data; "all nodes are nil" in error
NODES = ("nil_node", "missing_node")


class Neutral(Rule):
    def start(self, eng, st, fn, args, label):
        self.objs = objects(eng, args)
        eng.track = eng.cfg.startswith("track")
        error_params(eng, st, fn, args)
        self.st0 = st.copy()
        self.args = list(args)
        self.bug = eng.m.enum_values("mpack_error_t").get("mpack_error_bug")
        self.skip = fn.name in HINTS or fn.name.endswith("_context") or "_init" in fn.name or fn.name.endswith("_destroy") or fn.name in eng.installed

    def on_store(self, eng, st, addr, size, v, fr, ins):
        """keeps the states in which a misuse was found apart from the others"""
        if eng.track and isinstance(v, T) and v.k == "c" and v.a[0] == self.bug:
            key, off = eng.split(addr)
            for sn, o in self.objs:
                if key == ((o, 1),) and off == eng.m.offset_of(sn, "error")[0]:
                    st.ts["misuse"] = 1
        return None

    def exit(self, eng, s, rv, fn, args, label):
        objs = [(sn, o) for sn, o in self.objs if sn in (READER, TREE)]
        if not objs or self.skip:
            return None
        out = []
        for sn, o in objs:
            e = s.norm(Fields(eng, sn).get(s, o, "error"))
            if s.bounds(e)[1] == 0:
                continue
            if eng.track and s.bounds(e) == (self.bug, self.bug):
                continue           # the tracker found a misuse by the caller
            s2 = s
            if s.bounds(e)[0] == 0:
                s2 = s.copy()
                s2.set_u(e, 1, 0xffff)
                if getattr(s2, "dead", False):
                    continue
            out += self.judge(eng, s2, rv, fn, sn, o)
        return out

    def harmless(self, eng, s, v, o):
        """a constant zero, or something the caller itself supplied"""
        v = s.norm(v)
        if s.bounds(v)[1] == 0:
            return True
        c, l = lin(v)
        if any(s.decide_cmp("eq", v, s.norm(a)) is True for a in self.args
               if isinstance(a, T) and a.w == v.w and not (a.meta or {}).get("ptr")):
            return True
        if c == 0 and len(l) == 1 and l[0][1] == 1 and any(l[0][0] is s.norm(a) for a in self.args if isinstance(a, T) and a.k == "a" and not (a.meta or {}).get("ptr")):
            return True
        return False

    def isconst(self, m, pd):
        i = m.di[m.strip(pd)].get("base", -1)
        while i is not None and i >= 0 and m.di[i]["k"] in ("typedef", "const", "derived"):
            if m.di[i]["k"] == "const":
                return True
            i = m.di[i]["base"]
        return False

    def judge(self, eng, s, rv, fn, sn, o):
        out = []
        m = eng.m
        di = fn.argdi[0] if fn.argdi else None
        if di is not None and di >= 0 and rv is not None:
            name = m.struct_name(di)
            enum = m.di[m.strip(di)].get("name") if m.di[m.strip(di)]["k"] == "enum" else None
            msg = lambda: "returns %s although the %s is in an error state" % (show(s.norm(rv)) if isinstance(rv, T) else tuple(show(s.norm(x)) for x in rv), sn)
            if name == TAG:
                nil = m.enum_values("mpack_type_t")
                t = (rv if isinstance(rv, tuple) else (rv,))[0]
                b = s.bounds(s.norm(extract(t, 0, 32)))
                out.append(self.chkexit(b[0] == b[1] and b[0] in (nil["mpack_type_nil"], nil["mpack_type_missing"]), "neutral-tag", msg, eng, fn))
            elif name == NODE:
                d = s.norm(rv[0])
                ok = any(d is s.norm(mklin(eng.pb, ladd(lin(o), (m.offset_of(TREE, f)[0], ())))) for f in NODES)
                out.append(self.chkexit(ok, "neutral-node", msg, eng, fn))
            elif enum == "mpack_error_t":
                pass
            elif enum == "mpack_type_t":
                b = s.bounds(s.norm(rv))
                nil = m.enum_values("mpack_type_t")
                out.append(self.chkexit(b[0] == b[1] and b[0] in (nil["mpack_type_nil"], nil["mpack_type_missing"]), "neutral-type", msg, eng, fn))
            elif isinstance(rv, tuple):
                out.append(self.chkexit(all(self.harmless(eng, s, x, o) for x in rv), "neutral-value", msg, eng, fn))
            elif isinstance(rv, T):
                out.append(self.chkexit(self.harmless(eng, s, rv, o), "neutral-value", msg, eng, fn))
        for i, a in enumerate(self.args):
            if not isinstance(a, T) or a.k != "a" or not (a.meta or {}).get("user"):
                continue
            i -= len(self.args) - (len(fn.argdi) - 1)      # structures passed by value take several
            pd = fn.argdi[1 + i] if 0 <= i and 1 + i < len(fn.argdi) else None
            pt = m.pointee(pd) if pd is not None and pd >= 0 else None
            if pt is None or pt < 0:
                continue
            n = m.sizeof(pt)
            t = m.di[m.strip(pt)]
            nm = t.get("name") or ""
            char = nm == "char"
            if t["k"] not in ("base", "enum", "ptr") or self.isconst(m, pd):
                continue
            if char and not ("cstr" in fn.name):
                continue
            if not n:
                continue
            v = s.norm(eng.read_cells(s, ((a, 1),), 0, n))
            v0 = self.st0.norm(eng.read_cells(self.st0, ((a, 1),), 0, n))
            if char:
                out.append(self.chkexit(s.bounds(v)[1] == 0, "empty-string", "the output buffer is not an empty string although the %s is in an error state" % sn, eng, fn))
            else:
                out.append(self.chkexit(v is v0 or self.harmless(eng, s, v, o), "neutral-output",
                                        lambda: "stores %s through an output parameter although the %s is in an error state" % (show(v), sn), eng, fn))
        return out


def mk(eng):
    return [Neutral()]


def run(rep, tier):
    rep.explain = ("At every exit of every reading, expecting and node function at which the reader's or tree's error may be nonzero, the state "
                   "is restricted to the error case; there the return value and what was stored through output parameters must be a "
                   "constant zero (or nil, NULL, the nil or missing node), or a value the caller itself passed in.")
    cfgs = ["rel64"] + (["dbg64", "track64", "rel32", "size64"] if tier == "thorough" else ["track64"])
    for c in cfgs:
        rep.run(roots(c, lambda m, r: arg_structs(m, r) & {READER, TREE}, False), mk)
    if len(rep.obl) < 50:
        raise Broken("fewer than fifty functions return values")
