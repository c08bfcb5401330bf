"""C05: the 256 leading bytes are decoded as the MessagePack specification says."""
from wire import *

COMP = {"mpack_expect_map": "map", "mpack_expect_array": "array", "mpack_expect_str": "str", "mpack_expect_bin": "bin", "mpack_expect_ext": "ext",
        "mpack_expect_map_or_nil": "map", "mpack_expect_array_or_nil": "array", "mpack_expect_nil": "nil",
        "mpack_expect_str_buf": "str", "mpack_expect_tag": None}
TAGS = ("mpack_read_tag", "mpack_peek_tag")


def lineq(s, a, b):
    d = lsub(lin(s.norm(a)), lin(s.norm(b)))
    return s.prove(d) and s.prove(lscale(d, -1))


class Decode(Rule):
    def splits(self, eng, st, fn, args, label):
        if label != "ok,nofill":
            return []
        out = []
        for f in FORMATS:
            if f[3] == "ext" and not eng.m.enum_values("mpack_type_t").get("mpack_type_ext"):
                f = f[:3] + ("unsupported",) + f[4:]
            c = Case(f[0], f)
            if f[3] == "int" and f[4] == "val":
                for i, (a, b) in enumerate((((0, (1 << (8 * f[5] - 1)) - 1)), (1 << (8 * f[5] - 1), (1 << 8 * f[5]) - 1))):
                    c = Case(f[0] + ("-" if i else "+"), f, (a, b))
                    out.append(c)
            else:
                out.append(c)
        if fn.name in TAGS:
            for f in [c.fmt for c in out]:
                n = {"fix": 0, "none": 0, "fixlen": 0}.get(f[4], f[5]) + (1 if f[3] == "ext" else 0)
                for k in range(n + 1):
                    c = Case("%s truncated to %d" % (f[0], k), f)
                    c.trunc = k
                    out.append(c)
        return out

    def start(self, eng, st, fn, args, label):
        c = self.case = eng.split_name
        F = Fields(eng, READER)
        put_reader(eng, st, args[0], c, room=0)
        d = F.get(st, args[0], "data")
        n = getattr(c, "trunc", None)
        if n is None:
            st.add_le(ladd(lsub(lin(d), lin(F.get(st, args[0], "end"))), (c.size, ())))
        else:
            en = mklin(eng.pb, ladd(lin(d), (n, ())))
            F.put(st, args[0], "end", en)
        self.fields = {}

    def on_unreachable(self, eng, st, fr, ins):
        return self.chk(False, "assertion", lambda: "given %s, an assertion fails" % self.case.name, eng, fr, ins)

    def union(self, eng, rv, name):
        """field of the tag returned in registers or memory"""
        o = eng.m.offset_of(TAG, name)
        off, n = o[0], o[1]
        if isinstance(rv, tuple):
            i, r = divmod(off, 8)
            return extract(rv[i], r * 8, n * 8)
        return None

    def exits(self, eng, rs, fn, args, label):
        c = self.case
        m = eng.m
        err = m.enum_values("mpack_error_t")
        ty = m.enum_values("mpack_type_t")
        F = Fields(eng, READER)
        kind = c.kind
        tag = fn.name in TAGS
        want = COMP.get(fn.name)
        ev = 0
        if getattr(c, "trunc", None) is not None:
            ev = err["mpack_error_invalid"]
            if (kind in ("reserved", "unsupported")) and c.trunc > 0:
                return None
        elif kind == "reserved":
            ev = err["mpack_error_invalid"]
        elif kind == "unsupported":
            ev = err["mpack_error_unsupported"]
        elif not tag and kind != want and not (kind == "nil" and fn.name.endswith("_or_nil")):
            ev = err["mpack_error_type"]
        byte = not tag and ev and fn.name in ("mpack_expect_str", "mpack_expect_nil") and not getattr(c, "trunc", 0)
        out = []
        for rv, s in rs:
            b = s.bounds(s.norm(F.get(s, args[0], "error")))
            okset = (ev,) if not byte else (ev, err["mpack_error_type"])
            out.append(self.chkexit(b[0] == b[1] and b[0] in okset, "outcome",
                                    lambda: "given %s, the error is %s instead of %s" % (c.name, b if b[0] != b[1] else [k for k, x in err.items() if x == b[0]], [k for k, x in err.items() if x == ev]), eng, fn))
            if ev or b != (0, 0):
                continue
            d = s.norm(F.get(s, args[0], "data"))
            n = 0 if fn.name == "mpack_peek_tag" else c.size
            out.append(self.chkexit(lineq(s, d, mklin(eng.pb, ladd(lin(c.d), (n, ())))), "consumed",
                                    lambda: "given %s, does not consume exactly %d bytes" % (c.name, n), eng, fn))
            if tag:
                out += self.tagcheck(eng, s, rv, fn, c, ty)
            elif rv is not None and not fn.name.endswith("_or_nil"):
                out.append(self.chkexit(lineq(s, rv, extract(c.v, 0, rv.w)), "value",
                                        lambda: "given %s, returns %s" % (c.name, show(s.norm(rv))), eng, fn))
            if fn.name.endswith("_or_nil"):
                out.append(self.chkexit(s.bounds(rv) == ((0, 0) if kind == "nil" else (1, 1)), "value", lambda: "given %s, returns %s" % (c.name, show(s.norm(rv))), eng, fn))
                v = eng.read_cells(s, ((args[1], 1),), 0, 4)
                out.append(self.chkexit(lineq(s, v, const(32, 0) if kind == "nil" else extract(c.v, 0, 32)), "value",
                                        lambda: "given %s, stores the count %s" % (c.name, show(s.norm(v))), eng, fn))
            if fn.name == "mpack_expect_ext":
                v = eng.read_cells(s, ((args[1], 1),), 0, 1)
                out.append(self.chkexit(lineq(s, v, c.exttype), "value", lambda: "given %s, stores the type %s" % (c.name, show(s.norm(v))), eng, fn))
        return out

    def tagcheck(self, eng, s, rv, fn, c, ty):
        return tag_matches(self, eng, s, c, ty, fn, lambda name: self.union(eng, rv, name), False)


def tag_matches(rule, eng, s, c, ty, fn, get, node):
    out = []

    def need(name, want, what):
        v = get(name)
        if v is None:
            out.append(rule.chkexit(False, "value", "the result has no field %s" % name, eng, fn))
            return
        if v.w > want.w:
            v = extract(v, 0, want.w)
        w = extract(want, 0, v.w)
        ok = s.norm(v) is s.norm(w) or lineq(s, v, w)
        out.append(rule.chkexit(ok, what, lambda: "given %s, the %s is %s instead of %s" % (c.name, what, show(s.norm(v)), show(s.norm(w))), eng, fn))
    t = c.kind
    need("type", const(32, ty["mpack_type_" + t]), "type")
    val = "value." if node else "v."
    if t == "int":
        b = c.b0 if c.fmt[4] == "fix" else c.raw
        v = mklin(64, ladd(lin(b), ((1 << 64) - (1 << b.w) if c.srange()[1] < 0 else 0, ())))
        need(val + "i", v, "value")
    elif t == "uint":
        need(val + "u", c.v, "value")
    elif t == "bool":
        need(val + "b", extract(c.v, 0, 8), "value")
    elif t in ("float", "double"):
        need(val + t[0], c.raw, "value")
    elif t in ("str", "bin", "ext"):
        need("len" if node else "v.l", extract(c.v, 0, 32), "length")
        if t == "ext" and not node:
            need("exttype", c.exttype, "extension type")
    elif t in ("array", "map"):
        need("len" if node else "v.n", extract(c.v, 0, 32), "count")
    return out


PARSE = ("mpack_tree_parse", "mpack_tree_try_parse")


class Parse(Rule):
    """the same for the node parser: a tree over a buffer that holds exactly one value, or one byte less"""
    def splits(self, eng, st, fn, args, label):
        if not label.startswith("ok"):
            return []
        out = []
        ext = eng.m.enum_values("mpack_type_t").get("mpack_type_ext")
        for f in FORMATS:
            if f[3] == "ext" and not ext:
                f = f[:3] + ("unsupported",) + f[4:]
            if f[3] in ("array", "map"):
                for n in (0, 1, 2):
                    for short in (0, 1):
                        c = Case("%s of %d%s" % (f[0], n, ", one byte short" if short else ""), f, (n, n))
                        c.n, c.short = n, short
                        out.append(c)
                c = Case("%s of more than its children" % f[0], f, (3, 15 if f[4] == "fix" else (1 << 8 * f[5]) - 1))
                c.n, c.short = 2, 1
                out.append(c)
                continue
            ivs = [None]
            if f[3] == "int" and f[4] == "val":
                ivs = [(0, (1 << (8 * f[5] - 1)) - 1), (1 << (8 * f[5] - 1), (1 << 8 * f[5]) - 1)]
            for iv in ivs:
                for short in (0, 1):
                    c = Case(f[0] + ("-" if iv and iv[0] else "") + (", one byte short" if short else ""), f, iv)
                    c.short = short
                    out.append(c)
        return out

    def start(self, eng, st, fn, args, label):
        c = self.case = eng.split_name
        m = eng.m
        t = args[0]
        F = Fields(eng, TREE)
        for f, v in (("parser.state", 0), ("size", 0), ("read_fn", 0), ("buffer", 0), ("buffer_capacity", 0), ("next", 0), ("parser.stack_owned", 0),
                     ("pool_count", 64), ("max_nodes", (1 << 31) - 1 if eng.pb == 32 else 1 << 40), ("max_size", (1 << 31) - 1 if eng.pb == 32 else 1 << 50)):
            o = F.at(f)
            if o is not None:
                F.put(st, t, f, const(o[1] * 8, v))
        st.set_u(F.get(st, t, "pool"), 4096, (1 << eng.pb) - (1 << 16))
        d = F.get(st, t, "data")
        key = ((d, 1),)
        f = c.fmt
        c.d = d
        b0 = const(8, f[1]) if f[1] == f[2] else atom(8, ("pw", f[0]), {})
        c.b0 = b0
        if b0.k == "a":
            st.set_u(b0, *((f[1], f[2]) if f[3] not in ("array", "map") else (f[1] + c.iv[0], f[1] + c.iv[1])))
        eng.write_cells(st, key, 0, 1, st.norm(b0))
        n = 1
        pay = (0, ())
        if f[4] in ("val", "len"):
            V = atom(8 * f[5], ("pv", f[0]), {})
            if c.iv:
                st.set_u(V, *c.iv)
            for k in range(f[5]):
                eng.write_cells(st, key, 1 + k, 1, st.norm(extract(V, 8 * (f[5] - 1 - k), 8)))
            c.raw = V
            c.v = (sext if f[3] == "int" else zext)(V, 64)
            n += f[5]
        elif f[4] == "fixlen":
            c.v = const(64, f[5])
        elif f[0] in ("false", "true"):
            c.v = const(64, f[0] == "true")
        else:
            c.v = {"negfix": lambda: sext(b0, 64), "posfix": lambda: zext(b0, 64), "fixstr": lambda: zext(extract(b0, 0, 5), 64)}.get(f[0], lambda: zext(extract(b0, 0, 4), 64))()
        if f[3] in ("ext", "unsupported"):
            c.exttype = atom(8, ("pt", f[0]), {})
            eng.write_cells(st, key, n, 1, c.exttype)
            n += 1
        kids = 0
        if f[3] in ("array", "map"):
            kids = c.n * (2 if f[3] == "map" else 1)
            for i in range(kids):
                eng.write_cells(st, key, n + i, 1, const(8, 0xc0))
        elif f[3] in ("str", "bin", "ext", "unsupported"):
            pay = lin(c.v)
        total = ladd(pay, (n + kids, ()))
        c.total = total
        if c.short and total == (1, ()):
            total = (0, ())
        elif c.short:
            total = ladd(total, (-1, ()))
        F.put(st, t, "data_length", st.norm(mklin(eng.pb, total)))
        st.add_le(ladd(ladd(lin(d), total), (-((1 << eng.pb) - 65536), ())))
        st.wins[("prov", t)] = ("r", d, mklin(eng.pb, ladd(lin(d), total)))

    def on_unreachable(self, eng, st, fr, ins):
        return self.chk(False, "assertion", lambda: "given %s, an assertion fails" % self.case.name, eng, fr, ins)

    def exits(self, eng, rs, fn, args, label):
        c = self.case
        m = eng.m
        err = m.enum_values("mpack_error_t")
        ty = m.enum_values("mpack_type_t")
        F = Fields(eng, TREE)
        ev = ()
        if c.kind == "reserved" and not c.short:
            ev = ("mpack_error_invalid",)
        elif c.kind == "unsupported" and not (c.short and c.total == (1, ())):
            ev = ("mpack_error_unsupported", "mpack_error_invalid")
        elif c.short:
            ev = ("mpack_error_invalid",)
        evs = [err[x] for x in ev] or [0]
        out = []
        if not rs:
            out.append(self.chkexit(False, "outcome", "given %s, never returns" % c.name, eng, fn))
        for rv, s in rs:
            b = s.bounds(s.norm(F.get(s, args[0], "error")))
            ok = b[0] == b[1] and b[0] in evs or fn.name == "mpack_tree_try_parse" and c.short and s.bounds(rv)[1] == 0 and (b[1] == 0 or b[0] == b[1] == evs[0])
            out.append(self.chkexit(ok, "outcome", lambda: "given %s, the error is %s instead of %s" % (
                c.name, b if b[0] != b[1] else [k for k, x in err.items() if x == b[0]], ev or "mpack_ok"), eng, fn))
            if ev or b != (0, 0):
                continue
            if rv is not None:
                out.append(self.chkexit(s.bounds(rv) == (1, 1), "outcome", "given %s, reports no success" % c.name, eng, fn))
            sz = s.norm(F.get(s, args[0], "size"))
            dd = ladd(lin(sz), c.total, -1)
            out.append(self.chkexit(s.prove(dd) and s.prove(lscale(dd, -1)), "consumed",
                                    lambda: "given %s, the message size is %s instead of %s" % (c.name, show(sz), showl(c.total)), eng, fn))
            root = s.norm(F.get(s, args[0], "root"))
            key, base = eng.split(root)

            def get(name):
                o = m.offset_of(NODEDATA, name)
                return None if o is None else eng.read_cells(s, key, base + o[0], o[1])
            out += tag_matches(self, eng, s, c, ty, fn, get, True)
        return out


def mk(eng):
    return [Decode()]


def mkparse(eng):
    return [Parse()]


def run(rep, tier):
    rep.explain = ("The first byte is split into the 36 formats of the specification (all 256 values), with symbolic payload bytes: every exit of the tag readers and of the expect "
                   "functions for compound types must have the specified type, value (as a term over the payload bytes), consumed size or error; cut short after each header byte, an invalid-data error. "
                   "The same cases, alone in a buffer of exactly their size or one byte less, are given to the node parser.")
    cfgs = ["rel64", "size64", "def64"] + (["nobuilder64", "nostdlib64", "freestanding64"] if tier == "thorough" else [])
    for c in cfgs:
        rep.run(roots(c, lambda m, r: r in TAGS or r in COMP and r != "mpack_expect_tag" and not r.endswith("_buf"), False), mk)
        rep.run(roots(c, lambda m, r: r in PARSE, False), mkparse, dict(peel=6))
    if rep.entries < 300:
        raise Broken("too few cases analysed")
