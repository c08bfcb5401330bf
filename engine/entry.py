"""Entry states of API functions: parameters from the debug-info types, object invariants."""
from terms import *
from domain import State, Obj, Infeasible
from models import Fields, READER, WRITER, TREE, NODEDATA, NODE, TAG, TRACK, OBJECTS, TOPPAD

MINBUF = 32


class Param:
    __slots__ = ("name", "di", "vals", "kind")


class Entry:
    def __init__(self, eng, fn, opts=None):
        self.e = eng
        self.m = eng.m
        self.fn = fn
        self.opts = opts or {}
        self.pb = eng.pb

    def patom(self, name, w, **meta):
        t = atom(w, ("arg", self.fn.name, name), None)
        if t.meta is None:
            t.meta = meta
        return t

    def ptr(self, name, di, **kw):
        pt = self.m.pointee(di) if di is not None else None
        meta = dict(ptr=True, arg=name)
        if pt is not None and pt >= 0:
            meta["di"] = pt
        meta["range"] = (4096, (1 << self.pb) - TOPPAD)
        meta.update(kw)
        return self.patom(name, self.pb, **meta)

    # parameters as declared, mapped onto LLVM arguments
    def build(self):
        fn, m = self.fn, self.m
        dis = fn.argdi[1:]
        names = {}
        for blk in fn.blocks:
            for ins in blk:
                if ins["op"] == "dbg" and ins.get("arg"):
                    names[ins["arg"]] = ins["name"]
        st = State(self.e)
        args = []
        params = []
        i = 0
        la = fn.args
        if la and "sret" in la[0]:
            t = self.patom("sret", self.pb, ptr=True, range=(4096, (1 << self.pb) - TOPPAD), alloca=True,
                           size=la[0]["sret"]["size"], where="return value")
            d = fn.argdi[0] if fn.argdi else None
            if d is not None and d >= 0:
                t.meta["di"] = m.strip(d)
            args.append(t)
            i = 1
        for n, di in enumerate(dis):
            if di is None or di < 0:
                continue
            name = names.get(n + 1, "p%d" % n)
            sd = m.strip(di)
            d = m.di[sd] if sd is not None and sd >= 0 else None
            p = Param()
            p.name, p.di = name, di
            if d and d["k"] in ("struct", "union"):
                if i < len(la) and "byval" in la[i]:
                    t = self.patom(name, self.pb, ptr=True, range=(4096, (1 << self.pb) - TOPPAD), alloca=True,
                                   size=d["size"], di=sd, where="parameter")
                    args.append(t)
                    p.vals = self.struct_vals(st, t, sd, name)
                    p.kind = "struct"
                    i += 1
                else:
                    # coerced to registers
                    off = 0
                    p.vals = {}
                    p.kind = "struct"
                    used = max([o + z for o, z in self.e.flat(sd)] or [d["size"]])
                    while off < used:
                        ty = la[i]["ty"]
                        if isinstance(ty, dict):
                            raise Exception("coerced aggregate " + fn.name)
                        w = self.e.width(ty)
                        mem = m.member(sd, off, w // 8)
                        if ty == "ptr" and mem is not None:
                            v = self.ptr(name + "." + mem[1], mem[2])
                        else:
                            v = self.patom("%s@%d" % (name, off), w)
                        args.append(v)
                        p.vals[off] = v
                        off += max(w, self.pb) // 8
                        i += 1
                params.append(p)
                continue
            if i >= len(la):
                break
            ty = la[i]["ty"]
            w = self.e.width(ty)
            if ty == "ptr":
                pt = m.pointee(di)
                fnptr = pt is not None and pt >= 0 and m.di[pt]["k"] == "func"
                v = self.ptr(name, di, user=not fnptr)
                if pt is not None and pt >= 0 and m.struct_name(pt) in OBJECTS + (NODEDATA, TRACK, TAG):
                    v.meta["user"] = False
                p.kind = "fnptr" if fnptr else "ptr"
            else:
                v = self.patom(name, w)
                p.kind = "int"
                if self.isenum(di):
                    v.meta["enum"] = m.struct_name(di)
                if d and d["k"] == "base" and d["name"] in ("_Bool", "bool"):
                    v.meta["range"] = (0, 1)
            p.vals = {0: v}
            args.append(v)
            i += 1
            params.append(p)
        self.params = params
        self.args = args
        self.windows(st)
        states = [("", st)]
        done = set()
        for p in params:
            for off, v in sorted(p.vals.items()):
                if v.k != "a" or not v.meta.get("ptr"):
                    continue
                s = self.m.struct_name(v.meta["di"]) if "di" in v.meta else None
                if s in OBJECTS and v not in done:
                    done.add(v)
                    states = [x for l, q in states for x in self.object_states(l, q, v, s)]
                elif s == NODEDATA:
                    for l, q in states:
                        self.node_facts(q, v)
        if fn.name in self.e.installed:
            states = self.flushed(states)
        self.e.templates = [self.template(v) for v in sorted(done, key=lambda v: v.id)]
        out = []
        for l, q in states:
            out.append((l, q, list(args)))
        return out

    def template(self, obj):
        """relations kept where paths meet"""
        sn = self.m.struct_name(obj.meta["di"])
        F = Fields(self.e, sn)
        m = self.m

        def f(eng, st):
            g = lambda x: F.get(st, obj, x)
            if sn == READER:
                w = st.wins.get(("prov", obj))
                if w:
                    data, end = g("data"), g("end")
                    yield lsub(lin(w[1]), lin(data))
                    yield lsub(lin(end), lin(w[2]))
            if sn == WRITER and F.at("builder.current_page"):
                page = g("builder.current_page")
                if st.bounds(page)[0] < 4096:
                    return
                o = m.offset_of("mpack_builder_page_t", "bytes_used")
                used = eng.read_cells(st, ((page, 1),), o[0], o[1])
                d = lsub(lin(g("buffer")), ladd(lin(page), lin(used)))
                yield d
                yield lscale(d, -1)
                yield lsub(lin(g("end")), ladd(lin(page), (m.consts["MPACK_BUILDER_PAGE_SIZE"], ())))
        return f

    def flushed(self, states):
        """a flush function is given the writer's buffer (or part of it from its start) or data outside of it"""
        w = [p for p in self.params if p.kind == "ptr" and self.m.struct_name(p.vals[0].meta.get("di", -1)) == WRITER]
        d = [(a, b) for a, b in zip(self.params, self.params[1:]) if ("user", a.vals.get(0)) in states[0][1].wins and b.kind == "int"]
        if len(w) != 1 or len(d) != 1:
            return states
        F = Fields(self.e, WRITER)
        data, n = d[0][0].vals[0], d[0][1].vals[0]
        out = []
        for l, q in states:
            buf, end = (F.get(q, w[0].vals[0], x) for x in ("buffer", "end"))
            for k, fs in (("=", [lsub(lin(data), lin(buf)), lsub(lin(buf), lin(data)), lsub(lin(n), lsub(lin(end), lin(buf)))]),
                          ("<", [lsub(ladd(lin(data), lin(n)), lin(buf))]), (">", [lsub(lin(end), lin(data)), ladd(lsub(lin(buf), lin(data)), (1, ()))])):
                s = q.copy()
                try:
                    for f in fs:
                        s.add_le(f)
                except Infeasible:
                    continue
                out.append((l + ",data" + k + "buffer", s))
        return out

    def struct_vals(self, st, t, sd, name):
        vals = {}
        for o, s in self.e.flat(sd):
            mem = self.m.member(sd, o, s)
            if mem is not None and self.m.is_ptr(mem[2]):
                v = self.ptr(name + "." + mem[1], mem[2])
                self.e.write_cells(st, ((t, 1),), o, s, v)
                vals[o] = v
            else:
                vals[o] = self.e.read_cells(st, ((t, 1),), o, s)
        return vals

    def windows(self, st):
        """pointer parameter followed by its length: a caller-provided buffer"""
        ps = self.params
        for a in range(len(ps)):
            p = ps[a]
            pt = self.m.pointee(p.di) if p.kind == "ptr" else None
            pool = pt is not None and pt >= 0 and self.m.struct_name(pt) == NODEDATA
            if p.kind != "ptr" or not (pool or p.vals[0].meta.get("user")):
                continue
            v = p.vals[0]
            if pt is not None and pt >= 0 and "FILE" in (self.m.struct_name(pt) or self.m.di[self.m.strip(pt)].get("name") or ""):
                continue
            es = self.m.sizeof(pt) if pt is not None and pt >= 0 else 0
            es = es or 1
            if a + 1 < len(ps) and ps[a + 1].kind == "int" and ps[a + 1].vals[0].w >= 32 and not self.isenum(ps[a + 1].di):
                n = ps[a + 1].vals[0]
            elif a + 2 < len(ps) and es > 0 and ps[a + 1].kind == "ptr" and ps[a + 2].kind == "int" and self.ptrlike_array(p.di, ps[a + 1].di):
                n = ps[a + 2].vals[0]
            else:
                continue
            ln = lscale(lin(n), es)
            st.add_le(ladd(ladd(lin(v), ln), (-((1 << self.pb) - 4096), ())))
            self.objsize(st, ln)
            if a + 2 < len(ps) and ps[a + 2].kind == "int" and ps[a + 2].name == "count" and n is ps[a + 1].vals[0] and ps[a + 2].vals[0].w == n.w:
                # how much of the buffer is filled already
                st.add_le(lsub(lin(ps[a + 2].vals[0]), lin(n)))
            hi = mklin(self.pb, ladd(lin(v), ln))
            st.wins[("user", v)] = ("w", v, hi)

    def ptrlike_array(self, a, b):
        """(const char* keys[], bool found[], size_t count)"""
        pa = self.m.pointee(a)
        return pa is not None and pa >= 0 and self.m.di[pa]["k"] == "ptr" and False or self.m.di[pa]["k"] == "ptr"

    def isenum(self, di):
        d = self.m.strip(di)
        return d is not None and d >= 0 and self.m.di[d]["k"] == "enum"

    # ------------------------------------------------------------ object invariants
    def object_states(self, label, st, obj, sname):
        F = Fields(self.e, sname)
        out = []
        err = F.get(st, obj, "error")
        for e in (0, 1):
            s = st.copy()
            try:
                if e:
                    s.set_u(err, 1, 0xffff)
                else:
                    s.set_u(err, 0, 0)
                    F.put(s, obj, "error", const(err.w, 0))
            except Infeasible:
                continue
            l = label + ("err" if e else "ok")
            out += getattr(self, "inv_" + sname)(l, s, obj, F, e)
        return out

    def objsize(self, st, ln):
        """no object is larger than PTRDIFF_MAX (compilers and allocators guarantee it)"""
        st.add_le(ladd(ln, (-((1 << (self.pb - 1)) - 1), ())))

    def nowrap(self, st, base, ln):
        self.objsize(st, lin(ln))
        st.add_le(ladd(ladd(lin(base), lin(ln)), (-((1 << self.pb) - 4096), ())))

    def inv_mpack_reader_t(self, label, st, obj, F, e):
        g = lambda f: F.get(st, obj, f)
        data, end, buf, size, fill = g("data"), g("end"), g("buffer"), g("size"), g("fill")
        out = []
        for f in (0, 1):
            s = st.copy()
            try:
                s.set_u(data, 4096, (1 << self.pb) - TOPPAD)
                if e:
                    F.put(s, obj, "end", data)
                    en = data
                else:
                    en = end
                    s.add_le(lsub(lin(data), lin(en)))
                    self.objsize(s, lsub(lin(en), lin(data)))
                    s.set_u(en, 4096, (1 << self.pb) - TOPPAD)
                s.wins[("prov", obj)] = ("r", data, en)
                if f:
                    s.set_u(fill, 1, (1 << self.pb) - 1)
                    s.set_u(buf, 4096, (1 << self.pb) - TOPPAD)
                    s.set_u(size, MINBUF, (1 << self.pb) - 1)
                    self.nowrap(s, buf, size)
                    s.add_le(lsub(lin(buf), lin(data)))
                    s.add_le(lsub(lin(en), ladd(lin(buf), lin(size))))
                    s.wins[("rbuf", obj)] = ("W", buf, mklin(self.pb, ladd(lin(buf), lin(size))))
                else:
                    s.set_u(fill, 0, 0)
                    F.put(s, obj, "fill", const(self.pb, 0))
            except Infeasible:
                continue
            out.append((label + (",fill" if f else ",nofill"), s))
        return out

    def inv_mpack_writer_t(self, label, st, obj, F, e):
        g = lambda f: F.get(st, obj, f)
        buf, pos, end, fl = g("buffer"), g("position"), g("end"), g("flush")
        out = []
        for b in ((0, 1) if F.at("builder.current_build") else (0,)):
            for f in ((0, 1) if not b else (1,)):
                s = st.copy()
                try:
                    for x in (buf, pos, end):
                        s.set_u(x, 4096, (1 << self.pb) - TOPPAD)
                    s.add_le(lsub(lin(buf), lin(pos)))
                    s.add_le(lsub(lin(pos), lin(end)))
                    self.objsize(s, lsub(lin(end), lin(buf)))
                    s.wins[("wbuf", obj)] = ("w", buf, end)
                    if not b:
                        if f:
                            s.set_u(fl, 1, (1 << self.pb) - 1)
                            s.add_le(ladd(lsub(lin(buf), lin(end)), (MINBUF, ())))
                        else:
                            s.set_u(fl, 0, 0)
                            F.put(s, obj, "flush", const(self.pb, 0))
                    if F.at("builder.current_build"):
                        cb = g("builder.current_build")
                        if b:
                            sb, sp, se = [g("builder.stash_" + x) for x in ("buffer", "position", "end")]
                            for x in (sb, sp, se):
                                s.set_u(x, 4096, (1 << self.pb) - TOPPAD)
                            s.add_le(lsub(lin(sb), lin(sp)))
                            s.add_le(lsub(lin(sp), lin(se)))
                            s.wins[("stash", obj)] = ("w", sb, se)
                            s.set_u(cb, 4096, (1 << self.pb) - TOPPAD)
                            s.set_u(g("builder.latest_build"), 4096, (1 << self.pb) - TOPPAD)
                            if not e:
                                self.build_page(s, g, buf, end)
                        else:
                            s.set_u(cb, 0, 0)
                            F.put(s, obj, "builder.current_build", const(self.pb, 0))
                    l = label + (",build" if b else ",flush" if f else ",noflush")
                    out.append((l, s))
                except Infeasible:
                    pass
        return out

    def build_page(self, st, g, buf, end):
        """an open build diverts the buffer into the rest of its current page"""
        page = g("builder.current_page")
        st.set_u(page, 4096, (1 << self.pb) - TOPPAD)
        o = self.m.offset_of("mpack_builder_page_t", "bytes_used")
        if o is None:
            return
        used = self.e.read_cells(st, ((page, 1),), o[0], o[1])
        d = lsub(lin(buf), ladd(lin(page), lin(used)))
        st.add_le(d)
        st.add_le(lscale(d, -1))
        top = ladd(lin(page), (self.m.consts["MPACK_BUILDER_PAGE_SIZE"], ()))
        st.add_le(lsub(lin(end), top))
        st.wins[("bpage", page)] = ("w", page, mklin(self.pb, top))

    def inv_mpack_tree_t(self, label, st, obj, F, e):
        g = lambda f: F.get(st, obj, f)
        data, ln = g("data"), g("data_length")
        st.set_u(data, 4096, (1 << self.pb) - TOPPAD)
        self.nowrap(st, data, ln)
        st.wins[("prov", obj)] = ("r", data, mklin(self.pb, ladd(lin(data), lin(ln))))
        return [(label, st)]

    def node_facts(self, st, node):
        pass
