"""Models of everything outside the analysed source (C library, callbacks), and the entry states of
API functions (object invariants).  The invariants assumed at entry are checked at exit."""
from terms import *
from domain import State, Obj, Infeasible, ASTEPS
from interp import AnalysisError

TOPPAD = 65536
ALLONES = lambda w: const(w, (1 << w) - 1)

READER, WRITER, TREE = "mpack_reader_t", "mpack_writer_t", "mpack_tree_t"
NODEDATA, NODE, TAG, TRACK = "mpack_node_data_t", "mpack_node_t", "mpack_tag_t", "mpack_track_t"
OBJECTS = (READER, WRITER, TREE)
CALLBACKS = {
    (READER, "fill"): "fill", (READER, "skip"): "skip", (READER, "error_fn"): "error_fn", (READER, "teardown"): "teardown",
    (WRITER, "flush"): "flush", (WRITER, "error_fn"): "error_fn", (WRITER, "teardown"): "teardown",
    (TREE, "read_fn"): "read", (TREE, "error_fn"): "error_fn", (TREE, "teardown"): "teardown",
    ("mpack_print_t", "callback"): "print",
}


class Fields:
    """field access by name on an object address term"""

    def __init__(self, eng, sname):
        self.e = eng
        self.s = sname

    def at(self, path):
        o = self.e.m.offset_of(self.s, path)
        return o

    def get(self, st, obj, path):
        o = self.at(path)
        if o is None:
            return None
        key, off = self.e.split(obj)
        return self.e.read_cells(st, key, off + o[0], o[1])

    def put(self, st, obj, path, v):
        o = self.at(path)
        if o is None:
            return
        key, off = self.e.split(obj)
        self.e.write_cells(st, key, off + o[0], o[1], v)


class Models:
    def __init__(self, mod):
        self.m = mod
        self.user_longjmp = True

    # ------------------------------------------------------------ helpers
    def fork(self, eng, st, variants):
        """variants: callables(state) -> retval; returns list"""
        out = []
        for v in variants:
            s = st.copy()
            try:
                out.append((v(s), s))
            except Infeasible:
                pass
        return out

    def objptr(self, eng, t):
        """(struct name) if t is a pointer to the start of a known object"""
        if t.k == "a" and t.meta and "di" in t.meta:
            return eng.m.struct_name(t.meta["di"])
        return None

    def heap_atom(self, eng, st, fr, ins, size, tag):
        w = eng.pb
        t = eng.new_atom(fr, w, ("heap", tag, ins["id"]), ptr=True, heap=True,
                         where=fr.fn.where(ins), **{"range": (4096, (1 << w) - TOPPAD)})
        return t

    # ------------------------------------------------------------ what a parsed node guarantees
    def node_layout(self, eng):
        r = getattr(self, "_nl", None)
        if r is None:
            m = eng.m
            t = m.offset_of(NODEDATA, "type")
            l = m.offset_of(NODEDATA, "len")
            v = m.offset_of(NODEDATA, "value")
            if not (t and l and v):
                raise AnalysisError("mpack_node_data_t no longer has type, len and value")
            size = m.sizeof(m.struct_di(NODEDATA))
            en = m.enum_values("mpack_type_t")
            kinds = {}
            for n, val in en.items():
                for k in ("str", "bin", "ext", "array", "map"):
                    if n == "mpack_type_" + k:
                        kinds[val] = k
            r = self._nl = (t, l, v, size, kinds)
        return r

    def loaded(self, eng, st, addr, size, v, fr, ins):
        """a node's payload location, read after its type is known, lies inside the tree's data (or points at its
        children): guaranteed by the parser, whose own stores are checked where it makes them"""
        if isinstance(v, tuple) or v is None or v.k != "a" or size * 8 != eng.pb:
            return
        h = (v.meta or {}).get("home")
        if not h:
            return
        key, off = h[0], h[1]
        di = eng.key_type(key)
        if di is None or eng.m.struct_name(di) != NODEDATA:
            return
        t, l, vv, nsize, kinds = self.node_layout(eng)
        if off % nsize != vv[0]:
            return
        base = off - vv[0]
        if not st.ts.get("nodes-parsed", True):
            return
        ty = eng.read_cells(st, key, base + t[0], t[1])
        ty = st.norm(ty)
        lo, hi = st.bounds(ty)
        if hi - lo > 16:
            return
        ks = {kinds.get(x) for x in range(lo, hi + 1) if x not in st.ne.get(ty, ())}
        if None in ks:
            return
        ln = eng.read_cells(st, key, base + l[0], l[1])
        if ks <= {"array", "map"} and (ins.get("ty") == "ptr"):
            mul = nsize if "array" in ks else 2 * nsize
            v.meta.setdefault("ptr", True)
            if "di" not in v.meta:
                v.meta["di"] = eng.m.struct_di(NODEDATA)
            st.set_u(v, 4096, (1 << eng.pb) - TOPPAD)
            hi = ladd(lin(v), lscale(lin(ln), mul))
            st.add_le(ladd(hi, (-((1 << eng.pb) - 4096), ())))
            st.wins[("kids", v)] = ("r", v, mklin(eng.pb, hi))
        elif ks <= {"str", "bin", "ext"} and ins.get("ty") != "ptr":
            st.set_u(v, 2 if ks == {"ext"} else 1, (1 << eng.pb) - TOPPAD)
            F = Fields(eng, TREE)
            for k in list(st.mem):
                if len(k) == 1 and self.objptr(eng, k[0][0]) == TREE:
                    dl = F.get(st, k[0][0], "data_length")
                    st.add_le(lsub(ladd(lin(v), lin(ln)), lin(dl)))

    # ------------------------------------------------------------ direct calls
    def direct(self, eng, st, name, args, fr, ins):
        if name.startswith("llvm."):
            return self.intrinsic(eng, st, name, args, fr, ins)
        f = getattr(self, "x_" + name, None)
        if f is None:
            return None
        if name in eng.m.fns:
            return None
        eng.ev("extern", st, name, args, fr, ins)
        return f(eng, st, args, fr, ins)

    def intrinsic(self, eng, st, name, args, fr, ins):
        n = name.split(".")[1]
        if n in ("memcpy", "memmove"):
            dst, src, ln = args[0], args[1], st.norm(args[2])
            if ln.w < eng.pb:
                ln = zext(ln, eng.pb)
            eng.access(st, src, ln, "r", fr, ins)
            eng.access(st, dst, ln, "w", fr, ins)
            eng.ev("memcpy", st, dst, src, ln, fr, ins)
            if ln.k == "c" and ln.a[0] <= eng.copymax:
                if ln.a[0]:
                    eng.copy_mem(st, dst, src, ln.a[0], fr, ins)
            else:
                self.copy_tracked(eng, st, dst, src, ln, fr, ins)
                kept = self.carried(eng, st, src, ln)
                eng.havoc_region(st, dst, ln, fr, ("mc", ins["id"]))
                self.carry(eng, st, dst, kept)
            eng.ev("memcpy_done", st, dst, src, ln, fr, ins)
            return [(None, st)]
        if n == "memset":
            dst, v, ln = args[0], args[1], st.norm(args[2])
            if ln.w < eng.pb:
                ln = zext(ln, eng.pb)
            eng.access(st, dst, ln, "w", fr, ins)
            v = st.norm(v)
            key, off = eng.split(dst)
            if ln.k == "c" and ln.a[0] and v.k == "c":
                # exact: split by type layout so that fields stay readable
                n = ln.a[0]
                if n <= 4096:
                    o = st.mem.get(key)
                    if o is not None and (off != 0 or n < 64):
                        pass
                    if off == 0 and n > 64:
                        ep = ("fill", v, eng.birth(fr), ins["id"])
                        # contents beyond n unknown/absent: object is exactly this size for our uses
                        keep = {a: c for a, c in (o.cells.items() if o is not None else ()) if a >= n}
                        st.mem[key] = Obj(ep, keep)
                        eng.kill_aliases(st, key, fr, ("ms", ins["id"]), off, off + n)
                    else:
                        for a, s in eng.chunks(key, off, n):
                            eng.write_cells(st, key, off + a, s, concat([v] * s))
                        eng.kill_aliases(st, key, fr, ("ms", ins["id"]), off, off + n)
                    return [(None, st)]
            if ln.k == "c" and ln.a[0] == 0:
                return [(None, st)]
            eng.havoc_region(st, dst, ln, fr, ("ms", ins["id"]))
            eng.ev("memset_done", st, dst, v, ln, fr, ins)
            return [(None, st)]
        if n == "bswap":
            a = args[0]
            nb = a.w // 8
            return [(concat([extract(a, (nb - 1 - i) * 8, 8) for i in range(nb)]), st)]
        if n in ("umin", "umax"):
            a, b = args
            d = st.decide(icmp("ult", a, b))
            if d is not None:
                return [((a if d == (n == "umin") else b), st)]
            return [(mk(n, a.w, (a, b)), st)]
        if n in ("expect",):
            return [(args[0], st)]
        if n in ("lifetime", "assume", "dbg", "donothing", "va_start", "va_end", "stacksave", "stackrestore"):
            return [(None, st)]
        if n in ("trap", "debugtrap"):
            eng.ev("noreturn", st, "trap", args, fr, ins)
            return []
        if n in ("uadd", "usub", "umul") or name.startswith("llvm.") and ".with.overflow" in name:
            a, b = args
            op = name.split(".")[1]
            if op == "uadd":
                l = ladd(lin(a), lin(b))
                lo, hi = st.lbounds(l)
                if hi < 1 << a.w or st.prove(ladd(l, (-((1 << a.w) - 1), ()))):
                    return [((mklin(a.w, l), const(1, 0)), st)]
            out = []
            r = eng.arith(st, {"uadd": "add", "usub": "sub", "umul": "mul"}[op], a, b, a.w, fr, ins)
            f = mk("ovf", 1, (op, a, b))
            return [((r, f), st)]
        raise AnalysisError("intrinsic " + name)

    def copy_tracked(self, eng, st, dst, src, ln, fr, ins):
        self.moved(eng, st, dst, src, ln)

    def carried(self, eng, st, src, ln):
        """what is known about [src, src+ln): [(distance, size, value)]"""
        if not eng.parse:
            return []
        ks, ls = eng.split(src)[0], lin(src)
        p = eng.prov(ks)
        out = []
        for k, o in list(st.mem.items()):
            if p is None or eng.prov(k) is not p:
                continue
            for a, (sz, v) in o.cells.items():
                d = lsub((a, k), ls)
                if st.prove(lscale(d, -1), ASTEPS) and st.prove(lsub(ladd(d, (sz, ())), lin(ln)), ASTEPS):
                    out.append((d, sz, v))
        return out

    def carry(self, eng, st, dst, cells):
        for d, sz, v in cells:
            key, off = eng.split(mklin(eng.pb, ladd(lin(dst), d)))
            eng.write_cells(st, key, off, sz, v)

    # ---- which bytes have been provided by the caller or a source ("prov" windows)
    def contains(self, st, w, lo, hi):
        return st.prove(lsub(lin(w[1]), lo)) and st.prove(lsub(hi, lin(w[2])))

    def moved(self, eng, st, dst, src, ln):
        """provided bytes moved inside a reader's own buffer"""
        lo = lin(dst)
        hi = ladd(lo, lin(ln))
        slo = lin(src)
        shi = ladd(slo, lin(ln))
        for (k, obj), w in list(st.wins.items()):
            if k != "rbuf" or not self.contains(st, w, lo, hi):
                continue
            p = st.wins.get(("prov", obj))
            if p is None:
                continue
            if self.contains(st, p, slo, shi):
                st.wins[("prov", obj)] = ("r", dst, mklin(eng.pb, hi))
            elif self.contains(st, p, lo, hi):
                pass
            else:
                del st.wins[("prov", obj)]

    def filled(self, eng, st, buf, r):
        """a source stored r bytes at buf"""
        lo = lin(buf)
        hi = ladd(lo, lin(r))
        for (k, obj), w in list(st.wins.items()):
            if k != "rbuf" or not self.contains(st, w, lo, lo):
                continue
            p = st.wins.get(("prov", obj))
            if p is not None:
                d = lsub(lin(p[2]), lo)
                if (not d[1] and d[0] == 0) or (d[1] and st.prove(d) and st.prove(lscale(d, -1))):
                    st.wins[("prov", obj)] = ("r", p[1], mklin(eng.pb, hi))
                    continue
            st.wins[("prov", obj)] = ("r", buf, mklin(eng.pb, hi))

    def rehome(self, eng, st):
        """the memory an object's current pointers delimit, when it is part of some accessible block"""
        if eng.parse:
            eng.parse.pre(st)
        for (k, obj), w in [x for x in st.wins.items() if x[0][0] == "wbuf"]:
            F = Fields(eng, WRITER)
            b, e = F.get(st, obj, "buffer"), F.get(st, obj, "end")
            if b is None or e is None or (b is w[1] and e is w[2]):
                continue
            if st.bounds(b)[1] == 0 or st.ts.get(b) == "freed":
                continue
            lb, le = lin(b), lin(e)
            for k2, (m, x, y) in list(st.wins.items()):
                if m in ("w", "W") and st.prove(lsub(lin(x), lb)) and st.prove(lsub(le, lin(y))):
                    st.wins[(k, obj)] = ("w", b, e)
                    break

    def window_reset(self, eng, st, obj, lo, hi):
        st.wins[("prov", obj)] = ("r", lo, hi)

    # ---- allocation
    def x_malloc(self, eng, st, args, fr, ins):
        n = st.norm(args[0])
        eng.ev("alloc", st, n, fr, ins)

        def ok(s):
            t = self.heap_atom(eng, s, fr, ins, n, "m")
            self.fresh_name(eng, s, t)
            s.mem[((t, 1),)] = Obj(eng.new_epoch(fr, ("heap", ins["id"])), {})
            s.ts[t] = "owned"
            s.wins[("heap", t)] = ("w", t, mklin(eng.pb, ladd(lin(t), lin(n))))
            s.add_le(ladd(ladd(lin(t), lin(n)), (-((1 << eng.pb) - 4096), ())))
            eng.ev("allocated", s, t, n, None, fr, ins)
            return t

        def fail(s):
            eng.ev("allocfail", s, n, fr, ins)
            return const(eng.pb, 0)
        return self.fork(eng, st, [ok, fail])

    def fresh_name(self, eng, s, t):
        """a second allocation at the same site while the first is still known: forget the old name's facts"""
        if t in s.ts or ((t, 1),) in s.mem or t in s.u:
            o = atom(t.w, (t.a[0], "#prev"), None)
            if o.meta is None:
                o.meta = dict(t.meta)
            if o in s.ts or ((o, 1),) in s.mem:
                # merge: drop what is known about the older one
                o2 = atom(t.w, (t.a[0], "#prev2"), None)
                if o2.meta is None:
                    o2.meta = dict(t.meta)
                n = s.rename({o: o2})
                for a in State.__slots__:
                    setattr(s, a, getattr(n, a))
            n = s.rename({t: o})
            for a in State.__slots__:
                setattr(s, a, getattr(n, a))

    def x_realloc(self, eng, st, args, fr, ins):
        p, n = args[0], st.norm(args[1])
        eng.ev("alloc", st, n, fr, ins)

        def ok(s):
            eng.ev("freed", s, p, "realloc", fr, ins)
            kept = self.carried(eng, s, p, n)
            t = self.heap_atom(eng, s, fr, ins, n, "r")
            self.fresh_name(eng, s, t)
            if s.bounds(p)[1] != 0:
                self.mark_freed(eng, s, p)
            s.mem[((t, 1),)] = Obj(eng.new_epoch(fr, ("heap", ins["id"])), {})
            self.carry(eng, s, t, kept)
            s.ts[t] = "owned"
            s.wins[("heap", t)] = ("w", t, mklin(eng.pb, ladd(lin(t), lin(n))))
            s.add_le(ladd(ladd(lin(t), lin(n)), (-((1 << eng.pb) - 4096), ())))
            eng.ev("allocated", s, t, n, p, fr, ins)
            return t

        def fail(s):
            eng.ev("allocfail", s, n, fr, ins)
            return const(eng.pb, 0)
        return self.fork(eng, st, [ok, fail])

    def mark_freed(self, eng, s, p):
        if p.k == "a":
            s.ts[p] = "freed"
            s.mem.pop(((p, 1),), None)
            s.wins.pop(("heap", p), None)
            for k in [k for k, w in s.wins.items() if w[1] is p]:
                del s.wins[k]

    def x_free(self, eng, st, args, fr, ins):
        p = args[0]
        eng.ev("freed", st, p, "free", fr, ins)
        if st.bounds(p)[1] != 0:
            self.mark_freed(eng, st, p)
        return [(None, st)]

    x_vp_malloc, x_vp_realloc, x_vp_free = x_malloc, x_realloc, x_free

    # ---- strings
    def x_strlen(self, eng, st, args, fr, ins):
        p = args[0]
        n = mk("strlen", eng.pb, (p,), {"range": (0, (1 << (eng.pb - 1)) - 1)})
        if p.k == "g":
            g = eng.m.globals.get(p.a[0])
            if g and "str" in g:
                b = bytes.fromhex(g["str"])
                return [(const(eng.pb, b.index(0) if 0 in b else len(b)), st)]
        if p.k != "a" or not self.is_user(p):
            n = eng.new_atom(fr, eng.pb, ("strlen", ins["id"]))
        st.set_u(n, 0, (1 << (eng.pb - 1)) - 1)
        st.add_le(ladd(ladd(lin(p), lin(n)), (-((1 << eng.pb) - 4096), ())))
        if self.is_user(p):
            st.wins[("str", p)] = ("r", p, mklin(eng.pb, ladd(ladd(lin(p), lin(n)), (1, ()))))
        else:
            eng.ev("strlen", st, p, n, fr, ins)
        return [(n, st)]

    def is_user(self, p):
        return p.k == "a" and bool(p.meta) and bool(p.meta.get("user"))

    def x_strncpy(self, eng, st, args, fr, ins):
        n = st.norm(args[2])
        eng.access(st, args[0], n, "w", fr, ins)
        eng.havoc_region(st, args[0], n, fr, ("strncpy", ins["id"]))
        return [(args[0], st)]

    def x_memcmp(self, eng, st, args, fr, ins):
        n = st.norm(args[2])
        eng.access(st, args[0], n, "r", fr, ins)
        eng.access(st, args[1], n, "r", fr, ins)
        eng.ev("memcmp", st, args[0], args[1], n, fr, ins)
        return [(mk("memcmp", 32, (args[0], args[1], n)), st)]

    def x_strcmp(self, eng, st, args, fr, ins):
        return [(eng.new_atom(fr, 32, ("strcmp", ins["id"])), st)]

    # ---- stdio
    def file_atom(self, eng, s, fr, ins):
        t = eng.new_atom(fr, eng.pb, ("file", ins["id"]), ptr=True, file=True, where=fr.fn.where(ins),
                         **{"range": (4096, (1 << eng.pb) - TOPPAD)})
        self.fresh_name(eng, s, t)
        s.ts[t] = "open"
        return t

    def x_fopen(self, eng, st, args, fr, ins):
        def ok(s):
            t = self.file_atom(eng, s, fr, ins)
            eng.ev("opened", s, t, fr, ins)
            return t

        def fail(s):
            eng.ev("io_fail", s, "fopen", fr, ins)
            self.failed(eng, s, "fopen")
            return const(eng.pb, 0)
        return self.fork(eng, st, [ok, fail])

    def x_fclose(self, eng, st, args, fr, ins):
        eng.ev("closed", st, args[0], fr, ins)
        if args[0].k == "a":
            st.ts[args[0]] = "closed"

        def ok(s):
            return const(32, 0)

        def fail(s):
            eng.ev("io_fail", s, "fclose", fr, ins)
            self.failed(eng, s, "fclose")
            return const(32, 0xffffffff)
        return self.fork(eng, st, [ok, fail])

    def x_fread(self, eng, st, args, fr, ins):
        buf, sz, n = args[0], st.norm(args[1]), st.norm(args[2])
        ln = eng.mul(st, sz, n, eng.pb)
        eng.access(st, buf, ln, "w", fr, ins)
        eng.ev("file_use", st, args[3], "fread", fr, ins)
        eng.havoc_region(st, buf, ln, fr, ("fread", ins["id"]))
        r = eng.new_atom(fr, eng.pb, ("fread", ins["id"]), extern="fread")
        st = self.rebind(eng, st, r)
        st.add_le(lsub(lin(r), lin(n)))
        if eng.iofail:
            def ok(s):
                s.set_u(r, 1, (1 << r.w) - 1)
                self.filled(eng, s, buf, r)
                self.refilled(s)
                return r

            def none(s):
                s.set_u(n, 1, (1 << r.w) - 1)
                self.failed(eng, s, "fread")
                return const(r.w, 0)

            def nothing(s):
                s.set_u(n, 0, 0)
                return const(r.w, 0)
            return self.fork(eng, st, [ok, none, nothing])
        self.filled(eng, st, buf, r)
        return [(r, st)]

    # ---- an operation on a file or source fails (a case of its own when eng.iofail is set)
    def failed(self, eng, s, what):
        if eng.iofail:
            s.ts.setdefault("iofail", what)

    def refilled(self, s):
        """a source that cannot seek is read instead"""
        if s.ts.get("iofail") in ("fseek", "ftell", "fseek-past"):
            del s.ts["iofail"]

    def rebind(self, eng, st, r):
        return st   # names of results of instructions inside loops are aged at the back edge

    def x_fwrite(self, eng, st, args, fr, ins):
        buf, sz, n = args[0], st.norm(args[1]), st.norm(args[2])
        ln = eng.mul(st, sz, n, eng.pb)
        eng.access(st, buf, ln, "r", fr, ins)
        eng.ev("file_use", st, args[3], "fwrite", fr, ins)
        r = eng.new_atom(fr, eng.pb, ("fwrite", ins["id"]), extern="fwrite")
        st = self.rebind(eng, st, r)
        if eng.iofail:
            def short(s):
                s.add_le(ladd(lsub(lin(r), lin(n)), (1, ())))
                self.failed(eng, s, "fwrite")
                return r
            return self.fork(eng, st, [lambda s: n, short])
        st.add_le(lsub(lin(r), lin(n)))
        return [(r, st)]

    def _int(self, eng, st, args, fr, ins, name, w=32):
        eng.ev("file_use", st, args[0], name, fr, ins)
        r = eng.new_atom(fr, w, (name, ins["id"]), extern=name)
        st = self.rebind(eng, st, r)
        if eng.iofail and name in ("fseek", "ftell", "fflush"):
            def ok(s):
                if name == "ftell":
                    s.set_u(r, 0, (1 << (w - 1)) - 1)
                    return r
                if name == "fseek" and s.bounds(args[2]) == (1, 1):
                    s.ts.setdefault("iofail", "fseek-past")     # the end may be behind us: only a read can tell
                return const(w, 0)

            def fail(s):
                self.failed(eng, s, name)
                e = self.x___errno_location(eng, s, [], fr, ins)[0][0]
                x = eng.new_atom(fr, 32, ("errno", ins["id"]))
                s.set_u(x, 1, (1 << 31) - 1)
                k, off = eng.split(e)
                eng.write_cells(s, k, off, 4, x)
                return ALLONES(w)
            return self.fork(eng, st, [ok, fail])
        return [(r, st)]

    def x_feof(self, eng, st, args, fr, ins):
        return self._int(eng, st, args, fr, ins, "feof")

    def x_ferror(self, eng, st, args, fr, ins):
        return self._int(eng, st, args, fr, ins, "ferror")

    def x_fflush(self, eng, st, args, fr, ins):
        return self._int(eng, st, args, fr, ins, "fflush")

    def x_fseek(self, eng, st, args, fr, ins):
        eng.ev("fseek", st, args, fr, ins)
        return self._int(eng, st, args, fr, ins, "fseek")

    def x_ftell(self, eng, st, args, fr, ins):
        return self._int(eng, st, args, fr, ins, "ftell", eng.pb)

    def x___errno_location(self, eng, st, args, fr, ins):
        t = atom(eng.pb, "errno", None)
        if t.meta is None:
            t.meta = {"ptr": True, "range": (4096, (1 << eng.pb) - TOPPAD), "errno": True}
        return [(t, st)]

    def x_snprintf(self, eng, st, args, fr, ins):
        eng.access(st, args[0], st.norm(args[1]), "w", fr, ins)
        if st.bounds(args[0])[1] != 0:
            eng.havoc_region(st, args[0], st.norm(args[1]), fr, ("snp", ins["id"]))
        r = eng.new_atom(fr, 32, ("snprintf", ins["id"]), extern="snprintf")
        st = self.rebind(eng, st, r)
        eng.ev("snprintf", st, args, r, fr, ins)
        return [(r, st)]

    x_vsnprintf = x_snprintf

    def _void_int(self, eng, st, args, fr, ins):
        return [(eng.new_atom(fr, 32, ("int", ins["id"])), st)]

    x_fprintf = x_printf = x_fputs = x_puts = x_fputc = x_putchar = _void_int

    def x_abort(self, eng, st, args, fr, ins):
        eng.ev("noreturn", st, "abort", args, fr, ins)
        return []

    # ------------------------------------------------------------ indirect calls
    def callback_of(self, f):
        fld = (f.meta or {}).get("field")
        if fld is None:
            return None
        return CALLBACKS.get(fld)

    def indirect(self, eng, st, f, args, fr, ins):
        if f.k in ("select",):
            out = []
            for tr, v in ((True, f.a[1]), (False, f.a[2])):
                s = st.copy()
                try:
                    s.assume(f.a[0], tr)
                except Infeasible:
                    continue
                if v.k == "fn":
                    ins2 = dict(ins)
                    fn = eng.m.fns[v.a[0]]
                    out += eng.run(fn, args, s, fr, ins["id"], fr.blk)
                else:
                    out += self.indirect(eng, s, v, args, fr, ins)
            return out
        cb = self.callback_of(f)
        if cb is None and f.k == "a" and f.meta and f.meta.get("phi"):
            cb = self.callback_of_args(eng, f, args)
        if cb is None:
            cb = self.callback_of_args(eng, f, args)
        if cb is None:
            raise AnalysisError("indirect call through %s in %s" % (show(f), fr.fn.name))
        b = st.bounds(f)
        if b[1] == 0:
            eng.ev("nullcall", st, cb, args, fr, ins)
            return []
        if b[0] == 0:
            eng.ev("maybe_nullcall", st, cb, args, fr, ins)
            st.set_u(f, 1, (1 << eng.pb) - 1)
        eng.ev("callback", st, cb, f, args, fr, ins)
        return getattr(self, "cb_" + cb)(eng, st, args, fr, ins)

    def callback_of_args(self, eng, f, args):
        """a function the caller passed in"""
        if f.k == "a" and (f.meta or {}).get("arg") and len(args) == 3:
            return "print"
        return None

    def obj_kind(self, eng, obj):
        return self.objptr(eng, obj)

    def set_error(self, eng, s, obj, sname, fr, ins, how):
        F = Fields(eng, sname)
        old = F.get(s, obj, "error")
        s.assume_cmp("eq", old, const(old.w, 0))
        x = eng.new_atom(fr, old.w, ("cberr", ins["id"]))
        n = self.rebind(eng, s, x)
        if n is not s:
            for a in State.__slots__:
                setattr(s, a, getattr(n, a))
        s.set_u(x, 1, 0xffff)
        F.put(s, obj, "error", x)
        if sname == READER:
            F.put(s, obj, "end", F.get(s, obj, "data"))
        eng.ev("cb_error", s, obj, sname, fr, ins, how)

    def cb_fill(self, eng, st, args, fr, ins):
        obj, buf, n = args[0], args[1], st.norm(args[2])
        eng.access(st, buf, n, "w", fr, ins)
        w = eng.pb
        r = eng.new_atom(fr, w, ("fill", ins["id"]))
        st = self.rebind(eng, st, r)
        eng.havoc_region(st, buf, n, fr, ("fill", ins["id"]))

        def ok(s):
            s.add_le(lsub(lin(r), lin(n)))
            if eng.iofail:
                s.set_u(r, 1, (1 << w) - 1)
                self.refilled(s)
            self.filled(eng, s, buf, r)
            s.ts[("fill", fr.ctx)] = 1     # keeps the first round of a filling loop apart from the later ones
            return r

        def none(s):
            self.failed(eng, s, "fill")
            return const(w, 0)

        def neg(s):
            self.failed(eng, s, "fill")
            return ALLONES(w)

        def err(s):
            self.set_error(eng, s, obj, READER, fr, ins, "fill")
            return r
        return self.fork(eng, st, [ok, neg, err] + ([none] if eng.iofail else []))

    def cb_skip(self, eng, st, args, fr, ins):
        obj = args[0]
        F = Fields(eng, READER)

        def ok(s):
            # a skip function may refill the buffer
            buf, size = F.get(s, obj, "buffer"), F.get(s, obj, "size")
            d = eng.new_atom(fr, eng.pb, ("skd", ins["id"]), ptr=True, field=(READER, "data"), di=self.chardi(eng))
            e = eng.new_atom(fr, eng.pb, ("ske", ins["id"]), ptr=True, field=(READER, "end"), di=self.chardi(eng))
            n = self.rebind(eng, s, d)
            n = self.rebind(eng, n, e)
            if n is not s:
                for a in State.__slots__:
                    setattr(s, a, getattr(n, a))
            F.put(s, obj, "data", d)
            F.put(s, obj, "end", e)
            s.add_le(lsub(lin(d), lin(e)))
            s.add_le(lsub(lin(buf), lin(d)))
            s.add_le(lsub(lin(e), ladd(lin(buf), lin(size))))
            self.window_reset(eng, s, obj, d, e)
            return None

        def err(s):
            self.set_error(eng, s, obj, READER, fr, ins, "skip")
            return None
        return self.fork(eng, st, [ok, err])

    def chardi(self, eng):
        for i, d in enumerate(eng.m.di):
            if d and d["k"] == "base" and d["name"] == "char":
                return i
        return None

    def cb_flush(self, eng, st, args, fr, ins):
        obj, buf, n = args[0], args[1], st.norm(args[2])
        eng.access(st, buf, n, "r", fr, ins)
        F = Fields(eng, WRITER)

        def ok(s):
            self.writer_fresh(eng, s, obj, fr, ("fl", ins["id"]))
            return None

        def err(s):
            self.set_error(eng, s, obj, WRITER, fr, ins, "flush")
            return None
        return self.fork(eng, st, [ok, err])

    def writer_fresh(self, eng, s, obj, fr, tag):
        """a flush leaves the writer with a (possibly different) buffer: buffer <= position <= end"""
        F = Fields(eng, WRITER)
        ch = self.chardi(eng)
        at = []
        for f in ("buffer", "position", "end"):
            a = eng.new_atom(fr, eng.pb, (tag, f), ptr=True, field=(WRITER, f), di=ch,
                             range=(4096, (1 << eng.pb) - 4096))
            n = self.rebind(eng, s, a)
            if n is not s:
                for q in State.__slots__:
                    setattr(s, q, getattr(n, q))
            at.append(a)
            F.put(s, obj, f, a)
        b, p, e = at
        s.add_le(lsub(lin(b), lin(p)))
        s.add_le(lsub(lin(p), lin(e)))
        s.add_le(ladd(lsub(lin(b), lin(e)), (32, ())))
        s.wins[("wbuf", obj)] = ("w", b, e)

    def cb_read(self, eng, st, args, fr, ins):
        """a read function may return 0: there is no data yet"""
        obj, buf, n = args[0], args[1], st.norm(args[2])
        eng.access(st, buf, n, "w", fr, ins)
        w = eng.pb
        r = eng.new_atom(fr, w, ("read", ins["id"]))
        st = self.rebind(eng, st, r)
        eng.havoc_region(st, buf, n, fr, ("read", ins["id"]))

        def ok(s):
            s.add_le(lsub(lin(r), lin(n)))
            if eng.starve or eng.iofail:
                s.set_u(r, 1, (1 << w) - 1)
            self.filled(eng, s, buf, r)
            return r

        def none(s):
            if eng.starve:
                s.ts["starved"] = 1
            self.failed(eng, s, "read-none")
            return const(w, 0)

        def neg(s):
            self.failed(eng, s, "read")
            return ALLONES(w)

        def err(s):
            self.set_error(eng, s, obj, TREE, fr, ins, "read")
            return r
        return self.fork(eng, st, [ok, neg, err] + ([none] if eng.starve or eng.iofail else []))

    def cb_error_fn(self, eng, st, args, fr, ins):
        eng.ev("error_fn", st, args, fr, ins)
        return [(None, st)]

    def cb_teardown(self, eng, st, args, fr, ins):
        obj = args[0]
        sname = self.objptr(eng, obj)
        eng.ev("teardown", st, args, fr, ins)

        def ok(s):
            return None

        def err(s):
            self.set_error(eng, s, obj, sname, fr, ins, "teardown")
            return None
        if sname in OBJECTS:
            return self.fork(eng, st, [ok, err])
        return [(None, st)]

    def cb_print(self, eng, st, args, fr, ins):
        eng.access(st, args[1], st.norm(args[2]), "r", fr, ins)
        return [(None, st)]

    # ------------------------------------------------------------ recursion
    def recursive(self, eng, st, fn, args, fr, ins):
        """a call that is already being analysed: contract instead of inlining"""
        eng.ev("recursion", st, fn, args, fr, ins)
        objs = [(x, self.objptr(eng, x)) for x in args if self.objptr(eng, x) in OBJECTS]

        def res(s):
            return eng.undef(fn.ret, fr, ("rec", ins["id"])) if fn.ret != "void" else None

        def same(s):
            for x, n in objs:
                self.havoc_object(eng, s, x, n, fr, ("rec", ins["id"]))
            return res(s)

        def err(s):
            x, n = objs[0]
            self.havoc_object(eng, s, x, n, fr, ("rec", ins["id"]))
            self.set_error(eng, s, x, n, fr, ins, "recursion")
            return res(s)
        return self.fork(eng, st, [same, err] if objs else [same])

    def havoc_object(self, eng, st, obj, sname, fr, tag):
        F = Fields(eng, sname)
        if sname == READER:
            key, off = eng.split(obj)
            buf, size, fill = F.get(st, obj, "buffer"), F.get(st, obj, "size"), F.get(st, obj, "fill")
            err = F.get(st, obj, "error")
            for f in ("data", "end"):
                o = F.at(f)
                meta = dict((F.get(st, obj, f).meta) or {})
                meta.pop("home", None)
                meta.pop("birth", None)
                meta["ptr"] = True
                meta["field"] = (sname, f)
                x = eng.new_atom(fr, o[1] * 8, (tag, f), **meta)
                F.put(st, obj, f, x)
            d, e = F.get(st, obj, "data"), F.get(st, obj, "end")
            if st.bounds(st.norm(err))[0] > 0:
                F.put(st, obj, "end", d)
                e = d
            st.add_le(lsub(lin(d), lin(e)))
            if st.bounds(fill)[0] > 0:
                st.add_le(lsub(lin(buf), lin(d)))
                st.add_le(lsub(lin(e), ladd(lin(buf), lin(size))))
            self.window_reset(eng, st, obj, d, e)
