"""C18: what exceeds a configured limit is refused as documented, and nothing within the limits is refused for exceeding them"""
import terms
from wire import *
from domain import ASTEPS
from parse import Parse, STORES, GHOST, PEND, NODEP, RESUME
from membounds import PARSE

# what a function may return at most: (kinds of values, the limit's argument, bytes needed besides the data)
BIG = {"mpack_expect_str_max": ("str", 1, 0), "mpack_expect_bin_max": ("bin", 1, 0), "mpack_expect_ext_max": ("ext", 2, 0),
       "mpack_expect_str_buf": ("str", 2, 0), "mpack_expect_utf8": ("str", 2, 0), "mpack_expect_bin_buf": ("bin", 2, 0),
       "mpack_expect_ext_buf": ("ext", 3, 0), "mpack_expect_cstr": ("str", 2, 1), "mpack_expect_utf8_cstr": ("str", 2, 1),
       "mpack_expect_cstr_alloc": ("str", 1, 1), "mpack_expect_utf8_cstr_alloc": ("str", 1, 1), "mpack_expect_bin_alloc": ("bin", 1, 0),
       "mpack_expect_ext_alloc": ("ext", 2, 0)}
TYPE = ("mpack_expect_bin_max", "mpack_expect_ext_max", "mpack_expect_bin_alloc", "mpack_expect_ext_alloc")      # documented to say so with a type error
NODEBIG = {"mpack_node_copy_data": (("str", "bin", "ext"), 3, 0), "mpack_node_copy_utf8": (("str",), 3, 0), "mpack_node_copy_cstr": (("str",), 3, 1),
           "mpack_node_copy_utf8_cstr": (("str",), 3, 1), "mpack_node_data_alloc": (("str", "bin", "ext"), 2, 0),
           "mpack_node_cstr_alloc": (("str",), 2, 1), "mpack_node_utf8_cstr_alloc": (("str",), 2, 1)}
# element counts and exact sizes; outside the range is a type error: (kind, argument of the least or None, of the most)
COUNT = {"mpack_expect_map_range": ("map", 1, 2), "mpack_expect_map_max": ("map", None, 1), "mpack_expect_map_max_or_nil": ("map", None, 1),
         "mpack_expect_array_range": ("array", 1, 2), "mpack_expect_array_max": ("array", None, 1), "mpack_expect_array_max_or_nil": ("array", None, 1),
         "mpack_expect_array_alloc_impl": ("array", None, 2),
         "mpack_expect_map_match": ("map", 1, 1), "mpack_expect_array_match": ("array", 1, 1), "mpack_expect_str_length": ("str", 1, 1),
         "mpack_expect_bin_size": ("bin", 1, 1), "mpack_expect_ext_size": ("ext", 2, 2), "mpack_expect_bin_size_buf": ("bin", 2, 2)}
CONTENT = ("utf8", "cstr")          # these also refuse what is in the data
# sizes the caller gives
READ = {"mpack_read_cstr": (2, 3, 1), "mpack_read_utf8_cstr": (2, 3, 1)}


def linv(s, t, w=64):
    return lin(t)


def le(s, a, b, plus=0):
    """a + plus <= b is proved"""
    return s.prove(ladd(lsub(a, b), (plus, ())), ASTEPS)


def errorcell(eng, args):
    """addresses of the objects' error fields"""
    return [ladd(lin(o), (Fields(eng, s).at("error")[0], ())) for s, o in objects(eng, args)]


def note_error(st, cells, addr, v):
    """keeps states with different errors apart"""
    if isinstance(v, T) and lin(addr) in cells:
        v = st.norm(v)
        st.ts["ev"] = v.a[0] if v.k == "c" else -1


class Getter(Rule):
    def splits(self, eng, st, fn, args, label):
        if "err" in label:
            return []
        n = fn.name
        if n in NODEBIG:
            have = eng.m.enum_values("mpack_type_t")
            fs = [(k, 0, 0, k, "none", 0) for k in NODEBIG[n][0] if "mpack_type_" + k in have]
        elif n in READ:
            fs = [("any", 0, 0, "any", "none", 0)]
        else:
            k = (BIG.get(n) or COUNT[n])[0]
            fs = [f for f in FORMATS if f[3] == k]
        out = []
        for f in fs:
            for side in ("in", "above") + (("below",) if n in COUNT and COUNT[n][1] is not None else ()):
                c = Case(f[0] + " " + side, f)
                c.side = side
                out.append(c)
        return out

    def start(self, eng, st, fn, args, label):
        c = self.case = eng.split_name
        n = fn.name
        self.lo = None
        self.errs = {v: k for k, v in eng.m.enum_values("mpack_error_t").items()}
        if n in NODEBIG:
            put_node(eng, st, args[0], c.kind, None)
            o, sz = eng.m.offset_of(NODEDATA, "len")[:2]
            key, base = eng.split(args[0])
            self.L = linv(st, eng.read_cells(st, key, base + o, sz))
            i, self.slack = NODEBIG[n][1:]
        elif n in READ:
            i, j, self.slack = READ[n]
            self.L = linv(st, args[j])
        else:
            put_reader(eng, st, args[0], c)
            if c.kind == "ext":
                st.set_u(c.exttype, 0, 127)
            self.L = linv(st, c.v)
            if n in BIG:
                i, self.slack = BIG[n][1:]
            else:
                lo, i, self.slack = COUNT[n][1], COUNT[n][2], 0
                if lo is not None:
                    self.lo = linv(st, args[lo])
        if self.slack:
            st.set_u(args[i], 1, (1 << args[i].w) - 1)
        if n == "mpack_expect_array_alloc_impl":
            st.set_u(args[1], 1, 1 << 31)
        self.hi = linv(st, args[i])
        if self.lo is not None:
            st.add_le(lsub(self.lo, self.hi))
        d = ladd(lsub(self.L, self.hi), (self.slack, ()))
        if c.side == "above":
            st.add_le(ladd(lscale(d, -1), (1, ())))
        else:
            st.add_le(d)
            if self.lo is not None:
                d = lsub(self.lo, self.L)
                st.add_le(d if c.side == "in" else ladd(lscale(d, -1), (1, ())))
        self.E = errorcell(eng, args)
        eng.keepstack.append({a for l in (self.L, self.hi) for x, _ in l[1] for a in atoms_of(x)})

    def on_store(self, eng, st, addr, size, v, fr, ins):
        note_error(st, self.E, addr, v)

    def on_cb_error(self, eng, st, *a):
        st.ts["cberr"] = 1

    def on_allocated(self, eng, st, p, n, old, fr, ins):
        n = st.norm(n)
        if eng.root in NODEBIG or eng.root in BIG:
            return self.chk(le(st, linv(st, n), self.hi), "allocation-within", lambda: "%s bytes are allocated for data of at most %s" % (show(n), show(mklin(64, self.hi))), eng, fr, ins)

    def exits(self, eng, rs, fn, args, label):
        out, n = [], fn.name
        if not rs:
            return [self.chkexit(False, "outcome", "given %s, never returns" % self.case.name, eng, fn)]
        E = eng.m.enum_values("mpack_error_t")
        big, typ = E["mpack_error_too_big"], E["mpack_error_type"]
        want = typ if n in COUNT or n in TYPE else big
        side = self.case.side
        for rv, s in rs:
            if s.ts.get("cberr"):
                continue
            if True:
                e = Fields(eng, TREE).get(s, args[1], "error") if n in NODEBIG else Fields(eng, READER).get(s, args[0], "error")
                b = s.bounds(s.norm(e))
                what = "length %s the limit, the error is %s" % ({"above": "above", "below": "below", "in": "within"}[side], self.errs.get(b[0], b) if b[0] == b[1] else b)
                if side == "in":
                    clamp = self.slack and le(s, lscale(self.L, -1), (-((1 << 32) - 1), ()))      # a string of 4 GiB - 1 does not fit an allocation's 32-bit limit
                    bad = {big, typ} if n in TYPE else {typ} if n in COUNT else {big}
                    if n in BIG and not any(x in n for x in CONTENT):
                        bad.add(typ)
                    if n == "mpack_expect_array_alloc_impl" and eng.pb > 32:
                        bad = {big, typ}        # no array of 2^32 elements of 2^31 bytes is beyond the address space
                    if True:
                        ok = clamp or not any(b[0] <= x <= b[1] for x in bad)
                    out.append(self.chkexit(ok, "within-accepted", what, eng, fn))
                    if b == (0, 0) and isinstance(rv, T) and rv.w in (32, 64) and (n in COUNT and "_or_nil" not in n and "alloc" not in n or n.endswith("_max") or n.endswith("_buf")
                                                                                   or n in ("mpack_node_copy_data", "mpack_node_copy_utf8", "mpack_expect_utf8")):
                        d = lsub(linv(s, s.norm(rv)), self.L)
                        out.append(self.chkexit(s.prove(d, ASTEPS) and s.prove(lscale(d, -1), ASTEPS), "true-length",
                                                lambda: "returns %s, not the length" % show(s.norm(rv)), eng, fn))
                else:
                    # what else may go wrong before the length is known: nothing for a node; the data left is at least a header
                    out.append(self.chkexit(b == (want, want), "beyond-refused", what, eng, fn))
        return out


class ReaderBig(Rule):
    """only data that does not fit the buffer is too big for a reader"""
    def start(self, eng, st, fn, args, label):
        error_params(eng, st, fn, args)
        self.objs = [o for s, o in objects(eng, args) if s == READER]
        E = eng.m.enum_values("mpack_error_t")
        self.big = E["mpack_error_too_big"]
        for o in self.objs:
            F = Fields(eng, READER)
            e = F.get(st, o, "error")
            if st.bounds(e)[0] > 0:
                F.put(st, o, "error", const(e.w, E["mpack_error_io"]))
            elif st.bounds(F.get(st, o, "fill"))[1] > 0:
                st.set_u(F.get(st, o, "size"), eng.m.consts.get("MPACK_READER_MINIMUM_BUFFER_SIZE", 32), (1 << (eng.pb - 1)) - 1)
        self.sizes = {}
        self.cells = errorcell(eng, args)
        for a in args[1:]:
            self.size(a)
        self.caller = [a for a in args if isinstance(a, T) and (a.meta or {}).get("enum") == "mpack_error_t"]

    def on_cb_error(self, eng, st, *a):
        st.ts["cberr"] = 1

    def size(self, a):
        if isinstance(a, T) and a.w in (32, 64) and not (a.meta or {}).get("ptr"):
            self.sizes[a] = 1

    def on_call(self, eng, st, name, args, fr, ins):
        for a in args[1:]:
            self.size(a)

    def on_store(self, eng, st, addr, size, v, fr, ins):
        if not isinstance(v, T) or lin(addr) not in self.cells:
            return None
        v = st.norm(v)
        b = st.bounds(v)
        note_error(st, self.cells, addr, v)
        if not b[0] <= self.big <= b[1] or v in self.caller:
            return None
        out = []
        for o in self.objs:
            n = lin(Fields(eng, READER).get(st, o, "size"))
            out.append(self.chk(any(le(st, n, linv(st, a), 1) for a in self.sizes), "buffer-limit",
                                "too_big is flagged though no more is needed than the buffer holds", eng, fr, ins))
        return out


class TreeLimits(Rule):
    def splits(self, eng, st, fn, args, label):
        return [x for x in Parse(eng, args[0]).splits(st) if x != "error"]

    def start(self, eng, st, fn, args, label):
        self.t = args[0]
        p = eng.parse = Parse(eng, self.t)
        p.resuming = True
        p.counted = self.counted
        self.eng = eng
        F = self.F = Fields(eng, TREE)
        E = eng.m.enum_values("mpack_error_t")
        self.big = E["mpack_error_too_big"]
        self.eo = F.at("error")
        self.co = F.at("buffer_capacity")
        self.nco = F.at("node_count")
        eng.templates.append(p.template)
        eng.templates.append(self.template)
        for f in ("max_size", "max_nodes"):
            st.set_u(F.get(st, self.t, f), 1, (1 << eng.pb) - 1)
        p.start(st, eng.split_name)
        if eng.split_name.startswith("parsing"):
            for x, f in self.inv(eng, st):
                st.add_le(f)
            if eng.node_store == "pages":
                st.set_u(p.get(st, "next"), 4096, (1 << eng.pb) - (1 << 24))

    def template(self, eng, st):
        p = eng.parse
        if p.haserr(st) or not p.live(st):
            return
        for what, f in self.inv(eng, st):
            yield f
        nc, gnc, pend = lin(p.get(st, "node_count")), lin(p.ghost(st, RESUME["node_count"])), lin(p.ghost(st, PEND))
        d = lsub(lsub(nc, gnc), pend)
        yield d
        yield lscale(d, -1)
        k = self.children(eng, st)
        if k is not None:           # counted, and not pushed yet
            d = lsub(lsub(nc, gnc), k)
            yield d
            yield lscale(d, -1)
        # the bytes of the node parsed last are behind its start
        yield ladd(lsub(lin(p.ghost(st, RESUME["size"])), lin(p.get(st, "size"))), (1, ()))

    def inv(self, eng, st):
        p = eng.parse
        if p.haserr(st) or not p.live(st):
            return
        nc = lin(p.get(st, "node_count"))
        yield "the limit", lsub(nc, lin(p.get(st, "max_nodes")))
        # every node counted is a byte: of those behind, or the first one of a node to come
        yield "the bytes of the message", lsub(nc, ladd(ladd(lin(p.get(st, "size")), lin(p.ghost(st, GHOST))), lin(p.ghost(st, PEND))))

    def on_cb_error(self, eng, st, *a):
        st.ts["cberr"] = 1

    def on_callback(self, eng, st, cb, f, args, fr, ins):
        p = eng.parse
        if cb != "read" or args[0] is not self.t:
            return None
        d = lsub(ladd(lin(args[2]), lin(p.get(st, "data_length"))), lin(p.get(st, "max_size")))
        return self.chk(st.prove(d, ASTEPS), "buffered-within", lambda: "%s more bytes are asked for when %s are buffered, not shown to be at most %s" % (
            show(st.norm(args[2])), show(st.norm(p.get(st, "data_length"))), show(p.get(st, "max_size"))), eng, fr, ins)

    def on_call(self, eng, st, name, args, fr, ins):
        if eng.parse.cut(st, args, fr, ins):
            return [self.chk(st.prove(f, ASTEPS), "nodes-within", "the number of nodes is not shown to be within %s when parsing starts" % x, eng, fr, ins) for x, f in self.inv(eng, st)]

    def on_load(self, eng, st, addr, size, v, fr, ins):
        p = eng.parse
        p.loaded(st, addr, size, v)
        d = lsub(lin(addr), lin(self.t))
        if isinstance(v, T) and not d[1] and d[0] == self.nco[0] and p.live(st) and not p.haserr(st):
            f = [f for x, f in self.inv(eng, st)][1]
            if st.prove(f, ASTEPS):
                st.set_u(v, 0, (1 << (eng.pb - 1)) - 1)       # so no more than the bytes of an object

    def on_store(self, eng, st, addr, size, v, fr, ins):
        p = eng.parse
        out = []
        d = lsub(lin(addr), lin(self.t))
        if isinstance(v, T) and not d[1]:
            v = st.norm(v)
            if d[0] == self.eo[0] and st.bounds(v)[0] <= self.big <= st.bounds(v)[1] and not p.haserr(st):
                out.append(self.chk(self.exceeds(eng, st), "too-big-only-beyond", "too_big is flagged, and no limit is shown to be exceeded", eng, fr, ins))
            if d[0] == self.co[0] and size == self.co[1]:
                out.append(self.chk(st.prove(lsub(lin(v), lin(p.get(st, "max_size"))), ASTEPS), "buffer-within",
                                    lambda: "the buffer's capacity becomes %s, not shown to be at most %s" % (show(v), show(p.get(st, "max_size"))), eng, fr, ins))
        out += [self.chk(ok, rule, msg, eng, fr, ins) for rule, ok, msg in p.store(st, addr, size, v) if rule in ("nodes-counted", "node-has-byte")]
        return out or None

    def counted(self, st, pend):
        p = self.eng.parse
        nc = lin(p.get(st, "node_count"))
        if pend is None:
            d = lsub(nc, lin(p.ghost(st, GHOST)))
            return [("nodes-counted", st.prove(d, ASTEPS) and st.prove(lscale(d, -1), ASTEPS), "the node count is not one when parsing starts")]
        d = lsub(lsub(nc, lin(p.ghost(st, RESUME["node_count"]))), lin(pend))
        return [("nodes-counted", st.prove(d, ASTEPS) and st.prove(lscale(d, -1), ASTEPS), "a node is complete, and its children are not shown to be counted exactly once"),
                ("node-has-byte", le(st, lin(p.ghost(st, RESUME["size"])), lin(p.get(st, "size")), 1), "a node is complete that is not shown to have taken a byte of the message")]

    def exceeds(self, eng, st):
        p = eng.parse
        g = lambda f: lin(st.norm(p.get(st, f)))
        # bytes
        need = lsub(ladd(g("data_length"), g("parser.current_node_reserved")), g("parser.possible_nodes_left"))
        if le(st, g("max_size"), need, 1):
            return True
        k = self.children(eng, st)
        if k is None:
            return False
        if le(st, g("max_nodes"), ladd(g("node_count"), k), 1):
            return True
        top = (1 << eng.pb) - 1
        if st.prove(ladd(lscale(k, -self.nsize(eng)), (top // 2, ())), ASTEPS):
            return True             # more nodes than an object can hold
        # a pool of nodes does not grow
        return eng.node_store == "pool" and le(st, g("parser.nodes_left"), k, 1)

    def nsize(self, eng):
        return eng.parse.ns

    def children(self, eng, st):
        p = eng.parse
        nt = st.ts.get("nt")
        if nt not in ("a", "m"):
            return None
        key, off = eng.split(p.ghost(st, NODEP))
        ln = eng.read_cells(st, key, off + p.nl[0], p.nl[1])
        return lscale(lin(zext(st.norm(ln), eng.pb)), 2 if nt == "m" else 1)

    def exit(self, eng, s, rv, fn, args, label):
        out = [self.chkexit(s.prove(f, ASTEPS), "nodes-within", "the number of nodes is not shown to be within %s" % x, eng, fn) for x, f in self.inv(eng, s)]
        return out


class FileLimit(Rule):
    """a file larger than the maximum is not loaded"""
    def splits(self, eng, st, fn, args, label):
        return ["maximum", "no maximum"]

    def start(self, eng, st, fn, args, label):
        self.max = args[2]
        st.set_u(self.max, *((1, (1 << eng.pb) - 1) if eng.split_name == "maximum" else (0, 0)))
        m = eng.m
        self.fixed = m.sizeof(m.struct_di("mpack_file_tree_t")) if m.struct_di("mpack_file_tree_t") is not None else None

    def on_allocated(self, eng, st, p, n, old, fr, ins):
        n = st.norm(n)
        if n.k == "c" and n.a[0] == self.fixed:
            return None
        return self.chk(st.bounds(self.max)[1] == 0 or le(st, lin(n), lin(self.max)), "file-within", lambda: "%s bytes are allocated for a file of at most %s" % (
            show(n), show(self.max)), eng, fr, ins)


def mk(eng):
    return [Getter()]


def mk_reader(eng):
    return [ReaderBig()]


def mk_file(eng):
    return [FileLimit()]


def mk_tree(eng):
    return [TreeLimits()]


def run(rep, tier):
    rep.explain = ("For every getter that takes a maximum, an exact size or a range of counts, and every format its value can have, the length is put within, above and below the "
                   "limit: within, no limit is reported as exceeded and the true length is returned; beyond, the error is the one documented; no block allocated is larger than the "
                   "limit. While a tree is parsed, each request to the source fits the maximum size, each node complete has its children counted once and a byte of its own, the count "
                   "stays within the maximum and the message's bytes, and too_big is flagged only where more bytes or nodes are needed than a limit allows.")
    cfgs = ["rel64"] + (["size64", "rel32"] if tier == "thorough" else [])
    T = set(BIG) | set(NODEBIG) | set(COUNT) | set(READ)
    for c in cfgs:
        rep.run(roots(c, lambda m, r: r in T, False), mk)
        rep.run(roots(c, lambda m, r: READER in arg_structs(m, r) and r not in T), mk_reader)
        rep.run(roots(c, lambda m, r: r in ("mpack_tree_init_filename", "mpack_tree_init_stdfile")), mk_file)
        if c in ("rel64", "size64"):
            rep.run([(c, r[1], {"node_store": z}) for r in roots(c) if r[1] in PARSE for z in STORES], mk_tree)
    fns = {k[2] for k in rep.obl if k[0] in ("within-accepted", "beyond-refused")}
    if len(fns) < 25:
        raise Broken("only %d functions with a limit found" % len(fns))
    rules = {k[0] for k in rep.obl}
    for r in ("buffered-within", "buffer-within", "nodes-counted", "node-has-byte", "nodes-within", "too-big-only-beyond", "file-within", "allocation-within", "buffer-limit"):
        if r not in rules:
            raise Broken("nothing found to apply the rule %s to" % r)
