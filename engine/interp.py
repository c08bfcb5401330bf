"""Abstract interpreter over the exported LLVM IR: a forward dataflow analysis on the control-flow
graph with joins, widening and context-sensitive treatment of calls (callees are analysed in the
abstract state of the call site).  Checks subscribe to events."""
import sys
import heapq
import itertools
from terms import *
from domain import State, Obj, Infeasible, join_states, same_state, overlaps, prune, live_atoms, ptr_pick

sys.setrecursionlimit(20000)


class AnalysisError(Exception):
    pass


class Module:
    def __init__(self, js):
        self.ptrbits = js["ptrbits"]
        self.consts = js.get("consts", {})
        self.di = js["ditypes"]
        self.fns = {}
        self.decls = {}
        self.globals = {g["name"]: g for g in js["globals"]}
        for f in js["functions"]:
            if f["decl"]:
                self.decls[f["name"]] = f
            else:
                self.fns[f["name"]] = Func(self, f)
        self.structs = {}
        for i, d in enumerate(self.di):
            if d and d["k"] in ("struct", "union") and d["els"] and d["name"]:
                self.structs[d["name"]] = i
        for i, d in enumerate(self.di):  # typedef names of anonymous or tagged structs
            if d and d["k"] == "typedef":
                r = self.strip(d["base"])
                if r is not None and r >= 0 and self.di[r]["k"] in ("struct", "union") and self.di[r]["els"]:
                    self.structs.setdefault(d["name"], r)

    # ---- debug-info types
    def strip(self, i):
        while i is not None and i >= 0 and self.di[i]["k"] in ("typedef", "const", "derived"):
            i = self.di[i]["base"]
        return i

    def pointee(self, i):
        """DI type id of what a pointer type points to (stripped), or None"""
        i = self.strip(i)
        if i is None or i < 0:
            return None
        d = self.di[i]
        if d["k"] == "ptr":
            return self.strip(d["base"])
        return None

    def sizeof(self, i):
        i = self.strip(i)
        if i is None or i < 0:
            return 0
        return self.di[i]["size"]

    def is_ptr(self, i):
        i = self.strip(i)
        return i is not None and i >= 0 and self.di[i]["k"] == "ptr"

    def struct_name(self, i):
        i = self.strip(i)
        if i is None or i < 0:
            return None
        return self.di[i]["name"] or self._tdname(i)

    def _tdname(self, i):
        for d in self.di:
            if d and d["k"] == "typedef" and d["base"] == i:
                return d["name"]
        return None

    def member(self, i, off, size):
        """(struct name, member path, DI type) of the scalar member at offset"""
        i = self.strip(i)
        if i is None or i < 0:
            return None
        d = self.di[i]
        path = []
        top = self.struct_name(i)
        while d["k"] in ("struct", "union", "array"):
            if d["k"] == "array":
                es = self.sizeof(d["base"])
                if not es:
                    return None
                off %= es
                i = self.strip(d["base"])
                d = self.di[i]
                continue
            best = None
            for n, o, t, s in d["els"]:
                if o <= off and off + size <= o + max(s, self.sizeof(t)):
                    if best is None or (self.sizeof(t) == size and self.sizeof(best[2]) != size):
                        best = (n, o, t)
            if best is None:
                return None
            path.append(best[0])
            off -= best[1]
            i = self.strip(best[2])
            if i is None or i < 0:
                return None
            d = self.di[i]
        if off != 0:
            return None
        return (top, ".".join(path), i)

    def struct_di(self, sname):
        return self.structs.get(sname)

    def enum_values(self, name):
        """enumerator -> value of an enum, by tag or typedef name"""
        for i, d in enumerate(self.di):
            if d and d["k"] == "enum" and (d["name"] == name or self._tdname(i) == name):
                return {n: v for n, v in d["els"]}
        return {}

    def offset_of(self, sname, path):
        """(offset, size) of a member path"""
        i = self.structs.get(sname)
        if i is None:
            return None
        off = 0
        for p in path.split("."):
            d = self.di[self.strip(i)]
            for n, o, t, s in d.get("els", ()):
                if n == p:
                    off += o
                    i = t
                    break
            else:
                return None
        return off, self.sizeof(i)

    def enum(self, name):
        for d in self.di:
            if d and d["k"] == "typedef" and d["name"] == name:
                b = self.strip(d["base"])
                if self.di[b]["k"] == "enum":
                    return dict((n, v) for n, v in self.di[b]["els"])
        for d in self.di:
            if d and d["k"] == "enum" and d["name"] == name:
                return dict((n, v) for n, v in d["els"])
        return None


class Func:
    def __init__(self, mod, js):
        self.mod = mod
        self.js = js
        self.name = js["name"]
        self.srcname = js.get("srcname", self.name)
        self.file = js.get("file", "?").split("/")[-1]
        self.line = js.get("line", 0)
        self.local = js["local"]
        self.args = js["args"]
        self.blocks = js["blocks"]
        self.ret = js["ret"]
        self.argdi = js.get("ditypes", [])
        self.insts = {}
        for b, blk in enumerate(self.blocks):
            for ins in blk:
                if "id" in ins:
                    self.insts[ins["id"]] = ins
        self._cfg()

    def _cfg(self):
        n = len(self.blocks)
        self.succ = [[] for _ in range(n)]
        self.pred = [[] for _ in range(n)]
        for b, blk in enumerate(self.blocks):
            t = blk[-1]
            s = []
            if t["op"] == "br":
                s = [t["t"]] + ([t["f"]] if "f" in t else [])
            elif t["op"] == "switch":
                s = [t["def"]] + [c[1] for c in t["cases"]]
            for x in dict.fromkeys(s):
                self.succ[b].append(x)
                self.pred[x].append(b)
        self.npred = [len(x) for x in self.pred]
        self.callres = [i["id"] for blk in self.blocks for i in blk if i["op"] == "call" and "id" in i and i.get("ty") != "void"]
        # RPO + back edges
        order, state = [], {}
        stack = [(0, iter(self.succ[0]))]
        state[0] = 1
        self.back = set()
        while stack:
            b, it = stack[-1]
            for s in it:
                if s not in state:
                    state[s] = 1
                    stack.append((s, iter(self.succ[s])))
                    break
                elif state[s] == 1:
                    self.back.add((b, s))
            else:
                state[b] = 2
                order.append(b)
                stack.pop()
        order.reverse()
        self.rpo = {b: i for i, b in enumerate(order)}
        self.headers = {}
        for (b, h) in self.back:
            body = self.headers.setdefault(h, {h})
            st = [b]
            while st:
                x = st.pop()
                if x in body:
                    continue
                body.add(x)
                st.extend(self.pred[x])
        # priority: inner loops stabilise before the code after them
        self.prio = self.rpo
        # liveness
        use = [set() for _ in range(n)]
        de = [set() for _ in range(n)]
        phiuse = [dict() for _ in range(n)]
        for b, blk in enumerate(self.blocks):
            for ins in blk:
                if ins["op"] == "phi":
                    de[b].add(ins["id"])
                    for p, v in ins["in"]:
                        phiuse[p].setdefault(b, set()).update(regs_in(v))
                    continue
                if ins["op"] == "dbg":
                    continue
                for r in inst_uses(ins):
                    if r not in de[b]:
                        use[b].add(r)
                if "id" in ins:
                    de[b].add(ins["id"])
        self.livein = [set() for _ in range(n)]
        ch = True
        while ch:
            ch = False
            for b in reversed(range(n)):
                out = set()
                for s in self.succ[b]:
                    out |= self.livein[s]
                    out |= phiuse[b].get(s, set())
                li = use[b] | (out - de[b])
                if li != self.livein[b]:
                    self.livein[b] = li
                    ch = True
        # live after instruction (for keep sets) is approximated by livein of successors + block uses
        self.liveany = set()

    def where(self, ins):
        return "%s:%s" % ((ins.get("file") or self.js.get("file", "?")).split("/")[-1], ins.get("line", self.line))


def isaged(a):
    n = a.a[0]
    return isinstance(n, tuple) and len(n) == 2 and n[1] in ("#o", "#b")


def regs_in(o):
    if not o:
        return
    if o[0] == "r":
        yield o[1]
    elif o[0] == "agg":
        for x in o[1]:
            yield from regs_in(x)


def inst_uses(ins):
    for k in ("ops", "args"):
        for o in ins.get(k, ()):
            yield from regs_in(o)
    if "cond" in ins:
        yield from regs_in(ins["cond"])
    if "callee" in ins:
        yield from regs_in(ins["callee"])
    if "gep" in ins:
        yield from regs_in(ins["gep"]["base"])
        for v, s in ins["gep"]["var"]:
            yield from regs_in(v)


class Frame:
    __slots__ = ("fn", "ctx", "depth", "blk", "allocas", "stack")

    def __init__(self, fn, ctx, depth, stack):
        self.fn = fn
        self.ctx = ctx
        self.depth = depth
        self.blk = 0
        self.allocas = []
        self.stack = stack


class Engine:
    MAXPART = 24

    def __init__(self, mod, checks=(), models=None):
        self.m = mod
        self.pb = mod.ptrbits
        self.checks = list(checks)
        self.models = models
        self.epoch_birth = {}
        self.keepstack = []
        self.fresh = itertools.count()
        self.stats = {"insts": 0, "calls": 0, "blocks": 0, "joins": 0}
        self.functions = set()
        self.iofail = False     # are failing file and source operations cases of their own?
        self.split_result = None    # names of functions whose result being zero or not are cases of their own
        self.starve = False     # is a read function that returns nothing a case of its own?
        self.parse = None     # the invariant of the tree parser (parse.Parse), when it is being analysed
        self.templates = []   # callables(engine, state) -> iterable of linear forms (<=0)
        self.keyfn = None     # extra partition key
        self.tracked = []     # (key-form, offset, size) cells whose zero-status partitions states
        self.exact = []       # cells whose constant value partitions states
        self.root = None
        self.rec_model = None
        self._relcache = {}
        self.peel = 0
        self.copymax = 256
        self.limit = 1500000
        self.deadline = None
        self.debug = False
        self.handlers = {}
        self.buf = []         # records of the checks, for the states of the final fixpoint only

    # ------------------------------------------------------------ events
    def ev(self, name, *a):
        hs = self.handlers.get(name)
        if hs is None:
            hs = self.handlers[name] = [(c, getattr(c, "on_" + name)) for c in self.checks if hasattr(c, "on_" + name)]
        for c, f in hs:
            r = f(self, *a)
            if r is not None:
                if isinstance(r, list):
                    self.buf.extend((c, x) for x in r)
                else:
                    self.buf.append((c, r))

    # ------------------------------------------------------------ terms
    def null(self):
        return const(self.pb, 0)

    def relations(self, st, x):
        """linear forms <=0 that hold by definition of op term x"""
        r = self._relcache.get(x)
        if r is not None:
            return r
        out = []
        k = x.k
        if k == "cat" and x.a[0].k == "c" and x.a[0].a[0] == 0 and len(x.a) in (2, 3):
            # alignment: x = t with its low n bits cleared
            y = x.a[1]
            n = x.a[0].w
            if y.k == "ext" and y.a[1] == n:
                t = y.a[0]
                if y.a[2] + n == t.w:
                    out.append(lsub((0, ((x, 1),)), lin(t)))
                    out.append(lsub(ladd(lin(t), (-((1 << n) - 1), ())), (0, ((x, 1),))))
        if k == "umin":
            out.append(lsub((0, ((x, 1),)), lin(x.a[0])))
            out.append(lsub((0, ((x, 1),)), lin(x.a[1])))
        if k == "and":
            out.append(lsub((0, ((x, 1),)), lin(x.a[0])))
            out.append(lsub((0, ((x, 1),)), lin(x.a[1])))
        if k == "urem":
            out.append(lsub((0, ((x, 1),)), lin(x.a[0])))
            out.append(ladd(lsub((0, ((x, 1),)), lin(x.a[1])), (1, ())))
        if k == "udiv" and x.a[1].k == "c" and x.a[1].a[0]:
            d = x.a[1].a[0]
            out.append(lsub(lscale((0, ((x, 1),)), d), lin(x.a[0])))
            out.append(ladd(lsub(lin(x.a[0]), lscale((0, ((x, 1),)), d)), (-(d - 1), ())))
        if k == "ext" and x.a[1] == 0:
            out.append(lsub((0, ((x, 1),)), lin(x.a[0])))
        if k == "ext" and x.a[1] > 0 and x.a[1] + x.a[2] == x.a[0].w:
            d = 1 << x.a[1]
            out.append(lsub(lscale((0, ((x, 1),)), d), lin(x.a[0])))
            out.append(ladd(lsub(lin(x.a[0]), lscale((0, ((x, 1),)), d)), (-(d - 1), ())))
        self._relcache[x] = out
        return out

    def template_facts(self, st):
        for f in self.templates:
            yield from f(self, st)

    def loop_local(self, l, birth):
        ctx, blk, fn = birth
        body = fn.headers.get(blk, ())
        for x, _ in l[1]:
            for a in atoms_of(x):
                if self.in_loop(a, ctx, body):
                    return True
        return False

    def in_loop(self, a, ctx, body):
        m = a.meta or {}
        b = m.get("birth")
        if b is not None and self.birth_in(b, ctx, body):
            return True
        h = m.get("home")
        if h is not None:
            eb = self.epoch_birth.get(h[3])
            if eb is not None and self.birth_in(eb, ctx, body):
                return True
            for x, _ in h[0]:
                for y in atoms_of(x):
                    if y is not a and self.in_loop(y, ctx, body):
                        return True
        return False

    def birth_in(self, b, ctx, body):
        bctx, bblk = b[0], b[1]
        n = len(ctx)
        if bctx[:n] != ctx:
            return False
        if len(bctx) == n:
            return bblk in body
        return bctx[n][0] in body

    def birth(self, fr):
        return (fr.ctx, fr.blk, fr.fn)

    def new_atom(self, fr, w, name, **meta):
        meta["birth"] = self.birth(fr)
        t = atom(w, (name, fr.ctx), None)
        if t.meta is None:
            t.meta = meta
        return t

    def isptr(self, t):
        return t.k in ("g",) or bool(t.meta and t.meta.get("ptr"))

    def add(self, st, a, b, w, nuw=False):
        """a+b, exact if it provably does not wrap"""
        if a.k == "c" and b.k == "c":
            return const(w, cval(a) + cval(b))
        l = ladd(lin(a), lin(b))
        # adding a 'negative' constant
        for x, y in ((a, b), (b, a)):
            if y.k == "c" and y.a[0] >> (w - 1):
                l2 = ladd(lin(x), (scval(y), ()))
                if st.prove(lscale(l2, -1)):
                    return mklin(w, l2)
        hi = st.lbounds(l)[1]
        if hi < (1 << w) or st.prove(ladd(l, (-((1 << w) - 1), ()))):
            return mklin(w, l)
        if a.id > b.id:
            a, b = b, a
        return mk("add", w, (a, b))

    def sub(self, st, a, b, w):
        if a.k == "c" and b.k == "c":
            return const(w, cval(a) - cval(b))
        l = lsub(lin(a), lin(b))
        if st.prove(lscale(l, -1)):
            return mklin(w, l)
        if b.k == "c":
            return self.add(st, a, const(w, -cval(b)), w)
        if w <= 32 and st.prove(ladd(l, (1, ()))):
            return mklin(w, ladd(l, (1 << w, ())))        # certainly wraps: a negative difference
        return mk("sub", w, (a, b))

    def mul(self, st, a, b, w):
        if a.k == "c" and b.k == "c":
            return const(w, cval(a) * cval(b))
        if a.k == "c":
            a, b = b, a
        if b.k == "c":
            l = lscale(lin(a), b.a[0])
            if st.lbounds(l)[1] < (1 << w):
                return mklin(w, l)
        else:
            x, y = st.bounds(a), st.bounds(b)
            if x[1] * y[1] < (1 << w):
                if a.id > b.id:
                    a, b = b, a
                return mk("mulx", w, (a, b))
        if a.id > b.id:
            a, b = b, a
        return mk("mul", w, (a, b))

    # ------------------------------------------------------------ memory
    def init_epoch(self, key):
        return "init"

    def split(self, addr):
        """address term -> (key, const offset)"""
        c, f = lin(addr)
        return f, c

    def prov(self, key):
        if len(key) == 1:
            x, k = key[0]
            return x if k == 1 and self.isptr(x) else None
        return ptr_pick(key)

    def key_type(self, key):
        """pointee DI type of the object or array slot"""
        p = self.prov(key)
        if p is None:
            return None
        return (p.meta or {}).get("di")

    def init_cell(self, key, epoch, off, size):
        p = self.prov(key)
        pm = (p.meta or {}) if p is not None else {}
        meta = {}
        di = pm.get("di")
        name = ("*", key, off, size, epoch)
        if di is not None:
            m = self.m.member(di, off % max(self.m.sizeof(di), 1) if len(key) > 1 else off, size)
            if m is None and self.m.sizeof(di) and off >= self.m.sizeof(di):
                m = self.m.member(di, off % self.m.sizeof(di), size)
            if m is None and self.m.di[di]["k"] == "ptr" and size == self.m.sizeof(di):
                m = (None, None, di)
            if m is None and self.m.di[di]["k"] in ("base", "enum"):
                m = (None, None, di)
            if m is not None:
                meta["field"] = (m[0], m[1])
                if self.m.is_ptr(m[2]):
                    meta["ptr"] = True
                    pt = self.m.pointee(m[2])
                    if pt is not None:
                        meta["di"] = pt
                    if pm.get("user") and m[0] is None:
                        meta["user"] = True
                elif self.m.di[m[2]]["k"] == "base" and self.m.di[m[2]]["name"] in ("_Bool", "bool"):
                    meta["range"] = (0, 1)
                elif m[0] == "mpack_builder_page_t" and m[1] == "bytes_used":
                    # established by every store (rule page-used of C02)
                    meta["range"] = (self.m.sizeof(self.m.struct_di(m[0])), self.m.consts["MPACK_BUILDER_PAGE_SIZE"])
        if size * 8 == self.pb and "ptr" not in meta and pm.get("ptrcells"):
            meta["ptr"] = True
        meta["home"] = (key, off, size, epoch)
        t = atom(size * 8, name, None)
        if t.meta is None:
            t.meta = meta
        return t

    def cells_at(self, st, key, off, size):
        o = st.mem.get(key)
        if o is None:
            o = Obj(self.init_epoch(key), {})
        return o

    def read_cells(self, st, key, off, size):
        """value of size bytes; materialises lazily"""
        o = st.mem.get(key)
        if o is None:
            o = Obj(self.init_epoch(key), {})
        c = o.cells.get(off)
        if c is not None and c[0] == size:
            return c[1]
        ov = sorted((a, s, v) for a, (s, v) in o.cells.items() if a < off + size and off < a + s)
        if not ov:
            if isinstance(o.epoch, tuple) and o.epoch[0] == "fill":
                v = const(size * 8, 0)
                for i in range(size):
                    pass
                b = o.epoch[1]
                v = concat([b] * size)
            else:
                v = self.init_cell(key, o.epoch, off, size)
            cells = dict(o.cells)
            cells[off] = (size, v)
            st.mem[key] = Obj(o.epoch, cells)
            return v
        out = []
        pos = off
        for a, s, v in ov:
            if a > pos:
                out.append(self.read_cells(st, key, pos, a - pos))
                pos = a
            lo = pos - a
            n = min(a + s, off + size) - pos
            out.append(extract(v, lo * 8, n * 8))
            pos += n
        if pos < off + size:
            out.append(self.read_cells(st, key, pos, off + size - pos))
        return concat(out)

    def write_cells(self, st, key, off, size, v):
        o = st.mem.get(key)
        if o is None:
            o = Obj(self.init_epoch(key), {})
        cells = dict(o.cells)
        for a, (s, x) in list(cells.items()):
            if a < off + size and off < a + s:
                del cells[a]
                if a < off:
                    cells[a] = (off - a, extract(x, 0, (off - a) * 8))
                if a + s > off + size:
                    k = off + size - a
                    cells[off + size] = (a + s - off - size, extract(x, k * 8, (s - k) * 8))
        cells[off] = (size, v)
        st.mem[key] = Obj(o.epoch, cells)

    def kill_aliases(self, st, key, fr, tag, lo=None, hi=None):
        """a store through `key` may modify other slots of the same object"""
        p = self.prov(key)
        if p is None:
            return
        for k2 in list(st.mem):
            if k2 != key and len(k2) + len(key) > 2 and self.prov(k2) is p:
                if self.parse and k2 == self.parse.gk:
                    self.parse.materialise(st)
                o2 = st.mem[k2]
                if not o2.cells and False:
                    continue
                # provably disjoint: distinct symbolic slots
                if lo is not None:
                    d = lsub((0, key), (0, k2))
                    keep = {}
                    ok = True
                    for a, (s, v) in o2.cells.items():
                        # [key+lo,key+hi) vs [k2+a, k2+a+s)
                        if st.prove(ladd(lscale(d, 1), (hi - a, ()))) or st.prove(ladd(lscale(d, -1), (a + s - lo, ()))):
                            keep[a] = (s, v)
                        else:
                            ok = False
                    if ok and o2.cells:
                        # conservatively keep epoch only if everything known is disjoint and object slots are small
                        continue
                    st.mem[k2] = Obj(self.new_epoch(fr, (tag, k2)), keep)
                else:
                    st.mem[k2] = Obj(self.new_epoch(fr, (tag, k2)), {})

    def new_epoch(self, fr, tag):
        e = ("h", fr.ctx, tag)
        self.epoch_birth[e] = self.birth(fr)
        return e

    def havoc_obj(self, st, key, fr, tag):
        st.mem[key] = Obj(self.new_epoch(fr, tag), {})

    def havoc_region(self, st, addr, ln, fr, tag):
        """contents of [addr, addr+len) become unknown"""
        key, off = self.split(addr)
        n = st.norm(ln)
        p = self.prov(key)
        if n.k == "c" and n.a[0] <= 64:
            if n.a[0] == 0:
                return
            v = self.new_atom(fr, n.a[0] * 8, ("hv", tag))
            self.write_cells(st, key, off, n.a[0], v)
            self.kill_aliases(st, key, fr, tag, off, off + n.a[0])
            return
        # keep cells of this key that lie provably outside
        o = st.mem.get(key)
        keep = {}
        if o is not None:
            L = lin(ln)
            for a, (s, v) in o.cells.items():
                if a + s <= off or st.prove(ladd(L, (off - a, ()))):
                    keep[a] = (s, v)
        st.mem[key] = Obj(self.new_epoch(fr, tag), keep)
        if p is not None:
            for k2 in list(st.mem):
                if k2 != key and self.prov(k2) is p:
                    o2 = st.mem[k2]
                    keep = {}
                    d = lsub((0, key), (0, k2))
                    for a, (s, v) in o2.cells.items():
                        if st.prove(ladd(ladd(d, (off - a, ())), lin(ln))) or st.prove(ladd(lscale(d, -1), (a + s - off, ()))):
                            keep[a] = (s, v)
                    st.mem[k2] = Obj(self.new_epoch(fr, (tag, k2)), keep)

    def load(self, st, addr, size, fr, ins):
        key, off = self.split(addr)
        g = self.global_init(st, key, off, size)
        if g is not None:
            return g
        return self.read_cells(st, key, off, size)

    def global_init(self, st, key, off, size):
        if len(key) != 1 or key[0][0].k != "g":
            return None
        g = self.m.globals.get(key[0][0].a[0])
        if not g or not g["const"]:
            return None
        if "str" in g and off >= 0:
            b = bytes.fromhex(g["str"])
            if off + size <= len(b):
                return const(size * 8, int.from_bytes(b[off:off + size], "little"))
        return None

    def store(self, st, addr, size, v, fr, ins):
        key, off = self.split(addr)
        self.write_cells(st, key, off, size, v)
        self.kill_aliases(st, key, fr, ("st", ins.get("id")), off, off + size)

    def load_ty(self, st, addr, ty, fr, ins):
        if isinstance(ty, dict) and ty["k"] == "struct":
            return tuple(self.load_ty(st, self.off(addr, o), t, fr, ins) for o, t in ty["fields"])
        if isinstance(ty, dict) and ty["k"] == "array":
            es = ty["size"] // max(ty["n"], 1)
            return tuple(self.load_ty(st, self.off(addr, i * es), ty["elem"], fr, ins) for i in range(ty["n"]))
        w = self.width(ty)
        v = self.load(st, addr, (w + 7) // 8, fr, ins)
        if w == 1:
            v = extract(v, 0, 1)
        if ty == "ptr" and v.k == "a" and v.meta is not None and not v.meta.get("ptr"):
            v.meta["ptr"] = True
        return v

    def store_ty(self, st, addr, ty, v, fr, ins):
        if isinstance(v, tuple):
            if ty["k"] == "struct":
                for (o, t), x in zip(ty["fields"], v):
                    self.store_ty(st, self.off(addr, o), t, x, fr, ins)
            else:
                es = ty["size"] // max(ty["n"], 1)
                for i, x in enumerate(v):
                    self.store_ty(st, self.off(addr, i * es), ty["elem"], x, fr, ins)
            return
        if v is None:
            return
        w = self.width(ty)
        if w == 1:
            v = zext(v, 8)
        self.store(st, addr, (w + 7) // 8, v, fr, ins)

    def off(self, addr, o):
        if o == 0:
            return addr
        return mklin(self.pb, ladd(lin(addr), (o, ())))

    def width(self, ty):
        if ty == "ptr":
            return self.pb
        if ty == "float":
            return 32
        if ty == "double":
            return 64
        if isinstance(ty, str) and ty[0] == "i":
            return int(ty[1:])
        raise AnalysisError("type %r" % (ty,))

    def undef(self, ty, fr, tag):
        if isinstance(ty, dict):
            if ty["k"] == "struct":
                return tuple(self.undef(t, fr, (tag, i)) for i, (o, t) in enumerate(ty["fields"]))
            return tuple(self.undef(ty["elem"], fr, (tag, i)) for i in range(ty["n"]))
        if ty == "void":
            return None
        t = self.new_atom(fr, self.width(ty), ("undef", tag), undef=True)
        return t

    # ------------------------------------------------------------ operands
    def gref(self, name):
        if name in self.m.fns or name in self.m.decls:
            return mk("fn", self.pb, (name,), {"fn": name})
        g = self.m.globals.get(name)
        return mk("g", self.pb, (name,), {"ptr": True})

    def val(self, st, o, fr, ty=None):
        k = o[0]
        if k == "r":
            v = st.regs.get(o[1])
            if v is None:
                ins = fr.fn.insts.get(o[1])
                if ins is not None:
                    v = self.undef(ins["ty"], fr, ("lost", o[1]))
                else:
                    raise AnalysisError("missing reg %s in %s" % (o[1], fr.fn.name))
            return v
        if k == "c":
            return const(o[1], int(o[2]))
        if k == "null":
            return const(self.pb, 0)
        if k in ("fn", "g"):
            return self.gref(o[1])
        if k == "f":
            return const(o[1], int(o[2]))
        if k == "undef":
            return self.undef(o[1], fr, "u")
        if k == "cgep":
            return self.gepval(st, o[1], fr)
        if k == "agg":
            return tuple(self.val(st, x, fr) for x in o[1])
        if k == "zero":
            return self.zero(o[1])
        raise AnalysisError("operand %r" % (o,))

    def zero(self, ty):
        if isinstance(ty, dict):
            if ty["k"] == "struct":
                return tuple(self.zero(t) for _, t in ty["fields"])
            return tuple(self.zero(ty["elem"]) for _ in range(ty["n"]))
        return const(self.width(ty), 0)

    def gepval(self, st, g, fr):
        base = self.val(st, g["base"], fr)
        l = ladd(lin(base), (g["off"], ()))
        for vo, sc in g["var"]:
            v = self.val(st, vo, fr)
            # index is sign-extended to pointer width
            if v.w < self.pb:
                v = sext(v, self.pb)
            if v.k == "c":
                l = ladd(l, (scval(v) * sc, ()))
                continue
            lv = lin(v)
            if v.k == "sub":
                # difference of two values used as index: exact (pointer arithmetic must stay in bounds)
                l = ladd(l, lsub(lin(v.a[0]), lin(v.a[1])), sc)
                continue
            l = ladd(l, lv, sc)
        return mklin(self.pb, l)

    # ------------------------------------------------------------ function analysis
    def partkey(self, st, fn, blk):
        key = []
        if blk is not None:
            hdr = blk in fn.headers
            for ins in fn.blocks[blk]:
                if ins["op"] != "phi":
                    if ins["op"] == "dbg":
                        continue
                    break
                v = st.regs.get(ins["id"])
                if v is None or isinstance(v, tuple):
                    key.append(None)
                    continue
                v = st.norm(v)
                if v.w == self.pb and ins["ty"] == "ptr":
                    b = st.bounds(v)
                    key.append(0 if b[1] == 0 else 1 if b[0] > 0 else 2)
                elif v.k == "c" and (not hdr or v.w == 1):
                    key.append(v.a[0])
                else:
                    key.append("*")
            if not hdr and fn.npred[blk] == 1:
                # forked outcomes of a call stay apart until control flow merges them
                for r in fn.callres:
                    v = st.regs.get(r)
                    if v is not None and not isinstance(v, tuple):
                        v = st.norm(v)
                        key.append(v.a[0] if v.k == "c" else "*")
        for kf, off, size in self.tracked:
            o = st.mem.get(kf)
            c = o.cells.get(off) if o is not None else None
            if c is None:
                key.append("-")
            else:
                b = st.bounds(c[1])
                key.append(0 if b[1] == 0 else 1 if b[0] > 0 else 2)
        for kf, off, size in self.exact:
            o = st.mem.get(kf)
            c = o.cells.get(off) if o is not None else None
            v = st.norm(c[1]) if c is not None else st.norm(self.init_cell(kf, self.init_epoch(kf), off, size)) if o is None else None
            key.append(v.a[0] if v is not None and v.k == "c" else "-")
        if self.keyfn:
            key.append(self.keyfn(self, st, fn, blk))
        key.append(tuple(sorted(((k.id if isinstance(k, T) else -1, str(k) if not isinstance(k, T) else "", v) for k, v in st.ts.items()), key=str)))
        return tuple(key)

    def join_ts(self, k, a, b):
        return a if a == b else None

    def run(self, fn, args, st, fr=None, callins=None, callblk=0):
        """analyse fn from state st; returns list of (retval, state)"""
        if fr is None:
            nf = Frame(fn, (), 0, (fn.name,))
        else:
            nf = Frame(fn, fr.ctx + ((callblk, callins, fn.name),), fr.depth + 1, fr.stack + (fn.name,))
        self.functions.add(fn.name)
        self.stats["calls"] += 1
        st = st.copy()
        saved = st.regs
        st.regs = {}
        for i, a in enumerate(args):
            st.regs[i] = a
        inst = {0: {(): st}}
        count = {}
        wl = []
        inq = set()

        def push(b, k):
            if (b, k) not in inq:
                inq.add((b, k))
                heapq.heappush(wl, (fn.rpo[b], b, str(k), k))
        push(0, ())
        rets = {}
        outer = self.buf
        bufs = {}
        self_dirty = set()

        def flush(h):
            # the body is analysed afresh from the weaker head
            self_dirty.discard(h)
            for x in fn.headers[h]:
                if x != h:
                    inst.pop(x, None)
                    for ck in [c for c in count if c[0] == x]:
                        del count[ck]
            for k2 in inst[h]:
                push(h, k2)
        push.dirty = self_dirty
        try:
            while wl or self_dirty:
                if self_dirty:
                    nb = wl[0][1] if wl else None
                    out = [h for h in self_dirty if nb is None or nb not in fn.headers[h]]
                    if out:
                        flush(min(out, key=lambda h: (len(fn.headers[h]), h)))
                        continue
                _, b, _, k = heapq.heappop(wl)
                inq.discard((b, k))
                s = inst.get(b, {}).get(k)
                if s is None:
                    continue
                nf.blk = b
                outs = []
                for d in rets.values():
                    for q in [q for q in d if q[0] == b and q[1] == k]:
                        del d[q]
                self.stats["blocks"] += 1
                s = s.copy()
                self.buf = bufs[(b, k)] = []
                try:
                    outs = self.block(s, b, nf)
                except Infeasible:
                    outs = []
                for (tgt, s2, rv) in outs:
                    if tgt is None:
                        # return
                        self.models.rehome(self, s2)
                        s2.regs = {"ret": rv} if rv is not None else {}
                        self.drop_frame(s2, nf)
                        if nf.depth:
                            self.escaped(s2)
                        rk = self.retkey(s2, rv)
                        d = rets.setdefault(rk, {})
                        d[(b, k, len(d))] = s2
                        continue
                    self.flow(fn, nf, b, tgt, s2, inst, count, push)
        except AnalysisError:
            # what was reported so far stands
            for l in bufs.values():
                outer.extend(l)
            self.buf = outer
            raise
        for (b, k), l in bufs.items():
            if k in inst.get(b, ()):
                outer.extend(l)
        self.buf = outer
        res = []
        for rk, d in rets.items():
            ss = [x for (b, k, _), x in d.items() if k in inst.get(b, ())]
            if not ss:
                continue
            acc = ss[0]
            for x in ss[1:]:
                self.stats["joins"] += 1
                acc = join_states(acc, x, (fn.name, nf.ctx, "ret", len(str(rk)), str(rk)), False, (nf.ctx, -1, fn))
            rv = acc.regs.get("ret")
            if rv is None and fn.ret != "void":
                rv = self.undef(fn.ret, nf, "retlost")
            acc.regs = saved
            res.append((rv, acc))
        return res

    def retkey(self, st, rv):
        k = []
        vs = rv if isinstance(rv, tuple) else (rv,)
        for v in vs:
            if v is None or isinstance(v, tuple):
                continue
            v = st.norm(v)
            b = st.bounds(v)
            if v.k == "c" and v.a[0] < 256:
                k.append(v.a[0])
            else:
                k.append("n" if b[0] > 0 else "*")
        return (tuple(k),) + self.partkey(st, None, None)

    def escaped(self, st):
        """blocks an object or the caller's memory now refers to belong to it; C14's rule on overwritten owner fields
        and on destruction takes over from the typestate"""
        own = [k for k, v in st.ts.items() if v in ("owned", "open") and isinstance(k, T)]
        if not own:
            return
        roots = set()
        pend = list(st.mem.items())
        done = False
        while not done:
            done = True
            rest = []
            for k, o in pend:
                b = k[0][0] if len(k) == 1 else None
                if b is not None and (b.meta or {}).get("alloca") or b in own and b not in roots:
                    rest.append((k, o))
                    continue
                for sz, v in o.cells.values():
                    if v in own and v not in roots:
                        roots.add(v)
                        done = False
            pend = rest
        for k in roots:
            del st.ts[k]

    def drop_frame(self, st, nf):
        st.ts.pop(("fill", nf.ctx), None)
        if not nf.allocas:
            return
        al = set(nf.allocas)
        for key in list(st.mem):
            for x, _ in key:
                if x in al:
                    del st.mem[key]
                    break

    def flow(self, fn, nf, b, tgt, s, inst, count, push):
        """edge b->tgt: phis, liveness, partition, join"""
        vals = {}
        for ins in fn.blocks[tgt]:
            if ins["op"] != "phi":
                if ins["op"] == "dbg":
                    continue
                break
            for p, o in ins["in"]:
                if p == b:
                    try:
                        vals[ins["id"]] = self.val(s, o, nf)
                    except AnalysisError:
                        vals[ins["id"]] = self.undef(ins["ty"], nf, ins["id"])
                    break
        live = fn.livein[tgt]
        s.regs = {r: v for r, v in s.regs.items() if r in live}
        s.regs.update(vals)
        header = tgt in fn.headers
        back = (b, tgt) in fn.back
        birth = (nf.ctx, tgt, fn)
        d = inst.setdefault(tgt, {})
        peeled = False
        if back and self.peel:
            # the first rounds of a loop are kept apart (for inputs so concrete that it ends within them)
            i = s.ts.get(("peel", nf.ctx, tgt), 0)
            if i < self.peel:
                s = self.age(s, nf.ctx, fn.headers[tgt], "#%d" % i)
                s.ts[("peel", nf.ctx, tgt)] = i + 1
                peeled = True
        if back and not peeled:
            # values computed inside the loop belong to the previous iteration from here on
            s = self.age(s, nf.ctx, fn.headers[tgt])
            self.drop_aged(s)
            self.escaped(s)
        if "freed" in s.ts.values() and (header or fn.npred[tgt] > 1):
            live_atoms(s)
        key = self.partkey(s, fn, tgt)
        if len(d) >= self.MAXPART and key not in d:
            key = ("over",)
        old = d.get(key)
        if header or old is not None:
            self.models.rehome(self, s)
        point = (fn.name, nf.ctx, tgt, key)
        if old is None:
            if back and not peeled:
                # self join against an aged copy removes loop-local names
                s2 = self.age(s, nf.ctx, fn.headers[tgt], "#b")
                s = join_states(s, s2, point, False, birth)
                self.prune_aged(s)
            d[key] = s
            count[(tgt, key)] = 0
            if back and not peeled:
                push.dirty.add(tgt)
            else:
                push(tgt, key)
            return
        self.stats["joins"] += 1
        c = count.get((tgt, key), 0)
        w = 0
        if header and back:
            w = 0 if c < 2 else (1 if c < 3 else 2 if c < 4 else 3 if c < 12 else 4)
            count[(tgt, key)] = c + 1
            if c > 25:
                raise AnalysisError("no fixpoint in %s block %d" % (fn.name, tgt))
        n = join_states(old, s, point, header, birth, w)
        if back:
            self.prune_aged(n)
        if not same_state(n, old):
            d[key] = n
            if back:
                push.dirty.add(tgt)
            else:
                push(tgt, key)

    def age(self, s, ctx, body, suffix="#o"):
        m = {}
        seen = set()

        def scan(t):
            for a in atoms_of(t):
                if a not in seen:
                    seen.add(a)
                    if self.in_loop(a, ctx, body):
                        meta = dict(a.meta or {})
                        n = atom(a.w, (a.a[0], suffix), None)
                        if n.meta is None:
                            n.meta = meta
                        m[a] = n
        for v in s.regs.values():
            for t in (v if isinstance(v, tuple) else (v,)):
                if t is not None and not isinstance(t, tuple):
                    scan(t)
        for k, o in s.mem.items():
            for x, _ in k:
                scan(x)
            for sz, v in o.cells.values():
                scan(v)
        for dct in (s.u, s.s, s.ne):
            for t in dct:
                scan(t)
        for f in s.lf:
            for x, _ in f:
                scan(x)
        for k in s.ts:
            if isinstance(k, T):
                scan(k)
        for w in s.wins.values():
            for t in w[1:]:
                if isinstance(t, T):
                    scan(t)
        if not m:
            return s
        return s.rename(m)

    def prune_aged(self, n):
        prune(n)

    def drop_aged(self, s):
        """forget contents of memory named by values of earlier iterations that nothing refers to any more"""
        aged = [k for k in s.mem if any(isaged(a) for x, _ in k for a in atoms_of(x))]
        if not aged:
            return
        while True:
            live = set()
            for v in s.regs.values():
                for t in (v if isinstance(v, tuple) else (v,)):
                    if isinstance(t, T):
                        live |= atoms_of(t)
            for k, o in s.mem.items():
                for sz, v in o.cells.values():
                    live |= atoms_of(v)
            for w in s.wins.values():
                for t in w[1:]:
                    if isinstance(t, T):
                        live |= atoms_of(t)
            for k in s.ts:
                if isinstance(k, T):
                    live |= atoms_of(k)
            dead = [k for k in aged if k in s.mem and not any(isaged(a) and a in live for x, _ in k for a in atoms_of(x))]
            if not dead:
                break
            for k in dead:
                del s.mem[k]

    def block(self, st, b, fr):
        """execute block b on st; returns [(target or None, state, retval)]"""
        fn = fr.fn
        states = [st]
        blk = fn.blocks[b]
        start = 0
        for idx in range(len(blk)):
            ins = blk[idx]
            op = ins["op"]
            if op in ("phi", "dbg"):
                if op == "dbg" and ins.get("decl") is False and "v" in ins and ins["v"][0] == "r":
                    self.note_dbg(states, ins, fr)
                elif op == "dbg" and ins.get("decl"):
                    self.note_dbg_decl(states, ins, fr)
                continue
            if op in ("br", "switch", "ret", "unreachable"):
                break
            nxt = []
            for s in states:
                try:
                    nxt.extend(self.inst(s, ins, fr))
                except Infeasible:
                    pass
            states = nxt
            if len(states) > 64:
                raise AnalysisError("state explosion in %s" % fn.name)
            if not states:
                return []
        out = []
        t = blk[-1]
        for s in states:
            self.stats["insts"] += len(blk)
            if self.stats["insts"] > self.limit:
                raise AnalysisError("analysis budget exceeded in %s" % self.root)
            if t["op"] == "ret":
                rv = self.val(s, t["ops"][0], fr) if t["ops"] else None
                out.append((None, s, rv))
            elif t["op"] == "unreachable":
                self.ev("unreachable", s, fr, t)
            elif t["op"] == "br":
                if "cond" not in t:
                    out.append((t["t"], s, None))
                else:
                    c = self.val(s, t["cond"], fr)
                    d = s.decide(c)
                    self.ev("branch", s, c, fr, t, d)
                    for tgt, tr in ((t["t"], True), (t["f"], False)):
                        if d is not None and d != tr:
                            continue
                        s2 = s.copy()
                        try:
                            s2.assume(c, tr)
                        except Infeasible:
                            continue
                        self.ev("assumed", s2, c, tr, fr, t)
                        out.append((tgt, s2, None))
            else:
                c = self.val(s, t["cond"], fr)
                out.extend(self.switch(s, c, t, fr))
        return out

    def switch(self, s, c, t, fr=None):
        self.ev("switch", s, c, fr, t)
        out = []
        bydest = {}
        for v, d in t["cases"]:
            bydest.setdefault(d, []).append(int(v) & ((1 << c.w) - 1))
        cn = s.norm(c)
        allv = []
        for d, vs in bydest.items():
            vs.sort()
            allv += vs
            runs = []
            for v in vs:
                if runs and runs[-1][1] + 1 == v:
                    runs[-1][1] = v
                else:
                    runs.append([v, v])
            for lo, hi in runs:
                s2 = s.copy()
                try:
                    if lo == hi:
                        s2.assume_cmp("eq", c, const(c.w, lo))
                    else:
                        s2.set_u(c, lo, hi)
                except Infeasible:
                    continue
                out.append((d, s2, None))
        s2 = s.copy()
        try:
            allv.sort()
            cov = set(allv)
            b = s2.bounds(c)
            if b[1] - b[0] < 1024:
                rest = [v for v in range(b[0], b[1] + 1) if v not in cov and v not in s2.ne.get(c, ())]
                if not rest:
                    return out
                runs = []
                for v in rest:
                    if runs and runs[-1][1] + 1 == v:
                        runs[-1][1] = v
                    else:
                        runs.append([v, v])
                if len(runs) <= 3:
                    for lo, hi in runs:
                        s3 = s2.copy()
                        try:
                            s3.set_u(c, lo, hi)
                        except Infeasible:
                            continue
                        if lo == hi:
                            self.ev("default", s3, lo, fr, t)
                        out.append((t["def"], s3, None))
                    return out
            for v in allv:
                s2.assume_cmp("ne", c, const(c.w, v))
            out.append((t["def"], s2, None))
        except Infeasible:
            pass
        return out

    def note_dbg(self, states, ins, fr):
        """typed pointer information from the source variable"""
        di = ins["di"]
        pt = self.m.pointee(di)
        if pt is None or pt < 0:
            return
        for s in states:
            v = s.regs.get(ins["v"][1])
            if v is not None and not isinstance(v, tuple) and v.k == "a" and v.meta is not None:
                if v.meta.get("ptr") and "di" not in v.meta or v.meta.get("heap") and self.m.di[v.meta.get("di", pt)]["k"] == "base":
                    v.meta["di"] = pt
                    v.meta["ptr"] = True

    def note_dbg_decl(self, states, ins, fr):
        if "v" not in ins or ins["v"][0] != "r":
            return
        di = self.m.strip(ins["di"])
        if di is None or di < 0:
            return
        for s in states:
            v = s.regs.get(ins["v"][1])
            if v is not None and not isinstance(v, tuple) and v.k == "a" and v.meta is not None and "di" not in v.meta:
                v.meta["di"] = di

    # ------------------------------------------------------------ instructions
    def inst(self, st, ins, fr):
        op = ins["op"]
        if op == "call":
            return self.call(st, ins, fr)
        r = None
        if op == "alloca":
            t = atom(self.pb, ("alloca", fr.fn.name, ins["id"], fr.ctx), None)
            if t.meta is None:
                t.meta = {"ptr": True, "alloca": True, "range": (4096, (1 << self.pb) - 65536), "birth": self.birth(fr),
                          "size": ins["asize"], "where": fr.fn.where(ins), "ptrcells": False}
            key = ((t, 1),)
            ep = ("a", fr.ctx, ins["id"])
            self.epoch_birth[ep] = self.birth(fr)
            st.mem[key] = Obj(ep, {})
            if t not in fr.allocas:
                fr.allocas.append(t)
            r = t
        elif op == "load":
            addr = self.val(st, ins["ops"][0], fr)
            self.access(st, addr, const(self.pb, ins["size"]), "r", fr, ins)
            r = self.load_ty(st, addr, ins["ty"], fr, ins)
            self.models.loaded(self, st, addr, ins["size"], r, fr, ins)
            self.ev("load", st, addr, ins["size"], r, fr, ins)
        elif op == "store":
            v = self.val(st, ins["ops"][0], fr)
            addr = self.val(st, ins["ops"][1], fr)
            self.access(st, addr, const(self.pb, ins["size"]), "w", fr, ins)
            self.ev("store", st, addr, ins["size"], v, fr, ins)
            self.store_ty(st, addr, ins["vty"], v, fr, ins)
            return [st]
        elif op == "getelementptr":
            r = self.gepval(st, ins["gep"], fr)
            if r.k == "lin" or r.k == "a":
                self.ev("gep", st, r, fr, ins)
        elif op in ("add", "sub", "mul", "and", "or", "xor", "shl", "lshr", "ashr", "udiv", "urem", "sdiv", "srem"):
            a, b = (self.val(st, o, fr) for o in ins["ops"])
            a, b = st.norm(a), st.norm(b)
            r = self.arith(st, op, a, b, self.width(ins["ty"]), fr, ins)
            self.ev("arith", st, op, a, b, r, fr, ins)
        elif op in ("zext", "sext", "trunc", "ptrtoint", "inttoptr", "bitcast", "freeze", "addrspacecast"):
            a = self.val(st, ins["ops"][0], fr)
            if isinstance(a, tuple):
                r = a
            else:
                w = self.width(ins["ty"])
                if op in ("zext", "sext", "trunc"):
                    a = st.norm(a)
                if op == "zext" or op == "ptrtoint" and w > a.w:
                    r = zext(a, w)
                elif op == "sext":
                    if a.w > 1 and st.sbounds(a)[0] >= 0:
                        r = zext(a, w)
                    elif a.w > 1 and st.sbounds(a)[1] < 0:
                        r = mklin(w, ladd(lin(a), ((1 << w) - (1 << a.w), ())))
                    else:
                        r = sext(a, w)
                elif op == "trunc" or w < a.w:
                    self.ev("trunc", st, a, w, fr, ins)
                    r = extract(a, 0, w)
                    if r.k == "ext" and st.bounds(a)[1] < (1 << w):
                        r = mklin(w, lin(a)) if a.k != "lin" else mk("lin", w, a.a)
                        if r.w != w:
                            r = mk("lin", w, lin(a))
                    elif r.k == "ext":
                        b = st.bounds(a)
                        if b[0] >> w == b[1] >> w:
                            r = mklin(w, ladd(lin(a), (-(b[0] >> w << w), ())))
                            if r.w != w:
                                r = mk("lin", w, lin(r))
                else:
                    r = a
                    if op == "inttoptr" and r.k == "a" and r.meta is not None:
                        r.meta["ptr"] = True
        elif op == "icmp":
            a, b = (self.val(st, o, fr) for o in ins["ops"])
            r = icmp(ins["pred"], st.norm(a), st.norm(b))
        elif op == "fcmp":
            a, b = (self.val(st, o, fr) for o in ins["ops"])
            r = mk("fcmp", 1, (ins["pred"], a, b))
        elif op in ("fptrunc", "fpext", "uitofp", "sitofp", "fptoui", "fptosi", "fadd", "fsub", "fmul", "fdiv", "fneg"):
            xs = tuple(self.val(st, o, fr) for o in ins["ops"])
            r = mk(op, self.width(ins["ty"]), xs)
        elif op == "select":
            c, a, b = (self.val(st, o, fr) for o in ins["ops"])
            d = st.decide(c)
            if d is True:
                r = a
            elif d is False:
                r = b
            else:
                out = []
                for tr, v in ((True, a), (False, b)):
                    s2 = st.copy()
                    try:
                        s2.assume(c, tr)
                    except Infeasible:
                        continue
                    s2.regs[ins["id"]] = v
                    out.append(s2)
                return out
        elif op == "extractvalue":
            v = self.val(st, ins["ops"][0], fr)
            for i in ins["idx"]:
                v = v[i]
            r = v
        elif op == "insertvalue":
            v, x = (self.val(st, o, fr) for o in ins["ops"])
            r = self.insertv(v, ins["idx"], x)
        else:
            raise AnalysisError("opcode %s in %s" % (op, fr.fn.name))
        st.regs[ins["id"]] = r
        return [st]

    def insertv(self, v, idx, x):
        l = list(v)
        l[idx[0]] = x if len(idx) == 1 else self.insertv(l[idx[0]], idx[1:], x)
        return tuple(l)

    def arith(self, st, op, a, b, w, fr, ins):
        if op == "add":
            return self.add(st, a, b, w)
        if op == "sub":
            return self.sub(st, a, b, w)
        if op == "mul":
            return self.mul(st, a, b, w)
        if op == "and":
            if w == 1:
                if a.k == "c":
                    return b if a.a[0] else a
                if b.k == "c":
                    return a if b.a[0] else b
                return mk("and", 1, (a, b))
            if a.k == "c":
                a, b = b, a
            if b.k == "c":
                return andmask(a, b.a[0])
            return mk("and", w, (a, b) if a.id < b.id else (b, a))
        if op == "or":
            if w == 1:
                if a.k == "c":
                    return a if a.a[0] else b
                if b.k == "c":
                    return b if b.a[0] else a
                return mk("or", 1, (a, b))
            m = bitmerge(a, b)
            if m is not None:
                return m
            return mk("or", w, (a, b) if a.id < b.id else (b, a))
        if op == "xor":
            if a.k == "c":
                a, b = b, a
            if w == 1 and b.k == "c":
                return mknot(a) if b.a[0] else a
            if a.k == "c" and b.k == "c":
                return const(w, a.a[0] ^ b.a[0])
            return mk("xor", w, (a, b))
        if op in ("shl", "lshr", "ashr") and b.k == "c":
            n = b.a[0]
            if n >= w:
                return self.undef("i%d" % w, fr, ins.get("id"))
            if n == 0:
                return a
            if op == "shl":
                return concat([const(n, 0), extract(a, 0, w - n)])
            if op == "lshr":
                return concat([extract(a, n, w - n), const(n, 0)])
            return sext(extract(a, n, w - n), w)
        if op in ("udiv", "urem") and b.k == "c" and b.a[0] and b.a[0] & (b.a[0] - 1) == 0:
            n = b.a[0].bit_length() - 1
            if n == 0:
                return a if op == "udiv" else const(w, 0)
            if op == "udiv":
                return concat([extract(a, n, w - n), const(n, 0)])
            return zext(extract(a, 0, n), w)
        if op in ("udiv", "urem") and a.k == "c" and b.k == "c" and b.a[0]:
            return const(w, a.a[0] // b.a[0] if op == "udiv" else a.a[0] % b.a[0])
        return mk(op, w, (a, b))

    # ------------------------------------------------------------ calls
    def access(self, st, addr, ln, mode, fr, ins):
        self.ev("access", st, addr, ln, mode, fr, ins)

    def call(self, st, ins, fr):
        callee = ins["callee"]
        args = [self.val(st, o, fr) for o in ins["args"]]
        if callee[0] == "r":
            f = st.norm(st.regs[callee[1]])
        elif callee[0] in ("fn", "g"):
            f = self.gref(callee[1])
        else:
            f = self.val(st, callee, fr)
        # byval arguments are copied
        for i, at in enumerate(ins["attrs"]):
            if "byval" in at:
                sz = at["byval"]["size"]
                cp = atom(self.pb, ("byval", fr.fn.name, ins["id"], i, fr.ctx), None)
                if cp.meta is None:
                    cp.meta = {"ptr": True, "alloca": True, "range": (4096, (1 << self.pb) - 65536), "birth": self.birth(fr), "size": sz,
                               "where": fr.fn.where(ins)}
                    p = args[i]
                    if p.k == "a" and p.meta and "di" in p.meta:
                        cp.meta["di"] = p.meta["di"]
                st.mem[((cp, 1),)] = Obj(("a", fr.ctx, ("bv", ins["id"], i)), {})
                self.copy_mem(st, cp, args[i], sz, fr, ins)
                args[i] = cp
                if cp not in fr.allocas:
                    fr.allocas.append(cp)
        if f.k == "fn":
            name = f.a[0]
            r = self.models.direct(self, st, name, args, fr, ins)
            if r is None:
                fn = self.m.fns.get(name)
                if fn is None:
                    raise AnalysisError("unmodelled external %s" % name)
                self.ev("call", st, name, args, fr, ins)
                if self.parse and self.parse.cut(st, args, fr, ins):
                    r = []
                elif name in fr.stack:
                    r = self.models.recursive(self, st, fn, args, fr, ins)
                else:
                    keep = set()
                    for v in st.regs.values():
                        for t in (v if isinstance(v, tuple) else (v,)):
                            if t is not None and not isinstance(t, tuple):
                                keep |= atoms_of(t)
                    self.keepstack.append(keep)
                    b = fr.blk
                    r = self.run(fn, args, st, fr, ins["id"], fr.blk)
                    fr.blk = b
                    self.keepstack.pop()
                    if self.split_result and name in self.split_result:
                        r = self.split_zero(r)
                    for rv, s in r:
                        self.ev("returned", s, name, args, rv, fr, ins)
        else:
            r = self.models.indirect(self, st, f, args, fr, ins)
        out = []
        for rv, s in r:
            if s is not st and s.regs is not st.regs and not s.regs:
                s.regs = dict(st.regs)
            if ins["ty"] != "void":
                if rv is None:
                    rv = self.undef(ins["ty"], fr, ins["id"])
                s.regs = dict(s.regs)
                s.regs[ins["id"]] = rv
            out.append(s)
        return out

    def split_zero(self, r):
        out = []
        for rv, s in r:
            if not isinstance(rv, T) or s.bounds(rv)[0] > 0 or s.bounds(rv)[1] == 0:
                out.append((rv, s))
                continue
            for op in ("eq", "ne"):
                s2 = s.copy()
                try:
                    s2.assume_cmp(op, rv, const(rv.w, 0))
                except Infeasible:
                    continue
                out.append((rv, s2))
        return out

    def copy_mem(self, st, dst, src, n, fr, ins):
        """copy n (int) bytes cell by cell"""
        sk, so = self.split(src)
        dk, do = self.split(dst)
        o = st.mem.get(sk)
        cells = []
        pos = 0
        # keep source granularity
        if o is not None:
            bounds = sorted((a - so, s) for a, (s, _) in o.cells.items() if a >= so and a + s <= so + n)
        else:
            bounds = []
        gl = len(sk) == 1 and sk[0][0].k == "g"
        for a, s in bounds:
            if a < pos:
                continue
            if a > pos:
                cells.append((pos, a - pos))
            cells.append((a, s))
            pos = a + s
        if pos < n:
            cells.append((pos, n - pos))
        ep = o.epoch if o is not None else self.init_epoch(sk)
        vals = []
        for a, s in cells:
            if gl:
                v = self.global_init(st, sk, so + a, s)
                if v is None:
                    v = self.read_cells(st, sk, so + a, s)
                vals.append((a, s, v))
                continue
            have = o is not None and (so + a) in o.cells and o.cells[so + a][0] == s
            if not have and s > 8:
                # unknown gap: split in pointer-sized chunks following the type if known
                for a2, s2 in self.chunks(sk, so + a, s):
                    vals.append((a + a2, s2, self.read_cells(st, sk, so + a + a2, s2)))
            else:
                vals.append((a, s, self.read_cells(st, sk, so + a, s)))
        for a, s, v in vals:
            self.write_cells(st, dk, do + a, s, v)
        self.kill_aliases(st, dk, fr, ("cp", ins.get("id")), do, do + n)

    def chunks(self, key, off, n):
        di = self.key_type(key)
        out = []
        if di is not None:
            flat = self.flat(di)
            pos = 0
            for o, s in flat:
                if o < off or o + s > off + n:
                    continue
                if o - off < pos:
                    continue
                if o - off > pos:
                    out.append((pos, o - off - pos))
                out.append((o - off, s))
                pos = o - off + s
            if out:
                if pos < n:
                    out.append((pos, n - pos))
                return out
        pos = 0
        w = self.pb // 8
        while pos < n:
            s = min(w, n - pos)
            out.append((pos, s))
            pos += s
        return out

    def flat(self, di, base=0):
        di = self.m.strip(di)
        d = self.m.di[di]
        if d["k"] == "struct":
            out = []
            for n, o, t, s in d["els"]:
                out += self.flat(t, base + o)
            return out
        if d["k"] == "union":
            return [(base, d["size"])] if d["size"] <= 8 else []
        if d["k"] == "array":
            return []
        return [(base, d["size"])] if d["size"] else []
