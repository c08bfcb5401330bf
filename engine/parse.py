"""The invariant of the tree parser, carried through joins.

While a message is being parsed (parser.state is in progress and there is no error):
  data_length = size + possible_nodes_left + G     where G is the number of children still to be parsed in all open levels
  level < stack_capacity, the stack has stack_capacity slots
  nodes points to nodes_left unused nodes
  each open level's child points to (at least) left nodes
  data points to data_length bytes; buffer, if any, has buffer_capacity bytes
G is not a variable of the program.  It follows the stores to the stack's slots: counting a slot down by one completes a
node (the children pushed for that node join the sum at that moment); any other store opens a level."""
from terms import *
from domain import Obj, ASTEPS, Infeasible
from models import Fields, TREE, NODEDATA, TOPPAD
from bounds import inside

# ghost fields, all of pointer width, in front of the tree
GHOST = -64     # G
PEND = -56      # children pushed for the node being parsed
NODEP = -48     # the node being parsed
# what must be as it was when the last node was complete, if parsing stops in the middle of the next one
RESUME = {"size": -40, "parser.nodes": -32, "parser.nodes_left": -24, "node_count": -16}


STORES = ("pages", "pool")      # where the nodes are kept


class Parse:
    def __init__(self, eng, obj):
        self.e, self.obj = eng, obj
        self.m = eng.m
        self.F = Fields(eng, TREE)
        m = eng.m
        self.ok = all(self.F.at(x) for x in ("parser.stack", "parser.level", "parser.stack_capacity", "parser.nodes", "parser.nodes_left",
                                             "parser.possible_nodes_left", "buffer", "buffer_capacity", "data", "data_length", "size", "pool", "pool_count"))
        self.gk = eng.split(obj)[0]     # kept as if it were stored in front of the tree
        self.ns = m.sizeof(m.struct_di(NODEDATA))
        lv = m.struct_di("mpack_level_t")
        self.ls = m.sizeof(lv)
        self.oc = m.offset_of("mpack_level_t", "child")
        self.ol = m.offset_of("mpack_level_t", "left")
        t, l, v, size, kinds = eng.models.node_layout(eng)
        self.nt, self.nl, self.nv, self.kinds = t, l, v, kinds
        self.P = self.F.at("parser.state")
        self.resuming = False
        self.counted = None     # called when a node is complete, and when a message is started
        self.inprog = m.enum_values("mpack_tree_parse_state_t")["mpack_tree_parse_state_in_progress"]

    NAMES = ("stack", "nodes", "rbuf", "prov", "pool", "child", "kids")

    # ---- cells
    def get(self, st, f):
        return self.F.get(st, self.obj, f)

    def materialise(self, st):
        """give every field a cell of its own"""
        for off, size in self.e.flat(self.m.struct_di(TREE)) + [(c, self.e.pb // 8) for c in [GHOST, PEND, NODEP] + list(RESUME.values())]:
            self.e.read_cells(st, self.gk, off, size)

    def same_cells(self, A, B):
        a, b = A.mem.get(self.gk), B.mem.get(self.gk)
        if a is not b and (a is None or b is None or a.epoch != b.epoch):
            self.materialise(A)
            self.materialise(B)

    def ghost(self, st, c):
        return self.e.read_cells(st, self.gk, c, self.e.pb // 8)

    def setghost(self, st, c, v):
        self.e.write_cells(st, self.gk, c, self.e.pb // 8, v)

    def snapshot(self, st):
        for f, c in RESUME.items():
            self.setghost(st, c, self.get(st, f))

    def resume(self, st):
        """linear forms that are <= 0 when nothing was consumed or counted since the last complete node"""
        for f, c in RESUME.items():
            d = lsub(lin(self.get(st, f)), lin(self.ghost(st, c)))
            yield f, d, lscale(d, -1)

    def term(self, l):
        return mklin(self.e.pb, l)

    def slotaddr(self, st, rel):
        return ladd(lin(self.get(st, "parser.stack")), rel)

    def slotat(self, st, addr, size):
        """the distance from the stack's start of the part of a slot at addr, or None"""
        d = lsub(lin(addr), lin(self.get(st, "parser.stack")))
        if len(d[1]) > 3 or any(k % self.ls for _, k in d[1]) or (d[0] % self.ls, size) not in (self.oc, self.ol):
            return None
        if not d[1] and (d[0] < 0 or d[0] >= self.ls * st.bounds(self.get(st, "parser.stack_capacity"))[1]):
            return None     # another part of the object the stack is in
        return d

    def topel(self, st):
        return lscale(lin(st.norm(self.get(st, "parser.level"))), self.ls)

    def slot(self, st, rel):
        """(child, left) of an open level; what is not known about it is what the invariant says"""
        a = self.term(self.slotaddr(st, rel))
        key, off = self.e.split(a)
        c = self.e.read_cells(st, key, off + self.oc[0], self.oc[1])
        l = self.e.read_cells(st, key, off + self.ol[0], self.ol[1])
        if self.initial(c, key, off + self.oc[0]) or self.initial(l, key, off + self.ol[0]):
            self.assume_slot(st, c, l)
        return c, l

    def initial(self, v, key, off):
        h = (v.meta or {}).get("home") if v.k == "a" else None
        return bool(h) and h[0] == key and h[1] == off

    def assume_slot(self, st, c, l):
        k = ("slot", (c, l))
        if k in st.wins and st.wins[k][1] is c:
            return
        if c.k == "a":
            if c.meta is None:
                c.meta = {}
            c.meta.setdefault("ptr", True)
            if "di" not in c.meta:
                c.meta["di"] = self.m.struct_di(NODEDATA)
        try:
            st.set_u(c, 4096, (1 << self.e.pb) - TOPPAD)
            hi = ladd(lin(c), lscale(lin(l), self.ns))
            st.add_le(ladd(hi, (-((1 << self.e.pb) - 4096), ())))
            st.add_le(lsub(lin(l), ladd(lin(self.ghost(st, GHOST)), lin(self.ghost(st, PEND)))))
            st.wins[k] = ("w", c, self.term(hi))
        except Infeasible:
            pass

    def deps(self, st):
        """(key, mode, start, length form): memory delimited by fields"""
        g = self.get
        yield "stack", "w", g(st, "parser.stack"), lscale(lin(g(st, "parser.stack_capacity")), self.ls)
        yield "nodes", "w", g(st, "parser.nodes"), lscale(lin(g(st, "parser.nodes_left")), self.ns)
        yield "rbuf", "W", g(st, "buffer"), lin(g(st, "buffer_capacity"))
        yield "prov", "r", g(st, "data"), lin(g(st, "data_length"))
        if self.live(st):
            c, l = self.slot(st, self.topel(st))
            yield "child", "w", c, lscale(lin(l), self.ns)
            nt = st.ts.get("nt")
            if nt in ("a", "m"):
                key, off = self.e.split(self.ghost(st, NODEP))
                ln = self.e.read_cells(st, key, off + self.nl[0], self.nl[1])
                yield "kids", "w", self.e.read_cells(st, key, off + self.nv[0], self.e.pb // 8), lscale(lin(ln), self.ns * (2 if nt == "m" else 1))
        p = g(st, "pool")
        if p.k != "c":
            yield "pool", "w", p, self.poolsize(st)

    def live(self, st):
        """a message is being parsed"""
        s = st.norm(self.get(st, "parser.state"))
        return s.k == "c" and s.a[0] == self.inprog and st.ts.get("stack-open")

    def untouched(self, st):
        """the fields the invariant speaks about are as they were at entry"""
        for f in ("data", "data_length", "size", "buffer", "buffer_capacity", "pool", "pool_count", "read_fn", "parser.state", "parser.stack",
                  "parser.stack_capacity", "parser.level", "parser.nodes", "parser.nodes_left", "parser.possible_nodes_left"):
            off, size = self.F.at(f)[:2]
            if not self.initial(self.get(st, f), self.gk, off):
                return False
        return True

    def haserr(self, st):
        return st.bounds(self.get(st, "error"))[0] > 0

    def pre(self, st):
        """bring the windows up to date with the fields"""
        for k in [k for k in st.ts if isinstance(k, T)]:
            del st.ts[k]        # who owns which block is C14's business
        if self.haserr(st):
            return
        new = {}
        for name, mode, p, ln in list(self.deps(st)):
            k = (name, self.obj)
            w = (mode, p, self.term(ladd(lin(p), ln)))
            old = st.wins.get(k)
            if old == w:
                new[k] = w
                continue
            if name == "prov" and old and old[1] is p and st.prove(lsub(lin(w[2]), lin(old[2])), ASTEPS):
                new[k] = old        # what a source just stored is counted next
                continue
            n = self.term(ln)
            if st.bounds(n)[1] == 0 or st.bounds(p)[1] > 0 and inside(self.e, st, p, n, "w" if mode == "W" else mode):
                new[k] = w
            elif getattr(self, "debug", 0):
                print("PRE fails", name, show(p), show(n), {k[0]: (w[0], show(w[1]), show(w[2])) for k, w in st.wins.items()})
        for k in [k for k in st.wins if k[1] is self.obj and k[0] in self.NAMES]:
            del st.wins[k]
        st.wins.update(new)

    # ---- joins
    def cells(self, A, B, n, phi, point, birth):
        """what the stack holds, where the stack or the level differ"""
        if not (self.live(A) and self.live(B)):
            return
        done = set()

        def one(ra, rb, rn):
            a, b = self.term(self.slotaddr(A, ra)), self.term(self.slotaddr(B, rb))
            x = self.term(self.slotaddr(n, rn))
            if a is b and a is x:
                return
            key, off = self.e.split(x)
            if (key, off) in done:
                return
            done.add((key, off))
            ca, cb = self.slot(A, ra), self.slot(B, rb)
            for o, va, vb in ((self.oc, ca[0], cb[0]), (self.ol, ca[1], cb[1])):
                v = phi(va, vb, ("slot", key, off, o[0]))
                if v is not None:
                    if o is self.oc and v.k == "a" and v.meta is not None:
                        v.meta["ptr"] = True
                        v.meta.setdefault("di", self.m.struct_di(NODEDATA))
                    if key not in n.mem:
                        n.mem[key] = Obj(("j", point, key), {})
                        self.e.epoch_birth[("j", point, key)] = birth
                    self.e.write_cells(n, key, off + o[0], o[1], v)
        one(self.topel(A), self.topel(B), self.topel(n))
        sa, sb = lin(self.get(A, "parser.stack")), lin(self.get(B, "parser.stack"))
        if sa != sb:
            rb = {ladd(k, sb, -1) for k in self.known(B)}
            for k in self.known(A):
                r = ladd(k, sa, -1)
                if r in rb:
                    one(r, r, r)

    def known(self, st):
        """addresses of the slots something is known about"""
        s = lin(self.get(st, "parser.stack"))
        out = []
        for key, o in st.mem.items():
            for off, (sz, v) in o.cells.items():
                d = lsub((off, key), s)
                if sz == self.ol[1] and all(k % self.ls == 0 for _, k in d[1]) and d[0] % self.ls == self.ol[0] and len(d[1]) <= 3:
                    l = ladd((off, key), (-self.ol[0], ()))
                    if (l[0] + self.oc[0]) in o.cells:
                        out.append(l)
        return out

    def windows(self, A, B, n):
        for name, mode, p, ln in list(self.deps(n)):
            k = (name, self.obj)
            if k in A.wins and k in B.wins:
                hi = ladd(lin(p), ln)
                if name == "prov":
                    da, db = (lsub(lin(s.wins[k][2]), ladd(lin(self.get(s, "data")), lin(self.get(s, "data_length")))) for s in (A, B))
                    if da == db:
                        hi = ladd(hi, da)       # stored, and counted next
                n.wins[k] = (mode, p, self.term(hi))
            else:
                n.wins.pop(k, None)

    def after(self, n):
        """no object is larger than PTRDIFF_MAX"""
        if self.haserr(n):
            return
        for name, mode, p, ln in list(self.deps(n)):
            if (name, self.obj) in n.wins and n.bounds(p)[0] > 0:
                n.add_le(ladd(ln, (-((1 << (self.e.pb - 1)) - 1), ())))

    def invariant(self, eng, st):
        g = lambda f: lin(self.get(st, f))
        if self.haserr(st):
            return
        dl, size = g("data_length"), g("size")
        yield lsub(size, dl)
        if st.bounds(self.get(st, "read_fn"))[0] > 0:
            yield lsub(dl, g("buffer_capacity"))
            d = lsub(g("data"), g("buffer"))
            yield d
            yield lscale(d, -1)
        if not self.live(st):
            return
        G, D = lin(self.ghost(st, GHOST)), lin(self.ghost(st, PEND))
        d = lsub(lsub(lsub(dl, size), g("parser.possible_nodes_left")), G)
        yield d
        yield lscale(d, -1)
        yield ladd(lsub(g("parser.level"), g("parser.stack_capacity")), (1, ()))
        c, l = self.slot(st, self.topel(st))
        yield lsub(lin(l), ladd(G, D))

    def template(self, eng, st):
        """what is kept at joins: the invariant, and what holds about the node being parsed"""
        yield from self.invariant(eng, st)
        if self.haserr(st) or not self.live(st):
            return
        g = lambda f: lin(self.get(st, f))
        size, D = g("size"), lin(self.ghost(st, PEND))
        if self.resuming:
            for f, a, b in self.resume(st):
                yield a
                yield b
        yield lsub(g("parser.current_node_reserved"), g("parser.possible_nodes_left"))
        yield lsub(D, g("parser.current_node_reserved"))
        nt = st.ts.get("nt")
        if nt:
            np = self.ghost(st, NODEP)
            key, off = eng.split(np)
            if nt in ("a", "m"):
                ln = eng.read_cells(st, key, off + self.nl[0], self.nl[1])
                d = lsub(lscale(lin(zext(ln, eng.pb)), 1 if nt == "a" else 2), D)
                yield d
                yield lscale(d, -1)
            if nt[0] == "s":
                ln = eng.read_cells(st, key, off + self.nl[0], self.nl[1])
                of = eng.read_cells(st, key, off + self.nv[0], eng.pb // 8)
                d = ladd(lsub(ladd(lin(of), lin(zext(ln, eng.pb))), ladd(size, g("parser.current_node_reserved"))), (-1, ()))
                yield d

    # ---- events
    def loaded(self, st, addr, size, v):
        if not isinstance(v, T) or not self.live(st):
            return
        d = self.slotat(st, addr, size)
        if d is not None:
            o = d[0] % self.ls
            self.slot(st, ladd(d, (-o, ())))

    def store(self, st, addr, size, v):
        """before the store; returns [(rule, holds, message)]"""
        out = []
        la = lin(addr)
        d = lsub(la, lin(self.obj))
        if not isinstance(v, T):
            return out
        if not d[1] and d[0] == self.P[0]:
            if v.k == "c" and v.a[0] == self.inprog:
                z = const(self.e.pb, 0)
                self.setghost(st, GHOST, z)
                self.setghost(st, PEND, z)
            st.ts.pop("stack-open", None)
            return out
        d = self.slotat(st, addr, size)
        if not self.haserr(st) and d is not None and d[0] % self.ls == self.ol[0]:
            s = st.norm(self.get(st, "parser.state"))
            if not (s.k == "c" and s.a[0] == self.inprog):
                return out
            key, off = self.e.split(addr)
            old = self.e.read_cells(st, key, off, size)
            G, D = self.ghost(st, GHOST), self.ghost(st, PEND)
            k = lsub(lin(v), lin(old)) if st.ts.get("stack-open") else (0, ((v, 1),))
            if not k[1]:
                self.setghost(st, GHOST, self.term(ladd(ladd(lin(G), lin(D)), (k[0], ()))))
                self.setghost(st, PEND, const(self.e.pb, 0))
                out += self.complete(st)
                if self.counted:
                    out += self.counted(st, D)
                st.ts.pop("nt", None)
                self.snapshot(st)
            elif st.ts.get("nt"):
                self.setghost(st, PEND, self.term(ladd(lin(D), lin(v))))
            else:
                self.setghost(st, GHOST, self.term(ladd(lin(G), lin(v))))
                st.ts["stack-open"] = 1
                if self.counted:
                    out += self.counted(st, None)
                self.snapshot(st)
            return out
        if self.live(st) and size == self.nt[1] and v.k == "c":
            key, off = self.e.split(addr)
            di = self.e.key_type(key)
            if di is not None and di >= 0 and self.m.struct_name(di) == NODEDATA and (off - self.nt[0]) % self.ns == 0:
                k = self.kinds.get(v.a[0])
                st.ts["nt"] = {"array": "a", "map": "m", "str": "s", "bin": "sb", "ext": "se", None: "o"}[k]
                self.setghost(st, NODEP, self.e.off(addr, -self.nt[0]) if self.nt[0] else addr)
        return out

    def complete(self, st):
        """what a parsed node promises: its bytes lie in the data, its children in accessible nodes"""
        nt = st.ts.get("nt")
        if not nt or nt == "o":
            return []
        e = self.e
        key, off = e.split(self.ghost(st, NODEP))
        ln = lin(zext(e.read_cells(st, key, off + self.nl[0], self.nl[1]), e.pb))
        of = e.read_cells(st, key, off + self.nv[0], e.pb // 8)
        if nt[0] == "s":
            d = lsub(ladd(lin(of), ln), lin(self.get(st, "data_length")))
            return [("node-data", st.prove(d, ASTEPS) and st.prove(ladd(lscale(lin(of), -1), (1, ())), ASTEPS),
                     "a parsed node's bytes, %s long at offset %s, are not shown to lie in the data" % (show(self.term(ln)), show(of)))]
        n = self.term(lscale(ln, self.ns * (2 if nt == "m" else 1)))
        return [("node-children", st.bounds(n)[1] == 0 or inside(e, st, of, n, "w"),
                 "a parsed node's children, %s bytes at %s, are not shown to be accessible" % (show(n), show(of)))]

    # ---- entry and exit
    def splits(self, st):
        if st.bounds(self.get(st, "error"))[0] > 0:
            return ["error"]
        return [x + "," + y + "," + z for x in ("parsing", "idle") for y in ("memory", "stream", "fresh stream") for z in STORES
                if z == getattr(self.e, "node_store", z)]

    def start(self, st, case):
        F, o, e = self.F, self.obj, self.e
        self.case = case
        if not hasattr(e, "resumed"):
            e.resumed = set()       # calls made while a message is in progress
        if case == "error":
            return
        z = const(e.pb, 0)
        top = (1 << e.pb) - TOPPAD
        case, src, store = case.split(",")
        if store == "pool":
            st.set_u(self.get(st, "pool_count"), 1, (1 << e.pb) - 1)
            self.region(st, "pool", "w", self.get(st, "pool"), self.poolsize(st))
        else:
            F.put(st, o, "pool", z)
        pw = self.P[1] * 8
        if src == "memory":
            for x in ("read_fn", "buffer", "buffer_capacity"):
                F.put(st, o, x, z)
        else:
            st.set_u(self.get(st, "read_fn"), 1, top)
        if src == "fresh stream":
            for x in ("buffer", "buffer_capacity", "data", "data_length", "size"):
                F.put(st, o, x, z)
            st.wins.pop(("prov", o), None)
            if case == "parsing":
                raise Infeasible()      # nothing was parsed without data
        dl, size, cap = (self.get(st, x) for x in ("data_length", "size", "buffer_capacity"))
        if src == "stream":
            buf = self.get(st, "buffer")
            st.set_u(buf, 4096, top)
            F.put(st, o, "data", buf)
            self.region(st, "rbuf", "W", buf, lin(cap))
            self.region(st, "prov", "r", buf, lin(dl))
            st.add_le(lsub(lin(dl), lin(cap)))
        st.add_le(lsub(lin(size), lin(dl)))
        if case == "idle":
            st.assume_cmp("ne", self.get(st, "parser.state"), const(pw, self.inprog))
            return
        F.put(st, o, "parser.state", const(pw, self.inprog))
        st.ts["stack-open"] = 1
        self.setghost(st, PEND, z)
        self.snapshot(st)
        G = lin(self.ghost(st, GHOST))
        d = lsub(lsub(lsub(lin(dl), lin(size)), lin(self.get(st, "parser.possible_nodes_left"))), G)
        st.add_le(d)
        st.add_le(lscale(d, -1))
        st.add_le(ladd(lsub(lin(self.get(st, "parser.level")), lin(self.get(st, "parser.stack_capacity"))), (1, ())))
        for name, mode, p, ln in list(self.deps(st)):
            if name not in ("rbuf", "prov"):
                self.region(st, name, mode, p, ln)
        c, l = self.slot(st, self.topel(st))
        st.set_u(l, 1, (1 << e.pb) - 1)
        st.add_le(lsub(lin(l), G))

    def cut(self, st, args, fr, ins):
        """Resuming a message that is in progress is examined for every state in which the invariant holds.  A message just
        started goes on with the same call, so it is enough that the invariant holds there."""
        if len(fr.stack) > 1 or len(args) != 1 or args[0] is not self.obj:
            return False
        k = (fr.fn.name, ins["id"])
        if self.case.startswith("parsing"):
            self.e.resumed.add(k)
            return False
        return k in self.e.resumed and self.live(st) and not self.haserr(st)

    def poolsize(self, st):
        return lscale(lin(self.get(st, "pool_count")), self.ns)

    def region(self, st, name, mode, p, ln):
        """the entry state's object at p"""
        pb = self.e.pb
        st.set_u(p, 4096, (1 << pb) - TOPPAD)
        hi = ladd(lin(p), ln)
        st.add_le(ladd(hi, (-((1 << pb) - 4096), ())))
        st.add_le(ladd(ln, (-((1 << (pb - 1)) - 1), ())))
        st.wins[(name, self.obj)] = (mode, p, self.term(hi))


    def interrupted(self, st):
        """[(rule, holds, message)] at an exit: what parsing must leave untouched when it stops in the middle"""
        if self.haserr(st) or not self.live(st):
            return []
        out = [("parser-resume", st.prove(a, ASTEPS) and st.prove(b, ASTEPS),
                "parsing stops in the middle of a node with %s not as it was after the last complete node" % f.split(".")[-1]) for f, a, b in self.resume(st)]
        out.append(("parser-resume", st.bounds(self.ghost(st, PEND))[1] == 0, "parsing stops in the middle of a node whose children were counted already"))
        return out

    def finish(self, st):
        """[(rule, holds, message)] at an exit"""
        if self.haserr(st):
            return []
        out = []
        p, n = self.get(st, "pool"), self.get(st, "pool_count")
        if st.bounds(p)[1] > 0:
            out.append(("parser-state", st.bounds(n)[0] > 0, "the tree's pool of nodes is not shown to have any"))
        for i, f in enumerate(self.invariant(self.e, st)):
            out.append(("parser-state", st.prove(f, ASTEPS), "the parser's invariant is not shown to hold: %s <= 0" % show(self.term(f))))
        s = st.norm(self.get(st, "parser.state"))
        if s.k != "c" or s.a[0] == self.inprog:
            out.append(("parser-state", bool(self.live(st)), "parsing may be in progress with no level open"))
        if self.live(st):
            c, l = self.slot(st, self.topel(st))
            out.append(("parser-state", st.bounds(l)[0] > 0, "the open level is not shown to have children left"))
            out.append(("parser-state", st.bounds(self.ghost(st, PEND))[1] == 0, "the children of a node not yet complete were already counted"))
        self.pre(st)
        skip = ("kids",) if self.live(st) else ("kids", "stack", "nodes")
        for name, mode, p, ln in [d for d in self.deps(st) if d[0] not in skip]:
            out.append(("parser-memory", (name, self.obj) in st.wins, "the memory the tree's %s refers to is not shown to be accessible: %s bytes at %s"
                        % (name, show(self.term(ln)), show(p))))
        return out
