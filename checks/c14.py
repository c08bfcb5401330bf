"""C14: no memory or file is leaked, freed twice or used after it was freed."""
from base import *

FILEFN = ("fopen", "fclose")


def fieldof(eng, p):
    """(struct, path) of the field whose contents on entry p names"""
    f = (p.meta or {}).get("field") if p.k == "a" else None
    return (f[0], (f[1] or "").split("[")[0]) if f else None


def local(eng, key):
    return len(key) == 1 and (key[0][0].meta or {}).get("alloca")


def reachable(eng, st, extra=(), skip=(), only=None):
    """pointer atoms stored in memory that outlives the call, or in blocks such memory refers to"""
    own = {k for k, v in st.ts.items() if v in ("owned", "open") and isinstance(k, T)}
    seen = set()

    def mark(v):
        if isinstance(v, T):
            for a in atoms_of(v):
                seen.add(a)
    for x in extra:
        mark(x)
    pend = list(st.mem.items())
    done = False
    while not done:
        done = True
        rest = []
        for k, o in pend:
            b = k[0][0] if len(k) == 1 else None
            if b is not None and ((b.meta or {}).get("alloca") or b in skip or (b in own and b not in seen)):
                rest.append((k, o))
                continue
            for sz, v in o.cells.values():
                mark(v)
            done = False
        pend = rest
    return seen


class Owner(Rule):
    def start(self, eng, st, fn, args, label):
        self.objs = objects(eng, args)
        error_params(eng, st, fn, args)
        self.init = "_init" in fn.name
        self.build = "build" in label
        self.destroy = fn.name.endswith("_destroy") or fn.name in eng.installed
        self.entry = {}
        for sn, o in self.objs:
            if sn == TREE:
                F = Fields(eng, TREE)
                # what a tree owns depends on the state of its parser (see treeinv); one run per state
                t = getattr(eng, "treestate", None)
                if t is not None:
                    F.put(st, o, "parser.state", const(F.at("parser.state")[1] * 8, t))
                    if t == 0 and F.at("next"):
                        F.put(st, o, "next", const(eng.pb, 0))
                        F.put(st, o, "parser.stack_owned", const(8, 0))
        hi = (1 << eng.pb) - (1 << 16)
        for sn, o in self.objs:
            F = Fields(eng, sn)
            f = getattr(eng, "ownfield", None)
            if f and F.at(f):
                st.set_u(F.get(st, o, f), 4096, hi)
                if f == "parser.stack":
                    F.put(st, o, "parser.stack_owned", const(8, 1))
            if getattr(eng, "nonnull", None):
                for n, off, t, _ in eng.m.di[eng.m.strip(eng.m.structs[sn])]["els"]:
                    if eng.m.sizeof(t) == eng.pb // 8 and eng.m.is_ptr(t):
                        v = st.norm(eng.read_cells(st, ((o, 1),), off, eng.pb // 8))
                        if v.k == "a":
                            st.set_u(v, 4096, hi)
            for i, a in enumerate(args):
                if isinstance(a, T) and a.w in (1, 8) and getattr(eng, "flag", None) is not None:
                    args[i] = const(a.w, eng.flag)
                if isinstance(a, T) and a.k == "a" and self.isfile(eng, a):
                    st.ts[a] = "open" if getattr(eng, "flag", None) else "lent"
                    if getattr(eng, "flag", None):
                        st.ts[("F", a)] = "own"
        self.st0 = st.copy()

    def treeinv(self, eng, st, o):
        F = Fields(eng, TREE)
        if F.at("next") is None:
            return True
        s, nx, so = [st.norm(F.get(st, o, x)) for x in ("parser.state", "next", "parser.stack_owned")]
        if all(st.norm(F.get(self.st0, o, f)) is x for f, x in (("parser.state", s), ("next", nx), ("parser.stack_owned", so))):
            return True
        if st.bounds(s)[0] > 0 or st.bounds(st.norm(F.get(st, o, "error")))[0] > 0:
            return True
        return st.bounds(nx)[1] == 0 and st.bounds(so)[1] == 0

    def on_freed(self, eng, st, p, how, fr, ins):
        p = st.norm(p)
        if st.bounds(p)[1] == 0:
            return None
        t = st.ts.get(p)
        f = fieldof(eng, p) if p.k == "a" else None
        r = [self.chk(t != "freed", "no-double-free", "memory is freed that was freed before", eng, fr, ins)]
        mt = (p.meta or {}) if p.k == "a" else {}
        if t != "freed":
            r.append(self.chk(p.k == "a" and not mt.get("alloca") and not (mt.get("user") and not f),
                              "frees-owned-memory", "the pointer given to %s is not the start of a block the library allocated (%s)" % (how, show(p)), eng, fr, ins))
        if f:
            r.append(("!owner", f, fr.fn.name, None))
        if self.destroy and p.k == "a" and not mt.get("heap"):
            st.ts[("was", p)] = 1
        return r

    def on_closed(self, eng, st, p, fr, ins):
        p = st.norm(p)
        if self.destroy and p.k == "a" and not (p.meta or {}).get("file"):
            st.ts[("was", p)] = 1
        r = [self.chk(st.ts.get(p) != "closed", "no-double-close", "a file is closed twice", eng, fr, ins),
             self.chk(st.ts.get(p) != "lent", "closes-own-file", "a file the caller keeps is closed", eng, fr, ins)]
        return r

    def on_file_use(self, eng, st, p, what, fr, ins):
        p = st.norm(p)
        return self.chk(st.ts.get(p) != "closed", "no-use-after-close", "%s on a closed file" % what, eng, fr, ins)

    def on_access(self, eng, st, addr, ln, mode, fr, ins):
        key, off = eng.split(addr)
        p = eng.prov(key)
        if p is None or not (p.meta or {}).get("heap") and st.ts.get(p) != "freed":
            return None
        return self.chk(st.ts.get(p) != "freed", "no-use-after-free", "memory is accessed after it was freed", eng, fr, ins)

    def on_store(self, eng, st, addr, size, v, fr, ins):
        """an owner field must not lose its block"""
        key, off = eng.split(addr)
        if self.objs and self.objs[0][0] == TREE and key == ((self.objs[0][1], 1),) and off == eng.m.offset_of(TREE, "parser.state")[0] and isinstance(v, T) and v.k == "c":
            st.ts["parser.state"] = v.a[0]
        if size * 8 != eng.pb or self.init or self.build:
            return None
        if local(eng, key):
            return None
        cur = eng.read_cells(st, key, off, size) if True else None
        cur = st.norm(cur)
        if cur is v or cur.k != "a":
            return None
        f = fieldof(eng, cur)
        heap = (cur.meta or {}).get("heap")
        h = (cur.meta or {}).get("home")
        if h and any((x.meta or {}).get("heap") for x, _ in h[0]):
            return None            # what a new block happens to contain
        if not f and not heap or st.bounds(cur)[1] == 0 or st.ts.get(cur) == "freed":
            return None
        if f:
            b = key[0][0] if len(key) == 1 else None
            s = eng.models.objptr(eng, b) if b is not None else None
            if s != f[0]:
                return None
            o = eng.m.offset_of(s, f[1])
            if o is None or o[0] != off:
                return None
        # is it still referred to from elsewhere?
        st2 = st.copy()
        eng.write_cells(st2, key, off, size, const(eng.pb, 0))
        if cur in reachable(eng, st2, (v,) + tuple(x for x in fr_values(fr))):
            return None
        if f:
            if v.k == "a" and ((v.meta or {}).get("user") or (v.meta or {}).get("arg")) and len(fr.stack) == 1:
                return None        # the caller replaces what it put there
            if f == (TREE, "parser.stack") and self.notowned(eng, st):
                return None
            w, n = fr.fn.where(ins), fr.fn.name
            return ("?" + f[0] + "." + f[1], w, n, dict(msg="the block held in %s.%s is lost without being freed" % f, root=eng.root, entry=eng.label, cfg=eng.cfg, path=list(fr.stack)))
        return self.chk(False, "no-leak", "an allocated block is lost without being freed", eng, fr, ins)

    def notowned(self, eng, st):
        for sn, o in self.objs:
            if sn == TREE:
                so = Fields(eng, TREE).get(st, o, "parser.stack_owned")
                if so is not None and st.bounds(st.norm(so))[1] == 0:
                    return True
        return False

    def on_teardown(self, eng, st, args, fr, ins):
        """the buffer handed to the teardown is the one the writer was given"""
        obj = args[0] if args else None
        if (WRITER, obj) not in self.objs:
            return None
        F = Fields(eng, WRITER)
        if not self.build:
            return None            # a flush function may have replaced it
        b0 = F.get(self.st0, obj, "builder.stash_buffer")
        return self.chk(st.norm(F.get(st, obj, "buffer")) is st.norm(b0), "teardown-buffer",
                        "the teardown function does not find the buffer the writer was given", eng, fr, ins)

    def isfile(self, eng, a):
        di = (a.meta or {}).get("di")
        return di is not None and di >= 0 and "_IO_FILE" in (eng.m.di[eng.m.strip(di)].get("name") or "")

    def blocks(self, s, o):
        ob = s.mem.get(((o, 1),))
        return [(off, v) for off, (sz, v) in (ob.cells.items() if ob else ())
                if isinstance(v, T) and v.k == "a" and ((v.meta or {}).get("heap") or (v.meta or {}).get("file") or "own" in s.ts.get(("F", v), "")) and s.ts.get(v) not in ("freed", "closed")]

    def exit(self, eng, s, rv, fn, args, label):
        out = []
        live = reachable(eng, s, (rv,) if isinstance(rv, T) else ())
        for k, v in s.ts.items():
            if v in ("owned", "open") and isinstance(k, T):
                out.append(self.chkexit(k in live, "no-leak", lambda: "returns without freeing, returning or storing the %s from %s" % (
                    "block allocated" if v == "owned" else "file opened", (k.meta or {}).get("where")), eng, fn))
        if not self.destroy:
            bad = [k for k, v in s.ts.items() if v in ("freed", "closed") and isinstance(k, T) and k in live and s.bounds(k)[1] != 0]
            err = any(s.bounds(s.norm(Fields(eng, sn).get(s, o, "error")))[0] > 0 for sn, o in self.objs)
            out.append(self.chkexit(not bad, "no-dangling", lambda: "returns with memory still referring to a freed block or closed file (%s)" % show(bad[0]), eng, fn))
        for sn, o in self.objs:
            if sn == TREE and not self.destroy and not self.init:
                out.append(self.chkexit(self.treeinv(eng, s, o), "unparsed-owns-nothing",
                                        "a tree that is not being parsed still owns pages or a stack, which the next parse overwrites", eng, fn))
        if self.init:
            for sn, o in self.objs:
                F = Fields(eng, sn)
                if F.at("teardown") is None:
                    continue
                td = s.norm(F.get(s, o, "teardown"))
                held = {}
                for off, v in self.blocks(s, o):
                    held.setdefault(v, []).append((off,))
                    for off2, v2 in self.blocks(s, v):
                        held.setdefault(v2, []).append((off, off2))
                for v, paths in held.items():
                    out.append(("!holds", (sn, tuple(sorted(paths)), td.a[0] if td.k == "fn" else None, v.meta.get("where")), fn.name, None))
        if getattr(eng, 'nonnull', None):
            # what the object held on entry, field by field
            live2 = reachable(eng, s, (), tuple(o for _, o in self.objs))
            for sn, o in self.objs:
                for f in eng.m.di[eng.m.strip(eng.m.structs[sn])]["els"]:
                    n, off, t, _ = f
                    if eng.m.sizeof(t) != eng.pb // 8:
                        continue
                    v0 = self.st0.norm(eng.read_cells(self.st0, ((o, 1),), off, eng.pb // 8))
                    if v0.k != "a":
                        continue
                    for path, v in [((off,), v0)] + [((off, j), eng.read_cells(self.st0, ((v0, 1),), j, eng.pb // 8)) for j in (0, eng.pb // 8)]:
                        gone = self.st0.bounds(v)[1] == 0 or s.bounds(v)[1] == 0 or v in live2 or ("was", v) in s.ts
                        out.append(("!releases", (sn, path, fn.name, gone), fn.name, None))
        f = getattr(eng, "ownfield", None)
        for sn, o in self.objs if f else ():
            if f == "builder.pages" and not self.build:
                continue
            v0 = self.st0.norm(Fields(eng, sn).get(self.st0, o, f))
            out.append(self.chkexit(("was", v0) in s.ts, "destroy-frees", "%s can return without freeing %s.%s" % (fn.name, sn, f), eng, fn))
        return out


OWN = {TREE: ("buffer", "next", "parser.stack"), WRITER: ("builder.pages", "track.elements"), READER: ("track.elements",)}


def fr_values(fr):
    for v in getattr(fr, "regs", {}).values():
        if isinstance(v, T):
            yield v


def mk(eng):
    return [Owner()]


def run(rep, tier):
    rep.explain = ("Ownership typestate of every allocated block and opened file, on every path of every public function and installed "
                   "callback: freed or closed at most once, not used afterwards, and at return either released, returned, or stored in an "
                   "object whose destruction releases it; no field that owns a block is overwritten while it is the last reference.")
    cfgs = ["rel64", "track64"] + (["dbg64", "rel32", "alloc2_64", "nobuilder64"] if tier == "thorough" else [])
    holds, rel = {}, {}
    for c in cfgs:
        ts = []
        m = driver.module(c)
        for t in roots(c):
            o = arg_structs(m, t[1]) & set(OBJECTS)
            if t[1].endswith("_destroy"):
                ts += [t + ({"ownfield": f},) for sn in o for f in OWN.get(sn, ()) if m.offset_of(sn, f)]
            if t[1] in m.installed and len(m.fns[t[1]].args) == 1:
                ts.append(t + ({"nonnull": 1},))
            if "_init" in t[1] and any(m.strip(d) is not None and m.strip(d) >= 0 and m.di[m.strip(d)].get("name") in ("_Bool", "bool") for d in m.fns[t[1]].argdi[1:] if d is not None and d >= 0):
                ts += [t + ({"flag": n},) for n in range(2)]
            elif TREE in o and NODE not in arg_structs(m, t[1]):
                ts += [t + ({"treestate": n},) for n in range(3)]
            else:
                ts.append(t)
        rep.run(ts, mk)
        for k in [k for k in rep.obl if k[0] in ("!holds", "!releases")]:
            n = rep.obl.pop(k)
            if k[0] == "!holds":
                sn, paths, td, w = k[1]
                holds.setdefault((c, sn, paths), []).append((td, w, k[2]))
            else:
                sn, path, td, gone = k[1]
                rel.setdefault((c, sn, path, td), []).append(gone)
    owners = {k[1] for k in rep.obl if k[0] == "!owner"}
    for k in [k for k in rep.obl if k[0] == "!owner"]:
        del rep.obl[k]
    for k in [k for k in rep.obl if k[0].startswith("?")]:
        f = tuple(k[0][1:].split(".", 1))
        b = rep.bad.pop(k, None)
        n = rep.obl.pop(k)
        if f in owners:
            rep.obl[("no-leak", k[1], k[2])] = n
            rep.bad[("no-leak", k[1], k[2])] = b
    rep.cov["owner_fields"] = sorted(".".join(o) for o in owners)
    for (c, sn, paths), l in sorted(holds.items()):
        m = driver.module(c)
        if any((m.offset_of(sn, f) or (None,))[0] == p[0] for f in OWN[sn] for p in paths):
            continue               # released by the destroy function itself: rule destroy-frees
        for td, w, fn in l:
            if not rep.check(td is not None, "has-teardown", w, fn, "%s stores a block or file from %s in the %s without installing a teardown for it" % (fn, w, sn), cfg=c):
                continue
            rep.check(any(rel.get((c, sn, p, td)) and all(rel[(c, sn, p, td)]) for p in paths), "teardown-releases", w, td,
                      "%s does not always release what %s stored in the %s (from %s)" % (td, fn, sn, w), cfg=c)
    if len(owners) < 5 or len(holds) < 5:
        raise Broken("ownership anchors are gone: %s, %s" % (owners, holds))
