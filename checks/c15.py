"""C15: wherever an error handler may run (and leave by a jump), nothing is held by local variables only and the object can be destroyed"""
from base import *
from c14 import reachable, OWN


class Escape(Rule):
    def start(self, eng, st, fn, args, label):
        error_params(eng, st, fn, args)
        self.objs = objects(eng, args)
        self.destroy = fn.name.endswith("_destroy")
        self.owned = []             # what the object owns on entry
        for sn, o in self.objs:
            F = Fields(eng, sn)
            for f in OWN.get(sn, ()):
                if F.at(f):
                    v = st.norm(F.get(st, o, f))
                    if v.k == "a" and f == "builder.pages":
                        self.owned.append((sn, o, f, v))
        self.st0 = st.copy()

    def on_freed(self, eng, st, p, how, fr, ins):
        p = st.norm(p)
        for _, _, _, v in self.owned:
            # the list's first page, or another one of it
            if p is v or p.k == "a" and ((p.meta or {}).get("phi") or (p.meta or {}).get("field")):
                st.ts[("off", v)] = 1

    def page(self, eng, st, x):
        if not isinstance(x, T) or x.k != "a" or st.bounds(x)[1] == 0 or st.ts.get(x) == "freed":
            return False
        di = (x.meta or {}).get("di")
        return di is not None and di >= 0 and eng.m.struct_name(di) == "mpack_builder_page_t"

    def on_callback(self, eng, st, cb, f, args, fr, ins):
        if cb == "error_fn":
            return self.escape(eng, st, fr, ins, "the error handler is called")

    def on_cb_error(self, eng, s, obj, sname, fr, ins, how):
        hf = s.norm(Fields(eng, sname).get(s, obj, "error_fn"))
        if s.bounds(hf)[1] > 0 and how != "teardown":
            return self.escape(eng, s, fr, ins, "a callback may flag an error, which calls the error handler,")

    def escape(self, eng, st, fr, ins, what):
        out = []
        for sn, o in self.objs:
            e = st.norm(Fields(eng, sn).get(st, o, "error"))
            if any(n.startswith("mpack_done_") for n in fr.stack) and e.k == "c" and e.a[0] == eng.m.enum_values("mpack_error_t")["mpack_error_bug"]:
                return out          # closing an element that was tracked on reading all of it (C27)
        live = reachable(eng, st)
        for k, v in st.ts.items():
            if v in ("owned", "open") and isinstance(k, T):
                out.append(self.chk(k in live or st.bounds(k)[1] == 0, "nothing-held-by-locals", lambda: "%s while the %s from %s is referred to by local variables only" % (
                    what, "block allocated" if v == "owned" else "file opened", (k.meta or {}).get("where")), eng, fr, ins))
        for sn, o in self.objs:
            F = Fields(eng, sn)
            for f in OWN.get(sn, ()):
                if not F.at(f):
                    continue
                v = st.norm(F.get(st, o, f))
                if f == "parser.stack" and st.bounds(st.norm(F.get(st, o, "parser.stack_owned")))[1] == 0:
                    continue
                gone = v.k == "a" and st.ts.get(v) == "freed" and st.bounds(v)[1] != 0
                out.append(self.chk(not gone, "owner-not-dangling", lambda: "%s while %s.%s still refers to a freed block, which destruction frees again" % (what, sn, f), eng, fr, ins))
        for sn, o, f, v in self.owned:
            # the pages of a list the object no longer refers to are released, or being released one after the other
            if st.bounds(v)[1] == 0 or v in live or st.ts.get(v) == "freed" or ("off", v) in st.ts or self.destroy:
                continue
            if self.st0.bounds(self.st0.norm(Fields(eng, sn).get(self.st0, o, "builder.current_build")))[1] == 0:
                continue            # no build is open
            if not "flag_error" in fr.fn.name and not any(self.page(eng, st, x) for x in st.regs.values()):
                continue            # the function is done with all pages
            out.append(self.chk(False, "owner-keeps-block", lambda: "%s while the block that was in %s.%s is referred to by local variables only" % (what, sn, f), eng, fr, ins))
        # the object must not refer to the stack of the library's functions
        for sn, o in self.objs:
            ob = st.mem.get(((o, 1),))
            for off, (sz, v) in (ob.cells.items() if ob else ()):
                if isinstance(v, T) and sz * 8 == eng.pb:
                    a = eng.prov(eng.split(v)[0]) if v.k != "c" else None
                    if a is not None and (a.meta or {}).get("alloca"):
                        fl = eng.m.member(eng.m.structs[sn], off, sz)
                        out.append(self.chk(False, "no-local-in-object", "%s while a field of the object (offset %d, %s) points into a local variable" % (what, off, fl and fl[1]), eng, fr, ins))
        return out


def mk(eng):
    return [Escape()]


def run(rep, tier):
    rep.explain = ("At every call of an error handler, and every I/O callback that may flag an error while a handler is installed, in all calling contexts: every block and file allocated by "
                   "the running function is stored in memory that outlives it, what the object owned is still in it or freed, no owning field refers to a freed block, and no field "
                   "of the object points into a local variable of the library. So a handler that does not return leaks nothing and leaves an object that can be destroyed.")
    cfgs = ["rel64", "track64"] + (["dbg64", "rel32", "alloc2_64", "nobuilder64"] if tier == "thorough" else [])
    for c in cfgs:
        rep.run(roots(c, lambda m, r: arg_structs(m, r) & set(OBJECTS)), mk)
    if len(rep.obl) < 3:
        raise Broken("no allocation reaches an error handler")
