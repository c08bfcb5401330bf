"""C16: destroying an object tears it down exactly once, flushes iff there was no error, and returns the final error"""
from base import *
from domain import ASTEPS


class Teardown(Rule):
    def start(self, eng, st, fn, args, label):
        error_params(eng, st, fn, args)
        self.objs = objects(eng, args)
        self.destroy = fn.name in DESTROY
        self.td, self.used = {}, {}
        for sn, o in self.objs:
            F = Fields(eng, sn)
            self.td[o] = F.get(st, o, "teardown")
            if sn == WRITER:
                self.flush = F.get(st, o, "flush")

    def on_callback(self, eng, st, cb, f, args, fr, ins):
        o = args[0] if args else None
        if cb == "teardown":
            mine = [sn for sn, x in self.objs if x is o]
            if not mine:
                if eng.models.objptr(eng, o) in OBJECTS and not any(x is o for _, x in self.objs):
                    return None         # an object of the library's own
                return self.no("teardown-object", fr.fn.where(ins), fr.fn.name, "the teardown function is called with something that is not the object", eng, fr)
            out = [self.chk(self.destroy, "teardown-only-on-destroy", "the teardown function is called by a function that does not destroy the object", eng, fr, ins),
                   self.chk(not st.ts.get(("td", o)), "teardown-once", "the teardown function may be called a second time", eng, fr, ins)]
            if mine[0] == WRITER and self.destroy:
                out.append(self.flushed(eng, st, o, lambda ok, msg: self.chk(ok, "flush-before-teardown", msg, eng, fr, ins)))
            st.ts[("td", o)] = 1
            return out
        if cb == "flush" and self.destroy and any(x is o for _, x in self.objs):
            F = Fields(eng, WRITER)
            buf, pos, err = (F.get(st, o, x) for x in ("buffer", "position", "error"))
            d = lsub(lin(args[2]), lsub(lin(pos), lin(buf)))
            out = [self.chk(st.bounds(err)[1] == 0, "flush-without-error", "remaining data is flushed although there may be an error", eng, fr, ins),
                   self.chk(not st.ts.get(("td", o)) and not st.ts.get(("fl", o)), "flush-once", "data is flushed again, or after teardown", eng, fr, ins),
                   self.chk(st.prove(d, ASTEPS) and st.prove(lscale(d, -1), ASTEPS) and self.same(st, args[1], buf), "flush-all",
                            lambda: "%s bytes at %s are flushed, not the data in the buffer" % (show(args[2]), show(args[1])), eng, fr, ins)]
            st.ts[("fl", o)] = 1
            return out
        return None

    def same(self, st, a, b):
        d = lsub(lin(a), lin(b))
        return st.prove(d, ASTEPS) and st.prove(lscale(d, -1), ASTEPS)

    def flushed(self, eng, st, o, chk):
        F = Fields(eng, WRITER)
        buf, pos, err = (F.get(st, o, x) for x in ("buffer", "position", "error"))
        ok = st.ts.get(("fl", o)) or st.bounds(err)[0] > 0 or st.bounds(self.flush)[1] == 0 or st.prove(lsub(lin(pos), lin(buf)), ASTEPS)
        return chk(ok, "the writer may be torn down without an error and with data left that was not flushed")

    def on_returned(self, eng, st, name, args, rv, fr, ins):
        if not self.destroy or not isinstance(rv, T) or name not in ERRFN(eng):
            return None
        if st.bounds(rv)[1] > 0:
            st.ts[("result", name, ins["id"])] = rv

    def exit(self, eng, s, rv, fn, args, label):
        if not self.destroy:
            return None
        out = []
        for sn, o in self.objs:
            F = Fields(eng, sn)
            err = s.norm(F.get(s, o, "error"))
            set_ = s.bounds(self.td[o])
            n = s.ts.get(("td", o), 0)
            out.append(self.chkexit(n or set_[1] == 0, "teardown-runs",
                                    "a path through destruction does not call the teardown function that is set", eng, fn))
            out.append(self.chkexit(s.bounds(F.get(s, o, "teardown"))[1] == 0, "teardown-cleared", "the teardown function is left set, so it could run again", eng, fn))
            out.append(self.chkexit(rv is err or self.same(s, rv, err), "final-error", lambda: "%s is returned, not the final error %s" % (show(rv), show(err)), eng, fn))
            if sn == WRITER:
                out.append(self.flushed(eng, s, o, lambda ok, msg: self.chkexit(ok, "flush-on-destroy", msg, eng, fn)))
            for k, v in s.ts.items():
                if isinstance(k, tuple) and k[0] == "result" and isinstance(v, T):
                    out.append(self.chkexit(s.bounds(err)[0] > 0 or s.bounds(v)[1] == 0, "result-reported",
                                            "an error returned by %s() does not become the object's error" % k[1], eng, fn))
        return out


DESTROY = ("mpack_reader_destroy", "mpack_writer_destroy", "mpack_tree_destroy")
_errfn = {}


def ERRFN(eng):
    """functions whose result is an error code"""
    m = eng.m
    if id(m) not in _errfn:
        _errfn[id(m)] = {n for n, f in m.fns.items() if errtype(m, f)}
    return _errfn[id(m)]


def errtype(m, f):
    t = f.argdi[0] if f.argdi else None
    return t is not None and t >= 0 and m.di[m.strip(t)].get("name") == "mpack_error_t"


def mk(eng):
    return [Teardown()]


def run(rep, tier):
    rep.explain = ("Every path of the three destroy functions calls the teardown function set at entry exactly once, clears it, flushes what is in the writer's buffer exactly when "
                   "there is no error, and returns the object's final error, including what closing the tracker reports; no other function calls teardown.")
    for c in ["rel64", "track64"] + (["dbg64", "rel32", "nobuilder64"] if tier == "thorough" else []):
        rep.run(roots(c, lambda m, r: r in DESTROY or c == "rel64" and arg_structs(m, r) & set(OBJECTS)), mk)
    fns = {k[2] for k in rep.obl}
    if not set(DESTROY) <= fns:
        raise Broken("destroy functions not found (%r)" % fns)
