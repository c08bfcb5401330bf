"""C08: the first error sticks, and the error handler runs exactly once for it."""
from base import *


def is_init(name):
    return "_init" in name


class Sticky(Rule):
    def start(self, eng, st, fn, args, label):
        self.objs = objects(eng, args)
        self.entry = {}
        self.init = is_init(fn.name)
        for s, o in self.objs:
            self.entry[o] = st.norm(Fields(eng, s).get(st, o, "error"))
        error_params(eng, st, fn, args)

    def obj_at(self, eng, addr, size):
        key, off = eng.split(addr)
        if len(key) != 1:
            return None
        p = key[0][0]
        s = eng.models.objptr(eng, p)
        if s not in OBJECTS:
            return None
        e = eng.m.offset_of(s, "error")
        if off < e[0] + e[1] and e[0] < off + size:
            return s, p
        return None

    def on_store(self, eng, st, addr, size, v, fr, ins):
        h = self.obj_at(eng, addr, size)
        if h is None or isinstance(v, tuple):
            return None
        s, p = h
        old = st.norm(Fields(eng, s).get(st, p, "error"))
        v = st.norm(v)
        if self.init and not st.ts.get(("up", p)):
            # the object is not live yet
            st.ts[("up", p)] = 1
            if st.bounds(v)[1] != 0:
                st.ts[("h", p)] = "raised"
            return None
        if old is v:
            return None
        bo, bv = st.bounds(old), st.bounds(v)
        r = [self.chk(bo[1] == 0, "first-error-sticks", "the error of the %s is overwritten although it may already be set" % s, eng, fr, ins)]
        if bo[1] == 0:
            if bv[0] > 0:
                st.ts[("h", p)] = "raised"
            else:
                r.append(self.chk(bv[1] == 0, "error-value", "the stored error may or may not be mpack_ok", eng, fr, ins))
        return r

    def on_memset_done(self, eng, st, dst, v, ln, fr, ins):
        return None

    def on_cb_error(self, eng, s, obj, sname, fr, ins, how):
        # flagged by the callback itself, through the public function: it ran the handler if one is installed now
        hf = s.norm(Fields(eng, sname).get(s, obj, "error_fn"))
        s.ts[("h", obj)] = "raised" if s.bounds(hf)[1] == 0 else "handled"
        return None

    def on_error_fn(self, eng, st, args, fr, ins):
        obj = args[0]
        s = eng.models.objptr(eng, obj)
        w = []
        ok = s in OBJECTS
        w.append(self.chk(ok, "handler-object", "the error handler is not given the object", eng, fr, ins))
        if not ok:
            return w
        e = st.norm(Fields(eng, s).get(st, obj, "error"))
        w.append(self.chk(st.bounds(e)[0] > 0 and len(args) > 1 and st.norm(args[1]) is e, "handler-sees-error",
                          "the handler runs while the object's error is not (only) the one it is given", eng, fr, ins))
        h = st.ts.get(("h", obj))
        w.append(self.chk(h == "raised", "handler-once", "the error handler is called %s" % (
            "a second time for the same error" if h == "handled" else "without a new error"), eng, fr, ins))
        st.ts[("h", obj)] = "handled"
        return w

    def exit(self, eng, s, rv, fn, args, label):
        out = []
        for sn, o in self.objs:
            e = s.norm(Fields(eng, sn).get(s, o, "error"))
            e0 = self.entry[o]
            b, b0 = s.bounds(e), s.bounds(s.norm(e0))
            h = s.ts.get(("h", o))
            if self.init:
                continue        # no handler can have been installed yet
            if b0[0] > 0:
                out.append(self.chkexit(e is e0 or s.prove(lsub(lin(e), lin(e0))) and s.prove(lsub(lin(e0), lin(e))),
                                        "first-error-sticks", "returns with another error than it was called with", eng, fn))
                out.append(self.chkexit(h is None, "handler-once", "handler called in an object already in error", eng, fn))
            else:
                hf = s.norm(Fields(eng, sn).get(s, o, "error_fn"))
                if b[0] > 0:
                    out.append(self.chkexit(h == "handled" or h == "raised" and s.bounds(hf)[1] == 0, "handler-called",
                                            "an error is set but the installed error handler is not called for it", eng, fn))
                elif b[1] == 0:
                    out.append(self.chkexit(h is None, "error-kept", "an error was flagged but the object ends up without one", eng, fn))
                else:
                    out.append(self.chkexit(False, "handler-called", "cannot tell whether the object ends in error", eng, fn))
        return out or None


def mk(eng):
    return [Sticky()]


def run(rep, tier):
    rep.explain = ("For every public function and installed callback, in ok and error entry states: every store to an object's error "
                   "field finds it clear, every new error is followed by exactly one call of error_fn (with the error already stored) "
                   "on every path to the return, and no path clears or changes an error.")
    cfgs = ["rel64"] + (["dbg64", "track64", "rel32", "nobuilder64", "nomalloc64"] if tier == "thorough" else [])
    for c in cfgs:
        rep.run(roots(c, lambda m, r: arg_structs(m, r) & set(OBJECTS)), mk)
    fl = {k[2] for k in rep.obl if k[0] == "first-error-sticks"}
    if len(fl) < 50:
        raise Broken("only %d functions keep an error" % len(fl))
