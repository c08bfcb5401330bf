"""C09: fill, skip, flush and read callbacks are only called while their object has no error."""
from base import *

IO = ("fill", "skip", "flush", "read")


class NoIoAfterError(Rule):
    def on_callback(self, eng, st, cb, f, args, fr, ins):
        if cb not in IO:
            return None
        obj = args[0]
        s = eng.models.objptr(eng, obj)
        if s not in OBJECTS:
            return self.no("callback-object", fr.fn.where(ins), fr.fn.name, "the %s callback is called with something that is not the object" % cb, eng, fr)
        b = st.bounds(Fields(eng, s).get(st, obj, "error"))
        return self.chk(b[1] == 0, "no-io-after-error", "%s callback is called although the %s may already have an error" % (cb, s), eng, fr, ins)


def mk(eng):
    return [NoIoAfterError()]


def run(rep, tier):
    rep.explain = ("Every call through a fill, skip, flush or read function pointer, in every calling context from every "
                   "public function and every callback the library installs: the object's error field must be provably zero there.")
    cfgs = ["rel64"] + (["dbg64", "track64", "rel32", "size64", "nobuilder64"] if tier == "thorough" else ["track64"])
    for c in cfgs:
        rep.run(roots(c, lambda m, r: arg_structs(m, r) & set(OBJECTS)), mk)
    need(rep)


def need(rep):
    fns = {k[2] for k in rep.obl}
    if len(rep.obl) < 5:
        raise Broken("fewer than five I/O callback call sites found (%r)" % fns)
