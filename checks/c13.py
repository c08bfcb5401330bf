"""C13: a failed allocation is reported as a memory error and its result is never used."""
from base import *


class Oom(Rule):
    def start(self, eng, st, fn, args, label):
        self.objs = objects(eng, args)
        error_params(eng, st, fn, args)
        self.entry = {o: st.norm(Fields(eng, s).get(st, o, "error")) for s, o in self.objs}
        self.memory = eng.m.enum_values("mpack_error_t").get("mpack_error_memory")

    def on_allocfail(self, eng, st, n, fr, ins):
        already = any(st.bounds(st.norm(Fields(eng, sn).get(st, o, "error")))[0] > 0 for sn, o in self.objs)
        if not st.ts.get("oom"):
            st.ts["oom"] = ("already in error: " if already else "") + fr.fn.where(ins)
        return ("allocation", fr.fn.where(ins), fr.fn.name, None)

    def on_access(self, eng, st, addr, ln, mode, fr, ins):
        if not st.ts.get("oom"):
            return None
        a = st.norm(addr)
        l = lin(a)
        ln = st.norm(ln)
        if ln.k == "c" and ln.a[0] == 0:
            return None
        return self.chk(not (not l[1] and l[0] < 4096), "null-not-used", "memory is accessed through the null result of a failed allocation", eng, fr, ins)

    def exit(self, eng, s, rv, fn, args, label):
        w = s.ts.get("oom")
        if not w or not self.objs:
            return None
        out = []
        for sn, o in self.objs:
            e = s.norm(Fields(eng, sn).get(s, o, "error"))
            b = s.bounds(e)
            before = (s.bounds(s.norm(self.entry[o]))[0] > 0 and "_init" not in fn.name) or w.startswith("already")
            out.append(self.chkexit((before and b[0] > 0) or b == (self.memory, self.memory), "oom-reported",
                                    "the allocation at %s can fail without the %s ending in mpack_error_memory (error in %s)" % (w, sn, b), eng, fn))
        return out


def mk(eng):
    return [Oom()]


def run(rep, tier):
    rep.explain = ("Every allocator call is followed through its failing outcome, in all calling contexts: no access through the null "
                   "result, and every return after it leaves the object in mpack_error_memory.")
    cfgs = ["rel64"] + (["track64", "dbg64", "rel32", "alloc64", "alloc2_64"] if tier == "thorough" else ["track64", "alloc2_64"])
    for c in cfgs:
        rep.run(roots(c, lambda m, r: arg_structs(m, r) & set(OBJECTS)), mk)
    if sum(1 for k in rep.obl if k[0] == "allocation") < 8:
        raise Broken("fewer than eight allocation sites found")
