"""C28: failures of sources, sinks and files, and error results of internal functions, always become the object's error"""
from base import *
from domain import ASTEPS

IO = ("fill", "skip", "flush", "read")
SEEK = ("fseek", "ftell", "fseek-past")


class Failures(Rule):
    def start(self, eng, st, fn, args, label):
        error_params(eng, st, fn, args)
        eng.iofail = True
        m = eng.m
        if not hasattr(m, "errfns"):
            m.errfns = {n for n, f in m.fns.items() if f.argdi and iserr(m, f.argdi[0])}
        eng.split_result = m.errfns
        self.objs = objects(eng, args)
        self.seen = {}
        if fn.name in eng.installed and len(args) == 2 and args[1].w == eng.pb:
            st.set_u(args[1], 1, (1 << args[1].w) - 1)      # a skip function is called to skip something (see on_callback)

    def haserr(self, eng, s):
        return any(s.bounds(Fields(eng, sn).get(s, o, "error"))[0] > 0 for sn, o in self.objs)

    def on_returned(self, eng, st, name, args, rv, fr, ins):
        if name in eng.split_result and isinstance(rv, T):
            self.seen[(fr.fn.where(ins), fr.fn.name, name)] = 1
            if st.bounds(rv)[0] > 0:
                st.ts.setdefault("failed-call", (name, fr.fn.name, fr.fn.where(ins)))

    def on_callback(self, eng, st, cb, f, args, fr, ins):
        k = st.ts.get("iofail")
        out = []
        if cb == "skip":
            out.append(self.chk(st.prove(ladd(lscale(lin(args[1]), -1), (1, ())), ASTEPS), "skip-something", "the skip function is called to skip nothing", eng, fr, ins))
        if cb in IO:
            out.append(self.chk(not k or k in SEEK or self.haserr(eng, st), "stop-at-failure",
                                "the %s function is called after %s failed, with no error set" % (cb, k), eng, fr, ins))
        return out

    def on_fseek(self, eng, st, args, fr, ins):
        if st.bounds(args[2]) == (1, 1):
            return self.chk(st.bounds(args[1])[1] < 1 << (args[1].w - 1), "seek-forward",
                            "the amount skipped may be negative when converted to long", eng, fr, ins)

    def exit(self, eng, s, rv, fn, args, label):
        k = s.ts.get("iofail")
        c = s.ts.get("failed-call")
        out = []
        if k or c:
            err = self.haserr(eng, s)
        if k == "fclose" and fn.name not in eng.installed:
            k = None                # a file that has been read; only its destruction reports on closing
        if k:
            ok = err
            if not ok and isinstance(rv, T):
                b = s.bounds(rv)
                w = rv.w
                if k == "read-none":
                    ok = w == 1 and b[1] == 0        # waiting for data
                elif k in ("fread", "fill") and w == eng.pb and fn.name in eng.installed:
                    ok = b[1] == 0 or b[0] == (1 << w) - 1        # a source says so itself
            out.append(self.chkexit(ok, "failure-reported", "%s, and no error is set" % (
                "fseek() may have gone past the end" if k == "fseek-past" else "%s() fails or comes up short" % k.split("-")[0]), eng, fn))
        if c:
            ok = err or isinstance(rv, T) and iserr(eng.m, fn.argdi[0]) and s.bounds(rv)[0] > 0
            out.append(self.ok("result-used", c[2], c[1]) if ok else
                       self.no("result-used", c[2], c[1], "the error returned by %s() is dropped" % c[0], eng))
        return out


def iserr(m, di):
    return di is not None and di >= 0 and m.strip(di) is not None and m.strip(di) >= 0 and m.di[m.strip(di)].get("name") == "mpack_error_t"


def mk(eng):
    return [Failures()]


def run(rep, tier):
    rep.explain = ("Every call of fopen, fread, fwrite, fseek, ftell, fclose and of the fill and read callbacks is followed into its failing outcome (nothing read, short write, -1), in all "
                   "calling contexts; every exit with such a failure behind it has an error set in the object or says so to the library as a source does. An error code returned by any "
                   "internal function likewise ends up as the object's error or the result.")
    for c in ["rel64", "track64"] + (["dbg64", "size64", "rel32"] if tier == "thorough" else []):
        rep.run(roots(c, lambda m, r: arg_structs(m, r) & set(OBJECTS)), mk)
    fns = {k[2] for k in rep.obl if k[0] == "failure-reported"}
    if len(fns) < 20:
        raise Broken("only %d functions in which an operation can fail" % len(fns))
