"""C17: the arithmetic behind sizes, copies and limits neither wraps nor narrows"""
from base import *
from domain import ASTEPS
import domain
import membounds
from models import TOPPAD
from terms import mk as mk_t

ALLOC = {"malloc": (0,), "realloc": (1,), "calloc": (0, 1), "fread": (1, 2), "fwrite": (1, 2), "fseek": (1,),
         "memcpy": (2,), "memmove": (2,), "memset": (2,), "memcmp": (2,), "strncmp": (2,)}
ARITH = ("add", "sub", "mul", "shl", "and", "or", "xor", "lshr", "ashr", "udiv", "urem", "sdiv", "srem")
CAST = ("zext", "sext", "trunc", "ptrtoint", "inttoptr", "bitcast", "freeze")


# what counts things in memory is bounded by it: the bytes used of a builder page (proved by C02), the contents of a build in distinct pages,
# one node for every level of the parse stack and one byte of the message for every node
COUNTERS = [("mpack_builder_page_t", "bytes_used", lambda m, top: m.consts["MPACK_BUILDER_PAGE_SIZE"]),
            ("mpack_build_t", "bytes", lambda m, top: top - TOPPAD),
            (TREE, "node_count", lambda m, top: top // 17),
            (TREE, "parser.level", lambda m, top: top // 17)]

# positions within one page of a build, walked by two nested loops; what is read there is C02's concern
RESOLVE = "mpack_builder_resolve"


class Slice:
    """the arithmetic whose result may become a size (of a block, copy or transfer, or kept in a field), or one side of an unsigned comparison"""
    def __init__(self, m):
        self.m = m
        self.callers = {}
        for f in m.fns.values():
            for b in f.blocks:
                for i in b:
                    if i["op"] == "call" and i["callee"][0] == "fn":
                        self.callers.setdefault(i["callee"][1], []).append((f, i))
        self.size, self.limit = set(), set()
        for f in m.fns.values():
            for b in f.blocks:
                for i in b:
                    self.sinks(f, i)

    def sinks(self, f, i):
        op = i["op"]
        if op == "call":
            c, a = i["callee"], i["args"]
            if c[0] == "fn":
                n = c[1]
                if n in self.m.fns and self.m.fns[n].blocks:
                    return
                k = ALLOC.get(n) or ((2,) if n.startswith(("llvm.memcpy", "llvm.memmove", "llvm.memset")) else ())
            else:
                k = range(len(a))
            for x in k:
                if x < len(a):
                    self.walk(f, a[x], self.size)
        elif op == "store":
            a = f.insts.get(i["ops"][1][1]) if i["ops"][1][0] == "r" else None
            if i["size"] >= 4 and i["vty"] != "ptr" and a is not None and a["op"] == "getelementptr" and (a["gep"].get("sty") or "").startswith("struct."):
                self.walk(f, i["ops"][0], self.size)
        elif op == "icmp" and i["pred"] in ("ult", "ule", "ugt", "uge"):
            for o in i["ops"]:
                self.walk(f, o, self.limit)

    def walk(self, f, o, out):
        wl = [(f, o)]
        while wl:
            f, o = wl.pop()
            if not isinstance(o, (list, tuple)) or not o or o[0] != "r" or (f.name, o[1]) in out:
                continue
            out.add((f.name, o[1]))
            if o[1] < len(f.args):
                wl += [(g, i["args"][o[1]]) for g, i in self.callers.get(f.name, ()) if o[1] < len(i["args"])]
                continue
            i = f.insts.get(o[1])
            if i is None:
                continue
            op = i["op"]
            if op == "phi":
                wl += [(f, x) for _, x in i["in"]]
            elif op == "select":
                wl += [(f, x) for x in i["ops"][1:]]
            elif op in ARITH or op in CAST:
                wl += [(f, x) for x in i["ops"]]
            elif op == "call" and i["callee"][0] == "fn" and i["callee"][1] in self.m.fns:
                g = self.m.fns[i["callee"][1]]
                wl += [(g, x["ops"][0]) for b in g.blocks for x in b if x["op"] == "ret" and x["ops"]]


class Sizes(membounds.Mem):
    def start(self, eng, st, fn, args, label):
        super().start(eng, st, fn, args, label)
        m = eng.m
        domain.THR = sorted(set(domain.THR) | {m.consts["MPACK_BUILDER_PAGE_SIZE"] + k for k in (-64, 0, 64)})
        if not hasattr(m, "sizes"):
            m.sizes = Slice(m)
        self.size, self.limit = m.sizes.size, m.sizes.limit
        if fn.name in eng.installed and len(args) == 2 and args[1].w == eng.pb:
            st.set_u(args[1], 1, (1 << args[1].w) - 1)      # a skip function is called to skip something (see C28)

    def on_load(self, eng, st, addr, size, v, fr, ins):
        super().on_load(eng, st, addr, size, v, fr, ins)
        if not isinstance(v, T) or v.k == "c":
            return
        m = eng.m
        if not hasattr(m, "counters"):
            m.counters = {}
            for sn, f, n in COUNTERS:
                o = m.offset_of(sn, f)
                if o is not None:
                    m.counters[sn, o[0], o[1]] = n(m, 1 << eng.pb)
        key, off = eng.split(addr)
        if not isinstance(off, int):
            return
        for (sn, o, z), n in m.counters.items():
            if size == z and off >= o and eng.models.objptr(eng, mklin(addr.w, ladd(lin(addr), (-o, ())))) == sn:
                st.set_u(v, 0, n)

    def failed(self, eng, st):
        return any(st.bounds(Fields(eng, sn).get(st, o, "error"))[0] > 0 for sn, o in self.objs)

    def on_arith(self, eng, st, op, a, b, r, fr, ins):
        if op not in ("add", "sub", "mul", "shl") or not isinstance(r, T) or r.w < 16:
            return None
        k = (fr.fn.name, ins["id"])
        if RESOLVE == fr.fn.name or RESOLVE in fr.stack:
            return None
        if ins.get("nsw") or k not in self.size and (op == "sub" or k not in self.limit):
            return None
        w = r.w
        ok = r.k == "c" or self.failed(eng, st)
        if ok:
            pass
        elif op == "add":
            neg = [x for x in (a, b) if x.k == "c" and x.a[0] >> (w - 1)]
            ok = r.k == "lin" or st.prove(ladd(ladd(lin(a), lin(b)), (-((1 << w) - 1), ())), ASTEPS)
            if neg and not ok:      # a decrement
                y = b if neg[0] is a else a
                ok = st.prove(lsub(((1 << w) - neg[0].a[0], ()), lin(y)), ASTEPS)
        elif op == "sub":
            ok = st.prove(lsub(lin(b), lin(a)), ASTEPS)
        elif op == "mul":
            ok = r.k in ("lin", "mulx") or st.bounds(a)[1] * st.bounds(b)[1] < 1 << w or self.scaled(st, a, b, w) or self.divided(st, a, b, w)
        else:
            ok = b.k == "c" and st.bounds(a)[1] << b.a[0] < 1 << w
        return self.chk(ok, "no-wrap", lambda: "%s %s %s may wrap" % (show(a)[:60], op, show(b)[:60]), eng, fr, ins)

    def divided(self, st, a, b, w):
        """one factor is known to be at most some constant divided by the other"""
        for x, y in ((a, b), (b, a)):
            for c in ((1 << w) - 1, (1 << (w - 1)) - 1, (1 << 32) - 1):
                d = mk_t("udiv", w, (const(w, c), x))
                if st.prove(lsub(lin(y), lin(d)), ASTEPS):
                    return True
        return False

    def scaled(self, st, a, b, w):
        if a.k == "c":
            a, b = b, a
        return b.k == "c" and st.prove(ladd(lscale(lin(a), b.a[0]), (-((1 << w) - 1), ())), ASTEPS)

    def on_trunc(self, eng, st, a, w, fr, ins):
        k = (fr.fn.name, ins["id"])
        if w < 16 or not isinstance(a, T) or k not in self.size and k not in self.limit:
            return None
        return self.chk(st.bounds(a)[1] < 1 << w or self.failed(eng, st), "no-narrowing",
                        lambda: "%s may not fit %d bits" % (show(a)[:80], w), eng, fr, ins)


def mk(eng):
    return [Sizes()]


def run(rep, tier):
    rep.explain = """
A backward slice over the intermediate representation finds the additions, subtractions, multiplications, left shifts and conversions to a narrower
type whose result may become a size (of an allocation, copy, transfer or callback argument, or a value kept in a field of a structure of the library)
or one side of an unsigned comparison. At each of them, on every path of every entry point, the abstract state has to prove that the exact result
fits the type (no-wrap, no-narrowing), with 32-bit and 64-bit size_t. Exempt: signed arithmetic, states in which the object's error is set (the
result is not used), subtractions that only feed comparisons, positions inside a page of a build while it is resolved. Assumed: what counts things
kept in memory is bounded by memory (COUNTERS)."""
    for c in ["rel32", "rel64"]:
        rep.run(membounds.tasks([c], parse=True), mk)
    if len(rep.obl) < 90:
        raise Broken("only %d obligations: sizes were not found" % len(rep.obl))
