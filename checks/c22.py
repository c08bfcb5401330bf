"""C22: no recursion and no data-dependent stack allocation, so stack depth is bounded."""
from base import *
from callgraph import CallGraph


def sccs(graph):
    index, low, on, stack, out = {}, {}, set(), [], []

    def go(v):
        index[v] = low[v] = len(index)
        stack.append(v)
        on.add(v)
        for w in graph[v]:
            if w not in index:
                go(w)
                low[v] = min(low[v], low[w])
            elif w in on:
                low[v] = min(low[v], index[w])
        if low[v] == index[v]:
            c = []
            while True:
                w = stack.pop()
                on.discard(w)
                c.append(w)
                if w == v:
                    break
            out.append(c)
    for v in graph:
        if v not in index:
            go(v)
    return out


def run(rep, tier):
    rep.explain = ("Call graph of the compiled library, indirect calls resolved to every callback the library installs: no cycle. "
                   "Every stack slot has a compile-time size. The deepest possible frame sum is reported.")
    cfgs = ["rel64", "dbg64", "nobuilder64"] + (["rel32", "size64", "track64", "def64", "nomalloc64"] if tier == "thorough" else [])
    deepest = {}
    for cfg in cfgs:
        m = driver.module(cfg)
        rep.configs.append(cfg)
        cg = CallGraph(m)
        g = cg.callees()
        ind = sum(1 for f, i in cg.calls if i["callee"][0] == "r")
        res = sum(1 for f, i in cg.calls if i["callee"][0] == "r" and cg.pts.get(("r", f.name, i["callee"][1])))
        if res < 3:
            raise Broken("only %d of %d calls through pointers reach a library callback" % (res, ind))
        rep.cov.setdefault("indirect_calls", {})[cfg] = dict(sites=ind, may_reach_library_callbacks=res)
        rep.functions |= set(g)
        cyc = {}
        for c in sccs(g):
            if len(c) > 1 or c[0] in g[c[0]]:
                for n in c:
                    cyc[n] = sorted(c)
        rg = {n: set() for n in g}
        for n in g:
            for x in g[n]:
                rg[x].add(n)

        def owner(c):
            """the public function a cycle belongs to: one of its members, or the first that leads to it"""
            seen, lvl = set(c), sorted(c)
            while lvl:
                pub = [n for n in lvl if not m.fns[n].local]
                if pub:
                    return pub[0]
                lvl = sorted({p for n in lvl for p in rg[n]} - seen)
                seen |= set(lvl)
            return sorted(c)[0]
        for n, f in sorted(m.fns.items()):
            msg = ""
            if n in cyc:
                nxt = [x for x in g[n] if x in cyc[n]]
                msg = "recursive: %s calls %s at %s; the depth follows the data" % (n, nxt[0], g[n][nxt[0]])
            rep.check(n not in cyc, "no-recursion", "%s:%s" % (f.file, f.line), owner(cyc[n]) if n in cyc else n, msg, cyc.get(n, [n]), cfg)
            size = 0
            for blk in f.blocks:
                for ins in blk:
                    if ins["op"] == "alloca":
                        s = ins["asize"]
                        rep.check(not ins.get("dyn"), "fixed-stack-slot", f.where(ins), n,
                                  "stack allocation of a size computed at run time", [n], cfg)
                        size += s
            f.frame = size
        memo = {}

        def depth(n):
            if n not in memo:
                memo[n] = 0
                memo[n] = m.fns[n].frame + max([depth(x) for x in g[n]] or [0])
            return memo[n]
        deepest[cfg] = max((depth(n), n) for n in g)
    rep.cov["deepest_locals_bytes"] = {c: dict(bytes=d[0], function=d[1]) for c, d in deepest.items()}
    rep.roots = len(rep.functions)
