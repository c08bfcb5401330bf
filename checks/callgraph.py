"""Field-based points-to analysis of function pointers over the IR, and the call graph it gives."""


class CallGraph:
    def __init__(self, m):
        self.m = m
        self.pts = {}
        self.succ = {}
        self.build()

    def node_of(self, fn, o):
        if not isinstance(o, (list, tuple)) or not o:
            return None
        if o[0] == "r":
            return ("r", fn.name, o[1])
        if o[0] in ("fn", "g") and o[1] in self.m.fns:
            return ("f", o[1])
        return None

    def cell(self, fn, o):
        if o and o[0] == "r":
            i = fn.insts.get(o[1])
            if i is not None and i["op"] == "getelementptr" and not i["gep"]["var"]:
                return ("fld", i["gep"].get("sty"), i["gep"]["off"])
            return ("mem", fn.name, o[1])
        if o and o[0] == "g":
            return ("glob", o[1])
        return None

    def edge(self, a, b):
        if a is None or b is None:
            return
        self.succ.setdefault(a, set()).add(b)
        self.wl.append(a)

    def build(self):
        self.wl = []
        self.calls = []     # (fn, ins)
        for fn in self.m.fns.values():
            for blk in fn.blocks:
                for i in blk:
                    op = i["op"]
                    me = ("r", fn.name, i.get("id"))
                    if op == "load" and i["ty"] == "ptr":
                        self.edge(self.cell(fn, i["ops"][0]), me)
                    elif op == "store":
                        self.edge(self.node_of(fn, i["ops"][0]), self.cell(fn, i["ops"][1]))
                    elif op == "phi":
                        for _, o in i["in"]:
                            self.edge(self.node_of(fn, o), me)
                    elif op == "select":
                        for o in i["ops"][-2:]:
                            self.edge(self.node_of(fn, o), me)
                    elif op == "ret" and i["ops"]:
                        self.edge(self.node_of(fn, i["ops"][0]), ("ret", fn.name))
                    elif op == "call":
                        self.calls.append((fn, i))
        self.bound = set()
        for fn, i in self.calls:
            c = i["callee"]
            if c[0] in ("fn", "g"):
                self.bind(fn, i, c[1])
        while True:
            self.solve()
            n = len(self.bound)
            for fn, i in self.calls:
                if i["callee"][0] == "r":
                    for t in self.pts.get(("r", fn.name, i["callee"][1]), ()):
                        self.bind(fn, i, t)
            if len(self.bound) == n:
                break

    def bind(self, fn, i, target):
        k = (fn.name, i["id"], target)
        if k in self.bound:
            return
        self.bound.add(k)
        t = self.m.fns.get(target)
        if t is None:
            return
        for n, a in enumerate(i["args"]):
            self.edge(self.node_of(fn, a), ("r", target, n))
        self.edge(("ret", target), ("r", fn.name, i["id"]))

    def solve(self):
        for a in list(self.succ):
            if a[0] == "f":
                self.pts.setdefault(a, set()).add(a[1])
        wl = list(self.succ)
        while wl:
            a = wl.pop()
            p = self.pts.get(a)
            if not p:
                continue
            for b in self.succ.get(a, ()):
                q = self.pts.setdefault(b, set())
                if not p <= q:
                    q |= p
                    wl.append(b)

    def callees(self):
        g = {n: {} for n in self.m.fns}
        for fn, i in self.calls:
            c = i["callee"]
            names = [c[1]] if c[0] in ("fn", "g") else sorted(self.pts.get(("r", fn.name, c[1]), ())) if c[0] == "r" else []
            for n in names:
                if n in self.m.fns:
                    g[fn.name].setdefault(n, fn.where(i))
        return g
