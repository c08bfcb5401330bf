"""ctypes binding of prover.cpp: entailment of linear inequalities"""
import ctypes, os, subprocess
from array import array
HERE = os.path.dirname(os.path.abspath(__file__))
BUILD = os.path.join(os.path.dirname(HERE), "build")
_lib = None
M64 = (1 << 64) - 1


def lib():
    global _lib
    if _lib is None:
        so = os.path.join(BUILD, "prover.so")
        src = os.path.join(HERE, "prover.cpp")
        if not os.path.exists(so) or os.path.getmtime(so) < os.path.getmtime(src):
            os.makedirs(BUILD, exist_ok=True)
            tmp = so + ".%d" % os.getpid()
            subprocess.check_call(["g++", "-O2", "-shared", "-fPIC", "-o", tmp, src])
            os.rename(tmp, so)
        l = ctypes.CDLL(so)
        l.ctx_new.restype = ctypes.c_void_p
        l.ctx_del.argtypes = [ctypes.c_void_p]
        l.ctx_atoms.argtypes = [ctypes.c_void_p, ctypes.c_int, ctypes.c_void_p]
        l.ctx_facts.argtypes = [ctypes.c_void_p, ctypes.c_int, ctypes.c_void_p]
        l.ctx_prove.argtypes = [ctypes.c_void_p, ctypes.c_void_p, ctypes.c_int, ctypes.c_int]
        l.ctx_reduce.argtypes = [ctypes.c_void_p, ctypes.c_int, ctypes.c_int, ctypes.c_void_p]
        _lib = l
    return _lib


class Ctx:
    """facts and bounds of one state, loaded into the native prover; only grows"""
    __slots__ = ("h", "ids", "l")

    def __init__(self, st):
        self.l = lib()
        self.h = self.l.ctx_new()
        self.ids = {}
        fs = list(st.lf.items())
        self.load(st, fs)

    def __del__(self):
        self.l.ctx_del(self.h)

    def load(self, st, facts, atoms=()):
        ids = self.ids
        bd = array("Q")
        nb = 0
        todo = []
        for x in atoms:
            if x not in ids:
                todo.append(x)
        for f, _ in facts:
            for x, _k in f:
                if x not in ids:
                    todo.append(x)
        facts = list(facts)
        while todo:
            x = todo.pop()
            if x in ids:
                continue
            ids[x] = len(ids)
            lo, hi = st.bounds(x)
            bd.extend((lo & M64, lo >> 64 & M64, hi & M64, hi >> 64 & M64))
            nb += 1
            if x.k != "a":
                for c, f in st.eng.relations(st, x):
                    facts.append((f, -c))
                    for y, _k in f:
                        if y not in ids:
                            todo.append(y)
        if nb:
            self.l.ctx_atoms(self.h, nb, bd.buffer_info()[0])
        if facts:
            fd = array("Q")
            for f, ub in facts:
                fd.append(len(f))
                for x, k in f:
                    fd.extend((ids[x], k & M64, k >> 64 & M64))
                fd.extend((ub & M64, ub >> 64 & M64))
            self.l.ctx_facts(self.h, len(facts), fd.buffer_info()[0])

    def prove(self, st, c, f, depth, steps):
        ids = self.ids
        for x, _ in f:
            if x not in ids:
                self.load(st, (), [y for y, _ in f])
                break
        q = array("Q", (len(f), c & M64, c >> 64 & M64))
        for x, k in f:
            q.extend((ids[x], k & M64, k >> 64 & M64))
        return bool(self.l.ctx_prove(self.h, q.buffer_info()[0], depth, steps))


def reduce(st, steps=60):
    """drop facts of st entailed by the other facts and the intervals"""
    fs = [(f, ub) for f, ub in st.lf.items() if len(f) <= 7]
    if len(fs) < 2:
        return
    c = Ctx.__new__(Ctx)
    c.l = lib()
    c.h = c.l.ctx_new()
    c.ids = {}
    c.load(st, fs)
    out = (ctypes.c_ubyte * len(fs))()
    c.l.ctx_reduce(c.h, len(fs), steps, out)
    st.lf = {f: ub for i, (f, ub) in enumerate(fs) if not out[i]}
    st._ix = None
