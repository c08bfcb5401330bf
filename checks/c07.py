"""C07: every value is written in the shortest format of its type (and only formats of v4 in compatibility mode)."""
from c06 import *


def run(rep, tier):
    rep.explain = ("The same classes of values as for C06. In each class the format found at the old position must be the smallest of those able to represent every value of "
                   "the class; in v4 compatibility mode no opcode unknown to v4 may appear and extension types are refused.")
    cfgs = ["rel64", "size64", "def64"] + (["nobuilder64", "nostdlib64", "freestanding64"] if tier == "thorough" else [])
    for c in cfgs:
        rep.run(roots(c, pred, False), mk7)
    if len({k[2] for k in rep.obl}) < 25:
        raise Broken("fewer than 25 writing functions found")
