from base import *
import membounds


def mk(eng):
    return membounds.mk_for("C01")(eng)


def run(rep, tier):
    membounds.run("C01", rep, tier, mk)
