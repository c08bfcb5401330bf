from base import *
import membounds


def mk(eng):
    return membounds.mk_for("C04")(eng)


def run(rep, tier):
    membounds.run("C04", rep, tier, mk)
