from base import *
import membounds


def mk(eng):
    return membounds.mk_for("C03")(eng)


def run(rep, tier):
    membounds.run("C03", rep, tier, mk)
