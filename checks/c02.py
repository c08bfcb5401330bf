from base import *
import membounds


def mk(eng):
    return membounds.mk_for("C02")(eng)


def run(rep, tier):
    membounds.run("C02", rep, tier, mk)
