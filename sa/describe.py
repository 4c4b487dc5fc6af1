"""What a check analysed and by which rules, for the evidence file."""
from .spec import P

ENGINE = ("Every entry point of every deployable contract is interpreted over its syntax tree with symbolic arguments, caller and storage, "
          "splitting on undecided guards (trace partitioning; no solver, no execution of /repo). Each final partition carries its facts "
          "and its ordered effects (storage writes, external calls, ICX payments, events); an obligation is one rule instance on one partition "
          "or program construct. ")


def rules_text(pid):
    p = P.get(pid)
    return ENGINE + "Rules: " + p["rule"] + "." if p else ENGINE
