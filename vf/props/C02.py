"""Round trip between an Indic script and a romanization (either way), and between two romanizations, is the identity."""
from vf import words as W
from vf.props.C01 import judge, jobs as _jobs, run_job  # noqa
from vf.props import C01

ID = 'C02'
LEVEL = 'exploration'
RULE = C01.RULE
ASSUMPTIONS = C01.ASSUMPTIONS


def pairs():
    R = W.ROMAN
    return [(a, b) for a in W.INDIC for b in R] + [(b, a) for a in W.INDIC for b in R] + [(a, b) for a in R for b in R if a != b]


def jobs(tier, seed):
    return _jobs(tier, seed, pairs())
