"""Scripts that stack consonants, write vowels before the consonant, or use final letters."""
from vf import gen, stack
from vf.props import C05
from vf.props.C05 import judge  # noqa

ID = 'C06'
LEVEL = 'exploration'
RULE = C05.RULE
ASSUMPTIONS = ['consonant, subscript, ligature, vowel-sign and final-letter charts in spec/stack.json', 'onsets of at most two consonants']
SHRINK = C05.SHRINK
PROFILE = gen.Profile(cluster=2, om=False)


def jobs(tier, seed):
    return C05.jobs(tier, seed, stack.FORWARD)


def run_job(job, rec):
    C05.run_job(job, rec, PROFILE)
