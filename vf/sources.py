"""Text in any of the modelled scripts (main, linear, stacking), written by the models and never by the code under test."""
import random
from . import charted as C, gen, stack, words as W
from .props import C05, C06

LIN = [s for s in C05.SCRIPTS if s not in ('RomanSemitic', 'ShanLoC', 'TamilBrahmi') and not s.startswith('Batak')]
ALL = list(W.MAIN) + [s for s in LIN if s not in W.MAIN] + [s for s in stack.FORWARD if s not in W.MAIN and s not in LIN
                                                           and s not in ('Shan', 'KhamtiShan', 'TaiLaing')]


def profile(s):
    return C06.PROFILE if s in stack.FORWARD and s not in W.MAIN else gen.Profile() if s not in W.MAIN else W.FULL


def words(s, rng, n, p=None):
    """n usable abstract words of script s."""
    p = p or profile(s)
    out = []
    while len(out) < n:
        ws = W.rand_words(rng, n, p)
        ws = W.usable(ws, [s]) if s in W.MAIN else [w for w in ws if w != 'ॐ' and C05.ok(s, w)]
        out += ws
    return out[:n]


def text(s, ws, seps):
    return W.text(s, ws, seps) if s in W.MAIN else C.text(s, ws, seps)


def sweep(s, rng, n):
    p = profile(s)
    al = [w for nm in ('cv', 'v') for w in W.sweep_words(nm, p.cons, p.nv, p.marks)]
    ws = rng.sample(al, min(n, len(al)))
    return W.usable(ws, [s]) if s in W.MAIN else [w for w in ws if C05.ok(s, w)]
