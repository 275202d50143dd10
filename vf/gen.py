"""Structured generators: lists of integers (drawn by Hypothesis) decoded into abstract words."""
from .phon import *

# consonant inventories
C33 = CONS[:33]
C34 = C33 + ['ळ']
CALL = CONS + NUKTA


class Profile:
    """What letters words may use."""

    def __init__(self, cons=C33, nv=14, marks=('ँ', 'ं', 'ः'), indep=True, cluster=4, final=True, avagraha=False,
                 hiatus=True, om=True):
        self.cons, self.nv, self.marks = cons, nv, marks
        self.indep, self.cluster, self.final, self.avagraha, self.hiatus = indep, cluster, final, avagraha, hiatus
        self.om = om


ONSET_SIZES = [1] * 9 + [2] * 7 + [3] * 2 + [4]
MARKSLOT = 9


def decode(ints, p):
    """ints -> list of (word, sepcode). Each int describes one syllable and whether the word ends after it."""
    words, w = [], []
    for x in ints:
        x, brk = divmod(x, 4)
        x, kind = divmod(x, 19)
        x, size = divmod(x, len(ONSET_SIZES))
        x, vi = divmod(x, 23)
        x, mi = divmod(x, MARKSLOT)
        x, sep = divmod(x, 16)
        on = []
        n = ONSET_SIZES[size] if kind else 0
        if kind == 1 and p.avagraha and w and w[-1][1] != -1:
            w.append([[], -2, ''])
            n = 1
        n = min(n, p.cluster)
        if n == 0 and (not p.indep or (w and not p.hiatus)):
            n = 1
        for _ in range(n):
            x, ci = divmod(x, len(p.cons))
            on.append(p.cons[ci])
        if n == 0:
            v = vi % p.nv
        elif vi >= 21 and p.final:
            v = -1
        else:
            v = vi % p.nv
        m = ''
        if v >= 0 and mi < len(p.marks):
            m = p.marks[mi]
        w.append([on, v, m])
        if brk == 0 or v == -1 or len(w) >= 7:
            words.append((w, sep))
            w = []
    if w:
        words.append((w, 0))
    return words


def strategy(lo=1, hi=40):
    from hypothesis import strategies as st
    return st.lists(st.integers(0, 2 ** 64 - 1), min_size=lo, max_size=hi)


SEPS = [' '] * 8 + ['\n', '\t', ', ', '; ', ' - ', '? ', '! ', '  ', '। ', '॥\n', ' ।\n', ' ॥ ']
