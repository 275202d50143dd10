"""Dump letter / subscript / sign charts of the stacking scripts (run once; output is spec/stack.json)."""
import sys, json, multiprocessing as mp
sys.path[:0] = ['/verif', '/repo']
from vf import core, gen
from vf.phon import *
core.api()
SC = sys.argv[2].split(',')


def dump(S):
    f = lambda t: core.tx('Devanagari', S, t)
    K = f('क')
    suf = lambda x: x[len(K):] if x.startswith(K) else None
    d = {'base': {c: f(c) for c in gen.CALL}, 'sub': {c: f('प्' + c)[len(f('प')):] for c in gen.C33}, 'vir': suf(f('क्'))}
    d['lig'] = {}
    for a in gen.C33:
        for b in gen.C33:
            x = f(a + '्' + b)
            if x != d['base'][a] + d['sub'][b]:
                d['lig'][a + b] = x
    d['sign'] = {}
    for s in SIGNS:
        x = f('क' + s)
        i = x.find(K)
        d['sign'][s] = [x[:i], x[i + len(K):]] if i >= 0 else None
    tall, ch = [], set()
    aa = d['sign']['ा']
    if S in ('Burmese', 'Mon', 'TaiTham', 'LaoTham', 'LueTham', 'KhuenTham', 'Kawi') and aa:
        for on in gen.C33 + [a + b for a in gen.C33 for b in gen.C33]:
            x = f('्'.join(on) + 'ा')
            c = d['lig'].get(on, d['base'][on[0]] + ''.join(d['sub'][y] for y in on[1:]))
            if x != aa[0] + c + aa[1]:
                assert x.startswith(c), (S, on, x, c)
                tall.append(on)
                ch.add(x[len(c):])
        assert len(ch) == 1, (S, ch)
        d['tall'], d['tallaa'] = tall, ch.pop()
    d['vow'] = {v: f(v) for v in VOWELS}
    d['mark'] = {'': '', **{m: suf(f('क' + m)) for m in MARKS}}
    d['other'] = {x: f(x) for x in DIGITS + [AVAGRAHA, DANDA, DDANDA]}
    return S, d


with mp.Pool(8) as p:
    out = dict(p.map(dump, SC, chunksize=1))
json.dump(out, open(sys.argv[1], 'w'), ensure_ascii=False, indent=0)
