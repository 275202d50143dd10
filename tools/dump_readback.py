"""Freeze, per script, how each of its letters reads back in Devanagari (homographs read as the canonical letter) and which features
lie outside the domain of reading back. Audited by hand; run on the audited tree only."""
import json, multiprocessing, os, random, sys
sys.path[:0] = ['/repo', os.path.dirname(os.path.dirname(os.path.abspath(__file__)))]
from vf import core, charted as C, gen, readback as R, stack, words as W
from vf.phon import *
from vf.props import C05, C06


def rd(s, w):
    return core.tx(s, 'Devanagari', C.text(s, [w], []))


def learn(s):
    p = C06.PROFILE if s in stack.FORWARD else C05.prof(s)
    m = {'cons': {}, 'sign': {}, 'vow': {}, 'mark': {'': ''}, 'bad': []}
    ok = lambda w: C05.ok(s, w)
    for c in p.cons:
        g = rd(s, [[[c], 0, '']])
        if g in p.cons:
            m['cons'][c] = g
    base = 'क'
    for v in range(-1, p.nv):
        w = [[[base], v, '']]
        if not ok(w):
            continue
        g = rd(s, w)
        for u in range(-1, 18):
            if g == base + (VIR if u < 0 else SIGNS[u]):
                m['sign'][str(v)] = u
        if v >= 0:
            g = rd(s, [[[], v, '']])
            if g in VOWELS:
                m['vow'][str(v)] = VOWELS.index(g)
    for k in MARKS:
        g = rd(s, [[[base], 0, k]])
        if g[:1] == base and g[1:] in MARKS:
            m['mark'][k] = g[1:]
    return s, m


def test(s):
    p = C06.PROFILE if s in stack.FORWARD else C05.prof(s)
    rng = random.Random(5)
    bad = []
    n = 0
    ws = []
    for nm in ('cv', 'v', 'ccv', 'mcv', 'cc_mid'):
        ws += rng.sample(x, min(len(x), 4000)) if (x := [w for w in W.sweep_words(nm, p.cons, p.nv, p.marks) if C05.ok(s, w) and R.ok(s, w)]) else []
    ws += [w for w in W.rand_words(rng, 4000, p) if not isinstance(w, str) and C05.ok(s, w) and R.ok(s, w)]
    for i in range(0, len(ws), 50):
        b = ws[i:i + 50]
        g = core.tx(s, 'Devanagari', C.text(s, b, ['\n'])).split('\n')
        n += len(b)
        if len(g) != len(b):
            g = [''] * len(b)
        bad += [(w, R.canon(s, w), y, C.text(s, [w], [])) for w, y in zip(b, g) if R.canon(s, w) != y]
    return s, n, bad


if __name__ == '__main__':
    ss = sorted(set(C05.SCRIPTS) | set(stack.FORWARD))
    with multiprocessing.Pool(8) as P:
        if 'learn' in sys.argv:
            d = dict(P.map(learn, ss))
            json.dump(d, open(R.FILE, 'w', encoding='utf8'), ensure_ascii=False, indent=0, sort_keys=True)
        R.load()
        for s, n, bad in P.imap(test, ss):
            if bad or 'v' in sys.argv:
                print(s, '%d/%d' % (len(bad), n), [(e, g) for w, e, g, t in sorted(bad, key=lambda z: len(z[3]))[:9]])
