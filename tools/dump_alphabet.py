"""Harvests, per target, the characters conversions from the modelled scripts produce (spec/alphabet.json). Run once on the audited tree."""
import json, multiprocessing as mp, os, random, sys
sys.path[:0] = [os.path.dirname(os.path.dirname(os.path.abspath(__file__)))]
from vf import core, names as N, sources as S

K = int(sys.argv[1]) if len(sys.argv) > 1 else 8


def go(a):
    s, t = a
    r = random.Random('alpha' + s + t)
    d = set()
    for i in range(K):
        x = S.text(s, S.words(s, r, 40) + S.sweep(s, r, 200), [' ', '\n', ' ', '। '])
        for nat in (False, True):
            d |= set(core.tx(s, t, x, nat))
    return s, t, d


if __name__ == '__main__':
    al = N.all_names()
    res = {t: {} for t in al}
    with mp.Pool(8) as p:
        for s, t, d in p.imap_unordered(go, [(s, t) for s in S.ALL for t in al if (s, t) != ('Tamil', 'IPA')], chunksize=16):
            for c in d:
                res[t].setdefault(c, []).append(s)
    rare = {t: {c: v for c, v in d.items() if len(v) <= 3} for t, d in res.items()}
    json.dump(rare, open('/tmp/x/rare.json', 'w'), ensure_ascii=False)
    out = {t: ''.join(sorted(res[t])) for t in al}
    json.dump(out, open(os.path.join(core.ROOT, 'spec', 'alphabet.json'), 'w', encoding='utf8'), ensure_ascii=False, indent=0)
