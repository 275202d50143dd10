"""Output is written in the target script: no internal marker, untouched source letter or foreign character appears in it."""
import json, os, random, unicodedata
from vf import core, names as N, sources as S
from vf.core import Violation, subseed, tx

ID = 'C11'
LEVEL = 'exploration'
RULE = ('a case is one text of generated words of a source script converted to one target; each distinct (source, target, nativize, text) counts once; '
        'all are non-trivial (every text has letters)')
ASSUMPTIONS = ['the characters each target may contain are frozen in spec/alphabet.json (harvested from conversions of the audited tree, reviewed for '
               'internal markers and stray letters)']
SHRINK = ('words', 'seps')
NEUTRAL = set(' \n\t,;-?!')
_alpha = None


def alpha():
    global _alpha
    if _alpha is None:
        with open(os.path.join(core.ROOT, 'spec', 'alphabet.json'), encoding='utf8') as f:
            _alpha = {k: set(v) for k, v in json.load(f).items() if k != 'Inter'}
    return _alpha


def jobs(tier, seed):
    big = tier == 'thorough'
    return [{'kind': 'src', 'src': s, 'n': 14 if big else 1, 'seed': subseed(seed, s)} for s in S.ALL] + \
           [{'kind': 'hyp', 'n': 1500 if big else 150, 'seed': subseed(seed, 'hyp', k)} for k in range(8)]


def run_job(job, rec):
    r = random.Random(job['seed'])
    if job['kind'] == 'hyp':
        from hypothesis import strategies as st
        from vf import gen, words as W
        def to_case(x):
            s, t, nat, ints = x
            ws = [w for w, _ in gen.decode(ints, S.profile(s))]
            ws = W.usable(ws, [s]) if s in W.MAIN else [w for w in ws if w != 'ॐ' and S.C05.ok(s, w)]
            if not ws or (s, t) == ('Tamil', 'IPA'):
                return None
            return {'src': s, 'tgt': t, 'nat': nat, 'words': ws, 'seps': [' ']}
        rec.hyp(st.tuples(st.sampled_from(S.ALL), st.sampled_from(sorted(alpha())), st.booleans(), gen.strategy(1, 12)), to_case, job['n'], job['seed'])
        return
    s = job['src']
    for i in range(job['n']):
        for t in sorted(alpha()):
            if (s, t) == ('Tamil', 'IPA'):
                continue
            ws = S.words(s, r, 24) + S.sweep(s, r, 16)
            rec.check({'src': s, 'tgt': t, 'nat': bool(r.getrandbits(1)), 'words': ws, 'seps': [' ', '\n', ' ', '। ']})
            rec.count('words', len(ws))


def judge(c):
    if not c['words']:
        return
    x = S.text(c['src'], c['words'], c['seps'])
    y = tx(c['src'], c['tgt'], x, c['nat'])
    ok = alpha().get(c['tgt'])
    if ok is None:
        return
    for ch in sorted(set(y)):
        if ch not in ok and ch not in NEUTRAL:
            raise Violation('%s->%s nativize=%r of %r contains U+%04X %s, which is not part of the target script: %r' % (
                c['src'], c['tgt'], c['nat'], x[:60], ord(ch), unicodedata.name(ch, '(unnamed)'), y[:80]))
    if x.strip() and not y.strip():
        raise Violation('%s->%s of %r is empty' % (c['src'], c['tgt'], x[:60]))
