"""Line and word independence: a text converts line by line, and (where the target does not rewrite spaces) word by word."""
import random
from vf import core, gen, names as N, sources as S, words as W
from vf.core import expect, subseed, tx

ID = 'C10'
LEVEL = 'exploration'
RULE = ('a case is one text of generated words joined by a line break or a space, compared with the join of the conversions of its pieces; each distinct '
        '(source, target, nativize, separator, words) counts once; non-trivial if it has at least two words')
ASSUMPTIONS = ['Hebr (final letters by position in the text) is left out, and for the space also the targets that write spaces their own way']
SHRINK = ('words',)
NOT = {'Hebr'}
NOSPACE = {'Tibetan', 'TibetanLoC', 'Khojki', 'Bhaiksuki', 'Kaithi', 'OldPersian', 'PhagsPa', 'Ugar'}
NOT_PAIR = {('Tamil', 'IPA'), ('RussianCyrillic', 'Kharoshthi')}


def jobs(tier, seed):
    big = tier == 'thorough'
    return [{'kind': 'src', 'src': s, 'n': 16 if big else 1, 'seed': subseed(seed, s)} for s in S.ALL] + \
           [{'kind': 'hyp', 'n': 1500 if big else 120, 'seed': subseed(seed, 'hyp', k)} for k in range(8)]


def usable(s, ws):
    return W.usable(ws, [s]) if s in W.MAIN else [w for w in ws if w != 'ॐ' and S.C05.ok(s, w)]


def run_job(job, rec):
    r = random.Random(job['seed'])
    al = [t for t in N.all_names() if t not in NOT]
    if job['kind'] == 'hyp':
        from hypothesis import strategies as st
        def to_case(x):
            s, t, nat, sep, ints = x
            ws = usable(s, [w for w, _ in gen.decode(ints, S.profile(s))])
            if not ws or (s, t) in NOT_PAIR or sep == ' ' and t in NOSPACE:
                return None
            return {'src': s, 'tgt': t, 'nat': nat, 'sep': sep, 'words': ws}
        rec.hyp(st.tuples(st.sampled_from(S.ALL), st.sampled_from(al), st.booleans(), st.sampled_from(['\n', ' ']), gen.strategy(2, 12)), to_case,
                job['n'], job['seed'], nontrivial=lambda c: len(c['words']) > 1)
        return
    s = job['src']
    for t in al:
        if (s, t) in NOT_PAIR:
            continue
        for i in range(job['n']):
            for sep in ('\n', ' '):
                if sep == ' ' and t in NOSPACE:
                    continue
                ws = S.words(s, r, r.randrange(2, 12))
                rec.check({'src': s, 'tgt': t, 'nat': bool(r.getrandbits(1)), 'sep': sep, 'words': ws})
                rec.count('words', len(ws))


def judge(c):
    if not c['words']:
        return
    s, t, sep = c['src'], c['tgt'], c['sep']
    ps = [S.text(s, [w], [' ']) for w in c['words']]
    got = tx(s, t, sep.join(ps), c['nat'])
    exp = sep.join(tx(s, t, p, c['nat']) for p in ps)
    expect(got, exp, '%s->%s nativize=%r of %r against its pieces converted one by one' % (s, t, c['nat'], sep.join(ps)[:80]))
