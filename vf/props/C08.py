"""Purity: the result of a call depends on its arguments only - not on earlier calls, on concurrent calls, on the process or on hash
randomisation - and the arguments are left alone."""
import json, os, pickle, random, subprocess, sys, threading
from vf import core, names as N
from vf.core import Violation, subseed

ID = 'C08'
LEVEL = 'exploration'
RULE = ('a case is a history of 24 calls over few scripts, texts and options; every result is compared with the same call made in other orders, in a '
        'fresh process, from several threads or under another hash seed; each distinct call in each mode counts once')
ASSUMPTIONS = ['a child forked right after import stands for a fresh process']
SHRINK = ('calls',)
MODES = {'default': None}


def isolated(fn, *a):
    """Run fn in a forked child and return its (picklable) result."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.close(r)
            out = pickle.dumps(fn(*a))
            with os.fdopen(w, 'wb') as f:
                f.write(out)
            code = 0
        except BaseException as e:  # noqa
            try:
                os.write(w, b'!' + repr(e).encode())
            except Exception:
                pass
        finally:
            os._exit(code)
    os.close(w)
    with os.fdopen(r, 'rb') as f:
        data = f.read()
    os.waitpid(pid, 0)
    if data[:1] == b'!' or not data:
        raise core.HarnessError('child failed: %r' % data[:300])
    return pickle.loads(data)


def one(c):
    a = core.api()
    pre, post = list(c['pre']), list(c['post'])
    try:
        if c['how'] == 'defaults':          # leave the option arguments to their defaults
            out = a.tr.process(c['src'], c['tgt'], c['text'], c['nat'])
        elif c['how'] == 'auto':
            out = a.tr.process('autodetect', c['tgt'], c['text'], c['nat'], post, pre)
        elif c['how'] == 'convert':
            out = a.tr.convert(c['src'], c['tgt'], c['text'], c['nat'], pre, post)
        else:
            out = a.tr.process(c['src'], c['tgt'], c['text'], c['nat'], post, pre)
    except Exception as e:
        out = 'raised %s' % type(e).__name__
    if pre != c['pre'] or post != c['post']:
        out = 'ARGUMENTS CHANGED: pre_options %r -> %r, post_options %r -> %r' % (c['pre'], pre, c['post'], post)
    return out


def run(calls):
    with core.Silent():
        return [one(c) for c in calls]


def run_threads(calls):
    res = [[None] * len(calls) for _ in range(4)]
    bar = threading.Barrier(4)

    def w(t):
        bar.wait()
        ix = list(range(len(calls)))
        for i in ix[t * 5:] + ix[:t * 5]:
            res[t][i] = one(calls[i])
    with core.Silent():
        sys.setswitchinterval(1e-5)
        ts = [threading.Thread(target=w, args=(t,)) for t in range(4)]
        for t in ts:
            t.start()
        for t in ts:
            t.join()
    return res


def gen_calls(seed, n):
    """Histories over few scripts and options, so that calls collide in whatever they might share."""
    r = random.Random(seed)
    al = [a for a in N.all_names() if a != 'IPA']
    pre, post = N.options()
    ss = r.sample(al, 3)
    if r.random() < .5:
        ss[0] = r.choice(['Devanagari', 'Tamil', 'IAST', 'ISO', 'Malayalam', 'Thai', 'Urdu', 'Telugu', 'RomanLoC', 'Itrans'])
    texts = {s: [N.sample(s, r, 6) for _ in range(2)] for s in ss}
    own_post = [o for o in post if any(o.lower().startswith(s.lower()) for s in ss)] or post
    po = [[], [r.choice(own_post)], r.sample(post, 2)]
    pr = [[], [r.choice(pre)]]
    out = []
    for _ in range(n):
        s, t = r.choice(ss), r.choice(ss)
        out.append({'src': s, 'tgt': t, 'nat': r.random() < .5, 'text': r.choice(texts[s] if r.random() < .9 else texts[r.choice(ss)]),
                    'pre': list(r.choice(pr)) if r.random() < .5 else [], 'post': list(r.choice(po)) if r.random() < .6 else [],
                    'how': r.choice(['process'] * 5 + ['defaults'] * 3 + ['auto', 'convert'])})
    return out


def gen_args(seed, part, parts):
    """Every option, on the scripts it is named after and on others, through process() and convert()."""
    r = random.Random(seed)
    al = [a for a in N.all_names() if a != 'IPA']
    pre, post = N.options()
    todo = [('pre', o) for o in pre] + [('post', o) for o in post] + [('post', 'indicDandas')] * 2 + [('', a) for a in al]
    out = []
    for i, (k, o) in enumerate(todo):
        own = [o] if not k else [a for a in al if a.lower() in o.lower()]
        if i % parts != part:
            continue
        for _ in range(4):
            s, t = r.choice(al), r.choice(al)
            if k == 'pre' or k == '' and r.random() < .5:
                s = r.choice(own or [s])
            else:
                t = r.choice(own or [t])
            if r.random() < .3:
                s = r.choice(('Devanagari', 'Bengali', 'Telugu', 'IAST'))
            p, q = ([o], []) if k == 'pre' else ([], [o]) if k else ([r.choice(pre)], [r.choice(post)])
            if r.random() < .3:
                p, q = p + [r.choice(pre)], q + [r.choice(post)]
            text = N.sample(s, r, 4)
            out += [{'src': s, 'tgt': t, 'nat': r.random() < .5, 'text': text, 'pre': p, 'post': q, 'how': h} for h in ('convert', 'process')]
    return out


def jobs(tier, seed):
    big = tier == 'thorough'
    out = []
    for k in range(64 if big else 8):
        out.append({'kind': 'order', 'n': 60 if big else 18, 'seed': subseed(seed, 'o', k)})
    for k in range(32 if big else 8):
        out.append({'kind': 'threads', 'n': 20 if big else 5, 'seed': subseed(seed, 't', k)})
        for m in range(4 if big else 1):
            out.append({'kind': 'args', 'n': 1, 'part': k % 8, 'seed': subseed(seed, 'a', k, m)})
        out.append({'kind': 'hashseed', 'n': 20 if big else 6, 'seed': subseed(seed, 'h', k)})
    return out


def run_job(job, rec):
    r = random.Random(job['seed'])
    if job['kind'] == 'args':
        calls = isolated(gen_args, job['seed'], job['part'], 8)
        for i in range(0, len(calls), 24):
            b = calls[i:i + 24]
            rec.check({'mode': 'args', 'calls': b, 'hs': 0}, True, ['args' + json.dumps(c) for c in b])
            rec.count('calls', len(b))
            rec.count('option histories')
        return
    for i in range(job['n']):
        calls = isolated(gen_calls, r.getrandbits(48), 24)
        rec.check({'mode': job['kind'], 'calls': calls, 'hs': r.randrange(1, 1 << 30)}, True, [job['kind'] + json.dumps(c) for c in calls])
        rec.count('calls', len(calls))
        rec.count(job['kind'] + ' histories')


def show(c):
    return 'process(%r, %r, %r, nativize=%r, pre=%r, post=%r, how=%s)' % (c['src'], c['tgt'], c['text'][:60], c['nat'], c['pre'], c['post'], c['how'])


def differ(a, b, calls, what):
    for x, y, c in zip(a, b, calls):
        for z in (x, y):
            if z.startswith('ARGUMENTS CHANGED'):
                raise Violation('%s: %s' % (show(c), z))
        if x != y:
            raise Violation('%s gives %r but %r %s' % (show(c), x[:120], y[:120], what))


def judge(case):
    calls = case['calls']
    if not calls:
        return
    base = isolated(run, calls)
    n = len(calls)
    if case['mode'] == 'args':
        differ(base, isolated(run, calls[::-1])[::-1], calls, 'when the calls are made in reverse order')
    elif case['mode'] == 'order':
        differ(base, isolated(run, calls[::-1])[::-1], calls, 'when the calls are made in reverse order')
        twice = isolated(run, calls + calls)
        differ(base, twice[n:], calls, 'the second time')
        for i in sorted({0, n // 2, n - 1, (n * 3) // 4, n // 4}):
            differ(base[i:i + 1], isolated(run, calls[i:i + 1]), calls[i:i + 1], 'as the first call of a fresh process')
    elif case['mode'] == 'threads':
        for res in isolated(run_threads, calls):
            differ(base, res, calls, 'when called from several threads at once')
    else:
        env = dict(os.environ, PYTHONHASHSEED=str(case['hs']))
        p = subprocess.run([sys.executable, '-W', 'ignore', '-m', 'vf.props.C08'], input=json.dumps(calls), text=True, capture_output=True, env=env, cwd=core.ROOT)
        if p.returncode:
            raise core.HarnessError('subprocess: ' + p.stderr[-500:])
        differ(base, json.loads(p.stdout.splitlines()[-1]), calls, 'in another process with another hash seed')


if __name__ == '__main__':
    core.api()
    got = run(json.load(sys.stdin))
    sys.stdout.write('\n' + json.dumps(got) + '\n')
