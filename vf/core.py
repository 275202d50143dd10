"""Framework: seeds, worker pool, Hypothesis driving, minimisation, evidence, replay files.

A property module (vf/props/<id>.py) defines
  ID, TITLE, RULE, LEVEL, ASSUMPTIONS
  jobs(tier, seed) -> list of dicts {"kind": str, ...}      (deterministic, JSON-able)
  run_job(job, rec)                                          (uses rec.* below)
  judge(case) -> None, or raises Violation                   (pure function of a JSON case and of the code under test)
Everything is a pure function of the code under test and VERIF_SEED.
"""
import contextlib, hashlib, importlib, io, json, logging, multiprocessing, os, sys, time, traceback, warnings

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')


class Violation(Exception):
    """The code under test broke the property."""


class HarnessError(Exception):
    pass


# ---------------------------------------------------------------- code under test
_api = None


class Api:
    """The public API of the code under test, with its console chatter silenced."""

    def __init__(self):
        warnings.simplefilter('ignore')
        logging.disable(logging.CRITICAL)
        self.tr = importlib.import_module('aksharamukha.transliterate')
        f = os.path.realpath(self.tr.__file__)
        if not f.startswith(os.path.realpath(REPO) + os.sep):
            raise HarnessError('aksharamukha imported from %s, not from %s' % (f, REPO))

    def call(self, fn, *a, **k):
        with contextlib.redirect_stdout(io.StringIO()), warnings.catch_warnings():
            warnings.simplefilter('ignore')
            return fn(*a, **k)

    def convert(self, src, tgt, txt, nativize=False, pre=(), post=()):
        return self.call(self.tr.convert, src, tgt, txt, nativize, list(pre), list(post))

    def process(self, src, tgt, txt, nativize=False, pre=(), post=(), param='default'):
        return self.call(self.tr.process, src, tgt, txt, nativize, list(post), list(pre), param)


def api():
    global _api
    if _api is None:
        _api = Api()
    return _api


_sink = io.StringIO()


class Silent:
    """Cheap stdout silencer for hot loops; what the last call printed is kept for C07."""
    printed = ''

    def __enter__(self):
        self.o = sys.stdout
        sys.stdout = _sink
        return self

    def __exit__(self, *a):
        sys.stdout = self.o
        Silent.printed = _sink.getvalue()
        _sink.seek(0)
        _sink.truncate(0)


def tx(src, tgt, txt, nativize=False, pre=(), post=()):
    """One transliteration through the public entry point `process`; any exception is a violation."""
    a = api()
    try:
        with Silent():
            r = a.tr.process(src, tgt, txt, nativize, list(post), list(pre))
    except Exception as e:  # noqa
        raise Violation('process(%r, %r, %r, nativize=%r, post_options=%r, pre_options=%r) raised %s: %s at %s' % (
            src, tgt, txt[:80], nativize, list(post), list(pre), type(e).__name__, str(e)[:200], where(e)))
    if not isinstance(r, str):
        raise Violation('process(%r, %r, %r) returned %s, not str' % (src, tgt, txt[:80], type(r).__name__))
    return r


def where(e):
    tb = traceback.extract_tb(e.__traceback__)
    for fr in reversed(tb):
        if 'aksharamukha' in fr.filename:
            return '%s:%s' % (os.path.basename(fr.filename), fr.name)
    return tb[-1].name if tb else '?'


def expect(got, exp, what):
    if got != exp:
        i = 0
        while i < len(got) and i < len(exp) and got[i] == exp[i]:
            i += 1
        lo = max(0, i - 12)
        raise Violation('%s: at offset %d got …%r expected …%r' % (what, i, got[lo:i + 24], exp[lo:i + 24]))


# ---------------------------------------------------------------- recording inside a worker
class Rec:
    MAXFAIL = 3

    def __init__(self, mod, job):
        self.mod, self.job = mod, job
        self.evals = 0
        self.seen = set()
        self.samples = []
        self.counts = {}
        self.failures = []
        self.excluded = 0
        self.known = {}

    def count(self, k, n=1):
        self.counts[k] = self.counts.get(k, 0) + n

    def note(self, case, nontrivial=True, sub=None):
        """Record one evaluated case; sub = iterable of finer-grained distinct items inside it."""
        self.evals += 1
        if nontrivial:
            if sub is None:
                self.seen.add(h64(case))
            else:
                for s in sub:
                    self.seen.add(h64(s))
            if len(self.samples) < 2:
                self.samples.append(case)

    def check(self, case, nontrivial=True, sub=None):
        """Judge one enumerated case; on violation, minimise and keep."""
        self.note(case, nontrivial, sub)
        try:
            self.mod.judge(case)
        except Violation as v:
            self.fail(case, str(v))
            return False
        return True

    def fail(self, case, msg):
        if len(self.failures) >= self.MAXFAIL:
            raise StopJob()
        case, msg = minimise(self.mod, case, msg)
        key = json.dumps(case, sort_keys=True, ensure_ascii=False)
        if key not in [f['key'] for f in self.failures]:
            self.failures.append({'key': key, 'case': case, 'msg': msg})
        if len(self.failures) >= self.MAXFAIL:
            raise StopJob()

    def hyp(self, strategy, to_case, n, seed, sub=None, nontrivial=None):
        """Drive judge() with n Hypothesis examples; keep the shrunk failure."""
        import hypothesis
        from hypothesis import HealthCheck, Phase, given, settings
        state = {}

        @hypothesis.seed(seed)
        @settings(max_examples=n, database=None, deadline=None, derandomize=False,
                  report_multiple_bugs=False, phases=[Phase.generate, Phase.shrink],
                  suppress_health_check=list(HealthCheck))
        @given(strategy)
        def test(x):
            case = to_case(x)
            if case is None:
                self.excluded += 1
                return
            if 'case' not in state:
                self.note(case, True if nontrivial is None else nontrivial(case),
                          None if sub is None else sub(case))
            try:
                self.mod.judge(case)
            except Violation as v:
                state['case'] = case
                state['msg'] = str(v)
                raise

        try:
            test()
        except Violation:
            pass
        except hypothesis.errors.Flaky as e:
            if 'case' in state:
                state['msg'] += ' [not reproduced on re-execution: result depends on earlier calls]'
            else:
                raise
        except BaseException as e:
            if isinstance(e, BaseExceptionGroup) and 'case' in state:
                pass
            else:
                raise
        if 'case' in state:
            self.fail(state['case'], state['msg'])


class StopJob(Exception):
    pass


def h64(x):
    if not isinstance(x, str):
        x = json.dumps(x, sort_keys=True, ensure_ascii=False)
    return int.from_bytes(hashlib.blake2b(x.encode('utf8', 'surrogatepass'), digest_size=8).digest(), 'big')


def minimise(mod, case, msg, budget=600):
    """Greedy shrink of a JSON case: drop list items / substring chunks of the keys in mod.SHRINK."""
    keys = getattr(mod, 'SHRINK', ('text', 'words'))
    best, bmsg = case, msg
    used = 0

    def bad(c):
        nonlocal used, bmsg
        used += 1
        try:
            mod.judge(c)
        except Violation as v:
            bmsg = str(v)
            return True
        except Exception:
            return False
        return False

    if not bad(best):
        return case, msg + ' [not reproduced in isolation]'
    for k in keys:
        if k not in best or not isinstance(best[k], (str, list)):
            continue
        changed = True
        while changed and used < budget:
            changed = False
            v = best[k]
            size = max(1, len(v) // 2)
            while size >= 1 and used < budget:
                i = 0
                while i < len(best[k]) and used < budget:
                    v = best[k]
                    c = dict(best)
                    c[k] = v[:i] + v[i + size:]
                    valid = getattr(mod, 'valid', None)
                    if (valid is None or valid(c)) and bad(c):
                        best = c
                        changed = True
                    else:
                        i += size
                size //= 2
    return best, bmsg


# ---------------------------------------------------------------- worker
def _worker(args):
    modname, job = args
    try:
        warnings.simplefilter('ignore')
        mod = importlib.import_module(modname)
        rec = Rec(mod, job)
        t = time.time()
        try:
            mod.run_job(job, rec)
        except StopJob:
            pass
        except Violation as v:
            rec.failures.append({'key': json.dumps(job), 'case': {'job': job}, 'msg': str(v)})
        return {'ok': True, 'job': job, 'evals': rec.evals, 'seen': list(rec.seen), 'samples': rec.samples,
                'counts': rec.counts, 'failures': rec.failures, 'excluded': rec.excluded, 'known': rec.known,
                't': time.time() - t}
    except BaseException:
        return {'ok': False, 'job': job, 'err': traceback.format_exc()}


def load_known():
    p = os.path.join(ROOT, 'known_findings.json')
    if os.path.exists(p):
        with open(p, encoding='utf8') as f:
            return json.load(f)
    return []


def main(pid, argv=()):
    tier = os.environ.get('VERIF_TIER', 'quick')
    if 'thorough' in argv:
        tier = 'thorough'
    elif 'quick' in argv:
        tier = 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or '1')
    modname = 'vf.props.' + pid
    t0 = time.time()
    mod = importlib.import_module(modname)
    try:
        api()
    except HarnessError as e:
        print('HARNESS ERROR', e)
        return 2
    except Exception:
        # the package no longer imports: not decidable here
        traceback.print_exc()
        return 2
    jobs = mod.jobs(tier, seed)
    nproc = min(int(os.environ.get('VERIF_JOBS', '8')), max(1, len(jobs)))
    results = []
    ctx = multiprocessing.get_context('fork')
    if nproc == 1:
        results = [_worker((modname, j)) for j in jobs]
    else:
        with ctx.Pool(nproc, maxtasksperchild=getattr(mod, 'MAXTASKS', None)) as pool:
            for r in pool.imap_unordered(_worker, [(modname, j) for j in jobs], chunksize=1):
                results.append(r)
    errs = [r for r in results if not r['ok']]
    order = {json.dumps(j, sort_keys=True): i for i, j in enumerate(jobs)}
    results.sort(key=lambda r: order[json.dumps(r['job'], sort_keys=True)])
    if errs:
        print('HARNESS ERROR in job', errs[0]['job'])
        print(errs[0]['err'])
    good = [r for r in results if r['ok']]
    evals = sum(r['evals'] for r in good)
    seen = set()
    counts = {}
    samples, failures, excluded = [], [], 0
    for r in good:
        seen.update(r['seen'])
        excluded += r['excluded']
        for k, v in r['counts'].items():
            counts[k] = counts.get(k, 0) + v
        failures += r['failures']
    by_kind = {}
    for r in good:
        by_kind.setdefault(r['job'].get('kind', '?'), []).extend(r['samples'])
    for k in sorted(by_kind):
        samples += [_clip(s) for s in by_kind[k][:3]]
    samples = samples[:24]

    # known findings: re-run each listed case of this property
    known_lines, known_keys = [], set()
    for kf in load_known():
        if kf.get('property') != pid or kf.get('status') != 'open':
            continue
        known_keys.add(json.dumps(kf['case'], sort_keys=True, ensure_ascii=False))
        try:
            mod.judge(kf['case'])
        except Violation:
            known_lines.append('KNOWN-FINDING: property=%s %s' % (pid, kf['what']))
    failures = [f for f in failures if f['key'] not in known_keys]

    ev = {
        'property': pid, 'tier': tier, 'seed': seed, 'level': getattr(mod, 'LEVEL', 'exploration'),
        'coverage': {
            'evaluations': evals, 'distinct_nontrivial': len(seen), 'rule': mod.RULE, 'samples': samples,
            'jobs': len(jobs), 'excluded_by_construction': excluded,
            'cases_by_kind': {k: sum(r['evals'] for r in good if r['job'].get('kind', '?') == k) for k in by_kind},
            'classes': dict(sorted(counts.items())),
        },
        'assumptions': list(getattr(mod, 'ASSUMPTIONS', [])),
        'wall_s': round(time.time() - t0, 2),
        'violations': len(failures),
    }
    os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
    with open(os.path.join(ROOT, 'evidence', pid + '.json'), 'w', encoding='utf8') as f:
        json.dump(ev, f, ensure_ascii=False, indent=1)
        f.write('\n')
    for l in known_lines:
        print(l)
    if failures:
        failures.sort(key=lambda f: (len(f['key']), f['key']))
        for i, f in enumerate(failures[:5]):
            p = os.path.join(ROOT, 'replays', '%s-%016x.json' % (pid, h64(f['key'])))
            os.makedirs(os.path.dirname(p), exist_ok=True)
            with open(p, 'w', encoding='utf8') as fh:
                json.dump({'property': pid, 'case': f['case'], 'message': f['msg']}, fh, ensure_ascii=False, indent=1)
            print('VIOLATION property=%s replay=%s' % (pid, p))
            print('   ', f['msg'][:600].replace('\n', '\\n'))
        return 1
    if errs:
        return 2
    if os.environ.get('VERIF_VERBOSE'):
        for r in sorted(good, key=lambda r: -r['t'])[:6]:
            print('   slow job %.1fs %s' % (r['t'], json.dumps(r['job'], ensure_ascii=False)[:150]))
    print('OK property=%s tier=%s seed=%d evaluations=%d distinct_nontrivial=%d wall=%.1fs' % (
        pid, tier, seed, evals, len(seen), ev['wall_s']))
    return 0


def _clip(c):
    s = json.dumps(c, ensure_ascii=False)
    return c if len(s) <= 600 else s[:600] + '…'


def replay(path):
    with open(path, encoding='utf8') as f:
        d = json.load(f)
    mod = importlib.import_module('vf.props.' + d['property'])
    try:
        mod.judge(d['case'])
    except Violation as v:
        print('VIOLATION property=%s replay=%s' % (d['property'], path))
        print('   ', v)
        return 1
    print('no violation on replay of', path)
    return 0


def chunks(xs, n):
    xs = list(xs)
    return [xs[i:i + n] for i in range(0, len(xs), n)]


def subseed(seed, *parts):
    return h64(json.dumps([seed] + list(parts))) & 0x7fffffff
