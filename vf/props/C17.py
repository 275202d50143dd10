"""Word files: every text run converted, nothing else changed."""
import base64, io, os, random, shutil, zipfile
from vf import core, files as F, names as N, sources as S
from vf.core import Violation, expect, subseed
from vf.props.C16 import base, listing

ID = 'C17'
LEVEL = 'exploration'
RULE = ('a case is one generated .docx archive (parts, runs of several kinds, binary members) converted from a file or from base64; each distinct case counts '
        'once; all have text runs to convert')
ASSUMPTIONS = ['convert() itself is the oracle for the text of a run']
SHRINK = ('doc',)


def jobs(tier, seed):
    big = tier == 'thorough'
    return [{'kind': k, 'n': 4000 if big else 120, 'seed': subseed(seed, k, i)} for k in ('file', 'api') for i in range(8)]


def run_job(job, rec):
    r = random.Random(job['seed'])
    for i in range(job['n']):
        c = dict(base(r), mode=job['kind'])
        c['doc'] = F.docx(c['src'], r)
        c['file'] = r.choice(['a.docx', 'my file.docx', 'a.txt.docx', 'x.txt/b.docx', 'v1.2.docx', 'कमल.docx'])
        rec.check(c, any(k == 'xml' for _, k, _ in c['doc']))


def judge(c):
    a = core.api()
    import importlib
    TF = importlib.import_module('aksharamukha.transliterate_file')
    conv = lambda t: a.convert(c['src'], c['tgt'], t, c['nat'], c['pre'], c['post'])
    what = '%s->%s nativize=%r pre_options=%r post_options=%r' % (c['src'], c['tgt'], c['nat'], c['pre'], c['post'])
    data = F.docx_bytes(c['doc'])
    if c['mode'] == 'api':
        try:
            got = a.call(TF.convert_docx, c['src'], c['tgt'], base64.b64encode(data).decode(), c['nat'], list(c['pre']), list(c['post']), True).getvalue()
        except Exception as e:
            raise Violation('convert_docx(api mode) %s raised %r at %s' % (what, e, core.where(e)))
    else:
        d = F.scratch()
        try:
            p = os.path.join(d, c['file'])
            os.makedirs(os.path.dirname(p), exist_ok=True)
            with open(p, 'wb') as f:
                f.write(data)
            try:
                a.call(TF.process, c['src'], c['tgt'], p, c['nat'], list(c['pre']), list(c['post']))
            except Exception as e:
                raise Violation('transliterate_file.process(%r) %s raised %r at %s' % (c['file'], what, e, core.where(e)))
            after = listing(d)
            if after.get(c['file']) != data:
                raise Violation('%s: the original file was changed or removed' % what)
            new = sorted(set(after) - {c['file']})
            expect(new, [c['file'][:-5] + '_' + c['src'] + '_' + c['tgt'] + '.docx'], 'files created for %r' % c['file'])
            got = after[new[0]]
        finally:
            shutil.rmtree(d)
    try:
        z = zipfile.ZipFile(io.BytesIO(got))
        names = z.namelist()
        parts = {n: z.read(n) for n in names}
    except Exception as e:
        raise Violation('%s: the result is not a readable archive: %r' % (what, e))
    expect(names, [n for n, _, _ in c['doc']], 'members of the converted file')
    for n, k, content in c['doc']:
        if k == 'bytes' and not (n.startswith('word/') and n.endswith('.xml')):
            expect(parts[n], content.encode('utf8'), 'member %s, which holds no text runs' % n)
        else:
            try:
                got = F.tree(parts[n])
            except Exception as e:
                raise Violation('%s: member %s is not well-formed: %r' % (what, n, e))
            F.same(got, F.converted_tree(content, conv), 'member %s (%s)' % (n, what))
