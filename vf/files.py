"""Generated HTML pages and Word files, and what their conversion must look like."""
import html, io, os, random, re, shutil, tempfile, zipfile
import xml.etree.ElementTree as ET
from html.parser import HTMLParser
from . import core, names as N, sources as S

BLOCK = ['div', 'p', 'section', 'blockquote', 'h1', 'h2']
INLINE = ['b', 'i', 'em', 'span', 'a', 'u', 'sub', 'sup']
VOID = ['br', 'img', 'hr']


def scratch():
    base = os.environ.get('VERIF_SCRATCH') or None
    return tempfile.mkdtemp(dir=base)


def some_text(src, r, k=4):
    ws = S.words(src, r, r.randrange(1, k + 1))
    t = S.text(src, ws, [r.choice([' ', ', ', ' & ', '; ', ' < ', ' "x" ', ' - '])])
    if r.random() < .1:
        t = r.choice(['12', '&', '<', 'abc', '1 < 2', '—', '©'])
    return t


def attrs(src, r):
    out = []
    for k in r.sample(['class', 'title', 'href', 'lang', 'data-x', 'style'], r.choice((0, 0, 1, 2))):
        out.append([k, r.choice([some_text(src, r, 1), 'a b', 'x&y', 'http://x.y/?a=1&b=2', 'color: red', 'hi']) if k != 'class' else r.choice(['a', 'a b', 'कमल'])])
    return out


def inline(src, r, d):
    out = []
    for _ in range(r.randrange(1, 4)):
        k = r.randrange(10)
        if k < 5 or d <= 0:
            if out and out[-1][0] == 't':
                out.append(['e', r.choice(VOID[:2]), [], []])
            out.append(['t', r.choice(['', ' ', '\n  ']) + some_text(src, r) + r.choice(['', ' ', '\n'])])
        elif k < 8:
            out.append(['e', r.choice(INLINE), attrs(src, r), [x for x in inline(src, r, d - 1) if not (x[0] == 'e' and x[1] == 'a')]])
        elif k == 8:
            out.append(['c', ' ' + some_text(src, r, 2).replace('-', '') + ' '])
        else:
            out.append(['e', r.choice(VOID[:2]), attrs(src, r) if r.random() < .3 else [], []])
    return no_nested_a(out)


def no_nested_a(nodes, inside=False):
    out = []
    for n in nodes:
        if n[0] == 'e':
            if n[1] == 'a' and inside:
                n = ['e', 'span', n[2], n[3]]
            n = ['e', n[1], n[2], no_nested_a(n[3], inside or n[1] == 'a')]
        if n[0] == 't' and out and out[-1][0] == 't':
            n = ['t', out.pop()[1] + n[1]]
        out.append(n)
    return out


def block(src, r, d=2):
    k = r.randrange(8)
    if k < 4 or d <= 0:
        return ['e', r.choice(['p', 'div', 'h1', 'h2', 'blockquote']), attrs(src, r), inline(src, r, 2)]
    if k == 4:
        return ['e', r.choice(['ul', 'ol']), attrs(src, r), [['e', 'li', [], inline(src, r, 1)] for _ in range(r.randrange(1, 3))]]
    if k == 5:
        return ['e', 'table', [], [['e', 'tr', [], [['e', 'td', attrs(src, r), inline(src, r, 1)] for _ in range(2)]] for _ in range(r.randrange(1, 3))]]
    if k == 6:
        return ['e', r.choice(['style', 'script']), [], [['raw', r.choice(['p{color:red}', 'var a = "कमल" + "kamala";', '.x > .y { top: 1px }', 'a && b'])]]]
    return ['e', r.choice(['div', 'section']), attrs(src, r), [block(src, r, d - 1) for _ in range(r.randrange(1, 3))]]


def page(src, r):
    body = [block(src, r) for _ in range(r.randrange(1, 5))]
    if body[0][1] in ('style', 'script'):
        body.insert(0, ['e', 'p', [], inline(src, r, 1)])
    return {'full': r.random() < .6, 'title': some_text(src, r, 2), 'body': body}


def source(p):
    def a(n):
        return ''.join(' %s="%s"' % (k, html.escape(v)) for k, v in n[2])

    def f(n):
        if n[0] == 't':
            return html.escape(n[1], quote=False)
        if n[0] == 'raw':
            return n[1]
        if n[0] == 'c':
            return '<!--%s-->' % n[1]
        if n[1] in VOID:
            return '<%s%s>' % (n[1], a(n))
        return '<%s%s>%s</%s>' % (n[1], a(n), ''.join(map(f, n[3])), n[1])
    b = ''.join(map(f, p['body']))
    if p['full']:
        b = '<!DOCTYPE html><html><head><title>%s</title></head><body>%s</body></html>' % (html.escape(p['title'], quote=False), b)
    return b


def same(got, exp, what):
    for i in range(max(len(got), len(exp))):
        a, b = (x[i] if i < len(x) else None for x in (got, exp))
        if a != b:
            raise core.Violation('%s: item %d is %r, expected %r' % (what, i, a, b))


def norm(s):
    return ' '.join(s.split())


def expected(p, conv):
    ev = []

    def f(n):
        if n[0] in ('t', 'raw'):
            s = norm(conv(n[1]) if n[0] == 't' else n[1])
            if s:
                ev.append(['text', s])
        elif n[0] == 'c':
            ev.append(['comment', norm(n[1])])
        else:
            ev.append(['start', n[1], sorted([k, v] for k, v in n[2])])
            for c in n[3]:
                f(c)
            if n[1] not in VOID:
                ev.append(['end', n[1]])
    if p['full']:
        ev += [['decl', 'DOCTYPE html'], ['start', 'title', []]]
        s = norm(conv(p['title']))
        ev += ([['text', s]] if s else []) + [['end', 'title']]
    for n in p['body']:
        f(n)
    return ev


class Events(HTMLParser):
    def __init__(self):
        super().__init__(convert_charrefs=True)
        self.ev, self.buf = [], ''

    def flush(self):
        s = norm(self.buf)
        self.buf = ''
        if s:
            self.ev.append(['text', s])

    def handle_starttag(self, tag, at):
        self.flush()
        if tag not in ('html', 'head', 'body'):
            self.ev.append(['start', tag, sorted([k, v or ''] for k, v in at)])

    def handle_startendtag(self, tag, at):
        self.handle_starttag(tag, at)

    def handle_endtag(self, tag):
        self.flush()
        if tag not in ('html', 'head', 'body') and tag not in VOID:
            self.ev.append(['end', tag])

    def handle_data(self, d):
        self.buf += d

    def handle_comment(self, d):
        self.flush()
        self.ev.append(['comment', norm(d)])

    def handle_decl(self, d):
        self.flush()
        self.ev.append(['decl', d])


def events(s):
    e = Events()
    e.feed(s)
    e.close()
    e.flush()
    return e.ev


# ---------------------------------------------------------------- Word files
W_NS = 'http://schemas.openxmlformats.org/wordprocessingml/2006/main'
A_NS = 'http://schemas.openxmlformats.org/drawingml/2006/main'


def docx(src, r):
    """[[member name, kind, content]]; content of an xml part: list of paragraphs, each a list of runs [tag, text]."""
    def part():
        return [[[r.choice(['w:t'] * 6 + ['w:instrText', 'a:t', 'w:delText']), some_text(src, r) if r.random() < .85 else r.choice(['', ' ', ' 12 '])]
                 for _ in range(r.randrange(1, 4))] for _ in range(r.randrange(1, 5))]
    m = [['[Content_Types].xml', 'bytes', '<Types/>'], ['_rels/.rels', 'bytes', '<R/>'], ['word/document.xml', 'xml', part()]]
    for n in ('word/header1.xml', 'word/footnotes.xml', 'word/footer2.xml', 'word/glossary/document.xml'):
        if r.random() < .5:
            m.append([n, 'xml', part()])
    for n, c in (('word/_rels/document.xml.rels', '<Relationships>कमल</Relationships>'), ('docProps/core.xml', '<a><w:t xmlns:w="%s">कमल kamala</w:t></a>' % W_NS),
                 ('word/media/image1.png', '\x89PNG\r\n\x1a\n\x00कमल'), ('customXml/item1.xml', '<x>कमल</x>')):
        if r.random() < .5:
            m.append([n, 'bytes', c])
    r.shuffle(m)
    return m


def part_xml(ps, conv=lambda t: t):
    o = ['<?xml version="1.0" encoding="UTF-8" standalone="yes"?>\n<w:document xmlns:w="%s" xmlns:a="%s"><w:body>' % (W_NS, A_NS)]
    for p in ps:
        o.append('<w:p><w:pPr><w:jc w:val="कमल"/></w:pPr>')
        for tag, t in p:
            e = html.escape(conv(t) if tag == 'w:t' and t else t, quote=False)
            o.append('<w:r><w:rPr><w:b/></w:rPr>' + ('<%s xml:space="preserve">%s</%s>' % (tag, e, tag) if t else '<%s/>' % tag) + '</w:r>')
        o.append('</w:p>')
    return ''.join(o) + '<w:sectPr/></w:body></w:document>'


def docx_bytes(m):
    b = io.BytesIO()
    with zipfile.ZipFile(b, 'w') as z:
        for n, k, c in m:
            z.writestr(n, part_xml(c) if k == 'xml' else c)
    return b.getvalue()


def tree(x):
    e = ET.fromstring(x)

    def f(n):
        out.append([n.tag, sorted(n.attrib.items()), n.text or '', n.tail or ''])
        for c in n:
            f(c)
        out.append(['end'])
    out = []
    f(e)
    return out


def converted_tree(ps, conv):
    return tree(part_xml(ps, conv))
