"""Script names, options and text samplers shared by the whole-surface properties."""
import inspect, random
from . import core, gen, model

_all = None


def all_names():
    """Every script name the library supports (read from the code under test at run time)."""
    global _all
    if _all is None:
        core.api()
        from aksharamukha import GeneralMap as G
        _all = sorted(set(list(G.IndicScripts) + list(G.LatinScripts) + list(G.SemiticScripts) + list(G.semiticISO)))
    return _all


def options():
    """(pre, post): the option functions, i.e. those that take just the text."""
    core.api()
    from aksharamukha import PostProcess, PreProcess
    out = []
    for m in (PreProcess, PostProcess):
        o = []
        for n, f in inspect.getmembers(m, inspect.isfunction):
            req = [p for p in inspect.signature(f).parameters.values() if p.default is p.empty]
            if len(req) == 1:
                o.append(n)
        out.append(sorted(o))
    return out


PROFILE = gen.Profile(gen.CALL, 18, avagraha=True)
RANGES = [(0x20, 0x7e)] * 3 + [(0x80, 0x24f), (0x250, 0x36f), (0x370, 0x5ff), (0x600, 0x8ff), (0x900, 0xdff), (0x900, 0xdff), (0xe00, 0x17ff),
          (0x1800, 0x1cff), (0x1d00, 0x20ff), (0x2c00, 0x2fff), (0x3040, 0x30ff), (0xa000, 0xabff), (0xe000, 0xf8ff), (0xfb00, 0xfeff),
          (0x10300, 0x10fff), (0x11000, 0x11fff), (0x1e000, 0x1efff), (0, 0x1f)]
EDGE = ['', ' ', '\n', 'a', 'अ', '्', 'ं', '्क', 'क्', '१', '।', '##', '.', '..', '_', '\\', '*', '+', '(', '[', '^', '$', '|', '\u200c', '\u200d',
        'ऽ', 'ॐ', 'oM', 'OM', '\ufeff', '\u0000', 'ʼ', '\u0331', 'a_i', '{}', '()', '[]', "'", '\u2019', '🙂', '\r\n', '\x85']


def sample(src, rng, n=10):
    """Text in script `src`: generated words written in it by the library itself."""
    ws = [w for w, _ in gen.decode([rng.getrandbits(64) for _ in range(n)], PROFILE)]
    d = ' '.join(model.render('Devanagari', w) for w in ws)
    if rng.random() < .5:
        d += ' १२३ । ॥ 12 , abc'
    try:
        return core.tx('Devanagari', src, d)
    except core.Violation:
        return d


def junk(rng, n):
    o = []
    for _ in range(n):
        a, b = rng.choice(RANGES)
        o.append(chr(rng.randint(a, b)))
        if rng.random() < .2:
            o.append(' ')
    return ''.join(o)


def wild(src, rng):
    """Any text: words of the script, scrambled, mixed with arbitrary Unicode and awkward fragments."""
    s = sample(src, rng)
    k = rng.randrange(6)
    if k == 0:
        return s
    if k == 1:
        return s + junk(rng, 20)
    if k == 2:
        return junk(rng, 40)
    if k == 3:
        return ''.join(rng.sample(s, len(s)))
    if k == 4:
        ps = [rng.choice(EDGE) for _ in range(6)]
        i = rng.randrange(len(s) + 1)
        return ps[0] + s[:i] + ps[1] + ps[2] + s[i:] + ps[3]
    return rng.choice(EDGE) + rng.choice(EDGE) + s[:rng.randrange(4)]
