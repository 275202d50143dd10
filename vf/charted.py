"""The scripts outside the main group: forward model (linear charts or vf/stack.py) and texts in them."""
import random
from . import core, gen, model, stack
from .phon import *

SEP = {'Khojki': {' ': '\U0001123A'}, 'Bhaiksuki': {' ': '𑱃'}, 'Kaithi': {' ': '⸱'}, 'Tibetan': {' ': '་'}, 'TibetanLoC': {' ': '་'},
       'Limbu': {'!': '᥄', '?': '᥅'}}


def kind(s):
    return 'stack' if s in stack.FORWARD else 'lin'


def sym(s, x):
    return (stack.charts()[s]['other'] if kind(s) == 'stack' else model.charts()[s]['raw']['other'])[x]


def render(s, w, space=False):
    if isinstance(w, str):
        return ''.join(sym(s, x) for x in w)
    if any(v == -2 for _, v, _ in w):
        i = [v for _, v, _ in w].index(-2)
        return render(s, w[:i], space) + sym(s, AVAGRAHA) + render(s, w[i + 1:])
    if kind(s) == 'stack':
        return stack.render(s, w, space)
    ch = model.charts()[s]['raw']
    return model.roman(ch, w) if ch['rom'] else model.linear(ch, w)


def text(s, words, seps):
    out = []
    for i, w in enumerate(words):
        sp = True
        if i:
            sep = seps[(i - 1) % len(seps)] if seps else ' '
            sp = sep[-1:].isspace()
            for x in sep:
                out.append(sym(s, x) if x in '।॥' else SEP.get(s, {}).get(x, x))
        out.append(render(s, w, sp))
    return ''.join(out)


def dev(words, seps):
    return join([w if isinstance(w, str) else model.render('Devanagari', w) for w in words], seps)


def join(parts, seps):
    out = []
    for i, w in enumerate(parts):
        if i:
            out.append(seps[(i - 1) % len(seps)] if seps else ' ')
        out.append(w)
    return ''.join(out)
