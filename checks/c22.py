"""C22: a keyword is recognised only where it is a whole word."""
import tilejs
from checks import tiling

ROOT = 'root_js_simple_minify'


def run(c):
    c.rule('Rule: abstract interpretation of the JavaScript tokenizer over an arbitrary text in product with a monitor: the '
           'text a keyword token was read from is the keyword, letter for letter; the character behind it cannot go on with '
           'the word, and the token before it does not end in one.')
    c.assume.append('Strings, templates and block comments are terminated, and templates without ${.')
    h = tilejs.Js(words=True)
    I, out, ab = tiling.analyse(c, ROOT, h, limit=600)
    c.count('keywords', len(h.keywords))
    n = other = 0
    for (k, m), w in sorted(h.bad.items()):
        if m.split(' ')[0] in h.keywords or m.startswith('Keyword('):
            n += 1
            c.violation('%s: %s' % (ROOT, m), '%s at %s' % (m, w))
        else:
            other += 1
    if tiling.resolved(c, ROOT, I, h, out, ab) and not n:
        if other:
            c.undecided(ROOT, 'the text is not tiled')
        elif not h.keywords:
            c.undecided(ROOT, 'no keyword tokens found')
        else:
            for k in sorted(h.keywords):
                c.ok('%s is recognised as a whole word only' % k, ROOT)
