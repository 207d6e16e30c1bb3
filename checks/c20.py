"""C20: CSS minification succeeds only on text without unterminated strings or comments, stray closing braces and
brackets, and nested brackets."""
import tile
from checks import tiling

INSIDE = {'q': 'an unterminated string', 'Q': 'an unterminated string', 'o': 'an unterminated comment',
          'k': 'an unterminated comment', 'K': 'an unterminated comment'}
WRONG = {'lex': ('an unterminated string', 'an unterminated comment', 'unread text'),
         'depth': ('a closing brace without an opening one',),
         'br': ('a closing bracket without an opening one', 'a bracket inside brackets')}


def explore(p, track):
    """-> (what went wrong, counts, {malformation: [errors, successes, successes in states not fully modelled]}, counts)"""
    h = tile.CssForm(track)
    I, out, ab = tile.analyse(p, 'root_css_minify', h, limit=300, grace=250)
    seen = {}
    for s, r in out:
        l = s.ghost['~lex']
        w = s.ghost['~wrong'] or (INSIDE.get(l[0]) if s.ghost['~eof'] else None)
        if not r:
            seen.setdefault(w, [0, 0, 0])[0] += 1
            continue
        if not s.ghost['~eof'] and w is None:
            w = 'unread text'
        seen.setdefault(w, [0, 0, 0])[2 if s.taint else 1] += 1
    odd = None
    if ab or h.und or h.bad or not any(r for _, r in out) or not h.chars:
        odd = 'not resolved: %s %s' % (ab, sorted(m for _, m in [*h.und, *h.bad]))
    return odd, seen, {'characters read (abstract)': h.chars, 'functions analysed': len(I.stats['fns']),
                       'returning states': len(out)}, sorted(I.unmodelled)


def run(c):
    c.rule('Rule: abstract interpretation of CSS minification over an arbitrary text in product with lexical automata '
           'of the text read (one for strings, comments and escapes alone, one with the brace depth, one with brackets); '
           'no state that returns success has read malformed text, and every such state has read all of the text.')
    p = c.prog('lib')
    res = tiling.parallel({t: (lambda t=t: explore(p, t)) for t in WRONG})
    for t in WRONG:
        odd, seen, counts, unm = res[t] if isinstance(res[t], tuple) else (res[t], {}, {}, [])
        for k, v in counts.items():
            c.count(k, v)
        for w in WRONG[t]:
            n = seen.get(w, [0, 0, 0])
            key = 'success with %s' % w
            if n[1]:
                c.violation(key, 'CSS minification can return success for a text with %s' % w)
            elif odd:
                c.undecided(key, odd)
            elif w != 'unread text' and not any(n):
                c.undecided(key, 'no analysed path reads such text')
            elif n[2]:
                c.undecided(key, 'depends on what is not modelled: %s' % unm)
            else:
                c.ok(key, 'root_css_minify')
