"""C07: two words are never rendered next to each other without a separator."""
import order

WORDS = ('Keyword', 'Other', 'CreatedVarDecl', 'CreatedVar', 'Number', 'FloatingNumber')


def kind(I, t, k):
    return I.T[t]['variants'][k]['n']


def run(c):
    c.rule('Rule: abstract interpretation of the token rendering loops (Display and write) over an unbounded sequence of '
           'arbitrary tokens yields the relation (previous kind, text written between, kind); for every pair of word '
           'kinds (%s) that text is non-empty white space.' % ', '.join(WORDS))
    p = c.prog('lib')
    for root in ('root_js_display', 'root_js_write', 'root_js_tokens_display'):
        I, h, _ = order.analyse(p, root, kind)
        c.count('rendering loops')
        c.count('elements rendered (abstract)', h.elems)
        pairs = {}
        kinds = set()
        for (a, sep, b), site in h.rel.items():
            kinds.add(b)
            pairs.setdefault((a, b), {})[sep] = site
        miss = [w for w in WORDS if w not in kinds]
        if h.odd or miss or not h.elems or '*' in kinds:
            c.undecided(root, 'rendering not resolved: %s %s' % (h.odd, miss))
        c.count('pairs of kinds', len(pairs))
        for m in h.bad:
            c.undecided(root, m)
        for a in WORDS:
            for b in WORDS:
                key = '%s: %s then %s' % (root, a, b)
                seps = pairs.get((a, b))
                if seps is None:
                    if not miss and not h.odd:
                        c.undecided(key, 'no path renders this pair')
                    continue
                bad = [s for s in seps if not s or s.strip(' \t\n\r')]
                c.require(key, not bad, 'rendered with %r between them (%s)' % (bad and bad[0], bad and seps[bad[0]]),
                          root)
