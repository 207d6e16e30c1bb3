"""C11: license comments stay, ordinary comments go."""
import cleanjs, tile, tilejs
from checks import tiling


def tokenizer(root, make):
    """the comments of the text, as the tokens cover them"""
    def f(c):
        h = make()
        I, out, ab = tiling.analyse(c, root, h, limit=600)
        n = tiling.ends(c, root, h, out, False)
        n += tiling.flags(c, h, 'license', root)
        n += tiling.flags(c, h, 'comment', root)
        if tiling.resolved(c, root, I, h, out, ab) and not n:
            if any(k == 'text' for k, _ in h.bad):
                c.undecided(root, 'the text is not tiled')
            elif not h.license:
                c.undecided(root, 'no token for license comments found')
            else:
                c.ok('%s: license comments are rendered (%s)' % (root, ', '.join(sorted(h.license))), root)
                c.ok('%s: no token covers an ordinary comment but %s' % (root, sorted(h.comments)), root)
        tiling.sorted_out(c, root, h, 'comment')
        c.count('kinds of comment tokens', len(h.comments))
        c.count('kinds of license tokens', len(h.license))
        if isinstance(h, tilejs.Js):
            cleaned(c, 'root_js_minify', h)
            for r in ('root_js_display', 'root_js_write'):
                tiling.rendered(c, r, I, h)
    return f


def cleaned(c, root, t):
    """the default cleaning of the JavaScript tokens"""
    I, h, out, ab, calls = cleanjs.analyse(c.prog('lib'), root)
    c.count('functions analysed', len(I.stats['fns']))
    if ab or h.und or not h.taken or not h.same or '?' in h.cut:
        c.undecided(root, 'not resolved: %s %s' % (ab, sorted(m for _, m in h.und)[:5]))
    for lab in sorted(t.comments):
        key = '%s: %s is dropped' % (root, lab)
        if lab in h.same:
            c.violation(key, 'the text of an ordinary comment (%s) stays in the output at %s' % (lab, h.same[lab]))
        elif lab in h.cut:
            c.ok(key, h.cut[lab][0])
        else:
            c.undecided(key, 'not seen')
    for lab in sorted(t.license):
        key = '%s: %s is kept' % (root, lab)
        if lab in h.cut:
            w, taint = h.cut[lab]
            (c.undecided if taint else c.violation)(key, 'a license comment (%s) is removed from the output at %s' % (lab, w))
        elif lab in h.same:
            c.ok(key, h.same[lab])
        else:
            c.undecided(key, 'not seen')
    # other ways to lose or change a token (C06 lists them all)
    for (k, m), w in sorted(h.bad.items()):
        c.undecided('%s: %s' % (root, m), '%s at %s' % (m, w))


def run(c):
    c.rule('Rule: abstract interpretation of the tokenizers over an arbitrary text in product with a monitor: no token '
           'covers text of an ordinary comment except those of kinds that are always removed later; the text of every '
           'license comment is rendered, in place, by a token of a kind that is never removed. For JavaScript the '
           'cleaning is analysed over an arbitrary token sequence: comments are always dropped, licenses always appended.')
    c.assume.append('JavaScript: strings, templates and block comments are terminated, and templates without ${.')
    c.prog('lib')
    tiling.reported(c, {
        'root_css_minify': tokenizer('root_css_minify', tile.Css),
        'root_js_minify': tokenizer('root_js_simple_minify', tilejs.Js)})
