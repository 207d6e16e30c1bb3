"""C04: CSS minification keeps every significant byte."""
import tile
from checks import tiling

ROOT = 'root_css_minify'


def run(c):
    c.rule('Rule: abstract interpretation of CSS minification over an arbitrary text in product with a monitor: each token '
           'pushed renders (by its Display implementation) exactly the text that follows what is already in tokens, gaps '
           'being white space and ordinary comments; a token taken back is put again; success is returned only when the '
           'tokens reach the end of the text; tokens removed or replaced later are white space or comments; the rendering loops '
           'write every token once, in order.')
    h = tile.Css()
    I, out, ab = tiling.analyse(c, ROOT, h)
    n = tiling.flags(c, h, 'text', ROOT)
    n += tiling.ends(c, ROOT, h, out, True)
    if tiling.resolved(c, ROOT, I, h, out, ab) and not n:
        for k in sorted(h.pushed):
            c.ok('%s renders the text it was read from' % k, ROOT)
        c.ok('%s: the tokens reach the end' % ROOT, ROOT)
    tiling.sorted_out(c, ROOT, h, 'text')
    if h.ety is not None:
        for r in ('root_css_display', 'root_css_write'):
            tiling.rendered(c, r, I, h)
