"""C05: JavaScript tokens render the source byte for byte."""
import tilejs
from checks import tiling

ROOT = 'root_js_simple_minify'


def run(c):
    c.rule('Rule: abstract interpretation of the JavaScript tokenizer over an arbitrary text in product with a monitor: each '
           'token pushed renders (by its Display implementation) exactly the text that follows the tokens before it, white space '
           'included; only comments, and the line break that ends a line comment, may be left out; strings and templates are whole; '
           'a token taken back is put again; success is returned only when the tokens reach the end of the text; the rendering '
           'loops write every token once, in order.')
    c.assume.append('Strings, templates and block comments are terminated, and templates without ${ (their text is one token '
                    'whatever is inside; C02 covers that code). Once recognised, a regular expression ends at the first slash '
                    'that is neither escaped nor in a class; whether a slash begins one is up to the program.')
    h = tilejs.Js()
    I, out, ab = tiling.analyse(c, ROOT, h, limit=600)
    n = tiling.flags(c, h, 'text', ROOT)
    n += tiling.ends(c, ROOT, h, out, True)
    if tiling.resolved(c, ROOT, I, h, out, ab) and not n:
        for k in sorted(h.pushed):
            c.ok('%s renders the text it was read from' % k, ROOT)
        c.ok('%s: the tokens reach the end' % ROOT, ROOT)
    if h.ety is not None:
        for r in ('root_js_display', 'root_js_tokens_display', 'root_js_write'):
            tiling.rendered(c, r, I, h)
