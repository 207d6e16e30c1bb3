"""C02: JavaScript minification never panics."""
import panics

OTHER = ('display', 'write', 'tokens_display', 'token_display', 'clean_tokens', 'clean_tokens_except', 'clean_token',
         'clean_token_except', 'replace_tokens_with', 'get_var')


def run(c):
    c.rule('Rule: abstract interpretation (zones over positions, lengths and counters with sums of two, character '
           'ranges, character boundaries, the variant of the last token, recursion by induction over its entries and '
           'exits) of JavaScript tokenisation and cleaning for every input text, and of rendering and of every public '
           'cleaning function for every sequence of tokens: every index, slice, unwrap, arithmetic and explicit panic '
           'on a reachable path must be shown safe.')
    c.assume.append('input shorter than 2^31 bytes; memory is not exhausted')
    p = c.prog('lib')
    panics.root(c, p, 'root_js_minify', hooks=[panics.Light()], limit=350)
    panics.root(c, p, 'root_js_simple_minify', hooks=[panics.Light()], limit=350)
    for r in OTHER:
        panics.root(c, p, 'root_js_' + r, hooks=[panics.Light()], limit=60)
