"""C01: CSS minification never panics."""
import panics


def run(c):
    c.rule('Rule: abstract interpretation (zones over positions, lengths and counters, character ranges, character '
           'boundaries, the variant of the last token) of CSS tokenisation, cleaning and rendering for every input text: '
           'every index, slice, unwrap, arithmetic and explicit panic on a reachable path must be shown safe. A '
           'rendering is analysed for every sequence of tokens.')
    c.assume.append('input shorter than 2^31 bytes; memory is not exhausted')
    p = c.prog('lib')
    panics.root(c, p, 'root_css_minify', hooks=[panics.Light()], limit=600)
    panics.root(c, p, 'root_css_display', limit=100)
    panics.root(c, p, 'root_css_write', limit=100)
