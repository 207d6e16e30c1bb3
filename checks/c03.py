"""C03: JSON minification never panics, in memory or streamed."""
import panics


def run(c):
    c.rule('Rule: abstract interpretation (zones over positions and lengths, character ranges, buffer contents unknown) of the '
           'in-memory and the streaming minifier, the latter under an unbounded sequence of reads with arbitrary buffers '
           'over a source that may return any length or fail at any read; every index, slice, unwrap and explicit '
           'panic on a reachable path must be shown safe.')
    p = c.prog('lib')
    panics.root(c, p, 'root_json_minify_display')
    panics.root(c, p, 'root_json_minify_write')
    panics.root(c, p, 'root_json_stream', limit=300)
    panics.root(c, p, 'root_json_stream_retry', limit=450)
