"""C19: the command-line tool applies the minifier of the file's type."""
from checks import cli
import clibox


def run(c):
    c.rule('Rule: abstract interpretation of main over every type option (texts accepted for each variant computed from the '
           'value table), extension and output option: what is written is exactly the output of the minifier of that type '
           'applied to the input, the target is the requested output or derived from the input, unknown types are rejected.')
    c.assume.append('clap selects the variant whose accepted text was given.')
    r = cli.analyse(c)
    if r is None:
        return
    I, h, ab = r
    cli.verdict(c, h, 'C19')
    opts = set()
    for names in h.optnames.values():
        opts |= set(names)
    if not opts or '?' in opts:
        c.undecided('type option', 'its values are not resolved')
    else:
        c.require('type option: exactly css, js and json are accepted', opts == set(clibox.TYPES),
                  'the type option accepts %s' % sorted(opts))
    if ab or any(k[0] == 'C19' for k in h.und):
        return
    for o in ('',) + clibox.TYPES:
        for e in clibox.TYPES:
            want = {(o, e)} | ({(o, None)} if o else set())
            if not (want & h.done):
                c.undecided('type option %s, extension %s' % (o or 'none', e), 'no path minifies such a file')
