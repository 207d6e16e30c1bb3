"""C18: the command-line tool never destroys a file it failed to minify."""
from checks import cli
import panics


def run(c):
    c.rule('Rule: abstract interpretation of main over every type option, extension, output and fault: an output file is '
           'opened for writing, replaced or removed only in states where the current input was read and minified; every '
           'file ends written or reported; no panic is reachable; the program ends only after the last file.')
    c.assume.append('Printing to the terminal does not fail; clap delivers the declared arguments.')
    r = cli.analyse(c)
    if r is None:
        return
    I, h, ab = r
    cli.verdict(c, h, 'C18')
    panics.report(c, I, 'main', ab)
    if not h.events or not h.files:
        c.undecided('main', 'no file is handled on the analysed paths')
