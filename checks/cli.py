"""C18, C19: the command-line tool."""
from dom import *
import run as R
from interp import Abort
import panics
import clibox


def analyse(c):
    p = c.prog('cli')
    if 'main' not in p.roots:
        c.undecided('main', 'no entry point found')
        return None
    I = R.make(p, [], {}, ('vcli',))
    h = clibox.Cli(I)
    I.hooks = [h]
    I.intercept_fn = h.call
    fn = p.fns[p.roots['main']]
    fn.prep()
    ab = None
    try:
        for s, r in I.run_fn(State(), fn, []):
            h.end(I, s, 'return')
    except Abort as e:
        ab = str(e)
        c.undecided('main', 'not completed: %s' % e)
    return I, h, ab


def verdict(c, h, pid):
    for (p, k), m in sorted(h.bad.items()):
        if p == pid:
            c.violation(k, m)
    for (p, k), m in sorted(h.und.items()):
        if p == pid:
            c.undecided(k, m)
    for (p, k), w in sorted(h.seen.items()):
        if p == pid and (p, k.split(':')[0]) not in h.bad:
            c.ok(k, w or 'main')
    c.count('file system and minifier events', h.events)
    c.count('states at the end of a file', h.files)
