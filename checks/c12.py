"""C12: writing and formatting a minified result agree."""
from dom import *
import order, models
import run as R
from render import Writes, deep, fmt_impl


def kind(I, t, k):
    return I.T[t]['variants'][k]['n']


def seq_pair(c, p, disp, wr, what):
    res = []
    for root in (disp, wr):
        I, h, _ = order.analyse(p, root, kind)
        c.count('rendering loops')
        c.count('elements rendered (abstract)', h.elems)
        res.append(h)
        for m, site in h.bad.items():
            c.violation('%s: %s' % (root, m), 'at %s' % (site,))
        for m, site in h.odd.items():
            c.undecided('%s: %s' % (root, m), 'at %s' % (site,))
        if not h.elems or not h.exits:
            c.undecided(root, 'no element is rendered on an analysed path')
        else:
            c.ok('%s renders every element once, in order' % root)
    a, b = res
    if a.odd or b.odd:
        return
    key = '%s: each element rendered by the same implementation' % what
    if None in a.impls | b.impls:
        c.undecided(key, 'implementation not resolved')
    else:
        c.require(key, a.impls == b.impls, 'format uses %s, write uses %s' % (sorted(a.impls), sorted(b.impls)))
    for r in sorted(set(a.rel) | set(b.rel)):
        key = '%s: %r between %s and %s' % (what, r[1], r[0], r[2])
        c.require(key, r in a.rel and r in b.rel, 'only %s does so (%s)' % (
            ('format', a.rel[r]) if r in a.rel else ('write', b.rel[r])))


class Chars(Writes):
    """every character the filter yields is written once, unchanged, before the next one is asked for"""

    def __init__(self):
        super().__init__()
        self.bad = {}
        self.odd = {}
        self.n = 0
        self.exits = 0

    def piece(self, I, s, kind, val, extra):
        pend = s.ghost.get('~pend')
        if kind == 'char':
            self.n += 1
            d = lsub(val, pend) if pend is not None else None
            same = d is not None and (d == 0 if not isinstance(d, Lin) else s.eq0(d) is True)
            if not same:
                self.flag(I, s, 'a character is written that is not the one just produced')
            s.ghost['~pend'] = None
        elif kind == 'other' and I.narrow_bytes(s, val, s.ghost.get('~pend')):
            self.flag(I, s, 'a character is written as a single truncated byte')
            s.ghost['~pend'] = None
        elif kind == 'lit':
            if val != '':
                self.flag(I, s, 'extra text %r is written' % val)
        else:
            self.odd.setdefault('%s piece written' % kind, I.where(s))
            I.note_unmodelled(s, kind + ' piece written')
        return [s]

    def flag(self, I, s, m):
        (self.odd if s.taint else self.bad).setdefault(m, I.where(s))


def chars_root(c, p, root):
    h = Chars()
    nxt = [i['def'] for k, i in p.callees.items() if i['crate'] == 'minifier' and
           i['def'].endswith('Iterator>::next') and k in p.fns and 'json' in i['def']]

    def on_next(I, s, cl):
        if s.ghost.get('~pend') is not None:
            h.flag(I, s, 'a produced character is not written')
        if s.ghost.get('~end'):
            pass
        d = I.T[cl.destty]
        o = s.copy()
        o.ghost['~end'] = True
        o.ghost['~pend'] = None
        ch = s.disc(((0, 0xd7ff), (0xe000, 0x10ffff)))
        s.ghost['~pend'] = ch
        return [(o, models.opt_none(I, cl.destty)), (s, models.opt_some(I, cl.destty, ch))]
    I = R.make(p, [h], {d: on_next for d in nxt})
    st = State()
    st.ghost['~pend'] = None
    st.ghost['~end'] = False
    fn = p.fns[p.roots[root]]
    fn.prep()
    args = [I.top(st, fn.locals[i + 1]) for i in range(fn.nargs)]
    I.cur = (fn, fn.line)
    for s, r in I.run_fn(st, fn, args):
        for q, ok in order.result_is(I, s, r):
            if ok and not q.ghost.get('~failed'):
                h.exits += 1
                if q.ghost.get('~pend') is not None:
                    h.flag(I, q, 'a produced character is not written')
                if not q.ghost.get('~end'):
                    h.flag(I, q, 'success before the text was exhausted')
    c.count('rendering loops')
    c.count('characters rendered (abstract)', h.n)
    for m, site in h.bad.items():
        c.violation('%s: %s' % (root, m), 'at %s' % (site,))
    for m, site in h.odd.items():
        c.undecided('%s: %s' % (root, m), 'at %s' % (site,))
    if not h.n or not h.exits:
        c.undecided(root, 'no character is written on an analysed path')
    else:
        c.ok('%s writes each produced character once, in order' % root)


def run(c):
    c.rule('Rule: for CSS and JavaScript the two rendering loops, interpreted over an unbounded sequence of arbitrary '
           'tokens, render every token once and in order by the same implementation, and write the same text between '
           'each pair of token kinds; for JSON both loops write each character of the same iterator once, in order.')
    p = c.prog('lib')
    seq_pair(c, p, 'root_css_display', 'root_css_write', 'css')
    seq_pair(c, p, 'root_js_display', 'root_js_write', 'js')
    chars_root(c, p, 'root_json_minify_display')
    chars_root(c, p, 'root_json_minify_write')
