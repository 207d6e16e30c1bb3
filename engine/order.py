"""Unbounded monitor of a rendering loop: every element of a sequence is rendered once, in order; collects the
relation (previous kind, separator, kind)."""
from dom import *
import run as R
import models
from render import Writes, deep, fmt_impl


def find_vec(I, s, v, depth=0):
    """first Vec inside a value, through references -> (VecV, cell path) or None"""
    if isinstance(v, VecV):
        return v
    if depth > 6:
        return None
    if isinstance(v, (Ref, RefC)):
        x = I.load_path(s, v.cell, v.path) if isinstance(v, Ref) else v.val
        return find_vec(I, s, x, depth + 1)
    if isinstance(v, Adt):
        for f in v.f:
            r = find_vec(I, s, f, depth + 1)
            if r is not None:
                return r
    return None


class Order(Writes):
    """`kind_of(I, type, variant)` -> name of the kind of an element"""

    def __init__(self, kind_of):
        super().__init__()
        self.kind_of = kind_of
        self.impls = set()    # how an element is rendered
        self.rel = {}         # (prev kind, sep, kind) -> site
        self.bad = {}         # message -> site
        self.odd = {}
        self.elems = 0
        self.exits = 0

    def start(self, I, s, vec):
        s.ghost['~cur'] = 0
        s.ghost['~keep'] = (0, 0)
        s.ghost['~sep'] = ''
        s.ghost['~len'] = vec.len

    def piece(self, I, s, kind, val, extra):
        if kind in ('lit', 'char') and not isinstance(val, Lin):
            t = val if kind == 'lit' else chr(val)
            s.ghost['~sep'] = (s.ghost['~sep'] + t)[:16]
            return [s]
        if kind != 'elem':
            self.odd.setdefault('%s piece written' % kind, I.where(s))
            I.note_unmodelled(s, 'piece ' + kind)
            return [s]
        idx = val
        cur = s.ghost['~cur']
        self.elems += 1
        self.impls.add(fmt_impl(I, extra[1]) if extra[1] else None)
        e = s.eq0(lsub(idx, cur))
        if e is not True:
            if s.taint:
                self.odd.setdefault('element order not resolved', I.where(s))
            elif e is False:
                self.bad.setdefault('an element is rendered out of order, twice or after a skipped one', I.where(s))
            else:
                self.bad.setdefault('an element is rendered out of order (its index is not shown to be the next one)',
                                    I.where(s))
            s.ghost['~cur'] = ladd(idx, 1)
            s.ghost['~keep'] = (ladd(idx, 1), idx)
            s.ghost['~sep'] = ''
            return [s]
        sep = s.ghost['~sep']
        pk = s.ghost.get('~pk', 'start')
        out = []
        for q, b in self.split(I, s, extra[0]):
            self.rel.setdefault((pk, sep, b), I.where(q))
            q.ghost['~pk'] = b
            q.ghost['~cur'] = ladd(cur, 1)
            q.ghost['~keep'] = (ladd(cur, 1), cur)
            q.ghost['~sep'] = ''
            out.append(q)
        return out

    def split(self, I, s, v):
        """one state per kind of the element"""
        if isinstance(v, Adt):
            return [(s, self.kind_of(I, v.ty, v.v))]
        if isinstance(v, ETop):
            groups = {}
            for a, b in s.rng[v.vs]:
                for k in range(a, b + 1):
                    groups.setdefault(self.kind_of(I, v.ty, k), []).append((k, k))
            out = []
            for g, ks in groups.items():
                for q in s.copy().assume(Cond('in', v.vs, tuple(sorted(ks))), True):
                    out.append((q, g))
            return out
        return [(s, '*')]

    def finish(self, I, s):
        """a successful return"""
        self.exits += 1
        d = lsub(s.ghost['~cur'], s.ghost['~len'])
        e = s.eq0(d) if isinstance(d, Lin) else d == 0
        if e is not True:
            (self.odd if s.taint else self.bad).setdefault('success is returned before every element was rendered',
                                                           'at return')
        if s.ghost['~sep']:
            self.rel.setdefault((s.ghost.get('~pk', 'start'), s.ghost['~sep'], 'end'), 'at return')


def analyse(p, root, kind_of):
    h = Order(kind_of)
    I = R.make(p, [h])
    fn = I.p.fns[I.p.roots[root]]
    fn.prep()
    from dom import State
    st = State()
    args = [I.top(st, fn.locals[i + 1]) for i in range(fn.nargs)]
    vec = None
    for a in args:
        vec = vec or find_vec(I, st, a)
    if vec is None:
        raise Exception('no token sequence in the argument of ' + root)
    h.start(I, st, vec)
    I.cur = (fn, fn.line)
    swallowed = []
    for s, r in I.run_fn(st, fn, args):
        ok = result_is(I, s, r)
        for q, isok in ok:
            if isok and q.ghost.get('~failed'):
                swallowed.append(bool(q.taint))
            elif isok:
                h.finish(I, q)
    return I, h, swallowed


def result_is(I, s, r):
    if isinstance(r, Adt):
        return [(s, r.v == 0)]
    if isinstance(r, ETop):
        return [(q, True) for q in s.assume(Cond('in', r.vs, ((0, 0),)), True)] + \
               [(q, False) for q in s.assume(Cond('in', r.vs, ((0, 0),)), False)]
    return [(s, True)]
