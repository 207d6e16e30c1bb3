"""Panic freedom of analysis roots: every panic site of the functions entered is unreachable or its condition proved."""
import time
from dom import *
from interp import Abort
import run as R, graph
from render import Hook


def sites(I):
    """panic sites in the user functions entered: (function, kind) -> number"""
    out = {}
    for k in sorted(I.stats['fns']):
        fn = I.p.fns[k]
        if not I.is_user(fn):
            continue
        for b in fn.blocks:
            t = b['t'] if isinstance(b, dict) else b[-1]
            if not isinstance(t, list):
                continue
            if t[0] == 'assert':
                out[(fn.name, 'assert')] = out.get((fn.name, 'assert'), 0) + 1
            elif t[0] == 'call' and t[4] is None and isinstance(t[1], str):
                d = I.p.callees[t[1]]['def'] if t[1] in I.p.callees else '?'
                out[(fn.name, d)] = out.get((fn.name, d), 0) + 1
    return out


def report(c, I, name, aborted=None):
    bad = und = 0
    for k, o in sorted(I.obls.items(), key=str):
        key = '%s: %s' % o.key
        if o.key[1] == 'write after a failed write':
            continue
        c.count('obligation instances', o.ok + o.bad + o.und)
        if o.bad:
            bad += 1
            c.violation(key, '%s at %s' % (o.msg, o.where))
        elif o.und:
            und += 1
            c.undecided(key, '%s at %s' % (o.msg, o.where))
        elif aborted is None:
            c.ok(key, o.where)
    for (f, d), n in sorted(sites(I).items()):
        c.count('panic sites in analysed functions', n)
        key = '%s: panic by %s' % (f, d)
        if not any(o.key[0] == f and (o.bad or o.und) for o in I.obls.values()) and aborted is None:
            c.ok(key, name)
    if aborted:
        c.undecided(name, 'not completed: %s' % aborted)
    elif not bad and not und:
        c.ok('%s: no panic is reachable' % name, name)
    c.count('entry points')
    c.count('functions analysed', len(I.stats['fns']))
    c.count('calls analysed', I.stats['calls'])


def root(c, p, name, hooks=(), intercept=None, limit=None):
    I = R.make(p, hooks, intercept)
    if limit:
        I.deadline = time.time() + limit
    ab = None
    try:
        R.run_root(I, name)
    except Abort as e:
        ab = str(e)
    report(c, I, name, ab)
    return I


def light(I, s, v, ty):
    """v with the texts it holds forgotten; its variants are kept"""
    if isinstance(v, Adt):
        d = I.T[v.ty]
        if d['k'] == 'adt' and isinstance(v.v, int):
            fs = d['variants'][v.v]['f']
            return Adt(v.ty, v.v, tuple(light(I, s, x, fs[i][1]) for i, x in enumerate(v.f)))
        return v
    if isinstance(v, StrV):
        return I.top(s, ty)
    return v


class Light(Hook):
    """of the elements of a Vec only the last one is remembered from one loop iteration to the next, without its text"""

    def fresh_elem(self, *a):
        return None

    def at_head(self, I, s, fn, bb):
        for k, v in list(s.cells.items()):
            if isinstance(v, VecV) and v.memo:
                m = tuple((j, light(I, s, x, v.ety)) for j, x in v.memo if s.eq0(ladd(lsub(v.len, j), -1)) is True)
                s.cells[k] = VecV(v.ety, v.len, m, v.ghost)
