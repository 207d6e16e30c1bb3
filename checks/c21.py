"""C21: errors of the output sink and the input reader are never swallowed."""
from dom import *
import run as R
import models, order
from interp import Abort
from render import Writes


class Faults(Writes):
    def payload(self, I, s, ty):
        d = I.T[ty]
        if d['k'] == 'adt' and 'io::error::Error' in d['name'] or d['k'] == 'adt' and d['name'] == 'std::io::Error':
            return It('sinkerr', ty, ())
        return I.top(s, ty)

    def piece(self, I, s, kind, val, extra):
        return [s]


def marks(I, s, v, depth=0):
    """the error markers held by a value; '?' for a part that is not known"""
    if isinstance(v, (Ref, RefC)):
        v = models.peel(I, s, v)
    if isinstance(v, It):
        return {v.kind}
    if isinstance(v, Adt) and depth < 6:
        out = set()
        for f in v.f:
            out |= marks(I, s, f, depth + 1)
        return out
    if isinstance(v, (ETop, Top)):
        return {'?'}
    return set()


def sink_write(h):
    def f(I, s, c):
        h.nwrites += 1
        if s.ghost.get('~failed'):
            I.oblige(s, 'write after a failed write', False, 'output is attempted after the sink failed')
        o = s.copy()
        o.ghost['~failed'] = True
        d = I.T[c.destty]
        ok = d['variants'][0]['f'][0][1]
        v = s.num(0, 1 << 40) if I.T[ok]['k'] == 'int' else I.top(s, ok)
        return [(s, models.res_ok(I, c.destty, v)),
                (o, models.res_err(I, c.destty, It('sinkerr', d['variants'][1]['f'][0][1], ())))]
    return f


def run_one(c, p, name, fn, hooks=None, intercept=None, setup=None, streaming=False):
    h = Faults()
    ic = {'<vharness::Sink as std::io::Write>::write': sink_write(h),
          '<vharness::Sink as std::io::Write>::flush': sink_write(h)}
    ic.update(intercept or {})
    I = R.make(p, [h], ic)
    fn.prep()
    st = State()
    if streaming:
        st.ghost['~srcerr'] = False
    args = [I.top(st, fn.locals[i + 1]) for i in range(fn.nargs)]
    I.cur = (fn, fn.line)
    bad, und = {}, {}
    n = {'ok': 0, 'err': 0}

    def flag(q, m):
        (und if q.taint else bad).setdefault(m, name)
    try:
        res = I.run_fn(st, fn, args)
    except Abort as e:
        res = []
        c.undecided(name, 'not completed: %s' % e)
    for s, r in res:
        for q, ok in order.result_is(I, s, r):
            n['ok' if ok else 'err'] += 1
            err = q.ghost.get('~failed') or q.ghost.get('~srcerr')
            if ok and err:
                flag(q, 'success is reported after %s failed' % ('the sink' if q.ghost.get('~failed') else 'the source'))
            elif ok and q.ghost.get('~buffered'):
                flag(q, 'success is reported while output sits in a buffer whose flush may fail unseen')
            elif not ok and err and isinstance(r, Adt) and r.f:
                m = marks(I, q, r.f[0])
                want = 'sinkerr' if q.ghost.get('~failed') else 'srcerr'
                if want in m or not I.T[r.ty]['variants'][1]['f'] or zst(I, r):
                    continue
                if '?' in m:
                    und.setdefault('the returned error is not resolved', name)
                else:
                    flag(q, 'another error than the one that occurred is returned')
    for o in I.obls.values():
        if o.key[1] != 'write after a failed write':
            continue
        if o.bad:
            bad.setdefault('%s (in %s)' % (o.msg, o.key[0]), o.where)
        elif o.und:
            und.setdefault('%s (in %s)' % (o.msg, o.key[0]), o.where)
    c.count('output calls analysed', h.nwrites)
    c.count('return states', n['ok'] + n['err'])
    for m, w in bad.items():
        c.violation('%s: %s' % (name, m), 'at %s' % w)
    for m, w in und.items():
        c.undecided('%s: %s' % (name, m), 'at %s' % w)
    if not n['ok'] or not n['err'] or not (h.nwrites or streaming):
        c.undecided(name, 'no success, no failure or no output on the analysed paths')
    elif not bad and not und:
        c.ok('%s: every failure is returned and ends the output' % name, name)
    return I


def zst(I, r):
    t = I.T[r.ty]['variants'][1]['f'][0][1]
    d = I.T[t]
    return d['k'] == 'tuple' and not d['e'] or d['k'] == 'adt' and d['kind'] == 'struct' and not d['variants'][0]['f']


def src_read(I, s, c):
    d = I.T[c.destty]
    if s.ghost.get('~srcerr'):
        return models.res_ok(I, c.destty, 0)
    o = s.copy()
    o.ghost['~srcerr'] = True
    return [(s, models.res_ok(I, c.destty, s.num(0, 1 << 62))),
            (o, models.res_err(I, c.destty, It('srcerr', d['variants'][1]['f'][0][1], ())))]


def deliver(I, s, c):
    if s.ghost.get('~srcerr'):
        I.oblige(s, 'write after a failed write', False, 'the streaming reader reports success after the source failed')
    return models.unit(I, c.destty)


def run(c):
    c.rule('Rule: abstract interpretation of every rendering and streaming entry point in which each write to the sink '
           'and each read of the source may fail: after a failure no output call is reachable, no success is returned, '
           'and the error returned is the one that occurred (an interrupted read may be retried).')
    c.assume.append('A JSON source is asked again only by its caller after it failed.')
    p = c.prog('lib')
    impls = set()
    for root in ('root_css_display', 'root_css_write', 'root_js_display', 'root_js_tokens_display', 'root_js_write',
                 'root_json_minify_display', 'root_json_minify_write', 'root_js_token_display'):
        run_one(c, p, root, p.fns[p.roots[root]])
        c.count('entry points')
    for root in ('root_css_display', 'root_js_display'):
        _, h, _ = order.analyse(p, root, lambda I, t, k: I.T[t]['variants'][k]['n'])
        impls |= h.impls
    for k in sorted(x for x in impls if x):
        run_one(c, p, p.callees[k]['def'], p.fns[k])
        c.count('entry points')
    run_one(c, p, 'root_json_stream', p.fns[p.roots['root_json_stream']],
            intercept={'<vharness::Source as std::io::Read>::read': src_read, 'vharness::deliver': deliver},
            streaming=True)
    c.count('entry points')
