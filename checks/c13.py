"""C13: recognised symbols are rendered as the text they were read from."""
import re
import run as R
from dom import *
from interp import decide
import graph, models
from render import Writes, fmt_impl

WHITE = set(' \t\n\r\x0b\x0c')


class Text(Writes):
    """collects the rendered text of a value whose fields are texts of the source"""

    def piece(self, I, s, kind, val, extra):
        out = s.ghost.get('txt', ())
        if kind == 'lit':
            out = out + (('l', val),)
        elif kind == 'char' and not isinstance(val, Lin):
            out = out + (('l', chr(val)),)
        elif kind == 'str':
            out = out + (('s', val),)
        else:
            out = out + (('?', kind),)
        s.ghost['txt'] = out
        return [s]


def interp(p):
    h = Text()
    I = R.make(p, [h])
    I.keep_paths = True
    I.scalar_summary = lambda *a: None
    return I, h


def render(I, st, key, val):
    """texts rendered for val: list of piece tuples (successful paths)"""
    fn = I.p.fns[key]
    fn.prep()
    s = st.copy()
    s.ghost.pop('txt', None)
    I.cur = (fn, fn.line)
    out = []
    for q, r in I.run_fn(s, fn, [RefC(val), Top(None)]):
        if isinstance(r, Adt) and r.v == 1 or q.ghost.get('~failed'):
            continue
        out.append((q, q.ghost.get('txt', ())))
    return out


def plain(pieces):
    if all(k == 'l' for k, _ in pieces):
        return ''.join(x for _, x in pieces)
    return None


def enum_texts(c, p, key, ty):
    """variant index -> rendered text, by analysing every variant of a fieldless enum"""
    d = p.types[ty]
    res = {}
    for i, v in enumerate(d['variants']):
        I, h = interp(p)
        outs = render(I, State(), key, Adt(ty, i, ()))
        ts = {plain(x) for _, x in outs}
        res[i] = ts.pop() if len(ts) == 1 else None
    return res


def rng_chars(st, v, cap=64):
    """the exact set of characters of v, if small"""
    if not isinstance(v, Lin):
        return [v] if is_num(v) else None
    if v.single() is None or v.single() not in st.rng:
        return None
    out = []
    for a, b in st.rng[v.single()]:
        if b - a > cap:
            return None
        out.extend(range(a, b + 1))
    return out


def text_of(I, st, sv):
    """the literal content of a text slice, if the path fixes it"""
    n = lsub(sv.hi, sv.lo)
    pos, out = sv.lo, ''
    for _ in range(40):
        if st.eq0(lsub(pos, sv.hi)) is True:
            return out
        e = models.find_char(st, sv.base, pos) if isinstance(sv.base, int) else None
        if e is None:
            return None
        ch = e[1]
        cs = rng_chars(st, ch, 1)
        if not cs or len(cs) != 1:
            return None
        out += chr(cs[0])
        pos = ladd(pos, len(chr(cs[0]).encode()))
    return None


def run(c):
    c.rule('Rule: each path of every recogniser (TryFrom<char>, TryFrom<&str>, TryFrom<symbol> of the lexers) that '
           'returns a symbol fixes the spelling it was read from; the Display of that symbol, analysed per variant, is '
           'that spelling (white space may become another white space), and Display is injective per symbol type.')
    c.assume.append('Symbols built by the tokenizers from several symbols (`+=`, `~=`) are covered by C04/C05.')
    p = c.prog('lib')
    disp, tryf = {}, []
    for k, i in p.callees.items():
        if i['crate'] != 'minifier' or k not in p.fns:
            continue
        m = re.match(r'^<(.*) as (?:std|core)::fmt::Display>::fmt$', i['def'])
        if m:
            f = p.fns[k]
            t = p.types[f.locals[1]]['to']
            disp[t] = k
        m = re.match(r'^<(.*) as (?:std|core)::convert::TryFrom<(.*)>>::try_from$', i['def'])
        if m:
            tryf.append((k, m.group(1), m.group(2)))
    texts = {}
    for t, k in sorted(disp.items()):
        d = p.types[t]
        if d['k'] != 'adt' or d['kind'] != 'enum' or any(v['f'] for v in d['variants']):
            continue
        texts[t] = enum_texts(c, p, k, t)
        nm = p.tystr(t)
        seen = {}
        for i, x in texts[t].items():
            vn = d['variants'][i]['n']
            c.count('symbols')
            if x is None:
                c.undecided('%s::%s rendered' % (nm, vn), 'its text is not a constant')
                continue
            c.require('%s::%s rendered' % (nm, vn), x != '', 'renders as nothing', nm)
            if x in seen:
                c.violation('%s: %s and %s' % (nm, seen[x], vn), 'both render as %r' % x)
            seen[x] = vn
    if len(texts) < 6:
        c.undecided('symbol types', 'only %d found' % len(texts))
    for k, tn, src in sorted(tryf):
        fn = p.fns[k]
        fn.prep()
        I, h = interp(p)
        st = State()
        arg = I.top(st, fn.locals[1])
        aty = p.types[fn.locals[1]]
        I.cur = (fn, fn.line)
        nm = '%s from %s' % (tn, src)
        got = {}
        paths = I.run_fn(st, fn, [arg])
        c.count('recogniser paths', len(paths))
        n = 0
        for q, r in paths:
            if isinstance(r, ETop) or not isinstance(r, Adt):
                c.undecided(nm, 'result not resolved')
                continue
            if r.v != 0:
                continue
            v = r.f[0]
            if aty['k'] == 'char':
                cs = rng_chars(q, arg)
                spell = [chr(x) for x in cs] if cs else None
            elif aty['k'] in ('ref',):
                x = text_of(I, q, arg) if isinstance(arg, StrV) else None
                spell = [x] if x is not None else None
                if spell is None and isinstance(v, Adt) and v.f:
                    prefix_case(c, I, q, nm, arg, v, disp)
                    n += 1
                    continue
            else:
                spell = None
                if isinstance(arg, ETop) and fn.locals[1] in texts:
                    spell = []
                    for a, b in q.rng[arg.vs] if arg.vs in q.rng else ():
                        spell += [texts[fn.locals[1]].get(x) for x in range(a, b + 1)]
            if not isinstance(v, Adt) or v.f:
                c.undecided(nm, 'symbol not resolved on a path')
                continue
            vn = '%s::%s' % (tn, p.types[v.ty]['variants'][v.v]['n'])
            out = texts.get(v.ty, {}).get(v.v)
            if out is None or not spell or None in spell:
                if aty['k'] == 'ref' and not spell and not q.taint and I.unroll > 0:
                    c.violation('%s recognised from %s' % (vn, src),
                                'a path recognises it without comparing the whole text with one spelling')
                else:
                    c.undecided('%s recognised from %s' % (vn, src), 'spelling not resolved')
                continue
            n += 1
            for x in spell:
                ok = x == out or (x in WHITE and out in WHITE)
                c.require('%s recognised from %r' % (vn, x), ok, 'is rendered as %r' % out,
                          '%s:%s' % (fn.file, fn.line))
                if x in got and got[x] != vn:
                    c.violation('%s: spelling %r' % (nm, x), 'recognised as %s and %s' % (got[x], vn))
                got[x] = vn
        if not n:
            c.undecided(nm, 'no recognising path resolved')


def prefix_case(c, I, q, nm, arg, v, disp):
    """a symbol holding part of the text: prefix literal + the rest"""
    d = I.T[v.ty]
    vn = '%s::%s' % (I.p.tystr(v.ty), d['variants'][v.v]['n'])
    key = disp.get(v.ty)
    if key is None:
        c.undecided(vn, 'no Display')
        return
    for s2, pieces in render(I, q, key, v):
        pos, bad = arg.lo, None
        for j, (k, x) in enumerate(pieces):
            if k == 'l':
                for ch in x:
                    e = models.find_char(s2, arg.base, pos)
                    cs = e and rng_chars(s2, e[1], 1)
                    if cs == [ord(ch)]:
                        pos = ladd(pos, len(ch.encode()))
                    elif ch in WHITE and s2.eq0(lsub(pos, arg.hi)) is True:
                        pass
                    else:
                        bad = 'renders %r where the source has other text' % x
            elif k == 's' and isinstance(x, StrV) and x.base == arg.base:
                if s2.eq0(lsub(x.lo, pos)) is not True:
                    bad = 'renders another part of the text'
                pos = x.hi
            else:
                c.undecided(vn + ' rendered', 'renders an unresolved piece (%s)' % k)
                return
        if bad is None and s2.eq0(lsub(pos, arg.hi)) is not True:
            bad = 'does not render the text to its end'
        if q.taint and bad:
            c.undecided(vn + ' from text', bad)
        else:
            c.require(vn + ' from text', bad is None, bad, nm)
