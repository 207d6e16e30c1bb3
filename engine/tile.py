"""Tokens tile the text they were read from: a monitor of a tokenizer.

Ghost state, kept in product with the program over MIR:
  ~src   the text; ~cur the position up to which it was read; ~lex the state of a lexical automaton over it
  ~E     the tokens pushed so far render (up to gaps) the text before this position
  ~P     text of tokens popped again: it lies right before ~E
  ~g     [~E, ~g) is gap: nothing a token has to account for; ~all: that is all that was read
  ~r     the automaton is at the end of a gap that starts here (or None)
  ~cs ~ce  the last comment (start, end); ~eof the text was read to its end
A token pushed must render the text at ~E or ~g; its text and slices come from the Display implementation.
"""
import itertools, os, time
from dom import *
from interp import decide, Infeasible, Abort
import graph, models, panics, run as R, order
from models import char_in, cge, ceq
from render import Hook, Writes, deep

WHITE = ' \t\n\r'


def cls(t):
    return r_of(sorted({ord(x) for x in t}))


class Collect(Writes):
    """the pieces a rendering writes, when no write fails"""

    def __init__(self):
        super().__init__()

    def piece(self, I, s, kind, val, extra):
        s.ghost['~out'] = s.ghost['~out'] + ((kind, val),)
        return [s]


class Templates:
    """what a token renders as: [('lit', text) | ('slice', k) | ('num', k)], k the index of the field in reading order"""

    def __init__(self):
        self.memo = {}
        self.impl = {}

    def display(self, I, ety):
        if ety not in self.impl:
            r = None
            for k, fn in I.p.fns.items():
                if not k.startswith('~') and fn.nargs == 2 and 'Display>::fmt' in fn.name and I.is_user(fn):
                    d = I.T[fn.locals[1]]
                    if d['k'] == 'ref' and d['to'] == ety:
                        r = k
            self.impl[ety] = r
        return self.impl[ety]

    def flatten(self, I, v, out, s):
        """shape of a token value with its texts as holes; None if it isn't fully known"""
        if isinstance(v, StrV):
            out.append(v)
            return 'S'
        if isinstance(v, Adt) and isinstance(v.v, int):
            fs = tuple(self.flatten(I, x, out, s) for x in v.f)
            return None if None in fs else (v.ty, v.v, fs)
        if isinstance(v, ETop):
            r = s.rng[v.vs]
            if r_size(r) == 1:
                return self.flatten(I, I.as_adt(s, v), out, s)
            return None
        if isinstance(v, bool):
            return v
        if isinstance(v, Cond):
            t = s.test(v)
            return t
        if is_num(v):
            x = v.single() if isinstance(v, Lin) else None
            if x is not None and x in s.rng:
                r = s.rng[x]
                return ('i', r[0][0]) if r_size(r) == 1 else None
            out.append(v)
            return 'N'
        if isinstance(v, StringV):
            out.append(v)
            return 'T'
        return None

    def build(self, I, st, shape, holes):
        if shape == 'S':
            t = I.new_text(st)
            holes.append(('slice', t.base))
            return t
        if shape == 'N':
            n = st.num(0, 1 << 62)
            holes.append(('num', n))
            return n
        if shape == 'T':
            t = I.new_text(st)
            holes.append(('text', t.base))
            return StringV((t,), lsub(t.hi, t.lo))
        if isinstance(shape, bool):
            return shape
        if shape[0] == 'i':
            return shape[1]
        return Adt(shape[0], shape[1], tuple(self.build(I, st, x, holes) for x in shape[2]))

    def of(self, I, s, v, ety):
        """-> (template, texts) or (None, reason)"""
        holes = []
        shape = self.flatten(I, v, holes, s)
        if shape is None:
            return None, 'its value is not known'
        key = (ety, shape)
        if key not in self.memo:
            self.memo[key] = self.compute(I, ety, shape)
        return self.memo[key], holes

    def compute(self, I, ety, shape):
        f = self.display(I, ety)
        if f is None:
            return None
        st = State()
        hs = []
        tok = self.build(I, st, shape, hs)
        st.ghost = {'~out': ()}
        saved = I.hooks, I.cur, I.obls, I.stats['fns']
        col = Collect()
        I.hooks = [col]
        I.obls = {}
        I.stats['fns'] = set()
        try:
            fn = I.p.fns[f]
            fn.prep()
            res = I.run_fn(st, fn, [RefC(tok), Top(None)])
        finally:
            I.hooks, I.cur, I.obls, I.stats['fns'] = saved
        outs = set()
        for q, r in res:
            for q2, ok in order.result_is(I, q, r):
                if ok and not q2.ghost.get('~failed'):
                    o = []
                    for kind, val in q2.ghost['~out']:
                        if kind == 'lit':
                            o.append(('lit', val))
                        elif kind == 'char' and not isinstance(val, Lin):
                            o.append(('lit', chr(val)))
                        elif kind == 'str' and isinstance(val, StrV) and ('slice', val.base) in hs and val.lo == 0 \
                                and q2.eq0(lsub(val.hi, q2.text[val.base].len)) is True:
                            o.append(('slice', hs.index(('slice', val.base))))
                        elif kind == 'num' and any(h[0] == 'num' and q2.eq0(lsub(val, h[1])) is True for h in hs):
                            o.append(('num', [h[0] == 'num' and q2.eq0(lsub(val, h[1])) is True for h in hs].index(True)))
                        else:
                            o.append(('odd', kind))
                    outs.add(tuple(o))
        if len(outs) != 1:
            return None
        return next(iter(outs))


def enum_syms(I, s, v, out):
    """symbols of a token value that select its variant or sub-variant"""
    if isinstance(v, Adt):
        for x in v.f:
            enum_syms(I, s, x, out)
    elif isinstance(v, ETop):
        if r_size(s.rng[v.vs]) > 1 and v.vs not in out:
            out.append(v.vs)
        elif r_size(s.rng[v.vs]) == 1:
            enum_syms(I, s, I.as_adt(s, v), out)
    elif isinstance(v, Lin):
        x = v.single()
        if x is not None and x in s.rng and r_size(s.rng[x]) > 1 and x not in out:
            out.append(x)
    elif isinstance(v, Cond) and s.test(v) is None:
        out.append(v)


def label(I, v, s):
    if isinstance(v, Adt) and isinstance(v.v, int):
        n = I.T[v.ty]['variants'][v.v]['n'] or ''
        fs = [label(I, x, s) for x in v.f]
        fs = [x for x in fs if x]
        return '%s(%s)' % (n, ', '.join(fs)) if fs else n
    if isinstance(v, ETop):
        r = s.rng[v.vs]
        vs = I.T[v.ty]['variants']
        return '|'.join(vs[k]['n'] for a, b in r for k in range(a, b + 1))
    return ''


class Tile(Hook):
    exact = False           # every gap is a token of its own

    def __init__(self):
        self.bad, self.und = {}, {}
        self.tpl = Templates()
        self.pushed = {}      # label -> number
        self.comments = {}    # variants holding the text of ordinary comments
        self.neutral = set()  # labels rendered as white space only
        self.drop, self.kept, self.replaced = {}, {}, {}
        self.license = {}     # variants holding the text of license comments
        self.chars = 0
        self.gapkinds = set()
        self.ety = None
        self.seen = set()

    # ------------------------------------------------------------------ messages
    def flag(self, I, s, m, und=False, kind='text'):
        """kind: 'text' (significant text is lost or changed), 'license' (a license comment is), 'comment' (an ordinary
        comment is rendered)"""
        (self.und if s.taint or und else self.bad).setdefault((kind, m), I.where(s))
        if not (s.taint or und) and I.deadline:
            I.deadline = min(I.deadline, time.time() + 90)      # one violation settles it
        if os.environ.get('TILE_DEBUG') and m not in self.seen:
            self.seen.add(m)
            print('FLAG', m, I.where(s), {k: v for k, v in s.ghost.items()})
            print('    ', [(p, self.rngs(s, ch), n) for p, ch, n in s.text[s.ghost['~src'].base].chars])
            for k in ('~E', '~g', '~r', '~cur'):
                if s.ghost.get(k) is not None:
                    print('    ', k, 'to cur', s.lower(lsub(s.ghost['~cur'], s.ghost[k])),
                          s.upper(lsub(s.ghost['~cur'], s.ghost[k])))
        raise Infeasible()           # reported: nothing more is learnt from here

    def rngs(self, s, ch):
        if not isinstance(ch, Lin):
            return ch
        return s.rng.get(ch.single())

    # ------------------------------------------------------------------ set-up
    def start(self, I, s, src, ety):
        self.ety = ety
        g = s.ghost
        g['~src'] = src
        g['~cur'] = 0
        g['~lex'] = 'c'
        g['~E'] = 0
        g['~P'] = ''
        g['~g'] = 0
        g['~r'] = None
        g['~cs'] = None
        g['~ce'] = None
        g['~all'] = True
        g['~eof'] = False
        self.start_more(s)

    def start_more(self, s):
        pass

    def mine(self, s, it, pos):
        """a character of the text that was not read before"""
        g = s.ghost
        return it.f[0].base == g['~src'].base and not decide(s, cge(ladd(lsub(g['~cur'], pos), -1)))

    # ------------------------------------------------------------------ helpers
    def le(self, s, a, b):
        return s.ge0(lsub(b, a)) is True

    def eq(self, s, a, b):
        return s.eq0(lsub(b, a)) is True

    def within(self, s, a, lo, hi):
        return self.le(s, lo, a) and self.le(s, a, hi)

    def char_is(self, s, pos, x):
        """the character at pos is known to be x; -> next position or None"""
        src = s.ghost['~src']
        for p, ch, n in s.text[src.base].chars:
            if p is not None and self.eq(s, p, pos):
                if self.one(s, ch) == ord(x):
                    return ladd(pos, len(x.encode()))
        cs, ce = s.ghost['~cs'], s.ghost['~ce']
        if cs is not None:
            if self.eq(s, pos, cs) and x == '/':
                return ladd(pos, 1)
            if self.eq(s, pos, ladd(cs, 1)) and x == '*' and not s.ghost.get('~line'):
                return ladd(pos, 1)
            if ce is not None and s.ghost.get('~lic'):
                if self.eq(s, pos, ladd(cs, 2)) and x == '!':
                    return ladd(pos, 1)
            if ce is not None and not s.ghost.get('~line'):
                if self.eq(s, pos, ladd(ce, -2)) and x == '*':
                    return ladd(pos, 1)
                if self.eq(s, pos, ladd(ce, -1)) and x == '/':
                    return ladd(pos, 1)
        return None

    def finished(self, s):
        g = s.ghost
        return g['~eof'] and not g['~P'] and self.eq(s, g['~g'], g['~src'].hi)

    def one(self, s, ch):
        if not isinstance(ch, Lin):
            return ch
        y = ch.single()
        r = s.rng.get(y) if y is not None else None
        return r[0][0] if r and r_size(r) == 1 else None

    def find_char(self, s, q, x, lim):
        """where the text goes on behind the gap [q, lim) the character is x -> next position"""
        if lim is None or self.le(s, lim, q):
            return self.char_is(s, q, x)
        return self.char_is(s, lim, x) if self.le(s, q, lim) else None

    # ------------------------------------------------------------------ pushes
    def cases(self, I, s, x):
        """copies of the state in which the kind of token x is fully known"""
        out, work = [], [(s.copy(), 0)]
        while work:
            q, n = work.pop()
            syms = []
            enum_syms(I, q, x, syms)
            if not syms:
                out.append(q)
                continue
            if n > 5 or len(out) + len(work) > 400:
                return None
            y = syms[0]
            if isinstance(y, Cond):
                work += [(r, n + 1) for v in (True, False) for r in q.assume(y, v)]
                continue
            for a, b in reversed(q.rng[y]):
                for k in range(b, a - 1, -1):
                    work += [(r, n + 1) for r in q.assume(Cond('in', y, ((k, k),)), True)]
        return out

    def on_push(self, I, s, v, x, g):
        if v.ety == self.ety:
            self.token(I, s, x)
        else:
            self.other_push(I, s, v, x)
        return g

    def other_push(self, I, s, v, x):
        if I.T[v.ety]['k'] != 'bool' or not self.finished(s):
            return
        vecs = [w for w in s.cells.values() if isinstance(w, VecV) and w.ety == self.ety]
        if len(vecs) != 1:
            self.flag(I, s, 'flags are kept for tokens of several sequences', und=True)
            return
        for val in (True, False):
            b = I.as_bool(x)
            for q in ([s] if isinstance(b, bool) and b == val else [] if isinstance(b, bool) else s.assume(b, val)):
                self.selected(I, q, vecs[0], v.len, val)

    def selected(self, I, s, vec, idx, keep):
        """the element is kept or dropped"""
        e = None
        for j, x in vec.memo:
            if s.eq0(lsub(idx, j)) is True:
                e = x
        d = self.kept if keep else self.drop
        if e is None:
            d.setdefault('?', (I.where(s), bool(s.taint)))
            return
        for n in self.labels(I, s, e):
            k = d.get(n)
            if k is None or k[1] and not s.taint:
                d[n] = (I.where(s), bool(s.taint))

    def blanks(self, I):
        """the kinds of tokens that render as white space only"""
        out = set()
        vs = I.T[self.ety]['variants']
        todo = [(k, ()) for k, v in enumerate(vs) if not v['f']] + I.inner_enums(self.ety)
        for k, fts in todo:
            for c in itertools.product(*[range(len(I.T[t]['variants'])) for t in fts]):
                t = self.tpl.compute(I, self.ety, (self.ety, k, tuple((x, y, ()) for x, y in zip(fts, c))))
                n = vs[k]['n']
                if fts:
                    n = '%s(%s)' % (n, ', '.join(I.T[x]['variants'][y]['n'] for x, y in zip(fts, c)))
                if t and all(x[0] == 'lit' and not x[1].strip(WHITE) for x in t):
                    out.add(n)
        return out

    def labels(self, I, s, e):
        """labels of the values e may have, down to field-less sub-variants"""
        out = set()
        if isinstance(e, ETop):
            for a, b in s.rng[e.vs]:
                for k in range(a, b + 1):
                    q = s.copy()
                    q.set_rng(e.vs, ((k, k),))
                    out |= self.labels(I, q, Adt(e.ty, k, I.payload(q, e, k)))
            return out
        if isinstance(e, Adt):
            nm = I.T[e.ty]['variants'][e.v]['n']
            subs = [self.labels(I, s, f) for f in e.f if isinstance(f, (Adt, ETop))]
            if not subs:
                return {nm}
            return {'%s(%s)' % (nm, ', '.join(c)) for c in itertools.product(*subs)}
        return {'?'}

    def on_kept(self, I, s, vec, idx, keep):
        if vec is None or vec.ety != self.ety:
            return
        fl = s.ghost.get('~flag')
        if fl is not None and self.eq(s, fl[0], idx) and self.one(s, fl[1]) == int(keep):
            s.ghost['~flag'] = None
            return                   # decided when the flag was pushed
        s.ghost['~flag'] = None
        self.selected(I, s, vec, idx, keep)

    def at_head(self, I, s, fn, bb):
        """from one iteration to the next a Vec's last element is remembered (without its text), and the element
        that is looked at when flags are made for the tokens"""
        keep = ()
        fin = '~src' in s.ghost and self.finished(s)
        if fin:
            for w in s.cells.values():
                if isinstance(w, VecV) and I.T[w.ety]['k'] == 'bool':
                    keep = (w.len,)
        s.ghost['~keep'] = keep
        self.collapse(I, s)
        if s.ghost.get('~last') is not None and bb in fn.heads and not any(self.ahead(I, v) for v in s.cells.values()):
            s.ghost['~last'] = None
        for k, v in list(s.cells.items()):
            if isinstance(v, VecV) and v.memo:
                if fin and I.T[v.ety]['k'] == 'bool':
                    m = ()
                else:
                    m = tuple((j, panics.light(I, s, x, v.ety)) for j, x in v.memo
                              if s.eq0(ladd(lsub(v.len, j), -1)) is True or any(s.eq0(lsub(j, q)) is True for q in keep))
                s.cells[k] = VecV(v.ety, v.len, m, v.ghost)

    def collapse(self, I, s):
        pass

    def ahead(self, I, v):
        """v has read a character that was not handed out"""
        if isinstance(v, Adt) and v.ty is not None:
            d = I.T[v.ty]
            if d['k'] == 'adt' and d['name'] == 'std::iter::Peekable':
                for (n, _), x in zip(d['variants'][0]['f'], v.f):
                    if n == 'peeked' and not (isinstance(x, Adt) and x.v == 0):
                        return True
            return any(self.ahead(I, x) for x in v.f)
        return False

    def fresh_elem(self, I, st, v, idx):
        if isinstance(v, VecV) and I.T[v.ety]['k'] == 'bool' and '~src' in st.ghost:
            x = st.disc(BOOL)
            st.ghost['~flag'] = (idx, x)
            return Cond('in', x.single(), ((1, 1),))
        return None

    def on_elem_write(self, I, s, v, idx, old, new, g):
        if isinstance(v, VecV) and v.ety == self.ety:
            if s.eq0(ladd(lsub(v.len, idx), -1)) is True and not self.finished(s):
                self.unpush(I, s, old)
                self.token(I, s, new)
            else:
                self.rewrite(I, s, old, new)
        return g

    def rewrite(self, I, s, old, new):
        """an element is replaced in place"""
        a = self.labels(I, s, old)
        b = self.labels(I, s, new)
        for x in a:
            for y in b:
                self.replaced.setdefault((x, y), (I.where(s), bool(s.taint)))

    def token(self, I, s, x):
        cs = self.cases(I, s, x)
        if cs is None:
            self.flag(I, s, 'a token with too many possible values is pushed', und=True)
            return
        eff = {}
        first = None
        for q in cs:
            t, holes = self.tpl.of(I, q, x, self.ety)
            nm = '|'.join(sorted(self.labels(I, q, x)))
            if t is None or any(p[0] == 'odd' for p in t):
                self.flag(I, s, 'the rendering of %s is not resolved (%s)' % (nm, holes if t is None else ''), und=True)
                return
            self.pushed[nm] = self.pushed.get(nm, 0) + 1
            e = self.match(I, q, t, holes, nm)
            if isinstance(e, str):
                if os.environ.get('TILE_DEBUG') and e not in self.seen:
                    print('HOLES', holes, t, [(s.lower(lsub(h.lo, q.ghost['~g'])), s.upper(lsub(h.lo, q.ghost['~g'])),
                          s.lower(lsub(h.lo, q.ghost['~E'])), s.upper(lsub(h.lo, q.ghost['~E']))) for h in holes if isinstance(h, StrV) and q.ghost.get('~g') is not None])
                k = self.about(q, holes)
                if k == 'license':
                    (self.und if q.taint else self.bad).setdefault(
                        (k, 'a license comment is not rendered intact (%s)' % nm), I.where(q))
                self.flag(I, q, e, kind='comment' if k == 'comment' else 'text')
            eff.setdefault((e[0],) + e[2:], []).append((q, e))
        if len(eff) > 1:
            # the token moves on differently by its value: follow each
            from dom import Split
            raise Split([q for l in eff.values() for q, _ in l])
        es = {e for l in eff.values() for _, e in l}
        e = None
        for c in es:
            if e is None:
                e = c
            elif e[0] != 'none' and not self.eq(s, e[1], c[1]):
                raise Split([q for l in eff.values() for q, _ in l])
        if e[0] == 'adv':
            self.advance(s, *e[1:])

    def about(self, s, holes):
        """a license comment is due or an ordinary comment is about to be rendered"""
        g = s.ghost
        cs, ce = g['~cs'], g['~ce']
        if cs is None or ce is None:
            return None
        if g['~lic']:
            return 'license' if self.le(s, g['~E'], cs) else None
        for v in holes:
            if isinstance(v, StrV) and v.base == g['~src'].base and s.ge0(ladd(lsub(ce, v.lo), -1)) is True \
                    and s.ge0(ladd(lsub(v.hi, cs), -1)) is True:
                return 'comment'
        return None

    def advance(self, s, b):
        g = s.ghost
        r = g['~r'] if self.real_r(s) else None
        g['~E'] = b
        g['~P'] = ''
        if r is not None and self.le(s, r, b) or self.eq(s, b, g['~cur']):
            g['~g'] = g['~cur']
            g['~all'] = True
        else:
            g['~g'] = b
            g['~all'] = False
        self.tidy(s)

    def tidy(self, s):
        """forget a comment that lies before everything still to come"""
        g = s.ghost
        if g['~ce'] is not None and self.le(s, g['~ce'], g['~E']):
            g['~cs'] = g['~ce'] = None
            g['~lic'] = False

    def real_r(self, s):
        return s.ghost['~lex'] == 'c'

    def match(self, I, s, t, holes, nm):
        """('none',) or ('adv', new end) or a message"""
        g = s.ghost
        q, lim, p = g['~E'], g['~g'], g['~P']
        cs, ce = g['~cs'], g['~ce']
        if all(k == 'lit' and not v.strip(WHITE) for k, v in t) and not self.exact:
            self.neutral.add(nm)
            return ('none', None) if not p else '%s is pushed where a token was taken back' % nm
        if len(t) == 1 and t[0][0] == 'slice' and cs is not None and ce is not None and not g['~lic'] and not p:
            v = holes[t[0][1]]
            if v.base == g['~src'].base and self.le(s, ladd(cs, 2), v.lo) and self.le(s, v.hi, ce):
                self.comments.setdefault(nm, I.where(s))
                return ('none', None)
        pieces = []
        for k, v in t:
            if k == 'lit':
                pieces += [('c', x) for x in v]
            else:
                pieces.append((k, holes[v]))
        while pieces and pieces[-1][0] == 'c' and pieces[-1][1] in WHITE:
            pieces.pop()
        while pieces and pieces[0][0] == 'c' and pieces[0][1] in WHITE and not self.exact:
            pieces.pop(0)
        for k, v in pieces:
            if k == 'c':
                if p:
                    if p[0] != v:
                        return '%s renders %r for the %r it was read from' % (nm, v, p[0])
                    p = p[1:]
                    continue
                n = self.find_char(s, q, v, lim)
                if n is None and v == '!' and g['~lic'] and cs is not None and self.eq(s, q, ladd(cs, 2)):
                    n = ladd(q, 1)           # a license comment opened by a second star
                if n is None:
                    return '%s renders %r, which is not the next significant text of the source' % (nm, v)
                q = n
            elif k == 'slice':
                a, b = v.lo, v.hi
                if v.base != g['~src'].base:
                    return '%s does not hold text of the source' % nm
                if p:
                    if len(p) == 1 and self.eq(s, a, ladd(q, -1)):
                        p = ''
                        a = q
                    else:
                        return '%s leaves out the %r read before it' % (nm, p)
                if not (self.eq(s, a, q) or lim is not None and self.within(s, a, q, lim)):
                    return '%s does not begin where the significant text goes on' % nm
                if cs is not None and not g['~lic']:
                    if not (ce is not None and self.le(s, ce, a) or self.le(s, b, cs)):
                        return '%s covers an ordinary comment' % nm
                if not self.le(s, b, g['~cur']):
                    return '%s holds text that was not read' % nm
                if cs is not None and ce is not None and g['~lic'] and self.eq(s, a, ladd(cs, 3)) \
                        and self.eq(s, b, ladd(ce, -2)):
                    self.license.setdefault(nm, I.where(s))
                q = b
            else:
                m = self.number(I, s, v, q)
                if m is None:
                    return '%s is not rendered as it was spelled' % nm
                q = m
        if p:
            return '%s leaves out the %r read before it' % (nm, p)
        return ('adv', q)

    def number(self, I, s, v, q):
        return None

    def on_pop(self, I, s, v, x, g):
        if v.ety == self.ety:
            if self.finished(s):
                self.flag(I, s, 'tokens are taken back after the end', und=True)
            else:
                self.unpush(I, s, x)
        return g

    def unpush(self, I, s, x):
        g = s.ghost
        cs = self.cases(I, s, x)
        if cs is None:
            return self.flag(I, s, 'a token with too many possible values is taken back', und=True)
        r = set()
        for q in cs:
            t, holes = self.tpl.of(I, q, x, self.ety)
            if t is None:
                return self.flag(I, s, 'a token that is not known is taken back', und=True)
            txt = ''
            for k, v in t:
                txt += v if k == 'lit' else '\0'
            if len(t) == 1 and t[0][0] == 'slice' and not g['~P'] and self.eq(q, holes[t[0][1]].hi, g['~E']):
                r.add(('slice', holes[t[0][1]].lo))
                continue
            if '\0' in txt:
                return self.flag(I, s, 'a token holding text is taken back', und=True)
            if not self.exact:
                txt = txt.strip(WHITE)
            r.add(txt)
        if len(r) > 1:
            from dom import Split
            raise Split(cs)
        e = next(iter(r))
        if isinstance(e, tuple):
            self.back(s, e[1])
        elif e:
            g['~P'] = e + g['~P']

    def back(self, s, e):
        g = s.ghost
        g['~E'] = g['~g'] = e
        g['~all'] = False

    def on_clear(self, I, s, v, g):
        if v.ety == self.ety:
            self.flag(I, s, 'the tokens are cleared')
        return g

    def on_havoc(self, I, s, v, g):
        if v.ety == self.ety:
            self.flag(I, s, 'the token sequence is changed in a way that is not modelled', und=True)
        return g

    def on_insert(self, I, s, v, i, x, g):
        if v.ety == self.ety:
            self.flag(I, s, 'a token is inserted', und=True)
        return g

    def on_remove(self, I, s, v, i, x, g):
        if v.ety == self.ety:
            self.flag(I, s, 'a token is removed', und=True)
        return g

    # ------------------------------------------------------------------ reading
    def gap(self, s, start, n):
        """a gap that started at `start` goes on to n"""
        g = s.ghost
        if g['~r'] is None:
            g['~r'] = start
        g['~all'] = decide(s, cge(lsub(g['~g'], g['~r'])))
        if g['~all']:
            g['~g'] = n

    def on_char_end(self, I, s, it):
        g = s.ghost
        if it.f[0].base == g['~src'].base and self.eq(s, g['~cur'], g['~src'].hi):
            g['~eof'] = True


class Css(Tile):
    CODE = (('w', cls(WHITE)), ('/', cls('/')), ('\\', cls('\\')), ('"', cls('"')), ("'", cls("'")), ('{', cls('{')),
            ('}', cls('}')), ('[', cls('[')), (']', cls(']')))

    def start_more(self, s):
        s.ghost['~lic'] = False
        s.ghost['~depth'] = 0
        s.ghost['~br'] = False
        s.ghost['~wrong'] = None
        s.ghost['~last'] = None

    def klass(self, I, s, ch):
        """what the automaton has to know of a character, by its state"""
        l = s.ghost['~lex']
        if l in 'cs':
            for n, r in self.CODE:
                if decide(s, char_in(s, ch, r)):
                    return n
            if l == 's' and decide(s, char_in(s, ch, cls('*'))):
                return '*'
            return 'x'
        if l == 'e':
            return 'x'
        if l[0] in 'qQ':
            if l[0] == 'Q':
                return 'x'
            if decide(s, char_in(s, ch, cls('\\'))):
                return '\\'
            return l[1] if decide(s, char_in(s, ch, cls(l[1]))) else 'x'
        if l in ('o', 'o*', 'k', 'K', 'l', 'L'):
            for x in {'o': '!*', 'o*': '/*', 'k': '*', 'K': '*/', 'l': '*', 'L': '*/'}[l]:
                if decide(s, char_in(s, ch, cls(x))):
                    return x
        return 'x'

    def pre_char(self, I, s, it, pos, ch, n):
        if self.mine(s, it, pos):
            k = self.klass(I, s, ch)
            l = s.ghost['~lex']
            r = s.ghost['~r']
            if l in 'cs' and k == 'w':
                r = pos if l == 's' or r is None else r
            elif not (l == 'o*' and k == '/' or l == 'K' and k == '/'):
                if l in 'cs' and k == '}':
                    decide(s, cge(ladd(s.ghost['~depth'], -1)))
                return
            decide(s, cge(lsub(s.ghost['~g'], r)))

    def on_char(self, I, s, it, pos, ch, n):
        if not self.mine(s, it, pos):
            return
        g = s.ghost
        self.chars += 1
        if not self.eq(s, pos, g['~cur']):
            self.flag(I, s, 'the text is not read in order', und=True)
            return
        k = self.klass(I, s, ch)
        l = g['~lex']
        g['~cur'] = n
        if l in 'cs':
            if l == 's':
                if k == '*':
                    if g['~ce'] is not None and not self.le(s, g['~ce'], g['~E']) \
                            and not self.within(s, ladd(pos, -1), g['~E'], g['~g']):
                        self.flag(I, s, 'comments around text not yet in a token', und=True)
                        return
                    g['~all'] = False
                    g['~cs'] = ladd(pos, -1)
                    g['~ce'] = None
                    g['~lic'] = False
                    g['~lex'] = 'o'
                    return
                g['~r'] = None
            if k == 'w':
                self.gap(s, pos, n)
                g['~lex'] = 'c'
            elif k == '/':
                if g['~r'] is None:
                    g['~r'] = pos
                g['~lex'] = 's'
                g['~all'] = False
            else:
                g['~r'] = None
                g['~all'] = False
                g['~lex'] = 'e' if k == '\\' else 'q' + k if k in '"\'' else 'c'
                self.nest(s, k)
        elif l == 'e':
            g['~lex'] = 'c'
            g['~all'] = False
        elif l[0] == 'q':
            g['~lex'] = 'Q' + l[1] if k == '\\' else 'c' if k == l[1] else l
        elif l[0] == 'Q':
            g['~lex'] = 'q' + l[1]
        elif l == 'o':
            g['~lex'] = {'!': 'l', '*': 'o*'}.get(k, 'k')
            if k == '!':
                g['~lic'] = True
        elif l == 'o*' and k == '/' or l == 'K' and k == '/':
            g['~ce'] = n
            g['~lex'] = 'c'
            self.gap(s, g['~r'], n)
        elif l == 'o*':
            g['~lic'] = True
            g['~lex'] = 'L' if k == '*' else 'l'
        elif l in 'kK':
            g['~lex'] = 'K' if k == '*' else 'k'
        elif l in 'lL':
            if l == 'L' and k == '/':
                g['~ce'] = n
                g['~lex'] = 'c'
                g['~r'] = None
            else:
                g['~lex'] = 'L' if k == '*' else 'l'

    def collapse(self, I, s):
        """what is behind does not matter any more"""
        g = s.ghost
        if self.finished(s):
            g['~br'] = False
            g['~depth'] = 0
            g['~cs'] = g['~ce'] = None
            if g['~lex'] in 'cse':
                g['~lex'] = 'c'

    def nest(self, s, k):
        g = s.ghost
        g['~last'] = k if k in '{}[]' else None
        if k == '{':
            g['~depth'] = ladd(g['~depth'], 1)
        elif k == '}':
            self.brace(s, ladd(g['~depth'], -1))
        elif k == '[':
            if g['~br']:
                self.wrong(s, 'a bracket inside brackets')
            g['~br'] = True
        elif k == ']':
            if not g['~br']:
                self.wrong(s, 'a closing bracket without an opening one')
            g['~br'] = False

    def brace(self, s, d):
        if s.ge0(d) is not True:
            self.wrong(s, 'a closing brace without an opening one')
            d = 0
        s.ghost['~depth'] = d

    def wrong(self, s, m):
        if s.ghost['~wrong'] is None:
            s.ghost['~wrong'] = m


class CssForm(Css):
    """the lexical automaton alone: what is malformed; track: 'lex' strings and comments, 'depth' braces, 'br' brackets"""

    def __init__(self, track):
        super().__init__()
        self.track = track
        self.nests = {'lex': '', 'depth': '{}', 'br': '[]'}[track]
        self.CODE = tuple(x for x in Css.CODE if x[0] in '/\\"\'' or x[0] in self.nests)

    def start_more(self, s):
        super().start_more(s)
        for k in ('~E', '~P', '~g', '~r', '~cs', '~ce', '~all', '~lic'):
            s.ghost.pop(k, None)
        if self.track != 'depth':
            del s.ghost['~depth']
        if self.track != 'br':
            del s.ghost['~br']
        if self.track == 'lex':
            del s.ghost['~last']

    def same(self, I, s, *a):
        return a[-1]

    on_push = on_pop = on_clear = on_havoc = on_insert = on_remove = on_elem_write = same

    def on_kept(self, *a):
        pass

    def fresh_elem(self, *a):
        return None

    def finished(self, s):
        return False

    def collapse(self, I, s):
        g = s.ghost
        if g['~eof']:
            t = g['~src'].base
            s.text[t] = Text(s.text[t].len, (), (), s.text[t].tag)      # all read: the characters no longer matter
        if g['~wrong']:
            g['~lex'] = 'x'
        elif g['~eof']:
            if g['~lex'] in 'cse':
                g['~lex'] = 'c'
        else:
            return
        for k, v in (('~br', False), ('~depth', 0), ('~last', None)):
            if k in g:
                g[k] = v

    def on_char_end(self, I, s, it):
        super().on_char_end(I, s, it)
        if s.ghost['~eof'] and self.track != 'lex' and s.ghost['~lex'] not in 'csex':
            raise Infeasible()          # text cut short in a string or comment is judged by the analysis that tracks them

    def braces(self, s, k):
        return k == '}' and self.track == 'depth' and s.ghost['~lex'] in 'cs'

    def pre_char(self, I, s, it, pos, ch, n):
        if self.mine(s, it, pos):
            if self.braces(s, self.klass(I, s, ch)):
                decide(s, cge(ladd(s.ghost['~depth'], -1)))

    def on_char(self, I, s, it, pos, ch, n):
        if not self.mine(s, it, pos):
            return
        g = s.ghost
        self.chars += 1
        if not self.eq(s, pos, g['~cur']):
            self.flag(I, s, 'the text is not read in order', und=True)
        k = self.klass(I, s, ch)
        l = g['~lex']
        g['~cur'] = n
        if l == 'x':
            return
        if l == 's' and k == '*':
            l = 'o'
        elif l in 'cs':
            l = 's' if k == '/' else 'e' if k == '\\' else 'q' + k if k in '"\'' else 'c'
            if self.nests:
                g['~last'] = k if k in self.nests else None
            if k in self.nests:
                self.nest(s, k)
        elif l == 'e':
            l = 'c'
        elif l[0] == 'q':
            l = 'Q' + l[1] if k == '\\' else 'c' if k == l[1] else l
        elif l[0] == 'Q':
            l = 'q' + l[1]
        elif l == 'o':
            l = {'*': 'o*'}.get(k, 'k')
        elif l in ('o*', 'K') and k == '/':
            l = 'c'
        elif l == 'o*':
            l = 'K' if k == '*' else 'k'
        else:
            l = 'K' if k == '*' else 'k'
        g['~lex'] = l


def token_type(I, ty, depth=0, seen=None):
    """element type of the first Vec inside a type"""
    seen = seen if seen is not None else set()
    if ty in seen or depth > 8:
        return None
    seen.add(ty)
    d = I.T[ty]
    if d['k'] == 'adt':
        if d['name'] == 'std::vec::Vec':
            return d['args'][0]
        for v in d['variants']:
            for _, t in v['f']:
                r = token_type(I, t, depth + 1, seen)
                if r is not None:
                    return r
    return None


def analyse(p, root, h, extra=(), limit=700, grace=None):
    """-> (I, [(state, returned Ok?)], abort reason)"""
    I = R.make(p, [h, *extra])
    I.deadline = time.time() + limit
    I.grace = grace
    st = State()
    fn = p.fns[p.roots[root]]
    fn.prep()
    args = [I.top(st, fn.locals[i + 1]) for i in range(fn.nargs)]
    src = [a for a in args if isinstance(a, StrV)]
    ety = token_type(I, fn.locals[0])
    if len(src) != 1 or ety is None:
        return I, [], 'no source text or token sequence found'
    h.start(I, st, src[0], ety)
    I.cur = (fn, fn.line)
    out, ab = [], None
    try:
        for s, r in I.run_fn(st, fn, args):
            out += order.result_is(I, s, r)
    except Abort as e:
        ab = str(e)
    I.deadline = None
    return I, out, ab or ('time limit' if I.truncated else None)
