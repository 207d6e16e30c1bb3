"""The monitor of a pass that drops tokens: what it takes from its input it appends unchanged to its output, or drops.

~in   length of the input (None: not there yet); ~i elements taken; ~end the input was taken to its end
~pend the element taken last, while it is neither appended nor dropped (None: there is none)
~k    number of elements appended
An element is dropped when the next one is taken, at the end of the input or at the return.
"""
import time
from dom import *
from interp import decide, Infeasible, Abort
import order, run as R
from tile import Tile, enum_syms, token_type
from models import char_in, cge, ceq


class Clean(Tile):
    def __init__(self, ety, semi='Char(SemiColon)'):
        super().__init__()
        self.ety = ety
        self.semi = semi
        self.taken = 0
        self.idle = {}         # semicolons dropped where nothing was kept before: site
        self.cut = {}          # label dropped with something kept before (or not known): (site, tainted)
        self.same = {}         # label appended: site

    # the text monitor of Tile isn't used
    def fresh_elem(self, *a):
        return None

    def at_head(self, I, s, fn, bb):
        pass

    def pre_char(self, *a):
        pass

    def on_char(self, *a):
        pass

    def on_char_end(self, *a):
        pass

    def on_parse(self, I, s, c, v):
        return v

    def flag(self, I, s, m, und=False, kind='text'):
        (self.und if s.taint or und else self.bad).setdefault((kind, m), I.where(s))
        raise Infeasible()

    def begin(self, s, vec):
        g = s.ghost
        g['~in'] = vec.len
        g['~i'] = g['~k'] = 0
        g['~pend'] = None
        g['~end'] = False

    def on(self, s):
        return s.ghost.get('~in') is not None

    # ------------------------------------------------------------------ the input
    def on_next(self, I, s, v, pos, x):
        if v.ety != self.ety or not self.on(s):
            return
        self.gone(I, s)
        g = s.ghost
        self.taken += 1
        if not self.eq(s, pos, g['~i']):
            self.flag(I, s, 'the tokens are not taken in order', und=True)
        g['~i'] = ladd(pos, 1)
        g['~pend'] = x

    def on_next_end(self, I, s, v):
        if v.ety == self.ety and self.on(s):
            self.gone(I, s)
            s.ghost['~end'] = self.eq(s, s.ghost['~i'], s.ghost['~in'])

    def gone(self, I, s):
        """the element taken last was dropped"""
        g = s.ghost
        e = g['~pend']
        g['~pend'] = None
        if e is not None:
            self.out(I, s, e, self.eq(s, g['~k'], 0))

    def out(self, I, s, e, first):
        for n in self.labels(I, s, e):
            if n == self.semi and first:
                self.idle.setdefault(n, I.where(s))
            else:
                o = self.cut.get(n)
                if o is None or o[1] and not s.taint:
                    self.cut[n] = (I.where(s), bool(s.taint))

    # ------------------------------------------------------------------ the output
    def equal(self, I, s, a, b):
        if isinstance(a, ETop):
            a = I.as_adt(s, a)
        if isinstance(b, ETop):
            b = I.as_adt(s, b)
        if isinstance(a, ETop) and isinstance(b, ETop):
            return a.vs == b.vs
        if isinstance(a, Adt) and isinstance(b, Adt):
            return a.ty == b.ty and a.v == b.v and len(a.f) == len(b.f) and all(self.equal(I, s, x, y) for x, y in zip(a.f, b.f))
        if isinstance(a, StrV) and isinstance(b, StrV):
            return a.base == b.base and self.eq(s, a.lo, b.lo) and self.eq(s, a.hi, b.hi)
        if is_num(a) and is_num(b):
            return a == b or self.eq(s, a, b)
        if isinstance(a, Cond) and isinstance(b, Cond):
            return repr(a) == repr(b)
        if isinstance(a, StringV) and isinstance(b, StringV):
            return a is b or a == b or repr(a) == repr(b)
        return a is b or type(a) is type(b) and a == b

    def on_push(self, I, s, v, x, gh):
        if v.ety != self.ety or not self.on(s):
            return gh
        g = s.ghost
        e = g['~pend']
        nm = '|'.join(sorted(self.labels(I, s, x))[:4])
        if e is None:
            self.flag(I, s, 'a token is appended that was not just taken from the input', und=not self.taken)
        if not self.eq(s, v.len, g['~k']):
            self.flag(I, s, 'the tokens are appended to a sequence of another length', und=True)
        if not self.equal(I, s, e, x):
            a, b = self.labels(I, s, e), self.labels(I, s, x)
            self.flag(I, s, '%s is appended for another token' % nm if not a & b else '%s is appended with another content' % nm)
        for n in self.labels(I, s, x):
            self.same.setdefault(n, I.where(s))
        g['~pend'] = None
        g['~k'] = ladd(g['~k'], 1)
        return gh

    def on_pop(self, I, s, v, x, gh):
        if v.ety == self.ety and self.on(s):
            if not self.eq(s, v.len, s.ghost['~k']):
                self.flag(I, s, 'tokens are taken from another end', und=True)
            s.ghost['~k'] = ladd(s.ghost['~k'], -1)
            self.out(I, s, x, False)
        return gh

    def on_elem_write(self, I, s, v, idx, old, new, gh):
        if isinstance(v, VecV) and v.ety == self.ety and self.on(s):
            if not self.equal(I, s, old, new):
                self.flag(I, s, 'a token is replaced')
        return gh

    def on_kept(self, I, s, vec, idx, keep):
        if vec is not None and vec.ety == self.ety and self.on(s):
            self.flag(I, s, 'tokens are filtered in place', und=True)

    def on_clear(self, I, s, v, gh):
        if v.ety == self.ety and self.on(s):
            self.flag(I, s, 'the tokens are cleared', und=True)
        return gh

    def on_havoc(self, I, s, v, gh):
        if v.ety == self.ety and self.on(s):
            self.flag(I, s, 'the token sequence is changed in a way that is not modelled', und=True)
        return gh

    def on_truncate(self, I, s, v, gh):
        if v.ety == self.ety and self.on(s):
            self.flag(I, s, 'tokens are cut off')
        return gh

    def on_insert(self, I, s, v, i, x, gh):
        if v.ety == self.ety and self.on(s):
            self.flag(I, s, 'a token is inserted', und=True)
        return gh

    def on_remove(self, I, s, v, i, x, gh):
        if v.ety == self.ety and self.on(s):
            self.flag(I, s, 'a token is removed', und=True)
        return gh

    # ------------------------------------------------------------------ the return
    def done(self, I, s, v):
        """the value is returned"""
        g = s.ghost
        if not self.on(s):
            return 'nothing is cleaned'
        try:
            self.gone(I, s)
        except Infeasible:
            pass
        if not g['~end'] and not self.eq(s, g['~i'], g['~in']):
            return 'not all of the tokens are looked at'
        vec = order.find_vec(I, s, v)
        if vec is None or not self.eq(s, vec.len, g['~k']):
            return 'the tokens kept are not what is returned'
        return None


def is_tokenizer(name):
    return name in ('minifier::js::tokenize', 'minifier::js::token::tokenize')


def analyse(p, root, limit=300):
    """-> (I, hook, [(state, value)], abort reason, tokenizer calls)"""
    h = Clean(None)
    calls = []

    def tok(I, s, c):
        calls.append(I.where(s))
        v = I.top(s, c.destty)
        n = I.T[c.destty]['variants']
        ok = next(k for k, x in enumerate(n) if x['n'] == 'Ok')
        if not (isinstance(c.args[0], StrV) and c.args[0].base == src[0].base and c.args[0].lo == 0
                and h.eq(s, c.args[0].hi, src[0].hi)):
            h.und.setdefault(('text', 'another text is tokenized'), I.where(s))
        o = s.copy()
        o.set_rng(v.vs, ((ok, ok),))
        r = I.as_adt(o, v)
        w = order.find_vec(I, o, r)
        h.begin(o, w)
        bad = s.copy()
        bad.set_rng(v.vs, r_sub(s.rng[v.vs], ((ok, ok),)))
        return [(o, r), (bad, v)]
    fn = p.fns[p.roots[root]]
    fn.prep()
    I = R.make(p, [h], intercept={'minifier::js::tokenize': tok, 'minifier::js::token::tokenize': tok})
    I.deadline = time.time() + limit
    st = State()
    args = [I.top(st, fn.locals[i + 1]) for i in range(fn.nargs)]
    src = [a for a in args if isinstance(a, StrV)]
    h.ety = token_type(I, fn.locals[0])
    if not src:
        w = order.find_vec(I, st, args[0]) if args else None
        if w is not None:
            h.begin(st, w)
    I.cur = (fn, fn.line)
    out, ab = [], None
    try:
        out = list(I.run_fn(st, fn, args))
    except Abort as e:
        ab = str(e)
    I.deadline = None
    return I, h, out, ab, calls
