"""Canonical form, join, widening and inclusion of abstract states."""
from dom import *

OFF = 4
MAXLEN = (1 << 31) - 1
THRESH = (-4, -3, -2, -1, 0, 1, 2, 3, 4)


class Canon:
    """Walks everything a state can still reach: a shape (hashable) plus leaves."""

    anon = False           # cells are known by how they are reached, whatever they are

    def __init__(self, interp, st):
        self.i = interp
        self.T = interp.T
        self.st = st
        self.leaves = []       # values: int | Lin (n)  /  int | sym id (d)
        self.sorts = []
        self.cellnum = {}
        self.cellq = []
        self.texts = []
        self.tnum = {}
        self.key = None
        self.enumd = set()     # indices of leaves that are enum discriminants or booleans

    # -- leaves
    def leaf_n(self, v):
        self.leaves.append(v)
        self.sorts.append('n')
        return 'n'

    def leaf_e(self, v):
        self.enumd.add(len(self.leaves))
        return self.leaf_d(v)

    def leaf_d(self, v):
        """v: symbol id"""
        self.leaves.append(v)
        self.sorts.append('d')
        return 'd'

    def num(self, v, ty=None):
        if isinstance(v, Lin):
            s = v.single()
            if s is not None and s in self.st.rng:
                return self.leaf_d(s)
            return self.leaf_n(self.simple(v) if s is None else v)
        if ty is not None:
            d = self.T[ty]
            if d['k'] == 'char':
                return self.leaf_d(self.const_sym(v))
            if d['k'] == 'int' and d['bits'] <= 8:
                return ('k', v)
        return self.leaf_n(v)

    def simple(self, v):
        """v with symbols replaced that are constants or at an exact distance from another symbol of v"""
        st = self.st
        if st.sums:
            w = st.red(v)
            if w is not v:
                return self.num_simple(w)
        ts = [(x, k) for x, k in v.t if x not in st.rng]
        if len(v.t) < 2 or len(v.t) > 5 or not ts:
            return v
        for x, k in ts:
            dx = st.dist(x)
            u = dx.get(ZERO)
            if u is not None and st.dist(ZERO).get(x) == -u:
                return self.num_simple(lsub(v, lmul(lsub(sym(x), u), k)))
            for y, k2 in ts:
                if y != x and k2 == -k:
                    u = dx.get(y)
                    if u is not None and st.dist(y).get(x) == -u:
                        return self.num_simple(lsub(v, lmul(lsub(lsub(sym(x), sym(y)), u), k)))
        return v

    def num_simple(self, v):
        return self.simple(v) if isinstance(v, Lin) and v.single() is None else v

    def const_sym(self, v):
        s = fresh_id()
        self.st.rng[s] = ((v, v),)
        return s

    def cond(self, c):
        t = self.st.test(c)
        if t is not None:
            return ('k', t)
        if c.k == 'in' and self.st.rng.get(c.a) == BOOL and c.b == ((1, 1),):
            self.leaf_e(c.a)
            return 'b'
        s = fresh_id()
        self.st.rng[s] = BOOL
        r = self.st.rng.get(c.a) if c.k == 'in' else None
        if r is not None:           # what the truth value says about the symbol it was computed from
            self.st.add_dep(s, c.a, {1: r_and(r, c.b), 0: r_sub(r, c.b)})
        self.leaf_e(s)
        return 'b'

    def text(self, tid):
        n = self.tnum.get(tid)
        if n is None:
            n = self.tnum[tid] = len(self.texts)
            self.texts.append(tid)
        return n

    def cell(self, c):
        n = self.cellnum.get(c)
        if n is None:
            n = self.cellnum[c] = len(self.cellq)
            self.cellq.append(c)
        return n

    def path(self, p):
        return tuple(x if isinstance(x, int) or x[0] == 'd' else ('e', self.num(x[1])) for x in p)

    # -- values
    def v(self, x, ty=None, inv=False):
        if x is None:
            return None
        if isinstance(x, bool):
            return ('k', x)
        if isinstance(x, (int, Lin)):
            return self.num(x, ty)
        if isinstance(x, Cond):
            return self.cond(x)
        if isinstance(x, Adt):
            d = self.T[x.ty] if x.ty is not None else None
            if d is not None and d['k'] == 'adt' and d['kind'] == 'enum':
                if len(d['variants']) > 2 and (inv or self.i.fieldless(x.ty)):
                    s = self.const_sym(x.v)
                    self.leaf_e(s)
                    return ('etop', x.ty, self.inner(x.ty, {x.v: x.f}, ((x.v, x.v),)) if inv else ())
                fts = [f[1] for f in d['variants'][x.v]['f']]
            elif d is not None:
                fts = self.ftys(d, len(x.f))
            else:
                fts = [None] * len(x.f)
            if len(fts) != len(x.f):
                fts = [None] * len(x.f)
            return ('adt', x.ty, x.v, tuple(self.v(f, t, inv) for f, t in zip(x.f, fts)))
        if isinstance(x, ETop):
            r = self.st.rng[x.vs]
            if not inv and r_size(r) == 1 and not (self.i.fieldless(x.ty) and len(self.T[x.ty]['variants']) > 2):
                k = r[0][0]
                ex = self.st.exp.get(x.vs, {}).get(k)
                fts = self.T[x.ty]['variants'][k]['f']
                if ex is not None:
                    ex = self.i.payload(self.st, x, k)
                if ex is not None or not fts:
                    return ('adt', x.ty, k, tuple(self.v(f, t[1], inv) for f, t in zip(ex or (), fts)))
            self.leaf_e(x.vs)
            return ('etop', x.ty, self.inner(x.ty, self.st.exp.get(x.vs) or {}, r) if inv else ())
        if isinstance(x, Ref):
            return ('ref', self.cell(x.cell), self.path(x.path))
        if isinstance(x, RefC):
            return ('refc', self.v(x.val, None, inv))
        if isinstance(x, StrV):
            if isinstance(x.base, str):
                if not isinstance(x.lo, Lin) and not isinstance(x.hi, Lin):
                    return ('ks', x.base.encode()[x.lo:x.hi].decode())
                return ('strc', x.base, self.num(x.lo), self.num(x.hi))
            return ('str', self.text(x.base), self.num(x.lo), self.num(x.hi))
        if isinstance(x, SliceV):
            return ('slice', self.v(x.ref), self.num(x.lo), self.num(x.hi))
        if isinstance(x, VecV):
            ln = self.num(x.len)
            memo = ()
            # the last element, and elements an analysis asked to remember (ghost '~keep': their indices)
            keep = self.st.ghost.get('~keep', ())
            ent = []
            for j, e in x.memo:
                tag = (ladd(lsub(x.len, j), -1) == 0,) + tuple(self.st.eq0(lsub(j, q)) is True for q in keep)
                if any(tag):
                    ent.append((tag, j, e))
            ent.sort(key=lambda z: z[0], reverse=True)
            memo = tuple(('j', tag, self.num(j), self.v(e, x.ety, True)) for tag, j, e in ent)
            return ('vec', x.ety, ln, memo, self.g(x.ghost))
        if isinstance(x, StringV):
            if all(isinstance(p, str) for p in x.pieces):
                return ('k2', x.pieces)
            return ('string', self.num(x.len))
        if isinstance(x, It):
            if x.kind in ('ci', 'chars') and len(x.f) == 2 and isinstance(x.f[0], StrV):
                # an exhausted iterator is told apart from one that may have more
                if self.st.eq0(lsub(x.f[0].hi, x.f[1])) is True:
                    return ('it', x.kind, x.ty, (self.v(x.f[0]), self.num(x.f[0].hi)), 'end')
            return ('it', x.kind, x.ty, tuple(self.g(f) for f in x.f))
        if isinstance(x, FnV):
            return ('fn', x.key)
        if isinstance(x, Top):
            return ('top', x.ty)
        if isinstance(x, FmtArg):
            return ('fmtarg', x.trait, self.v(x.val), x.key)
        if isinstance(x, FmtArgs):
            return ('fmtargs', tuple(p if isinstance(p, str) else (p[0], self.v(p[1]), p[2]) for p in x.pieces))
        if isinstance(x, tuple) and x and x[0] == 'dc':
            return self.v(x[1])
        if isinstance(x, tuple) and x and x[0] == 'ce':
            return ('top', None)
        return self.g(x)

    def inner(self, ty, ex, r):
        """leaves for the payloads of an element that are field-less enums; one more value stands for a payload the
        element does not have"""
        out = []
        for k, fts in self.i.inner_enums(ty):
            fs = ex.get(k)
            for n, t in enumerate(fts):
                x = fs[n] if fs else None
                N = len(self.T[t]['variants'])
                if not r_in(k, r):
                    self.leaf_e(self.const_sym(N))
                elif isinstance(x, ETop):
                    self.leaf_e(x.vs)
                elif isinstance(x, Adt):
                    self.leaf_e(self.const_sym(x.v))
                else:
                    s = fresh_id()
                    self.st.rng[s] = ((0, N),)
                    self.leaf_e(s)
            out.append((k, fts))
        return tuple(out)

    def ftys(self, d, n):
        k = d['k']
        if k == 'tuple':
            return d['e']
        if k == 'adt':
            return [f[1] for f in d['variants'][0]['f']] if d['variants'] else []
        if k == 'array' or k == 'slice':
            return [d['e']] * n
        if k == 'closure':
            up = d.get('up')
            if isinstance(up, int):
                up = self.T[up].get('e')
            return up or [None] * n
        return [None] * n

    def g(self, x):
        """ghost values"""
        if x is None or isinstance(x, (bool, str, frozenset)):
            return ('k', x)
        if isinstance(x, tuple):
            return ('t', tuple(self.g(y) for y in x))
        return self.v(x)

    def run(self):
        st = self.st
        loc = []
        for fp in st.frames:
            d = fp.depth
            tys = fp.fn.locals
            for l in sorted(fp.live):
                c = (d, l)
                if c in st.cells:
                    self.cell(c)
                    t = tys[l]
                    x = st.cells[c]
                    loc.append((c, self.v(x, t), self.eclass(fp.fn, x)))
        gh = []
        for n in sorted(st.ghost, key=str):
            gh.append((n, self.g(st.ghost[n])))
        done = {x[0] for x in loc}
        heap = []
        i = 0
        while i < len(self.cellq):
            c = self.cellq[i]
            i += 1
            if c in done:
                heap.append((c, None))
                continue
            v = st.cells.get(c, Top(None))
            heap.append((c if c[0] != 'h' and not self.anon else 'h', self.v(v)))
        for t in self.texts:
            self.leaf_n(st.text[t].len)
        self.key = (tuple(loc), tuple(heap), tuple(gh), st.taint, tuple(st.text[t].tag for t in self.texts))
        return self.key

    def eclass(self, fn, x):
        """trace partition of a field-less enum local: the variant, when the function mentions it"""
        if isinstance(x, Adt):
            t = x.ty
            if t is None or not self.i.fieldless(t) or len(self.T[t]['variants']) <= 2:
                return None
            v = x.v
        elif isinstance(x, ETop) and self.i.fieldless(x.ty):
            t = x.ty
            r = self.st.rng[x.vs]
            m = self.i.mentioned(fn, t)
            if r_size(r) == 1:
                v = r[0][0]
            else:
                return 'rest' if not any(r_in(k, r) for k in m) else None
        else:
            return None
        return v if v in self.i.mentioned(fn, t) else 'rest'

    # -- facts about texts in terms of leaves
    def index(self):
        """numeric leaves by symbol: sym -> [(leaf index, const)]"""
        ix = getattr(self, '_ix', None)
        if ix is None:
            ix = {ZERO: []}
            for i, (s, v) in enumerate(zip(self.sorts, self.leaves)):
                if s == 'n':
                    if not isinstance(v, Lin):
                        ix[ZERO].append((i, v))
                    else:
                        ix.setdefault(v.t[0][0] if len(v.t) == 1 and v.t[0][1] == 1 else v.t, []).append((i, v.c))
            self._ix = ix
            self._rel = {}
        return ix

    def rel(self, L):
        """all (leaf index, offset) with L == leaf + offset"""
        ix = self.index()
        r = self._rel.get(L)
        if r is not None:
            return r
        out = []
        st = self.st
        if not isinstance(L, Lin):
            out.append((-1, L))
            x, c0 = ZERO, L
        else:
            c0 = L.c
            x = L.t[0][0] if len(L.t) == 1 and L.t[0][1] == 1 else L.t
        for i, cv in ix.get(x, ()):
            d = c0 - cv
            if -OFF <= d <= OFF:
                out.append((i, d))
        if not isinstance(x, tuple) and x not in st.rng:
            dx = st.dist(x)
            for y, u in dx.items():
                if y != x and y in ix and st.dist(y).get(x) == -u:
                    for i, cv in ix[y]:
                        d = u + c0 - cv
                        if -OFF <= d <= OFF:
                            out.append((i, d))
        self._rel[L] = out
        return out

    def facts(self):
        f = getattr(self, '_facts', None)
        if f is not None:
            return f
        st = self.st
        dl = {}
        for i, (s, v) in enumerate(zip(self.sorts, self.leaves)):
            if s == 'd':
                dl.setdefault(v, i)
        chars, bounds, ends = {}, set(), {}
        for tn, t in enumerate(self.texts):
            T = st.text[t]
            for pos, ch, nxt in T.chars:
                if isinstance(ch, Lin):
                    s = ch.single()
                    r = st.rng.get(s, CHAR)
                    link = dl.get(s)
                else:
                    s = self.const_sym(ch)
                    r, link = ((ch, ch),), None
                nk = self.rel(nxt) if nxt is not None else []
                for k in nk:
                    if -2 <= k[1] <= 2:
                        ends[(tn,) + k] = (r, link, s)
                for k in (self.rel(pos) if pos is not None else ()):
                    if k[0] >= 0 and not -2 <= k[1] <= 2:
                        continue
                    e = chars.get((tn,) + k)
                    if e is not None:       # two facts about one character
                        chars[(tn,) + k] = (r_and(r, e[0]) or r, link if link is not None else e[1], e[2] | frozenset(nk),
                                            s if link is not None or e[1] is None else e[3])
                        continue
                    chars[(tn,) + k] = (r, link, frozenset(nk), s)
            for b in T.bounds:
                for k in self.rel(b):
                    bounds.add((tn,) + k)
            imp = [0, T.len]
            for pos, ch, nxt in T.chars:
                if pos is not None:
                    imp.append(pos)
                if nxt is not None:
                    imp.append(nxt)
            for b in imp:
                for k in self.rel(b):
                    if k[0] >= 0 and k[1] == 0:
                        bounds.add((tn,) + k)
        self._facts = (chars, bounds, ends)
        return self._facts

    def ub(self):
        """upper bounds matrix ub[i][j] >= leaf_i - leaf_j over numeric leaves and 0 (last index)"""
        m = getattr(self, '_ub', None)
        if m is not None:
            return m
        st = self.st
        idx = [i for i, s in enumerate(self.sorts) if s == 'n']
        vals = [self.leaves[i] for i in idx] + [0]
        n = len(vals)
        simple = []
        for v in vals:
            if not isinstance(v, Lin):
                simple.append((ZERO, v))
            elif len(v.t) == 1 and v.t[0][1] == 1 and v.t[0][0] not in st.rng:
                simple.append((v.t[0][0], v.c))
            else:
                simple.append(None)
        m = [[0] * n for _ in range(n)]
        for i in range(n):
            si = simple[i]
            if si is not None:
                di = st.dist(si[0])
            for j in range(n):
                if i == j:
                    continue
                sj = simple[j]
                if si is not None and sj is not None:
                    if si[0] == sj[0]:
                        m[i][j] = si[1] - sj[1]
                    else:
                        m[i][j] = di.get(sj[0], INF) + si[1] - sj[1]
                else:
                    m[i][j] = st.upper(lsub(vals[i], vals[j]))
        self._ub = m
        self._idx = idx
        return m

    def sums(self, signed):
        """upper and lower bounds of leaf_i + leaf_j for i in signed"""
        st = self.st
        vals = [self.leaves[i] for i in self._idx]
        r = {}
        for a in signed:
            for b in range(len(vals)):
                if b == a:
                    continue
                L = ladd(vals[a], vals[b])
                r[(a, b)] = (st.upper(L), st.lower(L))
        return r

    def rebuild_single(self):
        return join(self.i, [self], 0)


def Canon_of(interp, st, fn, bb, d):
    from interp import FramePos
    fr = st.frames
    st.frames = fr + (FramePos(d, fn, bb, fn.live[bb], None),)
    try:
        c = Canon(interp, st)
        c.run()
    finally:
        st.frames = fr
    return c


class Rebuild:
    def __init__(self, canon, st, leafvals):
        self.c = canon
        self.st = st
        self.l = leafvals
        self.p = 0
        self.cells = []
        self.texts = []

    def nx(self):
        v = self.l[self.p]
        self.p += 1
        return v

    def leaf(self, s):
        """s: 'n', 'd' or ('k', v)"""
        if s == 'n':
            return self.nx()
        if s == 'd':
            return sym(self.nx())
        return s[1]

    def path(self, p):
        return tuple(x if isinstance(x, int) or x[0] == 'd' else ('e', self.leaf(x[1])) for x in p)

    def v(self, s):
        if s is None:
            return None
        if s == 'n' or s == 'd':
            return self.leaf(s)
        if s == 'b':
            return Cond('in', self.nx(), ((1, 1),))
        k = s[0]
        if k == 'k':
            return s[1]
        if k == 'ks':
            return StrV(s[1], 0, len(s[1].encode()))
        if k == 'adt':
            return Adt(s[1], s[2], tuple(self.v(x) for x in s[3]))
        if k == 'etop':
            e = ETop(s[1], self.nx())
            if s[2]:
                self.st.exp[e.vs] = {n: tuple(ETop(t, self.nx()) for t in fts) for n, fts in s[2]}
            return e
        if k == 'ref':
            return Ref(self.cells[s[1]], self.path(s[2]))
        if k == 'refc':
            return RefC(self.v(s[1]))
        if k == 'strc':
            lo = self.leaf(s[2])
            return StrV(s[1], lo, self.leaf(s[3]))
        if k == 'str':
            lo = self.leaf(s[2])
            return StrV(self.texts[s[1]], lo, self.leaf(s[3]))
        if k == 'slice':
            r = self.v(s[1])
            lo = self.leaf(s[2])
            return SliceV(r, lo, self.leaf(s[3]))
        if k == 'vec':
            ln = self.leaf(s[2])
            memo = ()
            for e in s[3]:
                j = self.leaf(e[2])
                memo = memo + ((j, self.v(e[3])),)
            return VecV(s[1], ln, memo, self.g(s[4]))
        if k == 'k2':
            return StringV(s[1], sum(len(p.encode()) for p in s[1]))
        if k == 'string':
            return StringV((('top', fresh_id()),), self.leaf(s[1]))
        if k == 'it':
            return It(s[1], s[2], tuple(self.g(x) for x in s[3]))
        if k == 'fn':
            return FnV(s[1])
        if k == 'top':
            return Top(s[1])
        if k == 'fmtarg':
            return FmtArg(s[1], self.v(s[2]), s[3])
        if k == 'fmtargs':
            return FmtArgs(tuple(p if isinstance(p, str) else (p[0], self.v(p[1]), p[2]) for p in s[1]))
        return self.g(s)

    def g(self, s):
        if isinstance(s, tuple) and s[0] == 'k':
            return s[1]
        if isinstance(s, tuple) and s[0] == 't':
            return tuple(self.g(x) for x in s[1])
        return self.v(s)


def join(interp, cs, cnt):
    """upper bound of states of the same shape (cs[0] is widened against the others when cnt > 2)"""
    cA = cs[0]
    rest = cs[1:]
    st = State()
    ms = [c.ub() for c in cs]
    mA = ms[0]
    idx = cA._idx
    n = len(idx)
    leafvals = [None] * len(cA.leaves)
    # discrete leaves
    pairs = {}
    enums = []
    for i, s in enumerate(cA.sorts):
        if s == 'd':
            k = tuple([c.leaves[i] for c in cs])
            x = pairs.get(k)
            if x is None:
                x = pairs[k] = fresh_id()
                if i in cA.enumd:
                    enums.append(k)
                st.rng[x] = union_rng(cs, k)
            leafvals[i] = x
    # classes of numeric leaves
    reps = []          # matrix indices of representatives
    val = [None] * (n + 1)
    val[n] = 0
    for i in range(n):
        found = False
        for r in [n] + reps:
            c = mA[i][r]
            if c != -mA[r][i]:
                continue
            if all([m[i][r] == c and m[r][i] == -c for m in ms]):
                val[i] = ladd(val[r], c)
                found = True
                break
        if not found:
            reps.append(i)
            val[i] = sym(fresh_id())
            st.E[val[i].single()] = {}
    for q, i in enumerate(idx):
        leafvals[i] = val[q]
    nodes = reps + [n]
    B = {}
    if cnt >= 8:
        allowed = explicit_pairs(cA)
    for a in nodes:
        rows = [m[a] for m in ms]
        ra = rows[0]
        for b in nodes:
            if a == b:
                continue
            y = max([r[b] for r in rows])
            if y > ra[b] and cnt >= 3:
                y = widen(y, cnt)
            if y < INF:
                B[(a, b)] = y
    # transitive reduction
    keep = []
    for (a, b), c in B.items():
        red = False
        for k in nodes:
            if k != a and k != b:
                p = B.get((a, k))
                if p is not None:
                    q = B.get((k, b))
                    if q is not None and p + q <= c:
                        red = True
                        break
        if not red:
            keep.append((a, b, c))
    if cnt >= 8:
        keep = [(a, b, c) for a, b, c in keep if (cA._idx[a] if a < n else -1, cA._idx[b] if b < n else -1) in allowed
                or all(mA[a][b] >= m[a][b] for m in ms)]

    def s_of(a):
        return ZERO if a == n else val[a].single()
    for a, b, c in keep:
        st.edge(s_of(a), s_of(b), c)
    # octagon twins for possibly negative representatives
    signed = [r for r in reps if any(m[n][r] > 0 for m in ms)]
    if signed:
        sums = [c.sums(signed) for c in cs]
        for r in signed:
            tw = fresh_id()
            st.E[tw] = {}
            st.neg[s_of(r)] = tw
            st.neg[tw] = s_of(r)
        for r in signed:
            tw = st.neg[s_of(r)]
            # bounds of the symbol itself
            for (x, y) in ((r, n), (n, r)):
                c = B.get((x, y))
                if c is not None:
                    if x == r:
                        st.edge(ZERO, tw, c)
                    else:
                        st.edge(tw, ZERO, c)
            for b in reps:
                if b == r:
                    continue
                k = (r, b)
                u, l = sums[0][k]
                u2 = max([x[k][0] for x in sums])
                l2 = min([x[k][1] for x in sums])
                if u2 > u:
                    u = widen(u2, cnt) if cnt >= 3 else u2
                if l2 < l:
                    l = -widen(-l2, cnt) if cnt >= 3 else l2
                # symbols: leaf values of representatives are exactly their symbols
                if u < INF:
                    st.edge(s_of(b), tw, u)       # b + r <= u  ->  b - (-r) <= u
                if l > -INF:
                    st.edge(tw, s_of(b), -l)      # -r - b <= -l
    # sums of two leaves that equal a third one
    cand = []
    for cc in cs:
        for (x, y), (p, c) in cc.st.sums.items():
            w = [[q for q in reps if any([i == idx[q] for i, _ in cc.rel(sym(z))])] for z in (x, y, p)]
            cand += [(a, b, d) for a in w[0] for b in w[1] for d in w[2] if a != b and a != d and b != d]
    cand = list(dict.fromkeys(cand))
    if len(cs) > 1:
        const = [q for q in reps if all([m[q][n] == -m[n][q] for m in ms])]
        for b in const:
            for a in reps:
                if a == b:
                    continue
                for d in reps:
                    if d != a and d != b and all([m[d][a] == -m[a][d] for m in ms]):
                        cand.append((a, b, d))
    sums = {}
    for a, b, d in cand:
        k = None
        for c in cs:
            L = lsub(ladd(c.leaves[idx[a]], c.leaves[idx[b]]), c.leaves[idx[d]])
            if c.st.sums:
                L = c.st.red(L)
            if isinstance(L, Lin):
                u = c.st.upper(L)
                L = u if u < INF and c.st.lower(L) == u else None
            if L is None or k is not None and L != k:
                k = None
                break
            k = L
        if k is not None:
            x, y, p = val[a].single(), val[b].single(), val[d].single()
            if (x, y) not in sums and (y, x) not in sums:
                sums[x, y] = (p, k)
    st.sums = sums
    # texts
    fs = [c.facts() for c in cs]
    chA, boA, enA = fs[0]
    tids = []
    base = len(cA.leaves) - len(cA.texts)
    for k, ta in enumerate(cA.texts):
        tids.append(ta if all(c.texts[k] == ta for c in rest) else fresh_id())
    newtexts = []
    for k, t in enumerate(tids):
        newtexts.append([leafvals[base + k], [], [], cA.st.text[cA.texts[k]].tag])

    for k in range(len(cA.texts)):
        # no text is longer than the largest input
        L = leafvals[base + k]
        us = [c.st.upper(c.leaves[base + k]) for c in cs]
        if isinstance(L, Lin) and max(us) <= MAXLEN:
            st.edge(L.t[0][0], ZERO, (us[0] if us[0] == max(us) else MAXLEN) - L.c)

    def lv(i, o):
        return o if i == -1 else ladd(leafvals[i], o)

    def char_of(link, hid):
        if link is not None:
            return leafvals[link]
        x = pairs.get(hid)
        if x is None:
            x = pairs[hid] = fresh_id()
            st.rng[x] = union_rng(cs, hid)
        return x
    for k in chA:
        es = [f[0].get(k) for f in fs]
        if None in es:
            continue
        pos = lv(k[1], k[2])
        lst = newtexts[k[0]][1]
        if any([p is not None and p == pos for p, _, _ in lst]):
            continue
        link = es[0][1] if all([e[1] == es[0][1] for e in es]) else None
        nk = es[0][2]
        for e in es[1:]:
            nk = nk & e[2]
        nxt = None
        if nk:
            i, o = min(nk)
            nxt = lv(i, o)
        elif link is None:
            r = ()
            for e in es:
                r = r_or(r, e[0])
            if r == CHAR:
                newtexts[k[0]][2].append(pos)
                continue
        ch = char_of(link, tuple([e[3] for e in es]))
        if nxt is not None:
            st.width[ch] = lsub(nxt, pos)
        lst.append((pos, sym(ch), nxt))
    for k in enA:
        es = [f[2].get(k) for f in fs]
        if None in es:
            continue
        nxt = lv(k[1], k[2])
        lst = newtexts[k[0]][1]
        if any([q == nxt for _, _, q in lst]):
            continue
        link = es[0][1] if all([e[1] == es[0][1] for e in es]) else None
        lst.append((None, sym(char_of(link, tuple([e[2] for e in es]))), nxt))
    bo = boA
    for f in fs[1:]:
        bo = bo | f[1]
    bo = [k for k in bo if all([k in f[1] or beyond(c, k) for c, f in zip(cs, fs)])]
    for k in bo:
        pos = lv(k[1], k[2])
        T = newtexts[k[0]]
        if pos not in T[2] and pos != 0 and pos != T[0] and not any([pos == p or pos == q for p, _, q in T[1]]):
            T[2].append(pos)
    for k, t in enumerate(tids):
        ln, ch, bo, tag = newtexts[k]
        st.text[t] = Text(ln, tuple(ch), tuple(bo), tag)
    # relations between discrete symbols
    for ka in enums:
        a = pairs[ka]
        dom = st.rng[a]
        if r_size(dom) > 48 or r_size(dom) < 2:
            continue
        vals = [v for x, y in dom for v in range(x, y + 1)]
        for kb, b in pairs.items():
            if b == a:
                continue
            full = st.rng[b]
            if r_size(full) == 1:
                continue
            m = {v: () for v in vals}
            seen = set()
            for c, xa, xb in zip(cs, ka, kb):
                if (id(c), xa, xb) in seen:
                    continue
                seen.add((id(c), xa, xb))
                cst = c.st
                dm = cst.dep.get(xa)
                dm = dm.get(xb) if dm else None
                ra, rb = cst.rng[xa], cst.rng[xb]
                for x, y in ra:
                    for v in range(x, y + 1):
                        r = ((v, v),) if xa == xb else r_and(dm.get(v, ()), rb) if dm is not None else rb
                        m[v] = r_or(m[v], r) if m[v] else r
            if any([r != full for r in m.values()]):
                st.add_dep(a, b, m)
    # values
    rb = Rebuild(cA, st, leafvals)
    rb.texts = tids
    loc, heap, gh, taint, _ = cA.key
    for c in cA.cellq:
        rb.cells.append(c if c[0] != 'h' and not cA.anon else ('h', fresh_id()))
    for c, s, _ in loc:
        st.cells[c] = rb.v(s)
    for n_, s in gh:
        st.ghost[n_] = rb.g(s)
    for q, (c, s) in enumerate(heap):
        if s is not None:
            st.cells[rb.cells[q]] = rb.v(s)
    st.taint = taint
    return st


def beyond(c, k):
    """the position is past the end of the text (a boundary there says nothing)"""
    if k[1] == -1:
        return False
    st = c.st
    p = ladd(c.leaves[k[1]], k[2])
    return st.ge0(ladd(lsub(p, st.text[c.texts[k[0]]].len), -1)) is True


def union_rng(cs, k):
    r = cs[0].st.rng[k[0]]
    for c, x in zip(cs[1:], k[1:]):
        q = c.st.rng[x]
        if q != r:
            r = r_or(r, q)
    return r


def widen(y, cnt):
    if cnt < 6:
        for t in THRESH:
            if y <= t:
                return t
    return INF


def explicit_pairs(c):
    """leaf index pairs (or -1) related by an explicit edge"""
    st = c.st
    m = {}
    for i, (s, v) in enumerate(zip(c.sorts, c.leaves)):
        if s == 'n' and isinstance(v, Lin) and len(v.t) == 1:
            m.setdefault(v.t[0][0], []).append(i)
    m[ZERO] = [-1]
    out = set()
    for x, d in st.E.items():
        for y in d:
            for a in m.get(x, ()):
                for b in m.get(y, ()):
                    out.add((a, b))
    return out


def subsumed(cA, cB):
    """every concrete state of cB is one of cA (cA canonical, same shape)"""
    stA, stB = cA.st, cB.st
    sm = {}
    try:
        for i, s in enumerate(cA.sorts):
            a, b = cA.leaves[i], cB.leaves[i]
            if s == 'd':
                if a in sm:
                    if sm[a] != b:
                        ra, rb = stB.rng[sm[a]], stB.rng[b]
                        if not (ra == rb and r_size(ra) == 1):
                            return False
                else:
                    sm[a] = b
                    rb, ra = stB.rng[b], stA.rng[a]
                    if r_and(rb, ra) != rb:
                        return False
            else:
                if not isinstance(a, Lin):
                    if a != b and stB.eq0(lsub(b, a)) is not True:
                        return False
                else:
                    x = a.t[0][0]
                    e = ladd(b, -a.c)
                    if x in sm:
                        d = lsub(sm[x], e)
                        if d != 0 and (not isinstance(d, Lin) or stB.eq0(d) is not True):
                            return False
                    else:
                        sm[x] = e
        for x, tw in stA.neg.items():
            if x in sm and tw not in sm:
                sm[tw] = lmul(sm[x], -1)
        for x, d in stA.E.items():
            if x != ZERO and x not in sm:
                continue
            ex = sm[x] if x != ZERO else 0
            for y, c in d.items():
                if y != ZERO and y not in sm:
                    continue
                ey = sm[y] if y != ZERO else 0
                if stB.upper(lsub(ex, ey)) > c:
                    return False
        for (x, y), (p, c) in stA.sums.items():
            if x in sm and y in sm and p in sm:
                d = ladd(lsub(ladd(sm[x], sm[y]), sm[p]), -c)
                if isinstance(d, Lin) and stB.eq0(d) is not True or not isinstance(d, Lin) and d != 0:
                    return False
    except Infeasible:
        return True
    chA, boA, enA = cA.facts()
    chB, boB, enB = cB.facts()
    hid = dict(sm)
    for k, (r, link, nk, hs) in chA.items():
        e = chB.get(k)
        if e is None:
            return False
        r2, link2, nk2, hs2 = e
        hid.setdefault(hs, hs2)
        if link is not None and link2 != link:
            return False
        if r_and(r, r2) != r2:
            return False
        if nk and not (nk & nk2):
            i, o = min(nk)
            if not nk2:
                return False
            j, q = min(nk2)
            e = lsub(ladd(cB.leaves[i], o) if i >= 0 else o, ladd(cB.leaves[j], q) if j >= 0 else q)
            if e != 0 and (not isinstance(e, Lin) or stB.eq0(e) is not True):
                return False
    for k, (r, link, hs) in enA.items():
        e = enB.get(k)
        if e is None:
            return False
        hid.setdefault(hs, e[2])
        if link is not None and e[1] != link or r_and(r, e[0]) != e[0]:
            return False
    for k in boA:
        if k not in boB and k not in chB and not beyond(cB, k):
            e = k[2] if k[1] == -1 else ladd(cB.leaves[k[1]], k[2])
            if not any([(k[0],) + q in boB for q in cB.rel(e)]):
                return False
    for a, d in stA.dep.items():
        xa = hid.get(a)
        if xa is None or isinstance(xa, Lin):
            continue
        rb = stB.rng[xa]
        if r_size(rb) > 48:
            return False
        for b, m in d.items():
            xb = hid.get(b)
            if xb is None:
                continue
            for x, y in rb:
                for v in range(x, y + 1):
                    r = stB.cond_rng(xa, xb, v)
                    if r and r_and(r, m.get(v, ())) != r:
                        return False
    return True
