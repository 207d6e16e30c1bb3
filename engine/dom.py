"""Abstract domain: linear expressions over symbols, a zone (difference bound)
graph for numeric symbols, value sets for discrete symbols (chars, bytes, enum
variants, booleans), and structured values."""
import itertools

_ctr = itertools.count(1)
ZERO = 0
INF = float('inf')


def fresh_id():
    return next(_ctr)


# ---------------------------------------------------------------- range sets
def rs(*pairs):
    return norm([(a, b) for a, b in pairs])


def norm(l):
    l = sorted(x for x in l if x[0] <= x[1])
    out = []
    for a, b in l:
        if out and a <= out[-1][1] + 1:
            if b > out[-1][1]:
                out[-1] = (out[-1][0], b)
        else:
            out.append((a, b))
    return tuple(out)


def r_of(vals):
    return norm([(v, v) for v in vals])


def r_and(x, y):
    out = []
    i = j = 0
    while i < len(x) and j < len(y):
        a = max(x[i][0], y[j][0])
        b = min(x[i][1], y[j][1])
        if a <= b:
            out.append((a, b))
        if x[i][1] < y[j][1]:
            i += 1
        else:
            j += 1
    return tuple(out)


def r_or(x, y):
    if x == y:
        return x
    return norm(list(x) + list(y))


def r_sub(x, y):
    out = []
    for a, b in x:
        cur = a
        for c, d in y:
            if d < cur:
                continue
            if c > b:
                break
            if c > cur:
                out.append((cur, c - 1))
            cur = d + 1
            if cur > b:
                break
        if cur <= b:
            out.append((cur, b))
    return tuple(out)


def r_in(v, x):
    for a, b in x:
        if a <= v <= b:
            return True
    return False


def r_shift(x, k):
    return tuple((a + k, b + k) for a, b in x)


def r_size(x):
    return sum(b - a + 1 for a, b in x)


CHAR = ((0, 0xD7FF), (0xE000, 0x10FFFF))
U8 = ((0, 255),)
BOOL = ((0, 1),)


# ------------------------------------------------------------ linear terms
class Lin:
    """c + sum k*sym; never a constant (constants are python ints)."""
    __slots__ = ('c', 't', '_h')

    def __init__(self, c, t):
        self.c = c
        self.t = t
        self._h = None

    def __eq__(self, o):
        return isinstance(o, Lin) and self.c == o.c and self.t == o.t

    def __hash__(self):
        if self._h is None:
            self._h = hash((self.c, self.t))
        return self._h

    def __repr__(self):
        s = '+'.join(('' if k == 1 else '-' if k == -1 else str(k) + '*') + 's%d' % x for x, k in self.t)
        if self.c:
            s += '%+d' % self.c
        return s

    def single(self):
        """the symbol if this is exactly one symbol + 0"""
        if self.c == 0 and len(self.t) == 1 and self.t[0][1] == 1:
            return self.t[0][0]
        return None


def sym(s):
    return Lin(0, ((s, 1),))


def mk(c, d):
    t = tuple(sorted((s, k) for s, k in d.items() if k))
    return Lin(c, t) if t else c


def parts(x):
    if isinstance(x, Lin):
        return x.c, x.t
    return x, ()


def ladd(a, b, m=1):
    if not isinstance(b, Lin):
        if not isinstance(a, Lin):
            return a + m * b
        return Lin(a.c + m * b, a.t) if b else a
    if not isinstance(a, Lin) and m == 1:
        return Lin(b.c + a, b.t) if a else b
    ca, ta = parts(a)
    d = dict(ta)
    for s, k in b.t:
        d[s] = d.get(s, 0) + m * k
    return mk(ca + m * b.c, d)


def lsub(a, b):
    return ladd(a, b, -1)


def lmul(a, k):
    if not isinstance(a, Lin):
        return a * k
    if k == 0:
        return 0
    return Lin(a.c * k, tuple((s, x * k) for s, x in a.t))


def is_num(x):
    return isinstance(x, (int, Lin)) and not isinstance(x, bool)


# ----------------------------------------------------------------- values
class Val:
    __slots__ = ()


class Adt(Val):
    """Struct, tuple, closure, array or enum value with a known variant."""
    __slots__ = ('ty', 'v', 'f')

    def __init__(self, ty, v, f):
        self.ty = ty
        self.v = v
        self.f = f

    def __repr__(self):
        return 'Adt<%s>#%s%r' % (self.ty, self.v, tuple(self.f))


class ETop(Val):
    """Enum value whose variant is the discrete symbol `vs`."""
    __slots__ = ('ty', 'vs')

    def __init__(self, ty, vs):
        self.ty = ty
        self.vs = vs

    def __repr__(self):
        return 'ETop<%s>s%d' % (self.ty, self.vs)


class Ref(Val):
    __slots__ = ('cell', 'path')

    def __init__(self, cell, path=()):
        self.cell = cell
        self.path = path

    def __repr__(self):
        return '&%r%r' % (self.cell, self.path)

    def __eq__(self, o):
        return isinstance(o, Ref) and self.cell == o.cell and self.path == o.path

    def __hash__(self):
        return hash((self.cell, self.path))


class RefC(Val):
    """Reference to a constant value."""
    __slots__ = ('val',)

    def __init__(self, val):
        self.val = val

    def __repr__(self):
        return '&const %r' % (self.val,)


class StrV(Val):
    """&str: the bytes [lo,hi) of text `base` (a text id or a python str)."""
    __slots__ = ('base', 'lo', 'hi')

    def __init__(self, base, lo, hi):
        self.base = base
        self.lo = lo
        self.hi = hi

    def __repr__(self):
        return 'str(%r)[%r..%r]' % (self.base, self.lo, self.hi)


class SliceV(Val):
    """&[T]: elements [lo,hi) of the Vec/array at `ref`."""
    __slots__ = ('ref', 'lo', 'hi')

    def __init__(self, ref, lo, hi):
        self.ref = ref
        self.lo = lo
        self.hi = hi

    def __repr__(self):
        return 'slice(%r)[%r..%r]' % (self.ref, self.lo, self.hi)


class VecV(Val):
    """Vec<T>: length, the elements known so far, and an analysis ghost."""
    __slots__ = ('ety', 'len', 'memo', 'ghost')

    def __init__(self, ety, ln, memo=(), ghost=None):
        self.ety = ety
        self.len = ln
        self.memo = memo
        self.ghost = ghost

    def __repr__(self):
        return 'Vec(len=%r,%r,%r)' % (self.len, self.memo, self.ghost)


class StringV(Val):
    """String as a list of pieces (python str | StrV | ('disp', value))."""
    __slots__ = ('pieces', 'len')

    def __init__(self, pieces, ln):
        self.pieces = pieces
        self.len = ln

    def __repr__(self):
        return 'String%r' % (self.pieces,)


class It(Val):
    """Iterator value; kind-specific fields in a tuple of leaves/values."""
    __slots__ = ('kind', 'ty', 'f')

    def __init__(self, kind, ty, f):
        self.kind = kind
        self.ty = ty
        self.f = f

    def __repr__(self):
        return 'It:%s%r' % (self.kind, self.f)


class FnV(Val):
    __slots__ = ('key',)

    def __init__(self, key):
        self.key = key

    def __repr__(self):
        return 'fn'


class Top(Val):
    __slots__ = ('ty', 'id')

    def __init__(self, ty, i=None):
        self.ty = ty
        self.id = fresh_id() if i is None else i

    def __repr__(self):
        return 'Top<%s>' % self.ty


class FmtArgs(Val):
    """fmt::Arguments: list of pieces (str | (trait, value, spec))."""
    __slots__ = ('pieces',)

    def __init__(self, pieces):
        self.pieces = pieces


class FmtArg(Val):
    __slots__ = ('trait', 'val', 'key')

    def __init__(self, trait, val, key):
        self.trait = trait
        self.val = val
        self.key = key


class Cond:
    """Symbolic boolean: ('ge',Lin) | ('eq',Lin) | ('in',sym,rs) | ('and',a,b) | ('or',a,b) | ('not',a) |
    ('fact',key)"""
    __slots__ = ('k', 'a', 'b')

    def __init__(self, k, a, b=None):
        self.k = k
        self.a = a
        self.b = b

    def __repr__(self):
        return 'C(%s %r %r)' % (self.k, self.a, self.b)


def c_not(c):
    if isinstance(c, bool):
        return not c
    if c.k == 'not':
        return c.a
    return Cond('not', c)


def c_and(a, b):
    if a is True:
        return b
    if b is True:
        return a
    if a is False or b is False:
        return False
    return Cond('and', a, b)


def c_or(a, b):
    if a is False:
        return b
    if b is False:
        return a
    if a is True or b is True:
        return True
    return Cond('or', a, b)


class Split(Exception):
    """The statement must be re-run on each of these refined states."""

    def __init__(self, states):
        self.states = states


class Infeasible(Exception):
    pass


# ------------------------------------------------------------------ state
class State:
    __slots__ = ('cells', 'rng', 'E', 'neg', 'width', 'text', 'facts', 'exp', 'ghost', 'frames', 'taint',
                 'tags', 'heap', '_cache', 'dep', 'rdep', 'sums')

    def __init__(self):
        self.cells = {}
        self.rng = {}
        self.E = {ZERO: {}}
        self.neg = {}
        self.width = {}      # char symbol -> Lin width in bytes
        self.text = {}       # text id -> Text
        self.facts = {}      # fact key -> bool
        self.exp = {}        # enum symbol -> {variant: fields}
        self.ghost = {}
        self.frames = ()
        self.taint = frozenset()
        self.tags = ()
        self.heap = 0
        self._cache = None
        self.dep = {}        # sym a -> {sym b: {value of a: range of b}}
        self.rdep = {}       # sym b -> (sym a, ...)
        self.sums = {}       # (sym x, sym y) -> (sym p, c): x + y = p + c

    def copy(self):
        s = State.__new__(State)
        s.cells = dict(self.cells)
        s.rng = dict(self.rng)
        s.E = dict(self.E)
        s.neg = dict(self.neg)
        s.width = dict(self.width)
        s.text = dict(self.text)
        s.facts = dict(self.facts)
        s.exp = dict(self.exp)
        s.ghost = dict(self.ghost)
        s.frames = self.frames
        s.taint = self.taint
        s.tags = self.tags
        s.heap = self.heap
        s.dep = dict(self.dep)
        s.rdep = dict(self.rdep)
        s.sums = self.sums
        s._cache = None
        return s

    # -- symbols
    def num(self, lo=None, hi=None):
        s = fresh_id()
        self.E[s] = {}
        if lo is not None:
            self.edge(ZERO, s, -lo)
        if hi is not None:
            self.edge(s, ZERO, hi)
        return sym(s)

    def disc(self, r):
        s = fresh_id()
        self.rng[s] = r
        return sym(s)

    # -- zone
    def edge(self, x, y, c):
        """x - y <= c"""
        d = self.E.get(x)
        if d is None:
            d = {}
        o = d.get(y)
        if o is None or c < o:
            d = dict(d)
            d[y] = c
            self.E[x] = d
            self._cache = None

    def dist(self, x):
        """shortest paths from x: y -> tightest c with x - y <= c"""
        if self._cache is None:
            self._cache = {}
        r = self._cache.get(x)
        if r is not None:
            return r
        E = self.E
        dist = {x: 0}
        queue = [x]
        inq = {x}
        n = 0
        while queue:
            u = queue.pop(0)
            inq.discard(u)
            du = dist[u]
            n += 1
            if n > 4000:
                break
            for v, c in E.get(u, {}).items():
                nd = du + c
                o = dist.get(v)
                if o is None or nd < o:
                    if v == x and nd < 0:
                        raise Infeasible()
                    dist[v] = nd
                    if v not in inq:
                        inq.add(v)
                        queue.append(v)
        self._cache[x] = dist
        return dist

    def red(self, L):
        """L with the sums of two symbols that equal another one replaced"""
        while isinstance(L, Lin) and len(L.t) > 1:
            for (x, y), (p, c) in self.sums.items():
                dx, dy = self.dist(x), self.dist(y)
                r = None
                for k in (1, -1):
                    ts = [a for a, q in L.t if q == k and a not in self.rng]
                    for a in ts:
                        u = 0 if a == x else dx.get(a)
                        if u is None or a != x and self.dist(a).get(x) != -u:
                            continue
                        for b in ts:
                            if b == a:
                                continue
                            w = 0 if b == y else dy.get(b)
                            if w is None or b != y and self.dist(b).get(y) != -w:
                                continue
                            # a = x - u, b = y - w
                            r = ladd(L, lmul(lsub(ladd(sym(p), c - u - w), ladd(sym(a), sym(b))), k))
                            break
                        if r is not None:
                            break
                    if r is not None:
                        break
                if r is not None:
                    L = r
                    break
            else:
                return L
        return L

    def upper(self, L):
        """an upper bound of L"""
        if self.sums:
            L = self.red(L)
        if not isinstance(L, Lin):
            return L
        c = L.c
        pos, neg = [], []
        for s, k in L.t:
            if s in self.rng:
                r = self.rng[s]
                if not r:
                    raise Infeasible()
                c += k * (r[-1][1] if k > 0 else r[0][0])
            elif k > 0:
                pos.extend([s] * min(k, 4))
                if k > 4:
                    return INF
            else:
                neg.extend([s] * min(-k, 4))
                if k < -4:
                    return INF
        if not pos and not neg:
            return c
        best = self._pair(pos, neg)
        if self.neg and (len(pos) != 1 or len(neg) != 1):
            for i, s in enumerate(pos):
                m = self.neg.get(s)
                if m is not None:
                    b = self._pair(pos[:i] + pos[i + 1:], neg + [m])
                    best = min(best, b)
            for i, s in enumerate(neg):
                m = self.neg.get(s)
                if m is not None:
                    b = self._pair(pos + [m], neg[:i] + neg[i + 1:])
                    best = min(best, b)
        return c + best

    def _pair(self, pos, neg):
        n = max(len(pos), len(neg))
        pos = pos + [ZERO] * (n - len(pos))
        neg = neg + [ZERO] * (n - len(neg))
        if n == 1:
            return self.dist(pos[0]).get(neg[0], INF)
        if n == 2:
            a, b = self.dist(pos[0]), self.dist(pos[1])
            return min(a.get(neg[0], INF) + b.get(neg[1], INF), a.get(neg[1], INF) + b.get(neg[0], INF))
        if n > 4:
            return INF
        best = INF
        ds = [self.dist(p) for p in pos]
        for perm in itertools.permutations(neg):
            t = 0
            for d, q in zip(ds, perm):
                t += d.get(q, INF)
                if t == INF:
                    break
            best = min(best, t)
        return best

    def lower(self, L):
        u = self.upper(lmul(L, -1))
        return -u

    def ge0(self, L):
        """True / False / None: is L >= 0"""
        if not isinstance(L, Lin):
            return L >= 0
        if self.upper(lmul(L, -1)) <= 0:
            return True
        if self.upper(L) < 0:
            return False
        return None

    def eq0(self, L):
        if not isinstance(L, Lin):
            return L == 0
        s = L.t
        if len(s) == 1 and s[0][0] in self.rng:
            k = s[0][1]
            r = self.rng[s[0][0]]
            if (-L.c) % k:
                return False
            v = -L.c // k
            if not r_in(v, r):
                return False
            if r_size(r) == 1:
                return True
            return None
        u, l = self.upper(L), self.lower(L)
        if u < 0 or l > 0:
            return False
        if u == 0 and l == 0:
            return True
        return None

    def assume_ge(self, L):
        """add L >= 0"""
        if self.sums:
            L = self.red(L)
        if not isinstance(L, Lin):
            if L < 0:
                raise Infeasible()
            return
        if self.upper(L) < 0:
            raise Infeasible()
        nums = [(s, k) for s, k in L.t if s not in self.rng]
        dis = [(s, k) for s, k in L.t if s in self.rng]
        c = L.c
        if dis and len(L.t) == 1:
            s, k = dis[0]
            r = self.rng[s]
            # k*s + c >= 0
            if k > 0:
                lo = -(c // k) if True else 0
                lo = -((c) // k)
                self.set_rng(s, r_and(r, ((lo, 10 ** 12),)))
            else:
                hi = c // (-k)
                self.set_rng(s, r_and(r, ((-10 ** 12, hi),)))
            return
        for s, k in dis:
            r = self.rng[s]
            c += k * (r[-1][1] if k > 0 else r[0][0])
        if len(nums) == 1:
            s, k = nums[0]
            if k > 0:
                # s >= -c/k  -> ZERO - s <= c/k
                self.edge(ZERO, s, c // k)
                if s in self.neg:
                    self.edge(self.neg[s], ZERO, c // k)
            else:
                self.edge(s, ZERO, c // (-k))
                if s in self.neg:
                    self.edge(ZERO, self.neg[s], c // (-k))
        elif len(nums) == 2:
            (a, ka), (b, kb) = nums
            if ka == 1 and kb == -1:
                self.edge(b, a, c)       # a - b + c >= 0
                self._octo(b, a, c)
            elif ka == -1 and kb == 1:
                self.edge(a, b, c)
                self._octo(a, b, c)
            elif ka == 1 and kb == 1:
                if a in self.neg:
                    self.edge(self.neg[a], b, c)
                if b in self.neg:
                    self.edge(self.neg[b], a, c)
            elif ka == -1 and kb == -1:
                if a in self.neg:
                    self.edge(b, self.neg[a], c)
                if b in self.neg:
                    self.edge(a, self.neg[b], c)
        elif len(nums) == 3:
            # keep what follows from bounding one of the symbols
            for i in range(3):
                s, k = nums[i]
                rest = Lin(0, tuple(x for j, x in enumerate(nums) if j != i))
                u = self.upper(Lin(0, ((s, k),)))
                if u != INF and u == u:
                    if sorted(k2 for _, k2 in rest.t) == [-1, 1]:
                        p = [x for x, k2 in rest.t if k2 == 1][0]
                        n = [x for x, k2 in rest.t if k2 == -1][0]
                        self.edge(n, p, c + u)

    def _octo(self, x, y, c):
        """x - y <= c also for negated twins"""
        nx, ny = self.neg.get(x), self.neg.get(y)
        if nx is not None and ny is not None:
            self.edge(ny, nx, c)

    def assume_eq(self, L):
        if not isinstance(L, Lin):
            if L != 0:
                raise Infeasible()
            return
        if len(L.t) == 1 and L.t[0][0] in self.rng:
            s, k = L.t[0]
            if (-L.c) % k:
                raise Infeasible()
            v = -L.c // k
            self.set_rng(s, r_and(self.rng[s], ((v, v),)))
            return
        if len(L.t) == 2 and all(s in self.rng for s, _ in L.t) and {k for _, k in L.t} == {1, -1}:
            (a, ka), (b, kb) = L.t
            # ka*(a - b) + c == 0  ->  a = b - ka*c
            off = -ka * L.c
            r = r_and(self.rng[a], r_shift(self.rng[b], off))
            self.set_rng(a, r)
            self.set_rng(b, r_shift(r, -off))
            if L.c == 0:
                self.facts[('eqs', min(a, b), max(a, b))] = True
            return
        self.assume_ge(L)
        self.assume_ge(lmul(L, -1))

    def set_rng(self, s, r):
        if not r:
            raise Infeasible()
        o = self.rng.get(s)
        if r == o:
            return
        self.rng[s] = r
        dp = self.dep.get(s)
        if dp:
            for b, m in dp.items():
                u = ()
                for v, rb in m.items():
                    if r_in(v, r):
                        u = r_or(u, rb)
                nb = r_and(self.rng[b], u)
                if nb != self.rng[b]:
                    self.set_rng(b, nb)
        for a in self.rdep.get(s, ()):
            ra = self.rng[a]
            m = self.dep[a][s]
            na = r_of([v for v, rb in m.items() if r_in(v, ra) and r_and(rb, r)])
            if na != ra:
                self.set_rng(a, na)
        r = self.rng[s]
        w = self.width.get(s)
        if w is not None:
            lo, hi = width_range(r)
            self.assume_ge(ladd(w, -lo))
            self.assume_ge(lsub(hi, w))
        for k in list(self.facts):
            if k[0] == 'eqs' and (k[1] == s or k[2] == s):
                t = k[2] if k[1] == s else k[1]
                if t in self.rng:
                    nr = r_and(self.rng[t], r)
                    if nr != self.rng[t]:
                        self.set_rng(t, nr)

    def add_dep(self, a, b, m):
        d = dict(self.dep.get(a, ()))
        d[b] = m
        self.dep[a] = d
        self.rdep[b] = self.rdep.get(b, ()) + (a,)

    def cond_rng(self, a, b, v):
        """range of discrete symbol b when a == v"""
        if not r_in(v, self.rng[a]):
            return ()
        m = self.dep.get(a, {}).get(b)
        if m is not None:
            return r_and(m.get(v, ()), self.rng[b])
        if a == b:
            return ((v, v),)
        return self.rng[b]

    # -- conditions
    def test(self, c):
        """True / False / None"""
        if isinstance(c, bool):
            return c
        k = c.k
        if k == 'ge':
            r = self.ge0(c.a)
            return r if r is not None or not self.facts else self.facts.get(('num', 'ge', c.a))
        if k == 'eq':
            r = self.eq0(c.a)
            if r is None and self.facts and ('num', 'eq', c.a) in self.facts:
                return self.facts['num', 'eq', c.a]
            if r is None and isinstance(c.a, Lin) and c.a.c == 0 and len(c.a.t) == 2:
                (a, _), (b, _) = c.a.t
                f = self.facts.get(('eqs', min(a, b), max(a, b)))
                if f is not None:
                    return f
            return r
        if k == 'in':
            r = self.rng.get(c.a)
            if r is None:
                return None
            i = r_and(r, c.b)
            if not i:
                return False
            if i == r:
                return True
            return None
        if k == 'not':
            r = self.test(c.a)
            return None if r is None else not r
        if k == 'and':
            a = self.test(c.a)
            if a is False:
                return False
            b = self.test(c.b)
            if b is False:
                return False
            if a and b:
                return True
            return None
        if k == 'or':
            a = self.test(c.a)
            if a is True:
                return True
            b = self.test(c.b)
            if b is True:
                return True
            if a is False and b is False:
                return False
            return None
        if k == 'fact':
            return self.facts.get(c.a)
        raise AssertionError(k)

    def assume(self, c, val):
        """refined copies of self in which c == val (may be several)"""
        t = self.test(c)
        if t is not None:
            return [self] if t == val else []
        k = c.k
        try:
            if k == 'not':
                return self.assume(c.a, not val)
            s = self.copy()
            if k == 'ge':
                s.assume_ge(c.a if val else ladd(lmul(c.a, -1), -1))
                s.check(c.a)
                return [s]
            if k == 'eq':
                if val:
                    s.assume_eq(c.a)
                    s.check(c.a)
                    return [s]
                L = c.a
                if len(L.t) == 1 and L.t[0][0] in s.rng:
                    x, kk = L.t[0]
                    v = -L.c // kk
                    s.set_rng(x, r_sub(s.rng[x], ((v, v),)))
                    return [s]
                if len(L.t) == 2 and L.c == 0 and all(x in s.rng for x, _ in L.t):
                    (a, _), (b, _) = L.t
                    s.facts[('eqs', min(a, b), max(a, b))] = False
                    if r_size(s.rng[a]) == 1:
                        s.set_rng(b, r_sub(s.rng[b], s.rng[a]))
                    elif r_size(s.rng[b]) == 1:
                        s.set_rng(a, r_sub(s.rng[a], s.rng[b]))
                    return [s]
                out = []
                for M in (ladd(L, -1), ladd(lmul(L, -1), -1)):
                    s2 = self.copy()
                    try:
                        s2.assume_ge(M)
                        s2.check(M)
                        out.append(s2)
                    except Infeasible:
                        pass
                return out
            if k == 'in':
                r = s.rng[c.a]
                s.set_rng(c.a, r_and(r, c.b) if val else r_sub(r, c.b))
                return [s]
            if k == 'fact':
                s.facts[c.a] = val
                return [s]
        except Infeasible:
            return []
        if (k == 'and' and val) or (k == 'or' and not val):
            out = []
            for s1 in self.assume(c.a, val):
                out.extend(s1.assume(c.b, val))
            return out
        # disjunction
        out = list(self.assume(c.a, val))
        for s1 in self.assume(c.a, not val):
            out.extend(s1.assume(c.b, val))
        return out

    def check(self, L):
        """raise Infeasible on a negative cycle through a symbol of L"""
        if isinstance(L, Lin):
            for s, _ in L.t:
                if s not in self.rng:
                    self.dist(s)


def width_range(r):
    lo = r[0][0]
    hi = r[-1][1]

    def w(c):
        return 1 if c < 0x80 else 2 if c < 0x800 else 3 if c < 0x10000 else 4
    return w(lo), w(hi)


class Text:
    """What is known about one immutable text."""
    __slots__ = ('len', 'chars', 'bounds', 'tag')

    def __init__(self, ln, chars=(), bounds=(), tag=None):
        self.len = ln
        self.chars = chars      # tuple of (pos Lin, char sym/int, next pos Lin)
        self.bounds = bounds    # tuple of Lin known to be char boundaries
        self.tag = tag

    def with_(self, **kw):
        t = Text(self.len, self.chars, self.bounds, self.tag)
        for k, v in kw.items():
            setattr(t, k, v)
        return t
