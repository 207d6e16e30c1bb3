"""Abstract interpreter for MIR (forward, path-merging at loop heads)."""
import time
import heapq, sys
from dom import *
from mir import succs

sys.setrecursionlimit(20000)
MAXLEN = (1 << 31) - 1


class Abort(Exception):
    """analysis resource limit"""


class Obl:
    __slots__ = ('ok', 'bad', 'und', 'line', 'msg', 'key', 'where')

    def __init__(self, key):
        self.key = key
        self.ok = 0
        self.bad = 0
        self.und = 0
        self.line = None
        self.msg = ''
        self.where = None


class FramePos:
    __slots__ = ('depth', 'fn', 'bb', 'live', 'line')

    def __init__(self, depth, fn, bb, live, line):
        self.depth = depth
        self.fn = fn
        self.bb = bb
        self.live = live
        self.line = line


class Interp:
    def __init__(self, prog, models, user_crates=('minifier',)):
        self.p = prog
        self.T = prog.types
        self.models = models
        self.user = user_crates
        self.obls = {}
        self.unmodelled = {}
        self.hooks = []
        self.deadline = None
        self.grace = None          # seconds to finish, with what was found so far, after the deadline
        self.truncated = False
        self.textsrc = {}     # text id -> (pieces, length) it was made from
        self.elemsrc = {}     # id of an element taken by value -> (element, its index)
        self.bytesrc = {}     # id of a byte-slice reference -> (reference, the text it views)
        self.stats = {'stmts': 0, 'paths': 0, 'joins': 0, 'calls': 0, 'fns': set(), 'heads': 0}
        self.max_states = 4000000
        self._tcache = {}
        self.line = None
        self.intercept = {}
        self.intercept_fn = None
        self.merge_min = 3
        self._inner = {}
        self._sums = {}
        self.headcount = {}
        self.headsum = {}
        self.recs = {}
        self.debug = False
        self.coarse_types = set()

    # ------------------------------------------------------------- types
    def ty(self, t):
        return self.T[t]

    def is_enum(self, t):
        d = self.T[t]
        return d['k'] == 'adt' and d['kind'] == 'enum'

    def fieldless(self, t):
        k = ('fl', t)
        r = self._tcache.get(k)
        if r is None:
            d = self.T[t]
            r = d['k'] == 'adt' and d['kind'] == 'enum' and all(not v['f'] for v in d['variants'])
            self._tcache[k] = r
        return r

    def mentioned(self, fn, t):
        """variants of the field-less enum t that the body of fn names"""
        k = ('ment', fn.key, t)
        r = self._tcache.get(k)
        if r is None:
            r = set()
            names = {t}
            for i, d in enumerate(self.T):
                if d['k'] == 'ref' and d['to'] == t:
                    names.add(i)

            def op(o):
                if o and o[0] == 'k' and o[1] in names:
                    c = o[2]
                    while isinstance(c, dict) and 'r' in c:
                        c = c['r']
                    if isinstance(c, dict) and 'v' in c:
                        r.add(c['v'])
            for b in fn.rpo:
                stmts, term = fn.blocks[b]
                for st in stmts:
                    if st[0] == '=':
                        rv = st[2]
                        if rv[0] == 'agg' and rv[1][0] == 'adt' and rv[2] == t:
                            r.add(rv[1][1])
                        for x in rv[1:]:
                            if isinstance(x, list) and x and x[0] == 'k':
                                op(x)
                if term[0] == 'call':
                    for o in term[2]:
                        op(o)
                elif term[0] == 'switch':
                    o = term[1]
                    if o[0] in ('c', 'm') and len(o[1]) == 1 and len(term[2]) <= 4:
                        for st in stmts:
                            if st[0] == '=' and st[1] == o[1] and st[2][0] == 'discr' and st[2][2] == t:
                                for val, _ in term[2]:
                                    r.add(val)
            self._tcache[k] = r
        return r

    def adt_name(self, t):
        d = self.T[t]
        return d.get('name') if d['k'] == 'adt' else None

    def find_ty(self, pred):
        for i, d in enumerate(self.T):
            if pred(d):
                return i
        return None

    def variant_index(self, t, name):
        for i, v in enumerate(self.T[t]['variants']):
            if v['n'] == name:
                return i
        raise KeyError(name)

    def ref_to(self, t):
        for i, d in enumerate(self.T):
            if d['k'] == 'ref' and d['to'] == t and not d['mut']:
                return i
        return None

    # ------------------------------------------------------------- top values
    def top(self, st, t, depth=0):
        d = self.T[t]
        k = d['k']
        if k == 'bool':
            return Cond('in', st.disc(BOOL).single(), ((1, 1),))
        if k == 'char':
            return st.disc(CHAR)
        if k == 'int':
            b = d['bits']
            if b <= 8:
                return st.disc(((-128, 127),) if d['signed'] else U8)
            if d['signed']:
                s = st.num(-(1 << (b - 1)), (1 << (b - 1)) - 1)
                return s
            return st.num(0, (1 << b) - 1)
        if k == 'tuple':
            return Adt(t, 0, tuple(self.top(st, e, depth + 1) for e in d['e']))
        if k in ('ref', 'ptr'):
            to = self.T[d['to']]
            if to['k'] == 'str':
                return self.new_text(st)
            if to['k'] == 'slice':
                c = self.alloc(st, VecV(to['e'], st.num(0, MAXLEN)))
                v = st.cells[c]
                return SliceV(Ref(c), 0, v.len)
            if to['k'] == 'dyn' or depth > 6:
                return Top(t)
            return Ref(self.alloc(st, self.top(st, d['to'], depth + 1)))
        if k == 'adt':
            n = d['name']
            if n.endswith('vec::Vec'):
                return VecV(d['args'][0], st.num(0, MAXLEN))
            if n in ('std::str::CharIndices', 'std::str::Chars'):
                x = self.new_text(st)
                pos = st.num(0)
                st.assume_ge(lsub(x.hi, pos))
                from models import add_bound
                add_bound(st, x, pos)
                return It('ci' if n.endswith('Indices') else 'chars', t, (x, pos))
            if n.endswith('string::String'):
                return StringV((('top', fresh_id()),), st.num(0, MAXLEN))
            if d.get('box'):
                return Ref(self.alloc(st, self.top(st, d['args'][0], depth + 1)))
            if d['kind'] == 'enum':
                nv = len(d['variants'])
                if nv == 0:
                    raise Infeasible()
                live = [i for i, v in enumerate(d['variants']) if not any(self.T[ft]['k'] == 'never' for _, ft in v['f'])]
                return ETop(t, st.disc(r_of(live)).single())
            if d['kind'] == 'struct' and depth < 8 and self.crate_of_adt(n) in self.user + ('vharness',):
                return Adt(t, 0, tuple(self.top(st, ft, depth + 1) for _, ft in d['variants'][0]['f']))
        if k == 'array':
            n = d['n']
            if isinstance(n, int) and n <= 16:
                return Adt(t, 0, tuple(self.top(st, d['e'], depth + 1) for _ in range(n)))
        if k == 'fndef':
            return FnV(d['key'])
        if k == 'closure':
            return Top(t)
        return Top(t)

    def crate_of_adt(self, n):
        return n.split('::')[0].lstrip('<&')

    def new_text(self, st, tag=None, maxlen=MAXLEN):
        tid = fresh_id()
        ln = st.num(0, maxlen)
        st.text[tid] = Text(ln, (), (0, ln), tag)
        return StrV(tid, 0, ln)

    def alloc(self, st, val):
        c = ('h', fresh_id())
        st.cells[c] = val
        return c

    # ------------------------------------------------------------- enum payloads
    def inner_enums(self, ty):
        """[(variant, field types)] of the variants of an enum that hold field-less enums only"""
        r = self._inner.get(ty)
        if r is None:
            r = []
            for k, v in enumerate(self.T[ty]['variants']):
                fts = tuple(t for _, t in v['f'])
                if fts and all(self.fieldless(t) and len(self.T[t]['variants']) > 1 for t in fts):
                    r.append((k, fts))
            self._inner[ty] = r
        return r

    def payload(self, st, e, v):
        """fields of variant v of ETop e"""
        ex = st.exp.get(e.vs)
        if ex is not None and v in ex:
            for x in ex[v]:
                if isinstance(x, ETop):
                    n = len(self.T[x.ty]['variants'])
                    if r_in(n, st.rng[x.vs]):       # stands for "no such payload" (Canon.inner)
                        if st.rng[e.vs] != ((v, v),):
                            return tuple(self.top(st, ft) for _, ft in self.T[e.ty]['variants'][v]['f'])
                        st.set_rng(x.vs, r_sub(st.rng[x.vs], ((n, n),)))
            return ex[v]
        fs = tuple(self.top(st, ft) for _, ft in self.T[e.ty]['variants'][v]['f'])
        ex = dict(ex or {})
        ex[v] = fs
        st.exp[e.vs] = ex
        for h in self.hooks:
            h.on_payload(self, st, e, v, fs)
        return fs

    def as_adt(self, st, v):
        """turn a value known to be a single variant into an Adt"""
        if isinstance(v, ETop):
            r = st.rng[v.vs]
            if r_size(r) == 1:
                k = r[0][0]
                return Adt(v.ty, k, self.payload(st, v, k))
        return v

    # ------------------------------------------------------------- paths
    def get_field(self, st, v, i, ty):
        if isinstance(v, Adt):
            if i < len(v.f):
                return v.f[i]
            return self.top(st, ty) if ty is not None else Top(None)
        if isinstance(v, tuple) and v[0] == 'dc':      # downcast ETop
            fs = self.payload(st, v[1], v[2])
            return fs[i] if i < len(fs) else self.top(st, ty)
        if isinstance(v, (Ref, RefC, SliceV, StrV)):
            return v                                    # Box / Unique / NonNull wrappers
        if ty is None:
            return Top(None)
        return self.top(st, ty)

    def elem(self, st, v, idx):
        """element idx of a Vec or array value; returns (value, newcontainer or None)"""
        if isinstance(v, VecV):
            if self.T[v.ety]['k'] == 'int':
                return self.top(st, v.ety), None
            for j, x in v.memo:
                if st.eq0(lsub(idx, j)) is True:
                    return x, None
            # is it certainly different from / unknown wrt the memo entries
            amb = [j for j, x in v.memo if st.eq0(lsub(idx, j)) is None]
            if amb:
                # decide equality with the first ambiguous entry, exactly
                raise_split(st, Cond('eq', lsub(idx, amb[0])))
            x = self.fresh_elem(st, v, idx)
            return x, VecV(v.ety, v.len, v.memo + ((idx, x),), v.ghost)
        if isinstance(v, Adt):
            if not isinstance(idx, Lin):
                if 0 <= idx < len(v.f):
                    return v.f[idx], None
                raise Infeasible()
            s = idx.single()
            n = len(v.f)
            if all(isinstance(x, int) for x in v.f) and s is not None and s in st.rng:
                # constant table indexed by a discrete symbol: split by value
                groups = {}
                for a, b in st.rng[s]:
                    for i in range(max(a, 0), min(b, n - 1) + 1):
                        groups.setdefault(v.f[i], []).append(i)
                if len(groups) == 1:
                    return next(iter(groups)), None
                out = []
                for val, ix in groups.items():
                    s2 = st.copy()
                    s2.set_rng(s, r_of(ix))
                    out.append(s2)
                raise Split(out)
            # small array: split on the index
            cand = [i for i in range(n) if st.eq0(lsub(idx, i)) is not False]
            if len(cand) == 1:
                return v.f[cand[0]], None
            out = []
            for i in cand:
                out.extend(st.assume(Cond('eq', lsub(idx, i)), True))
            raise Split(out)
        if isinstance(v, Top):
            d = self.T[v.ty] if v.ty is not None else {}
            if d.get('k') in ('array', 'slice'):
                return self.top(st, d['e']), None
        return Top(None), None

    def fresh_elem(self, st, v, idx):
        for h in self.hooks:
            x = h.fresh_elem(self, st, v, idx)
            if x is not None:
                return x
        return self.top(st, v.ety)

    def load_path(self, st, cell, path):
        v = st.cells[cell]
        return self.walk_path(st, v, path, cell)

    def walk_path(self, st, v, path, cell=None):
        for i, pe in enumerate(path):
            if isinstance(pe, int):
                v = self.get_field(st, v, pe, None)
            elif pe[0] == 'd':
                v = self.downcast(st, v, pe[1])
            elif pe[0] == 'e':
                x, nc = self.elem(st, v, pe[1])
                if nc is not None and cell is not None:
                    self.store_path(st, cell, path[:i], nc)
                v = x
        return v

    def downcast(self, st, v, k):
        if isinstance(v, Adt):
            return v
        if isinstance(v, ETop):
            r = st.rng[v.vs]
            if r != ((k, k),):
                i = r_and(r, ((k, k),))
                if not i:
                    raise Infeasible()
                st.set_rng(v.vs, i)
            return ('dc', v, k)
        return v

    def store_path(self, st, cell, path, val):
        if not path:
            st.cells[cell] = val
            return
        st.cells[cell] = self.upd(st, st.cells[cell], path, val)

    def upd(self, st, v, path, val):
        if not path:
            return val
        pe = path[0]
        if isinstance(pe, int):
            if isinstance(v, tuple) and v[0] == 'dc':
                v = Adt(v[1].ty, v[2], self.payload(st, v[1], v[2]))
            if isinstance(v, Adt):
                f = list(v.f)
                if pe >= len(f):
                    return v
                f[pe] = self.upd(st, f[pe], path[1:], val)
                return Adt(v.ty, v.v, tuple(f))
            return v
        if pe[0] == 'd':
            if isinstance(v, ETop):
                v = Adt(v.ty, pe[1], self.payload(st, v, pe[1]))
            return self.upd(st, v, path[1:], val)
        if pe[0] == 'e':
            idx = pe[1]
            if isinstance(v, VecV):
                if self.T[v.ety]['k'] == 'int':
                    return v
                old, nc = self.elem(st, v, idx)
                v = nc or v
                new = self.upd(st, old, path[1:], val)
                memo = tuple((j, new if st.eq0(lsub(j, idx)) is True else x) for j, x in v.memo
                             if st.eq0(lsub(j, idx)) is not None or j == idx)
                g = v.ghost
                for h in self.hooks:
                    g = h.on_elem_write(self, st, v, idx, old, new, g)
                return VecV(v.ety, v.len, memo, g)
            if isinstance(v, Adt):
                if isinstance(idx, Lin):
                    cand = [i for i in range(len(v.f)) if st.eq0(lsub(idx, i)) is not False]
                    if len(cand) == 1:
                        idx = cand[0]
                    else:
                        out = []
                        for i in cand:
                            out.extend(st.assume(Cond('eq', lsub(idx, i)), True))
                        raise Split(out)
                f = list(v.f)
                f[idx] = self.upd(st, f[idx], path[1:], val)
                return Adt(v.ty, v.v, tuple(f))
            return v
        return v

    # places -------------------------------------------------------------
    def lval(self, st, d, place):
        """-> ('c', cell, path) | ('v', value) (read-only)"""
        cur = ('c', (d, place[0]), ())
        for pr in place[1:]:
            if pr == '*':
                v = self.lload(st, cur)
                if isinstance(v, Ref):
                    cur = ('c', v.cell, v.path)
                elif isinstance(v, RefC):
                    cur = ('v', v.val)
                else:
                    cur = ('v', v)
                continue
            k = pr[0]
            if k == 'f':
                if cur[0] == 'c':
                    cur = ('c', cur[1], cur[2] + (pr[1],))
                else:
                    cur = ('v', self.get_field(st, cur[1], pr[1], pr[2]))
            elif k == 'd':
                if cur[0] == 'c':
                    cur = ('c', cur[1], cur[2] + (('d', pr[1]),))
                else:
                    cur = ('v', self.downcast(st, cur[1], pr[1]))
            elif k in ('i', 'ci'):
                if k == 'i':
                    idx = st.cells[(d, pr[1])]
                    fe = False
                else:
                    idx, fe = pr[1], pr[3]
                if cur[0] == 'v' and isinstance(cur[1], SliceV):
                    sl = cur[1]
                    j = ladd(sl.lo, idx) if not fe else lsub(sl.hi, idx)
                    cur = self.elem_lval(sl.ref, j)
                else:
                    if fe:
                        v = self.lload(st, cur)
                        n = v.len if isinstance(v, VecV) else len(v.f)
                        idx = lsub(n, idx)
                    if cur[0] == 'c':
                        cur = ('c', cur[1], cur[2] + (('e', idx),))
                    else:
                        cur = ('v', self.elem(st, cur[1], idx)[0])
            elif k == 'ss':
                if cur[0] == 'v' and isinstance(cur[1], SliceV):
                    sl = cur[1]
                    hi = lsub(sl.hi, pr[2]) if pr[3] else ladd(sl.lo, pr[2])
                    cur = ('v', SliceV(sl.ref, ladd(sl.lo, pr[1]), hi))
                else:
                    cur = ('v', Top(None))
            elif k == 'oc':
                pass
        return cur

    def elem_lval(self, ref, j):
        if isinstance(ref, RefC):
            return ('v', ('ce', ref.val, j))
        return ('c', ref.cell, ref.path + (('e', j),))

    def lload(self, st, lv):
        if lv[0] == 'c':
            if lv[1] not in st.cells:
                return Top(None)
            v = self.load_path(st, lv[1], lv[2])
        else:
            v = lv[1]
        if isinstance(v, tuple) and v[0] == 'ce':
            return self.elem(st, v[1], v[2])[0]
        if isinstance(v, tuple) and v[0] == 'dc':
            return v[1]
        return v

    def read(self, st, d, place):
        if len(place) == 1:
            v = st.cells.get((d, place[0]))
            if v is None:
                return Top(None)
            return v
        v = self.lload(st, self.lval(st, d, place))
        if isinstance(v, Top) and v.ty is None:
            t = self.place_ty(place)
            if t is not None:
                return self.top(st, t)
        return v

    def place_ty(self, place):
        if len(place) > 1 and isinstance(place[-1], list) and place[-1][0] == 'f':
            return place[-1][2]
        return None

    def write(self, st, d, place, val):
        if len(place) == 1:
            st.cells[(d, place[0])] = val
            return
        lv = self.lval(st, d, place)
        if lv[0] == 'c':
            self.store_path(st, lv[1], lv[2], val)

    # operands -------------------------------------------------------------
    def operand(self, st, d, o):
        k = o[0]
        if k in ('c', 'm'):
            return self.read(st, d, o[1])
        if k == 'k':
            return self.const(o[1], o[2])
        return self.runtime_check(o[1])

    def runtime_check(self, name):
        return 'Overflow' in name

    def const(self, t, c):
        d = self.T[t]
        k = d['k']
        if 'z' in c:
            if k == 'fndef':
                return FnV(d['key'])
            if k == 'closure':
                return Adt(t, 0, ())
            if k == 'adt' and d['kind'] == 'struct':
                return Adt(t, 0, tuple(self.const(ft, c) for _, ft in d['variants'][0]['f']))
            if k == 'adt' and d['kind'] == 'enum':
                return Adt(t, 0, ())
            if k == 'tuple':
                return Adt(t, 0, tuple(self.const(e, c) for e in d['e']))
            if k == 'array':
                return Adt(t, 0, ())
            return Adt(t, 0, ())
        if 'i' in c:
            v = c['i']
            if k == 'bool':
                return bool(v)
            if k == 'int' and d['signed'] and v >= 1 << (d['bits'] - 1):
                v -= 1 << d['bits']
            return v
        if 't' in c:
            if k == 'tuple':
                return Adt(t, 0, tuple(self.const(e, x) for e, x in zip(d['e'], c['t'])))
            return Adt(t, 0, tuple(self.const(f[1], x) for f, x in zip(d['variants'][0]['f'], c['t'])))
        if 'arr' in c:
            if k == 'array':
                return Adt(t, 0, tuple(self.const(d['e'], x) for x in c['arr']))
            return Adt(t, 0, tuple(self.const(d['e'], x) for x in c['arr']))
        if 'v' in c:
            return Adt(t, c['v'], tuple(self.const(f[1], x) for f, x in zip(d['variants'][c['v']]['f'], c['f'])))
        if 'r' in c:
            inner = c['r']
            to = d['to'] if k in ('ref', 'ptr') else None
            if isinstance(inner, dict) and 's' in inner:
                s = inner['s']
                return StrV(s, 0, len(s.encode()))
            if to is not None:
                td = self.T[to]
                if td['k'] == 'slice' and 'arr' in inner:
                    v = Adt(to, 0, tuple(self.const(td['e'], x) for x in inner['arr']))
                    return SliceV(RefC(v), 0, len(v.f))
                return RefC(self.const(to, inner))
        if 'fn' in c:
            return FnV(c['fn'])
        return Top(t)

    # ------------------------------------------------------------- rvalues
    def int_range(self, t):
        d = self.T[t]
        if d['k'] == 'char':
            return 0, 0x10FFFF
        if d['k'] == 'bool':
            return 0, 1
        if d['k'] != 'int':
            return -INF, INF
        b = d['bits']
        if d['signed']:
            return -(1 << (b - 1)), (1 << (b - 1)) - 1
        return 0, (1 << b) - 1

    def rvalue(self, st, d, r, fn):
        k = r[0]
        if k == 'use':
            return self.operand(st, d, r[1])
        if k in ('ref', 'addr'):
            lv = self.lval(st, d, r[2] if k == 'ref' else r[1])
            if lv[0] == 'c':
                # a deref of str/slice at the end gives back the fat pointer
                v = None
                if lv[2] == () and lv[1] in st.cells:
                    v = st.cells[lv[1]]
                return Ref(lv[1], lv[2])
            v = lv[1]
            if isinstance(v, (StrV, SliceV)):
                return v
            if isinstance(v, tuple) and v[0] == 'ce':
                return RefC(self.elem(st, v[1], v[2])[0])
            if isinstance(v, tuple) and v[0] == 'dc':
                return RefC(v[1])
            if isinstance(v, Top):
                return v
            return RefC(v)
        if k in ('bin', 'chk'):
            a = self.operand(st, d, r[2])
            b = self.operand(st, d, r[3])
            return self.binop(st, r[1], a, b, r[4], k == 'chk')
        if k == 'un':
            a = self.operand(st, d, r[2])
            return self.unop(st, r[1], a, r[3])
        if k == 'discr':
            v = self.read(st, d, r[1])
            return self.discr(st, v)
        if k == 'len':
            v = self.read(st, d, r[1])
            return self.len_of(st, v)
        if k == 'cast':
            return self.cast(st, r[1], self.operand(st, d, r[2]), r[3], r[4], r[5] if len(r) > 5 else None)
        if k == 'agg':
            ops = [self.operand(st, d, o) for o in r[3]]
            kind = r[1][0]
            if kind == 'adt':
                return Adt(r[2], r[1][1], tuple(ops))
            if kind == 'rawptr':
                return self.mkfat(st, ops, r[2])
            return Adt(r[2], 0, tuple(ops))
        if k == 'repeat':
            v = self.operand(st, d, r[1])
            if isinstance(r[2], int) and r[2] <= 64:
                return Adt(r[3], 0, (v,) * r[2])
            return Top(r[3])
        return Top(None)

    def mkfat(self, st, ops, t):
        if isinstance(ops[0], (Ref, RefC)) and is_num(ops[1]):
            return SliceV(ops[0], 0, ops[1])
        return ops[0]

    def len_of(self, st, v):
        if isinstance(v, VecV):
            return v.len
        if isinstance(v, SliceV):
            return lsub(v.hi, v.lo)
        if isinstance(v, StrV):
            return lsub(v.hi, v.lo)
        if isinstance(v, Adt):
            return len(v.f)
        return st.num(0, MAXLEN)

    def discr(self, st, v):
        if isinstance(v, Adt):
            d = self.T[v.ty]
            if d['k'] == 'adt' and d['kind'] == 'enum':
                return d['variants'][v.v]['d']
            return 0
        if isinstance(v, ETop):
            vs = self.T[v.ty]['variants']
            if all(x['d'] == i for i, x in enumerate(vs)):
                r = st.rng[v.vs]
                if r_size(r) == 1:
                    return r[0][0]
                return sym(v.vs)
            r = st.rng[v.vs]
            if r_size(r) == 1:
                return vs[r[0][0]]['d']
            out = []
            for i in range(len(vs)):
                if r_in(i, r):
                    s = st.copy()
                    s.set_rng(v.vs, ((i, i),))
                    out.append(s)
            raise Split(out)
        return st.num()

    def as_bool(self, v):
        if isinstance(v, (bool, Cond)):
            return v
        if isinstance(v, int):
            return bool(v)
        return None

    def binop(self, st, op, a, b, t, chk):
        """t is the operand type"""
        if op in ('Eq', 'Ne', 'Lt', 'Le', 'Gt', 'Ge'):
            return self.compare(st, op, a, b)
        if op == 'Cmp':
            return self.cmp3(st, a, b)
        ba, bb = self.as_bool_op(a), self.as_bool_op(b)
        if ba is not None and bb is not None and op in ('BitAnd', 'BitOr', 'BitXor'):
            if op == 'BitAnd':
                return c_and(ba, bb)
            if op == 'BitOr':
                return c_or(ba, bb)
            return c_or(c_and(ba, c_not(bb)), c_and(c_not(ba), bb))
        if op == 'Offset':
            return a
        if not (is_num(a) and is_num(b)):
            lo, hi = self.int_range(t)
            r = st.num(lo if lo != -INF else None, hi if hi != INF else None) if self.T[t]['k'] == 'int' else Top(t)
            if chk:
                return Adt(None, 0, (r, Cond('in', st.disc(BOOL).single(), ((1, 1),))))
            return r
        lo, hi = self.int_range(t)
        base = op.replace('Unchecked', '').replace('WithOverflow', '')
        res = None
        if base == 'Add':
            res = ladd(a, b)
        elif base == 'Sub':
            res = lsub(a, b)
        elif base == 'Mul':
            if not isinstance(a, Lin):
                res = lmul(b, a)
            elif not isinstance(b, Lin):
                res = lmul(a, b)
            else:
                ua, ub, la, lb = st.upper(a), st.upper(b), st.lower(a), st.lower(b)
                if la >= 0 and lb >= 0 and ua * ub <= hi:
                    res = st.num(la * lb, ua * ub)
                elif chk:
                    r = st.num(lo, hi)
                    return Adt(None, 0, (r, Cond('in', st.disc(BOOL).single(), ((1, 1),))))
        if res is not None:
            res = self.renorm(st, res)
            if chk:
                over = c_not(c_and(Cond('ge', lsub(res, lo)) if isinstance(res, Lin) else res >= lo,
                                   Cond('ge', lsub(hi, res)) if isinstance(res, Lin) else res <= hi))
                return Adt(None, 0, (res, over))
            if not isinstance(res, Lin):
                if lo <= res <= hi:
                    return res
                m = hi - lo + 1
                return (res - lo) % m + lo
            if st.ge0(lsub(res, lo)) is True and st.ge0(lsub(hi, res)) is True:
                return res
            s = res.single()
            return st.num(lo, hi) if self.T[t]['bits'] > 8 else st.disc(((lo, hi),))
        if not isinstance(a, Lin) and not isinstance(b, Lin):
            if base == 'BitAnd':
                return a & b
            if base == 'BitOr':
                return a | b
            if base == 'BitXor':
                return a ^ b
            if base == 'Shl':
                return (a << b) & hi if lo == 0 else a << b
            if base == 'Shr':
                return a >> b
            if base == 'Div' and b:
                return int(a / b) if lo < 0 else a // b
            if base == 'Rem' and b:
                return a % b if lo == 0 else a - b * int(a / b)
        if base == 'Div' and not isinstance(b, Lin) and b > 0 and st.lower(a) >= 0:
            u = st.upper(a)
            r = st.num(0, u // b if u != INF else None)
            st.assume_ge(lsub(a, r))
            return r
        if base == 'Rem' and not isinstance(b, Lin) and b > 0 and st.lower(a) >= 0:
            r = st.num(0, b - 1)
            return r
        if base in ('BitAnd',) and not isinstance(b, Lin) and lo == 0:
            return self.disc_map(st, a, lambda x: x & b, t)
        if base in ('BitOr',) and not isinstance(b, Lin) and lo == 0:
            return self.disc_map(st, a, lambda x: x | b, t)
        if base in ('Shr', 'Shl') and not isinstance(b, Lin) and lo == 0:
            return self.disc_map(st, a, (lambda x: x >> b) if base == 'Shr' else (lambda x: (x << b) & hi), t)
        bits = self.T[t].get('bits', 64)
        r = st.num(lo, hi) if bits > 8 else st.disc(((lo, hi),))
        if chk:
            return Adt(None, 0, (r, Cond('in', st.disc(BOOL).single(), ((1, 1),))))
        return r

    def disc_map(self, st, a, f, t):
        s = a.single() if isinstance(a, Lin) else None
        lo, hi = self.int_range(t)
        if s is not None and s in st.rng and r_size(st.rng[s]) <= 256:
            return st.disc(r_of({f(v) for x, y in st.rng[s] for v in range(x, y + 1)}))
        return st.num(lo, hi) if self.T[t].get('bits', 64) > 8 else st.disc(((lo, hi),))

    def renorm(self, st, L):
        """keep expressions small: more than 4 symbols become a fresh bounded one"""
        if isinstance(L, Lin) and len(L.t) > 5:
            lo, hi = st.lower(L), st.upper(L)
            return st.num(lo if lo != -INF else None, hi if hi != INF else None)
        return L

    def as_bool_op(self, v):
        return v if isinstance(v, (bool, Cond)) else None

    def compare(self, st, op, a, b):
        if isinstance(a, (bool, Cond)) or isinstance(b, (bool, Cond)):
            a = self.as_bool(a)
            b = self.as_bool(b)
            if a is None or b is None:
                return Cond('in', st.disc(BOOL).single(), ((1, 1),))
            eq = c_or(c_and(a, b), c_and(c_not(a), c_not(b)))
            if isinstance(b, bool):
                eq = a if b else c_not(a)
            elif isinstance(a, bool):
                eq = b if a else c_not(b)
            if op == 'Eq':
                return eq
            if op == 'Ne':
                return c_not(eq)
            return Cond('in', st.disc(BOOL).single(), ((1, 1),))
        if is_num(a) and is_num(b):
            if op == 'Eq':
                L = lsub(a, b)
                return L == 0 if not isinstance(L, Lin) else self.eqc(st, L)
            if op == 'Ne':
                L = lsub(a, b)
                return L != 0 if not isinstance(L, Lin) else c_not(self.eqc(st, L))
            if op == 'Lt':
                L = ladd(lsub(b, a), -1)
            elif op == 'Le':
                L = lsub(b, a)
            elif op == 'Gt':
                L = ladd(lsub(a, b), -1)
            else:
                L = lsub(a, b)
            return L >= 0 if not isinstance(L, Lin) else Cond('ge', L)
        if isinstance(a, ETop) or isinstance(b, ETop) or isinstance(a, Adt):
            da, db = self.discr(st, a), self.discr(st, b)
            return self.compare(st, op, da, db)
        return Cond('in', st.disc(BOOL).single(), ((1, 1),))

    def eqc(self, st, L):
        if len(L.t) == 1 and L.t[0][0] in st.rng and abs(L.t[0][1]) == 1:
            v = -L.c // L.t[0][1]
            return Cond('in', L.t[0][0], ((v, v),))
        return Cond('eq', L)

    def cmp3(self, st, a, b):
        lt = self.compare(st, 'Lt', a, b)
        eq = self.compare(st, 'Eq', a, b)
        oty = self.find_ty(lambda d: d['k'] == 'adt' and d['name'].endswith('cmp::Ordering'))
        if decide(st, lt):
            return Adt(oty, 0, ())
        if decide(st, eq):
            return Adt(oty, 1, ())
        return Adt(oty, 2, ())

    def unop(self, st, op, a, t):
        if op == 'Not':
            if isinstance(a, (bool, Cond)):
                return c_not(a)
            if isinstance(a, int):
                lo, hi = self.int_range(t)
                return (~a) & hi if lo == 0 else ~a
        if op == 'Neg' and is_num(a):
            return lmul(a, -1)
        if op == 'PtrMetadata':
            return self.len_of(st, a)
        return self.top(st, t)

    def cast(self, st, kind, v, frm, to, extra):
        if isinstance(extra, str) and extra in self.p.callees:
            if kind.startswith('reify') or 'Reify' in kind or 'ClosureFn' in kind:
                return FnV(extra)
        if kind in ('reify', 'closurefn'):
            return FnV(extra)
        tk = self.T[to]
        if tk['k'] in ('int', 'char') and isinstance(v, (bool, Cond)):
            if isinstance(v, bool):
                return int(v)
            if v.k == 'in' and st.rng.get(v.a) == BOOL and v.b == ((1, 1),):
                return sym(v.a)
            return int(decide(st, v))
        if tk['k'] in ('int', 'char') and isinstance(v, (Adt, ETop)):
            v = self.discr(st, v)
        if tk['k'] in ('int', 'char') and is_num(v):
            lo, hi = self.int_range(to)
            if not isinstance(v, Lin):
                m = hi - lo + 1
                return v if lo <= v <= hi else (v - lo) % m + lo
            if st.ge0(lsub(v, lo)) is True and st.ge0(lsub(hi, v)) is True:
                return v
            s = v.single()
            if s is not None and s in st.rng and lo == 0:
                inr = Cond('in', s, ((lo, hi),))
                if decide(st, inr):
                    return v
                if r_size(st.rng[s]) > hi:
                    return st.disc(((lo, hi),)) if tk['bits'] <= 8 else st.num(lo, hi)
            if tk.get('bits', 64) <= 8:
                return st.disc(((lo, hi),))
            return st.num(lo, hi)
        if tk['k'] in ('ref', 'ptr') and isinstance(extra, dict) is False and 'nsize' in kind:
            return self.unsize(st, v, to)
        if 'nsize' in kind:
            return self.unsize(st, v, to)
        return v

    def unsize(self, st, v, to):
        d = self.T[to]
        if d['k'] in ('ref', 'ptr') and self.T[d['to']]['k'] == 'slice':
            if isinstance(v, RefC):
                return SliceV(v, 0, len(v.val.f))
            if isinstance(v, Ref):
                c = self.load_path(st, v.cell, v.path)
                n = self.len_of(st, c)
                return SliceV(v, 0, n)
        return v

    # ------------------------------------------------------------- obligations
    def site(self, st, fn=None, line=None):
        """nearest user frame"""
        if fn is None:
            fn, line = self.cur
        if self.is_user(fn):
            return fn, line
        for fp in reversed(st.frames):
            if self.is_user(fp.fn):
                return fp.fn, fp.line
        return fn, line

    def where(self, st):
        f, l = self.site(st)
        return '%s:%s' % (f.file, l)

    def narrow_bytes(self, st, v, ch):
        """is v one byte although the character it should hold may need several?"""
        if not isinstance(v, SliceV) or not isinstance(ch, Lin) or ch.single() not in st.rng:
            return False
        return st.eq0(ladd(lsub(v.hi, v.lo), -1)) is True and st.rng[ch.single()][-1][1] > 127

    def is_user(self, fn):
        return fn.info['crate'] in self.user

    def oblige(self, st, kind, status, msg='', fn=None, line=None):
        """status True (proved) / None or False (not proved)"""
        f, l = self.site(st, fn, line)
        key = (f.name, kind)
        k2 = key + (l,)
        o = self.obls.get(k2)
        if o is None:
            o = self.obls[k2] = Obl(key)
            o.line = l
            o.where = '%s:%s' % (f.file, l)
        if status is True:
            o.ok += 1
        elif st.taint:
            o.und += 1
            o.msg = msg + ' [tainted: %s]' % ','.join(sorted(st.taint))
        else:
            o.bad += 1
            if not o.msg:
                o.msg = msg + self.describe(st)

    def describe(self, st):
        c = ' <- '.join('%s:%s' % (fp.fn.name.split('::')[-1], fp.line) for fp in reversed(st.frames))
        return ' (called from %s)' % c if c else ''

    # ------------------------------------------------------------- execution
    def run_fn(self, st, fn, args):
        """Abstractly runs fn; returns list of (state, return value)."""
        fn.prep()
        depth = len(st.frames)
        if depth > 60:
            raise Abort('call depth')
        self.stats['fns'].add(fn.key)
        d = depth
        if fn.spread >= 0 and len(args) == fn.spread:
            # rust-call ABI: the last argument is a tuple
            pass
        for i, a in enumerate(args):
            st.cells[(d, i + 1)] = a
        rec = fn.key in self.rec_fns()
        if rec:
            st.ghost[('~ent', fn.key)] = tuple(a if is_num(a) else None for a in args)
        order = fn_order(fn)
        pend = {}
        heap = []
        seq = [0]
        inv = {}
        exits = []

        def push(bb, s):
            if bb not in pend:
                pend[bb] = []
                heapq.heappush(heap, (order[bb], bb))
            elif not pend[bb]:
                heapq.heappush(heap, (order[bb], bb))
            pend[bb].append(s)

        push(0, st)
        savecur = getattr(self, 'cur', (fn, fn.line))
        late = self.truncated
        while heap:
            _, bb = heap[0]
            lst = pend.get(bb)
            if not lst:
                heapq.heappop(heap)
                continue
            heapq.heappop(heap)
            pend[bb] = []
            if bb in fn.heads:
                if self.truncated and not late and bb in inv:
                    continue        # what left the loops so far goes on; the result is known to be partial
                lst = self.at_head(lst, fn, bb, d, inv)
            elif not self.keep_paths and (len(lst) > self.join_min and self.crowded(fn) or
                                          self.truncated and not late and len(lst) > 1):
                lst = self.at_join(lst, fn, bb, d)
            for s in lst:
                if (late or not self.truncated) and any(inv_version(inv, t) for t in s.tags if t[0] == d):
                    continue
                self.stats['paths'] += 1
                if self.stats['paths'] > self.max_states:
                    raise Abort('state limit')
                if self.deadline and self.stats['paths'] % 64 == 0 and time.time() > self.deadline:
                    if self.grace is None or self.truncated:
                        raise Abort('time limit')
                    self.truncated = True
                    self.deadline += self.grace
                self.exec_block(s, fn, bb, d, push, exits)
        self.cur = savecur
        out = []
        for s, v in exits:
            if (late or not self.truncated) and any(inv_version(inv, t) for t in s.tags if t[0] == d):
                continue
            s.tags = tuple(t for t in s.tags if t[0] != d)
            for k in [k for k in s.cells if k[0] == d]:
                del s.cells[k]
            if rec:
                s.ghost.pop(('~ent', fn.key), None)
            out.append((s, v))
        if len(out) > self.merge_min:
            out = self.merge_returns(out, fn, d)
        return out

    def rec_fns(self):
        r = getattr(self, '_recf', None)
        if r is None:
            import graph
            us = [k for k, f in self.p.fns.items() if self.is_user(f)]
            r = set()
            for comp in graph.sccs(us, lambda k: graph.edges(self.p, k)):
                r |= set(comp)
            self._recf = r
        return r

    coarse_recursion = False     # recursive calls return anything (and their entries are not followed)
    unroll = 300           # loop visits explored without joining when keep_paths is set
    keep_paths = False      # analyses of small straight-line functions keep their paths apart

    join_min = 6            # states waiting at a block before they are merged there
    crowd = 1500            # visits of the loop heads of a function before its paths are merged at joins

    def crowded(self, fn):
        return self.headsum.get(fn.key, 0) > self.crowd

    def at_join(self, lst, fn, bb, d):
        groups = {}
        out = []
        for s in lst:
            for h in self.hooks:
                h.at_head(self, s, fn, bb)
            c = self.canon(s, fn, bb, d)
            groups.setdefault(c.key, []).append((s, c))
        for grp in groups.values():
            st = grp[0][0]
            if len(grp) > 1:
                tags, fr = st.tags, st.frames
                self.stats['joins'] += 1
                st = join(self, [c for _, c in grp], 0)
                st.frames = fr
                for s2, c in grp[1:]:
                    tags = tuple(t for t in tags if t in s2.tags)
                st.tags = tags
            out.append(st)
        return out

    def merge_returns(self, out, fn, d):
        if self.keep_paths:
            return out
        groups = {}
        a = self.T[fn.locals[1]] if fn.nargs == 1 else None
        text = a is not None and a['k'] == 'ref' and self.T[a['to']]['k'] == 'str'      # what a text is recognised as
        for s, v in out:
            fr = s.frames
            s.ghost['~ret'] = v
            s.frames = fr[:d]
            c = Canon(self, s)
            c.run()
            s.frames = fr
            groups.setdefault((c.key, self.picks(s, v) if text else None), []).append((s, c))
        res = []
        for key, grp in groups.items():
            st = grp[0][0]
            tags, fr = st.tags, st.frames
            if len(grp) > 1:
                self.stats['joins'] += 1
                st = join(self, [c for _, c in grp], 0)
                st.frames = fr
                for s2, c in grp[1:]:
                    tags = tuple(t for t in tags if t in s2.tags)
                st.tags = tags
            res.append((st, st.ghost.pop('~ret')))
        return res

    def picks(self, s, v):
        """the variants of fieldless enums in a value"""
        if isinstance(v, Adt):
            return (v.v,) + tuple(self.picks(s, x) for x in v.f)
        if isinstance(v, ETop):
            r = s.rng[v.vs]
            return r[0][0] if r_size(r) == 1 else None
        return None

    def exec_block(self, s0, fn, bb, d, push, exits):
        stmts, term = fn.blocks[bb]
        work = [(s0, 0)]
        n = len(stmts)
        while work:
            s, i = work.pop()
            try:
                while i < n:
                    self.stats['stmts'] += 1
                    x = stmts[i]
                    k = x[0]
                    if k == '=':
                        self.cur = (fn, x[3])
                        v = self.rvalue(s, d, x[2], fn)
                        self.write(s, d, x[1], v)
                    elif k == 'dead':
                        pass
                    elif k == 'sd':
                        v = self.read(s, d, x[1])
                        if isinstance(v, (Adt, ETop)):
                            fs = v.f if isinstance(v, Adt) and v.v == x[2] else tuple(
                                self.top(s, ft) for _, ft in self.T[v.ty]['variants'][x[2]]['f'])
                            self.write(s, d, x[1], Adt(v.ty, x[2], fs))
                    elif k == 'assume':
                        v = self.operand(s, d, x[1])
                        if not decide(s, v):
                            raise Infeasible()
                    i += 1
                self.terminator(s, fn, bb, term, d, push, exits)
            except Split as sp:
                for q in sp.states:
                    work.append((q, i))
            except Infeasible:
                continue

    def terminator(self, s, fn, bb, t, d, push, exits):
        k = t[0]
        if k == 'goto':
            push(t[1], s)
        elif k == 'switch':
            self.cur = (fn, t[5])
            v = self.operand(s, d, t[1])
            self.do_switch(s, v, t[2], t[3], push)
        elif k == 'ret':
            exits.append((s, s.cells.get((d, 0), Adt(None, 0, ()))))
        elif k in ('unreachable', 'resume'):
            return
        elif k == 'drop':
            push(t[2], s)
        elif k == 'assert':
            self.cur = (fn, t[5])
            v = self.operand(s, d, t[1])
            if t[2] is False or t[2] == 0 or t[2] == 'false':
                v = c_not(v) if isinstance(v, (bool, Cond)) else v
            r = s.test(v) if isinstance(v, (bool, Cond)) else None
            m = t[3]
            kind = m[0] if m[0] != 'overflow' else 'overflow ' + str(m[1])
            self.oblige(s, 'assert:' + kind, r, 'may fail: %s' % (kind,), fn, t[5])
            if r is not True:
                if self.debug:
                    print('ASSERT?', fn.name, t[5], m, v, [self.operand(s, d, o) for o in m[1:] if isinstance(o, list)])
                for q in s.assume(v, True) if isinstance(v, (bool, Cond)) else [s]:
                    push(t[4], q)
            else:
                push(t[4], s)
        elif k == 'call':
            self.do_call(s, fn, bb, t, d, push)
        else:
            raise Abort('terminator ' + k)

    def do_switch(self, s, v, branches, other, push):
        if isinstance(v, bool):
            v = int(v)
        if isinstance(v, int):
            for val, b in branches:
                if val == v:
                    push(b, s)
                    return
            push(other, s)
            return
        if isinstance(v, Cond):
            done = set()
            for val, b in branches:
                done.add(val)
                for q in s.assume(v, bool(val)):
                    push(b, q if q is not s else s.copy())
            for val in (0, 1):
                if val not in done:
                    for q in s.assume(v, bool(val)):
                        push(other, q if q is not s else s.copy())
            return
        if isinstance(v, Lin):
            x = v.single()
            if x is not None and x in s.rng:
                r = s.rng[x]
                by = {}
                for val, b in branches:
                    if r_in(val, r):
                        by.setdefault(b, []).append(val)
                rest = r
                for b, vals in by.items():
                    rv = r_of(vals)
                    rest = r_sub(rest, rv)
                    q = s.copy()
                    try:
                        q.set_rng(x, r_and(r, rv))
                    except Infeasible:
                        continue
                    push(b, q)
                if rest:
                    q = s.copy()
                    try:
                        q.set_rng(x, rest)
                        push(other, q)
                    except Infeasible:
                        pass
                return
            cur = [s]
            for val, b in branches:
                c = Cond('eq', ladd(v, -val))
                nxt = []
                for q in cur:
                    for a in q.assume(c, True):
                        push(b, a if a is not q else q.copy())
                    nxt.extend(q.assume(c, False))
                cur = nxt
            for q in cur:
                push(other, q)
            return
        # unknown value
        for val, b in branches:
            push(b, s.copy())
        push(other, s)

    def do_call(self, s, fn, bb, t, d, push):
        _, f, ops, dest, target, line, argtys, destty = t
        self.cur = (fn, line)
        args = [self.operand(s, d, o) for o in ops]
        live = fn.live[target] if target is not None else frozenset()
        if len(dest) > 1:
            live = live | {dest[0]}
        key = None
        if isinstance(f, str):
            key = f
        elif 'ptr' in f:
            v = self.operand(s, d, f['ptr'])
            if isinstance(v, FnV):
                key = v.key
        s.frames = s.frames + (FramePos(d, fn, bb, live, line),)
        try:
            if key is None:
                self.note_unmodelled(s, str(f))
                res = [(s, self.top(s, destty))]
            else:
                res = self.call(s, key, args, destty, argtys)
        except BaseException as ex:
            s.frames = s.frames[:d]
            if isinstance(ex, Split):
                for q in ex.states:
                    q.frames = q.frames[:d]
            raise
        self.cur = (fn, line)
        for q, v in res:
            q.frames = q.frames[:d]
            if target is None:
                continue
            try:
                self.write(q, d, dest, v)
            except Split as sp:
                for r in sp.states:
                    self.write(r, d, dest, v)
                    push(target, r)
                continue
            push(target, q)

    def note_unmodelled(self, s, name):
        s.taint = s.taint | {name}
        f, l = self.site(s)
        self.unmodelled.setdefault(name, '%s:%s' % (f.name, l))

    def call(self, s, key, args, destty, argtys):
        """-> list of (state, value)"""
        self.stats['calls'] += 1
        info = self.p.callees[key]
        name = info['def']
        h = self.intercept.get(name) or self.intercept.get(name.split('::')[-1] if info['crate'] == 'vharness' else None)
        if h is None and self.intercept_fn is not None:
            r = self.intercept_fn(self, s, Call(key, info, args, destty, argtys))
            if r is not NotImplemented:
                return r if isinstance(r, list) else [(s, r)]
        if h is None:
            h = self.models.get(name)
        if h is None and info['kind'] == 'intrinsic':
            h = self.models.get('intrinsic:' + info['iname'])
        if h is not None:
            r = h(self, s, Call(key, info, args, destty, argtys))
            if r is not NotImplemented:
                if isinstance(r, list):
                    return r
                return [(s, r)]
        if info['kind'] == 'emptyshim':
            return [(s, Adt(destty, 0, ()))]
        if info['kind'].startswith('virtual'):
            self.note_unmodelled(s, 'virtual ' + name)
            return [(s, self.top(s, destty))]
        fn = self.p.fns.get(key)
        if fn is None:
            r = self.ctor(name, args, destty)
            if r is not None:
                return [(s, r)]
            self.note_unmodelled(s, name)
            self.havoc_args(s, args, argtys)
            return [(s, self.top(s, destty))]
        if fn.nargs == 1 and len(args) == 1:
            r = self.scalar_summary(s, fn, args[0])
            if r is not None:
                return r
        if fn.key in self.rec_fns():
            if not self.coarse_recursion:
                return self.recursive(s, fn, self.adapt(fn, args))
            if any(fp.fn is fn for fp in s.frames):
                return self.any_return(s, fn, args, destty)
        return self.run_fn(s, fn, self.adapt(fn, args))

    def ctor(self, name, args, destty):
        """tuple struct / variant constructors used as functions"""
        d = self.T[destty] if destty is not None else None
        if d is None or d['k'] != 'adt':
            return None
        if d['kind'] == 'enum':
            for i, v in enumerate(d['variants']):
                if name == d['name'] + '::' + v['n'] and len(v['f']) == len(args):
                    return Adt(destty, i, tuple(args))
        elif d['kind'] == 'struct' and name == d['name'] and len(d['variants'][0]['f']) == len(args):
            return Adt(destty, 0, tuple(args))
        return None

    def adapt(self, fn, args):
        if fn.nargs == len(args):
            a = args[-1] if args else None
            if isinstance(a, Adt) and a.ty is not None and len(a.f) == 1 and self.T[a.ty]['k'] == 'tuple' and \
                    fn.name.split('::')[-1].startswith('{closure') and \
                    (self.T[fn.locals[len(args)]]['k'] != 'tuple' or
                     a.ty != fn.locals[len(args)] and self.T[a.ty]['e'] == [fn.locals[len(args)]]):
                return list(args[:-1]) + [a.f[0]]
            return args
        # rust-call: untuple the last argument
        if len(args) == 2 and isinstance(args[1], Adt) and fn.nargs == 1 + len(args[1].f):
            return [args[0]] + list(args[1].f)
        if len(args) >= 1 and isinstance(args[-1], Adt) and fn.nargs == len(args) - 1 + len(args[-1].f):
            return list(args[:-1]) + list(args[-1].f)
        if fn.nargs < len(args):
            return args[len(args) - fn.nargs:]
        return args

    def havoc_args(self, s, args, argtys):
        for a, t in zip(args, argtys or []):
            d = self.T[t]
            if d['k'] == 'ref' and d['mut'] and isinstance(a, Ref):
                self.store_path(s, a.cell, a.path, self.top(s, d['to']))

    # -- summaries of functions of one discrete scalar
    def scalar_summary(self, s, fn, arg):
        t = fn.locals[1]
        d = self.T[t]
        if not (d['k'] in ('char', 'bool') or d['k'] == 'int' and d['bits'] <= 8 or self.fieldless(t)):
            return None
        if isinstance(arg, Lin):
            a = arg.single()
            if a is None or a not in s.rng:
                return None
        elif isinstance(arg, ETop):
            a = arg.vs
        else:
            return None
        if r_size(s.rng[a]) == 1:
            return None
        sm = self._sums.get(fn.key)
        if sm is None:
            sm = self._sums[fn.key] = self.make_summary(fn, t) or False
        if not sm:
            return None
        out = []
        for st, x, v in sm:
            q = s.copy()
            try:
                m = {x: a}
                new = [y for y in st.rng if y not in m]
                for y in new:
                    m[y] = fresh_id()
                    q.rng[m[y]] = st.rng[y]
                for y, dd in st.dep.items():
                    for z, mm in dd.items():
                        q.add_dep(m[y], m[z], mm)
                nr = r_and(q.rng[a], st.rng[x])
                if not nr:
                    continue
                q.set_rng(a, nr)
                # relations narrow the new symbols
                for y, dd in st.dep.items():
                    for z, mm in dd.items():
                        if m[z] == a:
                            ok = r_of([w for w, rr in mm.items() if r_in(w, q.rng[m[y]]) and r_and(rr, nr)])
                            q.set_rng(m[y], ok)
                out.append((q, self.subst(v, m)))
            except Infeasible:
                continue
        return out

    def subst(self, v, m):
        if isinstance(v, Adt):
            return Adt(v.ty, v.v, tuple(self.subst(x, m) for x in v.f))
        if isinstance(v, ETop):
            return ETop(v.ty, m[v.vs])
        if isinstance(v, Lin):
            return sym(m[v.single()])
        if isinstance(v, Cond):
            return Cond('in', m[v.a], v.b)
        return v

    def simple_val(self, v):
        if isinstance(v, Adt):
            return all(self.simple_val(x) for x in v.f)
        if isinstance(v, Cond):
            return v.k == 'in'
        if isinstance(v, Lin):
            return v.single() is not None
        return isinstance(v, (ETop, bool, int)) or isinstance(v, StrV) and isinstance(v.base, str)

    def make_summary(self, fn, t):
        n0 = sum(o.ok + o.bad + o.und for o in self.obls.values())
        hooks, self.hooks = self.hooks, []
        mm, self.merge_min = self.merge_min, 0
        try:
            st = State()
            arg = self.top(st, t)
            if isinstance(arg, Cond):
                return None
            st.ghost['~arg'] = arg
            cur = getattr(self, 'cur', None)
            res = self.run_fn(st, fn, [arg])
            self.cur = cur
        finally:
            self.hooks = hooks
            self.merge_min = mm
        if sum(o.ok + o.bad + o.und for o in self.obls.values()) != n0:
            return None
        res = self.merge_returns(res, fn, 0)
        out = []
        for q, v in res:
            g = q.ghost['~arg']
            x = g.vs if isinstance(g, ETop) else g.single() if isinstance(g, Lin) else None
            if x is None or q.taint or not self.simple_val(v) or q.text or len(q.E) > 1 or not all(
                    isinstance(z, int) for z in ()):
                return None
            out.append((q, x, v))
        return out

    def any_return(self, s, fn, args, destty):
        """a call to a function already on the stack: any result, any effect on what it can write"""
        ent = s.ghost.get(('~ent', fn.key))
        for h in self.hooks:
            f = getattr(h, 'on_recursion', None)
            if f:
                f(self, s, fn, ent or (), args)
        self.recursions = getattr(self, 'recursions', 0) + 1
        for a, t in zip(args, fn.locals[1:]):
            d = self.T[t]
            if d['k'] == 'ref' and d['mut'] and isinstance(a, Ref):
                old = self.load_path(s, a.cell, a.path)
                self.store_path(s, a.cell, a.path, self.havoc_value(s, old, d['to']))
        return [(s, self.top(s, destty))]

    def havoc_value(self, s, v, t):
        """any value of type t that v may have become: iterators only advance, buffers only keep their kind"""
        if isinstance(v, It) and v.kind in ('ci', 'chars'):
            sv, pos = v.f
            n = s.num()
            s.assume_ge(lsub(n, pos))
            s.assume_ge(lsub(sv.hi, n))
            from models import add_bound
            add_bound(s, sv, n)
            return It(v.kind, v.ty, (sv, n))
        if isinstance(v, Adt) and t is not None and self.T[t]['k'] == 'adt' and self.T[t]['kind'] == 'struct':
            fs = self.T[t]['variants'][0]['f']
            if len(fs) == len(v.f):
                return Adt(v.ty, v.v, tuple(self.havoc_value(s, x, ft) for x, (_, ft) in zip(v.f, fs)))
        if isinstance(v, It):
            self.note_unmodelled(s, 'iterator changed by a recursive call')
            return v
        if t is None:
            return v
        return self.top(s, t)

    # call a value (closure / fn item / fn pointer) with a list of arguments
    def recursive(self, s, fn, args):
        """a call to a recursive function: its exits for every entry of this shape, by induction on the recursion"""
        R = self.recs.get(fn.key)
        if R is None:
            R = self.recs[fn.key] = Rec()
        if R.active:
            ent = s.ghost.get(('~ent', fn.key))
            for h in self.hooks:
                f = getattr(h, 'on_recursion', None)
                if f:
                    f(self, s, fn, ent or (), args)
            self.recursions = getattr(self, 'recursions', 0) + 1
        c = self.project(s, args)
        e = R.entries.get(c.key)
        if e is None or not subsumed(e.canon, c):
            st = join(self, [c] if e is None else [e.canon, c], 0 if e is None else e.cnt)
            if e is None:
                e = R.entries[c.key] = Entry()
            else:
                e.cnt += 1
                if e.cnt > 40:
                    raise Abort('no convergence of the entries of %s' % fn.name)
            vals = st.ghost.pop('~args')
            e.canon = self.project(st, vals)
            e.dirty = True
        if not R.active:
            R.active = True
            cur = getattr(self, 'cur', (fn, fn.line))
            try:
                self.solve(fn, R)
            finally:
                R.active = False
                self.cur = cur
        out = []
        for x in e.exits.values():
            r = self.instantiate(s, c, x, args)
            if r is not None:
                out.append(r)
        return out

    def project(self, s, vals):
        """the part of s a callee can see"""
        q = s.copy()
        q.frames = ()
        q.tags = ()
        for k in [k for k in q.ghost if isinstance(k, tuple) and k[0] == '~ent' or k in ('~args', '~ent0')]:
            del q.ghost[k]
        q.ghost['~args'] = tuple(vals)
        c = Canon(self, q)
        c.anon = True
        c.run()
        return c

    def solve(self, fn, R):
        rounds = 0
        while True:
            todo = [k for k, e in R.entries.items() if e.dirty]
            if not todo:
                return
            rounds += 1
            if rounds > 60:
                raise Abort('no convergence of the summary of %s' % fn.name)
            changed = False
            for k in todo:
                e = R.entries[k]
                e.dirty = False
                st = join(self, [e.canon], 0)
                c0 = Canon(self, st)
                c0.anon = True
                c0.run()
                vals = st.ghost['~args']
                st.ghost['~ent0'] = tuple(v for v, o in zip(c0.leaves, c0.sorts) if o == 'n')
                for q, v in self.run_fn(st, fn, list(vals)):
                    q.ghost['~ret'] = v
                    q.tags = ()
                    for g in [g for g in q.ghost if isinstance(g, tuple) and g[0] == '~ent']:
                        del q.ghost[g]
                    c = Canon(self, q)
                    c.anon = True
                    c.run()
                    x = e.exits.get(c.key)
                    if x is not None and subsumed(x[0], c):
                        continue
                    n = join(self, [c] if x is None else [x[0], c], 0 if x is None else x[1])
                    cn = Canon(self, n)
                    cn.anon = True
                    cn.run()
                    e.exits[c.key] = (cn, 0 if x is None else x[1] + 1)
                    if x is not None and x[1] > 40:
                        raise Abort('no convergence of the exits of %s' % fn.name)
                    changed = True
            if changed:
                for e in R.entries.values():
                    e.dirty = True

    def instantiate(self, s, c, x, args):
        """the state after a call from s (entry c) that ended in exit x"""
        X = join(self, [x[0]], 0)
        s = s.copy()
        for a, d in X.E.items():
            if a == ZERO:
                for b, k in d.items():
                    s.edge(ZERO, b, k)
            else:
                s.E[a] = dict(d)
        s._cache = None
        s.rng.update(X.rng)
        s.neg.update(X.neg)
        s.width.update(X.width)
        s.dep.update(X.dep)
        s.rdep.update(X.rdep)
        s.sums = {**s.sums, **X.sums}
        for t, T in X.text.items():
            o = s.text.get(t)
            if o is None:
                s.text[t] = T
                continue
            cs, bs = o.chars, o.bounds
            cs = cs + tuple(z for z in T.chars if z not in cs)
            bs = bs + tuple(b for b in T.bounds if b not in bs)
            s.text[t] = o.with_(chars=cs[-12:], bounds=bs[:4] + bs[4:][-10:])
        try:
            for a, b in zip((v for v, o in zip(c.leaves, c.sorts) if o == 'n'), X.ghost['~ent0']):
                d = lsub(a, b)
                if isinstance(d, Lin):
                    s.assume_eq(d)
                elif d != 0:
                    return None
            for t, T in X.text.items():
                o = s.text[t]
                d = lsub(o.len, T.len)
                if isinstance(d, Lin):
                    s.assume_eq(d)
                elif d != 0:
                    return None
        except Infeasible:
            return None
        m = {}

        def pair(a, b):
            if isinstance(a, Ref) and isinstance(b, Ref):
                if b.cell not in m:
                    m[b.cell] = a.cell
                    pair(s.cells.get(a.cell), X.cells.get(b.cell))
            elif isinstance(a, SliceV) and isinstance(b, SliceV):
                pair(a.ref, b.ref)
            elif isinstance(a, RefC) and isinstance(b, RefC):
                pair(a.val, b.val)
            elif isinstance(a, Adt) and isinstance(b, Adt) and len(a.f) == len(b.f):
                for p, q in zip(a.f, b.f):
                    pair(p, q)
            elif isinstance(a, (It,)) and isinstance(b, It):
                for p, q in zip(a.f, b.f):
                    pair(p, q)
        for a, b in zip(args, X.ghost['~args']):
            pair(a, b)
        for k, v in X.cells.items():
            s.cells[m.get(k, k)] = recell(v, m)
        keep = {k: v for k, v in s.ghost.items() if isinstance(k, tuple) and k[0] == '~ent' or k in ('~args', '~ent0')}
        s.ghost = {k: recell(v, m) for k, v in X.ghost.items() if k not in ('~args', '~ent0', '~ret')}
        s.ghost.update(keep)
        s.taint = s.taint | X.taint
        return s, recell(X.ghost['~ret'], m)

    def call_value(self, s, f, args, destty):
        if isinstance(f, (Ref, RefC)):
            v = f.val if isinstance(f, RefC) else self.load_path(s, f.cell, f.path)
        else:
            v = f
        if isinstance(v, FnV):
            return self.call(s, v.key, args, destty, None)
        if isinstance(v, (Ref, RefC)):
            return self.call_value(s, v, args, destty)
        if isinstance(v, Adt) and v.ty is not None and self.T[v.ty]['k'] == 'closure':
            key = self.T[v.ty]['key']
            fn = self.p.fns.get(key)
            if fn is not None:
                selfty = self.T[fn.locals[1]]
                if selfty['k'] == 'ref':
                    a0 = f if isinstance(f, (Ref, RefC)) else Ref(self.alloc(s, v))
                else:
                    a0 = v
                return self.run_fn(s, fn, [a0] + list(args))
        if isinstance(v, Adt) and v.ty is not None and self.T[v.ty]['k'] == 'fndef':
            return self.call(s, self.T[v.ty]['key'], args, destty, None)
        self.note_unmodelled(s, 'call of unknown value %r' % (v,))
        return [(s, self.top(s, destty) if destty is not None else Top(None))]

    # ------------------------------------------------------------- loop heads
    def canon(self, s, fn, bb, d):
        s.frames = s.frames + (FramePos(d, fn, bb, fn.live[bb], None),)
        try:
            c = Canon(self, s)
            c.run()
        finally:
            s.frames = s.frames[:d]
        return c

    def at_head(self, lst, fn, bb, d, inv):
        """merges the states waiting at a loop head with the invariants there; the ones to explore"""
        if self.keep_paths and self.unroll > 0:
            self.unroll -= len(lst)
            return lst
        groups = {}
        for s in lst:
            if any(inv_version(inv, t) for t in s.tags if t[0] == d):
                continue
            self.stats['heads'] += 1
            self.headsum[fn.key] = self.headsum.get(fn.key, 0) + 1
            self.headcount[fn.name, bb] = self.headcount.get((fn.name, bb), 0) + 1
            for h in self.hooks:
                h.at_head(self, s, fn, bb)
            c = self.canon(s, fn, bb, d)
            groups.setdefault(c.key, []).append((s, c))
        out = []
        table = inv.setdefault(bb, {})
        for key, grp in groups.items():
            ent = table.get(key)
            if ent is not None:
                grp = [(s, c) for s, c in grp if not subsumed(ent[1], c)]
            if not grp:
                continue
            fr = grp[0][0].frames
            tags = grp[0][0].tags
            for s, c in grp[1:]:
                tags = tuple(t for t in tags if t in s.tags)
            cs = [c for s, c in grp]
            if ent is None:
                new = join(self, cs, 0)
                cnt = 0
                if len(table) > 3000:
                    raise Abort('too many shapes at a loop head of %s: %d' % (fn.name, len(table)))
            else:
                self.stats['joins'] += 1
                new = join(self, [ent[1]] + cs, ent[2])
                cnt = ent[2] + 1
                if cnt > 60:
                    raise Abort('no convergence in %s' % fn.name)
            new.frames = fr
            ver = fresh_id()
            table[key] = [new, Canon_of(self, new, fn, bb, d), cnt, ver]
            r = new.copy()
            r.tags = tuple(t for t in tags if not (t[0] == d and t[1] == bb)) + ((d, bb, key, ver),)
            out.append(r)
        return out


class Rec:
    def __init__(self):
        self.entries = {}
        self.active = False


class Entry:
    def __init__(self):
        self.canon = None
        self.cnt = 0
        self.dirty = True
        self.exits = {}


def recell(v, m):
    """v with the cells it refers to renamed"""
    if not m:
        return v
    if isinstance(v, Ref):
        return Ref(m.get(v.cell, v.cell), v.path)
    if isinstance(v, RefC):
        return RefC(recell(v.val, m))
    if isinstance(v, SliceV):
        return SliceV(recell(v.ref, m), v.lo, v.hi)
    if isinstance(v, Adt):
        return Adt(v.ty, v.v, tuple(recell(x, m) for x in v.f))
    if isinstance(v, It):
        return It(v.kind, v.ty, tuple(recell(x, m) for x in v.f))
    if isinstance(v, VecV):
        return VecV(v.ety, v.len, tuple((j, recell(x, m)) for j, x in v.memo), recell(v.ghost, m))
    if isinstance(v, tuple):
        return tuple(recell(x, m) for x in v)
    return v


def inv_version(inv, t):
    """True when the invariant that state came from was superseded"""
    e = inv.get(t[1], {}).get(t[2])
    return e is not None and e[3] != t[3]


class Call:
    __slots__ = ('key', 'info', 'args', 'destty', 'argtys')

    def __init__(self, key, info, args, destty, argtys):
        self.key = key
        self.info = info
        self.args = args
        self.destty = destty
        self.argtys = argtys


def decide(st, c):
    """Concrete truth value of c in st, splitting the state when both are possible."""
    if isinstance(c, bool):
        return c
    if isinstance(c, int):
        return bool(c)
    if not isinstance(c, Cond):
        c = Cond('in', st.disc(BOOL).single(), ((1, 1),))
    t = st.test(c)
    if t is not None:
        return t
    raise_split(st, c)


def raise_split(st, c):
    a = st.assume(c, True)
    b = st.assume(c, False)
    if not a and not b:
        raise Infeasible()
    if c.k in ('ge', 'eq'):
        # what the zone cannot represent is remembered as such
        for l, val in ((a, True), (b, False)):
            for q in l:
                if q.test(c) is None:
                    q.facts['num', c.k, c.a] = val
    raise Split(a + b)


def choose(st, *conds):
    """Splits st so that exactly one refined copy per satisfiable condition is explored."""
    out = []
    for c in conds:
        out.extend(st.assume(c, True))
    return out


# ----------------------------------------------------------------- WTO order
def fn_order(fn):
    o = getattr(fn, '_order', None) if hasattr(fn, '__dict__') else None
    if fn.name in _ORD and _ORD[fn.name][0] is fn:
        return _ORD[fn.name][1]
    nodes = list(fn.rpo)
    res = []

    def scc(nodes):
        nodes = set(nodes)
        idx, low, st, on, out = {}, {}, [], set(), []
        cnt = [0]

        def go(root):
            stack = [(root, iter([x for x in fn.succ[root] if x in nodes]))]
            idx[root] = low[root] = cnt[0]
            cnt[0] += 1
            st.append(root)
            on.add(root)
            while stack:
                v, it = stack[-1]
                adv = False
                for w in it:
                    if w not in idx:
                        idx[w] = low[w] = cnt[0]
                        cnt[0] += 1
                        st.append(w)
                        on.add(w)
                        stack.append((w, iter([x for x in fn.succ[w] if x in nodes])))
                        adv = True
                        break
                    elif w in on:
                        low[v] = min(low[v], idx[w])
                if adv:
                    continue
                stack.pop()
                if stack:
                    low[stack[-1][0]] = min(low[stack[-1][0]], low[v])
                if low[v] == idx[v]:
                    comp = []
                    while True:
                        w = st.pop()
                        on.discard(w)
                        comp.append(w)
                        if w == v:
                            break
                    out.append(comp)
        for n in sorted(nodes, key=lambda b: fn.rpo[b]):
            if n not in idx:
                go(n)
        out.reverse()
        return out

    def rec(nodes):
        for comp in scc(nodes):
            if len(comp) == 1:
                res.append(comp[0])
            else:
                h = min(comp, key=lambda b: fn.rpo[b])
                res.append(h)
                rec([x for x in comp if x != h])
    rec(nodes)
    o = {b: i for i, b in enumerate(res)}
    _ORD[fn.name] = (fn, o)
    return o


_ORD = {}

from canon import Canon, Canon_of, subsumed, join  # noqa: E402
