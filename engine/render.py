"""Output events: what a Display / write path writes, piece by piece, and what it does after a failed write."""
from dom import *
from interp import decide
import graph, models


class Hook:
    """no-op analysis hook"""

    def on_payload(self, *a):
        pass

    def fresh_elem(self, *a):
        return None

    def on_elem_write(self, I, st, v, idx, old, new, g):
        return g

    def at_head(self, *a):
        pass


def deep(I, s, v):
    """follow references; returns (index of the element it is or None, value)"""
    last = None
    n = 6
    while n and isinstance(v, (Ref, RefC)):
        if isinstance(v, Ref):
            if v.path and isinstance(v.path[-1], tuple) and v.path[-1][0] == 'e':
                last = v.path[-1][1]
            v = I.load_path(s, v.cell, v.path)
        else:
            v = v.val
        n -= 1
    if last is None and id(v) in I.elemsrc and I.elemsrc[id(v)][0] is v:
        last = I.elemsrc[id(v)][1]
    return last, v


def fmt_impl(I, key):
    """the user's `fmt` behind Argument::new_display::<T>, through references"""
    seen = set()
    st = [key]
    while st:
        k = st.pop()
        if k in seen:
            continue
        seen.add(k)
        fn = I.p.fns.get(k)
        if fn is None:
            continue
        for x in graph.edges(I.p, k):
            d = I.p.callees[x]['def']
            if d.endswith('::fmt'):
                if I.p.callees[x]['crate'] in I.user:
                    return x
                st.append(x)
            elif d.endswith(('::new', '::to_string', '::spec_to_string')):
                st.append(x)
    return None


class Writes(Hook):
    """Splits every output call into pieces and hands each to `piece`; after a failed piece the state is marked."""
    expand = True

    def __init__(self):
        self.werr = []        # writes attempted after a failure
        self.nwrites = 0
        self.npieces = 0

    def payload(self, I, s, ty):
        """the error value of a failed write"""
        return I.top(s, ty)

    # override: returns a list of states (after the event), or [] to drop
    def piece(self, I, s, kind, val, extra):
        return [s]

    def on_write(self, I, s, c):
        name = c.info['def'].split('::')[-1]
        self.nwrites += 1
        if s.ghost.get('~failed'):
            I.oblige(s, 'write after a failed write', False, 'output is attempted after the sink failed')
        if len(c.args) < 2:
            return None
        if c.info['def'].endswith('Display>::fmt'):
            a = c.args[0]
        else:
            a = c.args[1]
        pieces = self.pieces_of(I, s, a)
        cur = [s]
        done = []
        d = I.T[c.destty]

        def err(st):
            if d['k'] != 'adt':
                return
            st.ghost['~failed'] = True
            done.append((st, models.res_err(I, c.destty, self.payload(I, st, d['variants'][1]['f'][0][1]))))
        for kind, val, extra in pieces:
            self.npieces += 1
            nxt = []
            for st in cur:
                if kind == 'user' and self.expand:
                    k = extra[1] and fmt_impl(I, extra[1])
                    if k is not None:
                        for q, r in I.call(st, k, [self.asref(I, st, val), Top(None)], self.ret_ty(I, k), None):
                            if isinstance(r, Adt):
                                if r.v == 0:
                                    nxt.append(q)
                                else:
                                    q.ghost['~failed'] = True
                                    done.append((q, models.res_err(I, c.destty, self.payload(
                                        I, q, d['variants'][1]['f'][0][1]))))
                            elif isinstance(r, ETop):
                                for b in q.assume(Cond('in', r.vs, ((0, 0),)), True):
                                    nxt.append(b)
                                for b in q.assume(Cond('in', r.vs, ((0, 0),)), False):
                                    err(b)
                            else:
                                nxt.append(q)
                        continue
                o = st.copy()
                err(o)
                nxt.extend(self.piece(I, st, kind, val, extra))
            cur = nxt
        for st in cur:
            done.append((st, models.res_ok(I, c.destty, I.top(st, d['variants'][0]['f'][0][1]))))
        return done

    def asref(self, I, s, v):
        n = 6
        while n and isinstance(v, Ref):
            x = I.load_path(s, v.cell, v.path)
            if not isinstance(x, (Ref, RefC)):
                return v
            v = x
            n -= 1
        while n and isinstance(v, RefC) and isinstance(v.val, (Ref, RefC)):
            v = v.val
            n -= 1
        if isinstance(v, (Ref, RefC)):
            return v
        return RefC(v)

    def ret_ty(self, I, k):
        return I.p.fns[k].locals[0]

    def pieces_of(self, I, s, a):
        if isinstance(a, FmtArgs):
            out = []
            for p in a.pieces:
                if isinstance(p, str):
                    out.append(('lit', p, None))
                else:
                    trait, val, (spec, key) = p
                    out.extend(self.classify(I, s, val, trait, spec, key))
            return out
        if isinstance(a, SliceV) and id(a.ref) in I.bytesrc:
            src = I.bytesrc[id(a.ref)][1]
            if a.lo == 0 and s.eq0(lsub(a.hi, lsub(src.hi, src.lo))) is True:
                return self.str_pieces(I, s, src, None)
            return [('other', a, None)]
        el, v = deep(I, s, a)
        if is_num(v):
            return [('char', v, None)]
        if isinstance(v, (StrV, StringV)):
            return self.str_pieces(I, s, v, el)
        return [('other', v, None)]

    def str_pieces(self, I, s, v, el):
        """the pieces a text was made from, or the text itself"""
        l = models.lit_of(v)
        if l is not None:
            return [('lit', l, None)]
        if isinstance(v, StrV):
            src = I.textsrc.get(v.base)
            if src and v.lo == 0 and s.eq0(lsub(v.hi, src[1])) is True:
                ps = src[0]
            else:
                return [('str', v, el)]
        else:
            ps = v.pieces
        out = []
        for p in ps:
            if isinstance(p, str):
                out.append(('lit', p, None))
            elif isinstance(p, StrV):
                out.extend(self.str_pieces(I, s, p, None))
            elif p[0] == 'chr':
                out.append(('char', p[1], None))
            elif p[0] == 'disp':
                out.extend(self.classify(I, s, p[1], 'Display', (), p[2]))
            elif p[0] == 'fmt' and isinstance(p[1], FmtArgs):
                out.extend(self.pieces_of(I, s, p[1]))
            else:
                return [('str', v, el)]
        return out

    def classify(self, I, s, val, trait, spec, key):
        el, v = deep(I, s, val)
        if trait != 'Display' or spec:
            return [('odd', v, (trait, key))]
        if isinstance(v, (StrV, StringV)):
            return self.str_pieces(I, s, v, el)
        if is_num(v):
            if isinstance(v, Lin) and v.single() in s.rng:
                return [('char', v, el)]
            t = self.argty(I, key)
            if t == 'char':
                return [('char', v, el)]
            return [('num', v, el)]
        if el is not None:
            return [('elem', el, (v, key))]
        return [('user', val, (v, key))]

    def argty(self, I, key):
        info = I.p.callees.get(key)
        ta = info.get('targs') or []
        for t in ta:
            if isinstance(t, int):
                return I.p.tystr(t)
        return None
