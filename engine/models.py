"""Abstract models of the standard library (by callee definition path)."""
from dom import *
from interp import decide, raise_split, Call

M = {}


def model(*names):
    def d(f):
        for n in names:
            M[n] = f
        return f
    return d


def opt_none(I, t):
    return Adt(t, I.variant_index(t, 'None'), ())


def opt_some(I, t, v):
    return Adt(t, I.variant_index(t, 'Some'), (v,))


def res_ok(I, t, v):
    return Adt(t, I.variant_index(t, 'Ok'), (v,))


def res_err(I, t, v):
    return Adt(t, I.variant_index(t, 'Err'), (v,))


def unit(I, t):
    return Adt(t, 0, ())


def deref(I, s, r):
    if isinstance(r, Ref):
        return I.load_path(s, r.cell, r.path)
    if isinstance(r, RefC):
        return r.val
    if isinstance(r, (StrV, SliceV)):
        return r
    return r


def setref(I, s, r, v):
    if isinstance(r, Ref):
        I.store_path(s, r.cell, r.path, v)


def peel(I, s, v, n=4):
    """follow references to a str / slice / vec / scalar"""
    while n and isinstance(v, (Ref, RefC)):
        v = deref(I, s, v)
        n -= 1
    return v


def fresh_bool(s):
    return Cond('in', s.disc(BOOL).single(), ((1, 1),))


# ---------------------------------------------------------------- text access
def known(s, r):
    return r_size(r) == 1


def text_len(s, sv):
    if isinstance(sv.base, str):
        return len(sv.base.encode())
    return s.text[sv.base].len


def known_ascii(s, c):
    r = s.rng[c.single()] if isinstance(c, Lin) else ((c, c),)
    return r[-1][1] < 0x80


def find_char(s, tid, pos):
    """char entry at pos, if one is known"""
    T = s.text[tid]
    for e in T.chars:
        if e[0] is None:
            if known_ascii(s, e[1]) and s.eq0(ladd(lsub(e[2], pos), -1)) is True:
                return e
        elif s.eq0(lsub(e[0], pos)) is True:
            return e
    return None


def read_char(I, s, sv, pos):
    """the character starting at byte pos of the text of sv (pos < hi, boundary): (char, next)"""
    if isinstance(sv.base, str):
        b = sv.base.encode()
        if isinstance(pos, Lin):
            cand = [i for i in range(len(b)) if (b[i] & 0xC0) != 0x80 and s.eq0(lsub(pos, i)) is not False]
            out = []
            for i in cand:
                out.extend(s.assume(Cond('eq', lsub(pos, i)), True))
            if len(cand) == 1:
                pos = cand[0]
            else:
                raise Split(out)
        ch = b[pos:].decode()[0]
        return ord(ch), pos + len(ch.encode())
    e = find_char(s, sv.base, pos)
    if e is not None and e[2] is not None:
        return e[1], e[2]
    T = s.text[sv.base]
    if e is not None:
        c = e[1]
        r = s.rng[c.single()]
    else:
        c = s.disc(CHAR)
        r = CHAR
    lo, hi = width_range(r)
    if lo == hi:
        n = ladd(pos, lo)
    else:
        n = s.num()
        s.assume_ge(ladd(lsub(n, pos), -lo))
        s.assume_ge(lsub(ladd(pos, hi), n))
        s.width[c.single()] = lsub(n, pos)
    s.assume_ge(lsub(T.len, n))
    chars = tuple(x for x in T.chars if x is not e) + ((pos, c, n),)
    if len(chars) > 20:
        chars = chars[-20:]
    s.text[sv.base] = T.with_(chars=chars)
    return c, n


def is_boundary(I, s, sv, pos):
    """True if byte offset pos of the text is certainly a character boundary; None unknown"""
    if isinstance(sv.base, str):
        b = sv.base.encode()
        if all(x < 128 for x in b):
            return True
        if not isinstance(pos, Lin):
            return pos >= len(b) or (b[pos] & 0xC0) != 0x80
        return None
    T = s.text[sv.base]
    if pos == 0 or s.eq0(lsub(pos, T.len)) is True:
        return True
    for b in T.bounds:
        if s.eq0(lsub(pos, b)) is True:
            return True
    for p, c, n in T.chars:
        if p is not None and s.eq0(lsub(pos, p)) is True:
            return True
        if n is not None:
            if s.eq0(lsub(pos, n)) is True:
                return True
            if known_ascii(s, c) and s.eq0(ladd(lsub(n, pos), -1)) is True:
                return True
    # one past an ASCII character whose end is not recorded
    for p, c, n in T.chars:
        if n is None and p is not None:
            if known_ascii(s, c) and s.eq0(lsub(pos, ladd(p, 1))) is True:
                return True
    return None


def add_bound(s, sv, pos):
    if isinstance(sv.base, str):
        return
    T = s.text[sv.base]
    if pos in T.bounds:
        return
    b = T.bounds + (pos,)
    if len(b) > 14:
        b = b[:4] + b[-10:]
    s.text[sv.base] = T.with_(bounds=b)


# ------------------------------------------------------------------ str / chars
@model('core::str::<impl str>::chars')
def str_chars(I, s, c):
    v = peel(I, s, c.args[0])
    if not isinstance(v, StrV):
        return NotImplemented
    return It('chars', c.destty, (v, v.lo))


@model('core::str::<impl str>::char_indices')
def str_char_indices(I, s, c):
    v = peel(I, s, c.args[0])
    if not isinstance(v, StrV):
        return NotImplemented
    return It('ci', c.destty, (v, v.lo))


def ci_next(I, s, c):
    r = c.args[0]
    it = deref(I, s, r)
    if not isinstance(it, It):
        I.note_unmodelled(s, 'iterator state %r' % (it,))
        return I.top(s, c.destty)
    sv, pos = it.f
    if decide(s, Cond('ge', lsub(pos, sv.hi)) if isinstance(lsub(pos, sv.hi), Lin) else lsub(pos, sv.hi) >= 0):
        for h in I.hooks:
            f = getattr(h, 'on_char_end', None)
            if f:
                f(I, s, it)
        return opt_none(I, c.destty)
    ch, n = read_char(I, s, sv, pos)
    s.assume_ge(lsub(sv.hi, n))
    s.check(n)
    for h in I.hooks:
        f = getattr(h, 'pre_char', None)     # may split the state
        if f:
            f(I, s, it, pos, ch, n)
    setref(I, s, r, It(it.kind, it.ty, (sv, n)))
    for h in I.hooks:
        f = getattr(h, 'on_char', None)
        if f:
            f(I, s, it, pos, ch, n)
    if it.kind == 'ci':
        tt = I.T[c.destty]['args'][0]
        return opt_some(I, c.destty, Adt(tt, 0, (lsub(pos, sv.lo), ch)))
    return opt_some(I, c.destty, ch)


M['<std::str::Chars<\'a> as std::iter::Iterator>::next'] = ci_next
M['<std::str::CharIndices<\'a> as std::iter::Iterator>::next'] = ci_next


@model("<std::str::Chars<'a> as std::clone::Clone>::clone", "<std::str::CharIndices<'a> as std::clone::Clone>::clone",
       '<std::string::String as std::clone::Clone>::clone')
def clone_val(I, s, c):
    return deref(I, s, c.args[0])


@model('core::str::<impl str>::len', 'std::string::String::len')
def str_len(I, s, c):
    v = peel(I, s, c.args[0])
    if isinstance(v, StrV):
        return lsub(v.hi, v.lo)
    if isinstance(v, StringV):
        return v.len
    return NotImplemented


@model('core::str::<impl str>::is_empty', 'std::string::String::is_empty')
def str_is_empty(I, s, c):
    v = peel(I, s, c.args[0])
    n = lsub(v.hi, v.lo) if isinstance(v, StrV) else v.len if isinstance(v, StringV) else None
    if n is None:
        return NotImplemented
    return n == 0 if not isinstance(n, Lin) else Cond('eq', n)


def cge(L):
    return Cond('ge', L) if isinstance(L, Lin) else L >= 0


def ceq(L):
    return Cond('eq', L) if isinstance(L, Lin) else L == 0


def str_slice(I, s, v, lo, hi):
    """v[lo..hi] with lo/hi relative (None = open); obligations on order, range and boundaries"""
    n = lsub(v.hi, v.lo)
    a = 0 if lo is None else lo
    b = n if hi is None else hi
    t = s.test(c_and(cge(lsub(b, a)), c_and(cge(lsub(n, b)), cge(a))))
    I.oblige(s, 'str slice range', t, 'slice %s..%s may be out of range (length %s)' % (a, b, n))
    if t is not True:
        if t is False:
            raise Infeasible()
        s.assume_ge(lsub(b, a))
        s.assume_ge(lsub(n, b))
        s.check(b)
        s.check(a)
    A, B = ladd(v.lo, a), ladd(v.lo, b)
    for q, p in (('start', A), ('end', B)):
        if q == 'start' and lo is None or q == 'end' and hi is None:
            continue
        t = is_boundary(I, s, v, p)
        I.oblige(s, 'str slice boundary', t, '%s of the slice may not be a character boundary' % q)
        add_bound(s, v, p)
    return StrV(v.base, A, B)


def range_bounds(I, s, r):
    """a Range* value -> (lo, hi) or None"""
    d = I.T[r.ty] if isinstance(r, Adt) and r.ty is not None else None
    if d is None or d['k'] != 'adt':
        return None
    n = d['name'].split('::')[-1]
    if n == 'Range':
        return r.f[0], r.f[1]
    if n == 'RangeTo':
        return None, r.f[0]
    if n == 'RangeFrom':
        return r.f[0], None
    if n == 'RangeFull':
        return None, None
    if n == 'RangeInclusive':
        return r.f[0], ladd(r.f[1], 1)
    if n == 'RangeToInclusive':
        return None, ladd(r.f[0], 1)
    return None


@model('std::ops::RangeInclusive::<Idx>::new')
def range_incl(I, s, c):
    return Adt(c.destty, 0, (c.args[0], c.args[1], False))


@model('core::str::traits::<impl std::ops::Index<I> for str>::index',
       'std::string::<impl std::ops::Index<I> for std::string::String>::index',
       '<std::string::String as std::ops::Index<I>>::index')
def str_index(I, s, c):
    v = peel(I, s, c.args[0])
    rb = range_bounds(I, s, c.args[1])
    if rb is None or not isinstance(v, StrV):
        I.note_unmodelled(s, c.info['def'])
        return I.top(s, c.destty)
    return str_slice(I, s, v, rb[0], rb[1])


@model('core::str::<impl str>::get')
def str_get(I, s, c):
    v = peel(I, s, c.args[0])
    rb = range_bounds(I, s, c.args[1])
    if rb is None or not isinstance(v, StrV):
        return NotImplemented
    n = lsub(v.hi, v.lo)
    a = 0 if rb[0] is None else rb[0]
    b = n if rb[1] is None else rb[1]
    ok = c_and(cge(lsub(b, a)), cge(lsub(n, b)))
    if not decide(s, ok):
        return opt_none(I, c.destty)
    A, B = ladd(v.lo, a), ladd(v.lo, b)
    if is_boundary(I, s, v, A) is True and is_boundary(I, s, v, B) is True:
        return opt_some(I, c.destty, StrV(v.base, A, B))
    o = s.copy()
    add_bound(s, v, A)
    add_bound(s, v, B)
    return [(s, opt_some(I, c.destty, StrV(v.base, A, B))), (o, opt_none(I, c.destty))]


def pat_test(I, s, p, ch):
    """does character ch match the pattern p (char / array / slice of chars)? Cond or None"""
    p = peel(I, s, p)
    if is_num(p):
        return ceq_char(s, ch, p)
    if isinstance(p, Adt) and all(is_num(x) for x in p.f):
        r = False
        for x in p.f:
            r = c_or(r, ceq_char(s, ch, x))
        return r
    if isinstance(p, SliceV):
        return pat_test(I, s, p.ref, ch)
    return None


def ceq_char(s, a, b):
    L = lsub(a, b)
    if not isinstance(L, Lin):
        return L == 0
    if len(L.t) == 1 and abs(L.t[0][1]) == 1 and L.t[0][0] in s.rng:
        v = -L.c // L.t[0][1]
        return Cond('in', L.t[0][0], ((v, v),))
    return Cond('eq', L)


@model('core::str::<impl str>::starts_with', 'core::str::<impl str>::strip_prefix')
def str_starts_with(I, s, c):
    strip = c.info['def'].endswith('strip_prefix')
    v = peel(I, s, c.args[0])
    p = peel(I, s, c.args[1])
    if not isinstance(v, StrV):
        I.note_unmodelled(s, c.info['def'])
        return I.top(s, c.destty)

    def done(st, yes, end=None):
        if not strip:
            return yes
        return opt_some(I, c.destty, StrV(v.base, end, v.hi)) if yes else opt_none(I, c.destty)
    if isinstance(p, StrV) and isinstance(p.base, str) and not isinstance(p.lo, Lin) and not isinstance(p.hi, Lin):
        lit = p.base.encode()[p.lo:p.hi].decode()
    elif is_num(p) or pat_test(I, s, p, 0) is not None:
        lit = [p]
    else:
        I.note_unmodelled(s, c.info['def'])
        return I.top(s, c.destty)
    pos = v.lo
    for x in lit:
        if decide(s, cge(lsub(pos, v.hi))):
            return done(s, False)
        ch, n = read_char(I, s, v, pos)
        t = ceq_char(s, ch, ord(x)) if isinstance(x, str) else pat_test(I, s, x, ch)
        if not decide(s, t):
            return done(s, False)
        w = len(x.encode()) if isinstance(x, str) else None
        if w is not None:
            s.assume_eq(lsub(lsub(n, pos), w))
            n = ladd(pos, w)
        s.assume_ge(lsub(v.hi, n))
        s.check(n)
        pos = n
    return done(s, True, pos)


@model('core::str::<impl str>::ends_with', 'core::str::<impl str>::contains')
def str_contains(I, s, c):
    return fresh_bool(s)


@model('core::str::<impl str>::trim', 'core::str::<impl str>::trim_start', 'core::str::<impl str>::trim_end',
       'core::str::<impl str>::trim_matches', 'core::str::<impl str>::trim_start_matches',
       'core::str::<impl str>::trim_end_matches')
def str_trim(I, s, c):
    v = peel(I, s, c.args[0])
    if not isinstance(v, StrV):
        I.note_unmodelled(s, c.info['def'])
        return I.top(s, c.destty)
    n = c.info['def'].split('::')[-1]
    lo, hi = v.lo, v.hi
    if 'end' not in n:
        lo = s.num(0)
        s.assume_ge(lsub(lo, v.lo))
        s.assume_ge(lsub(v.hi, lo))
        add_bound(s, v, lo)
        s.check(lo)
    if 'start' not in n:
        hi = s.num(0)
        s.assume_ge(lsub(v.hi, hi))
        s.assume_ge(lsub(hi, lo))
        add_bound(s, v, hi)
        s.check(hi)
    return StrV(v.base, lo, hi)


@model('core::str::<impl str>::to_lowercase', 'core::str::<impl str>::to_uppercase', 'std::str::<impl str>::to_lowercase',
       'std::str::<impl str>::to_uppercase', 'std::str::<impl str>::to_ascii_lowercase',
       'std::str::<impl str>::to_ascii_uppercase', 'alloc::str::<impl str>::to_lowercase',
       'alloc::str::<impl str>::to_uppercase', 'alloc::str::<impl str>::to_ascii_lowercase',
       'alloc::str::<impl str>::to_ascii_uppercase', 'alloc::str::<impl str>::replace', 'std::str::<impl str>::replace')
def str_transformed(I, s, c):
    l = lit_of(peel(I, s, c.args[0])) if c.args else None
    f = {'to_ascii_lowercase': str.lower, 'to_ascii_uppercase': str.upper, 'to_lowercase': str.lower,
         'to_uppercase': str.upper}.get(c.info['def'].split('::')[-1])
    if l is not None and l.isascii() and f:
        l = f(l)
        return StringV((l,), len(l))
    t = I.new_text(s)
    return StringV((t,), s.text[t.base].len) if isinstance(t, StrV) else I.top(s, c.destty)


@model('core::str::<impl str>::find', 'core::str::<impl str>::rfind')
def str_find(I, s, c):
    v = peel(I, s, c.args[0])
    if not isinstance(v, StrV):
        return I.top(s, c.destty)
    o = s.copy()
    k = s.num(0)
    n = lsub(v.hi, v.lo)
    out = [(o, opt_none(I, c.destty))]
    try:
        s.assume_ge(ladd(lsub(n, k), -1))
        p = ladd(v.lo, k)
        s.check(k)
        add_bound(s, v, p)
        p2 = peel(I, s, c.args[1])
        if is_num(p2) and isinstance(v.base, int):
            ch, nx = read_char(I, s, v, p)
            for q in s.assume(ceq_char(s, ch, p2), True):
                out.append((q, opt_some(I, c.destty, k)))
        else:
            out.append((s, opt_some(I, c.destty, k)))
    except Infeasible:
        pass
    return out


def str_parts(I, s, v):
    return v if isinstance(v, StrV) else None


@model('core::str::traits::<impl std::cmp::PartialEq for str>::eq')
def str_eq(I, s, c):
    a, b = peel(I, s, c.args[0]), peel(I, s, c.args[1])
    return str_equal(I, s, a, b)


@model('core::str::<impl str>::eq_ignore_ascii_case')
def str_eq_ic(I, s, c):
    a, b = peel(I, s, c.args[0]), peel(I, s, c.args[1])
    la, lb = lit_of(a), lit_of(b)
    if la is not None and lb is not None:
        return la.lower() == lb.lower()
    if la is not None:
        a, lb = b, la
    if not isinstance(a, StrV) or isinstance(a.base, str) or lb is None or not lb.isascii():
        return fresh_bool(s)
    if not decide(s, ceq(ladd(lsub(a.hi, a.lo), -len(lb)))):
        return False
    pos = a.lo
    for x in lb:
        ch, nx = read_char(I, s, a, pos)
        if not decide(s, char_in(s, ch, r_of(sorted({ord(x.lower()), ord(x.upper())})))):
            return False
        pos = ladd(pos, 1)
    return True


def lit_of(v):
    if isinstance(v, StrV) and isinstance(v.base, str) and not isinstance(v.lo, Lin) and not isinstance(v.hi, Lin):
        return v.base.encode()[v.lo:v.hi].decode()
    if isinstance(v, StringV) and all(isinstance(p, str) for p in v.pieces):
        return ''.join(v.pieces)
    return None


def str_equal(I, s, a, b):
    la, lb = lit_of(a), lit_of(b)
    if la is not None and lb is not None:
        return la == lb
    if la is not None:
        a, b, la, lb = b, a, lb, la
    if isinstance(a, StrV) and isinstance(b, StrV) and a.base == b.base:
        if a.lo == b.lo and a.hi == b.hi:
            return True
    if not isinstance(a, StrV) or isinstance(a.base, str) or lb is None:
        return fresh_bool(s)
    # text slice against a literal: same length and same characters
    n = lsub(a.hi, a.lo)
    w = len(lb.encode())
    if not decide(s, ceq(ladd(n, -w))):
        return False
    pos = a.lo
    for x in lb:
        ch, nx = read_char(I, s, a, pos)
        if not decide(s, ceq_char(s, ch, ord(x))):
            return False
        s.assume_eq(ladd(lsub(nx, pos), -len(x.encode())))
        pos = ladd(pos, len(x.encode()))
    return True


@model('std::str::from_utf8', 'core::str::from_utf8')
def from_utf8(I, s, c):
    v = c.args[0]
    o = s.copy()
    t = I.new_text(s)
    if isinstance(v, SliceV):
        n = lsub(v.hi, v.lo)
        T = s.text[t.base]
        s.assume_eq(lsub(T.len, n))
    d = I.T[c.destty]
    ety = d['variants'][1]['f'][0][1]
    return [(s, res_ok(I, c.destty, t)), (o, res_err(I, c.destty, I.top(o, ety)))]


# ------------------------------------------------------------------ char
LETTERS = ((65, 90), (97, 122))
NONASCII = ((128, 0xD7FF), (0xE000, 0x10FFFF))
WS = r_of(list(range(9, 14)) + [32, 0x85, 0xA0, 0x1680] + list(range(0x2000, 0x200B)) +
          [0x2028, 0x2029, 0x202F, 0x205F, 0x3000])


def char_in(s, ch, r):
    if not isinstance(ch, Lin):
        return r_in(ch, r)
    return Cond('in', ch.single(), r)


def char_pred(ascii_part, na=None):
    """ascii_part exact; for other characters unknown (na None) or exactly na"""
    def h(I, s, c):
        ch = peel(I, s, c.args[0])
        if not is_num(ch) or (isinstance(ch, Lin) and (ch.single() is None or ch.single() not in s.rng)):
            return fresh_bool(s)
        if na is not None:
            return char_in(s, ch, r_or(ascii_part, na))
        if isinstance(ch, Lin):
            nonascii = Cond('in', ch.single(), NONASCII)
            if s.test(nonascii) is False:
                return char_in(s, ch, ascii_part)
            return c_or(char_in(s, ch, ascii_part),
                        c_and(nonascii, Cond('fact', (c.info['def'], ch.single()))))
        if ch < 128:
            return r_in(ch, ascii_part)
        return fresh_bool(s)
    return h


P = 'std::char::methods::<impl char>::'
DIG = ((48, 57),)
M[P + 'is_alphabetic'] = char_pred(LETTERS)
M[P + 'is_alphanumeric'] = char_pred(r_or(LETTERS, DIG))
M[P + 'is_numeric'] = char_pred(DIG)
M[P + 'is_whitespace'] = char_pred(WS, WS)
M[P + 'is_control'] = char_pred(((0, 31), (127, 127)), ((128, 159),))
M[P + 'is_ascii_control'] = char_pred(((0, 31), (127, 127)), ())
M[P + 'is_ascii_whitespace'] = char_pred(((9, 10), (12, 13), (32, 32)), ())
M[P + 'is_ascii_digit'] = char_pred(DIG, ())
M[P + 'is_ascii_alphabetic'] = char_pred(LETTERS, ())
M[P + 'is_ascii_alphanumeric'] = char_pred(r_or(LETTERS, DIG), ())
M[P + 'is_ascii_hexdigit'] = char_pred(((48, 57), (65, 70), (97, 102)), ())
M[P + 'is_ascii_punctuation'] = char_pred(((33, 47), (58, 64), (91, 96), (123, 126)), ())
M[P + 'is_ascii_uppercase'] = char_pred(((65, 90),), ())
M[P + 'is_ascii_lowercase'] = char_pred(((97, 122),), ())
M[P + 'is_ascii_graphic'] = char_pred(((33, 126),), ())
M[P + 'is_ascii'] = char_pred(((0, 127),), ())


@model(P + 'len_utf8')
def len_utf8(I, s, c):
    ch = peel(I, s, c.args[0])
    if not isinstance(ch, Lin):
        return len(chr(ch).encode())
    x = ch.single()
    w = s.width.get(x)
    if w is not None:
        return w
    lo, hi = width_range(s.rng[x])
    if lo == hi:
        return lo
    w = s.num(lo, hi)
    s.width[x] = w
    return w


# ------------------------------------------------------------------ Option-ish std panics
def panic_model(kind):
    def h(I, s, c):
        I.oblige(s, kind, None, 'panic reachable: ' + c.info['def'])
        return []
    return h


for n in ('core::panicking::panic', 'core::panicking::panic_fmt', 'std::rt::panic_fmt', 'core::panicking::panic_nounwind',
          'core::panicking::panic_nounwind_fmt', 'core::panicking::assert_failed', 'core::panicking::unreachable_default_msg',
          'core::panicking::panic_explicit', 'core::panicking::panic_const::panic_const_add_overflow',
          'core::panicking::panic_display', 'core::panicking::unreachable_display', 'core::panicking::panic_str_2015',
          'std::rt::begin_panic', 'core::panicking::panic_bounds_check', 'core::panicking::assert_failed_inner',
          'std::panicking::begin_panic'):
    M[n] = panic_model('panic')
for n in ('std::option::unwrap_failed', 'core::option::unwrap_failed', 'std::option::expect_failed',
          'core::option::expect_failed', 'std::result::unwrap_failed', 'core::result::unwrap_failed'):
    M[n] = panic_model('unwrap')
for n in ('core::slice::index::slice_index_fail', 'core::slice::index::slice_start_index_len_fail',
          'core::slice::index::slice_end_index_len_fail', 'core::slice::index::slice_index_order_fail',
          'core::str::slice_error_fail', 'alloc::raw_vec::handle_error', 'alloc::raw_vec::capacity_overflow'):
    M[n] = panic_model('index')


# ------------------------------------------------------------------ Vec and slices
def vec_ref(I, s, r):
    v = deref(I, s, r)
    return v if isinstance(v, VecV) else None


@model('std::vec::Vec::<T>::new', 'std::vec::Vec::<T>::with_capacity', 'std::vec::Vec::<T, A>::new_in')
def vec_new(I, s, c):
    return VecV(I.T[c.destty]['args'][0], 0)


@model('<std::vec::Vec<T> as std::default::Default>::default')
def vec_default(I, s, c):
    return VecV(I.T[c.destty]['args'][0], 0)


@model('std::vec::from_elem')
def vec_from_elem(I, s, c):
    v = VecV(I.T[c.destty]['args'][0], c.args[1])
    return v


def hookg(I, name, s, *a):
    g = a[-1]
    for h in I.hooks:
        f = getattr(h, name, None)
        if f:
            g = f(I, s, *a[:-1], g)
    return g


@model('std::vec::Vec::<T, A>::push')
def vec_push(I, s, c):
    v = vec_ref(I, s, c.args[0])
    if v is None:
        return unit(I, c.destty)
    x = c.args[1]
    g = hookg(I, 'on_push', s, v, x, v.ghost)
    n = ladd(v.len, 1)
    # capacity can never exceed isize::MAX bytes: a longer vector cannot exist
    memo = (v.memo + ((v.len, x),))[-6:] if I.T[v.ety]['k'] != 'int' else ()
    setref(I, s, c.args[0], VecV(v.ety, n, memo, g))
    return unit(I, c.destty)


@model('std::vec::Vec::<T, A>::pop')
def vec_pop(I, s, c):
    v = vec_ref(I, s, c.args[0])
    if v is None:
        return I.top(s, c.destty)
    if decide(s, ceq(v.len)):
        return opt_none(I, c.destty)
    n = ladd(v.len, -1)
    s.assume_ge(n)
    x, nc = I.elem(s, v, n)
    v = nc or v
    g = hookg(I, 'on_pop', s, v, x, v.ghost)
    memo = tuple((j, e) for j, e in v.memo if s.test(cge(ladd(lsub(n, j), -1))) is True)
    setref(I, s, c.args[0], VecV(v.ety, n, memo, g))
    return opt_some(I, c.destty, x)


@model('std::vec::Vec::<T, A>::len', 'core::slice::<impl [T]>::len')
def vec_len(I, s, c):
    v = peel(I, s, c.args[0])
    return I.len_of(s, v)


@model('std::vec::Vec::<T, A>::is_empty', 'core::slice::<impl [T]>::is_empty')
def vec_is_empty(I, s, c):
    v = peel(I, s, c.args[0])
    return ceq(I.len_of(s, v))


@model('std::vec::Vec::<T, A>::clear')
def vec_clear(I, s, c):
    v = vec_ref(I, s, c.args[0])
    if v is not None:
        setref(I, s, c.args[0], VecV(v.ety, 0, (), hookg(I, 'on_clear', s, v, v.ghost)))
    return unit(I, c.destty)


@model('std::vec::Vec::<T, A>::truncate')
def vec_truncate(I, s, c):
    v = vec_ref(I, s, c.args[0])
    if v is None:
        return unit(I, c.destty)
    k = c.args[1]
    if decide(s, cge(lsub(k, v.len))):
        return unit(I, c.destty)
    memo = tuple((j, e) for j, e in v.memo if s.test(cge(ladd(lsub(k, j), -1))) is True)
    setref(I, s, c.args[0], VecV(v.ety, k, memo, hookg(I, 'on_truncate' if any(hasattr(h, 'on_truncate') for h in I.hooks) else 'on_havoc',
                                                              s, v, v.ghost)))
    return unit(I, c.destty)


@model('std::vec::Vec::<T, A>::insert')
def vec_insert(I, s, c):
    v = vec_ref(I, s, c.args[0])
    if v is None:
        return unit(I, c.destty)
    t = s.test(cge(lsub(v.len, c.args[1])))
    I.oblige(s, 'Vec::insert index', t, 'insertion index may be past the end')
    if t is not True:
        s.assume_ge(lsub(v.len, c.args[1]))
        s.check(v.len)
    g = hookg(I, 'on_insert', s, v, c.args[1], c.args[2], v.ghost)
    setref(I, s, c.args[0], VecV(v.ety, ladd(v.len, 1), ((c.args[1], c.args[2]),), g))
    return unit(I, c.destty)


@model('std::vec::Vec::<T, A>::remove', 'std::vec::Vec::<T, A>::swap_remove')
def vec_remove(I, s, c):
    v = vec_ref(I, s, c.args[0])
    if v is None:
        return I.top(s, c.destty)
    t = s.test(cge(ladd(lsub(v.len, c.args[1]), -1)))
    I.oblige(s, 'Vec::remove index', t, 'removal index may be past the end')
    if t is not True:
        if t is False:
            raise Infeasible()
        s.assume_ge(ladd(lsub(v.len, c.args[1]), -1))
        s.check(v.len)
    x, nc = I.elem(s, v, c.args[1])
    v = nc or v
    g = hookg(I, 'on_remove', s, v, c.args[1], x, v.ghost)
    setref(I, s, c.args[0], VecV(v.ety, ladd(v.len, -1), (), g))
    return x


@model('<std::vec::Vec<T, A> as std::ops::Deref>::deref', '<std::vec::Vec<T, A> as std::ops::DerefMut>::deref_mut',
       '<std::vec::Vec<T, A> as std::convert::AsMut<[T]>>::as_mut', 'std::vec::Vec::<T, A>::as_slice',
       'std::vec::Vec::<T, A>::as_mut_slice', '<std::vec::Vec<T, A> as std::convert::AsRef<[T]>>::as_ref')
def vec_deref(I, s, c):
    v = deref(I, s, c.args[0])
    if isinstance(v, VecV):
        return SliceV(c.args[0], 0, v.len)
    if isinstance(v, SliceV):
        return v
    return I.top(s, c.destty)


@model('<std::string::String as std::ops::Deref>::deref', 'std::string::String::as_str',
       '<std::string::String as std::convert::AsRef<str>>::as_ref', '<std::string::String as std::borrow::Borrow<str>>::borrow')
def string_deref(I, s, c):
    v = deref(I, s, c.args[0])
    return string_text(I, s, v)


def string_text(I, s, v):
    lit = lit_of(v)
    if lit is not None:
        return StrV(lit, 0, len(lit.encode()))
    if isinstance(v, StringV) and len(v.pieces) == 1 and isinstance(v.pieces[0], StrV):
        return v.pieces[0]
    t = I.new_text(s)
    if isinstance(v, StringV):
        s.assume_eq(lsub(s.text[t.base].len, v.len))
        I.textsrc[t.base] = (v.pieces, s.text[t.base].len)
    return t


@model('core::str::<impl str>::as_bytes', 'std::string::String::as_bytes')
def str_as_bytes(I, s, c):
    v = peel(I, s, c.args[0])
    if isinstance(v, StringV):
        v = string_text(I, s, v)
    if not isinstance(v, StrV):
        return NotImplemented
    n = lsub(v.hi, v.lo)
    b = I.T[I.T[c.destty]['to']]['e']
    r = RefC(VecV(b, n))
    I.bytesrc[id(r)] = (r, v)
    return SliceV(r, 0, n)


@model('std::char::methods::<impl char>::encode_utf8')
def encode_utf8(I, s, c):
    ch = c.args[0]
    t = I.new_text(s)
    n = len_utf8(I, s, c)
    s.assume_eq(lsub(s.text[t.base].len, n))
    I.textsrc[t.base] = ((('chr', ch),), s.text[t.base].len)
    return t


def seq_index(I, s, cont, ref, base, n, idx, destty):
    """index obligation, returns a reference to the element"""
    t = s.test(c_and(cge(idx), cge(ladd(lsub(n, idx), -1))))
    I.oblige(s, 'index', t, 'index %s may be out of bounds (length %s)' % (idx, n))
    if t is not True:
        if t is False:
            raise Infeasible()
        s.assume_ge(ladd(lsub(n, idx), -1))
        s.check(n)
        s.check(idx)
    return elem_ref(I, s, ref, ladd(base, idx))


def elem_ref(I, s, ref, j):
    if isinstance(ref, RefC):
        x, _ = I.elem(s, ref.val, j)
        return x if isinstance(x, (StrV, SliceV)) and False else RefC(x)
    return Ref(ref.cell, ref.path + (('e', j),))


@model('<std::vec::Vec<T, A> as std::ops::Index<I>>::index', '<std::vec::Vec<T, A> as std::ops::IndexMut<I>>::index_mut',
       'core::slice::index::<impl std::ops::Index<I> for [T]>::index',
       'core::slice::index::<impl std::ops::IndexMut<I> for [T]>::index_mut',
       'std::array::<impl std::ops::Index<I> for [T; N]>::index', 'std::array::<impl std::ops::IndexMut<I> for [T; N]>::index_mut')
def seq_index_m(I, s, c):
    r, idx = c.args
    if isinstance(r, SliceV):
        ref, base, n = r.ref, r.lo, lsub(r.hi, r.lo)
    else:
        v = deref(I, s, r)
        if not isinstance(v, (VecV, Adt)):
            I.note_unmodelled(s, c.info['def'])
            return I.top(s, c.destty)
        ref, base, n = r, 0, I.len_of(s, v)
    if is_num(idx):
        return seq_index(I, s, None, ref, base, n, idx, c.destty)
    rb = range_bounds(I, s, idx)
    if rb is None:
        I.note_unmodelled(s, c.info['def'])
        return I.top(s, c.destty)
    a = 0 if rb[0] is None else rb[0]
    b = n if rb[1] is None else rb[1]
    t = s.test(c_and(cge(lsub(b, a)), cge(lsub(n, b))))
    I.oblige(s, 'slice range', t, 'slice %s..%s may be out of range (length %s)' % (a, b, n))
    if t is not True:
        if t is False:
            raise Infeasible()
        s.assume_ge(lsub(b, a))
        s.assume_ge(lsub(n, b))
        s.check(b)
    return SliceV(ref, ladd(base, a), ladd(base, b))


@model('core::slice::<impl [T]>::get', 'core::slice::<impl [T]>::get_mut')
def slice_get(I, s, c):
    r, idx = c.args
    if not isinstance(r, SliceV) or not is_num(idx):
        return NotImplemented
    n = lsub(r.hi, r.lo)
    if decide(s, cge(ladd(lsub(n, idx), -1))):
        return opt_some(I, c.destty, elem_ref(I, s, r.ref, ladd(r.lo, idx)))
    return opt_none(I, c.destty)


@model('core::slice::<impl [T]>::first', 'core::slice::<impl [T]>::last', 'core::slice::<impl [T]>::last_mut',
       'core::slice::<impl [T]>::first_mut')
def slice_last(I, s, c):
    r = c.args[0]
    if not isinstance(r, SliceV):
        return NotImplemented
    n = lsub(r.hi, r.lo)
    if decide(s, ceq(n)):
        return opt_none(I, c.destty)
    s.assume_ge(ladd(n, -1))
    j = r.lo if 'first' in c.info['def'] else ladd(r.hi, -1)
    return opt_some(I, c.destty, elem_ref(I, s, r.ref, j))


@model('core::slice::<impl [T]>::iter', 'core::slice::<impl [T]>::iter_mut')
def slice_iter(I, s, c):
    r = c.args[0]
    if not isinstance(r, SliceV):
        return NotImplemented
    return It('slice', c.destty, (r, r.lo))


@model("std::slice::iter::<impl std::iter::IntoIterator for &'a [T]>::into_iter",
       "std::slice::iter::<impl std::iter::IntoIterator for &'a mut [T]>::into_iter")
def slice_into_iter(I, s, c):
    return slice_iter(I, s, c)


@model("<std::slice::Iter<'a, T> as std::iter::Iterator>::next", "<std::slice::IterMut<'a, T> as std::iter::Iterator>::next")
def slice_next(I, s, c):
    it = deref(I, s, c.args[0])
    if not isinstance(it, It):
        return I.top(s, c.destty)
    r, pos = it.f
    if decide(s, cge(lsub(pos, r.hi))):
        return opt_none(I, c.destty)
    setref(I, s, c.args[0], It(it.kind, it.ty, (r, ladd(pos, 1))))
    return opt_some(I, c.destty, elem_ref(I, s, r.ref, pos))


@model("<std::slice::Iter<'a, T> as std::iter::DoubleEndedIterator>::next_back",
       "<std::slice::IterMut<'a, T> as std::iter::DoubleEndedIterator>::next_back")
def slice_next_back(I, s, c):
    it = deref(I, s, c.args[0])
    if not isinstance(it, It):
        return I.top(s, c.destty)
    r, pos = it.f
    if decide(s, cge(lsub(pos, r.hi))):
        return opt_none(I, c.destty)
    hi = ladd(r.hi, -1)
    setref(I, s, c.args[0], It(it.kind, it.ty, (SliceV(r.ref, r.lo, hi), pos)))
    return opt_some(I, c.destty, elem_ref(I, s, r.ref, hi))


@model("<std::slice::Iter<'a, T> as std::iter::Iterator>::nth", "<std::slice::IterMut<'a, T> as std::iter::Iterator>::nth")
def slice_nth(I, s, c):
    it = deref(I, s, c.args[0])
    if not isinstance(it, It):
        return I.top(s, c.destty)
    r, pos = it.f
    j = ladd(pos, c.args[1])
    if decide(s, cge(lsub(j, r.hi))):
        setref(I, s, c.args[0], It(it.kind, it.ty, (r, r.hi)))
        return opt_none(I, c.destty)
    setref(I, s, c.args[0], It(it.kind, it.ty, (r, ladd(j, 1))))
    return opt_some(I, c.destty, elem_ref(I, s, r.ref, j))


@model("<std::slice::Iter<'a, T> as std::iter::ExactSizeIterator>::len", 'std::iter::ExactSizeIterator::len',
       "<std::slice::Iter<'a, T> as std::iter::Iterator>::count")
def slice_it_len(I, s, c):
    it = c.args[0]
    if isinstance(it, (Ref, RefC)):
        it = deref(I, s, it)
    if not isinstance(it, It) or it.kind != 'slice':
        return NotImplemented
    r, pos = it.f
    return lsub(r.hi, pos)


@model("<&'a std::vec::Vec<T, A> as std::iter::IntoIterator>::into_iter",
       "<&'a mut std::vec::Vec<T, A> as std::iter::IntoIterator>::into_iter")
def vec_ref_iter(I, s, c):
    v = deref(I, s, c.args[0])
    return It('slice', c.destty, (SliceV(c.args[0], 0, v.len), 0))


@model('<std::vec::Vec<T, A> as std::iter::IntoIterator>::into_iter')
def vec_into_iter(I, s, c):
    return It('into', c.destty, (c.args[0], 0))


@model('<std::vec::IntoIter<T, A> as std::iter::Iterator>::next')
def vec_into_next(I, s, c):
    it = deref(I, s, c.args[0])
    if not isinstance(it, It) or not isinstance(it.f[0], VecV):
        return I.top(s, c.destty)
    v, pos = it.f
    if decide(s, cge(lsub(pos, v.len))):
        for h in I.hooks:
            if hasattr(h, 'on_next_end'):
                h.on_next_end(I, s, v)
        return opt_none(I, c.destty)
    x, nc = I.elem(s, v, pos)
    v = nc or v
    for h in I.hooks:
        if hasattr(h, 'on_next'):
            h.on_next(I, s, v, pos, x)
    setref(I, s, c.args[0], It(it.kind, it.ty, (v, ladd(pos, 1))))
    if isinstance(x, (ETop, Adt)):
        I.elemsrc[id(x)] = (x, pos)
    return opt_some(I, c.destty, x)


# ------------------------------------------------------------------ strings, formatting
@model('<T as std::string::ToString>::to_string', '<str as std::string::ToString>::to_string',
       'std::str::<impl std::borrow::ToOwned for str>::to_owned', '<std::string::String as std::convert::From<&str>>::from',
       'std::string::String::from')
def to_string(I, s, c):
    v = peel(I, s, c.args[0])
    if isinstance(v, StrV):
        return StringV((lit_of(v) if lit_of(v) is not None else v,), lsub(v.hi, v.lo))
    if isinstance(v, StringV):
        return v
    return StringV((('disp', c.args[0], c.key),), s.num(0, MAXS))


MAXS = (1 << 40)


@model('std::string::String::new')
def string_new(I, s, c):
    return StringV((), 0)


@model('std::string::String::into_bytes')
def string_into_bytes(I, s, c):
    v = c.args[0]
    return VecV(I.T[c.destty]['args'][0], v.len if isinstance(v, StringV) else s.num(0, MAXS))


@model('core::fmt::rt::Argument::<\'_>::new_display', 'core::fmt::rt::Argument::<\'_>::new_debug')
def fmt_arg(I, s, c):
    return FmtArg('Display' if 'display' in c.info['def'] else 'Debug', c.args[0], c.key)


def parse_template(b):
    out = []
    i = 0
    nxt = 0
    while i < len(b):
        x = b[i]
        i += 1
        if x == 0:
            break
        if x < 0x80:
            out.append(('lit', bytes(b[i:i + x]).decode()))
            i += x
        elif x == 0x80:
            n = b[i] | b[i + 1] << 8
            i += 2
            out.append(('lit', bytes(b[i:i + n]).decode()))
            i += n
        elif x == 0xC0:
            out.append(('arg', nxt, ()))
            nxt += 1
        else:
            spec = []
            if x & 1:
                spec.append(('flags', int.from_bytes(bytes(b[i:i + 4]), 'little')))
                i += 4
            if x & 2:
                spec.append(('width', b[i] | b[i + 1] << 8))
                i += 2
            if x & 4:
                spec.append(('prec', b[i] | b[i + 1] << 8))
                i += 2
            idx = nxt
            if x & 8:
                idx = b[i] | b[i + 1] << 8
                i += 2
            if x & 48:
                spec.append(('ind', x & 48))
            out.append(('arg', idx, tuple(spec)))
            nxt = idx + 1
    return out


@model("std::fmt::Arguments::<'a>::new")
def args_new(I, s, c):
    t, a = peel(I, s, c.args[0]), c.args[1]
    if not isinstance(t, Adt) or not all(isinstance(x, int) for x in t.f):
        I.note_unmodelled(s, 'fmt template')
        return Top(c.destty)
    av = peel(I, s, a)
    if isinstance(av, SliceV):
        av = peel(I, s, av.ref)
    if not isinstance(av, Adt):
        I.note_unmodelled(s, 'fmt args')
        return Top(c.destty)
    pieces = []
    for p in parse_template(list(t.f)):
        if p[0] == 'lit':
            pieces.append(p[1])
        else:
            fa = av.f[p[1]]
            if not isinstance(fa, FmtArg):
                I.note_unmodelled(s, 'fmt arg')
                return Top(c.destty)
            pieces.append((fa.trait, fa.val, (p[2], fa.key)))
    return FmtArgs(tuple(pieces))


@model("std::fmt::Arguments::<'a>::from_str")
def args_from_str(I, s, c):
    v = c.args[0]
    return FmtArgs((lit_of(v),) if lit_of(v) is not None else (('Display', v, ((), None)),))


@model('std::fmt::format', 'alloc::fmt::format')
def fmt_format(I, s, c):
    a = c.args[0]
    if isinstance(a, FmtArgs) and all(isinstance(p, str) for p in a.pieces):
        t = ''.join(a.pieces)
        return StringV((t,), len(t.encode()))
    return StringV((('fmt', a),), s.num(0, MAXS))


@model('<std::io::BufWriter<W> as std::io::Write>::write_all', '<std::io::LineWriter<W> as std::io::Write>::write_all',
       '<std::io::BufWriter<W> as std::io::Write>::write_fmt', "std::fmt::Formatter::<'a>::write_fmt", "std::fmt::Formatter::<'a>::write_str", 'std::io::Write::write_fmt',
       'std::io::Write::write_all', '<std::string::String as std::fmt::Write>::write_str', 'std::fmt::Write::write_fmt',
       "std::fmt::Formatter::<'a>::pad", '<str as std::fmt::Display>::fmt', '<char as std::fmt::Display>::fmt',
       "<std::fmt::Formatter<'_> as std::fmt::Write>::write_str", "<std::fmt::Formatter<'_> as std::fmt::Write>::write_char",
       "<std::fmt::Formatter<'_> as std::fmt::Write>::write_fmt", "std::fmt::Formatter::<'a>::write_char",
       'std::fmt::Write::write_char', 'std::fmt::Write::write_str')
def write_out(I, s, c):
    for h in I.hooks:
        f = getattr(h, 'on_write', None)
        if f:
            r = f(I, s, c)
            if r is not None:
                return r
    o = s.copy()
    d = I.T[c.destty]
    ety = d['variants'][1]['f'][0][1]
    return [(s, res_ok(I, c.destty, I.top(s, d['variants'][0]['f'][0][1]))),
            (o, res_err(I, c.destty, I.top(o, ety)))]


@model('std::hint::must_use', 'std::convert::identity')
def ident(I, s, c):
    return c.args[0]


@model('std::boxed::Box::<T>::new')
def box_new(I, s, c):
    return Ref(I.alloc(s, c.args[0]))


@model('<std::io::Error as std::convert::From<std::io::ErrorKind>>::from', 'std::io::Error::new', 'std::io::Error::other',
       'alloc::io::error::<impl std::io::Error>::new', 'alloc::io::error::<impl std::io::Error>::other')
def ioerr(I, s, c):
    for a in c.args:
        v = peel(I, s, a)
        if isinstance(v, It) and v.kind.endswith('err'):
            return v
    return It('newerr', c.destty, ())


@model('std::io::Error::kind')
def ioerr_kind(I, s, c):
    v = peel(I, s, c.args[0])
    k = I.top(s, c.destty)
    if isinstance(v, It) and v.kind == 'srcerr' and isinstance(k, ETop):
        # an interrupted read may be retried
        n = [i for i, x in enumerate(I.T[c.destty]['variants']) if x['n'] == 'Interrupted'][0]
        out = []
        for q in s.copy().assume(Cond('in', k.vs, ((n, n),)), True):
            q.ghost['~srcerr'] = False
            out.append((q, Adt(c.destty, n, ())))
        for q in s.assume(Cond('in', k.vs, ((n, n),)), False):
            out.append((q, k))
        return out
    return k


@model('std::cmp::min', 'std::cmp::max', 'std::cmp::Ord::min', 'std::cmp::Ord::max')
def cmp_min(I, s, c):
    a, b = c.args
    if not (is_num(a) and is_num(b)):
        return NotImplemented
    mn = c.info['def'].endswith('min')
    if decide(s, cge(lsub(b, a))):
        return a if mn else b
    return b if mn else a


@model('std::iter::range::<impl std::iter::Iterator for std::ops::Range<A>>::next')
def range_next(I, s, c):
    r = deref(I, s, c.args[0])
    if not isinstance(r, Adt) or not is_num(r.f[0]):
        return I.top(s, c.destty)
    a, b = r.f
    if decide(s, cge(lsub(a, b))):
        return opt_none(I, c.destty)
    setref(I, s, c.args[0], Adt(r.ty, 0, (ladd(a, 1), b)))
    return opt_some(I, c.destty, a)


def parse_model(I, s, c):
    o = s.copy()
    d = I.T[c.destty]
    v = I.top(s, d['variants'][0]['f'][0][1])
    for h in I.hooks:
        f = getattr(h, 'on_parse', None)
        if f:
            v = f(I, s, c, v)
    return [(s, res_ok(I, c.destty, v)), (o, res_err(I, c.destty, I.top(o, d['variants'][1]['f'][0][1])))]


for t in ('u64', 'usize', 'u32', 'i32', 'i64', 'u8', 'u16', 'u128', 'i128'):
    M['core::num::<impl std::str::FromStr for %s>::from_str' % t] = parse_model
M['core::num::float_parse::<impl std::str::FromStr for f64>::from_str'] = parse_model
M['core::num::dec2flt::<impl std::str::FromStr for f64>::from_str'] = parse_model

# ------------------------------------------------------------------ intrinsics
M['intrinsic:cold_path'] = lambda I, s, c: unit(I, c.destty)
M['intrinsic:is_val_statically_known'] = lambda I, s, c: False
M['intrinsic:ub_checks'] = lambda I, s, c: False
M['intrinsic:assume'] = lambda I, s, c: unit(I, c.destty)
M['std::intrinsics::cold_path'] = M['intrinsic:cold_path']
M['std::intrinsics::is_val_statically_known'] = M['intrinsic:is_val_statically_known']


@model('std::intrinsics::saturating_sub', 'intrinsic:saturating_sub')
def saturating_sub(I, s, c):
    lo, hi = I.int_range(c.destty)
    d = lsub(c.args[0], c.args[1])
    if not decide(s, cge(ladd(d, -lo))):
        return lo
    if hi != INF and not decide(s, cge(lsub(hi, d))):
        return hi
    return d


@model('std::intrinsics::saturating_add', 'intrinsic:saturating_add')
def saturating_add(I, s, c):
    lo, hi = I.int_range(c.destty)
    d = ladd(c.args[0], c.args[1])
    if not decide(s, cge(ladd(d, -lo))):
        return lo
    if hi != INF and not decide(s, cge(lsub(hi, d))):
        return hi
    return d


@model('intrinsic:discriminant_value')
def discr_value(I, s, c):
    return I.discr(s, peel(I, s, c.args[0], 1))


@model('core::slice::<impl [T]>::swap')
def slice_swap(I, s, c):
    v = c.args[0]
    if not isinstance(v, SliceV):
        return NotImplemented
    n = lsub(v.hi, v.lo)
    for j in c.args[1:]:
        t = s.test(cge(ladd(lsub(n, j), -1)))
        I.oblige(s, 'index', t, 'index %s may be past the end' % (j,))
        if t is not True:
            if t is False:
                raise Infeasible()
            s.assume_ge(ladd(lsub(n, j), -1))
    a, b = [elem_ref(I, s, v.ref, ladd(v.lo, j)) for j in c.args[1:]]
    if not isinstance(a, Ref):
        return NotImplemented
    x, y = deref(I, s, a), deref(I, s, b)
    setref(I, s, a, y)
    setref(I, s, b, x)
    return unit(I, c.destty)


@model('std::mem::swap', 'std::ptr::swap')
def mem_swap(I, s, c):
    a, b = deref(I, s, c.args[0]), deref(I, s, c.args[1])
    setref(I, s, c.args[0], b)
    setref(I, s, c.args[1], a)
    return unit(I, c.destty)


@model('std::mem::replace', 'std::mem::take')
def mem_replace(I, s, c):
    a = deref(I, s, c.args[0])
    if len(c.args) > 1:
        setref(I, s, c.args[0], c.args[1])
        return a
    d = None
    if isinstance(a, VecV):
        d = VecV(a.ety, 0)
    elif isinstance(a, bool) or isinstance(a, Cond):
        d = False
    elif is_num(a):
        d = 0
    elif isinstance(a, StringV):
        d = StringV((), 0)
    else:
        t = I.T[c.destty]
        if t['k'] == 'adt' and t['name'].endswith('Option'):
            d = opt_none(I, c.destty)
    if d is None:
        return NotImplemented
    setref(I, s, c.args[0], d)
    return a


@model('std::option::Option::<T>::take')
def opt_take(I, s, c):
    a = deref(I, s, c.args[0])
    t = c.destty
    setref(I, s, c.args[0], opt_none(I, t))
    return a


@model('<std::io::ErrorKind as std::cmp::PartialEq>::eq')
def kind_eq(I, s, c):
    a, b = peel(I, s, c.args[0]), peel(I, s, c.args[1])
    if isinstance(b, ETop):
        a, b = b, a
    if isinstance(a, Adt) and isinstance(b, Adt):
        return a.v == b.v
    if isinstance(a, ETop) and isinstance(b, Adt):
        return Cond('in', a.vs, ((b.v, b.v),))
    return fresh_bool(s)


@model('std::io::BufWriter::<W>::new', 'std::io::BufWriter::<W>::with_capacity', 'std::io::LineWriter::<W>::new')
def bufwriter_new(I, s, c):
    s.ghost['~buffered'] = True
    return It('bufw', c.destty, ())


@model('<std::io::BufWriter<W> as std::io::Write>::flush', '<std::io::LineWriter<W> as std::io::Write>::flush',
       'std::io::BufWriter::<W>::into_inner', 'std::io::LineWriter::<W>::into_inner', 'std::io::Write::flush')
def bufwriter_flush(I, s, c):
    d = I.T[c.destty]
    o = s.copy()
    o.ghost['~failed'] = True
    if s.ghost.get('~buffered'):
        s.ghost['~buffered'] = False
    return [(s, res_ok(I, c.destty, I.top(s, d['variants'][0]['f'][0][1]))),
            (o, res_err(I, c.destty, It('sinkerr', d['variants'][1]['f'][0][1], ())))]


# ---------------------------------------------------------------- slice iterator combinators
SI = ["<std::slice::Iter<'a, T> as std::iter::Iterator>::", "<std::slice::IterMut<'a, T> as std::iter::Iterator>::"]


def _captures_mut(I, f):
    """does the closure capture anything by mutable reference?"""
    v = f.val if isinstance(f, RefC) else f
    if isinstance(v, FnV):
        return False
    if isinstance(v, Adt) and v.ty is not None and I.T[v.ty]['k'] == 'closure':
        up = I.T[v.ty].get('up')
        if isinstance(up, int):
            up = I.T[up].get('e')
        return any(I.T[t]['k'] == 'ref' and I.T[t].get('mut') for t in up or ())
    return v is not None and not (isinstance(v, Adt) and I.T[v.ty]['k'] == 'fndef')


def _si_setup(I, s, c):
    it = deref(I, s, c.args[0]) if isinstance(c.args[0], (Ref, RefC)) else c.args[0]
    if not isinstance(it, It) or not isinstance(it.f[0], SliceV):
        return None
    r, pos = it.f
    n = None
    if not isinstance(pos, Lin) and not isinstance(r.hi, Lin) and r.hi - pos <= 256:
        n = r.hi - pos
    return it, r, pos, n


def _si_set(I, s, c, it, r, pos):
    if isinstance(c.args[0], (Ref, RefC)):
        setref(I, s, c.args[0], It(it.kind, it.ty, (r, pos)))


def _si_search(kind):
    def h(I, s, c):
        z = _si_setup(I, s, c)
        if z is None or len(c.args) < 2:
            I.note_unmodelled(s, c.info['def'])
            return I.top(s, c.destty)
        it, r, pos, n = z
        f = c.args[1]

        def found(st, x, j):
            if kind in ('any', 'all'):
                return kind == 'any'
            if kind == 'position':
                return opt_some(I, c.destty, lsub(j, pos))
            return opt_some(I, c.destty, x)

        def none(st):
            if kind in ('any', 'all'):
                return kind == 'all'
            return opt_none(I, c.destty)

        def test(st, j):
            """-> (states where the search goes on, [(state, result)] where it stops)"""
            x = elem_ref(I, st, r.ref, j)
            arg = RefC(x) if kind == 'find' else x
            go, stop = [], []
            for q, b in I.call_value(st, f, [arg], BOOLTY(I) if kind != 'find_map' else c.destty):
                if kind == 'find_map':
                    if isinstance(b, Adt) and b.v == 0:
                        go.append(q)
                    elif isinstance(b, ETop):
                        for w in q.assume(Cond('in', b.vs, ((0, 0),)), True):
                            go.append(w)
                        for w in q.assume(Cond('in', b.vs, ((0, 0),)), False):
                            stop.append((w, b))
                    else:
                        stop.append((q, b))
                    continue
                b = I.as_bool(b)
                want = kind != 'all'
                if isinstance(b, bool):
                    (stop if b == want else go).append((q, found(q, x, j)) if b == want else q)
                    continue
                for w in q.assume(b, want):
                    stop.append((w, found(w, x, j)))
                for w in q.assume(b, not want):
                    go.append(w)
            return go, stop
        out = []
        if n is not None:
            cur = [s]
            for j in range(n):
                nxt = []
                for st in cur:
                    go, stop = test(st, pos + j)
                    nxt += go
                    for q, v in stop:
                        _si_set(I, q, c, it, r, pos + j + 1)
                        out.append((q, v))
                cur = nxt
            for q in cur:
                _si_set(I, q, c, it, r, r.hi)
                out.append((q, none(q)))
            return out
        if _captures_mut(I, f):
            I.note_unmodelled(s, c.info['def'] + ' with a mutating closure')
        o = s.copy()
        _si_set(I, o, c, it, r, r.hi)
        out.append((o, none(o)))
        try:
            k = s.num(0)
            j = ladd(pos, k)
            s.assume_ge(ladd(lsub(r.hi, j), -1))
            s.check(k)
            _, stop = test(s, j)
            for q, v in stop:
                _si_set(I, q, c, it, r, ladd(j, 1))
                out.append((q, v))
        except Infeasible:
            pass
        return out
    return h


def BOOLTY(I):
    t = getattr(I, '_boolty', None)
    if t is None:
        t = I._boolty = I.find_ty(lambda d: d['k'] == 'bool')
    return t


def _si_each(I, s, c):
    z = _si_setup(I, s, c)
    fold = c.info['def'].endswith('::fold')
    f = c.args[2] if fold else c.args[1]
    if z is None or z[3] is None:
        if z is not None and not fold and not _captures_mut(I, f):
            return unit(I, c.destty)
        I.note_unmodelled(s, c.info['def'])
        return I.top(s, c.destty)
    it, r, pos, n = z
    cur = [(s, c.args[1] if fold else unit(I, c.destty))]
    for j in range(n):
        nxt = []
        for st, acc in cur:
            x = elem_ref(I, st, r.ref, pos + j)
            nxt += I.call_value(st, f, [acc, x] if fold else [x], c.destty)
        cur = nxt if fold else [(q, unit(I, c.destty)) for q, _ in nxt]
    return cur


for _p in SI:
    for _k in ('any', 'all', 'find', 'position', 'find_map'):
        M[_p + _k] = _si_search(_k)
    M[_p + 'fold'] = _si_each
    M[_p + 'for_each'] = _si_each


# ------------------------------------------------------------------ loops written as synthetic bodies
def synth(I, key, nargs, locals_, blocks):
    """a Fn from hand-written MIR; callees named '~x' are models"""
    from mir import Fn
    fn = I.p.fns.get(key)
    if fn is None:
        info = {'def': key, 'name': key, 'kind': 'item', 'crate': '~synth', 'targs': []}
        I.p.callees[key] = info
        for b in blocks:
            t = b[1]
            if t[0] == 'call' and t[1] not in I.p.callees:
                I.p.callees[t[1]] = {'def': t[1], 'name': t[1], 'kind': 'item', 'crate': '~synth', 'targs': []}
        fn = I.p.fns[key] = Fn({'key': key, 'blocks': blocks, 'nargs': nargs, 'locals': locals_, 'spread': -1,
                                'file': '<std>', 'line': 0, 'end': 0, 'vars': []}, info)
    return fn


def types_of(I):
    t = getattr(I, '_tys', None)
    if t is None:
        t = I._tys = (I.find_ty(lambda d: d['k'] == 'bool'),
                      I.find_ty(lambda d: d['k'] == 'int' and d['bits'] == 64 and not d['signed']),
                      I.find_ty(lambda d: d['k'] == 'tuple' and not d['e']))
    return t


@model('std::vec::Vec::<T, A>::retain', 'std::vec::Vec::<T, A>::retain_mut')
def vec_retain(I, s, c):
    v = vec_ref(I, s, c.args[0])
    if not isinstance(v, VecV) or not isinstance(c.args[0], Ref):
        return NotImplemented
    tb, tu, tt = types_of(I)
    if None in (tb, tu, tt):
        return NotImplemented
    a0, a1 = c.argtys[0] if c.argtys else None, c.argtys[1] if c.argtys else None
    if a0 is None:
        return NotImplemented
    V, F, i, b = ['c', [1]], ['c', [2]], ['c', [3]], ['c', [4]]
    ln = 0
    blocks = [
        [[['=', [3], ['use', ['k', tu, {'i': 0}]], ln]], ['goto', 1]],
        [[], ['call', '~more', [V, i], [4], 2, ln, [a0, tu], tb]],
        [[], ['switch', b, [[0, 6]], 3, tb, ln]],
        [[], ['call', '~keep', [V, F, i], [4], 4, ln, [a0, a1, tu], tb]],
        [[], ['call', '~kept', [V, i, b], [5], 5, ln, [a0, tu, tb], tt]],
        [[['=', [3], ['bin', 'Add', i, ['k', tu, {'i': 1}], tu], ln]], ['goto', 1]],
        [[], ['call', '~shrunk', [V], [0], 7, ln, [a0], tt]],
        [[], ['ret']],
    ]
    fn = synth(I, '~retain:%s:%s' % (a0, a1), 2, [tt, a0, a1, tu, tb, tt], blocks)
    s.ghost['~rlen'] = v.len
    return I.run_fn(s, fn, [c.args[0], c.args[1]])


@model('~more')
def retain_more(I, s, c):
    v = vec_ref(I, s, c.args[0])
    return cge(ladd(lsub(v.len, c.args[1]), -1))


@model('~keep')
def retain_keep(I, s, c):
    return I.call_value(s, c.args[1], [elem_ref(I, s, c.args[0], c.args[2])], BOOLTY(I))


@model('~kept')
def retain_kept(I, s, c):
    b = I.as_bool(c.args[2])
    out = []
    for v in (True, False):
        for q in ([s.copy()] if isinstance(b, bool) else s.copy().assume(b, v)):
            if isinstance(b, bool) and b != v:
                continue
            x = vec_ref(I, q, c.args[0])
            for h in I.hooks:
                f = getattr(h, 'on_kept', None)
                if f:
                    f(I, q, x, c.args[1], v)
            out.append((q, unit(I, types_of(I)[2])))
    return out


@model('~shrunk')
def retain_done(I, s, c):
    x = vec_ref(I, s, c.args[0])
    n = s.num(0)
    s.assume_ge(lsub(x.len, n))
    g = x.ghost
    for h in I.hooks:
        f = getattr(h, 'on_retain', None)
        if f:
            g = f(I, s, x, n, g)
    setref(I, s, c.args[0], VecV(x.ety, n, (), g))
    s.ghost.pop('~rlen', None)
    return unit(I, types_of(I)[2])
