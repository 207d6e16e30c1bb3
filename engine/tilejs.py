"""The monitor of the JavaScript tokenizer: every token renders exactly the text that follows the previous one.

White space is a token of its own; the only text that no token renders is that of comments and the line break that ends a
line comment. Whether a slash begins a regular expression or is a division is up to the program; what is read while that
is open (ghost ~lex 'r*') is taken back when a division is pushed. What a regular expression is, once recognised, is not:
it ends at the first slash that is neither escaped nor in a class.

~lex: c code; s after a slash; q' q" Q' Q" strings (Q: escaped); t T t$ x X templates (x: inside ${}, ~tb braces deep; X: inside,
not followed); l line comment; o b b* B B* comments (B: license); rn re rk rK rd a possible regular expression (e, K:
escaped; k: in a class; d: no longer one); z.. y.. it ended (.. its flags; y: another character, of class ~c3, was read)
~ts ~te  the last string or template; ~cs ~ce the last comment; ~lic it is a license
~sp the last slash; ~p3 the end of the character after it, of class ~c2; ~re ~rf the end of the expression, of its flags
~div the last token is a division sign
~plus a plus sign read; ~num the last number parsed (value, start, end); ~pw the last token ends in a word
"""
from dom import *
from interp import decide, Infeasible
import tile
from tile import Tile, cls, WHITE
from models import char_in, cge

SPACES = ((0xa0, 0xa0), (0x1680, 0x1680), (0x2000, 0x200a), (0x2028, 0x2029), (0x202f, 0x202f), (0x205f, 0x205f),
          (0x3000, 0x3000), (0xfeff, 0xfeff))
WORD = r_sub(((0x24, 0x24), (0x30, 0x39), (0x41, 0x5a), (0x5f, 0x5f), (0x61, 0x7a), (0x80, 0x10ffff)), SPACES)


def wordy(x):
    return x.isalnum() or x in '_$'


class Js(Tile):
    exact = True
    inner = None           # 'X': what is inside ${} is opaque; 'x': braces are counted; None: not followed
    CODE = '/"\'`+'
    NL = '\n\r'

    def __init__(self, words=False):
        super().__init__()
        self.words = words       # judge keywords
        self.keywords = {}

    def start_more(self, s):
        g = s.ghost
        for k in ('~g', '~r', '~all'):
            del g[k]
        for k in ('~ts', '~te', '~sp', '~p3', '~c2', '~c3', '~re', '~rf', '~plus', '~num'):
            g[k] = None
        g['~lic'] = g['~line'] = g['~pw'] = g['~div'] = False
        g['~tb'] = 0
        g['~fin'] = False

    def finished(self, s):
        g = s.ghost
        return g['~eof'] and not g['~P'] and self.eq(s, g['~E'], g['~src'].hi)

    # ------------------------------------------------------------------ the automaton
    def sort(self, s, ch, kinds):
        """which of `kinds` (characters, or strings of characters taken as one) the character is, or 'x'"""
        for k in kinds:
            if decide(s, char_in(s, ch, cls(k))):
                return k
        return 'x'

    def klass(self, I, s, ch, pos):
        l = s.ghost['~lex']
        if l == 'c':
            return self.sort(s, ch, self.CODE)
        if l == 's':
            k = self.sort(s, ch, '/*')
            if k != 'x':
                return k
            if decide(s, cge(lsub(s.ghost['~E'], pos))):
                return self.sort(s, ch, self.CODE[1:])
            return self.sort(s, ch, ('\\', '[', self.NL) + tuple(self.CODE[1:]))
        if l == 'rn':
            return self.sort(s, ch, ('\\', '[', '/', self.NL))
        if l == 'rk':
            return self.sort(s, ch, ('\\', ']', self.NL))
        if l[0] == 'z':
            return self.sort(s, ch, 'gi' + self.CODE)
        if l[0] == 'q':
            return self.sort(s, ch, (l[1], '\\'))
        if l == 't':
            return self.sort(s, ch, '`\\$')
        if l == 't$':
            return self.sort(s, ch, '`\\${')
        if l == 'x':
            k = self.sort(s, ch, ('{', '}', '"\'`\\/'))
            if k == '}':
                decide(s, cge(ladd(s.ghost['~tb'], -2)))
            return k
        if l == 'l':
            return self.sort(s, ch, (self.NL,))
        if l == 'o':
            return self.sort(s, ch, '!*')
        if l in ('b', 'B'):
            return self.sort(s, ch, '*')
        if l in ('b*', 'B*'):
            return self.sort(s, ch, '/*')
        return 'x'

    def pre_char(self, I, s, it, pos, ch, n):
        if self.mine(s, it, pos):
            self.klass(I, s, ch, pos)

    def on_char(self, I, s, it, pos, ch, n):
        if not self.mine(s, it, pos):
            return
        g = s.ghost
        self.chars += 1
        if not self.eq(s, pos, g['~cur']):
            self.flag(I, s, 'the text is not read in order', und=True)
        k = self.klass(I, s, ch, pos)
        l = g['~lex']
        g['~cur'] = n
        if l == 's' and k in '/*':
            if g['~cs'] is not None and not (g['~ce'] is not None and self.le(s, g['~ce'], g['~E'])):
                self.flag(I, s, 'comments around text not yet in a token', und=True)
            g['~cs'] = ladd(pos, -1)
            g['~ce'] = None
            g['~lic'] = False
            g['~line'] = k == '/'
            g['~lex'] = 'l' if k == '/' else 'o'
        elif l == 'c' or l == 's' and self.le(s, pos, g['~E']):
            self.code(I, s, k, pos)
        elif l == 's':
            g['~p3'] = n
            g['~c2'] = k if k in '"\'`+' else 'x'
            g['~lex'] = {'\\': 're', '[': 'rk', self.NL: 'rd'}.get(k, 'rn')
        elif l == 'rn':
            if k == '/':
                g['~re'] = g['~rf'] = n
            g['~lex'] = {'\\': 're', '[': 'rk', self.NL: 'rd', '/': 'z'}.get(k, 'rn')
        elif l == 'rk':
            g['~lex'] = {'\\': 'rK', ']': 'rn', self.NL: 'rd'}.get(k, 'rk')
        elif l == 're':
            g['~lex'] = 'rn'
        elif l == 'rK':
            g['~lex'] = 'rk'
        elif l[0] == 'z':
            if k in 'gi':
                g['~lex'] = 'z' + ''.join(sorted(set(l[1:] + k)))
                g['~rf'] = n
            else:
                g['~c3'] = k
                g['~lex'] = 'y' + l[1:]
        elif l[0] == 'y':
            self.flag(I, s, 'text after a regular expression is read before its token is pushed', und=True)
        elif l[0] == 'q':
            if k == l[1]:
                g['~te'] = n
            g['~lex'] = 'Q' + l[1] if k == '\\' else 'c' if k == l[1] else l
        elif l[0] == 'Q':
            g['~lex'] = 'q' + l[1]
        elif l == 'T':
            g['~lex'] = 't'
        elif l in ('t', 't$'):
            if k == '`':
                g['~te'] = n
            elif k == '{':
                if not self.inner:
                    raise Infeasible()          # interpolation is not followed
                g['~tb'] = 1 if self.inner == 'x' else 0
            g['~lex'] = {'`': 'c', '\\': 'T', '$': 't$', '{': self.inner}.get(k, 't')
        elif l == 'x':
            if k == '{':
                g['~tb'] = ladd(g['~tb'], 1)
            elif k == '}':
                if s.ge0(ladd(g['~tb'], -2)) is True:
                    g['~tb'] = ladd(g['~tb'], -1)
                else:
                    g['~tb'] = 0
                    g['~lex'] = 't'
            elif k != 'x':
                g['~tb'] = 0
                g['~lex'] = 'X'
        elif l == 'l':
            if k == self.NL:
                g['~ce'] = n
                g['~lex'] = 'c'
        elif l == 'o':
            if k == '!':
                g['~lic'] = True
            g['~lex'] = {'!': 'B', '*': 'b*'}.get(k, 'b')
        elif l in ('b*', 'B*') and k == '/':
            g['~ce'] = n
            g['~lex'] = 'c'
        elif l[0] in 'bB':
            g['~lex'] = l[0] + '*' if k == '*' else l[0]

    def code(self, I, s, k, pos):
        """a character of class k at pos in code"""
        g = s.ghost
        g['~lex'] = {'/': 's', '"': 'q"', "'": "q'", '`': 't'}.get(k, 'c')
        if k in '"\'`':
            if g['~ts'] is not None and not (g['~te'] is not None and self.le(s, g['~te'], g['~E'])):
                self.flag(I, s, 'strings around text not yet in a token', und=True)
            g['~ts'], g['~te'] = pos, None
        elif k == '/':
            g['~sp'] = pos
        elif k == '+':
            g['~plus'] = pos

    def on_char_end(self, I, s, it):
        super().on_char_end(I, s, it)
        g = s.ghost
        if not g['~eof']:
            return
        l = g['~lex']
        if l == 'l':
            g['~ce'] = g['~src'].hi
            g['~lex'] = 'c'
        elif l[0] in 'qQtTxXobB':
            raise Infeasible()        # a string, template or comment that doesn't end

    def division(self, I, s):
        """the slash was a division: what was read behind it is read again"""
        g = s.ghost
        if not self.eq(s, g['~cur'], g['~p3']):
            g['~eof'] = False
        g['~cur'] = g['~p3']
        k = g['~c2']
        self.forget(s)
        self.code(I, s, k, ladd(g['~cur'], -1))

    def forget(self, s):
        g = s.ghost
        for k in ('~p3', '~c2', '~c3', '~re', '~rf', '~sp'):
            g[k] = None

    def collapse(self, I, s):
        g = s.ghost
        g['~num'] = None
        # is the character read last the only one that is in no token yet?
        g['~one'] = any(q is not None and p is not None and self.eq(s, p, g['~E']) and self.eq(s, q, g['~cur'])
                        for p, _, q in s.text[g['~src'].base].chars)
        g['~fin'] = self.finished(s)
        if g['~fin']:
            g['~lex'] = 'c'
            for k in ('~ts', '~te', '~cs', '~ce', '~plus'):
                g[k] = None
            self.forget(s)
            g['~tb'] = 0
            g['~lic'] = g['~line'] = g['~pw'] = False

    # ------------------------------------------------------------------ tokens
    def on_parse(self, I, s, c, v):
        x = c.args[0]
        from models import peel
        x = peel(I, s, x)
        if isinstance(x, StrV) and '~src' in s.ghost and x.base == s.ghost['~src'].base and is_num(v):
            s.ghost['~num'] = (v, x.lo, x.hi)
        return v

    def number(self, I, s, v, q):
        g = s.ghost
        n = g['~num']
        if n is None or not self.eq(s, v, n[0]) or not self.eq(s, q, n[1]):
            return None
        if g['~plus'] is not None and not self.le(s, n[2], g['~plus']):
            return None
        if self.le(s, n[2], ladd(q, 1)):
            return n[2]
        for p, ch, _ in s.text[g['~src'].base].chars:
            if p is not None and self.eq(s, p, q):
                r = s.rng.get(ch.single()) if isinstance(ch, Lin) else ((ch, ch),)
                if r and not r_in(ord('0'), r):
                    return n[2]
        return None

    def char_is(self, s, pos, x):
        g = s.ghost
        if g['~sp'] is not None and x == '/' and self.eq(s, pos, g['~sp']):
            return ladd(pos, 1)
        if g['~plus'] is not None and x == '+' and self.eq(s, pos, g['~plus']):
            return ladd(pos, 1)
        if g['~cs'] is not None and g['~line'] and x == '/' and self.eq(s, pos, ladd(g['~cs'], 1)):
            return ladd(pos, 1)
        n = super().char_is(s, pos, x)
        if n is None and x in WHITE:
            # a line break may be rendered as another kind of line break
            for p, ch, e in s.text[g['~src'].base].chars:
                if p is not None and self.eq(s, p, pos) and isinstance(ch, Lin):
                    r = s.rng.get(ch.single())
                    if r and not r_sub(r, cls(self.NL if x in self.NL else x)):
                        return ladd(pos, 1)
                elif p is not None and self.eq(s, p, pos) and x in self.NL and chr(ch) in self.NL:
                    return ladd(pos, 1)
        return n

    def match(self, I, s, t, holes, nm):
        g = s.ghost
        q, p = g['~E'], g['~P']
        cs, ce = g['~cs'], g['~ce']
        src = g['~src']
        lone = holes[t[0][1]] if len(t) == 1 and t[0][0] == 'slice' else None
        if lone is not None and lone.base == src.base and cs is not None and ce is not None and not g['~lic']:
            if (self.eq(s, q, cs) and not p or self.eq(s, q, ladd(cs, 1)) and p == '/') \
                    and self.le(s, ladd(cs, 2), lone.lo) and self.le(s, lone.hi, ce):
                self.comments.setdefault(nm, I.where(s))
                return ('adv', ce, 'comment')
        l = g['~lex']
        if len(t) >= 3 and t[0] == ('lit', '/') and t[1][0] == 'slice' and t[2][0] == 'lit' and not p \
                and g['~sp'] is not None and self.eq(s, q, g['~sp']) and l[0] in 'rzy':
            return self.regex(I, s, t, holes, nm)
        for k, v in t:
            if k == 'lit':
                for x in v:
                    if p:
                        if p[0] != x:
                            return '%s renders %r for the %r it was read from' % (nm, x, p[0])
                        p = p[1:]
                        continue
                    n = self.char_is(s, q, x)
                    if n is None:
                        return '%s renders %r, which is not the text that comes next in the source' % (nm, x)
                    q = n
            elif p:
                return '%s leaves out the %r read before it' % (nm, p)
            elif k == 'slice':
                v = holes[v]
                if v.base != src.base:
                    return '%s does not hold text of the source' % nm
                if not self.eq(s, v.lo, q):
                    return '%s does not begin where the text goes on' % nm
                if cs is not None and not g['~lic'] and not (ce is not None and self.le(s, ce, v.lo) or self.le(s, v.hi, cs)):
                    return '%s covers an ordinary comment' % nm
                if not self.le(s, v.hi, g['~cur']):
                    return '%s holds text that was not read' % nm
                if cs is not None and ce is not None and g['~lic'] and self.eq(s, v.lo, ladd(cs, 3)) \
                        and self.eq(s, v.hi, ladd(ce, -2)):
                    self.license.setdefault(nm, I.where(s))
                q = v.hi
            else:
                m = self.number(I, s, holes[v], q)
                if m is None:
                    return '%s is not rendered as it was spelled' % nm
                q = m
        if p:
            return '%s leaves out the %r read before it' % (nm, p)
        tag = self.place(I, s, q, nm, t)
        return ('adv', q, tag) if tag is None or tag[0] in '<' else tag

    def place(self, I, s, b, nm, t):
        """what it means that tokens end at b; a message if they must not"""
        g = s.ghost
        ts, te, cs, ce, l = g['~ts'], g['~te'], g['~cs'], g['~ce'], g['~lex']
        word = t[-1][0] in ('slice', 'num') or t[-1][0] == 'lit' and wordy(t[-1][1][-1:])
        tag = '<word>' if word and self.words else None
        if cs is not None and not (self.le(s, b, cs) or ce is not None and self.le(s, ce, b) or self.eq(s, b, ladd(cs, 1))):
            return '%s ends inside a comment' % nm
        if ts is not None:
            if l == 'X' and self.eq(s, b, g['~cur']) and self.eq(s, g['~E'], ts):
                return '<literal>'
            if te is not None and self.eq(s, b, te):
                tag = '<string>' if self.words else None
            elif not (self.le(s, b, ts) or te is not None and self.le(s, te, b)):
                return '%s ends inside a string or template' % nm
        if l[0] in 'rzy' and not self.le(s, b, g['~sp']):
            if any(x[0] == 'slice' for x in t) or not self.le(s, b, g['~p3']):
                return '%s covers a slash that begins a regular expression or is a division' % nm
            return '<division>'
        if len(t) == 1 and t[0][0] == 'lit' and t[0][1].isalpha():
            self.keywords.setdefault(nm, I.where(s))
            m = self.keyword(I, s, b, nm) if self.words else None
            if m:
                return m
        return tag

    def keyword(self, I, s, b, nm):
        g = s.ghost
        if g['~pw']:
            return '%s is recognised in the middle or at the end of a longer word' % nm
        if self.eq(s, b, g['~src'].hi):
            return None
        for p, ch, _ in s.text[g['~src'].base].chars:
            if p is not None and self.eq(s, p, b):
                r = s.rng.get(ch.single()) if isinstance(ch, Lin) else ((ch, ch),)
                if r and not r_and(r, WORD):
                    return None
        return '%s is recognised at the start of a longer word' % nm

    def regex(self, I, s, t, holes, nm):
        g = s.ghost
        l = g['~lex']
        v = holes[t[1][1]]
        tail = ''.join(x[1] for x in t[2:] if x[0] == 'lit')
        if l[0] not in 'zy':
            return '%s ends where no slash ends a regular expression' % nm
        if v.base != g['~src'].base or not self.eq(s, v.lo, ladd(g['~sp'], 1)):
            return '%s does not begin after the slash' % nm
        if not self.eq(s, v.hi, ladd(g['~re'], -1)) or tail[:1] != '/' or any(x[0] != 'lit' for x in t[2:]):
            return '%s does not hold the regular expression up to its slash' % nm
        if ''.join(sorted(tail[1:])) != l[1:]:
            return '%s does not hold the flags %r' % (nm, l[1:])
        return ('adv', g['~rf'], '<regex>')

    def advance(self, s, b, tag=None):
        g = s.ghost
        g['~div'] = tag == '<division>'
        if tag == '<division>':
            self.division(self.I, s)
        elif tag == '<regex>':
            l, k = g['~lex'], g['~c3']
            g['~lex'] = 'c'
            g['~E'] = b
            self.forget(s)
            if l[0] == 'y':
                self.code(self.I, s, k, b)
        elif tag == '<literal>':
            g['~lex'] = 'c'
            g['~te'] = b
        g['~E'] = b
        g['~P'] = ''
        g['~pw'] = tag == '<word>'
        if g['~ce'] is not None and self.le(s, g['~ce'], b):
            g['~cs'] = g['~ce'] = None
            g['~lic'] = g['~line'] = False
        if g['~te'] is not None and self.le(s, g['~te'], b):
            g['~ts'] = g['~te'] = None
        if g['~plus'] is not None and self.le(s, ladd(g['~plus'], 1), b):
            g['~plus'] = None
        if g['~lex'] not in ('s',) and g['~lex'][0] not in 'rzy':
            g['~sp'] = None

    def back(self, s, e):
        s.ghost['~E'] = e

    def about(self, s, holes):
        g = s.ghost
        if g['~cs'] is not None and g['~ce'] is not None and g['~lic']:
            return 'license' if self.le(s, g['~E'], ladd(g['~cs'], 1)) else None
        return super().about(s, holes)

    def on_push(self, I, s, v, x, g):
        self.I = I
        return super().on_push(I, s, v, x, g)

    def unpush(self, I, s, x):
        g = s.ghost
        whole = not g['~P']
        super().unpush(I, s, x)
        # the last token renders the text before ~E (that was shown when it was pushed): a token that can't is not the last
        g['~div'] = False
        if whole and g['~P']:
            for _, ch, n in s.text[g['~src'].base].chars:
                if n is not None and self.eq(s, n, g['~E']):
                    r = s.rng.get(ch.single()) if isinstance(ch, Lin) else ((ch, ch),)
                    if r and not r_in(ord(g['~P'][-1]), r):
                        raise Infeasible()

    def on_elem_write(self, I, s, *a):
        self.I = I
        return super().on_elem_write(I, s, *a)
