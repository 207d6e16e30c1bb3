"""C09: JSON minification drops exactly the insignificant whitespace (in-memory minifier)."""
from dom import *
import run as R
import models, order
from interp import decide, Abort
from models import char_in
from render import Writes


def cls(t):
    return r_of(sorted({ord(x) for x in t}))


JWS = cls(' \t\n\r')
QUOTE = cls('"')
BSL = cls('\\')
OUT = cls('{}[],:0123456789+-.eEtrufalsn')
ESC = cls('"\\/bfnrtu')
INSTR = ((0x20, 0x21), (0x23, 0x5B), (0x5D, 0xD7FF), (0xE000, 0x10FFFF))


class Spec(Writes):
    """reads the source through the JSON grammar's lexical automaton; expected output = FIFO of the kept characters"""

    def __init__(self):
        super().__init__()
        self.bad, self.und = {}, {}
        self.reads = 0
        self.classes = set()

    def start(self, s):
        s.ghost['~lex'] = 'o'
        s.ghost['~fifo'] = ()
        s.ghost['~eof'] = False

    def lexstep(self, I, s, ch):
        """-> (next lexical state, kept?) ; splits, and drops characters no valid JSON text has here"""
        st = s.ghost['~lex']
        if st == 'o':
            if decide(s, char_in(s, ch, JWS)):
                return 'o', False
            if decide(s, char_in(s, ch, QUOTE)):
                return 's', True
            if decide(s, char_in(s, ch, OUT)):
                return 'o', True
        elif st == 's':
            if decide(s, char_in(s, ch, QUOTE)):
                return 'o', True
            if decide(s, char_in(s, ch, BSL)):
                return 'e', True
            if decide(s, char_in(s, ch, INSTR)):
                return 's', True
        elif st == 'e':
            if decide(s, char_in(s, ch, ESC)):
                return 's', True
        raise Infeasible()

    def pre_char(self, I, s, it, pos, ch, n):
        self.lexstep(I, s, ch)

    def on_char(self, I, s, it, pos, ch, n):
        self.reads += 1
        if s.ghost['~eof']:
            self.flag(I, s, 'the source is read again after its end')
        st = s.ghost['~lex']
        nx, keep = self.lexstep(I, s, ch)
        self.classes.add((st, nx, keep))
        s.ghost['~lex'] = nx
        if keep:
            f = s.ghost['~fifo'] + (ch,)
            if len(f) > 3:
                self.flag(I, s, 'kept characters are not written as they are read')
                f = f[-1:]
            s.ghost['~fifo'] = f

    def on_char_end(self, I, s, it):
        if s.ghost['~lex'] != 'o':
            raise Infeasible()      # not a valid JSON text
        s.ghost['~eof'] = True

    def flag(self, I, s, m):
        (self.und if s.taint else self.bad).setdefault(m, I.where(s))

    def piece(self, I, s, kind, val, extra):
        f = s.ghost['~fifo']
        if kind == 'lit' and len(val) != 1:
            if val:
                self.flag(I, s, 'text %r is written' % val)
            return [s]
        if kind == 'lit':
            kind, val = 'char', ord(val)
        if kind != 'char':
            if kind == 'other' and f and I.narrow_bytes(s, val, f[0]):
                self.flag(I, s, 'a character is written as a single truncated byte')
                s.ghost['~fifo'] = f[1:]
                return [s]
            self.und.setdefault('%s piece written' % kind, I.where(s))
            I.note_unmodelled(s, kind + ' piece written')
            return [s]
        if not f:
            self.flag(I, s, 'a character is written that should have been dropped, or twice')
            return [s]
        if s.eq0(lsub(val, f[0])) is not True and not same(s, val, f[0]):
            self.flag(I, s, 'another character is written than the next kept character of the source')
        s.ghost['~fifo'] = f[1:]
        return [s]


def same(s, a, b):
    """both fixed to the same single character"""
    def one(x):
        if not isinstance(x, Lin):
            return x
        y = x.single()
        r = s.rng.get(y) if y is not None else None
        return r[0][0] if r and r_size(r) == 1 else None
    return one(a) is not None and one(a) == one(b)


def run(c):
    c.rule('Rule: abstract interpretation of the in-memory minifier over an unbounded text in product with the lexical '
           'automaton of RFC 8259 (outside / string / escape). Every character the automaton keeps is queued and must '
           'be the next character written; a dropped character is never queued; the queue is empty on success.')
    c.assume.append('The text is valid JSON; on other texts nothing is claimed here.')
    p = c.prog('lib')
    for root in ('root_json_minify_display', 'root_json_minify_write'):
        h = Spec()
        I = R.make(p, [h])
        st = State()
        h.start(st)
        fn = p.fns[p.roots[root]]
        fn.prep()
        args = [I.top(st, fn.locals[i + 1]) for i in range(fn.nargs)]
        I.cur = (fn, fn.line)
        n = 0
        try:
            res = I.run_fn(st, fn, args)
        except Abort as e:
            res = []
            c.undecided(root, 'not completed: %s' % e)
        for s, r in res:
            for q, ok in order.result_is(I, s, r):
                if ok and not q.ghost.get('~failed'):
                    n += 1
                    if q.ghost['~fifo']:
                        h.flag(I, q, 'a kept character was never written')
                    if not q.ghost['~eof']:
                        h.flag(I, q, 'success before the text was read to its end')
        c.count('roots')
        c.count('characters read (abstract)', h.reads)
        c.count('output calls (abstract)', h.nwrites)
        for m, w in h.bad.items():
            c.violation('%s: %s' % (root, m), 'at %s' % w)
        for m, w in h.und.items():
            c.undecided('%s: %s' % (root, m), 'at %s' % w)
        for a, b, k in sorted(h.classes):
            if not h.bad and not h.und:
                c.ok('%s: character leading from %s to %s is %s' % (root, a, b, 'written' if k else 'dropped'), root)
        if not n or len(h.classes) < 6:
            c.undecided(root, 'not all lexical transitions are reached (%d)' % len(h.classes))
