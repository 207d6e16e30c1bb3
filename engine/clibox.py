"""Abstract file system and command line of the minifier tool: every call that touches them is an event of an
abstract interpretation of `main`, for every option, extension, file and fault."""
from dom import *
from render import Writes, deep
from canon import Canon, subsumed
from interp import FramePos
import models
from models import opt_none, opt_some, res_ok, res_err, peel, setref, unit, fresh_bool

TYPES = ('css', 'js', 'json')
OTHER = '\0ext:other'
NONUTF = '\0ext:raw'
CONTENT = '\0content'
PASS = {'deref', 'as_str', 'as_ref', 'borrow', 'clone', 'to_string', 'to_owned', 'from', 'into', 'as_bytes', 'must_use',
        'identity', 'branch', 'from_residual', 'from_output', 'deref_mut', 'as_mut_str', 'into_boxed_str', 'into_bytes'}
PER_FILE = ('~ext', '~read', '~min', '~fail', '~said', '~faults', '~wrote', '~target', '~buffered', '~outdir', '~trunc')


def prov(v):
    return v.kind[5:] if isinstance(v, It) and v.kind.startswith('path:') else None


def path(ty, p):
    return It('path:' + p, ty, ())


class Cli(Writes):
    expand = False

    def __init__(self, I):
        super().__init__()
        self.bad = {}
        self.und = {}
        self.seen = {}
        self.done = set()
        self.depth = 0
        self.longs = {}
        self.optnames = {}
        self.events = 0
        self.files = 0
        self.I = I
        self.pathty = None
        self.starts = {}

    # ------------------------------------------------------------------ results
    def flag(self, I, s, prop, key, msg):
        f, l = I.site(s)
        d = self.und if s.taint else self.bad
        d.setdefault((prop, key), '%s (%s:%s, in %s)%s' % (msg, f.file, l, f.name,
                                                          ' [%s]' % ','.join(sorted(s.taint)) if s.taint else ''))

    def hold(self, prop, key, where=None):
        self.seen.setdefault((prop, key), where)

    # ------------------------------------------------------------------ command line
    def arg_id(self, lit):
        return self.longs.get(lit)

    def is_file_type(self, I, t):
        d = I.T[t]
        while d['k'] == 'ref':
            t = d['to']
            d = I.T[t]
        return t if d['k'] == 'adt' and d['kind'] == 'enum' and d['name'].split('::')[0] == 'vcli' else None

    # ------------------------------------------------------------------ per file
    def file_end(self, I, s):
        g = s.ghost
        if not g.get('~cur'):
            return
        self.files += 1
        opt, ext = g.get('~opt'), g.get('~ext')
        want = opt if opt in TYPES else ext
        mn = g.get('~min')
        if g.get('~fail'):
            self.flag(I, s, 'C18', 'report', 'a failure (%s) for a file is not reported' % g['~fail'])
        elif not g.get('~wrote') and not g.get('~said'):
            self.flag(I, s, 'C18', 'skip', 'a file is neither minified nor reported')
        else:
            self.hold('C18', 'report: every file is written or its failure reported')
        if g.get('~buffered') and g.get('~wrote'):
            self.flag(I, s, 'C18', 'buffered', 'the output sits in a buffer whose flush may fail unseen')
        key = 'type option %s, extension %s' % (opt or 'none', {None: 'any', OTHER: 'other', NONUTF: 'not text'}.get(ext, ext or 'none'))
        if opt == '?':
            s.taint = s.taint | {'type option not resolved'}
        if want is None and ext is None and opt is None:
            # the extension was never looked at
            if g.get('~wrote'):
                self.flag(I, s, 'C19', key, 'a file is minified without regard to its type')
            return
        if want in ('CSS', 'JS', 'JSON'):
            want = want.lower()
        if want in TYPES:
            if g.get('~wrote'):
                if mn == want:
                    self.done.add((opt, ext))
                    self.hold('C19', key + ': minified as ' + mn)
                else:
                    self.flag(I, s, 'C19', key, 'the %s minifier is applied' % mn)
            elif not g.get('~faults'):
                self.flag(I, s, 'C19', key, 'no output is written although nothing failed')
        else:
            if mn in TYPES or g.get('~wrote'):
                self.flag(I, s, 'C19', key, 'a file of unknown type is minified (%s)' % mn)
            elif not g.get('~faults'):
                self.done.add((opt, ext))
                self.hold('C19', key + ': rejected')

    def boundary(self, I, s, more):
        self.file_end(I, s)
        for k in PER_FILE:
            s.ghost.pop(k, None)
        s.ghost['~cur'] = bool(more)
        if not more:
            s.ghost['~done'] = True

    def end(self, I, s, how):
        if how == 'return':
            self.file_end(I, s)
        if not s.ghost.get('~done') and not s.ghost.get('~nofiles'):
            self.flag(I, s, 'C18', 'continue', 'the program ends (%s) before every file was handled' % how)
        else:
            self.hold('C18', 'continue: the program ends after the last file')

    def fail(self, s, what):
        s.ghost['~fail'] = what
        s.ghost['~faults'] = True

    def ioerr(self, I, ty):
        return It('ioerr', ty, ())

    def fallible(self, I, s, c, okv, what):
        """split a Result-returning call into success and failure"""
        o = s.copy()
        d = I.T[c.destty]
        self.fail(o, what)
        return [(s, res_ok(I, c.destty, okv)), (o, res_err(I, c.destty, self.ioerr(I, d['variants'][1]['f'][0][1])))]

    def okty(self, I, c):
        return I.T[c.destty]['variants'][0]['f'][0][1]

    # ------------------------------------------------------------------ file system
    def text(self, I, s, v):
        """literal behind a value, or None"""
        v = peel(I, s, v)
        l = models.lit_of(v)
        if l is not None:
            return l
        if isinstance(v, It) and v.kind.startswith('ostr:'):
            return v.kind[5:]
        if isinstance(v, FmtArgs):
            ps = self.pieces_of(I, s, v)
        elif isinstance(v, (StrV, StringV, SliceV)):
            ps = self.pieces_of(I, s, v)
        else:
            return None
        if all(k == 'lit' for k, _, _ in ps):
            return ''.join(x for _, x, _ in ps)
        return None

    def payload_text(self, I, s, v):
        """what is written: 'min:K', or a description"""
        v0 = peel(I, s, v)
        if isinstance(v0, It) and v0.kind.startswith('min:'):
            return v0.kind
        ps = self.pieces_of(I, s, v0) if isinstance(v0, (FmtArgs, StrV, StringV, SliceV)) else [('other', v0, None)]
        out = []
        for k, x, _ in ps:
            if k == 'lit':
                if x:
                    out.append(x[1:] if x.startswith('\0min:') else 'text' if not x.startswith('\0') else x[1:])
            else:
                m = peel(I, s, x) if isinstance(x, (Ref, RefC)) else x
                if isinstance(m, It) and m.kind.startswith('min:') and k in ('user', 'elem'):
                    out.append(m.kind)
                else:
                    out.append('?')
        if any(x == '?' for x in out):
            return '?'
        return '+'.join(out)

    def open_event(self, I, s, target, mode):
        """an existing file may be lost from here on"""
        self.events += 1
        g = s.ghost
        if not g.get('~cur'):
            s.taint = s.taint | {'file opened outside the file loop'}
        if g.get('~read') != 'ok' or g.get('~min') not in TYPES:
            self.flag(I, s, 'C18', 'open before minified',
                      'an output file is %s before the input was %s' % (
                          mode, 'read' if g.get('~read') != 'ok' else 'minified successfully'))
        else:
            self.hold('C18', 'open: the input was minified when an output file is %s' % mode)
        self.check_target(I, s, target)

    def check_target(self, I, s, t):
        g = s.ghost
        key = 'output name'
        if t is None or '?' in t:
            s.ghost['~target'] = '?'
            self.und.setdefault(('C19', key), 'output path not resolved')
            return
        out = g.get('~out')
        if out:
            if g.get('~outdir'):
                ok = t.startswith(('join(out', 'ext(join(out', 'name(join(out')) and 'in' in words(t)
                msg = 'the file inside the output directory is not named after the input'
            else:
                ok = t == 'out'
                msg = 'the output is not written to the requested file'
            if 'out' not in words(t):
                ok, msg = False, 'the requested output is ignored'
        else:
            ok = 'in' in words(t) and t != 'in'
            msg = 'the output name is not derived from the input' if 'in' not in words(t) else 'the input itself is overwritten'
            if t.startswith('ext(in,') and t[7:-1] == g.get('~ext'):
                ok, msg = False, 'the output has the name of the input'
        k = g.get('~min')
        if ok and t.startswith('ext(') and k in TYPES:
            last = t.rsplit(',', 1)[1].rstrip(')').split('.')
            if not ({k} & set(last)) and (set(TYPES) - {k}) & set(last):
                ok, msg = False, 'the output of the %s minifier is named %s' % (k, '.'.join(last))
        if ok:
            self.hold('C19', 'output name: ' + ('in the requested directory' if out and g.get('~outdir') else
                                                'the requested file' if out else 'derived from the input'))
        else:
            self.flag(I, s, 'C19', key, '%s: %s' % (msg, t))
        g['~target'] = t

    def write_event(self, I, s, what):
        self.events += 1
        g = s.ghost
        k = g.get('~min')
        if what == '':
            return
        if g.get('~wrote'):
            # a line end after the text and the like
            self.flag(I, s, 'C19', 'output text', 'more than the minified text is written (%s)' % what)
        if what == '?':
            self.und.setdefault(('C19', 'output text'), 'the text written is not resolved')
        elif k in TYPES and what == 'min:' + k:
            self.hold('C19', 'output text: exactly the minified text is written')
        else:
            self.flag(I, s, 'C19', 'output text', 'what is written is not the minified text (%s)' % what)
        if g.get('~trunc') is False:
            self.flag(I, s, 'C19', 'truncated', 'an existing longer output file keeps its old end')
        g['~wrote'] = True

    # ------------------------------------------------------------------ calls
    def on_write(self, I, s, c):
        a = peel(I, s, c.args[0]) if c.args else None
        if isinstance(a, It) and a.kind.startswith(('file:w', 'bufw:')):
            return self.do_write(I, s, c, a)
        if isinstance(a, It) and a.kind in ('stderr', 'stdout'):
            self.said(s)
            o = s.copy()
            d = I.T[c.destty]
            return [(s, res_ok(I, c.destty, I.top(s, d['variants'][0]['f'][0][1]))),
                    (o, res_err(I, c.destty, I.top(o, d['variants'][1]['f'][0][1])))]
        if c.info['def'].startswith(('std::fmt', '<std::fmt', '<std::string', '<str', '<char')):
            return None
        s.taint = s.taint | {'write to an unknown sink'}
        return None

    def said(self, s):
        s.ghost['~said'] = True
        s.ghost.pop('~fail', None)

    def do_write(self, I, s, c, a):
        w = self.payload_text(I, s, c.args[1])
        o = s.copy()
        self.write_event(I, s, w)
        if a.kind.startswith('bufw:'):
            s.ghost['~buffered'] = True
        d = I.T[c.destty]
        self.fail(o, 'writing the output')
        return [(s, res_ok(I, c.destty, I.top(s, d['variants'][0]['f'][0][1]))),
                (o, res_err(I, c.destty, self.ioerr(I, d['variants'][1]['f'][0][1])))]

    def call(self, I, s, c):
        info = c.info
        name = info['def']
        last = name.split('::')[-1]
        cr = info['crate']
        T = I.T
        if cr == 'vcli' and last not in ('main',):
            return NotImplemented
        if cr == 'minifier':
            return self.minify(I, s, c, name, last)
        if last == 'collect' and c.destty is not None:
            d = T[c.destty]
            if d['k'] == 'adt' and d['name'].endswith('vec::Vec'):
                u = d['args'][0]
                while T[u]['k'] == 'ref':
                    u = T[u]['to']
                if T[u].get('name') == 'std::path::PathBuf':
                    a = peel(I, s, c.args[0])
                    while isinstance(a, Adt) and len(a.f) == 1:
                        a = peel(I, s, a.f[0])
                    if not (isinstance(a, It) and a.kind == 'values'):
                        s.taint = s.taint | {'selection of the files'}
                    return VecV(d['args'][0], s.num(0, 1 << 20))
        if last == 'for_each' and self.depth == 0:
            r = self.each_file(I, s, c)
            if r is not NotImplemented:
                return r
        if last in ('next', 'next_back', 'pop', 'remove', 'nth', 'pop_front') and self.depth == 0 and c.destty is not None:
            r = self.next_file(I, s, c, last)
            if r is not NotImplemented:
                return r
        if cr in ('clap_builder', 'clap', 'clap_derive', 'clap_lex') or 'clap::' in name:
            r = self.clap(I, s, c, name, last)
            if r is not NotImplemented:
                return r
        av = [peel(I, s, a) for a in c.args]
        if any(prov(a) is not None or isinstance(a, It) and a.kind.startswith(('ostr:', 'opts:', 'file:', 'bufw:', 'stderr', 'stdout'))
               for a in av) or name.startswith(('std::fs', '<std::fs', 'std::path', '<std::path', 'std::process', 'std::env',
                                                'std::ffi', '<std::ffi', 'std::io::_', 'std::io::std', 'std::thread')):
            r = self.fs(I, s, c, name, last, av)
            if r is not NotImplemented:
                return r
        lits = [models.lit_of(a) for a in av]
        if any(l and l.startswith('\0') for l in lits) and ('str' in name or 'String' in name) and last not in PASS:
            return self.marked_text(I, s, c, name, last, lits)
        if last == 'to_string' and av and isinstance(av[0], It) and av[0].kind.startswith('min:'):
            t = '\0' + av[0].kind
            return StringV((t,), len(t))
        if last in ('to_string', 'fmt') and av and isinstance(av[0], It) and av[0].kind == 'ioerr':
            return NotImplemented
        return NotImplemented

    def marked_text(self, I, s, c, name, last, lits):
        d = I.T[c.destty]
        a = lits[0]
        b = lits[1] if len(lits) > 1 else None
        if a == OTHER or b == OTHER:
            if last in ('eq', 'ne') or last == 'eq_ignore_ascii_case':
                o = b if a == OTHER else a
                if o is not None and o.lower() in TYPES:
                    return last == 'ne'
                if o == OTHER:
                    return last != 'ne'
                return fresh_bool(s)
            if last.startswith('to_') or last in ('trim', 'trim_start', 'trim_end'):
                return I.top(s, c.destty) if d['k'] != 'adt' else StringV((OTHER,), len(OTHER))
        if d['k'] == 'bool':
            return fresh_bool(s)
        if d['k'] == 'int':
            return s.num(0, 1 << 31)
        s.taint = s.taint | {'%s of a file text' % last}
        return I.top(s, c.destty)

    # ------------------------------------------------------------------ clap
    def clap(self, I, s, c, name, last):
        T = I.T
        d = T[c.destty]
        if name in ('clap::Arg::new',):
            return It('arg:%s' % models.lit_of(c.args[0]), c.destty, ())
        if name in ('clap::Arg::long', 'clap::Arg::short'):
            a = c.args[0]
            l = models.lit_of(c.args[1]) if not is_num(c.args[1]) else c.args[1]
            if isinstance(a, It) and a.kind.startswith('arg:'):
                if last == 'long':
                    self.longs[l] = a.kind[4:]
                self.longs.setdefault('named', set()).add(a.kind[4:])
            return a
        if name.startswith('clap::Arg::') and c.args and isinstance(c.args[0], It) and d['k'] == 'adt' and d['name'].endswith('Arg'):
            return c.args[0]
        if last in ('try_get_matches', 'try_get_matches_from', 'get_matches', 'get_matches_from', 'parse') and d['k'] == 'adt' and d['name'].endswith('ArgMatches'):
            return It('matches', c.destty, ())
        if name.startswith('clap::ArgMatches::') or last in ('get_one', 'get_many', 'remove_one', 'remove_many', 'get_raw', 'try_get_one'):
            lit = models.lit_of(c.args[1]) if len(c.args) > 1 else None
            if last in ('get_many', 'remove_many') and lit is not None:
                o = s.copy()
                o.ghost['~nofiles'] = True
                if lit in self.longs.get('named', ()):
                    s.taint = s.taint | {'argument %s' % lit}
                return [(s, opt_some(I, c.destty, It('values', T[c.destty]['variants'][1]['f'][0][1], ()))),
                        (o, opt_none(I, c.destty))]
            if last in ('get_one', 'remove_one') and lit is not None:
                return self.get_one(I, s, c, lit)
        if 'ValuesRef' in name or 'parser::Values' in name or any(isinstance(peel(I, s, a), It) and peel(I, s, a).kind == 'values' for a in c.args):
            r = self.values(I, s, c, name, last)
            if r is not NotImplemented:
                return r
        if d['k'] == 'tuple' and not d['e']:
            return unit(I, c.destty)
        # builders and value parsers have no effect on the files
        return Top(c.destty)

    def values(self, I, s, c, name, last):
        d = I.T[c.destty]
        if last == 'next' or last == 'next_back':
            o = s.copy()
            t = d['variants'][1]['f'][0][1]
            return [(s, opt_some(I, c.destty, self.file_value(I, s, t))), (o, opt_none(I, c.destty))]
        if last == 'default':
            return It('values', c.destty, ())
        if last in ('into_iter', 'by_ref'):
            return c.args[0]
        if last == 'size_hint':
            return I.top(s, c.destty)
        return NotImplemented

    def file_value(self, I, s, t):
        d = I.T[t]
        if d['k'] == 'ref':
            return RefC(self.file_value(I, s, d['to']))
        return path(t, 'in')

    def get_one(self, I, s, c, lit):
        T = I.T
        t = T[c.destty]['variants'][1]['f'][0][1]
        ft = self.is_file_type(I, t)
        if self.longs.get('type') == lit or (ft is not None and self.longs.get('out') != lit):
            if '~opt' in s.ghost:
                s.taint = s.taint | {'type option read twice'}
            if ft is None:
                s.ghost['~opt'] = '?'
                return I.top(s, c.destty)
            res = []
            o = s.copy()
            o.ghost['~opt'] = ''
            res.append((o, opt_none(I, c.destty)))
            for i, v in enumerate(T[ft]['variants']):
                names = self.optnames.get(i)
                if names is None:
                    names = self.optnames[i] = self.option_names(I, ft, i)
                for n in names:
                    q = s.copy()
                    q.ghost['~opt'] = n
                    val = Adt(ft, i, ())
                    res.append((q, opt_some(I, c.destty, RefC(val) if T[t]['k'] == 'ref' else val)))
            return res
        if self.longs.get('out') == lit:
            o = s.copy()
            s.ghost['~out'] = True
            o.ghost['~out'] = False
            d = T[t]
            v = RefC(path(d['to'], 'out')) if d['k'] == 'ref' else path(t, 'out')
            return [(s, opt_some(I, c.destty, v)), (o, opt_none(I, c.destty))]
        # a single positional file
        s.taint = s.taint | {'argument %s' % lit}
        return I.top(s, c.destty)

    def option_names(self, I, ft, i):
        """texts of the option accepted for variant i: value_variants x to_possible_value, interpreted"""
        name = I.T[ft]['name']
        tp = [f for f in I.p.fns.values() if f.name.endswith('::to_possible_value') and name in f.name]
        vv = [f for f in I.p.fns.values() if f.name.endswith('::value_variants') and name in f.name]
        if not tp or not vv:
            return ['?']
        out = set()
        # is the variant offered at all?
        st = State()
        vv[0].prep()
        offered = None
        for q, r in I.run_fn(st, vv[0], []):
            r = peel(I, q, r)
            if isinstance(r, SliceV):
                r = peel(I, q, r.ref)
            if isinstance(r, Adt) and all(isinstance(x, Adt) for x in r.f):
                offered = {x.v for x in r.f}
        if offered is not None and i not in offered:
            return []
        tp[0].prep()
        st = State()
        names = []

        def pv(I, s, c):
            names.append(models.lit_of(c.args[-1]))
            return Top(c.destty)
        I.intercept.update({'clap::builder::PossibleValue::new': pv, 'clap::builder::PossibleValue::alias': pv,
                            'clap_builder::builder::PossibleValue::new': pv})
        for q, r in I.run_fn(st, tp[0], [RefC(Adt(ft, i, ()))]):
            pass
        return sorted({n if n is not None else '?' for n in names})

    # ------------------------------------------------------------------ iteration over the files
    def next_file(self, I, s, c, last):
        d = I.T[c.destty]
        if d['k'] != 'adt' or not d['name'].endswith('Option') :
            return NotImplemented
        t = d['variants'][1]['f'][0][1]
        while I.T[t]['k'] == 'ref':
            t = I.T[t]['to']
        if I.T[t].get('name') not in ('std::path::PathBuf', 'std::path::Path'):
            return NotImplemented
        self.depth += 1
        try:
            res = I.call(s, c.key, c.args, c.destty, c.argtys)
        finally:
            self.depth -= 1
        out = []
        for q, r in res:
            if isinstance(r, Adt):
                if r.v == 0:
                    self.boundary(I, q, False)
                else:
                    if prov(peel(I, q, r.f[0])) != 'in':
                        out.append((q, r))
                        continue
                    self.boundary(I, q, True)
                if self.covered(I, q, c):
                    continue
                out.append((q, r))
            else:
                q.taint = q.taint | {'file iterator'}
                out.append((q, r))
        return out

    def each_file(self, I, s, c):
        it = peel(I, s, c.args[0])
        if not isinstance(it, It):
            return NotImplemented
        if it.kind == 'values':
            el = None
            for i, d in enumerate(I.T):
                if d.get('k') == 'adt' and d.get('name') == 'std::path::PathBuf':
                    el = RefC(path(i, 'in'))
        elif it.kind in ('slice', 'into') and it.f and isinstance(it.f[0], (SliceV, VecV)):
            v = it.f[0]
            if isinstance(v, SliceV):
                v = peel(I, s, v.ref)
            x = self.fresh_elem(I, s, v, 0)
            if x is None:
                return NotImplemented
            el = RefC(x) if it.kind == 'slice' else x
        else:
            return NotImplemented
        work, out, seen = [s], [], []
        while work:
            q = work.pop()
            e = q.copy()
            self.boundary(I, e, False)
            cn = Canon(I, e)
            cn.run()
            if not any(o.key == cn.key and subsumed(o, cn) for o in seen):
                seen.append(cn)
                out.append((e, unit(I, c.destty)))
            self.boundary(I, q, True)
            if self.covered(I, q, c):
                continue
            work.extend(x for x, _ in I.call_value(q, c.args[1], [el], None))
        return out

    def covered(self, I, q, c):
        """a state at the start of a file that was explored before from the same place"""
        cn = Canon(I, q)
        cn.run()
        k = (c.key, tuple((f.fn.key, f.bb) for f in q.frames if isinstance(f, FramePos)), cn.key)
        lst = self.starts.setdefault(k, [])
        if any(subsumed(o, cn) for o in lst):
            return True
        lst.append(cn)
        return False

    def fresh_elem(self, I, st, v, idx):
        t = v.ety if hasattr(v, 'ety') else None
        if t is None:
            return None
        u = t
        while I.T[u]['k'] == 'ref':
            u = I.T[u]['to']
        if I.T[u].get('name') == 'std::path::PathBuf':
            return self.file_value(I, st, t)
        return None

    # ------------------------------------------------------------------ the minifiers
    def minify(self, I, s, c, name, last):
        d = I.T[c.destty]
        for k in TYPES:
            if name.endswith('%s::minify' % k):
                self.events += 1
                src = self.text(I, s, c.args[0])
                s.ghost['~read'] = s.ghost.get('~read')
                if src != CONTENT:
                    self.und.setdefault(('C19', 'input text'), 'the minified text is not resolved to the input')
                else:
                    self.hold('C19', 'input text: the whole input is minified')
                if d['name'].endswith('Result'):
                    o = s.copy()
                    s.ghost['~min'] = k
                    o.ghost['~min'] = 'err'
                    self.fail(o, 'minifying')
                    et = d['variants'][1]['f'][0][1]
                    return [(s, res_ok(I, c.destty, It('min:' + k, d['variants'][0]['f'][0][1], ()))),
                            (o, res_err(I, c.destty, I.top(o, et)))]
                s.ghost['~min'] = k
                return It('min:' + k, c.destty, ())
        a = peel(I, s, c.args[0]) if c.args else None
        if isinstance(a, It) and a.kind.startswith('min:'):
            k = a.kind
            if last == 'write' and len(c.args) == 2:
                f = peel(I, s, c.args[1])
                if isinstance(f, It) and f.kind.startswith(('file:w', 'bufw:')):
                    o = s.copy()
                    self.write_event(I, s, k)
                    if f.kind.startswith('bufw:'):
                        s.ghost['~buffered'] = True
                    self.fail(o, 'writing the output')
                    dd = I.T[c.destty]
                    return [(s, res_ok(I, c.destty, I.top(s, dd['variants'][0]['f'][0][1]))),
                            (o, res_err(I, c.destty, self.ioerr(I, dd['variants'][1]['f'][0][1])))]
                if isinstance(f, VecV) or isinstance(c.args[1], Ref):
                    s.taint = s.taint | {'minified text written to memory'}
            if last == 'fmt':
                return NotImplemented
        s.taint = s.taint | {name}
        return I.top(s, c.destty)

    # ------------------------------------------------------------------ paths and files
    def fs(self, I, s, c, name, last, av):
        T = I.T
        d = T[c.destty] if c.destty is not None else {'k': '?'}
        a0 = av[0] if av else None
        p0 = prov(a0)
        if name in ('std::io::_eprint', 'std::io::_print'):
            self.said(s)
            return unit(I, c.destty)
        if name.startswith('std::io::std'):
            return It(last, c.destty, ())
        if name.startswith('std::thread') or name.startswith('std::env') and last in ('set_current_dir', 'set_var', 'remove_var'):
            s.taint = s.taint | {name}
            return I.top(s, c.destty)
        if name in ('std::process::exit', 'std::process::abort'):
            if s.ghost.get('~cur'):
                self.file_end(I, s)
            self.end(I, s, last)
            return []
        if name.startswith('std::env'):
            return self.derived(I, s, c, last, av)
        # ---- OpenOptions
        if name.startswith('std::fs::OpenOptions') or 'std::fs::OpenOptions' in name:
            if last in ('new', 'options'):
                return It('opts:', c.destty, ())
            if isinstance(a0, It) and a0.kind.startswith('opts:'):
                if last == 'open':
                    fl = a0.kind[5:]
                    p = prov(av[1])
                    if not set(fl) & set('wat'):
                        return self.open_read(I, s, c, p)
                    mode = 'truncated' if 't' in fl else 'opened for writing'
                    return self.open_write(I, s, c, p, mode, 't' in fl or 'n' in fl)
                fl = {'write': 'w', 'append': 'a', 'truncate': 't', 'create': 'c', 'create_new': 'n', 'read': 'r'}.get(last)
                v = c.args[1] if len(c.args) > 1 else None
                if fl and v in (True, False):
                    k = set(a0.kind[5:])
                    k = k | {fl} if v else k - {fl}
                    setref(I, s, c.args[0], It('opts:' + ''.join(sorted(k)), a0.ty, ()))
                    return c.args[0]
                if fl is None and last in ('mode', 'custom_flags'):
                    return c.args[0]
            s.taint = s.taint | {name}
            return I.top(s, c.destty)
        if name in ('std::fs::File::options',):
            return It('opts:', c.destty, ())
        if name in ('std::fs::File::open', 'std::fs::read_to_string', 'std::fs::read') or name == 'std::fs::File::open_buffered':
            if last == 'open':
                return self.open_read(I, s, c, p0)
            return self.read_all(I, s, c, p0, last)
        if name in ('std::fs::File::create', 'std::fs::File::create_new'):
            return self.open_write(I, s, c, p0, 'truncated' if last == 'create' else 'created', True)
        if name == 'std::fs::write':
            self.open_event(I, s, p0, 'truncated')
            o = s.copy()
            self.fail(o, 'writing the output')
            s.ghost['~trunc'] = True
            self.write_event(I, s, self.payload_text(I, s, c.args[1]))
            return [(s, res_ok(I, c.destty, unit(I, self.okty(I, c)))),
                    (o, res_err(I, c.destty, self.ioerr(I, T[c.destty]['variants'][1]['f'][0][1])))]
        if name in ('std::fs::rename', 'std::fs::copy', 'std::fs::hard_link'):
            self.open_event(I, s, prov(av[1]), 'replaced')
            if last == 'rename':
                self.lost(I, s, prov(av[0]), 'renamed')
            return self.fallible(I, s, c, I.top(s, self.okty(I, c)), last)
        if name in ('std::fs::remove_file', 'std::fs::remove_dir_all', 'std::fs::remove_dir', 'std::fs::File::set_len'):
            self.lost(I, s, p0, 'removed' if 'remove' in last else 'truncated')
            return self.fallible(I, s, c, I.top(s, self.okty(I, c)), last)
        if name in ('std::fs::create_dir_all', 'std::fs::create_dir'):
            return self.fallible(I, s, c, I.top(s, self.okty(I, c)), 'creating a directory')
        if name.startswith('std::fs::') or name.startswith('<std::fs::File'):
            if isinstance(a0, It) and a0.kind.startswith('file:'):
                pass
            elif last in ('metadata', 'symlink_metadata', 'canonicalize', 'exists', 'read_dir', 'read_link'):
                return self.derived(I, s, c, last, av)
            elif a0 is None or not isinstance(a0, It):
                if last == 'drop':
                    return unit(I, c.destty)
                s.taint = s.taint | {name}
                return I.top(s, c.destty)
        if last == 'new' and 'BufWriter' in name or last == 'with_capacity' and 'BufWriter' in name or 'LineWriter' in name and last == 'new':
            f = next((a for a in av if isinstance(a, It)), None)
            if f is not None:
                return It('bufw:' + f.kind, c.destty, ())
        if last == 'new' and 'BufReader' in name:
            f = next((a for a in av if isinstance(a, It)), None)
            if f is not None:
                return It(f.kind, c.destty, ())
        # ---- open files
        if isinstance(a0, It) and a0.kind.startswith(('file:', 'bufw:', 'bufr:')):
            r = self.on_file(I, s, c, name, last, a0, av)
            if r is not NotImplemented:
                return r
        if name in ('std::io::read_to_string',):
            return self.read_handle(I, s, c, a0, None)
        if isinstance(a0, It) and a0.kind in ('stderr', 'stdout'):
            if last == 'lock':
                return It(a0.kind, c.destty, ())
            if last == 'flush':
                return res_ok(I, c.destty, unit(I, self.okty(I, c)))
            return NotImplemented
        # ---- paths
        if last in ('as_ref', 'deref', 'as_os_str', 'as_path', 'borrow', 'as_mut_os_str', 'deref_mut') and d['k'] == 'ref' and \
                (p0 is not None or isinstance(a0, It) and a0.kind.startswith('ostr:')):
            return c.args[0]
        if last in ('clone', 'to_path_buf', 'to_owned', 'into_os_string', 'from', 'into', 'into_boxed_path', 'new',
                    'to_os_string', 'as_os_string', 'into_path_buf', 'join_paths') and len(av) == 1:
            if isinstance(a0, It) and (p0 is not None or a0.kind.startswith('ostr:')):
                if d['k'] == 'ref':
                    return RefC(It(a0.kind, d['to'], ()))
                return It(a0.kind, c.destty, ())
            t = self.text(I, s, a0)
            if t is not None:
                k = ('ostr:' + t)
                if 'Path' in str(T[d['to']] if d['k'] == 'ref' else d):
                    k = 'path:' + 'lit<' + t.replace('\0', '') + '>'
                return RefC(It(k, d['to'], ())) if d['k'] == 'ref' else It(k, c.destty, ())
        if name in ('std::path::Path::extension',) and p0 is not None:
            return self.extension(I, s, c, p0)
        if isinstance(a0, It) and a0.kind.startswith('ostr:') or len(av) > 1 and isinstance(av[1], It) and av[1].kind.startswith('ostr:'):
            r = self.ostr(I, s, c, name, last, av)
            if r is not NotImplemented:
                return r
        if name == 'std::path::PathBuf::push' and p0 is not None:
            setref(I, s, c.args[0], path(a0.ty, 'join(%s,%s)' % (p0, self.pname(I, s, av[1]))))
            return unit(I, c.destty)
        if last == 'join' and p0 is not None:
            return path(c.destty, 'join(%s,%s)' % (p0, self.pname(I, s, av[1])))
        if name == 'std::path::PathBuf::set_extension' and p0 is not None:
            t = self.text(I, s, av[1])
            setref(I, s, c.args[0], path(a0.ty, 'ext(%s,%s)' % (p0, '?' if t is None or '\0' in t else t)))
            return fresh_bool(s)
        if last == 'with_extension' and p0 is not None:
            t = self.text(I, s, av[1])
            return path(c.destty, 'ext(%s,%s)' % (p0, '?' if t is None or '\0' in t else t))
        if last in ('set_file_name', 'with_file_name') and p0 is not None:
            k = 'name(%s,%s)' % (p0, self.pname(I, s, av[1]))
            if last == 'set_file_name':
                setref(I, s, c.args[0], path(a0.ty, k))
                return unit(I, c.destty)
            return path(c.destty, k)
        if last == 'pop' and p0 is not None:
            setref(I, s, c.args[0], path(a0.ty, 'dir(%s)' % p0))
            return fresh_bool(s)
        if last in ('is_dir',) and p0 == 'out':
            if '~outdir' in s.ghost:
                return s.ghost['~outdir']
            o = s.copy()
            s.ghost['~outdir'] = True
            o.ghost['~outdir'] = False
            return [(s, True), (o, False)]
        if name.startswith(('std::path', '<std::path', 'std::ffi', '<std::ffi')):
            return self.derived(I, s, c, last, av)
        return NotImplemented

    def pname(self, I, s, v):
        p = prov(v)
        if p is not None:
            return p
        t = self.text(I, s, v)
        if t is not None:
            return t if '\0' not in t else '?'
        v = peel(I, s, v)
        # a text made from a path
        names = []
        if isinstance(v, (FmtArgs, StrV, StringV)):
            for k, x, _ in self.pieces_of(I, s, v):
                if k == 'lit':
                    names.append(x.replace(',', ';').replace('\0', ''))
                else:
                    y = x
                    n = 4
                    while n and isinstance(y, (Ref, RefC)):
                        y = peel(I, s, y)
                        n -= 1
                    q = prov(y)
                    names.append(q if q is not None else '?')
            return '+'.join(names)
        return '?'

    def derived(self, I, s, c, last, av):
        """an effect-free function of paths"""
        ps = [prov(a) for a in av if prov(a) is not None]
        k = 'path:%s(%s)' % (last, ','.join(ps))
        T = I.T

        def mk(t, st):
            d = T[t]
            if d['k'] == 'ref':
                return RefC(mk(d['to'], st)) if T[d['to']]['k'] != 'str' else I.top(st, t)
            n = d.get('name', '')
            if n in ('std::path::Path', 'std::path::PathBuf', 'std::ffi::OsStr', 'std::ffi::OsString', 'std::path::Display') or \
                    n.startswith(('std::path', 'std::ffi')) and d['k'] == 'adt' and d['kind'] == 'struct' or n.endswith('::Cow'):
                return It(k, t, ())
            return I.top(st, t)
        d = T[c.destty]
        if d['k'] == 'bool':
            return fresh_bool(s)
        if d['k'] == 'adt' and d['name'].endswith('::Option'):
            o = s.copy()
            return [(s, opt_some(I, c.destty, mk(d['variants'][1]['f'][0][1], s))), (o, opt_none(I, c.destty))]
        if d['k'] == 'adt' and d['name'].endswith('::Result'):
            o = s.copy()
            o.ghost['~faults'] = True
            return [(s, res_ok(I, c.destty, mk(d['variants'][0]['f'][0][1], s))),
                    (o, res_err(I, c.destty, self.ioerr(I, d['variants'][1]['f'][0][1])))]
        return mk(c.destty, s)

    def extension(self, I, s, c, p):
        T = I.T
        t = T[c.destty]['variants'][1]['f'][0][1]

        def val(e):
            if e == '':
                return opt_none(I, c.destty)
            return opt_some(I, c.destty, RefC(It('ostr:' + e, T[t]['to'], ())))
        if p != 'in':
            return self.derived(I, s, c, 'extension', [path(None, p)])
        if '~ext' in s.ghost:
            return val(s.ghost['~ext'])
        out = []
        for e in ('',) + TYPES + tuple(x.upper() for x in TYPES) + (OTHER, NONUTF):
            q = s.copy()
            q.ghost['~ext'] = e
            out.append((q, val(e)))
        return out

    def ostr(self, I, s, c, name, last, av):
        d = I.T[c.destty]
        a0 = av[0]
        t = a0.kind[5:] if isinstance(a0, It) and a0.kind.startswith('ostr:') else self.text(I, s, a0)
        if last in ('eq', 'ne', 'eq_ignore_ascii_case') and len(av) > 1:
            b = self.text(I, s, av[1])
            if t is None or b is None:
                return fresh_bool(s)
            if t.startswith('\0') or b.startswith('\0'):
                o = b if t.startswith('\0') else t
                if o.lower() in TYPES:
                    r = False
                elif t == b:
                    r = True
                else:
                    return fresh_bool(s)
            elif last == 'eq_ignore_ascii_case':
                r = t.lower() == b.lower()
            else:
                r = t == b
            return r if last != 'ne' else not r
        if t is None:
            return NotImplemented
        if last == 'to_ascii_lowercase':
            return It('ostr:' + (t.lower() if not t.startswith('\0') else t), c.destty, ())
        if last == 'make_ascii_lowercase':
            setref(I, s, c.args[0], It('ostr:' + (t.lower() if not t.startswith('\0') else t), a0.ty, ()))
            return unit(I, c.destty)
        if last == 'to_str':
            if t == NONUTF:
                return opt_none(I, c.destty)
            return opt_some(I, c.destty, StrV(t, 0, len(t)))
        if last == 'into_string':
            if t == NONUTF:
                return res_err(I, c.destty, I.top(s, d['variants'][1]['f'][0][1]))
            return res_ok(I, c.destty, StringV((t,), len(t)))
        if last == 'to_string_lossy':
            u = OTHER if t == NONUTF else t
            for i, v in enumerate(d.get('variants', ())):
                if v['n'] == 'Borrowed':
                    return Adt(c.destty, i, (StrV(u, 0, len(u)),))
        if last in ('is_empty',):
            return False
        if last in ('len',):
            return s.num(1, 1 << 20)
        return NotImplemented

    def open_read(self, I, s, c, p):
        if p == 'in':
            return self.fallible(I, s, c, It('file:r:in', self.okty(I, c), ()), 'opening the input')
        if p is None or '?' in p or 'in' in words(p):
            s.taint = s.taint | {'file read through another path'}
            return self.fallible(I, s, c, It('file:r:in', self.okty(I, c), ()), 'opening the input')
        return self.fallible(I, s, c, It('file:r:?', self.okty(I, c), ()), 'opening a file')

    def open_write(self, I, s, c, p, mode, trunc):
        self.open_event(I, s, p, mode)
        o = s.copy()
        self.fail(o, 'opening the output')
        s.ghost['~trunc'] = bool(trunc)
        return [(s, res_ok(I, c.destty, It('file:w', self.okty(I, c), ()))),
                (o, res_err(I, c.destty, self.ioerr(I, I.T[c.destty]['variants'][1]['f'][0][1])))]

    def lost(self, I, s, p, how):
        g = s.ghost
        if p is None or '?' in p:
            s.taint = s.taint | {'a file is %s' % how}
        if g.get('~min') not in TYPES:
            self.flag(I, s, 'C18', 'removed before minified', 'a file is %s before the input was minified' % how)
        elif p == 'in':
            self.flag(I, s, 'C18', 'input lost', 'the input is %s' % how)

    def read_all(self, I, s, c, p, last):
        if p != 'in':
            s.taint = s.taint | {'file read through another path'}
        okt = self.okty(I, c)
        o = s.copy()
        s.ghost['~read'] = 'ok'
        o.ghost['~read'] = 'err'
        self.fail(o, 'reading the input')
        v = StringV((CONTENT,), len(CONTENT)) if last == 'read_to_string' else I.top(s, okt)
        return [(s, res_ok(I, c.destty, v)),
                (o, res_err(I, c.destty, self.ioerr(I, I.T[c.destty]['variants'][1]['f'][0][1])))]

    def read_handle(self, I, s, c, a0, buf):
        okt = self.okty(I, c)
        o = s.copy()
        what = CONTENT if isinstance(a0, It) and a0.kind == 'file:r:in' else '\0other'
        if what == CONTENT:
            s.ghost['~read'] = 'ok'
            o.ghost['~read'] = 'err'
        self.fail(o, 'reading the input')
        if buf is not None:
            setref(I, s, buf, StringV((what,), len(what)))
            setref(I, o, buf, I.top(o, I.T[self.strty(I)] and self.strty(I)))
            v = s.num(0, 1 << 40)
        else:
            v = StringV((what,), len(what))
        return [(s, res_ok(I, c.destty, v)),
                (o, res_err(I, c.destty, self.ioerr(I, I.T[c.destty]['variants'][1]['f'][0][1])))]

    def strty(self, I):
        for i, d in enumerate(I.T):
            if d.get('k') == 'adt' and d['name'].endswith('string::String'):
                return i

    def on_file(self, I, s, c, name, last, a0, av):
        if last in ('as_ref', 'deref', 'by_ref', 'borrow', 'as_mut', 'deref_mut', 'get_ref', 'get_mut'):
            return c.args[0]
        if last == 'read_to_string':
            return self.read_handle(I, s, c, a0, c.args[1])
        if last in ('flush', 'sync_all', 'sync_data', 'into_inner'):
            o = s.copy()
            s.ghost.pop('~buffered', None)
            self.fail(o, 'flushing the output')
            v = It('file:w', self.okty(I, c), ()) if last == 'into_inner' else I.top(s, self.okty(I, c))
            return [(s, res_ok(I, c.destty, v)),
                    (o, res_err(I, c.destty, self.ioerr(I, I.T[c.destty]['variants'][1]['f'][0][1])))]
        if last in ('write_fmt', 'write_all'):
            if a0.kind.startswith(('file:w', 'bufw:')):
                return self.do_write(I, s, c, a0)
        if last == 'set_len':
            s.taint = s.taint | {name}
            return self.fallible(I, s, c, I.top(s, self.okty(I, c)), last)
        if last == 'metadata':
            return self.fallible(I, s, c, I.top(s, self.okty(I, c)), last)
        if last in ('fmt',):
            return NotImplemented
        s.taint = s.taint | {name}
        return I.top(s, c.destty)


def words(t):
    import re
    return set(re.findall(r'\b(in|out)\b', t))
