"""Shared by C04, C05, C06, C11: what a tokenizer in product with its monitor (engine/tile.py) yields."""
import os, pickle
import order, tile

SPACE = ' \t\n\r'


def analyse(c, root, h, limit=500):
    p = c.prog('lib')
    I, out, ab = tile.analyse(p, root, h, limit=limit)
    if h.ety is not None:
        h.neutral |= h.blanks(I)
    c.count('characters read (abstract)', h.chars)
    c.count('functions analysed', len(I.stats['fns']))
    c.count('tokens pushed (abstract)', sum(h.pushed.values()))
    c.count('kinds of tokens pushed', len(h.pushed))
    c.count('returning states', len(out))
    return I, out, ab


def resolved(c, root, I, h, out, ab):
    """the analysis covers the root"""
    ok = [s for s, r in out if r]
    if ab or h.und or not h.chars or not h.pushed or (not ok and not h.bad):
        c.undecided(root, 'not resolved: %s %s' % (ab, sorted(m for _, m in h.und)[:5]))
        return False
    return True


def neutral(h, label):
    return label in h.neutral


def flags(c, h, kind, key):
    n = 0
    for (k, m), w in sorted(h.bad.items()):
        if k == kind:
            n += 1
            c.violation('%s: %s' % (key, m), '%s at %s' % (m, w))
    return n


def ends(c, root, h, out, what):
    """success means that all of the text was put into tokens"""
    n = 0
    for s, r in out:
        if not r:
            continue
        g = s.ghost
        if not g['~eof']:
            m = 'success without reading all of the text'
        elif g['~P'] or not h.finished(s):
            m = 'success with text left over that is in no token'
            if g['~cs'] is not None and g['~lic'] and h.le(s, g['~E'], g['~cs']):
                h.bad.setdefault(('license', 'a license comment is left out at the end'), root)
        else:
            continue
        n += 1
        if s.taint:
            c.undecided('%s: %s' % (root, m), 'depends on what is not modelled')
        elif what:
            c.violation('%s: %s' % (root, m), m)
    return n


def sorted_out(c, root, h, what):
    """the tokens dropped, kept and replaced after tokenizing; what: 'text' or 'comment'"""
    for d, name in ((h.drop, 'dropped'), (h.kept, 'kept')):
        for lab, (w, taint) in sorted(d.items()):
            key = '%s: %s is %s' % (root, lab, name)
            if lab == '?' or '?' in lab:
                c.undecided(key, 'the token is not known at %s' % w)
                continue
            com = lab in h.comments
            bad = None
            if what == 'text' and name == 'dropped' and not com and not neutral(h, lab):
                bad = 'a %s token is removed from the output' % lab
            elif what == 'comment' and name == 'kept' and com:
                bad = 'the text of an ordinary comment (%s) stays in the output' % lab
            elif what == 'comment' and name == 'dropped' and lab in h.license:
                bad = 'a license comment (%s) is removed from the output' % lab
            if bad is None:
                c.ok(key, w)
            elif taint:
                c.undecided(key, bad)
            else:
                c.violation(key, '%s at %s' % (bad, w))
    for (a, b), (w, taint) in sorted(h.replaced.items()):
        key = '%s: %s becomes %s' % (root, a, b)
        if '?' in a + b:
            c.undecided(key, 'a token is not known at %s' % w)
            continue
        bad = None
        if what == 'text' and not (a in h.comments or neutral(h, a)):
            bad = 'a %s token is replaced' % a
        elif what == 'text' and not (neutral(h, b) or a == b):
            bad = 'a %s token becomes a %s token' % (a, b)
        elif what == 'comment' and a in h.license:
            bad = 'a license comment is replaced'
        elif what == 'comment' and b in h.comments:
            bad = 'a token becomes a comment'
        if bad is None:
            c.ok(key, w)
        elif taint:
            c.undecided(key, bad)
        else:
            c.violation(key, '%s at %s' % (bad, w))


def rendered(c, root, I0, h0):
    """the rendering loop writes each token once, in order, as it was analysed here, with white space at most between"""
    I, h, _ = order.analyse(c.prog('lib'), root, lambda I, t, k: I.T[t]['variants'][k]['n'])
    c.count('rendering loops')
    n = 0
    for m, site in h.bad.items():
        n += 1
        c.violation('%s: %s' % (root, m), 'at %s' % (site,))
    for m, site in h.odd.items():
        n += 1
        c.undecided('%s: %s' % (root, m), 'at %s' % (site,))
    if not h.elems or not h.exits:
        c.undecided(root, 'no element is rendered on an analysed path')
        return
    f = h0.tpl.display(I0, h0.ety)
    key = '%s: the tokens are rendered by their Display implementation' % root
    names = {f} if f else set()
    if not names or None in h.impls:
        c.undecided(key, 'implementation not resolved: %s' % sorted(map(str, h.impls)))
    elif h.impls != names:
        c.undecided(key, 'rendered by %s, not %s' % (sorted(h.impls), sorted(names)))
    else:
        c.ok(key, root)
    bad = sorted(r for r in h.rel if r[1].strip(SPACE))
    c.require('%s: white space at most between tokens' % root, not bad, 'other text is written: %s' % (bad[:3],))
    if not n:
        c.ok('%s: every token is written once, in order' % root, root)


class Record:
    """collects what is reported, to be replayed in another process"""
    def __init__(self, c):
        self.c = c
        self.calls = []

    def prog(self, kind):
        return self.c.prog(kind)

    def __getattr__(self, name):
        if name not in ('count', 'ok', 'violation', 'undecided', 'require'):
            raise AttributeError(name)

        def call(*a, **k):
            self.calls.append((name, a, k))
        return call


def reported(c, jobs):
    """{name: function of a check}: run side by side, then reported to c in order"""
    def run(f):
        def g():
            r = Record(c)
            f(r)
            return r.calls
        return g
    for name, r in parallel({k: run(f) for k, f in jobs.items()}).items():
        if isinstance(r, str):
            c.undecided(name, r)
            continue
        for n, a, k in r:
            getattr(c, n)(*a, **k)


def parallel(jobs):
    """{name: function} -> {name: result}, each run in a process of its own; a result that is text says what failed"""
    run = {}
    for k, f in jobs.items():
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                d = pickle.dumps(f())
            except BaseException as e:
                if os.environ.get('VERIF_DEBUG'):
                    import traceback
                    traceback.print_exc()
                d = pickle.dumps('not completed: %s' % (str(e)[:300] or type(e).__name__))
            with os.fdopen(w, 'wb') as o:
                o.write(d)
            os._exit(0)
        os.close(w)
        run[k] = (pid, r)
    out = {}
    for k, (pid, r) in run.items():
        with os.fdopen(r, 'rb') as i:
            d = i.read()
        os.waitpid(pid, 0)
        out[k] = pickle.loads(d) if d else 'ended early'
    return out
