"""C16: every recursive cycle of the library has a constant depth bound."""
import graph
import run as runner
from dom import *

LIMIT = 4096          # frames; a frame of the recognised functions is below 1 kB
LOG_TYPES = {'VariableNameGenerator'}   # chain of name letters: grows by one when all shorter names are used up


class Rec:
    def __init__(self):
        self.calls = []

    def on_payload(self, *a):
        pass

    def fresh_elem(self, *a):
        return None

    def on_elem_write(self, I, st, v, idx, old, new, g):
        return g

    def at_head(self, *a):
        pass

    def on_recursion(self, I, s, fn, ent, args):
        row = []
        for i, a in enumerate(args):
            e = ent[i] if i < len(ent) else None
            if e is None or not is_num(a):
                row.append(None)
                continue
            row.append((s.lower(lsub(a, e)), s.upper(lsub(a, e)), s.lower(a), s.upper(a)))
        self.calls.append((fn, row, I.site(s), bool(s.taint)))


def recursive_adts(p):
    """ADTs of the library that contain themselves through a Box"""
    T = p.types
    out = {}

    def contained(t, seen):
        d = T[t]
        if t in seen:
            return
        seen.add(t)
        if d['k'] == 'adt':
            for v in d['variants']:
                for _, ft in v['f']:
                    contained(ft, seen)
            for a in d['args']:
                if isinstance(a, int):
                    contained(a, seen)
        elif d['k'] == 'tuple':
            for x in d['e']:
                contained(x, seen)
        elif d['k'] in ('array', 'slice'):
            contained(d['e'], seen)
    for t, d in enumerate(T):
        if d['k'] == 'adt' and d['name'].startswith('minifier::'):
            seen = set()
            for v in d['variants']:
                for _, ft in v['f']:
                    contained(ft, seen)
            if t in seen:
                out[t] = d['name']
    return out


def analyse(c, kind):
    p = c.prog(kind)
    seen = graph.reach(p, p.roots.values())
    c.count('functions in the call graph (%s)' % kind, len(seen))
    comps = [x for x in graph.sccs(sorted(seen), lambda k: graph.edges(p, k)) if any(graph.is_user(p, k) for k in x)]
    c.count('recursive cycles through the library', len(comps))
    radt = recursive_adts(p)
    for t, n in radt.items():
        short = n.split('::')[-1]
        c.require('recursive type %s' % n, short in LOG_TYPES,
                  'dropping or walking a chain of %s recurses once per link and its length follows the input' % n)
    for comp in comps:
        for k in comp:
            fn = p.fns.get(k)
            if fn is None or not graph.is_user(p, k):
                continue
            name = fn.name
            t0 = p.types[fn.locals[1]] if fn.nargs else None
            if t0 and t0['k'] == 'ref' and t0['to'] in radt:
                short = radt[t0['to']].split('::')[-1]
                c.require('structural recursion %s' % name, short in LOG_TYPES,
                          '%s recurses over an input-sized structure' % name, '%s:%d' % (fn.file, fn.line))
                continue
            h = Rec()
            I = runner.make(p, [h])
            I.coarse_recursion = True
            st = State()
            fn.prep()
            args = [I.top(st, fn.locals[i + 1]) for i in range(fn.nargs)]
            I.cur = (fn, fn.line)
            try:
                I.run_fn(st, fn, args)
            except Exception as e:
                c.undecided('recursion of %s' % name, 'analysis stopped: %s %s' % (type(e).__name__, e))
                continue
            mine = [x for x in h.calls if x[0] is fn]
            c.count('recursive call paths', len(mine))
            if not mine:
                c.undecided('recursion of %s' % name, 'recursive call not reached')
                continue
            n = fn.nargs
            inc = [i for i in range(n) if all(r[i] is not None and r[i][0] >= 1 and r[i][3] <= LIMIT for _, r, _, _ in mine)]
            dec = [i for i in range(n) if all(r[i] is not None and r[i][1] <= -1 and r[i][2] >= 0 for _, r, _, _ in mine)]
            dec = [i for i in dec if bounded_start(p, seen, comp, k, i)]
            f, l = mine[0][2]
            where = '%s:%s' % (f.file, l)
            if inc or dec:
                b = max(r[(inc or dec)[0]][3] for _, r, _, _ in mine)
                c.ok('recursion of %s cut off by argument %d' % (name, (inc or dec)[0] + 1), '%s (bound %s)' % (where, b))
            elif any(x[3] for x in mine):
                c.undecided('recursion of %s' % name, 'no bound found on a path with unmodelled calls')
            else:
                c.violation('recursion of %s' % name, '%s: no argument is bounded by a constant on the recursive path' % where)


def bounded_start(p, seen, comp, k, i):
    """every call from outside the cycle passes a constant for argument i"""
    for x in seen:
        if x in comp or x not in p.fns:
            continue
        for b, l, kk, t in graph.calls(p.fns[x]):
            if kk == k:
                o = t[2][i] if i < len(t[2]) else None
                if not (o and o[0] == 'k' and isinstance(o[2], dict) and o[2].get('i', LIMIT + 1) <= LIMIT):
                    return False
    return True


def run(c):
    c.rule('Rule: in the call graph of the public API (calls, closures, formatted values), every cycle through a library '
           'function has a numeric argument that strictly grows at each recursive call and is at most %d there on every '
           'path (abstract interpretation of the body), or strictly decreases from a constant, or walks a chain whose '
           'length is logarithmic in the input.' % LIMIT)
    c.assume.append('A chain of VariableNameGenerator links has one link per letter of the generated name.')
    analyse(c, 'html')
