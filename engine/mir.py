"""Loads the JSON written by mirdump and prepares per-function CFG facts."""
import json


class Fn:
    __slots__ = ('key', 'd', 'blocks', 'nargs', 'locals', 'spread', 'file', 'line', 'end', 'vars',
                 'rpo', 'heads', 'live', 'info', 'succ', 'name')

    def __init__(self, d, info):
        self.d = d
        self.key = d['key']
        self.info = info
        self.name = info['def']
        self.blocks = d['blocks']
        self.nargs = d['nargs']
        self.locals = d['locals']
        self.spread = d['spread']
        self.file = d['file']
        self.line = d['line']
        self.end = d['end']
        self.vars = d['vars']
        self.rpo = None

    def prep(self):
        if self.rpo is not None:
            return
        n = len(self.blocks)
        succ = [succs(b[1]) for b in self.blocks]
        self.succ = succ
        # iterative DFS for RPO and back edges
        color = [0] * n
        order = []
        heads = set()
        stack = [(0, iter(succ[0]))]
        color[0] = 1
        while stack:
            b, it = stack[-1]
            adv = False
            for s in it:
                if color[s] == 0:
                    color[s] = 1
                    stack.append((s, iter(succ[s])))
                    adv = True
                    break
                elif color[s] == 1:
                    heads.add(s)
            if not adv:
                color[b] = 2
                order.append(b)
                stack.pop()
        order.reverse()
        self.rpo = {b: i for i, b in enumerate(order)}
        self.heads = heads
        self._liveness(order, succ)

    def _liveness(self, order, succ):
        use = {}
        deff = {}
        for b in order:
            u, d = set(), set()
            stmts, t = self.blocks[b]
            for s in stmts:
                if s[0] == '=':
                    rv_uses(s[2], u, d)
                    place_def(s[1], u, d)
                elif s[0] == 'sd':
                    place_use(s[1], u, d)
                elif s[0] == 'assume':
                    op_uses(s[1], u, d)
                elif s[0] == 'dead':
                    d.add(s[1])
            k = t[0]
            if k == 'switch':
                op_uses(t[1], u, d)
            elif k == 'call':
                if isinstance(t[1], dict) and 'ptr' in t[1]:
                    op_uses(t[1]['ptr'], u, d)
                for a in t[2]:
                    op_uses(a, u, d)
                place_def(t[3], u, d)
            elif k == 'assert':
                op_uses(t[1], u, d)
                for x in t[3][1:]:
                    if isinstance(x, list):
                        op_uses(x, u, d)
            elif k == 'ret':
                if 0 not in d:
                    u.add(0)
            use[b] = u
            deff[b] = d
        live = {b: set() for b in order}
        changed = True
        while changed:
            changed = False
            for b in reversed(order):
                out = set()
                for s in succ[b]:
                    out |= live[s]
                new = use[b] | (out - deff[b])
                if new != live[b]:
                    live[b] = new
                    changed = True
        self.live = live


def succs(t):
    k = t[0]
    if k == 'goto':
        return [t[1]]
    if k == 'switch':
        r = [x[1] for x in t[2]]
        r.append(t[3])
        return list(dict.fromkeys(r))
    if k == 'call':
        return [t[4]] if t[4] is not None else []
    if k == 'assert':
        return [t[4]]
    if k == 'drop':
        return [t[2]]
    return []


def place_use(p, u, d):
    if p[0] not in d:
        u.add(p[0])
    for e in p[1:]:
        if isinstance(e, list) and e[0] == 'i' and e[1] not in d:
            u.add(e[1])


def place_def(p, u, d):
    if len(p) == 1:
        d.add(p[0])
    else:
        place_use(p, u, d)


def op_uses(o, u, d):
    if o[0] in ('c', 'm'):
        place_use(o[1], u, d)


def rv_uses(r, u, d):
    k = r[0]
    if k == 'use':
        op_uses(r[1], u, d)
    elif k in ('ref',):
        place_use(r[2], u, d)
    elif k in ('addr', 'discr', 'len'):
        place_use(r[1], u, d)
    elif k in ('bin', 'chk'):
        op_uses(r[2], u, d)
        op_uses(r[3], u, d)
    elif k == 'un':
        op_uses(r[2], u, d)
    elif k == 'cast':
        op_uses(r[2], u, d)
    elif k == 'agg':
        for o in r[3]:
            op_uses(o, u, d)
    elif k == 'repeat':
        op_uses(r[1], u, d)


class Program:
    def __init__(self, path):
        with open(path) as f:
            d = json.load(f)
        self.types = d['types']
        self.callees = d['callees']
        self.roots = d['roots']
        self.fns = {}
        for f in d['fns']:
            self.fns[f['key']] = Fn(f, self.callees[f['key']])
        self._tystr = {}

    def by_def(self, suffix):
        return [f for f in self.fns.values() if f.name.endswith(suffix)]

    def tystr(self, t):
        r = self._tystr.get(t)
        if r is None:
            self._tystr[t] = '..'
            r = self._tystr[t] = self._tystr0(t)
        return r

    def _tystr0(self, t):
        d = self.types[t]
        k = d['k']
        if k == 'int':
            return ('i' if d['signed'] else 'u') + str(d['bits'])
        if k == 'adt':
            a = [self.tystr(x) if isinstance(x, int) else str(x) for x in d['args']]
            return d['name'] + ('<' + ','.join(a) + '>' if a else '')
        if k in ('ref', 'ptr'):
            return ('&' if k == 'ref' else '*') + ('mut ' if d['mut'] else '') + self.tystr(d['to'])
        if k == 'tuple':
            return '(' + ','.join(self.tystr(x) for x in d['e']) + ')'
        if k == 'slice':
            return '[' + self.tystr(d['e']) + ']'
        if k == 'array':
            return '[' + self.tystr(d['e']) + ';' + str(d['n']) + ']'
        if k in ('closure', 'fndef'):
            return k + ':' + d['def']
        if k == 'dyn':
            return 'dyn ' + d['trait']
        return k
