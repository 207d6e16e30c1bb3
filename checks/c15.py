"""C15: nothing observable depends on hash iteration order, time, randomness, environment or addresses."""
import re
import graph

DENY = ('std::time::', 'std::env::', 'std::thread::', 'std::process::', 'std::hash::random', 'rand::', 'getrandom::',
        'std::net::', 'std::fs::')
HASH = re.compile(r'std::collections::(hash_map|hash_set|HashMap|HashSet|hash::map|hash::set)\b')
SRC = {'iter', 'iter_mut', 'into_iter', 'keys', 'values', 'values_mut', 'into_keys', 'into_values', 'drain',
       'extract_if', 'union', 'intersection', 'difference', 'symmetric_difference', 'retain'}
FLOW = {'map', 'filter', 'filter_map', 'cloned', 'copied', 'rev', 'chain', 'zip', 'peekable', 'into_iter', 'iter',
        'iter_mut', 'collect', 'by_ref', 'deref', 'deref_mut', 'as_mut_slice', 'as_slice', 'from_iter', 'extend',
        'enumerate', 'skip', 'take', 'flat_map', 'flatten', 'inspect', 'to_vec', 'clone', 'as_mut', 'as_ref',
        'borrow', 'borrow_mut', 'skip_while', 'take_while', 'step_by', 'cmp', 'into_boxed_slice', 'into_vec', 'append',
        'push', 'insert', 'index', 'index_mut', 'into', 'from', 'reverse', 'next', 'next_back', 'peek', 'pop',
        'unwrap', 'expect', 'push_str', 'to_owned', 'to_string', 'for_each', 'get', 'remove', 'format', 'map_or',
        'as_str', 'entry', 'or_insert', 'or_insert_with', 'new', 'branch', 'unwrap_or', 'must_use'}
GROW = {'push', 'insert', 'push_str', 'extend', 'append', 'push_back', 'push_front', 'extend_from_slice'}
ABSORB = {'insert', 'extend', 'entry', 'remove', 'contains', 'contains_key', 'get', 'index', 'get_mut'}
OBSERVE = {'find', 'position', 'nth', 'last', 'first', 'reduce', 'join', 'concat', 'min_by', 'max_by', 'min_by_key',
           'max_by_key', 'find_map', 'split_first', 'split_last'}
WRITE = {'write_all', 'write_fmt', 'write_str', 'write_char'}
SORT = {'sort', 'sort_unstable', 'sort_by', 'sort_unstable_by', 'sort_by_key', 'sort_unstable_by_key',
        'sort_by_cached_key'}
NEUTRAL = {'len', 'is_empty', 'any', 'all', 'count', 'contains', 'contains_key', 'capacity', 'reserve', 'sum', 'max',
           'min', 'drop', 'is_none', 'is_some', 'eq', 'ne', 'cmp', 'partial_cmp', 'starts_with', 'ends_with', 'get_or_insert', 'size_hint', 'with_capacity', 'shrink_to_fit', 'clear'}
PROJ = {'cmp', 'partial_cmp', 'reverse', 'then', 'then_with', 'lt', 'gt', 'eq', 'clone', 'as_str', 'deref', 'as_ref',
        'borrow', 'to_owned', 'to_string', 'copied', 'cloned'}


def last(d):
    return d.split('::')[-1]


class A:
    def __init__(self, c, p):
        self.c, self.p = c, p
        self.memo = {}
        self.alias = {}

    def closure_ok(self, key, depth=0):
        """True: the comparator compares (or the key contains) an untransformed part of the element;
        None: not analysed; else a description of the lossy key"""
        fn = self.p.fns.get(key)
        if fn is None or depth > 3:
            return None
        pure = set(range(1, fn.nargs + 1))
        lossy = None
        good = False
        for _ in range(3):
            for b, (stmts, t) in enumerate(fn.blocks):
                for s in stmts:
                    if s[0] != '=':
                        continue
                    rv = s[2]
                    if rv[0] == 'agg':
                        ok = any(o[0] in ('c', 'm') and o[1][0] in pure for o in graph.rv_operands(rv))
                    elif rv[0] == 'cast':
                        ok = self.op_pure(pure, rv[2]) and self.wide(rv[3], rv[4]) if len(rv) > 4 else \
                            self.op_pure(pure, rv[2])
                        if not ok and self.op_pure(pure, rv[2]):
                            lossy = 'a narrowing cast'
                    elif rv[0] == 'use':
                        ok = self.op_pure(pure, rv[1])
                    elif rv[0] in ('ref', 'addr'):
                        pl = rv[2] if rv[0] == 'ref' else rv[1]
                        ok = pl[0] in pure
                    else:
                        if rv[0] in ('bin', 'chk') and rv[1] not in ('Eq', 'Lt', 'Gt', 'Le', 'Ge', 'Ne', 'Cmp'):
                            lossy = lossy or 'arithmetic on the key'
                        if rv[0] in ('bin', 'chk') and rv[1] in ('Cmp', 'Lt', 'Gt', 'Le', 'Ge'):
                            if any(self.op_pure(pure, o) for o in graph.rv_operands(rv)):
                                good = True
                        ok = False
                    if ok:
                        pure.add(s[1][0])
                if t[0] == 'call':
                    f, ops, dest = t[1], t[2], t[3]
                    if not isinstance(f, str):
                        return None
                    d = self.p.callees[f]['def']
                    if last(d) in ('then', 'then_with'):
                        for ty in t[6]:
                            td = self.p.types[ty]
                            if td['k'] in ('closure', 'fndef') and self.closure_ok(td['key'], depth + 1) is True:
                                good = True
                    allp = bool(ops) and all(self.op_pure(pure, o) for o in ops)
                    if last(d) in ('cmp', 'partial_cmp', 'lt', 'gt', 'le', 'ge') and not graph.is_user(self.p, f):
                        if allp:
                            good = True
                    elif last(d) in PROJ:
                        if allp:
                            pure.add(dest[0])
                    elif graph.is_user(self.p, f):
                        r = self.closure_ok(f, depth + 1)
                        if r is None:
                            return None
                        if r is True and allp:
                            good = True
                            pure.add(dest[0])
                    else:
                        lossy = lossy or d
        rt = self.p.tystr(fn.locals[0])
        if rt.endswith('Ordering') or rt == 'bool':
            return True if good else (lossy or 'no comparison of the element')
        return True if 0 in pure else (lossy or 'a transformed key')

    def op_pure(self, pure, o):
        return o[0] in ('c', 'm') and o[1][0] in pure

    def wide(self, a, b):
        ta, tb = (self.p.types[x] if isinstance(x, int) else {} for x in (a, b))
        if ta.get('k') == 'int' and tb.get('k') == 'int':
            return tb['bits'] >= ta['bits']
        return ta.get('k') != 'int' or tb.get('k') != 'bool'

    def bases(self, fn, l):
        """locals that `l` may borrow from (flow-insensitive)"""
        m = self.alias.get(fn.key)
        if m is None:
            m = self.alias[fn.key] = {}
            for stmts, t in fn.blocks:
                for s in stmts:
                    if s[0] == '=':
                        rv = s[2]
                        if rv[0] in ('ref', 'addr'):
                            pl = rv[2] if rv[0] == 'ref' else rv[1]
                            m.setdefault(s[1][0], set()).add(pl[0])
                        elif rv[0] in ('use', 'cast', 'agg'):
                            for o in graph.rv_operands(rv):
                                if o[0] in ('c', 'm') and self.p.types[fn.locals[o[1][0]]]['k'] in ('ref', 'ptr', 'closure'):
                                    m.setdefault(s[1][0], set()).add(o[1][0])
                if t[0] == 'call' and self.p.types[fn.locals[t[3][0]]]['k'] in ('ref', 'ptr') and t[2]:
                    o = t[2][0]
                    if o[0] in ('c', 'm'):
                        m.setdefault(t[3][0], set()).add(o[1][0])
        out, st = set(), [l]
        while st:
            x = st.pop()
            if x not in out:
                out.add(x)
                st.extend(m.get(x, ()))
        return out

    def run(self, key, tainted=frozenset()):
        """-> (returns an unordered sequence, parameters left unordered)"""
        m = (key, tainted)
        if m in self.memo:
            return self.memo[m]
        self.memo[m] = (False, frozenset())
        fn = self.p.fns[key]
        fn.prep()
        # alias sets: local -> roots (creation sites of unordered sequences)
        start = frozenset((l, ('p', l)) for l in tainted)
        inn = {0: start}
        work = [0]
        ret = set()
        outp = set()
        seen_out = False
        it = 0
        while work and it < 5000:
            it += 1
            b = work.pop()
            st = inn[b]
            out = self.block(fn, b, st)
            if fn.blocks[b][1][0] == 'ret':
                if any(l == 0 for l, r in out):
                    ret.add(1)
                outp |= {r[1] for l, r in out if r[0] == 'p' and l == r[1]}
            for s in fn.succ[b]:
                n = inn.get(s, frozenset()) | out if s in inn else out
                if s not in inn or n != inn[s]:
                    inn[s] = n
                    if s not in work:
                        work.append(s)
        self.memo[m] = (bool(ret), frozenset(outp))
        return self.memo[m]

    def roots_of(self, st, o):
        if o[0] in ('c', 'm'):
            l = o[1][0]
            return {r for x, r in st if x == l}
        return set()

    def block(self, fn, b, st):
        stmts, t = fn.blocks[b]
        for s in stmts:
            if s[0] == 'dead':
                st = frozenset(x for x in st if x[0] != s[1])
            elif s[0] == '=':
                rv = s[2]
                rs = set()
                if rv[0] in ('ref', 'addr'):
                    pl = rv[2] if rv[0] == 'ref' else rv[1]
                    rs = {r for x, r in st if x == pl[0]}
                elif rv[0] == 'discr' or rv[0] == 'len':
                    rs = set()
                else:
                    for o in graph.rv_operands(rv):
                        rs |= self.roots_of(st, o)
                    if rv[0] in ('bin', 'chk'):
                        rs = set()
                if len(s[1]) == 1:
                    st = frozenset(x for x in st if x[0] != s[1][0])
                st = st | {(s[1][0], r) for r in rs}
        if t[0] == 'call':
            st = self.call(fn, b, t, st)
        elif t[0] == 'drop':
            pass
        return st

    def call(self, fn, b, t, st):
        _, f, ops, dest, target, line, argtys, destty = t
        c, p = self.c, self.p
        rs = set()
        for o in ops:
            rs |= self.roots_of(st, o)
        d0 = dest[0]
        if len(dest) == 1:
            st = frozenset(x for x in st if x[0] != d0)
        if not isinstance(f, str):
            if rs:
                c.undecided('%s: unordered data passed to an unknown callee' % fn.name, '%s:%s' % (fn.file, line))
            return st
        d = p.callees[f]['def']
        nm = last(d)
        key = '%s -> %s' % (fn.name, d)
        where = '%s:%s' % (fn.file, line)
        dt = p.tystr(destty)
        if HASH.search(d) and nm in SRC and not graph.is_user(p, f):
            c.count('hash iterations')
            if nm == 'retain':
                return st
            return st | {(d0, ('h', fn.key, b))}
        if graph.is_user(p, f):
            tp = frozenset(i + 1 for i, o in enumerate(ops) if self.roots_of(st, o))
            r, outp = self.run(f, tp) if f in p.fns else (False, frozenset())
            for i, o in enumerate(ops):
                if i + 1 in tp and i + 1 not in outp:
                    rr = self.roots_of(st, o)
                    if self.p.types[argtys[i]]['k'] == 'ref' and self.p.types[argtys[i]].get('mut'):
                        st = frozenset(x for x in st if x[1] not in rr)
            if r:
                st = st | {(d0, ('h', fn.key, b))}
            return st
        if not rs:
            return st
        if nm in SORT:
            cmpf = None
            for i, ty in enumerate(argtys):
                td = p.types[ty]
                if td['k'] in ('closure', 'fndef'):
                    cmpf = td['key']
            bad = self.closure_ok(cmpf) if cmpf else True
            if bad is True:
                c.ok('hash order sorted in %s' % fn.name, where)
                return frozenset(x for x in st if x[1] not in rs)
            if bad is None:
                c.undecided(key, 'comparator not analysed')
                return frozenset(x for x in st if x[1] not in rs)
            c.violation('partial sort key in %s' % fn.name,
                        '%s sorts hash-ordered data by a key that may tie (%s)' % (where, bad))
            return frozenset(x for x in st if x[1] not in rs)
        if re.search(r'collections::(BTreeMap|BTreeSet|HashMap|HashSet|btree|hash)', dt) and nm in ('collect', 'from_iter'):
            c.ok('hash order absorbed by a set or map in %s' % fn.name, where)
            return st
        if nm in WRITE:
            c.violation('hash iteration order written in %s' % fn.name, '%s: written in hash order' % where)
            return st
        if nm in NEUTRAL or nm in ABSORB and HASH.search(d) or nm in ABSORB and 'collections::btree' in d:
            return st
        if nm in FLOW or 'fmt::' in d or d.startswith(('std::option::Option', 'std::result::Result')):
            st = st | {(d0, r) for r in rs}
            ty0 = p.types[argtys[0]] if argtys else {}
            grow = []
            if nm in GROW and ty0.get('k') == 'ref' and any(self.roots_of(st, o) for o in ops[1:]):
                grow.append(ops[0])
            for o, ty in zip(ops, argtys):
                if p.types[ty]['k'] == 'closure' and nm not in ('retain',):
                    grow.append(o)
            for o in grow:
                if o[0] not in ('c', 'm'):
                    continue
                for l in self.bases(fn, o[1][0]):
                    if self.grows(fn, l, nm):
                        st = st | {(l, r) for r in rs}
            return st
        if nm in OBSERVE:
            c.violation('hash iteration order used in %s by %s' % (fn.name, nm),
                        '%s: %s sees elements in hash order' % (where, d))
            return st
        c.undecided('hash iteration order reaches %s in %s' % (nm, fn.name), '%s: %s' % (where, d))
        return st

    def grows(self, fn, l, nm):
        """a collection whose order is observable"""
        t = self.p.tystr(fn.locals[l])
        return not HASH.search(t) and re.search(r'Vec<|String\b|VecDeque|LinkedList|Tokens', t) is not None


def run(c):
    c.rule('Rule: in every reachable library body, a sequence obtained by iterating a HashMap/HashSet flows (through '
           'moves, adapters, collect) only into a total sort, an ordered or unordered set, or an order-insensitive '
           'query before any element of it is used; and no callee yields time, randomness, environment or an address.')
    c.assume.append('A sort key that is a field of the element (a generated name, an array position) is unique per element.')
    for kind in ('html',):
        p = c.prog(kind)
        seen = graph.reach(p, p.roots.values())
        user = [k for k in seen if graph.is_user(p, k) and k in p.fns]
        c.count('library functions (%s)' % kind, len(user))
        a = A(c, p)
        api = set()
        for k in p.fns:
            if not graph.is_user(p, k) or p.callees[k]['crate'] == 'vharness':
                for b, l, x, t in graph.calls(p.fns[k]) if p.callees[k]['crate'] == 'vharness' else ():
                    if x and graph.is_user(p, x) and x in p.fns and p.callees[x]['crate'] != 'vharness':
                        api.add(x)
        c.count('public entry points', len(api))
        if not api:
            c.undecided('entry points', 'no public entry point found')
        for k in user:
            r, outp = a.run(k)
            fn = p.fns[k]
            if k in api:
                c.require('result order of %s' % fn.name, not r and not outp,
                          '%s returns a sequence in hash iteration order' % fn.name, fn.file)
            for x in sorted(graph.edges(p, k)):
                d = p.callees[x]['def']
                kk = '%s calls %s' % (fn.name, d)
                if d.startswith(DENY):
                    c.violation(kk, 'nondeterministic callee (%s)' % fn.file)
                else:
                    c.ok(kk)
            for b, (stmts, t) in enumerate(fn.blocks):
                for s in stmts:
                    if s[0] == '=' and s[2][0] == 'cast' and 'xpose' in str(s[2][1]):
                        c.violation('%s: address exposed' % fn.name, 'pointer cast to an integer (%s:%s)' % (fn.file, s[3]))
