"""Call-graph queries over the extracted MIR."""
from mir import place_use


def operands(fn):
    """every operand of the body: (block, where, operand)"""
    for b, (stmts, t) in enumerate(fn.blocks):
        for s in stmts:
            if s[0] == '=':
                for o in rv_operands(s[2]):
                    yield b, s[3], o
        if t[0] == 'call':
            for o in t[2]:
                yield b, t[5], o
            if isinstance(t[1], dict) and 'ptr' in t[1]:
                yield b, t[5], t[1]['ptr']
        elif t[0] == 'switch':
            yield b, t[5], t[1]


def rv_operands(r):
    k = r[0]
    if k in ('use', 'repeat'):
        return [r[1]]
    if k in ('bin', 'chk'):
        return [r[2], r[3]]
    if k in ('un', 'cast'):
        return [r[2]]
    if k == 'agg':
        return r[3]
    return []


def calls(fn):
    """(block, line, callee key or None, terminator)"""
    for b, (stmts, t) in enumerate(fn.blocks):
        if t[0] == 'call':
            yield b, t[5], t[1] if isinstance(t[1], str) else None, t


def is_user(prog, key, crates=('minifier',)):
    return prog.callees[key]['crate'] in crates


def fn_values(prog, fn):
    """keys of functions mentioned as values (fn items, closures, reified pointers)"""
    out = set()
    T = prog.types

    def ty(t):
        d = T[t]
        if d['k'] in ('fndef', 'closure') and d.get('key'):
            out.add(d['key'])

    def const(c):
        if isinstance(c, dict):
            if 'fn' in c:
                out.add(c['fn'])
            for v in c.values():
                if isinstance(v, list):
                    for x in v:
                        const(x)
                elif isinstance(v, dict):
                    const(v)
    for b, l, o in operands(fn):
        if o[0] == 'k':
            ty(o[1])
            const(o[2])
    for b, (stmts, t) in enumerate(fn.blocks):
        for s in stmts:
            if s[0] == '=' and s[2][0] == 'cast':
                x = s[2][5] if len(s[2]) > 5 else None
                if isinstance(x, str):
                    out.add(x)
            if s[0] == '=' and s[2][0] == 'agg' and isinstance(s[2][2], int):
                ty(s[2][2])
    return out


def edges(prog, key):
    """callees of a body, including the functions it mentions as values and those hidden in the
    type arguments of its callees (closures, Display::fmt of formatted values)"""
    fn = prog.fns.get(key)
    if fn is None:
        return set()
    out = set()
    for b, l, k, t in calls(fn):
        if k is not None:
            out.add(k)
    out |= fn_values(prog, fn)
    return out


def reach(prog, roots):
    seen = set()
    st = list(roots)
    while st:
        k = st.pop()
        if k in seen:
            continue
        seen.add(k)
        for x in edges(prog, k):
            if x not in seen:
                st.append(x)
    return seen


def sccs(nodes, succ):
    """Tarjan, iterative; returns the cyclic components"""
    idx, low, on, st, out = {}, {}, set(), [], []
    n = [0]
    for root in nodes:
        if root in idx:
            continue
        work = [(root, iter(succ(root)))]
        idx[root] = low[root] = n[0]
        n[0] += 1
        st.append(root)
        on.add(root)
        while work:
            v, it = work[-1]
            adv = False
            for w in it:
                if w not in idx:
                    idx[w] = low[w] = n[0]
                    n[0] += 1
                    st.append(w)
                    on.add(w)
                    work.append((w, iter(succ(w))))
                    adv = True
                    break
                elif w in on:
                    low[v] = min(low[v], idx[w])
            if adv:
                continue
            work.pop()
            if work:
                low[work[-1][0]] = min(low[work[-1][0]], low[v])
            if low[v] == idx[v]:
                comp = []
                while True:
                    w = st.pop()
                    on.discard(w)
                    comp.append(w)
                    if w == v:
                        break
                if len(comp) > 1 or v in set(succ(v)):
                    out.append(comp)
    return out


def dominators(fn):
    """block -> set of dominating blocks"""
    fn.prep()
    order = sorted(fn.rpo, key=lambda b: fn.rpo[b])
    pred = {b: [] for b in order}
    for b in order:
        for s in fn.succ[b]:
            pred[s].append(b)
    dom = {order[0]: {order[0]}}
    allb = set(order)
    for b in order[1:]:
        dom[b] = set(allb)
    ch = True
    while ch:
        ch = False
        for b in order[1:]:
            ps = [dom[p] for p in pred[b]]
            n = set.intersection(*ps) if ps else set()
            n = n | {b}
            if n != dom[b]:
                dom[b] = n
                ch = True
    return dom
