"""Reduced ordered decision diagrams over named atoms: the canonical form of
path conditions, booleans and bits.  Node 0 is false, node 1 is true."""
import sys
sys.setrecursionlimit(200000)

_var_of = {}      # atom key -> variable index
_atoms = []       # index -> atom key
_nodes = [(1 << 60, 0, 0), (1 << 60, 1, 1)]
_uniq = {}
_ite_memo = {}


def reset():
    _var_of.clear(); _atoms.clear(); _uniq.clear(); _ite_memo.clear()
    del _nodes[2:]


def _mk(v, lo, hi):
    if lo == hi:
        return lo
    k = (v, lo, hi)
    n = _uniq.get(k)
    if n is None:
        n = len(_nodes)
        _nodes.append(k)
        _uniq[k] = n
    return n


def atom(key):
    i = _var_of.get(key)
    if i is None:
        i = len(_atoms)
        _var_of[key] = i
        _atoms.append(key)
    return _mk(i, 0, 1)


def ite(f, g, h):
    if f == 1:
        return g
    if f == 0:
        return h
    if g == h:
        return g
    if g == 1 and h == 0:
        return f
    k = (f, g, h)
    r = _ite_memo.get(k)
    if r is not None:
        return r
    nf, ng, nh = _nodes[f], _nodes[g], _nodes[h]
    v = min(nf[0], ng[0], nh[0])
    f0, f1 = (nf[1], nf[2]) if nf[0] == v else (f, f)
    g0, g1 = (ng[1], ng[2]) if ng[0] == v else (g, g)
    h0, h1 = (nh[1], nh[2]) if nh[0] == v else (h, h)
    r = _mk(v, ite(f0, g0, h0), ite(f1, g1, h1))
    _ite_memo[k] = r
    return r


def neg(f):
    return ite(f, 0, 1)


def and_(*fs):
    r = 1
    for f in fs:
        r = ite(r, f, 0)
        if r == 0:
            return 0
    return r


def or_(*fs):
    r = 0
    for f in fs:
        r = ite(r, 1, f)
        if r == 1:
            return 1
    return r


def xor(f, g):
    return ite(f, neg(g), g)


def implies(f, g):
    return ite(f, g, 1)


def iff(f, g):
    return neg(xor(f, g))


def constrain(f, c):
    """f simplified using the care set c (agrees with f wherever c holds)."""
    if c == 0 or c == 1 or f <= 1:
        return f
    memo = {}

    def go(f, c):
        if c == 1 or f <= 1:
            return f
        if f == c:
            return 1
        k = (f, c)
        if k in memo:
            return memo[k]
        nf, nc = _nodes[f], _nodes[c]
        v = min(nf[0], nc[0])
        f0, f1 = (nf[1], nf[2]) if nf[0] == v else (f, f)
        c0, c1 = (nc[1], nc[2]) if nc[0] == v else (c, c)
        if c0 == 0:
            r = go(f1, c1)
        elif c1 == 0:
            r = go(f0, c0)
        else:
            r = _mk(v, go(f0, c0), go(f1, c1))
        memo[k] = r
        return r
    return go(f, c)


def restrict(f, assign):
    """cofactor by a partial assignment {atom key: bool}"""
    a = {_var_of[k]: b for k, b in assign.items() if k in _var_of}
    memo = {}

    def go(n):
        if n <= 1:
            return n
        if n in memo:
            return memo[n]
        v, lo, hi = _nodes[n]
        if v in a:
            r = go(hi if a[v] else lo)
        else:
            r = _mk(v, go(lo), go(hi))
        memo[n] = r
        return r
    return go(f)


def support(f):
    seen, out, st = set(), set(), [f]
    while st:
        n = st.pop()
        if n <= 1 or n in seen:
            continue
        seen.add(n)
        v, lo, hi = _nodes[n]
        out.add(_atoms[v])
        st += [lo, hi]
    return out


def as_literal(f):
    """(atom key, polarity) if f is a single literal, else None"""
    if f <= 1:
        return None
    v, lo, hi = _nodes[f]
    if lo == 0 and hi == 1:
        return _atoms[v], True
    if lo == 1 and hi == 0:
        return _atoms[v], False
    return None


def conjuncts(f):
    """list of literals if f is a conjunction of literals, else None"""
    out = []
    while f > 1:
        v, lo, hi = _nodes[f]
        if lo == 0:
            out.append((_atoms[v], True)); f = hi
        elif hi == 0:
            out.append((_atoms[v], False)); f = lo
        else:
            return None
    return out if f == 1 else None


def cubes(f, limit=6):
    """some cubes of f as lists of (atom, polarity), for reports"""
    out = []

    def go(n, acc):
        if len(out) >= limit:
            return
        if n == 0:
            return
        if n == 1:
            out.append(list(acc)); return
        v, lo, hi = _nodes[n]
        go(hi, acc + [(_atoms[v], True)])
        go(lo, acc + [(_atoms[v], False)])
    go(f, [])
    return out


def map_atoms(f, fn, memo=None):
    """rebuild f replacing every atom key a by the diagram fn(a)"""
    memo = {} if memo is None else memo

    def go(n):
        if n <= 1:
            return n
        if n in memo:
            return memo[n]
        v, lo, hi = _nodes[n]
        r = ite(fn(_atoms[v]), go(hi), go(lo))
        memo[n] = r
        return r
    return go(f)


def size():
    return len(_nodes)
