"""C28: the circuit's sign bit.

The constraints recorded while interpreting y_to_bit / normalize / is_eq_zero
are solved for all field values at once: for every assignment of the Boolean
witnesses, the field witnesses are eliminated and the remaining conditions are
intervals of the coordinates; the line is then cut into cells on which nothing
changes and the result bit is compared with the native rule on each cell."""
import itertools
import bdd
from values import *
from registry import spec
from framework import Missing
from r1cslib import var, SETUP, val
from arklib import P377 as P

H = (P - 1) // 2
FULL = ((0, P - 1),)


def isect(a, b):
    out = []
    for x in a:
        for y in b:
            lo, hi = max(x[0], y[0]), min(x[1], y[1])
            if lo <= hi:
                out.append((lo, hi))
    return tuple(out)


def comp(a):
    out, p = [], 0
    for lo, hi in sorted(a):
        if p < lo:
            out.append((p, lo - 1))
        p = hi + 1
    if p <= P - 1:
        out.append((p, P - 1))
    return tuple(out)


def affine_range(s, d, lo, hi):
    """{y : lo <= s*y+d <= hi} for s = +-1, as intervals of [0, P-1]"""
    out = []
    if s == 1:
        a, b = (lo - d) % P, (hi - d) % P
    else:
        a, b = (d - hi) % P, (d - lo) % P
    if hi - lo >= P - 1:
        return FULL
    return ((a, b),) if a <= b else ((0, b), (a, P - 1))


class Sys:
    """constraints over coordinates `ys`, Boolean witnesses and field witnesses"""

    def __init__(self, I, eff, ys):
        self.ys = list(ys)
        self.bools, self.wires, self.hon = [], [], {}
        self.polys, self.ranges = [], []
        for g, kind, d, w in eff:
            if kind != 'r1cs':
                continue
            g = bdd.restrict(g, {'setup': 1})
            what = d[0]
            if what == 'alloc':
                wv, hv = d[3], d[4]
                if isinstance(wv, Bool):
                    a = bdd.as_literal(wv.b)[0]
                    self.bools.append(a)
                    self.hon[a] = hv
                elif isinstance(wv, Struct) and wv.name == 'FpVar':
                    a = val(wv).p.single_atom()
                    self.wires.append(a)
                    self.hon[a] = hv
                else:
                    raise Undecided('witness of another type in the sign computation')
                continue
            if g == 0:
                continue
            if what == 'zero':
                for q, gg in d[1]:
                    gg = bdd.and_(g, gg)
                    if gg != 0:
                        self.polys.append((q, gg))
            elif what == 'bool':
                self.polys.append((boolpoly(bdd.neg(d[1].b)), g))
            elif what == 'half':
                self.ranges += [(x.p, bdd.and_(g, gg), 0, H) for x, gg in leaves(d[1])]
            elif what == 'le' and isinstance(d[2], Alg) and set(dict(d[2].p.m)) <= {()}:
                self.ranges += [(x.p, bdd.and_(g, gg), 0, dict(d[2].p.m).get((), 0) % P) for x, gg in leaves(d[1])]
            elif what in ('allocerr', 'hash', 'input'):
                pass
            else:
                raise Undecided('constraint %s in the sign computation' % what)
        self.unmod = set()
        for q, g in self.polys:
            self.unmod |= unmodelled(Alg(q, 'F')) | unmodelled(Bool(g))

    def subst_bools(self, q, beta):
        r = Poly.of({})
        for m, c in q.m:
            t = {(): c}
            keep = []
            for a in m:
                if isinstance(a, tuple) and len(a) == 2 and a[0] == 'b' and isinstance(a[1], int):
                    b = bdd.restrict(a[1], beta)
                    if b > 1:
                        raise Undecided('constraint depends on %s' % show_bdd(b)[:80])
                    c *= b
                else:
                    keep.append(a)
            if c % P:
                r = r.add(Poly.of({tuple(keep): c}))
        return self.mod(r)

    @staticmethod
    def mod(q):
        d = {}
        for m, c in q.m:
            if not isinstance(c, int):
                raise Undecided('fraction')
            c %= P
            if c > H:
                c -= P
            if c:
                d[m] = c
        return Poly.of(d)

    def solve(self, beta, zero):
        """boxes {coordinate: intervals} admitted under the Boolean assignment, with `zero` the coordinates that are 0"""
        polys = []
        for q, g in self.polys:
            b = bdd.restrict(g, beta)
            if b == 0:
                continue
            if b != 1:
                raise Undecided('constraint guarded by %s' % show_bdd(b)[:80])
            q = self.subst_bools(q, beta)
            for y in zero:
                q = q.subst({y: Poly.of({})}.get)
            polys.append(self.mod(q))
        ranges = []
        for q, g, lo, hi in self.ranges:
            b = bdd.restrict(g, beta)
            if b == 0:
                continue
            if b != 1:
                raise Undecided('guarded range')
            q = self.subst_bools(q, beta)
            for y in zero:
                q = q.subst({y: Poly.of({})}.get)
            ranges.append([self.mod(q), lo, hi])
        sol = {}
        live = [y for y in self.ys if y not in zero]
        box = {y: ((0, 0),) if y in zero else ((1, P - 1),) for y in self.ys}
        go = True
        while go:
            go = False
            for q in polys:
                if not q.m:
                    polys = [x for x in polys if x is not q]
                    go = True
                    break
                for w in self.wires:
                    ms = [(m, c) for m, c in q.m if w in m]
                    if len(ms) != 1:
                        continue
                    m, c = ms[0]
                    others = [x for x in polys if x is not q]
                    if m == (w,):
                        e = self.mod(q.add(Poly.of({m: c}), -1).scale(pow(-c, -1, P)))
                        polys = [self.mod(x.subst({w: e}.get)) for x in others]
                        for r in ranges:
                            r[0] = self.mod(r[0].subst({w: e}.get))
                        sol = {k: self.mod(v.subst({w: e}.get)) for k, v in sol.items()}
                        sol[w] = e
                        go = True
                        break
                    rest = [a for a in m if a != w]
                    if m.count(w) == 1 and all(a in live for a in rest) and not any(w in x.atoms() for x in others) \
                            and not any(w in r[0].atoms() for r in ranges):
                        polys = others
                        go = True
                        break
                if go:
                    break
        for q in polys:
            ms = list(q.m)
            if len(ms) == 1 and all(a in live for a in ms[0][0]):
                return []
            d = dict(q.m)
            c = d.pop((), 0)
            if len(d) == 1 and len(list(d)[0]) == 1 and list(d)[0][0] in live:
                (y,), s = list(d.items())[0]
                v = -c * pow(s, -1, P) % P
                box[y] = isect(box[y], ((v, v),))
                continue
            raise Undecided('constraint %s' % show(Alg(q, 'F'))[:120])
        free = set()
        for q, lo, hi in ranges:
            d = dict(q.m)
            c = d.pop((), 0)
            if not d:
                if not lo <= c % P <= hi:
                    return []
                continue
            if len(d) == 1 and len(list(d)[0]) == 1:
                (a,), s = list(d.items())[0]
                if a in live and s in (1, -1):
                    box[a] = isect(box[a], affine_range(s, c % P, lo, hi))
                    continue
                if a in self.wires and a not in free:
                    free.add(a)
                    continue
            raise Undecided('range of %s' % show(Alg(q, 'F'))[:120])
        if any(not b for b in box.values()):
            return []
        return [(box, sol)]

    # honest witness at concrete coordinate values
    def evalb(self, b, env):
        n = 0
        while b > 1:
            a = sorted(bdd.support(b), key=aord)[0]
            b = bdd.restrict(b, {a: int(self.evatom(a, env))})
            n += 1
        return b

    def evatom(self, a, env):
        if a in env:
            return env[a]
        if a[0] == 'eq0':
            return self.evp(a[1], env) == 0
        if a[0] == 'below':
            return self.evp(a[1], env) < a[2]
        raise Undecided('witness depends on %s' % show_atom(a)[:80])

    def evp(self, q, env):
        if not isinstance(q, Poly):
            q = Poly.atom(q) if not hasattr(q, 'p') else q.p
        t = 0
        for m, c in q.m:
            for a in m:
                if a in env:
                    c = c * int(env[a])
                elif isinstance(a, tuple) and a[0] == 'b' and isinstance(a[1], int):
                    c = c * self.evalb(a[1], env)
                elif isinstance(a, tuple) and a[0] == 'inv':
                    v = self.evp(a[1], env)
                    if v == 0:
                        raise Undecided('inverse of zero')
                    c = c * pow(v, -1, P)
                else:
                    raise Undecided('witness depends on %s' % show_atom(a)[:80])
            t += c
        return t % P

    def honest(self, ysv):
        env = dict(ysv)
        for a in self.bools + self.wires:      # in allocation order where it matters
            hv = self.hon[a]
            if isinstance(hv, Bool):
                env[a] = self.evalb(hv.b, env)
        for a in self.wires:
            for x, g in leaves(self.hon[a]):
                if self.evalb(g, env):
                    if not isinstance(x, Alg):
                        raise Undecided('witness %s' % show(x)[:80])
                    env[a] = self.evp(x.p, env)
        return env

    def satisfied(self, env):
        for q, g in self.polys:
            if self.evalb(g, env) and self.evp(q, env) != 0:
                return 'constraint %s fails' % show(Alg(q, 'F'))[:300]
        for q, g, lo, hi in self.ranges:
            if self.evalb(g, env) and not lo <= self.evp(q, env) <= hi:
                return 'range constraint on %s fails' % show(Alg(q, 'F'))[:300]
        return None


def decide(s, res, native, exceptions):
    """(uniqueness, completeness, at the exceptions): descriptions or None.
    native(dict y->value) is the required bit; exceptions(dict) tells the listed odd points"""
    boxes = []
    for bits in itertools.product((0, 1), repeat=len(s.bools)):
        beta = dict(zip(s.bools, bits))
        for zero in itertools.product((False, True), repeat=len(s.ys)):
            z = [y for y, t in zip(s.ys, zero) if t]
            for box, sol in s.solve(beta, z):
                boxes.append((beta, box))
    cells = {}
    for y in s.ys:
        pts = {0, 1, H - 1, H, H + 1, H + 2, P - 1}
        for _, box in boxes:
            for lo, hi in box[y]:
                pts |= {lo, hi, (lo - 1) % P, (hi + 1) % P}
        ps = sorted(pts)
        cs = []
        for a, b in zip(ps, ps[1:] + [None]):
            cs.append((a, a))
            if b is not None and b - a > 1:
                cs.append((a + 1, b - 1))
        cells[y] = cs
    uniq = exc = full = None
    ncell = 0
    for combo in itertools.product(*[cells[y] for y in s.ys]):
        rep = {y: (c[0] + c[1]) // 2 for y, c in zip(s.ys, combo)}
        ncell += 1
        want = native(rep)
        ex = exceptions(rep)
        txt = ', '.join('%s in [%d, %d]' % (show_atom(y)[:40], c[0], c[1]) if c[0] != c[1] else '%s = %d' % (show_atom(y)[:40], c[0]) for y, c in zip(s.ys, combo))
        for beta, box in boxes:
            if all(any(lo <= rep[y] <= hi for lo, hi in box[y]) for y in s.ys):
                env = dict(rep)
                env.update(beta)
                r = s.evalb(res.b, env)
                if r != want:
                    m = 'with %s the constraints admit the bit %d, the native rule gives %d' % (txt, r, want)
                    if ex:
                        exc = exc or m
                    else:
                        uniq = uniq or m
        env = s.honest(rep)
        bad = s.satisfied(env)
        if bad:
            full = full or 'with %s the honest witness fails: %s' % (txt, bad)
        elif s.evalb(res.b, env) != want:
            full = full or 'with %s the honest bit is %d, the native rule gives %d' % (txt, s.evalb(res.b, env), want)
    return uniq, full, exc, ncell, len(boxes)


def sign_native(y):
    return int(y > H)


@spec('C28', 11,
      'The constraints and witnesses that the sign gadget records for an arbitrary coordinate are solved exactly: Boolean witnesses are '
      'enumerated, field witnesses eliminated, range constraints become intervals of the coordinate, and the field is cut into cells on '
      'which nothing changes. On every cell the admitted values of the result bit must be the single native one, and the honest '
      'witness must satisfy the constraints with that value.',
      ['enforce_smaller_or_equal_than_mod_minus_one_div_two (ark-r1cs-std) bounds the canonical representative by (p-1)/2',
       'Boolean::new_witness constrains the witness to 0 or 1'])
def c28(c):
    configs = [('compat',), ()]

    def sysof(I, d, recv, ys):
        r, st = c.run(I, d, [recv])
        if r is None:
            raise Undecided('does not return')
        ls = leaves(r)
        if len(ls) != 1 or not isinstance(ls[0][0], Enum):
            if any(isinstance(x, Enum) and x.var == 'Ok' for x, _ in ls):
                bad = [g for x, g in ls if isinstance(x, Enum) and x.var == 'Err']
                if bad and all(bdd.support(g) <= {'setup'} for g in bad):
                    return None, None, 'fails in setup mode'
            raise Undecided('result %s' % show(r)[:120])
        x = ls[0][0]
        if x.var != 'Ok':
            return None, None, 'always fails'
        if not isinstance(x.e[0], Bool):
            raise Undecided('result %s' % show(x)[:120])
        s = Sys(I, I.effects, ys)
        if s.unmod:
            raise Undecided('uses unmodelled %s' % ', '.join(sorted(s.unmod))[:200])
        return s, x.e[0], None

    for cfg in configs:
        tag = ' [%s]' % (cfg[0] if cfg else 'no features')

        def recv(I, g):
            if g == 'Fp':
                return var('FpVar', asym('y', 'F'))
            return var(g + 'Var', asym('Q', g + 'a'))

        def run(what, part, cfg=cfg):
            cache = {}

            def f():
                if what not in memo:
                    I = c.interp(*cfg)
                    g, name = {'G1': ('G1', 'y_to_bit'), 'G2': ('G2', 'y_to_bit'), 'normalize': ('Fp', 'normalize'),
                               'is_eq_zero': ('Fp', 'is_eq_zero')}[what]
                    v = recv(I, g)
                    d = I.find_user_method(v, name)
                    if d is None:
                        raise Missing('%s of %s' % (name, v.name))
                    c.anchors.append(d.path)
                    from arklib import coord
                    if g == 'Fp':
                        ys = ['y']
                    elif g == 'G1':
                        ys = [coord(asym('Q', 'G1a'), 'y').p.single_atom()]
                    else:
                        y = coord(asym('Q', 'G2a'), 'y')
                        ys = [coord(y, 'c0').p.single_atom(), coord(y, 'c1').p.single_atom()]
                    s, res, err = sysof(I, d, v, ys)
                    if err:
                        memo[what] = (err, err, err)
                    else:
                        if what == 'is_eq_zero':
                            nat, exc = (lambda r: int(r[ys[0]] == 0)), (lambda r: False)
                        elif g == 'G2':
                            nat = lambda r: sign_native(r[ys[1]]) if r[ys[1]] else sign_native(r[ys[0]])
                            exc = lambda r: r[ys[1]] == H or r[ys[1]] == 0 and r[ys[0]] == H
                        else:
                            nat, exc = (lambda r: sign_native(r[ys[0]])), (lambda r: r[ys[0]] == H)
                        u, f_, e, nc, nb = decide(s, res, nat, exc)
                        memo[what] = (u, f_, e)
                        c.partition[what + tag] = '%d Boolean witnesses, %d field witnesses, %d feasible regions, %d cells' % (len(s.bools), len(s.wires), nb, nc)
                        c.sample('%s%s: ' % (what, tag) + '; '.join(show(Alg(q, 'F'))[:200] + ' = 0' for q, _ in s.polys))
                return memo[what][part]
            return f
        memo = {}
        for what in ('is_eq_zero', 'normalize', 'G1', 'G2'):
            c.ob('%s admits only the native bit%s' % (what, tag), run(what, 0))
            c.ob('%s honest witness%s' % (what, tag), run(what, 1))
            if what != 'is_eq_zero':
                c.ob('%s sign at half the modulus%s' % (what, tag), run(what, 2))

        def const(what):
            def f():
                I = c.interp(*cfg)
                v = var('FpVar', asym('y', 'F'), True)
                d = I.find_user_method(v, what)
                if d is None:
                    raise Missing(what)
                r, st = c.run(I, d, [v])
                y = asym('y', 'F')
                if what == 'is_eq_zero':
                    w = I.eq0(y.p)
                else:
                    w = I.cmp('>', y, Alg(Poly.const(H), 'F'))
                return c.same(r, Ok(Bool(w)), 1, '%s of a constant' % what)
            return f
        c.ob('is_eq_zero of a constant' + tag, const('is_eq_zero'))
        c.ob('normalize of a constant' + tag, const('normalize'))
