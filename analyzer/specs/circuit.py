"""The epoch circuit: C18 to C23 and the circuit part of C12 and C01"""
import bdd, arklib, stdlib, r1cslib
from values import *
from interp import State, Dead
from registry import spec
from framework import Missing, Violated
from specs.common import *
from specs import epoch as ep
from arklib import coord, fbits, P377
from r1cslib import SETUP, CS, multilin, primitive, boolatoms

VSU = 'epoch_snark::gadgets::epochs::ValidatorSetUpdate'
HALF = (P377 - 1) // 2


def sign_g1(I, a):
    return I.cmp('>', coord(a, 'y'), Alg(Poly.const(HALF), 'F'))


def sign_g2(I, a):
    y = coord(a, 'y')
    y0, y1 = coord(y, 'c0'), coord(y, 'c1')
    half = Alg(Poly.const(HALF), 'F')
    return bdd.or_(I.cmp('>', y1, half), bdd.and_(I.eq0(y1.p), I.cmp('>', y0, half)))


def hook_helpers(c, I, real=()):
    """trait helpers whose constraints C28 decides"""
    def user(head, name, f):
        for im, d in I.prog.by_method.get(name, []):
            if im.head.endswith(head) or head in str(im.head):
                I.hooks[d.path] = f
                I.hooks[(im.head, name)] = f

    def eqz(_, st, a, n):
        v = I.deref_deep(a[0], st)
        b = bdd.or_(*[bdd.and_(g, r1cslib.eqsplit(I, x.p)) for x, g in leaves(v.f['v'])])
        return Ok(Bool(bdd.restrict(b, {a: 0 for a in real})))

    def y2b(_, st, a, n):
        v = I.deref_deep(a[0], st)
        q = v.f['v']
        return Ok(lift(lambda x: Bool(sign_g1(I, Alg(x.p, 'G1a')) if v.name == 'G1Var' else sign_g2(I, Alg(x.p, 'G2a'))), q))
    user('FpVar', 'is_eq_zero', eqz)
    user('G1Var', 'y_to_bit', y2b)
    user('G2Var', 'y_to_bit', y2b)


def update(I, nv, ne, helper, ee='some', pe='some'):
    """the circuit's input for nv validators and ne transitions, every datum symbolic"""
    D_ = find(I, 'epoch_snark::gadgets::epoch_data::EpochData')
    S_ = find(I, 'epoch_snark::gadgets::single_update::SingleUpdate')
    V_ = find(I, VSU)
    H_ = find(I, 'epoch_snark::gadgets::epochs::HashToBitsHelper')

    def data(t):
        ent = {'some': lambda x: Some(bytes_sym(x + t, 16)), 'none': lambda x: NONE}
        return Struct(D_.path, {
            'maximum_non_signers': bsym('maxns' + t, 'u32'), 'index': Some(bsym('index' + t, 'u16')), 'round': Some(bsym('round' + t, 'u8')),
            'epoch_entropy': ent[ee]('ee'), 'parent_entropy': ent[pe]('pe'),
            'public_keys': Seq([Some(asym('pk%s.%d' % (t, j), 'G2')) for j in range(nv)])})
    ups = [Struct(S_.path, {'epoch_data': data(str(k)), 'signed_bitmap': Seq([Some(Bool(bdd.atom('signed%d.%d' % (k, j)))) for j in range(nv)])})
           for k in range(1, ne + 1)]
    h = NONE
    if helper:
        h = Some(Struct(H_.path, {'proof': Term('helper proof', ()), 'verifying_key': Term('helper key', ())}))
    return Struct(V_.path, {'initial_epoch': data('0'), 'num_validators': Int('u32', v=nv), 'epochs': Seq(ups),
                            'aggregated_signature': Some(asym('asig', 'G1')), 'hash_helper': h})



def circuit(c, cfg, nv, ne, helper, mode='S', real=(), **kw):
    """interpret the whole circuit; `real`: conditions known to be false from the constraints themselves"""
    I = c.interp(*cfg)
    I.wmode = mode
    opaque_h2c(c, I)
    hook_helpers(c, I, real)
    v = update(I, nv, ne, helper, **kw)
    d = find(I, VSU)
    fd = c.method(I, d.path, 'generate_constraints')
    r, st = c.run(I, fd, [v, CS], tyof(d))
    if r is None:
        p = [x for x in I.panics]
        raise Violated('the circuit can never be synthesised: %s' % (p[0][1:],))
    return I, r, st


# ------------------------------------------------------------------ recorded constraints
def names(x, out, stop=True):
    """input names a value depends on; True if it also depends on other wires"""
    w = False
    todo, seen = [x], set()
    while todo:
        y = todo.pop()
        if isinstance(y, str):
            out.add(y)
            continue
        if isinstance(y, (int, float, bytes, type(None), bool)):
            continue
        if id(y) in seen:
            continue
        seen.add(id(y))
        if isinstance(y, tuple):
            if len(y) == 2 and y[0] == 'b' and isinstance(y[1], int):
                todo += list(bdd.support(y[1]))
                continue
            if y and y[0] == 'w':
                w = True
                continue
            todo += list(y[1:] if len(y) > 1 and isinstance(y[0], str) else y)
        elif isinstance(y, Poly):
            todo += list(y.atoms())
        elif isinstance(y, Alg):
            todo.append(y.p)
        elif isinstance(y, Bool):
            todo += list(bdd.support(y.b))
        elif isinstance(y, Int):
            if y.bits is not None:
                for b in y.bits:
                    todo += list(bdd.support(b))
            elif y.lin is not None:
                todo.append(y.lin)
        elif isinstance(y, Gated):
            for v, g in y.g:
                todo.append(v)
                todo += list(bdd.support(g))
        elif isinstance(y, Seq):
            todo += list(y.e)
        elif isinstance(y, Seg):
            todo.append(getattr(y, 't', None))
        elif isinstance(y, (Enum, Tup)):
            todo += list(y.e)
        elif isinstance(y, Struct):
            todo += list(y.f.values())
        elif isinstance(y, Term):
            todo.append(y.a)
    return w


def only(hv):
    """the single input a value consists of, or None"""
    out = set()
    if names(hv, out):
        return None
    return out


class Sys:
    """what a synthesis recorded, as Boolean conditions over the wires"""

    def __init__(self, I, r=None, care=1):
        self.I = I
        self.ok = care
        if r is not None:
            self.ok = bdd.and_(care, bdd.or_(*[g for x, g in leaves(r) if isinstance(x, Enum) and x.var == 'Ok']))
        self.ok0, self.ok1 = (bdd.restrict(self.ok, {'setup': b}) for b in (0, 1))
        self.allocs, self.inputs, self.hashes, self.proofs = [], [], [], []
        self.partial, self.unequal = [], []
        raw = []
        for g, kind, d, where in I.effects:
            if kind != 'r1cs':
                continue
            g1, g0 = bdd.restrict(g, {'setup': 1}), bdd.restrict(g, {'setup': 0})
            always = bdd.implies(self.ok1, g1) == 1 and bdd.implies(self.ok0, g0) == 1
            if d[0] == 'alloc':
                self.allocs.append((d[1][0], d[2], d[3], d[4], where, always))
                continue
            if d[0] == 'allocerr':
                continue
            if not always:
                self.partial.append((d, where))
                continue
            if d[0] == 'input':
                self.inputs.append((d[1], where))
            elif d[0] == 'hash':
                self.hashes.append((d[1], where))
            elif d[0] == 'inner':
                self.proofs.append((d[1:], where))
            elif d[0].startswith('unequal'):
                self.unequal.append((d, where))
            else:
                raw.append((d, where))
        self.raw = raw
        self.sub = {}
        self.roles()

    # ---- wires
    def watom(self, w):
        if isinstance(w, Struct) and 'v' in w.f and isinstance(w.f['v'], Alg):
            return w.f['v'].p.single_atom()
        return None

    def roles(self):
        """witnesses that hold an input, by input name"""
        self.role = {}
        for what, mode, w, hv, where, always in self.allocs:
            n = only(hv)
            if n is None or len(n) != 1 or mode == 'Input':
                continue
            n = next(iter(n))
            self.role.setdefault((what, n), []).append((w, hv))
        self.keep = set()
        for l in self.role.values():
            a = self.watom(l[0][0])
            if a is not None:
                self.keep.add(a)
        for w, _ in self.inputs:
            a = self.watom(w)
            if a is not None:
                self.keep.add(a)

    def get(self, what, name):
        l = self.role.get((what, name))
        if not l:
            return None
        return l[0][0]

    # ---- formulas
    def eq(self, p, split=5):
        return r1cslib.eqsplit(self.I, p, split)

    def cmp(self, what, x, y):
        out = []
        for a, ga in leaves(x):
            for b, gb in leaves(y):
                g = bdd.and_(ga, gb)
                if g != 0:
                    f = bdd.atom((what, multilin(a.p), multilin(b.p)))
                    if what == 'lt':
                        f = bdd.and_(f, bdd.atom(('le', multilin(a.p), multilin(b.p))))
                    out.append(bdd.implies(g, f))
        return bdd.and_(*out)

    def formula(self, d):
        r1 = lambda b: bdd.restrict(b, {'setup': 1})
        k = d[0]
        if k in ('zero', 'nonzero'):
            out = []
            for p, g in d[1]:
                e = self.eq(self.psub(p))
                out.append(bdd.implies(r1(g), e if k == 'zero' else bdd.neg(e)))
            return bdd.and_(*out)
        if k == 'bool':
            return r1(d[1].b)
        if k in ('le', 'lt', 'le unchecked', 'lt unchecked'):
            f = lambda v: lift(lambda x: Alg(self.psub(x.p), x.kind), v)
            return self.cmp(k, f(d[1]), f(d[2]))
        if k == 'half':
            return bdd.and_(*[bdd.implies(g, bdd.atom(('half', self.psub(x.p)))) for x, g in leaves(d[1])])
        raise Undecided('constraint %s' % k)

    def psub(self, p):
        if not self.sub:
            return p
        for _ in range(4):
            q = p.subst(lambda a: self.sub.get(a))
            if q == p:
                break
            p = q
        return p

    def solve(self):
        """eliminate auxiliary field and point witnesses defined by a linear constraint, then
        turn every constraint into a formula"""
        wires = {self.watom(w) for _, m, w, _, _, _ in self.allocs if m != 'Input'} - {None} - self.keep
        rest = list(self.raw)
        changed = True
        while changed:
            changed = False
            for i, (d, where) in enumerate(rest):
                if d[0] != 'zero' or len(d[1]) != 1 or d[1][0][1] != 1:
                    continue
                p = multilin(self.psub(d[1][0][0]))
                for a in sorted(p.atoms(), key=aord):
                    if a not in wires or a in self.sub:
                        continue
                    ms = [(m, c) for m, c in p.m if a in m]
                    if len(ms) == 1 and ms[0][0] == (a,) and ms[0][1] in (1, -1):
                        e = p.add(Poly.atom(a).scale(ms[0][1]), -1).scale(-ms[0][1])
                        if mentions(e, a):
                            continue
                        self.sub[a] = e
                        del rest[i]
                        changed = True
                        break
                if changed:
                    break
        self.F = [(self.formula(d), d, where) for d, where in rest]
        self.boolsub()
        self.idx = {}
        for j, (f, d, w) in enumerate(self.F):
            for a in bdd.support(f):
                self.idx.setdefault(a, []).append(j)
        return self

    def boolsub(self):
        pass

    def around(self, R, hops=2, cap=400):
        use, fr, seen = [], set(bdd.support(R)), set()
        for _ in range(hops):
            nxt = set()
            for a in fr:
                l = self.idx.get(a, ())
                if len(l) > 64 and _ > 0:
                    continue
                for j in l:
                    if j not in seen:
                        seen.add(j)
                        use.append(j)
                        nxt |= set(bdd.support(self.F[j][0]))
            fr = nxt
            if len(use) > cap:
                break
        return use[:cap]

    def implied(self, R):
        if R == 1:
            return True
        for j in self.around(R, 1, 10 ** 6):
            if bdd.implies(self.F[j][0], R) == 1:
                return True
        us = self.around(R, 2)
        acc = 1
        for j in us:
            acc = bdd.and_(acc, self.F[j][0])
            if bdd.implies(acc, R) == 1:
                return True
        return False


def mentions(p, a):
    todo = [p]
    seen = set()
    while todo:
        y = todo.pop()
        if y == a:
            return True
        if isinstance(y, Poly):
            todo += list(y.atoms())
        elif isinstance(y, tuple):
            if id(y) in seen:
                continue
            seen.add(id(y))
            if len(y) == 2 and y[0] == 'b' and isinstance(y[1], int):
                todo += list(bdd.support(y[1]))
            else:
                todo += list(y)
    return False


# ------------------------------------------------------------------ C20
def fvar(name):
    return r1cslib.var('FpVar', asym(name, 'F'))


def occ(c, cfg, bits, value, limit, proving=None):
    I = c.interp(*cfg)
    I.wmode = 'S'
    hook_helpers(c, I)
    if proving:
        I.setup_known = False
    ms = [(im, d) for im, d in I.prog.by_method.get('enforce_maximum_occurrences_in_bitmap', [])]
    if not ms:
        raise Missing('Bitmap::enforce_maximum_occurrences_in_bitmap')
    c.anchors.append('Bitmap::enforce_maximum_occurrences_in_bitmap')
    r, st = c.run(I, ms[0][1], [Seq(bits, 'slice'), limit, Bool(value)])
    if r is None:
        raise Violated('counting %d bits always panics: %s' % (len(bits), [p[1:] for p in I.panics][:1]))
    return I, r


def c20_direct(c, cfg, n, value):
    names_ = ['bit%d' % j for j in range(n)]
    bits = [Bool(bdd.atom(('w', 'b', x, 0))) for x in names_]
    I, r = occ(c, cfg, bits, value, fvar('limit'))
    e = c.panicfree(I, 1, 'counting')
    if e:
        return e
    S = Sys(I, r)
    S.keep.add('limit')
    S.solve()
    if S.ok1 != 1 or S.ok0 != 1:
        return 'counting %d bits fails when %s' % (n, show_bdd(bdd.neg(bdd.and_(S.ok0, S.ok1)), 2))
    p = Poly.const(0)
    for b in bits:
        p = p.add(boolpoly(b.b if value else bdd.neg(b.b)))
    p = multilin(p)
    R = bdd.atom(('le', p, Poly.atom('limit')))
    if not S.implied(R):
        return lacking(S, 'the number of positions holding %d of %d, at most the limit' % (value, n))
    x = extra(S, [R])
    if x:
        return x
    # the honest witness satisfies the constraints
    for what, mode, w, hv, where, always in S.allocs:
        a = S.watom(w)
        if a in S.sub:
            if isinstance(hv, Int):
                hv = Alg(hv.aslin(), 'F')
            for v, g in leaves(hv):
                if not isinstance(v, Alg):
                    raise Undecided('honest count %s' % show(v)[:80])
                d = multilin(v.p.add(S.sub[a], -1))
                if d.m:
                    d = expand_ints(d)
                if d.m and g != 0:
                    return 'the count supplied by the prover is %s where the constraints require %s (at %s)' % (show(v)[:200], S.sub[a], where)
    c.sample('bitmap of %d: %s <= limit' % (n, p))
    return None


def expand_ints(p):
    return multilin(p)


def c20_long(c, cfg, n, value):
    bits = [Bool(int(value))] * n
    I, r = occ(c, cfg, bits, value, fvar('limit'), True)
    e = c.panicfree(I, bdd.neg(SETUP()), 'counting %d positions' % n)
    if e:
        return e
    hv = [a[3] for a in Sys(I, r).allocs]
    if len(hv) != 1:
        raise Undecided('%d witnesses' % len(hv))
    return c.same(hv[0], Alg(Poly.const(n), 'F'), 1, 'count supplied for %d positions' % n)


def lacking(S, what):
    """a required constraint is not recorded"""
    un = set()
    for _, d, w in S.F:
        pass
    if S.partial:
        return 'no constraint enforces %s (a constraint at %s is recorded only sometimes)' % (what, S.partial[0][1])
    rel = '; '.join(sorted({'%s at %s' % (d[0], w) for _, d, w in S.F if d[0] in ('le', 'lt', 'nonzero', 'le unchecked', 'lt unchecked')})[:4])
    return 'no recorded constraint enforces %s%s' % (what, ' (recorded: %s)' % rel if rel else '')


def extra(S, req, sel=lambda d: True):
    """a recorded constraint that the requirements do not imply"""
    idx = {}
    for R in req:
        for a in bdd.support(R):
            idx.setdefault(a, []).append(R)
    for f, d, where in S.F:
        if not sel(d) or f == 1:
            continue
        if honest_true(S, f):
            continue
        acc, seen = 1, set()
        ok = False
        for a in bdd.support(f):
            for R in idx.get(a, ()):
                if R in seen:
                    continue
                seen.add(R)
                acc = bdd.and_(acc, R)
        if bdd.implies(acc, f) == 1:
            continue
        un = unmodelled(Bool(f))
        if un:
            raise Undecided('constraint over %s' % sorted(un)[:3])
        return 'the circuit also demands %s (at %s)' % (show_bdd(f, 2)[:300], where)
    return None


def honest_true(S, f):
    """the constraint only concerns auxiliary witnesses, and their honest values satisfy it"""
    return False


@spec('C20', 12,
      'Counting is interpreted with every bit and the limit as unknown wires, for both values; auxiliary witnesses are eliminated through the '
      'recorded linear constraints and what remains must be exactly the range-checked comparison of the number of such positions with the limit. '
      'The count supplied by the prover is compared with the one the constraints require, also for long bitmaps.',
      ['the comparison gadget range-checks both operands'])
def c20(c):
    ns = c.sizes([1, 2, 3, 5, 8] + ([16, 20] if c.thorough else [16]), 18, 4, 1)
    c.partition = {'length': ns, 'value': [0, 1]}
    for cfg in CONFIGS:
        nm = 'compat' if cfg else 'plain'
        for n in ns:
            for v in (0, 1):
                c.pob('bitmap of %d, value %d/%s' % (n, v, nm), lambda cfg=cfg, n=n, v=v: c20_direct(c, cfg, n, v))
    for n in c.sizes((255, 256, 257, 65537) if not c.thorough else (255, 256, 257, 65535, 65536, 65537, 140000), 140000, 6, 9):
        for v in (0, 1):
            c.pob('count of %d positions, value %d' % (n, v), lambda n=n, v=v: c20_long(c, (), n, v))
    from specs import epochcircuit
    epochcircuit.limit_obs(c)


CONFIGS = (('compat',), ())


# ------------------------------------------------------------------ the whole circuit
def native_params(I):
    """the compression parameters of the native composite hasher"""
    v = I.const(find(I, 'bls_crypto::hashers::composite::COMPOSITE_HASHER'))
    st = State({}, 1)
    if isinstance(v, Opq) and v.cls == 'lazy':
        v = I.force(I, v, st, {})
    v = I.deref_deep(v, st)
    for x, g in leaves(v):
        if isinstance(x, Struct):
            for y in x.f.values():
                if isinstance(y, Term) and y.op == 'crh parameters':
                    return y
    raise Undecided('parameters of the composite hasher: %s' % show(v)[:100])


class Whole:
    """the recorded constraints of the whole circuit and its data wires"""

    def __init__(self, c, cfg, nv, ne, helper, known_real=True, **kw):
        self.c, self.nv, self.ne, self.helper, self.cfg = c, nv, ne, helper, cfg
        I, r, st = circuit(c, cfg, nv, ne, helper, **kw)
        S = Sys(I, r)
        if known_real:
            w = S.get('FpVar', 'index%d' % ne)
            if w is not None:
                lit = bdd.as_literal(I.eq0(w.f['v'].p))
                if lit:
                    I, r, st = circuit(c, cfg, nv, ne, helper, real=(lit[0],), **kw)
                    S = Sys(I, r)
        self.I, self.r, self.S = I, r, S
        e = c.panicfree(I, bdd.or_(SETUP(), S.ok), 'synthesis') if False else None
        self.data()
        S.keep |= {a for a in self.kept}
        S.solve()

    def F(self, name):
        w = self.S.get('FpVar', name)
        if w is None:
            raise Undecided('no witness holds %s' % name)
        self.kept.append(self.S.watom(w))
        return w.f['v'].p

    def data(self):
        self.kept = []
        self.idx = [self.F('index%d' % k) for k in range(self.ne + 1)]
        self.mx = [self.F('maxns%d' % k) for k in range(self.ne + 1)]
        self.rnd = [self.F('round%d' % k) for k in range(self.ne + 1)]
        self.ee = [self.F('ee%d' % k) for k in range(self.ne + 1)]
        self.pe = [self.F('pe%d' % k) for k in range(self.ne + 1)]
        self.pk, self.sg = [], []
        for k in range(self.ne + 1):
            row = []
            for j in range(self.nv):
                w = self.S.get('G2Var', 'pk%d.%d' % (k, j))
                if w is None:
                    raise Undecided('no witness holds a key')
                self.kept.append(self.S.watom(w))
                row.append(w.f['v'].p)
            self.pk.append(row)
            row = []
            for j in range(self.nv) if k else ():
                w = self.S.get('Boolean', 'signed%d.%d' % (k, j))
                if w is None:
                    raise Undecided('no witness holds a signer bit')
                row.append(w.b)
            self.sg.append(row)
        w = self.S.get('G1Var', 'asig')
        if w is None:
            raise Undecided('no witness holds the aggregate signature')
        self.asig = w.f['v'].p
        self.kept.append(self.S.watom(w))
        eq0 = self.I.eq0
        self.dummy = [eq0(p) for p in self.idx]
        self.forced = {}
        # the last transition is real (C19 checks that this is enforced)
        self.last_dummy, self.dummy[self.ne] = self.dummy[self.ne], 0 if self.ne else self.dummy[0]

    def prev(self, k):
        """[(m, condition under which m is the epoch in force before transition k)]"""
        out, g = [], 1
        for m in range(k - 1, 0, -1):
            out.append((m, bdd.and_(g, bdd.neg(self.dummy[m]))))
            g = bdd.and_(g, self.dummy[m])
        out.append((0, g))
        return [(m, g) for m, g in out if g != 0]

    def pksel(self, k, j):
        p = Poly.const(0)
        for m, g in self.prev(k):
            p = p.add(boolpoly(g).mul(self.pk[m][j]))
        return multilin(p)

    def bits(self, p, n):
        return fbits(Alg(p, 'F'))[:n]

    def fields(self, k):
        return dict(index=self.bits(self.idx[k], 16), round=self.bits(self.rnd[k], 8), mns=self.bits(self.mx[k], 32),
                    ee=self.bits(self.ee[k], 128), pe=self.bits(self.pe[k], 128),
                    keys=[b for p in self.pk[k] for b in ep.pk_full(self.I, p)])

    # ---- requirements
    def linking(self):
        R = []
        S = self.S
        ent = bdd.neg(self.I.eq0(self.ee[0]))
        for k in range(1, self.ne + 1):
            real = bdd.neg(self.dummy[k])
            for m, g in self.prev(k):
                t = bdd.and_(real, g)
                R.append(('the index of transition %d follows that of epoch %d' % (k, m), bdd.implies(t, S.eq(self.idx[k].add(self.idx[m], -1).add(Poly.const(1), -1)))))
                R.append(('the parent entropy of transition %d is the entropy of epoch %d' % (k, m), bdd.implies(bdd.and_(t, ent), S.eq(self.ee[m].add(self.pe[k], -1)))))
        return R

    def limits(self):
        R = []
        for k in range(1, self.ne + 1):
            p = Poly.const(0)
            for b in self.sg[k]:
                p = p.add(boolpoly(bdd.neg(b)))
            p = multilin(p)
            for m, g in self.prev(k):
                R.append(('the number of non-signers of transition %d is at most the limit of epoch %d' % (k, m),
                          bdd.implies(bdd.and_(g, bdd.neg(self.dummy[k])), bdd.atom(('le', p, self.mx[m]))),
                          bdd.implies(g, bdd.atom(('le', p, self.mx[m])))))
        return R

    def padding(self):
        R = []
        pad = G2GEN().p
        for k in range(1, self.ne + 1):
            for j in range(self.nv):
                for m, g in self.prev(k):
                    f = bdd.implies(bdd.and_(g, self.sg[k][j]), bdd.neg(self.S.eq(self.pk[m][j].add(pad, -1))))
                    R.append(('signer %d of transition %d is not a padding key of epoch %d' % (j, k, m), bdd.implies(bdd.neg(self.dummy[k]), f), f))
        return R

    def messages(self):
        """the witness points before the cofactor, found by the hash bits they are tied to"""
        S, I = self.S, self.I
        if hasattr(self, '_msg'):
            return self._msg
        pts = [(w, hv, where) for what, mode, w, hv, where, always in S.allocs if what == 'G1Var']
        self._msg, self.msgerr = [], []
        for k in range(1, self.ne + 1):
            found = None
            x0 = self.xof(k)
            if x0 is not None:
                for w, hv, where in pts:
                    p = w.f['v'].p
                    xb = fbits(coord(Alg(p, 'G1a'), 'x'))
                    if any(S.implied(bdd.iff(xb[i].b, x0[i].b)) for i in (0, 8, 300)):
                        found = p
                        break
            self._msg.append(found)
        return self._msg

    def hashed(self, k):
        """(bytes compressed, extra bytes) of transition k"""
        f = self.fields(k)
        return ep.be_bytes(f['ee'] + f['pe'] + f['keys']), ep.be_bytes(f['index'] + f['round'] + f['mns'])

    def crh(self, k):
        I = self.I
        if not hasattr(self, '_par'):
            self._par = native_params(I)
        m, x = self.hashed(k)
        key = ('crh', HK(self._par), HK(m))
        b = fbits(coord(asym(key, 'Ea'), 'x'))
        return b + [FALSE] * (-len(b) % 8)

    def counters(self):
        return [w for what, mode, w, hv, where, always in self.S.allocs if what == 'UInt8']

    def xof(self, k):
        """the 512 hash bits of transition k with the counter wire the circuit uses, or None"""
        if not hasattr(self, '_xof'):
            self._xof = {}
        if k in self._xof:
            return self._xof[k]
        crh = self.crh(k)
        _, x = self.hashed(k)
        have = set()
        for f, d, w in self.S.F:
            have |= set(bdd.support(f))
        res = None
        for cw in self.counters():
            cb = cw.f['bits'].e
            bits = list(cb) + [Bool(b) for y in x.items() for b in y.tobits(8)] + crh
            by = Seq([Int('u8', bits=[b.b for b in bits[i:i + 8]]) for i in range(0, len(bits), 8)], 'slice')
            from specs import hashers
            o = self.xofbits(by)
            if self.helper:
                o = [self.I.wire(self.I, 'Boolean', b, 0) for b in o]
            if any(set(bdd.support(b.b)) & have for b in o[:8]):
                res = o
                break
        self._xof[k] = res
        return res

    def xofbits(self, by):
        """Blake2Xs under the signature domain, 64 bytes"""
        I = self.I
        dom = const_bytes(I, 'bls_crypto::SIG_DOMAIN')
        key = HK(by)
        if not hasattr(self, '_xc'):
            self._xc = {}
        if key not in self._xc:
            out = []
            for i in range(2):
                prm = Opq('b2params', hash_length=Int('u8', v=32), key=Seq((), 'slice'), salt=stdlib.b2pad(Seq([Int('u8', v=0)] * 8), 8),
                          personal=stdlib.b2pad(dom, 8), fanout=Int('u8', v=0), max_depth=Int('u8', v=0), max_leaf_length=Int('u32', v=32),
                          node_offset=Int('u64', v=i | 64 << 32), node_depth=Int('u8', v=0), inner_hash_length=Int('usize', v=32), last_node=FALSE)
                out += [Bool(b) for x in stdlib.b2bytes(Opq('b2hash', params=prm, data=by)).items() for b in x.tobits(8)]
            self._xc[key] = out
        return self._xc[key]

    def hashing(self, signpos):
        R = []
        I = self.I
        for k in range(1, self.ne + 1):
            W = self.messages()[k - 1]
            x = self.xof(k)
            if x is None or W is None:
                continue
            a = Alg(W, 'G1a')
            xb = fbits(coord(a, 'x'))
            for i in range(377):
                R.append(('bit %d of the x coordinate of message point %d is hash bit %d' % (i, k, i), bdd.iff(xb[i].b, x[i].b)))
            R.append(('the sign of message point %d is hash bit %d' % (k, signpos), bdd.iff(sign_g1(I, a), x[signpos].b)))
        return R

    def equation(self):
        I = self.I
        t = arklib.pairing_poly(self.asig, G2GEN().p).scale(-1)
        for k in range(1, self.ne + 1):
            W = self.messages()[k - 1]
            if W is None:
                return None
            d = boolpoly(self.dummy[k])
            nd = boolpoly(bdd.neg(self.dummy[k]))
            t = t.add(d.mul(arklib.pairing_poly(G1GEN().p, G2GEN().p)))
            M = Poly.atom('cofactor').mul(W)
            for j in range(self.nv):
                t = t.add(nd.mul(boolpoly(self.sg[k][j])).mul(arklib.pairing_poly(M, self.pksel(k, j))))
        return self.S.eq(t)

    def edges(self):
        """the 512 exposed bits"""
        f, l = self.fields(0), self.fields(self.ne)
        agg = Poly.const(0)
        for j in range(self.nv):
            agg = agg.add(self.pk[self.ne][j])
        a = f['index'] + f['pe'] + f['mns'] + f['keys']
        b = l['index'] + l['ee'] + l['mns'] + l['keys'] + ep.pk_full(self.I, agg)
        return ep.out_digest(self.I, ep.be_bytes(a)) + ep.out_digest(self.I, ep.be_bytes(b))

    def exposed(self, cap=376):
        R = []
        e = self.edges()
        ins = [w for w, where in self.S.inputs]
        want = [e[i:i + cap] for i in range(0, len(e), cap)]
        if len(ins) != len(want):
            return None
        for i, (w, ch) in enumerate(zip(ins, want)):
            b = fbits(w.f['v'])
            for j, x in enumerate(ch):
                R.append(('bit %d of public input %d' % (j, i), bdd.iff(b[len(ch) - 1 - j].b, x.b)))
        return R

    def numbers(self):
        R = []
        for nm, ps, n in (('index', self.idx, 16), ('round', self.rnd, 8), ('maximum_non_signers', self.mx, 32),
                          ('epoch_entropy', self.ee, 128), ('parent_entropy', self.pe, 128)):
            if nm == 'round':
                continue     # never used as a number
            f = 1
            for p in ps:
                for b in fbits(Alg(p, 'F'))[n:]:
                    f = bdd.and_(f, bdd.neg(b.b))
            R.append((nm, f))
        return R
