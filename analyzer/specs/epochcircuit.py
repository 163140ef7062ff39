"""The epoch circuit as a whole and its gadgets: C18, C19, C20 (limits), C21, C22, C23"""
import bdd, arklib, stdlib, r1cslib
from values import *
from interp import State, Dead
from registry import spec
from framework import Missing, Violated
from specs.common import *
from specs import epoch as ep, hashers
from specs.circuit import *
from specs.circuit import lacking, extra, CONFIGS, VSU, fvar, multilin, Sys
from arklib import coord, fbits
from r1cslib import CS, SETUP, isvar, var

ASSUME = ['an allocated curve point is on its curve, and its coordinates are the affine ones',
          'the comparison gadget range-checks both operands', 'the pairing gadget computes the product of the pairings of the two lists']


def signpos(cfg):
    return 377 if 'compat' in cfg else 383


def shapes(c):
    q = [(('compat',), 2, 2, False), ((), 2, 1, False), ((), 1, 4, False), ((), 5, 1, False), (('compat',), 2, 2, True)]
    if c.thorough:
        q += [((), 3, 3, False), (('compat',), 2, 4, False), ((), 3, 2, True), (('compat',), 1, 3, True), (('compat',), 4, 2, False), ((), 2, 2, True)]
    q += [s for n in c.sizes([], 12, 2, 3) for s in [((), n, 1, False)] + ([((), 1, n, False)] if n <= 6 else [])]
    return q


def shname(cfg, nv, ne, h):
    return '%d validators, %d transitions%s [%s]' % (nv, ne, ', helper proof' if h else '', 'compat' if 'compat' in cfg else 'no features')


def need(S, R, what):
    """None if the recorded constraints imply R"""
    if S.implied(R):
        return None
    if S.I.unknown:
        raise Undecided('unmodelled %s' % sorted(map(str, S.I.unknown))[:3])
    un = unmodelled(Bool(R))
    if un:
        raise Undecided('unmodelled %s' % sorted(un)[:3])
    return lacking(S, what)


def need_all(S, Rs, what=''):
    for nm, R in Rs:
        e = need(S, R, nm)
        if e:
            return e
    return None


def each_shape(c, f, which=None):
    c.partition = {'validators, transitions, helper, configuration': [shname(*s) for s in (which or shapes(c))]}
    for s in which or shapes(c):
        def go(s=s):
            W = Whole(c, *s)
            c.anchors.append(VSU + '::generate_constraints')
            f(W, s, shname(*s))
            return None
        c.pob('synthesis of ' + shname(*s), go)


# ------------------------------------------------------------------ which property a recorded constraint belongs to
def kinds_of(f):
    """the sorts of wire and function a formula speaks about"""
    out, seen = set(), set()
    todo = list(bdd.support(f))
    while todo:
        y = todo.pop()
        if isinstance(y, Poly):
            todo += list(y.atoms())
            continue
        if not isinstance(y, tuple) or id(y) in seen:
            continue
        seen.add(id(y))
        if len(y) == 2 and y[0] == 'b' and isinstance(y[1], int):
            todo += list(bdd.support(y[1]))
            continue
        if y and isinstance(y[0], str):
            out.add((y[0], y[1]) if y[0] == 'w' and len(y) > 1 else y[0])
            if y[0] == 'w':
                continue
        todo += list(y)
    return out


def owner(W, f, d):
    if d[0] in ('le', 'lt', 'le unchecked', 'lt unchecked', 'half'):
        return 'C20'
    k = kinds_of(f)
    ins = {W.S.watom(w) for w, _ in W.S.inputs}
    if any(mentions_any(f, a) for a in ins if a is not None):
        return 'C23'
    if 'inner proof' in k:
        return 'C22'
    if 'e' in k or 'pairing' in k:
        return 'C21'
    if ('w', 'F') in k:
        return 'C19'
    if 'blake2s' in k:
        return 'C22'
    if ('w', 'G2') in k or ('w', 'G1') in k:
        return 'C21'
    return 'C19'


def mentions_any(f, a):
    from specs.circuit import mentions
    return any(x == a or mentions(x, a) for x in bdd.support(f))


def allowed(W):
    """every condition the circuit may impose"""
    R = [r[-1] for nm in ('linking', 'limits', 'padding') for r in getattr(W, nm)()]
    R += [r for n, r in W.hashing(signpos(W.cfg))]
    e = W.equation()
    R += [e] if e is not None else []
    R += [r for n, r in W.exposed() or []]
    R += [r for n, r in W.numbers()]
    R.append(bdd.neg(W.last_dummy))
    # the exposed aggregate key is converted to affine coordinates
    for f, d, where in W.S.F:
        if d[0] == 'nonzero':
            l = bdd.as_literal(f)
            if l and isinstance(l[0], tuple) and l[0][0] == 'eq0' and projz(l[0][1]):
                R.append(f)
    return R


def projz(p):
    a = p.single_atom() if isinstance(p, Poly) else None
    return isinstance(a, tuple) and a[0] in ('proj.z', 'projz')


def no_extra(W, pid, nm, c):
    def go():
        if W.S.I.unknown:
            raise Undecided('unmodelled %s' % sorted(map(str, W.S.I.unknown))[:3])
        return extra_of(W, pid)
    c.ob('no further constraint (%s)/%s' % (pid, nm), go)


def extra_of(W, pid):
    S = W.S
    keep = S.F
    try:
        S.F = [x for x in keep if owner(W, x[0], x[1]) == pid]
        return extra(S, allowed(W))
    finally:
        S.F = keep


# ------------------------------------------------------------------ C19
@spec('C19', 30,
      'The whole circuit is interpreted for several numbers of validators and transitions with every datum an unknown wire; what it records as '
      'constraints must imply, for every combination of real and dummy transitions, that a real transition follows the last real epoch before it '
      '(index plus one, parent entropy equal to its entropy), that the last transition is real, and that the exposed bits are those of the first and '
      'last epoch; dummies must drop out of the signature equation; and the index and entropy wires may be constrained in no other way.', ASSUME)
def c19(c):
    def f(W, s, nm):
        S = W.S
        for what, R in W.linking():
            c.ob('%s/%s' % (what, nm), lambda R=R, what=what: need(S, R, what))

        def real():
            W0 = Whole(c, *s, known_real=False)
            return need(W0.S, bdd.neg(W0.last_dummy), 'that the last transition is a real one')
        c.ob('the last transition is real/' + nm, real)
        c.ob('dummies are neutral in the signature equation/' + nm, lambda: eqn(W))
        c.ob('the exposed bits come from the first and the last transition/' + nm, lambda: exposed(W))
        no_extra(W, 'C19', nm, c)
        c.sample('%s: %d constraints, %d witnesses eliminated' % (nm, len(S.F), len(S.sub)))
    each_shape(c, f)


def eqn(W):
    e = W.equation()
    if e is None:
        raise Undecided('no message point was found')
    return need(W.S, e, 'the signature equation over all transitions')


def exposed(W):
    X = W.exposed()
    if X is None:
        if W.S.I.unknown:
            raise Undecided('unmodelled %s' % sorted(map(str, W.S.I.unknown))[:3])
        return 'the circuit has %d public inputs; the 512 exposed bits fill 2' % len(W.S.inputs)
    return need_all(W.S, X)


# ------------------------------------------------------------------ C20
def limit_obs(c):
    def f(W, s, nm):
        for what, R, _ in W.limits():
            c.ob('%s/%s' % (what, nm), lambda R=R, what=what: need(W.S, R, what))
        c.ob('the counts supplied by the prover/' + nm, lambda: honest(W))
        no_extra(W, 'C20', nm, c)
    each_shape(c, f)


def honest(W):
    """auxiliary witnesses that constraints determine are supplied with just that value"""
    S = W.S
    for what, mode, w, hv, where, always in S.allocs:
        a = S.watom(w)
        if a in S.sub:
            if isinstance(hv, Int):
                hv = Alg(hv.aslin(), 'F')
            for v, g in leaves(hv):
                if not isinstance(v, Alg):
                    raise Undecided('honest value %s' % show(v)[:80])
                if g != 0 and multilin(v.p.add(S.sub[a], -1)).m:
                    return 'the witness at %s is supplied as %s where the constraints require %s' % (where, show(v)[:200], S.sub[a])
    return None


# ------------------------------------------------------------------ C21
BG = 'bls_gadgets::bls::BlsVerifyGadget'
PT = lambda n: ('path', n, (), (n,))
GEN = {'E': PT('Bls12_377'), 'F': PT('Fr'), 'P': PT('PairingVar')}


def g1w(n):
    return var('G1Var', asym(n, 'G1a'))


def g2w(n):
    return var('G2Var', asym(n, 'G2a'))


def gadget(c, cfg, name, args):
    I = c.interp(*cfg)
    I.wmode = 'S'
    hook_helpers(c, I)
    d = find(I, BG)
    fd = c.method(I, d.path, name)
    r, st = c.run(I, fd, args, tyof(d), dict(GEN))
    return I, r, st


def sys_of(I, r, keep=()):
    S = Sys(I, r)
    S.keep |= set(keep)
    return S.solve()


def npair(a, b):
    return arklib.pairing_poly(a, b)


def bits_w(n):
    return [Bool(bdd.atom(('w', 'b', 'signed%d' % j, 0))) for j in range(n)]


def always_ok(S, what):
    if S.ok1 != 1 or S.ok0 != 1:
        return '%s fails when %s' % (what, show_bdd(bdd.neg(bdd.and_(S.ok0, S.ok1)), 2)[:200])
    return None


def checked(I, r, c, what, req, exact=True):
    """requirements implied, nothing else demanded, no failure"""
    if r is None:
        return '%s never returns' % what
    e = c.panicfree(I, 1, what)
    if e:
        return e
    S = sys_of(I, r)
    e = always_ok(S, what)
    if e:
        return e
    if S.unequal:
        return '%s pairs lists of different lengths' % what
    for nm, R in req:
        e = need(S, R, nm)
        if e:
            return e
    if I.unknown:
        raise Undecided('unmodelled %s' % sorted(map(str, I.unknown))[:3])
    return extra(S, [R for _, R in req]) if exact else None


def keysum(I, n, bits, pref='key'):
    t = Poly.const(0)
    for j in range(n):
        t = t.add(boolpoly(bits[j].b).mul(Poly.atom(pref + str(j))) if bits else Poly.atom(pref + str(j)))
    return multilin(t)


def pad_req(I, n, bits, pref='key'):
    S = Sys(I)
    return [('signer %d is not the padding key' % j, bdd.implies(bits[j].b, bdd.neg(S.eq(Poly.atom(pref + str(j)).add(Poly.atom('pad'), -1))))) for j in range(n)]


def lim_req(n, bits):
    p = Poly.const(0)
    for j in range(n):
        p = p.add(boolpoly(bdd.neg(bits[j].b)))
    return [('at most the allowed number of non-signers', bdd.atom(('le', multilin(p), Poly.atom('limit'))))]


def refused(I, r, c, what):
    """panics or returns Err on every path"""
    if r is None:
        return None
    ok = bdd.or_(*[g for x, g in leaves(r) if not (isinstance(x, Enum) and x.var == 'Err')])
    if ok != 0:
        if I.unknown:
            raise Undecided('unmodelled %s' % sorted(map(str, I.unknown))[:3])
        return '%s is accepted%s' % (what, '' if ok == 1 else ' when ' + show_bdd(ok, 2)[:200])
    return None


def c21_direct(c, cfg, n):
    keys = [g2w('key%d' % j) for j in range(n)]
    bits = bits_w(n)
    nm = '%d [%s]' % (n, 'compat' if cfg else 'no features')

    def res(r, f, what):
        """value inside Ok"""
        out = []
        for x, g in leaves(r):
            if isinstance(x, Enum) and x.var == 'Ok':
                out.append((x.e[0], g))
        if not out:
            raise Undecided('%s: %s' % (what, show(r)[:80]))
        return out

    def point(I, v, p, what):
        v = I.deref_deep(v, State({}, 1))
        if not isvar(v, 'G2Var', 'G1Var'):
            raise Undecided('%s is %s' % (what, show(v)[:80]))
        for x, g in leaves(v.f['v']):
            if g != 0 and multilin(x.p.add(p, -1)).m:
                if I.unknown:
                    raise Undecided('unmodelled %s' % sorted(map(str, I.unknown))[:3])
                return '%s is %s, required %s' % (what, show(x)[:200], p)
        return None

    def agg():
        I, r, st = gadget(c, cfg, 'enforce_aggregated_pubkeys', [Seq(keys, 'slice'), Seq(bits, 'slice'), g2w('pad')])
        e = checked(I, r, c, 'enforce_aggregated_pubkeys', pad_req(I, n, bits))
        if e:
            return e
        for v, g in res(r, None, 'aggregate'):
            e = point(I, v, keysum(I, n, bits), 'the aggregate of %d keys' % n)
            if e:
                return e

    def all_():
        I, r, st = gadget(c, cfg, 'enforce_aggregated_all_pubkeys', [Seq(keys, 'slice')])
        e = checked(I, r, c, 'enforce_aggregated_all_pubkeys', [])
        if e:
            return e
        for v, g in res(r, None, 'aggregate'):
            e = point(I, v, keysum(I, n, None), 'the aggregate of all %d keys' % n)
            if e:
                return e

    def bitmap():
        I, r, st = gadget(c, cfg, 'enforce_bitmap', [Seq(keys, 'slice'), Seq(bits, 'slice'), g1w('msg'), fvar('limit'), g2w('pad')])
        e = checked(I, r, c, 'enforce_bitmap', pad_req(I, n, bits) + lim_req(n, bits))
        if e:
            return e
        for v, g in res(r, None, 'enforce_bitmap'):
            if not isinstance(v, Tup) or len(v.e) != 2:
                raise Undecided('enforce_bitmap returns %s' % show(v)[:80])
            e = point(I, v.e[0], Poly.atom('msg'), 'the message') or point(I, v.e[1], keysum(I, n, bits), 'the aggregate of %d keys' % n)
            if e:
                return e

    def verify():
        I, r, st = gadget(c, cfg, 'verify', [Seq(keys, 'slice'), Seq(bits, 'slice'), g1w('msg'), g1w('sig'), fvar('limit'), g2w('pad')])
        S = Sys(I)
        t = npair(Poly.atom('sig'), G2GEN().p).scale(-1)
        for j in range(n):
            t = t.add(boolpoly(bits[j].b).mul(npair(Poly.atom('msg'), Poly.atom('key%d' % j))))
        return checked(I, r, c, 'verify', pad_req(I, n, bits) + lim_req(n, bits) + [('e(signature, generator) = e(message, sum of the signers)', S.eq(t))])

    def batch():
        I, r, st = gadget(c, cfg, 'batch_verify', [Seq(keys, 'slice'), Seq([g1w('msg%d' % j) for j in range(n)], 'slice'), g1w('sig')])
        S = Sys(I)
        t = npair(Poly.atom('sig'), G2GEN().p).scale(-1)
        for j in range(n):
            t = t.add(npair(Poly.atom('msg%d' % j), Poly.atom('key%d' % j)))
        return checked(I, r, c, 'batch_verify', [('e(signature, generator) = product of e(message, key)', S.eq(t))])

    def prepared(m):
        I, r, st = gadget(c, cfg, 'batch_verify_prepared', [Seq([var('G2PreparedVar', asym('key%d' % j, 'G2')) for j in range(n)], 'slice'),
                                                            Seq([var('G1PreparedVar', asym('msg%d' % j, 'G1')) for j in range(m)], 'slice'), g1w('sig')])
        if m != n:
            return refused(I, r, c, '%d keys with %d messages' % (n, m))
        t = npair(Poly.atom('sig'), G2GEN().p).scale(-1)
        for j in range(n):
            t = t.add(npair(Poly.atom('msg%d' % j), Poly.atom('key%d' % j)))
        return checked(I, r, c, 'batch_verify_prepared', [('e(signature, generator) = product of e(message, key)', Sys(I).eq(t))])

    c.ob('batch_verify_prepared/' + nm, lambda: prepared(n))
    c.ob('batch_verify_prepared refuses %d keys, %d messages [%s]' % (n, n + 1, 'compat' if cfg else 'no features'), lambda: prepared(n + 1))
    c.ob('enforce_aggregated_pubkeys/' + nm, agg)
    c.ob('enforce_aggregated_all_pubkeys/' + nm, all_)
    c.ob('enforce_bitmap/' + nm, bitmap)
    c.ob('verify/' + nm, verify)
    c.ob('batch_verify/' + nm, batch)
    for m in sorted({n + 1, n + 2, max(0, n - 1)} - {n}):
        kb = bits_w(m)
        more = '%d keys and %d %s'

        def mism(name, args, what):
            I, r, st = gadget(c, cfg, name, args)
            return refused(I, r, c, what)
        c.ob('enforce_aggregated_pubkeys refuses %d keys, %d bits [%s]' % (n, m, 'compat' if cfg else 'no features'),
             lambda: mism('enforce_aggregated_pubkeys', [Seq(keys, 'slice'), Seq(kb, 'slice'), g2w('pad')], '%d keys with %d bits' % (n, m)))
        c.ob('verify refuses %d keys, %d bits [%s]' % (n, m, 'compat' if cfg else 'no features'),
             lambda: mism('verify', [Seq(keys, 'slice'), Seq(kb, 'slice'), g1w('msg'), g1w('sig'), fvar('limit'), g2w('pad')], '%d keys with %d bits' % (n, m)))
        c.ob('batch_verify refuses %d keys, %d messages [%s]' % (n, m, 'compat' if cfg else 'no features'),
             lambda: mism('batch_verify', [Seq(keys, 'slice'), Seq([g1w('msg%d' % j) for j in range(m)], 'slice'), g1w('sig')], '%d keys with %d messages' % (n, m)))


@spec('C21', 60,
      'The circuit is interpreted with every key, signer bit, message point and the signature unknown: the recorded constraints must imply that '
      'e(signature, generator) equals the product over transitions of e(message, sum of the signers of the epoch in force) (neutral for dummies), '
      'that a signer is never a padding key, and nothing further about points. The gadget methods are decided the same way on their own, and '
      'lists of different lengths must be refused on every path.', ASSUME)
def c21(c):
    def f(W, s, nm):
        c.ob('signature equation/' + nm, lambda: eqn(W))
        for what, R, _ in W.padding():
            c.ob('%s/%s' % (what, nm), lambda R=R, what=what: need(W.S, R, what))
        c.ob('pairing lists have equal lengths/' + nm, lambda: 'lists of different lengths are paired at %s' % W.S.unequal[0][1] if W.S.unequal else None)
        no_extra(W, 'C21', nm, c)
    each_shape(c, f)
    for cfg in CONFIGS:
        for n in c.sizes((1, 2, 3) + ((5, 8) if c.thorough else ()), 260, 2, 1):
            c.pob('gadget methods/%d [%s]' % (n, 'compat' if cfg else 'no features'), lambda cfg=cfg, n=n: c21_direct(c, cfg, n))


# ------------------------------------------------------------------ C22
def found(W, k):
    x, p = W.xof(k), W.messages()[k - 1]
    if x is None or p is None:
        if W.S.I.unknown:
            raise Undecided('unmodelled %s' % sorted(map(str, W.S.I.unknown))[:3])
        if x is None:
            return ('no constraint uses the bits of the hash of counter, extra data and compressed message of transition %d under the signature '
                    'domain and the native parameters' % k)
        return 'no message point is tied to the hash bits of transition %d' % k
    return None


def supplied(W, k, cfg):
    """the honest counter and message point"""
    S, I = W.S, W.I
    x, p = W.xof(k), W.messages()[k - 1]
    if x is None or p is None:
        raise Undecided('no message point was found')
    by, ex = W.hashed(k)
    key = ('h2c counter',) + CIP22 + tuple(HK(v) for v in (const_bytes(I, 'bls_crypto::SIG_DOMAIN'), by, ex))
    want = isym(key, 'usize').tobits(8)
    hv = None
    for what, mode, w, h, where, always in S.allocs:
        if what == 'UInt8' and xof_uses(W, k, w):
            hv, at = h, where
    if hv is None:
        raise Undecided('no counter')
    e = W.c.same(hv, Int('u8', bits=want), 1, 'the counter supplied for transition %d' % k)
    if e:
        return e
    xp = arklib.from_bits_le(x[:377], 'F')
    sg = x[signpos(cfg)].b
    pt = asym(('ptx', 'G1', xp.p), 'G1')
    want = gated([(pt, sg), (Alg(pt.p.scale(-1), 'G1'), bdd.neg(sg))])
    for what, mode, w, h, where, always in S.allocs:
        if what == 'G1Var' and w.f['v'].p == p:
            care = 1
            for v, g in leaves(h):
                for a in bdd.support(g):
                    if isinstance(a, tuple) and a[0] in ('oncurve', 'canonical'):
                        care = bdd.and_(care, bdd.atom(a))
            return W.c.same(lift(lambda v: Alg(v.p, 'G1'), h), want, care, 'the point supplied for transition %d' % k)
    raise Undecided('no point')


def xof_uses(W, k, w):
    a = set()
    for b in W.xof(k)[:4]:
        for y in bdd.support(b.b):
            a.add(y)
    names_ = {x for b in w.f['bits'].e for x in bdd.support(b.b)}
    return any(mentions_deep(y, names_) for y in a)


def mentions_deep(x, targets):
    todo, seen = [x], set()
    while todo:
        y = todo.pop()
        if isinstance(y, (int, str, bytes, float, type(None))):
            continue
        if id(y) in seen:
            continue
        seen.add(id(y))
        if isinstance(y, tuple):
            if y in targets:
                return True
            if len(y) == 2 and y[0] == 'b' and isinstance(y[1], int):
                todo += list(bdd.support(y[1]))
            else:
                todo += list(y)
        elif isinstance(y, Poly):
            todo += list(y.atoms())
        else:
            todo += inner_values(y)
    return False


def inner_values(y):
    if isinstance(y, Bool):
        return list(bdd.support(y.b))
    if isinstance(y, Int):
        return [a for b in y.bits or () for a in bdd.support(b)]
    if isinstance(y, Alg):
        return [y.p]
    if isinstance(y, (Enum, Tup, Seq)):
        return list(y.e)
    if isinstance(y, Struct):
        return list(y.f.values())
    if isinstance(y, Term):
        return list(y.a)
    if isinstance(y, Gated):
        return [v for v, g in y.g] + [a for v, g in y.g for a in bdd.support(g)]
    if isinstance(y, HK) if isinstance(HK, type) else False:
        return [y.v]
    return []


def helper_input(W):
    S, I = W.S, W.I
    want = []
    crh, xof = [], []
    for k in range(1, W.ne + 1):
        if W.xof(k) is None:
            raise Undecided('no hash bits were found')
        crh += W.crh(k)
        xof += W.xof(k)
    cap = 252
    for bits in (crh, xof):
        want += [Seq(bits[i:i + cap][::-1]) for i in range(0, len(bits), cap)]
    if len(S.proofs) != 1:
        if I.unknown:
            raise Undecided('unmodelled %s' % sorted(map(str, I.unknown))[:3])
        return '%d inner proofs are checked' % len(S.proofs)
    vk, inp, pr, verdict = S.proofs[0][0]
    return W.c.same(inp, Seq(want), 1, 'public input of the helper proof')


def helper_keys(W):
    S = W.S
    if len(S.proofs) != 1:
        raise Undecided('%d inner proofs' % len(S.proofs))
    vk, inp, pr, verdict = S.proofs[0][0]
    hv = [h for what, mode, w, h, where, always in S.allocs if HK(w) == HK(pr)]
    if not hv or HK(hv[0]) != HK(Term('helper proof', ())):
        return 'the proof checked inside the circuit is %s' % show(pr)[:200]
    if HK(vk) != HK(Term('helper key', ())):
        if unmodelled(vk):
            raise Undecided('key %s' % show(vk)[:100])
        return 'the key of the inner proof is %s' % show(vk)[:200]
    return None


def helper_verdict(W):
    S = W.S
    if len(S.proofs) != 1:
        raise Undecided('%d inner proofs' % len(S.proofs))
    return need(S, S.proofs[0][0][3].b, 'that the helper proof is valid (checked at %s)' % S.proofs[0][1])


def h2b(c, cfg, nbytes, length, constrained):
    """bls_gadgets::hash_to_bits on its own"""
    I = c.interp(*cfg)
    I.wmode = 'S'
    hook_helpers(c, I)
    d = I.prog.find('bls_gadgets::hash_to_bits') or I.prog.find('bls_gadgets::hash_to_group::hash_to_bits')
    if d is None:
        raise Missing('bls_gadgets::hash_to_bits')
    c.anchors.append(d.path)
    msg = [Bool(bdd.atom(('w', 'b', 'm%d' % i, 0))) for i in range(8 * nbytes)]
    by = Seq([Int('u8', bits=[b.b for b in msg[i:i + 8]]) for i in range(0, len(msg), 8)], 'slice')
    dom = Seq([Int('u8', v=x) for x in b'somewhat'])
    r, st = c.run(I, d, [Seq(msg, 'slice'), Int('u16', v=length), dom, mkbool(constrained)], None, {'F': PT('Fr')})
    if r is None:
        return 'hash_to_bits never returns'
    e = c.panicfree(I, 1, 'hash_to_bits')
    if e:
        return e
    out = []
    for i in range(length // 256):
        prm = Opq('b2params', hash_length=Int('u8', v=32), key=Seq((), 'slice'), salt=stdlib.b2pad(Seq([Int('u8', v=0)] * 8), 8),
                  personal=stdlib.b2pad(dom, 8), fanout=Int('u8', v=0), max_depth=Int('u8', v=0), max_leaf_length=Int('u32', v=32),
                  node_offset=Int('u64', v=i | (length // 8) << 32), node_depth=Int('u8', v=0), inner_hash_length=Int('usize', v=32), last_node=FALSE)
        out += [Bool(b) for x in stdlib.b2bytes(Opq('b2hash', params=prm, data=by)).items() for b in x.tobits(8)]
    if constrained:
        return c.same(r, Ok(Seq(out)), 1, 'hash_to_bits')
    S = Sys(I, r)
    for x, g in leaves(r):
        if isinstance(x, Enum) and x.var == 'Ok' and g != 0:
            bits = x.e[0].items()
            al = {HK(w): h for what, mode, w, h, where, always in S.allocs if what == 'Boolean'}
            hv = []
            for b in bits:
                if HK(b) not in al:
                    raise Undecided('an output bit is not a witness')
                hv.append(al[HK(b)])
            e = c.same(Seq(hv), Seq(out), 1, 'the bits supplied by hash_to_bits')
            if e:
                return e
    return None


def h2g(c, cfg, n, m, constrained):
    """HashToGroupGadget::enforce_hash_to_group on its own"""
    I = c.interp(*cfg)
    I.wmode = 'S'
    opaque_h2c(c, I)
    hook_helpers(c, I)
    d = find(I, 'bls_gadgets::HashToGroupGadget') if I.prog.find('bls_gadgets::HashToGroupGadget') else find(I, 'bls_gadgets::hash_to_group::HashToGroupGadget')
    fd = c.method(I, d.path, 'enforce_hash_to_group')
    u8w = lambda nm: r1cslib.u8([Bool(bdd.atom(('w', 'u8', nm, 0, i))) for i in range(8)])
    cnt, msg, ext = u8w('counter'), [u8w('m%d' % i) for i in range(n)], [u8w('x%d' % i) for i in range(m)]
    r, st = c.run(I, fd, [cnt, Seq(msg, 'slice'), Seq(ext, 'slice'), mkbool(constrained)], tyof(d),
                  {'P': PT('Bls12_377_Parameters'), 'F': PT('Bls12_377_Fq')})
    if r is None:
        return 'enforce_hash_to_group never returns'
    e = c.panicfree(I, 1, 'enforce_hash_to_group')
    if e:
        return e
    W = Direct(I, msg, ext, cnt, constrained)
    S = sys_of(I, r)
    oks = [(x.e[0], g) for x, g in leaves(r) if isinstance(x, Enum) and x.var == 'Ok']
    if not oks or bdd.restrict(S.ok, {'setup': 1}) == 0:
        return 'enforce_hash_to_group never succeeds%s' % (' at setup' if oks else '')
    for t, g in oks:
        if not isinstance(t, Tup) or len(t.e) != 3:
            raise Undecided('enforce_hash_to_group returns %s' % show(t)[:60])
        h = I.deref_deep(t.e[0], st)
        e = c.same(t.e[1], Seq(W.crh), g, 'the compressed message') or c.same(t.e[2], Seq(W.xof), g, 'the hash bits')
        if e:
            return e
        pts = [w.f['v'].p for what, mode, w, hv, where, always in S.allocs if what == 'G1Var']
        if not isvar(h, 'G1Var') or not isinstance(h.f['v'], Alg):
            raise Undecided('the group element %s' % show(h)[:80])
        ok = [p for p in pts if not multilin(h.f['v'].p.add(Poly.atom('cofactor').mul(p), -1)).m]
        if not ok:
            if I.unknown:
                raise Undecided('unmodelled %s' % sorted(map(str, I.unknown))[:3])
            return 'the group element %s is not an allocated point times the cofactor' % show(h.f['v'])[:200]
        a = Alg(ok[0], 'G1a')
        xb = fbits(coord(a, 'x'))
        req = [('bit %d of the x coordinate is hash bit %d' % (i, i), bdd.iff(xb[i].b, W.xof[i].b)) for i in range(377)]
        req.append(('the sign of y is hash bit %d' % signpos(cfg), bdd.iff(sign_g1(I, a), W.xof[signpos(cfg)].b)))
        e = need_all(S, req)
        if e:
            return e
        if I.unknown:
            raise Undecided('unmodelled %s' % sorted(map(str, I.unknown))[:3])
        return extra(S, [R for _, R in req])


class Direct:
    """what enforce_hash_to_group has to compute"""
    def __init__(self, I, msg, ext, cnt, constrained):
        self.I, self.helper = I, not constrained
        by = Seq([Int('u8', bits=[b.b for b in x.f['bits'].e]) for x in msg])
        key = ('crh', HK(native_params(I)), HK(by))
        b = fbits(coord(asym(key, 'Ea'), 'x'))
        self.crh = b + [FALSE] * (-len(b) % 8)
        bits = [b for x in [cnt] + ext for b in x.f['bits'].e] + self.crh
        data = Seq([Int('u8', bits=[b.b for b in bits[i:i + 8]]) for i in range(0, len(bits), 8)], 'slice')
        o = Whole.xofbits(self, data)
        self.xof = o if constrained else [I.wire(I, 'Boolean', x, 0) for x in o]


@spec('C22', 30,
      'The circuit is interpreted with all data unknown. For every transition there must be an allocated point each of whose x bits and whose sign '
      'the recorded constraints tie to the prescribed bit of the Blake2Xs hash (signature domain, native parameters) of counter, extra data and '
      'compressed message, the compressed message being the native one (same parameters, same bytes); the point entering the signature equation is its '
      'multiple by the cofactor; numbers the circuit compares must be the ones their hashed bits denote; a helper proof must be checked against '
      'exactly these bits and its verdict enforced. hash_to_bits and enforce_hash_to_group are decided the same way on their own.', ASSUME)
def c22(c):
    def f(W, s, nm):
        cfg = s[0]
        H = None
        for k in range(1, W.ne + 1):
            c.ob('hash input of transition %d/%s' % (k, nm), lambda k=k: found(W, k))
            c.ob('honest counter and point of transition %d/%s' % (k, nm), lambda k=k: supplied(W, k, cfg))

        def tied():
            return need_all(W.S, W.hashing(signpos(cfg)))
        c.ob('message points are those of the hash bits/' + nm, tied)
        c.ob('signature equation over the points times the cofactor/' + nm, lambda: eqn(W))
        if s[3]:
            c.ob('helper proof: public input/' + nm, lambda: helper_input(W))
            c.ob('helper proof: proof and key/' + nm, lambda: helper_keys(W))
            if s == helper0:
                c.ob('EpochBits::verify_proof result is enforced', lambda: helper_verdict(W))
        if (s[1], s[2], s[3]) in ((2, 2, False), (2, 1, False)):
            for what, R in W.numbers():
                c.ob('%s is the number its hashed bits denote [%s]' % (what, 'compat' if 'compat' in cfg else 'no features'), lambda R=R, what=what: need(W.S, R, 'that %s fits its bits' % what))
        no_extra(W, 'C22', nm, c)
    sh = shapes(c)
    helper0 = [s for s in sh if s[3]][0]
    each_shape(c, f, sh)
    for cfg in CONFIGS:
        nm = 'compat' if cfg else 'no features'
        for n in c.sizes((1, 48) + ((0, 63, 64, 65, 100) if c.thorough else (65,)), 300, 2):
            for L in (256, 512) + ((1024,) if c.thorough else ()):
                c.pob('hash_to_bits with constraints, %d bytes, %d bits [%s]' % (n, L, nm), lambda cfg=cfg, n=n, L=L: h2b(c, cfg, n, L, True))
            c.pob('hash_to_bits without constraints, %d bytes [%s]' % (n, nm), lambda cfg=cfg, n=n: h2b(c, cfg, n, 512, False))
        for n, m in ((1, 0), (40, 7)) + (((3, 1), (95, 8), (200, 200)) if c.thorough else ()) + tuple((2, m) for m in c.sizes([], 300, 2) if m > 8) + tuple((m, 2) for m in c.sizes([], 300, 2) if m > 40):
            for q in (True, False):
                c.pob('enforce_hash_to_group, %d and %d bytes, %s constraints [%s]' % (n, m, 'with' if q else 'without', nm), lambda cfg=cfg, n=n, m=m, q=q: h2g(c, cfg, n, m, q))


# ------------------------------------------------------------------ C23
PARAMS = {'outer': ('BW6Fr', 'F', 376), 'inner': ('Bls12Fr', 'Fs', 252)}


def pathty(I, scope, name):
    """how the source spells a field type"""
    return None


def bound(S, ins, bits, cap, what):
    want = [bits[i:i + cap] for i in range(0, len(bits), cap)]
    if len(ins) != len(want):
        if S.I.unknown:
            raise Undecided('unmodelled %s' % sorted(map(str, S.I.unknown))[:3])
        return '%s: %d field elements for %d bits, %d expected' % (what, len(ins), len(bits), len(want))
    for i, (w, ch) in enumerate(zip(ins, want)):
        b = fbits(w.f['v'])
        for j, x in enumerate(ch):
            e = need(S, bdd.iff(b[len(ch) - 1 - j].b, x.b), 'that bit %d of element %d (from the top of its chunk) is bit %d of the input' % (j, i, i * cap + j))
            if e:
                return what + ': ' + e
    return None


def packing(c, cfg, n, size, alloc_input, mod):
    I = c.interp(*cfg)
    I.wmode = 'S'
    d = find(I, 'epoch_snark::gadgets::MultipackGadget') if I.prog.find('epoch_snark::gadgets::MultipackGadget') else find(I, 'epoch_snark::gadgets::pack::MultipackGadget')
    fd = c.method(I, d.path, 'pack')
    bits = [Bool(bdd.atom(('w', 'b', 'm%d' % i, 0))) for i in range(n)]
    F = {'outer': ('path', 'Fr', (), ('ark_bw6_761', 'Fr')), 'inner': ('path', 'Fr', (), ('ark_bls12_377', 'Fr'))}[mod]
    P = {'outer': ('path', 'FrParameters', (), ('ark_bw6_761', 'FrParameters')), 'inner': ('path', 'FrParameters', (), ('ark_bls12_377', 'FrParameters'))}[mod]
    r, st = c.run(I, fd, [Seq(bits, 'slice'), Int('usize', v=size), mkbool(alloc_input)], tyof(d), {'F': F, 'Fp': P})
    if r is None:
        return 'pack never returns'
    e = c.panicfree(I, 1, 'pack')
    if e:
        return e
    S = sys_of(I, r)
    for x, g in leaves(r):
        if isinstance(x, Enum) and x.var == 'Ok' and g != 0:
            out = x.e[0].items()
            ins = [w for w, where in S.inputs]
            if alloc_input and [HK(a) for a in ins] != [HK(a) for a in out]:
                return 'the %d returned elements are not the %d public inputs in order' % (len(out), len(ins))
            if not alloc_input and ins:
                return 'pack allocates public inputs although told not to'
            e = bound(S, out, bits, size, 'pack of %d bits in chunks of %d' % (n, size))
            if e:
                return e
            # an honest prover supplies just these bits
            al = {HK(w): (h, where) for what, mode, w, h, where, always in S.allocs}
            for i, w in enumerate(out):
                ch = bits[i * size:(i + 1) * size]
                h, where = al[HK(w)]
                e = c.same(h, arklib.from_bits_le(ch[::-1], w.f['v'].kind), 1, 'the value supplied for element %d' % i)
                if e:
                    return e
            req = [bdd.iff(fbits(w.f['v'])[len(bits[i * size:(i + 1) * size]) - 1 - j].b, b.b) for i, w in enumerate(out) for j, b in enumerate(bits[i * size:(i + 1) * size])]
            return extra(S, req)
    raise Undecided('pack returns %s' % show(r)[:60])


def h2bits_circuit(c, cfg, ne, nb):
    """the helper circuit"""
    I = c.interp(*cfg)
    I.wmode = 'S'
    hook_helpers(c, I)
    d = find(I, 'epoch_snark::gadgets::HashToBits') if I.prog.find('epoch_snark::gadgets::HashToBits') else find(I, 'epoch_snark::gadgets::hash_to_bits::HashToBits')
    fd = c.method(I, d.path, 'generate_constraints')
    v = Struct(d.path, {'message_bits': Seq([Seq([Some(Bool(bdd.atom('msg%d.%d' % (k, i)))) for i in range(nb)]) for k in range(ne)])})
    r, st = c.run(I, fd, [v, CS], tyof(d))
    if r is None:
        return 'the helper circuit can never be synthesised'
    e = c.panicfree(I, 1, 'HashToBits')
    if e:
        return e
    S = sys_of(I, r)
    msgs, xofs = [], []
    dom = const_bytes(I, 'bls_crypto::SIG_DOMAIN')
    for k in range(ne):
        bits = []
        for i in range(nb):
            w = S.get('Boolean', 'msg%d.%d' % (k, i))
            if w is None:
                if I.unknown:
                    raise Undecided('unmodelled %s' % sorted(map(str, I.unknown))[:3])
                return 'no witness holds bit %d of message %d' % (i, k)
            bits.append(w)
        by = Seq([Int('u8', bits=[b.b for b in bits[i:i + 8]]) for i in range(0, nb, 8)], 'slice')
        msgs += bits
        D = type('D', (), {})()
        D.I = I
        xofs += Whole.xofbits(D, by)
    ins = [w for w, where in S.inputs]
    a = -(-len(msgs) // 252)
    return bound(S, ins[:a], msgs, 252, 'message bits') or bound(S, ins[a:], xofs, 252, 'hash bits')


def native_pack(c, cfg, n):
    I = c.interp(*cfg)
    fd = c.fn(I, 'epoch_snark::gadgets::pack')
    bits = [Bool(bdd.atom('m%d' % i)) for i in range(n)]
    r, st = c.run(I, fd, [Seq(bits, 'slice')], None, {'F': ('path', 'Fr', (), ('ark_bw6_761', 'Fr')), 'P': ('path', 'FrParameters', (), ('ark_bw6_761', 'FrParameters'))})
    e = c.panicfree(I, 1, 'pack')
    if e:
        return e
    return c.same(r, Ok(ep.packed(I, bits)), 1, 'pack of %d bits' % n)


def native_inputs(c, cfg):
    I = c.interp(*cfg)
    code = ep.hook_pk(I)
    out = ep.verify_run(c, I, code)
    v, key = out
    ok = bdd.and_(bdd.atom(('ok', key)), bdd.atom(('accepts', key)))
    return c.same(v, gated([(Ok(UNIT), ok), (Err(ANY), bdd.neg(ok))]), 1, 'verify: public inputs')


@spec('C23', 40,
      'The circuit is interpreted with all data unknown; the recorded constraints must tie each of the 512 bits of the two digests (output domain, '
      'bytes of the first and of the last epoch) to its bit of one of exactly two public inputs, 376 bits each, most significant first; the packing '
      'gadget, the helper circuit and the native packing are decided on their own for lengths around the chunk size; the native verifier must '
      'hand the proof check the packing of the same digests.', ASSUME)
def c23(c):
    def f(W, s, nm):
        c.ob('every exposed bit is bound to its public input/' + nm, lambda: exposed(W))
        no_extra(W, 'C23', nm, c)

        def order():
            h = [h for what, mode, w, h, where, always in W.S.allocs if mode == 'Input']
            e = W.edges()
            for i in range(0, len(e), 376):
                x = c.same(h[i // 376], arklib.from_bits_le(e[i:i + 376][::-1], 'F'), 1, 'the value supplied for public input %d' % (i // 376))
                if x:
                    return x
        c.ob('honest public inputs/' + nm, order)
    each_shape(c, f)
    T = c.thorough
    for cfg in CONFIGS:
        nm = 'compat' if cfg else 'no features'
        for mod, cap in (('outer', 376), ('inner', 252)):
            for n in c.sizes((1, 5, cap, cap + 1, 512) + ((2 * cap, 2 * cap + 1, cap - 1, 2, 8) if T else ()), 3000, 4, 1):
                for ai in (True, False) if n in (5, cap + 1) or T else (True,):
                    c.pob('MultipackGadget::pack, %d bits by %d, %s [%s]' % (n, cap, 'inputs' if ai else 'witnesses', nm), lambda cfg=cfg, n=n, cap=cap, ai=ai, mod=mod: packing(c, cfg, n, cap, ai, mod))
        c.pob('MultipackGadget::pack, 10 bits by 4 [%s]' % nm, lambda cfg=cfg: packing(c, cfg, 10, 4, True, 'outer'))
        for ne, nb in ((1, 384), (2, 384)) + (((3, 8), (4, 384)) if T else ()):
            c.pob('HashToBits circuit, %d messages of %d bits [%s]' % (ne, nb, nm), lambda cfg=cfg, ne=ne, nb=nb: h2bits_circuit(c, cfg, ne, nb))
        for n in c.sizes((0, 1, 7, 375, 376, 377, 512, 752, 753), 8000, 4):
            c.pob('native pack, %d bits [%s]' % (n, nm), lambda cfg=cfg, n=n: native_pack(c, cfg, n))
        c.pob('native verifier: public inputs [%s]' % nm, lambda cfg=cfg: native_inputs(c, cfg))


# ------------------------------------------------------------------ C18
def data_bits(k, ee='some', pe='some'):
    b = lambda v: [Bool(x) for x in v.tobits(v.width())]
    ent = lambda kind, n: [FALSE] * 128 if kind == 'none' else [Bool(x) for y in bytes_sym(n, 16).items() for x in y.tobits(8)]
    return {'index%d' % k: b(bsym('index%d' % k, 'u16')), 'round%d' % k: b(bsym('round%d' % k, 'u8')), 'maxns%d' % k: b(bsym('maxns%d' % k, 'u32')),
            'ee%d' % k: ent(ee, 'ee%d' % k), 'pe%d' % k: ent(pe, 'pe%d' % k)}


def supplied_data(W, k):
    S = W.S
    for nm, bits in data_bits(k).items():
        w, hv = S.role[('FpVar', nm)][0]
        if isinstance(hv, Int):
            hv = Alg(hv.aslin(), 'F')
        e = W.c.same(hv, arklib.from_bits_le(bits, 'F'), 1, 'the witness for %s' % nm)
        if e:
            return e
    for j in range(W.nv):
        nm = 'pk%d.%d' % (k, j)
        w, hv = S.role[('G2Var', nm)][0]
        e = W.c.same(lift(lambda v: Alg(v.p, 'G2'), hv), asym(nm, 'G2'), 1, 'the witness for key %d of epoch %d' % (j, k))
        if e:
            return e
        if k:
            nm = 'signed%d.%d' % (k, j)
            w, hv = S.role[('Boolean', nm)][0]
            e = W.c.same(hv, Bool(bdd.atom(nm)), 1, 'the witness for signer bit %d of transition %d' % (j, k))
            if e:
                return e
    return None


def no_entropy(c, cfg, ee, pe):
    I, r, st = circuit(c, cfg, 1, 1, False, ee=ee, pe=pe)
    S = Sys(I, r)
    known = {n for k in (0, 1) for n in data_bits(k)}
    n = 0
    for what, mode, w, hv, where, always in S.allocs:
        if what == 'FpVar' and mode == 'Witness':
            if isinstance(hv, Int):
                hv = Alg(hv.aslin(), 'F')
            if isinstance(hv, Alg) and hv.p.is_const():
                n += 1
                if hv.p.constval() != 0:
                    return 'an absent entropy is represented by %s (at %s); its native bits are zero' % (hv.p, where)
    want = 2 * ((ee == 'none') + (pe == 'none'))
    if n != want:
        raise Undecided('%d constant witnesses for %d absent entropies' % (n, want))
    return None


def native_bits(c, cfg, n, mv):
    I = c.interp(*cfg)
    opaque_h2c(c, I)
    d = find(I, ep.EB)
    w = ep.Want(I, n, mv, 'some', 'some', lambda p: ep.pk_full(I, p))
    b = ep.block(I, n, mv)

    def run(m):
        fd = c.method(I, d.path, m)
        v, st = c.run(I, fd, [b], tyof(d))
        e = c.panicfree(I, 1, m)
        if e:
            raise Violated(e) if isinstance(e, str) else Undecided(e[1])
        return v
    i0, x0 = w.inner()
    return (c.same(run('encode_inner_to_bytes_cip22'), Ok(Tup([ep.be_bytes(i0), ep.be_bytes(x0)])), 1, 'native signed bytes and extra data')
            or c.same(run('blake2_first_epoch_cip22'), Ok(Seq(ep.out_digest(I, ep.be_bytes(w.first())))), 1, 'native digest of a first epoch')
            or c.same(run('blake2_last_epoch_with_aggregated_pk_cip22'), Ok(Seq(ep.out_digest(I, ep.be_bytes(w.last_agg())))), 1, 'native digest of a last epoch'))


@spec('C18', 30,
      'One description of the encoded bits (fields, order, widths, bit order, key code) is compared with both sides: the native encoder is evaluated '
      'with symbolic fields, and the circuit is interpreted with every datum an unknown wire, where the bits it hashes for each transition and the '
      'bits its constraints expose must be those of the description over the wires, and each wire must be supplied with its datum.', ASSUME)
def c18(c):
    def f(W, s, nm):
        for k in range(1, W.ne + 1):
            c.ob('signed bits and extra data of transition %d/%s' % (k, nm), lambda k=k: found(W, k))
        for k in range(W.ne + 1):
            c.ob('witnesses hold the data of epoch %d/%s' % (k, nm), lambda k=k: supplied_data(W, k))
        c.ob('bits exposed for the first and the last epoch/' + nm, lambda: exposed(W))
    each_shape(c, f)
    for cfg in CONFIGS:
        nm = 'compat' if cfg else 'no features'
        for ee, pe in (('none', 'none'), ('none', 'some'), ('some', 'none')):
            c.pob('absent entropies (%s, %s) [%s]' % (ee, pe, nm), lambda cfg=cfg, ee=ee, pe=pe: no_entropy(c, cfg, ee, pe))
        for n, mv in ((1, 1), (2, 2), (1, 3)) + (((3, 3), (4, 4)) if c.thorough else ()):
            c.pob('native encoding of %d keys of at most %d [%s]' % (n, mv, nm), lambda cfg=cfg, n=n, mv=mv: native_bits(c, cfg, n, mv))
