"""C01 to C09: keys, signatures, batches, the public key cache"""
import bdd
from values import *
from interp import State, Dead
from registry import spec
from framework import Missing
from specs.common import *

PK, SK, SG = 'bls_crypto::PublicKey', 'bls_crypto::PrivateKey', 'bls_crypto::Signature'
CONFIGS = (('compat',), ())


def cfgname(f):
    return 'compat' if 'compat' in f else 'plain'


def domains(I):
    return {n: const_bytes(I, 'bls_crypto::%s_DOMAIN' % n) for n in ('SIG', 'POP', 'OUT')}


def verify_case(c, I, meth, dom, extra, args):
    st = State({}, 1)
    H = hasher(I)
    key, s = pk(I, G2('pk')), sig(I, G1('sig'))
    msg = bytes_sym('message')
    v, st = call_m(c, I, PK, meth, [key] + args(msg, s, H))
    if v is None:
        return 'PublicKey::%s never returns' % meth
    want = and_then(I, h2c(I, H, dom, msg, extra), lambda h: cond_result(
        pairing_eq(I, [(G1('sig'), G2GEN(), -1), (inner(I, h), G2('pk'), 1)]), Ok(UNIT), blserr(I, 'VerificationFailed')))
    c.sample('PublicKey::%s = %s' % (meth, show(v)))
    return c.same(v, want, 1, 'PublicKey::' + meth) or c.panicfree(I, 1, 'PublicKey::' + meth)


EX = lambda: bytes_sym('extra_data')
NOEX = lambda: Seq((), 'slice')


@spec('C02', 4,
      'The result of verify and verify_pop is computed for all keys, signatures, messages and hash instances at once as a value guarded '
      'by the bilinear pairing equation and by the success of the hash; the guard of every Ok leaf and the value of every other leaf '
      'must equal the required ones.')
def c02(c):
    for f in CONFIGS:
        I = c.interp(*f)
        D = domains(I)
        c.ob('verify/' + cfgname(f), lambda: verify_case(c, I, 'verify', D['SIG'], EX(), lambda m, s, H: [m, EX(), s, H]))
        c.ob('verify_pop/' + cfgname(f), lambda: verify_case(c, I, 'verify_pop', D['POP'], NOEX(), lambda m, s, H: [m, s, H]))


def sign_case(c, I, meth, dom, extra, args):
    H = hasher(I)
    msg = bytes_sym('message')
    key = sk(I, asym('sk', 'Fs'))
    v, st = call_m(c, I, SK, meth, [key] + args(msg, H))
    if v is None:
        return 'PrivateKey::%s never returns' % meth
    want = and_then(I, h2c(I, H, dom, msg, extra), lambda h: Ok(sig(I, Alg(inner(I, h).p.mul(Poly.atom('sk')), 'G1'))))
    c.sample('PrivateKey::%s = %s' % (meth, show(v)))
    return c.same(v, want, 1, 'PrivateKey::' + meth) or c.panicfree(I, 1, 'PrivateKey::' + meth)


@spec('C03', 10,
      'Values of key generation, public key derivation and signing are computed over an abstract secret key, message, hash instance and '
      'random source and compared with sk*G2 and sk*H(domain, message, extra).')
def c03(c):
    for f in CONFIGS:
        I = c.interp(*f)
        D = domains(I)
        nm = cfgname(f)
        c.ob('sign/' + nm, lambda: sign_case(c, I, 'sign', D['SIG'], EX(), lambda m, H: [m, EX(), H]))
        c.ob('sign_pop/' + nm, lambda: sign_case(c, I, 'sign_pop', D['POP'], NOEX(), lambda m, H: [m, H]))

        def topub():
            v, st = call_m(c, I, SK, 'to_public', [sk(I, asym('sk', 'Fs'))])
            return c.same(v, pk(I, Alg(Poly.atom('sk').mul(Poly.atom('G2gen')), 'G2')), 1, 'to_public') if v is not None else 'to_public never returns'

        def frompub():
            st = State({}, 1)
            v = I.from_conv(sk(I, asym('sk', 'Fs')), tyof(find(I, PK)), st, None)
            return c.same(I.deref_deep(v, st), pk(I, Alg(Poly.atom('sk').mul(Poly.atom('G2gen')), 'G2')), 1, 'PublicKey::from(&PrivateKey)')

        def generate():
            st = State({}, 1)
            rng = Term('rng', ('caller',), ('param', 'R'))
            v, st = call_m(c, I, SK, 'generate', [place(I, st, rng)], st)
            if v is None:
                return 'generate never returns'
            return c.same(v, sk(I, asym(('randelem', rng), 'Fs')), 1, 'PrivateKey::generate')

        def roundtrip():
            # every honest signature verifies: the pairing equation holds identically
            H = hasher(I)
            msg = bytes_sym('message')
            s, st = call_m(c, I, SK, 'sign', [sk(I, asym('sk', 'Fs')), msg, EX(), H])
            p, st = call_m(c, I, SK, 'to_public', [sk(I, asym('sk', 'Fs'))])
            for x, g in leaves(s):
                if err_leaf(x):
                    continue
                v, st = call_m(c, I, PK, 'verify', [p, msg, EX(), x.e[0], H])
                r = c.same(v, Ok(UNIT), g, 'verification of an honest signature')
                if r:
                    return r

        def roundtrip_pop():
            H = hasher(I)
            msg = bytes_sym('message')
            s, st = call_m(c, I, SK, 'sign_pop', [sk(I, asym('sk', 'Fs')), msg, H])
            p, st = call_m(c, I, SK, 'to_public', [sk(I, asym('sk', 'Fs'))])
            for x, g in leaves(s):
                if err_leaf(x):
                    continue
                v, st = call_m(c, I, PK, 'verify_pop', [p, msg, x.e[0], H])
                r = c.same(v, Ok(UNIT), g, 'verification of an honest proof of possession')
                if r:
                    return r
        c.ob('to_public/' + nm, topub)
        c.ob('PublicKey::from(&PrivateKey)/' + nm, frompub)
        c.ob('generate/' + nm, generate)
        c.ob('sign then verify/' + nm, roundtrip)
        c.ob('sign_pop then verify_pop/' + nm, roundtrip_pop)


@spec('C04', 30,
      'batch_verify and batch_verify_hashes are evaluated for every pair of list lengths in the partition with all keys, messages and '
      'hashes symbolic; the Ok guard must be the full pairing product with every position on its own key.',
      ['list lengths above the partition behave like the smaller ones (the code is uniform in the position)'])
def c04(c):
    top = 9 if c.thorough else 5
    shapes = [(n, n) for n in list(range(top)) + [40, 120]] + [(n, k) for n in range(4) for k in range(4) if n != k]
    shapes += [s for n in c.sizes([], 300, 6) for s in ((n, n), (n, n + 1)) if s not in shapes]
    c.partition = {'(keys, messages)': shapes}
    I = c.interp('compat')

    def want(I, hs, n):
        prs = [(G1('sig'), G2GEN(), -1)] + [(h, G2('pk%d' % i), 1) for i, h in enumerate(hs)]
        return cond_result(pairing_eq(I, prs), Ok(UNIT), blserr(I, 'VerificationFailed'))

    def hashes(n, k):
        keys = Seq([pk(I, G2('pk%d' % i)) for i in range(n)], 'slice')
        hs = Seq([G1('h%d' % i) for i in range(k)], 'slice')
        v, st = call_m(c, I, SG, 'batch_verify_hashes', [sig(I, G1('sig')), keys, hs])
        if v is None:
            return 'batch_verify_hashes never returns'
        w = blserr(I, 'UnevenNumKeysMessages') if n != k else want(I, hs.items(), n)
        return c.same(v, w, 1, 'batch_verify_hashes(%d keys, %d hashes)' % (n, k)) or c.panicfree(I, 1, 'batch_verify_hashes')

    def messages(n, k):
        H = hasher(I)
        dom = bytes_sym('domain')
        keys = Seq([pk(I, G2('pk%d' % i)) for i in range(n)], 'slice')
        ms = [Tup([bytes_sym('m%d' % i), bytes_sym('x%d' % i)]) for i in range(k)]
        v, st = call_m(c, I, SG, 'batch_verify', [sig(I, G1('sig')), keys, dom, Seq(ms, 'slice'), H])
        if v is None:
            return 'batch_verify never returns'
        if n != k:
            w = blserr(I, 'UnevenNumKeysMessages')
        else:
            hs = []

            def go(i):
                if i == n:
                    return want(I, hs, n)
                def nxt(h):
                    hs.append(inner(I, h))
                    return go(i + 1)
                return and_then(I, h2c(I, H, dom, ms[i].e[0], ms[i].e[1]), nxt)
            w = go(0)
        if n == 2 == k:
            c.sample('batch_verify of two = %s' % show(v))
        return c.same(v, w, 1, 'batch_verify(%d keys, %d messages)' % (n, k)) or c.panicfree(I, 1, 'batch_verify')
    for n, k in shapes:
        c.pob('batch_verify_hashes/%d,%d' % (n, k), lambda n=n, k=k: hashes(n, k))
        c.pob('batch_verify/%d,%d' % (n, k), lambda n=n, k=k: messages(n, k))


BATCH = 'bls_crypto::bls::Batch'


@spec('C05', 8,
      'Batch::new, add and verify are evaluated for batches of every listed size with symbolic keys and signatures; random draws are '
      'fresh atoms carrying their source and width. In the Ok guard each entry must carry one exponent, the same on its key and its '
      'signature, drawn once in this call from a cryptographic source with enough bits, distinct from all others.',
      ['the thread and operating system generators are cryptographic', 'batch sizes above the partition behave like the smaller ones'])
def c05(c):
    I = c.interp('compat')
    sizes = c.sizes([1, 2, 3, 4, 5, 9, 17, 33, 120] + ([65, 129, 257] if c.thorough else []), 1100, 6, 1)
    c.partition = {'batch sizes': sizes}
    D = domains(I)

    def batch(n):
        st = State({}, 1)
        b, st = call_m(c, I, BATCH, 'new', [bytes_sym('message'), EX()], st)
        r = place(I, st, b)
        for i in range(n):
            call_m(c, I, BATCH, 'add', [r, pk(I, G2('pk%d' % i)), sig(I, G1('sig%d' % i))], st)
        return r, st

    def crypto(t):
        if not isinstance(t, Term):
            return False
        if t.op in ('thread_rng', 'entropy', 'OsRng'):
            return True
        if t.op == 'from_rng':
            a = t.a[0]
            return isinstance(a, Opq) and a.cls == 'rng' and crypto(a.f['src'])
        return False

    def exponent(a):
        """(source draw, bits) of an exponent atom"""
        if isinstance(a, tuple) and a[0] == 'frb':
            s = a[1].v
            n = 0
            srcs = []
            for x in s.e:
                if isinstance(x, Seg):
                    if not (isinstance(x.t, tuple) and x.t[0] == 'rand'):
                        return None
                    if not crypto(x.t[1]):
                        return ('weak', x.t[1])
                    k = x.n if isinstance(x.n, int) else None
                    if k is None:
                        return None
                    n += 8 * k
                    srcs.append((x.t, x.off))
                else:
                    o = byte_origin(x)
                    if o is not None and isinstance(o[0], tuple) and o[0][0] == 'rand' and crypto(o[0][1]):
                        n += 8
                        srcs.append(o)
            return (tuple(srcs), n)
        if isinstance(a, tuple) and a[0] == 'randelem':
            if not crypto(a[1]):
                return ('weak', a[1])
            return (a, 252)
        return None

    def byte_origin(x):
        from values import _byte_origin
        return _byte_origin(x)

    def one(n):
        r, st = batch(n)
        H = hasher(I)
        v, st = call_m(c, I, BATCH, 'verify', [r, H], st)
        if v is None:
            return 'Batch::verify never returns'
        pf = c.panicfree(I, 1, 'Batch::verify of %d' % n)
        if pf:
            return pf
        hres = h2c(I, H, D['SIG'], bytes_sym('message'), EX())
        hok = bdd.or_(*[g for x, g in leaves(hres) if not err_leaf(x)])
        hv = [x for x, g in leaves(hres) if not err_leaf(x)][0].e[0]
        okg = bdd.or_(*[g for x, g in leaves(v) if isinstance(x, Enum) and x.var == 'Ok'])
        un = unmodelled(v)
        if un:
            return ('undecided', 'unmodelled %s' % sorted(un))
        eqs = [a for a in bdd.support(okg) if isinstance(a, tuple) and a[0] == 'eq0']
        if len(eqs) != 1:
            return 'Batch::verify of %d entries accepts under %s, not under one pairing equation' % (n, show_bdd(okg))
        if okg != bdd.and_(hok, bdd.atom(eqs[0])):
            return 'Batch::verify of %d entries accepts when %s' % (n, show_bdd(okg))
        P = dict(eqs[0][1].m)
        used = set()
        need = 128 + (n - 1).bit_length()
        need = min(need, 248)
        sgn = None
        hp = inner(I, hv).p.single_atom()
        for i in range(n):
            es = {}
            for what, pr in (('signature', ('e', 'sig%d' % i, 'G2gen')), ('key', ('e', hp, 'pk%d' % i))):
                ms = [(k, cf) for k, cf in P.items() if pr in k]
                if len(ms) != 1:
                    return 'entry %d of %d: its %s occurs %d times in the equation' % (i, n, what, len(ms))
                rest = [a for a in ms[0][0] if a != pr]
                if len(rest) != 1:
                    return 'entry %d of %d: the %s has weight %s' % (i, n, what, '*'.join(show_atom(a) for a in rest) or '1')
                es[what] = (rest[0], ms[0][1])
                del P[ms[0][0]]
            if es['signature'][0] != es['key'][0]:
                return 'entry %d of %d: key and signature have different exponents' % (i, n)
            if es['signature'][1] != -es['key'][1] or abs(es['key'][1]) != 1:
                return 'entry %d of %d: key and signature weights do not cancel' % (i, n)
            e = exponent(es['key'][0])
            if e is None:
                return 'entry %d of %d: exponent %s is not random' % (i, n, show_atom(es['key'][0])[:200])
            if e[0] == 'weak':
                return 'entry %d of %d: exponent drawn from %s' % (i, n, show_atom(e[1])[:200])
            if e[1] < need:
                return 'batch of %d: exponents carry %d random bits, %d needed' % (n, e[1], need)
            if es['key'][0] in used or e[0] in used:
                return 'entry %d of %d: exponent is reused' % (i, n)
            used |= {es['key'][0], e[0]}
        if P:
            return 'the equation has further terms: %s' % Poly.of(P)
        if n == 2:
            c.sample('acceptance of two entries: %s' % show_bdd(okg))
        return None

    def fresh2():
        r, st = batch(2)
        H = hasher(I)
        v1, st = call_m(c, I, BATCH, 'verify', [r, H], st)
        v2, st = call_m(c, I, BATCH, 'verify', [r, H], st)
        at = []
        for v in (v1, v2):
            s = set()
            for x, g in leaves(v):
                for a in bdd.support(g):
                    if isinstance(a, tuple) and a[0] == 'eq0':
                        s |= {z for z in a[1].atoms() if isinstance(z, tuple) and z[0] in ('frb', 'randelem')}
            at.append(s)
        if at[0] & at[1]:
            return 'two verifications of one batch use the same exponents'
        if not at[0]:
            return 'no exponents in the equation'

    def each(n):
        r, st = batch(n)
        H = hasher(I)
        v, st = call_m(c, I, BATCH, 'verify_each', [r, H], st)
        if v is None:
            return 'verify_each never returns'
        def go(i):
            if i == n:
                return Ok(UNIT)
            return and_then(I, h2c(I, H, D['SIG'], bytes_sym('message'), EX()), lambda h: gated([
                (y, bdd.and_(cg, gy)) for cg, w in ((pairing_eq(I, [(G1('sig%d' % i), G2GEN(), -1), (inner(I, h), G2('pk%d' % i), 1)]), None),)
                for y, gy in leaves(go(i + 1))] + [(blserr(I, 'VerificationFailed'), bdd.neg(pairing_eq(I, [(G1('sig%d' % i), G2GEN(), -1), (inner(I, h), G2('pk%d' % i), 1)])))]))
        return c.same(v, go(0), 1, 'verify_each of %d' % n) or c.panicfree(I, 1, 'verify_each')
    for n in sizes:
        c.pob('verify/%d' % n, lambda n=n: one(n))
    c.ob('fresh exponents per call', fresh2)
    for n in c.sizes((0, 1, 2, 3), 600, 3):
        c.pob('verify_each/%d' % n, lambda n=n: each(n))


@spec('C06', 20,
      'aggregate and batch of keys and signatures are evaluated on lists of every listed shape (with repeated elements and mismatched '
      'lengths) of symbolic group elements; results must be the formal sums.',
      ['list lengths above the partition behave like the smaller ones'])
def c06(c):
    I = c.interp('compat')
    shapes = [(), (0,), (0, 1), (0, 0), (0, 1, 2), (0, 1, 0), (0, 0, 0, 1), (3, 2, 1, 0)] + ([tuple(range(k)) for k in (5, 8, 16, 40)] if c.thorough else [tuple(range(6)), tuple(range(120))])
    shapes += [tuple(range(n)) for n in c.sizes([], 1100, 6) if tuple(range(n)) not in shapes]
    c.partition = {'lists': [list(s) for s in shapes]}
    for path, mkf, gk in ((PK, pk, 'G2'), (SG, sig, 'G1')):
        nm = path.split('::')[-1]

        def agg(sh):
            els = [mkf(I, asym('p%s%d' % (gk, i), gk)) for i in sh]
            v, st = call_m(c, I, path, 'aggregate', [Seq(els, 'vec')])
            t = Poly.of({})
            for i in sh:
                t = t.add(Poly.atom('p%s%d' % (gk, i)))
            if v is None:
                return 'aggregate never returns'
            return c.same(v, mkf(I, Alg(t, gk)), 1, '%s::aggregate%s' % (nm, list(sh))) or c.panicfree(I, 1, 'aggregate')

        def bat(ne, sh):
            els = [mkf(I, asym('p%s%d' % (gk, i), gk)) for i in sh]
            ex = Seq([asym('e%d' % i, 'Fs') for i in range(ne)], 'slice')
            v, st = call_m(c, I, path, 'batch', [ex, Seq(els, 'vec')])
            if v is None:
                return 'batch never returns'
            if ne != len(sh):
                w = NONE
            else:
                t = Poly.of({})
                for j, i in enumerate(sh):
                    t = t.add(Poly.atom('e%d' % j).mul(Poly.atom('p%s%d' % (gk, i))))
                w = Some(mkf(I, Alg(t, gk)))
            return c.same(v, w, 1, '%s::batch(%d exponents, %s)' % (nm, ne, list(sh))) or c.panicfree(I, 1, 'batch')
        for sh in shapes:
            c.ob('%s::aggregate/%s' % (nm, list(sh)), lambda: agg(sh))
            c.ob('%s::batch/%d,%s' % (nm, len(sh), list(sh)), lambda: bat(len(sh), sh))
        for ne, sh in ((0, (0,)), (1, ()), (1, (0, 1)), (2, (0,)), (3, (0, 1)), (2, (0, 1, 2))):
            c.ob('%s::batch/%d,%s' % (nm, ne, list(sh)), lambda: bat(ne, sh))
