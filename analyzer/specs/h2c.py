"""C10 to C12, C29: hashing to the curve and the composite hasher"""
import bdd, arklib, stdlib
from values import *
from interp import State, Dead
from registry import spec
from framework import Missing, Violated
from specs.common import *
from specs import hashers

TAI = ('bls_crypto::hash_to_curve::try_and_increment::TryAndIncrement', 'hash_with_attempt')
TAI2 = ('bls_crypto::hash_to_curve::try_and_increment_cip22::TryAndIncrementCIP22', 'hash_with_attempt_cip22')
FRB = 'bls_crypto::hash_to_curve::from_random_bytes'
CONFIGS = (('compat',), ())
MSG, EX, DOM = lambda: bytes_sym('message'), lambda: bytes_sym('extra_data'), lambda: bytes_sym('domain')


def cfgname(f):
    return 'compat' if 'compat' in f else 'plain'


def params(g):
    return ('path', 'Parameters', (), ('ark_bls12_377', g, 'Parameters'))


class Rec:
    """records the hash calls and the candidate decodings of one run"""

    def __init__(self, c, I, path, meth, g='g1', opaque_decode=True, opaque_hash=False):
        self.c, self.I, self.path, self.meth, self.g = c, I, path, meth, g
        self.calls = []
        self.dec = []
        self.od = opaque_decode

    def run(self, which=None, args=None):
        I, c = self.I, self.c
        d = find(I, self.path)
        H = trait_sym(I, 'bls_crypto::Hasher', 'hasher')
        st = State({}, 1)
        ty = ('path', d.path, (H.ty, params(self.g)), d)
        nf = c.method(I, d.path, 'new')
        self_v, st = c.run(I, nf, [H], ty, I.impl_subst(nf.impl, ty), st)
        old = I.opaque_call
        fd = I.prog.find(FRB)

        def oc(f, a, sty, sub, s, n):
            r = old(f, a, sty, sub, s, n)
            tr = f.extra.get('trait')
            if tr is not None and tr.name == 'Hasher':
                v = [I.deref_deep(x, s) for x in a]
                ok = [x for x, g in leaves(r) if not err_leaf(x)]
                self.calls.append((f.name, v[1:], s.pc, ok[0].e[0] if ok else None, bdd.or_(*[g for x, g in leaves(r) if not err_leaf(x)])))
            return r

        def hook(_, s, a, n):
            k = len(self.dec)
            v = I.deref_deep(a[0], s)
            self.dec.append((v, s.pc))
            g = bdd.atom(('decodes', k))
            return gated([(Some(asym(('candidate', k), 'G1a' if self.g == 'g1' else 'G2a')), g), (NONE, bdd.neg(g))])
        I.opaque_call = oc
        if self.od:
            if fd is None:
                raise Undecided('no function %s' % FRB)
            I.hooks[fd.path] = hook
        try:
            m = c.method(I, d.path, which or self.meth)
            v, st = c.run(I, m, [self_v] + (args or [DOM(), MSG(), EX()]), ty, I.impl_subst(m.impl, ty), st)
        finally:
            I.opaque_call = old
            if fd is not None:
                I.hooks.pop(fd.path, None)
        return v


@spec('C10', 12,
      'hash and hash_with_attempt of both schemes are evaluated for all inputs with candidate decoding as an unknown partial function of '
      'the k-th candidate; the result must be the first counter whose candidate decodes to a point that is nonzero after cofactor '
      'clearing, with that counter, and an error when a hash fails or none of at least 255 counters qualifies.',
      ['from_random_bytes returns a curve point or nothing (C12)', 'scale_by_cofactor multiplies by the cofactor'])
def c10(c):
    c.partition = {'schemes': ['try and increment', 'CIP22'], 'sign conventions': ['compat', 'plain'], 'curves': ['G1', 'G2']}
    for f in CONFIGS:
        for path, meth in (TAI, TAI2):
            nm = path.split('::')[-1]
            for g in ('g1', 'g2') if 'compat' in f or c.thorough else ('g1',):
                c.pob('%s::%s/%s/%s' % (nm, meth, cfgname(f), g), lambda f=f, path=path, meth=meth, g=g: first_good(c, f, path, meth, g, meth))
                c.pob('%s::hash/%s/%s' % (nm, cfgname(f), g), lambda f=f, path=path, meth=meth, g=g: hash_agrees(c, f, path, meth, g))


def no_candidate(c, I):
    e = c.panicfree(I, 1, 'before any candidate is tried the function')
    return e if isinstance(e, str) else ('undecided', 'no candidate is decoded through from_random_bytes')


def first_good(c, f, path, meth, g, which):
    I = c.interp(*f)
    nm = path.split('::')[-1]
    rec = Rec(c, I, path, meth, g)
    v = rec.run(which)
    if v is None:
        return '%s never returns' % which
    n = len(rec.dec)
    if n == 0:
        return ('undecided', 'no candidate is decoded through from_random_bytes')
    if n < 255:
        return '%s::%s gives up after %d candidates' % (nm, which, n)
    k = 'G1' if g == 'g1' else 'G2'
    out, oks = [], []
    rest = 1
    for i, (bts, pc) in enumerate(rec.dec):
        good = bdd.and_(bdd.atom(('decodes', i)), bdd.neg(I.eq0(Poly.atom('cofactor').mul(Poly.atom(('candidate', i))))))
        hashed = hash_ok(I, rec, i)
        if hashed is None:
            return ('undecided', 'candidate %d has no recognised hash' % i)
        take = bdd.and_(rest, hashed, good)
        oks.append((Alg(Poly.atom('cofactor').mul(Poly.atom(('candidate', i))), k), Int('usize', v=i), take))
        out.append((Err(ANY), bdd.and_(rest, bdd.neg(hashed))))
        rest = bdd.and_(rest, hashed, bdd.neg(good))
    out.append((Err(ANY), rest))
    pt, ct = gated([(x, g) for x, y, g in oks]), gated([(y, g) for x, y, g in oks])
    out.insert(0, (Ok(Tup([pt, ct]) if which == meth else pt), bdd.or_(*[g for x, y, g in oks])))
    c.sample('%s: %d candidates; first result %s' % (nm, n, show(oks[0][0])))
    e = c.same(v, gated(out), 1, '%s::%s' % (nm, which))
    if e:
        return e
    # the counter of a candidate is the first byte of what is hashed for it
    for i, (bts, pc) in enumerate(rec.dec):
        ct = counter_byte(I, rec, bts)
        if not (isinstance(ct, Int) and ct.v == i):
            return 'candidate of counter %d is derived from %s' % (i, show(ct)[:80] if ct is not None else 'no hash')
    return None


def hash_agrees(c, f, path, meth, g):
    """hash returns the point of hash_with_attempt on the same inputs, and its errors"""
    I = c.interp(*f)
    nm = path.split('::')[-1]
    calls = []
    d = find(I, path)
    k = 'G1' if g == 'g1' else 'G2'

    def hook(_, s, a, n):
        calls.append([I.deref_deep(x, s) for x in a])
        ok = bdd.atom(('attempt ok', len(calls)))
        pt = asym(('attempt', len(calls)), k)
        return gated([(Ok(Tup([pt, isym('attempt counter', 'usize')])), ok), (Err(Opq('attempt error')), bdd.neg(ok))])
    I.hooks[(d.path, meth)] = hook
    rec = Rec(c, I, path, meth, g)
    v = rec.run('hash')
    if len(calls) == 1 and not rec.dec and not rec.calls:
        if v is None:
            return 'hash never returns'
        for got, want, what in zip(calls[0][1:], [DOM(), MSG(), EX()], ('domain', 'message', 'extra_data')):
            e = c.same(got, want, 1, '%s::hash passes as %s' % (nm, what))
            if e:
                return e
        ok = bdd.atom(('attempt ok', 1))
        return c.same(v, gated([(Ok(asym(('attempt', 1), k)), ok), (Err(ANY), bdd.neg(ok))]), 1, '%s::hash' % nm)
    return first_good(c, f, path, meth, g, 'hash')


def counter_byte(I, rec, bts):
    cl = source_call(I, rec, bts)
    for _ in range(3):
        if cl is None or not isinstance(cl[1][1], Seq) or not cl[1][1].e:
            return None
        x = cl[1][1].e[0]
        if not isinstance(x, Seg):
            return x
        cl = next((c2 for c2 in rec.calls if isinstance(c2[3], Seq) and any(isinstance(y, Seg) and y.t == x.t for y in c2[3].e)), None)
    return None


def source_call(I, rec, bts):
    """the xof/hash call whose output the candidate bytes come from"""
    names = set()

    def scan(x):
        if isinstance(x, Seg):
            names.add(x.t)
    if not isinstance(bts, Seq):
        return None
    for x in bts.e:
        if isinstance(x, Seg):
            names.add(x.t)
        elif isinstance(x, Int) and x.bits is not None:
            for b in x.bits:
                for a in bdd.support(b):
                    if isinstance(a, tuple) and len(a) >= 2 and a[0] == 'bit':
                        names.add(a[1])
                    elif isinstance(a, tuple):
                        names.add(a)
    inner = set(names)
    for nm in names:
        if isinstance(nm, tuple):
            inner.update(nm)
    for cl in rec.calls:
        if cl[3] is None or not isinstance(cl[3], Seq):
            continue
        if cl[0] in ('xof', 'hash') and any(isinstance(x, Seg) and x.t in inner for x in cl[3].e):
            return cl
    return None


def hash_ok(I, rec, i):
    """guard: all hashes needed for candidate i succeeded"""
    cl = source_call(I, rec, rec.dec[i][0])
    if cl is None:
        return None
    g = cl[4]
    # its input may itself be a hash
    for x in cl[1][1].e if isinstance(cl[1][1], Seq) else ():
        if isinstance(x, Seg):
            for c2 in rec.calls:
                if isinstance(c2[3], Seq) and any(isinstance(y, Seg) and y.t == x.t for y in c2[3].e):
                    g = bdd.and_(g, c2[4])
    return g


# ---- C11

def total_hash(rec, I):
    """hashes that cannot fail, recorded; candidates that never decode"""
    def oc(f, a, sty, sub, s, n):
        tr = f.extra.get('trait')
        if tr is None or tr.name != 'Hasher':
            return old(f, a, sty, sub, s, n)
        v = [I.deref_deep(x, s) for x in a][1:]
        k = ('digest', f.name, HK(Tup(v)))
        L = v[2]
        out = bytes_sym(k, L.v if L.v is not None else None)
        rec.calls.append((f.name, v, s.pc, out, 1))
        return Ok(out)
    old = I.opaque_call
    return oc


def run_total(c, f, path, meth, g):
    I = c.interp(*f)
    rec = Rec(c, I, path, meth, g)
    d = I.prog.find(FRB)
    if d is None:
        raise Undecided('no function %s' % FRB)
    rec.od = False
    I.opaque_call = total_hash(rec, I)

    def hook(_, s, a, n):
        rec.dec.append((I.deref_deep(a[0], s), s.pc))
        return NONE
    I.hooks[d.path] = hook
    rec.run(meth)
    if not rec.dec:
        r = no_candidate(c, I)
        raise Violated(r) if isinstance(r, str) else Undecided(r[1])
    return I, rec


def starts(s, out):
    """the byte strings have the same first byte"""
    if not s.e or not out.e:
        return False
    a, b = s.e[0], out.e[0]
    if isinstance(a, Seg) and isinstance(b, Seg):
        return a.t == b.t and a.off == b.off
    return list(out.slice(0, 1).items())[0] == list(s.slice(0, 1).items())[0]


NB = {'g1': 48, 'g2': 96}
HB = {'g1': 64, 'g2': 96}


def dig(name, dom, m, L):
    return bytes_sym(('digest', name, HK(Tup([dom, m, Int('usize', v=L)]))), L)


def want_candidates(cip22, g):
    L = HB[g]
    out = []
    for k in range(255):
        head = [Int('u8', v=k)]
        if cip22:
            inner = dig('crh', DOM(), MSG(), L)
            m = Seq(head + EX().e + inner.e)
        else:
            m = dig('crh', DOM(), Seq(head + EX().e + MSG().e), L)
        out.append((m, dig('xof', DOM(), m, L)))
    return out


@spec('C11', 12,
      'Every hash call of both schemes (all 255 counters) is evaluated with opaque domain, extra data and message; domain, the complete '
      'hashed byte string and the requested length are compared with the specification, hash_length is evaluated for each size, and hash is compared '
      'with hash_with_attempt.', ['a hash function is determined by its arguments'])
def c11(c):
    c.partition = {'counters': '0..=254', 'hash_length': '0..=%d' % (4096 if c.thorough else 400)}
    for f in CONFIGS:
        for path, meth in (TAI, TAI2):
            nm = path.split('::')[-1]
            for g in ('g1', 'g2'):
                c.pob('%s::%s/%s/%s' % (nm, meth, cfgname(f), g), lambda f=f, path=path, meth=meth, g=g: hashed_bytes(c, f, path, meth, g))
                c.pob('%s::hash/%s/%s' % (nm, cfgname(f), g), lambda f=f, path=path, meth=meth, g=g: hash_agrees(c, f, path, meth, g))

    def hl():
        I = c.interp('compat')
        d = c.fn(I, 'bls_crypto::hash_to_curve::hash_length')
        for n in range(0, 4097 if c.thorough else 401):
            v, _ = c.run(I, d, [Int('usize', v=n)])
            w = (8 * n + 255) // 256 * 32
            if not (isinstance(v, Int) and v.v == w):
                if isinstance(v, Int) and v.v is not None:
                    return 'hash_length(%d) is %d, not %d' % (n, v.v, w)
                raise Undecided('hash_length(%d) = %s' % (n, show(v)))
        return None
    c.pob('hash_length', hl)


def hashed_bytes(c, f, path, meth, g):
    I, rec = run_total(c, f, path, meth, g)
    cip = path == TAI2[0]
    nm = path.split('::')[-1]
    def call_of(seq):
        """the recorded call whose output starts this byte string"""
        for name, v, pc, out, _ in rec.calls:
            if isinstance(seq, Seq) and starts(seq, out):
                return (name, v, out)
        return None
    if len(rec.dec) != 255:
        return '%s tries %d candidates, not 255' % (nm, len(rec.dec))
    L = HB[g]
    for k, (bts, pc) in enumerate(rec.dec):
        cl = call_of(bts)
        if cl is None:
            return 'candidate %d of %s does not start with a hash output' % (k, nm)
        name, v, out = cl
        head = Seq([Int('u8', v=k)])
        if name != 'xof':
            return 'candidate %d of %s is the output of %s' % (k, nm, name)
        e = (c.same(v[0], DOM(), 1, '%s: domain of candidate %d' % (nm, k)) or
             c.same(v[2], Int('usize', v=L), 1, '%s: hash length of candidate %d' % (nm, k)))
        if e:
            return e
        if cip:
            m = v[1]
            if not isinstance(m, Seq):
                raise Undecided('hashed bytes')
            inner = dig('crh', DOM(), MSG(), L)
            e = c.same(m, Seq(head.e + EX().e + inner.e), 1, '%s: hashed bytes of candidate %d' % (nm, k))
            if e and not isinstance(e, tuple):
                # say which part of the compression differs
                for n2, v2, _, o2, _ in rec.calls:
                    if n2 == 'crh':
                        e2 = c.same(Tup(v2), Tup([DOM(), MSG(), Int('usize', v=L)]), 1, '%s: arguments of the message compression' % nm)
                        if e2:
                            return e2
            if e:
                return e
        else:
            c2 = call_of(v[1])
            if c2 is None or c2[0] != 'crh':
                return 'candidate %d of %s expands %s' % (k, nm, show(v[1])[:200])
            e = (c.same(v[1], c2[2], 1, '%s: expanded bytes of candidate %d' % (nm, k)) or
                 c.same(c2[1][0], DOM(), 1, '%s: compression domain of candidate %d' % (nm, k)) or
                 c.same(c2[1][1], Seq(head.e + EX().e + MSG().e), 1, '%s: hashed bytes of candidate %d' % (nm, k)) or
                 c.same(c2[1][2], Int('usize', v=L), 1, '%s: compression length of candidate %d' % (nm, k)))
            if e:
                return e
        # the candidate is the start of the output, up to the reserved bits of its last byte (C12)
        nb = NB[g]
        if bts.length() != nb:
            return 'candidate %d of %s has %s bytes, not %d' % (k, nm, bts.length(), nb)
        e = c.same(bts.slice(0, nb - 1), out.slice(0, nb - 1), 1, '%s: candidate %d' % (nm, k))
        if e:
            return e
    c.sample('%s/%s: candidate k = xof(domain, %s, %d)' % (nm, g, show(rec.calls[-1][1][1])[:300], L))
    return None


# ---- C12

@spec('C12', 14,
      'from_random_bytes is evaluated on 48 and 96 symbolic bytes: bits 0..376 are x, the two top bits select sign and infinity; the bytes both '
      'schemes hand to it are compared bit by bit with the hash output in both sign conventions; the circuit\'s positions of the x and sign bits are '
      'read from the circuit in the same way.', ['the curve library decodes x and solves for y as documented'])
def c12(c):
    c.partition = {'bytes': 'every bit symbolic', 'configurations': ['compat', 'plain']}
    for f in CONFIGS:
        for g in ('g1', 'g2'):
            c.ob('from_random_bytes/%s/%s' % (cfgname(f), g), lambda: decode(c, f, g))
            for path, meth in (TAI, TAI2):
                nm = path.split('::')[-1]
                c.pob('%s/%s/%s' % (nm, cfgname(f), g), lambda f=f, path=path, meth=meth, g=g: candidate_bits(c, f, path, meth, g))
        from specs import epochcircuit
        for n, m, q in ((1, 0, True), (1, 0, False)) + (((2, 3, True),) if c.thorough else ()):
            c.pob('circuit, %d and %d bytes, %s constraints/%s' % (n, m, 'with' if q else 'without', cfgname(f)),
                  lambda f=f, n=n, m=m, q=q: epochcircuit.h2g(c, f, n, m, q))


def decode(c, f, g):
    I = c.interp(*f)
    d = c.fn(I, FRB)
    by = bytes_sym('candidate', NB[g])
    kind = 'G1a' if g == 'g1' else 'G2a'
    sub = {x['n']: params(g) for x in d.node['sig']['g']['p']}
    v, st = c.run(I, d, [by], None, sub)
    bits = [Bool(b) for x in by.items() for b in x.tobits(8)]
    e = c.panicfree(I, 1, 'from_random_bytes')
    if e:
        return e

    def fq(bs):
        bs = bs[:377]
        return arklib.from_bits_le(bs, 'F'), bdd.atom(('canonical', 'F', HK(Seq(bs))))
    if g == 'g1':
        x, ok = fq(bits)
        bk = 'F'
    else:
        x0, o0 = fq(bits[:384])
        x1, o1 = fq(bits[384:])
        x, ok, bk = Alg(Poly.atom(('ext', x0.p, x1.p)), 'F2'), bdd.and_(o0, o1), 'F2'
    sign, inf = bits[-1].b, bits[-2].b
    zero = bdd.and_(ok, inf, I.eq0(x.p))
    base = 'G1' if g == 'g1' else 'G2'
    on = bdd.atom(('oncurve', base, x.p))
    p = asym(('ptx', base, x.p), kind)
    some = bdd.and_(ok, bdd.neg(zero), on)
    want = gated([(Some(Alg(Poly.const(0), kind)), zero),
                  (Some(p), bdd.and_(some, sign)), (Some(Alg(p.p.scale(-1), kind)), bdd.and_(some, bdd.neg(sign))),
                  (NONE, bdd.neg(bdd.or_(zero, some)))])
    c.sample('from_random_bytes/%s = %s' % (g, show(v)[:400]))
    return c.same(v, want, 1, 'from_random_bytes')


def candidate_bits(c, f, path, meth, g):
    I, rec = run_total(c, f, path, meth, g)
    nm = path.split('::')[-1]
    nb = NB[g]
    for k, (bts, pc) in enumerate(rec.dec):
        if bts.length() != nb:
            return 'candidate %d of %s has %s bytes, not %d' % (k, nm, bts.length(), nb)
        out = None
        for name, v, _, o, _ in rec.calls:
            if name == 'xof' and starts(bts, o):
                out = o
        if out is None:
            raise Undecided('candidate %d does not come from a hash output' % k)
        want = list(out.slice(0, nb).items()) if k < 3 or c.thorough else None
        if want is None:
            wl = list(out.slice(nb - 1, nb).items())
            gl = list(bts.slice(nb - 1, nb).items())
        else:
            wl, gl = want, list(bts.items())
        if 'compat' in f:
            b = wl[-1].tobits(8)
            wl[-1] = Int('u8', bits=list(b[:7]) + [b[1]])
        e = c.same(Seq(gl), Seq(wl), 1, '%s: bytes decoded for candidate %d' % (nm, k))
        if e:
            return e
    return None


# ---- C29

def want_rng():
    p = Opq('b2params', **dict(stdlib.B2DEF, hash_length=Int('u8', v=32), personal=stdlib.b2pad(bytes_const(b'UL_prngs'), 8)))
    seed = stdlib.b2bytes(Opq('b2hash', params=p, data=Seq(bytes_const(b'ULTRALIGHT PRNG SEED').e, 'slice')))
    return Term('seeded', ('ChaChaRng', seed))


CH = 'bls_crypto::hashers::composite::CompositeHasher'


@spec('C29', 9,
      'CompositeHasher is evaluated for an arbitrary CRH with opaque message, domain and lengths: parameters, compressed bytes, '
      'expansion and error propagation are compared with the specification; the generator seed and the window constants are evaluated.',
      ['the CRH is a function of parameters and message', 'ChaChaRng is determined by its seed'])
def c29(c):
    c.partition = {'configurations': ['compat', 'plain']}
    for f in CONFIGS:
        I = c.interp(*f)
        crh_models(I)
        d = find(I, CH)
        Hty = ('param', 'H')
        ty = ('path', d.path, (Hty,), d)
        key = ('crh setup', I.tykey(Hty), want_rng(), 0)
        par = Term('crh parameters', key)
        okp = bdd.atom(('ok', key))

        def call(name, args, st=None):
            m = c.method(I, d.path, name)
            v, st = c.run(I, m, args, ty, I.impl_subst(m.impl, ty), st)
            e = c.panicfree(I, 1, 'CompositeHasher::' + name)
            if e:
                raise Undecided(e[1]) if isinstance(e, tuple) else Violated(e)
            if v is None:
                raise Violated('CompositeHasher::%s never returns' % name)
            return v

        def h():
            v = call('new', [])
            ok = [x.e[0] for x, g in leaves(v) if isinstance(x, Enum) and x.var == 'Ok']
            if len(ok) != 1:
                raise Violated('CompositeHasher::new gives %s' % show(v)[:200])
            return ok[0]

        def new():
            v = call('new', [])
            ok = [(x, g) for x, g in leaves(v) if isinstance(x, Enum) and x.var == 'Ok']
            if len(ok) != 1 or ok[0][1] != okp:
                return c.same(v, gated([(Ok(ANY), okp), (Err(ANY), bdd.neg(okp))]), 1, 'CompositeHasher::new')
            return c.same(inner(I, ok[0][0].e[0]), par, okp, 'parameters of CompositeHasher::new')

        def setup():
            v = call('setup_crh', [])
            c.sample('setup_crh() = %s' % show(v))
            return c.same(v, gated([(Ok(par), okp), (Err(ANY), bdd.neg(okp))]), 1, 'CompositeHasher::setup_crh')

        def crh():
            hs = h()
            dom, msg = DOM(), MSG()
            v = call('crh', [hs, dom, msg, isym('len', 'usize')])
            key = ('crh', HK(inner(I, hs)), HK(msg))
            ok = bdd.atom(('ok', key))
            x = arklib.fbytes(arklib.coord(asym(key, 'Ea'), 'x'))
            c.sample('crh = %s' % show(v)[:300])
            return c.same(v, gated([(Ok(x), ok), (Err(ANY), bdd.neg(ok))]), 1, 'CompositeHasher::crh')

        def xof(L):
            hs = h()
            st = State({}, 1)
            dp, dh = hashers.direct(c, I)
            dm = c.method(I, dp, 'xof', 'Hasher')
            inp = bytes_sym('input')
            w, _ = c.run(I, dm, [dh, DOM(), inp, Int('usize', v=L)])
            v = call('xof', [hs, DOM(), inp, Int('usize', v=L)])
            return c.same(v, w, 1, 'CompositeHasher::xof of %d bytes' % L)
        n = cfgname(f)
        c.ob('new/' + n, new)
        c.ob('setup_crh/' + n, setup)
        c.ob('crh/' + n, crh)
        for L in (0, 1, 32, 64, 96, 100, 768) if c.thorough else (64, 96, 33):
            c.ob('xof/%d/%s' % (L, n), lambda: xof(L))

        def window():
            for im in I.prog.impls:
                if 'WINDOW_SIZE' in im.consts:
                    a, b = I.const(im.consts['WINDOW_SIZE']), I.const(im.consts['NUM_WINDOWS'])
                    e = c.same(a, Int('usize', v=93), 1, 'WINDOW_SIZE') or c.same(b, Int('usize', v=560), 1, 'NUM_WINDOWS')
                    return e
            raise Undecided('no window constants')
        c.ob('window/' + n, window)

        def static():
            g = find(I, 'bls_crypto::hashers::composite::COMPOSITE_HASHER')
            st = State({}, 1)
            v = I.deref_deep(I.force(I, I.const(g), st, {}), st)
            par2 = inner(I, v)
            if not (isinstance(par2, Term) and par2.op == 'crh parameters'):
                raise Undecided('COMPOSITE_HASHER = %s' % show(v)[:200])
            e = c.same(par2.a[2], want_rng(), 1, 'randomness of COMPOSITE_HASHER') or \
                c.same(Int('usize', v=par2.a[3]), Int('usize', v=0), 1, 'draws before the setup of COMPOSITE_HASHER')
            return e
        c.ob('COMPOSITE_HASHER/' + n, static)
