"""C13, C14: the direct hasher"""
import bdd
from values import *
from interp import State, Dead
from registry import spec
from framework import Missing
import stdlib


def direct(c, I):
    d = I.prog.find('bls_crypto::hashers::DirectHasher')
    if d is None:
        raise Missing('bls_crypto::hashers::DirectHasher')
    if d.node['f']['k'] != 'unit':
        raise Undecided('DirectHasher has fields')
    return d.path, Struct(d.path, {})


def params(**kw):
    f = dict(stdlib.B2DEF)
    f.update(kw)
    return Opq('b2params', **f)


def digest(n, data, **kw):
    p = params(hash_length=Int('u8', v=n), **kw)
    return stdlib.b2bytes(Opq('b2hash', params=p, data=Seq(data.e, 'slice')))


def want_crh(dom, msg, L):
    return digest(32, msg, node_offset=Int('u64', v=L << 32), personal=stdlib.b2pad(dom, 8))


def want_xof(dom, inp, L):
    out = []
    k = (L + 31) // 32
    for i in range(k):
        n = L % 32 if i == k - 1 and L % 32 else 32
        out += digest(n, inp, node_offset=Int('u64', v=i | L << 32), personal=stdlib.b2pad(dom, 8),
                      fanout=Int('u8', v=0), max_depth=Int('u8', v=0), max_leaf_length=Int('u32', v=32),
                      inner_hash_length=Int('usize', v=32)).e
    return Seq(out)


def domlen_ok(I, dom):
    L = dom.length()
    return (1 if L <= 8 else 0) if isinstance(L, int) else I.int_le0(L.add(Poly.const(-8)))


def attempts(c, name, opaque, concrete):
    """decide on fully opaque inputs; if the code needs lengths, fall back to
    a finite partition of lengths with symbolic contents"""
    def go():
        try:
            r = opaque()
            if not (isinstance(r, tuple) and r[0] == 'undecided'):
                return r
        except (Undecided, KeyError, IndexError, TypeError, AttributeError) as e:
            pass
        for f in concrete:
            r = f()
            if r is not None:
                return r
        c.notes.append('%s decided over a partition of input lengths' % name)
        return None
    c.pob(name, go)


LENS_Q = list(range(0, 330)) + [511, 512, 513, 1023, 1024, 1025, 2047, 2048, 2049, 4095, 4096, 8159, 8160, 8161,
                                8191, 8192, 8193, 16383, 16384, 32767, 32768, 49153, 65503, 65504, 65505, 65534, 65535]
LENS_T = sorted(set(list(range(0, 4200)) + LENS_Q + list(range(4200, 65536, 61))))


@spec('C13', 60,
      'Abstract interpretation (gated value flow over the syntax tree, byte strings as opaque ropes, digests as terms) of '
      'DirectHasher::{crh,xof,hash} for every listed output length with domain and message fully opaque; the computed rope of digest '
      'terms is compared with the Blake2Xs block structure.',
      ['output lengths outside the listed partition behave like their neighbours (loop bounds are constants per length)'])
def c13(c):
    I = c.interp('compat')
    I.statics_from_start = True     # later calls: see earlier()
    path, dh = direct(c, I)
    lens = c.sizes(LENS_T if c.thorough else LENS_Q, 65535)
    c.partition = {'output_lengths': lens, 'domain': 'opaque bytes of any length <= 8', 'message': 'opaque bytes of any length'}
    crh, xof = c.method(I, path, 'crh', 'Hasher'), c.method(I, path, 'xof', 'Hasher')
    hsh = c.method(I, path, 'hash', 'Hasher')

    def one(meth, want, L, dom, msg, what):
        I.panics = []
        st = State({}, 1)
        ok = domlen_ok(I, dom)
        st.pc = ok
        v, st = c.run(I, meth, [dh, dom, msg, Int('usize', v=L)], st=st)
        r = c.panicfree(I, ok, what)
        if r:
            return r
        if v is None:
            return '%s never returns' % what
        if L == 32:
            c.sample('%s(len %d) = %s' % (what, L, show(v)))
        return c.same(v, Ok(want(dom, msg, L)), ok, what)
    def earlier(L):
        """the result does not depend on a call made before"""
        ms = {'crh': (crh, want_crh), 'xof': (xof, want_xof)}
        d, m = bytes_sym('domain'), bytes_sym('message')
        d0, m0 = bytes_sym('domain0'), bytes_sym('message0')
        for nm0, (f0, _) in ms.items():
            for a0 in ([x, y, z] for x in (d, d0) for y in (m, m0) for z in (L, L + 7)):
                for nm, (f, want) in ms.items():
                    J = c.interp('compat')
                    J.statics_from_start = True
                    J.panics = []
                    ok = bdd.and_(domlen_ok(J, d), domlen_ok(J, d0))
                    # equal inputs are written as the same symbol
                    s0 = State({}, 1)
                    ok = bdd.and_(ok, bdd.neg(bdd.or_(J.veq(d0, d, s0), J.veq(m0, m, s0))))
                    v, st = c.run(J, f0, [dh] + a0[:2] + [Int('usize', v=a0[2])], st=State({}, ok))
                    if not J.statics:
                        continue
                    if v is None:
                        return '%s never returns' % nm0
                    v, st = c.run(J, f, [dh, d, m, Int('usize', v=L)], st=st)
                    what = 'DirectHasher::%s after an earlier %s' % (nm, nm0)
                    r = c.panicfree(J, ok, what)
                    if r:
                        return r
                    if v is None:
                        return '%s never returns' % what
                    r = c.same(v, Ok(want(d, m, L)), ok, what)
                    if r:
                        return r
        return None
    for L in (32, 33, 96):
        c.pob('earlier call/len=%d' % L, lambda L=L: earlier(L))
    for nm, meth, want in (('crh', crh, want_crh), ('xof', xof, want_xof),
                           ('hash', hsh, lambda d, m, L: want_xof(d, want_crh(d, m, L), L))):
        for L in lens:
            if nm == 'hash' and L > 600 and L in LENS_T and L not in (4096, 65535):
                continue
            attempts(c, '%s/len=%d' % (nm, L),
                     lambda nm=nm, meth=meth, want=want, L=L: one(meth, want, L, bytes_sym('domain'), bytes_sym('message'), 'DirectHasher::' + nm),
                     [lambda dl=dl, ml=ml, nm=nm, meth=meth, want=want, L=L: one(meth, want, L, bytes_sym('domain', dl), bytes_sym('message', ml), 'DirectHasher::' + nm)
                      for dl, ml in ([(8, 33), (0, 0), (3, 1), (8, 64)] if L < 300 else [(8, 32)])])

    # the default composition for an arbitrary hasher: xof over its own crh, errors passed on
    tr = I.prog.find('bls_crypto::hashers::Hasher')
    if tr is None:
        raise Missing('trait bls_crypto::hashers::Hasher')
    fd = tr.extra['fns'].get('hash')
    if fd is None or fd.node.get('b') is None:
        c.ob('Hasher::hash', lambda: 'Hasher::hash has no default implementation')
        return

    def comp():
        h = Term('hasher', ('h',), ('impl', (tr,)))
        dom, msg, L = bytes_sym('domain'), bytes_sym('message'), isym('L', 'usize')
        v, st = c.run(I, fd, [h, dom, msg, L])
        st1 = State({}, 1)
        a = I.opaque_call(tr.extra['fns']['crh'], [h, dom, msg, L], ('impl', (tr,)), {}, st1, None)
        if not isinstance(a, Gated):
            raise Undecided('crh shape')
        outs = []
        for x, g in a.g:
            if x.var == 'Ok':
                b = I.opaque_call(tr.extra['fns']['xof'], [h, dom, x.e[0], L], ('impl', (tr,)), {}, st1, None)
                outs += [(y, bdd.and_(g, gy)) for y, gy in leaves(b)]
            else:
                outs.append((x, g))
        return c.same(v, gated(outs), 1, 'Hasher::hash')
    c.ob('Hasher::hash composition', comp)


@spec('C14', 20,
      'Abstract interpretation of every operation of DirectHasher with an opaque domain of unknown length: on the paths where the '
      'domain is longer than 8 bytes the value must be Err(DomainTooLarge) and no panic is reachable; on the others it must be Ok.')
def c14(c):
    I = c.interp('compat')
    path, dh = direct(c, I)
    err = I.prog.find('bls_crypto::BLSError')
    if err is None:
        raise Missing('bls_crypto::BLSError')
    c.anchors.append(err.path)
    lens = c.sizes([0, 1, 2, 16, 31, 32, 33, 48, 63, 64, 65, 96, 127, 128, 255, 256, 257, 512, 1000] + ([2048, 65535, 8192] if c.thorough else []), 65535)
    c.partition = {'output_lengths': lens, 'domain': 'opaque bytes of unknown length', 'message': 'opaque bytes'}
    for nm in ('crh', 'xof', 'hash'):
        meth = c.method(I, path, nm, 'Hasher')
        for L in lens:
            for big in (True, False):
                def one(dom, msg, nm=nm, meth=meth, L=L, big=big):
                    ok = domlen_ok(I, dom)
                    care = bdd.neg(ok) if big else ok
                    if care == 0:
                        return None
                    st = State({}, care)
                    v, st = c.run(I, meth, [dh, dom, msg, Int('usize', v=L)], st=st)
                    r = c.panicfree(I, care, 'DirectHasher::' + nm)
                    if r:
                        return r
                    if v is None:
                        return 'DirectHasher::%s never returns' % nm
                    for x, g in leaves(v):
                        if bdd.and_(g, care) == 0:
                            continue
                        if isinstance(x, Term) or unmodelled(x) and not isinstance(x, Enum):
                            return ('undecided', show(x))
                        if big and not (isinstance(x, Enum) and x.var == 'Err' and isinstance(x.e[0], Enum) and x.e[0].var == 'DomainTooLarge'):
                            return 'a domain longer than 8 bytes gives %s' % show(x)[:200]
                        if not big and x.var != 'Ok':
                            return 'a domain of at most 8 bytes gives %s' % show(x)[:200]
                    if L == 32:
                        c.sample('%s(domain %s 8 bytes) = %s' % (nm, '>' if big else '<=', show(v)))
                    return None
                attempts(c, '%s/len=%d/%s' % (nm, L, 'long' if big else 'short'),
                         lambda one=one: one(bytes_sym('domain'), bytes_sym('message')),
                         [lambda dl=dl, one=one: one(bytes_sym('domain', dl), bytes_sym('message', 32))
                          for dl in ((9, 10, 16, 17, 33, 64) if big else range(9))])
