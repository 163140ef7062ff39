"""C07 to C09: the public key cache, serialization of keys and signatures"""
import itertools
import bdd, arklib
from values import *
from interp import State, Dead
from registry import spec
from framework import Missing
from specs.common import *

CACHE, PK, SG, SK = 'bls_crypto::PublicKeyCache', 'bls_crypto::PublicKey', 'bls_crypto::Signature', 'bls_crypto::PrivateKey'


def keyed(p):
    """coordinates of two keys: ({coordinate: {key atoms}}) of a difference"""
    if len(p.m) != 2:
        return None
    r = []
    for m, c in p.m:
        if len(m) != 1 or abs(c) != 1:
            return None
        a = m[0]
        d = []
        while isinstance(a, tuple) and len(a) == 2 and isinstance(a[0], str) and (a[0][:5] in ('proj.', 'aff.x', 'aff.y', 'c0', 'c1')):
            d.append(a[0])
            a = a[1]
            if isinstance(a, Poly):
                a = a.single_atom()
        r.append((tuple(d), a, c))
    (d1, a1, c1), (d2, a2, c2) = r
    if d1 != d2 or c1 != -c2 or a1 is None or a2 is None:
        return None
    return d1, a1, a2


def distinct_keys(shared=()):
    """oracle: keys named k<i> are pairwise different points; coordinates in
    `shared` nevertheless agree"""
    def f(p):
        r = keyed(p)
        if r is None:
            return None
        d, a, b = r
        if not (isinstance(a, str) and isinstance(b, str) and a[0] == 'k' and b[0] == 'k'):
            return None
        if a == b:
            return 1
        if not d:
            return 0
        for t in d:
            if t in ('proj.x', 'proj.y', 'proj.z', 'aff.x', 'aff.y'):
                return 1 if t.split('.')[1] in shared else 0
        return None
    return f


@spec('C07', 200,
      'new, clear_cache, aggregate and deserialize are evaluated on one cache over every history of the listed shapes, for symbolic '
      'pairwise different keys; every aggregate must return the formal sum of the distinct keys of its list. Key identity is decided for '
      'keys sharing every proper subset of coordinates, and everything hashed must be compared.',
      ['hash sets behave as sets under the Eq of their elements', 'lists over more than four keys behave like the smaller ones'])
def c07(c):
    I = c.interp('compat')
    U = 4 if c.thorough else 3
    subsets = [tuple(s) for k in range(U + 1) for s in itertools.combinations(range(U), k)]
    lists = subsets + [(0, 0), (1, 0, 1), (0, 1, 1, 0), (2, 0, 2)]
    c.partition = {'universe of keys': U, 'lists': len(lists), 'histories': 'pairs of lists, triples of subsets of three keys, with clear and deserialize between'}
    K = lambda i: pk(I, G2('k%d' % i))

    def new():
        st = State({}, 1)
        v, st = call_m(c, I, CACHE, 'new', [], st)
        return place(I, st, v), st

    def agg(r, st, l):
        I.distinct = distinct_keys()
        try:
            v, _ = call_m(c, I, CACHE, 'aggregate', [r, Seq([K(i) for i in l], 'vec')], st)
        finally:
            I.distinct = None
        if v is None:
            return 'aggregate never returns'
        t = Poly.of({})
        for i in set(l):
            t = t.add(Poly.atom('k%d' % i))
        return c.same(v, pk(I, Alg(t, 'G2')), 1, 'aggregate%s' % list(l)) or c.panicfree(I, 1, 'aggregate')

    def hist(steps):
        r, st = new()
        for i, s in enumerate(steps):
            if s == 'clear':
                call_m(c, I, CACHE, 'clear_cache', [r], st)
            elif s == 'de':
                call_m(c, I, CACHE, 'deserialize', [r, bytes_sym('data')], st)
            else:
                e = agg(r, st, s)
                if e:
                    if isinstance(e, tuple):
                        return (e[0], e[1] + ' after %s' % (list(steps[:i]),))
                    return '%s after %s' % (e, list(steps[:i]))
    for n in c.sizes([12, 30], 300, 3, U + 1):
        c.pob('history/%d keys' % n, lambda n=n: hist([tuple(range(n)), tuple(range(n // 2)), tuple(range(1, n))]))
    for a in lists:
        for b in lists:
            c.pob('history/%s,%s' % (list(a), list(b)), lambda a=a, b=b: hist([a, b]))
    s3 = [s for s in subsets if all(x < 3 for x in s)]
    tri = [(a, b, d) for a in s3 for b in s3 for d in s3]
    if not c.thorough:
        tri = [t for i, t in enumerate(tri) if i % 5 == 0]
    for t in tri:
        c.pob('history/%s' % (list(map(list, t)),), lambda t=t: hist(t))
    for a in s3:
        c.pob('clear between/%s' % list(a), lambda a=a: hist([a, 'clear', (0, 1), 'clear', a, a]))
        c.pob('deserialize between/%s' % list(a), lambda a=a: hist(['de', a, 'de', (1,), 'de', a]))

    def fresh(steps):
        r0, st0 = new()
        want = I.deref_deep(r0, st0)
        r, st = new()
        for s in steps:
            if s == 'clear':
                call_m(c, I, CACHE, 'clear_cache', [r], st)
            elif s == 'de':
                call_m(c, I, CACHE, 'deserialize', [r, bytes_sym('data')], st)
            else:
                agg(r, st, s)
        return c.same(I.deref_deep(r, st), want, 1, 'cache after clear_cache')
    c.ob('cleared cache is new', lambda: fresh([(0, 1), 'de', 'clear']))
    c.ob('default cache is new', lambda: c.same(call_m(c, I, CACHE, 'default', [])[0], call_m(c, I, CACHE, 'new', [])[0], 1, 'default'))

    def empty():
        v, _ = call_m(c, I, CACHE, 'new', [])
        return c.same(v.f['combined'], pk(I, Alg(Poly.const(0), 'G2')), 1, 'initial sum')
    c.ob('new cache sums to zero', empty)

    # identity of keys
    def shares(sh):
        I.distinct = distinct_keys(sh)
        try:
            r, st = new()
            out, _ = call_m(c, I, CACHE, 'aggregate', [r, Seq([K(0), K(1)], 'vec')], st)
            w = pk(I, Alg(Poly.atom('k0').add(Poly.atom('k1')), 'G2'))
            e = c.same(out, w, 1, 'aggregate of two different keys agreeing in %s' % (','.join(sh) or 'nothing'))
            if e:
                return e
            out, _ = call_m(c, I, CACHE, 'aggregate', [r, Seq([K(1)], 'vec')], st)
            return c.same(out, K(1), 1, 'aggregate of one of two different keys agreeing in %s' % (','.join(sh) or 'nothing'))
        finally:
            I.distinct = None
    for k in range(3):
        for sh in itertools.combinations('xyz', k):
            c.ob('identity/different keys agreeing in {%s}' % ','.join(sh), lambda: shares(sh))

    def hashes():
        """what set membership hashes must be equal whenever keys compare equal"""
        n = 0
        for d in I.prog.by_method.get('hash', []):
            im, fd = d
            dd = I.prog.find(im.head) if isinstance(im.head, str) else None
            if im.head is None or 'bls::cache' not in str(im.head):
                continue
            n += 1
            ty = tyof(dd)
            t = dd.node
            val = None
            if t['f']['f']:
                fs = [I.prog.head_of(f['t'], dd.mod, []) for f in t['f']['f']]
                if len(fs) == 1:
                    nm = t['f']['f'][0].get('n') or '0'
                    val = lambda i: Struct(dd.path, {nm: K(i)})
            if val is None:
                return ('undecided', 'shape of %s' % dd.path)
            st = State({}, 1)
            h = place(I, st, Opq('hasher', e=()))
            c.run(I, fd, [val(0), h], ty, None, st)
            hv = I.deref(h, st)
            if not (isinstance(hv, Opq) and hv.cls == 'hasher'):
                return ('undecided', 'hashed data %s' % show(hv)[:100])
            eqs = [x for x in I.prog.method(dd.path, 'eq')]
            if eqs:
                v, _ = c.run(I, eqs[0][1], [val(0), val(1)], ty)
                g = I.truth(v)
            else:
                g = I.veq(val(0), val(1), State({}, 1))
            st2 = State({}, 1)
            h2 = place(I, st2, Opq('hasher', e=()))
            c.run(I, fd, [val(1), h2], ty, None, st2)
            hw = I.deref(h2, st2)
            if len(hv.f['e']) != len(hw.f['e']):
                return 'the two keys hash different amounts of data'
            for a, b in zip(hv.f['e'], hw.f['e']):
                bad = bdd.and_(g, bdd.neg(I.veq(a, b, State({}, 1))))
                if bad != 0:
                    un = unmodelled(Bool(bad))
                    if un:
                        return ('undecided', str(un))
                    return 'keys that compare equal may hash differently: when %s' % show_bdd(bad)
        if n == 0:
            c.notes.append('no custom Hash for cached keys')
    c.ob('equal keys hash equally', hashes)


@spec('C08', 12,
      'PublicKeyCache::deserialize is evaluated after every listed history on symbolic byte strings, for same and for different strings '
      '(parts of different strings may agree), for resident and evicted entries; its result must be that of decoding the string directly.',
      ['an LRU cache returns, for a key, nothing or the value last put under an equal key'])
def c08(c):
    I = c.interp('compat')
    lens = [0, 1, 48, 95, 96, 97, 192, None]
    c.partition = {'byte lengths': [str(x) for x in lens]}
    names = {}

    def data(nm, ln):
        s = bytes_sym(nm) if ln is None else Seq([Seg(nm, 0, ln)], 'vec')
        return s

    def direct(ln, nm):
        st = State({}, 1)
        r = place(I, st, data(nm, ln))
        v, _ = call_m(c, I, PK, 'deserialize', [r], st, trait='CanonicalDeserialize')
        return v

    def eqhook(whole):
        def f(a, b):
            """whole byte strings of different name differ; their parts may agree"""
            if any(a.e == x.e for x in whole) and any(b.e == x.e for x in whole):
                return 1 if a.e == b.e else 0
            k = sorted((a, b), key=show)
            return 1 if a.e == b.e else bdd.atom(('eqseq', Seq(k[0].e), Seq(k[1].e)))
        return f

    def hist(steps):
        st = State({}, 1)
        v, st = call_m(c, I, CACHE, 'new', [], st)
        r = place(I, st, v)
        I.eqseq = eqhook([data(nm, ln) for nm, ln in steps if nm != 'clear' and nm != 'agg'])
        try:
            for i, (nm, ln) in enumerate(steps):
                if nm == 'clear':
                    call_m(c, I, CACHE, 'clear_cache', [r], st)
                    continue
                if nm == 'agg':
                    I.distinct = distinct_keys()
                    call_m(c, I, CACHE, 'aggregate', [r, Seq([pk(I, G2('k0'))], 'vec')], st)
                    I.distinct = None
                    continue
                v, _ = call_m(c, I, CACHE, 'deserialize', [r, data(nm, ln)], st)
                w = direct(ln, nm)
                if v is None:
                    return 'deserialize never returns'
                w = gated([(x if x.var == 'Ok' else Err(ANY), g) for x, g in leaves(w)])
                e = c.same(v, w, 1, 'cached deserialization of %s' % nm)
                if not e:
                    e = c.panicfree(I, 1, 'deserialize')
                if e:
                    m = ' after %s' % [s[0] for s in steps[:i]]
                    return (e[0], e[1] + m) if isinstance(e, tuple) else e + m
        finally:
            I.eqseq = None
            I.distinct = None
    for ln in lens:
        t = 'any' if ln is None else ln
        c.ob('first/%s bytes' % t, lambda: hist([('a', ln)]))
        c.ob('again/%s bytes' % t, lambda: hist([('a', ln), ('a', ln), ('a', ln)]))
        c.ob('other first/%s bytes' % t, lambda: hist([('a', ln), ('b', ln), ('a', ln)]))
        c.ob('three/%s bytes' % t, lambda: hist([('a', ln), ('b', ln), ('c', ln), ('b', ln), ('a', ln)]))
        c.ob('clear and aggregate between/%s bytes' % t, lambda: hist([('a', ln), ('clear', 0), ('b', ln), ('agg', 0), ('a', ln)]))


@spec('C09', 20,
      'The writers of keys and signatures are evaluated on symbolic points, the readers on symbolic byte strings of every listed length; '
      'output must be the full serialization of the point in the matching form, input must go through the checked decoder of that form '
      'and errors must be returned. Every reader of the decoding trait that the type overrides is included.',
      ['the arkworks checked decoders validate curve and subgroup membership'])
def c09(c):
    I = c.interp('compat')
    c.partition = {'forms': ['compressed', 'uncompressed'], 'input lengths': 'symbolic, size-1, size, size+1, 0'}
    for path, k, mkf in ((PK, 'G2', pk), (SG, 'G1', sig)):
        nm = path.split('::')[-1]
        size = arklib.COMPRESSED[k]
        for form, suffix in (('c', ''), ('u', '_uncompressed')):
            def w():
                st = State({}, 1)
                r = place(I, st, Seq([], 'vec'))
                v, _ = call_m(c, I, path, 'serialize' + suffix, [mkf(I, asym('p', k)), r], st, trait='CanonicalSerialize')
                e = c.same(v, Ok(UNIT), 1, '%s::serialize%s' % (nm, suffix))
                return e or c.same(I.deref_deep(r, st), arklib.ser(asym('p', k), form), 1, 'bytes written by %s::serialize%s' % (nm, suffix)) \
                    or c.panicfree(I, 1, 'serialize' + suffix)
            c.ob('%s::serialize%s' % (nm, suffix), w)

            def rd(ln, name):
                fs = size * (2 if 'uncompressed' in name else 1)
                st = State({}, 1)
                s = bytes_sym('data') if ln is None else Seq([Seg('data', 0, fs + ln)], 'slice')
                if ln is not None and fs + ln < 0:
                    return None
                if ln == -10 ** 6:
                    s = Seq((), 'slice')
                r = place(I, st, s)
                v, _ = call_m(c, I, path, name, [r], st, trait='CanonicalDeserialize')
                if v is None:
                    return '%s never returns' % name
                st2 = State({}, 1)
                r2 = place(I, st2, s)
                want = arklib.deser(I, st2, r2, k, 'u' if 'uncompressed' in name else 'c', None, True)
                want = gated([(Ok(mkf(I, Alg(x.e[0].p, k))) if x.var == 'Ok' else Err(ANY), g) for x, g in leaves(want)])
                return c.same(v, want, 1, '%s::%s' % (nm, name)) or c.panicfree(I, 1, name)
            for ln in (None, 0, 1, -1, 7):
                c.ob('%s::deserialize%s/%s' % (nm, suffix, 'any length' if ln is None else 'size%+d' % ln), lambda: rd(ln, 'deserialize' + suffix))
        for name in ('deserialize_unchecked', 'deserialize_uncompressed_unchecked', 'deserialize_with_flags', 'deserialize_with_mode'):
            ms = I.prog.method(path if I.prog.find(path) is None else I.prog.find(path).path, name)
            if ms:
                c.ob('%s::%s/any length' % (nm, name), lambda: rd(None, name))

        def sz():
            v, _ = call_m(c, I, path, 'serialized_size', [mkf(I, asym('p', k))], trait='CanonicalSerialize')
            return c.same(v, Int('usize', v=size), 1, '%s::serialized_size' % nm)
        c.ob('%s::serialized_size' % nm, sz)

        def usz():
            ms = I.prog.method(I.prog.find(path).path, 'uncompressed_size')
            if not ms:
                return None
            v, _ = call_m(c, I, path, 'uncompressed_size', [mkf(I, asym('p', k))])
            return c.same(v, Int('usize', v=2 * size), 1, '%s::uncompressed_size' % nm)
        c.ob('%s::uncompressed_size' % nm, usz)

        def trip(form, suffix):
            st = State({}, 1)
            r = place(I, st, Seq([], 'vec'))
            call_m(c, I, path, 'serialize' + suffix, [mkf(I, asym('p', k)), r], st, trait='CanonicalSerialize')
            v, _ = call_m(c, I, path, 'deserialize' + suffix, [r], st, trait='CanonicalDeserialize')
            return c.same(v, Ok(mkf(I, asym('p', k))), 1, 'reading back a written %s' % nm)
        for form, suffix in (('c', ''), ('u', '_uncompressed')):
            c.ob('%s round trip/%s' % (nm, form), lambda: trip(form, suffix))
    from specs import ffi
    for name, f in ffi.cases(c):
        if name.startswith(('deserialize_', 'serialize_')):
            def cc(f=f):
                x = ffi.X(c)
                return x.contract(f(x))
            c.ob('C interface/' + name, cc)
