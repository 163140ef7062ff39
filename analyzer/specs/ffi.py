"""C25 to C27, C31, C32: the C interface"""
import itertools
import bdd, arklib
from values import *
from interp import State, Dead
from registry import spec
from framework import Missing, Violated
from specs.common import *
from specs import epoch as ep

SIGS, SER, FEB, SNARK, UT = ('bls_snark_sys::' + x for x in ('signatures::', 'serialization::', 'snark::epoch_block::', 'snark::', 'utils::'))
PK, SG, SK = 'bls_crypto::PublicKey', 'bls_crypto::Signature', 'bls_crypto::PrivateKey'
HS = {CIP22: 'bls_crypto::hash_to_curve::try_and_increment_cip22::COMPOSITE_HASH_TO_G1_CIP22',
      COMPOSITE: 'bls_crypto::hash_to_curve::try_and_increment::COMPOSITE_HASH_TO_G1',
      DIRECT: 'bls_crypto::hash_to_curve::try_and_increment::DIRECT_HASH_TO_G1'}
FLAGS = {(True, True): CIP22, (False, True): None, (True, False): COMPOSITE, (False, False): DIRECT}


def flagname(f):
    return '%s,%s' % ('composite' if f[0] else 'direct', 'cip22' if f[1] else 'legacy')


def uninit(n):
    return Opq('uninit', name=n)


class X:
    """one call of a C function on caller memory"""

    def __init__(self, c, feats=('compat',)):
        self.c = c
        self.I = I = c.interp(*feats)
        self.st = State({}, 1)
        self.outs = []          # (name, ref, kind, name of the length)
        self.caller = []        # locations of caller-owned objects
        self.seen = []
        opaque_h2c(c, I, self.seen)
        d = I.prog.find('bls_crypto::PublicKeyCache')
        if d is None:
            raise Missing('bls_crypto::PublicKeyCache')

        def aggregate(_, st, a, n):
            keys = I.deref_deep(a[1], st)
            t, have = Poly.const(0), set()
            for k in keys.items():
                p = inner(I, I.deref_deep(k, st)).p
                if p not in have:
                    have.add(p)
                    t = t.add(p)
            return pk(I, Alg(t, 'G2'), st)

        def deserialize(_, st, a, n):
            s = place(I, st, I.deref_deep(a[1], st))
            return I.call(c.method(I, find(I, PK).path, 'deserialize', 'CanonicalDeserialize'), [s], tyof(find(I, PK)), None, st)
        I.hooks[(d.path, 'aggregate')] = aggregate
        I.hooks[(d.path, 'deserialize')] = deserialize
        I.hooks[(d.path, 'clear_cache')] = lambda _, st, a, n: UNIT

    # ---- arguments
    def ref(self, v):
        r = Ref(self.I.alloc(self.st, v, True), (), True)
        self.caller.append(r)
        return r

    def mem(self, name):
        return Opq('memptr', name=name, off=0)

    def buf(self, name, n=None):
        """pointer and length of foreign bytes"""
        return [self.mem(name), isym('length of ' + name, 'i32') if n is None else Int('i32', v=n)]

    def data(self, name, n=None):
        """the bytes such a buffer holds"""
        return Seq([Seg(('mem', name), 0, isym('length of ' + name, 'i32').aslin() if n is None else n)] if n != 0 else (), 'slice')

    def out(self, name, kind='obj', ln=None):
        r = Ref(self.I.alloc(self.st, uninit(name), True), (), True)
        self.outs.append((name, r, kind, ln))
        return r

    def pk(self, n):
        return pk(self.I, G2(n))

    def sig(self, n):
        return sig(self.I, G1(n))

    def sk(self, n):
        return sk(self.I, asym(n, 'Fs'))

    def arr(self, vs, ty='i32'):
        """pointer to an array of pointers to objects, and its length"""
        return [Ref(self.I.alloc(self.st, Seq([self.ref(v) for v in vs], 'slice'), True), (), True), Int(ty, v=len(vs))]

    def hasher(self, s):
        d = self.I.prog.find(HS[s])
        if d is None:
            raise Missing(HS[s])
        st = State({}, 1)
        return self.I.deref_deep(self.I.force(self.I, self.I.const(d), st, {}), st)

    # ---- running
    def lib(self, path, name, args, trait=None):
        st = State({}, 1)
        v, st = call_m(self.c, self.I, path, name, [a(st) if callable(a) else a for a in args], st, trait)
        if v is None:
            raise Undecided('%s::%s never returns' % (path, name))
        self.lst = st
        return v

    def libf(self, path, args):
        st = State({}, 1)
        v, st = self.c.run(self.I, self.c.fn(self.I, path), [a(st) if callable(a) else a for a in args], st=st)
        if v is None:
            raise Undecided('%s never returns' % path)
        return v

    def ser(self, v, ty, suffix=''):
        """what the library's own writer writes for an object: Result of bytes"""
        I, c = self.I, self.c
        d = find(I, ty)
        if I.prog.method(d.path, 'serialize' + suffix, 'CanonicalSerialize'):
            st = State({}, 1)
            r = place(I, st, Seq([], 'vec'))
            res, st = call_m(c, I, ty, 'serialize' + suffix, [v, r], st, trait='CanonicalSerialize')
            return and_then(I, res, lambda _: Ok(I.deref_deep(r, st)))
        return Ok(arklib.ser(inner(I, v), 'u' if suffix else 'c'))

    def deser(self, ty, data):
        I, c = self.I, self.c
        d = find(I, ty)
        if I.prog.method(d.path, 'deserialize', 'CanonicalDeserialize'):
            return self.lib(ty, 'deserialize', [lambda st: place(I, st, data)], 'CanonicalDeserialize')
        st = State({}, 1)
        r = arklib.deser(I, st, place(I, st, data), 'Fs', 'c', {})
        return and_then(I, r, lambda x: Ok(sk(I, x)))

    def raw(self, v):
        rep = 'aff' if v.kind in ('G1a', 'G2a') else 'proj'
        k = arklib.BASE.get(v.kind, v.kind)
        return Seq([Seg(('raw', rep, k, v.p), 0, {('aff', 'G1'): 97, ('proj', 'G1'): 144}[rep, k])])

    def call(self, path, args):
        self.fn = path.rpartition('::')[2]
        d = self.c.fn(self.I, path)
        if len(d.node['sig']['in']) != len(args):
            raise Missing('%s with %d parameters' % (path, len(args)))
        self.I.panics, self.I.effects = [], []
        try:
            self.ret = self.I.deref_deep(self.I.call(d, args, None, None, self.st), self.st)
        except Dead:
            self.ret = None
        self.d = d

    # ---- C25
    def contract(self, want):
        """want: Result whose Ok holds the values of the outputs, in order"""
        c, I, st = self.c, self.I, self.st
        fn = self.fn
        if self.ret is None:
            return '%s never returns' % fn
        ok = bdd.or_(*[g for x, g in leaves(want) if isinstance(x, Enum) and x.var == 'Ok'])
        for x, g in leaves(want):
            if not isinstance(x, Enum):
                return 'undecided', 'library result %s' % show(x)[:100]
        e = c.same(self.ret, Bool(ok), 1, 'value returned by ' + fn)
        if e:
            return e
        for i, (name, r, kind, ln) in enumerate(self.outs):
            if kind == 'len':
                continue
            g = self.content(I.read(st, (r.loc, r.path)))
            w = gated([(x.e[0].e[i] if x.var == 'Ok' else uninit(name), gg) for x, gg in leaves(want)])
            e = c.same(g, I.deref_deep(w, st), 1, 'what %s leaves in %s' % (fn, name))
            if e:
                return e
        for i, (name, r, kind, ln) in enumerate(self.outs):
            if kind == 'len':
                of = [x for x in self.outs if x[3] == name][0]
                j = self.outs.index(of)
                w = gated([(self.len32(x.e[0].e[j]) if x.var == 'Ok' else uninit(name), gg) for x, gg in leaves(want)])
                e = c.same(I.deref_deep(r, st), w, 1, 'what %s leaves in %s' % (fn, name))
                if e:
                    return e
        return c.panicfree(I, 1, fn)

    def len32(self, s):
        l = s.length()
        return Int('i32', v=l) if isinstance(l, int) else Int('i32', lin=l)

    def content(self, v):
        I, st = self.I, self.st
        out = []
        for x, g in leaves(v):
            if isinstance(x, Opq) and x.cls == 'bufptr':
                x = x.f['data']
            out.append((I.deref_deep(x, st), g))
        return gated(out)

    # ---- C26
    def owned(self, effect, test, g):
        """guards of effects satisfying the test cover g"""
        cov = bdd.or_(0, *[p for p, k, d, _ in self.I.effects if k == effect and test(d)])
        return bdd.and_(g, bdd.neg(cov)) == 0

    def ownership(self):
        c, I, st = self.c, self.I, self.st
        fn = self.fn
        if self.ret is None:
            return '%s never returns' % fn
        given = []
        if not isinstance(self.ret, Bool):
            return 'undecided', 'value returned by %s' % fn
        okret = self.ret.b
        for name, r, kind, ln in self.outs:
            v = I.read(st, (r.loc, r.path))
            for x, g in leaves(v):
                if isinstance(x, Opq) and x.cls == 'uninit':
                    continue
                un = unmodelled(x) | unmodelled(Bool(g))
                if un:
                    return 'undecided', '%s: %s uses %s' % (fn, name, sorted(un))
                bad = bdd.and_(g, bdd.neg(okret))
                if bad != 0 and kind != 'verdicts':
                    return '%s writes %s although it fails%s' % (fn, name, '' if bad == 1 else ' when ' + show_bdd(bad, 2)[:200])
                if kind == 'obj':
                    x0 = x
                    if not isinstance(x, Ref):
                        return '%s stores in %s something that is not a heap object: %s' % (fn, name, show(x)[:100])
                    if not self.owned('into_raw', lambda d: isinstance(d, Ref) and (d.loc, d.path) == (x0.loc, x0.path), g):
                        return '%s: the pointer stored in %s is not that of an object kept alive for the caller' % (fn, name)
                    given.append((x.loc, x.path))
                elif kind == 'buf':
                    if not isinstance(x, Opq) or x.cls != 'bufptr':
                        return '%s stores in %s something that is not a buffer: %s' % (fn, name, show(x)[:100])
                    k = HK(x.f['data'])
                    if not self.owned('forget', lambda d: HK(d) == k, g):
                        return '%s: the buffer stored in %s is released when the call returns' % (fn, name)
                    if not self.owned('tight', lambda d: HK(d) == k, g):
                        return '%s: the buffer stored in %s may have a capacity different from its length' % (fn, name)
                    l = I.deref_deep([y[1] for y in self.outs if y[0] == ln][0], st)
                    e = c.same(l, self.len32(x.f['data']), g, '%s: length stored for %s' % (fn, name))
                    if e:
                        return e
        if len(set(given)) != len(given):
            return '%s hands out one object twice' % fn
        mine = {(r.loc, r.path) for r in self.caller}
        for p, k, d, where in I.effects:
            if k in ('from_raw', 'ptr_read', 'drop_in_place', 'vec_from_raw'):
                q = d.e[0] if isinstance(d, Tup) else d
                loc = (q.loc, q.path) if isinstance(q, Ref) else None
                foreign = loc in mine or isinstance(q, Opq) and q.cls == 'memptr' or isinstance(q, Seq) and any(isinstance(y, Seg) and isinstance(y.t, tuple) and y.t[0] == 'mem' for y in q.e)
                rest = p
                if k == 'ptr_read':     # a bitwise copy that is never dropped is harmless
                    v = HK(I.deref_deep(d, st))
                    rest = bdd.and_(p, bdd.neg(bdd.or_(0, *[p2 for p2, k2, d2, _ in I.effects if k2 == 'forget' and HK(d2) == v])))
                if (foreign or loc in given) and rest != 0:
                    return '%s takes over memory that %s (%s at %s)' % (fn, 'the caller owns' if foreign else 'it handed out', k, where)
        kept = self.kept(mine)
        return kept

    def kept(self, mine):
        """statics must not keep pointers into caller memory"""
        for k, v in self.I.consts.items():
            seen = []

            def walk(x, d):
                if d > 6:
                    return
                if isinstance(x, Ref) and x.raw and (x.loc, x.path) in mine:
                    seen.append(x)
                for y in (x.e if isinstance(x, (Tup, Enum, Seq)) else x.f.values() if isinstance(x, (Struct, Opq)) else ()):
                    walk(y, d + 1)
            walk(v, 0)
            if seen:
                return '%s keeps a pointer to caller memory in a static' % self.fn
        return None


def verdict(I, r):
    """Result -> Bool that it is Ok"""
    for x, g in leaves(r):
        if not (isinstance(x, Enum) and x.var in ('Ok', 'Err')):
            raise Undecided('verdict %s' % show(x)[:100])
    return Bool(bdd.or_(0, *[g for x, g in leaves(r) if x.var == 'Ok']))


def ok(*vs):
    return Ok(Tup(vs))


def cases(c, thorough=False):
    """(name, f): f(x) performs the call and returns the required Result of outputs"""
    out = []

    def case(name, f):
        out.append((name, f))

    def bufout(x, b='out_bytes', l='out_len'):
        return [x.out(b, 'buf', l), x.out(l, 'len')]

    # objects and bytes
    for ty, short in ((SK, 'private_key'), (PK, 'public_key'), (SG, 'signature')):
        def de(x, ty=ty, short=short, n=None, fn='deserialize_'):
            w = and_then(x.I, x.deser(ty, x.data('in', n)), lambda v: ok(v))
            x.call(SER + fn, x.buf('in', n) + [x.out('out')])
            return w
        for n in (None, 0, 32 if ty == SK else 96 if ty == PK else 48):
            nm = '' if n is None else '/%d bytes' % n
            case('deserialize_' + short + nm, lambda x, de=de, n=n, short=short: de(x, n=n, fn='deserialize_' + short))
            if ty == PK:
                case('deserialize_public_key_cached' + nm, lambda x, de=de, n=n: de(x, n=n, fn='deserialize_public_key_cached'))

        def ser(x, ty=ty, short=short, suffix=''):
            v = x.sk('s') if ty == SK else x.pk('p') if ty == PK else x.sig('p')
            w = and_then(x.I, x.ser(v, ty, suffix), lambda b: ok(b))
            x.call(SER + 'serialize_' + short + suffix, [x.ref(v)] + bufout(x))
            return w
        case('serialize_' + short, ser)
        if ty != SK:
            case('serialize_' + short + '_uncompressed', lambda x, ser=ser: ser(x, suffix='_uncompressed'))

    def compress(x, fn, k, half, n):
        def coordinate(off):
            st = State({}, 1)
            return arklib.deser(x.I, st, place(x.I, st, x.data('in', n).slice(off, off + half)), 'F' if k == 'G1' else 'F2', 'c', {})
        if n < 2 * half:
            w = Err(ANY)
        else:
            w = and_then(x.I, coordinate(0), lambda a: and_then(x.I, coordinate(half), lambda b: ok(
                arklib.ser(asym(('affine', a.p, b.p), k), 'c'))))
        x.call(SER + fn, x.buf('in', n) + bufout(x))
        return w
    for fn, k, half in (('compress_signature', 'G1', 48), ('compress_pubkey', 'G2', 96)):
        for n in (0, half, 2 * half - 1, 2 * half):
            case('%s/%d bytes' % (fn, n), lambda x, fn=fn, k=k, half=half, n=n: compress(x, fn, k, half, n))

    # keys
    def gen(x):
        I = x.I
        st = State({}, 1)
        I.fresh['rng'] = 0
        rng = I.F['rand::thread_rng'](I, st, [], {}, None, {}) if 'rand::thread_rng' in I.F else I.F['thread_rng'](I, st, [], {}, None, {})
        w = Ok(Tup([x.lib(SK, 'generate', [lambda st: place(I, st, rng)])]))
        I.fresh['rng'] = 0          # the same random choices
        x.call(SIGS + 'generate_private_key', [x.out('out_private_key')])
        return w
    case('generate_private_key', gen)

    def topub(x):
        w = ok(x.lib(SK, 'to_public', [x.sk('s')]))
        x.call(SIGS + 'private_key_to_public_key', [x.ref(x.sk('s')), x.out('out_public_key')])
        return w
    case('private_key_to_public_key', topub)

    # signing and verifying
    for f in FLAGS:
        fl = [mkbool(f[0]), mkbool(f[1])]

        def sign(x, f=f, fl=fl):
            s = FLAGS[f]
            w = Err(ANY) if s is None else and_then(x.I, x.lib(SK, 'sign', [x.sk('s'), x.data('message'), x.data('extra'), x.hasher(s)]), lambda v: ok(v))
            x.seen.clear()
            x.call(SIGS + 'sign_message', [x.ref(x.sk('s'))] + x.buf('message') + x.buf('extra') + fl + [x.out('out_signature')])
            return w, s
        case('sign_message/' + flagname(f), sign)

        def ver(x, f=f, fl=fl):
            s = FLAGS[f]
            w = Err(ANY) if s is None else ok(verdict(x.I, x.lib(PK, 'verify', [x.pk('pk'), x.data('message'), x.data('extra'), x.sig('sig'), x.hasher(s)])))
            x.seen.clear()
            x.call(SIGS + 'verify_signature', [x.ref(x.pk('pk'))] + x.buf('message') + x.buf('extra') + [x.ref(x.sig('sig'))] + fl + [x.out('out_verified', 'val')])
            return w, s
        case('verify_signature/' + flagname(f), ver)

        for k in c.sizes((0, 1, 2, 3, 110), 300, 3):
            def batch(x, f=f, fl=fl, k=k):
                s = FLAGS[f]
                I = x.I
                dom = const_bytes(I, 'bls_crypto::SIG_DOMAIN')
                pks, sigs = [x.pk('k%d' % i) for i in range(k)], [x.sig('s%d' % i) for i in range(k)]
                if s is None:
                    w = Err(ANY)
                else:
                    asig = x.lib(SG, 'aggregate', [Seq(sigs, 'vec')])
                    msgs = Seq([Tup([x.data('data%d' % i), x.data('extra%d' % i)]) for i in range(k)], 'slice')
                    w = ok(verdict(I, x.lib(SG, 'batch_verify', [asig, Seq(pks, 'slice'), dom, msgs, x.hasher(s)])))
                x.seen.clear()
                ms = [message(x, 'data%d' % i, 'extra%d' % i, pks[i], sigs[i]) for i in range(k)]
                x.call(SIGS + 'batch_verify_signature', [Ref(I.alloc(x.st, Seq(ms, 'slice'), True), (), True), Int('usize', v=k)] + fl + [x.out('verified', 'val')])
                return w, s
            case('batch_verify_signature/%s/%d' % (flagname(f), k), batch)

    def sign_pop(x):
        w = and_then(x.I, x.lib(SK, 'sign_pop', [x.sk('s'), x.data('message'), x.hasher(DIRECT)]), lambda v: ok(v))
        x.seen.clear()
        x.call(SIGS + 'sign_pop', [x.ref(x.sk('s'))] + x.buf('message') + [x.out('out_signature')])
        return w, DIRECT
    case('sign_pop', sign_pop)

    def verify_pop(x):
        w = ok(verdict(x.I, x.lib(PK, 'verify_pop', [x.pk('pk'), x.data('message'), x.sig('sig'), x.hasher(DIRECT)])))
        x.seen.clear()
        x.call(SIGS + 'verify_pop', [x.ref(x.pk('pk'))] + x.buf('message') + [x.ref(x.sig('sig')), x.out('out_verified', 'val')])
        return w, DIRECT
    case('verify_pop', verify_pop)

    # hashing
    def aff(v):
        return Alg(v.p, 'G1a')
    for pop in (False, True):
        def hd(x, pop=pop):
            dom = const_bytes(x.I, 'bls_crypto::POP_DOMAIN' if pop else 'bls_crypto::SIG_DOMAIN')
            w = and_then(x.I, h2c_value(DIRECT, dom, x.data('message'), Seq(())), lambda h: ok(x.raw(aff(h))))
            x.call(SIGS + 'hash_direct', x.buf('message') + bufout(x, 'out_hash') + [mkbool(pop)])
            return w
        case('hash_direct/%s' % ('pop' if pop else 'sig'), hd)

        def hda(x, pop=pop):
            dom = const_bytes(x.I, 'bls_crypto::POP_DOMAIN' if pop else 'bls_crypto::SIG_DOMAIN')
            key = ('h2c counter',) + DIRECT + tuple(HK(y) for y in (dom, x.data('message'), Seq(())))
            n = x.I.cast(isym(key, 'usize'), ('path', 'i32', (), ()), x.st, {})
            w = and_then(x.I, h2c_value(DIRECT, dom, x.data('message'), Seq(())), lambda h: ok(x.raw(aff(h)), None, n))
            x.call(SIGS + 'hash_direct_with_attempt', x.buf('message') + bufout(x, 'out_hash') + [x.out('out_attempt', 'val'), mkbool(pop)])
            return w
        case('hash_direct_with_attempt/%s' % ('pop' if pop else 'sig'), hda)

    def hc(x):
        dom = const_bytes(x.I, 'bls_crypto::SIG_DOMAIN')
        w = and_then(x.I, h2c_value(COMPOSITE, dom, x.data('message'), x.data('extra')), lambda h: ok(x.raw(h)))
        x.call(SIGS + 'hash_composite', x.buf('message') + x.buf('extra') + bufout(x, 'out_hash'))
        return w
    case('hash_composite', hc)

    def hc22(x):
        dom = const_bytes(x.I, 'bls_crypto::SIG_DOMAIN')
        key = ('h2c counter',) + CIP22 + tuple(HK(y) for y in (dom, x.data('message'), x.data('extra')))
        n = x.I.cast(isym(key, 'usize'), ('path', 'u8', (), ()), x.st, {})
        w = and_then(x.I, h2c_value(CIP22, dom, x.data('message'), x.data('extra')), lambda h: ok(x.raw(h), None, n))
        x.call(SIGS + 'hash_composite_cip22', x.buf('message') + x.buf('extra') + bufout(x, 'out_hash') + [x.out('attempt_counter', 'val')])
        return w
    case('hash_composite_cip22', hc22)

    for n in (32, 48, 64):
        def crh(x, n=n):
            dom = const_bytes(x.I, 'bls_crypto::SIG_DOMAIN')
            h = x.I.deref_deep(x.I.force(x.I, x.I.const(find(x.I, 'bls_crypto::hashers::composite::COMPOSITE_HASHER')), State({}, 1), {}), State({}, 1))
            w = and_then(x.I, x.lib('bls_crypto::hashers::composite::CompositeHasher', 'crh', [h, dom, x.data('message'), Int('usize', v=n)], 'Hasher'), lambda b: ok(b))
            x.call(SIGS + 'hash_crh', x.buf('message') + [Int('i32', v=n)] + bufout(x, 'out_hash'))
            return w
        case('hash_crh/%d' % n, crh)

        def first(x, n=n):
            dom = const_bytes(x.I, 'bls_crypto::SIG_DOMAIN')
            w = and_then(x.I, x.lib('bls_crypto::hashers::DirectHasher', 'hash', [Struct(find(x.I, 'bls_crypto::hashers::DirectHasher').path, {}), dom, x.data('message'), Int('usize', v=n)], 'Hasher'), lambda b: ok(b))
            x.call(SIGS + 'hash_direct_first_step', x.buf('message') + [Int('i32', v=n)] + bufout(x, 'out_hash'))
            return w
        case('hash_direct_first_step/%d' % n, first)

    # aggregation
    for k in c.sizes((0, 1, 2, 3, 110), 300, 4):
        def aggp(x, k=k):
            vs = [x.pk('k%d' % i) for i in range(k)]
            t = sum_poly('k%d' % i for i in range(k))
            w = ok(pk(x.I, Alg(t, 'G2')))
            x.call(SIGS + 'aggregate_public_keys', x.arr(vs) + [x.out('out_public_key')])
            return w
        case('aggregate_public_keys/%d' % k, aggp)

        def subp(x, k=k):
            vs = [x.pk('k%d' % i) for i in range(k)]
            w = ok(pk(x.I, Alg(G2('apk').p.add(sum_poly('k%d' % i for i in range(k)), -1), 'G2')))
            x.call(SIGS + 'aggregate_public_keys_subtract', [x.ref(x.pk('apk'))] + x.arr(vs) + [x.out('out_public_key')])
            return w
        case('aggregate_public_keys_subtract/%d' % k, subp)

        def aggs(x, k=k):
            vs = [x.sig('s%d' % i) for i in range(k)]
            w = ok(x.lib(SG, 'aggregate', [Seq(vs, 'vec')]))
            x.call(SIGS + 'aggregate_signatures', x.arr(vs) + [x.out('out_signature')])
            return w
        case('aggregate_signatures/%d' % k, aggs)

    # epochs
    for k, mv in ((0, 0), (1, 1), (2, 2), (2, 3), (3, 2), (110, 110)) + tuple((k, k) for k in c.sizes([], 300, 3) if k > 2):
        def enc(x, k=k, mv=mv, ents=('some', 'some')):
            I = x.I
            ep.hook_pk(I)
            keys = [asym('pk%d' % i, 'G2') for i in range(k)]
            d = find(I, ep.EB)
            ev = [Some(x.data(n, 16)) if e == 'some' else NONE for e, n in zip(ents, ('epoch', 'parent'))]
            new = x.lib(ep.EB, 'new', [bsym('index', 'u16'), bsym('round', 'u8')] + ev + [bsym('max_non_signers', 'u32'), Int('usize', v=mv), Seq([pk(I, p) for p in keys], 'vec')])
            w = and_then(I, x.lib(ep.EB, 'encode_inner_to_bytes_cip22', [new]), lambda t: ok(t.e[0], None, t.e[1]))
            ptrs = [x.mem(n) if e == 'some' else Opq('null') for e, n in zip(ents, ('epoch', 'parent'))]
            x.call(FEB + 'encode_epoch_block_to_bytes_cip22', [bsym('index', 'u16'), bsym('round', 'u8')] + ptrs + [bsym('max_non_signers', 'u32'), Int('u32', v=mv)]
                   + x.arr([pk(I, p) for p in keys]) + bufout(x) + bufout(x, 'out_extra_data_bytes', 'out_extra_data_len'))
            return w
        for e in itertools.product(('some', 'none'), repeat=2):
            if e == ('some', 'some') or k == 1:
                case('encode_epoch_block_to_bytes_cip22/%d of %d/%s,%s' % (k, mv, e[0], e[1]), lambda x, enc=enc, e=e: enc(x, ents=e))
        if k == mv:
            def encl(x, k=k):
                I = x.I
                ep.hook_pk(I)
                keys = [asym('pk%d' % i, 'G2') for i in range(k)]
                new = x.lib(ep.EB, 'new', [bsym('index', 'u16'), Int('u8', v=0), NONE, NONE, bsym('max_non_signers', 'u32'), Int('usize', v=k), Seq([pk(I, p) for p in keys], 'vec')])
                w = and_then(I, x.lib(ep.EB, 'encode_to_bytes', [new]), lambda b: ok(b))
                x.call(FEB + 'encode_epoch_block_to_bytes', [bsym('index', 'u16'), bsym('max_non_signers', 'u32')] + x.arr([pk(I, p) for p in keys]) + bufout(x))
                return w
            case('encode_epoch_block_to_bytes/%d' % k, encl)
    return out


def sum_poly(names):
    t = Poly.const(0)
    for n in names:
        t = t.add(G2(n).p)
    return t


def field(d, want):
    return [f for f in d.node['f']['f'] if f['n'] == want]


def record(x, path, **f):
    """a C record of the repository, by its public field names"""
    d = find(x.I, path, 'struct')
    names = {g['n'] for g in d.node['f']['f']}
    if names != set(f):
        raise Missing('%s with fields %s' % (path, sorted(f)))
    return Struct(d.path, {g['n']: f[g['n']] for g in d.node['f']['f']})


def buffer(x, name, n=None):
    return record(x, UT + 'Buffer', ptr=x.mem(name), len=isym('length of ' + name, 'i32').__class__('usize', lin=isym('length of ' + name, 'i32').aslin()) if n is None else Int('usize', v=n))


def message(x, data, extra, p, s):
    return record(x, UT + 'MessageFFI', data=buffer(x, data), extra=buffer(x, extra), public_key=x.ref(p), sig=x.ref(s))


def schemes(x, r):
    """when a scheme is prescribed, nothing else may have hashed"""
    if not isinstance(r, tuple):
        return None
    want = r[1]
    for s, a, g in x.seen:
        if s != want and g != 0:
            return '%s hashes with %s where %s is selected' % (x.fn, '/'.join(s), '/'.join(want) if want else 'nothing')
    return None


@spec('C25', 70,
      'Every exported C function is evaluated on symbolic objects and symbolic foreign buffers, and the same library operation is evaluated on the same '
      'values; the returned flag must be exactly the operation\'s success, and every output must hold the operation\'s value exactly when it succeeded and '
      'be untouched otherwise. Every combination of the hashing flags is covered, and the schemes actually invoked are recorded.',
      ['pointers and lengths passed by the caller are valid', 'the hash-to-curve schemes and the key cache are uninterpreted here (C07 to C12)'])
def c25(c):
    c.partition = {'object arrays': 'lengths 0 to 3', 'buffers': 'symbolic length', 'flags': 'all four combinations'}
    for name, f in cases(c, c.thorough):
        def run(f=f):
            x = X(c)
            w = f(x)
            return x.contract(w[0] if isinstance(w, tuple) else w) or schemes(x, w)
        c.pob(name, run)
    unlisted(c)
    verify_obs(c, True)


def unlisted(c):
    """exported functions this specification does not know are reported as not analysed"""
    I = c.interp('compat')
    done = {a for a in c.anchors}
    more = [d.path for d in I.prog.allfns if d.path.startswith('bls_snark_sys::') and str(d.node['sig'].get('abi') or '').startswith('extern')]
    c.notes.append('exported functions: %s' % ', '.join(sorted(more)))


@spec('C26', 70,
      'Ownership effect analysis: while each exported C function is evaluated, allocations handed out, buffers forgotten or shrunk, and memory taken over '
      'are recorded with their path conditions. Each output pointer must be that of an object or of a tight buffer kept alive, with its exact length, nothing may be '
      'stored on a failing path, caller memory may not be freed, moved from or kept, and each release function must rebuild exactly its own argument once.',
      ['pointers and lengths passed by the caller are valid'])
def c26(c):
    c.partition = {'object arrays': 'lengths 0 to 3', 'buffers': 'symbolic length'}
    for name, f in cases(c, c.thorough):
        def run(f=f):
            x = X(c)
            f(x)
            return x.ownership()
        c.pob(name, run)

    def destroy(fn, mkv, null):
        x = X(c)
        q = Opq('null') if null else x.ref(mkv(x))
        x.call(SER + fn, [q])
        e = c.same(x.ret, mkbool(not null), 1, 'value returned by %s' % fn) or c.panicfree(x.I, 1, fn)
        if e:
            return e
        eff = [(p, k, d) for p, k, d, _ in x.I.effects if k in ('from_raw', 'vec_from_raw', 'ptr_read', 'drop_in_place', 'into_raw', 'forget')]
        if null:
            return '%s frees a null pointer' % fn if eff else None
        if [(p, k) for p, k, d in eff] != [(1, 'from_raw')] or not isinstance(eff[0][2], Ref) or eff[0][2].loc != q.loc:
            return '%s must take over exactly its argument, once, and drop it; it does %s' % (fn, [(k, show(d)[:40]) for p, k, d in eff])
        ty = x.I.rty(x.d.node['sig']['in'][0]['t'], __import__('interp').Frame(x.d, x.d.mod, {}, None, 1))
        if ty[0] != 'ptr' or ty[2] != tyof(find(x.I, mkv.ty)):
            return '%s takes a pointer to another type' % fn
        return None
    for fn, ty, mkv in (('destroy_private_key', SK, lambda x: x.sk('s')), ('destroy_public_key', PK, lambda x: x.pk('p')), ('destroy_signature', SG, lambda x: x.sig('p'))):
        mkv.ty = ty
        for null in (False, True):
            c.ob('%s/%s' % (fn, 'null' if null else 'object'), lambda: destroy(fn, mkv, null))

    def free(null):
        x = X(c)
        p, n = x.buf('bytes')
        x.call(SER + 'free_vec', [Opq('null') if null else p, n])
        e = c.same(x.ret, mkbool(not null), 1, 'value returned by free_vec') or c.panicfree(x.I, 1, 'free_vec')
        if e:
            return e
        eff = [(g, k, d) for g, k, d, _ in x.I.effects if k in ('from_raw', 'vec_from_raw', 'ptr_read', 'drop_in_place', 'into_raw', 'forget')]
        if null:
            return 'free_vec frees a null pointer' if eff else None
        if len(eff) != 1 or eff[0][0] != 1:
            return 'free_vec must take over its buffer exactly once and drop it; it does %s' % [(k, show(d)[:60]) for g, k, d in eff]
        g, k, d = eff[0]
        L = n.aslin()
        if k == 'vec_from_raw':
            q, ln, cap = d.e
            if q != p:
                return 'free_vec frees %s' % show(q)[:80]
            return c.same(ln, Int('usize', lin=L), 1, 'length given back by free_vec') or c.same(cap, Int('usize', lin=L), 1, 'capacity given back by free_vec')
        if k == 'from_raw' and isinstance(d, (Seq, Ref)):
            return c.same(x.I.deref_deep(d, x.st), x.data('bytes'), 1, 'memory freed by free_vec')
        return 'undecided', 'free_vec uses %s' % k
    for null in (False, True):
        c.ob('free_vec/%s' % ('null' if null else 'buffer'), lambda: free(null))


# ---- conversions

def conv(I, name, src, dst):
    """the body of From/TryFrom<&src> for dst; heads as resolved"""
    for im, fd in I.prog.by_method.get(name, []):
        if im.head == dst and I.prog.head_of(fd.node['sig']['in'][0]['t'], im.mod, im.gen) == src:
            return im, fd
    raise Missing('%s for %s from %s' % (name, dst, src))


def do_conv(c, I, name, src, dst, v, st):
    im, fd = conv(I, name, src, dst)
    c.anchors.append('%s: %s(%s)' % (dst, name, src))
    d = I.prog.find(dst)
    return c.run(I, fd, [v], tyof(d) if d is not None else ('slice', ('path', 'u8', (), ())), None, st)


def epoch_ffi(x, tag, k, ee, pe, pubkeys=None):
    """an epoch in its C form and the library's form of the same epoch"""
    I = x.I
    mem = lambda n, kind: x.mem(tag + n) if kind == 'some' else Opq('null')
    mv = isym(tag + 'maximum_validators', 'usize')
    rec = record(x, FEB + 'EpochBlockFFI', index=bsym(tag + 'index', 'u16'), round=bsym(tag + 'round', 'u8'), epoch_entropy=mem('epoch_entropy', ee),
                 parent_entropy=mem('parent_entropy', pe), pubkeys=pubkeys or x.mem(tag + 'pubkeys'), pubkeys_num=Int('usize', v=k),
                 maximum_non_signers=bsym(tag + 'maximum_non_signers', 'u32'), maximum_validators=mv)
    ent = lambda n, kind: Some(x.data(tag + n, 16)) if kind == 'some' else NONE

    def keys(i, acc):
        if i == k:
            d = find(I, ep.EB)
            f = dict(index=bsym(tag + 'index', 'u16'), round=bsym(tag + 'round', 'u8'), epoch_entropy=ent('epoch_entropy', ee), parent_entropy=ent('parent_entropy', pe),
                     maximum_non_signers=bsym(tag + 'maximum_non_signers', 'u32'), maximum_validators=mv, new_public_keys=Seq(acc))
            names = [g['n'] for g in d.node['f']['f']]
            if set(names) != set(f):
                raise Missing('EpochBlock with fields %s' % sorted(f))
            return Ok(Struct(d.path, {n: f[n] for n in names}))
        st = State({}, 1)
        piece = Seq([Seg(('mem', tag + 'pubkeys'), 96 * i, 96)], 'slice')
        r = arklib.deser(I, st, place(I, st, piece), 'G2a', 'c', {})
        return and_then(I, r, lambda a: keys(i + 1, acc + [pk(I, Alg(a.p, 'G2'))]))
    return rec, keys(0, [])


def reads_within(x, sizes):
    """foreign memory is read only as far as its size"""
    for p, k, d, where in x.I.effects:
        if k == 'from_raw_parts' and isinstance(d[0], Opq) and d[0].cls == 'memptr':
            n = d[1].v
            if d[0].f['name'] in sizes and n is not None and d[0].f['off'] + n > sizes[d[0].f['name']]:
                return 'reads %d bytes of %s at %s, which has %d' % (d[0].f['off'] + n, d[0].f['name'], where, sizes[d[0].f['name']])
    return None


def loose(v):
    return gated([(Err(ANY) if err_leaf(y) else y, g) for y, g in leaves(v)])


@spec('C27', 20,
      'The conversion from the C form of an epoch is evaluated on symbolic fields and foreign memory, for every number of keys up to the bound and every '
      'presence of entropies: the result must hold each field, each key decoded by the checked decoder from its own 96 bytes in order, and be an error '
      'as soon as one key fails. The extents read are compared with the given counts, and writing keys then reading them back must give the same keys.',
      ['the arkworks checked decoder validates curve and subgroup membership', 'pointers and lengths passed by the caller are valid'])
def c27(c):
    N = 6 if c.thorough else 4
    c.partition = {'keys': list(range(N + 1)), 'entropies': 'present or null, independently'}

    def go(k, ee, pe):
        x = X(c)
        rec, want = epoch_ffi(x, '', k, ee, pe)
        src = find(x.I, FEB + 'EpochBlockFFI').path
        v, st = do_conv(c, x.I, 'try_from', src, find(x.I, ep.EB).path, rec, x.st)
        if v is None:
            return 'the conversion never returns'
        if k == 1:
            c.sample('try_from = %s' % show(v)[:600])
        return c.panicfree(x.I, 1, 'try_from') or c.same(loose(v), want, 1, 'epoch converted from its C form') or \
            reads_within(x, {'pubkeys': 96 * k, 'epoch_entropy': 16, 'parent_entropy': 16})
    ks = c.sizes(list(range(N + 1)) + [110], 300, 4)
    for k in ks:
        for ee, pe in itertools.product(('some', 'none'), repeat=2):
            c.ob('from the C form/%d keys/%s,%s' % (k, ee, pe), lambda: go(k, ee, pe))

    def ser(k):
        x = X(c)
        keys = [x.pk('k%d' % i) for i in range(k)]
        v, st = c.run(x.I, c.fn(x.I, FEB + 'serialize_pubkeys'), [Seq(keys, 'slice')])
        want = Seq([e for i in range(k) for e in arklib.ser(G2('k%d' % i), 'c').e])
        e = c.same(v, Ok(want), 1, 'serialize_pubkeys of %d keys' % k) or c.panicfree(x.I, 1, 'serialize_pubkeys')
        if e:
            return e
        x = X(c)
        rec, _ = epoch_ffi(x, '', k, 'some', 'none', Opq('bufptr', data=want))
        v, st = do_conv(c, x.I, 'try_from', find(x.I, FEB + 'EpochBlockFFI').path, find(x.I, ep.EB).path, rec, x.st)
        for y, g in leaves(v):
            if err_leaf(y):
                return 'reading back %d serialized keys fails' % k
        return c.same(v.e[0].f['new_public_keys'], Seq(keys), 1, 'keys read back')
    for k in ks:
        c.ob('serialize and read back/%d keys' % k, lambda: ser(k))

    def rs():
        x = X(c)
        I = x.I
        d = c.fn(I, FEB + 'read_slice')
        n = isym('length of in', 'usize')
        v, _ = c.run(I, d, [x.mem('in'), n], None, {'C': ('path', 'G2Affine', (), ('G2Affine',))})
        st = State({}, 1)
        want = arklib.deser(I, st, place(I, st, Seq([Seg(('mem', 'in'), 0, n.aslin())], 'slice')), 'G2a', 'c', {})
        return c.same(loose(v), loose(want), 1, 'read_slice') or c.panicfree(I, 1, 'read_slice')
    c.ob('read_slice', rs)


@spec('C31', 40,
      'Strict batch verification is evaluated on arrays of message records with every combination of list lengths and flags, the batch verifier being '
      'an unknown function of the batch contents and the scheme: each verdict slot must hold the verification of the batch of that message, extra data and '
      'the keys and signatures paired by position, false for lists of different lengths or the unsupported flags, and the return value their conjunction.',
      ['pointers and lengths passed by the caller are valid', 'Batch::verify is checked by C06'])
def c31(c):
    B = 'bls_crypto::bls::Batch'
    shapes = [[], [(1, 1)], [(2, 2)], [(3, 3)], [(1, 2)], [(2, 1)], [(0, 1)], [(2, 0)], [(1, 1), (1, 1)], [(2, 2), (1, 1)], [(1, 2), (1, 1)], [(1, 1), (2, 1)], [(1, 1), (1, 1), (2, 2)], [(40, 40)], [(1, 1)] * 20]
    if c.thorough:
        shapes += [[a, b] for a in itertools.product(range(3), repeat=2) for b in itertools.product(range(3), repeat=2) if [a, b] not in shapes]
    shapes += [s for n in c.sizes([], 300, 3) if n > 3 for s in ([(n, n)], [(n, n + 1)], [(1, 1)] * n)]
    c.partition = {'(keys, signatures) per message': shapes, 'flags': 'all four combinations'}

    def go(shape, f):
        x = X(c)
        I = x.I
        sch = FLAGS[f]
        bd = find(I, B)

        def verify(_, st, a, n):
            a = [I.deref_deep(y, st) for y in a]
            okb = bdd.atom(('batch verified', HK(a[0]), scheme_of(I, a[1])))
            return gated([(Ok(UNIT), okb), (Err(Term('verification error', (HK(a[0]),))), bdd.neg(okb))])
        I.hooks[(bd.path, 'verify')] = verify
        want = []
        for j, (nk, ns) in enumerate(shape):
            if nk != ns or sch is None:
                want.append(FALSE)
                continue
            st = State({}, 1)
            b, st = call_m(c, I, B, 'new', [x.data('data%d' % j), x.data('extra%d' % j)], st)
            r = place(I, st, b)
            for i in range(nk):
                call_m(c, I, B, 'add', [r, x.pk('k%d.%d' % (j, i)), x.sig('s%d.%d' % (j, i))], st)
            want.append(Bool(bdd.atom(('batch verified', HK(I.deref_deep(r, st)), sch))))
        recs = []
        for j, (nk, ns) in enumerate(shape):
            ks, kl = x.arr([x.pk('k%d.%d' % (j, i)) for i in range(nk)], 'usize')
            ss, sl = x.arr([x.sig('s%d.%d' % (j, i)) for i in range(ns)], 'usize')
            recs.append(record(x, UT + 'BatchMessageFFI', data=buffer(x, 'data%d' % j), extra=buffer(x, 'extra%d' % j), public_keys=ks, public_keys_len=kl, signatures=ss, signatures_len=sl))
        res = Ref(I.alloc(x.st, Seq([uninit('verdict %d' % j) for j in range(len(shape))], 'slice'), True), (), True)
        x.call(SIGS + 'batch_verify_strict', [Ref(I.alloc(x.st, Seq(recs, 'slice'), True), (), True), Int('usize', v=len(shape)), mkbool(f[0]), mkbool(f[1]), res])
        if x.ret is None:
            return 'batch_verify_strict never returns'
        got = I.deref_deep(res, x.st)
        if len(shape) == 2:
            c.sample('verdicts %s: %s' % (shape, show(got)[:500]))
        return c.panicfree(I, 1, 'batch_verify_strict') or c.same(got, Seq(want), 1, 'verdicts') or \
            c.same(x.ret, Bool(bdd.and_(1, *[w.b for w in want])), 1, 'value returned by batch_verify_strict')
    for sh in shapes:
        for f in FLAGS:
            c.pob('%s/%s' % (sh, flagname(f)), lambda sh=sh, f=f: go(sh, f))


@spec('C32', 8,
      'The conversions between Rust slices, C buffers and message records are evaluated on symbolic data of every listed length and composed both ways: '
      'the buffer must carry a pointer to exactly that data and its length, and every record field must come back as itself.',
      ['pointers and lengths passed by the caller are valid'])
def c32(c):
    c.partition = {'buffer lengths': 'symbolic, 0, 1, 2, 33'}

    def parts(I, b, data, what):
        p, l = b.f.get('ptr'), b.f.get('len')
        n = data.length()
        e = c.same(l, Int('usize', v=n) if isinstance(n, int) else Int('usize', lin=n), 1, 'length of ' + what)
        if e:
            return e
        if isinstance(p, Opq) and p.cls == 'bufptr':
            return c.same(p.f['data'], data, 1, 'data ' + what + ' points to')
        if isinstance(p, Opq) and p.cls == 'null' and n == 0:
            return 'the pointer of %s is null' % what
        if n == 0:
            return None
        return 'undecided', 'pointer of ' + what

    def buf(n):
        I = c.interp('compat')
        data = bytes_sym('d') if n is None else bytes_sym('d', n)
        path = find(I, UT + 'Buffer').path
        v, st = do_conv(c, I, 'from', 'slice', path, data, State({}, 1))
        if v is None:
            return 'Buffer::from never returns'
        e = c.panicfree(I, 1, 'Buffer::from') or parts(I, v, data, 'a buffer')
        if e:
            return e
        v2, _ = do_conv(c, I, 'from', path, 'slice', v, st)
        if v2 is None:
            return 'reading the buffer back never returns'
        return c.same(v2, data, 1, 'bytes read back') or c.panicfree(I, 1, 'reading a buffer')
    for n in [None] + c.sizes((0, 1, 2, 33), 70000):
        c.ob('buffer/%s' % ('symbolic' if n is None else n), lambda: buf(n))

    def foreign(n):
        x = X(c)
        b = buffer(x, 'd', n)
        v, _ = do_conv(c, x.I, 'from', find(x.I, UT + 'Buffer').path, 'slice', b, x.st)
        return c.same(v, x.data('d', n), 1, 'bytes of a foreign buffer') or c.panicfree(x.I, 1, 'reading a buffer')
    for n in [None] + c.sizes((0, 1, 33), 70000):
        c.ob('foreign buffer/%s' % ('symbolic' if n is None else n), lambda: foreign(n))

    def msg(n):
        x = X(c)
        I = x.I
        b = message(x, 'data', 'extra', x.pk('p'), x.sig('s'))
        F, R = find(I, UT + 'MessageFFI').path, find(I, UT + 'Message').path
        v, st = do_conv(c, I, 'from', F, R, b, x.st)
        want = Struct(R, dict(data=x.data('data'), extra=x.data('extra'), public_key=x.pk('p'), sig=x.sig('s')))
        if v is None:
            return 'Message::from never returns'
        for k in want.f:
            if k not in v.f:
                raise Missing('Message::' + k)
            e = c.same(v.f[k], want.f[k], 1, 'Message::' + k)
            if e:
                return e
        return c.panicfree(I, 1, 'Message::from')
    c.ob('message from its C form', lambda: msg(None))

    def back(nd, ne):
        x = X(c)
        I = x.I
        F, R = find(I, UT + 'MessageFFI').path, find(I, UT + 'Message').path
        d, e = bytes_sym('d') if nd is None else bytes_sym('d', nd), bytes_sym('e') if ne is None else bytes_sym('e', ne)
        m = record(x, UT + 'Message', data=d, extra=e, public_key=x.pk('p'), sig=x.sig('s'))
        v, st = do_conv(c, I, 'from', R, F, m, x.st)
        if v is None:
            return 'MessageFFI::from never returns'
        r = c.panicfree(I, 1, 'MessageFFI::from') or parts(I, v.f['data'], d, 'the data buffer') or parts(I, v.f['extra'], e, 'the extra data buffer')
        if r:
            return r
        v2, _ = do_conv(c, I, 'from', F, R, v, st)
        if v2 is None:
            return 'Message::from never returns'
        for k, w in (('data', d), ('extra', e), ('public_key', x.pk('p')), ('sig', x.sig('s'))):
            r = c.same(v2.f[k], w, 1, 'round trip of Message::' + k)
            if r:
                return r
    for nd, ne in ((None, None), (0, 0), (2, 0), (0, 3), (2, 3)):
        c.ob('message to its C form and back/%s,%s' % (nd, ne), lambda: back(nd, ne))


# ---- the epoch proof verifier

def verify_obs(c, exact):
    """bls_snark_sys::snark::verify"""
    def go(feats, ka, kb, ents):
        x = X(c, feats)
        I = x.I
        ep.hook_pk(I)
        (fa, wa), (fb, wb) = epoch_ffi(x, 'first.', ka, *ents), epoch_ffi(x, 'last.', kb, *ents)
        for r in (fa, fb):      # concrete limits
            r.f['maximum_validators'] = Int('usize', v=3)
        fix = lambda b: b.with_('maximum_validators', Int('usize', v=3))
        lens = {n: bsym('length of ' + n, 'u32') for n in ('vk', 'proof')}
        rd = c.fn(I, FEB + 'read_slice')

        def read(n):
            ln = I.cast(lens[n], ('path', 'usize', (), ()), State({}, 1), {})
            v, _ = c.run(I, rd, [x.mem(n), ln])
            return v
        vk, pr = read('vk'), read('proof')

        def last(vk, pr, a, b):
            v, _ = c.run(I, c.fn(I, 'epoch_snark::api::verifier::verify'), [vk, fix(a), fix(b), pr])
            if v is None:
                raise Undecided('verify never returns')
            return v
        want = and_then(I, wa, lambda a: and_then(I, wb, lambda b: and_then(I, vk, lambda k: and_then(I, pr, lambda p: last(k, p, a, b)))))
        x.call(SNARK + 'verify', [x.mem('vk'), lens['vk'], x.mem('proof'), lens['proof'], fa, fb])
        if x.ret is None:
            return 'verify never returns'
        w = verdict(I, want)
        c.sample('verify = %s' % show(x.ret)[:500])
        if exact:
            return c.same(x.ret, w, 1, 'value returned by verify') or c.panicfree(I, 1, 'verify')
        return c.same(Bool(bdd.and_(x.ret.b, bdd.neg(w.b))), FALSE, 1, 'verify reporting true without an accepted proof')
    for feats in (('compat',), ()):
        for ka, kb in ((1, 1), (2, 1)):
            for ents in (('some', 'some'), ('none', 'none')):
                c.pob('C verify/%s/%d,%d keys/%s,%s' % (('compat' if feats else 'plain', ka, kb) + ents), lambda feats=feats, ka=ka, kb=kb, ents=ents: go(feats, ka, kb, ents))
