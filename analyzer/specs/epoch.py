"""C16, C17, C23 (native packing), C24: epoch encodings and the proof verifier"""
import bdd, arklib, stdlib
from values import *
from interp import State, Dead
from registry import spec
from framework import Missing, Violated
from specs.common import *
from specs import hashers

EB = 'epoch_snark::epoch_block::EpochBlock'
PKBITS = 755
CONFIGS = (('compat',), ())


def epoch_type(I, var):
    d = find(I, 'epoch_snark::epoch_block::EpochType')
    return Enum(d.path, var)


def field_of(d, names):
    for f in d.node['f']['f']:
        if f.get('n') in names:
            return f['n']
    raise Missing('field %s of %s' % (names[0], d.path))


def interleave():
    # fields the code may compare with each other get neighbouring places in the variable order
    for nm, w in (('index', 16), ('round', 8), ('maximum_non_signers', 32)):
        for i in range(w):
            for tag in ('', 'a.', 'b.', 'first.', 'last.'):
                bdd.atom(('bit', tag + nm, i))
    for i in range(16):
        for j in range(8):
            for tag in ('', 'a.', 'b.', 'first.', 'last.'):
                for nm in ('epoch_entropy', 'parent_entropy'):
                    t = bytes_sym(tag + nm, 16).e[0].t
                    bdd.atom(('bit', ('byte', t, i), j))


def block(I, n, mv, ee='some', pe='some', tag=''):
    """an epoch block with n distinct symbolic keys"""
    interleave()
    d = find(I, EB)
    ents = {'some': lambda x: Some(bytes_sym(tag + x, 16)), 'none': lambda x: NONE}
    f = dict(index=bsym(tag + 'index', 'u16'), round=bsym(tag + 'round', 'u8'), epoch_entropy=ents[ee]('epoch_entropy'),
             parent_entropy=ents[pe]('parent_entropy'), maximum_non_signers=bsym(tag + 'maximum_non_signers', 'u32'),
             maximum_validators=Int('usize', v=mv),
             new_public_keys=Seq([pk(I, asym(tag + 'pk%d' % i, 'G2')) for i in range(n)]))
    new = I.prog.method(d.path, 'new')
    if new and len(new[0][1].node['sig']['in']) == 7:
        st = State({}, 1)
        v = I.call(new[0][1], [f[k] for k in ('index', 'round', 'epoch_entropy', 'parent_entropy', 'maximum_non_signers',
                                              'maximum_validators', 'new_public_keys')], tyof(d), None, st)
        return I.deref_deep(v, st)
    return Struct(d.path, f)


def lebits(v):
    return [Bool(b) for b in v.tobits(v.width())]


def ent_bits(kind, name):
    if kind == 'none':
        return [FALSE] * 128
    return [Bool(b) for x in bytes_sym(name, 16).items() for b in x.tobits(8)]


def pk_full(I, p):
    """bits of a public key: x.c0, x.c1 most significant first, sign of y"""
    a = Alg(p, 'G2a')
    x, y = arklib.coord(a, 'x'), arklib.coord(a, 'y')
    y0, y1 = arklib.coord(y, 'c0'), arklib.coord(y, 'c1')
    half = Alg(Poly.const((arklib.P377 - 1) // 2), 'F')
    big = bdd.or_(I.cmp('>', y1, half), bdd.and_(I.eq0(y1.p), I.cmp('>', y0, half)))
    return arklib.fbits(arklib.coord(x, 'c0'))[::-1] + arklib.fbits(arklib.coord(x, 'c1'))[::-1] + [Bool(big)]


def pk_opaque(p):
    return [Bool(bdd.atom(('pkbit', p, i))) for i in range(19)]


def hook_pk(I):
    """keys encoded by an unknown injective 755-bit code; returns that code"""
    d = I.prog.find('epoch_snark::encoding::encode_public_key')
    if d is None:
        return lambda p: pk_full(I, p)

    def hook(_, st, a, n):
        v = inner(I, I.deref_deep(a[0], st))
        if not isinstance(v, Alg):
            raise Undecided('encode_public_key of %s' % show(v)[:80])
        return Ok(Seq(pk_opaque(v.p)))
    I.hooks[d.path] = hook
    return pk_opaque


def be_bytes(bits):
    order = [b.b for b in bits[::-1]]
    order += [0] * (-len(order) % 8)
    return Seq([Int('u8', bits=order[i:i + 8]) for i in range(0, len(order), 8)])


class Want:
    def __init__(self, I, n, mv, ee, pe, code, tag=''):
        interleave()
        self.index, self.round, self.mns = lebits(bsym(tag + 'index', 'u16')), lebits(bsym(tag + 'round', 'u8')), lebits(bsym(tag + 'maximum_non_signers', 'u32'))
        self.ee, self.pe = ent_bits(ee, tag + 'epoch_entropy'), ent_bits(pe, tag + 'parent_entropy')
        ks = [Poly.atom(tag + 'pk%d' % i) for i in range(n)]
        for i in range(n):
            asym(tag + 'pk%d' % i, 'G2')
        self.keys = [b for k in ks for b in code(k)]
        g = G2GEN().p
        self.pad = [b for _ in range(max(0, mv - n)) for b in code(g)]
        t = Poly.const(0)
        for k in ks:
            t = t.add(k)
        self.agg = code(t)

    def legacy(self):
        return self.index + self.mns + self.keys

    def first(self):
        return self.index + self.pe + self.mns + self.keys + self.pad

    def last(self):
        return self.index + self.ee + self.mns + self.keys + self.pad

    def last_agg(self):
        return self.last() + self.agg

    def inner(self):
        return self.ee + self.pe + self.keys + self.pad, self.index + self.round + self.mns


def out_digest(I, data):
    d = hashers.digest(32, data, personal=stdlib.b2pad(const_bytes(I, 'bls_crypto::OUT_DOMAIN'), 8))
    return [Bool(b) for x in d.items() for b in x.tobits(8)]


SIZES_Q = [(0, 0), (1, 1), (2, 2), (3, 3), (1, 3), (2, 4), (0, 2), (3, 2), (5, 9), (17, 17), (100, 110)]
SIZES_T = sorted({(n, m) for n in range(0, 9) for m in range(0, 12)} | {(20, 25), (50, 50), (100, 101), (100, 110), (150, 150), (17, 17), (257, 260)})


@spec('C16', 60,
      'Every encoding method of EpochBlock is evaluated bit by bit with symbolic fields for a partition of key counts, padding amounts '
      'and present or absent entropies; each output bit must be exactly the prescribed field bit; the hashed variants must be the '
      'prescribed digest of exactly those bytes.', ['key counts outside the partition behave like those inside (loops over the keys)',
                                                    'entropies are absent or 16 bytes long'])
def c16(c):
    sizes = list(SIZES_T if c.thorough else SIZES_Q)
    sizes += [s for n in c.sizes([], 300, 2) for s in ((n, n), (n, n + 1), (1, n + 1)) if s not in sizes]
    c.partition = {'keys, maximum validators': sizes, 'entropies': ['present', 'absent']}
    I = c.interp('compat')
    d = find(I, EB)
    code = hook_pk(I)
    opaque_h2c(c, I)

    def run(m, b, extra=()):
        fd = c.method(I, d.path, m)
        v, st = c.run(I, fd, [b] + list(extra), tyof(d))
        e = c.panicfree(I, 1, 'EpochBlock::' + m)
        if e:
            return None, e
        if v is None:
            return None, 'EpochBlock::%s never returns' % m
        return v, None
    SIG = const_bytes(I, 'bls_crypto::SIG_DOMAIN')
    def case(n, mv, ee, pe):
        w = Want(I, n, mv, ee, pe, code)
        b = block(I, n, mv, ee, pe)
        def ob(m, want, extra=()):
            def go():
                v, e = run(m, b, extra() if callable(extra) else extra)
                if e:
                    return e
                if n == 1 and m == 'encode_inner_to_bits_cip22':
                    c.sample('%s = %s' % (m, show(v)[:400]))
                return c.same(v, want() if callable(want) else want, 1, 'EpochBlock::' + m)
            c.pob('%s/%d of %d keys/%s,%s' % (m, n, mv, ee, pe), go)
        i0, x0 = w.inner()
        if (ee, pe) == ('some', 'some'):
            ob('encode_to_bits', Ok(Seq(w.legacy())))
            ob('encode_to_bytes', Ok(be_bytes(w.legacy())))
        if I.prog.method(d.path, 'encode_to_bits_cip22'):
            c.pob('encode_to_bits_cip22 first/%d of %d keys/%s,%s' % (n, mv, ee, pe), lambda: two(c, I, d, run, b, 'First', w.first()))
            c.pob('encode_to_bits_cip22 last/%d of %d keys/%s,%s' % (n, mv, ee, pe), lambda: two(c, I, d, run, b, 'Last', w.last()))
        ob('encode_inner_to_bits_cip22', Ok(Tup([Seq(i0), Seq(x0)])))
        ob('encode_inner_to_bytes_cip22', Ok(Tup([be_bytes(i0), be_bytes(x0)])))
        ob('encode_last_epoch_to_bits_with_aggregated_pk_cip22', Ok(Seq(w.last_agg())))
        ob('encode_last_epoch_to_bytes_with_aggregated_pk_cip22', Ok(be_bytes(w.last_agg())))
        ob('encode_first_epoch_to_bytes_cip22', Ok(be_bytes(w.first())))
        ob('blake2_first_epoch_cip22', lambda: Ok(Seq(out_digest(I, be_bytes(w.first())))))
        ob('blake2_last_epoch_with_aggregated_pk_cip22', lambda: Ok(Seq(out_digest(I, be_bytes(w.last_agg())))))
        def g1():
            r = h2c_value(CIP22, SIG, be_bytes(i0), be_bytes(x0))
            return lift(lambda x: x if x.var == 'Ok' else Err(ANY), r)
        ob('hash_to_g1_cip22', g1)

    for n, mv in sizes:
        for ee, pe in (('some', 'some'), ('none', 'none'), ('some', 'none'), ('none', 'some')) if n <= 3 else (('some', 'some'), ('none', 'none')):
            if (ee, pe) not in (('some', 'some'), ('none', 'none')) and (n, mv) not in ((1, 1), (1, 3)):
                continue
            case(n, mv, ee, pe)

    f = I.prog.find('epoch_snark::epoch_block::hash_first_last_epoch_block')
    if f is not None:
        def fl(x, y):
            a, b = block(I, *x, tag='a.'), block(I, *y, tag='b.')
            v, _ = c.run(I, f, [a, b])
            e = c.panicfree(I, 1, 'hash_first_last_epoch_block')
            if e:
                return e
            if v is None:
                return 'hash_first_last_epoch_block never returns'
            wa, wb = Want(I, *x, code, 'a.'), Want(I, *y, code, 'b.')
            return c.same(v, Ok(Seq(out_digest(I, be_bytes(wa.first())) + out_digest(I, be_bytes(wb.last_agg())))), 1, 'hash_first_last_epoch_block')
        for x, y in (((1, 2, 'some', 'some'), (2, 2, 'some', 'some')), ((2, 2, 'none', 'none'), (2, 2, 'some', 'some')),
                     ((2, 3, 'some', 'some'), (1, 3, 'none', 'none')), ((0, 1, 'some', 'none'), (3, 3, 'none', 'some'))):
            c.pob('hash_first_last_epoch_block/%s,%s' % (x, y), lambda x=x, y=y: fl(x, y))

    hf = I.prog.find('epoch_snark::epoch_block::hash_to_bits')
    if hf is not None:
        def hb(n):
            b = bytes_sym('encoding', n) if n is not None else bytes_sym('encoding')
            try:
                v, _ = c.run(I, hf, [b])
            except Undecided:
                if n is None:
                    return None         # decided per length
                raise
            e = c.panicfree(I, 1, 'hash_to_bits')
            if n is None and isinstance(e, tuple):
                return None
            if e:
                return e
            r = c.same(v, Seq(out_digest(I, b)), 1, 'hash_to_bits of %s bytes' % ('any number of' if n is None else n))
            return None if n is None and isinstance(r, tuple) else r
        for n in c.sizes([None, 0, 1, 16, 31, 32, 33, 63, 64, 65, 96, 127, 128, 1024, 10001], 70000):
            c.pob('hash_to_bits/%s' % n, lambda n=n: hb(n))


def two(c, I, d, run, b, var, want):
    v, e = run('encode_to_bits_cip22', b, [epoch_type(I, var)])
    if e:
        return e
    return c.same(v, Ok(Seq(want)), 1, 'EpochBlock::encode_to_bits_cip22(%s)' % var)


@spec('C17', 4,
      'The bits an epoch block contributes per key are evaluated for a symbolic key: 754 bits must be the 377 bits of x.c0 and x.c1, most '
      'significant first, and the last bit the comparison of y with the half modulus, for every value of both components of y.',
      ['the key is not the point at infinity'])
def c17(c):
    c.partition = {'key': 'symbolic'}
    for f in CONFIGS:
        I = c.interp(*f)
        d = find(I, EB)
        for m in ('encode_to_bits', 'encode_inner_to_bits_cip22'):
            for n in (1, 2):
                def go():
                    fd = c.method(I, d.path, m)
                    v, st = c.run(I, fd, [block(I, n, n)], tyof(d))
                    e = c.panicfree(I, 1, 'EpochBlock::' + m)
                    if e:
                        return e
                    want = [b for i in range(n) for b in pk_full(I, asym('pk%d' % i, 'G2').p)]
                    if v is None:
                        return 'EpochBlock::%s never returns' % m
                    outs = []
                    for x, g in leaves(v):
                        if not (isinstance(x, Enum) and x.var == 'Ok'):
                            if isinstance(x, Enum) and x.var == 'Err':
                                return 'encoding a key can fail when %s' % show_bdd(g, 2)[:200]
                            raise Undecided(show(x)[:100])
                        s = x.e[0] if m == 'encode_to_bits' else x.e[0].e[0]
                        L = s.length()
                        if not isinstance(L, int):
                            raise Undecided('length of the encoding')
                        skip = 48 if m == 'encode_to_bits' else 256
                        if L - skip != PKBITS * n:
                            return '%d keys are encoded by %s bits, not %d' % (n, L - skip, PKBITS * n)
                        outs.append((s.slice(skip, None), g))
                    got = gated(outs)
                    c.sample('sign bit = %s' % show(want[-1])[:300])
                    return c.same(got, Seq(want), 1, 'encoding of %d keys' % n)
                c.ob('%s/%d/%s' % (m, n, 'compat' if 'compat' in f else 'plain'), go)


# ---- C23 (native side), C24

def packed(I, bits, cap=376):
    return Seq([arklib.from_bits_le(bits[i:i + cap][::-1], 'F') for i in range(0, len(bits), cap)])


def verify_run(c, I, code, na=(1, 2), nb=(2, 2), en=('some',) * 4):
    d = c.fn(I, 'epoch_snark::api::verifier::verify')
    a, b = block(I, *na, *en[:2], tag='first.'), block(I, *nb, *en[2:], tag='last.')
    vk, pr = Term('vk', ('vk',)), Term('proof', ('proof',))
    v, _ = c.run(I, d, [vk, a, b, pr])
    wa, wb = Want(I, *na, *en[:2], code, 'first.'), Want(I, *nb, *en[2:], code, 'last.')
    bits = out_digest(I, be_bytes(wa.first())) + out_digest(I, be_bytes(wb.last_agg()))
    key = ('proof check', HK(vk), HK(pr), HK(packed(I, bits)))
    return v, key


@spec('C24', 4,
      'The epoch verifier is evaluated with symbolic epochs, key and proof and the proof check as an unknown function of key, proof and '
      'public inputs: success must occur exactly when that check succeeds on the packing of the digests of the supplied first and last epoch; '
      'the C entry point must report true exactly for that success.',
      ['the proof system verifier decides validity of its arguments'])
def c24(c):
    shapes = [((1, 2), (2, 2)), ((0, 0), (1, 1)), ((2, 3), (2, 4)), ((3, 3), (1, 3)), ((20, 20), (20, 24))]
    shapes += [((1, 1), (n, n)) for n in c.sizes([], 300, 3) if n > 1]
    c.partition = {'(keys, maximum) of first and last epoch': shapes, 'entropies of both': ['present', 'absent', 'mixed']}
    ents = [('some',) * 4, ('none',) * 4, ('none', 'some', 'some', 'none'), ('some', 'none', 'none', 'some')]
    runs = [(x, y, ents[0]) for x, y in shapes] + [((1, 2), (2, 2), e) for e in ents[1:]]
    for f in CONFIGS:
        I = c.interp(*f)
        code = hook_pk(I)
        for na, nb, en in runs:
            def go(I=I, code=code, na=na, nb=nb, en=en):
                v, key = verify_run(c, I, code, na, nb, en)
                e = c.panicfree(I, 1, 'verify')
                if e:
                    return e
                if v is None:
                    return 'verify never returns'
                ok = bdd.and_(bdd.atom(('ok', key)), bdd.atom(('accepts', key)))
                c.sample('verify = %s' % show(v)[:600])
                return c.same(v, gated([(Ok(UNIT), ok), (Err(ANY), bdd.neg(ok))]), 1, 'verify')
            c.pob('verify/%s/%s,%s%s' % ('compat' if 'compat' in f else 'plain', na, nb, '' if en == ents[0] else '/' + ','.join(en)), go)
    from specs import ffi
    ffi.verify_obs(c, False)
