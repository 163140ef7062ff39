"""Models of the arkworks libraries (fields, groups, pairings, serialization).

Group elements are linear combinations of atoms, representation changes are
the identity, the pairing is bilinear with the target group written by its
logarithm.  Serialization is an injective uninterpreted form per (format,
group); checked and unchecked decoding are different functions."""
import bdd
from values import *

NI = NotImplemented
GROUPS = ('G1', 'G1a', 'G2', 'G2a', 'G', 'Ga', 'E', 'Ea')
BASE = {'G1': 'G1', 'G1a': 'G1', 'G2': 'G2', 'G2a': 'G2', 'G': 'G', 'Ga': 'G', 'E': 'E', 'Ea': 'E'}
AFF = {'G1': 'G1a', 'G2': 'G2a', 'G': 'Ga', 'E': 'Ea'}
COMPRESSED = {'G1': 48, 'G2': 96, 'Fs': 32, 'F': 48, 'F2': 96, 'F6': 96, 'bw': 96}
NBITS = {'Fs': 253, 'F': 377, 'F6': 761}
P377 = 0x01ae3a4617c510eac63b05c06ca1493b1a22d9f300f5138f1ef3622fba094800170b5d44300000008508c00000000001
R377 = 0x12ab655e9a2ca55660b44d1e5c37b00159aa76fed00000010a11800000000001
MOD = {'Fs': R377, 'F': P377}


def is_alg(v, kinds=None):
    return isinstance(v, Alg) and (kinds is None or v.kind in kinds)


NAMEK = {'EdwardsProjective': 'E', 'EdwardsAffine': 'Ea', 'G1Projective': 'G1', 'G1Affine': 'G1a', 'G1Prepared': 'G1a', 'G2Projective': 'G2', 'G2Affine': 'G2a', 'G2Prepared': 'G2a',
         'G1Var': 'G1', 'G2Var': 'G2', 'GTVar': 'GT', 'Fq12': 'GT', 'Fqk': 'GT', 'Fq2': 'F2', 'Fq6': 'F6_', 'Fq': 'F', 'FpVar': 'F', 'Fq2Var': 'F2',
         'Fq2_': 'F2', 'Fp': 'F', 'BaseField': 'F', 'ScalarField': 'Fs', 'Fqe': 'F2', 'FqVar': 'F'}


def kind_of(I, ty):
    """algebraic kind of a resolved type, or None"""
    if ty is None:
        return None
    k = ty[0]
    if k in ('ref', 'ptr'):
        return kind_of(I, ty[2])
    if k == 'path':
        nm = ty[1]
        full = ty[3] if isinstance(ty[3], tuple) else ()
        if nm == 'Fr':
            return 'F' if any('bw6' in str(x) for x in full) else 'Fs'
        if nm in ('GroupAffine', 'GroupProjective', 'ProjectiveVar', 'AffineVar'):
            a = ty[2][0] if ty[2] else None
            g = None
            if a is not None and a[0] == 'path' and isinstance(a[3], tuple):
                s = [str(x) for x in a[3]]
                g = 'G1' if 'g1' in s or 'G1Parameters' in s else 'G2' if 'g2' in s or 'G2Parameters' in s else None
                if g is None and a[1] in ('G1Parameters', 'G2Parameters'):
                    g = a[1][:2]
            if a is not None and a[0] == 'assocty':
                g = 'G1' if a[2] == 'G1Parameters' else 'G2' if a[2] == 'G2Parameters' else None
            g = g or 'G'
            return AFF[g] if nm == 'GroupAffine' else g
        if nm == 'Fq' and any('bw6' in str(x) for x in full):
            return 'F6'
        return NAMEK.get(nm)
    if k == 'assocty':
        if ty[2] == 'Fr':
            return 'Fs'
        if ty[2] == 'BaseField' and ty[1][0] == 'path' and (ty[1][1] == 'G2Parameters' or 'g2' in str(ty[1][3])):
            return 'F2'
        if ty[2] == 'Projective':
            kk = kind_of(I, ty[1])
            return BASE.get(kk)
        return NAMEK.get(ty[2])
    if k == 'param':
        return 'F' if ty[1] == 'F' else None
    return None


def group_atom(mono):
    g = [a for a in mono if a in ATOMK]
    if len(g) != 1:
        raise Undecided('not a linear combination of group elements')
    rest = list(mono)
    rest.remove(g[0])
    return g[0], tuple(rest)


def pairing_poly(p, q):
    r = {}
    for m1, c1 in p.m:
        a1, s1 = group_atom(m1)
        for m2, c2 in q.m:
            a2, s2 = group_atom(m2)
            k = ('e', a1, a2)
            ATOMK[k] = 'GT'
            mono = tuple(sorted(s1 + s2 + (k,), key=aord))
            r[mono] = r.get(mono, 0) + c1 * c2
    t = Poly.of({})
    for mono, c in r.items():
        x = Poly.const(c)
        for a in mono:
            x = x.mul(Poly.atom(a))
        t = t.add(x)
    return t


def alg(v, what='group or field element'):
    k = 0
    while isinstance(v, Struct) and len(v.f) == 1 and k < 4:
        v = next(iter(v.f.values()))
        k += 1
    if isinstance(v, Int):
        return Alg(v.aslin(), None)
    if not isinstance(v, Alg):
        raise Undecided('%s expected, got %s' % (what, show(v)[:80]))
    return v


POLYBITS = {}


def from_bits_le(bits, kind):
    """field element with these bits (little endian)"""
    if kind in MOD and len(bits) > NBITS[kind] - 1 and any(b.b not in (0,) for b in bits[NBITS[kind] - 1:]):
        p = Poly.atom(('frombits', HK(Seq(bits))))
        return Alg(p, kind)
    p = {}
    for i, b in enumerate(bits):
        for k, v in boolpoly(b.b).m:
            p[k] = p.get(k, 0) + v * (1 << i)
    p = Poly.of(p)
    POLYBITS[p] = tuple(b.b for b in bits)
    return Alg(p, kind)


def fbits(v, n=None):
    """little-endian bits of the canonical representative of a field element"""
    n = n or NBITS.get(v.kind, 377)
    p = v.p
    if p.is_const():
        c = p.constval()
        m = MOD.get(v.kind, P377)
        c %= m
        return [Bool((c >> i) & 1) for i in range(n)]
    b = POLYBITS.get(p)
    if b is None:
        b = _linear_bits(p)
    if b is not None and len(b) <= n:
        return [mkbool(x) for x in b] + [FALSE] * (n - len(b))
    hi = NBITS.get(v.kind, 377)
    return [Bool(bdd.atom(('fbit', p, i))) if i < hi else FALSE for i in range(n)]


def _linear_bits(p):
    """bits of sum of distinct powers of two times boolean atoms"""
    out = {}
    for k, c in p.m:
        if len(k) != 1 or not (isinstance(k[0], tuple) and k[0][0] == 'b') or not isinstance(c, int) or c <= 0 or c & (c - 1):
            return None
        i = c.bit_length() - 1
        if i in out:
            return None
        out[i] = k[0][1]
    if not out or max(out) > 376:
        return None
    return tuple(out.get(i, 0) for i in range(max(out) + 1))


def fbytes(v, n=None):
    bits = fbits(v)
    n = n or (NBITS.get(v.kind, 377) + 63) // 64 * 8
    bits = [b.b for b in bits] + [0] * (8 * n - len(bits))
    return Seq([Int('u8', bits=bits[i * 8:i * 8 + 8]) for i in range(n)])


def ser(v, form):
    """serialized bytes of an algebraic value"""
    k = BASE.get(v.kind, v.kind)
    if k in ('F', 'Fs', 'F6'):
        return fbytes(v)
    if k == 'F2':
        return Seq(fbytes(coord(v, 'c0')).e + fbytes(coord(v, 'c1')).e)
    n = COMPRESSED.get(k)
    if n is None:
        return Seq([Seg(('ser', form, k, v.p), 0, Poly.atom(('sersize', form, k)))])
    if form == 'u':
        n *= 2
    return Seq([Seg(('ser', form, k, v.p), 0, n)])


def coord(v, name):
    """x, y, z of a point; c0, c1 of an extension element"""
    k = v.kind
    if name in ('x', 'y', 'z', 'infinity'):
        if k in ('G1a', 'G2a', 'Ga', 'Ea'):
            if name == 'infinity':
                return Bool(bdd.atom(('eq0', v.p.sign_norm()))) if not v.p.is_const() else mkbool(v.p.constval() == 0)
            if name == 'z':
                return None
            tag = 'aff.' + name
        elif k in ('G1', 'G2', 'G', 'E'):
            tag = 'proj.' + name
        else:
            return None
        fk = 'F2' if BASE[k] == 'G2' else 'F'
        q = v.p.sign_norm()         # the negative of a point has the negative y (Edwards: x)
        s = -1 if q != v.p and name == ('x' if BASE[k] == 'E' else 'y') else 1
        return Alg(Poly.atom((tag, q)).scale(s), fk)
    if name in ('c0', 'c1'):
        if k in ('F2', None):
            a = v.p.single_atom()
            if isinstance(a, tuple) and len(a) == 3 and a[0] == 'ext':
                return Alg(a[1 if name == 'c0' else 2], 'F')
            if v.p.is_const():
                return Alg(v.p if name == 'c0' else Poly.const(0), 'F')
            # components are additive
            t = Poly.of({})
            for m, c in v.p.m:
                if m == ():
                    t = t.add(Poly.const(c if name == 'c0' else 0))
                elif len(m) == 1:
                    t = t.add(Poly.atom((name, m[0])).scale(c))
                else:
                    return Alg(Poly.atom((name, v.p)), 'F')
            return Alg(t, 'F')
    return None


def deser(I, st, src, kind, form, n, checked=True):
    """decode one element from a reader; returns Result and advances the reader"""
    bk = BASE.get(kind, kind)
    fk = {'c': 'c', 'u': 'u'}[form]
    s = I.deref(src, st)
    if isinstance(s, Opq) and s.cls == 'cursor':
        raise Undecided('cursor')
    if isinstance(s, Gated):
        return lift(lambda x: deser(I, st, x, kind, form, n, checked), s)
    if not isinstance(s, Seq):
        raise Undecided('decoding from %s' % show(s)[:60])
    size = COMPRESSED.get(bk)
    if size is not None and form == 'u' and bk in ('G1', 'G2'):
        size *= 2
    L = s.length()
    data, rest = s, None
    if size is not None and isinstance(L, int):
        if L < size:
            return Err(Term('SerializationError', ('short input',)))
        data, rest = s.slice(0, size), s.slice(size, None)
    if isinstance(src, Ref) and rest is not None:
        pl = (src.loc, src.path)
        x = I.read(st, pl)
        while isinstance(x, Ref):
            pl = (x.loc, x.path)
            x = I.read(st, pl)
        I.write(st, pl, Seq(rest.e, s.kind))
    # what was written by the matching encoder decodes to itself
    e = data.e
    if len(e) == 1 and isinstance(e[0], Seg) and isinstance(e[0].t, tuple) and e[0].t[0] == 'ser' and e[0].off == 0 \
            and e[0].t[1] == fk and e[0].t[2] == bk and e[0].n == (COMPRESSED[bk] * (2 if form == 'u' else 1) if bk in COMPRESSED else e[0].n):
        return Ok(Alg(e[0].t[3], kind))
    tag = 'decode' if checked else 'decode_unchecked'
    key = (tag, fk, bk, HK(Seq(data.e, 'slice')))
    ok = bdd.atom(('ok',) + key)
    return gated([(Ok(asym(key, kind)), ok), (Err(Term('SerializationError', key)), bdd.neg(ok))])


def register(I):
    M, F = I.M, I.F
    m, fn = I.m, I.fn

    def first(*names):
        """method model consulted before the standard library's"""
        def deco(f):
            for x in names:
                prev = M.get(x)
                if prev is None:
                    M[x] = f
                else:
                    def chain(I, st, rv, p, args, n, hint, f=f, prev=prev):
                        r = f(I, st, rv, p, args, n, hint)
                        return prev(I, st, rv, p, args, n, hint) if r is NI else r
                    M[x] = chain
            return f
        return deco
    I.first = first

    def fld(I, st, v, name):
        if isinstance(v, Alg):
            return coord(v, name)
        return None
    for nm in ('x', 'y', 'z', 'c0', 'c1', 'infinity'):
        M['field:' + nm] = fld

    # ---- representation changes
    @first('into_affine', 'to_affine')
    def _aff(I, st, rv, p, args, n, hint):
        v = alg(rv)
        if v.kind in AFF:
            return Alg(v.p, AFF[v.kind])
        return v if v.kind is not None else NI

    @first('into_projective')
    def _proj(I, st, rv, p, args, n, hint):
        v = alg(rv)
        return Alg(v.p, BASE.get(v.kind, v.kind))

    @first('into_repr', 'into_bigint', 'prepare')
    def _repr(I, st, rv, p, args, n, hint):
        return rv if isinstance(rv, Alg) else NI

    @first('into')
    def _into(I, st, rv, p, args, n, hint):
        if isinstance(rv, Alg):
            k = kind_of(I, hint)
            if k is not None:
                return Alg(rv.p, k)
        return NI
    for nm, k in NAMEK.items():
        F['%s::from' % nm] = lambda I, st, a, n, h, i, k=k: conv(I, st, a, n, i, k)
    F['Fr::from'] = lambda I, st, a, n, h, i: conv(I, st, a, n, i, kind_of(I, i.get('tty')) or 'Fs')
    F['GroupAffine::from'] = F['GroupProjective::from'] = lambda I, st, a, n, h, i: conv(I, st, a, n, i, kind_of(I, i.get('tty')))

    def conv(I, st, a, n, info, k):
        def f(v):
            if isinstance(v, Bool):
                return Alg(boolpoly(v.b), k)
            if isinstance(v, Int) and v.bits is not None and v.v is None:
                r = from_bits_le([mkbool(b) for b in v.bits], k)
                return r
            x = alg(v)
            return Alg(x.p, k)
        return lift(f, I.deref(a[0], st))

    def zero(I, st, a, n, h, i):
        k = kind_of(I, i.get('tty'))
        if k is None and h is not None:
            k = kind_of(I, h)
        if k in ('GT', 'ML'):
            return Term('GT_zero')
        hd = I.head(i.get('tty')) if i.get('tty') else None
        if hd in WIDTH:
            return Int(hd, v=0)
        return Alg(Poly.const(0), k)

    def one(I, st, a, n, h, i):
        k = kind_of(I, i.get('tty'))
        if k is None and h is not None:
            k = kind_of(I, h)
        if k in ('GT', 'ML'):
            return Alg(Poly.const(0), k)
        hd = I.head(i.get('tty')) if i.get('tty') else None
        if hd in WIDTH:
            return Int(hd, v=1)
        return Alg(Poly.const(1), k)
    F['*::zero'] = F['zero'] = zero
    F['*::one'] = F['one'] = one

    @m('is_zero')
    def _is_zero(I, st, rv, p, args, n, hint):
        if isinstance(rv, Alg):
            return mkbool(I.eq0(rv.p)) if rv.kind not in ('GT', 'ML') else NI
        if isinstance(rv, Int):
            return mkbool(I.veq(rv, Int(rv.ty, v=0)))
        return NI

    @m('is_one')
    def _is_one(I, st, rv, p, args, n, hint):
        if isinstance(rv, Alg):
            return mkbool(I.eq0(rv.p if rv.kind in ('GT', 'ML') else rv.p.add(Poly.const(1), -1)))
        return NI

    def gen(I, st, a, n, h, i):
        k = kind_of(I, i.get('tty')) or kind_of(I, h)
        if k not in GROUPS:
            raise Undecided('generator of an unknown group')
        return asym(BASE[k] + 'gen', k)
    F['*::prime_subgroup_generator'] = gen

    # ---- group arithmetic
    @first('mul', 'mul_bits')
    def _mul(I, st, rv, p, args, n, hint):
        if not isinstance(rv, Alg) or not args:
            return NI
        b = I.deref(args[0], st)

        def f(x):
            y = alg(x, 'scalar')
            k = BASE.get(rv.kind, rv.kind)
            if rv.kind in ('F', 'Fs', None) and y.kind in GROUPS:
                k = BASE[y.kind]
            if rv.kind == 'GT':
                return Alg(rv.p.add(y.p), 'GT')
            return Alg(rv.p.mul(y.p), k)
        return lift(f, b)

    def ar(op):
        def f(I, st, rv, p, args, n, hint):
            if not isinstance(rv, Alg) or not args:
                return NI
            b = I.deref(args[0], st)
            return I.binop(op, rv, lift(alg, b), st, n)
        return f
    first('add')(ar('+'))
    first('sub')(ar('-'))

    def aas(op):
        def f(I, st, rv, p, args, n, hint):
            if not isinstance(rv, Alg) or p is None:
                return NI
            I.write(st, p, I.binop(op, rv, lift(alg, I.deref(args[0], st)), st, n))
            return UNIT
        return f
    first('add_assign', 'add_assign_mixed')(aas('+'))
    first('sub_assign')(aas('-'))
    first('mul_assign')(aas('*'))

    @first('neg')
    def _neg(I, st, rv, p, args, n, hint):
        if isinstance(rv, Alg):
            return Alg(rv.p.scale(-1), rv.kind)
        if isinstance(rv, Struct) and len(rv.f) == 1:
            v = next(iter(rv.f.values()))
            if isinstance(v, Alg) and not I.find_user_method(rv, 'neg'):
                return Alg(v.p.scale(-1), v.kind)
        return NI

    @m('double')
    def _double(I, st, rv, p, args, n, hint):
        return Alg(rv.p.scale(2), rv.kind) if isinstance(rv, Alg) else NI

    @m('square')
    def _square(I, st, rv, p, args, n, hint):
        return Alg(rv.p.mul(rv.p), rv.kind) if isinstance(rv, Alg) else NI

    @m('double_in_place')
    def _doublei(I, st, rv, p, args, n, hint):
        if isinstance(rv, Alg) and p is not None:
            I.write(st, p, Alg(rv.p.scale(2), rv.kind))
            return UNIT
        return NI

    @m('inverse')
    def _inverse(I, st, rv, p, args, n, hint):
        if not isinstance(rv, Alg):
            return NI
        z = I.eq0(rv.p)
        return vite(z, NONE, Some(inv(rv)))

    def inv(v):
        if v.p.is_const() and v.p.constval() in (1, -1):
            return v
        return Alg(Poly.atom(('inv', v.p)), v.kind)
    I.inv = inv

    @m('scale_by_cofactor', 'mul_by_cofactor', 'mul_by_cofactor_to_projective')
    def _cof(I, st, rv, p, args, n, hint):
        if not isinstance(rv, Alg):
            return NI
        if rv.p.is_const():
            return Alg(rv.p, BASE.get(rv.kind, rv.kind))
        return Alg(Poly.atom('cofactor').mul(rv.p), BASE.get(rv.kind, rv.kind))

    @m('is_in_correct_subgroup_assuming_on_curve', 'is_on_curve')
    def _check(I, st, rv, p, args, n, hint):
        if isinstance(rv, Alg):
            return Bool(bdd.atom((n['m'], rv.p)))
        return NI

    F['*::batch_normalization_into_affine'] = lambda I, st, a, n, h, i: lift(
        lambda s: Seq([Alg(alg(x).p, AFF.get(alg(x).kind, alg(x).kind)) for x in s.items()]), I.deref_deep(a[0], st))
    F['*::batch_normalization'] = lambda I, st, a, n, h, i: UNIT

    @fn('VariableBaseMSM::multi_scalar_mul', 'VariableBase::multi_scalar_mul')
    def _msm(I, st, a, n, h, i):
        b, s = I.deref_deep(a[0], st), I.deref_deep(a[1], st)
        if not isinstance(b, Seq) or not isinstance(s, Seq):
            raise Undecided('multi_scalar_mul operands')
        r, k = {}, None
        for x, y in zip(b.items(), s.items()):
            x, y = alg(x), alg(y)
            k = BASE.get(x.kind, x.kind)
            for mm, c in x.p.mul(y.p).m:
                r[mm] = r.get(mm, 0) + c
        return Alg(Poly.of(r), k)

    # ---- pairings
    def pairs(I, v, st, n):
        v = I.deref(v, st)
        if isinstance(v, Opq) and v.cls in ('it', 'range'):
            import stdlib
            return stdlib.elems(I, v, st, n)
        if isinstance(v, Seq):
            return v.items()
        raise Undecided('pairing operands %s' % show(v)[:60])

    def prod(I, st, a, n, h, i, kind='GT'):
        v0 = I.deref(a[0], st)
        if isinstance(v0, Gated) and len(leaves(v0)) <= 64:
            return gated([(prod(I, st, [x], n, h, i, kind), g) for x, g in leaves(v0)])
        ps = [I.deref_deep(x, st) for x in pairs(I, a[0], st, n)]

        def f(*xs):
            t = Poly.of({})
            for x in xs:
                t = t.add(pairing_poly(alg(x.e[0]).p, alg(x.e[1]).p))
            return Alg(t, kind)
        if any(not isinstance(x, Tup) for x in ps):
            raise Undecided('pairing operands')
        return lift(f, *ps)
    F['*::product_of_pairings'] = prod
    F['*::pairing'] = lambda I, st, a, n, h, i: lift(lambda x, y: Alg(pairing_poly(alg(x).p, alg(y).p), 'GT'), I.deref(a[0], st), I.deref(a[1], st))
    F['*::miller_loop'] = lambda I, st, a, n, h, i: prod(I, st, a, n, h, i, 'ML')

    @fn('*::final_exponentiation')
    def _fe(I, st, a, n, h, i):
        v = I.deref(a[0], st)
        return lift(lambda x: Some(Alg(x.p, 'GT')), v)

    # ---- scalars
    F['*::size_in_bits'] = lambda I, st, a, n, h, i: fsize(I, i)
    F['log2'] = lambda I, st, a, n, h, i: ceil_log2(I, st, a, n)

    def fsize(I, i):
        k = kind_of(I, i.get('tty'))
        if k not in NBITS:
            raise Undecided('size of an unknown field')
        return Int('usize', v=NBITS[k])

    def ceil_log2(I, st, a, n):
        v = I.deref(a[0], st)
        if isinstance(v, Int) and v.v is not None:
            x = v.v
            return Int('u32', v=0 if x == 0 else (x - 1).bit_length())
        return Term('?log2', (v,))

    # ---- big integers and proofs
    def bits_arg(I, v, st):
        s = I.deref_deep(v, st)
        if not isinstance(s, Seq):
            raise Undecided('bits %s' % show(s)[:60])
        out = []
        for x in s.items():
            if not isinstance(x, Bool):
                raise Undecided('bit %s' % show(x)[:60])
            out.append(x)
        return out

    def from_bits(rev):
        def f(I, st, a, n, h, i):
            ty = i.get('tty')
            k = kind_of(I, ty[1]) if ty is not None and ty[0] == 'assocty' and ty[2] == 'BigInt' else \
                {'BigInteger384': 'F', 'BigInteger256': 'Fs', 'BigInteger768': 'F6'}.get(ty[1] if ty is not None and ty[0] == 'path' else None)
            b = bits_arg(I, a[0], st)
            return from_bits_le(b[::-1] if rev else b, k)
        return f
    F['*::from_bits_be'], F['*::from_bits_le'] = from_bits(True), from_bits(False)

    @fn('*::from_repr')
    def _from_repr(I, st, a, n, h, i):
        k = kind_of(I, i.get('tty'))
        v = I.deref(a[0], st)

        def one(x):
            if isinstance(x, Int):
                x = Alg(x.aslin(), k)
            if not isinstance(x, Alg):
                raise Undecided('from_repr of %s' % show(x)[:60])
            y = Alg(x.p, k)
            if x.p.is_const():
                return Some(y) if k in MOD and 0 <= x.p.constval() < MOD[k] else NONE
            b = POLYBITS.get(x.p)
            if b is not None and k in NBITS and len(b) < NBITS[k]:
                return Some(y)
            if x.kind == k and b is None and not (x.p.single_atom() and x.p.single_atom()[0] == 'frombits'):
                return Some(y)
            ok = bdd.atom(('canonical', k, x.p))
            return gated([(Some(y), ok), (NONE, bdd.neg(ok))])
        return lift(one, v)

    @first('get')
    def _get(I, st, rv, p, args, n, hint):
        if args or not (isinstance(rv, Enum) and rv.name == 'Option'):
            return NI
        return Ok(rv.e[0]) if rv.var == 'Some' else Err(Enum('SynthesisError', 'AssignmentMissing'))

    F['prepare_verifying_key'] = lambda I, st, a, n, h, i: Term('prepared key', (I.deref_deep(a[0], st),))

    def groth(I, st, a, n, h, i):
        v = [I.deref_deep(x, st) for x in a]
        k = v[0]
        if isinstance(k, Term) and k.op == 'prepared key':
            k = k.a[0]
        elif isinstance(k, Term) and k.op.startswith('?'):
            raise Undecided('verifying key %s' % show(k)[:60])
        key = ('proof check', HK(k), HK(v[1]), HK(v[2]))
        ok = bdd.atom(('ok', key))
        return gated([(Ok(Bool(bdd.atom(('accepts', key)))), ok), (Err(Term('proof check error', key)), bdd.neg(ok))])
    F['verify_proof'] = F['ark_groth16::verify_proof'] = groth
    I.groth = groth

    # ---- field parameters
    def pkind(I, ty):
        """field described by a parameters type"""
        if ty is None:
            return None
        if ty[0] == 'assocty' and ty[2] in ('Params', 'FpParams'):
            return kind_of(I, ty[1])
        if ty[0] == 'path':
            full = ' '.join(str(x) for x in ty[3]) if isinstance(ty[3], tuple) else ''
            if ty[1] == 'FqParameters':
                return 'F6' if 'bw6' in full else 'F'
            if ty[1] == 'FrParameters':
                return 'F' if 'bw6' in full else 'Fs'
        return kind_of(I, ty)

    def pconst(name, f):
        def g(I, st, tty, n):
            k = pkind(I, tty)
            if k not in NBITS:
                if tty is not None and tty[0] == 'param':
                    return isym(('const', name, I.tykey(tty)), 'u32')
                raise Undecided('%s of an unknown field' % name)
            return Int('u32', v=f(NBITS[k]))
        F['const *::' + name] = g
    pconst('MODULUS_BITS', lambda b: b)
    pconst('CAPACITY', lambda b: b - 1)
    pconst('REPR_SHAVE_BITS', lambda b: -b % 64)
    I.pkind = pkind
    I.kind_of = kind_of

    def limbs(I, st, tty, n):
        t = tty
        while t is not None and t[0] == 'assocty' and t[2] in ('BigInt', 'BigInteger'):
            t = t[1]
        k = kind_of(I, t)
        if k not in NBITS:
            raise Undecided('limbs of an unknown field')
        return Int('usize', v=(NBITS[k] + 63) // 64)
    F['const *::NUM_LIMBS'] = limbs

    def half(I, st, a, n, h, i):
        k = kind_of(I, i.get('tty'))
        if k not in MOD:
            raise Undecided('half of an unknown modulus')
        return Alg(Poly.const((MOD[k] - 1) // 2), k)
    F['*::modulus_minus_one_div_two'] = half

    def flt(a, b):
        """a < b between canonical representatives, or None"""
        k = a.kind or b.kind
        if k == 'F2':
            a0, a1, b0, b1 = coord(a, 'c0'), coord(a, 'c1'), coord(b, 'c0'), coord(b, 'c1')
            return bdd.or_(I.cmp('<', a1, b1), bdd.and_(I.eq0(a1.p.add(b1.p, -1)), I.cmp('<', a0, b0)))
        if k not in MOD:
            return None
        m = MOD[k]
        if a.p == b.p:
            return 0
        if a.p.is_const() and b.p.is_const():
            return 1 if a.p.constval() % m < b.p.constval() % m else 0
        if b.p.is_const():
            return below(a.p, b.p.constval() % m, m)
        if a.p.is_const():
            return bdd.neg(below(b.p, a.p.constval() % m + 1, m))
        if not a.p.add(b.p).m:      # a < -a
            return bdd.and_(bdd.neg(I.eq0(a.p)), below(a.p, (m - 1) // 2 + 1, m))
        return None

    def below(p, c, m):
        """representative of p is below c"""
        if c <= 0:
            return 0
        if c >= m:
            return 1
        q = p.sign_norm()
        z = I.eq0(q)
        if q != p:          # -q < c  <=>  q == 0 or q > m - c
            return bdd.or_(z, bdd.neg(below(q, m - c + 1, m)))
        return z if c == 1 else bdd.or_(z, bdd.atom(('below', q, c)))
    I.flt = flt

    def rand_elem(I, st, r, k, n):
        v = I.deref(r, st)
        if isinstance(v, Opq) and v.cls == 'rng':
            t = ('randelem', v.f['src'], v.f['ctr'])
            if isinstance(r, Ref):
                I.write(st, (r.loc, r.path), v.with_(ctr=v.f['ctr'] + 1))
            return asym(t, k)
        if isinstance(v, Term):
            t = ('randelem', v)
            if isinstance(r, Ref):
                I.write(st, (r.loc, r.path), Term('after:rand', (v,)))
            return asym(t, k)
        raise Undecided('random source %s' % show(v)[:60])
    F['*::rand'] = lambda I, st, a, n, h, i: rand_elem(I, st, a[0], kind_of(I, i.get('tty')), n)

    @m('gen', 'sample')
    def _gen(I, st, rv, p, args, n, hint):
        if isinstance(rv, (Opq, Term)):
            ty = hint[1][0] if hint is not None and hint[0] == 'turbo' else hint
            k = kind_of(I, ty)
            if k is not None:
                return rand_elem(I, st, Ref(p[0], p[1]) if p is not None else rv, k, n)
        return NI

    @fn('*::from_random_bytes')
    def _frb(I, st, a, n, h, i):
        k = kind_of(I, i.get('tty'))
        s = I.deref(a[0], st)
        if not isinstance(s, Seq):
            raise Undecided('from_random_bytes of %s' % show(s)[:60])
        L = s.length()
        if all(isinstance(x, Int) and x.v is not None for x in s.e):
            v = sum(x.v << (8 * j) for j, x in enumerate(s.e))
            return Some(Alg(Poly.const(v % MOD.get(k, P377)), k))
        e = asym(('frb', HK(Seq(s.e, 'slice'))), k)
        if isinstance(L, int) and 8 * L <= NBITS.get(k, 0) - 1:
            return Some(e)
        ok = bdd.atom(('frb_ok', HK(Seq(s.e, 'slice'))))
        return gated([(Some(e), ok), (NONE, bdd.neg(ok))])

    @fn('*::from_random_bytes_with_flags')
    def _frbf(I, st, a, n, h, i):
        k = kind_of(I, i.get('tty'))
        s = I.deref(a[0], st)
        fl = (i.get('targs') or [None])[0]
        if fl is None or not isinstance(s, Seq) or not isinstance(s.length(), int):
            raise Undecided('from_random_bytes_with_flags')
        head = I.head(fl)
        bs = None
        for im in I.prog.impls:
            if im.head == head and 'BIT_SIZE' in im.consts:
                bs = I.const(im.consts['BIT_SIZE'], fl)
        if bs is None or bs.v is None:
            raise Undecided('flag width of %s' % head)
        fu = I.prog.method(head, 'from_u8')
        if not fu:
            raise Undecided('flags of %s' % head)

        def one(kind, by, flags):
            nb = NBITS[kind]
            nl = (nb + 63) // 64 * 8
            by = (by + [Int('u8', v=0)] * (nl + 1))[:nl + 1]
            bits = [b.b for x in by for b in [Bool(z) for z in x.tobits(8)]]
            rest = bits[:nb]
            x = from_bits_le([Bool(b) for b in rest], kind)
            fits = bdd.atom(('canonical', kind, HK(Seq([Bool(b) for b in rest]))))
            f = None
            if flags:
                B = bs.v
                loc = (nb + B + 7) // 8 - 1
                v = by[loc].tobits(8)
                f = Int('u8', bits=[0] * (8 - B) + list(v[8 - B:]))
            return x, fits, f
        by = s.items()
        if k in ('F', 'F6', 'Fs'):
            x, fits, f = one(k, by, True)
        elif k == 'F2':
            m_ = len(by) // 2
            x0, f0, _ = one('F', by[:m_], False)
            x1, f1, f = one('F', by[m_:], True)
            x, fits = Alg(Poly.atom(('ext', x0.p, x1.p)), 'F2'), bdd.and_(f0, f1)
        else:
            raise Undecided('from_random_bytes_with_flags of kind %s' % k)
        fv = I.call(fu[0][1], [f], fl, None, st, n)
        out = []
        for z, g in leaves(fv):
            out.append((Some(Tup([x, z.e[0]])) if z.var == 'Some' else NONE, bdd.and_(g, fits)))
        out.append((NONE, bdd.neg(fits)))
        return gated(out)

    @fn('*::get_point_from_x')
    def _gpx(I, st, a, n, h, i):
        k = kind_of(I, i.get('tty'))
        x, g = I.deref(a[0], st), I.truth(I.deref(a[1], st), st)
        if not isinstance(x, Alg):
            raise Undecided('get_point_from_x of %s' % show(x)[:60])
        ok = bdd.atom(('oncurve', BASE.get(k, k), x.p))
        p = asym(('ptx', BASE.get(k, k), x.p), k)
        pt = vite(g, p, Alg(p.p.scale(-1), k))
        return gated([(Some(y), bdd.and_(gy, ok)) for y, gy in leaves(pt)] + [(NONE, bdd.neg(ok))])

    # ---- serialization
    def ser_to(form):
        def f(I, st, rv, p, args, n, hint):
            if isinstance(rv, Struct) and len(rv.f) == 1:
                rv = next(iter(rv.f.values()))
            if not isinstance(rv, Alg):
                return NI
            if not args or not isinstance(args[0], Ref):
                raise Undecided('serialization target')
            import stdlib
            r = args[0]
            pl = (r.loc, r.path)
            x = I.read(st, pl)
            save, I.recv_place = I.recv_place, None
            while isinstance(x, Ref):
                I.recv_place = pl
                pl = (x.loc, x.path)
                x = I.read(st, pl)
            try:
                if isinstance(x, Seq):
                    return stdlib.sink_write(I, st, pl, ser(rv, form), n)
                if isinstance(x, Term):      # an arbitrary writer: may fail
                    key = ('write', x, HK(ser(rv, form)))
                    ok = bdd.atom(('ok',) + key)
                    I.write(st, pl, Term('after:write', (x, ser(rv, form))))
                    return gated([(Ok(UNIT), ok), (Err(Term('io_error', key)), bdd.neg(ok))])
            finally:
                I.recv_place = save
            raise Undecided('serialization target %s' % show(x)[:60])
        return f
    first('serialize', 'serialize_unchecked')(ser_to('c'))
    first('serialize_uncompressed')(ser_to('u'))

    @first('write')
    def _towrite(I, st, rv, p, args, n, hint):
        if isinstance(rv, Alg) and len(args) == 1 and isinstance(args[0], Ref):
            t = I.deref(args[0], st)
            if isinstance(t, (Seq, Term)):
                return raw_write(I, st, rv, args[0], n)
        # ToBytes of bytes: into a buffer that is borrowed mutably
        if isinstance(rv, Seq) and len(args) == 1 and isinstance(args[0], Ref) and not args[0].raw and n.get('a') \
                and n['a'][0]['k'] == 'ref' and n['a'][0]['m'] and isinstance(I.deref(args[0], st), Seq):
            import stdlib
            pl = (args[0].loc, args[0].path)
            while isinstance(I.read(st, pl), Ref):
                x = I.read(st, pl)
                pl = (x.loc, x.path)
            return stdlib.sink_write(I, st, pl, rv, n)
        return NI

    def raw_write(I, st, rv, r, n):
        import stdlib
        k = BASE.get(rv.kind, rv.kind)
        if k in ('F', 'Fs', 'F6'):
            data = fbytes(rv)
        elif k == 'F2':
            data = Seq(fbytes(coord(rv, 'c0')).e + fbytes(coord(rv, 'c1')).e)
        else:
            rep = 'aff' if rv.kind in AFF.values() else 'proj'
            sz = {('aff', 'G1'): 97, ('proj', 'G1'): 144, ('aff', 'G2'): 193, ('proj', 'G2'): 288}.get((rep, k), Poly.atom(('rawsize', rep, k)))
            data = Seq([Seg(('raw', rep, k, rv.p), 0, sz)])
        pl = (r.loc, r.path)
        x = I.read(st, pl)
        while isinstance(x, Ref):
            pl = (x.loc, x.path)
            x = I.read(st, pl)
        return stdlib.sink_write(I, st, pl, data, n)

    @m('serialized_size', 'uncompressed_size')
    def _ssize(I, st, rv, p, args, n, hint):
        v = rv
        if isinstance(v, Struct) and len(v.f) == 1:
            v = next(iter(v.f.values()))
        if not isinstance(v, Alg):
            return NI
        k = BASE.get(v.kind, v.kind)
        if k in COMPRESSED:
            return Int('usize', v=COMPRESSED[k] * (2 if n.get('m') == 'uncompressed_size' and k in ('G1', 'G2') else 1))
        return isym(('sersize', 'c' if n.get('m') == 'serialized_size' else 'u', k), 'usize')

    def dcall(form, checked):
        def f(I, st, a, n, h, i):
            ty = i.get('tty')
            from program import D
            if ty is not None and ty[0] == 'path' and str(ty[1]).rpartition('::')[2] in ('CanonicalDeserialize', 'FromBytes'):
                ty = h[2][0] if h is not None and h[0] == 'path' and h[1] == 'Result' and h[2] else None
                ms = I.prog.method(ty[1], 'deserialize' + {'c': '', 'u': '_uncompressed'}[form], 'CanonicalDeserialize') \
                    if ty is not None and ty[0] == 'path' and isinstance(ty[3], D) and checked else None
                if ms:
                    return I.call(ms[0][1], a, ty, None, st, n)
            k = kind_of(I, ty)
            if k is None:
                if ty is not None and ty[0] == 'path' and isinstance(ty[3], D) and ty[3].kind == 'struct':
                    fs = ty[3].node['f']['f']
                    if len(fs) == 1:
                        from interp import Frame
                        fr = Frame(ty[3], ty[3].mod, {}, None, 1)
                        kk = kind_of(I, I.rty(fs[0]['t'], fr))
                        if kk is not None:
                            r = deser(I, st, a[0], kk, form, n, checked)
                            nm = fs[0].get('n') or '0'
                            return lift(lambda x: Ok(Struct(ty[1], {nm: x.e[0]})) if x.var == 'Ok' else x, r)
                if ty is not None:
                    return deser_other(I, st, a, n, ty, form, checked)
                raise Undecided('decoding of an unknown type')
            return deser(I, st, a[0], k, form, n, checked)
        return f

    def deser_other(I, st, a, n, ty, form, checked):
        s = I.deref_deep(a[0], st)
        key = ('decode' if checked else 'decode_unchecked', form, tykey(ty), HK(s))
        ok = bdd.atom(('ok',) + key)
        return gated([(Ok(Term('decoded', key, ty)), ok), (Err(Term('SerializationError', key)), bdd.neg(ok))])

    def tykey(ty):
        if ty[0] == 'path':
            return (ty[1],) + tuple(tykey(x) for x in ty[2])
        return tuple(str(x) for x in ty[:2])
    I.tykey = tykey
    def fread(I, st, a, n, h, i):
        k = kind_of(I, i.get('tty'))
        if k not in ('F', 'F2', 'F6', 'Fs'):
            return NI
        return deser(I, st, a[0], k, 'c', n)
    F['*::read'] = fread

    def affnew(k):
        def f(I, st, a, n, h, i):
            inf = I.deref(a[2], st)
            x, y = I.deref(a[0], st), I.deref(a[1], st)
            if isinstance(x, Gated) or isinstance(y, Gated):
                return lift(lambda p, q: f(I, st, [p, q, inf], n, h, i), x, y)
            if not isinstance(inf, Bool) or inf.b != 0 or not isinstance(x, Alg) or not isinstance(y, Alg):
                return NI
            return asym(('affine', x.p, y.p), k)
        return f
    for nm, k in (('G1Affine', 'G1a'), ('G2Affine', 'G2a')):
        F[nm + '::new'] = affnew(k)
    F['*::deserialize'] = dcall('c', True)
    F['*::deserialize_uncompressed'] = dcall('u', True)
    F['*::deserialize_unchecked'] = dcall('u', False)
    F['*::deserialize_compressed_unchecked'] = dcall('c', False)
    F['*::deserialize_uncompressed_unchecked'] = dcall('u', False)
    F['*::deserialize_compressed'] = dcall('c', True)
