"""Models of the constraint-system libraries (ark-relations, ark-r1cs-std, the
gadgets of ark-crypto-primitives and ark-groth16).

A circuit variable is a wrapper around the same algebraic values that native
code uses.  Allocating a witness makes an unknown ("wire"), named by the honest
value its closure computes from the other wires; nothing but recorded
constraints ties it to that value.  With I.wmode == 'H' a witness is its honest
value instead (what an honest prover gets).  Constraints are recorded as
effects of kind 'r1cs'.  `setup` is one symbolic condition: in setup mode no
closure of an allocation is evaluated and no variable has a value."""
import bdd
from values import *
from arklib import kind_of, coord, fbits, pairing_poly, BASE, NBITS, MOD, from_bits_le
import arklib, stdlib

NI = NotImplemented
VARS = ('FpVar', 'Fq2Var', 'G1Var', 'G2Var', 'GTVar', 'G1PreparedVar', 'G2PreparedVar')
COFACTOR = (0x8508c00000000001 - 1) ** 2 // 3
SETUP = lambda: bdd.atom('setup')
CS = Opq('cs')
MISSING = Enum('SynthesisError', 'AssignmentMissing')


def isvar(v, *names):
    return isinstance(v, Struct) and v.name in (names or VARS)


def var(name, v, const=False):
    return Struct(name, {'v': v, 'k': mkbool(const)})


def vname(kind):
    return {'F': 'FpVar', 'Fs': 'FpVar', 'F2': 'Fq2Var', 'G1': 'G1Var', 'G1a': 'G1Var', 'G2': 'G2Var', 'G2a': 'G2Var', 'GT': 'GTVar'}.get(kind)


def val(v):
    return v.f['v']


def kflag(*vs):
    return all(v.f['k'] == TRUE for v in vs if isinstance(v, Struct) and 'k' in v.f)


def lc(v):
    return Struct('LC', {'v': v})


def u8(bits):
    return Struct('UInt8', {'bits': Seq(list(bits))})


def bits_int(bits, ty='u8'):
    return Int(ty, bits=[b.b for b in bits])


def multilin(p):
    """expand boolean factors to literals and reduce powers: canonical over literals"""
    lits = {}

    def ex(b):
        if b not in lits:
            lits[b] = _ite_poly(b)
        return lits[b]
    r = Poly.of({})
    for m, c in p.m:
        t = Poly.const(c)
        for a in m:
            if isinstance(a, tuple) and len(a) == 2 and a[0] == 'b' and isinstance(a[1], int):
                t = _mulred(t, ex(a[1]))
            else:
                t = t.mul(Poly.atom(a))
        r = r.add(t)
    return r


def _mulred(p, q):
    r = {}
    for k1, v1 in p.m:
        for k2, v2 in q.m:
            k = list(k1)
            for a in k2:
                if not (isinstance(a, tuple) and a[0] == 'b' and a in k):
                    k.append(a)
            k = tuple(sorted(k, key=aord))
            r[k] = r.get(k, 0) + v1 * v2
    return Poly.of(r)


_ip = {}


def _ite_poly(b):
    """multilinear polynomial of a diagram over its literals"""
    if b <= 1:
        return Poly.const(b)
    if b in _ip:
        return _ip[b]
    l = bdd.as_literal(b)
    if l and l[1]:
        r = Poly.atom(('b', b))
    elif l:
        r = Poly.const(1).add(Poly.atom(('b', bdd.neg(b))), -1)
    else:
        a = sorted(bdd.support(b), key=aord)[0]
        x = Poly.atom(('b', bdd.atom(a)))
        hi, lo = _ite_poly(bdd.restrict(b, {a: 1})), _ite_poly(bdd.restrict(b, {a: 0}))
        r = lo.add(_mulred(x, hi.add(lo, -1)))
    _ip[b] = r
    return r


def boolatoms(p):
    return {a[1] for a in p.atoms() if isinstance(a, tuple) and len(a) == 2 and a[0] == 'b' and isinstance(a[1], int)}


def primitive(p):
    import math
    if not p.m or not all(isinstance(v, int) for _, v in p.m):
        return p.sign_norm()
    g = 0
    for _, v in p.m:
        g = math.gcd(g, v)
    if g > 1:
        p = Poly(frozenset((k, v // g) for k, v in p.m))
    return p.sign_norm()


def psubst_bool(p, asg):
    def f(a):
        if isinstance(a, tuple) and len(a) == 2 and a[0] == 'b' and isinstance(a[1], int):
            return boolpoly(bdd.restrict(a[1], asg))
        return None
    return p.subst(f)


def eqsplit(I, p, split=5):
    """p = 0, by cases over the conditions it contains"""
    import itertools
    p = multilin(p)
    sup = set()
    for b in boolatoms(p):
        sup |= set(bdd.support(b))
    if not sup or len(sup) > split:
        return I.eq0(primitive(p))
    out, s = [], sorted(sup, key=aord)
    for bits in itertools.product((0, 1), repeat=len(s)):
        asg = dict(zip(s, bits))
        cube = bdd.and_(*[bdd.atom(a) if v else bdd.neg(bdd.atom(a)) for a, v in asg.items()])
        out.append(bdd.implies(cube, I.eq0(primitive(psubst_bool(p, asg)))))
    return bdd.and_(*out)


def gsel(c, a, b, I=None):
    """selection; points become polynomials in the condition"""
    if isvar(a, 'G1Var', 'G2Var') and isvar(b, a.name) and isinstance(val(a), Alg) and isinstance(val(b), Alg):
        if c <= 1:
            return a if c else b
        s = boolpoly(c)
        x, y = val(a), val(b)
        if x.p == y.p:
            p = x.p
        else:
            p = multilin(y.p.add(s.mul(x.p.add(y.p, -1))))
        k = x.kind if x.kind == y.kind else BASE.get(x.kind, x.kind)
        return Struct(a.name, {'v': Alg(p, k), 'k': mkbool(kflag(a, b) and False)})
    return vite(c, a, b)


def register(I):
    M, F = I.M, I.F
    first, fn, m = I.first, I.fn, I.m
    I.wmode = 'S'

    def rec(st, what, *data, n=None):
        I.effect(st, 'r1cs', (what,) + data, n)

    def D(v, st):
        return I.deref_deep(v, st)

    I.setup_known = None

    def notsetup(st):
        if I.setup_known is not None:
            return int(not I.setup_known)
        return bdd.neg(SETUP()) if bdd.and_(st.pc, SETUP()) != 0 else 1

    def valued(st, v, const=False):
        ns = 1 if const else notsetup(st)
        if ns == 1:
            return Ok(v)
        return gated([(Ok(v), ns), (Err(MISSING), bdd.neg(ns))])

    # ---------------------------------------------------------- allocation
    def honest(st, f, n, const=False):
        """value of an allocation closure in proving mode; of a constant, in any mode"""
        g = st.pc if const and I.setup_known else bdd.and_(st.pc, notsetup(st))
        if g == 0:
            return None
        s2 = st.copy()
        s2.pc = g
        try:
            r = I.deref_deep(I.call_value(f, [], s2, n), s2)
        except DeadT:
            return None
        out = []
        for x, gx in leaves(r):
            if isinstance(x, Enum) and x.var == 'Ok':
                out.append((x.e[0], gx))
            elif isinstance(x, Enum) and x.var == 'Err':
                bad = bdd.and_(gx, g)
                if bad != 0:
                    rec(s2, 'allocerr', Bool(bad), n=n)
            else:
                raise Undecided('witness closure returns %s' % show(x)[:60])
        if not out:
            return None
        care = bdd.or_(*[gx for _, gx in out])
        # what is known where the closure succeeds
        if len(out) == 1:
            return out[0][0]
        return gated([(x, bdd.constrain(gx, care)) for x, gx in out])

    def simplify(v, st):
        """forget the distinction made only by setup mode"""
        ns = bdd.neg(SETUP())
        if isinstance(v, Gated):
            return gated([(x, bdd.restrict(g, {'setup': 0})) for x, g in v.g if bdd.restrict(g, {'setup': 0}) != 0])
        if isinstance(v, Bool):
            return Bool(bdd.restrict(v.b, {'setup': 0}))
        if isinstance(v, Int) and v.bits is not None:
            return Int(v.ty, bits=[bdd.restrict(b, {'setup': 0}) for b in v.bits])
        return v

    def dup(key):
        k = sum(1 for g, kind, d, w in I.effects if kind == 'r1cs' and d[0] == 'alloc' and d[1] == key)
        return k

    def wire(I, what, hv, d=0):
        """the unknown standing for a witness of this honest value"""
        if what == 'Boolean':
            return Bool(bdd.atom(('w', 'b', HK(hv), d)))
        if what == 'UInt8':
            return u8([Bool(bdd.atom(('w', 'u8', HK(hv), d, i))) for i in range(8)])
        if what in ('G1Var', 'G2Var'):
            nm = ('w', what[:2], HK(hv), d)
            return var(what, asym(nm, what[:2] + 'a'))
        if what == 'FpVar':
            k = hv.kind if isinstance(hv, Alg) else leaves(hv)[0][0].kind if isinstance(hv, Gated) and isinstance(leaves(hv)[0][0], Alg) else 'F'
            return var('FpVar', Alg(Poly.atom(('w', 'F', HK(hv), d)), k or 'F'))
        if what == 'Fq2Var':
            return var('Fq2Var', Alg(Poly.atom(('w', 'F2', HK(hv), d)), 'F2'))
        return Term('w' + what, (hv, d))
    I.wire = wire

    def plain(what, hv):
        if what == 'Boolean':
            if isinstance(hv, Gated):
                return mkbool(I.truth(hv))
            return hv
        if what == 'UInt8':
            def f(x):
                if not isinstance(x, Int):
                    raise Undecided('byte %s' % show(x)[:60])
                return u8([mkbool(b) for b in x.tobits(8)])
            return lift(f, hv)
        if what in VARS:
            def g(x):
                if isinstance(x, Int):
                    x = Alg(x.aslin(), 'F')
                if not isinstance(x, Alg):
                    raise Undecided('%s of %s' % (what, show(x)[:60]))
                if what in ('G1Var', 'G2Var'):
                    return Alg(x.p, what[:2] + 'a')
                if what == 'FpVar' and x.kind is None:
                    return Alg(x.p, 'F')
                return x
            return var(what, lift(g, hv))
        return hv

    def target(i, n, hv=None):
        t = i.get('tty')
        nm = None
        if t is not None:
            nm = I.head(t) or (t[2] if t[0] == 'assocty' else t[1] if len(t) > 1 else None)
            nm = str(nm).split('::')[-1]
        if nm in ('ProjectiveVar',):
            k = kind_of(I, t)
            nm = {'G1': 'G1Var', 'G2': 'G2Var'}.get(k, nm)
        if nm in ('AllocatedFp', 'FrVar', 'FqVar', 'FBaseVar'):
            nm = 'FpVar'
        if nm in ('QuadExtVar',):
            nm = 'Fq2Var'
        if nm in ('AllocatedBit', 'AllocatedBool', 'Bool'):
            nm = 'Boolean'
        return nm

    def allocate(mode):
        def f(I, st, a, n, h, i):
            what = target(i, n)
            if what is None:
                raise Undecided('allocation of an unknown type')
            md, fa = mode, a[-1]
            if mode is None:
                mv = D(a[2], st)
                md = mv.d[-1] if isinstance(mv, FnV) else mv.var if isinstance(mv, Enum) else None
                fa = a[1]
            if md not in ('Constant', 'Witness', 'Input'):
                raise Undecided('allocation mode %s' % md)
            if isinstance(D(fa, st), (Clo, FnV)):
                # errors of the closure in proving mode fail the synthesis
                hv = honest(st, D(fa, st) if not isinstance(fa, (Clo, FnV)) else fa, n, md == 'Constant')
                if md == 'Constant' and hv is None:
                    raise Undecided('constant without value')
            else:
                hv = D(fa, st)
            if hv is not None:
                hv = simplify(hv, st)
            else:
                hv = Term('no value', (I.where(n),))
            if isinstance(hv, Alg) and hv.kind in ('G1', 'G2'):
                hv = Alg(hv.p, hv.kind + 'a')
            if what == 'FpVar' and isinstance(hv, Int):
                hv = Alg(hv.aslin(), 'F')
            if isinstance(hv, Alg) and what == 'FpVar' and hv.kind is None:
                hv = Alg(hv.p, kind_of(I, i.get('tty')) or 'F')
            if md == 'Constant':
                r = plain(what, hv)
                if isinstance(r, Struct) and 'k' in r.f:
                    r = r.with_('k', TRUE)
                return Ok(r)
            nm = n['m'] if isinstance(n, dict) and 'm' in n else ''
            key = (what, HK(hv))
            d = dup(key)
            w = plain(what, hv) if I.wmode == 'H' else wire(I, what, hv, d)
            rec(st, 'alloc', key, md, w, hv, n=n)
            if md == 'Input':
                rec(st, 'input', w, n=n)
            return Ok(w)
        return f
    F['*::new_witness'] = allocate('Witness')
    F['*::new_input'] = allocate('Input')
    F['*::new_variable'] = F['*::new_variable_omit_prime_order_check'] = allocate(None)

    def newconst(I, st, a, n, h, i):
        what = target(i, n)
        v = D(a[-1], st)
        r = plain(what, v)
        if isinstance(r, Struct) and 'k' in r.f:
            r = r.with_('k', TRUE)
        return Ok(r)
    F['*::new_constant'] = newconst
    prevc = F.get('*::constant')

    def constant(I, st, a, n, h, i):
        r = newconst(I, st, a, n, h, i)
        return r.e[0] if isinstance(r, Enum) else lift(lambda x: x.e[0], r)
    F['*::constant'] = constant
    F['FpVar::Constant'] = F['Boolean::Constant'] = F['*::Constant'] = constant
    def fpfrom(I, st, a, n, h, i):
        v = D(a[0], st)
        if isinstance(v, Bool):
            return var('FpVar', Alg(boolpoly(v.b), 'F'))
        if isvar(v, 'FpVar'):
            return v
        if isinstance(v, Alg):
            return var('FpVar', v, True)
        raise Undecided('FpVar::from %s' % show(v)[:60])
    F['FpVar::from'] = fpfrom
    F['const Boolean::TRUE'] = lambda I, st, t, n: TRUE
    F['const Boolean::FALSE'] = lambda I, st, t, n: FALSE
    F['const Variable::One'] = lambda I, st, t, n: lc(Alg(Poly.const(1), 'F'))

    def wrap01(prev):
        def f(I, st, a, n, h, i):
            w = target(i, n)
            if w == 'LinearCombination':
                return lc(Alg(Poly.const(0), 'F'))
            if w is None and h is not None and h[0] == 'path':
                w = target({'tty': h}, n)
            if w in VARS:
                k = {'FpVar': kind_of(I, i.get('tty')) or 'F', 'Fq2Var': 'F2', 'GTVar': 'GT', 'G1Var': 'G1', 'G2Var': 'G2'}[w]
                r = prev(I, st, a, n, h, dict(i, tty=('path', w, (), ()))) if w != 'FpVar' else prev(I, st, a, n, h, i)
                if not isinstance(r, Alg):
                    raise Undecided('neutral element of %s' % w)
                return var(w, Alg(r.p, k), True)
            return prev(I, st, a, n, h, i)
        return f
    F['*::zero'] = wrap01(F['*::zero'])
    F['*::one'] = wrap01(F['*::one'])

    # ---------------------------------------------------------- constraint systems
    @first('cs')
    def _cs(I, st, rv, p, args, n, hint):
        return CS if not args else NI
    F['ConstraintSystem::new_ref'] = lambda I, st, a, n, h, i: CS

    @first('is_in_setup_mode')
    def _setup(I, st, rv, p, args, n, hint):
        return Bool(SETUP()) if I.setup_known is None else Bool(int(I.setup_known))

    @first('enforce_constraint')
    def _raw(I, st, rv, p, args, n, hint):
        a, b, c = [tolc(D(x, st)) for x in args]
        rec(st, 'zero', ((a.p.mul(b.p).add(c.p, -1), 1),), 'F', n=n)
        return Ok(UNIT)

    def tolc(v):
        if isinstance(v, Struct) and v.name == 'LC':
            v = val(v)
        if isinstance(v, Tup) and len(v.e) == 2:
            c, x = v.e
            x = tolc(x)
            c = arklib.alg(c)
            return Alg(c.p.mul(x.p), x.kind)
        if isinstance(v, Gated):
            raise Undecided('linear combination depends on a condition')
        if not isinstance(v, Alg):
            raise Undecided('linear combination %s' % show(v)[:60])
        return v
    F['LinearCombination::from'] = lambda I, st, a, n, h, i: lc(tolc(D(a[0], st)))
    F['LinearCombination::zero'] = F['LinearCombination::new'] = lambda I, st, a, n, h, i: lc(Alg(Poly.const(0), 'F'))
    F['macro lc'] = lambda I, st, n, sc, h: lc(Alg(Poly.const(0), 'F'))

    @first('lc')
    def _lc(I, st, rv, p, args, n, hint):
        if isinstance(rv, Bool):
            return lc(Alg(boolpoly(rv.b), 'F'))
        return NI

    prevf = {k: M.get('field:' + k) for k in ('x', 'y', 'z', 'c0', 'c1')}

    def fld(nm):
        def f(I, st, v, name):
            if isvar(v, 'G1Var', 'G2Var', 'Fq2Var', 'AffineVar'):
                def g(x):
                    if nm == 'z' and x.kind in ('G1a', 'G2a'):
                        return Alg(Poly.const(1), 'F2' if x.kind == 'G2a' else 'F')
                    r = coord(x, nm)
                    if r is None:
                        raise Undecided('coordinate %s' % nm)
                    return r
                r = lift(g, val(v))
                k = leaves(r)[0][0].kind
                return var(vname(k), r, kflag(v))
            return prevf[nm](I, st, v, name) if prevf[nm] else None
        return f
    for nm in prevf:
        M['field:' + nm] = fld(nm)

    def fvar(I, st, v, name):
        if isinstance(v, Struct) and v.name == 'AllocatedFp':
            return lc(val(v))
        return None
    M['field:variable'] = fvar

    # ---------------------------------------------------------- values of variables
    @first('value')
    def _value(I, st, rv, p, args, n, hint):
        if args:
            return NI
        if isinstance(rv, Bool):
            return valued(st, rv, rv.b <= 1)
        if isvar(rv):
            return valued(st, lift(lambda x: Alg(x.p, BASE.get(x.kind, x.kind)), val(rv)), kflag(rv))
        if isinstance(rv, Struct) and rv.name in ('UInt8', 'UInt32'):
            b = rv.f['bits'].e
            return valued(st, bits_int(b, {'UInt8': 'u8', 'UInt32': 'u32'}[rv.name]), all(x.b <= 1 for x in b))
        if isinstance(rv, Seq) and all(isinstance(x, Bool) for x in rv.e):
            return valued(st, rv, all(x.b <= 1 for x in rv.e))
        return NI

    # ---------------------------------------------------------- conversion to bits
    def tobits(be):
        def f(I, st, rv, p, args, n, hint):
            if isvar(rv, 'FpVar'):
                b = lift(lambda x: Seq(fbits(x)), val(rv))
                return Ok(lift(lambda s: Seq(s.e[::-1]) if be else s, b))
            if isinstance(rv, Struct) and rv.name == 'UInt8':
                s = rv.f['bits']
                return Ok(Seq(s.e[::-1]) if be else s)
            if isinstance(rv, Struct) and rv.name == 'UInt32':
                s = rv.f['bits']
                return Seq(s.e[::-1]) if be else s
            if isinstance(rv, Bool):
                return Ok(Seq([rv]))
            return NI
        return f
    first('to_bits_le')(tobits(False))
    first('to_bits_be')(tobits(True))

    def nonunique(be):
        def f(I, st, rv, p, args, n, hint):
            if isvar(rv, 'FpVar'):
                x = val(rv)
                if not isinstance(x, Alg):
                    raise Undecided('non-unique bits')
                k = NBITS.get(x.kind, 377)
                b = [Bool(bdd.atom(('nonunique', x.p, j))) for j in range(k)]
                return Ok(Seq(b[::-1] if be else b))
            return NI
        return f
    first('to_non_unique_bits_le')(nonunique(False))
    first('to_non_unique_bits_be')(nonunique(True))

    def from_bits8(I, st, a, n, h, i):
        s = D(a[0], st)
        if not isinstance(s, Seq) or len(s.items()) != 8:
            I.panic(st, 1, 'UInt8 from %s bits' % (len(s.items()) if isinstance(s, Seq) else '?'), n)
        return u8(s.items())
    F['UInt8::from_bits_le'] = from_bits8
    F['UInt8::constant'] = lambda I, st, a, n, h, i: plain('UInt8', D(a[0], st))
    F['UInt8::constant_vec'] = lambda I, st, a, n, h, i: Seq([plain('UInt8', x) for x in D(a[0], st).items()])

    @first('to_bytes')
    def _tobytes(I, st, rv, p, args, n, hint):
        if isvar(rv, 'FpVar') and isinstance(val(rv), Alg):
            b = fbits(val(rv))
            b = b + [FALSE] * (-len(b) % 64)
            return Ok(Seq([u8(b[j:j + 8]) for j in range(0, len(b), 8)]))
        return NI

    # ---------------------------------------------------------- boolean operations
    def bop(f):
        def g(I, st, rv, p, args, n, hint):
            if not isinstance(rv, Bool) or len(args) != 1:
                return NI
            b = D(args[0], st)
            if not isinstance(b, Bool):
                return NI
            return Ok(Bool(f(rv.b, b.b)))
        return g
    first('and')(bop(bdd.and_))
    first('or')(bop(bdd.or_))
    first('xor')(bop(bdd.xor))

    @first('not')
    def _not(I, st, rv, p, args, n, hint):
        return Bool(bdd.neg(rv.b)) if isinstance(rv, Bool) else NI

    def kary(f):
        def g(I, st, a, n, h, i):
            s = D(a[0], st)
            return Ok(Bool(f(*[x.b for x in s.items()])))
        return g
    F['Boolean::kary_and'], F['Boolean::kary_or'] = kary(bdd.and_), kary(bdd.or_)
    F['Boolean::le_bits_to_fp_var'] = lambda I, st, a, n, h, i: Ok(var('FpVar', from_bits_le([x for x in D(a[0], st).items()], 'F')))

    @first('select')
    def _select(I, st, rv, p, args, n, hint):
        if not isinstance(rv, Bool) or len(args) != 2:
            return NI
        return Ok(gsel(rv.b, D(args[0], st), D(args[1], st)))

    @fn('*::conditionally_select')
    def _csel(I, st, a, n, h, i):
        c = D(a[0], st)
        if not isinstance(c, Bool):
            raise Undecided('condition %s' % show(c)[:60])
        return Ok(gsel(c.b, D(a[1], st), D(a[2], st)))

    # ---------------------------------------------------------- equality
    def diff(a, b):
        """[(difference polynomial, guard)] and kind"""
        out, k = [], None
        for x, gx in leaves(val(a)):
            for y, gy in leaves(val(b)):
                g = bdd.and_(gx, gy)
                if g != 0:
                    out.append((x.p.add(y.p, -1), g))
                    k = k or x.kind
        return tuple(out), BASE.get(k, k)

    def pair(a, b, st):
        a, b = D(a, st), D(b, st)
        for x, y in ((a, b), (b, a)):
            if isvar(x) and isinstance(y, Alg):
                y2 = var(x.name, y, True)
                if y is b:
                    b = y2
                else:
                    a = y2
        return a, b

    def enforce(cond, neg):
        def f(I, st, rv, p, args, n, hint):
            if len(args) != (2 if cond else 1):
                return NI
            a, b = pair(rv, args[0], st)
            c = D(args[1], st) if cond else TRUE
            if not isinstance(c, Bool):
                return NI
            if isinstance(a, Bool) and isinstance(b, Bool):
                e = bdd.xor(a.b, b.b) if neg else bdd.iff(a.b, b.b)
                rec(st, 'bool', Bool(bdd.implies(c.b, e)), n=n)
                return Ok(UNIT)
            if isinstance(a, Struct) and a.name in ('UInt8', 'UInt32') and isinstance(b, Struct) and b.name == a.name:
                es = [bdd.iff(x.b, y.b) for x, y in zip(a.f['bits'].e, b.f['bits'].e)]
                if neg:
                    rec(st, 'bool', Bool(bdd.implies(c.b, bdd.neg(bdd.and_(*es)))), n=n)
                else:
                    for e in es:
                        rec(st, 'bool', Bool(bdd.implies(c.b, e)), n=n)
                return Ok(UNIT)
            if isinstance(a, Seq) and isinstance(b, Seq) and not neg:
                if len(a.items()) != len(b.items()):
                    I.panic(st, 1, 'equality of slices of different length', n)
                for x, y in zip(a.items(), b.items()):
                    r = f(I, st, x, None, [y] + args[1:], n, hint)
                    if r is NI:
                        return NI
                return Ok(UNIT)
            if isvar(a) and isvar(b, a.name):
                ds, k = diff(a, b)
                rec(st, 'nonzero' if neg else 'zero', tuple((q, bdd.and_(g, c.b)) for q, g in ds), k, n=n)
                return Ok(UNIT)
            return NI
        return f
    first('enforce_equal')(enforce(False, False))
    first('conditional_enforce_equal')(enforce(True, False))
    first('enforce_not_equal')(enforce(False, True))
    first('conditional_enforce_not_equal')(enforce(True, True))

    @first('mul_equals')
    def _muleq(I, st, rv, p, args, n, hint):
        if not isvar(rv, 'FpVar', 'Fq2Var') or len(args) != 2:
            return NI
        b, r = (D(x, st) for x in args)
        if not (isvar(b, rv.name) and isvar(r, rv.name)):
            return NI
        out = [(x.p.mul(y.p).add(z.p, -1), bdd.and_(g, h, k)) for x, g in leaves(val(rv)) for y, h in leaves(val(b)) for z, k in leaves(val(r))]
        rec(st, 'zero', tuple((q, g) for q, g in out if g != 0), 'F', n=n)
        return Ok(UNIT)

    @first('square_equals')
    def _sqeq(I, st, rv, p, args, n, hint):
        return _muleq(I, st, rv, p, [rv] + list(args), n, hint)

    def iseq(neg):
        def f(I, st, rv, p, args, n, hint):
            if len(args) != 1:
                return NI
            a, b = pair(rv, args[0], st)
            if isinstance(a, Bool) and isinstance(b, Bool):
                e = bdd.iff(a.b, b.b)
            elif isvar(a) and isvar(b, a.name):
                e = bdd.or_(*[bdd.and_(g, eqsplit(I, q)) for q, g in diff(a, b)[0]])
            else:
                return NI
            return Ok(Bool(bdd.neg(e) if neg else e))
        return f
    first('is_eq')(iseq(False))
    first('is_neq')(iseq(True))

    @first('is_zero')
    def _isz(I, st, rv, p, args, n, hint):
        if isvar(rv):
            return Ok(Bool(bdd.or_(*[bdd.and_(g, eqsplit(I, x.p)) for x, g in leaves(val(rv))])))
        return NI

    # ---------------------------------------------------------- order
    def ordname(v):
        v = v.d[-1] if isinstance(v, FnV) else v.var if isinstance(v, Enum) else None
        if v not in ('Less', 'Equal', 'Greater'):
            raise Undecided('ordering')
        return v

    def ecmp(checked):
        def f(I, st, rv, p, args, n, hint):
            if not isvar(rv, 'FpVar') or len(args) != 3:
                return NI
            b = D(args[0], st)
            o = ordname(D(args[1], st))
            q = D(args[2], st)
            if not isvar(b, 'FpVar') or not isinstance(q, Bool) or q.b > 1:
                return NI
            if o == 'Equal':
                ds, k = diff(rv, b)
                rec(st, 'zero', ds, k, n=n)
                return Ok(UNIT)
            x, y = (rv, b) if o == 'Less' else (b, rv)
            rec(st, ('le' if q.b else 'lt') + ('' if checked else ' unchecked'), val(x), val(y), n=n)
            return Ok(UNIT)
        return f
    first('enforce_cmp')(ecmp(True))
    first('enforce_cmp_unchecked')(ecmp(False))

    @first('enforce_smaller_or_equal_than_mod_minus_one_div_two')
    def _half(I, st, rv, p, args, n, hint):
        if not isvar(rv, 'FpVar'):
            return NI
        rec(st, 'half', val(rv), n=n)
        return Ok(UNIT)

    # ---------------------------------------------------------- arithmetic
    def arith(op):
        prev = M.get('op' + op)

        def f(I, st, a, p, args, n, hint):
            b = args[0]
            if (isinstance(a, Struct) and a.name == 'LC') or (isinstance(b, Struct) and b.name == 'LC'):
                if op == '*':
                    x, y = (a, b) if isinstance(a, Struct) and a.name == 'LC' else (b, a)
                    return lc(Alg(val(x).p.mul(arklib.alg(y).p), 'F'))
                x, y = tolc(a), tolc(b)
                return lc(Alg(x.p.add(y.p, 1 if op == '+' else -1), 'F'))
            if isvar(a) or isvar(b):
                nm = a.name if isvar(a) else b.name
                x, y = (val(v) if isvar(v) else v for v in (a, b))
                if not all(isinstance(l, Alg) for v in (x, y) for l, _ in leaves(v)):
                    return prev(I, st, a, p, args, n, hint) if prev else None

                def one(u, v):
                    k = BASE.get(u.kind, u.kind) or BASE.get(v.kind, v.kind)
                    if k == 'GT':
                        if op != '*':
                            raise Undecided('target group operation')
                        return Alg(u.p.add(v.p), k)
                    if op == '+':
                        return Alg(u.p.add(v.p), k)
                    if op == '-':
                        return Alg(u.p.add(v.p, -1), k)
                    return Alg(u.p.mul(v.p), k)
                return var(nm, lift(one, x, y), kflag(a, b) and all(isvar(v) or True for v in (a, b)))
            return prev(I, st, a, p, args, n, hint) if prev else None
        M['op' + op] = f
    for op in '+-*':
        arith(op)

    def unary(g):
        def f(I, st, rv, p, args, n, hint):
            if isvar(rv):
                return Ok(var(rv.name, lift(lambda x: g(x), val(rv)), kflag(rv)))
            return NI
        return f
    first('negate')(unary(lambda x: Alg(x.p.scale(-1), x.kind)))
    first('double')(unary(lambda x: Alg(x.p.scale(2), BASE.get(x.kind, x.kind))))
    first('square')(unary(lambda x: Alg(x.p.mul(x.p), x.kind)))

    def neg_(I, st, rv, p, args, n, hint):
        if rv.name == 'LC':
            return lc(Alg(val(rv).p.scale(-1), 'F'))
        return var(rv.name, lift(lambda x: Alg(x.p.scale(-1), x.kind), val(rv)), kflag(rv))
    M['un-'] = neg_

    def variant(I, st, v, p, args, n, hint):
        nm, subs = args
        if nm in ('TRUE', 'FALSE') and isinstance(v, Bool):
            return (v.b if nm == 'TRUE' else bdd.neg(v.b)), []
        if nm in ('Constant', 'Var') and isvar(v, 'FpVar'):
            k = v.f['k'].b
            return (k if nm == 'Constant' else bdd.neg(k)), [val(v) if nm == 'Constant' else Struct('AllocatedFp', {'v': val(v)})]
        if nm in ('Constant', 'Is', 'Not', 'Var') and isinstance(v, Bool):
            if nm == 'Constant':
                return int(v.b <= 1), [v]
            if v.b <= 1:
                return 0, [v]
            if nm == 'Var' or nm == 'Is':
                return 1, [Struct('AllocatedBit', {'v': v})]
            return 0, [Struct('AllocatedBit', {'v': v})]
        return None
    M['variant'] = variant

    def opm(name, op, assign=False):
        @first(name)
        def f(I, st, rv, p, args, n, hint):
            if (isvar(rv) or isinstance(rv, Struct) and rv.name == 'LC') and len(args) == 1:
                r = M['op' + op](I, st, rv, None, [D(args[0], st)], n, None)
                if r is None:
                    return NI
                if assign:
                    if p is None:
                        return NI
                    I.write(st, p, r)
                    return UNIT
                return r
            return NI
    for a_, b_ in (('add', '+'), ('sub', '-'), ('mul', '*')):
        opm(a_, b_)
        opm(a_ + '_assign', b_, True)

    @first('add_constant')
    def _addc(I, st, rv, p, args, n, hint):
        return M['op+'](I, st, rv, None, [D(args[0], st)], n, None) if isvar(rv) else NI

    @first('inverse')
    def _inv(I, st, rv, p, args, n, hint):
        if not isvar(rv, 'FpVar', 'Fq2Var'):
            return NI
        rec(st, 'nonzero', tuple((x.p, g) for x, g in leaves(val(rv))), leaves(val(rv))[0][0].kind, n=n)
        return Ok(var(rv.name, lift(lambda x: I.inv(x), val(rv)), kflag(rv)))

    @first('mul_by_inverse')
    def _mbi(I, st, rv, p, args, n, hint):
        if not isvar(rv, 'FpVar', 'Fq2Var'):
            return NI
        d = D(args[0], st)
        rec(st, 'nonzero', tuple((x.p, g) for x, g in leaves(val(d))), leaves(val(d))[0][0].kind, n=n)

        def one(x, z):
            if z.p == Poly.const(1):
                return x
            a, b = x.p.sign_norm().single_atom(), z.p.sign_norm().single_atom()
            if a and b and a[0] in ('proj.x', 'proj.y') and b[0] == 'proj.z' and a[1] == b[1]:
                return Alg(Poly.atom(('aff' + a[0][4:], a[1])).scale(1 if x.p.sign_norm() == x.p else -1), x.kind)
            return Alg(x.p.mul(I.inv(z).p), x.kind)
        return Ok(var(rv.name, lift(one, val(rv), val(d)), kflag(rv, d)))

    # ---------------------------------------------------------- points
    def newpoint(I, st, a, n, h, i):
        w = target(i, n)
        if w not in ('G1Var', 'G2Var') or len(a) != 3:
            if w == 'Fq2Var' and len(a) == 2:
                c0, c1 = [val(D(x, st)) for x in a]
                return var('Fq2Var', Alg(Poly.atom(('ext', c0.p, c1.p)), 'F2'))
            return unknownnew(I, st, a, n, h, i)
        x, y, z = [val(D(v, st)) for v in a]
        if not all(isinstance(v, Alg) for v in (x, y, z)):
            raise Undecided('point from gated coordinates')
        g = w[:2]
        ax, ay, az = [v.p.single_atom() for v in (x, y, z)]
        if isinstance(ax, tuple) and ax[0] == 'aff.x' and z.p == Poly.const(1):
            q = ax[1]
            for s in (1, -1):
                if coord(Alg(q.scale(s), g + 'a'), 'y').p == y.p:
                    return var(w, Alg(q.scale(s), g + 'a'))
        if isinstance(ax, tuple) and ax[0] == 'proj.x':
            q = ax[1]
            for s in (1, -1):
                if coord(Alg(q.scale(s), g), 'y').p == y.p and coord(Alg(q, g), 'z').p == z.p:
                    return var(w, Alg(q.scale(s), g))
        return var(w, asym(('point', g, x.p, y.p, z.p), g + ('a' if z.p == Poly.const(1) else '')))
    oldnew = {k: F.get(k) for k in ('G1Var::new', 'G2Var::new', 'Fq2Var::new', 'ProjectiveVar::new', 'QuadExtVar::new')}

    def unknownnew(I, st, a, n, h, i):
        raise Undecided('constructor of a circuit variable')
    for k in oldnew:
        F[k] = newpoint

    @first('to_affine')
    def _toaff(I, st, rv, p, args, n, hint):
        if isvar(rv, 'G1Var', 'G2Var') and isinstance(val(rv), Alg):
            return Ok(var(rv.name, Alg(val(rv).p, rv.name[:2] + 'a'), kflag(rv)))
        return NI

    def smul(I, st, rv, p, args, n, hint, be=False):
        if not isvar(rv, 'G1Var', 'G2Var'):
            return NI
        b = D(args[0], st)
        b = stdlib.seq_of(I, b, st) if not isinstance(b, Seq) else b
        bits = [x for x in b.items()]
        if be:
            bits = bits[::-1]
        if all(isinstance(x, Bool) and x.b <= 1 for x in bits):
            k = sum(x.b << j for j, x in enumerate(bits))
            q = Poly.atom('cofactor') if k == COFACTOR and rv.name == 'G1Var' else Poly.const(k)
        else:
            q = Poly.of({})
            for j, x in enumerate(bits):
                q = q.add(boolpoly(x.b).scale(1 << j))
        return Ok(var(rv.name, lift(lambda x: Alg(q.mul(x.p), BASE[x.kind]), val(rv))))
    first('scalar_mul_le')(smul)

    def cofactor(I, st, t, n):
        s = str(t)
        if 'G2' in s or 'g2' in s:
            return Term('cofactor limbs G2')
        return Seq([Int('u64', v=COFACTOR & (1 << 64) - 1), Int('u64', v=COFACTOR >> 64)], 'slice')
    F['const *::COFACTOR'] = cofactor

    def limbs(be, trim):
        def f(I, st, a, n, h, i):
            s = D(a[0], st)
            if not isinstance(s, Seq):
                raise Undecided('bits of %s' % show(s)[:60])
            b = [mkbool(x) for w in s.items() for x in w.tobits(64)]
            if trim:
                while b and b[-1].b == 0:
                    b.pop()
            return stdlib.to_iter(I, Seq(b[::-1] if be else b), st, n)
        return f
    F['BitIteratorLE::new'], F['BitIteratorBE::new'] = limbs(False, False), limbs(True, False)
    F['BitIteratorLE::without_trailing_zeros'], F['BitIteratorBE::without_leading_zeros'] = limbs(False, True), limbs(True, True)

    # ---------------------------------------------------------- pairings
    def prep(g):
        def f(I, st, a, n, h, i):
            v = D(a[0], st)
            if not isvar(v, g + 'Var') or not isinstance(val(v), Alg):
                raise Undecided('preparing %s' % show(v)[:60])
            return Ok(var(g + 'PreparedVar', val(v), kflag(v)))
        return f
    F['*::prepare_g1'], F['*::prepare_g2'] = prep('G1'), prep('G2')

    def prods(form):
        def f(I, st, a, n, h, i):
            p, q = D(a[0], st), D(a[1], st)
            p = p if isinstance(p, Seq) else Seq([p])
            q = q if isinstance(q, Seq) else Seq([q])
            if len(p.items()) != len(q.items()):
                rec(st, 'unequal pairing lists', len(p.items()), len(q.items()), n=n)
            t = Poly.of({})
            for x, y in zip(p.items(), q.items()):
                if not (isvar(x, 'G1PreparedVar') and isvar(y, 'G2PreparedVar')):
                    raise Undecided('pairing of %s' % show(x)[:60])
                t = t.add(pairing_poly(val(x).p, val(y).p))
            t = multilin(t)
            return Ok(var('GTVar', Alg(t, form)))
        return f
    F['*::product_of_pairings'] = wrapnative(F.get('*::product_of_pairings'), prods('GT'), I)
    F['*::pairing'] = wrapnative(F.get('*::pairing'), prods('GT'), I)
    F['*::miller_loop'] = wrapnative(F.get('*::miller_loop'), prods('ML'), I)
    pfe = F.get('*::final_exponentiation')

    def fe(I, st, a, n, h, i):
        v = D(a[0], st)
        if isvar(v, 'GTVar'):
            return Ok(var('GTVar', Alg(val(v).p, 'GT')))
        return pfe(I, st, a, n, h, i)
    F['*::final_exponentiation'] = fe

    # ---------------------------------------------------------- hashes
    @first('parameters')
    def _b2par(I, st, rv, p, args, n, hint):
        if isinstance(rv, Struct) and rv.name.endswith('Blake2sWithParameterBlock'):
            return Term('blake2s parameters', (rv,))
        return NI

    def b2params(v):
        f = v.f
        z = lambda k: D2(f[k])
        D2 = lambda x: x
        xl = f['xof_digest_length']
        no = f['node_offset']
        for x in (xl, no, f['digest_length']):
            if not isinstance(x, Int) or x.v is None:
                raise Undecided('symbolic hash parameters')
        if f['key_length'] != Int('u8', v=0):
            raise Undecided('keyed hash')
        return Opq('b2params', hash_length=Int('u8', v=f['digest_length'].v), key=Seq((), 'slice'),
                   salt=stdlib.b2pad(f['salt'], 8), personal=stdlib.b2pad(f['personalization'], 8),
                   fanout=f['fan_out'], max_depth=f['depth'], max_leaf_length=f['leaf_length'],
                   node_offset=Int('u64', v=no.v | xl.v << 32), node_depth=f['node_depth'],
                   inner_hash_length=Int('usize', v=f['inner_length'].v) if isinstance(f['inner_length'], Int) and f['inner_length'].v is not None else f['inner_length'],
                   last_node=FALSE)

    @fn('evaluate_blake2s_with_parameters', 'constraints::evaluate_blake2s_with_parameters')
    def _blake(I, st, a, n, h, i):
        s, p = D(a[0], st), D(a[1], st)
        if not (isinstance(p, Term) and p.op == 'blake2s parameters') or not isinstance(s, Seq):
            raise Undecided('hash parameters %s' % show(p)[:60])
        bits = s.items()
        if len(bits) % 8:
            I.panic(st, 1, 'hash input of %d bits' % len(bits), n)
        by = Seq([Int('u8', bits=[b.b for b in bits[j:j + 8]]) for j in range(0, len(bits), 8)], 'slice')
        d = stdlib.b2bytes(Opq('b2hash', params=b2params(p.a[0]), data=by)).items()
        ob = [Bool(b) for x in d for b in x.tobits(8)]
        rec(st, 'hash', Seq(ob), n=n)
        return Ok(Seq([Struct('UInt32', {'bits': Seq(ob[j:j + 32])}) for j in range(0, len(ob), 32)]))

    def gadget_eval(I, st, a, n, h, i):
        m_ = D(a[1], st)
        if isinstance(m_, Seq) and (any(isinstance(x, Struct) and x.name == 'UInt8' for x in m_.e)):
            p = D(a[0], st)
            by = Seq([bits_int(x.f['bits'].e) for x in m_.items()])
            key = ('crh', HK(p), HK(by))
            return Ok(var('AffineVar', asym(key, 'Ea')))
        return None
    I.gadget_eval = gadget_eval

    # ---------------------------------------------------------- proofs inside the circuit
    F['BooleanInputVar::new'] = lambda I, st, a, n, h, i: Struct('BooleanInputVar', {'v': D(a[0], st)})

    def gverify(I, st, a, n, h, i):
        v = [D(x, st) for x in a]
        if len(v) == 3 and isinstance(v[1], Struct) and v[1].name == 'BooleanInputVar':
            key = ('inner proof', HK(v[0]), HK(v[1]), HK(v[2]))
            rec(st, 'inner', v[0], v[1].f['v'], v[2], Bool(bdd.atom(key)), n=n)
            return Ok(Bool(bdd.atom(key)))
        raise Undecided('verify of %s' % show(v[0])[:60])
    F['Groth16VerifierGadget::verify'] = gverify
    I.rec = rec


def wrapnative(prev, f, I):
    def g(I, st, a, n, h, i):
        x = I.deref_deep(a[0], st)
        y = x.items()[0] if isinstance(x, Seq) and not x.has_seg() and x.e else x
        if isvar(y):
            return f(I, st, a, n, h, i)
        if isinstance(x, Seq) and not x.e and i.get('tty') is not None and 'Var' in str(i['tty'][1:3]):
            return f(I, st, a, n, h, i)
        if prev is None:
            raise Undecided('pairing')
        return prev(I, st, a, n, h, i)
    return g


from interp import Dead as DeadT
