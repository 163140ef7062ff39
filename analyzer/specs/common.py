"""shared construction helpers for the specifications"""
import bdd
from values import *
from interp import State, Dead
from framework import Missing
import arklib
from arklib import pairing_poly


def find(I, path, kind=None):
    d = I.prog.find(path)
    if d is None or (kind is not None and getattr(d, 'kind', None) != kind):
        raise Missing(path)
    return d


def tyof(d):
    return ('path', d.path, (), d)


def const_bytes(I, path):
    d = find(I, path)
    v = I.const(d)
    if not isinstance(v, Seq):
        raise Undecided('constant %s' % path)
    return v


def mk(I, path, v, st=None):
    """value of a repository type built through its public From conversion"""
    d = find(I, path)
    st = st or State({}, 1)
    r = I.from_conv(v, tyof(d), st, None)
    if isinstance(r, Term):
        raise Missing('From conversion into %s' % path)
    return r


def inner(I, v):
    """the algebraic value behind a wrapper type"""
    k = 0
    while isinstance(v, Struct) and len(v.f) == 1 and k < 4:
        v = next(iter(v.f.values()))
        k += 1
    return v


def pk(I, a, st=None):
    return mk(I, 'bls_crypto::PublicKey', a, st)


def sig(I, a, st=None):
    return mk(I, 'bls_crypto::Signature', a, st)


def sk(I, a, st=None):
    return mk(I, 'bls_crypto::PrivateKey', a, st)


def trait_sym(I, path, name):
    t = find(I, path)
    return Term(name, (name,), ('impl', (t,)))


def hasher(I, name='hash_to_curve'):
    return trait_sym(I, 'bls_crypto::HashToCurve', name)


def h2c(I, H, dom, msg, extra):
    """uninterpreted result of H.hash(domain, message, extra_data)"""
    t = find(I, 'bls_crypto::HashToCurve')
    fd = t.extra['fns'].get('hash')
    if fd is None:
        raise Missing('HashToCurve::hash')
    return I.opaque_call(fd, [H, dom, msg, extra], H.ty, {}, State({}, 1), None)


def err_leaf(x):
    return isinstance(x, Enum) and x.var in ('Err', 'None')


def and_then(I, r, f):
    """Result/Option chaining; errors of r are required to be errors, of any content"""
    out = []
    for x, g in leaves(r):
        if err_leaf(x):
            out.append((Err(ANY), g))
        else:
            for y, gy in leaves(f(x.e[0])):
                out.append((y, bdd.and_(g, gy)))
    return gated(out)


def blserr(I, var, *e):
    d = find(I, 'bls_crypto::BLSError')
    if not any(v['n'] == var for v in d.node['vs']):
        raise Missing('BLSError::' + var)
    return Err(Enum(d.path, var, e))


def cond_result(c, ok, bad):
    if c == 1:
        return ok
    if c == 0:
        return bad
    return gated([(ok, c), (bad, bdd.neg(c))])


def G1(n):
    return asym(n, 'G1')


def G2(n):
    return asym(n, 'G2')


def pairing_eq(I, pairs):
    """diagram of: product of the pairings is one"""
    t = Poly.of({})
    for a, b, s in pairs:
        t = t.add(pairing_poly(a.p, b.p).scale(s))
    return I.eq0(t)


G2GEN = lambda: asym('G2gen', 'G2')
G1GEN = lambda: asym('G1gen', 'G1')


def method(c, I, path, name, trait=None):
    d = find(I, path)
    return c.method(I, d.path, name, trait)


def call_m(c, I, path, name, args, st=None, trait=None, subst=None):
    d = find(I, path)
    fd = c.method(I, d.path, name, trait)
    return c.run(I, fd, args, tyof(d), subst, st)


def place(I, st, v):
    """a caller-owned variable, passed by mutable reference"""
    return Ref(I.alloc(st, v, True))


def crh_models(I, total=False):
    """an arbitrary fixed-length CRH: setup and evaluation are functions of their arguments and may fail"""
    def setup(_, st, a, n, h, i):
        r = I.deref(a[0], st)
        if not (isinstance(r, Opq) and r.cls == 'rng'):
            raise Undecided('setup randomness %s' % show(r)[:80])
        key = ('crh setup', I.tykey(i['tty']) if i.get('tty') is not None else None, r.f['src'], r.f['ctr'])
        if isinstance(a[0], Ref):
            I.write(st, (a[0].loc, a[0].path), r.with_(ctr=r.f['ctr'] + 1))
        if total:
            return Ok(Term('crh parameters', key))
        ok = bdd.atom(('ok', key))
        return gated([(Ok(Term('crh parameters', key)), ok), (Err(Term('crh error', key)), bdd.neg(ok))])

    def evaluate(_, st, a, n, h, i):
        r = I.gadget_eval(I, st, a, n, h, i)
        if r is not None:
            return r
        p, m = I.deref_deep(a[0], st), I.deref_deep(a[1], st)
        key = ('crh', HK(p), HK(m))
        ok = bdd.atom(('ok', key))
        return gated([(Ok(asym(key, 'E')), ok), (Err(Term('crh error', key)), bdd.neg(ok))])
    I.F['*::setup'] = setup
    I.F['*::evaluate'] = evaluate


TAI = ('bls_crypto::hash_to_curve::try_and_increment::TryAndIncrement', 'hash_with_attempt')
TAI2 = ('bls_crypto::hash_to_curve::try_and_increment_cip22::TryAndIncrementCIP22', 'hash_with_attempt_cip22')


def scheme_of(I, v):
    """(hash-to-curve scheme, inner hasher) of a hasher value"""
    if isinstance(v, Opq) and v.cls == 'lazy':
        st = State({}, 1)
        v = I.deref_deep(I.force(I, v, st, {}), st)
    k = v.name.rpartition('::')[2] if isinstance(v, Struct) else '?'
    found = set()

    def walk(x, d):
        if isinstance(x, Opq) and x.cls == 'lazy':
            st = State({}, 1)
            x = I.deref_deep(I.force(I, x, st, {}), st)
        if isinstance(x, Struct) and d < 4:
            n = x.name.rpartition('::')[2]
            if n.endswith('Hasher'):
                found.add(n)
            for y in x.f.values():
                walk(y, d + 1)
    walk(v, 0)
    if len(found) != 1:
        raise Undecided('hasher of %s' % show(v)[:120])
    return k, found.pop()


def h2c_value(scheme, dom, msg, extra):
    key = ('h2c',) + scheme + (HK(dom), HK(msg), HK(extra))
    ok = bdd.atom(('ok', key))
    return gated([(Ok(asym(key, 'G1')), ok), (Err(Term('h2c error', key)), bdd.neg(ok))])


def opaque_h2c(c, I, log=None):
    """both hash-to-curve schemes as unknown functions of scheme, domain, message and extra data"""
    crh_models(I, True)
    for path, att in (TAI, TAI2):
        d = find(I, path)

        def hook(_, st, a, n, name='hash'):
            a = [I.deref_deep(x, st) for x in a]
            s = scheme_of(I, a[0])
            if log is not None:
                log.append((s, a[1:], st.pc))
            r = h2c_value(s, *a[1:])
            if name == 'hash':
                return r
            key = ('h2c counter',) + s + tuple(HK(x) for x in a[1:])
            return lift(lambda x: Ok(Tup([x.e[0], isym(key, 'usize')])) if x.var == 'Ok' else x, r)
        I.hooks[(d.path, 'hash')] = hook
        I.hooks[(d.path, att)] = lambda _, st, a, n, h=hook: h(_, st, a, n, 'attempt')


CIP22 = ('TryAndIncrementCIP22', 'CompositeHasher')
COMPOSITE = ('TryAndIncrement', 'CompositeHasher')
DIRECT = ('TryAndIncrement', 'DirectHasher')
