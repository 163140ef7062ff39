"""C01: which domain every operation hashes under"""
import bdd
from values import *
from interp import State
from registry import spec
from framework import Missing, Violated
from specs.common import *
from specs import epoch as ep, ffi
from specs.ffi import X, SIGS, SK, PK, SG, FLAGS, DIRECT, HS, flagname, record, buffer, UT
from specs.circuit import CONFIGS, Whole
from specs.epochcircuit import found, exposed, h2bits_circuit, h2g

BATCH = 'bls_crypto::bls::Batch'
NMS = {'SIG': 'signature', 'POP': 'proof-of-possession', 'OUT': 'output'}


def doms(I):
    return {n: const_bytes(I, 'bls_crypto::%s_DOMAIN' % n) for n in NMS}


def fixed(c, cfg):
    I = c.interp(*cfg)
    D = doms(I)
    for n, v in D.items():
        bs = v.items()
        if any(not isinstance(b, Int) or b.v is None for b in bs):
            raise Undecided('value of %s_DOMAIN' % n)
        if len(bs) != 8:
            return 'the %s domain has %d bytes; the hashes take 8' % (NMS[n], len(bs))
    vs = {n: tuple(b.v for b in v.items()) for n, v in D.items()}
    for a in vs:
        for b in vs:
            if a < b and vs[a] == vs[b]:
                return 'the %s and the %s domain are the same bytes %r' % (NMS[a], NMS[b], bytes(vs[a]))
    return None


def under(x, dom, what, some=True, noextra=False):
    """every hash to the curve made so far is under this domain"""
    c = x.c
    live = [(s, a, g) for s, a, g in x.seen if g != 0]
    if some and not live:
        if x.I.unknown:
            raise Undecided('unmodelled %s' % sorted(map(str, x.I.unknown))[:3])
        return '%s hashes nothing to the curve' % what
    for s, a, g in live:
        e = c.same(a[0], dom, g, 'the domain %s hashes under (%s)' % (what, '/'.join(s)))
        if e:
            return e
        if noextra:
            e = c.same(Seq(a[2].e if isinstance(a[2], Seq) else a[2], 'slice'), Seq((), 'slice'), g, 'the extra data of ' + what)
            if e:
                return e
    return None


def op(c, cfg, scheme, which):
    x = X(c, cfg)
    D = doms(x.I)
    H = x.hasher(scheme)
    m, ex = x.data('message'), x.data('extra')
    if which == 'sign':
        x.lib(SK, 'sign', [x.sk('s'), m, ex, H])
    elif which == 'sign_pop':
        x.lib(SK, 'sign_pop', [x.sk('s'), m, H])
    elif which == 'verify':
        x.lib(PK, 'verify', [x.pk('pk'), m, ex, x.sig('sig'), H])
    elif which == 'verify_pop':
        x.lib(PK, 'verify_pop', [x.pk('pk'), m, x.sig('sig'), H])
    elif which in ('Batch::verify', 'Batch::verify_each'):
        st = State({}, 1)
        b, st = call_m(c, x.I, BATCH, 'new', [m, ex], st)
        r = place(x.I, st, b)
        for i in range(2):
            call_m(c, x.I, BATCH, 'add', [r, x.pk('k%d' % i), x.sig('s%d' % i)], st)
        call_m(c, x.I, BATCH, which.split('::')[1], [r, H], st)
    elif which == 'batch_verify':
        dom = bytes_sym('domain', 8)
        ms = Seq([Tup([x.data('data%d' % i), x.data('extra%d' % i)]) for i in range(2)], 'slice')
        x.lib(SG, 'batch_verify', [x.sig('sig'), Seq([x.pk('k0'), x.pk('k1')], 'slice'), dom, ms, H])
        return under(x, dom, 'Signature::batch_verify (given a domain)')
    pop = which.endswith('pop')
    return under(x, D['POP' if pop else 'SIG'], which, True, pop)


def cfun(c, name, f):
    """an exported C function"""
    x = X(c)
    D = doms(x.I)
    w = f(x)
    pop = name in ('sign_pop', 'verify_pop') or name.endswith('/pop')
    if name.startswith(('hash_crh', 'hash_direct_first_step')):
        return x.contract(w[0] if isinstance(w, tuple) else w)
    may = isinstance(w, tuple) and w[1] is None or name.endswith('/0')
    return under(x, D['POP' if pop else 'SIG'], name, not may, pop)


def strict(c, f):
    x = X(c)
    D = doms(x.I)
    recs = []
    for j in range(2):
        ks, kl = x.arr([x.pk('k%d.0' % j)], 'usize')
        ss, sl = x.arr([x.sig('s%d.0' % j)], 'usize')
        recs.append(record(x, UT + 'BatchMessageFFI', data=buffer(x, 'data%d' % j), extra=buffer(x, 'extra%d' % j), public_keys=ks, public_keys_len=kl, signatures=ss, signatures_len=sl))
    res = Ref(x.I.alloc(x.st, Seq([FALSE] * 2, 'slice'), True), (), True)
    x.call(SIGS + 'batch_verify_strict', [Ref(x.I.alloc(x.st, Seq(recs, 'slice'), True), (), True), Int('usize', v=2), mkbool(f[0]), mkbool(f[1]), res])
    return under(x, D['SIG'], 'batch_verify_strict', FLAGS[f] is not None)


def personals(v):
    """the personalisations of every Blake2s digest a value is made of"""
    out, todo, seen = [], [v], set()
    while todo:
        y = todo.pop()
        if isinstance(y, (int, str, float, bytes, bool, type(None))) or id(y) in seen:
            continue
        seen.add(id(y))
        if isinstance(y, tuple):
            if y and y[0] == 'blake2s':
                p = dict(z for z in y[1:] if isinstance(z, tuple) and len(z) == 2 and isinstance(z[0], str))
                out.append(p.get('personal', Seq((), 'slice')))
            if len(y) == 2 and y[0] == 'b' and isinstance(y[1], int):
                todo += list(bdd.support(y[1]))
            else:
                todo += list(y)
        elif isinstance(y, HK):
            todo.append(y.v)
        elif isinstance(y, Poly):
            todo += list(y.atoms())
        elif isinstance(y, Alg):
            todo.append(y.p)
        elif isinstance(y, Bool):
            todo += list(bdd.support(y.b))
        elif isinstance(y, Int):
            for b in y.bits or ():
                todo += list(bdd.support(b))
        elif isinstance(y, Gated):
            for z, g in y.g:
                todo.append(z)
        elif isinstance(y, Seq):
            todo += list(y.e)
        elif isinstance(y, Seg):
            todo.append(y.t)
        elif isinstance(y, (Enum, Tup)):
            todo += list(y.e)
        elif isinstance(y, (Struct, Opq)):
            todo += list(y.f.values())
        elif isinstance(y, Term):
            todo.append(y.a)
    return out


def digest(c, cfg, which):
    I = c.interp(*cfg)
    opaque_h2c(c, I)
    ep.hook_pk(I)
    D = doms(I)
    if which == 'hash_first_last_epoch_block':
        v, _ = c.run(I, c.fn(I, 'epoch_snark::epoch_block::' + which), [ep.block(I, 1, 2, tag='a.'), ep.block(I, 2, 2, tag='b.')])
    else:
        d = find(I, ep.EB)
        v, _ = c.run(I, c.method(I, d.path, which), [ep.block(I, 1, 2)], tyof(d))
    if v is None:
        return '%s never returns' % which
    ps = personals(v)
    if not ps:
        if I.unknown:
            raise Undecided('unmodelled %s' % sorted(map(str, I.unknown))[:3])
        return '%s contains no digest' % which
    w = Seq([x for x in D['OUT'].items()], 'slice')
    import stdlib
    for p in ps:
        e = c.same(p, stdlib.b2pad(w, 8), 1, 'the domain of the digest in ' + which)
        if e:
            return e
    return None


def signed(c, cfg):
    x = X(c, cfg)
    ep.hook_pk(x.I)
    d = find(x.I, ep.EB)
    c.run(x.I, c.method(x.I, d.path, 'hash_to_g1_cip22'), [ep.block(x.I, 1, 2)], tyof(d))
    return under(x, doms(x.I)['SIG'], 'EpochBlock::hash_to_g1_cip22')


def native_calls(c, cfg):
    """hashes to the curve made while the circuit's witnesses are computed"""
    from specs import circuit as cc
    x = X(c, cfg)
    I = x.I
    I.wmode = 'S'
    cc.hook_helpers(c, I)
    d = find(I, cc.VSU)
    c.run(I, c.method(I, d.path, 'generate_constraints'), [cc.update(I, 1, 2, False), cc.CS], tyof(d))
    return under(x, doms(I)['SIG'], 'the witness computation of the circuit')


@spec('C01', 90,
      'Every public operation is interpreted with unknown keys, messages and lengths while the arguments of each hash to the curve it reaches, and the '
      'personalisation of each digest in its result, are recorded with their path conditions; on every path the domain must be the prescribed constant '
      '(and the extra data of a proof of possession empty). In the circuit the constraints must tie the message points to the hash under the signature '
      'domain and the public inputs to the digests under the output domain. The three constants must be different and 8 bytes long.',
      ['distinct personalisations give independent hash functions'])
def c01(c):
    c.partition = {'configuration': ['compat', 'no features'], 'hash to curve': ['/'.join(s) for s in HS], 'batches': 'two entries'}
    for cfg in CONFIGS:
        nm = 'compat' if cfg else 'no features'
        c.ob('three different domains of 8 bytes [%s]' % nm, lambda: fixed(c, cfg))
        for s in HS:
            for w in ('sign', 'verify', 'sign_pop', 'verify_pop', 'Batch::verify', 'Batch::verify_each', 'batch_verify'):
                c.pob('%s with %s [%s]' % (w, '/'.join(s), nm), lambda cfg=cfg, s=s, w=w: op(c, cfg, s, w))
        for w in ('blake2_first_epoch_cip22', 'blake2_last_epoch_with_aggregated_pk_cip22', 'hash_first_last_epoch_block'):
            c.pob('%s [%s]' % (w, nm), lambda cfg=cfg, w=w: digest(c, cfg, w))
        c.pob('hash_to_g1_cip22 [%s]' % nm, lambda cfg=cfg: signed(c, cfg))
        c.pob('witnesses of the circuit [%s]' % nm, lambda cfg=cfg: native_calls(c, cfg))
        c.pob('helper circuit [%s]' % nm, lambda cfg=cfg: h2bits_circuit(c, cfg, 1, 384))
        for q in (True, False):
            c.pob('hash to group gadget, %s constraints [%s]' % ('with' if q else 'without', nm), lambda cfg=cfg, q=q: h2g(c, cfg, 1, 1, q))
    for name, f in ffi.cases(c):
        if name.startswith(('sign_', 'verify_', 'batch_verify', 'hash_')):
            c.pob('C ' + name, lambda name=name, f=f: cfun(c, name, f))
    for f in FLAGS:
        c.pob('C batch_verify_strict/' + flagname(f), lambda f=f: strict(c, f))
    for s in ((('compat',), 2, 2, False), ((), 2, 1, False), (('compat',), 2, 2, True)) + ((((), 2, 3, False),) if c.thorough else ()):
        def whole(s=s):
            W = Whole(c, *s)
            sn = '%d validators, %d transitions%s [%s]' % (s[1], s[2], ', helper proof' if s[3] else '', 'compat' if s[0] else 'no features')
            for k in range(1, W.ne + 1):
                c.ob('circuit: transition %d is hashed under the signature domain/%s' % (k, sn), lambda k=k: found(W, k))
            c.ob('circuit: public inputs are digests under the output domain/' + sn, lambda: exposed(W))
            return None
        c.pob('circuit synthesis %s' % (s,), whole)
