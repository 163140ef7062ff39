"""C30: the prover's padding, and the shape of the circuit at setup and at proving"""
import bdd, arklib
from values import *
from interp import State
from registry import spec
from framework import Missing, Violated
from specs.common import *
from specs import epoch as ep
from specs.circuit import CONFIGS, VSU, hook_helpers, CS
from specs.epochcircuit import refused

PROVE = 'epoch_snark::api::prover::prove'
SETUPF = 'epoch_snark::api::setup::trusted_setup'
PARAMS = 'epoch_snark::api::setup::Parameters'
HTB = 'epoch_snark::gadgets::hash_to_bits::HashToBits'
MAXV = 3


def provers(I, log):
    """the Groth16 operations as unknown functions; what they are given is recorded"""
    def prove(_, st, a, n, h, i):
        cir, par = I.deref_deep(a[0], st), I.deref_deep(a[1], st)
        k = ('groth16 proof', len(log))
        log.append((cir, par, st.pc, n))
        ok = bdd.atom(('ok', k))
        return gated([(Ok(Term('groth16 proof', k)), ok), (Err(Term('synthesis error', k)), bdd.neg(ok))])

    def gen(_, st, a, n, h, i):
        cir = I.deref_deep(a[0], st)
        k = ('groth16 key', len(log))
        log.append((cir, None, st.pc, n))
        ok = bdd.atom(('ok', k))
        return gated([(Ok(key(k)), ok), (Err(Term('synthesis error', k)), bdd.neg(ok))])
    for nm in ('create_proof_no_zk', 'create_random_proof', 'create_proof'):
        I.F[nm] = I.F['ark_groth16::' + nm] = prove
    I.F['generate_random_parameters'] = I.F['ark_groth16::generate_random_parameters'] = gen


def key(k):
    return Struct('ProvingKey', {'vk': Term('verifying key', (k,))})


def data(k, n):
    return ['pk%d.%d' % (k, j) for j in range(n)]


def blk(I, k, n, ent):
    d = find(I, ep.EB)
    e = lambda x: Some(bytes_sym(x + str(k), 16)) if ent else NONE
    return Struct(d.path, dict(index=bsym('index%d' % k, 'u16'), round=bsym('round%d' % k, 'u8'), epoch_entropy=e('ee'), parent_entropy=e('pe'),
                               maximum_non_signers=bsym('maxns%d' % k, 'u32'), maximum_validators=Int('usize', v=n),
                               new_public_keys=Seq([pk(I, asym(x, 'G2')) for x in data(k, n)])))


def transition(I, k, n, ent):
    d = find(I, 'epoch_snark::epoch_block::EpochTransition')
    return Struct(d.path, {'block': blk(I, k, n, ent), 'aggregate_signature': sig(I, asym('sig%d' % k, 'G1')),
                           'bitmap': Seq([Bool(bdd.atom('signed%d.%d' % (k, j))) for j in range(n)])})


def expected(I, k, n, ent):
    e = lambda x: Some(bytes_sym(x + str(k), 16)) if ent else NONE
    return {'index': Some(bsym('index%d' % k, 'u16')), 'round': Some(bsym('round%d' % k, 'u8')), 'epoch_entropy': e('ee'), 'parent_entropy': e('pe'),
            'maximum_non_signers': bsym('maxns%d' % k, 'u32'), 'public_keys': Seq([Some(asym(x, 'G2')) for x in data(k, n)])}


def run_prove(c, cfg, t, mx, nv, helper, ent=True):
    I = c.interp(*cfg)
    opaque_h2c(c, I)
    log = []
    provers(I, log)
    d = c.fn(I, PROVE)
    P = find(I, PARAMS)
    par = Struct(P.path, {'epochs': key('epochs'), 'hash_to_bits': Some(key('hash')) if helper else NONE})
    r, st = c.run(I, d, [par, Int('u32', v=nv), blk(I, 0, nv, ent), Seq([transition(I, k, nv, ent) for k in range(1, t + 1)], 'slice'), Int('usize', v=mx)])
    return I, r, st, log


def fld(v, *names):
    for n in names:
        if isinstance(v, Struct) and n in v.f:
            return v.f[n]
    raise Undecided('no field %s in %s' % (names[0], show(v)[:80]))


def known(I):
    if I.unknown:
        raise Undecided('unmodelled %s' % sorted(map(str, I.unknown))[:3])


def split(log):
    out = [x for x in log if isinstance(x[0], Struct) and x[0].name.endswith('ValidatorSetUpdate')]
    inn = [x for x in log if isinstance(x[0], Struct) and x[0].name.endswith('HashToBits')]
    if len(out) + len(inn) != len(log):
        raise Undecided('proof of %s' % [show(x[0])[:60] for x in log])
    return out, inn


def is_dummy(e):
    i = fld(fld(e, 'epoch_data'), 'index')
    return isinstance(i, Enum) and i.var == 'Some' and isinstance(i.e[0], Int) and not any(i.e[0].tobits(16))


def one(I, v, what):
    v = I.deref_deep(v, State({}, 1))
    ls = [x for x, g in leaves(v) if g != 0]
    if len(ls) != 1:
        raise Undecided('%s depends on the data' % what)
    return ls[0]


def same_data(c, got, want, what):
    for f, w in want.items():
        e = c.same(fld(got, f), w, 1, '%s of %s' % (f, what))
        if e:
            return e
    return None


def padding(c, cfg, t, mx, nv, helper, ent):
    I, r, st, log = run_prove(c, cfg, t, mx, nv, helper, ent)
    what = '%d transitions, %d allowed' % (t, mx)
    if r is None:
        known(I)
        return 'proving %s always panics: %s' % (what, [p[1:] for p in I.panics][:1])
    x = c.panicfree(I, hashed(I, r), 'proving ' + what)
    if x:
        return x
    out, inn = split(log)
    if len(out) != 1:
        known(I)
        return 'proving %s makes %d proofs of the epoch circuit' % (what, len(out))
    cir, par, pc, where = out[0]
    k = log.index(out[0])
    e = c.same(par, key('epochs'), 1, 'the proving key of the epoch proof')
    if e:
        return e
    # the proof returned is the one made; success exactly if every proof succeeds
    okk = bdd.atom(('ok', ('groth16 proof', k)))
    oks = bdd.and_(*[bdd.atom(('ok', ('groth16 proof', j))) for j in range(len(log))])
    e = c.same(r, gated([(Ok(Term('groth16 proof', ('groth16 proof', k))), oks), (Err(ANY), bdd.neg(oks))]), hashed(I, r), 'the result of proving ' + what)
    if e:
        return e
    e = c.same(fld(cir, 'num_validators'), Int('u32', v=nv), 1, 'number of validators')
    if e:
        return e
    e = same_data(c, fld(cir, 'initial_epoch'), expected(I, 0, nv, ent), 'the initial epoch')
    if e:
        return e
    ups = one(I, fld(cir, 'epochs'), 'the list of transitions')
    if not isinstance(ups, Seq):
        raise Undecided('transitions %s' % show(ups)[:80])
    ups = [one(I, x, 'a transition') for x in ups.items()]
    if len(ups) != mx:
        known(I)
        return 'the circuit is given %d transitions; the parameters are for %d' % (len(ups), mx)
    real = [(i, x) for i, x in enumerate(ups) if not is_dummy(x)]
    if len(real) != t:
        known(I)
        return 'the circuit is given %d real transitions and %d dummies; required %d and %d' % (len(real), mx - len(real), t, mx - t)
    if real[-1][0] != mx - 1:
        return 'the last transition of the circuit is a dummy'
    for k, (i, x) in enumerate(real, 1):
        e = same_data(c, fld(x, 'epoch_data'), expected(I, k, nv, ent), 'real transition %d' % k)
        if e:
            return e
        e = c.same(fld(x, 'signed_bitmap'), Seq([Some(Bool(bdd.atom('signed%d.%d' % (k, j)))) for j in range(nv)]), 1, 'bitmap of real transition %d' % k)
        if e:
            return e
    for i, x in enumerate(ups):
        if is_dummy(x):
            k = next(k for k, (j, _) in enumerate(real, 1) if j > i)
            e = dummy(c, I, x, i, k, nv)
            if e:
                return e
    s = Poly.atom('G1gen').scale(mx - t)
    for k in range(1, t + 1):
        s = s.add(Poly.atom('sig%d' % k))
    e = c.same(fld(cir, 'aggregated_signature'), Some(Alg(s, 'G1')), 1, 'aggregated signature (of the transitions, and one generator per dummy)')
    if e:
        return e
    hh = one(I, fld(cir, 'hash_helper'), 'the helper')
    if not helper:
        e = c.same(hh, NONE, 1, 'the helper proof (the parameters have no helper key)')
        if e or inn:
            return e or 'a helper proof is made although the parameters have no key for it'
        return None
    if len(inn) != 1:
        return '%d helper proofs are made' % len(inn)
    j = log.index(inn[0])
    e = c.same(inn[0][1], key('hash'), 1, 'the proving key of the helper proof')
    if e:
        return e
    if hh.var != 'Some':
        return 'the helper proof is not given to the circuit'
    h = one(I, hh.e[0], 'the helper')
    return (c.same(fld(h, 'proof'), Term('groth16 proof', ('groth16 proof', j)), 1, 'the helper proof given to the circuit')
            or c.same(fld(h, 'verifying_key'), Term('verifying key', ('hash',)), 1, 'the helper verifying key given to the circuit'))


def hashed(I, r):
    """the compression hash succeeds on every input given to it"""
    s = set()
    for g in [g for g, _, _ in I.panics] + [g for x, g in leaves(r)]:
        s |= {a for a in bdd.support(g) if isinstance(a, tuple) and a[0] == 'ok' and a[1][0] == 'crh'}
    return bdd.and_(*[bdd.atom(a) for a in s])


def dummy(c, I, x, i, k, nv):
    d = fld(x, 'epoch_data')
    what = 'the dummy at position %d' % i
    ks = one(I, fld(d, 'public_keys'), 'dummy keys')
    if len(ks.items()) != nv:
        return '%s has %d keys; the circuit has %d validators' % (what, len(ks.items()), nv)
    for y in ks.items():
        y = one(I, y, 'dummy key')
        if not (isinstance(y, Enum) and y.var == 'Some'):
            return '%s has a key without value' % what
        if isinstance(y.e[0], Alg) and not y.e[0].p.m:
            return '%s has the identity as a key, which has no affine coordinates' % what
    for f in ('index', 'round'):
        y = one(I, fld(d, f), f)
        if not (isinstance(y, Enum) and y.var == 'Some'):
            return '%s has no %s' % (what, f)
    for f in ('epoch_entropy', 'parent_entropy'):
        y = one(I, fld(d, f), f)
        if y.var == 'Some' and len(one(I, y.e[0], f).items()) != 16:
            return '%s has %d bytes of %s, 16 expected' % (what, len(y.e[0].items()), f)
    # signers are checked against the keys in force at that point, as those of transition k are: only its
    # bitmap is sure to avoid padding keys and to respect the limit
    return c.same(fld(x, 'signed_bitmap'), Seq([Some(Bool(bdd.atom('signed%d.%d' % (k, j)))) for j in range(nv)]), 1,
                  'bitmap of %s (checked against the keys and the limit in force for transition %d)' % (what, k))


def too_many(c, cfg, t, mx, helper):
    I, r, st, log = run_prove(c, cfg, t, mx, 2, helper)
    if r is not None:
        for cir, par, pc, where in log:
            if isinstance(cir, Struct) and cir.name.endswith('ValidatorSetUpdate'):
                ups = I.deref_deep(fld(cir, 'epochs'), st)
                if pc != 0 and isinstance(ups, Seq) and len(ups.items()) >= t:
                    return None     # nothing dropped; such a circuit does not fit the parameters
    e = refused(I, r, c, '%d transitions with room for %d' % (t, mx))
    return e


# ------------------------------------------------------------------ shape
def shape(c, I, v, path, known_setup):
    """what a synthesis allocates and constrains, in order, without values"""
    I.wmode = 'S'
    I.setup_known = known_setup
    hook_helpers(c, I)
    d = find(I, path)
    fd = c.method(I, d.path, 'generate_constraints')
    st = State({}, 1)
    r, st = c.run(I, fd, [v, CS], tyof(d), None, st)
    if r is None:
        known(I)
        raise Violated('synthesis %s always panics: %s' % ('at setup' if known_setup else 'at proving', [p[1:] for p in I.panics][:1]))
    e = c.panicfree(I, 1, 'synthesis %s' % ('at setup' if known_setup else 'at proving'))
    if isinstance(e, tuple):
        raise Undecided(e[1])
    ok = bdd.or_(*[g for x, g in leaves(r) if isinstance(x, Enum) and x.var == 'Ok'])
    out = []
    for g, kind, d, where in I.effects:
        if kind != 'r1cs' or d[0] == 'allocerr':
            continue
        if d[0] == 'alloc':
            out.append((('alloc', d[1][0], d[2]), where))
        else:
            out.append(((d[0], size(d)), where))
    return out, ok, e


def size(d):
    if d[0] in ('zero', 'nonzero'):
        return None
    return None


def run_setup(c, cfg, nv, ne, mns, helper):
    I = c.interp(*cfg)
    opaque_h2c(c, I)
    log = []
    provers(I, log)
    d = c.fn(I, SETUPF)
    r, st = c.run(I, d, [Int('usize', v=nv), Int('usize', v=ne), Int('usize', v=mns), Opq('rng', src='rng', ctr=0), mkbool(helper)])
    return I, r, st, log


def setup_keys(c, cfg, nv, ne, helper):
    I, r, st, log = run_setup(c, cfg, nv, ne, 1, helper)
    if r is None:
        known(I)
        return 'setup never returns'
    e = c.panicfree(I, 1, 'setup')
    if e:
        return e
    out, inn = split(log)
    if len(out) != 1 or len(inn) != (1 if helper else 0):
        known(I)
        return 'setup generates keys for %d epoch circuits and %d helper circuits' % (len(out), len(inn))
    k = log.index(out[0])
    K = lambda j: key(('groth16 key', j))
    P = find(I, PARAMS)
    oks = bdd.and_(*[bdd.atom(('ok', ('groth16 key', j))) for j in range(len(log))])
    want = Struct(P.path, {'epochs': K(k), 'hash_to_bits': Some(K(log.index(inn[0]))) if helper else NONE})
    e = c.same(r, gated([(Ok(want), oks), (Err(ANY), bdd.neg(oks))]), 1, 'the parameters returned')
    if e:
        return e
    hh = one(I, fld(out[0][0], 'hash_helper'), 'the helper')
    if helper:
        if hh.var != 'Some':
            return 'the epoch circuit is set up without the helper although the helper circuit is'
        return c.same(fld(one(I, hh.e[0], 'helper'), 'verifying_key'), Term('verifying key', (('groth16 key', log.index(inn[0])),)), 1, 'the helper key fixed at setup')
    return c.same(hh, NONE, 1, 'the helper of the epoch circuit at setup')


def compare(a, b, what):
    (sa, oka, ea), (sb, okb, eb) = a, b
    if oka != 1:
        return '%s: synthesis at setup can fail' % what
    if eb:
        return '%s: %s' % (what, eb)
    for i, (x, y) in enumerate(zip(sa, sb)):
        if x[0] != y[0]:
            return '%s: step %d is %s at setup (%s) but %s at proving (%s)' % (what, i, x[0], x[1], y[0], y[1])
    if len(sa) != len(sb):
        z = (sa if len(sa) > len(sb) else sb)[min(len(sa), len(sb))]
        return '%s: %d allocations and constraints at setup, %d at proving; the first unmatched is %s (%s)' % (what, len(sa), len(sb), z[0], z[1])
    return None


def shapes_agree(c, cfg, t, mx, nv, helper, ent):
    I, r, st, log = run_setup(c, cfg, nv, mx, 1, helper)
    J, r2, st2, log2 = run_prove(c, cfg, t, mx, nv, helper, ent)
    if r is None or r2 is None or not log or not log2:
        known(I)
        known(J)
        return 'setup or proving never reaches its circuit'
    a, b = split(log)[0], split(log2)[0]
    if len(a) != 1 or len(b) != 1:
        return '%d epoch circuits at setup, %d at proving' % (len(a), len(b))
    x = shape(c, I, a[0][0], VSU, True)
    y = shape(c, J, b[0][0], VSU, False)
    known(I)
    known(J)
    c.sample('epoch circuit %d validators, %d transitions: %d allocations and constraints at setup and at proving' % (nv, mx, len(x[0])))
    return compare(x, y, 'epoch circuit')


def helper_shapes(c, cfg, t, mx):
    I, r, st, log = run_setup(c, cfg, 2, mx, 1, True)
    J, r2, st2, log2 = run_prove(c, cfg, t, mx, 2, True)
    a, b = split(log)[1], split(log2)[1]
    if len(a) != 1 or len(b) != 1:
        known(I)
        known(J)
        return '%d helper circuits at setup, %d at proving' % (len(a), len(b))
    x = shape(c, I, a[0][0], HTB, True)
    y = shape(c, J, b[0][0], HTB, False)
    known(I)
    known(J)
    return compare(x, y, 'helper circuit')


@spec('C30', 40,
      'The prover is interpreted with symbolic transitions and the Groth16 prover as a recorder: the circuit it hands over must hold the initial '
      'epoch, the real transitions in order with their bitmaps, exactly the missing number of dummies, none of them last, each with the bitmap of '
      'the next real transition, and the aggregate of all signatures plus one generator per dummy, proved under the right keys. The circuits that setup '
      'and proving hand over are both synthesised and must allocate and constrain the same things in the same order.',
      ['Groth16 key generation and proving are functions of the circuit and the keys', 'the number of transitions is at least one'])
def c30(c):
    T = c.thorough
    grid = [(1, 1, 2), (1, 2, 2), (1, 4, 1), (2, 2, 2), (2, 3, 2), (2, 5, 3), (3, 3, 1), (3, 4, 2), (2, 24, 1), (9, 12, 1)] + ([(1, 6, 3), (4, 4, 2), (4, 7, 2), (5, 6, 1)] if T else [])
    grid += [g for n in c.sizes([], 60, 2, 2) for g in ((1, n, 1), (2, 2, n), (n, n, 1)) if g not in grid and (g[0] < 20 or T)]
    c.partition = {'transitions, allowed, validators': grid}
    for cfg in CONFIGS:
        nm = 'compat' if cfg else 'no features'
        for t, mx, nv in grid:
            for helper in (False, True):
                for ent in (True, False) if not helper else (True,):
                    c.pob('circuit handed to the prover: %d of %d transitions, %d validators%s%s [%s]' % (t, mx, nv, ', helper' if helper else '', '' if ent else ', no entropies', nm),
                          lambda cfg=cfg, t=t, mx=mx, nv=nv, helper=helper, ent=ent: padding(c, cfg, t, mx, nv, helper, ent))
        for t, mx in ((2, 1), (3, 1), (3, 2)):
            c.pob('%d transitions with room for %d [%s]' % (t, mx, nm), lambda cfg=cfg, t=t, mx=mx: too_many(c, cfg, t, mx, False))
        for nv, ne in ((1, 1), (2, 2), (3, 2)):
            for helper in (False, True):
                c.pob('setup of %d validators, %d transitions%s [%s]' % (nv, ne, ', helper' if helper else '', nm), lambda cfg=cfg, nv=nv, ne=ne, helper=helper: setup_keys(c, cfg, nv, ne, helper))
        for t, mx, nv in ((1, 1, 1), (2, 2, 2), (1, 3, 1)) + (((2, 4, 2), (3, 3, 3)) if T else ()):
            for helper in (False, True) if (mx, nv) != (2, 2) or T else (False,):
                c.pob('same shape at setup and at proving: %d of %d transitions, %d validators%s [%s]' % (t, mx, nv, ', helper' if helper else '', nm),
                      lambda cfg=cfg, t=t, mx=mx, nv=nv, helper=helper: shapes_agree(c, cfg, t, mx, nv, helper, True))
        c.pob('same shape at setup and at proving, no entropies [%s]' % nm, lambda cfg=cfg: shapes_agree(c, cfg, 1, 2, 1, False, False))
        c.pob('same shape of the helper circuit, all transitions real [%s]' % nm, lambda cfg=cfg: helper_shapes(c, cfg, 2, 2))
        c.pob('same shape of the helper circuit, with dummies [%s]' % nm, lambda cfg=cfg: helper_shapes(c, cfg, 1, 2))
