"""Models of the standard library, byteorder, blake2s_simd, rand, lru and the
logging macros, as transfer functions on abstract values."""
import bdd
from values import *

NI = NotImplemented
INTS = tuple(WIDTH)


def usz(n):
    return Int('usize', v=n) if isinstance(n, int) else Int('usize', lin=n)


def it(kind, **kw):
    return Opq('it', k=kind, **kw)


def it_list(e):
    return it('list', e=tuple(e), i=0)


# ---------------------------------------------------------------- iterators
def to_iter(I, v, st, n=None):
    v0 = v
    if isinstance(v, Ref):
        x = I.read(st, (v.loc, v.path))
        loc, path = v.loc, v.path
        while isinstance(x, Ref):
            loc, path = x.loc, x.path
            x = I.read(st, (loc, path))
        if isinstance(x, Opq) and x.cls in ('it', 'range'):
            return it('byref', loc=loc, path=path)
        if isinstance(x, Seq):
            return it('mutref', loc=loc, path=path, i=0, n=len(x.items()))
        v = x
    if isinstance(v, Gated):
        return gated([(to_iter(I, x, st, n), g) for x, g in v.g])
    if isinstance(v, Opq):
        if v.cls == 'it':
            return v
        if v.cls == 'range':
            lo, hi = v.f['lo'], v.f['hi']
            if lo is None or lo.v is None or (hi is not None and hi.v is None):
                raise Undecided('iteration over a range with unknown bounds')
            h = None if hi is None else hi.v + (1 if v.f['incl'] else 0)
            return it('range', i=lo.v, hi=h, ty=lo.ty or (hi.ty if hi is not None else None))
        if v.cls == 'hashset':
            return it_list(v.f['e'])
        if v.cls == 'hashmap':
            return it_list([Tup(p) for p in v.f['e']])
    if isinstance(v, Seq):
        return it_list(v.e)
    if isinstance(v, Enum) and v.var in ('Some', 'Ok'):
        return it_list([v.e[0]])
    if isinstance(v, Enum) and v.var in ('None', 'Err'):
        return it_list([])
    if isinstance(v, Struct):
        ms = I.find_user_method(v, 'next')
        if ms is not None:
            return it('user', loc=I.alloc(st, v, True), path=())
        ms = I.find_user_method(v, 'into_iter')
        if ms is not None:
            return to_iter(I, I.call(ms, [v], None, None, st, n), st, n)
    raise Undecided('iteration over %s' % show(v)[:80])


def it_next(I, x, st, n=None):
    """None at the end, else (guard, item, rest)"""
    if not (isinstance(x, Opq) and x.cls == 'it'):
        x = to_iter(I, x, st, n)
    f = x.f
    k = f['k']
    if k == 'list':
        i, e = f['i'], f['e']
        if i >= len(e):
            return None
        y = e[i]
        if isinstance(y, Seg):
            if not isinstance(y.n, int) or not isinstance(y.off, int):
                raise Undecided('iteration over a byte string of unknown length')
            e = Seq(e[i:]).items()
            return 1, e[0], it('list', e=tuple(e), i=1)
        return 1, y, it('list', e=e, i=i + 1)
    if k == 'glist':
        i, e = f['i'], f['e']
        if i >= len(e):
            return None
        return e[i][0], e[i][1], it('glist', e=e, i=i + 1)
    if k == 'mutref':
        if f['i'] >= f['n']:
            return None
        return 1, Ref(f['loc'], f['path'] + (('i', f['i']),)), x.with_(i=f['i'] + 1)
    if k == 'range':
        if f['hi'] is not None and f['i'] >= f['hi']:
            return None
        return 1, Int(f['ty'], v=f['i']), x.with_(i=f['i'] + 1)
    if k == 'byref':
        cur = I.read(st, (f['loc'], f['path']))
        if isinstance(cur, Gated):
            raise Undecided('iterator state differs between paths')
        r = it_next(I, cur, st, n)
        if r is None:
            return None
        I.write(st, (f['loc'], f['path']), r[2])
        return r[0], r[1], x
    if k == 'user':
        d = I.find_user_method(I.read(st, (f['loc'], f['path'])), 'next')
        o = I.call(d, [Ref(f['loc'], f['path'])], None, None, st, n)
        return from_option(I, o, st, x)
    if k == 'fromfn':
        o = I.call_value(f['f'], [], st, n)
        return from_option(I, o, st, x)
    if k == 'successors':
        cur = f['cur']
        if isinstance(cur, Gated):
            raise Undecided('successors with path-dependent length')
        if cur.var == 'None':
            return None
        nx = I.call_value(f['f'], [cur.e[0]], st, n)
        return 1, cur.e[0], x.with_(cur=I.deref(nx, st))
    if k == 'repeat':
        return 1, f['v'], x
    if k == 'repeatwith':
        return 1, I.call_value(f['f'], [], st, n), x
    if k == 'chain':
        if f['a'] is not None:
            r = it_next(I, f['a'], st, n)
            if r is not None:
                return r[0], r[1], x.with_(a=r[2])
        r = it_next(I, f['b'], st, n)
        if r is None:
            return None
        return r[0], r[1], it('chain', a=None, b=r[2])
    if k == 'map':
        r = it_next(I, f['it'], st, n)
        if r is None:
            return None
        g, v, rest = r
        if bdd.and_(st.pc, g) == 0:
            return 0, v, x.with_(it=rest)
        if g == 1:
            y = I.call_value(f['f'], [v], st, n)
        else:
            y = guarded(I, st, g, lambda s: I.call_value(f['f'], [v], s, n))
        return g, y, x.with_(it=rest)
    if k == 'inspect':
        r = it_next(I, f['it'], st, n)
        if r is None:
            return None
        g, v, rest = r
        guarded(I, st, g, lambda s: I.call_value(f['f'], [v], s, n))
        return g, v, x.with_(it=rest)
    if k == 'filter':
        r = it_next(I, f['it'], st, n)
        if r is None:
            return None
        g, v, rest = r
        c = [0]

        def run(s):
            c[0] = I.truth(I.call_value(f['f'], [v], s, n), s)
            return UNIT
        guarded(I, st, g, run)
        return bdd.and_(g, c[0]), v, x.with_(it=rest)
    if k == 'filter_map':
        r = it_next(I, f['it'], st, n)
        if r is None:
            return None
        g, v, rest = r
        o = guarded(I, st, g, lambda s: I.deref(I.call_value(f['f'], [v], s, n), s))
        sg, sv = some_part(o)
        return bdd.and_(g, sg), sv, x.with_(it=rest)
    if k == 'enumerate':
        r = it_next(I, f['it'], st, n)
        if r is None:
            return None
        g, v, rest = r
        i = f['i']
        nx = I.arith('+', i, Int('usize', v=1), State1(st), n, 'wrap')
        return g, Tup([i, v]), x.with_(it=rest, i=vite(g, nx, i))
    if k == 'zip':
        r = it_next(I, f['a'], st, n)
        if r is None:
            return None
        q = it_next(I, f['b'], st, n)
        if q is None:
            return None
        if r[0] != 1 or q[0] != 1:
            if r[0] == 0:
                return 0, UNIT, x.with_(a=r[2])
            raise Undecided('zip of filtered iterators')
        return 1, Tup([r[1], q[1]]), x.with_(a=r[2], b=q[2])
    if k == 'take':
        if f['n'] <= 0:
            return None
        r = it_next(I, f['it'], st, n)
        if r is None:
            return None
        if r[0] == 0:
            return 0, UNIT, x.with_(it=r[2])
        if r[0] != 1:
            raise Undecided('take on a filtered iterator')
        return 1, r[1], x.with_(it=r[2], n=f['n'] - 1)
    if k == 'skip':
        cur = f['it']
        for _ in range(f['n']):
            r = it_next(I, cur, st, n)
            if r is None:
                return None
            if r[0] != 1:
                raise Undecided('skip on a filtered iterator')
            cur = r[2]
        return it_next(I, cur, st, n) if False else _wrap_next(I, cur, st, n)
    if k == 'step_by':
        r = it_next(I, f['it'], st, n)
        if r is None:
            return None
        cur = r[2]
        for _ in range(f['n'] - 1):
            q = it_next(I, cur, st, n)
            if q is None:
                break
            cur = q[2]
        return r[0], r[1], x.with_(it=cur)
    if k == 'take_while':
        r = it_next(I, f['it'], st, n)
        if r is None:
            return None
        g, v, rest = r
        c = [0]

        def run(s):
            c[0] = I.truth(I.call_value(f['f'], [v], s, n), s)
            return UNIT
        alive = bdd.and_(f['alive'], g)
        guarded(I, st, alive, run)
        now = bdd.and_(alive, c[0])
        alive2 = bdd.ite(g, now, f['alive'])
        if alive2 == 0:
            return (now, v, it_list([])) if now != 0 else None
        return now, v, x.with_(it=rest, alive=alive2)
    if k == 'skip_while':
        r = it_next(I, f['it'], st, n)
        if r is None:
            return None
        g, v, rest = r
        c = [0]

        def run(s):
            c[0] = I.truth(I.call_value(f['f'], [v], s, n), s)
            return UNIT
        sk = f['sk']
        guarded(I, st, bdd.and_(sk, g), run)
        skipping = bdd.and_(sk, bdd.or_(bdd.neg(g), c[0]))
        return bdd.and_(g, bdd.neg(skipping)), v, x.with_(it=rest, sk=skipping)
    if k == 'flat_map':
        if f['cur'] is not None:
            r = it_next(I, f['cur'], st, n)
            if r is not None:
                return bdd.and_(f['g'], r[0]), r[1], x.with_(cur=r[2])
        r = it_next(I, f['it'], st, n)
        if r is None:
            return None
        g, v, rest = r
        if f['f'] is not None:
            v = guarded(I, st, g, lambda s: I.call_value(f['f'], [v], s, n))
        sub = to_iter(I, v, st, n) if g != 0 else it_list([])
        if isinstance(sub, Gated):
            out = []
            for y, gy in sub.g:
                out += [(bdd.and_(gy, gi), z) for gi, z in drain(I, y, st, n)]
            sub = it('glist', e=tuple(out), i=0)
        return 0, UNIT, x.with_(it=rest, cur=sub, g=g)
    if k == 'scan':
        r = it_next(I, f['it'], st, n)
        if r is None:
            return None
        g, v, rest = r
        if g != 1:
            raise Undecided('scan on a filtered iterator')
        o = I.deref(I.call_value(f['f'], [Ref(f['loc']), v], st, n), st)
        if not isinstance(o, Enum):
            raise Undecided('scan with path-dependent end')
        if o.var == 'None':
            return None
        return 1, o.e[0], x.with_(it=rest)
    if k == 'peekable':
        if f['pk'] is not None:
            g, v, rest = f['pk']
            return g, v, x.with_(it=rest, pk=None)
        r = it_next(I, f['it'], st, n)
        if r is None:
            return None
        return r[0], r[1], x.with_(it=r[2])
    raise Undecided('iterator %s' % k)


def _wrap_next(I, cur, st, n):
    return it_next(I, cur, st, n)


class State1:
    """throw-away state for pure arithmetic"""
    def __init__(self, st):
        self.heap, self.pc = st.heap, st.pc


def guarded(I, st, g, f):
    """run f on the paths where g holds; the value is only meaningful there"""
    if g == 1:
        return f(st)
    if bdd.and_(st.pc, g) == 0:
        return UNIT
    box = {}

    def run(s):
        box['v'] = f(s)
        return UNIT
    I.branch(st, g, run, lambda s: UNIT)
    return box.get('v', UNIT)


def from_option(I, o, st, rest):
    o = I.deref(o, st)
    if isinstance(o, Enum):
        return None if o.var == 'None' else (1, o.e[0], rest)
    raise Undecided('iterator with path-dependent length')


def some_part(o):
    """(guard, payload) of the Some/Ok leaves of an option value"""
    gs, vs = 0, []
    for v, g in leaves(o):
        if isinstance(v, Enum) and v.var in ('Some', 'Ok'):
            gs = bdd.or_(gs, g)
            vs.append((g, v.e[0]))
        elif isinstance(v, Enum):
            pass
        else:
            raise Undecided('option value expected, got %s' % show(v)[:60])
    return gs, merge_many(vs) if vs else UNIT


def drain(I, x, st, n=None):
    """all remaining (guard, item)"""
    out = []
    k = 0
    x = to_iter(I, x, st, n) if not (isinstance(x, Opq) and x.cls == 'it') else x
    while True:
        k += 1
        if k > 400000:
            raise Undecided('unbounded iterator')
        r = it_next(I, x, st, n)
        if r is None:
            return out
        if r[0] != 0 and bdd.and_(st.pc, r[0]) != 0:
            out.append((r[0], r[1]))
        x = r[2]


def elems(I, x, st, n):
    """remaining elements as a value sequence, opaque segments kept whole"""
    x = to_iter(I, x, st, n) if not (isinstance(x, Opq) and x.cls == 'it') else x
    if isinstance(x, Gated):
        return gated([(Seq(elems_seq(I, y, st, n)), g) for y, g in x.g])
    return elems_seq(I, x, st, n)


def elems_seq(I, x, st, n):
    f = x.f
    if f['k'] == 'list':
        return list(f['e'][f['i']:])
    if f['k'] == 'chain':
        return (elems_seq(I, f['a'], st, n) if f['a'] is not None else []) + elems_seq(I, f['b'], st, n)
    if f['k'] == 'flat_map' and f['cur'] is None:
        out = []
        it_ = f['it']
        while True:
            r = it_next(I, it_, st, n)
            if r is None:
                return out
            g, v, it_ = r
            if g != 1:
                break
            if f['f'] is not None:
                v = I.call_value(f['f'], [v], st, n)
            sub = to_iter(I, v, st, n)
            if isinstance(sub, Gated):
                e = [(bdd.and_(gy, gi), z) for y, gy in sub.g for gi, z in drain(I, y, st, n)]
                rest = [(1, y) for y in out] + e + drain(I, x.with_(it=it_), st, n)
                return glist_elems(rest)
            out += elems_seq(I, sub, st, n)
        out2 = [(1, y) for y in out]
        out2 += drain(I, x.with_(it=it('chain', a=it('glist', e=((g, v),), i=0), b=it_)), st, n)
        return glist_elems(out2)
    return glist_elems(drain(I, x, st, n))


class GElems(Exception):
    pass


def glist_elems(gl):
    if all(g == 1 for g, _ in gl):
        return [v for _, v in gl]
    return [('guarded', gl)]


def build_seq(e, kind='vec'):
    if len(e) == 1 and isinstance(e[0], tuple):
        gl = e[0][1]
        v = Seq((), kind)
        nopt = sum(1 for g, _ in gl if g != 1)
        if nopt > 12:
            raise Undecided('collection of path-dependent length')
        for g, x in gl:
            y = lift(lambda s: Seq(s.e + (x,), kind), v)
            v = vite(g, y, v)
        return v
    return Seq(e, kind)


def split_results(I, v, st):
    """[(guard, 'ok', payload)], [(guard, 'err', whole)]"""
    oks, errs = [], []
    for x, g in leaves(I.deref(v, st)):
        if isinstance(x, Enum) and x.var in ('Ok', 'Some'):
            oks.append((g, x.e[0]))
        elif isinstance(x, Enum) and x.var in ('Err', 'None'):
            errs.append((g, x))
        elif isinstance(x, Term):
            a = bdd.atom(('ok', x))
            oks.append((bdd.and_(g, a), Term('unwrap', (x,))))
            errs.append((bdd.and_(g, bdd.neg(a)), Err(Term('err', (x,)))))
        else:
            raise Undecided('Result expected, got %s' % show(x)[:60])
    return oks, errs


def each_result(I, x, st, n, f):
    """iterate, calling f(payload) on Ok items, stopping at the first Err.
    Returns (list of stopped alternatives)"""
    stops = []
    while True:
        r = it_next(I, x, st, n)
        if r is None:
            break
        g, v, x = r
        if g != 1:
            if bdd.and_(st.pc, g) == 0:
                continue
            raise Undecided('fallible collection of a filtered iterator')
        oks, errs = split_results(I, v, st)
        for ge, e in errs:
            pc = bdd.and_(st.pc, ge)
            if pc != 0:
                stops.append((pc, dict(st.heap), e))
        go = bdd.or_(*[gg for gg, _ in oks]) if oks else 0
        st.pc = bdd.and_(st.pc, go)
        if st.pc == 0:
            return stops
        f(merge_many(oks))
    return stops


def collect(I, x, st, n, ty):
    h = ty[1] if ty is not None and ty[0] == 'path' else None
    if h in ('Result', 'Option'):
        inner = ty[2][0] if ty[2] else None
        out = []
        stops = each_result(I, to_iter(I, x, st, n), st, n, out.append)
        alts = list(stops)
        if st.pc != 0:
            v = finish_collect(I, out, st, inner)
            alts.append((st.pc, st.heap, Ok(v) if h == 'Result' else Some(v)))
        return I.join(st, alts)
    e = elems(I, x, st, n)
    if isinstance(e, Gated):
        return lift(lambda s: finish_collect(I, list(s.e), st, ty), e)
    return finish_collect(I, e, st, ty)


def finish_collect(I, e, st, ty):
    h = ty[1] if ty is not None and ty[0] == 'path' else None
    if h == 'HashSet' or h == 'BTreeSet':
        v = Opq('hashset', e=())
        for x in e:
            v = set_insert(I, v, x, st)[0]
        return v
    if h == 'Box':
        return build_seq(e)
    if h == 'String':
        return build_seq(e, 'str')
    if ty is not None and ty[0] == 'tuple' and not ty[1]:
        return UNIT
    v = build_seq([y if isinstance(y, (Seg, tuple)) else y for y in e])
    if h == 'Vec' and ty[2]:
        v = I.coerce(v, ty)
    return v


def set_member(I, v, x, st):
    return bdd.or_(*[I.veq(y, x, st) for y in v.f['e']]) if v.f['e'] else 0


def set_insert(I, v, x, st):
    m = set_member(I, v, x, st)
    if m == 1:
        return v, FALSE
    if m == 0:
        return Opq('hashset', e=v.f['e'] + (x,)), TRUE
    raise Undecided('set insertion of a possibly present element')


# ---------------------------------------------------------------- helpers
def tyname(I, hint):
    if hint is not None and hint[0] == 'turbo':
        return hint[1][0] if hint[1] else None
    return hint


def conc(v, what='value'):
    if isinstance(v, Int) and v.v is not None:
        return v.v
    raise Undecided('%s is not a structural constant: %s' % (what, show(v)[:60]))


def int_bytes(v, w, le, st=None):
    bits = v.tobits(w)
    out = [Int('u8', bits=bits[i * 8:i * 8 + 8]) for i in range(w // 8)]
    return out if le else out[::-1]


def bytes_int(e, ty, le):
    e = list(e) if le else list(e)[::-1]
    bits = []
    for b in e:
        bits += list(b.tobits(8))
    return Int(ty, bits=bits)


def sink_write(I, st, p, data, n):
    """io::Write on a Vec (append) or a slice (overwrite prefix, advance)"""
    if p is None:
        raise Undecided('write to a temporary')
    v = I.read(st, p)
    if isinstance(v, Opq) and v.cls == 'cursor':
        return I.unknown_method('write', v, p, [data], st, n)
    if not isinstance(v, Seq):
        return I.unknown_method('write', v, p, [data], st, n)
    is_slice = v.kind in ('array', 'slice') or (p[1] and p[1][-1][0] == 's')
    if not is_slice:
        I.write(st, p, Seq(v.e + tuple(data.e), v.kind))
        return Ok(UNIT)
    L, k = v.length(), data.length()
    if not isinstance(L, int) or not isinstance(k, int):
        raise Undecided('write into a slice of unknown length')
    if k > L:
        return Err(Term('io_error', ('failed to write whole buffer',)))
    I.write(st, p, Seq(tuple(data.e) + tuple(v.slice(k, None).e), v.kind))
    rp = I.recv_place
    if rp is not None:
        o = st.heap.get(rp[0]) if not rp[1] else I.read(st, rp)
        if isinstance(o, Ref) and (o.loc, o.path) == p:
            if p[1] and p[1][-1][0] == 's':
                s = p[1][-1]
                npth = p[1][:-1] + (('s', s[1] + k, s[2]),)
            else:
                npth = p[1] + (('s', k, None),)
            I.write(st, rp, Ref(p[0], npth, o.raw)) if rp[1] else st.heap.__setitem__(rp[0], Ref(p[0], npth, o.raw))
    return Ok(UNIT)


def seq_of(I, v, st):
    v = I.deref(v, st)
    if isinstance(v, Opq) and v.cls == 'b2hash':
        v = b2bytes(v)
    if isinstance(v, Opq) and v.cls in ('it', 'range'):
        return build_seq(elems(I, v, st, None))
    if isinstance(v, Struct) and len(v.f) == 1:
        return seq_of(I, next(iter(v.f.values())), st)
    if not isinstance(v, Seq):
        raise Undecided('byte string expected, got %s' % show(v)[:80])
    return v


# ---------------------------------------------------------------- blake2s
B2DEF = dict(hash_length=Int('u8', v=32), key=Seq((), 'slice'), salt=Seq((), 'slice'), personal=Seq((), 'slice'),
             fanout=Int('u8', v=1), max_depth=Int('u8', v=1), max_leaf_length=Int('u32', v=0),
             node_offset=Int('u64', v=0), node_depth=Int('u8', v=0), inner_hash_length=Int('usize', v=0),
             last_node=FALSE)


def b2pad(v, n):
    """parameters are zero padded: canonical form"""
    L = v.length()
    if isinstance(L, int):
        e = list(v.e)
        while e and isinstance(e[-1], Int) and e[-1].v == 0:
            e.pop()
        return Seq(e, 'slice')
    return v


def b2key(params):
    return tuple((k, params.f[k]) for k in sorted(params.f) if k != 'hash_length')


def b2term(params, data):
    return ('blake2s', ('hash_length', params.f['hash_length'])) + tuple(x for x in b2key(params) if x[1] != B2DEF[x[0]]) + (HK(Seq(data.e, 'slice')),)


def b2bytes(h):
    ln = h.f['params'].f['hash_length']
    t = b2term(h.f['params'], h.f['data'])
    if ln.v is None:
        return Seq([Seg(t, 0, ln.aslin())], 'vec')
    return Seq([Seg(t, 0, ln.v)], 'vec')


def b2_setter(name, lo, hi, cast=None):
    def f(I, st, rv, p, args, n, hint):
        if not (isinstance(rv, Opq) and rv.cls == 'b2params'):
            return NI
        a = I.deref(args[0], st)
        if name in ('personal', 'salt', 'key'):
            if isinstance(a, Gated) and name != 'key':
                # zero padded, so that different lengths can be merged
                ls = [(seq_of(I, x, st), g) for x, g in a.g if bdd.and_(g, st.pc) != 0]
                if all(isinstance(x.length(), int) for x, g in ls):
                    I.panic(st, bdd.or_(*[g for x, g in ls if x.length() > hi]), 'blake2s %s longer than %d' % (name, hi), n)
                    ls = [(g, Seq(x.items() + [Int('u8', v=0)] * (hi - x.length()), 'slice')) for x, g in ls if x.length() <= hi]
                    a = merge_many(ls)
            a = seq_of(I, a, st)
            L = a.length()
            c = (0 if L <= hi else 1) if isinstance(L, int) else bdd.neg(I.int_le0(L.add(Poly.const(-hi))))
            I.panic(st, c, 'blake2s %s longer than %d' % (name, hi), n)
            a = b2pad(a, hi)
        elif name == 'last_node':
            pass
        else:
            ii = lambda k: Int(a.ty if isinstance(a, Int) else None, v=k)
            if isinstance(a, Gated):
                bad = bdd.or_(I.cmp('>', a, Int(None, v=hi), st), I.cmp('<', a, Int(None, v=lo), st) if lo else 0)
            else:
                bad = bdd.or_(I.cmp('>', a, ii(hi), st), I.cmp('<', a, ii(lo), st) if lo else 0)
            I.panic(st, bad, 'blake2s %s out of range' % name, n)
        nv = rv.with_(**{name: a})
        if p is not None:
            I.write(st, p, nv)
            return Ref(p[0], p[1])
        return nv
    return f


# ---------------------------------------------------------------- registration
def register(I):
    M, F = I.M, I.F
    I.recv_place = None
    M['#to_iter'] = to_iter
    M['#it_next'] = it_next

    def m(*names):
        def deco(f):
            for x in names:
                prev = M.get(x)
                if prev is None:
                    M[x] = f
                else:
                    def chain(I, st, rv, p, args, n, hint, f=f, prev=prev):
                        r = prev(I, st, rv, p, args, n, hint)
                        return f(I, st, rv, p, args, n, hint) if r is NI else r
                    if getattr(prev, 'nofork', False) and getattr(f, 'nofork', False):
                        chain.nofork = True
                    M[x] = chain
            return f
        return deco

    def fn(*names):
        def deco(f):
            for x in names:
                F[x] = f
            return f
        return deco
    I.m, I.fn = m, fn

    # ---- iterator adaptors
    def isit(v):
        return isinstance(v, Opq) and v.cls in ('it', 'range')

    @m('iter', 'into_iter', 'par_iter', 'into_par_iter', 'drain')
    def _iter(I, st, rv, p, args, n, hint):
        if n.get('m') == 'drain' and p is not None and isinstance(rv, Seq):
            a, b = 0, None
            if args and isinstance(args[0], Opq):
                a, b = I.range_bounds(args[0], rv.length(), st, n)
            out = rv.slice(a, b)
            post = () if b is None else rv.slice(b, None).e
            I.write(st, p, Seq(rv.slice(0, a).e + tuple(post), rv.kind))
            return to_iter(I, out, st, n)
        if n.get('m') == 'drain' and isinstance(rv, Opq) and rv.cls == 'hashset' and p is not None:
            I.write(st, p, Opq('hashset', e=()))
        if isinstance(rv, (Seq, Opq, Enum, Struct)):
            try:
                return to_iter(I, rv, st, n)
            except Undecided:
                if isinstance(rv, Struct) or isinstance(rv, Opq):
                    return NI
                raise
        return NI

    @m('iter_mut', 'par_iter_mut')
    def _iter_mut(I, st, rv, p, args, n, hint):
        if isinstance(rv, Seq) and p is not None:
            if rv.has_seg():
                I.write(st, p, Seq(rv.items(), rv.kind))
                k = len(rv.items())
            else:
                k = len(rv.e)
            return it('mutref', loc=p[0], path=p[1], i=0, n=k)
        if isinstance(rv, Enum) and rv.name == 'Option' and p is not None:
            return it_list([Ref(p[0], p[1] + (('v', 'Some', 0),))] if rv.var == 'Some' else [])
        return NI

    def adaptor(name, f):
        def g(I, st, rv, p, args, n, hint):
            if not isit(rv):
                return NI
            return f(I, st, to_iter(I, rv, st, n), args, n, hint)
        m(name)(g)

    adaptor('map', lambda I, st, x, a, n, h: it('map', it=x, f=a[0]))
    adaptor('inspect', lambda I, st, x, a, n, h: it('inspect', it=x, f=a[0]))
    adaptor('filter', lambda I, st, x, a, n, h: it('filter', it=x, f=a[0]))
    adaptor('filter_map', lambda I, st, x, a, n, h: it('filter_map', it=x, f=a[0]))
    adaptor('enumerate', lambda I, st, x, a, n, h: it('enumerate', it=x, i=Int('usize', v=0)))
    adaptor('zip', lambda I, st, x, a, n, h: zipped(I, st, x, a[0], n))
    adaptor('chain', lambda I, st, x, a, n, h: it('chain', a=x, b=as_it(I, a[0], st, n)))
    adaptor('take', lambda I, st, x, a, n, h: taken(I, st, x, I.deref(a[0], st), n))
    adaptor('skip', lambda I, st, x, a, n, h: skipped(I, st, x, conc(I.deref(a[0], st), 'skip count'), n))
    adaptor('step_by', lambda I, st, x, a, n, h: it('step_by', it=x, n=conc(I.deref(a[0], st), 'step')))
    adaptor('take_while', lambda I, st, x, a, n, h: it('take_while', it=x, f=a[0], alive=1))
    adaptor('skip_while', lambda I, st, x, a, n, h: it('skip_while', it=x, f=a[0], sk=1))
    adaptor('flat_map', lambda I, st, x, a, n, h: it('flat_map', it=x, f=a[0], cur=None, g=1))
    adaptor('flatten', lambda I, st, x, a, n, h: it('flat_map', it=x, f=None, cur=None, g=1))
    adaptor('scan', lambda I, st, x, a, n, h: it('scan', it=x, f=a[1], loc=I.alloc(st, a[0], True)))
    adaptor('peekable', lambda I, st, x, a, n, h: it('peekable', it=x, pk=None))
    for nm in ('cloned', 'copied', 'fuse', 'by_ref', 'borrow', 'with_min_len', 'with_max_len'):
        if nm != 'by_ref':
            adaptor(nm, lambda I, st, x, a, n, h: cloned(I, st, x, n))

    def cloned(I, st, x, n):
        if x.f['k'] == 'mutref':
            return it_list([I.read(st, (x.f['loc'], x.f['path'] + (('i', j),))) for j in range(x.f['i'], x.f['n'])])
        if x.f['k'] == 'list' and any(isinstance(y, Ref) for y in x.f['e']):
            return it('list', e=tuple(I.deref(y, st) if isinstance(y, Ref) else y for y in x.f['e']), i=x.f['i'])
        return x

    @m('by_ref')
    def _byref(I, st, rv, p, args, n, hint):
        if isit(rv) and p is not None:
            return Ref(p[0], p[1])
        return NI

    def as_it(I, v, st, n):
        r = to_iter(I, v, st, n)
        if isinstance(r, Gated):
            out = []
            for y, gy in r.g:
                out += [(bdd.and_(gy, gi), z) for gi, z in drain(I, y, st, n)]
            return it('glist', e=tuple(out), i=0)
        return r

    def taken(I, st, x, k, n):
        if isinstance(k, Int) and k.v is not None:
            if x.f['k'] == 'list':
                s = Seq(x.f['e'][x.f['i']:])
                L = s.length()
                if isinstance(L, int):
                    return it_list(s.slice(0, min(k.v, L)).e)
            return it('take', it=x, n=k.v)
        if isinstance(k, Int) and x.f['k'] == 'list':
            L = Seq(x.f['e'][x.f['i']:]).length()
            if not isinstance(L, int) and k.lin is not None and k.lin == L:
                return x
        raise Undecided('take with an unknown count')

    def skipped(I, st, x, k, n):
        if x.f['k'] == 'list':
            s = Seq(x.f['e'][x.f['i']:])
            L = s.length()
            if isinstance(L, int):
                return it_list(s.slice(min(k, L), L).e)
        return it('skip1', it=x, n=k) if False else skipn(I, st, x, k, n)

    def skipn(I, st, x, k, n):
        for _ in range(k):
            r = it_next(I, x, st, n)
            if r is None:
                return it_list([])
            if r[0] != 1:
                raise Undecided('skip on a filtered iterator')
            x = r[2]
        return x

    def zipped(I, st, a, b, n):
        return it('zip', a=a, b=to_iter(I, b, st, n))

    @m('rev')
    def _rev(I, st, rv, p, args, n, hint):
        if not isit(rv):
            return NI
        return reverse_it(I, to_iter(I, rv, st, n), st, n)

    def reverse_it(I, x, st, n):
        f = x.f
        if f['k'] == 'list':
            s = Seq(f['e'][f['i']:])
            return it_list(reversed(s.items() if s.has_seg() else s.e))
        if f['k'] == 'map':
            return x.with_(it=reverse_it(I, f['it'], st, n))
        if f['k'] == 'mutref':
            return it_list([Ref(f['loc'], f['path'] + (('i', j),)) for j in range(f['n'] - 1, f['i'] - 1, -1)])
        if f['k'] == 'range':
            if f['hi'] is None:
                raise Undecided('reverse of an unbounded range')
            return it_list([Int(f['ty'], v=j) for j in range(f['hi'] - 1, f['i'] - 1, -1)])
        gl = drain(I, x, st, n)
        if all(g == 1 for g, _ in gl):
            return it_list([v for _, v in reversed(gl)])
        return it('glist', e=tuple(reversed(gl)), i=0)

    @m('next')
    def _next(I, st, rv, p, args, n, hint):
        if not isit(rv):
            return NI
        x = to_iter(I, rv, st, n)
        alts = []
        g0 = 1
        while True:
            r = it_next(I, x, st, n)
            if r is None:
                if bdd.and_(st.pc, g0) != 0:
                    alts.append((g0, NONE, it_list([])))
                break
            g, v, x = r
            gg = bdd.and_(g0, g)
            if gg != 0 and bdd.and_(st.pc, gg) != 0:
                alts.append((gg, Some(v), x))
            g0 = bdd.and_(g0, bdd.neg(g))
            if bdd.and_(st.pc, g0) == 0:
                break
        if p is not None:
            I.write(st, p, merge_many([(g, y) for g, _, y in alts]))
        return merge_many([(g, v) for g, v, _ in alts])

    @m('next_back')
    def _next_back(I, st, rv, p, args, n, hint):
        if not isit(rv):
            return NI
        x = reverse_it(I, to_iter(I, rv, st, n), st, n)
        r = it_next(I, x, st, n)
        if r is None:
            return NONE
        if r[0] != 1:
            raise Undecided('next_back on a filtered iterator')
        if p is not None:
            I.write(st, p, reverse_it(I, r[2], st, n))
        return Some(r[1])

    @m('peek')
    def _peek(I, st, rv, p, args, n, hint):
        if not (isit(rv) and rv.f.get('k') == 'peekable'):
            return NI
        if rv.f['pk'] is not None:
            return Some(rv.f['pk'][1])
        r = it_next(I, rv.f['it'], st, n)
        if r is None:
            return NONE
        if r[0] != 1:
            raise Undecided('peek on a filtered iterator')
        I.write(st, p, rv.with_(pk=r))
        return Some(r[1])

    def user_it(I, st, rv):
        return isit(rv)

    @m('collect')
    def _collect(I, st, rv, p, args, n, hint):
        if not isit(rv):
            return NI
        return collect(I, to_iter(I, rv, st, n), st, n, tyname(I, hint))

    @m('for_each')
    def _for_each(I, st, rv, p, args, n, hint):
        if not isit(rv):
            return NI
        x = to_iter(I, rv, st, n)
        while True:
            r = it_next(I, x, st, n)
            if r is None:
                return UNIT
            g, v, x = r
            guarded(I, st, g, lambda s: I.call_value(args[0], [v], s, n))

    @m('try_for_each')
    def _try_for_each(I, st, rv, p, args, n, hint):
        if not isit(rv):
            return NI
        stops = each_result(I, it('map', it=to_iter(I, rv, st, n), f=args[0]), st, n, lambda v: None)
        alts = stops + ([(st.pc, st.heap, Ok(UNIT))] if st.pc != 0 else [])
        return I.join(st, alts)

    @m('fold')
    def _fold(I, st, rv, p, args, n, hint):
        if not isit(rv):
            return NI
        acc = args[0]
        if isinstance(acc, Int) and acc.ty is None and hint is not None and hint[0] == 'path' and hint[1] in WIDTH:
            acc = I.retype(acc, hint[1])
        x = to_iter(I, rv, st, n)
        while True:
            r = it_next(I, x, st, n)
            if r is None:
                return acc
            g, v, x = r
            if g == 1:
                acc = I.call_value(args[1], [acc, v], st, n)
            elif bdd.and_(st.pc, g) != 0:
                a0 = acc
                acc = I.branch(st, g, lambda s: I.call_value(args[1], [a0, v], s, n), lambda s: a0)

    @m('reduce')
    def _reduce(I, st, rv, p, args, n, hint):
        if not isit(rv):
            return NI
        r = it_next(I, to_iter(I, rv, st, n), st, n)
        if r is None:
            return NONE
        if r[0] != 1:
            raise Undecided('reduce of a filtered iterator')
        return Some(_fold(I, st, r[2], None, [r[1], args[0]], n, hint))

    @m('try_fold')
    def _try_fold(I, st, rv, p, args, n, hint):
        if not isit(rv):
            return NI
        box = [args[0]]
        x = to_iter(I, rv, st, n)
        stops = []
        while st.pc != 0:
            r = it_next(I, x, st, n)
            if r is None:
                break
            g, v, x = r
            if g != 1:
                raise Undecided('try_fold of a filtered iterator')
            o = I.call_value(args[1], [box[0], v], st, n)
            oks, errs = split_results(I, o, st)
            for ge, e in errs:
                pc = bdd.and_(st.pc, ge)
                if pc != 0:
                    stops.append((pc, dict(st.heap), e))
            st.pc = bdd.and_(st.pc, bdd.or_(*[gg for gg, _ in oks]) if oks else 0)
            if oks:
                box[0] = merge_many(oks)
        opt = hint is not None and hint[0] == 'path' and hint[1] == 'Option' or any(e.var == 'None' for _, _, e in stops)
        alts = stops + ([(st.pc, st.heap, Some(box[0]) if opt else Ok(box[0]))] if st.pc != 0 else [])
        return I.join(st, alts)

    @m('sum', 'product')
    def _sum(I, st, rv, p, args, n, hint):
        if not isit(rv):
            return NI
        op = '+' if n.get('m', 'sum') == 'sum' else '*'
        ty = I.rty(n['t'][0]) if n.get('t') else tyname(I, hint)
        gl = drain(I, rv, st, n)
        if not gl:
            if ty is not None and I.kind_of is not None and I.kind_of(I, ty) is not None:
                return Alg(Poly.const(0 if op == '+' else 1), I.kind_of(I, ty))
            if ty is not None and ty[0] == 'path' and ty[1] in WIDTH:
                return Int(ty[1], v=0 if op == '+' else 1)
            return Alg(Poly.const(0 if op == '+' else 1))
        acc = None
        for g, v in gl:
            v = I.deref(v, st)
            if isinstance(v, Int):
                if acc is None:
                    acc = Int(v.ty, v=0 if op == '+' else 1)
            elif acc is None:
                acc = Alg(Poly.const(0 if op == '+' else 1), v.kind) if isinstance(v, Alg) else None
            if acc is None:
                if g != 1:
                    raise Undecided('sum of %s' % show(v)[:40])
                acc = v
                continue
            nv = I.binop(op, acc, v, st, n)
            acc = vite(g, nv, acc)
        return acc

    @m('count')
    def _count(I, st, rv, p, args, n, hint):
        if not isit(rv):
            return NI
        x = to_iter(I, rv, st, n)
        if x.f['k'] == 'list':
            return usz(Seq(x.f['e'][x.f['i']:]).length())
        acc = Int('usize', v=0)
        for g, _ in drain(I, x, st, n):
            acc = I.binop('+', acc, Int('usize', bits=(g,) + (0,) * 63) if g != 1 else Int('usize', v=1), st, n)
        return acc

    @m('any', 'all')
    def _any(I, st, rv, p, args, n, hint):
        if not isit(rv):
            return NI
        isany = n.get('m', 'any') == 'any'
        x = to_iter(I, rv, st, n)
        res = 0
        live = 1
        # short circuit: later predicates run only where undecided
        while True:
            r = it_next(I, x, st, n)
            if r is None:
                break
            g, v, x = r
            c = [0]
            gg = bdd.and_(g, live)
            if bdd.and_(st.pc, gg) == 0:
                continue

            def run(s):
                c[0] = I.truth(I.call_value(args[0], [v], s, n), s)
                return UNIT
            guarded(I, st, gg, run)
            hit = bdd.and_(gg, c[0] if isany else bdd.neg(c[0]))
            res = bdd.or_(res, hit)
            live = bdd.and_(live, bdd.neg(hit))
            if bdd.and_(st.pc, live) == 0:
                break
        return mkbool(res if isany else bdd.neg(res))

    @m('position', 'find', 'find_map', 'rposition')
    def _position(I, st, rv, p, args, n, hint):
        if not isit(rv):
            return NI
        name = n.get('m', 'position')
        x = to_iter(I, rv, st, n)
        alts = []
        live = 1
        i = 0
        if name == 'rposition':
            return NI
        while True:
            r = it_next(I, x, st, n)
            if r is None:
                break
            g, v, x = r
            if g not in (0, 1) and name == 'position':
                raise Undecided('position on a filtered iterator')
            gg = bdd.and_(g, live)
            if bdd.and_(st.pc, gg) != 0:
                box = []

                def run(s):
                    y = I.deref(I.call_value(args[0], [v], s, n), s)
                    if name == 'find_map':
                        sg, sv = some_part(y)
                        box.append((sg, Some(sv)))
                    else:
                        box.append((I.truth(y, s), Some(usz(i) if name == 'position' else v)))
                    return UNIT
                guarded(I, st, gg, run)
                if box:
                    hit = bdd.and_(gg, box[0][0])
                    if hit != 0:
                        alts.append((hit, box[0][1]))
                    live = bdd.and_(live, bdd.neg(hit))
            i += 1
            if bdd.and_(st.pc, live) == 0:
                break
        alts.append((live, NONE))
        return merge_many([a for a in alts if a[0] != 0] or [(1, NONE)])

    @m('last', 'nth', 'min', 'max', 'unzip', 'partition', 'size_hint')
    def _itlast(I, st, rv, p, args, n, hint):
        if not isit(rv):
            return NI
        name = n.get('m')
        if name == 'nth' and p is not None:
            k = conc(I.deref(args[0], st), 'nth')
            x = to_iter(I, rv, st, n)
            x = skipn(I, st, x, k, n)
            I.write(st, p, x)
            return _next(I, st, x, p, [], n, hint)
        gl = drain(I, rv, st, n)
        if name == 'last':
            v = NONE
            for g, x in gl:
                v = vite(g, Some(x), v)
            return v
        if name in ('min', 'max'):
            if not gl:
                return NONE
            if any(g != 1 for g, _ in gl):
                raise Undecided('%s of a filtered iterator' % name)
            acc = I.deref(gl[0][1], st)
            for _, y in gl[1:]:
                y = I.deref(y, st)
                c = I.cmp('<', y, acc, st) if name == 'min' else bdd.neg(I.cmp('<', y, acc, st))
                acc = vite(c, y, acc)
            return Some(acc)
        if name == 'unzip':
            a, b = [], []
            if any(g != 1 for g, _ in gl):
                raise Undecided('unzip of a filtered iterator')
            for _, t in gl:
                a.append(t.e[0])
                b.append(t.e[1])
            return Tup([Seq(a), Seq(b)])
        if name == 'partition':
            A, B = [], []
            for g, v in gl:
                c = [0]

                def run(s):
                    c[0] = I.truth(I.call_value(args[0], [v], s, n), s)
                    return UNIT
                guarded(I, st, g, run)
                A.append((bdd.and_(g, c[0]), v))
                B.append((bdd.and_(g, bdd.neg(c[0])), v))
            f = lambda X: build_seq(glist_elems([y for y in X if y[0] != 0]))
            return Tup([f(A), f(B)])
        return NI

    @m('eq', 'ne')
    def _eq(I, st, rv, p, args, n, hint):
        a = rv
        b = I.deref(args[0], st)
        if isit(a) or isit(b):
            a = build_seq(elems(I, a, st, n)) if isit(a) else a
            b = build_seq(elems(I, b, st, n)) if isit(b) else b
        c = I.veq(a, b, st)
        return mkbool(c if n.get('m', 'eq') == 'eq' else bdd.neg(c))

    @m('lt', 'le', 'gt', 'ge')
    def _cmpm(I, st, rv, p, args, n, hint):
        return mkbool(I.cmp({'lt': '<', 'le': '<=', 'gt': '>', 'ge': '>='}[n['m']], rv, args[0], st))

    @m('cmp', 'partial_cmp')
    def _cmp(I, st, rv, p, args, n, hint):
        b = I.deref(args[0], st)
        lt, e = I.cmp('<', rv, b, st), I.veq(rv, b, st)
        v = merge_many([(lt, Enum('Ordering', 'Less')), (bdd.and_(bdd.neg(lt), e), Enum('Ordering', 'Equal')),
                        (bdd.and_(bdd.neg(lt), bdd.neg(e)), Enum('Ordering', 'Greater'))]) if lt not in (0, 1) or e not in (0, 1) else \
            Enum('Ordering', 'Less' if lt == 1 else 'Equal' if e == 1 else 'Greater')
        return v if n.get('m') == 'cmp' else lift(Some, v)

    # ---- sequences
    @m('len')
    def _len(I, st, rv, p, args, n, hint):
        if isinstance(rv, Opq) and rv.cls == 'b2hash':
            rv = b2bytes(rv)
        if isinstance(rv, Seq):
            return usz(rv.length())
        if isinstance(rv, Opq) and rv.cls == 'hashset':
            return usz(len(rv.f['e']))
        if isinstance(rv, Opq) and rv.cls == 'range':
            return _count(I, st, rv, p, args, n, hint)
        if isit(rv):
            return _count(I, st, rv, p, args, n, hint)
        if isinstance(rv, Opq) and rv.cls == 'lru':
            return isym(('lrulen',), 'usize')
        if isinstance(rv, Term) and not rv.op.startswith('?'):
            return isym(('len', rv), 'usize')
        return NI

    @m('is_empty')
    def _is_empty(I, st, rv, p, args, n, hint):
        if isinstance(rv, Opq) and rv.cls == 'range':
            return mkbool(bdd.neg(I.cmp('<=' if rv.f['incl'] else '<', rv.f['lo'], rv.f['hi'], st)))
        L = _len(I, st, rv, p, args, n, hint)
        if L is NI:
            return NI
        return mkbool(I.veq(L, Int('usize', v=0), st))

    def mutseq(name, f):
        def g(I, st, rv, p, args, n, hint):
            if not isinstance(rv, Seq) or p is None:
                return NI
            return f(I, st, rv, p, args, n)
        m(name)(g)

    def setp(I, st, p, s):
        I.write(st, p, s)
        return UNIT

    def elty(rv, x):
        if isinstance(x, Int) and x.ty is None:
            for y in rv.e:
                if isinstance(y, Seg):
                    return I.retype(x, 'u8')
                if isinstance(y, Int) and y.ty:
                    return I.retype(x, y.ty)
        return x

    mutseq('push', lambda I, st, rv, p, a, n: setp(I, st, p, rv.plus(elty(rv, I.deref(a[0], st) if isinstance(I.deref(a[0], st), (Int, Bool)) else a[0]))))
    mutseq('push_back', lambda I, st, rv, p, a, n: setp(I, st, p, rv.plus(a[0])))
    mutseq('push_front', lambda I, st, rv, p, a, n: setp(I, st, p, Seq((a[0],) + rv.e, rv.kind)))
    mutseq('push_str', lambda I, st, rv, p, a, n: setp(I, st, p, Seq(rv.e + seq_of(I, a[0], st).e, rv.kind)))
    mutseq('clear', lambda I, st, rv, p, a, n: setp(I, st, p, Seq((), rv.kind)))
    mutseq('extend_from_slice', lambda I, st, rv, p, a, n: setp(I, st, p, Seq(rv.e + seq_of(I, a[0], st).e, rv.kind)))
    mutseq('shrink_to_fit', lambda I, st, rv, p, a, n: (I.effect(st, 'tight', rv, n), UNIT)[1])
    mutseq('reserve', lambda I, st, rv, p, a, n: UNIT)
    mutseq('reserve_exact', lambda I, st, rv, p, a, n: UNIT)

    def _extend(I, st, rv, p, a, n):
        e = elems(I, I.deref(a[0], st) if not isinstance(a[0], Ref) or isinstance(I.deref(a[0], st), Seq) else a[0], st, n)
        if isinstance(e, Gated):
            return setp(I, st, p, lift(lambda s: rv.cat(s), e))
        s = build_seq(e)
        # the drained closures may have changed the state
        cur = I.read(st, p)
        return setp(I, st, p, lift(lambda x, y: x.cat(y), cur, s))
    mutseq('extend', _extend)
    mutseq('par_extend', _extend)

    def _append(I, st, rv, p, a, n):
        o = a[0]
        s = seq_of(I, o, st)
        setp(I, st, p, rv.cat(s))
        if isinstance(o, Ref):
            I.write(st, (o.loc, o.path), Seq((), s.kind))
        return UNIT
    mutseq('append', _append)

    def _reverse(I, st, rv, p, a, n):
        return setp(I, st, p, Seq(reversed(rv.items()), rv.kind))
    mutseq('reverse', _reverse)

    def _truncate(I, st, rv, p, a, n):
        k = conc(I.deref(a[0], st), 'length')
        L = rv.length()
        if isinstance(L, int):
            return setp(I, st, p, rv.slice(0, min(k, L)))
        short = bdd.neg(I.int_le0(Poly.const(k).add(L, -1)))
        return setp(I, st, p, vite(short, rv, rv.slice(0, k)))
    mutseq('truncate', _truncate)

    def _resize(I, st, rv, p, a, n):
        k = conc(I.deref(a[0], st), 'length')
        L = rv.length()
        if not isinstance(L, int):
            raise Undecided('resize of unknown length')
        fill = I.deref(a[1], st) if not isinstance(a[1], Clo) else None
        if k <= L:
            return setp(I, st, p, rv.slice(0, k))
        if fill is None:
            add = tuple(I.call_value(a[1], [], st, n) for _ in range(k - L))
        else:
            add = (elty(rv, fill),) * (k - L)
        return setp(I, st, p, Seq(rv.e + add, rv.kind))
    mutseq('resize', _resize)
    mutseq('resize_with', _resize)

    def _pop(I, st, rv, p, a, n):
        if not rv.e:
            return NONE
        last = rv.e[-1]
        if isinstance(last, Seg):
            L = rv.length()
            if not isinstance(L, int):
                raise Undecided('pop from unknown length')
            e = rv.items()
        else:
            e = list(rv.e)
        setp(I, st, p, Seq(e[:-1], rv.kind))
        return Some(e[-1])
    mutseq('pop', _pop)
    mutseq('pop_back', _pop)

    def _pop_front(I, st, rv, p, a, n):
        e = rv.items()
        if not e:
            return NONE
        setp(I, st, p, Seq(e[1:], rv.kind))
        return Some(e[0])
    mutseq('pop_front', _pop_front)

    def _insert(I, st, rv, p, a, n):
        k = conc(I.deref(a[0], st), 'index')
        L = rv.length()
        if isinstance(L, int) and k > L:
            I.panic(st, 1, 'insert index out of range', n)
        return setp(I, st, p, Seq(rv.slice(0, k).e + (elty(rv, a[1]),) + rv.slice(k, None).e, rv.kind))
    mutseq('insert', _insert)

    def _remove(I, st, rv, p, a, n):
        k = conc(I.deref(a[0], st), 'index')
        e = rv.items()
        if k >= len(e):
            I.panic(st, 1, 'remove index out of range', n)
        setp(I, st, p, Seq(e[:k] + e[k + 1:], rv.kind))
        return e[k]
    mutseq('remove', _remove)

    def _swap_remove(I, st, rv, p, a, n):
        k = conc(I.deref(a[0], st), 'index')
        e = rv.items()
        if k >= len(e):
            I.panic(st, 1, 'swap_remove index out of range', n)
        x = e[k]
        e[k] = e[-1]
        setp(I, st, p, Seq(e[:-1], rv.kind))
        return x
    mutseq('swap_remove', _swap_remove)

    def _swap(I, st, rv, p, a, n):
        i, j = conc(I.deref(a[0], st)), conc(I.deref(a[1], st))
        e = rv.items()
        if max(i, j) >= len(e):
            I.panic(st, 1, 'swap index out of range', n)
        e[i], e[j] = e[j], e[i]
        return setp(I, st, p, Seq(e, rv.kind))
    mutseq('swap', _swap)

    def _fill(I, st, rv, p, a, n):
        return setp(I, st, p, Seq([I.deref(a[0], st)] * len(rv.items()), rv.kind))
    mutseq('fill', _fill)

    def _rot(left):
        def f(I, st, rv, p, a, n):
            k = conc(I.deref(a[0], st))
            e = rv.items()
            k = k if left else len(e) - k
            return setp(I, st, p, Seq(e[k:] + e[:k], rv.kind))
        return f
    mutseq('rotate_left', _rot(True))
    mutseq('rotate_right', _rot(False))

    def _split_off(I, st, rv, p, a, n):
        k = conc(I.deref(a[0], st))
        setp(I, st, p, rv.slice(0, k))
        return rv.slice(k, None)
    mutseq('split_off', _split_off)

    def _copy_from_slice(I, st, rv, p, a, n):
        s = seq_of(I, a[0], st)
        la, lb = rv.length(), s.length()
        if isinstance(la, int) and isinstance(lb, int):
            if la != lb:
                I.panic(st, 1, 'copy_from_slice length mismatch', n)
        elif la != lb:
            pa = la if isinstance(la, Poly) else Poly.const(la)
            pb = lb if isinstance(lb, Poly) else Poly.const(lb)
            I.panic(st, bdd.neg(I.int_eq0(pa.add(pb, -1))), 'copy_from_slice length mismatch', n)
            if isinstance(la, int):
                s = known_len(s, la)
        return setp(I, st, p, Seq(s.e, rv.kind))
    mutseq('copy_from_slice', _copy_from_slice)
    mutseq('clone_from_slice', _copy_from_slice)

    def known_len(s, L):
        """a single opaque segment whose length is now known to be L"""
        if len(s.e) == 1 and isinstance(s.e[0], Seg):
            return Seq([Seg(s.e[0].t, s.e[0].off, L)], s.kind)
        return s
    I.known_len = known_len

    @m('into_boxed_slice')
    def _into_boxed(I, st, rv, p, args, n, hint):
        if isinstance(rv, Seq):
            I.effect(st, 'tight', rv, n)
            return rv
        return NI

    @m('to_vec', 'to_owned', 'into_vec', 'into_bytes', 'as_bytes', 'to_string', 'as_str', 'into_boxed_str', 'into_string', 'to_ascii_lowercase_')
    def _to_vec(I, st, rv, p, args, n, hint):
        if isinstance(rv, Opq) and rv.cls == 'b2hash':
            return b2bytes(rv)
        if isinstance(rv, Seq):
            return Seq([x if isinstance(x, Seg) else (I.deref(x, st) if isinstance(x, Ref) and not x.raw else x) for x in rv.e],
                       'str' if n.get('m') in ('to_string', 'as_str') else 'vec')
        if n.get('m') == 'to_string':
            return Term('to_string', (I.deref_deep(rv, st),))
        if n.get('m') == 'to_owned':
            return rv
        return NI

    @m('as_slice', 'as_ref', 'as_mut', 'as_mut_slice', 'borrow', 'borrow_mut', 'deref', 'deref_mut', 'as_array', 'by_value')
    def _as_ref(I, st, rv, p, args, n, hint):
        name = n.get('m', 'as_ref')
        if isinstance(rv, Opq) and rv.cls == 'b2hash':
            return b2bytes(rv)
        if isinstance(rv, Enum) and rv.name in ('Option', 'Result') and name in ('as_mut', 'as_deref_mut') and p is not None:
            return Enum(rv.name, rv.var, [Ref(p[0], p[1] + (('v', rv.var, i),)) for i in range(len(rv.e))])
        if name in ('as_mut', 'as_mut_slice', 'borrow_mut', 'deref_mut') and p is not None:
            return Ref(p[0], p[1])
        if isinstance(rv, (Struct,)) and name in ('as_ref', 'borrow') and isinstance(rv, Struct) and len(rv.f) == 1 and I.find_user_method(rv, name):
            return NI
        return rv
    _as_ref.nofork = False

    @m('as_deref', 'as_deref_mut')
    def _as_deref(I, st, rv, p, args, n, hint):
        return _as_ref(I, st, rv, p, args, n, hint) if n.get('m') == 'as_deref_mut' else rv

    @m('clone', 'cloned', 'copied', 'to_owned')
    def _clone(I, st, rv, p, args, n, hint):
        if isinstance(rv, Enum) and rv.name == 'Option':
            return Enum(rv.name, rv.var, [I.deref(x, st) for x in rv.e])
        if isinstance(rv, Seq) and any(isinstance(x, Ref) and not x.raw for x in rv.e):
            return Seq([I.deref(x, st) if isinstance(x, Ref) and not x.raw else x for x in rv.e], rv.kind)
        return rv
    M['clone'].nofork = True

    @m('chunks', 'chunks_exact', 'par_chunks', 'rchunks')
    def _chunks(I, st, rv, p, args, n, hint):
        if not isinstance(rv, Seq):
            return NI
        k = conc(I.deref(args[0], st), 'chunk size')
        if k == 0:
            I.panic(st, 1, 'chunk size 0', n)
        L = rv.length()
        if not isinstance(L, int):
            raise Undecided('chunks of a sequence of unknown length')
        out = []
        if n.get('m') == 'rchunks':
            i = L
            while i > 0:
                out.append(Seq(rv.slice(max(0, i - k), i).e, 'slice'))
                i -= k
            return it_list(out)
        for i in range(0, L, k):
            if i + k > L and n.get('m') == 'chunks_exact':
                break
            out.append(Seq(rv.slice(i, min(L, i + k)).e, 'slice'))
        return it_list(out)

    @m('chunks_mut', 'chunks_exact_mut')
    def _chunks_mut(I, st, rv, p, args, n, hint):
        if not isinstance(rv, Seq) or p is None:
            return NI
        k = conc(I.deref(args[0], st), 'chunk size')
        L = rv.length()
        if not isinstance(L, int):
            raise Undecided('chunks of a sequence of unknown length')
        return it_list([Ref(p[0], p[1] + (('s', i, min(L, i + k)),)) for i in range(0, L, k)
                        if i + k <= L or n.get('m') == 'chunks_mut'])

    @m('windows')
    def _windows(I, st, rv, p, args, n, hint):
        if not isinstance(rv, Seq):
            return NI
        k = conc(I.deref(args[0], st), 'window size')
        L = len(rv.items())
        return it_list([Seq(rv.slice(i, i + k).e, 'slice') for i in range(0, L - k + 1)])

    @m('concat')
    def _concat(I, st, rv, p, args, n, hint):
        if not isinstance(rv, Seq):
            return NI
        acc = Seq((), 'vec')
        for x in rv.e:
            x = I.deref(x, st)
            acc = lift(lambda a, b: Seq(a.e + seq_of(I, b, st).e, 'vec'), acc, x)
        return acc

    @m('first', 'last', 'get', 'get_mut', 'first_mut', 'last_mut', 'split_first', 'split_last', 'get_unchecked')
    def _get(I, st, rv, p, args, n, hint):
        if not args and n.get('m') == 'get' and isinstance(rv, (Int, Bool, Enum, Tup)):
            return rv       # Cell
        if not isinstance(rv, Seq):
            return NI
        name = n.get('m')
        L = rv.length()
        if name in ('first', 'last', 'first_mut', 'last_mut', 'split_first', 'split_last'):
            e = rv.items()
            if not e:
                return NONE
            i = 0 if 'first' in name else len(e) - 1
            if name.startswith('split'):
                rest = Seq(e[1:] if i == 0 else e[:-1], 'slice')
                return Some(Tup([e[i], rest]))
            if name.endswith('_mut') and p is not None:
                return Some(Ref(p[0], p[1] + (('i', i),)))
            return Some(e[i])
        i = I.deref(args[0], st)
        if isinstance(i, Opq) and i.cls == 'range':
            lo = 0 if i.f['lo'] is None else conc(i.f['lo'])
            hi = i.f['hi']
            if not isinstance(L, int):
                if hi is None:
                    c = I.int_le0(Poly.const(lo).add(L, -1))
                    return vite(c, Some(rv.slice(lo, None)), NONE)
                h = conc(hi) + (1 if i.f['incl'] else 0)
                c = I.int_le0(Poly.const(h).add(L, -1))
                return vite(c, Some(rv.slice(lo, h)), NONE)
            h = L if hi is None else conc(hi) + (1 if i.f['incl'] else 0)
            if lo > h or h > L:
                return NONE
            if name == 'get_mut' and p is not None:
                return Some(Ref(p[0], p[1] + (('s', lo, h),)))
            return Some(rv.slice(lo, h))
        if isinstance(i, Int) and i.v is not None:
            if isinstance(L, int):
                if i.v >= L:
                    return NONE
                if name == 'get_mut' and p is not None:
                    return Some(Ref(p[0], p[1] + (('i', i.v),)))
                return Some(I.proj(rv, ('i', i.v), st))
        raise Undecided('get with symbolic index')

    @m('split_at', 'split_at_mut')
    def _split_at(I, st, rv, p, args, n, hint):
        if not isinstance(rv, Seq):
            return NI
        k = I.deref(args[0], st)
        L = rv.length()
        if isinstance(k, Int) and k.lin is not None and k.lin == L:
            return Tup([rv, Seq((), 'slice')])
        k = conc(k, 'split point')
        if isinstance(L, int):
            if k > L:
                I.panic(st, 1, 'split_at out of range', n)
        else:
            I.panic(st, bdd.neg(I.int_le0(Poly.const(k).add(L, -1))), 'split_at beyond length', n)
        if n.get('m') == 'split_at_mut' and p is not None:
            return Tup([Ref(p[0], p[1] + (('s', 0, k),)), Ref(p[0], p[1] + (('s', k, L if isinstance(L, int) else None),))])
        return Tup([rv.slice(0, k), rv.slice(k, None)])

    @m('contains', 'starts_with', 'ends_with')
    def _contains(I, st, rv, p, args, n, hint):
        name = n.get('m', 'contains')
        a = I.deref(args[0], st)
        if isinstance(rv, Opq) and rv.cls == 'hashset':
            return mkbool(set_member(I, rv, a, st))
        if isinstance(rv, Opq) and rv.cls == 'range' and name == 'contains':
            c = 1
            if rv.f['lo'] is not None:
                c = bdd.and_(c, I.cmp('<=', rv.f['lo'], a, st))
            if rv.f['hi'] is not None:
                c = bdd.and_(c, I.cmp('<=' if rv.f['incl'] else '<', a, rv.f['hi'], st))
            return mkbool(c)
        if not isinstance(rv, Seq):
            return NI
        if name == 'contains':
            return mkbool(bdd.or_(*[I.veq(x, a, st) for x in rv.items()]) if rv.e else 0)
        k, L = a.length(), rv.length()
        if not isinstance(k, int) or not isinstance(L, int):
            raise Undecided('prefix test of unknown length')
        if k > L:
            return FALSE
        return mkbool(I.veq(rv.slice(0, k) if name == 'starts_with' else rv.slice(L - k, L), a, st))

    @m('strip_prefix', 'strip_suffix', 'trim_start_matches', 'trim_end_matches')
    def _strip(I, st, rv, p, args, n, hint):
        a = I.deref(args[0], st) if args else None
        if not isinstance(rv, Seq) or not isinstance(a, Seq) or n.get('m').startswith('trim'):
            return NI
        k, L = a.length(), rv.length()
        if not isinstance(k, int) or not isinstance(L, int):
            raise Undecided('prefix of unknown length')
        if k > L:
            return NONE
        pre = n.get('m') == 'strip_prefix'
        c = I.veq(rv.slice(0, k) if pre else rv.slice(L - k, L), a, st)
        return vite(c, Some(rv.slice(k, L) if pre else rv.slice(0, L - k)), NONE)

    @m('to_ascii_uppercase', 'to_ascii_lowercase')
    def _acase(I, st, rv, p, args, n, hint):
        up = n.get('m') == 'to_ascii_uppercase'
        def one(x):
            b = x.tobits(8)
            lo = [v if v is not None else 0 for v in b]
            # 'a'..='z' differs from 'A'..='Z' in bit 5
            low5 = Int('u8', bits=lo[:5] + [0, 0, 0])
            c = bdd.and_(bdd.and_(lo[6], bdd.neg(lo[7])), lo[5] if up else bdd.neg(lo[5]))
            c = bdd.and_(c, bdd.and_(I.cmp('>=', low5, Int('u8', v=1), st), I.cmp('<=', low5, Int('u8', v=26), st)))
            return Int('u8', bits=lo[:5] + [bdd.ite(c, 0 if up else 1, lo[5])] + lo[6:])
        if isinstance(rv, Int) and rv.ty == 'u8':
            return one(rv)
        if not isinstance(rv, Seq) or not isinstance(rv.length(), int):
            return NI
        return Seq([one(x) for x in rv.items()], 'vec')

    # the environment of the process is an input no result may depend on
    def environ(I, st, a, os):
        nm = I.deref(a[0], st)
        c = bdd.atom(('environment', show(nm)))
        x = bytes_sym('environment ' + show(nm))
        some = Seq(x.e, 'str')
        return vite(c, Some(some), NONE) if os else vite(c, Ok(some), Err(Term('VarError', ())))
    F['env::var'] = lambda I, st, a, n, h, i: environ(I, st, a, False)
    F['env::var_os'] = lambda I, st, a, n, h, i: environ(I, st, a, True)

    @m('into', 'try_into', 'from')
    def _into(I, st, rv, p, args, n, hint):
        name = n.get('m', 'into')
        ty = hint
        if name == 'try_into':
            inner = ty[2][0] if ty is not None and ty[0] == 'path' and ty[2] else None
            L = rv.length() if isinstance(rv, Seq) else None
            if isinstance(rv, Seq):
                want = array_len(I, inner, st)
                if want is None:
                    return Ok(Seq(rv.e, 'array'))
                if isinstance(L, int):
                    return Ok(Seq(rv.e, 'array')) if L == want else Err(Term('TryFromSliceError', ()))
                c = I.int_eq0(L.add(Poly.const(-want)))
                return vite(c, Ok(known_len(Seq(rv.e, 'array'), want)), Err(Term('TryFromSliceError', ())))
            if isinstance(rv, Int):
                h = I.head(inner) if inner is not None else None
                if h in WIDTH:
                    return checked_conv(I, rv, h)
            if isinstance(rv, (Struct, Enum)):
                for im, d in I.prog.by_method.get('try_from', []):
                    if I.ty_matches(rv, d.node['sig']['in'][0]['t'], im):
                        return I.call(d, [rv], None, None, st, n)
            return NI
        if ty is None or ty[0] == 'infer':
            if isinstance(rv, (Struct, Enum)) and name == 'into':
                c = user_from(I, rv, None)
                if len(c) == 1:
                    return I.call(c[0][1], [rv], None, None, st, n)
                if c:
                    raise Undecided('conversion of %s into an unknown type' % rv.name)
            return rv
        return convert(I, rv, ty, st, n)

    def user_from(I, v, h):
        return [(im, d) for im, d in I.prog.by_method.get('from', []) if (h is None or im.head == h) and I.ty_matches(v, d.node['sig']['in'][0]['t'], im)]

    def array_len(I, ty, st):
        if ty is not None and ty[0] == 'array':
            try:
                from interp import Scope
                return conc(I.ev(ty[2], Scope(), st, None))
            except Undecided:
                return None
        return None
    I.array_len = array_len

    def checked_conv(I, v, t):
        w = WIDTH[t]
        if v.v is not None:
            lo, hi = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if t in SIGNED else (0, (1 << w) - 1)
            return Ok(Int(t, v=v.v)) if lo <= v.v <= hi else Err(Term('TryFromIntError', ()))
        hi = (1 << (w - (t in SIGNED))) - 1
        if v.width() and v.width() <= w and t not in SIGNED:
            return Ok(I.retype(v, t))
        c = I.cmp('<=', v, Int(v.ty, v=hi))
        return vite(c, Ok(I.retype(v, t)), Err(Term('TryFromIntError', ())))

    def convert(I, v, ty, st, n):
        """From/Into with known target type"""
        h = I.head(ty)
        if isinstance(v, Int) and h in WIDTH:
            return I.retype(v, h)
        if isinstance(v, Bool) and h in WIDTH:
            return I.cast(v, ty, st, n)
        if h in ('Vec', 'slice', 'Box', 'Rc', 'Arc', 'String') and isinstance(v, Seq):
            return Seq(v.e, 'vec' if h == 'Vec' else v.kind)
        if h in ('Option',):
            return Some(v) if not (isinstance(v, Enum) and v.name == 'Option') else v
        from program import D
        if ty[0] == 'path' and isinstance(ty[3], D):
            return I.from_conv(v, ty, st, n)
        f = F.get('%s::from' % h)
        if f is not None:
            return f(I, st, [v], n, None, {'tty': ty, 'targs': None})
        # repository impl Into/From for foreign types
        if h is not None and isinstance(v, (Struct, Enum)):
            c = user_from(I, v, h)
            if c:
                return I.call(c[0][1], [v], ty, None, st, n)
        for im, d in I.prog.by_method.get('into', []) + []:
            if I.ty_matches(v, im.node['t'], im):
                return I.call(d, [v], None, None, st, n)
        return v
    I.convert = convert

    # ---- option / result
    def isopt(v):
        return isinstance(v, Enum) and v.name in ('Option', 'Result')

    def good(v):
        return v.var in ('Some', 'Ok')

    @m('unwrap', 'expect', 'unwrap_unchecked')
    def _unwrap(I, st, rv, p, args, n, hint):
        if isopt(rv):
            if not good(rv):
                I.panic(st, 1, 'unwrap on %s' % rv.var, n)
            return rv.e[0]
        if isinstance(rv, Term):
            a = bdd.atom(('ok', rv))
            I.panic(st, bdd.neg(a), 'unwrap', n)
            return Term('unwrap', (rv,))
        return NI

    @m('unwrap_err', 'expect_err')
    def _unwrap_err(I, st, rv, p, args, n, hint):
        if isopt(rv):
            if good(rv):
                I.panic(st, 1, 'unwrap_err on Ok', n)
            return rv.e[0]
        return NI

    def optm(name, f):
        def g(I, st, rv, p, args, n, hint):
            if not isopt(rv):
                if isinstance(rv, Term) and not rv.op.startswith('?') or isinstance(rv, Term):
                    a = bdd.atom(('ok', rv))
                    return I.fork(st, [(a, lambda s: f(I, s, Ok(Term('unwrap', (rv,))), p, args, n)),
                                       (bdd.neg(a), lambda s: f(I, s, Err(Term('err', (rv,))), p, args, n))])
                return NI
            return f(I, st, rv, p, args, n)
        m(name)(g)

    def cv(I, f, a, st, n):
        return I.call_value(f, a, st, n)

    optm('unwrap_or', lambda I, st, v, p, a, n: v.e[0] if good(v) else a[0])
    optm('unwrap_or_else', lambda I, st, v, p, a, n: v.e[0] if good(v) else cv(I, a[0], list(v.e), st, n))
    optm('map', lambda I, st, v, p, a, n: Enum(v.name, v.var, (cv(I, a[0], [v.e[0]], st, n),)) if good(v) else v)
    optm('map_err', lambda I, st, v, p, a, n: v if good(v) else Err(cv(I, a[0], [v.e[0]], st, n)))
    optm('and_then', lambda I, st, v, p, a, n: I.deref(cv(I, a[0], [v.e[0]], st, n), st) if good(v) else v)
    optm('or_else', lambda I, st, v, p, a, n: v if good(v) else cv(I, a[0], list(v.e), st, n))
    optm('and', lambda I, st, v, p, a, n: I.deref(a[0], st) if good(v) else v)
    optm('or', lambda I, st, v, p, a, n: v if good(v) else I.deref(a[0], st))
    optm('ok', lambda I, st, v, p, a, n: Some(v.e[0]) if good(v) else NONE)
    optm('err', lambda I, st, v, p, a, n: NONE if good(v) else Some(v.e[0]))
    optm('ok_or', lambda I, st, v, p, a, n: Ok(v.e[0]) if good(v) else Err(a[0]))
    optm('ok_or_else', lambda I, st, v, p, a, n: Ok(v.e[0]) if good(v) else Err(cv(I, a[0], [], st, n)))
    optm('is_some', lambda I, st, v, p, a, n: mkbool(good(v)))
    optm('is_ok', lambda I, st, v, p, a, n: mkbool(good(v)))
    optm('is_none', lambda I, st, v, p, a, n: mkbool(not good(v)))
    optm('is_err', lambda I, st, v, p, a, n: mkbool(not good(v)))
    optm('map_or', lambda I, st, v, p, a, n: cv(I, a[1], [v.e[0]], st, n) if good(v) else a[0])
    optm('map_or_else', lambda I, st, v, p, a, n: cv(I, a[1], [v.e[0]], st, n) if good(v) else cv(I, a[0], list(v.e), st, n))
    optm('is_some_and', lambda I, st, v, p, a, n: mkbool(I.truth(cv(I, a[0], [v.e[0]], st, n), st)) if good(v) else FALSE)
    optm('is_ok_and', lambda I, st, v, p, a, n: mkbool(I.truth(cv(I, a[0], [v.e[0]], st, n), st)) if good(v) else FALSE)
    optm('flatten', lambda I, st, v, p, a, n: I.deref(v.e[0], st) if good(v) else v)
    optm('zip', lambda I, st, v, p, a, n: lift(lambda b: Some(Tup([v.e[0], b.e[0]])) if good(v) and good(b) else NONE, I.deref(a[0], st)))
    optm('transpose', lambda I, st, v, p, a, n: transpose(I, v, st))
    optm('filter', lambda I, st, v, p, a, n: vite(I.truth(cv(I, a[0], [v.e[0]], st, n), st), v, NONE) if good(v) else v)

    def transpose(I, v, st):
        if v.name == 'Option':
            if not good(v):
                return Ok(NONE)
            return lift(lambda x: Ok(Some(x.e[0])) if good(x) else x, I.deref(v.e[0], st))
        if not good(v):
            return Some(v)
        return lift(lambda x: Some(Ok(x.e[0])) if good(x) else NONE, I.deref(v.e[0], st))

    @m('unwrap_or_default')
    def _uod(I, st, rv, p, args, n, hint):
        if isopt(rv):
            if good(rv):
                return rv.e[0]
            return default(I, hint, st, n)
        return NI

    @m('take')
    def _otake(I, st, rv, p, args, n, hint):
        if isinstance(rv, Enum) and rv.name == 'Option' and p is not None and not args:
            I.write(st, p, NONE)
            return rv
        return NI

    # atomics and cells are their contents
    for nm in ('Bool', 'U8', 'U16', 'U32', 'U64', 'Usize', 'I8', 'I16', 'I32', 'I64', 'Isize'):
        F['Atomic%s::new' % nm] = lambda I, st, a, n, h, i, t=nm.lower(): I.coerce(I.deref(a[0], st), ('path', t, (), ()))

    @m('load', 'into_inner')
    def _aload(I, st, rv, p, args, n, hint):
        return rv if isinstance(rv, (Int, Bool)) else NI

    @m('store', 'fetch_add', 'fetch_sub', 'fetch_and', 'fetch_or', 'fetch_xor', 'fetch_max', 'fetch_min', 'swap', 'fetch_nand')
    def _astore(I, st, rv, p, args, n, hint):
        if not isinstance(rv, (Int, Bool)) or p is None or len(args) != 2:
            return NI
        o, x = n.get('m'), I.deref(args[0], st)
        if o in ('store', 'swap'):
            I.write(st, p, I.coerce(x, ('path', rv.ty, (), ())) if isinstance(rv, Int) and isinstance(x, Int) else x)
            return UNIT if o == 'store' else rv
        op = {'fetch_add': '+', 'fetch_sub': '-', 'fetch_and': '&', 'fetch_or': '|', 'fetch_xor': '^'}.get(o)
        if op is None:
            return NI
        I.write(st, p, I.binop(op, rv, x, st, n) if op in '&|^' else I.arith(op, rv, x, st, n, 'wrap'))
        return rv

    @m('compare_exchange', 'compare_exchange_weak')
    def _acas(I, st, rv, p, args, n, hint):
        if not isinstance(rv, (Int, Bool)) or p is None or len(args) != 4:
            return NI
        a, b = I.deref(args[0], st), I.deref(args[1], st)
        c = I.veq(rv, a, st)
        I.write(st, p, vite(c, b, rv))
        return vite(c, Ok(rv), Err(rv))

    @m('set')
    def _cset(I, st, rv, p, args, n, hint):
        if p is None or len(args) != 1 or not isinstance(rv, (Int, Bool, Seq, Enum, Tup)):
            return NI
        I.write(st, p, args[0])
        return UNIT

    @m('replace')
    def _oreplace(I, st, rv, p, args, n, hint):
        if isinstance(rv, Enum) and rv.name == 'Option' and p is not None:
            I.write(st, p, Some(args[0]))
            return rv
        return NI

    @m('get_or_insert_with', 'get_or_insert')
    def _goi(I, st, rv, p, args, n, hint):
        if isinstance(rv, Enum) and rv.name == 'Option' and p is not None:
            if rv.var == 'None':
                x = I.call_value(args[0], [], st, n) if n.get('m') == 'get_or_insert_with' else args[0]
                I.write(st, p, Some(x))
            return Ref(p[0], p[1] + (('v', 'Some', 0),))
        return NI

    # ---- booleans
    @m('then')
    def _then(I, st, rv, p, args, n, hint):
        if isinstance(rv, Bool):
            return I.branch(st, rv.b, lambda s: Some(I.call_value(args[0], [], s, n)), lambda s: NONE)
        return NI

    @m('then_some')
    def _then_some(I, st, rv, p, args, n, hint):
        if isinstance(rv, Bool):
            return vite(rv.b, Some(args[0]), NONE)
        return NI

    @m('not')
    def _not(I, st, rv, p, args, n, hint):
        if isinstance(rv, (Bool, Int)):
            return I.unop('!', rv, st, n)
        return NI

    # ---- integers
    def intm(name, f):
        def g(I, st, rv, p, args, n, hint):
            if not isinstance(rv, Int):
                return NI
            return f(I, st, rv, [I.deref(a, st) for a in args], n)
        m(name)(g)

    def ovf(I, st, op, a, b, n):
        """(wrapped result, overflow condition)"""
        from interp import State, Dead
        s = State(dict(st.heap), st.pc)
        k = len(I.panics)
        try:
            I.arith(op, a, b, s, n)
        except Dead:
            pass
        ps = I.panics[k:]
        del I.panics[k:]
        c = bdd.or_(*[g for g, _, _ in ps]) if ps else 0
        return I.arith(op, a, b, State(dict(st.heap), st.pc), n, 'wrap'), c

    for nm, op in (('add', '+'), ('sub', '-'), ('mul', '*'), ('shl', '<<'), ('shr', '>>'), ('div', '/'), ('rem', '%')):
        intm('wrapping_' + nm, lambda I, st, v, a, n, op=op: I.arith(op, v, a[0], st, n, 'wrap'))

        def chk(I, st, v, a, n, op=op):
            if op in ('/', '%'):
                z = I.veq(a[0], Int(a[0].ty, v=0), st)
                if z == 1:
                    return NONE
                if z == 0:
                    return Some(I.arith(op, v, a[0], st, n))
                raise Undecided('checked division')
            if v.lin is not None or a[0].lin is not None:
                if op == '-':
                    c = I.cmp('<', v, a[0], st)
                    return vite(c, NONE, Some(I.arith(op, v, a[0], st, n)))
                return Some(I.arith(op, v, a[0], st, n))
            r, c = ovf(I, st, op, v, a[0], n)
            return vite(c, NONE, Some(r))
        intm('checked_' + nm, chk)

        def sat(I, st, v, a, n, op=op):
            if op == '-' and (v.lin is not None or a[0].lin is not None):
                c = I.cmp('<', v, a[0], st)
                return vite(c, Int(v.ty, v=0), I.arith(op, v, a[0], st, n))
            if v.lin is not None or a[0].lin is not None:
                return I.arith(op, v, a[0], st, n)
            r, c = ovf(I, st, op, v, a[0], n)
            ty = v.ty or a[0].ty
            ext = 0 if op == '-' else (1 << WIDTH.get(ty, 64)) - 1
            return vite(c, Int(ty, v=ext), r)
        intm('saturating_' + nm, sat)

        def ofl(I, st, v, a, n, op=op):
            r, c = ovf(I, st, op, v, a[0], n)
            return Tup([r, mkbool(c)])
        intm('overflowing_' + nm, ofl)

    for nm, op in (('add', '+'), ('sub', '-'), ('mul', '*'), ('div', '/'), ('rem', '%'), ('bitand', '&'), ('bitor', '|'), ('bitxor', '^')):
        def opm(I, st, rv, p, args, n, hint, op=op):
            if isinstance(rv, (Int, Bool, Alg)) or isinstance(rv, Struct):
                return I.binop(op, rv, args[0], st, n)
            return NI
        m(nm)(opm)

        def opa(I, st, rv, p, args, n, hint, op=op):
            if p is None:
                return NI
            I.write(st, p, I.binop(op, rv, args[0], st, n))
            return UNIT
        m(nm + '_assign')(opa)

    @m('neg')
    def _neg(I, st, rv, p, args, n, hint):
        if isinstance(rv, (Int, Alg, Struct)):
            return I.unop('-', rv, st, n)
        return NI

    def _pow(I, st, v, a, n):
        e = conc(a[0], 'exponent')
        if v.v is not None:
            return I.wrap(v.v ** e, v.ty, st, n, 'pow')
        r = Int(v.ty, v=1)
        for _ in range(e):
            r = I.arith('*', r, v, st, n)
        return r
    intm('pow', _pow)

    def _minmax(I, st, rv, p, args, n, hint):
        b = I.deref(args[0], st) if args else None
        if not isinstance(rv, Int) or b is None:
            return NI
        return minmax(I, rv, b, n.get('m') == 'min', st)

    def minmax(I, a, b, mn, st):
        if isinstance(a, Int) and isinstance(b, Int):
            a, b, _ = I.unify(a, b)
        c = I.cmp('<=', a, b, st) if mn else I.cmp('>=', a, b, st)
        return vite(c, a, b)
    m('min', 'max')(_minmax)
    F['cmp::min'] = F['min'] = lambda I, st, a, n, h, i: minmax(I, I.deref(a[0], st), I.deref(a[1], st), True, st)
    F['cmp::max'] = F['max'] = lambda I, st, a, n, h, i: minmax(I, I.deref(a[0], st), I.deref(a[1], st), False, st)

    def tob(le):
        def f(I, st, v, a, n):
            w = v.width()
            if w is None:
                raise Undecided('bytes of an untyped integer')
            return Seq(int_bytes(v, w, le), 'array')
        return f
    intm('to_le_bytes', tob(True))
    intm('to_be_bytes', tob(False))
    intm('to_ne_bytes', tob(True))
    intm('to_le', lambda I, st, v, a, n: v)
    intm('swap_bytes', lambda I, st, v, a, n: bytes_int(int_bytes(v, v.width(), False), v.ty, True))
    intm('to_be', lambda I, st, v, a, n: bytes_int(int_bytes(v, v.width(), False), v.ty, True))
    intm('count_ones', lambda I, st, v, a, n: popcount(I, v, st, n))
    intm('is_power_of_two', lambda I, st, v, a, n: mkbool(v.v & (v.v - 1) == 0 and v.v > 0) if v.v is not None else Bool(bdd.atom(('pow2', v))))
    intm('reverse_bits', lambda I, st, v, a, n: Int(v.ty, bits=v.tobits(v.width())[::-1]))
    intm('leading_zeros', lambda I, st, v, a, n: Int('u32', v=v.width() - v.v.bit_length()) if v.v is not None else Int('u32', lin=Poly.atom(('clz', v))))
    intm('trailing_zeros', lambda I, st, v, a, n: Int('u32', v=(v.v & -v.v).bit_length() - 1 if v.v else v.width()) if v.v is not None else Int('u32', lin=Poly.atom(('ctz', v))))
    intm('rotate_left', lambda I, st, v, a, n: Int(v.ty, bits=rotl(v.tobits(v.width()), conc(a[0]))))
    intm('rotate_right', lambda I, st, v, a, n: Int(v.ty, bits=rotl(v.tobits(v.width()), v.width() - conc(a[0]))))
    intm('abs', lambda I, st, v, a, n: Int(v.ty, v=abs(conc(v))))
    intm('ceil', lambda I, st, v, a, n: v)

    @m('ceil', 'floor', 'round', 'trunc', 'sqrt', 'log2', 'abs', 'powi', 'powf', 'min', 'max')
    def _float(I, st, rv, p, args, n, hint):
        import math
        if not (isinstance(rv, Opq) and rv.cls == 'f64'):
            return NI
        x = rv.f['v']
        y = I.deref(args[0], st) if args else None
        y = y.f['v'] if isinstance(y, Opq) and y.cls == 'f64' else y.v if isinstance(y, Int) else None
        if args and y is None:
            return NI
        f = {'ceil': math.ceil, 'floor': math.floor, 'trunc': math.trunc, 'sqrt': math.sqrt, 'log2': math.log2, 'abs': abs,
             'round': lambda z: math.floor(abs(z) + 0.5) * (1 if z >= 0 else -1)}.get(n['m'])
        if f is not None:
            return Opq('f64', v=float(f(x)))
        return Opq('f64', v=float({'powi': pow, 'powf': pow, 'min': min, 'max': max}[n['m']](x, y)))
    intm('div_ceil', lambda I, st, v, a, n: I.arith('/', I.arith('+', v, Int(v.ty, v=conc(a[0]) - 1), st, n), a[0], st, n))
    intm('next_multiple_of', lambda I, st, v, a, n: I.arith('*', I.arith('/', I.arith('+', v, Int(v.ty, v=conc(a[0]) - 1), st, n), a[0], st, n), a[0], st, n))

    def rotl(b, k):
        k %= len(b)
        return b[len(b) - k:] + b[:len(b) - k]

    def popcount(I, v, st, n):
        acc = Int('u32', v=0)
        for b in v.tobits():
            acc = I.arith('+', acc, Int('u32', bits=(b,) + (0,) * 31), st, n)
        return acc

    for t in INTS:
        w = WIDTH[t]
        hi = (1 << (w - (t in SIGNED))) - 1
        lo = -(1 << (w - 1)) if t in SIGNED else 0
        F['const %s::MAX' % t] = lambda I, st, tty, n, t=t, hi=hi: Int(t, v=hi)
        F['const %s::MIN' % t] = lambda I, st, tty, n, t=t, lo=lo: Int(t, v=lo)
        F['const %s::BITS' % t] = lambda I, st, tty, n, w=w: Int('u32', v=w)
        F['%s::max_value' % t] = lambda I, st, a, n, h, i, t=t, hi=hi: Int(t, v=hi)
        F['%s::min_value' % t] = lambda I, st, a, n, h, i, t=t, lo=lo: Int(t, v=lo)
        F['%s::from' % t] = lambda I, st, a, n, h, i, t=t: lift(lambda v: I.cast(v, ('path', t, (), ()), st, n), I.deref(a[0], st))
        F['%s::try_from' % t] = lambda I, st, a, n, h, i, t=t: lift(lambda v: checked_conv(I, v, t), I.deref(a[0], st))
        F['%s::default' % t] = lambda I, st, a, n, h, i, t=t: Int(t, v=0)

        def frombytes(I, st, a, n, h, i, t=t, w=w, le=True):
            s = seq_of(I, a[0], st)
            if s.length() != w // 8:
                if not isinstance(s.length(), int):
                    raise Undecided('from_bytes of unknown length')
            return bytes_int(s.items(), t, le)
        F['%s::from_le_bytes' % t] = frombytes
        F['%s::from_ne_bytes' % t] = frombytes
        F['%s::from_be_bytes' % t] = lambda I, st, a, n, h, i, f=frombytes: f(I, st, a, n, h, i, le=False)
    F['bool::from'] = lambda I, st, a, n, h, i: I.deref(a[0], st)
    F['bool::default'] = lambda I, st, a, n, h, i: FALSE

    # ---- byteorder / io::Write
    def writer(w):
        def f(I, st, rv, p, args, n, hint):
            ord_ = I.head(hint[1][0]) if hint is not None and hint[0] == 'turbo' and hint[1] else None
            v = I.deref(args[0], st)
            if isinstance(v, Gated) and all(isinstance(x, Int) for x, g in v.g):
                ls = [(g, x.tobits(w)) for x, g in v.g]
                bits = ls[-1][1]
                for g, b in ls[:-1]:
                    bits = [bdd.ite(g, x, y) for x, y in zip(b, bits)]
                v = Int('u%d' % w, bits=bits)
            if isinstance(v, Gated):
                raise Undecided('write of a path-dependent integer')
            if not isinstance(v, Int):
                return NI
            if w > 8 and ord_ not in ('LittleEndian', 'BigEndian', 'LE', 'BE', 'NetworkEndian', 'NativeEndian'):
                return NI
            return sink_write(I, st, p, Seq(int_bytes(v, w, ord_ not in ('BigEndian', 'BE', 'NetworkEndian'))), n)
        return f
    for t in ('u8', 'u16', 'u32', 'u64', 'u128', 'i8', 'i16', 'i32', 'i64'):
        m('write_' + t)(writer(WIDTH[t]))

    def bo(fn_, w, ty, write):
        def f(I, st, a, n, h, info, le):
            if write:
                b = a[0]
                return Ok(UNIT) if False else bo_write(I, st, a, n, w, le)
            s = seq_of(I, a[0], st)
            L = s.length()
            if isinstance(L, int) and L < w // 8:
                I.panic(st, 1, 'read past the end', n)
            return bytes_int(s.slice(0, w // 8).items(), ty, le)
        for nm, le in (('LittleEndian', True), ('LE', True), ('BigEndian', False), ('BE', False), ('NetworkEndian', False)):
            F['%s::%s' % (nm, fn_)] = lambda I, st, a, n, h, i, le=le: f(I, st, a, n, h, i, le)

    def bo_write(I, st, a, n, w, le):
        r = a[0]
        v = I.deref(a[1], st)
        if not isinstance(r, Ref):
            raise Undecided('byteorder write target')
        s = I.deref(r, st)
        k = w // 8
        L = s.length()
        if not isinstance(L, int) or L < k:
            I.panic(st, 1, 'write past the end', n)
        pl = (r.loc, r.path)
        x = I.read(st, pl)
        while isinstance(x, Ref):
            pl = (x.loc, x.path)
            x = I.read(st, pl)
        I.write(st, pl, Seq(tuple(int_bytes(v, w, le)) + x.slice(k, None).e, x.kind))
        return UNIT
    for t in ('u16', 'u32', 'u64', 'u128'):
        bo('write_' + t, WIDTH[t], t, True)
        bo('read_' + t, WIDTH[t], t, False)

    @m('write_all', 'write')
    def _write_all(I, st, rv, p, args, n, hint):
        if isinstance(rv, Seq) and p is not None:
            s = seq_of(I, args[0], st)
            r = sink_write(I, st, p, s, n)
            if n.get('m') == 'write' and isinstance(r, Enum) and r.var == 'Ok':
                return Ok(usz(s.length()))
            return r
        return NI

    @m('flush')
    def _flush(I, st, rv, p, args, n, hint):
        return Ok(UNIT)

    # ---- constructors and free functions
    @fn('Vec::new', 'VecDeque::new')
    def _vecnew(I, st, a, n, h, i):
        return Seq((), 'vec')
    F['Vec::with_capacity'] = F['VecDeque::with_capacity'] = F['Vec::default'] = _vecnew
    F['String::new'] = F['String::with_capacity'] = F['String::default'] = lambda I, st, a, n, h, i: Seq((), 'str')
    F['Vec::from'] = lambda I, st, a, n, h, i: lift(lambda s: Seq(seq_of(I, s, st).e, 'vec'), I.deref(a[0], st))
    F['String::from'] = lambda I, st, a, n, h, i: Seq(seq_of(I, a[0], st).e, 'str')
    F['Vec::from_iter'] = lambda I, st, a, n, h, i: build_seq(elems(I, to_iter(I, I.deref(a[0], st), st, n), st, n))
    F['String::from_utf8'] = lambda I, st, a, n, h, i: Ok(Seq(seq_of(I, a[0], st).e, 'str'))
    for nm in ('Box', 'Rc', 'Arc', 'RefCell', 'Cell', 'Mutex', 'RwLock', 'Cow', 'ManuallyDrop', 'Some', 'Wrapping', 'Pin'):
        if nm == 'Some':
            continue
        F[nm + '::new'] = F[nm + '::from'] = lambda I, st, a, n, h, i: a[0]
    F['Rc::clone'] = F['Arc::clone'] = lambda I, st, a, n, h, i: I.deref(a[0], st)
    F['Some'] = lambda I, st, a, n, h, i: Some(a[0])

    @fn('Lazy::new', 'OnceCell::with_value')
    def _lazy(I, st, a, n, h, i):
        return Opq('lazy', f=a[0])

    @fn('Lazy::force')
    def _force(I, st, a, n, h, i):
        return force(I, I.deref(a[0], st), st, n)

    def force(I, v, st, n):
        if isinstance(v, Opq) and v.cls == 'lazy':
            key = ('lazy', v)
            if key not in I.consts:
                I.consts[key] = I.call_value(v.f['f'], [], st, n)
            return I.consts[key]
        return v
    I.force = force

    def hs(I, st, a, n, h, i):
        return Opq('hashset', e=())
    F['HashSet::new'] = F['HashSet::with_capacity'] = F['HashSet::default'] = F['BTreeSet::new'] = hs
    F['HashSet::from_iter'] = F['BTreeSet::from_iter'] = lambda I, st, a, n, h, i: collect(I, to_iter(I, I.deref(a[0], st), st, n), st, n, ('path', 'HashSet', (), ()))

    def isset(v):
        return isinstance(v, Opq) and v.cls == 'hashset'

    @m('insert')
    def _sinsert(I, st, rv, p, args, n, hint):
        if not isset(rv):
            return NI
        v, r = set_insert(I, rv, I.deref(args[0], st), st)
        I.write(st, p, v)
        return r

    @m('remove')
    def _sremove(I, st, rv, p, args, n, hint):
        if not isset(rv):
            return NI
        x = I.deref(args[0], st)
        out, hit = [], 0
        for y in rv.f['e']:
            c = I.veq(y, x, st)
            if c not in (0, 1):
                raise Undecided('set removal of a possibly present element')
            if c:
                hit = 1
            else:
                out.append(y)
        I.write(st, p, Opq('hashset', e=tuple(out)))
        return mkbool(hit)

    @m('clear')
    def _sclear(I, st, rv, p, args, n, hint):
        if isset(rv):
            I.write(st, p, Opq('hashset', e=()))
            return UNIT
        return NI

    @m('extend')
    def _sextend(I, st, rv, p, args, n, hint):
        if not isset(rv):
            return NI
        v = rv
        for g, x in drain(I, to_iter(I, args[0], st, n), st, n):
            if g != 1:
                raise Undecided('set extension by a filtered iterator')
            v, _ = set_insert(I, v, I.deref(x, st), st)
        I.write(st, p, v)
        return UNIT

    @m('retain')
    def _retain(I, st, rv, p, args, n, hint):
        if not (isset(rv) or isinstance(rv, Seq)):
            return NI
        e = rv.f['e'] if isset(rv) else rv.items()
        out = []
        for x in e:
            c = I.truth(I.call_value(args[0], [x], st, n), st)
            if c not in (0, 1):
                raise Undecided('retain with an unknown predicate')
            if c:
                out.append(x)
        I.write(st, p, Opq('hashset', e=tuple(out)) if isset(rv) else Seq(out, rv.kind))
        return UNIT

    @m('is_subset', 'is_superset', 'is_disjoint')
    def _setcmp(I, st, rv, p, args, n, hint):
        b = I.deref(args[0], st)
        if not isset(rv) or not isset(b):
            return NI
        A, B = (b, rv) if n['m'] == 'is_superset' else (rv, b)
        r = 1
        for x in A.f['e']:
            c = set_member(I, B, x, st)
            r = bdd.and_(r, bdd.neg(c) if n['m'] == 'is_disjoint' else c)
        return mkbool(r)

    @m('difference', 'intersection', 'union', 'symmetric_difference')
    def _setop(I, st, rv, p, args, n, hint):
        if not isset(rv):
            return NI
        b = I.deref(args[0], st)
        name = n['m']

        def mem(s, x):
            c = set_member(I, s, x, st)
            if c not in (0, 1):
                raise Undecided('set operation on possibly equal elements')
            return c
        A, B = rv.f['e'], b.f['e']
        if name == 'difference':
            return it_list([x for x in A if not mem(b, x)])
        if name == 'intersection':
            return it_list([x for x in A if mem(b, x)])
        if name == 'union':
            return it_list(list(A) + [x for x in B if not mem(rv, x)])
        return it_list([x for x in A if not mem(b, x)] + [x for x in B if not mem(rv, x)])

    for nm, i in (('op-', 'difference'), ('op|', 'union'), ('op&', 'intersection')):
        def sop(I, st, a, _, b, n, h, i=i):
            if isset(a) and isset(I.deref(b[0], st)):
                return Opq('hashset', e=_setop(I, st, a, None, b, {'m': i}, None).f['e'])
            return None
        M[nm] = sop

    # ---- mem / ptr
    @fn('mem::swap')
    def _mswap(I, st, a, n, h, i):
        x, y = I.deref(a[0], st), I.deref(a[1], st)
        I.write(st, (a[0].loc, a[0].path), y)
        I.write(st, (a[1].loc, a[1].path), x)
        return UNIT

    @fn('mem::replace')
    def _mreplace(I, st, a, n, h, i):
        x = I.deref(a[0], st)
        I.write(st, (a[0].loc, a[0].path), a[1])
        return x

    @fn('mem::take')
    def _mtake(I, st, a, n, h, i):
        x = I.deref(a[0], st)
        d = Seq((), x.kind) if isinstance(x, Seq) else Int(x.ty, v=0) if isinstance(x, Int) else NONE if isinstance(x, Enum) \
            else Opq('hashset', e=()) if isset(x) else Alg(Poly.const(0), x.kind) if isinstance(x, Alg) else None
        if d is None:
            raise Undecided('mem::take of %s' % show(x)[:40])
        I.write(st, (a[0].loc, a[0].path), d)
        return x

    @fn('mem::forget')
    def _forget(I, st, a, n, h, i):
        I.effect(st, 'forget', I.deref_deep(a[0], st), n)
        return UNIT

    @fn('drop', 'mem::drop')
    def _drop(I, st, a, n, h, i):
        I.effect(st, 'drop', I.deref_deep(a[0], st), n)
        return UNIT

    @fn('mem::size_of')
    def _size_of(I, st, a, n, h, i):
        t = (i.get('targs') or [None])[0]
        hd = I.head(t) if t is not None else None
        if hd in WIDTH:
            return Int('usize', v=WIDTH[hd] // 8)
        return isym(('size_of', str(hd)), 'usize')

    @fn('convert::identity', 'black_box', 'hint::black_box', 'iter::empty_')
    def _ident(I, st, a, n, h, i):
        return a[0]

    F['iter::repeat'] = lambda I, st, a, n, h, i: it('repeat', v=I.deref(a[0], st))
    F['iter::repeat_with'] = lambda I, st, a, n, h, i: it('repeatwith', f=a[0])
    F['iter::once'] = lambda I, st, a, n, h, i: it_list([a[0]])
    F['iter::empty'] = lambda I, st, a, n, h, i: it_list([])
    F['iter::from_fn'] = lambda I, st, a, n, h, i: it('fromfn', f=a[0])
    F['iter::successors'] = lambda I, st, a, n, h, i: it('successors', cur=I.deref(a[0], st), f=a[1])
    F['iter::zip'] = lambda I, st, a, n, h, i: it('zip', a=to_iter(I, a[0], st, n), b=to_iter(I, a[1], st, n))

    def default(I, ty, st, n):
        h = I.head(ty) if ty is not None else None
        if h in WIDTH:
            return Int(h, v=0)
        if h == 'bool':
            return FALSE
        if h in ('Vec', 'slice'):
            return Seq((), 'vec')
        if h == 'String':
            return Seq((), 'str')
        if h == 'Option':
            return NONE
        if h == 'HashSet':
            return Opq('hashset', e=())
        from program import D
        if ty is not None and ty[0] == 'path' and isinstance(ty[3], D):
            ms = I.prog.method(ty[1], 'default')
            if ms:
                return I.call(ms[0][1], [], ty, None, st, n)
            d = ty[3]
            if d.kind == 'struct':
                from interp import Frame
                f2 = Frame(d, d.mod, {g['n']: ('param', g['n']) for g in d.node['g']['p']}, None, 1)
                return Struct(d.path, {f['n']: default(I, I.rty(f['t'], f2), st, n) for f in d.node['f']['f']})
        f = F.get('%s::default' % h)
        if f is not None:
            return f(I, st, [], n, None, {'tty': ty})
        return Term('?default', (str(h),))
    I.default = default
    F['Default::default'] = F['default'] = lambda I, st, a, n, h, i: default(I, i.get('tty') if i.get('tty') is not None and I.head(i.get('tty')) not in (None, 'Default') else h, st, n)
    F['*::default'] = lambda I, st, a, n, h, i: default(I, i.get('tty') if i.get('tty') is not None and I.head(i.get('tty')) not in (None, 'Default') else h, st, n)

    # ---- raw memory
    # pointers: raw Ref (an object), Opq memptr (foreign bytes of unknown extent),
    # Opq bufptr (the bytes of a Rust buffer, as they were when the pointer was taken), Opq null
    def ptr_kind(v):
        return v.cls if isinstance(v, Opq) and v.cls in ('null', 'memptr', 'bufptr') else None

    @fn('slice::from_raw_parts', 'slice::from_raw_parts_mut', 'ptr::slice_from_raw_parts', 'ptr::slice_from_raw_parts_mut')
    def _frp(I, st, a, n, h, i):
        q, ln = a[0], I.deref(a[1], st)
        s = I.deref(q, st) if isinstance(q, Ref) else q
        if isinstance(s, Gated) or isinstance(ln, Gated):
            vs = [(x, y, bdd.and_(g1, g2)) for x, g1 in leaves(s) for y, g2 in leaves(ln)]
            return I.fork(st, [(g, lambda s2, x=x, y=y: _frp(I, s2, [x, y], n, h, i)) for x, y, g in vs if g != 0])
        if ptr_kind(s) == 'null':
            I.panic(st, 1, 'slice from a null pointer', n)
        if ptr_kind(s) == 'memptr' and isinstance(ln, Int):
            k = ln.v if ln.v is not None else ln.aslin()
            I.effect(st, 'from_raw_parts', (s, ln), n)
            return Seq([Seg(('mem', s.f['name']), s.f['off'], k)] if k != 0 else (), 'slice')
        if ptr_kind(s) == 'bufptr':
            s = s.f['data']
        if isinstance(s, Seq):
            L = s.length()
            I.effect(st, 'from_raw_parts', (q if isinstance(q, Ref) else s, ln), n)
            if isinstance(ln, Int) and ln.v is not None and isinstance(L, int):
                if ln.v > L:
                    I.panic(st, 1, 'out of bounds foreign slice (%d of %d)' % (ln.v, L), n)
                r = s.slice(0, ln.v)
                if isinstance(q, Ref) and _mutname(n):
                    return Ref(q.loc, q.path + (('s', 0, ln.v),))
                return Seq(r.e, 'slice')
            if isinstance(ln, Int) and not isinstance(L, int):
                if ln.aslin() == L:
                    return Seq(s.e, 'slice')
                return Seq([Seg(('prefix', HK(s), HK(ln)), 0, ln.aslin())], 'slice')
        return Term('?from_raw_parts', (I.deref_deep(s, st), ln))

    def _mutname(n):
        try:
            return n['f']['p']['s'][-1]['n'].endswith('_mut')
        except Exception:
            return False

    @m('is_null')
    def _is_null(I, st, rv, p, args, n, hint):
        return TRUE if ptr_kind(rv) == 'null' else FALSE
    M['is_null'].nofork = False
    F['ptr::null'] = F['ptr::null_mut'] = lambda I, st, a, n, h, i: Opq('null')

    @m('add', 'offset', 'wrapping_add')
    def _padd(I, st, rv, p, args, n, hint):
        k = ptr_kind(rv)
        if k is None:
            return NI
        d = I.deref(args[0], st)
        if k == 'null' or not isinstance(d, Int) or d.v is None:
            return Term('?pointer arithmetic', (rv, d))
        if k == 'memptr':
            return rv.with_(off=rv.f['off'] + d.v)
        s = rv.f['data']
        return rv.with_(data=s.slice(d.v, s.length() - d.v if isinstance(s.length(), int) else None))

    @fn('Box::into_raw', 'Box::leak')
    def _into_raw(I, st, a, n, h, i):
        v = I.deref(a[0], st)
        if isinstance(v, Seq):
            I.effect(st, 'tight', v, n)
            I.effect(st, 'forget', v, n)
            return Opq('bufptr', data=v)
        r = Ref(I.alloc(st, v, True), (), True)
        I.effect(st, 'into_raw', r, n)
        return r

    @m('leak')
    def _leak(I, st, rv, p, args, n, hint):
        if not isinstance(rv, Seq):
            return NI
        I.effect(st, 'forget', rv, n)
        return Opq('bufptr', data=rv)

    @fn('ManuallyDrop::new')
    def _mdrop(I, st, a, n, h, i):
        I.effect(st, 'forget', I.deref_deep(a[0], st), n)
        return a[0]

    @fn('Box::from_raw')
    def _from_raw(I, st, a, n, h, i):
        I.effect(st, 'from_raw', a[0], n)
        if ptr_kind(a[0]) == 'null':
            I.panic(st, 1, 'box of a null pointer', n)
        return I.deref(a[0], st)

    @fn('Vec::from_raw_parts')
    def _vfrp(I, st, a, n, h, i):
        q, ln, cap = a[0], I.deref(a[1], st), I.deref(a[2], st)
        I.effect(st, 'vec_from_raw', Tup([q, ln, cap]), n)
        if ptr_kind(q) == 'null':
            I.panic(st, 1, 'vector of a null pointer', n)
        return _frp(I, st, [q, ln], n, h, i)

    @m('as_ptr', 'as_mut_ptr')
    def _as_ptr(I, st, rv, p, args, n, hint):
        if isinstance(rv, Seq):
            return Opq('bufptr', data=rv)
        if p is not None:
            return Ref(p[0], p[1], True)
        return rv

    @m('cast', 'cast_mut', 'cast_const')
    def _cast(I, st, rv, p, args, n, hint):
        if ptr_kind(rv):
            return rv
        return Ref(p[0], p[1], True) if p is not None else rv

    @m('write')
    def _ptr_write(I, st, rv, p, args, n, hint):
        if p is not None and len(args) == 1:
            I.write(st, p, I.deref(args[0], st) if not isinstance(args[0], Ref) else args[0])
            return UNIT
        return NI
    F['ptr::write'] = lambda I, st, a, n, h, i: (I.write(st, (a[0].loc, a[0].path), a[1]), UNIT)[1]

    @fn('ptr::read')
    def _ptr_read(I, st, a, n, h, i):
        I.effect(st, 'ptr_read', a[0], n)
        return I.deref(a[0], st)

    @fn('ptr::drop_in_place')
    def _ptr_drop(I, st, a, n, h, i):
        I.effect(st, 'drop_in_place', a[0], n)
        return UNIT

    @m('capacity')
    def _capacity(I, st, rv, p, args, n, hint):
        if not isinstance(rv, Seq):
            return NI
        if any(k == 'tight' and HK(d) == HK(rv) for _, k, d, _ in I.effects):
            l = rv.length()
            return Int('usize', v=l) if isinstance(l, int) else Int('usize', lin=l)
        return isym(('capacity', HK(rv)), 'usize')

    @m('deref')
    def _deref(I, st, rv, p, args, n, hint):
        if isinstance(rv, Opq) and rv.cls == 'lazy':
            return force(I, rv, st, n)
        if isinstance(rv, Opq) and rv.cls == 'null':
            I.panic(st, 1, 'null pointer dereference', n)
        return NI

    @m('lock', 'read', 'write', 'try_lock')
    def _lock(I, st, rv, p, args, n, hint):
        if args:
            return NI
        if p is not None:
            return Ok(Ref(p[0], p[1]))
        return Ok(rv)

    # ---- LRU cache: abstract map, hit or miss unknown
    F['LruCache::new'] = lambda I, st, a, n, h, i: Opq('lru', e=(), cap=I.deref(a[0], st))
    F['LruCache::unbounded'] = lambda I, st, a, n, h, i: Opq('lru', e=(), cap=None)

    def islru(v):
        return isinstance(v, Opq) and v.cls == 'lru'

    @m('get', 'peek', 'get_mut')
    def _lget(I, st, rv, p, args, n, hint):
        if not islru(rv):
            return NI
        k = I.deref(args[0], st)
        # entries put on this run come first; an entry may have been evicted
        alts = []
        for kk, vv in reversed(rv.f['e']):
            c = I.veq(kk, k, st)
            g = bdd.and_(c, bdd.atom(('resident', kk, vv)))
            alts.append((g, Some(vv)))
        out = NONE
        for g, v in reversed(alts):
            out = vite(g, v, out)
        return out

    @m('contains')
    def _lcontains(I, st, rv, p, args, n, hint):
        if not islru(rv):
            return NI
        r = _lget(I, st, rv, p, args, n, hint)
        return mkbool(some_part(r)[0])

    @m('put')
    def _lput(I, st, rv, p, args, n, hint):
        if not islru(rv):
            return NI
        k, v = I.deref(args[0], st), I.deref(args[1], st)
        I.effect(st, 'lru_put', Tup([k, v]), n)
        e = rv.f['e'] + ((k, v),)
        I.write(st, p, rv.with_(e=e))
        return Opq('lruold')

    @m('clear')
    def _lclear(I, st, rv, p, args, n, hint):
        if islru(rv):
            I.write(st, p, rv.with_(e=()))
            return UNIT
        return NI

    # ---- hashing of values (std::hash::Hash)
    @m('hash')
    def _hash(I, st, rv, p, args, n, hint):
        if len(args) == 1 and isinstance(args[0], Ref):
            h = I.read(st, (args[0].loc, args[0].path))
            if isinstance(h, Opq) and h.cls == 'hasher':
                I.write(st, (args[0].loc, args[0].path), h.with_(e=h.f['e'] + (I.deref_deep(rv, st),)))
                return UNIT
        return NI

    # ---- blake2s_simd
    def b2new(I, st, a, n, h, i):
        return Opq('b2params', **B2DEF)
    F['Params::new'] = F['Blake2sParams::new'] = b2new
    for nm, lo, hi in (('hash_length', 1, 32), ('personal', 0, 8), ('salt', 0, 8), ('key', 0, 32), ('fanout', 0, 255),
                       ('max_depth', 0, 255), ('max_leaf_length', 0, (1 << 32) - 1), ('node_offset', 0, (1 << 48) - 1),
                       ('node_depth', 0, 255), ('inner_hash_length', 0, 32), ('last_node', 0, 1)):
        m(nm)(b2_setter(nm, lo, hi))

    @m('to_state')
    def _to_state(I, st, rv, p, args, n, hint):
        if isinstance(rv, Opq) and rv.cls == 'b2params':
            return Opq('b2state', params=rv, data=Seq((), 'slice'))
        return NI
    F['State::new'] = F['Blake2sState::new'] = lambda I, st, a, n, h, i: Opq('b2state', params=Opq('b2params', **B2DEF), data=Seq((), 'slice'))
    F['blake2s'] = F['blake2s_simd::blake2s'] = lambda I, st, a, n, h, i: Opq('b2hash', params=Opq('b2params', **B2DEF), data=seq_of(I, a[0], st))

    @m('update')
    def _update(I, st, rv, p, args, n, hint):
        if not (isinstance(rv, Opq) and rv.cls == 'b2state'):
            return NI
        d = I.deref(args[0], st)
        nv = lift(lambda x: rv.with_(data=Seq(rv.f['data'].e + seq_of(I, x, st).e, 'slice')), d)
        if p is not None:
            I.write(st, p, nv)
            return Ref(p[0], p[1])
        return nv

    @m('finalize')
    def _finalize(I, st, rv, p, args, n, hint):
        if isinstance(rv, Opq) and rv.cls == 'b2state':
            return Opq('b2hash', params=rv.f['params'], data=rv.f['data'])
        return NI

    @m('hash')
    def _b2hash(I, st, rv, p, args, n, hint):
        if isinstance(rv, Opq) and rv.cls == 'b2params':
            return Opq('b2hash', params=rv, data=seq_of(I, args[0], st))
        return NI

    # ---- rand
    def fresh_rng(I):
        I.fresh['rng'] = I.fresh.get('rng', 0) + 1
        return I.fresh['rng']
    M['#fresh_rng'] = fresh_rng
    F['rand::thread_rng'] = F['thread_rng'] = lambda I, st, a, n, h, i: Opq('rng', src=Term('thread_rng', (fresh_rng(I),)), ctr=0)
    F['*::from_rng'] = lambda I, st, a, n, h, i: Ok(Opq('rng', src=Term('from_rng', (I.deref_deep(a[0], st),)), ctr=0))
    F['*::from_entropy'] = lambda I, st, a, n, h, i: Opq('rng', src=Term('entropy', (fresh_rng(I),)), ctr=0)

    @fn('*::from_seed', '*::seed_from_u64')
    def _from_seed(I, st, a, n, h, i):
        return Opq('rng', src=Term('seeded', (I.head(i.get('tty')) or '?', I.deref(a[0], st))), ctr=0)

    @m('fill_bytes', 'try_fill_bytes', 'fill')
    def _fill_bytes(I, st, rv, p, args, n, hint):
        if not (isinstance(rv, Opq) and rv.cls == 'rng'):
            return NI
        r = args[0]
        if not isinstance(r, Ref):
            raise Undecided('fill_bytes target')
        s = I.deref(r, st)
        L = s.length()
        t = ('rand', rv.f['src'], rv.f['ctr'])
        pl = (r.loc, r.path)
        x = I.read(st, pl)
        while isinstance(x, Ref):
            pl = (x.loc, x.path)
            x = I.read(st, pl)
        I.write(st, pl, Seq([Seg(t, 0, L)], x.kind))
        if p is not None:
            I.write(st, p, rv.with_(ctr=rv.f['ctr'] + 1))
        return UNIT if n.get('m') != 'try_fill_bytes' else Ok(UNIT)

    @m('gen')
    def _gen(I, st, rv, p, args, n, hint):
        if not (isinstance(rv, Opq) and rv.cls == 'rng'):
            return NI
        t = ('rand', rv.f['src'], rv.f['ctr'])
        if p is not None:
            I.write(st, p, rv.with_(ctr=rv.f['ctr'] + 1))
        ty = tyname(I, hint)
        if ty is None:
            return NI
        return I.sym_of(ty, t)

    # ---- logging, timing
    def ignore(I, st, n, sc, hint):
        return UNIT
    for nm in ('info', 'debug', 'warn', 'error', 'trace', 'println', 'eprintln', 'print', 'eprint', 'end_timer', 'add_to_trace', 'log', 'event', 'dbg_'):
        F['macro ' + nm] = ignore
    for nm in ('span', 'info_span', 'debug_span', 'trace_span', 'start_timer', 'error_span'):
        F['macro ' + nm] = lambda I, st, n, sc, hint: Opq('span')
    F['macro format'] = lambda I, st, n, sc, hint: Term('format', (n.get('s', ''),))

    @m('enter', 'entered', 'exit', 'in_scope')
    def _enter(I, st, rv, p, args, n, hint):
        if isinstance(rv, Opq) and rv.cls == 'span':
            if n.get('m') == 'in_scope':
                return I.call_value(args[0], [], st, n)
            return Opq('span')
        return NI

    # ---- floats (batch size helper)
    F['log2'] = lambda I, st, a, n, h, i: Term('log2', (I.deref(a[0], st),))
    F['hex::encode'] = lambda I, st, a, n, h, i: Term('hex', (I.deref_deep(a[0], st),))
