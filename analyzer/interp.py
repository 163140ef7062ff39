"""Abstract interpreter over the syntax tree: computes, for a public entry point
and abstract arguments, the values, errors, panics and effects of every path at
once.  Branches on unknown conditions are analysed on both sides and joined at
the merge point (gated values); nothing is executed and no solver is used."""
import math
import bdd
from values import *
from program import D, Mod, trait_name, enabled, Mod

LOOP_LIMIT = 5000
DEPTH_LIMIT = 48
STEP_LIMIT = 60000000


CIRCUIT = ('FpVar', 'Fq2Var', 'G1Var', 'G2Var', 'GTVar', 'G1PreparedVar', 'G2PreparedVar', 'AffineVar', 'LC', 'AllocatedFp', 'AllocatedBit')


class Dead(Exception):
    """no path reaches this point"""


class State:
    __slots__ = ('heap', 'pc')

    def __init__(self, heap, pc=1):
        self.heap, self.pc = heap, pc

    def copy(self):
        return State(dict(self.heap), self.pc)


class Loop:
    __slots__ = ('label', 'breaks', 'conts')

    def __init__(self, label):
        self.label, self.breaks, self.conts = label, [], []


class Frame:
    def __init__(self, d, mod, subst, self_ty, callpc):
        self.d, self.mod, self.subst, self.self_ty, self.callpc = d, mod, subst, self_ty, callpc
        self.rets = []
        self.loops = []
        self.ret_ty = None
        self.items = []


class Scope:
    """chain of name -> location maps"""
    __slots__ = ('m', 'up')

    def __init__(self, up=None):
        self.m, self.up = {}, up

    def get(self, n):
        s = self
        while s is not None:
            if n in s.m:
                return s.m[n]
            s = s.up
        return None

    def flat(self):
        out = {}
        chain = []
        s = self
        while s is not None:
            chain.append(s)
            s = s.up
        for s in reversed(chain):
            out.update(s.m)
        return out


INFER = ('infer',)
CTYPES = {'c_int': 'i32', 'c_uint': 'u32', 'c_short': 'i16', 'c_ushort': 'u16', 'c_uchar': 'u8', 'c_schar': 'i8', 'c_char': 'i8', 'c_long': 'i64',
          'c_ulong': 'u64', 'c_longlong': 'i64', 'c_ulonglong': 'u64', 'size_t': 'usize'}
BINOPS = {'+': 'add', '-': 'sub', '*': 'mul', '/': 'div', '%': 'rem', '&': 'bitand', '|': 'bitor',
          '^': 'bitxor', '<<': 'shl', '>>': 'shr'}


class Interp:
    def __init__(self, prog):
        self.prog = prog
        self.kind_of = None
        self.ltypes = {}        # location -> declared type
        self.nloc = 0
        self.globals = {}
        self.statics = {}
        self.statics_from_start = False
        self.effects = []       # (abs guard, kind, data, where)
        self.panics = []        # (abs guard, reason, where)
        self.frames = []
        self.consts = {}
        self.steps = 0
        self.notes = []
        self.visited = set()    # functions analysed
        self.sites = 0
        self.unknown = set()
        self.fresh = {}
        self.hooks = {}
        self._tdef, self._fum = {}, {}         # def path -> python override
        self.mutlocs = set()
        self.distinct = None    # optional: Poly -> True if known nonzero
        self.eqseq = None
        self.blockmods = {}
        import stdlib, arklib, r1cslib
        self.M = {}
        self.F = {}
        stdlib.register(self)
        arklib.register(self)
        r1cslib.register(self)

    # ------------------------------------------------------------ state
    def alloc(self, st, v, mut=False):
        self.nloc += 1
        st.heap[self.nloc] = v
        if mut:
            self.mutlocs.add(self.nloc)
        return self.nloc

    def getloc(self, st, loc):
        if loc in st.heap:
            return st.heap[loc]
        if loc in self.globals:
            return self.globals[loc]
        raise Undecided('use of an uninitialised place')

    def read(self, st, p):
        v = self.getloc(st, p[0])
        for e in p[1]:
            v = self.proj(v, e, st)
        return v

    def proj(self, v, e, st=None):
        if isinstance(v, Gated):
            # a projection only makes sense on the leaves that have it
            out = []
            for lv, g in v.g:
                try:
                    out.append((g, self.proj(lv, e, st)))
                except KeyError:
                    pass
            if not out:
                raise Undecided('projection %s of %s' % (e, show(v)[:80]))
            return merge_many(out)
        if isinstance(v, Ref) and st is not None:
            return self.proj(self.read(st, (v.loc, v.path)), e, st)
        k = e[0]
        if k == 'f':
            return self.getfield(v, e[1], st)
        if k == 'i':
            if isinstance(v, Seq):
                i = e[1]
                if not v.has_seg():
                    if i >= len(v.e):
                        raise KeyError(i)
                    return v.e[i]
                s = v.slice(i, i + 1).e
                if len(s) != 1:
                    raise KeyError(i)
                if isinstance(s[0], Seg):
                    return seg_byte(s[0].t, s[0].off)
                return s[0]
            if isinstance(v, Term):
                return Term('index', (v, Int('usize', v=e[1])))
            raise Undecided('index into %s' % show(v)[:60])
        if k == 's':
            if isinstance(v, Seq):
                return v.slice(e[1], e[2])
            raise Undecided('slice of %s' % show(v)[:60])
        if k == 'v':
            if isinstance(v, Enum):
                return v.e[e[2]] if v.var == e[1] and e[2] < len(v.e) else self._ke(e)
            return Term('payload', (v, e[1], e[2]))
        raise Undecided('projection')

    def _ke(self, e):
        raise KeyError(e)

    def write(self, st, p, val):
        if not p[1]:
            st.heap[p[0]] = val
            return
        st.heap[p[0]] = self._wr(st, self.getloc(st, p[0]), p[1], val)

    def _wr(self, st, v, path, val):
        if not path:
            return val
        e, rest = path[0], path[1:]
        if isinstance(v, Gated):
            out = []
            for lv, g in v.g:
                try:
                    out.append((g, self._wr(st, lv, path, val)))
                except KeyError:
                    out.append((g, lv))
            return merge_many(out)
        if isinstance(v, Ref):
            self.write(st, (v.loc, v.path + tuple(path)), val)
            return v
        k = e[0]
        if k == 'f':
            if isinstance(v, Struct) and e[1] in v.f:
                return v.with_(e[1], self._wr(st, v.f[e[1]], rest, val))
            if isinstance(v, Tup):
                i = int(e[1])
                l = list(v.e)
                l[i] = self._wr(st, l[i], rest, val)
                return Tup(l)
            if isinstance(v, Alg) and e[1] == '0':
                return self._wr(st, v, rest, val)
            if isinstance(v, Alg):
                return Term('?setfield', (v, e[1], val))
            if isinstance(v, Term):
                return Term('?setfield', (v, e[1], val))
        elif k == 'i' and isinstance(v, Seq):
            if isinstance(e[1], int) and not isinstance(v.length(), int):
                # in bounds here: an index beyond the length has panicked
                one = v.slice(e[1], e[1] + 1).items()
                return Seq(v.slice(0, e[1]).e + (self._wr(st, one[0], rest, val),) + tuple(v.slice(e[1] + 1, None).e), v.kind)
            l = v.items() if v.has_seg() else list(v.e)
            if e[1] >= len(l):
                raise KeyError(e[1])
            l[e[1]] = self._wr(st, l[e[1]], rest, val)
            return Seq(l, v.kind)
        elif k == 's' and isinstance(v, Seq):
            mid = self._wr(st, v.slice(e[1], e[2]), rest, val)
            L = v.length()
            post = () if e[2] is None else v.slice(e[2], None).e
            return Seq(v.slice(0, e[1]).e + mid.e + tuple(post), v.kind)
        elif k == 'v' and isinstance(v, Enum):
            if v.var != e[1]:
                raise KeyError(e)
            l = list(v.e)
            l[e[2]] = self._wr(st, l[e[2]], rest, val)
            return Enum(v.name, v.var, l)
        raise Undecided('assignment into %s' % show(v)[:80])

    def deref(self, v, st):
        n = 0
        while isinstance(v, Ref):
            v = self.read(st, (v.loc, v.path))
            n += 1
            if n > 20:
                raise Undecided('reference cycle')
        if isinstance(v, Gated) and any(isinstance(x, Ref) for x, _ in v.g):
            return merge_many([(g, self.deref(x, st)) for x, g in v.g])
        return v

    def deref_deep(self, v, st, d=0):
        """replace references by what they point to"""
        v = self.deref(v, st)
        if d > 6:
            return v
        if isinstance(v, Struct):
            return Struct(v.name, {k: self.deref_deep(x, st, d + 1) for k, x in v.f.items()})
        if isinstance(v, Tup):
            return Tup([self.deref_deep(x, st, d + 1) for x in v.e])
        if isinstance(v, Enum):
            return Enum(v.name, v.var, [self.deref_deep(x, st, d + 1) if isinstance(x, Val) else x for x in v.e])
        if isinstance(v, Seq) and any(isinstance(x, (Ref, Struct, Tup, Enum, Gated, Seq)) for x in v.e):
            return Seq([x if isinstance(x, Seg) else self.deref_deep(x, st, d + 1) for x in v.e], v.kind)
        if isinstance(v, Gated):
            ds = [(g, self.deref_deep(x, st, d + 1)) for x, g in v.g]
            if all(y == x for (_, y), (x, _) in zip(ds, v.g)):
                return v
            return merge_many(ds)
        return v

    def abspc(self, st):
        r = st.pc
        for f in self.frames:
            r = bdd.and_(r, f.callpc)
        return r

    def where(self, n=None):
        d = self.frames[-1].d if self.frames else None
        l = n.get('l') if isinstance(n, dict) else None
        if d is None:
            return '?'
        import os, program
        return '%s:%s in %s' % (os.path.relpath(d.file, program.REPO), l or d.line(), d.path)

    def effect(self, st, kind, data, n=None):
        self.effects.append((self.abspc(st), kind, data, self.where(n)))

    def panic(self, st, cond, reason, n=None):
        """paths where cond holds panic here"""
        g = bdd.and_(st.pc, cond)
        if g == 0:
            return
        save = st.pc
        st.pc = g
        self.panics.append((self.abspc(st), reason, self.where(n)))
        st.pc = bdd.and_(save, bdd.neg(cond))
        if st.pc == 0:
            raise Dead()

    def freshname(self, base):
        k = self.fresh.get(base, 0)
        self.fresh[base] = k + 1
        return base if k == 0 else (base if isinstance(base, tuple) else (base,)) + ('#%d' % k,)

    # ------------------------------------------------------------ joins
    def merge_heaps(self, c, h1, h2):
        if h1 is h2:
            return h1
        out = dict(h2)
        if self.globals:
            for k in h2:
                if k not in h1 and k in self.globals:
                    h1 = dict(h1)
                    h1[k] = self.globals[k]
        for k, v in h1.items():
            w = out.get(k)
            if w is None and k in self.globals:
                w = self.globals[k]
            if w is None or w is v:
                out[k] = v
            elif w != v:
                try:
                    out[k] = vite(c, v, w)
                except Undecided:
                    out[k] = Term('?join', (v, w))
        return out

    def join(self, st, alts):
        """alts: [(pc, heap, value)] disjoint; st becomes the join"""
        alts = [a for a in alts if a[0] != 0]
        if not alts:
            st.pc = 0
            raise Dead()
        pc, heap, val = alts[-1]
        for p, h, v in reversed(alts[:-1]):
            # only meaningful where one of the alternatives so far is reached
            pc = bdd.or_(pc, p)
            c = bdd.constrain(p, pc)
            val = v if val is None else (val if v is None else vite(c, v, val))
            heap = self.merge_heaps(c, h, heap)
        st.heap, st.pc = heap, pc
        return val

    def branch(self, st, c, f1, f2):
        """run f1 where c holds and f2 elsewhere, then join"""
        g1, g2 = bdd.and_(st.pc, c), bdd.and_(st.pc, bdd.neg(c))
        if g2 == 0:
            return f1(st)
        if g1 == 0:
            return f2(st)
        s1, s2 = st.copy(), st.copy()
        s1.pc, s2.pc = g1, g2
        try:
            v1 = f1(s1)
        except Dead:
            s1.pc = 0
        try:
            v2 = f2(s2)
        except Dead:
            s2.pc = 0
        if s1.pc == 0 and s2.pc == 0:
            st.pc = 0
            raise Dead()
        if s1.pc == 0:
            st.heap, st.pc = s2.heap, s2.pc
            return v2
        if s2.pc == 0:
            st.heap, st.pc = s1.heap, s1.pc
            return v1
        st.heap = self.merge_heaps(c, s1.heap, s2.heap)
        st.pc = bdd.or_(s1.pc, s2.pc)
        return vite(c, v1, v2)

    def fork(self, st, alts):
        """alts: [(guard, fn)] disjoint and covering; run each and join"""
        alts = [(g, f) for g, f in alts if bdd.and_(st.pc, g) != 0]
        if not alts:
            st.pc = 0
            raise Dead()
        if len(alts) == 1:
            return alts[0][1](st)
        out = []
        for g, f in alts:
            s = st.copy()
            s.pc = bdd.and_(st.pc, g)
            try:
                v = f(s)
                out.append((g, s, v))
            except Dead:
                pass
        if not out:
            st.pc = 0
            raise Dead()
        g, s, val = out[-1]
        heap, pc = s.heap, s.pc
        for g, s, v in reversed(out[:-1]):
            val = vite(g, v, val)
            heap = self.merge_heaps(g, s.heap, heap)
            pc = bdd.or_(pc, s.pc)
        st.heap, st.pc = heap, pc
        return val

    # ------------------------------------------------------------ types
    def rty(self, t, fr=None, depth=0):
        """resolve a syntactic type in a frame"""
        if t is None:
            return INFER
        fr = fr or (self.frames[-1] if self.frames else None)
        k = t['k']
        if k == 'ref':
            return ('ref', t['m'], self.rty(t['t'], fr, depth))
        if k == 'ptr':
            return ('ptr', t['m'], self.rty(t['t'], fr, depth))
        if k == 'slice':
            return ('slice', self.rty(t['t'], fr, depth))
        if k == 'array':
            return ('array', self.rty(t['t'], fr, depth), t['n'])
        if k == 'tuple':
            return ('tuple', tuple(self.rty(x, fr, depth) for x in t['t']))
        if k == 'infer':
            return INFER
        if k in ('impl', 'dyn'):
            return ('impl', tuple(self.trait_of(b, fr) for b in t['b']))
        if k == 'fn':
            return ('fnptr',)
        if k == 'path':
            return self.rpath(t['p'], fr, depth)
        return ('other', t.get('s'))

    def trait_of(self, b, fr):
        return self.prog.resolve_trait(b, fr.mod)

    def rpath(self, p, fr, depth=0):
        segs = p['s']
        names = tuple(s['n'] for s in segs)
        if names[-1] in CTYPES and not p.get('q'):
            return ('path', CTYPES[names[-1]], (), ())
        args = tuple(self.rty(a, fr, depth) for a in (segs[-1]['a'] or []) if a['k'] not in ('lt', 'const', 'assoc', 'fnargs', 'other'))
        if p.get('q'):
            q = self.rty(p['q'], fr, depth)
            return ('assocty', q, names[-1])
        if names[0] == 'Self' and fr.self_ty is not None:
            if len(names) == 1:
                return fr.self_ty
            im = getattr(fr.d, 'impl', None) if fr.d else None
            if im is not None and names[1] in im.types:
                return self.rty(im.types[names[1]], fr, depth)
            return ('assocty', fr.self_ty, names[-1])
        if names[0] == 'Self' and len(names) > 1:
            return ('assocty', ('infer',), names[-1])
        if names[0] in fr.subst:
            s = fr.subst[names[0]]
            return s if len(names) == 1 else ('assocty', s, names[-1])
        r = self.prog.resolve_path(names, fr.mod, 't')
        if isinstance(r, D) and r.kind == 'type' and depth < 8:
            f2 = Frame(r, r.mod, dict(zip([g['n'] for g in r.node['g']['p']], args)), None, 1)
            return self.rty(r.node['t'], f2, depth + 1)
        if isinstance(r, D):
            return ('path', r.path, args, r)
        if isinstance(r, tuple) and r[0] == 'ext':
            return ('path', r[1][-1], args, r[1])
        return ('path', names[-1], args, names)

    def head(self, ty):
        if ty is None:
            return None
        if ty[0] == 'path':
            return ty[1]
        if ty[0] in ('ref', 'ptr'):
            return self.head(ty[2])
        if ty[0] in ('slice', 'array'):
            return 'slice'
        return None

    def coerce(self, v, ty, d=0):
        """give untyped integers their declared type"""
        if ty is None or ty[0] == 'infer' or d > 4:
            return v
        if ty[0] == 'ref':
            return self.coerce(v, ty[2], d)
        if isinstance(v, Int):
            if v.ty is None and ty[0] == 'path' and ty[1] in WIDTH:
                return self.retype(v, ty[1])
            return v
        if isinstance(v, Alg):
            if v.kind is None and v.p.is_const() and self.kind_of is not None:
                k = self.kind_of(self, ty)
                if k is not None:
                    return Alg(v.p, k)
            return v
        if isinstance(v, Seq):
            et = ty[1] if ty[0] in ('slice', 'array') else (ty[2][0] if ty[0] == 'path' and ty[2] and ty[1] in ('Vec', 'VecDeque', 'Box') else None)
            if ty[0] == 'path' and ty[1] == 'Box' and et is not None:
                return self.coerce(v, et, d + 1)
            if et is not None and any(isinstance(x, Int) and x.ty is None for x in v.e):
                return Seq([x if isinstance(x, Seg) else self.coerce(x, et, d + 1) for x in v.e], v.kind)
            return v
        if isinstance(v, Enum) and ty[0] == 'path' and ty[2] and v.name in ('Option', 'Result') and v.e:
            t = ty[2][0] if v.var in ('Some', 'Ok') else (ty[2][1] if len(ty[2]) > 1 else None)
            return Enum(v.name, v.var, [self.coerce(x, t, d + 1) for x in v.e])
        if isinstance(v, Tup) and ty[0] == 'tuple' and len(ty[1]) == len(v.e):
            return Tup([self.coerce(x, t, d + 1) for x, t in zip(v.e, ty[1])])
        if isinstance(v, Gated):
            return merge_many([(g, self.coerce(x, ty, d)) for x, g in v.g])
        return v

    def retype(self, v, ty):
        if v.v is not None:
            return Int(ty, v=v.v)
        if v.bits is not None:
            w = WIDTH[ty]
            return Int(ty, bits=(v.bits + (0,) * w)[:w])
        return Int(ty, lin=v.lin)

    # ------------------------------------------------------------ calls
    def call(self, d, args, self_ty=None, subst=None, st=None, n=None):
        """call a function definition"""
        if d.path in self.hooks and d.impl is None or (d.impl is not None and (d.impl.head, d.name) in self.hooks):
            h = self.hooks.get((d.impl.head, d.name)) if d.impl is not None else self.hooks[d.path]
            return h(self, st, args, n)
        if len(self.frames) > DEPTH_LIMIT:
            raise Undecided('call depth limit in %s' % d.path)
        sg = d.node['sig']
        if d.node.get('b') is None:
            return self.opaque_call(d, args, self_ty, subst, st, n)
        self.visited.add(d.path if d.impl is None else '%s::%s' % (d.impl.head, d.name))
        sub = dict(subst or {})
        if d.impl is not None and self_ty is None and self.frames and not subst:
            ct = self.frames[-1].self_ty
            if ct is not None and ct[0] == 'path' and ct[1] == d.impl.head:
                self_ty = ct
                sub.update(self.impl_subst(d.impl, ct))
        if d.impl is not None and self_ty is None:
            f0 = Frame(d, d.mod, {}, None, 1)
            for g in d.impl.gen:
                f0.subst[g] = ('param', g)
            self_ty = self.rty(d.impl.node['t'], f0)
        if d.impl is not None:
            for g in d.impl.gen:
                sub.setdefault(g, ('param', g))
        for g in sg['g']['p']:
            sub.setdefault(g['n'], ('param', g['n']))
        fr = Frame(d, d.mod, sub, self_ty, st.pc)
        self.frames.append(fr)
        entry_heap_keys = None
        st2 = State(st.heap, 1)
        sc = Scope()
        first = self.nloc
        try:
            fr.ret_ty = self.rty(sg['out'], fr) if sg['out'] else ('tuple', ())
            ins = [i for i in sg['in'] if enabled(i.get('at'), self.prog.feats)]
            # can the callee leave references to its locals in the caller's places?
            plain = not any(i['m'] if i.get('self') else i['t']['k'] == 'ref' and i['t']['m'] for i in ins) \
                and not any(isinstance(a, (Clo, Opq)) or isinstance(a, Ref) and a.raw or not isinstance(a, Ref) and self.holds_ref(a) for a in args)
            if len(ins) != len(args):
                raise Undecided('call of %s with %d arguments' % (d.path, len(args)))
            try:
                for i, a in zip(ins, args):
                    if i.get('self'):
                        sc.m['self'] = self.alloc(st2, a, i['m'])
                    else:
                        t = self.rty(i['t'], fr)
                        a = self.coerce(a, t)
                        if i['t']['k'] == 'ref' and not i['t']['m'] and isinstance(a, Ref) and not a.raw:
                            a = self.deref(a, st2)
                        self.bind(i['p'], a, sc, st2)
                        if i['p']['k'] == 'id' and i['p']['n'] in sc.m:
                            self.ltypes[sc.m[i['p']['n']]] = t
                v = self.block(d.node['b'], sc, st2, fr.ret_ty)
                fr.rets.append((st2.pc, st2.heap, self.coerce(v, fr.ret_ty)))
            except Dead:
                pass
        finally:
            self.frames.pop()
        rets = [r for r in fr.rets if r[0] != 0]
        if not rets:
            st.pc = 0
            raise Dead()
        s = State(None, 0)
        v = self.join(s, rets)
        st.heap = s.heap
        # drop the callee's locals unless something may still refer to them
        if not self.holds_ref(v):
            keep = False
            for l in () if plain else list(st.heap):
                if isinstance(l, int) and l <= first and self._refs_above(st.heap[l], first):
                    keep = True
                    break
            if plain:
                h = st.heap
                for l in range(first + 1, self.nloc + 1):
                    if l in h and l not in self.globals:
                        del h[l]
            elif not keep:
                st.heap = {l: x for l, x in st.heap.items() if not (isinstance(l, int) and l > first and l not in self.globals)}
        st.pc = bdd.and_(st.pc, s.pc)
        if st.pc == 0:
            raise Dead()
        return v

    def holds_ref(self, v, d=0):
        if isinstance(v, (Ref, Clo)):
            return True
        if isinstance(v, Opq):
            return True
        if isinstance(v, (Tup, Enum)):
            return any(self.holds_ref(x, d + 1) for x in v.e if isinstance(x, Val))
        if isinstance(v, Seq):
            return any(self.holds_ref(x, d + 1) for x in v.e if isinstance(x, Val) and not isinstance(x, (Int, Bool, Alg)))
        if isinstance(v, Struct):
            return any(self.holds_ref(x, d + 1) for x in v.f.values())
        if isinstance(v, Gated):
            return any(self.holds_ref(x, d + 1) for x, _ in v.g)
        if isinstance(v, Term):
            return any(self.holds_ref(x, d + 1) for x in v.a if isinstance(x, Val))
        return False

    def _refs_above(self, v, first):
        return self.holds_ref(v)

    def call_value(self, f, args, st, n=None, hint=None):
        """call a closure / function value"""
        f = self.deref(f, st)
        if isinstance(f, Gated):
            return self.fork(st, [(g, lambda s, x=x: self.call_value(x, args, s, n, hint)) for x, g in f.g])
        if isinstance(f, Clo):
            if callable(f.node):
                return f.node(self, st, args)
            nd = f.node
            fr0 = f.ctx
            fr = Frame(fr0.d, fr0.mod, fr0.subst, fr0.self_ty, st.pc)
            fr.items = fr0.items
            fr.ret_ty = self.rty(nd['ret'], fr) if nd['ret'] else (hint or INFER)
            if len(self.frames) > DEPTH_LIMIT + 20:
                raise Undecided('call depth limit')
            self.frames.append(fr)
            sc = Scope()
            sc.m.update(f.env)
            sc = Scope(sc)
            st2 = State(st.heap, 1)
            try:
                if len(nd['p']) != len(args):
                    if len(nd['p']) == 1 and nd['p'][0]['k'] in ('_', 'id'):
                        args = [Tup(args)]
                    else:
                        raise Undecided('closure arity')
                try:
                    for p, a in zip(nd['p'], args):
                        self.bind(p, a, sc, st2)
                    v = self.ev(nd['b'], sc, st2, fr.ret_ty)
                    fr.rets.append((st2.pc, st2.heap, v))
                except Dead:
                    pass
            finally:
                self.frames.pop()
            rets = [r for r in fr.rets if r[0] != 0]
            if not rets:
                st.pc = 0
                raise Dead()
            s = State(None, 0)
            v = self.join(s, rets)
            st.heap = s.heap
            st.pc = bdd.and_(st.pc, s.pc)
            if st.pc == 0:
                raise Dead()
            return v
        if isinstance(f, FnV):
            return self.call_def(f.d, args, st, n, hint, f.info)
        if isinstance(f, Term):
            return self.unknown_call('callvalue', [f] + list(args), st, n)
        raise Undecided('call of %s' % show(f)[:60])

    def unknown_call(self, name, args, st, n, ret=None):
        """un-modelled operation: opaque result, arguments it may write are lost"""
        self.unknown.add((name, self.where(n)))
        da = [self.deref_deep(a, st) if isinstance(a, Val) else a for a in args]
        t = Term('?' + name, da)
        for a in args:
            if isinstance(a, Ref):
                self.write(st, (a.loc, a.path), Term('?havoc:' + name, da))
        return t

    def opaque_call(self, d, args, self_ty, subst, st, n):
        """trait method without a body on an abstract implementation: an
        uninterpreted, type-directed result"""
        tr = d.extra.get('trait')
        name = (tr.name + '::' if tr else '') + d.name
        da = tuple(self.deref_deep(a, st) for a in args)
        fr = Frame(d, d.mod, dict(subst or {}), self_ty, st.pc)
        ty = self.rty(d.node['sig']['out'], fr) if d.node['sig']['out'] else ('tuple', ())
        for i, a in zip(d.node['sig']['in'], args):
            if isinstance(a, Ref) and (i.get('m') or (i.get('t') or {}).get('m')):
                self.write(st, (a.loc, a.path), Term('after:' + name, da))
        return self.sym_of(ty, (name,) + tuple(HK(x) for x in da))

    def sym_of(self, ty, key, d=0):
        """fresh abstract value of a type, named by key"""
        if ty[0] == 'ref':
            return self.sym_of(ty[2], key, d)
        if ty[0] == 'tuple':
            if not ty[1]:
                return UNIT
            return Tup([self.sym_of(t, key + ('.%d' % i,), d + 1) for i, t in enumerate(ty[1])])
        if ty[0] in ('slice', 'array') and self.head(ty[1]) == 'u8':
            return bytes_sym(key)
        if ty[0] == 'path':
            h = ty[1]
            if h == 'Result':
                okv = self.sym_of(ty[2][0], key, d + 1) if ty[2] else Term('ok', (key,))
                okg = bdd.atom(('ok',) + key)
                return gated([(Ok(okv), okg), (Err(Term('err', key)), bdd.neg(okg))])
            if h == 'Option':
                g = bdd.atom(('some',) + key)
                return gated([(Some(self.sym_of(ty[2][0], key, d + 1)), g), (NONE, bdd.neg(g))])
            if h in ('Vec', 'Box') and ty[2] and self.head(ty[2][0]) in ('u8', 'slice'):
                return bytes_sym(key)
            if h in WIDTH:
                return bsym(key, h) if h != 'usize' else isym(key, h)
            if h == 'bool':
                return Bool(bdd.atom(key))
            if h in ('G1Projective', 'G1Affine', 'G1Var'):
                return asym(key, 'G1')
            if h in ('G2Projective', 'G2Affine', 'G2Var'):
                return asym(key, 'G2')
            if h in ('Fr', 'Fq', 'FpVar', 'Fp'):
                return asym(key, 'Fs' if h == 'Fr' else 'F')
        if ty[0] == 'assocty' and ty[2] == 'Output':
            return asym(key, 'G1')
        return Term('sym', key, ty)

    # ------------------------------------------------------------ patterns
    def bind(self, pat, v, sc, st, ty=None):
        c, b = self.pmatch(pat, v, st, None)
        for n, (x, mut) in b.items():
            sc.m[n] = self.alloc(st, x, mut)
        return c

    def is_const_pat(self, name):
        fr = self.frames[-1]
        r = self.prog.lookup_in(fr.mod, name, 'v')
        if isinstance(r, D) and r.kind in ('const', 'static'):
            return r
        if isinstance(r, tuple) and r[0] == 'variant':
            return r
        if name == 'None':
            return 'None'
        for it in fr.items:
            if (it['k'] == 'const') and it['n'] == name:
                return it
        return None

    def pmatch(self, pat, v, st, place):
        """(condition diagram, {name: (value, mutable)})"""
        k = pat['k']
        if k in ('_', '..'):
            return 1, {}
        if k == 'typed':
            return self.pmatch(pat['p'], self.coerce(v, self.rty(pat['t'])), st, place)
        if k == 'id':
            cp = self.is_const_pat(pat['n']) if pat['sub'] is None and not pat['r'] else None
            if cp is not None and pat['n'][0].isupper():
                if cp == 'None':
                    return self.pvariant(v, 'None', [], st, place)
                if isinstance(cp, tuple):
                    return self.pvariant(v, cp[2], [], st, place)
                cv = self.const(cp) if isinstance(cp, D) else self.ev(cp['e'], Scope(), st)
                return self.veq(self.deref(v, st), cv, st), {}
            x = v
            if place is not None and (pat['r'] and pat['m'] or isinstance(place, tuple) and place[2]):
                x = Ref(place[0], place[1])
            elif pat['r'] and not pat['m']:
                x = self.deref(v, st)
            if pat['sub'] is not None:
                c, b = self.pmatch(pat['sub'], v, st, place)
            else:
                c, b = 1, {}
            b = dict(b)
            b[pat['n']] = (x, pat['m'])
            return c, b
        if k == 'ref':
            return self.pmatch(pat['p'], self.deref(v, st), st, place)
        if isinstance(v, Ref):
            # default binding mode of a mutable reference
            p = (v.loc, v.path, True)
            return self.pmatch(pat, self.read(st, (v.loc, v.path)), st, p)
        if k == 'or':
            c, bs = 0, None
            for a in pat['e']:
                ca, ba = self.pmatch(a, v, st, place)
                if bs is None:
                    bs = ba
                else:
                    bs = {n: (vite(c, bs[n][0], ba[n][0]), bs[n][1]) for n in bs if n in ba}
                c = bdd.or_(c, ca)
            return c, bs
        if k == 'lit':
            return self.veq(v, self.lit(pat['v']), st), {}
        if k == 'range':
            c = 1
            if pat['lo'] is not None:
                c = bdd.and_(c, self.cmp('>=', v, self.ev(pat['lo'], Scope(), st), st))
            if pat['hi'] is not None:
                c = bdd.and_(c, self.cmp('<=' if pat['incl'] else '<', v, self.ev(pat['hi'], Scope(), st), st))
            return c, {}
        if isinstance(v, Gated):
            cs, names, outs = 0, None, []
            for lv, g in v.g:
                c, b = self.pmatch(pat, lv, st, place)
                c = bdd.and_(c, g)
                if c != 0:
                    outs.append((c, b))
                    cs = bdd.or_(cs, c)
            if not outs:
                return 0, {}
            b = dict(outs[-1][1])
            for c, bb in reversed(outs[:-1]):
                for n in bb:
                    b[n] = (vite(c, bb[n][0], b[n][0]) if n in b else bb[n][0], bb[n][1])
            return cs, b
        if k == 'tuple':
            es = pat['e']
            vs = None
            if isinstance(v, Tup):
                vs = list(v.e)
            elif isinstance(v, Term):
                vs = [Term('field', (v, str(i))) for i in range(len(es))]
            elif isinstance(v, Seq) and not v.has_seg():
                vs = list(v.e)
            if vs is None:
                raise Undecided('tuple pattern on %s' % show(v)[:60])
            return self.pseq(es, vs, st, place, lambda i: ('f', str(i)))
        if k == 'slice':
            if not isinstance(v, Seq):
                raise Undecided('slice pattern on %s' % show(v)[:60])
            L = v.length()
            if not isinstance(L, int):
                raise Undecided('slice pattern on unknown length')
            return self.pseq(pat['e'], v.items(), st, place, lambda i: ('i', i))
        if k == 'path':
            names = [s['n'] for s in pat['p']['s']]
            r = self.rvalue_path(names)
            if isinstance(r, tuple) and r[0] == 'variant':
                return self.pvariant(v, r[2], [], st, place)
            if isinstance(r, D) and r.kind in ('const', 'static'):
                return self.veq(v, self.const(r), st), {}
            if isinstance(r, D) and r.kind == 'struct':
                return 1, {}
            if isinstance(v, Enum):
                return self.pvariant(v, names[-1], [], st, place)
            if names[-1] in ('MAX', 'MIN'):
                return self.veq(v, self.ev_path({'k': 'path', 'p': pat['p'], 'l': 0}, Scope(), st, None), st), {}
            return self.pvariant(v, names[-1], [], st, place)
        if k == 'ts':
            names = [s['n'] for s in pat['p']['s']]
            if isinstance(v, Struct) and v.name in CIRCUIT or isinstance(v, Bool):
                return self.pvariant(v, names[-1], pat['e'], st, place)
            if isinstance(v, Struct):
                vs = [v.f[str(i)] for i in range(len(v.f))]
                return self.pseq(pat['e'], vs, st, place, lambda i: ('f', str(i)))
            r = self.rvalue_path(names)
            if isinstance(r, D) and r.kind == 'struct':
                return self.pmatch(pat['e'][0], self.getfield(v, '0', st), st, place)
            return self.pvariant(v, names[-1], pat['e'], st, place)
        if k == 'struct':
            if isinstance(v, Struct):
                c, b = 1, {}
                for n, p in pat['f']:
                    pl = (place[0], place[1] + (('f', n),), place[2]) if place else None
                    c2, b2 = self.pmatch(p, self.getfield(v, n, st), st, pl)
                    c = bdd.and_(c, c2)
                    b.update(b2)
                return c, b
            if isinstance(v, Enum):
                names = [s['n'] for s in pat['p']['s']]
                if v.var != names[-1]:
                    return 0, {}
                c, b = 1, {}
                inner = v.e[0] if v.e else Struct('#', {})
                for n, p in pat['f']:
                    pl = (place[0], place[1] + (('v', v.var, 0), ('f', n)), place[2]) if place else None
                    c2, b2 = self.pmatch(p, self.getfield(inner, n, st), st, pl)
                    c = bdd.and_(c, c2)
                    b.update(b2)
                return c, b
            if isinstance(v, (Term, Alg)):
                c, b = 1, {}
                for n, p in pat['f']:
                    c2, b2 = self.pmatch(p, self.getfield(v, n, st), st, None)
                    c = bdd.and_(c, c2)
                    b.update(b2)
                return c, b
        raise Undecided('pattern %s on %s' % (k, show(v)[:60]))

    def pseq(self, es, vs, st, place, mk):
        rest = [i for i, e in enumerate(es) if e['k'] == '..' or (e['k'] == 'id' and e['sub'] and e['sub']['k'] == '..')]
        pairs = []
        if rest:
            i = rest[0]
            tail = len(es) - i - 1
            if len(vs) < len(es) - 1:
                return 0, {}
            for j in range(i):
                pairs.append((es[j], vs[j], j))
            for j in range(tail):
                pairs.append((es[i + 1 + j], vs[len(vs) - tail + j], len(vs) - tail + j))
            b = {}
            if es[i]['k'] == 'id':
                b[es[i]['n']] = (Seq(vs[i:len(vs) - tail], 'slice'), es[i]['m'])
            c = 1
        else:
            if len(vs) != len(es):
                return 0, {}
            pairs = [(e, x, j) for j, (e, x) in enumerate(zip(es, vs))]
            c, b = 1, {}
        for p, x, j in pairs:
            pl = (place[0], place[1] + (mk(j),), place[2]) if place else None
            c2, b2 = self.pmatch(p, x, st, pl)
            c = bdd.and_(c, c2)
            b.update(b2)
        return c, b

    def pvariant(self, v, var, subs, st, place):
        v = self.deref(v, st)
        if isinstance(v, Gated):
            return self.pmatch({'k': 'ts', 'p': {'s': [{'n': var}]}, 'e': subs}, v, st, place) if subs else \
                (bdd.or_(*[bdd.and_(g, self.pvariant(x, var, [], st, None)[0]) for x, g in v.g]), {})
        if isinstance(v, Enum):
            if v.var != var:
                return 0, {}
            if not subs:
                return 1, {}
            return self.pseq(subs, list(v.e), st, place, lambda i: ('v', var, i))
        if isinstance(v, Term):
            c = bdd.atom(('is', var, v))
            b = {}
            for i, p in enumerate(subs):
                if p['k'] == '..':
                    continue
                c2, b2 = self.pmatch(p, Term('payload', (v, var, i)), st, None)
                c = bdd.and_(c, c2)
                b.update(b2)
            return c, b
        h = self.M.get('variant')
        r = h(self, st, v, None, [var, subs], None, None) if h else None
        if r is not None:
            c, vs = r
            c2, b = self.pseq(subs, vs, st, None, lambda i: ('f', str(i))) if subs else (1, {})
            return bdd.and_(c, c2), b
        raise Undecided('variant pattern %s on %s' % (var, show(v)[:60]))

    # ------------------------------------------------------------ comparison
    def truth(self, v, st=None):
        if st is not None:
            v = self.deref(v, st)
        if isinstance(v, Bool):
            return v.b
        if isinstance(v, Gated):
            return bdd.or_(*[bdd.and_(g, self.truth(x)) for x, g in v.g])
        if isinstance(v, Int) and v.v in (0, 1):
            return v.v
        return bdd.atom(('truth', v))

    def eq0(self, p):
        if p.is_const():
            return 1 if p.constval() == 0 else 0
        if all(isinstance(v, int) for _, v in p.m):
            g = 0
            for _, v in p.m:
                g = math.gcd(g, v)
            if g > 1:
                p = Poly(frozenset((k, v // g) for k, v in p.m))
        if self.distinct is not None:
            r = self.distinct(p)
            if r is not None:
                return r
        return bdd.atom(('eq0', p.sign_norm()))

    def veq(self, a, b, st=None):
        if st is not None:
            a, b = self.deref(a, st), self.deref(b, st)
        if a == b:
            return 1
        if isinstance(a, Gated) or isinstance(b, Gated):
            return liftb(lambda x, y: self.veq(x, y, st), a, b)
        if isinstance(a, Struct) and isinstance(b, Struct) and a.name == b.name:
            ms = [x for x in self.prog.method(a.name, 'eq') if x[0].trait is not None and trait_name(x[0].trait) == 'PartialEq']
            if ms and st is not None:
                return self.truth(self.call(ms[0][1], [a, b], None, None, st))
            return bdd.and_(*[self.veq(a.f[k], b.f[k], st) for k in a.f])
        a, b = unwrap_nt(a, b), unwrap_nt(b, a)
        if a == b:
            return 1
        if isinstance(a, Int) and isinstance(b, Int):
            if a.v is not None and b.v is not None:
                return 1 if a.v == b.v else 0
            if a.lin is not None and b.lin is not None or (a.lin is not None and b.v is not None and a.lin.single_atom() is None) \
                    or (b.lin is not None and a.v is not None and b.lin.single_atom() is None):
                return self.int_eq0(a.aslin().add(b.aslin(), -1))
            if a.lin is not None and (a.width() or 64) > 32 or b.lin is not None and (b.width() or 64) > 32:
                return self.int_eq0(a.aslin().add(b.aslin(), -1))
            w = max(a.width() or 0, b.width() or 0, len(a.bits or ()), len(b.bits or ()), (a.v or 0).bit_length(), (b.v or 0).bit_length())
            if (a.v or 0) < 0 or (b.v or 0) < 0:
                return self.int_eq0(a.aslin().add(b.aslin(), -1))
            return bdd.and_(*[bdd.iff(x, y) for x, y in zip(a.tobits(w), b.tobits(w))])
        if isinstance(a, Bool) and isinstance(b, Bool):
            return bdd.iff(a.b, b.b)
        if isinstance(a, Alg) and isinstance(b, Alg):
            return self.eq0(a.p.add(b.p, -1))
        if isinstance(a, Alg) and isinstance(b, Int):
            return self.eq0(a.p.add(b.aslin(), -1))
        if isinstance(b, Alg) and isinstance(a, Int):
            return self.eq0(b.p.add(a.aslin(), -1))
        if isinstance(a, Seq) and isinstance(b, Seq):
            la, lb = a.length(), b.length()
            if self.eqseq is not None:
                r = self.eqseq(a, b)
                if r is not None:
                    return r
            if isinstance(la, int) and isinstance(lb, int):
                if la != lb:
                    return 0
                if la <= 4096:
                    try:
                        return bdd.and_(*[self.veq(x, y, st) for x, y in zip(a.items(), b.items())])
                    except Undecided:
                        pass
            k = sorted((a, b), key=show)
            return bdd.atom(('eqseq', k[0], k[1]))
        if isinstance(a, Enum) and isinstance(b, Enum):
            if a.var != b.var or len(a.e) != len(b.e):
                return 0
            return bdd.and_(*[self.veq(x, y, st) for x, y in zip(a.e, b.e)])
        if isinstance(a, Tup) and isinstance(b, Tup) and len(a.e) == len(b.e):
            return bdd.and_(*[self.veq(x, y, st) for x, y in zip(a.e, b.e)])
        if isinstance(a, Opq) and isinstance(b, Opq) and a.cls == b.cls == 'f64':
            return 1 if a.f['v'] == b.f['v'] else 0
        k = sorted((a, b), key=show)
        return bdd.atom(('eq', k[0], k[1]))

    def int_eq0(self, p):
        if p.is_const():
            return 1 if p.constval() == 0 else 0
        if self.sure_pos(p) or self.sure_pos(p.scale(-1)):
            return 0
        return bdd.atom(('ieq0', p.sign_norm()))

    def sure_pos(self, p):
        """all unknowns of integer linear forms are non-negative"""
        return all(v > 0 for k, v in p.m) and p.constval() > 0

    def int_le0(self, p):
        """p <= 0 over non-negative unknowns"""
        if p.is_const():
            return 1 if p.constval() <= 0 else 0
        if all(v > 0 for k, v in p.m) and p.constval() > 0:
            return 0
        if all(v < 0 for k, v in p.m):
            return 1
        if all(v > 0 for k, v in p.m) and p.constval() == 0 and len(p.m) == 1:
            return self.int_eq0(p)      # x <= 0  <=>  x == 0
        # canonical: p <= 0  <=>  not (1 - p <= 0)
        q = Poly.const(1).add(p, -1)
        if q.is_const():
            return 0 if q.constval() <= 0 else 1
        # x >= 1  <=>  x != 0
        if len([k for k, v in q.m if k != ()]) == 1 and q.constval() == 0 and all(v > 0 for k, v in q.m):
            return bdd.neg(self.int_eq0(q))
        n = p.sign_norm()
        lead = lambda z: min(z.m, key=lambda kv: (-len(kv[0]), [aord(a) for a in kv[0]]))[1]
        if lead(p) < 0:
            return bdd.neg(bdd.atom(('ile0', q)))
        return bdd.atom(('ile0', p))

    def cmp(self, op, a, b, st=None):
        if st is not None:
            a, b = self.deref(a, st), self.deref(b, st)
        if isinstance(a, Gated) or isinstance(b, Gated):
            return liftb(lambda x, y: self.cmp(op, x, y, st), a, b)
        a, b = unwrap_nt(a, b), unwrap_nt(b, a)
        if op == '>':
            return self.cmp('<', b, a)
        if op == '>=':
            return bdd.neg(self.cmp('<', a, b))
        if op == '<=':
            return bdd.neg(self.cmp('<', b, a))
        # a < b
        if isinstance(a, Int) and isinstance(b, Int):
            if a.v is not None and b.v is not None:
                return 1 if a.v < b.v else 0
            if (a.bits is not None or b.bits is not None) and a.lin is None and b.lin is None \
                    and (a.v is None or a.v >= 0) and (b.v is None or b.v >= 0) \
                    and (a.ty not in SIGNED) and (b.ty not in SIGNED):
                w = max(len(a.bits or ()), len(b.bits or ()), (a.v or 0).bit_length(), (b.v or 0).bit_length())
                if a.v is not None or b.v is not None or w <= 16:
                    r = 0
                    for x, y in zip(a.tobits(w), b.tobits(w)):
                        r = bdd.ite(bdd.xor(x, y), y, r)
                    return r
            return self.int_le0(a.aslin().add(b.aslin(), -1).add(Poly.const(1)))
        if isinstance(a, Bool) and isinstance(b, Bool):
            return bdd.and_(bdd.neg(a.b), b.b)
        if isinstance(a, Alg) and isinstance(b, Alg):
            r = self.flt(a, b)
            if r is not None:
                return r
        if isinstance(a, (Alg, Int)) and isinstance(b, (Alg, Int)):
            pa = a.p if isinstance(a, Alg) else a.aslin()
            pb = b.p if isinstance(b, Alg) else b.aslin()
            if pa == pb:
                return 0
            if pa.is_const() and pb.is_const():
                return 1 if pa.constval() < pb.constval() else 0
            return bdd.atom(('lt', pa, pb))
        if isinstance(a, Tup) and isinstance(b, Tup) and len(a.e) == len(b.e):
            r = 0
            for x, y in reversed(list(zip(a.e, b.e))):
                r = bdd.or_(self.cmp('<', x, y), bdd.and_(self.veq(x, y, st), r))
            return r
        if a == b:
            return 0
        return bdd.atom(('ltv', a, b))

    # ------------------------------------------------------------ integers
    def unify(self, a, b):
        if a.ty is None and b.ty is not None:
            a = self.retype(a, b.ty)
        elif b.ty is None and a.ty is not None:
            b = self.retype(b, a.ty)
        return a, b, a.ty or b.ty

    def wrap(self, v, ty, st, n, what):
        if ty is None:
            return Int(None, v=v)
        w = WIDTH[ty]
        lo, hi = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if ty in SIGNED else (0, (1 << w) - 1)
        if v < lo or v > hi:
            self.panic(st, 1, 'arithmetic overflow in %s' % what, n)
        return Int(ty, v=v)

    def arith(self, op, a, b, st, n=None, mode='check'):
        """mode: check (panic on overflow), wrap"""
        if isinstance(a, Gated) or isinstance(b, Gated):
            out = []
            for x, gx in leaves(a):
                for y, gy in leaves(b):
                    g = bdd.and_(gx, gy)
                    if g != 0 and bdd.and_(g, st.pc) != 0:
                        out.append((g, x, y))
            return self.fork(st, [(g, lambda s, x=x, y=y: self.arith(op, x, y, s, n, mode)) for g, x, y in out])
        if op in ('<<', '>>'):
            return self.shift(op, a, b, st, n, mode)
        a, b, ty = self.unify(a, b)
        w = WIDTH.get(ty, 64)
        if a.v is not None and b.v is not None:
            x, y = a.v, b.v
            if op == '+':
                r = x + y
            elif op == '-':
                r = x - y
            elif op == '*':
                r = x * y
            elif op in ('/', '%'):
                if y == 0:
                    self.panic(st, 1, 'division by zero', n)
                q = abs(x) // abs(y) * (1 if (x < 0) == (y < 0) else -1)
                r = q if op == '/' else x - q * y
            else:
                if ty is not None and (x < 0 or y < 0):
                    x &= (1 << w) - 1
                    y &= (1 << w) - 1
                r = {'&': x & y, '|': x | y, '^': x ^ y}[op]
                if ty in SIGNED and r >> (w - 1) & 1:
                    r -= 1 << w
                return Int(ty, v=r)
            if mode == 'wrap' and ty is not None:
                r &= (1 << w) - 1
                if ty in SIGNED and r >> (w - 1):
                    r -= 1 << w
                return Int(ty, v=r)
            return self.wrap(r, ty, st, n, op)
        if op in ('&', '|', '^'):
            f = {'&': lambda x, y: bdd.and_(x, y), '|': lambda x, y: bdd.or_(x, y), '^': bdd.xor}[op]
            return Int(ty, bits=[f(x, y) for x, y in zip(a.tobits(w), b.tobits(w))])
        if op in ('+', '-'):
            if op == '+' and a.lin is None and b.lin is None:
                A, B = a.tobits(w), b.tobits(w)
                if all(bdd.and_(x, y) == 0 for x, y in zip(A, B)):
                    return Int(ty, bits=[bdd.or_(x, y) for x, y in zip(A, B)])
                if w <= 8 or self.smallbits(a) and self.smallbits(b):
                    return self.add_bits(A, B, 0, ty, st, n, mode, op)
            if op == '-' and a.lin is None and b.lin is None:
                A, B = a.tobits(w), b.tobits(w)
                if w <= 8 or self.smallbits(a) and self.smallbits(b):
                    # a - b with borrow
                    out, br = [], 0
                    for x, y in zip(A, B):
                        out.append(bdd.xor(bdd.xor(x, y), br))
                        br = bdd.or_(bdd.and_(bdd.neg(x), bdd.or_(y, br)), bdd.and_(y, br))
                    if mode == 'check':
                        self.panic(st, br, 'arithmetic overflow in -', n)
                    return Int(ty, bits=out)
            return Int(ty, lin=a.aslin().add(b.aslin(), 1 if op == '+' else -1))
        if op == '*':
            if a.v is not None:
                a, b = b, a
            if b.v is not None:
                if b.v == 0:
                    return Int(ty, v=0)
                if b.v == 1:
                    return a
                if a.bits is not None:
                    if all(x == 0 for x in a.bits[1:]):
                        # one-bit value times a constant
                        if ty is not None and b.v >> w:
                            self.panic(st, a.bits[0], 'arithmetic overflow in *', n)
                        return Int(ty, bits=[a.bits[0] if (b.v >> i) & 1 else 0 for i in range(w)])
                    if b.v & (b.v - 1) == 0:
                        k = b.v.bit_length() - 1
                        if mode == 'check' and ty is not None:
                            self.panic(st, bdd.or_(*a.tobits(w)[w - k:]) if k else 0, 'arithmetic overflow in *', n)
                        return Int(ty, bits=((0,) * k + a.tobits(w))[:w])
                return Int(ty, lin=a.aslin().scale(b.v))
            if a.bits is not None and b.bits is not None:
                if all(x == 0 for x in a.bits[1:]):
                    return Int(ty, bits=[bdd.and_(a.bits[0], y) for y in b.tobits(w)])
                if all(x == 0 for x in b.bits[1:]):
                    return Int(ty, bits=[bdd.and_(b.bits[0], y) for y in a.tobits(w)])
            return Int(ty, lin=a.aslin().mul(b.aslin()))
        if op in ('/', '%'):
            if b.v is not None and b.v > 0 and b.v & (b.v - 1) == 0 and (a.bits is not None or b.v == 1):
                k = b.v.bit_length() - 1
                A = a.tobits(w)
                return Int(ty, bits=A[k:] + (0,) * k) if op == '/' else Int(ty, bits=A[:k] + (0,) * (w - k))
            if b.v is None:
                self.panic(st, self.veq(b, Int(ty, v=0)), 'division by zero', n)
            elif b.v == 0:
                self.panic(st, 1, 'division by zero', n)
            A = a.aslin()
            if b.v is not None and all(v % b.v == 0 for k, v in A.m if k != ()):
                c = A.constval()
                if op == '%':
                    return Int(ty, v=c % b.v)
                if c >= 0:
                    r = {k: v // b.v for k, v in A.m if k != ()}
                    r[()] = c // b.v
                    return Int(ty, lin=Poly.of(r))
            return Int(ty, lin=Poly.atom(('div' if op == '/' else 'rem', A, b.aslin())))
        raise Undecided('integer operation %s' % op)

    def smallbits(self, a):
        if a.v is not None:
            return a.v.bit_length() <= 12
        return sum(1 for b in a.bits if b != 0) <= 12

    def add_bits(self, A, B, c, ty, st, n, mode, op):
        out = []
        for x, y in zip(A, B):
            out.append(bdd.xor(bdd.xor(x, y), c))
            c = bdd.or_(bdd.and_(x, y), bdd.and_(c, bdd.or_(x, y)))
        if mode == 'check' and c != 0:
            self.panic(st, c, 'arithmetic overflow in %s' % op, n)
        return Int(ty, bits=out)

    def shift(self, op, a, b, st, n, mode):
        ty = a.ty
        w = WIDTH.get(ty) if ty else None
        if b.v is None:
            bb = b.tobits()
            top = max([i for i, x in enumerate(bb) if x != 0] or [0])
            if top >= 7:
                return Term('?shift', (a, b))
            alts = []
            for k in range(1 << (top + 1)):
                g = bdd.and_(*[x if (k >> i) & 1 else bdd.neg(x) for i, x in enumerate(bb[:top + 1])])
                if g != 0:
                    alts.append((g, lambda s, k=k: self.shift(op, a, Int(b.ty, v=k), s, n, mode)))
            return self.fork(st, alts)
        k = b.v
        if w is not None and (k >= w or k < 0):
            if mode == 'wrap':
                k %= w
            else:
                self.panic(st, 1, 'shift by %d of %s' % (k, ty), n)
        if a.v is not None:
            if op == '<<':
                r = a.v << k
                if w is not None:
                    r &= (1 << w) - 1
                    if ty in SIGNED and r >> (w - 1):
                        r -= 1 << w
                return Int(ty, v=r)
            return Int(ty, v=a.v >> k)
        ww = w or 128
        A = a.tobits(ww)
        if op == '<<':
            return Int(ty, bits=((0,) * k + A)[:ww])
        s = A[-1] if ty in SIGNED else 0
        return Int(ty, bits=A[k:] + (s,) * k)

    def asfloat(self, v, other):
        if isinstance(v, Opq) and v.cls == 'f64':
            return v.f['v']
        return None

    def binop(self, op, a, b, st, n=None):
        a, b = self.deref(a, st), self.deref(b, st)
        if op in ('==', '!='):
            c = self.veq(a, b, st)
            return mkbool(c if op == '==' else bdd.neg(c))
        if op in ('<', '>', '<=', '>='):
            return mkbool(self.cmp(op, a, b, st))
        if isinstance(a, Gated) or isinstance(b, Gated):
            la, lb = leaves(a), leaves(b)
            alts = []
            for x, gx in la:
                for y, gy in lb:
                    g = bdd.and_(gx, gy)
                    if g != 0:
                        alts.append((g, lambda s, x=x, y=y: self.binop(op, x, y, s, n)))
            return self.fork(st, alts)
        fa, fb = self.asfloat(a, b), self.asfloat(b, a)
        if fa is not None and fb is not None:
            try:
                return Opq('f64', v={'+': lambda: fa + fb, '-': lambda: fa - fb, '*': lambda: fa * fb, '/': lambda: fa / fb, '%': lambda: math.fmod(fa, fb)}[op]())
            except (ZeroDivisionError, KeyError, OverflowError):
                raise Undecided('float arithmetic')
        if isinstance(a, Bool) and isinstance(b, Bool):
            f = {'&': bdd.and_, '|': bdd.or_, '^': bdd.xor}.get(op)
            if f:
                return mkbool(f(a.b, b.b))
        if isinstance(a, Int) and isinstance(b, Int):
            return self.arith(op, a, b, st, n)
        # operator overloading of repository types
        if isinstance(a, Struct):
            ms = self.prog.method(a.name, BINOPS[op])
            if ms:
                return self.call(ms[0][1], [a, b], None, None, st, n)
        if any(isinstance(x, Struct) and x.name in CIRCUIT for x in (a, b)):
            f = self.M.get('op' + op)
            if f:
                r = f(self, st, a, None, [b], n, None)
                if r is not None:
                    return r
        a2, b2 = unwrap_nt(a, b), unwrap_nt(b, a)
        if isinstance(a2, (Alg, Int)) and isinstance(b2, (Alg, Int)):
            pa = a2.p if isinstance(a2, Alg) else a2.aslin()
            pb = b2.p if isinstance(b2, Alg) else b2.aslin()
            kind = a2.kind if isinstance(a2, Alg) else b2.kind
            if op == '+':
                return Alg(pa.add(pb), kind)
            if op == '-':
                return Alg(pa.add(pb, -1), kind)
            if op == '*':
                if isinstance(a2, Alg) and isinstance(b2, Alg) and (a2.kind in ('F', None)) and b2.kind in ('G1', 'G2'):
                    kind = b2.kind
                if isinstance(a2, Alg) and a2.kind == 'GT' and isinstance(b2, Alg) and b2.kind == 'GT':
                    return Alg(pa.add(pb), 'GT')
                return Alg(pa.mul(pb), kind)
            if op == '/':
                return Alg(pa.mul(Poly.atom(('inv', pb))), kind)
        if isinstance(a, Seq) and isinstance(b, Seq) and op == '+':
            return Seq(a.e + b.e, a.kind)
        if isinstance(a, Opq) or isinstance(b, Opq):
            f = self.M.get('op' + op)
            if f:
                r = f(self, st, a, None, [b], n, None)
                if r is not None:
                    return r
        if isinstance(a, (Bool, Int)) and isinstance(b, (Bool, Int)):
            pass
        return Term('?op' + op, (a, b))

    # ------------------------------------------------------------ literals, consts
    def lit(self, l):
        k = l['k']
        if k == 'int':
            return Int(l['s'] or None, v=int(l['v']))
        if k == 'bool':
            return TRUE if l['v'] else FALSE
        if k == 'str':
            return Seq([Int('u8', v=x) for x in l['v'].encode()], 'str')
        if k == 'bstr':
            return Seq([Int('u8', v=x) for x in l['v']], 'slice')
        if k == 'byte':
            return Int('u8', v=l['v'])
        if k == 'char':
            return Int('char', v=ord(l['v'])) if False else Term('char', (l['v'],))
        if k == 'float':
            try:
                return Opq('f64', v=float(str(l['v']).replace('_', '').rstrip('f64').rstrip('f32') if str(l['v']).endswith(('f64', 'f32')) else str(l['v']).replace('_', '')))
            except ValueError:
                pass
        return Term('literal', (str(l),))

    def const(self, d, self_ty=None):
        sub = {}
        if d.impl is not None and self_ty is None and self.frames:
            ct = self.frames[-1].self_ty
            if ct is not None and ct[0] == 'path' and ct[1] == d.impl.head and ct[2]:
                self_ty = ct
                sub.update(self.impl_subst(d.impl, ct))
        key = (d.path, id(d.node), self.tykey(self_ty) if sub else None)
        if key in self.consts:
            v = self.consts[key]
            if v is None:
                raise Undecided('recursive constant %s' % d.path)
            return v
        self.consts[key] = None
        fr = Frame(d, d.mod, sub, self_ty, 1)
        if d.impl is not None and self_ty is None:
            f0 = Frame(d, d.mod, {}, None, 1)
            for g in d.impl.gen:
                f0.subst[g] = ('param', g)
            fr.self_ty = self.rty(d.impl.node['t'], f0)
        saved = self.frames
        self.frames = [fr]
        try:
            st = State({}, 1)
            ty = self.rty(d.node['t'], fr)
            v = self.coerce(self.ev(d.node['e'], Scope(), st, ty), ty)
            for l, x in st.heap.items():
                self.globals[l] = x
        except Dead:
            v = Term('?diverges', (d.path,))
        finally:
            self.frames = saved
        self.consts[key] = v
        return v

    # ------------------------------------------------------------ paths
    def rvalue_path(self, names):
        fr = self.frames[-1]
        if names[0] == 'Self' and fr.self_ty is not None and len(names) == 2:
            t = fr.self_ty
            if t[0] == 'path' and isinstance(t[3], D):
                r = t[3]
                if r.kind == 'enum' and any(v['n'] == names[1] for v in r.node['vs']):
                    return ('variant', r, names[1])
                return ('assoc', r, (names[1],))
        return self.prog.resolve_path(tuple(names), fr.mod, 'v')

    def ev_path(self, n, sc, st, hint):
        p = n['p']
        segs = p['s']
        names = [s['n'] for s in segs]
        if len(names) == 1 and not p.get('q'):
            loc = sc.get(names[0])
            if loc is not None:
                return self.getloc(st, loc)
        f = self.path_fn(p, st, n)
        if isinstance(f, FnV) and f.d == ('unitvariant',):
            return f.info
        return f

    MUTABLE = ('Mutex', 'RwLock', 'RefCell', 'Cell', 'UnsafeCell', 'OnceCell', 'OnceLock')

    def static_loc(self, names):
        """place of a static that can change, or None.  Its value before the
        analysed call is arbitrary, unless statics_from_start is set."""
        fr = self.frames[-1]
        it = d = None
        if len(names) == 1:
            for x in reversed(fr.items):
                if x.get('n') == names[0] and x['k'] in ('const', 'static'):
                    it = x
                    break
        if it is None:
            d = self.prog.resolve_path(tuple(names), fr.mod, 'v') if names[-1].isupper() else None
            if not isinstance(d, D) or d.kind != 'static':
                return None
            it = d.node
        if it['k'] != 'static':
            return None
        loc = self.statics.get(id(it))
        if loc is not None:
            return loc
        ty = self.rty(it['t'], fr if d is None else Frame(d, d.mod, {}, None, 1))
        h = self.head(ty) or ''
        h = h.split('::')[-1]
        if not (it.get('m') or h in self.MUTABLE or h.startswith('Atomic')):
            return None
        if h.startswith('Atomic'):
            h = h[6:].lower()
        key = ('static', it['n'])
        if h == 'bool':
            v = Bool(bdd.atom(key))
        elif h in WIDTH:
            v = bsym(key, h) if h != 'usize' else isym(key, h)
        elif self.statics_from_start:
            st = State({}, 1)
            v = self.const(d) if d is not None else self.coerce(self.ev(it['e'], Scope(), st, ty), ty)
            self.globals.update(st.heap)
        else:
            v = Term('?static', (it['n'],))
        loc = self.statics[id(it)] = self.alloc(State({}, 1), v, True)
        self.globals[loc] = v
        return loc

    def path_fn(self, p, st, n):
        """value denoted by a path that is not a local variable"""
        fr = self.frames[-1]
        segs = p['s']
        names = [s['n'] for s in segs]
        targs = [self.rty(a, fr) for a in (segs[-1]['a'] or []) if a['k'] not in ('lt', 'const', 'assoc', 'other', 'fnargs')]
        loc = self.static_loc(names)
        if loc is not None:
            return self.getloc(st, loc)
        for it in reversed(fr.items):
            if len(names) == 1 and it.get('n') == names[0] and it['k'] in ('const', 'static'):
                return self.ev(it['e'], Scope(), st, self.rty(it['t'], fr))
            if len(names) == 1 and it['k'] == 'fn' and it['sig']['n'] == names[0]:
                return FnV(('def', D('fn', names[0], fr.mod.path + '::' + names[0], fr.mod, it, fr.d.file)), {'targs': targs})
        if p.get('q'):
            q = self.rty(p['q'], fr)
            tr = segs[p['qp'] - 1]['n'] if p.get('qp') else None
            return self.assoc(q, names[p.get('qp', 0):], targs, st, n, trait=tr)
        if len(names) >= 2 and (names[0] == 'Self' or names[0] in fr.subst):
            base = fr.self_ty if names[0] == 'Self' else fr.subst[names[0]]
            if base is not None:
                if base[0] == 'path' and isinstance(base[3], D) and base[3].kind == 'enum' and any(v['n'] == names[1] for v in base[3].node['vs']):
                    return self.variant(base[3], names[1])
                return self.assoc(base, names[1:], targs, st, n)
        if names == ['Self'] and fr.self_ty is not None and fr.self_ty[0] == 'path' and isinstance(fr.self_ty[3], D):
            return self.struct_ctor(fr.self_ty[3])
        r = self.prog.resolve_path(tuple(names), fr.mod, 'v')
        if r is None and len(names) >= 2:
            r = ('ext', tuple(names))
        if isinstance(r, D):
            if r.kind in ('const', 'static'):
                return self.const(r)
            if r.kind == 'fn':
                return FnV(('def', r), {'targs': targs})
            if r.kind == 'struct':
                return self.struct_ctor(r)
        if isinstance(r, tuple):
            if r[0] == 'variant':
                return self.variant(r[1], r[2])
            if r[0] == 'assoc':
                d = r[1]
                if d.kind == 'type':
                    f2 = Frame(d, d.mod, {}, None, 1)
                    a2 = [self.rty(a, fr) for a in (segs[-len(r[2]) - 1]['a'] or []) if a['k'] not in ('lt', 'const', 'assoc', 'other')]
                    f2.subst = dict(zip([g['n'] for g in d.node['g']['p']], a2))
                    t = self.rty(d.node['t'], f2)
                    if t[0] == 'path' and isinstance(t[3], D) and t[3].kind == 'enum' and any(v['n'] == r[2][0] for v in t[3].node['vs']):
                        return self.variant(t[3], r[2][0])
                    return self.assoc(t, list(r[2]), targs, st, n)
                a2 = tuple(self.rty(a, fr) for a in (segs[-len(r[2]) - 1]['a'] or []) if a['k'] not in ('lt', 'const', 'assoc', 'other'))
                if d.kind == 'trait':
                    fd = d.extra['fns'].get(r[2][0])
                    if fd is not None:
                        return FnV(('trait', d, r[2][0]), {'targs': targs})
                return self.assoc(('path', d.path, a2, d), list(r[2]), targs, st, n)
            if r[0] == 'ext':
                full = r[1]
                # type arguments on the type segment, e.g. Vec::<u8>::new
                tty = None
                if len(segs) >= 2:
                    tp = {'s': segs[:-1]}
                    try:
                        tty = self.rpath(tp, fr)
                    except Exception:
                        tty = None
                return self.extpath(full, targs, tty, st, n)
        raise Undecided('unresolved name %s' % '::'.join(names))

    def struct_ctor(self, d):
        if d.node['f']['k'] == 'unit':
            return Struct(d.path, {})
        return FnV(('ctor', d))

    def variant(self, e, name):
        v = [x for x in e.node['vs'] if x['n'] == name][0]
        if v['f']['k'] == 'unit':
            return Enum(e.path, name)
        return FnV(('vctor', e, name))

    def extpath(self, full, targs, tty, st, n):
        last = full[-1]
        if last == 'None':
            return NONE
        if last in ('Some', 'Ok', 'Err'):
            return FnV(('evar', last))
        if len(full) >= 2:
            k = full[-2] + '::' + last
            c = self.F.get('const ' + k)
            if c is not None:
                return c(self, st, tty, n)
        # externally defined constant?
        c = self.F.get('const *::' + last)
        if c is not None and len(full) >= 2:
            return c(self, st, tty, n)
        return FnV(('ext',) + tuple(full), {'targs': targs, 'tty': tty})

    def assoc(self, ty, names, targs, st, n, trait=None):
        """associated function / constant of a type"""
        name = names[-1]
        if len(names) > 1:
            ty = ('assocty', ty, names[-2])
        h = self.head(ty)
        if h is not None:
            for im in self.prog.impls:
                if im.head == h and name in im.consts:
                    return self.const(im.consts[name], ty)
            ms = self.prog.method(h, name, trait)
            if ms:
                d = self.pick(ms, ty)
                alts = ms if len(ms) > 1 and ms[0][0].trait is not None else None
                return FnV(('def', d), {'targs': targs, 'self_ty': ty, 'alts': alts})
            fd = self.trait_default(h, name)
            if fd is not None:
                return FnV(('def', fd), {'targs': targs, 'self_ty': ty})
        if ty[0] in ('param', 'assocty', 'impl'):
            # trait function on an unknown type
            for t in self.prog.traits:
                if name in t.extra['fns'] and ty[0] != 'assocty':
                    return FnV(('trait', t, name), {'targs': targs, 'self_ty': ty})
        hn = h or (ty[2] if ty[0] == 'assocty' else ty[1] if len(ty) > 1 and isinstance(ty[1], str) else '?')
        return self.extpath((hn, name), targs, ty, st, n)

    def pick(self, ms, ty):
        if len(ms) == 1:
            return ms[0][1]
        # several impls of a generic type: prefer the one whose arguments match
        args = ty[2] if ty is not None and ty[0] == 'path' else ()
        for im, d in ms:
            f0 = Frame(d, im.mod, {g: ('param', g) for g in im.gen}, None, 1)
            t = self.rty(im.node['t'], f0)
            if t[0] == 'path' and [a[1] if len(a) > 1 else a for a in t[2]] == [a[1] if len(a) > 1 else a for a in args]:
                return d
        return ms[0][1]

    def trait_default(self, head, name):
        try:
            return self._tdef[head, name]
        except KeyError:
            r = self._tdef[head, name] = self.trait_default0(head, name)
            return r

    def trait_default0(self, head, name):
        for im in self.prog.impls:
            if im.head == head and isinstance(im.trait, D):
                fd = im.trait.extra['fns'].get(name)
                if fd is not None and fd.node.get('b') is not None:
                    return fd
        return None

    # ------------------------------------------------------------ call dispatch
    def call_def(self, d, args, st, n, hint, info):
        info = info or {}
        k = d[0]
        if k == 'py':
            return d[1](self, st, args, n, hint)
        if k == 'def':
            fd = d[1]
            if info.get('alts') and args:
                # several implementations of one trait: the argument selects
                fit = [x for im, x in info['alts'] if x.node['sig']['in'] and x.node['sig']['in'][0].get('t')
                       and self.ty_matches(self.deref(args[0], st), x.node['sig']['in'][0]['t'], im)]
                if fit and fd not in fit:
                    fd = fit[0]
            sub = {}
            ps = [g['n'] for g in fd.node['sig']['g']['p'] if 'const' not in g]
            for a, b in zip(ps, info.get('targs') or []):
                sub[a] = b
            sty = info.get('self_ty')
            if fd.impl is not None and sty is not None and sty[0] == 'path':
                sub.update(self.impl_subst(fd.impl, sty))
            if fd.extra.get('trait') is not None and sty is None and args:
                h = self.value_head(self.deref(args[0], st))
            return self.call(fd, args, sty, sub, st, n)
        if k == 'evar':
            v = args[0] if args else UNIT
            if d[1] == 'Some':
                return Some(v)
            return Ok(v) if d[1] == 'Ok' else Err(v)
        if k == 'ctor':
            fs = d[1].node['f']['f']
            fr = Frame(d[1], d[1].mod, {g['n']: ('param', g['n']) for g in d[1].node['g']['p']}, None, 1)
            return Struct(d[1].path, {str(i): self.coerce(a, self.rty(fs[i]['t'], fr)) for i, a in enumerate(args)})
        if k == 'vctor':
            return Enum(d[1].path, d[2], args)
        if k == 'trait':
            # Trait::method(x, ..): dispatch on the receiver
            fd = d[1].extra['fns'][d[2]]
            ins = fd.node['sig']['in']
            if ins and ins[0].get('self') and args:
                return self.dispatch(d[2], args[0], args[1:], st, n, hint, info.get('targs'))
            return self.call(fd, args, info.get('self_ty'), {}, st, n) if fd.node.get('b') is not None else \
                self.opaque_call(fd, args, info.get('self_ty'), {}, st, n)
        if k == 'ext':
            return self.call_ext(d[1:], args, st, n, hint, info)
        if k == 'method':
            return self.dispatch(d[1], args[0], args[1:], st, n, hint, None)
        raise Undecided('call %s' % (d,))

    def impl_subst(self, im, sty):
        out = {}
        t = im.node['t']
        if t['k'] == 'path':
            al = [a for a in (t['p']['s'][-1]['a'] or []) if a['k'] not in ('lt', 'const', 'assoc', 'other')]
            for a, b in zip(al, sty[2]):
                if a['k'] == 'path' and len(a['p']['s']) == 1 and a['p']['s'][0]['n'] in im.gen:
                    out[a['p']['s'][0]['n']] = b
        return out

    def call_ext(self, full, args, st, n, hint, info):
        last = full[-1]
        for i in range(max(0, len(full) - 3), len(full)):
            f = self.F.get('::'.join(full[i:]))
            if f is not None and i < len(full) - 0:
                if i == len(full) - 1 and len(full) >= 2 and full[-2][:1].isupper():
                    continue        # a bare-name model does not apply to Type::name
                return f(self, st, args, n, hint, info)
        if len(full) >= 2:
            f = self.F.get('*::' + last)
            if f is not None:
                return f(self, st, args, n, hint, info)
            # UFCS call of a method: Type::method(receiver, ..)
            if args and (last in self.M or self.find_user_method(self.deref(args[0], st), last)):
                if full[-2][:1].isupper() or full[-2] in WIDTH or full[-2] == 'str':
                    return self.dispatch(last, args[0], args[1:], st, n, hint, info.get('targs'))
        return self.unknown_call('fn:' + '::'.join(full[-2:]), args, st, n)

    KINDHEADS = {'G1': ('G1Var', 'G1Projective', 'GroupProjective', 'ProjectiveVar'),
                 'G1a': ('G1Affine', 'GroupAffine'), 'G2a': ('G2Affine', 'GroupAffine'),
                 'G': ('GroupProjective', 'ProjectiveVar'), 'Ga': ('GroupAffine',),
                 'G2': ('G2Var', 'G2Projective', 'GroupProjective', 'ProjectiveVar'),
                 'F': ('FpVar', 'Fp', 'Fr', 'Fq', 'AllocatedFp'), 'Fs': ('Fr', 'FpVar', 'Fp'), 'F2': ('Fq2', 'QuadExtVar', 'Fq2Var', 'QuadExtField'),
                 'E': ('EdwardsProjective', 'GroupProjective'), 'Ea': ('EdwardsAffine', 'GroupAffine'),
                 'GT': ('Fq12', 'Fqk', 'GTVar')}

    def value_head(self, v):
        if isinstance(v, (Struct, Enum)):
            return (v.name,)
        if isinstance(v, Seq):
            return ('slice', 'Vec', 'String', 'str') if v.kind != 'str' else ('str', 'String', 'slice')
        if isinstance(v, Int):
            return (v.ty,) if v.ty else ('u64', 'usize', 'u32', 'i32')
        if isinstance(v, Bool):
            return ('bool', 'Boolean')
        if isinstance(v, Alg):
            return self.KINDHEADS.get(v.kind, ('FpVar', 'G1Var', 'G2Var', 'Fp', 'Fr', 'Fq'))
        if isinstance(v, Opq):
            return (v.cls,)
        if isinstance(v, Term) and v.ty is not None:
            return (self.head(v.ty),)
        if isinstance(v, Tup):
            return ('tuple',)
        return ()

    def find_user_method(self, v, name):
        """(fn def, substitution) of a repository method applicable to v"""
        heads = self.value_head(v)
        if not (isinstance(v, Term) and not v.op.startswith('?')):
            try:
                return self._fum[heads, name]
            except KeyError:
                r = self._fum[heads, name] = self.find_user_method0(v, name, heads)
                return r
        return self.find_user_method0(v, name, heads)

    def find_user_method0(self, v, name, heads):
        c = self.prog.by_method.get(name, [])
        for h in heads:
            ms = [(im, d) for im, d in c if im.head == h and d.node['sig']['in'] and d.node['sig']['in'][0].get('self')]
            if ms:
                ms.sort(key=lambda x: x[0].trait is not None)
                return ms[0][1]
        for h in heads:
            fd = self.trait_default(h, name)
            if fd is not None:
                return fd
        for im, d in c:
            if im.head == '*' and d.node['sig']['in'] and d.node['sig']['in'][0].get('self'):
                return d
        if isinstance(v, Term) and not v.op.startswith('?'):
            for t in self.prog.traits:
                fd = t.extra['fns'].get(name)
                if fd is not None and fd.node['sig']['in'] and fd.node['sig']['in'][0].get('self') \
                        and (v.ty is None or self.ty_has_trait(v.ty, t)):
                    return fd
        return None

    def ty_has_trait(self, ty, t):
        if ty[0] == 'impl':
            return any(x == t or (isinstance(x, D) and x is t) for x in ty[1])
        return ty[0] in ('param', 'infer', 'assocty')

    def dispatch(self, name, recv, args, st, n, hint, targs):
        """method call on a value or reference"""
        self.sites += 1
        p = None
        r = recv
        while isinstance(r, Ref):
            if r.raw and name in ('as_ref', 'as_mut') and not args:
                return Enum('Option', 'Some', (Ref(r.loc, r.path),))
            p = (r.loc, r.path)
            r = self.read(st, p)
        if isinstance(r, Opq) and name in ('as_ref', 'as_mut') and not args:
            if r.cls == 'null':
                return NONE
            if r.cls in ('memptr', 'bufptr'):
                return Enum('Option', 'Some', (r,))
        if isinstance(r, Gated) and any(isinstance(x, Ref) for x, _ in r.g):
            return self.fork(st, [(g, lambda s, x=x: self.dispatch(name, x, args, s, n, hint, targs)) for x, g in r.g])
        rv = r
        if isinstance(rv, Gated):
            f = self.M.get(name)
            if f is not None and getattr(f, 'nofork', False):
                return f(self, st, rv, p, args, n, hint)

            def run(s, x):
                if p is not None:
                    self.write(s, p, x)
                    return self.dispatch1(name, x, p, args, s, n, hint, targs)
                return self.dispatch1(name, x, None, args, s, n, hint, targs)
            return self.fork(st, [(g, lambda s, x=x: run(s, x)) for x, g in rv.g])
        return self.dispatch1(name, rv, p, args, st, n, hint, targs)

    def dispatch1(self, name, rv, p, args, st, n, hint, targs):
        if isinstance(rv, Opq) and rv.cls == 'lazy' and name not in ('deref', 'clone'):
            v = self.force(self, rv, st, n)
            if not (isinstance(v, Opq) and v.cls == 'lazy'):
                return self.dispatch(name, v, args, st, n, hint, targs)
        d = self.find_user_method(rv, name)
        if d is not None:
            ins = d.node['sig']['in']
            if len(ins) == len(args) + 1:
                recv = rv
                if ins[0]['m'] and ins[0]['ref'] and p is not None:
                    recv = Ref(p[0], p[1])
                elif ins[0]['m'] and ins[0]['ref']:
                    recv = Ref(self.alloc(st, rv, True))
                sub = {}
                for a, b in zip([g['n'] for g in d.node['sig']['g']['p']], targs or []):
                    sub[a] = b
                sty = None
                if isinstance(rv, (Struct, Enum)):
                    f = self.prog_def(rv.name)
                    sty = ('path', rv.name, (), f) if f is not None else None
                return self.call(d, [recv] + list(args), sty, sub, st, n)
        f = self.M.get(name)
        if f is not None:
            nn = n if isinstance(n, dict) else {}
            r = f(self, st, rv, p, args, nn, hint if not targs else ('turbo', targs))
            if r is not NotImplemented:
                return r
        return self.unknown_method(name, rv, p, args, st, n)

    def prog_def(self, path):
        m, _, nme = path.rpartition('::')
        md = self.prog.mods.get(m)
        return md.items.get(('t', nme)) if md else None

    def unknown_method(self, name, rv, p, args, st, n):
        self.unknown.add(('.' + name, self.where(n)))
        da = [self.deref_deep(a, st) for a in args]
        rd = self.deref_deep(rv, st)
        t = Term('?.' + name, [rd] + da)
        for a in args:
            if isinstance(a, Ref):
                self.write(st, (a.loc, a.path), Term('?havoc.' + name, [rd] + da))
        if p is not None and p[0] in self.mutlocs:
            self.write(st, p, Term('?havoc.' + name, [rd] + da))
        return t

    # ------------------------------------------------------------ blocks and statements
    def block(self, stmts, up, st, hint=None):
        sc = Scope(up)
        fr = self.frames[-1]
        nitems = len(fr.items)
        mod0 = fr.mod
        if any(s['k'] == 'item' and s['i']['k'] in ('use', 'struct', 'enum', 'type') for s in stmts):
            fr.mod = self.block_mod(stmts, fr.mod)
        # items are visible in the whole block
        for s in stmts:
            if s['k'] == 'item' and s['i']['k'] in ('const', 'static', 'fn'):
                fr.items = fr.items + [s['i']]
        v = UNIT
        try:
            for i, s in enumerate(stmts):
                k = s['k']
                last = i == len(stmts) - 1
                v = UNIT
                if k == 'let':
                    if not enabled(s.get('at'), self.prog.feats):
                        continue
                    sc = self.let(s, sc, st)
                elif k == 'expr':
                    e = s['e']
                    if not enabled(e.get('at'), self.prog.feats):
                        continue
                    isval = last and not s['semi']
                    x = self.ev(e, sc, st, hint if isval else None)
                    # a trailing expression followed only by disabled statements is the value
                    if not s['semi'] and (last or all(self._skipped(t) for t in stmts[i + 1:])):
                        v = x
                        if not last:
                            return v
                elif k == 'item':
                    if s['i']['k'] == 'use':
                        pass
        finally:
            fr.items = fr.items[:nitems]
            fr.mod = mod0
        return v

    def block_mod(self, stmts, m):
        """the enclosing module extended by the imports and types of a block"""
        key = (id(stmts), m.path)
        c = self.blockmods.get(key)
        if c is None:
            c = Mod(m.path + '::{%d}' % len(self.blockmods), m.file, m.parent, m.crate)
            self.prog._fill(c, [s['i'] for s in stmts if s['k'] == 'item' and s['i']['k'] in ('use', 'struct', 'enum', 'type')], None)
            for k, v in m.items.items():
                c.items.setdefault(k, v)
            c.uses = c.uses + m.uses
            c.globs = c.globs + m.globs
            self.blockmods[key] = c
        return c

    def _skipped(self, s):
        if s['k'] == 'expr':
            return not enabled(s['e'].get('at'), self.prog.feats)
        if s['k'] == 'let':
            return not enabled(s.get('at'), self.prog.feats)
        return True

    def let(self, s, sc, st):
        ty = self.rty(s['p']['t']) if s['p']['k'] == 'typed' else None
        nsc = Scope(sc)
        if s['e'] is None:
            p = s['p']['p'] if s['p']['k'] == 'typed' else s['p']
            if p['k'] == 'id':
                self.nloc += 1
                nsc.m[p['n']] = self.nloc
                self.mutlocs.add(self.nloc)
            return nsc
        v = self.ev(s['e'], sc, st, ty)
        if s['p']['k'] == 'id' and not s['p']['r'] and s['p']['sub'] is None:
            nsc.m[s['p']['n']] = self.alloc(st, self.coerce(v, ty), s['p']['m'])
            return nsc
        if s['p']['k'] == 'typed' and s['p']['p']['k'] == 'id' and s['p']['p']['sub'] is None and not s['p']['p']['r']:
            l = self.alloc(st, self.coerce(v, ty), s['p']['p']['m'])
            self.ltypes[l] = ty
            nsc.m[s['p']['p']['n']] = l
            return nsc
        c, b = self.pmatch(s['p'], v, st, None)
        if s.get('else') is not None and bdd.and_(st.pc, bdd.neg(c)) != 0:
            def ok(s1):
                return UNIT

            def els(s2):
                self.ev(s['else'], sc, s2, None)
                raise Dead()
            self.branch(st, c, ok, els)
        for n, (x, mut) in b.items():
            nsc.m[n] = self.alloc(st, x, mut)
        return nsc

    # ------------------------------------------------------------ expressions
    def ev(self, n, sc, st, hint=None):
        self.steps += 1
        if self.steps > STEP_LIMIT:
            raise Undecided('analysis step limit')
        return getattr(self, 'ev_' + n['k'])(n, sc, st, hint)

    def ev_other(self, n, sc, st, hint):
        raise Undecided('unsupported expression %s' % n.get('s', '')[:60])

    def ev_lit(self, n, sc, st, hint):
        v = self.lit(n['v'])
        if isinstance(v, Int) and v.ty is None and hint is not None and hint[0] == 'path' and hint[1] in WIDTH:
            return Int(hint[1], v=v.v)
        return v

    def ev_tuple(self, n, sc, st, hint):
        hs = hint[1] if hint is not None and hint[0] == 'tuple' and len(hint[1]) == len(n['e']) else [None] * len(n['e'])
        return Tup([self.ev(e, sc, st, h) for e, h in zip(n['e'], hs)])

    def elem_hint(self, hint):
        if hint is None:
            return None
        if hint[0] == 'ref':
            return self.elem_hint(hint[2])
        if hint[0] in ('slice', 'array'):
            return hint[1]
        if hint[0] == 'path' and hint[1] in ('Vec', 'Box') and hint[2]:
            return hint[2][0] if hint[1] == 'Vec' else self.elem_hint(hint[2][0])
        return None

    def ev_array(self, n, sc, st, hint):
        h = self.elem_hint(hint)
        return Seq([self.ev(e, sc, st, h) for e in n['e']], 'array')

    def ev_repeat(self, n, sc, st, hint):
        h = self.elem_hint(hint)
        v = self.ev(n['e'], sc, st, h)
        k = self.ev(n['n'], sc, st, None)
        return self.repeat(v, k, st, 'array')

    def repeat(self, v, k, st, kind):
        if isinstance(k, Gated):
            return merge_many([(g, self.repeat(v, x, st, kind)) for x, g in k.g])
        if not isinstance(k, Int) or k.v is None:
            raise Undecided('repetition of unknown length')
        if k.v > 200000:
            raise Undecided('very long repetition')
        return Seq([v] * k.v, kind)

    def ev_block(self, n, sc, st, hint):
        if n.get('lab'):
            fr = self.frames[-1]
            lp = Loop(n['lab'])
            fr.loops.append(lp)
            try:
                s = State(st.heap, st.pc)
                alts = []
                try:
                    v = self.block(n['b'], sc, s, hint)
                    alts.append((s.pc, s.heap, v))
                except Dead:
                    pass
            finally:
                fr.loops.pop()
            return self.join(st, lp.breaks + alts)
        return self.block(n['b'], sc, st, hint)

    def ev_path_dispatch(self, *a):
        return self.ev_path(*a)

    def is_place(self, n):
        k = n['k']
        if k == 'path':
            return len(n['p']['s']) == 1
        if k in ('field', 'index'):
            return True
        if k == 'un' and n['op'] == '*':
            return True
        return False

    def place(self, n, sc, st):
        """place denoted by an expression (temporary for an rvalue)"""
        k = n['k']
        if k == 'path' and len(n['p']['s']) == 1 and not n['p'].get('q'):
            loc = sc.get(n['p']['s'][0]['n'])
            if loc is not None:
                return (loc, ())
            loc = self.static_loc([n['p']['s'][0]['n']])
            if loc is not None:
                return (loc, ())
        elif k == 'path' and not n['p'].get('q'):
            loc = self.static_loc([x['n'] for x in n['p']['s']])
            if loc is not None:
                return (loc, ())
        elif k == 'field':
            p = self.autoderef(self.place(n['e'], sc, st), st)
            return (p[0], p[1] + (('f', n['n'].strip()),))
        elif k == 'index':
            p = self.autoderef(self.place(n['e'], sc, st), st)
            i = self.deref(self.ev(n['i'], sc, st, ('path', 'usize', (), ())), st)
            return self.index_place(p, i, st, n)
        elif k == 'un' and n['op'] == '*':
            p = self.place(n['e'], sc, st)
            v = self.read(st, p)
            if isinstance(v, Ref):
                return (v.loc, v.path)
            return p
        v = self.ev(n, sc, st)
        if isinstance(v, Ref):
            return (self.alloc(st, v), ())
        return (self.alloc(st, v, True), ())

    def index_place(self, p, i, st, n):
        v = self.read(st, p)
        if isinstance(i, Opq) and i.cls == 'range':
            L = self.vlen(v)
            a, b = self.range_bounds(i, L, st, n)
            return (p[0], p[1] + (('s', a, b),))
        if isinstance(i, Int) and i.v is not None:
            L = self.vlen(v)
            if isinstance(L, int) and i.v >= L:
                self.panic(st, 1, 'index %d out of range for length %d' % (i.v, L), n)
            return (p[0], p[1] + (('i', i.v),))
        if isinstance(v, Opq) or isinstance(i, Gated) or isinstance(i, Int):
            raise Undecided('index %s' % show(i)[:60])
        raise Undecided('index by %s' % show(i)[:60])

    def vlen(self, v):
        if isinstance(v, Seq):
            return v.length()
        return None

    def range_bounds(self, r, L, st, n):
        """(a, b) of a slice range; b None means the end of unknown length"""
        lo, hi = r.f['lo'], r.f['hi']
        a = 0 if lo is None else lo.v if isinstance(lo, Int) else None
        if a is None:
            raise Undecided('slice with unknown start')
        if hi is None:
            b = L if isinstance(L, int) else None
        else:
            if isinstance(hi, Int) and hi.v is not None:
                b = hi.v + (1 if r.f['incl'] else 0)
            elif isinstance(hi, Int) and not isinstance(L, int) and L is not None and hi.lin is not None and hi.lin == L and not r.f['incl']:
                b = None
            else:
                raise Undecided('slice with unknown end')
        if isinstance(L, int):
            if b is not None and (b > L or a > b):
                self.panic(st, 1, 'slice %d..%s out of range for length %d' % (a, b, L), n)
        elif L is not None and b is not None:
            # unknown length: the slice panics if the data is too short
            if a > b:
                self.panic(st, 1, 'slice %d..%s' % (a, b), n)
            self.panic(st, bdd.neg(self.int_le0(Poly.const(b).add(L, -1))), 'slice end %d beyond length' % b, n)
        elif L is not None and a > 0:
            self.panic(st, bdd.neg(self.int_le0(Poly.const(a).add(L, -1))), 'slice start %d beyond length' % a, n)
        return a, b

    def autoderef(self, p, st):
        k = 0
        v = self.read(st, p)
        while isinstance(v, Ref):
            p = (v.loc, v.path)
            v = self.read(st, p)
            k += 1
            if k > 20:
                raise Undecided('reference cycle')
        return p

    def getfield(self, v, name, st=None):
        if isinstance(v, Ref):
            v = self.deref(v, st)
        if isinstance(v, Gated):
            return merge_many([(g, self.getfield(x, name, st)) for x, g in v.g])
        if isinstance(v, Struct):
            if name in v.f:
                return v.f[name]
            h = self.M.get('field:' + name) if v.name in CIRCUIT else None
            r = h(self, st, v, name) if h else None
            if r is not None:
                return r
            raise Undecided('no field %s in %s' % (name, v.name))
        if isinstance(v, Tup) and name.isdigit():
            return v.e[int(name)]
        h = self.M.get('field:' + name) or self.M.get('field')
        if h is not None:
            r = h(self, st, v, name)
            if r is not None:
                return r
        if isinstance(v, (Alg, Seq, Int, Bool)) and name == '0':
            return v
        if isinstance(v, Opq) and name in v.f:
            return v.f[name]
        if isinstance(v, Term) or isinstance(v, Opq):
            return Term('field', (v, name))
        raise Undecided('field %s of %s' % (name, show(v)[:60]))

    def ev_field(self, n, sc, st, hint):
        if self.is_place(n['e']):
            p = self.autoderef(self.place(n['e'], sc, st), st)
            return self.getfield(self.read(st, p), n['n'].strip(), st)
        return self.getfield(self.ev(n['e'], sc, st), n['n'].strip(), st)

    def ev_index(self, n, sc, st, hint):
        if self.is_place(n['e']):
            p = self.autoderef(self.place(n['e'], sc, st), st)
            v = self.read(st, p)
        else:
            v = self.deref(self.ev(n['e'], sc, st), st)
        i = self.deref(self.ev(n['i'], sc, st, ('path', 'usize', (), ())), st)
        return self.index(v, i, st, n)

    def index(self, v, i, st, n):
        if isinstance(v, Gated) or isinstance(i, Gated):
            alts = []
            for x, gx in leaves(v):
                for y, gy in leaves(i):
                    g = bdd.and_(gx, gy)
                    if g != 0:
                        alts.append((g, lambda s, x=x, y=y: self.index(x, y, s, n)))
            return self.fork(st, alts)
        if isinstance(v, Seq):
            if isinstance(i, Opq) and i.cls == 'range':
                a, b = self.range_bounds(i, v.length(), st, n)
                return v.slice(a, b)
            if isinstance(i, Int):
                if i.v is None:
                    return self.index_sym(v, i, st, n)
                L = v.length()
                if isinstance(L, int):
                    if i.v >= L or i.v < 0:
                        self.panic(st, 1, 'index %d out of range for length %d' % (i.v, L), n)
                else:
                    self.panic(st, bdd.neg(self.int_le0(Poly.const(i.v + 1).add(L, -1))), 'index %d beyond length' % i.v, n)
                return self.proj(v, ('i', i.v), st)
        f = self.M.get('index')
        if f is not None:
            r = f(self, st, v, None, [i], n, None)
            if r is not NotImplemented:
                return r
        if isinstance(v, Term):
            return Term('index', (v, i))
        raise Undecided('index %s of %s' % (show(i)[:40], show(v)[:60]))

    def index_sym(self, v, i, st, n):
        L = v.length()
        bits = i.tobits() if i.bits is not None else None
        if bits is not None and isinstance(L, int):
            top = max([k for k, x in enumerate(bits) if x != 0] or [0])
            if top < 10:
                alts = []
                for k in range(1 << (top + 1)):
                    g = bdd.and_(*[x if (k >> j) & 1 else bdd.neg(x) for j, x in enumerate(bits[:top + 1])])
                    if g != 0:
                        alts.append((g, lambda s, k=k: self.index(v, Int('usize', v=k), s, n)))
                return self.fork(st, alts)
        # symbolic length minus constant: data[len - 1]
        if i.lin is not None and not isinstance(L, int) and len(v.e) == 1 and isinstance(v.e[0], Seg):
            s = v.e[0]
            return seg_byte(s.t, ('at', i.lin))
        raise Undecided('symbolic index %s' % show(i)[:60])

    def ev_un(self, n, sc, st, hint):
        op = n['op']
        if op == '*':
            v = self.ev(n['e'], sc, st, hint)
            if isinstance(v, Ref):
                return self.read(st, (v.loc, v.path))
            if isinstance(v, Opq):
                f = self.M.get('deref')
                r = f(self, st, v, None, [], n, hint) if f else NotImplemented
                if r is not NotImplemented:
                    return self.deref(r, st) if not isinstance(r, Ref) else self.read(st, (r.loc, r.path))
            return v
        v = self.deref(self.ev(n['e'], sc, st, hint), st)
        return self.unop(op, v, st, n)

    def unop(self, op, v, st, n):
        if isinstance(v, Gated):
            return lift(lambda x: self.unop(op, x, st, n), v)
        if op == '!':
            if isinstance(v, Bool):
                return mkbool(bdd.neg(v.b))
            if isinstance(v, Int):
                if v.ty is None:
                    v = self.retype(v, 'i32') if v.v is not None else v
                w = WIDTH.get(v.ty, 64)
                return Int(v.ty, bits=[bdd.neg(b) for b in v.tobits(w)])
        if op == '-':
            if isinstance(v, Struct) and v.name in CIRCUIT:
                return self.M['un-'](self, st, v, None, [], n, None)
            if isinstance(v, Int):
                return Int(v.ty, v=-v.v) if v.v is not None else Int(v.ty, lin=v.aslin().scale(-1))
            w = unwrap_nt(v, None)
            if isinstance(w, Alg):
                return Alg(w.p.scale(-1), w.kind)
        if isinstance(v, Struct):
            ms = self.prog.method(v.name, {'-': 'neg', '!': 'not'}[op])
            if ms:
                return self.call(ms[0][1], [v], None, None, st, n)
        return Term('?un' + op, (v,))

    def ev_bin(self, n, sc, st, hint):
        op = n['op']
        if op in ('&&', '||'):
            a = self.truth(self.ev(n['a'], sc, st), st)
            if op == '&&':
                r = self.branch(st, a, lambda s: mkbool(self.truth(self.ev(n['b'], sc, s), s)), lambda s: FALSE)
            else:
                r = self.branch(st, a, lambda s: TRUE, lambda s: mkbool(self.truth(self.ev(n['b'], sc, s), s)))
            return r
        if len(op) >= 2 and op[-1] == '=' and op not in ('==', '!=', '<=', '>='):
            return self.op_assign(n, op[:-1], sc, st)
        cmpop = op in ('==', '!=', '<', '>', '<=', '>=')
        a = self.ev(n['a'], sc, st, None if cmpop else hint)
        hb = None
        if op not in ('<<', '>>'):
            ad = self.deref(a, st)
            if isinstance(ad, Int) and ad.ty in WIDTH:
                hb = ('path', ad.ty, (), ())
        b = self.ev(n['b'], sc, st, hb)
        return self.binop(op, a, b, st, n)

    def op_assign(self, n, op, sc, st):
        b = self.ev(n['b'], sc, st)
        if n['a']['k'] == 'index':
            return self.assign_index(n['a'], sc, st, lambda s, old: self.binop(op, old, b, s, n))
        p = self.autoderef(self.place(n['a'], sc, st), st)
        old = self.read(st, p)
        if isinstance(old, Struct):
            ms = self.prog.method(old.name, BINOPS[op] + '_assign')
            if ms:
                self.call(ms[0][1], [Ref(p[0], p[1]), b], None, None, st, n)
                return UNIT
        self.write(st, p, self.binop(op, old, b, st, n))
        return UNIT

    def assign_index(self, a, sc, st, f):
        p = self.autoderef(self.place(a['e'], sc, st), st)
        i = self.deref(self.ev(a['i'], sc, st, ('path', 'usize', (), ())), st)
        if isinstance(i, Gated):
            def one(s, x):
                q = self.index_place(p, x, s, a)
                self.write(s, q, f(s, self.read(s, q)))
                return UNIT
            return self.fork(st, [(g, lambda s, x=x: one(s, x)) for x, g in i.g])
        if isinstance(i, Int) and i.bits is not None:
            v = self.read(st, p)
            bits = i.tobits()
            top = max([k for k, x in enumerate(bits) if x != 0] or [0])
            if top >= 10:
                raise Undecided('symbolic index')

            def one(s, k):
                q = self.index_place(p, Int('usize', v=k), s, a)
                self.write(s, q, f(s, self.read(s, q)))
                return UNIT
            alts = []
            for k in range(1 << (top + 1)):
                g = bdd.and_(*[x if (k >> j) & 1 else bdd.neg(x) for j, x in enumerate(bits[:top + 1])])
                if g != 0:
                    alts.append((g, lambda s, k=k: one(s, k)))
            return self.fork(st, alts)
        q = self.index_place(p, i, st, a)
        qq = q
        v = self.read(st, q)
        if isinstance(v, Ref):
            qq = self.autoderef(q, st)
            v = self.read(st, qq)
        self.write(st, qq, f(st, v))
        return UNIT

    def ev_assign(self, n, sc, st, hint):
        a = n['a']
        if a['k'] == 'tuple' or a['k'] == 'array':
            v = self.deref(self.ev(n['b'], sc, st), st)
            es = v.e if isinstance(v, (Tup, Seq)) else None
            if es is None or len(es) != len(a['e']):
                raise Undecided('destructuring assignment')
            for x, y in zip(a['e'], es):
                if x['k'] == 'path' and x['p']['s'][0]['n'] == '_':
                    continue
                self.write(st, self.place(x, sc, st), y)
            return UNIT
        if a['k'] == 'other' and a.get('s') == '_' or (a['k'] == 'path' and a['p']['s'][0]['n'] == '_'):
            self.ev(n['b'], sc, st)
            return UNIT
        old = None
        if a['k'] == 'path':
            loc = sc.get(a['p']['s'][0]['n'])
            if loc is not None:
                old = st.heap.get(loc)
                v = self.ev(n['b'], sc, st, self.hint_of(old))
                if isinstance(v, Int) and v.ty is None and isinstance(old, Int) and old.ty:
                    v = self.retype(v, old.ty)
                st.heap[loc] = v
                return UNIT
        if a['k'] == 'index':
            v = self.ev(n['b'], sc, st)
            return self.assign_index(a, sc, st, lambda s, o: self.retype(v, o.ty) if isinstance(v, Int) and v.ty is None and isinstance(o, Int) and o.ty else v)
        v = self.ev(n['b'], sc, st)
        p = self.place(a, sc, st)
        f = self.M.get('assign_hook')
        try:
            o = self.read(st, p)
            if isinstance(v, Int) and v.ty is None and isinstance(o, Int) and o.ty:
                v = self.retype(v, o.ty)
        except (Undecided, KeyError):
            pass
        if f is not None:
            f(self, st, p, v, n)
        self.write(st, p, v)
        return UNIT

    def hint_of(self, v):
        if isinstance(v, Int) and v.ty in WIDTH:
            return ('path', v.ty, (), ())
        return None

    def ev_ref(self, n, sc, st, hint):
        h = hint[2] if hint is not None and hint[0] in ('ref', 'ptr') else None
        if n['m']:
            e = n['e']
            if e['k'] in ('path', 'field', 'index', 'un') and self.is_place(e):
                p = self.place(e, sc, st)
                v = self.read(st, p)
                if isinstance(v, Ref) and e['k'] != 'un' and e['k'] != 'path':
                    return v
                return Ref(p[0], p[1])
            v = self.ev(e, sc, st, h)
            if isinstance(v, Ref):
                return v
            return Ref(self.alloc(st, v, True))
        return self.ev(n['e'], sc, st, h)

    def ev_cast(self, n, sc, st, hint):
        ty = self.rty(n['t'])
        v = self.ev(n['e'], sc, st, None)
        return self.cast(v, ty, st, n)

    def cast(self, v, ty, st, n):
        if ty[0] in ('ptr', 'ref', 'infer') or ty[0] not in ('path',):
            return v
        v = self.deref(v, st)
        if isinstance(v, Gated):
            return lift(lambda x: self.cast(x, ty, st, n), v)
        t = ty[1]
        if t in ('f64', 'f32'):
            if isinstance(v, Int) and v.v is not None:
                return Opq('f64', v=float(v.v))
            if isinstance(v, Opq) and v.cls == 'f64':
                return v
            raise Undecided('float of an unknown integer')
        if t in WIDTH:
            w = WIDTH[t]
            if isinstance(v, Opq) and v.cls == 'f64':
                x = v.f['v']
                lo, hi = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if t in SIGNED else (0, (1 << w) - 1)
                return Int(t, v=0 if x != x else hi if x >= hi else lo if x <= lo else int(x))
            if isinstance(v, Bool):
                return Int(t, bits=(v.b,) + (0,) * (w - 1))
            if isinstance(v, Int):
                if v.v is not None:
                    x = v.v & ((1 << w) - 1)
                    if t in SIGNED and x >> (w - 1):
                        x -= 1 << w
                    return Int(t, v=x)
                sw = v.width() or (len(v.bits) if v.bits else 64)
                if v.lin is not None and w >= sw:
                    return Int(t, lin=v.lin)
                if v.lin is not None:
                    a = v.lin.single_atom()
                    if a is not None and SYMW.get(a, 999) <= w:
                        return Int(t, lin=v.lin)
                bb = v.tobits(sw)
                s = bb[-1] if v.ty in SIGNED else 0
                return Int(t, bits=(bb + (s,) * w)[:w])
            if isinstance(v, Enum):
                d = self.prog_def(v.name)
                if d is not None and d.kind == 'enum':
                    k = -1
                    for x in d.node['vs']:
                        k = int(x['d']['v']['v']) if x['d'] is not None and x['d']['k'] == 'lit' else k + 1
                        if x['n'] == v.var:
                            return Int(t, v=k)
            if isinstance(v, Term):
                return Term('cast', (v, t))
        return v

    def ev_range(self, n, sc, st, hint):
        lo = self.deref(self.ev(n['lo'], sc, st), st) if n['lo'] is not None else None
        hi = self.deref(self.ev(n['hi'], sc, st, self.hint_of(lo)), st) if n['hi'] is not None else None
        if isinstance(lo, Int) and isinstance(hi, Int):
            lo, hi, _ = self.unify(lo, hi)
        if isinstance(lo, Gated) or isinstance(hi, Gated):
            alts = []
            for x, gx in leaves(lo) if lo is not None else ((None, 1),):
                for y, gy in leaves(hi) if hi is not None else ((None, 1),):
                    g = bdd.and_(gx, gy)
                    if g != 0:
                        alts.append((g, Opq('range', lo=x, hi=y, incl=n['incl'])))
            return merge_many(alts)
        return Opq('range', lo=lo, hi=hi, incl=n['incl'])

    def ev_struct(self, n, sc, st, hint):
        fr = self.frames[-1]
        segs = n['p']['s']
        names = [s['n'] for s in segs]
        d = None
        if names == ['Self'] and fr.self_ty is not None and fr.self_ty[0] == 'path' and isinstance(fr.self_ty[3], D):
            d = fr.self_ty[3]
        else:
            d = self.prog.resolve_path(tuple(names), fr.mod, 't')
            if isinstance(d, D) and d.kind == 'type':
                t = self.rpath(n['p'], fr)
                d = t[3] if t[0] == 'path' and isinstance(t[3], D) else d
            if names[0] == 'Self' and len(names) == 2:
                d = self.rvalue_path(names)
        ftys = {}
        if isinstance(d, D) and d.kind == 'struct':
            f2 = Frame(d, d.mod, {g['n']: ('param', g['n']) for g in d.node['g']['p']}, None, 1)
            ftys = {f['n']: self.rty(f['t'], f2) for f in d.node['f']['f']}
        vals = {}
        for f, e in n['f']:
            f = f.strip()
            vals[f] = self.coerce(self.ev(e, sc, st, ftys.get(f)), ftys.get(f))
        if n['rest'] is not None:
            base = self.deref(self.ev(n['rest'], sc, st), st)
            for f in ftys:
                if f not in vals:
                    vals[f] = self.getfield(base, f, st)
        if isinstance(d, D) and d.kind == 'struct':
            return Struct(d.path, vals)
        if isinstance(d, tuple) and d[0] == 'variant':
            return Enum(d[1].path, d[2], (Struct('#' + d[2], vals),))
        f = self.F.get('struct ' + names[-1])
        if f is not None:
            return f(self, st, vals, n)
        return Struct('ext::' + names[-1], vals)

    def ev_closure(self, n, sc, st, hint):
        return Clo(n, sc.flat(), self.frames[-1])

    def ev_return(self, n, sc, st, hint):
        fr = self.frames[-1]
        v = self.ev(n['e'], sc, st, fr.ret_ty) if n['e'] is not None else UNIT
        fr.rets.append((st.pc, st.heap, self.coerce(v, fr.ret_ty)))
        st.pc = 0
        raise Dead()

    def ev_try(self, n, sc, st, hint):
        h = ('path', 'Result', (hint,), ()) if hint is not None else ('path', 'Result', (), ())
        v = self.deref(self.ev(n['e'], sc, st, h), st)
        return self.do_try(v, st, n)

    def do_try(self, v, st, n):
        fr = self.frames[-1]
        oks, errs = [], []
        for x, g in leaves(v):
            if isinstance(x, Enum) and x.var in ('Ok', 'Some'):
                oks.append((g, x.e[0]))
            elif isinstance(x, Enum) and x.var in ('Err', 'None'):
                errs.append((g, x))
            elif isinstance(x, Term):
                a = bdd.atom(('ok', x))
                oks.append((bdd.and_(g, a), Term('unwrap', (x,))))
                errs.append((bdd.and_(g, bdd.neg(a)), Err(Term('err', (x,)))))
            elif isinstance(x, Opq) and x.cls == 'try':
                pass
            else:
                raise Undecided('? on %s' % show(x)[:60])
        for g, x in errs:
            pc = bdd.and_(st.pc, g)
            if pc != 0:
                s2 = State(dict(st.heap), pc)
                if x.var == 'Err':
                    x = Err(self.convert_err(x.e[0], fr.ret_ty, s2, n))
                fr.rets.append((pc, s2.heap, x))
        g = bdd.or_(*[g for g, _ in oks]) if oks else 0
        st.pc = bdd.and_(st.pc, g)
        if st.pc == 0:
            raise Dead()
        return merge_many(oks)

    def convert_err(self, e, ret_ty, st, n):
        """From conversion applied by `?` (thiserror #[from] / user From impls)"""
        t = None
        if ret_ty is not None and ret_ty[0] == 'path' and ret_ty[1] == 'Result' and len(ret_ty[2]) > 1:
            t = ret_ty[2][1]
        if t is None or t[0] != 'path' or not isinstance(t[3], D):
            return e
        if isinstance(e, (Enum, Struct)) and e.name == t[1]:
            return e
        return self.from_conv(e, t, st, n)

    def from_conv(self, v, t, st, n):
        """user or derived `From` conversion of v into repository type t"""
        d = t[3] if t is not None and t[0] == 'path' and isinstance(t[3], D) else None
        if isinstance(v, Gated) and d is not None:
            return self.fork(st, [(g, lambda s, x=x: self.from_conv(x, t, s, n)) for x, g in v.g])
        if isinstance(v, (Struct, Enum)) and d is not None and v.name == d.path:
            return v
        c = []
        if d is not None:
            for im, fd in self.prog.by_method.get('from', []):
                if im.head == d.path:
                    c.append((im, fd))
            best = [x for x in c if self.ty_matches(v, x[1].node['sig']['in'][0]['t'], x[0])]
            if len(best) >= 1:
                return self.call(best[0][1], [v], t, None, st, n)
            if d.kind == 'enum':
                for vr in d.node['vs']:
                    for f in vr['f']['f']:
                        if any('from' in a for a in f.get('at') or []) and self.ty_matches(v, f['t'], None, d.mod):
                            return Enum(d.path, vr['n'], (v,))
                return Term('converted', (v, d.path))
        return v

    def ty_matches(self, v, tn, im, mod=None):
        m = im.mod if im is not None else mod
        h = self.prog.head_of(tn, m, im.gen if im is not None else [])
        if isinstance(v, Term):
            return False
        hs = self.value_head(v)
        if h in hs:
            return True
        if isinstance(v, Alg):
            return h in ('Fr', 'Fq', 'G1Projective', 'G2Projective', 'G1Affine', 'G2Affine', 'FpVar') and (v.kind is None or h in self.KINDHEADS.get(v.kind, ()))
        if isinstance(v, Seq):
            return h in ('slice', 'Vec', 'String')
        return False

    # ---- control flow
    def cond(self, n, sc, st):
        """condition with bindings: (diagram, scope)"""
        if n['k'] == 'letc':
            e = n['e']
            if self.is_place(e):
                p = self.place(e, sc, st)
                v = self.read(st, p)
                c, b = self.pmatch(n['p'], v, st, (p[0], p[1], False))
            else:
                v = self.ev(e, sc, st)
                c, b = self.pmatch(n['p'], v, st, None)
            ns = Scope(sc)
            for nme, (x, mut) in b.items():
                ns.m[nme] = self.alloc(st, x, mut)
            return c, ns
        if n['k'] == 'bin' and n['op'] == '&&' and self.has_let(n):
            c1, s1 = self.cond(n['a'], sc, st)
            box = {}

            def yes(s):
                c2, s2 = self.cond(n['b'], s1, s)
                box['s'] = s2
                return mkbool(c2)
            r = self.branch(st, c1, yes, lambda s: FALSE)
            return self.truth(r), box.get('s', s1)
        v = self.ev(n, sc, st, ('path', 'bool', (), ()))
        return self.truth(v, st), sc

    def has_let(self, n):
        return n['k'] == 'letc' or (n['k'] == 'bin' and n['op'] == '&&' and (self.has_let(n['a']) or self.has_let(n['b'])))

    def ev_letc(self, n, sc, st, hint):
        return mkbool(self.cond(n, sc, st)[0])

    def ev_if(self, n, sc, st, hint):
        c, s1 = self.cond(n['c'], sc, st)
        return self.branch(st, c, lambda s: self.block(n['t'], s1, s, hint),
                           lambda s: self.ev(n['e'], sc, s, hint) if n['e'] is not None else UNIT)

    def ev_match(self, n, sc, st, hint):
        e = n['e']
        if self.is_place(e):
            p0 = self.place(e, sc, st)
            v = self.read(st, p0)
            place = (p0[0], p0[1], False)
        else:
            v = self.ev(e, sc, st)
            place = None
        arms = [a for a in n['arms'] if enabled(a.get('at'), self.prog.feats)]

        def go(i, s):
            if i == len(arms):
                raise Dead()        # non-exhaustive leftovers are infeasible
            a = arms[i]
            c, b = self.pmatch(a['p'], v, s, place)
            ns = Scope(sc)
            if bdd.and_(s.pc, c) != 0:
                for nme, (x, mut) in b.items():
                    ns.m[nme] = self.alloc(s, x, mut)
                if a['g'] is not None:
                    box = {}

                    def guard(s2):
                        gc, gs = self.cond(a['g'], ns, s2)
                        box['s'] = gs
                        return mkbool(gc)
                    g = self.branch(s, c, guard, lambda s2: FALSE)
                    c = self.truth(g)
                    ns = box.get('s', ns)
            return self.branch(s, c, lambda s2: self.ev(a['b'], ns, s2, hint), lambda s2: go(i + 1, s2))
        return go(0, st)

    def loop_exit(self, fr, label):
        for lp in reversed(fr.loops):
            if label is None or lp.label == label:
                if label is None and lp.label is not None and lp.label.startswith('block:'):
                    continue
                return lp
        raise Undecided('break outside a loop')

    def ev_break(self, n, sc, st, hint):
        v = self.ev(n['e'], sc, st) if n['e'] is not None else UNIT
        self.loop_exit(self.frames[-1], n['lab']).breaks.append((st.pc, st.heap, v))
        st.pc = 0
        raise Dead()

    def ev_continue(self, n, sc, st, hint):
        self.loop_exit(self.frames[-1], n['lab']).conts.append((st.pc, st.heap, UNIT))
        st.pc = 0
        raise Dead()

    def run_body(self, body, sc, st, lp):
        """one iteration; st becomes the state after it (or Dead)"""
        lp.conts = []
        alts = []
        s = State(st.heap, st.pc)
        try:
            self.block(body, sc, s)
            alts.append((s.pc, s.heap, UNIT))
        except Dead:
            pass
        self.join(st, lp.conts + alts)

    def ev_while(self, n, sc, st, hint):
        fr = self.frames[-1]
        lp = Loop(n['lab'])
        fr.loops.append(lp)
        try:
            k = 0
            try:
                while True:
                    k += 1
                    if k > LOOP_LIMIT:
                        raise Undecided('loop bound')
                    c, s1 = self.cond(n['c'], sc, st)
                    ex = bdd.and_(st.pc, bdd.neg(c))
                    if ex != 0:
                        lp.breaks.append((ex, dict(st.heap), UNIT))
                    st.pc = bdd.and_(st.pc, c)
                    if st.pc == 0:
                        break
                    self.run_body(n['b'], s1, st, lp)
            except Dead:
                pass
        finally:
            fr.loops.remove(lp)
        return self.join(st, lp.breaks)

    def ev_loop(self, n, sc, st, hint):
        fr = self.frames[-1]
        lp = Loop(n['lab'])
        fr.loops.append(lp)
        try:
            k = 0
            try:
                while st.pc != 0:
                    k += 1
                    if k > LOOP_LIMIT:
                        raise Undecided('loop bound')
                    self.run_body(n['b'], sc, st, lp)
            except Dead:
                pass
        finally:
            fr.loops.remove(lp)
        return self.join(st, lp.breaks)

    def ev_for(self, n, sc, st, hint):
        v = self.ev(n['e'], sc, st)
        it = self.to_iter(v, st, n)
        if isinstance(it, Gated):
            self.fork(st, [(g, lambda s, x=x: self.for_over(n, x, sc, s)) for x, g in it.g])
            return UNIT
        return self.for_over(n, it, sc, st)

    def for_over(self, n, it, sc, st):
        fr = self.frames[-1]
        lp = Loop(n['lab'])
        fr.loops.append(lp)
        try:
            k = 0
            try:
                while True:
                    k += 1
                    if k > LOOP_LIMIT * 40:
                        raise Undecided('loop bound')
                    r = self.it_next(it, st, n)
                    if r is None:
                        lp.breaks.append((st.pc, st.heap, UNIT))
                        break
                    g, item, it = r

                    def body(s):
                        ns = Scope(sc)
                        self.bind(n['p'], item, ns, s)
                        self.run_body(n['b'], ns, s, lp)
                        return UNIT
                    if bdd.and_(st.pc, g) == 0:
                        continue
                    self.branch(st, g, body, lambda s: UNIT)
            except Dead:
                pass
        finally:
            fr.loops.remove(lp)
        self.join(st, lp.breaks)
        return UNIT

    # ---- iterators are provided by stdlib
    def to_iter(self, v, st, n=None):
        return self.M['#to_iter'](self, v, st, n)

    def it_next(self, it, st, n=None):
        return self.M['#it_next'](self, it, st, n)

    # ---- calls
    def arg_hints(self, f):
        if isinstance(f, FnV) and f.d[0] == 'def':
            fd = f.d[1]
            fr = Frame(fd, fd.mod, {g['n']: INFER for g in fd.node['sig']['g']['p']}, (f.info or {}).get('self_ty'), 1)
            if fd.impl is not None:
                for g in fd.impl.gen:
                    fr.subst.setdefault(g, INFER)
            return [self.rty(i['t'], fr) if 't' in i else None for i in fd.node['sig']['in']]
        if isinstance(f, FnV) and f.d[0] == 'ctor':
            d = f.d[1]
            fr = Frame(d, d.mod, {g['n']: INFER for g in d.node['g']['p']}, None, 1)
            return [self.rty(x['t'], fr) for x in d.node['f']['f']]
        return None

    def ev_call(self, n, sc, st, hint):
        self.sites += 1
        f = self.ev(n['f'], sc, st)
        hs = None
        if isinstance(f, FnV):
            if f.d[0] == 'evar' and hint is not None and hint[0] == 'path' and hint[2]:
                h = hint[2][1] if f.d[1] == 'Err' and len(hint[2]) > 1 else hint[2][0] if f.d[1] != 'Err' else None
                hs = [h]
            else:
                hs = self.arg_hints(f)
        args = []
        for i, a in enumerate(n['a']):
            h = hs[i] if hs is not None and i < len(hs) else None
            args.append(self.ev(a, sc, st, h))
        if isinstance(f, FnV) and f.d[0] == 'def' and not (f.info or {}).get('targs'):
            t = self.infer_targs(f.d[1], n['a'], sc, hint)
            if t:
                f = FnV(f.d, dict(f.info or {}, targs=t))
        return self.call_value(f, args, st, n, hint)

    def static_type(self, e, sc):
        """declared type of a simple expression, if there is one"""
        if e['k'] == 'path' and len(e['p']['s']) == 1:
            l = sc.get(e['p']['s'][0]['n'])
            return self.ltypes.get(l) if l is not None else None
        if e['k'] == 'cast':
            return self.rty(e['t'])
        if e['k'] == 'ref':
            t = self.static_type(e['e'], sc)
            return ('ref', e['m'], t) if t is not None else None
        if e['k'] == 'paren':
            return self.static_type(e['e'], sc)
        return None

    def infer_targs(self, fd, nodes, sc, hint):
        ps = [g['n'] for g in fd.node['sig']['g']['p'] if 'const' not in g]
        ins = fd.node['sig']['in']
        if not ps or len(ins) != len(nodes):
            return None
        out = {}

        def match(t, ty):
            if t is None or ty is None or ty[0] in ('infer', 'param', 'assocty', 'other'):
                return
            if t['k'] in ('ref', 'ptr') and ty[0] in ('ref', 'ptr'):
                match(t['t'], ty[2])
            elif t['k'] == 'slice' and ty[0] == 'slice':
                match(t['t'], ty[1])
            elif t['k'] == 'path' and len(t['p']['s']) == 1 and t['p']['s'][0]['n'] in ps and not t['p'].get('q'):
                out.setdefault(t['p']['s'][0]['n'], ty)
            elif t['k'] == 'path' and ty[0] == 'path' and t['p']['s'][-1]['n'] == str(ty[1]).rpartition('::')[2]:
                al = [a for a in (t['p']['s'][-1]['a'] or []) if a['k'] not in ('lt', 'const', 'assoc', 'fnargs', 'other')]
                for a, b in zip(al, ty[2]):
                    match(a, b)
        for i, e in zip(ins, nodes):
            if i.get('t') is not None:
                match(i['t'], self.static_type(e, sc))
        if fd.node['sig']['out'] is not None and hint is not None:
            match(fd.node['sig']['out'], hint)
        if not out:
            return None
        return [out.get(p, ('param', p)) for p in ps]

    def ev_mcall(self, n, sc, st, hint):
        r = n['r']
        name = n['m']
        if self.is_place(r):
            p = self.place(r, sc, st)
            v = self.read(st, p)
            recv = v if isinstance(v, Ref) else Ref(p[0], p[1])
        else:
            h = None
            if name in ('unwrap', 'expect', 'unwrap_or', 'unwrap_or_else', 'unwrap_or_default') and hint is not None:
                h = ('path', 'Result', (hint,), ())
            elif name in ('map_err', 'ok_or', 'ok_or_else', 'or_else', 'clone', 'to_vec', 'to_owned', 'into_iter', 'iter', 'as_ref', 'as_slice') and hint is not None:
                h = hint
            recv = self.ev(r, sc, st, h)
            if not isinstance(recv, Ref):
                recv = Ref(self.alloc(st, recv, True))
        # argument hints from repository methods
        ah = None
        d = None
        try:
            d = self.find_user_method(self.deref(recv, st), name)
        except Undecided:
            pass
        if d is not None and len(d.node['sig']['in']) == len(n['a']) + 1:
            ah = self.arg_hints(FnV(('def', d)))[1:]
        elif name in ('push', 'insert', 'unwrap_or', 'fold', 'resize'):
            rv = self.deref(recv, st)
            eh = None
            if isinstance(rv, Seq) and rv.e and isinstance(rv.e[0], Int) and rv.e[0].ty:
                eh = ('path', rv.e[0].ty, (), ())
            ah = [eh] * len(n['a']) if name == 'push' else None
        args = [self.ev(a, sc, st, ah[i] if ah and i < len(ah) else None) for i, a in enumerate(n['a'])]
        targs = [self.rty(t) for t in n['t']] if n.get('t') else None
        return self.dispatch(name, recv, args, st, n, hint, targs)

    # ---- macros
    def ev_mac(self, n, sc, st, hint):
        name = n['n']
        if name in ('assert', 'debug_assert') and n.get('a'):
            c = self.truth(self.ev(n['a'][0], sc, st), st)
            self.panic(st, bdd.neg(c), 'assertion', n)
            return UNIT
        if name in ('assert_eq', 'assert_ne', 'debug_assert_eq', 'debug_assert_ne') and n.get('a'):
            a = self.ev(n['a'][0], sc, st)
            b = self.ev(n['a'][1], sc, st, self.hint_of(self.deref(a, st)))
            c = self.veq(a, b, st)
            self.panic(st, c if name.endswith('ne') else bdd.neg(c), name, n)
            return UNIT
        if name in ('panic', 'unreachable', 'todo', 'unimplemented'):
            self.panic(st, 1, name + '!', n)
        if name == 'vec':
            h = self.elem_hint(hint)
            if 'rep' in n:
                v = self.ev(n['rep'][0], sc, st, h)
                return self.repeat(v, self.deref(self.ev(n['rep'][1], sc, st, ('path', 'usize', (), ())), st), st, 'vec')
            return Seq([self.ev(a, sc, st, h) for a in n.get('a', [])], 'vec')
        if name == 'matches' and 'p' in n:
            v = self.ev(n['e'], sc, st)
            c, b = self.pmatch(n['p'], self.deref(v, st), st, None)
            if n['g'] is not None:
                ns = Scope(sc)
                for nme, (x, mut) in b.items():
                    ns.m[nme] = self.alloc(st, x, mut)
                g = self.branch(st, c, lambda s: mkbool(self.truth(self.ev(n['g'], ns, s), s)), lambda s: FALSE)
                return g
            return mkbool(c)
        f = self.F.get('macro ' + name)
        if f is not None:
            return f(self, st, n, sc, hint)
        return self.unknown_call('macro:' + name, [], st, n)


def unwrap_nt(v, other):
    """strip single-field wrapper structs around algebraic values"""
    k = 0
    while isinstance(v, Struct) and len(v.f) == 1 and not isinstance(other, Struct) and k < 4:
        v = next(iter(v.f.values()))
        k += 1
    return v
