"""Abstract values.  Every value is immutable and compared by a canonical key.

  Int     machine integer: constant, vector of bit diagrams, or linear symbol
  Bool    a diagram
  Seq     vector/slice/array/string: elements, possibly opaque byte segments
  Struct / Enum / Tup     aggregates (Option and Result are Enum)
  Alg     polynomial over atoms: field elements, group elements (written
          additively) and pairing-group elements (logarithm)
  Gated   finite choice {value: guard}, the join of unlike values
  Term    uninterpreted application (modelled external operation)
  Ref     mutable reference or pointer to a place;  Clo / FnV  callables
"""
from fractions import Fraction
import bdd


class Undecided(Exception):
    """the analysed code uses something outside the modelled fragment"""
    def __init__(self, msg):
        Exception.__init__(self, msg)


class Val:
    __slots__ = ('_k', '_h')

    def key(self):
        return self._k

    def __eq__(self, o):
        return self is o or (isinstance(o, Val) and self._k == o._k)

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        try:
            return self._h
        except AttributeError:
            self._h = hash(self._k)
            return self._h

    def __repr__(self):
        return show(self)


WIDTH = {'u8': 8, 'u16': 16, 'u32': 32, 'u64': 64, 'u128': 128, 'usize': 64,
         'i8': 8, 'i16': 16, 'i32': 32, 'i64': 64, 'i128': 128, 'isize': 64}
SIGNED = {'i8', 'i16', 'i32', 'i64', 'i128', 'isize'}


class HK:
    """hash-caching wrapper for deep keys"""
    __slots__ = ('v', 'h')

    def __init__(self, v):
        self.v = v
        self.h = hash(v)

    def __hash__(self):
        return self.h

    def __eq__(self, o):
        return self is o or (isinstance(o, HK) and self.h == o.h and self.v == o.v)

    def __repr__(self):
        return repr(self.v)


# ------------------------------------------------------------------ polynomials
class Poly:
    __slots__ = ('m', '_h')

    def __init__(self, m):
        self.m = m          # frozenset of (monomial tuple, coef)

    @staticmethod
    def of(d):
        return Poly(frozenset((k, v) for k, v in d.items() if v != 0))

    @staticmethod
    def const(c):
        return Poly.of({(): c})

    @staticmethod
    def atom(a):
        return Poly(frozenset([((a,), 1)]))

    def d(self):
        return dict(self.m)

    def add(self, o, f=1):
        r = dict(self.m)
        for k, v in o.m:
            r[k] = r.get(k, 0) + f * v
        return Poly.of(r)

    def scale(self, c):
        return Poly.of({k: v * c for k, v in self.m})

    def mul(self, o):
        r = {}
        for k1, v1 in self.m:
            for k2, v2 in o.m:
                k = tuple(sorted(k1 + k2, key=_skey))
                r[k] = r.get(k, 0) + v1 * v2
        return Poly.of(r)

    def is_const(self):
        return all(k == () for k, _ in self.m)

    def constval(self):
        for k, v in self.m:
            if k == ():
                return v
        return 0

    def single_atom(self):
        if len(self.m) == 1:
            (k, v), = self.m
            if v == 1 and len(k) == 1:
                return k[0]
        return None

    def atoms(self):
        return {a for k, _ in self.m for a in k}

    def sign_norm(self):
        """canonical up to sign"""
        if not self.m:
            return self
        first = min(self.m, key=lambda kv: (len(kv[0]), [_skey(a) for a in kv[0]]))
        return self if first[1] > 0 else self.scale(-1)

    def subst(self, f):
        """f: atom -> Poly or None"""
        r = Poly.of({})
        for k, v in self.m:
            t = Poly.const(v)
            for a in k:
                p = f(a)
                t = t.mul(p if p is not None else Poly.atom(a))
            r = r.add(t)
        return r

    def __eq__(self, o):
        return isinstance(o, Poly) and self.m == o.m

    def __hash__(self):
        try:
            return self._h
        except AttributeError:
            self._h = hash(self.m)
            return self._h

    def __repr__(self):
        if not self.m:
            return '0'
        out = []
        for k, v in sorted(self.m, key=lambda kv: (len(kv[0]), [_skey(a) for a in kv[0]])):
            s = '*'.join(show_atom(a) for a in k)
            if not s:
                s = str(v)
            elif v != 1:
                s = '%s*%s' % (v, s)
            out.append(s)
        return ' + '.join(out)


_skeys = {}


def _skey(a):
    """a fixed order of atoms within one run (first come, first)"""
    return _skeys.setdefault(a, len(_skeys))


aord = _skey


# ------------------------------------------------------------------ scalars
class Bool(Val):
    __slots__ = ('b',)

    def __init__(self, b):
        self.b = b
        self._k = ('bool', b)


TRUE, FALSE = Bool(1), Bool(0)


def mkbool(x):
    return TRUE if x is True or x == 1 else FALSE if x is False or x == 0 else Bool(x)


class Int(Val):
    """ty may be None (not yet known). Exactly one of v / bits / lin is set."""
    __slots__ = ('ty', 'v', 'bits', 'lin')

    def __init__(self, ty=None, v=None, bits=None, lin=None):
        self.ty = ty
        self.v = v
        self.bits = None
        self.lin = None
        if v is None and bits is not None:
            if all(b <= 1 for b in bits):
                self.v = v = sum(b << i for i, b in enumerate(bits))
                if ty in SIGNED and bits and bits[-1] == 1:
                    self.v = v = v - (1 << len(bits))
            else:
                self.bits = tuple(bits)
        if v is None and bits is None:
            if lin.is_const():
                self.v = v = lin.constval()
            else:
                self.lin = lin
        # width-insensitive key: 'the same number'
        if v is not None:
            self._k = ('int', v)
        elif self.bits is not None:
            bb = self.bits
            while bb and bb[-1] == 0:
                bb = bb[:-1]
            self._k = ('intb', bb)
        else:
            self._k = ('intl', self.lin)

    def conc(self):
        return self.v

    def width(self):
        return WIDTH.get(self.ty)

    def tobits(self, w=None):
        w = w or self.width() or (len(self.bits) if self.bits else 64)
        if self.v is not None:
            return tuple((self.v >> i) & 1 for i in range(w))
        if self.bits is not None:
            return (self.bits + (0,) * w)[:w]
        a = self.lin.single_atom()
        nw = self.width() or 64
        base = a if a is not None else ('lin', self.lin)
        return tuple(bdd.atom(('bit', base, i)) if i < nw else 0 for i in range(w))

    def aslin(self):
        if self.v is not None:
            return Poly.const(self.v)
        if self.lin is not None:
            return self.lin
        # bits of one symbol?
        base = None
        ok = True
        top = 0
        for i, b in enumerate(self.bits):
            if b == 0:
                continue
            l = bdd.as_literal(b)
            if not l or not l[1] or l[0][0] != 'bit' or l[0][2] != i:
                ok = False
                break
            if base is None:
                base = l[0][1]
            if base != l[0][1]:
                ok = False
                break
            top = i + 1
        if ok and base is not None and all(b != 0 for b in self.bits[:top]):
            w = SYMW.get(base)
            if w is None or w == top:
                return Poly.atom(base) if not (isinstance(base, tuple) and base[0] == 'lin') else base[1]
        r = Poly.of({})
        for i, b in enumerate(self.bits):
            if b != 0:
                r = r.add(boolpoly(b).scale(1 << i))
        return r


SYMW = {}     # integer symbol atom -> declared width


def boolpoly(b):
    if b <= 1:
        return Poly.const(b)
    l = bdd.as_literal(b)
    if l and not l[1]:
        return Poly.const(1).add(Poly.atom(('b', bdd.neg(b))), -1)
    return Poly.atom(('b', b))


def isym(name, ty):
    SYMW[name] = WIDTH[ty]
    return Int(ty, lin=Poly.atom(name))


def bsym(name, ty='u8'):
    """symbolic machine integer as bits"""
    SYMW[name] = WIDTH[ty]
    return Int(ty, bits=[bdd.atom(('bit', name, i)) for i in range(WIDTH[ty])])


class Alg(Val):
    __slots__ = ('p', 'kind')

    def __init__(self, p, kind=None):
        self.p = p
        self.kind = kind
        self._k = ('alg', p)


ATOMK = {}    # atom -> 'G1' | 'G2' | 'GT' | 'G' for group elements


def asym(name, kind=None):
    if kind in ('G1', 'G1a'):
        ATOMK[name] = 'G1'
    elif kind in ('G2', 'G2a'):
        ATOMK[name] = 'G2'
    elif kind in ('GT', 'ML'):
        ATOMK[name] = 'GT'
    elif kind in ('G', 'Ga'):
        ATOMK[name] = 'G'
    return Alg(Poly.atom(name), kind)




class Seg:
    """opaque run of bytes: term[off .. off+n];  n is an int or a Poly"""
    __slots__ = ('t', 'off', 'n')

    def __init__(self, t, off, n):
        self.t, self.off, self.n = t, off, n

    def __eq__(self, o):
        return isinstance(o, Seg) and (self.t, self.off, self.n) == (o.t, o.off, o.n)

    def __hash__(self):
        return hash((self.t, self.off, self.n))

    def __repr__(self):
        return '%s[%s..+%s]' % (show_atom(self.t), self.off, self.n)


def seg_byte(t, i):
    return Int('u8', bits=[bdd.atom(('bit', ('byte', t, i), j)) for j in range(8)])


def _byte_origin(x):
    if isinstance(x, Int) and x.bits is not None and len(x.bits) == 8:
        l = bdd.as_literal(x.bits[0])
        if l and l[1] and l[0][0] == 'bit' and isinstance(l[0][1], tuple) and l[0][1][0] == 'byte':
            _, t, i = l[0][1]
            if x == seg_byte(t, i):
                return t, i
    return None


class Seq(Val):
    __slots__ = ('e', 'kind', 'sg')      # sg: no element is a segment

    def __init__(self, e, kind='vec'):
        if Seg not in set(map(type, e if isinstance(e, (tuple, list)) else (e := tuple(e)))):
            self.e = tuple(e)
            self.kind = kind
            self.sg = True
            return
        self.sg = False
        out = []
        for x in e:
            if isinstance(x, Seg):
                if x.n == 0 or (isinstance(x.n, Poly) and not x.n.m):
                    continue
                if isinstance(x.n, Poly) and x.n.is_const():
                    x = Seg(x.t, x.off, int(x.n.constval()))
                if isinstance(x.n, int) and x.n == 1 and isinstance(x.off, int):
                    x = seg_byte(x.t, x.off)
            if isinstance(x, Seg) and out and isinstance(out[-1], Seg) and out[-1].t == x.t \
                    and isinstance(out[-1].n, int) and isinstance(x.off, int) and out[-1].off + out[-1].n == x.off:
                p = out.pop()
                x = Seg(x.t, p.off, p.n + x.n if isinstance(x.n, int) else x.n.add(Poly.const(p.n)))
            out.append(x)
        self.e = tuple(out)
        self.kind = kind

    @property
    def _k(self):
        try:
            return Val._k.__get__(self)
        except AttributeError:
            k = ('seq', _canon(self.e))
            Val._k.__set__(self, k)
            return k

    def cat(self, o, kind=None):
        a, b = self.e, o.e
        if not a or not b or isinstance(a[-1], Seg) and isinstance(b[0], Seg) and a[-1].t == b[0].t:
            return Seq(a + b, kind or self.kind)
        r = Seq.__new__(Seq)
        r.e = a + b
        r.kind = kind or self.kind
        r.sg = self.sg and o.sg
        return r

    def plus(self, x):
        """with one more element"""
        if isinstance(x, Seg):
            return Seq(self.e + (x,), self.kind)
        r = Seq.__new__(Seq)
        r.e = self.e + (x,)
        r.kind = self.kind
        r.sg = self.sg
        return r

    def has_seg(self):
        return not self.sg and any(isinstance(x, Seg) for x in self.e)

    def length(self):
        """int or Poly"""
        if self.sg:
            return len(self.e)
        n = 0
        for x in self.e:
            if isinstance(x, Seg):
                if isinstance(x.n, int):
                    n = n + x.n if isinstance(n, int) else n.add(Poly.const(x.n))
                else:
                    n = (Poly.const(n) if isinstance(n, int) else n).add(x.n)
            else:
                n = n + 1 if isinstance(n, int) else n.add(Poly.const(1))
        return n

    def items(self):
        """elements one by one; opaque segments of known length become bytes"""
        if self.sg:
            return list(self.e)
        out = []
        for x in self.e:
            if isinstance(x, Seg):
                if not isinstance(x.n, int) or not isinstance(x.off, int):
                    raise Undecided('iteration over a byte string of unknown length')
                out += [seg_byte(x.t, x.off + i) for i in range(x.n)]
            else:
                out.append(x)
        return out

    def slice(self, a, b):
        """a, b ints (b None = end)"""
        if a == 0 and b is None:
            return self
        if self.sg:
            r = Seq.__new__(Seq)
            r.e = self.e[max(a, 0):None if b is None else max(b, 0)]
            r.kind = self.kind
            r.sg = True
            return r
        out, pos = [], 0
        L = self.length()
        if isinstance(L, int) and b is None:
            b = L
        for x in self.e:
            if isinstance(x, Seg) and not isinstance(x.n, int):
                if b is None and pos >= a:
                    out.append(x)
                    continue
                if b is None and a > pos:
                    # suffix of an unknown-length segment
                    k = a - pos
                    out.append(Seg(x.t, x.off + k, x.n.add(Poly.const(-k))))
                    pos = a
                    continue
                if b is not None and b <= pos:
                    continue
                # prefix or middle of an unknown-length segment
                lo = max(a - pos, 0)
                out.append(Seg(x.t, x.off + lo, b - pos - lo))
                pos = b
                continue
            n = x.n if isinstance(x, Seg) else 1
            lo, hi = max(a, pos), pos + n if b is None else min(b, pos + n)
            if lo < hi:
                out.append(Seg(x.t, x.off + lo - pos, hi - lo) if isinstance(x, Seg) else x)
            pos += n
        return Seq(out, self.kind)


def _canon(e):
    out = []
    for x in e:
        if isinstance(x, Seg):
            t, off, n = x.t, x.off, x.n
        else:
            o = _byte_origin(x)
            if o is None:
                out.append(x)
                continue
            t, off, n = o[0], o[1], 1
        if out and isinstance(out[-1], Seg) and out[-1].t == t and isinstance(out[-1].n, int) \
                and isinstance(off, int) and isinstance(out[-1].off, int) and out[-1].off + out[-1].n == off:
            p = out.pop()
            n = p.n + n if isinstance(n, int) else n.add(Poly.const(p.n))
            off = p.off
        out.append(Seg(t, off, n))
    return tuple(out)


def seq(*e):
    return Seq(e)


def bytes_sym(name, n=None):
    """symbolic byte string; n None = unknown length"""
    return Seq([Seg(name, 0, Poly.atom(('len', name)) if n is None else n)], 'slice')


def bytes_const(b):
    return Seq([Int('u8', v=x) for x in b], 'slice')


class Tup(Val):
    __slots__ = ('e',)

    def __init__(self, e):
        self.e = tuple(e)
        self._k = ('tup', self.e)


UNIT = Tup(())


class Struct(Val):
    __slots__ = ('name', 'f')

    def __init__(self, name, f):
        self.name = name
        self.f = dict(f)
        self._k = ('struct', name, tuple(sorted(self.f.items(), key=lambda kv: kv[0])))

    def with_(self, n, v):
        f = dict(self.f)
        f[n] = v
        return Struct(self.name, f)


class Enum(Val):
    __slots__ = ('name', 'var', 'e')

    def __init__(self, name, var, e=()):
        self.name, self.var = name, var
        self.e = tuple(e)        # positional payload, or ((field, value), ...) as Tup pairs
        self._k = ('enum', name, var, self.e)


def Some(v):
    return Enum('Option', 'Some', (v,))


NONE = Enum('Option', 'None')


def Ok(v=UNIT):
    return Enum('Result', 'Ok', (v,))


def Err(v):
    return Enum('Result', 'Err', (v,))


class Term(Val):
    """uninterpreted application; op starting with '?' = not modelled"""
    __slots__ = ('op', 'a', 'ty')

    def __init__(self, op, a=(), ty=None):
        self.op, self.a, self.ty = op, tuple(a), ty
        self._k = ('term', op, self.a)


ANY = Term('any')


class Gated(Val):
    __slots__ = ('g',)

    def __init__(self, g):
        self.g = tuple(g)       # ((value, guard), ...)
        self._k = ('gated', frozenset(self.g))


class Ref(Val):
    """mutable reference / pointer to a place"""
    __slots__ = ('loc', 'path', 'raw')

    def __init__(self, loc, path=(), raw=False):
        self.loc, self.path, self.raw = loc, tuple(path), raw
        self._k = ('ref', loc, self.path)


class Clo(Val):
    __slots__ = ('node', 'env', 'ctx')

    def __init__(self, node, env, ctx):
        self.node, self.env, self.ctx = node, env, ctx
        self._k = ('clo', id(node), tuple(sorted(env.items())))


class FnV(Val):
    """reference to a function item or constructor"""
    __slots__ = ('d', 'info')

    def __init__(self, d, info=None):
        self.d, self.info = d, info
        self._k = ('fn', repr(d) if not isinstance(d, tuple) else d)


class Opq(Val):
    """Python-side immutable helper object (iterators, hash states...)"""
    __slots__ = ('cls', 'f')

    def __init__(self, cls, **f):
        self.cls = cls
        self.f = f
        self._k = ('opq', cls, tuple(sorted(f.items(), key=lambda kv: kv[0])))

    def with_(self, **kw):
        f = dict(self.f)
        f.update(kw)
        return Opq(self.cls, **f)


# ------------------------------------------------------------------ gating
def leaves(v):
    if isinstance(v, Gated):
        return v.g
    return ((v, 1),)


def gated(pairs):
    """canonical choice from (value, guard) pairs (guards disjoint)"""
    d = {}
    for v, g in pairs:
        if g == 0:
            continue
        for lv, lg in leaves(v):
            gg = bdd.and_(g, lg)
            if gg != 0:
                d[lv] = bdd.or_(d.get(lv, 0), gg)
    if not d:
        raise Undecided('empty choice')
    if len(d) == 1:
        return next(iter(d))
    return Gated(sorted(d.items(), key=lambda kv: kv[1]))


def vite(c, a, b):
    """value of 'if c then a else b' (c is a diagram)"""
    if c == 1 or a is b:
        return a
    if c == 0:
        return b
    if a == b:
        return a
    if isinstance(a, Bool) and isinstance(b, Bool):
        return mkbool(bdd.ite(c, a.b, b.b))
    if isinstance(a, Int) and isinstance(b, Int):
        ty = a.ty or b.ty
        if ty in ('u8', 'u16', 'u32', 'u64') and not (a.lin is not None or b.lin is not None):
            w = WIDTH[ty]
            return Int(ty, bits=[bdd.ite(c, x, y) for x, y in zip(a.tobits(w), b.tobits(w))])
        return gated([(a, c), (b, bdd.neg(c))])
    if isinstance(a, Struct) and isinstance(b, Struct) and a.name == b.name and a.f.keys() == b.f.keys():
        return Struct(a.name, {k: vite(c, a.f[k], b.f[k]) for k in a.f})
    if isinstance(a, Tup) and isinstance(b, Tup) and len(a.e) == len(b.e):
        return Tup([vite(c, x, y) for x, y in zip(a.e, b.e)])
    if isinstance(a, Enum) and isinstance(b, Enum) and a.name == b.name and a.var == b.var and len(a.e) == len(b.e):
        return Enum(a.name, a.var, [vite(c, x, y) for x, y in zip(a.e, b.e)])
    if isinstance(a, Seq) and isinstance(b, Seq):
        if len(a.e) == len(b.e) and all(
                (x == y) if isinstance(x, Seg) or isinstance(y, Seg) else True for x, y in zip(a.e, b.e)):
            return Seq([x if isinstance(x, Seg) else vite(c, x, y) for x, y in zip(a.e, b.e)], a.kind)
        la, lb = a.length(), b.length()
        if isinstance(la, int) and la == lb and la <= 4096:
            try:
                return Seq([vite(c, x, y) for x, y in zip(a.items(), b.items())], a.kind)
            except Undecided:
                pass
    if isinstance(a, Gated) or isinstance(b, Gated):
        # merge aggregates of like shape leaf-wise so that gates stay small
        return gated_merge(c, a, b)
    return gated([(a, c), (b, bdd.neg(c))])


def _shape(v):
    if isinstance(v, Enum):
        return ('enum', v.name, v.var, len(v.e))
    if isinstance(v, Struct):
        return ('struct', v.name)
    if isinstance(v, Tup):
        return ('tup', len(v.e))
    if isinstance(v, Bool):
        return ('bool',)
    if isinstance(v, Seq):
        n = v.length()
        return ('seq', n) if isinstance(n, int) else ('val', v)
    return ('val', v)


def gated_merge(c, a, b):
    """join of choices; leaves of equal shape are merged into one leaf"""
    groups = {}
    order = []
    for v, g in [(x, bdd.and_(c, gx)) for x, gx in leaves(a)] + \
                [(x, bdd.and_(bdd.neg(c), gx)) for x, gx in leaves(b)]:
        if g == 0:
            continue
        s = _shape(v)
        if s in groups:
            ov, og = groups[s]
            groups[s] = (vite(og, ov, v), bdd.or_(og, g))
        else:
            groups[s] = (v, g)
            order.append(s)
    if len(groups) == 1:
        return groups[order[0]][0]
    out = []
    for s in order:
        out.append(groups[s])
    return gated(out)


def merge_many(pairs):
    """pairs: [(guard, value)] disjoint; last one is the default"""
    v = pairs[-1][1]
    care = pairs[-1][0]
    for g, x in reversed(pairs[:-1]):
        care = bdd.or_(care, g)
        v = vite(bdd.constrain(g, care), x, v)
    return v


def lift(f, *vs):
    """apply f to every combination of leaves and join"""
    if not any(isinstance(v, Gated) for v in vs):
        return f(*vs)
    out = []

    def go(i, g, acc):
        if g == 0:
            return
        if i == len(vs):
            out.append((g, f(*acc)))
            return
        for v, gv in leaves(vs[i]):
            go(i + 1, bdd.and_(g, gv), acc + [v])
    go(0, 1, [])
    return merge_many(out)


def liftb(f, *vs):
    """like lift but f returns a diagram"""
    if not any(isinstance(v, Gated) for v in vs):
        return f(*vs)
    r = [0]

    def go(i, g, acc):
        if g == 0:
            return
        if i == len(vs):
            r[0] = bdd.or_(r[0], bdd.and_(g, f(*acc)))
            return
        for v, gv in leaves(vs[i]):
            go(i + 1, bdd.and_(g, gv), acc + [v])
    go(0, 1, [])
    return r[0]


# ------------------------------------------------------------------ traversal
def unmodelled(v, seen=None):
    """names of '?' operations occurring in a value/atom"""
    out = set()
    seen = set() if seen is None else seen
    st = [v]
    while st:
        x = st.pop()
        if isinstance(x, (int, str, bytes, type(None), bool, Fraction)):
            continue
        i = id(x)
        if i in seen:
            continue
        seen.add(i)
        if isinstance(x, Term):
            if x.op.startswith('?'):
                out.add(x.op)
            st += list(x.a)
        elif isinstance(x, Gated):
            for lv, g in x.g:
                st.append(lv)
                st += list(bdd.support(g))
        elif isinstance(x, Bool):
            st += list(bdd.support(x.b))
        elif isinstance(x, Int):
            if x.bits:
                for b in x.bits:
                    st += list(bdd.support(b))
            if x.lin:
                st += list(x.lin.atoms())
        elif isinstance(x, Alg):
            st += list(x.p.atoms())
        elif isinstance(x, Poly):
            st += list(x.atoms())
        elif isinstance(x, HK):
            st.append(x.v)
        elif isinstance(x, Seq):
            for y in x.e:
                st.append(y.t if isinstance(y, Seg) else y)
        elif isinstance(x, Seg):
            st.append(x.t)
        elif isinstance(x, (Tup, Enum)):
            st += list(x.e)
        elif isinstance(x, Struct):
            st += list(x.f.values())
        elif isinstance(x, Opq):
            st += list(x.f.values())
        elif isinstance(x, (tuple, list, frozenset, set)):
            if isinstance(x, tuple) and len(x) == 2 and x[0] == 'b' and isinstance(x[1], int):
                st += list(bdd.support(x[1]))
            else:
                st += list(x)
    return out


# ------------------------------------------------------------------ printing
_shown = [None]


def _bounded(f):
    """at most 3000 nodes and 30 levels are printed"""
    def g(*a):
        top = _shown[0] is None
        if top:
            _shown[0] = [3000, 0]
        b = _shown[0]
        b[0] -= 1
        b[1] += 1
        try:
            if b[0] < 0 or b[1] > 30:
                return '..'
            return f(*a)
        finally:
            b[1] -= 1
            if top:
                _shown[0] = None
    return g


@_bounded
def show_atom(a):
    if isinstance(a, str):
        return a
    if isinstance(a, HK):
        return show_atom(a.v)
    if isinstance(a, Val):
        return show(a)
    if isinstance(a, tuple):
        if len(a) == 3 and a[0] == 'bit':
            return '%s.bit%s' % (show_atom(a[1]), a[2])
        if len(a) == 3 and a[0] == 'byte':
            return '%s[%s]' % (show_atom(a[1]), a[2])
        if len(a) == 2 and a[0] == 'b' and isinstance(a[1], int):
            return '[%s]' % show_bdd(a[1])
        if a and isinstance(a[0], str):
            return '%s(%s)' % (a[0], ', '.join(show_atom(x) for x in a[1:]))
        return '(' + ', '.join(show_atom(x) for x in a) + ')'
    return repr(a)


@_bounded
def show_bdd(b, limit=4):
    if b == 1:
        return 'true'
    if b == 0:
        return 'false'
    out = []
    for c in bdd.cubes(b, limit):
        out.append(' & '.join(('' if p else '!') + show_atom(a) for a, p in c[:8]) + (' & ..' if len(c) > 8 else ''))
    return ' | '.join(out) + (' | ..' if len(out) == limit else '')


def show(v, n=400):
    s = _show(v)
    return s


@_bounded
def _show(v):
    if isinstance(v, Bool):
        return show_bdd(v.b)
    if isinstance(v, Int):
        if v.v is not None:
            return str(v.v)
        if v.lin is not None:
            return repr(v.lin)
        o = _byte_origin(v)
        if o:
            return '%s[%d]' % (show_atom(o[0]), o[1])
        return 'bits(%s)' % ','.join(show_bdd(b, 2) for b in v.bits)
    if isinstance(v, Alg):
        return repr(v.p)
    if isinstance(v, Seq):
        if all(isinstance(x, Int) and x.v is not None for x in v.e) and len(v.e) > 1:
            try:
                return 'b"%s"' % bytes(x.v for x in v.e).decode('ascii')
            except Exception:
                pass
        return '[' + ', '.join(repr(x) if isinstance(x, Seg) else _show(x) for x in v.e[:12]) + \
            (', ..(%d)' % len(v.e) if len(v.e) > 12 else '') + ']'
    if isinstance(v, Tup):
        return '(' + ', '.join(_show(x) for x in v.e) + ')'
    if isinstance(v, Struct):
        return v.name.split('::')[-1] + '{' + ', '.join('%s: %s' % (k, _show(x)) for k, x in v.f.items()) + '}'
    if isinstance(v, Enum):
        return v.var + ('(' + ', '.join(_show(x) for x in v.e) + ')' if v.e else '')
    if isinstance(v, Gated):
        return '{' + '; '.join('%s if %s' % (_show(x), show_bdd(g, 3)) for x, g in v.g[:6]) + \
            ('; ..' if len(v.g) > 6 else '') + '}'
    if isinstance(v, Term):
        return '%s(%s)' % (v.op, ', '.join(_show(x) if isinstance(x, Val) else show_atom(x) for x in v.a))
    if isinstance(v, Ref):
        return '&loc%s%s' % (v.loc, ''.join('.%s' % (p[1],) for p in v.path))
    if isinstance(v, Opq):
        return '<%s %s>' % (v.cls, ', '.join('%s=%s' % (k, _show(x) if isinstance(x, Val) else show_atom(x)) for k, x in v.f.items()))
    if isinstance(v, Clo):
        return '<closure>'
    if isinstance(v, FnV):
        return '<fn %s>' % (v.d,)
    return '<%s>' % type(v).__name__
