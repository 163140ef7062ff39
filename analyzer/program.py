"""Loads the syntax trees of /repo's crates and resolves names.

Items of every crate are collected for one configuration (set of enabled
features; cfg(test) is off), `use` declarations and re-exports are followed,
and impl blocks are indexed by the head of their self type."""
import hashlib, json, os, re, subprocess, sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
CRATES = {'bls_crypto': 'bls-crypto', 'bls_gadgets': 'bls-gadgets',
          'epoch_snark': 'epoch-snark', 'bls_snark_sys': 'bls-snark-sys'}


class LoadError(Exception):
    pass


def tool():
    src = os.path.join(ROOT, 'tools', 'astdump')
    h = hashlib.sha256()
    for f in ('Cargo.toml', 'Cargo.lock', 'src/main.rs'):
        h.update(open(os.path.join(src, f), 'rb').read())
    for base in (os.path.join(ROOT, '.cache'), '/tmp/verif-astdump'):
        out = os.path.join(base, 'astdump-' + h.hexdigest()[:16])
        if os.path.exists(out):
            return out
    base = os.path.join(ROOT, '.cache')
    try:
        os.makedirs(base, exist_ok=True)
        open(os.path.join(base, '.w'), 'w').close()
    except OSError:
        base = '/tmp/verif-astdump'
        os.makedirs(base, exist_ok=True)
    out = os.path.join(base, 'astdump-' + h.hexdigest()[:16])
    tgt = os.path.join(base, 'target-%d' % os.getpid())
    env = dict(os.environ, RUSTUP_TOOLCHAIN='stable-x86_64-unknown-linux-gnu', CARGO_NET_OFFLINE='true',
               CARGO_TARGET_DIR=tgt, RUSTC_WRAPPER='', HOME=os.environ.get('HOME', '/root'))
    env.pop('RUSTFLAGS', None)
    env['PATH'] = '/root/.cargo/bin:' + env.get('PATH', '/usr/local/bin:/usr/bin:/bin')
    r = subprocess.run(['cargo', 'build', '--release', '--offline', '--locked', '--quiet'], cwd=src, env=env,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode != 0:
        raise LoadError('building the syntax-tree dumper failed:\n' + r.stdout.decode(errors='replace')[-3000:])
    tmp = out + '.%d' % os.getpid()
    import shutil
    shutil.copy2(os.path.join(tgt, 'release', 'astdump'), tmp)
    os.replace(tmp, out)
    shutil.rmtree(tgt, ignore_errors=True)
    return out


def dump():
    files = []
    for c in CRATES.values():
        for d, _, fs in os.walk(os.path.join(REPO, 'crates', c, 'src')):
            files += [os.path.join(d, f) for f in fs if f.endswith('.rs')]
    files.sort()
    if not files:
        raise LoadError('no sources found under %s/crates' % REPO)
    r = subprocess.run([tool()] + files, stdout=subprocess.PIPE)
    if r.returncode != 0:
        raise LoadError('syntax-tree dumper failed')
    return json.loads(r.stdout)


class D:
    """a resolved definition"""
    __slots__ = ('kind', 'name', 'path', 'mod', 'node', 'file', 'impl', 'extra')

    def __init__(self, kind, name, path, mod, node, file, impl=None):
        self.kind, self.name, self.path, self.mod, self.node, self.file, self.impl = kind, name, path, mod, node, file, impl
        self.extra = {}

    def __repr__(self):
        return '%s %s' % (self.kind, self.path)

    def line(self):
        n = self.node
        return n.get('l') or (n.get('sig') or {}).get('l') or 0

    def where(self):
        return '%s:%s (%s)' % (os.path.relpath(self.file, REPO), self.line(), self.path)


class Mod:
    def __init__(self, path, file, parent, crate):
        self.path, self.file, self.parent, self.crate = path, file, parent, crate
        self.items = {}     # (ns, name) -> D | Mod ;  ns 't' types/modules, 'v' values, 'm' macros
        self.uses = []      # (path, as)
        self.globs = []
        self.impls = []


class Impl:
    def __init__(self, node, mod):
        self.node, self.mod = node, mod
        self.head = None
        self.trait = None       # resolved trait: D or ('ext', name)
        self.fns = {}
        self.consts = {}
        self.types = {}
        self.gen = [p['n'] for p in node['g']['p']]


def cfg_true(s, feats):
    s = s.strip()
    m = re.match(r'^(\w+)\s*(?:=\s*"([^"]*)"|\((.*)\))?$', s, re.S)
    if not m:
        return True
    n, val, inner = m.group(1), m.group(2), m.group(3)
    if inner is not None:
        parts, depth, cur = [], 0, ''
        for ch in inner:
            if ch == ',' and depth == 0:
                parts.append(cur); cur = ''; continue
            depth += ch == '('
            depth -= ch == ')'
            cur += ch
        if cur.strip():
            parts.append(cur)
        vs = [cfg_true(p, feats) for p in parts]
        return {'all': all(vs), 'any': any(vs), 'not': not (vs and vs[0])}.get(n, True)
    if n == 'feature':
        return val in feats
    if n == 'test':
        return False
    if n in ('unix', 'debug_assertions'):
        return True
    if n == 'target_os':
        return val == 'linux'
    if n == 'target_arch':
        return val == 'x86_64'
    if n == 'target_pointer_width':
        return val == '64'
    return False


def enabled(at, feats):
    for a in at or []:
        if a.startswith('cfg (') or a.startswith('cfg('):
            inner = a[a.index('(') + 1:a.rindex(')')]
            if not cfg_true(inner, feats):
                return False
    return True


class Program:
    def __init__(self, asts, feats):
        self.asts, self.feats = asts, frozenset(feats)
        self.mods = {}
        self.crates = {}
        self.allfns = []
        self.impls = []
        self.errors = []
        for c, d in CRATES.items():
            f = os.path.join(REPO, 'crates', d, 'src', 'lib.rs')
            a = asts.get(f)
            if a is None or 'err' in (a or {}):
                self.errors.append('%s: %s' % (f, (a or {}).get('err', 'missing')))
                continue
            m = Mod(c, f, None, c)
            self.crates[c] = m
            self.mods[c] = m
            self._fill(m, a['items'], os.path.dirname(f))
        self._cache = {}
        for im in self.impls:
            im.head = self.head_of(im.node['t'], im.mod, im.gen)
            im.trait = self.resolve_trait(im.node['tr'], im.mod) if im.node['tr'] else None
        self.by_method = {}
        for im in self.impls:
            for n, d in im.fns.items():
                self.by_method.setdefault(n, []).append((im, d))
        self.traits = [d for m in self.mods.values() for (ns, _), d in m.items.items()
                       if isinstance(d, D) and d.kind == 'trait']

    # ---- collection
    def _fill(self, m, items, dirpath):
        for it in items:
            if not enabled(it.get('at'), self.feats):
                continue
            k = it['k']
            if k == 'use':
                for u in it['u']:
                    if u['as'] == '*':
                        m.globs.append(tuple(u['p']))
                    else:
                        m.uses.append((tuple(u['p']), u['as']))
            elif k == 'mod':
                sub = Mod(m.path + '::' + it['n'], m.file, m, m.crate)
                m.items[('t', it['n'])] = sub
                self.mods[sub.path] = sub
                if it['c'] is not None:
                    self._fill(sub, it['c'], os.path.join(dirpath, it['n']))
                else:
                    pa = [x for x in it.get('at') or [] if x.startswith('path')]
                    if pa:
                        cands = [os.path.join(os.path.dirname(m.file), re.search(r'"([^"]*)"', pa[0]).group(1))]
                    else:
                        cands = [os.path.join(dirpath, it['n'] + '.rs'), os.path.join(dirpath, it['n'], 'mod.rs')]
                    for c in cands:
                        if c in self.asts:
                            a = self.asts[c]
                            sub.file = c
                            if 'err' in a:
                                self.errors.append('%s: %s' % (c, a['err']))
                            else:
                                self._fill(sub, a['items'], os.path.join(dirpath, it['n']))
                            break
                    else:
                        self.errors.append('module file for %s not found' % sub.path)
            elif k == 'impl':
                im = Impl(it, m)
                m.impls.append(im)
                self.impls.append(im)
                for x in it['i']:
                    if not enabled(x.get('at'), self.feats):
                        continue
                    if x['k'] == 'fn':
                        d = D('fn', x['sig']['n'], m.path + '::<impl>::' + x['sig']['n'], m, x, m.file, im)
                        im.fns[d.name] = d
                        self.allfns.append(d)
                    elif x['k'] == 'const':
                        im.consts[x['n']] = D('const', x['n'], m.path + '::<impl>::' + x['n'], m, x, m.file, im)
                    elif x['k'] == 'type':
                        im.types[x['n']] = x['t']
            elif k == 'fn':
                d = D('fn', it['sig']['n'], m.path + '::' + it['sig']['n'], m, it, m.file)
                m.items[('v', d.name)] = d
                self.allfns.append(d)
            elif k in ('const', 'static'):
                m.items[('v', it['n'])] = D(k, it['n'], m.path + '::' + it['n'], m, it, m.file)
            elif k in ('struct', 'enum', 'type', 'trait'):
                d = D(k, it['n'], m.path + '::' + it['n'], m, it, m.file)
                m.items[('t', it['n'])] = d
                if k == 'struct' and it['f']['k'] != 'named':
                    m.items.setdefault(('v', it['n']), d)
                if k == 'trait':
                    d.extra['fns'] = {}
                    for x in it['i']:
                        if x['k'] == 'fn':
                            fd = D('fn', x['sig']['n'], d.path + '::' + x['sig']['n'], m, x, m.file)
                            fd.extra['trait'] = d
                            d.extra['fns'][fd.name] = fd
            elif k == 'macro':
                # item macros such as lazy_static!/thread_local! are not modelled
                if it.get('n') is None:
                    m.items[('m', it['m']['n'])] = D('macrocall', it['m']['n'], m.path, m, it, m.file)

    # ---- names
    def lookup_in(self, m, name, ns, seen=None):
        """name inside module m: D, Mod, ('ext', path) or None"""
        key = (m.path, name, ns)
        if seen is None and key in self._cache:
            return self._cache[key]
        seen0 = seen
        seen = set() if seen is None else seen
        if key in seen:
            return None
        seen.add(key)
        r = m.items.get((ns, name))
        if r is None:
            for p, a in m.uses:
                if a == name:
                    x = self.resolve_path(p, m, ns, seen)
                    if x is not None:
                        r = x
                        break
        if r is None:
            for g in m.globs:
                x = self.resolve_path(g, m, 't', seen)
                if isinstance(x, Mod):
                    y = self.lookup_in(x, name, ns, seen)
                    if y is not None and not (isinstance(y, tuple)):
                        r = y
                        break
                elif isinstance(x, D) and x.kind == 'enum' and any(v['n'] == name for v in x.node['vs']):
                    r = ('variant', x, name)
                    break
        if seen0 is None:
            self._cache[key] = r
        return r

    def resolve_path(self, p, m, ns, seen=None):
        """p: tuple of names. Result as lookup_in, or ('variant', enum, name),
        ('assoc', type-def, name)"""
        p = list(p)
        if not p:
            return None
        cur = None
        i = 0
        if p[0] == 'crate':
            cur = self.crates[m.crate]; i = 1
        elif p[0] == 'self':
            cur = m; i = 1
        elif p[0] == 'super':
            cur = m
            while i < len(p) and p[i] == 'super':
                cur = cur.parent or cur
                i += 1
        if cur is None:
            last = len(p) == 1
            x = self.lookup_in(m, p[0], ns if last else 't', seen if seen is not None else None)
            if x is None and p[0] in self.crates:
                x = self.crates[p[0]]
            if x is None:
                # names of an enclosing function module do not exist; external
                return ('ext', tuple(p))
            cur = x
            i = 1
        while i < len(p):
            if isinstance(cur, Mod):
                last = i == len(p) - 1
                x = self.lookup_in(cur, p[i], ns if last else 't', seen)
                if x is None and last:
                    x = self.lookup_in(cur, p[i], 't' if ns == 'v' else 'v', seen)
                if x is None:
                    return None
                cur = x
            elif isinstance(cur, D) and cur.kind == 'enum' and any(v['n'] == p[i] for v in cur.node['vs']):
                cur = ('variant', cur, p[i])
            elif isinstance(cur, D):
                return ('assoc', cur, tuple(p[i:]))
            elif isinstance(cur, tuple) and cur[0] == 'ext':
                return ('ext', cur[1] + tuple(p[i:]))
            else:
                return None
            i += 1
        return cur

    def head_of(self, t, m, gens):
        """canonical head of a type: item path, external last segment, or kind"""
        k = t['k']
        if k == 'ref' or k == 'ptr':
            return self.head_of(t['t'], m, gens)
        if k in ('slice', 'array'):
            return 'slice'
        if k == 'tuple':
            return 'tuple'
        if k == 'path':
            names = tuple(s['n'] for s in t['p']['s'])
            if len(names) == 1 and names[0] in gens:
                return '*'
            r = self.resolve_path(names, m, 't')
            if isinstance(r, D):
                if r.kind == 'type':
                    return self.head_of(r.node['t'], r.mod, [])
                return r.path
            if isinstance(r, tuple) and r[0] == 'ext':
                return r[1][-1]
            return names[-1]
        return k

    def resolve_trait(self, p, m):
        names = tuple(s['n'] for s in p['s'])
        r = self.resolve_path(names, m, 't')
        if isinstance(r, D):
            return r
        if isinstance(r, tuple) and r[0] == 'ext':
            return ('ext', r[1][-1])
        return ('ext', names[-1])

    def find(self, path):
        """item by full public path 'crate::a::b' (re-exports followed)"""
        p = path.split('::')
        m = self.crates.get(p[0])
        if m is None:
            return None
        r = m
        for ns in ('v', 't'):
            x = self.resolve_path(('crate',) + tuple(p[1:]), m, ns) if len(p) > 1 else m
            if x is not None and not (isinstance(x, tuple) and x[0] in ('ext',)):
                return x
        return None

    def method(self, head, name, trait=None):
        """(impl, fn) of an inherent or trait method of a type head"""
        c = []
        for im, d in self.by_method.get(name, []):
            if im.head == head:
                if trait is None or (im.trait is not None and trait_name(im.trait) == trait):
                    c.append((im, d))
        c.sort(key=lambda x: x[0].trait is not None)
        return c


def trait_name(t):
    return t.name if isinstance(t, D) else t[1]


_prog = {}


def load(feats=('compat',)):
    k = frozenset(feats)
    if k not in _prog:
        if 'asts' not in _prog:
            _prog['asts'] = dump()
        _prog[k] = Program(_prog['asts'], k)
    return _prog[k]
