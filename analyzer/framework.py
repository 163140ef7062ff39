"""Obligations, verdicts, evidence.

An obligation compares what the abstract interpreter computed from the current
source of /repo with what the property demands.  Outcomes:
  discharged   the two agree (values, guards, effects)
  violated     they differ and everything involved is modelled  -> exit 1
  undecided    the code uses something outside the model; said so, no alarm
"""
import ctypes, json, os, pickle, sys, threading, time, traceback, hashlib
import bdd, literals, program
from values import *
from interp import Interp, State, Dead

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
KNOWN = os.path.join(ROOT, 'known_findings.txt')


class Missing(Exception):
    """a public anchor of the property is gone"""


class Violated(Exception):
    pass


def differ(got, want, care=1, path=''):
    """None if got and want agree wherever care holds, else (path, got, want, guard)"""
    if care == 0 or got is want or got == want or want == ANY:
        return None
    if isinstance(got, Gated) or isinstance(want, Gated):
        # guards of one choice are disjoint: equal guards meet only each other
        lw = {bdd.and_(care, g): y for y, g in leaves(want)}
        rest = []
        for x, gx in leaves(got):
            gx = bdd.and_(care, gx)
            if gx == 0:
                continue
            if gx in lw:
                d = differ(x, lw.pop(gx), gx, path)
                if d:
                    return d
            else:
                rest.append((x, gx))
        for x, gx in rest:
            for gy, y in lw.items():
                d = differ(x, y, bdd.and_(gx, gy), path)
                if d:
                    return d
        return None
    if isinstance(got, Bool) and isinstance(want, Bool):
        d = bdd.and_(bdd.xor(got.b, want.b), care)
        return (path, got, want, d) if d != 0 else None
    if isinstance(got, Int) and isinstance(want, Int):
        if got.lin is None and want.lin is None or True:
            try:
                w = max(got.width() or 0, want.width() or 0, len(got.bits or ()), len(want.bits or ()),
                        (got.v or 0).bit_length(), (want.v or 0).bit_length(), 1)
                if got.lin is None and want.lin is None:
                    d = bdd.or_(*[bdd.and_(care, bdd.xor(a, b)) for a, b in zip(got.tobits(w), want.tobits(w))])
                    return (path, got, want, d) if d != 0 else None
                if got.aslin() == want.aslin():
                    return None
            except Undecided:
                pass
        return (path, got, want, care)
    if isinstance(got, Struct) and isinstance(want, Struct) and got.name == want.name and set(got.f) == set(want.f):
        for k in got.f:
            d = differ(got.f[k], want.f[k], care, path + '.' + k)
            if d:
                return d
        return None
    if isinstance(got, Enum) and isinstance(want, Enum) and got.name == want.name and got.var == want.var and len(got.e) == len(want.e):
        for i, (a, b) in enumerate(zip(got.e, want.e)):
            d = differ(a, b, care, path + '.' + got.var)
            if d:
                return d
        return None
    if isinstance(got, Tup) and isinstance(want, Tup) and len(got.e) == len(want.e):
        for i, (a, b) in enumerate(zip(got.e, want.e)):
            d = differ(a, b, care, path + '.%d' % i)
            if d:
                return d
        return None
    if isinstance(got, Alg) and isinstance(want, Alg):
        z = got.p.add(want.p, -1)
        if not z.m:
            return None
    if isinstance(got, Seq) and isinstance(want, Seq):
        lg, lw = got.length(), want.length()
        if isinstance(lg, int) and lg == lw:
            try:
                for i, (a, b) in enumerate(zip(got.items(), want.items())):
                    d = differ(a, b, care, path + '[%d]' % i)
                    if d:
                        return d
                return None
            except Undecided:
                pass
    return (path, got, want, care)


TIME, OBLIGATION_TIME = 720, 300
GRACE = 45      # after a first violation


class TimeUp(BaseException):
    pass


class Watch:
    """raises TimeUp in this thread after the given time"""

    def __init__(self, left):
        self.lock, self.on = threading.Lock(), True
        self.tid = ctypes.c_ulong(threading.get_ident())
        self.t = threading.Timer(left, self.fire)
        self.t.daemon = True
        old = threading.stack_size(1 << 18)
        self.t.start()
        threading.stack_size(old)

    def fire(self):
        with self.lock:
            if self.on:
                ctypes.pythonapi.PyThreadState_SetAsyncExc(self.tid, ctypes.py_object(TimeUp))

    def stop(self):
        with self.lock:
            self.on = False
        self.t.cancel()
        ctypes.pythonapi.PyThreadState_SetAsyncExc(self.tid, None)


def limit_memory(mb):
    import resource
    try:
        resource.setrlimit(resource.RLIMIT_AS, (mb << 20, mb << 20))
    except (ValueError, OSError):
        pass


class Check:
    def __init__(self, pid):
        self.pid = pid
        self.t0 = time.time()
        self.tier = os.environ.get('VERIF_TIER', 'quick')
        if self.tier not in ('quick', 'thorough'):
            self.tier = 'quick'
        self.seed = int(os.environ.get('VERIF_SEED', '1') or 1)
        self.results = []      # (name, status, detail)
        self.progs = {}
        self.visited = set()
        self.steps = 0
        self.sites = 0
        self.anchors = []
        self.samples = []
        self.notes = []
        self.partition = {}
        self.assumptions = []

    @property
    def thorough(self):
        return self.tier == 'thorough'

    def sizes(self, base, cap, room=8, least=0, unit=1):
        """base sizes, and those next to numbers new in the source (literals.py), which may count units of several elements"""
        have = set(base)
        add = []
        new = literals.new()
        for v in sorted(set(new) | {v * unit for v in new}):
            x = [y for y in (v - 1, v, v + 1) if least <= y <= cap and y not in have]
            if x and v <= cap:
                add.append(x)
        # the smallest and the largest
        add = add[:room - room // 2] + add[max(room - room // 2, len(add) - room // 2):]
        extra = sorted({y for x in add for y in x})
        if extra:
            self.notes.append('sizes added for numbers new in the source: %s' % extra)
        return list(base) + extra

    # ---- program access
    def prog(self, *feats):
        f = tuple(sorted(feats))
        if f not in self.progs:
            self.progs[f] = program.load(set(f))
        return self.progs[f]

    def interp(self, *feats):
        I = Interp(self.prog(*feats))
        self._track = getattr(self, '_track', [])
        self._track.append(I)
        return I

    def fn(self, I, path):
        d = I.prog.find(path)
        if d is None or getattr(d, 'kind', None) != 'fn':
            raise Missing('function %s' % path)
        self.anchors.append(d.path)
        return d

    def method(self, I, head, name, trait=None):
        ms = I.prog.method(head, name, trait)
        if not ms:
            fd = I.trait_default(head, name)
            if fd is not None:
                self.anchors.append(head + '::' + name)
                return fd
            raise Missing('method %s::%s' % (head, name))
        self.anchors.append(head + '::' + name)
        return ms[0][1]

    def run(self, I, d, args, self_ty=None, subst=None, st=None):
        """(value, state); value None if every path diverges"""
        st = st or State({}, 1)
        I.panics = []
        I.effects = []
        try:
            v = I.call(d, args, self_ty, subst, st)
        except Dead:
            return None, st
        return I.deref_deep(v, st), st

    # ---- obligations
    def ob(self, name, f):
        """run one obligation; f returns None (holds) or a description string"""
        left = min(OBLIGATION_TIME, TIME - (time.time() - self.t0)) if not self.thorough else 6 * 3600 - (time.time() - self.t0)
        n = len(self.results)
        left = min(left, self.grace())
        try:
            if left <= 0:
                raise TimeUp()
            w = Watch(left)
            try:
                self.ob1(name, f)
            finally:
                w.stop()
        except TimeUp:
            self.results[n:] = [(name, 'undecided', 'time budget used up')]

    def known(self):
        known = {}
        if os.path.exists(KNOWN):
            for l in open(KNOWN):
                l = l.strip()
                if l.startswith('known: property=%s ' % self.pid):
                    k, _, txt = l[len('known: property=%s ' % self.pid):].partition(' -- ')
                    known[k.strip()] = txt
        return known

    def grace(self):
        """seconds left for further obligations: unlimited until a violation is found"""
        if getattr(self, 'stop_at', None) is None:
            kn = self.known()
            if self.thorough or not any(s == 'violated' and n not in kn for n, s, d in self.results):
                return float('inf')
            self.stop_at = time.time() + GRACE
        return self.stop_at - time.time()

    def ob1(self, name, f):
        try:
            r = f()
            if r is None or r is True:
                self.results.append((name, 'discharged', ''))
            elif isinstance(r, tuple) and r[0] == 'undecided':
                self.results.append((name, 'undecided', r[1]))
            else:
                self.results.append((name, 'violated', str(r)))
        except Missing as e:
            self.results.append((name, 'violated', 'missing: %s' % e))
        except Violated as e:
            self.results.append((name, 'violated', str(e)))
        except Undecided as e:
            if os.environ.get('VERIF_DEBUG') == '2':
                traceback.print_exc()
            self.results.append((name, 'undecided', str(e)))
        except MemoryError:
            self.results.append((name, 'undecided', 'memory budget used up'))
        except RecursionError:
            self.results.append((name, 'undecided', 'analysis recursion limit'))
        except (KeyError, IndexError, AttributeError, TypeError, ValueError, AssertionError, NotImplementedError) as e:
            if os.environ.get('VERIF_DEBUG'):
                traceback.print_exc()
            tb = traceback.extract_tb(e.__traceback__)[-1]
            self.results.append((name, 'undecided', 'analyser limitation: %s %s (%s:%d)' % (type(e).__name__, e, os.path.basename(tb.filename), tb.lineno)))

    def pob(self, name, f):
        """like ob, but run later in a child process, alongside others (flush)"""
        self.pending = getattr(self, 'pending', [])
        self.pending.append((name, f))

    def flush(self):
        todo, self.pending = getattr(self, 'pending', []), []
        if not todo:
            return
        slots = [None] * len(todo)
        live = {}
        nxt = 0
        kn = self.known()
        sys.stdout.flush()
        sys.stderr.flush()
        while nxt < len(todo) or live:
            left = self.grace()
            if left <= 0:
                # a violation was found, and the time for looking further is over
                for fd, (i, pid, buf) in live.items():
                    os.kill(pid, 9)
                    os.waitpid(pid, 0)
                    os.close(fd)
                live, nxt = {}, len(todo)
                break
            while nxt < len(todo) and len(live) < 8:
                r, w = os.pipe()
                pid = os.fork()
                if pid == 0:
                    os.close(r)
                    try:
                        self._child(todo[nxt], w)
                    finally:
                        os._exit(0)
                os.close(w)
                live[r] = (nxt, pid, [])
                nxt += 1
            import select
            for fd in select.select(list(live), [], [], None if left == float('inf') else left)[0]:
                b = os.read(fd, 1 << 16)
                i, pid, buf = live[fd]
                if b:
                    buf.append(b)
                    continue
                os.close(fd)
                os.waitpid(pid, 0)
                del live[fd]
                try:
                    slots[i] = pickle.loads(b''.join(buf))
                except Exception:
                    continue
                if getattr(self, 'stop_at', None) is None and not self.thorough and any(s == 'violated' and n not in kn for n, s, d in slots[i][0]):
                    self.stop_at = time.time() + GRACE
        for (name, f), b in zip(todo, slots):
            try:
                res, vis, steps, sites, samples, anchors, notes, nfiles = b
            except Exception:
                self.results.append((name, 'undecided', 'the analysis of this obligation did not finish'))
                continue
            self.results += res
            self.visited |= vis
            self.steps += steps
            self.sites += sites
            for x in samples:
                self.sample(x)
            self.anchors += anchors
            self.notes += [x for x in notes if x not in self.notes]
            self.nfiles = max(getattr(self, 'nfiles', 0), nfiles)

    def _child(self, job, w):
        limit_memory(3584)
        self.results, self.samples, self.anchors, self.notes = [], [], [], []
        old = {id(I): (I, I.steps, I.sites) for I in getattr(self, '_track', [])}
        self._track = [I for I, _, _ in old.values()]
        self.ob(*job)
        vis, steps, sites = set(), 0, 0
        for I in self._track:
            _, a, b = old.get(id(I), (0, 0, 0))
            vis |= I.visited
            steps += I.steps - a
            sites += I.sites - b
        nf = max([len(getattr(p, 'files', ())) for p in self.progs.values()] or [0])
        b = pickle.dumps((self.results, vis, steps, sites, self.samples, self.anchors, self.notes, nf))
        while b:
            n = os.write(w, b)
            b = b[n:]

    def same(self, got, want, care=1, what='result', where='', also=()):
        """description of a difference, or None"""
        d = differ(got, want, care)
        if d is None:
            return None
        path, g, w, guard = d
        un = unmodelled(g) | unmodelled(Bool(guard))
        for x in also:
            un |= unmodelled(x)
        if un:
            return ('undecided', '%s%s uses unmodelled %s' % (what, path, ', '.join(sorted(un))[:200]))
        return '%s%s differs%s: computed %s, required %s%s' % (
            what, path, ' in ' + where if where else '', show(g)[:600], show(w)[:600],
            '' if guard == 1 else ' (when %s)' % show_bdd(guard, 2)[:300])

    def panicfree(self, I, care=1, what=''):
        for g, reason, where in I.panics:
            d = bdd.and_(g, care)
            if d != 0:
                un = unmodelled(Bool(d))
                if un:
                    return ('undecided', 'panic condition uses %s' % sorted(un))
                return '%s can panic (%s) at %s%s' % (what, reason, where, '' if d == 1 else ' when ' + show_bdd(d, 2)[:300])
        return None

    def sample(self, s):
        if len(self.samples) < 12:
            self.samples.append(s[:1500])

    # ---- verdict
    def finish(self, level, rule, floor, trusted, assumptions=()):
        self.flush()
        for I in getattr(self, '_track', []):
            self.visited |= I.visited
            self.steps += I.steps
            self.sites += I.sites
        viol = [(n, d) for n, s, d in self.results if s == 'violated']
        und = [(n, d) for n, s, d in self.results if s == 'undecided']
        dis = [n for n, s, d in self.results if s == 'discharged']
        if len(self.results) < floor:
            viol.append(('coverage', 'only %d obligations were found, at least %d expected' % (len(self.results), floor)))
        known = self.known()
        new = [(n, d) for n, d in viol if n not in known]
        old = [(n, d) for n, d in viol if n in known]
        for n, d in old:
            print('KNOWN-FINDING: property=%s %s: %s' % (self.pid, n, known[n]))
        for n, d in und:
            print('UNDECIDED property=%s obligation=%s: %s' % (self.pid, n, d[:400]))
        ev = {
            'property': self.pid, 'tier': self.tier, 'seed': self.seed, 'level': level,
            'coverage': {
                'explanation': rule,
                'obligations': len(self.results), 'discharged': len(dis),
                'undecided': ['%s: %s' % x for x in und][:40],
                'violated': ['%s: %s' % x for x in new][:40],
                'known_findings': ['%s: %s' % x for x in old],
                'obligation_names': [n for n, s, d in self.results][:400],
                'functions_analysed': sorted(self.visited),
                'anchors': sorted(set(self.anchors)),
                'expressions_interpreted': self.steps, 'call_sites': self.sites,
                'partition': self.partition,
                'source_files': max([len(getattr(p, 'files', ())) for p in self.progs.values()] + [getattr(self, 'nfiles', 0)]),
                'samples': self.samples or [n for n, s, d in self.results][:5],
                'trusted_base': list(trusted),
                'checker_cmd': 'python3 analyzer/check.py %s' % self.pid,
                'notes': self.notes,
            },
            'assumptions': list(assumptions),
            'wall_s': round(time.time() - self.t0, 3),
            'violations': len(new),
        }
        os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
        p = os.path.join(ROOT, 'evidence', self.pid + '.json')
        with open(p, 'w') as f:
            json.dump(ev, f, indent=1)
        print('property=%s obligations=%d discharged=%d undecided=%d violated=%d known=%d functions=%d wall=%.1fs' % (
            self.pid, len(self.results), len(dis), len(und), len(new), len(old), len(self.visited), time.time() - self.t0))
        if new:
            for n, d in new[:20]:
                print('  obligation %s: %s' % (n, d[:1500]))
            print('VIOLATION property=%s replay=%s' % (self.pid, p))
            return 1
        return 0
