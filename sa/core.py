"""Comparison of extracted value graphs with specification graphs, counterexample valuations, obligations.

A disagreement between two normal forms is reported as a violation only if an assignment of the
*input* atoms (bytes of the medium, arguments, outcomes of device operations) is exhibited under which
the two graphs evaluate to different values; otherwise the obligation stays undecided and is not reported.
"""
import os
import sys
import random
import re
import resource
import signal
import time
from interp import *
from terms import *
from feas import infeasible


class Missing(Exception):
    """an anchor of a check does not exist in the analysed program"""


class SectionTimeout(BaseException):
    pass


class Tainted(Exception):
    """evaluation reached an atom that is not an input (havoc, unsupported construct)"""


ALLOW_CALLS = re.compile(r'^$')


class Env:
    """assignment of input atoms; lazily completed"""

    def __init__(self, rnd, allow=None, pref=None):
        self.rnd = rnd
        self.mem = {}
        self.ints = {}
        self.bools = {}
        self.allow = allow
        self.pref = pref or {}
        self.used = []
        self.ok_cache = {}
        self.nmemo = {}

    # ---- taint
    def check(self, key):
        r = self.ok_cache.get(key)
        if r is None:
            r = self._check(key)
            self.ok_cache[key] = r
        if not r:
            raise Tainted(key)

    def _check(self, key, depth=0):
        if isinstance(key, tuple):
            if len(key) and isinstance(key[0], str):
                h = key[0]
                if h in ('lv', 'ret', 'mut', 'unk', 'gi', 'undef', '?', 'badpos', 'ite'):
                    return False
                if h == 'eqv' and any(isinstance(x, tuple) and len(x) and x[0] in ('seq', 'agg', 'enum') for x in key[1:]):
                    return False
                if h == 'call':
                    if not (self.allow and self.allow(key)):
                        return False
            return all(self._check(k, depth + 1) for k in key)
        if isinstance(key, (Atom,)):
            return self._check(key.key)
        if isinstance(key, Node):
            return all(self._check(v.key) for v in dvars(key)) and all(self._check(x) for x in leaves(key))
        if isinstance(key, Ptr):
            return self._check(key.alloc) and self._check(key.proj)
        return True

    # ---- evaluation
    def bufkey(self, k):
        """resolve a byte-source key under this assignment: sources whose keys evaluate alike are one"""
        return self.norm(k)

    def byte(self, buf, off):
        self.check(buf)
        buf = self.bufkey(buf)
        m = self.mem.get((buf, off))
        if m is None:
            m = self.rnd.choice((0, 0, 1, 255, self.rnd.randrange(256)))
            self.mem[(buf, off)] = m
        return m

    def setload(self, a, v):
        _, buf, off, n, en = a.key
        o = self.lin(off)
        buf = self.bufkey(buf)
        bs = [(v >> (8 * i)) & 255 for i in range(n)]
        if en == 'be':
            bs.reverse()
        self.nmemo.clear()
        for i, b in enumerate(bs):
            self.mem[(buf, o + i)] = b

    def atom(self, a):
        k = a.key
        h = k[0]
        if h == 'load':
            _, buf, off, n, en = k
            o = self.lin(off)
            bs = [self.byte(buf, o + i) for i in range(n)]
            if en == 'be':
                bs.reverse()
            return sum(b << (8 * i) for i, b in enumerate(bs))
        if h == 'bits':
            return (self.atom(k[1]) >> k[2]) & ((1 << k[3]) - 1)
        if h == 'wrap':
            return self.lin(k[1]) % (1 << k[2])
        if h == 'sx':
            v = self.lin(k[1]) % (1 << k[2])
            return v - (1 << k[2]) if v >> (k[2] - 1) else v
        if h in ('div', 'rem', 'divc'):
            x, y = self.lin(k[1]), self.lin(k[2])
            if y == 0:
                return 0
            return x // y if h == 'div' else x % y if h == 'rem' else -((-x) // y)
        if h in ('sdiv', 'srem'):
            x, y = self.lin(k[1]), self.lin(k[2])
            if y == 0:
                return 0
            q = abs(x) // abs(y)
            q = q if (x < 0) == (y < 0) else -q
            return q if h == 'sdiv' else x - q * y
        if h == 'mul':
            return self.lin(k[1]) * self.lin(k[2])
        if h in ('and', 'or', 'xor') and len(k) == 3 and isinstance(k[1], tuple):
            x, y = self.lin(k[1]), self.lin(k[2])
            return x & y if h == 'and' else x | y if h == 'or' else x ^ y
        if h == 'shl':
            s = self.lin(k[2])
            return (self.lin(k[1]) << min(s, 4096)) & ((1 << k[3]) - 1) if s >= 0 else 0
        if h == 'shr':
            return self.lin(k[1]) >> max(0, min(self.lin(k[2]), 4096))
        if h == 'pow':
            x, y = self.lin(k[1]), self.lin(k[2])
            if abs(y) > 4096:
                raise Tainted(k)
            return x ** y
        if h == 'bitcount':
            return bitcount(k[1], self.lin(k[2]), k[3])
        if h == 'bitrev':
            v = self.lin(k[1])
            return int(bin(v + (1 << k[2]))[3:][::-1], 2)
        self.check(k)
        if h == 'crc':
            return self.free_int(('crc',) + tuple(self.norm(x) for x in k[1:]), a)
        return self.free_int(self.norm(k), a)

    def norm(self, k):
        """key with embedded terms evaluated, so that equal inputs give equal values"""
        if isinstance(k, tuple):
            memo = self.nmemo if has_atoms(k) else _norm_fixed
            r = memo.get(id(k))
            if r is None:
                r = memo[id(k)] = (k, self.norm_tuple(k))
            return r[1]
        return self.norm_tuple(k)

    def norm_tuple(self, k):
        if isinstance(k, tuple):
            if len(k) == 2 and isinstance(k[0], int) and isinstance(k[1], tuple) and all(isinstance(p, tuple) and len(p) == 2 and isinstance(p[0], Atom) for p in k[1]):
                return self.lin(k)
            return tuple(self.norm(x) for x in k)
        if isinstance(k, Atom):
            return self.atom(k)
        if isinstance(k, (Node, Leaf)):
            v = self.node(k)
            return self.norm(v) if isinstance(v, tuple) else v
        return k

    def free_int(self, key, a):
        v = self.ints.get(key)
        if v is None:
            lo = a.lo if a.lo is not None else -(1 << 63)
            hi = a.hi if a.hi is not None else (1 << 64)
            c = self.rnd.random()
            if c < .3:
                v = lo + self.rnd.randrange(min(hi - lo + 1, 8))
            elif c < .4:
                v = hi - self.rnd.randrange(min(hi - lo + 1, 3))
            else:
                b = self.rnd.randrange(1, max((hi - lo).bit_length(), 1) + 1)
                v = lo + min(hi - lo, self.rnd.getrandbits(b))
            self.ints[key] = v
        return v

    def setatom(self, a, v):
        """try to give atom a the value v; True if it could be done"""
        if a.lo is not None and v < a.lo or a.hi is not None and v > a.hi:
            return False
        k = a.key
        h = k[0]
        if h == 'load':
            self.setload(a, v)
            return True
        if h == 'bits':
            old = self.atom(k[1])
            m = ((1 << k[3]) - 1) << k[2]
            return self.setatom(k[1], (old & ~m) | (v << k[2]))
        if h == 'wrap':
            return self.setlin(k[1], v)
        if h == 'sx':
            return self.setlin(k[1], v % (1 << k[2]))
        if h in ('div', 'divc'):
            y = self.lin(k[2])
            if y <= 0:
                return False
            return self.setlin(k[1], v * y + (self.rnd.randrange(y) if h == 'div' else 0))
        if h == 'rem':
            y = self.lin(k[2])
            if y <= v or y <= 0:
                return False
            x = self.lin(k[1])
            return self.setlin(k[1], x - x % y + v)
        if h == 'mul':
            x, y = self.lin(k[1]), self.lin(k[2])
            if y and v % y == 0 and self.rnd.random() < .5:
                return self.setlin(k[1], v // y)
            if x and v % x == 0:
                return self.setlin(k[2], v // x)
            return False
        if h == 'shr':
            s = self.lin(k[2])
            return 0 <= s < 256 and self.setlin(k[1], v << s)
        if h == 'shl':
            s = self.lin(k[2])
            return 0 <= s < 256 and v % (1 << s) == 0 and self.setlin(k[1], v >> s)
        if h in ('and', 'or', 'xor', 'pow', 'bitrev', 'bitcount', 'sdiv', 'srem'):
            return False
        try:
            self.check(k)
        except Tainted:
            return False
        self.ints[self.norm(k)] = v
        self.nmemo.clear()
        return True

    def setlin(self, l, v):
        """adjust one atom so that l == v"""
        ps = list(l[1])
        self.rnd.shuffle(ps)
        cur = self.lin(l)
        if cur == v:
            return True
        for a, k in ps:
            d = v - cur
            if d % k:
                continue
            if self.setatom(a, self.atom(a) + d // k) and self.lin(l) == v:
                return True
            cur = self.lin(l)
            if cur == v:
                return True
        return False

    def lin(self, l):
        r = l[0]
        for a, k in l[1]:
            r += k * self.atom(a)
        return r

    def bvar(self, v):
        k = v.key
        if k[0] == 'le':
            return self.lin(k[1]) <= 0
        if k[0] == 'eq':
            return self.lin(k[1]) == 0
        self.check(k)
        nk = self.norm(k)
        b = self.bools.get(nk)
        if b is None:
            b = self.rnd.random() < .7
            self.bools[nk] = b
        return b

    def setvar(self, v, want):
        k = v.key
        if k[0] in ('le', 'eq'):
            if self.bvar(v) == want:
                return True
            l = k[1]
            if k[0] == 'le':
                t = 0 if want else 1
                tgt = t if self.rnd.random() < .6 else (t - self.rnd.randrange(1 << self.rnd.randrange(1, 12)) if want else t + self.rnd.randrange(1 << self.rnd.randrange(1, 12)))
                ok = self.setlin(l, tgt)
                if not ok:
                    # the target may be unreachable with these coefficients: try a few more
                    for _ in range(4):
                        s = self.rnd.randrange(1 << self.rnd.randrange(1, 20))
                        if self.setlin(l, t - s if want else t + s):
                            break
                return self.bvar(v) == want
            if want:
                return self.setlin(l, 0)
            return self.setlin(l, self.rnd.choice((1, -1, 7, self.rnd.randrange(1, 1 << 16)))) or self.bvar(v) == want
        self.check(k)
        self.bools[self.norm(k)] = want
        self.nmemo.clear()
        return True

    def node(self, n):
        while isinstance(n, Node):
            n = n.hi if self.bvar(n.var) else n.lo
        return n.v

    def value(self, n):
        """leaf value, with integer terms evaluated"""
        v = self.node(n)
        return self.leafval(v)

    def leafval(self, v):
        if isinstance(v, bool):
            return v
        if isinstance(v, tuple) and len(v) == 2 and isinstance(v[0], int) and isinstance(v[1], tuple):
            return self.lin(v)
        if isinstance(v, (VOpq,)):
            self.check(v.key)
            return ('opq', self.norm(v.key))
        if isinstance(v, Ptr):
            raise Tainted(v)
        if isinstance(v, tuple):
            return self.norm(v)
        return v


_norm_fixed = {}
_atoms_in = {}


def has_atoms(k):
    """whether the key k depends on the assignment (by identity: keys are shared)"""
    if isinstance(k, (Atom, Node)):
        return True
    if isinstance(k, Leaf):
        return has_atoms(k.v)
    if not isinstance(k, tuple):
        return False
    r = _atoms_in.get(id(k))
    if r is None:
        r = _atoms_in[id(k)] = (k, any(has_atoms(x) for x in k))
    return r[1]


def islin(v):
    return isinstance(v, tuple) and len(v) == 2 and isinstance(v[0], int) and not isinstance(v[0], bool) and isinstance(v[1], tuple)


def diff_cubes(a, b, care, rnd, limit=60):
    """random guard assignments under which a and b reach different leaves and care holds"""
    memo = {}

    def f(c, x, y):
        if c is not True or x == y:
            return F
        if islin(x) and islin(y):
            return Not(eq(x, y))
        return T
    d = apply(f, care, a, b, memo=memo)
    if d is F:
        return d, []
    return d, None


class Nodelike:
    pass


def find_witness(a, b, care, seed=1, tries=None, allow=None, extra=()):
    """an Env under which care holds and a, b evaluate differently; None if none found"""
    rnd = random.Random(seed * 7919 + 13)
    d, _ = diff_cubes(a, b, care, rnd)
    if d is F:
        return None
    cnt = {}

    def paths(n):
        if n is T:
            return 1
        if n is F:
            return 0
        r = cnt.get(n.id)
        if r is None:
            r = paths(n.hi) + paths(n.lo)
            cnt[n.id] = r
        return r
    total = paths(d)
    tries = tries or 400
    for t in range(tries):
        # pick a cube
        n = d
        cube = []
        uniform = rnd.random() < .5
        while isinstance(n, Node):
            ph, pl = paths(n.hi), paths(n.lo)
            if ph == 0:
                w = False
            elif pl == 0:
                w = True
            else:
                w = rnd.random() < (.5 if uniform else ph / (ph + pl))
            cube.append((n.var, w))
            n = n.hi if w else n.lo
        env = Env(rnd, allow)
        try:
            for rnd_ in range(12):
                bad = [(v, w) for v, w in cube if env.bvar(v) != w]
                if not bad:
                    break
                rnd.shuffle(bad)
                for v, w in bad[:max(1, len(bad) // 2 + 1)]:
                    env.setvar(v, w)
            if env.node(care) is not True:
                continue
            va, vb = env.value(a), env.value(b)
            if va != vb:
                ok = True
                for x in extra:
                    if env.node(x) is not True:
                        ok = False
                if ok:
                    env.va, env.vb = va, vb
                    return env
        except Tainted:
            continue
        except (OverflowError, MemoryError, RecursionError):
            continue
    return None


def describe(env):
    """printable valuation"""
    out = []
    runs = {}
    for (buf, off), b in sorted(env.mem.items(), key=lambda x: (repr(x[0][0])[:200], x[0][1])):
        runs.setdefault(fmt_key(buf)[:120], []).append((off, b))
    for buf, l in runs.items():
        s = ''
        i = 0
        while i < len(l):
            j = i
            while j + 1 < len(l) and l[j + 1][0] == l[j][0] + 1:
                j += 1
            s += ' @%d:%s' % (l[i][0], ''.join('%02x' % b for _, b in l[i:j + 1]))
            i = j + 1
        out.append('bytes of %s:%s' % (buf, s[:1500]))
    for k, v in env.ints.items():
        out.append('%s = %d' % (fmt_key(k)[:160], v))
    for k, v in env.bools.items():
        out.append('%s = %s' % (fmt_key(k)[:160], v))
    return out[:80]


# ------------------------------------------------------------------ obligations
class Ob:
    __slots__ = ('key', 'status', 'where', 'text', 'witness', 'rule')

    def __init__(self, key, status, where, text='', witness=None, rule=''):
        self.key, self.status, self.where, self.text, self.witness, self.rule = key, status, where, text, witness, rule


class Check:
    """one property check: collects obligations"""

    def __init__(self, pid, prog, tier='quick', seed=1):
        self.pid, self.prog, self.tier, self.seed = pid, prog, tier, seed
        self.obs = []
        self.fns = set()
        self.notes = []
        self.rules = []
        self.events = 0
        self.tainted = 0
        self.strong = T

    # ---- anchors
    def fns_where(self, **kw):
        out = []
        for f in self.prog.F:
            if not f.get('local') or not f.get('root'):
                continue
            if '::tests::' in f['full']:
                continue
            ok = True
            for k, v in kw.items():
                x = f.get(k)
                if x is None or (not v.search(x) if hasattr(v, 'search') else x != v):
                    ok = False
                    break
            if ok:
                out.append(f)
        return out

    def fn(self, **kw):
        c = [f for f in self.fns_where(**kw) if f.get('body')]
        if not c:
            raise Missing('no function with %r' % {k: getattr(v, 'pattern', v) for k, v in kw.items()})
        return c[0]

    def method(self, selfpat, name, trait=None):
        """root method `name` of the type whose path matches selfpat"""
        kw = dict(impl_self=re.compile(selfpat), name=name)
        if trait:
            kw['impl_trait'] = re.compile(trait)
        c = [f for f in self.fns_where(**kw) if f.get('body')]
        if not trait:
            inh = [f for f in c if not f.get('impl_trait')]
            c = inh or c
        if not c:
            # the type may have moved to another module, or have its parameters named otherwise
            nm = re.findall(r'[A-Z]\w+', selfpat)
            kw['impl_self'] = re.compile(r'(^|::)%s(<|$)' % nm[0]) if nm else None
            c = [f for f in self.fns_where(**kw) if f.get('body')] if nm else []
            if len({re.sub('<.*', '', f['impl_self']) for f in c}) > 1:
                raise Unsupported('several types %s' % nm[0])
        if not c:
            raise Missing('no method %s of %s' % (name, selfpat))
        return c[0]

    def type(self, pat):
        for t in self.prog.T:
            if t.get('k') == 'adt' and re.search(pat, t['path']):
                return t
        raise Unsupported('no type ' + pat)

    # ---- sections: one failing part does not hide the others
    def section(self, name, f, *a, limit=120):
        t0 = time.time()
        old = signal.getitimer(signal.ITIMER_REAL)[0]
        oldh = signal.getsignal(signal.SIGALRM)

        def h(*_):
            raise SectionTimeout()
        lim = min(limit, old - 1) if old else limit
        if lim <= 0:
            raise SectionTimeout()
        signal.signal(signal.SIGALRM, h)
        signal.setitimer(signal.ITIMER_REAL, lim)
        try:
            return f(*a)
        except Missing as e:
            self.add(name, 'missing', '', str(e))
        except SectionTimeout:
            self.add(name, 'undecided', '', 'time limit of this part reached')
        except SOFT as e:
            self.add(name, 'undecided', '', 'analysis stopped: %s %s' % (type(e).__name__, str(e)[:300]))
            if os.environ.get('SA_DEBUG'):
                import traceback
                traceback.print_exc()
        except (RecursionError, MemoryError) as e:
            self.add(name, 'undecided', '', 'analysis stopped: %r' % (e,))
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
            signal.signal(signal.SIGALRM, oldh)
            if old:
                signal.setitimer(signal.ITIMER_REAL, max(old - (time.time() - t0), .5))

    def parallel(self, jobs, limit=150, workers=None):
        """sections in forked processes: (name, function, arguments...); results come back in order"""
        import pickle
        import select
        workers = workers or min(8, os.cpu_count() or 1)
        todo = list(enumerate(jobs))[::-1]
        live, res = {}, {}
        try:
            while todo or live:
                while todo and len(live) < workers:
                    i, (name, f, *a) = todo.pop()
                    rd, wr = os.pipe()
                    sys.stdout.flush()
                    pid = os.fork()
                    if pid == 0:
                        code = 0
                        try:
                            os.close(rd)
                            for fd, _, _ in live.values():
                                os.close(fd)
                            resource.setrlimit(resource.RLIMIT_AS, (4 << 30, 4 << 30))
                            signal.setitimer(signal.ITIMER_REAL, 0)
                            signal.signal(signal.SIGALRM, signal.SIG_DFL)
                            self.obs, self.fns, self.notes = [], set(), []
                            self.section(name, f, self, *a, limit=limit)
                            out = pickle.dumps(([(o.key, o.status, o.where, o.text, [str(x) for x in o.witness or []], o.rule) for o in self.obs], self.fns, self.notes))
                            with os.fdopen(wr, 'wb') as h:
                                h.write(out)
                        except BaseException:
                            code = 1
                        finally:
                            os._exit(code)
                    os.close(wr)
                    live[pid] = (rd, i, [])
                fds = {v[0]: p for p, v in live.items()}
                ready, _, _ = select.select(list(fds), [], [], 5)
                for fd in ready:
                    p = fds[fd]
                    b = os.read(fd, 1 << 20)
                    if b:
                        live[p][2].append(b)
                        continue
                    os.close(fd)
                    os.waitpid(p, 0)
                    _, i, parts = live.pop(p)
                    try:
                        res[i] = pickle.loads(b''.join(parts))
                    except Exception:
                        res[i] = ([(jobs[i][0], 'undecided', '', 'analysis stopped', [], '')], set(), [])
        finally:
            for p, (fd, i, _) in live.items():
                try:
                    os.kill(p, 9)
                    os.waitpid(p, 0)
                except OSError:
                    pass
                os.close(fd)
            for i in range(len(jobs)):
                if i not in res:
                    res[i] = ([(jobs[i][0], 'undecided', '', 'time limit reached', [], '')], set(), [])
            for i in sorted(res):
                o, fns, notes = res[i]
                self.obs += [Ob(*x) for x in o]
                self.fns |= fns
                self.notes += notes

    # ---- recording
    def add(self, key, status, where='', text='', witness=None, rule=''):
        self.obs.append(Ob(key, status, where, text, witness, rule))

    def equal(self, key, code, spec, where='', care=T, allow=None, rule='', pc=None):
        """obligation: code == spec wherever care holds"""
        care2 = care
        a, b = code, spec
        if care is F or infeasible(care, 20000):
            self.add(key, 'vacuous', where, 'the condition of this obligation cannot hold', rule=rule)
            return 'vacuous'
        if not isinstance(a, (Node, Leaf)) or not isinstance(b, (Node, Leaf)):
            self.add(key, 'undecided', where, 'not a scalar graph: %s' % repr(a)[:200], rule=rule)
            return 'undecided'
        d, _ = diff_cubes(a, b, care2, None)
        if d is F or infeasible(d):
            self.add(key, 'proved', where, rule=rule)
            return 'proved'
        if self.strong is not T:
            # not true under the wider condition: decide it under the one the property states
            care2 = And(care, self.strong)
            d, _ = diff_cubes(a, b, care2, None)
            if care2 is F or d is F or infeasible(d):
                self.add(key, 'proved', where, rule=rule)
                return 'proved'
        w = find_witness(a, b, care2, self.seed, allow=allow)
        if w is not None:
            self.add(key, 'violated', where, 'code gives %s, required %s' % (show_val(w.va), show_val(w.vb)), describe(w), rule=rule)
            return 'violated'
        self.add(key, 'undecided', where, 'normal forms differ, no separating valuation: code %s / spec %s' % (repr(a)[:300], repr(b)[:300]), rule=rule)
        return 'undecided'

    def holds(self, key, cond, where='', care=T, allow=None, rule=''):
        return self.equal(key, cond, T, where, care, allow, rule)

    def run(self, **kw):
        return Run(self, **kw)


def show_val(v):
    if isinstance(v, bool) or not isinstance(v, int):
        return str(v)[:200]
    return '%d (0x%x)' % (v, v)


def narrow(v, pc, memo):
    """value v on the paths satisfying pc"""
    k = id(v)
    if k in memo:
        return memo[k][1]
    r = v
    if isinstance(v, (Node, Leaf)):
        r = restrict(v, pc)
    elif isinstance(v, VAgg):
        f = [narrow(x, pc, memo) for x in v.f]
        if any(a is not b for a, b in zip(f, v.f)):
            r = VAgg(v.ty, f)
    elif isinstance(v, VEnum):
        alts = {}
        for i, (g, fs) in v.alts.items():
            g2 = restrict(g, pc)
            if And(g2, pc) is not F:
                alts[i] = (g2, [narrow(x, pc, memo) for x in fs] if fs is not None else None)
        r = VEnum(v.ty, alts)
    elif isinstance(v, VDev):
        r = VDev(v.ty, v.key, narrow(v.pos, pc, memo))
    elif isinstance(v, Seq):
        n = narrow(v.len, pc, memo) if v.len is not None else None
        if v.k == 'ite':
            g = restrict(v.a[0], pc)
            if g is T or g is F:
                r = narrow(v.a[1] if g is T else v.a[2], pc, memo)
            else:
                r = Seq('ite', n, g, narrow(v.a[1], pc, memo), narrow(v.a[2], pc, memo))
        elif v.k == 'const':
            xs = [narrow(x, pc, memo) for x in v.a[0]]
            if any(a is not b for a, b in zip(xs, v.a[0])):
                r = Seq('const', n, xs)
        elif v.k == 'sub':
            b = narrow(v.a[0], pc, memo)
            if b.k == 'const' and is_const(v.a[1]) and isinstance(n, Leaf) and is_const(n.v):
                o, m = v.a[1][0], n.v[0]
                r = Seq('const', n, b.a[0][o:o + m]) if 0 <= o and o + m <= len(b.a[0]) else Seq('sub', n, b, v.a[1])
            else:
                r = Seq('sub', n, b, v.a[1])
        elif v.k == 'push':
            b, x = narrow(v.a[0], pc, memo), narrow(v.a[1], pc, memo)
            r = Seq('const', L(len(b.a[0]) + 1), list(b.a[0]) + [x]) if b.k == 'const' else Seq('push', n, b, x)
        elif v.k == 'upd':
            r = Seq('upd', n, narrow(v.a[0], pc, memo), v.a[1], v.a[2], narrow(v.a[3], pc, memo), v.a[4])
        elif v.k == 'rep':
            r = Seq('rep', n, narrow(v.a[0], pc, memo))
    memo[k] = (v, r)
    return r


class Run:
    """one evaluation context: a store, threaded through calls"""

    def __init__(self, chk, **kw):
        self.chk = chk
        self.I = Interp(chk.prog, **kw)
        self.s = State(T, {})
        self.n = 0

    def call(self, f, *args):
        if isinstance(f, int):
            f = self.chk.prog.F[f]
        body = f['body']
        args = list(args)
        if len(args) != body['argc']:
            raise Unsupported('%s takes %d arguments, expected %d' % (f['full'], body['argc'], len(args)))
        r, s = self.I.run_fn(f['id'], args, self.s)
        self.chk.fns |= {self.I.F[x]['full'] for x in self.I.fns_seen}
        self.s = s
        return r

    def assume(self, cond):
        """continue only on the paths on which cond holds; what they left in memory is simplified accordingly"""
        self.s.pc = pc = And(self.s.pc, cond)
        if pc is F:
            return
        memo = {}
        for k, v in list(self.s.st.items()):
            self.s.st[k] = narrow(v, pc, memo)

    def arg_ty(self, f, i):
        return self.I.ty(f['body']['locals'][i + 1])

    def sym(self, key, ty):
        return self.I.sym(key, ty)

    def symargs(self, f, tag='arg'):
        return [self.I.sym((tag, i), f['body']['locals'][i + 1]) for i in range(f['body']['argc'])]

    def ref(self, v):
        self.n += 1
        al = ('D', ('harness', self.n))
        self.s.st[al] = v
        return P(al)

    def get(self, p):
        if isinstance(p, Leaf) and isinstance(p.v, Ptr):
            return self.I.read_ptr(p.v, self.s)
        return self.I.deref_read(p, self.s)

    # ---- projections
    def strip(self, v):
        """unwrap single-field wrappers (newtypes) down to a scalar / enum / sequence"""
        for _ in range(12):
            v = self.I.expand(v)
            if isinstance(v, VAgg):
                fs = [x for x in v.f if not self.iszst(x)]
                if len(fs) == 1:
                    v = fs[0]
                    continue
            break
        return v

    def iszst(self, x):
        if isinstance(x, VOpq) and x.key == ('zst',):
            return True
        if isinstance(x, (VAgg, VOpq)) and isinstance(x.ty, int):
            return self.I.ty(x.ty).get('size') == 0
        return False

    def field(self, v, name):
        v = self.I.expand(v)
        if not isinstance(v, VAgg) or not isinstance(v.ty, int):
            raise Unsupported('field %s of %r' % (name, v))
        t = self.I.ty(v.ty)
        if t['k'] == 'tuple':
            return v.f[int(name)]
        for i, f in enumerate(t['variants'][0]['fields']):
            if f[0] == name:
                return v.f[i]
        raise Unsupported('field %s of %s' % (name, t['name']))

    def variant(self, v, name):
        """(guard, fields) of enum variant"""
        v = self.I.expand(v)
        if not isinstance(v, VEnum):
            raise Unsupported('not an enum: %r' % (v,))
        t = self.I.ty(v.ty)
        for i, vv in enumerate(t['variants']):
            if vv['name'] == name:
                g, f = v.alts.get(i, (F, None))
                return g, f
        raise Unsupported('variant %s of %s' % (name, t['name']))

    def flat(self, v, path='', guard=T, out=None, depth=0):
        """flatten a value into {path: (guard, scalar graph)}"""
        if out is None:
            out = {}
        v = self.I.expand(v)
        if isinstance(v, (Node, Leaf)):
            ls = leaves(v)
            if ls and any(isinstance(x, Ptr) for x in ls):
                if isinstance(v, Leaf):
                    return self.flat(self.I.read_ptr(v.v, self.s), path, guard, out, depth + 1)
                for g, p in self.I.ptr_cases(v):
                    self.flat(self.I.read_ptr(p, self.s), path, And(guard, g), out, depth + 1)
                return out
            out.setdefault(path, []).append((guard, v))
        elif isinstance(v, VAgg):
            fs = [x for x in v.f if not self.iszst(x)]
            if len(fs) == 1:
                return self.flat(fs[0], path, guard, out, depth + 1)
            t = self.I.ty(v.ty) if isinstance(v.ty, int) else None
            for i, x in enumerate(v.f):
                nm = str(i)
                if t is not None and t['k'] == 'adt':
                    nm = t['variants'][0]['fields'][i][0]
                if not self.iszst(x):
                    self.flat(x, path + '.' + nm, guard, out, depth + 1)
        elif isinstance(v, VEnum):
            t = self.I.ty(v.ty)
            for i, (g, fs) in v.alts.items():
                nm = t['variants'][i]['name']
                out.setdefault(path + '?' + nm, []).append((guard, g))
                for j, x in enumerate(fs or []):
                    fn = t['variants'][i]['fields'][j][0]
                    p2 = path + '.' + nm + ('' if len(fs) == 1 else '.' + fn)
                    self.flat(x, p2, And(guard, g), out, depth + 1)
        elif isinstance(v, Seq):
            out.setdefault(path + '.len', []).append((guard, v.len))
            if isinstance(v.len, Leaf) and is_const(v.len.v):
                for i in range(v.len.v[0]):
                    self.flat(self.I.seq_get(v, const(i), None), '%s[%d]' % (path, i), guard, out, depth + 1)
            else:
                out.setdefault(path + '[]', []).append((guard, v))
        else:
            out.setdefault(path, []).append((guard, v))
        return out
