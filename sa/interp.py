"""Gated value-graph construction over MIR: abstract interpretation with interprocedural inlining.

Every function body is evaluated once per calling context, in reverse post-order; control-flow
joins merge the stores into decision diagrams guarded by the path condition (gated SSA), so the
result of a function is one normalised value graph over symbolic inputs rather than a set of paths.
Panics, device operations and calls to unknown code are recorded as guarded events.
"""
import json
from terms import *
import terms as T_


class Undef:
    def __repr__(self):
        return 'UNDEF'


UNDEF = Undef()


class Ptr:
    __slots__ = ('alloc', 'proj', '_h')

    def __init__(self, alloc, proj=()):
        self.alloc = alloc
        self.proj = proj
        self._h = hash((alloc, proj))

    def __eq__(self, o):
        return self is o or (isinstance(o, Ptr) and self._h == o._h and self.alloc == o.alloc and self.proj == o.proj)

    def __hash__(self):
        return self._h

    def __repr__(self):
        return '&%s%s' % (fmt_key(self.alloc), ''.join('.' + fmt_key(p) for p in self.proj))


def P(alloc, proj=()):
    return leaf(Ptr(alloc, tuple(proj)))


class VAgg:
    __slots__ = ('ty', 'f')

    def __init__(self, ty, f):
        self.ty = ty
        self.f = list(f)

    def __repr__(self):
        return 'Agg%r' % (self.f,)


class VEnum:
    """alts: {variant index: (guard diagram, [fields])}; guards partition the current context"""
    __slots__ = ('ty', 'alts')

    def __init__(self, ty, alts):
        self.ty = ty
        self.alts = alts

    def __repr__(self):
        return 'Enum{%s}' % ', '.join('%s if %r: %r' % (k, g, f) for k, (g, f) in self.alts.items())


class VOpq:
    __slots__ = ('key', 'ty')

    def __init__(self, key, ty):
        self.key = key
        self.ty = ty

    def __eq__(self, o):
        return isinstance(o, VOpq) and self.key == o.key and self.ty == o.ty

    def __hash__(self):
        return hash(self.key)

    def __repr__(self):
        return 'Opq' + fmt_key(self.key)


class VMap:
    """finite map with conditionally present entries [(guard, key value, value)]; insertion order"""
    __slots__ = ('ty', 'e')

    def __init__(self, ty, e):
        self.ty = ty
        self.e = list(e)

    def __repr__(self):
        return 'Map%r' % (self.e,)


class VDev:
    """a byte stream over a named medium, with its position"""
    __slots__ = ('ty', 'key', 'pos')

    def __init__(self, ty, key, pos):
        self.ty, self.key, self.pos = ty, key, pos

    def __repr__(self):
        return 'Dev(%s@%r)' % (fmt_key(self.key), self.pos)


class Seq:
    """contents of an array / slice / vector. Immutable."""
    __slots__ = ('k', 'a', 'len', '_key')

    def __init__(self, k, ln, *a):
        self.k = k
        self.len = ln  # Node (int diagram)
        self.a = a
        self._key = None

    def __repr__(self):
        return 'Seq:%s%r' % (self.k, self.a)


def L(n):
    """int diagram constant"""
    return leaf(const(n))


def LV(l):
    return leaf(l)


def int_range(ty):
    if ty['k'] == 'uint':
        return 0, (1 << ty['bits']) - 1
    if ty['k'] == 'int':
        return -(1 << (ty['bits'] - 1)), (1 << (ty['bits'] - 1)) - 1
    if ty['k'] == 'char':
        return 0, 0x10ffff
    return None


def map1(f, n):
    return apply(lambda v: leaf(f(v)), n)


def map2(f, a, b):
    return apply(lambda x, y: leaf(f(x, y)), a, b)


def prd(f, *ns):
    return apply(f, *ns)


class State:
    __slots__ = ('pc', 'st')

    def __init__(self, pc, st):
        self.pc = pc
        self.st = st

    def fork(self, pc=None):
        return State(self.pc if pc is None else pc, dict(self.st))


class Event:
    __slots__ = ('kind', 'pc', 'data', 'sp', 'stack', 'loops')

    def __init__(self, kind, pc, data, sp, stack, loops):
        self.kind, self.pc, self.data, self.sp, self.stack, self.loops = kind, pc, data, sp, stack, loops

    def __repr__(self):
        return 'Ev(%s %s @%s)' % (self.kind, self.data, self.sp)


class Unsupported(Exception):
    pass


SOFT = (Unsupported, AttributeError, TypeError, KeyError, IndexError, ValueError, AssertionError, ZeroDivisionError)


class Budget(Exception):
    """too long to follow; ends the analysis of the caller (never taken for an unknown value)"""
    pass


class Prog:
    def __init__(self, path):
        d = json.load(open(path))
        self.F = d['fns']
        self.T = d['types']
        self.consts = d['consts']
        self.files = d['files']
        self.by_path = {}
        for i, f in enumerate(self.F):
            f['id'] = i
            self.by_path.setdefault(f['path'], []).append(f)
        for i, t in enumerate(self.T):
            t['id'] = i
        self.cfg_cache = {}

    def roots(self):
        return [f for f in self.F if f['root']]

    def find(self, pred):
        return [f for f in self.F if f['root'] and pred(f)]

    def cfg(self, fid):
        c = self.cfg_cache.get(fid)
        if c is None:
            c = CFG(self.F[fid]['body'])
            self.cfg_cache[fid] = c
        return c


class CFG:
    def __init__(self, body):
        self.blocks = body['blocks']
        n = len(self.blocks)
        self.succ = []
        for b in self.blocks:
            t = b['t']
            k = t['k']
            if k == 'goto':
                s = [t['to']]
            elif k == 'switch':
                s = [x[1] for x in t['t']] + [t['else']]
            elif k in ('call', 'assert'):
                s = [t['to']] if t['to'] is not None else []
            else:
                s = []
            self.succ.append([x for x in dict.fromkeys(s) if not self.blocks[x]['cleanup']])
        # RPO
        seen = set()
        post = []
        stack = [(0, iter(self.succ[0]))]
        seen.add(0)
        while stack:
            b, it = stack[-1]
            for x in it:
                if x not in seen:
                    seen.add(x)
                    stack.append((x, iter(self.succ[x])))
                    break
            else:
                post.append(b)
                stack.pop()
        self.rpo = post[::-1]
        self.pos = {b: i for i, b in enumerate(self.rpo)}
        # dominators (iterative)
        pred = {b: [] for b in self.rpo}
        for b in self.rpo:
            for x in self.succ[b]:
                pred[x].append(b)
        self.pred = pred
        idom = {0: 0}
        ch = True
        while ch:
            ch = False
            for b in self.rpo[1:]:
                ps = [p for p in pred[b] if p in idom]
                r = ps[0]
                for p in ps[1:]:
                    x, y = p, r
                    while x != y:
                        while self.pos[x] > self.pos[y]:
                            x = idom[x]
                        while self.pos[y] > self.pos[x]:
                            y = idom[y]
                    r = x
                if idom.get(b) != r:
                    idom[b] = r
                    ch = True
        self.idom = idom
        # natural loops
        self.loops = {}
        for b in self.rpo:
            for x in self.succ[b]:
                if self.dominates(x, b):
                    body_ = self.loops.setdefault(x, set([x]))
                    st = [b]
                    while st:
                        y = st.pop()
                        if y not in body_:
                            body_.add(y)
                            st += pred[y]

    def dominates(self, a, b):
        while self.pos[b] > self.pos[a]:
            b = self.idom[b]
        return a == b


CALL_TRAITS = ('std::ops::FnOnce::call_once', 'std::ops::FnMut::call_mut', 'std::ops::Fn::call')


def decided(v, state, depth=4):
    """contents that depend on a condition the path has decided"""
    if not isinstance(v, Seq) or state.pc is T or state.pc is F:
        return v
    while v.k == 'ite':
        g = restrict(v.a[0], state.pc)
        if not isinstance(g, Leaf):
            return v
        v = v.a[1] if g is T else v.a[2]
    if depth and v.k == 'sub':
        x = decided(v.a[0], state, depth - 1)
        if x is not v.a[0]:
            return Seq('sub', v.len, x, *v.a[1:])
    elif depth and v.k == 'upd':
        base, off, ln, src, so = v.a
        x, y = decided(base, state, depth - 1), decided(src, state, depth - 1)
        if x is not base or y is not src:
            return Seq('upd', v.len, x, off, ln, y, so)
    return v


def affine(xs):
    """the elements as a function of their index, when all are the bytes of one source at evenly spaced places"""
    x = xs[0]
    if isinstance(x, Node):
        n = x.var
        if not all(isinstance(y, Node) and y.var is n for y in xs):
            return None
        hi = affine([y.hi for y in xs])
        lo = affine([y.lo for y in xs])
        if hi is None or lo is None:
            return None
        return lambda i: ite(mk(n, T, F), hi(i), lo(i))
    if not isinstance(x, Leaf) or not isinstance(x.v, tuple):
        return None
    if all(y is x for y in xs):
        return lambda i: x
    src, offs = None, []
    for y in xs:
        if not isinstance(y, Leaf) or not isinstance(y.v, tuple) or y.v[0] != 0 or len(y.v[1]) != 1 or y.v[1][0][1] != 1:
            return None
        k = y.v[1][0][0].key
        if k[0] != 'load' or k[3] != 1 or src is not None and k[1] != src:
            return None
        src = k[1]
        offs.append(k[2])
    d = sub(offs[1], offs[0])
    if not is_const(d) or any(sub(b, a) != d for a, b in zip(offs, offs[1:])):
        return None
    return lambda i: LV(load(src, add(offs[0], scale(i, d[0])), 1))


class Interp:
    def __init__(self, prog, max_depth=60, max_steps=400000):
        self.p = prog
        self.T = prog.T
        self.F = prog.F
        self.events = []
        self.unknown = {}
        self.stack = []
        self.loopctx = []
        self.ioerr_ty = {}
        self.fresh_n = {}
        self.lazy = {}
        self.frame_n = 0
        self.max_depth = max_depth
        self.steps = 0
        self.max_steps = max_steps
        self.models = {}
        self.calls_seen = {}
        self.fns_seen = set()
        self.opaque_local = set()   # local fn full names not to inline (summarised as pure/opaque)
        self.loop_log = []
        self.counted = []
        self.assume = T            # global assumptions (care set)
        self.unroll_flag = []
        self.type_inv = {}         # adt path -> fn(interp, VAgg, key) adding facts
        self.facts = []            # boolean diagrams assumed true (type invariants of symbolic inputs)
        import models, models2
        models.install(self)

    # ------------------------------------------------------------ naming
    def fresh(self, tag):
        """deterministic fresh key for an event at the current program point"""
        site = (tag, tuple(self.stack), tuple(self.loopctx))
        k = self.fresh_n.get(site, 0)
        self.fresh_n[site] = k + 1
        n = self.fresh_n.setdefault('#' + tag, 0)
        self.fresh_n['#' + tag] = n + 1
        return (tag, n)

    def ty(self, i):
        return self.T[i] if isinstance(i, int) else i

    # ------------------------------------------------------------ symbolic values by type
    def sym(self, key, ty):
        ty = self.ty(ty)
        k = ty['k']
        if k == 'bool':
            return bvar(('b', key))
        r = int_range(ty)
        if r:
            return LV(var(key, r[0], r[1]))
        if k in ('ref', 'ptr'):
            return self.symref(key, self.ty(ty['elem']))
        if k == 'adt':
            p = ty['path']
            if p in ('std::boxed::Box', 'std::rc::Rc', 'std::sync::Arc') and ty['args']:
                return self.symref(key, self.ty(ty['args'][0]))
            if p == 'std::vec::Vec':
                al = ('D', key)
                self.lazy.setdefault(al, ('seq', key, ty['args'][0]))
                return P(al)
        if k == 'array':
            n = ty['len']
            return Seq('abs', L(n) if n is not None else LV(var(('len', key), 0, 2**63 - 1)), key, ty['elem'])
        if k in ('fndef',) or (k == 'tuple' and not ty['fields']) or ty.get('size') == 0 and k == 'adt':
            return self.expand(VOpq(key, ty['id'])) if k != 'fndef' else VOpq(('zst',), ty['id'])
        return VOpq(key, ty['id'])

    def symref(self, key, ety):
        al = ('D', key)
        if ety['k'] in ('slice', 'str'):
            el = ety['elem'] if ety['k'] == 'slice' else 'u8'
            self.lazy.setdefault(al, ('seq', key, el))
            return P(al, (('sl', const(0), var(('len', key), 0, 2**63 - 1)),))
        self.lazy.setdefault(al, ('val', key, ety['id']))
        return P(al)

    def u8(self):
        for t in self.T:
            if t['name'] == 'u8':
                return t['id']

    def expand(self, v):
        """one level expansion of an opaque value"""
        if not isinstance(v, VOpq):
            return v
        ty = self.ty(v.ty)
        k = ty['k']
        if k in ('tuple', 'closure'):
            return VAgg(ty['id'], [self.sym((v.key, i), t) for i, t in enumerate(ty['fields'])])
        if k == 'adt':
            if ty['adt'] == 'struct':
                r = VAgg(ty['id'], [self.sym((v.key, f[0]), f[1]) for f in ty['variants'][0]['fields']])
                inv = self.type_inv.get(ty['path'])
                if inv and ('inv', v.key) not in self.calls_seen:
                    self.calls_seen[('inv', v.key)] = 1
                    for fact in inv(self, r, v.key) or []:
                        self.facts.append(fact)
                return r
            if ty['adt'] == 'enum':
                n = len(ty['variants'])
                if n == 0:
                    return v
                d = var(('discr', v.key), 0, n - 1)
                alts = {}
                for i, vv in enumerate(ty['variants']):
                    alts[i] = (eq(d, const(i)) if n > 1 else T, [self.sym((v.key, vv['name'], f[0]), f[1]) for f in vv['fields']])
                return VEnum(ty['id'], alts)
        return v

    # ------------------------------------------------------------ merging
    def is_ioerr(self, t):
        r = self.ioerr_ty.get(t)
        if r is None:
            r = self.ioerr_ty[t] = self.ty(t).get('path') == 'std::io::Error'
        return r

    def vite(self, c, a, b):
        if c is T or a is b:
            return a
        if c is F:
            return b
        if a is UNDEF:
            return b
        if b is UNDEF:
            return a
        na, nb = isinstance(a, (Node, Leaf)), isinstance(b, (Node, Leaf))
        if na and nb:
            return ite(c, a, b)
        if isinstance(a, VOpq) and isinstance(b, VOpq):
            if a == b:
                return a
            if not self.is_ioerr(a.ty):
                ea, eb = self.expand(a), self.expand(b)
                if ea is not a and eb is not b:
                    return self.vite(c, ea, eb)
            return VOpq(('ite', c, a.key, b.key), a.ty)
        if isinstance(a, VOpq) and not na:
            e = self.expand(a)
            if e is not a:
                return self.vite(c, e, b)
        if isinstance(b, VOpq) and not nb:
            e = self.expand(b)
            if e is not b:
                return self.vite(c, a, e)
        if isinstance(a, VAgg) and isinstance(b, VAgg) and len(a.f) == len(b.f):
            return VAgg(a.ty, [self.vite(c, x, y) for x, y in zip(a.f, b.f)])
        if isinstance(a, VEnum) and isinstance(b, VEnum):
            alts = {}
            for k in sorted(set(a.alts) | set(b.alts)):
                ga, fa = a.alts.get(k, (F, None))
                gb, fb = b.alts.get(k, (F, None))
                g = ite(c, ga, gb)
                if g is F:
                    continue
                if fa is None or ga is F:
                    f = fb
                elif fb is None or gb is F:
                    f = fa
                else:
                    cc = restrict(c, g) if False else c
                    # where only one side is live take it
                    sel = restrict(And(c, ga), Or(And(c, ga), And(Not(c), gb)))
                    f = [self.vite(sel, x, y) for x, y in zip(fa, fb)]
                alts[k] = (g, f)
            return VEnum(a.ty, alts)
        if isinstance(a, Seq) and isinstance(b, Seq):
            if self.seq_key(a) == self.seq_key(b):
                return a
            if a.k == 'const' and b.k == 'const' and len(a.a[0]) == len(b.a[0]):
                return Seq('const', a.len, [self.vite(c, x, y) for x, y in zip(a.a[0], b.a[0])])
            return Seq('ite', ite(c, a.len, b.len), c, a, b)
        if isinstance(a, VMap) and isinstance(b, VMap):
            out = []
            used = set()
            kb = [self.vkey(e[1], {}) for e in b.e]
            for g, k, v in a.e:
                kk = self.vkey(k, {})
                j = next((j for j in range(len(b.e)) if j not in used and kb[j] == kk), None)
                if j is None:
                    out.append((And(c, g), k, v))
                else:
                    used.add(j)
                    gb = b.e[j][0]
                    ng = ite(c, g, gb)
                    sel = restrict(And(c, g), ng) if ng is not F else T
                    out.append((ng, k, self.vite(sel, v, b.e[j][2])))
            for j, (g, k, v) in enumerate(b.e):
                if j not in used:
                    out.append((And(Not(c), g), k, v))
            return VMap(a.ty, [e for e in out if e[0] is not F])
        if isinstance(a, VDev) and isinstance(b, VOpq):
            b = VDev(b.ty, b.key, LV(var(('pos0', b.key), 0, 2**63 - 1)))
        if isinstance(b, VDev) and isinstance(a, VOpq):
            a = VDev(a.ty, a.key, LV(var(('pos0', a.key), 0, 2**63 - 1)))
        if isinstance(a, VDev) and isinstance(b, VDev):
            if a.key == b.key:
                return VDev(a.ty, a.key, ite(c, a.pos, b.pos))
            return VDev(a.ty, ('ite', c, a.key, b.key), ite(c, a.pos, b.pos))
        # incompatible shapes (e.g. opaque handle vs. known value)
        ka, kb = self.vkey(a, {}), self.vkey(b, {})
        if ka == kb:
            return a
        ty = a.ty if isinstance(a, (VOpq, VAgg, VEnum)) else (b.ty if isinstance(b, (VOpq, VAgg, VEnum)) else None)
        return VOpq(('ite', c, ka, kb), ty if ty is not None else 0)

    def merge(self, states):
        states = [s for s in states if s.pc is not F]
        if not states:
            return None
        if len(states) == 1:
            return states[0]
        acc = states[-1]
        pc = acc.pc
        st = acc.st
        for s in reversed(states[:-1]):
            tot = Or(s.pc, pc)
            c = restrict(s.pc, tot)
            if st is s.st:
                pc = tot
                continue
            new = {}
            for k in st.keys() | s.st.keys():
                x = s.st.get(k)
                y = st.get(k)
                if x is y:
                    new[k] = x
                elif x is None:
                    x = self.default(k)
                    new[k] = y if x is None else self.vite(c, x, y)
                elif y is None:
                    y = self.default(k)
                    new[k] = x if y is None else self.vite(c, x, y)
                else:
                    new[k] = self.vite(c, x, y)
            st = new
            pc = tot
        return State(pc, st)

    def default(self, al):
        z = self.lazy.get(al)
        if z is None:
            return None
        if z[0] == 'seq':
            return Seq('abs', LV(var(('len', z[1]), 0, 2**63 - 1)), z[1], z[2])
        if z[0] == 'val':
            return self.sym(('*', z[1]), z[2])
        if z[0] == 'const':
            return z[1]
        return None

    # ------------------------------------------------------------ keys
    def vkey(self, v, st, depth=0):
        """hashable canonical key of a value (dereferencing pointers)"""
        if isinstance(v, (Node, Leaf)):
            if any(isinstance(x, Ptr) for x in leaves(v)) and depth < 6:
                def f(p):
                    if isinstance(p, Ptr):
                        try:
                            return leaf(('&', self.vkey(self.read_ptr(p, State(T, st)), st, depth + 1)))
                        except Unsupported:
                            return leaf(('&', p.alloc, p.proj))
                    return leaf(p)
                v = apply(f, v)
            if isinstance(v, Leaf):
                return v.v
            return v
        if isinstance(v, VAgg):
            return ('agg', v.ty) + tuple(self.vkey(x, st, depth) for x in v.f)
        if isinstance(v, VEnum):
            return ('enum', v.ty) + tuple((k, g, tuple(self.vkey(x, st, depth) for x in f)) for k, (g, f) in sorted(v.alts.items()))
        if isinstance(v, VOpq):
            return v.key
        if isinstance(v, Seq):
            return self.seq_key(v)
        if isinstance(v, VMap):
            return ('map',) + tuple((g, self.vkey(k, st, depth), self.vkey(x, st, depth)) for g, k, x in v.e)
        if isinstance(v, VDev):
            return ('dev', v.key, v.pos)
        if v is UNDEF:
            return ('undef',)
        return ('?', repr(v))

    def seq_key(self, s):
        if s._key is None:
            if s.k == 'abs':
                r = ('seq', s.a[0])
            elif s.k == 'const':
                r = ('seqc',) + tuple(self.vkey(x, {}) for x in s.a[0])
            elif s.k == 'ite':
                r = ('ite', s.a[0], self.seq_key(s.a[1]), self.seq_key(s.a[2]))
            elif s.k == 'rep':
                r = ('rep', self.vkey(s.a[0], {}), s.len)
            elif s.k == 'upd':
                base, off, ln, src, so = s.a
                r = ('upd', self.seq_key(base), off, ln, self.seq_key(src), so)
            elif s.k == 'sub':
                r = ('sub', self.seq_key(s.a[0]), s.a[1], s.len)
            elif s.k == 'push':
                r = ('push', self.seq_key(s.a[0]), self.vkey(s.a[1], {}))
            elif s.k == 'gen':
                r = ('gen', s.len, self.vkey(s.a[0](var(('gi',), 0, 2**63 - 1)), s.a[1]))
            else:
                r = ('seq?', id(s))
            s._key = r
        return s._key

    # ------------------------------------------------------------ sequences
    def seq_get(self, s, i, ety):
        """element i (Lin) of seq"""
        if s.k == 'abs':
            key, el = s.a[0], s.a[1]
            t = self.ty(el) if el != 'u8' else {'k': 'uint', 'bits': 8}
            if t['k'] == 'uint' and t['bits'] == 8:
                return LV(load(key, i, 1))
            if t['k'] == 'array' and self.ty(t['elem'])['name'] == 'u8':
                return Seq('sub', L(t['len']), Seq('abs', None, key, 'u8'), scale(i, t['len']))
            return self.sym(('elem', key, i), el)
        if s.k == 'const':
            if is_const(i):
                if 0 <= i[0] < len(s.a[0]):
                    return s.a[0][i[0]]
                return UNDEF
            if len(s.a[0]) >= 16:
                f = affine(s.a[0])
                if f is not None:
                    return f(i)
            r = s.a[0][-1] if s.a[0] else UNDEF
            for j in range(len(s.a[0]) - 2, -1, -1):
                r = self.vite(eq(i, const(j)), s.a[0][j], r)
            return r
        if s.k == 'rep':
            return s.a[0]
        if s.k == 'ite':
            return self.vite(s.a[0], self.seq_get(s.a[1], i, ety), self.seq_get(s.a[2], i, ety))
        if s.k == 'sub':
            return self.seq_get(s.a[0], add(i, s.a[1]), ety)
        if s.k == 'upd':
            base, off, ln, src, so = s.a
            inside = And(le(off, i), lt(i, add(off, ln)))
            if inside is T:
                return self.seq_get(src, add(sub(i, off), so), ety)
            if inside is F:
                return self.seq_get(base, i, ety)
            return self.vite(inside, self.seq_get(src, add(sub(i, off), so), ety), self.seq_get(base, i, ety))
        if s.k == 'push':
            base, x = s.a
            def f(bl):
                return eq(i, bl)
            c = apply(f, base.len)
            return self.vite(c, x, self.seq_get(base, i, ety))
        if s.k == 'gen':
            return s.a[0](i)
        raise Unsupported('seq_get ' + s.k)

    def seq_sub(self, s, off, ln):
        if s.k == 'sub':
            return self.seq_sub(s.a[0], add(off, s.a[1]), ln)
        if s.k == 'const' and is_const(off) and isinstance(ln, Leaf) and is_const(ln.v) and 0 <= off[0] and off[0] + ln.v[0] <= len(s.a[0]):
            return Seq('const', ln, s.a[0][off[0]:off[0] + ln.v[0]])
        if off == const(0) and ln is s.len:
            return s
        if s.k == 'upd' and isinstance(ln, Leaf):
            base, o2, l2, src, so = s.a
            if And(le(o2, off), le(add(off, ln.v), add(o2, l2))) is T:
                return self.seq_sub(src, add(sub(off, o2), so), ln)
            if Or(le(add(off, ln.v), o2), le(add(o2, l2), off)) is T:
                return self.seq_sub(base, off, ln)
        return Seq('sub', ln, s, off)

    def seq_write(self, s, off, ln, src, so=const(0)):
        if s.k == 'const' and is_const(off) and is_const(ln):
            items = list(s.a[0])
            for j in range(ln[0]):
                if 0 <= off[0] + j < len(items):
                    items[off[0] + j] = self.seq_get(src, add(so, const(j)), None)
            return Seq('const', s.len, items)
        if s.k == 'sub':
            pass
        return Seq('upd', s.len, s, off, ln, src, so)

    def read_bytes_int(self, s, n, endian):
        """integer made of the first n bytes of seq (constant length)"""
        r = L(0)
        for j in range(n):
            b = self.seq_get(s, const(j), None)
            sh = 8 * j if endian == 'le' else 8 * (n - 1 - j)
            r = map2(lambda x, y: add(x, scale(y, 1 << sh)), r, b)
        return r

    # ------------------------------------------------------------ places
    def project(self, v, pr, state):
        """apply one projection element to a value"""
        k = pr[0]
        if k == 'f':
            if isinstance(v, VOpq):
                v = self.expand(v)
            if isinstance(v, VAgg):
                if pr[1] >= len(v.f):
                    if v.ty is None:
                        return UNDEF
                    raise Unsupported('field %s of %r' % (pr[1], v.ty))
                return v.f[pr[1]]
            if isinstance(v, VEnum) and len(v.alts) >= 1:
                # field of a downcast-less access: single variant
                (kk, (g, f)), = [x for x in v.alts.items()][:1]
                return f[pr[1]]
            if isinstance(v, (Node, Leaf)):
                return v  # Box/Unique/NonNull wrappers are transparent
            if isinstance(v, VOpq):
                return VOpq((v.key, pr[1]), pr[2] if len(pr) > 2 else v.ty)
            if v is UNDEF:
                return UNDEF
            if isinstance(v, Seq) and self.transparent(pr):
                return v
            raise Unsupported('field of %r' % (v,))
        if k == 'v':
            v = self.expand(v)
            if isinstance(v, VEnum):
                if pr[1] not in v.alts:
                    return UNDEF
                return VAgg(v.ty, v.alts[pr[1]][1])
            if v is UNDEF:
                return UNDEF
            raise Unsupported('downcast of %r' % (v,))
        if k == 'm' or k == 'mk':
            if isinstance(v, VMap) and pr[1] < len(v.e):
                return v.e[pr[1]][2 if k == 'm' else 1]
            raise Unsupported('map entry of %r' % (v,))
        if k == 'i':
            if isinstance(v, Seq):
                return self.seq_get(v, pr[1], None)
            if v is UNDEF:
                return UNDEF
            raise Unsupported('index of %r' % (v,))
        if k == 'sl':
            if isinstance(v, Seq):
                return self.seq_sub(v, pr[1], LV(pr[2]))
            raise Unsupported('slice of %r' % (v,))
        raise Unsupported(str(pr))

    def transparent(self, pr):
        """a field which is all there is of a text, such as the bytes of a String"""
        if len(pr) < 3 or pr[1] != 0 or pr[2] is None or isinstance(pr[2], tuple):
            return False
        t = self.ty(pr[2])
        return t['k'] in ('slice', 'str') or t.get('path') == 'std::vec::Vec' or t.get('path', '').startswith(('std::sys::os_str::', 'std::sys_common::wtf8', 'std::ffi::OsStr'))

    def read_ptr(self, p, state):
        v = state.st.get(p.alloc)
        if v is None:
            v = self.default(p.alloc)
            if v is None:
                raise Unsupported('dangling %r' % (p,))
        v = decided(v, state)
        for e in p.proj:
            v = decided(self.project(v, e, state), state)
        return v

    def write_into(self, v, proj, new, c, state):
        """functional update of value v at proj under condition c"""
        if not proj:
            return self.vite(c, new, v) if c is not T else new
        e = proj[0]
        k = e[0]
        if k == 'f':
            if v is UNDEF:
                if len(proj) > 1 and c is not T:
                    return UNDEF
                return self._undef_field(e, self.write_into(UNDEF, proj[1:], new, c, state))
            v = self.expand(v)
            if isinstance(v, VAgg):
                f = list(v.f)
                while len(f) <= e[1]:
                    f.append(UNDEF)
                f[e[1]] = self.write_into(f[e[1]], proj[1:], new, c, state)
                return VAgg(v.ty, f)
            if isinstance(v, Seq) and self.transparent(e):
                return self.write_into(v, proj[1:], new, c, state)
            raise Unsupported('write field of %r' % (v,))
        if k == 'v':
            v = self.expand(v)
            if isinstance(v, VEnum):
                if e[1] not in v.alts:
                    return v
                g, f = v.alts[e[1]]
                a = self.write_into(VAgg(v.ty, f), proj[1:], new, c, state)
                alts = dict(v.alts)
                alts[e[1]] = (g, a.f)
                return VEnum(v.ty, alts)
        if k == 'm' and isinstance(v, VMap):
            e2 = list(v.e)
            g, kk, x = e2[e[1]]
            e2[e[1]] = (g, kk, self.write_into(x, proj[1:], new, c, state))
            return VMap(v.ty, e2)
        if k == 'i' and isinstance(v, Seq):
            old = self.seq_get(v, e[1], None) if len(proj) > 1 or c is not T else UNDEF
            x = self.write_into(old, proj[1:], new, c, state)
            return self.seq_write(v, e[1], const(1), Seq('const', L(1), [x]))
        if k == 'sl' and isinstance(v, Seq):
            if len(proj) == 1:
                if not isinstance(new, Seq):
                    raise Unsupported('write non-seq to slice')
                r = self.seq_write(v, e[1], e[2], new)
                return r if c is T else self.vite(c, r, v)
            e2 = proj[1]
            if e2[0] == 'i':
                return self.write_into(v, (('i', add(e[1], e2[1])),) + tuple(proj[2:]), new, c, state)
            if e2[0] == 'sl':
                return self.write_into(v, (('sl', add(e[1], e2[1]), e2[2]),) + tuple(proj[2:]), new, c, state)
        raise Unsupported('write %s of %r' % (e, v))

    def _undef_field(self, e, new):
        f = [UNDEF] * (e[1] + 1)
        f[e[1]] = new
        return VAgg(None, f)

    def write_ptr(self, p, new, state, c=T):
        v = state.st.get(p.alloc)
        if v is None:
            v = self.default(p.alloc)
            if v is None:
                v = UNDEF
        state.st[p.alloc] = self.write_into(v, p.proj, new, c, state)

    def deref_read(self, n, state):
        """read through a pointer diagram"""
        if isinstance(n, VOpq):
            raise Unsupported('deref opaque %r' % (n,))
        return self.fold_ptr(n, lambda p: self.read_ptr(p, state))

    def fold_ptr(self, n, f):
        if isinstance(n, Leaf):
            if not isinstance(n.v, Ptr):
                raise Unsupported('not a pointer: %r' % (n,))
            return f(n.v)
        r = None
        for c, p in self.ptr_cases(n):
            if not isinstance(p, Ptr):
                raise Unsupported('not a pointer: %r' % (p,))
            x = f(p)
            r = x if r is None else self.vite(c, x, r)
        return r

    def deref_write(self, n, v, state):
        if isinstance(n, Leaf):
            if not isinstance(n.v, Ptr):
                raise Unsupported('not a pointer: %r' % (n,))
            self.write_ptr(n.v, v, state)
            return
        for cond, p in self.ptr_cases(n):
            self.write_ptr(p, v, state, cond)

    def ptr_cases(self, n):
        out = []
        for p in dict.fromkeys(leaves(n)):
            c = apply(lambda x: T if x == p else F, n)
            out.append((c, p))
        return out

    def place_ptr(self, fr, pl, state):
        """pointer diagram for a MIR place"""
        cur = P(('L', fr, pl[0]))
        for e in pl[1:]:
            k = e[0]
            if k == 'deref':
                cur = self.deref_read(cur, state)
                if not isinstance(cur, (Node, Leaf)):
                    cur2 = self.as_pointer(cur)
                    if cur2 is None:
                        raise Unsupported('deref of %r' % (cur,))
                    cur = cur2
            elif k == 'field':
                cur = apply(lambda p: leaf(Ptr(p.alloc, p.proj + (('f', e[1]),))), cur)
            elif k == 'downcast':
                cur = apply(lambda p: leaf(Ptr(p.alloc, p.proj + (('v', e[1]),))), cur)
            elif k == 'index':
                iv = state.st[('L', fr, e[1])]
                cur = apply(lambda p, i: leaf(self.padd(p, ('i', i))), cur, iv)
            elif k == 'cindex':
                if e[3]:
                    ln = self.place_len(cur, state)
                    cur = apply(lambda p, n: leaf(self.padd(p, ('i', add(n, const(-e[1]))))), cur, ln)
                else:
                    cur = apply(lambda p: leaf(self.padd(p, ('i', const(e[1])))), cur)
            elif k == 'subslice':
                ln = self.place_len(cur, state)
                if e[3]:
                    cur = apply(lambda p, n: leaf(self.padd(p, ('sl', const(e[1]), add(n, const(-e[1] - e[2]))))), cur, ln)
                else:
                    cur = apply(lambda p: leaf(self.padd(p, ('sl', const(e[1]), const(e[2] - e[1])))), cur)
            elif k == 'cast':
                pass
            else:
                raise Unsupported('place ' + str(e))
        return cur

    def padd(self, p, e):
        if p.proj and p.proj[-1][0] == 'sl':
            s = p.proj[-1]
            if e[0] == 'i':
                return Ptr(p.alloc, p.proj[:-1] + (('i', add(s[1], e[1])),))
            if e[0] == 'sl':
                return Ptr(p.alloc, p.proj[:-1] + (('sl', add(s[1], e[1]), e[2]),))
        return Ptr(p.alloc, p.proj + (e,))

    def as_pointer(self, v):
        """Box/Unique/NonNull/Rc-like structs wrapping a pointer"""
        seen = 0
        while isinstance(v, VAgg) and v.f and seen < 6:
            v = v.f[0]
            seen += 1
        return v if isinstance(v, (Node, Leaf)) else None

    def ptr_len(self, p, state):
        if p.proj and p.proj[-1][0] == 'sl':
            return LV(p.proj[-1][2])
        v = self.read_ptr(p, state)
        if isinstance(v, Seq):
            return v.len
        raise Unsupported('len of %r' % (p,))

    def place_len(self, n, state):
        return self.fold_ptr(n, lambda p: self.ptr_len(p, state))

    def read_place(self, fr, pl, state):
        # fast path without going through pointers for non-deref prefixes
        v = state.st.get(('L', fr, pl[0]), UNDEF)
        i = 1
        while i < len(pl):
            e = pl[i]
            k = e[0]
            if k == 'field':
                v = decided(self.project(v, ('f', e[1], e[2]), state), state)
            elif k == 'downcast':
                v = self.project(v, ('v', e[1]), state)
            elif k == 'cast':
                pass
            else:
                break
            i += 1
        if i == len(pl):
            return decided(v, state)
        return self.deref_read(self.place_ptr(fr, pl, state), state)

    # ------------------------------------------------------------ operands / rvalues
    def operand(self, fr, o, state):
        k = o[0]
        if k in ('copy', 'move'):
            return self.read_place(fr, o[1], state)
        if k == 'const':
            return self.constant(o[1], state)
        if k == 'rtcheck':
            return F
        raise Unsupported('operand')

    def constant(self, c, state):
        ty = self.ty(c['ty'])
        if ty['k'] in ('fndef',):
            return VOpq(('zst',), ty['id'])
        v = c.get('val')
        if v is None:
            if 'promoted' in c:
                # promoted constant of a generic body: evaluate its MIR
                body = c['promoted']
                r, st2 = self.run_body(('promoted', c['uneval']), body, [], state.fork(T))
                al = ('K', c['uneval'], id(c))
                # the promoted returns a reference into its own frame; keep those allocs
                for k, x in st2.st.items():
                    if k not in state.st:
                        state.st[k] = x
                return r
            if 'uneval' in c:
                return self.sym(('const', c['uneval']), c['ty'])
            return self.sym(('const', c.get('cty', '?')), c['ty'])
        return self.const_val(v, ty)

    def const_val(self, v, ty):
        k = v['k']
        if k == 'bool':
            return T if v['v'] else F
        if k == 'int' or k == 'bits':
            n = int(v['v'])
            if ty['k'] == 'bool':
                return T if n else F
            if ty['k'] == 'ptr' or ty['k'] == 'ref':
                return VOpq(('addr', n), ty['id'])
            return L(n)
        if k == 'zst':
            if ty['k'] in ('tuple', 'adt', 'closure', 'array'):
                if ty['k'] == 'array':
                    return Seq('const', L(0), [])
                if ty['k'] == 'adt' and ty['adt'] == 'enum':
                    return VEnum(ty['id'], {0: (T, [])}) if len(ty['variants']) == 1 else VOpq(('zst',), ty['id'])
                fs = ty['fields'] if ty['k'] != 'adt' else [f[1] for f in ty['variants'][0]['fields']]
                return VAgg(ty['id'], [self.const_val({'k': 'zst'}, self.ty(f)) for f in fs])
            return VOpq(('zst',), ty['id'])
        if k == 'agg':
            if ty['k'] == 'adt':
                vs = ty['variants'][v['variant']]['fields']
                fts = [f[1] for f in vs]
                fl = [self.const_val(x, self.ty(t)) for x, t in zip(v['fields'], fts)]
                if len(fl) < len(fts):
                    fl += [self.const_val({'k': 'zst'}, self.ty(t)) for t in fts[len(fl):]]
                if ty['adt'] == 'enum':
                    return VEnum(ty['id'], {v['variant']: (T, fl)})
                return VAgg(ty['id'], fl)
            return VAgg(ty['id'], [self.const_val(x, self.ty(t)) for x, t in zip(v['fields'], ty['fields'])])
        if k == 'array':
            el = self.ty(ty['elem'])
            return Seq('const', L(len(v['elems'])), [self.const_val(x, el) for x in v['elems']])
        if k == 'ref':
            al = ('K', json.dumps(v, sort_keys=True))
            self.lazy.setdefault(al, ('const', self.const_val(v['to'], self.ty(v['ty']))))
            inner = self.ty(ty['elem']) if 'elem' in ty else None
            return P(al)
        if k == 'static' and 'elem' in ty:
            return self.symref(('static', v['path']), self.ty(ty['elem']))
        if k == 'refslice':
            al = ('K', json.dumps(v, sort_keys=True))
            et = self.ty(ty['elem'])
            el = self.ty(et['elem']) if et['k'] == 'slice' else {'k': 'uint', 'bits': 8}
            n = len(v['elems'])
            self.lazy.setdefault(al, ('const', Seq('const', L(n), [self.const_val(x, el) for x in v['elems']])))
            return P(al, (('sl', const(0), const(n)),))
        return VOpq(('const', json.dumps(v, sort_keys=True)), ty['id'])

    def op_ty(self, fr, o):
        if o[0] in ('copy', 'move'):
            return self.place_ty(fr, o[1])
        if o[0] == 'const':
            return self.ty(o[1]['ty'])
        return {'k': 'bool'}

    def place_ty(self, fr, pl):
        t = self.ty(self.frames[fr]['locals'][pl[0]])
        for e in pl[1:]:
            if e[0] == 'deref':
                if t['k'] == 'adt':
                    t = self.ty(t['args'][0])
                else:
                    t = self.ty(t['elem'])
            elif e[0] == 'field':
                t = self.ty(e[2])
            elif e[0] in ('index', 'cindex'):
                t = self.ty(t['elem'])
        return t

    def binop(self, op, a, b, ty, ty2=None):
        k = ty['k']
        if op in ('Eq', 'Ne') and k == 'bool':
            r = Iff(a, b)
            return r if op == 'Eq' else Not(r)
        if k == 'bool':
            if op == 'BitAnd':
                return And(a, b)
            if op == 'BitOr':
                return Or(a, b)
            if op == 'BitXor':
                return Not(Iff(a, b))
            if op in ('Lt', 'Le', 'Gt', 'Ge'):
                t = {'Lt': And(Not(a), b), 'Le': Or(Not(a), b), 'Gt': And(a, Not(b)), 'Ge': Or(a, Not(b))}
                return t[op]
        if not isinstance(a, (Node, Leaf)) or not isinstance(b, (Node, Leaf)):
            if op in ('Eq', 'Ne'):
                r = bvar(('same', self.vkey(a, {}), self.vkey(b, {})))
                return r if op == 'Eq' else Not(r)
            raise Unsupported('binop %s on %r %r' % (op, a, b))
        if op == 'Eq':
            return prd(lambda x, y: self.leaf_eq(x, y), a, b)
        if op == 'Ne':
            return prd(lambda x, y: Not(self.leaf_eq(x, y)), a, b)
        if op == 'Lt':
            return prd(lambda x, y: lt(x, y), a, b)
        if op == 'Le':
            return prd(lambda x, y: le(x, y), a, b)
        if op == 'Gt':
            return prd(lambda x, y: lt(y, x), a, b)
        if op == 'Ge':
            return prd(lambda x, y: le(y, x), a, b)
        if k == 'char':
            raise Unsupported('char op')
        if k not in ('uint', 'int'):
            raise Unsupported('binop %s on type %s' % (op, ty.get('name')))
        w = ty['bits']
        signed = k == 'int'
        lo, hi = int_range(ty)

        def wrap(l):
            if within(l, lo, hi):
                return l
            return tosigned(l, w) if signed else trunc(l, w)
        if op in ('Add', 'AddUnchecked', 'AddWithOverflow', 'Sub', 'SubUnchecked', 'SubWithOverflow', 'Mul', 'MulUnchecked', 'MulWithOverflow'):
            f = {'A': add, 'S': sub, 'M': mul}[op[0]]
            ex = map2(f, a, b)
            if op.endswith('WithOverflow'):
                ok = prd(lambda x: And(le(const(lo), x), le(x, const(hi))), ex)
                return VAgg(None, [ex, Not(ok)])
            if op.endswith('Unchecked'):
                return ex
            return map1(wrap, ex)
        if op in ('Div', 'Rem'):
            if signed:
                def f(x, y):
                    if is_const(x) and is_const(y) and y[0]:
                        q = abs(x[0]) // abs(y[0])
                        if (x[0] < 0) != (y[0] < 0):
                            q = -q
                        return leaf(const(q if op == 'Div' else x[0] - q * y[0]))
                    xl, yl = rng(x)[0], rng(y)[0]
                    if xl is not None and xl >= 0 and yl is not None and yl > 0:
                        return leaf(udiv(x, y)) if op == 'Div' else gurem(x, y)
                    return leaf(av(atom(('s' + op.lower(), x, y), lo, hi)))
                return apply(f, a, b)
            return map2(udiv, a, b) if op == 'Div' else apply(gurem, a, b)
        if op in ('BitAnd', 'BitOr', 'BitXor'):
            def f(x, y):
                if signed:
                    x, y = trunc(x, w), trunc(y, w)
                r = {'BitAnd': band, 'BitOr': bor, 'BitXor': bxor}[op](x, y, w)
                return tosigned(r, w) if signed else r
            return map2(f, a, b)
        if op in ('Shl', 'ShlUnchecked'):
            def f(x, y):
                if is_const(y):
                    s = y[0] & (w - 1)
                    r = scale(trunc(x, w) if signed else x, 1 << s)
                    h = rng(r)[1]
                    if not signed and h is not None and h <= hi:
                        return r        # the operand is a value of its unsigned type, hence not negative
                    return wrap(r)
                return self.shl_sym(x, y, w)
            return map2(f, a, b)
        if op in ('Shr', 'ShrUnchecked'):
            def f(x, y):
                if is_const(y):
                    s = y[0] & (w - 1)
                    if signed and (rng(x)[0] is None or rng(x)[0] < 0):
                        return udiv(x, const(1 << s))
                    return shr(x, s)
                return av(atom(('shr', x, y), lo if signed else 0, hi))
            return map2(f, a, b)
        if op == 'Cmp':
            raise Unsupported('Cmp')
        raise Unsupported('binop ' + op)

    def shl_sym(self, x, y, w):
        # a power of two shifted left is one shifted further
        if is_const(x) and x[0] > 1 and x[0] & (x[0] - 1) == 0:
            x, y = const(1), add(y, const(x[0].bit_length() - 1))
        return av(atom(('shl', x, y, w), 0, (1 << w) - 1))

    def leaf_eq(self, x, y):
        if isinstance(x, Ptr) or isinstance(y, Ptr):
            return T if x == y else bvar(('same', x, y))
        if isinstance(x, tuple) and isinstance(y, tuple):
            return eq(x, y)
        return T if x == y else F

    def cast(self, kind, v, src, dst):
        if kind == 'IntToInt' or kind == 'Transmute' and src['k'] in ('int', 'uint', 'bool', 'char') and dst['k'] in ('int', 'uint', 'bool', 'char'):
            if src['k'] == 'bool':
                return ite(v, L(1), L(0))
            if src['k'] == 'adt' or not isinstance(v, (Node, Leaf)):
                # C-like enum
                v = self.discriminant(v, src)
                w = dst['bits']
                sw = (src.get('size') or 8) * 8
                if dst['k'] == 'int':
                    return map1(lambda l: tosigned(l, sw) if is_const(l) and sw <= w and l[0] >= 1 << (sw - 1) else l, v)
                return v
            if dst['k'] == 'bool':
                return prd(lambda x: Not(eq(x, const(0))), v)
            w = dst['bits'] if 'bits' in dst else 32
            if dst['k'] == 'int':
                return map1(lambda l: tosigned(trunc(l, w), w) if not within(l, *int_range(dst)) else l, v)
            if src['k'] == 'uint':
                return map1(lambda l: l if rng(l)[1] is not None and rng(l)[1] < (1 << w) or src['bits'] <= w else trunc(l, w), v)
            def unsigned(l):
                if len(l[1]) == 1 and l[1][0][1] == 1 and l[0] == 0:
                    k = l[1][0][0].key
                    if k[0] == 'sx' and k[2] >= w:
                        k = k[1]
                        l = k if not (len(k[1]) == 1 and k[1][0][1] == 1 and k[0] == 0 and k[1][0][0].key[0] == 'wrap' and k[1][0][0].key[2] >= w) else k[1][0][0].key[1]
                lo, hi = rng(l)
                if lo is not None and hi is not None and -(1 << w) <= lo < 0 and hi < 1 << w:
                    return ite(lt(l, const(0)), LV(add(l, const(1 << w))), LV(l))
                return LV(trunc(l, w))
            return apply(unsigned, v)
        if kind.startswith('PointerCoercion'):
            if 'Unsize' in kind:
                de = self.ty(dst['elem']) if 'elem' in dst else (self.ty(dst['args'][0]) if dst.get('args') else None)
                se = self.ty(src['elem']) if 'elem' in src else (self.ty(src['args'][0]) if src.get('args') else None)
                if de and de['k'] == 'slice' and se and se['k'] == 'array' and isinstance(v, (Node, Leaf)):
                    n = se['len']
                    if n is None:
                        raise Unsupported('array len')
                    return apply(lambda p: leaf(Ptr(p.alloc, p.proj + (('sl', const(0), const(n)),))), v)
            return v
        if kind == 'PtrToPtr':
            a, b = self.pointee_int(src), self.pointee_int(dst)
            if a is not None and b is not None and a != b:
                raise Unsupported('pointer cast %s -> %s' % (src['name'], dst['name']))
            return v
        if kind in ('BoxDerefTransmute', 'Subtype', 'FnPtrToPtr'):
            return v
        if kind == 'Transmute':
            return self.transmute(v, src, dst)
        if kind in ('PointerExposeProvenance', 'PointerExposeAddress') and isinstance(v, (Node, Leaf)):
            return map1(lambda p: self.address(p, src), v)
        raise Unsupported('cast ' + kind)

    def address(self, p, src):
        """numerical address: unknown start of the allocation plus the offset within it"""
        if not isinstance(p, Ptr):
            raise Unsupported('address of %r' % (p,))
        e = self.ty(src['elem'])
        while e['k'] in ('slice', 'array'):
            e = self.ty(e['elem'])
        size = e.get('size')
        if size is None:
            raise Unsupported('address of ' + src['name'])
        proj, off = list(p.proj), const(0)
        while proj and proj[-1][0] in ('sl', 'i'):
            off = add(off, scale(proj.pop()[1], size))
        return add(var(('addr', p.alloc, tuple(proj)), 1, 2**62), off)

    def pointee_int(self, t):
        """width of the integers a pointer type points to (through slices and arrays)"""
        if 'elem' not in t:
            return None
        t = self.ty(t['elem'])
        while t['k'] in ('slice', 'array'):
            t = self.ty(t['elem'])
        return t['bits'] if t['k'] in ('uint', 'int') else None

    def transmute(self, v, src, dst):
        sn, dn = src['k'], dst['k']
        if src['id'] == dst['id']:
            return v
        if sn == 'array' and dn in ('uint', 'int') and isinstance(v, Seq):
            r = self.read_bytes_int(v, src['len'], 'le')
            return map1(lambda l: tosigned(l, dst['bits']), r) if dn == 'int' else r
        if sn in ('uint', 'int') and dn == 'array':
            n = dst['len']
            return Seq('const', L(n), [map1(lambda l: trunc(shr(trunc(l, 8 * n), 8 * j), 8), v) for j in range(n)])
        if dn in ('ref', 'ptr') or sn in ('ref', 'ptr'):
            if dn in ('ref', 'ptr') and sn in ('ref', 'ptr'):
                return v
            if dn == 'adt' or sn == 'adt':
                p = self.as_pointer(v)
                if p is not None:
                    return p
                return v
        # same-shape newtypes (struct wrapping one field)
        if dn == 'adt' and dst['adt'] == 'struct':
            fs = dst['variants'][0]['fields']
            nz = [i for i, f in enumerate(fs) if self.ty(f[1]).get('size') != 0]
            if len(nz) == 1:
                inner = self.transmute(v, src, self.ty(fs[nz[0]][1])) if self.ty(fs[nz[0]][1])['id'] != src['id'] else v
                return VAgg(dst['id'], [inner if i == nz[0] else self.const_val({'k': 'zst'}, self.ty(f[1])) for i, f in enumerate(fs)])
        if sn == 'adt' and src['adt'] == 'struct':
            fs = src['variants'][0]['fields']
            nz = [i for i, f in enumerate(fs) if self.ty(f[1]).get('size') != 0]
            if len(nz) == 1:
                e = self.expand(v)
                if isinstance(e, VAgg):
                    return self.transmute(e.f[nz[0]], self.ty(fs[nz[0]][1]), dst)
        if dn == 'adt' and dst['adt'] == 'enum' and sn in ('uint', 'int') and isinstance(v, (Node, Leaf)):
            alts = {}
            for i, vv in enumerate(dst['variants']):
                d = vv['discr']
                if sn == 'int' and d >= 1 << (src['bits'] - 1):
                    d -= 1 << src['bits']
                g = prd(lambda l: eq(l, const(d)), v)
                if g is not F:
                    alts[i] = (g, [])
            return VEnum(dst['id'], alts)
        raise Unsupported('transmute %s -> %s' % (src['name'], dst['name']))

    def discriminant(self, v, ty=None):
        v = self.expand(v)
        if isinstance(v, VEnum):
            t = self.ty(v.ty)
            r = None
            for k, (g, f) in v.alts.items():
                d = L(t['variants'][k]['discr'])
                r = d if r is None else ite(g, d, r)
            return r if r is not None else L(0)
        if isinstance(v, VOpq):
            return LV(var(('discr', v.key), 0, 2**64 - 1))
        raise Unsupported('discriminant of %r' % (v,))

    def rvalue(self, fr, r, state, destty):
        k = r[0]
        if k == 'use':
            return self.operand(fr, r[1], state)
        if k == 'ref':
            pl = r[1]
            # reborrow &*p of a pointer is the pointer itself
            return self.place_ptr(fr, pl, state)
        if k == 'bin':
            a = self.operand(fr, r[2], state)
            b = self.operand(fr, r[3], state)
            if r[1] == 'Cmp':
                t = self.op_ty(fr, r[2])
                l_ = self.binop('Lt', a, b, t)
                e_ = self.binop('Eq', a, b, t)
                return VEnum(destty['id'], {0: (l_, []), 1: (e_, []), 2: (And(Not(l_), Not(e_)), [])})
            if r[1] == 'Offset':
                return apply(lambda p, i: leaf(self.padd(p, ('i', i))), a, b)
            return self.binop(r[1], a, b, self.op_ty(fr, r[2]))
        if k == 'un':
            a = self.operand(fr, r[2], state)
            t = self.op_ty(fr, r[2])
            if r[1] == 'Not':
                if t['k'] == 'bool':
                    return Not(a)
                w = t['bits']
                if t['k'] == 'int':
                    return map1(lambda l: sub(const(-1), l), a)
                def f(l):
                    s = segs(l, w)
                    return _notseg(l, w)
                return map1(f, a)
            if r[1] == 'Neg':
                w = t['bits']
                return map1(lambda l: tosigned(trunc(neg(l), w), w) if not within(neg(l), *int_range(t)) else neg(l), a)
            if r[1] == 'PtrMetadata':
                if isinstance(a, (Node, Leaf)):
                    def g(p):
                        return self.ptr_len(p, state)
                    try:
                        return self.fold_ptr(a, g)
                    except Unsupported:
                        return VAgg(None, [])
                return VAgg(None, [])
            raise Unsupported('un ' + r[1])
        if k == 'cast':
            v = self.operand(fr, r[2], state)
            return self.cast(r[1], v, self.op_ty(fr, r[2]), self.ty(r[3]))
        if k == 'discr':
            v = self.read_place(fr, r[1], state)
            d = self.discriminant(v)
            if destty is not None and destty['k'] == 'int':
                w = destty['bits']
                d = map1(lambda l: tosigned(l, w) if is_const(l) and l[0] >= 1 << (w - 1) else l, d)
            return d
        if k == 'agg':
            ops = [self.operand(fr, o, state) for o in r[2]]
            ak = r[1]
            if ak[0] == 'array':
                return Seq('const', L(len(ops)), ops)
            if ak[0] == 'adt':
                ty = self.ty(ak[1])
                if ty['adt'] == 'enum':
                    return VEnum(ty['id'], {ak[2]: (T, ops)})
                if ty['adt'] == 'union':
                    return VAgg(ty['id'], ops)
                return VAgg(ty['id'], ops)
            if ak[0] == 'closure':
                return VAgg(ak[1], ops)
            if ak[0] == 'tuple':
                return VAgg(destty.get('id'), ops)
            if ak[0] == 'rawptr':
                if isinstance(ops[0], (Node, Leaf)) and isinstance(ops[1], (Node, Leaf)):
                    def f(p, n):
                        if p.proj and p.proj[-1][0] == 'i':
                            return leaf(Ptr(p.alloc, p.proj[:-1] + (('sl', p.proj[-1][1], n),)))
                        if p.proj and p.proj[-1][0] == 'sl':
                            return leaf(Ptr(p.alloc, p.proj[:-1] + (('sl', p.proj[-1][1], n),)))
                        return leaf(Ptr(p.alloc, p.proj + (('sl', const(0), n),)))
                    return apply(f, ops[0], ops[1])
                return ops[0]
            raise Unsupported('agg %s' % (ak,))
        if k == 'repeat':
            v = self.operand(fr, r[1], state)
            if r[2] is None:
                raise Unsupported('repeat len')
            return Seq('rep', L(r[2]), v) if r[2] > 16 or not isinstance(v, (Node, Leaf)) else Seq('const', L(r[2]), [v] * r[2])
        raise Unsupported('rvalue %s' % k)

    # ------------------------------------------------------------ control flow
    frames = {}

    def event(self, kind, pc, data, sp=None):
        e = Event(kind, pc, data, sp, tuple(self.stack), tuple(self.loopctx))
        self.events.append(e)
        return e

    def panic(self, state, cond, what, sp):
        """panic under cond; state continues under not cond"""
        pc = And(state.pc, cond)
        if pc is not F:
            self.event('panic', pc, what, sp)
            state.pc = And(state.pc, Not(cond))

    def run_fn(self, fid, args, state):
        """returns (value, state) ; state.pc is F if it never returns"""
        f = self.F[fid]
        self.fns_seen.add(fid)
        if len(self.stack) > self.max_depth:
            raise Budget('depth ' + f['full'])
        return self.run_body(f['full'], f['body'], args, state, self.p.cfg(fid))

    def run_body(self, name, body, args, state, cfg=None):
        if 'err' in body:
            raise Unsupported('no body')
        cfg = cfg or CFG(body)
        self.frame_n += 1
        fr = self.frame_n
        self.frames[fr] = body
        st = state.fork()
        if body.get('spread') is not None:
            # "rust-call" closure bodies: last arg is a tuple spread
            pass
        for i, a in enumerate(args):
            st.st[('L', fr, i + 1)] = a
        self.stack.append(name)
        try:
            exits = self.run_region(fr, cfg, set(cfg.rpo), 0, st, top=True)
        finally:
            self.stack.pop()
        out = self.merge(exits.get('ret', []))
        if out is None:
            return UNDEF, State(F, state.st)
        ret = out.st.get(('L', fr, 0), UNDEF)
        if ret is UNDEF:
            rt = self.ty(body['locals'][0])
            if rt['k'] == 'tuple' and not rt['fields']:
                ret = VAgg(rt['id'], [])
        # drop the frame
        keep = {}
        for k, v in out.st.items():
            if k[0] == 'L' and k[1] == fr and name and not (isinstance(name, tuple)):
                continue
            keep[k] = v
        return ret, State(out.pc, keep)

    def run_region(self, fr, cfg, region, entry, state, top=False):
        """process region's blocks in RPO; returns exits: {target or 'ret': [states]}, back edges under ('back',)"""
        pend = {entry: [state]}
        exits = {}
        order = [b for b in cfg.rpo if b in region]
        done_loops = set()
        skip = set()
        first = True
        for b in order:
            if b in skip or b not in pend:
                continue
            s = self.merge(pend.pop(b))
            if s is None:
                continue
            if b in cfg.loops and not (b == entry and not top and first):
                # nested (or top-level) loop
                ex = self.run_loop(fr, cfg, b, s)
                skip |= cfg.loops[b]
                outs = ex
            else:
                first = False
                outs = self.run_block(fr, cfg, b, s)
                if not top:
                    self.note_counted(fr, cfg, b, s, region)
            for tgt, ss in outs:
                if ss.pc is F:
                    continue
                if tgt == 'ret':
                    exits.setdefault('ret', []).append(ss)
                elif tgt == entry and not top:
                    exits.setdefault('back', []).append(ss)
                elif tgt in region and cfg.pos[tgt] > cfg.pos[b] or (tgt in region and top):
                    pend.setdefault(tgt, []).append(ss)
                else:
                    exits.setdefault(tgt, []).append(ss)
        return exits

    def note_counted(self, fr, cfg, b, s, region):
        """record what a test on known numbers that decides whether the loop goes on was made with"""
        t = cfg.blocks[b]['t']
        if t['k'] != 'switch' or all(x in region for x in cfg.succ[b]) or t['d'][0] not in ('copy', 'move') or len(t['d'][1]) != 1:
            return
        try:
            l = t['d'][1][0]
            for x in cfg.blocks[b]['s']:
                if x[0] == '=' and len(x[1]) == 1 and x[1][0] == l and x[2][0] == 'bin' and x[2][1] in ('Lt', 'Le', 'Gt', 'Ge', 'Eq', 'Ne'):
                    v = (self.operand(fr, x[2][2], s), self.operand(fr, x[2][3], s))
                    break
            else:
                v = (self.operand(fr, t['d'], s),)
        except SOFT:
            return
        if all(isinstance(x, Leaf) and isinstance(x.v, tuple) and is_const(x.v) for x in v):
            self.counted[-1][b] = v

    MAX_UNROLL = 1100
    MAX_COUNTED = 520
    try_unroll = 0      # follow loops without a bounded iterator for at most this many rounds
    SUMMARISE = 1000

    def run_loop(self, fr, cfg, h, state):
        body = cfg.loops[h]
        outs = []
        cur = state
        it = 0
        ev0 = len(self.events)
        nfresh = dict(self.fresh_n)
        self.unroll_flag.append(None)
        bounded = None
        before = {}
        tries = self.try_unroll
        try:
            while True:
                self.unroll_flag[-1] = None
                self.counted.append({})
                try:
                    ex = self.run_region(fr, cfg, body, h, cur.fork())
                finally:
                    tests = self.counted.pop()
                if it == 0:
                    bounded = self.unroll_flag[-1]
                    if bounded is None and tests:
                        tries = max(tries, 1)
                    if bounded is not True and not tries:
                        break
                elif any(before.get(b, v) != v for b, v in tests.items()):
                    # its end is decided by a number that is known in every round
                    tries = max(self.try_unroll, self.MAX_COUNTED)
                before = tests
                back = self.merge(ex.pop('back', []))
                for t, ss in ex.items():
                    for x in ss:
                        outs.append((t, x))
                if back is None or back.pc is F:
                    return outs
                cur = back
                it += 1
                if bounded is True and it > self.MAX_UNROLL:
                    raise Budget('unroll')
                if bounded is not True and it > (tries if tests or self.try_unroll else 0) or it > self.SUMMARISE:
                    # too long to follow step by step: treat as a loop of unknown length
                    del outs[:]
                    del self.events[ev0:]
                    self.fresh_n = dict(nfresh)
                    self.unroll_flag[-1] = None
                    ex = self.run_region(fr, cfg, body, h, state.fork())
                    break
        finally:
            self.unroll_flag.pop()
        # ---- summarise: havoc everything the body may modify
        if 'back' not in ex:
            # not really a loop on any feasible path
            for t, ss in ex.items():
                for x in ss:
                    outs.append((t, x))
            return outs
        del self.events[ev0:]
        self.fresh_n = nfresh
        return self.summarise(fr, cfg, h, state, ex, ev0, nfresh)

    def summarise(self, fr, cfg, h, state, ex, ev0, nfresh):
        lid = self.fresh('loop')
        base = state.st
        havoc = {}
        body = cfg.loops[h]
        for rnd in range(6):
            back = self.merge(ex.get('back', []))
            mod = {}
            if back is not None:
                for k, v in back.st.items():
                    b0 = base.get(k)
                    if b0 is None:
                        if k[0] == 'L' and k[1] == fr or k[0] != 'L':
                            d = self.default(k) if k[0] != 'L' else None
                            if d is not None and d is not v:
                                mod[k] = (d, v)
                            continue
                        continue
                    cur0 = havoc.get(k, b0)
                    if v is not cur0:
                        mod[k] = (b0, v)
            new = {}
            for k, (b0, v) in mod.items():
                h0 = havoc.get(k, b0)
                hv = self.havoc_value(h0, v, (lid, k if k[0] != 'L' else ('L', k[2])), fr, k)
                if hv is not h0:
                    new[k] = hv
            if not new and rnd > 0:
                break
            havoc.update(new)
            st = dict(base)
            st.update(havoc)
            del self.events[ev0:]
            self.fresh_n = dict(nfresh)
            self.fresh('loop')
            self.loopctx.append(lid)
            self.unroll_flag.append(None)
            try:
                ex = self.run_region(fr, cfg, body, h, State(state.pc, dict(st)))
            finally:
                self.loopctx.pop()
                self.unroll_flag.pop()
        back = self.merge(ex.pop('back', [])) if 'back' in ex else None
        self.loop_log.append({'id': lid, 'fn': self.stack[-1], 'stack': tuple(self.stack), 'pc': state.pc, 'init': {k: base.get(k) for k in havoc}, 'havoc': havoc, 'back': None if back is None else (back.pc, {k: back.st.get(k) for k in havoc}), 'fr': fr, 'exits': list(ex)})
        outs = []
        for t, ss in ex.items():
            for x in ss:
                outs.append((t, x))
        return outs

    def havoc_value(self, old, new, key, fr, k):
        """generalise old to cover new: differing scalars become fresh loop variables"""
        if old is new:
            return old
        if old is None or old is UNDEF:
            return UNDEF
        if isinstance(old, (Node, Leaf)) and isinstance(new, (Node, Leaf)):
            ls = leaves(old) + leaves(new)
            if all(isinstance(x, bool) for x in ls):
                return bvar(('b', ('lv', key)))
            if all(isinstance(x, tuple) for x in ls):
                r = self.scalar_range(ls)
                return LV(var(('lv', key), *r))
            if all(isinstance(x, Ptr) for x in ls):
                # pointer changes: keep if only slice bounds differ
                return self.havoc_ptr(old, new, key)
            return old
        if isinstance(old, VDev) or isinstance(new, VDev):
            if isinstance(old, VOpq):
                old = VDev(old.ty, old.key, LV(var(('pos0', old.key), 0, 2**63 - 1)))
            if isinstance(new, VOpq):
                new = VDev(new.ty, new.key, LV(var(('pos0', new.key), 0, 2**63 - 1)))
            if isinstance(old, VDev) and isinstance(new, VDev) and old.key == new.key:
                return old if old.pos is new.pos else VDev(old.ty, old.key, LV(var(('lv', (key, 'pos')), 0, 2**63 - 1)))
            return VOpq(('lv', key), old.ty)
        if isinstance(old, VOpq):
            e = self.expand(old)
            if e is not old and not isinstance(new, VOpq):
                return self.havoc_value(e, new, key, fr, k)
            if isinstance(new, VOpq) and new == old:
                return old
            return VOpq(('lv', key), old.ty)
        if isinstance(new, VOpq):
            e = self.expand(new)
            if e is not new:
                return self.havoc_value(old, e, key, fr, k)
            return VOpq(('lv', key), new.ty)
        if isinstance(old, VAgg) and isinstance(new, VAgg) and len(old.f) == len(new.f):
            f = [self.havoc_value(a, b, (key, i), fr, k) for i, (a, b) in enumerate(zip(old.f, new.f))]
            if all(x is y for x, y in zip(f, old.f)):
                return old
            return VAgg(old.ty, f)
        if isinstance(old, VEnum) and isinstance(new, VEnum):
            ty = self.ty(old.ty)
            n = len(ty['variants'])
            if set(new.alts) <= set(old.alts) and all(self.vkey(VAgg(0, new.alts[i][1]), {}) == self.vkey(VAgg(0, old.alts[i][1]), {}) and new.alts[i][0] is old.alts[i][0] for i in new.alts) and len(old.alts) == len(new.alts):
                return old
            alts = {}
            d = var(('discr', ('lv', key)), 0, n - 1)
            for i in sorted(set(old.alts) | set(new.alts)):
                fo = old.alts.get(i, (F, None))[1]
                fn = new.alts.get(i, (F, None))[1]
                if fo is None:
                    f = [self.widen_leaf(x, (key, i, j)) for j, x in enumerate(fn)]
                elif fn is None:
                    f = [self.widen_leaf(x, (key, i, j)) for j, x in enumerate(fo)]
                else:
                    f = [self.havoc_value(a, b, (key, i, j), fr, k) for j, (a, b) in enumerate(zip(fo, fn))]
                alts[i] = (eq(d, const(i)) if n > 1 else T, f)
            if len(alts) == 1:
                i = list(alts)[0]
                alts[i] = (T, alts[i][1])
            return VEnum(old.ty, alts)
        if isinstance(old, Seq) and isinstance(new, Seq):
            if self.seq_key(old) == self.seq_key(new):
                return old
            if old.k == 'abs' and old.a[0] == ('lv', key):
                return old
            el = self.seq_elem_ty(old)
            if el is None:
                el = self.seq_elem_ty(new)
            ln = old.len if old.len is new.len else LV(var(('len', ('lv', key)), 0, 2**63 - 1))
            return Seq('abs', ln, ('lv', key), el if el is not None else 'u8')
        return VOpq(('lv', key), getattr(new, 'ty', 0) or 0)

    def widen_leaf(self, x, key):
        return x

    def seq_elem_ty(self, s):
        if s.k == 'abs':
            return s.a[1]
        if s.k in ('upd', 'sub', 'push'):
            return self.seq_elem_ty(s.a[0])
        if s.k == 'ite':
            r = self.seq_elem_ty(s.a[1])
            return r if r is not None else self.seq_elem_ty(s.a[2])
        if s.k in ('const', 'rep'):
            x = s.a[0] if s.k == 'rep' else (s.a[0][0] if s.a[0] else None)
            if isinstance(x, (VAgg, VEnum, VOpq)):
                return x.ty
            return None
        return None

    def scalar_range(self, ls):
        rs = [rng(l) for l in ls]
        # widen to a machine range that covers all leaves
        nonneg = all(r[0] is not None and r[0] >= 0 for r in rs)
        if nonneg:
            return (0, 2**64 - 1)
        return (-2**63, 2**64 - 1)

    def havoc_ptr(self, old, new, key):
        a, b = leaves(old), leaves(new)
        if len(a) == 1 and len(b) == 1 and a[0].alloc == b[0].alloc and len(a[0].proj) == len(b[0].proj) and a[0].proj:
            pa, pb = a[0].proj[-1], b[0].proj[-1]
            if pa[0] == pb[0] and a[0].proj[:-1] == b[0].proj[:-1]:
                if pa[0] == 'sl':
                    o = var(('lv', (key, 'off')), 0, 2**63 - 1) if pa[1] != pb[1] else pa[1]
                    n = var(('lv', (key, 'len')), 0, 2**63 - 1) if pa[2] != pb[2] else pa[2]
                    return leaf(Ptr(a[0].alloc, a[0].proj[:-1] + (('sl', o, n),)))
                if pa[0] == 'i':
                    return leaf(Ptr(a[0].alloc, a[0].proj[:-1] + (('i', var(('lv', (key, 'i')), 0, 2**63 - 1)),)))
        # pointer to one of several objects: opaque pointer
        al = ('D', ('lv', key))
        return P(al)

    def run_block(self, fr, cfg, b, s):
        self.steps += 1
        if self.steps > self.max_steps:
            raise Budget('steps')
        blk = cfg.blocks[b]
        body = self.frames[fr]
        for x in blk['s']:
            if x[0] == '=':
                destty = self.place_ty(fr, x[1])
                try:
                    v = self.rvalue(fr, x[2], s, destty)
                except SOFT as e:
                    self.note_unknown('rvalue %s: %s' % (x[2][0] if x[2][0] != 'cast' else 'cast ' + x[2][1], e), x[3])
                    v = self.sym(self.fresh('unk'), destty)
                self.assign(fr, x[1], v, s)
            elif x[0] == 'setdiscr' or x[0] == 'intrinsic' and not str(x[1]).startswith('Assume'):
                raise Unsupported('statement %s' % (str(x[1])[:60],))
        t = blk['t']
        k = t['k']
        if k == 'goto':
            return [(t['to'], s)]
        if k == 'return':
            return [('ret', s)]
        if k == 'switch':
            d = self.operand(fr, t['d'], s)
            outs = []
            if not isinstance(d, (Node, Leaf)):
                d = self.discriminant(d)
            rest = T
            for val, tgt in t['t']:
                if any(isinstance(x, bool) for x in leaves(d)):
                    c = d if val else Not(d)
                else:
                    vv = val
                    tt = self.op_ty(fr, t['d'])
                    if tt['k'] == 'int' and vv >= 1 << (tt['bits'] - 1):
                        vv -= 1 << tt['bits']
                    c = prd(lambda l: eq(l, const(vv)), d)
                c2 = And(rest, c)
                rest = And(rest, Not(c))
                pc = And(s.pc, c2)
                if pc is not F:
                    outs.append((tgt, s.fork(pc)))
            pc = And(s.pc, rest)
            if pc is not F and cfg.blocks[t['else']]['t']['k'] != 'unreachable':
                outs.append((t['else'], s.fork(pc)))
            # unreachable default: distribute nothing (the match is exhaustive)
            return outs
        if k == 'assert':
            c = self.operand(fr, t['cond'], s)
            if not t['exp']:
                c = Not(c)
            self.panic(s, Not(c), t['msg'], t['sp'])
            return [(t['to'], s)] if s.pc is not F else []
        if k == 'call':
            return self.do_call(fr, t, s)
        if k in ('unreachable', 'unwind'):
            return []
        raise Unsupported('terminator ' + k)

    def assign(self, fr, pl, v, s):
        if len(pl) == 1:
            s.st[('L', fr, pl[0])] = v
        else:
            try:
                p = self.place_ptr(fr, pl, s)
                self.deref_write(p, v, s)
            except SOFT as e:
                self.note_unknown('write: %s' % e, '')

    def note_unknown(self, what, sp):
        self.unknown.setdefault((what, sp), set()).add(self.stack[-1] if self.stack else '')

    # ------------------------------------------------------------ calls
    def do_call(self, fr, t, s):
        args = [self.operand(fr, a, s) for a in t['args']]
        destty = self.place_ty(fr, t['dest'])
        if 'fop' in t and t['path'] is None:
            f = self.operand(fr, t['fop'], s)
            v = self.call_value(f, args, s, t, destty)
        else:
            argtys = [self.op_ty(fr, a) for a in t['args']]
            v = self.call(t['fn'], t['path'], args, s, t, destty, argtys)
        if s.pc is F:
            return []
        if t['to'] is None:
            return []
        self.assign(fr, t['dest'], v, s)
        return [(t['to'], s)]

    def call(self, fid, path, args, s, t, destty, argtys=None):
        """evaluates a call; mutates s (pc, store); returns value"""
        f = self.F[fid] if fid is not None else None
        rpath = f['path'] if f is not None else path
        if argtys is None and f is not None and f.get('body') and 'err' not in f['body'] and f['body']['argc'] == len(args):
            argtys = [self.ty(f['body']['locals'][i + 1]) for i in range(len(args))]
        if (f is None or f['kind'] == 'virtual') and args:
            r = self.dyn_dispatch(path, args, s, t, destty)
            if r is not None:
                return r
        shim = path in CALL_TRAITS and f is not None and '{closure#' in rpath[-16:]
        m = self.models.get(path) if shim else self.models.get(rpath) or self.hook(f, path) or (self.models.get(path) if f is None or f['kind'] == 'virtual' or not f.get('body') else None)
        ctx = CallCtx(self, s, t, fid, f, path, rpath, args, destty, argtys)
        if m is not None:
            pc0, st0, ne0, ns0 = s.pc, dict(s.st), len(self.events), len(self.stack)
            try:
                r = m(ctx)
                if r is not NotImplemented:
                    return r
            except SOFT as e:
                s.pc, s.st = pc0, st0
                del self.events[ne0:]
                del self.stack[ns0:]
                e = e if isinstance(e, Unsupported) else repr(e)
                self.note_unknown('model %s: %s' % (rpath, e), t['sp'])
                return self.havoc_call(ctx)
        if f is not None and f.get('body') and 'err' not in f['body'] and f['full'] not in self.opaque_local:
            if self.stack.count(f['full']) >= 3:
                self.note_unknown('recursion ' + f['full'], t['sp'])
                return self.havoc_call(ctx)
            if len(args) != f['body']['argc']:
                a2 = self.adjust_args(f, args)
                args = a2
            try:
                n0 = len(self.stack)
                r, s2 = self.run_fn(fid, args, s)
            except SOFT as e:
                e = e if isinstance(e, Unsupported) else repr(e)
                self.note_unknown('body %s: %s' % (f['full'], e), t['sp'])
                del self.stack[n0:]
                return self.havoc_call(ctx)
            s.pc, s.st = s2.pc, s2.st
            return r
        return self.havoc_call(ctx)

    def impls(self):
        """(trait, method) -> {self type path: function id} for impls written in the analysed crate"""
        r = getattr(self.p, '_impls', None)
        if r is None:
            r = {}
            for f in self.F:
                if f.get('local') and f.get('root') and f.get('impl_trait') and f.get('body') and f.get('impl_self'):
                    tr = f['impl_trait'].split('<')[0]
                    r.setdefault((tr, f['name']), {})[f['impl_self'].split('<')[0]] = f['id']
            self.p._impls = r
        return r

    def dyn_dispatch(self, path, args, s, t, destty):
        """trait call resolved by the concrete values behind the receiver; None if any of them is unknown"""
        if not path or '::' not in path:
            return None
        tr, nm = path.rsplit('::', 1)
        tab = self.impls().get((tr.split('<')[0], nm))
        if not tab:
            return None
        cases = []

        def walk(v, g, orig, depth):
            if depth > 6:
                return False
            if isinstance(v, (Node, Leaf)):
                for c, p in self.ptr_cases(v):
                    if not isinstance(p, Ptr):
                        return False
                    if not walk(self.read_ptr(p, s), And(g, c), leaf(p), depth + 1):
                        return False
                return True
            if isinstance(v, (VAgg, VEnum)) and isinstance(v.ty, int):
                ty = self.ty(v.ty)
                base = (ty.get('path') or '').split('<')[0]
                if base.startswith('std::boxed::Box') or base.startswith('std::rc::Rc'):
                    q = self.as_pointer(v)
                    return q is not None and walk(q, g, orig, depth + 1)
                if base in tab and orig is not None:
                    if And(s.pc, g) is not F:
                        cases.append((g, tab[base], orig))
                    return True
            return False
        try:
            if not walk(args[0], T, None, 0) or not cases:
                return None
        except SOFT:
            return None
        outs = []
        pc0 = s.pc
        for g, fid, p in cases:
            s1 = s.fork(And(s.pc, g))
            r = self.call(fid, self.F[fid]['path'], [p] + list(args[1:]), s1, t, destty)
            outs.append((g, r, s1))
        if len(outs) == 1:
            g, r, s1 = outs[0]
            s.pc, s.st = (s1.pc if g is T else s1.pc), s1.st
            return r
        m = self.merge([o[2] for o in outs])
        if m is None:
            s.pc = F
            return UNDEF
        r = None
        for g, v, s1 in outs:
            if s1.pc is F:
                continue
            r = v if r is None else self.vite(g, v, r)
        s.pc, s.st = m.pc, m.st
        return r

    def hook(self, f, path):
        return None

    def adjust_args(self, f, args):
        # rust-call ABI: closure bodies take (self, a, b..), callers pass (self, (a,b..))
        if len(args) == 2 and isinstance(args[1], VAgg):
            return [args[0]] + list(args[1].f)
        if len(args) == 2 and isinstance(args[1], VOpq):
            e = self.expand(args[1])
            if isinstance(e, VAgg):
                return [args[0]] + list(e.f)
        return args

    def havoc_target(self, a, ety, ctx):
        """what a points to may have changed in any way"""
        s = ctx.s
        if not isinstance(a, (Node, Leaf)):
            return
        fk = self.fresh('mut')
        for c, p in self.ptr_cases(a):
            if not isinstance(p, Ptr):
                continue
            try:
                if p.proj and p.proj[-1][0] == 'sl':
                    v = Seq('abs', LV(p.proj[-1][2]), fk, self.seq_elem_ty(self.read_ptr(Ptr(p.alloc, p.proj[:-1]), s)) or 'u8')
                else:
                    v = self.sym(fk, ety)
                self.write_ptr(p, v, s, c)
            except SOFT as e:
                self.note_unknown('havoc %s' % e, ctx.t['sp'])
                # not expressible: everything the place is part of is lost
                for k in range(len(p.proj) - 1, -1, -1):
                    try:
                        self.write_ptr(Ptr(p.alloc, p.proj[:k]), VOpq(fk, None), s)
                        break
                    except SOFT:
                        pass

    def havoc_inside(self, a, ty, ctx, depth):
        """mutable references captured by a closure or held by an iterator that is handed over"""
        if depth > 5 or ty['k'] not in ('closure', 'adt', 'tuple', 'ref'):
            return False
        hit = False
        if ty['k'] == 'ref':
            if ty.get('mut'):
                self.havoc_target(a, self.ty(ty['elem']), ctx)
                return True
            return False
        a = self.expand(a) if isinstance(a, VOpq) else a
        if isinstance(a, VAgg):
            if ty['k'] == 'closure':
                tys = ty.get('upvars') or ty.get('fields') or []
            elif ty['k'] == 'tuple':
                tys = ty['fields']
            else:
                tys = [f[1] for f in ty['variants'][0]['fields']] if ty.get('variants') else []
            for x, t in zip(a.f, tys):
                hit |= self.havoc_inside(x, self.ty(t), ctx, depth + 1)
        if ty['k'] == 'adt' and ty.get('path', '').split('::')[-1] in ('IterMut', 'ChunksMut', 'ChunksExactMut', 'ValuesMut', 'Drain') and isinstance(a, VAgg):
            for x in a.f:
                if isinstance(x, (Node, Leaf)) and any(isinstance(y, Ptr) for y in leaves(x)):
                    self.havoc_target(x, {'k': 'opaque', 'id': None, 'name': '?'}, ctx)
                    hit = True
        return hit

    def havoc_call(self, ctx):
        """unknown callee: result is an opaque function of its (dereferenced) arguments, mutable referents are havocked"""
        s = ctx.s
        mutated = False
        key = ('call', ctx.rpath_full(), tuple(self.vkey(a, s.st) for a in ctx.args))
        tys = ctx.argtys or [None] * len(ctx.args)
        for a, ty in zip(ctx.args, tys):
            if ty is not None and ty['k'] in ('ref', 'ptr') and ty.get('mut'):
                mutated = True
                self.havoc_target(a, self.ty(ty['elem']), ctx)
            elif ty is not None and self.havoc_inside(a, ty, ctx, 0):
                mutated = True
        self.calls_seen[ctx.rpath] = self.calls_seen.get(ctx.rpath, 0) + 1
        self.event('call', s.pc, (ctx.rpath, key), ctx.t['sp'])
        if ctx.t['to'] is None:
            self.panic(s, T, 'diverges: ' + ctx.rpath, ctx.t['sp'])
            return UNDEF
        if mutated:
            key = self.fresh('ret') + (ctx.rpath,)
        if ctx.destty['k'] == 'tuple' and not ctx.destty['fields']:
            return VAgg(ctx.destty['id'], [])
        return self.sym(key, ctx.destty)

    def call_value(self, f, args, s, t, destty):
        """call a closure / fn item / fn pointer value with spread args"""
        orig = None
        while isinstance(f, Leaf) and isinstance(f.v, Ptr):
            orig = f
            f = self.read_ptr(f.v, s)
        ty = self.ty(f.ty) if isinstance(f, (VAgg, VOpq)) and f.ty is not None else None
        if ty is not None and ty['k'] == 'fndef':
            if ty['fn'] is None:
                # constructor
                r = self.construct(ty, args, destty)
                if r is not None:
                    return r
            return self.call(ty['fn'], ty['path'], args, s, t, destty, None)
        if ty is not None and ty['k'] == 'closure':
            fid = ty['fn']
            body = self.F[fid].get('body')
            if body is None:
                raise Unsupported('closure without body')
            # self by ref or by value
            selfty = self.ty(body['locals'][1])
            if selfty['k'] in ('ref', 'ptr') and orig is not None:
                a0 = orig
            elif selfty['k'] in ('ref', 'ptr'):
                al = ('C',) + self.fresh('clo')
                s.st[al] = f
                a0 = P(al)
            else:
                a0 = f
                al = None
            r, s2 = self.run_fn(fid, [a0] + list(args), s)
            s.pc, s.st = s2.pc, s2.st
            return r
        raise Unsupported('call of %r' % (f,))

    def construct(self, fnty, args, destty):
        """tuple-struct / variant constructor used as a function"""
        p = fnty['path']
        if destty['k'] != 'adt':
            n = fnty['name']
            i, j = n.find(') -> '), n.rfind(' {')
            if i < 0 or j < 0:
                return None
            tab = getattr(self.p, '_tnames', None)
            if tab is None:
                tab = self.p._tnames = {x['name']: x for x in self.p.T}
            destty = tab.get(n[i + 5:j], destty)
            if destty['k'] != 'adt':
                return None
        nm = p.split('::')[-1]
        for i, v in enumerate(destty['variants']):
            if v['name'] == nm:
                if destty['adt'] == 'enum':
                    return VEnum(destty['id'], {i: (T, list(args))})
                return VAgg(destty['id'], list(args))
        return None


def _notseg(l, w):
    return sub(const((1 << w) - 1), l)


class CallCtx:
    __slots__ = ('I', 's', 't', 'fid', 'f', 'path', 'rpath', 'args', 'destty', 'argtys', 'rname', 'back')

    def __init__(self, I, s, t, fid, f, path, rpath, args, destty, argtys):
        self.back = False
        self.I, self.s, self.t, self.fid, self.f, self.path, self.rpath, self.args, self.destty, self.argtys = I, s, t, fid, f, path, rpath, args, destty, argtys

    def rpath_full(self):
        return self.f['full'] if self.f is not None else self.t.get('full') or self.path

    def targ(self, i):
        ts = self.f['targs'] if self.f is not None else self.t['targs']
        return self.I.ty(ts[i])
