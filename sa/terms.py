"""Hash-consed integer terms, boolean atoms and multi-terminal decision diagrams.

Integer term (Lin): (c, ((atom, coef), ...)) -- a linear combination over interned atoms.
Decision diagram node: Leaf(value) or Node(var, hi, lo), hash-consed, ordered by var.id.
Booleans are diagrams over True/False leaves; integers are diagrams over Lin leaves.
"""
import sys
sys.setrecursionlimit(20000)

INF = None


class Atom:
    __slots__ = ('id', 'key', 'lo', 'hi')
    _tab = {}

    def __lt__(self, o):
        return self.id < o.id

    def __repr__(self):
        return fmt_atom(self)


def atom(key, lo=None, hi=None):
    a = Atom._tab.get(key)
    if a is None:
        a = Atom()
        a.id = len(Atom._tab)
        a.key = key
        a.lo = lo
        a.hi = hi
        Atom._tab[key] = a
    return a


_lintab = {}


def lin(c, pairs=()):
    t = (c, tuple(pairs))
    return _lintab.setdefault(t, t)


def const(n):
    return lin(int(n))


def is_const(l):
    return not l[1]


def av(a):
    return lin(0, ((a, 1),))


def var(key, lo=None, hi=None):
    return av(atom(key, lo, hi))


def _mk(c, d):
    ps = tuple(sorted(((a, k) for a, k in d.items() if k), key=lambda p: p[0].id))
    return lin(c, ps)


def add(x, y):
    if not x[1] and x[0] == 0:
        return y
    if not y[1]:
        return lin(x[0] + y[0], x[1])
    d = dict(x[1])
    for a, k in y[1]:
        d[a] = d.get(a, 0) + k
    return join_division(merge_parts(_mk(x[0] + y[0], d)))


def join_division(l):
    """y * (x div y) + x rem y = x, and x - y * (x div y) = x rem y"""
    for b, kb in l[1] if len(l[1]) > 1 else ():
        kk = b.key
        if kk[0] != 'mul':
            continue
        for y, q in ((kk[1], kk[2]), (kk[2], kk[1])):
            if not (q[0] == 0 and len(q[1]) == 1 and q[1][0][1] == 1 and q[1][0][0].key[0] == 'div' and q[1][0][0].key[2] == y):
                continue
            x = q[1][0][0].key[1]
            d = dict(l[1])
            if x[1] and all(d.get(a) == -kb * c for a, c in x[1]):
                for a, c in x[1]:
                    del d[a]
                del d[b]
                return add(_mk(l[0] + kb * x[0], d), scale(urem(x, y), -kb))
    rems = [p for p in l[1] if p[0].key[0] == 'rem']
    if not rems or len(l[1]) < 2:
        return l
    for a, k in rems:
        x, y = a.key[1], a.key[2]
        for b, kb in l[1]:
            kk = b.key
            if kk[0] == 'div' and kk[2] == y and is_const(y) and kb == k * y[0]:
                z = kk[1]
                # the remainder may have been taken of a smaller congruent term
                if z is not x and not congruent(z, x, y[0]):
                    continue
            elif kk[0] == 'mul' and kb == k and any(p == y and len(q[1]) == 1 and q[0] == 0 and q[1][0][1] == 1 and q[1][0][0].key == ('div', x, y) for p, q in ((kk[1], kk[2]), (kk[2], kk[1]))):
                z = x
            else:
                continue
            d = dict(l[1])
            del d[a]
            del d[b]
            return add(_mk(l[0], d), scale(z, k))
    return l


def congruent(x, y, m):
    d = sub(x, y)
    return d[0] % m == 0 and all(k % m == 0 for _, k in d[1])


def scale(x, k):
    if k == 0:
        return const(0)
    if k == 1:
        return x
    return lin(x[0] * k, ((a, c * k) for a, c in x[1]))


def neg(x):
    return scale(x, -1)


def sub(x, y):
    return add(x, neg(y))


def rng(l):
    """interval of a linear term: (lo|None, hi|None)"""
    lo = hi = l[0]
    for a, k in l[1]:
        alo, ahi = a.lo, a.hi
        if k < 0:
            alo, ahi = ahi, alo
        if lo is not None:
            lo = None if alo is None else lo + k * alo
        if hi is not None:
            hi = None if ahi is None else hi + k * ahi
    return lo, hi


def within(l, lo, hi):
    a, b = rng(l)
    return a is not None and b is not None and a >= lo and b <= hi


# ------------------------------------------------------------------ loads and bit segments
def load(buf, off, n, endian='le'):
    """n bytes of byte-source `buf` (hashable key) at Lin offset, unsigned"""
    if n == 1:
        endian = 'le'
    return av(atom(('load', buf, off, n, endian), 0, (1 << (8 * n)) - 1))


def bits(a, lo, n):
    """bits [lo, lo+n) of nonnegative atom a"""
    w = a.hi.bit_length()
    if lo >= w:
        return const(0)
    n = min(n, w - lo)
    if lo == 0 and n == w:
        return av(a)
    k = a.key
    if k[0] == 'bits':
        return bits(k[1], k[2] + lo, n)
    if k[0] == 'load' and lo % 8 == 0 and n % 8 == 0:
        _, buf, off, sz, en = k
        if en == 'le':
            return load(buf, add(off, const(lo // 8)), n // 8, en)
        return load(buf, add(off, const(sz - lo // 8 - n // 8)), n // 8, en)
    hi = (1 << n) - 1
    if lo + n == w:
        hi = min(hi, a.hi >> lo)
    return av(atom(('bits', a, lo, n), 0, hi))


def _base(a):
    """(base atom, lo, n) view of an atom"""
    if a.key[0] == 'bits':
        return a.key[1], a.key[2], a.key[3]
    if a.lo is not None and a.lo >= 0 and a.hi is not None:
        return a, 0, a.hi.bit_length()
    return None


def merge_parts(l):
    """join adjacent bit slices / byte loads of the same source in a linear term"""
    if len(l[1]) < 2:
        return l
    interesting = [p for p in l[1] if p[0].key[0] in ('bits', 'load')]
    if len(interesting) < 1:
        return l
    d = dict(l[1])
    changed = True
    while changed:
        changed = False
        its = [a for a in d if d[a] and (a.key[0] in ('bits', 'load') or a.hi is not None)]
        for a in its:
            for b in its:
                if a is b:
                    continue
                m = None
                k = d[a]
                if d[b] == -k and a.hi is not None and a.lo == 0:
                    # a - (low bits of a)
                    n = None
                    if b.key[0] == 'bits' and b.key[1] is a and b.key[2] == 0:
                        n = b.key[3]
                    elif b.key[0] == 'bits' and a.key[0] == 'bits' and a.key[1] is b.key[1] and a.key[2] == b.key[2] and b.key[3] < a.key[3]:
                        n = b.key[3]
                    elif b.key[0] == 'load' and a.key[0] == 'load' and a.key[1] == b.key[1] and b.key[3] < a.key[3] and (
                            (a.key[4] == 'le' and a.key[2] == b.key[2] and b.key[4] == 'le') or
                            (a.key[4] == 'be' and (b.key[3] == 1 or b.key[4] == 'be') and sub(b.key[2], a.key[2]) == const(a.key[3] - b.key[3]))):
                        n = 8 * b.key[3]
                    if n is not None:
                        m2 = scale(bits(a, n, a.hi.bit_length() - n), 1 << n)
                        del d[a]
                        del d[b]
                        for q, kk in m2[1]:
                            d[q] = d.get(q, 0) + k * kk
                        changed = True
                        break
                if a.key[0] == 'bits' and b.key[0] == 'bits' and a.key[1] is b.key[1]:
                    if a.key[2] + a.key[3] == b.key[2] and d[b] == k << a.key[3]:
                        m = bits(a.key[1], a.key[2], a.key[3] + b.key[3])
                elif a.key[0] == 'load' and b.key[0] == 'load' and a.key[1] == b.key[1] and a.key[3] + b.key[3] <= 8:
                    na, nb = a.key[3], b.key[3]
                    if d[b] == k << (8 * na):
                        diff = sub(b.key[2], a.key[2])
                        ea = a.key[4] if na > 1 else None
                        eb = b.key[4] if nb > 1 else None
                        if diff == const(na) and 'be' not in (ea, eb):
                            m = load(a.key[1], a.key[2], na + nb, 'le')
                        elif diff == const(-nb) and ('le' not in (ea, eb)):
                            m = load(a.key[1], b.key[2], na + nb, 'be')
                if m is not None:
                    del d[a]
                    del d[b]
                    for q, kk in m[1]:
                        d[q] = d.get(q, 0) + k * kk
                    changed = True
                    break
            if changed:
                break
    return _mk(l[0], d)


def segs(l, w):
    """bit segments of a nonnegative term, LSB first: list of (atom|None, lo|value, n); None if unknown"""
    c = l[0]
    if not l[1]:
        if c < 0:
            c &= (1 << w) - 1
        return [(None, c & ((1 << w) - 1), w)]
    if c < 0:
        return None
    parts = []
    for a, k in l[1]:
        if k <= 0 or k & (k - 1):
            return None
        b = _base(a)
        if b is None:
            return None
        parts.append((k.bit_length() - 1, b[2], b[0], b[1]))
    parts.sort(key=lambda p: p[0])
    out = []
    pos = 0
    for p, n, a, lo in parts:
        if p < pos:
            return None
        if (c >> p) & ((1 << n) - 1):
            return None
        if p > pos:
            out.append((None, (c >> pos) & ((1 << (p - pos)) - 1), p - pos))
        out.append((a, lo, n))
        pos = p + n
    if pos < max(w, c.bit_length()):
        e = max(w, c.bit_length())
        out.append((None, c >> pos, e - pos))
        pos = e
    # truncate to w
    res = []
    p = 0
    for a, lo, n in out:
        if p >= w:
            break
        m = min(n, w - p)
        if a is None:
            lo &= (1 << m) - 1
        res.append((a, lo, m))
        p += m
    return res


def from_segs(ss):
    r = const(0)
    p = 0
    for a, lo, n in ss:
        if a is None:
            r = add(r, const(lo << p))
        else:
            r = add(r, scale(bits(a, lo, n), 1 << p))
        p += n
    return r


def seg_slice(ss, lo, n):
    out = []
    p = 0
    for a, s, m in ss:
        x, y = max(p, lo), min(p + m, lo + n)
        if x < y:
            if a is None:
                out.append((None, (s >> (x - p)) & ((1 << (y - x)) - 1), y - x))
            else:
                out.append((a, s + x - p, y - x))
        p += m
    return out


def _bitop(op, x, y, w):
    sx, sy = segs(x, w), segs(y, w)
    if sx is None or sy is None:
        if is_const(y):
            x, y = y, x
        if is_const(x) and op == 'and':
            c = x[0] & ((1 << w) - 1)
            if c == 0:
                return const(0)
            if c == (1 << w) - 1:
                return y
            # contiguous mask c = 2^n-1 << k of a non-segmented term
            k = (c & -c).bit_length() - 1
            m = c >> k
            if m & (m + 1) == 0:
                n = m.bit_length()
                r = y if k + n == w else trunc(y, k + n)
                if k == 0:
                    return r
                return sub(r, trunc(y, k))
        if is_const(x) and op == 'or' and x[0] == 0:
            return y
        if is_const(x) and op == 'xor' and x[0] == 0:
            return y
        if x == y:
            return const(0) if op == 'xor' else x
        a, b = sorted((x, y), key=repr_key)
        hi = (1 << w) - 1
        if op == 'and':
            hs = [rng(t)[1] for t in (a, b)]
            hs = [h for h in hs if h is not None]
            hi = min([hi] + hs)
        return av(atom((op, a, b), 0, hi))
    cuts = set([0, w])
    for ss in (sx, sy):
        p = 0
        for _, _, n in ss:
            p += n
            cuts.add(p)
    # split constants into runs of equal bits
    for ss in (sx, sy):
        p = 0
        for a, v, n in ss:
            if a is None:
                for i in range(1, n):
                    if ((v >> i) & 1) != ((v >> (i - 1)) & 1):
                        cuts.add(p + i)
            p += n
    cuts = sorted(cuts)
    r = const(0)
    for p, q in zip(cuts, cuts[1:]):
        n = q - p
        a = seg_slice(sx, p, n)[0]
        b = seg_slice(sy, p, n)[0]
        if a[0] is not None and b[0] is None:
            a, b = b, a
        if a[0] is None:
            ones = a[1] != 0
            if op == 'and':
                t = [b] if ones else [(None, 0, n)]
            elif op == 'or':
                t = [(None, (1 << n) - 1, n)] if ones else [b]
            else:
                if not ones:
                    t = [b]
                elif b[0] is None:
                    t = [(None, b[1] ^ ((1 << n) - 1), n)]
                else:
                    r = add(r, scale(sub(const((1 << n) - 1), from_segs([b])), 1 << p))
                    continue
            r = add(r, scale(from_segs(t), 1 << p))
        else:
            ta, tb = from_segs([a]), from_segs([b])
            if ta == tb:
                t = const(0) if op == 'xor' else ta
            else:
                u, v = sorted((ta, tb), key=repr_key)
                t = av(atom((op, u, v), 0, (1 << n) - 1))
            r = add(r, scale(t, 1 << p))
    return r


def repr_key(l):
    return (l[0], tuple((a.id, k) for a, k in l[1]))


def band(x, y, w):
    return _bitop('and', x, y, w)


def bor(x, y, w):
    return _bitop('or', x, y, w)


def bxor(x, y, w):
    return _bitop('xor', x, y, w)


def trunc(l, w):
    """value mod 2^w"""
    lo, hi = rng(l)
    if lo is not None and hi is not None and lo >= 0 and hi < (1 << w):
        return l
    if is_const(l):
        return const(l[0] & ((1 << w) - 1))
    s = segs(l, w)
    if s is not None:
        return from_segs(s)
    if len(l[1]) == 1 and l[0] == 0 and l[1][0][1] == 1:
        a = l[1][0][0]
        if a.key[0] == 'sx' and a.key[2] >= w:
            return trunc(a.key[1], w)
        if a.key[0] == 'wrap' and a.key[2] >= w:
            return trunc(a.key[1], w)
    m = 1 << w
    # drop multiples of 2^w
    d = {a: ((k + m // 2) % m) - m // 2 for a, k in l[1]}
    l2 = _mk(l[0] % m, d)
    if l2 != l:
        return trunc(l2, w)
    return av(atom(('wrap', l, w), 0, m - 1))


def tosigned(l, w):
    """reinterpret as two's-complement signed of width w"""
    if within(l, -(1 << (w - 1)), (1 << (w - 1)) - 1):
        return l
    if is_const(l):
        v = l[0] & ((1 << w) - 1)
        return const(v - (1 << w) if v >> (w - 1) else v)
    u = trunc(l, w)
    if within(u, 0, (1 << (w - 1)) - 1):
        return u
    return av(atom(('sx', u, w), -(1 << (w - 1)), (1 << (w - 1)) - 1))


def shr(l, k):
    if k == 0:
        return l
    lo, hi = rng(l)
    if hi is not None and lo is not None and lo >= 0:
        w = max(hi.bit_length(), 1)
        s = segs(l, w)
        if s is not None:
            return from_segs(seg_slice(s, k, max(w - k, 0))) if k < w else const(0)
    return udiv(l, const(1 << k))


def udiv(x, y):
    """floor division, y != 0, both nonnegative (or y const > 0)"""
    if is_const(y):
        d = y[0]
        if d == 1:
            return x
        if d > 0:
            if is_const(x):
                return const(x[0] // d)
            if x[0] % d == 0 and all(k % d == 0 for _, k in x[1]):
                return lin(x[0] // d, ((a, k // d) for a, k in x[1]))
            lo, hi = rng(x)
            if lo is not None and hi is not None and lo // d == hi // d:
                return const(lo // d)
            # d m + x', x' < d
            xr = lin(x[0] % d, ((a, k) for a, k in x[1] if k % d))
            rlo, rhi = rng(xr)
            if rlo is not None and rhi is not None and 0 <= rlo and rhi < d:
                return lin(x[0] // d, ((a, k // d) for a, k in x[1] if k % d == 0))
            if d & (d - 1) == 0 and lo is not None and lo >= 0 and hi is not None:
                s = segs(x, hi.bit_length())
                if s is not None:
                    k = d.bit_length() - 1
                    return from_segs(seg_slice(s, k, hi.bit_length() - k))
            if x[0] // d or any(k % d == 0 for _, k in x[1]):
                # floor((d m + x') / d) = m + floor(x' / d)
                return add(lin(x[0] // d, ((a, k // d) for a, k in x[1] if k % d == 0)), udiv(lin(x[0] % d, ((a, k) for a, k in x[1] if k % d)), y))
    lo, hi = rng(x)
    ylo, yhi = rng(y)
    rlo = 0 if lo is not None and lo >= 0 else None
    rhi = None
    if hi is not None and hi >= 0:
        rhi = hi // max(ylo, 1) if ylo is not None else hi
    if lo is not None and lo >= 0 and is_const(y) and y[0] > 0:
        rlo = lo // y[0]
    if is_const(y) and y[0] > 0:
        rlo = lo // y[0] if lo is not None else None
        rhi = hi // y[0] if hi is not None else None
    return av(atom(('div', x, y), rlo, rhi))


def urem(x, y):
    if is_const(y):
        d = y[0]
        if is_const(x) and d:
            return const(x[0] % d)
        if d > 0:
            lo, hi = rng(x)
            if lo is not None and hi is not None and lo >= 0 and hi < d:
                return x
            if d & (d - 1) == 0 and lo is not None and lo >= 0:
                return trunc(x, d.bit_length() - 1)
            if all(a.lo is not None and a.lo >= 0 for a, _ in x[1]):
                x2 = _mk(x[0] % d, {a: k % d for a, k in x[1]})
                if x2 != x:
                    return urem(x2, y)
    ylo, yhi = rng(y)
    xlo, xhi = rng(x)
    hi = None if yhi is None else max(yhi - 1, 0)
    if xhi is not None and xhi >= 0:
        hi = xhi if hi is None else min(hi, xhi)
    return av(atom(('rem', x, y), 0, hi))


def mul(x, y):
    if is_const(x):
        return scale(y, x[0])
    if is_const(y):
        return scale(x, y[0])
    a, b = sorted((x, y), key=repr_key)
    xs, ys = rng(a), rng(b)
    lo = hi = None
    if xs[0] is not None and ys[0] is not None and xs[0] >= 0 and ys[0] >= 0:
        lo = xs[0] * ys[0]
        if xs[1] is not None and ys[1] is not None:
            hi = xs[1] * ys[1]
    # distribute over sums so that (a+1)*b == a*b + b
    if len(a[1]) + (a[0] != 0) > 1 or len(b[1]) + (b[0] != 0) > 1 or a[1][0][1] != 1 or b[1][0][1] != 1:
        r = const(0)
        for p, k in list(a[1]) + ([(None, a[0])] if a[0] else []):
            for q, m in list(b[1]) + ([(None, b[0])] if b[0] else []):
                if p is None and q is None:
                    t = const(1)
                elif p is None:
                    t = av(q)
                elif q is None:
                    t = av(p)
                else:
                    t = mul(av(p), av(q))
                r = add(r, scale(t, k * m))
        return r
    return av(atom(('mul', a, b), lo, hi))


# ------------------------------------------------------------------ decision diagrams
class Var:
    """decision: an opaque boolean, or a comparison of a linear term with a constant"""
    __slots__ = ('id', 'key', 'grp', 'le')
    _tab = {}

    def __repr__(self):
        return fmt_key(self.key)


_group = {}


def dvar(key):
    v = Var._tab.get(key)
    if v is None:
        v = Var()
        v.key = key
        if key[0] in ('le', 'eq') and len(key) == 2:
            # comparisons of one term stay together in the order, by ascending constant
            v.grp = _group.setdefault(('cmp', key[1][1]), len(_group))
            v.le = key[0] == 'le'
            v.id = v.grp << 140 | (2**130 - key[1][0]) << 1 | v.le
        else:
            v.grp = None
            v.le = False
            v.id = _group.setdefault(key, len(_group)) << 140
        Var._tab[key] = v
    return v


class Leaf:
    __slots__ = ('v', 'id')

    def __repr__(self):
        return 'L(%s)' % fmt(self.v)


class Node:
    __slots__ = ('var', 'hi', 'lo', 'id')

    def __repr__(self):
        return show(self)[:400]


_leaf = {}
_node = {}
_cnt = [0]


def leaf(v):
    key = (v.__class__, v)
    n = _leaf.get(key)
    if n is None:
        n = Leaf()
        n.v = v
        n.id = _cnt[0]
        _cnt[0] += 1
        _leaf[key] = n
    return n


T = leaf(True)
F = leaf(False)


def mk(var, hi, lo):
    g = var.grp
    if g is not None:
        # the term is at most (or equals) this constant: comparisons with greater ones are decided
        while hi.__class__ is Node and hi.var.grp == g:
            hi = hi.hi if hi.var.le else hi.lo
        if var.le and lo.__class__ is Node and lo.var.grp == g and not lo.var.le and lo.var.id == var.id + 1:
            # t > b and t == b+1: the same as t > b and t <= b+1
            h, l = lo.hi, lo.lo
            v = dvar(('le', lo.var.key[1]))
            if l.__class__ is Node and l.var is v:
                l = l.lo
            lo = mk(v, h, l)
    if hi is lo:
        return hi
    key = (var.id, hi.id, lo.id)
    n = _node.get(key)
    if n is None:
        n = Node()
        n.var = var
        n.hi = hi
        n.lo = lo
        n.id = _cnt[0]
        _cnt[0] += 1
        _node[key] = n
    return n


def bvar(key):
    return mk(dvar(key), T, F)


_memo_ite = {}


def ite(c, a, b):
    if c is T:
        return a
    if c is F:
        return b
    if a is b:
        return a
    if a is T and b is F:
        return c
    k = (c.id, a.id, b.id)
    r = _memo_ite.get(k)
    if r is not None:
        return r
    v = c.var
    if isinstance(a, Node) and a.var.id < v.id:
        v = a.var
    if isinstance(b, Node) and b.var.id < v.id:
        v = b.var

    def cf(n, hi):
        if isinstance(n, Node) and n.var is v:
            return n.hi if hi else n.lo
        return n
    r = mk(v, ite(cf(c, 1), cf(a, 1), cf(b, 1)), ite(cf(c, 0), cf(a, 0), cf(b, 0)))
    _memo_ite[k] = r
    return r


def And(*xs):
    r = T
    for x in xs:
        r = ite(r, x, F)
        if r is F:
            return F
    return r


def Or(*xs):
    r = F
    for x in xs:
        r = ite(r, T, x)
        if r is T:
            return T
    return r


def Not(x):
    return ite(x, F, T)


def Implies(a, b):
    return ite(a, b, T)


def Iff(a, b):
    return ite(a, b, Not(b))


def apply(f, *ns, memo=None):
    """apply leaf function f(values...)->node over diagrams"""
    if memo is None:
        memo = {}
    k = tuple(n.id for n in ns)
    r = memo.get(k)
    if r is not None:
        return r
    v = None
    for n in ns:
        if isinstance(n, Node) and (v is None or n.var.id < v.id):
            v = n.var
    if v is None:
        r = f(*[n.v for n in ns])
    else:
        hi = apply(f, *[(n.hi if isinstance(n, Node) and n.var is v else n) for n in ns], memo=memo)
        lo = apply(f, *[(n.lo if isinstance(n, Node) and n.var is v else n) for n in ns], memo=memo)
        # leaf function may return diagrams over smaller variables: use ite to stay ordered
        r = ite(mk(v, T, F), hi, lo)
    memo[k] = r
    return r


_memo_restrict = {}


def restrict(f, c):
    """generalised cofactor of f with respect to care set c (Coudert-Madre)"""
    if c is T or isinstance(f, Leaf):
        return f
    if c is F:
        return f
    k = (f.id, c.id)
    r = _memo_restrict.get(k)
    if r is not None:
        return r
    v = f.var
    if c.var.id < v.id:
        r = restrict(f, Or(c.hi, c.lo))
    elif c.var is v:
        if c.hi is F:
            r = restrict(f.lo, c.lo)
        elif c.lo is F:
            r = restrict(f.hi, c.hi)
        else:
            r = mk(v, restrict(f.hi, c.hi), restrict(f.lo, c.lo))
    else:
        r = mk(v, restrict(f.hi, c), restrict(f.lo, c))
    _memo_restrict[k] = r
    return r


def leaves(n):
    seen = set()
    out = []
    st = [n]
    while st:
        x = st.pop()
        if x.id in seen:
            continue
        seen.add(x.id)
        if isinstance(x, Leaf):
            out.append(x.v)
        else:
            st.append(x.lo)
            st.append(x.hi)
    return out


def dvars(n):
    seen = set()
    out = set()
    st = [n]
    while st:
        x = st.pop()
        if x.id in seen:
            continue
        seen.add(x.id)
        if isinstance(x, Node):
            out.add(x.var)
            st += [x.lo, x.hi]
    return out


def cubes(n, want=lambda v: v is True, limit=100000):
    """paths (list of (var,bool)) to leaves whose value satisfies want"""
    out = []

    def rec(x, acc):
        if len(out) >= limit:
            return
        if isinstance(x, Leaf):
            if want(x.v):
                out.append((list(acc), x.v))
            return
        acc.append((x.var, True))
        rec(x.hi, acc)
        acc[-1] = (x.var, False)
        rec(x.lo, acc)
        acc.pop()
    rec(n, [])
    return out


# ------------------------------------------------------------------ atoms over integers
from math import gcd


def _content(l):
    g = 0
    for _, k in l[1]:
        g = gcd(g, k)
    return g


def le0(l):
    """diagram for l <= 0"""
    lo, hi = rng(l)
    if hi is not None and hi <= 0:
        return T
    if lo is not None and lo > 0:
        return F
    g = _content(l)
    if g > 1:
        c = -((-l[0]) // g)  # ceil(c/g)
        l = lin(c, ((a, k // g) for a, k in l[1]))
    if len(l[1]) == 1:
        k = l[1][0][0].key
        if k[0] == 'div' and is_const(k[2]) and k[2][0] > 0 and (rng(k[1])[0] is None or rng(k[1])[0] < 0):
            # floor(x/d) <= n is x <= n d + d - 1
            if l[1][0][1] > 0:
                return le0(sub(k[1], const(-l[0] * k[2][0] + k[2][0] - 1)))
            return le0(sub(const(l[0] * k[2][0]), k[1]))
    elif len(l[1]) > 1:
        dv = [p for p in l[1] if p[0].key[0] == 'div' and p[1] in (1, -1) and is_const(p[0].key[2]) and p[0].key[2][0] > 0]
        if len(dv) == 1 and (rng(dv[0][0].key[1])[0] is None or rng(dv[0][0].key[1])[0] < 0):
            # r + floor(x/d) <= 0 is x + d r <= d - 1
            x, d = dv[0][0].key[1], dv[0][0].key[2][0]
            r = lin(l[0], (p for p in l[1] if p[0] is not dv[0][0]))
            if dv[0][1] > 0:
                return le0(sub(add(x, scale(r, d)), const(d - 1)))
            return le0(sub(scale(r, d), x))
    if l[1][0][1] < 0:
        m = add(neg(l), const(1))
        return Not(bvar(('le', m)))
    return bvar(('le', l))


def le(x, y):
    return le0(sub(x, y))


def lt(x, y):
    return le0(add(sub(x, y), const(1)))


def eq0(l):
    lo, hi = rng(l)
    if lo is not None and lo > 0 or hi is not None and hi < 0:
        return F
    if is_const(l):
        return T if l[0] == 0 else F
    g = _content(l)
    if l[0] % g:
        return F
    if l[1][0][1] < 0:
        l = neg(l)
        lo, hi = (None if hi is None else -hi), (None if lo is None else -lo)
    if g > 1:
        l = lin(l[0] // g, ((a, k // g) for a, k in l[1]))
        lo, hi = rng(l)
    # 2^a == 2^b (modulo the word) exactly when a == b or both are shifted out
    if l[0] == 0 and len(l[1]) == 2 and l[1][0][1] == 1 and l[1][1][1] == -1:
        p, q = l[1][0][0].key, l[1][1][0].key
        if p[0] == q[0] == 'shl' and p[1] == q[1] == const(1) and p[3] == q[3]:
            w = const(p[3])
            return Or(eq(p[2], q[2]), And(le(w, p[2]), le(w, q[2])))
    # disjoint segments compared with a constant: split into conjunction
    if l[0] <= 0 and len(l[1]) > 1:
        w = max(rng(lin(0, l[1]))[1].bit_length() if rng(lin(0, l[1]))[1] is not None else 0, (-l[0]).bit_length())
        s = segs(lin(0, l[1]), w) if w else None
        if s is not None:
            v = -l[0]
            p = 0
            r = T
            for a, x, n in s:
                want = (v >> p) & ((1 << n) - 1)
                if a is None:
                    if x != want:
                        return F
                else:
                    r = And(r, eq0(sub(bits(a, x, n), const(want))))
                p += n
            if v >> p:
                return F
            return r
    if lo == 0:
        return le0(l)
    if hi == 0:
        return le0(neg(l))
    return bvar(('eq', l))


def eq(x, y):
    return eq0(sub(x, y))


# ------------------------------------------------------------------ printing
def fmt_key(k):
    if isinstance(k, Atom):
        return fmt_atom(k)
    if isinstance(k, tuple) and len(k) == 2 and isinstance(k[0], int) and isinstance(k[1], tuple) and (not k[1] or (isinstance(k[1][0], tuple) and len(k[1][0]) == 2 and isinstance(k[1][0][0], Atom))):
        return fmt(k)
    if isinstance(k, tuple):
        if k and k[0] == 'le':
            return '%s<=0' % fmt(k[1])
        if k and k[0] == 'eq':
            return '%s==0' % fmt(k[1])
        return '(' + ' '.join(fmt_key(x) for x in k) + ')'
    return str(k)


def fmt_atom(a):
    k = a.key
    if k[0] == 'load':
        return '%s[%s;%d%s]' % (fmt_key(k[1]), fmt(k[2]), k[3], '' if k[3] == 1 else k[4])
    if k[0] == 'bits':
        return '%s<%d:%d>' % (fmt_atom(k[1]), k[2], k[2] + k[3])
    return fmt_key(k)


def fmt(v):
    if isinstance(v, tuple) and len(v) == 2 and isinstance(v[1], tuple) and all(isinstance(x, tuple) and len(x) == 2 for x in v[1]):
        s = ''
        for a, k in v[1]:
            t = fmt_atom(a)
            if abs(k) != 1:
                t = '%s*%s' % (hex(abs(k)) if abs(k) > 4096 else abs(k), t)
            s += ('-' if k < 0 else '+' if s else '') + t
        if v[0] or not s:
            s += ('+' if v[0] >= 0 and s else '') + (str(v[0]) if abs(v[0]) < 65536 else ('-' if v[0] < 0 else '') + hex(abs(v[0])))
        return s
    return str(v)


def show(n, depth=0):
    if isinstance(n, Leaf):
        return fmt(n.v)
    if depth > 8:
        return '...'
    if n.hi is T and n.lo is F:
        return repr(n.var)
    if n.hi is F and n.lo is T:
        return '!' + repr(n.var)
    return '(%r ? %s : %s)' % (n.var, show(n.hi, depth + 1), show(n.lo, depth + 1))


def gurem(x, y):
    """x mod y as a diagram: split by cases where x is known to lie below 3*y, otherwise an atom.
    (y is not zero wherever the result matters.)"""
    if is_const(x) and is_const(y):
        return leaf(urem(x, y)) if y[0] else leaf(const(0))
    d = None
    if is_const(y):
        d = y[0]
        lo, hi = rng(x)
        single = len(x[1]) == 1 and x[0] == 0 and x[1][0][1] == 1
        if d > 0 and not single and lo is not None and hi is not None and lo >= 0 and d <= hi < 3 * d:
            r = ite(lt(x, y), leaf(x), leaf(sub(x, y)))
            if hi >= 2 * d:
                r = ite(lt(x, scale(y, 2)), r, leaf(sub(x, scale(y, 2))))
            return r
        return leaf(urem(x, y))
    if x == y:
        return leaf(const(0))
    # bounds of x as linear terms, from 0 <= rem(_, z) <= z - 1
    low = high = const(x[0])
    hasrem = False
    for a, k in x[1]:
        if a.key[0] == 'rem' and not is_const(a.key[2]):
            hasrem = True
            m = scale(sub(a.key[2], const(1)), k)
            if k > 0:
                high = add(high, m)
            else:
                low = add(low, m)
        else:
            low = add(low, scale(av(a), k))
            high = add(high, scale(av(a), k))
    if hasrem and len(x[1]) + (x[0] != 0) > 1:
        l0 = rng(low)[0]
        if l0 is None or l0 < 0:
            l0 = rng(sub(low, sub(y, const(1))))[0]         # y >= 1
        top = sub(high, scale(y, 2))
        ok = False
        for t in (top, add(top, sub(y, const(1)))):         # y >= 1
            h = rng(t)[1]
            ok = ok or (h is not None and h < 0)
        if l0 is not None and l0 >= 0 and ok:
            return ite(lt(x, y), leaf(x), leaf(sub(x, y)))
    return leaf(urem(x, y))


def bitcount(what, v, w):
    """trailing zeros, leading zeros or ones of the w-bit number v"""
    v &= (1 << w) - 1
    if what == 'ctpop':
        return bin(v).count('1')
    if what == 'ctlz':
        return w - v.bit_length()
    return (v & -v).bit_length() - 1 if v else w
