"""Feasibility of decision-diagram paths in an interval domain.

`infeasible(d)` decides that no path of the boolean diagram `d` leads to True once contradictory
comparisons are discarded.  The domain keeps, for every linear term occurring in comparisons, an
interval and a finite set of excluded values; at the end of a path the comparisons are propagated
through each other as linear inequalities (bounds propagation).  Everything is over-approximate: a
path is discarded only when the constraints on it are contradictory.
"""
from terms import *

_split = {}


def split(v):
    """var -> (kind, base term, bound): base <= bound / base == bound; None for opaque booleans"""
    r = _split.get(v)
    if r is None:
        k = v.key
        if k[0] in ('le', 'eq') and len(k) == 2:
            l = k[1]
            r = (k[0], lin(0, l[1]), -l[0])
        else:
            r = (None, None, None)
        _split[v] = r
    return r


_rng = {}


def base_rng(t):
    r = _rng.get(t)
    if r is None:
        r = _rng[t] = rng(t)
    return r


def assume(st, v, want):
    """extend constraint map; None if contradictory"""
    kind, t, b = split(v)
    if kind is None:
        return st
    lo, hi, ex = st.get(t) or (base_rng(t) + (frozenset(),))
    if kind == 'le':
        if want:
            hi = b if hi is None else min(hi, b)
        else:
            lo = b + 1 if lo is None else max(lo, b + 1)
    else:
        if want:
            if b in ex:
                return None
            lo = b if lo is None else max(lo, b)
            hi = b if hi is None else min(hi, b)
        else:
            ex = ex | {b}
    while lo is not None and lo in ex:
        lo += 1
    while hi is not None and hi in ex and (lo is None or hi >= lo):
        hi -= 1
    if lo is not None and hi is not None and lo > hi:
        return None
    n = dict(st)
    n[t] = (lo, hi, ex)
    return n


def decided(st, v):
    kind, t, b = split(v)
    if kind is None:
        return None
    c = st.get(t)
    if c is None:
        return None
    lo, hi, ex = c
    if kind == 'le':
        if hi is not None and hi <= b:
            return True
        if lo is not None and lo > b:
            return False
    else:
        if b in ex or (lo is not None and lo > b) or (hi is not None and hi < b):
            return False
        if lo == b and hi == b:
            return True
    return None


_supp = {}


def supp(n):
    """terms compared below a node"""
    if isinstance(n, Leaf):
        return frozenset()
    r = _supp.get(n.id)
    if r is None:
        st = [n]
        while st:
            x = st[-1]
            if x.id in _supp or isinstance(x, Leaf):
                st.pop()
                continue
            todo = [c for c in (x.hi, x.lo) if isinstance(c, Node) and c.id not in _supp]
            if todo:
                st += todo
                continue
            s = frozenset()
            for c in (x.hi, x.lo):
                if isinstance(c, Node):
                    s |= _supp[c.id]
            t = split(x.var)[1]
            if t is not None:
                s |= {t}
            _supp[x.id] = s
            st.pop()
        r = _supp[n.id]
    return r


class Budget(Exception):
    pass


def tighten(bounds, cons, rounds=30):
    """bounds propagation; bounds: atom -> [lo,hi]; cons: list of linear terms l <= 0; False if contradictory"""
    for _ in range(rounds):
        changed = False
        for l in cons:
            # minimum of every summand
            mins = []
            inf = 0
            tot = l[0]
            for a, k in l[1]:
                lo, hi = bounds[a]
                m = lo if k > 0 else hi
                if m is None:
                    inf += 1
                    mins.append(None)
                else:
                    mins.append(k * m)
                    tot += k * m
            if inf == 0 and tot > 0:
                return False
            if inf > 1:
                continue
            for (a, k), m in zip(l[1], mins):
                if inf == 1 and m is not None:
                    continue
                rest = tot - (m or 0)
                # k*a <= -rest
                b = bounds[a]
                if k > 0:
                    nh = (-rest) // k
                    if b[1] is None or nh < b[1]:
                        b[1] = nh
                        changed = True
                else:
                    nl = -((-rest) // (-k))
                    if b[0] is None or nl > b[0]:
                        b[0] = nl
                        changed = True
                if b[0] is not None and b[1] is not None and b[0] > b[1]:
                    return False
        if not changed:
            break
    return True


def sub_atoms(l, out):
    """atoms of a term, and of the arguments of its arithmetic atoms"""
    for a, _ in l[1]:
        if a in out:
            continue
        out.add(a)
        k = a.key
        if k[0] in ('div', 'rem', 'divc', 'mul', 'wrap', 'sx', 'shr', 'and', 'or', 'xor'):
            for x in k[1:3]:
                if isinstance(x, tuple) and len(x) == 2 and isinstance(x[1], tuple):
                    sub_atoms(x, out)
        elif k[0] == 'bits':
            sub_atoms(av(k[1]), out)


def _raw_le(a, x):
    """a - x, not rewritten into a remainder"""
    d = {b: -c for b, c in x[1]}
    d[a] = d.get(a, 0) + 1
    return lin(-x[0], tuple(sorted(((b, c) for b, c in d.items() if c), key=lambda p: p[0].id)))


def chain_root(t, y, low, depth=0):
    """x such that the term t is at most x / y, found by peeling divisions and right shifts"""
    if depth > 6 or t[0] != 0 or len(t[1]) != 1 or t[1][0][1] != 1:
        return None
    k = t[1][0][0].key
    if k[0] == 'div':
        l0, l1 = low(k[1]), low(k[2])
        if l0 is None or l0 < 0 or l1 is None or l1 < 0:
            return None
        if k[2] == y:
            return k[1]
        return chain_root(k[1], y, low, depth + 1)
    if k[0] == 'bits':
        return chain_root(av(k[1]), y, low, depth + 1)
    return None


def bytes_ok(atoms, bounds):
    """loads that overlap agree on their bytes: a load of which every byte is known is known; False if contradictory"""
    loads = [a for a in atoms if a.key[0] == 'load']
    if len(loads) < 2:
        return True
    mem = {}
    for a in loads:
        _, buf, off, n, en = a.key
        x = bounds.get(a)
        if x is not None and x[0] is not None and x[0] == x[1]:
            bs = x[0].to_bytes(n, 'big' if en == 'be' else 'little')
            for i, b in enumerate(bs):
                if mem.setdefault((buf, off[1], off[0] + i), b) != b:
                    return False
    if not mem:
        return True
    for a in loads:
        _, buf, off, n, en = a.key
        bs = [mem.get((buf, off[1], off[0] + i)) for i in range(n)]
        if None not in bs:
            v = int.from_bytes(bytes(bs), 'big' if en == 'be' else 'little')
            x = bounds.setdefault(a, [a.lo, a.hi])
            if v < x[0] or v > x[1]:
                return False
            x[0] = x[1] = v
    return True


def linear_ok(cube, given=None):
    """False if the comparisons on the cube are contradictory under bounds propagation"""
    cons = [given] if given is not None else []
    atoms = set()
    nes = []
    for v, w in cube:
        kind, t, b = split(v)
        if kind is None:
            continue
        sub_atoms(t, atoms)
        if kind == 'le':
            if w:
                cons.append(lin(-b, t[1]))
            else:
                cons.append(add(const(b + 1), neg(t)))
        elif w:
            cons.append(lin(-b, t[1]))
            cons.append(neg(lin(-b, t[1])))
        else:
            nes.append((t, b))
    for a in list(atoms):
        k = a.key
        if k[0] in ('div', 'rem') and is_const(k[2]) and k[2][0] > 0 and rng(k[1])[0] is not None and rng(k[1])[0] >= 0:
            y = k[2][0]
            if k[0] == 'div':
                # y*q <= x <= y*q + y-1
                cons.append(sub(scale(av(a), y), k[1]))
                cons.append(sub(sub(k[1], scale(av(a), y)), const(y - 1)))
            else:
                cons.append(sub(av(a), k[1]))
        elif k[0] == 'divc' and is_const(k[2]) and k[2][0] > 0:
            y = k[2][0]
            cons.append(sub(k[1], scale(av(a), y)))
            cons.append(sub(sub(scale(av(a), y), k[1]), const(y - 1)))
        elif k[0] == 'div' and rng(k[1])[0] is not None and rng(k[1])[0] >= 0 and rng(k[2])[0] is not None and rng(k[2])[0] >= 0:
            cons.append(sub(av(a), k[1]))
        elif k[0] == 'wrap' and rng(k[1])[0] is not None and rng(k[1])[0] >= 0:
            cons.append(sub(av(a), k[1]))
        elif k[0] == 'bits':
            cons.append(sub(scale(av(a), 1 << k[2]), av(k[1])))
        elif k[0] == 'mul':
            x, y = k[1], k[2]
            if rng(x)[0] is not None and rng(x)[0] >= 1 and rng(y)[0] is not None and rng(y)[0] >= 0:
                cons.append(sub(y, av(a)))
            if rng(y)[0] is not None and rng(y)[0] >= 1 and rng(x)[0] is not None and rng(x)[0] >= 0:
                cons.append(sub(x, av(a)))
    bounds = {}
    for l in cons:
        for a, _ in l[1]:
            bounds.setdefault(a, [a.lo, a.hi])
    # pairwise sums cancel shared atoms (difference reasoning), a few rounds
    seen = set(cons)
    base = list(cons)[:60]
    work = list(base)
    for _ in range(2):
        new = []
        for l in work:
            for m in base:
                for a, k in l[1][:4]:
                    for b, j in m[1][:4]:
                        if a is b and k * j < 0:
                            s = add(scale(l, abs(j)), scale(m, abs(k)))
                            if is_const(s):
                                if s[0] > 0:
                                    return False
                            elif s not in seen and len(s[1]) <= 3:
                                seen.add(s)
                                new.append(s)
                if len(new) > 400:
                    break
        cons += new
        work = new[:60]
    for l in cons:
        for a, _ in l[1]:
            bounds.setdefault(a, [a.lo, a.hi])
    if not tighten(bounds, cons):
        return False
    # facts about division that need a positive divisor
    extra = []

    def low(t):
        lo = t[0]
        for b, j in t[1]:
            x = bounds.get(b) or [b.lo, b.hi]
            x = x[0] if j > 0 else x[1]
            if x is None:
                return None
            lo += j * x
        return lo
    for a in atoms:
        k = a.key
        if k[0] in ('div', 'rem') and not is_const(k[2]):
            lo = low(k[2])
            if lo is not None and lo >= 1 and rng(k[1])[0] is not None and rng(k[1])[0] >= 0:
                if k[0] == 'rem':
                    extra.append(add(sub(av(a), k[2]), const(1)))
                    extra.append(sub(av(a), k[1]))
                else:
                    extra.append(sub(av(a), k[1]))
        elif k[0] == 'bits':
            x = av(k[1])
            lb, ub = low(x), low(neg(x))
            w = k[2] + k[3]
            if lb is not None and ub is not None and lb >> w == -ub >> w:
                # the bits above are known: 2^lo a <= x - high < 2^lo (a + 1)
                x = add(x, const(-((lb >> w) << w)))
                extra.append(sub(scale(av(a), 1 << k[2]), x))
                extra.append(sub(sub(x, scale(av(a), 1 << k[2])), const((1 << k[2]) - 1)))
        elif k[0] == 'mul':
            for u, v in ((k[1], k[2]), (k[2], k[1])):
                lo = low(u)
                root = chain_root(v, u, low)
                lv = low(v)
                if lo is not None and lo >= 1 and lv is not None and lv >= 0:
                    # lo <= u and 0 <= v: the product is at least lo * v
                    extra.append(sub(scale(v, lo), av(a)))
                    for j in range(1, min(lo, 4)):
                        extra.append(sub(scale(v, j), av(a)))
                    hi = low(neg(u))
                    if hi is not None and -hi < 1 << 64:
                        extra.append(sub(av(a), scale(v, -hi)))
                if root is not None and lo is not None and lo >= 0:
                    extra.append(_raw_le(a, root))
                    for b in list(atoms):
                        if b.key[0] == 'rem' and b.key[1] == root and b.key[2] == u:
                            extra.append(sub(add(av(a), av(b)), root))
    prods = {}
    for a in atoms:
        if a.key[0] == 'mul':
            for u, v in ((a.key[1], a.key[2]), (a.key[2], a.key[1])):
                if u[0] == 0 and len(u[1]) == 1 and u[1][0][1] == 1:
                    prods.setdefault(v, {})[u[1][0][0]] = a
    for y, tab in prods.items():
        lo = low(y)
        if len(tab) > 1 and lo is not None and lo >= 0:
            for l in base:
                # a constraint times a non-negative factor, where all the products occur
                if l[1] and all(a in tab for a, _ in l[1]):
                    t = scale(y, l[0])
                    for a, k in l[1]:
                        t = add(t, scale(av(tab[a]), k))
                    extra.append(t)
    for a in atoms:
        k = a.key
        if k[0] == 'wrap' and isinstance(k[2], int):
            x = k[1]
            lb, ub = low(x), low(neg(x))
            ub = None if ub is None else -ub
            for l in cons + extra:
                if l[1] == x[1]:                                # x + (l0 - x0) <= 0
                    ub = x[0] - l[0] if ub is None else min(ub, x[0] - l[0])
                elif l[1] == neg(x)[1]:                         # -x + (l0 + x0) <= 0
                    lb = l[0] + x[0] if lb is None else max(lb, l[0] + x[0])
                elif lb is None or lb < 0:
                    y = add(x, l)                               # x >= x + l
                    if len(y[1]) < len(x[1]):
                        y = low(y)
                        if y is not None:
                            lb = y if lb is None else max(lb, y)
            if lb is not None and ub is not None and lb >> k[2] == ub >> k[2]:
                x = add(x, const(-((lb >> k[2]) << k[2])))
                extra.append(sub(av(a), x))
                extra.append(sub(x, av(a)))
    if extra:
        for l in extra:
            for a, _ in l[1]:
                bounds.setdefault(a, [a.lo, a.hi])
        # combine each fact with the other constraints so that shared atoms cancel
        more = []
        for l in extra:
            for m in base:
                for a, k in l[1]:
                    for b, j in m[1]:
                        if a is b and k * j < 0:
                            s2 = add(scale(l, abs(j)), scale(m, abs(k)))
                            if is_const(s2):
                                if s2[0] > 0:
                                    return False
                            elif len(s2[1]) <= 4:
                                more.append(s2)
        cons += extra + more
        for l in cons:
            for a, _ in l[1]:
                bounds.setdefault(a, [a.lo, a.hi])
        if not tighten(bounds, cons):
            return False
    if not bytes_ok(atoms, bounds):
        return False
    for t, b in nes:
        lo = hi = 0
        for a, k in t[1]:
            x = bounds.get(a) or [a.lo, a.hi]
            l, h = (x[0], x[1]) if k > 0 else (x[1], x[0])
            lo = None if lo is None or l is None else lo + k * l
            hi = None if hi is None or h is None else hi + k * h
        if lo is not None and lo == hi == b:
            return False
    if given is None:
        # t != b holds on one of its two sides
        for t, b in nes[:6]:
            if len(t[1]) > 1:
                if not linear_ok(cube, lin(-b + 1, t[1])) and not linear_ok(cube, add(const(b + 1), neg(t))):
                    return False
    return True


def find_cube(d, budget=200000, leafbudget=3000):
    """a path of d to True that survives the interval domain, None if there is none; Budget if it gives up"""
    if d is F:
        return None
    if d is T:
        return []
    memo = set()
    cnt = [0, 0]

    def rec(n, st, path):
        if n is F:
            return None
        if n is T:
            cnt[1] += 1
            if cnt[1] > leafbudget:
                raise Budget()
            return list(path) if linear_ok(path) else False
        cnt[0] += 1
        if cnt[0] > budget:
            raise Budget()
        s = supp(n)
        key = (n.id, frozenset((t, st[t]) for t in s if t in st))
        if key in memo:
            return None
        dirty = False
        w0 = decided(st, n.var)
        for w, c in ((True, n.hi), (False, n.lo)):
            if c is F or (w0 is not None and w0 != w):
                continue
            st2 = assume(st, n.var, w)
            if st2 is None:
                continue
            path.append((n.var, w))
            r = rec(c, st2, path)
            path.pop()
            if r:
                return r
            if r is False:
                dirty = True
        if dirty:
            return False
        memo.add(key)
        return None
    return rec(d, {}, []) or None


def infeasible(d, budget=200000):
    """True: no consistent path reaches True; False: one survives; None: gave up"""
    if d is F:
        return True
    try:
        return find_cube(d, budget) is None
    except (Budget, RecursionError):
        return None


_bin = {}


def bounds_in(d, t):
    """interval of the term t over the paths of d to True: (lo, hi) or None if there are none"""
    if d is F:
        return None
    if isinstance(d, Leaf) or t not in supp(d):
        return (None, None)
    key = (d.id, t)
    if key in _bin:
        return _bin[key]
    kind, u, b = split(d.var)
    hi, lo = bounds_in(d.hi, t), bounds_in(d.lo, t)
    if u is t or u == t:
        def meet(r, l, h):
            if r is None:
                return None
            l = r[0] if l is None else l if r[0] is None else max(l, r[0])
            h = r[1] if h is None else h if r[1] is None else min(h, r[1])
            return None if l is not None and h is not None and l > h else (l, h)
        if kind == 'le':
            hi, lo = meet(hi, None, b), meet(lo, b + 1, None)
        else:
            hi = meet(hi, b, b)
    if hi is None or lo is None:
        r = lo if hi is None else hi
    else:
        r = (None if hi[0] is None or lo[0] is None else min(hi[0], lo[0]), None if hi[1] is None or lo[1] is None else max(hi[1], lo[1]))
    _bin[key] = r
    return r


def settled(g, pc):
    """g where it is a single comparison which pc decides through another bound of the same term, else g"""
    if isinstance(g, Leaf) or not (isinstance(g.hi, Leaf) and isinstance(g.lo, Leaf)):
        return g
    kind, t, b = split(g.var)
    if kind is None or isinstance(pc, Leaf) or t not in supp(pc):
        return g
    r = bounds_in(pc, t)
    if r is None:
        return g
    lo, hi = r
    a, c = base_rng(t)
    lo = a if lo is None else lo if a is None else max(lo, a)
    hi = c if hi is None else hi if c is None else min(hi, c)
    w = None
    if kind == 'le':
        if hi is not None and hi <= b:
            w = True
        elif lo is not None and lo > b:
            w = False
    elif lo is not None and lo == hi == b:
        w = True
    elif (lo is not None and lo > b) or (hi is not None and hi < b):
        w = False
    return g if w is None else g.hi if w else g.lo
