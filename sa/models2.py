"""Models of iterators, maps, callables and byte streams."""
import re
from terms import *
from feas import settled, infeasible
import interp as IN
from interp import VAgg, VEnum, VOpq, VMap, VDev, Seq, Ptr, P, L, LV, UNDEF, Unsupported, map1, map2, prd, leaf, State, Budget
from models import M, model, enum, option, result, opt_none, variant_index, unit, as_slice, slen, seq_of, new_vec, value_eq, deref, fold_int, clone_of


# ------------------------------------------------------------------ callables
def call_shim(c):
    a = c.args[1]
    if isinstance(a, VOpq):
        a = c.I.expand(a)
    if isinstance(a, VAgg):
        args = a.f
    elif a is UNDEF:
        args = []
    else:
        raise Unsupported('call args %r' % (a,))
    return c.I.call_value(c.args[0], args, c.s, c.t, c.destty)


for _n in ('std::ops::FnOnce::call_once', 'std::ops::FnMut::call_mut', 'std::ops::Fn::call'):
    M[_n] = call_shim


@model('std::ops::function::impls::<impl std::ops::FnOnce<A> for &mut F>::call_once', 'std::ops::function::impls::<impl std::ops::FnMut<A> for &mut F>::call_mut',
       'core::ops::function::impls::<impl std::ops::FnOnce<A> for &mut F>::call_once', 'core::ops::function::impls::<impl std::ops::FnMut<A> for &mut F>::call_mut')
def m_call_ref(c):
    return call_shim(c)


# ------------------------------------------------------------------ helpers
def flag(I, v=True):
    if I.unroll_flag:
        if v is True and I.unroll_flag[-1] is None:
            I.unroll_flag[-1] = True
        elif v is False:
            I.unroll_flag[-1] = False


SMALL = 64


def small(I, s, n):
    """can the length be no more than SMALL here?"""
    if const_len(n):
        return True
    if s.pc is F or not isinstance(n, (Node, Leaf)) or any(not isinstance(x, tuple) for x in leaves(n)):
        return False
    if all(not is_const(x) and (rng(x)[1] is None or rng(x)[1] > SMALL) for x in leaves(n)) and isinstance(n, Leaf) and isinstance(s.pc, Leaf):
        return False
    return infeasible(And(s.pc, prd(lambda l: lt(const(SMALL), l), n)), 2000) is True


def const_len(n):
    return isinstance(n, (Node, Leaf)) and all(isinstance(x, tuple) and is_const(x) for x in leaves(n))


def ptr_add(ptr, *proj):
    return apply(lambda p: leaf(Ptr(p.alloc, p.proj + tuple(proj))), ptr)


def field(I, ty, name):
    for i, f in enumerate(ty['variants'][0]['fields']):
        if f[0] == name:
            return i, I.ty(f[1])
    raise Unsupported('no field %s in %s' % (name, ty['name']))


def fptr(I, ptr, ty, name):
    i, t = field(I, ty, name)
    return ptr_add(ptr, ('f', i)), t


def alloc(I, s, v, tag='tmp'):
    al = ('H',) + I.fresh(tag)
    s.st[al] = v
    return P(al)


def split(I, s, g):
    """(state under g, state under not g)"""
    return s.fork(And(s.pc, g)), s.fork(And(s.pc, Not(g)))


def merge_into(I, s, states):
    m = I.merge([x for x in states if x.pc is not F])
    if m is None:
        s.pc = F
        return
    s.pc, s.st = m.pc, m.st


def merge_vals(I, s, pairs):
    """merge [(state, value)] into s, returns merged value"""
    pairs = [(x, v) for x, v in pairs if x.pc is not F]
    if not pairs:
        s.pc = F
        return UNDEF
    if len(pairs) == 1:
        s.pc, s.st = pairs[0][0].pc, pairs[0][0].st
        return pairs[0][1]
    al = ('H', 'mv', I.frame_n, len(I.events), id(pairs))
    for x, v in pairs:
        x.st[al] = v
    m = I.merge([x for x, v in pairs])
    v = m.st.pop(al)
    s.pc, s.st = m.pc, m.st
    return v


def sel(I, s, g):
    """guard simplified under the current path condition"""
    if s.pc is F:
        return F
    return settled(restrict(g, s.pc), s.pc)


def opt_cases(I, s, o):
    """(guard of Some, payload) of an Option value"""
    o = I.expand(o)
    if not isinstance(o, VEnum):
        raise Unsupported('option %r' % (o,))
    ty = I.ty(o.ty)
    i = variant_index(ty, 'Some')
    if i not in o.alts:
        return F, UNDEF
    g, f = o.alts[i]
    return sel(I, s, g), f[0]


def opt_ty(I, vt):
    return None


class Opt:
    """iter_next result: guard of Some and payload"""
    __slots__ = ('g', 'v')

    def __init__(self, g, v):
        self.g, self.v = g, v


def tuple_of(*xs):
    return VAgg(None, list(xs))


def callf(c, fptr_, args, s, destty=None):
    return c.I.call_value(fptr_, list(args), s, c.t, destty or {'k': 'other', 'id': None, 'name': '?'})


def elem_default(ty):
    return None


def base_path(ty):
    return ty['path'] if ty['k'] == 'adt' else ty['k']


# ------------------------------------------------------------------ creating iterators
def adt_args(I, ty):
    return [I.ty(a) for a in ty.get('args', [])]


def mk_iter(I, s, kind, **kw):
    return VAgg(('it', kind), list(kw.values()))


@model('core::slice::<impl [T]>::iter', 'core::slice::<impl [T]>::iter_mut', 'core::slice::iter::<impl std::iter::IntoIterator for &\'a [T]>::into_iter', 'core::slice::iter::<impl std::iter::IntoIterator for &\'a mut [T]>::into_iter',
       "<&'a std::vec::Vec<T, A> as std::iter::IntoIterator>::into_iter", "<&'a mut std::vec::Vec<T, A> as std::iter::IntoIterator>::into_iter",
       "std::array::<impl std::iter::IntoIterator for &'a [T; N]>::into_iter", "std::array::<impl std::iter::IntoIterator for &'a mut [T; N]>::into_iter")
def m_slice_iter(c):
    return VAgg(c.destty['id'], [as_slice(c.I, c.s, c.args[0])])


@model('<std::vec::Vec<T, A> as std::iter::IntoIterator>::into_iter')
def m_vec_into_iter(c):
    I, s = c.I, c.s
    v = c.args[0]
    return VAgg(c.destty['id'], [as_slice(I, s, v)])


def array_into_iter(c):
    I, s = c.I, c.s
    v = c.args[0]
    if not isinstance(v, Seq):
        raise Unsupported('array into_iter')
    p = alloc(I, s, v, 'arr')
    return VAgg(c.destty['id'], [as_slice(I, s, p)])


M['std::array::iter::<impl std::iter::IntoIterator for [T; N]>::into_iter'] = array_into_iter


def chunk_model(c):
    I, s = c.I, c.s
    base = as_slice(I, s, c.args[0])
    c.I.panic(s, prd(lambda n: eq(n, const(0)), c.args[1]), 'chunk size zero', c.t['sp'])
    return VAgg(c.destty['id'], [base, c.args[1]])


for _k in ('chunks', 'chunks_mut', 'chunks_exact', 'chunks_exact_mut', 'windows'):
    M['core::slice::<impl [T]>::' + _k] = chunk_model


def to_vmap(I, v):
    return v if isinstance(v, VMap) else None


def map_ptr(I, s, v):
    """pointer to map value -> single pointer whose target is a VMap"""
    def chk(p):
        x = I.read_ptr(p, s)
        if isinstance(x, VMap):
            return leaf(p)
        if isinstance(x, (Node, Leaf)):
            return map_ptr(I, s, x)
        if isinstance(x, VAgg):
            for i, y in enumerate(x.f):
                if isinstance(y, VMap):
                    return leaf(Ptr(p.alloc, p.proj + (('f', i),)))
        raise Unsupported('map of %r' % (type(x).__name__,))
    return apply(chk, v)


def map_iter(c):
    """iter / iter_mut / values / values_mut / keys over a map pointer"""
    p = map_ptr(c.I, c.s, c.args[0])
    return VAgg(c.destty['id'], [p, L(0)])


HM = 'std::collections::HashMap'
BM = 'std::collections::BTreeMap'
HS = 'std::collections::HashSet'
BS = 'std::collections::BTreeSet'
for _n in ('iter', 'iter_mut', 'values', 'values_mut', 'keys'):
    for _p in ('<K, V, S, A>', '<K, V, S>', '<K, V, A>', '<K, V>'):
        M['%s::%s::%s' % (HM, _p, _n)] = map_iter
        M['%s::%s::%s' % (BM, _p, _n)] = map_iter
for _p in ('<T, S, A>', '<T, S>', '<T>', '<T, A>'):
    M['%s::%s::iter' % (HS, _p)] = map_iter
    M['%s::%s::iter' % (BS, _p)] = map_iter


def map_into_iter(c):
    v = c.args[0]
    if isinstance(v, (Node, Leaf)):
        return VAgg(c.destty['id'], [map_ptr(c.I, c.s, v), L(0)])
    if not isinstance(v, VMap):
        raise Unsupported('map into_iter of %s' % type(v).__name__)
    return VAgg(c.destty['id'], [alloc(c.I, c.s, v, 'map'), L(0)])


MAP_INTO = ('into_iter', 'into_values', 'into_keys')

# ------------------------------------------------------------------ next (pull)
SLICE_ITERS = ('std::slice::Iter', 'std::slice::IterMut', 'std::vec::IntoIter', 'std::array::IntoIter', 'std::vec::Drain')
CHUNKS = {'std::slice::Chunks': 'c', 'std::slice::ChunksMut': 'c', 'std::slice::ChunksExact': 'e', 'std::slice::ChunksExactMut': 'e', 'std::slice::Windows': 'w'}
MAP_ITERS = {}
for _m in ('hash_map', 'btree_map'):
    MAP_ITERS['std::collections::%s::Iter' % _m] = 'kv&'
    MAP_ITERS['std::collections::%s::IterMut' % _m] = 'kv&'
    MAP_ITERS['std::collections::%s::IntoIter' % _m] = 'kv'
    MAP_ITERS['std::collections::%s::Values' % _m] = 'v&'
    MAP_ITERS['std::collections::%s::ValuesMut' % _m] = 'v&'
    MAP_ITERS['std::collections::%s::IntoValues' % _m] = 'v'
    MAP_ITERS['std::collections::%s::Keys' % _m] = 'k&'
    MAP_ITERS['std::collections::%s::IntoKeys' % _m] = 'k'
for _m in ('hash_set', 'btree_set'):
    MAP_ITERS['std::collections::%s::Iter' % _m] = 'k&'
    MAP_ITERS['std::collections::%s::IntoIter' % _m] = 'k'
OPT_ITERS = {'std::option::IntoIter', 'std::option::Iter', 'std::option::IterMut', 'std::option::Item', 'std::iter::Once', 'std::result::IntoIter', 'std::result::Iter'}


class Unbounded(Exception):
    pass


def by_value(path):
    return path in ('std::vec::IntoIter', 'std::array::IntoIter', 'std::vec::Drain')


def map_item(I, kind, p, j, s):
    e = I.read_ptr(p, s).e[j]
    k = kind[0]
    if kind == 'kv&':
        return tuple_of(leaf(Ptr(p.alloc, p.proj + (('mk', j),))), leaf(Ptr(p.alloc, p.proj + (('m', j),))))
    if kind == 'kv':
        return tuple_of(e[1], e[2])
    if kind == 'v&':
        return leaf(Ptr(p.alloc, p.proj + (('m', j),)))
    if kind == 'v':
        return e[2]
    if kind == 'k&':
        return leaf(Ptr(p.alloc, p.proj + (('mk', j),)))
    return e[1]


def iter_next(c, ptr, ty, s, back=False):
    """pull one element; mutates s; returns Opt or raises Unsupported"""
    I = c.I
    if ty['k'] == 'ref':
        return iter_next(c, I.deref_read(ptr, s), I.ty(ty['elem']), s, back)
    p = base_path(ty)
    if p in ('std::boxed::Box',):
        return iter_next(c, I.deref_read(ptr, s), I.ty(ty['args'][0]), s, back)
    if p in SLICE_ITERS:
        sp = I.deref_read(ptr_add(ptr, ('f', 0)), s)
        n = slen(I, s, sp)
        if isinstance(sp, Node) and s.pc is not F:
            # only what the pointer can be here
            sp = restrict(sp, s.pc)
            n = slen(I, s, sp)
        if not const_len(n) and s.pc is not F and const_len(restrict(n, s.pc)):
            sp = apply(lambda p: leaf(p), restrict(sp, s.pc))
            n = restrict(slen(I, s, sp), s.pc)
        flag(I, small(I, s, n))
        g = sel(I, s, prd(lambda l: lt(const(0), l), n))
        if g is F:
            return Opt(F, UNDEF)
        if back:
            el = apply(lambda q: leaf(I.padd(q, ('i', sub(q.proj[-1][2], const(1))))) , sp)
        else:
            el = apply(lambda q: leaf(I.padd(q, ('i', const(0)))), sp)
        if by_value(p):
            el = I.deref_read(el, s)

        def adv(q):
            o, l = q.proj[-1][1], q.proj[-1][2]
            if is_const(l) and l[0] <= 0:
                return leaf(q)
            return leaf(Ptr(q.alloc, q.proj[:-1] + (('sl', o if back else add(o, const(1)), sub(l, const(1))),)))
        new = apply(adv, sp)
        I.deref_write(ptr_add(ptr, ('f', 0)), I.vite(g, new, sp), s)
        return Opt(g, el)
    if p in CHUNKS and not back:
        k = CHUNKS[p]
        sp = I.deref_read(ptr_add(ptr, ('f', 0)), s)
        sz = I.deref_read(ptr_add(ptr, ('f', 1)), s)
        n = slen(I, s, sp)
        flag(I, True if const_len(n) and const_len(sz) else False)
        if k == 'c':
            g = prd(lambda l: lt(const(0), l), n)
            take = apply(lambda l, z: ite(le(z, l), LV(z), LV(l)), n, sz)
        else:
            g = prd(lambda l, z: le(z, l), n, sz)
            take = sz
        g = sel(I, s, g)
        if g is F:
            return Opt(F, UNDEF)
        el = apply(lambda q, z: leaf(I.padd(q, ('sl', const(0), z))), sp, take)
        step = L(1) if k == 'w' else take
        new = apply(lambda q, z: leaf(I.padd(q, ('sl', z, sub(q.proj[-1][2], z)))), sp, step)
        I.deref_write(ptr_add(ptr, ('f', 0)), I.vite(g, new, sp), s)
        return Opt(g, el)
    if p in ('std::ops::Range', 'std::ops::RangeFrom', 'std::ops::RangeInclusive', 'std::iter::Rev') or p == 'std::ops::index_range::IndexRange':
        if p == 'std::iter::Rev':
            q, t = fptr(I, ptr, ty, 'iter')
            return iter_next(c, q, t, s, not back)
        v = I.deref_read(ptr, s)
        v = I.expand(v)
        I.deref_write(ptr, v, s)
        lo = v.f[0]
        if p == 'std::ops::RangeFrom':
            I.deref_write(ptr_add(ptr, ('f', 0)), map1(lambda l: add(l, const(1)), lo), s)
            return Opt(T, lo)
        hi = v.f[1]
        if not isinstance(lo, (Node, Leaf)) or not all(isinstance(x, tuple) for x in leaves(lo)):
            raise Unsupported('range of non-integers')
        if not (const_len(lo) and const_len(hi)) and s.pc is not F:
            lo, hi = restrict(lo, s.pc), restrict(hi, s.pc)
        flag(I, True if const_len(lo) and const_len(hi) else small(I, s, apply(lambda a, b: LV(sub(b, a)), lo, hi)))
        if p == 'std::ops::RangeInclusive':
            ex = v.f[2]
            g = sel(I, s, And(Not(ex), prd(lambda a, b: le(a, b), lo, hi)))
            if g is F:
                return Opt(F, UNDEF)
            last = prd(lambda a, b: eq(a, b), lo, hi)
            I.deref_write(ptr_add(ptr, ('f', 2)), ite(g, last, ex), s)
            if back:
                I.deref_write(ptr_add(ptr, ('f', 1)), ite(And(g, Not(last)), map1(lambda l: sub(l, const(1)), hi), hi), s)
                return Opt(g, hi)
            I.deref_write(ptr_add(ptr, ('f', 0)), ite(And(g, Not(last)), map1(lambda l: add(l, const(1)), lo), lo), s)
            return Opt(g, lo)
        g = sel(I, s, prd(lambda a, b: lt(a, b), lo, hi))
        if g is F:
            return Opt(F, UNDEF)
        if back:
            nh = map1(lambda l: sub(l, const(1)), hi)
            I.deref_write(ptr_add(ptr, ('f', 1)), ite(g, nh, hi), s)
            return Opt(g, nh)
        I.deref_write(ptr_add(ptr, ('f', 0)), ite(g, map1(lambda l: add(l, const(1)), lo), lo), s)
        return Opt(g, lo)
    if p in MAP_ITERS and not back:
        mp = I.deref_read(ptr_add(ptr, ('f', 0)), s)
        pos = I.deref_read(ptr_add(ptr, ('f', 1)), s)
        if not isinstance(mp, Leaf):
            raise Unsupported('map iterator over several maps')
        m = I.read_ptr(mp.v, s)
        flag(I, True)
        some, val, npos = F, UNDEF, L(len(m.e))
        for j in range(len(m.e) - 1, -1, -1):
            here = sel(I, s, And(m.e[j][0], prd(lambda l: le(l, const(j)), pos)))
            if here is F:
                continue
            it = map_item(I, MAP_ITERS[p], mp.v, j, s)
            val = it if some is F else I.vite(here, it, val)
            npos = ite(here, L(j + 1), npos)
            some = Or(some, here)
        I.deref_write(ptr_add(ptr, ('f', 1)), npos, s)
        return Opt(sel(I, s, some), val)
    if p in OPT_ITERS:
        # wrapper(s) around an Option
        flag(I, True)
        v = I.deref_read(ptr, s)
        q, cur = ptr, v
        k = 0
        while not isinstance(I.expand(cur), VEnum) and k < 4:
            cur = I.expand(cur)
            if not isinstance(cur, VAgg):
                raise Unsupported('option iterator %r' % (cur,))
            q = ptr_add(q, ('f', 0))
            cur = cur.f[0]
            k += 1
        cur = I.expand(cur)
        oty = I.ty(cur.ty)
        g, x = opt_cases(I, s, cur)
        I.deref_write(q, VEnum(oty['id'], {variant_index(oty, 'None'): (T, [])}), s)
        return Opt(g, x)
    if p == 'std::iter::Empty':
        return Opt(F, UNDEF)
    if p == 'std::iter::Repeat':
        q, t = fptr(I, ptr, ty, 'element')
        return Opt(T, clone_of(c, s, I.deref_read(q, s), t))
    if p == 'std::iter::Map':
        q, t = fptr(I, ptr, ty, 'iter')
        fq, ft = fptr(I, ptr, ty, 'f')
        o = iter_next(c, q, t, s, back)
        return under(c, s, o, lambda s1, v: callf(c, fq, [v], s1))
    if p in ('std::iter::Copied', 'std::iter::Cloned'):
        q, t = fptr(I, ptr, ty, 'it')
        o = iter_next(c, q, t, s, back)
        return under(c, s, o, lambda s1, v: clone_val(c, p, t, s1, I.deref_read(v, s1)))
    if p == 'std::iter::Inspect':
        q, t = fptr(I, ptr, ty, 'iter')
        fq, ft = fptr(I, ptr, ty, 'f')
        o = iter_next(c, q, t, s, back)

        def insp(s1, v):
            callf(c, fq, [alloc(I, s1, v)], s1)
            return v
        return under(c, s, o, insp)
    if p == 'std::iter::Enumerate' and not back:
        q, t = fptr(I, ptr, ty, 'iter')
        nq, _ = fptr(I, ptr, ty, 'count')
        o = iter_next(c, q, t, s)
        n = I.deref_read(nq, s)
        I.deref_write(nq, ite(o.g, map1(lambda l: add(l, const(1)), n), n), s)
        return Opt(o.g, tuple_of(n, o.v))
    if p in ('std::iter::Zip',) and not back:
        aq, at = fptr(I, ptr, ty, 'a')
        bq, bt = fptr(I, ptr, ty, 'b')
        f0 = I.unroll_flag[-1] if I.unroll_flag else None
        if I.unroll_flag:
            I.unroll_flag[-1] = None
        oa = iter_next(c, aq, at, s)
        fa = I.unroll_flag[-1] if I.unroll_flag else None
        if oa.g is F:
            if I.unroll_flag and f0 is False:
                I.unroll_flag[-1] = False
            return Opt(F, UNDEF)
        if I.unroll_flag:
            I.unroll_flag[-1] = None
        s1, s0 = split(I, s, oa.g)
        ob = iter_next(c, bq, bt, s1)
        if I.unroll_flag:
            # as long as the shorter of the two
            fb = I.unroll_flag[-1]
            I.unroll_flag[-1] = False if f0 is False else True if fa is True or fb is True else False if fa is False or fb is False else f0
        g = And(oa.g, ob.g)
        merge_into(I, s, [s1, s0])
        return Opt(sel(I, s, g), tuple_of(oa.v, ob.v))
    if p == 'std::iter::Take' and not back:
        q, t = fptr(I, ptr, ty, 'iter')
        nq, _ = fptr(I, ptr, ty, 'n')
        n = I.deref_read(nq, s)
        if isinstance(n, Node) and s.pc is not F:
            n = restrict(n, s.pc)
        more = sel(I, s, prd(lambda l: lt(const(0), l), n))
        if const_len(n):
            flag(I, True)
        if more is F:
            return Opt(F, UNDEF)
        fl = I.unroll_flag[-1] if I.unroll_flag else None
        s1, s0 = split(I, s, more)
        I.deref_write(nq, map1(lambda l: sub(l, const(1)), n), s1)
        o = iter_next(c, q, t, s1)
        if fl is True and I.unroll_flag:
            I.unroll_flag[-1] = True
        merge_into(I, s, [s1, s0])
        return Opt(sel(I, s, And(more, o.g)), o.v)
    if p == 'std::iter::Skip' and not back:
        q, t = fptr(I, ptr, ty, 'iter')
        nq, _ = fptr(I, ptr, ty, 'n')
        n = I.deref_read(nq, s)
        if not const_len(n):
            raise Unsupported('skip of unknown count')
        k = max(x[0] for x in leaves(n))
        for j in range(k):
            cond = sel(I, s, prd(lambda l: lt(const(j), l), n))
            s1, s0 = split(I, s, cond)
            if s1.pc is not F:
                iter_next(c, q, t, s1)
            merge_into(I, s, [s1, s0])
        I.deref_write(nq, L(0), s)
        return iter_next(c, q, t, s)
    if p == 'std::iter::Fuse' and not back:
        q, t = fptr(I, ptr, ty, 'iter')
        o = I.expand(I.deref_read(q, s))
        if isinstance(o, VEnum) and list(o.alts) == [1]:
            it = I.ty(I.ty(t['id'])['variants'][1]['fields'][0][1])
            return iter_next(c, ptr_add(q, ('v', 1), ('f', 0)), it, s)
        raise Unsupported('fuse')
    if p == 'std::iter::Chain' and not back:
        aq, at = fptr(I, ptr, ty, 'a')
        bq, bt = fptr(I, ptr, ty, 'b')
        res = []
        oa = I.expand(I.deref_read(aq, s))
        ga = oa.alts[1][0] if isinstance(oa, VEnum) and 1 in oa.alts else F
        ga = sel(I, s, ga)
        s1, s0 = split(I, s, ga)
        if s1.pc is not F:
            it = I.ty(at['variants'][1]['fields'][0][1])
            o = iter_next(c, ptr_add(aq, ('v', 1), ('f', 0)), it, s1)
            y, n = split(I, s1, o.g)
            if y.pc is not F:
                res.append((y, ('s', o.v)))
            if n.pc is not F:
                I.deref_write(aq, VEnum(at['id'], {0: (T, [])}), n)
                merge_into(I, s0, [s0, n]) if s0.pc is not F else (setattr(s0, 'pc', n.pc), setattr(s0, 'st', n.st))
        if s0.pc is not F:
            ob = I.expand(I.deref_read(bq, s0))
            gb = sel(I, s0, ob.alts[1][0] if isinstance(ob, VEnum) and 1 in ob.alts else F)
            s1, z = split(I, s0, gb)
            if s1.pc is not F:
                it = I.ty(bt['variants'][1]['fields'][0][1])
                o = iter_next(c, ptr_add(bq, ('v', 1), ('f', 0)), it, s1)
                y, n = split(I, s1, o.g)
                if y.pc is not F:
                    res.append((y, ('s', o.v)))
                if n.pc is not F:
                    res.append((n, None))
            if z.pc is not F:
                res.append((z, None))
        return merge_opts(I, s, res)
    if p in ('std::iter::Filter', 'std::iter::FilterMap', 'std::iter::MapWhile', 'std::iter::TakeWhile', 'std::iter::SkipWhile') and not back:
        return filter_next(c, ptr, ty, s, p)
    if p == 'itertools::ZipLongest':
        aq, at = fptr(I, ptr, ty, 'a')
        bq, bt = fptr(I, ptr, ty, 'b')
        oa = iter_next(c, aq, at, s)
        ob = iter_next(c, bq, bt, s)
        eob = next((t for t in I.T if t['k'] == 'adt' and t['path'] == 'itertools::EitherOrBoth'), None)
        return Opt(sel(I, s, Or(oa.g, ob.g)), ('eob', oa, ob))
    # generic: inline the resolved next
    fid = ty.get('next')
    if fid is None or back:
        raise Unsupported('next of %s' % ty['name'])
    f = I.F[fid]
    r = I.call(fid, f['path'], [ptr], s, c.t, I.ty(f['body']['locals'][0]) if f.get('body') and 'err' not in f['body'] else {'k': 'other'}, None)
    if s.pc is F:
        return Opt(F, UNDEF)
    g, x = opt_cases(I, s, r)
    return Opt(g, x)


def merge_opts(I, s, res):
    """res: [(state, ('s', v) | None)]"""
    if not res:
        s.pc = F
        return Opt(F, UNDEF)
    some = [(a, b) for a, b in res if b is not None]
    g = Or(*[a.pc for a, b in some]) if some else F
    vals = [(a.fork(), b[1]) for a, b in some]
    v = UNDEF
    if vals:
        tmp = State(T, {})
        v = merge_vals(I, tmp, vals)
    merge_into(I, s, [a for a, b in res])
    return Opt(sel(I, s, g), v)


def filter_next(c, ptr, ty, s, p):
    I = c.I
    fname = {'std::iter::Filter': 'predicate', 'std::iter::FilterMap': 'f', 'std::iter::MapWhile': 'predicate', 'std::iter::TakeWhile': 'predicate', 'std::iter::SkipWhile': 'predicate'}[p]
    q, t = fptr(I, ptr, ty, 'iter')
    fq, ft = fptr(I, ptr, ty, fname)
    if p == 'std::iter::TakeWhile':
        fl, _ = fptr(I, ptr, ty, 'flag')
        done = I.deref_read(fl, s)
        res = []
        s1, s0 = split(I, s, sel(I, s, Not(done)))
        if s0.pc is not F:
            res.append((s0, None))
        if s1.pc is not F:
            o = iter_next(c, q, t, s1)
            y, n = split(I, s1, o.g)
            if n.pc is not F:
                res.append((n, None))
            if y.pc is not F:
                b = callf(c, fq, [alloc(I, y, o.v)], y, {'k': 'bool'})
                a, z = split(I, y, sel(I, y, b))
                if a.pc is not F:
                    res.append((a, ('s', o.v)))
                if z.pc is not F:
                    I.deref_write(fl, T, z)
                    res.append((z, None))
        return merge_opts(I, s, res)
    if p == 'std::iter::MapWhile':
        o = iter_next(c, q, t, s)
        res = []
        y, n = split(I, s, o.g)
        if n.pc is not F:
            res.append((n, None))
        if y.pc is not F:
            r = callf(c, fq, [o.v], y)
            g, x = opt_cases(I, y, r)
            a, z = split(I, y, g)
            res += [(a, ('s', x)), (z, None)]
        return merge_opts(I, s, [r for r in res if r[0].pc is not F])
    skipping = None
    if p == 'std::iter::SkipWhile':
        fl, _ = fptr(I, ptr, ty, 'flag')
    res = []
    cur = s.fork()
    n = 0
    while cur.pc is not F:
        I.unroll_flag.append(None)
        o = iter_next(c, q, t, cur)
        known = I.unroll_flag.pop()
        y, none = split(I, cur, o.g)
        if none.pc is not F:
            res.append((none, None))
        if y.pc is F:
            break
        if known is not True:
            raise Unsupported('search over an iterator of unknown length')
        if p == 'std::iter::Filter':
            b = sel(I, y, callf(c, fq, [alloc(I, y, o.v)], y, {'k': 'bool'}))
            v = o.v
        elif p == 'std::iter::SkipWhile':
            fv = I.deref_read(fl, y)
            b = sel(I, y, Or(fv, Not(callf(c, fq, [alloc(I, y, o.v)], y, {'k': 'bool'}))))
            v = o.v
        else:
            r = callf(c, fq, [o.v], y)
            if y.pc is F:
                break
            b, v = opt_cases(I, y, r)
        a, z = split(I, y, b)
        if a.pc is not F:
            if p == 'std::iter::SkipWhile':
                I.deref_write(fl, T, a)
            res.append((a, ('s', v)))
        cur = z
        n += 1
        if n > 300:
            raise Unsupported('long search')
    flag(I, True)
    return merge_opts(I, s, res)


def under(c, s, o, fn):
    """apply fn to the payload under the guard of Some"""
    I = c.I
    if o.g is F:
        return Opt(F, UNDEF)
    fl = I.unroll_flag[-1] if I.unroll_flag else None
    s1, s0 = split(I, s, o.g)
    v = fn(s1, o.v)
    if I.unroll_flag:
        I.unroll_flag[-1] = fl
    g = s1.pc
    merge_into(I, s, [s1, s0])
    return Opt(sel(I, s, And(g, o.g)), v)


def clone_val(c, p, t, s, v):
    if p == 'std::iter::Cloned':
        if t['k'] == 'adt' and t['path'] in ('std::slice::Iter', 'std::collections::vec_deque::Iter', 'std::option::Iter'):
            return clone_of(c, s, v, t['args'][0])
        if isinstance(v, (Node, Leaf)) and any(isinstance(x, Ptr) and x.alloc[0] == 'H' and x.proj == () and isinstance(s.st.get(x.alloc), Seq) for x in leaves(v)):
            raise Unsupported('cloned owned sequences')
    return v


# ------------------------------------------------------------------ drive (push)
def drive(c, ptr, ty, s, f, cap=700):
    """feed every element to f(s, v) -> [stopped states]; mutates s to the exhausted state; returns stopped states"""
    I = c.I
    if s.pc is F:
        return []
    if ty['k'] == 'ref':
        return drive(c, I.deref_read(ptr, s), I.ty(ty['elem']), s, f, cap)
    p = base_path(ty)
    if c.back and (p in ('std::iter::Chain', 'std::iter::Flatten', 'std::iter::FlatMap', 'std::iter::Enumerate', 'std::iter::Take') or p in MAP_ITERS):
        raise Unsupported('backwards over ' + p)
    if p == 'std::iter::Map':
        q, t = fptr(I, ptr, ty, 'iter')
        fq, _ = fptr(I, ptr, ty, 'f')

        def g(s1, v):
            w = callf(c, fq, [v], s1)
            return f(s1, w) if s1.pc is not F else []
        return drive(c, q, t, s, g, cap)
    if p in ('std::iter::Copied', 'std::iter::Cloned'):
        q, t = fptr(I, ptr, ty, 'it')
        return drive(c, q, t, s, lambda s1, v: f(s1, clone_val(c, p, t, s1, I.deref_read(v, s1))), cap)
    if p == 'std::iter::Filter':
        q, t = fptr(I, ptr, ty, 'iter')
        fq, _ = fptr(I, ptr, ty, 'predicate')

        def g(s1, v):
            b = sel(I, s1, callf(c, fq, [alloc(I, s1, v)], s1, {'k': 'bool'}))
            a, z = split(I, s1, b)
            out = f(a, v) if a.pc is not F else []
            merge_into(I, s1, [a, z])
            return out
        return drive(c, q, t, s, g, cap)
    if p == 'std::iter::FilterMap':
        q, t = fptr(I, ptr, ty, 'iter')
        fq, _ = fptr(I, ptr, ty, 'f')

        def g(s1, v):
            r = callf(c, fq, [v], s1)
            if s1.pc is F:
                return []
            b, x = opt_cases(I, s1, r)
            a, z = split(I, s1, b)
            out = f(a, x) if a.pc is not F else []
            merge_into(I, s1, [a, z])
            return out
        return drive(c, q, t, s, g, cap)
    if p == 'std::iter::Chain':
        out = []
        for nm in ('a', 'b'):
            q, t = fptr(I, ptr, ty, nm)
            o = I.expand(I.deref_read(q, s))
            g = sel(I, s, o.alts[1][0] if isinstance(o, VEnum) and 1 in o.alts else F)
            a, z = split(I, s, g)
            if a.pc is not F:
                out += drive(c, ptr_add(q, ('v', 1), ('f', 0)), I.ty(t['variants'][1]['fields'][0][1]), a, f, cap)
            merge_into(I, s, [a, z])
            if s.pc is F:
                break
        return out
    if p in ('std::iter::Flatten', 'std::iter::FlatMap'):
        # inner: FlattenCompat { iter: Fuse<I>, frontiter, backiter }
        q, t = fptr(I, ptr, ty, 'inner')
        q, t = fptr(I, q, t, 'iter')

        def g(s1, v):
            w, wt = into_iter(c, v, s1)
            return drive(c, alloc(I, s1, w), wt, s1, f, cap)
        return drive(c, q, t, s, g, cap)
    if p == 'std::iter::Fuse':
        q, t = fptr(I, ptr, ty, 'iter')
        o = I.expand(I.deref_read(q, s))
        g = sel(I, s, o.alts[1][0] if isinstance(o, VEnum) and 1 in o.alts else F)
        a, z = split(I, s, g)
        out = drive(c, ptr_add(q, ('v', 1), ('f', 0)), I.ty(t['variants'][1]['fields'][0][1]), a, f, cap) if a.pc is not F else []
        merge_into(I, s, [a, z])
        return out
    if p == 'std::iter::Enumerate':
        q, t = fptr(I, ptr, ty, 'iter')
        nq, _ = fptr(I, ptr, ty, 'count')

        def g(s1, v):
            n = I.deref_read(nq, s1)
            I.deref_write(nq, map1(lambda l: add(l, const(1)), n), s1)
            return f(s1, tuple_of(n, v))
        return drive(c, q, t, s, g, cap)
    if p == 'std::iter::Take':
        q, t = fptr(I, ptr, ty, 'iter')
        nq, _ = fptr(I, ptr, ty, 'n')

        def g(s1, v):
            n = I.deref_read(nq, s1)
            more = sel(I, s1, prd(lambda l: lt(const(0), l), n))
            a, z = split(I, s1, more)
            out = []
            if a.pc is not F:
                I.deref_write(nq, map1(lambda l: sub(l, const(1)), n), a)
                out = f(a, v)
            if z.pc is not F:
                ends.append(z.fork())
            s1.pc, s1.st = a.pc, a.st
            return out
        ends = []
        out = drive_take(c, q, t, s, g, ends, cap)
        merge_into(I, s, [s] + ends)
        return out
    if p in MAP_ITERS:
        mp = I.deref_read(ptr_add(ptr, ('f', 0)), s)
        pos = I.deref_read(ptr_add(ptr, ('f', 1)), s)
        if isinstance(mp, Leaf) and pos is L(0):
            m = I.read_ptr(mp.v, s)
            out = []
            for j in range(len(m.e)):
                gd = sel(I, s, m.e[j][0])
                a, z = split(I, s, gd)
                if a.pc is not F:
                    out += f(a, map_item(I, MAP_ITERS[p], mp.v, j, a))
                merge_into(I, s, [a, z])
                if s.pc is F:
                    break
            return out
    # pull loop
    out = []
    exits = []
    n = 0
    while s.pc is not F:
        I.unroll_flag.append(None)
        try:
            o = iter_next(c, ptr, ty, s, c.back)
        finally:
            known = I.unroll_flag.pop()
        if s.pc is F:
            break
        y, none = split(I, s, o.g)
        if none.pc is not F:
            exits.append(none)
        if y.pc is F:
            s.pc = F
            break
        if known is not True:
            raise Unbounded(ty['name'])
        out += f(y, o.v)
        s.pc, s.st = y.pc, y.st
        n += 1
        if n > cap:
            raise Unbounded(ty['name'])
    merge_into(I, s, exits)
    return out


def drive_take(c, q, t, s, g, ends, cap):
    return drive(c, q, t, s, g, cap)


def into_iter(c, v, s, vty=None):
    """iterator value and type from an IntoIterator value"""
    I = c.I
    ty = None
    if isinstance(v, (VAgg, VEnum, VOpq, VMap)) and v.ty is not None and not isinstance(v.ty, tuple):
        ty = I.ty(v.ty)
    if ty is not None and ty['k'] == 'adt' and (ty.get('next') is not None or ty['path'] in SLICE_ITERS or ty['path'] in MAP_ITERS or ty['path'] in CHUNKS or ty['path'].startswith('std::ops::Range') or ty['path'].startswith('std::iter::') or ty['path'] in OPT_ITERS):
        return v, ty
    if isinstance(v, VEnum) or (ty is not None and ty['k'] == 'adt' and ty['path'] in ('std::option::Option', 'std::result::Result')):
        e = I.expand(v)
        t = I.ty(e.ty)
        if t['path'] == 'std::result::Result':
            raise Unsupported('result iter')
        return VAgg(None, [e]), {'k': 'adt', 'path': 'std::option::IntoIter', 'name': 'option::IntoIter', 'id': None, 'args': []}
    if isinstance(v, VMap):
        return VAgg(None, [alloc(I, s, v, 'map'), L(0)]), {'k': 'adt', 'path': 'std::collections::hash_map::IntoIter' if not is_set(I, v.ty) else 'std::collections::hash_set::IntoIter', 'name': 'map::IntoIter', 'id': None, 'args': []}
    if isinstance(v, Seq):
        p = alloc(I, s, v, 'arr')
        return VAgg(None, [as_slice(I, s, p)]), {'k': 'adt', 'path': 'std::array::IntoIter', 'name': 'array::IntoIter', 'id': None, 'args': []}
    if isinstance(v, (Node, Leaf)):
        ls = leaves(v)
        if all(isinstance(x, Ptr) for x in ls):
            if vty is not None and vty['k'] == 'adt' and vty['path'] == 'std::vec::Vec' or all(not x.proj and x.alloc[0] == 'H' and isinstance(I.read_ptr(x, s), Seq) for x in ls):
                return VAgg(None, [as_slice(I, s, v)]), {'k': 'adt', 'path': 'std::vec::IntoIter', 'name': 'vec::IntoIter', 'id': None, 'args': []}
            t = I.read_ptr(ls[0], s)
            if isinstance(t, Seq) or isinstance(t, (Node, Leaf)):
                return VAgg(None, [as_slice(I, s, v)]), {'k': 'adt', 'path': 'std::slice::Iter', 'name': 'slice::Iter', 'id': None, 'args': []}
            if isinstance(t, VMap):
                return VAgg(None, [v, L(0)]), {'k': 'adt', 'path': 'std::collections::hash_map::Iter', 'name': 'map::Iter', 'id': None, 'args': []}
    raise Unsupported('into_iter of %s' % (ty['name'] if ty else type(v).__name__))


def is_set(I, tid):
    return tid is not None and not isinstance(tid, tuple) and I.ty(tid).get('path') in (HS, BS)


# ------------------------------------------------------------------ consumers
def resolve_eob(I, v, t=None):
    """finish the EitherOrBoth value built by zip_longest"""
    return v


def acc_new(c, s, v):
    return alloc(c.I, s, v, 'acc')


def collect_into(c, destty, vtags=None):
    """accumulator protocol for FromIterator: returns (init(s)->acc ptr, push(s, acc, v)->stopped, finish(s, acc)->value)"""
    I = c.I
    p = base_path(destty)
    if p == 'std::vec::Vec' or p in ('std::boxed::Box', 'std::collections::VecDeque', 'std::rc::Rc') and destty.get('args') :
        def init(s):
            return new_vec_at(I, s, Seq('const', L(0), []))

        def push(s, a, v):
            q = I.deref_read(a, s)
            if q.k == 'const':
                n = Seq('const', L(len(q.a[0]) + 1), list(q.a[0]) + [v])
            else:
                n = Seq('push', map1(lambda l: add(l, const(1)), q.len), q, v)
            I.deref_write(a, n, s)
            return []
        return init, push, lambda s, a: a
    if p in (HM, BM, HS, BS):
        isset = p in (HS, BS)

        def init(s):
            return alloc(I, s, VMap(destty['id'], []), 'map')

        def push(s, a, v):
            if isset:
                map_insert(I, s, a, v, VAgg(None, []))
            else:
                v = I.expand(v)
                map_insert(I, s, a, v.f[0], v.f[1])
            return []
        return init, push, lambda s, a: I.deref_read(a, s)
    if p in ('std::option::Option', 'std::result::Result'):
        okn = 'Some' if p.endswith('Option') else 'Ok'
        bad = 'None' if p.endswith('Option') else 'Err'
        oi, bi = variant_index(destty, okn), variant_index(destty, bad)
        inner = I.ty(destty['variants'][oi]['fields'][0][1])
        i0, p0, f0 = collect_into(c, inner)

        def init(s):
            return (i0(s), alloc(I, s, UNDEF, 'err'))

        def push(s, a, v):
            v = I.expand(v)
            if not isinstance(v, VEnum):
                raise Unsupported('collect of %r' % (v,))
            vi = variant_index(I.ty(v.ty), okn)
            bj = variant_index(I.ty(v.ty), bad)
            g = sel(I, s, v.alts[vi][0] if vi in v.alts else F)
            y, z = split(I, s, g)
            out = []
            if y.pc is not F:
                out += p0(y, a[0], v.alts[vi][1][0])
            if z.pc is not F:
                I.deref_write(a[1], VEnum(destty['id'], {bi: (T, list(v.alts[bj][1]))}), z)
                out.append(z)
            s.pc, s.st = y.pc, y.st
            return out

        def finish(s, a):
            e = s.st.get(a[1].v.alloc)
            good = lambda st: VEnum(destty['id'], {oi: (T, [f0(st, a[0])])})
            return e if e is not UNDEF else good(s)
        return init, push, finish
    if p == 'std::string::String':
        raise Unsupported('collect into String')
    if destty['k'] == 'tuple' and not destty['fields']:
        return (lambda s: None), (lambda s, a, v: []), (lambda s, a: VAgg(destty['id'], []))
    raise Unsupported('collect into ' + destty['name'])


def new_vec_at(I, s, seq):
    return alloc(I, s, seq, 'vec')


def do_collect(c, ptr, ty, s, destty):
    init, push, fin = collect_into(c, destty)
    a = init(s)
    stopped = drive(c, ptr, ty, s, lambda s1, v: push(s1, a, v))
    return merge_vals(c.I, s, [(x, fin(x, a)) for x in stopped + ([s.fork()] if s.pc is not F else [])])


def cons_collect(c, ptr, ty):
    pc, st, ne = c.s.pc, dict(c.s.st), len(c.I.events)
    try:
        return do_collect(c, ptr, ty, c.s, c.destty)
    except Unbounded:
        c.s.pc, c.s.st = pc, st
        del c.I.events[ne:]
        return lazy_collect(c, ptr, ty, c.destty)


# lazily collected sequences of symbolic length
def lazy_elem(c, ptr, ty, s):
    """(length diagram, elem(i Lin) -> value) for side-effect free pipelines; None if not such a pipeline"""
    I = c.I
    if ty['k'] == 'ref':
        return lazy_elem(c, I.deref_read(ptr, s), I.ty(ty['elem']), s)
    p = base_path(ty)
    if p in SLICE_ITERS:
        sp = I.deref_read(ptr_add(ptr, ('f', 0)), s)
        n = slen(I, s, sp)

        def el(i):
            e = apply(lambda q: leaf(I.padd(q, ('i', i))), sp)
            return I.deref_read(e, s) if by_value(p) else e
        return n, el
    if p in CHUNKS and CHUNKS[p] == 'e':
        sp = I.deref_read(ptr_add(ptr, ('f', 0)), s)
        sz = I.deref_read(ptr_add(ptr, ('f', 1)), s)
        n = map2(udiv, slen(I, s, sp), sz)
        return n, lambda i: apply(lambda q, z: leaf(I.padd(q, ('sl', mul(i, z), z))), sp, sz)
    if p in CHUNKS:
        sp = I.deref_read(ptr_add(ptr, ('f', 0)), s)
        sz = I.deref_read(ptr_add(ptr, ('f', 1)), s)
        if CHUNKS[p] == 'w':
            n = apply(lambda l, z: ite(le(z, l), LV(add(sub(l, z), const(1))), L(0)), slen(I, s, sp), sz)
            return n, lambda i: apply(lambda q, z: leaf(I.padd(q, ('sl', i, z))), sp, sz)
        n = map2(lambda l, z: udiv(add(l, sub(z, const(1))), z), slen(I, s, sp), sz)

        def el(i):
            def one(q, z):
                o = mul(i, z)
                left = sub(q.proj[-1][2], o)
                return ite(le(z, left), leaf(I.padd(q, ('sl', o, z))), leaf(I.padd(q, ('sl', o, left))))
            return apply(one, sp, sz)
        return n, el
    if p == 'std::iter::Rev':
        q, t = fptr(I, ptr, ty, 'iter')
        b = lazy_elem(c, q, t, s)
        if b is None or not isinstance(b[0], Leaf):
            return None
        return b[0], lambda i: b[1](sub(b[0].v, add(i, const(1))))
    if p == 'std::ops::Range':
        v = I.expand(I.deref_read(ptr, s))
        lo, hi = v.f
        n = apply(lambda a, b: ite(le(a, b), LV(sub(b, a)), L(0)), lo, hi)
        return n, lambda i: map1(lambda l: add(l, i), lo)
    if p == 'std::iter::Map':
        q, t = fptr(I, ptr, ty, 'iter')
        fq, _ = fptr(I, ptr, ty, 'f')
        b = lazy_elem(c, q, t, s)
        if b is None:
            return None

        def el(i):
            v = b[1](i)
            s1 = s.fork(T)
            return callf(c, fq, [v], s1)
        return b[0], el
    if p in ('std::iter::Copied', 'std::iter::Cloned'):
        q, t = fptr(I, ptr, ty, 'it')
        b = lazy_elem(c, q, t, s)
        return None if b is None else (b[0], lambda i: I.deref_read(b[1](i), s))
    if p == 'std::iter::Enumerate':
        q, t = fptr(I, ptr, ty, 'iter')
        b = lazy_elem(c, q, t, s)
        return None if b is None else (b[0], lambda i: tuple_of(LV(i), b[1](i)))
    if p == 'std::iter::Take':
        q, t = fptr(I, ptr, ty, 'iter')
        nq, _ = fptr(I, ptr, ty, 'n')
        b = lazy_elem(c, q, t, s)
        if b is None:
            return None
        n = I.deref_read(nq, s)
        return apply(lambda x, y: ite(le(x, y), LV(x), LV(y)), n, b[0]), b[1]
    if p == 'std::iter::Skip':
        q, t = fptr(I, ptr, ty, 'iter')
        nq, _ = fptr(I, ptr, ty, 'n')
        b = lazy_elem(c, q, t, s)
        n = I.deref_read(nq, s)
        if b is None or not isinstance(n, Leaf):
            return None
        return apply(lambda x, y: ite(le(x, y), LV(sub(y, x)), L(0)), n, b[0]), lambda i: b[1](add(i, n.v))
    if p == 'std::iter::Zip':
        aq, at = fptr(I, ptr, ty, 'a')
        bq, bt = fptr(I, ptr, ty, 'b')
        a, b = lazy_elem(c, aq, at, s), lazy_elem(c, bq, bt, s)
        if a is None or b is None:
            return None
        return apply(lambda x, y: ite(le(x, y), LV(x), LV(y)), a[0], b[0]), lambda i: tuple_of(a[1](i), b[1](i))
    return None


def lazy_collect(c, ptr, ty, destty):
    I, s = c.I, c.s
    if base_path(destty) != 'std::vec::Vec':
        raise Unsupported('unbounded collect into ' + destty['name'])
    b = lazy_elem(c, ptr, ty, s.fork())
    if b is None:
        raise Unsupported('unbounded collect from ' + ty['name'])
    n, el = b
    # evaluate once with a generic index so that panics and events are recorded
    idx = var(('gi',), 0, 2**63 - 1)
    el(idx)
    ev = I.events

    def elem(i):
        saved, I.events = I.events, []
        try:
            return el(i)
        finally:
            I.events = saved
    return new_vec_at(I, s, Seq('gen', n, elem, s.st))


def cons_fold(c, ptr, ty):
    I, s = c.I, c.s
    c.back = c.rname in ('rfold', 'try_rfold')
    acc = acc_new(c, s, c.args[1])
    fa = keep(c, s, c.args[2])

    def f(s1, v):
        r = callf(c, fa, [I.deref_read(acc, s1), v], s1, c.destty)
        if s1.pc is not F:
            I.deref_write(acc, r, s1)
        return []
    drive(c, ptr, ty, s, f)
    return I.deref_read(acc, s) if s.pc is not F else UNDEF


def keep(c, s, f):
    """callable kept in memory so that captured state persists between calls"""
    if isinstance(f, (Node, Leaf)):
        return f
    return alloc(c.I, s, f, 'fn')


def some(c, v, ty=None):
    t = ty or c.destty
    return VEnum(t['id'], {variant_index(t, 'Some'): (T, [v])})


def none(c, ty=None):
    t = ty or c.destty
    return VEnum(t['id'], {variant_index(t, 'None'): (T, [])})


def cons_reduce(c, ptr, ty):
    I, s = c.I, c.s
    o = iter_next_bounded(c, ptr, ty, s)
    y, z = split(I, s, o.g)
    out = []
    if z.pc is not F:
        out.append((z, none(c)))
    if y.pc is not F:
        acc = acc_new(c, y, o.v)
        fa = keep(c, y, c.args[1])

        def f(s1, v):
            r = callf(c, fa, [I.deref_read(acc, s1), v], s1)
            if s1.pc is not F:
                I.deref_write(acc, r, s1)
            return []
        drive(c, ptr, ty, y, f)
        if y.pc is not F:
            out.append((y, some(c, I.deref_read(acc, y))))
    return merge_vals(I, s, out)


def iter_next_bounded(c, ptr, ty, s):
    I = c.I
    I.unroll_flag.append(None)
    try:
        o = iter_next(c, ptr, ty, s)
    finally:
        k = I.unroll_flag.pop()
    if k is not True and o.g is not F:
        raise Unbounded(ty['name'])
    return o


def cons_for_each(c, ptr, ty):
    I, s = c.I, c.s
    fa = keep(c, s, c.args[1])

    def f(s1, v):
        callf(c, fa, [v], s1)
        return []
    drive(c, ptr, ty, s, f)
    return unit(c)


def cons_all(c, ptr, ty, want=False):
    I, s = c.I, c.s
    fa = keep(c, s, c.args[1])

    def f(s1, v):
        b = callf(c, fa, [v], s1, {'k': 'bool'})
        if s1.pc is F:
            return []
        stop = sel(I, s1, b if want else Not(b))
        y, z = split(I, s1, stop)
        s1.pc, s1.st = z.pc, z.st
        return [y] if y.pc is not F else []
    stopped = drive(c, ptr, ty, s, f)
    return merge_vals(I, s, [(x, T if want else F) for x in stopped] + ([(s.fork(), F if want else T)] if s.pc is not F else []))


def cons_any(c, ptr, ty):
    return cons_all(c, ptr, ty, True)


def cons_find(c, ptr, ty):
    I, s = c.I, c.s
    fa = keep(c, s, c.args[1])
    kind = c.rname
    step = 1
    cnt = L(0)
    if kind in ('rfind', 'rposition'):
        c.back, kind = True, kind[1:]
        if kind == 'position':
            t = ty
            q = ptr
            while t['k'] == 'ref':
                q, t = I.deref_read(q, s), I.ty(t['elem'])
            if base_path(t) not in SLICE_ITERS:
                raise Unsupported('rposition')
            cnt, step = map1(lambda l: sub(l, const(1)), slen(I, s, I.deref_read(ptr_add(q, ('f', 0)), s))), -1
    acc = acc_new(c, s, UNDEF)
    cnt = acc_new(c, s, cnt)

    def f(s1, v):
        if kind == 'find_map':
            r = callf(c, fa, [v], s1)
            if s1.pc is F:
                return []
            b, x = opt_cases(I, s1, r)
        elif kind == 'find':
            b, x = sel(I, s1, callf(c, fa, [alloc(I, s1, v)], s1, {'k': 'bool'})), v
        else:
            b, x = sel(I, s1, callf(c, fa, [v], s1, {'k': 'bool'})), I.deref_read(cnt, s1)
        if s1.pc is F:
            return []
        y, z = split(I, s1, b)
        out = []
        if y.pc is not F:
            I.deref_write(acc, x, y)
            out.append(y)
        if z.pc is not F and kind == 'position':
            I.deref_write(cnt, map1(lambda l: add(l, const(step)), x), z)
        s1.pc, s1.st = z.pc, z.st
        return out
    stopped = drive(c, ptr, ty, s, f)
    res = [(x, some(c, I.deref_read(acc, x))) for x in stopped]
    if s.pc is not F:
        res.append((s.fork(), none(c)))
    return merge_vals(I, s, res)


def cons_count(c, ptr, ty):
    I, s = c.I, c.s
    acc = acc_new(c, s, L(0))

    def f(s1, v):
        I.deref_write(acc, map1(lambda l: add(l, const(1)), I.deref_read(acc, s1)), s1)
        return []
    try:
        drive(c, ptr, ty, s, f)
    except Unbounded:
        b = lazy_elem(c, ptr, ty, s)
        if b is None:
            raise Unsupported('count')
        return b[0]
    return I.deref_read(acc, s)


def cons_sum(c, ptr, ty):
    I, s = c.I, c.s
    if c.destty['k'] not in ('uint', 'int'):
        raise Unsupported('sum')
    op = 'AddWithOverflow' if c.rname == 'sum' else 'MulWithOverflow'
    acc = acc_new(c, s, L(0 if c.rname == 'sum' else 1))

    def f(s1, v):
        if all(isinstance(x, Ptr) for x in leaves(v)):
            v = I.deref_read(v, s1)
        r = I.binop(op, I.deref_read(acc, s1), v, c.destty)
        I.panic(s1, r.f[1], 'overflow in ' + c.rname, c.t['sp'])
        I.deref_write(acc, r.f[0], s1)
        return []
    drive(c, ptr, ty, s, f)
    return I.deref_read(acc, s)


def cons_last(c, ptr, ty):
    I, s = c.I, c.s
    acc = acc_new(c, s, none(c))

    def f(s1, v):
        I.deref_write(acc, some(c, v), s1)
        return []
    drive(c, ptr, ty, s, f)
    return I.deref_read(acc, s)


def cons_minmax(c, ptr, ty):
    I, s = c.I, c.s
    kind = c.rname
    acc = acc_new(c, s, none(c))
    fa = keep(c, s, c.args[1]) if len(c.args) > 1 else None
    kacc = acc_new(c, s, UNDEF)

    def num(v, st):
        while isinstance(v, (Node, Leaf)) and all(isinstance(x, Ptr) for x in leaves(v)):
            v = I.deref_read(v, st)
        if isinstance(v, VAgg) and len(v.f) == 1:
            return num(v.f[0], st)
        if not isinstance(v, (Node, Leaf)):
            raise Unsupported('minmax of non-integers')
        return v

    def f(s1, v):
        k = num(v if fa is None else callf(c, fa, [alloc(I, s1, v)], s1), s1)
        o = I.deref_read(acc, s1)
        g, x = opt_cases(I, s1, o)
        if g is F:
            I.deref_write(acc, some(c, v), s1)
            I.deref_write(kacc, k, s1)
            return []
        ok = I.deref_read(kacc, s1)
        if kind.startswith('max'):
            take = prd(lambda a, b: le(a, b), ok, k)
        else:
            take = prd(lambda a, b: lt(b, a), ok, k)
        take = Or(Not(g), take)
        I.deref_write(acc, some(c, I.vite(take, v, x)), s1)
        I.deref_write(kacc, ite(take, k, ok), s1)
        return []
    drive(c, ptr, ty, s, f)
    return I.deref_read(acc, s)


def cons_try_fold(c, ptr, ty):
    I, s = c.I, c.s
    dt = c.destty
    p = base_path(dt)
    okn, bad = {'std::option::Option': ('Some', 'None'), 'std::result::Result': ('Ok', 'Err'), 'std::ops::ControlFlow': ('Continue', 'Break')}.get(p, (None, None))
    if okn is None:
        raise Unsupported('try_fold into ' + dt['name'])
    oi, bi = variant_index(dt, okn), variant_index(dt, bad)
    fe = c.rname == 'try_for_each'
    acc = acc_new(c, s, VAgg(None, []) if fe else c.args[1])
    fa = keep(c, s, c.args[1] if fe else c.args[2])
    err = acc_new(c, s, UNDEF)

    def f(s1, v):
        r = I.expand(callf(c, fa, [v] if fe else [I.deref_read(acc, s1), v], s1, dt))
        if s1.pc is F:
            return []
        if not isinstance(r, VEnum):
            raise Unsupported('try_fold result')
        g = sel(I, s1, r.alts[oi][0] if oi in r.alts else F)
        y, z = split(I, s1, g)
        out = []
        if z.pc is not F:
            I.deref_write(err, VEnum(dt['id'], {bi: (T, list(r.alts[bi][1]))}), z)
            out.append(z)
        if y.pc is not F:
            I.deref_write(acc, r.alts[oi][1][0], y)
        s1.pc, s1.st = y.pc, y.st
        return out
    stopped = drive(c, ptr, ty, s, f)
    res = [(x, I.deref_read(err, x)) for x in stopped]
    if s.pc is not F:
        res.append((s.fork(), VEnum(dt['id'], {oi: (T, [I.deref_read(acc, s)])})))
    return merge_vals(I, s, res)


def cons_partition(c, ptr, ty):
    I, s = c.I, c.s
    kind = c.rname
    dt = c.destty
    ta, tb = [I.ty(x) for x in dt['fields']]
    ia, pa, fa_ = collect_into(c, ta)
    ib, pb, fb_ = collect_into(c, tb)
    a, b = ia(s), ib(s)
    fn = keep(c, s, c.args[1]) if kind != 'partition_result' else None

    def f(s1, v):
        if kind == 'partition':
            g, x, y_ = callf(c, fn, [alloc(I, s1, v)], s1, {'k': 'bool'}), v, v
        else:
            e = I.expand(v if fn is None else callf(c, fn, [v], s1))
            if s1.pc is F:
                return []
            if not isinstance(e, VEnum):
                raise Unsupported('partition of %r' % (e,))
            et = I.ty(e.ty)
            li = variant_index(et, 'Ok' if kind == 'partition_result' else 'Left')
            ri = 1 - li
            g = e.alts[li][0] if li in e.alts else F
            x = e.alts[li][1][0] if li in e.alts else UNDEF
            y_ = e.alts[ri][1][0] if ri in e.alts else UNDEF
        g = sel(I, s1, g)
        y, z = split(I, s1, g)
        if y.pc is not F:
            pa(y, a, x)
        if z.pc is not F:
            pb(z, b, y_)
        merge_into(I, s1, [y, z])
        return []
    drive(c, ptr, ty, s, f)
    return VAgg(dt['id'], [fa_(s, a), fb_(s, b)])


def lazy_nth(c, ptr, ty, n):
    """element of unknown index of a pipeline whose elements are known by index"""
    I, s = c.I, c.s
    b = lazy_elem(c, ptr, ty, s)
    if b is None or not isinstance(n, Leaf):
        raise Unsupported('nth')
    g = sel(I, s, prd(lambda l: lt(n.v, l), b[0]))
    if g is F:
        return none(c)
    s1, s0 = split(I, s, g)
    v = b[1](n.v)
    p = base_path(ty)
    q = ptr_add(ptr, ('f', 0))
    if p in SLICE_ITERS or p in CHUNKS:
        z = L(1) if p in SLICE_ITERS else I.deref_read(ptr_add(ptr, ('f', 1)), s)
        k = map1(lambda z: mul(add(n.v, const(1)), z), z)
        sp = I.deref_read(q, s)
        rest = apply(lambda x, k: ite(le(k, x.proj[-1][2]), leaf(I.padd(x, ('sl', k, sub(x.proj[-1][2], k)))), leaf(I.padd(x, ('sl', x.proj[-1][2], const(0))))), sp, k)
        I.deref_write(q, rest, s)
    elif p == 'std::ops::Range':
        v2 = I.expand(I.deref_read(ptr, s))
        I.deref_write(ptr, VAgg(v2.ty, [I.vite(g, map1(lambda l: add(l, add(n.v, const(1))), v2.f[0]), v2.f[1]), v2.f[1]]), s)
    else:
        I.deref_write(ptr, VOpq(I.fresh('iter'), ty['id']), s)
    return option(c, c.destty, g, v)


def cons_nth(c, ptr, ty):
    I, s = c.I, c.s
    n = c.args[1]
    if not (isinstance(n, Leaf) and is_const(n.v)) or n.v[0] > 64:
        return lazy_nth(c, ptr, ty, n)
    o = Opt(T, UNDEF)
    for j in range(n.v[0] + 1):
        o = iter_next(c, ptr, ty, s)
    return option(c, c.destty, o.g, o.v)


def cons_extend(c, ptr, ty):
    """Extend::extend(self, iter)"""
    I, s = c.I, c.s
    tgt = c.args[0]
    v = I.deref_read(tgt, s)
    if isinstance(v, VMap):
        def f(s1, x):
            if is_set(I, v.ty):
                map_insert(I, s1, tgt, x, VAgg(None, []))
            else:
                x = I.expand(x)
                map_insert(I, s1, tgt, x.f[0], x.f[1])
            return []
    elif isinstance(v, (Node, Leaf)):
        def f(s1, x):
            q = I.deref_read(v, s1)
            if q.k == 'const':
                n = Seq('const', L(len(q.a[0]) + 1), list(q.a[0]) + [x])
            else:
                n = Seq('push', map1(lambda l: add(l, const(1)), q.len), q, x)
            I.deref_write(v, n, s1)
            return []
    else:
        raise Unsupported('extend')
    drive(c, ptr, ty, s, f)
    return unit(c)


CONSUMERS = {'collect': cons_collect, 'collect_vec': cons_collect, 'fold': cons_fold, 'reduce': cons_reduce, 'for_each': cons_for_each, 'all': cons_all, 'any': cons_any, 'find': cons_find, 'find_map': cons_find,
             'position': cons_find, 'rposition': cons_find, 'rfind': cons_find, 'rfold': cons_fold, 'count': cons_count, 'sum': cons_sum, 'product': cons_sum, 'last': cons_last, 'max': cons_minmax, 'min': cons_minmax, 'max_by_key': cons_minmax, 'min_by_key': cons_minmax,
             'try_fold': cons_try_fold, 'try_for_each': cons_try_fold, 'partition': cons_partition, 'partition_map': cons_partition, 'partition_result': cons_partition, 'nth': cons_nth}
BYREF = ('all', 'any', 'find', 'find_map', 'position', 'rposition', 'rfind', 'try_fold', 'try_for_each', 'nth')


def iter_model(c, name):
    """dispatch for methods of Iterator / Itertools / IntoIterator / FromIterator / Extend"""
    I, s = c.I, c.s
    at = c.argtys[0] if c.argtys else None
    if at is None:
        raise Unsupported('no type for ' + name)
    c.rname = name
    if name == 'next':
        if at['k'] == 'ref':
            at = I.ty(at['elem'])
        if no_model_next(at):
            return NotImplemented
        o = iter_next(c, c.args[0], at, s)
        if s.pc is F:
            return UNDEF
        dt = c.destty
        return option(c, dt, o.g, fix_item(c, o.v, I.ty(dt['variants'][1]['fields'][0][1])) if o.g is not F else UNDEF) if o.g is not F else none(c)
    if name == 'next_back':
        o = iter_next(c, c.args[0], I.ty(at['elem']), s, True)
        return option(c, c.destty, o.g, o.v) if o.g is not F else none(c)
    fn = CONSUMERS[name]
    ev0 = len(I.events)
    fr0 = dict(I.fresh_n)
    snap = (s.pc, dict(s.st))
    try:
        if name in BYREF or at['k'] == 'ref':
            return fn(c, c.args[0], I.ty(at['elem']))
        return fn(c, alloc(I, s, c.args[0], 'iter'), at)
    except (Unbounded, Unsupported) as e:
        del I.events[ev0:]
        I.fresh_n = fr0
        s.pc, s.st = snap
        if isinstance(e, Unbounded):
            return NotImplemented
        raise


def fix_item(c, v, ty):
    if isinstance(v, tuple) and v and v[0] == 'eob':
        _, oa, ob = v
        i = {x['name']: k for k, x in enumerate(ty['variants'])}
        alts = {}
        both, l, r = And(oa.g, ob.g), And(oa.g, Not(ob.g)), And(Not(oa.g), ob.g)
        if both is not F:
            alts[i['Both']] = (both, [oa.v, ob.v])
        if l is not F:
            alts[i['Left']] = (l, [oa.v])
        if r is not F:
            alts[i['Right']] = (r, [ob.v])
        return VEnum(ty['id'], alts)
    return v


def no_model_next(ty):
    p = base_path(ty)
    known = p in SLICE_ITERS or p in CHUNKS or p in MAP_ITERS or p in OPT_ITERS or p.startswith('std::iter::') or p.startswith('std::ops::Range') or p == 'itertools::ZipLongest' or ty['k'] == 'ref'
    return not known


# EitherOrBoth items flow into closures through callf: convert eagerly when the closure's parameter type is known
_old_callf = callf


def callf(c, f, args, s, destty=None):
    if any(isinstance(a, tuple) and a and a[0] == 'eob' for a in args):
        fv = f
        while isinstance(fv, Leaf) and isinstance(fv.v, Ptr):
            fv = c.I.read_ptr(fv.v, s)
        t = c.I.ty(fv.ty)
        b = c.I.F[t['fn']]['body']
        args = [fix_item(c, a, c.I.ty(b['locals'][i + 2])) for i, a in enumerate(args)]
    if destty is None:
        fv = f
        k = 0
        while isinstance(fv, Leaf) and isinstance(fv.v, Ptr) and k < 6:
            fv = c.I.read_ptr(fv.v, s)
            k += 1
        if isinstance(fv, (VAgg, VOpq)) and fv.ty is not None and not isinstance(fv.ty, tuple):
            t = c.I.ty(fv.ty)
            if t['k'] in ('closure', 'fndef') and t.get('fn') is not None and c.I.F[t['fn']].get('body') and 'err' not in c.I.F[t['fn']]['body']:
                destty = c.I.ty(c.I.F[t['fn']]['body']['locals'][0])
            elif t['k'] == 'fndef' and t.get('ret') is not None:
                destty = c.I.ty(t['ret'])
    return _old_callf(c, f, args, s, destty)


# ------------------------------------------------------------------ maps
def key_eq(I, s, a, b):
    return value_eq(I, s, a, b)


def map_find(I, s, m, k):
    out = []
    for j, (g, kk, v) in enumerate(m.e):
        cnd = sel(I, s, And(g, key_eq(I, s, kk, k)))
        if cnd is not F:
            out.append((cnd, j))
    return out


def map_insert(I, s, ptr, k, v):
    """insert; returns [(cond, old value)]"""
    if not isinstance(ptr, Leaf):
        raise Unsupported('insert through several maps')
    m = I.read_ptr(ptr.v, s)
    if not isinstance(m, VMap):
        raise Unsupported('insert into %s' % type(m).__name__)
    hits = map_find(I, s, m, k)
    e = list(m.e)
    old = []
    anyh = F
    for cnd, j in hits:
        old.append((cnd, e[j][2]))
        e[j] = (e[j][0], e[j][1], I.vite(cnd, v, e[j][2]))
        anyh = Or(anyh, cnd)
    miss = sel(I, s, Not(anyh))
    if miss is not F:
        e.append((miss, k, v))
    I.write_ptr(ptr.v, VMap(m.ty, e), s)
    return old


def map_names(meth):
    return ['%s::%s::%s' % (h, p, meth) for h in (HM, BM) for p in ('<K, V, S, A>', '<K, V, S>', '<K, V, A>', '<K, V>')]


def set_names(meth):
    return ['%s::%s::%s' % (h, p, meth) for h in (HS, BS) for p in ('<T, S, A>', '<T, S>', '<T, A>', '<T>')]


@model(*(map_names('new') + set_names('new') + map_names('with_capacity') + set_names('with_capacity') + ['<std::collections::HashMap<K, V, S> as std::default::Default>::default', '<std::collections::HashSet<T, S> as std::default::Default>::default']))
def m_map_new(c):
    return VMap(c.destty['id'], [])


@model(*(map_names('insert') + set_names('insert')))
def m_map_insert(c):
    I, s = c.I, c.s
    p = map_ptr(I, s, c.args[0])
    isset = len(c.args) == 2
    old = map_insert(I, s, p, c.args[1], VAgg(None, []) if isset else c.args[2])
    hit = Or(*[g for g, v in old]) if old else F
    if isset:
        return Not(hit)
    if hit is F:
        return none(c)
    v = old[-1][1]
    for g, w in old[:-1]:
        v = I.vite(g, w, v)
    return option(c, c.destty, hit, v)


@model(*(map_names('get') + map_names('get_mut') + set_names('get')))
def m_map_get(c):
    I, s = c.I, c.s
    k = I.deref_read(c.args[1], s)
    try:
        p = map_ptr(I, s, c.args[0])
    except Unsupported:
        return opaque_map(c)
    if not isinstance(p, Leaf):
        raise Unsupported('get through several maps')
    m = I.read_ptr(p.v, s)
    hits = map_find(I, s, m, k)
    if not hits:
        return none(c)
    isset = HS in c.rpath or BS in c.rpath
    r = None
    tot = F
    for cnd, j in hits:
        q = leaf(Ptr(p.v.alloc, p.v.proj + (('mk' if isset else 'm', j),)))
        r = q if r is None else ite(cnd, q, r)
        tot = Or(tot, cnd)
    return option(c, c.destty, sel(I, s, tot), r)


def opaque_map(c):
    """lookup in a map known only by name: a pure function of map and key"""
    I, s = c.I, c.s
    mv = I.deref_read(c.args[0], s)
    while isinstance(mv, (Node, Leaf)):
        mv = I.deref_read(mv, s)
    if not isinstance(mv, VOpq):
        raise Unsupported('map')
    k = I.vkey(I.deref_read(c.args[1], s), s.st)
    vt = I.ty(I.ty(c.destty['variants'][1]['fields'][0][1])['elem'])
    g = bvar(('mapin', mv.key, k))
    return option(c, c.destty, g, I.symref(('mapget', mv.key, k), vt))


@model(*(map_names('contains_key') + set_names('contains')))
def m_map_contains(c):
    I, s = c.I, c.s
    k = I.deref_read(c.args[1], s)
    try:
        p = map_ptr(I, s, c.args[0])
    except Unsupported:
        mv = I.deref_read(c.args[0], s)
        if isinstance(mv, VOpq):
            return bvar(('mapin', mv.key, I.vkey(k, s.st)))
        raise
    m = I.deref_read(p, s)
    return sel(I, s, Or(*[g for g, j in map_find(I, s, m, k)] or [F]))


@model(*(map_names('len') + set_names('len')))
def m_map_len(c):
    I, s = c.I, c.s
    try:
        m = I.deref_read(map_ptr(I, s, c.args[0]), s)
    except Unsupported:
        mv = I.deref_read(c.args[0], s)
        if isinstance(mv, VOpq):
            return LV(var(('maplen', mv.key), 0, 2**63 - 1))
        raise
    r = L(0)
    for g, k, v in m.e:
        r = map2(add, r, ite(g, L(1), L(0)))
    return r


@model(*(map_names('is_empty') + set_names('is_empty')))
def m_map_empty(c):
    n = m_map_len(c)
    return prd(lambda l: eq(l, const(0)), n)


@model(*(map_names('remove') + set_names('remove')))
def m_map_remove(c):
    I, s = c.I, c.s
    p = map_ptr(I, s, c.args[0])
    k = I.deref_read(c.args[1], s)
    m = I.read_ptr(p.v, s)
    hits = map_find(I, s, m, k)
    e = list(m.e)
    r, tot = UNDEF, F
    for g, j in hits:
        r = e[j][2] if r is UNDEF else I.vite(g, e[j][2], r)
        tot = Or(tot, g)
        e[j] = (And(e[j][0], Not(g)), e[j][1], e[j][2])
    I.write_ptr(p.v, VMap(m.ty, [x for x in e if x[0] is not F]), s)
    if HS in c.rpath or BS in c.rpath:
        return tot
    return option(c, c.destty, tot, r) if tot is not F else none(c)


@model(*(map_names('retain') + set_names('retain')))
def m_map_retain(c):
    """every entry is shown to the predicate once; those it refuses are dropped"""
    I, s = c.I, c.s
    p = map_ptr(I, s, c.args[0])
    if not isinstance(p, Leaf):
        raise Unsupported('retain through several maps')
    isset = HS in c.rpath or BS in c.rpath
    f = keep(c, s, c.args[1])
    for j in range(len(I.read_ptr(p.v, s).e)):
        g = sel(I, s, I.read_ptr(p.v, s).e[j][0])
        a, b = split(I, s, g)
        if a.pc is F:
            continue
        refs = [leaf(Ptr(p.v.alloc, p.v.proj + ((k, j),))) for k in (('mk',) if isset else ('mk', 'm'))]
        r = callf(c, f, refs, a)
        if a.pc is not F:
            m = I.read_ptr(p.v, a)
            e = list(m.e)
            e[j] = (And(e[j][0], r), e[j][1], e[j][2])
            I.write_ptr(p.v, VMap(m.ty, e), a)
        merge_into(I, s, [a, b])
    m = I.read_ptr(p.v, s)
    I.write_ptr(p.v, VMap(m.ty, [x for x in m.e if x[0] is not F]), s)
    return unit(c)


def clone_map(c):
    v = c.I.deref_read(c.args[0], c.s)
    if isinstance(v, VMap):
        return v
    return NotImplemented


M['<std::collections::HashMap<K, V, S, A> as std::clone::Clone>::clone'] = clone_map
M['<std::collections::HashSet<T, S, A> as std::clone::Clone>::clone'] = clone_map


# entry API: Entry value = ('entry', map ptr, key)
@model(*map_names('entry'))
def m_map_entry(c):
    p = map_ptr(c.I, c.s, c.args[0])
    if not isinstance(p, Leaf):
        raise Unsupported('entry')
    return VAgg(('entry',), [p, c.args[1]])


def entry_or(c):
    I, s = c.I, c.s
    e = c.args[0]
    if not (isinstance(e, VAgg) and e.ty == ('entry',)):
        raise Unsupported('entry value')
    p, k = e.f
    m = I.read_ptr(p.v, s)
    hits = map_find(I, s, m, k)
    tot = Or(*[g for g, j in hits]) if hits else F
    miss = sel(I, s, Not(tot))
    name = c.rpath.split('::')[-1]
    r = None
    for g, j in hits:
        q = leaf(Ptr(p.v.alloc, p.v.proj + (('m', j),)))
        r = q if r is None else ite(g, q, r)
    if miss is not F:
        s1, s0 = split(I, s, miss)
        vt = I.ty(c.destty['elem'])
        if name == 'or_insert':
            v = c.args[1]
        elif name == 'or_insert_with':
            v = callf(c, keep(c, s1, c.args[1]), [], s1)
        else:
            if vt['k'] == 'adt' and vt['path'] == 'std::vec::Vec':
                v = new_vec_at(I, s1, Seq('const', L(0), []))
            elif vt['k'] in ('uint', 'int'):
                v = L(0)
            elif vt['k'] == 'adt' and vt['path'] in (HM, HS, BM, BS):
                v = VMap(vt['id'], [])
            else:
                raise Unsupported('or_default')
        n = len(m.e)
        merge_into(I, s, [s1, s0])
        m2 = I.read_ptr(p.v, s)
        I.write_ptr(p.v, VMap(m2.ty, m2.e + [(miss, k, v)]), s)
        q = leaf(Ptr(p.v.alloc, p.v.proj + (('m', n),)))
        r = q if r is None else ite(miss, q, r)
    return r


for _e in ('std::collections::hash_map::Entry::<\'a, K, V>', 'std::collections::hash_map::Entry::<\'a, K, V, A>', 'std::collections::btree_map::Entry::<\'a, K, V, A>', 'std::collections::btree_map::Entry::<\'a, K, V>'):
    for _k in ('or_insert', 'or_insert_with', 'or_default'):
        M[_e + '::' + _k] = entry_or


# ------------------------------------------------------------------ hook: dispatch by trait
SEQ_EQ = re.compile(r'(?:(?:std|core|alloc)::(?:vec::partial_eq|slice::cmp|array::equality)::)?<(?:impl std::cmp::PartialEq(?:<.*>)? for |)&?(?:mut )?(?:\[.*\]|std::vec::Vec<.*>|std::string::String|str)(?: as std::cmp::PartialEq(?:<.*>)?)?>::(?:eq|ne)$')


def m_seq_eq(c):
    return M['core::slice::cmp::<impl std::cmp::PartialEq<[U]> for [T]>::eq'](c)


def hook(I, f, path):
    if f is None:
        tr, _, name = (path or '').rpartition('::')
    else:
        tr = f.get('trait') or f.get('impl_trait')
        name = f.get('name')
        if f.get('local') and tr == 'std::iter::Iterator':
            return None
    rp = f['path'] if f else path
    if name in ('eq', 'ne') and rp and rp not in M and SEQ_EQ.match(rp) and not (f and f.get('local')):
        return m_seq_eq if name == 'eq' else lambda c: Not(m_seq_eq(c))
    if tr == 'std::iter::Iterator':
        if name in CONSUMERS or name == 'next':
            return lambda c: iter_model(c, name)
        if name == 'zip':
            return m_zip
    if tr == 'std::iter::DoubleEndedIterator' and name in ('next_back', 'rfind', 'rfold'):
        return lambda c: iter_model(c, name)
    if tr == 'itertools::Itertools' and name in CONSUMERS:
        return lambda c: iter_model(c, name)
    if tr == 'std::iter::IntoIterator' and name == 'into_iter' and not (f and f.get('local')):
        return m_into_iter
    if tr == 'std::iter::FromIterator' and name == 'from_iter' and not (f and f.get('local')):
        return m_from_iter
    if tr == 'std::iter::Extend' and name == 'extend' and not (f and f.get('local')):
        return m_extend
    return None


IN.Interp.hook = lambda self, f, path: hook(self, f, path)


def m_zip(c):
    I, s = c.I, c.s
    ty = c.destty
    if ty['k'] != 'adt':
        return NotImplemented
    bt = field(I, ty, 'b')[1]
    b = c.args[1]
    bty = c.argtys[1] if c.argtys else None
    if not (bty is not None and bty['id'] == bt['id']):
        try:
            b, _ = into_iter(c, b, s, bty)
        except Unsupported:
            # the resolved IntoIterator
            fid = bty.get('into_iter') if bty else None
            if fid is None:
                raise
            b = I.call(fid, I.F[fid]['path'], [b], s, c.t, bt, None)
    return VAgg(ty['id'], [c.args[0], b, L(0), L(0)])


def m_into_iter(c):
    I, s = c.I, c.s
    at = c.argtys[0] if c.argtys else None
    if at is None:
        return NotImplemented
    if at['id'] == c.destty['id']:
        return c.args[0]
    v = c.args[0]
    p = base_path(at)
    if p in (HM, BM, HS, BS):
        return map_into_iter(c)
    if at['k'] == 'ref':
        e = I.ty(at['elem'])
        ep = base_path(e)
        if ep in (HM, BM, HS, BS):
            return VAgg(c.destty['id'], [map_ptr(I, s, v), L(0)])
        if ep in ('slice', 'array', 'std::vec::Vec'):
            return VAgg(c.destty['id'], [as_slice(I, s, v)])
        return NotImplemented
    if p == 'array':
        return array_into_iter(c)
    if p == 'std::vec::Vec':
        return VAgg(c.destty['id'], [as_slice(I, s, v)])
    return NotImplemented


def m_from_iter(c):
    I, s = c.I, c.s
    at = c.argtys[0] if c.argtys else None
    if at is None:
        return NotImplemented
    try:
        v, t = (c.args[0], at) if not no_model_next(at) and at['k'] != 'ref' or at.get('next') is not None else into_iter(c, c.args[0], s, at)
        return iter_like(c, v, t, cons_collect)
    except Unbounded:
        return NotImplemented


def iter_like(c, v, t, fn):
    I, s = c.I, c.s
    ev0, fr0, snap = len(I.events), dict(I.fresh_n), (s.pc, dict(s.st))
    try:
        c.rname = 'collect'
        return fn(c, alloc(I, s, v, 'iter'), t)
    except (Unbounded, Unsupported):
        del I.events[ev0:]
        I.fresh_n = fr0
        s.pc, s.st = snap
        raise


def m_extend(c):
    I, s = c.I, c.s
    at = c.argtys[1] if c.argtys else None
    if at is None:
        return NotImplemented
    try:
        v, t = (c.args[1], at) if not no_model_next(at) and at['k'] != 'ref' or at.get('next') is not None else into_iter(c, c.args[1], s, at)
        return iter_like(c, v, t, cons_extend)
    except Unbounded:
        return NotImplemented


# ------------------------------------------------------------------ byte streams and block devices
def dev_at(I, s, ptr):
    """normalise the stream behind a pointer to a VDev; returns pointer (following references)"""
    def f(p):
        x = I.read_ptr(p, s)
        if isinstance(x, (Node, Leaf)):
            return dev_at(I, s, x)
        if isinstance(x, VOpq):
            x = VDev(x.ty, x.key, LV(var(('pos0', x.key), 0, 2**63 - 1)))
            I.write_ptr(p, x, s)
        if not isinstance(x, VDev):
            raise Unsupported('stream %s' % type(x).__name__)
        return leaf(p)
    return apply(f, ptr)


def single(ptr):
    if not isinstance(ptr, Leaf):
        raise Unsupported('several streams')
    return ptr.v


def io_result(c, okv, tag, data):
    """fallible operation: result enum with a fresh success variable"""
    I, s = c.I, c.s
    k = I.fresh(tag)
    ok = bvar((tag + '_ok', k[1]))
    ev = I.event(tag, s.pc, data + (ok,), c.t['sp'])
    et = c.destty['variants'][1]['fields'][0][1]
    return ok, result(c.destty, ok, okv, VOpq((tag + '_err', k[1]), et))


def stream_like(I, s, ptr):
    try:
        def f(p):
            x = I.read_ptr(p, s)
            if isinstance(x, (Node, Leaf)):
                return T if stream_like(I, s, x) else F
            return T if isinstance(x, (VOpq, VDev)) else F
        return apply(f, ptr) is T
    except Unsupported:
        return False


SEEKF = {'Start': 0, 'End': 1, 'Current': 2}


def m_seek(c):
    I, s = c.I, c.s
    if not stream_like(I, s, c.args[0]):
        return NotImplemented
    q = dev_at(I, s, c.args[0])
    p = single(q)
    d = I.read_ptr(p, s)
    w = I.expand(c.args[1])
    st = I.ty(w.ty)
    new = None
    for i, (g, f) in w.alts.items():
        nm = st['variants'][i]['name']
        if nm == 'Start':
            v = f[0]
        elif nm == 'Current':
            v = map2(add, d.pos, f[0])
        else:
            v = map1(lambda l: add(l, var(('devlen', d.key), 0, 2**63 - 1)), f[0])
        new = v if new is None else ite(g, v, new)
    ok, r = io_result(c, new, 'seek', (d.key, new))
    bad = I.fresh('badpos')
    I.write_ptr(p, VDev(d.ty, d.key, ite(ok, new, LV(var(('badpos', bad[1]), 0, 2**63 - 1)))), s)
    return r


def m_stream_position(c):
    I, s = c.I, c.s
    if not stream_like(I, s, c.args[0]):
        return NotImplemented
    d = I.read_ptr(single(dev_at(I, s, c.args[0])), s)
    ok, r = io_result(c, d.pos, 'tell', (d.key,))
    return r


def disk_bytes(key, pos, n, I=None):
    q = Seq('abs', None, ('disk', key), 'u8')
    only = getattr(I, 'only', None)
    if only is not None and isinstance(n, Leaf) and is_const(n.v) and n.v[0] <= 4096:
        # all other bytes are zero
        return Seq('const', n, [LV(load(('disk', key), add(pos, const(j)), 1)) if j in only else L(0) for j in range(n.v[0])])
    # bytes of the medium fixed by the check
    for off, bs in (getattr(I, 'overlay', None) or {}).get(key, ()):
        if is_const(pos):
            if pos[0] >= off + len(bs) or isinstance(n, Leaf) and is_const(n.v) and pos[0] + n.v[0] <= off:
                continue
        elif getattr(I, 'overlay_far', False):
            # the check looks at what is read from a symbolic position only where nothing is fixed
            continue
        q = Seq('upd', None, q, const(off), const(len(bs)), Seq('const', L(len(bs)), [L(b) for b in bs]), const(0))
    return Seq('sub', n, q, pos)


def m_read_exact(c):
    I, s = c.I, c.s
    if not stream_like(I, s, c.args[0]):
        return NotImplemented
    p = single(dev_at(I, s, c.args[0]))
    d = I.read_ptr(p, s)
    b = as_slice(I, s, c.args[1])
    n = slen(I, s, b)
    k = I.fresh('read')
    ok = T if getattr(I, 'io_ok', False) else bvar(('read_ok', k[1]))
    pos = restrict(d.pos, s.pc)
    I.event('read', s.pc, (d.key, pos, n, ok), c.t['sp'])
    data = fold_int(I, pos, lambda l: disk_bytes(d.key, l, n, I))
    junk = Seq('abs', n, ('junk', k[1]), 'u8')
    okc = sel(I, s, ok)
    for cond, bp in I.ptr_cases(b):
        I.write_ptr(bp, I.vite(okc, data, junk), s, cond)
    np = ite(ok, map2(add, pos, n), LV(var(('badpos', k[1]), 0, 2**63 - 1)))
    I.write_ptr(p, VDev(d.ty, d.key, np), s)
    et = c.destty['variants'][1]['fields'][0][1]
    return result(c.destty, ok, VAgg(c.destty['variants'][0]['fields'][0][1], []), VOpq(('read_err', k[1]), et))


def m_read(c):
    """a single read: at most the buffer, at least nothing; short reads allowed"""
    I, s = c.I, c.s
    if not stream_like(I, s, c.args[0]):
        return NotImplemented
    p = single(dev_at(I, s, c.args[0]))
    d = I.read_ptr(p, s)
    b = as_slice(I, s, c.args[1])
    n = slen(I, s, b)
    k = I.fresh('read1')
    ok = bvar(('read1_ok', k[1]))
    got = var(('got', k[1]), 0, 2**63 - 1)
    I.event('read1', s.pc, (d.key, d.pos, n, ok, got), c.t['sp'])
    junk = Seq('abs', n, ('partial', k[1], d.key), 'u8')
    for cond, bp in I.ptr_cases(b):
        I.write_ptr(bp, junk, s, cond)
    I.write_ptr(p, VDev(d.ty, d.key, ite(ok, map1(lambda l: add(l, got), d.pos), LV(var(('badpos', k[1]), 0, 2**63 - 1)))), s)
    et = c.destty['variants'][1]['fields'][0][1]
    return result(c.destty, ok, LV(got), VOpq(('read1_err', k[1]), et))


M['std::io::Seek::seek'] = M['<std::fs::File as std::io::Seek>::seek'] = m_seek
M['std::io::Seek::stream_position'] = m_stream_position
M['std::io::Read::read_exact'] = M['<std::fs::File as std::io::Read>::read_exact'] = m_read_exact
M['std::io::Read::read'] = M['<std::fs::File as std::io::Read>::read'] = m_read

BD = 'block_device::block_device::BlockDevice'


def dev_key(I, s, ptr):
    v = I.deref_read(ptr, s)
    while isinstance(v, (Node, Leaf)):
        v = I.deref_read(v, s)
    if isinstance(v, VDev):
        return v.key
    if isinstance(v, VOpq):
        return v.key
    return I.vkey(v, s.st)


@model(BD + '::read_block')
def m_bd_read_block(c):
    I, s = c.I, c.s
    if c.f is not None and c.f.get('body') and c.f['kind'] != 'virtual':
        return NotImplemented
    key = dev_key(I, s, c.args[0])
    bn = c.args[1]
    while isinstance(bn, (VAgg, VOpq)):
        bn = I.expand(bn)
        if not isinstance(bn, VAgg):
            raise Unsupported('block number')
        bn = bn.f[0]
    b = as_slice(I, s, c.args[2])
    n = slen(I, s, b)
    k = I.fresh('rb')
    ok = bvar(('rb_ok', k[1]))
    I.event('read_block', s.pc, (key, bn, n, ok), c.t['sp'])
    data = fold_int(I, bn, lambda l: Seq('abs', n, ('block', key, l), 'u8'))
    junk = Seq('abs', n, ('junkb', k[1]), 'u8')
    for cond, bp in I.ptr_cases(b):
        I.write_ptr(bp, I.vite(ok, data, junk), s, cond)
    et = c.destty['variants'][1]['fields'][0][1]
    okt = I.ty(c.destty['variants'][0]['fields'][0][1])
    okv = VAgg(okt['id'], []) if okt['k'] == 'tuple' else LV(var(('rb_len', k[1]), 0, 2**63 - 1))
    return result(c.destty, ok, okv, VOpq(('rb_err', k[1]), et))


@model(BD + '::try_clone')
def m_bd_try_clone(c):
    I, s = c.I, c.s
    v = I.deref_read(c.args[0], s)
    while isinstance(v, (Node, Leaf)):
        v = I.deref_read(v, s)
    k = I.fresh('dup')
    ok = bvar(('dup_ok', k[1]))
    I.event('try_clone', s.pc, (dev_key(I, s, c.args[0]), ok), c.t['sp'])
    et = c.destty['variants'][1]['fields'][0][1]
    return result(c.destty, ok, v, VOpq(('dup_err', k[1]), et))


def refill(I, v, x):
    """put scalar graph x into a newtype value"""
    v = I.expand(v)
    if isinstance(v, VAgg):
        return VAgg(v.ty, [refill(I, y, x) for y in v.f])
    return x


def bd_query(name):
    def f(c):
        I, s = c.I, c.s
        key = dev_key(I, s, c.args[0])
        et = c.destty
        if et['k'] == 'adt' and et['path'] == 'std::result::Result':
            ok = bvar((name + '_ok', key))
            it = I.ty(et['variants'][0]['fields'][0][1])
            v = I.sym((name, key), it)
            while isinstance(v, VOpq) and isinstance(I.expand(v), VAgg):
                v = I.expand(v)
            fx = getattr(I, 'bd_fixed', {}).get(name)
            if fx is not None:
                v = refill(I, v, fx)
                ok = T
            return result(et, ok, v, VOpq((name + '_err', key), et['variants'][1]['fields'][0][1]))
        return I.sym((name, key), et)
    return f


M[BD + '::block_size'] = bd_query('block_size')
M[BD + '::block_count'] = bd_query('block_count')

BDR = 'block_device::reader::BlockDeviceReader'


def install_reader_contract():
    pass


def m_bdr_new(c):
    """BlockDeviceReader::new: a byte stream over the device, positioned at byte 0"""
    I, s = c.I, c.s
    dv = c.args[0]
    key = dev_value_key(I, s, dv)
    I.event('reader', s.pc, (key,), c.t['sp'])
    return VDev(c.destty['id'], key, L(0))


def dev_value_key(I, s, v):
    if isinstance(v, (Node, Leaf)):
        return dev_key(I, s, v)
    if isinstance(v, (VOpq, VDev)):
        return v.key
    return I.vkey(v, s.st)


# ------------------------------------------------------------------ misc
def atomic_op(kind):
    """an access to an atomic number: one indivisible step, recorded as an event"""
    def m(c):
        I, s = c.I, c.s
        name = I.vkey(c.args[0], {})
        t = c.destty if c.destty['k'] in ('uint', 'int') else c.argtys[1] if len(c.args) > 1 and c.argtys else None
        if t is None or t['k'] not in ('uint', 'int'):
            return NotImplemented
        al = ('D', ('atomic', name))
        lo, hi = IN.int_range(t)
        cur = s.st.get(al)
        if cur is None:
            # far from exhausted
            cur = LV(var(('atomic', name), max(lo, 0), hi - 64))
        arg = c.args[1] if kind != 'load' else None
        I.event('atomic', s.pc, (kind, name, arg, cur, hi), c.t['sp'])
        if kind == 'fetch_add' or kind == 'fetch_sub':
            s.st[al] = I.binop('Add' if kind == 'fetch_add' else 'Sub', cur, arg, t)
        elif kind in ('store', 'swap'):
            s.st[al] = arg
        return unit(c) if kind == 'store' else cur
    return m


for _t in ('u64', 'usize', 'u32', 'i64', 'isize', 'u16', 'i32'):
    for _k in ('fetch_add', 'fetch_sub', 'store', 'swap', 'load'):
        M['std::sync::atomic::Atomic::<%s>::%s' % (_t, _k)] = atomic_op(_k)


@model('std::hash::Hash::hash')
def m_hash(c):
    """feeding a value to a hasher"""
    v = c.I.deref_read(c.args[0], c.s) if isinstance(c.args[0], (Node, Leaf)) else c.args[0]
    c.I.event('hash', c.s.pc, (v, c.args[0]), c.t['sp'])
    return unit(c)


@model('std::path::Path::as_os_str', '<std::path::PathBuf as std::ops::Deref>::deref', '<std::ffi::OsString as std::ops::Deref>::deref')
def m_path_view(c):
    v = c.I.deref_read(c.args[0], c.s)
    if isinstance(v, VOpq):
        return c.I.symref(('view', v.key), c.I.ty(c.destty['elem'])) if c.I.ty(c.destty['elem'])['k'] in ('slice', 'str') else c.args[0]
    return NotImplemented


def is_reader(f):
    return f is not None and 'BlockDeviceReader<' in (f.get('impl_self') or '') and f.get('local')


import re as _re
INTO = _re.compile(r'^<(.*) as byteorder::ReadBytesExt>::read_u(16|32|64)_into::<byteorder::(Little|Big)Endian>$')


def read_into(width, en):
    def m(c):
        """fill a slice of integers with consecutive values"""
        I, s = c.I, c.s
        d = as_slice(I, s, c.args[1])
        n = slen(I, s, d)
        nb = map1(lambda l: scale(l, width), n)
        q = as_slice(I, s, c.args[0])
        have = slen(I, s, q)
        ok = apply(lambda a, b: le(a, b), nb, have)
        src = None
        for g, p in I.ptr_cases(q):
            x = I.read_ptr(p, s)
            src = x if src is None else I.vite(g, x, src)

        def el(i):
            return I.read_bytes_int(I.seq_sub(src, scale(i, width), L(width)), width, en)
        for g, dp in I.ptr_cases(d):
            I.write_ptr(dp, Seq('gen', n, el, s.st), s, And(g, ok))
        rest = apply(lambda p, k: leaf(Ptr(p.alloc, p.proj[:-1] + (('sl', add(p.proj[-1][1], k), sub(p.proj[-1][2], k)),))), q, nb)
        if isinstance(c.args[0], Leaf):
            I.write_ptr(c.args[0].v, rest, s, ok)
        et = c.destty['variants'][1]['fields'][0][1]
        return result(c.destty, ok, VAgg(c.destty['variants'][0]['fields'][0][1], []), VOpq(('eof', 'into'), et))
    return m


_hook0 = hook


def hook(I, f, path):
    mm = INTO.match(path or (f or {}).get('full', ''))
    if mm is None and f is not None:
        mm = INTO.match(f.get('full', ''))
    if mm and mm.group(1) == '&[u8]':
        return read_into(int(mm.group(2)) // 8, 'le' if mm.group(3) == 'Little' else 'be')
    if getattr(I, 'reader_contract', True) and is_reader(f):
        tr, nm = f.get('impl_trait'), f.get('name')
        if tr == 'std::io::Read' and nm == 'read':
            return m_read
        if tr == 'std::io::Read' and nm == 'read_exact':
            return m_read_exact
        if tr == 'std::io::Seek' and nm == 'seek':
            return m_seek
        if tr is None and nm == 'new':
            return m_bdr_new
    return _hook0(I, f, path)


# ------------------------------------------------------------------ files and devices of the operating system
@model('std::fs::File::open')
def m_file_open(c):
    I, s = c.I, c.s
    p = c.args[0]
    for _ in range(6):
        v = I.expand(p)
        if isinstance(v, Leaf) and isinstance(v.v, Ptr):
            p = I.read_ptr(v.v, s)
        elif isinstance(v, (Node, Leaf)):
            p = I.deref_read(v, s)
        else:
            break
    key = ('file', I.vkey(p, s.st))
    ok, r = io_result(c, VDev(c.destty['variants'][0]['fields'][0][1], key, L(0)), 'open', (key,))
    return r


@model('std::fs::File::options', 'std::fs::OpenOptions::new')
def m_open_options(c):
    return VOpq(('open options',), c.destty['id'])


@model('std::fs::OpenOptions::read')
def m_open_options_read(c):
    return c.args[0]


@model('std::fs::OpenOptions::open')
def m_open_options_open(c):
    c.args = c.args[1:]
    return m_file_open(c)


@model('std::fs::File::try_clone')
def m_file_clone(c):
    I, s = c.I, c.s
    v = I.deref_read(c.args[0], s)
    while isinstance(v, (Node, Leaf)):
        v = I.deref_read(v, s)
    ok, r = io_result(c, v, 'try_clone', (dev_key(I, s, c.args[0]),))
    return r


@model('std::fs::File::metadata')
def m_file_metadata(c):
    key = dev_key(c.I, c.s, c.args[0])
    ok, r = io_result(c, VOpq(('metadata', key), c.destty['variants'][0]['fields'][0][1]), 'metadata', (key,))
    return r


@model('std::fs::Metadata::len', '<std::fs::Metadata as std::os::unix::fs::MetadataExt>::size', '<std::fs::Metadata as std::os::linux::fs::MetadataExt>::st_size')
def m_metadata_len(c):
    v = c.I.deref_read(c.args[0], c.s)
    while isinstance(v, (Node, Leaf)):
        v = c.I.deref_read(v, c.s)
    if isinstance(v, VOpq) and isinstance(v.key, tuple) and v.key[0] == 'metadata':
        return LV(var(('devlen', v.key[1]), 0, 2**63 - 1))
    return NotImplemented


def m_ioctl(c):
    """an ioctl that reads: (whatever the kernel returned, the value it stored)"""
    I, s = c.I, c.s
    v = c.args[0]
    for _ in range(8):
        v = I.expand(v)
        if isinstance(v, VAgg):
            v = next(x for x in v.f if not (isinstance(x, VOpq) and x.key == ('zst',) or isinstance(x, (VAgg, VOpq))))
            continue
        if isinstance(v, (Node, Leaf)) and any(isinstance(x, Ptr) for x in leaves(v)):
            v = I.deref_read(v, s)
            continue
        break
    if not (isinstance(v, Leaf) and is_const(v.v)):
        raise Unsupported('ioctl number')
    n = v.v[0]
    key = dev_key(I, s, c.args[1])
    tt = I.ty(c.destty['variants'][0]['fields'][0][1])
    et = tt['fields'] if 'fields' in tt else tt['variants'][0]['fields']
    tys = [x[1] if isinstance(x, (list, tuple)) else x for x in et]
    # the size of the device is that of the medium as a stream
    val = LV(var(('devlen', key), 0, 2**63 - 1)) if n == 0x80081272 and I.ty(tys[1])['k'] == 'uint' else I.sym(('ioctl', n, key), I.ty(tys[1]))
    ok, r = io_result(c, VAgg(tt['id'], [I.sym(('ioctlret', n, key), I.ty(tys[0])), val]), 'ioctl', (key, n))
    return r


M['iocuddle::Ioctl::<iocuddle::Read, &T>::ioctl'] = m_ioctl


# ------------------------------------------------------------------ checksums (crc crate)
def crc_state(c, x):
    if isinstance(x, VOpq) and isinstance(x.key, tuple) and x.key and x.key[0] == 'crcst':
        return x.key
    raise Unsupported('crc state')


def seq_under(q, pc):
    """drop alternatives of a sequence which contradict the path condition"""
    while isinstance(q, Seq) and q.k == 'ite':
        c = q.a[0]
        if And(pc, Not(c)) is F:
            q = q.a[1]
        elif And(pc, c) is F:
            q = q.a[2]
        else:
            break
    if isinstance(q, Seq) and q.k == 'sub':
        b = seq_under(q.a[0], pc)
        if b is not q.a[0]:
            q = Seq('sub', q.len, b, *q.a[1:])
    return q


def crc_append(I, parts, q):
    """append a byte sequence: single bytes for short ones, ranges of a source otherwise (adjacent ranges joined)"""
    if isinstance(q.len, Leaf) and is_const(q.len.v) and q.len.v[0] <= 32:
        for i in range(q.len.v[0]):
            parts = parts + (('b', I.seq_get(q, const(i), None)),)
        return parts
    src, off = (q.a[0], q.a[1]) if q.k == 'sub' else (q, const(0))
    while src.k == 'sub':
        src, off = src.a[0], add(off, src.a[1])
    k = I.seq_key(src)
    if parts and parts[-1][0] == 'r':
        _, b, o, n = parts[-1]
        if b == k and isinstance(n, Leaf) and add(o, n.v) == off:
            return parts[:-1] + (('r', b, o, map2(add, n, q.len)),)
    return parts + (('r', k, off, q.len),)


def crc_algorithm(I, s, v):
    """(poly, initial value, reflect in, reflect out, final xor) of an algorithm"""
    for _ in range(6):
        v = I.expand(v)
        if isinstance(v, Leaf) and isinstance(v.v, Ptr):
            v = I.read_ptr(v.v, s)
            continue
        if isinstance(v, VAgg) and isinstance(v.ty, int):
            t = I.ty(v.ty)
            fs = [f[0] for f in t['variants'][0]['fields']] if t['k'] == 'adt' else []
            if 'poly' in fs:
                f = dict(zip(fs, v.f))
                out = []
                for n in ('width', 'poly', 'init', 'refin', 'refout', 'xorout'):
                    x = f[n]
                    if not isinstance(x, Leaf):
                        raise Unsupported('crc algorithm')
                    out.append(x.v[0] if isinstance(x.v, tuple) else x.v)
                return tuple(out)
            if 'algorithm' in fs:
                v = v.f[fs.index('algorithm')]
                continue
        break
    raise Unsupported('crc algorithm')


def crc_term(alg, init, parts):
    """checksum of parts from an initial value; continuing a checksum is the checksum of the concatenation"""
    w, poly, refin, refout, xorout = alg
    if refin is True and refout is True and xorout == 0 and init[0] == 0 and len(init[1]) == 1 and init[1][0][1] == 1:
        k = init[1][0][0].key
        if k[0] == 'bitrev' and k[2] == w and k[1][0] == 0 and len(k[1][1]) == 1 and k[1][1][0][1] == 1:
            k = k[1][1][0][0].key
            if k[0] == 'crc' and k[1] == alg:
                init, parts = k[2], join_parts(k[3], parts)
    return var(('crc', alg, init, parts), 0, 2**32 - 1)


def join_parts(a, b):
    if a and b and a[-1][0] == b[0][0] == 'r' and a[-1][1] == b[0][1] and isinstance(a[-1][3], Leaf) and add(a[-1][2], a[-1][3].v) == b[0][2]:
        return a[:-1] + (('r', a[-1][1], a[-1][2], map2(add, a[-1][3], b[0][3])),) + b[1:]
    return a + b


def m_crc_new(c):
    I = c.I
    w, poly, init0, ri, ro, xo = crc_algorithm(I, c.s, I.deref_read(c.args[0], c.s))
    init = c.args[1] if len(c.args) > 1 else L(init0)
    return VOpq(('crcst', (w, poly, ri, ro, xo), init, ()), c.destty['id'])


def m_crc_update(c):
    I, s = c.I, c.s
    st = crc_state(c, I.deref_read(c.args[0], s))
    q = seq_under(seq_of(I, s, c.args[1]), s.pc)
    I.event('crc', s.pc, (q,), c.t['sp'])
    p = single(c.args[0])
    I.write_ptr(p, VOpq(('crcst', st[1], st[2], crc_append(I, st[3], q)), I.read_ptr(p, s).ty), s)
    return unit(c)


def m_crc_final(c):
    _, alg, init, parts = crc_state(c, c.args[0])
    return map1(lambda l: crc_term(alg, l, parts), init)


M['crc::crc32::<impl crc::Crc<u32, crc::Table<L>>>::digest_with_initial'] = m_crc_new
M['crc::crc32::<impl crc::Crc<u32, crc::Table<L>>>::digest'] = m_crc_new
M['crc::crc32::<impl crc::Digest<\'a, u32, crc::Table<L>>>::update'] = m_crc_update
M['crc::crc32::<impl crc::Digest<\'a, u32, crc::Table<L>>>::finalize'] = m_crc_final


# ------------------------------------------------------------------ time values: integral nanoseconds since the epoch / of a span
def tval(I, v):
    """nanoseconds of a time-like value"""
    if isinstance(v, VAgg) and v.ty == ('time',):
        return v.f[0]
    if isinstance(v, (VAgg, VOpq)) and v.ty is not None and not isinstance(v.ty, tuple):
        t = I.ty(v.ty)
        p = t.get('path', '')
        if isinstance(v, VOpq):
            return LV(var(('time', v.key), -2**200, 2**200))

        def ints(x):
            if isinstance(x, (Node, Leaf)):
                return [x]
            if isinstance(x, VAgg):
                return [y for z in x.f for y in ints(z)]
            raise Unsupported('time value')
        c = [x.v[0] for x in ints(v) if isinstance(x, Leaf) and isinstance(x.v, tuple) and is_const(x.v)]
        if p == 'chrono::DateTime' and len(c) == 3:
            import datetime
            y, o = c[0] >> 13, (c[0] >> 4) & 0x1ff
            days = (datetime.date(y, 1, 1) - datetime.date(1970, 1, 1)).days + o - 1
            return L(((days * 86400) + c[1]) * 10**9 + c[2])
        if (p in ('std::time::SystemTime', 'std::time::Duration', 'chrono::TimeDelta') or p.endswith('::Timespec')) and len(c) == 2:
            return L(c[0] * 10**9 + c[1])
    raise Unsupported('time value %r' % (v,))


def timev(n):
    return VAgg(('time',), [n])


def t_unit(mult, lim=None):
    def f(c):
        n = c.args[0]
        if lim is not None:
            c.I.panic(c.s, prd(lambda l: Or(lt(l, const(-lim)), lt(const(lim), l)), n), 'duration out of range', c.t['sp'])
        return timev(map1(lambda l: scale(l, mult), n))
    return f


def t_try(mult, lim):
    def f(c):
        n = c.args[0]
        g = prd(lambda l: And(le(const(-lim), l), le(l, const(lim))), n)
        return option(c, c.destty, g, timev(map1(lambda l: scale(l, mult), n)))
    return f


_I63 = 2**63 - 1
for _n, _m, _l in (('seconds', 10**9, _I63 // 1000), ('milliseconds', 10**6, _I63), ('minutes', 60 * 10**9, _I63 // 60000), ('hours', 3600 * 10**9, _I63 // 3600000), ('days', 86400 * 10**9, _I63 // 86400000)):
    M['chrono::TimeDelta::' + _n] = t_unit(_m, _l)
    M['chrono::TimeDelta::try_' + _n] = t_try(_m, _l)
M['chrono::TimeDelta::nanoseconds'] = t_unit(1)
M['chrono::TimeDelta::microseconds'] = t_unit(1000)
M['std::time::Duration::from_secs'] = t_unit(10**9)
M['std::time::Duration::from_millis'] = t_unit(10**6)
M['std::time::Duration::from_micros'] = t_unit(10**3)
M['std::time::Duration::from_nanos'] = t_unit(1)


@model('std::time::Duration::new')
def m_dur_new(c):
    return timev(map2(lambda a, b: add(scale(a, 10**9), b), c.args[0], c.args[1]))


@model('chrono::TimeDelta::new')
def m_td_new(c):
    ok = prd(lambda b: lt(b, const(10**9)), c.args[1])
    return option(c, c.destty, ok, timev(map2(lambda a, b: add(scale(a, 10**9), b), c.args[0], c.args[1])))


DT_LIM = 262000 * 365 * 86400 * 10**9


def t_add(sign, lim):
    def f(c):
        I = c.I
        a, b = tval(I, c.args[0]), tval(I, c.args[1])
        r = map2(add if sign > 0 else sub, a, b)
        if lim:
            I.panic(c.s, prd(lambda l: Or(lt(l, const(-lim)), lt(const(lim), l)), r), 'time overflow', c.t['sp'])
        return timev(r)
    return f


for _a, _b in (('chrono::DateTime<Tz>', 'chrono::TimeDelta'), ('chrono::DateTime<Tz>', 'std::time::Duration')):
    M['<%s as std::ops::Add<%s>>::add' % (_a, _b)] = t_add(1, DT_LIM)
    M['<%s as std::ops::Sub<%s>>::sub' % (_a, _b)] = t_add(-1, DT_LIM)
M['<chrono::TimeDelta as std::ops::Add>::add'] = t_add(1, None)
M['<std::time::Duration as std::ops::Add>::add'] = t_add(1, None)
M['<std::time::SystemTime as std::ops::Add<std::time::Duration>>::add'] = t_add(1, 2**63 * 10**9)
M['<std::time::SystemTime as std::ops::Sub<std::time::Duration>>::sub'] = t_add(-1, 2**63 * 10**9)


def t_checked(sign, lim):
    def f(c):
        I = c.I
        v0 = c.args[0]
        if isinstance(v0, (Node, Leaf)):
            v0 = I.deref_read(v0, c.s)
        r = map2(add if sign > 0 else sub, tval(I, v0), tval(I, c.args[1]))
        g = prd(lambda l: And(le(const(-lim), l), le(l, const(lim))), r)
        return option(c, c.destty, g, timev(r))
    return f


M['chrono::DateTime::<Tz>::checked_add_signed'] = t_checked(1, DT_LIM)
M['chrono::DateTime::<Tz>::checked_sub_signed'] = t_checked(-1, DT_LIM)
M['std::time::SystemTime::checked_add'] = t_checked(1, 2**63 * 10**9)


def t_from_ts(c):
    s, n = c.args[0], (c.args[1] if len(c.args) > 1 else L(0))
    r = map2(lambda a, b: add(scale(a, 10**9), b), s, n)
    g = And(prd(lambda l: And(le(const(-DT_LIM), l), le(l, const(DT_LIM))), r), prd(lambda l: lt(l, const(10**9)), n))
    return option(c, c.destty, g, timev(r))


M['chrono::DateTime::<chrono::Utc>::from_timestamp'] = M['chrono::DateTime::<chrono::Utc>::from_timestamp_secs'] = t_from_ts
M['chrono::DateTime::<chrono::Utc>::from_timestamp_nanos'] = t_unit(1)


@model('alloc::io::impls::<impl std::io::Read for &[u8]>::read', 'std::io::impls::<impl std::io::Read for &[u8]>::read')
def m_slice_read(c):
    """reading from a slice: copies what fits and shortens the slice"""
    I, s = c.I, c.s
    src = as_slice(I, s, I.deref_read(c.args[0], s))
    buf = as_slice(I, s, c.args[1])
    n, have = slen(I, s, buf), slen(I, s, src)
    amt = apply(lambda x, y: ite(le(x, y), LV(x), LV(y)), n, have)
    cut = lambda p, lo, hi: apply(lambda q, a, b: leaf(I.padd(q, ('sl', a, sub(b, a)))), p, lo, hi)
    data = seq_of(I, s, cut(src, L(0), amt))
    I.deref_write(cut(buf, L(0), amt), data, s)
    I.deref_write(c.args[0], cut(src, amt, have), s)
    return result(c.destty, T, amt, UNDEF)
