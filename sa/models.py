"""Models of library functions (std, alloc, third-party) for the value-graph interpreter."""
from terms import *
import interp as IN
from interp import VAgg, VEnum, VOpq, Seq, Ptr, P, L, LV, UNDEF, Unsupported, map1, map2, prd, leaf, State

M = {}
PREFIX = []


def model(*names):
    def d(f):
        for n in names:
            M[n] = f
        return f
    return d


def install(I):
    I.models = dict(M)


def unit(c):
    return VAgg(c.destty['id'], [])


def enum(ty, **alts):
    """VEnum by variant name: enum(ty, Some=(guard, [x]), None_=(guard, []))"""
    names = {v['name']: i for i, v in enumerate(ty['variants'])}
    d = {}
    for k, (g, f) in alts.items():
        if g is F:
            continue
        d[names[k.rstrip('_')]] = (g, f)
    return VEnum(ty['id'], d)


def option(c, ty, guard, val):
    return enum(ty, Some=(guard, [val]), None_=(Not(guard), []))


def result(ty, okguard, okv, errv):
    return enum(ty, Ok=(okguard, [okv]), Err=(Not(okguard), [errv]))


def opt_none(ty):
    return enum(ty, None_=(T, []))


def variant_index(ty, name):
    for i, v in enumerate(ty['variants']):
        if v['name'] == name:
            return i
    raise Unsupported('variant ' + name)


def strip(c, i=0):
    return c.args[i]


def deref(c, v):
    return c.I.deref_read(v, c.s)


# ------------------------------------------------------------------ pointers to sequences
def as_slice(I, s, v):
    """pointer diagram to a slice, from &[T], &[T;N], &Vec<T>"""
    def f(p):
        if p.proj and p.proj[-1][0] == 'sl':
            return leaf(p)
        x = I.read_ptr(p, s)
        if isinstance(x, Seq):
            return apply(lambda n: leaf(Ptr(p.alloc, p.proj + (('sl', const(0), n),))), x.len)
        if isinstance(x, (Node, Leaf)):
            return as_slice(I, s, x)
        raise Unsupported('as_slice %r' % (x,))
    if not isinstance(v, (Node, Leaf)):
        raise Unsupported('as_slice of %r' % (v,))
    return apply(f, v)


def slen(I, s, v):
    return apply(lambda p: I.ptr_len(p, s), v)


@model('core::slice::<impl [T]>::len', 'std::vec::Vec::<T, A>::len')
def m_len(c):
    return slen(c.I, c.s, as_slice(c.I, c.s, c.args[0]))


@model('core::str::<impl str>::len')
def m_strlen(c):
    return slen(c.I, c.s, as_slice(c.I, c.s, c.args[0]))


@model('core::slice::<impl [T]>::is_empty', 'std::vec::Vec::<T, A>::is_empty')
def m_is_empty(c):
    n = slen(c.I, c.s, as_slice(c.I, c.s, c.args[0]))
    return prd(lambda l: eq(l, const(0)), n)


@model('<std::vec::Vec<T, A> as std::ops::Deref>::deref', '<std::vec::Vec<T, A> as std::ops::DerefMut>::deref_mut', '<std::vec::Vec<T, A> as std::convert::AsRef<[T]>>::as_ref', '<std::vec::Vec<T, A> as std::convert::AsMut<[T]>>::as_mut',
       'std::vec::Vec::<T, A>::as_slice', 'std::vec::Vec::<T, A>::as_mut_slice', 'std::array::<impl [T; N]>::as_slice', 'std::array::<impl std::convert::AsRef<[T]> for [T; N]>::as_ref',
       'std::array::<impl std::convert::AsMut<[T]> for [T; N]>::as_mut', '<[T] as std::convert::AsRef<[T]>>::as_ref', '<[T] as std::convert::AsMut<[T]>>::as_mut', 'std::array::<impl [T; N]>::as_mut_slice',
       '<std::vec::Vec<T, A> as std::borrow::Borrow<[T]>>::borrow')
def m_as_slice(c):
    return as_slice(c.I, c.s, c.args[0])


def range_bounds(c, rty, r, n):
    """(lo, hi) int diagrams and whether to check lo<=hi; r is the range value"""
    p = rty['path'] if rty['k'] == 'adt' else rty['k']
    r = c.I.expand(r) if isinstance(r, VOpq) else r
    if p == 'std::ops::Range':
        return r.f[0], r.f[1]
    if p == 'std::ops::RangeFrom':
        return r.f[0], n
    if p == 'std::ops::RangeTo':
        return L(0), r.f[0]
    if p == 'std::ops::RangeFull':
        return L(0), n
    if p == 'std::ops::RangeInclusive':
        return r.f[0], map1(lambda l: add(l, const(1)), r.f[1])
    if p == 'std::ops::RangeToInclusive':
        return L(0), map1(lambda l: add(l, const(1)), r.f[0])
    raise Unsupported('range ' + p)


def index_ty(c):
    for i in range(len((c.f or c.t)['targs'])):
        t = c.targ(i)
        if t['k'] == 'uint' and t['name'] == 'usize' and i > 0:
            return t
        if t['k'] == 'adt' and t['path'].startswith('std::ops::Range'):
            return t
    raise Unsupported('index type')


def do_slice(c, base, lo, hi):
    return apply(lambda p, a, b: leaf(c.I.padd(p, ('sl', a, sub(b, a)))), base, lo, hi)


@model('core::slice::index::<impl std::ops::Index<I> for [T]>::index', 'core::slice::index::<impl std::ops::IndexMut<I> for [T]>::index_mut', '<std::vec::Vec<T, A> as std::ops::Index<I>>::index', '<std::vec::Vec<T, A> as std::ops::IndexMut<I>>::index_mut',
       'std::array::<impl std::ops::Index<I> for [T; N]>::index', 'std::array::<impl std::ops::IndexMut<I> for [T; N]>::index_mut', 'core::str::traits::<impl std::ops::Index<I> for str>::index')
def m_index(c):
    I, s = c.I, c.s
    base = as_slice(I, s, c.args[0])
    n = slen(I, s, base)
    t = c.argtys[1] if c.argtys else index_ty(c)
    if t['k'] == 'uint':
        idx = c.args[1]
        bad = prd(lambda i, m: le(m, i), idx, n)
        I.panic(s, bad, 'bounds', c.t['sp'])
        return apply(lambda p, i: leaf(I.padd(p, ('i', i))), base, idx)
    lo, hi = range_bounds(c, t, c.args[1], n)
    bad = prd(lambda a, b, m: Or(lt(b, a), lt(m, b)), lo, hi, n)
    I.panic(s, bad, 'slice bounds', c.t['sp'])
    return do_slice(c, base, lo, hi)


@model('core::slice::<impl [T]>::get', 'core::slice::<impl [T]>::get_mut')
def m_get(c):
    I, s = c.I, c.s
    base = as_slice(I, s, c.args[0])
    n = slen(I, s, base)
    t = c.argtys[1] if c.argtys else index_ty(c)
    if t['k'] == 'uint':
        ok = prd(lambda i, m: lt(i, m), c.args[1], n)
        return option(c, c.destty, ok, apply(lambda p, i: leaf(I.padd(p, ('i', i))), base, c.args[1]))
    lo, hi = range_bounds(c, t, c.args[1], n)
    ok = prd(lambda a, b, m: And(le(a, b), le(b, m)), lo, hi, n)
    return option(c, c.destty, ok, do_slice(c, base, lo, hi))


@model('core::slice::<impl [T]>::first', 'core::slice::<impl [T]>::last')
def m_first(c):
    I, s = c.I, c.s
    base = as_slice(I, s, c.args[0])
    n = slen(I, s, base)
    ok = prd(lambda m: lt(const(0), m), n)
    last = c.rpath.endswith('last')
    v = apply(lambda p, m: leaf(I.padd(p, ('i', sub(m, const(1)) if last else const(0)))), base, n)
    return option(c, c.destty, ok, v)


@model('core::slice::<impl [T]>::split_at', 'core::slice::<impl [T]>::split_at_mut')
def m_split_at(c):
    I, s = c.I, c.s
    base = as_slice(I, s, c.args[0])
    n = slen(I, s, base)
    bad = prd(lambda k, m: lt(m, k), c.args[1], n)
    I.panic(s, bad, 'split_at', c.t['sp'])
    return VAgg(c.destty['id'], [do_slice(c, base, L(0), c.args[1]), do_slice(c, base, c.args[1], n)])


def seq_of(I, s, v):
    """sequence value behind a slice pointer"""
    v = as_slice(I, s, v)
    return I.deref_read(v, s)


@model('core::slice::<impl [T]>::copy_from_slice', 'core::slice::<impl [T]>::clone_from_slice', 'core::slice::copy_from_slice_impl')
def m_copy_from_slice(c):
    I, s = c.I, c.s
    d = as_slice(I, s, c.args[0])
    r = as_slice(I, s, c.args[1])
    nd, nr = slen(I, s, d), slen(I, s, r)
    I.panic(s, prd(lambda a, b: Not(eq(a, b)), nd, nr), 'copy_from_slice length', c.t['sp'])
    I.deref_write(d, seq_of(I, s, r), s)
    return unit(c)


@model('core::slice::<impl [T]>::fill')
def m_fill(c):
    I, s = c.I, c.s
    d = as_slice(I, s, c.args[0])
    I.deref_write(d, Seq('rep', slen(I, s, d), c.args[1]), s)
    return unit(c)


@model('core::ptr::const_ptr::<impl *const T>::addr', 'std::ptr::const_ptr::<impl *const T>::addr', 'core::ptr::mut_ptr::<impl *mut T>::addr')
def m_addr(c):
    t = c.argtys[0]
    t = t if isinstance(t, dict) else c.I.ty(t)
    return map1(lambda p: c.I.address(p, t), c.args[0])


@model('core::slice::<impl [T]>::as_ptr', 'core::slice::<impl [T]>::as_mut_ptr')
def m_as_ptr(c):
    return c.args[0]


def new_vec(c, seq):
    al = ('H',) + c.I.fresh('vec')
    c.s.st[al] = seq
    return P(al)


OWNERS = ('std::vec::Vec', 'std::collections::VecDeque')


def owns(I, ty, seen=()):
    """may values of this type own growable memory (which cloning duplicates)?"""
    ty = ty if isinstance(ty, dict) else I.ty(ty)
    k = ty['k']
    if k == 'adt':
        if ty['path'] in OWNERS:
            return True
        if ty['path'] in ('std::rc::Rc', 'std::sync::Arc', 'std::string::String') or ty['id'] in seen:
            return False
        seen = seen + (ty['id'],)
        return any(owns(I, f[1], seen) for v in ty.get('variants') or [] for f in v['fields'])
    if k == 'array':
        return owns(I, ty['elem'], seen)
    if k == 'tuple':
        return any(owns(I, f, seen) for f in ty['fields'])
    return False


def clone_of(c, s, v, ty):
    """a clone of a value of type ty: owned sequences are duplicated, so that writing to one copy leaves the other"""
    I = c.I
    ty = ty if isinstance(ty, dict) else I.ty(ty)
    if not owns(I, ty):
        return v
    if ty['k'] == 'adt' and ty['path'] in OWNERS:
        if not isinstance(v, (Node, Leaf)):
            return v
        et = ty['args'][0]

        def dup(p):
            if not isinstance(p, Ptr):
                raise Unsupported('clone of %r' % (p,))
            q = I.read_ptr(p, s)
            if not isinstance(q, Seq):
                raise Unsupported('clone of %r' % (q,))
            al = ('H',) + I.fresh('clone')
            s.st[al] = clone_seq(c, s, q, et)
            return leaf(Ptr(al, ()))
        return I.fold_ptr(v, dup)
    if isinstance(v, Seq):
        return clone_seq(c, s, v, ty['elem'])
    if isinstance(v, VAgg):
        fs = ty['fields'] if ty['k'] != 'adt' else [f[1] for f in ty['variants'][0]['fields']]
        return VAgg(v.ty, [clone_of(c, s, x, t) for x, t in zip(v.f, fs)])
    if isinstance(v, VEnum):
        return VEnum(v.ty, {i: (g, [clone_of(c, s, x, f[1]) for x, f in zip(xs, ty['variants'][i]['fields'])]) for i, (g, xs) in v.alts.items()})
    return v


def clone_seq(c, s, q, et):
    if not owns(c.I, et):
        return q
    if q.k == 'const':
        return Seq('const', q.len, [clone_of(c, s, x, et) for x in q.a[0]])
    x = q
    while x.k == 'sub':
        x = x.a[0]
    if x.k == 'abs':
        return q  # input memory, which nothing changes in place
    if x.k == 'rep' and not has_owned(x.a[0]):
        return q
    raise Unsupported('clone of a sequence of owned sequences')


def has_owned(v):
    if isinstance(v, (Node, Leaf)):
        return any(isinstance(p, Ptr) for p in leaves(v))
    if isinstance(v, VAgg):
        return any(has_owned(x) for x in v.f)
    if isinstance(v, VEnum):
        return any(has_owned(x) for g, xs in v.alts.values() for x in xs)
    return isinstance(v, Seq)


@model('std::slice::<impl std::borrow::ToOwned for [T]>::to_owned', 'std::slice::<impl [T]>::to_vec', 'alloc::slice::<impl [T]>::to_vec', '<std::vec::Vec<T> as std::convert::From<&[T]>>::from', 'std::slice::<impl [T]>::into_vec',
       '<std::vec::Vec<T, A> as std::clone::Clone>::clone', '<std::ffi::OsString as std::convert::From<&T>>::from', 'std::ffi::OsStr::to_os_string', 'std::ffi::OsStr::to_owned', '<std::ffi::OsStr as std::borrow::ToOwned>::to_owned',
       '<T as std::slice::<impl [T]>::to_vec_in::ConvertVec>::to_vec', 'std::slice::<impl [T]>::to_vec_in')
def m_to_owned(c):
    q = seq_of(c.I, c.s, c.args[0])
    d = c.destty
    if d['k'] == 'adt' and d['path'] in OWNERS and c.rpath.endswith(('clone', 'to_owned', 'to_vec', 'from')):
        q = clone_seq(c, c.s, q, d['args'][0])
    return new_vec(c, q)


@model('std::vec::Vec::<T>::new', 'std::vec::Vec::<T>::with_capacity')
def m_vec_new(c):
    if c.args:
        c.I.event('alloc', c.s.pc, (c.rpath, c.args[0], c.destty['args'][0]), c.t['sp'])
    return new_vec(c, Seq('const', L(0), []))


@model('std::vec::from_elem')
def m_from_elem(c):
    c.I.event('alloc', c.s.pc, (c.rpath, c.args[1], c.destty['args'][0]), c.t['sp'])
    n = c.args[1]
    et = c.destty['args'][0]
    own = owns(c.I, et) and has_owned(c.args[0])
    if isinstance(n, Leaf) and is_const(n.v) and n.v[0] <= (256 if own else 16):
        return new_vec(c, Seq('const', n, [clone_of(c, c.s, c.args[0], et) if own and i else c.args[0] for i in range(n.v[0])]))
    if own:
        raise Unsupported('vec! of owned sequences')
    return new_vec(c, Seq('rep', n, c.args[0]))


@model('std::vec::Vec::<T, A>::push')
def m_push(c):
    I, s = c.I, c.s
    def one(p, cond):
        q = I.read_ptr(p, s)
        if not isinstance(q, Seq):
            raise Unsupported('push on %r' % (q,))
        if q.k == 'const':
            n = Seq('const', L(len(q.a[0]) + 1), list(q.a[0]) + [c.args[1]])
        else:
            n = Seq('push', map1(lambda l: add(l, const(1)), q.len), q, c.args[1])
        I.write_ptr(p, n, s, cond)
    I.event('push', s.pc, (c.args[0], c.args[1]), c.t['sp'])
    for cond, p in I.ptr_cases(c.args[0]):
        # pointer to the Vec value, whose value is itself a pointer to the heap sequence
        v = I.read_ptr(p, s)
        if isinstance(v, Seq):
            one(p, cond)
        else:
            for c2, p2 in I.ptr_cases(v):
                one(p2, And(cond, c2))
    return unit(c)


@model('std::vec::Vec::<T, A>::pop')
def m_pop(c):
    I, s = c.I, c.s
    v = I.deref_read(c.args[0], s)
    q = I.deref_read(v, s)
    if not isinstance(q, Seq):
        raise Unsupported('pop')
    some = prd(lambda l: Not(eq(l, const(0))), q.len)
    if q.k == 'const':
        last = q.a[0][-1] if q.a[0] else UNDEF
        new = Seq('const', L(max(len(q.a[0]) - 1, 0)), q.a[0][:-1])
    elif q.k == 'push':
        last, new = q.a[1], q.a[0]
    else:
        def g(l):
            return I.seq_get(q, add(l, const(-1)), None)
        last = I.fold_ptr_int(q.len, g)
        ln = apply(lambda l: ite(eq(l, const(0)), L(0), LV(add(l, const(-1)))), q.len)
        new = I.seq_sub(q, const(0), ln)
    I.deref_write(v, new, s)
    I.event('pop', s.pc, (v,), c.t['sp'])
    if some is F:
        return opt_none(c.destty)
    return option(c, c.destty, some, last)


def vec_const(I, s, a):
    """(pointer to the elements, elements) of a vector whose elements are all known"""
    v = I.deref_read(a, s)
    q = I.deref_read(v, s)
    if not isinstance(q, Seq) or q.k != 'const':
        raise Unsupported('elements of the vector')
    return v, list(q.a[0])


@model('std::vec::Vec::<T, A>::swap_remove', 'std::vec::Vec::<T, A>::remove')
def m_vec_remove(c):
    I, s = c.I, c.s
    v, e = vec_const(I, s, c.args[0])
    n = c.args[1]
    name = c.rpath.split('::')[-1]
    I.panic(s, prd(lambda l: le(const(len(e)), l), n), 'index of ' + name, c.t['sp'])
    if s.pc is F or not e:
        return UNDEF
    r, new = e[-1], None
    for j in range(len(e) - 1, -1, -1):
        if name == 'remove':
            x = e[:j] + e[j + 1:]
        else:
            x = list(e)
            x[j] = x[-1]
            x.pop()
        if new is None:
            r, new = e[j], x
            continue
        g = prd(lambda l: eq(l, const(j)), n)
        r = I.vite(g, e[j], r)
        new = [I.vite(g, a, b) for a, b in zip(x, new)]
    I.deref_write(v, Seq('const', L(len(e) - 1), new), s)
    return r


@model('std::vec::Vec::<T, A>::insert')
def m_vec_insert(c):
    I, s = c.I, c.s
    v, e = vec_const(I, s, c.args[0])
    n = c.args[1]
    I.panic(s, prd(lambda l: lt(const(len(e)), l), n), 'index of insert', c.t['sp'])
    if s.pc is F:
        return UNDEF
    new = e + [c.args[2]]
    for j in range(len(e)):
        g = prd(lambda l: eq(l, const(j)), n)
        new = [I.vite(g, a, b) for a, b in zip(e[:j] + [c.args[2]] + e[j:], new)]
    I.deref_write(v, Seq('const', L(len(e) + 1), new), s)
    return unit(c)


def fold_int(I, n, f):
    if isinstance(n, Leaf):
        return f(n.v)
    return I.vite(mk(n.var, T, F), fold_int(I, n.hi, f), fold_int(I, n.lo, f))


IN.Interp.fold_ptr_int = lambda self, n, f: fold_int(self, n, f)


@model('std::vec::Vec::<T, A>::clear')
def m_clear(c):
    v = c.I.deref_read(c.args[0], c.s)
    c.I.deref_write(v, Seq('const', L(0), []), c.s)
    return unit(c)


@model('std::vec::Vec::<T, A>::truncate')
def m_truncate(c):
    I, s = c.I, c.s
    v = I.deref_read(c.args[0], s)
    q = I.deref_read(v, s)
    ln = apply(lambda a, b: ite(le(a, b), LV(a), LV(b)), q.len, c.args[1])
    I.deref_write(v, I.seq_sub(q, const(0), ln), s)
    return unit(c)


# ------------------------------------------------------------------ boxes and reference counting
@model('std::boxed::Box::<T>::new', 'std::rc::Rc::<T>::new', 'std::sync::Arc::<T>::new')
def m_box_new(c):
    al = ('H',) + c.I.fresh('box')
    c.s.st[al] = c.args[0]
    return P(al)


@model('std::boxed::Box::<T>::new_uninit')
def m_box_uninit(c):
    al = ('H',) + c.I.fresh('box')
    c.s.st[al] = UNDEF
    return P(al)


@model('std::boxed::box_assume_init_into_vec_unsafe')
def m_box_into_vec(c):
    q = c.I.deref_read(c.args[0], c.s)
    while isinstance(q, VAgg):
        q = next((x for x in q.f if isinstance(x, (Seq, VAgg))), None)
    if not isinstance(q, Seq):
        raise Unsupported('vec![] of %r' % (q,))
    return new_vec(c, q)


@model('<std::rc::Rc<T, A> as std::ops::Deref>::deref', '<std::rc::Rc<T, A> as std::convert::AsRef<T>>::as_ref', '<std::boxed::Box<T, A> as std::convert::AsRef<T>>::as_ref', '<std::boxed::Box<T, A> as std::ops::Deref>::deref',
       '<std::boxed::Box<T, A> as std::ops::DerefMut>::deref_mut', '<std::sync::Arc<T, A> as std::ops::Deref>::deref', '<std::boxed::Box<T, A> as std::borrow::Borrow<T>>::borrow')
def m_rc_deref(c):
    return c.I.deref_read(c.args[0], c.s)


@model('<std::rc::Rc<T, A> as std::clone::Clone>::clone', '<std::sync::Arc<T, A> as std::clone::Clone>::clone')
def m_rc_clone(c):
    return c.I.deref_read(c.args[0], c.s)


@model('<std::rc::Rc<T> as std::convert::From<T>>::from', '<std::boxed::Box<T> as std::convert::From<T>>::from')
def m_rc_from(c):
    return m_box_new(c)


# ------------------------------------------------------------------ intrinsics / mem
@model('std::mem::size_of', 'std::intrinsics::size_of')
def m_size_of(c):
    t = c.targ(0)
    if 'size' not in t:
        raise Unsupported('size_of ' + t['name'])
    return L(t['size'])


@model('std::intrinsics::bswap')
def m_bswap(c):
    n = c.destty['bits'] // 8

    def f(l):
        r = const(0)
        for j in range(n):
            r = add(r, scale(trunc(shr(l, 8 * j), 8), 1 << (8 * (n - 1 - j))))
        return r
    return map1(f, c.args[0])


@model('std::intrinsics::cttz', 'std::intrinsics::ctlz', 'std::intrinsics::ctpop', 'std::intrinsics::cttz_nonzero', 'std::intrinsics::ctlz_nonzero')
def m_bitcount(c):
    n = c.path.split('intrinsics::')[-1].split('::')[0].replace('_nonzero', '')
    t = c.argtys[0]
    if not isinstance(t, dict) or t['k'] not in ('uint', 'int'):
        raise Unsupported('bit count')
    w = t['bits']
    return map1(lambda l: const(bitcount(n, l[0], w)) if is_const(l) else av(atom(('bitcount', n, l, w), 0, w)), c.args[0])


@model('std::intrinsics::bitreverse', 'core::num::<impl u32>::reverse_bits', 'core::num::<impl u16>::reverse_bits', 'core::num::<impl u64>::reverse_bits')
def m_bitrev(c):
    w = c.destty['bits']
    return map1(lambda l: const(int(bin(l[0] + (1 << w))[3:][::-1], 2)) if is_const(l) else av(atom(('bitrev', l, w), 0, (1 << w) - 1)), c.args[0])


def two(op):
    def f(c):
        return c.I.binop(op, c.args[0], c.args[1], c.argtys[0])
    return f


M['std::intrinsics::add_with_overflow'] = lambda c: _ovf(c, 'AddWithOverflow')
M['std::intrinsics::sub_with_overflow'] = lambda c: _ovf(c, 'SubWithOverflow')
M['std::intrinsics::mul_with_overflow'] = lambda c: _ovf(c, 'MulWithOverflow')
M['std::intrinsics::wrapping_add'] = two('Add')
M['std::intrinsics::wrapping_sub'] = two('Sub')
M['std::intrinsics::wrapping_mul'] = two('Mul')
M['std::intrinsics::unchecked_add'] = two('AddUnchecked')
M['std::intrinsics::unchecked_sub'] = two('SubUnchecked')
M['std::intrinsics::unchecked_mul'] = two('MulUnchecked')
M['std::intrinsics::unchecked_div'] = two('Div')
M['std::intrinsics::unchecked_rem'] = two('Rem')
M['std::intrinsics::unchecked_shl'] = two('Shl')
M['std::intrinsics::unchecked_shr'] = two('Shr')
M['std::intrinsics::exact_div'] = two('Div')


def _ovf(c, op):
    r = c.I.binop(op, c.args[0], c.args[1], c.argtys[0])
    return VAgg(c.destty['id'], r.f)


@model('std::intrinsics::likely', 'std::intrinsics::unlikely', 'std::hint::likely', 'std::hint::unlikely', 'std::hint::black_box')
def m_ident(c):
    return c.args[0]


@model('std::intrinsics::cold_path', 'std::hint::cold_path')
def m_cold(c):
    return unit(c)


@model('std::hint::assert_unchecked', 'std::intrinsics::assume', 'core::ub_checks::assert_unsafe_precondition')
def m_assume(c):
    return unit(c)


@model('core::ub_checks::check_language_ub', 'std::intrinsics::ub_checks')
def m_ub(c):
    return F


@model('std::intrinsics::saturating_add', 'std::intrinsics::saturating_sub')
def m_sat(c):
    ty = c.destty
    lo, hi = IN.int_range(ty)
    f = add if c.rpath.endswith('add') else sub
    ex = map2(f, c.args[0], c.args[1])
    return apply(lambda l: ite(lt(l, const(lo)), L(lo), ite(lt(const(hi), l), L(hi), LV(l))), ex)


for _t in ('u8', 'u16', 'u32', 'u64', 'usize'):
    def _mk(t):
        def sat_mul(c):
            lo, hi = IN.int_range(c.destty)
            ex = map2(mul, c.args[0], c.args[1])
            return apply(lambda l: ite(lt(const(hi), l), L(hi), LV(l)), ex)
        M['core::num::<impl %s>::saturating_mul' % t] = sat_mul

        def div_ceil(c):
            a, b = c.args
            c.I.panic(c.s, prd(lambda y: eq(y, const(0)), b), 'div by zero', c.t['sp'])
            # q = ceil(a/b)
            return map2(lambda x, y: udiv_ceil(x, y), a, b)
        M['core::num::<impl %s>::div_ceil' % t] = div_ceil

        def pow_(c):
            a, e = c.args
            w = c.destty['bits']

            def g(x, y):
                if is_const(x) and is_const(y):
                    return const(x[0] ** y[0])
                if is_const(y) and y[0] <= 4:
                    r = const(1)
                    for _ in range(y[0]):
                        r = mul(r, x)
                    return r
                return av(atom(('pow', x, y), 0, None))
            ex = map2(g, a, e)
            c.I.panic(c.s, prd(lambda x: lt(const((1 << w) - 1), x), ex), 'overflow pow', c.t['sp'])
            return ex
        M['core::num::<impl %s>::pow' % t] = pow_

        def unb_shl(c):
            a, e = c.args
            w = c.destty['bits']
            def g(x, y):
                if is_const(y):
                    return const(0) if y[0] >= w else trunc(scale(x, 1 << y[0]), w)
                return c.I.shl_sym(x, y, w)
            return map2(g, a, e)
        M['core::num::<impl %s>::unbounded_shl' % t] = unb_shl

        def minmax_swap(c):
            n = c.destty['bits'] // 8
            return None
        M['core::num::<impl %s>::is_power_of_two' % t] = lambda c: map_pred('pow2', c)
    _mk(_t)


def map_pred(name, c):
    return prd(lambda l: (T if l[0] and l[0] & (l[0] - 1) == 0 else F) if is_const(l) else bvar((name, l)), c.args[0])


def udiv_ceil(x, y):
    if is_const(y) and y[0] > 0:
        return udiv(add(x, const(y[0] - 1)), y)
    lo, hi = rng(x)
    return av(atom(('divc', x, y), 0, hi))


def _scalar(c, x):
    if isinstance(x, (Node, Leaf)) and any(isinstance(y, Ptr) for y in leaves(x)):
        return c.I.deref_read(x, c.s)
    return x


def m_div_rem(c):
    a, b = [_scalar(c, x) for x in c.args]
    c.I.panic(c.s, prd(lambda y: eq(y, const(0)), b), 'div by zero', c.t['sp'])
    return VAgg(c.destty['id'], [map2(udiv, a, b), apply(gurem, a, b)])


def _div_floor(c):
    return m_div_rem2(c)[0]


def _mod_floor(c):
    return m_div_rem2(c)[1]


def m_div_rem2(c):
    a, b = [_scalar(c, x) for x in c.args]
    c.I.panic(c.s, prd(lambda y: eq(y, const(0)), b), 'div by zero', c.t['sp'])
    return map2(udiv, a, b), apply(gurem, a, b)


M['num_integer::Integer::div_rem'] = m_div_rem
for _t in ('u8', 'u16', 'u32', 'u64', 'usize'):
    for _n, _m in (('div_rem', m_div_rem), ('div_mod_floor', m_div_rem), ('div_floor', _div_floor), ('mod_floor', _mod_floor)):
        M['<%s as num_integer::Integer>::%s' % (_t, _n)] = _m


def exact_arith(op, how):
    """arithmetic between signed and unsigned numbers, exact and then checked or clamped"""
    def f(c):
        a, b = c.args
        x = map2(op, a, b)
        if how == 'checked':
            w = c.I.ty(c.destty['variants'][variant_index(c.destty, 'Some')]['fields'][0][1])
            lo, hi = IN.int_range(w)
            ok = prd(lambda v: And(le(const(lo), v), le(v, const(hi))), x)
            return option(c, c.destty, ok, restrict(x, ok))
        lo, hi = IN.int_range(c.destty)
        return map1_(lambda v: ite(lt(v, const(lo)), L(lo), ite(lt(const(hi), v), L(hi), LV(v))), x)
    return f


def map1_(f, x):
    return apply(lambda v: f(v), x)


for _t in ('u8', 'u16', 'u32', 'u64', 'usize', 'i8', 'i16', 'i32', 'i64', 'isize'):
    for _n, _op in (('add', add), ('sub', sub)):
        for _x in ('_signed', '_unsigned'):
            M['core::num::<impl %s>::checked_%s%s' % (_t, _n, _x)] = exact_arith(_op, 'checked')
            M['core::num::<impl %s>::saturating_%s%s' % (_t, _n, _x)] = exact_arith(_op, 'saturating')


# ------------------------------------------------------------------ comparison helpers
@model('std::cmp::min', 'std::cmp::Ord::min', 'std::intrinsics::integer_min')
def m_min(c):
    a, b = c.args
    if all(isinstance(x, (Node, Leaf)) for x in (a, b)):
        return apply(lambda x, y: ite(le(x, y), LV(x), LV(y)), a, b)
    raise Unsupported('min')


@model('std::cmp::max', 'std::cmp::Ord::max', 'std::intrinsics::integer_max')
def m_max(c):
    a, b = c.args
    if all(isinstance(x, (Node, Leaf)) for x in (a, b)):
        return apply(lambda x, y: ite(le(y, x), LV(x), LV(y)), a, b)
    raise Unsupported('max')


for _t in ('u8', 'u16', 'u32', 'u64', 'usize', 'i32', 'i64', 'i16', 'isize', 'i8'):
    M['std::cmp::impls::<impl std::cmp::Ord for %s>::min' % _t] = m_min
    M['std::cmp::impls::<impl std::cmp::Ord for %s>::max' % _t] = m_max

    def _clamp(c):
        x, lo, hi = c.args
        c.I.panic(c.s, prd(lambda a, b: lt(b, a), lo, hi), 'clamp', c.t['sp'])
        return apply(lambda v, a, b: ite(lt(v, a), LV(a), ite(lt(b, v), LV(b), LV(v))), x, lo, hi)
    M['std::cmp::impls::<impl std::cmp::Ord for %s>::clamp' % _t] = _clamp

    def _cmp(c):
        a, b = deref(c, c.args[0]), deref(c, c.args[1])
        l_ = prd(lambda x, y: lt(x, y), a, b)
        e_ = prd(lambda x, y: eq(x, y), a, b)
        return VEnum(c.destty['id'], {0: (l_, []), 1: (e_, []), 2: (And(Not(l_), Not(e_)), [])})
    M['std::cmp::impls::<impl std::cmp::Ord for %s>::cmp' % _t] = _cmp

    def _pcmp(c):
        a, b = deref(c, c.args[0]), deref(c, c.args[1])
        l_ = prd(lambda x, y: lt(x, y), a, b)
        e_ = prd(lambda x, y: eq(x, y), a, b)
        ot = c.I.ty(c.destty['variants'][1]['fields'][0][1])
        return enum(c.destty, Some=(T, [VEnum(ot['id'], {0: (l_, []), 1: (e_, []), 2: (And(Not(l_), Not(e_)), [])})]))
    M['std::cmp::impls::<impl std::cmp::PartialOrd for %s>::partial_cmp' % _t] = _pcmp


def word_eq(xs):
    """equality of 2, 4 or 8 consecutive loaded bytes with constants as one comparison; None if it is not that"""
    if len(xs) not in (2, 4, 8):
        return None
    w = want = (0, ())
    for i, (x, y) in enumerate(xs):
        if not (isinstance(x, Leaf) and isinstance(y, Leaf)):
            return None
        x, y = (y.v, x.v) if isinstance(x.v, tuple) and is_const(x.v) else (x.v, y.v)
        if not (isinstance(x, tuple) and isinstance(y, tuple) and is_const(y)) or len(x[1]) != 1 or x[0] or x[1][0][1] != 1 or x[1][0][0].key[0] != 'load' or x[1][0][0].key[3] != 1:
            return None
        w = add(w, scale(x, 1 << (8 * i)))
        want = add(want, scale(y, 1 << (8 * i)))
    return eq(w, want) if len(w[1]) == 1 else None


def And_all(xs, f):
    r = word_eq(xs)
    if r is not None:
        return r
    r = T
    for x, y in reversed(xs):
        r = And(r, f(x, y))
    return r


def value_eq(I, s, a, b, depth=0):
    """structural equality as a boolean diagram"""
    if isinstance(a, (Node, Leaf)) and isinstance(b, (Node, Leaf)):
        def f(x, y):
            if isinstance(x, bool) or isinstance(y, bool):
                return T if x == y else F
            if isinstance(x, Ptr) and isinstance(y, Ptr):
                if x == y:
                    return T
                return value_eq(I, s, I.read_ptr(x, s), I.read_ptr(y, s), depth + 1)
            return eq(x, y)
        return apply(f, a, b)
    if any(isinstance(x, VAgg) and x.ty == ('time',) for x in (a, b)) or any(isinstance(x, (Node, Leaf)) and isinstance(y, VAgg) for x, y in ((a, b), (b, a))):
        import models2
        return apply(lambda x, y: eq(x, y), *(x if isinstance(x, (Node, Leaf)) else models2.tval(I, x) for x in (a, b)))
    a, b = I.expand(a), I.expand(b)
    if isinstance(a, VAgg) and isinstance(b, VAgg) and len(a.f) == len(b.f):
        return And(*[value_eq(I, s, x, y, depth) for x, y in zip(a.f, b.f)])
    if isinstance(a, VEnum) and isinstance(b, VEnum):
        r = F
        for k in set(a.alts) & set(b.alts):
            g = And(a.alts[k][0], b.alts[k][0])
            if g is F:
                continue
            for x, y in zip(a.alts[k][1], b.alts[k][1]):
                g = And(g, value_eq(I, s, x, y, depth))
            r = Or(r, g)
        return r
    if isinstance(a, Seq) and isinstance(b, Seq):
        if I.seq_key(a) == I.seq_key(b) and a.len is b.len:
            return T
        if isinstance(a.len, Leaf) and isinstance(b.len, Leaf) and is_const(a.len.v) and is_const(b.len.v):
            n, m = a.len.v[0], b.len.v[0]
            if n != m:
                return F
            if n <= 1024:
                return And_all([(I.seq_get(a, const(i), None), I.seq_get(b, const(i), None)) for i in range(n)], lambda x, y: value_eq(I, s, x, y, depth))
        if depth < 8:
            for x, y in ((a, b), (b, a)):
                if x.k == 'ite' and isinstance(x.len, Node):
                    # one of two contents of different lengths
                    g, p, q = x.a
                    return Or(And(g, value_eq(I, s, p, y, depth + 1)), And(Not(g), value_eq(I, s, q, y, depth + 1)))
    ka, kb = I.vkey(a, s.st), I.vkey(b, s.st)
    if ka == kb:
        return T
    x, y = sorted((ka, kb), key=repr)
    return bvar(('eqv', x, y))


@model('<[T] as std::cmp::PartialEq<[U]>>::eq', 'core::slice::cmp::<impl std::cmp::PartialEq<[U]> for [T]>::eq', 'std::array::equality::<impl std::cmp::PartialEq<[U; N]> for [T; N]>::eq', 'core::array::equality::<impl std::cmp::PartialEq<[U; N]> for [T; N]>::eq',
       '<std::ffi::OsString as std::cmp::PartialEq>::eq', '<std::ffi::OsStr as std::cmp::PartialEq>::eq', '<std::string::String as std::cmp::PartialEq>::eq', 'core::str::traits::<impl std::cmp::PartialEq for str>::eq',
       'std::cmp::PartialEq::eq', 'std::vec::partial_eq::<impl std::cmp::PartialEq<std::vec::Vec<U, A2>> for std::vec::Vec<T, A1>>::eq')
def m_slice_eq(c):
    I, s = c.I, c.s
    def rd(v):
        x = deref(c, v)
        while isinstance(x, (Node, Leaf)) and isinstance(x, Leaf) and isinstance(x.v, Ptr):
            x = deref(c, x)
        return x
    return value_eq(I, s, rd(c.args[0]), rd(c.args[1]))


def slice_elems(c, v, n=None):
    """elements of a slice of known length"""
    I, s = c.I, c.s
    p = as_slice(I, s, v)
    if n is None:
        n = slen(I, s, p)
        if not (isinstance(n, Leaf) and is_const(n.v)):
            return None
        n = n.v[0]

    def at(i):
        return I.fold_ptr(p, lambda q: I.seq_get(I.read_ptr(Ptr(q.alloc, q.proj[:-1]), s), add(q.proj[-1][1], const(i)), None))
    return [at(i) for i in range(n)]


@model('core::slice::cmp::<impl std::cmp::PartialEq for [u8]>::eq')
def m_bytes_eq(c):
    a, b = slice_elems(c, c.args[0]), slice_elems(c, c.args[1])
    if a is None or b is None:
        return m_slice_eq(c)
    if len(a) != len(b):
        return F
    return And_all(list(zip(a, b)), lambda x, y: prd(lambda i, j: eq(i, j), x, y))


def cow_alts(c, v):
    """(condition, pointer to the slice) for each way a Cow holds its contents"""
    I, s = c.I, c.s
    if not (isinstance(v, Leaf) and isinstance(v.v, Ptr)):
        raise Unsupported('Cow')
    e = I.expand(I.read_ptr(v.v, s))
    if not isinstance(e, VEnum):
        raise Unsupported('Cow %r' % (e,))
    names = [x['name'] for x in I.ty(e.ty)['variants']]
    out = []
    for k, (g, f) in e.alts.items():
        if names[k] == 'Borrowed':
            out.append((g, f[0]))
        else:
            out.append((g, as_slice(I, s, leaf(I.padd(I.padd(v.v, ('v', k)), ('f', 0))))))
    return out


@model("<std::borrow::Cow<'a, B> as std::cmp::PartialEq<std::borrow::Cow<'b, C>>>::eq")
def m_cow_eq(c):
    I, s = c.I, c.s
    r = F
    for g, a in cow_alts(c, c.args[0]):
        for h, b in cow_alts(c, c.args[1]):
            w = And(g, h)
            if w is not F:
                r = Or(r, And(w, value_eq(I, s, deref(c, a), deref(c, b))))
    return r


@model("<std::borrow::Cow<'_, B> as std::ops::Deref>::deref")
def m_cow_deref(c):
    al = cow_alts(c, c.args[0])
    r = al[-1][1]
    for g, a in al[:-1]:
        r = ite(g, a, r)
    return r


@model('std::string::String::from_utf8_lossy')
def m_lossy(c):
    """exact for texts of at most one byte"""
    a = slice_elems(c, c.args[0])
    if a is None or len(a) > 1:
        return NotImplemented
    i = {v['name']: k for k, v in enumerate(c.destty['variants'])}
    ascii_ = prd(lambda l: lt(l, const(128)), a[0]) if a else T
    alts = {i['Borrowed']: (ascii_, [c.args[0]])}
    if ascii_ is not T:
        alts[i['Owned']] = (Not(ascii_), [Seq('const', L(3), [L(0xef), L(0xbf), L(0xbd)])])
    return VEnum(c.destty['id'], alts)


@model('std::intrinsics::compare_bytes')
def m_compare_bytes(c):
    n = c.args[2]
    if not (isinstance(n, Leaf) and is_const(n.v)):
        raise Unsupported('compare_bytes of unknown length')
    a, b = slice_elems(c, c.args[0], n.v[0]), slice_elems(c, c.args[1], n.v[0])
    r = L(0)
    for x, y in reversed(list(zip(a, b))):
        r = apply(lambda i, j, k: ite(eq(i, j), LV(k), ite(lt(i, j), L(-1), L(1))), x, y, r)
    return r


@model('std::cmp::PartialEq::ne')
def m_ne(c):
    return NotImplemented


# ------------------------------------------------------------------ arrays / conversions
@model('std::array::<impl std::convert::TryFrom<&[T]> for [T; N]>::try_from', 'std::array::<impl std::convert::TryFrom<&\'a [T]> for &\'a [T; N]>::try_from')
def m_try_from_slice(c):
    I, s = c.I, c.s
    p = as_slice(I, s, c.args[0])
    n = slen(I, s, p)
    at = I.ty(c.destty['variants'][0]['fields'][0][1])
    okt = at
    isref = at['k'] == 'ref'
    if isref:
        at = I.ty(at['elem'])
    N = at['len']
    ok = prd(lambda l: eq(l, const(N)), n)
    if isref:
        v = apply(lambda q: leaf(Ptr(q.alloc, q.proj[:-1] + (('sl', q.proj[-1][1], const(N)),))), p)
    else:
        def g(q):
            x = I.read_ptr(Ptr(q.alloc, q.proj[:-1]), s)
            return I.seq_sub(x, q.proj[-1][1], L(N))
        v = I.fold_ptr(p, g)
        if N <= 32:
            v = Seq('const', L(N), [I.seq_get(v, const(i), None) for i in range(N)])
    et = c.destty['variants'][1]['fields'][0][1]
    return result(c.destty, ok, v, VOpq(('TryFromSliceError',), et))


@model('std::array::<impl std::clone::Clone for [T; N]>::clone')
def m_arr_clone(c):
    return clone_of(c, c.s, deref(c, c.args[0]), c.destty)


@model('std::clone::Clone::clone', 'std::option::Option::<&T>::cloned')
def m_clone(c):
    if c.rpath.endswith('cloned'):
        raise Unsupported('cloned')
    return clone_of(c, c.s, deref(c, c.args[0]), c.destty)


for _t in ('u8', 'u16', 'u32', 'u64', 'usize', 'i32', 'i64', 'bool', 'i16', 'i8', 'isize'):
    M['std::clone::impls::<impl std::clone::Clone for %s>::clone' % _t] = lambda c: deref(c, c.args[0])


# AsRef on type parameters: an opaque but stable view
@model('std::convert::AsRef::as_ref', 'std::convert::AsMut::as_mut', 'std::borrow::Borrow::borrow')
def m_asref(c):
    I, s = c.I, c.s
    def f(p):
        v = I.read_ptr(p, s)
        if isinstance(v, (Node, Leaf)):
            # &T: AsRef via reference
            return as_slice(I, s, v) if c.destty['k'] == 'ref' and I.ty(c.destty['elem'])['k'] == 'slice' else v
        if isinstance(v, Seq):
            return as_slice(I, s, leaf(p))
        if not isinstance(v, VOpq):
            raise Unsupported('as_ref of %r' % (v,))
        t = I.ty(c.destty['elem'])
        return I.symref(('asref', v.key), t)
    return apply(f, c.args[0])


@model('std::convert::Into::into', 'std::convert::From::from')
def m_into(c):
    v = c.args[0]
    ki = c.I.vkey(v, c.s.st)
    return c.I.sym(('into', ki), c.destty)


# ------------------------------------------------------------------ io::Error
@model('<std::io::Error as std::convert::From<std::io::ErrorKind>>::from')
def m_ioerr(c):
    k = c.I.expand(c.args[0])
    return VAgg(('ioerror',), [k]) if False else VOpq(('ioerr', c.I.vkey(k, {})), c.destty['id'])


def kind_of(I, key, ty):
    """the kind of an error: the one it was made with; of a failing device it may be any (but reading whole blocks is not interrupted)"""
    if not isinstance(key, tuple) or not key or not isinstance(key[0], str):
        return None
    if key[0] == 'ioerr':
        k = key[1]
        if isinstance(k, tuple) and k and k[0] == 'enum':
            return VEnum(ty['id'], {a[0]: (a[1], []) for a in k[2:]})
        return None
    if key[0] == 'ite':
        a, b = kind_of(I, key[2], ty), kind_of(I, key[3], ty)
        return None if a is None or b is None else I.vite(key[1], a, b)
    if key[0].endswith('_err'):
        vs = [i for i, v in enumerate(ty['variants']) if v['name'] != 'Interrupted' and not v['fields']]
        d = var(('errkind', key), 0, len(vs) - 1)
        return VEnum(ty['id'], {v: (eq(d, const(i)), []) for i, v in enumerate(vs)})
    return None


@model('std::io::Error::kind')
def m_kind(c):
    v = c.args[0]
    for _ in range(3):
        if isinstance(v, (Node, Leaf)):
            v = c.I.deref_read(v, c.s)
    r = kind_of(c.I, v.key, c.destty) if isinstance(v, VOpq) and c.destty['k'] == 'adt' and c.destty['adt'] == 'enum' else None
    return NotImplemented if r is None else r


# panics
for _n in ('core::panicking::panic', 'core::panicking::panic_fmt', 'core::panicking::panic_const', 'std::rt::begin_panic', 'core::option::unwrap_failed', 'std::option::unwrap_failed', 'std::option::expect_failed', 'std::result::unwrap_failed',
           'core::panicking::unreachable_display', 'core::panicking::panic_explicit', 'core::panicking::unreachable_default_msg'):
    def _p(c):
        c.I.panic(c.s, T, 'panic ' + c.rpath, c.t['sp'])
        return UNDEF
    M[_n] = _p
