"""Optional parts of version 1 superblocks; objects that stand for other objects."""
from checks_dev import *
from checks_md import read_superblock
from checks_arr import SB

V1PARTS = (('bitmap_offset', 0, lambda: u(96, 4), 'the offset of the bitmap is the 32-bit integer at 96 and there is one exactly with feature 1'),
           ('recovery_offset', 1, lambda: u(152, 8), 'the recovery offset is the 64-bit integer at 152 and there is one exactly with feature 2'),
           ('journal_tail', 9, lambda: u(152, 8), 'the tail of the journal is the 64-bit integer at 152 and there is one exactly with feature 512'))


@check('C30', floor=10)
def v1_parts(c):
    for name, b, spec, rule in V1PARTS + (('ppl_info', 10, None, 'the partial parity log is described by the 16-bit integers at 96 and 98 and there is one exactly with feature 1024'),):
        c.section(name, v1_part, c, name, b, spec, rule)


def v1_part(c, name, b, spec, rule):
    r, ok, sb, minor, f = read_superblock(c, 1)
    if sb is None:
        raise Missing('superblock reader never succeeds')
    r.assume(ok)
    g = c.method(V1, name)
    seen = len(r.I.events)
    v = r.call(g, sb)
    has = bit(u(8, 4), b)
    if spec is not None:
        same(c, name, r, v, ('opt', has, spec()), g['sp'], ok, rule)
    else:
        c.equal(name + '?Some', r.variant(v, 'Some')[0], has, g['sp'], ok, rule=rule)
        x = r.variant(v, 'Some')[1]
        if x:
            bytes_equal(c, name, r, x[0], [u(96 + i, 1) for i in range(4)], And(ok, has), g['sp'], rule)
    panics(c, r, name, ok, seen, 'asking for a part of a superblock cannot panic')


# ------------------------------------------------------------------ wrappers
@check('C31', floor=28)
def wrappers(c):
    c.section('boxed superblock', boxed, c)
    c.section('member', member, c)
    c.section('array', array, c)
    c.section('option', option, c)


def alike(c, r, K, v, want, sp, care, rule):
    """obligations: every part of v equals that of the opaque value wanted"""
    a, b = r.flat(v), r.flat(want)
    for k in b:
        if k not in a:
            c.add(K + k, 'undecided', sp, 'no part %s' % k, rule=rule)
            continue
        c.equal(K + k, merged(a[k])[1], merged(b[k])[1], sp, And(care, merged(b[k])[0]), rule=rule)


def boxed(c):
    rule = 'a superblock in a box answers like the superblock'
    names = [f for f in c.fns_where(impl_self=re.compile(r'Box<'), impl_trait=re.compile(r'Superblock$')) if f.get('body')]
    for f in names:
        m = f['name']
        r = c.run()
        own = r.sym(('own', m), f['body']['locals'][0])
        asked = []

        def model(n):
            def g(cc):
                asked.append(n)
                return cc.I.sym(('own', n), cc.destty['id'])
            return g
        r.I.models = dict(r.I.models)
        for g in names:
            r.I.models[SB + g['name']] = model(g['name'])
        v = r.call(f, r.sym(('self',), f['body']['locals'][1]))
        K = 'boxed ' + m
        if asked == [m] and r.I.vkey(v, {}) == r.I.vkey(own, {}):
            c.add(K, 'proved', f['sp'], 'the result is that of the superblock in the box', rule=rule)
        else:
            alike(c, r, K, v, own, f['sp'], T, rule)
        panics(c, r, K, T, 0, rule)


def opaque(r, t, tag, key):
    """a value of struct type t whose type parameter fields are the opaque device `key`"""
    I = r.I
    fs = []
    for x in t['variants'][0]['fields']:
        ft = I.ty(x[1])
        fs.append(VOpq(key, ft['id']) if ft['k'] in ('param', 'opaque') else I.sym((tag, x[0]), ft['id']))
    return VAgg(t['id'], fs)


def known_superblock(c, r):
    """what a superblock answers is an input of its own"""
    r.I.models = dict(r.I.models)
    for f in c.fns_where(impl_self=re.compile(r'Box<'), impl_trait=re.compile(r'Superblock$')):
        def g(cc, n=f['name']):
            return cc.I.sym(('own', n), cc.destty['id'])
        r.I.models[SB + f['name']] = g


def member(c):
    rule = 'a member has the blocks of its device'
    PAT = r'MdDevice<'
    key = ('dev', 0)
    bs, n = LV(var(('bs',), 1, 2**32 - 1)), LV(var(('blocks',), 0, 2**64 - 1))
    for m, want in (('block_size', bs), ('block_count', n)):
        for fixed in (True, False):
            r = c.run()
            known_superblock(c, r)
            if fixed:
                r.I.bd_fixed = dict(block_size=bs, block_count=n)
            f = c.method(PAT, m, BDT)
            p = r.ref(opaque(r, r.I.ty(r.arg_ty(f, 0)['elem']), 'member', key))
            v = r.call(f, p)
            ok, x = r.variant(v, 'Ok')
            c.equal('member %s known' % m, ok, T if fixed else bvar((m + '_ok', key)), f['sp'], rule=rule)
            if x and fixed:
                same(c, 'member ' + m, r, x[0], want, f['sp'], ok, rule)
            panics(c, r, 'member ' + m, T, 0, rule)
    r = c.run()
    known_superblock(c, r)
    f = c.method(PAT, 'read_block', BDT)
    p = r.ref(opaque(r, r.I.ty(r.arg_ty(f, 0)['elem']), 'member', key))
    bn = LV(var(('bn',), 0, 2**64 - 1))
    ln = LV(var(('buflen',), 0, 2**40))
    b = buffer(r, ln, ('buf', 0))
    v = r.call(f, p, wrap(r, f, 1, bn), b)
    ok, x = r.variant(v, 'Ok')
    ev = [e for e in r.I.events if e.kind == 'read_block']
    panics(c, r, 'member read', T, 0, rule)
    if len(ev) != 1:
        c.add('member read', 'undecided', f['sp'], '%d blocks read' % len(ev), rule=rule)
    else:
        e = ev[0]
        c.equal('member read', And(ok, e.pc), And(e.data[3], e.pc), f['sp'], rule=rule)
        c.equal('member read happens', e.pc, T, f['sp'], rule=rule)
        c.equal('member block number', e.data[1], bn, f['sp'], e.pc, rule=rule)
        c.equal('member block length', e.data[2], ln, f['sp'], e.pc, rule=rule)
        i = LV(var(('i',), 0, 2**40))
        el = r.get(leaf(Ptr(b.v.alloc, (('i', i.v),))))
        c.equal('member block', el, map2(lambda k, j: load(('block', key, k), j, 1, 'le'), bn, i), f['sp'], And(ok, e.pc, Not(le_(ln, i))), rule=rule)
    f = c.method(PAT, 'try_clone', BDT)
    duplicate(c, f, 'member', key)


def duplicate(c, f, tag, key):
    """the duplicate of a struct has the same parts, its device duplicated"""
    rule = 'a duplicate has the parts of the original'
    r = c.run()
    t = r.I.ty(r.arg_ty(f, 0)['elem'])
    o = opaque(r, t, tag, key)
    v = r.call(f, r.ref(o))
    ok, x = r.variant(v, 'Ok')
    dup = [e for e in r.I.events if e.kind == 'try_clone']
    c.equal(tag + ' duplicate', ok, And(*[Or(Not(e.pc), e.data[1]) for e in dup]), f['sp'], rule='it can be duplicated unless its device cannot')
    panics(c, r, tag + ' duplicate', T, 0, rule)
    if not x:
        return
    w = r.I.expand(x[0])
    o = r.I.expand(o)
    if not isinstance(w, VAgg) or len(w.f) != len(o.f):
        c.add(tag + ' duplicate parts', 'undecided', f['sp'], 'not a struct', rule=rule)
        return
    for i, fl in enumerate(t['variants'][0]['fields']):
        K = '%s duplicate %s' % (tag, fl[0])
        if r.I.vkey(w.f[i], {}) == r.I.vkey(o.f[i], {}):
            c.add(K, 'proved', f['sp'], 'the part of the original', rule=rule)
            continue
        p, q = w.f[i], o.f[i]
        if all(isinstance(y, Leaf) and isinstance(y.v, Ptr) for y in (p, q)) and r.I.vkey(r.get(p), {}) == r.I.vkey(r.get(q), {}):
            c.add(K, 'proved', f['sp'], 'equals the part of the original', rule=rule)
            continue
        try:
            alike(c, r, K, p, q, f['sp'], ok, rule)
        except SOFT as e:
            c.add(K, 'undecided', f['sp'], str(e)[:100], rule=rule)


def array(c):
    duplicate(c, c.method(r'MdArray<', 'try_clone', BDT), 'array', ('dev', 0))


def option(c):
    rule = 'the superblock of a member is there exactly if one was found'
    f = c.method(r'MdDeviceSuperblock$', 'as_option')
    r = c.run()
    t = r.I.ty(r.arg_ty(f, 0)['elem'])
    for i, v in enumerate(t['variants']):
        r = c.run()
        w = r.call(f, r.ref(VEnum(t['id'], {i: (T, [r.sym(('sb',), x[1]) for x in v['fields']])})))
        c.equal('superblock of a member (%s)' % v['name'], r.variant(w, 'Some')[0], T if v['fields'] else F, f['sp'], rule=rule)
