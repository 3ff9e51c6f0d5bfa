"""Checks of the md (RAID) half: superblocks, roles, formats, arrays, geometry, diagnosis."""
from core import *
from spec import *

CHECKS = {}


def check(pid, floor=1):
    def d(f):
        CHECKS[pid] = (f, floor)
        return f
    return d


V0, V1 = r'SuperblockVersion0$', r'SuperblockVersion1<'
RAID5 = {0: 'LeftAsymmetric', 1: 'RightAsymmetric', 2: 'LeftSymmetric', 3: 'RightSymmetric', 4: 'Parity0', 5: 'ParityN'}
RAID6 = dict(RAID5)
RAID6.update({8: 'Rotating0Restart', 9: 'RotatingNRestart', 10: 'RotatingNContinue', 16: 'LeftAsymmetric6', 17: 'RightAsymmetric6', 18: 'LeftSymmetric6', 19: 'RightSymmetric6', 20: 'Parity06'})

MAGIC = 0xa92b4efc


def read_superblock(c, ver):
    """evaluate <superblock>::read over a medium at position 0; returns run, Ok guard, pointer to the superblock, minor"""
    r = c.run()
    pat = V0 if ver == 0 else V1
    f = c.method(pat, 'read')
    dev = VDev(r.arg_ty(f, 0)['id'], DEV, L(0))
    minor = LV(var(('minor',), 0, 2))
    args = [dev] + ([minor] if f['body']['argc'] == 2 else [])
    v = r.call(f, *args)
    g, fs = r.variant(v, 'Ok')
    return r, g, (r.ref(fs[0]) if fs else None), minor, f


def sb_call(c, r, ver, sb, m):
    f = c.method(V0 if ver == 0 else V1, m, r'Superblock$')
    return r.call(f, sb), f['sp'], f


def words(ver, en):
    """specification of the on-disk fields: name -> graph; offsets from the kernel's md_p.h"""
    if ver == 0:
        w = lambda i, n=4: u(4 * i, n, en)
        return dict(magic=w(0), major=w(1), minor=w(2), level=w(7), size=w(8), nr_disks=w(9), raid_disks=w(10), uuid=[w(5), w(13), w(14), w(15)], events=w(39, 8),
                    reshape_position=w(44, 8), new_level=w(46), delta_disks=w(47), new_layout=w(48), new_chunk=w(49), layout=w(64), chunk_size=w(65), this=w(992),
                    role=[w(128 + 32 * i + 3) for i in range(27)])
    return dict(magic=u(0, 4), major=u(4, 4), feature=u(8, 4), level=u(72, 4), layout=u(76, 4), size=u(80, 8), chunk=u(88, 4), raid_disks=u(92, 4), new_level=u(100, 4),
                reshape_position=u(104, 8), delta_disks=u(112, 4), new_layout=u(116, 4), new_chunk=u(120, 4), new_offset=u(124, 4), data_offset=u(128, 8), dev_number=u(160, 4), events=u(200, 8), max_dev=u(220, 4))


def v0sel(f):
    """value of a v0.90 field: little-endian reading if the little-endian magic matches, else big-endian"""
    le_, be = words(0, 'le'), words(0, 'be')
    return ite(eqc(le_['magic'], MAGIC), f(le_), f(be))


def algorithm_guards(level, layout):
    """{path: guard} of the algorithm for level/layout words"""
    out = {}
    anyg = F
    for lv, nm, tab in ((5, 'Raid5', RAID5), (6, 'Raid6', RAID6)):
        g0 = eqc(level, lv)
        s = F
        for k, n in tab.items():
            g = And(g0, eqc(layout, k))
            out['.%s?%s' % (nm, n)] = g
            s = Or(s, g)
        out['?' + nm] = s
        anyg = Or(anyg, s)
    out['?Unsupported'] = Not(anyg)
    return out


def check_algorithm(c, key, r, v, level, layout, care, where, rule):
    fl = r.flat(v)
    sp = algorithm_guards(level, layout)
    for path, g in sp.items():
        got = F
        for gg, n in fl.get(path, []):
            got = Or(got, And(gg, n))
        c.equal('%s%s' % (key, path), got, g, where, care, rule=rule)
    # nothing else
    names = {p for p in fl if '?' in p}
    for p in sorted(names - set(sp)):
        got = F
        for gg, n in fl[p]:
            got = Or(got, And(gg, n))
        c.equal('%s%s' % (key, p), got, F, where, care, rule=rule)
    for nm, spv in (('level', level), ('layout', layout)):
        for gg, n in fl.get('.Unsupported.' + nm, []):
            c.equal('%s.Unsupported.%s' % (key, nm), n, spv, where, And(care, gg, sp['?Unsupported']), rule=rule)


def option_case(c, key, r, v, some_guard, care, where, rule):
    """obligation on the Some-guard; returns the payload or None"""
    g, fs = r.variant(v, 'Some')
    c.equal(key + '.is_some', g, some_guard, where, care, rule=rule)
    return fs[0] if fs else None


def bytes_equal(c, key, r, v, spec, care, where, rule):
    """obligation: byte sequence v equals the list of byte graphs"""
    v = r.strip(v)
    while isinstance(v, Leaf) and isinstance(v.v, Ptr):
        p = v.v
        ln = r.I.ptr_len(p, r.s) if p.proj and p.proj[-1][0] == 'sl' else None
        v = r.I.read_ptr(p, r.s)
        v = r.strip(v)
        if ln is not None and isinstance(v, Seq):
            break
    if not isinstance(v, Seq):
        c.add(key, 'undecided', where, 'not a byte sequence: %r' % (v,))
        return
    c.equal(key + '.len', v.len, L(len(spec)), where, care, rule=rule)
    for i, s in enumerate(spec):
        c.equal('%s[%d]' % (key, i), r.I.seq_get(v, const(i), None), s, where, care, rule=rule)


# ------------------------------------------------------------------ superblock decoding
def decode_common(c, ver):
    r, ok, sb, minor, f = read_superblock(c, ver)
    if sb is None:
        raise Missing('superblock reader never succeeds')
    rule = 'field = integer at the offset given by md_p.h, in the endianness selected by the magic'
    sel = v0sel if ver == 0 else (lambda fn: fn(words(1, 'le')))
    K = 'v%d.' % ver

    def m(name):
        v, sp, _ = sb_call(c, r, ver, sb, name)
        return v, sp
    return r, ok, sb, minor, f, rule, sel, K, m


def scalar(r, v):
    return r.strip(v)


@check('C03', floor=80)
def v0_decode(c):
    r, ok, sb, minor, f, rule, sel, K, m = decode_common(c, 0)
    care = ok
    for name, spec in (('major_version', lambda w: w['major']), ('minor_version', lambda w: w['minor']), ('raid_device_count', lambda w: w['raid_disks']),
                       ('event_count', lambda w: w['events']), ('device_role_index', lambda w: w['this'])):
        v, sp = m(name)
        c.equal(K + name, scalar(r, v), sel(spec), sp, care, rule=rule)
    v, sp = m('data_offset')
    c.equal(K + 'data_offset', scalar(r, v), L(0), sp, care, rule='v0.90 data starts at sector 0')
    v, sp = m('array_name')
    g, _ = r.variant(v, 'None')
    c.equal(K + 'array_name', g, T, sp, care, rule='v0.90 has no name')
    # units: the kernel stores size in KiB and chunk sizes in bytes
    v, sp = m('sectors_per_device')
    c.equal(K + 'sectors_per_device', scalar(r, v), sel(lambda w: map1(lambda l: scale(l, 2), w['size'])), sp, care, rule='v0.90 device size is in KiB; the result is in 512-byte sectors')
    v, sp = m('chunk_size')
    c.equal(K + 'chunk_size', scalar(r, v), sel(lambda w: map1(lambda l: shr(l, 9), w['chunk_size'])), sp, care, rule='v0.90 chunk size is in bytes; the result is in 512-byte sectors')
    v, sp = m('algorithm')
    check_algorithm(c, K + 'algorithm', r, v, sel(lambda w: w['level']), sel(lambda w: w['layout']), care, sp, rule)
    # uuid
    v, sp = m('array_uuid')
    short, fs = r.variant(v, 'Short')
    lng, fl = r.variant(v, 'Long')
    isshort = sel(lambda w: lec(w['minor'], 89))
    c.equal(K + 'array_uuid.short', short, isshort, sp, care, rule='versions below 0.90 carry a 32-bit uuid')
    c.equal(K + 'array_uuid.long', lng, Not(isshort), sp, care, rule='versions from 0.90 on carry a 128-bit uuid')
    b = lambda x, j: map1(lambda l: trunc(shr(l, 8 * j), 8), x)
    if fs:
        bytes_equal(c, K + 'array_uuid.short', r, fs[0], [b(sel(lambda w: w['uuid'][0]), j) for j in range(4)], And(care, isshort), sp, rule)
    if fl:
        bytes_equal(c, K + 'array_uuid.long', r, fl[0], [b(sel(lambda w, i=i: w['uuid'][i]), j) for i in range(4) for j in range(4)], And(care, Not(isshort)), sp, rule)
    # roles
    v, sp = m('device_roles')
    seq = r.strip(r.get(v))
    n = sel(lambda w: w['nr_disks'])
    c.equal(K + 'device_roles.len', seq.len, apply(lambda l: ite(le(l, const(27)), LV(l), L(27)), n), sp, care, rule='the first nr_disks descriptors (at most 27)')
    for i in range(27):
        c.equal(K + 'device_roles[%d]' % i, r.strip(r.I.seq_get(seq, const(i), None)), sel(lambda w: w['role'][i]), sp, And(care, Not(lec(n, i))), rule=rule)


@check('C04', floor=60)
def v1_decode(c):
    r, ok, sb, minor, f, rule, sel, K, m = decode_common(c, 1)
    care = ok
    for name, spec in (('major_version', lambda w: w['major']), ('sectors_per_device', lambda w: w['size']), ('chunk_size', lambda w: w['chunk']), ('raid_device_count', lambda w: w['raid_disks']),
                       ('event_count', lambda w: w['events']), ('device_role_index', lambda w: w['dev_number']), ('data_offset', lambda w: w['data_offset'])):
        v, sp = m(name)
        c.equal(K + name, scalar(r, v), sel(spec), sp, care, rule=rule)
    v, sp = m('minor_version')
    c.equal(K + 'minor_version', scalar(r, v), minor, sp, care, rule='minor version is that of the probed location')
    v, sp = m('algorithm')
    check_algorithm(c, K + 'algorithm', r, v, sel(lambda w: w['level']), sel(lambda w: w['layout']), care, sp, rule)
    v, sp = m('array_uuid')
    g, fs = r.variant(v, 'Long')
    c.equal(K + 'array_uuid.long', g, T, sp, care, rule=rule)
    if fs:
        bytes_equal(c, K + 'array_uuid', r, fs[0], [u(16 + i, 1) for i in range(16)], care, sp, rule)
    v, sp = m('array_name')
    x = option_case(c, K + 'array_name', r, v, T, care, sp, rule)
    if x is not None:
        bytes_equal(c, K + 'array_name', r, x, [u(32 + i, 1) for i in range(32)], care, sp, rule)
    v, sp = m('device_roles')
    seq = r.strip(r.get(v))
    n = sel(lambda w: w['max_dev'])
    c.equal(K + 'device_roles.len', seq.len, apply(lambda l: ite(le(l, const(1920)), LV(l), L(1920)), n), sp, care, rule='max_dev entries, bounded by the 4096-byte superblock')
    idx = var(('idx',), 0, 1919)
    inside = And(care, apply(lambda l: lt(idx, l), n))
    c.equal(K + 'device_roles[i]', r.strip(r.I.seq_get(seq, idx, None)), LV(load(DISK, add(const(256), scale(idx, 2)), 2, 'le')), sp, inside, rule='role i is the little-endian u16 at 256+2i')


def sb_valid(ver, at, en=None):
    """specification of an acceptable superblock at byte position `at` (a term)"""
    w = lambda off, n=4, e='le': LV(load(DISK, add(at, const(off)), n, e))
    if ver == 1:
        return And(eqc(w(0), MAGIC), eqc(w(4), 1))
    alt = []
    for e in ('le', 'be'):
        g = And(eqc(w(0, 4, e), MAGIC), eqc(w(4, 4, e), 0))
        n = w(36, 4, e)
        for i in range(27):
            role = w(4 * (128 + 32 * i + 3), 4, e)
            bad = And(gec(role, 0xff00), lec(role, 0xfffc))
            g = And(g, Or(lec(n, i), Not(bad)))
        alt.append(g)
    return ite(eqc(w(0), MAGIC), alt[0], alt[1])


def reads(r, kinds=('read',)):
    return [e for e in r.I.events if e.kind in kinds]


@check('C05', floor=5)
def acceptance(c):
    """a superblock is accepted iff magic, major version and (v0) the roles are valid"""
    for ver in (0, 1):
        r, ok, sb, minor, f = read_superblock(c, ver)
        rd = reads(r)
        c.add('v%d.reads' % ver, 'proved' if len(rd) == 1 else 'undecided', f['sp'], 'number of medium reads: %d' % len(rd))
        e = rd[0]
        c.equal('v%d.read.position' % ver, e.data[1], L(0), f['sp'], rule='the superblock is read from the current position')
        c.equal('v%d.read.length' % ver, e.data[2], L(4096), f['sp'], rule='4096 bytes are read')
        c.equal('v%d.accepted' % ver, ok, And(e.data[3], sb_valid(ver, const(0))), f['sp'], rule='accepted iff the read succeeded and magic, major version and roles are valid')
        if sb is not None:
            v, sp, _ = sb_call(c, r, ver, sb, 'valid')
            c.equal('v%d.valid()' % ver, v, T, sp, ok, rule='an accepted superblock reports itself valid')


@check('C06', floor=30)
def reshape(c):
    """reshape information: reported iff recorded, from the documented offsets"""
    for ver in (0, 1):
        r, ok, sb, minor, f, rule, sel, K, m = decode_common(c, ver)
        v, sp = m('reshape_status')
        has = sel(lambda w: gec(w['minor'], 91)) if ver == 0 else bit(u(8, 4), 2)
        x = option_case(c, K + 'reshape', r, v, has, ok, sp, 'present iff the minor version is at least 91' if ver == 0 else 'present iff the reshape feature bit (4) is set')
        if x is None:
            continue
        care = And(ok, has)
        fl = {n: r.field(x, n) for n in ('new_algorithm', 'reshape_position', 'delta_devices', 'new_chunk_size')}
        check_algorithm(c, K + 'new_algorithm', r, fl['new_algorithm'], sel(lambda w: w['new_level']), sel(lambda w: w['new_layout']), care, sp, rule)
        c.equal(K + 'reshape_position', r.strip(fl['reshape_position']), sel(lambda w: w['reshape_position']), sp, care, rule=rule)
        c.equal(K + 'delta_devices', r.strip(fl['delta_devices']), sel(lambda w: w['delta_disks']), sp, care, rule=rule)
        c.equal(K + 'new_chunk_size', r.strip(fl['new_chunk_size']), sel(lambda w: map1(lambda l: shr(l, 9), w['new_chunk']) if ver == 0 else w['new_chunk']), sp, care, rule='in 512-byte sectors')


@check('C02', floor=20)
def probing(c):
    """where superblocks are looked for, in which order, and what the device is reported as"""
    f = c.method(r'MdDevice<D>$', 'from_block_device')
    # 1. the size is block count times block size
    r = c.run()
    cnt, bs = LV(var(('count',), 0, 2**64 - 1)), LV(var(('bsize',), 0, 2**32 - 1))
    r.I.bd_fixed = {'block_size': bs, 'block_count': cnt}
    dev = VDev(r.arg_ty(f, 0)['id'], DEV, L(0))
    v = r.call(f, dev, *[r.sym(('arg', i), f['body']['locals'][i + 1]) for i in range(1, f['body']['argc'])])
    size = mul_(cnt, bs)
    fits = lec(size, 2**64 - 1)
    g, fs = r.variant(v, 'Ok')
    c.equal('size.overflow', And(g, Not(fits)), F, f['sp'], rule='a size that does not fit 64 bits fails the open')
    x = r.field(fs[0], 'superblock')
    x = r.get(x if isinstance(x, (Node, Leaf)) else r.I.as_pointer(x))
    c.equal('size.product', r.variant(x, 'TooSmall')[0], lec(size, 12287), f['sp'], And(g, fits), rule='the size of the device is its block count times its block size')
    r = c.run()
    dev = VDev(r.arg_ty(f, 0)['id'], DEV, L(0))
    v = r.call(f, dev, *[r.sym(('arg', i), f['body']['locals'][i + 1]) for i in range(1, f['body']['argc'])])
    okq = And(bvar(('block_count_ok', DEV)), bvar(('block_size_ok', DEV)))
    c.equal('errors of size queries', And(r.variant(v, 'Ok')[0], Not(okq)), F, f['sp'], rule='a failing size query fails the open')
    # 2. with one-byte blocks the size is the block count
    r = c.run()
    cnt = LV(var(('size',), 0, 2**64 - 1))
    r.I.bd_fixed = {'block_size': L(1), 'block_count': cnt}
    dev = VDev(r.arg_ty(f, 0)['id'], DEV, L(0))
    v = r.call(f, dev, *[r.sym(('arg', i), f['body']['locals'][i + 1]) for i in range(1, f['body']['argc'])])
    probe_spec(c, r, f, v, cnt)


def probe_spec(c, r, f, v, size):
    sp = f['sp']
    s = size.v
    sect = udiv(s, const(512))
    p10 = scale(sub(sub(sect, const(16)), urem(sect, const(8))), 512)
    p90 = sub(sub(s, urem(s, const(65536))), const(65536))
    big = gec(size, 12288)
    big0 = gec(size, 65536)
    slots = [('1.2', 1, 2, const(4096), big), ('1.1', 1, 1, const(0), big), ('1.0', 1, 0, p10, big), ('0.90', 0, None, p90, big0)]
    evs = [e for e in r.I.events if e.kind in ('seek', 'read')]
    seeks = [e for e in evs if e.kind == 'seek']
    rds = [e for e in evs if e.kind == 'read']
    c.add('probe.count', 'proved' if len(seeks) == 4 and len(rds) == 4 else 'undecided', sp, '%d seeks, %d reads' % (len(seeks), len(rds)))
    # the outcome variable of every probe, found by position and order
    allok = T
    hits = []
    prev = big
    for i, (nm, ver, minor, pos, g) in enumerate(slots):
        if i >= len(seeks) or i >= len(rds):
            c.add('probe %s' % nm, 'undecided' if r.I.loop_log else 'violated', sp, 'fewer than %d probes are made' % (i + 1), rule='four locations are probed')
            continue
        sk, rd = seeks[i], rds[i]
        skok, rdok = sk.data[-1], rd.data[3]
        here = And(prev, g)
        c.equal('probe %s.seek' % nm, sk.data[1], LV(pos), sk.sp, And(sk.pc, here, g), rule='superblock %s is at its documented location' % nm)
        c.equal('probe %s.position' % nm, rd.data[1], LV(pos), rd.sp, And(rd.pc, skok, here), rule='superblock %s is read at its documented location' % nm)
        c.equal('probe %s.made' % nm, rd.pc, And(here, skok), rd.sp, nopanic(r), rule='probe %s is made when and only when the previous ones found nothing' % nm)
        hit = And(here, skok, rdok, sb_valid(ver, pos))
        hits.append((nm, ver, minor, pos, hit))
        allok = And(allok, Or(Not(here), skok))
        prev = And(prev, skok, Not(hit)) if i < 3 else prev
    g, fs = r.variant(v, 'Ok')
    c.equal('probe.result', g, allok, sp, nopanic(r), rule='the open fails only when seeking fails')
    md = fs[0]
    x = r.get(r.I.as_pointer(r.field(md, 'superblock')) if not isinstance(r.field(md, 'superblock'), (Node, Leaf)) else r.field(md, 'superblock'))
    anyhit = Or(*[h[4] for h in hits])
    care = And(allok, nopanic(r))
    c.equal('outcome.too_small', r.variant(x, 'TooSmall')[0], Not(big), sp, care, rule='devices below 12288 bytes are too small')
    c.equal('outcome.superblock', r.variant(x, 'Superblock')[0], anyhit, sp, care, rule='a superblock is reported iff one of the probed locations holds a valid one')
    c.equal('outcome.missing', r.variant(x, 'Missing')[0], And(big, Not(anyhit)), sp, care, rule='otherwise none is reported')
    b = r.variant(x, 'Superblock')[1]
    p = b[0]
    if not isinstance(p, (Node, Leaf)):
        p = r.I.as_pointer(p)
    tr = 'md::superblock::superblock::Superblock::'
    for nm in ('major_version', 'minor_version', 'event_count'):
        got = dyn_call(r, tr + nm, p)
        if got is None:
            c.add('outcome.' + nm, 'undecided', sp, 'not resolved')
            continue
        got = r.strip(got)
        for name, ver, minor, pos, hit in hits:
            if nm == 'major_version':
                spec = L(ver)
            elif nm == 'minor_version' and ver == 1:
                spec = L(minor)
            elif nm == 'event_count' and ver == 1:
                spec = LV(load(DISK, add(pos, const(200)), 8, 'le'))
            else:
                w = {'minor_version': 8, 'event_count': 156}[nm]
                n = {'minor_version': 4, 'event_count': 8}[nm]
                le0 = eqc(LV(load(DISK, pos, 4, 'le')), MAGIC)
                spec = ite(le0, LV(load(DISK, add(pos, const(w)), n, 'le')), LV(load(DISK, add(pos, const(w)), n, 'be')))
            c.equal('outcome.%s of %s' % (nm, name), got, spec, sp, And(care, hit), rule='the first valid superblock in probing order 1.2, 1.1, 1.0, 0.90 is the one reported')


def nopanic(r):
    """complement of all panic conditions recorded so far"""
    p = F
    for e in r.I.events:
        if e.kind == 'panic':
            p = Or(p, e.pc)
    return Not(p)


def dyn_call(r, path, ptr):
    """trait call resolved by the values behind ptr"""
    fr = next((f for f in r.I.F if f['path'] == path), None)
    s = r.s
    t = dict(sp='', to=0)
    g = r.I.impls()
    tr, nm = path.rsplit('::', 1)
    tab = g.get((tr, nm)) or {}
    if not tab:
        raise Missing('no implementation of ' + path)
    fid = next(iter(tab.values()))
    ret = r.I.ty(r.I.F[fid]['body']['locals'][0])
    v = r.I.dyn_dispatch(path, [ptr], s, t, ret)
    return v
