"""Checks of the ext4 filesystem layer: opening, locating inodes, reading files and directories."""
from checks_ext4 import *

SB_AT = 1024


def le_bytes(x, n):
    return [x >> (8 * i) & 255 for i in range(n)]


def sb_overlay(**kw):
    """fixed superblock fields: {name: value} -> overlay entries"""
    at = dict(blocks=(4, 4), blocks_hi=(0x150, 4), fdb=(0x14, 4), log_bs=(0x18, 4), log_cs=(0x1C, 4), bpg=(0x20, 4), cpg=(0x24, 4), ipg=(0x28, 4), inodes=(0, 4), magic=(0x38, 2), policy=(0x3C, 2), creator=(0x48, 4),
              inode_size=(0x58, 2), incompat=(0x60, 4), ro=(0x64, 4), desc_size=(0xFE, 2), flex=(0x174, 1), csum_type=(0x175, 1))
    return [(SB_AT + at[k][0], le_bytes(v, at[k][1])) for k, v in kw.items()]


def fs_open(c, overlay, io_ok=False):
    """Ext4Fs::open on an arbitrary medium of which some bytes are fixed"""
    r = c.run()
    r.I.io_ok = io_ok
    r.I.overlay = {DEV: overlay}
    f = c.method(r'ext4::fs::Ext4Fs<', 'open')
    v = r.call(f, VDev(r.arg_ty(f, 0)['id'], DEV, LV(var(('pos0',), 0, 2**63 - 1))))
    ok, fs = r.variant(v, 'Ok')
    return r, ok, fs[0] if fs else None, f, v


def fsw(r, overlay):
    """reader of superblock fields of the medium, overlay applied"""
    fixed = {}
    for o, bs in overlay:
        for i, b in enumerate(bs):
            fixed[o + i] = b

    def w(off, n=4):
        v = L(0)
        if any(SB_AT + off + i in fixed for i in range(n)):
            for i in range(n):
                p = SB_AT + off + i
                v = add_(v, scl(L(fixed[p]) if p in fixed else u(p, 1, 'le', DISK), 1 << (8 * i)))
            return v
        return u(SB_AT + off, n, 'le', DISK)
    return w


def only_bits(x, known, n):
    """no bit of the n-bit value x outside known is set"""
    g, i = T, 0
    while i < n:
        j = i
        while j < n and not known >> j & 1:
            j += 1
        if j > i:
            g = And(g, eqc(sl(x, i, j - i), 0))
        i = j + 1
    return g


def sb_accept(w):
    """condition for the superblock itself to be accepted (see C14), without its checksum"""
    big = bit(w(0x64), 9)
    return And(eqc(w(0x38, 2), 0xef53), lec(w(0x18), 52), lec(w(0x1C), 52), gec(w(0x3C, 2), 1), lec(w(0x3C, 2), 3), lec(w(0x174, 1), 62), Or(big, eq_(w(0x18), w(0x1C))), Or(big, eq_(w(0x24), w(0x20))), eqc(w(0x175, 1), 0))


GOOD = dict(magic=0xef53, log_bs=0, log_cs=0, policy=1, csum_type=0, flex=0)
KNOWN_INCOMPAT = 0
for _v in FLAGS[r'superblock::incompatible_features::.*IncompatibleFeatures>'].values():
    KNOWN_INCOMPAT |= _v


def dev_events(r, kind):
    return [e for e in r.I.events if e.kind == kind]


def pow2c(w, field, base, cap=52):
    """2**(base+exponent), by cases where the exponent is not fixed"""
    return pow2(field, base)


def mulg(a, b):
    return map2(lambda x, y: mul(x, y), a, b)


def divg(a, b):
    return map2(lambda x, y: udiv(x, y), a, b)


def remg(a, b):
    return map2(lambda x, y: urem(x, y), a, b)


def open_refused(c):
    """geometry nobody can use is refused before anything depends on it"""
    ov = sb_overlay(bpg=0)
    r, ok, fs, f, v = fs_open(c, ov)
    c.equal('no blocks per group: opened', ok, F, f['sp'], rule='a filesystem without blocks per group is refused')
    panics(c, r, 'no blocks per group', T, 0, 'opening a filesystem cannot panic')


def open_groups(c, blocks, hi, bpg, log_bs):
    groups = -(-(blocks + (hi << 32)) // bpg)
    ov = sb_overlay(blocks=blocks, blocks_hi=hi, bpg=bpg, cpg=bpg, magic=0xef53, policy=1, csum_type=0, flex=0, log_cs=log_bs, log_bs=log_bs)
    r, ok, fs, f, v = fs_open(c, ov)
    w = fsw(r, ov)
    K = '%d blocks of 2^%d, %d per group: ' % (blocks + (hi << 32), 10 + log_bs, bpg)
    sp = f['sp']
    panics(c, r, K, T, 0, 'opening a filesystem cannot panic')
    seeks, rds = dev_events(r, 'seek'), dev_events(r, 'read')
    gs = ite(bit(w(0x60), 7), w(0xFE, 2), L(32))
    base = scl(add_(w(0x14), L(1)), 1 << (10 + log_bs))
    fits = lec(base, 2**64 - 1)
    usable = And(Not(eqc(gs, 0)), Not(eqc(w(0x28), 0)), eqc(w(0x48), 0), bit(w(0x60), 6), only_bits(w(0x60), KNOWN_INCOMPAT, 32))
    if len(seeks) != 2 or len(rds) != 1 + groups:
        c.add(K + 'operations', 'undecided', sp, '%d seeks and %d reads' % (len(seeks), len(rds)))
        return
    c.equal(K + 'superblock position', seeks[0].data[1], L(1024), sp, seeks[0].pc, rule='the superblock is at byte 1024')
    s0, s1 = seeks[0].data[2], seeks[1].data[2]
    c.equal(K + 'superblock position (read)', rds[0].data[1], L(1024), sp, And(rds[0].pc, s0), rule='the superblock is at byte 1024')
    before = And(s0, rds[0].data[3], usable, fits)
    c.equal(K + 'descriptors looked up', seeks[1].pc, before, sp, rule='group descriptors are read exactly when the superblock is acceptable: Linux, extents, no unknown incompatible feature, nonzero geometry')
    c.equal(K + 'descriptor position', seeks[1].data[1], base, sp, And(seeks[1].pc, before), rule='group descriptors start in the block after the first data block')
    pc = And(before, s1)
    good = pc
    for k in range(groups):
        e = rds[1 + k]
        c.equal(K + 'descriptor %d read' % k, e.pc, good, sp, rule='one descriptor is read for every group')
        c.equal(K + 'descriptor %d position' % k, e.data[1], add_(base, scl(gs, k)), sp, And(good, e.pc), rule='group descriptors follow each other, 32 bytes each or as long as a 64-bit filesystem records')
        c.equal(K + 'descriptor %d length' % k, e.data[2], gs, sp, And(good, e.pc), rule='group descriptors are 32 bytes, or as long as a 64-bit filesystem records')
        good = And(good, e.data[3])
    c.equal(K + 'opened', ok, good, sp, rule='a filesystem is opened exactly when its superblock is acceptable and everything could be read')


@check('C20', floor=55)
def opening(c):
    jobs = [('refusal', open_refused)]
    for blocks, hi, bpg, lb in ((0, 0, 1, 0), (1, 0, 8192, 2), (8192, 0, 8192, 0), (8193, 0, 8192, 6), (24575, 0, 8192, 2), (1, 1, 1 << 31, 2), (1, 0, 1, 52)):
        jobs.append(('%d blocks of 2^%d, %d per group' % (blocks + (hi << 32), 10 + lb, bpg), open_groups, blocks, hi, bpg, lb))
    c.parallel(jobs)


# ------------------------------------------------------------------ inodes
FSP = r'ext4::fs::Ext4Fs<'
FILEP = r'ext4::file::Ext4File'


@check('C21', floor=30)
def inode_location(c):
    jobs = []
    for groups, lb, wide, ds, isz in ((1, 2, 1, 64, 256), (2, 0, 0, 0, 128), (3, 2, 1, 64, 160), (2, 6, 1, 44, 128), (2, 2, 1, 32, 256), (0, 2, 1, 64, 256), (2, 50, 1, 64, 128), (1, 0, 0, 64, 1024)):
        jobs.append(('%d groups, blocks of 2^%d, descriptors of %s bytes, inodes of %d' % (groups, 10 + lb, ds if wide else 32, isz), inode_at, groups, lb, wide, ds, isz))
    for before in ('found', 'any outcome'):
        for groups, lb, wide, ds, isz in ((1, 2, 1, 64, 256), (2, 0, 0, 0, 128)):
            jobs.append(('%d groups, after another inode (%s)' % (groups, before), inode_at, groups, lb, wide, ds, isz, before))
    jobs.append(('root', root_inode))
    c.parallel(jobs)


def root_inode(c):
    isz = 256
    r, ok, fs, f, v, ov = inode_fs(c, 2, 2, 1, 64, isz)
    w = fsw(r, ov)
    g = c.method(FSP, 'read_root_inode')
    seen = len(r.I.events)
    v = r.call(g, r.ref(fs))
    sp = g['sp']
    done, res = r.variant(v, 'Ok')
    ev = r.I.events[seen:]
    seeks, rds = [e for e in ev if e.kind == 'seek'], [e for e in ev if e.kind == 'read']
    panics(c, r, 'root', ok, seen, 'locating an inode cannot panic')
    if len(seeks) != 1 or len(rds) != 1:
        c.add('root operations', 'undecided', sp, '%d seeks and %d reads' % (len(seeks), len(rds)))
        return
    ipg = w(0x28)
    gi = divg(L(1), ipg)
    here = And(ok, gec(w(0), 2), lec(gi, 1))
    tbl = []
    for k in range(2):
        at = add_(scl(add_(w(0x14), L(1)), 1 << 12), L(64 * k))
        rd = lambda o: map1(lambda l: load(DISK, add(l, const(o)), 4, 'le'), at)
        tbl.append(cat(rd(8), rd(0x28), 32))
    off = add_(scl(ite(eqc(gi, 0), tbl[0], tbl[1]), 1 << 12), scl(remg(L(1), ipg), isz))
    fits = lec(off, 2**64 - 1)
    rule = 'the root directory is inode 2'
    c.equal('root exists', And(seeks[0].pc, Not(gec(w(0), 2))), F, sp, ok, rule=rule)
    c.equal('root looked up', seeks[0].pc, T, sp, And(here, fits), rule=rule)
    c.equal('root position', seeks[0].data[1], off, sp, And(here, fits, seeks[0].pc), rule=rule)
    c.equal('root length', rds[0].data[2], L(isz), sp, And(here, fits, rds[0].pc), rule=rule)
    c.equal('root found', done, And(seeks[0].data[2], rds[0].data[3], *[e.data[-1] for e in ev if e.kind == 'try_clone']), sp, And(here, fits, done), rule=rule)


def inode_fs(c, groups, log_bs, wide, ds, isz, **more):
    ov = sb_overlay(blocks=groups * 8, blocks_hi=0, bpg=8, cpg=8, magic=0xef53, policy=1, csum_type=0, flex=0, log_cs=log_bs, log_bs=log_bs, creator=0, ro=0, incompat=0x40 | wide << 7, desc_size=ds, inode_size=isz, **more)
    return fs_open(c, ov, True) + (ov,)


def inode_at(c, groups, log_bs, wide, ds, isz, before=None):
    r, ok, fs, f, v, ov = inode_fs(c, groups, log_bs, wide, ds, isz)
    w = fsw(r, ov)
    K = '%d groups, blocks of 2^%d, descriptors of %s bytes, inodes of %d: ' % (groups, 10 + log_bs, ds if wide else 32, isz)
    if fs is None:
        c.add(K + 'open', 'undecided', f['sp'], 'never opened')
        return
    ref = r.ref(fs)
    g = c.method(FSP, 'open_file')
    seen = len(r.I.events)
    from checks_geo import refill_newtype
    arg = r.sym(('inoarg',), g['body']['locals'][2])
    none = r.variant(r.call(g, ref, refill_newtype(r, arg, L(0))), 'Ok')[0]
    c.equal(K + 'inode 0', none, F, g['sp'], ok, rule='there is no inode 0')
    seen = panics(c, r, K + 'inode 0', ok, seen, 'locating an inode cannot panic')
    if before:
        # another inode, with whatever outcome
        K += 'after another inode: '
        r.I.io_ok = before == 'found'
        first = r.call(g, ref, refill_newtype(r, arg, LV(var(('ino0',), 1, 2**32 - 1))))
        r.I.io_ok = False
        if before == 'found':
            ok = And(ok, r.variant(first, 'Ok')[0])
            r.assume(ok)
        seen = len(r.I.events)
    ino = LV(var(('ino',), 1, 2**32 - 1))
    a = refill_newtype(r, arg, ino)
    r.I.io_ok = False
    v = r.call(g, ref, a)
    sp = g['sp']
    done, res = r.variant(v, 'Ok')
    ev = r.I.events[seen:]
    seeks, rds = [e for e in ev if e.kind == 'seek'], [e for e in ev if e.kind == 'read']
    panics(c, r, K + 'open_file', ok, seen, 'locating an inode cannot panic')
    ipg = w(0x28)
    n1 = sub_(ino, L(1))
    known = And(ok, gec(ino, 1), le_(ino, w(0)))
    gi = divg(n1, ipg)
    exists = lec(gi, groups - 1) if groups else F
    exists = And(known, exists)
    care = ok
    if not groups:
        c.equal(K + 'opened', done, F, sp, care, rule='inodes of missing groups are refused')
        c.add(K + 'reads', 'proved' if not rds else 'undecided', sp)
        return
    if not before and (len(seeks) != 1 or len(rds) != 1):
        c.add(K + 'operations', 'undecided', sp, '%d seeks and %d reads' % (len(seeks), len(rds)))
        return
    gs = ds if wide else 32
    base = scl(add_(w(0x14), L(1)), 1 << (10 + log_bs))
    tbls = []
    for k in range(groups):
        at = add_(base, L(gs * k))

        def rd(off, n=4, at=at):
            n = max(0, min(n, gs - off))
            return map1(lambda l: load(DISK, add(l, const(off)), n, 'le'), at) if n else L(0)
        t = cat(rd(8), rd(0x28), 32)
        tbls.append(t)
    tbl = tbls[-1]
    for k in reversed(range(groups - 1)):
        tbl = ite(eqc(gi, k), tbls[k], tbl)
    off = add_(scl(tbl, 1 << (10 + log_bs)), scl(remg(n1, ipg), isz))
    fits = lec(off, 2**64 - 1)
    want = And(exists, fits)
    rule = 'inode n is entry (n-1) mod inodes per group of the table of group (n-1) div inodes per group'
    clone = And(*[e.data[-1] for e in ev if e.kind == 'try_clone'])
    if before:
        # what was found before need not be read again: what is opened is compared
        got, x = r.variant(res[0], 'RegularFile')
        well = And(care, done, got, clone, *[Or(Not(e.pc), e.data[2] if e.kind == 'seek' else e.data[3]) for e in seeks + rds])
        c.equal(K + 'opened', And(done, Not(want)), F, sp, And(care, clone), rule='inode 0 and inodes beyond the number of inodes or groups are refused')
        if x is None:
            raise Unsupported('no regular file')
        fsz = c.method(r'ext4::regular_file::Ext4RegularFile', 'file_size_bytes')
        r.assume(And(well, want))
        at = lambda o: map1(lambda l: load(DISK, add(l, const(o)), 4, 'le'), off)
        c.equal(K + 'size of the file', r.call(fsz, r.ref(x[0])), cat(at(4), at(108), 32), sp, And(well, want), rule=rule)
        return
    c.equal(K + 'looked up', seeks[0].pc, want, sp, And(care, clone), rule='inodes are looked up exactly if they exist and lie within 64 bits')
    c.equal(K + 'looked up only if it exists', And(seeks[0].pc, Not(known)), F, sp, care, rule='inode 0 and inodes beyond the number of inodes are refused')
    c.equal(K + 'looked up only in an existing group', And(seeks[0].pc, known, Not(exists)), F, sp, care, rule='inodes of missing groups are refused')
    c.equal(K + 'position', seeks[0].data[1], off, sp, And(care, seeks[0].pc, want), rule=rule)
    c.equal(K + 'position (read)', rds[0].data[1], off, sp, And(care, rds[0].pc, want), rule=rule)
    c.equal(K + 'length', rds[0].data[2], L(isz), sp, And(care, rds[0].pc, want), rule='an inode has the recorded size')


# ------------------------------------------------------------------ reading files
# one group, blocks of 1024 bytes, first data block 1: descriptors at 2048, inode table in block 5, inodes of 256 bytes
GEO = dict(blocks=64, blocks_hi=0, bpg=64, cpg=64, magic=0xef53, policy=1, csum_type=0, flex=0, log_cs=0, log_bs=0, creator=0, desc_size=64, inode_size=256, fdb=1, ipg=32, inodes=32)
BS = 1024
FAR = 64            # blocks from here on have no fixed bytes
INO = 7
INODE_AT = 5 * BS + (INO - 1) * 256
EXT_FLAG, INLINE_FLAG, INDEX_FLAG = 0x80000, 0x10000000, 0x1000


def tree_bytes(node, mx):
    """bytes of an extent tree node; None entries stay arbitrary. node: (depth, [entries]); entry: (first block or None, length or None, physical or None) / (first block or None, block)"""
    depth, ents = node
    out = [(0, le_bytes(0xf30a, 2)), (2, le_bytes(len(ents), 2)), (4, le_bytes(mx, 2)), (6, le_bytes(depth, 2))]
    for i, e in enumerate(ents):
        o = 12 + 12 * i
        if e[0] is not None:
            out.append((o, le_bytes(e[0], 4)))
        if depth == 0:
            if e[1] is not None:
                out.append((o + 4, le_bytes(e[1], 2)))
            if e[2] is not None:
                out += [(o + 6, le_bytes(e[2] >> 32, 2)), (o + 8, le_bytes(e[2] & 0xffffffff, 4))]
        elif e[1] is not None:
            out += [(o + 4, le_bytes(e[1] & 0xffffffff, 4)), (o + 8, le_bytes(e[1] >> 32, 2))]
    return out


def open_inode(c, extra, mode=None, flags=None, ro=0, incompat=0xC0):
    """opens inode INO of a filesystem with fixed geometry; returns run, graph of the result, guard under which it is looked at"""
    ov = sb_overlay(ro=ro, incompat=incompat, **GEO) + [(2048 + 8, le_bytes(5, 4)), (2048 + 0x28, le_bytes(0, 4))]
    if mode is not None:
        ov.append((INODE_AT, le_bytes(mode, 2)))
    if flags is not None:
        ov.append((INODE_AT + 32, le_bytes(flags, 4)))
    ov += extra
    r, ok, fs, f, v = fs_open(c, ov, True)
    if fs is None:
        raise Unsupported('never opened')
    g = c.method(FSP, 'open_file')
    from checks_geo import refill_newtype
    a = refill_newtype(r, r.sym(('inoarg',), g['body']['locals'][2]), L(INO))
    seen = len(r.I.events)
    v = r.call(g, r.ref(fs), a)
    return r, ok, v, g, seen, ov


def dw(off, n, ov=()):
    return u(INODE_AT + off, n, 'le', DISK)


@check('C23', floor=20)
def dispatch(c):
    c.parallel([('any inode', open_any)] + [('mode %#x' % m, open_type, m) for m in (0x81a4, 0x8000, 0x41ed, 0x4000, 0xc000, 0xa1ff, 0x6000, 0x2000, 0x1000, 0x3000)])


def root_ok():
    return And(bit(dw(32, 4), 19), Not(bit(dw(32, 4), 28)), eqc(dw(40, 2), 0xf30a), le_(dw(42, 2), dw(44, 2)), lec(dw(44, 2), 4))


def dup_ok(r, seen):
    return And(*[e.data[-1] for e in r.I.events[seen:] if e.kind in ('try_clone', 'seek')])


def open_any(c):
    r, ok, v, g, seen, ov = open_inode(c, [])
    done, res = r.variant(v, 'Ok')
    sp = g['sp']
    panics(c, r, 'open_file', ok, seen, 'opening a file cannot panic')
    if not res:
        c.add('open_file succeeds', 'undecided', sp, 'never')
        return
    ft = sl(dw(0, 2), 12)
    care = And(ok, dup_ok(r, seen))
    root = root_ok()
    for nm, cond in (('RegularFile', And(eqc(ft, 8), root)), ('Directory', And(eqc(ft, 4), root, Not(bit(dw(32, 4), 12)))), ('Unsupported', Not(Or(eqc(ft, 4), eqc(ft, 8))))):
        got, fs = r.variant(res[0], nm)
        c.equal('opened as ' + nm, And(done, got), cond, sp, care, rule='regular files and directories are opened iff their extent tree can be used, directories only without hash index; other types are reported as unsupported')
        if nm == 'Unsupported' and fs:
            same(c, 'type of an unsupported file', r, fs[0], enum_table(ft, FILE_TYPES), sp, And(care, done, got, cond, Or(*[eqc(ft, k) for k in FILE_TYPES])), 'the type reported is that of the mode of the inode')


def open_type(c, mode):
    r, ok, v, g, seen, ov = open_inode(c, [], mode=mode)
    done, res = r.variant(v, 'Ok')
    sp = g['sp']
    K = 'mode %#x: ' % mode
    panics(c, r, K + 'open_file', ok, seen, 'opening a file cannot panic')
    care = And(ok, dup_ok(r, seen))
    t = mode >> 12
    want = And(root_ok(), Not(bit(dw(32, 4), 12)) if t == 4 else T) if t in (4, 8) else T
    c.equal(K + 'opened', done, want, sp, care, rule='regular files and directories are opened iff their extent tree can be used, directories only without hash index; other types are reported as unsupported')
    if t == 8 and res:
        got, fs = r.variant(res[0], 'RegularFile')
        h = c.method(r'ext4::regular_file::Ext4RegularFile', 'file_size_bytes')
        c.equal(K + 'size', r.call(h, r.ref(fs[0])), cat(dw(4, 4), dw(108, 4), 32), h['sp'], And(care, done, got), rule='the size of a regular file combines both halves')


# contents: extent trees of fixed shape, everything else arbitrary
class Shape:
    def __init__(self, root, blocks=None, fault=None, sizes=(1024, 4096), dirty=None):
        self.root, self.blocks, self.fault = root, blocks or {}, fault


def shapes():
    x = None
    leaf = lambda *es: (0, list(es))
    yield 'no extents', leaf(), {}
    yield 'one block', leaf((x, 1, x)), {}
    yield 'two blocks', leaf((x, 2, x)), {}
    yield 'two extents', leaf((x, 1, x), (x, 1, x)), {}
    yield 'extents of two and one blocks', leaf((x, 2, x), (x, 1, x)), {}
    yield 'four extents', leaf((x, 1, x), (x, 1, x), (x, 1, x), (x, 1, x)), {}
    yield 'one unwritten block', leaf((x, 0x8001, x)), {}
    yield 'written, unwritten, written', leaf((x, 1, x), (x, 0x8002, x), (x, 1, x)), {}
    yield 'empty extent first', leaf((x, 0, x), (x, 1, x)), {}
    yield 'one subtree', (1, [(x, 20)]), {20: leaf((x, 1, x))}
    yield 'two subtrees', (1, [(x, 20), (x, 21)]), {20: leaf((x, 1, x), (x, 1, x)), 21: leaf((x, 0x8001, x), (x, 1, x))}
    yield 'empty subtree first', (1, [(x, 20), (x, 21)]), {20: leaf(), 21: leaf((x, 1, x))}
    yield 'two levels', (2, [(x, 20), (x, 23)]), {20: (1, [(x, 21), (x, 22)]), 21: leaf((x, 1, x)), 22: leaf((x, 1, x)), 23: (1, [(x, 24)]), 24: leaf((x, 2, x))}
    yield 'five extents in a block', (1, [(x, 20)]), {20: leaf((x, 1, x), (x, 3, x), (x, 0x8002, x), (x, 1, x), (x, 1, x))}
    yield 'subtree not below its parent', (2, [(x, 20)]), {20: leaf((x, 1, x))}
    yield 'subtree as deep as its parent', (1, [(x, 20)]), {20: (1, [(x, 21)]), 21: leaf((x, 1, x))}
    yield 'subtree missing its magic number', (1, [(x, 20)]), {20: ('bad', leaf((x, 1, x)))}


def shape_overlay(root, blocks):
    ov = [(INODE_AT + 40 + o, b) for o, b in tree_bytes(root, 4)]
    for at, node in blocks.items():
        bad = node[0] == 'bad'
        ov += [(at * BS + o, b) for o, b in tree_bytes(node[1] if bad else node, 84) if not (bad and o == 0)]
    return ov


def walk(root, blocks, pos0=0):
    """steps of reading a file: ('data', guard, initialised, physical block, file block), preceded by the subtrees read; the last is ('end', ...)"""
    steps = []
    st = dict(pos=0)

    def first(base, i, want):
        return eqc(u(base + 12 + 12 * i, 4, 'le', DISK), want)

    def node(n, base, pre):
        depth, ents = n
        g = pre
        for i, e in enumerate(ents):
            g = g + [('guard', first(base, i, st['pos']))]
            if depth == 0:
                ln = e[1] & 0x7fff if e[1] > 0x8000 else e[1]
                o = base + 12 + 12 * i
                phys = cat(u(o + 8, 4, 'le', DISK), u(o + 6, 2, 'le', DISK), 32)
                for j in range(ln):
                    steps.append((g, 'data', e[1] <= 0x8000, add_(phys, L(j)), st['pos']))
                    g = []
                    st['pos'] += 1
            else:
                g = g + [('block', e[1])]
                sub = blocks[e[1]]
                if sub[0] == 'bad':
                    g = g + [('guard', eqc(u(e[1] * BS, 2, 'le', DISK), 0xf30a))]
                    sub = sub[1]
                if sub[0] != depth - 1:
                    steps.append((g, 'error', None, None, None))
                    return None
                g = node(sub, e[1] * BS, g)
                if g is None:
                    return None
        return g
    g = node(root, INODE_AT + 40, [])
    if g is not None:
        steps.append((g, 'end', None, None, None))
    return steps


@check('C22', floor=380)
def contents(c):
    c.parallel([(nm, read_file, nm, root, blocks, buf) for nm, root, blocks in shapes() for buf in ((BS,) if 'two' not in nm else (BS, BS + 500))] + [('short buffer', short_buffer), ('subtree with checksum', checked_subtree, False), ('leaf with checksum', checked_subtree, True)]
               + [('%s, read %d fails' % (nm, k), after_failure, nm, root, blocks, k) for nm, root, blocks in shapes() if nm in FAILING for k in range(FAILING[nm])])


FAILING = {'two blocks': 2, 'extents of two and one blocks': 3, 'written, unwritten, written': 4, 'two subtrees': 4, 'two levels': 4}


def opened_regular(c, extra, ro=0):
    r, ok, v, g, seen, ov = open_inode(c, extra, mode=0x81a4, flags=EXT_FLAG, ro=ro)
    done, res = r.variant(v, 'Ok')
    if not res:
        raise Unsupported('never opened')
    got, fs = r.variant(res[0], 'RegularFile')
    r.I.io_ok = False
    r.I.try_unroll = 24
    r.I.overlay_far = True
    return r, And(ok, done, got, dup_ok(r, seen)), r.ref(fs[0]), c.method(r'ext4::regular_file::Ext4RegularFile', 'read_next_block')


def buffer(r, n, key):
    p = r.ref(Seq('abs', n if not isinstance(n, int) else L(n), key, 'u8'))
    ln = n.v if not isinstance(n, int) else const(n)
    return leaf(Ptr(p.v.alloc, (('sl', const(0), ln),)))


def short_buffer(c):
    r, care, file, g = opened_regular(c, shape_overlay((0, [(None, 2, None)]), {}))
    seen = len(r.I.events)
    n = LV(var(('buflen',), 0, BS - 1))
    v = r.call(g, file, buffer(r, n, ('buf', 0)))
    done, _ = r.variant(v, 'Ok')
    c.equal('buffer shorter than a block', done, F, g['sp'], care, rule='a buffer must hold a block')
    panics(c, r, 'buffer shorter than a block', care, seen, 'reading a file cannot panic')


def all_ok(ops):
    return And(*[e.data[2] if e.kind == 'seek' else e.data[3] for e in ops])


def read_file(c, nm, root, blocks, bufsize):
    r, care, file, g = opened_regular(c, shape_overlay(root, blocks))
    sp = g['sp']
    size = cat(dw(4, 4), dw(108, 4), 32)
    total = 0
    for k, (pre, kind, init, phys, fpos) in enumerate(walk(root, blocks)):
        K = '%s, buffer of %d, read %d: ' % (nm, bufsize, k)
        r.assume(care)
        seen = len(r.I.events)
        b = buffer(r, bufsize, ('buf', k))
        v = r.call(g, file, b)
        done, res = r.variant(v, 'Ok')
        ev = [e for e in r.I.events[seen:]]
        panics(c, r, K, care, seen, 'reading a file cannot panic')
        ops = [e for e in ev if e.kind in ('seek', 'read') and And(e.pc, care) is not F]
        want = [('block', x) for kk, x in pre if kk == 'block']
        if kind == 'data' and init:
            want.append(('data', phys))
        odd = [e.kind for e in ops] != ['seek', 'read'] * len(want)
        if odd:
            # other operations than expected: what they achieve is compared where all of them succeed
            c.add(K + 'operations', 'undecided', sp, 'operations %s' % [e.kind for e in ops])
            care = And(care, all_ok(ops))
        now, i = care, 0
        for kk, x in pre + ([('data', phys)] if kind == 'data' else []):
            if kk == 'guard':
                now = And(now, x)
                continue
            if kk == 'data':
                now = And(now, gec(size, total * BS + 1))
                if not init:
                    continue
            if odd:
                continue
            se, rd = ops[2 * i], ops[2 * i + 1]
            i += 1
            at = scl(L(x) if kk == 'block' else x, BS)
            what = 'extent block' if kk == 'block' else 'data block'
            rule = 'extents and subtrees are visited in order, each starting at the block of the file where the previous ended; nothing is read past the size of the file'
            c.equal(K + what + ' visited', se.pc, now, sp, care, rule=rule)
            c.equal(K + what + ' position', se.data[1], at, sp, And(now, se.pc), rule='block n of the filesystem is at n times its block size')
            now = And(now, se.data[2])
            c.equal(K + what + ' read', rd.pc, now, sp, care, rule=rule)
            c.equal(K + what + ' read position', rd.data[1], at, sp, And(now, rd.pc), rule='block n of the filesystem is at n times its block size')
            c.equal(K + what + ' length', rd.data[2], L(BS), sp, And(now, rd.pc), rule='whole blocks are read')
            now = And(now, rd.data[3])
        if kind == 'error':
            c.equal(K + 'result', done, F, sp, care, rule='a subtree must be one level below its parent')
            return
        if kind == 'end':
            c.equal(K + 'end of file', done, And(now, le_(size, L(total * BS))), sp, care, rule='the end is reported exactly when the extents ended where the size of the file says')
            care = And(care, done, now)
            if care is not F and res:
                c.equal(K + 'nothing read', res[0], L(0), sp, care, rule='the end of a file is reported as 0 bytes')
            return
        c.equal(K + 'result', done, now, sp, care, rule='a block is returned exactly when it belongs to the file and everything needed could be read and is valid')
        care = And(care, done, now)
        left = sub_(size, L(total * BS))
        if not res:
            return
        c.equal(K + 'bytes', res[0], ite(lec(left, BS), left, L(BS)), sp, care, rule='each read returns the rest of the file, at most a block')
        total += 1
        i = var(('i',), 0, BS - 1)
        el = r.get(leaf(Ptr(b.v.alloc, (('i', i),))))
        c.equal(K + 'data', el, map1(lambda l: load(DISK, add(scale(l, BS), i), 1, 'le'), phys) if init else L(0), sp, And(care, gec(phys, FAR)), rule='the data is that of the block the extent maps, zeros if the extent is not written')
        if bufsize > BS:
            i = var(('i2',), BS, bufsize - 1)
            el = r.get(leaf(Ptr(b.v.alloc, (('i', i),))))
            c.equal(K + 'rest of the buffer', el, LV(load(('buf', k), i, 1, 'le')), sp, care, rule='the buffer beyond the block is left alone')


def after_failure(c, nm, root, blocks, fail):
    """what is read after the device failed: the same block again, or errors"""
    r, care, file, g = opened_regular(c, shape_overlay(root, blocks))
    sp = g['sp']
    size = cat(dw(4, 4), dw(108, 4), 32)
    steps = walk(root, blocks)
    datas = [s for s in steps if s[1] == 'data']
    care = And(care, *[x for s in steps for kk, x in s[0] if kk == 'guard'])
    for k in range(fail):
        r.assume(care)
        done, res = r.variant(r.call(g, file, buffer(r, BS, ('buf', k))), 'Ok')
        care = And(care, done, gec(size, (k + 1) * BS))
    r.assume(care)
    seen = len(r.I.events)
    done, res = r.variant(r.call(g, file, buffer(r, BS, ('buf', fail))), 'Ok')
    ops = [e for e in r.I.events[seen:] if e.kind in ('seek', 'read') and And(e.pc, care) is not F]
    failed = Or(*[And(e.pc, Not(e.data[2] if e.kind == 'seek' else e.data[3])) for e in ops])
    care = And(care, Not(done), failed)
    pos = fail
    for again in range(2):
        if care is F:
            return
        r.assume(care)
        K = '%s, %s read after a failure at block %d: ' % (nm, ('first', 'second')[again], fail)
        seen = len(r.I.events)
        b = buffer(r, BS, ('after', again))
        done, res = r.variant(r.call(g, file, b), 'Ok')
        panics(c, r, K, care, seen, 'reading a file cannot panic')
        if not res or And(care, done) is F:
            c.equal(K + 'fails', And(care, done), F, sp, rule='after a failure reading goes on where it failed, or fails')
            continue
        n = res[0]
        good = And(care, done)
        c.equal(K + 'end', And(eq_(n, L(0)), gec(size, pos * BS + 1)), F, sp, good, rule='the end of a file is not reported before its last byte was read')
        left = sub_(size, L(pos * BS))
        if pos >= len(datas):
            c.equal(K + 'nothing left', n, L(0), sp, good, rule='nothing is read past the end of a file')
            return
        c.equal(K + 'bytes', n, ite(lec(left, BS), left, L(BS)), sp, And(good, gec(n, 1)), rule='after a failure reading goes on where it failed, or fails')
        i = var(('i',), 0, BS - 1)
        el = r.get(leaf(Ptr(b.v.alloc, (('i', i),))))
        _, _, init, phys, _ = datas[pos]
        c.equal(K + 'data', el, map1(lambda l: load(DISK, add(scale(l, BS), i), 1, 'le'), phys) if init else L(0), sp, And(good, gec(n, 1), gec(phys, FAR)), rule='after a failure reading goes on where it failed, or fails')
        if again == 0:
            # read on only where this read failed too
            care = And(care, Not(done))


def checked_subtree(c, deep):
    """with metadata checksums, nothing is read through a subtree whose checksum does not match"""
    leaf = (0, [(None, 1, None)])
    root, blocks = ((2, [(None, 20)]), {20: (1, [(None, 21)]), 21: leaf}) if deep else ((1, [(None, 20)]), {20: leaf})
    r, care, file, g = opened_regular(c, shape_overlay(root, blocks), 0x400)
    size = cat(dw(4, 4), dw(108, 4), 32)
    seen = len(r.I.events)
    v = r.call(g, file, buffer(r, BS, ('buf', 0)))
    done, res = r.variant(v, 'Ok')
    K = 'checksummed tree of depth %d: ' % root[0]
    rule = 'nothing is read through an extent block whose checksum does not match'
    panics(c, r, K, care, seen, 'reading a file cannot panic')
    ops = [e for e in r.I.events[seen:] if e.kind in ('seek', 'read') and And(e.pc, care) is not F]
    if [e.kind for e in ops] != ['seek', 'read'] * (len(blocks) + 1):
        c.add(K + 'operations', 'undecided', g['sp'], 'operations %s' % [e.kind for e in ops])
        return
    for k, at in enumerate(sorted(blocks)):
        # the operation after the k-th extent block
        nxt = ops[2 * k + 2]
        pc = And(care, ops[2 * k + 1].pc, ops[2 * k + 1].data[3])
        first = eqc(u(at * BS + 12, 4, 'le', DISK), 0)
        if blocks[at][0] == 0:
            first = And(first, gec(size, 1))
        checksum_decides(c, K + 'block %d' % at, nxt.pc, LV(load(DISK, const(at * BS + 1020), 4, 'le')), And(pc, first), g['sp'], rule)


# ------------------------------------------------------------------ reading directories
def dir_shapes():
    yield 'no blocks', (0, []), {}, {}
    yield 'one block, one entry', (0, [(None, 1, 30)]), {}, {30: [1024]}
    yield 'one block, three entries', (0, [(None, 1, 30)]), {}, {30: [12, 24, 988]}
    yield 'two blocks', (0, [(None, 2, 30)]), {}, {30: [12, 1012], 31: [1024]}
    yield 'two extents', (0, [(None, 1, 33), (None, 1, 30)]), {}, {33: [500, 524], 30: [1012, 12]}
    yield 'block without entries between', (0, [(None, 3, 30)]), {}, {30: [1024], 31: [], 32: [12, 1012]}
    yield 'entries that end early', (0, [(None, 2, 30)]), {}, {30: [12, 'end'], 31: [24, 1000]}
    yield 'subtree', (1, [(None, 20)]), {20: (0, [(None, 1, 30), (None, 1, 35)])}, {30: [1024], 35: [24, 1000]}


@check('C32', floor=300)
def listing(c):
    c.parallel([(nm, read_dir, nm, root, blocks, ents) for nm, root, blocks, ents in dir_shapes()])


def dir_overlay(ents):
    ov = []
    for b, lens in ents.items():
        o = b * BS
        for ln in lens + ([] if lens else ['end']):
            if ln == 'end':
                ov.append((o + 4, le_bytes(0, 2)))     # an entry that cannot hold its own header
                break
            ov.append((o + 4, le_bytes(ln, 2) + [3]))
            o += ln
    return ov


def read_dir(c, nm, root, blocks, ents):
    r, ok, v, g, seen, ov = open_inode(c, shape_overlay(root, blocks) + dir_overlay(ents), mode=0x41ed, flags=EXT_FLAG)
    done, res = r.variant(v, 'Ok')
    got, fs = r.variant(res[0], 'Directory')
    r.I.io_ok = False
    r.I.try_unroll = 24
    care = And(ok, done, got, dup_ok(r, seen))
    d = r.ref(fs[0])
    g = c.method(r'ext4::directory::directory::Ext4Directory', 'read_next_entry')
    a = {k: generic(c, k, DIRE) for k in ('inode', 'file_type', 'name')}
    sp = g['sp']
    size = cat(dw(4, 4), dw(108, 4), 32)
    # steps: (operations, conditions, entry or None)
    todo, ops, conds, total = [], [], [], 0
    for pre, kind, init, phys, fpos in walk(root, blocks):
        for kk, x in pre:
            ops.append((kk, x))
        if kind != 'data':
            ops.append(('guard', eq_(size, L(total * BS))))
            todo.append((ops, None))
            break
        ops.append(('data', None))
        todo_block = total
        total += 1
        todo.append((ops, ('block', todo_block)))
        ops = []
    # physical blocks in file order
    order = []

    def flatten(n):
        for e in n[1]:
            if n[0] == 0:
                order.extend(range(e[2], e[2] + (e[1] & 0x7fff)))
            else:
                flatten(blocks[e[1]])
    flatten(root)
    calls, ops = [], []
    for o, what in todo:
        ops = ops + [(kk, x) if kk != 'data' else ('data', order[what[1]]) for kk, x in o]
        if what is None:
            calls.append((ops, None))
            break
        ops.append(('guard', gec(size, (what[1] + 1) * BS)))
        at = order[what[1]] * BS
        for ln in ents[order[what[1]]]:
            if ln == 'end':
                break
            calls.append((ops, at))
            ops = []
            at += ln
    for k, (ops, at) in enumerate(calls):
        K = '%s, entry %d: ' % (nm, k)
        r.assume(care)
        r.I.try_unroll = 24
        seen = len(r.I.events)
        v = r.call(g, d)
        done, res = r.variant(v, 'Ok')
        panics(c, r, K, care, seen, 'reading a directory cannot panic')
        rd = [e for e in r.I.events[seen:] if e.kind in ('seek', 'read') and And(e.pc, care) is not F]
        want = [x for kk, x in ops if kk != 'guard']
        odd = [e.kind for e in rd] != ['seek', 'read'] * len(want)
        if odd:
            c.add(K + 'operations', 'undecided', sp, 'operations %s' % [e.kind for e in rd])
            care = And(care, all_ok(rd))
        now, i = care, 0
        rule = 'the blocks of a directory are read in order, each once the entries of the one before it are exhausted'
        for kk, x in ops:
            if kk == 'guard':
                now = And(now, x)
                continue
            if kk == 'data':
                # the condition on the size of the file that belongs to this block: its first byte exists
                n = order.index(x)
                now = And(now, gec(size, n * BS + 1))
            if odd:
                continue
            se, re_ = rd[2 * i], rd[2 * i + 1]
            i += 1
            c.equal(K + 'block %d visited' % x, se.pc, now, sp, care, rule=rule)
            c.equal(K + 'block %d position' % x, se.data[1], L(x * BS), sp, And(now, se.pc), rule=rule)
            now = And(now, se.data[2])
            c.equal(K + 'block %d read' % x, re_.pc, now, sp, care, rule=rule)
            now = And(now, re_.data[3])
        c.equal(K + 'result', done, now, sp, care, rule='entries are reported until all blocks of the directory have been read completely; anything else is an error')
        care = And(care, done, now)
        if not res:
            return
        some, es = r.variant(res[0], 'Some')
        c.equal(K + 'present', some, T if at is not None else F, sp, care, rule='the end of a directory is reported when all its blocks have been read')
        if at is None or not es:
            return
        care = And(care, some)
        r.assume(care)
        e = r.ref(es[0])
        r.I.try_unroll = 0
        seen = len(r.I.events)
        same(c, K + 'inode', r, r.call(a['inode'], e), u(at, 4, 'le', DISK), a['inode']['sp'], care, 'entries are those of the directory in order')
        same(c, K + 'file type', r, r.call(a['file_type'], e), enum_table(u(at + 7, 1, 'le', DISK), DIR_TYPES), a['file_type']['sp'], care, 'entries are those of the directory in order')
        same(c, K + 'name', r, r.call(a['name'], e), nul_string(W(DISK), at + 8, 3), a['name']['sp'], care, 'entries are those of the directory in order')
        panics(c, r, K + 'decoding', care, seen, 'decoding an entry cannot panic')
