"""Checks of the ext4 half: superblock, group descriptors, inodes, tables, extents, directories."""
import re
from checks_md import *

SBP = r'ext4::superblock::superblock::Superblock<'
BUF = ('buf',)
SBK = ('sb',)
NS = 10**9


# ------------------------------------------------------------------ comparing structured values
def merged(entries):
    """[(guard, value)] -> (any guard, one graph)"""
    g = F
    v = None
    for gg, n in entries:
        if not isinstance(n, (Node, Leaf)):
            raise Unsupported('not a scalar')
        v = n if v is None else ite(gg, n, v)
        g = Or(g, gg)
    return g, v


def variants_of(r, v):
    v = r.I.expand(v)
    while isinstance(v, VAgg):
        fs = [x for x in v.f if not r.iszst(x)]
        if len(fs) != 1:
            break
        v = r.I.expand(fs[0])
    if isinstance(v, Leaf) and isinstance(v.v, Ptr):
        return variants_of(r, r.I.read_ptr(v.v, r.s))
    if not isinstance(v, VEnum):
        raise Unsupported('not an enum: %r' % (v,))
    return v


def same(c, key, r, v, spec, where='', care=T, rule=''):
    """obligation(s): value v equals the specified one.
    spec: graph | ('opt', guard, spec) | ('enum', {name: (guard, spec or None)}) | ('bytes', [graphs]) | ('seq', length graph, [graphs]) | ('tuple', [specs]) | ('agg', {field: spec})"""
    if isinstance(spec, (Node, Leaf)):
        fl = r.flat(v)
        if set(fl) != {''}:
            c.add(key, 'undecided', where, 'not a scalar: %s' % sorted(fl)[:6], rule=rule)
            return
        g, n = merged(fl[''])
        c.equal(key, n, spec, where, care, rule=rule)
        return
    k = spec[0]
    if k == 'opt':
        return same(c, key, r, v, ('enum', {'Some': (spec[1], spec[2]), 'None': (Not(spec[1]), None)}), where, care, rule)
    if k == 'enum':
        e = variants_of(r, v)
        t = r.I.ty(e.ty)
        names = [x['name'] for x in t['variants']]
        for nm, (g, pay) in spec[1].items():
            if nm not in names:
                c.add('%s?%s' % (key, nm), 'undecided', where, 'no variant of this name', rule=rule)
                continue
            i = names.index(nm)
            gg, fs = e.alts.get(i, (F, None))
            c.equal('%s?%s' % (key, nm), gg, g, where, care, rule=rule)
            if pay is not None and fs:
                pc = And(care, gg, g)
                if pc is not F and not infeasible(pc, 20000):
                    same(c, '%s.%s' % (key, nm), r, fs[0] if len(fs) == 1 else VAgg(None, fs), pay, where, pc, rule)
        for i, (gg, fs) in e.alts.items():
            if names[i] not in spec[1] and gg is not F:
                c.equal('%s?%s' % (key, names[i]), gg, F, where, care, rule=rule)
        return
    if k in ('bytes', 'seq'):
        ln, els = (L(len(spec[1])), spec[1]) if k == 'bytes' else (spec[1], spec[2])
        for g, q in seqs(r, v):
            pc = And(care, g)
            if pc is F or infeasible(pc, 20000):
                continue
            if not isinstance(q, Seq):
                c.add(key, 'undecided', where, 'not a sequence: %r' % (q,), rule=rule)
                continue
            c.equal(key + '.len', q.len, ln, where, pc, rule=rule)
            for i, s in enumerate(els):
                inside = apply(lambda l: lt(const(i), l), q.len)
                sin = apply(lambda l: lt(const(i), l), ln)
                ec = And(pc, inside, sin)
                if ec is F or infeasible(ec, 20000):
                    continue
                same(c, '%s[%d]' % (key, i), r, r.I.seq_get(q, const(i), None), s, where, ec, rule)
        return
    if k == 'tuple':
        w = r.I.expand(v)
        if not isinstance(w, VAgg) or len(w.f) != len(spec[1]):
            c.add(key, 'undecided', where, 'not %d values: %r' % (len(spec[1]), w), rule=rule)
            return
        for i, s in enumerate(spec[1]):
            same(c, '%s.%d' % (key, i), r, w.f[i], s, where, care, rule)
        return
    if k == 'agg':
        for n, s in spec[1].items():
            same(c, '%s.%s' % (key, n), r, r.field(v, n), s, where, care, rule)
        return
    raise Unsupported('spec %r' % (k,))


def seqs(r, v, g=T, depth=0):
    """[(guard, Seq)] behind wrappers and pointers"""
    v = r.strip(v)
    if depth > 6:
        return [(g, v)]
    if isinstance(v, (Node, Leaf)):
        out = []
        for gg, p in r.I.ptr_cases(v):
            if not isinstance(p, Ptr):
                return [(g, v)]
            if And(g, gg) is F:
                continue
            out += seqs(r, r.I.read_ptr(p, r.s), And(g, gg), depth + 1)
        return out
    return [(g, v)]


def accessor(c, r, selfpat, name, ref):
    f = c.method(selfpat, name)
    return r.call(f, ref), f['sp']


def table(c, pre, r, selfpat, ref, rows, care, rule):
    for name, spec in rows.items():
        def one(name=name, spec=spec):
            try:
                v, sp = accessor(c, r, selfpat, name, ref)
            except (Missing, Unsupported) as e:
                c.add(pre + name, 'undecided', '', str(e), rule=rule)
                return
            same(c, pre + name, r, v, spec, sp, care, rule)
        c.section(pre + name, one)


def sl(x, a, b=None):
    """bits of a graph: shift right by a, keep b bits"""
    return map1(lambda l: shr(l, a) if b is None else trunc(shr(l, a), b), x)


def cat(lo, hi, bits):
    """lo + hi << bits"""
    return add_(lo, map1(lambda l: scale(l, 1 << bits), hi))


def scl(x, k):
    return map1(lambda l: scale(l, k), x)


def enum_table(x, names, first=0, unknown=True):
    """C-like enum with a catch-all"""
    sp = {}
    anyg = F
    for k, n in (names.items() if isinstance(names, dict) else enumerate(names, first)):
        g = eqc(x, k)
        sp[n] = (g, None)
        anyg = Or(anyg, g)
    if unknown:
        sp['Unknown'] = (Not(anyg), x)
    return ('enum', sp)


def nul_string(w, off, n):
    """bytes up to the first NUL of an n-byte field"""
    b = [w(off + i, 1) for i in range(n)]
    ln = L(n)
    for i in range(n - 1, -1, -1):
        ln = ite(eqc(b[i], 0), L(i), ln)
    return ('seq', ln, b)


HASHES = ['Legacy', 'HalfMd4', 'Tea', 'LegacyUnsigned', 'HalfMd4Unsigned', 'TeaUnsigned']
CREATORS = ['Linux', 'Hurd', 'Masix', 'FreeBsd', 'Lites']
CIPHERS = ['Invalid', 'Aes256Xts', 'Aes256Gcm', 'Aes256Cbc']
POLICIES = ['Continue', 'RemountReadOnly', 'Panic']


def read_ext4_superblock(c, io_ok=True):
    """a superblock read from the start of a medium; with io_ok the reads succeed"""
    r = c.run()
    r.I.io_ok = io_ok
    f = c.method(SBP, 'read')
    v = r.call(f, VDev(r.arg_ty(f, 0)['id'], DEV, L(0)))
    ok, fs = r.variant(v, 'Ok')
    if not fs:
        raise Missing('the ext4 superblock reader never succeeds')
    return r, ok, r.ref(fs[0]), f


def W(src, en='le'):
    return lambda off, n=4: u(off, n, en, src)


def pow2(x, base):
    """2**(base+x)"""
    return map1(lambda l: av(atom(('shl', const(1), add(l, const(base)), 64), 0, 2**64 - 1)), x)


@check('C13', floor=260)
def ext4_superblock(c):
    rule = 'field at its offset in struct ext4_super_block'
    w = W(DISK)
    opt0 = lambda g, x: ('opt', g, x)

    def stime(lo, hi):
        return add_(scl(w(lo), NS), scl(w(hi, 1), NS << 32))

    def otime(lo, hi):
        return ('opt', Not(And(eqc(w(lo), 0), eqc(w(hi, 1), 0))), stime(lo, hi))

    def ostr(off, n):
        return ('opt', Not(eqc(w(off, 1), 0)), nul_string(w, off, n))
    by = lambda off, n: ('bytes', [w(off + i, 1) for i in range(n)])
    rows = dict(
        inodes_count=w(0), blocks_count=cat(w(4), w(0x150), 32), reserved_blocks_count=cat(w(8), w(0x154), 32), free_blocks_count=cat(w(0xC), w(0x158), 32), free_inodes_count=w(0x10),
        first_data_block=w(0x14), block_size_bytes=pow2(w(0x18), 10), cluster_size_blocks=pow2(w(0x1C), 10), blocks_per_group=w(0x20), clusters_per_group=w(0x24), inodes_per_group=w(0x28),
        mount_time=otime(0x2C, 0x275), write_time=stime(0x30, 0x274), mount_count=w(0x34, 2), max_mount_count=w(0x36, 2), magic=w(0x38, 2), state=w(0x3A, 2),
        error_policy=enum_table(w(0x3C, 2), POLICIES, 1), minor_revision_level=w(0x3E, 2), last_check_time=stime(0x40, 0x277), check_interval=('opt', Not(eqc(w(0x44), 0)), scl(w(0x44), NS)),
        creator_os=enum_table(w(0x48), CREATORS), revision_level=w(0x4C), default_reserved_user_id=w(0x50, 2), default_reserved_group_id=w(0x52, 2), first_inode=w(0x54), inode_size=w(0x58, 2),
        block_group_number=w(0x5A, 2), compatible_features=w(0x5C), incompatible_features=w(0x60), read_only_compatible_features=w(0x64), uuid=by(0x68, 16), volume_name=ostr(0x78, 16), last_mounted_path=ostr(0x88, 64),
        algorithm_usage_bitmap=w(0xC8), preallocate_blocks=w(0xCC, 1), preallocate_directory_blocks=w(0xCD, 1), reserved_gdt_blocks=w(0xCE, 2), journal_uuid=by(0xD0, 16), journal_inode_number=w(0xE0),
        journal_device_number=w(0xE4), last_orphan=w(0xE8), hash_seed=by(0xEC, 16), default_hash_version=enum_table(w(0xFC, 1), HASHES), journal_backup_type=w(0xFD, 1), group_descriptor_size=w(0xFE, 2),
        default_mount_options=w(0x100), first_meta_block_group=w(0x104), creation_time=otime(0x108, 0x276), journal_blocks=by(0x10C, 68), minimum_extra_inode_size=w(0x15C, 2), wanted_extra_inode_size=w(0x15E, 2),
        flags=w(0x160), raid_stride=w(0x164, 2), multi_mount_prevention_interval=w(0x166, 2), multi_mount_prevention_block=w(0x168, 8), raid_stripe_width=w(0x170), groups_per_flex=pow2(w(0x174, 1), 0),
        kbytes_written=w(0x178, 8), snapshot_inode_number=w(0x180), snapshot_id=w(0x184), snapshot_reserved_blocks_count=w(0x188, 8), snapshot_list_inode_number=w(0x190), error_count=w(0x194),
        first_error_time=otime(0x198, 0x278), first_error_inode=w(0x19C), first_error_block=w(0x1A0, 8), first_error_function_name=ostr(0x1A8, 32), first_error_line=w(0x1C8),
        last_error_time=otime(0x1CC, 0x279), last_error_inode=w(0x1D0), last_error_line=w(0x1D4), last_error_block=w(0x1D8, 8), last_error_function_name=ostr(0x1E0, 32), mount_options=nul_string(w, 0x200, 64),
        user_quota_inode_number=w(0x240), group_quota_inode_number=w(0x244), overhead_blocks=w(0x248), superblock_backup_block_groups=('bytes', [w(0x24C), w(0x250)]), encryption_password_salt=by(0x258, 16),
        lost_and_found_inode_number=w(0x268), project_quota_inode_number=w(0x26C), filename_character_encoding=w(0x27C, 2), filename_character_encoding_flags=w(0x27E, 2), orphan_file_inode_number=w(0x280),
        checksum=('enum', {'None': (eqc(w(0x175, 1), 0), None), 'Crc32c': (eqc(w(0x175, 1), 1), w(0x3FC)), 'Unknown': (And(Not(eqc(w(0x175, 1), 0)), Not(eqc(w(0x175, 1), 1))), ('tuple', [w(0x175, 1), w(0x3FC)]))}))
    names = list(rows)
    n = 6
    jobs = [('fields%d' % i, sb_fields, {k: rows[k] for k in names[i::n]}, rule) for i in range(n)]
    jobs.append(('checksum_seed', sb_seed))
    jobs.append(('encryption', sb_encryption))
    c.parallel(jobs)


def sb_fields(c, rows, rule):
    r, ok, sb, f = read_ext4_superblock(c)
    c.strong = ok
    ok = T
    table(c, 'superblock.', r, SBP, sb, rows, ok, rule)


CRC_ALG = (32, 0x1edc6f41, True, True, 0)
ONES = 2**32 - 1


def unrev(l):
    """initial value as given to the checksum (the library takes it bit-reversed)"""
    if is_const(l):
        return const(int(bin(l[0] + (1 << 32))[3:][::-1], 2))
    if l[0] == 0 and len(l[1]) == 1 and l[1][0][1] == 1 and l[1][0][0].key[0] == 'bitrev':
        return l[1][0][0].key[1]
    return None


def crc_equal(c, key, v, seed, parts, where, care, rule):
    """v == crc32c(seed, parts): parts are byte graphs, or ('r', source key, offset term, length graph)"""
    if not isinstance(v, (Node, Leaf)):
        c.add(key, 'undecided', where, 'not a scalar: %r' % (v,), rule=rule)
        return
    for l in dict.fromkeys(leaves(v)):
        g = And(care, apply(lambda x: T if x == l else F, v))
        if g is F or infeasible(g, 20000):
            continue
        k = l[1][0][0].key if isinstance(l, tuple) and l[0] == 0 and len(l[1]) == 1 and l[1][0][1] == 1 else ('?',)
        if k[0] != 'crc':
            sp = LV(var(('crc', CRC_ALG, seed.v if isinstance(seed, Leaf) else const(0), tuple(('b', p) if isinstance(p, (Node, Leaf)) else p for p in parts)), 0, ONES))
            c.equal(key, LV(l), sp, where, g, rule=rule)
            continue
        c.add(key + '.algorithm', 'proved' if k[1] == CRC_ALG else 'violated', where, 'parameters %r, required %r' % (k[1], CRC_ALG), rule='CRC-32C without final inversion')
        i = unrev(k[2])
        if i is None:
            c.add(key + '.initial', 'undecided', where, 'initial value %s' % fmt(k[2]), rule=rule)
        else:
            c.equal(key + '.initial', LV(i), seed, where, g, rule=rule)
        got = list(k[3])
        if len(got) != len(parts) or any((p[0] == 'b') != isinstance(q, (Node, Leaf)) for p, q in zip(got, parts)):
            allb = all(p[0] == 'b' for p in got) and all(isinstance(q, (Node, Leaf)) for q in parts)
            c.add(key + '.data', 'violated' if allb else 'undecided', where, 'the checksum covers %s, required %s' % ([str(p)[:60] for p in got], [str(p)[:60] for p in parts]), rule=rule)
            continue
        for j, (p, q) in enumerate(zip(got, parts)):
            kk = '%s.data[%d]' % (key, j)
            if p[0] == 'b':
                c.equal(kk, p[1], q, where, g, rule=rule)
            elif p[1] != q[1]:
                c.add(kk, 'undecided', where, 'source %r, required %r' % (p[1], q[1]), rule=rule)
            else:
                c.equal(kk + '.from', LV(p[2]), LV(q[2]), where, g, rule=rule)
                c.equal(kk + '.length', p[3], q[3], where, g, rule=rule)


def sb_seed(c):
    r, ok, sb, f = read_ext4_superblock(c)
    c.strong = ok
    ok = T
    v, sp = accessor(c, r, SBP, 'checksum_seed', sb)
    v = r.strip(v)
    w = W(DISK)
    rule = 'the stored seed if the filesystem stores one, else the crc32c of its uuid if metadata is checksummed, else 0'
    has, csum = bit(w(0x60), 13), bit(w(0x64), 10)
    c.equal('superblock.checksum_seed stored', v, w(0x270), sp, And(ok, has), rule=rule)
    crc_equal(c, 'superblock.checksum_seed of uuid', v, L(ONES), [w(0x68 + i, 1) for i in range(16)], sp, And(ok, Not(has), csum), rule)
    c.equal('superblock.checksum_seed none', v, L(0), sp, And(ok, Not(has), Not(csum)), rule=rule)


def sb_encryption(c):
    r, ok, sb, f = read_ext4_superblock(c)
    c.strong = ok
    ok = T
    v, sp = accessor(c, r, SBP, 'encryption_algorithms', sb)
    w = W(DISK)
    rule = 'the recorded algorithms in order, without the unused (zero) slots'
    q = seqs(r, v)[0][1]
    b = [w(0x254 + i, 1) for i in range(4)]
    nz = [Not(eqc(x, 0)) for x in b]
    n = L(0)
    for z in nz:
        n = add_(n, ite(z, L(1), L(0)))
    c.equal('superblock.encryption.len', q.len, n, sp, ok, rule=rule)
    for k in range(16):
        pat = [bool(k >> i & 1) for i in range(4)]
        g = And(*[z if p else Not(z) for z, p in zip(nz, pat)])
        els = [b[i] for i in range(4) if pat[i]]
        for j, x in enumerate(els):
            e = r.I.seq_get(q, const(j), None)
            t = enum_table(x, CIPHERS[1:], 1)
            t[1].pop('Unknown')
            t[1]['Unknown'] = (And(*[Not(eqc(x, m)) for m in range(4)]), x)
            same(c, 'superblock.encryption %s[%d]' % (''.join('01'[p] for p in pat), j), r, e, t, sp, And(ok, g), rule)


def crc_atoms(n):
    """checksum values a graph depends on"""
    out = {}

    def walk(x):
        if isinstance(x, Atom):
            if x.key[0] == 'crc':
                out[x] = 1
                return
            for k in x.key:
                walk(k)
        elif isinstance(x, (Node, Leaf)):
            for v in dvars(x):
                walk(v.key)
            for l in leaves(x):
                walk(l)
        elif isinstance(x, tuple):
            for k in x:
                walk(k)
    walk(n)
    return list(out)


@check('C14', floor=8)
def ext4_acceptance(c):
    r, ok, sb, f = read_ext4_superblock(c, False)
    sp = f['sp']
    rd = reads(r)
    w = W(DISK)
    if len(rd) != 1:
        c.add('reads', 'undecided', sp, '%d reads' % len(rd))
        return
    e = rd[0]
    c.equal('read.position', e.data[1], L(0), sp, rule='the superblock is read from the current position')
    c.equal('read.length', e.data[2], L(1024), sp, rule='1024 bytes are read')
    crcs = crc_atoms(ok)
    crc = None
    if len(crcs) == 1:
        crc = LV(av(crcs[0]))
        crc_equal(c, 'checksum', crc, L(ONES), [('r', rd_source(r, ok, crcs[0]), const(0), L(1020))], sp, T, 'crc32c of the 1020 bytes before the checksum')
    elif not crcs:
        # acceptance does not depend on a checksum of the superblock at all
        crc = LV(var(('crc', CRC_ALG, const(ONES), (('r', DISK, const(0), L(1020)),)), 0, ONES))
    else:
        c.add('checksum', 'undecided', sp, '%d different checksums are computed' % len(crcs))
        return
    rule = 'magic number, log block and cluster sizes below 53, equal sizes without bigalloc, error policy 1..3, log groups per flex below 63, and no checksum or a matching crc32c'
    big = bit(w(0x64), 9)
    cond = [('magic', eqc(w(0x38, 2), 0xef53)), ('log block size', lec(w(0x18), 52)), ('log cluster size', lec(w(0x1C), 52)), ('error policy', And(gec(w(0x3C, 2), 1), lec(w(0x3C, 2), 3))),
            ('groups per flex', lec(w(0x174, 1), 62)), ('cluster size', Or(big, eq_(w(0x18), w(0x1C)))), ('clusters per group', Or(big, eq_(w(0x24), w(0x20)))),
            ('checksum type', lec(w(0x175, 1), 1)), ('checksum', Or(Not(eqc(w(0x175, 1), 1)), eq_(w(0x3FC), crc))), ('read', e.data[3])]
    for nm, g in cond:
        c.equal('accepted only if ' + nm, And(ok, Not(g)), F, sp, rule=rule)
    c.equal('accepted', ok, And(*[g for _, g in cond]), sp, rule=rule)
    r, ok, sb, f = read_ext4_superblock(c)
    v, vs = accessor(c, r, SBP, 'valid', sb)
    c.equal('valid()', v, T, vs, ok, rule='an accepted superblock reports itself valid')


def rd_source(r, ok, a):
    for p in a.key[3]:
        if p[0] == 'r':
            k = p[1]
            return k if k == r.I.seq_key(Seq('abs', None, DISK, 'u8')) else DISK
    return DISK


# ------------------------------------------------------------------ group descriptors and inodes
def instance(c, pat, n=None):
    """a monomorphic instance of a generic function"""
    fs = [g for g in c.prog.F if g.get('local') and g.get('body') and re.search(pat, g['full']) and '::tests::' not in g['full']]
    if n is not None:
        fs = [g for g in fs if g['body']['argc'] == n]
    if not fs:
        raise Missing('no function ' + pat)
    fs.sort(key=lambda g: ('Vec<' not in g['full'], g['full']))
    return fs[0]


def bytes_arg(r, f, i, seq):
    """a byte sequence passed as argument i of f, whatever container it takes"""
    t = r.arg_ty(f, i)
    if t['k'] == 'adt' and t['path'].endswith('Vec'):
        return r.ref(seq)
    if t['k'] == 'ref':
        p = r.ref(seq)
        u_ = r.I.ty(t['to']) if 'to' in t else None
        if u_ is not None and u_['k'] == 'adt':
            return r.ref(p)
        return leaf(Ptr(p.v.alloc, (('sl', const(0), seq.len.v),))) if isinstance(seq.len, Leaf) else p
    if t['k'] == 'array':
        return seq
    raise Unsupported('byte container ' + t.get('name', '?'))


def zext(src, off, n, avail):
    """little-endian integer of which byte i exists iff avail(i), the missing ones being zero"""
    v = L(0)
    for i in range(n):
        v = add_(v, ite(avail(off + i), scl(u(off + i, 1, 'le', src), 1 << (8 * i)), L(0)))
    return v


GBD = r'BlockGroupDescriptor$'


@check('C15', floor=30)
def group_descriptors(c):
    for n in (32, 64, None):
        c.section('descriptor of %s bytes' % n, group_descriptor, c, n)


def group_descriptor(c, n):
    r = c.run()
    f = instance(c, r'BlockGroupDescriptor::new\b', 1)
    ln = L(n) if n else LV(var(('n',), 0, 65535))
    v = r.call(f, bytes_arg(r, f, 0, Seq('abs', ln, BUF, 'u8')))
    ref = r.ref(v)
    rule = 'field at its offset in struct ext4_group_desc; bytes beyond the descriptor size read as zero'

    def w(off, k=4):
        if n is not None:
            return u(off, k, 'le', BUF) if off + k <= n else L(0)
        return zext(BUF, off, k, lambda i: gec(ln, i + 1))
    rows = dict(
        block_bitmap_block=cat(w(0), w(0x20), 32), inode_bitmap_block=cat(w(4), w(0x24), 32), inode_table_block=cat(w(8), w(0x28), 32), free_block_count=cat(w(0xC, 2), w(0x2C, 2), 16),
        free_inode_count=cat(w(0xE, 2), w(0x2E, 2), 16), used_directories_count=cat(w(0x10, 2), w(0x30, 2), 16), flags=w(0x12, 2), exclude_bitmap_block=cat(w(0x14), w(0x34), 32),
        block_bitmap_checksum=cat(w(0x18, 2), w(0x38, 2), 16), inode_bitmap_checksum=cat(w(0x1A, 2), w(0x3A, 2), 16), unused_inode_count=cat(w(0x1C, 2), w(0x32, 2), 16), checksum=w(0x1E, 2))
    table(c, 'group%s.' % (n or ' of any size'), r, GBD, ref, rows, T, rule)


INO = r'ext4::inode::inode::Inode$'
FILE_TYPES = {12: 'Socket', 10: 'SymbolicLink', 8: 'RegularFile', 6: 'BlockDevice', 4: 'Directory', 2: 'CharacterDevice', 1: 'Fifo'}


def make_inode(c, n, extra=None, sbkey=SBK):
    """an inode built from an n-byte buffer (None: any size), for a filesystem with arbitrary superblock"""
    r = c.run()
    f = instance(c, r'inode::inode::Inode::new\b', 3)
    sbt = r.arg_ty(f, 0)
    sb = r.ref(r.ref(Seq('abs', L(1024), sbkey, 'u8')))
    ln = L(n) if n else LV(var(('n',), 128, 65535))
    ino = LV(var(('ino',), 0, 2**32 - 1))
    a = r.sym(('ino',), f['body']['locals'][2])
    from checks_geo import refill_newtype
    v = r.call(f, sb, refill_newtype(r, a, ino), bytes_arg(r, f, 2, Seq('abs', ln, BUF, 'u8')))
    return r, r.ref(v), ln, ino, f


def signed32(x):
    return map1(lambda l: tosigned(l, 32), x)


@check('C16', floor=120)
def inodes(c):
    c.parallel([('inode of %s bytes' % (n or 'any number of'), inode_fields, n) for n in (128, 160, 256, None)] + [('checksum seed', inode_seed)])


def inode_fields(c, n):
    r, ref, ln, ino, f = make_inode(c, n)
    raw = W(BUF)
    extra = ite(gec(ln, 131), raw(128, 2), L(0))
    avail = lambda end: And(gec(ln, end), gec(extra, end - 128)) if end > 128 else T
    w0 = W(BUF)

    def w(off, k=4):
        """field, of which the bytes beyond the recorded inode size are zero"""
        if off + k <= 128:
            return w0(off, k)
        return zext(BUF, off, k, lambda i: avail(i + 1))
    K = 'inode of %s bytes.' % (n or 'n')
    rule = 'field at its offset in struct ext4_inode; extra fields beyond the recorded size read as zero'

    def time(base, extra):
        b = signed32(w(base))
        if extra is None:
            return scl(w(base), NS)
        x = w(extra)
        return add_(scl(add_(b, scl(sl(x, 0, 2), 1 << 32)), NS), sl(x, 2))
    mode = w(0, 2)
    ft = sl(mode, 12, 4)
    rows = dict(
        owner_user_id=cat(w(2, 2), w(120, 2), 16), group_id=cat(w(24, 2), w(122, 2), 16), file_size_bytes=cat(w(4), w(108), 32), delete_time=time(20, None), links_count=w(26, 2), block_count=cat(w(28), w(116, 2), 32),
        flags=w(32), version=cat(w(36), w(152), 32), generation=w(100), file_acl=cat(w(104), w(118, 2), 32), checksum=cat(w(124, 2), w(130, 2), 16), project_id=w(156),
        file_mode=mode, permissions=sl(mode, 0, 12), file_type=enum_table(ft, FILE_TYPES), blocks_buffer=('bytes', [w(40 + i, 1) for i in range(60)]))
    table(c, K, r, INO, ref, rows, T, rule)
    times = dict(access_time=time(8, 140), change_time=time(12, 132), modified_time=time(16, 136), creation_time=time(144, 148))
    table(c, K, r, INO, ref, times, T, rule + '; times are signed seconds extended by two bits, and nanoseconds')
    pan = [e for e in r.I.events if e.kind == 'panic']
    for i, e in enumerate(pan):
        c.equal(K + 'panic %s' % e.sp, e.pc, F, e.sp, rule='decoding an inode cannot panic')


def inode_seed(c):
    r, ref, ln, ino, f = make_inode(c, None)
    v, sp = accessor(c, r, INO, 'metadata_checksum_seed', ref)
    w = W(SBK)
    has, csum = bit(w(0x60), 13), bit(w(0x64), 10)
    g, fs = r.variant(v, 'Some')
    c.equal('inode seed', g, csum, sp, rule='inodes have a checksum seed iff the filesystem checksums metadata')
    x = r.strip(fs[0])
    b = W(BUF)
    le = [sl(ino, 8 * i, 8) for i in range(4)]
    rule = 'crc32c of the inode number and generation, continued from the seed of the filesystem'
    crc_equal(c, 'inode seed (seed stored)', x, w(0x270), le + [b(100 + i, 1) for i in range(4)], sp, And(csum, has), rule)
    crc_equal(c, 'inode seed (seed from uuid)', x, L(ONES), [w(0x68 + i, 1) for i in range(16)] + le + [b(100 + i, 1) for i in range(4)], sp, And(csum, Not(has)), rule)


# ------------------------------------------------------------------ flag constants
def flagset(s):
    out = {}
    for w in s.split():
        k, v = w.split('=')
        out[k] = int(v, 0)
    return out


FLAGS = {
    r'superblock::compatible_features::.*CompatibleFeatures>': flagset(
        'DIRECTORY_PREALLOCATION=1 MAGIC_INODES=2 HAS_JOURNAL=4 SUPPORTS_EXTENDED_ATTRIBUTES=8 HAS_RESERVED_GDT_BLOCKS=0x10 HAS_DIRECTORY_INDICES=0x20 LAZY_BG=0x40 EXCLUDE_INODE=0x80 EXCLUDE_BITMAP=0x100 SPARSE_SUPERBLOCK_V2=0x200 SUPPORTS_FAST_COMMITS=0x400 ORPHAN_PRESENT=0x1000'),
    r'superblock::incompatible_features::.*IncompatibleFeatures>': flagset(
        'COMPRESSION=1 DIRECTORY_ENTRIES_RECORD_FILE_TYPE=2 NEEDS_RECOVERY=4 HAS_SEPARATE_JOURNAL_DEVICE=8 HAS_META_BLOCK_GROUPS=0x10 FILES_USE_EXTENTS=0x40 IS_64_BIT=0x80 MULTIPLE_MOUNT_PROTECTION=0x100 FLEXIBLE_BLOCK_GROUPS=0x200 INODES_STORE_LARGE_EXTENDED_ATTRIBUTE_VALUES=0x400 DATA_IN_DIRECTORY_ENTRY=0x1000 METADATA_CHECKSUM_SEED=0x2000 LARGE_DIRECTORIES=0x4000 DATA_IN_INODE=0x8000 HAS_ENCRYPTED_INODES=0x10000'),
    r'superblock::read_only_compatible_features::.*ReadOnlyCompatibleFeatures>': flagset(
        'SPARSE_SUPERBLOCKS=1 CONTAINS_LARGE_FILES=2 BTREE_DIR=4 CONTAINS_HUGE_FILES=8 GROUP_DESCRIPTORS_HAVE_CHECKSUMS=0x10 UNLIMITED_SUBDIRECTORIES=0x20 CONTAINS_LARGE_INODES=0x40 HAS_SNAPSHOT=0x80 QUOTA=0x100 BIGALLOC=0x200 METADATA_CHECKSUMS=0x400 REPLICA=0x800 READ_ONLY=0x1000 PROJECT_QUOTA=0x2000 VERITY=0x8000 ORPHAN_PRESENT=0x10000'),
    r'superblock::flags::.*Flags>': flagset('SIGNED_DIRECTORY_HASH=1 UNSIGNED_DIRECTORY_HASH=2 TEST_FILESYSTEM=4'),
    r'superblock::state::.*State>': flagset('CLEANLY_UNMOUNTED=1 ERRORS_DETECTED=2 ORPHANS_BEING_RECOVERED=4'),
    r'superblock::mount_options::.*MountOptions>': flagset(
        'PRINT_DEBUGGING_INFO=1 NEW_FILES_INHERIT_DIRECTORY_GROUP_ID=2 ENABLE_USERSPACE_EXTENDED_ATTRIBUTES=4 ENABLE_POSIX_ACLS=8 DISABLE_16_BIT_USER_IDS=0x10 COMMIT_ALL_DATA_AND_METADATA_TO_JOURNAL=0x20 FLUSH_ALL_DATA_BEFORE_COMMITTING_METADATA=0x40 DATA_ORDERING_NOT_PRESERVED=0x60 DISABLE_WRITE_FLUSHES=0x100 TRACK_METADATA_BLOCKS=0x200 ENABLE_DISCARD=0x400 DISABLE_DELAYED_ALLOCATION=0x800'),
    r'block_group::flags::.*Flags>': flagset('INODE_NOT_IN_USE=1 BLOCK_BITMAP_NOT_IN_USE=2 INODE_TABLE_ZEROED=4'),
    r'inode::flags::.*Flags>': flagset(
        'SECURE_DELETE=1 UNDELETE=2 COMPRESSED=4 SYNCHRONOUS_UPDATES=8 IMMUTABLE=0x10 APPEND_ONLY=0x20 NO_DUMP=0x40 NO_UPDATE_ACCESS_TIME=0x80 DIRTY=0x100 COMPRESSED_CLUSTERS=0x200 NO_COMPRESS=0x400 ENCRYPTED=0x800 HASH_INDEXED_DIRECTORY=0x1000 AFS_DIRECTORY=0x2000 JOURNAL_DATA=0x4000 NO_TAIL_MERGE=0x8000 DIRECTORY_SYNC=0x10000 TOP_DIRECTORY=0x20000 HUGE_FILE=0x40000 HAS_EXTENTS=0x80000 VERITY_PROTECTED=0x100000 LARGE_EXTENDED_ATTRIBUTES=0x200000 DIRECT_ACCESS=0x2000000 HAS_INLINE_DATA=0x10000000 INHERIT_PROJECT_ID=0x20000000 CASE_FOLDED=0x40000000 RESERVED=0x80000000'),
    r'inode::permissions::.*Permissions>': flagset(
        'SET_USER_ID=0x800 SET_GROUP_ID=0x400 STICKY=0x200 USER_READ=0x100 USER_WRITE=0x80 USER_EXECUTE=0x40 GROUP_READ=0x20 GROUP_WRITE=0x10 GROUP_EXECUTE=8 OTHER_READ=4 OTHER_WRITE=2 OTHER_EXECUTE=1'),
    r'version_1::features::.*Features>': flagset(
        'BITMAP_OFFSET=1 RECOVERY_OFFSET=2 RESHAPE_ACTIVE=4 BAD_BLOCKS=8 REPLACEMENT=16 RESHAPE_BACKWARDS=32 NEW_OFFSET=64 BITMAP_VERSIONED=256 JOURNAL=512 PPL=1024 MULTIPLE_PPLS=2048 RAID0_LAYOUT=4096'),
    r'version_1::device_flags::.*DeviceFlags>': flagset('WRITE_MOSTLY=1 FAIL_FAST=2'),
}


def const_int(v):
    while isinstance(v, dict) and v.get('k') == 'agg' and len(v.get('fields', [])) == 1:
        v = v['fields'][0]
    return v.get('v') if isinstance(v, dict) and v.get('k') == 'int' else None


@check('C17', floor=90)
def flags(c):
    """flag constants: bit by bit"""
    byname = {}
    for k in c.prog.consts:
        p = k['path']
        if '::_::<impl ' in p and 'bitflags' not in p and 'InternalBitFlags' not in p and p.count('>::') >= 1 and k.get('const'):
            byname[p] = k
    rule = 'flag = bit of the kernel header'
    for pat, tab in FLAGS.items():
        seen = {}
        for p, k in byname.items():
            pre, _, nm = p.rpartition('::')
            if re.search(pat + '$', pre) and nm.isupper() or re.search(pat + '$', pre) and re.fullmatch('[A-Z0-9_]+', nm):
                seen[nm] = k
        if not seen:
            c.add('flags ' + pat, 'undecided', '', 'no flags of this kind')
        for nm, want in tab.items():
            key = '%s %s' % (pat.split('::.*')[0], nm)
            if nm not in seen:
                c.add(key, 'undecided', '', 'no such flag', rule=rule)
                continue
            got = const_int(seen[nm]['const'].get('val'))
            if got is None:
                c.add(key, 'undecided', seen[nm]['sp'], 'not an integer constant', rule=rule)
            elif got == want:
                c.add(key, 'proved', seen[nm]['sp'], rule=rule)
            else:
                c.add(key, 'violated', seen[nm]['sp'], 'flag %s is 0x%x, required 0x%x' % (nm, got, want), ['the bits 0x%x are reported as %s' % (got, nm)], rule)
        # no two flags of one kind share their bits
        vals = {}
        for nm, k in seen.items():
            v = const_int(k['const'].get('val'))
            if v is not None:
                vals.setdefault(v, []).append(nm)
        for v, ns in vals.items():
            known = [n for n in ns if n in tab]
            if len(ns) > 1 and len(known) < len(ns):
                c.add('%s 0x%x' % (pat.split('::.*')[0], v), 'undecided', '', 'bits shared by %s' % ns)
    mode(c)


def mode(c):
    """file mode = type in the upper four bits, permissions in the lower twelve"""
    f = c.method(r'FileMode$', 'from_file_type_and_permissions')
    t = c.type(r'inode::file_type::FileType$')
    names = [v['name'] for v in t['variants']]
    perms = LV(var(('perm',), 0, 65535))
    from checks_geo import refill_newtype
    for k, nm in FILE_TYPES.items():
        r = c.run()
        if nm not in names:
            c.add('mode of ' + nm, 'undecided', '', 'no such type')
            continue
        a = VEnum(t['id'], {names.index(nm): (T, [])})
        v = r.call(f, a, refill_newtype(r, r.sym(('p',), f['body']['locals'][2]), perms))
        c.equal('mode of ' + nm, r.strip(v), add_(L(k << 12), sl(perms, 0, 12)), f['sp'], rule='mode = type << 12 | permissions')


# ------------------------------------------------------------------ extent trees
BLK = ('blk',)
TREE = r'ext4::extent::tree::ExtentTree<'


def panics(c, r, key, care, seen, rule):
    """obligation: no panic recorded since `seen` is possible under care"""
    n = 0
    for e in r.I.events[seen:]:
        if e.kind == 'panic':
            n += 1
            c.equal('%s panic at %s' % (key, e.sp), And(e.pc, care), F, e.sp, rule=rule)
    return len(r.I.events)


def tree_of(c, kind):
    """an extent tree from a block of a file or from an inode; returns run, guard, tree value, byte reader, length graph, inode parts"""
    r, ino, ln, num, f = make_inode(c, 256)
    if kind == 'block':
        g = instance(c, r'ExtentTree::<std::vec::Vec<u8>>::from_block$|ExtentTree::<[^>]*>::from_block$', 2)
        n = LV(var(('blen',), 0, 65536))
        v = r.call(g, ino, bytes_arg(r, g, 1, Seq('abs', n, BLK, 'u8')))
        return r, T, v, W(BLK), n, g, ino
    g = instance(c, r'ExtentTree::<&.*\[u8\]>::from_inode$', 1)
    v = r.call(g, ino)
    some, fs = r.variant(v, 'Some')
    b = lambda off, k=4: u(40 + off, k, 'le', BUF) if not isinstance(off, tuple) else LV(load(BUF, add(const(40), off), k, 'le'))
    return r, some, fs[0], b, L(60), g, ino


def generic(c, name, pat):
    """instance of a method for owned bytes, or any"""
    fs = [g for g in c.prog.F if g.get('local') and g.get('body') and re.search(pat + r'.*::%s$' % name, g['full']) and '<S>' not in g['full']]
    fs += [g for g in c.prog.F if g.get('local') and g.get('body') and g.get('root') and re.search(pat + r'.*::%s$' % name, g['full'])]
    if not fs:
        raise Missing('no method %s of %s' % (name, pat))
    return fs[0]


@check('C18', floor=50)
def extents(c):
    c.parallel([('tree in a block', tree_check, 'block'), ('tree in an inode', tree_check, 'inode')])


def at(w, off, k):
    """k-byte field of an entry at a symbolic offset"""
    return w(off, k)


def tree_check(c, kind):
    r, some, tree, w, n, f, ino = tree_of(c, kind)
    K = 'tree in %s ' % kind
    sp = f['sp']
    if kind == 'inode':
        fl = u(32, 4, 'le', BUF)
        c.equal(K + 'present', some, And(bit(fl, 19), Not(bit(fl, 28))), sp, rule='an inode holds an extent tree iff it uses extents and has no inline data')
        raw = lambda off, k=4: w(off, k)
    else:
        raw = lambda off, k=4: u(off, k, 'le', BLK) if not isinstance(off, tuple) else LV(load(BLK, off, k, 'le'))
    big = gec(n, 12)
    magic, entries, mx, depth = raw(0, 2), raw(2, 2), raw(4, 2), raw(6, 2)
    e = variants_of(r, tree)
    care = And(some, big)
    lf, lfs = r.variant(e, 'Leaf')
    br, bfs = r.variant(e, 'Branch')
    c.equal(K + 'is a leaf', lf, eqc(depth, 0), sp, care, rule='a tree of depth 0 is a leaf, any other a branch')
    c.equal(K + 'is a branch', br, Not(eqc(depth, 0)), sp, care, rule='a tree of depth 0 is a leaf, any other a branch')
    ref = r.ref(tree)
    m = lambda nm: generic(c, nm, r'extent::tree::ExtentTree')
    for nm, s in (('entry_count', entries), ('depth', depth)):
        g = m(nm)
        c.equal(K + nm, r.call(g, ref), s, g['sp'], care, rule='field at its offset in struct ext4_extent_header')
    # validity
    seen = len(r.I.events)
    g = m('valid')
    ok = r.call(g, ref)
    seen = panics(c, r, K + 'valid()', And(some, T if kind == 'inode' else big), seen, 'deciding the validity of a tree cannot panic')
    rule = 'valid iff the magic matches, the entries fit their maximum and the maximum fits the space, and the checksum matches if there is one'
    csum = bit(W(SBK)(0x64), 10) if kind == 'block' else F
    size = add_(L(12), scl(mx, 12))
    fits = And(le_(entries, mx), ite(csum, le_(add_(size, L(4)), n), le_(size, n)))
    base = And(eqc(magic, 0xf30a), fits)
    c.equal(K + 'valid only with magic', And(ok, Not(eqc(magic, 0xf30a))), F, g['sp'], care, rule=rule)
    c.equal(K + 'valid only if entries fit', And(ok, Not(fits)), F, g['sp'], care, rule=rule)
    c.equal(K + 'valid without checksum', ok, base, g['sp'], And(care, Not(csum)), rule=rule)
    if kind == 'block':
        has = bit(W(SBK)(0x60), 13)
        for nm, sg, pre, sd in (('stored seed', has, [], W(SBK)(0x270)), ('seed from uuid', Not(has), [W(SBK)(0x68 + i, 1) for i in range(16)], L(ONES))):
            # the checksum that decides in this case
            pc = And(care, csum, sg, base)
            hit = checksum_decides(c, K + 'checksum decides (%s)' % nm, ok, LV(load(BLK, size.v, 4, 'le')), pc, g['sp'], rule)
            if hit is None:
                continue
            b = W(BUF)
            inum = LV(var(('ino',), 0, 2**32 - 1))
            crc_equal(c, K + 'checksum (%s)' % nm, hit, sd, pre + [sl(inum, 8 * i, 8) for i in range(4)] + [b(100 + i, 1) for i in range(4)] + [('r', r.I.seq_key(Seq('abs', n, BLK, 'u8')), const(0), size)], g['sp'], pc,
                      'crc32c of everything before the tail, continued from the seed of the inode')
    # entries of a valid tree
    pos = LV(var(('pos',), 0, 2**32))
    off = lambda d: add(const(12 + d), scale(pos.v, 12))
    for vn, fs, guard, fn, xs in (('Leaf', lfs, lf, 'extent_at', 'extent'), ('Branch', bfs, br, 'subtree_index_at', 'index')):
        g = generic(c, fn, r'extent::tree::Extent' + vn)
        care2 = And(care, guard, ok)
        for nm, sp_ in (('extent_count' if vn == 'Leaf' else 'subtree_count', entries), ('max_extents' if vn == 'Leaf' else 'max_subtrees', mx), ('generation', raw(8))):
            h = generic(c, nm, r'extent::tree::Extent' + vn)
            c.equal(K + vn + '.' + nm, r.call(h, r.ref(fs[0])), sp_, h['sp'], And(care, guard), rule='field at its offset in struct ext4_extent_header')
        v = r.call(g, r.ref(fs[0]), pos)
        seen = panics(c, r, K + fn, care2, seen, 'looking up an entry of a valid tree cannot panic')
        sg, es = r.variant(v, 'Some')
        c.equal(K + fn + ' present', sg, lt_(pos, entries), g['sp'], care2, rule='entry i exists iff i is below the recorded number of entries')
        care3 = And(care2, sg, lt_(pos, entries))
        x = r.ref(es[0])
        if vn == 'Leaf':
            ln = raw(off(4), 2)
            long_ = gec(ln, 0x8001)
            rows = dict(first_file_block_number=raw(off(0)), length=ite(long_, sub_(ln, L(0x8000)), ln), initialized=Not(long_), first_fs_block_number=cat(raw(off(8)), raw(off(6), 2), 32))
            pat = r'extent::extent::Extent<'
        else:
            rows = dict(block=raw(off(0)), leaf=cat(raw(off(4)), raw(off(8), 2), 32))
            pat = r'extent::index::ExtentIndex<'
        for nm, s in rows.items():
            a = generic(c, nm, pat.replace('<', '::<'))
            same(c, K + xs + '.' + nm, r, r.call(a, x), s, a['sp'], care3, 'field at its offset in struct ext4_extent / ext4_extent_idx')
        seen = panics(c, r, K + xs, care3, seen, 'reading an entry of a valid tree cannot panic')


def diff_under(a, b, pc):
    from core import diff_cubes
    d, _ = diff_cubes(a, b, pc, None)
    return d is F or infeasible(d)


def checksum_decides(c, key, ok, stored, pc, where, rule):
    """obligation: under pc, ok holds iff the stored checksum equals a computed one; returns the computed one"""
    crcs = crc_atoms(And(ok, pc))
    for a in crcs:
        cand = LV(av(a))
        if diff_under(ok, eq_(stored, cand), pc):
            c.add(key, 'proved', where, rule=rule)
            return cand
    if not crcs:
        c.equal(key, ok, eq_(stored, LV(var(('crc', CRC_ALG, const(0), ()), 0, ONES))), where, pc, rule=rule)
        return None
    if len(crcs) == 1:
        cand = LV(av(crcs[0]))
        c.equal(key, ok, eq_(stored, cand), where, pc, rule=rule)
        return cand
    c.add(key, 'undecided', where, '%d different checksums are computed' % len(crcs), rule=rule)
    return None

# ------------------------------------------------------------------ directories
DIRB = r'ext4::directory::block::Ext4DirectoryBlock'
DIRE = r'ext4::directory::dir_entry::DirEntry'
DIR_TYPES = {1: 'RegularFile', 2: 'Directory', 3: 'CharacterDevice', 4: 'BlockDevice', 5: 'Fifo', 6: 'Socket', 7: 'SymbolicLink'}


def directory_block(c, seq, seeded):
    """a directory block made of the bytes of seq; returns run, guard, reference to the block, checksum seed, anchor"""
    r = c.run()
    f = generic(c, 'from_block_and_checksum_seed', DIRB)
    t = r.I.ty(f['body']['locals'][2])
    if not re.search(r'option::Option', t.get('path') or ''):
        raise Unsupported('the checksum seed is not optional')
    names = [v['name'] for v in t['variants']]
    seed = LV(var(('seed',), 0, ONES))
    a = VEnum(t['id'], {names.index('Some'): (T, [seed])} if seeded else {names.index('None'): (T, [])})
    v = r.call(f, bytes_arg(r, f, 0, seq), a)
    tv = r.I.expand(v)
    ok, fs = r.variant(v, 'Some' if any(x['name'] == 'Some' for x in r.I.ty(tv.ty)['variants']) else 'Ok')
    return r, ok, r.ref(fs[0]) if fs else None, seed, f


@check('C19', floor=40)
def directories(c):
    jobs = [('entries of a block with%s checksum' % ('' if s else 'out'), dir_entries, s) for s in (True, False)]
    jobs += [('names', dir_names), ('file types', dir_types)]
    c.parallel(jobs)


def dir_entries(c, seeded):
    n = LV(var(('blen',), 12, 65536))
    r, ok, ref, seed, f = directory_block(c, Seq('abs', n, BLK, 'u8'), seeded)
    K = 'block with checksum ' if seeded else 'block '
    w = W(BLK)

    def raw(off, k):
        return LV(load(BLK, off if isinstance(off, tuple) else const(off), k, 'le'))
    sp = f['sp']
    seen = panics(c, r, K + 'opening', T, 0, 'opening a directory block cannot panic')
    if seeded:
        rule = 'a block ends with a tail (0, 12, 0, 0xde, checksum) whose checksum is the crc32c of everything before it, continued from the seed'
        o = sub(n.v, const(12))
        fields = And(eqc(raw(o, 4), 0), eqc(raw(add(o, const(4)), 2), 12), eqc(raw(add(o, const(6)), 1), 0), eqc(raw(add(o, const(7)), 1), 0xde))
        c.equal(K + 'accepted only with a tail', And(ok, Not(fields)), F, sp, rule=rule)
        hit = checksum_decides(c, K + 'checksum decides', ok, raw(add(o, const(8)), 4), fields, sp, rule)
        if hit is not None:
            crc_equal(c, K + 'checksum', hit, seed, [('r', r.I.seq_key(Seq('abs', n, BLK, 'u8')), const(0), LV(o))], sp, fields, 'crc32c of everything before the tail')
        usable = o
    else:
        c.equal(K + 'accepted', ok, T, sp, rule='without checksums every block is accepted')
        usable = n.v
    if ref is None:
        return
    g = generic(c, 'read_next_entry', DIRB)
    pos, care = const(0), ok
    for k in range(3):
        v = r.call(g, ref)
        seen = panics(c, r, K + 'entry %d' % k, care, seen, 'reading a directory entry cannot panic')
        some, fs = r.variant(v, 'Some')
        rl, nl = raw(add(pos, const(4)), 2), raw(add(pos, const(6)), 1)
        rest = LV(sub(usable, pos))
        want = And(gec(rest, 8), le_(rl, rest), le_(add_(nl, L(8)), rl))
        c.equal(K + 'entry %d present' % k, some, want, g['sp'], care, rule='an entry follows iff its header and the length it records, itself at least that of header and name, fit the rest of the block')
        care = And(care, some, want)
        if not fs or care is F or infeasible(care, 20000):
            break
        e = r.ref(fs[0])
        rows = dict(inode=raw(pos, 4), file_type=enum_table(raw(add(pos, const(7)), 1), DIR_TYPES))
        for nm, s in rows.items():
            a = generic(c, nm, DIRE)
            same(c, K + 'entry %d %s' % (k, nm), r, r.call(a, e), s, a['sp'], care, 'field at its offset in struct ext4_dir_entry_2')
        seen = panics(c, r, K + 'entry %d' % k, care, seen, 'decoding a directory entry cannot panic')
        pos = add(pos, rl.v)
    # the entry after one that does not fit is absent again: nothing is returned past the end of the entries


def dir_names(c):
    """names of entries: record and name lengths concrete, the bytes of the names arbitrary"""
    for lens in ([(12, 3), (16, 5)], [(12, 4), (24, 9)], [(8, 0), (12, 1)], [(20, 3), (9, 1)]):
        q = Seq('abs', L(4096), BLK, 'u8')
        o = 0
        I = c.run().I
        for rl, nl in lens:
            q = I.seq_write(q, const(o + 4), const(3), Seq('const', L(3), [L(rl & 255), L(rl >> 8), L(nl)]))
            o += rl
        r, ok, ref, seed, f = directory_block(c, q, False)
        g = generic(c, 'read_next_entry', DIRB)
        a = generic(c, 'name', DIRE)
        o = 0
        seen = len(r.I.events)
        for k, (rl, nl) in enumerate(lens):
            v = r.call(g, ref)
            some, fs = r.variant(v, 'Some')
            K = 'name of entry %d, record lengths %s' % (k, lens)
            c.equal(K + ' present', some, T, g['sp'], ok, rule='an entry that fits is returned')
            if not fs:
                break
            x = r.call(a, r.ref(fs[0]))
            seen = panics(c, r, K, ok, seen, 'decoding a name cannot panic')
            same(c, K, r, x, nul_string(W(BLK), o + 8, nl), a['sp'], And(ok, some), 'the name is as long as recorded, up to a NUL')
            o += rl


def dir_types(c):
    """file types of directory entries and of inodes correspond"""
    inl = c.type(r'directory::file_type::Ext4DirectoryInlineFileType$')
    ft = c.type(r'inode::file_type::FileType$')
    rule = 'file types of directory entries and of inodes correspond'
    for src, dst, tab in ((inl, ft, DIR_TYPES), (ft, inl, FILE_TYPES)):
        f = [g for g in c.prog.F if g.get('local') and g.get('body') and g.get('name') == 'from' and g['body']['argc'] == 1 and g['body']['locals'][1] == src['id'] and g['body']['locals'][0] == dst['id']]
        if not f:
            c.add('conversion to ' + dst['name'], 'undecided', '', 'no conversion', rule=rule)
            continue
        f = f[0]
        sn, dn = [v['name'] for v in src['variants']], [v['name'] for v in dst['variants']]
        for nm in tab.values():
            if nm not in sn or nm not in dn:
                continue
            r = c.run()
            e = variants_of(r, r.call(f, VEnum(src['id'], {sn.index(nm): (T, [])})))
            same(c, '%s to %s' % (nm, dst['name'].split('::')[-1]), r, e, ('enum', {nm: (T, None)}), f['sp'], T, rule)
