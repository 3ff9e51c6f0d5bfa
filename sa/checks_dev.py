"""Checks of the block devices and of the byte stream over a block device."""
import re
from models2 import io_result
from checks_fs import *
from checks_geo import refill_newtype

FILE, NATIVE, MEMORY = r'file::FileBlockDevice$', r'native::NativeBlockDevice$', r'in_memory::InMemoryBlockDevice$'
BDT = r'block_device::BlockDevice$'
READER = r'reader::BlockDeviceReader<'
GETSIZE64, PBSZGET = 0x80081272, 0x127b
KINDS = ('metadata', 'ioctl', 'seek', 'read', 'read1', 'open', 'try_clone', 'read_block', 'tell')


def wrap(r, f, i, x):
    """scalar x as the i-th argument of f, through however many newtypes"""
    return refill_newtype(r, r.sym(('arg', i), f['body']['locals'][i + 1]), x)


class Dev:
    """an open device over an arbitrary medium, with its specification"""

    def __init__(self, c, kind):
        self.c, self.kind = c, kind
        self.r = r = c.run()
        self.pat = {'file': FILE, 'native': NATIVE, 'memory': MEMORY}[kind]
        f = c.method(self.pat, 'new' if kind == 'memory' else 'from_file')
        self.size = LV(var(('devlen', DEV), 0, 2**63 - 1))
        self.bs = LV(var(('ioctl', PBSZGET, DEV) if kind == 'native' else ('bs',), 1, 2**32 - 1))
        if kind == 'memory':
            # the contents are handed over as anything that converts to a byte vector
            mem = r.ref(Seq('abs', self.size, ('disk', DEV), 'u8'))
            r.I.models = dict(r.I.models)
            r.I.models['std::convert::Into::into'] = lambda cc: mem
            v = r.call(f, VOpq(('contents',), r.arg_ty(f, 0)['id']), wrap(r, f, 1, self.bs))
        else:
            fd = VDev(r.arg_ty(f, 0)['id'], DEV, LV(var(('pos0',), 0, 2**63 - 1)))
            v = r.call(f, *([fd] + ([wrap(r, f, 1, self.bs)] if kind == 'file' else [])))
        self.p = r.ref(v)
        self.care = gec(self.bs, 1)
        self.seen = len(r.I.events)

    def f(self, name, trait=BDT):
        return self.c.method(self.pat, name, trait)

    def queries(self):
        """the queries made of the operating system (which may fail) since the last call"""
        return And(*[Or(Not(e.pc), e.data[-1]) if e.kind == 'metadata' else Or(Not(e.pc), e.data[2]) for e in self.r.I.events[self.seen:] if e.kind in ('metadata', 'ioctl')])

    def call(self, name, *args, trait=BDT):
        self.seen = len(self.r.I.events)
        f = self.f(name, trait)
        return f, self.r.call(f, self.p, *args)

    def ops(self):
        return [e for e in self.r.I.events[self.seen:] if e.kind in ('seek', 'read', 'read1', 'tell')]


def dev_size(c, kind):
    d = Dev(c, kind)
    r = d.r
    K = kind + ': '
    f, v = d.call('block_size')
    ok, x = r.variant(v, 'Ok')
    c.equal(K + 'block size known', ok, d.queries(), f['sp'], d.care, rule='the block size is known unless the system refuses to tell it')
    same(c, K + 'block size', r, x[0], d.bs, f['sp'], And(d.care, ok), 'the block size is the one given, or the one the system reports for a device')
    panics(c, r, K + 'block size', d.care, d.seen, 'asking for the block size cannot panic')
    f, v = d.call('block_count')
    ok, x = r.variant(v, 'Ok')
    c.equal(K + 'block count known', ok, d.queries(), f['sp'], d.care, rule='the number of blocks is known unless the system refuses to tell it')
    same(c, K + 'block count', r, x[0], divg(d.size, d.bs), f['sp'], And(d.care, ok), 'the number of blocks is that of the whole blocks of the medium')
    panics(c, r, K + 'block count', d.care, d.seen, 'asking for the number of blocks cannot panic')


def dev_read(c, kind):
    d = Dev(c, kind)
    r = d.r
    K = kind + ': '
    n = LV(var(('buflen',), 0, 2**40))
    b = buffer(r, n, ('buf', 0))
    bn = LV(var(('bn',), 0, 2**64 - 1))
    f, v = d.call('read_block', wrap(r, d.f('read_block'), 1, bn), b)
    sp = f['sp']
    ok, x = r.variant(v, 'Ok')
    at = mulg(bn, d.bs)
    fits = And(le_(d.bs, n), lec(at, 2**64 - 1))
    panics(c, r, K + 'read', d.care, d.seen, 'reading a block cannot panic')
    care = And(d.care, d.queries())
    if kind == 'memory':
        whole = le_(add_(at, d.bs), d.size)
        c.equal(K + 'read', ok, And(fits, whole), sp, care, rule='a block is read exactly when the buffer can hold it and the medium has all of it')
    else:
        ops = d.ops()
        if [e.kind for e in ops] != ['seek', 'read']:
            c.add(K + 'operations', 'undecided', sp, 'operations %s' % [e.kind for e in ops])
            ops_ok = all_ok(ops)
            c.equal(K + 'read', And(ok, ops_ok), And(fits, ops_ok), sp, care, rule='a block is read exactly when the buffer can hold it and the medium has all of it')
            care = And(care, ops_ok)
        else:
            se, rd = ops
            c.equal(K + 'position', se.data[1], at, sp, And(care, fits, se.pc), rule='block n is at n times the block size')
            c.equal(K + 'position (read)', rd.data[1], at, sp, And(care, fits, se.data[2], rd.pc), rule='block n is at n times the block size')
            c.equal(K + 'length', rd.data[2], d.bs, sp, And(care, fits, se.data[2], rd.pc), rule='exactly one block is read')
            c.equal(K + 'read', ok, And(fits, se.data[2], rd.data[3]), sp, care, rule='a block is read exactly when the buffer can hold it and the medium has all of it')
    c.equal(K + 'nothing read into a short buffer', ok, F, sp, And(d.care, Not(le_(d.bs, n))), rule='a buffer must hold a block')
    good = And(care, ok)
    if not x:
        return
    same(c, K + 'bytes', r, x[0], d.bs, sp, good, 'a whole block is returned')
    i = LV(var(('i',), 0, 2**40))
    el = r.get(leaf(Ptr(b.v.alloc, (('i', i.v),))))
    inside = Not(le_(d.bs, i))
    c.equal(K + 'data', el, map2(lambda a, j: load(('disk', DEV) if kind == 'memory' else DISK, add(a, j), 1, 'le'), at, i), sp, And(good, inside), rule='the block is that of the medium at n times the block size')
    c.equal(K + 'rest of the buffer', el, LV(load(('buf', 0), i.v, 1, 'le')), sp, And(good, le_(d.bs, i)), rule='the buffer beyond the block is left alone')


def dev_clone(c, kind):
    d = Dev(c, kind)
    r = d.r
    f, v = d.call('try_clone')
    K = kind + ' duplicate: '
    ok, x = r.variant(v, 'Ok')
    want = And(*[Or(Not(e.pc), e.data[1]) for e in r.I.events[d.seen:] if e.kind == 'try_clone'])
    c.equal(K + 'succeeds', ok, want, f['sp'], d.care, rule='a device can be duplicated unless the system refuses')
    panics(c, r, K, d.care, d.seen, 'duplicating a device cannot panic')
    if not x:
        return
    r.assume(And(ok, d.care))
    d.p = r.ref(x[0])
    f, v = d.call('block_size')
    g, x = r.variant(v, 'Ok')
    same(c, K + 'block size', r, x[0], d.bs, f['sp'], And(d.care, g, ok), 'a duplicate has the same blocks')
    b = buffer(r, 4096, ('buf', 1))
    bn = LV(var(('bn',), 0, 2**40))
    f, v = d.call('read_block', wrap(r, d.f('read_block'), 1, bn), b)
    g, x = r.variant(v, 'Ok')
    i = LV(var(('i',), 0, 4095))
    el = r.get(leaf(Ptr(b.v.alloc, (('i', i.v),))))
    c.equal(K + 'data', el, map2(lambda a, j: load(('disk', DEV) if kind == 'memory' else DISK, add(a, j), 1, 'le'), mulg(bn, d.bs), i), f['sp'], And(ok, d.care, g, Not(le_(d.bs, i))), rule='a duplicate reads the same medium')


def dev_open(c, kind):
    r = c.run()
    pat = FILE if kind == 'file' else NATIVE
    f = c.method(pat, 'open_path')
    bs = LV(var(('bs',), 1, 2**32 - 1))
    path = r.sym(('path',), f['body']['locals'][1])
    v = r.call(f, path, *([wrap(r, f, 1, bs)] if kind == 'file' else []))
    ev = [e for e in r.I.events if e.kind == 'open']
    ok, x = r.variant(v, 'Ok')
    K = kind + ' opened: '
    if len(ev) != 1:
        c.add(K + 'operations', 'undecided', f['sp'], '%d files opened' % len(ev))
        return
    c.equal(K + 'succeeds', ok, ev[0].data[1], f['sp'], rule='a device is opened exactly when its file can be')
    panics(c, r, K, T, 0, 'opening a device cannot panic')
    c.add(K + 'path', 'proved' if ev[0].data[0] == ('file', r.I.vkey(path, {})) else 'undecided', f['sp'], 'opens %r' % (ev[0].data[0],), rule='the file opened is the one named')
    r.assume(ok)
    p = r.ref(x[0])
    g = c.method(pat, 'read_block', BDT)
    if kind == 'native':
        bs = LV(var(('ioctl', PBSZGET, ev[0].data[0]), 1, 2**32 - 1))
    b = buffer(r, 4096, ('buf', 1))
    bn = LV(var(('bn',), 0, 2**40))
    v = r.call(g, p, wrap(r, g, 1, bn), b)
    ok2, x = r.variant(v, 'Ok')
    i = LV(var(('i',), 0, 4095))
    el = r.get(leaf(Ptr(b.v.alloc, (('i', i.v),))))
    c.equal(K + 'data', el, map2(lambda a, j: load(('disk', ev[0].data[0]), add(a, j), 1, 'le'), mulg(bn, bs), i), g['sp'], And(ok, ok2, gec(bs, 1), Not(le_(bs, i))), rule='the blocks are those of the file opened')


def named_open(c):
    """opening a device of an array by name"""
    r = c.run()
    f = c.method(r'md::device::device::MdDevice<', 'open_path')
    path = r.sym(('path',), f['body']['locals'][1])
    made = []

    def from_device(cx):
        cx.I.event('made', cx.s.pc, (cx.I.vkey(cx.args[0], cx.s.st),), cx.t['sp'])
        made.append((cx.args[0], cx.args[1], dict(cx.s.st)))
        return io_result(cx, VOpq(('md device', len(made)), cx.destty['variants'][0]['fields'][0][1]), 'probe', (len(made),))[1]
    hit = {g['path'] for g in c.prog.F if g.get('local') and re.search(r'MdDevice::<[^>]*>::from_block_device$', g['path'])}
    if not hit:
        raise Missing('no function from_block_device')
    r.I.models = dict(r.I.models)
    for h in hit:
        r.I.models[h] = from_device
    v = r.call(f, path)
    K = 'named device opened: '
    ev = [e for e in r.I.events if e.kind == 'open']
    mine = r.I.vkey(path, {})

    def plain(k):
        while isinstance(k, tuple) and len(k) == 2 and k[0] in ('*', '&', 'asref') and k != mine:
            k = k[1]
        return k == mine
    rule = 'the file opened is the one named, and no other'
    if not ev or not plain(ev[0].data[0][1]) or len(made) != 1:
        c.add(K + 'operations', 'undecided', f['sp'], '%d files opened (%s), %d devices made' % (len(ev), [e.data[0] for e in ev], len(made)), rule=rule)
        return
    c.equal(K + 'file', ev[0].pc, T, f['sp'], rule=rule)
    for e in ev[1:]:
        if plain(e.data[0][1]) or re.search('canonical|absolute', repr(e.data[0])):
            c.add(K + 'again', 'undecided', e.sp or f['sp'], 'the file is opened again', rule=rule)
        else:
            c.equal(K + 'another file', e.pc, F, f['sp'], rule=rule)
    ok, x = r.variant(v, 'Ok')
    pr = [e for e in r.I.events if e.kind == 'probe']
    c.equal(K + 'succeeds', ok, And(ev[0].data[1], *[e.data[1] for e in pr]), f['sp'], rule='a device is opened exactly when its file can be and can be examined')
    c.equal(K + 'examined', Or(*[e.pc for e in pr]), ev[0].data[1], f['sp'], rule='a device is examined exactly when its file can be opened')
    panics(c, r, K, T, 0, 'opening a device cannot panic')
    u = made[0][1]
    some, y = r.variant(u, 'Some')
    c.equal(K + 'named', some, T, f['sp'], And(*[e.pc for e in pr]), rule='a device is known by the name it was opened by')
    y = r.deep(y[0]) if hasattr(r, 'deep') else y[0]
    for _ in range(4):
        if isinstance(y, Leaf) and isinstance(y.v, Ptr):
            y = r.I.read_ptr(y.v, r.s)
    c.add(K + 'name', 'proved' if plain(r.I.vkey(y, {})) else 'undecided', f['sp'], 'known as %r' % (r.I.vkey(y, {}),), rule='a device is known by the name it was opened by')


@check('C24', floor=30)
def devices(c):
    c.section('named device', named_open, c)
    for kind in ('file', 'native', 'memory'):
        for fn in (dev_size, dev_read, dev_clone):
            c.section('%s %s' % (kind, fn.__name__), fn, c, kind)
        if kind != 'memory':
            c.section('%s open' % kind, dev_open, c, kind)


# ------------------------------------------------------------------ streams over devices
BIG = 2**64 - 1


def sized(bs):
    return ('any size', LV(var(('bs',), 1, 2**32 - 1))) if bs is None else (str(bs), L(bs))


def seekfrom(r, f, how, x):
    t = r.I.ty(f['body']['locals'][2])
    for i, v in enumerate(t['variants']):
        if v['name'] == how:
            return VEnum(t['id'], {i: (T, [x])})
    raise Missing('SeekFrom::' + how)


class Stream:
    """a stream over an arbitrary block device, at an arbitrary position"""

    def __init__(self, c, bs, pos=None):
        self.c = c
        self.r = r = c.run()
        r.I.reader_contract = False
        self.n = LV(var(('blocks',), 0, BIG))
        self.name, self.bs = sized(bs)
        bs = self.bs
        r.I.bd_fixed = dict(block_size=bs, block_count=self.n)
        f = c.method(READER, 'new')
        self.key = ('dev', 0)
        self.p = r.ref(r.call(f, VOpq(self.key, r.arg_ty(f, 0)['id'])))
        self.sk = c.method(READER, 'seek', r'io::Seek$')
        self.rd = c.method(READER, 'read', r'io::Read$')
        self.pos = pos or LV(var(('p',), 0, BIG))
        ok, res = self.tell()
        c.equal('blocks of %s: known' % self.name, ok, T, self.sk['sp'], rule='a stream starts at the first byte of its device')
        c.equal('blocks of %s: start' % self.name, res, L(0), self.sk['sp'], ok, rule='a stream starts at the first byte of its device')
        ok, res = self.seek('Start', self.pos)
        c.equal('blocks of %s: seek' % self.name, ok, T, self.sk['sp'], rule='any position can be sought')
        c.equal('blocks of %s: seek result' % self.name, res, self.pos, self.sk['sp'], ok, rule='seeking returns the new position')
        r.assume(ok)
        self.care = ok

    def seek(self, how, x):
        v = self.r.call(self.sk, self.p, seekfrom(self.r, self.sk, how, x))
        ok, res = self.r.variant(v, 'Ok')
        return ok, res[0] if res else None

    def tell(self):
        return self.seek('Current', L(0))


def stream_seek(c, bs, how):
    s = Stream(c, bs)
    bs = s.bs
    r = s.r
    K = 'blocks of %s, seek from %s: ' % (s.name, how)
    sp = s.sk['sp']
    seen = len(r.I.events)
    if how == 'Start':
        x = LV(var(('q',), 0, BIG))
        want, can = x, T
    else:
        x = LV(var(('q',), -2**63, 2**63 - 1))
        base = s.pos if how == 'Current' else mulg(s.n, bs)
        want = add_(base, x)
        can = And(gec(want, 0), lec(want, BIG))
        if how == 'End':
            can = And(can, lec(base, BIG))
    ok, res = s.seek(how, x)
    panics(c, r, K, s.care, seen, 'seeking cannot panic')
    c.equal(K + 'succeeds', ok, can, sp, s.care, rule='seeking succeeds exactly when the new position is not negative and can be expressed')
    if res is None:
        return
    c.equal(K + 'result', res, want, sp, And(s.care, ok), rule='seeking returns the new position: counted from the start, the end of the last block, or the current position')
    r.assume(And(s.care, ok))
    ok2, now = s.tell()
    c.equal(K + 'position', now, want, sp, And(s.care, ok, ok2), rule='what follows starts at the position returned')
    if s.name == 'any size':
        # settled for the sizes above; needs multiplication by an unknown
        return
    c.equal(K + 'position known', ok2, T, sp, And(s.care, ok), rule='what follows starts at the position returned')


def stream_read(c, bs, offset=None, sizes=(None,), fails=False):
    """reads of buffers of the given sizes (None: any), from an offset in an arbitrary block (None: any position);
    a pair (how, by) in place of a size seeks there between reads"""
    s = Stream(c, bs, None if offset is None else add_(scl(LV(var(('k',), 0, 2**50)), bs), L(offset)))
    bs = s.bs
    r = s.r
    sp = s.rd['sp']
    pos = s.pos
    care = And(s.care, lec(pos, 2**63))
    for k, n in enumerate(sizes):
        r.assume(care)
        K = 'blocks of %s%s, read %d: ' % (s.name, '' if offset is None else ' from %d by %s' % (offset, sizes), k)
        if isinstance(n, tuple):
            how, x = n
            x = LV(var(('q', k), 0, 2**62)) if x is None else L(x)
            pos = add_(pos, x) if how == 'Current' else x
            ok, res = s.seek(how, x)
            can = And(gec(pos, 0), lec(pos, 2**63))
            c.equal(K + 'seek', ok, T, sp, And(care, can), rule='seeking succeeds exactly when the new position is not negative and can be expressed')
            care = And(care, can, ok)
            continue
        n = LV(var(('buflen', k), 0, 2**40)) if n is None else L(n)
        b = buffer(r, n, ('buf', k))
        seen = len(r.I.events)
        v = r.call(s.rd, s.p, b)
        ok, res = r.variant(v, 'Ok')
        res = res[0] if res else None
        panics(c, r, K, care, seen, 'reading cannot panic')
        rb = [e for e in r.I.events[seen:] if e.kind == 'read_block' and And(e.pc, care) is not F]
        block, off = divg(pos, bs), remg(pos, bs)
        inside = Not(le_(s.n, block))
        i = LV(var(('i',), 0, 2**40))
        el = r.get(leaf(Ptr(b.v.alloc, (('i', i.v),))))
        old = LV(load(('buf', k), i.v, 1, 'le'))
        c.equal(K + 'end', ok, T, sp, And(care, Not(inside)), rule='the end of the device is no error')
        if res is None:
            return
        c.equal(K + 'end (bytes)', res, L(0), sp, And(care, ok, Not(inside)), rule='nothing is read past the last block')
        c.equal(K + 'end (data)', el, old, sp, And(care, ok, Not(inside), Not(le_(n, i))), rule='nothing is read past the last block')
        some = And(care, inside, gec(n, 1))
        if len(rb) != 1:
            # blocks are kept from one read to the next: what is read still has to be the device's
            c.add(K + 'operations', 'undecided', sp, '%d blocks read' % len(rb))
        else:
            e = rb[0]
            c.equal(K + 'block number', e.data[1], block, sp, And(some, e.pc), rule='a read takes the block that holds the position')
            c.equal(K + 'block length', e.data[2], bs, sp, And(some, e.pc), rule='whole blocks are read from the device')
        c.equal(K + 'succeeds', ok, And(*[Or(Not(e.pc), e.data[3]) for e in rb]), sp, some, rule='reading fails exactly when the device does')
        good = And(care, inside, ok)
        rest = sub_(bs, off)
        got = ite(le_(n, rest), n, rest)
        c.equal(K + 'bytes', res, got, sp, good, rule='a read returns the rest of the block, as far as the buffer holds it')
        c.equal(K + 'data', el, map2(lambda blk, j: load(('block', s.key, blk), j, 1, 'le'), block, add_(off, i)), sp, And(good, Not(le_(got, i))), rule='the bytes are those of the device from the current position on')
        c.equal(K + 'rest of the buffer', el, old, sp, And(good, le_(got, i), Not(le_(n, i))), rule='the buffer beyond what was read is left alone')
        if fails:
            ok2, now = s.tell()
            c.equal(K + 'position if nothing was read', now if now is not None else L(-1), pos, sp, And(care, ok2, Not(And(ok, inside))), rule='at the end, and where the device fails, the position stays')
            return
        care = good
        pos = add_(pos, got)
        r.assume(care)
        ok2, now = s.tell()
        if now is None:
            return
        c.equal(K + 'position', now, pos, sp, And(care, ok2), rule='reading advances the position by what was read')


def stream_device(c):
    """a stream is still a block device, and can be duplicated"""
    s = Stream(c, None)
    r = s.r
    K = 'stream as a device: '
    f = c.method(READER, 'try_clone', BDT)
    seen = len(r.I.events)
    v = r.call(f, s.p)
    ok, x = r.variant(v, 'Ok')
    ev = [e for e in r.I.events[seen:] if e.kind == 'try_clone']
    if len(ev) != 1:
        c.add(K + 'operations', 'undecided', f['sp'], '%d devices duplicated' % len(ev))
        return
    c.equal(K + 'duplicated', ok, ev[0].data[1], f['sp'], s.care, rule='a stream can be duplicated exactly when its device can')
    panics(c, r, K, s.care, seen, 'duplicating a stream cannot panic')
    if x:
        s.care = care = And(s.care, ok)
        r.assume(care)
        p, s.p = s.p, r.ref(x[0])
        ok2, now = s.tell()
        c.equal(K + 'position of the duplicate', now, s.pos, f['sp'], And(care, ok2), rule='a duplicate starts at the position of the stream')
        b = buffer(r, 64, ('buf', 9))
        v = r.call(s.rd, s.p, b)
        g, res = r.variant(v, 'Ok')
        inside = Not(le_(s.n, divg(s.pos, s.bs)))
        i = LV(var(('i',), 0, 63))
        el = r.get(leaf(Ptr(b.v.alloc, (('i', i.v),))))
        if res:
            c.equal(K + 'data of the duplicate', el, map2(lambda blk, j: load(('block', s.key, blk), j, 1, 'le'), divg(s.pos, s.bs), add_(remg(s.pos, s.bs), i)), f['sp'], And(care, ok2, g, inside, Not(le_(res[0], i)), Not(le_(sub_(s.bs, remg(s.pos, s.bs)), i))), rule='a duplicate reads the same device')
        s.p = p
        ok2, now = s.tell()
        c.equal(K + 'position of the original', now, s.pos, f['sp'], And(care, ok2), rule='reading a duplicate leaves the stream where it is')
    bn = LV(var(('bn',), 0, BIG))
    n = LV(var(('buflen',), 0, 2**40))
    b = buffer(r, n, ('buf', 0))
    f = c.method(READER, 'read_block', BDT)
    seen = len(r.I.events)
    v = r.call(f, s.p, wrap(r, f, 1, bn), b)
    ok, x = r.variant(v, 'Ok')
    ev = [e for e in r.I.events[seen:] if e.kind == 'read_block']
    if len(ev) != 1:
        c.add(K + 'operations', 'undecided', f['sp'], '%d blocks read' % len(ev))
        return
    c.equal(K + 'block read', ok, And(ev[0].pc, ev[0].data[3]), f['sp'], s.care, rule='reading a block of a stream reads it of its device')
    c.equal(K + 'block number', ev[0].data[1], bn, f['sp'], And(s.care, ev[0].pc), rule='reading a block of a stream reads it of its device')
    c.equal(K + 'block length', ev[0].data[2], n, f['sp'], And(s.care, ev[0].pc), rule='reading a block of a stream reads it of its device')
    ok2, now = s.tell()
    c.equal(K + 'position', now, s.pos, f['sp'], And(s.care, ok2), rule='reading a block leaves the position of the stream alone')
    for nm, want in (('block_size', s.bs), ('block_count', s.n)):
        f = c.method(READER, nm, BDT)
        v = r.call(f, s.p)
        ok, x = r.variant(v, 'Ok')
        c.equal(K + nm + ' known', ok, T, f['sp'], s.care, rule='a stream has the blocks of its device')
        if x:
            same(c, K + nm, r, x[0], want, f['sp'], And(s.care, ok), 'a stream has the blocks of its device')


def medium_seek(c, kind, how):
    """seeking within a device read as a file"""
    d = Dev(c, kind)
    r = d.r
    K = '%s, seek from %s: ' % (kind, how)
    f = d.f('seek', r'io::Seek$')
    if kind == 'memory':
        pos = LV(var(('p',), 0, 2**63 - 1))
        f, v = d.call('seek', seekfrom(r, f, 'Start', pos), trait=r'io::Seek$')
        ok, res = r.variant(v, 'Ok')
        d.care = And(d.care, le_(pos, d.size), ok)
        r.assume(d.care)
    else:
        pos = LV(var(('pos0',), 0, 2**63 - 1))
    if how == 'Start':
        x = LV(var(('q',), 0, BIG))
        want = x
    else:
        x = LV(var(('q',), -2**63, 2**63 - 1))
        want = add_(d.size if how == 'End' else pos, x)
    f, v = d.call('seek', seekfrom(r, f, how, x), trait=r'io::Seek$')
    sp = f['sp']
    care = And(d.care, gec(want, 0), le_(want, d.size))
    panics(c, r, K, care, d.seen, 'seeking cannot panic')
    ok, res = r.variant(v, 'Ok')
    if kind == 'memory':
        c.equal(K + 'succeeds', ok, T, sp, care, rule='positions within the medium can be sought')
    else:
        ops = d.ops()
        if [e.kind for e in ops] != ['seek']:
            c.add(K + 'operations', 'undecided', sp, 'operations %s' % [e.kind for e in ops])
            return
        c.equal(K + 'position', ops[0].data[1], want, sp, care, rule='the file is positioned where asked')
        c.equal(K + 'succeeds', ok, ops[0].data[2], sp, care, rule='seeking succeeds exactly when the file can be positioned')
    if res:
        c.equal(K + 'result', res[0], want, sp, And(care, ok), rule='seeking returns the new position')


def medium_read(c, kind):
    d = Dev(c, kind)
    r = d.r
    K = '%s, read: ' % kind
    if kind == 'memory':
        pos = LV(var(('p',), 0, 2**63 - 1))
        f = d.f('seek', r'io::Seek$')
        f, v = d.call('seek', seekfrom(r, f, 'Start', pos), trait=r'io::Seek$')
        ok, res = r.variant(v, 'Ok')
        d.care = And(d.care, le_(pos, d.size), ok)
        r.assume(d.care)
    n = LV(var(('buflen', 0), 0, 2**40))
    for k in range(2 if kind == 'memory' else 1):
        b = buffer(r, n, ('buf', k))
        f, v = d.call('read', b, trait=r'io::Read$')
        sp = f['sp']
        panics(c, r, K, d.care, d.seen, 'reading cannot panic')
        ok, res = r.variant(v, 'Ok')
        if kind != 'memory':
            ops = d.ops()
            if [e.kind for e in ops] != ['read1']:
                c.add(K + 'operations', 'undecided', sp, 'operations %s' % [e.kind for e in ops])
                return
            e = ops[0]
            c.equal(K + 'read from', e.data[1], LV(var(('pos0',), 0, 2**63 - 1)), sp, And(d.care, e.pc), rule='reading goes on where the file is')
            c.equal(K + 'length', e.data[2], n, sp, And(d.care, e.pc), rule='the whole buffer is offered')
            c.equal(K + 'succeeds', ok, And(e.pc, e.data[3]), sp, d.care, rule='reading fails exactly when the file does')
            if res:
                c.equal(K + 'bytes', res[0], LV(e.data[4]), sp, And(d.care, ok), rule='what was read is reported')
            return
        c.equal(K + 'succeeds', ok, T, sp, d.care, rule='memory can be read')
        if not res:
            return
        rest = sub_(d.size, pos)
        got = ite(le_(n, rest), n, rest)
        c.equal(K + 'bytes', res[0], got, sp, And(d.care, ok), rule='a read returns what is left, as far as the buffer holds it')
        i = LV(var(('i',), 0, 2**40))
        el = r.get(leaf(Ptr(b.v.alloc, (('i', i.v),))))
        c.equal(K + 'data', el, map2(lambda a, j: load(('disk', DEV), add(a, j), 1, 'le'), pos, i), sp, And(d.care, ok, Not(le_(got, i))), rule='the bytes are those of the medium from the current position on')
        c.equal(K + 'rest of the buffer', el, LV(load(('buf', k), i.v, 1, 'le')), sp, And(d.care, ok, le_(got, i), Not(le_(n, i))), rule='the buffer beyond what was read is left alone')
        pos = add_(pos, got)
        K = '%s, next read: ' % kind


@check('C25', floor=240)
def streams(c):
    jobs = [('stream as a device', stream_device)]
    for bs in (512, 1000, 4096, 2**32 - 1, None):
        for how in ('Start', 'End', 'Current'):
            jobs.append(('seek %s %s' % (bs, how), stream_seek, bs, how))
        jobs.append(('read %s' % bs, stream_read, bs))
        jobs.append(('failing read %s' % bs, stream_read, bs, None, (None,), True))
    jobs += [('read %s from %d by %s' % (bs, o, n), stream_read, bs, o, n) for bs, o, n in ((512, 0, (512, 512)), (512, 0, (600, 600)), (512, 500, (12, 1)), (512, 500, (11, 1, 1)), (4096, 1, (10, 4086)), (1000, 999, (2, 1000, 3)), (512, 10, (20, ('Current', 512), 20)), (512, 10, (20, ('Current', -25), 20)), (512, 100, (412, ('Current', -1), 2)), (1000, 10, (20, ('Start', 3010), 20)), (4096, 0, (16, ('Start', 0), 16)))]
    for kind in ('file', 'native', 'memory'):
        jobs += [('%s seek %s' % (kind, how), medium_seek, kind, how) for how in ('Start', 'End', 'Current')]
        jobs.append(('%s read' % kind, medium_read, kind))
    c.parallel(jobs)
