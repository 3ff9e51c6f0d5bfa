"""Whole-program queries: what the program may do to the devices it examines."""
from checks_dev import *
from models import M

# system interfaces that change files, devices or other processes
FS_WRITE = re.compile(r'^(?:std::fs::(?:write|remove_\w+|rename|copy|hard_link|create_dir\w*|set_permissions\w*|soft_link|set_times\w*)'
                      r'|std::fs::File::(?:create\w*|set_len|set_permissions|set_times|set_modified)'
                      r'|std::fs::DirBuilder::create|std::os::unix::fs::(?:symlink|chown|lchown|fchown|mkfifo|chroot)'
                      r'|<(?:&(?:mut )?)?std::fs::File as std::io::Write>::\w+|<std::fs::File as std::os::unix::fs::FileExt>::write\w*|std::os::unix::fs::FileExt::write\w*'
                      r'|std::process::Command::\w+|iocuddle::Ioctl::<iocuddle::Write(?:Read)?, .*>::ioctl)$')
FS_READ = re.compile(r'^(?:std::fs::File::(?:open|metadata|try_clone|lock\w*|unlock|try_lock\w*|options|sync_\w+)|std::fs::(?:metadata|symlink_metadata|canonicalize|exists|read\w*)'
                     r'|<(?:&(?:mut )?)?std::fs::File as std::(?:io::(?:Read|Seek)|os::fd::\w+|fmt::Debug)>::\w+|<std::fs::File as std::os::unix::fs::FileExt>::read\w*|std::os::unix::fs::FileExt::read\w*'
                     r'|<std::fs::Metadata as std::os::\w+::fs::MetadataExt>::\w+|std::fs::(?:Metadata|FileType|Permissions|DirEntry|ReadDir)::\w+|<std::fs::\w+ as std::os::\w+::fs::\w+>::\w+'
                     r'|std::fs::OpenOptions::(?:new|read|open)|<std::fs::\w+ as std::(?:clone::Clone|fmt::Debug|iter::\w+|cmp::\w+)>::\w+|iocuddle::Ioctl::<iocuddle::Read, .*>::ioctl)$')
LIBC_WRITE = re.compile(r'^libc::(?:.*::)?(?:p?write(?:v|v2|64)?|f?truncate(?:64)?|unlink(?:at)?|rename(?:at2?)?|mkdir(?:at)?|rmdir|fallocate(?:64)?|posix_fallocate|link(?:at)?|symlink(?:at)?|f?ch(?:mod|own)(?:at)?|mknod(?:at)?|u?mount2?|umount|sendfile(?:64)?|copy_file_range|splice|creat(?:64)?|ftruncate|kill|reboot|system|exec\w+|fork)$')
OPEN_FLAGS = ('write', 'append', 'truncate', 'create', 'create_new')
# requests which only report: BLKROGET GETSIZE RAGET FRAGET SECTGET SSZGET, BSZGET, GETSIZE64, IOMIN IOOPT ALIGNOFF PBSZGET DISCARDZEROES ROTATIONAL, GETDISKSEQ
QUERIES = {0x125e, 0x1260, 0x1263, 0x1265, 0x1267, 0x1268, 0x80081270, 0x80081272, 0x1278, 0x1279, 0x127a, 0x127b, 0x127c, 0x127e, 0x80081280}
# requests which change a device: BLKROSET RRPART FLSBUF RASET FRASET SECTSET SECSET DISCARD SECDISCARD ZEROOUT BSZSET
CHANGES = {0x125d, 0x125f, 0x1261, 0x1262, 0x1264, 0x1266, 0x1277, 0x127d, 0x127f, 0x40081271}


def uses(p):
    """(function, place, callee, arguments) of every call and every function passed on as a value"""
    for f in p.F:
        b = f.get('body')
        if not b or '::test' in f['full'] or '::vp_' in f['full']:
            continue
        for bl in b['blocks']:
            t = bl['t']
            if t.get('k') == 'call' and t.get('fn') is not None:
                yield f, t.get('sp') or f.get('sp', ''), p.F[t['fn']], t.get('args')
            for k in consts_in([bl['s'], bl['t']]):
                v = k.get('val')
                ty = p.T[k['ty']] if isinstance(k['ty'], int) else {}
                i = ty.get('fn') if ty.get('k') == 'fndef' else v.get('fn') if isinstance(v, dict) else None
                if i is not None:
                    yield f, t.get('sp') or f.get('sp', ''), p.F[i], None


def consts_in(x):
    if isinstance(x, dict):
        if 'ty' in x and 'val' in x:
            yield x
        for y in x.values():
            yield from consts_in(y)
    elif isinstance(x, list):
        for y in x:
            yield from consts_in(y)


def const_scalar(a):
    """value of a constant operand, through newtypes"""
    if not (isinstance(a, list) and a and a[0] == 'const'):
        return None
    v = a[1].get('val')
    while isinstance(v, dict) and v.get('k') == 'agg':
        fs = [x for x in v['fields'] if x.get('k') != 'zst']
        if len(fs) != 1:
            return None
        v = fs[0]
    return v.get('v') if isinstance(v, dict) else None


@check('C01', floor=8)
def read_only(c):
    p = c.prog
    seen = set()
    for f, sp, g, args in uses(p):
        nm = g['path']
        full = g['full']
        c.fns.add(f['full'])
        rule = 'devices and files are opened for reading only and never changed'
        what = None
        if nm.startswith('std::fs::OpenOptions::') and nm.rsplit('::', 1)[1] in OPEN_FLAGS:
            v = const_scalar(args[1]) if args and len(args) > 1 else None
            what = 'violated' if v == 1 else 'proved' if v == 0 else 'undecided'
        elif FS_WRITE.match(nm) or FS_WRITE.match(full) or LIBC_WRITE.match(nm):
            what = 'violated'
        elif nm == 'iocuddle::Ioctl::<iocuddle::Read, &T>::ioctl' or nm.startswith('iocuddle::Ioctl::<') and nm.endswith('::ioctl'):
            v = const_scalar(args[0]) if args else None
            if v is None:
                what = 'undecided'
            else:
                what = 'proved' if v in QUERIES else 'violated' if v in CHANGES or v >> 30 & 1 else 'undecided'
                rule = 'only requests that report are made of devices'
                nm = '%s(0x%x)' % (nm, v)
        elif FS_READ.match(nm) or FS_READ.match(full):
            what = 'proved'
        elif nm.startswith(('std::fs::', '<std::fs::', 'std::os::unix::fs::', 'libc::', 'std::process::Command')) or g.get('impl_trait') == 'std::io::Write' and 'fs::' in full:
            if f.get('local'):
                what = 'undecided'
        if what is None:
            continue
        key = '%s in %s' % (nm, f['full'])
        if (key, sp, what) in seen:
            continue
        seen.add((key, sp, what))
        c.add(key, what, sp, {'violated': '%s can change the device or file' % nm, 'undecided': 'effect of %s not known' % nm}.get(what, ''), ['call of %s at %s in %s' % (nm, sp, f['full'])] if what == 'violated' else None, rule)
    # request numbers, wherever they are defined or passed on
    for f in p.F:
        b = f.get('body')
        if not b or not f.get('local') or '::test' in f['full']:
            continue
        for bl in b['blocks']:
            for k in consts_in([bl['s'], bl['t']]):
                t = p.T[k['ty']] if isinstance(k['ty'], int) and k['ty'] < len(p.T) else {}
                while t.get('k') == 'ref':
                    t = p.T[t['elem']]
                if t.get('k') == 'adt' and t.get('path') == 'iocuddle::Ioctl':
                    v = const_scalar(['const', k])
                    key = 'request 0x%x in %s' % (v, f['full']) if v is not None else 'request in %s' % f['full']
                    if key in seen:
                        continue
                    seen.add(key)
                    st = 'undecided' if v is None else 'proved' if v in QUERIES else 'violated' if v in CHANGES or v >> 30 & 1 else 'undecided'
                    c.add(key, st, f.get('sp', ''), 'request 0x%x changes the device' % v if st == 'violated' else '', ['request 0x%x (%s)' % (v, k.get('path'))] if st == 'violated' else None, 'only requests that report are made of devices')


# ------------------------------------------------------------------ roles and identities of devices
@check('C26', floor=9)
def roles(c):
    """what a recorded role means"""
    pat = r'role::MdDeviceRole$'
    v = LV(var(('role',), 0, 0xffff))
    r = c.run()
    f = c.method(pat, 'from_u16')
    role = r.ref(r.call(f, v))
    rule = 'roles up to 0xfeff are positions in the array; 0xffff is a spare, 0xfffe faulty, 0xfffd a journal, anything between invalid'
    for nm, want in (('is_spare', eqc(v, 0xffff)), ('is_faulty', eqc(v, 0xfffe)), ('is_journal', eqc(v, 0xfffd)), ('is_invalid', And(gec(v, 0xff00 - 1 + 0), gec(v, 0xfeff + 1), lec(v, 0xfffc))),
                     ('is_valid', Or(lec(v, 0xfeff), gec(v, 0xfffd)))):
        try:
            f = c.method(pat, nm)
        except Missing:
            c.add(nm, 'undecided', '', 'no such method')
            continue
        c.equal(nm, r.call(f, role), want, f['sp'], rule=rule)
    f = c.method(pat, 'device_number')
    same(c, 'device_number', r, r.call(f, role), ('opt', lec(v, 0xfeff), v), f['sp'], rule=rule)
    panics(c, r, 'roles', T, 0, 'classifying a role cannot panic')
    # roles are equal exactly if they are recorded alike
    w = LV(var(('role2',), 0, 0xffff))
    f = c.method(pat, 'from_u16')
    other = r.ref(r.call(f, w))
    f = c.method(pat, 'eq', r'cmp::PartialEq')
    c.equal('eq', r.call(f, role, other), eq_(v, w), f['sp'], rule='roles are equal exactly if the recorded values are')


def hashed(r, f, x):
    """what a Hash implementation feeds to the hasher: list of (condition, value)"""
    seen = len(r.I.events)
    r.call(f, x, r.ref(VOpq(('hasher',), 0)))
    return [(e.pc, e.data[0]) for e in r.I.events[seen:] if e.kind == 'hash']


def name_of(r, ot, k):
    """an unknown name of two bytes, or none"""
    i = {v['name']: j for j, v in enumerate(r.I.ty(ot)['variants'])}
    g = bvar(('named', k))
    return VEnum(ot, {i['None']: (Not(g), []), i['Some']: (g, [VOpq(('text', k, 2), 0)])})


def with_names(r):
    with_texts(r)

    def owned(c):
        v = c.args[0]
        for _ in range(4):
            if isinstance(v, (Node, Leaf)):
                v = c.I.deref_read(v, c.s)
        if isinstance(v, VOpq) and isinstance(v.key, tuple) and v.key[0] == 'text':
            return Seq('abs', L(v.key[2]), ('text', v.key[1]), 'u8')
        return M['<std::ffi::OsString as std::convert::From<&T>>::from'](c)
    r.I.models['<std::ffi::OsString as std::convert::From<&T>>::from'] = owned


@check('C27', floor=10)
def identities(c):
    pat = r'md::device::id::MdDeviceId$'
    r = c.run()
    f = c.method(pat, 'new')
    g, h = c.method(pat, 'eq', r'cmp::PartialEq'), c.method(pat, 'hash', r'hash::Hash')
    sp = f['sp']
    ids, care = [], T
    with_names(r)
    ot = f['body']['locals'][1]
    for k in range(3):
        seen = len(r.I.events)
        # the second and third device are given the same name as the first, another name, or none
        ids.append(r.ref(r.call(f, name_of(r, ot, k % 2))))
        at = [e for e in r.I.events[seen:] if e.kind == 'atomic']
        K = 'identity %d: ' % k
        for e in at:
            if e.data[0] == 'store':
                c.add(K + 'one step', 'violated', e.sp or sp, 'the counter is written in a step of its own: two threads can read the same value first', ['two threads in %s' % f['full']], 'a new identity is drawn from a counter in one indivisible step')
        wr = [e for e in at if e.data[0] in ('fetch_add', 'fetch_sub', 'swap')]
        if len(wr) != 1:
            c.add(K + 'operations', 'undecided', sp, '%d atomic operations' % len(wr))
        else:
            c.equal(K + 'drawn', wr[0].pc, T, sp, care, rule='every new identity is drawn from a counter')
        care = And(care, r.s.pc)
    for i in range(3):
        for j in range(3):
            K = 'identities %d and %d: ' % (i, j)
            c.equal(K + 'eq', r.call(g, ids[i], ids[j]), T if i == j else F, g['sp'], care, rule='identities are equal exactly if they are the same: names do not matter')
    # nor do identities repeat, however many are drawn in between
    drawn = [e for e in r.I.events if e.kind == 'atomic']
    kinds = {(e.data[0], e.data[1], r.I.vkey(e.data[2], {})) for e in drawn}
    rule = 'identities differ, however many others are drawn in between'
    if len(kinds) == 1 and drawn[0].data[0] == 'fetch_add' and isinstance(drawn[0].data[2], Leaf) and is_const(drawn[0].data[2].v) and drawn[0].data[2].v[0] > 0:
        nm = drawn[0].data[1]
        al = ('D', ('atomic', nm))
        now = r.s.st.get(al)
        later = LV(var(('later', nm), 0, drawn[0].data[4] - 64))
        r.s.st[al] = later
        more = r.ref(r.call(f, name_of(r, ot, 0)))
        c.equal('identity drawn later: eq', r.call(g, ids[0], more), F, g['sp'], And(care, r.s.pc, le_(now, later)), rule=rule)
        care = And(care, r.s.pc)
    else:
        c.add('identity drawn later', 'undecided', sp, 'drawn by %s' % sorted({k[0] for k in kinds}), rule=rule)
    # a duplicate is equal and hashes alike
    cl = c.method(pat, 'clone', r'clone::Clone')
    dup = r.ref(r.call(cl, ids[0]))
    c.equal('duplicate: eq', r.call(g, ids[0], dup), T, g['sp'], care, rule='a duplicate of an identity is equal to it')
    a, b = hashed(r, h, ids[0]), hashed(r, h, dup)
    rule = 'equal identities hash alike'
    if len(a) != len(b) or not a:
        c.add('duplicate: hash', 'undecided', h['sp'], '%d and %d values hashed' % (len(a), len(b)), rule=rule)
    for k, ((p1, x), (p2, y)) in enumerate(zip(a, b)):
        if isinstance(x, (Node, Leaf)) and isinstance(y, (Node, Leaf)):
            c.equal('duplicate: hash', x, y, h['sp'], care, rule=rule)
        else:
            c.add('duplicate: hash', 'proved' if r.I.vkey(x, {}) == r.I.vkey(y, {}) else 'undecided', h['sp'], rule=rule)
    panics(c, r, 'identities', T, 0, 'drawing an identity cannot panic before 2^64 of them')


# ------------------------------------------------------------------ names in ext4
STR = r'ext4::string::Ext4String<'


def string_of(r, f, i, n, tag):
    """a string of n unknown bytes as the i-th argument of f; pointer to it"""
    t = r.arg_ty(f, i)
    if t['k'] == 'ref':
        t = r.I.ty(t['elem'])
    return r.ref(VAgg(t['id'], [VOpq(('text', tag, n), 0)]))


def with_texts(r):
    def as_ref(c):
        v = c.args[0]
        for _ in range(4):
            if isinstance(v, (Node, Leaf)):
                v = c.I.deref_read(v, c.s)
        if isinstance(v, VOpq) and isinstance(v.key, tuple) and v.key[0] == 'text':
            n = v.key[2]
            al = ('D', ('text', v.key[1], n))
            c.s.st[al] = Seq('abs', L(n), ('text', v.key[1]), 'u8')
            return leaf(Ptr(al, (('sl', const(0), const(n)),)))
        return NotImplemented
    r.I.models = dict(r.I.models)
    r.I.models['std::convert::AsRef::as_ref'] = as_ref
    return r


def text(tag, i):
    return LV(load(('text', tag), const(i), 1, 'le'))


def order(m, n):
    """(less, equal) of two strings of m and n bytes, compared byte by byte"""
    less, same_ = F, T
    for i in range(min(m, n)):
        a, b = text(0, i), text(1, i)
        less = Or(less, And(same_, Not(le_(b, a))))
        same_ = And(same_, eq_(a, b))
    if m < n:
        return Or(less, same_), F
    return less, same_ if m == n else F


def string_order(c, m, n):
    K = 'strings of %d and %d bytes: ' % (m, n)
    less, equal = order(m, n)
    r = with_texts(c.run())
    f = c.method(STR, 'eq', r'cmp::PartialEq')
    c.equal(K + 'eq', r.call(f, string_of(r, f, 0, m, 0), string_of(r, f, 1, n, 1)), equal, f['sp'], rule='names are equal exactly if their bytes are')
    f = c.method(STR, 'cmp', r'cmp::Ord')
    v = r.call(f, string_of(r, f, 0, m, 0), string_of(r, f, 1, n, 1))
    for nm, want in (('Less', less), ('Equal', equal), ('Greater', And(Not(less), Not(equal)))):
        c.equal(K + 'cmp ' + nm, r.variant(v, nm)[0], want, f['sp'], rule='names are ordered by their bytes')
    f = c.method(STR, 'partial_cmp', r'cmp::PartialOrd')
    v = r.call(f, string_of(r, f, 0, m, 0), string_of(r, f, 1, n, 1))
    ok, x = r.variant(v, 'Some')
    c.equal(K + 'partial_cmp', ok, T, f['sp'], rule='names are ordered by their bytes')
    if x:
        for nm, want in (('Less', less), ('Equal', equal)):
            c.equal(K + 'partial_cmp ' + nm, r.variant(x[0], nm)[0], want, f['sp'], rule='both orders agree')
    panics(c, r, K, T, 0, 'comparing names cannot panic')


def string_basics(c, n):
    K = 'string of %d bytes: ' % n
    r = with_texts(c.run())
    f = c.method(STR, 'len')
    c.equal(K + 'len', r.call(f, string_of(r, f, 0, n, 0)), L(n), f['sp'], rule='the length of a name is that of its bytes')
    f = c.method(STR, 'is_empty')
    c.equal(K + 'is_empty', r.call(f, string_of(r, f, 0, n, 0)), T if n == 0 else F, f['sp'], rule='a name is empty exactly if it has no bytes')
    f = c.method(STR, 'hash', r'hash::Hash')
    for a, b in ((0, 0),):
        h = hashed(r, f, string_of(r, f, 0, n, 0))
        if len(h) != 1:
            c.add(K + 'hash', 'undecided', f['sp'], '%d values hashed' % len(h))
        else:
            c.equal(K + 'hash', h[0][0], T, f['sp'], rule='names that are equal hash alike: the bytes and nothing else are hashed')
            same(c, K + 'hash', r, h[0][1], ('bytes', [text(0, i) for i in range(n)]), f['sp'], T, 'names that are equal hash alike: the bytes and nothing else are hashed')
    f = c.method(STR, 'to_owned')
    v = r.call(f, string_of(r, f, 0, n, 0))
    same(c, K + 'to_owned', r, v, ('bytes', [text(0, i) for i in range(n)]), f['sp'], T, 'an owned name has the same bytes')
    panics(c, r, K, T, 0, 'handling names cannot panic')


def string_cut(c, n):
    K = 'field of %d bytes: ' % n
    r = c.run()
    f = c.method(STR, 'from_null_terminated_bytes')
    v = r.call(f, buffer(r, n, ('text', 0)))
    same(c, K, r, v, ('seq', L(n) if n == 0 else cut(n), [text(0, i) for i in range(n)]), f['sp'], T, 'a name stored in a field ends before the first NUL, or at the end of the field')
    panics(c, r, K, T, 0, 'handling names cannot panic')


def cut(n):
    ln = L(n)
    for i in reversed(range(n)):
        ln = ite(eqc(text(0, i), 0), L(i), ln)
    return ln


def string_text(c, n):
    """names as text"""
    K = 'text of %d bytes: ' % n
    want = ('bytes', [text(0, i) for i in range(n)])
    # made from text, and its bytes
    for what, pat in (('From<&str>', r'From<&(\S+ )?str>'), ('From<&String>', r'From<&(\S+ )?std::string::String>'), ('bytes', r'From<&(\S+ )?[\w:]*Ext4String')):
        fs = [f for f in c.prog.F if f.get('local') and f.get('body') and f.get('name') == 'from' and re.search(pat, f['full']) and 'Ext4String' in f['full']]
        if len(fs) != 1:
            c.add(K + what, 'undecided', '', '%d such conversions' % len(fs))
            continue
        f = fs[0]
        c.fns.add(f['full'])
        r = with_texts(c.run())
        for nm in ('std::string::String::as_bytes', 'std::string::String::as_str', '<std::string::String as std::ops::Deref>::deref', '<std::string::String as std::convert::AsRef<[u8]>>::as_ref', '<std::string::String as std::convert::AsRef<str>>::as_ref',
                   'core::str::<impl str>::as_bytes', '<str as std::convert::AsRef<[u8]>>::as_ref'):
            r.I.models[nm] = M['std::vec::Vec::<T, A>::as_slice']
        if what == 'bytes':
            a = string_of(r, f, 0, n, 0)
        else:
            a = buffer(r, n, ('text', 0))
            if 'String' in what:
                a = r.ref(r.get(a))
        v = r.call(f, a)
        same(c, K + what, r, v, want, f['sp'], T, 'a conversion between names and text keeps every byte')
        panics(c, r, K + what, T, 0, 'handling names cannot panic')
    for what, path in (('lossy', 'std::string::String::from_utf8_lossy'), ('strict', 'std::string::String::from_utf8')):
        seen = []

        def decode(cx):
            seen.append((cx.args[0], cx.s.pc, dict(cx.s.st)))
            if what == 'lossy':
                return VOpq(('decoded', len(seen)), cx.destty['id'])
            a, e = [x['fields'][0][1] for x in cx.destty['variants']]
            ok = bvar(('utf8', len(seen)))
            return VEnum(cx.destty['id'], {0: (ok, [VOpq(('decoded', len(seen)), a)]), 1: (Not(ok), [VOpq(('not text', len(seen)), e)])})
        r = with_texts(c.run())
        r.I.models[path] = decode
        if what == 'lossy':
            f = c.method(STR, 'to_str_lossy')
        else:
            fs = [f for f in c.prog.F if f.get('local') and f.get('body') and f.get('name') == 'try_from' and re.search(r'TryFrom<&[^>]*Ext4String', f['full'])]
            if len(fs) != 1:
                c.add(K + what, 'undecided', '', '%d such conversions' % len(fs))
                continue
            f = fs[0]
            c.fns.add(f['full'])
        v = r.call(f, string_of(r, f, 0, n, 0))
        rule = 'the text of a name is its bytes decoded' + (', if they are text' if what == 'strict' else '')
        if len(seen) != 1 or seen[0][1] is not T:
            c.add(K + what, 'undecided', f['sp'], '%d decoded' % len(seen), rule=rule)
            continue
        same(c, K + what + ' bytes', r, seen[0][0], want, f['sp'], T, rule)
        if what == 'strict':
            ok, x = r.variant(v, 'Ok')
            c.equal(K + what, ok, bvar(('utf8', 1)), f['sp'], rule=rule)
            v = x[0] if x else v
        k = r.I.vkey(v, r.s.st)
        c.add(K + what + ' text', 'proved' if k == ('decoded', 1) else judged(k), f['sp'], 'the text is %r' % (k,), ['a name of %d bytes' % n, 'text: %r' % (k,)], rule)
        panics(c, r, K + what, T, 0, 'handling names cannot panic')


# what changes a text, at least for some texts
CHANGING = re.compile(r'trim|to_(ascii_)?(lower|upper)case|replace|strip_(pre|suf)fix|escape|repeat|split|truncate')


def judged(k):
    return 'violated' if CHANGING.search(repr(k)) else 'undecided'


@check('C28', floor=60)
def names(c):
    jobs = [('order %d %d' % (m, n), string_order, m, n) for m in range(5) for n in range(5)] + [('order %d %d' % (m, n), string_order, m, n) for m, n in ((8, 8), (7, 9), (0, 16), (16, 16), (255, 255))]
    jobs += [('basics %d' % n, string_basics, n) for n in (0, 1, 2, 16, 255)] + [('cut %d' % n, string_cut, n) for n in (0, 1, 2, 3, 16, 64)]
    jobs += [('text %d' % n, string_text, n) for n in (0, 1, 3, 16)]
    c.parallel(jobs)
