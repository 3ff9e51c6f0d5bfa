"""Numbers with units: conversions, comparison, arithmetic; joining halves and long products."""
from checks_wrap import *

UNIT = re.compile(r'\b(SectorCount|SectorNumber|ChunkNumber|StripeNumber|DeviceCount|DeviceNumber|CheckpointEventCount|MetadataEventCount|BlockCount|BlockNumber|FileBlockNumber|FsBlockNumber|BlockSize|InodeCount|InodeNumber)\b')
SELF = re.compile(r'^<(?:[\w:]+::)?(\w+)(?:<([^<>]*)>)? as ')


def concrete(I, t, depth=0):
    ty = I.ty(t)
    if ty['k'] == 'param' or depth > 4:
        return False
    if ty['k'] in ('ref', 'ptr') and 'elem' in ty:
        return concrete(I, ty['elem'], depth + 1)
    if ty['k'] == 'adt' and ty.get('variants') and len(ty['variants']) == 1:
        return all(concrete(I, f[1], depth + 1) for f in ty['variants'][0]['fields'])
    return True


def number(r, v):
    """the integer inside a quantity"""
    x = r.strip(v)
    if isinstance(x, Leaf) and isinstance(x.v, Ptr):
        x = r.strip(r.get(x))
    if not isinstance(x, (Node, Leaf)) or any(not isinstance(l, tuple) for l in leaves(x)):
        raise Unsupported('not a number')
    return x


def width(I, t):
    """bits of the integer inside a type, or None"""
    for _ in range(6):
        ty = I.ty(t)
        if ty['k'] == 'uint':
            return ty['bits']
        if ty['k'] in ('ref', 'ptr') and 'elem' in ty:
            t = ty['elem']
        elif ty['k'] == 'adt' and len(ty['variants']) == 1:
            fs = [f for f in ty['variants'][0]['fields'] if I.ty(f[1]).get('size') != 0]
            if len(fs) != 1:
                return None
            t = fs[0][1]
        else:
            return None
    return None


def kin(I, a, b):
    """is a conversion between these one of a quantity and an integer, or between widths of a quantity?"""
    a, b = I.ty(a), I.ty(b)
    name = lambda t: re.sub(r'<.*', '', t.get('name') or '')
    return a['k'] != 'adt' or b['k'] != 'adt' or name(a) == name(b)


def inputs(r, f):
    """symbolic arguments; references point to symbolic values; returns arguments, numbers, pointers"""
    args, nums, refs = [], [], []
    for i in range(f['body']['argc']):
        t = f['body']['locals'][i + 1]
        ty = r.I.ty(t)
        if ty['k'] == 'ref':
            v = r.sym(('arg', i, f['id']), ty['elem'])
            p = r.ref(v)
            args.append(p)
            refs.append(p)
        else:
            v = r.sym(('arg', i, f['id']), t)
            args.append(v)
            refs.append(None)
        nums.append(number(r, v))
    return args, nums, refs


def order(c, r, K, v, a, b, sp, rule):
    for nm, g in (('Less', lt_(a, b)), ('Equal', eq_(a, b)), ('Greater', lt_(b, a))):
        c.equal(K + '.' + nm, r.variant(v, nm)[0], g, sp, rule=rule)


def maybe(c, r, K, v, has, want, sp, rule):
    c.equal(K + '?Some', r.variant(v, 'Some')[0], has, sp, rule=rule)
    x = r.variant(v, 'Some')[1]
    if x:
        c.equal(K + '.Some', number(r, x[0]), want, sp, has, rule=rule)


def fits(x, bits):
    return lec(x, (1 << bits) - 1)


ARITH = {'add': add_, 'sub': sub_}


@check('C33', floor=120)
def quantities(c):
    seen = set()
    fs = {}
    for f in c.prog.F:
        if not f.get('local') or not f.get('body') or not f.get('name') or '::test' in f['full'] or f['full'] in seen:
            continue
        full = f['full']
        m = f['name']
        if not UNIT.search(full) and m not in ('from_low_high', 'long_mul'):
            continue
        seen.add(full)
        fs.setdefault(m, []).append(f)
    for m in sorted(fs):
        for f in fs[m]:
            c.section(f['full'], one, c, f)


def one(c, f):
    m, full, sp = f['name'], f['full'], f['sp']
    tr = f.get('impl_trait') or f.get('trait') or ''
    tr = re.sub(r'<.*', '', tr).split('::')[-1]
    r = c.run()
    L0 = f['body']['locals']
    rule = RULES.get((tr, m)) or RULES.get(m)
    if rule is None or not all(concrete(r.I, t) for t in L0[:f['body']['argc'] + 1]):
        return
    if any(width(r.I, t) is None for t in L0[1:f['body']['argc'] + 1]):
        return
    args, n, refs = inputs(r, f)
    v = r.call(f, *args)
    K = full
    bad = F
    if m in ('from', 'try_read', 'try_write'):
        if m == 'from':
            if width(r.I, L0[0]) is None or not kin(r.I, L0[0], L0[1]):
                return
            # a conversion that narrows need not be total
            c.equal(K, number(r, v), n[0], sp, nopanic(r) if width(r.I, L0[0]) < width(r.I, L0[1]) else T, rule=rule)
            if width(r.I, L0[0]) < width(r.I, L0[1]):
                bad = Not(fits(n[0], width(r.I, L0[0])))
        else:
            c.equal(K + '?Ok', r.variant(v, 'Ok')[0], T, sp, rule=rule)
            c.equal(K, number(r, r.variant(v, 'Ok')[1][0]), n[0], sp, rule=rule)
    elif m in ('eq', 'ne', 'lt', 'le', 'gt', 'ge'):
        w = {'eq': eq_, 'ne': lambda a, b: Not(eq_(a, b)), 'lt': lt_, 'le': le_, 'gt': lambda a, b: lt_(b, a), 'ge': lambda a, b: le_(b, a)}[m](n[0], n[1])
        c.equal(K, v, w, sp, rule=rule)
    elif m == 'cmp':
        order(c, r, K, v, n[0], n[1], sp, rule)
    elif m == 'partial_cmp':
        c.equal(K + '?Some', r.variant(v, 'Some')[0], T, sp, rule=rule)
        order(c, r, K, r.variant(v, 'Some')[1][0], n[0], n[1], sp, rule)
    elif m in ('add', 'sub', 'add_assign', 'sub_assign'):
        op = m[:3]
        w = ARITH[op](n[0], n[1])
        b = width(r.I, L0[1])
        ok = fits(w, b) if op == 'add' else le_(n[1], n[0])
        got = number(r, v) if m == op else number(r, r.get(refs[0]))
        c.equal(K, got, w, sp, ok, rule=rule)
        bad = Not(ok)
    elif m in ('byte_pos', 'size_bytes', 'checked_mul'):
        w = mul_(n[0], n[1])
        maybe(c, r, K, v, fits(w, 64), w, sp, rule)
    elif m == 'checked_add':
        w = add_(n[0], n[1])
        maybe(c, r, K, v, fits(w, width(r.I, L0[1])), w, sp, rule)
    elif m in ('in_chunk', 'as_data_device_and_stripe_number'):
        has = Not(eq_(n[1], L(0)))
        c.equal(K + '?Some', r.variant(v, 'Some')[0], has, sp, rule=rule)
        x = r.variant(v, 'Some')[1]
        q, k = div_(n[0], n[1]), rem_(n[0], n[1])
        w = (q, k) if m == 'in_chunk' else (k, q)
        if x:
            t = r.I.expand(x[0])
            for i in range(2):
                c.equal('%s.%d' % (K, i), number(r, r.field(t, str(i))), w[i], sp, has, rule=rule)
    elif m in ('as_block_count', 'from_block_number'):
        c.equal(K, number(r, v), n[0], sp, rule=rule)
    elif m == 'from_low_high':
        if width(r.I, L0[0]) is None:
            return
        c.equal(K, number(r, v), add_(n[0], map2(lambda a, b: mul(a, b), n[1], L(1 << width(r.I, L0[1])))), sp, rule=rule)
    elif m == 'long_mul':
        c.equal(K, number(r, v), mul_(n[0], n[1]), sp, rule=rule)
    for e in r.I.events:
        if e.kind == 'panic':
            c.equal('%s panic at %s' % (K, e.sp), And(e.pc, Not(bad)), F, e.sp, rule=rule)


RULES = {
    ('From', 'from'): 'a converted quantity is the same number', 'try_read': 'a stored quantity is read as the same number', 'try_write': 'a quantity is stored as the same number',
    'eq': 'quantities are equal exactly if their numbers are', 'ne': 'quantities are equal exactly if their numbers are',
    'lt': 'quantities are ordered as their numbers', 'le': 'quantities are ordered as their numbers', 'gt': 'quantities are ordered as their numbers', 'ge': 'quantities are ordered as their numbers',
    'cmp': 'quantities are ordered as their numbers', 'partial_cmp': 'quantities are ordered as their numbers',
    'add': 'sums are exact if they fit', 'add_assign': 'sums are exact if they fit', 'sub': 'differences are exact if they fit', 'sub_assign': 'differences are exact if they fit',
    'byte_pos': 'a byte position is the exact product or there is none', 'size_bytes': 'a size in bytes is the exact product or there is none',
    'checked_add': 'a checked sum is exact or there is none',
    'in_chunk': 'a sector is in the chunk of the quotient at the remainder', 'as_data_device_and_stripe_number': 'a chunk is on the data device of the remainder in the stripe of the quotient',
    'as_block_count': 'a sector is a block of the array', 'from_block_number': 'a block of the array is a sector',
    'from_low_high': 'two halves are joined low half first', 'long_mul': 'long products are exact',
}
