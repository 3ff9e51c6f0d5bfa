"""Data layout of RAID 5 and RAID 6, compared with the kernel's raid5_compute_sector."""
from checks_md import *


def geo_spec(level, name, sector, chunk, rd):
    """{sector, p, q, data} as graphs, following drivers/md/raid5.c"""
    par = level - 4
    dn = sub_(rd, L(par))
    cn = div_(sector, chunk)
    off = rem_(sector, chunk)
    stripe = div_(cn, dn)
    dd = rem_(cn, dn)
    new = add_(mul_(stripe, chunk), off)
    one = L(1)
    last = sub_(rd, one)
    q = None
    if level == 5:
        left = sub_(last, rem_(stripe, rd))
        right = rem_(stripe, rd)
        skip = lambda p: ite(le_(p, dd), add_(dd, one), dd)
        cont = lambda p: rem_(add_(add_(p, one), dd), rd)
        p, d = {
            'LeftAsymmetric': (left, skip(left)), 'RightAsymmetric': (right, skip(right)),
            'LeftSymmetric': (left, cont(left)), 'RightSymmetric': (right, cont(right)),
            'Parity0': (L(0), add_(dd, one)), 'ParityN': (dn, dd)}[name]
    else:
        left = sub_(last, rem_(stripe, rd))
        right = rem_(stripe, rd)
        left6 = sub_(dn, rem_(stripe, last))
        right6 = rem_(stripe, last)
        nrest = sub_(last, rem_(add_(stripe, one), rd))

        def asym(p):
            wraps = eq_(p, last)
            return p, ite(wraps, L(0), add_(p, one)), ite(wraps, add_(dd, one), ite(le_(p, dd), add_(dd, L(2)), dd))

        def sym(p):
            return p, rem_(add_(p, one), rd), rem_(add_(add_(p, L(2)), dd), rd)

        def asym6(p):
            return p, last, ite(le_(p, dd), add_(dd, one), dd)

        def sym6(p):
            return p, last, rem_(add_(add_(p, one), dd), last)
        p, q, d = {
            'LeftAsymmetric': lambda: asym(left), 'RightAsymmetric': lambda: asym(right),
            'LeftSymmetric': lambda: sym(left), 'RightSymmetric': lambda: sym(right),
            'Parity0': lambda: (L(0), one, add_(dd, L(2))), 'ParityN': lambda: (dn, add_(dn, one), dd),
            'Rotating0Restart': lambda: asym(right), 'RotatingNRestart': lambda: asym(nrest),
            'RotatingNContinue': lambda: (left, rem_(sub_(add_(left, rd), one), rd), rem_(add_(add_(left, one), dd), rd)),
            'LeftAsymmetric6': lambda: asym6(left6), 'RightAsymmetric6': lambda: asym6(right6),
            'LeftSymmetric6': lambda: sym6(left6), 'RightSymmetric6': lambda: sym6(right6),
            'Parity06': lambda: (L(0), last, add_(dd, one))}[name]()
    return new, p, q, d


def geometry(c, level):
    pat = r'raid%d::.*Raid%dAlgorithm$' % (level, level)
    f = c.method(pat, 'compute_sector')
    at = c.type(pat)
    names = [v['name'] for v in at['variants']]
    tab = sorted(set((RAID5 if level == 5 else RAID6).values()))
    for n in tab:
        if n not in names:
            raise Unsupported('layout %s of RAID %d' % (n, level))
    sizes = (list(range(level - 2, 10)) + [16, 27] if c.tier == 'quick' else list(range(level - 2, 65)))
    for n in tab:
        c.section('raid%d.%s' % (level, n), geometry1, c, level, n, names.index(n), f, at, None)
        for rd in sizes:
            c.section('raid%d.%s.%d' % (level, n, rd), geometry1, c, level, n, names.index(n), f, at, rd)


def geometry1(c, level, n, vi, f, at, fixed):
    r = c.run()
    par = level - 4
    self_ = VEnum(at['id'], {vi: (T, [])})
    sector, chunk = LV(var(('sector',), 0, 2**64 - 1)), LV(var(('chunk',), 0, 2**32 - 1))
    rd = L(fixed) if fixed is not None else LV(var(('raid_disks',), 0, 2**32 - 1))
    args = [r.ref(self_)]
    for i, x in ((1, sector), (2, chunk), (3, rd)):
        a = r.sym(('arg', i), f['body']['locals'][i + 1])
        args.append(refill_newtype(r, a, x))
    v = r.call(f, *args)
    some, fs = r.variant(v, 'Some')
    sane = And(gec(chunk, 1), gec(rd, par + 1))
    range_ = lt_(sector, L(2**63))
    K = 'raid%d.%s%s' % (level, n, '' if fixed is None else '.%d disks' % fixed)
    sp = f['sp']
    if fixed is None:
        c.equal(K + '.undefined', And(some, Not(sane)), F, sp, rule='no location without data devices or with empty chunks')
        pan = F
        for e in r.I.events:
            if e.kind == 'panic':
                pan = Or(pan, e.pc)
        c.equal(K + '.panic', pan, F, sp, rule='no input makes the computation panic')
    rule = 'raid5_compute_sector, layout %s' % n
    care = And(sane, range_)
    c.equal(K + '.defined', some, T, sp, care, rule='every sector has a location')
    care = And(care, some)
    tup = r.I.expand(fs[0])
    new, p, q, d = geo_spec(level, n, sector, chunk, rd)
    spec = [('sector', new), ('p', p)] + ([('q', q)] if q is not None else []) + [('data', d)]
    if len(tup.f) != len(spec):
        raise Unsupported('result of compute_sector has %d parts' % len(tup.f))
    for (nm, s), x in zip(spec, tup.f):
        c.equal('%s.%s' % (K, nm), r.strip(x), s, sp, care, rule=rule)


def refill_newtype(r, v, x):
    v = r.I.expand(v)
    if isinstance(v, VAgg):
        return VAgg(v.ty, [refill_newtype(r, y, x) if not r.iszst(y) else y for y in v.f])
    return x


@check('C07', floor=230)
def raid5(c):
    geometry(c, 5)


@check('C08', floor=600)
def raid6(c):
    geometry(c, 6)
