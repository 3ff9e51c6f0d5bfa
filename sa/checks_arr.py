"""Arrays: role merging, formats, assignment of devices, diagnosis."""
import re
from checks_md import *
from checks_geo import refill_newtype, geo_spec

SB = 'md::superblock::superblock::Superblock::'
METHODS = ('array_uuid', 'array_name', 'algorithm', 'sectors_per_device', 'chunk_size', 'raid_device_count', 'reshape_status', 'device_role_index', 'event_count', 'device_roles', 'data_offset')


class Devices:
    """N devices with symbolic superblocks: kinds[i] in S (superblock), T (too small), M (missing)"""

    def __init__(self, c, r, kinds, roles=None, index=None, simple=False, classes=None):
        self.c, self.r = c, r
        self.kinds = kinds
        self.simple = simple
        self.vals = {}
        I = r.I
        mt = c.type(r'MdDevice$')
        opens = [f for f in c.prog.F if f.get('local') and f.get('body') and re.search(r'MdArray::<\w+>::open$', f['path']) and 'impl ' not in f['full']]
        if not opens:
            raise Missing('MdArray::open as used by the program')
        self.open_fn = opens[0]
        vt = I.ty(self.open_fn['body']['locals'][1])
        dt = next(I.ty(a) for a in vt['args'] if I.ty(a).get('path', '').endswith('MdDevice'))
        st = next(t for t in c.prog.T if t.get('k') == 'adt' and t['path'].endswith('MdDeviceSuperblock'))
        it = next(t for t in c.prog.T if t.get('k') == 'adt' and t['path'].endswith('MdDeviceId'))
        devs = []
        for i, k in enumerate(kinds):
            fs = []
            for nm, ft in [(f[0], I.ty(f[1])) for f in dt['variants'][0]['fields']]:
                inner = [I.ty(a) for a in ft.get('args', []) if isinstance(a, int)]
                if any(t['id'] == it['id'] for t in inner):
                    v = I.expand(VOpq(('mdid', i), it['id']))
                    v = VAgg(v.ty, [L(100 + i) if isinstance(x, (Node, Leaf)) and not any(isinstance(y, Ptr) for y in leaves(x)) else x for x in v.f])
                    al = ('D', ('mdid', i))
                    r.s.st[al] = v
                    fs.append(P(al))
                elif any(t['id'] == st['id'] for t in inner):
                    name = dict(S='Superblock', T='TooSmall', M='Missing')[k]
                    vi = [x['name'] for x in st['variants']].index(name)
                    al = ('D', ('mdsb', i))
                    r.s.st[al] = VEnum(st['id'], {vi: (T, [I.sym(('sbox', i), f[1]) for f in st['variants'][vi]['fields']])})
                    fs.append(P(al))
                else:
                    fs.append(I.sym(('mddev', i, nm), ft['id']))
            devs.append(VAgg(dt['id'], fs))
        self.devs = devs
        self.devt = dt
        self.classes = classes
        for m in METHODS:
            cand = [f for f in c.prog.F if f['path'] == SB + m]
            fid = next((x for (tr, nm), tab in I.impls().items() if tr + '::' == SB and nm == m for x in tab.values()), None)
            if fid is None:
                raise Missing('no implementation of ' + m)
            rt = I.ty(I.F[fid]['body']['locals'][0])
            for i in range(len(kinds)):
                # of many devices, those of one class have equal superblocks
                self.vals[m, i] = self.value(m, i, rt, roles, index) if classes is None or i < classes else self.vals[m, i % classes]
            I.models = dict(I.models) if not getattr(I, '_own', None) else I.models
            I._own = True
            I.models[SB + m] = self.model(m)
        al = ('D', ('devs',))
        r.s.st[al] = Seq('const', L(len(devs)), devs)
        self.vec = P(al)

    def offset_of(self, i):
        return self.vals['data_offset', i]

    def value(self, m, i, rt, roles, index):
        I, r = self.r.I, self.r
        if m == 'device_roles':
            n = roles[i] if roles is not None else 0
            et = I.ty(rt['args'][0])
            es = []
            for j in range(n if isinstance(n, int) else len(n)):
                x = LV(var(('role', i, j), 0, 65535)) if isinstance(n, int) else (L(n[j]) if isinstance(n[j], int) else n[j])
                es.append(VAgg(et['id'], [x]))
            al = ('D', ('roles', i))
            r.s.st[al] = Seq('const', L(len(es)), es)
            return P(al)
        if m == 'device_role_index':
            return LV(var(('index', i), 0, 2**32 - 1)) if index is None else (L(index[i]) if isinstance(index[i], int) else index[i])
        if m == 'array_name':
            al = ('D', ('name', i))
            r.s.st[al] = Seq('const', L(2), [LV(var(('name', i, j), 0, 255)) for j in range(2)])
            has = bvar(('has_name', i))
            p = leaf(Ptr(al, (('sl', const(0), const(2)),)))
            vs = [v['name'] for v in rt['variants']]
            return VEnum(rt['id'], {vs.index('Some'): (has, [p]), vs.index('None'): (Not(has), [])})
        v = I.sym((m, i), rt['id'])
        if self.simple:
            v = self.simplify(m, i, v, rt)
        return v

    def simplify(self, m, i, v, rt):
        """the same value drawn from a smaller domain, enough to have different ones"""
        I = self.r.I
        if m == 'array_uuid':
            v = I.expand(v)
            k = [x['name'] for x in rt['variants']].index('Short')
            q = I.expand(v.alts[k][1][0])
            return VEnum(v.ty, {k: (T, [Seq('const', L(4), [LV(var(('uuid', i), 0, 255)), L(0), L(0), L(0)])])})
        if m == 'algorithm':
            return self.level(rt, ('level', i))
        if m == 'reshape_status':
            v = I.expand(v)
            k = [x['name'] for x in rt['variants']].index('Some')
            g, fs = v.alts[k]
            st = I.ty(rt['args'][0])
            fl = [x[0] for x in st['variants'][0]['fields']]
            w = I.expand(fs[0])
            f = list(w.f)
            f[fl.index('new_algorithm')] = self.level(I.ty(st['variants'][0]['fields'][fl.index('new_algorithm')][1]), ('newlevel', i))
            alts = dict(v.alts)
            alts[k] = (g, [VAgg(w.ty, f)])
            return VEnum(v.ty, alts)
        return v

    def level(self, t, key):
        names = [x['name'] for x in t['variants']]
        k = names.index('Unsupported')
        if self.simple != 'levels':
            n = LV(var(key, 7, 2**32 - 1)) if key[0] == 'level' else L(7)
            return VEnum(t['id'], {k: (T, [n if x[0] == 'level' else L(0) for x in t['variants'][k]['fields']])})
        five, six = bvar(key + (5,)), bvar(key + (6,))
        alts = {k: (And(Not(five), Not(six)), [L(7), L(0)])}
        for nm, g in (('Raid5', five), ('Raid6', And(Not(five), six))):
            j = names.index(nm)
            at = t['variants'][j]['fields'][0][1]
            lay = bvar(key + ('layout',))
            alts[j] = (g, [VEnum(at, {0: (lay, []), 1: (Not(lay), [])})])
        return VEnum(t['id'], alts)

    def model(self, m):
        def f(c):
            def one(k):
                hit = [i for i in range(len(self.kinds)) if "('sbox', %d)" % i in k]
                if len(hit) != 1:
                    raise Unsupported('superblock of several devices: ' + k[:80])
                if m == 'device_roles':
                    al = ('D', c.I.fresh('rolesv'))
                    c.s.st[al] = c.s.st[('D', ('roles', hit[0] % (self.classes or len(self.kinds))))]
                    return P(al)
                return self.vals[m, hit[0]]
            if isinstance(c.args[0], (Node, Leaf)):
                return c.I.fold_ptr(c.args[0], lambda p: one(repr(p.alloc)))
            return one(repr(c.I.vkey(c.args[0], c.s.st)))
        return f


def opened(c, kinds, roles=None, index=None, simple=False, classes=None):
    r = c.run()
    d = Devices(c, r, kinds, roles, index, simple, classes)
    v = r.call(d.open_fn, d.vec)
    return r, d, v


def which(v, tag, i):
    """does the pointer v point to the i-th object of a kind"""
    return prd(lambda l: T if isinstance(l, Ptr) and l.alloc == ('D', (tag, i)) and not l.proj else F, v)


def find_maps(r, v, out, depth=0):
    if depth > 12:
        return out
    v = r.I.expand(v)
    if isinstance(v, Leaf) and isinstance(v.v, Ptr):
        v = r.get(v)
    if isinstance(v, VMap):
        out.append(v)
    elif isinstance(v, VAgg):
        for x in v.f:
            find_maps(r, x, out, depth + 1)
    elif isinstance(v, VEnum) and len(v.alts) == 1:
        for g, fs in v.alts.values():
            for x in fs:
                find_maps(r, x, out, depth + 1)
    return out


def id_of(r, d, dev):
    """the identity pointer of a device behind a pointer"""
    q = r.I.deref_read(dev, r.s)
    q = r.I.expand(q)
    for x in q.f:
        if isinstance(x, (Node, Leaf)) and any(isinstance(l, Ptr) and l.alloc[0] == 'D' and l.alloc[1][0] == 'mdid' for l in leaves(x)):
            return x
    raise Unsupported('identity of a device')


def is_spare(x): return eq_(x, L(65535))
def is_faulty(x): return eq_(x, L(65534))
def is_invalid(x): return And(le_(L(0xff00), x), le_(x, L(0xfffc)))


def merged_roles(kinds, roles):
    """(all agree, [role of position j]) after reconciling the role lists of the superblocks"""
    if any(k != 'S' for k in kinds):
        return F, []
    ok, acc = T, list(roles[0])
    for nxt in roles[1:]:
        out = []
        for j in range(max(len(acc), len(nxt))):
            if j >= len(acc):
                out.append(nxt[j])
            elif j >= len(nxt):
                out.append(acc[j])
            else:
                l, r = acc[j], nxt[j]
                right = Or(is_spare(l), is_invalid(r), is_faulty(l))
                left = Or(is_spare(r), is_invalid(l), is_faulty(r), eq_(l, r))
                ok = And(ok, Or(right, left))
                out.append(ite(right, r, l))
        acc = out
    return ok, acc


def assignment(c, kinds, lens, index=None):
    r, d, v = opened(c, kinds, lens, index)
    K = '%s.%s' % (kinds, '-'.join(map(str, lens)))
    maps = find_maps(r, v, [])
    maps = [m for m in maps if m.e or True]
    if len(maps) != 1:
        raise Unsupported('the table of active devices in MdArray')
    roles = []
    for i in range(len(kinds)):
        seq = r.s.st[('D', ('roles', i))]
        roles.append([r.strip(r.I.seq_get(seq, const(j), None)) for j in range(lens[i])])
    ok, acc = merged_roles(kinds, roles)
    num, has = [], []
    for i in range(len(kinds)):
        ix = d.vals['device_role_index', i]
        x = L(0)
        g = F
        for j, q in enumerate(acc):
            at = eq_(ix, L(j))
            x = ite(at, q, x)
            g = Or(g, And(at, le_(q, L(0xfeff))))
        has.append(And(ok, g))
        num.append(x)
    k = LV(var(('number',), 0, 2**32 - 1))
    sp = d.open_fn['sp']
    rule = 'a device is active under the number the reconciled roles give its index, if no other device has it'
    for i in range(len(kinds)):
        want = And(has[i], eq_(num[i], k))
        for j in range(len(kinds)):
            if j != i:
                want = And(want, Not(And(has[j], eq_(num[j], k))))
        got = F
        for g, kk, dev in maps[0].e:
            got = Or(got, And(g, eq_(r.strip(kk), k), which(id_of(r, d, dev), 'mdid', i)))
        c.equal('%s.device %d' % (K, i), got, want, sp, rule=rule)
    n = F
    for a in range(len(maps[0].e)):
        for b in range(a):
            (g, kk, _), (g2, k2, _) = maps[0].e[a], maps[0].e[b]
            n = Or(n, And(g, g2, eq_(r.strip(kk), r.strip(k2))))
    c.equal(K + '.unique', n, F, sp, rule='one device per number')
    pan = F
    for e in r.I.events:
        if e.kind == 'panic':
            pan = Or(pan, e.pc)
    c.equal(K + '.panic', pan, F, sp, rule='no array makes assembly panic')


@check('C09', floor=60)
def assign(c):
    two = [('SS', (a, b)) for a in range(3) for b in range(3)]
    one = [('S', (a,)) for a in range(3)] + [('T', (0,)), ('M', (0,))]
    mixed = [(k, (1, 1)) for k in ('ST', 'TS', 'SM', 'MS', 'TM', 'MM')]
    three = [('SSS', (1, 1, 1)), ('SSM', (1, 1, 1)), ('MSS', (1, 1, 1))]
    if c.tier != 'quick':
        three += [('SSS', (2, 1, 2)), ('SSS', (0, 1, 1))]
    for k, l in one + two + mixed + three:
        c.section('%s %s' % (k, l), assignment, c, k, l)


# ------------------------------------------------------------------ diagnosis
MAPS = dict(array_uuid_problem='array_uuid', array_name_problem='array_name', algorithm_problem='algorithm', size_problem='sectors_per_device', chunk_size_problem='chunk_size', device_count_problem='raid_device_count',
            reshape_problem='reshape_status', event_count_problem='event_count', device_role_index_problem='device_role_index', device_roles_problem='device_roles')
SETS = dict(device_too_small_problem='T', missing_superblock_problem='M')


def members(r, lst, i):
    """how often the i-th device is in a list of identities"""
    I = r.I
    seq = I.deref_read(lst, r.s) if not isinstance(lst, Seq) else lst
    n = L(0)
    top = max([l[0] for l in leaves(seq.len) if is_const(l)] + [0])
    if not all(is_const(l) for l in leaves(seq.len)):
        raise Unsupported('bounded list of identities')
    for j in range(top):
        e = I.seq_get(seq, const(j), None)
        n = add_(n, ite(And(lt_(L(j), seq.len), which(e, 'mdid', i)), L(1), L(0)))
    return n, seq.len


def value_same(r, a, b):
    from models import value_eq
    return value_eq(r.I, r.s, a, b)


def diagnosis(c, kinds, roles, index, sym_index=False, classes=None):
    r, d, v = opened(c, kinds, roles, index, True, classes)
    c0 = [f for f in c.prog.F if f['path'].endswith('::diagnose') and f.get('body') and re.search(r'MdArray::<', f['full']) and 'NativeBlockDevice' in f['full']]
    f = c0[0] if c0 else c.method(r'MdArray<', 'diagnose')
    x = r.I.expand(r.call(f, r.ref(v)))
    fields = {nm: (ft, y) for (nm, ft), y in zip([q[:2] for q in r.I.ty(x.ty)['variants'][0]['fields']], x.f)}
    K = '%s.%s.%s' % (kinds, '-'.join('%d' % (len(q) if not isinstance(q, int) else q) for q in roles), '-'.join(map(str, index)) if index else 'any')
    sp = f['sp']
    N = len(kinds)
    for nm in list(SETS) + list(MAPS):
        if nm not in fields:
            raise Missing('Diagnosis.' + nm)
    for nm, kind in SETS.items():
        some, fs = r.variant(fields[nm][1], 'Some')
        c.equal('%s.%s' % (K, nm), some, T if kind in kinds else F, sp, rule='reported exactly when some device is in that state')
        if fs is None or some is F:
            continue
        m = fs[0] if isinstance(fs[0], VMap) else r.I.expand(fs[0])
        if not isinstance(m, VMap):
            raise Unsupported('set of identities')
        for i in range(N):
            n = F
            for g, kk, _ in m.e:
                n = Or(n, And(g, which(kk, 'mdid', i)))
            c.equal('%s.%s.device %d' % (K, nm, i), n, T if kinds[i] == kind else F, sp, some, rule='exactly the devices in that state are listed')
    for nm, meth in MAPS.items():
        some, fs = r.variant(fields[nm][1], 'Some')
        has, val = [], []
        for i in range(N):
            h = T if kinds[i] == 'S' else F
            q = d.vals[meth, i]
            if nm == 'array_name_problem':
                q = r.I.expand(q)
                k = [z['name'] for z in r.I.ty(q.ty)['variants']].index('Some')
                h = And(h, q.alts[k][0])
                q = q.alts[k][1][0]
            has.append(h)
            val.append(q)
        same = {(i, j): value_same(r, val[i], val[j]) for i in range(N) for j in range(N)}
        differ = clash = F
        for i in range(N):
            for j in range(i):
                both = And(has[i], has[j])
                differ = Or(differ, And(both, Not(same[i, j])))
                clash = Or(clash, And(both, same[i, j]))
        dup = nm == 'device_role_index_problem'
        want = clash if dup else differ
        c.equal('%s.%s' % (K, nm), some, want, sp, rule='reported exactly when two superblocks %s' % ('have the same index' if dup else 'differ in it'))
        if fs is None or some is F:
            continue
        m = fs[0] if isinstance(fs[0], VMap) else r.I.expand(fs[0])
        if not isinstance(m, VMap):
            raise Unsupported('map of ' + nm)
        for i in range(N):
            right = wrong = L(0)
            for g, kk, lst in m.e:
                n, _ = members(r, lst, i)
                s = value_same(r, kk, val[i])
                right = add_(right, ite(And(g, s), n, L(0)))
                wrong = add_(wrong, ite(And(g, Not(s)), n, L(0)))
            h = has[i]
            if dup:
                o = F
                for j in range(N):
                    if j != i:
                        o = Or(o, And(has[j], same[i, j]))
                h = And(h, o)
            c.equal('%s.%s.device %d' % (K, nm, i), right, ite(h, L(1), L(0)), sp, some, rule='every device is listed once, under its own value')
            c.equal('%s.%s.device %d elsewhere' % (K, nm, i), wrong, L(0), sp, some, rule='no device is listed under the value of another')
        for a, (g, kk, lst) in enumerate(m.e):
            if dup or g is not F:
                n = L(0)
                seq = r.I.deref_read(lst, r.s)
                known = L(0)
                for i in range(N):
                    known = add_(known, members(r, lst, i)[0])
                c.equal('%s.%s.entry %d' % (K, nm, a), seq.len, known, sp, And(some, g), rule='nothing else is listed')
    pan = F
    for e in r.I.events:
        if e.kind == 'panic':
            pan = Or(pan, e.pc)
    c.equal(K + '.panic', pan, F, sp, rule='no array makes the diagnosis panic')


KEYS = (r'md::superblock::array_uuid::ArrayUuid$', r'md::algorithm::MdAlgorithm$', r'md::raid5::algorithm::Raid5Algorithm$', r'md::raid6::algorithm::Raid6Algorithm$', r'md::superblock::reshape_status::ReshapeStatus$')


@check('C10', floor=700)
def diagnose(c):
    S = [('S', [[]], [0]), ('T', [[]], [0]), ('M', [[]], [0]),
         ('SS', [[], []], [0, 0]), ('SS', [[0, 1], [0, 1]], [0, 1]), ('SS', [[0], [0, 1]], [0, 1]), ('SS', [[0, 1], [0, 1]], [0, 0]), ('SS', [[0, 65535], [0, 65535]], [0, 1]),
         ('ST', [[0]] * 2, [0, 0]), ('MS', [[0]] * 2, [0, 0]), ('TM', [[0]] * 2, [0, 0]), ('TT', [[0]] * 2, [0, 0]), ('MM', [[0]] * 2, [0, 0]),
         ('SS', [1, 1], [3, 4]), ('SS', [1, 1], [3, 3]), ('SS', [[], []], None),
         ('SSS', [[], [], []], [0, 0, 0]), ('SSS', [[0, 1, 2]] * 3, [0, 1, 2]), ('SSS', [[0, 1]] * 3, [0, 0, 1]), ('STM', [[0]] * 3, [0, 0, 0]), ('SST', [[0, 1]] * 3, [0, 1, 0]), ('MTS', [[0]] * 3, [0, 0, 0])]
    for k, ro, ix in S:
        c.section('%s %s %s' % (k, ro, ix), diagnosis, c, k, ro, ix)
    c.section('four devices', diagnosis, c, 'SSSS', [[]] * 4, [0] * 4, False, 2)
    for t in KEYS:
        c.section('same ' + t, same_value, c, t, 'superblocks disagree exactly if the values they record differ')


# ------------------------------------------------------------------ formats and capacity
def panics(r):
    p = F
    for e in r.I.events:
        if e.kind == 'panic':
            p = Or(p, e.pc)
    return p


def formats(c, r, d):
    """(agreed format exists, agreed new format exists, fields of the format in force) from the superblock values"""
    I = r.I
    N = len(d.kinds)
    if any(k != 'S' for k in d.kinds):
        return F, F, None
    alg = [d.vals['algorithm', i] for i in range(N)]
    cnt = [r.strip(d.vals['raid_device_count', i]) for i in range(N)]
    size = [r.strip(d.vals['sectors_per_device', i]) for i in range(N)]
    chunk = [r.strip(d.vals['chunk_size', i]) for i in range(N)]
    some, nalg, ncnt, nchunk = [], [], [], []
    for i in range(N):
        v = I.expand(d.vals['reshape_status', i])
        g, fs = r.variant(v, 'Some')
        if fs is None:
            some.append(F)
            for q in (nalg, ncnt, nchunk):
                q.append(None)
            continue
        st = fs[0]
        delta = r.strip(r.field(st, 'delta_devices'))
        n = add_(cnt[i], delta)
        some.append(And(g, le_(n, L(2**32 - 1))))
        nalg.append(r.field(st, 'new_algorithm'))
        ncnt.append(n)
        nchunk.append(r.strip(r.field(st, 'new_chunk_size')))
    old, new = T, some[0]
    for i in range(1, N):
        same = And(value_same(r, alg[0], alg[i]), eq_(cnt[0], cnt[i]), eq_(size[0], size[i]), eq_(chunk[0], chunk[i]))
        old = And(old, same)
        if some[i] is F or some[0] is F:
            new = F
        else:
            new = And(new, some[i], value_same(r, nalg[0], nalg[i]), eq_(ncnt[0], ncnt[i]), eq_(size[0], size[i]), eq_(nchunk[0], nchunk[i]))
    pick = lambda a, b: b if a is None or new is F else I.vite(new, a, b)
    return old, new, dict(algorithm=pick(nalg[0], alg[0]), count=pick(ncnt[0], cnt[0]), chunk=pick(nchunk[0], chunk[0]), size=size[0])


def variant_guard(r, v, name):
    g, _ = r.variant(r.I.expand(v), name)
    return g


def capacity(c, kinds, simple):
    r, d, v = opened(c, kinds, [0] * len(kinds), [0] * len(kinds), simple)
    K = '%s.%s' % (kinds, simple or 'all')
    f = c.method(r'MdArray<', 'block_count')
    old, new, fm = formats(c, r, d)
    x = r.call(f, r.ref(v))
    ok, fs = r.variant(x, 'Ok')
    sp = f['sp']
    have = Or(old, new)
    if fm is None:
        c.equal(K + '.capacity', ok, F, sp, rule='no capacity without a superblock on every device')
        return
    r5, r6 = variant_guard(r, fm['algorithm'], 'Raid5'), variant_guard(r, fm['algorithm'], 'Raid6')
    par = ite(r5, L(1), L(2))
    data = sub_(fm['count'], par)
    cap = mul_(fm['size'], data)
    defined = And(have, Or(r5, r6), le_(par, fm['count']), le_(cap, L(2**64 - 1)))
    c.equal(K + '.defined', ok, defined, sp, rule='a capacity exactly when all superblocks agree on a supported format and the product fits')
    if fs is not None and ok is not F:
        c.equal(K + '.capacity', r.strip(fs[0]), cap, sp, And(ok, defined), rule='sectors per device times data devices of the format in force')
    c.equal(K + '.panic', panics(r), F, sp, rule='no capacity query panics')
    f = c.method(r'MdArray<', 'block_size')
    x = r.call(f, r.ref(v))
    ok, fs = r.variant(x, 'Ok')
    c.equal(K + '.block size', ite(ok, r.strip(fs[0]), L(0)), L(512), f['sp'], rule='arrays have blocks of 512 bytes')


def format_used(c, kinds, simple=True):
    """what a read hands to the algorithm"""
    fs = [f for f in c.prog.F if f['path'].endswith('MdAlgorithm::read_sector') and f.get('body')]
    if not fs:
        return
    r, d, v = opened(c, kinds, [0] * len(kinds), [0] * len(kinds), simple)
    K = kinds + ('.read' if simple is True else '.%s.read' % simple)
    caps = []

    def rs(cc):
        caps.append((cc.args, cc.s.pc))
        return r.I.sym(('sector',), cc.destty['id'])
    r.I.models[fs[0]['path']] = rs
    f = c.method(r'MdArray<', 'read_block')
    old, new, fm = formats(c, r, d)
    a = [r.sym(('arg', i), f['body']['locals'][i + 1]) for i in (1, 2)]
    x = r.call(f, r.ref(v), *a)
    ok, _ = r.variant(x, 'Ok')
    sp = f['sp']
    c.equal(K + '.none', And(ok, Not(Or(old, new))), F, sp, rule='no data without an agreed format')
    if len(caps) != 1 or fm is None:
        return
    args, pc = caps[0]
    short = prd(lambda l: le(l, const(511)), LV(var(('len', ('arg', 2)), 0, 2**63 - 1)))
    c.equal(K + '.reached', pc, And(Or(old, new), Not(short)), sp, rule='a read is attempted exactly when the superblocks agree and the buffer holds a sector')
    alg = r.I.deref_read(args[0], r.s)
    c.equal(K + '.algorithm', value_same(r, alg, fm['algorithm']), T, sp, And(pc, Or(old, new)), rule='algorithm of the format in force')
    c.equal(K + '.sector', r.strip(args[1]), r.strip(a[0]), sp, pc, rule='the sector asked for')
    c.equal(K + '.chunk', r.strip(args[2]), fm['chunk'], sp, And(pc, Or(old, new)), rule='chunk size of the format in force')
    c.equal(K + '.count', r.strip(args[3]), fm['count'], sp, And(pc, Or(old, new)), rule='device count of the format in force')


@check('C11', floor=30)
def fmt(c):
    for k in ('S', 'T', 'M', 'SS', 'ST', 'MS', 'SSS', 'SMS'):
        c.section('capacity ' + k, capacity, c, k, 'levels')
        c.section('read ' + k, format_used, c, k)
        c.section('read levels ' + k, format_used, c, k, 'levels')
    c.section('capacity values S', capacity, c, 'S', False)
    for t in (r'md::format::MdFormat$',) + KEYS[1:4]:
        c.section('same ' + t, same_value, c, t, 'formats agree exactly if all of their values do')


# ------------------------------------------------------------------ reading an array
def fixed_array(c, n, level, layout, chunk, active=None, reshape=False):
    """an array of n members with a fixed format; everything else symbolic"""
    r = c.run()
    I = r.I
    idx = list(range(n))
    if active is not None:
        idx = [i if i in active else n for i in range(n)]
    d = Devices(c, r, 'S' * n, [list(range(n)) + [65535]] * n, idx, True)
    at = c.type(r'MdAlgorithm$')
    names = [x['name'] for x in at['variants']]
    for i in range(n):
        if level is None:
            alg = VEnum(at['id'], {names.index('Unsupported'): (T, [LV(var(('lev',), 0, 4)), LV(var(('lay',), 0, 2**32 - 1))])})
        else:
            lt = I.ty(at['variants'][names.index('Raid%d' % level)]['fields'][0][1])
            alg = VEnum(at['id'], {names.index('Raid%d' % level): (T, [VEnum(lt['id'], {[x['name'] for x in lt['variants']].index(layout): (T, [])})])})
        d.vals['algorithm', i] = alg
        for m, k in (('chunk_size', chunk), ('raid_device_count', n), ('sectors_per_device', 1 << 20)):
            d.vals[m, i] = refill_newtype(r, d.vals[m, i], L(k))
        rt = I.ty(d.vals['reshape_status', i].ty)
        d.vals['reshape_status', i] = VEnum(rt['id'], {[x['name'] for x in rt['variants']].index('None'): (T, [])})
        d.vals['data_offset', i] = refill_newtype(r, d.offset_of(i), LV(var(('data_offset', i), 0, 2**64 - 1)))
    v = r.call(d.open_fn, d.vec)
    return r, d, v


def member_of(key):
    k = repr(key)
    hit = re.findall(r"'mddev', (\d+)", k)
    return int(hit[0]) if len(set(hit)) == 1 else None


def array_read(c, n, level, layout, chunk, sector, active=None, before=(), only=None):
    r, d, v = fixed_array(c, n, level, layout, chunk, active)
    I = r.I
    I.MAX_UNROLL = 1200
    I.only = only
    f = c.method(r'MdArray<', 'read_block')
    buf = r.sym(('buf',), f['body']['locals'][3])
    bn = refill_newtype(r, r.sym(('bn',), f['body']['locals'][2]), L(sector))
    sp = f['sp']
    K = 'raid%s.%s.%d disks.sector %d%s' % (level, layout, n, sector, '' if active is None else '.without %s' % [i for i in range(n) if i not in active])
    if only is not None:
        K += '.zeros but %s' % (only,)
    arr = r.ref(v)
    for k, b in enumerate(before):
        # what was read before, with whatever outcome, makes no difference
        K += '.after %d' % b
        r.call(f, arr, refill_newtype(r, bn, L(b)), r.sym(('before', k), f['body']['locals'][3]))
    seen = len(I.events)
    x = r.call(f, arr, bn, buf)
    ok, fs = r.variant(x, 'Ok')
    c.equal(K + '.panic', panics(r), F, sp, rule='no read panics')
    if level != 6 or active is not None:
        c.equal(K + '.data', ok, F, sp, rule='no data where the algorithm is not readable or a member is missing')
        return
    new, p, q, data = [leaves(g)[0][0] for g in geo_spec(6, layout, L(sector), L(chunk), L(n))]
    short = LV(var(('len', ('buf',)), 0, 2**63 - 1))
    want = le_(L(512), short)
    pos = {}
    key = {}
    done = {}
    order = []
    for e in I.events[seen:]:
        m = member_of(e.data[0]) if e.kind in ('seek', 'read', 'try_clone') else None
        if m is None:
            continue
        if e.kind in ('try_clone', 'seek', 'read'):
            order.append((m, e.kind, e.data[-1]))
        if e.kind == 'read':
            if m in pos:
                raise Unsupported('one read per member')
            pos[m], key[m], done[m] = e.data[1], e.data[0], e.pc
            c.equal('%s.member %d.length' % (K, m), e.data[2], L(512), e.sp, e.pc, rule='one sector of every member')
    for m in range(n):
        if m not in pos:
            c.add('%s.member %d' % (K, m), 'violated', sp, 'member %d is not read' % m, rule='every member is read')
            return
        off = LV(var(('data_offset', m), 0, 2**64 - 1))
        byte = mul_(add_(off, L(new)), L(512))
        fits = le_(byte, L(2**64 - 1))
        want = And(want, fits)
        for mm, kind, g in order:
            if mm == m:
                want = And(want, prd_(g))
        c.equal('%s.member %d.position' % (K, m), pos[m], byte, sp, And(ok, done[m]), rule='the member is read at its data offset plus the sector of the stripe')
    datas = [m for m in range(n) if m not in (p, q)]
    j = 0
    for j in range(512) if only is None else only:
        x_ = L(0)
        b = {m: sector_byte(r, key[m], pos[m], j, ok) for m in range(n)}
        for m in datas:
            x_ = map2(lambda a, b_: bxor(a, b_, 8), x_, b[m])
        want = And(want, eq_(x_, b[p]))
    # what was read before need not be read again: with earlier reads, only what happens when all goes well is compared
    well = And(*[prd_(g) for _, _, g in order]) if before else T
    c.equal(K + '.accepted', ok, want, sp, well, rule='data is returned exactly when every member is read and every byte of the stripe agrees with its parity')
    c.equal(K + '.count', r.strip(fs[0]), L(512), sp, ok, rule='one sector is returned')
    out = I.deref_read(buf, r.s)
    if only is not None:
        from terms import restrict
        for j in sorted({0, 511} | set(only)):
            e = I.seq_get(out, const(j), None)
            c.equal(K + '.byte %d' % j, restrict(e, ok) if isinstance(e, (Node, Leaf)) else e, sector_byte(r, key[data], pos[data], j, ok) if j in only else L(0), sp, ok, rule='the bytes returned are those of the data member')
        return
    jj = var(('j',), 0, 511)
    if out.k not in ('sub', 'abs', 'gen', 'rep'):
        from terms import restrict
        es = [I.seq_get(out, const(i), None) for i in range(512)]
        out = Seq('const', L(512), [restrict(e, ok) if isinstance(e, (Node, Leaf)) else e for e in es])
    c.equal(K + '.bytes', I.seq_get(out, jj, None), sector_byte(r, key[data], pos[data], jj, ok), sp, ok, rule='the bytes returned are those of the data member')


def prd_(g):
    return g if isinstance(g, (Node, Leaf)) else bvar(g) if isinstance(g, tuple) else g


def sector_byte(r, key, pos, j, ok):
    """byte j of the sector read at pos of a member (where the read went well)"""
    from terms import restrict
    l = [x for x in leaves(pos)]
    good = [x for x in l if not any(a.key[0] == 'badpos' for a, _ in x[1])]
    if len(good) != 1:
        raise Unsupported('a single position')
    return LV(load(('disk', key), add(good[0], j if isinstance(j, tuple) else const(j)), 1))


@check('C12', floor=80)
def reads(c):
    cfg = [(4, 'LeftSymmetric', 2, s) for s in (1, 4, 8, 13)] + [(4, 'ParityN', 2, 3), (4, 'Parity0', 2, 2), (3, 'RightAsymmetric', 1, 1), (5, 'LeftSymmetric6', 4, 21)]
    if c.tier != 'quick':
        cfg += [(5, l, 2, s) for l in sorted(set(RAID6.values())) for s in (0, 11, 22)] + [(8, 'LeftSymmetric', 128, s) for s in (1000, 5000)]
    jobs = [('read %d %s %d' % (n, lay, s), array_read, n, 6, lay, chunk, s) for n, lay, chunk, s in cfg]
    jobs += [('read %s' % (b,), array_read, 4, 6, 'LeftSymmetric', 2, s, None, b) for s, b in ((1, (1,)), (5, (4, 5)), (8, (9,)), (5, (5 + 2**32,)))]
    jobs += [('read zeros %s' % (o,), array_read, 4, 6, 'LeftSymmetric', 2, 5, None, (), o) for o in ((0,), (511,), (3, 300))]
    jobs += [('degraded %d' % i, array_read, 4, 6, 'LeftSymmetric', 2, 5, [m for m in range(4) if m != i]) for i in range(4)]
    jobs += [('raid 5', array_read, 4, 5, 'LeftSymmetric', 2, 5), ('unsupported', array_read, 4, None, '', 2, 5)]
    c.parallel(jobs)


# ------------------------------------------------------------------ what makes two recorded values the same
def structural(r, a, b, depth=0):
    """the two values are the same: same variant, same contents"""
    I = r.I
    if depth > 6:
        raise Unsupported('structural')
    if isinstance(a, (Node, Leaf)) and isinstance(b, (Node, Leaf)):
        la = leaves(a) + leaves(b)
        if all(isinstance(x, tuple) for x in la):
            return eq_(a, b)
        if all(isinstance(x, bool) for x in la):
            return Or(And(a, b), And(Not(a), Not(b)))
        raise Unsupported('structural %r' % (la[:1],))
    if isinstance(a, Seq) and isinstance(b, Seq):
        for x, y in ((a, b), (b, a)):
            if x.k == 'ite' and isinstance(x.len, Node):
                g, p, q = x.a
                return Or(And(g, structural(r, p, y, depth + 1)), And(Not(g), structural(r, q, y, depth + 1)))
        if is_const(getattr(a.len, 'v', ())) and is_const(getattr(b.len, 'v', ())) and a.len is not b.len:
            return F
        if not (isinstance(a.len, Leaf) and is_const(a.len.v) and a.len is b.len):
            raise Unsupported('structural length')
        return And(T, *[structural(r, I.seq_get(a, const(i), None), I.seq_get(b, const(i), None), depth + 1) for i in range(a.len.v[0])])
    a, b = I.expand(a), I.expand(b)
    if isinstance(a, VAgg) and isinstance(b, VAgg):
        return And(T, *[structural(r, x, y, depth + 1) for x, y in zip(a.f, b.f)])
    if isinstance(a, VEnum) and isinstance(b, VEnum):
        res = F
        for i in set(a.alts) & set(b.alts):
            (g, x), (h, y) = a.alts[i], b.alts[i]
            res = Or(res, And(g, h, *[structural(r, p, q, depth + 1) for p, q in zip(x, y)]))
        return res
    raise Unsupported('structural %r' % (a,))


def same_value(c, pat, rule):
    from checks_panic import hashed
    r = c.run()
    f = c.method(pat, 'eq', r'cmp::PartialEq')
    t = r.arg_ty(f, 0)
    while t['k'] == 'ref':
        t = r.I.ty(t['elem'])
    nm = pat.split('::')[-1].rstrip('$')
    vs = [r.I.sym(('value', i), t) for i in range(2)]
    ps = [r.ref(r.I.expand(v)) for v in vs]
    want = structural(r, *vs)
    c.equal(nm + ': equal', r.call(f, *ps), want, f['sp'], rule=rule)
    h = c.method(pat, 'hash', r'hash::Hash') if nm != 'MdFormat' else None
    if h is None:
        return
    a, b = hashed(r, h, ps[0]), hashed(r, h, ps[1])
    rule = 'equal values hash alike, so that each is found under its own value'
    if len(a) != len(b) or not a:
        c.add(nm + ': hash', 'undecided', h['sp'], '%d and %d values hashed' % (len(a), len(b)), rule=rule)
        return
    for k, ((p1, x), (p2, y)) in enumerate(zip(a, b)):
        both = And(want, p1)
        c.equal(nm + ': hashed %d when equal' % k, And(want, p2), both, h['sp'], rule=rule)
        c.equal(nm + ': hash %d' % k, And(both, structural(r, x, y)), both, h['sp'], rule=rule)
