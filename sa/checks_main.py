"""The program: what it does with the devices it is given and what it prints."""
from checks_panic import *
from models import result


def cli(c, n, mask):
    """main with n paths, of which those in mask cannot be opened"""
    r = c.run()
    I = r.I
    main = c.fn(full='main')
    sp = main['sp']

    def key(cx, v):
        for _ in range(6):
            if isinstance(v, Leaf) and isinstance(v.v, Ptr):
                v = cx.I.read_ptr(v.v, cx.s)
        if isinstance(v, (VEnum, VAgg)):
            return ('structure', cx.I.vkey(v, cx.s.st))
        return v.key if isinstance(v, VOpq) else cx.I.vkey(v, cx.s.st)

    def parse(cx):
        fs = []
        for nm, t in [(f[0], f[1]) for f in cx.destty['variants'][0]['fields']]:
            fs.append(Seq('const', L(n), [VOpq(('path', i), elem(I, t)) for i in range(n)]) if nm == 'devices' else Seq('const', L(0), []) if cx.I.ty(t).get('path') == 'std::vec::Vec' else cx.I.sym(('option', nm), t))
        return VAgg(cx.destty['id'], fs)

    def opened(cx):
        k = key(cx, cx.args[0])
        cx.I.event('opened', cx.s.pc, (k,), cx.t['sp'])
        if not (isinstance(k, tuple) and len(k) == 2 and k[0] == 'path'):
            raise Unsupported('path')
        ts = [x['fields'][0][1] for x in cx.destty['variants']]
        ok = F if mask >> k[1] & 1 else T
        return result(cx.destty, ok, VOpq(('device', k[1]), ts[0]), VOpq(('error', k[1]), ts[1]))

    def array(cx):
        v = cx.args[0]
        for _ in range(3):
            if isinstance(v, Leaf) and isinstance(v.v, Ptr):
                v = cx.I.read_ptr(v.v, cx.s)
        if not isinstance(v, Seq) or not (isinstance(v.len, Leaf) and is_const(v.len.v)):
            raise Unsupported('devices %r' % (v,))
        return VOpq(('array', tuple(key(cx, cx.I.seq_get(v, const(i), None)) for i in range(v.len.v[0]))), cx.destty['id'])

    def opaque(tag):
        return lambda cx: VOpq((tag, key(cx, cx.args[0])), cx.destty['id'])

    def arguments(cx):
        v = cx.args[1] if len(cx.args) > 1 else None
        for _ in range(3):
            if isinstance(v, Leaf) and isinstance(v.v, Ptr):
                v = cx.I.read_ptr(v.v, cx.s)
        if v is None:
            return VOpq(('text',), cx.destty['id'])
        if not isinstance(v, Seq) or not (isinstance(v.len, Leaf) and is_const(v.len.v)):
            raise Unsupported('arguments %r' % (v,))
        return VOpq(('text',) + tuple(key(cx, cx.I.seq_get(v, const(i), None)) for i in range(v.len.v[0])), cx.destty['id'])

    def printed(cx):
        cx.I.event('print', cx.s.pc, (key(cx, cx.args[0]),), cx.t['sp'])
        return VAgg(cx.destty['id'], [])
    ms = dict(I.models)
    ms['clap::Parser::parse'] = parse
    for pat, m in ((r'MdDevice::<[^>]*>::open_path$', opened), (r'MdArray::<D>::open$', array), (r'MdArray::<D>::diagnose$', opaque('diagnosis'))):
        hit = {f['path'] for f in c.prog.F if f.get('local') and re.search(pat, f['path'])}
        if not hit:
            raise Missing('no function ' + pat)
        for p in hit:
            ms[p] = m
    ms['os_display::Quotable::maybe_quote'] = ms['os_display::Quotable::quote'] = opaque('quoted')
    for nm in ('display', 'debug', 'lower_hex', 'upper_hex'):
        ms["core::fmt::rt::Argument::<'_>::new_" + nm] = opaque(nm)
    ms["std::fmt::Arguments::<'a>::new"] = ms["std::fmt::Arguments::<'a>::from_str"] = arguments
    ms['std::io::_print'] = ms['std::io::_eprint'] = printed
    I.models = ms
    r.call(main)
    K = 'devices %s: ' % (''.join('x' if mask >> i & 1 else 'o' for i in range(n)) or 'none')
    seen = [e for e in I.events if e.kind == 'print']
    lines = [mentioned(e.data[0]) for e in seen]
    unknown = [e for e in seen if e.pc is not T] or [k for ks in lines for k in ks if k[0] not in ('path', 'error', 'diagnosis', 'array', 'device')]
    got = [[k for k in ks if k[0] in ('path', 'error', 'diagnosis')] for ks in lines]
    flat = [k for ks in got for k in ks]
    bad = [i for i in range(n) if mask >> i & 1]
    strange = unknown or I.unknown
    diag = ('diagnosis', ('array', tuple(('device', i) for i in range(n))))

    def settle(nm, ok, text, rule):
        c.add(K + nm, 'proved' if ok else 'undecided' if strange else 'violated', sp, '' if ok else text, None if ok else ['devices that cannot be opened: %s' % [i for i in bad], 'printed: %s' % (lines,)], rule)
    if bad:
        rule = 'if a device cannot be opened, every such device is named together with its error, in order'
        settle('failures', sorted(set(flat)) == sorted([('path', i) for i in bad] + [('error', i) for i in bad]), 'printed: %s' % (lines,), rule)
        settle('order', [k[1] for k in flat if k[0] == 'path'] == bad and [k[1] for k in flat if k[0] == 'error'] == bad, 'printed: %s' % (lines,), rule)
        settle('no diagnosis', not any(k[0] == 'diagnosis' for k in flat), 'a diagnosis is printed though a device could not be opened', 'there is no diagnosis of an incomplete set of devices')
    else:
        settle('diagnosis', [k for k in flat if k[0] == 'diagnosis'] == [diag], 'printed: %s' % (lines,), 'if every device can be opened, the diagnosis of all of them, in order, is printed once')
        settle('no failures', not any(k[0] in ('path', 'error') for k in flat), 'a failure is printed', 'failures are printed only if there are some')
    panics(c, r, K, T, 0, 'the program cannot panic')


def elem(I, t):
    return I.ty(t)['args'][0] if I.ty(t).get('args') else 0


def mentioned(k):
    """the devices, errors and diagnoses a printed text is made of"""
    if isinstance(k, tuple) and k:
        if k[0] in ('path', 'error', 'device') and len(k) == 2 and isinstance(k[1], int) or k[0] == 'diagnosis':
            return [k]
        if k[0] in ('call', 'unk', 'ret', 'mut'):
            return [('unknown', k)]
        return [x for y in k for x in mentioned(y)]
    return []


@check('C29', floor=40)
def program(c):
    c.parallel([('main %d %d' % (n, m), cli, n, m) for n in range(6 if c.tier == 'quick' else 8) for m in range(1 << n)])
