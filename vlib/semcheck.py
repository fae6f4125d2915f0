"""Obligations over canonical forms: what the code computes against what the property says it computes."""
import re, os, time
from . import facts, layout
from .symeval import *
from .sym import compare, show, assuming

START = time.time()

FACTS = ['pixelHSizeFromCFAC', 'pixelVSizeFromLFAC', 'CFACFromPixelHSize', 'LFACFromPixelVSize', 'seviriDXFromColumnRes', 'seviriDYFromLineRes',
         'columnResFromSeviriDX', 'lineResFromSeviriDY', 'seviriDXFromCFAC', 'seviriDYFromLFAC', 'CFACFromSeviriDX', 'LFACFromSeviriDY',
         'seviriDXFromPixelHSize', 'seviriDYFromPixelVSize', 'pixelHSizeFromSeviriDX', 'pixelVSizeFromSeviriDY', 'spacecraftIDFromHRIT',
         'spacecraftIDToHRIT', 'spacecraftName', 'spacecraftID', 'sensorName', 'channelName', 'channelUnit', 'channelLevel',
         'channel_central_wavelength', 'channel_central_wave_number', 'channel_from_central_wavelength', 'channel_from_central_wave_number',
         'defaultPackedMissing', 'defaultScaledMissing', 'significantDigitsForChannel', 'sat_za', 'jday', 'cos_sol_za']
CLASSES = ['CosSolZARasterBand', 'JDayRasterBand', 'SatZARasterBand', 'ReflectanceRasterBand', 'SingleChannelReflectanceRasterBand', 'Reflectance39RasterBand',
           'CalibratedRasterBand', 'XRITRasterBand', 'GRIBRasterBand']
METHODS = ['IReadBlock', 'GetOffset', 'GetScale', 'GetNoDataValue', 'GetUnitType', 'GetMinimum', 'GetMaximum', 'init'] + CLASSES
DATASETS = ['CosSolZADataset', 'JDayDataset', 'SatZADataset', 'ReflectanceDataset', 'CalibratedDataset', 'XRITDataset', 'GRIBDataset', 'ProxyDataset']
KEEP = (r'^msat::facts::(%s)\(|::(%s)::~?(%s)\(|::(%s)::~?(%s|init|GetGeoTransform|GetSpatialRef|add_source|init_rasterband|add_info)\(|PixelToLatlon::(PixelToLatlon|compute)\(|'
        r'::read_from\(|MSG_data_RadiometricProc::[a-z_]+\(|DataAccess::[a-z_A-Z0-9]+\(|^radiance_to_reflectance\(|^msat::dataset::([A-Za-z_0-9]+|GeoReferencer::[A-Za-z_0-9]+)\(|'
        r'^GDALTranslate::[A-Za-z_0-9]+\(|::Create[A-Za-z_0-9]+::([A-Za-z_0-9]+_section|create)\(|::Grib::(set_[A-Za-z_0-9]+|get_[A-Za-z_0-9]+|formatTime|setTime|new_from_[A-Za-z_0-9]+|write)\(|'
        r'::(GRIB|XRIT)(Open|CreateCopy)\(|^msat::gdal::[A-Za-z_0-9]+\(|^msat::utils::[A-Za-z_0-9]+::add_(info|source)\(') % (
    '|'.join(FACTS), '|'.join(CLASSES), '|'.join(METHODS), '|'.join(DATASETS), '|'.join(DATASETS))
_progs = {}


def program(keep=KEEP):
    """the program with every function written out in its callers except those kept"""
    if keep not in _progs:
        _progs[keep] = layout.Program(facts.dump('sem', 'all', keep))
    return _progs[keep]


def find(prog, pat):
    r = re.compile(pat)
    return [x for x in prog.fns.values() if r.search(x.dem) and not re.search(r"::\$_\d+|'lambda|\{lambda", x.dem)]


def resolves(types, cls, path):
    """the dotted member path exists in the class (True as well where the types are not known)"""
    toks = [re.sub(r'\[[^\]]*\]', '', t) for t in path.split('.')]
    T = cls

    def member(cn, t):
        for m in types[cn].get('members', []):
            if m['n'] == t:
                return m['t']
        for m in types[cn].get('members', []):
            if not m['n'] and isinstance(m['t'], dict) and m['t'].get('n') in types:
                r = member(m['t']['n'], t)
                if r is not None:
                    return r
        return None
    for t in toks:
        if T not in types or not re.match(r'^\w+$', t):
            return True
        m = member(T, t)
        if m is None:
            return False
        while isinstance(m, dict) and m['k'] == 'arr':
            m = m['e']
        T = m
        if isinstance(m, dict):
            T = m.get('n') if m['k'] == 'struct' else m.get('to') if m['k'] == 'ptr' else None
            if isinstance(T, dict):
                T = T.get('n')
    return True


_names = {}


def function_names(prog):
    if id(prog) not in _names:
        s = set()
        for x in prog.fns.values():
            s.add(short(x.dem).replace('[abi:cxx11]', ''))
            for i in x.inst.values():
                if i['op'] in ('call', 'invoke'):
                    s.add(short(i.get('dem') or i.get('callee') or ''))
        _names[id(prog)] = s
    return _names[id(prog)]


# what the C library provides does not vanish when the program stops using it
LIBRARY = ('gmtime', 'gmtime_r', 'localtime', 'mktime', 'timegm', 'strftime', 'memcpy', 'strlen', 'strcmp', 'find', 'rfind', 'substr', 'size', 'same', 'padded', 'char')


def missing_fields(prog, fn, want, cls):
    """members and functions named by the expectation that the program no longer has"""
    out = []
    roots = {'p%d' % k: c for k, c in enumerate(fn.j.get('ptypes') or []) if c}
    if cls:
        roots['this'] = cls
    for k, a in walk_atoms(want).items():
        if a.kind in ('f', 'mem'):
            m = re.match(r'(this|p\d+)\.([\w.\[\]()+*\x03 -]+)$', a.a[0])
            if m and m.group(1) in roots and not resolves(prog.types, roots[m.group(1)], re.sub(r'\[[^\]]*\]', '', m.group(2))):
                out.append(m.group(0))
        elif a.kind in ('call', 'out') and isinstance(a.a[0], str):
            n = a.a[0].split('{')[0]
            if re.match(r'^\w+$', n) and n not in ('compare', 'decimal', 'format', 'number', 'formatTime', 'text') + LIBRARY and n not in function_names(prog):
                out.append(n + '()')
    return out


def oblige(ctx, key, *a, **k):
    t0 = time.time()
    if t0 - START > 600:
        ctx.undecided(key, 'no time left')
        return None
    try:
        return oblige1(ctx, key, *a, **k)
    finally:
        if os.environ.get('OBTIME'):
            print('%6.2f %s' % (time.time() - t0, key))


def oblige1(ctx, key, got, want, where='', text='', fn=None, prog=None, cls=None, given=None):
    """one obligation: the canonical form of the code equals the expected one"""
    if fn is not None:
        ctx.fn(fn)
        where = where or '%s:%s' % (fn.j.get('file'), fn.j.get('line'))
    if fn is not None:
        ms = missing_fields(prog or program(), fn, want, cls or fn.j.get('cls'))
        if ms:
            ctx.undecided(key, 'no longer there: %s' % ', '.join(ms))
            return None
    try:
        if not any(a.kind == 'isnan' for a in walk_atoms(want).values()):
            # the expectation is about numbers
            got = subst(got, {k: C(0) for k, a in walk_atoms(got).items() if a.kind == 'isnan'})
        r = compare(got, want, given=given)
        if r.diff:
            # the same function may be reached through a call on one side and written out on the other
            p2 = prog or program()
            g2, w2 = inline_calls(p2, got), inline_calls(p2, want)
            if g2.key != got.key or w2.key != want.key:
                r = compare(g2, w2, given=given)
                got, want = g2, w2
    except TooBig:
        ctx.undecided(key, 'expression too large')
        return None
    except RecursionError:
        ctx.undecided(key, 'expression too deep')
        return None
    ctx.count('paths compared', r.paths)
    if r.diff:
        tr, g, w = r.example
        cond = ' and '.join(tr[-6:]) or 'always'
        ctx.violation(key, '%scomputes %s, expected %s, when %s' % (text + ': ' if text else '', g.key[:300], w.key[:300], cond[:500]), where)
    elif r.und:
        tr, g, w = r.example if r.example else ([], got, want)
        ctx.undecided(key, 'outside of the readable forms: %s instead of %s' % (getattr(g, 'key', '?')[:160], getattr(w, 'key', '?')[:160]))
    elif not r.same:
        ctx.undecided(key, 'no value')
    else:
        ctx.good(key, ('%s ' % text if text else '') + '(%d paths) %s' % (r.paths, want.key[:120]))
    return r


_defs = {}


def definition(prog, name):
    """(argument atoms, result) of a project function that only computes, or None"""
    if name not in _defs:
        _defs[name] = None
        fs = [x for x in prog.fns.values() if x.dem.startswith('msat::facts::') and short(x.dem) == name]
        if len(fs) == 1 and fs[0].j['ret'] != 'ptr':
            e = Ev(prog, fs[0], throw_leaf=True)
            try:
                r = e.ret()
            except (TooBig, RecursionError):
                return None
            if r is not BOT and not r.opaque:
                _defs[name] = ([e.val('a%d' % k) for k in range(len(fs[0].j['args']))], r)
    return _defs[name]


def inline_calls(prog, n, depth=0):
    """calls of computing functions replaced with what they compute"""
    mp = {}
    for k, a in walk_atoms(n).items():
        if a.kind == 'call' and isinstance(a.a[0], str):
            d = definition(prog, a.a[0])
            if d and len(d[0]) == len(a.a) - 1:
                mp[k] = subst(d[1], {x.key: y for x, y in zip(d[0], a.a[1:])})
    if not mp or depth > 6:
        return n
    return inline_calls(prog, subst(n, mp), depth + 1)


def stored(ev, base, width):
    """final content of the elements of array `base` (an atom key) written per iteration:
    [(loop header, element offset poly from base, value diagram, inst)]"""
    out, seen = [], set()
    fn = ev.fn
    for k, i in fn.inst.items():
        if i['op'] != 'store' or i['sz'] != width:
            continue
        p = ev.under_known(ev.val(i['p']), fn.blk[k])
        if not isinstance(p, Poly) or not any(a.key == base for a in ev.bases(p)):
            continue
        b = fn.blk[k]
        hs = ev.inner_loops(b)
        key = (p.key, hs[-1] if hs else None)
        if key in seen:
            continue
        seen.add(key)
        off = padd(p, f(base), -1)
        if hs:
            h = hs[-1]
            lat = [x for x in fn.pred[h] if x in ev.loops[h]]
            vs = [ev.memval(p, width, i.get('vt', ''), x, len(fn.blocks[x]['insts'])) for x in lat]
            v = vs[0] if len({x.key for x in vs}) == 1 else P(atom('opq', 'latches'))
            out.append((h, off, v, i))
        else:
            out.append((None, off, ev.exit_mem(p, width, i.get('vt', '')), i))
    return out


def member_offset(prog, cls, name, base=0):
    """(offset, size, pointee class) of a member, searching base classes; name may be dotted"""
    T = prog.types.get(cls)
    if T is None:
        return None
    head, _, rest = name.partition('.')
    for m in T.get('members', []):
        tt = m['t']
        if m['n'] == head:
            if rest and isinstance(tt, dict) and tt['k'] == 'struct':
                return member_offset(prog, tt['n'], rest, base + m['o'])
            to = tt.get('to') if isinstance(tt, dict) and tt['k'] == 'ptr' else None
            return base + m['o'], tt.get('sz', 8) if isinstance(tt, dict) else 8, to.get('n') if isinstance(to, dict) else to
        if not m['n'] and isinstance(tt, dict) and tt['k'] == 'struct':
            r = member_offset(prog, tt['n'], name, base + m['o'])
            if r:
                return r
    return None


def field_at_exit(prog, ev, name, cls=None, t='double'):
    """value of this.<name> when the function returns"""
    mo = member_offset(prog, cls or ev.fn.j['cls'], name)
    if mo is None:
        return None
    return ev.exit_mem(ev.val('a0') + mo[0], mo[1], t)


def one(ctx, prog, pat, key, need=True):
    fs = find(prog, pat)
    if len(fs) != 1:
        ctx.undecided(key, 'no single function matches' if need else 'absent')
        return None
    ctx.fn(fs[0])
    return fs[0]


def field_obligation(ctx, prog, ev, name, want, key=None, t='double'):
    key = key or '%s/%s' % (ev.fn.j['cls'].split('::')[-1], name)
    g = field_at_exit(prog, ev, name, t=t)
    if g is None:
        return ctx.undecided(key, 'no member ' + name)
    oblige(ctx, key, g, want, fn=ev.fn, text='the constructor' if ev.fn.j['sname'] == ev.fn.j['cls'].split('::')[-1] else '')


def call_args(ctx, key, ev, call, wants, where=None):
    """arguments of one call: {index: (what, expected)}"""
    for k, (what, want) in wants.items():
        if k >= len(call['args']):
            ctx.undecided('%s/%s' % (key, what), 'no such argument')
            continue
        got = ev.under_known(ev.val(call['args'][k]), ev.fn.blk['%%%d' % call['id']])
        oblige(ctx, '%s/%s' % (key, what), got, want, where=ev.fn.where(call), text=what, fn=ev.fn)


def elementwise(ctx, key, ev, base, width, want, count=None, text=''):
    """every element of the output array gets want(k) (k: iteration counter of its loop)"""
    st = stored(ev, base, width)
    if not st:
        return ctx.undecided(key, 'no element of the output is stored directly')
    vals = {}
    for h, off, v, i in st:
        if h is None:
            ctx.undecided(key, 'stored outside of a loop')
            continue
        k = ev.k(h)
        c = split_const(off)
        stride = c[0].t.get(((next(iter(k.atoms())), 1),))
        if stride is None or len(c[0].t) != 1:
            ctx.undecided(key, 'the element written is not an affine function of one counter')
            continue
        # in terms of the element number n: k = (width*n - c)/stride
        n = f('n', integer=True)
        sub = Poly({m: x / stride for m, x in padd(pmul(n, C(width)), C(-c[1])).t.items()})
        v = subst(v, {k.key: sub})
        vals[v.key] = (v, i, h, stride, c[1])
    for v, i, h, stride, c0 in vals.values():
        oblige(ctx, key, v, want(f('n', integer=True)), where=ev.fn.where(i), fn=ev.fn, text=text or 'element n')
        if count is not None:
            t = ev.trips(h)
            if t is None or abs(stride) != width:
                ctx.undecided(key + '/count', 'iteration count not readable')
            else:
                oblige(ctx, key + '/count', t, count, where=ev.fn.where(i), text='number of elements written', fn=ev.fn)
                if stride > 0 and c0 != 0:
                    ctx.violation(key + '/first', 'the first element written is at byte %d' % c0, ev.fn.where(i))


def cases(conds):
    """all assignments of conditions that may depend on each other: conds is a list of functions -> diagram"""
    def rec(k, d):
        if k == len(conds):
            yield dict(d)
            return
        with assuming(d):
            c = conds[k]()
        if not isinstance(c, Ite):
            yield from rec(k + 1, d)
            return
        for v in (True, False):
            yield from rec(k + 1, dict(d, **{c.c.key: v}))
    return list(rec(0, {}))


def elem(fmt, *ix):
    """a memory name with symbolic indices, as the evaluator forms it"""
    parts = fmt.split('%s')
    nm, ps = parts[0], []
    for p, x in zip(parts[1:], ix):
        x = x if isinstance(x, Poly) else C(x)
        if x.const() is not None:
            nm += x.key + p
        else:
            nm += '\x03' + p
            ps.append(x)
    return P(atom('mem', nm, *ps)) if ps else f(nm)


def leaves(n, out=None, seen=None):
    out = [] if out is None else out
    seen = set() if seen is None else seen
    if n.key in seen:
        return out
    seen.add(n.key)
    if isinstance(n, Ite):
        leaves(n.hi, out, seen)
        leaves(n.lo, out, seen)
    else:
        out.append(n)
    return out


def throws(n):
    """THROW / 0 per path (a path with an unknown outcome stays unknown)"""
    return apply(lambda p: f('THROW') if p.key == 'THROW' else p if p.opaque else C(0), n)


def unknown(why):
    """a condition that nothing is known of"""
    return deq(P(atom('opq', why)), C(0))


def isval(n, *keys):
    """condition under which a value is one of the given ones (a path with an unknown value stays unknown)"""
    return apply(lambda p: TRUE if p.key in keys else unknown(p.key) if p.opaque else FALSE, n)


def returned(ev):
    """(condition, value, block) of the ways the function returns"""
    fn, out = ev.fn, []

    def way(b, v, c, seen):
        i = fn.inst.get(v) if isinstance(v, str) else None
        if i is not None and i['op'] == 'phi' and fn.blk[v] == b and v not in seen and b not in ev.loops:
            for w, p in i['in']:
                if ev.inner_loops(p) and ev.inner_loops(p) != ev.inner_loops(b):
                    # leaving a loop: unknown iteration
                    way(p, w, dand(c, unknown('iteration:%s' % p)), seen | {v})
                else:
                    e = ev.branch(p, lambda Y: TRUE if Y == b else FALSE)
                    way(p, w, dand(c, FALSE if e is BOT else e), seen | {v})
        else:
            u = ev.under(b) if not ev.inner_loops(b) else FALSE if c.key == '0' else unknown('iteration:%s' % b)
            out.append((dand(c, u), ev.val(v), b))
    for b in fn.blocks:
        t = fn.blocks[b]['insts'][-1]
        if t['op'] == 'ret':
            a = t['a'][0] if t.get('a') else t.get('v')
            if a is not None:
                way(b, a, TRUE, frozenset())
    return out


def common(ev, blocks):
    """nearest block that every path to the given ones goes through"""
    ds = set.intersection(*[ev.dom[b] for b in blocks])
    return max(ds, key=lambda d: len(ev.dom[d]))


def reach(fn, a, b):
    """there is a path from block a to block b"""
    seen, st = set(), list(fn.succ[a])
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        st += fn.succ[x]
    return b in seen


def returns(ev, *keys):
    """condition under which the function returns one of the given values"""
    r = FALSE
    for c, v, b in returned(ev):
        r = dor(r, dand(c, isval(v, *keys)))
    return r


def truth(x):
    """a stored bool as a condition"""
    return dnot(deq(dmod(x, 2), C(0)))


def flags(cond, value):
    """assumption that a one-comparison condition has a value (for `assuming`)"""
    if not isinstance(cond, Ite):
        return {}
    assert not isinstance(cond.hi, Ite) and not isinstance(cond.lo, Ite)
    return {cond.c.key: value == (cond.hi.const() == 1)}


def ret_of(ev, pat):
    """result of the only call that matches, or a fresh unknown"""
    cs = ev.calls(pat)
    return ev.val('%%%d' % cs[0][1]['id']) if len(cs) == 1 else P(atom('opq', 'no call'))


WRITERS = ('snprintf', 'sprintf', '__snprintf_chk', 'strftime', 'formatTime')


def string_object(ev, v, at, depth=0):
    """what a local string object or character buffer holds when block/instruction `at` is reached: the call that
    filled it, as a term; None when that is not one call"""
    b, n = at
    fn = ev.fn
    found = []
    for k, i in fn.inst.items():
        if i['op'] not in ('call', 'invoke') or i.get('indirect') or not i.get('args'):
            continue
        d = i.get('dem') or i.get('callee') or ''
        nm = short(d)
        pos = next((j for j, a in enumerate(i['args'][:2]) if isinstance(a, str) and getattr(ev.val(a), 'key', None) == v.key), None)
        if pos is None:
            continue
        w = nm in WRITERS or nm in ('to_string', 'basic_string', 'operator=', 'assign', 'operator+', 'substr', 'str') and (pos == 0)
        if not w and pos == 0 and not ev.readonly(i, 0) and nm not in ('~basic_string', 'c_str', 'data', '_M_dispose', '_Alloc_hider', '~_Alloc_hider') and fn.inst[k].get('at', [''])[0] == 'ptr' and i.get('sret'):
            w = True
        if w:
            kb = fn.blk[k]
            kn = fn.blocks[kb]['insts'].index(i)
            if kb == b and kn < n or kb != b and kb in ev.dom[b]:
                found.append((len(ev.dom[kb]), kn, i, nm, pos))
            elif kb != b and b in fn.reach(kb):
                return None
    if not found:
        return None
    found.sort(key=lambda x: x[:2])
    _, _, i, nm, pos = found[-1]
    xs = [ev.under_known(ev.val(a), fn.blk['%%%d' % i['id']]) for a in i['args']]
    if nm in ('snprintf', '__snprintf_chk', 'sprintf'):
        fx = [x for x in xs if isinstance(x, Poly) and x.key.startswith('"')]
        if len(fx) != 1:
            return None
        rest = xs[[x.key for x in xs].index(fx[0].key) + 1:]
        return apply(lambda *ps: P(atom('call', 'decimal' if re.match(r'"%l*[du]"$', fx[0].key) else 'format', *([] if re.match(r'"%l*[du]"$', fx[0].key) else [fx[0]]), *ps)), *rest)
    if nm == 'strftime':
        return apply(lambda *ps: P(atom('call', 'strftime', *ps)), *xs[2:4])
    if nm == 'to_string':
        return apply(lambda p: P(atom('call', 'decimal', p)), xs[1])
    if nm == 'formatTime':
        return P(atom('call', 'formatTime', xs[0]))
    if nm in ('basic_string', 'operator=', 'assign') and len(xs) > 1:
        return text_value(ev, xs[1], (fn.blk['%%%d' % i['id']], fn.blocks[fn.blk['%%%d' % i['id']]]['insts'].index(i)), depth + 1)
    if i.get('sret') and pos == 0 and (i.get('dem') or '').startswith('msat::'):
        return apply(lambda *ps: P(atom('call', nm, *ps)), *xs[1:]) if len(xs) > 1 else P(atom('call', nm))
    return None


def text_value(ev, v, at, depth=0):
    """the text that a pointer to characters or a string object stands for"""
    if isinstance(v, Ite):
        t = [text_value(ev, p, at, depth) for p in leaves(v)]
        return apply_d(lambda p: text_value(ev, p, at, depth), v) if all(z is not None for z in t) else None
    if not isinstance(v, Poly) or depth > 6:
        return None
    a = list(v.atoms())
    if len(a) == 1 and a[0].kind == 'call' and a[0].a[0] in ('c_str', 'data') and len(a[0].a) == 2 and v.key == a[0].key:
        return text_value(ev, a[0].a[1], at, depth + 1)
    if v.key.startswith('local:'):
        return string_object(ev, v, at, depth)
    return v


def text_arg(ev, call, k):
    key = '%%%d' % call['id']
    b = ev.fn.blk[key]
    n = ev.fn.blocks[b]['insts'].index(call)
    v = ev.under_known(ev.val(call['args'][k]), b)
    return apply_d(lambda p: text_value(ev, p, (b, n)) or P(atom('opq', 'text of %s' % key)), v)


def method_calls(ev, name):
    """calls of a method, virtual or not"""
    out = []
    for k, i in ev.fn.inst.items():
        if i['op'] in ('call', 'invoke'):
            n = (ev.slot(i) or '') if i.get('indirect') else short(i.get('dem') or i.get('callee') or '')
            if n == name:
                out.append(i)
    return out


def metadata(ctx, key, ev, wants, fn=None, done=None):
    """the text of every metadata item that is set, and that each is set on every path that succeeds"""
    seen = {}
    for i in method_calls(ev, 'SetMetadataItem'):
        b = ev.fn.blk['%%%d' % i['id']]
        name = ev.under_known(ev.val(i['args'][1]), b)
        nm = name.key.strip('"') if isinstance(name, Poly) and name.key.startswith('"') else None
        if nm is None:
            ctx.undecided('%s/metadata' % key, 'item of unreadable name')
            continue
        seen.setdefault(nm, []).append(i)
        if nm not in wants:
            continue
        oblige(ctx, '%s/%s' % (key, nm), text_arg(ev, i, 2), wants[nm], where=ev.fn.where(i), text='metadata item ' + nm, fn=ev.fn)
        oblige(ctx, '%s/%s/domain' % (key, nm), ev.under_known(ev.val(i['args'][3]), b), f('""'), where=ev.fn.where(i), text='metadata domain of ' + nm, fn=ev.fn)
        oblige(ctx, '%s/%s/object' % (key, nm), ev.under_known(ev.val(i['args'][0]), b), f('this'), where=ev.fn.where(i), text='object of ' + nm, fn=ev.fn)
    for nm in wants:
        cs = seen.get(nm, [])
        if not cs:
            if any(True for i in method_calls(ev, 'SetMetadata')):
                ctx.undecided('%s/%s' % (key, nm), 'set elsewhere')
            else:
                ctx.violation('%s/%s' % (key, nm), 'the metadata item %s is never set' % nm, '%s:%s' % (ev.fn.j.get('file'), ev.fn.j.get('line')))
            continue
        reached(ctx, '%s/%s/set' % (key, nm), ev, cs, done, 'metadata item %s is set' % nm)


def reached(ctx, key, ev, calls, done=None, text=''):
    """one of the calls is made on every path that returns (with `done` not 0)"""
    r = FALSE
    for i in calls:
        r = dor(r, ev.under(ev.fn.blk['%%%d' % i['id']]))
    oblige(ctx, key, r, TRUE, where=ev.fn.where(calls[0]), text=text, fn=ev.fn, given=done)
