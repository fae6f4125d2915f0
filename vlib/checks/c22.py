import itertools, json, os
from ..semcheck import *
from .. import facts, layout, sym
LEVEL = 'proof'
RULE = '''Value numbering of the decoders of HRI (Meteosat first generation) subframes: the value of each member after a record is read must
be the conversion of the bytes at its position in the record, the conversions, the indicators and the format code must equal their
formulas for every content, and the lines of an image must go to and come from their own places.'''
ASSUME = ['real-number semantics']
TRUST = ['the record layout in spec/hri.json', 'the formulas in vlib/checks/c22.py']
HERE = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))


def named(prog, pat):
    return [f for f in prog.fns.values() if re.search(pat, f.j['dem'])]


def at(x):
    return '%s:%s' % (x.j['file'], x.j['line'])


def run(ctx):
    prog = layout.Program(facts.dump('sem', 'all', '^HRI_(machine|subframe_|image)'))
    for c in ('label', 'interpretation', 'identification'):
        ctx.part('fields/' + c, fields, ctx, prog, c)
    ctx.part('machine', machine, ctx, prog)
    ctx.part('indicators', indicators, ctx, prog)
    ctx.part('date', date, ctx, prog)
    ctx.part('image', image, ctx, prog)
    ctx.part('calibration', calibration, ctx, prog)
    ctx.part('format', fmt, ctx)
    ctx.part('assembly', assembly, ctx)


CONV = {'i2_from_buff', 'i4_from_buff', 'r4_from_buff', 'r8_from_buff', 'r4_from_char6', 'r4_from_char3', 'r4f_from_char3', 'r4_from_char5',
        'i2_from_char3', 'i2_from_char2', 'r4f_from_char5'}


def fields(ctx, prog, c):
    xs = named(prog, r'HRI_subframe_%s::readfrom\(' % c)
    if len(xs) != 1:
        return ctx.undecided('fields/' + c, 'no single reader')
    x = xs[0]
    ctx.fn(x)
    ev = Ev(prog, x)
    buf, this = ev.val('a1'), ev.val('a0')
    conv = member_offset(prog, x.j['cls'], 'conv')
    have = {short(f.j['dem']) for f in named(prog, r'^HRI_machine::')}
    for name, kind, off in json.load(open(os.path.join(HERE, 'spec/hri.json')))[c]:
        key = '%s/%s' % (c, name)
        g = field_at_exit(prog, ev, name)
        if g is None:
            ctx.undecided(key, 'no such member')
        elif kind in ('byte', 'flag'):
            b = argbyte(buf, off)
            oblige(ctx, key, g, ite(deq(b, C(0)), C(0), C(1)) if kind == 'flag' else b, fn=x, prog=prog, text='read')
        else:
            m = re.match(r'^call\((\w+),\((\d+) \+ this\),(?:p1|\((\d+) \+ p1\))\)$', show(g))
            if m and m[1] in CONV and m[1] in have and conv and int(m[2]) == conv[0]:
                if m[1] == kind and int(m[3] or 0) == off:
                    ctx.good(key)
                else:
                    ctx.violation(key, '%s: %s is %s of byte %d, not %s of byte %d' % (at(x), name, m[1], int(m[3] or 0), kind, off))
            elif re.match(r'^-?\d+$', show(g)) or show(g) in ('this.' + name, '*this'):
                ctx.violation(key, '%s: %s is %s, not %s of byte %d' % (at(x), name, show(g), kind, off))
            else:
                ctx.undecided(key, 'read in some other way: ' + show(g)[:80])


def argbyte(buf, k):
    return f('p1[%d]' % k, True) if k else f('*p1', True)


WORD = re.compile(r'^(p1)\.u(\d)[bl]e@(\d+)$')


class Bytes(sym.Num):
    """the value of a diagram over bytes: an equality of one byte with a constant is one of bytes, and rounding to float is ignored"""

    def __init__(self, env):
        super().__init__(env, 1)

    def atom_(self, a):
        if a.kind == 'f32':
            return self.arg(a.a[0])
        m = WORD.match(a.key)
        if m:
            k = range(int(m[3]), int(m[3]) + int(m[2]))
            b = [int(self.env['p1[%d]' % j if j else '*p1']) for j in (k if 'be' in a.key else reversed(k))]
            v = 0
            for x in b:
                v = v << 8 | x
            return float(v)
        return super().atom_(a)

    def cond(self, c):
        v = self.poly(c.p)
        if c.kind == 'eq' and all(abs(v_) == 1 and len(m) == 1 and m[0][0].key in self.env for m, v_ in c.p.t.items() if m):
            return round(v) % 256 == 0
        return super().cond(c)


OPS = {'and', 'or', 'xor', 'mod', 'wrap', 'swrap', 'shl', 'sum', 'f32', 'int', 'sdiv', 'idiv'}


def tabulate(ctx, key, x, got, atoms, values, want, text, mod=None, tol=1e-3, fixed={}):
    """the diagram `got` over the bytes named `atoms` has the value want(*bytes) for all combinations of `values`"""
    if got is None:
        return ctx.undecided(key, 'no value')
    for a in walk_atoms(got).values():
        if a.key not in atoms and a.key not in fixed and a.kind not in OPS and not WORD.match(a.key):
            return ctx.undecided(key, 'depends on ' + a.key[:60])
    for vs in itertools.product(values, repeat=len(atoms)):
        w = want(*vs)
        if w is None:
            continue
        g = Bytes({**dict(zip(atoms, map(float, vs))), **fixed}).node(got)
        if g != g:
            return ctx.undecided(key, 'no value for bytes %s' % (vs,))
        if (abs(g - w) > tol) if mod is None else (round(g) - w) % mod:
            return ctx.violation(key, '%s: %s %s for bytes %s instead of %s' % (at(x), text, sym.fmt(g), ' '.join(map(str, vs)), sym.fmt(w)))
    ctx.good(key)


def machine(ctx, prog):
    W = {'r4_from_char6': (100, 10, 1, .1, .01, .001), 'r4_from_char5': (100, 10, 1, .1, .01), 'r4_from_char3': (1, .1, .01), 'r4f_from_char3': (10, 1, .1),
         'r4f_from_char5': (.1, .01, .001, .0001, .00001), 'i2_from_char3': (100, 10, 1), 'i2_from_char2': (10, 1)}
    for n, w in W.items():
        x = one(ctx, prog, 'HRI_machine::%s\\(' % n, 'machine/' + n)
        if x:
            tabulate(ctx, 'machine/' + n, x, Ev(prog, x).ret(), byten(len(w)), (32, 48, 49, 57),
                     lambda *b, w=w: sum((c - 48) * k for c, k in zip(b, w) if c != 32), n + ' returns', tol=1e-6 * max(1, w[0]))
    for n, l in (('i2_from_buff', 2), ('i4_from_buff', 4)):
        x = one(ctx, prog, 'HRI_machine::%s\\(' % n, 'machine/' + n)
        if x:
            tabulate(ctx, 'machine/' + n, x, Ev(prog, x).ret(), byten(l), (0, 1, 128, 255), lambda *b: sum(c << 8 * k for k, c in enumerate(reversed(b))), n + ' returns',
                     mod=1 << 8 * l, fixed={'this.isbig': 0.0})
    for n, l in (('r4_from_buff', 4), ('r8_from_buff', 8)):
        x = one(ctx, prog, 'HRI_machine::%s\\(' % n, 'machine/' + n)
        if x:
            own_bytes(ctx, prog, 'machine/' + n, x, l)
    x = one(ctx, prog, r'HRI_machine::HRI_machine\(\)', 'machine/order')
    if x:
        g = field_at_exit(prog, Ev(prog, x), 'isbig')
        if g is None or not isinstance(g, Poly) or g.const() is None:
            ctx.undecided('machine/order', 'the byte order is not a constant')
        elif g.const() % 2:
            ctx.violation('machine/order', '%s: the byte order of this machine is taken for the other one' % at(x))
        else:
            ctx.good('machine/order')


def own_bytes(ctx, prog, key, x, n):
    """a number of n bytes is made of exactly these"""
    ev = Ev(prog, x)
    buf, seen, other = ev.val('a1'), set(), False
    for i in x.inst.values():
        if i['op'] == 'load':
            d = ev.val(i['p']) - buf
            if isinstance(d, Poly) and d.const() is not None:
                seen |= set(range(int(d.const()), int(d.const()) + i['sz']))
            elif isinstance(d, Poly) and not any(a.key == 'p1' for a in d.atoms()):
                other = True
        elif i['op'] in ('call', 'invoke') and any('p1' in show(ev.val(a)) for a in i['args']):
            other = True
    out = sorted(b for b in seen if not 0 <= b < n)
    if out:
        ctx.violation(key, '%s: byte %d is used for a number of %d bytes' % (at(x), out[0], n))
    elif len(seen) == n:
        ctx.good(key)
    elif other:
        ctx.undecided(key, 'bytes taken in some other way')
    else:
        ctx.violation(key, '%s: bytes %s of a number of %d bytes are not used' % (at(x), sorted(set(range(n)) - seen), n))


def byten(n):
    return ['*p1'] + ['p1[%d]' % k for k in range(1, n)]


def indicators(ctx, prog):
    B = tuple(range(256))
    f1, v1, v2, gr, en, sc = ('this.%s_indicator' % n for n in ('format', 'VISs', 'VISn', 'grid', 'encryption', 'scan_direction'))
    is_ = lambda k: lambda b: b == k
    on = lambda b: b != 0
    bit = lambda k: lambda b: bool(b & k)
    T = {'is_A_format': (f1, is_(0)), 'is_B_format': (f1, is_(255)), 'is_X_format': (f1, is_(15)), 'is_VISs_present': (v1, on), 'is_VISn_present': (v2, on),
         'is_IR_present': ('this.IR_indicator', on), 'is_WV_present': ('this.WV_indicator', on), 'is_VISs_1st_half_present': (v1, is_(240)),
         'is_VISs_2nd_half_present': (v1, is_(15)), 'is_VISn_1st_half_present': (v2, is_(240)), 'is_VISn_2nd_half_present': (v2, is_(15)),
         'is_VISs_reduced': (v1, is_(255)), 'is_VISn_reduced': (v2, is_(255)), 'is_VISs_encrypted': (en, bit(8)), 'is_VISn_encrypted': (en, bit(4)),
         'is_IR_encrypted': (en, bit(2)), 'is_WV_encrypted': (en, bit(1)), 'is_scan_SN_EW': (sc, is_(0)), 'is_scan_NS_EW': (sc, is_(240)),
         'is_scan_SN_WE': (sc, is_(15)), 'is_scan_NS_WE': (sc, is_(255)), 'is_grid_present': (gr, on)}
    for n, (a, w) in T.items():
        x = one(ctx, prog, 'HRI_subframe_label::%s\\(' % n, 'label/' + n)
        if x:
            tabulate(ctx, 'label/' + n, x, Ev(prog, x).ret(), [a], B, lambda b, w=w: int(w(b)), n + ' is', mod=2)
    s = ['this.satellite_indicator[0]', 'this.satellite_indicator[1]']
    for n, w in (('Meteosat', lambda a, b: a > 0), ('GOES_E', lambda a, b: (a, b) == (0, 0)), ('GOES_W', lambda a, b: (a, b) == (0, 1)),
                 ('GMS', lambda a, b: (a, b) == (0, 2)), ('GOMS', lambda a, b: (a, b) == (0, 3))):
        x = one(ctx, prog, r'HRI_subframe_identification::is_%s\(' % n, 'identification/is_' + n)
        if x:
            tabulate(ctx, 'identification/is_' + n, x, Ev(prog, x).ret(), s, (0, 1, 2, 3, 4, 212, 255), lambda a, b, w=w: int(w(a, b)), 'is_%s is' % n, mod=2)


def date(ctx, prog):
    xs = named(prog, r'HRI_subframe_identification::readfrom\(')
    if len(xs) != 1:
        return ctx.undecided('identification/date', 'no single reader')
    x = xs[0]
    ev = Ev(prog, x)
    conv = member_offset(prog, x.j['cls'], 'conv')
    n = P(atom('call', 'i2_from_buff', ev.val('a0') + conv[0], ev.val('a1') + 6, integer=True)) if conv else None
    g = [field_at_exit(prog, ev, m) for m in ('nominal_time', 'hour', 'minute')]
    if n is None or any(v is None for v in g) or g[0].key != n.key:
        ctx.undecided('identification/hour', 'the time is read in some other way')
    else:
        h = dsdiv(n, C(100))
        oblige(ctx, 'identification/hour', g[1], h, fn=x, prog=prog, text='the hour')
        oblige(ctx, 'identification/minute', g[2], n - 100 * h, fn=x, prog=prog, text='the minute')
    m = re.compile(r'^call\(gmtime(_r)?,.*\)\[(\d+)\]$')
    for name, off, add in (('month', 16, 1), ('day', 12, 0)):
        g = field_at_exit(prog, ev, name)
        k = m.match(show(g - add)) if isinstance(g, Poly) else None
        j = m.match(show(g)) if isinstance(g, Poly) else None
        if k and int(k[2]) == off:
            ctx.good('identification/' + name)
        elif k or j:
            ctx.violation('identification/' + name, '%s: the %s is not the one of the date the day of the year gives: %s' % (at(x), name, show(g)))
        else:
            ctx.undecided('identification/' + name, 'found in some other way')
    st, mk = [], ev.calls(r'^(timegm|mktime|timelocal)$')
    gm = ev.calls(r'^(gmtime|localtime)(_r)?$')
    if len(mk) == 1 and len(gm) == 1:
        a, b = ev.cname(mk[0][1]), ev.cname(gm[0][1])
        if (a == 'timegm') != b.startswith('gmtime'):
            ctx.violation('identification/zone', '%s: the day of the year is turned into a date by %s and %s, of different time zones' % (at(x), a, b))
        else:
            ctx.good('identification/zone')
        jd = field_at_exit(prog, ev, 'julian_day')
        day = None
        p = ev.val(gm[0][1]['args'][0])
        for k, i in x.inst.items():
            if i['op'] == 'store' and i['sz'] == 8 and ev.val(i['p']).key == p.key:
                st.append((k, i))
        if len(st) == 1:
            v = ev.val(st[0][1]['a'][0] if st[0][1].get('a') else st[0][1]['v'])
            t = [q for q in v.atoms() if q.kind == 'call' and q.a[0] == a] if isinstance(v, Poly) else []
            if len(t) == 1 and jd is not None:
                oblige(ctx, 'identification/epoch', v - P(t[0]), 86400 * jd - 86400, fn=x, prog=prog, text='seconds from the first day of the year')
            else:
                ctx.undecided('identification/epoch', 'found in some other way')
    else:
        ctx.undecided('identification/zone', 'not one conversion each way')


def image(ctx, prog):
    I = lambda n: f('this.' + n, True)
    for n, dst, src, size, k in (('put_line', lambda e: f('this.data') + e.val('a3') * I('npixels'), lambda e: e.val('a1'), lambda e: I('npixels'), 3),
                                 ('get_line', lambda e: f('this.aline'), lambda e: f('this.data') + e.val('a1') * I('npixels'), lambda e: I('npixels'), 1)):
        x = one(ctx, prog, r'^HRI_image::%s\(' % n, n)
        if not x:
            continue
        ev = Ev(prog, x)
        cs = [i for i in x.inst.values() if i['op'] == 'call' and re.search(r'(memcpy|memmove)', i.get('callee') or '')]
        if len(cs) != 1:
            ctx.undecided(n, 'not one copy')
            continue
        i = cs[0]
        b = x.blk['%%%d' % i['id']]
        u = ev.under(b)
        for what, g, w in (('to', ev.val(i['args'][0]), dst(ev)), ('from', ev.val(i['args'][1]), src(ev)), ('pixels', ev.val(i['args'][2]), size(ev))):
            oblige(ctx, '%s/%s' % (n, what), g, w, fn=x, prog=prog, text=what, given=u)
        line = ev.val('a%d' % k)
        oblige(ctx, n + '/inside', dand(u, dor(dlt(line, C(0)), dlt(I('lastlin'), line))), FALSE, fn=x, prog=prog, text='a line outside of the image is copied')
    x = one(ctx, prog, r'^HRI_image::get_pixel\(', 'get_pixel')
    if x:
        ev = Ev(prog, x)
        i1, i2 = ev.val('a1'), ev.val('a2')
        g = ev.ret()
        w = None
        for a in walk_atoms(g).values():
            if a.key.startswith('this.data['):
                w = a if w is None else False
        if not w:
            ctx.undecided('get_pixel', 'not one pixel')
        elif w.key in ('this.data[(i1*this.npixels + i2)]', 'this.data[(i2 + i1*this.npixels)]'):
            oblige(ctx, 'get_pixel', g, ite(deq(I('size'), C(0)), C(0), P(w)), fn=x, prog=prog, text='returned')
        elif re.match(r'^this\.data\[[-+*() \di]*(?:this\.(?:npixels|nlines|halflin|lastpix|lastlin)[-+*() \di]*)*\]$', w.key):
            ctx.violation('get_pixel', '%s: the pixel at line i1 and column i2 is %s' % (at(x), w.key))
        else:
            ctx.undecided('get_pixel', 'read in some other way: ' + w.key)
    x = one(ctx, prog, r'^HRI_image::set_format_band\(', 'set_format_band')
    if x:
        ev = Ev(prog, x)
        v = {n: field_at_exit(prog, ev, n) for n in ('size', 'npixels', 'nlines', 'lastpix', 'lastlin', 'samplex', 'sampley')}
        oblige(ctx, 'format/size', v['size'], dmul(v['npixels'], v['nlines']), fn=x, prog=prog, text='size')
        oblige(ctx, 'format/lastpix', v['lastpix'], dsum(v['npixels'], C(1), -1), fn=x, prog=prog, text='last pixel')
        oblige(ctx, 'format/lastlin', v['lastlin'], dsum(v['nlines'], C(1), -1), fn=x, prog=prog, text='last line')
        i2, i3 = ev.val('a2'), ev.val('a3')
        A, Bf, vis = deq(i2, C(0)), deq(i2, C(1)), deq(i3, C(2))
        n = ite(A, ite(vis, C(5000), C(2500)), ite(Bf, ite(vis, C(2500), C(1250)), C(1250)))
        l = ite(A, ite(vis, C(5000), C(2500)), ite(Bf, ite(vis, C(1250), C(625)), C(1250)))
        ok = dand(dlt(C(-1), i2), dand(dlt(i2, C(3)), dand(dlt(C(-1), i3), dlt(i3, C(4)))))
        ok = dand(ok, dor(A, ite(Bf, dlt(i3, C(3)), dnot(vis))))
        oblige(ctx, 'format/npixels', v['npixels'], n, fn=x, prog=prog, text='pixels per line', given=ok)
        oblige(ctx, 'format/nlines', v['nlines'], l, fn=x, prog=prog, text='lines', given=ok)


def calibration(ctx, prog):
    x = one(ctx, prog, r'^HRI_image::set_calibration\(', 'set_calibration')
    if x:
        ev = Ev(prog, x)
        for n in ('mpef_absolute', 'space_count'):
            field_obligation(ctx, prog, ev, 'calc.' + n, f('p1.' + n), key='calibration/' + n)
        field_obligation(ctx, prog, ev, 'calibrated', C(1), key='calibration/set')


def fmt(ctx):
    prog = layout.Program(facts.dump('sem', 'all', '^HRI_(machine|subframe_label::format_code|image)'))
    xs = named(prog, r'^HRI_subframe_label::format_code')
    if len(xs) != 1:
        return ctx.undecided('format_code', 'no single function')
    x = xs[0]
    ctx.fn(x)
    ev = Ev(prog, x)
    got = {}
    for k, i in x.inst.items():
        if i['op'] in ('call', 'invoke') and short(i.get('dem') or '') in ('operator=', 'operator+=', 'append', 'assign', 'push_back') and len(i['args']) >= 2:
            t = show(ev.val(i['args'][1]))
            m = re.match(r'^"(.)"$', t)
            t = m[1] if m else chr(int(t)) if re.match(r'^\d\d$', t) else None
            u = ev.under(x.blk[k])
            if t is None:
                return ctx.undecided('format_code', 'a text that is not constant')
            got[t] = dor(got[t], u) if t in got else u
    at = ['p1.%s_indicator' % n for n in ('format', 'VISs', 'VISn', 'IR', 'WV')]
    known = lambda F: F in (0, 15, 255)
    W = {'A': lambda F, s, n, i, w: F == 0, 'B': lambda F, s, n, i, w: F == 255, 'X': lambda F, s, n, i, w: F == 15,
         'I': lambda F, s, n, i, w: known(F) and i != 0, 'V': lambda F, s, n, i, w: known(F) and (s != 0 or n != 0), 'W': lambda F, s, n, i, w: known(F) and w != 0,
         'H': lambda F, s, n, i, w: known(F) and w == 0 and (s == 255 or n == 255)}
    for t, w in W.items():
        if t not in got:
            ctx.undecided('format_code/' + t, 'not added by itself')
        else:
            tabulate(ctx, 'format_code/' + t, x, got[t], at, (0, 1, 15, 240, 255), lambda *b, w=w: int(w(*b)), 'the code has %s (1) or not (0):' % t)
    for t in sorted(set(got) - set(W)):
        ctx.violation('format_code/other', '%s: the code may have %r' % (at(x), t))


CODES = {'AV': [(0, 'A', 'VIS', None)], 'AVH': [(0, 'A', 'VH', 'wv')], 'AW': [(0, 'A', 'WV', 'wv')], 'AIW': [(0, 'A', 'IR', 'ir'), (1, 'A', 'WV', 'wv')],
         'AIVH': [(0, 'A', 'IR', 'ir'), (1, 'A', 'VH', None)], 'BW': [(0, 'B', 'WV', 'wv')], 'BIV': [(0, 'B', 'IR', 'ir'), (1, 'B', 'VIS', None)],
         'BIVH': [(0, 'B', 'IR', 'ir'), (1, 'B', 'VIS', None)], 'BIW': [(0, 'B', 'IR', 'ir'), (1, 'B', 'WV', 'wv')], 'XI': [(0, 'X', 'IR', 'ir')],
         'XW': [(0, 'X', 'WV', 'wv')], 'XVH': [(0, 'X', 'VH', None)]}


def assembly(ctx):
    prog = layout.Program(facts.dump('sem', 'all', '^Hri::|^HRI_'))
    by = {n: named(prog, '^Hri::%s\\(' % n) for n in ('readfrom', 'get_dataline', 'mod_get_dataline')}
    for n, fs in by.items():
        if len(fs) != 1:
            ctx.undecided('assembly/' + n, 'no single function')
    for n, T in (('get_dataline', {112: [(0, 68, 296)] + [(296 + 360 * k, 4, 360) for k in range(6)] + [(2456, 4, 44)], 48: [(0, 36, 328), (328, 4, 360), (688, 4, 360), (1048, 4, 202)]}),
                 ('mod_get_dataline', {112: [(0, 388, 1660), (1660, 0, 840)], 48: [(0, 196, 168), (168, 0, 1082)]})):
        if len(by[n]) == 1:
            ctx.part('assembly/' + n, dataline, ctx, prog, n, by[n][0], T)
    if len(by['readfrom']) == 1:
        ctx.part('assembly/records', records, ctx, prog, by['readfrom'][0])
        ctx.part('assembly/bands', bands, ctx, prog, by['readfrom'][0])


def events(ev, x):
    """copies and reads in the order of the blocks: (block, kind, inst)"""
    for b in x.rpo():
        for i in x.blocks[b]['insts']:
            if i['op'] in ('call', 'invoke'):
                n = i.get('dem') or i.get('callee') or ''
                if re.search(r'mem(cpy|move)', i.get('callee') or ''):
                    yield b, 'copy', i
                elif re.search(r'getbuff\(|istream.*::read\(', n):
                    yield b, 'read', i


def dataline(ctx, prog, n, x, T):
    ctx.fn(x)
    ev = Ev(prog, x)
    fb = {m: member_offset(prog, x.j['cls'], m) for m in ('framebuff', 'mod_framebuff')}
    if any(ev.inner_loops(b) for b, _, _ in events(ev, x)) or None in fb.values():
        return ctx.undecided('assembly/' + n, 'lines are put together in a loop')
    this, ident = ev.val('a0'), ev.val('a2')
    for code, want in T.items():
        key = 'assembly/%s/%d' % (n, code)
        got, reads, bad = [], 0, None
        for b, kind, i in events(ev, x):
            u = ev.under(b)
            if subst(u, {ident.key: C(code)}).key == FALSE.key:
                continue
            if kind == 'read':
                reads += 1
                continue
            d, s, l = (ev.val(a) for a in i['args'][:3])
            m = re.match(r'^(?:\((\d+) \+ )?(@\w+)\)?$', show(d)) or re.match(r'^(?:\((\d+) \+ )?(local:\S+?)\)?$', show(d))
            s = s - this
            if not m or not isinstance(s, Poly) or s.const() is None or not isinstance(l, Poly) or l.const() is None:
                bad = 'copied in some other way'
                break
            s = int(s.const())
            o = [s - v[0] for v in fb.values() if v[0] <= s < v[0] + v[1]] or [s - max(v[0] for v in fb.values() if v[0] <= s)] if any(v[0] <= s for v in fb.values()) else [None]
            got.append((int(m[1] or 0), o[0], int(l.const()), reads))
        if bad or not got:
            ctx.undecided(key, bad or 'no copies')
            continue
        if len({r for *_, r in got}) != len(got) or reads != len(got):
            ctx.violation(key, '%s: %d frames are read for %d pieces of a line, not one for each' % (at(x), reads, len(got)))
        elif [g[:3] for g in got] != want:
            ctx.violation(key, '%s: a line is made of %s (to, from, bytes), not of %s' % (at(x), [g[:3] for g in got], want))
        else:
            ctx.good(key)


def records(ctx, prog, x):
    ev = Ev(prog, x)
    this = ev.val('a0')
    ctx.fn(x)
    fb, mb = (member_offset(prog, x.j['cls'], m)[0] for m in ('framebuff', 'mod_framebuff'))
    tec = ev.val('a2')
    W = {'label': (fb + 4, mb + 516), 'identification': (fb + 36, mb + 548)}
    for c, (plain, mod) in W.items():
        for i in method_calls(ev, 'readfrom'):
            if 'HRI_subframe_%s::' % c not in (i.get('dem') or ''):
                continue
            u = ev.under(x.blk['%%%d' % i['id']])
            oblige(ctx, 'assembly/record/' + c, ev.val(i['args'][1]), this + ite(deq(tec, C(0)), C(plain), C(mod)), fn=x, prog=prog, text='the %s record is at' % c, given=u)
    got = []
    for b, kind, i in events(ev, x):
        if kind != 'copy':
            continue
        d, s, l = (show(v) for v in (ev.val(i['args'][0]), ev.val(i['args'][1]) - this, ev.val(i['args'][2])))
        m = re.match(r'^(?:\((\d+) \+ )?(local:\S+?)\)?$', d)
        if m and re.match(r'^\d+$', s) and re.match(r'^\d+$', l):
            got.append((m[2], int(m[1] or 0), int(s) - fb, int(l), b))
    for c, want in (('interpretation', [(0, 84, 280), (280, 4, 360), (640, 4, 360), (1000, 4, 360)]), ('keyslot', [(0, 4, 360), (360, 4, 360), (720, 4, 360), (1080, 4, 360)])):
        rd = [i for i in method_calls(ev, 'readfrom') if 'HRI_subframe_%s::' % c in (i.get('dem') or '')]
        bufs = {show(ev.val(i['args'][1])) for i in rd}
        g = [t[1:4] for t in got if t[0] in bufs and t[2] >= 0]
        key = 'assembly/record/' + c
        if len(bufs) != 1 or not g:
            ctx.undecided(key, 'put together in some other way')
        elif g != want:
            ctx.violation(key, '%s: the %s record is made of %s (to, from, bytes), not of %s' % (at(x), c, g, want))
        else:
            ctx.good(key)


def bands(ctx, prog, x):
    ev = Ev(prog, x)
    this = ev.val('a0')
    img, interp = (member_offset(prog, x.j['cls'], m) for m in ('image', 'interp'))
    if not img or not interp:
        return ctx.undecided('assembly/bands', 'no images')
    each = (img[1] // 3)
    offs = {n: [member_offset(prog, next(f.j['cls'] for f in prog.fns.values() if re.search('HRI_subframe_interpretation::readfrom', f.j['dem'])), 'cal.' + m)[0] for m in p]
            for n, p in (('ir', ('calir', 'irspc')), ('wv', ('calwv', 'wvspc')))}
    sets, coef = {}, {}
    calls = [(k, i) for k, i in x.inst.items() if i['op'] in ('call', 'invoke') and re.search(r'HRI_image::(set_format_band|set_calibration)\(', i.get('dem') or '')]
    texts = None
    for k, i in calls:
        b = x.blk[k]
        u = ev.under(b)
        cs = {a.key: re.search(r'"(\w+)"\)?$', a.key)[1] for a in walk_atoms(u).values() if a.kind == 'call' and re.search(r'^call\((compare|operator==),.*"\w+"\)$', a.key)}
        o = ev.val(i['args'][0]) - this
        if not cs or not isinstance(o, Poly) or o.const() is None or (int(o.const()) - img[0]) % each:
            return ctx.undecided('assembly/bands', 'chosen in some other way')
        n = (int(o.const()) - img[0]) // each
        for code in CODES:
            r = u
            for key, t in cs.items():
                eq = 'compare' in key
                r = subst(r, {key: C((0 if t == code else 1) if eq else (1 if t == code else 0))})
            if r.key != FALSE.key:
                if 'set_format_band' in i['dem']:
                    sets.setdefault(code, []).append((n,) + tuple(show(ev.val(a)) for a in i['args'][2:4]))
                else:
                    p = ev.val(i['args'][1])
                    ix = next(q for q, j in enumerate(x.blocks[b]['insts']) if j['id'] == i['id'])
                    coef.setdefault(code, []).append((n, tuple(show(ev.memval(p + q, 4, 'float', b, ix)) for q in (0, 4))))
    for code, want in CODES.items():
        w = [(n, str('ABX'.index(F)), str(('IR', 'WV', 'VIS', 'VH').index(B))) for n, F, B, _ in want]
        g = sorted(sets.get(code, []))
        key = 'assembly/bands/' + code
        if any(not re.match(r'^\d+$', v) for t in g for v in t[1:]):
            ctx.undecided(key, 'format or band is not a constant')
        elif g != w:
            ctx.violation(key, '%s: the images of format %s are %s (number, format, band), not %s' % (at(x), code, g, w))
        else:
            ctx.good(key)
        for n, _, _, c in want:
            key = 'assembly/calibration/%s/%d' % (code, n)
            if c is None:
                continue
            g = [v for m, v in coef.get(code, []) if m == n]
            w = tuple('out(readfrom,arg0,%d)' % o for o in offs[c])
            if len(g) != 1:
                if len(g) == 0:
                    ctx.violation(key, '%s: image %d of format %s is given no calibration' % (at(x), n, code))
                else:
                    ctx.undecided(key, 'given more than once')
            elif g[0] == w:
                ctx.good(key)
            elif all(v.startswith('?uninit') for v in g[0]) or all(re.match(r'^out\(readfrom,arg0,\d+\)$', v) for v in g[0]):
                ctx.violation(key, '%s: image %d of format %s is calibrated with %s, not with %s' % (at(x), n, code, g[0], w))
            else:
                ctx.undecided(key, 'calibrated with %s' % (g[0],))
