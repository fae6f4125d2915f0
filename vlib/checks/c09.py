from ..semcheck import *
LEVEL = 'proof'
RULE = '''Value numbering of the solar and satellite geometry functions: the canonical form (decision diagram over exact
comparisons with polynomial leaves over named inputs and library functions) of what each function returns and of what
each derived band stores for pixel n must equal the canonical form of the published formula.  A difference is reported
only when both forms are built from named inputs alone.'''
ASSUME = ['real-number semantics: rounding and floating-point overflow are not modelled', 'the months are 1..12']
TRUST = ['the formulas in vlib/checks/c09.py']


def jday(y, m, d):
    leap = dor(dand(deq(dmod(y, 4), C(0)), dnot(deq(dmod(y, 100), C(0)))), deq(dmod(y, 400), C(0)))
    before = [0, 31, 59, 90, 120, 151, 181, 212, 243, 273, 304, 334]
    r = BOT
    for k, b in enumerate(before):
        x = C(b) + d + (ite(leap, C(1), C(0)) if k >= 2 else C(0))
        r = x if r is BOT else ite(deq(m, C(k + 1)), x, r)
    return r


def months(m):
    return dand(dnot(dlt(m, C(1))), dlt(m, C(13)))


def csz(j, hour, lat, lon):
    rpd = math.pi / 180
    sin, cos = lambda x: dfun('sin', x), lambda x: dfun('cos', x)
    dang = 2 * math.pi * (j - 1) / 365.242
    homp = 12.0 + 0.123570 * sin(dang) - 0.004289 * cos(dang) + 0.153809 * sin(2 * dang) + 0.060783 * cos(2 * dang)
    hang = 15.0 * (hour - homp) + lon
    ang = 279.9348 * rpd + dang
    sigma = (ang * (1 / rpd) + 0.4087 * sin(ang) + 1.8724 * cos(ang) - 0.0182 * sin(2 * ang) + 0.0083 * cos(2 * ang)) * rpd
    sd = 0.3978 * sin(sigma)
    cd = dfun('sqrt', 1 - sd * sd)
    return sd * sin(rpd * lat) + cd * cos(rpd * lat) * cos(rpd * hang)


def satza(lat, lon):
    rpd = math.pi / 180
    cosg = dfun('cos', lon * rpd) * dfun('cos', lat * rpd)
    return math.pi / 2 - dfun('atan', (cosg - 6378.137 / 42164.0) / dfun('sqrt', 1 - cosg * cosg))


def clamp(v, lo, hi):
    return ite(isnan(v), C(0), ite(dlt(v, C(lo)), C(lo), ite(dlt(C(hi), v), C(hi), v)))


def day_time(ctx, prog, cls, day=True, time=True):
    """band constructors: day of the year and hour of the day of the nominal time"""
    f0 = one(ctx, prog, r'::%s::%s\(' % (cls, cls), cls)
    if f0 is None:
        return
    ev = Ev(prog, f0)
    sc = ev.calls(r'sscanf')
    if len(sc) != 1:
        return ctx.undecided(cls + '/time', 'the time is not taken apart by one scan')
    n = ev.cname(sc[0][1])
    y, mo, d, h, mi = [P(atom('out', n, 'arg%d' % k, C(0), integer=True)) for k in range(2, 7)]
    fmt = ev.val(sc[0][1]['args'][1])
    text = next(iter(fmt.atoms())).key if isinstance(fmt, Poly) and fmt.atoms() else ''
    spec = re.sub(r'%\d*([di])', r'%d', text)
    if spec == '"%d-%d-%d %d:%d:%d"':
        ctx.good(cls + '/time/format', text)
    elif text.startswith('"'):
        ctx.violation(cls + '/time/format', 'the nominal time is scanned with %s' % text, f0.where(sc[0][1]))
    else:
        ctx.undecided(cls + '/time/format', 'format is not a literal')
    if day:
        g = field_at_exit(prog, ev, 'jday', t='i32')
        if g is None:
            ctx.undecided(cls + '/jday', 'no such member')
        else:
            for k, a in walk_atoms(g).items():
                if a.kind == 'wrap':
                    g = subst(g, {k: a.a[1]})
            oblige(ctx, cls + '/jday', g, P(atom('call', 'jday', y, mo, d, integer=True)), fn=f0, text='the day of the year')
    if time:
        g = field_at_exit(prog, ev, 'daytime')
        if g is None:
            ctx.undecided(cls + '/daytime', 'no such member')
        else:
            oblige(ctx, cls + '/daytime', g, h + mi / 60, fn=f0, text='the hour of the day')


def latlon(ev, n, w=8):
    c = 'compute{this.p2ll}'
    return P(atom('out', c, 'arg5', n * w)), P(atom('out', c, 'arg6', n * w))


def pixel_window(ctx, prog, ev, cls):
    """the coordinates come from the pixels of this very block"""
    cs = ev.calls(r'PixelToLatlon::compute')
    if len(cs) != 1:
        return ctx.undecided(cls + '/coordinates', 'coordinates are not computed by one call')
    bx, by = f('this.nBlockXSize', True), f('this.nBlockYSize', True)
    call_args(ctx, cls + '/coordinates', ev, cs[0][1], {1: ('first column', ev.val('a1') * bx), 2: ('first line', ev.val('a2') * by),
                                                     3: ('columns', bx), 4: ('lines', by)})


def run(ctx):
    prog = program()
    F = {}
    for n, pat in {'jday': r'facts::jday\(', 'csz': r'facts::cos_sol_za\(int, double, double, double\)', 'csz5': r'facts::cos_sol_za\(int, int, int, double, double\)',
                   'csz7': r'facts::cos_sol_za\(int, int, int, int, int, double, double\)', 'satza': r'facts::sat_za\('}.items():
        x = one(ctx, prog, '^msat::' + pat, n)
        if x:
            F[n] = Ev(prog, x)
    A = lambda ev, k: ev.val('a%d' % k)
    if 'jday' in F:
        e = F['jday']
        m = A(e, 1)
        oblige(ctx, 'day of year', e.ret(), jday(A(e, 0), m, A(e, 2)), fn=e.fn, given=months(m))
    if 'csz' in F:
        e = F['csz']
        oblige(ctx, 'cosine of the solar zenith angle', e.ret(), csz(*[A(e, k) for k in range(4)]), fn=e.fn)
    if 'csz5' in F:
        e = F['csz5']
        j, h, mi, la, lo = [A(e, k) for k in range(5)]
        oblige(ctx, 'cosine of the solar zenith angle/day, hour, minute', e.ret(), P(atom('call', 'cos_sol_za', j, h + mi / 60, la, lo)), fn=e.fn)
    if 'csz7' in F:
        e = F['csz7']
        y, mo, d, h, mi, la, lo = [A(e, k) for k in range(7)]
        oblige(ctx, 'cosine of the solar zenith angle/date and time', e.ret(),
               P(atom('call', 'cos_sol_za', P(atom('call', 'jday', y, mo, d, integer=True)), h + mi / 60, la, lo)), fn=e.fn)
    if 'satza' in F:
        e = F['satza']
        oblige(ctx, 'satellite zenith angle', e.ret(), satza(A(e, 0), A(e, 1)), fn=e.fn)
    total = f('this.nBlockXSize', True) * f('this.nBlockYSize', True)
    for cls, val in (('CosSolZARasterBand', lambda ev, n: clamp(P(atom('call', 'cos_sol_za', f('this.jday', True), f('this.daytime'), *latlon(ev, n))), 0, 1)),
                     ('SatZARasterBand', lambda ev, n: clamp(P(atom('call', 'sat_za', *latlon(ev, n))), 0, 1))):
        x = one(ctx, prog, r'::%s::IReadBlock\(' % cls, cls)
        if x is None:
            continue
        ev = Ev(prog, x)
        elementwise(ctx, cls + '/pixels', ev, 'p3', 8, lambda n: val(ev, n), total)
        pixel_window(ctx, prog, ev, cls)
    x = one(ctx, prog, r'::JDayRasterBand::IReadBlock\(', 'JDayRasterBand')
    if x:
        ev = Ev(prog, x)
        elementwise(ctx, 'JDayRasterBand/pixels', ev, 'p3', 2, lambda n: f('this.jday', True), total)
    day_time(ctx, prog, 'CosSolZARasterBand')
    day_time(ctx, prog, 'JDayRasterBand', time=False)
    pixels(ctx, prog)


def pixels(ctx, prog):
    """pixel -> projected coordinates of the block, line by line"""
    x = one(ctx, prog, r'PixelToLatlon::compute\(', 'pixel coordinates')
    if x is None:
        return
    ev = Ev(prog, x)
    x0, y0, sx, sy = [ev.val('a%d' % k) for k in range(1, 5)]
    lats, lons = ['p5', 'p6']
    gt = lambda k: f('this.geoTransform[%d]' % k)
    for name, base, o in (('y', lats, 3), ('x', lons, 0)):
        st = stored(ev, base, 8)
        if len(st) != 1 or st[0][0] is None:
            ctx.undecided('pixel coordinates/' + name, 'not one store in a loop')
            continue
        h, off, v, i = st[0]
        hs = ev.inner_loops(x.blk['%%%d' % i['id']])
        if len(hs) != 2:
            ctx.undecided('pixel coordinates/' + name, 'not a loop over lines and columns')
            continue
        ky, kx = ev.k(hs[0]), ev.k(hs[1])
        oblige(ctx, 'pixel coordinates/%s/place' % name, off, 8 * (ky * sx + kx), where=x.where(i), fn=x, text='byte of the output')
        oblige(ctx, 'pixel coordinates/' + name, v, gt(o) + gt(o + 1) * (x0 + kx) + gt(o + 2) * (y0 + ky), where=x.where(i), fn=x, text='projected ' + name)
        for hh, want, w in ((hs[0], sy, 'lines'), (hs[1], sx, 'columns')):
            t = ev.trips(hh)
            if t is None:
                ctx.undecided('pixel coordinates/%s/%s' % (name, w), 'iteration count not readable')
            else:
                oblige(ctx, 'pixel coordinates/%s/%s' % (name, w), t, want, where=x.where(i), text=w, fn=x)
    cs = ev.calls(r'CoordinateTransformation::Transform\(int')
    if len(cs) == 1:
        call_args(ctx, 'pixel coordinates/transform', ev, cs[0][1], {1: ('count', sx * sy), 2: ('x', ev.val('a6')), 3: ('y', ev.val('a5'))})
    else:
        ctx.undecided('pixel coordinates/transform', 'not one transformation call')
