from ..semcheck import *
from .c09 import latlon, pixel_window, day_time, clamp
LEVEL = 'proof'
RULE = '''Value numbering of the reflectance bands: what each constructor caches and what each block reader stores for pixel n,
as a decision diagram over named inputs, must equal the canonical form of the published formula.  A difference is reported
only when both forms are built from named inputs alone.'''
ASSUME = ['real-number semantics: rounding and floating-point overflow are not modelled']
TRUST = ['the formulas in vlib/checks/c10.py', 'the naming of virtual methods by their slot in the emitted vtables']
COS80 = 0.173648178


def esd(j):
    return 1.0 - 0.0167 * dfun('cos', 2 * math.pi * (j - 3) / 365)


def source(ev, band, n):
    """sample n read from a source band"""
    return P(atom('out', 'RasterIO{%s}' % band, 'arg6', n * 8))


def read_window(ctx, ev, cls, bands):
    bx, by = f('this.nBlockXSize', True), f('this.nBlockYSize', True)
    xb, yb = [ev.val('a1'), ev.val('a2')]
    cs = ev.calls(r'^GDALRasterBand::RasterIO\(')
    seen = set()
    for b, c in cs:
        rb = ev.val(c['args'][0]).key
        seen.add(rb)
        call_args(ctx, '%s/read %s' % (cls, rb), ev, c, {1: ('direction', C(0)), 2: ('first column', xb * bx), 3: ('first line', yb * by), 4: ('columns', bx), 5: ('lines', by),
                  7: ('buffer columns', bx), 8: ('buffer lines', by), 9: ('buffer type', C(7))})
    for b in bands:
        if b not in seen:
            ctx.undecided('%s/read %s' % (cls, b), 'no direct read of the source band')


class Refl39:
    """the 3.9 um reflectance, term by term"""
    def __init__(self, ev, n):
        def bt(ch):
            return source(ev, 'this.source_ir' + ch, n) * f('this.ir%s_slope' % ch) + f('this.ir%s_offset' % ch)
        pw, exp = lambda x, k: dfun('pow', x, C(k)), lambda x: dfun('exp', x)
        c1, c2, vc, A, B = 0.0000119104, 1.43877, 2569.094, 0.9959, 3.471
        b39, b108, b134 = bt('039'), bt('108'), bt('134')
        b39c = pw(pw(b39, 4) + pw(b108, 4) - pw(b108 - (b108 - b134) / 4, 4), 0.25)
        planck = lambda t: C(c1 * vc ** 3) / (exp(C(c2 * vc) / (A * t + B)) - 1)
        self.rtot = planck(b39c) + 0.015
        corr = pw((b108 - 0.25 * (b108 - b134)) / b108, 4)
        self.rtherm = planck(b108) * corr
        la, lo = latlon(ev, n)
        self.cz0 = P(atom('call', 'cos_sol_za', f('this.jday', True), f('this.daytime'), la, lo))
        sat = P(atom('call', 'sat_za', la, lo))
        e = esd(f('this.jday', True))
        self.rad = lambda cz: 4.92 / (e * e) * pw(cz, 0.75) * exp(-1 * (1 - corr) * cz) * exp(-1 * (1 - corr) / dfun('cos', sat))

    def low_sun(self):
        return dlt(self.cz0, C(COS80))

    def cz(self):
        return ite(self.low_sun(), C(COS80), self.cz0)

    def over(self):
        return dlt(self.rtherm, self.rtot)

    def sun_over(self):
        return dlt(self.rtherm, self.rad(self.cz()))

    def value(self):
        rad, rtot = self.rad(self.cz()), self.rtot
        rtot = ite(self.over(), rtot, self.rtherm + 0.0000001)
        rad = ite(self.sun_over(), rad, self.rtherm + 0.0000001)
        return clamp(100 * (rtot - self.rtherm) / rad, 0, 100)


def cases39(ev, buf):
    """the three comparisons of the formula, stated for the counter of the loop that stores the pixels"""
    out = []
    for h in ev.hdrs:
        r = Refl39(ev, ev.k(h))
        out.append(cases([r.low_sun, r.over, r.sun_over]))
    r = Refl39(ev, f('n', True))
    named = cases([r.low_sun, r.over, r.sun_over])
    res = []
    for k in range(len(named)):
        d = dict(named[k])
        for cs in out:
            d.update(cs[k])
        res.append(d)
    return res


def single(ev, n):
    rad = source(ev, 'this.source_rb', n) * f('this.rad_slope') + f('this.rad_offset')
    cz = P(atom('call', 'cos_sol_za', f('this.jday', True), f('this.daytime'), *latlon(ev, n)))
    cz = ite(dlt(cz, C(COS80)), C(COS80), cz)
    return clamp(100 * rad / f('this.tr') / cz, 0, 100)


def run(ctx):
    prog = program()
    total = f('this.nBlockXSize', True) * f('this.nBlockYSize', True)
    for cls, bands in (('SingleChannelReflectanceRasterBand', ['this.source_rb']),
                       ('Reflectance39RasterBand', ['this.source_ir039', 'this.source_ir108', 'this.source_ir134'])):
        x = one(ctx, prog, r'::%s::IReadBlock\(' % cls, cls)
        if x is None:
            continue
        ev = Ev(prog, x)
        buf = 'p3'
        if cls == 'Reflectance39RasterBand':
            for case in cases39(ev, buf):
                with assuming(case):
                    e2 = Ev(prog, x)
                    elementwise(ctx, '%s/pixels when %s' % (cls, ''.join('FT'[v] for v in case.values())), e2, buf, 4, lambda n: Refl39(ev, n).value(), total)
        else:
            elementwise(ctx, cls + '/pixels', ev, buf, 4, lambda n: single(ev, n), total)
        pixel_window(ctx, prog, ev, cls)
        read_window(ctx, ev, cls, bands)
    day_time(ctx, prog, 'ReflectanceRasterBand')
    # constructors
    x = one(ctx, prog, r'::SingleChannelReflectanceRasterBand::SingleChannelReflectanceRasterBand\(', 'SingleChannelReflectanceRasterBand')
    if x:
        ev = Ev(prog, x)
        ch = f('p1.channel_id', True)
        src = f('p1.sources[%s]' % (ch - 1).key)
        field_obligation(ctx, prog, ev, 'source_rb', src)
        field_obligation(ctx, prog, ev, 'rad_slope', P(atom('vcall', 'GetScale', src, f('&local'))))
        field_obligation(ctx, prog, ev, 'rad_offset', P(atom('vcall', 'GetOffset', src, f('&local'))))
        mo = member_offset(prog, 'msat::utils::ReflectanceRasterBand', 'jday')
        if mo is None:
            ctx.undecided('SingleChannelReflectanceRasterBand/tr', 'no member jday')
        else:
            e = esd(P(atom('out', 'ReflectanceRasterBand', 'arg0', C(mo[0]), integer=True)))
            want = C(0)
            valid = FALSE
            for c, k in ((1, 20.76), (2, 23.24), (3, 19.85), (12, 25.11)):
                want = ite(deq(ch, C(c)), C(k) / (e * e), want)
                valid = dor(valid, deq(ch, C(c)))
            g = field_at_exit(prog, ev, 'tr')
            oblige(ctx, 'SingleChannelReflectanceRasterBand/tr', g, want, fn=x, given=valid, text='the radiance to reflectance factor')
    x = one(ctx, prog, r'::Reflectance39RasterBand::Reflectance39RasterBand\(', 'Reflectance39RasterBand')
    if x:
        ev = Ev(prog, x)
        for b, ch in (('039', 4), ('108', 9), ('134', 11)):
            src = f('p1.sources[%d]' % (ch - 1))
            field_obligation(ctx, prog, ev, 'source_ir' + b, src)
            field_obligation(ctx, prog, ev, 'ir%s_slope' % b, P(atom('vcall', 'GetScale', src, f('&local'))))
            field_obligation(ctx, prog, ev, 'ir%s_offset' % b, P(atom('vcall', 'GetOffset', src, f('&local'))))
    x = one(ctx, prog, r'^radiance_to_reflectance\(', 'radiance_to_reflectance')
    if x and len(x.j['args']) == 9:
        ev = Ev(prog, x, throw_leaf=True)
        ch, rad = ev.val('a0'), ev.val('a1')
        day = [ev.val('a%d' % k) for k in (2, 3, 4)]
        e = esd(P(atom('call', 'jday', *day, integer=True)))
        cz = P(atom('call', 'cos_sol_za', *[ev.val('a%d' % k) for k in range(2, 9)]))
        cz = ite(dlt(cz, C(COS80)), C(COS80), cz)
        want = f('THROW')
        for c, k in ((1, 20.76), (2, 23.24), (3, 19.85), (12, 25.11)):
            want = ite(deq(ch, C(c)), 100 * rad * e * e / k / cz, want)
        oblige(ctx, 'radiance_to_reflectance', ev.ret(), want, fn=x, text='returned')
