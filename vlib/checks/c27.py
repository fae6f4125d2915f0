from ..semcheck import *
LEVEL = 'proof'
RULE = '''Value numbering of the conversions between scaling factors, pixel sizes and Seviri extents: the decision diagram of
what each function returns must equal that of the formula with its tabulated exceptions, and each conversion composed
with its inverse must be the identity at the tabulated values and in the general branch.'''
ASSUME = ['real-number semantics']
TRUST = ['the formulas in vlib/checks/c27.py']
R, O = 6378.137, 42164.0
PIX, HRV = 3000.40307617188, 1000.13433837891
F, FH = 13642337 / 65536, 40927000 / 65536


def size_from_factor(c):
    rr = dfun('round', c * 65536)
    v = ddiv(C((O - R) * 1000), C(1)) * dfun('tan', (math.pi / 180) / c)
    for k, x in ((13642337, PIX), (-13642337, -PIX), (40927000, HRV), (-40927000, -HRV)):
        v = ite(deq(rr, C(k)), C(x), v)
    return v


def factor_from_size(p):
    v = (1 / dfun('atan', p / ((O - R) * 1000))) * (math.pi / 180)
    for k, x in ((-FH, -HRV), (FH, HRV), (-F, -PIX), (F, PIX)):
        v = ite(dlt(dabs(p - x), C(0.001), False), C(k), v)
    return v


def dx_from_factor(c):
    return dfun('round', C(math.asin(R / O) * 360 / math.pi) * c)


def factor_from_dx(d):
    return d * (math.pi / (math.asin(R / O) * 360))


def call(name, *a, integer=False):
    return P(atom('call', name, *a, integer=integer))


def run(ctx):
    prog = program()

    def do(name, want):
        x = one(ctx, prog, r'^msat::facts::%s\(' % name, name)
        if x:
            e = Ev(prog, x)
            oblige(ctx, name, e.ret(), want(e.val('a0')), fn=x, text='returned')
            return e
    fwd, back = {}, {}
    for n in ('pixelHSizeFromCFAC', 'pixelVSizeFromLFAC'):
        fwd[n[5]] = do(n, size_from_factor)
    for n in ('CFACFromPixelHSize', 'LFACFromPixelVSize'):
        back['H' if 'HSize' in n else 'V'] = do(n, factor_from_size)
    for n in ('seviriDXFromColumnRes', 'seviriDYFromLineRes', 'seviriDXFromCFAC', 'seviriDYFromLFAC'):
        do(n, dx_from_factor)
    for n in ('columnResFromSeviriDX', 'lineResFromSeviriDY', 'CFACFromSeviriDX', 'LFACFromSeviriDY'):
        do(n, factor_from_dx)
    for n, fn, g in (('seviriDXFromPixelHSize', 'seviriDXFromCFAC', 'CFACFromPixelHSize'), ('seviriDYFromPixelVSize', 'seviriDYFromLFAC', 'LFACFromPixelVSize')):
        do(n, lambda p: ite(dlt(dabs(p - PIX), C(0.001), False), C(3622), call(fn, call(g, p), integer=True)))
    for n, fn, g in (('pixelHSizeFromSeviriDX', 'pixelHSizeFromCFAC', 'CFACFromSeviriDX'), ('pixelVSizeFromSeviriDY', 'pixelVSizeFromLFAC', 'LFACFromSeviriDY')):
        do(n, lambda d: ite(dor(deq(d, C(3608)), deq(d, C(3622))), C(PIX), call(fn, call(g, d))))
    for k in fwd:
        a, b = fwd[k], back.get(k)
        if a is None or b is None:
            continue
        ra, rb, xa, xb = a.ret(), b.ret(), a.val('a0').key, b.val('a0').key
        for v in (PIX, -PIX, HRV, -HRV):
            oblige(ctx, '%s size of the factor of size %g' % (k, v), subst(ra, {xa: subst(rb, {xb: C(v)})}), C(v), fn=a.fn, text='round trip')
        for v in (F, -F, FH, -FH):
            oblige(ctx, '%s factor of the size of factor %g' % (k, v), subst(rb, {xb: subst(ra, {xa: C(v)})}), C(v), fn=b.fn, text='round trip')
