from ..semcheck import *
LEVEL = 'proof'
RULE = '''Value numbering of the calibration code: the decision diagrams of the scale, offset and table computed from the
calibration record, of what the bands cache and of what their block readers leave in the output for element n must equal
the diagrams of the documented calibration.  A difference is reported only when both forms are built from named inputs.'''
ASSUME = ['real-number semantics: rounding and floating-point overflow are not modelled', 'sizes are below 2^63']
TRUST = ['the constants and formulas in vlib/checks/c06.py (EUM/MSG/TEN/04/0024)']
WAVE = [2569.094, 1598.566, 1362.142, 1149.083, 1034.345, 930.659, 839.661, 752.381]
A = [0.9959, 0.9963, 0.9991, 0.9996, 0.9999, 0.9983, 0.9988, 0.9981]
B = [3.471, 2.2219, 0.485, 0.181, 0.060, 0.627, 0.397, 0.576]
C1, C2 = 0.0000119104, 1.43877


def between(x, lo, hi):
    return dand(dnot(dlt(x, C(lo), True)), dlt(x, C(hi + 1), True))


def thermal(ch):
    return between(ch, 4, 11)


def by_channel(ch, vals, other):
    r = other
    for k, v in enumerate(vals):
        r = ite(deq(ch, C(k + 4)), v, r)
    return r


def cal(ch, what):
    """member of the calibration record of a channel"""
    return elem('this.ImageCalibration[%s].Cal_' + what, ch - 1)


def run(ctx):
    prog = program()
    x = one(ctx, prog, r'MSG_data_RadiometricProc::get_slope_offset\(', 'get_slope_offset')
    if x:
        ev = Ev(prog, x, throw_leaf=True)
        ch = ev.val('a1')
        ok = between(ch, 1, 12)
        oblige(ctx, 'get_slope_offset/channels', throws(ev.ret()), ite(ok, C(0), f('THROW')), fn=x, text='a channel out of range')
        for k, name, vals, other in ((2, 'slope', [C(1 / v) for v in A], cal(ch, 'Slope')), (3, 'offset', [C(-v) for v in B], cal(ch, 'Offset'))):
            g = ev.exit_mem(ev.val('a%d' % k), 8, 'double')
            oblige(ctx, 'get_slope_offset/' + name, g, by_channel(ch, vals, other), fn=x, text=name, given=ok)
        g = ev.exit_mem(ev.val('a4'), 1, 'i8')
        oblige(ctx, 'get_slope_offset/linear', g, ite(thermal(ch), C(0), C(1)), fn=x, text='whether the counts are linear', given=ok)
    x = one(ctx, prog, r'MSG_data_RadiometricProc::get_calibration\(', 'get_calibration')
    if x:
        ev = Ev(prog, x, throw_leaf=True)
        ch, bpp = ev.val('a1'), ev.val('a2')
        ok = dand(between(ch, 1, 12), between(bpp, 0, 16))
        r = ev.ret()
        oblige(ctx, 'get_calibration/arguments', throws(r), ite(ok, C(0), f('THROW')), fn=x, text='arguments out of range')
        base = [l for l in leaves(r) if isinstance(l, Poly) and l.key.startswith('new:')]
        if len({b.key for b in base}) != 1:
            ctx.undecided('get_calibration/table', 'the table is not one allocation')
        else:
            n = f('n', True)
            rad = n * cal(ch, 'Slope') + cal(ch, 'Offset')
            vals = [(C(C2 * w) / dfun('log', C(C1 * w ** 3) / rad + 1) - b) / a for w, a, b in zip(WAVE, A, B)]
            size = dint(dfun('pow', C(2), bpp))
            g = ev.final(base[0], 4, n, 'float')
            for name, cond in [('channel %d' % k, deq(ch, C(k))) for k in range(4, 12)] + [('linear channels', dand(ok, dnot(thermal(ch))))]:
                oblige(ctx, 'get_calibration/table/' + name, g, by_channel(ch, vals, rad), fn=x, text='entry n of the table', given=dand(dand(ok, cond), dand(dnot(dlt(n, C(0), True)), dlt(n, size, True))))
    x = one(ctx, prog, r'XRITRasterBand::init\(', 'XRITRasterBand')
    if x:
        ev = Ev(prog, x)
        O = lambda k, i=False: P(atom('out', 'get_slope_offset', 'arg%d' % k, C(0), integer=i))
        lin = truth(O(4, True))
        ch, bpp = f('p3.segment_id.spectral_channel_id', True), f('p3.image_structure.number_of_bits_per_pixel', True)
        cs = ev.calls(r'RadiometricProc::get_slope_offset\(')
        if len(cs) == 1:
            call_args(ctx, 'XRITRasterBand/get_slope_offset', ev, cs[0][1], {1: ('channel', ch)})
        else:
            ctx.undecided('XRITRasterBand/get_slope_offset', 'not one call')
        cs = ev.calls(r'RadiometricProc::get_calibration\(')
        if len(cs) == 1:
            call_args(ctx, 'XRITRasterBand/get_calibration', ev, cs[0][1], {1: ('channel', ch), 2: ('bits per pixel', bpp)})
        else:
            ctx.undecided('XRITRasterBand/get_calibration', 'not one call')
        field_obligation(ctx, prog, ev, 'slope', ite(lin, O(2), C(1)))
        field_obligation(ctx, prog, ev, 'offset', ite(lin, O(3), C(0)))
        field_obligation(ctx, prog, ev, 'linear', O(4, True), t='i8')
        field_obligation(ctx, prog, ev, 'eDataType', ite(lin, C(2), C(6)), t='i32')
        field_obligation(ctx, prog, ev, 'channel_id', ch, t='i32')
        g = field_at_exit(prog, ev, 'calibration_size', t='i64')
        if g is None:
            ctx.undecided('XRITRasterBand/calibration_size', 'no such member')
        else:
            oblige(ctx, 'XRITRasterBand/calibration_size', g, P(atom('shl', C(1), bpp, integer=True)), fn=x, given=dnot(lin), text='entries of the table')
        g = field_at_exit(prog, ev, 'calibration', t='ptr')
        if g is None:
            ctx.undecided('XRITRasterBand/calibration', 'no such member')
        elif cs:
            want = ev.val('%%%d' % cs[0][1]['id'])
            oblige(ctx, 'XRITRasterBand/calibration', g, want, fn=x, given=dnot(lin), text='the table')
    x = one(ctx, prog, r'XRITRasterBand::IReadBlock\(', 'XRITRasterBand/pixels')
    if x:
        xrit_pixels(ctx, prog, x, False)
    for cls, want in (('XRITRasterBand', {'Offset': f('this.offset'), 'Scale': f('this.slope'), 'NoDataValue': C(0)}),
                      ('CalibratedRasterBand', {'Offset': C(0), 'Scale': C(1), 'NoDataValue': C(0)}),
                      ('ReflectanceRasterBand', {'Offset': C(0), 'Scale': C(1)})):
        for k, w in want.items():
            x = one(ctx, prog, r'::%s::Get%s\(' % (cls, k), '%s::Get%s' % (cls, k))
            if x:
                oblige(ctx, '%s::Get%s' % (cls, k), Ev(prog, x).ret(), w, fn=x, text='returned')
    x = one(ctx, prog, r'::CalibratedRasterBand::IReadBlock\(', 'CalibratedRasterBand')
    if x:
        ev = Ev(prog, x)
        n, nx, ny = f('n', True), f('this.nBlockXSize', True), f('this.nBlockYSize', True)
        raw = P(atom('out', 'ReadBlock', 'arg3', 2 * n, integer=True))
        with assuming(flags(deq(ret_of(ev, r'GDALRasterBand::ReadBlock\('), C(3)), False)):
            ev = Ev(prog, x)
            g = ev.final(ev.val('a3'), 4, n, 'float')
            oblige(ctx, 'CalibratedRasterBand/pixels', g, raw * f('this.scale') + f('this.ofs'), fn=x, text='element n',
                   given=dand(dnot(dlt(n, C(0), True)), dlt(n, nx * ny, True)))
        cs = ev.calls(r'GDALRasterBand::ReadBlock\(')
        if len(cs) == 1:
            call_args(ctx, 'CalibratedRasterBand/read', ev, cs[0][1], {0: ('band', f('this.rb')), 1: ('block column', ev.val('a1')), 2: ('block line', ev.val('a2'))})
        else:
            ctx.undecided('CalibratedRasterBand/read', 'not one read')
    x = one(ctx, prog, r'::CalibratedRasterBand::CalibratedRasterBand\(', 'CalibratedRasterBand')
    if x:
        ev = Ev(prog, x)
        rb = ev.val('a2')
        field_obligation(ctx, prog, ev, 'ofs', P(atom('vcall', 'GetOffset', rb, C(0))))
        field_obligation(ctx, prog, ev, 'scale', P(atom('vcall', 'GetScale', rb, C(0))))
        field_obligation(ctx, prog, ev, 'eDataType', C(6), t='i32')


def xrit_pixels(ctx, prog, x, linear):
    """what a block of an xRIT image holds"""
    key = 'XRITRasterBand/%s pixels' % ('linear' if linear else 'calibrated')
    ev = Ev(prog, x)
    mo = member_offset(prog, 'msat::xrit::XRITDataset', 'da')
    if mo is None:
        return ctx.undecided(key, 'no member da')
    xb, yb, buf = ev.val('a1'), ev.val('a2'), ev.val('a3')
    n, nx, cols = f('n', True), f('this.nBlockXSize', True), f('this.xds.da.columns', True)
    ls = P(atom('call', 'line_start', f('this.xds') + mo[0], yb, integer=True))
    neg = lambda p: dlt(p, C(0), True)
    ext = {r'DataAccess::line_read\(': (2, lambda e, i: 2 * cols)}
    asm = {**flags(truth(f('this.linear', True)), linear), **flags(deq(xb, C(0)), True), **flags(neg(ls), False), **flags(neg(nx), False),
           **flags(neg(ls + cols), False), **flags(dlt(nx, ls + cols, True), False), **flags(dlt(nx, ls, True), False), **flags(neg(nx - ls), False)}
    w = 2 if linear else 4
    with assuming(asm):
        ev = Ev(prog, x, nan=True)
        raw = P(atom('out', 'line_read', 'arg2', 2 * (n - ls), integer=True))
        inside = dand(dnot(neg(n - ls)), dlt(n - ls, cols, True))
        v = raw
        given = dand(dnot(neg(n)), dlt(n, nx, True))
        if not linear:
            size = f('this.calibration_size', True)
            c = elem('this.calibration[%s]', 4 * raw)
            v = ite(isnan(c), C(0), ite(dlt(c, C(0), False), C(0), c))
            v = ite(dlt(raw, size, True), v, C(0))
            given = dand(given, dnot(neg(raw)))
        g = ev.final(buf, w, n, 'i16' if linear else 'float', ext)
        oblige(ctx, key, g, ite(inside, v, C(0)), fn=x, text='element n', given=given)
    cs = ev.calls(r'DataAccess::line_(read|start)\(')
    for k, i in cs:
        what = short(i.get('dem')).replace('line_', 'line ')
        call_args(ctx, key + '/' + what, ev, i, {0: ('data', f('this.xds') + mo[0]), 1: ('line', yb)})
    if not cs:
        ctx.undecided(key + '/line', 'no line is read directly')
