from ..semcheck import *
from .c08 import argmem
LEVEL = 'proof'
RULE = '''Value numbering of the coordinate conversions: where the decision diagram of a pixel, of a projected coordinate, of a latitude
or longitude, of a result code, or of the operands of a coordinate transformation differs from the one of the affine geotransform,
its inverse and the projection of the dataset, the check reports a violation.'''
ASSUME = ['the projection library transforms (x, y) = (longitude, latitude) where the traditional axis order is selected', 'real-number semantics']
TRUST = ['the formulas in vlib/checks/c25.py']
FAIL = 3


def run(ctx):
    prog = program()
    x = one(ctx, prog, r'dataset::invertGeoTransform\(', 'invertGeoTransform')
    if x:
        ev = Ev(prog, x)
        g = lambda k: elem_of(ev, 'a0', k)
        det = g(1) * g(5) - g(2) * g(4)
        bad = dlt(dabs(det), C(1e-15))
        oblige(ctx, 'invertGeoTransform/result', ev.ret(), ite(bad, C(FAIL), C(0)), fn=x, text='returned')
        ok = b_not(bad)
        want = [g(2) * g(3) - g(0) * g(5), g(5), -g(2), g(0) * g(4) - g(1) * g(3), -g(4), g(1)]
        for k, w in enumerate(want):
            oblige(ctx, 'invertGeoTransform[%d]' % k, ev.exit_mem(ev.val('a1') + 8 * k, 8, 'double'), ddiv(w, det), fn=x, text='element %d of the inverse' % k, given=ok)
    gt = lambda k: f('this.geoTransform[%d]' % k)
    ig = lambda k: f('this.invGeoTransform[%d]' % k)
    x = one(ctx, prog, r'GeoReferencer::pixelToProjected\(', 'pixelToProjected')
    if x:
        ev = Ev(prog, x)
        c, l = ev.val('a1'), ev.val('a2')
        for n, a, k in (('x', 'a3', 0), ('y', 'a4', 3)):
            oblige(ctx, 'pixelToProjected/' + n, ev.exit_mem(ev.val(a), 8, 'double'), gt(k) + gt(k + 1) * c + gt(k + 2) * l, fn=x, text='projected ' + n)
    x = one(ctx, prog, r'GeoReferencer::projectedToPixel\(', 'projectedToPixel')
    if x:
        ev = Ev(prog, x)
        px, py = ev.val('a1'), ev.val('a2')
        for n, a, k in (('column', 'a3', 0), ('line', 'a4', 3)):
            oblige(ctx, 'projectedToPixel/' + n, ev.exit_mem(ev.val(a), 4, 'i32'), dfun('lrint', ig(k) + px * ig(k + 1) + py * ig(k + 2)), fn=x, text=n)
    # in: (x of the transformation, y of it), out: (first output, second output) from (x, y)
    for n, tr, ins, outs in (('projectedToLatlon', 'toLatLon', ('a1', 'a2'), (('latitude', 'a3', 3), ('longitude', 'a4', 2))),
                             ('latlonToProjected', 'fromLatLon', ('a2', 'a1'), (('projected x', 'a3', 2), ('projected y', 'a4', 3)))):
        x = one(ctx, prog, r'GeoReferencer::%s\(' % n, n)
        if not x:
            continue
        ev = Ev(prog, x)
        cs = method_calls(ev, 'Transform')
        if len(cs) != 1:
            ctx.undecided(n, 'not one call of a transformation')
            continue
        call_args(ctx, n + '/transformation', ev, cs[0], {0: ('object', f('this.' + tr)), 1: ('number of points', C(1)), 4: ('heights', C(0))})
        for what, k, a in (('x', 2, ins[0]), ('y', 3, ins[1])):
            oblige(ctx, '%s/transformation/%s' % (n, what), argmem(ev, cs[0], k, 0, 8, 'double'), ev.val(a), fn=x, where=x.where(cs[0]), text=what + ' given to the transformation')
        r = ev.val('%%%d' % cs[0]['id'])
        r = apply(lambda p: p, r)
        ok = b_not(deq(r, C(0)))
        oblige(ctx, n + '/result', deq(ev.ret(), C(0)), ok, fn=x, text='succeeds')
        for what, a, k in outs:
            oblige(ctx, '%s/%s' % (n, what), ev.exit_mem(ev.val(a), 8, 'double'), P(atom('out', ev.cname(cs[0]), 'arg%d' % k, C(0))), fn=x, text=what, given=ok)
    georef(ctx, prog)
    chains(ctx, prog)
    decode(ctx, prog)


def elem_of(ev, a, k):
    v = ev.val(a)
    return f('%s[%d]' % (v.key, 8 * k) if k else '*' + v.key)


def georef(ctx, prog):
    x = one(ctx, prog, r'GeoReferencer::init\(', 'init')
    if not x:
        return
    ev = Ev(prog, x)
    cls = x.j['cls']
    at = lambda n: f('this') + member_offset(prog, cls, n)[0]
    ok = deq(ev.ret(), C(0))
    g = method_calls(ev, 'GetGeoTransform')
    inv = method_calls(ev, 'invertGeoTransform')
    sr = method_calls(ev, 'GetSpatialRef')
    cl, cg, ct = method_calls(ev, 'Clone'), method_calls(ev, 'CloneGeogCS'), method_calls(ev, 'OGRCreateCoordinateTransformation')
    if not (len(g) == len(inv) == len(sr) == len(cg) == 1 and len(cl) <= 1):
        return ctx.undecided('init', 'the projection is not found by one call each')
    v = lambda i: ev.under_known(ev.val('%%%d' % i['id']), ev.fn.blk['%%%d' % i['id']])
    call_args(ctx, 'init/geotransform', ev, g[0], {0: ('dataset', ev.val('a1')), 1: ('destination', at('geoTransform'))})
    call_args(ctx, 'init/inverse', ev, inv[0], {0: ('geotransform', at('geoTransform')), 1: ('inverse', at('invGeoTransform'))})
    call_args(ctx, 'init/projection', ev, sr[0], {0: ('dataset', ev.val('a1'))})
    for n, c in (('geotransform', g), ('inverse', inv)):
        oblige(ctx, 'init/%s/failure' % n, deq(v(c[0]), C(0)), TRUE, fn=x, text='%s found where the dataset is accepted' % n, given=ok)
    proj = v(cl[0]) if cl else None
    if proj is None:
        return ctx.undecided('init/projection', 'not a copy of the one of the dataset')
    call_args(ctx, 'init/copy', ev, cl[0], {0: ('projection', v(sr[0]))})
    call_args(ctx, 'init/geographic', ev, cg[0], {0: ('projection', proj)})
    ll = v(cg[0])
    for n, o in (('projection', proj), ('geographic', ll)):
        r = FALSE
        for i in method_calls(ev, 'SetAxisMappingStrategy'):
            a = [ev.under_known(ev.val(z), x.blk['%%%d' % i['id']]) for z in i['args'][:2]]
            if a[0].key == o.key:
                oblige(ctx, 'init/%s/axes' % n, a[1], C(0), fn=x, where=x.where(i), text='axis order')
                r = dor(r, ev.under(x.blk['%%%d' % i['id']]))
        oblige(ctx, 'init/%s/axes/set' % n, r, TRUE, fn=x, text='the axis order of the %s coordinates is set' % n, given=ok)
    tr = lambda a, b: P(atom('call', 'OGRCreateCoordinateTransformation', a, b))
    for n, w in (('toLatLon', tr(proj, ll)), ('fromLatLon', tr(ll, proj))):
        got = field_at_exit(prog, ev, n, t='ptr')
        oblige(ctx, 'init/' + n, got, w, fn=x, text='transformation', given=ok)
        oblige(ctx, 'init/%s/failure' % n, deq(w, C(0)), FALSE, fn=x, text='transformation exists where the dataset is accepted', given=ok)


def chains(ctx, prog):
    for n, first, second in (('pixelToLatlon', 'pixelToProjected', 'projectedToLatlon'), ('latlonToPixel', 'latlonToProjected', 'projectedToPixel')):
        x = one(ctx, prog, r'GeoReferencer::%s\(' % n, n)
        if not x:
            continue
        ev = Ev(prog, x)
        c1, c2 = method_calls(ev, first), method_calls(ev, second)
        if len(c1) != 1 or len(c2) != 1:
            ctx.undecided(n, 'written out')
            continue
        call_args(ctx, n + '/' + first, ev, c1[0], {0: ('object', f('this')), 1: ('first', ev.val('a1')), 2: ('second', ev.val('a2'))})
        o = lambda k: P(atom('out', ev.cname(c1[0]), 'arg%d' % k, C(0)))
        call_args(ctx, n + '/' + second, ev, c2[0], {0: ('object', f('this')), 1: ('x', o(3)), 2: ('y', o(4)), 3: ('first output', ev.val('a3')), 4: ('second output', ev.val('a4'))})
        v = lambda i: ev.val('%%%d' % i['id'])
        if n == 'latlonToPixel':
            oblige(ctx, n + '/result', deq(ev.ret(), C(0)), deq(v(c1[0]), C(0)), fn=x, text='succeeds')
            reached(ctx, n + '/output', ev, c2, deq(v(c1[0]), C(0)), 'the pixel is computed')
        else:
            oblige(ctx, n + '/result', deq(ev.ret(), C(0)), deq(v(c2[0]), C(0)), fn=x, text='succeeds')


def decode(ctx, prog):
    x = one(ctx, prog, r'dataset::decodeGeotransform\(', 'decodeGeotransform')
    if not x:
        return
    ev = Ev(prog, x)
    g = method_calls(ev, 'GetGeoTransform')
    if len(g) != 1:
        return ctx.undecided('decodeGeotransform', 'not one geotransform')
    o = lambda k: P(atom('out', ev.cname(g[0]), 'arg1', C(8 * k)))
    lr = lambda a: dfun('lrint', a)
    for n, a, w, t, want in (('column of the origin', 'a1', 4, 'i32', lr(ddiv(-o(0), o(1)))), ('line of the origin', 'a2', 4, 'i32', lr(ddiv(-o(3), o(5)))),
                             ('pixel width', 'a3', 8, 'double', o(1)), ('pixel height', 'a4', 8, 'double', -o(5))):
        oblige(ctx, 'decodeGeotransform/' + n, ev.exit_mem(ev.val(a), w, t), want, fn=x, text=n)
