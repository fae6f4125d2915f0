from ..semcheck import *
from .c08 import argmem
LEVEL = 'proof'
RULE = '''Value numbering of the crop, scale and recode operations: where the decision diagram of an operand of the virtual dataset that
is built (source window, destination size, scale, offset, geotransform element, control point) differs from the one of the request,
or a dataset is built or returned where the request cannot be met, the check reports a violation.'''
ASSUME = ['real-number semantics', 'virtual datasets copy the window they are given (GDAL VRT)']
TRUST = ['the formulas in vlib/checks/c24.py']


def run(ctx):
    prog = program()
    x = one(ctx, prog, r'^GDALTranslate::translate\(', 'translate')
    if x:
        ctx.part('translate', translate, ctx, prog, x)
    ctx.part('recode', recode, ctx, prog)


def translate(ctx, prog, x):
    ev = Ev(prog, x)
    vc = ev.calls(r'^VRTCreate')
    if len(vc) != 1:
        return ctx.undecided('translate', 'not one virtual dataset')
    ds = ev.val('a1')
    X, Y = (P(atom('call', 'GDALGetRaster%sSize' % c, ds, integer=True)) for c in 'XY')
    T = lambda n: f('this.' + n)
    I = lambda n: f('this.' + n, True)
    gts = ev.calls(r'^GDALGetGeoTransform')
    gname = ev.cname(gts[0][1])
    g = lambda k: P(atom('out', gname, 'arg1', C(8 * k)))
    req = [I('anSrcWin[%d]' % k) for k in range(4)]
    proj = dor(dor(dnot(deq(T('dfULX'), C(0))), dnot(deq(T('dfULY'), C(0)))), dor(dnot(deq(T('dfLRX'), C(0))), dnot(deq(T('dfLRY'), C(0)))))
    whole = dand(deq(req[2], C(0)), deq(req[3], C(0)))
    i = lambda a: dfun('int', a)
    pw = [dint(ddiv(T('dfULX') - g(0), g(1)) + C(0.001)), dint(ddiv(T('dfULY') - g(3), g(5)) + C(0.001)),
          dint(ddiv(T('dfLRX') - T('dfULX'), g(1)) + C(0.5)), dint(ddiv(T('dfLRY') - T('dfULY'), g(5)) + C(0.5))]
    W = [ite(proj, pw[0], req[0]), ite(proj, pw[1], req[1]), ite(proj, pw[2], ite(whole, X, req[2])), ite(proj, pw[3], ite(whole, Y, req[3]))]
    ill = dor(dor(dlt(W[0], C(0)), dlt(W[1], C(0))), dor(dor(dnot(dlt(C(0), W[2])), dnot(dlt(C(0), W[3]))), dor(dlt(X, W[0] + W[2]), dlt(Y, W[1] + W[3]))))
    b, vi = vc[0]
    u = ev.under(x.blk[b])
    oblige(ctx, 'translate/outside', dand(u, ill), FALSE, fn=x, text='a dataset is built for a window outside of the raster')
    rot = dor(dnot(deq(g(2), C(0))), dnot(deq(g(4), C(0))))
    oblige(ctx, 'translate/rotated', dand(dand(u, proj), rot), FALSE, fn=x, text='a dataset is built for a projected window of a rotated raster')
    px, py = f('this.pszOXSize'), f('this.pszOYSize')

    def size(p, n, w):
        last = f('%s[(-1 + call(strlen,%s))]' % (p.key, p.key), True)
        last = next((a for a in ev_atoms(ev, vi) if a.key.startswith('*(') and 'strlen,' + p.key in a.key or a.key.startswith(p.key + '[') and 'strlen' in a.key), None)
        if last is None:
            return None
        at = lambda fn: P(atom('call', fn, p, integer=fn == 'atoi'))
        return dint(ite(deq(P(last), C(ord('%'))), at('atof') / 100 * w, at('atoi')))
    sx, sy = size(px, 'X', W[2]), size(py, 'Y', W[3])
    O = None
    if sx is None or sy is None:
        ctx.undecided('translate/size', 'the requested size is not read from its text')
    else:
        none = deq(px, C(0))
        O = [ite(none, W[2], sx), ite(none, W[3], sy)]
        for k, n in enumerate(('columns', 'lines')):
            oblige(ctx, 'translate/size/' + n, ev.val(vi['args'][k]), O[k], where=x.where(vi), text=n + ' of the result', fn=x, given=u)
    for n in ('AddSimpleSource', 'AddComplexSource'):
        for i in method_calls(ev, n):
            b = x.blk['%%%d' % i['id']]
            for k, (what, w) in enumerate((('first column', W[0]), ('first line', W[1]), ('columns', W[2]), ('lines', W[3]))):
                oblige(ctx, 'translate/%s/%s' % (n, what), ev.val(i['args'][k + 2]), w, where=x.where(i), text=what, fn=x, given=u)
            dst = [('first column of the result', C(0)), ('first line of the result', C(0))] + ([('columns of the result', O[0]), ('lines of the result', O[1])] if O else [])
            for k, (what, w) in enumerate(dst):
                oblige(ctx, 'translate/%s/%s' % (n, what), ev.val(i['args'][k + 6]), w, where=x.where(i), text=what, fn=x, given=u)
            if n == 'AddComplexSource':
                ctx.part('translate/scale', scaling, ctx, prog, ev, x, i)
        plain = {}
        for n in ('dfULX', 'dfULY', 'dfLRX', 'dfLRY'):
            plain.update(flags(deq(T(n), C(0)), True))
        plain.update(flags(deq(req[2], C(0)), False))
        with assuming(plain):
            ctx.part('translate/geotransform', window, ctx, prog, x, g, req, px, py, size)
    ctx.part('translate/request', kept, ctx, prog, ev, x)
    if O:
        ctx.part('translate/geotransform', transforms, ctx, ev, x, u, g, W, O)
        ctx.part('translate/points', points, ctx, ev, x, W, O)
    ctx.part('translate/bands', bands, ctx, prog, ev, x, u, vi, W, X, Y)


def ev_atoms(ev, call):
    out = {}
    for a in call['args']:
        out.update(walk_atoms(ev.val(a)))
    return out.values()


def scaling(ctx, prog, ev, x, i):
    b = x.blk['%%%d' % i['id']]
    on = dnot(deq(f('this.bScale', True), C(0)))
    have = dnot(deq(f('this.bHaveScaleSrc', True), C(0)))
    off = {}
    for k in ('dfScaleSrcMin', 'dfScaleSrcMax', 'dfScaleDstMin', 'dfScaleDstMax'):
        mo = member_offset(prog, x.j['cls'], k)
        if mo is None:
            return ctx.undecided('translate/scale', 'no member ' + k)
        off[padd(ev.val('a0'), C(mo[0])).key] = f('this.' + k)

    def first(n):
        """what the value is for the first band: nothing was changed yet by another band"""
        mp = {}
        for k, a in walk_atoms(n).items():
            m = re.match(r'\?mem:(.*):\d+$', k)
            if m and m.group(1) in off:
                mp[k] = off[m.group(1)]
        return subst(n, mp) if mp else n
    given = first(ev.under(b))
    cs = ev.calls(r'^GDALComputeRasterMinMax')
    if len(cs) != 1:
        return ctx.undecided('translate/scale', 'not one range computation')
    c = cs[0][1]
    lo, hi = (P(atom('out', ev.cname(c), 'arg2', C(8 * k))) for k in (0, 1))
    smin, smax = ite(have, f('this.dfScaleSrcMin'), lo), ite(have, f('this.dfScaleSrcMax'), hi)
    dmin, dmax = f('this.dfScaleDstMin'), f('this.dfScaleDstMax')
    smax = ite(deq(smax, smin), smax + C(0.1), smax)
    dmax = ite(deq(dmax, dmin), dmax + C(0.1), dmax)
    sc = ddiv(dmax - dmin, smax - smin)
    oblige(ctx, 'translate/scale', first(ev.val(i['args'][11])), ite(on, sc, C(1)), fn=x, where=x.where(i), text='scale', given=given)
    oblige(ctx, 'translate/offset', first(ev.val(i['args'][10])), ite(on, dmin - smin * sc, C(0)), fn=x, where=x.where(i), text='offset', given=given)
    u = first(ev.under(x.blk['%%%d' % c['id']]))
    oblige(ctx, 'translate/scale/range', u, dand(on, dnot(have)), fn=x, where=x.where(c), text='the range of the source is computed', given=given)


def transforms(ctx, ev, x, u, g, W, O):
    bounds = dnot(deq(f('this.bGotBounds', True), C(0)))
    ul = lambda k: f('this.adfULLR[%d]' % k)
    A = [ul(0), ddiv(ul(2) - ul(0), O[0]), C(0), ul(1), C(0), ddiv(ul(3) - ul(1), O[1])]
    fx, fy = ddiv(W[2], O[0]), ddiv(W[3], O[1])
    B = [g(0) + W[0] * g(1) + W[1] * g(2), g(1) * fx, g(2) * fy, g(3) + W[0] * g(4) + W[1] * g(5), g(4) * fx, g(5) * fy]
    cs = method_calls(ev, 'SetGeoTransform')
    for i in cs:
        b = x.blk['%%%d' % i['id']]
        given = ev.under(b)
        for k in range(6):
            oblige(ctx, 'translate/geotransform[%d]' % k, argmem(ev, i, 1, 8 * k, 8, 'double'), ite(bounds, A[k], B[k]), fn=x, where=x.where(i), text='element %d' % k, given=given)
    if cs:
        none = deq(f('this.nGCPCount', True), C(0))
        own = {ev.val(i['args'][1]).key for i in cs}
        has = FALSE
        for b, c in ev.calls(r'^GDALGetGeoTransform'):
            oblige(ctx, 'translate/geotransform/source', ev.val(c['args'][0]), ev.val('a1'), fn=x, where=x.where(c), text='dataset')
            if ev.val(c['args'][1]).key in own:
                has = dor(has, deq(ev.val('%%%d' % c['id']), C(0)))
        r = FALSE
        for i in cs:
            r = dor(r, ev.under(x.blk['%%%d' % i['id']]))
        oblige(ctx, 'translate/geotransform/set', r, TRUE, fn=x, where=x.where(cs[0]), text='the geotransform of the result is set', given=dand(u, dor(bounds, dand(has, none))))
    else:
        ctx.undecided('translate/geotransform', 'set elsewhere')


def window(ctx, prog, x, g, req, px, py, size):
    """a window in pixels and a size in pixels: the general case has too many branches to be told apart everywhere"""
    e = Ev(prog, x)
    for i in method_calls(e, 'SetGeoTransform'):
        given = e.under(x.blk['%%%d' % i['id']])
        own = deq(f('this.bGotBounds', True), C(0))
        if dand(given, own).key == FALSE.key:
            continue
        o = [size(p, n, w) for p, n, w in ((px, 'X', req[2]), (py, 'Y', req[3]))]
        O = [ite(deq(px, C(0)), req[2], o[0]), ite(deq(px, C(0)), req[3], o[1])]
        fx, fy = ddiv(req[2], O[0]), ddiv(req[3], O[1])
        B = [g(0) + req[0] * g(1) + req[1] * g(2), g(1) * fx, g(2) * fy, g(3) + req[0] * g(4) + req[1] * g(5), g(4) * fx, g(5) * fy]
        for k in range(6):
            oblige(ctx, 'translate/geotransform of a window[%d]' % k, argmem(e, i, 1, 8 * k, 8, 'double'), B[k], fn=x, where=x.where(i), text='element %d' % k, given=dand(given, own))


def kept(ctx, prog, ev, x):
    """members of the request are not changed; the ranges of a scaling are worked out again for every source"""
    free = set()
    for k in ('dfScaleSrcMin', 'dfScaleSrcMax', 'dfScaleDstMin', 'dfScaleDstMax'):
        mo = member_offset(prog, x.j['cls'], k)
        if mo:
            free.add(mo[0])
    me = ev.val('a0')
    n = 0
    for b in x.rpo():
        for i in x.blocks[b]['insts']:
            if i['op'] != 'store':
                continue
            p = ev.val(i['p'])
            off = padd(p, me, -1) if isinstance(p, Poly) else None
            if off is None or any(a.key == me.key for a in off.atoms()) or any(a.kind in ('local', 'opq', 'call') or a.key.startswith(('local:', 'new:', '?')) for a in off.atoms()):
                continue
            c = off.const()
            if c in free:
                continue
            if any(m and m[0][0].key == me.key for m in p.t) is False:
                continue
            n += 1
            v = ev.val(i['a'][0]) if i.get('a') else None
            old = ev.initial(p, i['sz'], i.get('t') or 'i32')
            if isinstance(v, Poly) and isinstance(old, Poly) and v.key == old.key:
                continue
            ctx.violation('translate/request', 'a member of the request is changed (offset %s)' % off.key[:60], x.where(i))
    for i in [i for b in x.rpo() for i in x.blocks[b]['insts'] if i['op'] in ('memcpy', 'memmove', 'memset') and i.get('args')]:
        p = ev.val(i['args'][0])
        if isinstance(p, Poly) and padd(p, me, -1).const() is not None:
            n += 1
            ctx.violation('translate/request', 'members of the request are overwritten', x.where(i))
    if not n:
        ctx.good('translate/request', 'no member is stored to')


def points(ctx, ev, x, W, O):
    """control points move with the window"""
    d = ev.calls(r'^GDALDuplicateGCPs')
    if len(d) != 1:
        return ctx.undecided('translate/points', 'not one copy of the control points')
    base = ev.val('%%%d' % d[0][1]['id'])
    seen = 0
    for h, off, v, i in stored(ev, base.key, 8):
        c = split_const(off)[1] if h is not None else None
        if c not in (16, 24):
            continue
        seen += 1
        k = c == 24
        given = ev.under(x.blk['%%%d' % i['id']])
        oblige(ctx, 'translate/points/' + ('line' if k else 'column'), v, (ev.initial(padd(base, off), 8, 'double') - W[k]) * ddiv(O[k], W[2 + k]), fn=x, where=x.where(i), text='position of a control point', given=given)
        t = ev.trips(h)
        if t is not None:
            oblige(ctx, 'translate/points/count', t, P(atom('call', 'GDALGetGCPCount', ev.val('a1'), integer=True)), fn=x, where=x.where(i), text='number of control points')
    if not seen:
        ctx.undecided('translate/points', 'moved elsewhere')
    for i in method_calls(ev, 'SetGCPs'):
        own = deq(f('this.nGCPCount', True), C(0))
        given = ev.under(x.blk['%%%d' % i['id']])
        oblige(ctx, 'translate/points/number', ev.val(i['args'][1]), ite(own, P(atom('call', 'GDALGetGCPCount', ev.val('a1'), integer=True)), f('this.nGCPCount', True)), fn=x, where=x.where(i), text='number of control points', given=given)
        oblige(ctx, 'translate/points/list', ev.val(i['args'][2]), ite(own, base, f('this.pasGCPs')), fn=x, where=x.where(i), text='control points', given=given)


def bands(ctx, prog, ev, x, u, vi, W, X, Y):
    ds, vds = ev.val('a1'), ev.val('%%%d' % vi['id'])
    listed = dnot(deq(f('this.nBandCount', True), C(0)))
    rgb = dnot(deq(f('this.nRGBExpand', True), C(0)))
    srcs = [i for n in ('AddSimpleSource', 'AddComplexSource') for i in method_calls(ev, n)]
    pairs = {}
    for i in method_calls(ev, 'GetRasterBand'):
        o, n = ev.val(i['args'][0]), ev.val(i['args'][1])
        hs = ev.inner_loops(x.blk['%%%d' % i['id']])
        pairs.setdefault(hs[-1] if hs else None, ([], []))[0 if o.key == ds.key else 1].append((i, n))
    N = f('n', True)
    exp = dlt(N, f('this.nRGBExpand', True))
    want = ite(exp, f('*this.panBandList'), elem('this.panBandList[%s]', 4 * N))
    once = sorted(n.const() for i, n in pairs.get(None, ([], []))[1] if n.const() is not None)
    for h, (rd, wr) in pairs.items():
        if not rd or not wr:
            continue
        if h is None:
            for i, n in rd:
                # a band that is handled before the loop
                c = [w.const() for j, w in wr if w.const() is not None]
                if len(c) == 1 and len(wr) == 1:
                    oblige(ctx, 'translate/band', n, subst(want, {'n': C(c[0] - 1)}) if c[0] > 1 else f('*this.panBandList'), fn=x, where=x.where(i), text='band read', given=dand(listed, dor(rgb, dnot(subst(exp, {'n': C(c[0] - 1)})))))
                else:
                    ctx.undecided('translate/band', 'not one band written')
            continue
        k = ev.k(h)
        ats = [w for j, w in wr]
        at = padd(ats[0], k, -1).const() if isinstance(ats[0], Poly) and len({w.key for w in ats}) == 1 else None
        if at is None:
            if any(w.opaque for w in ats) or len({w.key for w in ats}) > 1:
                ctx.undecided('translate/band written', 'number of the band')
            else:
                ctx.violation('translate/band written', 'the bands written are number %s in pass k' % ats[0].key[:80], x.where(wr[0][0]))
            continue
        if once == list(range(1, int(at))):
            ctx.good('translate/band written', 'bands 1 to n are written')
        else:
            ctx.violation('translate/band written', 'the first band written is %d' % at, x.where(wr[0][0]))
        for i, n in rd:
            z = lambda d: subst(d, {k.key: N - (at - 1)})
            r = z(ev.under(x.blk['%%%d' % i['id']]))
            oblige(ctx, 'translate/band', z(n), want, fn=x, where=x.where(i), text='band read', given=dand(dand(listed, r), dand(dor(rgb, dnot(exp)), dnot(dlt(N, C(at - 1))))))
    vecs = {m.group(1) for i in method_calls(ev, 'GetRasterBand') for a in walk_atoms(ev.val(i['args'][1])).values() for m in [re.match(r'\*?(out\([\w.,]+\))', a.key)] if m}
    for v in sorted(vecs):
        elementwise(ctx, 'translate/all bands', ev, v, 4, lambda n: n + 1, count=P(atom('call', 'GDALGetRasterCount', ds, integer=True)), text='band n of all bands')
    n = f('n', True)
    refused = []
    for v, i in ev.calls(r'^CPLError$'):
        for h in ev.loops:
            if ev.inner_loops(x.blk[v]) or ev.inner_loops(h) != [h]:
                continue
            z = lambda d: subst(d, {ev.k(h).key: n})
            r, at = z(ev.under(x.blk[v], h)), elem('this.panBandList[%s]', 4 * n)
            if at.key in walk_atoms(r) and all('panBandList' in k or 'GetRasterCount' in k or not isinstance(a, Atom) or k in (ds.key, 'n', 'this') for k, a in walk_atoms(r).items()):
                refused.append(h)
                oblige(ctx, 'translate/band/refused', r, dor(dlt(at, C(1)), dlt(P(atom('call', 'GDALGetRasterCount', ds, integer=True)), at)), fn=x, where=x.where(i),
                       text='a band number is refused', given=dand(listed, dlt(n, f('this.nBandCount', True))))
                oblige(ctx, 'translate/band/all checked', ev.under(h), TRUE, fn=x, where=x.where(i), text='the band numbers are checked', given=dand(u, listed))
    nd = dnot(deq(f('this.bSetNoData', True), C(0)))
    blk = lambda i: x.blk['%%%d' % i['id']]
    turn = lambda i: (ev.inner_loops(blk(i)) or [None])[-1]
    for h in {turn(i): 1 for i in srcs}:
        grp = [i for i in srcs if turn(i) == h]
        rest = {n: [i for i in method_calls(ev, n) if turn(i) == h] for n in ('AddBand', 'CopyCommonInfoFrom', 'SetNoDataValue')}
        # what happens in one turn, seen from where its calls part
        D = common(ev, [blk(i) for i in grp + rest['CopyCommonInfoFrom'] + rest['SetNoDataValue']])
        when = lambda i: ev.under(blk(i), D)
        done = FALSE
        for i in grp:
            done = dor(done, when(i))
        vs = {ev.val(i['args'][1]).key: ev.val(i['args'][1]) for i in grp}
        if len(vs) != 1:
            ctx.undecided('translate/source', 'more than one source of a band')
            continue
        s = next(iter(vs.values()))
        k = ev.k(h) if h is not None else C(0)
        for i in rest['AddBand']:
            t = apply(lambda p: P(atom('call', 'GetRasterDataType', p, integer=True)), s)
            e = f('this.eOutputType', True)
            oblige(ctx, 'translate/type', ev.val(i['args'][1]), ite(deq(e, C(0)), t, e), fn=x, where=x.where(i), text='type of a band', given=dand(ev.under(blk(i)), dnot(rgb)) if h is not None else dnot(rgb))
        for i in rest['CopyCommonInfoFrom']:
            z = lambda d: subst(d, {'this.nRGBExpand': C(0)})
            oblige(ctx, 'translate/information', z(ev.val(i['args'][1])), z(s), fn=x, where=x.where(i), text='band whose description is copied', given=z(when(i)))
            oblige(ctx, 'translate/information/set', z(when(i)), z(done), fn=x, where=x.where(i), text='the description of a band is copied', given=dnot(dlt(k, C(0))))
        for i in rest['SetNoDataValue']:
            call_args(ctx, 'translate/nodata', ev, i, {1: ('value', f('this.dfNoDataReal'))})
            oblige(ctx, 'translate/nodata/set', when(i), nd, fn=x, where=x.where(i), text='the no-data value is set', given=done)
        for n, what in (('CopyCommonInfoFrom', 'the description of a band'), ('SetNoDataValue', 'the no-data value')):
            if not rest[n]:
                if method_calls(ev, n):
                    ctx.violation('translate/%s/every' % n, '%s is not set for every band' % what, x.where(grp[0]))
                else:
                    ctx.undecided('translate/' + n, 'set elsewhere')
    # what is returned
    bad = FALSE
    for n in ('eOutputType', 'bScale', 'nGCPCount', 'bGotBounds', 'bSetNoData', 'nRGBExpand', 'pszOXSize', 'pszOYSize', 'pszOutputSRS'):
        bad = dor(bad, dnot(deq(f('this.' + n, not n.startswith('psz')), C(0))))
    for a, w in zip(W, (C(0), C(0), X, Y)):
        bad = dor(bad, dnot(deq(a, w)))
    oblige(ctx, 'translate/unchanged', dand(returns(ev, ds.key), bad), FALSE, fn=x, text='the source itself is returned where a change is requested')
    vb = x.blk['%%%d' % vi['id']]
    said = [x.blk[v] for v, i in ev.calls(r'^CPLError$')]
    for c, v, b in returned(ev):
        if b == vb or reach(x, vb, b):
            # giving up is fine where it is reported
            keys = [ds.key] if any(reach(x, vb, e) and (e == b or reach(x, e, b)) for e in said) else [ds.key, '0']
            w = isval(v, *keys)
            oblige(ctx, 'translate/result', w, FALSE, fn=x, text='the new dataset is returned', given=TRUE if w.key == '0' else c)


def recode(ctx, prog):
    T = 'GDALTranslate'
    x = one(ctx, prog, r'^GDALTranslate::GDALTranslate\(', 'defaults')
    if x:
        ev = Ev(prog, x)
        for n in ('eOutputType', 'nBandCount', 'nGCPCount', 'bSetNoData', 'bGotBounds', 'bScale', 'pszOXSize', 'pszOYSize', 'anSrcWin[0]', 'anSrcWin[1]', 'anSrcWin[2]', 'anSrcWin[3]',
                  'dfULX', 'dfULY', 'dfLRX', 'dfLRY', 'pszOutputSRS', 'nRGBExpand', 'papszMetadataOptions'):
            m, _, k = n.partition('[')
            mo = member_offset(prog, T, m)
            if mo is None:
                ctx.undecided('defaults/' + n, 'no such member')
                continue
            sz, t = (8, 'ptr') if m.startswith(('psz', 'papsz')) else (8, 'double') if m.startswith('df') else (4, 'i32')
            oblige(ctx, 'defaults/' + n, ev.exit_mem(ev.val('a0') + mo[0] + (4 * int(k[:-1]) if k else 0), sz, t), C(0), fn=x, text=n + ' of a new request')
    box = lambda p: (f(p + '.topLeft.column', True), f(p + '.topLeft.line', True), f(p + '.bottomRight.column', True), f(p + '.bottomRight.line', True))
    for x in find(prog, r'^msat::dataset::recode\('):
        ev = Ev(prog, x)
        ctx.fn(x)
        tr, rc = ev.calls(r'^GDALTranslate::translate\('), ev.calls(r'^msat::dataset::recode\(')
        pt = x.j.get('ptypes') or []
        crop = next((k for k, c in enumerate(pt) if c and c.endswith('ImageBox')), None)
        ints = [k for k, a in enumerate(x.j['args']) if a[1] == 'i32']
        nm = 'recode(%s)' % ', '.join((['area'] if crop is not None else []) + (['size'] if ints else []))
        if tr:
            if len(tr) != 1 or crop is None or len(ints) != 2:
                ctx.undecided(nm, 'not one translation')
                continue
            main(ctx, prog, ev, x, tr[0][1], box('p%d' % crop), [ev.val('a%d' % k) for k in ints], nm)
        elif len(rc) == 1:
            i = rc[0][1]
            ds = 'a%d' % next(k for k, c in enumerate(pt) if c == 'GDALDataset')
            call_args(ctx, nm, ev, i, {0: ('dataset', ev.val(ds))})
            size = lambda n: P(atom('call', n, ev.val(ds), integer=True))
            w = box('p%d' % crop) if crop is not None else None
            callee = prog.fns.get(i.get('callee'))
            cp = (callee.j.get('ptypes') if callee else None) or []
            cc = next((k for k, c in enumerate(cp) if c and c.endswith('ImageBox')), None)
            ci = [k for k, a in enumerate(callee.j['args']) if a[1] == 'i32'] if callee else []
            if cc is None or len(ci) != 2:
                ctx.undecided(nm, 'forwarded to an unknown function')
                continue
            if w is None:
                w = [C(0), C(0), size('GetRasterXSize'), size('GetRasterYSize')]
                tt = 'msat::proj::ImageBox'
                for n, v in zip(('topLeft.column', 'topLeft.line', 'bottomRight.column', 'bottomRight.line'), w):
                    mo = member_offset(prog, tt, n)
                    if mo is None:
                        ctx.undecided(nm + '/' + n, 'no such member')
                    else:
                        oblige(ctx, nm + '/' + n, argmem(ev, i, cc, mo[0], mo[1], 'i%d' % (8 * mo[1])), v, fn=x, where=x.where(i), text=n)
            else:
                call_args(ctx, nm, ev, i, {cc: ('area', ev.val('a%d' % crop))})
            sz = [ev.val('a%d' % k) for k in ints] if ints else [w[2] - w[0], w[3] - w[1]]
            call_args(ctx, nm, ev, i, {ci[0]: ('columns', sz[0]), ci[1]: ('lines', sz[1])})
            same = [k for k, c in enumerate(cp) if c and ('basic_string' in c or c == 'GDALDriver')]
            mine = [k for k, c in enumerate(pt) if c and ('basic_string' in c or c == 'GDALDriver')]
            if len(same) == len(mine):
                call_args(ctx, nm, ev, i, {a: ('argument %d' % a, ev.val('a%d' % b)) for a, b in zip(same, mine)})
            oblige(ctx, nm + '/result', ev.ret(), ev.val('%%%d' % i['id']), fn=x, text='returned')
        else:
            ctx.undecided(nm, 'written in another way')


def main(ctx, prog, ev, x, i, w, sz, nm):
    T = 'GDALTranslate'
    want = [w[0], w[1], w[2] - w[0], w[3] - w[1]]
    mo = member_offset(prog, T, 'anSrcWin')
    for k in range(4):
        oblige(ctx, '%s/window[%d]' % (nm, k), argmem(ev, i, 0, mo[0] + 4 * k, 4, 'i32'), want[k], fn=x, where=x.where(i), text='element %d of the source window' % k)
    scaled = dor(dnot(deq(sz[0], want[2])), dnot(deq(sz[1], want[3])))
    b = x.blk['%%%d' % i['id']]
    at = (b, x.blocks[b]['insts'].index(i))
    init = 0
    for k, n in enumerate(('pszOXSize', 'pszOYSize')):
        v = argmem(ev, i, 0, member_offset(prog, T, n)[0], 8, 'ptr')
        v = apply_d(lambda p: C(0) if is_default(p) else text_value(ev, p, at) or P(atom('opq', 'text')), v)
        oblige(ctx, '%s/%s' % (nm, n), v, ite(scaled, P(atom('call', 'decimal', sz[k])), C(0)), fn=x, where=x.where(i), text='requested size')
    r = ev.val('%%%d' % i['id'])
    cp = ev.calls(r'^GDALCreateCopy')
    if len(cp) == 1:
        c = cp[0][1]
        pt = x.j['ptypes']
        name = next(k for k, p in enumerate(pt) if p and 'basic_string' in p)
        call_args(ctx, nm + '/copy', ev, c, {0: ('driver', ev.val('a%d' % pt.index('GDALDriver'))), 2: ('dataset', r)})
        oblige(ctx, nm + '/copy/file name', text_arg(ev, c, 1), ev.val('a%d' % name), fn=x, where=x.where(c), text='file name')
        oblige(ctx, nm + '/result', ev.ret(), ite(deq(r, C(0)), C(0), ev.val('%%%d' % c['id'])), fn=x, text='returned')
    else:
        ctx.undecided(nm + '/copy', 'not one copy')
    for bb, c in ev.calls(r'^GDALClose$'):
        if ev.val(c['args'][0]).key == r.key:
            oblige(ctx, nm + '/close', ev.under(x.blk['%%%d' % c['id']]), dand(dnot(deq(r, C(0))), dnot(deq(r, ev.val('a0')))), fn=x, where=x.where(c), text='the translation is closed unless it is the source')


def is_default(p):
    a = list(p.atoms()) if isinstance(p, Poly) else []
    return len(a) == 1 and a[0].kind == 'out' and p.key == a[0].key and a[0].a[0] in ('indirect', 'GDALTranslate')
