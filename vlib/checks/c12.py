from ..semcheck import *
LEVEL = 'proof'
RULE = '''Value numbering of the GRIB writer and reader: every call that sets a key is collected over the functions that a kind of file is
written with (virtual calls resolved through its vtable), and the decision diagram of its value, of the condition under which it is set and
of the condition under which writing succeeds is compared with the documented encoding; the reader's fields, metadata, geotransform and pixel
buffer are compared with the same encoding read back.  A key with another value, never set, or read into another place is a violation.'''
ASSUME = ['real-number semantics', 'ecCodes stores and returns what it is given', 'GDAL calls of the source dataset do not change between calls']
TRUST = ['the table of keys in vlib/checks/c12.py']

PSX, PSX_HRV = 3000.403076, 1000.134338
EDITIONS = {'msat/wmo': ('CreateGribWMO', 2), 'msat/ecmwf': ('CreateGribECMWF', 1), 'msat/msat': ('CreateGribMsat', 1)}
STATE = ('src', 'rb', 'osr', 'values', 'count_missing', 'grib_missing', 'grib')


def vt(prog, cls):
    for g, init in prog.globals.items():
        if g.startswith('_ZTV') and isinstance(init, list) and init and isinstance(init[0], list) and qual(g[4:]) == cls:
            return [e for e in init[0][2:]]
    return []


def class_named(prog, n):
    cs = [t for t in prog.types if t.split('::')[-1] == n and t.startswith('msat::grib')]
    return cs[0] if len(cs) == 1 else None


def writers(prog, cls):
    """the functions that writing one kind of file runs, and create()"""
    tab = vt(prog, cls)
    byname = {}
    for m in tab:
        if isinstance(m, str) and m in prog.fns:
            byname.setdefault(short(prog.fns[m].dem), prog.fns[m])
    top = byname.get('create')
    if top is None:
        return None, {}, {}
    evs, todo = {}, [top]
    while todo:
        x = todo.pop()
        if x in evs:
            continue
        ev = evs[x] = Ev(prog, x)
        for k, i in x.inst.items():
            if i['op'] not in ('call', 'invoke'):
                continue
            if i.get('indirect'):
                n = ev.slot(i)
                o = ev.val(i['args'][0]) if i.get('args') else None
                if o is not None and getattr(o, 'key', '') == 'this' and n in byname:
                    todo.append(byname[n])
            else:
                y = prog.fns.get(i.get('callee'))
                if y is not None and re.match(r'msat::grib::(\(anonymous namespace\)::)?Create', y.dem) and not y.dem.split('(')[0].endswith('~'):
                    todo.append(y)
    return top, evs, byname


def number(name, obj, item):
    s = P(atom('vcall', 'GetMetadataItem', f(obj), f('"%s"' % item), f('""')))
    return s


def strtoul_of(evs, s):
    """how the code spells the number written in text s"""
    for ev in evs:
        for v, i in ev.calls(r'strtou?l$|ato[il]$'):
            pass
    return None


def run(ctx):
    prog = program()
    ctx.part('read', reader, ctx, prog)
    ctx.part('time', times, ctx, prog)
    for tpl, (cn, ed) in EDITIONS.items():
        cls = class_named(prog, cn)
        if cls is None:
            ctx.undecided('write/' + tpl, 'no class writes this kind of file')
            continue
        top, evs, names = writers(prog, cls)
        if top is None:
            ctx.undecided('write/' + tpl, 'no function writes this kind of file')
            continue
        ctx.part('write/' + tpl, write, ctx, prog, tpl, ed, cn, top, evs)
    ctx.part('write/pixels', values, ctx, prog)
    ctx.part('write/template', select, ctx, prog)


def meta(obj, item):
    return P(atom('vcall', 'GetMetadataItem', f('this.' + obj), f('"%s"' % item), f('""')))


def gt(k):
    return P(atom('out', 'GetGeoTransform', 'arg1', C(8 * k)))


def as_number(n):
    """every spelling of the number a text holds, as one"""
    mp = {}
    for k, a in walk_atoms(n).items():
        if a.kind == 'call' and isinstance(a.a[0], str) and re.search(r'(strtou?ll?|ato[il]|stou?l|stoi)$', a.a[0]) and len(a.a) >= 2:
            t = a.a[1]
            mp[k] = P(atom('call', 'number', t if isinstance(t, (Poly, Ite)) else P(t), integer=True))
    return subst(n, mp) if mp else n


def write(ctx, prog, tpl, ed, cn, top, evs):
    src, rb = f('this.src'), f('this.rb')
    X, Y = (P(atom('call', 'GetRaster%sSize' % c, src, integer=True)) for c in 'XY')
    craft, chan, when = meta('src', 'MSAT_SPACECRAFTID'), meta('rb', 'MSAT_CHANNELID'), meta('src', 'MSAT_DATETIME')
    num = lambda t: P(atom('call', 'number', t, integer=True))
    has = lambda t: dnot(deq(t, C(0)))
    hrv = dnot(dor(dlt(C(0.0001), gt(1) - C(PSX_HRV)), dlt(C(0.0001), C(PSX_HRV) - gt(1))))
    co = lo = ite(hrv, C(5568), C(1856))
    r0 = lambda a: dfun('nearbyint', a)
    xo, yo = r0(co + ddiv(gt(0), gt(1))), r0(lo + ddiv(gt(3), gt(5)))
    dx, dy = P(atom('call', 'seviriDXFromPixelHSize', gt(1), integer=True)), P(atom('call', 'seviriDYFromPixelVSize', -1 * gt(5), integer=True))
    osr = None
    size = None
    T = TRUE
    miss = f('this.count_missing', True)
    some = dnot(deq(miss, C(0)))
    K = {'numberOfPointsAlongXAxis': (X, T), 'numberOfPointsAlongYAxis': (Y, T), 'geography.dx': (dx, T), 'geography.dy': (dy, T),
         'Xo': (xo, T), 'Yo': (yo, T), 'geography.xo': (xo, None), 'geography.yo': (yo, None),
         'latitudeOfSubSatellitePointInDegrees': (C(0), T), 'scanningMode': (C(0), None), 'orientationOfTheGridInDegrees': (C(180), T),
         'centre': (C(98), T), 'subCentre': (C(0), None), 'generatingProcessIdentifier': (C(254), None),
         'bitmapPresent': (ite(some, C(1), C(0)), T), 'missingValue': (f('this.grib_missing'), some)}
    if ed == 2:
        K.update({'discipline': (C(3), T), 'tablesVersion': (C(4), None), 'localTablesVersion': (C(0), None), 'significanceOfReferenceTime': (C(3), T),
                  'productionStatusOfProcessedData': (C(0), None), 'typeOfProcessedData': (C(0), None), 'sourceOfGridDefinition': (C(0), None),
                  'interpretationOfNumberOfPoints': (C(0), None), 'gridDefinitionTemplateNumber': (C(90), T), 'shapeOfTheEarth': (C(2), T),
                  'xCoordinateOfSubSatellitePoint': (co, T), 'yCoordinateOfSubSatellitePoint': (lo, T), 'Nr': (C(6610708), T),
                  'productDefinitionTemplateNumber': (C(31), T), 'parameterCategory': (C(0), None), 'parameterNumber': (C(0), None),
                  'typeOfGeneratingProcess': (C(0), None), 'NB': (C(1), T), 'satelliteSeries': (C(333), has(craft)), 'satelliteNumber': (num(craft), has(craft)),
                  'instrumentType': (C(207), has(craft)), 'scaleFactorOfCentralWaveNumber': (C(0), dand(has(craft), has(chan))),
                  'scaledValueOfCentralWaveNumber': (dfun('round', P(atom('call', 'channel_central_wave_number', num(craft), num(chan)))), dand(has(craft), has(chan))),
                  'numberOfValues': (X * Y - miss, T), 'dataRepresentationTemplateNumber': (C(0), None)})
    else:
        K.update({'gridDefinition': (C(255), T), 'indicatorOfParameter': (C(127), T), 'indicatorOfTypeOfLevel': (num(craft), has(craft)), 'level': (num(chan), has(chan)),
                  'indicatorOfUnitOfTimeRange': (C(0), None), 'timeRangeIndicator': (C(0), None), 'numberIncludedInAverage': (C(0), None),
                  'numberMissingFromAveragesOrAccumulations': (C(0), None), 'numberOfVerticalCoordinateValues': (C(0), None), 'pvlLocation': (C(255), None),
                  'dataRepresentationType': (C(90), T), 'resolutionAndComponentFlags': (C(64), T), 'XpInGridLengths': (co, T), 'YpInGridLengths': (lo, T),
                  'altitudeOfTheCameraFromTheEarthsCentreMeasuredInUnitsOfTheEarthsRadius': (C(6610708), T)})
        K['altitudeOfTheCameraFromTheEarthSCenterMeasuredInUnitsOfTheEarth'] = (C(6610708), None)
    if tpl == 'msat/ecmwf':
        K.update({'localDefinitionNumber': (C(24), T), 'satelliteIdentifier': (num(craft), has(craft)), 'instrumentIdentifier': (C(207), has(craft)),
                  'channelNumber': (num(chan), has(chan)), 'functionCode': (C(1), None)})
    sets, times_, opaque, order = {}, [], False, {}
    for x, ev in evs.items():
        ctx.fn(x)
        for v, i in ev.calls(r'^msat::grib::Grib::set_(long|double|string)\w*\(|Grib::set_long_oneof|^msat::grib::Grib::setTime\('):
            b = x.blk[v]
            nm = short(i.get('dem') or '')
            a = i['args'][1:]
            if nm == 'setTime':
                times_.append((x, ev, i, b, ev.under_known(ev.val(a[0]), b)))
                continue
            pairs = [(a[0], a[1])]
            if nm == 'set_long_oneof':
                vs = [ev.val(z) for z in a]
                pairs = [(a[k], a[k + 1]) for k in range(0, len(a) - 1, 2) if getattr(vs[k], 'key', '').startswith('"')]
            for k, val in pairs:
                key = ev.under_known(ev.val(k), b)
                key = getattr(key, 'key', '')
                if not key.startswith('"'):
                    opaque = True
                    continue
                sets.setdefault(key.strip('"'), []).append((x, ev, i, b, val, nm))
    for key, cs in sorted(sets.items()):
        if key in ('values', 'longitudeOfSubSatellitePointInDegrees', 'numberOfDataPoints'):
            continue
        if key not in K:
            ctx.good('write/%s/%s' % (tpl, key), 'additional key')
            continue
        want = K[key][0]
        for x, ev, i, b, val, nm in cs:
            got = as_number(ev.under_known(ev.val(val), b))
            if len(x.j['args']) > 1 or not known(got):
                ctx.undecided('write/%s/%s' % (tpl, key), 'computed from values outside of the readable forms')
                continue
            oblige(ctx, 'write/%s/%s' % (tpl, key), got, want, fn=x, where=x.where(i), text='key ' + key, given=ev.under(b) if key == 'bitmapPresent' else success(ev))
    for key, (want, cond) in sorted(K.items()):
        if cond is None:
            continue
        present(ctx, 'write/%s/%s/set' % (tpl, key), 'the key ' + key, [(x, ev, b) for x, ev, i, b, val, nm in sets.get(key, [])], cond, opaque, top)
    # position of the satellite
    for x, ev, i, b, val, nm in sets.get('longitudeOfSubSatellitePointInDegrees', []):
        g = ev.val(val)
        a = [z for z in walk_atoms(g).values() if z.kind == 'call' and z.a[0] == 'GetProjParm']
        if g.key in {z.key for z in a} and len(a) == 1 and len(a[0].a) > 2:
            ctx.good('write/%s/longitude' % tpl) if getattr(a[0].a[2], 'key', a[0].a[2]) == '"central_meridian"' else ctx.violation('write/%s/longitude' % tpl, 'the satellite longitude written is %s' % g.key[:100], x.where(i))
        elif g.opaque or not known(g) or a:
            ctx.undecided('write/%s/longitude' % tpl, 'not read directly from the projection')
        else:
            ctx.violation('write/%s/longitude' % tpl, 'the satellite longitude written is %s, not the one of the projection' % g.key[:100], x.where(i))
    present(ctx, 'write/%s/longitude/set' % tpl, 'the satellite longitude', [(x, ev, b) for x, ev, i, b, val, nm in sets.get('longitudeOfSubSatellitePointInDegrees', [])], T, opaque, top)
    for x, ev, i, b, v in times_:
        oblige(ctx, 'write/%s/time' % tpl, v, when, fn=x, where=x.where(i), text='time')
    present(ctx, 'write/%s/time/set' % tpl, 'the time', [(x, ev, b) for x, ev, i, b, v in times_], has(when), False, top)
    vals = sets.get('values', [])
    for x, ev, i, b, val, nm in vals:
        v, n = ev.val(i['args'][2]), ev.val(i['args'][3])
        mo = member_offset(prog, x.j['cls'], 'values')
        if mo is None:
            ctx.undecided('write/%s/values' % tpl, 'no such member')
            continue
        whole = [a for a in walk_atoms(n).values() if a.kind == 'call' and a.a[0] == 'size']
        if v.key == 'vec{this.values}' and n.key in {a.key for a in whole} and len(whole) == 1 and whole[0].a[1].key == (ev.val('a0') + mo[0]).key:
            ctx.good('write/%s/values' % tpl, 'all pixels are written')
        elif v.key.startswith('vec{this.values}') and (whole or n.const() is not None):
            ctx.violation('write/%s/values' % tpl, 'the pixels written are %s values from %s' % (n.key[:80], v.key[:80]), x.where(i))
        else:
            ctx.undecided('write/%s/values' % tpl, 'not the member with the pixels')
    present(ctx, 'write/%s/values/set' % tpl, 'the pixels', [(x, ev, b) for x, ev, i, b, val, nm in vals], T, False, top)
    for x, ev, i, b, val, nm in sets.get('numberOfDataPoints', []):
        n = ev.val(val)
        ok = [a for a in walk_atoms(n).values() if a.kind == 'call' and a.a[0] == 'size']
        if ok and n.key == ok[0].key or n.key == (X * Y).key:
            ctx.good('write/%s/numberOfDataPoints' % tpl)
        elif n.opaque or not known(n):
            ctx.undecided('write/%s/numberOfDataPoints' % tpl, 'outside of the readable forms')
        else:
            ctx.violation('write/%s/numberOfDataPoints' % tpl, 'the number of points written is %s' % n.key[:100], x.where(i))
    # what a dataset must look like to be written
    for x, ev in evs.items():
        if not any(k in ('geography.dx', 'geography.dy') and x is y[0] for k, ys in sets.items() for y in ys):
            continue
        r = ev.ret()
        near = lambda a, b: dnot(dor(dlt(C(0.0001), a - C(b)), dlt(C(0.0001), C(b) - a)))
        rc = P(atom('vcall', 'GetGeoTransform', src, P(atom('&local')))) if False else None
        shape = dand(dand(deq(gt(2), C(0)), deq(gt(4), C(0))), ite(hrv, near(-1 * gt(5), PSX_HRV), dand(near(gt(1), PSX), near(-1 * gt(5), PSX))))
        given = TRUE
        for a in walk_atoms(r).values():
            if a.kind == 'vcall' and a.a[0] == 'GetGeoTransform':
                given = dand(given, deq(P(a), C(0)))
        oblige(ctx, 'write/%s/grid' % tpl, dnot(returns(ev, '0')), shape, fn=x, text='a grid is accepted', given=given)
    # template numbers and flags come before what depends on them
    before(ctx, 'write/%s/order' % tpl, evs, sets, {'gridDefinitionTemplateNumber': ('geography.dx', 'Xo', 'xCoordinateOfSubSatellitePoint', 'Nr'), 'productDefinitionTemplateNumber': ('NB', 'satelliteNumber'),
                                                   'dataRepresentationType': ('geography.dx', 'Xo', 'XpInGridLengths'), 'localDefinitionNumber': ('satelliteIdentifier', 'channelNumber'),
                                                   'bitmapPresent': ('values', 'missingValue'), 'missingValue': ('values',)}, top)


def known(n):
    for k, a in walk_atoms(n).items():
        if k.startswith('this.') and k[5:].split('.')[0].split('[')[0] not in STATE:
            return False
        if re.match(r'[ipx]\d+$', k):
            return False
    return True


def success(ev):
    """the function returns true"""
    if ev.fn.j['ret'] == 'void':
        return TRUE
    return dnot(returns(ev, '0'))


def present(ctx, key, what, sites, cond, opaque, top):
    """where the functions succeed, the value is set under the condition"""
    if not sites:
        if opaque:
            ctx.undecided(key, 'set through a computed name')
        else:
            ctx.violation(key, '%s is never written' % what, '%s:%s' % (top.j.get('file'), top.j.get('line')))
        return
    by = {}
    for x, ev, b in sites:
        by.setdefault(x, (ev, []))[1].append(b)
    best = []
    for x, (ev, bs) in by.items():
        if len(x.j['args']) > 1:
            ctx.undecided(key, 'set by a helper')
            return
        r = FALSE
        for b in bs:
            r = dor(r, ev.under(b) if not ev.inner_loops(b) else f('?loop'))
        best.append((x, ev, r))
    if len(best) > 1:
        # set by more than one function: one of them has to do it always
        for x, ev, r in best:
            if compare(r, TRUE, given=dand(success(ev), cond)).diff == 0:
                ctx.good(key, 'set')
                return
    x, ev, r = best[0]
    oblige(ctx, key, r, TRUE, fn=x, text=what + ' is written', given=dand(success(ev), cond))


def before(ctx, key, evs, sets, pairs, top):
    """within one function a key is set before the ones that its value selects"""
    for first, then in pairs.items():
        for y in then:
            for x, ev, i, b, val, nm in sets.get(first, []):
                for x2, ev2, i2, b2, val2, nm2 in sets.get(y, []):
                    if x2 is not x or i2 is i:
                        continue
                    n, n2 = x.blocks[b]['insts'].index(i), x.blocks[b2]['insts'].index(i2)
                    later = b == b2 and n2 > n or b != b2 and reach(x, b, b2)
                    sooner = b == b2 and n2 < n or b != b2 and reach(x, b2, b)
                    if not later and not sooner:
                        continue
                    if sooner and not any(s[0] is x and (s[3] == b2 and x.blocks[b2]['insts'].index(s[2]) < n2 or s[3] != b2 and reach(x, s[3], b2)) for s in sets[first]):
                        ctx.violation('%s/%s' % (key, y), 'the key %s is written before %s, which it depends on' % (y, first), x.where(i2))
                    else:
                        ctx.good('%s/%s after %s' % (key, y, first))
    # over functions: the order of the calls of create()
    ev = evs[top]
    owner = {}
    for k, cs in sets.items():
        for x, e, i, b, val, nm in cs:
            owner.setdefault(k, set()).add(x)
    calls = []
    for v, i in top.inst.items():
        if i['op'] in ('call', 'invoke'):
            n = (ev.slot(i) or '') if i.get('indirect') else short(i.get('dem') or '')
            for x in evs:
                if x is not top and short(x.dem) == n:
                    calls.append((x, top.blk[v], i))
    for first, then in pairs.items():
        for y in then:
            for x, b, i in calls:
                for x2, b2, i2 in calls:
                    if x is not x2 and x in owner.get(first, ()) and x2 in owner.get(y, ()) and x2 not in owner.get(first, ()) and x not in owner.get(y, ()):
                        if b2 != b and reach(top, b2, b):
                            ctx.violation('%s/%s' % (key, y), 'the key %s is written before %s, which it depends on' % (y, first), top.where(i2))
                        else:
                            ctx.good('%s/%s after %s' % (key, y, first))


def values(ctx, prog):
    """pixels are written scaled"""
    x = one(ctx, prog, r'^msat::grib::\(anonymous namespace\)::CreateGRIB::create\(', 'write/pixels')
    if not x:
        return
    ev = Ev(prog, x)
    src, rb = f('this.src'), f('this.rb')
    X, Y = (P(atom('call', 'GetRaster%sSize' % c, src, integer=True)) for c in 'XY')
    v = lambda n: P(atom('vcall', n, rb, C(0)))
    miss, off, sc = v('GetNoDataValue'), v('GetOffset'), v('GetScale')
    gm = miss * sc + off
    ok = success(ev)
    g = field_at_exit(prog, ev, 'grib_missing')
    if g is None:
        ctx.undecided('write/pixels/missing', 'no such member')
    else:
        oblige(ctx, 'write/pixels/missing', g, gm, fn=x, text='missing value', given=ok)
    io = method_calls(ev, 'RasterIO')
    if len(io) != 1:
        return ctx.undecided('write/pixels/read', 'not one read of the source')
    i = io[0]
    call_args(ctx, 'write/pixels/read', ev, i, {0: ('band', rb), 1: ('direction', C(0)), 2: ('first column', C(0)), 3: ('first line', C(0)), 4: ('columns', X), 5: ('lines', Y),
                                                 7: ('columns of the buffer', X), 8: ('lines of the buffer', Y), 9: ('type', C(7)), 10: ('pixel spacing', C(0)), 11: ('line spacing', C(0))})
    rs = method_calls(ev, 'resize')
    if len(rs) == 1:
        call_args(ctx, 'write/pixels/room', ev, rs[0], {1: ('pixels', X * Y)})
    val = f('value')
    seen = {}
    for k, j in x.inst.items():
        hs = ev.inner_loops(x.blk[k])
        if j['op'] != 'store' or not hs:
            continue
        b = x.blk[k]
        p = ev.val(j['p'])
        if not isinstance(p, Poly) or (p.key.startswith('local:')):
            continue
        n = x.blocks[b]['insts'].index(j)
        head = hs[-1]
        mo = member_offset(prog, x.j['cls'], 'count_missing')
        if mo and p.key == (ev.val('a0') + mo[0]).key:
            seen['count'] = (j, b, head)
        elif j['sz'] == 8:
            old = ev.memval(p, 8, 'double', b, 0)
            got = subst(ev.val(j['v']), {a: val for a in walk_atoms(old)} if isinstance(old, Poly) and len(old.t) == 1 and old.key in walk_atoms(old) else {})
            seen.setdefault('store', []).append((j, got, ev.under(b), old))
    oldk = None
    if seen.get('store'):
        tot, when = None, FALSE
        for j, got, u, old in seen['store']:
            u = subst(u, {old.key: val}) if isinstance(old, Poly) else u
            oblige(ctx, 'write/pixels/value', got, ite(deq(val, miss), gm, val * sc + off), fn=x, where=x.where(j), text='value written for a pixel', given=u)
            when = dor(when, u)
            oldk = old.key
        oblige(ctx, 'write/pixels/every', when, TRUE, fn=x, where=x.where(seen['store'][0][0]), text='every pixel is scaled')
    else:
        ctx.undecided('write/pixels/value', 'scaled elsewhere')
    if seen.get('count') and oldk:
        j, b, head = seen['count']
        u = subst(ev.under(b), {oldk: val})
        oblige(ctx, 'write/pixels/count', u, deq(val, miss), fn=x, where=x.where(j), text='a missing pixel is counted')
    else:
        ctx.undecided('write/pixels/count', 'counted elsewhere')


def select(ctx, prog):
    """the kind of file follows the requested template"""
    x = one(ctx, prog, r'^msat::grib::GRIBCreateCopy\(', 'write/template')
    if not x:
        return
    ev = Ev(prog, x)
    ctx.fn(x)
    t = P(atom('call', 'CSLFetchNameValue', f('p3'), f('"TEMPLATE"')))
    dflt = deq(t, C(0))
    name = ite(dflt, f('"msat/wmo"'), t)
    eq = lambda s: apply_d(lambda p: deq(P(atom('call', 'strcmp', p, f('"%s"' % s), integer=True)), C(0)) if not p.key.startswith('"') else (TRUE if p.key == '"%s"' % s else FALSE), name)
    ctor = {}
    for v, i in x.inst.items():
        if i['op'] == 'store' and isinstance(i.get('v'), dict) and str(i['v'].get('g', '')).startswith('_ZTV') and 'Create' in i['v']['g']:
            ctor.setdefault(qual(i['v']['g'][4:]).split('::')[-1], []).append(x.blk[v])
    for v, i in ev.calls(r'Create\w+::Create\w+\('):
        m = re.search(r'(Create\w+)::Create', i.get('dem') or '')
        if m:
            ctor.setdefault(m.group(1), []).append(x.blk[v])
    for tpl, (cn, ed) in EDITIONS.items():
        bs = ctor.get(cn)
        if not bs:
            ctx.undecided('write/template/' + tpl, 'no writer is constructed here')
            continue
        u = FALSE
        for b in bs:
            u = dor(u, ev.under(b))
        fold = {}
        for k, a in walk_atoms(u).items():
            if a.kind == 'call' and a.a[0] == 'strcmp' and all(getattr(z, 'key', '').startswith('"') for z in a.a[1:3]):
                fold[k] = C(0 if a.a[1].key == a.a[2].key else 1)
        u = subst(u, fold)
        others = FALSE
        oblige(ctx, 'write/template/' + tpl, dand(u, dnot(eq(tpl))), FALSE, fn=x, text='%s writes another template' % cn)
        sup = dand(dnot(deq(P(atom('vcall', 'GetSpatialRef', f('p1'))), C(0))), dlt(C(0), P(atom('call', 'GetRasterCount', f('p1'), integer=True))))
        first = dand(sup, eq(tpl))
        for o in EDITIONS:
            if o != tpl:
                first = dand(first, dnot(eq(o)))
        oblige(ctx, 'write/template/%s/used' % tpl, u, TRUE, fn=x, text='the template %s is written' % tpl, given=first)
    ws = ev.calls(r'^msat::grib::Grib::write\(')
    if len(ws) == 1:
        oblige(ctx, 'write/file', text_arg(ev, ws[0][1], 1), f('p0'), fn=x, where=x.where(ws[0][1]), text='file name')
    for v, i in ev.calls(r'^GDALOpen$'):
        oblige(ctx, 'write/reopened', ev.val(i['args'][0]), f('p0'), fn=x, where=x.where(i), text='file opened again')


def get(kind, *keys):
    a = [f('this.grib') if False else None]
    return keys


def key_call(ev, n, method, keys):
    """the reader's value is what `method` returns for these keys"""
    for a in walk_atoms(n).values():
        if a.kind == 'call' and a.a[0] == method and n.key == a.key:
            ks = [getattr(z, 'key', str(z)) for z in a.a[2:]]
            return [k.strip('"') for k in ks if k != '0'] == list(keys)
    return False


def of(obj, method, *keys):
    var = method.endswith('oneof')
    return P(atom('call', method, obj, *([f('"%s"' % k) for k in keys] + ([C(0)] if var else [])), integer='long' in method))


def reader(ctx, prog):
    x = one(ctx, prog, r'^msat::grib::GRIBDataset::init\(', 'read')
    if x:
        ev = Ev(prog, x)
        mo = member_offset(prog, x.j['cls'], 'grib')
        if mo is None:
            return ctx.undecided('read', 'no such member')
        g = ev.val('a0') + mo[0]
        ok = success(ev)
        L = lambda *k: of(g, 'get_long', *k)
        for n, v in (('nRasterXSize', L('numberOfPointsAlongXAxis')), ('nRasterYSize', L('numberOfPointsAlongYAxis')), ('nBands', C(1))):
            w = field_at_exit(prog, ev, n, t='i32')
            if w is None:
                ctx.undecided('read/' + n, 'no such member')
            else:
                oblige(ctx, 'read/' + n, w, v, fn=x, text=n, given=ok)
        craft = of(g, 'get_long_oneof', 'satelliteNumber', 'satelliteIdentifier', 'indicatorOfTypeOfLevel')
        w = field_at_exit(prog, ev, 'spacecraft_id', t='i32')
        if w is not None:
            oblige(ctx, 'read/spacecraft', w, craft, fn=x, text='satellite', given=ok)
        metadata(ctx, 'read', ev, {'MSAT_DATETIME': P(atom('call', 'formatTime', g)), 'MSAT_SPACECRAFTID': P(atom('call', 'decimal', craft)),
                                   'MSAT_SPACECRAFT': P(atom('call', 'spacecraftName', craft))}, done=ev.ret())
        sv = ev.calls(r'dataset::set_spaceview\(')
        if len(sv) == 1:
            so = member_offset(prog, x.j['cls'], 'osr')
            call_args(ctx, 'read/projection', ev, sv[0][1], {0: ('object', ev.val('a0') + so[0]), 1: ('longitude', of(g, 'get_double_oneof', 'longitudeOfSubSatellitePointInDegrees', 'geography.lop'))})
            reached(ctx, 'read/projection/set', ev, [sv[0][1]], ev.ret(), 'the projection is set')
        else:
            ctx.undecided('read/projection', 'not one place')
        sb = method_calls(ev, 'SetBand')
        if len(sb) == 1:
            call_args(ctx, 'read/band', ev, sb[0], {1: ('number', C(1))})
            reached(ctx, 'read/band/set', ev, sb, ev.ret(), 'the band is added')
    x = one(ctx, prog, r'^msat::grib::GRIBDataset::GetGeoTransform\(', 'read/geotransform')
    if x:
        ev = Ev(prog, x)
        mo = member_offset(prog, x.j['cls'], 'grib')
        g = ev.val('a0') + mo[0]
        L = lambda *k: of(g, 'get_long_oneof', *k)
        co, lo = L('xCoordinateOfSubSatellitePoint', 'XpInGridLengths'), L('yCoordinateOfSubSatellitePoint', 'YpInGridLengths')
        x0, y0 = L('Xo', 'geography.xo'), L('Yo', 'geography.yo')
        psx = P(atom('call', 'pixelHSizeFromSeviriDX', of(g, 'get_long', 'geography.dx')))
        psy = P(atom('call', 'pixelVSizeFromSeviriDY', of(g, 'get_long', 'geography.dy')))
        T = [(x0 - co) * psx, psx, C(0), (lo - y0) * psy, C(0), -1 * psy]
        for k, w in enumerate(T):
            oblige(ctx, 'read/geotransform[%d]' % k, ev.exit_mem(ev.val('a1') + 8 * k, 8, 'double'), w, fn=x, text='element %d' % k, given=returns(ev, '0'))
        oblige(ctx, 'read/geotransform', ev.ret(), C(0), fn=x, text='result')
    x = one(ctx, prog, r'^msat::grib::GRIBDataset::GetSpatialRef\(', 'read/projection')
    if x:
        ev = Ev(prog, x)
        so = member_offset(prog, x.j['cls'], 'osr')
        oblige(ctx, 'read/projection/returned', ev.ret(), ev.val('a0') + so[0], fn=x, text='projection')
    x = one(ctx, prog, r'^msat::grib::GRIBRasterBand::GRIBRasterBand\(', 'read/channel')
    if x:
        band(ctx, prog, x)
    x = one(ctx, prog, r'^msat::grib::GRIBRasterBand::IReadBlock\(', 'read/pixels')
    if x:
        ev = Ev(prog, x)
        cs = ev.calls(r'^msat::grib::Grib::get_double_array\(')
        if len(cs) == 1:
            i = cs[0][1]
            n = f('this.nRasterXSize', True) * f('this.nRasterYSize', True)
            call_args(ctx, 'read/pixels', ev, i, {0: ('file', f('this.grib')), 1: ('key', f('"values"')), 2: ('buffer', f('p3'))})
            b = x.blk[cs[0][0]]
            pl = ev.val(i['args'][3])
            oblige(ctx, 'read/pixels/room', ev.memval(pl, 8, 'i64', b, x.blocks[b]['insts'].index(i)), n, fn=x, where=x.where(i), text='number of pixels')
            got = P(atom('out', ev.cname(i), 'arg3', C(0)))
            first = dand(deq(f('i1', True), C(0)), deq(f('i2', True), C(0)))
            oblige(ctx, 'read/pixels/complete', returns(ev, '0'), FALSE, fn=x, text='success with another number of pixels', given=dnot(deq(got, n)))
            oblige(ctx, 'read/pixels/result', ev.ret(), C(0), fn=x, text='result', given=dand(first, deq(got, n)))
        else:
            ctx.undecided('read/pixels', 'not one read')
    for n, w in (('GetOffset', C(0)), ('GetScale', C(1)), ('GetNoDataValue', f('this.missing'))):
        x = one(ctx, prog, r'^msat::grib::GRIBRasterBand::%s\(' % n, 'read/' + n)
        if x:
            oblige(ctx, 'read/' + n, Ev(prog, x).ret(), w, fn=x, text=n)
    x = one(ctx, prog, r'^msat::grib::GRIBRasterBand::GetUnitType\(', 'read/unit')
    if x:
        ev = Ev(prog, x)
        mo = member_offset(prog, x.j['cls'], 'unit')
        if mo:
            oblige(ctx, 'read/unit/returned', ev.ret(), P(atom('call', 'c_str', ev.val('a0') + mo[0])), fn=x, text='unit')


def band(ctx, prog, x):
    ev = Ev(prog, x)
    go = member_offset(prog, 'msat::grib::GRIBDataset', 'grib')
    so = member_offset(prog, 'msat::grib::GRIBDataset', 'spacecraft_id')
    if go is None or so is None:
        return ctx.undecided('read/channel', 'no such member')
    ds = ev.val('a1')
    g = ds + go[0]
    cid = None
    cn = ev.calls(r'facts::channelName\(')
    craft = ev.initial(ds + so[0], 4, 'i32')
    if len(cn) != 1:
        return ctx.undecided('read/channel', 'not one place names the channel')
    i = cn[0][1]
    call_args(ctx, 'read/channel/satellite', ev, i, {0: ('satellite', craft)})
    got = ev.val(i['args'][1])
    # the three encodings of a channel
    ex = {}
    for v, c in ev.calls(r'Grib::get_long_ifexists\('):
        ex[ev.val(c['args'][1]).key.strip('"')] = (ev.val(v), ev.cname(c), c)
    if set(ex) == {'channelNumber', 'level'}:
        ch = [deq(ex[k][0], C(0)) for k in ('channelNumber', 'level')]
        wn = of(g, 'get_long', 'scaledValueOfCentralWaveNumber') * P(atom('call', 'exp10', -1 * of(g, 'get_long', 'scaleFactorOfCentralWaveNumber')))
        third = P(atom('call', 'channel_from_central_wave_number', craft, wn, integer=True))
        o = [P(atom('out', ex[k][1], 'arg2', C(0))) for k in ('channelNumber', 'level')]
        want = ite(ch[0], ite(ch[1], third, o[1]), o[0])
        oblige(ctx, 'read/channel', got, want, fn=x, where=x.where(i), text='channel')
        for k in ex:
            call_args(ctx, 'read/channel/' + k, ev, ex[k][2], {0: ('file', g)})
    else:
        said = {getattr(ev.val(a), 'key', '') for k, c in x.inst.items() if c['op'] in ('call', 'invoke') for a in c.get('args') or [] if isinstance(a, (str, dict))}
        for k in ('channelNumber', 'level', 'scaledValueOfCentralWaveNumber', 'scaleFactorOfCentralWaveNumber'):
            if '"%s"' % k not in said and not any(v.startswith('?') for v in said):
                ctx.violation('read/channel/' + k, 'the key %s is never read for the channel' % k, x.where(i))
            else:
                ctx.undecided('read/channel/' + k, 'channel read in another way')
    metadata(ctx, 'read/band', ev, {'MSAT_CHANNELID': apply(lambda c: P(atom('call', 'decimal', c)), got), 'MSAT_CHANNEL': apply(lambda c: P(atom('call', 'channelName', craft, c)), got)})
    for v, c in ev.calls(r'facts::channelUnit\('):
        call_args(ctx, 'read/unit', ev, c, {0: ('satellite', craft), 1: ('channel', got)})
    for c in method_calls(ev, 'SetDescription'):
        oblige(ctx, 'read/description', text_arg(ev, c, 1), apply(lambda c: P(atom('call', 'channelName', craft, c)), got), fn=x, where=x.where(c), text='description')
    m = field_at_exit(prog, ev, 'missing')
    if m is not None:
        oblige(ctx, 'read/missing', m, apply(lambda c: P(atom('call', 'defaultScaledMissing', c)), got), fn=x, text='missing value')
        for v, c in ev.calls(r'Grib::set_double\('):
            if ev.val(c['args'][1]).key == '"missingValue"':
                call_args(ctx, 'read/missing/used', ev, c, {0: ('file', g), 2: ('value', m)})
                reached(ctx, 'read/missing/set', ev, [c], None, 'the missing value is used for reading')
                break
        else:
            ctx.violation('read/missing/used', 'the missing value is not used for reading the pixels', '%s:%s' % (x.j.get('file'), x.j.get('line')))
    for n, w in (('nBand', f('i2', True)), ('eDataType', C(7)), ('nBlockXSize', P(atom('call', 'GetRasterXSize', ds, integer=True))), ('nBlockYSize', P(atom('call', 'GetRasterYSize', ds, integer=True)))):
        g2 = field_at_exit(prog, ev, n, t='i32')
        if g2 is None:
            ctx.undecided('read/band/' + n, 'no such member')
        else:
            oblige(ctx, 'read/band/' + n, g2, w, fn=x, text=n)


def times(ctx, prog):
    x = one(ctx, prog, r'^msat::grib::Grib::formatTime\(', 'read/time')
    L = lambda k: P(atom('call', 'get_long', f('this'), f('"%s"' % k), integer=True))
    ed = L('editionNumber')
    if x:
        ev = Ev(prog, x)
        ps = ev.calls(r'snprintf$|sprintf$|__snprintf_chk$')
        if len(ps) == 1:
            i = ps[0][1]
            fm = [k for k, a in enumerate(i['args']) if isinstance(a, dict) and a.get('s')]
            if len(fm) == 1:
                k = fm[0]
                oblige(ctx, 'read/time/buffer', ev.val(i['args'][0]), f('p1'), fn=x, where=x.where(i), text='buffer')
                year = ite(deq(ed, C(1)), (L('centuryOfReferenceTimeOfData') - 1) * 100 + L('yearOfCentury'), L('year'))
                fs = re.findall(r'%0?(\d?)l?d', i['args'][k]['s'])
                shape = re.sub(r'%0?\d?l?d', '#', i['args'][k]['s'])
                if shape == '#-#-# #:#:#' and fs == ['4', '2', '2', '2', '2', '2']:
                    ctx.good('read/time/format')
                else:
                    ctx.violation('read/time/format', 'the time is written as "%s"' % i['args'][k]['s'], x.where(i))
                for n, (what, w) in enumerate((('year', year), ('month', L('month')), ('day', L('day')), ('hour', L('hour')), ('minute', L('minute')), ('second', L('second')))):
                    if k + 1 + n < len(i['args']):
                        oblige(ctx, 'read/time/' + what, ev.val(i['args'][k + 1 + n]), w, fn=x, where=x.where(i), text=what, given=dor(deq(ed, C(1)), deq(ed, C(2))))
            else:
                ctx.undecided('read/time', 'no constant format')
        else:
            ctx.undecided('read/time', 'not one formatted text')
    x = one(ctx, prog, r'^msat::grib::Grib::setTime\(', 'write/time')
    if not x:
        return
    ev = Ev(prog, x)
    sc = ev.calls(r'sscanf$')
    if len(sc) != 1:
        return ctx.undecided('write/time', 'parsed in another way')
    i = sc[0][1]
    oblige(ctx, 'write/time/text', ev.val(i['args'][0]), f('p1'), fn=x, where=x.where(i), text='text')
    fmt = i['args'][1].get('s') if isinstance(i['args'][1], dict) else None
    if fmt is None:
        return ctx.undecided('write/time', 'no constant format')
    if not re.match(r'%\d?d-%\d?d-%\d?d[ T]%\d?d:%\d?d:%\d?d$', fmt):
        ctx.violation('write/time/format', 'the time is read as "%s"' % fmt, x.where(i))
    else:
        ctx.good('write/time/format')
    o = [P(atom('out', ev.cname(i), 'arg%d' % (2 + k), C(0), integer=True)) for k in range(6)]
    o = [ev.memval(ev.val(i['args'][2 + k]), 4, 'i32', x.blk[sc[0][0]], x.blocks[x.blk[sc[0][0]]]['insts'].index(i) + 1) for k in range(6)]
    cen = P(atom('sdiv', o[0], C(100), integer=True))
    one_, two = deq(ed, C(1)), deq(ed, C(2))
    want = {'centuryOfReferenceTimeOfData': None, 'yearOfCentury': None, 'year': (o[0], two), 'month': (o[1], TRUE), 'day': (o[2], TRUE), 'hour': (o[3], TRUE), 'minute': (o[4], TRUE), 'second': (o[5], TRUE)}
    got = {}
    for v, c in ev.calls(r'Grib::set_long(_unchecked)?\('):
        got.setdefault(ev.val(c['args'][1]).key.strip('"'), []).append((c, x.blk[v]))
    parsed = deq(ev.val('%%%d' % i['id']), C(6))
    for k, w in want.items():
        cs = got.get(k)
        if not cs:
            ctx.violation('write/time/' + k, 'the key %s is never written' % k, '%s:%s' % (x.j.get('file'), x.j.get('line')))
            continue
        u = FALSE
        for c, b in cs:
            u = dor(u, ev.under(b))
            if w:
                oblige(ctx, 'write/time/' + k, ev.val(c['args'][2]), w[0], fn=x, where=x.where(c), text=k)
        oblige(ctx, 'write/time/%s/set' % k, u, TRUE, fn=x, text='the key %s is written' % k, given=dand(parsed, w[1] if w else one_) if k not in ('month', 'day', 'hour', 'minute', 'second') else dand(parsed, dor(one_, two)))
    c, y = got.get('centuryOfReferenceTimeOfData'), got.get('yearOfCentury')
    if c and y:
        # whatever the split, reading puts the year together again
        a, b = ev.val(c[0][0]['args'][2]), ev.val(y[0][0]['args'][2])
        oblige(ctx, 'write/time/century', (a - 1) * 100 + b, o[0], fn=x, where=x.where(c[0][0]), text='year read back from century and year of century', given=dand(parsed, one_))
        for yr in range(1900, 2100):
            z = subst(b, {o[0].key: C(yr)}) if o[0].key in walk_atoms(o[0]) else b
            n = z.const() if isinstance(z, Poly) else None
            if n is None:
                ctx.undecided('write/time/year of century', 'not computed from the year alone')
                break
            if not 0 <= n <= 100:
                ctx.violation('write/time/year of century', 'the year of century written for %d is %d' % (yr, n), x.where(y[0][0]))
                break
        else:
            ctx.good('write/time/year of century', 'years 1900 to 2099')
