from ..semcheck import *
LEVEL = 'proof'
RULE = '''Value numbering of the datasets that stand for other datasets.  Every forwarding method must return what the method in the same
place of the virtual table of the source returns, asked with the same arguments; sizes, block sizes, types, numbers, metadata and
georeferencing taken over by constructors and add_info must be those of the source; a source that has no georeferencing, time or metadata, or
that differs from the one before in one of them, must be refused; each value of the open option must make the dataset of its name.'''
ASSUME = ['a dataset that has taken over a source has a spatial reference']
TRUST = ['GDAL calls the methods of bands and datasets through the virtual tables']
KEEP26 = (r'^msat::(dataset|utils)::(Proxy|Calibrated|SatZA|CosSolZA|JDay|Reflectance|SingleChannel|PixelToLatlon)[A-Za-z0-9]*::~?(Get[A-Za-z]+|[A-Z][A-Za-z0-9]+(Dataset|Band|Latlon)|add_info|add_source|IReadBlock|compute|init_rasterband)\(|^msat::gdal::add_extras\(')
DATASET = ('GetDescription', 'GetMetadata', 'GetMetadataItem', 'GetSpatialRef', 'GetGeoTransform', 'GetDriver', 'GetFileList', 'GetGCPCount', 'GetGCPs')
BAND = ('GetDescription', 'GetMetadata', 'GetMetadataItem', 'GetCategoryNames', 'GetNoDataValue', 'GetMinimum', 'GetMaximum', 'GetOffset', 'GetScale', 'GetUnitType',
        'GetColorInterpretation', 'GetColorTable')
OPTIONS = {'reflectance': 'ReflectanceDataset', 'sat_za': 'SatZADataset', 'cos_sol_za': 'CosSolZADataset', 'jday': 'JDayDataset'}
UNITS = {'SatZARasterBand': '""', 'CosSolZARasterBand': '""', 'JDayRasterBand': '"day"', 'ReflectanceRasterBand': '"%"'}
TYPES = {'SatZARasterBand': 7, 'CosSolZARasterBand': 7, 'JDayRasterBand': 3, 'ReflectanceRasterBand': 6}


def run(ctx):
    prog = program(KEEP26)
    ob = lambda key, *a, **k: oblige(ctx, key, *a, prog=prog, **k)
    for cls, names, member in (('msat::dataset::ProxyDataset', DATASET, 'ds'), ('msat::dataset::ProxyRasterBand', BAND, 'rb')):
        for n in names:
            ctx.part('%s::%s' % (cls, n), forwards, ctx, ob, prog, cls, n, member)
    for n in ('GetMinimum', 'GetMaximum'):
        ctx.part('CalibratedRasterBand::' + n, forwards, ctx, ob, prog, 'msat::dataset::CalibratedRasterBand', n, 'rb', lambda v: v * f('this.scale') + f('this.ofs'))
    for cls, names in (('dataset::CalibratedRasterBand', ('GetOffset', 'GetScale', 'GetNoDataValue')), ('utils::ReflectanceRasterBand', ('GetOffset', 'GetScale', 'GetNoDataValue'))):
        for n in names:
            x = one(ctx, prog, r'^msat::%s::%s\(' % (cls, n), '%s::%s' % (cls, n))
            if x:
                ev = Ev(prog, x)
                ob('%s::%s/known' % (cls, n), ev.exit_mem(ev.val('a1'), 4, 'i32'), C(1), fn=x, text='the value is known', given=dnot(deq(ev.val('a1'), C(0))))
    for k in (proxies, calibrated, inconsistent, bands, computed, option, reflectance):
        ctx.part(k.__name__, k, ctx, ob, prog)


def slots(prog, cls):
    """method name -> its place in the virtual table of the class"""
    out = {}
    for g, init in prog.globals.items():
        if g.startswith('_ZTV') and isinstance(init, list) and init and isinstance(init[0], list) and qual(g[4:]) == cls:
            for k, e in enumerate(init[0][2:]):
                if isinstance(e, str):
                    q = qual(e[2:].replace('NK', 'N', 1) if e.startswith('_ZNK') else e[2:])
                    if q:
                        l = out.setdefault(q.split('::')[-1], ([], set()))
                        l[0].append(k)
                        l[1].add('::'.join(q.split('::')[:-1]))
    return out


def forwards(ctx, ob, prog, cls, name, member, then=lambda v: v):
    key = '%s::%s' % (cls.split('::')[-1], name)
    x = one(ctx, prog, r'^%s::%s\(' % (cls, name), key, need=False)
    ks, owners = slots(prog, cls).get(name, ([], set()))
    if not x:
        if any(o.startswith('GDAL') for o in owners):
            ctx.violation(key, 'the source is not asked: %s::%s of GDAL answers' % (sorted(owners)[0], name), cls)
        return
    if len(ks) != 1:
        return ctx.undecided(key, 'not in the virtual table')
    ev = Ev(prog, x)
    ps = [ev.val('a%d' % k) for k in range(1, len(x.j['args']))]
    got = ev.ret()
    nm = 'v%d' % ks[0]
    # the source may be known to the analysis under a class that names the place
    for k, a in walk_atoms(got).items():
        if a.kind == 'vcall' and a.a[0] == name:
            nm = name
    mo = member_offset(prog, 'msat::dataset::Proxy' + ('Dataset' if member == 'ds' else 'RasterBand'), member)
    if mo is None:
        return ctx.undecided(key, 'no member ' + member)
    def want(v):
        return then(P(atom('vcall', nm, f('this.' + member), *ps, integer=v)))
    ob(key, got, want(any(p.integer for p in walk_atoms(got).values() if p.kind == 'vcall')), fn=x, text='returned')


def proxies(ctx, ob, prog):
    x = one(ctx, prog, r'^msat::dataset::ProxyDataset::ProxyDataset\(', 'ProxyDataset')
    if x:
        ev = Ev(prog, x)
        for n in ('nRasterXSize', 'nRasterYSize'):
            ob('ProxyDataset/' + n, field_at_exit(prog, ev, n, t='i32'), P(atom('call', 'GetRaster%sSize' % n[7], f('p1'), integer=True)), fn=x, text='raster size')
        at_exit(ctx, ob, prog, ev, 'ProxyDataset', {'ds': ev.val('a1')})
    x = one(ctx, prog, r'^msat::dataset::ProxyRasterBand::ProxyRasterBand\(', 'ProxyRasterBand')
    if x:
        ev = Ev(prog, x)
        at_exit(ctx, ob, prog, ev, 'ProxyRasterBand', {'rb': ev.val('a2'), 'poDS': ev.val('a1'), 'nBand': ev.val('a3'), 'eDataType': P(atom('call', 'GetRasterDataType', f('p2'), integer=True)),
                                                        'nBlockXSize': P(atom('out', 'GetBlockSize', 'arg1', C(0), integer=True)), 'nBlockYSize': P(atom('out', 'GetBlockSize', 'arg2', C(0), integer=True))})
        for b, i in ev.calls(r'::(GetRasterDataType|GetBlockSize)\('):
            args(ctx, ob, 'ProxyRasterBand/' + short(i['dem']), ev, i, {0: ('band', ev.val('a2'))})


def args(ctx, ob, key, ev, call, wants):
    for k, (what, want) in wants.items():
        if k < len(call['args']):
            ob('%s/%s' % (key, what), ev.under_known(ev.val(call['args'][k]), ev.fn.blk['%%%d' % call['id']]), want, where=ev.fn.where(call), text=what, fn=ev.fn)


def at_exit(ctx, ob, prog, ev, key, wants, given=None):
    for n, w in wants.items():
        t = {'rb': 'ptr', 'ds': 'ptr', 'poDS': 'ptr', 'osr': 'ptr', 'has_sources': 'i8'}.get(n, 'i32')
        g = field_at_exit(prog, ev, n, t=t)
        if g is None:
            ctx.undecided('%s/%s' % (key, n), 'no member ' + n)
        else:
            ob('%s/%s' % (key, n), g, w, fn=ev.fn, text=n, given=given)


def calibrated(ctx, ob, prog):
    """every band of the source has its band, calibrated when it holds 16 bit samples"""
    x = one(ctx, prog, r'^msat::dataset::CalibratedDataset::CalibratedDataset\(', 'CalibratedDataset')
    if not x:
        return
    ev = Ev(prog, x)
    for b, i in ev.calls(r'::ProxyDataset::ProxyDataset\('):
        args(ctx, ob, 'CalibratedDataset/source', ev, i, {1: ('source', ev.val('a1'))})
    kinds = {'Calibrated': [], 'Proxy': []}
    for b, i in ev.calls(r'::(Calibrated|Proxy)RasterBand::(Calibrated|Proxy)RasterBand\('):
        kinds['Calibrated' if 'CalibratedR' in i['dem'] else 'Proxy'].append((x.blk[b], i))
    sets = ev.calls(r'::SetBand\(')
    n = P(atom('call', 'GetRasterCount', f('p1'), integer=True))
    hs = {h for l in kinds.values() for b, i in l for h in ev.inner_loops(b)[-1:]}
    if len(hs) != 1 or not sets:
        return ctx.undecided('CalibratedDataset/bands', 'the bands are not made in one loop')
    h = hs.pop()
    t = trips(ev, h)
    if t is None:
        ctx.undecided('CalibratedDataset/count', 'iteration count not readable')
    else:
        ob('CalibratedDataset/count', t, n, fn=x, text='number of bands', given=dnot(dlt(n, C(0), True)))
    k = 1 + ev.k(h)
    src = lambda: P(atom('call', 'GetRasterBand', f('p1'), k))
    typ = ret_of(ev, r'::GetRasterDataType\(')
    for kind, l in kinds.items():
        for b, i in l:
            key = 'CalibratedDataset/%s band' % kind
            args(ctx, ob, key, ev, i, {1: ('dataset', ev.val('a0')), 2: ('source', src()), 3: ('number', k)})
    for b, i in ev.calls(r'::GetRasterDataType\('):
        args(ctx, ob, 'CalibratedDataset/type', ev, i, {0: ('band', src())})
    for b, i in sets:
        args(ctx, ob, 'CalibratedDataset/SetBand', ev, i, {0: ('dataset', ev.val('a0')), 1: ('number', k)})
    # which of the two is made is decided by the type alone
    for kind, l in kinds.items():
        for b, i in l:
            c = within(ev, h, b)
            if c is None:
                ctx.undecided('CalibratedDataset/%s band/when' % kind, 'not decided inside the loop')
            else:
                is16 = deq(typ, C(2))
                ob('CalibratedDataset/%s band/when' % kind, c, is16 if kind == 'Calibrated' else dnot(is16), where=x.where(i), fn=x, text='condition')


def trips(ev, h):
    """number of iterations, also where the bound is the larger of two values"""
    t = ev.trips(h)
    if t is not None:
        return t
    out = [(b, s) for b in ev.loops[h] for s in ev.fn.succ[b] if s not in ev.loops[h] and not ev.dead(s)]
    i = ev.fn.inst.get(ev.fn.blocks[out[0][0]]['insts'][-1].get('c')) if len(out) == 1 and out[0][0] == h else None
    if i is None or i['op'] != 'icmp' or i['pred'] not in ('eq', 'ne'):
        return None
    k = ev.k(h)
    for a, b in (i['a'], i['a'][::-1]):
        a, b = ev.val(a), ev.val(b)
        if a.key == k.key and k.key not in b.key:
            return b
    return None


def within(ev, h, b):
    """condition for an iteration of the loop to come to block b"""
    body = ev.loops[h]
    memo = {}
    def go(y):
        if y == b:
            return TRUE
        if y not in body:
            return BOT
        if y not in memo:
            memo[y] = BOT
            t = ev.fn.blocks[y]['insts'][-1]
            if t['op'] == 'invoke':
                memo[y] = go(t['normal']) if t['normal'] != h else FALSE
            else:
                memo[y] = ev.branch(y, lambda z: FALSE if z == h else go(z))
        return memo[y]
    r = go(h)
    return None if r is BOT else r


def is_null(ev, name):
    """condition that a method of the source has returned nothing"""
    cs = [i for i in method_calls(ev, name) if i['args'] and getattr(ev.val(i['args'][0]), 'key', '') == 'p1']
    vs = {getattr(ev.val('%%%d' % i['id']), 'key', None): ev.val('%%%d' % i['id']) for i in cs}
    return deq(list(vs.values())[0], C(0)) if len(vs) == 1 else None


def inconsistent(ctx, ob, prog):
    x = one(ctx, prog, r'^msat::utils::ProxyDataset::add_info\(', 'add_info')
    if x:
        ev = Ev(prog, x, throw_leaf=True)
        r = throws(ev.ret())
        hs, osr = truth(f('this.has_sources', True)), dnot(deq(f('this.osr'), C(0)))
        some = dand(hs, osr)
        first = dand(dnot(hs), dnot(osr))
        def call(pat):
            cs = [ev.val(k) for k, i in ev.calls(pat)]
            return {getattr(v, 'key', None): v for v in cs}
        lack = {'spatial reference': (first, is_null(ev, 'GetSpatialRef')), 'metadata': (first, is_null(ev, 'GetMetadata')), 'time': (TRUE, is_null(ev, 'GetMetadataItem'))}
        gt = is_null(ev, 'GetGeoTransform')
        g = [ev.val('%%%d' % i['id']) for i in method_calls(ev, 'GetGeoTransform')]
        lack['geotransform'] = (TRUE, deq(g[0], C(3)) if len(g) == 1 else None)
        differ = {'raster width': dnot(deq(P(atom('call', 'GetRasterXSize', f('p1'), integer=True)), f('this.nRasterXSize', True))),
                  'raster height': dnot(deq(P(atom('call', 'GetRasterYSize', f('p1'), integer=True)), f('this.nRasterYSize', True)))}
        never = {}
        for what, pat, ok in (('spatial reference', r'OGRSpatialReference::IsSame\(', False), ('geotransform', r'^(bcmp|memcmp)$', True), ('time', r'::compare\(|operator[!=]=|^strn?cmp$', True)):
            vs = [i for k, i in ev.calls(pat)]
            c = None
            for i in vs:
                v = ev.val('%%%d' % i['id'])
                if what == 'spatial reference':
                    v = P(atom('call', 'IsSame', f('this.osr'), *[ev.val(a) for a in i['args'][1:]], integer=True))
                if 'operator==' in (i.get('dem') or ''):
                    c = deq(v, C(0))
                elif 'operator!=' in (i.get('dem') or '') or ok:
                    c = dnot(deq(v, C(0)))
                else:
                    c = deq(v, C(0))
            differ[what] = c if len(vs) == 1 else None
            for i in vs:
                if ok and re.match(r'bcmp|memcmp', i.get('callee') or ''):
                    ob('add_info/other geotransform/size', ev.val(i['args'][2]), C(48), fn=x, where=x.where(i), text='bytes compared')
                if what == 'time':
                    short = [number(ev.val(a)) for a in i['args'][1:] if number(ev.val(a)) not in (None, 0)]
                    if any(0 < n < 19 for n in short):
                        ctx.violation('add_info/other time/length', 'only %d characters of the time are compared' % min(short), x.where(i))
                    elif len(i['args']) == 2 and not re.search('strn?cmp', i.get('callee') or ''):
                        item = P(atom('vcall', 'GetMetadataItem', f('p1'), f('"MSAT_DATETIME"'), f('""')))
                        got = [ev.under_known(ev.val(a), x.blk['%%%d' % i['id']]) for a in i['args']]
                        ob('add_info/other time/with', got[0] if got[0].key == item.key else got[1], item, fn=x, where=x.where(i), text='the time compared')
            if not vs:
                never[what] = not looks_at(prog, ev, {'spatial reference': 'osr', 'geotransform': 'geotransform', 'time': 'datetime'}[what])
        for what, n in never.items():
            if n:
                ctx.violation('add_info/other ' + what, 'a source of other %s is not told from the one before' % what, x.where(x.order[0]))
        for what, (when, c) in lack.items():
            key = 'add_info/without ' + what
            if c is None:
                ctx.undecided(key, 'not asked for once')
            else:
                ob(key, r, f('THROW'), fn=x, text='a source without ' + what, given=dand(when, c))
        for what, c in differ.items():
            key = 'add_info/other ' + what
            if never.get(what):
                continue
            if c is None:
                ctx.undecided(key, 'not compared once')
            else:
                ob(key, r, f('THROW'), fn=x, text='a source of other ' + what, given=dand(some, c))
        if all(c is not None for w, c in lack.values()) and all(c is not None for c in differ.values()):
            good = some
            for c in [c for w, c in lack.values()] + list(differ.values()):
                good = dand(good, dnot(c))
            ob('add_info/accepted', r, C(0), fn=x, text='a source that agrees with the one before', given=good)
        src = [v for v in (ev.val('%%%d' % i['id']) for i in method_calls(ev, 'GetSpatialRef')) if isinstance(v, Poly)]
        at_exit(ctx, ob, prog, ev, 'add_info', {'nRasterXSize': P(atom('call', 'GetRasterXSize', f('p1'), integer=True)), 'nRasterYSize': P(atom('call', 'GetRasterYSize', f('p1'), integer=True)),
                                                'osr': P(atom('call', 'Clone', src[0])) if src else unknown('source')}, given=first)
        at_exit(ctx, ob, prog, ev, 'add_info', {'has_sources': C(1)}, given=dnot(hs))
        g = field_at_exit(prog, ev, 'has_sources', t='i8')
        if g is not None:
            ob('add_info/has_sources/kept', truth(g), TRUE, fn=x, text='a source has been taken over', given=hs)
        mo = member_offset(prog, 'msat::utils::ProxyDataset', 'geotransform')
        for k in range(6) if mo else ():
            ob('add_info/geotransform[%d]' % k, ev.exit_mem(ev.val('a0') + mo[0] + 8 * k, 8, 'double'), P(atom('out', 'GetGeoTransform', 'arg1', C(8 * k))), fn=x, text='element %d' % k, given=dnot(hs))
        taken(ctx, ob, ev, 'add_info', dnot(hs))
        ts = [i for k, i in ev.calls(r'basic_string<.*>::(operator=|assign)\(') if getattr(ev.val(i['args'][0]), 'key', '') == (f('this') + (member_offset(prog, 'msat::utils::ProxyDataset', 'datetime') or (0,))[0]).key]
        for i in ts:
            ob('add_info/datetime', ev.under_known(ev.val(i['args'][1]), x.blk['%%%d' % i['id']]), P(atom('vcall', 'GetMetadataItem', f('p1'), f('"MSAT_DATETIME"'), f('""'))), fn=x, where=x.where(i), text='time')
        w = [i for i in x.order if i['op'] in ('call', 'invoke') and not i in ts and not re.search(r'compare|operator[!=]=|::~|::size|::empty', i.get('dem') or i.get('callee') or '')
             and any(getattr(ev.val(a), 'key', None) == (f('this') + (member_offset(prog, 'msat::utils::ProxyDataset', 'datetime') or (0,))[0]).key for a in i['args'])]
        if not ts and w:
            ctx.undecided('add_info/datetime', 'not set by assignment')
        elif not ts:
            ctx.violation('add_info/datetime', 'the time of the source is not taken over', x.where(x.order[0]))
        if ts:
            ob('add_info/datetime/set', ev.under(x.blk['%%%d' % ts[0]['id']]), TRUE, fn=x, text='the time is taken over', given=dand(first, dnot(deq(r, f('THROW')))))
    x = one(ctx, prog, r'^msat::utils::ProxyRasterBand::add_info\(', 'band add_info')
    if x:
        ev = Ev(prog, x, throw_leaf=True)
        at_exit(ctx, ob, prog, ev, 'band add_info', {'nBlockXSize': P(atom('out', 'GetBlockSize', 'arg1', C(0), integer=True)), 'nBlockYSize': P(atom('out', 'GetBlockSize', 'arg2', C(0), integer=True))})
        for b, i in ev.calls(r'::GetBlockSize\('):
            args(ctx, ob, 'band add_info/GetBlockSize', ev, i, {0: ('band', ev.val('a1'))})
        taken(ctx, ob, ev, 'band add_info', None)
    x = one(ctx, prog, r'^msat::utils::ProxyDataset::GetGeoTransform\(', 'ProxyDataset::GetGeoTransform')
    if x:
        ev = Ev(prog, x)
        for k in range(6):
            ob('computed/GetGeoTransform[%d]' % k, ev.exit_mem(ev.val('a1') + 8 * k, 8, 'double'), f('this.geotransform[%d]' % k), fn=x, text='element %d' % k)
        ob('computed/GetGeoTransform', ev.ret(), C(0), fn=x, text='returned')
    x = one(ctx, prog, r'^msat::utils::ProxyDataset::GetSpatialRef\(', 'ProxyDataset::GetSpatialRef')
    if x:
        ob('computed/GetSpatialRef', Ev(prog, x).ret(), f('this.osr'), fn=x, text='returned')


def number(v):
    k = v.const() if isinstance(v, Poly) else None
    return int(k) if k is not None else None


def looks_at(prog, ev, name):
    """the function passes the member of its object, or anything in it, to a call, or reads it in another way that could compare it"""
    x = ev.fn
    off, size = member_offset(prog, 'msat::utils::ProxyDataset', name)[:2]
    read = set()
    inside = {(f('this') + off + k).key for k in range(0, 48 if name == 'geotransform' else 32 if name == 'datetime' else 8)}
    for i in x.order:
        if i['op'] in ('call', 'invoke'):
            n = i.get('dem') or i.get('callee') or ''
            if re.search(r'operator=\(|::assign\(|_M_replace|_M_assign|::swap|::(empty|clear|reserve)\(|llvm\.|memcpy|GetGeoTransform|::~', n) or (i.get('vcall') or '') == 'GetGeoTransform':
                continue
            vs = [ev.val(a) for a in i['args']]
            if any(getattr(v, 'key', None) in inside for v in vs):
                return n
            if name != 'datetime' and any('this.' + name in str(v) for v in vs):
                return n
        if name == 'geotransform' and i['op'] == 'load' and isinstance(i['p'], str):
            d = dsum(ev.val(i['p']), dmul(C(-1), f('this')))
            if isinstance(d, Poly) and d.const() is None and 'this' not in str(d) and getattr(ev.val(i['p']), 'key', '').find('this') >= 0:
                return 'element by element'
            if getattr(ev.val(i['p']), 'key', None) in inside:
                read.add(int(d.const()) - off)
    return 'element by element' if len(read) == 6 else None


def taken(ctx, ob, ev, key, given):
    """the metadata of the source become those of the object"""
    x = ev.fn
    ms = method_calls(ev, 'SetMetadata')
    if len(ms) != 1:
        if not ms and not method_calls(ev, 'SetMetadataItem'):
            return ctx.violation(key + '/metadata', 'the metadata of the source are not taken over', x.where(x.order[0]))
        return ctx.undecided(key + '/metadata', 'not set at once')
    b = x.blk['%%%d' % ms[0]['id']]
    got = [ev.under_known(ev.val(a), b) for a in ms[0]['args']]
    ob(key + '/metadata/object', got[0], f('this'), fn=x, where=x.where(ms[0]), text='object')
    ob(key + '/metadata', got[1], P(atom('vcall', 'GetMetadata', f('p1'), f('""'))), fn=x, where=x.where(ms[0]), text='metadata')
    ob(key + '/metadata/domain', got[2], f('""'), fn=x, where=x.where(ms[0]), text='domain')
    r = throws(ev.ret())
    done = dnot(deq(r, f('THROW')))
    ob(key + '/metadata/set', ev.under(b), TRUE, fn=x, where=x.where(ms[0]), text='metadata are taken over', given=dand(done, given) if given is not None else done)


def returns_at_all(prog, x):
    """condition that the function does not end with an exception of its own"""
    return dnot(deq(throws(Ev(prog, x, throw_leaf=True).ret()), f('THROW')))


def bands(ctx, ob, prog):
    for cls, u in UNITS.items():
        x = one(ctx, prog, r'^msat::utils::%s::GetUnitType\(' % cls, cls + '::GetUnitType')
        if x:
            ob(cls + '::GetUnitType', Ev(prog, x).ret(), f(u), fn=x, text='unit')
        x = one(ctx, prog, r'^msat::utils::%s::%s\(' % (cls, cls), cls)
        if x:
            ev = Ev(prog, x)
            at_exit(ctx, ob, prog, ev, cls, {'poDS': ev.val('a1'), 'nBand': ev.val('a2'), 'eDataType': C(TYPES[cls])})
            for b, i in ev.calls(r'PixelToLatlon::PixelToLatlon\('):
                args(ctx, ob, cls + '/PixelToLatlon', ev, i, {1: ('dataset', ev.val('a1'))})
    for cls in ('SatZARasterBand', 'CosSolZARasterBand', 'JDayRasterBand', 'SingleChannelReflectanceRasterBand', 'Reflectance39RasterBand'):
        x = one(ctx, prog, r'^msat::utils::%s::%s\(' % (cls, cls), cls)
        if not x:
            continue
        ev = Ev(prog, x)
        cs = ev.calls(r'ProxyRasterBand::add_info\(')
        if not cs:
            if ev.calls(r'GetBlockSize\('):
                ctx.undecided(cls + '/add_info', 'taken over directly')
            else:
                ctx.violation(cls + '/add_info', 'the band does not take over the block size and metadata of its source', x.where(x.order[0]))
            continue
        for b, i in cs:
            args(ctx, ob, cls + '/add_info', ev, i, {0: ('object', f('this'))})
            if len(x.j['args']) > 3:
                args(ctx, ob, cls + '/add_info', ev, i, {1: ('source', ev.val('a3'))})
        reached(ctx, cls + '/add_info/reached', ev, [i for b, i in cs], returns_at_all(prog, x), 'the band takes over the metadata of its source')


def computed(ctx, ob, prog):
    for cls in ('SatZA', 'CosSolZA', 'JDay'):
        x = one(ctx, prog, r'^msat::utils::%sDataset::%sDataset\(' % (cls, cls), cls + 'Dataset')
        if not x:
            continue
        ev = Ev(prog, x)
        a = ev.calls(r'ProxyDataset::add_info\(')
        for b, i in a:
            args(ctx, ob, cls + 'Dataset/add_info', ev, i, {0: ('object', f('this')), 1: ('source', ev.val('a1'))})
        c = ev.calls(r'::%sRasterBand::%sRasterBand\(' % (cls, cls))
        for b, i in c:
            args(ctx, ob, cls + 'Dataset/band', ev, i, {1: ('dataset', f('this')), 2: ('number', C(1)), 3: ('source', P(atom('call', 'GetRasterBand', f('p1'), C(1))))})
        s = ev.calls(r'::SetBand\(')
        for b, i in s:
            args(ctx, ob, cls + 'Dataset/SetBand', ev, i, {0: ('dataset', f('this')), 1: ('number', C(1))})
            if len(c) == 1 and len(s) == 1:
                args(ctx, ob, cls + 'Dataset/SetBand', ev, i, {2: ('band', ev.val(c[0][1]['args'][0]))})
        for n, l in (('add_info', a), ('band', c), ('SetBand', s)):
            if l:
                reached(ctx, cls + 'Dataset/%s/reached' % n, ev, [i for b, i in l], returns_at_all(prog, x), n)
            elif n == 'add_info' and not method_calls(ev, 'GetSpatialRef'):
                ctx.violation(cls + 'Dataset/add_info', 'the dataset takes nothing over from its source', x.where(x.order[0]))
            else:
                ctx.undecided(cls + 'Dataset/' + n, 'done elsewhere')
        # the band needs what the dataset has taken over
        for b, i in c:
            if a and not any(x.blk[k] in x.dominators()[x.blk[b]] for k, j in a):
                ctx.violation(cls + 'Dataset/order', 'the band is made before the dataset takes over its source', x.where(i))
            else:
                ctx.good(cls + 'Dataset/order', 'the band is made after the dataset has taken over its source')


def option(ctx, ob, prog):
    x = one(ctx, prog, r'^msat::gdal::add_extras\(', 'option')
    if not x:
        return
    ev = Ev(prog, x)
    isv = {}
    for i in x.order:
        if i['op'] in ('call', 'invoke'):
            for a in i.get('args', []):
                if isinstance(a, dict) and a.get('s') in OPTIONS:
                    v = ev.val('%%%d' % i['id'])
                    n = i.get('dem') or i.get('callee') or ''
                    isv[a['s']] = dnot(deq(v, C(0))) if 'operator==' in n else deq(v, C(0)) if re.search(r'compare|strcmp|strcasecmp|EQUAL|operator!=', n) else None
    given = TRUE
    for i in x.order:
        if i['op'] in ('call', 'invoke') and re.match(r'CSLFindName$', i.get('callee') or ''):
            given = dnot(deq(ev.val('%%%d' % i['id']), C(-1)))
            args(ctx, ob, 'option/name', ev, i, {1: ('name', f('"MSAT_COMPUTE"'))})
    for t in OPTIONS:
        if t not in isv and len(isv) >= 2 and not any(isinstance(a, dict) and a.get('s') == t for i in x.order for a in i.get('args', [])):
            ctx.violation('option/' + t, 'the option value %s is not recognised' % t, x.where(x.order[0]))
    if any(isv.get(t) is None for t in OPTIONS):
        return ctx.undecided('option', 'the values are not compared one by one')
    md = is_md(ev)
    made = {c: ev.calls(r'msat::utils::%s::%s\(' % (c, c)) for c in OPTIONS.values()}
    for t in OPTIONS:
        g = given
        for u in OPTIONS:
            g = dand(g, isv[u] if u == t else dnot(isv[u]))
        if t == 'reflectance':
            if md is None:
                ctx.undecided('option/reflectance', 'channel not read once')
                continue
            g = dand(g, dand(dnot(deq(md[0], C(0))), dnot(deq(md[1], C(4)))))
        for c, cs in made.items():
            if not cs:
                ctx.undecided('option/%s/%s' % (t, c), 'made elsewhere')
                continue
            u = FALSE
            for b, i in cs:
                u = dor(u, ev.under(x.blk[b]))
            ob('option/%s/%s' % (t, c), u, TRUE if OPTIONS[t] == c else FALSE, fn=x, where=x.where(cs[0][1]), text='option %s makes a %s' % (t, c), given=g)
    for c, cs in made.items():
        for b, i in cs:
            if c == 'ReflectanceDataset':
                if md:
                    args(ctx, ob, 'option/reflectance', ev, i, {1: ('channel', md[1])})
            else:
                args(ctx, ob, 'option/' + c, ev, i, {1: ('source', ev.val('a0'))})
    ob('option/none', ev.ret(), ev.val('a0'), fn=x, text='without the option', given=dnot(given))


def is_md(ev):
    """channel text and number of the source"""
    ms = [i for i in method_calls(ev, 'GetMetadataItem')]
    ns = [i for k, i in ev.calls(r'strtoul|strtol|atoi|stoi|stoul')]
    if len(ms) != 1 or len(ns) != 1:
        return None
    return ev.val('%%%d' % ms[0]['id']), ev.val('%%%d' % ns[0]['id'])


def reflectance(ctx, ob, prog):
    """every channel given to a reflectance dataset is taken over before it is kept"""
    x = one(ctx, prog, r'^msat::utils::ReflectanceDataset::add_source\(', 'add_source')
    if not x:
        return
    ev = Ev(prog, x, throw_leaf=True)
    cs = ev.calls(r'ProxyDataset::add_info\(')
    if not cs:
        if method_calls(ev, 'GetSpatialRef'):
            return ctx.undecided('add_source/add_info', 'taken over directly')
        return ctx.violation('add_source/add_info', 'a channel is kept without being compared with the ones before', x.where(x.order[0]))
    for b, i in cs:
        args(ctx, ob, 'add_source/add_info', ev, i, {0: ('object', f('this'))})
        if not any(a.kind == 'out' for a in walk_atoms(ev.val(i['args'][1])).values()):
            args(ctx, ob, 'add_source/add_info', ev, i, {1: ('source', ev.val('a1'))})
    rb = {getattr(ev.val(k), 'key', None) for k, i in ev.calls(r'::GetRasterBand\(')}
    kept = [i for i in x.order if i['op'] == 'store' and isinstance(i['v'], str) and getattr(ev.val(i['v']), 'key', None) in rb]
    for i in kept:
        d = x.dominators()[i['bb'] if 'bb' in i else block_of(x, i)]
        if any(x.blk[k] in d for k, j in cs):
            ctx.good('add_source/order', 'a channel is compared with the ones before, then kept')
        else:
            ctx.violation('add_source/order', 'a channel is kept without having been compared with the ones before', x.where(i))


def block_of(x, inst):
    for name, b in x.blocks.items():
        if any(i is inst for i in b['insts']):
            return name
