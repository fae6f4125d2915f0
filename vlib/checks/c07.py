from ..semcheck import *
LEVEL = 'proof'
RULE = '''Value numbering of the opening of segmented images: where the decision diagram of a raster size, of an element of the
geotransform, of a parameter of the projection, or of the text of a metadata item differs from the one of the image headers,
or an item is not set on a path that succeeds, the check reports a violation.'''
ASSUME = ['setting a metadata item of a GDAL object succeeds or makes the opening fail']
TRUST = ['the reference grid in vlib/checks/c07.py (MSG level 1.5: 3712 and 11136 columns and lines, centred)']


def run(ctx):
    prog = program()
    dataset(ctx, prog)
    band(ctx, prog)
    spaceview(ctx, prog)


def dataset(ctx, prog):
    x = one(ctx, prog, r'XRITDataset::init\(', 'XRITDataset')
    if x:
        ev = Ev(prog, x)
        sc = ev.calls(r'DataAccess::scan\(')
        if len(sc) != 1:
            return ctx.undecided('XRITDataset', 'the headers are not read by one scan')
        # the scan tells the resolution
        da = member_offset(prog, 'msat::xrit::XRITDataset', 'da')
        b, sci = sc[0]
        nb = x.blk[b]
        pro = 'scan:p%d.prologue.' % 2
        hdr = 'scan:p%d.' % 4
        hv = ev.memval(ev.val('a0') + da[0] + member_offset(prog, 'msat::xrit::DataAccess', 'hrv')[0], 1, 'i8', nb, len(x.blocks[nb]['insts']))
        hrv = truth(hv)
        pick = lambda a, b: ite(hrv, a, b)
        ok = b_not(deq(ev.ret(), C(0)))
        g = lambda n: dabs(1000 * pick(f(pro + 'image_description.ReferenceGridHRV.' + n), f(pro + 'image_description.ReferenceGridVIS_IR.' + n)))
        col, lin = g('ColumnDirGridStep'), g('LineDirGridStep')
        size, half = pick(C(11136), C(3712)), pick(C(5568), C(1856))
        for n in ('nRasterXSize', 'nRasterYSize'):
            oblige(ctx, 'XRITDataset/' + n, field_at_exit(prog, ev, n, t='i32'), size, fn=x, text='raster size', given=ok)
        mo = member_offset(prog, 'msat::xrit::XRITDataset', 'geotransform')
        if mo is None:
            ctx.undecided('XRITDataset/geotransform', 'no such member')
        else:
            for k, w in enumerate((dsum(C(0), dmul(half, col), -1), col, C(0), dmul(half, lin), C(0), dsum(C(0), lin, -1))):
                oblige(ctx, 'XRITDataset/geotransform[%d]' % k, ev.exit_mem(ev.val('a0') + mo[0] + 8 * k, 8, 'double'), w, fn=x, text='element %d of the geotransform' % k, given=ok)
        sat = P(atom('call', 'spacecraftIDFromHRIT', f(hdr + 'segment_id.spacecraft_id', True), integer=True))
        oblige(ctx, 'XRITDataset/spacecraft_id', field_at_exit(prog, ev, 'spacecraft_id', t='i32'), sat, fn=x, text='satellite', given=ok)
        pc = member_offset(prog, 'MSG_data', 'prologue')
        to = pc and member_offset(prog, pc[2], 'image_acquisition.PlannedAquisitionTime.TrueRepeatCycleStart.unixtime')
        wants = {'MSAT_SPACECRAFTID': P(atom('call', 'decimal', sat)), 'MSAT_SPACECRAFT': P(atom('call', 'spacecraftName', sat))}
        if to is None:
            ctx.undecided('XRITDataset/MSAT_DATETIME', 'no such member')
        else:
            wants['MSAT_DATETIME'] = P(atom('call', 'strftime', f('"%Y-%m-%d %H:%M:00"'), P(atom('call', 'gmtime', f(pro[:-1]) + to[0]))))
        metadata(ctx, 'XRITDataset', ev, wants, done=ok)
        pj = ev.calls(r'dataset::set_spaceview\(')
        for b, i in pj:
            call_args(ctx, 'XRITDataset/projection', ev, i, {0: ('object', f('this') + member_offset(prog, 'msat::xrit::XRITDataset', 'osr')[0]), 1: ('longitude', f(hdr + 'image_navigation.subsatellite_longitude'))})
        if pj:
            reached(ctx, 'XRITDataset/projection/set', ev, [i for b, i in pj], ok, 'projection is set')
        else:
            ctx.undecided('XRITDataset/projection', 'set elsewhere')
        bs = method_calls(ev, 'SetBand')
        if len(bs) == 1:
            call_args(ctx, 'XRITDataset/band', ev, bs[0], {1: ('number', C(1))})
            reached(ctx, 'XRITDataset/band/set', ev, bs, ok, 'band is added')
    getters(ctx, prog, 'XRITDataset', 'msat::xrit::XRITDataset')


def getters(ctx, prog, name, cls):
    x = one(ctx, prog, r'::%s::GetGeoTransform\(' % name, name + '::GetGeoTransform')
    if x:
        ev = Ev(prog, x)
        for k in range(6):
            oblige(ctx, '%s::GetGeoTransform[%d]' % (name, k), ev.exit_mem(ev.val('a1') + 8 * k, 8, 'double'), f('this.geotransform[%d]' % k), fn=x, text='element %d' % k)
            oblige(ctx, name + '::GetGeoTransform/result', ev.ret(), C(0), fn=x, text='returned')
    x = one(ctx, prog, r'::%s::GetSpatialRef\(' % name, name + '::GetSpatialRef')
    mo = member_offset(prog, cls, 'osr')
    if x and mo:
        oblige(ctx, name + '::GetSpatialRef', Ev(prog, x).ret(), f('this') + mo[0], fn=x, text='returned')


def band(ctx, prog):
    x = one(ctx, prog, r'XRITRasterBand::init\(', 'XRITRasterBand')
    if x:
        ev = Ev(prog, x)
        ok = b_not(deq(ev.ret(), C(0)))
        ch = f('p3.segment_id.spectral_channel_id', True)
        name = P(atom('call', 'channelName', f('this.xds.spacecraft_id', True), ch))
        metadata(ctx, 'XRITRasterBand', ev, {'MSAT_CHANNELID': P(atom('call', 'decimal', ch)), 'MSAT_CHANNEL': name}, done=ok)
        oblige(ctx, 'XRITRasterBand/channel_id', field_at_exit(prog, ev, 'channel_id', t='i32'), ch, fn=x, text='channel', given=ok)
        ds = method_calls(ev, 'SetDescription')
        for i in ds:
            oblige(ctx, 'XRITRasterBand/description', text_arg(ev, i, 1), name, where=x.where(i), text='description', fn=x)
        if ds:
            reached(ctx, 'XRITRasterBand/description/set', ev, ds, ok, 'the band has a description')
        lin = truth(field_at_exit(prog, ev, 'linear', t='i8'))
        oblige(ctx, 'XRITRasterBand/type', field_at_exit(prog, ev, 'eDataType', t='i32'), ite(lin, C(2), C(6)), fn=x, text='data type', given=ok)
    x = one(ctx, prog, r'XRITRasterBand::GetUnitType\(', 'XRITRasterBand::GetUnitType')
    if x:
        oblige(ctx, 'XRITRasterBand::GetUnitType', Ev(prog, x).ret(), P(atom('call', 'channelUnit', f('this.xds.spacecraft_id', True), f('this.channel_id', True))), fn=x, text='returned')
    x = one(ctx, prog, r'XRITRasterBand::XRITRasterBand\(', 'XRITRasterBand/constructor')
    if x:
        ev = Ev(prog, x)
        field_obligation(ctx, prog, ev, 'xds', ev.val('a1'), t='ptr')
        field_obligation(ctx, prog, ev, 'poDS', ev.val('a1'), t='ptr')
        field_obligation(ctx, prog, ev, 'nBand', ev.val('a2'), t='i32')


def spaceview(ctx, prog):
    x = one(ctx, prog, r'^msat::dataset::set_spaceview\(', 'set_spaceview')
    if x:
        ev = Ev(prog, x)
        g = method_calls(ev, 'SetGEOS')
        for i in g:
            call_args(ctx, 'set_spaceview', ev, i, {0: ('object', ev.val('a0')), 1: ('longitude', ev.val('a1')), 2: ('height', C(35785831)), 3: ('false easting', C(0)), 4: ('false northing', C(0))})
        e = method_calls(ev, 'SetGeogCS')
        for i in e:
            call_args(ctx, 'set_spaceview', ev, i, {0: ('object', ev.val('a0')), 4: ('semi-major axis', C(6378169)), 5: ('inverse flattening', C(295.488065897)), 7: ('meridian', C(0))})
        for n, cs in (('SetGEOS', g), ('SetGeogCS', e)):
            if cs:
                reached(ctx, 'set_spaceview/' + n, ev, cs, None, n + ' is called')
            else:
                ctx.undecided('set_spaceview/' + n, 'not called directly')
