from ..failures import *
LEVEL = 'proof'
RULE = '''From every call of the GRIB driver that can fail (ecCodes, file and GDAL calls, and the driver's own functions that return a
failure, found by a fixpoint), with its result set to each failure value, every path of the function must end in an exception or in the
failure value of the function; a path that goes on to success is a violation.'''
ASSUME = ['ecCodes returns a negative code, or no handle, exactly when a call fails', 'allocation failures are not considered']
TRUST = ['the table of calls that can fail in vlib/failures.py']

RULES = Rules(r'^(/repo/)?gdal/grib/', r'grib_(get|set)_(?!error)\w+|grib_get_message|grib_handle_new_from_\w+|fopen(64)?|fclose|fwrite|sscanf|__isoc\d+_sscanf|RasterIO|ReadBlock|GetAttrValue|GDALOpen|GetSpatialRef|GetGeoTransform',
              optional=('channelNumber', 'level', 'second', '/tmp/trace-gribapi', 'scaleFactorOfCentralWaveNumber'),
              tolerated=[(r'~Grib\(|::Grib::(Grib|operator=)', r'f(open|close)', 'the trace file')])


def run(ctx):
    prog = program()
    F = Failures(ctx, prog, RULES)
    F.derive()
    ctx.notes.append('functions that pass failures on: ' + ', '.join(sorted(plain(prog.fns[n].dem) + ':' + k for n, k in F.fallible.items())))
    F.decide()
    ctx.part('read/count', pixels, ctx, prog)
    ctx.part('edition', editions, ctx, prog)
    ctx.part('write/unsupported', unsupported, ctx, prog)


def fails(ctx, key, x, ev, given, text, where=''):
    d = ev.ret()
    if d is BOT:
        return ctx.undecided(key, 'does not return')
    oblige(ctx, key, apply_d(lambda p: failing(x, p), d), TRUE, fn=x, where=where, text=text, given=given)


def pixels(ctx, prog):
    for x in find(prog, r'^msat::grib::.*::IReadBlock\('):
        ev = Ev(prog, x, throw_leaf=True)
        first = dand(deq(f('i1', True), C(0)), deq(f('i2', True), C(0)))
        fails(ctx, 'read/block', x, ev, dnot(first), 'reading a block that does not exist fails')
        for k, i in x.inst.items():
            if i['op'] in ('call', 'invoke') and short(i.get('dem') or i.get('callee') or '').endswith('get_double_array') and len(i['args']) == 4:
                got = P(atom('out', ev.cname(i), 'arg3', C(0)))
                n = f('this.nRasterXSize', True) * f('this.nRasterYSize', True)
                fails(ctx, 'read/count', x, ev, dand(first, dnot(deq(got, n))), 'another number of pixels than the image has is a failure', x.where(i))


def editions(ctx, prog):
    for n in ('formatTime', 'setTime'):
        for x in find(prog, r'^msat::grib::Grib::%s\(' % n):
            ev = Ev(prog, x, throw_leaf=True)
            ed = [ev.val(k) for k, i in ev.calls(r'::get_long\(') if any(t == 'editionNumber' for t in [getattr(ev.val(a), 'key', '').strip('"') for a in i['args'][1:2]])]
            if len({e.key for e in ed}) != 1:
                ctx.undecided('edition/' + n, 'not one edition is read')
                continue
            d = ev.ret()
            oblige(ctx, 'edition/' + n, throws(d) if d is not BOT else f('THROW'), f('THROW'), fn=x, text='an edition other than 1 and 2 is refused', given=dnot(dor(deq(ed[0], C(1)), deq(ed[0], C(2)))))


def unsupported(ctx, prog):
    for x in find(prog, r'^msat::grib::GRIBCreateCopy\('):
        ev = Ev(prog, x, throw_leaf=True)
        oblige(ctx, 'write/bands', apply_d(lambda p: failing(x, p), ev.ret()), TRUE, fn=x, text='a dataset without bands is refused', given=dlt(P(atom('call', 'GetRasterCount', f('p1'), integer=True)), C(1), True))
    for x in find(prog, r'::CreateGRIB\d?::data_section\('):
        ev = Ev(prog, x, throw_leaf=True)
        sets = ev.calls(r'::set_double_array\(')
        if not sets:
            continue
        n = ev.val(sets[0][1]['args'][3])
        fails(ctx, 'write/all missing', x, ev, deq(f('this.count_missing', True), n), 'an image of missing pixels only is refused')
    for x in find(prog, r'::CreateGRIB::create\('):
        ev = Ev(prog, x, throw_leaf=True)
        h = P(atom('call', 'GetProjParm', ev.val('a0') + (member_offset(prog, x.j['cls'], 'osr') or (0,))[0], f('"satellite_height"'), C(0), C(0)))
        hs = [ev.val(k) for k, i in ev.calls(r'GetProjParm') if '"satellite_height"' in ev.val(k).key]
        if hs:
            fails(ctx, 'write/height', x, ev, dnot(deq(hs[0], C(35785831))), 'another satellite height is refused')
        else:
            ctx.undecided('write/height', 'the satellite height is not read')
