from ..failures import *
LEVEL = 'proof'
RULE = '''From every call of the dataset operations (translation, recoding, georeferencing, the computed datasets and the drivers' open
functions) that can fail, with its result set to each failure value, every path of the function must end in an exception or in the failure
value of the function; functions that pass a failure on are such calls themselves (fixpoint).  A path that goes on to success is a
violation.'''
ASSUME = ['GDAL reports failure by the values of its documentation', 'allocation failures are not considered']
TRUST = ['the table of calls that can fail in vlib/failures.py']

RULES = Rules(r'^(/repo/)?(msat/gdal/|gdal/reflectance/|gdal/utils|gdal/xrit/)',
              r'RasterIO|ReadBlock|GetGeoTransform|GDALGetGeoTransform|OGRCreateCoordinateTransformation|Transform|GetSpatialRef|CloneGeogCS|GDALCreateCopy|(__isoc\d+_)?sscanf|SetMetadata|GetMetadata(Item)?|fopen(64)?',
              optional=(),
              tolerated=[(r'decodeGeotransform\(', r'GetGeoTransform', 'has no way to fail'), (r'GDALTranslate::translate\(', r'GDALGetGeoTransform|SetMetadata|GetMetadata|GDALSetMetadataItem', 'GDAL supplies an identity transform'),
                         (r'PixelToLatlon::compute\(', r'Transform', 'points in space do not transform'), (r'add_source\(', r'GetMetadataItem', 'bands of no channel are passed over'),
                         (r'Proxy(Dataset|RasterBand)::(Get|Set|Flush)\w+\(', r'.*', 'forwarded as it is'), (r'GetMetadataItem\(|GetMetadata\(', r'.*', 'forwarded as it is'),
                         (r'PixelToLatlon::PixelToLatlon\(|GeoReferencer', r'^CloneGeogCS$', 'of a projection that has been checked'), (r'add_info\(', r'^(GetSpatialRef|GetMetadataItem)#', '')])


def run(ctx):
    prog = program()
    F = Failures(ctx, prog, RULES)
    F.derive()
    ctx.notes.append('functions that pass failures on: ' + ', '.join(sorted(plain(prog.fns[n].dem) + ':' + k for n, k in F.fallible.items())))
    F.decide()
    ctx.part('flags', flagged, ctx, prog)
    ctx.part('sources', sources, ctx, prog)


def flagged(ctx, prog):
    """values that come with a success flag"""
    n = 0
    for x in prog.fns.values():
        if not re.search(r'^(/repo/)?gdal/reflectance/', x.j.get('file') or '') or not re.search(r'::(\w+)::\1\(|::init\w*\(', x.dem):
            continue
        each = lambda ev, i: '%s{%s}' % (ev.cbase(i), i['id']) if i.get('indirect') and ev.slot(i) in ('GetScale', 'GetOffset') else None
        ev = Ev(prog, x, throw_leaf=True, callname=each)
        for k, i in x.inst.items():
            if i['op'] not in ('call', 'invoke') or not i.get('indirect') or ev.slot(i) not in ('GetScale', 'GetOffset') or len(i['args']) != 2:
                continue
            q = ev.val(i['args'][1])
            b = x.blk[k]
            at = (b, x.blocks[b]['insts'].index(i) + 1) if i['op'] == 'call' else (i['normal'], 0)
            flag = ev.memval(q, 4, 'i32', *at)
            key = '%s/%s/meaningful' % (plain(x.dem), ev.slot(i))
            n += 1
            if not isinstance(flag, Poly) or flag.opaque:
                ctx.undecided(key, 'the flag is not readable')
                continue
            d = Outcome(prog, x, i, {}, each).diagram()
            oblige(ctx, key, throws(d) if d is not BOT else f('THROW'), f('THROW'), where=x.where(i), fn=x, given=dand(ev.under(b), deq(flag, C(0))), text='a source without %s is refused' % ev.slot(i)[3:].lower())
    if not n:
        ctx.undecided('flags', 'no value is read with its flag')


def sources(ctx, prog):
    """a computed band whose source channel is missing"""
    for x in find(prog, r'::(SingleChannelReflectanceRasterBand|Reflectance39RasterBand)::\1\('):
        ev = Ev(prog, x, throw_leaf=True)
        for m in prog.types.get(x.j['cls'], {}).get('members', []):
            if not m['n'].startswith('source_'):
                continue
            key = '%s/%s' % (plain(x.dem), m['n'])
            v = ev.exit_mem(ev.val('a0') + m['o'], 8, 'ptr')
            d = ev.ret()
            oblige(ctx, key, throws(d) if d is not BOT else f('THROW'), f('THROW'), fn=x, given=deq(v, C(0)), text='a missing source channel is refused')
