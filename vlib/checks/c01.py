from .. import laycheck as L, facts, layout
import os, re
LEVEL = 'proof'
RULE = '''Bit-level provenance of every member of the SEVIRI level 1.5 header and trailer records, computed on the
normalised IR of every record reader (nested readers followed, constant loops unrolled): each member must be
written on every completing path and hold exactly the input bytes, in the byte order and width, that the format
table in spec/layout gives it.  Record readers must be handed the buffer that was filled from the file at the
record's offset in the header or trailer, and the native reader must request exactly the size of each block.'''
RECORDS = ['MSG_data_SatelliteStatus', 'MSG_data_ImageAcquisition', 'MSG_data_CelestialEvents', 'MSG_data_ImageDescription',
           'MSG_data_RadiometricProc', 'MSG_data_GeometricProc', 'MSG_data_IMPFConfiguration', 'MSG_data_ImageProdStats',
           'MSG_data_NavigExtrResult', 'MSG_data_RadiometricQuality', 'MSG_data_GeometricQuality', 'MSG_data_TimelinComple',
           'MSG_data_SGS_header']
HEAD = {'MSG_data_SatelliteStatus': 0, 'MSG_data_ImageAcquisition': 60134, 'MSG_data_CelestialEvents': 60834,
        'MSG_data_ImageDescription': 386892, 'MSG_data_RadiometricProc': 386993, 'MSG_data_GeometricProc': 407808}
TAIL = {'MSG_data_ImageProdStats': 1, 'MSG_data_NavigExtrResult': 341, 'MSG_data_RadiometricQuality': 6021,
        'MSG_data_GeometricQuality': 377277, 'MSG_data_TimelinComple': 380193}
TRUST = ['spec/layout tables, transcribed from the MSG level 1.5 data format and checked to tile each record without overlap']
ASSUME = ['bytes marked spare in the format are not decoded', 'values computed from the bytes (unix times) are decided by C05']


def run(ctx):
    prog = L.program()
    n = 0
    for cls in RECORDS:
        f = L.reader(prog, cls, 'read_from')
        if f is None:
            raise facts.Broken('reader of %s is gone' % cls)
        n += 1
        fl = L.check_record(ctx, prog, f, cls, L.load_spec(cls))
        for a, b, name in covers(cls):
            used = set()
            for k, e in fl.bytes.items():
                if k[0] == 'this':
                    used |= {o for bb, o, s in (x for x in L.Fn.srcs(e[0]) if len(x) == 3) if bb == 'buff'}
            lost = [o for o in range(a, b + 1) if o not in used]
            if lost and not any(c[0] == 'copyvar' for c in fl.calls):
                ctx.violation('%s/%s' % (cls, name), '%d of the %d bytes of the field are not kept by any member (first: byte %d)' %
                              (len(lost), b - a + 1, lost[0]), '%s:%s' % (f.j['file'], f.j['line']))
            else:
                ctx.good('%s/%s' % (cls, name), 'all bytes kept')
    if ctx.thorough():
        done = set(RECORDS)
        for f in prog.fns.values():
            cls = f.j.get('cls')
            if f.j.get('sname') == 'read_from' and cls not in done and cls.startswith('MSG_') and not cls.startswith(('MSG_header', 'MSG_native')) \
                    and os.path.exists(os.path.join(L.SPEC, cls + '.txt')):
                done.add(cls)
                L.check_record(ctx, prog, f, cls, L.load_spec(cls), label='nested/' + cls)
    root = L.reader(prog, 'MSG_data', 'read_from')
    if root is None:
        raise facts.Broken('MSG_data::read_from is gone')
    allrec = dict(HEAD)
    allrec.update(TAIL)
    allrec['MSG_data_SGS_header'] = 0
    L.compose(ctx, prog, root, allrec, 'HRIT')
    nh = L.reader(prog, 'MSG_native_header', 'read')
    nt = L.reader(prog, 'MSG_native_trailer', 'read')
    if nh is None or nt is None:
        raise facts.Broken('native header or trailer reader is gone')
    nrec = {k: v + 1 for k, v in HEAD.items()}
    nrec['MSG_data_IMPFConfiguration'] = 425462
    nrec['IMPF_Packet_Header'] = 0
    fl, _ = L.compose(ctx, prog, nh, nrec, 'native header')
    sizes(ctx, fl, [5114, 38, 445248], 'native header')
    trec = dict(TAIL)
    trec['IMPF_Packet_Header'] = 0
    fl, _ = L.compose(ctx, prog, nt, trec, 'native trailer')
    sizes(ctx, fl, [38, 380325], 'native trailer')
    ctx.counts['records'] = n


def covers(cls):
    for l in open(os.path.join(L.SPEC, cls + '.txt')):
        m = re.match(r'!cover (\d+) (\d+) (\S+)', l)
        if m:
            yield int(m.group(1)), int(m.group(2)), m.group(3)


def sizes(ctx, fl, want, label):
    got = L.read_sizes(fl)
    if any(s is None for s, _, _ in got) or len(got) != len(want):
        ctx.undecided(label + '/blocks', 'block reads are not of constant size')
        return
    for k, ((s, i, fn), w) in enumerate(zip(got, want)):
        key = '%s/block %d' % (label, k)
        if s == w:
            ctx.good(key, '%d bytes' % w)
        else:
            ctx.violation(key, 'reads %d bytes, the block has %d' % (s, w), fn.where(i))
