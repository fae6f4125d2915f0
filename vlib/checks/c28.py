"""No access outside the buffers: records decoders and block readers."""
from ..semcheck import *
from ..bounds import Bounds
from .. import facts, layout
LEVEL = 'proof'
RULE = '''Every memory access, copy and stream read of the decoders and block readers that goes to a buffer of known size (array,
allocated block, block handed over by GDAL, vector of a given length) is compared with that size: the conditions that dominate it, the
trip counts and proposed-and-checked loop invariants must leave no room for an offset below zero or beyond the end
(Fourier-Motzkin).  Where values of the inputs are found that satisfy the whole path of a first pass and lead outside, the check
reports a violation with them.'''
ASSUME = ['files are smaller than 256 GB', 'operator new gives the size it is asked for', 'GDAL hands a buffer of one block to IReadBlock']
TRUST = ['block and record sizes in vlib/checks/c28.py', 'library calls write what they are documented to']
DECODERS = [
    # (functions kept apart, functions analysed, what)
    (r'^(MSG_header::read_from|MSG_data::read_from|MSG_data_image_encoded::decode)', r'^(MSG_header|MSG_data)::read_from\(|^MSG_data_image_encoded::decode\('),
    (r'^(MSG_native.*::|operator>>|Hri|HRI_.*::|operator<<)', r'^MSG_native_(header|trailer|line)::read|^MSG_native::read|^Hri.*::readfrom\(|^HRI_\w+::readfrom\('),
]
GDT = {1: 1, 2: 2, 3: 2, 4: 4, 5: 4, 6: 4, 7: 8, 8: 4, 9: 8, 10: 8, 11: 16, 14: 1}


def tell(ctx, fn, key, B, only=None):
    """one obligation per function for the accesses that are inside, one for each that is not"""
    good, done = 0, set()
    for b, i, what, base, off, ln, size, r, d in B.check(only):
        if r is True:
            good += 1
            continue
        k = (base.key, fn.where(i), r)
        if k in done:
            continue
        done.add(k)
        t = '%s %s bytes at %s of %s, which has %s' % (what, show(ln), show(off), base.key, show(size))
        if r is False:
            ctx.violation('%s/%s/%d' % (key, what, len(done)), t + (', for ' + d if d else ''), fn.where(i))
        else:
            ctx.undecided('%s/%s/%d' % (key, what, len(done)), '%s (%s) at %s' % (t[:200], d, fn.where(i)))
    if good:
        ctx.good(key, '%d accesses inside their buffers' % good)
    elif not done:
        ctx.undecided(key, 'no access to a buffer of known size')


def run(ctx):
    for keep, pat in DECODERS:
        prog = layout.Program(facts.dump('sem', 'all', keep))
        fs = sorted((f for f in prog.fns.values() if re.search(pat, f.j['dem'])), key=lambda f: f.j['dem'])
        for fn in fs:
            ctx.part(fn.j['dem'].split('(')[0], decoder, ctx, prog, fn)
    prog = program()
    for fn in sorted(find(prog, r'RasterBand::IReadBlock\('), key=lambda f: f.j['dem']):
        ctx.part(fn.j['dem'].split('(')[0], block, ctx, prog, fn)
    ctx.part('tables', tables, ctx)
    ctx.part('XRITRasterBand', xrit, ctx, prog)
    ctx.part('DataAccess::line_read', line, ctx)


# functions whose callers may pass any number
OPEN = r'^(msat::facts::|MSG_data_RadiometricProc::get_|HRI_image::get_|HRI_subframe_keyslot::|MSG_native::(data|lines|pixels|pgmdump)\(|char msat::str::)'


def tables(ctx):
    """constant tables and members that are arrays, in every function"""
    prog = layout.Program(facts.dump('sem', 'all', '.'))
    for fn in sorted(prog.fns.values(), key=lambda f: f.j['dem']):
        if fn.j['file'].startswith('msat/utils/') and '/subprocess' in fn.j['file']:
            continue
        ctx.part('tables/' + fn.j['dem'].split('(')[0], table, ctx, prog, fn)


def table(ctx, prog, fn):
    B = Bounds(prog, fn)
    good, done = 0, set()
    key = 'tables/' + fn.j['dem'].split('(')[0]
    for b, i, what, base, off, ln, size, r, d in B.tables():
        if r is True:
            good += 1
            continue
        k = (base, fn.where(i), r)
        if k in done or not re.search(OPEN, fn.j['dem']) and any(re.match(r'[pi]\d+$', a) for a in walk_atoms(off)):
            continue        # as far as its callers keep to its range
        done.add(k)
        t = '%s %s bytes at %s of %s, which has %s' % (what, show(ln), show(off), base, show(size))
        if r is False:
            ctx.violation('%s/%d' % (key, len(done)), t + ', for ' + d, fn.where(i))
        else:
            ctx.undecided('%s/%d' % (key, len(done)), t[:200])
    if good or done:
        ctx.fn(fn)
    if good:
        ctx.good(key, '%d accesses inside their tables' % good)


def decoder(ctx, prog, fn):
    ctx.fn(fn)
    rng = {'p%d.data_field_length' % k: (0, 2 ** 41) for k in range(5)}
    B = Bounds(prog, fn, rng=rng)
    tell(ctx, fn, fn.j['dem'].split('(')[0], B)
    counts(ctx, prog, fn, B)


def counts(ctx, prog, fn, B):
    """a decoded image has as many samples as it says"""
    d, n = [(member_offset(prog, 'MSG_data_image', m) or (None,))[:2] for m in ('data', 'len')]
    if d[0] is None or n[0] is None:
        return
    ev, ptr, num = B.ev, {}, {}
    for b in fn.rpo():
        for i in fn.blocks[b]['insts']:
            if i['op'] != 'store' or i['sz'] != 8:
                continue
            p = ev.val(i['p'])
            if not isinstance(p, Poly):
                continue
            for (o, sz), into in ((d, ptr), (n, num)):
                q = padd(p, C(o), -1)
                if not isinstance(q, Poly) or len(q.t) != 1 or not re.match(r'new:|p\d+$|\*?p\d', q.key):
                    continue
                into.setdefault(q.key, []).append((b, i, ev.val(i['v'] if 'v' in i else i['args'][0])))
    k = 0
    for base, ps in ptr.items():
        for b, i, v in ps:
            at = [a for a in v.atoms() if a.key == v.key] if isinstance(v, Poly) else []
            size = B.size_of(at[0]) if at else None
            if size is None:
                continue
            for b2, i2, x in num.get(base, []):
                if b2 not in ev.dom[b] and b not in ev.dom[b2]:
                    continue
                k += 1
                key = '%s/samples/%d' % (fn.j['dem'].split('(')[0], k)
                r, why = B.inside(b if b2 in ev.dom[b] else b2, C(0), dmul(x, C(2)), size)
                t = '%s samples in %s bytes' % (show(x), show(size))
                if r:
                    ctx.good(key, t)
                elif r is False:
                    ctx.violation(key, t + ', for ' + why, fn.where(i2))
                else:
                    ctx.undecided(key, t + ' (%s)' % why)


# ---------------------------------------------------------------- block readers
def vectors(ev):
    """key of the storage of a local vector -> its size in bytes, when it gets one once"""
    out, n = {}, {}
    for b in ev.fn.rpo():
        for i in ev.fn.blocks[b]['insts']:
            if i['op'] not in ('call', 'invoke') or not i.get('args'):
                continue
            m = re.match(r'std::vector<([\w ]+), .*::(vector|resize|assign|push_back|reserve|emplace_back|operator=|swap|insert|clear)\((unsigned long)?', i.get('dem') or '')
            if not m:
                continue
            o = ev.val(i['args'][0])
            k = 'vec{%s}' % o.key
            n[k] = n.get(k, 0) + (m.group(2) != 'reserve')
            w = {'double': 8, 'float': 4, 'unsigned short': 2, 'short': 2, 'int': 4, 'unsigned int': 4, 'unsigned char': 1, 'char': 1, 'long': 8, 'unsigned long': 8}.get(m.group(1))
            if w and m.group(3) and m.group(2) in ('vector', 'resize', 'assign'):
                out[k] = dmul(ev.val(i['args'][1]), C(w))
    return {k: v for k, v in out.items() if n[k] == 1}


def raster_io(ev, i):
    a = [ev.val(x) for x in i['args']]
    a = a if 'GDALRasterBand::' in i.get('dem', '') or 'vcall' in ev.cname(i) else a
    if len(a) < 12:
        return
    t = a[9].const() if isinstance(a[9], Poly) else None
    if t in GDT and a[10] == C(0) and a[11] == C(0):
        yield a[6], dmul(dmul(a[7], a[8]), C(GDT[t])), 'reads into'


def effects(elem):
    def line_read(ev, i):
        yield ev.val(i['args'][2]), dmul(f('this.xds.da.columns', True), C(2)), 'reads a line into'

    def read_block(ev, i):
        yield ev.val(i['args'][3]), dmul(f('this.nBlockXSize', True) * f('this.nBlockYSize', True), C(elem)), 'reads a block into'

    def values(ev, i):
        b = ev.fn.blk['%%%d' % i['id']] if 'id' in i else next(b for b in ev.fn.rpo() if i in ev.fn.blocks[b]['insts'])
        n = ev.memval(ev.val(i['args'][3]), 8, 'i64', b, ev.fn.blocks[b]['insts'].index(i))
        if isinstance(n, Poly) and not any(a.opaque for a in n.atoms()):
            yield ev.val(i['args'][2]), dmul(n, C(8)), 'reads values into'

    def compute(ev, i):
        for k in (5, 6):
            yield ev.val(i['args'][k]), dmul(dmul(ev.val(i['args'][3]), ev.val(i['args'][4])), C(8)), 'computes coordinates into'
    return {r'RasterBand::RasterIO\(': raster_io, r'DataAccess::line_read\(': line_read, r'RasterBand::ReadBlock\(': read_block,
            r'PixelToLatlon::compute\(': compute, r'Grib::get_double_array\(': values}


def data_type(prog, cls, depth=0):
    """declared type of the band: the constant the constructor or init() leaves in eDataType"""
    s = cls.split('::')[-1]
    for fn in find(prog, r'%s::(%s|init)\(' % (re.escape(cls), s)):
        v = field_at_exit(prog, Ev(prog, fn), 'eDataType', t='i32')
        if isinstance(v, Poly):
            if v.const() is not None:
                return int(v.const())
            m = re.match(r'out\((\w+RasterBand),arg0,', v.key)
            if m and depth < 3:
                return data_type(prog, cls.rsplit('::', 1)[0] + '::' + m.group(1), depth + 1)
    return None


def block(ctx, prog, fn):
    ctx.fn(fn)
    cls = fn.j['cls']
    ev = Ev(prog, fn)
    key = fn.j['dem'].split('(')[0]
    n = f('this.nBlockXSize', True) * f('this.nBlockYSize', True)
    sizes = vectors(ev)
    if cls.endswith('ProxyRasterBand'):
        return
    if cls.endswith('XRITRasterBand'):
        w = ite(truth_of(f('this.linear', True)), C(2), C(4))
        n = f('this.nBlockXSize', True)
        sizes[ev.val('a3').key] = dmul(n, w)
        sizes['this.calibration'] = dmul(f('this.calibration_size', True), C(4))
    else:
        t = data_type(prog, cls)
        if t not in GDT:
            return ctx.undecided(key, 'declared type not known')
        if cls.endswith('GRIBRasterBand'):
            n = f('this.nRasterXSize', True) * f('this.nRasterYSize', True)     # one block
        sizes[ev.val('a3').key] = dmul(n, C(GDT[t]))
    B = Bounds(prog, fn, sizes=sizes, effects=effects(2), positive=('this.nBlockXSize', 'this.nBlockYSize', 'this.xds.da.columns'))
    tell(ctx, fn, key, B)


def truth_of(v):
    return dnot(deq(dmod(v, 2), C(0)))


class Only:
    """a context that takes only some of the obligations"""
    def __init__(self, ctx, keys, to):
        self.ctx, self.keys, self.to = ctx, keys, to

    def __getattr__(self, n):
        g = getattr(self.ctx, n)
        if n in ('good', 'violation', 'undecided'):
            return lambda key, *a, **k: g(self.to + key, *a, **k) if key in self.keys else None
        return g


def xrit(ctx, prog):
    """the table of calibrated values has the size that it is read with, the block is a line of the declared type"""
    x = one(ctx, prog, r'XRITRasterBand::init\(', 'XRITRasterBand')
    if not x:
        return
    ev = Ev(prog, x)
    ctx.fn(x)
    lin = field_at_exit(prog, ev, 'linear', t='i8')
    if lin is None or lin is BOT:
        return ctx.undecided('XRITRasterBand/type', 'no such member')
    oblige(ctx, 'XRITRasterBand/type', field_at_exit(prog, ev, 'eDataType', t='i32'), ite(truth_of(lin), C(2), C(6)), fn=x, text='declared type')
    oblige(ctx, 'XRITRasterBand/lines of a block', field_at_exit(prog, ev, 'nBlockYSize', t='i32'), C(1), fn=x, text='lines of a block')
    cal = ev.calls(r'::get_calibration\(')
    if len(cal) != 1:
        return ctx.undecided('XRITRasterBand/table', 'not one table')
    v, i = cal[0]
    u = ev.under(x.blk[v])
    n = P(atom('shl', C(1), ev.val(i['args'][2]), integer=True))
    oblige(ctx, 'XRITRasterBand/table', field_at_exit(prog, ev, 'calibration_size', t='i64'), n, given=u, fn=x, text='entries of the table of calibrated values')


def line(ctx):
    from . import c08
    prog = program()
    for x in find(prog, r'DataAccess::line_read\('):
        ctx.fn(x)
        ev = Ev(prog, x)
        out = ev.val('a2')
        B = Bounds(prog, x, sizes={out.key: dmul(f('this.columns', True), C(2))}, positive=('this.columns', 'this.seglines'))
        tell(ctx, x, 'DataAccess::line_read', B, only=lambda a: a.key == out.key)
    c08.run(Only(ctx, ('segment/samples', 'segment/room', 'scan/room'), 'DataAccess/'))
