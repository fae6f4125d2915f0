from ..semcheck import *
from .c06 import xrit_pixels
from ..sym import feasible
from ..cache import Cache
LEVEL = 'proof'
RULE = '''Value numbering of the line access of segmented images: where the decision diagrams of the line start, of the segment and
line that are read, of the geometry members taken from headers and epilogue, and of element n of the line and block buffers
differ from those of the image geometry, the check reports a violation.'''
ASSUME = ['line and column counts are below 2^63', 'a window of the image is no taller than the reference grid']
TRUST = ['the line geometry in vlib/checks/c08.py (CGMS LRIT/HRIT, MSG level 1.5 HRV coverage)']


def run(ctx):
    prog = program()
    line_start(ctx, prog)
    line_read(ctx, prog)
    members(ctx, prog)
    segment(ctx, prog)
    blocks(ctx, prog)


def line_start(ctx, prog):
    x = one(ctx, prog, r'DataAccess::line_start\(', 'line_start')
    if x is None:
        return
    ev = Ev(prog, x)
    line = ev.val('a1')
    t = lambda n: f('this.' + n, True)
    # lines count from 1 at the south in the reference grid
    L = t('MaxLineActual') - line
    inside = dlt(line, t('MaxLineActual'), True)
    lo = dand(dnot(dlt(L, t('LowerSouthLineActual'), True)), dnot(dlt(t('LowerNorthLineActual'), L, True)))
    up = dand(dnot(dlt(L, t('UpperSouthLineActual'), True)), dnot(dlt(t('UpperNorthLineActual'), L, True)))
    want = ite(truth(t('hrv')), ite(inside, ite(lo, 11136 - t('LowerWestColumnActual'), ite(up, 11136 - t('UpperWestColumnActual'), C(0))), C(0)), t('WestColumnActual') - 1)
    # the windows do not overlap, and the upper one is the northern one
    south = dor(dnot(dlt(t('LowerNorthLineActual'), L, True)), dlt(L, t('LowerSouthLineActual'), True))
    given = dand(dnot(dlt(line, C(0), True)), dnot(dand(up, south)))
    oblige(ctx, 'line_start', ev.ret(), want, fn=x, text='first column of a line', given=given)


def line_read(ctx, prog):
    x = one(ctx, prog, r'DataAccess::line_read\(', 'line_read')
    if x is None:
        return
    ev = Ev(prog, x)
    t = lambda n: f('this.' + n, True)
    line, n, cols, sl = ev.val('a1'), f('n', True), t('columns'), t('seglines')
    buf = ev.val('a2')
    inside = dand(dnot(dlt(n, C(0), True)), dlt(n, cols, True))
    for hrv in (True, False):
        L = t('MaxLineActual') - line - 1 if hrv else 3712 - line - t('SouthLineActual')
        seg = P(atom('sdiv', L, sl, integer=True))
        d = P(atom('call', 'segment', f('this'), seg))
        missing = deq(d, C(0))
        row = (L - seg * sl) * cols
        data = lambda k: elem(d.key + '.image.data[%s]', 2 * (row + k))
        for swap in (True, False):
            asm = {**flags(truth(t('hrv')), hrv), **flags(truth(t('swapX')), swap)}
            with assuming(asm):
                e = Ev(prog, x)
                g = e.final(buf, 2, n, 'i16')
                if not isinstance(g, Poly) or not g.opaque:
                    v = ite(missing, C(0), data(cols - 1 - n) if swap else data(n))
                    oblige(ctx, 'line_read/%s%s' % ('HRV' if hrv else 'VIS-IR', ' mirrored' if swap else ''), g, ite(inside, v, elem(buf.key + '[%s]', 2 * n)), fn=x, text='sample n of a line')
                else:
                    ctx.undecided('line_read/%s' % hrv, 'content of the buffer not readable')


def members(ctx, prog):
    x = one(ctx, prog, r'DataAccess::scanSegment\(', 'scanSegment')
    if x:
        ev = Ev(prog, x)
        h = lambda n: f('p1.' + n, True)
        cols, lines = h('image_structure.number_of_columns'), h('image_structure.number_of_lines')
        for name, want, t in (('seglines', lines, 'i64'), ('columns', cols, 'i64'), ('npixperseg', cols * lines, 'i64'),
                              ('lines', lines * h('segment_id.planned_end_segment_sequence_number'), 'i64'),
                              ('hrv', ite(deq(h('segment_id.spectral_channel_id'), C(12)), C(1), C(0)), 'i8'),
                              ('swapX', ite(dlt(h('image_navigation.column_scaling_factor'), C(0), True), C(1), C(0)), 'i8'),
                              ('swapY', ite(dlt(h('image_navigation.line_scaling_factor'), C(0), True), C(1), C(0)), 'i8')):
            field_obligation(ctx, prog, ev, name, want, key='scanSegment/' + name, t=t)
    x = one(ctx, prog, r'DataAccess::scan\(', 'scan')
    if x:
        ev = Ev(prog, x)
        hrv = field_at_exit(prog, ev, 'hrv', t='i8')
        if hrv is None:
            return ctx.undecided('scan/hrv', 'no member hrv')
        hrv = truth(hrv)
        cov = lambda n: f('p3.epilogue.product_stats.ActualL15CoverageHRV.' + n, True)
        for side in ('Lower', 'Upper'):
            for w in ('EastColumn', 'WestColumn', 'NorthLine', 'SouthLine'):
                n = side + w + 'Actual'
                g = field_at_exit(prog, ev, n, t='i64')
                if g is None:
                    ctx.undecided('scan/' + n, 'no such member')
                else:
                    oblige(ctx, 'scan/' + n, g, cov(n), fn=x, text='coverage of an HRV image', given=hrv)
        a, b = cov('LowerNorthLineActual'), cov('UpperNorthLineActual')
        pos = dand(dnot(dlt(a, C(0), True)), dnot(dlt(b, C(0), True)))
        g = field_at_exit(prog, ev, 'MaxLineActual', t='i64')
        if g is not None:
            oblige(ctx, 'scan/MaxLineActual', g, ite(dlt(a, b, True), b, a), fn=x, text='northernmost line', given=dand(hrv, pos))
        for n in ('WestColumnActual', 'SouthLineActual'):
            g = field_at_exit(prog, ev, n, t='i64')
            if g is None:
                ctx.undecided('scan/' + n, 'no such member')
            else:
                oblige(ctx, 'scan/' + n, g, C(1), fn=x, text='origin of an image that is not HRV', given=dnot(hrv))


def argmem(ev, call, k, off, sz, t):
    """content of what argument k points at, when the call is made"""
    key = '%%%d' % call['id']
    b = ev.fn.blk[key]
    ix = next(n for n, y in enumerate(ev.fn.blocks[b]['insts']) if y is call)
    p = ev.under_known(ev.val(call['args'][k]), b)
    return ev.memval(p + off, sz, t, b, ix) if isinstance(p, Poly) else p


def string_source(ev, call, k):
    """the string object an argument is a copy of"""
    v = ev.val(call['args'][k])
    if isinstance(v, Poly) and v.key.startswith('local:'):
        cs = [i for b, i in ev.calls(r'basic_string<.*>::basic_string') if ev.val(i['args'][0]).key == v.key and len(i['args']) > 1]
        if len(cs) != 1:
            return None
        v = ev.val(cs[0]['args'][1])
    a = list(v.atoms()) if isinstance(v, Poly) else []
    if len(a) == 1 and a[0].kind == 'call' and a[0].a[0] in ('c_str', 'data') and len(a[0].a) == 2:
        v = a[0].a[1]
    return v


def segment(ctx, prog):
    x = one(ctx, prog, r'DataAccess::segment\(', 'segment')
    if x is None:
        return
    ev = Ev(prog, x)
    idx = ev.val('a1')
    mo = member_offset(prog, 'msat::xrit::DataAccess', 'segnames')
    so = member_offset(prog, 'msat::xrit::DataAccess::scache', 'segno')
    po = member_offset(prog, 'msat::xrit::DataAccess::scache', 'segment')
    if not (mo and so and po):
        return ctx.undecided('segment', 'no segnames or scache members')
    names = f('vec{this.segnames}')
    rd = ev.calls(r'DataAccess::read_file\(')
    for b, i in rd:
        v = string_source(ev, i, 1)
        if v is None:
            ctx.undecided('segment/file', 'the name of the file is not one string')
        else:
            oblige(ctx, 'segment/file', v, names + 32 * idx, where=x.where(i), text='the file of segment idx', fn=x)
    if len(rd) != 1:
        ctx.undecided('segment/file', 'not one read')
    ps = ev.calls(r'deque<.*scache.*>::(push_front|push_back)\(')
    for b, i in ps:
        no, seg = argmem(ev, i, 1, so[0], 8, 'i64'), argmem(ev, i, 1, po[0], 8, 'ptr')
        if len(rd) == 1 and no.key == idx.key:
            data = ev.val(rd[0][1]['args'][3])
            oblige(ctx, 'segment/cache entry', seg, data, where=x.where(i), text='the segment entered in the cache under the number that was read', fn=x)
        elif isinstance(no, Poly) and isinstance(seg, Poly) and not no.opaque and not seg.opaque:
            # moved entry: both members come from the same entry
            a, s = no.key, seg.key
            m = re.match(r'(.*)\[%d\]$' % so[0], a)
            if m and s in ('*' + m.group(1), '%s[%d]' % (m.group(1), po[0])):
                ctx.good('segment/cache entry', 'an entry is moved whole')
            elif m:
                ctx.undecided('segment/cache entry', 'members of different entries: %s, %s' % (a, s))
            else:
                oblige(ctx, 'segment/cache number', no, idx, where=x.where(i), text='the number entered in the cache', fn=x)
        else:
            ctx.undecided('segment/cache entry', 'not readable')
    if not ps:
        ctx.undecided('segment/cache entry', 'no entry is made directly')
    ctx.part('segment/returned', cached, ctx, prog, ev, so, po, rd[0][1] if len(rd) == 1 else None)
    # the number of lines and samples that a segment must have
    y = one(ctx, prog, r'DataAccess::scan\(', 'scan')
    if y:
        e2 = Ev(prog, y)
        n = 0
        for b, i in e2.calls(r'vector<.*basic_string.*>::operator\[\]\('):
            a = e2.val(i['args'][0])
            if not (isinstance(a, Poly) and padd(a, e2.val('a0') + mo[0], -1).const() == 0):
                continue
            n += 1
            seq = f('p4.segment_id.sequence_number', True)
            ix_ = e2.val(i['args'][1])
            oblige(ctx, 'scan/segment number', ix_, seq - 1, where=y.where(i), text='where the name of a segment is kept', fn=y,
                   given=dand(dlt(C(0), seq, True), dlt(seq, C(65536), True)))
        if not n:
            ctx.undecided('scan/segment number', 'no name is kept directly')
        ctx.part('scan/header', headers, ctx, e2, y, e2.val('a0') + mo[0])
        ctx.part('scan/room', room, ctx, e2, y, e2.val('a0') + mo[0], 'scan/room')
    ctx.part('segment/room', room, ctx, ev, x, ev.val('a0') + mo[0], 'segment/room')
    ctx.part('segment/samples', samples, ctx, prog, ev, x, ps, rd[0][1] if len(rd) == 1 else None)


def headers(ctx, ev, x, names):
    """the number under which a name is kept comes from the header of that very file"""
    at = {padd(names, 32 * ev.val(i['args'][1])).key: i for v, i in ev.calls(r'vector<.*basic_string.*>::operator\[\]\(') if len(i['args']) > 1 and ev.val(i['args'][0]).key == names.key}
    mine = {'%%%d' % i['id'] for i in at.values()}
    rd = {}
    for v, i in ev.calls(r'DataAccess::read_file\('):
        if len(i['args']) > 2 and ev.val(i['args'][2]).key == 'p4':
            rd.setdefault(x.blk[v], []).append(i)
    if not rd:
        return ctx.undecided('scan/header', 'headers are read elsewhere')
    seen = 0
    for v, i in ev.calls(r'basic_string<.*>::operator='):
        if i['args'][0] not in mine:
            continue
        seen += 1
        src = ev.val(i['args'][1]).key
        b = x.blk[v]
        # from the assignment back to the last header that was read on every way
        todo, done, last = [(b, x.blocks[b]['insts'].index(i))], set(), []
        while todo:
            c, n = todo.pop()
            ins = x.blocks[c]['insts'] if n is None else x.blocks[c]['insts'][:n]
            hit = next((j for j in reversed(ins) if j in rd.get(c, [])), None)
            if hit is not None:
                last.append(hit)
            elif c == x.entry:
                last.append(None)
            else:
                for p in x.pred[c]:
                    if p not in done and p in ev.dom:
                        done.add(p)
                        todo.append((p, None))
            # a way around the loop: another file
        hs = ev.inner_loops(b)
        bad = [j for j in last if j is None]
        same = [j for j in last if j is not None and ev.val(j['args'][1]).key == src]
        if bad:
            ctx.violation('scan/header', 'a name is kept before any header is read', x.where(i))
        elif len(same) != len(last):
            ctx.undecided('scan/header', 'name and header from values that are not known to be the same')
        elif hs and around(ev, x, hs[-1], b, rd):
            ctx.violation('scan/header', 'a name is kept under the number in the header of another file: the loop can come to it without reading a header', x.where(i))
        else:
            ctx.good('scan/header', 'the header read last is that of the file')
    if not seen:
        ctx.undecided('scan/header', 'names are kept elsewhere')


def around(ev, x, h, b, stop):
    """b can be reached from the loop header h without passing a block in stop"""
    todo, done = [h], set()
    while todo:
        c = todo.pop()
        if c in done or c not in ev.loops[h]:
            continue
        done.add(c)
        if c in stop:
            continue
        if c == b:
            return True
        todo += [s for s in x.succ[c] if s != h]
    return False


def room(ctx, ev, x, vec, key):
    """every element of the list of names that is touched exists: on every way to it, it was found below the size, or the list was
    made long enough"""
    size = P(atom('call', 'size', vec, integer=True))
    seen = 0
    for v, i in ev.calls(r'vector<.*basic_string.*>::operator\[\]\('):
        if ev.val(i['args'][0]).key != vec.key:
            continue
        seen += 1
        idx = ev.val(i['args'][1])
        b = x.blk[v]
        seq = f('p4.segment_id.sequence_number', True)
        given = dand(ev.under(b), dand(dnot(dlt(seq, C(0), True)), dlt(seq, C(65536), True)))
        r = compare(dand(given, dlt(idx, C(0), True)), FALSE)
        if r.diff:
            ctx.violation(key, 'element %s of the list of segments is touched though the number may be negative' % idx.key[:60], x.where(i))
            continue
        mp = {}
        for a in list(idx.atoms()):
            if a.kind == 'mod' and isinstance(a.a[0], Poly) and getattr(a.a[1], 'const', lambda: a.a[1])() == 2 ** 32:
                q = padd(a.a[0], C(2 ** 32), -1)
                r = compare(dand(given, dor(dlt(q, C(0), True), dnot(dlt(q, C(2 ** 32), True)))), FALSE)
                if r.same and not r.und and not r.diff:
                    mp[a.key] = q
        idx = subst(idx, mp) if mp else idx
        given = dand(dand(given, dnot(dlt(idx, C(0), True))), dnot(dlt(size, C(0), True)))

        def sure(n):
            r = compare(dand(given, dnot(n)), FALSE)
            return bool(r.same) and not r.und and not r.diff, r
        todo, done, bad, und = [(b, x.blocks[b]['insts'].index(i))], set(), [], []
        while todo:
            c, n = todo.pop()
            ins = x.blocks[c]['insts'] if n is None else x.blocks[c]['insts'][:n]
            stop = False
            for j in reversed(ins):
                if j['op'] in ('call', 'invoke') and j.get('args') and ev.val(j['args'][0]).key == vec.key:
                    m = short(j.get('dem') or '')
                    if m == 'resize':
                        k, r = sure(dlt(idx, ev.val(j['args'][1]), True))
                        if not k:
                            (und if r.und else bad).append('the list is resized to %s at %s' % (ev.val(j['args'][1]).key[:60], x.where(j)))
                        stop = True
                        break
                    if m in ('clear', 'pop_back', 'erase', 'assign', 'swap', 'operator=', 'push_back', 'emplace_back', 'insert', 'shrink_to_fit'):
                        if m not in ('push_back', 'emplace_back', 'insert'):
                            und.append('the list is changed by ' + m)
                            stop = True
                            break
            if stop:
                continue
            if c == x.entry:
                bad.append('nothing says that the element exists')
                continue
            for p in x.pred[c]:
                if p not in ev.dom:
                    continue
                t = x.blocks[p]['insts'][-1]
                if t['op'] == 'br' and 'c' in t and t['T'] != t['F']:
                    n_ = ev.val(t['c'], 'i1')
                    n_ = subst(n_, mp) if mp else n_
                    if size.key in walk_atoms(n_):
                        n_ = n_ if t['T'] == c else dnot(n_)
                        r = compare(dand(dand(n_, dand(dnot(dlt(idx, C(0), True)), dnot(dlt(size, C(0), True)))), dnot(dlt(idx, size, True))), FALSE)
                        if r.same and not r.und and not r.diff:
                            continue
                if p not in done:
                    done.add(p)
                    todo.append((p, None))
        if bad:
            ctx.violation(key, 'element %s of the list of segments is touched though it need not exist: %s' % (idx.key[:60], bad[0]), x.where(i))
        elif und:
            ctx.undecided(key, und[0])
        else:
            ctx.good(key, 'element %s exists' % idx.key[:60])
    if not seen:
        ctx.undecided(key, 'the list is not indexed')


def samples(ctx, prog, ev, x, ps, read):
    """what enters the cache has the samples of a whole segment"""
    io, lo, po = member_offset(prog, 'MSG_data', 'image'), member_offset(prog, 'MSG_data_image', 'len'), member_offset(prog, 'msat::xrit::DataAccess::scache', 'segment')
    if not (io and lo and po) or read is None:
        return ctx.undecided('segment/samples', 'not one read, or no such members')
    data = ev.val(read['args'][3]).key
    ends = ('.image.len', '[%d][%d]' % (io[0], lo[0]), '.image[%d]' % lo[0])
    mine = [(v, i) for v, i in ps if argmem(ev, i, 1, po[0], 8, 'ptr').key == data]
    if not mine:
        return ctx.undecided('segment/samples', 'what is read is kept elsewhere')
    whole = f('this.columns', True) * f('this.seglines', True)
    for v, i in mine:
        u = subst(ev.under(x.blk[v]), {'this.npixperseg': whole})
        lens = [a for k, a in walk_atoms(u).items() if k.endswith(ends)]
        if len(lens) > 1:
            ctx.undecided('segment/samples', 'more than one length')
            continue
        if not lens:
            y = find(prog, r'DataAccess::line_read\(')
            e = Ev(prog, y[0]) if len(y) == 1 else None
            if e is None or any(k.endswith(ends) or 'len' in k for c in y[0].rpo() for t in [y[0].blocks[c]['insts'][-1]] if t['op'] == 'br' and 'c' in t for k in walk_atoms(e.val(t['c'], 'i1'))):
                ctx.undecided('segment/samples', 'the number of samples is compared elsewhere')
            else:
                ctx.violation('segment/samples', 'lines are read from a segment whose number of samples was never compared to its lines and columns', x.where(i))
            continue
        n = P(lens[0])
        short_ = dlt(n, whole, True)
        bad = None

        def go(d, tr):
            nonlocal bad
            if bad is not None or not feasible(tr):
                return
            if isinstance(d, Ite):
                own = lens[0].key in walk_atoms(node(d.c, TRUE, FALSE))
                go(d.hi, tr + [(d.c, True)] if own else tr)
                go(d.lo, tr + [(d.c, False)] if own else tr)
            elif d.const() == 1:
                bad = tr
        go(dand(short_, u), [(dlt(f('this.columns', True), C(0), True).c, False), (dlt(f('this.seglines', True), C(0), True).c, False), (dlt(n, C(0), True).c, False)])
        if bad is None:
            ctx.good('segment/samples', 'a segment with less samples is refused')
        else:
            ctx.violation('segment/samples', 'a segment with less samples than its lines and columns is kept, when %s' % '; '.join(('' if v_ else 'not ') + c.key for c, v_ in bad[3:])[:300], x.where(i))


def cached(ctx, prog, ev, so, po, read):
    do = member_offset(prog, 'msat::xrit::DataAccess', 'segcache')
    if not do or read is None:
        return ctx.undecided('segment/returned', 'no cache or no read')
    idx, data = ev.val('a1').key, ev.val(read['args'][3]).key

    def fresh(i):
        a, b = argmem(ev, i, 1, so[0], 8, 'i64'), argmem(ev, i, 1, po[0], 8, 'ptr')
        return isinstance(a, Poly) and isinstance(b, Poly) and a.key == idx and b.key == data
    c = Cache(ev, do[0], so, po, fresh)
    c.isfresh = lambda x: ev.val(x).key == data
    c.run()
    for i in c.bad:
        ctx.violation('segment/returned', 'the segment handed out is not known to be the one asked for on some path through the cache', ev.fn.where(i))
    for i in c.twice[:1]:
        ctx.violation('segment/kept once', 'an entry of the cache is entered again without being taken out', ev.fn.where(i))
    for w in sorted(set(c.open)):
        ctx.undecided('segment/returned', w)
    if c.good and not c.bad and not c.open:
        ctx.good('segment/returned', '%d paths: none, or the entry of the number asked for' % c.good)
    for i, end, nx in c.evicted():
        want = {'front': 'pop_front', 'back': 'pop_back'}[end]
        if nx == {want}:
            ctx.good('segment/evicted', 'what is deleted leaves the cache (%s)' % want)
        elif nx & {'pop_front', 'pop_back', 'return', 'push_front', 'push_back'} and not nx - {'pop_front', 'pop_back', 'return', 'push_front', 'push_back'}:
            ctx.violation('segment/evicted', 'the %s entry is deleted, but what follows is %s' % (end, ', '.join(sorted(nx))), ev.fn.where(i))
        else:
            ctx.undecided('segment/evicted', 'an entry is deleted, then %s' % ', '.join(sorted(nx)))


def blocks(ctx, prog):
    x = one(ctx, prog, r'XRITRasterBand::IReadBlock\(', 'XRITRasterBand/pixels')
    if x:
        xrit_pixels(ctx, prog, x, True)
        ev = Ev(prog, x)
        oblige(ctx, 'XRITRasterBand/other block columns', ev.ret(), C(3), fn=x, text='returned', given=dnot(deq(ev.val('a1'), C(0))))
    x = one(ctx, prog, r'XRITRasterBand::init\(', 'XRITRasterBand')
    if x:
        ev = Ev(prog, x)
        hrv = truth(f('this.xds.da.hrv', True))
        field_obligation(ctx, prog, ev, 'nBlockXSize', ite(hrv, C(11136), C(3712)), t='i32')
        field_obligation(ctx, prog, ev, 'nBlockYSize', C(1), t='i32')
