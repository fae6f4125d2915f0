import re
from .. import laycheck as L, facts, layout
from .. import semcheck as S
LEVEL = 'proof'
RULE = '''Bit-level provenance in the readers of native-format packets and lines: every member of the packet header and
of the line header must hold its bytes, the blocks of a line must be read with their exact sizes into the member
they belong to, and every sample that the unpacker stores must be the ten consecutive bits (most significant first)
at ten times its index.  In the file reader the entry of the main header that reaches each scanned text, the format
of the scan and the member that receives its result; the channel whose list receives each line and how many; and the
place, length and source of the copy that makes up an image.'''
TRUST = ['spec/layout tables, transcribed from the MSG ground segment packet format']


def run(ctx):
    prog = L.program()
    for cls in ('IMPF_Packet_Header', 'MSG_native_lineheader'):
        f = L.reader(prog, cls, 'read_from')
        if f is None:
            raise facts.Broken('reader of %s is gone' % cls)
        L.check_record(ctx, prog, f, cls, L.load_spec(cls))
    root = L.reader(prog, 'MSG_native_line', 'read')
    if root is None:
        raise facts.Broken('MSG_native_line::read is gone')
    fl, bufs = L.compose(ctx, prog, root, {'IMPF_Packet_Header': 0, 'MSG_native_lineheader': 0}, 'native line')
    got = L.read_sizes(fl)
    want = [38, 27]
    for k, w in enumerate(want):
        if k >= len(got) or got[k][0] is None:
            ctx.undecided('native line/block %d' % k, 'not a constant read')
        elif got[k][0] == w:
            ctx.good('native line/block %d' % k, '%d bytes' % w)
        else:
            ctx.violation('native line/block %d' % k, 'reads %d bytes, the header has %d' % (got[k][0], w), got[k][2].where(got[k][1]))
    unpack(ctx, prog)
    native(ctx)


def unpack(ctx, prog):
    fs = prog.find(r'MSG_native_linedata::to_sample\(')
    if not fs:
        raise facts.Broken('MSG_native_linedata::to_sample is gone')
    f = fs[0]
    ctx.fn(f)
    n = 0
    for k, i in f.inst.items():
        if i['op'] != 'store' or i['vt'] != 'i16':
            continue
        n += 1
        base, off, syms = f.addr(i['p'])
        bits = f.bits(i['v'], 16)
        key = 'unpack/sample%d' % (off // 2)
        if any(isinstance(b, tuple) and b[0] != 'src' for b in bits) or all(isinstance(b, int) for b in bits):
            ctx.undecided(key, 'value is not a plain selection of bits')
            continue
        s0 = next(b for b in bits if isinstance(b, tuple))
        # affine relation between the sample address and the source address
        if s0[3] or syms:
            if not (len(s0[3]) == 1 and len(syms) == 1 and s0[3][0][0] == syms[0][0] and s0[3][0][1] * 8 == syms[0][1] * 5):
                if len(s0[3]) == 1 and len(syms) == 1 and s0[3][0][0] == syms[0][0]:
                    ctx.violation(key, 'advances %d input bytes per %d output bytes, expected 5 per 8' % (s0[3][0][1], syms[0][1]), f.where(i))
                else:
                    ctx.undecided(key, 'sample and source do not advance together')
                continue
        pos = off // 2 * 10
        good = all(b == 0 for b in bits[10:])
        for q in range(10):
            p = pos + 9 - q                      # stream position of sample bit q
            good = good and bits[q] == ('src', s0[1], p // 8, s0[3], 7 - p % 8)
        if good:
            ctx.good(key, 'bits %d..%d of the packed group' % (pos, pos + 9))
        else:
            ctx.violation(key, 'sample is built from %s, expected bits %d..%d of the packed group' % (layout.bitstr(bits), pos, pos + 9), f.where(i))
    if not n:
        ctx.undecided('unpack', 'no 16-bit sample is stored')


# entries of the main product header
PLACES = {'headerpos': 8, 'datapos': 9, 'trailerpos': 10}
SIZES = {'numberlines': (44, 46), 'numbercolumns': (45, 47), 'startline': (40, 40), 'endline': (41, 41), 'startcolumn': (42, 42), 'endcolumn': (43, 43)}
HRV = 11


def native(ctx):
    """a native file as a whole: which entries of the main header say what, which line goes to which channel"""
    prog = S.program(r'^MSG_[A-Za-z_0-9]+::~?[A-Za-z_0-9]+\(')
    ob = lambda key, *a, **k: S.oblige(ctx, key, *a, prog=prog, **k)
    ctx.part('native file/read', native_read, ctx, ob, prog)
    ctx.part('native file/image', native_image, ctx, ob, prog)


def members(prog, *names):
    out = {}
    for n in names:
        m = S.member_offset(prog, 'MSG_native', n)
        if m is not None:
            out[n] = m[0]
    return out


def inside(ev, a, off, n):
    d = S.dsum(ev.val(a), S.dmul(S.C(-1), S.f('this'))) if isinstance(a, str) else None
    k = d.const() if isinstance(d, S.Poly) else None
    return k is not None and off <= k < off + n


def native_read(ctx, ob, prog):
    x = S.one(ctx, prog, r'^MSG_native::read\(', 'native file/read')
    if not x:
        return
    ev = S.Ev(prog, x)
    off = members(prog, 'line', 'selected_channel', *PLACES, *SIZES)
    info = S.member_offset(prog, 'MSG_native_header', 'mph_sph_header')
    mi = [m for c in ('MSG_native_mph_sph_header', 'mph_sph_header', 'MSG_MPH_SPH_header') for m in [S.member_offset(prog, c, 'mphinfo')] if m]
    this = S.f('this')

    def place(v):
        d = S.dsum(v, S.dmul(S.C(-1), this))
        k = d.const() if isinstance(d, S.Poly) else None
        return int(k) if k is not None else None
    scans = {}
    for i in x.order:
        if i['op'] in ('call', 'invoke') and re.search('sscanf', i.get('callee') or '') and len(i['args']) >= 3:
            s = x.inst.get(i['args'][0]) if isinstance(i['args'][0], str) else None
            p = place(ev.val(s['args'][0])) if s and 'c_str' in (s.get('dem') or '') else None
            b = x.blk['%%%d' % i['id']]
            scans.setdefault(str(ev.val(i['args'][2]).key), []).append((b, i, (p - (mi[0][0] if mi else 0)) // 32 if p is not None else None))

    def entry(v, b, depth=4):
        """number of the entry of the main header that a value was read from"""
        for n in range(4):
            i = x.inst.get(v) if isinstance(v, str) else None
            if i is None:
                return None
            if i['op'] in ('trunc', 'sext', 'zext'):
                v = i['a'][0]
                continue
            if i['op'] == 'phi':
                l = {entry(w, p, depth - 1) for w, p in i['in'] if w != v} if depth else {None}
                return l.pop() if len(l) == 1 else None
            if i['op'] != 'load':
                return None
            at = x.blk[v]
            l = [(c, j, k) for c, j, k in scans.get(str(ev.val(i['p']).key), []) if c != at and c in x.dominators()[at] or c == at and x.blocks[c]['insts'].index(j) < x.blocks[at]['insts'].index(i)]
            return max(l, key=lambda e: (len(x.dominators()[e[0]]), x.blocks[e[0]]['insts'].index(e[1])))[2] if l else None
        return None

    def say(key, got, want, i):
        if got is None:
            ctx.undecided(key, 'not taken from an entry of the main header')
        elif got == want:
            ctx.good(key, 'entry %d of the main header' % want)
        else:
            ctx.violation(key, 'taken from entry %d of the main header instead of %d' % (got, want), x.where(i))
    for n, want in PLACES.items():
        l = scans.get(str(S.dsum(this, S.C(off[n])).key)) if n in off else None
        if l and len(l) == 1:
            say('native file/' + n, l[0][2], want, l[0][1])
        else:
            ctx.undecided('native file/' + n, 'not read once')
    done = set()
    for b, blk in x.blocks.items():
        for i in blk['insts']:
            if i['op'] != 'store':
                continue
            p = place(ev.val(i['p'])) if isinstance(i['p'], str) else None
            if p is None:
                continue
            for n, want in SIZES.items():
                if n in off and off[n] <= p < off[n] + 48 and isinstance(i['v'], str):
                    c = (p - off[n]) // 4
                    done.add((n, c))
                    say('native file/%s[%d]' % (n, c), entry(i['v'], b), want[c == HRV], i)
            if 'selected_channel' in off and off['selected_channel'] <= p < off['selected_channel'] + 12 and i['v'] in (1, {'i': 1, 'w': 8}):
                c = p - off['selected_channel']
                done.add(('selected', c))
                want = S.deq(S.P(S.atom('out', '__isoc23_sscanf', 'arg2', S.C(c), integer=True)), S.C(88))
                ob('native file/selected[%d]' % c, ev.under(b), want, fn=x, where=x.where(i), text='channel %d is selected' % c)
    # the lines of the channels follow one another, three of the high resolution one for each of the others
    puts, reads = {}, 0
    order = []
    for i in x.order:
        if i['op'] in ('call', 'invoke') and re.search(r'list<MSG_native_line.*::(push_back|emplace_back)', i.get('dem') or ''):
            p = place(ev.val(i['args'][0]))
            puts.setdefault((p - off['line']) // 24 if p is not None else None, []).append(i)
            order.append(('put', i))
        elif i['op'] in ('call', 'invoke') and re.match(r'MSG_native_line::read\(', i.get('dem') or ''):
            order.append(('read', i))
            if place(ev.val(i['args'][1])) is None:
                ctx.undecided('native file/stream', 'not the stream of the file')
    if None in puts or set(puts) != set(range(12)):
        return ctx.undecided('native file/lines', 'the channels are not told apart')
    for c, l in puts.items():
        want = 3 if c == HRV else 1
        key = 'native file/lines of channel %d' % c
        (ctx.good(key, '%d a time' % want) if len(l) == want else ctx.violation(key, '%d lines a time instead of %d' % (len(l), want), x.where(l[0])) if len(order) == 28 or len(l) != want and all(len(ev.inner_loops(x.blk['%%%d' % i['id']])) == 1 for i in l) else ctx.undecided(key, 'read in a loop'))
        for i in l:
            b = x.blk['%%%d' % i['id']]
            before = [j for k, j in order if k == 'read' and x.blk['%%%d' % j['id']] in x.dominators()[b] and len(ev.inner_loops(x.blk['%%%d' % j['id']])) == len(ev.inner_loops(b))]
            (ctx.good if before else ctx.undecided)(key + '/read', 'a line is read before it is kept' if before else 'read elsewhere')


def native_image(ctx, ob, prog):
    for n, m in (('lines', 'numberlines'), ('pixels', 'numbercolumns')):
        x = S.one(ctx, prog, r'^MSG_native::%s\(' % n, 'native file/' + n)
        if x:
            ev = S.Ev(prog, x)
            c = ev.val('a1')
            want = S.ite(S.dlt(c, S.C(12), True), S.ite(S.dlt(c, S.C(0), True), S.C(0), S.f('this.%s[%s]' % (m, c), True)), S.C(0))
            ob('native file/' + n, ev.ret(), want, fn=x, text=n)
    x = S.one(ctx, prog, r'^MSG_native::close\(', 'native file/close')
    if x:
        ev = S.Ev(prog, x)
        for n, o in members(prog, 'selected_channel', 'numberlines', 'numbercolumns').items():
            z, t = (1, 'i8') if n == 'selected_channel' else (4, 'i32')
            for c in range(12):
                got = ev.exit_mem(ev.val('a0') + o + z * c, z, t)
                if ev.loops and not (isinstance(got, S.Poly) and got.key == S.C(0).key):
                    ctx.undecided('native file/close/%s[%d]' % (n, c), 'reset in a loop')
                else:
                    ob('native file/close/%s[%d]' % (n, c), got, S.C(0), fn=x, text='%s of channel %d after closing' % (n, c))
        off = members(prog, 'line').get('line')
        for c in range(12) if off is not None else ():
            key = 'native file/close/lines of channel %d' % c
            got = ev.exit_mem(ev.val('a0') + off + 24 * c + 16, 8, 'i64')
            other = [i for i in x.order if i['op'] in ('call', 'invoke') and not re.search('_M_clear', i.get('dem') or '') and any(inside(ev, a, off, 288) for a in i['args'])]
            if isinstance(got, S.Poly) and got.key == S.C(0).key:
                ctx.good(key, 'none is left')
            elif ev.loops or other or not isinstance(got, S.Poly):
                # (in a loop, by a helper, or only when there can be any)
                ctx.undecided(key, 'not simply dropped')
            else:
                ob(key, got, S.C(0), fn=x, text='lines of channel %d left after closing' % c)
    x = S.one(ctx, prog, r'^MSG_native::data\(', 'native file/data')
    if not x:
        return
    ev = S.Ev(prog, x)
    cp = [i for i in x.order if i['op'] == 'call' and re.match('llvm.memcpy', i.get('callee') or '')]
    if len(cp) != 1:
        return ctx.undecided('native file/data', 'not one copy')
    i = cp[0]
    px = S.f('this.numbercolumns[%s]' % ev.val('a1'), True)
    new = [j for j in x.order if j['op'] in ('call', 'invoke') and (j.get('callee') or '') == '_Znam']
    h = ev.inner_loops(x.blk['%%%d' % i['id']])
    if len(new) != 1 or not h:
        return ctx.undecided('native file/data', 'not one image')
    ob('native file/data/place', ev.val(i['args'][0]), S.dsum(ev.val('%%%d' % new[0]['id']), S.dmul(S.C(2), S.dmul(ev.k(h[-1]), px))), fn=x, where=x.where(i), text='place of a line')
    ns = S.P(S.atom('out', 'to_sample', 'arg2', S.C(0), integer=True))
    ob('native file/data/size', ev.val(i['args'][2]), S.ite(S.dlt(ns, px, True), S.dmul(S.C(2), ns), S.dmul(S.C(2), px)), fn=x, where=x.where(i), text='samples of a line')
