"""C21: OpenMTP-IDS files: what is written is what is read"""
from ..semcheck import *
from ..layout import Flat
LEVEL = 'proof'
RULE = '''For every record of the OpenMTP-IDS format, the bytes that its writer puts into the stream and the bytes that its reader takes
are followed to the members they come from and go to: at every position of the format stands the byte of the member that the format's
table names, the reader gives that byte back to the same byte of the same member, nested records, pixels and padding follow in the same
order and number, and the length of a record is the length that its header states.'''
ASSUME = ['values fit the 16 bits of their field', 'counts in the headers agree with the number of records, scan lines and pixels held', 'the stream does not fail']
TRUST = []
KEEP = r'^operator(<<|>>)\(std::|^OpenMTP_IDS::(scanline)\('
WORD = lambda *n: [(x, k) for x in n for k in (1, 0)]
TEXT = lambda n, z: [(n, k) for k in range(z)]
FORMAT = {
    'FileHeader': TEXT('m_fortran', 2) + WORD('m_no_records', 'm_year', 'm_julian_day', 'm_hour', 'm_minute', 'm_process_year', 'm_process_julian_day',
                                              'm_process_hour', 'm_process_minute', 'm_no_channels', 'm_vis_id', 'm_wv_id', 'm_ir_id')
    + TEXT('m_satellite', 8) + WORD('m_satellite_id', 'm_record_length', 'm_no_vis_average', 'm_no_wv_average', 'm_no_ir_average', 'm_averaging_type',
                                    'm_sample_interval', 'm_ir_calibration', 'm_wv_calibration', 'm_fine_adjustment', 'm_ir_space_count', 'm_wv_space_count'),
    'RecordHeader': TEXT('m_fortran', 2) + WORD('m_record_header_length', 'm_no_scanlines', 'm_record_length', 'm_zero'),
    'LineHeader': WORD('m_length', 'm_line', 'm_start', 'm_no_pixels', 'm_channel_id', 'm_quality') + [('m_pad', k) for k in (1, 0, 5, 4)],
}
# nested: the header, then as many elements as a member of the header says (plus a constant), then padding to the length of the header
NESTED = {'OpenMTP_IDS': ('m_fileheader', 'FileHeader', 'm_record', 'Record', 'm_no_records', -1, None),
          'Record': ('m_recordheader', 'RecordHeader', 'm_scanline', 'ScanLine', 'm_no_scanlines', 0, None),
          'ScanLine': ('m_lineheader', 'LineHeader', 'm_linepixel', None, 'm_no_pixels', 0, 'm_length')}
PADDED = {'FileHeader': ('m_record_length', 2)}


def operator(prog, which, cls):
    fs = [x for x in prog.fns.values() if re.match(r'operator%s\(std::(basic_)?[io]stream[^,]*, %s( const)?&\)' % (which, cls), x.dem)]
    return fs[0] if len(fs) == 1 else None


def bare(v):
    """members of the header by their own name, also behind the call that reads it"""
    return subst(v, {k: f(re.sub(r'^(operator(<<|>>):)?p1\.(\w+\.)?', 'p1.', a.a[0]), integer=a.integer) for k, a in walk_atoms(v).items() if a.kind == 'f' and re.match(r'(operator(<<|>>):)?p1\.', str(a.a[0]))})


class Bytes:
    """sequence of the bytes, records and loops that a function writes to or reads from its stream (its first argument)"""
    def __init__(self, prog, fn):
        self.prog, self.fn = prog, fn
        self.ev = Ev(prog, fn, throw_leaf=True, callname=lambda ev, i: '%s#%d' % (short(i.get('dem') or ''), i['id']) if re.search(r'stream::get\(', i.get('dem') or '') else None)
        self.odd = []
        for k, i in fn.inst.items():
            if i['op'] in ('call', 'invoke') and re.search(r'istream.*::get\(\)', i.get('dem') or ''):
                fn._bits[k] = [('src', k, 0, (), q) for q in range(8)] + [0] * (max(fn.width(i.get('t', 'i32')), 8) - 8)
        self.taken = {'%s/%s' % (fn.name, k) for k, i in fn.inst.items() if k in fn._bits}
        self.fl = Flat(prog)
        self.fl.shallow = lambda s: True
        self.fl.run(fn, {'a0': ('stream', 0, ()), 'a1': ('obj', 0, ())})
        self.idx = {}
        for b in fn.rpo():
            for i in fn.blocks[b]['insts']:
                self.idx[i['id']] = len(self.idx)
        self.events = self.build()

    def place(self, v):
        b, o, s = self.fn.addr(v)
        return {'a0': 'stream', 'a1': 'obj'}.get(b, '%s/%s' % (self.fn.name, b)), o, s

    def byte(self, bits):
        """the byte of memory that 8 bits are, or a constant"""
        if all(isinstance(b, int) for b in bits):
            return ('const', sum(b << k for k, b in enumerate(bits)))
        b0 = bits[0]
        if isinstance(b0, tuple) and b0[0] == 'src' and all(b == ('src',) + b0[1:4] + (k,) for k, b in enumerate(bits)):
            base = {'a0': 'stream', 'a1': 'obj'}.get(b0[1], b0[1])
            if isinstance(base, str) and base.startswith('%'):
                base = '%s/%s' % (self.fn.name, base)
            if base.startswith(self.fn.name) and (base, b0[2], b0[3]) in self.fl.bytes:
                return self.byte(self.fl.bytes[(base, b0[2], b0[3])][0])
            return ('mem', base, b0[2], b0[3])
        if all(isinstance(b, int) or b[0] == 'src' and not b[3] and (b[1] in ('a1', 'obj') or '%s/%s' % (self.fn.name, b[1]) in self.taken or b[1] in self.taken) for b in bits):
            return ('bits',)        # known bits that are no one byte
        return ('other',)

    def build(self):
        fn, ev, seq = self.fn, self.ev, []
        for b in fn.rpo():
            if ev.dead(b):
                continue
            hs = tuple(ev.inner_loops(b))
            for i in fn.blocks[b]['insts']:
                if i['op'] not in ('call', 'invoke'):
                    continue
                d = i.get('dem') or i.get('callee') or ''
                a = i.get('args', [])
                if not a or self.place(a[0])[0] != 'stream' and not re.match(r'operator(<<|>>)\(', d):
                    if re.search(r'(istream|ostream).*::', d) and a:
                        if 'stream' in str(ev.val(a[0]).key):
                            self.odd.append(d)
                    continue
                if re.search(r'ostream.*::put\(', d):
                    seq.append((hs, b, ('byte', self.byte(fn.bits(a[1], 8)), i)))
                elif re.search(r'istream.*::get\(\)', d):
                    seq.append((hs, b, ('byte', ('mem', '%s/%%%d' % (fn.name, i['id']), 0, ()), i)))
                elif re.search(r'(ostream.*::write|istream.*::read)\(', d):
                    n = ev.val(a[2])
                    n = n.const() if isinstance(n, Poly) else None
                    p, o, s = self.place(a[1])
                    if n is None:
                        seq.append((hs, b, ('block', ev.val(a[1]), ev.val(a[2]), i)))
                        continue
                    for k in range(int(n)):
                        e = self.fl.bytes.get((p, o + k, s)) if 'write' in d else None
                        seq.append((hs, b, ('byte', self.byte(e[0]) if e else ('mem', p, o + k, s), i)))
                elif re.search(r'istream.*::ignore\(', d):
                    seq.append((hs, b, ('skip', ev.val(a[1]), i)))
                elif re.match(r'operator(<<|>>)\(', d):
                    cls = re.search(r', (\w+)( const)?&\)', d)
                    seq.append((hs, b, ('rec', cls.group(1) if cls else d, ev.val(a[1]), i)))
                elif re.search(r'::(good|fail|eof|setstate|operator bool|operator!|flush|clear|rdstate|~\w+)\b|::operator!\(|basic_ios', d):
                    pass
                else:
                    self.odd.append(d)
        return self.nest(seq, 0)

    def nest(self, seq, depth):
        out, k = [], 0
        while k < len(seq):
            hs, b, e = seq[k]
            if len(hs) <= depth:
                out.append(e)
                k += 1
                continue
            h, body = hs[depth], []
            while k < len(seq) and len(seq[k][0]) > depth and seq[k][0][depth] == h:
                body.append(seq[k])
                k += 1
            t = self.ev.trips(h)
            inner = self.nest(body, depth + 1)
            c = t.const() if isinstance(t, Poly) else None
            if c is not None and c == int(c) and 0 <= c <= 64 and all(e[0] == 'byte' for e in inner):
                for n in range(int(c)):
                    out += [('byte', self.turn(e[1], h, n), e[2]) for e in inner]
            else:
                out.append(('loop', h, t, inner))
        return out

    def turn(self, x, h, n):
        if x[0] != 'mem':
            return x
        s = dict(x[3])
        c = s.pop(('loop', h), 0)
        if not s and not c and not x[3] and '%' in x[1]:
            return ('mem', x[1] + '*%d' % n, x[2], ())
        return ('mem', x[1], x[2] + c * n, tuple(sorted(s.items())))

    def fixed(self):
        n = 0
        while n < len(self.events) and self.events[n][0] == 'byte':
            n += 1
        return self.events[:n], self.events[n:]


def run(ctx):
    prog = program(KEEP)
    for cls in FORMAT:
        ctx.part(cls, header, ctx, prog, cls)
    for cls in NESTED:
        ctx.part(cls, nested, ctx, prog, cls)
    ctx.part('scan lines', lines, ctx, prog)


def both(ctx, prog, cls):
    w, r = operator(prog, '<<', cls), operator(prog, '>>', cls)
    if w is None or r is None:
        ctx.undecided(cls, 'no writer or no reader')
        return None, None
    W, R = Bytes(prog, w), Bytes(prog, r)
    for x, X in ((w, W), (r, R)):
        ctx.fn(x)
        if X.odd:
            ctx.undecided(cls + '/stream', 'uses of the stream that are not read: ' + ', '.join(X.odd[:3]))
            return None, None
    return W, R


def names(prog, cls):
    """offset -> (member, byte)"""
    out = {}
    for m in prog.types[cls]['members']:
        for k in range(m['t'].get('sz', 1)):
            out[m['o'] + k] = (m['n'], k)
    return out


def where(X):
    return '%s:%s' % (X.fn.j.get('file'), X.fn.j.get('line'))


def header(ctx, prog, cls):
    W, R = both(ctx, prog, cls)
    if W is None:
        return
    at = names(prog, cls)
    off = {v: k for k, v in at.items()}
    want = FORMAT[cls]
    gone = sorted({n for n, k in want if (n, k) not in off})
    if gone:
        return ctx.undecided(cls, 'no longer there: ' + ', '.join(gone))
    wf, wt = W.fixed()
    rf, rt = R.fixed()
    say = lambda n, k: 'byte %d of %s' % (k, n)
    # what stands where in the file
    for p, (n, k) in enumerate(want):
        key = '%s/position %d' % (cls, p)
        g = wf[p][1] if p < len(wf) else ('nothing',)
        if g[0] == 'mem' and g[1] == 'obj' and not g[3]:
            if at.get(g[2]) == (n, k):
                ctx.good(key + '/write', say(n, k))
            else:
                ctx.violation(key + '/write', 'position %d of the record is written from %s, not from %s' % (p, say(*at.get(g[2], ('?', 0))), say(n, k)), W.fn.where(wf[p][2]))
        elif g[0] == 'const' or g[0] == 'nothing':
            ctx.violation(key + '/write', 'position %d of the record does not hold %s' % (p, say(n, k)), where(W))
        elif g[0] == 'bits':
            ctx.violation(key + '/write', 'position %d of the record holds other bits than %s' % (p, say(n, k)), W.fn.where(wf[p][2]))
        else:
            ctx.undecided(key + '/write', 'the written byte is not readable')
    if len(wf) > len(want) and not all(e[1] == ('const', 0) for e in wf[len(want):]):
        ctx.violation(cls + '/length/write', 'the record has %d fixed bytes, not %d' % (len(wf), len(want)), where(W))
    if len(rf) < len(want):
        ctx.violation(cls + '/length/read', '%d bytes of the record are read, not %d' % (len(rf), len(want)), where(R))
    else:
        ctx.good(cls + '/length', '%d bytes' % len(want))
    # where it goes to
    pos = {}
    for p, e in enumerate(rf):
        if e[1][0] == 'mem':
            pos[e[1][1:]] = (p, R.idx[e[2]['id']])
    used = {(n, k): p for p, (n, k) in enumerate(want)}
    for o, (n, k) in sorted(at.items()):
        key = '%s/%s/%d' % (cls, n, k)
        e = R.fl.bytes.get(('obj', o, ()))
        d = pos.get(('obj', o, ()))
        if d is not None and (e is None or R.idx[e[2]['id']] < d[1]):
            got = ('at', d[0])
        elif e is None:
            got = ('none',)
        else:
            x = R.byte(e[0])
            if x[0] == 'mem' and x[1:] in pos:
                got = ('at', pos[x[1:]][0])
            elif x[0] == 'mem' and x[1] == 'obj':
                got = ('none',)
            else:
                got = x
            if e[1] and got[0] == 'at':
                got = ('other',)
        p = used.get((n, k))
        if p is None:
            if got[0] == 'at':
                ctx.violation(key + '/read', '%s is read from position %d of the record, where it does not stand' % (say(n, k), got[1]), where(R))
            elif got[0] == 'bits':
                ctx.violation(key + '/read', '%s takes bits of the record, where it does not stand' % say(n, k), where(R))
            elif got[0] == 'const' and got[1] == 0 or got[0] == 'none':
                ctx.good(key + '/read', 'not in the file')
            elif got[0] == 'const':
                ctx.violation(key + '/read', '%s is %d after reading' % (say(n, k), got[1]), where(R))
            else:
                ctx.undecided(key + '/read', 'not readable')
        elif got == ('at', p):
            ctx.good(key + '/read', 'position %d' % p)
        elif got[0] == 'other':
            ctx.undecided(key + '/read', 'not readable')
        else:
            ctx.violation(key + '/read', '%s is %s after reading, not the byte at position %d' % (say(n, k), 'the byte at position %d' % got[1] if got[0] == 'at' else 'the constant %d' % got[1] if got[0] == 'const' else 'other bits' if got[0] == 'bits' else 'not set', p), where(R))
    # padding
    pad = PADDED.get(cls)
    wn, rn = padding(wt, W), padding(rt, R)
    if wn is None or rn is None:
        return ctx.undecided(cls + '/padding', 'what follows the header is not padding')
    n = C(0)
    if pad:
        n = f('p1.' + pad[0], True) + (pad[1] - len(want))
        given = dlt(C(0), n)
    else:
        given = None
    back = {}
    for o, (m, k) in at.items():
        if k == 0 and (m, 3) in off:
            v = R.ev.exit_mem(R.ev.val('a1') + o, 4, 'i32')
            if isinstance(v, Poly) and v.const() is None:
                a = list(v.atoms())
                if len(a) == 1 and v.key == a[0].key:
                    back[v.key] = f('p1.' + m, True)
    rn = subst(rn, back)
    oblige(ctx, cls + '/padding/write', wn, n, fn=W.fn, prog=prog, text='bytes of padding', given=given)
    oblige(ctx, cls + '/padding/read', rn, n, fn=R.fn, prog=prog, text='bytes of padding', given=given)


def padding(rest, X):
    """number of bytes that follow, whatever they are worth (written: zero)"""
    n = C(0)
    for e in rest:
        if e[0] == 'loop' and len(e[3]) == 1 and e[3][0][0] == 'byte' and e[2] is not None:
            n = dsum(n, e[2])
        elif e[0] == 'byte':
            n = dsum(n, C(1))
        elif e[0] == 'skip':
            n = dsum(n, e[1])
        else:
            return None
    return n


def nested(ctx, prog, cls):
    W, R = both(ctx, prog, cls)
    if W is None:
        return
    hm, hcls, vm, vcls, count, plus, length = NESTED[cls]
    ms = {m['n']: m for m in prog.types[cls]['members']}
    if hm not in ms or vm not in ms:
        return ctx.undecided(cls, 'no longer there')
    vec = ms[vm]['o']
    n = f('p1.' + count, True) + plus
    size = P(atom('call', 'size', f('p1') + vec, integer=True))
    for X, how in ((W, 'write'), (R, 'read')):
        ev, es = X.ev, list(X.events)
        key = '%s/%s/%s'
        # the header
        if not es or es[0][0] != 'rec':
            ctx.violation(key % (cls, how, 'header'), 'the record does not begin with its header', where(X)) if es else ctx.undecided(key % (cls, how, 'header'), 'nothing is read or written')
            continue
        h = es.pop(0)
        at = padd(h[2], f('p1'), -1).const() if isinstance(h[2], Poly) else None
        if h[1] == hcls and at == ms[hm]['o']:
            ctx.good(key % (cls, how, 'header'), hcls)
        elif at is None:
            ctx.undecided(key % (cls, how, 'header'), 'not readable')
        else:
            ctx.violation(key % (cls, how, 'header'), 'the record begins with %s at %s' % (h[1], at), X.fn.where(h[3]))
        # the elements
        if not es or es[0][0] != 'loop':
            ctx.violation(key % (cls, how, 'elements'), 'no elements follow the header', where(X)) if not es else ctx.undecided(key % (cls, how, 'elements'), 'not readable')
            continue
        _, lh, t, body = es.pop(0)
        sz = lambda v: subst(bare(v), {k: n for k, a in walk_atoms(v).items() if a.kind == 'call' and a.a[0] == 'size' and a.a[1].key == (f('p1') + vec).key})
        if t is None:
            ctx.undecided(key % (cls, how, 'number'), 'the number of elements is not readable')
        else:
            oblige(ctx, key % (cls, how, 'number'), sz(t), n, where=where(X), prog=prog, text='number of elements', given=dlt(C(0), n))
        if len(body) != 1:
            ctx.undecided(key % (cls, how, 'element'), 'more than one read or write per element')
            continue
        k = ev.k(lh)
        elt = None
        if vcls:
            if body[0][0] == 'rec':
                elt = body[0][2]
            if body[0][0] == 'rec' and body[0][1] != vcls:
                ctx.violation(key % (cls, how, 'element'), 'elements are %s' % body[0][1], X.fn.where(body[0][3]))
                continue
            want = P(atom('call', 'operator[]', f('p1') + vec, k))
        elif how == 'write':
            elt = ev.val(body[0][2]['args'][1]) if body[0][0] == 'byte' else None
            want = f('vec{p1.%s}[%s]' % (vm, k.key))
        else:
            # the byte that is read is stored into the element
            want = P(atom('call', 'operator[]', f('p1') + vec, k))
            for b in ev.loops[lh]:
                for i in X.fn.blocks[b]['insts']:
                    if i['op'] == 'store' and X.byte(X.fn.bits(i['v'], 8)) == body[0][1]:
                        elt = ev.val(i['p'])
        if elt is None:
            ctx.undecided(key % (cls, how, 'element'), 'not readable')
        elif getattr(elt, 'key', None) in (want.key, padd(f('vec{p1.%s}' % vm), k).key):
            ctx.good(key % (cls, how, 'element'), 'element k of %s at turn k' % vm)
        elif isinstance(elt, Poly) and vm in elt.key or 'operator[]' in getattr(elt, 'key', ''):
            ctx.violation(key % (cls, how, 'element'), 'element %s instead of %s' % (elt.key, want.key), where(X))
        else:
            ctx.undecided(key % (cls, how, 'element'), 'not readable: %s' % getattr(elt, 'key', '?'))
        # room for the elements
        if how == 'read':
            rs = [i for _, i in ev.calls(r'vector<.*::resize\(') if getattr(ev.val(i['args'][0]), 'key', None) == (f('p1') + vec).key]
            if len(rs) == 1:
                oblige(ctx, key % (cls, how, 'room'), bare(ev.val(rs[0]['args'][1])), n, prog=prog, where=X.fn.where(rs[0]), text='number of elements made', given=dlt(C(0), n))
            else:
                ctx.undecided(key % (cls, how, 'room'), 'the elements are not made by resize')
        # padding
        p = padding(es, X)
        if p is None:
            ctx.undecided(key % (cls, how, 'padding'), 'something else follows')
            continue
        want = f('p1.' + length, True) - n - len(FORMAT[hcls]) if length else C(0)
        oblige(ctx, key % (cls, how, 'padding'), sz(p), want, where=where(X), prog=prog, text='bytes of padding', given=dand(dlt(C(0), want), dlt(C(0), n)) if length else None)


def loop_phis(ev, kind='i32'):
    return [(k, i) for k, i in ev.fn.inst.items() if i['op'] == 'phi' and i.get('t') == kind and ev.fn.blk[k] in ev.loops]


def lines(ctx, prog):
    recs, scans = (member_offset(prog, 'OpenMTP_IDS', 'm_record') or (None,))[0], (member_offset(prog, 'Record', 'm_scanline') or (None,))[0]
    if recs is None or scans is None:
        return ctx.undecided('scan lines', 'no longer there')
    for x in find(prog, r'^OpenMTP_IDS::scanline\(unsigned int\) const'):
        ev = Ev(prog, x, throw_leaf=True)
        for k, i in ev.calls(r'^OpenMTP_IDS::scanline\(unsigned int, unsigned int\)'):
            for n, w in ((2, f('i2', True)), (3, f('i2', True) + 1)):
                oblige(ctx, 'scan lines/one/%d' % n, ev.val(i['args'][n]), w, fn=x, prog=prog, text='%s line' % ('first' if n == 2 else 'end of the'))
    for x in find(prog, r'^OpenMTP_IDS::scanline\(\) const'):
        ev = Ev(prog, x, throw_leaf=True)
        size = lambda k: P(atom('call', 'size', P(atom('call', 'operator[]', f('p1') + recs, k)) + scans, integer=True))
        acc = [(k, i) for k, i in loop_phis(ev) if any(isinstance(a, dict) and a.get('i') == 0 for a, _ in i['in'])]
        for k, i in ev.calls(r'^OpenMTP_IDS::scanline\(unsigned int, unsigned int\)'):
            oblige(ctx, 'scan lines/all/first', ev.val(i['args'][2]), C(0), fn=x, prog=prog, text='first line')
            end, done = ev.val(i['args'][3]), False
            for ph, j in acc:
                h = x.blk[ph]
                step = [a for a, b in j['in'] if b in ev.loops[h]]
                if len(step) != 1:
                    continue
                # the sum over the records of the number of their lines, as left by the loop
                s, me = ev.val(step[0]), ev.val(ph)
                out = dsum(s, me, -1)
                if not isinstance(out, Poly) or out.opaque or not walk_atoms(out):
                    continue
                total = f('total', True)
                oblige(ctx, 'scan lines/all/count', out, size(ev.k(h)), fn=x, prog=prog, text='lines of record k')
                oblige(ctx, 'scan lines/all/records', ev.trips(h) if ev.trips(h) is not None else P(atom('opq', 'trips')), dmod(P(atom('call', 'size', f('p1') + recs, integer=True)), 4294967296), fn=x, prog=prog, text='records counted')
                e2 = subst(end, {me.key: total - out})
                if not any(k in walk_atoms(end) for k in walk_atoms(out)):
                    e2 = subst(end, {me.key: total})
                oblige(ctx, 'scan lines/all/end', e2, total, fn=x, prog=prog, text='end of the lines', given=dnot(deq(dmod(P(atom('call', 'size', f('p1') + recs, integer=True)), 4294967296), C(0))))
                done = True
            if not done:
                ctx.undecided('scan lines/all/count', 'the lines are not counted in a readable loop')
    for x in find(prog, r'^OpenMTP_IDS::scanline\(unsigned int, unsigned int\) const'):
        ev = Ev(prog, x, throw_leaf=True)
        ph = {}
        for k, i in loop_phis(ev):
            for a, b in i['in']:
                if a in ('a2', 'a3'):
                    ph[a] = (k, i)
        if set(ph) != {'a2', 'a3'}:
            ctx.undecided('scan lines/range', 'no readable loop')
            continue
        fr, to = f('first', True), f('end', True)
        name = {ev.val(ph['a2'][0]).key: fr, ev.val(ph['a3'][0]).key: to}
        sizes = {a.key for k, i in ev.calls(r'vector<ScanLine.*::size\(\)') for a in [ev.val(k)] if isinstance(a, Poly)}
        name.update({k: f('lines', True) for k in sizes})
        n = f('lines', True)
        sb = lambda v: subst(v, name)
        pos = dand(dand(dnot(dlt(fr, C(0))), dnot(dlt(to, C(0)))), dnot(dlt(n, C(0))))
        h = x.blk[ph['a2'][0]]
        lat = lambda w: [a for a, b in ph[w][1]['in'] if b in ev.loops[h]][0]
        oblige(ctx, 'scan lines/range/next first', sb(ev.val(lat('a2'))), ite(dlt(fr, n), C(0), fr - n), fn=x, prog=prog, text='first line counted from the next record', given=pos)
        oblige(ctx, 'scan lines/range/next end', sb(ev.val(lat('a3'))), to - n, fn=x, prog=prog, text='end counted from the next record', given=pos)
        plus = [(k, i) for k, i in ev.calls(r'::operator\+=\(long\)')]
        got = [sb(ev.val(i['args'][1])) for k, i in plus]
        cut = {'first taken': fr, 'end taken': ite(dlt(n, to), n, to)}
        if len(got) == 2:
            for (nm, w), g, (k, i) in zip(cut.items(), got, plus):
                oblige(ctx, 'scan lines/range/' + nm, g, w, fn=x, prog=prog, where=x.where(i), text=nm, given=dand(pos, dlt(fr, n)))
        else:
            ctx.undecided('scan lines/range/taken', 'the lines taken of a record are not readable')
        for b in sorted(ev.loops[h]):
            t = x.blocks[b]['insts'][-1]
            if t['op'] != 'br' or 'c' not in t or (t['T'] in ev.loops[h]) == (t['F'] in ev.loops[h]):
                continue
            c = sb(ev.val(t['c'], 'i1'))
            if set(walk_atoms(c)) - {'first', 'end', 'lines'}:
                continue
            oblige(ctx, 'scan lines/range/goes on', c, TRUE if t['T'] in ev.loops[h] else FALSE, fn=x, prog=prog, where=x.where(t), text='lines beyond the record are looked for', given=dand(pos, dlt(n, to)))
            oblige(ctx, 'scan lines/range/ends', c, FALSE if t['T'] in ev.loops[h] else TRUE, fn=x, prog=prog, where=x.where(t), text='no lines beyond the end are looked for', given=dand(pos, dlt(to, n)))
