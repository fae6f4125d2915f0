from .. import laycheck as L, facts, layout
from ..ir import eval_under, reach_under
LEVEL = 'proof'
RULE = '''Bit-level provenance of every member of the xRIT header records (primary header, image structure, navigation,
annotation, timestamp, key, segment identification, segment quality, text records): members must hold exactly the
bytes and byte order of the HRIT/LRIT layout in spec/layout.  The record loop must hand each record type to its
reader, pass over records it does not know, and advance by the length that the record itself gives.'''
HEADERS = ['MSG_header_image_struct', 'MSG_header_image_navig', 'MSG_header_timestamp', 'MSG_header_key', 'MSG_header_segment_id',
           'MSG_segment_quality', 'MSG_time_cds_short']
TYPES = {1: 'MSG_header_image_struct', 2: 'MSG_header_image_navig', 3: 'MSG_header_image_datafunc', 4: 'MSG_header_annotation',
         5: 'MSG_header_timestamp', 6: 'MSG_header_ancillary_text', 7: 'MSG_header_key', 128: 'MSG_header_segment_id',
         129: 'MSG_header_segment_quality'}
PRIMARY = {'f_typecode': 'u1@3', 'total_header_length': 'u4be@4', 'data_field_length': 'u8be@8'}
ANNOT = {'xrit_channel_id': (0, 1), 'annotation_version': (2, 3), 'disseminating_s_c': (6, 6), 'product_id_1': (13, 12),
         'product_id_2': (26, 9), 'product_id_3': (36, 9), 'product_id_4': (46, 12), 'flags': (59, 2)}
TRUST = ['spec/layout tables, transcribed from the HRIT/LRIT global specification and the MSG mission-specific headers']


def run(ctx):
    prog = L.program()
    for cls in HEADERS:
        f = L.reader(prog, cls, 'set' if cls == 'MSG_segment_quality' else 'read_from')
        if f is None:
            raise facts.Broken('reader of %s is gone' % cls)
        L.check_record(ctx, prog, f, cls, L.load_spec(cls))
    root = next((f for f in prog.fns.values() if f.j['cls'] == 'MSG_header' and f.j['sname'] == 'read_from'), None)
    if root is None:
        raise facts.Broken('MSG_header::read_from is gone')
    ctx.fn(root)
    primary(ctx, prog, root)
    loop(ctx, prog, root)
    annotation(ctx, prog)
    quality(ctx, prog)
    texts(ctx, prog)


def primary(ctx, prog, root):
    fl = layout.Flat(prog)
    fl.shallow = lambda s: s.j.get('sname') == 'read_from'
    fl.run(root, {'a0': ('this', 0, ()), 'a1': ('in', 0, ())})
    rd = L.read_sizes(fl)
    bufs = L.buffers(fl)
    if not bufs:
        return ctx.undecided('primary', 'no buffer is filled from the stream here')
    if rd[0][0] is not None:
        (ctx.good if rd[0][0] == 16 else lambda k, t: ctx.violation(k, t, rd[0][2].where(rd[0][1])))('primary/size', 'reads %d bytes' % rd[0][0])
    rows = {r[0]: r for r in L.rows_of(prog, fl, 'MSG_header', {bufs[0]})}
    for m, exp in PRIMARY.items():
        if m not in rows:
            ctx.undecided('primary/' + m, 'no such member')
            continue
        got, cond = rows[m][2], rows[m][3]
        if got == exp and not cond:
            ctx.good('primary/' + m, exp)
        elif got in ('expr', 'other', 'partial'):
            ctx.undecided('primary/' + m, got)
        else:
            ctx.violation('primary/' + m, 'expected %s, decoded as %s%s' % (exp, got, ' on some paths' if cond else ''), L.where(fl, prog, 'MSG_header', m))


def loop(ctx, prog, f):
    calls = [(k, i) for k, i in f.inst.items() if i['op'] in ('call', 'invoke') and i.get('callee') in prog.fns
             and prog.fns[i['callee']].j.get('cls', '').startswith('MSG_header_') and prog.fns[i['callee']].j['sname'] == 'read_from']
    if len(calls) < 6:
        return ctx.undecided('dispatch', 'the record readers are not called from one function')
    bases = {f.addr(i['args'][1])[0] for k, i in calls}
    for k, i in calls:
        b, o, s = f.addr(i['args'][1])
        if o or s:
            ctx.violation('dispatch/%s/start' % prog.fns[i['callee']].j['cls'], 'the reader is given the record from byte %d' % o, f.where(i))
    if len(bases) != 1:
        return ctx.undecided('dispatch', 'several record cursors')
    cur = bases.pop()
    phi = f.inst.get(cur)
    if phi is None or phi['op'] != 'phi':
        return ctx.undecided('dispatch', 'the record cursor is not a loop variable')
    hdr = f.blk[cur]
    incoming = [(v, b) for v, b in phi['in'] if v != cur and f.addr(v)[0] == cur or b in f.loops().get(hdr, ())]
    latches = {b for v, b in phi['in']} & f.loops().get(hdr, set())
    byclass = {}
    for k, i in calls:
        byclass.setdefault(prog.fns[i['callee']].j['cls'], set()).add(f.blk[k])
    for typ in list(TYPES) + [200, 8]:
        r = reach_under(f, hdr, {(cur, 0): typ}, avoid=latches | {hdr} if False else latches)
        # stop at the back edge: latches are leaves
        r |= {b for b in latches if any(p in r for p in f.pred[b])}
        got = sorted(c for c, bl in byclass.items() if bl & r)
        want = [TYPES[typ]] if typ in TYPES else []
        key = 'dispatch/%d' % typ
        if len(got) > 3:
            ctx.undecided(key, 'the record type does not decide the reader here')
        elif got == want:
            ctx.good(key, want[0] if want else 'skipped')
        else:
            ctx.violation(key, 'record type %d is given to %s, expected %s' % (typ, got or 'no reader', want or 'none'), f.where(calls[0][1]))
    # advance
    from .. import ir
    for v, b in phi['in']:
        if b not in latches:
            a = f.addr(v)
            continue
        base, off, syms = f.addr(v)
        key = 'advance/%s' % b
        if base != cur:
            if f.inst.get(v, {}).get('op') == 'phi':
                for vv, bb in f.inst[v]['in']:
                    advance(ctx, f, cur, vv, bb, hdr, latches)
                continue
            ctx.undecided('advance', 'cursor is replaced')
            continue
        advance(ctx, f, cur, v, b, hdr, latches)


def advance(ctx, f, cur, v, blk, hdr, latches):
    base, off, syms = f.addr(v)
    # which record types can take this advance?
    types = []
    for t in list(TYPES) + [200]:
        r = reach_under(f, hdr, {(cur, 0): t}, avoid=latches)
        if blk in r or blk in latches and any(p in r for p in f.pred[blk]):
            types.append(t)
    key = 'advance/%s' % ','.join(map(str, types))
    if base != cur:
        return ctx.undecided(key, 'cursor is replaced')
    if not syms:
        # constant advance: only when the record length is known to be that constant
        bad = [L for L in (off - 1, off + 1, off + 256) if L > 2 and any(
            ok(f, hdr, cur, t, L, blk, latches) for t in types)]
        if bad:
            ctx.violation(key, 'advances by %d bytes over a record that may be %d bytes long' % (off, bad[0]), f.where(f.inst[cur]))
        else:
            ctx.good(key, 'advances by %d, the length of the record' % off)
        return
    if len(syms) == 1 and off == 0 and syms[0][1] == 1 and syms[0][0][0] == 'v':
        d = layout.describe(f.bits(syms[0][0][1], 64), 'unsigned')
        if d == 'u2be@1':
            return ctx.good(key, 'advances by the length in the record')
        if d != 'expr':
            return ctx.violation(key, 'advances by %s of the record, expected u2be@1' % d, f.where(f.inst[cur]))
    if len(syms) == 1 and off != 0 and syms[0][0][0] == 'v' and layout.describe(f.bits(syms[0][0][1], 64), 'unsigned') == 'u2be@1':
        return ctx.violation(key, 'advances by the length in the record %+d' % off, f.where(f.inst[cur]))
    ctx.undecided(key, 'advance is not a constant or the record length')


def ok(f, hdr, cur, t, length, blk, latches):
    env = {(cur, 0): t, (cur, 1): length >> 8, (cur, 2): length & 255}
    r = reach_under(f, hdr, env, avoid=latches)
    return blk in r or blk in latches and any(p in r for p in f.pred[blk])


def annotation(ctx, prog):
    f = L.reader(prog, 'MSG_header_annotation', 'read_from')
    if f is None:
        raise facts.Broken('MSG_header_annotation::read_from is gone')
    ctx.fn(f)
    fl = layout.flatten(prog, f)
    names = {m['o']: m['n'] for m in prog.types['MSG_header_annotation']['members']}
    tmp, dest = {}, {}
    for k, i in f.inst.items():
        if i['op'] not in ('call', 'invoke'):
            continue
        d = i.get('dem', '')
        if '::substr(' in d and len(i['args']) == 4:
            n = [a['i'] if isinstance(a, dict) and 'i' in a else None for a in i['args'][2:]]
            s = f.addr(i['args'][1])
            t = f.addr(i['args'][0])
            if t[0] == 'a0':
                dest[names.get(t[1])] = (n, s, i)
            else:
                tmp[t[0]] = (n, s, i)
        elif '::operator=(' in d:
            a, b = f.addr(i['args'][0]), i['args'][1]
            if a[0] == 'a0' and isinstance(b, str):
                b = f.addr(b)
                if b[0] in tmp:
                    dest[names.get(a[1])] = tmp[b[0]]
                elif names.get(a[1]) == 'annotation':
                    text(ctx, f, fl, b, i)
    for m, (p, n) in ANNOT.items():
        if m not in dest or None in dest[m][0] or names.get(dest[m][1][1]) != 'annotation' or dest[m][1][0] != 'a0':
            ctx.undecided('annotation/' + m, 'not taken with substr from the annotation')
        elif dest[m][0] == [p, n]:
            ctx.good('annotation/' + m, 'characters %d..%d' % (p, p + n - 1))
        else:
            ctx.violation('annotation/' + m, 'takes %d characters from %d, expected %d from %d' % (dest[m][0][1], dest[m][0][0], n, p), f.where(dest[m][2]))


def text(ctx, f, fl, b, i):
    base = '%s/%s' % (f.name, b[0])
    bs = [fl.bytes.get((base, b[1] + k, ())) for k in range(62)]
    if any(x is None for x in bs):
        return ctx.undecided('annotation/text', 'the text is not copied through a buffer of constant layout')
    for k in range(61):
        w = tuple(('src', 'buff', 3 + k, (), q) for q in range(8))
        if bs[k][0] != w:
            return ctx.violation('annotation/text', 'character %d is not byte %d of the record' % (k, 3 + k), f.where(i))
    if bs[61][0] != (0,) * 8:
        return ctx.violation('annotation/text', 'the text is not terminated after 61 characters', f.where(i))
    ctx.good('annotation/text', '61 characters from byte 3')


def quality(ctx, prog):
    f = L.reader(prog, 'MSG_header_segment_quality', 'read_from')
    if f is None:
        raise facts.Broken('MSG_header_segment_quality::read_from is gone')
    ctx.fn(f)
    n = 0
    for k, i in f.inst.items():
        if i['op'] in ('call', 'invoke') and i.get('callee') in prog.fns and prog.fns[i['callee']].j['cls'] == 'MSG_segment_quality':
            d, s = f.addr(i['args'][0]), f.addr(i['args'][1])
            n += 1
            if s[0] != 'a1' or len(s[2]) != 1 or len(d[2]) != 1 or d[2][0][0] != s[2][0][0]:
                ctx.undecided('quality/records', 'not an affine walk')
            elif (s[1], s[2][0][1]) == (3, 13) and (d[1], d[2][0][1]) == (0, prog.types['MSG_segment_quality']['sz']):
                ctx.good('quality/records', 'line i from byte 3+13*i')
            else:
                ctx.violation('quality/records', 'line i (at %d+%d*i) is read from byte %d+%d*i, expected 3+13*i' % (d[1], d[2][0][1], s[1], s[2][0][1]), f.where(i))
    if not n:
        ctx.undecided('quality/records', 'per-line reader is not called')


def texts(ctx, prog):
    for cls in ('MSG_header_image_datafunc', 'MSG_header_ancillary_text'):
        f = L.reader(prog, cls, 'read_from')
        if f is None:
            raise facts.Broken(cls + '::read_from is gone')
        ctx.fn(f)
        fl = layout.flatten(prog, f)
        cp = [c for c in fl.calls if c[0] == 'copyvar' and c[4][0] == 'buff']
        if len(cp) != 1:
            ctx.undecided(cls + '/text', 'not one copy of variable size')
            continue
        _, fn, i, dst, src, n, cond = cp[0]
        a = fn.intaff(n)
        if src[2] or len(a[1]) != 1:
            ctx.undecided(cls + '/text', 'copy of an unknown range')
            continue
        (sym, co), = a[1].items()
        d = layout.describe(fn.bits(sym[1], 64), 'unsigned') if sym[0] == 'v' else 'expr'
        if (src[1], d, co, a[0]) == (3, 'u2be@1', 1, -3):
            ctx.good(cls + '/text', 'record length - 3 bytes from byte 3')
        elif d == 'expr':
            ctx.undecided(cls + '/text', 'size of the copy is not the record length')
        else:
            ctx.violation(cls + '/text', 'copies %d*%s%+d bytes from byte %d, expected u2be@1 - 3 bytes from byte 3' % (co, d, a[0], src[1]), fn.where(i))
