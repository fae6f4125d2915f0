"""C20: names of files and scenes"""
from ..texts import *
from .c08 import argmem
LEVEL = 'proof'
RULE = '''The strings a file or scene name is taken apart into, and the patterns the files of a scene are searched with, are followed along
every path as sequences of literals, members and parts of the name; where one differs from the naming scheme, or a name that does not
follow it is accepted, the check reports a violation.'''
ASSUME = ['the string class and glob() of the C library do what their documentation says']
TRUST = ['the naming scheme in vlib/checks/c20.py']
KEEP_F = r'^msat::xrit::(FileAccess::|(de)?underscore|isValid)'
KEEP_O = r'^msat::xrit::(FileAccess::|isValid|XRITOpen|XRITDataset::XRITDataset)|^msat::utils::(ReflectanceDataset|CosSolZADataset)::|^msat::gdal::'
MEMBERS = ('directory', 'resolution', 'productid1', 'productid2', 'timing')
CLS = 'msat::xrit::FileAccess'


def run(ctx):
    prog = program(KEEP_F)
    at = {n: member_offset(prog, CLS, n)[0] for n in MEMBERS}
    ctx.part('name', name, ctx, prog, at)
    ctx.part('channel', channel, ctx, prog, at)
    ctx.part('valid', valid, ctx, prog)
    ctx.part('padding', padding, ctx, prog)
    ctx.part('files', files, ctx, prog, at)
    ctx.part('complete', complete, ctx, prog, at)
    ctx.part('construction', construction, ctx, prog)
    ctx.part('products', products, ctx)


def size(s):
    return P(atom('call', 'size', s, integer=True))


def found(s, ch, pos):
    return P(atom('call', 'find', s, C(ord(ch)), pos, integer=True))


def name(ctx, prog, at):
    x = one(ctx, prog, r'FileAccess::parse\(std::', 'parse')
    if not x:
        return
    s = Ev(prog, x).val('a1')
    slash = P(atom('call', 'rfind', s, C(47), C(-1), integer=True))
    beg = slash + 1
    bad = lambda p: deq(p, C(-1))
    trim = lambda t: P(atom('call', 'deunderscore', t))
    S = lambda t: leaf((('s', t),))
    cut = lambda a, b: part(s, a, b - a)
    seg = {}
    pos, fails = beg, FALSE
    for what in ('resolution', None, None, 'productid1', 'productid2', None, 'timing'):
        e = found(s, '-', pos)
        fails = dor(fails, bad(e))
        if what:
            seg[what] = S(cut(pos, e) if what == 'resolution' else trim(cut(pos, e)))
        pos = e + 1
    sfail = fails
    short_, pos, fails = {}, beg, FALSE
    for what in ('resolution', 'productid1', 'productid2'):
        e = found(s, ':', pos)
        fails = dor(fails, bad(e))
        short_[what] = S(cut(pos, e))
        pos = e + 1
    short_['timing'] = S(part(s, pos, C(-1)))
    d = ite(bad(slash), leaf(('.',)), ite(deq(slash, C(0)), leaf(('/',)), S(part(s, C(0), slash))))
    given = b_not(dlt(size(s), C(0)))
    isseg = is_segment(s)
    for n in MEMBERS:
        if n == 'directory':
            want = ite(isseg, ite(sfail, f('THROW'), d), ite(fails, f('THROW'), d))
        else:
            want = ite(isseg, ite(sfail, f('THROW'), seg[n]), ite(fails, f('THROW'), short_[n]))
        want = ite(dlt(size(s), C(3)), f('THROW'), want)
        got = Texts(prog, x).member((f('this') + at[n]).key)
        oblige(ctx, 'parse/' + n, got, want, fn=x, prog=prog, text=n, given=given)


def is_segment(s):
    """the name ends with -C_"""
    return same_text(leaf((('s', part(s, size(s) - 3, C(-1))),)), leaf(('-C_',)))


def channel(ctx, prog, at):
    """the files of another channel of the same scene"""
    x = one(ctx, prog, r'FileAccess::parse\(msat', 'parse of a scene and a channel')
    if not x:
        return
    ev = Ev(prog, x)
    for n in MEMBERS:
        want = ev.val('a2') if n == 'productid2' else ev.val('a1') + at[n]
        oblige(ctx, 'channel/' + n, Texts(prog, x).member((f('this') + at[n]).key), leaf((('s', want),)), fn=x, prog=prog, text=n)


def valid(ctx, prog):
    x = one(ctx, prog, r'^msat::xrit::isValid\(', 'isValid')
    if not x:
        return
    t = Texts(prog, x)
    s = t.ev.val('a0')
    got = t.asked(end=lambda st: truth(t.ev.ret()))
    colons, pos = TRUE, C(0)
    for k in range(3):
        e = found(s, ':', pos)
        colons = dand(colons, b_not(deq(e, C(-1))))
        pos = e + 1
    want = dand(b_not(dlt(size(s), C(3))), dor(is_segment(s), colons))
    oblige(ctx, 'valid', got, want, fn=x, prog=prog, text='recognised', given=b_not(dlt(size(s), C(0))))


def padding(ctx, prog):
    """trailing underscores of a field are dropped, but for one"""
    x = one(ctx, prog, r'xrit::deunderscore\(', 'removal of the padding')
    if not x:
        return
    ev = Ev(prog, x)
    s = ev.val('a1')
    sub = method_calls(ev, 'substr')
    if len(ev.loops) != 1 or len(sub) != 1:
        return ctx.undecided('padding', 'not one loop and one part of the string')
    h = list(ev.loops)[0]
    k = ev.k(h)
    call_args(ctx, 'padding/part', ev, sub[0], {0: ('result', ev.val('a0')), 1: ('string', s), 2: ('first character', C(0)), 3: ('number of characters', size(s) - k)})
    want = dand(dlt(C(1), size(s) - k), deq(elem_char(s, size(s) - k - 1), C(95)))
    got = stays(ev, h)
    got = subst(got, {kk: elem_char(s, size(s) - k - 1) for kk, a in walk_atoms(got).items() if re.match(r'\*?call\((operator\[\]|at),', kk)}) if only_index(ev, got, s, size(s) - k - 1) else got
    oblige(ctx, 'padding/while', got, want, fn=x, prog=prog, text='goes on', given=b_not(dlt(size(s) - k, C(0))))


def stays(ev, h):
    """condition, in one turn of a loop, for there to be another"""
    def G(X):
        return ev.branch(X, lambda Y: TRUE if Y == h else FALSE if Y not in ev.loops[h] else G(Y))
    return G(h)


def elem_char(s, k):
    return P(atom('call', 'char', s, k, integer=True))


def only_index(ev, d, s, k):
    ks = [a for kk, a in walk_atoms(d).items() if re.match(r'\*?call\((operator\[\]|at),', kk)]
    return bool(ks) and all(kk.find(k.key + ')') > 0 for kk in walk_atoms(d) if re.match(r'\*?call\((operator\[\]|at),', kk))


def files(ctx, prog, at):
    for what, fnre, tail in (('prologue', 'prologueFile', 'PRO______'), ('epilogue', 'epilogueFile', 'EPI______')):
        ctx.part(what, one_file, ctx, prog, at, what, fnre, tail)
    ctx.part('segments', segments, ctx, prog, at)


def pattern(ctx, prog, x, at, what, *tail):
    ev = Ev(prog, x)
    th = ev.val('a1')
    m = lambda n: th + at[n]
    pad = lambda n, k: ('padded', P(atom('call', 'padded', leaf((('s', m(n)),)), C(k), C(95))))
    want = [('s', m('directory')), '/', ('s', m('resolution')), '-???-??????-', pad('productid1', 12), '-']
    want += [pad('productid2', 9)] if what == 'segments' else ['_' * 9]
    want += list(tail[:1]) + [('s', m('timing'))] + list(tail[1:])
    oblige(ctx, what + '/pattern', Texts(prog, x).argument(r'^glob(64)?(\(|$)', 0), leaf(pieces(*want)), fn=x, prog=prog, text='pattern')
    g = ev.calls(r'^glob(64)?(\(|$)')
    if len(g) != 1:
        ctx.undecided(what + '/search', 'not one search')
        return None
    key, i = g[0]
    fl = ev.val(i['args'][1])
    n = fl.const() if isinstance(fl, Poly) else None
    if n is None or int(n) & ~(8 | 4):      # GLOB_DOOFFS, GLOB_NOSORT
        ctx.undecided(what + '/search', 'other flags of the search')
        return None
    off = argmem(ev, i, 3, 16, 8, 'i64') if int(n) & 8 else C(0)
    out = lambda o: P(atom('out', ev.cname(i), 'arg3', C(o)))
    return ev, key, i, off, out


def searched(d, r):
    """the outcome of the search under one name"""
    return subst(d, {k: r for k, a in walk_atoms(d).items() if re.match(r'call\(glob(64)?,', k)})


def entry(ev, i, off):
    return apply(lambda o: f('out(%s,arg3,8)[%d]' % (ev.cname(i), 8 * int(o.const())) if o.const() else '*out(%s,arg3,8)' % ev.cname(i)) if o.const() is not None else P(atom('opq', 'entry')), off)


def one_file(ctx, prog, at, what, fnre, tail):
    x = one(ctx, prog, r'FileAccess::%s' % fnre, what)
    if not x:
        return
    p = pattern(ctx, prog, x, at, what, '-' + tail + '-', '-__')
    if p is None:
        return
    ev, key, i, off, out = p
    r = f('GLOB', True)
    n = f('out(%s,arg3,0)' % ev.cname(i), True)
    ok = dand(deq(r, C(0)), b_not(dlt(C(1), n)))
    got = Texts(prog, x).result()
    e = renamed(entry(ev, i, off), {})
    want = ite(ok, apply(lambda q: leaf((('s', q),)), e), f('THROW'))
    # a search that succeeds has found something
    given = dor(b_not(deq(r, C(0))), b_not(dlt(n, C(1))))
    oblige(ctx, what + '/found', searched(got, r), want, fn=x, prog=prog, text='file', given=given)


def segments(ctx, prog, at):
    x = one(ctx, prog, r'FileAccess::segmentFiles', 'segments')
    if not x:
        return
    p = pattern(ctx, prog, x, at, 'segments', '-0?????___-', '-C_')
    if p is None:
        return
    ev, key, i, off, out = p
    r = f('GLOB', True)
    n = f('out(%s,arg3,0)' % ev.cname(i), True)
    rets = [b for b in x.rpo() if x.blocks[b]['insts'][-1]['op'] == 'ret' and not ev.dead(b)]
    if len(rets) == 1:
        oblige(ctx, 'segments/missing', searched(ev.under(rets[0]), r), deq(r, C(0)), fn=x, prog=prog, text='returns')
    put = [c for c in x.inst.values() if c['op'] in ('call', 'invoke') and re.search(r'::(emplace|push)_back[<(]', c.get('dem') or '')]
    if len(put) != 1 or len(ev.loops) != 1:
        return ctx.undecided('segments/list', 'the names are not listed by one loop')
    h = list(ev.loops)[0]
    k = ev.k(h)
    b = x.blk['%%%d' % put[0]['id']] if '%%%d' % put[0]['id'] in x.blk else None
    call_args(ctx, 'segments/list', ev, put[0], {0: ('list', ev.val('a0'))})
    oblige(ctx, 'segments/number', ev.trips(h), n, fn=x, prog=prog, text='listed', given=b_not(dlt(n, C(0))))
    if b is not None:
        oblige(ctx, 'segments/each', ev.under(b), TRUE, fn=x, prog=prog, text='listed')
    src = ev.val(put[0]['args'][1])
    for c in method_calls(ev, 'basic_string'):
        if ev.val(c['args'][0]).key == src.key and len(c['args']) >= 2:
            src = ev.val(c['args'][1])
            break
    else:
        src = argmem(ev, put[0], 1, 0, 8, 'ptr') if re.search(r'emplace_back<(char|char const)\*( const)?&+>', put[0]['dem']) else None
    if src is None or off.const() is None:
        return ctx.undecided('segments/name', 'not read')
    oblige(ctx, 'segments/name', src, f('out(%s,arg3,8)[%s]' % (ev.cname(i), (8 * k + 8 * off).key)), fn=x, prog=prog, text='name')


def complete(ctx, prog, at):
    x = one(ctx, prog, r'FileAccess::ensureComplete\(', 'ensureComplete')
    if not x:
        return
    t = Texts(prog, x)
    got = t.asked(end=lambda st: C(0))
    bad = FALSE
    for n in MEMBERS:
        bad = dor(bad, deq(size(f('this') + at[n]), C(0)))
    oblige(ctx, 'complete', got, ite(bad, f('THROW'), C(0)), fn=x, prog=prog, text='refused')


def construction(ctx, prog):
    for what, pat, n in (('name', r'FileAccess::FileAccess\(std::', 1), ('channel', r'FileAccess::FileAccess\(msat::xrit::FileAccess const&, std', 2)):
        x = one(ctx, prog, pat, 'construction from a ' + what)
        if not x:
            continue
        ev = Ev(prog, x)
        ps = method_calls(ev, 'parse')
        if len(ps) != 1:
            ctx.undecided('construction/' + what, 'not one parse')
            continue
        call_args(ctx, 'construction/' + what, ev, ps[0], {k: (('object', 'name', 'channel') if n == 1 else ('object', 'scene', 'channel'))[k:k + 1] + (ev.val('a%d' % k),) for k in range(n + 1)})
        oblige(ctx, 'construction/%s/always' % what, ev.under(x.blk['%%%d' % ps[0]['id']]) if '%%%d' % ps[0]['id'] in x.blk else TRUE, TRUE, fn=x, prog=prog, text='parsed')


def products(ctx):
    """what is opened for a name: the channel, or what is computed from it when the name has a suffix"""
    prog = program(KEEP_O)
    x = one(ctx, prog, r'XRITOpen\(', 'opening')
    if not x:
        return
    ev = Ev(prog, x, throw_leaf=True, callname=lambda e, i: '%s{%s}' % (e.cbase(i), i['id']) if e.cbase(i) == 'unique_ptr' else None)
    calls = [i for b in x.rpo() if not ev.dead(b) for i in x.blocks[b]['insts'] if i['op'] in ('call', 'invoke')]
    at = lambda i: next(b for b in x.rpo() if i in x.blocks[b]['insts'])
    key = lambda v: v.key if isinstance(v, Poly) else '?'
    made, held, text_ = {}, {}, {}
    fas = []
    for i in calls:
        d = i.get('dem') or ''
        a = [ev.val(q) for q in i.get('args', [])]
        if re.match(r'msat::xrit::FileAccess::FileAccess\(std::', d):
            fas.append(key(a[0]))
        elif re.match(r'msat::xrit::FileAccess::FileAccess\(msat::xrit::FileAccess const&, ', d):
            made[key(a[0])] = ('channel', key(a[1]), key(a[2]))
        elif re.match(r'msat::xrit::XRITDataset::XRITDataset\(', d):
            made[key(a[0])] = ('channel image', key(a[1]))
        elif re.match(r'msat::utils::ReflectanceDataset::ReflectanceDataset\(', d):
            made[key(a[0])] = ('reflectance',)
        elif re.match(r'msat::utils::CosSolZADataset::CosSolZADataset\(', d):
            made[key(a[0])] = ('cosine of the zenith angle', key(a[1]))
        elif short(d) == 'basic_string' and len(a) > 1 and key(a[1]).startswith('"'):
            text_[key(a[0])] = key(a[1])[1:-1]
        elif re.match(r'std::unique_ptr<', d) and '::unique_ptr<' in d and len(a) == 2:
            held[key(a[0])] = key(a[1])
            held['out(%s,arg0,0)' % ev.cname(i)] = key(a[1])
    if len(fas) != 1:
        return ctx.undecided('products', 'the name is not taken apart once')
    fa = fas[0]

    def what(k, n=0):
        m = re.match(r'call\(release,(.*)\)$', k)
        if n > 9:
            return None
        if k == fa:
            return ''
        if m:
            return what(m.group(1), n + 1)
        if k in held:
            return what(held[k], n + 1)
        if k in made:
            t = made[k]
            if t[0] == 'channel':
                return text_.get(t[2]) if what(t[1], n + 1) == '' else None
            if t[0] == 'channel image':
                return what(t[1], n + 1)
            return t[0]
        return None

    S = f(fa) + member_offset(prog, CLS, 'productid2')[0]
    last, length = f('last character', True), f('length', True)
    empty = deq(length, C(0))
    r = dand(b_not(empty), deq(last, C(114)))
    a = dand(b_not(empty), deq(last, C(97)))
    ir39 = deq(f('differs from IR_039', True), C(0))

    def plain(d):
        """the condition when everything that is tried succeeds"""
        sub = {}
        for k, q in walk_atoms(d).items():
            if q.kind == 'vcall' or re.match(r'call\(isValid,', k):
                sub[k] = C(1)
            elif k == 'call(empty,%s)' % S.key:
                sub[k] = empty
            elif k in ('*call(operator[],%s,%s)' % (S.key, (size(S) - 1).key), '*call(at,%s,%s)' % (S.key, (size(S) - 1).key), '*call(back,%s)' % S.key):
                sub[k] = last
            elif k == size(S).key:
                sub[k] = length
            elif k.startswith('call(compare,%s,"' % S.key):
                sub[k] = f('differs from ' + k.split('"')[1], True)
        return subst(d, sub)

    def foreign(d):
        """mentions something else than the name of the channel"""
        return [k for k in walk_atoms(d) if re.search(r'local:|out\(', k.replace(S.key, '')) and k != fa]
    src, cos, ext = {}, [], []
    for i in calls:
        d = i.get('dem') or ''
        if re.match(r'msat::utils::ReflectanceDataset::add_source\(', d):
            src.setdefault(what(key(ev.val(i['args'][1]))), []).append(at(i))
        elif re.match(r'msat::utils::CosSolZADataset::CosSolZADataset\(', d):
            cos.append((what(key(ev.val(i['args'][1]))), at(i)))
        elif re.match(r'msat::gdal::add_extras\(', d):
            ext.append((what(key(ev.val(i['args'][0]))), at(i)))

    def when(bs):
        c = FALSE
        for b in bs:
            c = dor(c, plain(ev.under(b)))
        return c
    jobs = []
    if None in src:
        ctx.undecided('products/sources', 'a source is not read')
    else:
        for n in sorted(set(src) | {'', 'IR_108', 'IR_134'}):
            jobs.append(('products/source ' + (n or 'of the name'), when(src.get(n, [])), r if n == '' else dand(r, ir39) if n in ('IR_108', 'IR_134') else FALSE))
    for nm, lst, c in (('cosine', cos, a), ('channel', ext, dand(b_not(r), b_not(a)))):
        if any(w != '' for w, b in lst):
            ctx.undecided('products/' + nm, 'what it is computed from is not read')
        else:
            jobs.append(('products/' + nm, when([b for w, b in lst]), c))
    res = [i for i in calls if short(i.get('dem') or '') == 'resize' and key(ev.val(i['args'][0])) == S.key]
    if len(res) == 1:
        jobs.append(('products/suffix', when([at(res[0])]), dor(r, a)))
        oblige(ctx, 'products/suffix/left', plain(ev.val(res[0]['args'][1])), length - 1, where=x.where(res[0]), text='characters left')
    out = apply(lambda p: p if p.const() is not None else f('channel with its metadata' if p.key.startswith('call(add_extras') else what(p.key) or '?' + p.key), ev.ret())
    jobs.append(('products/returned', plain(out), ite(r, f('reflectance'), ite(a, f('cosine of the zenith angle'), f('channel with its metadata')))))
    for k, got, want in jobs:
        if foreign(got):
            ctx.undecided(k, 'outside of the readable forms: ' + foreign(got)[0][:80])
        else:
            oblige(ctx, k, got, want, where=x.where({}), text='done', given=b_not(dlt(length, C(0))))
