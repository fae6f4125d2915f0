from ..texts import *
LEVEL = 'proof'
RULE = '''The members that a time holds after it is decoded, as expressions of the bytes of the record, equal those of the CCSDS day-segmented
form (days since 1958-01-01 and milliseconds of the day), of the unsegmented form (seconds and fractions by powers of 256) and of the
generalized form (date and time in digits, UTC); its accessors return them; and its texts are the date and time in UTC followed by the
milliseconds, microseconds and nanoseconds, each in three digits.'''
ASSUME = ['strftime, gmtime, timegm and sscanf do what their documentation says', 'years of four digits']
TRUST = ['byte order helpers are followed, not trusted']

MOST = r'^MSG_time_(cds|cds_expanded|cuc|generalized)::[A-Za-z_0-9]+(\[abi:cxx11\])?\(|^MSG_header_timestamp::'
ALL = MOST + r'|^MSG_time_cds_short::[A-Za-z_0-9]+(\[abi:cxx11\])?\('
U2 = lambda o: f('p1.u2be@%d' % o, True)
U4 = lambda o: f('p1.u4be@%d' % o, True)


def run(ctx):
    short_, most = program(ALL), program(MOST)
    ctx.part('cds short', cds, ctx, short_, r'^MSG_time_cds_short::read_from\(', 'MSG_time_cds_short', 0, {}, 6)
    ctx.part('cds', cds, ctx, most, r'^MSG_time_cds::read_from\(', 'MSG_time_cds', 0, {'microsecs': 6}, 8)
    ctx.part('cds expanded', cds, ctx, most, r'^MSG_time_cds_expanded::read_from\(', 'MSG_time_cds_expanded', 0, {'microsecs': 6, 'nanosecs': 8}, 10)
    ctx.part('time stamp', cds, ctx, most, r'^MSG_header_timestamp::read_from\(', 'MSG_header_timestamp', 4, {}, None)
    ctx.part('cuc', cuc, ctx, short_)
    ctx.part('generalized', generalized, ctx, short_)
    ctx.part('accessors', accessors, ctx, short_)
    ctx.part('constructors', constructors, ctx, short_)
    ctx.part('texts', texts, ctx, short_)


def member(ctx, key, prog, ev, cls, name, t, want):
    mo = member_offset(prog, cls, name)
    if mo is None:
        return ctx.undecided(key, 'no member ' + name)
    oblige(ctx, key, ev.exit_mem(ev.val('a0') + mo[0], mo[1], t), want, fn=ev.fn, text=name)


def cds(ctx, prog, pat, cls, at, more, n):
    x = one(ctx, prog, pat, cls)
    if x is None:
        return
    ev = Ev(prog, x, throw_leaf=True)
    days, ms = U2(at), U4(at + 2)
    member(ctx, cls + '/day_from_epoch', prog, ev, cls, 'day_from_epoch', 'i16', days)
    member(ctx, cls + '/msec_in_day', prog, ev, cls, 'msec_in_day', 'i32', ms)
    member(ctx, cls + '/unixtime', prog, ev, cls, 'unixtime', 'i64', days * 86400 - 378691200 + dsdiv(ms, C(1000)))
    member(ctx, cls + '/usecs', prog, ev, cls, 'usecs', 'i64', dmod(ms, 1000))
    for m, o in more.items():
        member(ctx, '%s/%s' % (cls, m), prog, ev, cls, m, 'i16', U2(at + o))
    if n is not None:
        oblige(ctx, cls + '/length', ev.ret(), C(n), fn=x, text='number of bytes of the time')


def cuc(ctx, prog):
    x = one(ctx, prog, r'^MSG_time_cuc::read_from\(', 'MSG_time_cuc')
    if x is None:
        return
    ev = Ev(prog, x, throw_leaf=True)
    v = C(0)
    for k in range(7):
        b = f('*p1' if k == 0 else 'p1[%d]' % k, True)
        v = v + b * (256.0 ** (3 - k))
        mo = member_offset(prog, 'MSG_time_cuc', 'cuctime')
        if mo:
            oblige(ctx, 'MSG_time_cuc/cuctime[%d]' % k, ev.exit_mem(ev.val('a0') + (mo[0] + k), 1, 'i8'), b, fn=x, text='byte %d' % k)
    member(ctx, 'MSG_time_cuc/cucvalue', prog, ev, 'MSG_time_cuc', 'cucvalue', 'double', v)
    oblige(ctx, 'MSG_time_cuc/length', ev.ret(), C(7), fn=x, text='number of bytes of the time')


FIELDS = [('tm_year', 1900, 4), ('tm_mon', 1, 2), ('tm_mday', 0, 2), ('tm_hour', 0, 2), ('tm_min', 0, 2), ('tm_sec', 0, 2)]


def generalized(ctx, prog):
    x = one(ctx, prog, r'^MSG_time_generalized::read_from\(', 'MSG_time_generalized')
    if x is None:
        return
    ev = Ev(prog, x, throw_leaf=True)
    cs = ev.calls(r'sscanf')
    if len(cs) != 1:
        return ctx.undecided('MSG_time_generalized/read', 'not read with one call')
    k, i = cs[0]
    fmt = ev.val(i['args'][1]).key.strip('"')
    specs = re.findall(r'%(\*?)(\d*)([a-z]+)', fmt)
    oblige(ctx, 'MSG_time_generalized/text', ev.val(i['args'][0]), f('p1'), fn=x, text='characters that are read')
    outs = i['args'][2:]
    if len([s for s in specs if not s[0]]) != len(outs) or re.sub(r'%\d*[a-z]+', '', fmt) not in ('', 'Z'):
        return ctx.undecided('MSG_time_generalized/format', 'format ' + fmt)
    for n, (name, base, w) in enumerate(FIELDS):
        if n >= len(outs):
            ctx.violation('MSG_time_generalized/' + name, 'is not read', x.where(i))
            continue
        mo = member_offset(prog, 'MSG_time_generalized', 'generalized_time.' + name)
        if mo is None:
            ctx.undecided('MSG_time_generalized/' + name, 'no such member')
            continue
        where = ev.val(i['args'][2 + n])
        got = ev.exit_mem(ev.val('a0') + mo[0], 4, 'i32')
        # the value that the n-th conversion leaves in memory, wherever it goes
        b = x.blk[k]
        at = (b, x.blocks[b]['insts'].index(i) + 1) if i['op'] == 'call' else (i['normal'], 0)
        oblige(ctx, 'MSG_time_generalized/' + name, got, ev.memval(where, 4, 'i32', *at) - base, fn=x, text='%s, %d digits' % (name, w))
        if specs[n][1:] == (str(w), 'd'):
            ctx.good('MSG_time_generalized/%s/digits' % name, '%d digits' % w)
        else:
            ctx.violation('MSG_time_generalized/%s/digits' % name, 'read with %%%s%s, %d digits expected' % (specs[n][1], specs[n][2], w), x.where(i))
    oblige(ctx, 'MSG_time_generalized/length', ev.ret(), C(15), fn=x, text='number of bytes of the time')
    for y in find(prog, r'^MSG_time_generalized::get_unixtime\('):
        e = Ev(prog, y, throw_leaf=True)
        r = e.ret()
        cs = [short(c.get('dem') or c.get('callee') or '') for _, c in e.calls('.')]
        if cs == ['timegm'] or r is not BOT and isinstance(r, Poly) and r.key == 'call(timegm,this)':
            ctx.good('MSG_time_generalized/unixtime', 'UTC')
        elif set(cs) & {'mktime', 'timelocal', 'localtime'} and not set(cs) & {'setenv', 'putenv', 'timegm', 'gmtime', 'tzset'}:
            ctx.violation('MSG_time_generalized/unixtime', 'depends on the time zone of the machine', '%s:%s' % (y.j.get('file'), y.j.get('line')))
        else:
            ctx.undecided('MSG_time_generalized/unixtime', 'made by ' + ' '.join(cs))


GET = [('MSG_time_cds_short', 'get_day_from_epoch', 'day_from_epoch'), ('MSG_time_cds_short', 'get_msec_in_day', 'msec_in_day'), ('MSG_time_cds_short', 'get_unixtime', 'unixtime'),
       ('MSG_time_cuc', 'get_time_cuc_r8', 'cucvalue'), ('MSG_time_cds', 'get_microsecs', 'microsecs'), ('MSG_time_cds_expanded', 'get_microsecs', 'microsecs'),
       ('MSG_time_cds_expanded', 'get_nanosecs', 'nanosecs')]


def accessors(ctx, prog):
    for cls, n, m in GET:
        for k, x in enumerate(find(prog, r'^%s::%s\(' % (cls, n))):
            ev = Ev(prog, x, throw_leaf=True)
            oblige(ctx, '%s/%s%s' % (cls, n, ' const' if x.dem.endswith('const') else ''), ev.ret(), f('this.' + m, x.j['ret'] != 'double'), fn=x)
    for x in find(prog, r'^MSG_time_cds_short::get_timestruct\('):
        ev = Ev(prog, x, throw_leaf=True)
        mo = member_offset(prog, 'MSG_time_cds_short', 'unixtime')
        if mo:
            oblige(ctx, 'MSG_time_cds_short/get_timestruct', ev.ret(), P(atom('call', 'gmtime', ev.val('a0') + mo[0])), fn=x, text='broken-down UTC time')


def constructors(ctx, prog):
    for cls in ('MSG_time_cds_short', 'MSG_time_cds', 'MSG_time_cds_expanded', 'MSG_time_cuc', 'MSG_time_generalized', 'MSG_header_timestamp'):
        for x in find(prog, r'^%s::%s\(unsigned char const\*\)' % (cls, cls)):
            ev = Ev(prog, x, throw_leaf=True)
            cs = [i for _, i in ev.calls(r'::read_from\(')]
            if len(cs) != 1:
                ctx.undecided(cls + '/constructor', 'does not decode with one call')
                continue
            i = cs[0]
            nm = (i.get('dem') or '').split('::')[0]
            key = cls + '/constructor'
            if nm != cls and not (cls == 'MSG_header_timestamp'):
                ctx.violation(key, 'decodes as ' + nm, x.where(i))
                continue
            want = [f('this'), f('p1') + (4 if nm != cls else 0)]
            for n, w in enumerate(want):
                oblige(ctx, '%s/argument %d' % (key, n), ev.val(i['args'][n]), w, fn=x, text='decodes the bytes it is given')


def texts(ctx, prog):
    day = ('strftime', P(atom('call', 'strftime', f('"%Y-%m-%d %H:%M:%S"'), P(atom('call', 'gmtime', f('this') + 8)))))
    mo = member_offset(prog, 'MSG_time_cds_short', 'unixtime')
    if mo and mo[0] != 8:
        day = ('strftime', P(atom('call', 'strftime', f('"%Y-%m-%d %H:%M:%S"'), P(atom('call', 'gmtime', f('this') + mo[0])))))
    gm = ('strftime', P(atom('call', 'strftime', f('"%Y-%m-%d %H:%M:%S"'), f('this'))))
    d3 = lambda m: ('%03d', f('this.' + m, True))
    want = {'MSG_time_cds_short': [day, ' +', d3('usecs'), ' msecs'], 'MSG_time_cds': [day, ' +', d3('usecs'), '.', d3('microsecs'), ' msecs'],
            'MSG_time_cds_expanded': [day, ' +', d3('usecs'), '.', d3('microsecs'), d3('nanosecs'), ' msecs'], 'MSG_time_generalized': [gm]}
    for cls, w in want.items():
        for x in find(prog, r'^%s::get_time(string\[abi:cxx11\]|char)\(' % cls):
            T = Texts(prog, x)
            r = T.returned() if 'timechar' in x.dem else T.result()
            oblige(ctx, '%s/%s' % (cls, x.dem.split('::')[1].replace('[abi:cxx11]', '')), r, text(*w), fn=x, text='text of the time')
    c = lambda k: ('%03d', f('this.cuctime[%d]' % k, True))
    for n, w in (('get_coarse_time', [c(0), ' ', c(1), ' ', c(2), ' ', c(3)]), ('get_fine_time', [c(4), ' ', c(5), ' ', c(6)])):
        for x in find(prog, r'^MSG_time_cuc::%s\[abi:cxx11\]\(' % n):
            oblige(ctx, 'MSG_time_cuc/' + n, Texts(prog, x).result(), text(*w), fn=x, text='text of the time')
