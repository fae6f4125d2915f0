import json
from ..owner import *
LEVEL = 'proof'
RULE = '''From every place where the libraries and drivers acquire memory, a file, an ecCodes handle, the result of a file search, a
transformation or a dataset, every path, also by an early return or an exception, must release it with the function that belongs to it,
hand it on, return it, or keep it in a member.  The destructor of a class must release every member in which its methods keep something
acquired; a constructor that fails must release what it has already kept; a method that releases a member must set it before it
returns.'''
ASSUME = ['allocation failures are not considered', 'what is stored in containers and objects of the C++ library is released by them']
TRUST = ['the table of acquiring and releasing functions in vlib/owner.py', 'the list of throwing library functions in vlib/exc.py']
KEEP17 = r'^(MSG_[A-Za-z_0-9]+|HRI_[A-Za-z_0-9]+|Hri[A-Za-z_0-9]*|OpenMTP[A-Za-z_0-9]*|GDALTranslate|(msat|gdal)::[A-Za-z_0-9:]+)::~?[A-Za-z_0-9]+\(|^(radiance_to|GDALReg|GDALT)[A-Za-z_0-9]+\('
# objects that are read into again and again
REREAD = ('MSG_header', 'MSG_data', 'MSG_native_line')
# containers whose elements are released with the object
OWNERS = (('msat::xrit::DataAccess', 'segcache'), ('msat::utils::ReflectanceDataset', 'owned_datasets'))
SCOPE = r'^(/repo/)?(msat/(?!utils/)|gdal/)'


def kind_of(i):
    if i['op'] not in ('call', 'invoke') or i.get('indirect'):
        return None
    n = callee_name(i)
    if n == 'Clone' and (i.get('dem') or '').startswith('OGRSpatialReference::'):
        n = 'OGRSpatialReference::Clone'
    if n == 'release' and re.search('uniq(ue)?_ptr', i.get('dem') or '') and i.get('t') == 'ptr':
        return r'delete|GDALClose|v\d', 'object given up by its owner'
    if re.match(r'glob(64)?$', n):
        return 'globfree', 'search'
    for r, rel, what in KINDS:
        if re.match(r, n):
            return rel, what
    return None


def fresh(P_, prog):
    """functions that return something that they acquire"""
    out = {}
    for n in range(3):
        for y in prog.fns.values():
            if y.name in out:
                continue
            for i in y.inst.values():
                k = kind_of(i) or out.get(i.get('callee')) if i['op'] in ('call', 'invoke') else None
                if k and k[1] != 'search' and not k[1].startswith('object'):
                    if any(j['op'] == 'store' and isinstance(j['v'], str) and '%%%d' % i['id'] in P_.roots(y, j['v'])
                           and y.inst.get(y.addr(j['p'])[0], {}).get('op') != 'alloca' for j in y.order):
                        continue            # kept there as well
                    for t in y.order:
                        if t['op'] == 'ret' and t.get('a') and '%%%d' % i['id'] in P_.roots(y, t['a'][0]):
                            out[y.name] = k
    return out


def method_of(x):
    m = re.match(r'(.*?)([A-Za-z_0-9]+)::(~?)([A-Za-z_0-9]+)\(', x.dem)
    return (m.group(2), bool(m.group(3)), m.group(4)) if m else (None, False, None)


def is_ctor(x):
    c, d, n = method_of(x)
    return c is not None and c == n and not d


def is_dtor(x):
    return method_of(x)[1]


def pointers(prog, cls):
    """offsets of the members of the class that are plain pointers"""
    return {m['o']: m['n'] for m in prog.types.get(cls or '', {}).get('members', []) if isinstance(m['t'], dict) and m['t'].get('k') == 'ptr'}


def run(ctx):
    prog = program(KEEP17)
    P_ = Program(prog)
    xs = [x for x in prog.fns.values() if re.search(SCOPE, x.j.get('file') or '') and not re.search(r"\$_\d|lambda", x.dem)]
    xs.sort(key=lambda x: x.dem)
    seen, own = {}, {}
    made = fresh(P_, prog)
    for x in xs:
        for i in x.order:
            k = kind_of(i) or made.get(i.get('callee'))
            if k and k[1].startswith('object') and not any('%%%d' % i['id'] in (j.get('a') or []) + (j.get('args') or []) + [j.get('v'), j.get('base')] + [w for w, _ in j.get('in', [])] for j in x.order):
                k = None                    # the object was given away before
            if k:
                nm = '%s/%s' % (plain(x.dem), callee_name(i))
                seen[nm] = seen.get(nm, 0) + 1
                key = nm + ('#%d' % seen[nm] if seen[nm] > 1 else '')
                ctx.part(key, acquired, ctx, P_, x, i, k, key)
                for c, off, j in kept(P_, x, i):
                    own.setdefault((c, off), []).append((x, i, k, j))
    for (c, off), l in sorted(own.items()):
        ctx.part('%s/%s' % (c, off), destroyed, ctx, P_, xs, c, off, l)
        for x, i, k, j in l:
            if x.j.get('cls') == c:
                ctx.part('%s/%s/again' % (plain(x.dem), off), replaced, ctx, P_, x, c, off, j)
    for c, name in OWNERS:
        ctx.part('%s/%s' % (c, name), elements, ctx, P_, xs, c, name)
    for x in xs:
        if not is_dtor(x):
            ctx.part(plain(x.dem) + '/releases', released, ctx, P_, x, xs)


def kept(P_, x, i):
    """(class, offset, store) of the pointer members in which the function keeps what a call acquires"""
    me = '%%%d' % i['id']
    for j in x.order:
        if j['op'] == 'store' and isinstance(j['v'], str) and me in P_.roots(x, j['v']):
            b = x.addr(j['p'])
            c = None
            if b[0] == 'a0':
                c = x.j.get('cls')
            elif isinstance(b[0], str) and b[0] in x.inst:
                # an object made here
                for l in x.order:
                    if l['op'] in ('call', 'invoke') and l.get('args') and isinstance(l['args'][0], str) and x.addr(l['args'][0])[:2] == (b[0], 0):
                        m = re.match(r'((?:[A-Za-z_0-9]+::)*([A-Za-z_0-9]+))::\2\(', l.get('dem') or '')
                        c = m.group(1) if m else c
                if c is None:
                    # what a member of a known type points to
                    for l in x.order:
                        a = x.addr(l['p']) if l['op'] in ('store', 'load') else (None,)
                        if a[0] == 'a0' and not a[2] and ('%%%d' % l['id'] == b[0] if l['op'] == 'load' else isinstance(l['v'], str) and b[0] in P_.roots(x, l['v'])):
                            t = [m['t'].get('to') for m in P_.prog.types.get(x.j.get('cls') or '', {}).get('members', []) if m['o'] == a[1] and isinstance(m['t'], dict)]
                            c = t[0] if t and t[0] else c
            if c and not b[2]:
                c, off = inner(P_.prog, c, b[1])
                if off in pointers(P_.prog, c):
                    yield c, off, j


def inner(prog, c, off):
    """the member of a member that stands at an offset"""
    while True:
        for m in prog.types.get(c or '', {}).get('members', []):
            t = m['t']
            if isinstance(t, dict) and t.get('k') == 'struct' and m['o'] <= off < m['o'] + (t.get('sz') or 0) and t.get('n') in prog.types:
                c, off = t['n'], off - m['o']
                break
        else:
            return c, off


def destroyed(ctx, P_, xs, cls, off, uses):
    """the destructor releases the member"""
    name = pointers(P_.prog, cls)[off]
    key = '%s/destructor/%s' % (cls, name)
    ds = [x for x in xs if x.dem == '%s::~%s()' % (cls, cls.split('::')[-1])]
    x0, i0, k, j0 = uses[0]
    if not ds:
        return ctx.undecided(key, 'the destructor is not in the libraries')
    started(ctx, P_, xs, cls, name, off)
    for x in ds:
        ctx.fn(x)
        home = ('a0', off)
        loads = [y for y, i in x.inst.items() if i['op'] == 'load' and x.addr(i['p']) == ('a0', off, ())]
        given = dnot(deq(P_.ev(x).val(loads[0]), C(0))) if loads else TRUE
        o = Owned(P_, x, None, lambda v: False, rule=lambda i: 'done' if P_.freed(x, i, home) or handed(P_, x, i, home) else None, raises=1)
        try:
            d = o.diagram()
        except TooBig:
            return ctx.undecided(key, 'expression too large')
        verdict(ctx, P_, x, x.blocks[x.entry]['insts'][0], o, d, given, key, 'the destructor releases %s, in which %s keeps what it acquires' % (name, plain(x0.dem)))
        for i in x.order:
            r = P_.release(x, i) if i['op'] in ('call', 'invoke') else None
            if r and home in P_.member(x, r[0]):
                pairs(ctx, x, i, key, [u[2] for u in uses], r[1])


def started(ctx, P_, xs, cls, name, off):
    """every constructor sets the member that the destructor releases"""
    n = cls.split('::')[-1]
    for x in xs:
        if not x.dem.startswith('%s::%s(' % (cls, n)) or x.dem.startswith('%s::%s(%s const&)' % (cls, n, cls)):
            continue
        key = '%s/starts/%s' % (plain(x.dem), name)
        ev = P_.ev(x)
        got = ev.exit_mem(ev.val('a0') + off, 8, 'ptr')
        if got is None or got is BOT:
            ctx.undecided(key, 'not readable')
        elif any(l.key == f('this.' + name).key for l in leaf_values(got)):
            ctx.violation(key, 'the constructor leaves %s unset, which the destructor releases' % name, x.where(x.order[0]))
        else:
            ctx.good(key, 'the constructor sets %s' % name)


def leaf_values(d):
    if isinstance(d, Ite):
        return leaf_values(d.hi) + leaf_values(d.lo)
    return [] if d is BOT else [d]


def elements(ctx, P_, xs, cls, name):
    """the destructor releases what the elements of a container point to"""
    key = '%s/destructor/%s' % (cls, name)
    ms = [m for m in P_.prog.types.get(cls, {}).get('members', []) if m['n'] == name]
    ds = [x for x in xs if x.dem == '%s::~%s()' % (cls, cls.split('::')[-1])]
    if not ms or not ds:
        return ctx.undecided(key, 'no such container')
    t = json.dumps(ms[0]['t'])
    if re.search('unique_ptr|shared_ptr', t):
        return ctx.good(key, 'the elements release what they own')
    for x in ds:
        if any(i.get('dem') == x.dem and i.get('callee') != x.name for i in x.inst.values()):
            continue                # the destructor that also releases the object
        ctx.fn(x)
        at = [i for i in x.order if i['op'] in ('call', 'invoke') and P_.release(x, i) and re.match('v[01]$|delete$', P_.release(x, i)[1])
              and any(x.inst.get(r, {}).get('op') == 'load' and x.addr(x.inst[r]['p'])[0] != 'a0' for r in P_.roots(x, P_.release(x, i)[0]))]
        called = [y for i in x.inst.values() for y in xs if y.name == i.get('callee') and y is not x and not is_dtor(y)]
        if at:
            ctx.good(key, 'released at ' + x.where(at[0]))
        elif called:
            ctx.undecided(key, 'the destructor calls ' + called[0].dem)
        else:
            ctx.violation(key, 'the destructor does not release the elements of %s' % name, x.where(x.order[0]))


def handed(P_, x, i, home):
    """what the member holds is handed on"""
    return P_.takes(x, i, lambda v: home in P_.member(x, v)) and not P_.release(x, i)


def pairs(ctx, x, i, key, kinds, by):
    """memory goes back to where it came from"""
    ok = any(re.match('(%s)$' % k[0], by) for k in kinds) or by in ('v0', 'v1') and any(k[0] == 'delete' for k in kinds)
    if not ok:
        ctx.violation(key + '/pair', 'acquired for release by %s and released by %s' % (kinds[0][0].replace('\\', ''), by), x.where(i))
    else:
        ctx.good(key + '/pair', 'released by ' + by)


def only_at_end(x, xs, depth=0):
    """called only while the object comes into being or goes away"""
    callers = [y for y in xs if y is not x and any(j.get('callee') == x.name for j in y.inst.values())]
    return bool(callers) and depth < 5 and all(is_dtor(y) or is_ctor(y) or only_at_end(y, xs, depth + 1) for y in callers)


def before(x, i, j):
    """every path to j has passed i"""
    a, b = (x.blk['%%%d' % k['id']] for k in (i, j))
    if a == b:
        l = x.blocks[a]['insts']
        return l.index(i) < l.index(j)
    return a in x.dominators()[b]


def replaced(ctx, P_, x, cls, off, j):
    """what the member held before is released before another one is kept in it"""
    name = pointers(P_.prog, cls)[off]
    key = '%s/%s/again' % (plain(x.dem), name)
    home = ('a0', off)
    loads = [y for y, i in x.inst.items() if i['op'] == 'load' and x.addr(i['p']) == ('a0', off, ())]
    later = [(j, x.inst[l]) for j in x.order if j['op'] in ('call', 'invoke') and P_.release(x, j) for l in P_.roots(x, P_.release(x, j)[0]) if l in loads]
    def rule(i):
        if i['op'] == 'store' and x.addr(i['p']) == ('a0', off, ()):
            if isinstance(i['v'], str) and home in P_.member(x, i['v']):
                return None
            return ('home', 'over') if any(before(x, l, i) and before(x, i, j) for j, l in later) else 'bad'
        return 'done' if P_.freed(x, i, home) or handed(P_, x, i, home) else None
    given = TRUE
    for y in loads:
        v = P_.ev(x).val(y)
        if isinstance(v, Poly) and not v.opaque:
            given = dnot(deq(v, C(0)))
            break
    if cls in REREAD and not is_ctor(x):
        o = Owned(P_, x, None, lambda v: False, rule=rule, returns=1, raises=1)
        try:
            verdict(ctx, P_, x, j, o, o.diagram(), given, key, 'what %s held is released before something else is kept in it' % name)
        except TooBig:
            ctx.undecided(key, 'expression too large')
    # and so is what was kept a moment ago
    there = {}
    for y, i in x.inst.items():
        if i['op'] == 'icmp' and i['pred'] in ('eq', 'ne') and any(isinstance(a, str) and home in P_.member(x, a) and x.inst[a]['op'] == 'load' for a in i['a'] if isinstance(a, str) and a in x.inst):
            there[y] = C(int(i['pred'] == 'ne'))
    o = Owned(P_, x, j, lambda v: False, there, rule=rule, returns=1, raises=1)
    try:
        d = o.diagram()
    except TooBig:
        return ctx.undecided(key + '/twice', 'expression too large')
    verdict(ctx, P_, x, j, o, d, P_.ev(x).under(x.blk['%%%d' % j['id']]), key + '/twice', 'what was kept in %s is released before something else is' % name)


def released(ctx, P_, x, xs):
    """after a release: no other use, and a member is set before the method ends"""
    n = 0
    for i in x.order:
        r = P_.release(x, i) if i['op'] in ('call', 'invoke') else None
        if not r or not isinstance(r[0], str):
            continue
        n += 1
        key = '%s/%s#%d' % (plain(x.dem), r[1], n)
        v = r[0]
        while x.inst.get(v, {}).get('op') in ('bitcast', 'freeze'):
            v = x.inst[v]['a'][0]
        if i is x.blocks[x.blk['%%%d' % i['id']]]['insts'][-1] or v.startswith('%') and x.inst[v]['op'] not in ('phi', 'select') or v.startswith('a'):
            def use(j, v=v, i=i):
                if j is i:
                    return None
                if j['op'] in ('load', 'store') and x.addr(j['p'])[0] == v:
                    return 'bad'
                if j['op'] in ('call', 'invoke'):
                    q = P_.release(x, j)
                    if q and x.addr(q[0])[0] == v:
                        return 'bad'
                    if any(isinstance(a, str) and x.addr(a)[0] == v for a in j.get('args', [])):
                        return 'bad'
                if '%%%s' % j.get('id') == v:
                    return 'done'
                return None
            o = Owned(P_, x, i, lambda v: False, rule=use, returns=1, raises=1)
            try:
                d = o.diagram()
            except TooBig:
                ctx.undecided(key + '/use', 'expression too large')
                continue
            verdict(ctx, P_, x, i, o, d, P_.ev(x).under(x.blk['%%%d' % i['id']]), key + '/use', 'what was released by %s is not used again' % r[1])
        for a, off in sorted(P_.member(x, v)):
            if a != 'a0' or off not in pointers(P_.prog, x.j.get('cls')):
                continue
            if only_at_end(x, xs):
                continue
            o = Owned(P_, x, i, lambda v: False, rule=lambda j: 'done' if j['op'] == 'store' and x.addr(j['p']) == ('a0', off, ()) else None, raises=is_ctor(x))
            try:
                d = o.diagram()
            except TooBig:
                ctx.undecided(key + '/member', 'expression too large')
                continue
            name = pointers(P_.prog, x.j['cls'])[off]
            l = x.inst.get(v)
            if l and any(j['op'] == 'store' and x.addr(j['p']) == ('a0', off, ()) and before(x, l, j) and before(x, j, i) for j in x.order):
                ctx.good(key + '/' + name, '%s was set before the release' % name)
                continue
            verdict(ctx, P_, x, i, o, d, P_.ev(x).under(x.blk['%%%d' % i['id']]), key + '/' + name, '%s does not stay with what was released' % name)


def acquired(ctx, P_, x, i, kind, key):
    ctx.fn(x)
    ctx.count('acquisitions: ' + kind[1])
    me = '%%%d' % i['id']
    values, glob = {}, None
    given = TRUE
    if kind[1] == 'search':
        values = {me: C(0)}
        glob = x.addr(i['args'][3])[:2]
        mine = lambda v: False
    else:
        mine = lambda v: me in P_.roots(x, v)
        given = dnot(deq(P_.ev(x).val(me), C(0)))
    o = Owned(P_, x, i, mine, values, ctor=pointers(P_.prog, x.j.get('cls')) if is_ctor(x) else None, glob=glob)
    try:
        d = o.diagram()
    except TooBig:
        return ctx.undecided(key, 'expression too large')
    for j in x.order:
        r = P_.release(x, j) if j['op'] in ('call', 'invoke') and not glob else None
        if r and P_.roots(x, r[0]) - {v for v in P_.roots(x, r[0]) if x.inst.get(v, {}).get('op') in ('phi', 'select', 'bitcast', 'getelementptr', 'freeze')} == {me}:
            pairs(ctx, x, j, key, [kind], r[1])
    verdict(ctx, P_, x, i, o, d, given, key, 'what is acquired by %s is released or handed on' % callee_name(i))


def verdict(ctx, P_, x, i, o, d, given, key, text):
    if d is BOT or d.key == '1':
        return ctx.good(key, text)
    if isinstance(given, Poly) and given.key == '0':
        return ctx.good(key, 'not reached')
    try:
        t = certain(d, given)
    except RecursionError:
        return ctx.undecided(key, 'expression too large')
    at = '; lost with ' + ', '.join('%s at %s' % (h, x.where(j)) for h, j in list(o.lost.items())[:3])
    if t is not None:
        return ctx.violation(key, 'not: %s, when %s%s' % (text, ' and '.join(('' if b else 'not ') + y.key for y, b in t[-5:])[:400] or 'always', at), x.where(i))
    if any(y.opaque for y in conditions(d)):
        return ctx.undecided(key, 'depends on conditions that the analysis cannot read' + at)
    ctx.good(key, text)
