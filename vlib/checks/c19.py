from ..semcheck import *
from ..sym import Box, node
LEVEL = 'proof'
RULE = '''The optional records of a file are pointers that are null where the record is absent.  At every instruction that reads or writes through
such a pointer (or hands it on as a reference or as the object of a method), the condition of reaching it together with "the pointer is null"
must be unsatisfiable.  A function that relies on a record of its argument passes the demand on to each of its call sites; a record of an
object filled by another function must be present at every normal return of that function.  Pointers are followed by value numbering, so it does
not matter where and how the test is written.'''
ASSUME = ['objects reached through the optional pointers are not freed while they are used (C17)', 'records are looked at only through the classes of the library']
TRUST = []

OPTIONAL = {'MSG_header': r'image_structure|image_navigation|image_data_function|annotation|timestamp|ancillary_text|key|segment_id|segment_quality',
            'MSG_data': r'key_message|gts_message|text_message|prologue|epilogue|image|sdsprologue'}
# functions that stay functions: the rest is seen at the place of its call
KEEP = (r'^MSG_(data|header)::read_from\(|^operator<<\(std::(__1::)?(ostream|basic_ostream<[^(]*>)&, (MSG|Open|t_)[A-Za-z_0-9]*( const)?&|^MSG_data::(read|MSG|~)|::read_from\(|'
        r'::XRITRasterBand::(init|IReadBlock|XRITRasterBand|GetOffset|GetScale|GetUnitType)\(|::XRITDataset::(init|XRITDataset|GetGeoTransform|GetSpatialRef)\(|'
        r'::DataAccess::(scan|segment|line_read|line_start|DataAccess|~DataAccess)\(|::(XRIT)(Open|CreateCopy)\(|RadiometricProc::|get_timestruct\(|::decode\(|^main$|::dump\(')
TOOLS = ['tools/hrit/XRIT2Image.cpp', 'tools/hrit/xritdump.cpp', 'tools/msat.cpp', 'tools/image.cpp']


def label(dem):
    """a function by its class and name; an operator<< by what it prints"""
    m = re.match(r'operator<<\(.*, (?:\w+::)*(\w+)(?: const)?&\)$', dem)
    if m:
        return 'operator<<(%s)' % m.group(1)
    return '::'.join(re.sub(r'\(.*', '', dem).split('::')[-2:]) if '(' in dem else dem


def fields(types):
    """(class, offset) -> name of the optional pointers"""
    out = {}
    for c, pat in OPTIONAL.items():
        for m in types.get(c, {}).get('members', []) or []:
            if re.match('(%s)$' % pat, m['n']) and isinstance(m['t'], dict) and m['t'].get('k') == 'ptr':
                out[c, m['o']] = m['n']
    return out


class Module:
    def __init__(self, prog, name):
        self.prog, self.name = prog, name
        self.evs, self.params = {}, {}
        # what a function returns may be null or hold optional records as well
        self.fields = fields(prog.types)

    def ev(self, x):
        if x.name not in self.evs:
            self.evs[x.name] = Ev(self.prog, x, throw_leaf=True, callname=self.callname)
        return self.evs[x.name]

    def callname(self, ev, i):
        """calls of the library's own functions are told apart by their place"""
        n = i.get('callee') or ''
        if n in self.prog.fns or re.match(r'(msat::|MSG_)', i.get('dem') or ''):
            return '%s#%d' % (label(i.get('dem') or n), i['id'])
        return None

    def param(self, name, k):
        """class of an argument of a function known by its label"""
        if name not in self.params:
            self.params[name] = {}
            for x in self.prog.fns.values():
                if label(x.dem) == name:
                    for j, c in enumerate(x.j.get('ptypes') or []):
                        self.params[name][j] = c
                    if x.j.get('cls'):
                        self.params[name][0] = x.j['cls']
        return self.params[name].get(k) or (name.split('::')[-2] if k == 0 and '::' in name else None)


def optional(M, ev, a):
    """the atom is an optional pointer: (member, where its object comes from)"""
    fl = M.fields
    if a.kind == 'f':
        m = re.match(r'(.+)\.(\w+)$', str(a.a[0]))
        if m and any(re.match('(%s)$' % p, m.group(2)) for p in OPTIONAL.values()):
            o = m.group(1)
            g = re.match(r'(this|p\d+)$', o)
            if g:
                return m.group(2), ('arg', 0 if o == 'this' else int(o[1:]))
            g = re.match(r'(.+)#\d+:p(\d+)$', o)
            if g:
                return m.group(2), ('call', g.group(1), int(g.group(2)))
            return m.group(2), None
    m = re.match(r'call\(DataAccess::segment#\d+,.*\)\.(\w+)$', a.key)
    if m:
        return (m.group(1), ('segment',)) if m.group(1) in fl.values() else None
    m = re.match(r'call\(DataAccess::segment#\d+,.*\)\[(\d+)\]$', a.key)
    if m and ('MSG_data', int(m.group(1))) in fl:
        return fl['MSG_data', int(m.group(1))], ('segment',)
    if a.kind == 'call' and a.a and str(a.a[0]).startswith('DataAccess::segment#'):
        return 'segment()', None
    if a.kind == 'out':
        m = re.match(r'(.+)#\d+$', str(a.a[0]))
        o = a.a[2].const() if len(a.a) > 2 and isinstance(a.a[2], Poly) else None
        if m and o is not None:
            k = int(str(a.a[1])[3:])
            nm = fl.get((M.param(m.group(1), k), int(o)))
            if nm:
                return nm, ('call', m.group(1), k)
    if a.kind == 'opq':
        m = re.match(r'mem:(?:\((\d+) \+ )?(this|p\d+)\)?:\d+$', str(a.a[0]))
        if m:
            c = ev.clsof.get(m.group(2))
            nm = fl.get((c, int(m.group(1) or 0)))
            if nm:
                return nm, None
    return None


def condition(ev, b):
    """condition of running block b, with that of the loops around it"""
    n = ev.under(b)
    for h in ev.inner_loops(b):
        n = dand(around(ev, h), n)
    return n


def around(ev, h):
    """condition of entering loop h, from the loop around it"""
    hs = [x for x in ev.inner_loops(h) if x != h]
    return ev.under(h, frm=hs[-1] if hs else ev.fn.entry) if h != ev.fn.entry else TRUE


def holes(n):
    """paths of a diagram that end in anything but 0, as lists of (condition, value)"""
    out = []

    def go(n, path):
        if len(out) > 400:
            return
        if isinstance(n, Ite):
            go(n.hi, path + [(n.c, True)])
            go(n.lo, path + [(n.c, False)])
        elif n.key != '0':
            out.append((path, n))
    go(n, [])
    return out


def verdict(n, ev):
    """None: unsatisfiable; 'bad'; or 'open' where only conditions that are not readable stand in between"""
    n = prune(n, Box())
    if n.key == '0':
        return None, n
    hs = holes(n)
    for path, leaf in hs:
        if hazy(leaf) or any(hidden(c, ev) for c, _ in path):
            continue
        return 'bad', n
    return 'open', n


def hazy(leaf):
    return leaf.opaque and not leaf.t


def hidden(c, ev):
    """the condition holds something unknown that could stand for the presence of a record: not so the position in a buffer,
    what is read there, and the way out of a loop"""
    for k in walk_atoms(mk(c)).values():
        if k.kind == 'opq':
            m = READABLE.match(str(k.a[0]))
            if not m or m.group(1) and ev.fn.inst.get(m.group(1), {}).get('t') in ('i1', 'i8', None):
                return True
    return False


READABLE = re.compile(r'exit:|loop:.*:(%\d+)$|mem:\??loop:|mem:(?:\(\d+ \+ )?(?:this|p\d+)\)?:\d+$')


def mk(c):
    return node(c, TRUE, FALSE)


def parameters(dem):
    """types of the parameters, by position ('this' first for methods is not included)"""
    m = re.search(r'\((.*)\)( const)?$', dem or '')
    if not m:
        return []
    out, d, cur = [], 0, ''
    for ch in m.group(1):
        if ch in '<([':
            d += 1
        if ch in '>)]':
            d -= 1
        if ch == ',' and not d:
            out.append(cur.strip())
            cur = ''
        else:
            cur += ch
    return out + [cur.strip()] if cur.strip() else out


def used(ev, b, i):
    """pointers that an instruction goes through: (value, how)"""
    if i['op'] in ('load', 'store'):
        return [(i['p'], i['op'])]
    if i['op'] not in ('call', 'invoke'):
        return []
    nm = i.get('callee') or ''
    if re.search('lifetime|llvm.dbg|llvm.assume', nm) or re.match(r'_Zd[la]|free$|__cxa', nm):
        return []
    ps = parameters(i.get('dem') or '')
    n = len(i.get('args', []))
    sret = n - len(ps)
    out = []
    for k, a in enumerate(i.get('args', [])):
        if not isinstance(a, str):
            continue
        p = ps[k - sret] if 0 <= k - sret < len(ps) else None
        ptr = p is not None and p.rstrip().endswith('*')
        out.append((a, 'pointer' if ptr else 'object'))
    return out


class Records:
    def __init__(self, ctx):
        self.ctx = ctx
        self.main = Module(layout.Program(facts.dump('sem', 'all', KEEP)), 'all')
        self.mods = [self.main]
        for t in TOOLS:
            try:
                self.mods.append(Module(layout.Program(facts.dump('sem', t, KEEP)), t))
            except facts.Broken as e:
                ctx.notes.append('%s is not part of the build' % t)
        self.demands = {}
        self.posts = {}

    def run(self):
        for M in self.mods:
            for x in list(M.prog.fns.values()):
                if M is not self.main and x.name in self.main.prog.fns and x.name != 'main':
                    continue
                self.ctx.part('%s/uses' % label(x.dem), self.uses, M, x)
        todo, done = list(self.demands), set()
        while todo:
            d = todo.pop()
            if d in done:
                continue
            done.add(d)
            self.ctx.part('%s/demand' % d[0], self.demand, *d)
            todo += [k for k in self.demands if k not in done]
        self.ctx.notes.append('demands on callers: ' + ', '.join(sorted('%s needs %s of argument %d' % (label(self.dem(n)), m, k) for n, k, m in self.demands)))

    def dem(self, name):
        for M in self.mods:
            if name in M.prog.fns:
                return M.prog.fns[name].dem
        return name

    def uses(self, M, x):
        try:
            ev = M.ev(x)
        except (TooBig, RecursionError):
            return
        got = {}
        for b in x.rpo():
            if ev.dead(b):
                continue
            for i in x.blocks[b]['insts']:
                for p, how in used(ev, b, i):
                    q = ev.val(p)
                    for l in leaves(q):
                        if not isinstance(l, Poly):
                            continue
                        for a in ev.bases(l):
                            nm = optional(M, ev, a)
                            if not nm or how == 'pointer' and l.key == a.key:
                                continue
                            nm = nm[0]
                            got.setdefault((nm, a.key), []).append((a, b, i, q, l))
        if got:
            self.ctx.fn(x)
        for (nm, ak), us in sorted(got.items(), key=lambda kv: kv[0]):
            self.site(M, x, ev, nm, us)

    def site(self, M, x, ev, nm, us):
        key = '%s/%s' % (label(x.dem), nm)
        bad, open_ = None, None
        for a, b, i, q, l in us:
            n = dand(condition(ev, b), deq(P(a), C(0)))
            if isinstance(q, Ite):
                n = dand(n, apply(lambda p: TRUE if p.key == l.key else FALSE, q))
            v, n = verdict(n, ev)
            if v == 'bad' and self.excused(M, x, ev, a, n):
                continue
            if v == 'bad':
                bad = (i, n)
            elif v == 'open':
                open_ = (i, n)
        self.ctx.count('uses', len(us))
        if bad:
            self.ctx.violation(key, '%s is used where it may be absent (%s)' % (nm, witness(bad[1])), x.where(bad[0]))
        elif open_:
            self.ctx.undecided(key, 'the conditions before the use are not readable')
        else:
            self.ctx.good(key, '%s: %d uses, each where it is present' % (nm, len(us)))

    def excused(self, M, x, ev, a, n):
        """the pointer belongs to an argument (demand on the callers) or to the result of another function"""
        r = optional(M, ev, a)
        if not r or not r[1]:
            return False
        nm, src = r
        if src[0] == 'arg':
            if not re.match(r'operator<<|read_from$', short(x.dem)) and self.sites(x.name):
                self.demands.setdefault((x.name, src[1], nm), []).append(n)
                return True
        elif src[0] == 'call':
            # what a file may leave out is never there for certain
            return not src[1].endswith('::read_from') and self.fills(M, ev, src[1], src[2], nm)
        elif src[0] == 'segment' and nm == 'image':
            return self.segments()
        return False

    def segments(self):
        """what segment() hands out has an image: nothing is kept of a file that was read without one"""
        if 'segments' not in self.posts:
            self.posts['segments'] = False
            off = next((o for (cl, o), n in self.main.fields.items() if (cl, n) == ('MSG_data', 'image')), None)
            for x in find(self.main.prog, r'::DataAccess::segment\('):
                ev = self.main.ev(x)
                for c, i in ev.calls(r'^MSG_data::read_from\('):
                    self.posts['segments'] = True
                    b = x.blk[c]
                    at = (b, x.blocks[b]['insts'].index(i) + 1) if i['op'] == 'call' else (i['normal'], 0)
                    v = ev.memval(padd(ev.val(i['args'][0]), C(off)), 8, 'ptr', *at)
                    for r in x.rets():
                        self.done('DataAccess::segment/image', x, ev, dand(ev.under(r, frm=at[0]), deq(v, C(0))), 'a segment without image is handed out', 'what is handed out has an image', x.where(i))
        return self.posts['segments']

    def done(self, key, x, ev, n, bad, good, where):
        r, n = verdict(n, ev)
        self.ctx.fn(x)
        if r == 'bad':
            self.ctx.violation(key, '%s (%s)' % (bad, witness(n)), where)
        elif r == 'open':
            self.ctx.undecided(key, 'the conditions are not readable')
        else:
            self.ctx.good(key, good)

    def sites(self, name):
        out = []
        for M in self.mods:
            for y in M.prog.fns.values():
                if M is not self.main and y.name in self.main.prog.fns and y.name != 'main':
                    continue
                for k, i in y.inst.items():
                    if i['op'] in ('call', 'invoke') and i.get('callee') == name:
                        out.append((M, y, k, i))
        return out

    def demand(self, name, k, m):
        for M, y, c, i in self.sites(name):
            ev = M.ev(y)
            b = y.blk[c]
            if ev.dead(b):
                continue
            key = '%s/%s(%s)' % (label(y.dem), short(i.get('dem') or name), m)
            off = next((o for (cl, o), n in self.main.fields.items() if n == m), None)
            q = ev.val(i['args'][k])
            v = apply_d(lambda p: ev.memval(padd(p, C(off)), 8, 'ptr', b, y.blocks[b]['insts'].index(i)), q)
            n = dand(condition(ev, b), deq(v, C(0)))
            r, n = verdict(n, ev)
            self.ctx.fn(y)
            if r == 'bad':
                ats = [a for l in leaves(v) for a in l.atoms()]
                if ats and all(self.excused(M, y, ev, a, n) for a in ats):
                    r = None
            if r == 'bad':
                self.ctx.violation(key, '%s relies on %s, which may be absent here (%s)' % (short(i.get('dem') or name), m, witness(n)), y.where(i))
            elif r == 'open':
                self.ctx.undecided(key, 'the conditions before the call are not readable')
            else:
                self.ctx.good(key, '%s is present at the call' % m)

    def fills(self, M, ev, cname, k, m):
        """every normal return of the function leaves the record there"""
        post = (cname, k, m)
        if post not in self.posts:
            self.posts[post] = True
            r = False
            names = {i.get('callee') for i in ev.fn.inst.values() if i['op'] in ('call', 'invoke') and label(i.get('dem') or i.get('callee') or '') == cname}
            ok = bool(names)
            for n in names:
                x = self.main.prog.fns.get(n) or M.prog.fns.get(n)
                if x is None or len(x.j['args']) <= k:
                    ok = False
                    continue
                M2 = self.main if n in self.main.prog.fns else M
                e2 = M2.ev(x)
                off = next((o for (cl, o), nn in self.main.fields.items() if nn == m), None)
                v = e2.exit_mem(padd(e2.val('a%d' % k), C(off)), 8, 'ptr')
                rb = x.rets()
                r, d = verdict(dand(condition(e2, rb[0]), deq(v, C(0))), e2) if len(rb) == 1 else ('open', TRUE)
                key = '%s/leaves(%s)' % (label(x.dem), m)
                self.ctx.fn(x)
                if r == 'bad':
                    ats = [a for l in leaves(v) for a in l.atoms()]
                    if ats and all(self.excused(M2, x, e2, a, d) for a in ats):
                        r = None
                if r == 'bad':
                    self.ctx.violation(key, 'returns without %s, which its caller relies on (%s)' % (m, witness(d)), '%s:%s' % (x.j.get('file'), x.j.get('line')))
                elif r == 'open':
                    self.ctx.undecided(key, 'the conditions before the return are not readable')
                else:
                    self.ctx.good(key, '%s is present at every return' % m)
            if not ok:
                self.posts[post] = False
        return self.posts[post]


def witness(n):
    hs = sorted(holes(n), key=lambda h: (any('?' in show(mk(c)) for c, _ in h[0]), len(h[0])))
    return ' and '.join(('' if v else 'not ') + show(mk(c)).split('\n')[0].replace('if ', '').rstrip(':') for c, v in hs[0][0])[:300] if hs else ''


def run(ctx):
    Records(ctx).run()
