"""What becomes of a call that fails: from each call that can fail, with its result set to a failure value, every path must end in an
exception or in the failure value of the function around it.  Functions that pass a failure on in their result are calls that can fail
in their own callers (fixpoint)."""
from .semcheck import *

# external calls that can fail: name -> (kind of failure)
CALLS = [(r'grib_(get|set)_(?!error)\w+$', 'grib'), (r'grib_get_message$', 'grib'), (r'grib_handle_new_from_\w+$', 'null'), (r'fopen(64)?$', 'null'), (r'fclose$', 'eof'),
         (r'fflush$', 'eof'), (r'fwrite$', 'short'), (r'RasterIO$|ReadBlock$|GetGeoTransform$|GDALRasterIO$|GDALReadBlock$|GDALGetGeoTransform$|SetMetadata$|SetMetadataItem$', 'cpl'),
         (r'OGRCreateCoordinateTransformation$', 'null'), (r'Transform$', 'zero'), (r'GetSpatialRef$|CloneGeogCS$', 'null'), (r'GDALCreateCopy$|GDALOpen(Ex)?$', 'null'),
         (r'(__isoc\d+_)?sscanf$', 'sscanf'), (r'GetMetadata(Item)?$', 'null'), (r'GetAttrValue$', 'null')]
FAILVALUES = {'true': [C(1)], 'null': [C(0)], 'zero': [C(0)], 'false': [C(0)], 'cpl': [C(3)], 'eof': [C(-1)], 'grib': [C(-1), C(-10), C(-7)], 'int': [C(-1), C(1)]}


class Rules:
    def __init__(self, scope, must_use, optional=(), tolerated=()):
        self.scope = scope              # functions judged
        self.must_use = must_use        # calls that may not be ignored
        self.optional = optional        # keys whose absence is not a failure
        self.tolerated = tolerated      # (function, call) regular expressions: why


class Outcome:
    """leaves of what a function does after some calls returned given values; values chosen by the path taken are followed along it"""
    LIMIT = 3000

    def __init__(self, prog, fn, call, values, callname=None):
        self.prog, self.fn, self.callname = prog, fn, callname
        self.b = fn.blk['%%%d' % call['id']]
        self.start = tuple(sorted(values.items(), key=lambda x: x[0]))
        self.evs, self.memo, self.on = {}, {}, set()
        base = Ev(prog, fn)
        self.loops = base.loops
        self.around = set(base.inner_loops(self.b))
        self.phis = {b: ['%%%d' % i['id'] for i in B['insts'] if i['op'] == 'phi'] for b, B in fn.blocks.items()}

    def ev(self, env):
        k = tuple(sorted((v, x.key) for v, x in env.items()))
        if k not in self.evs:
            e = Ev(self.prog, self.fn, throw_leaf=True, callname=self.callname)
            e.memo.update(env)
            self.evs[k] = e
        return k, self.evs[k]

    def diagram(self):
        return self.G(self.b, dict(self.start))

    def edge(self, x, y, env, ev):
        if y == self.b:
            return f('RETRIED')
        env = dict(env)
        back = y in self.around and x in self.loops[y]
        for v in self.phis[y]:
            env.pop(v, None)
            for w, p in self.fn.inst[v]['in']:
                if p == x:
                    n = ev.val(w)
                    if isinstance(n, Poly) and n.const() is not None:
                        env[v] = C(abs(n.const())) if self.fn.inst[v].get('t') == 'i1' else n
                    elif back:
                        env[v] = f('next:' + v, integer=True)
        return self.G(y, env)

    def G(self, X, env):
        fn = self.fn
        ek, ev = self.ev(env)
        k = (X, ek)
        if k in self.memo:
            return self.memo[k]
        if k in self.on:
            return f('LOOP')
        if len(self.memo) > self.LIMIT:
            raise TooBig()
        self.on.add(k)
        t = fn.blocks[X]['insts'][-1]
        if t['op'] == 'ret':
            a = t['a'][0] if t.get('a') else t.get('v')
            r = f('VOID') if a is None else ev.val(a)
        elif t['op'] in ('unreachable', 'resume'):
            r = f('THROW')
        elif X in self.loops and X not in self.around:
            r = BOT
            e2 = {v: n for v, n in env.items() if fn.blk[v] not in self.loops[X]}
            _, v2 = self.ev(e2)
            for y in self.loops[X]:
                for s in fn.succ[y]:
                    if s not in self.loops[X] and not self.unwinds(y, s):
                        g = self.edge(y, s, e2, v2)
                        if g is not BOT:
                            r = g if r is BOT else r if g.key == r.key else ite(mk_eq(f('exit:%s:%s' % (X, y), integer=True)), g, r)
        else:
            r = self.fork(X, env, ev)
        self.on.discard(k)
        self.memo[k] = r
        return r

    def fork(self, X, env, ev):
        return ev.branch(X, lambda Y: self.edge(X, Y, env, ev))

    def unwinds(self, y, s):
        t = self.fn.blocks[y]['insts'][-1]
        return t['op'] == 'invoke' and t.get('unwind') == s


OKVALUES = {'true': C(0), 'null': C(1), 'zero': C(1), 'false': C(1), 'cpl': C(0), 'eof': C(0), 'grib': C(0), 'int': C(0)}


def failing(fn, p, soft=False, turned=False):
    """condition under which a leaf is a failure (soft: what the function returns does not tell its callers of one; turned: its result
    is 1 or 0 the other way around)"""
    if turned and p.key not in ('THROW', 'RETRIED', 'LOOP', 'VOID'):
        return unknown(p.key) if p.opaque else dnot(deq(p, C(0))) if fn.j['ret'] == 'i1' else deq(p, C(0))
    if soft and p.key not in ('THROW', 'RETRIED', 'LOOP'):
        return FALSE
    if p.key in ('THROW', 'RETRIED', 'LOOP'):
        return TRUE
    if p.key == 'VOID':
        return FALSE
    rt = fn.j['ret']
    if rt not in ('ptr', 'i1', 'i32'):
        return FALSE
    if rt == 'ptr' and any(a.kind == 'f' and a.key.startswith('new:') or a.kind == 'call' and a.a[0] in ('release', 'get') for a in p.atoms()):
        return FALSE
    if p.opaque:
        return unknown(p.key)
    if rt in ('ptr', 'i1'):
        return deq(p, C(0))
    if rt == 'i32':
        return dnot(deq(p, C(0)))
    return FALSE


def certain(got, given):
    """whichever way the conditions turn out that the analysis cannot read, some path does not fail; an example of one"""
    def leaf(g, box, trail):
        g = subst_known(g, box)
        if not feasible(trail):
            return None, None
        if g.opaque or not g.const() == 0 or confirm(trail, box, g, TRUE) is not True:
            return False, None
        return True, trail

    def rec(g, box, trail):
        if g is BOT:
            return None, None
        if not isinstance(g, Ite):
            return leaf(g, box, trail)
        out = []
        for v, m in ((True, g.hi), (False, g.lo)):
            b2 = box.assume(g.c, v)
            out.append((None, None) if b2 is None else rec(m, b2, trail if g.c.opaque else trail + [(g.c, v)]))
        bad = [t for k, t in out if k]
        if g.c.opaque:
            return (False, None) if any(k is False for k, _ in out) else (True, bad[0]) if bad else (None, None)
        return (True, bad[0]) if bad else (False, None) if any(k is False for k, _ in out) else (None, None)

    def pre(n, g, box, trail):
        if isinstance(n, Ite):
            for v, m in ((True, n.hi), (False, n.lo)):
                b2 = box.assume(n.c, v)
                if b2 is not None:
                    t = pre(m, cof(g, n.c, v), b2, trail + [(n.c, v)])
                    if t is not None:
                        return t
        elif n.key != FALSE.key:
            k, t = rec(g, box, [x for x in trail if not x[0].opaque])
            return t if k else None
    return pre(given, got, Box(), [])


def conditions(n, out=None, seen=None):
    out = [] if out is None else out
    seen = set() if seen is None else seen
    if isinstance(n, Ite) and id(n) not in seen:
        seen.add(id(n))
        out.append(n.c)
        conditions(n.hi, out, seen)
        conditions(n.lo, out, seen)
    return out


def plain(dem):
    return dem.replace('(anonymous namespace)::', '').split('(')[0].split(' ')[-1]


class Failures:
    def __init__(self, ctx, prog, rules):
        self.ctx, self.prog, self.rules = ctx, prog, rules
        self.fallible = {}              # mangled name -> kind
        self.byname = {}                # slot name -> kind
        self.turned = set()             # functions that return true when they fail
        self.evs = {}

    def ev(self, x):
        if x.name not in self.evs:
            self.evs[x.name] = Ev(self.prog, x, throw_leaf=True)
        return self.evs[x.name]

    def sites(self, x):
        """(call, name, kind) of the calls of a function that can fail"""
        for k, i in x.inst.items():
            if i['op'] not in ('call', 'invoke'):
                continue
            if i.get('indirect'):
                n = self.ev(x).slot(i)
                if not n:
                    continue
                if re.match(r'v\d+$', n):
                    n = self.only(int(n[1:]), i) or n
                if n in self.byname:
                    yield i, n, self.byname[n]
                    continue
            else:
                c = i.get('callee') or ''
                if c in self.fallible:
                    yield i, short(i.get('dem') or c), self.fallible[c]
                    continue
                if c in self.prog.fns:
                    continue
                n = short(i.get('dem') or c)
            for r, kind in CALLS:
                if re.match(r, n):
                    yield i, n, kind
                    break

    def only(self, slot, i):
        """the one name that project functions of this type have in this place of the vtables"""
        out = set()
        for g, init in self.prog.globals.items():
            if g.startswith('_ZTV') and isinstance(init, list) and init and isinstance(init[0], list) and slot + 2 < len(init[0]):
                y = self.prog.fns.get(init[0][slot + 2])
                if y is not None and y.j['ret'] == i.get('t') and len(y.j['args']) == len(i['args']):
                    out.add(short(y.dem))
        return out.pop() if len(out) == 1 else None

    def values(self, x, i, kind):
        if kind == 'sscanf':
            return [C(k) for k in range(-1, len(i['args']) - 2)]
        if kind == 'short':
            return [C(0), self.ev(x).val(i['args'][2]) - 1]
        if kind == 'grib':
            # every code that the function tells from the others, and one that it does not
            cs = {-1, -10, -7}
            for j in x.inst.values():
                if j['op'] == 'icmp':
                    cs |= {a['i'] for a in j['a'] if isinstance(a, dict) and -200 < a.get('i', 0) < 0}
                elif j['op'] == 'switch':
                    cs |= {c for c, _ in j['cases'] if -200 < c < 0}
            for b in x.blocks.values():
                t = b['insts'][-1]
                if t['op'] == 'switch':
                    cs |= {c for c, _ in t['cases'] if -200 < c < 0}
            return [C(c) for c in sorted(cs)]
        return FAILVALUES[kind]

    def literals(self, x, i):
        ev, out = self.ev(x), []
        for a in i['args']:
            v = ev.val(a) if isinstance(a, str) or isinstance(a, dict) else None
            if isinstance(v, Poly) and v.key.startswith('"'):
                out.append(v.key.strip('"'))
        return out

    def outcomes(self, x, i, kind):
        ev = self.ev(x)
        given = ev.under(x.blk['%%%d' % i['id']])
        for v in self.values(x, i, kind):
            vs = {'%%%d' % i['id']: v}
            if kind == 'short':
                given = dand(given, dlt(C(0), ev.val(i['args'][2]), True))
            if kind == 'null':
                # the same question gets the same answer
                me = ev.val('%%%d' % i['id'])
                for k, j in x.inst.items():
                    if j['op'] in ('call', 'invoke') and j.get('t') == 'ptr' and ev.val(k).key == me.key:
                        vs[k] = v
                given = subst(given, {me.key: v})
                if given.key == '0':
                    continue
            yield v, Outcome(self.prog, x, i, vs).diagram(), given

    def derive(self):
        """functions that pass a failure on in what they return"""
        fns = [x for x in self.prog.fns.values() if re.search(self.rules.scope, x.j.get('file') or '') and not re.search(r"\$_\d|lambda", x.dem)]
        changed = True
        while changed:
            changed = False
            for x in fns:
                if x.name in self.fallible or x.j['ret'] not in ('ptr', 'i1', 'i32') or not self.passes(x):
                    continue
                vals = set()
                for i, n, kind in self.sites(x):
                    if any(re.search(r, n) and re.search(q, x.dem) for q, r, _ in self.rules.tolerated):
                        continue
                    try:
                        for v, d, given in self.outcomes(x, i, kind):
                            vals |= {p.key for p in leaves(d) if p.key not in ('THROW', 'RETRIED', 'LOOP', 'VOID')} if d is not BOT else set()
                    except (TooBig, RecursionError):
                        pass
                vals |= self.constants(x)
                kind = None
                if self.turns(x):
                    self.turned.add(x.name)
                    self.fallible[x.name] = 'true' if x.j['ret'] == 'i1' else 'zero'
                    changed = True
                    continue
                if x.j['ret'] in ('ptr', 'i1') and '0' in vals:
                    kind = 'null' if x.j['ret'] == 'ptr' else 'false'
                elif x.j['ret'] == 'i32' and vals & {'3', '4'}:
                    kind = 'cpl'
                if kind:
                    self.fallible[x.name] = kind
                    if self.virtual(x):
                        self.byname[short(x.dem)] = kind
                    changed = True

    def turns(self, x):
        """the function says 1 (or, of an int, 0) when a call in it fails and the opposite when it does not, and has callers that see it"""
        if x.j['ret'] not in ('i1', 'i32') or self.virtual(x) or x.name not in self.called():
            return False
        bad = '1' if x.j['ret'] == 'i1' else '0'
        some = False
        for i, n, kind in self.sites(x):
            if any(re.search(r, n) and re.search(q, x.dem) for q, r, _ in self.rules.tolerated):
                continue
            try:
                F = {p.key for v, d, given in self.outcomes(x, i, kind) if d is not BOT for p in leaves(d)}
                if F != {bad}:
                    return False
                ok = OKVALUES.get(kind)
                if ok is None:
                    ok = C(len(i['args']) - 2) if kind == 'sscanf' else self.ev(x).val(i['args'][2])
                d = Outcome(self.prog, x, i, {'%%%d' % i['id']: ok}).diagram()
                S = {p.key for p in leaves(d)} if d is not BOT else set()
            except (TooBig, RecursionError):
                return False
            if bad not in S:
                some = True
            elif bad == '0' or '0' not in S:
                return False
        return some

    def called(self):
        if not hasattr(self, '_called'):
            self._called = {i.get('callee') for x in self.prog.fns.values() for i in x.inst.values() if i['op'] in ('call', 'invoke')}
        return self._called

    def constants(self, x):
        """constants that flow into the result"""
        out, seen, todo = set(), set(), []
        for B in x.blocks.values():
            t = B['insts'][-1]
            if t['op'] == 'ret':
                todo.append(t['a'][0] if t.get('a') else t.get('v'))
        while todo:
            v = todo.pop()
            if isinstance(v, dict):
                out.add('0' if v.get('null') else str(v.get('i')))
            elif isinstance(v, str) and v not in seen:
                seen.add(v)
                i = x.inst.get(v)
                if i is None:
                    continue
                if i['op'] == 'phi':
                    todo += [w for w, p in i['in']]
                elif i['op'] == 'select':
                    todo += i['a'][1:]
                elif i.get('t') == 'i1' and i['op'] not in ('call', 'invoke'):
                    out.add('0')
        return out

    def passes(self, x):
        return not re.search(r'_unchecked$|::Get(NoDataValue|MetadataItem|Minimum|Maximum|UnitType|Metadata|SpatialRef|Description)$|Identify$|::operator', x.dem.split('(')[0])

    def virtual(self, x):
        for g, init in self.prog.globals.items():
            if g.startswith('_ZTV') and isinstance(init, list):
                for e in init:
                    if isinstance(e, list) and x.name in e:
                        return True
        return False

    def decide(self, only=None):
        ctx = self.ctx
        # functions whose result says that something optional is absent
        self.soft = set()
        for x in self.prog.fns.values():
            for k, i in x.inst.items():
                if i['op'] in ('call', 'invoke') and i.get('callee') in self.fallible and any(t in self.rules.optional for t in self.literals(x, i)):
                    self.soft.add(i['callee'])
        for x in sorted(self.prog.fns.values(), key=lambda x: x.dem):
            if not re.search(only or self.rules.scope, x.j.get('file') or '') or re.search(r"\$_\d|lambda", x.dem):
                continue
            fnm = plain(x.dem)
            no = {}
            for i, n, kind in self.sites(x):
                if not re.match('(' + self.rules.must_use + ')$', n):
                    if i.get('callee') not in self.fallible and n not in self.byname:
                        continue
                if any(re.search(q, x.dem) and re.search(r, n) for q, r, _ in self.rules.tolerated) or not self.written(x, i, n):
                    continue
                lit = [t for t in self.literals(x, i)]
                if any(t in self.rules.optional for t in lit):
                    continue
                no[n, tuple(lit[:1])] = no.get((n, tuple(lit[:1])), 0) + 1
                key = '%s/%s%s%s' % (fnm, n, '(%s)' % lit[0][:40] if lit else '', '#%d' % no[n, tuple(lit[:1])] if no[n, tuple(lit[:1])] > 1 else '')
                ctx.part(key, self.site, x, i, n, kind, key)

    def written(self, x, i, n):
        """streams matter when they are written to; the trace of the ecCodes calls does not"""
        ev = self.ev(x)
        if n == 'fwrite':
            return 'trace' not in getattr(ev.val(i['args'][3]), 'key', '')
        if n in ('fclose', 'fflush'):
            s = getattr(ev.val(i['args'][0]), 'key', '')
            for k, j in x.inst.items():
                if j['op'] in ('call', 'invoke') and not j.get('indirect'):
                    m = short(j.get('dem') or j.get('callee') or '')
                    if re.match('fopen', m) and ev.val(k).key == s:
                        return ev.val(j['args'][1]).key[1:2] in 'wa'
                    if m == 'fwrite' and ev.val(j['args'][3]).key == s:
                        return 'trace' not in s
            return False
        return True

    def site(self, x, i, n, kind, key):
        ctx = self.ctx
        ctx.fn(x)
        ctx.count('calls that can fail: ' + n)
        try:
            rs = list(self.outcomes(x, i, kind))
        except TooBig:
            return ctx.undecided(key, 'expression too large')
        if not rs:
            ctx.good(key, 'decided at an earlier call')
        for k, (v, d, given) in enumerate(rs):
            if d is BOT:
                ctx.good(key, 'does not come back')
                continue
            c = apply_d(lambda p: failing(x, p, x.name in self.soft and kind == 'grib' and v.key != '-10', x.name in self.turned), d)
            key1 = key + ('/%s' % v.key if len(rs) > 1 else '')
            try:
                t = certain(c, given) if any(y.opaque for y in conditions(c)) else None
            except RecursionError:
                t = None
            if t is not None:
                ctx.violation(key1, 'after %s failed (result %s), it goes on to success, when %s' % (n, v.key[:60], ' and '.join(('' if b else 'not ') + y.key for y, b in t[-6:])[:500] or 'always'), x.where(i))
                continue
            oblige(ctx, key1, c, TRUE, where=x.where(i), text='after %s failed (result %s), ending in failure' % (n, v.key[:60]), fn=x, given=given)
