"""C18: files that cannot be opened or end too early are reported"""
from ..semcheck import *
from ..failures import Outcome, failing, certain, conditions, plain
from .. import facts, layout
LEVEL = 'proof'
RULE = '''From every operation that opens an input file or takes bytes from one, with the state of its stream set to failed from there
on, every path must end in an exception or in the failure value of the function around it.  A function that was given the stream by its
caller may instead leave it failed: then its calls are operations of that kind in its callers, up to the function that owns the stream.
A call of a function that always throws on a failed stream counts as an exception.'''
ASSUME = ['a stream that failed stays failed: nothing clears its state (checked: no call of clear or of setstate with a good state)', 'streams are not asked to throw by themselves']
TRUST = ['the C++ library sets failbit when it delivers fewer bytes than asked for']
KEEP = r'[rR]ead|get|[oO]pen|operator>>|init|[sS]can|[dD]ata'
TAKE = r'std::(basic_)?istream(<[^>]*>*)?::(read|get|getline|ignore|readsome|operator>>)\(|std::(basic_)?istream(<.*>)?& std::(operator>>|getline)|std::getline'
OPEN = r'(std::)?basic_(i|)fstream<.*>::(basic_(i|)fstream\(.*_Ios_Openmode|open\()'
TEST = {'fail': 1, 'operator!': 1, 'good': 0, 'operator bool': 0}
# ways of failing: the file ends too early, an error of the device, the file could not be opened
WAYS = {'short': {'eof': 1, 'bad': 0, 'is_open': 1}, 'error': {'eof': 0, 'bad': 1, 'is_open': 1}, 'closed': {'eof': 0, 'bad': 0, 'is_open': 0}}
TAKES = ('_ZTISt9exception', '_ZTISt13runtime_error')
STREAM = r'std::(basic_)?(istream|ifstream|fstream|iostream)\b'


class Streams:
    def __init__(self, prog, lib=None):
        self.prog, self.lib = prog, lib
        # (function, way) -> arguments it may leave failed; (function, argument, way) that it throws for when it was failed before
        self.passing, self.strict = dict(lib.passing) if lib else {}, set(lib.strict) if lib else set()
        self.fails = dict(lib.fails) if lib else {}     # functions that tell their callers by a null or false result
        self.odd = set(lib.odd) if lib else set()       # functions that the analysis gives up on
        self.fns = [x for x in prog.fns.values() if x.j.get('file')]
        self.ops = {x.name: list(self.operations(x)) for x in self.fns}

    def dem(self, i):
        return i.get('dem') or i.get('callee') or ''

    def root(self, x, v, depth=0):
        """the stream object a pointer leads to: an argument, a local one or a member of this"""
        if not isinstance(v, str) or depth > 20:
            return None
        base, off, syms = x.addr(v)
        m = re.match(r'a(\d+)$', str(base))
        if m:
            n = int(m.group(1))
            if self.streams(x, n):
                return ('arg', n)
            return ('member', n, self.member((x.j['ptypes'] + [None] * 9)[n], off))
        i = x.inst.get(base)
        if i is None:
            return None
        if i['op'] == 'alloca':
            return ('local', base)
        if i['op'] in ('call', 'invoke') and i['args'] and not i.get('indirect'):
            return self.root(x, i['args'][0], depth + 1)
        if i['op'] == 'phi':
            rs = {self.root(x, w, depth + 1) for w, p in i['in'] if w != base}
            return rs.pop() if len(rs) == 1 else None
        return None

    def member(self, cls, off):
        for m in (self.prog.types.get(cls) or {}).get('members') or []:
            if m['o'] <= off < m['o'] + m['t'].get('sz', 8):
                return m['o']
        return off

    def operations(self, x):
        """(instruction, kind, stream)"""
        for k, i in x.inst.items():
            if i['op'] not in ('call', 'invoke') or i.get('indirect'):
                continue
            d = self.dem(i)
            y = self.prog.fns.get(i.get('callee')) or self.lib and self.lib.prog.fns.get(i.get('callee'))
            if y is None and re.search(TAKE, d):
                r = self.root(x, i['args'][0])
                if r:
                    yield i, 'take', r, None
            elif y is None and re.search(r'istream(<.*>)?::gcount\(', d):
                r = self.root(x, i['args'][0])
                if r:
                    yield i, 'count', r, None
            elif y is None and re.search(r'fstream<.*>::is_open\(', d):
                r = self.root(x, i['args'][0])
                if r:
                    yield i, 'test', r, 'is_open'
            elif y is None and re.search(OPEN, d):
                r = self.root(x, i['args'][0])
                if r:
                    yield i, 'open', r, None
            elif y is None and re.search(r'std::(basic_)?(ios|ios_base|istream|ifstream|fstream)\b.*::(%s)\(' % '|'.join(map(re.escape, list(TEST) + ['bad', 'eof'])), d) or y is None and re.search('::(operator bool|operator!)', d) and 'basic_ios' in d:
                r = self.root(x, i['args'][0])
                if r:
                    yield i, 'test', r, re.search(r'::(fail|good|bad|eof|operator!|operator bool)\(', d).group(1)
            elif y is not None:
                for n, a in enumerate(i['args']):
                    if n < len(y.j['args']) and self.streams(y, n):
                        r = self.root(x, a)
                        if r:
                            yield i, 'pass', r, n

    def streams(self, y, n):
        """is argument n of a function a stream to read from"""
        t = y.j.get('ptypes') or []
        return n < len(t) and bool(t[n]) and bool(re.match(STREAM, t[n]))


class Path(Outcome):
    def fork(self, X, env, ev):
        """a loop around the failure ends some time"""
        ins = [h for h in self.around if X in self.loops[h]]
        t = self.fn.blocks[X]['insts'][-1]
        if t['op'] == 'br' and t.get('c') is not None and any((t['T'] in self.loops[h]) != (t['F'] in self.loops[h]) for h in ins):
            a, b = (self.edge(X, t[k], env, ev) for k in 'TF')
            if a is not BOT and b is not BOT and a.key != b.key and ev.val(t['c'], 'i1').opaque:
                return ite(mk_eq(f('exit:%s' % X, integer=True)), a, b)
        return super().fork(X, env, ev)


class After(Path):
    """what becomes of a function once a stream has failed"""
    def __init__(self, st, x, i, stream, way):
        self.st, self.stream, self.at = st, stream, i
        vs = {}
        self.stops = set()
        for j, kind, r, what in st.ops[x.name]:
            if r != stream:
                continue
            if kind == 'test':
                vs['%%%d' % j['id']] = C(TEST[what] if what in TEST else WAYS[way][what])
            if kind == 'count':
                vs['%%%d' % j['id']] = self.count(x, j)
            if kind == 'pass' and (j['callee'], what, way) in st.strict:
                self.stops.add('%%%d' % j['id'])
        if i is None:
            i = x.blocks[x.rpo()[0]]['insts'][0]
        else:
            self.at = i
        super().__init__(st.prog, x, i, vs)
        self.first = True

    def count(self, x, j):
        """bytes that the last read before this question got"""
        ev = Ev(self.st.prog, x, throw_leaf=True)
        order = {i['id']: n for n, i in enumerate(i for b in x.rpo() for i in x.blocks[b]['insts'])}
        before = [i for i, kind, r, w in self.st.ops[x.name] if kind == 'take' and r == self.stream and i['id'] in order and order[i['id']] < order[j['id']] and x.blk['%%%d' % i['id']] in ev.dom[x.blk['%%%d' % j['id']]]]
        last = max(before, key=lambda i: order[i['id']]) if before else None
        if last is None or self.at is None or last['id'] != self.at['id'] or len(last['args']) < 3:
            return C(0)
        return ev.val(last['args'][2]) - 1

    def G(self, X, env):
        seen = not (self.first and self.at is not None)
        self.first = False
        for j in self.fn.blocks[X]['insts']:
            if not seen:
                seen = j['id'] == self.at['id']
            elif '%%%d' % j['id'] in self.stops:
                return f('THROW')
        return super().G(X, env)


class Caught(Path):
    """what becomes of a function once an exception has entered one of its handlers"""
    def __init__(self, prog, x, pad):
        # which of the handlers it is: the first that takes a std::runtime_error
        vs, takes, nos = {}, None, {}
        lp = next(j for j in x.blocks[pad]['insts'] if j['op'] == 'landingpad')
        self.pad = '%%%d' % lp['id']
        for n, (how, g) in enumerate(lp.get('clauses') or []):
            t = g.get('g') if isinstance(g, dict) else None
            nos[t] = nos.get(t, n + 1)
            if how == 'catch' and takes is None and (t is None or t in TAKES):
                takes = nos[t]
        self.taken = takes is not None
        for k, i in x.inst.items():
            if 'llvm.eh.typeid.for' in (i.get('dem') or i.get('callee') or ''):
                g = i['args'][0]
                vs[k] = C(nos.get(g.get('g') if isinstance(g, dict) else None, 99))
            elif i['op'] == 'extractvalue' and i.get('ot') == '{ ptr, i32 }':
                vs[k] = C(takes or 0)
            elif i['op'] == 'landingpad':
                vs[k] = P(atom('opq', 'caught:' + k))
        super().__init__(prog, x, x.blocks[pad]['insts'][0], vs)


def readers(st):
    """functions that read files themselves or through others"""
    seen = {x.name for x in st.fns if any(k in ('take', 'open') for i, k, r, w in st.ops[x.name])}
    if st.lib:
        seen |= readers(st.lib)
    changed = True
    while changed:
        n = len(seen)
        seen |= {x.name for x in st.fns for i in x.inst.values() if i['op'] in ('call', 'invoke') and i.get('callee') in seen}
        changed = len(seen) > n
    return seen


def handlers(ctx, st, scope, name):
    """exceptions that readers throw end in failure where they are caught"""
    rd = readers(st)
    for x in sorted(st.fns, key=lambda x: x.dem):
        if not re.search(scope, x.j.get('file') or ''):
            continue
        no = 0
        for b in x.rpo():
            pad = x.blocks[b]['insts']
            if not any(j['op'] == 'landingpad' and any(c[0] == 'catch' for c in j.get('clauses') or []) for j in pad):
                continue
            cs = [i for i in x.inst.values() if i['op'] == 'invoke' and i.get('unwind') == b and (i.get('callee') in rd or '__cxa_rethrow' == st.dem(i))]
            cs = [i for i in cs if st.dem(i) != '__cxa_rethrow' or x.name in rd]
            if not cs or not any('__cxa_begin_catch' in st.dem(j) for y in reached_from(x, b) for j in x.blocks[y]['insts']):
                continue
            no += 1
            ctx.part('%s%s/catch#%d' % (name, plain(x.dem), no), handler, ctx, st, x, b, cs, '%s%s/catch#%d' % (name, plain(x.dem), no))


def tells(st, x, d):
    """the result that says to the callers that reading failed"""
    if d is not BOT and x.j['ret'] in ('ptr', 'i1') and any(p.key == '0' for p in leaves(d)):
        st.fails[x.name] = C(0)


def told(ctx, st, scope, name):
    """calls of functions that say so when they could not read"""
    done = set()
    while True:
        todo = [(x, i) for x in st.fns for i in x.inst.values() if i['op'] in ('call', 'invoke') and i.get('callee') in st.fails and (x.name, i['id']) not in done]
        if not todo:
            return
        no = {}
        for x, i in sorted(todo, key=lambda t: (t[0].dem, t[1]['id'])):
            done.add((x.name, i['id']))
            n = short(st.dem(i))
            no[x.name, n] = no.get((x.name, n), 0) + 1
            if re.search(scope, x.j.get('file') or ''):
                ctx.part(x.dem, use, ctx, st, x, i, n, '%s%s/%s said no#%d' % (name, plain(x.dem), n, no[x.name, n]))


def use(ctx, st, x, i, n, key):
    ctx.fn(x)
    ctx.count('calls of functions that say when they could not read')
    d = Outcome(st.prog, x, i, {'%%%d' % i['id']: st.fails[i['callee']]}).diagram()
    tells(st, x, d)
    judge(ctx, st, x, d, Ev(st.prog, x, throw_leaf=True).under(x.blk['%%%d' % i['id']]), 'after %s could not read' % n, key, x.where(i))


def judge(ctx, st, x, d, given, what, key, where):
    if d is BOT:
        return ctx.good(key, 'does not come back')
    c = apply_d(lambda p: failing(x, p), d)
    t = certain(c, given) if any(y.opaque for y in conditions(c)) else None
    if t is not None:
        return ctx.violation(key, '%s it goes on to success, when %s' % (what, ' and '.join(('' if v else 'not ') + y.key for y, v in t[-6:])[:500] or 'always'), where)
    oblige(ctx, key, c, TRUE, where=where, text=what + ', ending in failure', fn=x, given=given)


def reached_from(x, b):
    seen, todo = set(), [b]
    while todo:
        y = todo.pop()
        if y not in seen:
            seen.add(y)
            todo += x.succ[y]
    return seen


def handler(ctx, st, x, b, cs, key):
    ctx.fn(x)
    ctx.count('handlers of exceptions')
    h = Caught(st.prog, x, b)
    if not h.taken:
        return ctx.good(key, 'does not take exceptions of readers')
    d = h.diagram()
    tells(st, x, d)
    judge(ctx, st, x, d, TRUE, 'after an exception of %s was caught' % ', '.join(sorted({short(st.dem(i)) for i in cs}))[:100], key, x.where(cs[0]))


def run(ctx):
    prog = program(keep=KEEP)
    st = Streams(prog)
    ctx.part('library', one_program, ctx, st, 'msat/|gdal/', '')
    for tool in ('tools/hrit/XRIT2Image.cpp', 'tools/hrit/xritdump.cpp', 'tools/msat.cpp', 'tools/msg-native/nativedump.cpp', 'tools/msg-native/native2Image.cpp'):
        name = tool.rsplit('/', 1)[1] + ':'
        ctx.part(name, lambda: one_program(ctx, Streams(layout.Program(facts.dump('sem', tool, KEEP + '|^main')), st), tool, name))


def one_program(ctx, st, scope, name):
    cleared = [(x, i) for x in st.fns for i in x.inst.values() if i['op'] in ('call', 'invoke') and re.search(r'basic_ios<.*::clear\(', st.dem(i))]

    def result(x, i, stream, way):
        """condition under which the function fails once the stream has failed at i (None: at its start)"""
        d = After(st, x, i, stream, way).diagram()
        return d if d is BOT else apply_d(lambda p: failing(x, p), d)

    def always(*a):
        try:
            c = result(*a)
        except Exception:
            st.odd.add(a[0].name)
            return False
        return c is BOT or c.key == TRUE.key
    changed = True
    while changed:
        changed = False
        for x in st.fns:
            for n in {r[1] for j, k, r, w in st.ops[x.name] if r[0] == 'arg'}:
                for way in WAYS:
                    if (x.name, n, way) not in st.strict and always(x, None, ('arg', n), way):
                        st.strict.add((x.name, n, way))
                        changed = True

    def sites(x):
        for i, kind, r, w in st.ops[x.name]:
            for way in WAYS:
                if kind == 'open' and way == 'closed' or kind == 'take' and way != 'closed' or kind == 'pass' and w in st.passing.get((i['callee'], way), ()):
                    yield i, kind, r, way
    changed = True
    while changed:
        changed = False
        for x in st.fns:
            for i, kind, r, way in sites(x):
                if r[0] == 'arg' and r[1] not in st.passing.get((x.name, way), ()) and not always(x, i, r, way):
                    st.passing.setdefault((x.name, way), set()).add(r[1])
                    changed = True
    for x in sorted(st.fns, key=lambda x: x.dem):
        if not re.search(scope, x.j.get('file') or ''):
            continue
        no = {}
        for i, kind, r, way in sites(x):
            n = short(st.dem(i))
            no[n, way] = no.get((n, way), 0) + 1
            key = '%s%s/%s#%d/%s' % (name, plain(x.dem), n, no[n, way], way)
            ctx.part(key, site, ctx, st, x, i, n, kind, r, way, key)
    ctx.part(name + 'handlers', handlers, ctx, st, scope, name)
    ctx.part(name + 'results', told, ctx, st, scope, name)
    for x, i in cleared:
        ctx.undecided(name + plain(x.dem), 'clears the state of a stream')


def site(ctx, st, x, i, n, kind, r, way, key):
    ctx.fn(x)
    ctx.count({'open': 'files opened', 'take': 'reads', 'pass': 'calls of functions that may leave the stream failed'}[kind])
    if r[0] == 'arg' and r[1] in st.passing.get((x.name, way), ()):
        return ctx.good(key, 'left to the callers, which see the stream failed')
    if i.get('callee') in st.odd:
        return ctx.undecided(key, 'what the called function does is not known')
    d = After(st, x, i, r, way).diagram()
    tells(st, x, d)
    what = {'short': 'after the file ended too early', 'error': 'after an error of the stream', 'closed': 'after the file could not be opened'}[way]
    judge(ctx, st, x, d, Ev(st.prog, x, throw_leaf=True).under(x.blk['%%%d' % i['id']]), '%s in %s' % (what, n), key, x.where(i))
