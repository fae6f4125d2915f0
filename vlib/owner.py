"""Ownership: what becomes of something acquired (memory, a file, a handle, the result of a search, a transformation) along every path
from the place where it is acquired, normal and exceptional: it must be released, handed to somebody else, returned, or kept in a member
of an object that releases it.  Conditions along the paths are those of the value numbering, so that a release under a condition and an
exit under the opposite one do not meet."""
from .failures import *
from . import exc

# acquisition -> functions that release it
KINDS = [(r'new$', 'delete', 'memory'), (r'new\[\]$', r'delete\[\]', 'memory'), (r'(CPL|VSI)(Malloc|Calloc|Strdup|Realloc)$|strdup$|malloc$|calloc$', r'VSIFree|CPLFree|free', 'memory'),
         (r'fopen(64)?$|fdopen$', 'fclose', 'file'), (r'opendir$', 'closedir', 'directory'), (r'grib_handle_new_from_\w+$|grib_handle_clone$|codes_handle_new\w*$', r'(grib|codes)_handle_delete', 'handle'),
         (r'CloneGeogCS$', r'delete|Release|~OGRSpatialReference|DestroySpatialReference|v[01]', 'projection'), (r'OGRSpatialReference::Clone$', r'delete|Release|~OGRSpatialReference|DestroySpatialReference|v[01]', 'projection'),
         (r'OGRCreateCoordinateTransformation$', r'delete|DestroyCT|OCTDestroyCoordinateTransformation|~OGRCoordinateTransformation|v[01]', 'transformation'),
         (r'GDALOpen(Ex)?$|GDALCreateCopy$|GDALCreate$', r'GDALClose|delete|v1', 'dataset'), (r'CSLAddString$|CSLAddNameValue$|CSLSetNameValue$|CSLDuplicate$', 'CSLDestroy', 'list')]
RELEASE = re.compile(r'(delete|delete\[\]|VSIFree|CPLFree|free|fclose|closedir|globfree(64)?|(grib|codes)_handle_delete|DestroyCT|DestroySpatialReference|Release|OCTDestroyCoordinateTransformation|GDALClose|CSLDestroy)$')
TAKERS = re.compile(r'CSL(Add|Set)|grib_handle_new_from_message$')
# C++ functions of libraries that look at what they are given and do not keep it
LOOKERS = re.compile(r'std::(basic_)?([io]|io|f|if|of)stream(<.*>)?::(read|write|get|getline|readsome|operator<<)|std::char_traits|std::__ostream_insert|std::(basic_)?operator<<|'
                     r'std::__cxx11::basic_string<.*>::(basic_string|assign|append|operator=|operator\+=|_M_)|OGRCoordinateTransformation::|OGRCreateCoordinateTransformation|OGRSpatialReference::(?!Release|DestroySpatialReference)|GDALDataset::(Get|Raster)|GDALRasterBand::(Get|Raster)')


def callee_name(i):
    return short(i.get('dem') or i.get('callee') or '')


class Program:
    """what can be thrown, kept and released by which function"""

    def __init__(self, prog):
        self.prog = prog
        self.graph = exc.Graph()
        self._keeps, self._frees, self.evs = {}, {}, {}

    def ev(self, x):
        if x.name not in self.evs:
            self.evs[x.name] = Ev(self.prog, x, throw_leaf=True)
        return self.evs[x.name]

    def throws(self, x, i):
        n = i.get('callee') or ''
        if i.get('indirect'):
            return False
        if n in ('__cxa_throw', '__cxa_rethrow'):
            return True
        if n in self.graph.fns:
            return bool(self.graph.esc[n])
        return bool(n) and bool(self.graph.external(n))

    def roots(self, x, v, seen=None):
        """values that a pointer may be"""
        seen = set() if seen is None else seen
        if not isinstance(v, str) or v in seen:
            return seen
        seen.add(v)
        i = x.inst.get(v)
        if i is None:
            return seen
        if i['op'] in ('bitcast', 'freeze', 'addrspacecast', 'ptrtoint', 'inttoptr'):
            self.roots(x, i['a'][0], seen)
        elif i['op'] == 'getelementptr':
            self.roots(x, i['base'], seen)
        elif i['op'] == 'phi':
            for w, _ in i['in']:
                self.roots(x, w, seen)
        elif i['op'] == 'select':
            for w in i['a'][1:]:
                self.roots(x, w, seen)
        return seen

    def member(self, x, v):
        """(argument, offset) that a pointer was loaded from"""
        out = set()
        for r in self.roots(x, v):
            i = x.inst.get(r)
            if i is not None and i['op'] == 'load':
                b = x.addr(i['p'])
                if isinstance(b[0], str) and re.match(r'a\d+$', b[0]) and not b[2]:
                    out.add((b[0], b[1]))
        return out

    def release(self, x, i):
        """argument that the call releases, and by which function"""
        if i.get('indirect'):
            fp = i['indirect']
            j = x.inst.get(fp) if isinstance(fp, str) else None
            if j is not None and j['op'] == 'load' and i.get('args'):
                b = x.addr(j['p'])
                if isinstance(b[0], str) and x.inst.get(b[0], {}).get('op') == 'load' and not b[2] and b[1] in (0, 8) and len(i['args']) == 1:
                    o = x.inst[b[0]]['p']
                    if self.roots(x, o) & self.roots(x, i['args'][0]):
                        return i['args'][0], 'v%d' % (b[1] // 8)
            return None
        n = callee_name(i)
        if RELEASE.match(n) and i.get('args'):
            return i['args'][0], n
        return None

    def keeps(self, g, k, depth=0):
        """the function may keep, release or hand on its k-th argument"""
        if (g, k) in self._keeps:
            return self._keeps[g, k]
        y = self.prog.fns.get(g)
        if y is None or depth > 6:
            return True
        self._keeps[g, k] = False
        r = any(self.takes(y, j, lambda v: 'a%d' % k in self.roots(y, v), depth) for j in y.inst.values())
        self._keeps[g, k] = r
        return r

    def takes(self, x, i, mine, depth=0):
        """the instruction hands what it is given to somebody else (a release counts)"""
        op = i['op']
        if op == 'store':
            return mine(i['v']) if isinstance(i['v'], str) else False
        if op in ('ret', 'resume'):
            a = i['a'][0] if i.get('a') else i.get('v')
            return isinstance(a, str) and mine(a)
        if op not in ('call', 'invoke'):
            return op in ('insertvalue', 'cmpxchg', 'atomicrmw') and any(isinstance(a, str) and mine(a) for a in i.get('a', []))
        if self.release(x, i) and mine(self.release(x, i)[0]):
            return True
        n, dem = i.get('callee') or '', i.get('dem') or ''
        for k, a in enumerate(i.get('args', [])):
            if not isinstance(a, str) or not mine(a):
                continue
            if i.get('indirect'):
                if k:
                    return True
                continue
            if n in self.prog.fns:
                if self.refused(n, k, i['args']):
                    continue
                if k == 0 and re.search(r'::(~?)(\w+)(<.*>)?::~?\2\(|^(\w+)::~?\4\(', dem):
                    continue
                if self.keeps(n, k, depth + 1):
                    return True
                continue
            if n.startswith('llvm.') or '(' not in dem and '::' not in dem:
                if TAKERS.match(n):
                    return True
                continue
            if LOOKERS.search(dem):
                continue
            if k == 0 and re.search(r'(^|::)~?(\w+)(<.*>)?::~?\2\(', dem) and not dem.startswith('std::'):
                continue
            return True
        return False

    def refused(self, g, k, args):
        """with the constants it is given, the function does nothing that would make the k-th argument its own"""
        y = self.prog.fns[g]
        cs = {'a%d' % n: C(abs(a['i']) if a.get('w') == 1 else a['i']) for n, a in enumerate(args) if isinstance(a, dict) and 'i' in a}
        if not cs or len(y.j['args']) != len(args):
            return False
        key = (g, k, tuple(sorted((n, c.key) for n, c in cs.items())))
        if key not in self._keeps:
            ev = self.ev(y)
            m = {ev.val(n).key: c for n, c in cs.items() if isinstance(ev.val(n), Poly)}
            self._keeps[key] = False
            t = []
            for j in y.inst.values():
                if self.takes(y, j, lambda v: 'a%d' % k in self.roots(y, v), 5):
                    b = y.addr(j['p'])[0] if j['op'] == 'store' else None
                    if b in y.inst and y.inst[b]['op'] == 'alloca':
                        # handed on by reference
                        t += [l for l in y.inst.values() if l['op'] in ('call', 'invoke') and any(isinstance(a, str) and y.addr(a)[0] == b for a in l.get('args', []))
                              and not (l.get('callee') or '').startswith('llvm.')]
                    else:
                        t.append(j)
            try:
                self._keeps[key] = bool(t) and all(subst(ev.under(y.blk['%%%d' % j['id']]), m).key == '0' for j in t)
            except (TooBig, RecursionError):
                pass
        return self._keeps[key]

    def frees(self, g, k, off, depth=0):
        """the function may release what is at an offset of its k-th argument"""
        key = (g, k, off)
        if key in self._frees:
            return self._frees[key]
        y = self.prog.fns.get(g)
        if y is None or depth > 6:
            return False
        self._frees[key] = False
        r = any(self.freed(y, j, ('a%d' % k, off), depth) for j in y.inst.values())
        self._frees[key] = r
        return r

    def freed(self, x, i, home, depth=0):
        """the instruction releases what is kept at a place of an argument"""
        if i['op'] not in ('call', 'invoke'):
            return False
        r = self.release(x, i)
        if r and isinstance(r[0], str) and home in self.member(x, r[0]):
            return True
        if i.get('indirect'):
            return False
        for k, a in enumerate(i.get('args', [])):
            b = x.addr(a) if isinstance(a, str) else None
            if b and b[0] == home[0] and not b[2]:
                if i.get('callee') in self.prog.fns:
                    if self.frees(i['callee'], k, home[1] - b[1], depth + 1):
                        return True
                elif b[1] == home[1] and re.search(r'std::.*(~|reset|operator=|release|swap)', i.get('dem') or ''):
                    return True
        return False


class Owned(Outcome):
    """condition under which something acquired does not get lost, over the paths from a call (or, of something that is there at the
    start, from the entry)"""
    LIMIT = 6000

    def __init__(self, P_, fn, call, mine, values=None, ctor=None, glob=None, rule=None, returns=0, raises=0):
        Outcome.__init__(self, P_.prog, fn, call or fn.blocks[fn.entry]['insts'][0], values or {})
        self.P, self.call, self.mine, self.ctor, self.glob = P_, call, mine, ctor, glob
        self.rule, self.returns, self.raises = rule, returns, raises     # rule: instruction -> 'done', 'bad', ('home', 'over') or None
        self.lost = {}
        self._event = {}

    def diagram(self):
        if self.call is None:
            return self.walk(self.fn.entry, dict(self.start), 0, None)
        b = self.fn.blocks[self.b]
        return self.walk(self.b, dict(self.start), len(b['insts']) if self.call['op'] == 'invoke' else b['insts'].index(self.call) + 1, None)

    def ends(self, i, home):
        """'done': released or handed on; ('home', h): kept in a member of the object under construction"""
        k = (i['id'] if 'id' in i else id(i), home)
        if k not in self._event:
            self._event[k] = self._ends(i, home)
        return self._event[k]

    def _ends(self, i, home):
        if self.rule:
            return self.rule(i)
        if self.glob:
            me = lambda v: isinstance(v, str) and self.fn.addr(v)[:2] == self.glob
            if i['op'] == 'store':
                return 'done' if me(i['v']) else None
            if i['op'] in ('call', 'invoke') and any(me(a) for a in i.get('args', [])):
                return 'done' if re.match(r'globfree', callee_name(i)) or (i.get('callee') in self.P.prog.fns) else None
            return None
        if home and self.P.freed(self.fn, i, home):
            return 'done'
        if self.ctor is not None and i['op'] == 'store' and isinstance(i['v'], str) and self.mine(i['v']):
            b = self.fn.addr(i['p'])
            if b[0] == 'a0' and not b[2] and b[1] in self.ctor:
                return 'home', ('a0', b[1])
        return 'done' if self.P.takes(self.fn, i, self.mine) else None

    def leak(self, i, how):
        self.lost.setdefault(how, i)
        return C(0)

    def walk(self, X, env, n, home):
        fn = self.fn
        ek, ev = self.ev(env)
        k = (X, n, home, ek)
        if k in self.memo:
            return self.memo[k]
        if k in self.on:
            return C(1)
        if len(self.memo) > self.LIMIT:
            raise TooBig()
        self.on.add(k)
        r = self.block(X, env, ev, n, home)
        self.on.discard(k)
        self.memo[k] = r
        return r

    def block(self, X, env, ev, n, home):
        fn = self.fn
        insts = fn.blocks[X]['insts']
        if n == 0 and X in self.loops and X not in self.around:
            body = self.loops[X]
            for y in body:
                for i in fn.blocks[y]['insts']:
                    e = self.ends(i, home)
                    if e == 'bad':
                        return self.leak(i, 'this')
                    if e:
                        return C(1)
            r = BOT
            e2 = {v: m for v, m in env.items() if fn.blk[v] not in body}
            _, v2 = self.ev(e2)
            for y in body:
                for i in fn.blocks[y]['insts']:
                    if i['op'] == 'call' and not self.raises and self.P.throws(fn, i):
                        g = self.leak(i, 'an exception of ' + (callee_name(i) or 'a call'))
                        r = g if r is BOT else ite(mk_eq(f('thrown:%s' % i['id'], integer=True)), g, r)
                for s in fn.succ[y]:
                    if s not in body:
                        if self.unwinds(y, s) and not self.P.throws(fn, fn.blocks[y]['insts'][-1]):
                            continue
                        g = self.next(y, s, e2, v2, home)
                        if g is not BOT:
                            r = g if r is BOT else r if g.key == r.key else ite(mk_eq(f('exit:%s:%s' % (X, y), integer=True)), g, r)
            return r
        thrown = []
        r = None
        for i in insts[n:]:
            t = i is insts[-1]
            if self.call is not None and i is self.call and not t:
                r = self.leak(i, 'being acquired again')
                break
            e = self.ends(i, home)
            if e == 'done':
                r = C(1)
                break
            if e == 'bad':
                r = self.leak(i, 'this')
                break
            if e:
                home = e[1]
            if i['op'] == 'call' and self.P.throws(fn, i):
                g = C(1) if self.raises else self.leak(i, 'an exception of ' + (callee_name(i) or 'a call'))
                if callee_name(i) in ('__cxa_throw', '__cxa_rethrow') or i.get('callee') in ('__cxa_throw', '__cxa_rethrow'):
                    r = g
                    break
                if not self.raises:
                    thrown.append(i)
        if r is None:
            t = insts[-1]
            if t['op'] == 'ret':
                r = C(1) if home != 'over' and (home or self.returns) else self.leak(t, 'the return')
            elif t['op'] == 'resume':
                r = C(1) if self.raises and home != 'over' else self.leak(t, 'an exception')
            elif t['op'] == 'unreachable':
                r = C(1)
            elif t['op'] == 'invoke':
                thr = self.P.throws(fn, t)
                r = BOT
                if t is self.call:
                    thr = False
                if (t.get('callee') not in ('__cxa_throw', '__cxa_rethrow')):
                    r = self.next(X, t['normal'], env, ev, home)
                if thr and t.get('unwind') is not None:
                    g = self.next(X, t['unwind'], env, ev, home)
                    r = g if r is BOT else r if g is BOT or g.key == r.key else ite(mk_eq(f('thrown:%s' % t['id'], integer=True)), g, r)
            else:
                r = ev.branch(X, lambda Y: self.next(X, Y, env, ev, home))
        for i in reversed(thrown):
            r = C(0) if r is BOT else r if r.key == '0' else ite(mk_eq(f('thrown:%s' % i['id'], integer=True)), C(0), r)
        return r

    def next(self, x, y, env, ev, home):
        if self.call is not None and y == self.b and not self.rule:
            # the loop comes back to the place of the acquisition
            pre = self.fn.blocks[y]['insts']
            for i in pre[:pre.index(self.call)]:
                if self.ends(i, home):
                    return C(1)
            return self.leak(self.call, 'being acquired again')
        env = dict(env)
        back = y in self.around and x in self.loops[y]
        for v in self.phis[y]:
            env.pop(v, None)
            for w, p in self.fn.inst[v]['in']:
                if p == x:
                    n = ev.val(w)
                    if isinstance(n, Poly) and n.const() is not None:
                        env[v] = C(abs(n.const())) if self.fn.inst[v].get('t') == 'i1' else n
                    elif back:
                        env[v] = f('next:' + v, integer=True)
        return self.walk(y, env, 0, home)
