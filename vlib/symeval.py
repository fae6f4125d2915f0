"""From normalised IR functions to the canonical forms of sym.py: values, memory, gated merges, loops."""
import re
from . import layout
from .ir import Fn
from .sym import *

MATH = {'sin', 'cos', 'tan', 'asin', 'acos', 'atan', 'atan2', 'sqrt', 'exp', 'log', 'log10', 'pow', 'fabs', 'floor', 'ceil', 'round', 'lround',
        'rint', 'lrint', 'nearbyint', 'trunc', 'fmod', 'hypot', 'exp2', 'log2', 'sinf', 'cosf', 'sqrtf', 'powf', 'roundf', 'lroundf', 'cbrt', 'llround', 'llrint', 'ldexp'}
IGNORE_CALLS = ('llvm.dbg', 'llvm.lifetime', 'llvm.assume', 'llvm.experimental', 'llvm.invariant')


def short(dem):
    """GDALRasterBand::RasterIO(GDALRWFlag, ...) -> RasterIO"""
    dem = dem.replace('(anonymous namespace)::', '')
    d = re.sub(r'\(.*$', '', dem, flags=re.S) if not dem.startswith('(') else dem
    d = re.sub(r'<[^<>]*>', '', d)
    d = re.sub(r'<[^<>]*>', '', d)
    d = d.strip()
    return d.split('::')[-1].split(' ')[-1]


def qname(dem):
    d = re.sub(r'\(.*$', '', dem, flags=re.S)
    for _ in range(4):
        d = re.sub(r'<[^<>]*>', '', d)
    return d.strip().split(' ')[-1]


def f(name, integer=False, cls=None):
    return P(atom('f', name, integer=integer, cls=cls))


def dsum(a, b, s=1.0):
    return apply(lambda x, y: padd(x, y, s), a, b)


def dmul(a, b):
    return apply(pmul, a, b)


def ddiv(a, b):
    return apply(pdiv, a, b)


def dfun(name, *xs):
    return apply(lambda *ps: fnatom(name, *ps), *xs)


def fnatom(name, *ps):
    name = name.rstrip('f') if name in ('sinf', 'cosf', 'sqrtf', 'powf', 'roundf', 'lroundf') else name
    if name == 'exp2':
        return fnatom('pow', C(2), ps[0])
    if name == 'ldexp':
        return pmul(ps[0], fnatom('pow', C(2), ps[1]))
    if name == 'pow':
        c = ps[1].const()
        if c is not None and c == int(c) and 0 <= c <= 8:
            r = C(1)
            for _ in range(int(c)):
                r = pmul(r, ps[0])
            return r
        if c == 0.5:
            return fnatom('sqrt', ps[0])
        if c == -1:
            return pinv(ps[0])
        if c == -2:
            return pinv(pmul(ps[0], ps[0]))
    if all(p.const() is not None for p in ps):
        try:
            v = {'round': lambda x: math.floor(abs(x) + 0.5) * (1 if x >= 0 else -1)}.get(name) or getattr(math, name)
            return C(v(*[p.const() for p in ps]))
        except Exception:
            pass
    if name in ('round', 'lround', 'floor', 'ceil', 'rint', 'lrint', 'trunc', 'nearbyint', 'llround', 'llrint') and is_int(ps[0]):
        return ps[0]
    if name in ('lround', 'llround'):
        name = 'round'
    if name in ('cos', 'fabs') and lead_sign(ps[0]) < 0:
        ps = (padd(C(0), ps[0], -1),)
    if name in ('sin', 'tan', 'atan', 'asin') and lead_sign(ps[0]) < 0:
        return padd(C(0), P(atom('fn', name, padd(C(0), ps[0], -1))), -1)
    return P(atom('fn', name, *ps, integer=name in ('round', 'floor', 'ceil', 'rint', 'lrint', 'trunc', 'nearbyint')))


def dmin(a, b):
    return ite(dlt(a, b), a, b)


def dmax(a, b):
    return ite(dlt(a, b), b, a)


def dlt(a, b, integer=None):
    def g(x, y):
        p = padd(x, y, -1)
        return mk_lt(p, is_int(p) if integer is None else integer)
    return apply_d(g, a, b)


def deq(a, b):
    def g(x, y):
        p = padd(x, y, -1)
        r = fpclass_eq(p)
        if r is not None:
            return r
        # (x srem c) == 0 is (x mod c) == 0
        if len(p.t) == 2 or len(p.t) == 1:
            q = srem_zero(p)
            if q is not None:
                p = q
        return mk_eq(p)
    return apply_d(g, a, b)


def fpclass_eq(p):
    """fpclassify(x) == c in terms of isnan / isinf / zero (subnormal numbers count as zero)"""
    q, c = split_const(p)
    if len(q.t) != 1:
        return None
    (m, co), = q.t.items()
    if len(m) != 1 or m[0][1] != 1 or m[0][0].kind != 'call' or m[0][0].a[0] not in ('fpclassify', '__fpclassify', '__fpclassifyf'):
        return None
    v = -c / co
    x = m[0][0].a[1]
    nan = isnan1(x)
    inf, zero = ite(nan, FALSE, mk_eq(padd(P(atom('isinf', x, integer=True)), C(-1)))), ite(nan, FALSE, mk_eq(x))
    if v == 0:
        return nan
    if v == 1:
        return inf
    if v == 2:
        return zero
    if v == 4:
        return ite(nan, FALSE, ite(inf, FALSE, b_not(zero)))
    return FALSE


def isnan1(x):
    return mk_eq(padd(P(atom('isnan', x, integer=True)), C(-1)))


def isnan(x):
    return apply_d(isnan1, x)


def srem_zero(p):
    """x - c*sdiv(x,c) == 0  ->  mod(x,c)"""
    for m in p.t:
        if len(m) == 1 and m[0][1] == 1 and m[0][0].kind == 'sdiv':
            a = m[0][0]
            x, c = a.a
            cc = c.const() if isinstance(c, Poly) else float(c)
            rest = padd(x, pmul(P(a), C(cc)), -1)
            for s in (1, -1):
                if padd(C(0), rest, s).key == p.key:
                    return dmod1(x, cc)
    return None


def apply_d(g, *ns, _memo=None, _n=None):
    """like apply, for leaf functions that return diagrams"""
    if _memo is None:
        _memo, _n = {}, [0]
    k = tuple(n.key for n in ns)
    if k in _memo:
        return _memo[k]
    c = top(*ns)
    if c is None:
        r = BOT if any(n is BOT for n in ns) else g(*ns)
    else:
        _n[0] += 1
        if _n[0] > CAP:
            raise TooBig()
        r = ordered(c, apply_d(g, *[cof(n, c, True) for n in ns], _memo=_memo, _n=_n), apply_d(g, *[cof(n, c, False) for n in ns], _memo=_memo, _n=_n))
    _memo[k] = r
    return r


def dmod1(x, c):
    v = x.const()
    if v is not None:
        return C(v % c)
    return P(atom('mod', x, int(c), integer=True))


def dmod(x, c):
    return apply(lambda p: dmod1(p, c), x)


def sdiv1(x, y):
    a, b = x.const(), y.const()
    if a is not None and b:
        return C(math.trunc(a / b))
    if b == 1:
        return x
    if b and all(c % b == 0 for c in x.t.values()) and is_int(x):
        return Poly({m: c / b for m, c in x.t.items()})
    return P(atom('sdiv', x, y, integer=True))


def dsdiv(x, y):
    return apply(sdiv1, x, y)


def dint(x):
    """C conversion to integer: truncation"""
    def g(p):
        c = p.const()
        if c is not None:
            return C(math.trunc(c))
        if is_int(p):
            return p
        if len(p.t) == 1:
            (m, x), = p.t.items()
            if len(m) == 1 and m[0][1] == 1 and m[0][0].kind == 'fn' and m[0][0].a[0] == 'pow' and m[0][0].a[1].const() == 2 and is_int(m[0][0].a[2]) and x == 1:
                return shl1(m[0][0].a[2])
        return P(atom('int', p, integer=True))
    return apply(g, x)


def shl1(q):
    c = q.const()
    return C(2 ** c) if c is not None and 0 <= c < 63 else P(atom('shl', C(1), q, integer=True))


def dabs(x):
    return ite(dlt(x, C(0)), dsum(C(0), x, -1), x)


def dnot(a):
    return b_not(a)


def dand(a, b):
    return ite(a, b, FALSE)


def dor(a, b):
    return ite(a, TRUE, b)


def subst(n, mp, _m=None):
    """replace atoms (by key) with polynomials everywhere"""
    if _m is None:
        _m = {}
    if n is BOT:
        return n
    k = n.key
    if k in _m:
        return _m[k]
    if isinstance(n, Ite):
        cp = subst(n.c.p, mp, _m)
        hi, lo = subst(n.hi, mp, _m), subst(n.lo, mp, _m)
        if n.c.kind == 'ilt':
            c = apply_d(lambda p: mk_lt(p, True), cp)
        elif n.c.kind == 'flt':
            c = apply_d(lambda p: mk_lt(p, False), cp)
        elif n.c.kind == 'fgt':
            c = apply_d(lambda p: mk_lt(padd(C(0), p, -1), False), cp)
        else:
            c = apply_d(mk_eq, cp)
        r = ite(c, hi, lo)
    else:
        r = C(0)
        for m, c in n.t.items():
            t = C(c)
            for a, e in m:
                v = subst_atom(a, mp, _m)
                if e > 0:
                    for _ in range(e):
                        t = dmul(t, v)
                else:
                    for _ in range(-e):
                        t = ddiv(t, v)
            r = dsum(r, t)
    _m[k] = r
    return r


def subst_atom(a, mp, _m):
    if a.key in mp:
        return mp[a.key]
    if not any(isinstance(x, (Poly, Ite, Atom)) for x in a.a):
        return P(a)
    args = [subst(x, mp, _m) if isinstance(x, (Poly, Ite)) else subst_atom(x, mp, _m) if isinstance(x, Atom) else x for x in a.a]
    if all(isinstance(x, type(y)) and getattr(x, 'key', x) == getattr(y, 'key', y) for x, y in zip(args, a.a)):
        return P(a)

    def g(*ps):
        it = iter(ps)
        xs = [next(it) if isinstance(x, (Poly, Ite, Atom)) else x for x in a.a]
        if a.kind == 'sum':
            return xs[0]
        if a.kind == 'fn':
            return fnatom(xs[0], *xs[1:])
        if a.kind == 'mod':
            return dmod1(*xs)
        if a.kind == 'sdiv':
            return sdiv1(*xs)
        if a.kind == 'int':
            return dint(xs[0])
        return P(atom(a.kind, *xs, integer=a.integer, cls=a.cls))
    ds = [x for x in args if isinstance(x, (Poly, Ite))]
    return apply_d(g, *ds)


def cofall(n, c, v, _m=None):
    _m = {} if _m is None else _m
    if not isinstance(n, Ite):
        return n
    if n.c is c:
        return n.hi if v else n.lo
    if n.key not in _m:
        _m[n.key] = node(n.c, cofall(n.hi, c, v, _m), cofall(n.lo, c, v, _m))
    return _m[n.key]


def prune(n, box):
    """drop the branches that the interval facts exclude"""
    if not isinstance(n, Ite):
        return n
    a, b = box.assume(n.c, True), box.assume(n.c, False)
    if a is None:
        return prune(n.lo, box)
    if b is None:
        return prune(n.hi, box)
    return node(n.c, prune(n.hi, a), prune(n.lo, b))


# ------------------------------------------------------------------------------------------------ evaluator

IX = {}


def ix(p):
    """text of an index in a memory name; symbolic ones are held by reference"""
    if p.const() is not None:
        return p.key
    k = '\x01%d\x02' % len(IX)
    IX[k] = p
    return k


def span(p):
    """the values of an expression over inputs of 16 and 24 bits and remainders, or None"""
    lo = hi = 0
    for m, c in p.t.items():
        a, b = 1, 1
        for x, e in m:
            n = None
            if x.kind == 'f' and isinstance(x.a[0], str):
                q = re.search(r'\.u([123])(?:be|le)@-?\d+$', x.a[0])
                n = 256 ** int(q.group(1)) - 1 if q else None
            elif x.kind == 'mod':
                n = x.a[1].const() if isinstance(x.a[1], Poly) else x.a[1]
                n = n - 1 if isinstance(n, (int, float)) else None
            elif x.kind == 'wrap':
                n = (1 << int(x.a[0])) - 1
            if n is None or e < 0 or e != int(e):
                return None
            b *= n ** e
            a = 0
        lo += min(a * c, b * c)
        hi += max(a * c, b * c)
    return lo, hi


def narrow(t, n):
    """arithmetic on short inputs that can leave the range of its 32 (64) bits does"""
    if t not in ('i32', 'i64'):
        return n
    w = int(t[1:])

    def one(p):
        r = span(p) if p.t and p.const() is None else None
        return P(atom('swrap', p, integer=True)) if r and (r[0] < -(1 << w - 1) or r[1] > (1 << w) - 1) else p
    return apply(one, n)


def signed(t, n):
    """an integer that is taken as signed from here on"""
    if t not in ('i32', 'i64'):
        return n
    w = int(t[1:])

    def one(p):
        r = span(p) if p.t and p.const() is None else None
        return P(atom('swrap', p, integer=True)) if r and r[1] > (1 << w - 1) - 1 else p
    return apply(one, n)


class Ev:
    """fn: Fn.  names: 'aN' -> (name, pointee class) for pointer arguments; other arguments take their own names."""

    def __init__(self, prog, fn, cls=None, argcls=None, names=None, callname=None, throw_leaf=False, nan=False, given=None):
        self.given = given
        self.u63 = False
        self.nan = nan                  # comparisons tell numbers from NaN exactly
        self.prog, self.fn, self.types = prog, fn, prog.types
        self.memo, self.busy, self.mm, self.clsof = {}, set(), {}, {}
        self.argname, self.argcls = {}, {}
        for k, a in enumerate(fn.j['args']):
            # arguments are known by position, not by the name they happen to have
            self.argname['a%d' % k] = 'this' if k == 0 and a[0] == 'this' else '%s%d' % ('p' if a[1] == 'ptr' else 'i' if a[1].startswith('i') else 'x', k)
        if fn.j.get('cls') and self.argname.get('a0') in ('this',):
            self.argcls['a0'] = cls or fn.j['cls']
        for k, c in enumerate(fn.j.get('ptypes') or []):
            if c and 'a%d' % k not in self.argcls:
                self.argcls['a%d' % k] = c
        self.argcls.update(argcls or {})
        self.argname.update(names or {})
        for v, c in self.argcls.items():
            self.clsof[self.argname.get(v, v)] = c
        self.callname = callname
        self.apart = False      # calls of one function write different things
        self.throw_leaf = throw_leaf
        self.loops = fn.loops()
        self.dom = fn.dominators()
        self._idom = {}
        self.hdrs = [b for b in fn.rpo() if b in self.loops]
        self.reachto = {}
        self.callno = {}
        self.stores_by = None

    # ---- loops
    def kname(self, h):
        return 'k%d' % self.hdrs.index(h)

    def k(self, h):
        return f(self.kname(h), integer=True)

    def inner_loops(self, b):
        """headers of the loops containing b, outermost first"""
        return sorted([h for h in self.loops if b in self.loops[h]], key=lambda h: -len(self.loops[h]))

    def idom(self, b):
        if b not in self._idom:
            ds = self.dom[b] - {b}
            self._idom[b] = max(ds, key=lambda d: len(self.dom[d])) if ds else None
        return self._idom[b]

    # ---- values
    def val(self, v, t=None):
        if v is None:
            return P(atom('opq', 'none'))
        if isinstance(v, dict):
            if 'i' in v:
                x = v['i']
                if t == 'i1' or v.get('w') == 1:
                    x &= 1
                return C(x)
            if 'I' in v:
                return C(float(int(v['I'])))
            if 'f' in v:
                try:
                    x = float(v['f'])
                except ValueError:
                    x = math.nan
                if math.isnan(x):
                    return f('NaN')
                if math.isinf(x):
                    return f('Inf') if x > 0 else dsum(C(0), f('Inf'), -1)
                return C(x)
            if 'g' in v:
                if 's' in v and v['s'] is not None:
                    return padd(f('"%s"' % v['s']), C(0))
                return padd(f('@' + v['g']), C(v.get('o', 0)))
            if 'null' in v or 'zero' in v:
                return C(0)
            if 'undef' in v:
                return BOT
            return P(atom('opq', 'const'))
        r = self.memo.get(v)
        if r is not None:
            return r
        if not v.startswith('%'):
            t = self.argt(v)
            n = self.argname.get(v, v)
            if self.argcls.get(v):
                self.clsof[n] = self.argcls[v]
            return f(n, integer=t.startswith('i'))
        if v in self.busy:
            return P(atom('opq', '%s:%s' % (self.fn.name, v)))
        self.busy.add(v)
        try:
            r = self.val_(v, self.fn.inst[v])
        except TooBig:
            r = P(atom('opq', 'big:%s:%s' % (self.fn.name, v)))
        self.busy.discard(v)
        self.memo[v] = r
        return r

    def argt(self, v):
        try:
            return self.fn.j['args'][int(v[1:])][1] or ''
        except (IndexError, ValueError):
            return ''

    def opq(self, v, why=''):
        return P(atom('opq', '%s%s:%s' % (why, self.fn.name[-40:], v)))

    def val_(self, v, i):
        op = i['op']
        a = i.get('a') or []
        t = i.get('t', '')
        if op == 'phi':
            return self.phi(v, i)
        if op in ('zext', 'sext', 'freeze', 'bitcast', 'fpext', 'fptrunc', 'sitofp', 'uitofp', 'ptrtoint', 'inttoptr', 'addrspacecast'):
            x = self.val(a[0], i.get('ot'))
            if op == 'zext' and i.get('ot') == 'i8':
                n = self.bytename(v, i)
                if n is not None:
                    return n
            if op == 'sext' and i.get('ot') == 'i1':
                return dmul(x, C(-1))
            if op == 'fpext' and isinstance(a[0], str) and self.fn.inst.get(a[0], {}).get('op') in (
                    'fptrunc', 'phi', 'select', 'fadd', 'fsub', 'fmul', 'fdiv', 'sitofp', 'uitofp'):
                # a number that has been in single precision
                return apply(lambda p: p if p.const() is not None else P(atom('f32', p)), x)
            if op in ('sext', 'sitofp'):
                x = signed(i.get('ot'), x)
            if op == 'bitcast' and t in ('float', 'double', 'i32', 'i64') and i.get('ot') in ('float', 'double', 'i32', 'i64') and t != i.get('ot'):
                return apply(lambda p: P(atom('bits', p)), x)
            return x
        if op == 'trunc':
            x = self.val(a[0])
            w = self.fn.width(t)
            if w >= 32:
                return x
            if w == 1:
                return dmod(x, 2)
            n = self.bytename(v, i)
            if n is not None:
                return n
            return apply(lambda p: C(p.const() % (1 << w)) if p.const() is not None else P(atom('wrap', w, p, integer=True)), x)
        if op in ('add', 'sub', 'fadd', 'fsub'):
            if t == 'i1':
                return apply_d(lambda x, y: dmod(padd(x, y), 2), self.val(a[0]), self.val(a[1]))
            return narrow(t, dsum(self.val(a[0]), self.val(a[1]), 1.0 if 'add' in op else -1.0))
        if op in ('mul', 'fmul'):
            return narrow(t, dmul(self.val(a[0]), self.val(a[1])))
        if op == 'fneg':
            return dsum(C(0), self.val(a[0]), -1)
        if op == 'fdiv':
            return ddiv(self.val(a[0]), self.val(a[1]))
        if op == 'frem':
            return dfun('fmod', self.val(a[0]), self.val(a[1]))
        if op in ('sdiv', 'udiv'):
            return dsdiv(self.val(a[0]), self.val(a[1]))
        if op in ('srem', 'urem'):
            x, y = self.val(a[0]), self.val(a[1])
            return apply(lambda p, q: dmod1(p, q.const()) if op == 'urem' and q.const() else padd(p, pmul(sdiv1(p, q), q), -1), x, y)
        if op == 'shl':
            n = self.bytename(v, i)
            if n is not None:
                return n
            y = self.val(a[1])
            if isinstance(y, Poly) and y.const() is not None:
                return narrow(t, dmul(self.val(a[0]), C(2 ** int(y.const()))))
            return apply(lambda p, q: pmul(p, shl1(q)), self.val(a[0]), y)
        if op in ('lshr', 'ashr'):
            n = self.bytename(v, i)
            if n is not None:
                return n
            y = self.val(a[1])
            if isinstance(y, Poly) and y.const() is not None:
                k = 2.0 ** int(y.const())
                if t in ('i8', 'i16', 'i32', 'i64') and y.const() == int(t[1:]) - 1:
                    # the sign
                    return apply_d(lambda p: ite(mk_lt(p, True), C(1 if op == 'lshr' else -1), C(0)), self.val(a[0]))

                def sh(p):
                    if p.const() is not None:
                        return C(math.floor(p.const() / k))
                    if all(c % k == 0 for c in p.t.values()):
                        return Poly({m: c / k for m, c in p.t.items()})
                    return P(atom('idiv', p, C(k), integer=True))
                return apply(sh, signed(t, self.val(a[0])) if op == 'ashr' else self.val(a[0]))
            return self.opq(v)
        if op in ('and', 'or', 'xor'):
            return self.logic(v, i, op, a, t)
        if op == 'select':
            return ite(self.val(a[0], 'i1'), self.val(a[1]), self.val(a[2]))
        if op == 'icmp':
            return self.icmp(i['pred'], a, i.get('ot', ''))
        if op == 'fcmp':
            return self.fcmp(i['pred'], self.val(a[0]), self.val(a[1]), a)
        if op in ('fptosi', 'fptoui'):
            return dint(self.val(a[0]))
        if op == 'getelementptr':
            if i.get('base') == '?':
                return self.opq(v)
            r = dsum(self.val(i['base']), C(i['off']))
            for var, sc in i.get('vars', []):
                r = dsum(r, dmul(self.val(var), C(sc)))
            return r
        if op == 'alloca':
            return f('local:%s:%s' % (self.fn.name[-30:], v))
        if op == 'load':
            return self.load(v, i)
        if op in ('call', 'invoke'):
            return self.call(v, i)
        if op == 'extractvalue':
            x = self.val(a[0]) if a else self.opq(v)
            return apply(lambda p: P(atom('call', 'part', p, str(i.get('idx', i.get('indices', ''))))), x)
        return self.opq(v, op + ':')

    def logic(self, v, i, op, a, t):
        if t == 'i1':
            x, y = self.val(a[0], 'i1'), self.val(a[1], 'i1')
            if op == 'and':
                return ite(x, y, FALSE)
            if op == 'or':
                return ite(x, TRUE, y)
            return ite(x, b_not(y), y)
        n = self.bytename(v, i)
        if n is not None:
            return n
        y = a[1]
        if isinstance(y, dict) and 'i' in y:
            c = y['i'] & ((1 << (self.fn.width(t) or 64)) - 1)
            x = self.val(a[0])
            if op == 'and' and c and c & (c + 1) == 0:
                return apply(lambda p: dmod1(p, c + 1), x)
            if op == 'and':
                tz = (c & -c).bit_length() - 1
                m = c >> tz
                if m & (m + 1) == 0 and tz + m.bit_length() == self.fn.width(t):
                    # clears low bits
                    return apply(lambda p: padd(p, dmod1(p, 1 << tz), -1), x)
            if op == 'xor' and c == (1 << self.fn.width(t)) - 1:
                return dsum(C(-1), x, -1)
            if op == 'or' and c and isinstance(x, Poly) and x.t and all(m != () and k == int(k) and int(k) % (1 << c.bit_length()) == 0 for m, k in x.t.items()):
                return padd(x, C(c))            # the low bits are free
        x, y = self.val(a[0]), self.val(a[1])
        return apply(lambda p, q: P(atom(op, *sorted([p, q], key=lambda z: z.key), integer=True)), x, y)

    def bytename(self, v, i):
        """integers assembled from consecutive input bytes are named by them"""
        w = self.fn.width(i.get('t', ''))
        if w < 16:
            return None
        bs = self.fn.bits(v, w)
        if not any(isinstance(b, tuple) and b[0] == 'src' for b in bs) or any(isinstance(b, tuple) and b[0] != 'src' for b in bs):
            return None
        d = layout.describe(bs, 'unsigned')
        m = re.match(r'u(\d*)(be|le)?@(-?\d+)$', d)
        if not m:
            return None
        s = next(b for b in bs if isinstance(b, tuple))
        if s[3]:
            return None
        n = int(m.group(1) or 1)
        if n == 1:
            return None
        # the bytes must be input, not something stored here before
        base = self.val(s[1]) if isinstance(s[1], str) and not s[1].startswith('@') else f(str(s[1]))
        if not isinstance(base, Poly):
            return None
        x = f('%s.u%d%s@%s' % (base.key, n, m.group(2) or '', m.group(3)), integer=True)
        return x

    def nonneg(self, p):
        return all(c >= 0 for c in p.t.values()) and all(a.key in NONNEG or a.kind in ('mod', 'wrap') or a.key.startswith('k') and a.kind == 'f' for m in p.t for a, e in m)

    def icmp(self, pred, a, ot):
        x, y = self.val(a[0], ot), self.val(a[1], ot)
        if ot == 'i1':
            if pred in ('eq', 'ne'):
                e = ite(x, y, b_not(y))
                return e if pred == 'eq' else b_not(e)
        if pred in ('eq', 'ne') and isinstance(y, Poly) and y.const() == 0 and isinstance(a[0], str):
            # a | b is 0 where both are
            o = self.fn.inst.get(a[0])
            if o is not None and o['op'] == 'or' and ot != 'i1' and self.bytename(a[0], o) is None:
                e = dand(self.icmp('eq', [o['a'][0], a[1]], ot), self.icmp('eq', [o['a'][1], a[1]], ot))
                return e if pred == 'eq' else b_not(e)
        if pred == 'eq':
            return deq(x, y)
        if pred == 'ne':
            return b_not(deq(x, y))
        if pred in ('sgt', 'ugt'):
            return self.lt(y, x, pred[0], 0)
        if pred in ('slt', 'ult'):
            return self.lt(x, y, pred[0], 0)
        if pred in ('sge', 'uge'):
            return b_not(self.lt(x, y, pred[0], 0))
        return b_not(self.lt(y, x, pred[0], 0))

    def lt(self, x, y, sg, _):
        r = dlt(x, y, True)
        if sg == 'u' and not self.u63:
            def neg(p):
                return FALSE if self.nonneg(p) else mk_lt(p, True)
            nx, ny = apply_d(neg, x), apply_d(neg, y)
            # unsigned: negatives are larger than everything non-negative
            r = ite(nx, ite(ny, r, FALSE), ite(ny, TRUE, r))
        return r

    def fcmp(self, pred, x, y, a):
        def nan():
            def g(p, q):
                r = FALSE
                for w in (p, q):
                    if w.const() is None and not is_int(w):
                        r = dor(r, isnan1(w))
                return r
            return apply_d(g, x, y)
        if pred in ('uno', 'ord'):
            r = nan()
            return r if pred == 'uno' else b_not(r)
        k = pred[1:]
        lt = lambda p, q: dlt(p, q, False)
        if k in ('lt', 'gt'):
            r = lt(x, y) if k == 'lt' else lt(y, x)
            # false for numbers that are not: an unordered comparison adds them
            return dor(nan(), r) if pred[0] == 'u' and self.nan else r
        if k in ('le', 'ge'):
            r = b_not(lt(y, x) if k == 'le' else lt(x, y))
            return dand(b_not(nan()), r) if pred[0] == 'o' and self.nan else r
        if k == 'eq':
            return deq(x, y)
        if k == 'ne':
            return b_not(deq(x, y))
        return TRUE if pred == 'true' else FALSE

    # ---- merges
    def gate(self, D, B, edge):
        """value at B given the values edge(P) on its incoming edges, decided from block D (which dominates B)"""
        fn = self.fn
        back = {B}
        st = [p for p in fn.pred[B] if not (B in self.loops and p in self.loops[B])]
        reach = set()
        while st:
            x = st.pop()
            if x in reach or x == B:
                continue
            reach.add(x)
            if x == D:
                continue
            st += fn.pred[x]
        memo = {}
        onstack = set()

        def go(X, Y):
            if Y == B:
                return edge(X)
            if Y not in reach or Y == D:
                return BOT
            return G(Y)

        def G(X):
            if X in memo:
                return memo[X]
            if X in onstack:
                raise TooBig()
            onstack.add(X)
            lp = X in self.loops and B not in self.loops[X] and D not in (self.loops[X] - {X})
            if lp and X != D or (lp and X == D):
                ex = {}
                for y in self.loops[X]:
                    for s in fn.succ[y]:
                        if s not in self.loops[X]:
                            ex.setdefault(s, []).append(y)
                res = [(y, go(y, s)) for s, ys in ex.items() for y in ys]
                res = [(y, r) for y, r in res if r is not BOT]
                if not res:
                    r = BOT
                else:
                    r = res[0][1]
                    for y, q in res[1:]:
                        if q.key != r.key:
                            r = ite(mk_eq(P(atom('opq', 'exit:%s:%s' % (X, y)))), q, r)
            else:
                r = self.branch(X, lambda Y: go(X, Y))
            onstack.discard(X)
            memo[X] = r
            return r
        return G(D)

    def branch(self, X, go):
        t = self.fn.blocks[X]['insts'][-1]
        op = t['op']
        if op == 'br':
            if 'c' not in t or t.get('c') is None:
                return go(self.fn.succ[X][0])
            a, b = go(t['T']), go(t['F'])
            if a is BOT:
                return b
            if b is BOT or a.key == b.key:
                return a
            return ite(self.val(t['c'], 'i1'), a, b)
        if op == 'switch':
            r = go(t['default'])
            c = self.val(t['c'])
            for kk, tb in t['cases']:
                x = go(tb)
                if x is BOT:
                    continue
                if r is BOT:
                    r = x
                elif x.key != r.key:
                    r = ite(deq(c, C(kk)), x, r)
            return r
        if op == 'invoke':
            return go(t['normal'])
        if len(self.fn.succ[X]) == 1:
            return go(self.fn.succ[X][0])
        return BOT

    def phi(self, v, i):
        B = self.fn.blk[v]
        inc = {b: x for x, b in i['in']}
        if B in self.loops:
            ins = [b for b in inc if b not in self.loops[B]]
            lat = [b for b in inc if b in self.loops[B]]
            vals = {self.val(inc[b]).key for b in ins}
            if len(vals) != 1 or not lat:
                return self.opq(v, 'loop:')
            init = self.val(inc[ins[0]])
            # what one iteration does
            X = atom('f', 'iv:%s' % v, integer=i.get('t', '').startswith('i') or i.get('t') == 'ptr')
            keep, keepm, keepb = dict(self.memo), self.mm, self.busy
            self.memo[v] = P(X)
            self.busy, self.mm = {v}, {}
            try:
                nxt = [self.val(inc[b]) for b in lat]
            finally:
                self.memo, self.mm, self.busy = keep, keepm, keepb
            if len({n.key for n in nxt}) == 1:
                n = self.at_exit(nxt[0], B)
                if n is BOT:
                    return self.opq(v, 'loop:')
                step = dsum(n, P(X), -1)
                if isinstance(step, Poly) and not step.t or n.key == init.key:
                    return init
                ats = walk_atoms(step)
                if X.key not in ats and not any(self.variant(a, B) for a in ats.values()):
                    return dsum(init, dmul(step, self.k(B)))
            return self.opq(v, 'loop:')
        D = self.idom(B)
        if D is None:
            return self.opq(v)
        return self.gate(D, B, lambda p: self.val(inc[p]) if p in inc else BOT)

    def loopof(self, a):
        """header of the loop that an iteration-counter atom counts"""
        if a.kind == 'f' and a.key[0] == 'k' and a.key[1:].isdigit() and int(a.key[1:]) < len(self.hdrs):
            return self.hdrs[int(a.key[1:])]
        return None

    def variant(self, a, B):
        if a.opaque or '?' in a.key or 'iv:' in a.key or 'it:' in a.key:
            return True
        if a.kind == 'f' and any(self.hdrs[int(m)] in self.loops[B] for m in re.findall(r'\bk(\d+)\b', a.key) if int(m) < len(self.hdrs)):
            return True             # the name of something that is read at a place that moves
        h = self.loopof(a)
        return h is not None and h in self.loops[B]

    def at_exit(self, n, B):
        """n used after the loops nested in B: their counters have their final values"""
        mp = {}
        for a in walk_atoms(n).values():
            h = self.loopof(a)
            if h is not None and h != B and h in self.loops[B]:
                t = self.last(h)
                if t is None:
                    return P(atom('opq', 'trip:%s' % h))
                mp[a.key] = t
        return subst(n, mp) if mp else n

    def last(self, h):
        """value of the iteration counter of loop h when it is left (single exit, unit step), or None"""
        body = self.loops[h]
        ex = [(b, s) for b in body for s in self.fn.succ[b] if s not in body and not self.dead(s)]
        if len(ex) != 1:
            return None
        b, s = ex[0]
        t = self.fn.blocks[b]['insts'][-1]
        if t['op'] != 'br' or 'c' not in t:
            return None
        j = self.fn.inst.get(t['c'])
        if j is not None and j['op'] == 'icmp':
            # an unsigned bound is below 2^63
            self.u63 = True
            try:
                c = self.icmp(j['pred'], j['a'], j.get('ot'))
            finally:
                self.u63 = False
        else:
            c = self.val(t['c'], 'i1')
        if isinstance(c, Ite) and (isinstance(c.hi, Ite) or isinstance(c.lo, Ite)):
            # max(n, 1) where n is known to be positive
            c = self.under_known(c, h)
        if not isinstance(c, Ite) or isinstance(c.hi, Ite) or isinstance(c.lo, Ite):
            return None
        if not isinstance(c, Ite):
            return None
        stay = (c.hi.const() == 1) == (t['F'] == s)     # condition atom true -> stay
        p, kk = c.c.p, self.k(h)
        ka = next(iter(kk.atoms()))
        co = p.t.get(((ka, 1),))
        rest = padd(p, pmul(C(co or 0), kk), -1)
        if co is None or ka in rest.atoms() or any(ka.key in walk_atoms(a) for a in rest.atoms()):
            return None
        if c.c.kind == 'eq' and not stay:
            return Poly({m: -x / co for m, x in rest.t.items()})
        if c.c.kind == 'ilt' and stay and co == 1:          # stays while k + rest < 0
            return padd(C(0), rest, -1)
        if c.c.kind == 'ilt' and not stay and co == -1:     # leaves when -k + rest < 0
            return padd(rest, C(1))
        return None

    def dead(self, b):
        """block only leads to exceptions"""
        r = self.fn.reach(b)
        return not any(x in r for x in self.fn.rets())

    def trips(self, h):
        """number of iterations of loop h, given that it is entered (poly) or None"""
        t = self.last(h)
        if t is None:
            return None
        b = next(b for b in self.loops[h] for s in self.fn.succ[b] if s not in self.loops[h] and not self.dead(s))
        return padd(t, C(1)) if h in self.fn.succ[b] else t

    def known(self, b):
        """branch conditions that hold whenever block b runs: [(0/1 diagram, value)]"""
        out = []
        for d in self.dom.get(b, ()):
            t = self.fn.blocks[d]['insts'][-1]
            if t['op'] == 'br' and 'c' in t and t['T'] != t['F']:
                for s, v in ((t['T'], True), (t['F'], False)):
                    if s in self.dom[b] and self.fn.pred[s] == [d]:
                        out.append((self.val(t['c'], 'i1'), v))
        return out

    def under_known(self, n, b):
        """diagram n simplified by the conditions that hold in block b"""
        if not isinstance(n, Ite):
            return n
        box = Box()
        for c, v in self.known(b):
            if isinstance(c, Ite) and not isinstance(c.hi, Ite) and not isinstance(c.lo, Ite):
                tv = v == (c.hi.const() == 1)
                b2 = box.assume(c.c, tv)
                if b2 is None:
                    continue
                box = b2
                n = cofall(n, c.c, tv)
        return prune(n, box)

    # ---- memory
    def ptr(self, v):
        return self.val(v)

    def load(self, v, i):
        p = self.val(i['p'])
        b = self.fn.blk[v]
        idx = next(n for n, x in enumerate(self.fn.blocks[b]['insts']) if x is i)
        return apply_d(lambda q: self.table(q, i['sz'], i.get('t', ''), b, idx), p)

    def table(self, q, sz, t, b, idx):
        """memval, with one branch per element for a short local array under a symbolic index"""
        bs = [a for a in self.bases(q) if a.key.startswith('local:')]
        if len(bs) == 1 and q.const() is None:
            syms, c = split_const(padd(q, P(bs[0]), -1))
            x = self.fn.inst.get(bs[0].key.rsplit(':', 1)[1]) or {}
            total = x.get('size') or 0
            if len(syms.t) == 1 and c == int(c) and total and x.get('op') == 'alloca':
                (m, st), = syms.t.items()
                if st == int(st) and st >= sz and total <= 32 * st and len(m) == 1 and m[0][0].integer and m[0][1] == 1:
                    r, ix_ = BOT, P(m[0][0])
                    k = 0 if c >= 0 else int(-(c // st))
                    while c + k * st + sz <= total:
                        v = self.memval(padd(P(bs[0]), C(c + k * st)), sz, t, b, idx)
                        if isinstance(v, Poly) and v.opaque:
                            return self.memval(q, sz, t, b, idx)
                        r = ite(deq(ix_, C(k)), v, r) if r is not BOT else v
                        k += 1
                    if r is not BOT:
                        return r
        return self.memval(q, sz, t, b, idx)

    def memval(self, q, sz, t, b, idx):
        """content of [q, q+sz) before instruction idx of block b"""
        key = (q.key, sz, b, idx)
        r = self.mm.get(key)
        if r is not None:
            if r == 'busy':
                return P(atom('opq', 'mem:%s:%s' % (q.key, b)))
            return r
        self.mm[key] = 'busy'
        r = self.memval_(q, sz, t, b, idx)
        self.mm[key] = r
        return r

    def memval_(self, q, sz, t, b, idx):
        insts = self.fn.blocks[b]['insts']
        for n in range(idx - 1, -1, -1):
            r = self.clobber(insts[n], q, sz, t, b, n)
            if r is not None:
                return r
        if b == self.fn.entry:
            return self.initial(q, sz, t)
        if b in self.loops:
            body = self.loops[b]
            for y in body:
                for n, x in enumerate(self.fn.blocks[y]['insts']):
                    r = self.clobber(x, q, sz, t, y, n, test=True)
                    if r is not None and not self.ahead(x, q, sz, b, y):
                        return P(atom('opq', 'mem:%s:%s' % (q.key, b)))
            outs = [p for p in self.fn.pred[b] if p not in body]
            vs = [self.memval(q, sz, t, p, len(self.fn.blocks[p]['insts'])) for p in outs]
            if vs and all(x.key == vs[0].key for x in vs):
                return vs[0]
            return P(atom('opq', 'mem:%s:%s' % (q.key, b)))
        ps = self.fn.pred[b]
        if len(ps) == 1:
            return self.memval(q, sz, t, ps[0], len(self.fn.blocks[ps[0]]['insts']))
        D = self.idom(b)
        # quick: no clobber in between -> value at the end of D
        return self.gate(D, b, lambda p: self.memval(q, sz, t, p, len(self.fn.blocks[p]['insts'])))

    def ahead(self, x, q, sz, h, y):
        """a store of the loop that cannot have hit [q, q+sz), which moves with the loop's counter, in an earlier iteration"""
        if x['op'] != 'store':
            return False
        p = self.under_known(self.val(x['p']), y)
        k = self.k(h)
        if not isinstance(p, Poly) or not isinstance(k, Poly):
            return False
        d = padd(p, q, -1).const()
        s = q.t.get(next(iter(k.t)))
        if d is None or not s or any(m != next(iter(k.t)) and any(a.key == k.key for a, e in m) for m in q.t):
            return False
        return d + x['sz'] <= s if s > 0 else d - s >= sz

    def same_base(self, p, q):
        d = padd(p, q, -1)
        return d

    @staticmethod
    def bases(p):
        return {a for m, c in p.t.items() for a, e in m if len(m) == 1 and c == 1.0 and not (a.integer)}

    def clobber(self, x, q, sz, t, b, n, test=False):
        """None, or the value of [q,q+sz) after instruction x"""
        op = x['op']
        if op == 'store':
            p = self.under_known(self.val(x['p']), b)
            if not isinstance(p, Poly):
                if isinstance(p, Ite) and any(a in self.bases(q) for k, a in walk_atoms(p).items()):
                    return P(atom('opq', 'mem:%s:%s' % (q.key, x['id'])))
                return None
            d = padd(p, q, -1)
            c = d.const()
            ssz = x['sz']
            if c is not None:
                if c == 0 and ssz == sz:
                    return C(0) if test else self.val(x['v'], x.get('vt'))
                if c >= sz or c + ssz <= 0:
                    return None
                v = self.val(x['v'], x.get('vt')) if not test else None
                if not test and isinstance(v, Poly) and v.const() == 0 and c <= 0 and c + ssz >= sz:
                    return C(0)
                return P(atom('opq', 'mem:%s:%s' % (q.key, x['id'])))
            bp, bq = self.bases(p), self.bases(q)
            if bp & bq:
                if self.stride_apart(d, ssz, sz):
                    return None
                return P(atom('opq', 'mem:%s:%s' % (q.key, x['id'])))
            return None
        if op in ('call', 'invoke'):
            c = x.get('callee') or ''
            if c.startswith(IGNORE_CALLS) or x.get('noreturn'):
                return None
            if c.startswith('llvm.memset') or c == 'memset' or c.startswith('llvm.memcpy') or c.startswith('llvm.memmove') or c in ('memcpy', 'memmove'):
                p = self.val(x['args'][0])
                if not isinstance(p, Poly):
                    return None
                d = padd(q, p, -1)
                if not (self.bases(p) & self.bases(q)):
                    return None
                ln = self.val(x['args'][2])
                o = d.const()
                L = ln.const() if isinstance(ln, Poly) else None
                if o is not None and (o + sz <= 0 or L is not None and o >= L):
                    return None
                if test:
                    return C(0)
                inside = o is not None and o >= 0 and L is not None and o + sz <= L or L is None or o is None
                if 'memset' in c:
                    v = self.val(x['args'][1])
                    if inside and isinstance(v, Poly) and v.const() == 0:
                        return C(0)
                    return P(atom('opq', 'mem:%s:%s' % (q.key, x['id'])))
                s = self.val(x['args'][1])
                if inside and isinstance(s, Poly):
                    return self.memval(padd(s, d), sz, t, b, n)
                return P(atom('opq', 'mem:%s:%s' % (q.key, x['id'])))
            # an argument that points at (or into) the location
            for k, arg in enumerate(x.get('args') or []):
                at = (x.get('at') or [])
                if not isinstance(arg, str) or not (k < len(at) and at[k] == 'ptr'):
                    continue
                p = self.val(arg)
                if not isinstance(p, Poly):
                    continue
                bs = self.bases(p) & self.bases(q)
                if not bs:
                    continue
                d = padd(q, p, -1)
                o = d.const()
                ba = next(iter(bs))
                whole = ba.key.startswith(('local:', 'vec{', 'new:', 'up{')) or ba.kind in ('new', 'call', 'vcall')
                if o is None and not whole:
                    continue
                if o is not None and o < 0:
                    continue
                if not whole:
                    # a member of a larger object: only the member itself is handed over
                    if padd(p, P(ba), -1).const() == 0 and o != 0:
                        if not self.callee_writes(c, k, o, sz):
                            continue
                    elif o != 0 and not self.same_member(ba, p, q):
                        continue
                if self.readonly(x, k):
                    continue
                if test:
                    return C(0)
                return self.outval(x, k, d, sz, t)
            return None
        return None

    # ---- content of an output array when the function returns
    def final(self, base, width, n, t='double', extents=None):
        """element n (an integer atom) of the array at `base`; extents: {callee pattern: (argument, bytes written(call args))}"""
        rets = self.fn.rets()
        if len(rets) != 1:
            return P(atom('opq', 'rets'))
        self.fm, self.ext = {}, extents or {}
        b = rets[0]
        return self.amem(padd(base, pmul(C(width), n)), width, t, b, len(self.fn.blocks[b]['insts']) - 1)

    def amem(self, q, sz, t, b, idx):
        key = (q.key, b, idx)
        if key in self.fm:
            r = self.fm[key]
            return P(atom('opq', 'array:%s' % b)) if r is None else r
        self.fm[key] = None
        self.fm[key] = r = self.amem_(q, sz, t, b, idx)
        return r

    def within(self, off, ln):
        return dand(b_not(dlt(off, C(0), True)), dlt(off, ln, True))

    def amem_(self, q, sz, t, b, idx):
        bq = self.bases(q)
        insts = self.fn.blocks[b]['insts']
        for n in range(idx - 1, -1, -1):
            x = insts[n]
            op = x['op']
            before = lambda: self.amem(q, sz, t, b, n)
            if op == 'store':
                p = self.under_known(self.val(x['p']), b)
                if not isinstance(p, Poly):
                    if any(a in bq for a in walk_atoms(p).values()):
                        return P(atom('opq', 'array:%s' % x['id']))
                    continue
                if not (self.bases(p) & bq):
                    continue
                d = padd(p, q, -1)
                if x['sz'] != sz or any(c % sz for c in d.t.values()):
                    return P(atom('opq', 'array:%s' % x['id']))
                return ite(deq(d, C(0)), self.val(x['v'], x.get('vt')), before())
            if op in ('call', 'invoke'):
                c = x.get('callee') or ''
                if c.startswith(IGNORE_CALLS) or x.get('noreturn'):
                    continue
                args = x.get('args') or []
                if c.startswith(('llvm.memset', 'llvm.memcpy', 'llvm.memmove')) or c in ('memset', 'memcpy', 'memmove', 'bzero'):
                    p = self.under_known(self.val(args[0]), b)
                    if not isinstance(p, Poly):
                        return P(atom('opq', 'array:%s' % x['id'])) if any(a in bq for a in walk_atoms(p).values()) else before()
                    if not (self.bases(p) & bq):
                        continue
                    off = padd(q, p, -1)
                    ln = self.val(args[1 if c == 'bzero' else 2])
                    v = C(0)
                    if 'memset' in c and self.val(args[1]).key != '0':
                        v = P(atom('opq', 'array:%s' % x['id']))
                    elif 'mem' in c and 'memset' not in c:
                        s = self.under_known(self.val(args[1]), b)
                        v = apply_d(lambda s: self.memval(padd(s, off), sz, t, b, n), s)
                    cnd = apply_d(lambda l: self.within(off, l), ln)
                    return ite(cnd, v, before())
                for k, a in enumerate(args):
                    at = x.get('at') or []
                    if not isinstance(a, str) or not (k < len(at) and at[k] == 'ptr'):
                        continue
                    p = self.under_known(self.val(a), b)
                    if not any(z in bq for z in (self.bases(p) if isinstance(p, Poly) else walk_atoms(p).values())):
                        continue
                    if self.readonly(x, k):
                        continue
                    if not isinstance(p, Poly):
                        return P(atom('opq', 'array:%s' % x['id']))
                    off = padd(q, p, -1)
                    for pat, (ak, ln) in self.ext.items():
                        if ak == k and re.search(pat, x.get('dem') or c):
                            return ite(self.within(off, ln(self, x)), P(atom('out', self.oname(x), 'arg%d' % k, off, integer=t.startswith('i'))), before())
                    return P(atom('opq', 'array:%s' % x['id']))
        if b == self.fn.entry:
            return self.initial(q, sz, t)
        ps = self.fn.pred[b]
        if len(ps) == 1:
            return self.from_edge(q, sz, t, ps[0], b)
        if b in self.loops:
            return P(atom('opq', 'array:%s' % b))
        return self.gate(self.idom(b), b, lambda p: self.from_edge(q, sz, t, p, b))

    def from_edge(self, q, sz, t, p, b):
        """content on the edge p -> b; leaving a loop, all of its iterations have run"""
        hs = [h for h in self.inner_loops(p) if b not in self.loops[h]]
        if not hs:
            return self.amem(q, sz, t, p, len(self.fn.blocks[p]['insts']))
        h = hs[0]
        return self.amem_loop(q, sz, t, h)

    def amem_loop(self, q, sz, t, h):
        key = (q.key, 'loop', h)
        if key in self.fm:
            return self.fm[key]
        body, bq = self.loops[h], self.bases(q)
        bad = P(atom('opq', 'array:loop:%s' % h))
        outs = [p for p in self.fn.pred[h] if p not in body]
        lat = [p for p in self.fn.pred[h] if p in body]

        def before(q=q):
            if len(outs) == 1:
                return self.from_edge(q, sz, t, outs[0], h)
            return self.gate(self.idom(h), h, lambda p: self.from_edge(q, sz, t, p, h)) if outs else bad
        adr = {}
        for y in body:
            for n, x in enumerate(self.fn.blocks[y]['insts']):
                if x['op'] == 'store':
                    p = self.under_known(self.val(x['p']), y)
                    if not isinstance(p, Poly):
                        if any(a in bq for a in walk_atoms(p).values()):
                            return bad
                        continue
                    if self.bases(p) & bq:
                        if self.inner_loops(y)[-1] != h or x['sz'] != sz:
                            return bad
                        adr[p.key] = (p, x)
                elif x['op'] in ('call', 'invoke') and not x.get('noreturn'):
                    if self.clobber(x, q, sz, t, y, n, test=True) is not None:
                        return bad
        if not adr:
            return before()
        T = self.trips(h)
        if T is None or len(lat) != 1 or len(adr) != 1:
            return bad
        (p, x), = adr.values()
        k = self.k(h)
        ka = next(iter(k.atoms()))
        a = p.t.get(((ka, 1),), 0)
        c = padd(p, pmul(C(a), k), -1)
        if abs(a) != sz or any(ka.key in walk_atoms(z) for z in c.atoms()) or ka in c.atoms():
            return bad
        v = self.memval(p, sz, x.get('vt', t), lat[0], len(self.fn.blocks[lat[0]]['insts']))
        kk = Poly({m: z / a for m, z in padd(q, c, -1).t.items()})
        r = ite(self.within(kk, T), subst(v, {ka.key: kk}), before())
        self.fm[key] = r
        return r

    def stride_apart(self, d, a, b):
        """difference k*s + c never overlaps"""
        q, c = split_const(d)
        g = 0
        for m, x in q.t.items():
            if x != int(x) or not all(at.integer for at, e in m):
                return False
            g = math.gcd(g, int(abs(x)))
        if not g:
            return False
        r = int(c) % g
        # store at [r, r+a) modulo g, location [0, b)
        return r >= b and r + a <= g

    def callee_writes(self, c, k, o, sz):
        f2 = self.prog.fns.get(c)
        if f2 is None:
            return False
        for i in f2.inst.values():
            if i['op'] == 'store':
                bb, oo, ss = f2.addr(i['p'])
                if bb == 'a%d' % k and (ss or not (oo >= o + sz or oo + i['sz'] <= o)):
                    return True
        return False

    def same_member(self, ba, p, q):
        """both addresses lie in the same named member (bases are looked into)"""
        c1, c2 = padd(p, P(ba), -1).const(), padd(q, P(ba), -1).const()
        cl = self.clsof.get(ba.key)
        while c1 is not None and c2 is not None and cl in self.types:
            for m in self.types[cl].get('members', []):
                tt = m['t']
                s = tt.get('sz', 8) if isinstance(tt, dict) else 8
                if m['o'] <= c1 < m['o'] + s and m['o'] <= c2 < m['o'] + s:
                    if m['n']:
                        return True
                    cl = tt.get('n')
                    c1 -= m['o']
                    c2 -= m['o']
                    break
            else:
                return False
        return False

    def readonly(self, x, k):
        d = x.get('dem') or ''
        n = short(d)
        return n in ('compare', 'c_str', 'data', 'size', 'length', 'empty', 'find', 'substr') or d.endswith(' const') and k == 0

    def outval(self, x, k, d, sz, t):
        """memory written by a call: named after the call and the argument"""
        if re.match(r'std::(__cxx11::)?vector<.*>::vector\(', x.get('dem') or '') and k == 0:
            if d.const() == 0:
                return f('vec{%s}' % self.objname(self.val(x['args'][0])))
        integer = t.startswith('i') if t else False
        f2 = self.prog.fns.get(x.get('callee') or '')
        pt = (f2.j.get('ptypes') or []) if f2 is not None else []
        cl = pt[k] if k < len(pt) else None
        if cl in self.types and k and isinstance(d, Poly):
            # an object that the function fills in: its members by name
            ba = atom('f', '%s:p%d' % (self.oname(x), k))
            self.clsof[ba.key] = cl
            nm, c2, enc = self.path(ba, d, sz)
            r = self.named(ba, nm, integer)
            if c2:
                self.clsof[r.key] = c2
            if enc and 'unsigned' in enc:
                NONNEG.add(r.key)
            return r
        return apply(lambda dd: P(atom('out', self.oname(x), 'arg%d' % k, dd, integer=integer)), d)

    def oname(self, x):
        """name of what a call leaves in memory"""
        return '%s@%s' % (self.cname(x), x['id']) if self.apart and 'id' in x else self.cname(x)

    def cname(self, x):
        """a stable name of one call: function, receiver and constant arguments"""
        if self.callname:
            n = self.callname(self, x)
            if n:
                return n
        n = self.cbase(x)
        return n

    def cbase(self, x):
        if x.get('callee') and not x.get('indirect'):
            n = short(x.get('dem') or x['callee'])
            if n in RECEIVER and x.get('args'):
                o = self.val(x['args'][0])
                n = '%s{%s}' % (n, o.key)
            return n
        s = self.slot(x)
        return s or 'indirect'

    def slot(self, x):
        """virtual call: the method's name when the receiver's class is known, otherwise 'v<slot>'"""
        fp = x.get('indirect')
        if isinstance(fp, str) and fp in self.fn.inst and self.fn.inst[fp]['op'] == 'load':
            j = self.fn.inst[fp]
            b = self.fn.addr(j['p'])
            if b[0] in self.fn.inst and self.fn.inst[b[0]]['op'] == 'load' and not b[2]:
                n = b[1] // 8
                o = self.val(x['args'][0]) if x.get('args') else None
                cl = self.class_of(o)
                nm = vtslots(self.prog, cl).get(n)
                if nm:
                    return nm
                return 'v%d' % n
        return None

    def class_of(self, o):
        """class of the object a pointer stands for, where every alternative has the same one"""
        if isinstance(o, Ite):
            seen, todo, cs = set(), [o], set()
            while todo:
                n = todo.pop()
                if n.key in seen:
                    continue
                seen.add(n.key)
                if isinstance(n, Ite):
                    todo += [n.hi, n.lo]
                elif n.key != '0':
                    cs.add(self.class_of(n))
            return cs.pop() if len(cs) == 1 else None
        if not isinstance(o, Poly):
            return None
        cl = self.clsof.get(o.key)
        if cl is None and len(o.t) == 1:
            a = next(iter(o.atoms()), None)
            if a is not None and a.kind in ('call', 'vcall') and a.a and a.a[0] in RETURNS:
                cl = RETURNS[a.a[0]]
            elif o.key in self.handles():
                cl = 'GDALDataset'
        return cl

    def handles(self):
        """parameters that the function hands to the C interface of datasets"""
        if not hasattr(self, '_handles'):
            self._handles = set()
            for i in self.fn.inst.values():
                if i['op'] in ('call', 'invoke') and re.match(r'GDALGet(RasterXSize|RasterYSize|RasterCount|GeoTransform)$', i.get('callee') or '') and isinstance(i['args'][0], str):
                    k = i['args'][0]
                    if k.startswith('a') and k[1:].isdigit():
                        self._handles.add(self.val(k).key)
        return self._handles

    # ---- names of initial memory
    def initial(self, q, sz, t):
        bs = self.bases(q)
        integer = t.startswith('i')
        if len(bs) != 1:
            return f('*(%s)' % q.key, integer=integer)
        ba = next(iter(bs))
        rest = padd(q, P(ba), -1)
        if ba.key.startswith('local:'):
            return P(atom('opq', 'uninit:%s' % q.key))
        if ba.key.startswith('@'):
            c = self.constglobal(ba.key[1:], rest, sz)
            if c is not None:
                return c
        nm, cls, enc = self.path(ba, rest, sz)
        r = self.named(ba, nm, integer)
        nm = r.key
        if cls:
            self.clsof[nm] = cls
        if enc and 'unsigned' in enc:
            NONNEG.add(nm)
        return r

    def constglobal(self, g, rest, sz):
        G = self.prog.globals.get(g)
        o = rest.const()
        if G is None:
            return None
        if o is not None:
            v = globat(G, int(o), sz)
            return self.val(v) if v is not None else None
        # element of a short constant table: one branch per element, out of range is not considered
        syms, c = split_const(rest)
        if len(syms.t) != 1 or c != int(c):
            return None
        (m, st), = syms.t.items()
        total = gsize(G)[0] if isinstance(G, dict) else 0
        if st != int(st) or st < sz or total > 64 * st or len(m) != 1 or not m[0][0].integer or m[0][1] != 1:
            return None
        ix, r = P(m[0][0]), BOT
        k = 0 if c >= 0 else int(-(c // st))
        while c + k * st + sz <= total:
            v = globat(G, int(c + k * st), sz)
            if v is None:
                return None
            r = ite(deq(ix, C(k)), self.val(v), r) if r is not BOT else self.val(v)
            k += 1
        return r

    def named(self, ba, nm, integer=False):
        """atom of a memory name: symbolic indices and the base object are arguments, so that they can be replaced"""
        ps = []

        def take(m):
            ps.append(IX[m.group(0)])
            return '\x03'
        nm = re.sub('\x01\\d+\x02', take, nm)
        if ba.a and any(isinstance(x, (Poly, Ite, Atom)) for x in ba.a) and ba.key in nm:
            at = nm.index(ba.key)
            # the base comes first among the arguments that follow it in the name
            n = nm[:at].count('\x03')
            ps.insert(n, P(ba))
            nm = nm[:at] + '\x03' + nm[at + len(ba.key):]
        if not ps:
            return f(nm, integer=integer)
        return P(atom('mem', nm, *ps, integer=integer))

    def path(self, ba, rest, sz):
        """(name, pointee class, encoding) of the scalar at base + rest"""
        base = ba.key if ba.kind == 'f' else ba.key
        off, syms = split_const(rest)[1], split_const(rest)[0]
        cl = self.clsof.get(ba.key)
        if cl in self.types:
            r = self.walk({'k': 'struct', 'n': cl, 'sz': self.types[cl].get('sz', 1 << 40)}, int(off), syms, base, sz)
            if r:
                return r
        if rest.const() == 0:
            return '*' + base, None, None
        return '%s[%s]' % (base, ix(rest)), None, None

    def walk(self, T, off, syms, name, sz):
        while True:
            k = T['k']
            if k == 'struct':
                S = self.types.get(T['n'])
                if S is None and re.match(r'(std::)?(__cxx11::)?vector<', T['n']) and off == 0 and not syms.t and sz == 8:
                    return 'vec{%s}' % name, None, None
                if S is None:
                    x = padd(syms, C(off))
                    return ('%s@%s' % (name, ix(x)), None, None)
                best = None
                for m in S.get('members', []):
                    tt = m['t']
                    s = tt.get('sz', 8) if isinstance(tt, dict) else 8
                    if m['o'] <= off < m['o'] + max(s, 1):
                        best = m
                if syms.t:
                    # a[k - c]: the constant part of the offset may lie before the array
                    sc = 0 if best is None else self.strided(best['t'], syms)
                    for m in S.get('members', []):
                        if off < m['o'] <= off + 16 * min(abs(c) for c in syms.t.values()):
                            s2 = self.strided(m['t'], syms)
                            if s2 > sc:
                                best, sc = m, s2
                if best is None:
                    # last member not after off (flexible / symbolic)
                    return None
                off -= best['o']
                if best['n'] == '_M_elems' and T['n'].startswith('std::array<'):
                    pass
                elif best['n']:
                    name = name + '.' + best['n']
                T = best['t']
                if isinstance(T, str):
                    return None
            elif k == 'arr':
                n = 1
                for d in T['dims']:
                    n *= d
                if n <= 0:
                    return None
                es = T['sz'] // n
                idx = int(off // es)
                off -= idx * es
                mine = {m: c for m, c in syms.t.items() if c % es == 0}
                ip = padd(Poly({m: c / es for m, c in mine.items()}), C(idx))
                syms = Poly({m: c for m, c in syms.t.items() if m not in mine})
                if len(T['dims']) > 1 and ip.const() is not None:
                    r, ii = [], int(ip.const())
                    for d in reversed(T['dims']):
                        r.append(ii % d)
                        ii //= d
                    name += ''.join('[%d]' % z for z in reversed(r))
                else:
                    name += '[%s]' % ix(ip)
                T = T['e']
                if isinstance(T, str):
                    return None
            else:
                if syms.t or off:
                    return '%s@%s' % (name, ix(padd(syms, C(off)))), None, None
                to = T.get('to') if k == 'ptr' else None
                if isinstance(to, dict):
                    to = to.get('n')
                return name, to, T.get('enc', '') if k == 'base' else k

    def strided(self, T, syms):
        """T holds an array that the symbolic terms can step through: 2 by its very elements, 1 by several at a time"""
        if not isinstance(T, dict):
            return 0
        if T['k'] == 'arr':
            n = 1
            for d in T['dims']:
                n *= d
            es = T['sz'] // n if n > 0 else 0
            r = 0 if not es else 2 if any(abs(c) == es for c in syms.t.values()) else 1 if any(c % es == 0 for c in syms.t.values()) else 0
            return max(r, self.strided(T['e'], syms))
        return max([self.strided(m['t'], syms) for m in self.types.get(T['n'], {}).get('members', [])] or [0]) if T['k'] == 'struct' else 0

    def arrayish(self, T):
        if not isinstance(T, dict):
            return False
        if T['k'] == 'arr' or T['k'] == 'struct' and T['n'].startswith('std::array<'):
            return True
        return T['k'] == 'struct' and any(self.arrayish(m['t']) for m in self.types.get(T['n'], {}).get('members', []))

    # ---- calls
    def call(self, v, i):
        c = i.get('callee') or ''
        args = i.get('args') or []
        b = c.split('.')
        if c.startswith('llvm.'):
            n = b[1]
            if n in ('fmuladd', 'fma'):
                return dsum(dmul(self.val(args[0]), self.val(args[1])), self.val(args[2]))
            if n == 'fabs':
                return dabs(self.val(args[0]))
            if n == 'abs':
                return dabs(self.val(args[0]))
            if n in ('smin', 'minnum', 'minimum'):
                return dmin(self.val(args[0]), self.val(args[1]))
            if n in ('smax', 'maxnum', 'maximum'):
                return dmax(self.val(args[0]), self.val(args[1]))
            if n in ('umin', 'umax'):
                x, y = self.val(args[0]), self.val(args[1])
                cnd = self.lt(x, y, 'u', 0)
                return ite(cnd, x, y) if n == 'umin' else ite(cnd, y, x)
            if n == 'usub' and b[2] == 'sat':
                x, y = self.val(args[0]), self.val(args[1])
                return ite(self.lt(x, y, 'u', 0), C(0), dsum(x, y, -1))
            if n == 'powi':
                return dfun('pow', self.val(args[0]), self.val(args[1]))
            if n in MATH:
                return dfun(n, *[self.val(a) for a in args])
            if n in ('bswap', 'fshl', 'fshr'):
                r = self.bytename(v, i)
                return r if r is not None else self.opq(v, n)
            if n in ('expect', 'launder', 'strip'):
                return self.val(args[0])
            if n == 'is' and b[2] == 'fpclass':
                return apply(lambda p: P(atom('fpclass', p, str(args[1].get('i')), integer=True)), self.val(args[0]))
            return self.opq(v, n)
        if c in MATH:
            if c == 'fabs':
                return dabs(self.val(args[0]))
            return dfun(c, *[self.val(a) for a in args])
        nm = self.cname(i)
        r = self.stdcall(v, i, nm, args)
        if r is not None:
            return r
        if nm in MATH and not i.get('indirect') and all(t in ('double', 'float') for t in i.get('at') or []):
            return dfun(nm, *[self.val(a) for a in args])
        integer = i.get('t', '').startswith('i')
        if i.get('indirect'):
            xs = [self.val(a) for a in args[:1]] + [self.val(a) for a in args[1:]]
            nm = self.slot(i) or self.opqname(v)
            xs = xs[:1] + [f('&local') if isinstance(x, Poly) and x.key.startswith('local:') else x for x in xs[1:]]
            try:
                return apply(lambda *ps: P(atom('vcall', nm, *ps, integer=integer)), *xs)
            except TooBig:
                return self.opq(v)
        if c.startswith(('_Zn', 'malloc', 'calloc')):
            return P(atom('f', 'new:%s:%s' % (self.fn.name[-30:], v)))
        xs = [self.val(a) for a in args]
        f2 = self.prog.fns.get(c)
        rt = f2.j.get('rtype') if f2 is not None else None

        # what a library function makes of a local object depends on the contents of that object
        d = i.get('dem') or ''
        lib = re.match(r'(?:[\w:<>, *&]+ )?(?:std|__gnu_cxx)::', d) is not None and nm not in ('c_str', 'data', 'get', 'release')

        def result(*ps):
            a = atom('call', nm, *ps, integer=integer, opaque=lib and any('local:' in x.key for x in ps))
            if rt:
                self.clsof[a.key] = rt
            return P(a)
        try:
            return apply(result, *xs)
        except TooBig:
            return self.opq(v)

    def stdcall(self, v, i, nm, args):
        """element access of the standard containers is memory access"""
        d = i.get('dem') or ''
        m = re.match(r'bool std::operator(==|!=)\s?<char, ', d) or re.match(r'std::__cxx11::basic_string<char.*>::(compare)\(', d)
        if m and len(args) == 2:
            c = apply(lambda *ps: P(atom('call', 'compare', *ps, integer=True)), self.val(args[0]), self.val(args[1]))
            if m.group(1) == 'compare':
                return c
            c = deq(c, C(0))
            return c if m.group(1) == '==' else b_not(c)
        m = re.match(r'std::(?:__cxx11::)?(vector|array|unique_ptr)<(.*)>::(operator\[\]|at|data|begin|get|operator\*|front)\(', d)
        if not m:
            return None
        es = elsize(m.group(2))
        if es is None:
            return None
        obj = self.val(args[0])

        def g(o, *ix):
            b = f('%s{%s}' % ('vec' if m.group(1) != 'unique_ptr' else 'up', self.objname(o)))
            return padd(b, pmul(ix[0], C(es))) if ix else b
        return apply(g, obj, *([self.val(args[1])] if m.group(3) in ('operator[]', 'at') and len(args) > 1 else []))

    def objname(self, q):
        """name of the object at address q"""
        bs = self.bases(q)
        if len(bs) != 1:
            return q.key
        ba = next(iter(bs))
        rest = padd(q, P(ba), -1)
        if self.clsof.get(ba.key) in self.types:
            n = self.named(ba, self.path(ba, rest, 1)[0]).key
            return n[:-2] if n.endswith('@0') else n
        return q.key

    def opqname(self, v):
        return '?' + v

    # ---- results
    def ret(self):
        """value returned, as a function of the inputs (paths that throw: THROW when throw_leaf)"""
        fn = self.fn
        memo, on = {}, set()

        def G(X):
            if X in memo:
                return memo[X]
            if X in on:
                raise TooBig()
            on.add(X)
            t = fn.blocks[X]['insts'][-1]
            if t['op'] == 'ret':
                r = self.val(t['a'][0]) if t.get('a') else (self.val(t['v']) if t.get('v') is not None else C(0))
            elif t['op'] in ('unreachable', 'resume'):
                r = f('THROW') if self.throw_leaf else BOT
            elif X in self.loops:
                ex = []
                for y in self.loops[X]:
                    for s in fn.succ[y]:
                        if s not in self.loops[X]:
                            g = G(s)
                            if g is not BOT:
                                ex.append((y, g))
                if not ex:
                    r = BOT
                else:
                    r = ex[0][1]
                    for y, g in ex[1:]:
                        if g.key != r.key:
                            r = ite(mk_eq(P(atom('opq', 'exit:%s:%s' % (X, y)))), g, r)
            else:
                r = self.branch(X, G)
            on.discard(X)
            memo[X] = r
            return r
        return G(fn.entry)

    def exit_mem(self, q, sz, t=''):
        """content of memory when the function returns"""
        fn = self.fn
        rets = fn.rets()
        if len(rets) != 1:
            return P(atom('opq', 'rets'))
        return self.memval(q, sz, t, rets[0], len(fn.blocks[rets[0]]['insts']) - 1)

    def under(self, b, frm=None):
        """condition (0/1 diagram) for reaching block b from the entry, or from the innermost loop header around it
        (or, for a loop header frm, for leaving that iteration towards b)"""
        fn = self.fn
        hs = self.inner_loops(b)
        D = frm if frm is not None else hs[-1] if hs else fn.entry
        if D == b:
            return TRUE
        can = set()
        st = [b]
        while st:
            x = st.pop()
            if x in can:
                continue
            can.add(x)
            if x != D:
                st += fn.pred[x]
        memo, on = {}, set()

        def G(X):
            if X == b:
                return TRUE
            if X not in can:
                return FALSE
            if X in memo:
                return memo[X]
            if X in on:
                return FALSE
            on.add(X)
            if X in self.loops and X != D and b not in self.loops[X]:
                r = FALSE
                for y in self.loops[X]:
                    for s in fn.succ[y]:
                        if s not in self.loops[X]:
                            g = G(s)
                            if g is not FALSE and self.never(y, s):
                                continue
                            r = g if r is FALSE else r if g is FALSE or g.key == r.key else ite(mk_eq(P(atom('opq', 'exit:%s:%s' % (X, y)))), g, r)
            else:
                r = self.branch(X, lambda Y: FALSE if Y == D else G(Y))
                if r is BOT:
                    r = FALSE
            on.discard(X)
            memo[X] = r
            return r
        return G(D)

    def never(self, y, s):
        """the edge that leaves a loop is never taken, by the conditions of one iteration"""
        if len(self.fn.succ[y]) > 1:
            e = self.branch(y, lambda Y: TRUE if Y == s else FALSE)
            if e is not BOT and e.key == '0':
                return True
        k = ('never', y)
        if k not in self.memo:
            u = self.under(y)
            r = u.key == '0'
            if not r and self.given is not None and getattr(u, 'size', 0) < 3000:
                c = compare(u, FALSE, given=self.given, seconds=5)
                r = c.same > 0 and not c.und and not c.diff
            self.memo[k] = r
        return self.memo[k]

    def calls(self, pat):
        """call sites whose demangled callee matches pat"""
        r = re.compile(pat)
        return [(k, i) for k, i in self.fn.inst.items() if i['op'] in ('call', 'invoke') and not i.get('indirect') and r.search(i.get('dem') or i.get('callee') or '')]


RETURNS = {'GetRasterBand': 'GDALRasterBand', 'GetDataset': 'GDALDataset', 'VRTCreate': 'GDALDataset', 'GDALOpen': 'GDALDataset', 'GDALCreateCopy': 'GDALDataset'}


def bases_of(types, cl, out=None):
    out = [] if out is None else out
    if cl not in out:
        out.append(cl)
        for m in types.get(cl, {}).get('members', []):
            if not m['n'] and isinstance(m['t'], dict) and m['t']['k'] == 'struct':
                bases_of(types, m['t']['n'], out)
    return out


def vtslots(prog, cl):
    """slot number -> method name, from the vtables that the compiler emitted for this class or its descendants"""
    if cl is None:
        return {}
    memo = prog.__dict__.setdefault('_vtslots', {})
    if cl not in memo:
        r = {}
        for g, init in prog.globals.items():
            if not g.startswith('_ZTV') or not isinstance(init, list) or not init or not isinstance(init[0], list):
                continue
            n = qual(g[4:])
            if n and cl in bases_of(prog.types, n):
                for k, e in enumerate(init[0][2:]):
                    if isinstance(e, str):
                        q = qual(e[2:].replace('NK', 'N', 1) if e.startswith('_ZNK') else e[2:])
                        if q:
                            r.setdefault(k, q.split('::')[-1])
        memo[cl] = r
    return memo[cl]


def qual(s):
    """the nested name at the start of a mangled name"""
    if s.startswith('N'):
        s = s[1:].lstrip('K')
    out = []
    while True:
        m = re.match(r'(\d+)', s)
        if not m:
            break
        n = int(m.group(1))
        s = s[m.end():]
        out.append('' if s[:n] == '_GLOBAL__N_1' else s[:n])
        s = s[n:]
    return '::'.join(out)


NONNEG = set()
RECEIVER = {'RasterIO', 'compute', 'GetScale', 'GetOffset'}


def elsize(t):
    """size of the first template argument"""
    depth, out = 0, ''
    for ch in t:
        if ch == '<':
            depth += 1
        elif ch == '>':
            depth -= 1
        elif ch == ',' and depth == 0:
            break
        out += ch
    out = out.strip()
    if out.endswith('[]'):
        out = out[:-2].strip()
    if out.endswith('*'):
        return 8
    if re.match(r'std::(__cxx11::)?basic_string<char\b', out):
        return 32
    return {'double': 8, 'float': 4, 'int': 4, 'unsigned int': 4, 'short': 2, 'unsigned short': 2, 'char': 1, 'unsigned char': 1, 'signed char': 1,
            'long': 8, 'unsigned long': 8, 'bool': 1}.get(out)


def gsize(G):
    """(size, alignment) of a dumped constant, natural layout"""
    if 'arr' in G:
        o, al = 0, 1
        for x in G['arr']:
            z, a = gsize(x)
            o = (o + a - 1) // a * a + z
            al = max(al, a)
        return (o + al - 1) // al * al, al
    if 'i' in G or 'I' in G:
        n = max(1, G.get('w', 32) // 8)
        return n, n
    if 'f' in G:
        n = 4 if G.get('t') == 'float' else 8
        return n, n
    return 8, 8


def globat(G, o, sz):
    if not isinstance(G, dict):
        return None
    if 'zero' in G:
        return {'i': 0, 'w': 8 * sz}
    if 'arr' not in G:
        return G if o == 0 and gsize(G)[0] == sz else None
    p = 0
    for x in G['arr']:
        z, a = gsize(x)
        p = (p + a - 1) // a * a
        if p <= o < p + z:
            return globat(x, o - p, sz)
        p += z
    return None


def _co(x):
    return C(x) if isinstance(x, (int, float)) else x


for _K in (Poly, Ite):
    _K.__add__ = lambda a, b: dsum(a, _co(b))
    _K.__radd__ = lambda a, b: dsum(_co(b), a)
    _K.__sub__ = lambda a, b: dsum(a, _co(b), -1)
    _K.__rsub__ = lambda a, b: dsum(_co(b), a, -1)
    _K.__mul__ = lambda a, b: dmul(a, _co(b))
    _K.__rmul__ = lambda a, b: dmul(_co(b), a)
    _K.__truediv__ = lambda a, b: ddiv(a, _co(b))
    _K.__rtruediv__ = lambda a, b: ddiv(_co(b), a)
    _K.__neg__ = lambda a: dsum(C(0), a, -1)
