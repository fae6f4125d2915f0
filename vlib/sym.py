"""Value numbering with canonical forms.

Every SSA value of a (normalised) function is mapped to a decision diagram over comparison atoms whose leaves are
polynomials over opaque-or-named atoms (fields, arguments, library calls).  Two computations that are equal as
real-number expressions under the same branch conditions get the same form, however they are written.  Nothing is
executed and no solver is used: equality of forms is structural, comparison atoms over the same expression are
related by interval bookkeeping."""
import time
import re, math, sys
from collections import OrderedDict
from . import layout
sys.setrecursionlimit(50000)

CAP = 4000


class TooBig(Exception):
    pass


# ------------------------------------------------------------------------------------------------ atoms
_atoms = {}


class Atom:
    __slots__ = ('kind', 'a', 'key', 'integer', 'cls', 'h', 'opaque')

    def __repr__(self):
        return self.key


def atom(kind, *a, integer=False, cls=None, opaque=False):
    k = kind if not a else '%s(%s)' % (kind, ','.join(x.key if hasattr(x, 'key') else str(x) for x in a))
    if kind == 'f':
        k = a[0]
    if kind == 'mem':
        it = iter(a[1:])
        k = re.sub('\x03', lambda m: next(it).key, a[0])
    if kind == 'opq':
        k = '?' + a[0]
        opaque = True
    x = _atoms.get(k)
    if x is None:
        x = Atom()
        x.kind, x.a, x.key, x.integer, x.cls, x.h = kind, a, k, integer, cls, hash(k)
        x.opaque = opaque or any(getattr(y, 'opaque', False) for y in a)
        _atoms[k] = x
    elif cls and not x.cls:
        x.cls = cls
    return x


def fmt(c):
    if c == int(c) and abs(c) < 1e15:
        return '%d' % c
    return '%.10g' % c


# ---------------------------------------------------------------------------------------------- polynomials
class Poly:
    """sum of coef * product of atom^exp"""
    __slots__ = ('t', '_key', '_op')

    def __init__(self, t):
        self.t = t
        self._key = None
        self._op = None

    @property
    def key(self):
        if self._key is None:
            parts = []
            for m, c in sorted(self.t.items(), key=lambda x: [(a.key, e) for a, e in x[0]]):
                s = '*'.join(a.key + ('' if e == 1 else '^%d' % e) for a, e in m)
                parts.append(fmt(c) if not m else (s if fmt(c) == '1' else fmt(c) + '*' + s))
            self._key = '(' + ' + '.join(parts) + ')' if len(parts) != 1 else parts[0]
            if not parts:
                self._key = '0'
        return self._key

    @property
    def opaque(self):
        if self._op is None:
            self._op = any(a.opaque for m in self.t for a, e in m)
        return self._op

    def __eq__(self, o):
        return isinstance(o, Poly) and self.key == o.key

    def __hash__(self):
        return hash(self.key)

    def const(self):
        if not self.t:
            return 0.0
        if len(self.t) == 1 and () in self.t:
            return self.t[()]
        return None

    def atoms(self):
        return {a for m in self.t for a, e in m}

    def __repr__(self):
        return self.key


def C(c):
    return Poly({(): float(c)} if c else {})


def P(a):
    return Poly({((a, 1),): 1.0})


def clean(t):
    return {m: c for m, c in t.items() if abs(c) > 1e-300}


def padd(a, b, s=1.0):
    t = dict(a.t)
    for m, c in b.t.items():
        n = t.get(m, 0.0) + s * c
        # cancellation up to rounding
        if m in t and abs(n) <= 1e-12 * max(abs(t[m]), abs(c)):
            n = 0.0
        t[m] = n
    return Poly(clean(t))


def mmul(m1, m2):
    d = {}
    for a, e in m1:
        d[a] = e
    for a, e in m2:
        d[a] = d.get(a, 0) + e
    return tuple(sorted(((a, e) for a, e in d.items() if e), key=lambda x: x[0].key))


def pmul(a, b):
    if len(a.t) * len(b.t) > CAP:
        raise TooBig()
    t = {}
    for m1, c1 in a.t.items():
        for m2, c2 in b.t.items():
            m = mmul(m1, m2)
            t[m] = t.get(m, 0.0) + c1 * c2
    r = Poly(clean(t))
    # (x) * inv(x)
    return r


def pinv(p):
    if not p.t:
        return P(atom('opq', 'inv0'))
    if len(p.t) == 1:
        (m, c), = p.t.items()
        return Poly({tuple((a, -e) for a, e in m): 1.0 / c})
    # take out the leading coefficient
    lead = sorted(p.t.items(), key=lambda x: [(a.key, e) for a, e in x[0]])[-1][1]
    q = Poly({m: c / lead for m, c in p.t.items()})
    return Poly({((atom('sum', q), -1),): 1.0 / lead})


def pdiv(a, b):
    c = b.const()
    if c:
        return Poly({m: x / c for m, x in a.t.items()})
    # exact quotient a = k*b
    if a.t and len(a.t) == len(b.t) and len(a.t) > 1:
        ks = {m: a.t[m] / b.t[m] for m in a.t if m in b.t}
        if len(ks) == len(a.t):
            v = list(ks.values())
            if all(abs(x - v[0]) <= 1e-12 * abs(v[0]) for x in v):
                return C(v[0])
    return pmul(a, pinv(b))


# ----------------------------------------------------------------------------------------- decision diagrams
class Ite:
    __slots__ = ('size', 'c', 'hi', 'lo', 'key', 'opaque')


_ites = {}


class Cond:
    """comparison atom; kind: ilt (p < 0 over integers), flt (p < 0), fgt (p > 0), eq (p == 0), b (named boolean)"""
    __slots__ = ('kind', 'p', 'key', 'opaque')


_conds = {}


def cond(kind, p):
    k = '%s[%s]' % (kind, p.key)
    c = _conds.get(k)
    if c is None:
        c = Cond()
        c.kind, c.p, c.key, c.opaque = kind, p, k, p.opaque
        _conds[k] = c
    return c


class Bot:
    key = 'bot'
    opaque = False
BOT = Bot()


ASSUME = {}


class assuming:
    """diagrams built inside take the given branch of these conditions (case split)"""
    def __init__(self, d):
        self.d = d

    def __enter__(self):
        self.old = dict(ASSUME)
        ASSUME.update(self.d)

    def __exit__(self, *a):
        ASSUME.clear()
        ASSUME.update(self.old)


def node(c, hi, lo):
    if ASSUME and c.key in ASSUME:
        return hi if ASSUME[c.key] else lo
    if hi is BOT:
        return lo
    if lo is BOT:
        return hi
    if c.kind == 'eq' and isinstance(hi, Ite):
        hi = restrict(hi, c)
    if hi.key == lo.key:
        return hi
    if c.kind == 'eq' and isinstance(hi, Poly) and isinstance(lo, Poly):
        # when p is zero, a and a + s*p are the same
        d = padd(lo, hi, -1)
        if d.t and len(d.t) == len(c.p.t):
            m0 = next(iter(d.t))
            r = d.t[m0] / c.p.t[m0] if m0 in c.p.t else 0
            if r and all(m in c.p.t and abs(x - r * c.p.t[m]) <= 1e-12 * abs(x) for m, x in d.t.items()):
                return lo
    k = (c.key, hi.key, lo.key)
    n = _ites.get(k)
    if n is None:
        n = Ite()
        n.c, n.hi, n.lo, n.key = c, hi, lo, '{%d %s}' % (len(_ites), c.key)
        n.size = 1 + getattr(hi, 'size', 1) + getattr(lo, 'size', 1)
        n.opaque = c.opaque or hi.opaque or lo.opaque
        _ites[k] = n
        if n.size > 4000000:
            raise TooBig()
    return n


TRUE, FALSE = C(1), C(0)
_rmemo = {}


def restrict(n, c):
    """n where c (an equality) holds: other comparisons of the same expression are decided"""
    bc = base_const(c.p)
    if bc is None:
        return n
    k, s, cst = bc
    v = -cst / s
    return restrict_(n, c.key, k, v)


def restrict_(n, ck, k, v):
    if not isinstance(n, Ite):
        return n
    mk = (n.key, ck)
    r = _rmemo.get(mk)
    if r is not None:
        return r
    b2 = base_const(n.c.p)
    hi, lo = restrict_(n.hi, ck, k, v), restrict_(n.lo, ck, k, v)
    if b2 is not None and b2[0] == k:
        x = b2[1] * v + b2[2]
        t = abs(x) < 1e-9 if n.c.kind == 'eq' else x < 0 if n.c.kind in ('ilt', 'flt') else x > 0
        r = hi if t else lo
    elif hi is n.hi and lo is n.lo:
        r = n
    else:
        r = node(n.c, hi, lo)
    _rmemo[mk] = r
    return r


def top(*ns):
    cs = [n.c for n in ns if isinstance(n, Ite)]
    return min(cs, key=lambda c: c.key) if cs else None


def cof(n, c, v):
    if isinstance(n, Ite) and n.c is c:
        return n.hi if v else n.lo
    return n


def apply(f, *ns, _memo=None, _n=None):
    if _memo is None:
        _memo, _n = {}, [0]
    k = tuple(n.key for n in ns)
    if k in _memo:
        return _memo[k]
    c = top(*ns)
    if c is None:
        r = BOT if any(n is BOT for n in ns) else f(*ns)
    else:
        _n[0] += 1
        if _n[0] > CAP:
            raise TooBig()
        r = node(c, apply(f, *[cof(n, c, True) for n in ns], _memo=_memo, _n=_n),
                 apply(f, *[cof(n, c, False) for n in ns], _memo=_memo, _n=_n))
    if isinstance(r, Ite):
        pass
    _memo[k] = r
    return r


def ite(c, a, b, _memo=None, _n=None):
    """c: diagram with 0/1 leaves"""
    if _memo is None:
        _memo, _n = {}, [0]
    if not isinstance(c, Ite):
        if c is BOT:
            return BOT
        v = c.const()
        if v is not None:
            return a if v else b
        n = cond('eq', norm_eq(c))
        return ordered(n, b, a)
    k = (c.key, a.key, b.key)
    if k in _memo:
        return _memo[k]
    _n[0] += 1
    if _n[0] > CAP:
        raise TooBig()
    t = top(c, a, b)
    hi = ite(cof(c, t, True), cof(a, t, True), cof(b, t, True), _memo, _n)
    lo = ite(cof(c, t, False), cof(a, t, False), cof(b, t, False), _memo, _n)
    r = ordered(t, hi, lo)
    _memo[k] = r
    return r


def ordered(c, hi, lo):
    """node(c, hi, lo) keeping the variable order even if hi/lo have smaller tops"""
    t = top(hi, lo)
    if t is None or c.key <= t.key:
        return node(c, cof(hi, c, True), cof(lo, c, False))
    return node(t, ordered(c, cof(hi, t, True), cof(lo, t, True)), ordered(c, cof(hi, t, False), cof(lo, t, False)))


def split_const(p):
    t = dict(p.t)
    c = t.pop((), 0.0)
    return Poly(t), c


def lead_sign(p):
    l = sorted(((m, c) for m, c in p.t.items() if m), key=lambda x: [(a.key, e) for a, e in x[0]])
    return l[0][1] if l else 0.0


def norm_eq(p):
    l = lead_sign(p)
    if not l:
        return p
    return Poly({m: c / l for m, c in p.t.items()})


def is_int(p):
    return all(c == int(c) for c in p.t.values() if abs(c) < 1e18) and all(a.integer and e > 0 for m in p.t for a, e in m)


def mk_lt(p, integer):
    """diagram of p < 0"""
    c = p.const()
    if c is not None:
        return TRUE if c < 0 else FALSE
    l = lead_sign(p)
    if integer:
        if l > 0:
            return node(cond('ilt', scale_int(p)), TRUE, FALSE)
        # p < 0  <=>  -p > 0  <=>  not(-p < 1)  <=>  not(-p - 1 < 0)
        q = padd(C(0), p, -1)
        return node(cond('ilt', scale_int(padd(q, C(-1)))), FALSE, TRUE)
    q = Poly({m: x / abs(l) for m, x in p.t.items()})
    if l > 0:
        return node(cond('flt', q), TRUE, FALSE)
    return node(cond('fgt', Poly({m: -x for m, x in q.t.items()})), TRUE, FALSE)


def scale_int(p):
    """p < 0 with gcd g of the non-constant coefficients: floor the constant"""
    q, c = split_const(p)
    g = 0
    for x in q.t.values():
        if x != int(x):
            return p
        g = math.gcd(g, int(abs(x)))
    if g > 1:
        # g*q' + c < 0  <=>  q' < -c/g  <=>  q' < ceil(-c/g)
        b = math.ceil(-c / g)
        return padd(Poly({m: x / g for m, x in q.t.items()}), C(-b))
    return p


def mk_eq(p):
    c = p.const()
    if c is not None:
        return TRUE if c == 0 else FALSE
    return node(cond('eq', norm_eq(p)), TRUE, FALSE)


def b_not(a):
    return ite(a, FALSE, TRUE)


# --------------------------------------------------------------------------------------------- comparison
def base_const(p):
    """p = s*b + c with b canonical: (key of b, s, c)"""
    q, c = split_const(p)
    l = lead_sign(q)
    if not l:
        return None
    return Poly({m: x / l for m, x in q.t.items()}).key, l, c


class Box:
    """interval facts about expressions, per path"""
    def __init__(self, d=None):
        self.d = d or {}

    def copy(self):
        return Box(dict(self.d))

    def get(self, k):
        return self.d.get(k, (-math.inf, False, math.inf, False, frozenset()))

    def assume(self, c, v):
        """-> new Box or None when contradictory.  (lo, lo_strict, hi, hi_strict, excluded)"""
        bc = base_const(c.p)
        if bc is None:
            return self
        k, s, cst = bc
        lo, ls, hi, hs, ex = self.get(k)
        b = -cst / s
        str_d = None
        if v and c.kind == 'eq' and b == 0:
            # a string equals one literal only
            m = re.match(r'call\(compare,(.*),("[^"]*")\)$', k)
            if m:
                o = self.d.get('string ' + m.group(1))
                if o is not None and o != m.group(2):
                    return None
                str_d = ('string ' + m.group(1), m.group(2))
        if c.kind == 'ilt':
            if v:           # s*x + c < 0 over integers, s > 0
                h = math.ceil(b) - 1
                if h < hi:
                    hi, hs = h, False
            else:
                l = math.ceil(b)
                if l > lo:
                    lo, ls = l, False
        elif c.kind in ('flt', 'fgt'):
            lt = (c.kind == 'flt') == (s > 0)
            if not v:
                lt = not lt
            strict = v
            if lt:
                if b < hi or b == hi and strict:
                    hi, hs = b, strict
            else:
                if b > lo or b == lo and strict:
                    lo, ls = b, strict
        elif c.kind == 'eq':
            if v:
                if b < lo or b > hi or (b == lo and ls) or (b == hi and hs) or any(abs(b - e) <= 1e-12 * max(1, abs(b)) for e in ex):
                    return None
                lo, hi, ls, hs = b, b, False, False
            else:
                if lo == hi == b:
                    return None
                ex = ex | {b}
        else:
            return self
        if ex and is_int(split_const(c.p)[0]):
            while lo in ex and not ls:
                lo += 1
            while hi in ex and not hs:
                hi -= 1
        if lo > hi or (lo == hi and (ls or hs)):
            return None
        if lo == hi and lo in ex:
            return None
        d = dict(self.d)
        d[k] = (lo, ls, hi, hs, ex)
        if str_d:
            d[str_d[0]] = str_d[1]
        return Box(d)


def close(a, b, tol=1e-8):
    """leaf equality: same monomials, coefficients equal up to rounding"""
    if a.key == b.key:
        return True
    if not isinstance(a, Poly) or not isinstance(b, Poly):
        return False
    if set(a.t) != set(b.t):
        # tiny terms
        s = max([abs(x) for x in list(a.t.values()) + list(b.t.values())] or [1])
        for m in set(a.t) ^ set(b.t):
            if m == () and abs(a.t.get(m, 0) - b.t.get(m, 0)) < 1e-12 * s:
                continue
            return False
    return all(abs(a.t.get(m, 0) - b.t.get(m, 0)) <= tol * max(abs(a.t.get(m, 0)), abs(b.t.get(m, 0))) for m in set(a.t) | set(b.t))


class Result:
    def __init__(self):
        self.same = self.diff = self.und = 0
        self.example = None
        self.paths = 0


def subst_known(leaf, box):
    """replace expressions that the path fixes to a constant (x == 3 leaves x as 3)"""
    if not isinstance(leaf, Poly):
        return leaf
    ch = False
    t = C(0)
    for m, c in leaf.t.items():
        r = Poly({(): c})
        for a, e in m:
            k = P(a).key
            iv = box.d.get(k)
            if iv and iv[0] == iv[2] and (iv[0] != 0 or e > 0):
                r = pmul(r, C(iv[0] ** e))
                ch = True
            else:
                r = pmul(r, Poly({((a, e),): 1.0}))
        t = padd(t, r)
    return t if ch else leaf


def zero_here(g, w, box):
    """the difference is an expression that the path fixes to zero"""
    if not isinstance(g, Poly) or not isinstance(w, Poly):
        return False
    d = padd(g, w, -1)
    bc = base_const(d)
    if bc is None:
        return False
    lo, _, hi, _, _ = box.get(bc[0])
    return lo == hi and abs(bc[1] * lo + bc[2]) <= 1e-9 * max(1, abs(bc[2]))


def feasible(trail, limit=4000):
    """the linear comparisons of a path have a common solution (Fourier-Motzkin over the monomials; True when unsure)"""
    rows = []                       # (coefficients, constant, strict): sum + constant < / <= 0
    nz = []

    def add(p, strict, s=1.0):
        q, c = split_const(p)
        rows.append(({m: s * x for m, x in q.t.items()}, s * c, strict))
    ints = lambda p: is_int(split_const(p)[0]) and all(x == int(x) for x in p.t.values())
    for c, v in trail:
        if c.kind == 'ilt':
            if v:
                add(padd(c.p, C(1)), False) if ints(c.p) else add(c.p, True)
            else:
                add(c.p, False, -1.0)
        elif c.kind == 'flt':
            add(c.p, True) if v else add(c.p, False, -1.0)
        elif c.kind == 'fgt':
            add(c.p, True, -1.0) if v else add(c.p, False)
        elif c.kind == 'eq' and v:
            add(c.p, False)
            add(c.p, False, -1.0)
        elif c.kind == 'eq':
            nz.append(c.p)

    def solve(rows):
        vs = {m for r in rows for m in r[0]}
        while True:
            for co, c, st in rows:
                if not co and (c > 1e-9 or st and c >= 0):
                    return False
            vs = {m for r in rows for m in r[0]}
            if not vs:
                return True
            cnt = {}
            for m in vs:
                u = sum(1 for r in rows if r[0].get(m, 0) > 0)
                l = sum(1 for r in rows if r[0].get(m, 0) < 0)
                cnt[m] = u * l - u - l
            m = min(vs, key=lambda z: (cnt[z], str(z)))
            up = [r for r in rows if r[0].get(m, 0) > 0]
            lo = [r for r in rows if r[0].get(m, 0) < 0]
            nr = {}
            for r in rows:
                if m not in r[0]:
                    nr[(tuple(sorted((str(k), x) for k, x in r[0].items())), r[1], r[2])] = r
            for a in up:
                for b in lo:
                    x, y = a[0][m], -b[0][m]
                    co = {}
                    for k in set(a[0]) | set(b[0]):
                        if k != m:
                            z = a[0].get(k, 0) / x + b[0].get(k, 0) / y
                            if abs(z) > 1e-12:
                                co[k] = z
                    r = (co, a[1] / x + b[1] / y, a[2] or b[2])
                    nr[(tuple(sorted((str(k), z) for k, z in co.items())), round(r[1], 9), r[2])] = r
            rows = list(nr.values())
            if len(rows) > limit:
                return True
    if not solve(rows):
        return False
    # p != 0 leaves p <= -1 or p >= 1 over the integers
    for p in nz:
        if ints(p):
            q, c = split_const(p)
            if not solve(rows + [(dict(q.t), c + 1, False)]) and not solve(rows + [({m: -x for m, x in q.t.items()}, 1 - c, False)]):
                return False
    return True


class Enough(Exception):
    """a definite difference was found"""


def compare(got, want, equal=None, limit=200000, given=None, seconds=60):
    """walk both diagrams over all consistent assignments of the comparison atoms"""
    R = Result()
    end = time.time() + seconds
    equal = equal or close
    memo = set()

    def rec(g, w, box, trail, opq):
        if g is w or g.key == w.key:
            R.paths += 1
            R.same += 1
            return
        if R.paths > limit or (R.und and time.time() > end):
            raise TooBig()
        if g is BOT or w is BOT:
            R.paths += 1
            R.same += 1
            return
        c = top(g, w)
        if c is None:
            R.paths += 1
            g2, w2 = subst_known(g, box), subst_known(w, box)
            if equal(g2, w2) or zero_here(g2, w2, box) or not feasible(trail):
                R.same += 1
            elif g2.opaque or w2.opaque or opq:
                R.und += 1
                if R.example is None:
                    R.example = ([('' if v else 'not ') + c.key for c, v in trail], g2, w2)
            else:
                k = confirm(trail, box, g2, w2)
                if k is True:
                    if not R.diff:
                        R.example = ([('' if v else 'not ') + c.key for c, v in trail], g2, w2)
                    R.diff += 1
                    raise Enough()
                elif k is False:
                    R.same += 1
                else:
                    R.und += 1
                    if R.example is None:
                        R.example = ([('' if v else 'not ') + c.key for c, v in trail], g2, w2)
            return
        for v in (True, False):
            b2 = box.assume(c, v)
            if b2 is None:
                continue
            rec(cof(g, c, v), cof(w, c, v), b2, trail + [(c, v)], opq + (1 if c.opaque else 0))
    def pre(n, g, w, box, trail):
        if isinstance(n, Ite):
            for v, m in ((True, n.hi), (False, n.lo)):
                b2 = box.assume(n.c, v)
                if b2 is not None:
                    pre(m, cof(g, n.c, v), cof(w, n.c, v), b2, trail + [(n.c, v)])
        elif n.key != FALSE.key:
            rec(g, w, box, trail, 0)
    try:
        if given is None:
            rec(got, want, Box(), [], 0)
        else:
            pre(given, got, want, Box(), [])
    except Enough:
        pass
    return R


def show(n, depth=0):
    if isinstance(n, Ite):
        return '%sif %s:\n%s\n%selse:\n%s' % ('  ' * depth, n.c.key, show(n.hi, depth + 1), '  ' * depth, show(n.lo, depth + 1))
    return '  ' * depth + n.key


# ------------------------------------------------------------------------------------- numeric identity guard
# Used only to keep quiet: a structural difference is reported when the two extracted expressions also differ as
# functions of their named inputs.
_FREE = ('f', 'mem', 'call', 'vcall', 'out', 'fpclassify', 'k', 'isnan', 'isinf', 'elt', 'fn')


def _h(*a):
    import hashlib
    return int.from_bytes(hashlib.sha256('|'.join(map(str, a)).encode()).digest()[:8], 'little') / 2.0 ** 64


class Num:
    def __init__(self, env, seed):
        self.env, self.seed, self.memo = env, seed, {}

    def atom(self, a):
        if a.key in self.env:
            return self.env[a.key]
        v = self.memo.get(a.key)
        if v is None:
            v = self.memo[a.key] = self.atom_(a)
        return v

    def arg(self, x):
        return self.node(x) if isinstance(x, (Poly, Ite)) else self.atom(x) if isinstance(x, Atom) else x

    def atom_(self, a):
        k = a.kind
        try:
            if k == 'sum':
                return self.poly(a.a[0])
            if k in ('int',):
                return float(math.trunc(self.arg(a.a[0])))
            if k == 'mod':
                return self.arg(a.a[0]) % float(a.a[1])
            if k == 'sdiv':
                return float(math.trunc(self.arg(a.a[0]) / self.arg(a.a[1])))
            if k == 'idiv':
                return float(math.floor(self.arg(a.a[0]) / self.arg(a.a[1])))
            if k == 'wrap':
                return self.arg(a.a[1]) % float(1 << int(a.a[0]))
            if k == 'swrap':
                return (self.arg(a.a[0]) + 2147483648.0) % 4294967296.0 - 2147483648.0
            if k == 'shl':
                return self.arg(a.a[0]) * 2.0 ** self.arg(a.a[1])
            if k == 'fn':
                xs = [self.arg(x) for x in a.a[1:]]
                n = a.a[0]
                if n == 'pow':
                    return math.pow(*xs)
                if n == 'atan2':
                    return math.atan2(*xs)
                if n in ('round', 'lround', 'llround'):
                    return math.floor(abs(xs[0]) + 0.5) * (1 if xs[0] >= 0 else -1)
                if n in ('lrint', 'rint', 'nearbyint'):
                    return float(round(xs[0]))
                if hasattr(math, n):
                    return float(getattr(math, n)(*xs))
            if k in ('and', 'or', 'xor'):
                x, y = int(self.arg(a.a[0])), int(self.arg(a.a[1]))
                return float(x & y if k == 'and' else x | y if k == 'or' else x ^ y)
        except (ValueError, OverflowError, ZeroDivisionError):
            return math.nan
        r = _h(self.seed, k, *[repr(self.arg(x)) if isinstance(x, (Poly, Ite, Atom)) else str(x) for x in a.a])
        return float(math.floor(r * 50)) if a.integer else 0.1 + 3 * r

    def poly(self, p):
        s = 0.0
        for m, c in p.t.items():
            t = c
            for a, e in m:
                v = self.atom(a)
                try:
                    t *= v ** e
                except (ZeroDivisionError, OverflowError):
                    return math.nan
            s += t
        return s

    def cond(self, c):
        v = self.poly(c.p)
        if c.kind in ('ilt', 'flt'):
            return v < -1e-9 if c.kind == 'flt' else v < 0
        if c.kind == 'fgt':
            return v > 1e-9
        return abs(v) < 1e-9

    def node(self, n):
        while isinstance(n, Ite):
            n = n.hi if self.cond(n.c) else n.lo
        return self.poly(n) if isinstance(n, Poly) else math.nan


def walk_atoms(n, out=None, seen=None):
    if out is None:
        out, seen = {}, set()
    if isinstance(n, Ite):
        if n.key in seen:
            return out
        seen.add(n.key)
        walk_atoms(n.c.p, out, seen)
        walk_atoms(n.hi, out, seen)
        walk_atoms(n.lo, out, seen)
    elif isinstance(n, Poly):
        for a in n.atoms():
            walk_atoms(a, out, seen)
    elif isinstance(n, Atom):
        if n.key not in out:
            out[n.key] = n
            for x in n.a:
                if isinstance(x, (Poly, Ite, Atom)):
                    walk_atoms(x, out, seen)
    return out


def slope(N, env, p, t, step):
    """an input of p, and how fast p changes with it here (measured, as p need not be linear)"""
    fs = [a for k, a in walk_atoms(p).items() if k in env and a.kind in _FREE]
    if not fs:
        return None, None
    a = fs[int(_h(t, step, 's') * len(fs))]
    now = N.poly(p)
    for d in (1.0, 37.0, 4001.0):
        e = dict(env)
        e[a.key] += d
        x = (Num(e, t).poly(p) - now) / d
        if x and not math.isnan(x) and not math.isinf(x):
            return a, x
    return None, None


ROUNDING = ('nearbyint', 'rint', 'lrint', 'round', 'lround', 'llround', 'llrint', 'floor', 'ceil', 'trunc')


def apart(N, g, w, x, y):
    """do two values differ by more than rounding: what they have in common (a large offset, say) does not count"""
    if abs(x - y) > 1e-7 * max(1e-12, abs(x), abs(y)):
        return True
    while isinstance(g, Ite):
        g = g.hi if N.cond(g.c) else g.lo
    while isinstance(w, Ite):
        w = w.hi if N.cond(w.c) else w.lo
    if not isinstance(g, Poly) or not isinstance(w, Poly):
        return False
    s = top = size = 0.0
    for m in set(g.t) | set(w.t):
        a, b = g.t.get(m, 0.0), w.t.get(m, 0.0)
        v = 1.0
        for k, e in m:
            v *= N.atom(k) ** e
        size = max(size, abs(v * a), abs(v * b))
        if abs(a - b) <= 1e-8 * max(abs(a), abs(b)):
            continue
        s += v * (a - b)
        top = max(top, abs(v * (a - b)))
    return abs(s) > max(1e-7 * top, 1e-13 * size)


def confirm(path, box, g, w, tries=60):
    """do the leaves g and w differ for inputs that take this path?  True / False (identical) / None (path not met)"""
    met = False
    atoms = walk_atoms(g)
    walk_atoms(w, atoms, set())
    for c, v in path:
        walk_atoms(c.p, atoms, set())
    same = 0
    congr = {}
    for c, v in path:
        # x mod n == r on this path: pick x accordingly
        if v and c.kind == 'eq':
            bc = base_const(c.p)
            a = walk_atoms(c.p).get(bc[0]) if bc else None
            if a is not None and a.kind == 'mod' and isinstance(a.a[0], Poly):
                n = a.a[1]
                n = n.t.get((), 0) if isinstance(n, Poly) else n
                q, c0 = split_const(a.a[0])
                if len(q.t) == 1 and list(q.t.values()) == [1.0] and n:
                    congr.setdefault(q.key, []).append((int(n), int(round(-bc[2] / bc[1])), int(c0)))
    # rounding hides what small inputs do
    rounds = any(a.kind in ('int', 'idiv', 'sdiv') or a.kind == 'fn' and a.a[0] in ROUNDING for a in atoms.values())
    for t in range(tries):
        env = {}
        for k, a in atoms.items():
            if a.kind in _FREE and a.kind != 'fn':
                lo, ls, hi, hs, ex = box.get(P(a).key)
                r = _h(t, 'e', k)
                if lo == -math.inf and hi == math.inf:
                    if t % 3 == 0 and a.integer:
                        v = math.floor(r * 40)
                    else:
                        v = math.floor(r * 3000) if a.integer else 0.05 + 2.5 * r
                        if rounds and not a.integer and t % 2:
                            v *= (-1 if t % 4 == 1 else 1) * (30.0, 3e3, 3e5, 3e6)[int(_h(t, 'z', k) * 4)]
                elif lo == -math.inf:
                    v = hi - (math.floor(r * 9) if a.integer else 3 * r + 1e-6)
                elif hi == math.inf:
                    v = lo + (math.floor(r * 9) if a.integer else 3 * r + 1e-6)
                else:
                    v = lo + (math.floor(r * (hi - lo + 1)) if a.integer else r * (hi - lo))
                n = 0
                while v in ex and n < 50:
                    v += 1
                    n += 1
                env[k] = float(v)
        for k, cs in congr.items():
            if k in env:
                x, L = int(env[k]), 1
                for n, r, c0 in cs:
                    for _ in range(n):
                        if (x + c0) % n == r:
                            break
                        x += L
                    L = L * n // math.gcd(L, n)
                env[k] = float(x)
        N = Num(env, t)
        bad = [(c, v) for c, v in path if N.cond(c) != v]
        for step in range(25):
            if not bad:
                break
            # move one input of a comparison that fails to just satisfy it
            c, v = bad[int(_h(t, step, 'c') * len(bad))]
            ms = [(m[0][0], x) for m, x in c.p.t.items() if len(m) == 1 and m[0][1] == 1 and m[0][0].key in env and m[0][0].kind in _FREE]
            x = None
            if not ms:
                a, x = slope(N, env, c.p, t, step)
                if not x:
                    continue
            if x is None:
                a, x = ms[int(_h(t, step, 'm') * len(ms))]
            now, r = N.poly(c.p), math.floor(_h(t, step, 'r') * 3) * (step % 2)
            goal = {'eq': 0.0 if v else 1.0, 'fgt': 1.0 + r if v else 0.0 - r}.get(c.kind, -1.0 - r if v else 0.0 + r)
            if math.isnan(now) or math.isinf(now):
                break
            z = env[a.key] + (goal - now) / x
            env[a.key] = float(round(z)) if a.integer else z
            N = Num(env, t)
            bad = [(c, v) for c, v in path if N.cond(c) != v]
        if bad:
            continue
        met = True
        x, y = N.node(g), N.node(w)
        if math.isnan(x) and math.isnan(y):
            continue
        if math.isnan(x) or math.isnan(y) or apart(N, g, w, x, y):
            return True
        same += 1
    if same >= 3:
        return False
    return None if not met else (False if same else None)
