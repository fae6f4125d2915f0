"""Memory accesses against the sizes of the buffers they go to.

Values are those of Ev (linear over named inputs).  Loop variables that are not affine in the iteration counter get a name of their
own; invariants between them (a pointer that advances by what a counter loses, a value that never goes below zero) are proposed and
kept only where they hold on entry and over every back edge.  An access is inside when the branch conditions that dominate it, the
ranges of the counters and the invariants leave no room for an offset below zero or beyond the end (Fourier-Motzkin, over the
rationals).  It is outside when values of the inputs are found that satisfy every condition of the path of a first iteration."""
import math, re
from .symeval import *
from .sym import feasible, node, mk_lt, mk_eq, padd, pmul, Ite, Poly, atom, P, C, TRUE, FALSE, BOT

READS = {      # callee -> (pointer argument, length arguments (product), what happens)
    'read': (1, (2,)), 'memcpy': (0, (2,)), 'memset': (0, (2,)), 'memmove': (0, (2,)), 'bzero': (0, (1,)), 'fread': (0, (1, 2)),
    'fgets': (0, (1,)),
}


def rows(trail):
    out = []
    for c, v in trail:
        out.append((c, v))
    return out


def walk_keys(a):
    return walk_atoms(P(a))


def lin(p, rel):
    """condition on a polynomial: p < 0, p <= 0, p == 0 as (Cond, value) or None when it is constant and true; False when false"""
    k = p.const()
    if k is not None:
        return None if (k < 0 if rel == 'lt' else k <= 0 if rel == 'le' else k == 0) else False
    n = mk_lt(p, True) if rel == 'lt' else mk_lt(padd(p, C(1), -1), True) if rel == 'le' else mk_eq(p)
    if not isinstance(n, Ite):
        return None if n.const() else False
    return n.c, n.hi.const() == 1


def model(trail, limit=3000):
    """integers that satisfy the comparisons, {value: integer}, or None.  Of products all factors but one get small values."""
    atoms = {a.key: a for c, v in trail if isinstance(c.p, Poly) for a in c.p.atoms()}
    env = model0(trail, limit)
    if env is not None and agrees(atoms, env):
        return env
    # what is divided, shifted or masked is tried one value after another
    src = {}
    for a in atoms.values():
        x = operand(a)
        if x is not None:
            src.setdefault(x, []).append(a)
    for x, ds in src.items():
        at = {0}
        for c, v in trail:
            if isinstance(c.p, Poly) and [a.key for a in c.p.atoms()] == [x] and len(c.p.t) <= 2:
                at.add(int(abs(c.p.t.get((), 0))))
        for z in sorted(at)[:4]:
            for n in range(z, z + 64):
                env = model1(trail, dict({a.key: derived(a, n) for a in ds}, **{x: n}), limit)
                if env is not None and agrees(atoms, env):
                    return env
    return None


DERIVED = {'idiv': lambda x, y: x // y, 'sdiv': lambda x, y: abs(x) // abs(y) * (1 if (x < 0) == (y < 0) else -1), 'mod': lambda x, y: x % y,
           'shl': lambda x, y: x << y, 'and': lambda x, y: x & y, 'or': lambda x, y: x | y, 'xor': lambda x, y: x ^ y}


def number(x):
    k = x.const() if isinstance(x, Poly) else x
    return int(k) if isinstance(k, (int, float)) and not isinstance(k, bool) and k == int(k) else None


def operand(a):
    """the one value that a division, shift or mask by a constant is made from"""
    if a.kind not in DERIVED or len(a.a) != 2:
        return None
    xs = [x for x in a.a if number(x) is None]
    if len(xs) == 1 and isinstance(xs[0], Poly) and [y.key for y in xs[0].atoms()] == [xs[0].key]:
        return xs[0].key
    return None


def derived(a, n):
    x, y = [number(x) if number(x) is not None else n for x in a.a]
    try:
        return DERIVED[a.kind](x, y)
    except (ZeroDivisionError, ValueError, OverflowError):
        return 0


def agrees(atoms, env):
    """derived values are what they are derived from"""
    for a in atoms.values():
        x = operand(a)
        if a.kind in DERIVED and a.kind not in ('idiv', 'sdiv', 'mod'):
            if x is None or x not in env or a.key not in env or derived(a, env[x]) != env[a.key]:
                return False
    return True


def model0(trail, limit):
    prods = [m for c, v in trail for m in getattr(c.p, 't', {}) if sum(e for a, e in m) > 1]
    if not prods:
        return model1(trail, {}, limit)
    keys = sorted({a.key for m in prods for a, e in m})
    for one in (1, 2, 3):
        for free in (keys if len(keys) < 5 else []) + [None]:
            env = model1(trail, {k: one for k in keys if k != free}, limit)
            if env is not None:
                return env
    return None


def unknown(a):
    """a value that the program may restrict in ways not followed; what a call gives is free"""
    return a.opaque and a.kind not in ('call', 'vcall')


def model1(trail, unit, limit):
    R = []          # coeffs, const: sum + const <= 0
    ne = []

    def add(p, c0=0, s=1):
        t = {}
        c = c0
        for m, x in p.t.items():
            for a, e in m:
                if a.key in unit:
                    x *= unit[a.key] ** e
            m = [a.key for a, e in m for _ in range(e) if a.key not in unit]
            if len(m) > 1:
                raise ValueError
            if m:
                t[m[0]] = t.get(m[0], 0) + s * x
            else:
                c += s * x
        R.append((t, c))
    try:
        for c, v in trail:
            if c.kind == 'ilt' and v:
                add(c.p, 1)
            elif c.kind == 'ilt':
                add(c.p, 0, -1)
            elif c.kind == 'eq' and v:
                add(c.p)
                add(c.p, 0, -1)
            elif c.kind == 'eq':
                ne.append(c.p)
            else:
                return None
    except ValueError:
        return None
    stages = []
    rows = R
    while True:
        vs = {m for r in rows for m in r[0]}
        if any(not r[0] and r[1] > 1e-9 for r in rows):
            return None
        if not vs:
            break
        m = min(vs, key=lambda z: (sum(1 for r in rows if r[0].get(z, 0) > 0) * sum(1 for r in rows if r[0].get(z, 0) < 0), z))
        up = [r for r in rows if r[0].get(m, 0) > 0]
        lo = [r for r in rows if r[0].get(m, 0) < 0]
        stages.append((m, up, lo))
        nr = {}
        for r in rows:
            if m not in r[0]:
                nr[str((sorted(r[0].items()), r[1]))] = r
        for a in up:
            for b in lo:
                x, y = a[0][m], -b[0][m]
                co = {}
                for k in set(a[0]) | set(b[0]):
                    if k != m:
                        z = a[0].get(k, 0) / x + b[0].get(k, 0) / y
                        if abs(z) > 1e-12:
                            co[k] = z
                r = (co, a[1] / x + b[1] / y)
                nr[str((sorted(co.items()), round(r[1], 9)))] = r
        rows = list(nr.values())
        if len(rows) > limit:
            return None
    for pick in (0, 1, 2):
        env = {}
        good = True
        for m, up, lo in reversed(stages):
            ev = lambda r: r[1] + sum(x * env.get(k, 0) for k, x in r[0].items() if k != m)
            hi = min([math.floor(-ev(r) / r[0][m] + 1e-9) for r in up] or [math.inf])
            lw = max([math.ceil(ev(r) / -r[0][m] - 1e-9) for r in lo] or [-math.inf])
            if lw > hi:
                good = False
                break
            cand = [lw, hi, (lw + hi) // 2 if lw > -math.inf and hi < math.inf else 0]
            cand = [x for x in cand if -math.inf < x < math.inf and lw <= x <= hi] or [0]
            env[m] = cand[pick % len(cand)]
        if not good:
            continue

        def value(p):
            return sum(x * math.prod(unit.get(a.key, env.get(a.key, 0)) for a, e in m for _ in range(e)) for m, x in p.t.items())
        for p in ne:
            # move one of the free values
            for m in p.t:
                if value(p) == 0 and m and m[0][0].key not in unit:
                    k = m[0][0].key
                    env[k] = env.get(k, 0) + 1
                    if not all(sum(x * env.get(k, 0) for k, x in r[0].items()) + r[1] <= 1e-9 for r in R):
                        env[k] -= 1
        if all(sum(x * env.get(k, 0) for k, x in r[0].items()) + r[1] <= 1e-9 for r in R) and all(value(p) != 0 for p in ne):
            return dict(env, **unit)
    return None


# calls that give something else every time
STREAM = r'stream(<.*>)?::(get|gcount|tellg|tellp|peek)\(|^(getc|fgetc|fread|ftell)$'


class Bounds:
    def __init__(self, prog, fn, sizes=None, given=(), effects=None, positive=(), rng=None):
        """sizes: pointer key -> size in bytes (Poly).  given: [(Cond diagram, value)] that hold on entry.
        effects: callee regex -> function(ev, inst) -> [(pointer, length)]"""
        self.prog, self.fn = prog, fn
        self.sizes = dict(sizes or {})
        self.given = list(given)
        self.effects = effects or {}
        self.positive = set(positive)
        self.known = dict(rng or {})
        self.names = {}
        self.pmemo = {}
        self.pre = {}           # phi -> named value
        self.inv = {}           # header -> [(Cond, value)]
        self.bounded = set()    # loops left by count, among others
        self.init = {}          # atom key -> value on entry
        self.ev = self.fresh()
        self.name_phis()
        self.ranges()
        self.invariants()
        self.truncations()

    def fresh(self):
        self.fmemo = {}
        ev = Ev(self.prog, self.fn, callname=lambda e, i: '%s@%s' % (e.cbase(i), i.get('id')) if re.search(STREAM, i.get('dem') or i.get('callee') or '') else None)
        ev.apart = True
        ev.memo.update(self.pre)
        return ev

    # ---------------------------------------------------------------- loop variables
    def phis(self, h):
        return [i for i in self.fn.blocks[h]['insts'] if i['op'] == 'phi']

    def name_phis(self):
        for h in self.ev.hdrs:
            for i in self.phis(h):
                t = i.get('t') or ''
                v = '%%%s' % i['id']
                if not (t == 'ptr' or t.startswith('i')):
                    continue
                x = self.ev.val(v)
                if isinstance(x, Poly) and not any(a.opaque or '?' in a.key for a in x.atoms()):
                    continue
                ins = [a for a, b in i['in'] if b not in self.ev.loops[h]]
                if len(ins) != 1:
                    continue
                a = atom('f', 'it:%s' % v, integer=True)
                x0 = self.ev.val(ins[0])
                self.names[v] = a
                if t == 'ptr':
                    if not isinstance(x0, Poly):
                        continue
                    self.pre[v] = padd(x0, P(a))
                    self.init[a.key] = C(0)
                else:
                    self.pre[v] = P(a)
                    self.init[a.key] = x0
                self.ev = self.fresh()

    def alternatives(self, b, h, depth=0):
        """(facts, resolver) for every way a back edge from b to h is reached; values merged in b are told apart"""
        ps = [i for i in self.fn.blocks[b]['insts'] if i['op'] == 'phi']
        if b == h or not ps or b in self.ev.loops or depth > 3:
            return [([b], {})]
        out = []
        for p in self.fn.pred[b]:
            if p not in self.ev.dom:
                continue
            sel = {'%%%s' % i['id']: next((a for a, q in i['in'] if q == p), None) for i in ps}
            for path, m in self.alternatives(p, h, depth + 1):
                d = dict(m)
                d.update(sel)
                out.append((path + [b], d))
        return out

    def nexts(self, h):
        """[(blocks on the way, {phi: value after this back edge})]"""
        out = []
        for b in self.ev.loops[h]:
            if h not in self.fn.succ[b]:
                continue
            for path, sel in self.alternatives(b, h):
                d = {}
                for i in self.phis(h):
                    x = next((a for a, q in i['in'] if q == b), None)
                    n = 0
                    while isinstance(x, str) and x in sel and n < 5:
                        x = sel[x]
                        n += 1
                    d['%%%s' % i['id']] = self.resolve(x, sel)
                out.append((path, d))
        return out

    def resolve(self, x, sel):
        # values computed after the merge from merged values
        if not sel:
            return self.ev.val(x)
        ev = self.fresh()
        for v, s in sel.items():
            n = 0
            while isinstance(s, str) and s in sel and n < 5:
                s = sel[s]
                n += 1
            ev.memo[v] = self.ev.val(s)
        r = ev.val(x)
        return r

    def own(self, h):
        """{phi: atom} of the named variables of h"""
        out = {}
        for i in self.phis(h):
            v = '%%%s' % i['id']
            p = self.pre.get(v)
            if p is not None:
                out[v] = self.names[v]
        return out

    def invariants(self):
        for h in self.ev.hdrs:
            if self.ev.trips(h) is None:
                self.counted(h)
        for h in self.ev.hdrs:
            own = self.own(h)
            if not own:
                continue
            # sums that stay the same
            vs = list(own)
            done = set()
            for x in range(len(vs)):
                for y in range(x + 1, len(vs)):
                    a, b = vs[x], vs[y]
                    if a in done or b in done:
                        continue
                    nx = self.nexts(h)
                    for s in (1, -1):
                        same = nx and all(isinstance(d[a], Poly) and isinstance(d[b], Poly) and
                                          not padd(padd(d[a], self.pre[a], -1), padd(d[b], self.pre[b], -1), s).t for _, d in nx)
                        if same:
                            break
                    if same:
                        # the pointer (or the first) follows from the other
                        p, q = (a, b) if self.fn.inst[a].get('t') == 'ptr' else (b, a)
                        tot = padd(self.init[own[p].key], self.init[own[q].key], s) if isinstance(self.init[own[p].key], Poly) and isinstance(self.init[own[q].key], Poly) else None
                        if tot is None:
                            continue
                        new = padd(tot, P(own[q]), -s)
                        self.pre[p] = padd(padd(self.pre[p], P(own[p]), -1), new)
                        done.add(p)
                        self.ev = self.fresh()
            own = {v: a for v, a in own.items() if v not in done}
            # values that stay at or above zero, at or below (above) where they began
            for v, a in own.items():
                x0 = self.init[a.key]
                if not isinstance(x0, Poly):
                    continue
                for p in (P(a), padd(x0, P(a), -1), padd(P(a), x0, -1)):
                    self.propose(h, v, a, x0, p)

    def counted(self, h):
        """a loop with more than one way out, one of them by count: the count stays at or below where that one leaves"""
        ev = self.ev
        k = ev.k(h)
        latches = [x for x in self.fn.pred[h] if x in ev.loops[h]]
        for x in ev.loops[h]:
            outs = [s for s in self.fn.succ[x] if s not in ev.loops[h]]
            if not outs or len(self.fn.succ[x]) != 2 or len(outs) != 1 or not all(x in ev.dom[l] for l in latches) or ev.inner_loops(x)[0] != h:
                continue
            stay = next(s for s in self.fn.succ[x] if s != outs[0])
            for n, v in self.cond_of(x, stay):
                for c, w in self.cond_facts(n, v):
                    (km,) = k.t
                    co = c.p.t.get(km)
                    if co not in (1, -1) or any(km[0][0].key in walk_keys(a) for m in c.p.t if m != km for a, _ in m):
                        continue
                    rest = padd(c.p, k, -co)                    # p = co*k + rest
                    if c.kind == 'eq' and not w:
                        top = padd(C(0), rest, -1) if co == 1 else rest
                    elif c.kind == 'ilt' and w and co == 1:     # k < -rest
                        top = padd(C(0), rest, -1)
                    elif c.kind == 'ilt' and not w and co == -1:        # k <= rest
                        top = padd(rest, C(1))
                    else:
                        continue
                    if self.proved(self.facts_at_entry(h), lin(top, 'lt')):
                        f_ = lin(padd(k, top, -1), 'le')
                        if f_:
                            self.inv.setdefault(h, []).append(f_)
                            self.bounded.add(h)
                            self.fmemo = {}

    def propose(self, h, v, a, x0, p):
        """p >= 0 in every pass of h, where p is of the variable v and its first value"""
        up = lin(padd(C(0), p, -1), 'le')
        if up is None or up is False or any(c.key == up[0].key and w == up[1] for c, w in self.inv.get(h, [])):
            return
        if not self.proved(self.facts_at_entry(h), lin(subst(p, {a.key: x0}), 'lt')):
            return
        self.inv.setdefault(h, []).append(up)
        self.fmemo = {}
        for path, d in self.nexts(h):
            n = d[v]
            if self.fn.inst[v].get('t') == 'ptr':
                n = padd(n, padd(self.pre[v], P(a), -1), -1) if isinstance(n, Poly) else n
            if not isinstance(n, Poly) or not self.proved(self.facts_edge(path, h), lin(subst(p, {a.key: n}), 'lt')):
                self.inv[h].remove(up)
                self.fmemo = {}
                return

    # ---------------------------------------------------------------- facts
    def ranges(self):
        self.rng = dict(self.known)
        for v, i in self.fn.inst.items():
            if i['op'] in ('zext', 'sext') and i.get('a'):
                src = i['a'][0]
                if not isinstance(src, str):
                    continue
                m = re.match(r'i(\d+)$', i.get('ot') or '')
                if not m or int(m.group(1)) not in (8, 16, 32):
                    continue
                x = self.ev.val(src)
                if isinstance(x, Poly) and len(x.t) == 1:
                    (mm, c), = x.t.items()
                    if len(mm) == 1 and mm[0][1] == 1 and c == 1:
                        k = int(m.group(1))
                        r = (0, 2 ** k - 1) if i['op'] == 'zext' else (-2 ** (k - 1), 2 ** (k - 1) - 1)
                        o = self.rng.get(mm[0][0].key)
                        self.rng[mm[0][0].key] = r if o is None else (max(o[0], r[0]), min(o[1], r[1])) if o[0] <= r[1] and r[0] <= o[1] else o

    def truncations(self):
        for v, i in self.fn.inst.items():
            if i['op'] == 'trunc' and i.get('t') == 'i32' and i.get('a') and isinstance(i['a'][0], str):
                # kept whole by the evaluation: taken to fit, signed or not
                x = self.ev.val(i['a'][0])
                if isinstance(x, Poly) and self.ev.val(v).key == x.key and len(x.t) == 1:
                    (mm, c), = x.t.items()
                    if len(mm) == 1 and mm[0][1] == 1 and c == 1:
                        self.rng.setdefault(mm[0][0].key, (-2 ** 31, 2 ** 32 - 1))

    def atom_facts(self, a):
        out = []
        r = self.rng.get(a.key)
        m = re.search(r'\.u(\d*)(be|le)?@-?\d+$', a.key)
        if m:
            r = (0, 256 ** int(m.group(1) or 1) - 1)
        if a.kind == 'mod':
            b = a.a[1]
            b = b if isinstance(b, Poly) else C(b) if isinstance(b, (int, float)) else None
            out.append(lin(padd(C(0), P(a), -1), 'le'))
            if b is not None:
                out.append(lin(padd(P(a), b, -1), 'lt'))
        if a.kind == 'mod' and isinstance(a.a[0], Poly):
            m_ = a.a[1].const() if isinstance(a.a[1], Poly) else a.a[1]
            iv = self.interval(a.a[0])
            if isinstance(m_, (int, float)) and 0 <= iv[0] and iv[1] < m_:
                out.append(lin(padd(P(a), a.a[0], -1), 'le'))
                out.append(lin(padd(a.a[0], P(a), -1), 'le'))
        if (a.kind == 'idiv' or a.kind == 'sdiv' and self.interval(a.a[0])[0] >= 0) and isinstance(a.a[0], Poly):
            c = a.a[1].const() if isinstance(a.a[1], Poly) else a.a[1]
            if isinstance(c, (int, float)) and c > 0:
                rest = padd(a.a[0], P(a), -c)
                out.append(lin(padd(C(0), rest, -1), 'le'))
                out.append(lin(padd(rest, C(c), -1), 'lt'))
        if a.key in self.positive:
            out.append(lin(padd(C(0), P(a), -1), 'le'))
        if r:
            out.append(lin(padd(C(r[0]), P(a), -1), 'le'))
            out.append(lin(padd(P(a), C(r[1]), -1), 'le'))
        return [x for x in out if x]

    def possible(self, facts, lit):
        k = (tuple(sorted('%s%d' % (c.key, bool(v)) for c, v in facts)), lit[0].key, lit[1])
        r = self.pmemo.get(k)
        if r is None:
            near = self.relevant(facts, lit)
            r = self.pmemo[k] = feasible(self.close(near, [lit]))
        return r

    def relevant(self, facts, lit):
        """the facts that share values with the literal, directly or through others"""
        def names(p, out):
            for a in p.atoms():
                if a.key not in out:
                    out.add(a.key)
                    if a.kind in ('idiv', 'sdiv', 'mod') and isinstance(a.a[0], Poly):
                        names(a.a[0], out)
            return out
        want = names(lit[0].p, set())
        out, rest = [], list(facts)
        while True:
            hit = [x for x in rest if names(x[0].p, set()) & want]
            if not hit:
                return out
            out += hit
            rest = [x for x in rest if x not in hit]
            for c, v in hit:
                names(c.p, want)

    def simple(self, n, facts, depth=0):
        """the diagram without the branches that the facts (and ranges) rule out"""
        if not isinstance(n, Ite) or depth > 12:
            return n
        if not self.possible(facts, (n.c, True)):
            return self.simple(n.lo, facts, depth + 1)
        if not self.possible(facts, (n.c, False)):
            return self.simple(n.hi, facts, depth + 1)
        h = self.simple(n.hi, facts + [(n.c, True)], depth + 1)
        l = self.simple(n.lo, facts + [(n.c, False)], depth + 1)
        return node(n.c, h, l)

    def cond_facts(self, n, v, facts=None):
        """comparisons that follow from a 0/1 diagram being v (given facts)"""
        out = []
        if facts is not None:
            n = self.simple(n, facts)
        while isinstance(n, Ite):
            h, l = n.hi, n.lo
            if isinstance(h, Poly) and h.const() is not None and bool(h.const()) != v or h is BOT:
                out.append((n.c, False))
                n = l
            elif isinstance(l, Poly) and l.const() is not None and bool(l.const()) != v or l is BOT:
                out.append((n.c, True))
                n = h
            else:
                break
        return out

    def interval(self, p):
        lo = hi = 0
        if not isinstance(p, Poly):
            return -math.inf, math.inf
        for m, c in p.t.items():
            if m == ():
                lo, hi = lo + c, hi + c
                continue
            r = self.arange(m[0][0]) if len(m) == 1 and m[0][1] == 1 else (-math.inf, math.inf)
            a, b = r[0] * c, r[1] * c
            lo, hi = lo + min(a, b), hi + max(a, b)
        return lo, hi

    def arange(self, a):
        lo, hi = self.rng.get(a.key) or (-math.inf, math.inf)
        m = re.search(r'\.u(\d*)(be|le)?@-?\d+$', a.key)
        if m:
            lo, hi = max(lo, 0), min(hi, 256 ** int(m.group(1) or 1) - 1)
        if a.key in self.positive:
            lo = max(lo, 0)
        if a.kind in ('idiv', 'sdiv', 'mod') and isinstance(a.a[0], Poly):
            c = a.a[1].const() if isinstance(a.a[1], Poly) else a.a[1]
            if isinstance(c, (int, float)) and c > 0:
                l, h = self.interval(a.a[0])
                if a.kind == 'mod':
                    l, h = (l, h) if 0 <= l and h < c else (0, c - 1)
                elif l >= 0:
                    l, h = l // c, h // c
                else:
                    l, h = -math.inf, math.inf
                lo, hi = max(lo, l), min(hi, h)
        return lo, hi

    def cond_of(self, d, s):
        """what taking the branch from block d to block s says"""
        t = self.fn.blocks[d]['insts'][-1]
        if t['op'] == 'br' and 'c' in t and t['T'] != t['F']:
            return [(self.ev.val(t['c'], 'i1'), t['T'] == s)]
        if t['op'] == 'switch':
            x = self.ev.val(t['c'])
            mine = [c for c, y in t.get('cases', []) if y == s]
            if isinstance(x, Poly) and len(mine) == 1 and t.get('default') != s:
                return [(mk_eq(padd(x, C(mine[0]), -1)), True)]
            if isinstance(x, Poly) and t.get('default') == s and not mine:
                return [(mk_eq(padd(x, C(c), -1)), False) for c, y in t['cases']]
        return []

    def left(self, b):
        """headers of the loops that b is reached from the inside of, though it is not in them (the pass is the last one)"""
        ev = self.ev
        return [h for h in ev.hdrs if h in ev.dom.get(b, ()) and b not in ev.loops[h] and any(d in ev.loops[h] and d != h for d in ev.dom[b])]

    def base_facts(self, b):
        ev = self.ev
        if b in self.fmemo:
            return self.fmemo[b]
        out = []
        for h in ev.inner_loops(b) + self.left(b):
            out += self.inv.get(h, [])
            out.append(lin(padd(C(0), ev.k(h), -1), 'le'))
        for n, v in self.given:
            out += self.cond_facts(n, v, out)
        for d in sorted(ev.dom.get(b, ()), key=lambda d: len(ev.dom[d])):
            for s in self.fn.succ[d]:
                if any(d in ev.loops[h] and b not in ev.loops[h] and s not in ev.loops[h] and d == h for h in ev.loops):
                    continue
                if s in ev.dom[b] and self.fn.pred[s] == [d]:
                    for n, v in self.cond_of(d, s):
                        out += self.cond_facts(n, v, out)
        for h in ev.inner_loops(b):
            out += self.loop_facts(h)
        self.fmemo[b] = out
        return out

    def loop_facts(self, h):
        k = self.ev.k(h)
        out = []
        t = self.ev.trips(h)
        if isinstance(t, Poly):
            f_ = lin(padd(k, t, -1), 'lt')
            if f_:
                out.append(f_)
        return out

    def facts_at_entry(self, h):
        ins = [p for p in self.fn.pred[h] if p not in self.ev.loops[h]]
        return self.base_facts(ins[0]) if len(ins) == 1 else []

    def facts_edge(self, path, h):
        out = []
        for b in path:
            out += self.base_facts(b)
        for x, y in zip(path, path[1:] + [h]):
            for n, v in self.cond_of(x, y):
                out += self.cond_facts(n, v, out)
        return out

    def close(self, facts, extra):
        """facts, with what is known of the values in them, and products with values that are not negative"""
        fs = list(dict((('%s' % c.key, v), (c, v)) for c, v in facts + extra).values())
        seen = set()
        n = 0
        while n < len(fs):
            c = fs[n][0]
            n += 1
            for a in c.p.atoms():
                if a.key not in seen:
                    seen.add(a.key)
                    fs += self.atom_facts(a)
        for a in {a.key: a for c, v in fs for a in c.p.atoms() if a.kind == 'mod' and isinstance(a.a[0], Poly)}.values():
            m = a.a[1].const() if isinstance(a.a[1], Poly) else a.a[1]
            lo, hi = self.interval(a.a[0])
            if isinstance(m, (int, float)) and lo < 0 and hi < m and any(
                    c.kind == 'ilt' and not v and (padd(c.p, a.a[0], -1).const() or 1) <= 0 or
                    c.kind == 'ilt' and not v and c.p.key == a.a[0].key for c, v in fs):
                fs += [x for x in (lin(padd(P(a), a.a[0], -1), 'le'), lin(padd(a.a[0], P(a), -1), 'le')) if x]
        # products
        mons = {m for c, v in extra for m in c.p.t if sum(e for _, e in m) == 2}
        if mons:
            low = {}
            for c, v in fs:
                if c.kind == 'ilt' and len(c.p.t) == 1 and not v:
                    (m, x), = c.p.t.items()
                    if len(m) == 1 and m[0][1] == 1 and x == 1:
                        low[m[0][0].key] = m[0][0]
            for m in mons:
                for a, e in m:
                    if a.key in low:
                        for c, v in list(fs):
                            if c.kind == 'ilt' and max((sum(e for _, e in q) for q in c.p.t), default=0) == 1 and len(fs) < 60:
                                p = c.p if not v else padd(C(0), padd(c.p, C(1)), -1)       # p >= 0
                                f_ = lin(padd(C(0), pmul(p, P(a)), -1), 'le')
                                if f_:
                                    fs.append(f_)
        return fs

    def proved(self, facts, neg):
        """the negated goal contradicts the facts"""
        if neg is None:
            neg = []
        elif neg is False:
            return True
        else:
            neg = [neg]
        return not feasible(self.close(facts, neg))

    # ---------------------------------------------------------------- accesses
    def size_of(self, a):
        """size in bytes of what a pointer atom points to"""
        k = a.key
        if k in self.sizes:
            return self.sizes[k]
        m = re.match(r'(local|new):[^%]*:?(%\w+(?:\.\w+)*)$', k)
        if not m:
            return None
        i = self.fn.inst.get(m.group(2))
        if i is None:
            return None
        if i['op'] == 'alloca':
            if i.get('n') is not None and not isinstance(i['n'], int):
                w = {'float': 4, 'double': 8, 'ptr': 8}.get(i['at']) or (int(i['at'][1:]) // 8 if re.match(r'i\d+$', i['at']) else None)
                return dmul(self.ev.val(i['n']), C(w)) if w else None
            return C(i['size']) if i.get('size') else None
        if i['op'] in ('call', 'invoke') and i.get('args'):
            n = short(i.get('dem') or i.get('callee') or '')
            if n in ('new', 'new[]', 'malloc'):
                return self.ev.val(i['args'][0])
            if n == 'calloc':
                return dmul(self.ev.val(i['args'][0]), self.ev.val(i['args'][1]))
        return None

    def accesses(self):
        """(block, inst, pointer, length, kind)"""
        ev = self.ev
        for b in self.fn.rpo():
            for i in self.fn.blocks[b]['insts']:
                op = i['op']
                if op in ('load', 'store'):
                    yield b, i, ev.val(i['p']), C(i['sz']), 'reads' if op == 'load' else 'writes'
                elif op in ('memcpy', 'memmove', 'memset') and i.get('args'):
                    ln = ev.val(i['args'][2])
                    yield b, i, ev.val(i['args'][0]), ln, 'writes'
                    if op != 'memset':
                        yield b, i, ev.val(i['args'][1]), ln, 'reads'
                elif op in ('call', 'invoke') and not i.get('indirect'):
                    d = i.get('dem') or i.get('callee') or ''
                    n = short(d)
                    n = re.sub(r'^llvm\.(memcpy|memmove|memset)\..*', r'\1', n)
                    if n in READS and (n != 'read' or 'istream' in d):
                        pa, la = READS[n]
                        if len(i['args']) <= max((pa,) + la):
                            continue
                        ln = C(1)
                        for x in la:
                            ln = dmul(ln, ev.val(i['args'][x]))
                        yield b, i, ev.val(i['args'][pa]), ln, 'writes'
                        if n in ('memcpy', 'memmove'):
                            yield b, i, ev.val(i['args'][1]), ln, 'reads'
                    for pat, g in self.effects.items():
                        if re.search(pat, d):
                            for p, ln, what in g(ev, i):
                                yield b, i, p, ln, what

    # ---------------------------------------------------------------- tables and members that are arrays
    def member_arrays(self, cls, base=0, depth=0):
        """(offset, size, size of an element, name) of the outermost arrays in a class"""
        for m in (self.prog.types.get(cls) or {}).get('members', []):
            t = m['t']
            if not isinstance(t, dict):
                continue
            if t['k'] == 'arr':
                e = t.get('e')
                if isinstance(e, dict) and e.get('sz') and t.get('sz'):
                    yield base + m['o'], t['sz'], e['sz'], m['n']
            elif t['k'] == 'struct' and depth < 4:
                yield from self.member_arrays(t['n'], base + m['o'], depth + 1)

    def global_size(self, name):
        def size(x):
            if 'arr' in x:
                ss = [size(y) for y in x['arr']]
                return sum(ss) if ss and None not in ss and len(set(widths(x))) == 1 else None
            return widths(x)[0]

        def widths(x):
            if 'arr' in x:
                return [w for y in x['arr'] for w in widths(y)]
            return [x['w'] // 8 if 'w' in x else {'double': 8, 'float': 4}.get(x.get('t'))]
        g = self.prog.globals.get(name)
        return size(g) if isinstance(g, dict) and ('arr' in g) else None

    def tables(self):
        """accesses at a varying place in a constant table or a member that is an array"""
        cls = self.fn.j.get('cls')
        this = self.ev.val('a0') if self.fn.j.get('cls') else None
        arrays = list(self.member_arrays(cls)) if cls else []
        for b, i, p, ln, what in self.accesses():
            if not isinstance(p, Poly) or len(p.t) < 2:
                continue
            one = [m[0][0] for m, c in p.t.items() if len(m) == 1 and m[0][1] == 1 and c == 1]
            base = next((a for a in one if a.key.startswith('@')), None)
            if base is not None:
                n = self.global_size(base.key[1:])
                off = padd(p, P(base), -1)
                if n and off.const() is None:
                    yield (b, i, what, base.key, off, ln, C(n)) + self.inside(b, off, ln, C(n))
                continue
            if this is None or not arrays or not isinstance(this, Poly) or not any(P(a).key == this.key for a in one):
                continue
            off = padd(p, this, -1)
            if off.const() is not None or ln.const() is None or any(self.size_of(a) is not None for a in one):
                continue
            c0 = off.t.get((), 0)
            st = [abs(c) for m, c in off.t.items() if m != ()]
            if any(c != int(c) for c in st):
                continue
            g = math.gcd(*[int(c) for c in st])
            near = []
            hit = False
            for o, sz, es, n in arrays:
                if g % es and es % g:
                    continue
                rel = padd(off, C(o), -1)
                if o <= c0 < o + sz or g == es and -4 * es <= c0 - o < sz:
                    r = self.inside(b, rel, ln, C(sz))
                    if r[0] is True:
                        hit = True
                        yield (b, i, what, 'this.' + n, rel, ln, C(sz)) + r
                        break
                    near.append((o <= c0 < o + sz, n, rel, sz, r, g == es))
            if hit or not near:
                continue
            same = [x for x in near if x[5]]
            mine = near if len(near) == 1 else same if len(same) == 1 else [x for x in near if x[0]]
            if len(mine) == 1:
                _, n, rel, sz, r, _ = mine[0]
                yield (b, i, what, 'this.' + n, rel, ln, C(sz)) + (r if len(near) == 1 or mine is same or r[0] is None else (None, 'more than one array'))

    def check(self, only=None):
        """yields (block, inst, what, base, result, detail): result True inside, False outside, None undecided"""
        for b, i, p, ln, what in self.accesses():
            if not isinstance(p, Poly):
                continue
            bases = [(m, c) for m, c in p.t.items() if len(m) == 1 and m[0][1] == 1 and c == 1 and self.size_of(m[0][0]) is not None]
            if len(bases) != 1:
                continue
            base = bases[0][0][0][0]
            if only and not only(base):
                continue
            size = self.size_of(base)
            off = padd(p, P(base), -1)
            yield (b, i, what, base, off, ln, size) + self.inside(b, off, ln, size)

    def inside(self, b, off, ln, size):
        off, ln, size = [self.simple(x, self.base_facts(b)) if isinstance(x, Ite) else x for x in (off, ln, size)]
        if not isinstance(off, Poly) or not isinstance(ln, Poly) or not isinstance(size, Poly):
            return None, 'merged values'
        facts = self.base_facts(b)
        low = lin(off, 'lt')
        high = lin(padd(size, padd(off, ln), -1), 'lt')
        bad = [x for x in (low, high) if not self.proved(facts, x)]
        # nothing is touched when the length is zero
        if bad and ln.const() is None:
            z = lin(ln, 'le')
            bad = [x for x in bad if not self.proved(facts + ([] if z in (None, False) else [(z[0], not z[1])]), x)] if z is not None else bad
        if not bad:
            return True, ''
        # a first pass, then a second one
        for mp, extra in self.passes(b):
            for x in bad:
                tr, neg = self.at(facts, mp), self.at([x] if x else [], mp)
                if tr is None or neg is None:
                    continue
                tr = self.close(tr + extra, neg)
                if any(unknown(a) for c, v in tr for a in c.p.atoms()) or not feasible(tr):
                    continue
                for path in self.paths(b):
                    path = self.at(path, mp)
                    if path is None:
                        continue
                    t2 = self.close(tr + path, [])
                    if any(unknown(a) for c, v in t2 for a in c.p.atoms()):
                        continue
                    env = model(t2)
                    if env is not None:
                        return False, ', '.join('%s = %d' % kv for kv in sorted(env.items()))[:300]
        return None, 'not shown'

    def passes(self, b, limit=24):
        """(values of the named variables, what else holds) in a first pass of the enclosing loops, and in a second of one of them"""
        hs = self.ev.inner_loops(b) + self.left(b)
        mp = {}
        for h in hs:
            for v, a in self.own(h).items():
                x = self.init.get(a.key)
                if isinstance(x, Poly):
                    mp[a.key] = x
            if h not in self.bounded and self.ev.trips(h) is None:
                mp[self.ev.k(h).key] = C(0)
        yield mp, []
        n = 0
        for h in hs:
            own = self.own(h)
            if not own or any(a.key not in mp for a in own.values()):
                continue
            for path, d in self.nexts(h):
                n += 1
                if n > limit:
                    return
                m2 = dict(mp)
                for v, a in own.items():
                    x = d[v]
                    if self.fn.inst[v].get('t') == 'ptr':
                        x = padd(x, padd(self.pre[v], P(a), -1), -1) if isinstance(x, Poly) else x
                    x = subst(x, mp)
                    if isinstance(x, Ite):
                        x = self.simple(x, self.at(self.facts_edge(path, h), mp) or [])
                    m2[a.key] = x
                if any(not isinstance(m2[a.key], Poly) for a in own.values()):
                    continue
                k = self.ev.k(h).key
                m2[k] = C(1)
                ex = self.at(self.facts_edge(path, h), dict(mp, **{k: C(0)}))
                if ex is None:
                    continue
                for w in self.paths(path[0]):
                    w = self.at(w, dict(mp, **{k: C(0)}))
                    if w is not None and feasible(self.close(ex + w, [])):
                        yield m2, ex + w

    def at(self, facts, mp):
        """facts with values for the named variables; None when one of them cannot hold"""
        if not mp:
            return facts
        out = []
        for c, v in facts:
            n = subst(node(c, TRUE, FALSE), mp)
            if isinstance(n, Ite):
                out += self.cond_facts(n, v)
            elif bool(n.const()) != v:
                return None
        return out

    def first(self, b, facts):
        return self.at(facts, next(self.passes(b))[0])

    def paths(self, b, limit=40):
        """conditions of complete ways from the innermost loop header (or the entry) to b, as lists of comparisons"""
        ev = self.ev
        if any(ev.trips(h) is None or h in self.bounded for h in self.left(b)):
            return []
        n = ev.under(b)
        out = []

        def go(n, tr):
            if len(out) >= limit:
                return
            if isinstance(n, Ite):
                go(n.hi, tr + [(n.c, True)])
                go(n.lo, tr + [(n.c, False)])
            elif isinstance(n, Poly) and n.const() == 1:
                out.append(tr)
        go(n, [])
        return out
