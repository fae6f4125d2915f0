"""Reports: what a function inserts into a stream, in order: literals, values (with the overload that prints them), manipulators and
reports of other records.  Every value belongs to the heading (the last literal with a letter in it) under which it is printed; loops
with a known number of iterations are written out."""
import json
from .texts import *

LETTER = re.compile(r'[A-Za-z]')


class Open(Exception):
    pass


def stream_root(v):
    """name of the stream that an expression stands for (insertions return their stream)"""
    while isinstance(v, Poly):
        a = list(v.atoms())
        if len(a) == 1 and v.key == a[0].key and a[0].kind == 'call' and len(a[0].a) > 1 and (a[0].a[0] in ('operator<<', 'endl', 'put', 'write', '_M_insert', '__ostream_insert', 'flush', 'setf')):
            v = a[0].a[1]
            continue
        return v.key
    return None


def stream_roots(v):
    if isinstance(v, Ite):
        return stream_roots(v.hi) | stream_roots(v.lo)
    return {stream_root(v)}


class Trace:
    def __init__(self, prog, fn, stream):
        self.prog, self.fn, self.stream = prog, fn, stream
        self.ev = Ev(prog, fn, throw_leaf=True)
        self.open = []
        self.strings, self.getter = {}, {}
        self.items = self.sequence()

    # ---- events of one instruction
    def string(self, key):
        return self.strings.get(key)

    def event(self, i, blk):
        ev = self.ev
        dem = i.get('dem') or i.get('callee') or ''
        xs = [ev.val(a) for a in i.get('args', [])]
        nm = short(dem).replace('[abi:cxx11]', '') if not i.get('indirect') else (ev.slot(i) or '?')
        if not xs:
            return None
        k0 = getattr(xs[0], 'key', None)
        if k0 and k0.startswith('local:') and (Texts.sret(self, i, dem) or nm == 'basic_string' and (len(xs) in (2, 3) or len(xs) == 4 and self.whole(xs))):
            m = re.match(r'(\w+)::', dem)
            if m and len(xs) > 1:
                self.getter[P(atom('call', nm, *xs[1:])).key if all(isinstance(x, Poly) for x in xs[1:]) else None] = m.group(1)
            self.strings[k0] = apply(lambda *q: P(atom('call', nm, *q)), *xs[1:]) if nm != 'basic_string' else xs[1]
            return None
        if not any(self.stream in stream_roots(x) for x in xs):
            return None
        if self.stream not in stream_roots(xs[0]):
            return ('unknown', dem)
        v = xs[1] if len(xs) > 1 else None
        if nm == '__ostream_insert' or nm.startswith('operator<<') and re.search(r'std::operator<<\s*<', dem) or nm in ('write', 'put') and 'ostream' in dem:
            if '_Set' in dem or '_Resetiosflags' in dem:
                m = re.search(r'_(Set\w+|Resetiosflags)', dem)
                return ('manip', m.group(1), v)
            if isinstance(v, Poly) and v.key.startswith('"'):
                return ('lit', v.key[1:-1])
            if re.search(r'allocator<char>', dem):
                return ('val', 'text', self.string(getattr(v, 'key', None)) or v)
            if re.search(r'(signed |unsigned )?char\)$', dem) or nm == 'put':
                if isinstance(v, Poly) and v.const() is not None:
                    return ('lit', chr(int(v.const()) & 255))
                return ('val', 'character', v)
            return ('val', 'text', v)
        if re.match(r'std::(basic_)?ostream', dem) and '::operator<<(' in dem or nm == '_M_insert':
            t = re.search(r'operator<<\((.*)\)$', dem)
            t = t.group(1) if t else 'number'
            if '(*)' in t:
                n = re.search(r'(endl|hex|dec|oct|fixed|scientific|flush|boolalpha|noboolalpha|showbase|ends|left|right|internal|uppercase)', getattr(v, 'key', '') or '')
                n = n.group(1) if n else '?'
                return ('lit', '\n') if n == 'endl' else None if n == 'flush' else ('manip', n, C(0))
            return ('val', 'boolean' if t == 'bool' else 'number', v)
        if dem.startswith('operator<<('):
            m = re.search(r', (.*?)( const)?&?\)$', dem)
            return ('val', 'report of ' + (m.group(1) if m else '?'), v)
        if nm in ('flush', 'good', 'fail', 'operator bool', 'width', 'precision', 'setf', 'unsetf', 'fill', 'flags'):
            return ('manip', nm, xs[1]) if len(xs) > 1 else None
        return ('unknown', dem)

    def whole(self, xs):
        """characters up to the end of the text or of the field"""
        n = xs[2]
        a = next(iter(n.atoms()), None) if isinstance(n, Poly) and len(n.t) == 1 else None
        return a is not None and n.key == a.key and a.kind == 'call' and a.a[0] in ('strnlen', 'strlen') and getattr(a.a[1], 'key', 0) == getattr(xs[1], 'key', 1)

    # ---- the whole function
    def sequence(self):
        fn, ev = self.fn, self.ev
        seq = []          # (innermost loop path, block, event)
        for b in fn.rpo():
            hs = ev.inner_loops(b)
            for i in fn.blocks[b]['insts']:
                if i['op'] not in ('call', 'invoke'):
                    continue
                e = self.event(i, b)
                if e is None:
                    continue
                if e[0] == 'unknown':
                    self.open.append(e[1])
                    continue
                for x in [('lit', y) for y in re.findall(r'\n|[^\n]+', e[1])] if e[0] == 'lit' else [e]:
                    seq.append((tuple(hs), b, x))
        return self.unroll(seq, 0, {})

    def unroll(self, seq, depth, mp):
        out, k = [], 0
        while k < len(seq):
            hs, b, e = seq[k]
            if len(hs) <= depth:
                e = (e[0], e[1], self.sub(e[2], mp)) if len(e) > 2 else e
                out.append((b, e, dict(mp)))
                k += 1
                continue
            h = hs[depth]
            body = []
            while k < len(seq) and len(seq[k][0]) > depth and seq[k][0][depth] == h:
                body.append(seq[k])
                k += 1
            n = self.ev.trips(h)
            n = self.sub(n, mp).const() if isinstance(n, Poly) else None
            if n is not None and n == int(n) and 0 <= n <= 64 and len(body) * n <= 4000:
                for x in range(int(n)):
                    out += self.unroll(body, depth + 1, dict(mp, **{self.ev.kname(h): C(x)}))
            else:
                t = self.ev.trips(h)
                out.append((b, ('loop', 'begin', self.sub(t, mp) if t is not None else P(atom('opq', 'trips'))), dict(mp)))
                out += self.unroll(body, depth + 1, dict(mp, **{self.ev.kname(h): f('n%d' % depth, integer=True)}))
                out.append((b, ('loop', 'end', C(0)), dict(mp)))
        return out

    def sub(self, v, mp):
        return subst(v, mp) if mp and v is not None else v

    def headed(self):
        """{heading: [entry]} with entry (class, formats, value, condition or None, block), and the literals"""
        heads, texts_, cur, more = {}, [], '', False
        at, last, pend = {}, None, []
        for b, e, mp in self.items:
            if b != last and last is not None and b not in at and last not in self.ev.dom[b]:
                # coming from a branch: the heading of the block that decides
                x = self.ev.idom(b)
                while x is not None and x not in at:
                    x = self.ev.idom(x)
                cur, more = at.get(x, ''), False
            last = b
            if e[0] == 'lit':
                if LETTER.search(e[1]):
                    cur = cur + e[1] if more else e[1]
                    if more:
                        texts_[-1] = cur
                    else:
                        texts_.append(cur)
                    more = True
                elif e[1] == '\n':
                    more = False
                elif more:
                    cur = texts_[-1] = cur + e[1]
            elif e[0] == 'manip':
                pend.append((e[1], e[2]))
                more = False
            else:
                v = self.named(e[1], e[2])
                heads.setdefault(cur, []).append((e[1] if e[0] == 'val' else e[0] + ' ' + e[1], tuple(pend), v, self.cond(b) if e[0] == 'val' else None, b))
                pend, more = [], False
            at[b] = cur
        if pend:
            heads.setdefault(cur, []).append(('end', tuple(pend), C(0), None, None))
        return heads, texts_

    def named(self, cls, v):
        """addresses of members by name"""
        m = re.match(r'report of (\w+)$', cls)
        if m:
            return self.member(v, m.group(1))
        if isinstance(v, Poly):
            mp = {}
            for k, a in walk_atoms(v).items():
                if a.kind == 'call' and len(a.a) > 1 and isinstance(a.a[1], Poly):
                    want = self.getter.get(k)
                    mp[k] = P(atom('call', a.a[0], self.member(a.a[1], want), *[self.member(x, None) for x in a.a[2:]], integer=a.integer))
            return subst(v, mp) if mp else self.member(v, None) if cls == 'text' and not v.opaque else v
        if isinstance(v, Ite):
            mp = {k: P(atom('call', a.a[0], *[self.member(x, None) for x in a.a[1:]], integer=a.integer)) for k, a in walk_atoms(v).items() if a.kind == 'call'}
            return subst(v, mp) if mp else v
        return v

    def member(self, v, want):
        if not isinstance(v, Poly) or not re.search(r'(^|[ (])p1($|[ )])', v.key):
            return v
        n = place(self.prog.types, (self.fn.j.get('ptypes') or [None, None])[1], padd(v, f('p1'), -1), want)
        return f('&p1.' + n) if n else v

    def cond(self, b):
        if self.ev.inner_loops(b):
            return None
        c = self.ev.under(b)
        return None if c is BOT or c.opaque or any('local:' in k for k in walk_atoms(c)) else self.named('condition', c)


def place(types, cls, off, want):
    """name of the member of cls at an offset (which may vary with loop counters), down to class want or to a plain member"""
    if cls == want:
        return '' if not off.t else None
    T = types.get(cls)
    c = off.t.get((), 0.0)
    if T is None or c < 0:
        return None
    for m in T.get('members', []):
        t = m['t']
        if not isinstance(t, dict) or not m['o'] <= c < m['o'] + max(t.get('sz', 8), 1):
            continue
        r = padd(off, C(m['o']), -1)
        if t['k'] == 'struct' and not t['n'].startswith('std::') and t['n'] in types:
            n = place(types, t['n'], r, want)
            return None if n is None else m['n'] + ('.' + n if n else '')
        if t['k'] == 'arr':
            e = t['e']
            z = e.get('sz', 1)
            ix, rest = {}, {}
            for k, x in r.t.items():
                q = math.floor(x / z) if not k else x / z if x % z == 0 else 0
                ix[k] = float(q)
                rest[k] = x - q * z
            ix, rest = Poly(clean(ix)), Poly(clean(rest))
            n = m['n'] + '[%s]' % ix.key
            if e.get('k') == 'struct':
                i = place(types, e['n'], rest, want)
                return None if i is None else n + ('.' + i if i else '')
            return n if not rest.t else None
        return m['n'] if not r.t and (want is None or t.get('n') == want) else None
    return None


# ---------------------------------------------------------------------------------------------- written form of diagrams
def dump(n):
    if isinstance(n, Ite):
        return {'if': [n.c.kind, dump(n.c.p)], 'then': dump(n.hi), 'else': dump(n.lo)}
    if isinstance(n, Atom):
        return {'atom': n.kind, 'a': [dump(x) for x in n.a], 'int': bool(n.integer)}
    if isinstance(n, Poly):
        if n.const() is not None:
            return n.const()
        if len(n.t) == 1:
            (m, c), = n.t.items()
            if c == 1 and len(m) == 1 and m[0][1] == 1 and m[0][0].kind == 'f':
                return '=' + ('#' if m[0][0].integer else '') + m[0][0].a[0]
        return {'sum': [[c, [[dump(a), e] for a, e in m]] for m, c in sorted(n.t.items(), key=lambda x: str(x[0]))]}
    if n is None or isinstance(n, (int, float)):
        return {'raw': n}
    return '"' + str(n)


def undump(j):
    if isinstance(j, (int, float)):
        return C(j)
    if isinstance(j, str):
        if j[0] == '=':
            return f(j[2:], integer=True) if j[1:2] == '#' else f(j[1:])
        return j[1:]
    if 'raw' in j:
        return j['raw']
    if 'if' in j:
        return node(cond(j['if'][0], undump(j['if'][1])), undump(j['then']), undump(j['else']))
    if 'atom' in j:
        return atom(j['atom'], *[undump(x) for x in j['a']], integer=j['int'])
    return Poly({tuple((undump(a), e) for a, e in m): c for c, m in j['sum']})
