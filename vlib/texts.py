"""Texts: what a function that returns a string puts into it, as a diagram over its paths whose leaves are sequences of literal and
formatted pieces.  String objects and character buffers are followed along every path of a function without loops."""
from .semcheck import *

NAMES = {'%F': '%Y-%m-%d', '%T': '%H:%M:%S', '%R': '%H:%M'}


def norm_time(fmt):
    for a, b in NAMES.items():
        fmt = fmt.replace(a, b)
    return fmt


def pieces(*xs):
    """canonical sequence: adjacent literals joined, empty ones dropped"""
    out = []
    for x in xs:
        if isinstance(x, str):
            if x == '':
                continue
            if out and isinstance(out[-1], str):
                out[-1] += x
                continue
        out.append(x)
    return tuple(out)


def form(spec, v):
    """a formatted number: %d of a constant is a literal"""
    spec = re.sub(r'(hh|h|ll|l|z|j)(?=[a-z])', '', spec)
    spec = re.sub(r'[ui]$', 'd', spec)
    if spec == '%s':
        if isinstance(v, Poly) and v.key.startswith('"'):
            return v.key[1:-1]
        return ('s', v)
    c = v.const() if isinstance(v, Poly) else None
    if c is not None and spec[-1] == 'd' and c == int(c):
        return spec % int(c)
    return (spec, v)


def printed(fmt, args):
    out, n = [], 0
    for m in re.finditer(r'%%|%[-+ #0]*\d*(?:\.\d+)?(?:hh|h|ll|l|z|j)?[a-zA-Z]|[^%]+|%', fmt):
        s = m.group(0)
        if s == '%%':
            out.append('%')
        elif s[0] != '%':
            out.append(s)
        elif n < len(args):
            out.append(form(s, args[n]))
            n += 1
        else:
            return None
    return pieces(*out)


def leaf(ps):
    """a text as one term"""
    if ps is None:
        return P(atom('opq', 'text'))
    args = []
    for p in ps:
        args += [f('"%s"' % p)] if isinstance(p, str) else [f(p[0]), p[1]]

    def one(*a):
        out, k = [], 0
        while k < len(a):
            if a[k].key.startswith('"'):
                out.append(a[k].key[1:-1])
                k += 1
            else:
                out.append(a[k + 1].key[1:-1] if a[k].key in ('s', '%s') and a[k + 1].key.startswith('"') else (a[k], a[k + 1]))
                k += 2
        out = pieces(*out)
        return P(atom('call', 'text', *[y for x in out for y in ([f('"%s"' % x)] if isinstance(x, str) else x)])) if out else f('""')
    return apply(one, *args) if args else f('""')


def text(*ps):
    """the expected text: literals and (format, value) pairs"""
    return leaf(pieces(*[form(*p) if isinstance(p, tuple) and p[0] != 'strftime' else p for p in ps]))


def unleaf(p):
    """the pieces of a term made by leaf()"""
    if not isinstance(p, Poly):
        return None
    if p.key == '""':
        return ()
    a = list(p.atoms())
    if len(a) != 1 or a[0].kind != 'call' or a[0].a[0] != 'text' or p.key != a[0].key:
        return None
    out, xs = [], list(a[0].a[1:])
    while xs:
        x = xs.pop(0)
        k = x if isinstance(x, str) else x.key
        if k.startswith('"'):
            out.append(k[1:-1])
        else:
            out.append((k, xs.pop(0)))
    return tuple(out)


WIDTH = {'Y': 4, 'm': 2, 'd': 2, 'H': 2, 'M': 2, 'S': 2, 'j': 3, 'y': 2}


def width(p):
    """number of characters of a piece (numbers within their field), or None"""
    if isinstance(p, str):
        return len(p)
    if p[0] == 'strftime':
        m = re.match(r'call\(strftime,"([^"]*)"', p[1].key) if isinstance(p[1], Poly) else None
        if not m:
            return None
        n = 0
        for x in re.findall(r'%.|[^%]', m.group(1)):
            n += 1 if len(x) == 1 else WIDTH.get(x[1], 1000)
        return n if n < 1000 else None
    m = re.match(r'%0(\d+)d$', p[0])
    return int(m.group(1)) if m else None


def inserted(a, n, b):
    """a with b put in after n characters"""
    out, at = [], 0
    for k, p in enumerate(a):
        if at == n:
            return pieces(*a[:k], *b, *a[k:])
        w = width(p)
        if w is None or at > n:
            return None
        if isinstance(p, str) and at + w > n:
            return pieces(*a[:k], p[:n - at], *b, p[n - at:], *a[k + 1:])
        at += w
    return pieces(*a, *b) if at == n else None


def renamed(d, mp):
    """a diagram with the named arguments replaced: mp maps an argument name to a value"""
    sub = {}
    for k, a in walk_atoms(d).items():
        if a.kind != 'f':
            continue
        m = re.match(r'(\*?\(?)(this|[pix]\d+)(?=[.\[]|$)(.*)$', k)
        if not m or m.group(2) not in mp:
            continue
        v = mp[m.group(2)]
        if k == m.group(2):
            sub[k] = v
        elif isinstance(v, Poly) and re.match(r'(this|[pix]\d+)$', v.key):
            sub[k] = f(m.group(1) + v.key + m.group(3), a.integer)
        else:
            sub[k] = P(atom('opq', 'argument'))
    return subst(d, sub) if sub else d


_memo = {}


def text_of(prog, x):
    """pieces that a project function puts in the string it returns, in terms of its own arguments; None if that depends on the path"""
    k = (id(prog), x.name)
    if k not in _memo:
        _memo[k] = None
        try:
            r = Texts(prog, x).result()
            _memo[k] = unleaf(r) if r is not BOT else None
        except (TooBig, RecursionError):
            pass
    return _memo[k]


def bare(p):
    """the string that a text consists of"""
    if not isinstance(p, Poly):
        return apply(bare, p)
    c = unleaf(p)
    return c[0][1] if c is not None and len(c) == 1 and not isinstance(c[0], str) and c[0][0] == 's' else p


def part(s, pos, n):
    """part of a string: up to the end where the length reaches it"""
    size = P(atom('call', 'size', s, integer=True))
    if padd(padd(pos, n), size, -1).const() == 0:
        n = C(-1)
    return P(atom('call', 'substr', s, pos, n))


def settled(q):
    """a piece whose argument has become known"""
    a = list(q[1].atoms()) if isinstance(q[1], Poly) else []
    if q[0] == 's' and isinstance(q[1], Poly):
        c = unleaf(q[1])
        return list(c) if c is not None else [q[1].key[1:-1]] if q[1].key.startswith('"') else [q]
    if q[0] == 'padded' and len(a) == 1 and a[0].kind == 'call' and a[0].a[0] == 'padded':
        src, n, ch = a[0].a[1:]
        c = unleaf(src)
        if c is not None and all(not isinstance(x, str) and x[0] == 's' for x in c):
            c = pieces(*[y for x in c for y in settled(x)])
        if c is not None and all(isinstance(x, str) for x in c) and n.const() is not None and ch.const() is not None:
            n = int(n.const())
            return [''.join(c)[:n].ljust(n, chr(int(ch.const())))]
    return [q]


def size_of(p):
    """characters of a text"""
    p = bare(p)
    if p.key.startswith('"'):
        return C(len(p.key) - 2)
    a = list(p.atoms())
    if len(a) == 1 and a[0].kind == 'call' and a[0].a[0] == 'substr' and p.key == a[0].key:
        s, pos, n = a[0].a[1:]
        # a position that was found in the string is within it
        if pos.const() == 0 and re.match(r'call\(r?find,', n.key):
            return n
    return P(atom('call', 'size', p, integer=True))


def same_text(a, b):
    """two texts are equal (1 or 0)"""
    ca, cb = unleaf(a), unleaf(b)
    if ca is not None and cb is not None and all(isinstance(x, str) for x in ca + cb):
        return C(int(ca == cb))
    if ca == () or cb == ():
        return deq(size_of(a if cb == () else b), C(0))
    a, b = sorted((a, b), key=lambda p: p.key)
    return dnot(deq(P(atom('call', 'same', a, b, integer=True)), C(0)))


class Texts:
    LIMIT = 6000

    def __init__(self, prog, fn, inherit=None):
        self.prog, self.fn = prog, fn
        self.ev = Ev(prog, fn, throw_leaf=True)
        self.n = 0
        self.end = None             # what is asked at the end of a path
        self.stop = None            # what is asked at a call
        self.named = {}

    def asked(self, end=None, stop=None, state=None):
        """end(state) at the end of each path that returns; stop(call, state) gives a value at the first call where it is not None"""
        self.end, self.stop, self.out = end, stop, None
        r = self.G(self.fn.entry, dict(state or {}))
        return subst(r, {k: v for k, v in self.named.items()}) if self.named and r is not BOT else r

    def member(self, key):
        """text of the string at an address when the function returns"""
        return self.asked(end=lambda st: leaf(self.chars(f(key), st)))

    def argument(self, pat, k):
        """text of argument k of the calls that match"""
        def stop(i, st):
            if re.search(pat, i.get('dem') or i.get('callee') or '') and len(i.get('args', [])) > k:
                return apply(lambda p: leaf(self.chars(p, st)), self.ev.val(i['args'][k]))
        return self.asked(end=lambda st: f('NONE'), stop=stop)

    def result(self):
        """text of the string that the function returns in memory"""
        self.out = self.ev.val('a0').key
        r = self.G(self.fn.entry, {})
        a = self.fn.j['args']
        return renamed(r, {self.ev.val('a1').key: f('this')}) if r is not BOT and len(a) > 1 and a[1][0] == 'this' else r

    def returned(self):
        """text of the characters that the function returns a pointer to"""
        self.out = None
        return self.G(self.fn.entry, {})

    def G(self, X, st):
        self.n += 1
        if self.n > self.LIMIT:
            raise TooBig()
        if X in self.ev.loops:
            return P(atom('opq', 'loop'))
        st = dict(st)
        for i in self.fn.blocks[X]['insts']:
            if i['op'] in ('call', 'invoke'):
                if self.stop:
                    r = self.stop(i, st)
                    if r is not None:
                        return r
                self.call(i, st)
            elif i['op'] == 'store':
                self.store(i, st)
        t = self.fn.blocks[X]['insts'][-1]
        if t['op'] == 'ret':
            if self.end:
                return self.end(st)
            if self.out is not None:
                return leaf(st.get(self.out))
            a = t['a'][0] if t.get('a') else t.get('v')
            return apply(lambda p: leaf(self.chars(p, st)), self.ev.val(a))
        if t['op'] in ('unreachable', 'resume'):
            return f('THROW')
        return self.ev.branch(X, lambda Y: self.G(Y, st))

    def chars(self, v, st):
        """pieces of what a pointer to characters or to a string stands for"""
        if not isinstance(v, Poly):
            return (('s', v),)
        if v.key.startswith('"'):
            return pieces(v.key[1:-1])
        a = list(v.atoms())
        if len(a) == 1 and a[0].kind == 'call' and v.key == a[0].key:
            if a[0].a[0] in ('c_str', 'data') and len(a[0].a) == 2:
                return self.chars(a[0].a[1], st)
            if a[0].a[0] in ('insert', 'append', 'operator+=', 'assign', 'operator=', 'replace') and len(a[0].a) > 1:
                return self.chars(a[0].a[1], st)
        if v.key in st:
            return st[v.key]
        if v.key.startswith('local:'):
            return None
        return (('s', v),)

    def store(self, i, st):
        a = i.get('a') or []
        if len(a) == 2:
            k = getattr(self.ev.val(a[1]), 'key', None)
            if k in st and k.startswith('local:'):
                v = self.ev.val(a[0])
                st[k] = () if isinstance(v, Poly) and v.const() == 0 and i.get('t') == 'i8' else None

    def substr(self, c, pos, n):
        """part of a text from a position, of a length (-1: up to the end)"""
        if isinstance(pos, Poly) and pos.const() == 0 and isinstance(n, Poly) and n.const() == -1 and len(c) == 1 and c[0][0] == 's':
            return c[0][1]
        src = c[0][1] if len(c) == 1 and not isinstance(c[0], str) and c[0][0] == 's' else leaf(c)
        return apply(part, src, pos, n)

    def condition(self, i, nm, xs, st):
        """what a comparison of strings compares on this path"""
        if any(not isinstance(x, Poly) for x in xs):
            return
        t = [x if k and (x.const() is not None or nm == 'compare' and len(xs) == 4 and k < 3) else leaf(self.chars(x, st)) if isinstance(x, Poly) else None for k, x in enumerate(xs)]
        if any(x is None for x in t):
            return
        if nm in ('size', 'length', 'empty'):
            r = apply_d(lambda p: size_of(p), t[0])
            if nm == 'empty':
                r = deq(r, C(0))
        elif nm in ('compare', 'operator==', 'operator!=') and len(t) == 2:
            r = dnot(apply_d(same_text, *t))
        elif nm == 'compare' and len(t) == 4:
            r = dnot(apply_d(same_text, text(('%s', apply(part, bare(t[0]), t[1], t[2]))), t[3]))
        else:
            return
        k = P(atom('call', 'compare' if nm.startswith('op') else nm, *xs, integer=True)).key
        old = self.named.get(k)
        self.named[k] = r if old is None or old.key == r.key else P(atom('opq', 'compared'))

    def sret(self, i, dem):
        """the call makes a string in the memory of its first argument"""
        y = self.prog.fns.get(i.get('callee'))
        if y is not None:
            return bool(y.j['args']) and y.j['args'][0][0] == 'agg.result' and ('[abi:cxx11]' in dem or re.search(r'L\d+%s' % short(dem), i['callee']) is not None)
        return '[abi:cxx11]' in dem and i['at'][:1] == ['ptr'] and not i.get('t')

    def call(self, i, st):
        ev = self.ev
        nm = (ev.slot(i) or '?') if i.get('indirect') else short(i.get('dem') or i.get('callee') or '')
        nm = nm.replace('[abi:cxx11]', '')
        dem = i.get('dem') or i.get('callee') or ''
        xs = [ev.val(a) for a in i.get('args', [])]
        ks = [getattr(x, 'key', None) for x in xs]
        if nm in ('size', 'length', 'empty', 'operator==', 'operator!=', 'compare', 'starts_with', 'ends_with') and 'basic_string<' in dem and self.end:
            self.condition(i, nm, xs, st)
        if not xs or nm.startswith('~') or nm.startswith(('llvm.lifetime', '__cxa_')) or nm in ('c_str', 'data', 'size', 'length', 'empty', 'compare', 'strlen', 'find', 'operator==', 'operator!=', '_M_dispose'):
            return
        o = ks[0]
        C1 = lambda k: self.chars(xs[k], st)
        cat = lambda *q: None if any(x is None for x in q) else pieces(*[y for x in q for y in x])
        if nm == 'basic_string' and 'basic_string<' in dem:
            if len(xs) == 1:
                st[o] = ()
            elif re.search(r'::basic_string(<[^>]*>)?\(unsigned long, char', dem) and len(xs) > 2 and all(isinstance(x, Poly) and x.const() is not None for x in xs[1:3]):
                st[o] = pieces(chr(int(xs[2].const()) & 255) * int(xs[1].const()))
            elif re.search(r'::basic_string(<[^>]*>)?\((std::initializer_list|unsigned long, char)', dem):
                st[o] = None
            elif len(xs) >= 4 or re.search(r'basic_string\([^)]*, unsigned long', dem):
                st[o] = None
            else:
                st[o] = C1(1)
        elif nm in ('operator=', 'assign') and len(xs) == 2 and 'basic_string<' in dem:
            st[o] = None if re.search(r'\(char\)', dem) else C1(1)
        elif nm in ('operator+=', 'append') and len(xs) == 2 and 'basic_string<' in dem:
            if re.search(r'\(char\)( const)?$', dem) and isinstance(xs[1], Poly) and xs[1].const() is not None:
                st[o] = cat(st.get(o), (chr(int(xs[1].const())),))
            else:
                st[o] = cat(st.get(o), C1(1))
        elif nm == 'operator+' and len(xs) == 3 and 'basic_string<' in dem:
            ch = re.search(r', char\)$', dem) and isinstance(xs[2], Poly) and xs[2].const() is not None
            st[o] = cat(C1(1), (chr(int(xs[2].const())),) if ch else C1(2))
        elif nm == 'insert' and len(xs) == 3 and 'basic_string<' in dem:
            a, b = st.get(o), C1(2)
            n = xs[1].const() if isinstance(xs[1], Poly) else None
            r = inserted(a, n, b) if None not in (a, b, n) else None
            st[o] = r if r is not None else None if a is None or b is None else (('insert', apply(lambda *q: P(atom('call', 'insert', *q)), leaf(a), xs[1], leaf(b))),)
        elif nm == 'substr' and len(xs) == 4 and 'basic_string<' in dem:
            c = C1(1)
            st[o] = (('s', self.substr(c, xs[2], xs[3])),) if c is not None else None
        elif nm == 'resize' and len(xs) in (2, 3) and 'basic_string<' in dem:
            c = st.get(o)
            st[o] = (('padded', apply(lambda *q: P(atom('call', 'padded', *q)), leaf(c), xs[1], xs[2] if len(xs) == 3 else C(0))),) if c is not None else None
        elif nm == 'to_string' and len(xs) == 2 and 'std::' in dem:
            st[o] = (form('%d', xs[1]),)
        elif nm == 'strftime' and len(xs) == 4:
            fm = self.chars(xs[2], st)
            st[o] = (('strftime', apply(lambda *q: P(atom('call', 'strftime', *q)), f('"%s"' % norm_time(fm[0])), xs[3])),) if fm and len(fm) == 1 and isinstance(fm[0], str) else None
        elif nm in ('sprintf', 'snprintf', '__sprintf_chk', '__snprintf_chk'):
            k = next((k for k, s in enumerate(ks) if s and s.startswith('"')), None)
            vs = []
            for x in xs[k + 1:] if k is not None else []:
                c = self.chars(x, st) if isinstance(x, Poly) and (x.key in st or re.match(r'call\((c_str|data),', x.key)) else None
                vs.append(leaf(c) if c is not None else x)
            st[o] = printed(ks[k][1:-1], vs) if k is not None else None
        elif self.sret(i, dem):
            y = self.prog.fns.get(i.get('callee'))
            t = text_of(self.prog, y) if y is not None else None
            if t is not None:
                e = Ev(self.prog, y, throw_leaf=True)
                mp = {'this' if y.j['args'][n][0] == 'this' else e.val('a%d' % n).key: x for n, x in enumerate(xs)}
                mp = {k: apply(bare, leaf(st[v.key])) if isinstance(v, Poly) and v.key in st else v for k, v in mp.items()}
                st[o] = pieces(*[z for q in t for z in ([q] if isinstance(q, str) else settled((q[0], renamed(q[1], mp))))])
                return
            xs = xs[:1] + [apply(bare, leaf(st[k])) if k in st and k.startswith('local:') else x for x, k in zip(xs[1:], ks[1:])]
            st[o] = (('s', apply(lambda *q: P(atom('call', nm, *q)), *xs[1:]) if len(xs) > 1 else P(atom('call', nm))),)
        elif nm in ('memcpy', 'llvm.memcpy.p0.p0.i64', 'strcpy', 'stpcpy') and len(xs) >= 2:
            if ks[1] and ks[1].startswith('"') and (nm.startswith('str') or isinstance(xs[2], Poly) and xs[2].const() == len(ks[1]) - 1):
                st[o] = C1(1)
            else:
                st[o] = None
        elif nm == 'strcat' and len(xs) == 2:
            st[o] = cat(st.get(o), C1(1))
        else:
            for k, s in enumerate(ks):
                if s in st and not ev.readonly(i, k) and not (i.get('dem') or '').endswith(' const'):
                    st[s] = None
