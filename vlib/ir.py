"""Views over dumped functions: CFG helpers, address resolution, bit provenance."""
import re


class Fn:
    def __init__(self, j):
        self.j = j
        self.name, self.dem = j['name'], j['dem']
        self.blocks = {b['id']: b for b in j['blocks']}
        self.entry = j['blocks'][0]['id']
        self.inst, self.blk = {}, {}
        self.order = []
        for b in j['blocks']:
            for i in b['insts']:
                k = '%%%d' % i['id']
                self.inst[k] = i
                self.blk[k] = b['id']
                self.order.append(i)
                if i['op'] == 'switch' and isinstance(i['c'], str) and self.inst.get(i['c'], {}).get('t') == 'i1':
                    i['cases'] = [[abs(c), t] for c, t in i['cases']]
        self.succ = {b['id']: list(b['succ']) for b in j['blocks']}
        self.pred = {b: [] for b in self.blocks}
        for b, ss in self.succ.items():
            for s in ss:
                if b not in self.pred[s]:
                    self.pred[s].append(b)
        self._addr, self._bits = {}, {}
        self._dom = None

    def where(self, i):
        l = i.get('l')
        if l:
            return ' <- '.join(l)
        return '%s:%s' % (self.j.get('file'), self.j.get('line'))

    def rets(self):
        return [b for b in self.blocks if self.blocks[b]['insts'] and self.blocks[b]['insts'][-1]['op'] == 'ret']

    def reach(self, start, avoid=()):
        seen, st = set(), [start]
        while st:
            b = st.pop()
            if b in seen or b in avoid:
                continue
            seen.add(b)
            st += self.succ[b]
        return seen

    def unconditional(self, b):
        """every entry->ret path passes through block b"""
        if b == self.entry:
            return True
        r = self.reach(self.entry, {b})
        return not any(x in r for x in self.rets())

    def dominators(self):
        if self._dom is None:
            allb = set(self.blocks)
            dom = {b: set(allb) for b in allb}
            dom[self.entry] = {self.entry}
            order = []
            seen = set()
            def dfs(b):
                st = [(b, iter(self.succ[b]))]
                seen.add(b)
                while st:
                    x, it = st[-1]
                    for s in it:
                        if s not in seen:
                            seen.add(s)
                            st.append((s, iter(self.succ[s])))
                            break
                    else:
                        order.append(x)
                        st.pop()
            dfs(self.entry)
            order.reverse()
            ch = True
            while ch:
                ch = False
                for b in order:
                    if b == self.entry:
                        continue
                    ps = [dom[p] for p in self.pred[b] if p in seen]
                    n = set.intersection(*ps) | {b} if ps else {b}
                    if n != dom[b]:
                        dom[b] = n
                        ch = True
            self._dom = dom
        return self._dom

    def rpo(self):
        self.dominators()
        if not hasattr(self, '_rpo'):
            order, seen = [], {self.entry}
            st = [(self.entry, iter(self.succ[self.entry]))]
            while st:
                x, it = st[-1]
                for s in it:
                    if s not in seen:
                        seen.add(s)
                        st.append((s, iter(self.succ[s])))
                        break
                else:
                    order.append(x)
                    st.pop()
            self._rpo = order[::-1]
        return self._rpo

    def in_cycle(self, b):
        return any(b in self.reach(s) for s in self.succ[b])

    def loops(self):
        """header -> set of body blocks (natural loops)"""
        dom = self.dominators()
        out = {}
        for b in self.blocks:
            for s in self.succ[b]:
                if s in dom[b]:
                    body, st = {s, b}, [b]
                    while st:
                        x = st.pop()
                        if x == s:
                            continue
                        for p in self.pred[x]:
                            if p not in body:
                                body.add(p)
                                st.append(p)
                    out.setdefault(s, set()).update(body)
        return out

    # ------------------------------------------------------------- addresses
    def intaff(self, v, depth=0):
        """integer value -> (const, {sym: coeff}) or None.  sym = ('loop', header) or ('v', id)"""
        if isinstance(v, dict):
            if 'i' in v:
                return v['i'], {}
            return None
        if not v.startswith('%'):
            return 0, {('v', v): 1}
        i = self.inst.get(v)
        if i is None or depth > 40:
            return 0, {('v', v): 1}
        op = i['op']
        if op in ('zext', 'sext', 'trunc', 'freeze'):
            return self.intaff(i['a'][0], depth + 1)
        if op in ('add', 'sub') or (op == 'or' and False):
            a, b = self.intaff(i['a'][0], depth + 1), self.intaff(i['a'][1], depth + 1)
            if a and b:
                s = 1 if op == 'add' else -1
                m = dict(a[1])
                for k, c in b[1].items():
                    m[k] = m.get(k, 0) + s * c
                return a[0] + s * b[0], {k: c for k, c in m.items() if c}
        if op in ('mul', 'shl') and isinstance(i['a'][1], dict) and 'i' in i['a'][1]:
            a = self.intaff(i['a'][0], depth + 1)
            f = i['a'][1]['i'] if op == 'mul' else 1 << i['a'][1]['i']
            if a:
                return a[0] * f, {k: c * f for k, c in a[1].items()}
        if op == 'phi' and len(i['in']) == 2:
            r = self._addrec(v, i, depth)
            if r:
                init, step, hdr = r
                a = self.intaff(init, depth + 1)
                if a:
                    m = dict(a[1])
                    m[('loop', hdr)] = m.get(('loop', hdr), 0) + step
                    return a[0], m
        return 0, {('v', v): 1}

    def _addrec(self, v, i, depth):
        hdr = self.blk[v]
        for k in (0, 1):
            nxt, init = i['in'][k][0], i['in'][1 - k][0]
            # does nxt = v + const ?
            step, x, n = 0, nxt, 0
            while isinstance(x, str) and x.startswith('%') and x != v and n < 30:
                n += 1
                j = self.inst[x]
                if j['op'] == 'add' and isinstance(j['a'][1], dict) and 'i' in j['a'][1]:
                    step += j['a'][1]['i']; x = j['a'][0]
                elif j['op'] == 'getelementptr' and not j.get('vars') and j['base'] != '?':
                    step += j['off']; x = j['base']
                elif j['op'] in ('zext', 'sext', 'trunc', 'freeze'):
                    x = j['a'][0]
                else:
                    break
            if x == v and step:
                return init, step, hdr
        return None

    def addr(self, v):
        """pointer -> (base, off, ((sym,coeff),...)).  base is 'aN', '@g', '%id' (alloca/call/load/phi), or None"""
        if isinstance(v, dict):
            if 'g' in v:
                return '@' + v['g'], v['o'], ()
            return None, 0, ()
        if v in self._addr:
            return self._addr[v]
        self._addr[v] = (v, 0, ())
        r = self._addr_(v)
        self._addr[v] = r
        return r

    def _addr_(self, v):
        if not v.startswith('%'):
            return v, 0, ()
        i = self.inst[v]
        op = i['op']
        if op == 'getelementptr' and i['base'] != '?':
            b, o, s = self.addr(i['base'])
            m = dict(s)
            o += i['off']
            for var, sc in i['vars']:
                a = self.intaff(var)
                if a is None:
                    m[('v', str(var))] = sc
                else:
                    o += a[0] * sc
                    for k, c in a[1].items():
                        m[k] = m.get(k, 0) + c * sc
            return b, o, tuple(sorted((k, c) for k, c in m.items() if c))
        if op in ('bitcast', 'freeze', 'addrspacecast'):
            return self.addr(i['a'][0])
        if op == 'phi' and len(i['in']) == 2:
            r = self._addrec(v, i, 0)
            if r:
                init, step, hdr = r
                b, o, s = self.addr(init)
                m = dict(s)
                m[('loop', hdr)] = m.get(('loop', hdr), 0) + step
                return b, o, tuple(sorted(m.items()))
        return v, 0, ()

    # ------------------------------------------------------------- bit provenance
    # bit = 0 | 1 | (base, off, syms, bit) source bit | ('nz', frozenset) | ('dep', frozenset of source bytes)
    def width(self, t):
        m = re.match(r'i(\d+)$', t)
        if m:
            return int(m.group(1))
        return {'float': 32, 'double': 64, 'ptr': 64, 'half': 16}.get(t, 0)

    def bits(self, v, w):
        if isinstance(v, dict):
            if 'i' in v:
                return [(v['i'] >> k) & 1 for k in range(w)]
            if 'I' in v:
                n = int(v['I'])
                return [(n >> k) & 1 for k in range(w)]
            if 'f' in v:
                import struct
                f = float(v['f'])
                if w == 32:
                    n = struct.unpack('<I', struct.pack('<f', f))[0]
                elif w == 64:
                    n = struct.unpack('<Q', struct.pack('<d', f))[0]
                else:
                    return [('dep', frozenset())] * w
                return [(n >> k) & 1 for k in range(w)]
            if v.get('null') or 'zero' in v or v.get('undef'):
                return [0] * w
            return [('dep', frozenset())] * w
        if not v.startswith('%'):
            return [('arg', v, k) for k in range(w)]
        r = self._bits.get(v)
        if r is None:
            self._bits[v] = [('dep', frozenset([('cyc', v)]))] * max(w, 1)
            r = self._bits_(v)
            self._bits[v] = r
        return r if len(r) == w else (r + [('dep', frozenset())] * w)[:w]

    @staticmethod
    def srcs(bs):
        s = set()
        for b in bs:
            if isinstance(b, tuple):
                if b[0] in ('dep', 'nz', 'ez'):
                    s |= b[1]
                elif b[0] == 'arg':
                    s.add(('arg', b[1]))
                elif b[0] == 'src':
                    s.add((b[1], b[2], b[3]))
        return frozenset(s)

    def _dep(self, w, *bss):
        s = set()
        for b in bss:
            s |= self.srcs(b)
        if len(s) > 64:
            s = set([('many',)])
        return [('dep', frozenset(s))] * w

    def _bits_(self, v):
        i = self.inst[v]
        op, w = i['op'], self.width(i.get('t', ''))
        if op == 'load':
            b, o, s = self.addr(i['p'])
            if b is None:
                return [('dep', frozenset())] * w
            return [('src', b, o + k // 8, s, k % 8) for k in range(w)]
        if op in ('zext', 'sext', 'trunc', 'bitcast', 'freeze', 'ptrtoint', 'inttoptr'):
            ow = self.width(i['ot'])
            x = self.bits(i['a'][0], ow)
            if op == 'trunc':
                return x[:w]
            if op == 'zext':
                return x + [0] * (w - ow)
            if op == 'sext':
                return x + [x[-1]] * (w - ow)
            return x
        if op in ('shl', 'lshr', 'ashr'):
            x = self.bits(i['a'][0], w)
            c = i['a'][1]
            if isinstance(c, dict) and 'i' in c:
                n = c['i']
                if op == 'shl':
                    return ([0] * n + x)[:w]
                fill = 0 if op == 'lshr' else x[-1]
                return (x[n:] + [fill] * n)[:w]
            return self._dep(w, x, self.bits(c, w))
        if op in ('and', 'or', 'xor', 'add'):
            x, y = self.bits(i['a'][0], w), self.bits(i['a'][1], w)
            if op == 'add':
                if all(a == 0 or b == 0 for a, b in zip(x, y)):
                    op = 'or'
                else:
                    return self._dep(w, x, y)
            out = []
            for a, b in zip(x, y):
                if op == 'and':
                    r = 0 if a == 0 or b == 0 else a if b == 1 else b if a == 1 else a if a == b else None
                elif op == 'or':
                    r = 1 if a == 1 or b == 1 else a if b == 0 else b if a == 0 else a if a == b else None
                else:
                    r = a if b == 0 else b if a == 0 else (a ^ b) if isinstance(a, int) and isinstance(b, int) else None
                out.append(('dep', self.srcs([a, b])) if r is None else r)
            return out
        if op == 'mul':
            c = i['a'][1]
            if isinstance(c, dict) and 'i' in c and c['i'] > 0 and c['i'] & (c['i'] - 1) == 0:
                n = c['i'].bit_length() - 1
                return ([0] * n + self.bits(i['a'][0], w))[:w]
        if op == 'icmp':
            ow = self.width(i['ot'])
            a, b = i['a']
            if isinstance(b, dict) and b.get('i') == 0 and i['pred'] in ('ne', 'eq', 'ugt', 'sgt'):
                x = self.bits(a, ow)
                if i['pred'] in ('ne', 'ugt'):
                    return [('nz', self.srcs(x))]
                if i['pred'] == 'eq':
                    return [('ez', self.srcs(x))]
            if isinstance(b, dict) and 'i' in b and ow:
                return [('dep', self.srcs(self.bits(a, ow)))]
            return self._dep(1, self.bits(a, max(ow, 1)), self.bits(b, max(ow, 1)))
        if op == 'select':
            c, a, b = i['a']
            x, y = self.bits(a, w), self.bits(b, w)
            cb = self.bits(c, 1)
            return [p if p == q else self._dep(1, [p, q], cb)[0] for p, q in zip(x, y)]
        if op == 'phi':
            vs = [self.bits(x[0], w) for x in i['in']]
            out = []
            for k in range(w):
                col = [b[k] for b in vs]
                out.append(col[0] if all(c == col[0] for c in col) else self._dep(1, col)[0])
            return out
        if op == 'call':
            c = i.get('callee', '')
            if c.startswith('llvm.bswap'):
                x = self.bits(i['args'][0], w)
                return [b for k in range(w // 8 - 1, -1, -1) for b in x[k * 8:k * 8 + 8]]
            m = re.match(r'llvm\.fsh([lr])', c)
            if m and isinstance(i['args'][2], dict) and 'i' in i['args'][2]:
                hi, lo, n = self.bits(i['args'][0], w), self.bits(i['args'][1], w), i['args'][2]['i'] % w
                cat = lo + hi
                return cat[w - n:2 * w - n] if m.group(1) == 'l' else cat[n:n + w]
        if op == 'alloca':
            return [('dep', frozenset([('alloca', v)]))] * 64
        # anything else: depends on its operands
        ops = i.get('a') or i.get('args') or []
        ds = []
        for k, o in enumerate(ops):
            if o is None:
                continue
            ot = i.get('ot') if 'a' in i else (i.get('at') or [''])[k] if k < len(i.get('at') or []) else ''
            ds.append(self.bits(o, max(self.width(ot or ''), 1)))
        return self._dep(max(w, 1), *ds)


# ------------------------------------------------- facts under known input bytes
def eval_under(fn, v, env, memo=None):
    """constant value of v when the bytes in env {(base, off): value} are known, else None"""
    if memo is None:
        memo = {}
    if isinstance(v, dict):
        return v.get('i')
    if v in memo:
        return memo[v]
    memo[v] = None
    i = fn.inst.get(v)
    if i is None:
        return None
    op = i['op']
    r = None
    if op == 'icmp':
        a, b = eval_under(fn, i['a'][0], env, memo), eval_under(fn, i['a'][1], env, memo)
        if a is not None and b is not None:
            w = fn.width(i['ot']) or 64
            ua, ub = a & ((1 << w) - 1), b & ((1 << w) - 1)
            sa, sb = (ua - (1 << w) if ua >> (w - 1) else ua), (ub - (1 << w) if ub >> (w - 1) else ub)
            r = int({'eq': ua == ub, 'ne': ua != ub, 'ult': ua < ub, 'ule': ua <= ub, 'ugt': ua > ub, 'uge': ua >= ub,
                     'slt': sa < sb, 'sle': sa <= sb, 'sgt': sa > sb, 'sge': sa >= sb}[i['pred']])
    elif op == 'select':
        c = eval_under(fn, i['a'][0], env, memo)
        if c is not None:
            r = eval_under(fn, i['a'][1 if c & 1 else 2], env, memo)
    elif i.get('t', '').startswith('i'):
        if op in ('add', 'sub', 'mul', 'and', 'or', 'xor', 'shl'):
            a, b = eval_under(fn, i['a'][0], env, memo), eval_under(fn, i['a'][1], env, memo)
            if a is not None and b is not None:
                w = fn.width(i['t'])
                r = {'add': a + b, 'sub': a - b, 'mul': a * b, 'and': a & b, 'or': a | b, 'xor': a ^ b, 'shl': a << min(b, 64)}[op] & ((1 << w) - 1)
            elif op in ('and', 'or') and fn.width(i['t']) == 1:
                if op == 'and' and 0 in (a, b):
                    r = 0
                if op == 'or' and any(x is not None and x & 1 for x in (a, b)):
                    r = 1
        elif op in ('zext', 'freeze', 'trunc') and isinstance(i['a'][0], str):
            a = eval_under(fn, i['a'][0], env, memo)
            if a is not None:
                r = a & ((1 << fn.width(i['t'])) - 1)
        if r is None:
            w = fn.width(i['t'])
            if w:
                bs = fn.bits(v, w)
                x = 0
                for k, b in enumerate(bs):
                    if isinstance(b, int):
                        x |= b << k
                    elif b[0] == 'src' and not b[3] and (b[1], b[2]) in env:
                        x |= ((env[(b[1], b[2])] >> b[4]) & 1) << k
                    else:
                        x = None
                        break
                r = x
    memo[v] = r
    return r


def reach_under(fn, start, env, avoid=()):
    """blocks reachable from start when the bytes in env are known (edges whose condition is then false are cut)"""
    memo, seen, st = {}, set(), [start]
    while st:
        b = st.pop()
        if b in seen or b in avoid:
            continue
        seen.add(b)
        t = fn.blocks[b]['insts'][-1]
        nxt = fn.succ[b]
        if t['op'] == 'br' and 'c' in t:
            c = eval_under(fn, t['c'], env, memo)
            if c is not None:
                nxt = [t['T'] if c & 1 else t['F']]
        elif t['op'] == 'switch':
            c = eval_under(fn, t['c'], env, memo)
            if c is not None:
                m = 1 << (fn.width(fn.inst[t['c']].get('t', '')) or 32) if isinstance(t['c'], str) and t['c'] in fn.inst else 1 << 8
                nxt = [next((tb for k, tb in t['cases'] if (k - c) % m == 0), t['default'])]
        st += nxt
    return seen
