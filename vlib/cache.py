"""Typestate of a small cache kept in a deque: which entry is known to be the one asked for, along every path of the lookup."""
from .semcheck import *

NEUTRAL = ('begin', 'end', 'rbegin', 'rend', 'cbegin', 'cend', 'size', 'empty', 'front', 'back', 'max_size')
EDIT = {'push_front', 'push_back', 'pop_front', 'pop_back', 'erase', 'clear', 'emplace_front', 'emplace_back'}


class Cache:
    """off: offset of the deque in the object; no, seg: (offset, size) of the number and of the object in an entry"""

    def __init__(self, ev, off, no, seg, fresh):
        self.ev, self.fn, self.off, self.no, self.seg = ev, ev.fn, off, no, seg
        self.fresh = fresh                     # call -> True for pushes of an entry that was just read for the number asked for
        self.kind = {}
        for b in self.fn.blocks:
            for i in self.fn.blocks[b]['insts']:
                if i['op'] in ('call', 'invoke') and '_Deque_iterator' in short(i.get('dem') or '') and len(i['args']) == 2:
                    d, s = self.fn.addr(i['args'][0]), self.fn.addr(i['args'][1])
                    if s[0] == 'a0' and not s[2]:
                        self.kind.setdefault(d[0], set()).add({off + 16: 'first', off + 48: 'last'}.get(s[1], '?'))
                    else:
                        self.kind.setdefault(d[0], set()).add(('copy', s[0]))
        self.moved = {self.fn.addr(i['args'][0])[0] for b in self.fn.blocks for i in self.fn.blocks[b]['insts'] if i['op'] in ('call', 'invoke')
                      and short(i.get('dem') or '') in ('operator++', 'operator--', 'operator+=', 'operator-=') and isinstance(i['args'][0], str)}
        self.bad, self.open, self.good, self.twice = [], [], 0, []

    def deque(self, i):
        for a in i['args'][:2]:
            x = self.fn.addr(a) if isinstance(a, str) else (None, 0, ())
            if x[0] == 'a0' and x[1] == self.off and not x[2]:
                return True
        return False

    def entry(self, v):
        """the iterator (its variable) or the call of front/back whose entry a pointer points at, and the offset"""
        b, o, s = self.fn.addr(v)
        i = self.fn.inst.get(b)
        if s or i is None:
            return None
        if i['op'] == 'load':
            p = self.fn.addr(i['p'])
            if p[0] in self.kind and not p[1] and not p[2]:
                return p[0], o
        if i['op'] in ('call', 'invoke') and short(i.get('dem') or '') in ('front', 'back', 'operator*', 'operator->'):
            n = short(i['dem'])
            if n in ('front', 'back'):
                return n, o
            p = self.fn.addr(i['args'][0])
            if p[0] in self.kind:
                return p[0], o
        return None

    def first(self, it):
        return it == 'front' or self.kind.get(it) == {'first'} and it not in self.moved

    def tested(self, c):
        """iterator whose number a condition compares with the one asked for, and the value of the condition that says they are equal"""
        i = self.fn.inst.get(c)
        if i is None or i['op'] != 'icmp' or i['pred'] not in ('eq', 'ne'):
            return None
        for x, y in (i['a'], i['a'][::-1]):
            if y == 'a1' and isinstance(x, str):
                j = self.fn.inst.get(x)
                e = self.entry(j['p']) if j and j['op'] == 'load' else None
                if e and e[1] == self.no[0]:
                    return e[0], i['pred'] == 'eq'
        return None

    def atend(self, c, end='last'):
        i = self.fn.inst.get(c)
        neg = False
        if i is not None and i['op'] == 'xor':
            neg, i = True, self.fn.inst.get(i['a'][0])
        if i is None or i['op'] not in ('call', 'invoke'):
            return None
        n = short(i.get('dem') or '')
        if n not in ('operator==', 'operator!='):
            return None
        def which(x):
            o = self.fn.addr(x)
            if o[0] == 'a0' and not o[2]:
                return {self.off + 16: 'first', self.off + 48: 'last'}.get(o[1])
            k = self.kind.get(o[0])
            return next(iter(k)) if k in ({'first'}, {'last'}) and o[0] not in self.moved else None
        x, y = i['args'][:2]
        for x, y in ((x, y), (y, x)):
            v = self.fn.addr(x)[0]
            if which(y) == end and v in self.kind and which(x) != end:
                return v, (n == 'operator==') != neg
        return None

    def step(self, i, S):
        """S: frozenset of facts ('front',) ('it', v) ('end', v) ('ent', v) ('seg', value) ('?',)"""
        op = i['op']
        if op == 'load':
            e = self.entry(i['p'])
            if e and e[1] == self.seg[0] and i['sz'] == self.seg[1]:
                ok = ('it', e[0]) in S or self.first(e[0]) and ('front',) in S
                v = ('seg', '%%%d' % i['id'])
                S = S | {v} if ok else S - {v}
            return S
        if op not in ('call', 'invoke'):
            return S
        n = short(i.get('dem') or '')
        d = i.get('dem') or ''
        if n.startswith('llvm.memcpy'):
            t, e = self.fn.addr(i['args'][0]), self.entry(i['args'][1])
            v = ('ent', t[0])
            if e and e[1] == 0:
                return S | {v} if ('it', e[0]) in S or self.first(e[0]) and ('front',) in S else S - {v}
            return S - {v}
        if '_Deque_iterator' in d and i['args'] and isinstance(i['args'][0], str):
            t = self.fn.addr(i['args'][0])[0]
            if n == '_Deque_iterator' and len(i['args']) == 2:
                s = self.fn.addr(i['args'][1])
                S = S - {('it', t), ('end', t)}
                if ('it', s[0]) in S:
                    S = S | {('it', t)}
                return S
            if n in ('operator++', 'operator--', 'operator+=', 'operator-=', 'operator='):
                return S - {('it', t), ('end', t)}
        if self.deque(i) and 'deque<' in d:
            keep = frozenset(x for x in S if x[0] not in ('it', 'end'))
            if n in ('push_front', 'emplace_front'):
                e = self.fn.addr(i['args'][1])[0]
                ok = self.fresh(i) or ('ent', e) in S
                if not self.fresh(i) and ('out',) not in S:
                    keep = keep | {('twice',)}
                keep = keep - {('out',)}
                return keep | {('front',)} if ok else keep - {('front',)}
            if n in ('push_back', 'emplace_back'):
                return keep
            if n == 'pop_back':
                return S - {('twice',)} | {('out',)}
            if n in ('pop_front', 'clear', 'erase'):
                keep = keep - {('twice',)} | {('out',)}
                return keep - {('front',)} | ({('?',)} if ('front',) in S and n == 'erase' else frozenset())
            if n in NEUTRAL:
                return S
            if n in ('deque', '~deque', 'push_front_aux'):
                return S
            return keep - {('front',)} | {('?',)}
        return S

    def run(self):
        fn = self.fn
        work, seen = [(fn.entry, frozenset())], set()
        while work:
            b, S = work.pop()
            if (b, S) in seen:
                continue
            seen.add((b, S))
            if len(seen) > 20000:
                self.open.append('too many states')
                return
            last = None
            for i in fn.blocks[b]['insts']:
                if i['op'] != 'phi':
                    S = self.step(i, S)
                last = i
            if last['op'] == 'ret':
                self.result(last, S)
                continue
            succ = [(s, None) for s in fn.succ[b]]
            if last['op'] == 'br' and 'c' in last and last['T'] != last['F']:
                succ = [(last['T'], True), (last['F'], False)]
            for s, v in succ:
                S2 = S
                if v is not None:
                    t = self.tested(last['c'])
                    if t:
                        if t[1] == v:
                            S2 = S2 | {('it', t[0])} | ({('front',)} if self.first(t[0]) else frozenset())
                        elif ('it', t[0]) in S2 or self.first(t[0]) and ('front',) in S2:
                            continue
                    t = self.atend(last['c'])
                    if t:
                        if t[1] == v:
                            if ('it', t[0]) in S2:
                                continue
                            S2 = S2 | {('end', t[0])}
                        elif ('end', t[0]) in S2:
                            continue
                    t = self.atend(last['c'], 'first')
                    if t and t[1] == v and ('it', t[0]) in S2:
                        S2 = S2 | {('front',)}
                add, rem = set(), set()
                for i in fn.blocks[s]['insts']:
                    if i['op'] != 'phi':
                        break
                    me = ('seg', '%%%d' % i['id'])
                    x = dict((p, y) for y, p in i['in']).get(b)
                    (add if self.fine(x, S2) else rem).add(me)
                    if not self.fine(x, S2) and not self.stored(x):
                        add.add(('other', me[1]))
                    else:
                        rem.add(('other', me[1]))
                work.append((s, (S2 - rem) | add))

    def fine(self, x, S):
        if isinstance(x, dict):
            return 'null' in x or x.get('i') == 0
        if x is None:
            return False
        if ('seg', x) in S:
            return True
        i = self.fn.inst.get(x)
        return self.isfresh(x)

    def isfresh(self, x):
        return False

    def stored(self, x):
        """does a value come from an entry of the cache?"""
        i = self.fn.inst.get(x) if isinstance(x, str) else None
        if i is None or i['op'] == 'phi':
            return i is not None
        e = self.entry(i['p']) if i['op'] == 'load' else None
        return bool(e) and e[1] == self.seg[0]

    def result(self, i, S):
        x = (i.get('a') or [None])[0]
        if ('twice',) in S:
            self.twice.append(i)
        if self.fine(x, S):
            self.good += 1
        elif ('?',) in S or isinstance(x, str) and ('other', x) in S or not self.stored(x):
            self.open.append('what is returned is not an entry of the cache, or the order of the cache is not known')
        else:
            self.bad.append(i)

    # ------------------------------------------------------------------ what is deleted is what leaves the cache
    def evicted(self):
        """[(instruction, end that is deleted, edit that follows)]"""
        fn, out = self.fn, []
        for b in fn.rpo():
            for n, i in enumerate(fn.blocks[b]['insts']):
                if i['op'] not in ('call', 'invoke') or short(i.get('dem') or '') not in ('operator delete', 'delete') or not isinstance(i['args'][0], str):
                    continue
                j = fn.inst.get(fn.addr(i['args'][0])[0])
                e = self.entry(j['p']) if j and j['op'] == 'load' else None
                if not e or e[1] != self.seg[0]:
                    continue
                end = self.end(e[0])
                if end:
                    out.append((i, end, self.next(b, n + 1)))
        return out

    def end(self, it, depth=0):
        if it in ('front', 'back'):
            return it
        k = self.kind.get(it) or set()
        if k == {'first'}:
            return 'front'
        if depth < 5 and len(k) == 1 and isinstance(next(iter(k)), tuple):
            src = next(iter(k))[1]
            moved = any(i['op'] in ('call', 'invoke') and short(i.get('dem') or '') == 'operator--' and self.fn.addr(i['args'][0])[0] == it
                        for b in self.fn.blocks for i in self.fn.blocks[b]['insts'])
            for b in self.fn.blocks:
                for i in self.fn.blocks[b]['insts']:
                    if i['op'] in ('call', 'invoke') and short(i.get('dem') or '') == 'rbegin' and self.fn.addr(i['args'][0])[0] == src:
                        return 'back' if moved else None
            if self.kind.get(src) == {'last'}:
                return 'back' if moved else None
            return self.end(src, depth + 1)
        if k == {'last'} and any(i['op'] in ('call', 'invoke') and short(i.get('dem') or '') == 'operator--' and self.fn.addr(i['args'][0])[0] == it
                                 for b in self.fn.blocks for i in self.fn.blocks[b]['insts']):
            return 'back'
        return None

    def next(self, b, n):
        """the edits of the deque that can come first after here"""
        out, seen, work = set(), set(), [(b, n)]
        while work:
            b, n = work.pop()
            hit = None
            for i in self.fn.blocks[b]['insts'][n:]:
                if i['op'] in ('call', 'invoke') and self.deque(i) and 'deque<' in (i.get('dem') or '') and short(i['dem']) not in NEUTRAL:
                    hit = short(i['dem'])
                    break
            if hit:
                out.add(hit)
                continue
            if self.fn.blocks[b]['insts'][-1]['op'] == 'ret':
                out.add('return')
            for s in self.fn.succ[b]:
                if s not in seen:
                    seen.add(s)
                    work.append((s, 0))
        return out
