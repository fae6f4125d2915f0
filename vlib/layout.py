"""Record-layout extraction: which input bytes, in which byte order and signedness, feed which member."""
import re
from . import facts
from .ir import Fn


class Program:
    def __init__(self, j):
        self.fns = {f['name']: Fn(f) for f in j['functions']}
        self.types = j['types']
        self.globals = j['globals']
        self.by_dem = {}
        for f in self.fns.values():
            self.by_dem.setdefault(f.dem, f)

    def find(self, pat):
        return [f for f in self.fns.values() if re.search(pat, f.dem)]


READERS = (r'::read_from\(|MSG_segment_quality::set\(|MSG_native_lineheader::read|IMPF_Packet_Header::read|'
           r'MSG_native_(header|trailer|line)::read\(|::to_sample\(')


def tname(t):
    k = t['k']
    if k in ('base',):
        return t['enc'].replace('DW_ATE_', '')
    return k


def leaves(types, cname, base=0, prefix='', out=None):
    """all scalar leaves of a class: [(path, offset, size, kind)]"""
    if out is None:
        out = []
    T = types.get(cname)
    if T is None:
        raise facts.Broken('no debug type for ' + cname)
    for m in T.get('members', []):
        p = (prefix + '.' + m['n']).strip('.') if m['n'] else prefix
        leaf_t(types, m['t'], base + m['o'], p, out)
    return out


def leaf_t(types, t, off, path, out):
    if isinstance(t, str):
        return
    k = t['k']
    if k == 'struct':
        if t['n'] in types:
            leaves(types, t['n'], off, path, out)
        else:
            out.append((path, off, t['sz'], 'opaque:' + t['n']))
    elif k == 'arr':
        dims = t['dims']
        n = 1
        for d in dims:
            n *= d
        if n <= 0:
            return
        es = t['sz'] // n
        for i in range(n):
            idx, r = [], i
            for d in reversed(dims):
                idx.append(r % d)
                r //= d
            leaf_t(types, t['e'], off + i * es, path + ''.join('[%d]' % x for x in reversed(idx)), out)
    elif k == 'base':
        out.append((path, off, t['sz'], t['enc'].replace('DW_ATE_', '')))
    elif k == 'enum':
        out.append((path, off, t['sz'], 'enum'))
    elif k == 'ptr':
        out.append((path, off, 8, 'ptr'))


class Flat:
    """byte map of what a reader stores into one object"""
    def __init__(self, prog):
        self.prog = prog
        self.bytes = {}      # (objkey, off) -> (8 bits, cond, inst, fn)
        self.problems = []
        self.calls = []      # other calls with their arguments
        self.subs = 0
        self.subcalls = []   # (callee Fn, inst, [args], cond, caller Fn)
        self.condblk = {}    # (base, off, syms) -> (fn name, depth, blocks): where a conditional byte is written
        self.fnset = set()
        self.loops = []      # (dst base, off, syms)
        self.ret = {}
        self.condall, self.shallow = False, None

    # src frame: mapping of the callee's argument -> (base, off, syms) in the root frame
    def run(self, fn, frame, depth=0):
        """frame: {'a0': (obj, off), 'a1': (obj, off)}; obj are root-frame names"""
        if depth > 12:
            raise facts.Broken('reader recursion in ' + fn.dem)
        self.fnset.add(fn.name)

        def xl(a):
            b, o, s = a
            if b in frame:
                fb, fo, fs = frame[b]
                return fb, fo + o, tuple(sorted(tuple(fs) + tuple(s)))
            if b is None:
                return None, o, s
            return '%s/%s' % (fn.name, b), o, s

        def xbit(b):
            if isinstance(b, tuple):
                if b[0] == 'src':
                    nb, no, ns = xl((b[1], b[2], b[3]))
                    return ('src', nb, no, ns, b[4])
                if b[0] in ('dep', 'nz', 'ez'):
                    return (b[0], frozenset(xl(x) if len(x) == 3 else x for x in b[1]))
            return b

        loops = fn.loops()
        uncond = {}
        for b in fn.blocks:
            uncond[b] = fn.unconditional(b)
        seen = fn.reach(fn.entry)
        # blocks in reverse post order
        for bid in fn.rpo():
            cond = not uncond[bid]
            inl = [h for h, body in loops.items() if bid in body]
            if cond and inl:
                # inside loops: unconditional within each enclosing loop, and the outermost header itself unconditional
                ok = True
                for h in inl:
                    latches = [p for p in fn.pred[h] if p in loops[h]]
                    r = set()
                    st = [h] if h != bid else []
                    while st:
                        x = st.pop()
                        if x in r or x == bid or x not in loops[h]:
                            continue
                        r.add(x)
                        st += fn.succ[x]
                    if bid != h and any(l in r for l in latches):
                        ok = False
                cond = not ok
            for i in fn.blocks[bid]['insts']:
                op = i['op']
                if op == 'store':
                    w = fn.width(i['vt'])
                    a = xl(fn.addr(i['p']))
                    if not w:
                        self.problems.append((fn, i, 'store of unsupported type ' + i['vt']))
                        continue
                    w8 = i['sz'] * 8
                    bs = [xbit(b) for b in fn.bits(i['v'], w)] + [0] * (w8 - w)
                    self.put(a, bs, cond, i, fn)
                elif op in ('call', 'invoke'):
                    self.call(fn, i, frame, xl, xbit, cond, depth, inl)
                elif op == 'ret' and i.get('a'):
                    self.ret.setdefault((fn.name, depth), []).append(i['a'][0])

    def put(self, a, bits, cond, i, fn):
        base, off, syms = a
        cond = cond or self.condall
        for k in range(len(bits) // 8):
            new = tuple(bits[k * 8:k * 8 + 8])
            key = (base, off + k, syms)
            old = self.bytes.get(key)
            if cond:
                blk = fn.blk['%%%d' % i['id']]
                w = self.condblk.setdefault(key, {}).setdefault(fn.name, set())
                w.add(blk)
                # written on every path by one of the conditional stores?
                c = old is None or old[1]
                if c and len(w) > 1:
                    r = fn.reach(fn.entry, w)
                    c = any(x in r for x in fn.rets())
                if old is not None and old[0] != new:
                    new = tuple(('dep', Fn.srcs([x, y])) if x != y else x for x, y in zip(old[0], new))
                self.bytes[key] = (new, c, i, fn)
            else:
                self.bytes[key] = (new, False, i, fn)

    def call(self, fn, i, frame, xl, xbit, cond, depth, inl):
        c = i.get('callee', '')
        if c.startswith('llvm.mem'):
            n = i['args'][2]
            dst = xl(fn.addr(i['args'][0]))
            if c.startswith('llvm.memset'):
                if isinstance(n, dict) and 'i' in n:
                    v = i['args'][1]
                    bs = [(v['i'] >> k) & 1 for k in range(8)] if isinstance(v, dict) and 'i' in v else [('dep', frozenset())] * 8
                    for k in range(n['i']):
                        self.bytes[(dst[0], dst[1] + k, dst[2])] = (tuple(bs), cond, i, fn)
                return
            src = xl(fn.addr(i['args'][1]))
            if isinstance(n, dict) and 'i' in n:
                tmp = []
                for k in range(n['i']):
                    key = (src[0], src[1] + k, src[2])
                    if key in self.bytes:      # copy of something this reader wrote
                        tmp.append(self.bytes[key][0])
                    else:
                        tmp.append(tuple(('src', src[0], src[1] + k, src[2], q) for q in range(8)))
                for k, t in enumerate(tmp):
                    self.bytes[(dst[0], dst[1] + k, dst[2])] = (t, cond, i, fn)
            else:
                self.calls.append(('copyvar', fn, i, dst, src, n, cond))
            return
        if c.startswith('llvm.'):
            return
        sub = self.prog.fns.get(c)
        if sub is not None and sub.name != fn.name:
            fr = {}
            for k, a in enumerate(i['args']):
                if i['at'][k] == 'ptr':
                    fr['a%d' % k] = xl(fn.addr(a))
            self.subs += 1
            self.subcalls.append((sub, i, [xl(fn.addr(a)) if i['at'][k] == 'ptr' else a for k, a in enumerate(i['args'])], cond or self.condall, fn))
            if self.shallow and self.shallow(sub):
                return
            sf = Flat(self.prog)
            sf.bytes, sf.condblk, sf.subcalls, sf.shallow = self.bytes, self.condblk, self.subcalls, self.shallow
            sf.problems, sf.calls, sf.fnset, sf.loops = self.problems, self.calls, self.fnset, self.loops
            sf.condall = cond or self.condall
            sf.run(sub, fr, depth + 1)
            self.subs += sf.subs
            return
        self.calls.append(('call', fn, i, [xl(fn.addr(a)) if (i['at'][k] == 'ptr') else a for k, a in enumerate(i['args'])], cond))


def describe(bits, kind, src='buff'):
    """classify the provenance of one scalar -> canonical string"""
    w = len(bits)
    if any(isinstance(b, tuple) and b[0] in ('dep', 'ez', 'arg') for b in bits):
        return 'expr'
    if isinstance(bits[0], tuple) and bits[0][0] == 'nz' and all(b == 0 for b in bits[1:]):
        s = bits[0][1]
        if len(s) == 1:
            (b, o, sy), = s
            return 'bool' + at(b, o, sy)
        return 'expr'
    if all(isinstance(b, int) for b in bits):
        return 'const:%d' % sum(b << k for k, b in enumerate(bits))
    # run of source bits
    n = 0
    b0 = bits[0]
    if not (isinstance(b0, tuple) and b0[0] == 'src' and b0[4] == 0):
        return bitstr(bits)
    m = w
    sign = 'u'
    while m > 8 and bits[m - 1] == 0:
        m -= 1
    top = bits[-1]
    if m == w and isinstance(top, tuple) and top[0] == 'src':
        k = w
        while k > 1 and bits[k - 2] == top:
            k -= 1
        if k < w:
            m, sign = k, 's'
    if m % 8:
        return bitstr(bits)
    n = m // 8
    base, syms = b0[1], b0[3]
    be = all(bits[k] == ('src', base, b0[2] - k // 8, syms, k % 8) for k in range(m))
    le = all(bits[k] == ('src', base, b0[2] + k // 8, syms, k % 8) for k in range(m))
    if be:
        o, order = b0[2] - (n - 1), '' if n == 1 else 'be'
    elif le:
        o, order = b0[2], 'le'
    else:
        return bitstr(bits)
    if kind == 'float':
        return 'f%d%s' % (n, order) + at(base, o, syms) if m == w else 'bits'
    if m == w:
        sign = 's' if kind in ('signed', 'signed_char') and n > 1 else 'u'
        if n == 1:
            sign = 'u' if kind != 'signed' else 's'
    return '%s%d%s' % (sign, n, order) + at(base, o, syms)


def at(base, off, syms):
    s = ''.join('+%d*%s' % (c, 'i' if k[0] == 'loop' else 'v') for k, c in syms)
    return '@%d%s' % (off, s)


def bitstr(bits):
    out = []
    for b in bits:
        if isinstance(b, int):
            out.append(str(b))
        elif b[0] == 'src':
            out.append('%d.%d' % (b[2], b[4]))
        else:
            out.append(b[0])
    return 'bits[' + ' '.join(out) + ']'


def flatten(prog, fn, obj='a0', buf='a1'):
    fl = Flat(prog)
    fl.run(fn, {'a0': ('this', 0, ()), 'a1': ('buff', 0, ())})
    return fl


def table(prog, fl, cname, obj='this'):
    rows = []
    for path, off, size, kind in leaves(prog.types, cname):
        bits, cond, miss = [], False, 0
        for k in range(size):
            e = fl.bytes.get((obj, off + k, ()))
            if e is None:
                miss += 1
                bits += [('dep', frozenset([('unset',)]))] * 8
            else:
                bits += list(e[0])
                cond = cond or e[1]
        if miss == size:
            d = 'unset'
        else:
            if any(isinstance(b, tuple) and b[0] == 'src' and b[1] != 'buff' for b in bits):
                d = 'other'
            else:
                d = describe(bits, kind)
        rows.append((path, kind, d, cond))
    return rows
