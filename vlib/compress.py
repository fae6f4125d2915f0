"""Compress (path, kind, descriptor) rows into affine table rows, and expand them again."""
import re
from collections import OrderedDict

PATH = re.compile(r'\[(\d+)\]')


def split_desc(d):
    m = re.match(r'(.*?)@(-?\d+)$', d)
    return (m.group(1), int(m.group(2))) if m else (d, None)


def compress(rows):
    """rows: [(path, desc)] -> [(template, dims, tag, base, strides)] with template using [*]"""
    groups = OrderedDict()
    for path, d in rows:
        idx = tuple(int(x) for x in PATH.findall(path))
        groups.setdefault(PATH.sub('[*]', path), []).append((idx, d))
    out = []
    for t, items in groups.items():
        nd = len(items[0][0])
        if nd == 0:
            tag, o = split_desc(items[0][1])
            out.append([t, [], tag, o, []])
            continue
        dims = [max(i[0][k] for i in items) + 1 for k in range(nd)]
        m = dict(items)
        tag, base = split_desc(m[(0,) * nd]) if (0,) * nd in m else (None, None)
        strides = []
        for k in range(nd):
            e = tuple(1 if q == k else 0 for q in range(nd))
            if dims[k] > 1 and e in m and base is not None:
                o = split_desc(m[e])[1]
                strides.append((o - base) if o is not None else None)
            else:
                strides.append(0)
        ok = base is None and len({d for _, d in items}) == 1 or \
            base is not None and None not in strides and \
            all(split_desc(d) == (tag, base + sum(a * b for a, b in zip(i, strides))) for i, d in items)
        if ok:
            out.append([t, dims, tag, base, strides])
        else:
            for i, d in items:
                it = iter(i)
                tag, o = split_desc(d)
                out.append([re.sub(r'\[\*\]', lambda _: '[%d]' % next(it), t), [], tag, o, []])
    return out


def expand(spec):
    """inverse: -> {path: desc}"""
    import itertools
    out = {}
    for t, dims, tag, base, strides in spec:
        if not dims:
            out[t] = tag if base is None else '%s@%d' % (tag, base)
            continue
        for i in itertools.product(*[range(d) for d in dims]):
            it = iter(i)
            p = re.sub(r'\[\*\]', lambda _: '[%d]' % next(it), t)
            out[p] = tag if base is None else '%s@%d' % (tag, base + sum(a * b for a, b in zip(i, strides)))
    return out


def dump(spec):
    """text form:  path  dims  tag  base  strides"""
    L = []
    for t, dims, tag, base, strides in spec:
        L.append('%-78s %-10s %-8s %s' % (t, 'x'.join(map(str, dims)) or '-', tag, '-' if base is None else
                                          str(base) + ''.join('+%d*%s' % (s, 'ijklm'[k]) for k, s in enumerate(strides))))
    return '\n'.join(L) + '\n'


def parse(text):
    out = []
    for l in text.splitlines():
        l = l.split('#')[0].strip()
        if not l or l.startswith('!'):
            continue
        t, dims, tag, off = l.split()
        dims = [] if dims == '-' else [int(x) for x in dims.split('x')]
        if off == '-':
            out.append([t, dims, tag, None, [0] * len(dims)])
        else:
            parts = off.split('+')
            base = int(parts[0])
            strides = [0] * len(dims)
            for p in parts[1:]:
                s, v = p.split('*')
                strides['ijklm'.index(v)] = int(s)
            out.append([t, dims, tag, base, strides])
    return out
