"""C23: printed reports show every decoded field under its own name"""
import json, os
from ..streams import *
LEVEL = 'proof'
RULE = '''What each report function inserts into its stream is read as a sequence of literals and values; under every heading (literal with
letters) exactly the values of the table are printed, with the table's formats and conditions, and every heading of the table is there.
Every function that names the codes of a field returns, for each code, the name of the table, and the fallback name otherwise.'''
ASSUME = ['the stream inserters of the C++ library print the value they are given', 'the tables spec/reports.json and spec/labels.json are right: they were read against the member names and the format documents']
TRUST = []
KEEP_R = r'^operator<<\(|(\[abi:cxx11\])?\((t_enum_MSG|unsigned)|^MSG_[A-Za-z_]+::[A-Za-z_]+\[abi'
KEEP_L = r'^(MSG_[A-Za-z_]+|MSG_segment_quality::[a-z_]+|HRI_subframe_label::format_code)(\[abi:cxx11\])?\('
SPEC = os.path.join(os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__)))), 'spec')


def reporters(prog):
    for fn in prog.fns.values():
        m = re.match(r'operator<<\(std::(?:basic_)?ostream[^,]*, (\w+)( const)?&\)', fn.dem)
        if m and not (fn.j.get('file') or '').startswith(('msat/openmtp', 'msat/omtp-ids')):
            yield m.group(1), fn


def labellers(prog):
    for fn in prog.fns.values():
        m = re.match(r'((?:\w+::)?\w+)(\[abi:cxx11\])?\(', fn.dem)
        if m and fn.j['args'] and fn.j['args'][0][0] == 'agg.result' and (m.group(1).startswith('MSG_') or m.group(1) == 'HRI_subframe_label::format_code'):
            yield m.group(1), fn


def run(ctx):
    ctx.part('names of codes', labels, ctx)
    ctx.part('reports', reports, ctx)


# ------------------------------------------------------------------------------------------------- names of codes
def labels(ctx):
    prog = program(KEEP_L)
    table = json.load(open(os.path.join(SPEC, 'labels.json')))
    fns = dict(labellers(prog))
    for name, want in sorted(table.items()):
        fn = fns.get(name)
        if fn is None:
            ctx.undecided('name of ' + name, 'no such function')
            continue
        ctx.part('name of ' + name, label, ctx, prog, name, fn, want)


def label(ctx, prog, name, fn, want):
    got = Texts(prog, fn).result()
    oblige(ctx, 'name of ' + name, got, undump(want), fn=fn, prog=prog, text='name')


# ------------------------------------------------------------------------------------------------- reports
def packed(entries):
    """rows [class, formats, value, condition] as written in the table: runs of equal rows that differ only by counting numbers are folded"""
    return fold([json.dumps([c, [[x, dump(y)] for x, y in m], dump(v) if not hazy(v) else None, dump(w) if w is not None and w is not TRUE else {} if w is TRUE else None]) for c, m, v, w, b in entries])


def hazy(v):
    return v is BOT or v is None or v.opaque or any(re.search(r'local:|\[abi', k) for k in walk_atoms(v))


NUM = re.compile(r'(?<![\w.@-])\d+(?:\.0)?(?![\w.])')


def nums(r):
    return [int(float(x)) for x in NUM.findall(r)]


def fold(rows):
    """runs of groups of rows in which every number counts by a constant step"""
    tm = [NUM.sub(lambda m: '@.0' if '.' in m.group(0) else '@', r) for r in rows]
    ns = [nums(r) for r in rows]
    out, k = [], 0
    while k < len(rows):
        best = (1, 1)
        for p in range(1, 40):
            if k + 3 * p > len(rows):
                break
            if tm[k] != tm[k + p]:
                continue
            n = 1
            while k + (n + 1) * p <= len(rows) and all(tm[k + j] == tm[k + n * p + j] and all(
                    c - b == z - y for b, c, y, z in zip(ns[k + (n - 1) * p + j], ns[k + n * p + j], ns[k + j], ns[k + p + j])) for j in range(p)):
                n += 1
            if n >= 3 and n * p > best[0] * best[1]:
                best = (n, p)
        n, p = best
        if n >= 3 and '@' not in ''.join(rows[k:k + p]):
            out.append({'times': n, 'rows': tm[k:k + p], 'from': ns[k:k + p] and [ns[k + j] for j in range(p)], 'step': [[b - a for a, b in zip(ns[k + j], ns[k + p + j])] for j in range(p)]})
            k += n * p
        else:
            out.append(rows[k])
            k += 1
    return out


def unfold(rows):
    for r in rows:
        if isinstance(r, str):
            yield json.loads(r)
            continue
        for n in range(r['times']):
            for j, t in enumerate(r['rows']):
                it = [a + n * b for a, b in zip(r['from'][j], r['step'][j])]
                parts = t.split('@')
                yield json.loads(''.join(x + (str(it[i]) if i < len(it) else '') for i, x in enumerate(parts)))


def table_of(prog):
    out = {}
    for cls, fn in reporters(prog):
        t = Trace(prog, fn, 'p0')
        heads, texts_ = t.headed()
        out[cls] = {'file': fn.j.get('file'), 'heads': {h: packed(v) for h, v in heads.items()}, 'texts': sorted(texts_)}
    return out


def reports(ctx):
    prog = program(KEEP_R)
    table = json.load(open(os.path.join(SPEC, 'reports.json')))
    fns = dict(reporters(prog))
    for cls, want in sorted(table.items()):
        fn = fns.get(cls)
        if fn is None:
            ctx.undecided('report of ' + cls, 'no such report')
            continue
        ctx.part('report of ' + cls, report, ctx, prog, cls, fn, want)


def describe(row):
    c, m, v, w = row[:4]
    return '%s %s%s' % (c, getattr(v, 'key', v), ' (%s)' % ', '.join('%s %s' % (x, y.key) for x, y in m) if m else '')


def report(ctx, prog, cls, fn, want):
    key = 'report of ' + cls
    t = Trace(prog, fn, 'p0')
    heads, texts_ = t.headed()
    ctx.fn(fn)
    where = '%s:%s' % (fn.j.get('file'), fn.j.get('line'))
    ctx.count('values printed', sum(len(v) for v in heads.values()))
    if t.open:
        for h in want['heads']:
            ctx.undecided('%s/%r' % (key, h), 'the stream is passed to %s' % t.open[0][:80])
        return
    if sorted(texts_) == want['texts']:
        ctx.good(key + '/texts', '%d literals' % len(texts_))
    else:
        more, less = [x for x in texts_ if x not in want['texts']], [x for x in want['texts'] if x not in texts_]
        ctx.violation(key + '/texts', 'the texts of the report differ: %s instead of %s' % (more[:3], less[:3]) if more or less else 'texts repeat differently', where)
    for h, rows in want['heads'].items():
        head(ctx, prog, '%s/%s' % (key, h.strip(' :\n#-') or 'top'), fn, heads.get(h), list(unfold(rows)), where, h)
    for h in heads:
        if h not in want['heads']:
            ctx.violation('%s/%s' % (key, h.strip(' :\n#-') or 'top'), 'prints %s under the heading %r' % (describe(heads[h][0]), h), where)


def head(ctx, prog, key, fn, got, want, where, h):
    if got is None:
        return ctx.violation(key, 'nothing is printed under the heading %r' % h, where)
    und = None
    n = 0
    for k, w in enumerate(want):
        if k >= len(got):
            return ctx.violation(key, 'prints %d values under the heading %r, expected %d' % (len(got), h, len(want)), where)
        c, m, v, cnd, b = got[k]
        ln = where
        if c != w[0]:
            if hazy(v):
                und = und or 'value %d cannot be read' % k
                continue
            return ctx.violation(key, 'prints %s under the heading %r, expected %s' % (describe(got[k]), h, w[0]), ln)
        if [[x, y.key if hasattr(y, 'key') else None] for x, y in m] != [[x, undump(y).key] for x, y in w[1]]:
            if any(hazy(y) for x, y in m):
                und = und or 'a format cannot be read'
            else:
                return ctx.violation(key, 'formats %s under the heading %r as %s, expected %s' % (describe(got[k]), h, [(x, y.key) for x, y in m], [(x, undump(y).key) for x, y in w[1]]), ln)
        if w[2] is None:
            continue
        wv = undump(w[2])
        if hazy(v):
            und = und or 'value %d cannot be read: %s' % (k, getattr(v, 'key', '?')[:80])
            continue
        if v.key != wv.key and compare(v, wv).diff:
            ms = missing_fields(prog, fn, wv, None)
            if ms:
                und = und or 'no longer there: %s' % ', '.join(ms)
                continue
            return ctx.violation(key, 'prints %s under the heading %r, expected %s' % (v.key[:200], h, wv.key[:200]), ln)
        if w[3] is not None and cnd is not None:
            wc = TRUE if w[3] == {} else undump(w[3])
            if cnd.key != wc.key and compare(cnd, wc).diff:
                return ctx.violation(key, 'prints %s under the heading %r when %s, expected when %s' % (v.key[:100], h, cnd.key[:200], wc.key[:200]), ln)
        n += 1
    if len(got) > len(want):
        return ctx.violation(key, 'prints also %s under the heading %r' % (describe(got[len(want)]), h), where)
    if und:
        return ctx.undecided(key, und)
    ctx.good(key, '%d values under %r' % (len(want), h))
