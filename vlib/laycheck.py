"""Shared rule of the record-layout checks: every member of a decoded record must take exactly the bytes,
byte order and width that its format gives it, on every path that completes."""
import os, re
from collections import Counter
from . import facts, layout, compress
from .ir import Fn

SPEC = os.path.join(facts.VERIF, 'spec', 'layout')
IREAD = '_ZNSi4readEPcl'
_prog = None


def program():
    global _prog
    if _prog is None:
        _prog = layout.Program(facts.dump('opt', 'all', layout.READERS))
    return _prog


def reader(prog, cname, meth):
    for f in prog.fns.values():
        if f.j.get('cls') == cname and f.j.get('sname') == meth:
            return f
    return None


def buffers(fl):
    """root-frame names of the buffers that istream::read fills"""
    out = []
    for what in fl.calls:
        if what[0] == 'call' and what[2].get('callee') == IREAD:
            b = what[3][1]
            if isinstance(b, tuple) and b[0] not in out:
                out.append(b[0])
    return out


def rows_of(prog, fl, cname, bufs):
    """[(path, kind, descriptor, conditional, sources)]; offsets are relative to the input buffer"""
    out = []
    for path, off, size, kind in layout.leaves(prog.types, cname):
        bits, cond, miss, symbolic = [], False, 0, False
        for k in range(size):
            e = fl.bytes.get(('this', off + k, ()))
            if e is None:
                miss += 1
                bits += [('dep', frozenset())] * 8
            else:
                bits += list(e[0])
                cond = cond or e[1]
        srcs = Fn.srcs(bits)
        if miss == size:
            d = 'unset'
        elif miss:
            d = 'partial'
        elif any(isinstance(b, tuple) and b[0] == 'src' and b[1] not in bufs for b in bits):
            d = 'other'
        else:
            d = layout.describe(bits, kind)
        out.append((path, kind, d, cond, srcs))
    return out


def load_spec(cname):
    p = os.path.join(SPEC, cname.replace('::', '__') + '.txt')
    return compress.expand(compress.parse(open(p).read()))


DESC = re.compile(r'^(u|s|f|bool)(\d*)(be|le)?@(-?\d+)$')


def desc_bytes(d):
    m = DESC.match(d)
    if not m:
        return None
    n = int(m.group(2) or 1)
    return range(int(m.group(4)), int(m.group(4)) + n)


def compatible(exp, got):
    """signedness of single bytes and of the C type chosen is not part of the format's layout beyond its width"""
    return exp == got


def check_record(ctx, prog, fn, cname, spec, stream=False, label=None):
    label = label or cname
    fl = layout.flatten(prog, fn)
    for n in fl.fnset:
        ctx.fn(prog.fns[n])
    bufs = set(buffers(fl)) if stream else {'buff'}
    rows = {r[0]: r for r in rows_of(prog, fl, cname, bufs)}
    symbolic = any(k[0] == 'this' and k[2] for k in fl.bytes)
    opaque = bool([p for p in fl.problems]) or any(c[0] == 'copyvar' and c[3][0] == 'this' for c in fl.calls)
    missing = [p for p in spec if p not in rows]
    extra = [p for p in rows if p not in spec and not (rows[p][2] in ('unset', 'expr', 'other', 'partial'))]
    if missing:
        pool = Counter(rows[p][2] for p in extra if not rows[p][3])
        for p in missing:
            if pool[spec[p]] > 0:
                pool[spec[p]] -= 1
                ctx.good(label + '.' + p, spec[p] + ' (under another member name)')
            elif not symbolic and not opaque and extra and len(extra) == len(missing):
                ctx.violation(label + '.' + p, 'no member takes the bytes %s' % spec[p], '%s:%s' % (fn.j['file'], fn.j['line']))
            else:
                ctx.undecided(label + '.' + p, 'the record has no such member any more')
    for p, exp in spec.items():
        if p not in rows:
            continue
        _, kind, got, cond, srcs = rows[p]
        key = label + '.' + p
        want = desc_bytes(exp)
        e = None
        for q, off, size, k in ():
            pass
        if compatible(exp, got):
            if cond:
                ctx.violation(key, 'decoded only on some of the paths that complete', '%s:%s' % (fn.j['file'], fn.j['line']))
            else:
                ctx.good(key, exp)
        elif got == 'unset' or got == 'partial':
            if symbolic or opaque:
                ctx.undecided(key, 'written through a loop or copy that is not unrolled')
            else:
                ctx.violation(key, 'expected %s, but the member is not (completely) written' % exp, '%s:%s' % (fn.j['file'], fn.j['line']))
        elif got in ('expr', 'other'):
            used = {o for b, o, s in srcs if b in bufs and not s} if all(len(x) == 3 for x in srcs) else None
            if used is not None and want is not None and used and not (used & set(want)) and not any(x[2] for x in srcs) and all(x[0] in bufs for x in srcs):
                ctx.violation(key, 'expected %s, but the value is computed from bytes %s only' % (exp, sorted(used)[:12]), where(fl, prog, cname, p))
            else:
                ctx.undecided(key, 'value is not a plain byte sequence (%s)' % got)
        else:
            ctx.violation(key, 'expected %s, decoded as %s' % (exp, got), where(fl, prog, cname, p))
    return fl


def where(fl, prog, cname, path):
    for p, off, size, kind in layout.leaves(prog.types, cname):
        if p == path:
            e = fl.bytes.get(('this', off, ()))
            if e:
                return e[3].where(e[2])
    return ''


def compose(ctx, prog, root, records, label):
    """records: {class: byte offset}.  Each record reader reached from root must be handed the read buffer at
    exactly that offset."""
    fl = layout.Flat(prog)
    fl.shallow = lambda sub: sub.j.get('cls') in records and sub.j.get('sname') == 'read_from'
    fl.run(root, {'a0': ('this', 0, ()), 'a1': ('in', 0, ())})
    ctx.fn(root)
    bufs = buffers(fl)
    found = {}
    for sub, i, args, cond, caller in fl.subcalls:
        if sub.j.get('cls') in records and sub.j.get('sname') == 'read_from':
            found.setdefault(sub.j['cls'], []).append((args[1], i, caller, args[0]))
    for cls, off in records.items():
        key = '%s/%s' % (label, cls)
        if cls not in found:
            ctx.undecided(key, 'record reader is not called as a unit from here')
            continue
        for (b, o, s), i, caller, dst in found[cls]:
            if s or (b is None):
                ctx.undecided(key, 'offset is not a constant')
            elif b not in bufs:
                ctx.undecided(key, 'the source is not recognised as the buffer filled from the file')
            elif o != off:
                ctx.violation(key, 'record is decoded from byte %d of the data, expected %d' % (o, off), caller.where(i))
            else:
                ctx.good(key, 'decoded from byte %d' % off)
    # two records must not land on the same object
    return fl, bufs


def read_sizes(fl):
    """[(size or None, inst, fn)] of the istream::read calls, in order"""
    out = []
    for what in fl.calls:
        if what[0] == 'call' and what[2].get('callee') == IREAD:
            n = what[3][2]
            out.append((n['i'] if isinstance(n, dict) and 'i' in n else None, what[2], what[1]))
    return out
