from ..exc import Graph
LEVEL = 'proof'
RULE = '''Fixpoint of the exception types that can leave each function, over the call graph of the drivers with its unwind edges.  Where an
exception type can leave a function that GDAL calls, or a handler on the way returns success or returns without a report, the check
reports a violation with the call path from the entry point to the throw.'''
ASSUME = ['exceptions of library functions are those of their contract (allocation failures and out-of-range string positions are not considered)']
TRUST = ['the list of throwing library functions in vlib/exc.py']


def run(ctx):
    G = Graph()
    ent = G.entries()
    kinds = {}
    for n, why in sorted(ent.items()):
        f = G.fns[n]
        if 'msat/utils/' in f['file']:
            continue
        ctx.fn(f['dem'])
        kinds[why.split(' of ')[0].split(' by ')[0]] = kinds.get(why.split(' of ')[0].split(' by ')[0], 0) + 1
        esc = G.esc[n]
        key = f['dem'].split('(')[0]
        if esc:
            for t in esc:
                ctx.violation('%s/%s' % (key, t), '%s (%s) lets an exception of type %s reach GDAL: %s' % (key, why, tname(t), G.path(n, t)), '%s:%d' % (f['file'], f.get('line', 0)))
        else:
            ctx.good(key, 'no exception leaves it (%s)' % why)
        handlers(ctx, G, n, f, key, True)
    for k, v in kinds.items():
        ctx.count('entry points: ' + k, v)
    ctx.need(len(ent), 'functions that GDAL calls')
    # handlers of functions that the entry points reach
    seen, todo = set(), list(ent)
    while todo:
        n = todo.pop()
        if n in seen or n not in G.fns:
            continue
        seen.add(n)
        for c in G.fns[n]['calls']:
            todo += G.callees(c)
            todo += [a for a in c.get('fargs', [])]
    ctx.count('functions reachable from GDAL', len(seen))
    for n in sorted(seen - set(ent)):
        f = G.fns[n]
        if f.get('proj') and f['file'].startswith(('gdal/', 'msat/')) and not f['file'].startswith('msat/utils/') and 'rethrow' not in ''.join(c.get('c', '') for c in f['calls']):
            handlers(ctx, G, n, f, f['dem'].split('(')[0], False)


def tname(t):
    import subprocess
    if t.startswith('_ZTI'):
        return subprocess.run(['c++filt', '-t', t[4:]], capture_output=True, text=True).stdout.strip()
    return t


def handlers(ctx, G, n, f, key, entry):
    for h in f.get('handlers', []):
        if h.get('nested'):
            continue
        types = G.caught(f, h)
        if not types:
            continue
        rt = f['ft'].split(' (')[0].split('(')[0].strip()
        good = {'ptr': {'null'}, 'i1': {'0'}, 'i32': {'3', '4'} if entry else None}.get(rt)
        k = '%s/handler of %s' % (key, ', '.join(tname(p) if p != '*' else 'everything' for p in h['pad']))
        if good is not None and h['rets']:
            bad = [r for r in h['rets'] if r not in good]
            if '?' in bad:
                ctx.undecided(k + '/result', 'what it returns is not a constant')
            elif bad:
                ctx.violation(k + '/result', '%s returns %s after an exception' % (key, ', '.join(bad)), h['l'])
            else:
                ctx.good(k + '/result', 'returns failure')
        for t, l in sorted(types.items()):
            if any(G.reports(m, t) for m in h['must']):
                ctx.good(k + '/report/' + tname(t), 'reported by the handler')
                continue
            ok, at = G.selfreporting(t)
            if ok:
                ctx.good(k + '/report/' + tname(t), 'reported where it is raised')
            else:
                ctx.violation(k + '/report/' + tname(t), '%s drops an exception of type %s (from %s) without a report%s' % (key, tname(t), l, '; it is not reported at the throw in %s either' % at if at else ''), h['l'])
