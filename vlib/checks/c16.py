import os
from .. import facts
from ..exc import Graph
from .c15 import tname
LEVEL = 'proof'
RULE = '''Call graph of the libraries, drivers and command-line tools with unwind edges, and ranges of integer divisors: where a library
function can call a function that ends the process, let an exception reach a noexcept boundary or a C callback, rethrow outside of a
handler or divide by an integer that can be zero, or an exception type can leave the main function of a tool, the check reports
a violation with the call path.'''
ASSUME = ['exceptions of library functions are those of their contract (allocation failures and out-of-range string positions are not considered)',
          'a member that divides is assigned before it divides']
TRUST = ['the list of throwing library functions in vlib/exc.py', 'the range analysis of LLVM']
ENDS = {'exit', 'abort', '_exit', '_Exit', 'quick_exit', '_ZSt9terminatev', '__assert_fail', 'raise', 'kill', '_ZSt10unexpectedv', 'llvm.trap'}


def mine(f):
    # the helpers of msat/utils that start other programs are not part of what reads images
    return f.get('proj') and not f['file'].startswith('msat/utils/')


def run(ctx):
    G = Graph()
    library(ctx, G, G.fns, 'the libraries and drivers')
    callbacks(ctx, G)
    divisions(ctx, G)
    d = facts.ir()
    n = 0
    for b in sorted(os.listdir(d)):
        if not (b.startswith('tools__') and b.endswith('.bc')):
            continue
        t = b[:-3]
        T = Graph(t.replace('__', '/'))
        name = t.replace('tools__', '').replace('__', '/')
        own = {k: v for k, v in T.fns.items() if k in T.tool}
        rethrow(ctx, T, own)
        boundary(ctx, T, own)
        divisions(ctx, T, own)
        f = T.fns.get('main')
        if f is None:
            continue
        n += 1
        ctx.fn('main of ' + name)
        if T.esc['main']:
            for ty in T.esc['main']:
                ctx.violation('%s/main/%s' % (name, ty), 'an exception of type %s leaves the main function of %s: %s' % (tname(ty), name, T.path('main', ty)), '%s:%d' % (f['file'], f.get('line', 0)))
        else:
            ctx.good(name + '/main', 'no exception leaves it')
    ctx.count('command-line tools', n)
    ctx.need(n, 'main functions of tools')


def library(ctx, G, fns, what):
    n = 0
    for k, f in sorted(fns.items()):
        if not mine(f):
            continue
        n += 1
        bad = [c for c in f['calls'] if c.get('c') in ENDS]
        for c in bad:
            ctx.violation('%s/ends' % f['dem'].split('(')[0], '%s can end the process with %s' % (f['dem'].split('(')[0], c['c'].replace('__assert_fail', 'a failed assertion')), c['l'])
        if not bad:
            ctx.good(k + '/ends', 'does not end the process')
    ctx.count('functions of ' + what, n)
    rethrow(ctx, G, fns)
    thrown(ctx, G, fns)
    boundary(ctx, G, fns)


def rethrow(ctx, G, fns):
    for k, f in sorted(fns.items()):
        if not mine(f):
            continue
        ctx.fn(f['dem'])
        for c in f['calls']:
            if c.get('c') == '__cxa_rethrow' and not c.get('h'):
                # every caller is in a handler
                callers = [(g, c2) for g in G.fns.values() for c2 in g['calls'] if c2.get('c') == k]
                bad = [(g, c2) for g, c2 in callers if not c2.get('h')]
                for g, c2 in bad:
                    ctx.violation('%s/rethrow' % g['dem'].split('(')[0], '%s rethrows, but there is no exception in flight where %s calls it' % (f['dem'].split('(')[0], g['dem'].split('(')[0]), c2['l'])
                if not bad:
                    ctx.good(k + '/rethrow', '%d callers, all of them in a handler' % len(callers))


def thrown(ctx, G, fns):
    for k, f in sorted(fns.items()):
        if not mine(f):
            continue
        for c in f['calls']:
            if c.get('c') == '__cxa_throw':
                if c.get('local'):
                    ctx.violation('%s/thrown pointer' % f['dem'].split('(')[0], '%s throws a pointer to something that is not static' % f['dem'].split('(')[0], c['l'])
                else:
                    ctx.good(k + '/thrown', tname(c.get('ti', '')))


def boundary(ctx, G, fns):
    """noexcept functions and cleanups"""
    for k, f in sorted(fns.items()):
        if not mine(f):
            continue
        for c in f['calls']:
            if c.get('term'):
                r = G.raised(f, c)
                for t, g in r.items():
                    p = G.path(g, t) if g in G.fns else ''
                    ctx.violation('%s/terminate/%s' % (f['dem'].split('(')[0], t), 'an exception of type %s ends the process at a noexcept boundary of %s%s' % (tname(t), f['dem'].split('(')[0], ': ' + p if p else ''), c['l'])
                if not r:
                    ctx.good('%s/terminate/%s' % (k, c['l']), 'nothing is raised at the noexcept boundary')


def callbacks(ctx, G):
    for n, why in sorted(G.entries().items()):
        f = G.fns[n]
        if not mine(f) or not why.startswith('passed to'):
            continue
        if G.esc[n]:
            for t in G.esc[n]:
                ctx.violation('%s/callback/%s' % (f['dem'].split('(')[0], t), 'an exception of type %s leaves a function %s: %s' % (tname(t), why, G.path(n, t)), f['file'])
        else:
            ctx.good(n + '/callback', why)


def divisions(ctx, G, fns=None):
    ms = {}
    for m in G.j.get('memberstores', []):
        ms.setdefault(m['member'], []).append(m)
    for k, f in sorted((fns or G.fns).items()):
        if not mine(f):
            continue
        name = f['dem'].split('(')[0]
        for d in f.get('divs', []):
            ctx.count('integer divisions')
            key = '%s/division' % name
            if d['nz']:
                ctx.good(key, 'the divisor is not zero in ' + d['l'])
            elif d.get('call') and 'retnz' in d:
                if d['retnz']:
                    ctx.good(key, 'the divisor returned by a function is not zero')
                else:
                    ctx.violation(key + '/' + d['call'], '%s divides by what %s returns, which can be zero' % (name, G.fns[d['call']]['dem'].split('(')[0]), d['l'])
            elif d.get('member'):
                st = ms.get(d['member'], [])
                bad = [s for s in st if not s['nz']]
                if st and not bad:
                    ctx.good(key, 'the member that divides is not zero where it is assigned')
                elif bad:
                    ctx.violation(key + '/' + d['member'], '%s divides by a member that is assigned a value that can be zero in %s' % (name, bad[0]['l']), d['l'])
                else:
                    ctx.violation(key + '/' + d['member'], '%s divides by a value that is not checked against zero' % name, d['l'])
            elif d.get('checked'):
                ctx.undecided(key, 'a divisor that the range analysis does not bound in ' + d['l'])
            else:
                ctx.violation(key, '%s divides by an integer that can be zero' % name, d['l'])
