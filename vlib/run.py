"""Check runner: obligations, known findings, evidence and the exit protocol."""
import json, os, sys, time, traceback, importlib, fnmatch
from . import facts

VERIF = facts.VERIF
KNOWN = os.path.join(VERIF, 'KNOWN_FINDINGS')


def known_findings(prop):
    out = {}
    if os.path.exists(KNOWN):
        for l in open(KNOWN):
            l = l.strip()
            if l.startswith('known:'):
                head, _, what = l[6:].partition('::')
                kv = dict(x.split('=', 1) for x in head.split())
                if kv.get('property') == prop:
                    out[kv['key']] = what.strip()
    return out


class Ctx:
    """What one check decided.  An obligation is one instance of the rule; it is discharged, violated or
    undecided (outside of what the rule can read; reported in the evidence, never an alarm)."""

    def __init__(self, prop, tier):
        self.prop, self.tier = prop, tier
        self.ok, self.bad, self.und = [], [], []
        self.funcs, self.counts, self.notes = set(), {}, []
        self.assume = []

    def thorough(self):
        return self.tier == 'thorough'

    def good(self, key, text=''):
        self.ok.append((key, text))

    def violation(self, key, text, where=''):
        self.bad.append((key, text, where))

    def undecided(self, key, text):
        self.und.append((key, text))

    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n

    def fn(self, f):
        self.funcs.add(f if isinstance(f, str) else f.dem)

    def part(self, key, fn, *args):
        """one part of a check: where the analysis gives up, the rest goes on"""
        try:
            return fn(*args)
        except facts.Broken:
            raise
        except Exception as e:
            traceback.print_exc()
            self.undecided(key, 'the analysis gives up: %s %s' % (type(e).__name__, str(e)[:80]))

    def need(self, n, what):
        """fewer instances than confirmed by hand: the rule has lost its anchors"""
        if n <= 0:
            raise facts.Broken('no instance of: ' + what)


def main(prop, tier):
    t0 = time.time()
    mod = importlib.import_module('vlib.checks.' + prop.lower())
    ctx = Ctx(prop, tier)
    try:
        ctx.part('analysis', mod.run, ctx)
    except facts.Broken as e:
        print('analysis broken: %s' % e)
        return 2
    known = known_findings(prop)
    seen, new = {}, []
    for key, text, where in ctx.bad:
        if key in known:
            seen.setdefault(key, []).append((text, where))
        else:
            new.append((key, text, where))
    n = len(ctx.ok) + len(ctx.bad) + len(ctx.und)
    if not len(ctx.ok) + len(ctx.bad):
        print('analysis broken: no obligation was generated')
        return 2
    level = getattr(mod, 'LEVEL', 'other')
    rule = ' '.join(mod.RULE.split())
    cov = {
        'explanation': rule,
        'rule': rule,
        'obligations': n, 'discharged': len(ctx.ok), 'undecided': len(ctx.und),
        'violated_known': sum(len(v) for v in seen.values()), 'violated': len(new),
        'functions_analysed': len(ctx.funcs),
        'functions': sorted(ctx.funcs)[:400],
        'instances': ctx.counts,
        'samples': [('%s: %s' % o).rstrip(': ') for o in ctx.ok[:25]],
        'undecided_obligations': ['%s: %s' % u for u in ctx.und[:60]],
        'notes': ctx.notes,
        'checker_cmd': 'bin/check %s%s' % (prop, ' --thorough' if tier == 'thorough' else ''),
        'trusted_base': ['clang 18 lowering of the source to LLVM IR and its debug type records', 'the LLVM 18 scalar passes listed in tool/src/irtool.cpp',
                         'vlib/*.py (the analysis itself)'] + getattr(mod, 'TRUST', []),
    }
    ev = {'property': prop, 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED', '1') or 1), 'level': level, 'coverage': cov,
          'assumptions': ctx.assume + getattr(mod, 'ASSUME', []), 'wall_s': round(time.time() - t0, 2), 'violations': len(new)}
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    rep = os.path.join(VERIF, 'evidence', '%s.violations.txt' % prop)
    with open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
        f.write('\n')
    for key, what in known.items():
        if key in seen:
            print('KNOWN-FINDING: property=%s %s [%s]' % (prop, what, key))
        else:
            print('note: listed finding %s no longer occurs' % key)
    print('%s: %d obligations, %d discharged, %d undecided, %d known, %d violated (%.1f s)' %
          (prop, n, len(ctx.ok), len(ctx.und), cov['violated_known'], len(new), time.time() - t0))
    if new:
        with open(rep, 'w') as f:
            for key, text, where in new:
                f.write('%s\n  %s\n  at %s\n' % (key, text, where))
        for key, text, where in new[:40]:
            print('  %s: %s%s' % (key, text, ' (at %s)' % where if where else ''))
        print('VIOLATION property=%s replay=%s' % (prop, rep))
        return 1
    if os.path.exists(rep):
        os.unlink(rep)
    return 0
