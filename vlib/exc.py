"""Which exceptions can leave which function: fixpoint over the call graph of the linked bitcode."""
import re
from . import facts

PARENT = {'St13runtime_error': 'St9exception', 'St11logic_error': 'St9exception', 'St12out_of_range': 'St11logic_error', 'St16invalid_argument': 'St11logic_error',
          'St12length_error': 'St11logic_error', 'St12domain_error': 'St11logic_error', 'St11range_error': 'St13runtime_error', 'St14overflow_error': 'St13runtime_error',
          'St12system_error': 'St13runtime_error', 'St9bad_alloc': 'St9exception', 'St8bad_cast': 'St9exception', 'NSt8ios_base7failureB5cxx11E': 'St12system_error'}
# library functions that throw by their contract (allocation failures are not considered)
THROWERS = [(r'^std::__throw_out_of_range', '_ZTISt12out_of_range'), (r'^std::__throw_invalid_argument', '_ZTISt16invalid_argument'),
            (r'^std::__throw_runtime_error', '_ZTISt13runtime_error'), (r'^std::__throw_system_error', '_ZTISt12system_error'), (r'^std::__throw_domain_error', '_ZTISt12domain_error'),
            (r'^std::__throw_range_error', '_ZTISt11range_error'), (r'^std::__throw_overflow_error', '_ZTISt14overflow_error'), (r'^std::__throw_bad_cast', '_ZTISt8bad_cast'),
            (r'^std::__throw_bad_variant|^std::__throw_bad_optional', '_ZTISt9exception'), (r'^std::filesystem::', '_ZTINSt10filesystem7__cxx1116filesystem_errorE'),
            (r'^std::__cxx11::basic_string<.*>::at\(unsigned long', '_ZTISt12out_of_range'),
            (r'^std::thread::_M_start_thread', '_ZTISt12system_error'),
            (r'^__cxa_bad_cast', '_ZTISt8bad_cast')]


class Graph:
    def __init__(self, tool=None):
        """the libraries and drivers, or one command-line tool together with them"""
        self.j = facts.excdump()
        if tool:
            t = facts.excdump(tool)
            have = {f['name'] for f in self.j['functions']}
            self.tool = {f['name'] for f in t['functions'] if f['name'] not in have}
            self.j = {'functions': self.j['functions'] + [f for f in t['functions'] if f['name'] not in have], 'vtables': dict(t['vtables'], **self.j['vtables']),
                      'typeinfo': dict(t['typeinfo'], **{k: v for k, v in self.j['typeinfo'].items() if v or k not in t['typeinfo']}), 'declared': sorted(set(self.j['declared'] + t['declared']))}
        self.fns = {f['name']: f for f in self.j['functions']}
        self.parents = {}
        for k, v in self.j['typeinfo'].items():
            self.parents[k] = list(v)
        for k, v in PARENT.items():
            self.parents.setdefault('_ZTI' + k, [])
            if '_ZTI' + v not in self.parents['_ZTI' + k]:
                self.parents['_ZTI' + k].append('_ZTI' + v)
        self.slots = {}
        for vt, groups in self.j['vtables'].items():
            for g in groups:
                for n, f in enumerate(g[2:]):
                    # (the process and file wrappers of msat/utils have no base class in common with the rest)
                    if f and f in self.fns and not self.fns[f]['file'].startswith('msat/utils/'):
                        self.slots.setdefault((n, self.fns[f]['ft']), set()).add(f)
        self.ext = {}
        import subprocess
        self.escapes()

    def isa(self, t, base):
        if base == '*' or t == base:
            return True
        return any(self.isa(p, base) for p in self.parents.get(t, []))

    def callees(self, c):
        if 'c' in c:
            return [c['c']]
        if 'slot' in c:
            return self.slots.get((c['slot'], c['ft']), ())
        return []

    def raised(self, f, c):
        """types that the call site itself raises -> next function in the chain"""
        out = {}
        n = c.get('c', '')
        if n == '__cxa_throw':
            out[c.get('ti') or '?'] = None
            return out
        if n == '__cxa_rethrow':
            for c2 in f['calls']:
                if c2 is not c and c2.get('pad'):
                    for t in self.raised(f, c2) if c2.get('c') != '__cxa_rethrow' else ():
                        if any(p != 'filter' and self.isa(t, p) for p in c2['pad']):
                            out.setdefault(t, None)
            return out
        if c.get('nt') and not c.get('nr'):
            return out
        for g in self.callees(c):
            if g in self.fns:
                for t in self.esc[g]:
                    out.setdefault(t, g)
            else:
                t = self.external(g)
                if t:
                    out.setdefault(t, g)
        return out

    def external(self, n):
        if n not in self.ext:
            d = self.dem(n)
            self.ext[n] = next((t for r, t in THROWERS if re.search(r, d)), None)
        return self.ext[n]

    def dem(self, n):
        if not hasattr(self, '_dem'):
            import subprocess
            names = self.j['declared']
            r = subprocess.run(['c++filt'], input='\n'.join(names), capture_output=True, text=True).stdout.split('\n')
            self._dem = dict(zip(names, r))
        return self._dem.get(n, n)

    def escapes(self):
        self.esc = {n: {} for n in self.fns}
        work = True
        rounds = 0
        while work and rounds < 60:
            work = False
            rounds += 1
            for n, f in self.fns.items():
                e = self.esc[n]
                for c in f['calls']:
                    if c.get('term'):
                        continue
                    for t, g in self.raised(f, c).items():
                        if t in e:
                            continue
                        pad = c.get('pad')
                        if pad is not None and any(p != 'filter' and self.isa(t, p) for p in pad):
                            continue
                        e[t] = (c, g)
                        work = True

    def path(self, n, t, depth=0):
        c, g = self.esc[n][t]
        s = c['l']
        if g and g in self.fns and depth < 12:
            return s + ' -> ' + self.path(g, t, depth + 1)
        return s + (' (%s)' % self.dem(g).split('(')[0] if g else '')

    # ---- entry points that foreign code calls
    def derived(self, base):
        """vtables of classes that derive from base"""
        out = []
        for vt in self.j['vtables']:
            t = vt.replace('_ZTV', '_ZTI', 1)
            if self.isa(t, base) and t != base:
                out.append(vt)
        return out

    def entries(self):
        """functions that GDAL (or another C library) calls: -> name: why"""
        out = {}
        for n, f in self.fns.items():
            if re.search(r'^GDALRegister_', f['dem']):
                if f.get('proj'):
                    out[n] = 'registration'
                for s in f['stores']:
                    out[s] = 'stored by ' + f['dem']
            for c in f['calls']:
                for a in c.get('fargs', []):
                    if c.get('c') and c['c'] not in self.fns and not re.match(r'_ZSt|_ZNSt|_ZNSolsE|_ZNKSt|_Z.*St6thread|__cxa_', c['c']):
                        out[a] = 'passed to ' + self.dem(c['c'])
        for base in ('_ZTI11GDALDataset', '_ZTI14GDALRasterBand'):
            for vt in self.derived(base):
                for g in self.j['vtables'][vt]:
                    for k, x in enumerate(g[2:]):
                        if x in self.fns and self.fns[x].get('proj') and self.overrides(x, base):
                            out[x] = 'virtual function of ' + vt
        return {n: w for n, w in out.items() if n in self.fns and self.fns[n].get('proj')}

    GDALV = None
    def overrides(self, x, base):
        """project virtual functions that GDAL itself may call: everything but the ones only declared by project classes"""
        return not re.search(r'::(init|create)\(', self.fns[x]['dem'])

    # ---- reports of a failure
    def must(self, n):
        return set(self.fns[n].get('must', [])) if n in self.fns else set()

    def reports(self, n, t, depth=0):
        """every path through n reports an error when the exception in flight is of type t"""
        if n in ('CPLError', 'CPLErrorV'):
            return True
        f = self.fns.get(n)
        if f is None or depth > 4:
            return False
        if any(self.reports(m, t, depth + 1) for m in self.must(n) if m != n):
            return True
        if any(c.get('c') == '__cxa_rethrow' and not c.get('h') for c in f['calls']):
            for h in f.get('handlers', []):
                if any(self.isa(t, p) for p in h['pad']):
                    # handlers are listed by block; the most specific one is the first written
                    pass
            hs = [h for h in f['handlers'] if any(self.isa(t, p) for p in h['pad'])]
            hs.sort(key=lambda h: ('*' in h['pad']))
            return bool(hs) and any(self.reports(m, t, depth + 1) for m in hs[0]['must'])
        return False

    def selfreporting(self, t):
        """every throw of this type comes after a report -> (bool, a throw that does not)"""
        n = 0
        for f in self.fns.values():
            for c in f['calls']:
                if c.get('c') == '__cxa_throw' and c.get('ti') == t:
                    n += 1
                    if not any(self.reports(b, t) for b in c.get('before', [])):
                        return False, c['l']
        return n > 0, ''

    def caught(self, f, h):
        """types that reach a handler -> an example of where they come from"""
        out = {}
        for c in f['calls']:
            if not c.get('pad'):
                continue
            for t, g in self.raised(f, c).items():
                if any(self.isa(t, p) for p in h['pad']) and any(p != 'filter' and self.isa(t, p) for p in c['pad']):
                    out.setdefault(t, c['l'])
        # types that an earlier, more specific handler of the function takes
        if '*' in h['pad']:
            for h2 in f['handlers']:
                if h2 is not h and '*' not in h2['pad']:
                    for t in list(out):
                        if any(self.isa(t, p) for p in h2['pad']):
                            del out[t]
        return out
