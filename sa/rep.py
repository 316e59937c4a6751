"""Verdicts, evidence and reports of the checks."""
import json, os, sys, time, re

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Ctx:
    def __init__(self, pid, prog, tier='quick', seed=1):
        self.pid, self.p, self.tier, self.seed = pid, prog, tier, seed
        self.t0 = time.time()
        self.violations = []      # (key, message, site, trace)
        self.inconclusive = []
        self.obl = {}             # obligation kind -> [checked, held]
        self.samples = []
        self.counts = {}
        self.rules = []
        self.assumptions = []
        self.anchors = []

    def rule(self, text):
        self.rules.append(text)

    def assume(self, text):
        if text not in self.assumptions:
            self.assumptions.append(text)

    def anchor(self, what, site=None):
        self.anchors.append('%s%s' % (what, ' (%s:%s)' % tuple(site) if site else ''))

    def check(self, kind, ok, key, msg, site=None, trace=None, sample=None):
        """one obligation; ok None = the analysis cannot tell"""
        o = self.obl.setdefault(kind, [0, 0])
        o[0] += 1
        if ok:
            o[1] += 1
            if sample and len(self.samples) < 12:
                self.samples.append(sample)
        elif ok is None:
            self.inc('%s: %s%s' % (kind, msg, ' at %s:%s' % tuple(site) if site else ''))
        else:
            self.viol(key, msg, site, trace)
        return ok

    def viol(self, key, msg, site=None, trace=None):
        if not any(v[0] == key for v in self.violations):
            self.violations.append((key, msg, site, trace))

    def inc(self, msg):
        if msg not in self.inconclusive:
            self.inconclusive.append(msg)

    def count(self, k, n=1):
        self.counts[k] = self.counts.get(k, 0) + n

    def finish(self):
        known = load_known(self.pid)
        new, old = [], []
        for v in self.violations:
            (old if v[0] in known else new).append(v)
        for v in old:
            print('KNOWN-FINDING: property=%s %s' % (self.pid, v[1]))
        cov = {'explanation': 'Static analysis of the current source tree. Rules applied: ' + ' | '.join(self.rules),
               'rules': self.rules,
               'obligations_by_kind': {k: {'checked': a, 'held': b} for k, (a, b) in sorted(self.obl.items())},
               'obligations': sum(a for a, b in self.obl.values()),
               'discharged': sum(b for a, b in self.obl.values()),
               'inconclusive': self.inconclusive,
               'anchors': self.anchors,
               'samples': self.samples,
               'translation_units': len(self.p.files),
               'functions_in_program': len([f for f in self.p.functions.values() if 'b' in f])}
        cov.update(self.counts)
        ev = {'property': self.pid, 'tier': self.tier, 'seed': self.seed, 'level': 'other', 'coverage': cov,
              'assumptions': self.assumptions, 'wall_s': round(time.time() - self.t0, 3), 'violations': len(new)}
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', self.pid + '.json'), 'w') as fh:
            json.dump(ev, fh, indent=1)
        n = sum(a for a, b in self.obl.values())
        print('%s: %d obligations, %d held, %d inconclusive, %d violations (%.1f s)' % (
            self.pid, n, cov['discharged'], len(self.inconclusive), len(new), ev['wall_s']))
        for i in self.inconclusive[:10]:
            print('  inconclusive:', i)
        if n == 0:
            print('analysis broken: no obligation was generated for %s' % self.pid)
            return 2
        if new:
            d = os.path.join(VERIF, 'build', 'replay')
            os.makedirs(d, exist_ok=True)
            path = os.path.join(d, self.pid + '.txt')
            with open(path, 'w') as fh:
                for k, m, site, tr in new:
                    fh.write('[%s] %s\n' % (k, m))
                    if site:
                        fh.write('  at %s:%s\n' % tuple(site))
                    for l in tr or []:
                        fh.write('    ' + l + '\n')
                    fh.write('\n')
            for k, m, site, tr in new:
                print('  %s%s  [%s]' % (('%s:%s: ' % tuple(site)) if site else '', m, k))
            print('VIOLATION property=%s replay=%s' % (self.pid, path))
            return 1
        return 0


def load_known(pid):
    """keys of the findings that are recorded instead of repaired (lines 'finding: property=<id> key=<key> ...')"""
    out = set()
    try:
        with open(os.path.join(VERIF, 'known_findings.txt')) as fh:
            for l in fh:
                m = re.match(r'finding: property=(\S+) key=(\S+)', l)
                if m and m.group(1) == pid:
                    out.add(m.group(2))
    except FileNotFoundError:
        pass
    return out


def show_site(s):
    return '%s:%s' % tuple(s) if s else '?'


def show_trace(st, v=None, limit=80):
    """the events of a trace, for a report"""
    out = []

    def go(evs, ind):
        for e in evs:
            if e.kind in ('rd',):
                continue
            if e.kind == 'loop':
                out.append('%sloop over %s at %s' % (' ' * ind, short(e.a.dom), show_site(e.site)))
                for b in e.a.back:
                    go(b[1], ind + 4)
                continue
            h = '+'.join(short(m) + ('/shared' if mode == 's' else '') for m, mode in e.held)
            out.append('%s%-9s %s %s  [%s]%s' % (' ' * ind, e.kind, short(e.a), short(e.b) if e.b is not None else '',
                                                show_site(e.site), ' holding ' + h if h else ''))
    go(st.events(), 0)
    for a, b in st.pc.items():
        out.append('given %s: %s' % ('true' if b else 'false', short(a)))
    if v is not None:
        out.append('ends with %s' % (short(v) if isinstance(v, tuple) else v))
    return out[:limit]


def short(v, n=160):
    s = str(v)
    s = re.sub(r"\('init', ", '(~', s).replace("('O', 'self')", 'self').replace("'", '')
    return s if len(s) <= n else s[:n] + '...'
