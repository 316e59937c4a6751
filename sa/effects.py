"""Whole-program effects with the locks held: composed bottom-up over the modular analysis."""
from .mod import *

SINGLE = ('ptne::PTN_Engine', 'ptne::PTN_Engine::PTN_EngineImpProxy', 'ptne::PTN_EngineImp', 'ptne::EventLoop',
          'ptne::PlacesManager', 'ptne::TransitionsManager')
Eff = namedtuple('Eff', 'kind cls fld locks site fn info')
RD = {'rd': 0, 'thrrd': 0}
WR = {'wr': 1, 'thr': 1, 'thrset': 1}
ATOMIC = {'ald', 'ast', 'armw', 'axchg', 'acas'}


class Effects:
    def __init__(self, M):
        self.M, self.p = M, M.p
        self.memo = {}
        self.stack = []
        self.thread_summaries = {}

    def field_type(self, cls, fld):
        f = self.p.field(cls, fld)
        return f['t'] if f else None

    def owner(self, I, loc, fcls):
        """the engine-class object and field a location belongs to: (base, class, field)"""
        best = None
        l = loc
        while True:
            if l[0] == '.':
                c = I.loc_cls.get(l)
                if c is None and l[1] == ('O', 'self') and fcls and self.p.field(fcls, l[2]):
                    c = fcls
                if c is None:
                    c = self.class_of(I, l[1], fcls)
                if c is not None and self.p.record(c) and self.has_state(c):
                    best = (l[1], self.canon_cls(I, l[1], c, fcls), l[2])
                l = l[1]
            elif l[0] == '[]':
                o = origin(l[1])
                if o is None:
                    return best
                l = o
            elif l[0] == '*':
                return best
            else:
                return best

    def pointee(self, I, loc, fcls):
        """the field whose pointer leads to a location"""
        while loc[0] in ('.', '[]'):
            loc = loc[1] if loc[0] == '.' else (origin(loc[1]) or ('?',))
        if loc[0] != '*':
            return None
        o = origin(loc[1])
        return self.owner(I, o, fcls) if o else None

    def class_of(self, I, loc, fcls):
        if loc == ('O', 'self'):
            return fcls
        if loc[0] == '.':
            b = self.class_of(I, loc[1], fcls)
            f = self.p.field(b, loc[2]) if b else None
            return self.p.strip(f['t']) if f else None
        return I.objclass.get(loc) if hasattr(I, 'objclass') else None

    def canon_cls(self, I, base, c, fcls):
        """inherited fields belong to the class of the object"""
        if base == ('O', 'self') and fcls and self.p.derives(fcls, c):
            return fcls
        return c

    def has_state(self, c):
        """does the class belong to the engine's shared state (and is not a plain value type)"""
        n = self.p.tmpl(c)
        return n in PUB or c in PUB or n.startswith('ptne::ManagerBase') or n == 'ptne::PTN_Engine'

    def lock_token(self, I, m, mode, fcls, base=None):
        o = self.owner(I, m, fcls)
        if o is None:
            return ('F', '?', short_loc(m), mode)
        b, c, f = o
        if c in SINGLE:
            return ('S', c, f, mode)
        return ('own' if base is not None and b == base else 'F', c, f, mode)

    def of(self, s, cls=None):
        """effects of a summary, including everything it calls; each with the locks held there"""
        key = id(s)
        if key in self.memo:
            return self.memo[key]
        if key in self.stack:
            return frozenset()
        self.stack.append(key)
        I, p = s.interp, self.p
        fcls = cls or s.f.get('cls')
        out = set()
        if I is not None:
            seen = set()
            for st, v in s.paths:
                evs = None
                for e in flat(st.events()):
                    if e.kind in ('join', 'wr', 'call'):
                        evs = evs or list(flat(st.events()))
                        self.event(e, I, fcls, out, self.observed(I, fcls, st, evs, e))
                        continue
                    if id(e) in seen:
                        continue
                    seen.add(id(e))
                    self.event(e, I, fcls, out)
        self.stack.pop()
        r = frozenset(out)
        if not self.stack:
            self.memo[key] = r
        else:
            self.memo[key] = r
        return r

    def observed(self, I, fcls, st, evs, j):
        """atomic flags that were seen false on this path before event j: (class, field)"""
        out = set()
        for e in evs:
            if e is j:
                break
            if e.kind == 'ald' and st.pc.get(('t', e.b)) is False:
                o = self.owner(I, e.a, fcls)
                if o:
                    out.add(o[1:])
            elif e.kind == 'call' and st.pc.get(('t', ('init', ('R', e.b[2], e.a)))) is False:
                o = self.flag_of(e.a)
                if o:
                    out.add(o)
        return frozenset(out)

    def flag_of(self, key):
        """the atomic flag that an operation answers with"""
        g = self.p.functions.get(key)
        if g is None or 'b' not in g:
            return None
        out = set()
        for st, v in self.M.summary(g).paths:
            if isinstance(v, Throw):
                continue
            if v[0] == 'aload':
                o = self.owner(self.M.summary(g).interp, v[1], g.get('cls'))
                out.add(o[1:] if o else None)
            elif v[0] == 'init' and v[1][0] == 'R':
                out.add(self.flag_of(v[1][2]))
            else:
                out.add(None)
        return out.pop() if len(out) == 1 else None

    def event(self, e, I, fcls, out, flags=frozenset()):
        k = e.kind
        if k in RD or k in WR or k in ATOMIC:
            if k in ('thr', 'thrset', 'thrrd') and False:
                return
            o = self.owner(I, e.a, fcls)
            if o is None and root(e.a)[0] == 'G':
                # state of the whole program: only a lock of the whole program protects it
                g = [m for m, md in e.held if root(m)[0] == 'G']
                out.add(Eff('gw' if k in WR else 'gr', 'static', str(root(e.a)[1]).split('@')[0], frozenset(('G', str(m), '', '') for m in g), e.site, e.fn, None))
                return
            if o is None:
                q = self.pointee(I, e.a, fcls) if k == 'wr' else None
                if q:
                    out.add(Eff('pw', q[1], q[2], frozenset(self.lock_token(I, m, md, fcls, q[0]) for m, md in e.held), e.site, e.fn, None))
                return
            b, c, f = o
            locks = frozenset(self.lock_token(I, m, md, fcls, b) for m, md in e.held)
            kind = ('aw' if k != 'ald' else 'ar') if k in ATOMIC else ('w' if k in WR else 'r')
            out.add(Eff(kind, c, f, locks, e.site, e.fn, flags if k == 'wr' and flags else None))
        elif k in ('acq', 'rel'):
            o = self.owner(I, e.a, fcls)
            if o is None:
                return
            b, c, f = o
            locks = frozenset(self.lock_token(I, m, md, fcls, b) for m, md in e.held)
            if k == 'acq':
                out.add(Eff('acq', c, f, locks, e.site, e.fn, e.b))
        elif k in ('join', 'sleep', 'wait', 'cb', 'notify'):
            o = self.owner(I, e.a, fcls) if isinstance(e.a, tuple) and e.a and e.a[0] in ('.', '[]', '*') else None
            held = e.held
            if k == 'wait':
                held = tuple(h for h in held if h[0] != e.b[0])
            locks = frozenset(self.lock_token(I, m, md, fcls) for m, md in held)
            out.add(Eff(k, o[1] if o else None, o[2] if o else None, locks, e.site, e.fn, (e.b, flags) if k == 'join' else None))
        elif k == 'spawn':
            locks = frozenset(self.lock_token(I, m, md, fcls) for m, md in e.held)
            out.add(Eff('spawn', fcls, e.a, locks, e.site, e.fn, None))
        elif k == 'call':
            g = self.p.functions.get(e.a)
            if g is None or 'b' not in g:
                return
            this = e.b[0]
            same = this == ('O', 'self')
            add = set()
            for m, md in e.held:
                t = self.lock_token(I, m, md, fcls, ('O', 'self') if same else None)
                add.add(t)
            for f in self.of(self.M.summary(g)):
                locks = f.locks
                if add:
                    locks = frozenset(set(f.locks) | {(('F' if t[0] == 'own' and not (same and f.cls == fcls) else t[0]),) + t[1:] for t in add})
                f = f._replace(locks=locks)
                if flags and f.kind == 'w':
                    f = f._replace(info=(f.info or frozenset()) | flags)
                out.add(f)

    # ------------------------------------------------------------------ thread roots
    def roots(self):
        """{name: (effects, concurrent with itself)} for the public API and every thread that is spawned"""
        p, M = self.p, self.M
        out = {}
        todo = []
        api = set()
        n = 0
        for f in p.functions.values():
            if f.get('cls') == 'ptne::PTN_Engine' and f.get('access') == 'public' and 'b' in f and not f.get('lambda') \
                    and f.get('kind') not in ('ctor', 'dtor') and not f['bn'].startswith('~') and f['bn'] != 'PTN_Engine':
                api |= self.of(M.summary(f))
                n += 1
        if n < 15:
            raise AnalysisBroken('the public interface ptne::PTN_Engine has only %d analysed operations' % n)
        out['public API'] = api
        done = set()
        work = list(api)
        while work:
            e = work.pop()
            if e.kind != 'spawn' or (e.site, e.fld) in done:
                continue
            done.add((e.site, e.fld))
            ev = Ev('spawn', e.fld, None, e.site, (), e.fn)
            s = M.spawn_body(ev, e.cls)
            self.thread_summaries['thread started at %s:%s (%s)' % (e.site[0], e.site[1], e.fld[0])] = s
            effs = self.of(s, e.cls)
            out['thread started at %s:%s (%s)' % (e.site[0], e.site[1], e.fld[0])] = effs
            work += list(effs)
        self.napi = n
        return out


def short_loc(m):
    return str(m)[-60:]
