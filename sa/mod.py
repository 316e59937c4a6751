"""Modular analysis: the public operations of the engine's classes are analysed one at a time (private helpers are
inlined); a call of another such operation is one 'call' event, with the callee's exits and writes taken from its
own analysis."""
from .core import *
from .core import norm, heap_ptrs

PUB = {
    'ptne::Place': 'enterPlace exitPlace setNumberOfTokens getNumberOfTokens isInputPlace getName getOnEnterActionName '
                   'getOnExitActionName isOnEnterActionInExecution blockStartingOnEnterActions placeProperties setActionsExecutor',
    'ptne::Transition': 'getName execute isEnabled getActivationArcs getDestinationArcs getAdditionalActivationConditions '
                        'getInhibitorArcs getTransitionProperties addArc removeArc',
    'ptne::PlacesManager': 'contains insert clear getPlace clearInputPlaces printState setActionsExecutor getNumberOfTokens '
                           'incrementInputPlace getPlacesProperties getPlaces',
    'ptne::TransitionsManager': 'contains insert clear collectEnabledTransitionsRandomly getTransition getTransitionsProperties',
    'ptne::ManagedContainer': 'addItem getItem getItems',
    'ptne::JobQueue': 'activate deactivate isActive addJob',
    'ptne::EventLoop': 'isRunning stop start notifyNewEvent setSleepDuration getSleepDuration',
    'ptne::PTN_EngineImp': 'clearInputPlaces clearNet createTransition createPlace isEventLoopRunning stop registerAction '
                           'registerCondition getNumberOfTokens incrementInputPlace setActionsThreadOption getActionsThreadOption '
                           'printState execute executeInt getNewInputReceived setNewInputReceived enabledTransitions '
                           'setEventLoopSleepDuration getEventLoopSleepDuration addArc removeArc getPlacesProperties '
                           'getTransitionsProperties',
    'ptne::PTN_Engine::PTN_EngineImpProxy': 'setEventLoopSleepDuration getEventLoopSleepDuration addArc removeArc clearNet '
                            'getPlacesProperties getTransitionsProperties createTransition createPlace registerAction '
                            'registerCondition execute stop getNumberOfTokens incrementInputPlace printState '
                            'isEventLoopRunning setActionsThreadOption getActionsThreadOption',
    'ptne::IActionsExecutor': 'executeAction',
    'ptne::SingleThreadExecutor': 'executeAction',
    'ptne::DetachedExecutor': 'executeAction',
    'ptne::JobQueueExecutor': 'executeAction',
    'ptne::IPTN_EngineEL': 'executeInt getActionsThreadOption getNewInputReceived',
    'ptne::ActionsExecutorFactory': 'createExecutor',
}
UNITS = {c + '::' + m for c, ms in PUB.items() for m in ms.split()}


def base_exc(p, t):
    return 'ptne::PTN_Exception' if p.derives(t, 'ptne::PTN_Exception') else t


class Summary:
    __slots__ = ('f', 'paths', 'throws', 'writes', 'interp', 'thrown')


class Modular:
    def __init__(self, prog, units=UNITS, inline=()):
        self.p = prog
        self.units = set(units) - set(inline)
        self.cache = {}
        self.active = []
        self.all_virtual()

    def all_virtual(self):
        pass

    def interp(self, extra=None, inline=()):
        op = {q: self.handle for q in self.units if q not in inline}
        op.update(extra or {})
        I = Interp(self.p, opaque=op)
        return I

    def summary(self, f):
        k = f['key']
        s = self.cache.get(k)
        if s is not None:
            return s
        if k in self.active:
            s = Summary()
            s.f, s.paths, s.throws, s.writes, s.interp, s.thrown = f, [], set(), set(), None, set()
            return s
        self.active.append(k)
        q = norm(f['n'])
        I = self.interp(inline=(q,) if not self.overloaded(f) else ())
        st = St()
        s = Summary()
        s.f, s.interp = f, I
        I.this_class = {f['cls']: ('O', 'self')} if f.get('cls') else {}
        s.paths = I.start(f, ('O', 'self'), I.sym_args(f, st), st)
        s.thrown = {v.typ for _, v in s.paths if isinstance(v, Throw)}
        s.throws = {base_exc(self.p, t) for t in s.thrown}
        s.writes = set()
        for st, v in s.paths:
            for e in flat(st.events()):
                if e.kind in ('wr', 'ast', 'armw', 'axchg', 'acas') or e.kind == 'drop':
                    fn = fieldname(e.a)
                    if fn:
                        s.writes.add(fn)
                elif e.kind == 'call':
                    g = self.p.functions[e.a]
                    if 'b' in g:
                        s.writes |= self.summary(g).writes
        self.active.pop()
        self.cache[k] = s
        return s

    def spawn_body(self, ev, cls, inline=(), mem=None):
        """analyses what a spawned thread does, starting from an arbitrary state of the spawning object"""
        kind, callee, args, _ = ev.a
        key = ('spawn', ev.site, callee, args, tuple(sorted(inline)))
        s = self.cache.get(key)
        if s is not None:
            return s
        I = self.interp(inline=inline)
        I.this_class = {cls: ('O', 'self')} if cls else {}
        st = St()
        st.mem.update(mem or {})
        args = list(args)
        nb, g = 0, None
        c = callee
        while c[0] == 'bindf':
            nb += len(c[2])
            c = c[1]
        if c[0] == 'fn':
            g = self.p.functions.get(c[1])
            if g is not None and g.get('cls') and not g.get('static'):
                nb -= 1
        elif c[0] == 'clo':
            g = next((self.p.functions[o] for o in c[1] if o in self.p.functions), None)
        if kind == 'jthread' and g is not None and len(g['p']) == nb + len(args) + 1:
            args = [('init', ('O', 'stop_token'))] + args
        for v in (callee, tuple(args)):
            self.seed(I, st, v)
        root = Frame(0, {'n': '<thread>', 'l': ev.site, 'p': []}, None, None, 0, None)
        s = Summary()
        s.f, s.interp = (g or {'n': '<thread>', 'l': ev.site, 'key': None}), I
        s.paths = I.call_value(callee, args, st, root, ev.site)
        s.thrown = {v.typ for _, v in s.paths if isinstance(v, Throw)}
        s.throws = set(s.thrown)
        s.writes = set()
        self.cache[key] = s
        return s

    def seed(self, I, st, v):
        for h in list(I_heaps(v)):
            pass

    def snapshot(self, I, st, a, t, fr, site):
        """the value of an argument at the time of the call"""
        if a[0] == 'ref' and a[1][0] == 'lit':
            return a[1][1]
        if a[0] == 'ref' and root(a[1])[0] in ('L', 'tmp'):
            return I.load(st, a[1], t, fr, site, True)
        return a

    def overloaded(self, f):
        """another overload of the same name is called from here: keep the name opaque except the entry itself"""
        return len([g for g in self.p.find(f['n'])]) > 1 and False

    def handle(self, I, st, this, args, fr, site, g):
        key = g.get('key') or g['f']
        n = next(I.ids)
        I.argvals[n] = tuple(self.snapshot(I, st, a, t, fr, site) for a, t in zip(args, g.get('pt') or [p['t'] for p in g.get('p', [])]))
        I.emit(st, 'call', key, (this, tuple(args), n), site, fr)
        f = self.p.functions.get(key)
        if f is None or 'b' not in f:
            return [(st, I.fresh('ret'))]
        s = self.summary(f)
        if s.writes:
            for k in [k for k in st.mem if fieldname(k) in s.writes and st.mem[k][0] != 'ref' and k[0] in ('.', '[]')]:
                st.mem[k] = ('sym', 'hv', next(I.ids), k)
            for t, owner in getattr(I, 'this_class', {}).items():
                if this != owner:
                    continue
                for fl in I.p.fields(t) or []:
                    l = ('.', owner, fl['name'])
                    if fl['name'] in s.writes and l not in st.mem and not I.p.records.get(I.p.strip(fl['t'])) \
                            and I.tm(fl['t']) != 'std::atomic' and not fl['t'].startswith('const '):
                        st.mem[l] = ('sym', 'hv', next(I.ids), l)
        out = []
        for t in sorted(s.throws):
            s2 = st.copy()
            I.emit(s2, 'callthrow', key, (this, tuple(args), n, t), site, fr)
            out.append((s2, Throw(t, None, site, fr.fn['n'] if fr else None)))
        rt = f['rt']
        if s.paths and all(isinstance(v, Throw) for _, v in s.paths):
            return out
        if rt == 'void':
            v = ('void',)
        elif self.p.tinfo(rt).get('cat') in ('ref', 'rref'):
            v = ('ref', ('R', n, key))
        else:
            v = I.load(st, ('R', n, key), rt, fr, site, True)
        out.append((st, v))
        return out


def I_heaps(v):
    out = set()
    heap_ptrs(v, out)
    return out


def fieldname(l):
    while l[0] in ('.', '[]', '*'):
        if l[0] == '.':
            return l[2]
        if l[0] == '[]':
            l = origin(l[1]) or ('?',)
        else:
            return None
    return None


def flat(evs, seen=None):
    """all the events of a trace including all the iterations of its loops"""
    for e in evs:
        yield e
        if e.kind == 'loop':
            for b in e.a.back:
                yield from flat(b[1])
            for x in e.a.exits:
                yield from flat(x[3])
