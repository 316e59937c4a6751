"""C08 (actions are triggered), C09 (count of actions in execution), C11 (deferred work owns what it uses), C19 (thread options)."""
from . import check
from .firing import place_fields, fieldname_deep, net
from .tokens import field_returned
from ..program import Unrecognised
from ..mod import *
from ..core import Frame, heap_ptrs
from ..rep import show_trace, short
from ..tables import *
from .. import evalv

SELF = ('O', 'self')
IEX = 'ptne::IActionsExecutor'
ACTION = ('init', ('P', 0))


def contains(v, x):
    if v == x:
        return True
    return isinstance(v, tuple) and any(contains(y, x) for y in v if isinstance(y, tuple))


def subterms(v, tag, out):
    if isinstance(v, tuple) and v:
        if v[0] == tag:
            out.append(v)
        for y in v:
            subterms(y, tag, out)


def is_executor_call(A, e):
    return e.kind == 'call' and A.p.derives(A.p.functions[e.a].get('cls') or '?', IEX) and norm(A.p.functions[e.a]['n']).endswith('::executeAction')


# ---------------------------------------------------------------------- the executors
class Trigger:
    """one path of executeAction: what runs at once, what is left for another thread"""
    def __init__(self, A, X, st, v):
        self.st, self.v = st, v
        self.direct, self.deferred, self.threads, self.unclear = [], [], [], []
        self.net, self.low = [], 0
        for e in st.events():
            if e.kind == 'loop':
                for x in flat([e]):
                    if X.counted(x) or x.kind == 'cb' and x.a == ACTION:
                        self.unclear.append(x)
                continue
            if e.kind == 'cb' and e.a == ACTION:
                self.direct.append(e)
            elif e.kind == 'spawn':
                if any(mentions_param(y, 0) for y in e.a[1:3]):
                    self.deferred.append((('thread', e.a[0]), e.a[1], e.a[2], e))
                self.threads.append(e)
            elif e.kind == 'wr' and isinstance(e.b, tuple) and e.b and e.b[0] in ('pushf', 'pushb') and mentions_param(e.b[1:], 0):
                self.deferred.append((('queue', e.a), e.b[1], (), e))
            elif X.counted(e):
                self.net.append(e)


def kept_somewhere(t):
    """does a trigger hand its action to something that is not understood?"""
    return any(e.kind in ('wr', 'unknown', 'call', 'ast', 'loop') and (e.kind == 'loop' or mentions_param((e.a, e.b), 0)) for e in t.st.events())


class Executor:
    def __init__(self, A, cls):
        self.A, self.cls = A, cls
        p = A.p
        fs = [f for f in p.functions.values() if f.get('cls') == cls and norm(f['n']).endswith('::executeAction') and 'b' in f]
        if len(fs) != 1:
            raise Unrecognised('executeAction of %s was not found' % cls)
        self.f = fs[0]
        inl = {norm(self.f['n'])} | {u for u in A.M.units if u.startswith('ptne::JobQueue::')}
        self.I = I = A.M.interp(inline=inl)
        I.this_class = {cls: SELF}
        st = St()
        self.triggers = [Trigger(A, self, s, v) for s, v in I.start(self.f, SELF, I.sym_args(self.f, st), st)]
        self.kind = self.classify()

    def counted(self, e):
        return e.kind in ('armw', 'ast', 'axchg', 'acas', 'wr') and mentions_param(e.a, 1)

    def classify(self):
        ks = set()
        for t in self.triggers:
            if isinstance(t.v, Throw):
                continue
            for d in t.deferred:
                ks.add(d[0][0] if d[0][0] != 'thread' else 'thread')
            if t.direct:
                ks.add('inline')
        return ks.pop() if len(ks) == 1 else ('mixed' if ks else 'none')

    def body(self, t, d):
        """what happens when the deferred work runs, and when it is then destroyed: [(events, value)]"""
        how, callee, args, ev = d
        I = self.I
        st = t.st.copy()
        n0 = len(st.events())
        for k in [k for k, x in st.mem.items() if contains(x, callee)]:
            del st.mem[k]
        root = Frame(0, {'n': '<deferred>', 'l': ev.site, 'p': []}, None, None, 0, None)
        out = []
        for s, v in I.call_value(callee, list(args), st, root, ev.site):
            ptrs = set()
            heap_ptrs(callee, ptrs)
            for k in [k for k, x in s.mem.items() if contains(x, callee)]:
                del s.mem[k]
            for s2 in I.collect(s, ptrs, root, None):
                out.append((s2.events()[n0:], v))
        return out


def mentions_param(l, i):
    if not isinstance(l, tuple):
        return False
    return l == ('P', i) or any(mentions_param(y, i) for y in l if isinstance(y, tuple))


def executors(A):
    if 'executors' not in A.M.cache:
        cs = [c for c, r in A.p.records.items() if A.p.derives(c, IEX) and c != IEX and not r.get('abstract')]
        if not cs:
            raise AnalysisBroken('no implementation of %s was found' % IEX)
        A.M.cache['executors'] = {c: Executor(A, c) for c in sorted(cs)}
    return A.M.cache['executors']


def delta(e):
    """change of the counter, None if not understood"""
    if e.kind == 'armw' and e.b[0] == 'i':
        n = e.b[1]
        return n - (1 << 64) if n >= 1 << 63 else n
    return None


@check('C09')
def c09(ctx, A):
    ctx.rule('balance over every path of every executor, including the failure to start a thread and actions that throw: the count goes up by one before the '
             'action starts and down by one after it ended (when the deferred work is destroyed, if it is counted by an object the work owns), and '
             'the action runs exactly once')
    ctx.rule('the count is atomic, starts at zero, is touched by nobody but the executors, and "in execution" means that it is not zero; it is the one the on-enter actions, and only these, are counted in')
    exs = executors(A)
    for c, X in exs.items():
        nm = c.split('::')[-1]
        ctx.anchor('executor %s (%s)' % (nm, X.kind), tuple(X.f['l']))
        site = tuple(X.f['l'])
        for t in X.triggers:
            tr = show_trace(t.st, t.v)
            ok = not isinstance(t.v, Throw)
            if t.unclear:
                ctx.check('balance', None, '', 'the count of %s changes in a loop' % nm, t.unclear[0].site, tr)
                continue
            ds = [delta(e) for e in t.net]
            if None in ds:
                bad = [e for e in t.net if delta(e) is None]
                ctx.check('balance', False if bad[0].kind in ('ast', 'wr') else None, nm + ':overwrite', 'the count of actions in execution is overwritten by %s' % nm, bad[0].site, tr)
                continue
            # order of direct run
            run = 0
            during = []
            for e in t.st.events():
                if e in t.net:
                    run += delta(e)
                elif e in t.direct:
                    during.append((run, e))
            for r, e in during:
                ctx.check('counted while the action runs', r == 1, nm + ':uncounted', 'the action is started with the count changed by %d instead of 1' % r, e.site, tr,
                          sample='%s: the action runs with the count raised by one' % nm)
            if not ok:
                started = t.direct or [d for d in t.deferred if d[3].kind == 'spawn' or True]
                ctx.check('balance when it fails', sum(ds) == 0 if not t.deferred else None, nm + ':fail-balance',
                          'when %s fails with %s the count of actions in execution is left changed by %d' % (nm, t.v.typ, sum(ds)), t.v.site or site, tr, sample='%s: balanced when it fails with %s' % (nm, t.v.typ))
                continue
            n = len(t.direct) + len(t.deferred)
            if not n and kept_somewhere(t):
                ctx.check('action runs once', None, '', 'what becomes of the action is not understood', site, tr)
                continue
            ctx.check('action runs once', n == 1, nm + ':runs', '%s starts the action %d times' % (nm, n), site, tr, sample='%s: one start of the action per trigger' % nm)
            if not t.deferred:
                ctx.check('balance', sum(ds) == 0, nm + ':balance', 'after the action the count of actions in execution is left changed by %d' % sum(ds), site, tr, sample='%s: +1 before, -1 after the action' % nm)
                continue
            for d in t.deferred:
                ctx.check('counted when handed over', sum(ds) == 1, nm + ':handover', 'when the action is handed over the count is raised by %d instead of 1' % sum(ds), d[3].site, tr)
                # raised before the hand-over
                run = 0
                for e in t.st.events():
                    if e in t.net:
                        run += delta(e)
                    if e is d[3]:
                        break
                ctx.check('counted before it is handed over', run == 1, nm + ':late', 'the action is handed over before it is counted: it may run and end uncounted', d[3].site, tr)
                bodies = X.body(t, d)
                for evs, v in bodies:
                    tb = [show_trace(t.st, t.v)] and show_trace_of(evs)
                    cbs = [e for e in flat(evs) if e.kind == 'cb' and e.a == ACTION]
                    cnt = [e for e in evs if X.counted(e)]
                    if any(delta(e) is None for e in cnt) or any(X.counted(e) for e in flat(evs) if e not in evs):
                        ctx.check('balance of the deferred work', None, '', 'the deferred work changes the count in a way that is not understood', d[3].site)
                        continue
                    if isinstance(v, Throw) and v.typ != 'user' and 'bad_function_call' not in v.typ:
                        continue
                    if not isinstance(v, Throw):
                        ctx.check('deferred work runs the action once', len(cbs) == 1, nm + ':body-runs', 'the deferred work runs the action %d times' % len(cbs), d[3].site, tb, sample='%s: the deferred work runs the action once' % nm)
                    tot = sum(delta(e) for e in cnt)
                    ctx.check('balance of the deferred work', tot == -1, nm + ':body-balance:' + ('throw' if isinstance(v, Throw) else 'return'),
                              'the deferred work and its destruction change the count by %d instead of -1%s' % (tot, ' when the action throws' if isinstance(v, Throw) else ''), d[3].site, tb,
                              sample='%s: deferred work lowers the count by one' % nm)
                    before = 0
                    for e in evs:
                        if e in cnt:
                            before += delta(e)
                        if e in cbs:
                            ctx.check('counted while the deferred action runs', before == 0, nm + ':early', 'the count is lowered before the action has run', e.site, tb)
    # the place
    N = net(A)
    right_count(ctx, A)
    f = A.p.one('ptne::Place::isOnEnterActionInExecution')
    s = A.M.summary(f)
    for st, v in s.paths:
        if isinstance(v, Throw):
            continue
        for n in (0, 1, 2, (1 << 32), (1 << 63)):
            me = Obj()
            put(me, N.inexec, SELF, n)
            h = PathTable(st.pc, {}).holds(me) if False else True
            try:
                vals = {bool(Eval(me).val(v))}
                feas = all(Eval(me).atom(a) == b for a, b in st.pc.items())
            except (Unknown, Free, KeyError, TypeError):
                ctx.check('meaning of "in execution"', None, '', 'the answer %s is not understood' % short(v), tuple(f['l']))
                break
            if feas:
                ctx.check('meaning of "in execution"', vals == {n > 0}, 'meaning', 'with %d actions in execution the place answers %s' % (n, vals), tuple(f['l']), show_trace(st, v))
    ctor = [g for g in A.p.functions.values() if g.get('cls') == 'ptne::Place' and g.get('kind') == 'ctor' and len(g['p']) == 2 and 'b' in g]
    cf = fieldname_deep(N.inexec)
    I = A.M.interp()
    st = St()
    n = 0
    for s, v in I.start(ctor[0], SELF, I.sym_args(ctor[0], st), st):
        if isinstance(v, Throw):
            continue
        n += 1
        cell = I.peek(s, ('.', SELF, cf))
        val = None
        if cell[0] == 'ptr':
            val = I.peek(s, cell[1])
        ctx.check('starts at zero', True if val == ('i', 0) or cell == ('i', 0) else (False if val and val[0] == 'i' or cell == ('null',) else None), 'start', 'the count of a new place is %s' % short(val or cell), tuple(ctor[0]['l']))
    # nobody else
    for f in list(A.p.functions.values()):
        if 'b' not in f or norm(f['n']) not in A.M.units:
            continue
        if A.p.derives(f.get('cls') or '?', IEX):
            continue
        for st, v in A.M.summary(f).paths:
            for e in flat(st.events()):
                if e.kind in ('armw', 'ast', 'axchg', 'acas', 'wr') and fieldname_deep(e.a) == cf and e.a[0] in ('.', '*'):
                    ctx.check('touched by executors only', False, 'foreign:' + f['n'].split('::')[-1], '%s changes the count of actions in execution' % norm(f['n']), e.site, show_trace(st, v))


def show_trace_of(evs):
    s = St()
    try:
        for e in evs:
            s.ev = (s.ev, e) if False else s.ev
    except Exception:
        pass
    return ['%s %s %s' % (e.kind, short(e.a), ':'.join(map(str, e.site)) if e.site else '') for e in evs]


def right_count(ctx, A):
    """the count that is looked at is the one the on-enter actions, and only these, are counted in"""
    N = net(A)
    cf = fieldname_deep(N.inexec)
    for nm in ('enterPlace', 'exitPlace'):
        for st, v in A.M.summary(A.p.one('ptne::Place::' + nm)).paths:
            for e in flat(st.events()):
                if not is_executor_call(A, e):
                    continue
                a = e.b[1]
                y = deref(a[1]) if len(a) > 1 else None
                yf = fieldname(y) if y else None
                tr = show_trace(st, v)
                if nm == 'enterPlace':
                    ctx.check('right count', True if yf == cf else (False if yf else None), nm + ':count', 'on-enter actions are counted in %s, but %s is looked at' % (yf, cf), e.site, tr)
                else:
                    ctx.check('right count', False if yf == cf else (True if yf else None), nm + ':count', 'on-exit actions are counted as on-enter actions in execution', e.site, tr)


# ---------------------------------------------------------------------- C08
@check('C08')
def c08(ctx, A):
    N = net(A)
    pf = place_fields(A)
    ctx.rule('every path of enterPlace (exitPlace) that ends normally hands exactly one action to the executor if the place has an on-enter (on-exit) action and none '
             'otherwise; it is the action of this place and this kind, after the count of tokens has changed; on-enter actions are counted as in '
             'execution of the place, on-exit actions are not; a path that refuses the tokens hands over nothing')
    ctx.rule('no other operation hands over or runs an action')
    for nm, prop in (('enterPlace', 'onEnterAction'), ('exitPlace', 'onExitAction')):
        f = A.p.one('ptne::Place::' + nm)
        ctx.anchor(nm, tuple(f['l']))
        fld = ('.', SELF, pf[prop])
        has = ('nn', ('init', fld))
        s = A.M.summary(f)
        for st, v in s.paths:
            evs = st.events()
            tr = show_trace(st, v)
            site = tuple(f['l'])
            calls = [e for e in flat(evs) if is_executor_call(A, e)]
            runs = [e for e in flat(evs) if e.kind == 'cb']
            for e in runs:
                ctx.check('goes through the executor', False, nm + ':direct', 'an action is run by the place itself instead of its executor', e.site, tr)
            inloop = [e for e in calls if e not in evs]
            if inloop:
                ctx.check('hands over once', None, '', 'an action is handed over in a loop', inloop[0].site, tr)
                continue
            wr = [i for i, e in enumerate(evs) if e.kind == 'wr' and e.a == N.count]
            if isinstance(v, Throw):
                if calls:
                    # fails in or after the hand-over
                    after = [i for i, e in enumerate(evs) if e is calls[0]][0]
                    ctx.check('refused tokens hand over nothing', bool(wr) and wr[-1] < after, nm + ':refused', 'an action is handed over although no token has moved', calls[0].site, tr)
                continue
            k = st.pc.get(has)
            want = {True: 1, False: 0}.get(k)
            if want is None:
                ctx.check('hands over once', False if calls == [] else None, nm + ':ignored', '%s ends without looking whether there is an action' % nm, site, tr)
                continue
            ctx.check('hands over once', len(calls) == want, nm + ':times', '%s hands over %d actions of a place %s' % (nm, len(calls), 'with an action' if k else 'without an action'), calls[0].site if calls else site, tr,
                      sample='%s: %d hand-over(s) for a place %s action' % (nm, want, 'with' if k else 'without'))
            for e in calls:
                i = evs.index(e)
                a = e.b[1]
                okw = bool(wr) and wr[-1] < i
                ctx.check('after the tokens moved', okw, nm + ':order', 'the action is handed over before the number of tokens has changed', e.site, tr)
                x = deref(a[0]) if a else None
                ctx.check('right action', True if x in (fld,) or a and a[0] == ('init', fld) else (False if x and x[0] == '.' and x[1] == SELF else None), nm + ':action',
                          '%s hands over %s instead of the %s' % (nm, short(x), prop), e.site, tr, sample='%s hands over the %s' % (nm, prop))
    right_count(ctx, A)
    from .structure import given_actions
    given_actions(ctx, A)
    n = 0
    for f in list(A.p.functions.values()):
        q = norm(f['n'])
        if 'b' not in f or q not in A.M.units or A.p.derives(f.get('cls') or '?', IEX) or q in ('ptne::Place::enterPlace', 'ptne::Place::exitPlace'):
            continue
        n += 1
        for st, v in A.M.summary(f).paths:
            for e in flat(st.events()):
                bad = is_executor_call(A, e) or e.kind == 'cb' and ('onEnter' in str(e.a) or 'onExit' in str(e.a))
                if bad:
                    ctx.check('no other trigger', False, 'foreign:' + q.split('::')[-1], '%s starts an action' % q, e.site, show_trace(st, v))
    ctx.check('no other trigger', True, '', '', sample='%d other operations start no action' % n)
    # the action belongs to the place for good
    for prop in ('onEnterAction', 'onExitAction'):
        for f in list(A.p.functions.values()):
            if 'b' in f and f.get('cls') == 'ptne::Place' and f.get('kind') != 'ctor' and norm(f['n']) in A.M.units:
                for st, v in A.M.summary(f).paths:
                    for e in flat(st.events()):
                        if e.kind == 'wr' and fieldname(e.a) == pf[prop]:
                            ctx.check('actions of a place do not change', False, 'rewritten:' + prop, '%s replaces the %s' % (norm(f['n']), prop), e.site, show_trace(st, v))


def deref(v):
    if v is None:
        return None
    if v[0] in ('ref', 'ptr'):
        return v[1]
    if v[0] == 'init':
        return v[1]
    return None


# ---------------------------------------------------------------------- C11
def borrowed(v, st, out, seen=None, p=None):
    """locations a value refers to without owning them"""
    seen = set() if seen is None else seen
    if not isinstance(v, tuple) or not v:
        return
    if v[0] in ('ref', 'refw'):
        out.append(v[1])
        return
    if v[0] == 'ptr':
        l = v[1]
        if l[0] == 'heap':
            if l in seen:
                return
            seen.add(l)
            for k, x in st.mem.items():
                if Interp.under(k, l):
                    borrowed(x, st, out, seen, p)
            return
        out.append(l)
        return
    if v[0] == 'clo':
        if v[2] is not None:
            out.append(v[2])
        for c in v[3]:
            if c[2] is None:
                continue
            if c[1] == 'r':
                out.append(c[2][1] if c[2][0] in ('ref', 'ptr') else c[2])
            elif p and len(c) > 3 and c[3] and c[2][0] not in ('ptr', 'ref', 'fn') and view(p, c[3]):
                out.append(c[2][1] if len(c[2]) > 1 and isinstance(c[2][1], tuple) else c[2])
            else:
                borrowed(c[2], st, out, seen, p)
        return
    if v[0] == 'init':
        return
    if v[0] == 'weak':
        return
    for y in (v[1:] if isinstance(v[0], str) else v):
        borrowed(y, st, out, seen, p)


def view(p, t):
    t = p.strip(t)
    return p.tinfo(t).get('cat') == 'ptr' or t.endswith('*') or any(x in t for x in ('reference_wrapper', 'string_view', 'std::span'))


def tell_loc(l):
    if l == SELF or l == ('*', ('init', SELF)):
        return 'the object itself'
    if mentions_param(l, 0) or mentions_param(l, 1):
        return 'a parameter'
    if l[0] in ('L', 'tmp'):
        return 'a local variable'
    return fieldname(l) or short(l)


def under_self(l):
    while l[0] == '.':
        l = l[1]
    return l == SELF


@check('C11')
def c11(ctx, A):
    p = A.p
    ctx.rule('ownership (escape) analysis of everything that is left for another thread: deferred actions, actions handed to an executor and detached threads own what they use (by value '
             'or shared ownership), no reference to a parameter, a local variable, the place or the executor is kept')
    ctx.rule('a thread that uses the object it is a member of ends before the object does: it is declared after the members its body uses, or the destructor '
             'of the object or of every object that contains it joins it first')
    ctx.assume('the stream and the callbacks a user hands in live as long as the engine uses them')
    for c, X in executors(A).items():
        nm = c.split('::')[-1]
        for t in X.triggers:
            if isinstance(t.v, Throw):
                continue
            for how, callee, args, ev in t.deferred:
                out = []
                borrowed(callee, t.st, out, None, p)
                for a in args:
                    borrowed(a, t.st, out, None, p)
                out = [l for l in out if l[0] != 'G']
                ctx.check('deferred action owns what it uses', not out, nm + ':borrows', 'the deferred action keeps a reference to %s' % ', '.join(sorted({tell_loc(l) for l in out})),
                          ev.site, show_trace(t.st, t.v), sample='%s: the deferred work holds copies and shared ownership only' % nm)
    # an executor may run what it is given after the call has returned, in another thread
    defers = any(t.deferred for X in executors(A).values() for t in X.triggers)
    seen = set()
    for f in list(p.functions.values()) if defers else ():
        if 'b' not in f or norm(f['n']) not in A.M.units or p.derives(f.get('cls') or '?', IEX):
            continue
        s = A.M.summary(f)
        for st, v in s.paths:
            for e in flat(st.events()):
                if not is_executor_call(A, e):
                    continue
                vals = s.interp.argvals.get(e.b[2], ())
                out = []
                x = vals[0] if vals else None
                if isinstance(x, tuple) and x[0] == 'ref':
                    x = st.mem.get(x[1])        # what is copied from there
                borrowed(x, st, out, None, p)
                out = [l for l in out if l[0] != 'G']
                if not out and (e.site, f['n']) in seen:
                    continue
                seen.add((e.site, f['n']))
                ctx.check('action handed over owns what it uses', not out, 'handed:' + norm(f['n']).split('::')[-1],
                          'the action handed over keeps a reference to %s and may run when that is gone' % ', '.join(sorted({tell_loc(l) for l in out})), e.site, show_trace(st, v),
                          sample='%s hands over an action of its own' % norm(f['n']))
    A.roots()
    spawns = {}
    for f in list(p.functions.values()):
        if 'b' not in f or norm(f['n']) not in A.M.units:
            continue
        cls = f.get('cls')
        s = A.M.summary(f)
        for st, v in s.paths:
            evs = list(flat(st.events()))
            for i, e in enumerate(evs):
                if e.kind == 'spawn':
                    spawns.setdefault((e.site, cls), (f, st, v, evs, i))
    ctx.count('thread_starts', len(spawns))
    for (site, cls), (f, st, v, evs, i) in sorted(spawns.items(), key=repr):
        e = evs[i]
        out = []
        borrowed(e.a[1], st, out, None, p)
        for a in e.a[2]:
            borrowed(a, st, out, None, p)
        out = [l for l in out if l[0] != 'G']
        later = evs[i + 1:]
        det = [x for x in later if x.kind == 'detach']
        sets = [x for x in later if x.kind == 'thrset' and x.b and len(x.b) > 2 and x.b[2] == e.a[3]]
        tr = show_trace(st, v)
        if det and det[0].b and det[0].b[2] == e.a[3]:
            ctx.check('detached thread owns what it uses', not out, 'detached:' + (cls or '?').split('::')[-1], 'a detached thread uses %s, which may be gone by then' % ', '.join(sorted({tell_loc(l) for l in out})), site, tr,
                      sample='thread started at %s:%s owns all it uses' % site)
            continue
        if not sets:
            joined = [x for x in later if x.kind == 'join']
            ctx.check('thread has an owner', True if joined or not out else None, '', 'what becomes of the thread is not understood', site, tr)
            continue
        fld = sets[0].a
        if fld[0] != '.' or not under_self(fld):
            ctx.check('thread has an owner', None, '', 'the thread is kept in %s' % short(fld), site, tr)
            continue
        stray = [l for l in out if not under_self(l) and not mentions_param(l, 0) and not mentions_param(l, 1)]
        loc = [l for l in stray if l[0] in ('L', 'tmp')]
        ctx.check('thread uses what lives on', False if loc else (None if stray else True), 'stray:' + (cls or '?').split('::')[-1], 'the thread uses %s' % ', '.join(tell_loc(l) for l in stray), site, tr)
        if not any(under_self(l) for l in out):
            continue
        # the member order or a join in a destructor
        body = A.M.spawn_body(Ev('spawn', e.a, None, site, (), None), cls)
        used = set()
        for s2, v2 in body.paths:
            for x in flat(s2.events()):
                l = x.a if isinstance(x.a, tuple) else None
                if x.kind == 'call' and x.b and x.b[0]:
                    l = x.b[0]
                while isinstance(l, tuple) and l and l[0] in ('.', '*', '[]', 'init', 'op', 'aload'):
                    if l[0] == '.' and l[1] == SELF:
                        used.add(l[2])
                    l = l[1] if l[0] != 'op' else l[2]
        used.discard(fld[2])
        gone = [(h, e2, s2, v2) for h in list(p.functions.values()) if h.get('cls') == cls and 'b' in h and (h.get('kind') == 'dtor' or norm(h['n']) in A.M.units)
                for s2, v2 in A.M.summary(h).paths for e2 in flat(s2.events()) if e2.kind == 'detach' and e2.a == fld]
        for h, e2, s2, v2 in gone[:1]:
            ctx.check('thread ends before what it uses', False, 'left:' + cls.split('::')[-1], '%s detaches the thread %s::%s, which goes on using %s of an object that may be gone'
                      % (norm(h['n']), cls, fld[2], ', '.join(sorted(used)) or 'members'), e2.site, show_trace(s2, v2))
        if gone:
            continue
        names = [x['name'] for x in p.fields(cls)]
        decl = sorted(p.fields(cls), key=lambda x: x.get('i', 0)) if 'i' in (p.fields(cls)[0] if p.fields(cls) else {}) else p.fields(cls)
        names = [x['name'] for x in decl]
        late = [n for n in used if n in names and names.index(n) > names.index(fld[2]) and not trivial(p, p.field(cls, n)['t'])]
        jth = 'jthread' in p.field(cls, fld[2])['t']
        ctx.count('members_used_by_threads', len(used))
        if not late and jth:
            ctx.check('thread ends before what it uses', True, '', '', sample='%s::%s is declared after the members its body uses (%s)' % (cls, fld[2], ', '.join(sorted(used))))
            continue
        why = ends_before(A, cls, fld[2], 0)
        ctx.check('thread ends before what it uses', True if why else False, 'order:' + cls.split('::')[-1],
                  'the thread %s::%s uses %s, which %s' % (cls, fld[2], ', '.join(sorted(late)) or 'its object', 'is destroyed before the thread is joined' if late else 'ends without joining it'), site,
                  None, sample='%s::%s is joined by %s before members are destroyed' % (cls, fld[2], why))


def trivial(p, t):
    t = p.strip(t)
    return p.tinfo(t).get('cat') in ('int', 'bool', 'ref', 'enum', 'ptr') or t.endswith('&')


def joining_ops(A, cls, fld):
    """operations of a class after which the thread in a member has ended"""
    out = set()
    for f in list(A.p.functions.values()):
        if f.get('cls') == cls and 'b' in f and norm(f['n']) in A.M.units:
            if any(e.kind == 'join' and e.a == ('.', SELF, fld) and e.b != 'assign' for st, v in A.M.summary(f).paths for e in flat(st.events())):
                out.add(f['key'])
    return out


def dtor_events(A, cls):
    f = next((f for f in A.p.functions.values() if f.get('cls') == cls and f.get('kind') == 'dtor' and 'b' in f), None)
    if f is None:
        return None, []
    return f, A.M.summary(f).paths


def ends_before(A, cls, fld, depth):
    ops = joining_ops(A, cls, fld)
    f, paths = dtor_events(A, cls)
    if paths and all(any(e.kind == 'join' and e.a == ('.', SELF, fld) or e.kind == 'call' and e.a in ops and e.b[0] == SELF for e in flat(st.events())) for st, v in paths if not isinstance(v, Throw)):
        return '~' + cls.split('::')[-1]
    if depth > 3:
        return None
    # every class that contains it
    whys = []
    for c, r in A.p.records.items():
        for x in A.p.fields(c) or []:
            if A.p.strip(x['t']) != cls:
                continue
            if not c.startswith('ptne'):
                continue
            f, paths = dtor_events(A, c)
            mine = ('.', SELF, x['name'])
            ok = paths and all(any(joins_member(A, e, mine, ops) for e in flat(st.events())) for st, v in paths if not isinstance(v, Throw))
            if not ok:
                return None
            whys.append('~' + c.split('::')[-1])
    return ', '.join(whys) or None


def joins_member(A, e, mine, ops):
    if e.kind != 'call':
        return False
    if e.a in ops and e.b[0] == mine:
        return True
    # an operation of the containing object that always calls one of them
    g = A.p.functions[e.a]
    if e.b[0] != SELF or 'b' not in g:
        return False
    ps = [st for st, v in A.M.summary(g).paths if not isinstance(v, Throw)]
    return bool(ps) and all(any(x.kind == 'call' and x.a in ops and x.b[0] == mine for x in flat(st.events())) for st in ps)


# ---------------------------------------------------------------------- C19
def conc(v, env):
    """concrete value of a term under an assignment of terms, None if unknown"""
    if v in env:
        return env[v]
    if v[0] == 'e':
        return ('i', v[2])
    if v[0] in ('i', 's', 'b'):
        return v
    if v[0] == 'op' and v[1] in ('cast', 'conv') and len(v) == 3:
        return conc(v[2], env)
    return None


def atom_true(a, env):
    if a[0] in ('eq', 'lt', 'ne') and len(a) == 3:
        x, y = conc(a[1], env), conc(a[2], env)
        if x is None or y is None:
            return None
        if a[0] == 'eq':
            return x == y
        if x[0] == 'i' and y[0] == 'i':
            return x[1] < y[1] if a[0] == 'lt' else x != y
    return None


def select(paths, env):
    """the paths that a concrete input takes: (definite, possible)"""
    sure, may = [], []
    for st, v in paths:
        ok = True
        for a, b in st.pc.items():
            t = atom_true(a, env)
            if t is None:
                ok = None if ok else ok
            elif t != b:
                ok = False
                break
        if ok:
            sure.append((st, v))
        elif ok is None:
            may.append((st, v))
    return sure, may


OPTION = 'ptne::PTN_Engine::ACTIONS_THREAD_OPTION'
WANT = {'SINGLE_THREAD': ('inline',), 'EVENT_LOOP': ('inline',), 'JOB_QUEUE': ('queue',), 'DETACHED': ('thread',)}


def enumerators(A, name):
    for k, xs in A.p.enums.items():
        if norm(k) == name:
            out = []
            for x in xs:
                out.append((x[0], int(x[1])) if isinstance(x, (list, tuple)) else (x['name'], int(x['v'])))
            return out
    raise AnalysisBroken('enum %s was not found' % name)


@check('C19')
def c19(ctx, A):
    p = A.p
    exs = executors(A)
    ctx.rule('finite table over all thread options: the factory makes an executor that runs the action at once for SINGLE_THREAD and EVENT_LOOP, queues it for '
             'JOB_QUEUE and starts a detached thread for DETACHED (the kind of an executor is read off its paths), and refuses any other value')
    ctx.rule('changing the option: refused while the loop runs, otherwise the option answered, the executor of all existing places and the executor given to places created '
             'later all follow the new option; an engine starts with the option it was constructed with')
    ctx.rule('names of options: to-string and from-string are inverse on all options and refuse everything else')
    opts = enumerators(A, OPTION)
    f = p.one('ptne::ActionsExecutorFactory::createExecutor')
    ctx.anchor('factory', tuple(f['l']))
    s = A.M.summary(f)
    P0 = ('init', ('P', 0))
    for nm, val in opts + [('a value that is no option', max(v for n, v in opts) + 1), ('a negative value', -1)]:
        sure, may = select(s.paths, {P0: ('i', val)})
        site = tuple(f['l'])
        known = nm in WANT
        for st, v in sure + may:
            if isinstance(v, Throw):
                ctx.check('option has an executor', True if not known else (False if (st, v) in sure else None), 'factory:' + nm, 'no executor can be created for %s' % nm, site, show_trace(st, v))
                continue
            if nm not in dict(opts):
                ctx.check('other values are refused', False if (st, v) in sure else None, 'factory:other', 'an executor is created for %s' % nm, site, show_trace(st, v))
                continue
            if not known:
                continue
            objs = [e for e in flat(st.events()) if e.kind == 'newobj' and v[0] == 'ptr' and e.a == v[1]]
            cls = objs[0].b if objs else None
            X = exs.get(cls)
            ok = None if X is None or (st, v) in may else X.kind in WANT[nm]
            if X is not None and X.kind in ('mixed', 'none'):
                ok = None
            ctx.check('option has its executor', ok, 'factory:' + nm, 'actions of %s are run by %s (%s)' % (nm, cls or short(v), X.kind if X else '?'), site, show_trace(st, v), sample='%s -> %s (%s)' % (nm, (cls or '?').split('::')[-1], X.kind if X else '?'))
        if not sure and not may:
            ctx.check('option has an executor', False, 'factory:' + nm, 'nothing is created for %s' % nm, site)
    # a detached executor detaches, the queue is drained by one thread
    for c, X in exs.items():
        if X.kind == 'thread':
            for t in X.triggers:
                if isinstance(t.v, Throw):
                    continue
                evs = [e for e in t.st.events()]
                ctx.check('detached action is not waited for', False if any(e.kind == 'join' for e in evs) else True if any(e.kind == 'detach' for e in evs) else None, 'detach:' + c.split('::')[-1],
                          'the thread of a detached action is joined by the thread that fires', tuple(X.f['l']), show_trace(t.st, t.v), sample='the thread of a detached action is detached')
    # the option of the engine
    opt = field_returned(A, 'ptne::PTN_EngineImp::getActionsThreadOption')
    g = p.one('ptne::PTN_EngineImp::setActionsThreadOption')
    ctx.anchor('option of the engine', tuple(g['l']))
    s = A.M.summary(g)
    exf = None
    for st, v in s.paths:
        evs = st.events()
        tr = show_trace(st, v)
        site = tuple(g['l'])
        W = [e for e in flat(evs) if e.kind in ('wr', 'ast') and e.a == opt]
        made = [e for e in evs if e.kind == 'call' and norm(p.functions[e.a]['n']).endswith('::createExecutor')]
        given = [e for e in evs if e.kind == 'call' and norm(p.functions[e.a]['n']) == 'ptne::PlacesManager::setActionsExecutor']
        xw = [e for e in evs if e.kind == 'wr' and made and origin_is_result(e.b, made[-1])]
        if isinstance(v, Throw):
            ctx.check('refusal changes nothing', not W and not given and not xw, 'refused', 'setActionsThreadOption fails after it has changed the engine', v.site or site, tr)
            continue
        same = any(a[0] == 'eq' and b and set(a[1:]) == {('init', opt), P0} for a, b in st.pc.items())
        if not W and not made and not given:
            ctx.check('an option that is already set changes nothing', True if same else (None if st.pc else False), 'ignored', 'a new option is ignored', site, tr, sample='same option: nothing changes')
            continue
        ok = [len(W) >= 1 and W[-1].b == P0, len(made) >= 1 and made[-1].b[1] and made[-1].b[1][0] == P0, len(xw) >= 1, len(given) == 1]
        why = ['the option answered does not become the new option', 'no executor is created for the new option', 'the new executor is not kept for places created later', 'the existing places do not get the new executor']
        for o, w in zip(ok, why):
            ctx.check('a new option replaces everything', o, w.split()[1] + ':' + w.split()[-1], w, site, tr, sample='new option: answered, executor replaced, places updated')
        if xw:
            exf = xw[-1].a
        if given and xw:
            a = given[0].b[1][0]
            l = deref(a)
            okg = (l == xw[-1].a or a == xw[-1].b) and evs.index(given[0]) > evs.index(xw[-1])
            if not okg and l is not None and l != xw[-1].a and l[0] in ('L', 'R', 'tmp') and len(made) == 1 and evs.index(made[0]) < evs.index(given[0]):
                # a variable: the new executor, or moved away since
                was = st.mem.get(l)
                okg = True if was in (xw[-1].b, NULL) or was is None and origin_is_result(('init', l), made[0]) else None
                was = (s.interp.argvals.get(given[0].b[2]) or (None,))[0]
                if was == ('init', xw[-1].a) or was and was[0] == 'aload' and was[1] == xw[-1].a:
                    okg = False         # the one there was before
            ctx.check('places get the new executor', okg, 'given', 'the places are given another executor than the new one', given[0].site, tr)
    for q, per in (('ptne::PlacesManager::setActionsExecutor', 'ptne::Place::setActionsExecutor'),):
        h = p.one(q)
        for st, v in A.M.summary(h).paths:
            if isinstance(v, Throw):
                continue
            ls = [e for e in st.events() if e.kind == 'loop' and any(x.kind == 'call' and norm(p.functions[x.a]['n']) == per for b in e.a.back for x in flat(b[1]))]
            tr = show_trace(st, v)
            if len(ls) != 1 or ls[0].a.kind != 'each':
                ctx.check('all places get the executor', False if not ls else None, 'all', 'the places do not get the new executor', tuple(h['l']), tr)
                continue
            L = ls[0].a
            dom = L.dom
            ok = dom == ('init', dom[1]) and dom[1][0] == '.' if dom[0] == 'init' else False
            every = all(any(x.kind == 'call' and norm(p.functions[x.a]['n']) == per and deref(x.b[1][0]) == ('P', 0) for x in flat(b[1])) for b in L.back)
            ctx.check('all places get the executor', False if not every or ls[0].b is not None else (True if ok else None), 'all', 'some places do not get the new executor', ls[0].site, tr, sample='every place gets the new executor')
    pe = place_fields(A).get('executor')
    h = p.one('ptne::Place::setActionsExecutor')
    for st, v in A.M.summary(h).paths:
        if isinstance(v, Throw):
            continue
        w = [e for e in flat(st.events()) if e.kind == 'wr' and e.b in (('weak', P0), P0)]
        ctx.check('place takes the executor', bool(w) and (pe is None or fieldname(w[-1].a) == pe), 'take', 'a place does not keep the executor it is given', tuple(h['l']), show_trace(st, v))
    # new places and the constructor
    if exf is not None:
        h = p.one('ptne::PTN_EngineImp::createPlace')
        for st, v in A.M.summary(h).paths:
            if isinstance(v, Throw):
                continue
            for e in flat(st.events()):
                if e.kind == 'newobj' and e.b == 'ptne::Place':
                    got = [x for k, x in st.mem.items() if Interp.under(k, e.a) and (pe is None or k[0] == '.' and k[2] == pe)]
                    ok = any(x in (('weak', ('init', exf)), ('init', exf)) for x in got)
                    ctx.check('new places get the current executor', True if ok else (None if not got else False), 'new', 'a new place does not get the current executor', e.site, show_trace(st, v), sample='createPlace hands the current executor to the place')
        ctor = [k for k in p.functions.values() if k.get('cls') == 'ptne::PTN_EngineImp' and k.get('kind') == 'ctor' and 'b' in k and len(k['p']) == 1 and norm(p.strip(k['p'][0]['t'])) == OPTION]
        for k in ctor:
            I = A.M.interp()
            st = St()
            for s2, v in I.start(k, SELF, I.sym_args(k, st), st):
                if isinstance(v, Throw):
                    continue
                o, x = I.peek(s2, opt), I.peek(s2, exf)
                made = [e for e in flat(s2.events()) if e.kind == 'call' and norm(p.functions[e.a]['n']).endswith('::createExecutor') and e.b[1] and e.b[1][0] == P0]
                ctx.check('an engine starts with its option', o == P0 and bool(made) and origin_is_result(x, made[-1]), 'ctor', 'a new engine does not start with the option and the executor it was asked for', tuple(k['l']), show_trace(s2, v), sample='constructor: option and executor as asked')
    # strings
    fs = [p.one('ptne::ActionsThreadOptionConversions::toString'), p.one('ptne::ActionsThreadOptionConversions::toACTIONS_THREAD_OPTION')]
    a, b = [A.M.summary(x) for x in fs]
    ctx.anchor('names of options', tuple(fs[0]['l']))
    seen = {}
    for nm, val in opts:
        sure, may = select(a.paths, {P0: ('i', val)})
        if may or len(sure) != 1:
            ctx.check('name of an option', None, '', 'the name of %s is not understood' % nm, tuple(fs[0]['l']))
            continue
        st, v = sure[0]
        if isinstance(v, Throw):
            ctx.check('name of an option', False, 'name:' + nm, '%s has no name' % nm, tuple(fs[0]['l']), show_trace(st, v))
            continue
        txt = conc(v, {})
        if txt is None:
            ctx.check('name of an option', None, '', 'the name of %s is not understood: %s' % (nm, short(v)), tuple(fs[0]['l']))
            continue
        sure, may = select(b.paths, {P0: txt})
        if may or len(sure) != 1:
            ctx.check('option of a name', None, '', 'what %s is read as is not understood' % short(txt), tuple(fs[1]['l']))
            continue
        st, v = sure[0]
        back = None if isinstance(v, Throw) else conc(v, {})
        ctx.check('option of a name', back == ('i', val), 'roundtrip:' + nm, '%s is written as %s, which is read as %s' % (nm, txt[1], 'an error' if isinstance(v, Throw) else short(v)), tuple(fs[1]['l']), show_trace(st, v),
                  sample='%s <-> "%s"' % (nm, txt[1]))
    for txt in ('', 'no such option'):
        sure, may = select(b.paths, {P0: ('s', txt)})
        for st, v in sure:
            ctx.check('other names are refused', isinstance(v, Throw), 'other-name', 'the name "%s" is read as %s' % (txt, short(v)), tuple(fs[1]['l']), show_trace(st, v))


def origin_is_result(v, call):
    """is the value the result of this call"""
    return contains(v, call.b[2]) if False else ('R', call.b[2], call.a) in results(v)


def results(v):
    out = []
    subterms(v, 'R', out)
    return out
