"""C01 data races, C02 public operations, C03 deadlocks, C04 actions run unlocked, C13 wake-ups and idling."""
from . import check
from ..effects import *
from ..rep import show_trace, short

PROXY = 'ptne::PTN_Engine::PTN_EngineImpProxy'
API = 'public API'


def kind_of(name):
    """which thread a root is: 'api', 'loop', 'worker', 'detached'"""
    return 'api' if name == API else name


def toks(locks):
    return ', '.join(sorted('%s::%s%s' % (t[1].split('::')[-1], t[2], ' (shared)' if t[3] == 's' else '') for t in locks)) or 'no lock'


def common_lock(a, b):
    """a lock that both effects hold and that excludes them from each other"""
    for t in a.locks:
        for u in b.locks:
            if t[3] == 's' and u[3] == 's':
                continue
            if t[1:3] != u[1:3]:
                continue
            if t[0] == 'S' and u[0] == 'S':
                return True
            if t[0] == 'own' and u[0] == 'own':
                return True
    return False


def self_concurrent(A, name, effs):
    """can two threads of this root run at the same time"""
    if name == API:
        return True
    sp = [e for n, es in A.roots().items() for e in es if e.kind == 'spawn' and root_name(e) == name]
    # a thread kept in a member is joined or replaced before the next one starts; detached ones are not
    return any(e.fld[0] != 'jthread' for e in sp)


def root_name(e):
    return 'thread started at %s:%s (%s)' % (e.site[0], e.site[1], e.fld[0])


def immutable(A, cls, fld):
    f = A.p.field(cls, fld)
    return bool(f and str(f['t']).startswith('const '))


@check('C01')
def c01(ctx, A):
    ctx.rule('lockset analysis: for every field of the engine\'s shared classes, every pair of accesses from threads that can run at the '
             'same time (public operations of any number of threads, the event loop thread, the job queue worker, detached action threads), '
             'at least one of them a write, has a common lock held exclusively by one of them, or the field is atomic; variables of static storage '
             'duration are shared by all engines and are written under a lock that all engines share')
    ctx.assume('an engine is constructed and destroyed by one thread while no other thread uses it')
    ctx.assume('user callbacks (actions, conditions) synchronise what they access themselves')
    roots = A.roots()
    acc = {}
    n = 0
    for name, effs in roots.items():
        for e in effs:
            if e.kind in ('r', 'w', 'ar', 'aw'):
                acc.setdefault((e.cls, e.fld), []).append((name, e))
                n += 1
    ctx.count('accesses_analysed', n)
    ctx.count('fields_analysed', len(acc))
    ctx.count('concurrent_roots', len(roots))
    ctx.counts['roots'] = list(roots)
    pairs = 0
    selfc = {name: self_concurrent(A, name, effs) for name, effs in roots.items()}
    for (cls, fld), L in sorted(acc.items()):
        if not any(e.kind == 'w' for _, e in L):
            ctx.check('field that is never written while shared, or atomic', True, None, None,
                      sample='%s::%s: %d accesses, none is a plain write' % (cls, fld, len(L)))
            continue
        bad = None
        npair = 0
        for i, (r1, a) in enumerate(L):
            for r2, b in L[i:]:
                if 'w' not in (a.kind, b.kind):
                    continue
                if r1 == r2 and not selfc[r1]:
                    continue
                if (a.kind in ('ar', 'aw')) and (b.kind in ('ar', 'aw')):
                    continue
                pairs += 1
                npair += 1
                if not common_lock(a, b) and not before_start(A, r1, a, r2, b) and bad is None:
                    bad = (r1, a, r2, b)
        if bad:
            r1, a, r2, b = bad
            w, o = (a, b) if a.kind == 'w' else (b, a)
            wr, orr = (r1, r2) if a.kind == 'w' else (r2, r1)
            ctx.check('guarded field', False, 'race:%s::%s' % (cls, fld),
                      'data race on %s::%s: written in %s holding %s, %s at %s:%s in %s holding %s' % (
                          cls, fld, w.fn, toks(w.locks), 'written' if o.kind == 'w' else 'read', o.site and o.site[0], o.site and o.site[1], o.fn,
                          toks(o.locks)), w.site, ['one thread: ' + wr, 'other thread: ' + orr])
        else:
            ctx.check('guarded field', True, None, None, sample='%s::%s: %d conflicting pairs, all share a lock' % (cls, fld, npair))
    ctx.count('conflicting_pairs', pairs)
    # what threads share through pointers: the counters of actions in execution
    for name, s in A.E.thread_summaries.items():
        for st, v in s.paths:
            for e in flat(st.events()):
                if e.kind == 'wr' and not e.held and foreign_memory(e.a):
                    ctx.check('write of a thread through a pointer', False, 'race:pointee:%s' % (e.site[0] if e.site else '?'),
                              '%s writes %s, which it does not own, without a lock' % (name, short(e.a)), e.site, show_trace(st, v))
    for name, effs in sorted(roots.items()):
        for e in effs:
            if e.kind == 'gw':
                ctx.check('write of state that all engines share', any(t[0] == 'G' for t in e.locks), 'race:static:%s' % e.fld,
                          '%s writes %s, which all engines of the program share, and no lock that they share is held' % (e.fn, e.fld), e.site)
            if e.kind == 'pw':
                ok = bool(e.locks)
                ctx.check('write through a pointer that threads share', ok, 'race:pointee:%s:%s' % (e.cls, e.fld),
                          '%s writes what %s::%s points to as plain memory with no lock held' % (e.fn, e.cls, e.fld), e.site)


def before_start(A, r1, a, r2, b):
    """an operation writes while it has seen that the thread is not running, under the lock under which it is started"""
    for (rw, w), (rt, x) in (((r1, a), (r2, b)), ((r2, b), (r1, a))):
        if w.kind != 'w' or not w.info or rw != API or rt == API:
            continue
        s = A.E.thread_summaries.get(rt)
        if s is None:
            continue
        spawns = [e for es in A.roots().values() for e in es if e.kind == 'spawn' and root_name(e) == rt]
        gate = set.intersection(*[{t[1:3] for t in e.locks if t[0] == 'S' and t[3] == 'x'} for e in spawns]) if spawns else set()
        if not gate & {t[1:3] for t in w.locks if t[0] == 'S' and t[3] == 'x'}:
            continue
        clears = {fl for fl in w.info if all(clears_last(A, s, fl, x) for _ in (0,))}
        if clears:
            return True
    return False


def clears_last(A, s, flag, x):
    """does the thread access x only before it clears the flag, which it does on every normal end"""
    n = 0
    for st, v in s.paths:
        if isinstance(v, Throw):
            continue
        n += 1
        evs = list(flat(st.events()))
        last = None
        for i, e in enumerate(evs):
            if e.kind == 'ast' and e.b in (('b', False), ('i', 0)):
                o = A.E.owner(s.interp, e.a, s.f.get('cls'))
                if o and o[1:] == flag:
                    last = i
        if last is None:
            return False
        for e in evs[last + 1:]:
            tmp = set()
            A.E.event(e, s.interp, s.f.get('cls'), tmp)
            if any(t.kind in ('r', 'w') and (t.cls, t.fld) == (x.cls, x.fld) for t in tmp):
                return False
    return n > 0


def foreign_memory(loc):
    r = loc
    while r[0] in ('.', '[]'):
        r = r[1] if r[0] == '.' else (origin(r[1]) or ('?',))
    return r[0] == '*'


# ---------------------------------------------------------------------------------------------- C02
def public_ops(A):
    out = []
    for f in A.p.functions.values():
        if f.get('cls') == 'ptne::PTN_Engine' and f.get('access') == 'public' and 'b' in f and not f.get('lambda') \
                and f.get('kind') not in ('ctor', 'dtor') and not f['bn'].startswith('~') and f['bn'] != 'PTN_Engine':
            out.append(f)
    if len(out) < 15:
        raise AnalysisBroken('the public interface ptne::PTN_Engine has only %d analysed operations' % len(out))
    return sorted(out, key=lambda f: f['n'])


def param_values(f, interp, st):
    return [('P', i) for i in range(len(f['p']))]


def mentions_param(v, i):
    return has(v, ('P', i))


def modifies(A, g, seen=None):
    """does running g (or what it calls) change state of the engine"""
    for e in A.E.of(A.M.summary(g)):
        if e.kind in ('w', 'aw', 'spawn', 'join', 'cb'):
            return e
    return None


@check('C02')
def c02(ctx, A):
    ctx.rule('every path of every public operation performs its effect on the engine exactly once, with the caller\'s arguments and giving the '
             'callee\'s result, inside one uninterrupted hold of the engine\'s lock; the hold is exclusive when the operation, or anything it '
             'calls, writes state of the engine, starts or waits for a thread or calls a user function')
    p = A.p
    proxies = tuple(q for q in A.M.units if q.startswith(PROXY + '::'))
    impcls = 'ptne::PTN_EngineImp'
    # the engine's lock: the mutex of the proxy
    for f in public_ops(A):
        name = f['bn']
        I = A.M.interp(inline=proxies)
        I.objclass = {}
        st = St()
        paths = I.start(f, ('O', 'self'), I.sym_args(f, st), st)
        ctx.count('public_operations')
        ctx.count('paths', len(paths))
        for st, v in paths:
            evs = list(flat(st.events()))
            calls = [e for e in evs if e.kind == 'call' and p.functions[e.a].get('cls') == impcls]
            normal = not isinstance(v, Throw)
            site = tuple(f['l'])
            want = [e for e in calls if p.functions[e.a]['bn'] == name]
            has_namesake = any(g.get('cls') == impcls and g['bn'] == name for g in p.functions.values())
            if not calls and not has_namesake:
                ctx.inc('%s does not go through %s' % (name, impcls))
                continue
            if has_namesake:
                if normal or want:
                    from .structure import skipped
                    sk = skipped(A, st.pc, name) if not want else ...
                    ctx.check('effect exactly once', (len(want) == 1 if normal else len(want) <= 1) if sk is ... else sk, 'once:' + name,
                              'a path of %s performs the operation %d times' % (name, len(want)), site, show_trace(st, v))
            other = [e for e in calls if p.functions[e.a]['bn'] != name and modifies(A, p.functions[e.a])]
            if has_namesake:
                ctx.check('no other effect', not other, 'other:' + name, '%s also performs %s' % (
                    name, ', '.join(p.functions[e.a]['bn'] for e in other)), other[0].site if other else site, show_trace(st, v))
            lock = None
            for e in calls:
                g = p.functions[e.a]
                held = [(m, md) for m, md in e.held]
                mod = modifies(A, g)
                ctx.check('operation runs under the engine lock', bool(held), 'unlocked:' + name,
                          '%s reaches the engine without holding its lock' % name, e.site, show_trace(st, v))
                if held:
                    if mod is not None:
                        ctx.check('modifying operation holds the lock exclusively', any(md == 'x' for m, md in held), 'shared:' + name,
                                  '%s holds the engine lock in shared mode but %s (%s:%s, in %s)' % (
                                      name, {'w': 'writes', 'aw': 'writes', 'spawn': 'starts a thread', 'join': 'waits for a thread',
                                             'cb': 'calls a user function'}[mod.kind] + (' %s::%s' % (mod.cls, mod.fld) if mod.kind in ('w', 'aw') else ''),
                                      mod.site and mod.site[0], mod.site and mod.site[1], mod.fn), e.site, show_trace(st, v),
                                  sample='%s: exclusive hold over %s' % (name, g['n']))
                    else:
                        ctx.check('observing operation holds the lock', True, None, None, sample='%s: hold over %s' % (name, g['n']))
                    ms = {m for m, md in held}
                    lock = ms if lock is None else lock & ms
            if len(calls) > 1:
                # one hold: nothing is released in between
                i0, i1 = evs.index(calls[0]), evs.index(calls[-1])
                gap = [e for e in evs[i0:i1] if e.kind == 'rel' and e.a in (lock or ())]
                ctx.check('one hold', not gap, 'gap:' + name, '%s releases the engine lock in the middle of the operation' % name,
                          gap[0].site if gap else site, show_trace(st, v))
            if len(want) == 1:
                e = want[0]
                g = p.functions[e.a]
                args = e.b[1]
                okargs = len(g['p']) == len(f['p']) and all(mentions_param(a, i) or (a[0] in ('i', 's', 'b', 'e') and not a) for i, a in enumerate(args))
                if len(g['p']) == len(f['p']):
                    wrong = [i for i, a in enumerate(args) if not mentions_param(a, i) and (a[0] in ('i', 's', 'b', 'e') or any(mentions_param(a, j) for j in range(len(args)) if j != i))]
                    unk = [i for i, a in enumerate(args) if not mentions_param(a, i)]
                    ctx.check('arguments reach the engine', False if wrong else (None if unk else True), 'args:' + name,
                              '%s does not pass its parameter %s on' % (name, ', '.join(str(x + 1) for x in wrong or unk)), e.site, show_trace(st, v))
                if normal and f['rt'] != 'void':
                    r = ('R', e.b[2], e.a)
                    ok = True if has(v, r) else (False if v[0] in ('i', 's', 'b', 'e', 'dflt', 'vec') else None)
                    ctx.check('result reaches the caller', ok, 'result:' + name,
                              '%s does not return what the engine answered' % name, e.site, show_trace(st, v))


# ---------------------------------------------------------------------------------------------- C03
def lock_name(t):
    return '%s::%s' % (t[1].split('::')[-1], t[2])


@check('C03')
def c03(ctx, A):
    ctx.rule('the lock acquisition order over all threads has no cycle that is not serialised by a common outer lock, and no lock is acquired '
             'again by its holder')
    ctx.rule('every lock that an operation acquires is released on all of its exits')
    ctx.rule('a thread that is waited for (join) does not need a lock the waiter holds, and no thread that runs user actions is waited for while '
             'the engine lock is held, unless its last step has been observed')
    ctx.rule('while a place waits for a transition to finish checking, it holds no lock which that transition still has to acquire')
    ctx.assume('conditions, and actions that run on the thread that fires the transition, do not call the engine')
    ctx.assume('an action does not call setActionsThreadOption or destroy its engine')
    roots = A.roots()
    edges = {}
    again = {}
    nacq = 0
    for name, effs in roots.items():
        for e in effs:
            if e.kind != 'acq':
                continue
            nacq += 1
            tgt = (e.cls, e.fld)
            for t in e.locks:
                src = t[1:3]
                if src == tgt:
                    if t[0] in ('S', 'own'):
                        again.setdefault(tgt, (e, t, name))
                        continue
                    edges.setdefault((src, tgt), []).append((name, e, t))
                    continue
                edges.setdefault((src, tgt), []).append((name, e, t))
    ctx.count('acquisitions', nacq)
    ctx.count('order_edges', len(edges))
    locks = sorted({x for k in edges for x in k})
    for l in locks:
        if l in again:
            e, t, name = again[l]
            ctx.check('not acquired again', False, 'again:%s::%s' % l, '%s acquires %s::%s, which it already holds' % (e.fn, l[0], l[1]), e.site,
                      ['in ' + name, 'holding ' + toks(e.locks)])
        else:
            ctx.check('not acquired again', True, None, None)
    for l, (e, t, name) in again.items():
        if l not in locks:
            ctx.check('not acquired again', False, 'again:%s::%s' % l, '%s acquires %s::%s, which it already holds' % (e.fn, l[0], l[1]), e.site,
                      ['in ' + name, 'holding ' + toks(e.locks)])
    # cycles
    graph = {}
    for a, b in edges:
        graph.setdefault(a, set()).add(b)
    ncyc = 0
    for cyc in cycles(graph):
        ncyc += 1
        w = witness(A, [edges[(cyc[i], cyc[(i + 1) % len(cyc)])] for i in range(len(cyc))])
        if w:
            key = 'cycle:' + '>'.join('%s.%s' % c for c in cyc)
            ctx.check('acyclic lock order', False, key, 'deadlock: locks are acquired in opposite orders: ' + '; '.join(
                '%s acquires %s while holding %s' % (e.fn, lock_name((0, e.cls, e.fld)), lock_name(t)) for _, e, t in w), w[0][1].site,
                ['%s at %s:%s in %s' % (e.fn, e.site and e.site[0], e.site and e.site[1], n) for n, e, t in w])
    for k in edges:
        ctx.check('acyclic lock order', True, None, None, sample='%s.%s before %s.%s (%d places)' % (k[0] + k[1] + (len(edges[k]),)))
    ctx.count('order_cycles', ncyc)
    # release on all exits
    for s in summaries(A):
        for st, v in s.paths:
            bad = [e for e in flat(st.events()) if e.kind in ('badrel', 'imbalance')]
            ok = not st.held and not bad
            ctx.check('locks released on every exit', ok, 'leak:%s' % s.f['n'], '%s ends %s' % (
                s.f['n'], 'still holding %s' % short(st.held) if st.held else 'after an unbalanced lock operation'), tuple(s.f['l']), show_trace(st, v))
    # joins
    for name, effs in roots.items():
        for e in effs:
            if e.kind == 'join':
                joined(ctx, A, e.cls, e.fld, e.locks, e.info[1], e.site, e.fn, name)
    # replacing the executor: what it owns is destroyed with the locks of that moment
    replaced(ctx, A)
    # places that wait for a transition
    polls(ctx, A)


def cycles(graph, maxlen=4):
    out = []
    nodes = sorted(graph)

    def go(start, path):
        for n in sorted(graph.get(path[-1], ())):
            if n == start:
                out.append(list(path))
            elif n > start and n not in path and len(path) < maxlen:
                go(start, path + [n])
    for n in nodes:
        go(n, [n])
    return out


def witness(A, lists):
    """one acquisition per edge, made by threads that can all be there at the same time"""
    roots = A.roots()
    selfc = {name: self_concurrent(A, name, effs) for name, effs in roots.items()}

    def ok(x, y):
        (n1, e1, t1), (n2, e2, t2) = x, y
        if n1 == n2 and not selfc[n1]:
            return False
        for t in e1.locks:
            for u in e2.locks:
                if t[0] == 'S' and u[0] == 'S' and t[1:3] == u[1:3] and not (t[3] == 's' and u[3] == 's'):
                    return False
        return True

    def go(i, got):
        if i == len(lists):
            return got
        for x in lists[i]:
            if all(ok(x, y) for y in got):
                r = go(i + 1, got + [x])
                if r:
                    return r
        return None
    if len(lists) == 1:      # a lock of the same kind, another object
        for x in lists[0]:
            for y in lists[0]:
                if ok(x, y):
                    return [x, y]
        return None
    # shared acquisitions only exclude an exclusive one: all shared is no deadlock
    if all(e.info == 's' for L in lists for _, e, _ in L):
        return None
    return go(0, [])


def summaries(A):
    out = []
    for f in A.p.functions.values():
        if 'b' in f and norm(f['n']) in A.M.units:
            out.append(A.M.summary(f))
    for f in public_ops(A):
        out.append(A.M.summary(f))
    return out + list(A.E.thread_summaries.values())


def residual(A, s, flags, cls):
    """what a thread still does after it has shown that it is finished"""
    acq, cbs = [], []
    for st, v in s.paths:
        if isinstance(v, Throw):      # an exception that leaves a thread ends the program
            continue
        evs = list(flat(st.events()))
        start = 0
        for i, e in enumerate(evs):
            if e.kind == 'ast' and e.b in (('b', False), ('i', 0)):
                o = A.E.owner(s.interp, e.a, s.f.get('cls') or cls)
                if o and o[1:] in flags:
                    start = i + 1
        for e in evs[start:]:
            tmp = set()
            A.E.event(e, s.interp, s.f.get('cls') or cls, tmp)
            for x in tmp:
                if x.kind == 'acq':
                    acq.append(x)
                elif x.kind == 'cb':
                    cbs.append(x)
    return acq, cbs


def joined(ctx, A, cls, fld, locks, flags, site, fn, rootname, trace=None):
    ths = [(n, s) for n, s in A.E.thread_summaries.items() if any(
        e.kind == 'spawn' and e.cls == cls and root_name(e) == n for es in A.roots().values() for e in es)]
    if not ths:
        if locks:
            ctx.inc('thread %s::%s is waited for at %s but the analysis does not see it started' % (cls, fld, site))
        return
    for n, s in ths:
        acq, cbs = residual(A, s, flags, cls)
        held = {t[1:3] for t in locks}
        bad = [x for x in acq if (x.cls, x.fld) in held]
        ctx.check('joined thread needs no lock of the waiter', not bad, 'join:%s::%s:%s' % (cls, fld, bad and bad[0].fld),
                  '%s waits for a thread while holding %s, which that thread still acquires (%s)' % (fn, toks(locks), bad and bad[0].fn), site, trace,
                  sample='%s waits for %s::%s holding %s; the thread still acquires %s' % (
                      fn, cls, fld, toks(locks), ', '.join(sorted({x.fld for x in acq})) or 'nothing'))
        if is_action_thread(A, n):
            eng = [t for t in locks if t[1] == PROXY]
            ctx.check('no wait for an action under the engine lock', not (cbs and eng), 'joincb:%s::%s' % (cls, fld),
                      '%s waits, holding the engine lock, for a thread that runs user actions: an action that calls the engine would never finish' % fn,
                      site, trace)


def is_action_thread(A, name):
    """user code on this thread is an action of its own (not a step of the event loop)"""
    return not any(e.kind in ('w', 'acq') and e.cls in ('ptne::Place', 'ptne::Transition') for e in A.roots()[name])


def replaced(ctx, A):
    f = A.p.one(PROXY + '::setActionsThreadOption')
    I = A.M.interp(inline=('ptne::PTN_EngineImp::setActionsThreadOption', 'ptne::ActionsExecutorFactory::createExecutor'))
    I.objclass = {}
    st = St()
    n = 0
    for st, v in I.start(f, ('O', 'self'), I.sym_args(f, st), st):
        evs = list(flat(st.events()))
        for e in evs:
            if e.kind != 'join':
                continue
            n += 1
            o = A.E.owner(I, e.a, PROXY)
            locks = frozenset(A.E.lock_token(I, m, md, PROXY) for m, md in e.held)
            cls = o[1] if o else 'ptne::JobQueue'
            joined(ctx, A, cls, o[2] if o else '?', locks, A.E.observed(I, PROXY, st, evs, e), e.site or tuple(f['l']),
                   'destroying the replaced executor in setActionsThreadOption', API, show_trace(st, v))
    ctx.count('executor_destruction_joins', n)


def polls(ctx, A):
    """loops that sleep until an atomic flag is cleared"""
    roots = A.roots()
    for s in summaries(A):
        I, cls = s.interp, s.f.get('cls')
        for L in loops_of(s):
            if L.kind != 'while':
                continue
            for lits, evs, st in L.back:
                sl = [e for e in flat(evs) if e.kind == 'sleep']
                if not sl:
                    continue
                flags = set()
                for atom, pol in lits:
                    if atom[0] == 't' and pol and atom[1][0] == 'aload':
                        o = A.E.owner(I, atom[1][1], cls)
                        if o:
                            flags.add(o[1:])
                need = {}
                for fl in flags:
                    for x in releaser_acquires(A, fl):
                        need.setdefault((x.cls, x.fld), x)
                sites = {e.site for e in sl}
                for name, effs in roots.items():
                    for e in effs:
                        if e.kind == 'sleep' and e.site in sites:
                            bad = [t for t in e.locks if t[1:3] in need]
                            ctx.check('waiting place holds no lock the transition needs', not bad, 'poll:%s' % (bad and bad[0][2]),
                                      '%s sleeps until a transition is done, holding %s, which the transition needs (%s)' % (
                                          e.fn, bad and lock_name(bad[0]), bad and need[bad[0][1:3]].fn), e.site, ['in ' + name],
                                      sample='%s polls %s holding %s; the releaser acquires %s' % (
                                          e.fn, ', '.join(f for _, f in flags), toks(e.locks), ', '.join(sorted(f for _, f in need))))


def loops_of(s):
    seen, out = set(), []

    def go(evs):
        for e in evs:
            if e.kind == 'loop' and id(e.a) not in seen:
                seen.add(id(e.a))
                out.append(e.a)
                for b in e.a.back:
                    go(b[1])
                for x in e.a.exits:
                    go(x[3])
    for st, v in s.paths:
        go(st.events())
    return out


def half_writes(A, s, flag, st):
    """indices of the events of a trace that set or clear a flag, but not both"""
    evs = list(flat(st.events()))
    idx = []
    for i, e in enumerate(evs):
        if e.kind in ('ast', 'axchg'):
            o = A.E.owner(s.interp, e.a, s.f.get('cls'))
            if o and o[1:] == flag:
                idx.append(i)
        elif e.kind == 'call':
            g = A.p.functions.get(e.a)
            if g and 'b' in g and any(x.kind == 'aw' and (x.cls, x.fld) == flag for x in A.E.of(A.M.summary(g))) \
                    and nhalf(A, A.M.summary(g), flag) == 1:
                idx.append(i)
    return evs, idx


def nhalf(A, s, flag, _memo={}):
    k = (id(s), flag)
    if k not in _memo:
        _memo[k] = 0
        _memo[k] = max([len(half_writes(A, s, flag, st)[1]) for st, v in s.paths] or [0])
    return _memo[k]


def releases(A, s, flag):
    """does an operation set a flag and clear it again"""
    return nhalf(A, s, flag) >= 2


def releaser_acquires(A, flag):
    """locks acquired between the first and the last write of a flag in one operation"""
    out = []
    for s in summaries(A):
        if not releases(A, s, flag):
            continue
        for st, v in s.paths:
            evs, idx = half_writes(A, s, flag, st)
            if len(idx) < 2:
                continue
            for e in evs[idx[0] + 1:idx[-1]]:
                if e.kind in ('acq', 'call'):
                    tmp = set()
                    A.E.event(e, s.interp, s.f.get('cls'), tmp)
                    out += [x for x in tmp if x.kind == 'acq']
    return out


# ---------------------------------------------------------------------------------------------- C04
@check('C04')
def c04(ctx, A):
    ctx.rule('on every path of the threads that run actions (job queue worker, detached threads), a user action is called with no lock of the '
             'engine held')
    ctx.rule('in the JOB_QUEUE and DETACHED modes, handing an action over never calls it on the thread that fires the transition')
    roots = A.roots()
    n = 0
    for name in roots:
        if name == API or not is_action_thread(A, name):
            continue
        cbs = [e for e in roots[name] if e.kind == 'cb']
        ctx.count('action_threads')
        for e in cbs:
            n += 1
            ctx.check('action called with no lock held', not e.locks, 'cb:%s' % e.fn, '%s calls a user action while holding %s' % (e.fn, toks(e.locks)), e.site,
                      ['in ' + name], sample='%s calls the action with no lock held (%s)' % (e.fn, name))
    if not n:
        raise AnalysisBroken('no thread was found that runs actions')
    for cls in ('ptne::JobQueueExecutor', 'ptne::DetachedExecutor'):
        f = A.p.one(cls + '::executeAction')
        s = A.M.summary(f)
        cbs = [e for e in A.E.of(s) if e.kind == 'cb']
        ctx.check('hand-over does not run the action', not cbs, 'inline:%s' % cls, '%s runs the action on the calling thread, under the locks of the transition' % cls,
                  cbs[0].site if cbs else tuple(f['l']), sample='%s::executeAction: %d paths, no call of the action' % (cls, len(s.paths)))
