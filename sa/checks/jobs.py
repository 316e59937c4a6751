"""C12: the jobs of a queue run one at a time, in order, exactly once, and none is left without a worker."""
from . import check
from .actions import contains, executors, kept_somewhere
from ..program import Unrecognised
from ..mod import *
from ..rep import show_trace, short

SELF = ('O', 'self')
PUSH = {'pushf': 'popb', 'pushb': 'popf'}
GROW = ('pushf', 'pushb', 'insert', 'emplace')


class Queue:
    """roles of the members of a class that keeps jobs and starts a thread to run them, found from what addJob does"""
    def __init__(self, A, cls):
        self.A, self.cls = A, cls
        p = A.p
        self.units = {norm(f['n']) for f in p.functions.values() if f.get('cls') == cls}
        self.ops = [f for f in p.functions.values() if f.get('cls') == cls and 'b' in f and norm(f['n']) in A.M.units]
        self.add = p.one(cls + '::addJob')
        self.paths = self.run(self.add)
        qs = {e.a for st, v in self.paths for e in flat(st.events()) if e.kind == 'wr' and isinstance(e.b, tuple) and e.b and e.b[0] in GROW}
        qs = {q for q in qs if q[0] == '.' and q[1] == SELF}
        if len(qs) != 1:
            raise Unrecognised('the queue of %s was not recognised' % cls)
        self.q = qs.pop()
        ms = [m for st, v in self.paths for e in flat(st.events()) if e.kind == 'wr' and e.a == self.q for m in [x[0] for x in e.held]]
        self.m = max(set(ms), key=ms.count) if ms else None

    def run(self, f):
        I = self.A.M.interp(inline=self.units)
        I.this_class = {self.cls: SELF}
        st = St()
        return I.start(f, SELF, I.sym_args(f, st), st)

    def init(self):
        out = []
        for f in self.A.p.functions.values():
            if f.get('cls') == self.cls and f.get('kind') == 'ctor' and 'b' in f and not f.get('copy'):
                I = self.A.M.interp(inline=self.units)
                st = St()
                out += [(f, I, s) for s, v in I.start(f, SELF, I.sym_args(f, st), st) if not isinstance(v, Throw)]
        return out


def holds(evs, m):
    """number of the hold of m every event happens in (None: m is not held)"""
    out, n, inside = [], 0, False
    for e in evs:
        if e.kind == 'acq' and e.a == m:
            n, inside = n + 1, True
        out.append(n if inside else None)
        if e.kind in ('rel', 'badrel') and e.a == m:
            inside = False
    return out


def flag_reads(evs, pc, loc):
    """[(index, value)]: what was read from a flag, where a branch depends on it"""
    out = []
    for i, e in enumerate(evs):
        if e.kind in ('ald', 'rd') and e.a == loc:
            v = e.b if e.kind == 'ald' else ('init', loc)
            for a, b in pc.items():
                if a == ('t', v) or a[0] == 'eq' and a[1] == v and a[2][0] in ('b', 'i'):
                    out.append((i, b if a[0] == 't' else b == bool(a[2][1])))
    return out


def truth(v):
    return v[1] if v and v[0] == 'b' else (bool(v[1]) if v and v[0] == 'i' else None)


def flag_writes(evs, loc):
    return [(i, truth(e.b)) for i, e in enumerate(evs) if e.kind in ('ast', 'wr') and e.a == loc]


def queue_val(v, q):
    return contains(v, q)


@check('C12')
def c12(ctx, A):
    p = A.p
    cls = 'ptne::JobQueue'
    Q = Queue(A, cls)
    ctx.rule('every path that ends addJob normally has added the job once, at one end of the queue and under its mutex, and afterwards has started a worker, or has seen - '
             'under the mutex - that a worker is at work, that the queue is inactive, or that no thread can be had')
    ctx.rule('a worker is started only after the flag was seen false and set true in the same hold of the mutex; it is false again in that hold if the start fails')
    ctx.rule('each round of the worker takes the element at the other end, removes it in the same hold and runs it once; the worker ends only with the queue seen empty '
             '(or when asked to stop), and clears the flag in the hold in which it saw that')
    ctx.rule('nothing else adds to, removes from or reorders the queue')
    ctx.assume('the mutex excludes (C01 checks that every access holds it); a job that lets an exception out ends the program')
    ctx.anchor('queue %s under %s' % (short(Q.q), short(Q.m)), tuple(Q.add['l']))
    site = tuple(Q.add['l'])
    if Q.m is None:
        ctx.check('queue has a mutex', False, 'nomutex', 'jobs are added to the queue without holding a mutex', site)
        return
    # -- the starts of workers, in all operations
    allp = [(f, st, v) for f in Q.ops for st, v in (Q.paths if f is Q.add else Q.run(f))]
    spawns = []
    for f, st, v in allp:
        evs = st.events()
        for i, e in enumerate(evs):
            if e.kind == 'spawn':
                spawns.append((f, st, v, evs, i))
        if any(e.kind == 'spawn' for e in flat(evs)) and not any(e.kind == 'spawn' for e in evs):
            ctx.check('worker start', None, '', 'a worker is started in a loop in %s' % norm(f['n']), tuple(f['l']))
    if not any(f is Q.add for f, *_ in spawns):
        ctx.check('worker start', None, '', 'adding a job starts no worker: another design than the one this check knows', site)
        return
    # the flag: set before each start, tested by addJob
    cand = None
    for f, st, v, evs, i in spawns:
        if f is not Q.add:
            continue
        c = {e.a for e in evs[:i] if e.kind in ('ast', 'wr', 'axchg', 'acas') and e.a[0] == '.' and e.a[1] == SELF and e.a != Q.q}
        c |= {e.a for e in evs[:i] if e.kind in ('ald',) and e.a[0] == '.' and e.a[1] == SELF} if not c else set()
        cand = c if cand is None else cand & c
    if not cand or len(cand) != 1:
        ctx.check('worker flag', None, '', 'the flag that says a worker is at work was not recognised', site)
        return
    flag = cand.pop()
    ctx.anchor('flag %s' % short(flag))
    for f, st, v, evs, i in spawns:
        nm = norm(f['n']).split('::')[-1]
        tr = show_trace(st, v)
        hs = holds(evs, Q.m)
        e = evs[i]
        rmw = [x for x in evs[:i] if x.kind in ('axchg', 'acas') and x.a == flag]
        if rmw:
            ctx.check('worker start', None, '', 'the flag is claimed by a read-modify-write', e.site, tr)
            continue
        reads = [(j, b) for j, b in flag_reads(evs, st.pc, flag) if j < i]
        seen = [j for j, b in reads if b is False and hs[j] is not None and hs[j] == hs[i]]
        ctx.check('no worker is at work', bool(seen), nm + ':second', 'a worker is started without having seen in the same hold of the mutex that none is at work', e.site, tr,
                  sample='%s starts a worker only after seeing the flag false in the same hold' % nm)
        ws = [(j, b) for j, b in flag_writes(evs, flag) if j < i and hs[j] is not None and hs[j] == hs[i]]
        ctx.check('flag set before the start', bool(ws) and ws[-1][1] is True, nm + ':unset', 'a worker is started without the flag being set first: its end may be overtaken', e.site, tr)
        aft = [(j, b) for j, b in flag_writes(evs, flag) if j > i]
        ctx.check('flag stays set', not aft or (None if any(b is None for j, b in aft) else all(b for j, b in aft)), nm + ':cleared', 'the flag is cleared by the starter although a worker is at work', e.site, tr)
    for f, st, v in allp:
        evs = st.events()
        for i, e in enumerate(evs):
            if e.kind == 'spawnfail':
                nm = norm(f['n']).split('::')[-1]
                ws = flag_writes(evs, flag)
                ok = not ws or ws[-1][1] is False
                ctx.check('flag false after a failed start', ok, nm + ':failed-start', 'no thread could be started but the flag stays set: the jobs that are added from then on wait for a worker that does not exist',
                          e.site, show_trace(st, v), sample='%s: the flag is false again if the worker cannot be started' % nm)
                hs = holds(evs, Q.m)
                if ws and ok:
                    first = [j for j, b in ws if j < i and b is True]
                    if first:
                        ctx.check('failed start is not seen', hs[first[-1]] is not None and hs[first[-1]] == hs[ws[-1][0]], nm + ':failed-late', 'the flag is reset after the mutex was released', e.site, show_trace(st, v))
    # -- addJob
    push = None
    for st, v in Q.paths:
        evs = st.events()
        tr = show_trace(st, v)
        if isinstance(v, Throw):
            continue
        hs = holds(evs, Q.m)
        ps = [i for i, e in enumerate(evs) if e.kind == 'wr' and e.a == Q.q]
        deep = [e for e in flat(evs) if e.kind == 'wr' and e.a == Q.q and e not in evs]
        if deep:
            ctx.check('job is added once', None, '', 'the queue changes in a loop', deep[0].site, tr)
            continue
        good = [i for i in ps if isinstance(evs[i].b, tuple) and evs[i].b[0] in PUSH and contains(evs[i].b[1:], ('P', 0))]
        odd = [i for i in ps if i not in good]
        if odd:
            known = all(isinstance(evs[i].b, tuple) and evs[i].b and (evs[i].b[0] in ('popf', 'popb', 'clear') or inside(evs[i].b)) for i in odd)
            ctx.check('job is added once', False if known else None, 'addJob:other', 'addJob changes the queue by %s' % short(evs[odd[0]].b), evs[odd[0]].site, tr)
            continue
        ctx.check('job is added once', len(good) == 1, 'addJob:times', 'addJob adds the job %d times' % len(good), evs[good[-1]].site if good else site, tr, sample='addJob adds the job exactly once')
        if len(good) != 1:
            continue
        i = good[0]
        ctx.check('added under the mutex', hs[i] is not None, 'addJob:unlocked', 'the job is added without holding the mutex', evs[i].site, tr)
        op = evs[i].b[0]
        if push is None:
            push = op
        ctx.check('one end', op == push, 'addJob:ends', 'jobs are added at both ends', evs[i].site, tr)
        # who runs it
        def safe(j):
            return hs[j] is not None and (j > i or hs[j] == hs[i])
        sp = [j for j, e in enumerate(evs) if e.kind == 'spawn']
        if sp:
            ctx.check('job has a worker', hs[sp[-1]] is not None and (sp[-1] > i or hs[sp[-1]] == hs[i]), 'addJob:early', 'the worker is started before the job is in the queue', evs[sp[-1]].site, tr)
            continue
        if any(e.kind == 'spawnfail' for e in evs):
            continue
        busy = [(j, b) for j, b in flag_reads(evs, st.pc, flag) if b is True]
        if busy:
            # an atomic load after the mutex was released will do as well: a worker that clears the flag (it does so in the hold in which it saw the
            # queue empty, see below) after that has seen the job, and one that did before cannot be seen at work
            ok = any(safe(j) or j > i and evs[j].kind == 'ald' for j, b in busy)
            ctx.check('job has a worker', ok, 'addJob:stale', 'addJob relies on a worker that was seen at work before the job was in the queue (or without the mutex): it may have found the queue empty',
                      evs[busy[0][0]].site, tr, sample='addJob relies on a running worker only when it was seen under the mutex, with the job in the queue')
            continue
        empty = [a for a, b in st.pc.items() if b and a[0] == 'eq' and a[2] == ('i', 0) and a[1][:2] == ('op', 'size') and queue_val(a[1], Q.q)]
        if empty:
            after = contains(empty[0], ('op',) + (evs[i].b[0],) + empty[0][1][2][2:]) and empty[0][1][2][:2] == ('op', evs[i].b[0])
            ctx.check('job has a worker', True if after else False, 'addJob:empty', 'addJob starts no worker because the queue was empty before the job was added', evs[i].site, tr)
            continue
        off = [a for a, b in st.pc.items() if not b and a[0] == 't' and a[1][0] == 'aload' and a[1][1] != flag and a[1][1][0] == '.']
        if off:
            ctx.check('job has a worker', True, '', '', sample='an inactive queue keeps the job')
            inactive = off[0][1][1]
            for g, I, s in Q.init():
                x = I.peek(s, inactive)
                ctx.check('active from the start', True if x == ('b', True) else (False if x == ('b', False) else None), 'inactive', 'a new queue is inactive: %s' % short(x), tuple(g['l']))
            continue
        kept = {x.a for *_, x2, k in spawns for x in x2[k:] if x.kind == 'thrset' and x.b and x.b[0] == 'thread'}
        if any(b and a[:2] == ('ok', 'joinable') and a[2][0] == 'init' and a[2][1] in kept for a, b in st.pc.items()) and not any(e.kind in ('join', 'detach') for e in flat(evs)):
            ctx.check('job has a worker', False, 'addJob:joinable', 'addJob starts no worker as long as the thread of the last one is joinable, which it stays after the worker has ended', site, tr)
            continue
        unknown = [a for a in st.pc if not any(contains(a, l) for l in (flag, Q.q))]
        ctx.check('job has a worker', None if unknown else False, 'addJob:nobody', 'addJob ends without having started a worker or seen one', site, tr)
    if push is None:
        return
    # -- what the executor hands over
    for c, X in executors(A).items():
        if not any(d[0][0] == 'queue' for t in X.triggers for d in t.deferred):
            continue
        nm = c.split('::')[-1]
        for t in X.triggers:
            if isinstance(t.v, Throw) or t.unclear:
                continue
            qs = [d for d in t.deferred if d[0][0] == 'queue']
            ok = len(qs) == 1 and len(t.deferred) == 1 and not t.direct
            ctx.check('executor queues the action once', True if ok else (None if not qs and kept_somewhere(t) else False), nm + ':handover',
                      '%s puts the action into the queue %d times and runs it %d times otherwise' % (nm, len(qs), len(t.direct) + len(t.deferred) - len(qs)), tuple(X.f['l']), show_trace(t.st, t.v),
                      sample='%s puts the action into the queue once' % nm)
    # -- the worker
    bodies = {}
    for f, st, v, evs, i in spawns:
        e = evs[i]
        bodies.setdefault((e.a[0], e.a[1], e.a[2]), Ev('spawn', e.a, None, e.site, (), None))
    for k, e in bodies.items():
        s = worker(A, e, cls, Q)
        n = 0
        for st, v in s:
            if isinstance(v, Throw):
                continue
            n += 1
            worker_path(ctx, Q, flag, push, st, v, e)
        ctx.count('worker_paths', n)
    # -- nobody else
    for f, st, v in allp:
        if f is Q.add or f.get('kind') == 'dtor':
            continue
        for e in flat(st.events()):
            if e.kind == 'wr' and e.a == Q.q and f.get('kind') != 'ctor':
                ctx.check('nobody else changes the queue', False, 'foreign:' + norm(f['n']).split('::')[-1], '%s changes the queue: %s' % (norm(f['n']), short(e.b)), e.site, show_trace(st, v))
            if e.kind in ('ast', 'wr') and e.a == flag and truth(e.b) is False:
                if not any(x.kind in ('spawnfail', 'join') for x in flat(st.events())):
                    ctx.check('nobody else clears the flag', False, 'cleared:' + norm(f['n']).split('::')[-1], '%s clears the flag although a worker may be at work' % norm(f['n']), e.site, show_trace(st, v))
    ctx.check('nobody else changes the queue', True, '', '', sample='%d other operations leave the queue alone' % (len(Q.ops) - 1))
    for g, I, s in Q.init():
        x = I.peek(s, flag)
        ctx.check('no worker at first', True if truth(x) is False else (False if truth(x) else None), 'init', 'a new queue starts with the flag %s' % short(x), tuple(g['l']))


def worker(A, e, cls, Q):
    return A.M.spawn_body(e, cls, Q.units).paths


def inside(b):
    """is something inserted between the elements of the queue?"""
    p = b[1] if b[0] == 'insert' and len(b) == 3 else None
    return bool(p) and p[:2] in (('op', '+'), ('op', '-')) and len(p) == 4 and p[2][0] == 'it' and p[2][2] in (('begin',), ('end',)) and p[3][0] == 'i' and p[3][1] > 0


def is_elem(v, q, push):
    """'oldest', 'newest', or None: which element of the queue a value is"""
    if v[0] != 'init' or v[1][0] != '[]' or not queue_val(v[1][1], q):
        return None
    k = v[1][2]
    if k == ('last',):
        return 'oldest' if push == 'pushf' else 'newest'
    if k == ('first',) or k == ('i', 0):
        return 'newest' if push == 'pushf' else 'oldest'
    return None


def segment(ctx, Q, push, evs, hs0, where, tr):
    """pairs removal and running within one round"""
    jobs = [(i, e) for i, e in enumerate(evs) if e.kind == 'cb' and queue_val(e.a, Q.q)]
    pops = [(i, e) for i, e in enumerate(evs) if e.kind == 'wr' and e.a == Q.q]
    if not jobs and not pops:
        return
    inner = [x for e in evs if e.kind == 'loop' for x in flat([e]) if x.kind == 'wr' and x.a == Q.q or x.kind == 'cb']
    bad = [e for i, e in pops if not (isinstance(e.b, tuple) and e.b and e.b[0] in ('popf', 'popb'))]
    if inner or bad:
        x = (inner or bad)[0]
        ctx.check('one job per round', None, '', 'the worker changes the queue by %s' % short(x.b), x.site, tr)
        return
    ok = len(jobs) == 1 and len(pops) == 1
    ctx.check('one job per round', ok, 'worker:count', 'a round of the worker removes %d and runs %d jobs' % (len(pops), len(jobs)), (jobs or pops)[0][1].site, tr, sample='a round of the worker removes one job and runs it once')
    if not ok:
        return
    (ji, j), (pi, po) = jobs[0], pops[0]
    el = is_elem(j.a, Q.q, push)
    end = 'oldest' if po.b[0] == PUSH[push] else 'newest'
    if el is None:
        ctx.check('oldest first', None, '', 'the job that is run is %s' % short(j.a), j.site, tr)
        return
    ctx.check('oldest first', el == 'oldest', 'worker:order', 'the worker runs the %s job of the queue first' % el, j.site, tr, sample='the job that is run is the oldest one')
    ctx.check('the job that is run is the one removed', el == end, 'worker:other', 'the worker runs the %s job but removes the %s one' % (el, end), po.site, tr)
    # taken and removed in the same hold, under the mutex
    rds = [i for i, e in enumerate(evs) if e.kind == 'rd' and e.a == j.a[1]]
    got = rds[0] if rds else ji
    held = lambda e: any(m == Q.m for m, x in e.held)
    lo, hi = sorted((got, pi))
    broken = any(e.kind in ('rel', 'acq') and e.a == Q.m for e in evs[lo:hi])
    ctx.check('taken and removed in one hold', held(evs[got]) and held(po) and not broken, 'worker:split', 'the mutex is released between taking the job and removing it', po.site, tr,
              sample='a job is taken and removed in one hold of the mutex')
    ctx.check('removed before it runs', pi < ji or not broken, 'worker:late', 'the job is removed after it ran', po.site, tr)


def worker_path(ctx, Q, flag, push, st, v, sp):
    evs = st.events()
    tr = show_trace(st, v)
    loops = [e for e in evs if e.kind == 'loop' and any(x.kind == 'cb' or x.kind == 'wr' and x.a == Q.q for x in flat([e]))]
    if len(loops) > 1:
        ctx.check('one job per round', None, '', 'the worker has several loops', loops[1].site, tr)
        return
    segment(ctx, Q, push, [e for e in evs if e.kind != 'loop'], None, 'around the loop', tr)
    for L in loops:
        for b in L.a.back:
            segment(ctx, Q, push, b[1], None, 'a round', tr)
            jobs = [e for e in flat(b[1]) if e.kind == 'cb' and queue_val(e.a, Q.q)]
            bw = [e for e in flat(b[1]) if e.kind in ('ast', 'wr') and e.a == flag and truth(e.b) is False]
            ctx.check('flag stays set while the worker works', not bw, 'worker:cleared-early', 'the worker clears the flag and goes on', bw[0].site if bw else None, tr)
            if not jobs and not any(e.kind in ('wait', 'sleep') for e in flat(b[1])):
                ctx.check('one job per round', None, '', 'a round of the worker runs nothing', L.site, tr)
        for x in L.a.exits:
            if x[0] == 'throw':
                continue
            segment(ctx, Q, push, x[3], None, 'the last round', tr)
    # how it ends: what was the last thing known about the queue, and is the flag cleared in that hold?
    seq = []
    for e in evs:
        if e.kind == 'loop' and e in loops:
            x = L.a.exits[e.b] if isinstance(e.b, int) and e.b < len(L.a.exits) else None
            if x is None:
                ctx.check('end of the worker', None, '', 'the loop of the worker is not understood', e.site, tr)
                return
            # the rest of the last round
            seq += [y for y in x[3]]
        else:
            seq.append(e)
    empty = [a for a, b in st.pc.items() if b and a[0] == 'eq' and a[2] == ('i', 0) and a[1][:2] == ('op', 'size') and queue_val(a[1], Q.q)]
    stop = [a for a, b in st.pc.items() if b and a[0] == 't' and a[1][0] == 'aload' and a[1][1][0] == 'stopreq']
    clr = [i for i, e in enumerate(seq) if e.kind in ('ast', 'wr') and e.a == flag]
    site = sp.site
    if not empty and not stop:
        other = [a for a in st.pc if not queue_val(a, Q.q) and not (a[0] == 't' and a[1][0] == 'aload')]
        ctx.check('worker ends with the queue empty', None if other else False, 'worker:leaves', 'the worker ends without having seen the queue empty', site, tr)
    else:
        ctx.check('worker ends with the queue empty', True, '', '', sample='the worker ends when the queue is empty or it is asked to stop')
    okc = bool(clr) and truth(seq[clr[-1]].b) is False
    ctx.check('flag cleared at the end', okc if clr or True else None, 'worker:flag', 'the worker ends and leaves the flag set: no other worker will be started', site, tr, sample='the worker clears the flag when it ends')
    if okc and empty and not stop:
        rd = [i for i, e in enumerate(seq) if e.kind == 'rd' and e.a == Q.q and i < clr[-1]]
        if not rd:
            ctx.check('flag cleared in the hold that saw the queue empty', None, '', 'where the queue is seen empty is not understood', site, tr)
            return
        lo = rd[-1]
        one = not any(e.kind in ('rel', 'acq') and e.a == Q.m for e in seq[lo:clr[-1]]) and any(m == Q.m for m, x in seq[clr[-1]].held) and any(m == Q.m for m, x in seq[lo].held)
        ctx.check('flag cleared in the hold that saw the queue empty', one, 'worker:gap', 'the mutex is not held from seeing the queue empty to clearing the flag: a job added in between is left without a worker',
                  seq[clr[-1]].site, tr, sample='empty is seen and the flag cleared in one hold')
        # nothing happens to the flag afterwards
    late = [e for e in seq[(clr[-1] if clr else 0):] if e.kind == 'cb']
    ctx.check('nothing runs after the flag is cleared', not late, 'worker:after', 'a job runs after the flag was cleared: two may run at once', late[0].site if late else None, tr)
