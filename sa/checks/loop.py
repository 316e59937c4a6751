"""C13 (the loop keeps up with the net), C14 (life cycle of the loop), C20 (single-threaded execution runs to the end), C25 (random order)."""
import re
from . import check
from .actions import contains, subterms
from .jobs import truth
from ..program import Unrecognised
from ..mod import *
from ..rep import show_trace, short

SELF = ('O', 'self')
ENG = 'ptne::PTN_EngineImp'
LOOP = 'ptne::EventLoop'
EXEC = ENG + '::executeInt'


def leaf(l):
    """name of the member a location denotes"""
    return l[2] if isinstance(l, tuple) and l and l[0] == '.' else None


class Engine:
    """the engine and its loop seen as one object: what its operations do, with everything of both classes inlined"""
    def __init__(self, A):
        self.A = A
        p = A.p
        self.units = {u for u in A.M.units if u.rsplit('::', 1)[0] in (ENG, LOOP, 'ptne::IPTN_EngineEL')}
        self.refs = {}
        self.init = []
        for f in p.functions.values():
            if f.get('cls') == ENG and f.get('kind') == 'ctor' and 'b' in f:
                I = A.M.interp(inline=self.units)
                st = St()
                for s, v in I.start(f, SELF, I.sym_args(f, st), st):
                    if not isinstance(v, Throw):
                        self.init.append((f, I, s))
                        self.refs.update({k: x for k, x in s.mem.items() if x[0] == 'ref' and x[1] == SELF})
        if not self.init:
            raise AnalysisBroken('the constructor of the engine was not found')
        self.cache = {}
        self.start = self.view(ENG + '::execute', keep=(EXEC,))
        sp = [e for st, v in self.start for e in flat(st.events()) if e.kind == 'spawn']
        if not sp:
            raise Unrecognised('execute starts no thread in any mode')
        self.spawns = {(e.a[0], e.a[1], e.a[2]): e for e in sp}
        fl = None
        for st, v in self.start:
            evs = st.events()
            for i, e in enumerate(evs):
                if e.kind == 'spawn':
                    c = {x.a for x in evs[:i] if x.kind in ('ast', 'wr', 'axchg', 'acas') and truth(x.b) is not False}
                    fl = c if fl is None else fl & c
        self.running = fl.pop() if fl and len(fl) == 1 else None
        if self.running is None:
            # not set before the start: take what the answer of isEventLoopRunning is made of
            for st, v in self.view(ENG + '::isEventLoopRunning'):
                out = []
                subterms(v, 'aload', out) if isinstance(v, tuple) else None
                if out:
                    self.running = out[0][1]
        if self.running is None:
            raise Unrecognised('the flag that says whether the loop runs was not recognised')
        ts = {e.a for st, v in self.start for e in flat(st.events()) if e.kind == 'thrset'}
        self.thread = ts.pop() if len(ts) == 1 else None
        self.inc = self.view(ENG + '::incrementInputPlace')
        fs = [e.a for st, v in self.inc for e in flat(st.events()) if e.kind in ('ast', 'wr', 'axchg') and truth(e.b) is True]
        self.input = fs[0] if fs else None
        self.stop = self.view(ENG + '::stop')
        # where the duration is kept
        ws = [e.a for st, v in self.view(ENG + '::setEventLoopSleepDuration') for e in flat(st.events()) if e.kind in ('wr', 'ast')]
        self.sleep = ws[0] if ws else None
        self.bodies = []
        for e in self.spawns.values():
            self.bodies += [(e, st, v) for st, v in A.M.spawn_body(Ev('spawn', e.a, None, e.site, (), None), ENG, self.units - {EXEC}, self.refs).paths]

    def view(self, q, keep=(), more=()):
        k = (q, tuple(keep), tuple(more))
        if k not in self.cache:
            f = self.A.p.one(q)
            I = self.A.M.interp(inline=(self.units | set(more)) - set(keep))
            I.this_class = {ENG: SELF}
            st = St()
            st.mem.update(self.refs)
            self.cache[k] = I.start(f, SELF, I.sym_args(f, st), st)
        return self.cache[k]


def engine(A):
    if 'engine' not in A.M.cache:
        A.M.cache['engine'] = Engine(A)
    return A.M.cache['engine']


def is_exec(A, e):
    return e.kind == 'call' and norm(A.p.functions[e.a]['n']) in (EXEC, 'ptne::IPTN_EngineEL::executeInt')


def answer(e, lits):
    """what a branch found out about the answer of a call"""
    for a, b in (lits.items() if isinstance(lits, dict) else lits):
        if a[0] == 't' and a[1][0] in ('init', 'sym') and contains(a[1], ('R', e.b[2], e.a)):
            return b
        if a[0] == 'eq' and contains(a[1], ('R', e.b[2], e.a)) and a[2][0] in ('b', 'i'):
            return b == bool(a[2][1])
    return None


def is_stop(a):
    return a[0] == 't' and a[1][0] == 'aload' and isinstance(a[1][1], tuple) and a[1][1][0] == 'stopreq'


def flag_atom(a, loc):
    """polarity with which a fact reads a flag, None if it does not"""
    if a[0] == 't' and (a[1][0] == 'aload' and a[1][1] == loc or a[1] == ('init', loc) or a[1][0] == 'sym' and loc in a[1]):
        return True
    if a[0] == 'eq' and (a[1][0] == 'aload' and a[1][1] == loc or a[1] == ('init', loc)) and a[2][0] in ('b', 'i'):
        return bool(a[2][1])
    return None


def single_mode(E, st):
    """whether a path belongs to the mode SINGLE_THREAD, None if it does not say"""
    out = None
    for a, b in st.pc.items():
        if a[0] == 'eq' and a[2][0] == 'e' and a[2][1].endswith('SINGLE_THREAD') and not a[2][1].endswith('::') or a[0] == 'eq' and a[1][0] == 'e' and a[1][1].endswith('SINGLE_THREAD'):
            return b
        if a[0] == 'eq' and b and any(x[0] == 'e' and 'ACTIONS_THREAD_OPTION' in x[1] for x in a[1:3]):
            out = False
    return out


def impossible_mode(A, st):
    """a path on which the mode is none of the modes there are"""
    xs = [len(x) for k, x in A.p.enums.items() if norm(k).endswith('ACTIONS_THREAD_OPTION')]
    no = {}
    for a, b in st.pc.items():
        if a[0] == 'eq' and not b:
            for x, y in ((a[1], a[2]), (a[2], a[1])):
                if x[0] == 'e' and 'ACTIONS_THREAD_OPTION' in x[1]:
                    no.setdefault(y, set()).add(x[1])
    return bool(xs) and any(len(x) >= xs[0] for x in no.values())


def flag_known(lits, loc):
    for a, b in (lits.items() if isinstance(lits, dict) else lits):
        p = flag_atom(a, loc)
        if p is not None:
            return b == p
    return None


def used(A, key):
    """an operation is called, directly or not, by what a user can call (or by the loop)"""
    if 'used' not in A.M.cache:
        seen = set()
        work = [f['key'] for f in A.p.functions.values() if (f.get('cls') or '').endswith('PTN_EngineImpProxy') and 'b' in f and norm(f['n']) in A.M.units]
        work += [f['key'] for f in A.p.find(EXEC)]
        while work:
            k = work.pop()
            if k in seen:
                continue
            seen.add(k)
            f = A.p.functions.get(k)
            if f is None or 'b' not in f:
                continue
            for st, v in A.M.summary(f).paths:
                work += [e.a for e in flat(st.events()) if e.kind == 'call']
        A.M.cache['used'] = seen
    return key in A.M.cache['used']


def settings(ctx, A, E, kind='setting answered'):
    """the duration that is answered is the one that was set"""
    P0 = ('init', ('P', 0))
    f = A.p.one(ENG + '::setEventLoopSleepDuration')
    if E.sleep is None:
        ctx.check(kind, None, 'sleep', 'where the sleep duration is kept is not understood', tuple(f['l']))
        return
    old = ('init', E.sleep)
    for st, v in E.view(ENG + '::setEventLoopSleepDuration'):
        if isinstance(v, Throw):
            continue
        x = st.mem.get(E.sleep, old)
        ls = list(st.pc.items())
        same = any(b and a in (('eq', P0, old), ('eq', old, P0)) for a, b in ls)
        negative = any(b and a[0] == 'lt' and a[1] == P0 and a[2][0] == 'i' and a[2][1] <= 0 for a, b in ls)
        ok = True if x == P0 or x == old and same else None if negative else False if x == old or x[0] == 'i' else None
        ctx.check(kind, ok, 'sleep-set', 'the sleep duration is set to %s instead of the one given' % ('what it was' if x == old else short(x)), tuple(f['l']), show_trace(st, v),
                  sample='the sleep duration kept is the one given')
    g = A.p.one(ENG + '::getEventLoopSleepDuration')
    for st, v in E.view(ENG + '::getEventLoopSleepDuration'):
        if isinstance(v, Throw):
            continue
        ok = True if v == old else False if isinstance(v, tuple) and v and (v[0] == 'i' or v[0] == 'init' and v[1] != E.sleep) else None
        ctx.check(kind, ok, 'sleep-get', 'the sleep duration answered is %s' % short(v), tuple(g['l']), show_trace(st, v), sample='the sleep duration answered is the one kept')


# ---------------------------------------------------------------------- C13
@check('C13')
def c13(ctx, A):
    E = engine(A)
    settings(ctx, A, E)
    ctx.rule('the loop thread ends only when it is asked to stop, looks at that request between any two rounds, and examines the net once in every round')
    ctx.rule('it waits only after a round in which nothing fired; the wait is bounded by the configured sleep duration (the one last set) and its predicate is true as soon as a stop is '
             'requested or input has arrived, whatever the other says (truth table)')
    ctx.rule('while it waits the loop holds no lock but that of its condition variable')
    ctx.rule('input is announced after the tokens are in place, and both input and stop requests pass through the mutex of the waiting loop before it is notified, so that no '
             'notification can fall between the evaluation of the predicate and the wait')
    ctx.rule('the announcement is taken back only before the net is examined (every path of a round, and nowhere else)')
    ctx.assume('condition variables and stop tokens behave as the standard says; timing of the scheduler is not bounded')
    if E.input is None:
        ctx.check('input is announced', False, 'announce', 'putting a token into an input place does not tell the loop', tuple(A.p.one(ENG + '::incrementInputPlace')['l']))
        return
    ctx.anchor('announcement %s' % short(E.input))
    mutexes = set()
    # -- the body
    n = 0
    for sp, st, v in E.bodies:
        if isinstance(v, Throw):
            continue
        n += 1
        tr = show_trace(st, v)
        evs = st.events()
        loops = [e for e in flat(evs) if e.kind == 'loop' and any(is_exec(A, x) for x in flat([e]))]
        ctx.check('loop ends when asked to', any(is_stop(a) and b for a, b in st.pc.items()) or (None if any(a[0] not in ('t', 'eq', 'lt') for a in st.pc) else False), 'ends', 'the loop thread ends without having been asked to stop', sp.site, tr,
                  sample='the loop thread ends only when it is asked to stop')
        if not loops:
            ctx.check('rounds', None, '', 'no loop of rounds was recognised', sp.site, tr)
            continue
        for L in loops:
            for lits, bevs, *_ in L.a.back:
                body_round(ctx, A, E, L, lits, list(bevs), mutexes)
    ctx.count('loop_paths', n)
    # -- input
    f = A.p.one(ENG + '::incrementInputPlace')
    for st, v in E.inc:
        if isinstance(v, Throw):
            continue
        evs = st.events()
        tr = show_trace(st, v)
        site = tuple(f['l'])
        tok = [i for i, e in enumerate(evs) if e.kind == 'call' and 'incrementInputPlace' in A.p.functions[e.a]['n']]
        setf = [i for i, e in enumerate(evs) if e.kind in ('ast', 'wr', 'axchg') and e.a == E.input]
        ok = bool(setf) and truth(evs[setf[-1]].b) is True
        ctx.check('input is announced', ok, 'announce', 'incrementInputPlace ends without having announced the input', site, tr, sample='incrementInputPlace announces the input on every path that adds a token')
        if not ok:
            continue
        ctx.check('announced after the tokens', not tok or tok[-1] < setf[-1], 'announce:early', 'the input is announced before the token is in its place: a round may consume the announcement and miss the token', evs[setf[-1]].site, tr,
                  sample='the input is announced after the token was added')
        if evs[setf[-1]].kind == 'axchg' and any(flag_atom(a, E.input) == b for a, b in st.pc.items()):
            continue        # announced before and not yet taken back: whoever did so wakes the loop
        if any(e.kind == 'ald' and e.a == E.running and st.pc.get(('t', e.b)) is False for e in evs[setf[-1]:]):
            continue        # no loop is running that could wait
        wake(ctx, A, E, evs, setf[-1], mutexes, 'input', site, tr)
    # -- stop
    f = A.p.one(ENG + '::stop')
    for st, v in E.stop:
        if isinstance(v, Throw):
            continue
        evs = st.events()
        rs = [i for i, e in enumerate(evs) if e.kind == 'reqstop']
        if rs:
            wake(ctx, A, E, evs, rs[0], mutexes, 'stop', tuple(f['l']), show_trace(st, v))
    # -- taking back
    back = 0
    for nm in sorted(E.units):
        if not nm.startswith(ENG + '::') or nm.endswith('::setNewInputReceived'):
            continue
        fs = A.p.find(nm)
        if len(fs) != 1 or 'b' not in fs[0] or not used(A, fs[0]['key']):
            continue
        f = fs[0]
        for st, v in E.view(nm, keep=() if nm == EXEC else (EXEC,), more=('ptne::TransitionsManager::collectEnabledTransitionsRandomly',) if nm == EXEC else ()):
            evs = st.events()
            takes = [i for i, e in enumerate(evs) if e.kind in ('ast', 'wr', 'axchg') and e.a == E.input and truth(e.b) is False]
            deep = [e for e in flat(evs) if e not in evs and e.kind in ('ast', 'wr', 'axchg') and e.a == E.input and truth(e.b) is False]
            if deep:
                ctx.check('taken back in time', None if nm != EXEC else False, 'reset:loop', '%s takes the announcement back in a loop' % nm, deep[0].site, show_trace(st, v))
            if nm == EXEC:
                look = [i for i, e in enumerate(evs) if any(x.kind == 'call' and ('isEnabled' in A.p.functions[x.a]['n'] or 'Enabled' in A.p.functions[x.a]['n']) for x in flat([e]))]
                for i in takes:
                    back += 1
                    ctx.check('taken back in time', not look or i < look[0], 'reset:late', 'a round takes back the announcement of new input after it has looked for enabled transitions: input that arrived in between waits for the next timeout',
                              evs[i].site, show_trace(st, v), sample='a round takes the announcement back before it looks at the net')
            else:
                for i in takes:
                    later = [e for e in evs[i:] if e.kind == 'spawn' or is_exec(A, e) or e.kind == 'loop' and any(is_exec(A, x) for x in flat([e]))]
                    if nm == ENG + '::execute' and later:
                        back += 1
                        continue
                    ctx.check('taken back in time', False, 'reset:' + nm.split('::')[-1], '%s takes back the announcement of new input' % nm, evs[i].site, show_trace(st, v))
    for sp, st, v in E.bodies:
        for e in flat(st.events()):
            if e.kind in ('ast', 'wr', 'axchg') and e.a == E.input and truth(e.b) is False:
                back += 1
    ctx.check('the loop can sleep again', back > 0, 'noreset', 'the announcement of new input is never taken back: the loop never sleeps again', None, None)


def body_round(ctx, A, E, L, lits, evs, mutexes):
    ex = [i for i, e in enumerate(evs) if is_exec(A, e)]
    inner = [e for e in evs if e.kind == 'loop' and any(is_exec(A, x) for x in flat([e]))]
    site = L.site
    if not inner:
        ctx.check('one examination per round', len(ex) == 1, 'rounds', 'a round of the loop examines the net %d times' % len(ex), site, None, sample='a round of the loop thread examines the net once')
    asked = any(is_stop(a) for a, b in lits) or any(e.kind == 'stopq' for e in flat(evs))
    ctx.check('stop request looked at between rounds', asked, 'deaf', 'the loop goes from one round to the next without looking at the stop request', site, None, sample='the stop request is looked at between two rounds')
    for i, e in enumerate(evs):
        if e.kind == 'sleep':
            ctx.check('waits can be interrupted', False, 'sleep', 'the loop sleeps where neither input nor a stop request can wake it', e.site)
        if e.kind != 'wait':
            continue
        m, timed, dur, preds = (tuple(e.b) + (None,) * 4)[:4]
        mutexes.add(m)
        others = [x for x, mode in e.held if x != m]
        ctx.check('a waiting loop keeps nobody out', not others, 'holding', 'the loop waits while it holds %s: whoever needs it (and whoever needs what that one holds) waits with it' % ', '.join(short(x) for x in others), e.site,
                  sample='the waiting loop holds no lock but the one of its condition variable')
        before = [j for j in ex if j < i]
        if before:
            ans = answer(evs[before[-1]], lits)
            ctx.check('waits only when nothing fired', ans is False, 'lazy', 'the loop waits %s' % ('although something fired in this round' if ans else 'without regard to whether something fired in this round'), e.site,
                      sample='the loop waits only after a round in which nothing fired')
        elif not inner:
            ctx.check('waits only when nothing fired', None, '', 'the loop waits before it examines the net', e.site)
        ctx.check('wait is bounded', bool(timed), 'unbounded', 'the wait has no timeout: transitions that become enabled without new input are noticed only when input arrives', e.site, sample='the wait is bounded')
        if timed:
            okd = E.sleep is not None and as_configured(dur, E.sleep)
            ctx.check('wait is as long as configured', okd if okd is not None else (False if dur and dur[0] == 'i' or dur and E.sleep and not contains(dur, E.sleep) and dur[0] == 'init' else None), 'duration', 'the wait lasts %s, not the configured sleep duration' % short(dur), e.site,
                      sample='the wait lasts the configured sleep duration')
            if E.sleep is not None and contains(dur, E.sleep):
                fresh = any(x.kind in ('rd', 'ald') and x.a == E.sleep for x in flat(evs[:i]))
                ctx.check('duration is the one last set', fresh or (None if any(x.kind == 'call' and not is_exec(A, x) for x in flat(evs[:i])) else False), 'stale',
                          'the sleep duration is not looked up in the round that waits: one that is set while the loop runs is ignored', e.site, sample='the duration is looked up in the round that waits')
        taken = [j for j, x in enumerate(evs) if x.kind in ('ast', 'wr', 'axchg') and x.a == E.input and truth(x.b) is False and (not before or before[-1] < j) and j < i]
        ctx.check('taken back in time', not taken, 'reset:round', 'the announcement is taken back between examining the net and waiting', evs[taken[0]].site if taken else None)
        if not preds:
            acq = max([j for j, x in enumerate(evs[:i]) if x.kind == 'acq' and x.a == m], default=None)
            seen_stop = acq is not None and any(x.kind == 'stopq' for x in evs[acq:i])
            seen_in = acq is not None and any(x.kind in ('ald', 'rd') and x.a == E.input for x in evs[acq:i])
            ctx.check('no lost wake-up', None if seen_stop and seen_in else False, 'nopredicate', 'the loop waits without having looked, under the mutex, at %s' % ('the stop request' if not seen_stop else 'the input'), e.site)
            continue
        for stop in (False, True):
            for inp in (False, True):
                got = predicate(preds, E, stop, inp)
                want = stop or inp
                what = 'stop requested: %s, input: %s' % (stop, inp)
                if want:
                    ctx.check('predicate', None if got is None else got, 'predicate:%d%d' % (stop, inp), 'the loop goes on waiting (%s)' % what, e.site, sample='the wait ends with %s' % what)


def as_configured(v, loc):
    """whether a duration is the configured one: False when it is made from it by arithmetic with constants, None when that is not understood"""
    if v == ('init', loc):
        return True
    if not isinstance(v, tuple) or not contains(v, ('init', loc)):
        return None
    if v[0] == 'op' and v[1] in ('cast', 'conv'):
        return as_configured(v[-1], loc)
    if v[0] == 'op' and v[1] in ('dur', 'count', 'trunc'):
        return False if as_configured(v[-1], loc) is True else None
    if v[0] == 'op' and v[1] in ('chrono*', 'chrono/', 'chrono%', 'chrono+', 'chrono-', '*', '/', '+', '-', '%'):
        rest = [x for x in v[2:] if not contains(x, ('init', loc))]
        if rest and all(x[0] == 'i' or x[:2] == ('op', 'scalar') and x[2][0] == 'i' for x in rest):
            return False
    return None


def predicate(preds, E, stop, inp):
    res = set()
    for lits, val, *_ in preds:
        ok = True
        for a, b in lits:
            if is_stop(a):
                t = stop
            else:
                p = flag_atom(a, E.input)
                t = None if p is None else (inp == p)
            if t is None:
                ok = None if ok else ok
            elif t != b:
                ok = False
                break
        if ok is False:
            continue
        if ok is None:
            # depends on something else: it may be false although it should be true
            res.add(truth_of(val, E, stop, inp))
            continue
        res.add(truth_of(val, E, stop, inp))
    if res == {True}:
        return True
    if None in res or not res:
        return None
    return False


def truth_of(v, E, stop, inp):
    if isinstance(v, bool):
        return v
    if not isinstance(v, tuple):
        return None
    if v[0] == 'b':
        return v[1]
    if v[0] == 'B':
        a = v[1]
        t = stop if is_stop(a) else (None if flag_atom(a, E.input) is None else inp == flag_atom(a, E.input))
        return None if t is None else t == v[2]
    if v[0] == 'aload':
        return inp if v[1] == E.input else (stop if v[1][0] == 'stopreq' else None)
    return None


def wake(ctx, A, E, evs, i, mutexes, what, site, tr):
    """after event i (what the waiting loop looks for has changed) the loop is woken, through its mutex"""
    nt = [j for j, e in enumerate(evs) if e.kind == 'notify' and j > i]
    ctx.check('the loop is woken', bool(nt), 'wake:' + what, 'the waiting loop is not notified of %s' % ('new input' if what == 'input' else 'the stop request'), site, tr, sample='%s notifies the waiting loop' % what)
    if not nt:
        return
    if not mutexes:
        return
    held_set = any(m in mutexes for m, x in evs[i].held)
    through = held_set or any(e.kind == 'acq' and e.a in mutexes for e in evs[i:nt[-1]])
    ctx.check('no lost wake-up', through, 'lost:' + what, 'the loop is notified of %s without passing through its mutex: it may have evaluated its predicate already and not wait yet' % ('new input' if what == 'input' else 'the stop request'),
              evs[nt[0]].site, tr, sample='%s passes through the mutex of the waiting loop before it is notified' % what)


# ---------------------------------------------------------------------- C14
@check('C14')
def c14(ctx, A):
    E = engine(A)
    p = A.p
    ctx.rule('execute while the loop runs is refused with a PTN_Exception and has no effect; otherwise, in the modes with a loop, every path that ends normally has set the '
             'flag and then started the thread, and every path that fails leaves the flag as it was')
    ctx.rule('the thread clears the flag on every path on which it ends, as the last thing it does; nobody else clears it while the thread may run')
    ctx.rule('stop on a running loop requests the stop, wakes the loop and joins it, except from the loop thread itself, which it never joins')
    ctx.rule('the engine answers whether the loop runs from that flag')
    ctx.anchor('flag %s, thread %s' % (short(E.running), short(E.thread)))
    f = p.one(ENG + '::execute')
    site = tuple(f['l'])
    for st, v in E.start:
        evs = st.events()
        tr = show_trace(st, v)
        all_ = list(flat(evs))
        sp = [i for i, e in enumerate(evs) if e.kind == 'spawn']
        fail = [e for e in evs if e.kind == 'spawnfail']
        known = flag_known(st.pc, E.running)
        effects = [e for e in all_ if e.kind in ('spawn', 'spawnfail', 'wr', 'ast', 'armw', 'axchg', 'thrset', 'reqstop', 'join') and not (e.kind == 'wr' and e.a[0] in ('L', 'tmp')) or is_exec(A, e)]
        if known is True:
            refused = isinstance(v, Throw) and p.derives(v.typ, 'ptne::PTN_Exception')
            ctx.check('refused while running', refused, 'start:twice', 'execute while the loop runs ends with %s' % (v if isinstance(v, Throw) else 'success'), site, tr, sample='execute is refused while the loop runs')
            ctx.check('refusal has no effect', not effects, 'start:refusal', 'execute is refused but not without effect: %s' % (effects and effects[0].kind), effects[0].site if effects else None, tr)
            continue
        if known is None and effects:
            rmw = any(e.kind in ('axchg', 'acas') and e.a == E.running for e in evs)
            ctx.check('refused while running', None if rmw else False, 'start:unguarded', 'execute starts without looking whether the loop runs', effects[0].site, tr)
            continue
        if impossible_mode(A, st):
            continue
        if known is False and not effects and isinstance(v, Throw) and not fail and not any(e.kind == 'callthrow' for e in all_) and v.typ and p.derives(v.typ, 'ptne::PTN_Exception'):
            ctx.check('starts when it does not run', False, 'start:refused', 'execute is refused although the loop does not run', site, tr)
            continue
        inl = single_mode(E, st)
        if inl is not None and not isinstance(v, Throw) and known is not True:
            ran = [e for e in all_ if is_exec(A, e)]
            if inl:
                ctx.check('the mode decides who executes', not sp, 'mode:thread', 'execute starts a thread in the mode SINGLE_THREAD', evs[sp[0]].site if sp else site, tr, sample='SINGLE_THREAD executes on the calling thread')
            else:
                ctx.check('the mode decides who executes', bool(sp) or None if not ran else False, 'mode:inline', 'execute examines the net on the calling thread in a mode other than SINGLE_THREAD', ran[0].site if ran else site, tr,
                          sample='the other modes execute on the loop thread')
        if known is False and effects:
            looked = [i for i, e in enumerate(all_) if e.kind in ('ald', 'rd') and e.a == E.running]
            first = all_.index(effects[0])
            ctx.check('looks before it acts', bool(looked) and looked[0] < first, 'start:late', 'execute acts before it looks whether the loop runs', effects[0].site, tr)
        ws = [(i, truth(e.b)) for i, e in enumerate(evs) if e.kind in ('ast', 'wr') and e.a == E.running]
        if sp:
            ctx.check('flag set before the thread starts', bool([1 for i, b in ws if b and i < sp[0]]), 'start:order', 'the thread is started before the flag is set: it may end first, and the flag stays set for ever', evs[sp[0]].site, tr,
                      sample='the flag is set before the thread starts')
            bad = [1 for i, b in ws if b is False and (i > sp[0] or not any(j > i and c for j, c in ws if j < sp[0]))]
            ctx.check('flag stays set', not bad, 'start:cleared', 'execute clears the flag although the thread runs', evs[sp[0]].site, tr)
            continue
        last = ws[-1][1] if ws else False
        if fail:
            ctx.check('failed start is reported', isinstance(v, Throw), 'start:silent', 'execute ends normally although the thread could not be started', fail[0].site, tr, sample='a thread that cannot be started is reported')
        ctx.check('flag clear without a thread', None if last is None else not last, 'start:stuck' + ('-fail' if fail else ''), 'execute ends%s without a thread but the flag stays set: the engine can neither be started nor stopped' % (' with an exception' if isinstance(v, Throw) else ''),
                  site, tr, sample='the flag is clear when no thread was started')
        if not isinstance(v, Throw) and not fail:
            ran = any(is_exec(A, e) for e in all_)
            ctx.check('execute executes', ran, 'start:nothing', 'execute ends normally without having started anything', site, tr)
    n = 0
    for sp, st, v in E.bodies:
        if isinstance(v, Throw):
            continue
        n += 1
        evs = st.events()
        tr = show_trace(st, v)
        ws = [i for i, e in enumerate(evs) if e.kind in ('ast', 'wr') and e.a == E.running]
        ok = bool(ws) and truth(evs[ws[-1]].b) is False
        ctx.check('flag cleared at the end', ok, 'body:stuck', 'the loop thread ends and leaves the flag set', sp.site, tr, sample='the loop thread clears the flag at its end')
        if ok:
            later = [e for e in evs[ws[-1] + 1:] if e.kind in ('call', 'cb', 'wait', 'wr', 'ast', 'loop', 'notify', 'acq')]
            ctx.check('clearing is the last thing', not later, 'body:late', 'the loop thread goes on after it said it has ended', later[0].site if later else None, tr)
        early = [e for e in flat(evs) if e not in evs and e.kind in ('ast', 'wr') and e.a == E.running and truth(e.b) is False]
        ctx.check('flag stays set while the loop runs', not early, 'body:early', 'the loop thread clears the flag and goes on', early[0].site if early else None, tr)
    ctx.count('loop_paths', n)
    f = p.one(ENG + '::stop')
    site = tuple(f['l'])
    reached = 0
    for st, v in E.stop:
        evs = st.events()
        tr = show_trace(st, v)
        if isinstance(v, Throw):
            ctx.check('stop does not fail', None, '', 'stop may end with %s' % v, site)
            continue
        known = flag_known(st.pc, E.running)
        rs = [i for i, e in enumerate(evs) if e.kind == 'reqstop' and e.a == E.thread]
        jn = [i for i, e in enumerate(evs) if e.kind == 'join' and e.a == E.thread]
        tid = None
        for a, b in st.pc.items():
            if a[0] == 'eq' and contains(a, ('self',)) and contains(a, E.thread):
                tid = b
        none = any(a[0] == 'ok' and not b and contains(a, E.thread) for a, b in st.pc.items())
        if jn:
            ctx.check('never joins itself', tid is False, 'stop:self', 'stop joins the loop thread without making sure that it is not called by it', evs[jn[0]].site, tr, sample='stop joins the loop thread only from another thread')
            ctx.check('asks before it waits', bool(rs) and rs[0] < jn[0], 'stop:order', 'stop waits for the loop thread before asking it to stop', evs[jn[0]].site, tr)
            nt = [i for i, e in enumerate(evs) if e.kind == 'notify' and rs and rs[0] < i]
            ctx.check('wakes before it waits', bool(nt) and nt[0] < jn[0], 'stop:wake', 'stop waits for the loop thread without waking it first', evs[jn[0]].site, tr)
        if known is False or none:
            continue
        reached += 1
        if not rs and any(e.kind == 'detach' for e in evs):
            ctx.check('stop ends the loop', False, 'stop:detach', 'stop lets go of a running thread', site, tr)
            continue
        ctx.check('stop ends the loop', bool(rs), 'stop:request', 'stop ends without having asked the running loop to stop', site, tr, sample='stop requests the stop of a running loop')
        if tid is not True:
            ctx.check('stop waits for the end', bool(jn), 'stop:join', 'stop ends while the loop thread may still be running', site, tr, sample='stop joins the loop thread')
    ctx.check('stop ends the loop', reached > 0 or False, 'stop:never', 'stop has no path for a running loop', site)
    for st, v in E.view(ENG + '::isEventLoopRunning'):
        if isinstance(v, Throw):
            continue
        ok = v[0] == 'aload' and v[1] == E.running or v == ('init', E.running)
        if not ok and v[0] == 'b':
            k = flag_known(st.pc, E.running)
            ok = None if k is None else k == v[1]
            ok = False if ok is None else ok
        elif not ok:
            ok = None if contains(v, E.running) else False
        ctx.check('answer', ok, 'answer', 'isEventLoopRunning answers %s' % short(v), tuple(p.one(ENG + '::isEventLoopRunning')['l']), show_trace(st, v), sample='isEventLoopRunning answers the flag')
    for g, I, s in E.init:
        x = I.peek(s, E.running)
        ctx.check('not running at first', True if truth(x) is False else (False if truth(x) else None), 'init', 'a new engine says that it runs', tuple(g['l']))
    for nm in sorted(E.units):
        fs = A.p.find(nm)
        if not nm.startswith(ENG + '::') or nm in (ENG + '::execute',) or len(fs) != 1 or 'b' not in fs[0]:
            continue
        for st, v in E.view(nm, keep=(EXEC,) if nm != EXEC else ()):
            evs = list(flat(st.events()))
            for i, e in enumerate(evs):
                if e.kind in ('ast', 'wr', 'axchg') and e.a == E.running:
                    okw = truth(e.b) is False and any(x.kind == 'join' and x.a == E.thread for x in evs[:i])
                    ctx.check('nobody else sets the flag', okw, 'foreign:' + nm.split('::')[-1], '%s changes the flag that says whether the loop runs' % nm, e.site, show_trace(st, v))


# ---------------------------------------------------------------------- C20
COLLECT = ('ptne::TransitionsManager::collectEnabledTransitionsRandomly', 'ptne::TransitionsManager::getItems', 'ptne::ManagedContainer::getItems')


def is_fire(A, e):
    return e.kind == 'call' and norm(A.p.functions[e.a]['n']) == 'ptne::Transition::execute'


def enabled_sets(dom, out):
    """the collections of elements that a domain is built from"""
    while dom[0] == 'op' and dom[1] in ('perm', 'popb', 'popf'):
        dom = dom[2]
    subterms(dom, 'each', out)


def is_weak_of(l, dom):
    """a location is (what is pointed to by) the current element of a domain"""
    while isinstance(l, tuple) and l:
        if l[0] == '[]':
            return l[1] == dom and l[2][0] == 'ix'
        if l[0] in ('*', 'init', 'weak'):
            l = l[1]
        elif l[0] == '.' and l[2] == 'second':
            l = l[1]
        elif l[0] == 'op' and l[1] in ('lock', 'get'):
            l = l[2]
        else:
            return False
    return False


def bare(dom):
    while isinstance(dom, tuple) and dom and dom[0] == 'op' and dom[1] == 'perm':
        dom = dom[2]
    return dom


def sequence(A, L):
    """the sequence a loop walks through: its domain, or (counting loops) what the index is applied to"""
    dom = L.a.dom
    if dom is None:
        return None
    for e in flat([L]):
        if is_fire(A, e):
            l = e.b[0]
            while isinstance(l, tuple) and l and l[0] != '[]':
                l = l[2] if l[0] == 'op' else (l[1] if l[0] in ('*', 'init', 'weak', '.') and len(l) > 1 else None)
            if l and bare(l[1]) == bare(dom):
                return l[1]
    return dom


def rounds(A):
    return [(st, v) for st, v in engine(A).view(EXEC, more=COLLECT)]


@check('C20')
def c20(ctx, A):
    E = engine(A)
    ctx.rule('without a loop thread, execute ends normally only after a round in which nothing fired, and goes on as long as something fires')
    ctx.rule('a round tries every transition that was found enabled exactly once (no early exit, no filter but isEnabled), and answers true exactly if one of them fired')
    ctx.rule('the transitions that are looked at are all the transitions of the net')
    f = A.p.one(ENG + '::execute')
    site = tuple(f['l'])
    n = 0
    for st, v in E.start:
        evs = st.events()
        if isinstance(v, Throw) or any(e.kind in ('spawn', 'spawnfail') for e in evs):
            continue
        n += 1
        tr = show_trace(st, v)
        calls = [e for e in evs if is_exec(A, e)]
        loops = [e for e in evs if e.kind == 'loop' and any(is_exec(A, x) for x in flat([e]))]
        last = calls[-1] if calls else None
        if last is None:
            # the examinations happen in a loop, and it ends without one of them as its last word
            counted = any(a[0] == 'lt' for a in st.pc) or any(a[0] == 'lt' for L in loops for x in L.a.exits for a, b in (x[1] if len(x) > 1 and isinstance(x[1], (list, tuple)) else ()) if isinstance(a, tuple))
            counted = counted and all(any(is_exec(A, e) and answer(e, lits) is True for e in bevs) for L in loops for lits, bevs, *_ in L.a.back)
            ctx.check('ends only when nothing fires', None if loops and not counted else False, 'nothing' if not loops else 'bounded', 'execute ends without having examined the net' if not loops else 'execute ends after a number of rounds, although something may have fired in the last one',
                      loops[0].site if loops else site, tr)
            continue
        a = answer(last, st.pc)
        ctx.check('ends only when nothing fires', True if a is False else False, 'early', 'execute ends %s' % ('although something fired in the last round' if a else 'without regard to whether something fired in the last round'), last.site, tr,
                  sample='execute ends only after a round in which nothing fired')
        if not loops:
            ctx.check('goes on while something fires', False, 'once', 'execute examines the net only once', last.site, tr)
        for L in loops:
            for lits, bevs, *_ in L.a.back:
                ex = [e for e in bevs if is_exec(A, e)]
                ctx.check('goes on while something fires', None if len(ex) != 1 else True, '', 'a round examines the net %d times' % len(ex), L.site)
                for e in ex:
                    a = answer(e, lits)
                    if a is False:
                        ctx.check('goes on while something fires', False, 'spins', 'execute goes on after a round in which nothing fired: it does not end', e.site, tr)
    ctx.count('paths_without_thread', n)
    if not n:
        ctx.check('ends only when nothing fires', None, '', 'no mode executes on the calling thread', site)
    round_rules(ctx, A)
    from .firing import literal_rounds
    literal_rounds(ctx, A, 'a transition that can fire gets its turn')


def round_rules(ctx, A):
    f = A.p.one(EXEC)
    site = tuple(f['l'])
    n = 0
    for st, v in rounds(A):
        if isinstance(v, Throw):
            continue
        n += 1
        evs = st.events()
        tr = show_trace(st, v)
        loose = [e for e in evs if is_fire(A, e)]
        loops = [e for e in evs if e.kind == 'loop' and any(is_fire(A, x) for x in flat([e]))]
        if loose or len(loops) != 1:
            none = not loose and not loops
            ctx.check('every enabled transition is tried once', False if none and not [e for e in evs if e.kind == 'loop'] else None, 'tries:none', 'a round tries transitions in %d loops and %d times outside of one' % (len(loops), len(loose)), site, tr)
            continue
        L = loops[0]
        dom = sequence(A, L)
        if L.a.kind != 'each' or dom is None:
            ctx.check('every enabled transition is tried once', None, '', 'the loop over the enabled transitions is not understood', L.site, tr)
            continue
        for lits, bevs, *_ in L.a.back:
            fs = [e for e in bevs if is_fire(A, e)]
            deep = [e for e in flat(bevs) if is_fire(A, e) and e not in bevs]
            gone = any(a[0] == 'nn' and not b for a, b in lits)
            if deep:
                ctx.check('every enabled transition is tried once', None, '', 'a transition is fired in an inner loop', deep[0].site, tr)
                continue
            if not fs and gone:
                continue
            ctx.check('every enabled transition is tried once', len(fs) == 1, 'tries:%d' % len(fs), 'for some enabled transition a round calls execute %d times' % len(fs), fs[0].site if fs else L.site, tr,
                      sample='a round calls execute once for every enabled transition')
            for e in fs:
                ctx.check('the one that was found', True if is_weak_of(e.b[0], dom) else None, '', 'a round fires %s' % short(e.b[0]), e.site, tr)
        for x in L.a.exits:
            if x[0] in ('throw', 'done'):
                continue
            bt = [e for e in flat(x[3]) if e.kind == 'throw']
            ctx.check('no early end of a round', bool(bt), 'early-exit', 'a round ends before it has tried all the enabled transitions', L.site, tr)
        # the answer
        key = [e.a for e in flat([L]) if is_fire(A, e)]
        if v[0] == 'b':
            ex = [(a, b) for a, b in st.pc.items() if a[0] == 'ex' and bare(a[1]) == bare(dom) and fired_exactly(a[2], key)]
            if ex:
                ctx.check('answers whether something fired', ex[0][1] == v[1], 'answer', 'a round answers %s %s' % (v[1], 'although a transition fired' if ex[0][1] else 'although no transition fired'), site, tr,
                          sample='a round answers %s exactly if %s' % (v[1], 'a transition fired' if v[1] else 'none fired'))
            else:
                empty = any(b and a[0] == 'eq' and a[2] == ('i', 0) and contains(a[1], dom) for a, b in st.pc.items()) or any(a[0] == 'ne' and not b for a, b in st.pc.items())
                if empty:
                    ctx.check('answers whether something fired', v[1] is False, 'answer:empty', 'a round with nothing enabled answers true', site, tr)
                else:
                    weird = any(a[0] in ('ex', 'lt', 'eq') and contains(a, dom) for a in st.pc)
                    ctx.check('answers whether something fired', None if weird else False, 'answer:blind', 'a round answers %s without regard to whether a transition fired' % v[1], site, tr)
        elif counted_answer(v, dom, key) is not None:
            ctx.check('answers whether something fired', counted_answer(v, dom, key), 'answer', 'a round answers %s' % short(v), site, tr)
        elif v[0] == 'B' and v[1][0] == 'ex':
            ctx.check('answers whether something fired', v[2] is True and fired_exactly(v[1][2], key) or (None if not fired_exactly(v[1][2], key) else False), 'answer', 'a round answers %s' % short(v), site, tr)
        else:
            one = last_only(v, L, key)
            ctx.check('answers whether something fired', False if one else None, 'answer:last', 'a round answers %s' % (one or short(v)), site, tr)
        # what is looked at
        sets = []
        enabled_sets(dom, sets)
        if len(sets) != 1:
            ctx.check('all transitions are looked at', None, '', 'the enabled transitions are %s' % short(dom), L.site, tr)
            continue
        _, src, dnf, el = sets[0]
        whole = src[0] == 'init' and leaf(src[1]) == 'm_items' or src[0] == 'init' and src[1][0] == '.'
        if src[0] == 'op' or not whole:
            ctx.check('all transitions are looked at', None, '', 'transitions are taken from %s' % short(src), L.site, tr)
        else:
            ctx.check('all transitions are looked at', True, '', '', sample='transitions are taken from %s' % short(src))
        good = enabled_exactly(A, dnf)
        ctx.check('those that are enabled', good, 'filter', 'the transitions that are tried are those with %s' % short(dnf), L.site, tr, sample='exactly the transitions that say they are enabled are tried')
        core = dom
        while core[0] == 'op' and core[1] == 'perm':
            core = core[2]
        if core[0] == 'op':
            ctx.check('all that are enabled', False if core[1] in ('popb', 'popf', 'erase', 'take', 'resize', 'clear') else None, 'cut', 'the transitions that are tried are %s' % short(dom), L.site, tr)
    ctx.count('paths_of_a_round', n)


def counted_answer(v, dom, keys):
    """the answer is 'the number of those that fired is not zero'"""
    if v[0] != 'B':
        return None
    a, pol = v[1], v[2]
    for x, y, neg in ((a[1], a[2], False), (a[2], a[1], True)) if a[0] in ('eq', 'lt') else ():
        if x[0] == 'op' and x[1] == 'count' and bare(x[2]) == bare(dom) and y[0] == 'i':
            if not fired_exactly(x[3], keys):
                return None
            if a[0] == 'eq':
                return y[1] == 0 and pol is False
            return (neg and y[1] == 0 and pol is True) or (not neg and y[1] == 1 and pol is False)
    return None


def fired_exactly(dnf, keys):
    return len(dnf) == 1 and len(dnf[0]) == 1 and dnf[0][0][1] is True and dnf[0][0][0][0] == 't' and any(k in str(dnf[0][0][0]) for k in keys)


def enabled_exactly(A, dnf):
    """the filter is 'isEnabled answers true'"""
    if len(dnf) == 1 and len(dnf[0]) == 1:
        a, b = dnf[0][0]
        if a[0] == 't' and 'isEnabled' in str(a):
            return b is True
        return None
    if dnf == ((),) or dnf == () or dnf == []:
        return False
    if all(any('isEnabled' in str(a) and b for a, b in t) for t in dnf):
        # an additional filter
        extra = [a for t in dnf for a, b in t if 'isEnabled' not in str(a) and a[0] != 'nn']
        return False if len(dnf) == 1 and extra else None
    return None


def last_only(v, L, keys):
    """the answer is a variable of the loop: which rounds make it differ from 'it was true before or this one fired'?"""
    if v[0] == 'B' and v[2] is True and v[1][0] == 't':
        v = v[1][1]
    if v[0] != 'sym' or v[1] != 'loop' or len(v) < 4:
        return None
    loc = v[3]

    def fire_atom(a):
        return a[0] == 't' and a[1][0] == 'init' and a[1][1][0] == 'R' and a[1][1][2] in keys
    for lits, bevs, s in L.a.back:
        for old in (False, True):
            for fired in (False, True):
                env = True
                for a, b in lits:
                    x = fired if fire_atom(a) else (old if a[0] == 't' and a[1][0] == 'sym' and a[1][-1] == loc else None)
                    if x is not None and x != b:
                        env = False
                if not env or not any(e.kind == 'call' and e.a in keys for e in bevs):
                    continue
                x = s.mem.get(loc)
                if x is None:
                    continue
                if x[0] == 'b':
                    new = x[1]
                elif x[0] == 'init' and x[1][0] == 'R' and x[1][2] in keys:
                    new = fired
                elif x[0] == 'B' and fire_atom(x[1]):
                    new = fired == x[2]
                elif x[0] == 'sym' and x[-1] == loc:
                    new = old
                else:
                    continue
                if new != (old or fired):
                    return '%s after a transition that %s, although it was %s before' % (new, 'fired' if fired else 'did not fire', old)
    return None


# ---------------------------------------------------------------------- C25
@check('C25')
def c25(ctx, A):
    ctx.rule('the order in which a round tries the enabled transitions is a uniform shuffle (std::shuffle) of all of them, with an engine seeded from random_device, '
             'on every path; nothing reorders or cuts the sequence between the shuffle and the firing')
    ctx.assume('random_device is non-deterministic and std::shuffle uniform, as the standard library promises; no statistical claim is checked')
    f = A.p.one(EXEC)
    site = tuple(f['l'])
    n = 0
    for st, v in rounds(A):
        if isinstance(v, Throw):
            continue
        evs = st.events()
        tr = show_trace(st, v)
        for L in [e for e in evs if e.kind == 'loop' and any(is_fire(A, x) for x in flat([e]))]:
            n += 1
            dom = sequence(A, L)
            if dom is None:
                ctx.check('shuffled', None, '', 'the order is not understood', L.site, tr)
                continue
            if dom[0] == 'vec' and at_most_one(st.pc, dom):
                ctx.check('shuffled', True, '', '', sample='at most one transition is enabled: there is nothing to put in order')
                continue
            if dom[0] != 'op' or dom[1] != 'perm':
                inner = []
                subterms(dom, 'op', inner)
                perm = [x for x in inner if x[1] == 'perm']
                plain = dom[0] == 'vec' or dom[0] == 'init'
                ctx.check('shuffled', False if plain and not perm else None, 'order', 'the enabled transitions are tried in a fixed order: %s' % short(dom), L.site, tr)
                continue
            kind, eng = dom[3], dom[4] if len(dom) > 4 else None
            ctx.check('shuffled', kind == 'shuffle' or (False if kind in ('sort', 'stable_sort', 'reverse', 'rotate', 'partition', 'partial') else None), 'order', 'the enabled transitions are put in order by %s' % ('a shuffle of some of them' if kind == 'partial' else kind), L.site, tr,
                      sample='the enabled transitions are shuffled')
            if kind == 'shuffle':
                rnd = eng is not None and contains(eng, ('op', 'random'))
                const = eng is not None and not rnd and eng[:2] == ('op', 'engine') and all(fixed(x) for x in eng[2:])
                if eng is not None and not rnd and not const:
                    kept = kept_engine(A, eng, f)
                    rnd, const = kept is True, kept is False
                ctx.check('seeded', True if rnd else (False if const else None), 'seed', 'the shuffle uses %s: the order is the same in every run' % short(eng), L.site, tr, sample='the shuffle is seeded from random_device')
    ctx.count('firing_loops', n)


def at_most_one(pc, coll):
    """do the facts of a path say that a collection has fewer than two elements?"""
    size = ('op', 'size', coll)

    def num(v, n):
        return n if v == size else v[1] if v[0] == 'i' else None

    def fits(n):
        for a, b in pc.items():
            if a[0] in ('lt', 'eq') and size in a[1:]:
                x, y = num(a[1], n), num(a[2], n)
                if x is not None and y is not None and ((x < y) if a[0] == 'lt' else (x == y)) != b:
                    return False
            if a[0] == 'ne' and a[1] == coll and b is False:
                return n == 0
        return True
    return any(fits(n) for n in (0, 1)) and not any(fits(n) for n in (2, 3, 5, 100))


def owner(p, loc, top):
    """the class of the object at a location under the object an operation is called on"""
    if loc == SELF:
        return top
    if loc[0] == '.':
        c = owner(p, loc[1], top)
        fd = c and p.field(c, loc[2])
        return p.strip(fd['t']) if fd else None
    return None


def kept_engine(A, eng, f):
    """is an engine that outlives the round seeded from random_device?  True, False or None"""
    locs = []
    todo = [eng]
    while todo:
        x = todo.pop()
        if isinstance(x, tuple):
            if x[:1] == ('G',) or x[:1] == ('.',) and len(x) == 3 and isinstance(x[2], str):
                locs.append(x)
            else:
                todo += x
    if len(locs) != 1:
        return None
    l, p = locs[0], A.p
    if l[0] == 'G':
        g = p.globals.get(l[1])
        if not g:
            return None
        inits = [g.get('init')]
        t = g.get('t', '')
    else:
        cls = owner(p, l[1], f['cls'])
        fd = cls and p.field(cls, l[2])
        if not fd:
            return None
        t = fd['t']
        inits = []
        for h in p.functions.values():
            if h.get('cls') == cls and h.get('kind') == 'ctor' and 'b' in h and not h.get('implicit'):
                mine = [x for x in h.get('inits', []) if x.get('fld') == l[2]]
                inits += [x.get('e') for x in mine] or [fd.get('init')]
        inits = inits or [fd.get('init')]
    if not ('mersenne' in t or 'linear_congruential' in t or 'mt19937' in t or 'random_engine' in t):
        return None
    for h in p.functions.values():
        if 'b' in h and h['n'].startswith('ptne') and '_engine' in repr(h['b']) and re.search(r'_engine[^\']*::seed\b', repr(h['b'])):
            return None
    txt = [repr(x) for x in inits]
    if all('random_device' in x for x in txt):
        return True
    if any('random_device' in x or 'clock' in x or "'call'" in x or "'mcall'" in x or "'g'" in x or "'p'" in x for x in txt):
        return None
    return False


def fixed(v):
    """a value that is the same in every run on the same net"""
    if not isinstance(v, tuple) or not v:
        return True
    if v[0] in ('i', 'e', 's', 'b'):
        return True
    if v[0] == 'op':
        return v[1] == 'size' or v[1] in ('+', '-', '*', '^', '&', '|', '<<', '>>', 'cast', 'conv') and all(fixed(x) for x in v[2:])
    return False
