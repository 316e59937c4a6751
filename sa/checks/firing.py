"""C05 (when a transition fires), C06 (what firing does), C10 (blocking of the activation places)."""
from itertools import product
from . import check
from .tokens import field_returned
from ..program import Unrecognised
from ..mod import *
from ..rep import show_trace, short
from ..tables import *

SELF = ('O', 'self')
ELEM = ('O', 'elem')


def is_call(A, e, name):
    return e.kind == 'call' and norm(A.p.functions[e.a]['n']) == name


# answers and names of the additional conditions
CONDS = [()] + [((b, n),) for b in (False, True) for n in ('c', '')] + [((b, 'c'), (d, n)) for b, d, n in ((False, False, ''), (False, True, ''), (True, False, ''), (True, True, ''), (True, True, 'c'))]


class Net:
    """where the parts of a net are kept: derived from the accessors, not from names of private members"""
    def __init__(self, A):
        p = A.p
        self.A = A
        g = lambda n: field_returned(A, 'ptne::Transition::' + n)[2]
        self.act, self.dst, self.inh, self.cond = g('getActivationArcs'), g('getDestinationArcs'), g('getInhibitorArcs'), g('getAdditionalActivationConditions')
        arc = p.fields('ptne::Arc')
        if not arc:
            raise AnalysisBroken('anchor vanished: ptne::Arc')
        pl = [f['name'] for f in arc if 'weak_ptr' in f['t'] or 'shared_ptr' in f['t'] or 'WeakPtr' in f['t']]
        wt = [f['name'] for f in arc if p.tinfo(f['t']).get('cat') == 'int']
        if len(pl) != 1 or len(wt) != 1:
            raise Unrecognised('ptne::Arc is not a place and a weight')
        self.place, self.weight = pl[0], wt[0]
        self.count = field_returned(A, 'ptne::Place::getNumberOfTokens')
        self.inexec = self.busy_loc(A)
        ctor = [f for f in p.functions.values() if f.get('cls') == 'ptne::Transition' and f.get('kind') == 'ctor' and 'b' in f]
        if len(ctor) != 1:
            raise AnalysisBroken('the constructor of ptne::Transition was not found')
        self.ctor = ctor[0]
        bools = [i for i, q in enumerate(self.ctor['p']) if p.tinfo(p.strip(q['t'])).get('cat') == 'bool' or p.strip(q['t']) == 'bool']
        if len(bools) != 1:
            raise Unrecognised('the flag of the constructor of ptne::Transition was not found')
        I = A.M.interp()
        st = St()
        flags = set()
        for s, v in I.start(self.ctor, SELF, I.sym_args(self.ctor, st), st):
            if isinstance(v, Throw):
                continue
            for f in p.fields('ptne::Transition'):
                if I.peek(s, ('.', SELF, f['name'])) == ('init', ('P', bools[0])):
                    flags.add(f['name'])
        if len(flags) != 1:
            raise Unrecognised('the flag for actions in execution of ptne::Transition was not found')
        self.flag = flags.pop()

    @staticmethod
    def busy_loc(A):
        """the counter behind isOnEnterActionInExecution"""
        f = A.p.one('ptne::Place::isOnEnterActionInExecution')
        out = set()

        def loads(v):
            if isinstance(v, tuple) and v:
                if v[0] == 'aload':
                    out.add(v[1])
                else:
                    for y in v:
                        loads(y)
        for st, v in A.M.summary(f).paths:
            if not isinstance(v, Throw):
                loads(v)
                for a in st.pc:
                    loads(a)
        if len(out) != 1:
            raise Unrecognised('isOnEnterActionInExecution does not look at one counter')
        return out.pop()

    def execute(self, name='ptne::Transition::execute'):
        """all paths, with the const accessors of the places inlined"""
        key = ('net', name)
        if key not in self.A.M.cache:
            p = self.A.p
            acc = {norm(f['n']) for f in p.functions.values() if f.get('cls') == 'ptne::Place' and f.get('const') and 'b' in f}
            acc |= {'ptne::Place::getNumberOfTokens', 'ptne::Place::isOnEnterActionInExecution'}
            acc |= {'ptne::Transition::' + m for m in 'getName getActivationArcs getDestinationArcs getInhibitorArcs getAdditionalActivationConditions isEnabled'.split()}
            I = self.A.M.interp(inline=acc | {name})
            f = p.one(name)
            I.this_class = {'ptne::Transition': SELF}
            st = St()
            self.A.M.cache[key] = (f, I, I.start(f, SELF, I.sym_args(f, st), st))
        return self.A.M.cache[key]

    def shaped(self, sizes, name='ptne::Transition::execute'):
        """all paths for given numbers of (activation, destination, inhibitor arcs, conditions), loops followed step by step"""
        key = ('net', name, sizes)
        if key not in self.A.M.cache:
            f, I0, _ = self.execute(name)
            I = Interp(self.A.p, opaque=I0.opaque)
            I.shape = {('init', ('.', SELF, x)): n for x, n in zip((self.act, self.dst, self.inh, self.cond), sizes)}
            I.alive = True
            I.this_class = {'ptne::Transition': SELF}
            st = St()
            self.A.M.cache[key] = (f, I, I.start(f, SELF, I.sym_args(f, st), st))
        return self.A.M.cache[key]

    # -------------------------------------------------------------- small models
    def mkplace(self, t, x):
        o = Obj()
        put(o, self.count, SELF, t)
        put(o, self.inexec, SELF, x)
        return o

    def arc(self, t, w, x=0):
        o = Obj()
        o[self.place] = self.mkplace(t, x)
        o[self.weight] = w
        return o

    @staticmethod
    def condition(answer, name):
        return Obj(first=name, second=Obj(result=int(answer)))

    def dims(self, deep=False):
        ta = [(0, 0, 0), (0, 1, 0), (1, 1, 0), (1, 2, 0), (2, 1, 0), (2, 2, 0), (1, 1, 1), (0, 1, 1), (2, 1, 2)]
        ti = [(0, 1), (1, 1), (1, 2), (2, 1), (2, 2)]
        if deep:
            ta = [(t, w, x) for t in (0, 1, 2, 3) for w in (0, 1, 2, 3) for x in (0, 1, 2)]
            ti = [(t, w) for t in (0, 1, 2, 3) for w in (0, 1, 2, 3)]
        n = (0, 1, 2)

        def seqs(xs, n):
            return [c for k in n for c in product(xs, repeat=k)]
        big = [1 << 8, 1 << 16, 1 << 31, 1 << 32, 1 << 63, (1 << 64) - 1]
        said = [x for x in self.A.p.numbers() if x not in big]
        A = [(c, [self.arc(*a) for a in c]) for c in seqs(ta, n) + [((t, w, x),) for b in big for t, w, x in ((b, 1, 0), (1, b, 0), (b, b, 0), (1, 1, b))] +
                                                       [((t, w, x),) for b in said for t, w, x in ((b, 1, 0), (b, 2, 0), (b, b, 0), (b - 1, b, 0), (1, 1, b))]]
        Inh = [(c, [self.arc(t, w) for t, w in c]) for c in seqs(ti, n) + [((b, 1),) for b in big] + [(x,) for b in said for x in ((b, 1), (0, b), (b, b))]]
        C = [(c, [self.condition(*b) for b in c]) for c in CONDS]
        R = [(False, 0), (True, 1)]
        D = [((), []), (((0, 1),), [self.arc(0, 1)]), (((5, 2),), [self.arc(5, 2)])]
        return {self.act: A, self.inh: Inh, self.cond: C, self.flag: R, self.dst: D[:1 if not deep else 2]}

    def should(self, m):
        return (all(t >= w for t, w, x in m[self.act][0]) and all(t == 0 for t, w in m[self.inh][0]) and all(b for b, n in m[self.cond][0])
                and (not m[self.flag][0] or all(x == 0 for t, w, x in m[self.act][0])))

    def tell(self, m):
        return 'activation arcs (tokens, weight, actions in execution) %s, inhibitor arcs (tokens, weight) %s, conditions (answer, name) %s, requires no actions in execution: %s' % (
            list(m[self.act][0]), list(m[self.inh][0]), list(m[self.cond][0]), m[self.flag][0])


def net(A):
    if 'netobj' not in A.M.cache:
        A.M.cache['netobj'] = Net(A)
    return A.M.cache['netobj']


MOVES = ('ptne::Place::exitPlace', 'ptne::Place::enterPlace', 'ptne::Place::setNumberOfTokens')


def moves(A, evs):
    return [e for e in flat(evs) if any(is_call(A, e, m) for m in MOVES)]


def outcome(A, st, v):
    """fires, stays, or fails"""
    if isinstance(v, Throw):
        return 'fail'
    return 'fire' if moves(A, st.events()) or v == ('b', True) else 'stay'


def expired(A, st, v):
    """fails because a place is gone or because an operation of a place or a condition failed"""
    return isinstance(v, Throw) and (any(e.kind in ('callthrow', 'cbthrow') for e in flat(st.events())))


@check('C05')
def c05(ctx, A):
    N = net(A)
    ctx.rule('the branch facts of every path of Transition::execute (accessors of places inlined) are tabulated over small nets (0-2 activation arcs, 0-2 '
             'inhibitor arcs, 0-2 conditions, all orderings of tokens against weights, actions in execution or not): the path must fire exactly if '
             'every activation place has at least the arc weight, every inhibitor place is empty, every condition answers true and, if the '
             'transition asks for it, no activation place has an on-enter action in execution')
    ctx.rule('the answer used to pre-select transitions (isEnabled) is true whenever the transition could fire')
    ctx.rule('every path of a whole round (registry, pre-selection and accessors inlined) over a registry with one transition, tabulated over nets in which it can fire: it gets exactly one turn')
    ctx.rule('the count of actions in execution that is looked at is the one on-enter actions, and only these, are counted in')
    ctx.assume('facts are comparisons of counts and weights, so that 0-2 arcs and counts 0-3 separate all orderings; a fact of another form is inconclusive')
    dims = N.dims(ctx.tier == 'thorough')
    f, I, paths = N.execute()
    ctx.anchor('decision to fire', tuple(f['l']))
    tabulate(ctx, A, N, f, paths, dims, lambda st, v: outcome(A, st, v), lambda m: 'fire' if N.should(m) else 'stay', 'execute')
    from .actions import right_count
    right_count(ctx, A)
    f2, I2, paths2 = N.execute('ptne::Transition::isEnabled')

    def out2(st, v):
        if isinstance(v, Throw):
            return 'fail'
        if v in (('b', True), ('b', False)):
            return 'fire' if v[1] else 'stay'
        return v
    d2 = {k: (x if k in (N.act, N.inh) else [y for y in x if len(y[0]) < 2 and all(b[1] for b in y[0])] if k == N.cond else x) for k, x in dims.items()}
    tabulate(ctx, A, N, f2, paths2, d2, out2, lambda m: 'fire' if N.should(m) else None, 'isEnabled')
    literal_rounds(ctx, A, 'a transition that can fire gets its turn')


def literal_rounds(ctx, A, check):
    """one transition in the net: a round gives it a turn whenever it can fire, and never more than one"""
    N = net(A)
    p = A.p
    from .loop import engine, EXEC, COLLECT, ENG
    holder = [f['name'] for f in p.fields(ENG) if p.strip(f['t']).endswith('TransitionsManager')]
    f = p.one(EXEC)
    if len(holder) != 1:
        return ctx.check(check, None, '', 'the transitions of the engine were not found', tuple(f['l']))
    acc = {norm(g['n']) for g in p.functions.values() if g.get('cls') in ('ptne::Place', 'ptne::Transition') and g.get('const') and 'b' in g}
    acc |= {'ptne::Place::getNumberOfTokens', 'ptne::Place::isOnEnterActionInExecution'}
    E = engine(A)
    opaque = A.M.interp(inline=E.units | set(COLLECT) | acc | {EXEC}).opaque
    # the registry, as the loop over all transitions names it
    items = None
    for I, paths in ((None, E.view(EXEC, more=COLLECT)),):
        for st, v in paths:
            for e in flat(st.events()):
                if e.kind == 'rd' and isinstance(e.a, tuple) and e.a[0] == '.' and e.a[1] == ('.', SELF, holder[0]):
                    items = e.a
    if items is None:
        return ctx.check(check, None, '', 'the registry of the transitions was not found', tuple(f['l']))
    T = ('*', ('init', ('.', ('[]', ('init', items), ('i', 0)), 'second')))
    n = und = 0
    for sz in [(0, 0, 0, 0), (1, 1, 0, 0), (1, 0, 1, 1), (2, 1, 1, 0), (1, 1, 2, 2)]:
        I = Interp(p, opaque=opaque)
        I.shape = {('init', ('.', T, x)): k for x, k in zip((N.act, N.dst, N.inh, N.cond), sz)}
        I.shape[('init', items)] = 1
        I.alive = True
        I.this_class = {ENG: SELF}
        st = St()
        st.mem.update(E.refs)
        paths = I.start(f, SELF, I.sym_args(f, st), st)
        if I.truncated:
            und += 1
            continue
        for ws in ((1, 1), (2, 1), (1, 3)):
            for extra in (0, 1):
                for busy, flag in ((0, 0), (0, 1), (1, 0)):
                    t = Obj()
                    act = [N.arc(w + extra, w, busy) for w in ws[:sz[0]]]
                    dst = [N.arc(0, w) for w in ws[:sz[1]]]
                    t[N.act], t[N.dst], t[N.inh] = act, dst, [N.arc(0, w) for w in ws[:sz[2]]]
                    t[N.cond] = [Obj(first='c', second=Obj(result=1)) for _ in range(sz[3])]
                    t[N.flag] = flag
                    reg = Obj()
                    reg[items[2]] = [Obj(first='t', second=t)]
                    m = {holder[0]: ('', reg)}
                    n += 1
                    some = False
                    for s, v in paths:
                        if isinstance(v, Throw):
                            continue
                        h = PathTable(s.pc, {holder[0]: 0}).holds(m)
                        if h is False:
                            continue
                        k = sum(1 for e in flat(s.events()) if e.kind == 'call' and norm(p.functions[e.a]['n']) == 'ptne::Transition::execute')
                        if k != 1 and h in (True, 'free'):
                            ctx.check(check, False, 'round:%d' % k, 'a transition that can fire (activation weights %s, %d tokens more than needed, %d actions in execution, requires none: %s, %d inhibitor arcs, %d conditions) gets %d turns in a round' % (
                                list(ws[:sz[0]]), extra, busy, bool(flag), sz[2], sz[3], k), tuple(f['l']), show_trace(s, v))
                            return False
                        some = some or k == 1
                        und += h is None
                    if not some:
                        und += 1
    ctx.count('nets_in_rounds', n)
    return ctx.check(check, None if und else True, '', 'which transitions get a turn depends on facts that are not understood', tuple(f['l']), sample='a transition that can fire gets its turn: %d nets' % n)


def sizes(A):
    """numbers of arcs and conditions: small ones, and those around the numbers that the code mentions"""
    more = [x for x in A.p.numbers(16) if x > 3]
    far = [x for x in A.p.numbers(130) if x > 17]
    more += far if len(far) <= 6 else far[:3] + far[-3:]
    return SIZES + [s for x in more for s in ((x, 1, 0, 0), (1, x, 0, 0), (1, 0, x, 0), (1, 0, 0, x))]


SIZES = [(0, 0, 0, 0), (1, 1, 1, 1), (1, 0, 0, 0), (0, 1, 1, 0), (2, 2, 2, 2), (2, 1, 0, 1), (1, 2, 2, 0), (3, 3, 1, 1), (3, 2, 3, 0), (0, 3, 0, 3)]


def seqs(xs, n):
    """all sequences; of long ones those in which at most one element differs from the others"""
    if n > 3:
        good, rest = xs[0], xs[1:]
        return [(good,) * n] + [(good,) * i + (b,) + (good,) * (n - 1 - i) for b in rest for i in range(n)]
    return list(product(xs, repeat=n))


def literal(ctx, A, N, name, out, expect, dims):
    """the same decision with literal numbers of arcs and conditions, every loop followed step by step; None: not decided"""
    und = 0
    for sz in sizes(A):
        f, I, paths = N.shaped(sz, name)
        if I.truncated:
            if max(sz) > 3:
                continue
            return None
        pick = lambda k, n: [x for x in dims[k] if len(x[0]) == n]
        ta = [(0, 1, 0), (1, 1, 0), (1, 2, 0), (2, 1, 0), (1, 1, 1)]
        ti = [(0, 1), (1, 2), (2, 1)]
        if sz[0] > 2 or sz[2] > 2 or sz[3] > 2:
            ta, ti = [(2, 1, 0), (1, 2, 0), (1, 1, 1)], [(0, 1), (1, 2)]
        d = {N.act: [(c, [N.arc(*a) for a in c]) for c in seqs(ta, sz[0])],
             N.dst: [((), [N.arc(0, 1) for _ in range(sz[1])])],
             N.inh: [(c, [N.arc(t, w) for t, w in c]) for c in seqs(ti, sz[2])],
             N.cond: [(c, [N.condition(*b) for b in c]) for c in seqs(((True, 'c'), (False, 'c')) if sz[3] > 2 else ((True, 'c'), (False, 'c'), (True, ''), (False, '')), sz[3])],
             N.flag: [(False, 0), (True, 1)]}
        T = [(PathTable(st.pc, d), out(st, v), st, v) for st, v in paths if not expired(A, st, v)]
        ctx.count('literal_paths_' + name.split('::')[-1], len(T))
        for combo in product(*d.values()):
            m = dict(zip(d.keys(), combo))
            exp = expect(m)
            if exp is None:
                continue
            poss = []
            for t, o, st, v in T:
                h = t.holds(m)
                if h is False:
                    continue
                if isinstance(o, tuple):
                    try:
                        o = 'fire' if Eval(Obj((k, x[1]) for k, x in m.items())).val(o) else 'stay'
                    except (Unknown, Free, KeyError, IndexError, TypeError):
                        h = None
                poss.append((o, h, st, v))
            wrong = [x for x in poss if x[0] != exp and not isinstance(x[0], tuple)]
            sure = [x for x in wrong if x[1] in (True, 'free')]
            if sure or (poss and len(wrong) == len(poss)):
                return (m, (sure or wrong)[0], exp)
            if not poss or any(x[1] is None for x in poss):
                und += 1
    return None if und else True


def tabulate(ctx, A, N, f, paths, dims, out, expect, name):
    lit = literal(ctx, A, N, 'ptne::Transition::' + name, out, expect, dims)
    T = []
    for st, v in paths:
        if expired(A, st, v):
            continue
        o = out(st, v)
        if isinstance(o, tuple):
            # answers with an expression: one entry for each truth value
            for pol, r in ((True, 'fire'), (False, 'stay')):
                pc = dict(st.pc)
                a, p = (o[1], o[2]) if o[0] == 'B' else (('t', o), True)
                pc[a] = (p == pol)
                T.append((PathTable(pc, dims), r, st, v))
            continue
        T.append((PathTable(st.pc, dims), o, st, v))
    ctx.count('paths_' + name, len(T))
    names = [d for d in dims]
    # drop the dimensions no path looks at
    used = set()
    for t in T:
        for g in t[0].groups:
            used |= set(g[2])
    bad = {}
    n = undecided = 0
    seen = set()
    for combo in product(*[dims[k] for k in names]):
        m = dict(zip(names, combo))
        large = sum(any(y > 3 for x in m[k][0] for y in (x if isinstance(x, tuple) else ())) for k in (N.act, N.inh) if k in m)
        if large and (large > 1 or sum(len(m[k][0]) > 1 for k in (N.act, N.inh, N.cond) if k in m)):
            continue        # large numbers one at a time
        exp = expect(m)
        k = (tuple(m[x][0] for x in names if x in used), exp)
        if exp is None or k in seen:
            continue
        seen.add(k)
        n += 1
        possible = []
        wrong = None
        for t, o, st, v in T:
            h = t.holds(m)
            if h is False:
                continue
            possible.append((o, h))
            if o != exp and h in (True, 'free'):
                wrong = wrong or (o, st, v)
        if not possible:
            undecided += 1
        elif wrong or all(o != exp for o, h in possible):
            if not wrong:
                t, o, st, v = next((t, o, st, v) for t, o, st, v in T if t.holds(m) is not False)
                wrong = (o, st, v)
            key = '%s:%s-instead-of-%s:%s' % (name, wrong[0], exp, wrong[1].pc and sitekey(wrong[1], wrong[2]) or '')
            bad.setdefault(key, (m, wrong, exp))
        elif any(h is None for o, h in possible):
            if any(o != exp for o, h in possible):
                undecided += 1
    und = set()
    for t, o, st, v in T:
        und |= t.reasons
    ctx.count('nets_' + name, n)
    words = {'fire': 'fires', 'stay': 'does not fire', 'fail': 'fails'}
    if name == 'isEnabled':
        words = {'fire': 'is offered for firing', 'stay': 'is never offered for firing', 'fail': 'fails'}
    for key, (m, w, exp) in sorted(bad.items()):
        ctx.check('decision table of %s' % name, False, key, 'a transition %s where it must not be so: %s (expected: it %s)' % (words[w[0]], N.tell(m), words[exp]),
                  tuple(f['l']), show_trace(w[1], w[2]))
    if not bad and isinstance(lit, tuple):
        m, w, exp = lit
        ctx.check('decision table of %s' % name, False, '%s:%s-instead-of-%s' % (name, w[0], exp), 'a transition %s where it must not be so: %s (expected: it %s)' % (
            words[w[0]], N.tell(m), words[exp]), tuple(f['l']), show_trace(w[2], w[3]))
    elif not bad:
        if undecided and lit is True:
            ctx.assume('%s: the loops are not understood in general; decided for up to 3 arcs and conditions' % name)
            undecided = 0
        ctx.check('decision table of %s' % name, None if undecided else True, '', 'the decision depends on facts that are not understood: %s' % sorted(und)[:3], tuple(f['l']),
                  sample='%s: %d nets, decision as specified in all' % (name, n))


def sitekey(st, v):
    return v.typ.split('::')[-1] if isinstance(v, Throw) else ''


# ---------------------------------------------------------------------- C06
class Softer:
    """an inconclusive general argument falls back on the literal nets"""
    def __init__(self, ctx):
        self.__dict__['c'] = ctx

    def __getattr__(self, k):
        return getattr(self.c, k)

    def check(self, kind, ok, key, msg, site=None, trace=None, sample=None):
        if ok is None:
            self.c.assume('%s: decided for up to 3 arcs only (%s)' % (kind, msg))
            return None
        return self.c.check(kind, ok, key, msg, site, trace, sample)


def models_of(N, sz, flags=(0, 1)):
    """nets that can fire"""
    k = max(3, *sz)
    more = tuple(range(4, k + 1))
    said = [x for x in N.A.p.numbers() if x > 3] if k == 3 else []
    for ws in [(1, 2, 3) + more, (3, 1, 2) + more, (2, 2, 1) + more, (2 ** 32 + 1, 2 ** 31, 2 ** 62 + 2 ** 16) + more] + [(x,) * 3 for x in said]:
        for extra in (0, 2):
            for zero in (0, 1):
                for fl in flags:
                    act = [N.arc(w + extra, w if not (zero and i == 0) else 0) for i, w in enumerate(ws[:sz[0]])]
                    dst = [N.arc(0, w) for w in ws[::-1][:sz[1]]]
                    inh = [N.arc(0, w) for w in ws[:sz[2]]]
                    cond = [Obj(first='c', second=Obj(result=1)) for _ in range(sz[3])]
                    yield {N.act: ('', act), N.dst: ('', dst), N.inh: ('', inh), N.cond: ('', cond), N.flag: (fl, fl)}
                    if act and dst:
                        # a place that is both
                        dst = list(dst)
                        dst[0] = Obj(dst[0])
                        dst[0][N.place] = act[-1][N.place]
                        yield {N.act: ('', act), N.dst: ('', dst), N.inh: ('', inh), N.cond: ('', cond), N.flag: (fl, fl)}


def feasible(N, st, m):
    return PathTable(st.pc, {k: 0 for k in m}).holds(m)


def literal_moves(ctx, A, N):
    """True, None (not understood) or (key, message, trace)"""
    res = True
    for sz in sizes(A):
        f, I, paths = N.shaped(sz)
        if I.truncated:
            if max(sz) > 3:
                continue
            return None
        for m in models_of(N, sz):
            me = Obj((k, x[1]) for k, x in m.items())
            done = 0
            for st, v in paths:
                if isinstance(v, Throw):
                    continue
                h = feasible(N, st, m)
                if h is False:
                    continue
                seq = []
                for e in moves(A, st.events()):
                    nm = norm(A.p.functions[e.a]['n']).split('::')[-1]
                    try:
                        seq.append((nm, Eval(me).loc(e.b[0]), Eval(me).val(e.b[1][0])))
                    except (Unknown, Free, KeyError, IndexError, TypeError):
                        seq.append((nm, None, None))
                ctx.count('literal_traces')
                if any(s[1] is None for s in seq) or h is None or (h == 'free' and not seq):
                    res = None
                    continue
                done += 1
                n = sz[0]
                ins, outs = seq[:n], seq[n:]
                want1 = [('exitPlace', id(a[N.place]), a[N.weight]) for a in m[N.act][1]]
                want2 = [('enterPlace', id(a[N.place]), a[N.weight]) for a in m[N.dst][1]]
                key = lambda l: sorted((x[0], x[1] if isinstance(x[1], int) else id(x[1]), x[2]) for x in l)
                if key(ins) != sorted(want1) or key(outs) != sorted(want2) or v == F:
                    names = {id(a[N.place]): 'activation place %d' % i for i, a in enumerate(m[N.act][1])}
                    names.update({id(a[N.place]): 'destination place %d' % i for i, a in enumerate(m[N.dst][1])})
                    names.update({id(a[N.place]): 'inhibitor place %d' % i for i, a in enumerate(m[N.inh][1])})
                    txt = ', '.join('%s(%s, %d)' % (a, names.get(id(b), '?'), c) for a, b, c in seq) or 'nothing'
                    return ('moves', 'a transition with activation weights %s and destination weights %s that can fire answers %s and does: %s' % (
                        [a[N.weight] for a in m[N.act][1]], [a[N.weight] for a in m[N.dst][1]], short(v), txt), show_trace(st, v))
    return res


def elem_eval(N, dom_field, elem, key, flag=1):
    me = Obj({N.act: [], N.dst: [], N.inh: [], N.cond: [], N.flag: flag})
    me[dom_field] = [elem]
    return Eval(me, {key: 0})


def strip_perm(c):
    while c[0] == 'op' and c[1] == 'perm' or c[0] == 'vec' and len(c) == 2 and c[1][0] == 'all':
        c = c[2] if c[0] == 'op' else c[1][1]
    return c


def iteration(A, N, b, field, key, name, elems):
    """what an iteration does for each element: list of (element, None | [(place is the element's, amount)])"""
    lits, evs, st = b
    out = []
    for el in elems:
        ev = elem_eval(N, field, el, key)
        sat, unk = True, False
        for a, pol in lits:
            try:
                if bool(ev.atom(a)) != pol:
                    sat = False
                    break
            except (Unknown, Free, KeyError, IndexError, TypeError):
                unk = True
        if not sat:
            continue
        calls = []
        for e in flat(evs):
            if is_call(A, e, name):
                try:
                    who = ev.loc(e.b[0]) is el[N.place]
                except (Unknown, Free, KeyError, IndexError, TypeError):
                    who = None
                try:
                    amt = ev.val(e.b[1][0]) if e.b[1] else None
                except (Unknown, Free, KeyError, IndexError, TypeError):
                    amt = None
                calls.append((who, amt))
        out.append((el, unk, calls))
    return out


def move_loops(A, evs):
    """top-level moves and loops with moves, in order"""
    out = []
    for e in evs:
        if e.kind == 'loop':
            ks = {m for m in MOVES for b in e.a.back for x in flat(b[1]) if is_call(A, x, m)}
            if ks:
                out.append((e, ks))
        elif any(is_call(A, e, m) for m in MOVES):
            out.append((e, {m for m in MOVES if is_call(A, e, m)}))
    return out


def callers(A, name):
    """operations that call an operation directly (helpers are part of their callers)"""
    out = {}
    todo = [f for f in A.p.functions.values() if 'b' in f and norm(f['n']) in A.M.units]
    for f in todo:
        s = A.M.summary(f)
        for st, v in s.paths:
            for e in flat(st.events()):
                if is_call(A, e, name):
                    out.setdefault(norm(f['n']), e.site)
    A.roots()
    for nm, s in A.E.thread_summaries.items():
        for st, v in s.paths:
            for e in flat(st.events()):
                if is_call(A, e, name):
                    out.setdefault(nm, e.site)
    return out


@check('C06')
def c06(ctx, A):
    N = net(A)
    ctx.rule('on every path of Transition::execute that fires, there is exactly one complete pass over all activation arcs that takes from each place '
             'exactly the arc weight once, followed by exactly one complete pass over all destination arcs that puts into each place exactly the arc '
             'weight once, and the answer is true; a path that does not fire moves no token and answers false')
    ctx.rule('who-may-call: tokens enter and leave places only through Transition::execute, an input event, or the reset of the input places; transitions '
             'are only executed by the round of the engine')
    f, I, paths = N.execute()
    site = tuple(f['l'])
    fired = 0
    lit = literal_moves(ctx, A, N)
    if isinstance(lit, tuple):
        ctx.check('moves of literal nets', False, 'literal:' + lit[0], lit[1], site, lit[2])
    else:
        ctx.check('moves of literal nets', lit, '', 'the moves of nets with literal numbers of arcs are not understood', site, sample='up to 3 arcs of each kind: every arc once, with its weight')
    soft = ctx
    if lit is True:
        # what is not understood for any number of arcs has been decided for up to three
        ctx = Softer(ctx)
    for st, v in paths:
        if isinstance(v, Throw):
            continue
        evs = st.events()
        tr = show_trace(st, v)
        ml = move_loops(A, evs)
        if not ml:
            ctx.check('answer of a path that moves nothing', True if v == F else (False if v == T else None), 'claims-to-fire',
                      'execute answers %s although no token is moved' % short(v), site, tr)
            continue
        fired += 1
        ctx.check('answer of a path that fires', True if v == T else (False if v == F else None), 'denies-firing',
                  'execute answers %s although tokens are moved' % short(v), site, tr, sample='fires and answers true')
        for name, field, what in ((MOVES[0], N.act, 'activation'), (MOVES[1], N.dst, 'destination')):
            mine = [x for x in ml if name in x[1]]
            if not mine:
                ctx.check('pass over all %s arcs' % what, False, 'no-pass:' + what, 'firing does not touch the %s places' % what, site, tr)
                continue
            if any(x[0].kind != 'loop' for x in mine):
                ctx.check('pass over all %s arcs' % what, None, '', 'tokens of a single %s place are moved outside of a loop' % what, mine[0][0].site, tr)
                continue
            if len(mine) > 1:
                same = len({strip_perm(x[0].a.dom) for x in mine}) == 1 and all(x[0].a.kind == 'each' and x[0].b is None for x in mine)
                ctx.check('pass over all %s arcs' % what, False if same else None, 'passes:' + what, 'firing goes over the %s places more than once' % what, mine[1][0].site, tr)
                continue
            e = mine[0][0]
            L = e.a
            if L.kind != 'each':
                ctx.check('pass over all %s arcs' % what, None, '', 'the loop over the %s arcs is not understood' % what, e.site, tr)
                continue
            dom = strip_perm(L.dom)
            if dom != ('init', ('.', SELF, field)):
                other = dom[0] == 'init' and dom[1][0] == '.' and dom[1][1] == SELF
                ctx.check('pass over all %s arcs' % what, False if other else None, 'dom:' + what, 'the tokens are moved for %s instead of the %s arcs' % (short(dom), what), e.site, tr)
                continue
            if e.b is not None:
                ctx.check('pass over all %s arcs' % what, False, 'partial:' + what, 'the pass over the %s arcs may end before the last arc' % what, e.site, tr)
                continue
            elems = [N.arc(t, w) for t in (1, 2, 3, 5) for w in (0, 1, 2, 3) if (what == 'activation' and t >= w) or (what == 'destination' and w)]
            verdict, msg = True, ''
            for b in L.back:
                for el, unk, calls in iteration(A, N, b, field, L.elem, name, elems):
                    ctx.count('iterations_tabulated')
                    w = el[N.weight]
                    if len(calls) != 1:
                        verdict, msg = (None if unk and not calls else False), 'moves tokens %d times for one %s arc (weight %d)' % (len(calls), what, w)
                    elif calls[0][0] is None or calls[0][1] is None:
                        verdict, msg = None if verdict is not False else False, 'the place or the amount is not understood'
                    elif calls[0][0] is False:
                        verdict, msg = False, 'moves tokens of another place than the one of the %s arc' % what
                    elif calls[0][1] != w:
                        verdict, msg = False, 'moves %d tokens for a %s arc of weight %d' % (calls[0][1], what, w)
                    if verdict is not True:
                        break
                if verdict is False:
                    break
            ctx.check('each %s arc moves its weight once' % what, verdict, 'amount:' + what, msg, e.site, tr, sample='%s arcs: one move of the arc weight per arc' % what)
        ks = [k for x in ml for k in x[1]]
        if set(ks) <= set(MOVES[:2]):
            first = min([i for i, x in enumerate(ml) if MOVES[1] in x[1]] or [99])
            last = max([i for i, x in enumerate(ml) if MOVES[0] in x[1]] or [-1])
            ctx.check('tokens leave before tokens enter', last < first, 'order', 'tokens enter a destination place before they have left the activation places', ml[first][0].site if first < 99 else site, tr)
        else:
            ctx.check('tokens leave before tokens enter', False, 'sets', 'firing overwrites the number of tokens of a place', site, tr)
    if not fired:
        ctx.check('can fire', False, 'never', 'execute never moves a token', site)
    allowed = {MOVES[0]: {'ptne::Transition::execute'}, MOVES[1]: {'ptne::Transition::execute', 'ptne::PlacesManager::incrementInputPlace'},
               MOVES[2]: {'ptne::PlacesManager::clearInputPlaces'}, 'ptne::Transition::execute': {'ptne::PTN_EngineImp::executeInt'}}
    for name, who in allowed.items():
        for c, s in callers(A, name).items():
            ctx.check('caller of %s' % name.split('::', 1)[1], c in who, 'caller:%s:%s' % (name.split('::')[-1], c.split('::')[-1]), '%s is called by %s' % (name, c), s,
                      sample='%s called by %s' % (name, c))
    # the reset of the input places
    f = A.p.one('ptne::PlacesManager::clearInputPlaces')
    for st, v in A.M.summary(f).paths:
        for e in flat(st.events()):
            if is_call(A, e, MOVES[2]):
                ctx.check('reset empties', True if e.b[1] and e.b[1][0] == ('i', 0) else False, 'reset', 'the reset of the input places sets another number of tokens than 0', e.site, show_trace(st, v))


# ---------------------------------------------------------------------- C10
BLOCK = 'ptne::Place::blockStartingOnEnterActions'


def noise_throw(v):
    return isinstance(v, Throw) and 'Expired' in v.typ


@check('C10')
def c10(ctx, A):
    N = net(A)
    ctx.rule('typestate over every path of Transition::execute of a transition that requires no actions in execution: new on-enter actions of all '
             'activation places are blocked before the actions in execution are looked at and until the tokens have left; they are unblocked on every '
             'way out (including failures) and before tokens enter the destination places')
    ctx.rule('a place whose on-enter actions are blocked adds no token and starts no action until it is unblocked: on every path of enterPlace to the '
             'action the flag was read as clear; the flag is atomic and set to exactly the given value')
    f, I, paths = N.execute()
    site = tuple(f['l'])
    dims = N.dims()
    cnt = fieldname(N.inexec) or fieldname(N.inexec[1][1] if N.inexec[0] == '*' else N.inexec)
    n = 0
    lit = literal_blocks(ctx, A, N, cnt)
    if isinstance(lit, tuple):
        ctx.check('blocking of literal nets', False, 'literal:' + lit[0], lit[1], lit[3] or site, lit[2])
    else:
        ctx.check('blocking of literal nets', lit, '', 'the blocking of nets with literal numbers of arcs is not understood', site, sample='up to 3 arcs of each kind: blocked and unblocked as required')
    full_ctx = ctx
    if lit is True:
        ctx = Softer(ctx)
    for st, v in paths:
        r = [st.pc.get(('t', ('init', ('.', SELF, N.flag))))]
        if r[0] is False:
            continue
        if r[0] is None:
            # a path for transitions of both kinds
            pass
        evs = st.events()
        tr = show_trace(st, v)
        state = 'free'       # free, blocked, partial
        unk = False
        touched = False
        n += 1
        for e in evs:
            kinds = set()
            if e.kind == 'loop':
                inner = [x for b in e.a.back for x in flat(b[1])]
            else:
                inner = [e]
            bl = [x for x in inner if is_call(A, x, BLOCK)]
            if bl:
                touched = True
                vals = set()
                for x in bl:
                    a = x.b[1][0] if x.b[1] else ('?',)
                    if a not in (T, F):
                        try:
                            a = ('b', bool(Eval(Obj({N.flag: 1})).val(a)))
                        except (Unknown, Free):
                            pass
                    vals.add(a)
                full = e.kind == 'loop' and e.a.kind == 'each' and e.b is None and strip_perm(e.a.dom) == ('init', ('.', SELF, N.act))
                if full:
                    for b in e.a.back:
                        for el, u, calls in iteration(A, N, b, N.act, e.a.elem, BLOCK, [N.arc(t, w, x) for t in (0, 1, 2) for w in (0, 1, 2) for x in (0, 1)]):
                            if u or any(c[0] is None for c in calls):
                                unk = True
                            elif not calls or any(c[0] is False for c in calls):
                                full = False
                if vals == {T}:
                    state = 'blocked' if full else 'partial'
                    unk = unk or not full and lit is True and (e.kind != 'loop' or e.a.kind != 'each')
                elif vals == {F}:
                    if full:
                        state = 'free'
                    elif e.kind == 'loop' and e.b is not None and noise_throw(e.a.exits[e.b][1]):
                        state = 'free'       # a place that no longer exists needs no unblocking
                    else:
                        state = 'partial'
                        unk = unk or lit is True and (e.kind != 'loop' or e.a.kind != 'each')
                else:
                    unk = True
                continue
            for x in inner:
                if x.kind == 'ald' and fieldname_deep(x.a) == cnt:
                    ctx.check('blocked while the actions are counted', True if state == 'blocked' else (None if unk else False), 'count-unblocked',
                              'the actions in execution are looked at while new actions of the activation places may start (%s)' % state, x.site, tr,
                              sample='all activation places blocked when the actions in execution are counted')
                elif is_call(A, x, MOVES[0]):
                    ctx.check('blocked while the tokens leave', True if state == 'blocked' else (None if unk else False), 'exit-unblocked',
                              'tokens leave while new actions of the activation places may start (%s)' % state, x.site, tr)
                elif is_call(A, x, MOVES[1]):
                    ctx.check('unblocked when tokens enter', True if state == 'free' else (None if unk else False), 'enter-blocked',
                              'tokens enter the destination places while the activation places are still blocked: a place that is both would wait forever', x.site, tr)
        ctx.check('unblocked on every way out', True if state == 'free' else (None if unk else False), 'left-blocked:' + (v.typ.split('::')[-1] if isinstance(v, Throw) else 'return'),
                  'execute ends with the activation places blocked: their on-enter actions never start again', v.site if isinstance(v, Throw) and v.site else site, tr,
                  sample='way out with the places unblocked')
    ctx.count('paths_of_blocking_transitions', n)
    # the place
    f = A.p.one(BLOCK)
    flag = None
    for st, v in A.M.summary(f).paths:
        w = [e for e in flat(st.events()) if e.kind in ('ast', 'wr', 'axchg')]
        ok = len(w) == 1 and w[0].b == ('init', ('P', 0)) and w[0].kind != 'wr'
        ctx.check('flag set to the given value', ok if w else False, 'flag', 'blocking does not set exactly one atomic flag to the given value', tuple(f['l']), show_trace(st, v))
        if w:
            flag = w[0].a
    if flag is None:
        return
    ini = {x['name'] for x in A.p.fields('ptne::Place')}
    f = A.p.one('ptne::Place::enterPlace')
    s = A.M.summary(f)
    for st, v in s.paths:
        evs = st.events()
        last = None
        for e in evs:
            if e.kind == 'ald' and e.a == flag:
                last = e
            trig = e.kind == 'call' and A.p.derives(A.p.functions[e.a].get('cls') or '?', 'ptne::IActionsExecutor') or e.kind == 'cb'
            if trig or e.kind == 'wr' and e.a == N.count and st.pc.get(nn_enter(A, N)) is True:
                what = 'an on-enter action is started' if trig else 'a token is added to a place with an on-enter action'
                ok = last is not None and st.pc.get(('t', last.b)) is False
                und = last is not None and st.pc.get(('t', last.b)) is None
                ctx.check('blocked place starts nothing', True if ok else (None if und else False), 'starts-blocked:' + ('action' if trig else 'token'), what + ' although actions of the place may be blocked', e.site, show_trace(st, v),
                          sample='%s only after the flag was read as clear' % what)


def literal_blocks(ctx, A, N, cnt):
    res = True
    for sz in sizes(A):
        f, I, paths = N.shaped(sz)
        if I.truncated:
            if max(sz) > 3:
                continue
            return None
        for m in list(models_of(N, sz, (1,)))[:4]:
            me = Obj((k, x[1]) for k, x in m.items())
            mine = {id(a[N.place]) for a in m[N.act][1]}
            for st, v in paths:
                h = feasible(N, st, m)
                if h is False or noise_throw(v):
                    continue
                if h is None:
                    res = None
                blocked = set()
                ctx.count('literal_traces')
                for e in st.events():
                    try:
                        if is_call(A, e, BLOCK):
                            w, val = id(Eval(me).loc(e.b[0])), Eval(me).val(e.b[1][0])
                            (blocked.add if val else blocked.discard)(w)
                            if w not in mine and h:
                                return ('other', 'another place than an activation place is blocked or unblocked', show_trace(st, v), e.site)
                        elif h and e.kind == 'ald' and fieldname_deep(e.a) == cnt and not mine <= blocked:
                            return ('count', 'the actions in execution are looked at while new actions of an activation place may start', show_trace(st, v), e.site)
                        elif h and is_call(A, e, MOVES[0]) and not mine <= blocked:
                            return ('exit', 'tokens leave while new actions of an activation place may start', show_trace(st, v), e.site)
                        elif h and is_call(A, e, MOVES[1]) and blocked:
                            return ('enter', 'tokens enter while an activation place is still blocked', show_trace(st, v), e.site)
                    except (Unknown, Free, KeyError, IndexError, TypeError):
                        res = None
                if blocked and h:
                    return ('left', 'execute ends with an activation place blocked', show_trace(st, v), v.site if isinstance(v, Throw) else None)
    return res


def fieldname_deep(l):
    while l[0] == '*' and l[1][0] == 'init':
        l = l[1][1]
    return fieldname(l)


def nn_enter(A, N):
    return ('nn', ('init', ('.', SELF, place_fields(A)['onEnterAction'])))


def place_fields(A):
    """fields of a place by the property they are initialised from"""
    if 'place_fields' in A.M.cache:
        return A.M.cache['place_fields']
    ctor = [f for f in A.p.functions.values() if f.get('cls') == 'ptne::Place' and f.get('kind') == 'ctor' and len(f['p']) == 2 and 'b' in f]
    if not ctor:
        raise AnalysisBroken('the constructor of ptne::Place was not found')
    I = A.M.interp()
    st = St()
    out = {}
    for s, v in I.start(ctor[0], SELF, I.sym_args(ctor[0], st), st):
        if isinstance(v, Throw):
            continue
        for f in A.p.fields('ptne::Place'):
            x = I.peek(s, ('.', SELF, f['name']))
            for q in 'name initialNumberOfTokens onEnterActionFunctionName onExitActionFunctionName onEnterAction onExitAction input'.split():
                if x == ('init', ('.', ('P', 0), q)):
                    out.setdefault(q, f['name'])
            if x in (('weak', ('init', ('P', 1))), ('init', ('P', 1))):
                out.setdefault('executor', f['name'])
    for q in 'onEnterAction onExitAction'.split():
        if q not in out:
            raise Unrecognised('the constructor of ptne::Place keeps no %s' % q)
    A.M.cache['place_fields'] = out
    return out
