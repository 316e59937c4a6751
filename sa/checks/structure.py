"""C15 (no changes of a running net), C16 (names), C17 (arcs and transitions), C22 (what is reported), C23 (failures change nothing)."""
from itertools import product
from . import check
from .loop import engine, flag_known, used, is_exec, settings
from .actions import contains, subterms, enumerators
from ..program import Unrecognised
from ..mod import *
from ..rep import show_trace, short
from ..world import *
from ..tables import put


def upd(before, **kw):
    r = dict(before)
    for k, f in kw.items():
        r[k] = f(dict(r[k]))
    return r


LONG = 'x' * 300
NAMES = ('p', 'q', 'r', '')
ODD = ('P', 'p#q', 'p q', ' p', 'p/q.r:s-t_u', '0', LONG)


@check('C16')
def c16(ctx, A):
    ctx.rule('every path of the registries (places, transitions, actions, conditions), as extracted from the source with the containers behind them inlined, is '
             'evaluated for every small set of names already there and every name asked for, the empty name included: a new name is added with exactly the '
             'object given and nothing else changes; an empty or existing name is refused with a PTN_Exception and nothing changes; a lookup gives the object '
             'registered under exactly that name and fails with a PTN_Exception when there is none')
    ctx.rule('no operation writes the name of an existing place or transition')
    W = world(A)
    sets = [(), ('p',), ('q',), ('p', 'q'), ('r', 's')]
    pairs = list(product(sets, NAMES)) + [(s, n) for n in ODD for s in ((), ('p',), (n,), ('p', n))] + [((n,), 'p') for n in ODD]
    # what the code mentions: names it compares with, lengths, numbers of elements
    pairs += [(s, n) for n in A.p.names() for s in ((), (n,))]
    pairs += [(tuple('n%d' % i for i in range(k)), n) for k in A.p.numbers(64) for n in ('p', 'n0', 'n%d' % (k - 1))]

    def roots_place(n, inp, me):
        o = Obj(id='new place')
        o[W.pname], o[W.input] = n, inp
        return o
    # ---- functions
    for opn, fld, what in (('registerAction', 'actions', 'registering an action'), ('registerCondition', 'conditions', 'registering a condition')):
        ops = W.op(ENG + '::' + opn)
        ms = []
        for s, n in pairs:
            kw = {fld: s}
            g = Obj(id='new function')
            ms.append(('with %s registered, name "%s"' % (list(s), n), W.state(**kw), {('P', 0): n, ('P', 1): g}, None, (s, n)))
        for n in ('p', 'q'):
            w = W.state(**{fld: ('p', 'q')})
            w[getattr(W, fld)][W.cmap]['p'] = None
            ms.append(('with p registered as an empty function and q, name "%s"' % n, w, {('P', 0): n, ('P', 1): Obj(id='new function')}, None, (('p', 'q'), n)))

        def oracle(f, b, fld=fld):
            s, n = f
            if n == '' or n in s:
                return 'err', None
            return 'ok', upd(b, **{fld: lambda d: dict(d, **{n: 'new function'})})
        tabulate(ctx, W, ops, ms, oracle, 'registry', opn, what)
    # ---- managers
    for cls, fld, mfld, mp, nm in (('ptne::PlacesManager', 'places', W.places, W.pmap, W.pname), ('ptne::TransitionsManager', 'transitions', W.transitions, W.tmap, W.tname)):
        short_ = cls.split('::')[1]

        def mk(s):
            return W.state(**{fld: {n: (0, 1) if fld == 'places' else ((), (), (), (), 0) for n in s}})
        V = SubWorld(W, mfld, fld)
        ops = W.op(cls + '::insert')
        ms = []
        for (s, n), null in product(pairs, (0, 1)):
            if null and n:
                continue
            o = None
            if not null:
                o = Obj(id='new')
                o[nm] = n
                if fld == 'places':
                    o[W.input] = 1
                    put(o, W.N.count, SELF, 3)
                    for q, x in W.extra:
                        o[x] = '' if q.endswith('Name') else None
                else:
                    for x in (W.N.act, W.N.dst, W.N.inh, W.N.cond):
                        o[x] = []
                    o[W.N.flag] = 0
            me = mk(s)[mfld]
            ms.append(('with %s there, inserting %s' % (list(s), 'nothing' if null else '"%s"' % n), me, {('P', 0): o}, None, (s, n, o)))

        def oracle(f, b, fld=fld):
            s, n, o = f
            if o is None or n == '' or n in s:
                return 'err', None
            new = (n, 1, 3) + tuple('' if q.endswith('Name') else None for q, x in W.extra) if fld == 'places' else (n, [], [], [], [], 0)
            return 'ok', upd(b, **{fld: lambda d: dict(d, **{n: new})})
        tabulate(ctx, V, ops, ms, oracle, 'registry', short_ + '::insert', 'inserting into the %s' % fld)
        # lookups
        get = cls + ('::getPlace' if fld == 'places' else '::getTransition')
        for q, res in ((cls + '::contains', 'has'), (get, 'obj')):
            ops = W.op(q)
            ms = []
            for s, n in pairs:
                me = mk(s)[mfld]
                ms.append(('with %s there, looking for "%s"' % (list(s), n), me, {('P', 0): n}, None, (s, n, me)))

            def oracle(f, b, res=res):
                s, n, me = f
                return ('ok', b) if n in s or res == 'has' else ('err', None)

            def result(f, ev, st, v, res=res, mp=mp):
                s, n, me = f
                try:
                    x = ev.val(v)
                except Unknown:
                    return None, short(v)
                if res == 'has':
                    return (bool(x) == (n in s), 'it says %s' % bool(x)) if isinstance(x, int) else (None, str(x))
                return x is me[mp][n], 'it gives %s' % (ident(x) if isinstance(x, Obj) else x)
            tabulate(ctx, V, ops, ms, oracle, 'lookup', q.split('ptne::')[1], 'looking up one of the %s' % fld, result=result)
        ops = W.op(cls + '::clear')
        ms = [('with %s there' % list(s), mk(s)[mfld], {}, None, s) for s in sets]
        tabulate(ctx, V, ops, ms, lambda f, b, fld=fld: ('ok', upd(b, **{fld: lambda d: {}})), 'registry', short_ + '::clear', 'clearing the %s' % fld)
    stale_inputs(ctx, A, W)
    # ---- named functions
    fs = [f for f in A.p.functions.values() if (f.get('cls') or '').startswith('ptne::ManagedContainer<') and 'b' in f and norm(f['n']).endswith(('::getItem', '::getItems'))]
    if not fs:
        raise Unrecognised('the lookup of registered functions was not found')
    for f in fs:
        many = norm(f['n']).endswith('s')
        V = SubWorld(W, None, 'fns')
        for k in ((0, 1, 2) if many else (1,)):
            I = A.M.interp(inline=W.inl)
            if many:
                I.shape = ShapeBy({'*0': k})
            I.this_class = {f['cls']: SELF}
            st = St()
            ops = Ops(A, I, I.start(f, SELF, I.sym_args(f, st), st))
            ops.f = f
            ms = []
            for s, ns in list(product(sets, product(NAMES, repeat=k))) + [(s, (n,) * k) for s, n in pairs]:
                me = Obj([(W.cmap, Map((n, W.fn('f:' + n)) for n in s))])
                ms.append(('with %s registered, asked for %s' % (list(s), list(ns)), me, {('P', 0): list(ns) if many else ns[0]}, None, (s, ns)))

            def oracle(f, b):
                s, ns = f
                return ('ok', b) if all(n in s for n in ns) else ('err', None)

            def result(f, ev, st, v, many=many):
                s, ns = f
                try:
                    x = ev.val(v)
                except (Unknown, Free):
                    return None, short(v)
                if not many:
                    return isinstance(x, Obj) and x.get('id') == 'f:' + ns[0], 'it gives %s' % (x.get('id') if isinstance(x, Obj) else x)
                if not isinstance(x, list) or not all(isinstance(y, Obj) for y in x):
                    return None, str(x)
                got = [(y.get('first'), y['second'].get('id') if isinstance(y.get('second'), Obj) else '?') for y in x]
                if unknown(got):
                    return None, str(got)
                return got == [(n, 'f:' + n) for n in ns], 'it gives %s' % got
            tabulate(ctx, V, ops, ms, oracle, 'lookup', f['cls'].split('ptne::')[1][:60] + '::' + norm(f['n']).split('::')[-1], 'looking up registered functions', result=result)
    # ---- the engine asks for what it was asked
    ops = W.op(ENG + '::incrementInputPlace')
    ms = []
    for s, n in product([{}, {'p': (1, 0)}, {'p': (0, 0)}, {'p': (1, 1), 'q': (0, 1)}, {'q': (1, 0), 'p': (1, 0)}], NAMES):
        me = W.state(places=s)
        ms.append(('places (input, tokens) %s, event for "%s"' % (s, n), me, {('P', 0): n}, None, (s, n, me)))

    def oracle(f, b):
        s, n, me = f
        return ('any', None) if s.get(n, (0, 0))[0] else ('err', None)

    tabulate(ctx, W, ops, ms, oracle, 'input events', 'incrementInputPlace', 'an input event')
    tgt = [(f, x) for t, me, r, c, f in ms for x in [None]]
    for text, me, roots, calls, f in ms:
        s, n, _ = f
        m = Model(me, roots, text)
        for st, v in ops.paths:
            r, why, ev = ops.follow(st, m)
            if r is not True:
                continue
            es = [e for e in flat(st.events()) if e.kind == 'call' and norm(A.p.functions[e.a]['n']) in ('ptne::Place::enterPlace', 'ptne::Place::setNumberOfTokens', 'ptne::Place::exitPlace')]
            if isinstance(v, Throw) and v.site and not es:
                continue
            if not s.get(n, (0, 0))[0]:
                ctx.check('input events', not es, 'increment:not-input', 'an event for "%s" (places %s) changes a place' % (n, s), es[0].site if es else None, show_trace(st, v))
                continue
            for e in es:
                try:
                    o = ev.loc(e.b[0])
                except (Unknown, Free):
                    ctx.check('input events', None, '', 'the place that gets the token is not understood', e.site)
                    continue
                ctx.check('input events', o is me[W.places][W.pmap][n], 'increment:other', 'an event for "%s" gives a token to "%s"' % (n, o.get(W.pname) if isinstance(o, Obj) else o), e.site, show_trace(st, v))
    # ---- names stay
    for cls, fld in (('ptne::Place', W.pname), ('ptne::Transition', W.tname)):
        n = 0
        for f in A.p.functions.values():
            if 'b' not in f or norm(f['n']) not in A.M.units:
                continue
            for st, v in A.M.summary(f).paths:
                for e in flat(st.events()):
                    if e.kind == 'wr' and e.a[0] == '.' and e.a[2] == fld and (f.get('cls') == cls and e.a[1] == SELF):
                        ctx.check('names stay', False, 'rename:' + norm(f['n']), '%s changes the name of a %s' % (norm(f['n']), cls.split('::')[1]), e.site, show_trace(st, v))
            n += 1
        ctx.check('names stay', True, '', 'no operation writes %s::%s' % (cls, fld), sample='%d operations leave the name of a %s alone' % (n, cls.split('::')[1]))


class SubWorld:
    """a part of the engine seen as an object of its own"""
    def __init__(self, W, fld, what):
        self.A, self.W, self.fld, self.what = W.A, W, fld, what

    def view(self, me, ov=None):
        W = self.W
        if self.what == 'fns':
            m = ov.get((id(me), W.cmap), me[W.cmap]) if ov else me[W.cmap]
            return {'fns': {k: x.get('id', '?') if isinstance(x, Obj) else '?' for k, x in m.items()} if isinstance(m, Map) else '?'}
        w = W.state()
        w[self.fld] = me
        return {self.what: W.view(w, ov)[self.what]}

    def after(self, me, ev, st):
        return self.W.after(me, ev, st)


def given_actions(ctx, A):
    """the actions of a new place are the ones asked for"""
    W = world(A)
    fn = W.fn
    kinds = [q for q, f in W.extra]
    if 'onEnterAction' not in kinds or 'onExitAction' not in kinds:
        ctx.check('new place has its actions', None, '', 'what a place keeps of its actions is not understood')
        return
    given = {'': None, 'g': fn('given'), 'h': fn('given2')}
    ops = W.op(ENG + '::createPlace')
    hits = 0
    und = None
    for (en, eg), (xn, xg) in product((('', ''), ('a', ''), ('', 'g'), ('a', 'g')), (('', ''), ('b', ''), ('', 'h'), ('a', ''))):
        me = W.state(places={'p': (0, 1)}, actions=('a', 'b'))
        P = Obj(name='new', input=0, initialNumberOfTokens=0, onEnterActionFunctionName=en, onExitActionFunctionName=xn, onEnterAction=given[eg], onExitAction=given[xg])
        text = 'a place created with enter action %s/%s and exit action %s/%s' % (en or '-', eg or '-', xn or '-', xg or '-')
        m = Model(me, {('P', 0): P}, text)
        for st, v in ops.paths:
            r, why, ev = ops.follow(st, m)
            if isinstance(v, Throw) and r is True and not feasible(A, ev, st, v, m) and v.typ.startswith('ptne::'):
                ctx.check('new place has its actions', False, 'given:refused', '%s is refused although the functions are registered' % text, tuple(ops.f['l']), show_trace(st, v))
                return
            if isinstance(v, Throw) or r is False or feasible(A, ev, st, v, m):
                continue
            if r is not True:
                und = und or (text, str(why)[:120])
                continue
            got = W.view(me, W.after(me, ev, st))['places']
            if not isinstance(got, dict) or 'new' not in got:
                continue
            new = dict(zip(kinds, got['new'][3:]))
            hits += 1
            for q, n, g in (('onEnterAction', en, eg), ('onExitAction', xn, xg)):
                want = 'a:' + n if n else given[g] and given[g]['id']
                if unknown(new[q]):
                    und = und or (text, q)
                elif new[q] != want:
                    ctx.check('new place has its actions', False, 'given:' + q, '%s: its %s is %s instead of %s' % (text, q, new[q] or 'none', want or 'none'), tuple(ops.f['l']), show_trace(st, v))
                    return
    if und:
        ctx.check('new place has its actions', None, '', '%s is not understood (%s)' % und, tuple(ops.f['l']))
    ctx.check('new place has its actions', True if hits else None, '', '', sample='%d cells of createPlace: the new place has exactly the actions asked for' % hits)


@check('C17')
def c17(ctx, A):
    ctx.rule('every path of the engine\'s operations createPlace, createTransition, addArc and removeArc, with the registries and the transition\'s own operations '
             'inlined, is evaluated for every small net and request (places and transitions known and unknown, empty and existing names, arcs listed twice, weight 0, '
             'registered and unregistered functions, all arc types): a valid request has exactly the requested effect on exactly the named transition and lists, '
             'any other is refused with a PTN_Exception and leaves the net as it was')
    W = world(A)
    N = W.N
    fn = W.fn
    # ---- places
    ops = W.op(ENG + '::createPlace')
    ms = []
    given = {'': None, 'g': fn('given'), 'h': fn('given2')}
    for n, inp, (en, eg), (xn, xg), cnt in product(('p', 'new', ''), (0, 1), (('', ''), ('a', ''), ('', 'g'), ('zz', ''), ('a', 'g')), (('', ''), ('b', ''), ('', 'h'), ('zz', 'h'), ('a', '')), (0, 5)):
        me = W.state(places={'p': (0, 1)}, actions=('a', 'b'))
        P = Obj(name=n, input=inp, initialNumberOfTokens=cnt, onEnterActionFunctionName=en, onExitActionFunctionName=xn, onEnterAction=given[eg], onExitAction=given[xg])
        ms.append(('a place "%s" with enter action %s/%s, exit action %s/%s' % (n, en or '-', eg or '-', xn or '-', xg or '-'), me, {('P', 0): P}, None, (n, inp, en, eg, xn, xg, cnt, me)))
    some = [(n, 5, 1) for n in A.p.names()] + [('new', c, 1) for c in A.p.numbers() + [2 ** 32, 2 ** 64 - 1]] + [('new', 5, k) for k in A.p.numbers(64)]
    for n, cnt, k in some:
        me = W.state(places={'p%d' % i if i else 'p': (i % 2, 1) for i in range(k)}, actions=('a', 'b'))
        P = Obj(name=n, input=cnt % 2, initialNumberOfTokens=cnt, onEnterActionFunctionName='a', onExitActionFunctionName='', onEnterAction=None, onExitAction=None)
        ms.append(('a place "%s" with %d tokens in a net of %d places' % (n, cnt, k), me, {('P', 0): P}, None, (n, cnt % 2, 'a', '', '', '', cnt, me)))

    def oracle(f, b):
        n, inp, en, eg, xn, xg, cnt, me = f
        if n in ('p', '') or 'zz' in (en, xn):
            return 'err', None
        vals = dict(onEnterActionFunctionName=en, onExitActionFunctionName=xn,
                    onEnterAction='a:' + en if en else given[eg] and given[eg]['id'], onExitAction='a:' + xn if xn else given[xg] and given[xg]['id'])
        return 'ok', upd(b, places=lambda d: dict(d, **{n: (n, inp, cnt) + tuple(vals[q] for q, x in W.extra)}))
    tabulate(ctx, W, ops, ms, oracle, 'creating', 'createPlace', 'creating a place')
    # ---- transitions
    net_ = {'p': (0, 1), 'q': (0, 1)}
    A1 = [('p', 1), ('q', 2), ('p', 0), ('zz', 1)]

    def arcs(k):
        return [list(c) for c in product(A1, repeat=k)]

    def rec(l, ty):
        return [Obj(placeName=x, weight=w, transitionName='other', type=ty) for x, w in l]
    shapes = [(0, 0, 0, 0, 0), (1, 1, 1, 0, 1), (1, 1, 1, 1, 0), (2, 0, 0, 0, 0), (0, 2, 0, 0, 0), (0, 0, 2, 0, 0), (0, 0, 0, 2, 0), (2, 1, 0, 0, 0), (0, 0, 0, 0, 2), (1, 2, 0, 2, 0), (0, 0, 0, 1, 1)]
    shapes += [(3, 0, 0, 0, 0), (0, 3, 0, 0, 0), (0, 0, 3, 0, 0), (0, 0, 0, 3, 0)]
    if ctx.tier == 'thorough':
        shapes += [(2, 2, 1, 0, 0), (1, 2, 2, 0, 0), (3, 1, 1, 0, 0), (1, 3, 0, 0, 0), (1, 0, 3, 0, 0)]
    WIDE = [('p', 2 ** 32), ('q', 2 ** 64 - 1), ('p', 2 ** 31 + 1), ('q', 2 ** 16 + 7)]
    for a, d, i, cn, cf in shapes:
        ops = W.op(ENG + '::createTransition', {'activationArcs': a, 'destinationArcs': d, 'inhibitorArcs': i, 'additionalConditionsNames': cn, 'additionalConditions': cf}, nargs=1)
        ms = []
        wide = product(('new',), *[[list(c) for c in product(WIDE, repeat=k)] for k in (a, d, i)], [('c', 'd', 'c')[:cn]], (0,)) if 1 <= a + d + i <= 3 else ()
        for n, la, ld, li, lc, fl in list(product(('t', 'new', ''), arcs(a), arcs(d), arcs(i), product(('c', 'd', 'zz'), repeat=cn), (0, 1))) + list(wide):
            if n != 'new' and (fl or a + d + i > 1):
                continue
            me = W.state(places=net_, transitions={'t': ([('p', 1)], [], [], [], 0)}, conditions=('c', 'd'))
            anon = [fn('anonymous %d' % j) for j in range(cf)]
            P = Obj(name=n, activationArcs=rec(la, 0), destinationArcs=rec(ld, 1), inhibitorArcs=rec(li, 3), additionalConditionsNames=list(lc), additionalConditions=anon,
                    requireNoActionsInExecution=fl)
            ms.append(('a transition "%s" with activation arcs %s, destination arcs %s, inhibitor arcs %s, conditions %s' % (n, la, ld, li, list(lc)), me, {('P', 0): P}, None,
                       (n, la, ld, li, lc, anon, fl)))
        if (a, d, i, cn, cf) == (1, 1, 1, 1, 0):
            for n, k, w in [(n, 1, 1) for n in A.p.names()] + [('new', k, 1) for k in A.p.numbers(64)] + [('new', 1, w) for w in A.p.numbers()]:
                la, ld, li, lc = [('p', w)], [('q', w)], [('q', w)], ('c',)
                me = W.state(places=net_, transitions={'t%d' % j if j else 't': ([('p', 1)], [], [], [], 0) for j in range(k)}, conditions=('c', 'd'))
                P = Obj(name=n, activationArcs=rec(la, 0), destinationArcs=rec(ld, 1), inhibitorArcs=rec(li, 3), additionalConditionsNames=list(lc), additionalConditions=[],
                        requireNoActionsInExecution=1)
                ms.append(('a transition "%s" with weight %d in a net of %d transitions' % (n, w, k), me, {('P', 0): P}, None, (n, la, ld, li, lc, [], 1)))

        def oracle(f, b):
            n, la, ld, li, lc, anon, fl = f
            if n in ('t', '') or 'zz' in lc:
                return 'err', None
            for l in (la, ld, li):
                if len(set(x for x, w in l)) != len(l) or any(x == 'zz' or w == 0 for x, w in l):
                    return 'err', None
            norm_ = [sorted((repr('place ' + x), w) for x, w in l) for l in (la, ld, li)]
            cs = sorted([(c, 'c:' + c) for c in lc] or [('', x['id']) for x in anon])
            return 'ok', upd(b, transitions=lambda t: dict(t, **{n: (n, *norm_, cs, fl)}))
        tabulate(ctx, W, ops, ms, oracle, 'creating', 'createTransition', 'creating a transition')
    # ---- arcs
    lists = {0: [[]], 1: [[('p', 1)], [('q', 3)]], 2: [[('p', 1), ('q', 3)], [('q', 3), ('p', 2)]]}
    shapes = [s for s in product((0, 1), repeat=3)] + [(2, 0, 0), (0, 2, 0), (0, 0, 2), (2, 1, 0), (1, 2, 0), (2, 2, 0)]
    if ctx.tier == 'thorough':
        shapes = list(product((0, 1, 2), repeat=3))
    numbers = sorted({2 ** 32, 2 ** 64 - 1} | {x for x in A.p.numbers() if x > 3})
    en = dict(ACTIVATION=0, DESTINATION=1, BIDIRECTIONAL=2, INHIBITOR=3)
    try:
        from .actions import enumerators
        e = dict(enumerators(A, 'ptne::ArcProperties::Type'))
        en = {k: e[k] for k in en}
    except (KeyError, AnalysisBroken, Unrecognised):
        raise Unrecognised('the types of arcs were not found')
    T = {v: k for k, v in en.items()}
    which = {'ACTIVATION': (0,), 'DESTINATION': (1,), 'BIDIRECTIONAL': (0, 1), 'INHIBITOR': (2,)}
    for opn in ('addArc', 'removeArc'):
        for a, d, i in shapes:
            ops = W.op(ENG + '::' + opn, {N.act: a, N.dst: d, N.inh: i, N.cond: 0})
            ms = []
            full = a + d + i <= 1
            for la, ld, li, pl, tr, ty, w in product(lists[a], lists[d], lists[i], ('p', 'q', 'zz'), ('t', 'u', 'zz'), list(T) + [max(T) + 4], [0, 1, 3] + numbers):
                if not full and (tr == 'zz' or pl == 'zz' or ty not in T or w >= 3 or tr == 'u' and w):
                    continue
                if w > 3 and ('zz' in (tr, pl) or ty not in T):
                    continue
                if opn == 'removeArc' and w >= 3:
                    continue
                o = [('q', 9) if x == 'p' else ('p', 9) for x, _ in la]
                me = W.state(places=net_, transitions={'t': (la, ld, li, [], 0), 'u': (lists[a][-1], lists[d][0], lists[i][-1], [], 1)})
                P = Obj(placeName=pl, transitionName=tr, type=ty, weight=w)
                ms.append(('%s of place "%s", transition "%s", type %s, weight %d, where the transition has %s' % (
                    opn, pl, tr, T.get(ty, ty), w, (la, ld, li) if tr == 't' else 'other arcs'), me, {('P', 0): P}, None, (pl, tr, ty, w)))

            def oracle(f, b, opn=opn):
                pl, tr, ty, w = f
                if pl == 'zz' or tr == 'zz' or ty not in T:
                    return 'err', None
                cur = [list(x) for x in b['transitions'][tr][1:4]]
                me_ = repr('place ' + pl)
                for k in which[T[ty]]:
                    there = any(x == me_ for x, _ in cur[k])
                    if there == (opn == 'addArc'):
                        return 'err', None
                    if opn == 'addArc':
                        if w == 0 and k == 1:
                            return 'err', None
                        cur[k] = sorted(cur[k] + [(me_, w)])
                    else:
                        cur[k] = [x for x in cur[k] if x[0] != me_]
                if opn == 'addArc' and w == 0:
                    return 'any', None
                t = b['transitions'][tr]
                return 'ok', upd(b, transitions=lambda d: dict(d, **{tr: (t[0], *cur, *t[4:])}))
            tabulate(ctx, W, ops, ms, oracle, 'arcs', opn, 'changing an arc')


def running(A, W, ops, me):
    return me


@check('C15')
def c15(ctx, A):
    ctx.rule('the operations that clear the net, add or remove arcs or change how actions are executed are evaluated over small nets with the loop running and stopped: '
             'while it runs every path is a refusal with a PTN_Exception that leaves the net, the option and the executor as they were; when it is stopped they do '
             'what they have to do')
    W = world(A)
    N, E = W.N, W.E
    nets = [{}, {'p': (0, 1)}, {'p': (1, 0), 'q': (0, 2)}]
    trs = [{}, {'t': ([('p', 1)], [], [], [], 0)}]
    fl = [f['name'] for f in A.p.fields(ENG) if f['name'] not in (W.places, W.transitions, W.actions, W.conditions)]

    def touched(st, ops):
        out = []
        for e in flat(st.events()):
            if e.kind in ('wr', 'ast', 'armw', 'axchg', 'acas') and root(e.a)[0] in ('O', 'P') and isinstance(e.a, tuple):
                out.append(e)
            elif e.kind in ('reqstop', 'join', 'detach', 'spawn', 'thrset'):
                out.append(e)
            elif e.kind == 'call' and A.p.functions[e.a].get('b') is not None and A.M.summary(A.p.functions[e.a]).writes:
                out.append(e)
        return out
    for opn, ms0 in (
            ('clearNet', [({}, s, t) for s in nets for t in trs if 'p' in s or not t]),
            ('addArc', [({('P', 0): Obj(placeName=n, transitionName=m, type=ty, weight=1)}, s, t) for n in ('p', 'zz') for m in ('t', 'zz') for ty in (0, 1, 2, 3) for s in nets for t in trs if 'p' in s or not t]),
            ('removeArc', [({('P', 0): Obj(placeName=n, transitionName=m, type=ty, weight=1)}, s, t) for n in ('p', 'zz') for m in ('t', 'zz') for ty in (0, 1, 2, 3) for s in nets for t in trs if 'p' in s or not t])):
        ops = W.op(ENG + '::' + opn, {N.act: 1, N.dst: 0, N.inh: 0, N.cond: 0})
        ms = []
        for r, s, t in ms0:
            for run in (1, 0) if opn == 'clearNet' else (1,):
                me = W.state(places=s, transitions=t, actions=('a',), conditions=('c',), running=run)
                ms.append(('%s with places %s, transitions %s, loop %s' % (opn, sorted(s), sorted(t), 'running' if run else 'stopped'), me, r, None, run))

        def oracle(f, b):
            return ('err', None) if f else ('ok', upd(b, places=lambda d: {}, transitions=lambda d: {}))
        tabulate(ctx, W, ops, ms, oracle, 'refused while running', opn, 'changing the net')
    # everything that changes how actions are executed, and no write at all before the refusal
    for opn in ('clearNet', 'addArc', 'removeArc', 'setActionsThreadOption'):
        ops = W.op(ENG + '::' + opn)
        n = 0
        for st, v in ops.paths:
            k = flag_known(st.pc, E.running)
            tr = lambda: show_trace(st, v)
            ch = touched(st, ops)
            if isinstance(v, Throw):
                if k is not False and ch and not A.p.derives(v.typ, 'ptne::PTN_Exception') is False and k:
                    ctx.check('refusal has no effect', False, opn + ':effect', '%s changes the engine before it refuses' % opn, ch[0].site, tr())
                continue
            n += 1
            same = opn == 'setActionsThreadOption' and not ch
            if k is True:
                ctx.check('only while stopped', None if same else False, opn + ':running', '%s succeeds although the loop is running' % opn, ch[0].site if ch else tuple(ops.f['l']), tr())
            elif k is None:
                ctx.check('only while stopped', True if same else False, opn + ':unchecked', '%s changes the engine without having looked whether the loop is running' % opn,
                          ch[0].site if ch else tuple(ops.f['l']), tr())
            else:
                # nothing may be changed before the flag was looked at
                ctx.check('only while stopped', True, '', '', sample='%s: succeeds only when the loop is not running' % opn)
        if not n:
            ctx.check('only while stopped', False, opn + ':never', '%s can never succeed' % opn, tuple(ops.f['l']))


def nodes(o):
    if isinstance(o, list):
        for x in o:
            yield from nodes(x)
    elif isinstance(o, dict):
        yield o
        for x in o.values():
            if isinstance(x, (list, dict)):
                yield from nodes(x)


def mentions(f, fields):
    return any(x in fields for n in nodes(f['b']) for x in n.values() if isinstance(x, str))


def gives_up(A, f, seen):
    """can a function fail because a weak reference is gone?"""
    for n in nodes(f['b']):
        if n.get('k') == 'throw' and 'Expired' in str(n.get('et')):
            return True
        g = n.get('fn')
        g = A.p.functions.get(g.get('f')) if isinstance(g, dict) and isinstance(g.get('f'), str) else None
        if g and 'b' in g and g['n'] not in seen:
            seen.add(g['n'])
            if gives_up(A, g, seen):
                return True
    return False


def stale_inputs(ctx, A, W):
    """a list of places kept beside the registry does not outlive it: what walks it later would meet places that are gone"""
    cls = 'ptne::PlacesManager'
    weak = [f for f in W.others[cls] if any('weak_ptr' in x['t'] for x in A.p.fields(cls) if x['name'] == f)]
    if not weak:
        return
    fails = any((f.get('cls') or '') == cls and 'b' in f and not norm(f['n']).endswith(('::clear', '::insert')) and mentions(f, weak) and gives_up(A, f, set())
                for f in A.p.functions.values())
    ops = W.op(cls + '::clear')
    for k in range(4):
        me = W.state(places={'p%d' % i: (1, 0) for i in range(k)})
        pm = me[W.places]
        for f in weak:
            pm[f] = list(pm[W.pmap].values())
        m = Model(pm, {}, '%d input places' % k, None)
        for st, v in ops.paths:
            r, why, ev = ops.follow(st, m)
            if r is not True or isinstance(v, Throw) or feasible(A, ev, st, v, m):
                continue
            ov = W.after(pm, ev, st)
            for f in weak:
                now = ov.get((id(pm), f), pm[f])
                ok = None if not isinstance(now, list) else not now or (False if fails else None)
                ctx.check('no stale registration', ok, 'clear:' + f, 'after clearing %d input places %s still lists %s of them: walking it later fails' % (k, f, len(now) if isinstance(now, list) else '?'),
                          tuple(ops.f['l']), show_trace(st, v), sample='clear also empties %s' % f)


@check('C22')
def c22(ctx, A):
    ctx.rule('what the engine\'s observers return, as extracted with the registries, the transition and the const accessors of the places inlined, is evaluated over small '
             'nets and compared with the net: the number of tokens is that of the place named, the properties of places and transitions list every place, arc, weight, type, '
             'condition and flag exactly once, the printed state shows every place with its tokens, and printing in the log happens exactly when it was asked for, on the stream given; the sleep duration answered is the one last set')
    W = world(A)
    N = W.N
    nets = [{}, {'p': (1, 0)}, {'p': (0, 0)}, {'p': (0, 0), 'q': (1, 0)}, {'q': (0, 7)}, {'p': (0, 3), 'q': (1, 5)}, {'p': (1, 2 ** 64 - 1)}, {'p': (0, 2 ** 32 + 11)}, {'q': (0, 2 ** 31 + 5), 'p': (1, 2 ** 16 + 300)}] + [{'p': (i % 2, x)} for i, x in enumerate(A.p.numbers())]
    ops = W.op(ENG + '::getNumberOfTokens')
    ms = []
    for s, n in product(nets, NAMES):
        ms.append(('places (input, tokens) %s, asked for "%s"' % (s, n), W.state(places=s), {('P', 0): n}, None, (s, n)))

    def result(f, ev, st, v):
        s, n = f
        try:
            x = ev.val(v)
        except (Unknown, Free):
            return None, short(v)
        return x == s[n][1], 'it says %s' % x
    tabulate(ctx, W, ops, ms, lambda f, b: ('ok', b) if f[1] in f[0] else ('err', None), 'observed', 'getNumberOfTokens', 'the number of tokens', result=result)
    # places
    pf = [f['name'] for f in A.p.fields('ptne::PlaceProperties')]
    for k in (0, 1, 2):
        ops = W.op(ENG + '::getPlacesProperties', {W.pmap: k})
        ms = []
        for s in nets:
            if len(s) != k:
                continue
            for var in (0, 1):
                me = W.state(places={n: (*x, 1 - var) for n, x in s.items()})
                for n, o in me[W.places][W.pmap].items():
                    for q, f in W.extra:
                        o[f] = ('' if not var else 'fn ' + q + n) if q.endswith('Name') else (None if var else W.fn(q + n))
                ms.append(('places %s' % s, me, {}, None, (s, me)))

        def result(f, ev, st, v):
            s, me = f
            try:
                x = ev.val(v)
            except (Unknown, Free):
                return None, short(v)
            if not isinstance(x, list) or not all(isinstance(o, Obj) for o in x):
                return None, short(v)
            flat_ = lambda y: y.get('id', '?') if isinstance(y, Obj) else y
            got = sorted((tuple(sorted((q, flat_(y)) for q, y in o.items())) for o in x), key=str)
            if any(isinstance(y, tuple) and y and y[0] == '?' for o in x for y in o.values()):
                return None, str(got)[:200]
            want = []
            for n, o in me[W.places][W.pmap].items():
                d = dict(name=n, input=o[W.input], initialNumberOfTokens=s[n][1])
                d.update((q, flat_(o[fl])) for q, fl in W.extra)
                want.append(tuple(sorted(d.items())))
            want = sorted((tuple(y for y in w if y[0] in pf) for w in want), key=str)
            keep = {y[0] for w in want for y in w}
            got = [tuple(y for y in g if y[0] in keep) for g in got]
            return got == want, 'it gives %s instead of %s' % (got, want)
        tabulate(ctx, W, ops, ms, lambda f, b: ('ok', b), 'observed', 'getPlacesProperties', 'the properties of the places', result=result)
    # transitions
    lists = {0: [[]], 1: [[('p', 1)], [('q', 3)], [('p', 2 ** 32)], [('q', 2 ** 64 - 1)]], 2: [[('p', 1), ('q', 3)], [('q', 3), ('p', 2)]]}
    en = dict(enumerators(A, 'ptne::ArcProperties::Type'))
    for k, a, d, i, c in [(0, 0, 0, 0, 0), (1, 0, 0, 0, 0), (1, 1, 1, 1, 1), (1, 2, 0, 0, 0), (1, 0, 2, 0, 2), (1, 0, 0, 2, 0), (1, 2, 2, 2, 0), (1, 2, 1, 1, 0), (1, 1, 2, 1, 2), (1, 1, 1, 2, 0), (2, 1, 0, 0, 0), (2, 0, 1, 1, 1)]:
        ops = W.op(ENG + '::getTransitionsProperties', {W.tmap: k, N.act: a, N.dst: d, N.inh: i, N.cond: c})
        ms = []
        for ts in product(product(lists[a], lists[d], lists[i], product(('c', 'd', ''), repeat=c), (0, 1)), repeat=k):
            if k == 2 and (a or d) and ts[0] == ts[1]:
                continue
            me = W.state(places={'p': (0, 1), 'q': (1, 0)}, transitions={'t%d' % j: t for j, t in enumerate(ts)})
            ms.append(('transitions %s' % (ts,), me, {}, None, ts))

        def result(f, ev, st, v):
            try:
                x = ev.val(v)
            except (Unknown, Free):
                return None, short(v)
            if not isinstance(x, list) or not all(isinstance(o, Obj) for o in x):
                return None, short(v)
            got = []
            for o in x:
                ls = []
                for q in ('activationArcs', 'destinationArcs', 'inhibitorArcs'):
                    l = o.get(q)
                    if not isinstance(l, list) or not all(isinstance(y, Obj) for y in l):
                        return None, q
                    ls.append(sorted(((y.get('placeName'), y.get('weight'), y.get('transitionName'), y.get('type')) for y in l), key=str))
                cs, fs = o.get('additionalConditionsNames'), o.get('additionalConditions')
                if not isinstance(cs, list) or not isinstance(fs, list):
                    return None, 'conditions'
                got.append((o.get('name'), *ls, sorted(cs), sorted(y.get('id', '?') if isinstance(y, Obj) else '?' for y in fs), o.get('requireNoActionsInExecution')))
            want = []
            for j, (la, ld, li, lc, fl) in enumerate(f):
                n = 't%d' % j
                ls = [sorted(((p_, w, n, en[ty]) for p_, w in l), key=str) for l, ty in ((la, 'ACTIVATION'), (ld, 'DESTINATION'), (li, 'INHIBITOR'))]
                want.append((n, *ls, sorted(lc), sorted('c:' + y for y in lc), fl))
            if unknown([list(g) for g in got]) or "('?'" in str(got):
                return None, str(got)[:200]
            return sorted(got, key=str) == sorted(want, key=str), 'it gives %s instead of %s' % (got, want)
        tabulate(ctx, W, ops, ms, lambda f, b: ('ok', b), 'observed', 'getTransitionsProperties', 'the properties of the transitions', result=result)
    # printing
    for k in (0, 1, 2):
        ops = W.op(ENG + '::printState', {W.pmap: k})
        ms = [('places %s' % s, W.state(places=s), {}, None, s) for s in nets if len(s) == k]

        def result(f, ev, st, v):
            t = printed(ev, st, ('P', 0))
            if t is None:
                return None, 'the output is not understood'
            return shows(t, f), 'it prints "%s"' % t.replace('\n', '/')
        tabulate(ctx, W, ops, ms, lambda f, b: ('ok', b), 'printed', 'printState', 'the printed state', result=result)
        ops = W.op('ptne::PTN_EngineImp::executeInt', {W.pmap: k}, keep=('ptne::TransitionsManager::collectEnabledTransitionsRandomly',))
        for s in nets:
            if len(s) != k:
                continue
            for log in (0, 1):
                m = Model(W.state(places=s), {('P', 0): log}, '')
                for st, v in ops.paths:
                    if isinstance(v, Throw):
                        continue
                    r, why, ev = ops.follow(st, m)
                    if r is False or r is None:
                        continue
                    t = printed(ev, st, ('P', 1))
                    if t is None:
                        ctx.check('log', None, 'log', 'the log is not understood', tuple(ops.f['l']))
                        continue
                    ctx.check('log', shows(t, s) if log else t == '', 'log:%d' % log, 'with log %s and places %s a round of the loop prints "%s"' % ('on' if log else 'off', s, t.replace('\n', '/')),
                              tuple(ops.f['l']), show_trace(st, v), sample='log %s' % ('on: the state is printed' if log else 'off: nothing is printed'))
    # what execute was given reaches the rounds of the loop
    E = W.E
    for e, st, v in E.bodies:
        for x in flat(st.events()):
            if is_exec(A, x):
                a = list(x.b[1])
                ok = len(a) >= 2 and a[0] == ('init', ('P', 0)) and a[1] in (('ref', ('P', 1)), ('refw', ('P', 1)))
                if not ok and a and (a[0][0] == 'b' or len(a) > 1 and a[1][0] == 'ref' and a[1][1][0] == 'G'):
                    ctx.check('log wanted', False, 'log-args', 'the loop runs the net with log option %s instead of the one given to execute' % short(a[0]), x.site)
                else:
                    ctx.check('log wanted', True if ok else None, 'log-args', 'the log option of a round is %s' % short(tuple(a)), x.site, sample='the loop runs rounds with the log option and stream given to execute')
    for st, v in E.start:
        for x in flat(st.events()):
            if is_exec(A, x):
                a = list(x.b[1])
                ok = len(a) >= 2 and a[0] == ('init', ('P', 0)) and a[1] in (('ref', ('P', 1)), ('refw', ('P', 1)))
                ctx.check('log wanted', ok or (False if a and a[0][0] == 'b' else None), 'log-args', 'execute runs the net with log option %s' % short(tuple(a)), x.site)

    settings(ctx, A, E)


def printed(ev, st, stream):
    """the text a path prints"""
    t = ''
    for e in st.events():
        if e.kind == 'loop' and any(x.kind == 'out' for x in flat([e])):
            return None
        if e.kind != 'out':
            continue
        if e.b != stream:
            try:
                if ev.loc(e.b) is not None:
                    pass
            except (Unknown, Free):
                pass
            if e.b[0] in ('G',):
                continue
            return None
        if e.a == ('manip',):
            t += '\n'
            continue
        try:
            x = ev.val(e.a)
        except (Unknown, Free, KeyError):
            return None
        t += str(x)
    return t


def shows(t, s):
    import re
    for n, (inp, cnt) in s.items():
        if len(re.findall(r'(?<!\w)%s\W+%d(?!\w)' % (re.escape(n), cnt), t)) != 1:
            return False
    return len(re.findall(r'(?<!\w)[pq]\W+\d', t)) == len(s)


def net_writes(A, st):
    """writes of a path to what existed before it, per location"""
    out = {}
    for e in flat(st.events()):
        if e.kind in ('wr', 'ast', 'armw', 'axchg', 'acas') and isinstance(e.a, tuple) and e.a and root(e.a)[0] in ('O', 'P', 'G', 'R'):
            out.setdefault(e.a, []).append(e)
    return out


@check('C23')
def c23(ctx, A):
    ctx.rule('for every operation a user can call (execution itself excepted), every path that ends in an exception, with the registries and the transition\'s operations inlined, '
             'leaves every member of the engine, of its places and of its transitions with the value it had, and no operation that changes them was completed before the failure')
    W = world(A)
    E = W.E
    skip = {ENG + '::execute', ENG + '::executeInt', ENG + '::stop'}
    free = {E.running, E.input, E.thread} - {None}
    names = []
    for f in A.p.functions.values():
        if f.get('cls') == ENG and 'b' in f and norm(f['n']) in A.M.units and norm(f['n']) not in skip and used(A, f['key']) and f.get('access') == 'public':
            names.append((norm(f['n']), len(f['p'])))
    if not names:
        raise AnalysisBroken('no operation of the engine is used by its interface')
    ctx.anchor('operations: ' + ', '.join(sorted(n.split('::')[-1] for n, k in names)))
    for q, k in sorted(set(names)):
        for sizes in (None, {'activationArcs': 1, 'destinationArcs': 1, 'inhibitorArcs': 1, 'additionalConditionsNames': 2, 'additionalConditions': 1, W.N.act: 1, W.N.dst: 1, W.N.inh: 1, W.N.cond: 1}):
            ops = W.op(q, sizes, nargs=k)
            nt = 0
            for st, v in ops.paths:
                if not isinstance(v, Throw):
                    continue
                nt += 1
                evs = list(flat(st.events()))
                last = [e for e in evs if e.kind == 'callthrow']
                done = []
                for e in evs:
                    if e.kind == 'call' and not any(t.b[2] == e.b[2] for t in last):
                        g = A.p.functions[e.a]
                        if 'b' in g and not g.get('const') and A.M.summary(g).writes and e.b[0] is not None and root(e.b[0])[0] in ('O', 'P', '*'):
                            done.append(e)
                ws = {l: es for l, es in net_writes(A, st).items() if l not in free}
                bad = None
                for l, es in ws.items():
                    now = st.mem.get(l)
                    if now is None or now == ('init', l):
                        if es[-1].kind == 'wr' and now == ('init', l):
                            continue
                        continue
                    if now[0] == 'aload' and now[1] == l:
                        continue
                    sure = not has_pop(now)
                    if bad is None or sure:
                        bad = (sure, l, es[-1])
                ctx.check('failure leaves everything as it was', True if not bad else (False if bad[0] else None), q.split('::')[-1] + ':partial',
                          '%s fails with %s after it changed %s' % (q.split('::')[-1], v.typ, short(bad[1]) if bad else ''), bad[2].site if bad else None, show_trace(st, v),
                          sample='%s: nothing is changed when it fails with %s' % (q.split('::')[-1], v.typ))
                for e in done:
                    n = norm(A.p.functions[e.a]['n'])
                    if n in ('ptne::Place::enterPlace',):
                        continue
                    ctx.check('nothing was done before the failure', None, q + ':' + n, '%s fails with %s after %s' % (q.split('::')[-1], v.typ, n), e.site)
                ctx.count('failing_paths')


def has_pop(v):
    return isinstance(v, tuple) and (v[:1] == ('op',) and v[1] in ('popb', 'popf', 'erase') or v[:1] == ('sym',) or any(has_pop(y) for y in v if isinstance(y, tuple)))


FACADE = 'ptne::PTN_Engine'


EFFECTS = ('wr', 'ast', 'armw', 'axchg', 'acas', 'spawn', 'join', 'detach', 'reqstop', 'notify', 'cb', 'out', 'xml', 'thr', 'thrset', 'loop', 'unknown', 'wait', 'sleep')


def skipped(A, pc, name):
    """an operation of the net that was left out because of what an observer of the net answered: would it have done nothing anyway?
    True / False, None if that is not understood; ... if no observer was asked"""
    p = A.p
    obs = []
    for a, b in pc.items():
        if a[0] == 't' and isinstance(a[1], tuple) and a[1][0] == 'init' and a[1][1][0] == 'R':
            g = p.functions.get(a[1][1][2])
            if g and g.get('cls') == ENG and g.get('const') and g['rt'] == 'bool':
                obs.append((g, b))
    if not obs:
        return ...
    W = world(A)
    fs = [f for f in p.functions.values() if f.get('cls') == ENG and f['bn'] == name and 'b' in f]
    if len(fs) != 1:
        return None
    f = fs[0]

    def paths(g):
        I = A.M.interp(inline=W.inl | {norm(g['n'])})
        I.this_class = {ENG: SELF}
        st = St()
        return I.start(g, SELF, I.sym_args(g, st), st)
    facts = []
    for g, b in obs:
        ps = [(s, v) for s, v in paths(g) if not isinstance(v, Throw)]
        if len(ps) != 1 or ps[0][1][0] not in ('aload', 'B'):
            return None
        v = ps[0][1]
        if v[0] == 'B':
            if v[1][0] != 't' or v[1][1][0] != 'aload':
                return None
            b = b == v[2]
            v = v[1][1]
        facts.append((v[1], b))
    sure = True
    for s, v in paths(f):
        first = {}
        for a, b in sorted(((a, b) for a, b in s.pc.items() if a[0] == 't' and a[1][0] == 'aload'), key=lambda x: x[0][1][2]):
            first.setdefault(a[1][1], b)
        if any(l in first and first[l] != b for l, b in facts):
            continue
        if isinstance(v, Throw) or any(e.kind in EFFECTS or e.kind == 'call' and not p.functions[e.a].get('const') for e in flat(s.events())):
            return False
    return sure


@check('C24')
def c24(ctx, A):
    ctx.rule('every path of every public operation of PTN_Engine, with the synchronised layer inlined, calls the operation of the net of the same name exactly once, on the engine\'s own '
             'net, with the arguments it was given, each in its place, returns what that returned, and calls no operation that changes the net besides')
    p = A.p
    proxies = {f['cls'] for f in p.functions.values() if (f.get('cls') or '').startswith(FACADE + '::') and f['cls'].endswith('Proxy')}
    inl = {u for u in A.M.units if u.rsplit('::', 1)[0] in proxies}
    imp = {norm(f['n']).split('::')[-1] for f in p.functions.values() if f.get('cls') == ENG}
    n = 0
    for f in p.functions.values():
        if f.get('cls') != FACADE or 'b' not in f or f.get('kind') in ('ctor', 'dtor') or f.get('access') != 'public' or f['bn'].startswith('~'):
            continue
        name = f['bn']
        if name not in imp:
            ctx.check('passed on', None, name, 'there is no operation %s of the net' % name, tuple(f['l']))
            continue
        n += 1
        I = A.M.interp(inline=inl | {norm(f['n'])})
        I.alive = True
        I.this_class = {FACADE: SELF}
        st = St()
        ok_paths = 0
        for s, v in I.start(f, SELF, I.sym_args(f, st), st):
            evs = list(flat(s.events()))
            calls = [e for e in evs if e.kind == 'call' and A.p.functions[e.a].get('cls') == ENG]
            mine = [e for e in calls if norm(A.p.functions[e.a]['n']).split('::')[-1] == name]
            tr = show_trace(s, v)
            if isinstance(v, Throw):
                if any(e.kind == 'callthrow' for e in evs) or foreign(v):
                    continue
                ctx.check('passed on', None if mine else False, name + ':throws', '%s fails with %s without asking the net' % (name, v.typ), v.site or tuple(f['l']), tr)
                continue
            ok_paths += 1
            other = [e for e in calls if e not in mine and not A.p.functions[e.a].get('const') and A.M.summary(A.p.functions[e.a]).writes]
            loops = [e for e in s.events() if e.kind == 'loop' and any(x in calls for x in flat([e]))]
            if loops:
                ctx.check('passed on', None, name, '%s asks the net in a loop' % name, loops[0].site)
                continue
            if not mine:
                sk = skipped(A, s.pc, name)
                if sk is not ... and not other:
                    ctx.check('passed on', sk, name + ':dropped', '%s does not ask the net, depending on what the net answers to something else' % name, tuple(f['l']), tr,
                              sample='%s is left out only where it would have done nothing' % name)
                    continue
                hidden = other or any(e.kind in ('wr', 'ast', 'call', 'spawn', 'armw') for e in evs)
                const = f.get('const') and p.tinfo(f['rt']).get('cat') != 'void' and f['rt'] != 'void'
                ctx.check('passed on', None if hidden and not other else False, name + ':dropped', '%s %s' % (name, 'does not ask the net' if not other else 'calls %s instead' % norm(A.p.functions[other[0].a]['n'])),
                          (other or [None])[0].site if other else tuple(f['l']), tr)
                continue
            ctx.check('passed on', len(mine) == 1, name + ':twice', '%s is passed on %d times' % (name, len(mine)), mine[-1].site, tr, sample='%s is passed on once' % name)
            ctx.check('nothing else', not other, name + ':extra', '%s also calls %s' % (name, norm(A.p.functions[other[0].a]['n']) if other else ''), other[0].site if other else None, tr)
            for e in mine[:1]:
                args = I.argvals.get(e.b[2], e.b[1])
                g = A.p.functions[e.a]
                for i, a in enumerate(args[:len(g['p'])]):
                    want = ('P', i)
                    if a[:2] == ('op', 'cast') and a[4] == ('init', want):
                        ctx.check('arguments', a[2] >= p.tinfo(p.strip(f['p'][i]['t'] if isinstance(f['p'][i], dict) else f['p'][i])).get('bits', 64), '%s:arg%d' % (name, i), '%s passes argument %d on cut down to %d bits' % (name, i + 1, a[2]), e.site, tr)
                        continue
                    good = a in (('ref', want), ('init', want), ('refw', want)) or a[0] == 'init' and a[1] == want
                    good = good or a[0] == 'rec' and a[2] and all(x in (('init', ('.', want, k)), ('ref', ('.', want, k))) for k, x in a[2])
                    if good:
                        ctx.check('arguments', True, '', '', sample='%s: argument %d unchanged' % (name, i))
                        continue
                    wrong = a[0] in ('i', 'b', 's', 'e') or a[0] == 'rec' and any(x[0] == 'init' and contains(x, ('P', i)) and x[1] != ('.', want, k) for k, x in a[2]) or (a[0] in ('ref', 'init') and a[1][0] == 'P') or not contains(a, want)
                    ctx.check('arguments', False if wrong else None, '%s:arg%d' % (name, i), '%s passes on %s as argument %d' % (name, short(a), i + 1), e.site, tr)
                R = ('R', e.b[2], e.a)
                if p.strip(f['rt']) != 'void':
                    if v[:2] == ('op', 'cast') and v[4] == ('init', R):
                        ctx.check('result', v[2] >= p.tinfo(p.strip(f['rt'])).get('bits', 64), name + ':result', '%s returns the answer of the net cut down to %d bits' % (name, v[2]), tuple(f['l']), tr)
                        continue
                    good = v in (('init', R), ('ref', R)) or v[0] == 'rec' and all(x == ('init', ('.', R, k)) for k, x in v[2])
                    if not good and v[0] == 'B' and v[2] is True and v[1] == ('t', ('init', R)):
                        good = True
                    if not good and v[0] == 'b' and s.pc.get(('t', ('init', R))) is v[1]:
                        good = True
                    ctx.check('result', True if good else (None if contains(v, R) and v[0] not in ('B',) else False), name + ':result', '%s returns %s' % (name, short(v)), tuple(f['l']), tr,
                              sample='%s returns the answer of the net' % name)
        if not ok_paths:
            ctx.check('passed on', False, name + ':never', '%s can never succeed' % name, tuple(f['l']))
    if not n:
        raise AnalysisBroken('the public operations of PTN_Engine were not found')
    ctx.count('public_operations', n)
