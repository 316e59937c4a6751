"""Small states of a whole engine, as the analysed operations see them: used to tabulate what the engine's operations do."""
from itertools import product
from .core import *
from .core import norm
from .mod import Throw, flat, AnalysisBroken, fieldname
from .optable import *
from .checks.tokens import field_returned
from .tables import put

ENG = 'ptne::PTN_EngineImp'


class ShapeBy(dict):
    """sizes of collections by the name of the field that holds them"""
    def __init__(self, sizes):
        super().__init__({'sizes': max(list(sizes.values()) + [0])})
        self.sizes = sizes

    def key(self, c):
        return c[1][2] if c[0] == 'init' and isinstance(c[1], tuple) and c[1][0] == '.' and c[1][2] in self.sizes else \
            '*' + str(c[1][1]) if c[0] == 'init' and c[1][0] == 'P' and '*' + str(c[1][1]) in self.sizes else None

    def __contains__(self, c):
        return self.key(c) is not None

    def __getitem__(self, c):
        return self.sizes[self.key(c)]

    def get(self, c, d=None):
        return self[c] if c in self else d


class World:
    def __init__(self, A, E, N):
        self.A, self.E, self.N = A, E, N
        p = A.p
        one = lambda cls, pred, what: self.only([f['name'] for f in p.fields(cls) or [] if pred(f['t'])], what)
        self.places = one(ENG, lambda t: p.strip(t) == 'ptne::PlacesManager', 'the places of the engine')
        self.transitions = one(ENG, lambda t: p.strip(t) == 'ptne::TransitionsManager', 'the transitions of the engine')
        self.actions = one(ENG, lambda t: 'ManagedContainer<std::function<void' in t, 'the actions of the engine')
        self.conditions = one(ENG, lambda t: 'ManagedContainer<std::function<bool' in t, 'the conditions of the engine')
        ismap = lambda t: p.strip(t).split('<')[0] in ('std::unordered_map', 'std::map')
        self.pmap = one('ptne::PlacesManager', ismap, 'the map of the places')
        self.tmap = one('ptne::TransitionsManager', ismap, 'the map of the transitions')
        mc = [c for c in p.records if c.startswith('ptne::ManagedContainer<')]
        self.cmap = self.only(sorted({f['name'] for c in mc for f in p.fields(c) if ismap(f['t'])}), 'the map of the registered functions')
        self.pname = field_returned(A, 'ptne::Place::getName')[2]
        self.tname = field_returned(A, 'ptne::Transition::getName')[2]
        self.input = field_returned(A, 'ptne::Place::isInputPlace')[2]
        self.count = N.count[2]
        self.others = {c: [f['name'] for f in p.fields(c) if p.strip(f['t']).split('<')[0] in ('std::vector', 'std::list', 'std::deque', 'std::set', 'std::unordered_set')]
                       for c in ('ptne::PlacesManager', 'ptne::TransitionsManager')}
        self.inl = E.units | {u for u in A.M.units if u.rsplit('::', 1)[0] in ('ptne::PlacesManager', 'ptne::TransitionsManager', 'ptne::ManagedContainer')}
        self.inl |= {u for u in A.M.units if u.rsplit('::', 1)[0] == 'ptne::Transition' and not u.endswith('::execute')}
        self.inl |= {'ptne::Place::' + m for m in ('getName', 'isInputPlace', 'getNumberOfTokens', 'placeProperties', 'getOnEnterActionName', 'getOnExitActionName')}
        from .checks.firing import place_fields
        pf = place_fields(A)
        self.extra = [(q, pf[q]) for q in ('onEnterAction', 'onExitAction', 'onEnterActionFunctionName', 'onExitActionFunctionName') if q in pf]
        self.cache = {}

    @staticmethod
    def only(xs, what):
        if len(xs) != 1:
            raise AnalysisBroken('%s: %s' % (what, 'not found' if not xs else 'more than one'))
        return xs[0]

    def op(self, q, sizes=None, keep=(), nargs=None, f=None):
        """all paths of an operation of the engine, collections of the given sizes"""
        key = (q, tuple(sorted((sizes or {}).items())), tuple(keep), nargs)
        if key not in self.cache:
            fs = [g for g in self.A.p.find(q) if 'b' in g and (nargs is None or len(g['p']) == nargs)]
            if len(fs) != 1:
                raise AnalysisBroken('anchor vanished: %s' % q)
            f = fs[0]
            I = self.A.M.interp(inline=self.inl - set(keep))
            if sizes is not None:
                I.shape = ShapeBy(sizes)
            I.alive = True
            I.this_class = {f['cls']: SELF}
            st = St()
            if f['cls'] == ENG:
                st.mem.update(self.E.refs)
            self.cache[key] = Ops(self.A, I, I.start(f, SELF, I.sym_args(f, st), st))
            self.cache[key].f = f
        return self.cache[key]

    # ---------------------------------------------------------------- states
    def fn(self, i):
        return Obj(id=i)

    def state(self, places=(), transitions=(), actions=(), conditions=(), running=0):
        """places: {name: (input, count)}, transitions: {name: (act, dst, inh, conds, flag)}, functions: names"""
        me = Obj()
        N = self.N
        ps = Map()
        for n, (inp, cnt, *busy) in dict(places).items():
            o = Obj(id='place ' + n)
            o[self.pname], o[self.input] = n, int(inp)
            put(o, N.count, SELF, cnt)
            try:
                put(o, N.inexec, SELF, busy[0] if busy else 0)
            except (Unknown, TypeError):
                pass
            for q, f in self.extra:
                o[f] = '' if q.endswith('Name') else None
            ps[n] = o
        ts = Map()
        for n, (a, d, i, c, fl) in dict(transitions).items():
            o = Obj(id='transition ' + n)
            o[self.tname] = n
            for f, arcs in ((N.act, a), (N.dst, d), (N.inh, i)):
                o[f] = [self.arc(ps[x], w) for x, w in arcs]
            o[N.cond] = [Obj(first=x, second=self.fn('c:' + x)) for x in c]
            o[N.flag] = int(fl)
            ts[n] = o
        me[self.places] = pm = Obj()
        me[self.transitions] = tm = Obj()
        for c, o in (('ptne::PlacesManager', pm), ('ptne::TransitionsManager', tm)):
            for f in self.others[c]:
                o[f] = []
        pm[self.pmap], tm[self.tmap] = ps, ts
        me[self.actions] = Obj([(self.cmap, Map((n, self.fn('a:' + n)) for n in actions))])
        me[self.conditions] = Obj([(self.cmap, Map((n, self.fn('c:' + n)) for n in conditions))])
        put(me, self.E.running, SELF, int(running))
        return me

    def arc(self, place, w):
        o = Obj()
        o[self.N.place], o[self.N.weight] = place, w
        return o

    def view(self, me, ov=None):
        """the state as plain data; ov: what a path has changed"""
        def g(o, f):
            if ov and (id(o), f) in ov:
                return ov[(id(o), f)]
            x = o.get(f, ('?', f))
            return x['box'] if isinstance(x, Obj) and 'box' in x else x
        N = self.N

        def place(o):
            c = g(o, N.count[2]) if N.count[1] == SELF else 0
            return (g(o, self.pname), g(o, self.input), c) + tuple(fid(g(o, f)) for q, f in self.extra)

        def arcs(l):
            if not isinstance(l, list):
                return '?'
            return sorted(((repr(ident(g(a, N.place))) if isinstance(a, Obj) else '?', g(a, N.weight) if isinstance(a, Obj) and N.weight in a else '?') for a in l), key=repr)

        def fid(x):
            return x.get('id', '?') if isinstance(x, Obj) else x

        def conds(l):
            return sorted((c.get('first'), fid(c.get('second'))) for c in l) if isinstance(l, list) and all(isinstance(c, Obj) for c in l) else '?'
        ps = g(g(me, self.places), self.pmap)
        ts = g(g(me, self.transitions), self.tmap)
        r = {}
        ps, ts = [Map() if x == [] else x for x in (ps, ts)]
        r['places'] = {k: place(x) if isinstance(x, Obj) else '?' for k, x in ps.items()} if isinstance(ps, Map) else '?'
        r['transitions'] = {k: (g(x, self.tname), arcs(g(x, N.act)), arcs(g(x, N.dst)), arcs(g(x, N.inh)), conds(g(x, N.cond)), g(x, N.flag)) if isinstance(x, Obj) else '?'
                            for k, x in ts.items()} if isinstance(ts, Map) else '?'
        for n, f in (('actions', self.actions), ('conditions', self.conditions)):
            m = g(g(me, f), self.cmap)
            r[n] = {k: fid(x) for k, x in m.items()} if isinstance(m, Map) else '?'
        return r

    def after(self, me, ev, st):
        """what a path has changed in a state: {(object, field): value}"""
        ov = {}
        for l, v in st.mem.items():
            r = root(l)
            if l[0] not in ('.', '[]') or v[0] == 'ref' or r[0] in ('L', 'tmp', 'R'):
                continue
            e = l if l[0] == '[]' else l[1]
            if e[0] == '[]' and e[1][0] == 'op':
                try:
                    if isinstance(ev.val(e[1]), Map):
                        continue                          # element of a new version of a map: part of that version
                except (Unknown, Free, Missing, KeyError, TypeError, IndexError, AttributeError):
                    continue
            try:
                o = ev.loc(e)
            except (Unknown, Free):
                continue
            if not isinstance(o, Obj):
                continue
            if l[0] == '[]':
                ov.update(((id(o), f), '?') for f in o)     # replaced as a whole by something that is not understood
                continue
            try:
                ov[(id(o), l[2])] = ev.val(v)
            except (Unknown, Free, KeyError, TypeError, IndexError, AttributeError) as e:
                ov[(id(o), l[2])] = '?'
        return ov


def unknown(x):
    if isinstance(x, dict):
        return any(unknown(y) for y in x.values())
    if isinstance(x, (list, tuple)):
        return any(unknown(y) for y in x)
    return x == '?' or isinstance(x, str) and x == "'?'"


def world(A):
    if 'world' not in A.M.cache:
        from .checks.loop import engine
        from .checks.firing import net
        A.M.cache['world'] = World(A, engine(A), net(A))
    return A.M.cache['world']


def diff(a, b):
    """first difference of two plain states"""
    if isinstance(a, dict) and isinstance(b, dict):
        for k in sorted(set(a) | set(b), key=str):
            if k not in a:
                return '%s: %s must not be there' % (k, b[k])
            if k not in b:
                return '%s is missing' % (k,)
            if a[k] != b[k]:
                d = diff(a[k], b[k])
                return '%s: %s' % (k, d)
    return '%s instead of %s' % (b, a)


def tabulate(ctx, W, ops, models, oracle, kind, key, what, errbase='ptne::PTN_Exception', result=None, nostate=False):
    """models: [(text, me, roots, calls, facts)]; oracle(facts, before) -> ('ok', state) | ('err', None) | ('any', None)"""
    A = W.A
    cells = 0
    und = {}
    bad = None
    hits = 0
    for text, me, roots, calls, facts in models:
        m = Model(me, roots, text, calls)
        before = W.view(me)
        want, state = oracle(facts, before)
        seen = passed = 0
        for st, v in ops.paths:
            r, why, ev = ops.follow(st, m)
            if r is False:
                continue
            skip = feasible(A, ev, st, v, m)
            passed += 1
            if skip:
                continue
            cells += 1
            if r is not True:
                und.setdefault(str(why)[:160], text)
                continue
            seen += 1
            hits += 1
            tr = lambda: show_trace(st, v)
            ov = W.after(me, ev, st)
            got = W.view(me, ov)
            site = v.site if isinstance(v, Throw) and v.site else tuple(ops.f['l'])
            if isinstance(v, Throw):
                if foreign(v):
                    if want == 'ok' and False:
                        pass
                    continue
                if want == 'ok':
                    bad = bad or (':refused', '%s: it fails with %s instead of succeeding' % (text, v.typ), site, tr())
                elif want == 'err' and not A.p.derives(v.typ, errbase):
                    bad = bad or (':error', '%s: it fails with %s, which is not a %s' % (text, v.typ, errbase), site, tr())
                if got != before:
                    if unknown(got):
                        und.setdefault('state after the failure', text)
                    else:
                        bad = bad or (':partial', '%s: it fails but leaves a changed net (%s)' % (text, diff(before, got)), site, tr())
                continue
            if want == 'err':
                bad = bad or (':accepted', '%s: it succeeds instead of being refused' % text, site, tr())
                continue
            if want == 'any':
                continue
            if not nostate and got != state:
                if unknown(got):
                    und.setdefault('state afterwards: %s' % diff(state, got)[:120], text)
                else:
                    bad = bad or (':wrong', '%s: the net is left wrong: %s' % (text, diff(state, got)), site, tr())
            if result:
                x = result(facts, ev, st, v)
                if x is not None:
                    if x[0] is None:
                        und.setdefault('result: ' + x[1], text)
                    elif not x[0]:
                        bad = bad or (':result', '%s: %s' % (text, x[1]), site, tr())
        if bad:
            break
        if not passed:
            und.setdefault('no path fits', text)
    ctx.count('table_cells', cells)
    if bad:
        ctx.check(kind, False, key + bad[0], '%s, %s' % (what, bad[1]), bad[2], bad[3])
        return
    if und:
        w, t = sorted(und.items())[0]
        ctx.check(kind, None, key, '%s is not understood for %d cases, e.g. %s (%s)' % (what, len(und), t, w), tuple(ops.f['l']))
    if not hits and not und:
        ctx.check(kind, None, key, '%s: no case could be followed' % what, tuple(ops.f['l']))
    elif hits:
        ctx.check(kind, True, key, what, sample='%s: %d cases as specified' % (what, hits))


def foreign(v):
    """failures that have nothing to do with the arguments"""
    return v.typ in ('std::bad_alloc', 'std::system_error')


def feasible(A, ev, st, v, m):
    """True when the path needs an opaque call to fail, and the model has nothing to say about it"""
    return any(e.kind == 'callthrow' for e in st.events())
