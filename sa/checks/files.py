"""C18: what is exported is what is imported."""
import copy

from ..program import Unrecognised
from ..core import *
from ..core import norm
from ..evalv import Unknown, W as WORD
from ..tables import Obj, Free
from ..optable import SELF
from ..mod import Throw, AnalysisBroken
from ..rep import show_trace
from ..xmltab import *
from ..world import ShapeBy
from . import check
from .actions import enumerators

IEX, IIM = 'ptne::IFileExporter', 'ptne::IFileImporter'
FACADE = 'ptne::PTN_Engine'
OPTIONS = FACADE + '::ACTIONS_THREAD_OPTION'
WRITERS = ('exportActionsThreadOption', 'exportPlace', 'exportTransition')
READERS = ('importActionsThreadOption', 'importPlaces', 'importTransitions', 'importArcs')
BIG = WORD - 1


class Undecided(Exception):
    def __init__(self, why, site=None):
        super().__init__(why)
        self.site = site


class Sizes(ShapeBy):
    """sizes of collections that are fields, parameters or results of calls"""
    def __init__(self, sizes, p):
        super().__init__(sizes)
        self.p = p

    def key(self, c):
        if c[0] == 'init' and isinstance(c[1], tuple) and c[1][0] == 'R':
            f = self.p.functions.get(c[1][2])
            n = norm(f['n']).split('::')[-1] if f else None
            return n if n in self.sizes else None
        return super().key(c)


class Files:
    """the operations of one implementation of the exporter and the importer"""
    def __init__(self, A):
        self.A, self.p = A, A.p
        p = A.p
        self.exporters = sorted(c for c in p.records if c != IEX and p.derives(c, IEX))
        self.importers = sorted(c for c in p.records if c != IIM and p.derives(c, IIM))
        if not self.exporters or not self.importers:
            raise AnalysisBroken('no implementation of the exporter or importer found')
        self.cache = {}
        self.facade = {norm(f['n']) for f in p.functions.values() if f.get('cls') == FACADE}

    def function(self, cls, name):
        for c in [cls] + [b for b in (IEX, IIM) if self.p.derives(cls, b)]:
            fs = [f for f in self.p.find(c + '::' + name) if 'b' in f]
            if fs:
                return fs[0]
        raise AnalysisBroken('anchor vanished: %s::%s' % (cls, name))

    def ops(self, cls, name, sizes=None, keep=()):
        k = (cls, name, tuple(sorted((sizes or {}).items())), keep)
        if k not in self.cache:
            f = self.function(cls, name)
            M = self.A.M
            op = {q: M.handle for q in self.facade}
            for q in keep:
                for c in (cls, IEX, IIM):
                    op[c + '::' + q] = M.handle
            I = M.interp(extra=op)
            if sizes is not None:
                I.shape = Sizes(sizes, self.p)
            I.this_class = {cls: SELF}
            st = St()
            self.cache[k] = (f, I, I.start(f, SELF, I.sym_args(f, st), st))
        return self.cache[k]

    def name(self, key):
        f = self.p.functions.get(key)
        return norm(f['n']).split('::')[-1] if f else str(key)


class Run:
    """evaluates the extracted paths of exporters and importers over one small engine and one small document"""
    def __init__(self, F, env):
        self.F, self.env = F, env
        self.saved, self.calls = [], []

    def paths(self, cls, name, me, args, sizes, keep, load, nested=()):
        """[(value, site, me)] of all paths that are taken; evaluates the effects on copies"""
        f, I, paths = self.F.ops(cls, name, sizes, keep)
        out = []
        for st, v in paths:
            if any(e.kind == 'callthrow' for e in st.events()):
                continue
            if isinstance(v, Throw) and v.typ in ('std::bad_alloc', 'std::system_error'):
                continue
            r = Run(self.F, self.env)
            m, a = copy.deepcopy((me, args))
            r.load = dict(load)
            ok, x = r.follow(I, f, st, v, m, a, nested)
            if ok is False:
                continue
            if ok is None:
                raise Undecided('%s: %s' % (name, str(x)[:200]), tuple(f['l']))
            out.append((x, v, st, m, r))
        if len(out) > 1 and all(isinstance(o[1], Throw) and o[1].typ == out[0][1].typ for o in out):
            return out[0]
        if len(out) != 1:
            raise Undecided('%s: %d paths fit' % (name, len(out)), tuple(f['l']))
        return out[0]

    def follow(self, I, f, st, v, me, args, nested):
        roots = {('P', i): a for i, a in enumerate(args)}
        R = roots['R'] = {}
        made = {}
        ev = XEval(me, roots, st, made)
        quick, why = holds(ev, st) if not any(e.kind in ('xml', 'call') for e in st.events()) else (None, None)
        if quick is False:
            return False, None
        for e in st.events():
            if e.kind == 'xml':
                ok, x = evaluate(ev.do, e, self.saved, self.load)
            elif e.kind == 'call':
                ok, x = evaluate(self.call, ev, I, e, R, nested)
            elif e.kind == 'wr' and e.a[0] == '.' and e.a[1] == SELF:
                ok, x = evaluate(ev.val, e.b)
                me[e.a[2]] = x if ok else None
                ok = True
            elif e.kind in ('rd', 'throw', 'fromchars', 'newobj', 'drop', 'catch', 'wr', 'perm'):
                continue
            elif e.kind == 'loop':
                if any(x.kind in ('xml', 'call', 'wr', 'unknown') for x in core_flat(e)):
                    ok, x = False, 'loop'
                else:
                    continue
            else:
                ok, x = False, e.kind
            if not ok:
                r, why = holds(ev, st)
                return (False, None) if r is False else (None, x)
        r, why = holds(ev, st)
        if r is not True:
            return (False, None) if r is False else (None, why)
        if isinstance(v, Throw):
            return True, v
        ok, x = evaluate(ev.val, v)
        return (True, x) if ok else (None, x)

    def call(self, ev, I, e, R, nested):
        this, args, n = e.b
        name = self.F.name(e.a)
        vals = I.argvals.get(n) or args
        a = []
        for x in vals:
            ok, y = evaluate(ev.val, x)
            if not ok and x[0] == 'ref':
                ok, y = evaluate(ev.loc, x[1])
            if not ok:
                raise Unknown(x)
            a.append(y)
        for pat, run in nested:
            if name in pat:
                x = run(self, ev.me, name, a)
                if x is not None:
                    R[n] = x
                return
        self.calls.append((name, a, e.site))
        if name in self.env:
            R[n] = self.env[name]


def core_flat(e):
    from ..mod import flat
    return list(flat([e]))


# ---------------------------------------------------------------------------------------------- nets
def place(name, tokens=0, inp=0, en='', ex=''):
    return dict(name=name, initialNumberOfTokens=tokens, input=inp, onEnterActionFunctionName=en, onExitActionFunctionName=ex)


def trans(name, act=(), dst=(), inh=(), conds=(), flag=0):
    return dict(name=name, activationArcs=list(act), destinationArcs=list(dst), inhibitorArcs=list(inh), additionalConditionsNames=list(conds), requireNoActionsInExecution=flag)


def fns(p):
    return Obj(p, onEnterAction=None, onExitAction=None)


class Nets:
    def __init__(self, F):
        self.T = dict(enumerators(F.A, 'ptne::ArcProperties::Type'))
        self.O = dict(enumerators(F.A, OPTIONS))
        self.numbers, self.names = F.p.numbers, F.p.names()

    def obj(self, t):
        o = Obj(t)
        for k, ty in (('activationArcs', 'ACTIVATION'), ('destinationArcs', 'DESTINATION'), ('inhibitorArcs', 'INHIBITOR')):
            o[k] = [Obj(weight=w, placeName=x, transitionName=t['name'], type=self.T[ty]) for x, w in t[k]]
        o['additionalConditions'] = []
        return o

    def arcs(self, ts, extra=()):
        """all arcs of the net: sorted (transition, kind, place, weight)"""
        out = []
        for t in ts:
            for k, ty in (('activationArcs', 'ACTIVATION'), ('destinationArcs', 'DESTINATION'), ('inhibitorArcs', 'INHIBITOR')):
                for a in t[k]:
                    x, w = (a['placeName'], a['weight']) if isinstance(a, Obj) else a
                    out.append((t['name'], ty, x, w))
        return sorted(out)


def plain_place(o):
    return tuple(o.get(k, '?') for k in ('name', 'initialNumberOfTokens', 'input', 'onEnterActionFunctionName', 'onExitActionFunctionName'))


def plain_trans(o):
    return (o.get('name', '?'), tuple(sorted(o.get('additionalConditionsNames', '?'))), o.get('requireNoActionsInExecution', '?'))


NAMES = {'name': 'the name', 'initialNumberOfTokens': 'the number of tokens', 'input': 'the input flag', 'onEnterActionFunctionName': 'the enter action', 'onExitActionFunctionName': 'the exit action'}


@check('C18')
def c18(ctx, A):
    ctx.rule('the paths of the exporter are evaluated over small engines: the document they build, and the file it is saved to; the paths of the importer are evaluated over this '
             'document: what they pass on to an empty engine has every place, token, flag, action name, transition, condition, arc, weight and type of the exported net, once, '
             'and the same actions thread option')
    ctx.rule('a file that cannot be read or written, a number or type or option in it that is none, is reported as a PTN_Exception')
    F = Files(A)
    N = Nets(F)
    for name in ('Type',):
        if set(N.T) < {'ACTIVATION', 'DESTINATION', 'INHIBITOR', 'BIDIRECTIONAL'}:
            raise Unrecognised('the types of arcs were not found')
    for cls in F.exporters:
        for icls in F.importers:
            round_trip(ctx, A, F, N, cls, icls)
        no_save(ctx, A, F, N, cls)
    for icls in F.importers:
        glue(ctx, A, F, N, icls)
        inputs(ctx, A, F, N, icls)


def nets(N, tier):
    P = [place('p'), place('q', 5, 1, 'enter', 'exit'), place('a <&" b', BIG, 1, '', 'x'), place('big', 2 ** 32 + 1, 0, 'e', ''), place('z', 0, 1), place('n', 2, 0), place(' x  <y>\t\u20ac&\n', 1, 0, ' on "enter" ', '<\u017c>'), place(', ;', 1, 0, 'a, b', '..')]
    Ts = [trans('t'), trans('t', [('p', 1)], [('q', 2)], [('p', 3)], ['c'], 1), trans('t', [('p', 2 ** 32)], [('p', 4)], [], ['c', 'd'], 0),
          trans('u', [('q', BIG), ('p', 1)], [], [('q', 1)], [], 1), trans('v', [], [('p', 1), ('q', 2)], [], [], 0), trans('w', [], [], [('p', 2), ('q', 1)], [], 0),
          trans(' t  "<&>\u20ac\t', [('a <&" b', 1)], [(' x  <y>\t\u20ac&\n', 2)], [('\u017c', 3)], [' c  <&>', '"', 'd\n'], 1)]
    O = sorted(N.O.values())
    out = [(O[0], [], [])]
    for i, o in enumerate(O):
        out.append((o, P[:1], [Ts[i % len(Ts)]]))
    for i, x in enumerate(P):
        out.append((O[i % len(O)], [x], []))
        out.append((O[i % len(O)], [x, P[(i + 1) % len(P)]], [Ts[i % len(Ts)]]))
    for i, t in enumerate(Ts):
        out.append((O[i % len(O)], P[:2], [t, Ts[(i + 2) % len(Ts)] if Ts[(i + 2) % len(Ts)]['name'] != t['name'] else Ts[-1]]))
    # what the code mentions
    for k in N.numbers(64):
        out.append((O[k % len(O)], [place('p%d' % i, i, i % 2) for i in range(k)], []))
        out.append((O[k % len(O)], P[:2], [trans('t', [('p', 1)], [('q', 2)], [], ['c%d' % i for i in range(k)], 1)]))
        out.append((O[k % len(O)], P[:2], [trans('t', [('p%d' % i, i + 1) for i in range(k)], [], [('q', 2)], ['c'], 0)]))
        out.append((O[k % len(O)], P[:2], [trans('t', [], [('p%d' % i, i + 1) for i in range(k)], [], [], 0)]))
        out.append((O[k % len(O)], P[:2], [trans('t', [], [], [('p%d' % i, i + 1) for i in range(k)], [], 0)]))
        out.append((O[k % len(O)], P[:2], [trans('t%d' % i, [('p', i + 1)]) for i in range(k)]))
    for k in N.numbers():
        out.append((O[k % len(O)], [place('p', k, 1)], [trans('t', [('p', k)], [('p', k)], [('p', k)])]))
    for i, x in enumerate(N.names):
        out.append((O[i % len(O)], [place(x, 1, i % 2, x, x)], [trans(x, [(x, 1)], [(x, 2)], [(x, 3)], [x], 0)]))
    if tier == 'thorough':
        for i, x in enumerate(P):
            for j, y in enumerate(P):
                if i != j:
                    for k, t in enumerate(Ts):
                        out.append((O[(i + j + k) % len(O)], [x, y], [t]))
    return out


def sizes_of(t):
    return {'activationArcs': len(t['activationArcs']), 'destinationArcs': len(t['destinationArcs']), 'inhibitorArcs': len(t['inhibitorArcs']),
            'additionalConditionsNames': len(t['additionalConditionsNames'])}


def export(F, N, cls, net, save=True, me=None):
    """(run, value of the export, object afterwards)"""
    opt, ps, ts = net
    env = {'getActionsThreadOption': opt, 'getPlacesProperties': [fns(p) for p in ps], 'getTransitionsProperties': [N.obj(t) for t in ts], 'isEventLoopRunning': 0}
    top = Run(F, env)

    def writer(run, me, name, a):
        t = a[0] if name == 'exportTransition' else None
        sub = Run(F, env)
        f, I, paths = F.ops(cls, name, sizes_of(t) if t is not None else {})
        fits = []
        for st, v in paths:
            ev = XEval(me, {('P', 0): a[0], 'R': {}}, st, {})
            r, why = holds(ev, st)
            if r is None:
                # it depends on what is written meanwhile
                probe = Run(F, env)
                probe.load = dict(run.load)
                m2, a2 = copy.deepcopy((me, a))
                r, x = probe.follow(I, f, st, v, m2, a2, ())
                why = why if r is None else x
            if r is None:
                raise Undecided('%s: %s' % (name, str(why)[:160]), tuple(f['l']))
            if r:
                fits.append((st, v))
        if len(fits) != 1:
            raise Undecided('%s: %d paths fit' % (name, len(fits)), tuple(f['l']))
        sub.load = run.load
        st, v = fits[0]
        ok, x = sub.follow(I, f, st, v, me, a, ())
        if ok is not True:
            raise Undecided('%s: %s' % (name, str(x)[:160]), tuple(f['l']))
        run.saved += sub.saved
        if isinstance(v, Throw):
            raise Undecided('%s fails with %s' % (name, v.typ), v.site)
        return None
    if me is None:
        me = Obj((fl['name'], Node(None)) for c in [cls] for fl in F.p.fields(c) or [] if 'xml_document' in fl['t'])
        for fl in F.p.fields(cls) or []:
            if fl['name'] not in me:
                me[fl['name']] = NULL if 'xml_node' in fl['t'] else ''
    load = dict(save=int(save), load=1, doc=Node(None))
    x, v, st, m, r = top.paths(cls, '_export', me, [Obj(), 'the file'], {'getPlacesProperties': len(ps), 'getTransitionsProperties': len(ts)}, WRITERS, load, ((WRITERS, writer),))
    return r, x, v, st, m


def describe(net):
    opt, ps, ts = net
    return 'option %s, places %s, transitions %s' % (opt, [(p['name'], p['initialNumberOfTokens'], p['input']) for p in ps],
                                                     [(t['name'], t['activationArcs'], t['destinationArcs'], t['inhibitorArcs']) for t in ts])


def readers(F, cls, doc):
    """what the importer reads from a document: {name: value}"""
    out = {}
    for n in READERS:
        run = Run(F, {})
        me = Obj((fl['name'], doc.copy()) for fl in F.p.fields(cls) or [] if 'xml_document' in fl['t'])
        x, v, st, m, r = run.paths(cls, n, me, [], None, (), dict(save=1, load=1, doc=Node(None)))
        out[n] = (x, v, st)
    return out


def convert(F, icls, text):
    """the option the importer sets for a text"""
    r, v = imported(F, icls, text, [], [], [])
    return [a[0] for n, a, s in r.calls if n == 'setActionsThreadOption'], v


def imported(F, icls, opt, ps, ts, arcs, running=0, load=1):
    env = {'isEventLoopRunning': running}
    res = {'importActionsThreadOption': opt, 'importPlaces': ps, 'importTransitions': ts, 'importArcs': arcs}

    def reader(run, me, name, a):
        run.calls.append((name, a, None))
        return res[name]
    me = Obj((fl['name'], Node(None)) for fl in F.p.fields(icls) or [] if 'xml_document' in fl['t'])
    top = Run(F, env)
    x, v, st, m, r = top.paths(icls, '_import', me, ['the file', Obj()], {'importPlaces': len(ps), 'importTransitions': len(ts), 'importArcs': len(arcs)}, READERS,
                               dict(save=1, load=load, doc=Node(None)), ((READERS, reader),))
    return r, v


def guarded(ctx, kind, key, what, site, f, *a):
    try:
        return f(*a)
    except Undecided as u:
        ctx.check(kind, None, key, '%s is not understood (%s)' % (what, u), u.site or site)
    except RecursionError:
        ctx.check(kind, None, key, '%s is not understood (too deep)' % what, site)
    return None


def round_trip(ctx, A, F, N, cls, icls):
    site = tuple(F.function(cls, '_export')['l'])
    short = cls.split('::')[-1]
    conv = {}
    got = guarded(ctx, 'round trip', short + ':load', 'loading a file', site, imported, F, icls, sorted(texts(F, N))[0], [], [], [])
    if got is None:
        return
    how = [got[0].load.get('parse'), got[0].load.get('enc')]
    if how[0] is None:
        ctx.check('round trip', None, short + ':load', 'how files are loaded is not understood', site)
        how = [PARSE_DEFAULT, 0]
    for net in nets(N, ctx.tier):
        opt, ps, ts = net
        what = 'exporting a net (%s)' % describe(net)
        got = guarded(ctx, 'round trip', short + ':export', what, site, export, F, N, cls, net)
        if got is None:
            return
        r, x, v, st, me = got
        if isinstance(v, Throw):
            ctx.check('round trip', False, short + ':fails', '%s fails with %s' % (what, v.typ), v.site, show_trace(st, v))
            return
        ctx.count('documents')
        if len(r.saved) != 1 or r.saved[0][0] != 'the file':
            ctx.check('round trip', False, short + ':saved', '%s saves %d files%s' % (what, len(r.saved), ', not to the path that was given' if r.saved else ''), site, show_trace(st, v))
            return
        doc = loaded(r.saved[0][1], *how)
        if len(doc.kids) != 1:
            ctx.check('round trip', False, short + ':document', '%s writes a file with %d root elements' % (what, len(doc.kids)), r.saved[0][2], show_trace(st, v))
            return
        for k in [doc] + doc.kids:
            dup = [n.name for n in k.kids if len([0 for m in k.kids if m.name == n.name]) > 1]
        got = guarded(ctx, 'round trip', short + ':import', 'importing what was exported (%s)' % describe(net), site, readers, F, icls, doc)
        if got is None:
            return
        bad = None
        for n in READERS:
            x, v, st = got[n]
            if isinstance(v, Throw):
                bad = bad or ('%s fails with %s' % (n, v.typ), v.site, show_trace(st, v), n)
        if bad is None:
            text = got['importActionsThreadOption'][0]
            if text not in conv:
                conv[text] = guarded(ctx, 'round trip', short + ':option', 'the actions thread option "%s"' % (text,), site, convert, F, icls, text)
                if conv[text] is None:
                    return
            o, v = conv[text]
            if isinstance(v, Throw) or o != [opt]:
                bad = ('the option %s becomes %s' % (opt, 'an error' if isinstance(v, Throw) else o), site, '', 'importActionsThreadOption')
        if bad is None:
            ips, its, ias = [got[n][0] for n in READERS[1:]]
            site2 = lambda n: tuple(F.function(icls, n)['l'])
            if not all(isinstance(y, list) and all(isinstance(z, Obj) for z in y) for y in (ips, its, ias)):
                ctx.check('round trip', None, short + ':result', 'what is imported is not understood', site)
                return
            a, b = sorted(map(plain_place, map(Obj, ps)), key=repr), sorted(map(plain_place, ips), key=repr)
            if a != b:
                bad = ('the places %s become %s' % (a, b), site2('importPlaces'), '', 'importPlaces')
            a, b = sorted(map(plain_trans, map(Obj, ts)), key=repr), sorted(map(plain_trans, its), key=repr)
            if bad is None and a != b:
                bad = ('the transitions %s become %s' % (a, b), site2('importTransitions'), '', 'importTransitions')
            if bad is None:
                a = N.arcs(ts)
                b = N.arcs(its)
                T = {v: k for k, v in N.T.items()}
                for z in ias:
                    ty = T.get(z.get('type'), '?')
                    for k in ('ACTIVATION', 'DESTINATION') if ty == 'BIDIRECTIONAL' else (ty,):
                        b.append((z.get('transitionName', '?'), k, z.get('placeName', '?'), z.get('weight', '?')))
                b.sort(key=repr)
                a.sort(key=repr)
                if a != b:
                    bad = ('the arcs %s become %s' % (a, b), site2('importArcs'), '', 'importArcs')
            if bad and '?' in bad[0] and "('?'" in bad[0]:
                ctx.check('round trip', None, short + ':values', 'an imported value is not understood: %s' % bad[0], bad[1])
                return
        if bad:
            ctx.check('round trip', False, '%s:%s' % (short, bad[3]), 'exporting and importing a net (%s): %s' % (describe(net), bad[0]), bad[1], bad[2])
            return
        ctx.check('round trip', True, '', '', sample='%s -> %s' % (describe(net)[:120], doc.kids[0].text()[:160]))
    # ---- an exporter used again
    n1, n2 = nets(N, 'quick')[6:8]
    got = guarded(ctx, 'exporter used again', short, 'a second export', site, export, F, N, cls, n1)
    if got is None:
        return
    again = guarded(ctx, 'exporter used again', short, 'a second export', site, export, F, N, cls, n2, True, got[4])
    fresh = guarded(ctx, 'exporter used again', short, 'a second export', site, export, F, N, cls, n2)
    if again is None or fresh is None:
        return
    same = bool(again[0].saved) and again[0].saved[-1][1].text() == fresh[0].saved[-1][1].text()
    # ---- an exporter used again after an export that could not be saved
    failed = guarded(ctx, 'exporter used again', short, 'an export after one that failed', site, export, F, N, cls, n1, False)
    again2 = guarded(ctx, 'exporter used again', short, 'an export after one that failed', site, export, F, N, cls, n2, True, failed[4]) if failed else None
    if again2:
        ok = bool(again2[0].saved) and again2[0].saved[-1][1].text() == fresh[0].saved[-1][1].text()
        ctx.check('exporter used again', ok, short + ':leftover-failed', 'an export with an exporter whose last export could not be saved writes %s instead of %s' % (
            again2[0].saved[-1][1].text()[:300] if again2[0].saved else 'nothing', fresh[0].saved[-1][1].text()[:300]), site, sample='an export after one that failed writes the same document')
    ctx.check('exporter used again', same, short + ':leftover', 'a second export with the same exporter writes %s instead of %s' % (
        again[0].saved[-1][1].text()[:300] if again[0].saved else 'nothing', fresh[0].saved[-1][1].text()[:300]), site, sample='a second export with the same exporter writes the same document')


def no_save(ctx, A, F, N, cls):
    site = tuple(F.function(cls, '_export')['l'])
    short = cls.split('::')[-1]
    net = nets(N, 'quick')[1]
    got = guarded(ctx, 'files that cannot be written', short, 'an export that cannot be saved', site, export, F, N, cls, net, False)
    if got is None:
        return
    r, x, v, st, me = got
    ok = isinstance(v, Throw) and A.p.derives(v.typ, 'ptne::PTN_Exception')
    ctx.check('files that cannot be written', ok, short + ':save', 'when the file cannot be saved, the export %s' % (
        'fails with %s, which is no PTN_Exception' % v.typ if isinstance(v, Throw) else 'succeeds all the same'), site, show_trace(st, v), sample='a file that cannot be saved is reported')


KIND = {'createPlace': 'place', 'createTransition': 'transition', 'addArc': 'arc'}


def glue(ctx, A, F, N, icls):
    f = F.function(icls, '_import')
    site = tuple(f['l'])
    short = icls.split('::')[-1]
    TY = sorted(N.T.values())

    def elements(w):
        ps = [fns(place('place %d' % i, n, i, 'f%d' % i, 'g%d' % i)) for i, n in enumerate(w)]
        ts = [N.obj(trans('transition %d' % i, [('place 0', w[i])], [('place 1', w[1 - i])], [('place 0', 2)] if i else [], ['c'] if i else [], i)) for i in range(2)]
        ar = [Obj(weight=n, placeName='place %d' % (i % 2), transitionName='transition %d' % (i % 2), type=TY[i % len(TY)]) for i, n in enumerate(w)]
        for k, os in (('place', ps), ('transition', ts), ('arc', ar)):
            for i, o in enumerate(os):
                o['id'] = '%s %d' % (k, i)
        return ps, ts, ar
    p_, t_, a_ = elements((0, 3))
    text = {}
    for e, o in sorted(N.O.items()):
        text.setdefault(e, o)
    more = sorted(set(N.numbers(1 << 20)) - {0, 3})
    more = more[:6] if ctx.tier == 'quick' else more
    for w, run, np, nt, na in [((0, 3),) + x for x in ((0, 2, 2, 2), (1, 1, 1, 1), (0, 0, 0, 0), (0, 1, 0, 0), (0, 0, 1, 0), (0, 0, 0, 1), (1, 2, 1, 2))] + [((n, 1), 0, 1, 1, 1) for n in more]:
        p_, t_, a_ = elements(w)
        given = {o['id']: copy.deepcopy(o) for o in p_ + t_ + a_}
        what = 'importing %d places, %d transitions and %d arcs into an engine that %s' % (np, nt, na, 'runs' if run else 'is stopped')
        opts = sorted(texts(F, N))
        got = guarded(ctx, 'importing', short + ':glue', what, site, imported, F, icls, opts[0] if opts else 'SINGLE_THREAD', p_[:np], t_[:nt], a_[:na], run)
        if got is None:
            return
        r, v = got
        if isinstance(v, Throw):
            ctx.check('importing', False, short + ':fails', '%s fails with %s' % (what, v.typ), v.site)
            return
        for n, x, s in r.calls:
            if n in KIND and x and isinstance(x[0], Obj) and 'id' not in x[0]:      # a copy: which one?
                c = [(sum(x[0].get(k) == y for k, y in o.items()), i) for i, o in given.items() if i.startswith(KIND[n])]
                if c and max(c)[0]:
                    x[0]['id'] = max(c)[1]
        seq = [(n, x[0].get('id') if x and isinstance(x[0], Obj) else None, s) for n, x, s in r.calls if n.startswith(('create', 'add', 'set', 'stop', 'clear', 'remove', 'register', 'execute', 'increment'))]
        made = [(n, i) for n, i, s in seq if n in ('createPlace', 'createTransition', 'addArc')]
        for n, x, s in r.calls:
            o = x[0] if n in ('createPlace', 'createTransition', 'addArc') and x and isinstance(x[0], Obj) else None
            if o is not None and o.get('id') in given:
                diff = [k for k in given[o['id']] if k in o and o[k] != given[o['id']][k] and not k.startswith('on') and k != 'additionalConditions']
                ctx.check('importing', not diff, short + ':changed', '%s hands the %s over to the engine with another value of %s than the file says: %s instead of %s' % (
                    what, o['id'], diff[:1], [o.get(k) for k in diff[:1]], [given[o['id']][k] for k in diff[:1]]), s or site)
        want = [('createPlace', 'place %d' % i) for i in range(np)] + [('createTransition', 'transition %d' % i) for i in range(nt)] + [('addArc', 'arc %d' % i) for i in range(na)]
        rank = {'createPlace': 0, 'createTransition': 1, 'addArc': 2}
        order = [rank[n] for n, i in made] == sorted(rank[n] for n, i in made)
        ctx.check('importing', sorted(made, key=repr) == sorted(want, key=repr), short + ':elements', '%s makes %s in the engine' % (what, made), site,
                  sample='%s: %s' % (what, ', '.join(n for n, i in made)))
        ctx.check('importing', order, short + ':order', '%s makes them in the order %s' % (what, [n for n, i in made]), site)
        other = [n for n, i, s in seq if n not in rank and n not in ('stop', 'setActionsThreadOption', 'clearNet')]
        ctx.check('importing', not other, short + ':other', '%s also calls %s' % (what, other[:1]), site)
        first = [n for n, i, s in seq]
        if run:
            k = [i for i, n in enumerate(first) if n != 'stop']
            ctx.check('importing', 'stop' in first and (not k or first.index('stop') < k[0]), short + ':running', '%s does not stop the engine first' % what, site)
    got = guarded(ctx, 'files that cannot be read', short, 'a file that cannot be read', site, imported, F, icls, 'SINGLE_THREAD', p_, t_, a_, 0, 0)
    if got:
        r, v = got
        ok = isinstance(v, Throw) and A.p.derives(v.typ, 'ptne::PTN_Exception')
        ctx.check('files that cannot be read', ok, short + ':load', 'when the file cannot be read, the import %s' % ('fails with %s, which is no PTN_Exception' % v.typ if isinstance(v, Throw) else 'succeeds all the same'), site)
        ch = [n for n, a, s in r.calls if n.startswith(('create', 'add', 'set', 'stop', 'clear', 'remove'))]
        ctx.check('files that cannot be read', not ch, short + ':load-effect', 'when the file cannot be read, the import still performs %s' % ch[:1], site, sample='a file that cannot be read is reported and changes nothing')
    # ---- what the engine refuses
    g, I, paths = F.ops(icls, '_import', {'importPlaces': 1, 'importTransitions': 1, 'importArcs': 1}, READERS)
    n = 0
    for st, v in paths:
        for e in st.events():
            if e.kind == 'callthrow' and F.name(e.a) in ('createPlace', 'createTransition', 'addArc', 'setActionsThreadOption') + READERS:
                n += 1
                ctx.check('refusals are reported', isinstance(v, Throw), short + ':swallowed', 'the import ends normally although %s failed: the engine has something else than the file says' % F.name(e.a), e.site or site,
                          show_trace(st, v), sample='a failure of %s ends the import with an exception' % F.name(e.a))
    ctx.check('refusals are reported', True if n else None, '', 'no failure of an operation of the engine was seen in the import', site)
    # ---- options
    for o in texts(F, N) | {'', 'nonsense', 'single_thread'}:
        known = o in texts(F, N)
        got = guarded(ctx, 'options', short + ':option', 'the option "%s"' % o, site, convert, F, icls, o)
        if got is None:
            continue
        c, v = got
        if known:
            ctx.check('options', not isinstance(v, Throw) and c == [texts(F, N, True)[o]], short + ':option', 'the option "%s" becomes %s' % (o, v.typ if isinstance(v, Throw) else c), site,
                      sample='"%s" is the option %s' % (o, c))
        else:
            ok = isinstance(v, Throw) and A.p.derives(v.typ, 'ptne::PTN_Exception')
            ctx.check('options', ok, short + ':bad-option', 'the option "%s" %s' % (o, 'fails with %s' % v.typ if isinstance(v, Throw) else 'is accepted as %s' % c), site, sample='"%s" is refused' % o)


def texts(F, N, m=False):
    d = {k: v for k, v in N.O.items()}
    return d if m else set(d)


def sample(tokens='3', weight='2', type_='Activation', flag='true', input_='true', legacy=None):
    arc = Node('Arc', kids=[Node('Place', [('value', 'p')]), Node('Transition', [('value', 't')]), Node('Weight', [('value', weight)]), Node('Type', [('value', type_)])])
    at = [('name', 'p')]
    if tokens is not None:
        at.append(('tokens', tokens))
    if input_ is not None:
        at.append(('input', input_))
    tk = [Node('Name', [('value', 't')]), Node('ActivationConditions', kids=[Node('ActivationCondition', [('name', 'c')])])]
    if flag is not None:
        tk.append(Node('RequireNoActionsInExecution', [('value', flag)]))
    if legacy:
        for k, w in legacy:
            tk.append(Node(k + 'Places', kids=[Node(k + 'Place', [('name', 'p')] + ([('weight', w)] if w is not None else []))]))
    return Node(None, kids=[Node('PTN-Engine', [('actionsThreadOption', 'EVENT_LOOP')],
                                 [Node('Places', kids=[Node('Place', at)]), Node('Transitions', kids=[Node('Transition', kids=tk)]), Node('Arcs', kids=[arc])])])


NUMBERS = [('0', 0), ('7', 7), ('4294967296', 2 ** 32), (str(BIG), BIG), (str(BIG + 1), None), ('99999999999999999999999', None), ('-1', None), ('abc', None), ('1x', None), ('1.5', None), ('0x10', None)]


def inputs(ctx, A, F, N, icls):
    short = icls.split('::')[-1]
    T = N.T

    def one(n, doc, what, want, pick, key):
        f = F.function(icls, n)
        site = tuple(f['l'])
        me = Obj((fl['name'], doc.copy()) for fl in F.p.fields(icls) or [] if 'xml_document' in fl['t'])
        got = guarded(ctx, 'reading', '%s:%s' % (n, key), what, site, Run(F, {}).paths, icls, n, me, [], None, (), dict(save=1, load=1, doc=Node(None)))
        if got is None:
            return
        x, v, st, m, r = got
        ctx.count('readings')
        if isinstance(v, Throw):
            pe = A.p.derives(v.typ, 'ptne::PTN_Exception')
            if want is None:
                ctx.check('reading', pe, '%s:%s' % (n, key), '%s fails with %s, which is no PTN_Exception' % (what, v.typ), v.site, show_trace(st, v), sample='%s is refused' % what)
            else:
                ctx.check('reading', False, '%s:%s' % (n, key), '%s fails with %s' % (what, v.typ), v.site, show_trace(st, v))
            return
        ok, y = evaluate(pick, x)
        if not ok or isinstance(y, tuple) and y and y[0] == '?':
            ctx.check('reading', None, '%s:%s' % (n, key), '%s is not understood' % what, site)
            return
        ctx.check('reading', want is not None and y == want, '%s:%s' % (n, key), '%s is read as %s%s' % (what, y, ' instead of being refused' if want is None else ' instead of %s' % (want,)),
                  site, show_trace(st, v), sample='%s is read as %s' % (what, y))
    for s, w in NUMBERS + [(str(x), x) for x in A.p.numbers()]:
        one('importPlaces', sample(tokens=s), 'the number of tokens "%s"' % s, w, lambda x: x[0]['initialNumberOfTokens'], 'tokens')
        one('importArcs', sample(weight=s), 'the weight "%s"' % s, w, lambda x: x[0]['weight'], 'weight')
        for k, fl in (('Activation', 'activationArcs'), ('Destination', 'destinationArcs'), ('Inhibitor', 'inhibitorArcs')):
            one('importTransitions', sample(legacy=[(k, s)]), 'the weight "%s" of an arc in %sPlaces' % (s, k), w, lambda x, fl=fl: x[0][fl][0]['weight'], 'weight')
    one('importPlaces', sample(tokens=None), 'a place without a number of tokens', 0, lambda x: x[0]['initialNumberOfTokens'], 'no-tokens')
    one('importPlaces', sample(tokens=''), 'a place with an empty number of tokens', 0, lambda x: x[0]['initialNumberOfTokens'], 'no-tokens')
    for s, w in (('true', 1), ('false', 0), (None, 0), ('', 0)):
        one('importPlaces', sample(input_=s), 'a place with input %s' % (s,), w, lambda x: x[0]['input'], 'input')
    for s, w in (('true', 1), ('false', 0), ('maybe', None)):
        one('importTransitions', sample(flag=s), 'a transition with RequireNoActionsInExecution "%s"' % s, w, lambda x: x[0]['requireNoActionsInExecution'], 'flag')
    for s, w in (('Activation', T['ACTIVATION']), ('Destination', T['DESTINATION']), ('Bidirectional', T['BIDIRECTIONAL']), ('Inhibitor', T['INHIBITOR']), ('Sideways', None), ('', None)):
        one('importArcs', sample(type_=s), 'the arc type "%s"' % s, w, lambda x: x[0]['type'], 'type')
    for k, fl in (('Activation', 'activationArcs'), ('Destination', 'destinationArcs'), ('Inhibitor', 'inhibitorArcs')):
        one('importTransitions', sample(legacy=[(k, None)]), 'an arc in %sPlaces without weight' % k, 1, lambda x, fl=fl: x[0][fl][0]['weight'], 'no-weight')
        one('importTransitions', sample(legacy=[(k, '2')]), 'an arc in %sPlaces' % k, (['p'], 1), lambda x, fl=fl: ([a['placeName'] for a in x[0][fl]],
            sum(len(x[0][g]) for g in ('activationArcs', 'destinationArcs', 'inhibitorArcs'))), 'nested')
    d = sample()
    d.kids[0].kids = []
    for n in READERS[1:]:
        one(n, d, '%s of a file without them' % n, [], lambda x: x, 'none')
