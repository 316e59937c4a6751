"""C21 (failures are reported as PTN_Exception, nothing that is not there is used), C26 (a new engine)."""
from . import check
from ..program import Unrecognised
from ..core import *
from ..core import norm
from ..mod import *
from ..rep import show_trace, short
from ..program import AnalysisBroken
from ..world import world, ENG
from ..optable import SELF

FACADE = 'ptne::PTN_Engine'
BASE = 'ptne::PTN_Exception'
ALLOWED = {'user': 'thrown by a function of the user', 'std::system_error': 'no thread or lock could be had', 'std::bad_alloc': 'no memory'}


def subterms(t):
    todo = [t]
    while todo:
        x = todo.pop()
        yield x
        todo.extend(y for y in x if type(y) is tuple)


UNDEF = ('undef',)
CLEAN = set()


def has(t, x):
    """does the term contain x?"""
    if t in CLEAN:
        return False
    if any(y == x for y in subterms(t)):
        return True
    CLEAN.add(t)
    return False


def public_operations(A):
    p = A.p
    out = [f for f in p.functions.values() if f.get('cls') == FACADE and f.get('access') == 'public' and f.get('kind') not in ('ctor', 'dtor') and not f.get('deleted') and 'b' in f]
    if not out:
        raise AnalysisBroken('no public operations found')
    return out


def file_operations(A):
    return [f for f in A.p.functions.values() if 'b' in f and f.get('kind') not in ('ctor', 'dtor') and f.get('access') == 'public' and
            any(b == f.get('cls') or A.p.derives(f.get('cls') or '', b) for b in ('ptne::IFileExporter', 'ptne::IFileImporter'))]


def absent(loc_term):
    """does the term use something that is not there? what, or None"""
    for x in subterms(loc_term):
        if len(x) == 2 and x[0] == '*' and x[1] == NULL:
            return 'a null pointer is dereferenced'
        if len(x) == 3 and x[0] == '[]' and isinstance(x[2], tuple) and x[2]:
            if x[2][0] == 'end':
                return 'the end of a collection is dereferenced'
            if x[2][0] == 'oob':
                return 'an element outside of a collection is used'
            if x[1] == EMPTY and x[2][0] in ('first', 'last', 'i'):
                return 'an element of an empty collection is used'
    return None


def uses(e):
    """locations an event uses"""
    if e.kind in ('rd', 'wr', 'ald', 'ast', 'armw', 'axchg', 'acas', 'acq', 'rel', 'wait', 'notify') and isinstance(e.a, tuple):
        yield e.a
    if e.kind in ('rd', 'wr') and isinstance(e.b, tuple):
        yield from (x for x in subterms(e.b) if x and x[0] == 'aload')
    if e.kind == 'call' and isinstance(e.b, tuple) and isinstance(e.b[0], tuple):
        yield e.b[0]


@check('C21')
def c21(ctx, A):
    ctx.rule('for every public operation of the engine, the exporters and the importers, the types of all exceptions that may leave it are computed over the call graph '
             '(path by path, infeasible throws pruned by the facts of the path): all derive from PTN_Exception, except those of the user\'s own functions and of missing resources; '
             'no .at(), function call, conversion or cast of the library fails on a feasible path; an empty function is never called')
    ctx.rule('no path of an operation dereferences a null pointer or the end of a collection, or reads a variable that was never given a value')
    p, M = A.p, A.M
    ops = public_operations(A)
    seen = {}

    def origin_of(f, typ, depth=0, trail=()):
        """the path on which an exception of this type comes into being"""
        if depth > 12 or f['key'] in trail:
            return None
        s = M.summary(f)
        for st, v in s.paths:
            if not isinstance(v, Throw) or v.typ != typ:
                continue
            es = st.events()
            last = next((e for e in reversed(es) if e.kind == 'callthrow' and e.b[3] == typ), None)
            if last is not None and last is es[-1]:
                g = p.functions.get(last.a)
                o = origin_of(g, typ, depth + 1, trail + (f['key'],)) if g else None
                if o:
                    return o
                continue
            return f, v, st
        return None
    n = 0
    for f in sorted(ops + file_operations(A), key=lambda f: (f['n'], str(f['l']))):
        s = M.summary(f)
        for t in sorted(s.throws):
            n += 1
            if t == BASE or t in ALLOWED:
                ctx.check('kinds of exceptions', True, '', '', sample='%s reports failures as %s%s' % (norm(f['n']), t, '' if t == BASE else ' (%s)' % ALLOWED[t]))
                continue
            if t in ('std::bad_function_call', 'terminate'):
                continue
            o = origin_of(f, t)
            if o is None:
                ctx.check('kinds of exceptions', None, '', '%s may throw %s' % (norm(f['n']), t))
                continue
            g, v, st = o
            if seen.get((g['key'], t, v.site)):
                continue
            seen[(g['key'], t, v.site)] = True
            ctx.check('kinds of exceptions', False, 'kind:%s:%s' % (norm(g['n']), t), '%s can fail with %s, which is no PTN_Exception (it comes from %s)' % (norm(f['n']), t, norm(g['n'])),
                      v.site, show_trace(st, v))
        if not s.throws:
            ctx.check('kinds of exceptions', True, '', '', sample='%s lets no exception out' % norm(f['n']))
    # ---- every throw of the engine itself, also those on threads of its own
    units = [f for f in p.functions.values() if 'b' in f and (norm(f['n']) in M.units or f.get('cls') == FACADE)] + file_operations(A)
    bodies = [(f, s) for f in units for s in [M.summary(f)]]
    own = len(bodies)
    for f, s in list(bodies):
        for st, v in s.paths:
            for e in flat(st.events()):
                if e.kind == 'spawn':
                    try:
                        b = M.spawn_body(e, f.get('cls'))
                    except (AnalysisBroken, Unrecognised, KeyError):
                        continue
                    if b not in [x for _, x in bodies]:
                        bodies.append((f, b))
    for f, s in bodies:
        for st, v in s.paths:
            for e in flat(st.events()):
                if e.kind == 'throw' and isinstance(e.a, str):
                    ok = p.derives(e.a, BASE) or e.a == BASE
                    if not ok and e.a.startswith('std::') and not (isinstance(v, Throw) and v.typ == e.a):
                        continue           # caught where it was thrown
                    if not ok and e.a in ALLOWED:
                        continue
                    if not ok and not any(e.a in M.summary(g).throws for g in ops + file_operations(A)):
                        continue           # does not reach the user
                    ctx.check('throws', ok, 'throw:%s:%s' % (norm(f['n']), e.a), '%s throws %s, which is no PTN_Exception' % (norm(f['n']), e.a), e.site, None if ok else show_trace(st, v))
    # ---- empty functions
    calls = 0
    for f, s in bodies:
        for st, v in s.paths:
            for e in flat(st.events()):
                if e.kind != 'call':
                    continue
                g = p.functions.get(e.a)
                if g is None or norm(g['n']) != 'ptne::JobQueue::addJob' and 'std::bad_function_call' not in callee_throws(A, g):
                    continue
                for i, (a, pr) in enumerate(zip(e.b[1], g['p'])):
                    if A.p.tmpl(A.p.strip(pr['t'])) != 'std::function':
                        continue
                    calls += 1
                    x = s.interp.argvals.get(e.b[2], ())
                    x = x[i] if i < len(x) else a
                    if x == NULL:
                        ctx.check('functions given', False, 'empty:' + norm(f['n']), '%s has an empty function executed' % norm(f['n']), e.site, show_trace(st, v))
                        continue
                    known = known_function(s.interp, st, x)
                    if known is None and optional_action(A, f, st, x):
                        known = False
                    if known is False:
                        ctx.check('functions given', False, 'empty:' + norm(f['n']), '%s has a function executed without having looked whether there is one' % norm(f['n']), e.site, show_trace(st, v))
                    else:
                        ctx.check('functions given', known, '', '%s has a function executed that may be empty' % norm(f['n']), e.site,
                                  sample='%s executes its function only when there is one' % norm(f['n']))
    ctx.count('functions given to executors', calls)
    # ---- a call of a function that is known to be empty, on a path of an operation itself
    for f, s in bodies[:own]:
        for st, v in s.paths:
            if isinstance(v, Throw) and v.typ == 'std::bad_function_call' and not any(e.kind == 'callthrow' and e.b[3] == v.typ for e in st.events()):
                if A.p.derives(f.get('cls') or '', 'ptne::IActionsExecutor'):
                    continue            # judged where the function is given
                ctx.check('functions called', False, 'badcall:' + norm(f['n']), '%s calls a function that may be empty' % norm(f['n']), v.site, show_trace(st, v))
    # ---- nothing that is not there
    paths = 0
    for f, s in bodies:
        bad = False
        for st, v in s.paths:
            paths += 1
            for e in flat(st.events()):
                for l in uses(e):
                    w = absent(l)
                    if w:
                        bad = True
                        ctx.check('there', False, 'absent:%s:%s' % (norm(f['n']), w), '%s: %s' % (norm(f['n']), w), e.site, show_trace(st, v))
                if e.kind in ('wr', 'ast', 'call', 'out', 'xml'):
                    if any(isinstance(x, tuple) and has(x, UNDEF) for x in (e.a, e.b)):
                        bad = True
                        ctx.check('there', False, 'undef:' + norm(f['n']), '%s uses a variable that was never given a value' % norm(f['n']), e.site, show_trace(st, v))
            for a in list(st.pc) + ([v] if isinstance(v, tuple) else []):
                if has(a, UNDEF):
                    bad = True
                    ctx.check('there', False, 'undef:' + norm(f['n']), '%s depends on a variable that was never given a value' % norm(f['n']), tuple(f['l']), show_trace(st, v))
                    break
        if not bad:
            ctx.check('there', True, '', '', sample='%s uses nothing that is not there' % norm(f['n']))
    ctx.count('operations', n)
    ctx.count('paths', paths)


def optional_action(A, f, st, x):
    """the action of a place, which need not have one, on a path that depends on nothing but its tokens"""
    W = world(A)
    if x[0] == 'ref':
        x = ('init', x[1])
    if f.get('cls') != 'ptne::Place' or x[0] != 'init' or x[1][:2] != ('.', SELF) or x[1][2] not in [fl for _, fl in W.extra]:
        return False
    for a in st.pc:
        for y in subterms(a):
            if len(y) == 3 and y[0] == '.' and y[1] == SELF and y[2] != W.count and A.p.tmpl(A.p.strip(A.p.field('ptne::Place', y[2])['t'])) not in ('std::weak_ptr', 'std::shared_ptr', 'std::atomic'):
                return False
            if y and y[0] in ('sym', 'R'):
                return False
    return True


def callee_throws(A, g):
    """what a virtual or plain callee may throw"""
    out = set()
    if 'b' in g:
        out |= A.M.summary(g).throws
    for h in A.p.functions.values():
        if 'b' in h and h.get('bn') == g.get('bn') and h is not g and A.p.derives(h.get('cls') or '', g.get('cls') or '?'):
            out |= A.M.summary(h).throws
    return out


def known_function(I, st, x):
    """True when the function is known to be there, False when it is known not to, None otherwise"""
    while isinstance(x, tuple) and x and x[0] == 'ref':
        x = I.peek(st, x[1])
    if x[0] in ('clo', 'fn', 'bindf'):
        return True
    n = I.nn(x)
    if n in (T, F):
        return n == T
    if n[0] == 'B':
        for a, pol in st.pc.items():
            if a == n[1]:
                return pol == n[2]
    return None


@check('C26')
def c26(ctx, A):
    ctx.rule('every path of every constructor of the engine\'s classes, with default member initialisers and delegation, leaves every field of built-in type with a value; classes '
             'without constructors give each such field a default')
    ctx.rule('the constructor of the engine, with everything it constructs inlined, ends with no places, no transitions and no functions, with the loop not running and with actions '
             'executed as the caller asked')
    p, M = A.p, A.M
    scalars = ('int', 'bool', 'enum', 'ptr', 'float')

    def is_scalar(t):
        return p.tinfo(p.strip(t)).get('cat') in scalars or p.tmpl(p.strip(t)) in ('std::atomic', 'std::chrono::duration')
    n = 0
    for c in sorted(p.records):
        if not c.startswith('ptne::'):
            continue
        fields = [f for f in p.fields(c) or [] if is_scalar(f['t']) and not f.get('static')]
        if not fields:
            continue
        ctors = [f for f in p.functions.values() if f.get('cls') == c and f.get('kind') == 'ctor' and not f.get('deleted')]
        user = [f for f in ctors if not f.get('defaulted') and 'b' in f]
        for fd in fields:
            n += 1
            if fd.get('init'):
                ctx.check('fields', True, '', '', sample='%s::%s has a default' % (c, fd['name']))
                continue
            tm = p.tmpl(p.strip(fd['t']))
            if tm == 'std::atomic':
                ctx.check('fields', True, '', '')       # value-initialised by the library
                continue
            if not user:
                ctx.check('fields', False, 'field:%s:%s' % (c, fd['name']), 'a new %s leaves %s without a value' % (c, fd['name']), tuple(fd['loc']) if fd.get('loc') else None)
                continue
            for f in user:
                if any('deleg' in i for i in f.get('inits', [])):
                    continue
                if tm == 'std::chrono::duration':
                    # its default constructor leaves it without a value unless it is asked for one
                    i = next((i for i in f.get('inits', []) if i.get('fld') == fd['name']), None)
                    given = bool(i and (i.get('written') or i['e'].get('args') or i['e'].get('k') != 'ctor'))
                    I = M.interp()
                    st = St()
                    for s, v in () if given else I.start(f, SELF, I.sym_args(f, st), st):
                        if not isinstance(v, Throw):
                            l = ('.', SELF, fd['name'])
                            given = s.mem.get(l) != ('i', 0) or any(e.kind == 'wr' and e.a == l for e in flat(s.events()))
                    ctx.check('fields', given, 'field:%s:%s' % (c, fd['name']), 'a constructor of %s leaves %s without a value' % (c, fd['name']), tuple(f['l']))
                    continue
                I = M.interp()
                st = St()
                for s, v in I.start(f, SELF, I.sym_args(f, st), st):
                    if isinstance(v, Throw):
                        continue
                    x = s.mem.get(('.', SELF, fd['name']))
                    ctx.check('fields', x is not None and x != ('undef',), 'field:%s:%s' % (c, fd['name']), 'a constructor of %s leaves %s without a value' % (c, fd['name']),
                              tuple(f['l']), show_trace(s, v), sample='the constructor gives %s::%s a value' % (c, fd['name']))
    ctx.count('fields of built-in type', n)
    # ---- the engine
    W = world(A)
    ctors = [f for f in p.functions.values() if f.get('cls') == FACADE and f.get('kind') == 'ctor' and not f.get('defaulted') and not f.get('deleted') and 'b' in f]
    if not ctors:
        raise AnalysisBroken('the constructor of the engine was not found')
    opt = [f['name'] for f in p.fields(ENG) if p.strip(f['t']) == FACADE + '::ACTIONS_THREAD_OPTION']
    if len(opt) != 1:
        raise Unrecognised('the option of the engine was not found')
    for f in ctors:
        I = M.interp(inline=M.units)
        st = St()
        done = 0
        for s, v in I.start(f, SELF, I.sym_args(f, st), st):
            if isinstance(v, Throw):
                continue
            bases = [k[1] for k in s.mem if k[0] == '.' and k[2] == opt[0]]
            if len(bases) != 1:
                ctx.check('new engine', None, '', 'the new engine is not understood', tuple(f['l']))
                continue
            done += 1
            b = bases[0]
            o = s.mem[('.', b, opt[0])]
            want = [('init', ('P', i)) for i, q in enumerate(f['p']) if p.strip(q['t']) == FACADE + '::ACTIONS_THREAD_OPTION']
            if want:
                ctx.check('new engine', True if o in want else False if o[0] in ('e', 'i') else None, 'option', 'a new engine has the option %s' % short(o), tuple(f['l']), show_trace(s, v),
                          sample='a new engine executes actions as asked')
            for l, what in ((('.', ('.', b, W.places), W.pmap), 'places'), (('.', ('.', b, W.transitions), W.tmap), 'transitions'),
                            (('.', ('.', b, W.actions), W.cmap), 'actions'), (('.', ('.', b, W.conditions), W.cmap), 'conditions')):
                x = I.peek(s, l)
                ctx.check('new engine', True if x in (EMPTY, ('init', l)) or x[0] == 'dflt' else None, what, 'a new engine has %s %s' % (what, short(x)), tuple(f['l']),
                          sample='a new engine has no %s' % what)
            r = W.E.running
            l = rebase(r, b)
            x = I.peek(s, l)
            ctx.check('new engine', True if x in (F, ('i', 0)) else False if x in (T, ('i', 1)) else None, 'running', 'a new engine says that its loop runs: %s' % short(x), tuple(f['l']), show_trace(s, v),
                      sample='the loop of a new engine does not run')
        if not done:
            ctx.check('new engine', None, '', 'no path of the constructor of the engine is understood', tuple(f['l']))


def rebase(l, b):
    return b if l == SELF else (l[0], rebase(l[1], b)) + l[2:] if l[0] == '.' else l
