"""What the standard library (and pugixml) functions called by the repository mean to the interpreter."""
import re
from fractions import Fraction
from .core import (Throw, T, F, NULL, EMPTY, GUARDS, MUTEXES, SEQS, MAPS, SHARED, STRINGS, ITERS, norm, has, canon,
                   simplify_dnf, noise, St, Frame, LoopInfo, root)


def L(I, st, a, t, fr, site, quiet=False):
    """the value of an argument"""
    if a[0] == 'ref':
        l = a[1]
        if l[0] == 'lit':
            return l[1]
        if l[0] == 'G':
            return I.read_global(st, l, {'t': t}, fr)
        return I.load(st, l, t, fr, site, quiet)
    return a


def aloc(I, st, a, t, fr):
    """a location for an argument"""
    if a[0] in ('ref', 'refw'):
        return a[1]
    l = I.tmp(st)
    I.store(st, l, a, t, fr, None, True)
    return l


def content(I, st, loc, t, fr, site, quiet=False):
    if loc[0] == 'lit':
        return loc[1]
    return I.load(st, loc, t, fr, site, quiet)


def boolv(v):
    return ('b', v)


# ---------------------------------------------------------------------------------------------- construction
def own_deleter(I, st, loc, tm, cls, args, at, fr, site):
    """remembers what a smart pointer calls instead of delete"""
    key = ('.', loc, '~')
    if len(args) > 1 and tm != 'std::weak_ptr':
        d = L(I, st, args[1], at[1], fr, site, True)
        if d[0] in ('clo', 'fn', 'bindf'):
            st.mem[key] = d
        elif args[1][0] == 'ref' and I.p.records.get(I.p.strip(at[1])):
            d = functor(I, at[1], args[1][1])
            if d:
                st.mem[key] = d
    elif len(args) == 1 and tm == 'std::unique_ptr':
        if args[0][0] == 'ref' and ('.', args[0][1], '~') in st.mem:
            st.mem[key] = st.mem.pop(('.', args[0][1], '~'))
        else:
            d = functor(I, I.p.targ(cls, 1), None)
            if d:
                st.mem[key] = d


def functor(I, t, loc):
    t = I.p.strip(t) if t else t
    if not t or not I.p.records.get(t):
        return None
    fs = [f for f in I.p.functions.values() if (f.get('cls') or '') == t and norm(f['n']).endswith('::operator()') and 'b' in f]
    if len(fs) != 1:
        return None
    return ('bindf', ('fn', fs[0]['key'], norm(fs[0]['n'])), (('ref', loc or ('tmp', next(I.ids))),))


def construct(I, st, loc, cls, e, args, at, fr, site):
    tm = I.tm(cls)
    ok = ('void',)

    def put(v, s=None):
        s = s or st
        I.store(s, loc, v, cls, fr, None, True)
        return [(s, ok)]

    def val(i, s=None):
        return L(I, s or st, args[i], at[i], fr, site)

    def mv(i):
        if args[i][0] == 'ref' and (e.get('move') or I.p.tinfo((e['fn'].get('pt') or ['?'])[i] if i < len(e['fn'].get('pt') or []) else '?').get('cat') == 'rref'):
            I.moved(st, args[i][1], at[i])

    if tm in MUTEXES or tm in ('std::condition_variable', 'std::condition_variable_any', 'std::identity', 'std::allocator'):
        return [(st, ok)]
    if tm in GUARDS:
        if not args:
            return put(('guard', None, None, False))
        if e.get('move'):
            v = val(0)
            I.moved(st, args[0][1], cls)
            return put(v)
        mode = GUARDS[tm]
        tag = at[-1] if len(args) > 1 else None
        tagn = I.tm(tag) if tag else None
        ms = [a for a, t in zip(args, at) if I.tm(t) in MUTEXES]
        locs = [a[1] for a in ms if a[0] == 'ref']
        if not locs or len(locs) != len(ms):
            I.note('lock over an unknown mutex at %s' % (site,))
            return put(('guard', None, None, False))
        if tm == 'std::scoped_lock' and len(locs) > 1:
            for m in locs:
                I.acquire(st, m, 'x', site, fr)
            return put(('guards', tuple((m, 'x') for m in locs)))
        m = locs[0]
        if tagn == 'std::defer_lock_t':
            return put(('guard', m, mode, False))
        if tagn == 'std::adopt_lock_t' or (at and I.tm(at[0]) == 'std::adopt_lock_t'):
            return put(('guard', m, mode, True))
        if tagn is not None and tagn not in MUTEXES:      # try_to_lock, timed
            s2 = st.copy()
            I.acquire(st, m, mode, site, fr)
            return put(('guard', m, mode, True)) + put(('guard', m, mode, False), s2)
        I.acquire(st, m, mode, site, fr)
        return put(('guard', m, mode, True))
    if tm in STRINGS:
        if not args or (len(args) == 1 and I.tm(at[0]) == 'std::allocator'):
            return put(('s', ''))
        v = val(0)
        if I.tm(at[0]) in ('int',):
            v = ('op', 'string', v, val(1) if len(args) > 1 else NULL)
        elif len(args) > 1 and I.tm(at[1]) not in ('std::allocator',):
            v = ('op', 'substr', v) + tuple(val(i) for i in range(1, len(args)) if I.tm(at[i]) != 'std::allocator')
        mv(0)
        return put(v)
    if tm in ('std::shared_ptr', 'std::unique_ptr', 'std::weak_ptr', 'std::enable_shared_from_this'):
        if not args:
            return put(NULL)
        v = val(0)
        src = I.tm(at[0])
        own_deleter(I, st, loc, tm, cls, args, at, fr, site)
        if v[0] == 'null':
            return put(NULL)
        mv(0)
        if tm == 'std::weak_ptr':
            if src != 'std::weak_ptr':
                v = ('weak', v)
        elif src == 'std::weak_ptr':                     # throws when expired
            out = []
            lk = ('op', 'lock', v)
            for s, b in I.branch(st, I.nn(lk)):
                if b:
                    out += put(lk, s)
                else:
                    out.append((s, Throw('std::bad_weak_ptr', None, site, fr.fn['n'])))
            return out
        return put(v)
    if tm == 'std::function':
        if not args:
            return put(NULL)
        v = val(0)
        mv(0)
        return put(v)
    if tm in ('std::atomic', 'std::__atomic_base'):
        return put(val(0) if args else I.default(I.p.targ(cls) or '?'))
    if tm in ('std::jthread', 'std::thread'):
        if not args:
            return put(('nothread',))
        if e.get('move') or I.tm(at[0]) in ('std::jthread', 'std::thread'):
            v = val(0)
            if args[0][0] == 'ref':
                I.moved(st, args[0][1], cls)
            return put(v)
        return spawn(I, st, loc, cls, args, at, fr, site)
    if tm in SEQS or tm in MAPS:
        if not args or (len(args) == 1 and I.tm(at[0]) == 'std::allocator'):
            return put(EMPTY)
        if e.get('copy') or e.get('move') or I.tm(at[0]) == tm:
            v = val(0)
            mv(0)
            if e.get('move') and args[0][0] == 'ref' and args[0][1][0] != 'lit':
                I.store(st, args[0][1], EMPTY, at[0], fr, site, True)
            return put(v)
        if I.tm(at[0]) == 'std::initializer_list' or args[0][0] == 'vec':
            return put(val(0))
        vs = [val(i) for i in range(len(args)) if I.tm(at[i]) not in ('std::allocator',)]
        if len(vs) >= 2 and vs[0][0] == 'it' and vs[1][0] == 'it' and vs[0][1] == vs[1][1] and vs[0][2] == ('begin',) and vs[1][2] == ('end',):
            return put(vs[0][1])
        if len(vs) == 1 and vs[0][0] in ('i', 'op', 'init') and I.tm(at[0]) == 'int':
            return put(('op', 'sized', vs[0]))
        return put(('op', 'newcont') + tuple(vs))
    if tm == 'std::pair':
        fs = I.fields_of(cls)
        for i in range(min(2, len(args))):
            I.store(st, ('.', loc, fs[i][0]), val(i), fs[i][1], fr, None, True)
        return [(st, ok)]
    if tm == 'std::optional':
        return put(('some', val(0)) if args and I.tm(at[0]) not in ('std::nullopt_t', 'std::optional') else val(0) if args and I.tm(at[0]) == 'std::optional' else NULL)
    if tm in ('std::stop_token', 'std::stop_source', 'std::reference_wrapper') or tm in ITERS:
        return put(val(0) if args else I.fresh('tok'))
    if tm in ('std::chrono::duration', 'std::chrono::time_point'):
        return put(duration(I, cls, val(0), at[0]) if args else ('i', 0))
    if tm in ('std::random_device',):
        return put(('op', 'random_device'))
    if tm in ('std::mersenne_twister_engine', 'std::linear_congruential_engine'):
        return put(('op', 'engine', val(0) if args else ('op', 'fixedseed')))
    if tm == 'lambda' or (args and (e.get('copy') or e.get('move'))):
        v = val(0)
        return put(v)
    if tm.startswith('std::') and 'error' in tm or tm.startswith('std::') and 'exception' in tm:
        return put(('op', tm) + tuple(val(i) for i in range(len(args))))
    vs = tuple(val(i) for i in range(len(args)))
    return put(('op', 'new:' + tm) + vs)


def spawn(I, st, loc, cls, args, at, fr, site):
    vals = []
    for a, t in zip(args, at):
        v = L(I, st, a, t, fr, site)
        vals.append(v)
    kind = 'jthread' if I.tm(cls) == 'std::jthread' else 'thread'
    n = next(I.ids)
    s2 = st.copy()
    I.emit(st, 'spawn', (kind, vals[0], tuple(vals[1:]), n), loc, site, fr)
    th = ('thread', kind, n, vals[0], tuple(vals[1:]))
    st.mem[('threads', n)] = th              # the thread owns its copy of the callable
    st.mem[loc] = th
    I.spawns.append((kind, vals[0], tuple(vals[1:]), st.copy(), site, st.held, fr.fn['n']))
    I.emit(s2, 'spawnfail', (kind, vals[0]), loc, site, fr)
    return [(st, ('void',)), (s2, Throw('std::system_error', None, site, fr.fn['n']))]


def build(I, st, t, args, at, fr, site, loc=None):
    """constructs an object of type t from forwarded arguments (emplace, make_shared); [(st, value|Throw)]"""
    l = loc or I.tmp(st)
    tm = I.tm(t)
    t = I.p.strip(t)
    rec = I.p.records.get(t)
    out = []
    if rec is not None:
        ctors = [f for f in I.p.functions.values() if f.get('kind') == 'ctor' and f.get('cls') == t and ('b' in f or f.get('inits'))
                 and len(f['p']) >= len(args)]
        exact = [f for f in ctors if len(f['p']) == len(args)] or ctors
        if len(args) == 1 and I.p.strip(at[0]) == t:
            exact = []
        elif len(args) == 1:
            exact = [f for f in exact if not (f['p'] and I.p.strip(f['p'][0]['t']) == t)]
        if exact and (args or any('b' in f for f in exact)):
            f = exact[0]
            for s, v in I.run_ctor(l, t, f, None, st, fr, {'t': t}, list(args)):
                out.append((s, v))
        elif not args:
            out = I.default_at(l, t, st, fr)
        elif len(args) == 1 and I.p.strip(at[0]) == t:
            I.store(st, l, L(I, st, args[0], t, fr, site), t, fr, None, True)
            out = [(st, ('void',))]
        else:
            fs = I.fields_of(t)
            for (n, ft), a, x in zip(fs, args, at):
                v = L(I, st, a, x, fr, site)
                if I.tm(ft) == 'std::weak_ptr' and I.tm(x) != 'std::weak_ptr' and v[0] != 'null':
                    v = ('weak', v)
                I.store(st, ('.', l, n), v, ft, fr, None, True)
            for n, ft in fs[len(args):]:
                fd = I.p.field(t, n)
                if fd and fd.get('init'):
                    for s, v in I.init_at(('.', l, n), ft, fd['init'], st, fr):
                        pass
                else:
                    I.store(st, ('.', l, n), I.default(ft), ft, fr, None, True)
            out = [(st, ('void',))]
    else:
        e = {'fn': {'pt': []}, 'copy': len(args) == 1 and I.p.strip(at[0]) == t, 'move': False, 't': t}
        out = construct(I, st, l, t, e, list(args), list(at), fr, site)
    if loc is not None:
        return out
    res = []
    for s, v in out:
        if isinstance(v, Throw):
            res.append((s, v))
            continue
        x = I.load(s, l, t, fr, None, True)
        for k in [k for k in s.mem if I.under(k, l)]:
            del s.mem[k]
        res.append((s, x))
    return res


# ---------------------------------------------------------------------------------------------- calls
def call(I, st, q, fn, e, this, args, at, fr, site):
    cls = fn.get('cls')
    tm = I.tm(cls) if cls else None
    name = q.rsplit('::', 1)[-1] if 'operator' not in q else q[q.rindex('operator'):]
    if 'operator' in q and '::' in name and not name.startswith('operator'):
        name = q[q.index('operator'):]
    if this is None and e.get('obj') is None and cls is not None and args:
        pass
    r = None
    if tm in GUARDS:
        r = guard(I, st, name, this, args, at, fr, site)
    elif tm in MUTEXES:
        r = mutex(I, st, name, this, args, at, fr, site)
    elif tm in ('std::shared_ptr', 'std::__shared_ptr', 'std::__shared_ptr_access', 'std::unique_ptr', 'std::weak_ptr', 'std::__weak_ptr',
                'std::owner_less', 'std::_Sp_owner_less'):
        r = smartptr(I, st, name, tm, cls, this, args, at, fr, site, e)
    elif tm in ('std::atomic', 'std::__atomic_base'):
        r = atomic(I, st, name, cls, this, args, at, fr, site)
    elif tm == 'std::function':
        r = function(I, st, name, cls, this, args, at, fr, site, e)
    elif tm in ('std::jthread', 'std::thread'):
        r = thread(I, st, name, cls, this, args, at, fr, site, e)
    elif tm in ('std::stop_token', 'std::stop_source'):
        v = content(I, st, this, cls, fr, site, True)
        if name == 'stop_requested':
            I.emit(st, 'stopq', v, None, site, fr)
            r = [(st, ('B', ('t', ('aload', ('stopreq', v), next(I.ids))), True))]
        elif name == 'stop_possible':
            r = [(st, ('B', ('ok', 'stop_possible', v), True))]
        elif name == 'request_stop':
            I.emit(st, 'reqstop', v, None, site, fr)
            r = [(st, T)]
        elif name == 'get_token':
            r = [(st, v)]
    elif tm in ('std::condition_variable', 'std::condition_variable_any'):
        r = condvar(I, st, name, this, args, at, fr, site, e)
    elif tm in STRINGS:
        r = string(I, st, name, cls, this, args, at, fr, site)
    elif tm in SEQS or tm in MAPS:
        r = container(I, st, name, tm, cls, this, args, at, fr, site, e)
    elif tm in ITERS:
        r = iterator(I, st, name, cls, this, args, at, fr, site, e)
    elif q.startswith('std::ranges::__') and '_fn::operator()' in q:
        r = algorithm(I, st, 'ranges', q.split('::__')[1].split('_fn::')[0], args, at, fr, site, e)
    elif tm == 'std::optional':
        r = optional(I, st, name, cls, this, args, at, fr, site, e)
    elif tm in ('std::random_device', 'std::mersenne_twister_engine', 'std::linear_congruential_engine') and name == 'operator()':
        draw(I, st, this, site, fr)
        r = [(st, ('op', 'random'))]
    elif tm in ('std::chrono::duration', 'std::chrono::time_point'):
        v = content(I, st, this, cls, fr, site)
        if name == 'operator=':
            I.store(st, this, L(I, st, args[0], at[0], fr, site), cls, fr, site)
            r = [(st, ('ref', this))]
        elif name == 'count':
            r = [(st, counted(I, cls, v))]
    elif tm == 'std::reference_wrapper':
        v = content(I, st, this, cls, fr, site)
        if name in ('get', 'operator T', ) or name.startswith('operator '):
            r = [(st, ('ref', v[1] if v[0] == 'refw' else I.deref(v)))]
    elif q.startswith('pugi::'):
        r = pugi(I, st, q, name, cls, this, args, fn.get('pt') or at, fr, site, e)
    elif cls is None or this is None:
        r = free(I, st, q, name, fn, args, at, fr, site, e)
    elif tm == 'std::basic_ostream' or tm == 'std::basic_ios':
        if name.startswith('operator<<'):
            I.emit(st, 'out', text(I, L(I, st, args[0], at[0], fr, site), at[0]) if at and I.tm(at[0]) != 'func' else ('manip',), this, site, fr)
            r = [(st, ('ref', this))]
        else:
            r = [(st, ('op', 'ostream.' + name))]
    elif name == 'operator=' and args:
        v = L(I, st, args[0], at[0], fr, site)
        I.store(st, this, v, cls, fr, site)
        r = [(st, ('ref', this))]
    elif tm and tm.endswith('_engine'):
        r = [(st, ('op', 'random'))]
    elif name == 'what':
        r = [(st, ('op', 'what', content(I, st, this, cls, fr, site)))]
    if r is None:
        I.unknown[q] = I.unknown.get(q, 0) + 1
        vs = tuple(L(I, st, a, t, fr, site, True) for a, t in zip(args, at))
        I.emit(st, 'unknown', q, (this,) + vs, site, fr)
        # what the function could have changed is not known any more
        some = 'shuffle' in q and len(vs) > 1 and partial(I, vs[0], vs[1])
        for x, a, t in zip(vs, args, fn.get('pt') or at):
            ti = I.p.tinfo(t)
            l = None
            while x[0] == 'op' and x[1] in ('+', '-') and x[2][0] in ('it', 'op'):
                x = x[2]
            if x[0] == 'it' and len(x) > 3 and isinstance(x[3], tuple):
                l = x[3]
            elif a[0] == 'ref' and ti.get('cat') in ('ref', 'rref') and not ti.get('to', 'const ').startswith('const '):
                l = a[1]
            if isinstance(l, tuple) and l and l[0] in ('L', 'tmp', '.', '*', 'G', 'O', 'heap', '[]', 'P'):
                st.mem[l] = ('op', 'perm', I.peek(st, l), 'partial') if some and x[0] == 'it' else ('op', 'lost', next(I.ids))
        r = [(st, ('sym', 'ext:' + q, next(I.ids)))]
        if I.p.tinfo(e.get('t', '?')).get('cat') in ('ref', 'rref') or e.get('lv'):
            r = [(st, ('ref', ('*', r[0][1])))]
    return r


def guard(I, st, name, this, args, at, fr, site):
    v = st.mem.get(this, ('guard', None, None, False))
    if v[0] != 'guard':
        return None
    _, m, mode, owned = v
    if name == 'unlock':
        if owned:
            I.release(st, m, mode, site, fr)
            st.ep = dict(st.ep)
            st.ep[m] = st.ep.get(m, 0) + 1
        else:
            I.emit(st, 'badrel', m, mode, site, fr)
        st.mem[this] = ('guard', m, mode, False)
        return [(st, ('void',))]
    if name == 'lock':
        I.acquire(st, m, mode, site, fr)
        if st.ep.get(m):
            I.havoc_guarded(st, m)
        st.mem[this] = ('guard', m, mode, True)
        return [(st, ('void',))]
    if name in ('try_lock', 'try_lock_for', 'try_lock_until'):
        s2 = st.copy()
        I.acquire(st, m, mode, site, fr)
        st.mem[this] = ('guard', m, mode, True)
        return [(st, T), (s2, F)]
    if name in ('owns_lock', 'operator bool'):
        return [(st, boolv(owned))]
    if name == 'mutex':
        return [(st, ('ptr', m))]
    if name == 'release':
        st.mem[this] = ('guard', None, None, False)
        return [(st, ('ptr', m))]
    if name == 'operator=':
        w = L(I, st, args[0], at[0], fr, site)
        if owned:
            I.release(st, m, mode, site, fr)
        if args[0][0] == 'ref':
            st.mem[args[0][1]] = ('guard', None, None, False)
        st.mem[this] = w
        return [(st, ('ref', this))]
    return None


def mutex(I, st, name, this, args, at, fr, site):
    if name in ('lock', 'lock_shared'):
        I.acquire(st, this, 'x' if name == 'lock' else 's', site, fr)
        return [(st, ('void',))]
    if name in ('unlock', 'unlock_shared'):
        I.release(st, this, 'x' if name == 'unlock' else 's', site, fr)
        return [(st, ('void',))]
    if name.startswith('try_lock'):
        s2 = st.copy()
        I.acquire(st, this, 's' if 'shared' in name else 'x', site, fr)
        return [(st, T), (s2, F)]
    return None


def smartptr(I, st, name, tm, cls, this, args, at, fr, site, e):
    weak = 'weak' in tm
    if tm in ('std::owner_less', 'std::_Sp_owner_less'):
        vs = [L(I, st, a, t, fr, site) for a, t in zip(args, at)]
        return [(st, ('B', ('lt', ('own', vs[0]), ('own', vs[1])), True))]
    if name in ('operator->', 'operator*', 'get'):
        v = content(I, st, this, cls, fr, site)
        if name == 'operator*':
            return [(st, ('ref', I.deref(v)))]
        return [(st, v if v[0] in ('ptr', 'null') else ('op', 'get', v) if v[0] != 'op' else v)]
    if name == 'operator bool':
        v = content(I, st, this, cls, fr, site)
        return [(st, I.nn(v))]
    if name == 'release':
        v = content(I, st, this, cls, fr, site, True)
        st.mem.pop(('.', this, '~'), None)
        I.store(st, this, NULL, cls, fr, site)
        return [(st, v)]
    if name == 'lock':
        v = content(I, st, this, cls, fr, site)
        if v[0] == 'null':
            return [(st, NULL)]
        if v[0] == 'weak' and v[1][0] == 'ptr':
            return [(st, v[1])]
        return [(st, ('op', 'lock', v))]
    if name == 'expired':
        v = content(I, st, this, cls, fr, site)
        if v[0] == 'null':
            return [(st, T)]
        return [(st, I.neg(I.nn(('op', 'lock', v))))]
    if name == 'use_count':
        return [(st, ('op', 'use_count', content(I, st, this, cls, fr, site)))]
    if name == 'owner_before':
        v, w = content(I, st, this, cls, fr, site), L(I, st, args[0], at[0], fr, site)
        return [(st, ('B', ('lt', ('own', v), ('own', w)), True))]
    if name in ('operator=', 'reset'):
        old = content(I, st, this, cls, fr, site, True)
        if name == 'reset' and not args:
            v = NULL
        else:
            v = L(I, st, args[0], at[0], fr, site)
            if name == 'reset' and v[0] == 'ptr':
                pass
            if args[0][0] == 'ref' and I.p.tinfo(e.get('fn', {}).get('pt', ['?'])[0]).get('cat') == 'rref':
                I.moved(st, args[0][1], at[0])
            if weak and I.tm(at[0]) != 'std::weak_ptr' and v[0] != 'null':
                v = ('weak', v)
        I.store(st, this, v, cls, fr, site)
        sts = [st]
        d = st.mem.pop(('.', this, '~'), None)
        if d is not None:
            sts = [s for s, _ in I.call_value(d, [old], st, fr, site)] if old[0] != 'null' else [st]
            return [(s, ('ref', this)) for s in sts]
        if not weak:
            tt = I.p.targ(cls)
            nxt = []
            for s in sts:
                if old != v:
                    nxt += I.drop(s, old, tt, this, fr, v)
                else:
                    nxt.append(s)
            sts = nxt
            from .core import heap_ptrs
            ps = set()
            heap_ptrs(old, ps)
            nxt = []
            for s in sts:
                nxt += I.collect(s, ps, fr, v)
            sts = nxt
        return [(s, ('ref', this)) for s in sts]
    if name == 'swap':
        o = args[0][1]
        a, b = I.peek(st, this), I.peek(st, o)
        I.store(st, this, b, cls, fr, site)
        I.store(st, o, a, cls, fr, site)
        return [(st, ('void',))]
    if name == 'release':
        v = content(I, st, this, cls, fr, site)
        I.store(st, this, NULL, cls, fr, site)
        return [(st, v)]
    return None


def atomic(I, st, name, cls, this, args, at, fr, site):
    t = I.p.targ(cls) or '?'

    def arg(i):
        return L(I, st, args[i], at[i], fr, site)
    if name == 'load' or name.startswith('operator ') or (name.startswith('operator') and name[8:9].isalpha()):
        return [(st, I.atomic_load(st, this, fr, site))]
    if name in ('store', 'operator='):
        v = arg(0)
        I.emit(st, 'ast', this, v, site, fr)
        st.mem[this] = v
        return [(st, v)]
    delta = {'operator++': 1, 'operator--': -1}.get(name)
    if name in ('fetch_add', 'operator+='):
        delta = arg(0)
    elif name in ('fetch_sub', 'operator-='):
        v = arg(0)
        delta = ('i', -v[1]) if v[0] == 'i' else ('op', 'u-', v)
    elif delta is not None:
        delta = ('i', delta)
    if delta is not None:
        I.emit(st, 'armw', this, delta, site, fr)
        n = next(I.ids)
        old = ('aload', this, n)
        st.mem[this] = ('sym', 'armw', n, this)
        new = I.arith('+', old, delta) if delta[0] != 'i' or delta[1] >= 0 else I.arith('-', old, ('i', -delta[1]))
        pre = name.startswith('operator') and not args or name in ('operator+=', 'operator-=')
        return [(st, new if pre else old)]
    if name == 'exchange':
        v = arg(0)
        n = next(I.ids)
        I.emit(st, 'axchg', this, v, site, fr)
        st.mem[this] = v
        return [(st, ('aload', this, n))]
    if name.startswith('compare_exchange'):
        s2 = st.copy()
        v = arg(1)
        exp = args[0][1] if args[0][0] == 'ref' else None
        ev = I.peek(st, exp) if exp else None
        I.emit(st, 'acas', this, (ev, v), site, fr)
        st.mem[this] = v
        if exp:
            s2.mem[exp] = ('aload', this, next(I.ids))
        return [(st, T), (s2, F)]
    if name in ('wait', 'notify_one', 'notify_all', 'is_lock_free'):
        I.emit(st, 'awaitop', this, name, site, fr)
        return [(st, ('void',))]
    return None


def function(I, st, name, cls, this, args, at, fr, site, e):
    if name == 'operator()':
        v = content(I, st, this, cls, fr, site)
        return I.call_value(v, args, st, fr, site, e.get('t'))
    if name == 'operator bool':
        return [(st, I.nn(content(I, st, this, cls, fr, site)))]
    if name == 'operator=':
        v = L(I, st, args[0], at[0], fr, site)
        I.store(st, this, v, cls, fr, site)
        return [(st, ('ref', this))]
    if name == 'swap':
        o = args[0][1]
        a, b = I.peek(st, this), I.peek(st, o)
        I.store(st, this, b, cls, fr, site)
        I.store(st, o, a, cls, fr, site)
        return [(st, ('void',))]
    return None


def thread(I, st, name, cls, this, args, at, fr, site, e):
    cur = I.peek(st, this)
    sh = I.shared(this)
    if name in ('join', 'detach', 'operator=', 'swap', 'request_stop'):
        if sh:
            I.emit(st, 'thr' if name != 'request_stop' else 'thrrd', this, name, site, fr)
    elif sh:
        I.emit(st, 'thrrd', this, name, site, fr)
    if name == 'join':
        I.emit(st, 'join', this, 'call', site, fr)
        st.mem[this] = ('nothread',)
        return [(st, ('void',))]
    if name == 'detach':
        I.emit(st, 'detach', this, cur, site, fr)
        st.mem[this] = ('nothread',)
        return [(st, ('void',))]
    if name == 'request_stop':
        I.emit(st, 'reqstop', this, cur, site, fr)
        return [(st, T)]
    if name == 'joinable':
        if cur[0] == 'thread':
            return [(st, T)]
        if cur[0] == 'nothread':
            return [(st, F)]
        return [(st, ('B', ('ok', 'joinable', cur), True))]
    if name == 'get_id':
        return [(st, ('op', 'tid', cur))]
    if name == 'get_stop_token' or name == 'get_stop_source':
        return [(st, ('stoptok', this))]
    if name == 'operator=':
        v = L(I, st, args[0], at[0], fr, site)
        if cur[0] != 'nothread' and I.tm(cls) == 'std::jthread':
            I.emit(st, 'reqstop', this, cur, site, fr)
            I.emit(st, 'join', this, 'assign', site, fr)
        if args[0][0] == 'ref':
            I.moved(st, args[0][1], cls)
        if v[0] == 'thread':
            I.emit(st, 'thrset', this, v, site, fr)
        st.mem[this] = v
        return [(st, ('ref', this))]
    return None


def condvar(I, st, name, this, args, at, fr, site, e):
    if name in ('notify_all', 'notify_one'):
        I.emit(st, 'notify', this, name, site, fr)
        return [(st, ('void',))]
    if name in ('wait', 'wait_for', 'wait_until'):
        g = args[0][1] if args[0][0] == 'ref' else None
        gv = st.mem.get(g, ('guard', None, None, False))
        m, mode = (gv[1], gv[2]) if gv[0] == 'guard' else (None, None)
        pred = None
        timed = name != 'wait'
        rest = list(zip(args[1:], at[1:]))
        if rest and not (I.tm(rest[-1][1]) in ('std::chrono::duration', 'std::chrono::time_point', 'std::stop_token')):
            pred = L(I, st, rest[-1][0], rest[-1][1], fr, site)
        tv = None
        for a, t in rest:
            if I.tm(t) in ('std::chrono::duration', 'std::chrono::time_point'):
                tv = L(I, st, a, t, fr, site)
        outs = []
        pinfo = None
        if pred is not None:
            # what the predicate reads
            probe = st.copy()
            probe.ev = None
            pr = []
            for s, v in I.call_value(pred, [], probe, fr, site):
                for s3, b in (I.branch(s, v) if not isinstance(v, Throw) else [(s, v)]):
                    pr.append(([(a, p) for a, p in s3.pc.items() if a not in st.pc], b, s3.events()))
            pinfo = pr
            I.emit(st, 'wait', this, (m, timed, tv, pinfo), site, fr)
            if m is not None:
                I.havoc_guarded(st, m)
            s0 = st
            for s, v in I.call_value(pred, [], s0, fr, site):
                if isinstance(v, Throw):
                    outs.append((s, v))
                    continue
                for s3, b in I.branch(s, v):
                    if b or timed:
                        outs.append((s3, boolv(b)))
            return outs
        I.emit(st, 'wait', this, (m, timed, tv, None), site, fr)
        if m is not None:
            I.havoc_guarded(st, m)
        return [(st, ('sym', 'cvstatus', next(I.ids)))]
    return None


def string(I, st, name, cls, this, args, at, fr, site):
    v = content(I, st, this, cls, fr, site)
    if name == 'empty':
        return [(st, I.cmp('==', v, ('s', '')))]
    if name in ('size', 'length'):
        return [(st, ('i', len(v[1])) if v[0] == 's' else ('op', 'size', ('strv', v)))]
    if name in ('c_str', 'data', 'begin', 'cbegin', 'operator basic_string_view', 'substr') and not args or name.startswith('operator basic_string_view') \
            or name.startswith('operator std::basic_string_view'):
        return [(st, v)]
    if name in ('operator=', 'assign'):
        w = L(I, st, args[0], at[0], fr, site)
        I.store(st, this, w, cls, fr, site)
        return [(st, ('ref', this))]
    if name in ('operator+=', 'append', 'push_back'):
        w = L(I, st, args[0], at[0], fr, site)
        I.store(st, this, cat(v, w), cls, fr, site)
        return [(st, ('ref', this))]
    if name == 'clear':
        I.store(st, this, ('s', ''), cls, fr, site)
        return [(st, ('void',))]
    if name == 'compare':
        return [(st, ('op', 'strcmp', v, L(I, st, args[0], at[0], fr, site)))]
    if name in ('reserve', 'shrink_to_fit'):
        return [(st, ('void',))]
    if name in ('end', 'cend'):
        return [(st, ('op', 'strend', v))]
    if name in ('find', 'rfind', 'at', 'operator[]', 'back', 'front', 'substr', 'starts_with', 'ends_with', 'find_first_of', 'find_first_not_of', 'find_last_of', 'find_last_not_of', 'compare'):
        return [(st, ('op', 'str.' + name, v) + tuple(L(I, st, a, t, fr, site) for a, t in zip(args, at)))]
    return None


def cat(a, b):
    if a[0] == 's' and b[0] == 's':
        return ('s', a[1] + b[1])
    if a == ('s', ''):
        return b
    if b == ('s', ''):
        return a
    return ('op', 'cat', a, b)


def draw(I, st, loc, site, fr):
    """a number is drawn: the generator changes"""
    if isinstance(loc, tuple) and loc and loc[0] == 'ref':
        loc = loc[1]
    if isinstance(loc, tuple) and loc and loc[0] in ('O', 'G', '.', '*', '[]', 'P') and I.shared(loc):
        I.emit(st, 'wr', loc, ('op', 'random', next(I.ids)), site, fr)


def touch(I, st, loc, what, v, site, fr):
    """an access to a container as a whole"""
    if I.visible(st, loc):
        I.emit(st, what, loc, v, site, fr)


def text(I, v, t):
    """what a value of this type looks like when it is printed"""
    if v[0] == 'i' and I.p.strip(t) in ('char', 'signed char', 'unsigned char'):
        return ('s', chr(v[1] & 255))
    return v


def append(c, v):
    if c[0] == 'vec':
        return c + (('one', v),)
    return ('vec', ('all', c), ('one', v))


def elemtype(I, cls):
    return I.p.targ(cls) or '?'


def container(I, st, name, tm, cls, this, args, at, fr, site, e):
    ism = tm in MAPS
    dq = tm in ('std::deque', 'std::list', 'std::queue')
    c = I.peek(st, this) if this[0] != 'lit' else this[1]
    et = elemtype(I, cls)

    def rd():
        touch(I, st, this, 'rd', None, site, fr)

    def wr(what, s=None):
        touch(I, s or st, this, 'wr', what, site, fr)

    def arg(i, s=None):
        return L(I, s or st, args[i], at[i], fr, site)
    if name in ('size',):
        rd()
        return [(st, I.size(c))]
    if name == 'empty':
        rd()
        return [(st, I.cmp('==', I.size(c), ('i', 0)))]
    if name in ('begin', 'cbegin'):
        rd()
        return [(st, bounds(I, c, this)[0])]
    if name in ('end', 'cend'):
        rd()
        return [(st, bounds(I, c, this)[1])]
    if name in ('rbegin', 'crbegin'):
        rd()
        return [(st, bounds(I, ('op', 'rev', c), this)[0])]
    if name in ('rend', 'crend'):
        rd()
        return [(st, bounds(I, ('op', 'rev', c), this)[1])]
    if not ism and not dq and I.unused is not e and c[0] == 'vec' and name in ('back', 'front', 'operator[]', 'at'):
        k = arg(0) if args else ('i', 0 if name == 'front' else len(c) - 2)
        if k[0] == 'i' and I.cellable(st, this, k[1], et):
            return [(st, ('ref', I.cell(st, this, k[1], et, fr)))]
    if name in ('back', 'front'):
        rd()
        k = ('last',) if name == 'back' else ('first',)
        return [(st, ('ref', ('[]', c, k)))]
    if name == 'clear':
        wr(('clear',))
        return replace(I, st, this, EMPTY, cls, fr, c)
    if name in ('reserve', 'shrink_to_fit'):
        return [(st, ('void',))]
    if name == 'swap':
        o = args[0][1]
        a, b = c, I.peek(st, o)
        wr(('swap',))
        touch(I, st, o, 'wr', ('swap',), site, fr)
        st.mem[this], st.mem[o] = b, a
        return [(st, ('void',))]
    if name in ('operator=', 'assign') and len(args) == 1:
        v = arg(0)
        wr(('set', v))
        st.mem[this] = v
        if args[0][0] == 'ref' and I.p.tinfo(e['fn'].get('pt', ['?'])[0]).get('cat') == 'rref' and args[0][1][0] != 'lit':
            st.mem[args[0][1]] = EMPTY
        return [(st, ('ref', this))]
    if name in ('push_back', 'emplace_back', 'push_front', 'emplace_front', 'push', 'emplace') and not ism or (name in ('insert',) and len(args) == 1 and not ism):
        out = []
        r = [(st, arg(0))] if len(args) == 1 and (name in ('push_back', 'push_front', 'push', 'insert')) else build(I, st, et, args, at, fr, site)
        for s, v in r:
            if isinstance(v, Throw):
                out.append((s, v))
                continue
            if I.tm(et) == 'std::weak_ptr' and v[0] not in ('weak', 'null') and (at and I.tm(at[0]) == 'std::shared_ptr'):
                v = ('weak', v)
            front = 'front' in name
            wr(('pushf' if front else 'pushb' if dq else 'push', v), s)
            cur = I.peek(s, this)
            s.mem[this] = ('op', 'pushf' if front else 'pushb', cur, v) if dq else append(cur, v)
            if front and not dq:
                s.mem[this] = ('op', 'pushf', cur, v)
            if not front and not dq and I.unused is not e and I.cellable(s, this, len(s.mem[this]) - 2, et):
                out.append((s, ('ref', I.cell(s, this, len(s.mem[this]) - 2, et, fr))))
                continue
            out.append((s, ('ref', ('[]', s.mem[this], ('first',) if front else ('last',)))))
        return out
    if name in ('pop_back', 'pop_front', 'pop'):
        wr(('popb' if name == 'pop_back' else 'popf',))
        st.mem[this] = ('op', 'popb' if name == 'pop_back' else 'popf', c)
        return [(st, ('void',))]
    if name == 'operator[]' and not ism:
        rd()
        return [(st, ('ref', ('[]', c, arg(0))))]
    if name == 'at' and not ism:
        rd()
        k = arg(0)
        out = []
        for s, ok in I.branch(st, I.cmp('<', k, I.size(c))):
            out.append((s, ('ref', ('[]', c, k)) if ok else Throw('std::out_of_range', None, site, fr.fn['n'])))
        return out
    if name in ('contains', 'count'):
        rd()
        k = arg(0)
        if name == 'contains':
            return [(st, I.haskey(c, k))]
        out = []
        for s, b in I.branch(st, I.haskey(c, k)):
            out.append((s, ('i', 1 if b else 0)))
        return out
    if name == 'find':
        rd()
        k = arg(0)
        out = []
        for s, b in I.branch(st, I.haskey(c, k)):
            out.append((s, ('it', c, ('key', k) if b else ('end',), this)))
        return out
    if ism and name == 'at':
        rd()
        k = arg(0)
        out = []
        for s, b in I.branch(st, I.haskey(c, k)):
            if b:
                out.append((s, ('ref', ('.', ('[]', c, k), 'second'))))
            else:
                I.emit(s, 'throw', 'std::out_of_range', None, site, fr)
                out.append((s, Throw('std::out_of_range', None, site, fr.fn['n'])))
        return out
    if ism and name == 'operator[]':
        k = arg(0)
        out = []
        for s, b in I.branch(st, I.haskey(c, k)):
            if b:
                touch(I, s, this, 'rd', None, site, fr)
                out.append((s, ('ref', ('.', ('[]', c, k), 'second'))))
            else:
                wr(('put', k), s)
                nc = ('op', 'put', c, k, None)
                s.mem[this] = nc
                l = ('.', ('[]', nc, k), 'second')
                s.mem[l] = I.default(I.p.targ(cls, 1) or '?')
                out.append((s, ('ref', l)))
        return out
    if ism and name in ('emplace', 'insert', 'try_emplace', 'insert_or_assign'):
        out = []
        if len(args) >= 2 and I.tm(at[0]) not in ITERS:
            k = arg(0)
            r = build(I, st, I.p.targ(cls, 1), args[1:], at[1:], fr, site) if name != 'insert_or_assign' or len(args) > 2 else [(st, arg(1))]
        elif len(args) == 1:
            v = arg(0)
            d = dict(v[2]) if v[0] == 'rec' else {}
            k = d.get('first', ('op', '.', v, 'first'))
            r = [(st, d.get('second', ('op', '.', v, 'second')))]
        else:
            return None
        for s, v in r:
            if isinstance(v, Throw):
                out.append((s, v))
                continue
            for s2, b in I.branch(s, I.haskey(c, k)):
                if b:
                    if name == 'insert_or_assign':
                        wr(('set', k, v), s2)
                        s2.mem[('.', ('[]', c, k), 'second')] = v
                        I.emit(s2, 'wr', ('.', ('[]', c, k), 'second'), v, site, fr) if I.shared(this) else None
                    else:
                        touch(I, s2, this, 'rd', None, site, fr)
                    out.append((s2, ('rec', 'pair', (('first', ('it', c, ('key', k), this)), ('second', F)))))
                else:
                    wr(('put', k), s2)
                    nc = ('op', 'put', c, k, None)
                    s2.mem[this] = nc
                    s2.mem[('.', ('[]', nc, k), 'second')] = v
                    I.emit(s2, 'wr', ('.', ('[]', nc, k), 'second'), v, site, fr) if I.shared(this) else None
                    out.append((s2, ('rec', 'pair', (('first', ('it', nc, ('key', k), this)), ('second', T)))))
        return out
    if name == 'erase':
        a = arg(0)
        if len(args) == 2:
            b = arg(1)
            wr(('eraserange', a, b))
            nc = ('op', 'erase', c, ('range', a, b))
            st.mem[this] = nc
            return [(st, ('it', nc, ('step', ('range',)), this))]
        if a[0] == 'it':
            key = ('pos', I.iter_key(a))
            if ism and a[2][0] == 'key':
                key = ('key', a[2][1])
            wr(('erase', a))
            nc = ('op', 'erase', c, key)
            st.mem[this] = nc
            return [(st, ('it', nc, ('step', key), this))]
        out = []
        for s, b in I.branch(st, I.haskey(c, a)):
            if b:
                wr(('erase', a), s)
                s.mem[this] = ('op', 'erase', c, ('key', a))
            out.append((s, ('i', 1 if b else 0)))
        return out
    if name == 'insert' and not ism:
        # insert(pos, first, last) / insert(pos, value)
        vs = [arg(i) for i in range(len(args))]
        if dq and len(vs) == 2 and vs[0][0] == 'it' and (vs[0][2] == ('begin',) or at_end(I, vs[0])):
            o = 'pushf' if vs[0][2] == ('begin',) else 'pushb'
            wr((o, vs[1]))
            st.mem[this] = nc = ('op', o, c, vs[1])
            return [(st, ('it', nc, ('inserted',), this))]
        wr(('insert',) + tuple(vs))
        if len(vs) == 3 and vs[0][0] == 'it' and at_end(I, vs[0]) and vs[1][0] == 'it' and vs[2][0] == 'it' and vs[1][2] in (('begin',), ('at', 0)) and at_end(I, vs[2]):
            nc = (c if c[0] == 'vec' else ('vec', ('all', c))) + (vs[1][1][1:] if vs[1][1][0] == 'vec' else (('all', vs[1][1]),))
        elif len(vs) == 2 and vs[0][0] == 'it' and at_end(I, vs[0]):
            nc = append(c, vs[1])
        else:
            nc = ('op', 'insert', c) + tuple(vs)
        st.mem[this] = nc
        return [(st, ('it', nc, ('inserted',), this))]
    if name == 'resize':
        wr(('resize',))
        st.mem[this] = EMPTY if args and arg(0) == ('i', 0) else ('op', 'resize', c, arg(0))
        return [(st, ('void',))]
    if name == 'data':
        return [(st, ('op', 'data', c))]
    return None


def replace(I, st, this, v, cls, fr, old):
    """the container gets a new value; handles in the old one go away"""
    from .core import heap_ptrs
    st.mem[this] = v
    ps = set()
    heap_ptrs(old, ps)
    return [(s, ('void',)) for s in I.collect(st, ps, fr, None)]


def at_end(I, it):
    if it[2][0] == 'at':
        l = I.shaped(it[1])
        return l is not None and it[2][1] == len(l)
    return it[2] == ('end',)


def bounds(I, c, this):
    l = I.shaped(c)
    if l is not None:
        return ('it', c, ('at', 0), this), ('it', c, ('at', len(l)), this)
    return ('it', c, ('begin',), this), ('it', c, ('end',), this)


def iterator(I, st, name, cls, this, args, at, fr, site, e):
    v = content(I, st, this, cls, fr, site, True)
    if name in ('operator*', 'operator->', 'base'):
        if v[0] != 'it':
            return [(st, ('ref', I.deref(v)) if name == 'operator*' else v)]
        if name == 'base':
            return [(st, v)]
        l = I.iter_loc(v)
        if v[3] is not None:
            touch(I, st, v[3], 'rd', None, site, fr)
        return [(st, ('ref', l) if name == 'operator*' else ('ptr', l))]
    if name in ('operator++', 'operator--'):
        n = I.step(v, 1 if name == 'operator++' else -1)
        st.mem[this] = n
        return [(st, ('ref', this) if not args else v)]
    if name in ('operator+', 'operator-') and args:
        w = L(I, st, args[0], at[0], fr, site)
        if w[0] == 'it':
            return [(st, diff(I, v, w))]
        if w[0] == 'i' and v[0] == 'it' and v[2][0] == 'at':
            return [(st, ('it', v[1], ('at', v[2][1] + (w[1] if name == 'operator+' else -w[1])), v[3]))]
        if w[0] == 'i' and v[0] == 'it':
            for _ in range(min(abs(w[1]), 3)):
                v = I.step(v, 1 if (w[1] > 0) == (name == 'operator+') else -1)
            return [(st, v)]
        if v[0] == 'it' and v[2] == ('begin',) and name == 'operator+' and w == I.size(v[1]):
            return [(st, ('it', v[1], ('end',), v[3]))]
        if v[0] == 'it' and v[2] == ('begin',) and name == 'operator+':
            return [(st, ('it', v[1], ('found', w), v[3]))]
        return [(st, ('op', name[8:], v, w))]
    if name == 'operator[]':
        return [(st, ('ref', ('[]', v[1], L(I, st, args[0], at[0], fr, site))))]
    if name in ('operator==', 'operator!='):
        w = L(I, st, args[0], at[0], fr, site)
        return [(st, I.cmp(name[8:], v, w))]
    if name == 'operator=':
        w = L(I, st, args[0], at[0], fr, site)
        I.store(st, this, w, cls, fr, site)
        return [(st, ('ref', this))]
    if name in ('operator+=', 'operator-='):
        w = L(I, st, args[0], at[0], fr, site)
        if w[0] == 'i' and v[0] == 'it' and v[2][0] == 'at':
            st.mem[this] = ('it', v[1], ('at', v[2][1] + (w[1] if name == 'operator+=' else -w[1])), v[3])
            return [(st, ('ref', this))]
        st.mem[this] = ('it', v[1], ('step', v[2], w), v[3])
        return [(st, ('ref', this))]
    return None


def partial(I, a, b):
    """is the range from a to b surely not always all of its container?"""
    def some(w):
        return w[0] == 'i' and w[1] > 0 or w[0] == 'op' and w[1] == '?:' and any(some(x) for x in w[3:])
    if a[0] != 'it' or b[0] != 'it':
        return a[0] == 'op' and a[1] == '+' and a[2][0] == 'it' and some(a[3])
    if a[2][0] == 'at' and a[2][1] > 0 or a[2] == ('step', ('begin',), 1) or a[2][0] == 'found' and some(a[2][1]):
        return True
    return b[2][0] == 'at' and not at_end(I, b)


def diff(I, a, b):
    if a[0] == 'it' and b[0] == 'it' and a[2][0] == 'at' and b[2][0] == 'at':
        return ('i', a[2][1] - b[2][1])
    if a[0] == 'it' and b[0] == 'it' and (a[2] == ('end',) or a[2][0] == 'at' and I.size(a[1]) == ('i', a[2][1])) and b[2][0] == 'uniq':
        return ('op', 'dups') + b[2][1:]
    if a[0] == 'it' and b[0] == 'it' and a[2] == ('end',) and b[2] == ('begin',):
        return I.size(a[1])
    return ('op', '-', a, b)


# ---------------------------------------------------------------------------------------------- algorithms
def rng(I, st, args, at, fr, site):
    """the container a range or iterator pair denotes; (content, loc, remaining args)"""
    t0 = I.tm(at[0])
    v0 = L(I, st, args[0], at[0], fr, site, True)
    if v0[0] == 'it' and len(args) > 1:
        v1 = L(I, st, args[1], at[1], fr, site, True)
        if v1[0] == 'it' and v1[1] == v0[1] and v0[2] == ('begin',) and v1[2] == ('end',):
            if v0[3] is not None:
                touch(I, st, v0[3], 'rd', None, site, fr)
            return v0[1], v0[3], 2
        if v1[0] == 'it' and v1[1] == v0[1] and v0[2][0] == 'at' and v1[2][0] == 'at':
            if v0[3] is not None:
                touch(I, st, v0[3], 'rd', None, site, fr)
            n = len(I.shaped(v0[1]))
            if (v0[2][1], v1[2][1]) == (0, n):
                return v0[1], v0[3], 2
            return ('op', 'slice', v0[1], v0[2][1], v1[2][1]), v0[3], 2
        return None
    if args[0][0] == 'ref':
        l = args[0][1]
        if l[0] == 'lit':
            return l[1], l, 1
        return I.load(st, l, at[0], fr, site), l, 1
    return v0, None, 1


def apply(I, st, f, args, fr, site):
    return I.call_value(f, args, st, fr, site)


def callable_arg(I, st, a, t, fr, site):
    return L(I, st, a, t, fr, site, True)


def element_arg(el):
    return ('ref', el) if el[0] != 'val' else el[1]


def member_proj(I, st, f, el, fr, site):
    return None


def same_relation(I, st, rest, rat, fr, site):
    """what a predicate for equal elements accepts: () if exactly the same elements, else the accepted orders of two elements"""
    if not rest:
        return ()
    f = callable_arg(I, st, rest[0], rat[0], fr, site)
    if f[0] not in ('clo', 'fn', 'bindf'):
        return ()
    q = st.copy()
    xs = (('tmp', next(I.ids)), ('tmp', next(I.ids)))
    for i, x in enumerate(xs):
        q.mem[x] = ('sym', 'rel', i)
    base = dict(q.pc)

    def val(v, e):
        if v[0] == 'sym' and v[1] == 'rel':
            return e[v[2]]
        r = {val(y, e) for y in v if isinstance(y, tuple)} - {None}
        return r.pop() if len(r) == 1 else None

    def atom(a, e):
        if a[0] in ('lt', 'eq'):
            x, y = val(a[1], e), val(a[2], e)
            if x is not None and y is not None:
                return x < y if a[0] == 'lt' else x == y
        return None
    acc = ''
    paths = []
    for s, v in apply(I, q, f, [('ref', xs[0]), ('ref', xs[1])], fr, site):
        if isinstance(v, Throw):
            return (('unclear',),)
        for s2, b in I.branch(s, v):
            paths.append(([(a, p) for a, p in s2.pc.items() if a not in base], b))
    for k, e in (('<', (0, 1)), ('=', (1, 1)), ('>', (1, 0))):
        for li, b in paths:
            vs = [atom(a, e) for a, p in li]
            if None in vs:
                return (('unclear',),)
            if b and all(x == p for x, (a, p) in zip(vs, li)):
                acc += k
    return () if acc == '=' else ((acc,),)


def algorithm(I, st, ns, name, args, at, fr, site, e):
    if not args:
        return None
    if name in ('next', 'prev', 'advance'):
        v = L(I, st, args[0], at[0], fr, site, True)
        d = L(I, st, args[1], at[1], fr, site) if len(args) > 1 else ('i', 1)
        if v[0] == 'it' and d[0] == 'i' and len(args) < 3:
            for _ in range(min(abs(d[1]), 8)):
                v = I.step(v, 1 if (d[1] > 0) == (name != 'prev') else -1)
            if name == 'advance':
                st.mem[args[0][1]] = v
                return [(st, ('void',))]
            return [(st, v)]
        return None
    r = rng(I, st, args, at, fr, site)
    if r is None:
        return None
    c, cloc, used = r
    rest = args[used:]
    rat = at[used:]
    # drop std::identity projections
    while rest and I.tm(rat[-1]) == 'std::identity':
        rest, rat = rest[:-1], rat[:-1]
    if name in ('find_if', 'find_if_not', 'any_of', 'all_of', 'none_of', 'count_if', 'for_each', 'find', 'contains', 'count'):
        if len(rest) < 1:
            return None
        if len(rest) > 2:
            return None
        f = callable_arg(I, st, rest[0], rat[0], fr, site)
        proj = callable_arg(I, st, rest[1], rat[1], fr, site) if len(rest) > 1 else None
        if proj is not None and proj[0] not in ('fld', 'clo', 'fn'):
            return None
        byval = name in ('find', 'contains', 'count')
        neg = name in ('find_if_not', 'all_of')

        def body(s, el):
            if proj is None:
                return body1(s, el)
            out = []
            for s2, v in apply(I, s, proj, [element_arg(el)], fr, site):
                if isinstance(v, Throw):
                    out.append((s2, 'throw', v))
                else:
                    out += body1(s2, v[1] if v[0] == 'ref' else ('val', v))
            return out

        def body1(s, el):
            out = []
            if byval:
                et = e.get('t')
                ev = I.load(s, el, elemtype(I, I.p.strip(at[0])), fr, site) if el[0] != 'val' else el[1]
                rs = [(s, I.cmp('==', ev, f))]
            else:
                rs = apply(I, s, f, [element_arg(el)], fr, site)
            for s2, v in rs:
                if isinstance(v, Throw):
                    out.append((s2, 'throw', v))
                    continue
                if name == 'for_each':
                    out.append((s2, 'norm', None))
                    continue
                if v[0] == 'ref':
                    v = I.load(s2, v[1], 'unsigned long', fr, site)
                    if v[0] not in ('b', 'B'):
                        v = I.cmp('!=', v, ('i', 0))
                for s3, b in I.branch(s2, v):
                    if name in ('count_if', 'count'):
                        if b:
                            s3.mem[cnt] = I.arith('+', s3.mem[cnt], ('i', 1))
                        out.append((s3, 'norm', None))
                    elif b != neg:
                        out.append((s3, 'ret', ('found', el)))
                    else:
                        out.append((s3, 'norm', None))
            return out
        cnt = I.tmp(st)
        if name in ('count_if', 'count'):
            st.mem[cnt] = ('i', 0)
        res = []
        for s, k, v in I.iterate(st, fr, c, cloc, site, body):
            if k == 'throw':
                res.append((s, v))
            elif k == 'ret':
                el = v[1]
                if name in ('find_if', 'find_if_not', 'find'):
                    key = el[2] if el[0] == '[]' else ('elem', el[1])
                    pos = I.shaped(c)
                    base, off = (c[2], c[3]) if c[0] == 'op' and c[1] == 'slice' else (c, 0)
                    if pos is not None:
                        res.append((s, ('it', base, ('at', off + pos.index(el)), cloc)))
                        continue
                    res.append((s, ('it', c, ('found', key), cloc)))
                else:
                    res.append((s, boolv(name in ('any_of', 'contains'))))
            else:
                if name in ('find_if', 'find_if_not', 'find') and I.shaped(c) is not None:
                    base, off = (c[2], c[4]) if c[0] == 'op' and c[1] == 'slice' else (c, len(I.shaped(c)))
                    res.append((s, ('it', base, ('at', off), cloc)))
                elif name in ('find_if', 'find_if_not', 'find'):
                    res.append((s, ('it', c, ('end',), cloc)))
                elif name in ('any_of', 'contains'):
                    res.append((s, F))
                elif name in ('all_of', 'none_of'):
                    res.append((s, T))
                elif name in ('count_if', 'count'):
                    res.append((s, s.mem.pop(cnt)))
                else:
                    res.append((s, f if ns != 'ranges' else ('sym', 'foreach', next(I.ids))))
        # counts: zero exactly when there is no such element
        if name in ('count_if', 'count'):
            fix = []
            for s, v in res:
                if not isinstance(v, Throw) and v[0] == 'op' and v[1] == 'count':
                    atom = ('ex', v[2], v[3])
                    d = I.decide(s, atom)
                    if d is None:
                        s2 = s.copy()
                        s.pc[atom] = True
                        s2.pc[atom] = False
                        s.pc[('eq', v, ('i', 0))] = False
                        fix += [(s, v), (s2, ('i', 0))]
                        continue
                fix.append((s, v))
            res = fix
        return res
    if name in ('transform', 'copy', 'copy_if', 'move'):
        if not rest:
            return None
        out = callable_arg(I, st, rest[0], rat[0], fr, site)
        if out[0] != 'backins':
            return None
        f = callable_arg(I, st, rest[1], rat[1], fr, site) if len(rest) > 1 else None
        ol, ot = out[1], out[2]

        def body2(s, el):
            ev = I.load(s, el, elemtype(I, I.p.strip(at[0])), fr, site) if el[0] != 'val' else el[1]
            res = []
            if name == 'transform':
                rs = apply(I, s, f, [element_arg(el)], fr, site)
            elif name == 'copy_if':
                rs = []
                for s2, v in apply(I, s, f, [element_arg(el)], fr, site):
                    if isinstance(v, Throw):
                        rs.append((s2, v))
                        continue
                    for s3, b in I.branch(s2, v):
                        rs.append((s3, ev if b else None))
            else:
                rs = [(s, ev)]
            for s2, v in rs:
                if isinstance(v, Throw):
                    res.append((s2, 'throw', v))
                    continue
                if v is not None:
                    if v[0] == 'ref':
                        v = I.load(s2, v[1], elemtype(I, ot), fr, site)
                    if I.shared(ol):
                        I.emit(s2, 'wr', ol, ('push', v), site, fr)
                    s2.mem[ol] = append(I.peek(s2, ol), v)
                res.append((s2, 'norm', None))
            return res
        res = []
        for s, k, v in I.iterate(st, fr, c, cloc, site, body2):
            res.append((s, v) if k == 'throw' else (s, ('sym', 'outit', next(I.ids))))
        return res
    if name in ('sort', 'stable_sort', 'shuffle', 'reverse', 'rotate'):
        extra = L(I, st, rest[-1], rat[-1], fr, site, True) if rest else None
        if cloc is None:
            return None
        if name == 'shuffle' and rest:
            draw(I, st, rest[-1], site, fr)
        touch(I, st, cloc, 'wr', (name,), site, fr)
        I.emit(st, 'perm', name, (c, extra), site, fr)
        st.mem[cloc] = ('op', 'perm', c, name, extra if name == 'shuffle' else None)
        return [(st, ('it', st.mem[cloc], ('end',), cloc))]
    if name == 'unique':
        pos = ('uniq', canon(c)) + same_relation(I, st, rest, rat, fr, site)
        return [(st, ('it', c, pos, cloc))]
    if name == 'adjacent_find':
        return [(st, ('it', c, ('adj', canon(c)) + same_relation(I, st, rest, rat, fr, site), cloc))]
    if name == 'distance':
        return [(st, I.size(c))]
    return None


def optional(I, st, name, cls, this, args, at, fr, site, e):
    v = content(I, st, this, cls, fr, site)
    if name in ('has_value', 'operator bool'):
        return [(st, F if v == NULL else T if v[0] == 'some' else ('B', ('nn', v), True))]
    if name in ('value', 'operator*', 'operator->'):
        if v[0] == 'some':
            l = I.tmp(st)
            I.store(st, l, v[1], I.p.targ(cls), fr, None, True)
            return [(st, ('ref', l) if name != 'operator->' else ('ptr', l))]
        return [(st, ('ref', ('*', v)) if name != 'operator->' else ('ptr', ('*', v)))]
    if name == 'operator=':
        w = L(I, st, args[0], at[0], fr, site)
        if I.tm(at[0]) not in ('std::optional', 'std::nullopt_t'):
            w = ('some', w)
        I.store(st, this, w, cls, fr, site)
        return [(st, ('ref', this))]
    if name == 'reset':
        I.store(st, this, NULL, cls, fr, site)
        return [(st, ('void',))]
    return None


# ---------------------------------------------------------------------------------------------- free functions
def period(I, t):
    t = I.p.strip(t)
    m = re.search(r'ratio<(\d+)(?:, (\d+))?>', t)
    return Fraction(int(m.group(1)), int(m.group(2) or 1)) if m else Fraction(1) if 'chrono::duration<' in t else None


def duration(I, t, v, at):
    """durations are kept without their unit (numbers: in milliseconds), so that lossless conversions change nothing"""
    if I.tm(at) in ('std::chrono::duration', 'std::chrono::time_point'):
        return v
    p = period(I, t)
    if p is None:
        return v
    if v[0] == 'i':
        x = v[1] * p * 1000
        return ('i', int(x)) if x.denominator == 1 else ('op', 'dur', p.numerator, p.denominator, v)
    if v[0] == 'op' and v[1] == 'count' and Fraction(v[2], v[3]) == p:
        return v[4]
    return ('op', 'dur', p.numerator, p.denominator, v)


def counted(I, t, v):
    p = period(I, t)
    if p is None:
        return v
    if v[0] == 'i':
        x = Fraction(v[1], 1000) / p
        return ('i', int(x))
    if v[0] == 'op' and v[1] == 'dur' and Fraction(v[2], v[3]) == p:
        return v[4]
    return ('op', 'count', p.numerator, p.denominator, v)


def free(I, st, q, name, fn, args, at, fr, site, e):
    def arg(i):
        return L(I, st, args[i], at[i], fr, site)
    if q in ('std::move', 'std::forward', 'std::as_const', 'std::move_if_noexcept'):
        return [(st, args[0])]
    if q in ('std::make_shared', 'std::make_unique'):
        t = fn['ta'][0]
        h = I.heap(t)
        out = []
        if I.tm(t) in ('std::atomic',):
            st.mem[h] = arg(0) if args else ('i', 0)
            return [(st, ('ptr', h))]
        for s, v in build(I, st, t, args, at, fr, site, h):
            if isinstance(v, Throw):
                out.append((s, v))
            else:
                I.emit(s, 'newobj', h, I.p.strip(t), site, fr)
                out.append((s, ('ptr', h)))
        return out
    if q in ('std::static_pointer_cast', 'std::dynamic_pointer_cast', 'std::const_pointer_cast'):
        return [(st, arg(0))]
    if q in ('std::ref', 'std::cref'):
        return [(st, ('refw', args[0][1] if args[0][0] == 'ref' else aloc(I, st, args[0], at[0], fr)))]
    if q in ('std::bind_front', 'std::bind'):
        vs = []
        for a, t in zip(args, at):
            v = L(I, st, a, t, fr, site)
            vs.append(v)
        return [(st, ('bindf', vs[0], tuple(vs[1:])))]
    if q in ('std::invoke',):
        f = arg(0)
        return I.call_value(f, list(args[1:]), st, fr, site, e.get('t'))
    if q in ('std::back_inserter', 'std::front_inserter'):
        return [(st, ('backins', args[0][1], at[0]))]
    if q in ('std::this_thread::sleep_for', 'std::this_thread::sleep_until', 'std::this_thread::yield'):
        I.emit(st, 'sleep', arg(0) if args else None, None, site, fr)
        return [(st, ('void',))]
    if q == 'std::this_thread::get_id':
        return [(st, ('op', 'tid', ('self',)))]
    if q in ('std::begin', 'std::cbegin', 'std::end', 'std::cend', 'std::size', 'std::empty', 'std::ssize'):
        return container(I, st, q[5:].replace('ssize', 'size'), I.tm(at[0]), I.p.strip(at[0]), args[0][1] if args[0][0] == 'ref' else aloc(I, st, args[0], at[0], fr), [], [], fr, site, e)
    if q in ('std::next', 'std::prev'):
        return [(st, I.step(arg(0), 1 if q == 'std::next' else -1))]
    if q in ('std::distance',):
        a, b = arg(0), arg(1)
        return [(st, diff(I, b, a))]
    if q in ('std::exchange',):
        old = arg(0)
        I.store(st, args[0][1], arg(1), at[0], fr, site)
        return [(st, old)]
    if q in ('std::swap',):
        a, b = arg(0), arg(1)
        I.store(st, args[0][1], b, at[0], fr, site)
        I.store(st, args[1][1], a, at[1], fr, site)
        return [(st, ('void',))]
    if q == 'std::iter_swap':
        its = [arg(0), arg(1)]
        if all(x[0] == 'it' for x in its):
            ls = [I.deref(x) for x in its]
            t = next((I.p.strip(I.p.targ(I.p.strip(x), 0) or '?') for x in at if I.p.targ(I.p.strip(x), 0)), None)
            if t and t.endswith('*'):
                t = I.p.strip(t[:-1].strip())
            vs = [I.load(st, l, t, fr, site) for l in ls]
            I.store(st, ls[0], vs[1], t, fr, site)
            I.store(st, ls[1], vs[0], t, fr, site)
            return [(st, ('void',))]
    if q in ('std::min', 'std::max'):
        a, b = arg(0), arg(1)
        out = []
        for s, c in I.branch(st, I.cmp('<', a, b)):
            out.append((s, (a if c else b) if q == 'std::min' else (b if c else a)))
        return out
    if q in ('std::erase_if', 'std::erase'):
        cl = args[0][1]
        c = I.peek(st, cl)
        I.emit(st, 'wr', cl, ('erase_if',), site, fr)
        st.mem[cl] = ('op', 'erase_if', c, next(I.ids))
        return [(st, ('op', 'erased', c))]
    if name.startswith('operator""'):
        return [(st, arg(0) if args else ('op', 'literal', tuple(str(x) for x in fn.get('ta') or ()), name))]
    if name.startswith('operator') and args:
        op = name[8:].strip()
        if op in ('==', '!=', '<', '>', '<=', '>='):
            a, b = arg(0), arg(1)
            return [(st, I.cmp(op, a, b))]
        if op == '<=>':
            return [(st, ('op', '<=>', arg(0), arg(1)))]
        if op == '+' and (I.tm(at[0]) in STRINGS or len(at) > 1 and I.tm(at[1]) in STRINGS):
            return [(st, cat(arg(0), arg(1)))]
        if op == '-' and len(args) == 2:
            a, b = arg(0), arg(1)
            if a[0] == 'it' or b[0] == 'it':
                return [(st, diff(I, a, b))]
            return [(st, I.arith('-', a, b))]
        if op == '+' and len(args) == 2:
            return [(st, I.arith('+', arg(0), arg(1)))]
        if op == '<<' and len(args) == 2:
            o = args[0][1] if args[0][0] == 'ref' else None
            I.emit(st, 'out', text(I, arg(1), at[1]) if I.tm(at[1]) != 'func' else ('manip',), o, site, fr)
            return [(st, ('ref', o))] if o is not None else None
        if op.startswith('""'):
            return [(st, arg(0) if args else ('i', 0))]
    if q.startswith('std::to_string'):
        return [(st, ('op', 'to_string', arg(0)))]
    if q == 'std::from_chars':
        a, b = arg(0), arg(1)
        src, ty = a, I.p.strip(at[2])
        base = arg(3) if len(args) > 3 else ('i', 10)
        I.store(st, args[2][1], ('op', 'parsed', src, ty, base, b), at[2], fr, site)
        I.emit(st, 'fromchars', (src, b), ('rest',) + tuple(arg(i) for i in range(3, len(args))), site, fr)
        return [(st, ('rec', 'std::from_chars_result', (('ptr', ('op', 'convend', src, ty, base, b)), ('ec', ('op', 'convec', src, ty, base, b)))))]
    n = q[5:] if q.startswith('std::') else q
    if n in ('atoi', 'atol', 'atoll') and len(args) == 1:
        return [(st, ('op', 'cnum', n, arg(0), ('i', 10)))]
    if n in ('strtol', 'strtoul', 'strtoll', 'strtoull') and len(args) == 3:
        if arg(1)[0] == 'null':
            return [(st, ('op', 'cnum', n, arg(0), arg(2)))]
    if n in ('stoi', 'stol', 'stoll', 'stoul', 'stoull') and q != n:
        if len(args) == 1 or args[1][0] == 'null' or arg(1)[0] == 'null':
            base = arg(2) if len(args) > 2 else ('i', 10)
            v = ('op', 'cnum', n, arg(0), base)
            out = []
            for s2, ok in I.branch(st, ('B', ('ok', 'snum', n, arg(0), base), True)):
                if ok:
                    out.append((s2, v))
                else:
                    out.append((s2, Throw('std::invalid_argument', None, site, fr.fn['n'])))
            return out
    if q in ('std::find_if', 'std::find_if_not', 'std::any_of', 'std::all_of', 'std::none_of', 'std::count_if', 'std::for_each', 'std::find', 'std::count',
             'std::transform', 'std::copy', 'std::copy_if', 'std::sort', 'std::stable_sort', 'std::shuffle', 'std::reverse', 'std::unique', 'std::adjacent_find'):
        return algorithm(I, st, 'std', q[5:], args, at, fr, site, e)
    if q in ('std::make_pair',):
        t = e.get('t')
        return [(st, ('rec', I.p.strip(t), (('first', arg(0)), ('second', arg(1)))))]
    if q in ('std::make_optional',):
        return [(st, ('some', arg(0)))]
    if q == 'std::endl' or q == 'std::flush':
        return [(st, args[0])]
    if q in ('std::chrono::duration_cast', 'std::chrono::floor', 'std::chrono::ceil', 'std::chrono::round'):
        a, b = period(I, at[0]), period(I, fn.get('rt') or e.get('t', '?'))
        v = arg(0)
        return [(st, v if a is None or b is None or a % b == 0 else ('op', 'trunc', b.numerator, b.denominator, v) if v[0] != 'i' else ('i', int(v[1] / 1000 / b) * b * 1000))]
    if q.startswith('std::chrono::operator') and q[21:] in ('*', '/', '%', '+', '-') and len(args) == 2:
        vs = tuple(v if I.tm(t) in ('std::chrono::duration', 'std::chrono::time_point') else ('op', 'scalar', v) for v, t in ((arg(i), at[i]) for i in range(2)))
        if q[21:] == '*' and ('op', 'scalar', ('i', 1)) in vs or q[21:] == '/' and vs[1] == ('op', 'scalar', ('i', 1)) or q[21:] in '+-' and vs[1] == ('i', 0):
            return [(st, vs[0] if vs[0][:2] != ('op', 'scalar') else vs[1])]
        return [(st, ('op', 'chrono' + q[21:]) + vs)]
    if q in ('std::current_exception', 'std::make_error_code'):
        return [(st, ('op', q))]
    if q == 'std::rethrow_exception':
        return [(st, Throw('user', None, site, fr.fn['n']))]
    if q in ('std::terminate', 'abort', 'std::abort', 'exit'):
        I.emit(st, 'terminate', q, None, site, fr)
        return [(st, Throw('terminate', None, site, fr.fn['n']))]
    if q in ('std::lock',):
        for a in args:
            I.acquire(st, a[1], 'x', site, fr)
        return [(st, ('void',))]
    return None


def pugi(I, st, q, name, cls, this, args, at, fr, site, e):
    ov = content(I, st, this, cls, fr, site, True) if this is not None else None
    vs = tuple(L(I, st, a, t, fr, site, True) for a, t in zip(args, at))
    if name == 'operator=' and I.p.strip(at[0]).replace('const ', '').startswith('pugi::'):
        I.store(st, this, vs[0], cls, fr, site)
        return [(st, ('ref', this))]
    short = q[len('pugi::'):]
    if short.endswith('::set_value') or short == 'xml_attribute::operator=':
        vs += (('ty', I.p.strip(at[0])),)
    v = ('op', short, ov) + vs
    mut = short.split('::')[-1] in ('append_child', 'append_attribute', 'set_value', 'set_name', 'reset', 'load_file', 'prepend_child', 'prepend_attribute',
                                    'remove_child', 'remove_attribute', 'load_string', 'load_buffer', 'set', 'append_copy') or short in ('xml_attribute::operator=',)
    look = short in ('xml_node::child', 'xml_node::attribute', 'xml_node::first_child', 'xml_node::children', 'xml_attribute::value', 'xml_node::name') and 'append_' in repr(ov)
    if look or mut or short.endswith('save_file') or short.endswith('::save'):
        n = next(I.ids)
        v = ('op', short, ov, n) + vs
        I.emit(st, 'xml', v, (short, ov, vs, this, n), site, fr)
    if short.endswith('operator!'):
        return [(st, ('B', ('t', ('op', 'xml bool', ov)), False))]
    if short.endswith('unspecified_bool_type') or 'operator void (*)' in short:
        return [(st, ('B', ('t', ('op', 'xml bool', ov)), True))]
    if short.endswith('operator bool') or short.endswith('::empty'):
        return [(st, ('B', ('t', v), True))]
    if e.get('t') == 'bool' and not mut:
        return [(st, ('B', ('t', v), True))]
    return [(st, v)]
