"""C07 token arithmetic."""
from . import check
from ..program import Unrecognised
from ..mod import *
from ..rep import show_trace, short
from .. import evalv

SELF = ('O', 'self')
P0 = ('init', ('P', 0))


def field_returned(A, qual):
    """the field that an accessor returns"""
    f = A.p.one(qual)
    out = set()
    for st, v in A.M.summary(f).paths:
        if isinstance(v, Throw):
            continue
        if v[0] == 'init':
            out.add(v[1])
        elif v[0] == 'aload':
            out.add(v[1])
        else:
            o = origin(v)
            out.add(o)
    if len(out) != 1 or None in out:
        raise Unrecognised('%s does not return one field' % qual)
    l = out.pop()
    if l[0] != '.' or l[1] != SELF:
        raise Unrecognised('%s does not return a field of the object' % qual)
    return l


def versions(vals, counter, out):
    """the different versions of the counter's value that occur in values and facts"""
    for v in vals:
        if not isinstance(v, tuple) or not v:
            continue
        if v[0] in ('init', 'sym') and origin(v) == counter:
            out.add(v)
        elif v[0] == 'op' and v[1] == 'lv' and origin(v) == counter:
            out.add(v)
        else:
            versions([y for y in v if isinstance(y, tuple)], counter, out)


def grid(pc, extra):
    cs = {0, 1, 2, 3, 7}
    raw = set()
    for a in pc:
        evalv.consts(a, raw)
    for v in extra:
        evalv.consts(v, raw)
    for c in raw:
        cs |= {c - 1, c, c + 1}
    top = evalv.W - 1
    cs |= {top, top - 1, top - 2, top - 3, 1 << 63, (1 << 63) - 1, (1 << 32) - 1, 1 << 32, (1 << 31), (1 << 31) - 1}
    return sorted({c % evalv.W for c in cs})


def is_action_call(A, e):
    return e.kind == 'call' and A.p.derives(A.p.functions[e.a].get('cls') or '?', 'ptne::IActionsExecutor')


def counter_writes(evs, counter):
    top = [e for e in evs if e.kind == 'wr' and e.a == counter]
    inloop = [e for l in evs if l.kind == 'loop' for e in flat([l]) if e.kind == 'wr' and e.a == counter]
    return top, inloop


@check('C07')
def c07(ctx, A):
    ctx.rule('for every path of the operations that change a place\'s token count, the path condition and the written value, as extracted from the '
             'source, are tabulated over all boundary values of count and amount (all orderings against 0, the constants in the code and the '
             'largest count): entering adds exactly the amount and refuses 0 and overflow, leaving subtracts exactly the amount (amount 0 empties the '
             'place) and refuses more than is there; a refusal is a PTN_Exception, changes nothing and starts no action')
    ctx.rule('no other operation of a place writes its token count; a place starts with the configured number; an input event enters exactly one token')
    counter = field_returned(A, 'ptne::Place::getNumberOfTokens')
    ctx.anchor('token count is ptne::Place::%s' % counter[2], tuple(A.p.one('ptne::Place::getNumberOfTokens')['l']))
    top = evalv.W - 1
    spec = {
        'enterPlace': (lambda n, t: t == 0 or n + t > top, lambda n, t: n + t),
        'exitPlace': (lambda n, t: t > n, lambda n, t: n - t if t else 0),
        'setNumberOfTokens': (lambda n, t: False, lambda n, t: t),
    }
    for name, (err, exp) in spec.items():
        f = A.p.one('ptne::Place::' + name)
        s = A.M.summary(f)
        site = tuple(f['l'])
        cells = 0
        hit_ok = hit_err = False
        for st, v in s.paths:
            evs = st.events()
            wr, inl = counter_writes(evs, counter)
            if inl:
                ctx.check('path changes the count exactly', None, None, '%s writes the count inside a loop' % name, inl[0].site)
                continue
            olds = [list(s.interp.wr_old.get((e.a, e.b, e.site), [])) for e in wr]
            if any(len(o) != 1 for o in olds):
                cand = [o for o in olds if len(o) != 1]
                ctx.check('path changes the count exactly', None, None, '%s: the old value of a write is not known' % name, wr[0].site)
                continue
            chain = all(olds[i + 1][0] == wr[i].b for i in range(len(wr) - 1))
            base = olds[0][0] if wr else st.mem.get(counter, ('init', counter))
            final = wr[-1].b if wr else base
            if not chain:
                ctx.check('path changes the count exactly', None, None, '%s: the count may change between two writes' % name, wr[0].site)
                continue
            vs = set()
            versions(list(st.pc) + [final, base], counter, vs)
            vs.discard(base)
            stale = sorted(vs, key=repr)
            acts = [e for e in evs if is_action_call(A, e)]
            known, unk = [], []
            for a, pol in st.pc.items():
                try:
                    evalv.atom(a, {x: 1 for x in [base, P0] + stale})
                    known.append((a, pol))
                except evalv.Unknown:
                    unk.append(a)
            fuzzy = [a for a in unk if evalv.mentions(a, set([base, P0] + stale))]
            g = grid([a for a, _ in known], [final])
            bad = None
            for n in g:
                for t in g:
                    for z in (g if stale else [0]):
                        env = {base: n, P0: t}
                        for x in stale:
                            env[x] = z
                        if base == P0 or not all(evalv.atom(a, env) == pol for a, pol in known):
                            continue
                        cells += 1
                        try:
                            new = evalv.ev(final, env)
                        except evalv.Unknown:
                            bad = (None, 'the new count %s is not understood' % short(final))
                            break
                        r = isinstance(v, Throw)
                        mine = r and A.p.derives(v.typ, 'ptne::PTN_Exception')
                        expired = r and 'Expired' in v.typ
                        if err(n, t):
                            hit_err = True
                            if not r:
                                bad = (False, 'with count %d and amount %d it must fail, but succeeds with count %d' % (n, t, new))
                            elif not mine or expired and not wr and False:
                                bad = (False, 'with count %d and amount %d it must fail with a PTN_Exception, not %s' % (n, t, v.typ)) if not expired else None
                            elif new != n:
                                bad = (False, 'with count %d and amount %d it fails but leaves count %d' % (n, t, new))
                            elif acts and not expired:
                                bad = (False, 'with count %d and amount %d it fails but has started the action' % (n, t))
                        elif not r:
                            hit_ok = True
                            if new != exp(n, t):
                                bad = (False, 'with count %d and amount %d the new count is %d instead of %d' % (n, t, new, exp(n, t)))
                            elif stale and z != n and not wr:
                                pass
                        else:
                            if mine and not expired and not any(e.kind == 'callthrow' for e in evs):
                                bad = (False, 'with count %d and amount %d it fails with %s without a reason' % (n, t, v.typ))
                            elif new not in (n, exp(n, t)):
                                bad = (False, 'with count %d and amount %d it fails and leaves count %d' % (n, t, new))
                        if bad:
                            break
                    if bad:
                        break
                if bad:
                    break
            if bad and bad[0] is False and fuzzy:
                bad = (None, bad[1] + ' (a condition is not understood: %s)' % short(fuzzy[0]))
            ctx.check('path changes the count exactly', True if not bad else bad[0], '%s:%s' % (name, bad and bad[1].split(' it ')[-1][:30].replace(' ', '-')),
                      '%s: %s' % (name, bad and bad[1]), (wr[0].site if wr else (v.site if isinstance(v, Throw) and v.site else site)), show_trace(st, v))
        ctx.count('table_cells', cells)
        ctx.count('operations_tabulated')
        if not hit_ok:
            ctx.check('operation can succeed', False, 'never:' + name, '%s can never succeed' % name, site)
    # who may write
    allowed = set(spec)
    for f in A.p.functions.values():
        if norm(f['n']).startswith('ptne::Place::') and f.get('cls') == 'ptne::Place' and 'b' in f and f.get('access') == 'public' \
                and f.get('kind') not in ('ctor', 'dtor') and not f['bn'].startswith('~') and f['bn'] not in allowed:
            s = A.M.summary(f)
            w = [e for st, v in s.paths for e in flat(st.events()) if e.kind in ('wr', 'ast', 'armw') and e.a == counter]
            ctx.check('other operation leaves the count alone', not w, 'writer:' + f['bn'], '%s changes the token count' % f['bn'], w[0].site if w else tuple(f['l']),
                      sample='%s does not write the count' % f['bn'])
    ctor = [f for f in A.p.functions.values() if f.get('cls') == 'ptne::Place' and f.get('kind') == 'ctor' and len(f['p']) == 2 and 'b' in f]
    if not ctor:
        raise AnalysisBroken('the constructor of ptne::Place was not found')
    f = ctor[0]
    I = A.M.interp()
    st = St()
    for st, v in I.start(f, SELF, I.sym_args(f, st), st):
        if isinstance(v, Throw):
            continue
        c = I.peek(st, counter)
        want = ('init', ('.', ('P', 0), 'initialNumberOfTokens'))
        ctx.check('initial count', True if c == want else (False if c[0] in ('i', 'undef') or origin(c) not in (None, want[1]) or c[0] == 'op' and c[1] in ('cast', '+', '-', '*', '/') else None), 'initial',
                  'a new place starts with %s tokens instead of the configured number' % short(c), tuple(f['l']), show_trace(st, v),
                  sample='constructor: count = properties.initialNumberOfTokens')
    # an input event
    f = A.p.one('ptne::PlacesManager::incrementInputPlace')
    s = A.M.summary(f)
    for st, v in s.paths:
        evs = list(flat(st.events()))
        ent = [e for e in evs if e.kind == 'call' and norm(A.p.functions[e.a]['n']) == 'ptne::Place::enterPlace']
        oth = [e for e in evs if e.kind == 'call' and norm(A.p.functions[e.a]['n']) in ('ptne::Place::exitPlace', 'ptne::Place::setNumberOfTokens')]
        if isinstance(v, Throw):
            ok = len(ent) <= 1
        else:
            ok = len(ent) == 1 and not oth
        if ent and ent[0].b[1] and ent[0].b[1][0] != ('i', 1):
            ok = False if ent[0].b[1][0][0] == 'i' else (None if ok else ok)
        ctx.check('input event enters one token', ok, 'increment', 'an input event does not enter exactly one token', ent[0].site if ent else tuple(f['l']), show_trace(st, v))
        for e in ent:
            ok = has(e.b[0], P0) or has(e.b[0], ('P', 0))
            ctx.check('input event enters the named place', True if ok else None, 'increment-place', 'the place is not looked up by the given name', e.site, show_trace(st, v))
