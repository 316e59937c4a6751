"""Path-sensitive, interprocedural abstract interpreter over the lowered program.

Domain: value numbering over symbolic locations (who points where), a set of branch facts per trace,
the set of locks held, and the ordered effects of the trace (reads, writes, lock operations, callbacks,
thread operations).  Traces are partitioned per branch; calls are inlined; loop bodies are summarised once
(for a symbolic element) and never unrolled, except over literal lists.  No solver and no execution: facts
are compared by their canonical form only."""
import re, sys
from collections import namedtuple
from itertools import count
from .program import AnalysisBroken, TooMany

sys.setrecursionlimit(20000)

Ev = namedtuple('Ev', 'kind a b site held fn')


class Throw:
    __slots__ = ('typ', 'val', 'site', 'fn')

    def __init__(self, typ, val=None, site=None, fn=None):
        self.typ, self.val, self.site, self.fn = typ, val, site, fn

    def __repr__(self):
        return 'Throw(%s@%s)' % (self.typ, self.site)


class LoopInfo:
    """summary of a loop: back = one iteration that goes on, exits = iterations that leave the loop early"""
    __slots__ = ('id', 'kind', 'dom', 'back', 'exits', 'site', 'fn', 'elem')

    def __repr__(self):
        return 'Loop%d(%s)' % (self.id, self.kind)


class Frame:
    __slots__ = ('fid', 'fn', 'this', 'caps', 'depth', 'up')

    def __init__(self, fid, fn, this, caps, depth, up):
        self.fid, self.fn, self.this, self.caps, self.depth, self.up = fid, fn, this, caps, depth, up


class St:
    __slots__ = ('mem', 'pc', 'ev', 'held', 'temps', 'scopes', 'exc', 'ep')

    def __init__(self):
        self.mem, self.pc, self.ev, self.held, self.temps, self.scopes, self.exc = {}, {}, None, (), (), (), ()
        self.ep = {}

    def copy(self):
        s = St.__new__(St)
        s.mem, s.pc, s.ev, s.held = dict(self.mem), dict(self.pc), self.ev, self.held
        s.temps, s.scopes, s.exc, s.ep = self.temps, self.scopes, self.exc, self.ep
        return s

    def events(self, upto=None):
        out = []
        e = self.ev
        while e is not None and e is not upto:
            out.append(e[1])
            e = e[0]
        out.reverse()
        return out


T, F = ('b', True), ('b', False)
NULL = ('null',)
EMPTY = ('vec',)


def has_elem(loc):
    while loc[0] == '.':
        loc = loc[1]
    return loc[0] == '[]'


def root(loc):
    while loc[0] in ('.', '[]'):
        if loc[0] == '[]':
            o = origin(loc[1])
            if o is None:
                return ('val',)
            loc = o
        else:
            loc = loc[1]
    return loc


def origin(c):
    """the location a container value came from"""
    while True:
        if c[0] == 'init':
            return c[1]
        if c[0] == 'sym' and len(c) > 3:
            return c[3]
        if c[0] == 'op' and c[1] in ('put', 'erase', 'pushb', 'pushf', 'popb', 'popf', 'perm', 'lv'):
            c = c[2]
            continue
        if c[0] == 'vec':
            for p in c[1:]:
                if p[0] == 'all':
                    c = p[1]
                    break
            else:
                return None
            continue
        return None


def has(v, x):
    if v == x:
        return True
    if isinstance(v, tuple):
        for y in v:
            if isinstance(y, tuple) and has(y, x):
                return True
    return False


def subst(v, m):
    """replaces sub-values"""
    if isinstance(v, tuple):
        if v in m:
            return m[v]
        r = tuple(subst(y, m) if isinstance(y, tuple) else y for y in v)
        return r if r != v else v
    return v


def heap_ptrs(v, out):
    if isinstance(v, tuple) and v:
        if v[0] == 'weak':
            return
        if v[0] == 'ptr' and v[1][0] == 'heap':
            out.add(v)
            return
        for y in v:
            if isinstance(y, tuple):
                heap_ptrs(y, out)


def strong_has(v, x):
    if v == x:
        return True
    if isinstance(v, tuple) and v:
        if v[0] in ('weak', 'init', '*'):
            return False
        for y in v:
            if isinstance(y, tuple) and strong_has(y, x):
                return True
    return False


def canon(v):
    """forgets when a volatile value was read"""
    if isinstance(v, tuple) and v:
        if v[0] == 'aload':
            return ('aload', canon(v[1]))
        if v[0] == 'cbret':
            return ('cbret', canon(v[1]))
        return tuple(canon(y) if isinstance(y, tuple) else y for y in v)
    return v


def noise(atom):
    """facts about liveness and dispatch rather than about the state of the net"""
    if atom[0] in ('dyn', 'ok'):
        return True
    if atom[0] == 'nn' and isinstance(atom[1], tuple) and atom[1][0] == 'op' and atom[1][1] == 'lock':
        return True
    return False


def simplify_dnf(terms):
    """terms: iterable of dict/tuple-lists of (atom, bool); merges A&x | A&!x and absorbs"""
    S = set(frozenset(t) for t in terms)
    changed = True
    while changed:
        changed = False
        L = sorted(S, key=lambda s: (len(s), repr(sorted(s, key=repr))))
        for i, a in enumerate(L):
            for b in L[i + 1:]:
                if a <= b:
                    S.discard(b)
                    changed = True
                    break
                if len(a) == len(b):
                    d = a ^ b
                    if len(d) == 2:
                        (x, p), (y, q) = tuple(d)
                        if x == y and p != q:
                            S.discard(a)
                            S.discard(b)
                            S.add(a & b)
                            changed = True
                            break
                # A&x | !x&B&.. where A subset: x | (!x & B) -> x | B
                if len(a) == 1 and len(b) > 1:
                    (x, p), = a
                    if (x, not p) in b:
                        S.discard(b)
                        S.add(b - {(x, not p)})
                        changed = True
                        break
            if changed:
                break
    return tuple(sorted((tuple(sorted(t, key=repr)) for t in S), key=repr))


def bound_depth(v):
    if isinstance(v, tuple) and v:
        if v[0] == 'bix':
            return v[1]
        return max([bound_depth(y) for y in v if isinstance(y, tuple)] or [0])
    return 0


def norm(n):
    """a qualified name without template arguments"""
    n = n.replace('std::__cxx11::', 'std::')
    m = re.search(r'operator\b.*$', n)
    tail = ''
    if m:
        # an 'operator' may also occur inside template arguments; take the last one at depth 0
        depth = 0
        pos = None
        i = 0
        while i < len(n):
            if depth == 0 and n.startswith('operator', i) and (i == 0 or not (n[i - 1].isalnum() or n[i - 1] == '_')):
                pos = i
                break
            if n[i] == '<':
                depth += 1
            elif n[i] == '>' and n[i - 1] != '-':
                depth -= 1
            i += 1
        if pos is not None:
            tail, n = n[pos:], n[:pos]
    out, depth = [], 0
    for i, ch in enumerate(n):
        if ch == '<':
            depth += 1
        elif ch == '>' and n[i - 1] != '-':
            depth -= 1
        elif depth == 0:
            out.append(ch)
    return ''.join(out) + tail


GUARDS = {'std::unique_lock': 'x', 'std::shared_lock': 's', 'std::lock_guard': 'x', 'std::scoped_lock': 'x'}
MUTEXES = {'std::mutex', 'std::shared_mutex', 'std::recursive_mutex', 'std::timed_mutex', 'std::shared_timed_mutex',
           'std::recursive_timed_mutex'}
SEQS = {'std::vector', 'std::deque', 'std::list', 'std::array', 'std::initializer_list', 'std::set', 'std::unordered_set', 'std::multiset', 'std::queue', 'std::span'}
MAPS = {'std::unordered_map', 'std::map'}
SHARED = {'std::shared_ptr', 'std::__shared_ptr', 'std::__shared_ptr_access', 'std::unique_ptr', 'std::__uniq_ptr_impl'}
STRINGS = {'std::basic_string', 'std::basic_string_view'}
ITERS = {'__gnu_cxx::__normal_iterator', 'std::__detail::_Node_const_iterator', 'std::__detail::_Node_iterator',
         'std::_Deque_iterator', 'std::_Rb_tree_iterator', 'std::_Rb_tree_const_iterator',
         'std::__detail::_Node_iterator_base', 'std::_List_iterator', 'std::_List_const_iterator'}


class Interp:
    def __init__(self, prog, opaque=None, alias=None, max_states=6000):
        self.cells, self.deadcells, self.unused = False, {}, None
        self.p = prog
        self.ids = count(1)
        self.opaque = opaque or {}         # qualified name -> handler(interp, st, this, args, fr, site) or None
        self.alias = alias or {}           # location of a reference member -> the object it refers to
        self.unknown = {}                  # unmodelled callee -> count
        self.notes = []
        self.spawns = []                   # (callable, args, state, site, held)
        self.fn_seen = set()
        self.callsites = 0
        self.npaths = 0
        self.max_states = max_states
        self.heap_t = {}
        self.loops = []
        self.argvals = {}
        self.wr_old = {}                   # (location, new value, site) -> the values it replaced
        self.loc_cls = {}                  # ('.', base, field) -> class that declares the field
        self._nd = {}
        self.shape = {}                    # collection -> number of elements (literal-size mode; loops are unrolled)
        self.truncated = []
        self.alive = False                 # objects that are referred to weakly still exist
        from . import models
        self.models = models

    # ------------------------------------------------------------------ small helpers
    def fresh(self, tag='s'):
        return ('sym', tag, next(self.ids))

    def site(self, e, fr):
        l = e.get('l')
        return tuple(l) if l else (tuple(fr.fn['l']) if fr and fr.fn.get('l') else None)

    def emit(self, st, kind, a=None, b=None, site=None, fr=None):
        st.ev = (st.ev, Ev(kind, a, b, site, st.held, fr.fn['n'] if fr else None))

    def note(self, msg):
        if msg not in self.notes:
            self.notes.append(msg)

    def fields_of(self, t):
        t = self.p.strip(t)
        i = self.p.tinfo(t)
        if i.get('name') == 'std::pair':
            a = i.get('args') or []
            if len(a) == 2:
                return [('first', a[0]), ('second', a[1])]
        r = self.p.records.get(t)
        if r is None:
            return None
        return [(f['name'], f['t']) for f in self.p.fields(t)]

    def tm(self, t):
        return self.p.tmpl(t) if t else '?'

    def needs_dtor(self, t):
        t = self.p.strip(t)
        if t in self._nd:
            return self._nd[t]
        self._nd[t] = False
        tm = self.tm(t)
        r = False
        if tm in GUARDS or tm in ('std::jthread', 'std::thread'):
            r = True
        elif tm in ('std::shared_ptr', 'std::unique_ptr'):
            a = self.p.targ(t)
            r = any(self.needs_dtor(x) for x in [a] + self.derived(a)) if a else False
        else:
            rec = self.p.records.get(t)
            if rec:
                d = self.p.functions.get(rec.get('dtor') or '')
                r = bool(d and 'b' in d and d['b'].get('b')) or any(self.needs_dtor(f['t']) for f in self.p.fields(t))
        self._nd[t] = r
        return r

    def derived(self, t):
        t = self.p.strip(t)
        return [x for x in self.p.records if x != t and self.p.derives(x, t)]

    # ------------------------------------------------------------------ memory
    def shared(self, loc):
        r = root(loc)
        return r[0] in ('O', '*', 'sh') or r[0] == 'G' and not str(r[1]).endswith('@tls')

    def visible(self, st, loc):
        """others can reach it: not an element of a collection that a local variable owns"""
        if not self.shared(loc):
            return False
        if has_elem(loc):
            l = loc
            while l[0] in ('.', '[]'):
                if l[0] == '[]':
                    if l[1] != EMPTY and any(w == l[1] and not self.shared(k) for k, w in st.mem.items()):
                        return False
                    l = origin(l[1]) or ('val',)
                else:
                    l = l[1]
        return True

    def default(self, t):
        tm = self.tm(t)
        if tm in STRINGS:
            return ('s', '')
        if tm in SEQS or tm in MAPS:
            return EMPTY
        if tm in ('std::shared_ptr', 'std::unique_ptr', 'std::function', 'ptr', 'std::weak_ptr'):
            return NULL
        if tm == 'std::optional':
            return NULL
        if tm == 'bool':
            return F
        if tm in ('int', 'enum'):
            return ('i', 0)
        if tm in ('std::thread', 'std::jthread'):
            return ('nothread',)
        if tm in GUARDS:
            return ('guard', None, None, False)
        return ('dflt', t)

    def peek(self, st, loc):
        """current value of a location without an access event; None for an aggregate stored by parts"""
        m = st.mem
        if self.cells and loc[0] != 'cell' and any(k[0] == 'cell' and k[1] == loc for k in m):
            self.flush(st, loc)
        if loc in m:
            return m[loc]
        k = loc[0]
        if k == '.':
            b = loc[1]
            bv = self.peek_base(st, b)
            if bv is not None:
                return self.project(bv, loc[2])
            return ('init', loc)
        if k == '[]':
            return self.element(loc)
        return ('init', loc)

    def peek_base(self, st, b):
        if b in st.mem:
            return st.mem[b]
        if b[0] == '.':
            v = self.peek_base(st, b[1])
            return None if v is None else self.project(v, b[2])
        if b[0] == '[]':
            v = self.element(b)
            return None if v[0] == 'init' else v
        return None

    def project(self, v, f):
        if v[0] == 'rec':
            for n, x in v[2]:
                if n == f:
                    return x
            return ('op', '.', v, f)
        if v[0] == 'init':
            return ('init', ('.', v[1], f))
        return ('op', '.', v, f)

    def element(self, loc):
        c, k = loc[1], loc[2]
        if c[0] == 'vec' and k[0] == 'i':
            parts = c[1:]
            if all(p[0] == 'one' for p in parts[:k[1] + 1]) and k[1] < len(parts):
                return parts[k[1]][1]
        if c[0] == 'op' and c[1] == 'put' and c[3] == k and len(c) > 4 and c[4] is not None:
            return ('rec', 'pair', (('first', k), ('second', c[4])))
        return ('init', loc)

    def load(self, st, loc, t, fr, site, quiet=False):
        if loc[0] == 'ref':
            loc = loc[1]
        fs = self.fields_of(t) if loc not in st.mem else None
        if fs is not None:
            bv = self.peek_base(st, loc)
            if bv is None or bv[0] in ('rec', 'init'):
                return ('rec', self.p.strip(t), tuple((n, self.load(st, ('.', loc, n), ft, fr, site, quiet)) for n, ft in fs))
            return bv
        if not quiet and self.visible(st, loc):
            if self.tm(t) in ('std::atomic', 'std::__atomic_base'):
                return self.atomic_load(st, loc, fr, site)
            self.emit(st, 'rd', loc, None, site, fr)
        v = self.peek(st, loc)
        if v[0] == 'ref':
            return self.load(st, v[1], t, fr, site, quiet)
        return v

    def store(self, st, loc, v, t, fr, site, quiet=False):
        b = loc
        while b[0] == '.':
            b = b[1]
        if b[0] == '[]' and b[1] != EMPTY and not quiet:
            # an element of a collection in a variable is written
            for k in [k for k, w in st.mem.items() if w == b[1] and not self.shared(k)]:
                st.mem[k] = ('op', 'lost', next(self.ids))
        if self.deadcells:
            if b in self.deadcells:
                # written through a reference that is not followed: the content is not known any more
                st.mem[self.deadcells[b]] = ('op', 'lost', next(self.ids))
        fs = self.fields_of(t) if t else None
        if fs is not None:
            if v[0] == 'rec':
                d = dict(v[2])
                st.mem.pop(loc, None)
                for n, ft in fs:
                    if n in d:
                        self.store(st, ('.', loc, n), d[n], ft, fr, site, quiet)
                return
            if v[0] == 'init':
                st.mem.pop(loc, None)
                for n, ft in fs:
                    self.store(st, ('.', loc, n), self.peek(st, ('.', v[1], n)) if False else ('init', ('.', v[1], n)), ft, fr, site, quiet)
                return
            for k in [k for k in st.mem if k[0] == '.' and k[1] == loc]:
                del st.mem[k]
            st.mem[loc] = v
            if not quiet and self.visible(st, loc):
                self.emit(st, 'wr', loc, v, site, fr)
            return
        if not quiet and self.visible(st, loc):
            self.wr_old.setdefault((loc, v, site), set()).add(self.peek(st, loc))
            self.emit(st, 'wr', loc, v, site, fr)
        st.mem[loc] = v

    def atomic_load(self, st, loc, fr, site):
        if not self.shared(loc) and root(loc)[0] != 'heap':
            return self.peek(st, loc)
        n = next(self.ids)
        v = ('aload', loc, n)
        self.emit(st, 'ald', loc, v, site, fr)
        return v

    def cell(self, st, owner, idx, t, fr):
        """a place of its own for one element of a sequence, to which there is a reference"""
        k = ('cell', owner, idx)
        if k in st.mem:
            return st.mem[k][0]
        self.cells = True
        l = self.tmp(st)
        v = st.mem[owner][1 + idx][1]
        self.store(st, l, v, t, fr, None, True)
        st.mem[k] = (l, t, len(st.scopes), v)
        return l

    def cellable(self, st, owner, idx, t):
        """may the element of the sequence have a place of its own?"""
        if owner[0] == 'lit' or self.shared(owner):
            return False
        c = st.mem.get(owner)
        return c is not None and c[0] == 'vec' and 0 <= idx < len(c) - 1 and c[1 + idx][0] == 'one' and c[1 + idx][1][0] == 'rec' and self.fields_of(t) is not None

    def flush(self, st, owner):
        """brings the elements of a sequence up to date with what was written through references"""
        for k in [k for k in st.mem if k[0] == 'cell' and k[1] == owner]:
            l, t, depth, old = st.mem[k]
            v = self.load(st, l, t, None, None, True)
            c = st.mem.get(owner)
            i = k[2] + 1
            if c is None or c[0] != 'vec' or i >= len(c) or c[i] != ('one', old):
                if v != old:
                    st.mem[owner] = ('op', 'lost', next(self.ids))
                self.dead_cell(st, k)
                continue
            if v != old:
                st.mem[owner] = c[:i] + (('one', v),) + c[i + 1:]
                st.mem[k] = (l, t, depth, v)

    def dead_cell(self, st, k):
        l = st.mem.pop(k)[0]
        self.deadcells[l] = k[1]
        for q in [q for q in st.mem if q[0] == '.' and self.under(q, l)]:
            del st.mem[q]
        st.mem.pop(l, None)

    def flush_all(self, st, depth):
        for k in [k for k in st.mem if k[0] == 'cell']:
            if k in st.mem and st.mem[k][2] >= depth:
                self.flush(st, k[1])
                if k in st.mem:
                    self.dead_cell(st, k)

    def forget(self, st, pred):
        for k in [k for k in st.mem if pred(root(k))]:
            del st.mem[k]

    def tmp(self, st):
        return ('tmp', next(self.ids))

    # ------------------------------------------------------------------ facts
    def decide(self, st, atom):
        pc = st.pc
        if atom in pc:
            return pc[atom]
        k = atom[0]
        if self.alive and k == 'nn' and noise(atom):
            return True
        if k == 'eq':
            a, b = atom[1], atom[2]
            if self.is_const(b):
                for (at, pol) in pc.items():
                    if pol and at[0] == 'eq' and at[1] == a and self.is_const(at[2]) and at[2] != b:
                        return False
                    if b[0] == 'i' and at[0] == 'lt' and pol:
                        # lt(c, a) with c >= b, or lt(a, c) with c <= b
                        if at[2] == a and at[1][0] == 'i' and at[1][1] >= b[1]:
                            return False
                        if at[1] == a and at[2][0] == 'i' and at[2][1] <= b[1]:
                            return False
            if pc.get(('lt', a, b)) or pc.get(('lt', b, a)):
                return False
        elif k == 'lt':
            a, b = atom[1], atom[2]
            if pc.get(('lt', b, a)) or pc.get(('eq', a, b)) or pc.get(('eq', b, a)):
                return False
            if self.is_const(b):
                for (at, pol) in pc.items():
                    if pol and at[0] == 'eq' and at[1] == a and at[2][0] == 'i':
                        return at[2][1] < b[1]
            if a[0] == 'i':
                for (at, pol) in pc.items():
                    if pol and at[0] == 'eq' and at[1] == b and at[2][0] == 'i':
                        return a[1] < at[2][1]
        elif k == 'ex':
            # an existential fact weaker or stronger than a known one
            for (at, pol) in pc.items():
                if at[0] == 'ex' and at[1] == atom[1]:
                    if pol and set(at[2]) <= set(atom[2]):
                        return True
                    if not pol and set(atom[2]) <= set(at[2]):
                        return False
        return None

    @staticmethod
    def is_const(v):
        return v[0] in ('i', 'b', 's', 'e', 'null')

    def assume(self, st, atom, pol):
        d = self.decide(st, atom)
        if d is not None:
            return d == pol
        st.pc[atom] = pol
        return True

    def branch(self, st, v):
        """[(state, bool)] for a boolean value"""
        if isinstance(v, Throw):
            return [(st, v)]
        if v[0] == 'b':
            return [(st, v[1])]
        if v[0] == 'i':
            return [(st, v[1] != 0)]
        if v[0] == 'B':
            atom, pol = v[1], v[2]
        elif v[0] == 'null':
            return [(st, False)]
        else:
            r = self.truthy(v)
            if r[0] == 'b':
                return [(st, r[1])]
            atom, pol = r[1], r[2]
        d = self.decide(st, atom)
        if d is not None:
            return [(st, d == pol)]
        s2 = st.copy()
        st.pc[atom] = True
        s2.pc[atom] = False
        return [(st, pol), (s2, not pol)]

    def truthy(self, v):
        """boolean reading of a value of unknown kind"""
        if v[0] in ('b', 'B'):
            return v
        if v[0] == 'op' and v[1] == '|' and len(v) == 4:
            pass
        return ('B', ('t', v), True)

    @staticmethod
    def neg(v):
        if v[0] == 'b':
            return ('b', not v[1])
        if v[0] == 'B':
            return ('B', v[1], not v[2])
        if v[0] == 'i':
            return ('b', v[1] == 0)
        return ('B', ('t', v), False)

    def nn(self, v):
        """is the pointer-like value not null"""
        if v[0] == 'null':
            return F
        if v[0] in ('ptr', 'clo', 'fn', 'bindf', 'refw'):
            return T
        if v[0] == 'weak':
            return self.nn(v[1])
        if v[0] == 'op' and v[1] == 'get':
            v = v[2]
        return ('B', ('nn', v), True)

    def shaped(self, c):
        """the elements of a collection whose size is fixed in literal-size mode: locations or ('val', value)"""
        if not self.shape:
            return None
        if c in self.shape:
            return [('[]', c, ('i', j)) for j in range(self.shape[c])]
        if c[0] == 'op' and c[1] in ('rev', 'slice', 'perm'):
            l = self.shaped(c[2])
            if l is None:
                return None
            if c[1] == 'rev':
                return l[::-1]
            if c[1] == 'slice':
                return l[c[3]:c[4]]
            if c[3] == 'reverse':
                return l[::-1]
            return [('[]', c, ('i', j)) for j in range(len(l))]
        if c[0] == 'op' and c[1] == 'erase' and c[3][0] == 'i':
            l = self.shaped(c[2])
            return None if l is None else l[:c[3][1]] + l[c[3][1] + 1:]
        if c[0] == 'vec':
            out = []
            for q in c[1:]:
                if q[0] == 'one':
                    out.append(('val', q[1]))
                elif q[0] == 'all':
                    l = self.shaped(q[1])
                    if l is None:
                        return None
                    out += l
                else:
                    return None
            return out
        return None

    def size(self, c):
        l = self.shaped(c)
        if l is not None:
            return ('i', len(l))
        if c[0] == 'vec':
            if all(p[0] == 'one' for p in c[1:]):
                return ('i', len(c) - 1)
            if len(c) == 2 and c[1][0] == 'all':
                return self.size(c[1][1])
        if c[0] == 's':
            return ('i', len(c[1]))
        if c[0] == 'op' and c[1] == 'perm':
            return self.size(c[2])
        return ('op', 'size', c)

    def cmp(self, op, a, b, uns=True):
        """boolean value of a comparison in canonical form"""
        if op == '>':
            return self.cmp('<', b, a, uns)
        if op == '<=':
            return self.neg(self.cmp('<', b, a, uns))
        if op == '>=':
            return self.neg(self.cmp('<', a, b, uns))
        if op == '!=':
            return self.neg(self.cmp('==', a, b, uns))
        if op == '<':
            if a[0] == 'it' and b[0] == 'it' and a[2][0] == 'at' and b[2][0] == 'at':
                return ('b', a[2][1] < b[2][1])
            if a[0] == 'i' and b[0] == 'i':
                return ('b', a[1] < b[1])
            if a == b:
                return F
            if a == ('i', 0) and uns:
                return self.neg(self.cmp('==', b, a))
            if b == ('i', 1) and uns:
                return self.cmp('==', a, ('i', 0))
            if b == ('i', 0) and uns:
                return F
            return ('B', ('lt', a, b), True)
        # equality
        if a == b and a[0] not in ('dflt',):
            return T
        if a[0] == 'it' and b[0] == 'it':
            return self.iter_eq(a, b)
        for x, y in ((a, b), (b, a)):
            if x[0] == 'null':
                return self.neg(self.nn(y))
            if x[0] == 'b':
                return self.truthy2(y) if x[1] else self.neg(self.truthy2(y))
        if self.is_const(a) and self.is_const(b):
            if a[0] == b[0] or {a[0], b[0]} <= {'i', 'e'}:
                return ('b', self.cv(a) == self.cv(b))
        for x, y in ((a, b), (b, a)):
            if y == ('i', 0) and x[0] == 'op' and x[1] == 'size' and x[2][0] not in ('vec',):
                if x[2][0] == 'strv':
                    return ('B', ('eq', x[2][1], ('s', '')), True)
        if self.is_const(a) and not self.is_const(b):
            a, b = b, a
        elif not self.is_const(b) and repr(b) < repr(a):
            a, b = b, a
        return ('B', ('eq', a, b), True)

    def truthy2(self, v):
        return v if v[0] in ('b', 'B') else ('B', ('t', v), True)

    @staticmethod
    def cv(v):
        return v[2] if v[0] == 'e' else v[1]

    def iter_eq(self, a, b):
        pa, pb = a[2], b[2]
        if a[1] != b[1] and canon(a[1]) != canon(b[1]):
            return ('B', ('eq', a, b), True)
        if pa == pb:
            return T
        if pa[0] == 'at' and pb[0] == 'at':
            return F
        if pa[0] == 'end':
            pa, pb = pb, pa
        if pb[0] == 'end':
            if pa[0] == 'key':
                return self.neg(self.haskey(a[1], pa[1]))
            if pa[0] in ('found', 'ix'):
                return F
            if pa[0] == 'begin':
                return self.cmp('==', self.size(a[1]), ('i', 0))
            if pa[0] in ('uniq', 'adj'):
                return ('B', ('dup',) + pa[1:], False)
        return ('B', ('eq', a, b), True)

    def haskey(self, c, k):
        while True:
            if c[0] == 'op' and c[1] == 'put':
                if c[3] == k:
                    return T
                return ('B', ('has', c, k), True)
            if c == EMPTY:
                return F
            if c[0] == 'op' and c[1] == 'erase' and c[3] == ('key', k):
                return F
            return ('B', ('has', c, k), True)

    def arith(self, op, a, b):
        if a[0] == 'i' and b[0] == 'i':
            x, y = a[1], b[1]
            try:
                r = {'+': x + y, '-': x - y, '*': x * y, '/': x // y if y else None, '%': x % y if y else None,
                     '|': x | y, '&': x & y, '^': x ^ y, '<<': x << y if y < 200 else None, '>>': x >> y}.get(op)
            except Exception:
                r = None
            if r is not None:
                return ('i', r)
        if op in ('+', '|') and b in (('i', 0), F):
            return a
        if op in ('+', '|') and a in (('i', 0), F):
            return b
        if op == '-' and b == ('i', 0):
            return a
        if op == '-' and a == b:
            return ('i', 0)
        if op == '|' and (a == T or b == T):
            return T
        if op == '&' and (a == F or b == F):
            return F
        if op == '&' and a == T:
            return b
        if op == '&' and b == T:
            return a
        if op == '-' and a[0] == 'op' and a[1] == '+':
            if a[3] == b:
                return a[2]
            if a[2] == b:
                return a[3]
        if op == '+' and a[0] == 'op' and a[1] == '-' and a[3] == b:
            return a[2]
        if op in ('+', '*', '|', '&', '^'):
            if self.is_const(a) or (not self.is_const(b) and repr(b) < repr(a)):
                a, b = b, a
        return ('op', op, a, b)

    def icast(self, v, src, dst):
        """integer conversion: visible in the value only when it can change it"""
        a, b = self.p.tinfo(src or '?'), self.p.tinfo(dst or '?')
        if a.get('cat') != 'int' or b.get('cat') != 'int' or not b.get('bits') or not a.get('bits'):
            return v
        n, u = b['bits'], bool(b.get('uns'))
        if v[0] == 'i':
            x = v[1] & ((1 << n) - 1)
            return ('i', x if u or x < (1 << (n - 1)) else x - (1 << n))
        if v[0] in ('b', 'B', 'e'):
            return v
        if n < a['bits'] or (n == a['bits'] and bool(a.get('uns')) and not u):
            return ('op', 'cast', n, u, v)
        return v

    # ------------------------------------------------------------------ pointers
    def deref(self, v):
        while True:
            if v[0] == 'ptr':
                return v[1]
            if v[0] == 'op' and v[1] in ('lock', 'get'):
                v = v[2]
                continue
            if v[0] == 'weak':
                v = v[1]
                continue
            if v[0] == 'ref':
                return v[1]
            if v[0] == 'it':
                return self.iter_loc(v)
            return ('*', v)

    def iter_loc(self, v):
        if v[2][0] == 'at':
            l = self.shaped(v[1])
            if l is None or not 0 <= v[2][1] < len(l):
                return ('[]', v[1], ('oob', v[2][1]))
            if l[v[2][1]][0] == '[]':
                return l[v[2][1]]
        return ('[]', v[1], self.iter_key(v))

    def iter_key(self, v):
        p = v[2]
        if p[0] == 'at':
            return ('i', p[1])
        if p[0] == 'begin':
            return ('i', 0)
        if p[0] == 'ix':
            return p
        if p[0] in ('key', 'found'):
            return p[1]
        return p

    # ------------------------------------------------------------------ expression evaluation
    def seq(self, es, st, fr, mode):
        """evaluates expressions left to right; mode(e) in 'l','r'; yields (st, [vals] | Throw)"""
        outs = [(st, [])]
        for e in es:
            nxt = []
            for s, vs in outs:
                if isinstance(vs, Throw):
                    nxt.append((s, vs))
                    continue
                for s2, v in (self.lv(e, s, fr) if mode(e) == 'l' else self.rv(e, s, fr)):
                    nxt.append((s2, v if isinstance(v, Throw) else vs + [v]))
            outs = nxt
        return outs

    def lookup(self, st, d, fr):
        f = fr
        if fr.caps is not None and d in fr.caps:
            return fr.caps[d]
        return ('L', f.fid, d)

    def lv(self, e, st, fr):
        """[(state, location)]"""
        k = e['k']
        if k == 'ref':
            if e.get('g'):
                return [(st, ('G', e['g']))]
            loc = self.lookup(st, e['d'], fr)
            v = st.mem.get(loc)
            if v is not None and v[0] == 'ref':
                return [(st, v[1])]
            return [(st, loc)]
        if k == 'fld':
            out = []
            if e.get('arrow'):
                for s, v in self.rv(e['b'], st, fr):
                    out.append((s, v if isinstance(v, Throw) else self.follow(s, ('.', self.deref(v), e['n']), e, fr)))
            else:
                for s, l in self.lv(e['b'], st, fr):
                    out.append((s, l if isinstance(l, Throw) else self.follow(s, ('.', l, e['n']), e, fr)))
            return out
        if k == 'un':
            if e['op'] == '*':
                return [(s, v if isinstance(v, Throw) else self.deref(v)) for s, v in self.rv(e['e'], st, fr)]
            if e['op'] in ('++', '--'):
                out = []
                for s, l in self.lv(e['e'], st, fr):
                    if isinstance(l, Throw):
                        out.append((s, l))
                        continue
                    v = self.load(s, l, e['t'], fr, self.site(e, fr))
                    self.store(s, l, self.step(v, 1 if e['op'] == '++' else -1), e['t'], fr, self.site(e, fr))
                    out.append((s, l))
                return out
        if k == 'asg':
            return self.assign(e, st, fr)
        if k == 'cond':
            out = []
            for s, c in self.cond(e['c'], st, fr):
                out += [(s, c)] if isinstance(c, Throw) else self.lv(e['a'] if c else e['b'], s, fr)
            return out
        if k == 'bin' and e['op'] == ',':
            out = []
            for s, v in self.rv(e['a'], st, fr):
                out += [(s, v)] if isinstance(v, Throw) else self.lv(e['b'], s, fr)
            return out
        if k == 'sub':
            out = []
            for s, vs in self.seq([e['a'], e['b']], st, fr, lambda x: 'r'):
                out.append((s, vs if isinstance(vs, Throw) else ('[]', vs[0], vs[1])))
            return out
        if k == 'call':
            out = []
            for s, v in self.call(e, st, fr):
                if isinstance(v, Throw):
                    out.append((s, v))
                elif v[0] == 'ref':
                    out.append((s, v[1]))
                else:
                    l = self.tmp(s)
                    self.store(s, l, v, e['t'], fr, None, True)
                    s.temps += ((l, e['t']),)
                    out.append((s, l))
            return out
        if k == 'mat':
            l = self.tmp(st)
            out = []
            for s, v in self.init_at(l, e['t'], e['e'], st, fr):
                if isinstance(v, Throw):
                    out.append((s, v))
                    continue
                if e.get('ext'):
                    if s.scopes:
                        s.scopes = s.scopes[:-1] + (s.scopes[-1] + ((l, e['t']),),)
                else:
                    s.temps += ((l, e['t']),)
                out.append((s, l))
            return out
        if k == 'str':
            return [(st, ('lit', ('s', e['v'])))]
        if k == 'this':
            return [(st, ('tmp', 0))]
        if k == 'dyncast':
            return self.lv(e['e'], st, fr)
        if k == 'void':
            return self.lv(e['e'], st, fr)
        if k == 'throw':
            return self.rv(e, st, fr)
        # a prvalue where a location is needed
        out = []
        for s, v in self.rv(e, st, fr):
            if isinstance(v, Throw):
                out.append((s, v))
                continue
            if v[0] == 'ref':
                out.append((s, v[1]))
                continue
            l = self.tmp(s)
            self.store(s, l, v, e.get('t'), fr, None, True)
            s.temps += ((l, e.get('t')),)
            out.append((s, l))
        return out

    def follow(self, st, loc, e, fr):
        """reference members"""
        if e.get('cls'):
            self.loc_cls[loc] = e['cls']
        v = st.mem.get(loc)
        if v is not None and v[0] == 'ref':
            return v[1]
        if loc in self.alias:
            return self.alias[loc]
        f = self.p.field(e.get('cls'), e['n']) if e.get('cls') else None
        if f is not None and self.p.tinfo(f['t']).get('cat') in ('ref', 'rref'):
            v = self.peek(st, loc)
            return v[1] if v[0] == 'ref' else ('*', v)
        return loc

    def step(self, v, d):
        if v[0] == 'it':
            return self.iter_step(v, d)
        return self.arith('+' if d > 0 else '-', v, ('i', 1))

    def iter_step(self, v, d):
        if v[2][0] == 'at':
            return ('it', v[1], ('at', v[2][1] + d), v[3])
        if d > 0 and v[2] == ('begin',) and v[1][0] == 'vec' and len(v[1]) == 2 and v[1][1][0] == 'one':
            return ('it', v[1], ('end',), v[3])
        if d < 0 and v[2] == ('end',):
            return ('it', v[1], ('found', ('last',)), v[3])
        return ('it', v[1], ('step', v[2], d), v[3])

    def assign(self, e, st, fr):
        op = e['op']
        site = self.site(e, fr)
        t = e['a'].get('t')
        out = []
        # the right operand is sequenced before the left one
        for s, v in self.rv(e['b'], st, fr):
            if isinstance(v, Throw):
                out.append((s, v))
                continue
            for s2, l in self.lv(e['a'], s, fr):
                if isinstance(l, Throw):
                    out.append((s2, l))
                    continue
                if op == '=':
                    nv = v
                else:
                    old = self.load(s2, l, t, fr, site)
                    if self.tm(t) == 'bool' and op in ('|=', '&='):
                        for s3, w in self.boolop(op[0], old, v, s2):
                            self.store(s3, l, w, t, fr, site)
                            out.append((s3, l))
                        continue
                    nv = self.arith(op[:-1], old, v)
                self.store(s2, l, nv, t, fr, site)
                out.append((s2, l))
        return out

    def boolop(self, op, a, b, st):
        if b[0] == 'b':
            if op == '|':
                return [(st, T if b[1] else a)]
            return [(st, a if b[1] else F)]
        if a[0] == 'b':
            if op == '|':
                return [(st, T if a[1] else b)]
            return [(st, b if a[1] else F)]
        out = []
        for s, x in self.branch(st, b):
            out.append((s, (T if x else a) if op == '|' else (a if x else F)))
        return out

    def rv(self, e, st, fr):
        """[(state, value | Throw)]"""
        k = e['k']
        if k == 'load':
            out = []
            for s, l in self.lv(e['e'], st, fr):
                if isinstance(l, Throw):
                    out.append((s, l))
                    continue
                out.append((s, self.read_loc(s, l, e['e'], fr)))
            return out
        if k == 'int':
            return [(st, ('i', int(e['v'])))]
        if k == 'bool':
            return [(st, ('b', bool(e['v'])))]
        if k == 'str':
            return [(st, ('s', e['v']))]
        if k == 'float':
            return [(st, ('f', e['v']))]
        if k == 'null':
            return [(st, NULL)]
        if k == 'enum':
            return [(st, ('e', e.get('en', '') + '::' + e['c'], int(e['v'])))]
        if k == 'this':
            return [(st, ('ptr', fr.this) if fr.this is not None else ('sym', 'this', 0))]
        if k == 'icast':
            return [(s, v if isinstance(v, Throw) else self.icast(v, e['e'].get('t'), e.get('t'))) for s, v in self.rv(e['e'], st, fr)]
        if k == 'tobool':
            out = []
            for s, v in self.rv(e['e'], st, fr):
                if isinstance(v, Throw):
                    out.append((s, v))
                else:
                    t = e['e'].get('t')
                    out.append((s, v if v[0] in ('b', 'B') else self.nn(v) if self.tm(t) in ('ptr', 'null') or v[0] in ('null', 'ptr') else
                                self.neg(self.cmp('==', v, ('i', 0)))))
            return out
        if k == 'void':
            return [(s, v if isinstance(v, Throw) else ('void',)) for s, v in self.rv(e['e'], st, fr)]
        if k == 'un':
            op = e['op']
            if op == '!':
                return [(s, c if isinstance(c, Throw) else ('b', not c)) for s, c in self.cond(e['e'], st, fr)] \
                    if self.is_bool_struct(e['e']) else \
                    [(s, v if isinstance(v, Throw) else self.neg(self.as_bool(v))) for s, v in self.rv(e['e'], st, fr)]
            if op == '&' and e['e']['k'] == 'mfield':
                return [(st, ('fld', e['e']['n']))]
            if op == '&':
                return [(s, l if isinstance(l, Throw) else ('ptr', l)) for s, l in
                        (self.lv(e['e'], st, fr) if e['e']['k'] != 'fnref' else self.rv(e['e'], st, fr))] \
                    if e['e']['k'] != 'fnref' else self.rv(e['e'], st, fr)
            if op in ('post++', 'post--'):
                out = []
                for s, l in self.lv(e['e'], st, fr):
                    if isinstance(l, Throw):
                        out.append((s, l))
                        continue
                    v = self.load(s, l, e['t'], fr, self.site(e, fr))
                    self.store(s, l, self.step(v, 1 if op == 'post++' else -1), e['t'], fr, self.site(e, fr))
                    out.append((s, v))
                return out
            if op in ('-', '+', '~'):
                return [(s, v if isinstance(v, Throw) else (v if op == '+' else ('i', -v[1]) if op == '-' and v[0] == 'i' else ('op', 'u' + op, v)))
                        for s, v in self.rv(e['e'], st, fr)]
            if op in ('*', '++', '--'):
                return [(s, l if isinstance(l, Throw) else self.read_loc(s, l, e, fr)) for s, l in self.lv(e, st, fr)]
            return self.rv(e['e'], st, fr)
        if k == 'asg':
            return [(s, l if isinstance(l, Throw) else self.load(s, l, e['a'].get('t'), fr, None, True)) for s, l in self.assign(e, st, fr)]
        if k == 'bin':
            op = e['op']
            if op in ('&&', '||'):
                return [(s, c if isinstance(c, Throw) else ('b', c)) for s, c in self.cond(e, st, fr)]
            if op == ',':
                out = []
                for s, v in self.rv(e['a'], st, fr):
                    out += [(s, v)] if isinstance(v, Throw) else self.rv(e['b'], s, fr)
                return out
            out = []
            for s, vs in self.seq([e['a'], e['b']], st, fr, lambda x: 'r'):
                if isinstance(vs, Throw):
                    out.append((s, vs))
                    continue
                a, b = vs
                if op in ('==', '!=', '<', '>', '<=', '>='):
                    ti = self.p.tinfo(self.p.strip(e['a'].get('t') or '?'))
                    uns = bool(ti.get('uns')) or ti.get('cat') not in ('int',)
                    out.append((s, self.cmp(op, a, b, uns)))
                elif self.tm(e.get('t')) == 'bool' or (self.tm(e['a'].get('t')) == 'bool' and op in ('|', '&')):
                    out += self.boolop(op, a, b, s)
                else:
                    out.append((s, self.arith(op, a, b)))
            return out
        if k == 'cond':
            out = []
            for s, c in self.cond(e['c'], st, fr):
                out += [(s, c)] if isinstance(c, Throw) else self.rv(e['a'] if c else e['b'], s, fr)
            return out
        if k == 'call':
            out = []
            for s, v in self.call(e, st, fr):
                if not isinstance(v, Throw) and v[0] == 'ref':
                    v = self.read_loc(s, v[1], e, fr)
                out.append((s, v))
            return out
        if k == 'fnref':
            fn = e['fn']
            return [(st, ('fn', fn['f'], norm(fn['n'])))]
        if k == 'lambda':
            return self.closure(e, st, fr)
        if k in ('ctor', 'init', 'zero', 'stdinit', 'new'):
            if k == 'stdinit':
                return self.rv(e['e'], st, fr)
            if k == 'zero':
                return [(st, self.zero(e['t']))]
            if k == 'new':
                h = self.heap(e['at'])
                if 'e' not in e:
                    return [(st, ('ptr', h))]
                return [(s, v if isinstance(v, Throw) else ('ptr', h)) for s, v in self.init_at(h, e['at'], e['e'], st, fr)]
            l = self.tmp(st)
            out = []
            for s, v in self.init_at(l, e['t'], e, st, fr):
                if isinstance(v, Throw):
                    out.append((s, v))
                    continue
                v = self.load(s, l, e['t'], fr, None, True)
                self.forget(s, lambda r: r == l)
                out.append((s, v))
            return out
        if k == 'throw':
            site = self.site(e, fr)
            if 'e' not in e:
                t = st.exc[-1] if st.exc else Throw('user', None, site, fr.fn['n'])
                return [(st, Throw(t.typ, t.val, t.site, t.fn))]
            out = []
            for s, v in self.rv(e['e'], st, fr):
                if isinstance(v, Throw):
                    out.append((s, v))
                else:
                    self.emit(s, 'throw', self.p.strip(e['et']), None, site, fr)
                    out.append((s, Throw(self.p.strip(e['et']), v, site, fr.fn['n'])))
            return out
        if k == 'delete':
            out = []
            for s, v in self.rv(e['e'], st, fr):
                out.append((s, v if isinstance(v, Throw) else ('void',)))
            return out
        if k == 'dyncast':
            return self.rv(e['e'], st, fr)
        if k in ('ref', 'fld', 'sub', 'mat'):
            return [(s, l if isinstance(l, Throw) else self.read_loc(s, l, e, fr)) for s, l in self.lv(e, st, fr)]
        self.note('expression %s at %s is not modelled' % (e.get('c', k), e.get('l')))
        out = [(st, [])]
        for c in e.get('ch', []):
            nxt = []
            for s, vs in outs_ok(out):
                for s2, v in self.rv(c, s, fr):
                    nxt.append((s2, v if isinstance(v, Throw) else vs))
            out = nxt
        return [(s, v if isinstance(v, Throw) else self.fresh('other')) for s, v in out]

    def is_bool_struct(self, e):
        return e['k'] in ('bin', 'cond') or (e['k'] == 'un' and e['op'] == '!')

    def as_bool(self, v):
        if v[0] in ('b', 'B', 'i'):
            return v
        return ('B', ('t', v), True)

    def zero(self, t):
        fs = self.fields_of(t)
        if fs is not None:
            return ('rec', self.p.strip(t), tuple((n, self.zero(ft)) for n, ft in fs))
        return self.default(t)

    def read_loc(self, st, l, e, fr):
        if l[0] == 'lit':
            return l[1]
        if l[0] == 'G':
            return self.read_global(st, l, e, fr)
        return self.load(st, l, e.get('t'), fr, self.site(e, fr))

    def read_global(self, st, l, e, fr):
        if l in st.mem:
            return self.load(st, l, e.get('t'), fr, self.site(e, fr))
        if e.get('cv') is not None:
            return ('i', int(e['cv']))
        g = self.p.globals.get(l[1])
        if g and g.get('constq') and 'init' in g:
            r = [v for _, v in self.rv(g['init'], St(), Frame(next(self.ids), {'n': '<global>', 'l': g['loc'], 'p': []}, None, None, 0, None))]
            if len(r) == 1 and not isinstance(r[0], Throw):
                return r[0]
        return self.load(st, l, e.get('t'), fr, self.site(e, fr))

    def cond(self, e, st, fr):
        """[(state, True|False|Throw)]"""
        k = e['k']
        if k == 'un' and e['op'] == '!':
            return [(s, c if isinstance(c, Throw) else not c) for s, c in self.cond(e['e'], st, fr)]
        if k == 'bin' and e['op'] in ('&&', '||'):
            out = []
            for s, c in self.cond(e['a'], st, fr):
                if isinstance(c, Throw):
                    out.append((s, c))
                elif c == (e['op'] == '||'):
                    out.append((s, c))
                else:
                    out += self.cond(e['b'], s, fr)
            return out
        if k == 'cond':
            out = []
            for s, c in self.cond(e['c'], st, fr):
                out += [(s, c)] if isinstance(c, Throw) else self.cond(e['a'] if c else e['b'], s, fr)
            return out
        out = []
        for s, v in self.rv(e, st, fr):
            if isinstance(v, Throw):
                out.append((s, v))
            else:
                out += self.branch(s, v)
        return out

    def closure(self, e, st, fr):
        outs = [(st, [])]
        this = None
        for c in e['caps']:
            nxt = []
            for s, caps in outs:
                if isinstance(caps, Throw):
                    nxt.append((s, caps))
                    continue
                if c.get('this'):
                    this = fr.this
                    nxt.append((s, caps + [('this', 'r' if c.get('byref') else 'v', None)]))
                elif c.get('byref'):
                    init = c['init']
                    for s2, l in self.lv(init, s, fr):
                        nxt.append((s2, l if isinstance(l, Throw) else caps + [(c['d'], 'r', l)]))
                else:
                    for s2, v in self.rv(c['init'], s, fr):
                        nxt.append((s2, v if isinstance(v, Throw) else caps + [(c['d'], 'v', v, c.get('vt'))]))
            outs = nxt
        return [(s, caps if isinstance(caps, Throw) else ('clo', tuple(e['ops']), this, tuple(caps))) for s, caps in outs]

    # ------------------------------------------------------------------ initialisation
    def heap(self, t):
        h = ('heap', next(self.ids))
        self.heap_t[h] = self.p.strip(t)
        return h

    def init_at(self, loc, t, e, st, fr):
        """initialises a location; [(state, None-ish | Throw)]"""
        k = e['k']
        if k == 'stdinit':
            return self.init_at(loc, t, e['e'], st, fr)
        if k == 'ctor':
            return self.construct(loc, t or e['t'], e, st, fr)
        if k == 'init':
            fs = self.fields_of(e['t'])
            tm = self.tm(e['t'])
            if fs is not None and e.get('fields') is not None and tm != 'std::pair':
                names = [n for n in e['fields']]
                ft = dict(fs)
                outs = [(st, ('void',))]
                for n, a in zip(names, e['args']):
                    nxt = []
                    for s, v in outs:
                        if isinstance(v, Throw):
                            nxt.append((s, v))
                        elif n == '<base>':
                            nxt += self.init_at(loc, a['t'], a, s, fr)
                        else:
                            nxt += self.init_at(('.', loc, n), ft.get(n, a['t']), a, s, fr)
                    outs = nxt
                return outs
            outs = []
            for s, vs in self.seq(e['args'], st, fr, lambda x: 'r'):
                if isinstance(vs, Throw):
                    outs.append((s, vs))
                    continue
                if tm in ('int', 'bool', 'ptr', 'enum', 'null') or (self.p.tinfo(self.p.strip(e['t'])).get('cat') in ('int', 'bool', 'ptr', 'enum')):
                    v = vs[0] if vs else self.default(e['t'])
                elif e.get('fields') == [] or not e['args'] and tm not in SEQS:
                    v = ('rec', self.p.strip(e['t']), ())
                else:
                    v = ('vec',) + tuple(('one', x) for x in vs)
                self.store(s, loc, v, t, fr, None, True)
                outs.append((s, ('void',)))
            return outs
        if k == 'zero':
            self.store(st, loc, self.zero(e['t']), t, fr, None, True)
            return [(st, ('void',))]
        if self.p.tinfo(t).get('cat') in ('ref', 'rref') if t else False:
            outs = []
            for s, l in self.lv(e, st, fr):
                if not isinstance(l, Throw):
                    s.mem[loc] = ('ref', l)
                outs.append((s, l))
            return outs
        outs = []
        for s, v in self.rv(e, st, fr):
            if not isinstance(v, Throw):
                self.store(s, loc, v, t, fr, None, True)
            outs.append((s, v))
        return outs

    def construct(self, loc, t, e, st, fr):
        fn = e['fn']
        f = self.p.functions.get(fn['f'])
        cls = self.p.strip(e['t'])
        # array of objects etc. are not used
        if f is not None and f.get('kind') == 'ctor' and ('b' in f or f.get('inits')) and not (f.get('defaulted') and (e.get('copy') or e.get('move'))):
            return self.run_ctor(loc, cls, f, e['args'], st, fr, e)
        rec = self.p.records.get(cls)
        if rec is not None or self.tm(cls) == 'std::pair':
            if (e.get('copy') or e.get('move')) and e['args']:
                out = []
                for s, l in self.lv(e['args'][0], st, fr):
                    if isinstance(l, Throw):
                        out.append((s, l))
                        continue
                    v = l[1] if l[0] == 'lit' else self.load(s, l, cls, fr, self.site(e, fr))
                    self.store(s, loc, v, cls, fr, None, True)
                    if e.get('move'):
                        self.moved(s, l, cls)
                    out.append((s, ('void',)))
                return out
            if not e['args']:
                return self.default_at(loc, cls, st, fr)
        out = []
        for s, vs in self.seq(e['args'], st, fr, lambda x: 'l' if x.get('lv') and x['k'] != 'str' else 'r'):
            if isinstance(vs, Throw):
                out.append((s, vs))
                continue
            args = [('ref', v) if a.get('lv') and a['k'] != 'str' else v for v, a in zip(vs, e['args'])]
            out += self.models.construct(self, s, loc, cls, e, args, [a.get('t') for a in e['args']], fr, self.site(e, fr))
        return out

    def default_at(self, loc, t, st, fr):
        """default member initialisers / default construction"""
        rec = self.p.records.get(self.p.strip(t))
        outs = [(st, ('void',))]
        if rec is None:
            self.store(st, loc, self.default(t), t, fr, None, True)
            return outs
        for f in self.p.fields(t):
            nxt = []
            for s, v in outs:
                if isinstance(v, Throw):
                    nxt.append((s, v))
                elif f.get('init'):
                    nxt += self.init_at(('.', loc, f['name']), f['t'], f['init'], s, Frame(fr.fid, fr.fn, loc, fr.caps, fr.depth, fr.up))
                elif self.p.records.get(self.p.strip(f['t'])):
                    nxt += self.default_at(('.', loc, f['name']), f['t'], s, fr)
                else:
                    self.store(s, ('.', loc, f['name']), self.default(f['t']), f['t'], fr, None, True)
                    nxt.append((s, ('void',)))
            outs = nxt
        return outs

    def run_ctor(self, loc, cls, f, argexprs, st, fr, e, argvals=None):
        if argvals is None:
            outs = []
            for s, vs in self.eval_args(argexprs, [p['t'] for p in f['p']], st, fr):
                if isinstance(vs, Throw):
                    outs.append((s, vs))
                else:
                    outs += self.run_ctor(loc, cls, f, None, s, fr, e, vs)
            return outs
        self.fn_seen.add(f['key'])
        self.callsites += 1
        nf = Frame(next(self.ids), f, loc, None, fr.depth + 1, fr)
        if nf.depth > 60:
            raise AnalysisBroken('constructor recursion in %s' % f['n'])
        self.bind_params(st, nf, f, argvals)
        saved, st.temps = st.temps, ()
        outs = [(st, ('void',))]
        done = set()
        for i in f.get('inits', []):
            nxt = []
            for s, v in outs:
                if isinstance(v, Throw):
                    nxt.append((s, v))
                elif 'fld' in i:
                    fd = self.p.field(cls, i['fld'])
                    nxt += self.init_at(('.', loc, i['fld']), fd['t'] if fd else i['e'].get('t'), i['e'], s, nf)
                else:
                    nxt += self.init_at(loc, i['e'].get('t'), i['e'], s, nf)
            if 'fld' in i:
                done.add(i['fld'])
            # end of the full-expression of this initialiser
            outs = []
            for s, v in nxt:
                for s2, v2 in self.end_full(s, v, None, nf):
                    outs.append((s2, v2))
        rec = self.p.records.get(self.p.strip(cls))
        for s, v in outs:
            if isinstance(v, Throw) or not rec:
                continue
            if any('deleg' in i for i in f.get('inits', [])):
                continue
            for fd in rec['fields']:
                if fd['name'] not in done and self.peek(s, ('.', loc, fd['name']))[0] == 'init' and not self.p.records.get(self.p.strip(fd['t'])) \
                        and self.p.tinfo(fd['t']).get('cat') not in ('ref', 'rref'):
                    s.mem[('.', loc, fd['name'])] = self.default(fd['t']) if self.tm(fd['t']) not in ('int', 'bool', 'ptr', 'enum') else ('undef',)
        res = []
        for s, v in outs:
            s.temps = saved
            if isinstance(v, Throw):
                res += self.leave(s, nf, 'throw', v)
            elif 'b' in f:
                res += self.run_body(s, nf, f)
            else:
                res += self.leave(s, nf, 'norm', ('void',))
        return res

    def moved(self, st, l, t):
        if l[0] == 'lit':
            return
        tm = self.tm(t)
        if tm in ('std::shared_ptr', 'std::unique_ptr', 'std::weak_ptr'):
            st.mem[l] = NULL
        elif tm in GUARDS:
            st.mem[l] = ('guard', None, None, False)
        elif tm in ('std::thread', 'std::jthread'):
            st.mem[l] = ('nothread',)

    # ------------------------------------------------------------------ calls
    def eval_args(self, argexprs, ptypes, st, fr):
        """evaluates arguments for parameters: references become ('ref', loc)"""
        outs = [(st, [])]
        for i, a in enumerate(argexprs):
            pt = ptypes[i] if i < len(ptypes) else None
            byref = pt is not None and self.p.tinfo(pt).get('cat') in ('ref', 'rref')
            nxt = []
            for s, vs in outs:
                if isinstance(vs, Throw):
                    nxt.append((s, vs))
                    continue
                if byref:
                    for s2, l in self.lv(a, s, fr):
                        nxt.append((s2, l if isinstance(l, Throw) else vs + [('ref', l)]))
                else:
                    for s2, v in self.rv(a, s, fr):
                        nxt.append((s2, v if isinstance(v, Throw) else vs + [v]))
            outs = nxt
        return outs

    def bind_params(self, st, nf, f, args):
        for i, p in enumerate(f['p']):
            loc = ('L', nf.fid, p['d'])
            if i >= len(args):
                st.mem[loc] = self.fresh('arg')
                continue
            a = args[i]
            byref = self.p.tinfo(p['t']).get('cat') in ('ref', 'rref')
            if byref:
                if a[0] == 'ref' or a[0] == 'refw':
                    st.mem[loc] = ('ref', a[1])
                else:
                    l = self.tmp(st)
                    self.store(st, l, a, p['t'], nf, None, True)
                    st.mem[loc] = ('ref', l)
            else:
                if a[0] in ('ref', 'refw'):
                    a = a[1][1] if a[1][0] == 'lit' else self.load(st, a[1], p['t'], nf, None, True)
                self.store(st, loc, a, p['t'], nf, None, True)

    def run_body(self, st, nf, f):
        if self.p.tinfo(f.get('rt')).get('cat') in ('ref', 'rref'):
            pass
        outs = self.exec(f['b'], st, nf)
        res = []
        for s, kind, val in outs:
            res += self.leave(s, nf, kind, val)
        if f.get('noexcept'):
            r2 = []
            for s, v in res:
                if isinstance(v, Throw):
                    self.emit(s, 'terminate', v, None, v.site, nf)
                    # the path ends the process; it is kept for reporting only
                    self.note_terminate(s, v)
                else:
                    r2.append((s, v))
            res = r2
        return res

    def note_terminate(self, st, v):
        self.terminated = getattr(self, 'terminated', [])
        self.terminated.append((st, v))

    def leave(self, st, nf, kind, val):
        """destroys parameters and forgets the frame"""
        v = val if kind in ('ret', 'throw') else ('void',)
        if v is None:
            v = ('void',)
        outs = [(st, v)]
        for p in reversed(nf.fn['p']):
            if self.p.tinfo(p['t']).get('cat') in ('ref', 'rref'):
                continue
            nxt = []
            for s, w in outs:
                loc = ('L', nf.fid, p['d'])
                for s2 in self.destroy(s, loc, p['t'], nf, w):
                    nxt.append((s2, w))
            outs = nxt
        for s, _ in outs:
            fid = nf.fid
            for k in [k for k in s.mem if self.local_root(k) == fid]:
                del s.mem[k]
        return outs

    @staticmethod
    def local_root(k):
        while k[0] == '.':
            k = k[1]
        return k[1] if k[0] == 'L' else None

    def call(self, e, st, fr):
        fn = e.get('fn')
        site = self.site(e, fr)
        if fn is None and 'mp' in e:
            out = []
            for s, vs in self.seq([e['obj'], e['mp']] + e.get('args', []), st, fr, lambda x: 'l' if x.get('lv') and x['k'] != 'fnref' else 'r'):
                if isinstance(vs, Throw):
                    out.append((s, vs))
                    continue
                obj, f = vs[:2]
                if e['mp'].get('lv') and e['mp']['k'] != 'fnref':
                    f = self.load(s, f, e['mp'].get('t'), fr, site)
                if e.get('arrow') and e['obj'].get('lv'):
                    obj = self.load(s, obj, e['obj'].get('t'), fr, site)
                this = ('ref', self.deref(obj) if e.get('arrow') else obj)
                args = [('ref', v) if a.get('lv') else v for v, a in zip(vs[2:], e.get('args', []))]
                if f[0] == 'fn':
                    out += self.call_value(f, [this] + args, s, fr, site, e.get('t'))
                else:
                    self.unknown['->*'] = self.unknown.get('->*', 0) + 1
                    self.emit(s, 'unknown', '->*', (this,) + tuple(args), site, fr)
                    out.append((s, ('sym', 'ext:->*', next(self.ids))))
            return out
        if fn is None:
            out = []
            for s, vs in self.seq([e['callee']] + e.get('args', []), st, fr, lambda x: 'l' if x.get('lv') and x['k'] != 'fnref' else 'r'):
                if isinstance(vs, Throw):
                    out.append((s, vs))
                    continue
                args = [('ref', v) if a.get('lv') else v for v, a in zip(vs[1:], e.get('args', []))]
                c = vs[0]
                if e['callee'].get('lv') and e['callee']['k'] != 'fnref':
                    c = self.load(s, c, e['callee'].get('t'), fr, site)
                out += self.call_value(c, args, s, fr, site, e.get('t'))
            return out
        self.callsites += 1
        f = self.p.functions.get(fn['f'])
        q = norm(fn['n'])
        # object
        outs = [(st, None)]
        obj = e.get('obj')
        if obj is not None and not fn.get('static'):
            if e.get('arrow'):
                outs = [(s, v if isinstance(v, Throw) else self.deref(v)) for s, v in self.rv(obj, st, fr)]
            else:
                outs = self.lv(obj, st, fr)
        res = []
        repo = f is not None or fn.get('repo') or fn['f'] in self.p.overriders
        for s, this in outs:
            if isinstance(this, Throw):
                res.append((s, this))
                continue
            if repo:
                ptypes = [p['t'] for p in f['p']] if f is not None else fn.get('pt', [])
                for s2, args in self.eval_args(e.get('args', []), ptypes, s, fr):
                    if isinstance(args, Throw):
                        res.append((s2, args))
                        continue
                    res += self.dispatch(fn, f, q, this, args, s2, fr, site, e)
            else:
                for s2, vs in self.seq(e.get('args', []), s, fr, lambda x: 'l' if x.get('lv') and x['k'] not in ('str', 'fnref') else 'r'):
                    if isinstance(vs, Throw):
                        res.append((s2, vs))
                        continue
                    args = [('ref', v) if a.get('lv') and a['k'] not in ('str', 'fnref') else v for v, a in zip(vs, e.get('args', []))]
                    res += self.models.call(self, s2, q, fn, e, this, args, [a.get('t') for a in e.get('args', [])], fr, site)
        if len(res) > self.max_states:
            raise TooMany('too many traces in %s' % fr.fn['n'])
        return res

    def dispatch(self, fn, f, q, this, args, st, fr, site, e):
        key = fn['f']
        targets = [key]
        if fn.get('virt') and not e.get('nonvirt'):
            dyn = self.dyn_class(st, this)
            ov = self.all_overriders(key)
            cands = ([key] if f is not None and 'b' in f else []) + ov
            if dyn:
                c2 = [k for k in cands if self.p.functions[k].get('cls') == dyn]
                cands = c2 or cands
            targets = sorted(set(cands))
        if f is not None and f.get('lambda'):
            clo = self.peek(st, this) if this is not None else None
            if clo is not None and clo[0] == 'clo':
                return self.call_closure(clo, f, args, st, fr, site)
            self.note('call of an unknown closure at %s' % (site,))
            return [(st, self.fresh('clo'))]
        res = []
        for i, k in enumerate(targets):
            g = self.p.functions.get(k)
            s = st if i == len(targets) - 1 else st.copy()
            if len(targets) > 1:
                s.pc[('dyn', this, k)] = True
            gq = norm(g['n']) if g else q
            if gq in self.opaque:
                h = self.opaque[gq]
                res += h(self, s, this, args, fr, site, g or fn)
                continue
            if g is None or 'b' not in g:
                if g is not None and g.get('defaulted'):
                    res += self.defaulted(g, this, args, s, fr, site)
                    continue
                self.unknown[gq] = self.unknown.get(gq, 0) + 1
                self.emit(s, 'unknown', gq, tuple(args), site, fr)
                res.append((s, self.fresh('ret')))
                continue
            res += self.call_repo(g, this, args, s, fr, site)
        return res

    def defaulted(self, g, this, args, st, fr, site):
        cls = g.get('cls')
        if g.get('bn') == 'operator=' and args:
            v = self.load(st, args[0][1], cls, fr, site) if args[0][0] == 'ref' else args[0]
            self.store(st, this, v, cls, fr, site)
            return [(st, ('ref', this))]
        return [(st, ('void',))]

    def all_overriders(self, key):
        out = []
        for k in self.p.overriders.get(key, []):
            if 'b' in self.p.functions[k]:
                out.append(k)
            out += self.all_overriders(k)
        return out

    def dyn_class(self, st, this):
        if this is not None and this[0] == 'heap':
            return self.heap_t.get(this)
        return self.objclass.get(this) if hasattr(self, 'objclass') else None

    def call_repo(self, g, this, args, st, fr, site, caps=None):
        depth = (fr.depth if fr else 0) + 1
        n = 0
        f = fr
        while f is not None:
            if f.fn is g:
                n += 1
            f = f.up
        if depth > 80 or n > 2:
            self.note('recursion through %s is cut' % g['n'])
            self.emit(st, 'unknown', 'recursion:' + g['n'], (), site, fr)
            return [(st, self.fresh('rec'))]
        self.fn_seen.add(g['key'])
        nf = Frame(next(self.ids), g, this, caps, depth, fr)
        self.bind_params(st, nf, g, args)
        return self.run_body(st, nf, g)

    def call_closure(self, clo, g, args, st, fr, site):
        if g is None:
            ops = [self.p.functions[o] for o in clo[1] if o in self.p.functions and 'b' in self.p.functions[o]]
            m = [o for o in ops if len(o['p']) == len(args)]
            if not (m or ops):
                self.note('closure without a body at %s' % (site,))
                return [(st, self.fresh('clo'))]
            g = (m or ops)[0]
            args = args[:len(g['p'])]
        caps = {}
        nfid = None
        this = clo[2]
        depth = (fr.depth if fr else 0) + 1
        if depth > 80:
            self.note('recursion through %s is cut' % g['n'])
            return [(st, self.fresh('rec'))]
        self.fn_seen.add(g['key'])
        nf = Frame(next(self.ids), g, this, caps, depth, fr)
        for d, m, v in (c[:3] for c in clo[3]):
            if d == 'this':
                continue
            if m == 'r':
                caps[d] = v
            else:
                loc = ('L', nf.fid, d)
                if v[0] == 'rec':
                    self.store(st, loc, v, v[1], nf, None, True)
                else:
                    st.mem[loc] = v
        self.bind_params(st, nf, g, args)
        return self.run_body(st, nf, g)

    def call_value(self, f, args, st, fr, site, rt=None, via=None):
        """calls a callable value; args are ('ref', loc) or values"""
        if f[0] == 'clo':
            return self.call_closure(f, None, args, st, fr, site)
        if f[0] == 'bindf':
            return self.call_value(f[1], list(f[2]) + args, st, fr, site, rt)
        if f[0] == 'refw':
            return self.call_value(self.load(st, f[1], None, fr, site), args, st, fr, site, rt)
        if f[0] == 'fn':
            g = self.p.functions.get(f[1])
            if g is not None:
                this = None
                if g.get('cls') and not g.get('static') and args:
                    a = args[0]
                    if a[0] in ('ref', 'refw'):
                        v = self.peek(st, a[1])
                        this = self.deref(v) if v[0] in ('ptr',) else a[1]
                    else:
                        this = self.deref(a)
                    args = args[1:]
                fnr = {'f': g['key'], 'n': g['n'], 'virt': g.get('virt')}
                return self.dispatch(fnr, g, norm(g['n']), this, args, st, fr, site, {})
        if f[0] == 'fld' and args:
            a = args[0]
            if a[0] != 'ref':
                a = ('ref', ('tmp', next(self.ids)))
                st.mem[a[1]] = args[0]
            return [(st, ('ref', ('.', a[1], f[1])))]
        if f[0] == 'null':
            return [(st, Throw('std::bad_function_call', None, site, fr.fn['n'] if fr else None))]
        out = []
        for s, ok in self.branch(st, self.nn(f)):
            if not ok:
                out.append((s, Throw('std::bad_function_call', None, site, fr.fn['n'] if fr else None)))
                continue
            s2 = s.copy()
            n = next(self.ids)
            self.emit(s, 'cb', f, n, site, fr)
            self.emit(s2, 'cb', f, n, site, fr)
            self.emit(s2, 'cbthrow', f, n, site, fr)
            out.append((s, ('void',) if rt == 'void' else ('cbret', f, n)))
            out.append((s2, Throw('user', None, site, fr.fn['n'] if fr else None)))
        return out

    # ------------------------------------------------------------------ destruction
    def destroy(self, st, loc, t, fr, keep=None):
        """runs the destructor of the object at loc; [states]"""
        t = self.p.strip(t) if t else t
        v = st.mem.get(loc)
        if v is None and not self.needs_dtor(t or '?'):
            # parts may hold handles (closures, pairs)
            ks = [k for k in st.mem if self.under(k, loc)]
            if not ks:
                return [st]
            ptrs = set()
            for k in ks:
                heap_ptrs(st.mem[k], ptrs)
                del st.mem[k]
            return self.collect(st, ptrs, fr, keep)
        tm = self.tm(t)
        if v is not None and v[0] == 'ref':
            return [st]
        if v is not None and v[0] == 'guard':
            if v[3]:
                self.release(st, v[1], v[2], None, fr)
            st.mem.pop(loc, None)
            return [st]
        if v is not None and v[0] == 'guards':
            for m, mode in reversed(v[1]):
                self.release(st, m, mode, None, fr)
            st.mem.pop(loc, None)
            return [st]
        if tm == 'std::jthread':
            cur = self.peek(st, loc)
            if cur[0] != 'nothread':
                self.emit(st, 'reqstop', loc, cur, None, fr)
                self.emit(st, 'join', loc, 'dtor', None, fr)
            st.mem.pop(loc, None)
            return [st]
        if tm == 'std::thread':
            cur = self.peek(st, loc)
            if cur[0] == 'thread':
                self.emit(st, 'terminate', 'joinable thread destroyed', cur, None, fr)
            st.mem.pop(loc, None)
            return [st]
        rec = self.p.records.get(t) if t else None
        if rec is not None:
            sts = [st]
            d = self.p.functions.get(rec.get('dtor') or '')
            if d is not None and 'b' in d and not d.get('defaulted'):
                nxt = []
                for s in sts:
                    for s2, r in self.call_repo(d, loc, [], s, fr, tuple(d['l'])):
                        nxt.append(s2)
                sts = nxt
            for f in reversed(rec['fields']):
                if self.p.tinfo(f['t']).get('cat') in ('ref', 'rref', 'int', 'bool', 'enum'):
                    continue
                nxt = []
                for s in sts:
                    nxt += self.destroy(s, ('.', loc, f['name']), f['t'], fr, keep)
                sts = nxt
            for b in reversed(rec['bases']):
                nxt = []
                for s in sts:
                    nxt += self.destroy(s, loc, b, fr, keep) if self.p.records.get(b) else [s]
                sts = nxt
            for s in sts:
                for k in [k for k in s.mem if self.under(k, loc)]:
                    del s.mem[k]
            return sts
        cur = v if v is not None else self.peek(st, loc)
        d = st.mem.pop(('.', loc, '~'), None)
        if d is not None:
            # a deleter of the user: it is all that happens
            shared = tm == 'std::shared_ptr'
            sts = [st] if cur[0] == 'null' and not shared else [s for s, _ in self.call_value(d, [cur], st, fr, None)]
            for s in sts:
                for k in [k for k in s.mem if self.under(k, loc)]:
                    del s.mem[k]
            return sts
        ks = [k for k in st.mem if self.under(k, loc)]
        ptrs = set()
        for k in ks:
            heap_ptrs(st.mem[k], ptrs)
            del st.mem[k]
        sts = self.collect(st, ptrs, fr, keep)
        if tm in ('std::shared_ptr', 'std::unique_ptr'):
            nxt = []
            for s in sts:
                nxt += self.drop(s, cur, self.p.targ(t), loc, fr, keep)
            sts = nxt
        return sts

    @staticmethod
    def under(k, loc):
        while True:
            if k == loc:
                return True
            if k[0] == '.':
                k = k[1]
            else:
                return False

    def collect(self, st, ptrs, fr, keep):
        """heap objects that nothing refers to any more are destroyed"""
        sts = [st]
        for p in sorted(ptrs, key=repr):
            t = self.heap_t.get(p[1])
            if not t or not self.needs_dtor(t):
                continue
            nxt = []
            for s in sts:
                if self.reachable(s, p, keep):
                    nxt.append(s)
                else:
                    nxt += self.destroy(s, p[1], t, fr, keep)
            sts = nxt
        return sts

    def reachable(self, st, p, keep):
        if keep is not None and not isinstance(keep, Throw) and strong_has(keep, p):
            return True
        for k, v in st.mem.items():
            if strong_has(v, p):
                return True
        return False

    def drop(self, st, v, t, loc, fr, keep):
        """a strong reference held by a member or a local goes away"""
        if v[0] != 'init' or t is None:
            return [st]
        if not any(self.needs_dtor(x) for x in [t] + self.derived(t)):
            return [st]
        own = v[1]
        if own != loc and own not in st.mem:
            return [st]                      # the member itself still owns it
        if self.reachable(st, v, keep):
            return [st]
        self.emit(st, 'drop', v, t, None, fr)
        cands = [x for x in [t] + self.derived(t) if not self.p.records.get(x, {}).get('abstract')]
        out = []
        for i, c in enumerate(cands):
            s = st if i == len(cands) - 1 else st.copy()
            if len(cands) > 1:
                s.pc[('dyn', ('*', v), c)] = True
            out += self.destroy(s, ('*', v), c, fr, keep)
        return out

    # ------------------------------------------------------------------ locks
    def acquire(self, st, m, mode, site, fr):
        self.emit(st, 'acq', m, mode, site, fr)
        st.held = st.held + ((m, mode),)

    def release(self, st, m, mode, site, fr):
        self.emit(st, 'rel', m, mode, site, fr)
        h = list(st.held)
        for i in range(len(h) - 1, -1, -1):
            if h[i][0] == m and (mode is None or h[i][1] == mode):
                del h[i]
                break
        else:
            self.emit(st, 'badrel', m, mode, site, fr)
        st.held = tuple(h)

    def havoc_guarded(self, st, m):
        """after a lock was released and taken again, the owner's fields may have any value"""
        if m is None or m[0] != '.':
            return
        owner = m[1]
        for k in [k for k in st.mem if self.under(k, owner) and k != owner and st.mem[k][0] != 'ref']:
            st.mem[k] = ('sym', 'hv', next(self.ids), k)
        t = self.loc_class(owner)
        if t:
            for f in self.p.fields(t) or []:
                if self.tm(f['t']) in MUTEXES or self.p.tinfo(f['t']).get('cat') in ('ref', 'rref') or f['t'].startswith('const '):
                    continue
                l = ('.', owner, f['name'])
                if l not in st.mem and not self.p.records.get(self.p.strip(f['t'])):
                    st.mem[l] = ('sym', 'hv', next(self.ids), l)

    def loc_class(self, loc):
        for t, owner in getattr(self, 'this_class', {}).items():
            if owner == loc:
                return t
        return None

    # ------------------------------------------------------------------ statements
    def end_full(self, st, v, mark, fr):
        """destroys the temporaries of a full-expression"""
        if not st.temps:
            return [(st, v)]
        temps, st.temps = st.temps, ()
        outs = [st]
        for l, t in reversed(temps):
            nxt = []
            for s in outs:
                nxt += self.destroy(s, l, t, fr, v)
            outs = nxt
        for s in outs:
            names = set(l for l, _ in temps)
            for k in [k for k in s.mem if k[0] == 'tmp' and k in names or k[0] == '.' and root(k) in names]:
                del s.mem[k]
        return [(s, v) for s in outs]

    def full(self, st, fr, fn):
        """evaluates a full-expression with its own temporaries"""
        saved, st.temps = st.temps, ()
        out = []
        for s, v in fn(st):
            for s2, v2 in self.end_full(s, v, None, fr):
                s2.temps = saved
                out.append((s2, v2))
        return out

    def push(self, st):
        st.scopes = st.scopes + ((),)

    def declare(self, st, loc, t):
        if st.scopes:
            st.scopes = st.scopes[:-1] + (st.scopes[-1] + ((loc, t),),)

    def pop(self, st, fr, keep):
        if self.cells:
            self.flush_all(st, len(st.scopes))
        vs = st.scopes[-1]
        st.scopes = st.scopes[:-1]
        outs = [st]
        for loc, t in reversed(vs):
            nxt = []
            for s in outs:
                nxt += self.destroy(s, loc, t, fr, keep)
            outs = nxt
            for s in outs:
                for k in [k for k in s.mem if self.under(k, loc)]:
                    del s.mem[k]
        return outs

    def scoped(self, st, fr, fn):
        self.push(st)
        out = []
        for s, kind, val in fn(st):
            for s2 in self.pop(s, fr, val):
                out.append((s2, kind, val))
        return out

    def block(self, stmts, st, fr, start=0):
        outs = [(st, 'norm', None)]
        for x in stmts[start:]:
            if x is None:
                continue
            nxt = []
            for s, kind, val in outs:
                if kind != 'norm':
                    nxt.append((s, kind, val))
                else:
                    nxt += self.exec(x, s, fr)
            outs = nxt
            if len(outs) > self.max_states:
                raise TooMany('too many traces in %s' % fr.fn['n'])
        return outs

    def exec(self, x, st, fr):
        """[(state, 'norm'|'ret'|'brk'|'cont'|'throw', value)]"""
        if x is None:
            return [(st, 'norm', None)]
        k = x['s']
        if k == 'block':
            return self.scoped(st, fr, lambda s: self.block(x['b'], s, fr))
        if k == 'expr':
            e = x['e']
            out = []
            for s, v in self.full(st, fr, lambda s: self.discard(e, s, fr)):
                out.append((s, 'throw', v) if isinstance(v, Throw) else (s, 'norm', None))
            return out
        if k == 'decl':
            outs = [(st, 'norm', None)]
            for d in x['v']:
                nxt = []
                for s, kind, val in outs:
                    nxt += [(s, kind, val)] if kind != 'norm' else self.decl(d, s, fr)
                outs = nxt
            return outs
        if k == 'return':
            if 'e' not in x or x['e'] is None:
                return [(st, 'ret', ('void',))]
            out = []
            rt = fr.fn.get('rt')
            if rt is not None and self.p.tinfo(rt).get('cat') in ('ref', 'rref'):
                r = self.full(st, fr, lambda s: [(s2, l if isinstance(l, Throw) else ('ref', l)) for s2, l in self.lv(x['e'], s, fr)])
            else:
                r = self.full(st, fr, lambda s: self.rv(x['e'], s, fr))
            for s, v in r:
                out.append((s, 'throw' if isinstance(v, Throw) else 'ret', v))
            return out
        if k == 'if':
            def run(s0):
                res = []
                for s, kind, val in self.pre(x, s0, fr):
                    if kind != 'norm':
                        res.append((s, kind, val))
                        continue
                    for s2, c in self.full(s, fr, lambda q: self.cond(x['c'], q, fr)):
                        if isinstance(c, Throw):
                            res.append((s2, 'throw', c))
                        elif c:
                            res += self.exec(x['a'], s2, fr)
                        else:
                            res += self.exec(x.get('b'), s2, fr)
                return res
            return self.scoped(st, fr, run)
        if k == 'while':
            return self.loop_while(x, st, fr, inc=None)
        if k == 'do':
            return self.loop_do(x, st, fr)
        if k == 'for':
            def run(s0):
                res = []
                for s, kind, val in (self.exec(x['init'], s0, fr) if x.get('init') else [(s0, 'norm', None)]):
                    res += [(s, kind, val)] if kind != 'norm' else self.loop_for(x, s, fr)
                return res
            return self.scoped(st, fr, run)
        if k == 'range':
            def run(s0):
                res = []
                for s, kind, val in (self.exec(x['init'], s0, fr) if x.get('init') else [(s0, 'norm', None)]):
                    res += [(s, kind, val)] if kind != 'norm' else self.loop_range(x, s, fr)
                return res
            return self.scoped(st, fr, run)
        if k == 'switch':
            return self.scoped(st, fr, lambda s: self.switch(x, s, fr))
        if k in ('case', 'default'):
            return self.exec(x.get('b'), st, fr)
        if k == 'break':
            return [(st, 'brk', None)]
        if k == 'continue':
            return [(st, 'cont', None)]
        if k == 'null':
            return [(st, 'norm', None)]
        if k == 'try':
            return self.try_(x, st, fr)
        self.note('statement %s at %s is not modelled' % (x.get('c', k), x.get('l')))
        self.emit(st, 'unknown', x.get('c', k), (), tuple(x['l']) if x.get('l') else None, fr)
        return [(st, 'norm', None)]

    def discard(self, e, st, fr):
        if e.get('lv'):
            self.unused = e
            return list(self.lv(e, st, fr))
        out = []
        for s, v in self.rv(e, st, fr):
            if not isinstance(v, Throw):
                if v[0] == 'guard' and v[3]:
                    self.release(s, v[1], v[2], self.site(e, fr), fr)
                elif v[0] in ('rec', 'ptr', 'init', 'clo', 'thread'):
                    l = self.tmp(s)
                    self.store(s, l, v, e.get('t'), fr, None, True)
                    s.temps += ((l, e.get('t')),)
            out.append((s, v))
        return out

    def pre(self, x, st, fr):
        outs = self.exec(x['init'], st, fr) if x.get('init') else [(st, 'norm', None)]
        if x.get('cv'):
            nxt = []
            for s, kind, val in outs:
                nxt += [(s, kind, val)] if kind != 'norm' else self.decl(x['cv'], s, fr)
            outs = nxt
        return outs

    def decl(self, d, st, fr):
        loc = ('L', fr.fid, d['d'])
        if d.get('static'):
            g = ('G', d['static'])
            self.p.globals.setdefault(d['static'], dict(d, loc=tuple(d['l'])))
            st.mem[loc] = ('ref', g)
            self.emit(st, 'static', g, d['t'], tuple(d['l']), fr)
            return [(st, 'norm', None)]
        ti = self.p.tinfo(d['t'])
        out = []
        if 'init' not in d or d['init'] is None:
            if ti.get('cat') in ('class', 'lambda'):
                for s, v in self.default_at(loc, d['t'], st, fr):
                    self.declare(s, loc, d['t'])
                    out.append((s, 'throw' if isinstance(v, Throw) else 'norm', v))
                return out
            st.mem[loc] = ('undef',)
            self.declare(st, loc, d['t'])
            return [(st, 'norm', None)]
        isref = ti.get('cat') in ('ref', 'rref')

        def ev(s):
            if isref:
                r = []
                for s2, l in self.lv(d['init'], s, fr):
                    if not isinstance(l, Throw):
                        s2.mem[loc] = ('ref', l)
                    r.append((s2, l))
                return r
            return self.init_at(loc, d['t'], d['init'], s, fr)
        for s, v in self.full(st, fr, ev):
            if isinstance(v, Throw):
                out.append((s, 'throw', v))
                continue
            if not isref:
                self.declare(s, loc, d['t'])
            for i, b in enumerate(d.get('binds') or []):
                base = s.mem[loc][1] if isref else loc
                n = b.get('fld') or ('first', 'second', 'third')[i]
                bl = ('.', base, n)
                s.mem[('L', fr.fid, b['d'])] = ('ref', bl)
            out.append((s, 'norm', None))
        return out

    def switch(self, x, st, fr):
        outs = []
        body = x['b']['b'] if x['b'] and x['b']['s'] == 'block' else [x['b']]
        # labels, in order, with the index of the statement they precede
        items, labels = [], []

        def add(s):
            while s is not None and s['s'] in ('case', 'default'):
                labels.append((s.get('v'), len(items)) if s['s'] == 'case' else (None, len(items)))
                s = s.get('b')
            items.append(s)
        for s in body:
            add(s)
        for s, kind, val in self.pre(x, st, fr):
            if kind != 'norm':
                outs.append((s, kind, val))
                continue
            for s2, v in self.full(s, fr, lambda q: self.rv(x['c'], q, fr)):
                if isinstance(v, Throw):
                    outs.append((s2, 'throw', v))
                    continue
                rest = s2
                for lab, idx in labels:
                    if lab is None or rest is None:
                        continue
                    cvs = self.rv(lab, rest, fr)
                    cvv = cvs[0][1]
                    got = None
                    for s3, c in self.branch(rest, self.cmp('==', v, cvv)):
                        if c:
                            outs += self.brk(self.block(items, s3, fr, idx))
                        else:
                            got = s3
                    rest = got
                if rest is not None:
                    dl = [i for lab, i in labels if lab is None]
                    outs += self.brk(self.block(items, rest, fr, dl[0])) if dl else [(rest, 'norm', None)]
        return outs

    @staticmethod
    def brk(outs):
        return [(s, 'norm' if k == 'brk' else k, v) for s, k, v in outs]

    def try_(self, x, st, fr):
        out = []
        depth = len(st.scopes)
        for s, kind, val in self.exec(x['b'], st, fr):
            if kind != 'throw':
                out.append((s, kind, val))
                continue
            out += self.handle(x, s, val, fr)
        return out

    def handle(self, x, st, thr, fr):
        out = []
        cur = st
        for h in x['h']:
            t = h.get('t')
            if t is None:
                m = 'yes'
            elif thr.typ == 'user':
                m = 'maybe'
            elif self.p.derives(thr.typ, t):
                m = 'yes'
            else:
                m = 'no'
            if m == 'no':
                continue
            s = cur if m == 'yes' else cur.copy()
            if m == 'maybe':
                s.pc[('ok', 'caught', next(self.ids))] = True
            s.exc = s.exc + (thr,)
            self.emit(s, 'catch', thr.typ, t, thr.site, fr)

            def run(q, h=h):
                if h.get('v') and h['v'].get('d'):
                    l = self.tmp(q)
                    q.mem[l] = thr.val if thr.val is not None else ('sym', 'exc', next(self.ids))
                    q.mem[('L', fr.fid, h['v']['d'])] = ('ref', l)
                return self.exec(h['b'], q, fr)
            for s2, kind, val in self.scoped(s, fr, run):
                s2.exc = s2.exc[:-1]
                out.append((s2, kind, val))
            if m == 'yes':
                return out
        out.append((cur, 'throw', thr))
        return out

    # ------------------------------------------------------------------ loops
    def lits(self, st, base):
        return [(a, p) for a, p in st.pc.items() if a not in base.pc]

    def modified(self, a, b):
        """locations that differ between the state a at loop entry and the state b at a back edge"""
        out = set()
        for k, v in b.mem.items():
            if a.mem.get(k) != v:
                if k not in a.mem and v == ('init', k):
                    continue
                out.add(k)
        for k in a.mem:
            if k not in b.mem:
                out.add(k)
        return out

    def summarise(self, st, body, hav=True):
        """runs the body from a state where every location it modifies has an arbitrary value.
        returns (outcomes, modified locations, loop id, start state)"""
        lid = next(self.ids)
        M = set()
        for it in range(6):
            s0 = st.copy()
            for l in M:
                s0.mem[l] = ('op', 'lv', st.mem.get(l, ('init', l)), lid)
            start = s0.copy()
            saved_spawns = len(self.spawns)
            outs = body(s0.copy())
            new = set()
            for s, kind, val in outs:
                if kind in ('norm', 'cont'):
                    new |= self.modified(start, s)
            new = set(l for l in new if l[0] != 'heap' or l in st.mem)
            if new <= M:
                return outs, M, lid, start
            M |= new
        self.note('a loop did not stabilise')
        return outs, M, lid, start

    def bound(self, v, ix):
        """renames the loop's element to a bound name"""
        d = 1 + bound_depth(v)
        return canon(subst(v, {ix: ('bix', d)}))

    def loop_each(self, st, fr, dom, site, body, ix):
        """a loop over the elements of a collection; body(state) -> outcomes for the element ('ix')"""
        outs, M, lid, start = self.summarise(st, body)
        info = LoopInfo()
        info.id, info.kind, info.dom, info.site, info.fn, info.elem = lid, 'each', dom, site, fr.fn['n'], ix
        info.back, info.exits = [], []
        self.loops.append(info)
        backs = [(s, k, v) for s, k, v in outs if k in ('norm', 'cont')]
        exits = [(s, k, v) for s, k, v in outs if k not in ('norm', 'cont')]
        for s, k, v in backs:
            info.back.append((self.lits(s, start), s.events(start.ev), s))
            if s.held != start.held:
                self.emit(st, 'imbalance', None, s.held, site, fr)
        groups = {}
        for s, k, v in exits:
            key = (k, v.typ if isinstance(v, Throw) else canon(subst(v, {ix: ('bix', 1)})) if v is not None and self.is_plain(v) else None)
            if k == 'throw':
                # a failure of something called may happen or not, whatever the facts
                sure = [x.kind for x in s.events(start.ev) if x.kind in ('throw', 'callthrow', 'cbthrow')]
                key += (sure == ['throw'],)
            groups.setdefault(key, []).append((s, k, v))
        res = []
        exatoms = []
        for key, g in groups.items():
            terms = []
            for s, k, v in g:
                l = [(a, p) for a, p in self.lits(s, start) if not noise(a)]
                terms.append([(self.bound(a, ix), p) for a, p in l])
            dnf = simplify_dnf(terms)
            if key[0] == 'throw' and (not key[2] or all(not t for t in dnf)):
                dnf = None       # leaves for a reason that is no fact about the net
            elif dnf == ((),):
                dnf = None if not M else None
            atom = ('ex', canon(dom), dnf) if dnf else None
            if atom:
                exatoms.append(atom)
            seen = {}
            for s, k, v in g:
                evs = s.events(start.ev)
                sig = (k, tuple((x.kind, canon(x.a) if isinstance(x.a, tuple) else str(x.a)) for x in evs), s.held,
                       v.site if isinstance(v, Throw) else None)
                if k == 'throw' and sig in seen:
                    # the same failure for other facts: the first one stands for all
                    first, idx = seen[sig]
                    mine = dict(self.lits(s, start))
                    for a, q in self.lits(first, start):
                        if mine.get(a) != q and a != atom:
                            first.pc.pop(a, None)
                    info.exits[idx] = info.exits[idx][:2] + (self.lits(first, start),) + info.exits[idx][3:]
                    continue
                if atom and not self.assume(s, atom, True):
                    continue
                info.exits.append((k, v, self.lits(s, start), evs, s))
                idx = len(info.exits) - 1
                seen[sig] = s, idx
                s.ev = st.ev
                self.emit_raw(s, 'loop', info, idx, site, st.held, fr)
                for x in evs:
                    s.ev = (s.ev, x)
                res.append((s, 'norm' if k == 'brk' else k, v))
        # normal completion
        s = st
        s.ev = st.ev
        post = [s]
        self.emit_raw(s, 'loop', info, None, site, st.held, fr)
        ok = True
        for a in exatoms:
            if not self.assume(s, a, False):
                ok = False
        if not ok:
            return res
        for l in sorted(M, key=repr):
            v0 = s.mem.get(l, ('init', l))
            lv = ('op', 'lv', v0, lid)
            nxt = []
            for q in post:
                nxt += self.close_form(q, l, v0, lv, info, backs, start, dom, ix, lid)
            post = nxt
        return res + [(q, 'norm', None) for q in post]

    def is_plain(self, v):
        return True

    def emit_raw(self, st, kind, a, b, site, held, fr):
        st.ev = (st.ev, Ev(kind, a, b, site, held, fr.fn['n']))

    def close_form(self, st, l, v0, lv, info, backs, start, dom, ix, lid):
        if has(l, ix):
            st.mem.pop(l, None)
            return [st]
        if not backs:
            return [st]
        vals = []
        for s, k, v in backs:
            vals.append((self.lits(s, start), s.mem.get(l, ('init', l))))
        # 'x = x && c': with x already false the value does not change
        vals = [([(a, q) for a, q in li if a != ('t', lv)], lv if v[0] == 'b' and (('t', lv), v[1]) in [tuple(y) for y in li] else v)
                for li, v in vals] if all(v == lv or v[0] == 'b' for li, v in vals) else vals
        ch = [(li, v) for li, v in vals if v != lv]

        def dnf(paths):
            return simplify_dnf([[(self.bound(a, ix), p) for a, p in li if not noise(a)] for li, v in paths])
        # collected elements
        if all(v[0] == 'vec' and len(v) == 3 and v[1] == ('all', lv) and v[2][0] == 'one' for li, v in ch) and ch:
            xs = {}
            for li, v in ch:
                xs.setdefault(self.bound(v[2][1], ix), []).append((li, v))
            parts = tuple(('each', canon(dom), dnf(p), x) for x, p in xs.items())
            pre = () if v0 == EMPTY else v0[1:] if v0[0] == 'vec' else (('all', v0),)
            st.mem[l] = ('vec',) + pre + (parts if len(parts) == 1 else (('mix',) + parts,))
            return [st]
        # boolean accumulators
        if ch and all(v[0] == 'b' for li, v in ch) and len(set(v for li, v in ch)) == 1:
            b = ch[0][1]
            atom = ('ex', canon(dom), dnf(ch))
            if dnf(ch) == ((),) and len(ch) == len(vals):
                atom = self.neg(self.cmp('==', ('op', 'size', canon(dom)), ('i', 0)))[1], None
                atom = ('ne', canon(dom))
            d = self.decide(st, atom)
            out = []
            for pol in ((True, False) if d is None else (d,)):
                q = st.copy() if d is None and pol else st
                if d is None:
                    q.pc[atom] = pol
                q.mem[l] = b if pol else v0
                out.append(q)
            return out
        # the value of the last such element / counters: only their shape is kept
        if ch and all(v == ('op', '+', lv, ('i', 1)) for li, v in ch):
            st.mem[l] = self.arith('+', v0, ('op', 'count', canon(dom), dnf(ch)))
            return [st]
        st.mem[l] = ('sym', 'loop', next(self.ids), l)
        return [st]

    def loop_range(self, x, st, fr):
        out = []
        site = tuple(x['l'])
        outer, st.temps = st.temps, ()
        for s, l in self.lv(x['r'], st, fr):
            if isinstance(l, Throw):
                s.temps = outer
                out.append((s, 'throw', l))
                continue
            # the range temporary lives for the whole loop
            t = x['r'].get('t')
            temps, s.temps = s.temps, ()
            c = l[1] if l[0] == 'lit' else self.load(s, l, t, fr, site)
            r = self.iterate(s, fr, c, l, site, lambda q, el: self.range_body(x, q, fr, el))
            for s2, k, v in r:
                if temps:
                    s2.temps = temps
                    for s3, _ in self.end_full(s2, v, None, fr):
                        s3.temps = outer
                        out.append((s3, k, v))
                else:
                    s2.temps = outer
                    out.append((s2, k, v))
        return out

    def range_body(self, x, st, fr, el):
        """el: location or ('val', value) of the element"""
        def run(s):
            d = x['v']
            loc = ('L', fr.fid, d['d'])
            isref = self.p.tinfo(d['t']).get('cat') in ('ref', 'rref')
            if el[0] == 'val' and isref and len(el) > 2 and not (self.p.tinfo(d['t']).get('to') or '').startswith('const ') and self.cellable(s, el[3], el[2], self.p.strip(d['t'])):
                base = self.cell(s, el[3], el[2], self.p.strip(d['t']), fr)
            elif el[0] == 'val':
                base = self.tmp(s)
                self.store(s, base, el[1], d['t'], fr, None, True)
                self.declare(s, base, '?')
            else:
                base = el
            if isref:
                s.mem[loc] = ('ref', base)
            else:
                v = self.load(s, base, d['t'], fr, tuple(x['l']))
                self.store(s, loc, v, d['t'], fr, None, True)
                self.declare(s, loc, d['t'])
            for i, b in enumerate(d.get('binds') or []):
                bb = base if isref else loc
                s.mem[('L', fr.fid, b['d'])] = ('ref', ('.', bb, b.get('fld') or ('first', 'second')[i]))
            outs = self.exec(x['b'], s, fr)
            return outs
        outs = self.scoped(st, fr, run)
        d = x['v']
        for s, k, v in outs:
            s.mem.pop(('L', fr.fid, d['d']), None)
            for b in d.get('binds') or []:
                s.mem.pop(('L', fr.fid, b['d']), None)
        return outs

    def iterate(self, st, fr, c, cloc, site, body):
        """body(state, element) for every element of the container value c"""
        els = self.shaped(c)
        if els is None and c[0] == 'vec' and all(p[0] == 'one' for p in c[1:]):
            els = [('val', p[1], i, cloc) for i, p in enumerate(c[1:])]
        if els is not None:
            outs = [(st, 'norm', None)]
            for p in els:
                nxt = []
                for s, k, v in outs:
                    if k not in ('norm', 'cont'):
                        nxt.append((s, k, v))
                    else:
                        nxt += body(s, p)
                outs = nxt
            return [(s, 'norm' if k in ('brk', 'cont') else k, v) for s, k, v in outs]
        n = next(self.ids)
        ix = ('ix', n)
        if c[0] == 'vec' and len(c) == 2 and c[1][0] == 'all':
            c = c[1][1]
        el = ('[]', c, ix)
        if c[0] == 'op' and c[1] == 'perm' or c[0] == 'vec':
            pass
        return self.loop_each(st, fr, c, site, lambda q: body(q, el), ix)

    def loop_for(self, x, st, fr):
        pat = self.index_loop(x, st, fr)
        if pat is not None:
            c, var, val, ix = pat
            site = tuple(x['l'])

            def body(q):
                q.mem[var] = val
                outs = self.exec(x['b'], q, fr)
                for s, k, v in outs:
                    if s.mem.get(var) == val:
                        s.mem[var] = st.mem.get(var)
                return outs
            if c[0] == 'vec' and len(c) == 2 and c[1][0] == 'all':
                c = c[1][1]
            r = self.loop_each(st, fr, c, site, body, ix)
            return r
        return self.loop_while(x, st, fr, inc=x.get('inc'))

    def flag_loop(self, x, st, fr):
        """the flag a loop depends on, if it is a local variable whose first value is a known fact"""
        c = x.get('c')
        while isinstance(c, dict) and c.get('k') in ('load', 'cast', 'paren', 'icast') and isinstance(c.get('e'), dict):
            c = c['e']
        if not isinstance(c, dict) or c.get('k') != 'ref' or x.get('cv'):
            return None
        v = st.mem.get(('L', fr.fid, c.get('d')))
        return v if v is not None and v[0] in ('B', 'b') else None

    def index_loop(self, x, st, fr):
        """for (i = 0; i < c.size(); ++i) and for (it = c.begin(); it != c.end(); ++it)"""
        inc = x.get('inc')
        if self.shape:
            return None
        if not inc or not x.get('c') or not x.get('init') or x['init']['s'] != 'decl':
            return None
        if inc['k'] == 'un' and inc['op'] in ('++', 'post++') and inc['e']['k'] == 'ref':
            d = inc['e']['d']
        elif inc['k'] == 'call' and inc.get('oper') == '++' and inc.get('obj', {}).get('k') == 'ref':
            d = inc['obj']['d']
        else:
            return None
        var = ('L', fr.fid, d)
        v0 = st.mem.get(var)
        if v0 is None or assigns(x['b'], d):
            return None
        n = next(self.ids)
        ix = ('ix', n)
        if v0 == ('i', 0):
            probe = st.copy()
            probe.mem[var] = ix
            r = self.full(probe, fr, lambda q: self.rv(x['c'], q, fr))
            if len(r) != 1 or isinstance(r[0][1], Throw):
                return None
            v = r[0][1]
            if v[0] == 'B' and v[2] is True and v[1][0] == 'lt' and v[1][1] == ix and v[1][2][0] == 'op' and v[1][2][1] == 'size':
                return v[1][2][2], var, ix, ix
            if v[0] == 'B' and v[2] is False and v[1][0] == 'eq':
                o = [y for y in v[1][1:] if y != ix]
                if len(o) == 1 and o[0][0] == 'op' and o[0][1] == 'size':
                    return o[0][2], var, ix, ix
            return None
        if v0[0] == 'it' and v0[2] == ('begin',):
            probe = st.copy()
            probe.mem[var] = ('it', v0[1], ('probe',), v0[3])
            r = self.full(probe, fr, lambda q: self.rv(x['c'], q, fr))
            if len(r) != 1 or isinstance(r[0][1], Throw):
                return None
            v = r[0][1]
            if v[0] == 'B' and v[2] is False and v[1][0] == 'eq' and any(y[0] == 'it' and y[2] == ('end',) and y[1] == v0[1] for y in v[1][1:]) \
                    and any(y[0] == 'it' and y[2] == ('probe',) for y in v[1][1:]):
                return v0[1], var, ('it', v0[1], ix, v0[3]), ix
        return None

    def loop_while(self, x, st, fr, inc, entered=False):
        site = tuple(x['l'])
        info = LoopInfo()
        conds = []
        if not entered and self.flag_loop(x, st, fr) is not None:
            out = []
            for s, b in self.branch(st, self.flag_loop(x, st, fr)):
                out += self.loop_while(x, s, fr, inc, True) if b else [(s, 'norm', None)]
            return out

        def body(q):
            def run(s):
                res = []
                for s1, kind, val in self.pre({'cv': x.get('cv')}, s, fr):
                    if kind != 'norm':
                        res.append((s1, kind, val))
                        continue
                    cs = self.full(s1, fr, lambda z: self.cond(x['c'], z, fr)) if x.get('c') else [(s1, True)]
                    for s2, c in cs:
                        if isinstance(c, Throw):
                            res.append((s2, 'throw', c))
                        elif not c:
                            res.append((s2, 'done', None))
                        else:
                            for s3, k3, v3 in self.exec(x['b'], s2, fr):
                                if k3 in ('norm', 'cont') and inc is not None:
                                    for s4, v4 in self.full(s3, fr, lambda z: self.discard(inc, z, fr)):
                                        res.append((s4, 'throw', v4) if isinstance(v4, Throw) else (s4, 'norm', None))
                                else:
                                    res.append((s3, k3, v3))
                return res
            return self.scoped(q, fr, run)
        return self.general_loop(st, fr, site, body)

    def unrolled(self, st, body, site):
        """literal-size mode: the loop is followed iteration by iteration"""
        res, states = [], [st]
        for _ in range(max(self.shape.values()) + 2):
            nxt = []
            for s0 in states:
                for s, k, v in body(s0):
                    if k in ('norm', 'cont'):
                        nxt.append(s)
                    else:
                        res.append((s, 'norm' if k in ('brk', 'done') else k, v))
            states = nxt
            if not states:
                break
            if len(states) > 400:
                break
        if states and site not in self.truncated:
            self.truncated.append(site)
        return res

    def general_loop(self, st, fr, site, body):
        if self.shape:
            return self.unrolled(st, body, site)
        outs, M, lid, start = self.summarise(st, body)
        info = LoopInfo()
        info.id, info.kind, info.dom, info.site, info.fn, info.elem = lid, 'while', None, site, fr.fn['n'], None
        info.back, info.exits = [], []
        self.loops.append(info)
        res = []
        for s, k, v in outs:
            evs = s.events(start.ev)
            if k in ('norm', 'cont'):
                info.back.append((self.lits(s, start), evs, s))
                if s.held != start.held:
                    self.emit(st, 'imbalance', None, s.held, site, fr)
        for s, k, v in outs:
            if k in ('norm', 'cont'):
                continue
            evs = s.events(start.ev)
            info.exits.append((k, v, self.lits(s, start), evs, s))
            s.ev = st.ev
            self.emit_raw(s, 'loop', info, len(info.exits) - 1, site, st.held, fr)
            for y in evs:
                s.ev = (s.ev, y)
            res.append((s, 'norm' if k in ('brk', 'done') else k, v))
        return res

    def loop_do(self, x, st, fr):
        site = tuple(x['l'])

        def body(q):
            res = []
            for s3, k3, v3 in self.exec(x['b'], q, fr):
                if k3 not in ('norm', 'cont'):
                    res.append((s3, k3, v3))
                    continue
                for s2, c in self.full(s3, fr, lambda z: self.cond(x['c'], z, fr)):
                    if isinstance(c, Throw):
                        res.append((s2, 'throw', c))
                    elif c:
                        res.append((s2, 'norm', None))
                    else:
                        res.append((s2, 'done', None))
            return res
        return self.general_loop(st, fr, site, body)

    # ------------------------------------------------------------------ entry points
    def start(self, f, this, args, st=None):
        """runs a function from an arbitrary state; returns [(state, value|Throw)]"""
        st = st or St()
        fr = Frame(0, {'n': '<root>', 'l': None, 'p': []}, None, None, 0, None)
        if f.get('kind') == 'ctor':
            r = self.run_ctor(this, f['cls'], f, None, st, fr, {'t': f['cls']}, args)
        else:
            r = self.call_repo(f, this, args, st, fr, tuple(f['l']))
        self.npaths += len(r)
        return r

    def sym_args(self, f, st, fixed=None):
        """symbolic arguments: parameters become the locations ('P', name)"""
        out = []
        for i, p in enumerate(f['p']):
            if fixed and i in fixed:
                out.append(fixed[i])
                continue
            loc = ('P', i)
            if self.p.tinfo(p['t']).get('cat') in ('ref', 'rref'):
                out.append(('ref', loc))
            else:
                out.append(self.load(st, loc, p['t'], None, None, True))
        return out


def outs_ok(outs):
    return [(s, v) for s, v in outs if not isinstance(v, Throw)]


def assigns(x, d):
    """does the statement modify the variable d"""
    if isinstance(x, list):
        return any(assigns(y, d) for y in x)
    if isinstance(x, dict):
        if x.get('k') == 'asg' and x['a'].get('k') == 'ref' and x['a'].get('d') == d:
            return True
        if x.get('k') == 'un' and x['op'] in ('++', '--', 'post++', 'post--', '&') and x['e'].get('k') == 'ref' and x['e'].get('d') == d:
            return True
        if x.get('k') == 'call' and x.get('oper') in ('++', '--', '=', '+=', '-=') and x.get('obj', {}).get('k') == 'ref' and x['obj'].get('d') == d:
            return True
        if x.get('k') == 'lambda' and any(c.get('byref') and c.get('d') == d for c in x['caps']):
            pass
        return any(assigns(v, d) for v in x.values() if isinstance(v, (dict, list)))
    return False
