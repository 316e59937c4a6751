"""What an operation does to an object, tabulated: every extracted path is evaluated over all small states of the object and all
small arguments, and its result and the state it leaves are compared with what the operation has to do."""
from .core import *
from .core import norm
from .evalv import Unknown
from .tables import Eval, Free, Obj, depth
from .mod import Throw, flat
from .rep import show_trace

SELF = ('O', 'self')


class Map(dict):
    __hash__ = object.__hash__

    def pair(self, k):
        """element as an object with first and second"""
        c = self.__dict__.setdefault('pairs', {})
        if k not in c:
            c[k] = Obj(first=k, second=self[k])
        return c[k]

    def at(self, i):
        return self.pair(sorted(self)[i])


class OpEval(Eval):
    def __init__(self, me, roots, st, calls=None):
        super().__init__(me, {}, calls)
        self.roots, self.st, self.heaps = roots, st, {}

    def loc(self, l):
        if l in self.roots:
            return self.roots[l]
        if l[0] == 'R':
            if l[1] in self.roots.get('R', {}):
                return self.roots['R'][l[1]]
            raise Free(l)
        if l[0] == 'heap':
            if l not in self.heaps:
                o = self.heaps[l] = Obj()
                o.fresh = True
                for k in self.st.mem:
                    if k[0] == '.' and k[1] == l:
                        try:
                            o[k[2]] = self.val(self.st.mem[k])
                        except (Unknown, Free):
                            pass
            return self.heaps[l]
        if l[0] == '.' and l[1][0] == '[]' and l in self.st.mem and l[1][1][0] != 'init':
            return self.val(self.st.mem[l])
        if l[0] == '[]':
            c = self.val(l[1])
            if isinstance(c, Map):
                k = l[2]
                if k[0] == 'i' and not isinstance(next(iter(c), 0), int):
                    return c.at(k[1])
                if k[0] == 'ix':
                    return c.at(self.ix[k])
                if k[0] == 'bix':
                    return self.bound[k[1]]
                k = self.val(k)
                if k in c:
                    return c.pair(k)
                raise Missing(l)
            if isinstance(c, list) and l[2][0] in ('init', 'op', 'sym'):
                i = self.val(l[2])
                if isinstance(i, int) and i < len(c):
                    return c[i]
                raise Unknown(l)
        if l[0] == 'lit':
            return self.val(l[1])
        return super().loc(l)

    def elems(self, dom):
        c = self.val(dom)
        if isinstance(c, Map):
            return [c.pair(k) for k in sorted(c)]
        if not isinstance(c, list):
            raise Unknown(dom)
        return c

    def val(self, v):
        k = v[0]
        if k == 's':
            return v[1]
        if k == 'vec':
            out = []
            for p in v[1:]:
                self.part(p, out)
            return out
        if k == 'rec':
            o = Obj()
            for n, x in v[2]:
                try:
                    o[n] = self.val(x)
                except (Unknown, Free):
                    o[n] = ('?', x)
            return o
        if k == 'ref':
            return self.loc(v[1])
        if k == 'void':
            return 'void'
        if k == 'it':
            return v
        if k == 'op':
            o = v[1]
            if o in ('pushb', 'pushf'):
                c, x = list(self.elems(v[2])), self.val(v[3])
                return c + [x] if o == 'pushb' else [x] + c
            if o in ('popb', 'popf'):
                c = list(self.elems(v[2]))
                return c[:-1] if o == 'popb' else c[1:]
            if o == 'put':
                c = self.val(v[2])
                if not isinstance(c, Map):
                    raise Unknown(v)
                n = Map(c)
                key = self.val(v[3])
                e = self.st.mem.get(('.', ('[]', v, v[3]), 'second'))
                if v[4] is not None:
                    n[key] = self.val(v[4])
                elif e is not None:
                    n[key] = self.val(e)
                else:
                    raise Unknown(v)
                return n
            if o == 'erase':
                c = self.val(v[2])
                p = v[3]
                if isinstance(c, list) and p[0] == 'pos' and p[1][0] == 'i':
                    return c[:p[1][1]] + c[p[1][1] + 1:]
                if isinstance(c, list) and p[0] in ('pos', 'found', 'ix') :
                    raise Unknown(v)
                if isinstance(c, list) and p[0] == 'range':
                    a, b = self.position(p[1], c), self.position(p[2], c)
                    return c[:a] + c[b:]
                if isinstance(c, Map) and p[0] == 'key':
                    n = Map(c)
                    n.pop(self.val(p[1]), None)
                    return n
                raise Unknown(v)
            if o == 'size':
                if v[2][0] == 'strv':
                    x = self.val(v[2][1])
                    if not isinstance(x, str):
                        raise Unknown(v)
                    return len(x)
                return len(self.elems(v[2]))
            if isinstance(o, str) and o.startswith('str.') or o == 'strcmp':
                return self.strop(o, [self.val(x) for x in v[2:]], v)
            if o == 'perm':
                c = list(self.elems(v[2]))
                return sorted(c, key=ident) if v[3] in ('sort', 'stable_sort') else c
            if o == 'dups':
                return self.dups(v)
            if o == 'cat':
                return ''.join(str(self.val(x)) for x in v[2:])
        return super().val(v)

    def strop(self, o, xs, v):
        NPOS = (1 << 64) - 1
        FIND = ('str.find_first_of', 'str.find_first_not_of', 'str.find_last_of', 'str.find_last_not_of')
        xs = [chr(x & 255) if isinstance(x, int) and i == 1 and o in ('str.find', 'str.rfind', 'str.starts_with', 'str.ends_with') + FIND else x
              for i, x in enumerate(xs)]
        s = xs[0]
        if not isinstance(s, str):
            raise Unknown(v)
        try:
            if o == 'strcmp' and isinstance(xs[1], str):
                return ((s > xs[1]) - (s < xs[1])) % (1 << 64)
            if o == 'str.substr':
                i, n = xs[1] if len(xs) > 1 else 0, xs[2] if len(xs) > 2 else NPOS
                return s[i:] if i + n >= len(s) else s[i:i + n]
            if o == 'str.find':
                r = s.find(xs[1], xs[2] if len(xs) > 2 else 0)
                return r if r >= 0 else NPOS
            if o == 'str.rfind':
                r = [i for i in range(len(s) - len(xs[1]) + 1) if s.startswith(xs[1], i) and (len(xs) == 2 or i <= xs[2])]
                return r[-1] if r else NPOS
            if o in FIND:
                at = xs[2] if len(xs) > 2 else (0 if 'first' in o else NPOS)
                r = [i for i, c in enumerate(s) if (c in xs[1]) == ('_not' not in o) and (i >= at if 'first' in o else i <= at)]
                return (r[0] if 'first' in o else r[-1]) if r else NPOS
            if o == 'str.compare' and len(xs) == 2 and isinstance(xs[1], str):
                return ((s > xs[1]) - (s < xs[1])) % (1 << 32)
            if o == 'str.starts_with':
                return s.startswith(xs[1])
            if o == 'str.ends_with':
                return s.endswith(xs[1])
            if o in ('str.at', 'str.operator[]') and xs[1] < len(s):
                return ord(s[xs[1]])
            if o in ('str.front', 'str.back') and s:
                return ord(s[0 if o == 'str.front' else -1])
        except TypeError:
            pass
        raise Unknown(v)

    def position(self, it, c):
        if it[0] == 'it' and len(it) > 2:
            p = it[2]
            if p[0] == 'begin':
                return 0
            if p[0] == 'end':
                return len(c)
            if p[0] in ('at', 'pos'):
                i = p[1]
                i = i[1] if isinstance(i, tuple) and i[0] == 'i' else i
                if isinstance(i, int) and 0 <= i <= len(c):
                    return i
        raise Unknown(it)

    def part(self, p, out):
        if p[0] == 'one':
            out.append(self.val(p[1]))
        elif p[0] == 'all':
            out += self.elems(p[1])
        elif p[0] == 'each':
            for x in self.elems(p[1]):
                if self.dnf(p[2], x, p):
                    old = self.bind(p, x)
                    try:
                        out.append(self.val(p[3]))
                    finally:
                        self.bound = old
        elif p[0] == 'mix':
            for x in self.elems(p[1][1]):
                for q in p[1:]:
                    if q[1] != p[1][1]:
                        raise Unknown(p)
                    if self.dnf(q[2], x, p):
                        old = self.bind(p, x)
                        try:
                            out.append(self.val(q[3]))
                        finally:
                            self.bound = old
        else:
            raise Unknown(p)

    def dups(self, v):
        c = self.elems(v[2])
        rel = v[3] if len(v) > 3 else '='
        if rel == 'unclear':
            raise Unknown(v)
        n = 0
        last = None
        for i, x in enumerate(c):
            if i and ('=' if ident(x) == ident(last) else '<' if ident(last) < ident(x) else '>') in rel:
                n += 1
            else:
                last = x
        return n

    def atom(self, a):
        k = a[0]
        if k == 'has':
            c = self.val(a[1])
            if not isinstance(c, Map):
                raise Unknown(a)
            return self.val(a[2]) in c
        if k == 'dup':
            return self.dups(('op', 'dups') + a[1:]) > 0
        if k == 'eq':
            x, y = self.val(a[1]), self.val(a[2])
            if isinstance(x, (list, tuple)) or isinstance(y, (list, tuple)):
                if x == y == []:
                    return True
                raise Unknown(a)
            if isinstance(x, Obj) or isinstance(y, Obj):
                return x is y
            if isinstance(x, str) or isinstance(y, str) or x is None or y is None:
                return x == y
        if k == 'ok':
            raise Free(a)
        return super().atom(a)


class Missing(Unknown):
    """element that is not there"""


def ident(x):
    if isinstance(x, Obj):
        return x.get('id', '') if 'id' in x else str(id(x))
    return x


class Ops:
    """an operation over small models"""
    def __init__(self, A, I, paths):
        self.A, self.I, self.paths = A, I, paths

    def follow(self, st, m):
        """facts of a path in a model: True, False, 'free', None"""
        ev = OpEval(m.me, m.roots_for(self, st), st, None)
        r = True
        why = None
        for a, pol in st.pc.items():
            if a[0] == 'ok':
                continue
            try:
                if bool(ev.atom(a)) != pol:
                    return False, None, ev
            except Missing:
                return False, None, ev
            except Free as u:
                if r is True:
                    r, why = 'free', u.loc
            except (Unknown, KeyError, IndexError, TypeError, AttributeError) as u:
                r, why = None, a
        return r, why, ev


class Model:
    """one small state: the object, the roots (parameters), what opaque calls answer"""
    def __init__(self, me, roots, text, calls=None):
        self.me, self.roots, self.text, self.calls = me, roots, text, calls

    def roots_for(self, ops, st):
        r = dict(self.roots)
        R = r['R'] = {}
        if self.calls:
            ev = OpEval(self.me, r, st)
            for e in st.events():
                if e.kind == 'call':
                    x = self.calls(ops, ev, e)
                    if x is not None:
                        R[e.b[2]] = x[0]
        return r


def final(ev, st, f, base=SELF):
    """value of a field at the end of a path"""
    l = ('.', base, f)
    return ev.val(st.mem[l]) if l in st.mem else ev.loc(l)
