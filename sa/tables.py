"""Decision tables over small abstract nets: evaluates the extracted branch facts of a path for every combination of a few
places, arcs, conditions and flags.  Facts that are not understood make the combination undecided, never wrong."""
from itertools import product
from .core import norm, origin
from .evalv import Unknown, ev as _ev, sgn, W


class Free(Exception):
    """depends on state that is not part of the net"""
    def __init__(self, loc):
        self.loc = loc


class Obj(dict):
    __hash__ = object.__hash__


def put(obj, loc, base, value):
    """stores a value in an object at a location relative to the object"""
    if loc[0] == '.':
        holder(obj, loc[1], base)[loc[2]] = value
    elif loc[0] == '*':
        cell(obj, loc[1][1], base, value)
    else:
        raise Unknown(loc)


def cell(obj, ploc, base, value):
    holder(obj, ploc[1], base)[ploc[2]] = Obj(box=value)


def holder(obj, loc, base):
    if loc == base:
        return obj
    if loc[0] == '.':
        return holder(obj, loc[1], base).setdefault(loc[2], Obj())
    if loc[0] == '*' and loc[1][0] == 'init' and loc[1][1][0] == '.':
        return holder(obj, loc[1][1][1], base).setdefault(loc[1][1][2], Obj())
    raise Unknown(loc)


class Eval:
    def __init__(self, self_obj, ix=None, calls=None):
        self.me, self.ix, self.bound, self.calls = self_obj, ix or {}, {}, calls

    def loc(self, l):
        if l == ('O', 'self'):
            return self.me
        if l[0] == '.':
            b = self.loc(l[1])
            if isinstance(b, Obj):
                if l[2] in b:
                    return b[l[2]]
                raise Free(l)
            raise Unknown(l)
        if l[0] == '[]':
            c = self.val(l[1])
            if not isinstance(c, list):
                raise Unknown(l)
            k = l[2]
            if k[0] == 'ix':
                return c[self.ix[k]]
            if k[0] == 'bix':
                return self.bound[k[1]]
            if k[0] == 'i' and k[1] < len(c):
                return c[k[1]]
            if k[0] in ('first', 'last') and c:
                return c[0 if k[0] == 'first' else -1]
            raise Unknown(l)
        if l[0] == '*':
            v = self.val(l[1])
            if v is None:
                raise Unknown(l)
            return v
        if l[0] == 'R' and self.calls:
            return self.calls(self, l)
        if l[0] in ('P', 'G'):
            raise Free(l)
        raise Unknown(l)

    def val(self, v):
        k = v[0]
        if k == 'init':
            x = self.loc(v[1])
            if isinstance(x, Obj) and 'box' in x and v[1][0] == '*':
                return x['box']
            return x
        if k == 'i':
            return v[1] % W
        if k == 'b':
            return int(v[1])
        if k == 'e':
            return v[2]
        if k == 'null':
            return None
        if k == 's':
            return v[1]
        if k == 'B':
            return int(self.atom(v[1]) == v[2])
        if k == 'aload':
            x = self.loc(v[1])
            return x['box'] if isinstance(x, Obj) and 'box' in x else x
        if k == 'cbret':
            f = self.val(v[1])
            if isinstance(f, Obj) and 'result' in f:
                return f['result']
            raise Unknown(v)
        if k == 'weak':
            return self.val(v[1])
        if k == 'ptr':
            return self.loc(v[1])
        if k == 'op':
            o = v[1]
            if o in ('lock', 'get'):
                return self.val(v[2])
            if o == 'size':
                c = self.val(v[2])
                if isinstance(c, (list, str)):
                    return len(c)
                raise Unknown(v)
            if o == 'count':
                return sum(1 for x in self.elems(v[2]) if self.dnf(v[3], x, v))
            if o == 'perm':
                return self.val(v[2])
            args = {}
            for a in v[2:]:
                if isinstance(a, tuple):
                    r = self.val(a)
                    if not isinstance(r, int):
                        raise Unknown(v)
                    args[a] = r
            return _ev(v, args)
        raise Unknown(v)

    def elems(self, dom):
        c = self.val(dom)
        if not isinstance(c, list):
            raise Unknown(dom)
        return c

    def dnf(self, dnf, x, whole):
        old = self.bind(whole, x)
        try:
            return any(self.term(t) for t in dnf)
        finally:
            self.bound = old

    def term(self, t):
        return all(self.atom(a) == p for a, p in t)

    def bind(self, whole, x):
        """binds the element a quantified fact speaks of; answers the bindings before"""
        old = self.bound
        self.bound = dict(old)
        for d in indices(whole):
            self.bound[d] = x
        return old

    def atom(self, a):
        k = a[0]
        if k in ('lt', 'eq'):
            x, y = self.val(a[1]), self.val(a[2])
            if k == 'eq' and (not isinstance(x, int) or not isinstance(y, int)):
                if isinstance(x, (Obj, str, type(None))) and isinstance(y, (Obj, str, type(None))):
                    return x is y if isinstance(x, Obj) else x == y
                raise Unknown(a)
            if not isinstance(x, int) or not isinstance(y, int):
                raise Unknown(a)
            if sgn(a[1]) and (sgn(a[2]) or a[2][0] == 'i') or sgn(a[2]) and a[1][0] == 'i':
                x, y = (x - W if x >= W // 2 else x), (y - W if y >= W // 2 else y)
            return x < y if k == 'lt' else x == y
        if k == 'ne' and len(a) == 2:
            return len(self.elems(a[1])) > 0
        if k == 't':
            v = self.val(a[1])
            if isinstance(v, int):
                return v != 0
            raise Unknown(a)
        if k == 'nn':
            return self.val(a[1]) is not None
        if k == 'ex':
            return any(self.dnf(a[2], x, a) for x in self.elems(a[1]))
        raise Unknown(a)


def depth(v):
    """index of the bound variable of a quantified fact"""
    out = set()

    def go(x):
        if isinstance(x, tuple) and x:
            if x[0] == 'bix':
                out.add(x[1])
            for y in x:
                if isinstance(y, tuple):
                    go(y)
    go(v)
    return max(out) if out else 1


def blur(v):
    """a value without the numbers of bound variables"""
    if isinstance(v, tuple) and v:
        return ('bix',) if v[0] == 'bix' else tuple(blur(x) for x in v)
    return v


_IX = {}


def indices(whole):
    """the indices under which the element of a quantified fact or part appears in it"""
    k = id(whole)
    if k not in _IX:
        dom = whole[2] if whole[0] == 'op' else whole[1]
        if dom[0] == 'each':
            dom = dom[1]
        out = set()
        dom = blur(dom)

        def go(x):
            if isinstance(x, tuple) and x:
                if x[0] == '[]' and len(x) == 3 and x[2][0] == 'bix' and blur(x[1]) == dom:
                    out.add(x[2][1])
                for y in x:
                    if isinstance(y, tuple):
                        go(y)
        go(whole)
        out = out or {depth(whole)}
        _IX[k] = (tuple(out), whole)
    return _IX[k][0]


def ixs(v, out):
    """element variables of a fact, with the collections they range over"""
    if isinstance(v, tuple) and v:
        if v[0] == '[]' and isinstance(v[2], tuple) and v[2][0] == 'ix':
            out.setdefault(v[2], v[1])
        for y in v:
            if isinstance(y, tuple):
                ixs(y, out)


def selffields(v, out, me=('O', 'self')):
    if isinstance(v, tuple) and v:
        if v[0] == '.' and v[1] == me:
            out.add(v[2])
        for y in v:
            if isinstance(y, tuple):
                selffields(y, out, me)


class PathTable:
    """the truth of a path condition for every combination of the dimensions of a small model"""
    def __init__(self, pc, dims, calls=None):
        self.dims, self.calls = dims, calls
        groups = []
        for a, pol in pc.items():
            d = {}
            ixs(a, d)
            f = set()
            selffields(a, f)
            groups.append([{(a, pol)}, d, f & set(dims)])
        i = 0
        while i < len(groups):
            j = i + 1
            merged = False
            while j < len(groups):
                if set(groups[i][1]) & set(groups[j][1]):
                    g = groups.pop(j)
                    groups[i][0] |= g[0]
                    groups[i][1].update(g[1])
                    groups[i][2] |= g[2]
                    merged = True
                else:
                    j += 1
            if not merged:
                i += 1
        self.groups = [(sorted(fs, key=repr), d, tuple(sorted(f)), {}) for fs, d, f in groups]
        self.reasons = set()

    def holds(self, model):
        """True, False, or 'free' (depends on other state), or None (not understood)"""
        res = True
        for fs, d, f, memo in self.groups:
            k = tuple(model[x][0] for x in f)
            r = memo.get(k, 0)
            if r == 0:
                r = memo[k] = self.group(fs, d, f, model)
            if r is False:
                return False
            if r is None:
                res = None
            elif r == 'free' and res is True:
                res = 'free'
        return res

    def group(self, fs, d, f, model):
        me = Obj((x, model[x][1]) for x in f)
        names = list(d)
        best = False
        try:
            doms = [range(len(Eval(me, {}, self.calls).elems(d[n]))) for n in names]
        except Unknown as u:
            self.reasons.add(str(u)[:160])
            return None
        except Free as u:
            self.reasons.add(str(u.loc)[:160])
            return 'free'
        except KeyError as u:
            return None
        for asg in product(*doms):
            e = Eval(me, dict(zip(names, asg)), self.calls)
            r = True
            for a, pol in fs:
                try:
                    if bool(e.atom(a)) != pol:
                        r = False
                        break
                except Free as u:
                    self.reasons.add(str(u.loc)[:160])
                    if r is True:
                        r = 'free'
                except (Unknown, KeyError, IndexError, TypeError) as u:
                    self.reasons.add(str(a)[:160])
                    r = None
            if r is True:
                return True
            if r == 'free' or (r is None and best is False):
                best = r if best != 'free' else best
        return best
