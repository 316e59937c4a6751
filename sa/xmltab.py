"""Small XML documents, as the analysed exporters and importers see them: used to tabulate what they write and read."""
import re
from itertools import product
from .core import *
from .core import norm
from .evalv import Unknown, W
from .tables import Obj, Free, ixs, depth
from .optable import OpEval, Missing, SELF
from .mod import Throw

SIZES = {'char': 8, 'short': 16, 'int': 32, 'long': 64, 'long long': 64}


class Node:
    """an element; the document itself has no name"""
    def __init__(self, name, attrs=(), kids=()):
        self.name, self.attrs, self.kids = name, [list(a) for a in attrs], list(kids)

    def copy(self):
        return Node(self.name, self.attrs, [k.copy() for k in self.kids])

    def get(self, a, d=None):
        return next((x[1] for x in self.attrs if x[0] == a), d)

    def child(self, n):
        return next((k for k in self.kids if k.name == n), None)

    def text(self):
        return '<%s%s%s' % (self.name, ''.join(' %s="%s"' % tuple(a) for a in self.attrs),
                            '>%s</%s>' % (''.join(k.text() for k in self.kids), self.name) if self.kids else '/>')


class Null:
    """a node or attribute that is not there"""


NULL = Null()


class Out(Unknown):
    """an exception of a conversion"""


def prefix(s, base=10, sign='', space=False):
    """longest number at the start: (value or None, characters used)"""
    i = 0
    if space:
        while i < len(s) and s[i] in ' \t\n\v\f\r':
            i += 1
    neg = False
    if i < len(s) and s[i] in sign:
        neg = s[i] == '-'
        i += 1
    j = i
    v = 0
    while j < len(s) and s[j].isalnum() and s[j].isascii() and int(s[j], 36) < base:
        v = v * base + int(s[j], 36)
        j += 1
    return (None, 0) if j == i else (-v if neg else v, j)


def limits(ty):
    u = ty.startswith('unsigned ')
    b = SIZES.get(ty[9:] if u else ty)
    if b is None:
        raise Unknown(ty)
    return (0, 2 ** b - 1) if u else (-2 ** (b - 1), 2 ** (b - 1) - 1)


CTYPES = {'atoi': 'int', 'atol': 'long', 'atoll': 'long long', 'strtol': 'long', 'strtoll': 'long long', 'strtoul': 'unsigned long', 'strtoull': 'unsigned long long',
          'stoi': 'int', 'stol': 'long', 'stoll': 'long long', 'stoul': 'unsigned long', 'stoull': 'unsigned long long'}
ASTYPES = {'as_int': 'int', 'as_uint': 'unsigned int', 'as_llong': 'long long', 'as_ullong': 'unsigned long long'}


def charconv(s, ty, base):
    """from_chars: (error, value or None, characters used)"""
    lo, hi = limits(ty)
    v, n = prefix(s, base, '-' if lo else '')
    if v is None:
        return 22, None, 0
    return (0, v % W, n) if lo <= v <= hi else (34, None, n)


def cnumber(f, s, base):
    """value of strtol and its relatives, None when the C++ variants throw"""
    lo, hi = limits(CTYPES[f])
    v, n = prefix(s, base, '+-', True)
    if f.startswith('sto'):
        if v is None:
            return None
        if lo == 0 and v < 0 and -v <= hi:
            v += hi + 1
        return v % W if lo <= v <= hi else None
    if v is None:
        return 0
    if lo == 0 and v < 0 and -v <= hi:
        v += hi + 1
    return min(max(v, lo), hi) % W


class XEval(OpEval):
    def __init__(self, me, roots, st, made):
        super().__init__(me, roots, st)
        self.made = made
        self.old = Obj(me)
        self.ctx = 0

    # ------------------------------------------------------------ fields: init means the value on entry
    def loc(self, l):
        if l[0] == '.' and l[1] == SELF and l[2] in self.old:
            return self.old[l[2]]
        if l[0] == '[]':
            c = self.val(l[1])
            if isinstance(c, Node):
                k = l[2]
                if k[0] == 'ix':
                    return c.kids[self.ix[k]]
                if k[0] == 'bix':
                    return self.bound[k[1]]
                if k[0] == 'i' and k[1] < len(c.kids):
                    return c.kids[k[1]]
                raise Missing(l)
            if c is NULL:
                raise Missing(l)
        return super().loc(l)

    def elems(self, dom):
        c = self.val(dom)
        if isinstance(c, Node):
            return c.kids
        if c is NULL:
            return []
        if not isinstance(c, list):
            raise Unknown(dom)
        return c

    def node(self, v):
        x = self.val(v)
        if isinstance(x, (Node, Null)):
            return x
        raise Unknown(v)

    def text(self, v):
        x = self.val(v)
        if isinstance(x, str):
            return x
        raise Unknown(v)

    def attr(self, v):
        x = self.val(v)
        if isinstance(x, list) and len(x) == 2 and isinstance(x[0], str) or x is NULL:
            return x
        raise Unknown(v)

    def base(self, v):
        b = self.val(v)
        if not isinstance(b, int) or not 2 <= b <= 36:
            raise Unknown(v)
        return b

    def until(self, src, end):
        s = self.text(src)
        e = self.val(end)
        if isinstance(e, tuple) and e[0] == 'at' and e[1] == s:
            return s[:e[2]]
        raise Unknown(end)

    def val(self, v):
        k = v[0]
        if k == 'sym' and v[1] == 'hv' and len(v) > 3 and v[3][0] == '.' and v[3][1] == SELF:
            x = self.me.get(v[3][2])
            if x is None:
                raise Unknown(v)
            return x
        if k == 'strv':
            return self.val(v[1])
        if k == 'dflt':
            return 0
        if k == 'op':
            o = v[1]
            if '::' in o and o.startswith('xml_'):
                return self.xml(v)
            if o == 'to_string':
                return str(self.val(v[2]))
            if o == 'size':
                x = self.val(v[2])
                if isinstance(x, str):
                    return len(x)
                if isinstance(x, (Node, Null)):
                    return len(self.elems(v[2]))
            if o == '+' and len(v) == 4:
                a, b = self.val(v[2]), self.val(v[3])
                if isinstance(b, str) and isinstance(a, int):
                    a, b = b, a
                if isinstance(a, str) and isinstance(b, int):
                    return ('at', a, b)
                if isinstance(a, tuple) and a[0] == 'at' and isinstance(b, int):
                    return ('at', a[1], a[2] + b)
                if isinstance(a, int) and isinstance(b, int):
                    return (a + b) % W
                raise Unknown(v)
            if o in ('convec', 'convend', 'parsed'):
                s = self.text(v[2])
                part = self.until(v[2], v[5])
                err, val, n = charconv(part, v[3], self.base(v[4]))
                if o == 'convec':
                    return err
                if o == 'convend':
                    return ('at', s, n)
                return 0 if val is None else val
            if o == 'cnum':
                x = cnumber(v[2], self.text(v[3]), self.base(v[4]))
                if x is None:
                    raise Missing(v)
                return x
        return super().val(v)

    def xml(self, v):
        o = v[1].split('::')[-1]
        if len(v) > 3 and isinstance(v[3], int):
            if v[3] in self.made:
                return self.made[v[3]]
            raise Unknown(v)
        if o in ('child', 'children') and len(v) == 4:
            n = self.node(v[2])
            name = self.text(v[3])
            if n is NULL:
                return NULL if o == 'child' else []
            if o == 'children':
                return [k for k in n.kids if k.name == name]
            return n.child(name) or NULL
        if o == 'children':
            n = self.node(v[2])
            return [] if n is NULL else n.kids
        if o == 'first_child':
            n = self.node(v[2])
            return n.kids[0] if n is not NULL and n.kids else NULL
        if o in ('document_element', 'root'):
            n = self.node(v[2])
            return (n.kids[0] if n.kids else NULL) if o == 'document_element' else n
        if o == 'attribute' and len(v) == 4:
            n = self.node(v[2])
            a = self.text(v[3])
            return NULL if n is NULL else next((x for x in n.attrs if x[0] == a), NULL)
        if o == 'name':
            x = self.val(v[2])
            return '' if x is NULL else x.name if isinstance(x, Node) else x[0]
        a = None
        if o in ('value', 'as_string', 'as_bool') or o in ASTYPES:
            a = self.attr(v[2])
            if o == 'value':
                return '' if a is NULL else a[1]
            if o == 'as_string':
                return self.val(v[3]) if a is NULL else a[1]
            if a is NULL:
                return self.val(v[3])
            if o == 'as_bool':
                return int(a[1][:1] in ('1', 't', 'T', 'y', 'Y'))
            lo, hi = limits(ASTYPES[o])
            x, n = prefix(a[1], 10, '+-', True)
            return 0 if x is None else min(max(x, lo), hi) % W
        raise Unknown(v)

    def atom(self, a):
        if a[0] == 'ok' and a[1] == 'snum':
            return cnumber(a[2], self.text(a[3]), self.base(a[4])) is not None
        if a[0] == 't' and a[1][0] == 'op':
            o = a[1][1]
            if o == 'xml bool' or o.endswith('operator bool') and len(a[1]) == 3:
                x = self.val(a[1][2])
                return x if isinstance(x, (bool, int)) else x is not NULL
            if o.endswith('::empty'):
                x = self.val(a[1][2])
                return x is NULL
        if a[0] == 'eq':
            x, y = self.val(a[1]), self.val(a[2])
            if isinstance(x, tuple) and isinstance(y, tuple) and x[0] == y[0] == 'at':
                return x == y
            if isinstance(x, (Node, Null)) or isinstance(y, (Node, Null)):
                return x is y
            if isinstance(x, str) and isinstance(y, tuple) and y[0] == 'at' or isinstance(y, str) and isinstance(x, tuple) and x[0] == 'at':
                s, p = (x, y) if isinstance(x, str) else (y, x)
                return p[1] == s and p[2] == 0
        return super().atom(a)

    def term(self, t):
        """a conjunction; elements of inner collections that it speaks of exist"""
        names = {}
        for a, p in t:
            ixs(a, names)
        todo = [n for n in names if n not in self.ix]
        r, why = exists(self, names, todo, t)
        if r is None:
            raise Unknown(why)
        return r

    def flag(self, vs, i, default):
        if len(vs) <= i or vs[i][0] == 'ty':
            return default
        x = vs[i][2] if vs[i][0] == 'e' else self.val(vs[i])
        if not isinstance(x, int):
            raise Unknown(vs[i])
        return x

    # ------------------------------------------------------------ events
    def do(self, e, saved, load):
        """what an operation on the document does"""
        short, ov, vs, this, n = e.b
        o = short.split('::')[-1]
        if short == 'xml_attribute::operator=':
            o = 'set_value'
        if o in ('append_child', 'prepend_child', 'append_attribute', 'prepend_attribute'):
            x = self.node(ov)
            name = self.text(vs[0]) if vs and vs[0][0] != 'e' else None
            if name is None or x is NULL:
                raise Unknown(e.a)
            r = Node(name) if 'child' in o else [name, '']
            seq = x.kids if 'child' in o else x.attrs
            seq.insert(len(seq) if o.startswith('append') else 0, r)
            self.made[n] = r
        elif o == 'set_value':
            x = self.attr(ov)
            ty = vs[-1][1]
            v = self.val(vs[0])
            if x is NULL:
                raise Unknown(e.a)
            if ty == 'bool':
                v = 'true' if v else 'false'
            elif isinstance(v, int):
                if ty in ('double', 'float'):
                    v = '%.17g' % float(v) if ty == 'double' else '%.9g' % v
                else:
                    lo, hi = limits(ty)
                    v = v % (hi - lo + 1)
                    v = str(v if v <= hi else v - (hi - lo + 1))
            elif not isinstance(v, str):
                raise Unknown(e.a)
            x[1] = v
            self.made[n] = 1
        elif o == 'set_name':
            x = self.val(ov)
            if isinstance(x, Node):
                x.name = self.text(vs[0])
            self.made[n] = 1
        elif o == 'reset' and not vs:
            d = self.node(ov)
            d.attrs[:], d.kids[:] = [], []
            self.made[n] = 1
        elif o == 'save_file':
            saved.append((self.text(vs[0]), written(self.node(ov).copy(), self.flag(vs, 2, 1), self.flag(vs, 3, 0)), e.site))
            self.made[n] = load['save']
        elif o == 'load_file':
            load['path'] = self.text(vs[0])
            load['parse'], load['enc'] = self.flag(vs, 1, PARSE_DEFAULT), self.flag(vs, 2, 0)
            d = self.node(ov)
            d.kids[:] = [k.copy() for k in load['doc'].kids] if load['load'] else []
            self.made[n] = load['load']
        elif o in ('child', 'attribute', 'first_child', 'children', 'value', 'name'):
            # a look at the document while it is being written: what is there at that time
            self.made[n] = self.xml(e.a[:3] + e.a[4:])
        else:
            raise Unknown(e.a)


PARSE_DEFAULT = 0x74
LATIN1 = 9


def written(d, flags, enc):
    """what is in the file when a document is saved with these flags and this encoding"""
    def f(s):
        if flags & 0x10 and any(c in s for c in '&<"'):
            s = re.split('[&<"]', s)[0]
        if flags & 0x100:
            s = ''.join(c for c in s if c >= ' ' or c in '\t\r\n')
        if enc == LATIN1:
            s = s.encode('latin1', 'replace').decode('latin1')
        return s
    return each(d, f)


def loaded(d, flags, enc):
    """what is in the document when such a file is loaded with these flags and this encoding"""
    def f(s):
        if not flags & 0x10:
            s = s.replace('&', '&amp;').replace('<', '&lt;').replace('"', '&quot;').replace('\t', '&#09;').replace('\n', '&#10;')
        if flags & 0x80:
            s = ' '.join(s.split())
        if enc == LATIN1:
            s = s.encode('utf8').decode('latin1')
        return s
    return each(d, f)


def each(d, f):
    for a in d.attrs:
        if isinstance(a[1], str):
            a[1] = f(a[1])
    for k in d.kids:
        each(k, f)
    return d


def holds(ev, st):
    """whether a path is taken: facts about elements of collections hold for some element"""
    names = {}
    for a, pol in st.pc.items():
        ixs(a, names)
    return exists(ev, names, [n for n, d in names.items() if not bound(d)], list(st.pc.items()))


def bound(d):
    return isinstance(d, tuple) and bool(d) and (d[0] == 'bix' or any(bound(x) for x in d if isinstance(x, tuple)))


def exists(ev, names, todo, facts):
    """whether facts hold for some choice of elements: True, False or None, and why not understood"""
    order = []
    left = {n: names[n] for n in todo}
    while left:
        ready = [k for k, d in left.items() if not any(x in left and x != k for x in inner(d))]
        if not ready:
            return None, 'elements'
        for k in ready:
            order.append(k)
            del left[k]
    why = [None]

    def go(i):
        if i == len(order):
            r = True
            for a, pol in facts:
                try:
                    if bool(ev.atom(a)) != pol:
                        return False
                except Missing:
                    return False
                except Free as u:
                    why[0] = u.loc
                    r = None
                except (Unknown, KeyError, IndexError, TypeError, AttributeError) as u:
                    why[0] = a
                    r = None
            return r
        try:
            n = len(ev.elems(names[order[i]]))
        except (Unknown, Free, KeyError, TypeError, AttributeError) as u:
            why[0] = names[order[i]]
            return None
        best = False
        for j in range(n):
            ev.ix[order[i]] = j
            r = go(i + 1)
            if r:
                ev.ix.pop(order[i], None)
                return True
            best = r if r is None else best
        ev.ix.pop(order[i], None)
        return best
    r = go(0)
    return r, why[0]


def inner(d):
    out = {}
    ixs(d, out)
    return out


def evaluate(f, *a):
    """(True, value) or (False, reason)"""
    try:
        return True, f(*a)
    except (Unknown, Free, KeyError, IndexError, TypeError, AttributeError, ValueError) as u:
        return False, u
