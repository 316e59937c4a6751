"""Loads the lowered form of every translation unit of the repository and links it into one program."""
import concurrent.futures, glob, hashlib, json, os, re, subprocess, sys, tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)


class AnalysisBroken(Exception):
    """The analysis cannot give a verdict (tool missing, source does not compile, anchor vanished)."""


class Unrecognised(Exception):
    """the role of a part of the code was not recognised: what depends on it is undecided"""


class TooMany(Exception):
    """an operation with more traces than can be followed"""


def tus(root):
    p = os.path.join(root, 'PTN_Engine')
    files = sorted(glob.glob(p + '/**/*.cpp', recursive=True))
    if len(files) < 10:
        raise AnalysisBroken('expected the PTN_Engine sources under %s' % p)
    return files


def flags(root, f):
    p = os.path.join(root, 'PTN_Engine')
    fl = ['-D_EXPORTING', '-I' + root, '-I' + p + '/include', '-I' + p, '-std=gnu++20', '-w',
          '-I' + p + '/ImportExport', '-I' + p + '/ImportExport/include', '-I' + p + '/ImportExport/XML/src']
    return fl


class Program:
    def __init__(self, root):
        self.root = os.path.abspath(root)
        self.functions = {}      # key -> fn
        self.records = {}        # type string -> record
        self.enums = {}
        self.globals = {}
        self.types = {}          # type string -> info
        self.unsupported = []
        self.files = []
        self.load()

    # ------------------------------------------------------------------ loading
    def load(self):
        subprocess.run([os.path.join(VERIF, 'tool', 'build.sh')], check=True, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        exe = os.path.join(VERIF, 'build', 'extract')
        files = tus(self.root)
        self.files = files
        with tempfile.TemporaryDirectory(prefix='sa_') as td:
            def one(i):
                out = os.path.join(td, '%d.json' % i)
                r = subprocess.run([exe, self.root, out, '--'] + flags(self.root, files[i]) + [files[i]],
                                   capture_output=True, text=True, cwd=td)
                if r.returncode != 0 or not os.path.exists(out):
                    raise AnalysisBroken('cannot parse %s: %s' % (files[i], r.stderr[-400:]))
                with open(out) as fh:
                    return json.load(fh)
            with concurrent.futures.ThreadPoolExecutor(max_workers=os.cpu_count() or 4) as ex:
                for i, d in enumerate(ex.map(one, range(len(files)))):
                    self.merge(i, d)
        self.overriders = {}
        for k, f in self.functions.items():
            for b in f.get('ov', []):
                self.overriders.setdefault(b, []).append(k)
        self.by_name = {}
        for k, f in self.functions.items():
            self.by_name.setdefault(f['n'], []).append(k)

    def merge(self, tu, d):
        tt = d['types']
        names = [t['s'] if t else '?' for t in tt]
        for i, t in enumerate(tt):
            if t and t.get('cat') == 'lambda':
                names[i] = 'lambda#%d#%d' % (tu, t['rec'])
        for i, t in enumerate(tt):
            if not t:
                continue
            t = dict(t)
            t['s'] = names[i]
            if 'to' in t:
                t['to'] = names[t['to']]
            if 'args' in t:
                t['args'] = [names[a] if isinstance(a, int) and a >= 0 else None for a in t['args']]
            self.types.setdefault(names[i], t)
        pre = 'tu%d' % tu

        def fk(k):
            return pre + k if k.startswith('@') else (k.replace('@', '@' + pre + '_') if '@' in k else k)

        def walk(o):
            if isinstance(o, list):
                for x in o:
                    walk(x)
            elif isinstance(o, dict):
                for k in ('t', 'vt', 'cls', 'rt', 'et', 'at', 'base'):
                    v = o.get(k)
                    if isinstance(v, int) and not isinstance(v, bool):
                        o[k] = names[v] if v >= 0 else '?'
                if 'pt' in o:
                    o['pt'] = [names[a] if a >= 0 else '?' for a in o['pt']]
                if 'ta' in o:
                    o['ta'] = [names[a] if a >= 0 else '?' for a in o['ta']]
                if isinstance(o.get('bases'), list):
                    o['bases'] = [names[a] if isinstance(a, int) else a for a in o['bases']]
                if isinstance(o.get('d'), int):
                    o['d'] = (tu, o['d'])
                if isinstance(o.get('f'), str):
                    o['f'] = fk(o['f'])
                if isinstance(o.get('ov'), list):
                    o['ov'] = [fk(x) for x in o['ov']]
                if isinstance(o.get('ops'), list):
                    o['ops'] = [fk(x) for x in o['ops']]
                for k in ('g', 'static'):
                    if isinstance(o.get(k), str) and '@static' in o[k]:
                        o[k] = o[k].replace('@static', '@static' + pre + '_')
                for k, v in o.items():
                    if isinstance(v, (dict, list)):
                        walk(v)

        walk(d['functions'])
        walk(d['records'])
        walk(d['globals'])
        for k, f in d['functions'].items():
            k = fk(k)
            f['key'] = k
            f['tu'] = tu
            old = self.functions.get(k)
            if old is None or ('b' in f and 'b' not in old):
                self.functions[k] = f
        for k, r in d['records'].items():
            if isinstance(r.get('dtor'), str):
                r['dtor'] = fk(r['dtor'])
            self.records.setdefault(k, r)
        for k, v in d['enums'].items():
            self.enums.setdefault(k, v)
        for k, v in d['globals'].items():
            if '@static' in k:
                k = k.replace('@static', '@static' + pre + '_')
            if k not in self.globals or ('init' in v and 'init' not in self.globals[k]):
                self.globals[k] = v
        self.unsupported += [(x[0], x[1]) for x in d['unsupported']]

    # ------------------------------------------------------------------ queries
    def tinfo(self, t):
        return self.types.get(t, {'s': t, 'cat': '?'})

    def strip(self, t):
        """type without references and top-level const"""
        i = self.tinfo(t)
        if i.get('cat') in ('ref', 'rref'):
            t = i['to']
        if t.startswith('const ') and not t.endswith('*const'):
            u = t[6:]
            if u in self.types or u in self.records:
                return u
            if not t.endswith('*'):
                return u
        return t

    def tmpl(self, t):
        """template name or class name (or category) of a type"""
        t = self.strip(t)
        i = self.tinfo(t)
        return i.get('name', i.get('cat', '?'))

    def targ(self, t, n=0):
        i = self.tinfo(self.strip(t))
        a = i.get('args') or []
        return a[n] if n < len(a) else None

    def record(self, t):
        return self.records.get(self.strip(t)) if t else None

    def fields(self, t):
        """own fields and those of the repository's base classes"""
        r = self.record(t)
        if not r:
            return None
        out = []
        for b in r['bases']:
            out += self.fields(b) or []
        return out + r['fields']

    def field(self, t, name):
        for f in self.fields(t) or []:
            if f['name'] == name:
                return f
        return None

    def find(self, qual, nparams=None, static=None):
        """functions with this qualified name that have a body"""
        out = []
        for k in self.by_name.get(qual, []):
            f = self.functions[k]
            if 'b' in f and (nparams is None or len(f['p']) == nparams):
                out.append(f)
        return out

    def one(self, qual, nparams=None):
        fs = self.find(qual, nparams)
        if not fs:
            raise AnalysisBroken('anchor vanished: no definition of %s' % qual)
        return fs[0]

    def derives(self, t, base):
        """t is base or derives from it (repository classes; a few standard exceptions)"""
        t, base = self.strip(t), self.strip(base)
        if t == base:
            return True
        std = {'std::system_error': 'std::runtime_error', 'std::runtime_error': 'std::exception',
               'std::out_of_range': 'std::logic_error', 'std::logic_error': 'std::exception',
               'std::bad_function_call': 'std::exception', 'std::bad_weak_ptr': 'std::exception',
               'std::invalid_argument': 'std::logic_error', 'std::bad_alloc': 'std::exception',
               'std::length_error': 'std::logic_error', 'std::overflow_error': 'std::runtime_error'}
        if t in std:
            return self.derives(std[t], base)
        r = self.record(t)
        if r:
            return any(self.derives(b, base) for b in r['bases'])
        return False

    # ------------------------------------------------------------------ constants that the code mentions
    def literals(self):
        """(whole numbers above 3, strings that are compared or kept) in the bodies of all functions"""
        if getattr(self, '_lit', None) is None:
            ints, strs = set(), set()

            def walk(o, keep):
                if isinstance(o, list):
                    for x in o:
                        walk(x, keep)
                elif isinstance(o, dict):
                    k = o.get('k')
                    if k in ('call', 'ctor') and isinstance(o.get('fn'), dict) and (o['fn'].get('n', '').startswith(('std::chrono::', 'std::literals::')) or o['fn'].get('n') == 'std::from_chars'):
                        return          # lengths of time and bases of numbers
                    if k in ('int', 'char'):
                        try:
                            ints.add(int(o['v']))
                        except (KeyError, TypeError, ValueError):
                            pass
                    elif k == 'str' and keep and isinstance(o.get('v'), str) and len(o['v']) <= 24:
                        strs.add(o['v'])
                    elif k in ('call', 'ctor', 'opcall'):
                        fn = o.get('fn')
                        n = fn.get('n', '') if isinstance(fn, dict) else ''
                        t = n.split('::')[-1]
                        keep = k == 'ctor' or t in COMPARING or n.startswith('std::operator') and t[8:] in ('==', '!=', '<', '>', '<=', '>=', '<=>')
                    for kk, x in o.items():
                        if isinstance(x, (dict, list)):
                            walk(x, keep)
            for f in self.functions.values():
                if 'b' in f:
                    walk(f['b'], False)
                    walk(f.get('inits') or [], False)
            for x in (self.records, self.globals):
                walk(list(x.values()), False)
            self._lit = (frozenset(x for x in ints if x > 3), frozenset(strs))
        return self._lit

    def numbers(self, top=None):
        """values around the numbers that the code mentions"""
        return sorted({x + d for x in self.literals()[0] if top is None or x <= top for d in (-1, 0, 1) if x + d < 1 << 64})

    def names(self):
        """names that the code may treat specially: what it compares with, lengths and characters it mentions"""
        ints, strs = self.literals()
        out = set()
        for x in strs:
            if x and not (' ' in x and len(x) > 8):
                out |= {x, x + 'x', 'x' + x}
        for x in self.numbers(4096):
            if x != 10:
                out.add('n' * x)
        for x in ints:
            if 32 <= x <= 126:
                out |= {chr(x), chr(x) + 'x', 'x' + chr(x), 'x' + chr(x) + 'x'}
        return sorted(out)


COMPARING = ('compare', 'starts_with', 'ends_with', 'contains', 'find', 'rfind', 'find_first_of', 'find_last_of', 'find_first_not_of', 'find_last_not_of', 'strcmp', 'strncmp', 'equal', 'count')
