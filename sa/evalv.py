"""Decision tables: evaluates the extracted path conditions and values for chosen values of their free variables."""

W = 1 << 64


class Unknown(Exception):
    pass


def ev(v, env):
    """value of a numeric or boolean expression; env: value -> int"""
    if v in env:
        return env[v]
    k = v[0]
    if k == 'i':
        return v[1] % W
    if k == 'b':
        return int(v[1])
    if k == 'e':
        return v[2]
    if k == 'B':
        return int(atom(v[1], env) == v[2])
    if k == 'op':
        o = v[1]
        if o in ('+', '-', '*', '/', '%', '&', '|', '^') and len(v) == 4:
            a, b = ev(v[2], env), ev(v[3], env)
            if o == '+':
                return (a + b) % W
            if o == '-':
                return (a - b) % W
            if o == '*':
                return (a * b) % W
            if o == '/':
                if b == 0:
                    raise Unknown(v)
                return a // b
            if o == '%':
                if b == 0:
                    raise Unknown(v)
                return a % b
            return a & b if o == '&' else a | b if o == '|' else a ^ b
        if o == 'cast':
            a = ev(v[4], env) & ((1 << v[2]) - 1)
            if not v[3] and a >= 1 << (v[2] - 1):
                a -= 1 << v[2]
            return a % W if v[3] else a
        if o == 'neg':
            return (-ev(v[2], env)) % W
    raise Unknown(v)


def sgn(v):
    """is the comparison of a signed value"""
    return v[0] == 'op' and v[1] == 'cast' and not v[3]


def atom(a, env):
    """truth of a branch fact"""
    if a in env:
        return env[a]
    k = a[0]
    if k in ('lt', 'eq', 'ne'):
        x, y = ev(a[1], env), ev(a[2], env)
        if sgn(a[1]) and sgn(a[2]) or sgn(a[1]) and a[2][0] == 'i' or sgn(a[2]) and a[1][0] == 'i':
            x, y = (x - W if x >= W // 2 else x), (y - W if y >= W // 2 else y)
        else:
            x, y = x % W, y % W
        return x < y if k == 'lt' else (x == y) == (k == 'eq')
    if k == 't':
        return ev(a[1], env) != 0
    raise Unknown(a)


def consts(v, out):
    """integer constants in a value or fact"""
    if isinstance(v, tuple) and v:
        if v[0] == 'i' and len(v) == 2 and isinstance(v[1], int) and not isinstance(v[1], bool):
            out.add(v[1])
            return
        for y in v:
            if isinstance(y, tuple):
                consts(y, out)


def mentions(v, xs):
    if isinstance(v, tuple):
        if v in xs:
            return True
        return any(mentions(y, xs) for y in v if isinstance(y, tuple))
    return False
