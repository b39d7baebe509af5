"""Exact model of the truncated free tensor algebra: words (tuples of letters) -> Fraction."""
from fractions import Fraction as F

ONE = {(): F(1)}


def add(a, b, c=1):
    r = dict(a)
    for w, v in b.items():
        x = r.get(w, 0) + c * v
        if x: r[w] = x
        else: r.pop(w, None)
    return r


def scale(a, c):
    return {w: v * c for w, v in a.items()} if c else {}


def mul(a, b, depth):
    r = {}
    for u, x in a.items():
        lu = depth - len(u)
        for v, y in b.items():
            if len(v) <= lu:
                w = u + v
                r[w] = r.get(w, 0) + x * y
    return {w: v for w, v in r.items() if v}


def exp(a, depth):
    """a without constant term"""
    r, t = dict(ONE), dict(ONE)
    for k in range(1, depth + 1):
        t = scale(mul(t, a, depth), F(1, k))
        if not t: break
        r = add(r, t)
    return r


def log(s, depth):
    x = add(s, ONE, -1)
    r, t = {}, dict(ONE)
    for k in range(1, depth + 1):
        t = mul(t, x, depth)
        if not t: break
        r = add(r, t, F((-1) ** (k + 1), k))
    return r


def inv(s, depth):
    x = scale(add(s, ONE, -1), -1)
    r, t = dict(ONE), dict(ONE)
    for k in range(depth):
        t = mul(t, x, depth)
        r = add(r, t)
    return r


def bracket(a, b, depth):
    return add(mul(a, b, depth), mul(b, a, depth), -1)


def trunc(a, depth):
    return {w: v for w, v in a.items() if len(w) <= depth}


_keys = {}


def key_expr(s):
    """'[1,[1,2]]' or '1' -> nested tuple / int"""
    pos = 0

    def p():
        nonlocal pos
        if s[pos] == "[":
            pos += 1
            l = p()
            assert s[pos] == ","
            pos += 1
            r = p()
            assert s[pos] == "]"
            pos += 1
            return (l, r)
        j = pos
        while j < len(s) and s[j].isdigit(): j += 1
        v = int(s[pos:j])
        pos = j
        return v
    e = p()
    assert pos == len(s), s
    return e


def expand_key(e):
    if isinstance(e, int):
        return {(e,): F(1)}
    a, b = expand_key(e[0]), expand_key(e[1])
    d = 99
    return bracket(a, b, d)


def lie_key_tensor(s):
    if s not in _keys:
        _keys[s] = expand_key(key_expr(s))
    return _keys[s]


def frac(v):
    """value of a RoughPy scalar / number, exactly"""
    if isinstance(v, (int, float)):
        return F(v)
    if "type=Rational," in repr(v):
        return F(str(v))
    return F(v.to_float())


def tensor(t):
    r = {}
    for it in t:
        s = str(it.key())
        w = tuple(int(c) for c in s[1:-1].split(",") if c)
        v = frac(it.value())
        if v:
            assert w not in r, "key %s appears twice" % (w,)
            r[w] = v
    return r


def lie(l):
    """Lie element of the implementation -> its tensor in the model"""
    r = {}
    for it in l:
        v = frac(it.value())
        if v:
            r = add(r, lie_key_tensor(str(it.key())), v)
    return r


def close(a, b, tol):
    if tol == 0:
        return a == b
    for w in set(a) | set(b):
        x, y = a.get(w, 0), b.get(w, 0)
        if abs(x - y) > tol * max(1, abs(y)):
            return False
    return True


def show(a):
    return "{" + " ".join("%s(%s)" % (v, ",".join(map(str, w))) for w, v in sorted(a.items(), key=lambda p: (len(p[0]), p[0]))) + "}"
