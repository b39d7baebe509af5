"""Bounded-exhaustive exploration of roughpy.tensor_functions: Log, TensorTensorProduct and tensor_word_factory."""
import itertools
from fractions import Fraction as F
import numpy as np
import roughpy as rp
from roughpy import tensor_functions as tf
import ftm
from vhpy import Run

R = Run()
TYPES = {"DP": rp.DPReal, "SP": rp.SPReal, "RAT": rp.Rational, "POLY": rp.RationalPoly}
_ctx = {}


def ctx_of(w, d, t):
    k = (w, d, t)
    if k not in _ctx: _ctx[k] = rp.get_context(w, d, TYPES[t])
    return _ctx[k]


def words(w, d):
    return [u for k in range(d + 1) for u in itertools.product(range(1, w + 1), repeat=k)]


_mem = {}


def log_word(u):
    """sum over k of (-1)^(k+1)/k times the sum over the ways to deal the letters of u to k nonempty hands, in order, of the hands joined"""
    if u in _mem: return _mem[u]
    r, n = {}, len(u)
    for k in range(1, n + 1):
        c = F((-1) ** (k + 1), k)
        for deal in itertools.product(range(k), repeat=n):
            if len(set(deal)) < k: continue
            v = tuple(l for h in range(k) for l, g in zip(u, deal) if g == h)
            r[v] = r.get(v, 0) + c
    _mem[u] = r = {v: x for v, x in r.items() if x}
    return r


def model_log(p):
    r = {}
    for u, c in p.items():
        r = ftm.add(r, log_word(u), c)
    return r


def key(u, w, d):
    return rp.TensorKey(*u, width=w, depth=d)


def coef(c, t):
    return c.numerator if c.denominator == 1 else float(c)


def build(p, w, d, t, cls, vt):
    c = ctx_of(w, d, t)
    x = cls({key((), w, d): 0}, ctx=c, vector_type=vt)
    for u, v in p.items():
        # rationals are built by division, since data arguments pass through numbers Python has
        x += cls({key(u, w, d): v.numerator}, ctx=c, vector_type=vt) / v.denominator
    return x


def sval(s):
    x = str(s)
    if x.startswith("{"):
        x = x.strip("{} ")
        if not x: return F(0)
        assert x.endswith("()"), x
        x = x[:-2]
    return F(x) if "/" in x or "e" not in x else F(float(x))


def read(x):
    r = {}
    for i in x:
        v = sval(i.value()) if x.dtype not in (rp.DPReal, rp.SPReal) else F(i.value().to_float())
        u = tuple(i.key().to_letters())
        r[u] = r.get(u, 0) + v
    return {u: v for u, v in r.items() if v}


def close(p, q, tol):
    return all(abs(p.get(u, 0) - q.get(u, 0)) <= tol * max(1, abs(p.get(u, 0)), abs(q.get(u, 0))) for u in set(p) | set(q))


def tolerance(t):
    return {"DP": F(1, 10 ** 11), "SP": F(1, 10 ** 4)}.get(t, F(0))


def log_of(p, w, d, t, cls, vt, key_, what):
    R.at(f"{what} {w},{d} {t} {cls.__name__} {vt} {p}")
    R.state()
    x = build(p, w, d, t, cls, vt)
    try:
        y = tf.Log(x)
        got = read(y)
    except Exception as e:
        R.viol(key_, f"Log of {p} in {w},{d} {t} {cls.__name__}: {type(e).__name__} {e}")
        return None
    want = model_log(p)
    R.check(type(y) is cls and close(got, want, tolerance(t)), key_, lambda: f"Log of {p} in {w},{d} {t} {cls.__name__} {vt} is {y}, expected {want}")
    R.check(close(read(x), p, tolerance(t)), "operand", lambda: f"Log changed its argument {p} to {x}")
    return y


FORMS = [("DP", rp.FreeTensor, rp.DenseVector), ("DP", rp.ShuffleTensor, rp.DenseVector), ("DP", rp.FreeTensor, rp.SparseVector), ("DP", rp.ShuffleTensor, rp.SparseVector),
         ("RAT", rp.FreeTensor, rp.DenseVector), ("RAT", rp.FreeTensor, rp.SparseVector), ("RAT", rp.ShuffleTensor, rp.DenseVector), ("SP", rp.FreeTensor, rp.DenseVector)]
BASES = [(1, 4), (2, 1), (2, 2), (2, 3), (3, 1), (3, 2), (3, 3), (4, 2), (2, 4)]


def logs():
    bases = BASES + ([(3, 4), (2, 5), (5, 3), (1, 6)] if R.thorough else [])
    for w, d in bases:
        ws = words(w, d)
        forms = FORMS if len(ws) <= 20 else FORMS[:2] + FORMS[4:5]
        if len(ws) > 40: forms = FORMS[4:5]
        for t, cls, vt in forms:
            for u in ws:
                if not R.mine(): continue
                log_of({u: F(1)}, w, d, t, cls, vt, "basis", "word")
            if len(ws) > 31: continue
            # linear combinations: every pair of words with two sets of coefficients when that is few
            pairs = list(itertools.combinations(ws, 2)) if len(ws) <= 15 and d <= 3 else list(zip(ws, reversed(ws)))[:len(ws) // 2]
            for (u, v), (a, b) in itertools.product(pairs, ((F(1), F(-2)), (F(3, 2), F(5)))):
                if not R.mine(): continue
                log_of({u: a, v: b}, w, d, t, cls, vt, "linear", "pair")
        log_zero = [f for f in forms]
        for t, cls, vt in log_zero:
            if R.mine(): log_of({}, w, d, t, cls, vt, "basis", "zero")
    # group-like elements: the linear Log is the logarithm
    for w, d in bases:
        if len(words(w, d)) > 45: continue
        lies = [{(1,): F(1)}, {(w,): F(-2)}, {(l,): F(l, 2) for l in range(1, w + 1)}]
        if w > 1 and d > 1:
            br = ftm.bracket({(1,): F(1)}, {(2,): F(1)}, d)
            lies += [br, ftm.add({(1,): F(1)}, br, F(3)), ftm.add({(1,): F(1), (2,): F(-1)}, br, F(1, 2))]
        for t, vt in (("DP", rp.DenseVector), ("RAT", rp.DenseVector), ("RAT", rp.SparseVector)):
            for l in lies:
                if not R.mine(): continue
                y = log_of(ftm.exp(l, d), w, d, t, rp.FreeTensor, vt, "group-like", "exp")
                if y is not None:
                    R.check(close(read(y), l, tolerance(t)), "group-like", lambda: f"Log of exp of {l} in {w},{d} is {y}")
                    z = build(ftm.exp(l, d), w, d, t, rp.FreeTensor, vt).log()
                    R.check(close(read(z), read(y), tolerance(t)), "group-like", lambda: f"Log {y} and log {z}")
    for w, d in ((2, 2), (3, 2), (2, 3)):
        if not R.mine(): continue
        R.at(f"polynomials {w},{d}"); R.state()
        x = rp.FreeTensor([0] + [1 * rp.Monomial(f"x{i + 1}") for i in range(w)], ctx=ctx_of(w, d, "POLY")).exp()
        y, z = tf.Log(x), x.log()
        R.check(y == z, "group-like", lambda: f"Log of the generic group-like of {w},{d} is {y}, log {z}")


# ---------------------------------------------------------------- external products
def tt_read(p):
    r = {}
    for (a, b), v in p.data.items():
        k = (tuple(a.to_letters()), tuple(b.to_letters()))
        r[k] = r.get(k, 0) + (v if isinstance(v, (int, F)) else F(v) if isinstance(v, float) else F(v.to_float()))
    return {k: v for k, v in r.items() if v}


def external():
    w, d = 2, 2
    ts = [{(): F(1)}, {(1,): F(2), (2,): F(-1)}, {(): F(-1), (1, 2): F(3), (2, 1): F(1, 2)}, {(2,): F(4)}]
    out = lambda p, q: {(u, v): a * b for u, a in p.items() for v, b in q.items()}
    for cls1, cls2 in itertools.product((rp.FreeTensor, rp.ShuffleTensor), repeat=2):
        for p, q in itertools.product(ts, repeat=2):
            for give in (True, False):
                if not R.mine(): continue
                R.at(f"external {p} {q}"); R.state()
                kw = {"ctx": ctx_of(w, d, "DP")} if give else {}
                try:
                    x = tf.TensorTensorProduct((build(p, w, d, "DP", cls1, rp.DenseVector), build(q, w, d, "DP", cls2, rp.DenseVector)), **kw)
                    R.check(tt_read(x) == out(p, q), "external", lambda: f"{p} (x) {q} is {x}")
                    R.check(x.ctx == ctx_of(w, d, "DP"), "external", lambda: "context of an external product")
                except Exception as e:
                    R.viol("external", f"{p} (x) {q} (context given: {give}): {e!r}")
    els = [out(p, q) for p, q in itertools.product(ts, repeat=2)] + [{}]

    def mk(e, kind):
        c = ctx_of(w, d, "DP")
        if kind == "scalar":
            one = lambda v: build({(): v}, w, d, "DP", rp.FreeTensor, rp.DenseVector)[key((), w, d)]
        else:
            one = float if kind == "float" else lambda v: v
        return tf.TensorTensorProduct({(key(a, w, d), key(b, w, d)): one(v) for (a, b), v in e.items()}, c)

    def lin(a, b, c):
        r = dict(a)
        for k, v in b.items():
            r[k] = r.get(k, 0) + c * v
        return {k: v for k, v in r.items() if v}

    for a, b in itertools.product(els, repeat=2):
        for kind in ("float", "scalar"):
            for n, f, g in [("+", lambda x, y: x + y, lambda x, y: lin(x, y, 1))] \
                    + [(f"add_scal_prod {s}", lambda x, y, s=s: x.add_scal_prod(y, s), lambda x, y, s=s: lin(x, y, F(s))) for s in (1, -1, 2, 0.5)] \
                    + [(f"add_scal_div {s}", lambda x, y, s=s: x.add_scal_div(y, s), lambda x, y, s=s: lin(x, y, 1 / F(s))) for s in (1, -2, 4, 0.5)] \
                    + [(f"sub_scal_div {s}", lambda x, y, s=s: x.sub_scal_div(y, s), lambda x, y, s=s: lin(x, y, -1 / F(s))) for s in (1, -2, 4, 0.5)]:
                if not R.mine(): continue
                R.at(f"{n} {a} {b} {kind}"); R.state()
                try:
                    x, y = mk(a, kind), mk(b, kind)
                    z = f(x, y)
                    R.check(tt_read(z) == g(a, b), f"tensor product {n.split()[0]}", lambda: f"{n} of {a} and {b} ({kind}) is {z}")
                    R.check(tt_read(y) == b, f"tensor product {n.split()[0]}", lambda: f"{n} changed its argument {b} to {y}")
                    if n == "+": R.check(tt_read(x) == a, "tensor product +", lambda: f"+ changed its argument {a} to {x}")
                    else: R.check(z is x, f"tensor product {n.split()[0]}", lambda: f"{n} did not return the product it changes")
                except Exception as e:
                    R.viol(f"tensor product {n.split()[0]}", f"{n} of {a} and {b} ({kind}): {e!r}")
    for a in els:
        for s in (0, 1, -2, 0.5):
            for kind in ("float", "scalar"):
                if not R.mine(): continue
                R.state()
                try:
                    x = mk(a, kind)
                    z = x * s
                    R.check(tt_read(z) == lin({}, a, F(s)) and tt_read(x) == a, "tensor product *", lambda: f"{a} * {s} ({kind}) is {z}")
                except Exception as e:
                    R.viol("tensor product *", f"{a} * {s} ({kind}): {e!r}")


def factory():
    for w, d in ((1, 3), (2, 3), (3, 2), (4, 2)):
        f = tf.tensor_word_factory(ctx_of(w, d, "DP").tensor_basis)
        for u in words(w, d):
            if not R.mine(): continue
            R.state()
            k = f(*u)
            R.check(tuple(k.to_letters()) == u and k == key(u, w, d), "factory", lambda: f"the word of {u} is {k}")


logs(); external(); factory()
R.finish()
