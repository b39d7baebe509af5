"""Bounded-exhaustive exploration of the Python algebra objects against exact models."""
import array, itertools, sys
from fractions import Fraction as F
import numpy as np
import roughpy as rp
import ftm
from vhpy import Run

R = Run()
RAT, DP, SP = rp.Rational, rp.DPReal, rp.SPReal
TOL = {RAT: 0, DP: F(1, 10 ** 12), SP: F(1, 10 ** 5)}


def raises(f, *exc):
    try:
        f()
    except exc or (Exception,):
        return True
    return False


def words(w, d):
    return [t for n in range(d + 1) for t in itertools.product(range(1, w + 1), repeat=n)]


# ---------------------------------------------------------------- B01 keys and bases
def b01():
    shapes = [(1, 1), (1, 3), (2, 1), (2, 2), (2, 3), (2, 4), (3, 1), (3, 2), (3, 3), (4, 2), (5, 2), (1, 6), (2, 5), (4, 3), (7, 2)]
    if R.thorough:
        shapes += [(2, 6), (3, 4), (5, 3), (2, 7)]
    for w, d in shapes:
        if not R.mine(): continue
        ctx = rp.get_context(w, d, DP)
        tensor_basis(w, d, ctx)
        lie_basis(w, d, ctx)


def tensor_basis(w, d, ctx):
    tb = ctx.tensor_basis
    ws = words(w, d)
    idx = {t: i for i, t in enumerate(ws)}
    tag = "w=%d d=%d " % (w, d)
    R.at("tensor basis " + tag)
    R.check((tb.width, tb.depth, tb.dimension) == (w, d, len(ws)), "tb.shape", tag)
    keys = list(tb)
    R.check([tuple(k.to_letters()) for k in keys] == ws, "tb.iteration", lambda: tag + str([str(k) for k in keys]))
    if len(keys) != len(ws): return
    for n in range(-1, d + 1):
        R.state()
        R.check(tb.size(n) == sum(w ** i for i in range((d if n < 0 else n) + 1)), "tb.size", tag + str(n))
        if n >= 0:
            R.check(ctx.tensor_size(n) == sum(w ** i for i in range(n + 1)), "ctx.tensor_size", tag + str(n))
    R.check(tb.size() == len(ws) and ctx.tensor_size() == len(ws), "tb.size.default", tag)
    R.check(raises(lambda: tb.size(d + 1), ValueError), "tb.size.range", tag)
    for t in ws:
        k = keys[idx[t]]
        R.at("key %r " % (t,) + tag)
        R.state()
        made = [rp.TensorKey(list(t), width=w, depth=d), rp.TensorKey(*t, width=w, depth=d),
                rp.TensorKey(index=idx[t], width=w, depth=d), tb.index_to_key(idx[t]), k.reverse().reverse()]
        for j, m in enumerate(made):
            R.check(tuple(m.to_letters()) == t, "key.make%d" % j, lambda: tag + "%r -> %s" % (t, m))
            R.check(m == k and hash(m) == hash(k), "key.eq", lambda: tag + "%r %d" % (t, j))
        R.check(str(k) == "(" + ",".join(map(str, t)) + ")", "key.str", lambda: tag + "%r %s" % (t, k))
        R.check(k.degree() == len(t), "key.degree", lambda: tag + "%r" % (t,))
        R.check(k.to_index() == idx[t] and tb.key_to_index(k) == idx[t], "key.index", lambda: tag + "%r %d %d" % (t, k.to_index(), tb.key_to_index(k)))
        R.check(k.width == w and k.max_degree == d, "key.attrs", lambda: tag + "%r" % (t,))
        R.check(tuple(k.reverse().to_letters()) == t[::-1], "key.reverse", lambda: tag + "%r %s" % (t, k.reverse()))
        for n in range(-1, d + 2):
            a, b = k.split_n(n)
            m = max(0, min(n, len(t)))
            e = (t[:len(t) - m], t[len(t) - m:])
            R.check((tuple(a.to_letters()), tuple(b.to_letters())) == e, "key.split_n",
                    lambda: tag + "%r split_n(%d) = %s %s, expected %s" % (t, n, a, b, e))
            R.step()
        if len(t) >= 1:
            p = tb.parents(k)
            R.check(p == (idx[t[:1]], idx[t[1:]]), "tb.parents", lambda: tag + "%r parents %s, expected %s" % (t, p, (idx[t[:1]], idx[t[1:]])))
        if len(t) == 1 or len(t) == 2:
            # a deeper basis of the same width has the same keys
            o = rp.TensorKey(list(t), width=w, depth=d + 1)
            R.check((o == k) == (k == o) and (o != k or hash(o) == hash(k)), "key.hash", lambda: tag + "%r" % (t,))
            o = rp.TensorKey(list(t), width=w + 1, depth=d)
            R.check(not (o == k) and not (k == o), "key.eq.width", lambda: tag + "%r" % (t,))
    R.check(len({k for k in keys}) == len(ws), "key.set", tag)
    D = {k: tuple(k.to_letters()) for k in keys}
    for t in ws:
        R.check(D.get(rp.TensorKey(list(t), width=w, depth=d)) == t, "key.dict", lambda: tag + "%r" % (t,))
    for t, u in itertools.product(ws, ws):
        R.step()
        R.check((keys[idx[t]] == keys[idx[u]]) == (t == u), "key.eq.pair", lambda: tag + "%r %r" % (t, u))
        if len(t) + len(u) <= d:
            p = keys[idx[t]] * keys[idx[u]]
            R.check(tuple(p.to_letters()) == t + u, "key.mul.reversed" if tuple(p.to_letters()) == u + t else "key.mul", lambda: tag + "%r * %r = %s" % (t, u, p))
    for i, j in itertools.product(range(len(ws) + 1), repeat=2):
        if i < len(ws):
            R.step()
            it = rp.TensorKeyIterator(keys[i], keys[j]) if j < len(ws) else rp.TensorKeyIterator(keys[i])
            got = [tuple(x.to_letters()) for x in it]
            R.check(got == ws[i:j], "tkey.iterator", lambda: tag + "%d %d %s" % (i, j, got))
    for bad in ([w + 1], [1, w + 1], [w + 1, 1], [1] * (d + 1)):
        R.check(raises(lambda: rp.TensorKey(bad, width=w, depth=d)), "key.invalid", lambda: tag + str(bad))
    R.check(raises(lambda: rp.TensorKey(index=len(ws), width=w, depth=d)), "key.invalid.index", tag)


def mobius(n):
    r, m, p = 1, n, 2
    while p <= m:
        if m % p == 0:
            m //= p
            if m % p == 0: return 0
            r = -r
        else: p += 1
    return r


def witt(w, n):
    return sum(mobius(k) * w ** (n // k) for k in range(1, n + 1) if n % k == 0) // n


def lst(e):
    return e if isinstance(e, int) else [lst(e[0]), lst(e[1])]


def expr_degree(e):
    return 1 if isinstance(e, int) else expr_degree(e[0]) + expr_degree(e[1])


def lie_basis(w, d, ctx):
    lb = ctx.lie_basis
    tag = "w=%d d=%d " % (w, d)
    R.at("lie basis " + tag)
    dims = [witt(w, n) for n in range(1, d + 1)]
    N = sum(dims)
    R.check((lb.width, lb.depth, lb.dimension) == (w, d, N), "lb.shape", lambda: tag + str((lb.width, lb.depth, lb.dimension, N)))
    keys = list(rp.LieKeyIterator(lb)) if hasattr(rp, "LieKeyIterator") else list(lb)
    keys2 = list(lb)
    R.check([str(k) for k in keys2] == [str(k) for k in keys], "lb.iter", tag)
    exprs = [ftm.key_expr(str(k)) for k in keys]
    R.check(len(keys) == N and len({str(k) for k in keys}) == N, "lb.iteration", lambda: tag + str([str(k) for k in keys]))
    R.check([expr_degree(e) for e in exprs] == [n for n in range(1, d + 1) for _ in range(dims[n - 1])], "lb.degree.order", lambda: tag + str([str(k) for k in keys]))
    if len(keys) != N: return
    for n in range(0, d + 1):
        R.check(lb.size(n) == sum(dims[:n]) and ctx.lie_size(n) == sum(dims[:n]), "lb.size", lambda: tag + "%d: %d" % (n, lb.size(n)))
    R.check(lb.size() == N and lb.size(-1) == N and ctx.lie_size() == N, "lb.size.default", tag)
    R.check(raises(lambda: lb.size(d + 1), ValueError), "lb.size.range", tag)
    pos = {str(k): i for i, k in enumerate(keys)}
    vals = [float(2 * i + 3) for i in range(N)]
    x = rp.Lie(vals, ctx=ctx)
    for i, (k, e) in enumerate(zip(keys, exprs)):
        R.at("lie key %s " % k + tag)
        R.state()
        R.check(str(lb.index_to_key(i)) == str(k), "lb.index_to_key", lambda: tag + "%d %s" % (i, k))
        R.check(lb.key_to_index(k) == i, "lb.key_to_index", lambda: tag + "%d %s -> %d" % (i, k, lb.key_to_index(k)))
        made = [rp.LieKey(lst(e), width=w, depth=d), rp.LieKey(lst(e), basis=lb)]
        for m in made:
            R.check(str(m) == str(k), "lkey.make", lambda: tag + "%s -> %s" % (k, m))
        R.check(x[i + 1].to_float() == vals[i], "lie.getitem.int", lambda: tag + "%d" % i)
        for m in made + [k]:
            R.check(x[m].to_float() == vals[i], "lie.getitem.key", lambda: tag + "lie[%s] = %s, expected %s" % (m, x[m], vals[i]))
        if not isinstance(e, int):
            p = lb.parents(k)
            q = tuple(1 + pos[str(c).replace("(", "[").replace(")", "]").replace(" ", "")] for c in e)
            R.check(p == q, "lb.parents", lambda: tag + "%s parents %s, expected %s" % (k, p, q))
    for i, j in itertools.product(range(1, N + 1), repeat=2):
        if N > 12 and (i * 5 + j * 3) % 7: continue
        R.step()
        got = [str(k) for k in rp.LieKeyIterator(lb, i, j)]
        R.check(got == [str(k) for k in keys[i - 1:j]], "lkey.iterator", lambda: tag + "%d %d %s" % (i, j, got))
    for bad in ([1, w + 1], [w + 1, 1], [1, [1, w + 1]], [[1, w + 1], 2]):
        R.check(raises(lambda: rp.LieKey(bad, width=w, depth=d)), "lkey.invalid", lambda: tag + str(bad))
    R.check(raises(lambda: rp.LieKey(w + 1, width=w, depth=d)), "lkey.invalid", tag)


# ---------------------------------------------------------------- B02 arithmetic of Python objects
class Kind:
    def __init__(self, name, ctor, ctx):
        self.name, self.ctor, self.ctx = name, ctor, ctx
        if name == "Lie":
            self.keys = list(ctx.lie_basis)
            self.exprs = [ftm.key_expr(str(k)) for k in self.keys]
            self.off = 1
        else:
            self.keys = list(ctx.tensor_basis)
            self.exprs = [tuple(k.to_letters()) for k in self.keys]
            self.off = 0
        self.n = len(self.keys)

    def make(self, v, dense):
        """v: tuple of ints/Fractions by basis index"""
        if dense:
            return self.ctor([float(c) for c in v], ctx=self.ctx, vector_type=rp.DenseVector)
        return self.ctor({i: float(c) for i, c in enumerate(v) if c} or {0: 0.0}, ctx=self.ctx, vector_type=rp.SparseVector)

    def value(self, x):
        r = [F(0)] * self.n
        seen = set()
        for it in x:
            s = str(it.key())
            i = self.index(s)
            assert i not in seen, "key %s twice" % s
            seen.add(i)
            r[i] = ftm.frac(it.value())
        return tuple(r)

    def index(self, s):
        if not hasattr(self, "pos"):
            self.pos = {str(k): i for i, k in enumerate(self.keys)}
        return self.pos[s]

    def mul(self, a, b):
        if self.name == "Lie":
            ta, tb = ({}, {})
            for c, e in zip(a, self.exprs): ta = ftm.add(ta, ftm.expand_key(e), c) if c else ta
            for c, e in zip(b, self.exprs): tb = ftm.add(tb, ftm.expand_key(e), c) if c else tb
            return ftm.bracket(ta, tb, self.ctx.depth)
        ta = {e: F(c) for c, e in zip(a, self.exprs) if c}
        tb = {e: F(c) for c, e in zip(b, self.exprs) if c}
        if self.name == "FreeTensor":
            return ftm.mul(ta, tb, self.ctx.depth)
        r = {}
        for u, x in ta.items():
            for v, y in tb.items():
                if len(u) + len(v) <= self.ctx.depth:
                    for z in shuffles(u, v): r[z] = r.get(z, 0) + x * y
        return {k: v for k, v in r.items() if v}

    def as_tensor(self, val):
        if self.name == "Lie":
            t = {}
            for c, e in zip(val, self.exprs):
                if c: t = ftm.add(t, ftm.expand_key(e), c)
            return {k: v for k, v in t.items() if v}
        return {e: F(c) for c, e in zip(val, self.exprs) if c}


def shuffles(u, v):
    if not u: return [v]
    if not v: return [u]
    return [u[:1] + z for z in shuffles(u[1:], v)] + [v[:1] + z for z in shuffles(u, v[1:])]


def axpy(a, b, c):
    return tuple(x + c * y for x, y in zip(a, b))


def scaled(a, c):
    return tuple(x * c for x in a)


def b02():
    cfg = [(2, 2, RAT), (2, 2, DP), (1, 3, DP), (3, 2, SP), (2, 3, DP)]
    if R.thorough: cfg += [(3, 2, RAT), (2, 3, RAT), (2, 4, DP), (1, 3, RAT), (3, 3, DP)]
    for (w, d, ct) in cfg:
        ctx = rp.get_context(w, d, ct)
        for name, ctor in (("FreeTensor", rp.FreeTensor), ("ShuffleTensor", rp.ShuffleTensor), ("Lie", rp.Lie)):
            K = Kind(name, ctor, ctx)
            els = elements(K)
            for a in els:
                for da in (True, False):
                    if not R.mine(): continue
                    unary(K, a, da)
                    for b in els:
                        for db in (True, False):
                            binary(K, a, da, b, db)


def elements(K):
    n = K.n
    if n <= 3:
        base = [v for v in itertools.product((-2, 0, 3), repeat=n)]
    else:
        base = [tuple([0] * n)]
        for i in range(min(n, 8)):
            base.append(tuple(3 if j == i else 0 for j in range(n)))
        base.append(tuple((-1) ** j * (j + 1) for j in range(n)))
        base.append(tuple((j + 2) if j % 2 else 0 for j in range(n)))
        base.append(tuple((j + 1) if j < n // 2 else 0 for j in range(n)))
        base.append(tuple(-4 if j in (n - 1, 0) else 0 for j in range(n)))
    return base


def unary(K, a, da):
    tag = "%s w=%d d=%d %s %s a=%s" % (K.name, K.ctx.width, K.ctx.depth, K.ctx.ctype, "dense" if da else "sparse", a)
    R.at(tag)
    R.state()
    x = K.make(a, da)
    t = TOL[K.ctx.ctype]

    def eq(got, want, what):
        g = K.value(got)
        R.check(all(abs(p - q) <= t * max(1, abs(q)) for p, q in zip(g, want)), K.name + "." + what,
                lambda: "%s: %s gave %s, expected %s" % (tag, what, list(map(str, g)), list(map(str, want))))

    eq(x, a, "construct")
    R.check(x.width == K.ctx.width and x.max_degree == K.ctx.depth, K.name + ".attrs", tag)
    R.check(x.is_zero() == (not any(a)), K.name + ".is_zero", lambda: tag)
    R.check(x.context == K.ctx, K.name + ".context", tag)
    # a list of all items, used after the iteration and after the iterator has gone
    items = list(x)
    got = {}
    for it in items: got[str(it.key())] = ftm.frac(it.value())
    want = {str(k): F(c) for k, c in zip(K.keys, a) if c}
    R.check({k: v for k, v in got.items() if v} == want, K.name + ".items", lambda: "%s: %s" % (tag, got))
    vals = [(it.key(), it.value()) for it in items]
    R.check(all(ftm.frac(v) == got[str(k)] for k, v in vals), K.name + ".items.values", tag)
    it1, it2 = iter(x), iter(x)
    p, q = next(it1, None), next(it2, None)
    if p is not None:
        k0, v0 = str(p.key()), ftm.frac(p.value())
        r = next(it1, None)
        R.check(str(p.key()) == k0 and ftm.frac(p.value()) == v0 and str(q.key()) == k0, K.name + ".items.stable", lambda: "%s: %s became %s" % (tag, k0, p.key()))
    for i, k in enumerate(K.keys):
        R.check(ftm.frac(x[k]) == a[i] and ftm.frac(x[i + K.off]) == a[i], K.name + ".getitem", lambda: "%s key %s: %s %s" % (tag, k, x[k], x[i + K.off]))
        R.step()
    eq(-x, scaled(a, -1), "neg")
    S = next(iter(rp.FreeTensor([4.0], ctx=K.ctx))).value()      # a scalar object with value 4
    for c, what in ((2, "int"), (-3, "int"), (0.5, "float"), (-2.0, "float"), (S, "Scalar")):
        R.step()
        f = F(4) if c is S else F(c)
        eq(x * c, scaled(a, f), "mul." + what)
        eq(c * x, scaled(a, f), "rmul." + what)
        eq(x / c, scaled(a, 1 / f), "div." + what)
        y = K.make(a, da)
        z = y
        y *= c
        eq(y, scaled(a, f), "imul." + what)
        R.check(z is y or K.value(z) == K.value(y), K.name + ".imul.identity", tag)
        y = K.make(a, da)
        y /= c
        eq(y, scaled(a, 1 / f), "idiv." + what)
    eq(x, a, "unchanged")
    if K.ctx.ctype is not RAT:
        arr = np.array(x)
        R.check(arr.shape == (K.n,) and [F(float(v)) for v in arr] == list(map(F, a)),
                "array.sparse.zeros" if not da and not arr.any() and arr.shape == (K.n,) else K.name + ".array", lambda: "%s: %s" % (tag, arr))
        arr[...] = 77
        eq(x, a, "array.copy")


def binary(K, a, da, b, db):
    tag = "%s w=%d d=%d %s %s%s a=%s b=%s" % (K.name, K.ctx.width, K.ctx.depth, K.ctx.ctype, "ds"[not da], "ds"[not db], a, b)
    R.at(tag)
    R.state()
    t = TOL[K.ctx.ctype]
    x, y = K.make(a, da), K.make(b, db)

    def eq(got, want, what):
        g = K.value(got)
        R.check(all(abs(p - q) <= t * max(1, abs(q)) for p, q in zip(g, want)), K.name + "." + what,
                lambda: "%s: %s gave %s, expected %s" % (tag, what, list(map(str, g)), list(map(str, want))))

    def eqt(got, want, what, cf=1):
        g = K.as_tensor(K.value(got))
        R.check(ftm.close(g, {k: v for k, v in want.items() if v}, t), K.name + "." + what,
                lambda: "%s: %s gave %s, expected %s" % (tag, what, ftm.show(g), ftm.show(want)))

    eq(x + y, axpy(a, b, 1), "add")
    eq(x - y, axpy(a, b, -1), "sub")
    R.check((x == y) == (a == b) and (x != y) == (a != b), K.name + ".eq", lambda: tag)
    prod = K.mul(a, b)
    eqt(x * y, prod, "mul")
    S = next(iter(rp.FreeTensor([4.0], ctx=K.ctx))).value()
    for op, want in (("iadd", axpy(a, b, 1)), ("isub", axpy(a, b, -1)),
                     ("add_scal_mul", axpy(a, b, 4)), ("sub_scal_mul", axpy(a, b, -4)),
                     ("add_scal_div", axpy(a, b, F(1, 4))), ("sub_scal_div", axpy(a, b, F(-1, 4)))):
        z = K.make(a, da)
        if op == "iadd": z += y
        elif op == "isub": z -= y
        else: z = getattr(z, op)(y, S)
        eq(z, want, op)
        R.step()
    z = K.make(a, da)
    z *= y
    eqt(z, prod, "imul")
    eqt(K.make(a, da).mul_smul(y, S), ftm.scale(prod, F(4)), "mul_smul")
    eqt(K.make(a, da).mul_sdiv(y, S), ftm.scale(prod, F(1, 4)), "mul_sdiv")
    c = tuple((i % 3) - 1 for i in range(K.n))
    ct = K.as_tensor(c)
    eqt(K.make(c, da).add_mul(x, y), ftm.add(ct, prod), "add_mul")
    eqt(K.make(c, da).sub_mul(x, y), ftm.add(ct, prod, -1), "sub_mul")
    if K.name == "FreeTensor":
        sx = rp.ShuffleTensor([float(v) for v in a], ctx=K.ctx)
        KS = Kind("ShuffleTensor", rp.ShuffleTensor, K.ctx)
        sh = KS.mul(a, b)
        r = rp.shuffle_multiply(x, y)
        R.check(type(r) is rp.FreeTensor, "shuffle_multiply.type", tag)
        eqt(r, sh, "shuffle_multiply")
        r = rp.free_multiply(x, y)
        R.check(type(r) is rp.FreeTensor, "free_multiply.type", tag)
        eqt(r, prod, "free_multiply")
        r = rp.free_multiply(sx, y)
        R.check(type(r) is rp.ShuffleTensor, "free_multiply.mixed.type", tag)
        eqt(r, prod, "free_multiply.mixed")
        # adjoint of left multiplication: <adj_x y, z> = <y, x z>
        ta, tb = K.as_tensor(a), K.as_tensor(b)
        adj = {}
        for u, p in ta.items():
            for v, q in tb.items():
                if v[:len(u)] == u:
                    adj[v[len(u):]] = adj.get(v[len(u):], 0) + p * q
        for yy, ty in ((y, rp.FreeTensor), (rp.ShuffleTensor([float(v) for v in b], ctx=K.ctx), rp.ShuffleTensor)):
            r = rp.adjoint_to_free_multiply(x, yy)
            R.check(type(r) is ty, "adjoint.type", tag)
            eqt(r, adj, "adjoint")
    eq(x, a, "unchanged")
    eq(y, b, "unchanged")


# ---------------------------------------------------------------- B03 data arguments
def layouts(n, dt, two=None):
    """all 1-D views of n elements of a buffer with |stride| <= 3 and small offsets"""
    for st in (1, 2, 3, -1, -2, 0, n):
        for off in (0, 1):
            need = (abs(st) * (n - 1) + 1) + off
            buf = np.arange(1, need + 4).astype(dt)
            start = off if st >= 0 else off + abs(st) * (n - 1)
            v = np.lib.stride_tricks.as_strided(buf[start:], (n,), (st * buf.itemsize,))
            yield "stride %d offset %d" % (st, off), v


DTYPES = ["float64", "float32", "int64", "int32", "int16", "int8", "uint8", "uint16", "uint32", "uint64"]


def b03():
    cfg = [(2, 2, DP), (2, 2, SP), (2, 2, RAT), (3, 1, DP), (1, 2, DP), (2, 3, SP)]
    if R.thorough: cfg += [(4, 2, DP), (3, 3, DP)] + [(2, 3, DP), (3, 2, SP), (3, 2, RAT)]
    for w, d, ct in cfg:
        ctx = rp.get_context(w, d, ct)
        for name, ctor in (("FreeTensor", rp.FreeTensor), ("ShuffleTensor", rp.ShuffleTensor), ("Lie", rp.Lie)):
            K = Kind(name, ctor, ctx)
            for n in sorted({1, 2, K.n - 1, K.n} - {0}):
                if n > K.n: continue
                for dt in DTYPES:
                    if not R.mine(): continue
                    for what, v in layouts(n, dt):
                        arr1(K, v, "%s n=%d %s %s" % (name, n, dt, what))
                if R.mine(): plain(K, n)
            if R.mine(): sparse(K)
    rows()


def same(K, x, want, what, tag):
    want = tuple(F(c) for c in want) + (F(0),) * (K.n - len(want))
    g = K.value(x)
    R.check(g == want, K.name + "." + what, lambda: "%s w=%d d=%d %s: got %s expected %s" % (tag, K.ctx.width, K.ctx.depth, K.ctx.ctype, list(map(str, g)), list(map(str, want))))


def arr1(K, v, tag):
    R.at(tag)
    R.state()
    want = [F(v[i].item()) for i in range(len(v))]
    x = K.ctor(v, ctx=K.ctx)
    same(K, x, want, "ndarray", tag)
    x = K.ctor(memoryview(np.ascontiguousarray(v)), ctx=K.ctx)
    same(K, x, want, "memoryview", tag)
    if v.strides[0] != 0:
        x = K.ctor(memoryview(v), ctx=K.ctx)
        same(K, x, want, "memoryview.strided", tag)
    code = {"float64": "d", "float32": "f", "int64": "q", "int32": "i", "int16": "h", "int8": "b", "uint8": "B", "uint16": "H", "uint32": "I", "uint64": "Q"}[v.dtype.name]
    x = K.ctor(array.array(code, v.tolist()), ctx=K.ctx)
    same(K, x, want, "array.array", tag)
    src = np.array(v)
    x = K.ctor(src, ctx=K.ctx)
    y = K.ctor(src, ctx=K.ctx, vector_type=rp.SparseVector)
    z = K.ctor(src, ctx=K.ctx, vector_type=rp.DenseVector)
    src[...] = 0
    for u, q in ((x, "default"), (y, "sparse"), (z, "dense")):
        same(K, u, want, "ndarray.owned." + q, tag)


def plain(K, n):
    for vals in itertools.product((0, -1, 2.5), repeat=min(n, 4)):
        v = list(vals) + [1] * (n - len(vals))
        tag = "%s list %s" % (K.name, v)
        R.at(tag)
        R.state()
        for mk in (list, tuple):
            if mk is tuple and n == 2: continue     # read as one (key, value) pair
            same(K, K.ctor(mk(v), ctx=K.ctx), v, mk.__name__, tag)
            same(K, K.ctor(mk(map(float, v)), ctx=K.ctx), v, mk.__name__ + ".float", tag)
        iv = [int(c) for c in v]
        same(K, K.ctor(iv, ctx=K.ctx), iv, "list.int", tag)
        sc = [it for c in v for it in [next(iter(rp.FreeTensor([float(c) or 5.0], ctx=K.ctx))).value()]]
        same(K, K.ctor(sc, ctx=K.ctx), [c or 5 for c in v], "list.Scalar", tag)


def sparse(K):
    n = K.n
    alphabet = [None, 2.0, -3]
    m = min(n, 5)
    for vals in itertools.product(alphabet, repeat=m):
        ent = [(i, v) for i, v in enumerate(vals) if v is not None]
        if not ent: continue
        want = [0] * n
        for i, v in ent: want[i] = v
        tag = "%s entries %s" % (K.name, ent)
        R.at(tag)
        R.state()
        for e in (ent, ent[::-1]):
            same(K, K.ctor(dict(e), ctx=K.ctx), want, "dict", tag)
            same(K, K.ctor(e, ctx=K.ctx), want, "pairs", tag)
            same(K, K.ctor(tuple(e), ctx=K.ctx), want, "pairs.tuple", tag)
            same(K, K.ctor(dict(e), ctx=K.ctx, vector_type=rp.DenseVector), want, "dict.dense", tag)
            if K.name != "Lie":
                same(K, K.ctor({K.keys[i]: v for i, v in e}, ctx=K.ctx), want, "dict.key", tag)
                same(K, K.ctor([(K.keys[i], v) for i, v in e], ctx=K.ctx), want, "pairs.key", tag)
        if K.name == "Lie":
            for vt in (rp.DenseVector, rp.SparseVector):
                x = K.ctor(dict(ent), ctx=K.ctx, vector_type=vt)
                for vt2 in (rp.DenseVector, rp.SparseVector):
                    same(K, K.ctor(x, ctx=K.ctx, vector_type=vt2), want, "from.Lie", tag + " %s %s" % (vt, vt2))


def views2(n, m, dt):
    """2-D views of n rows and m columns"""
    base = (np.arange(1, 400) % 97).astype(dt)
    it = base.itemsize
    for off in (0, 3):
        for rs, cs in ((m, 1), (m + 2, 1), (1, n), (1, n + 3), (2 * m, 2), (0, 1), (1, 0), (0, 0), (2, 1), (1, 1), (1, 2), (3 * m, 1)):
            yield "strides (%d,%d) offset %d" % (rs, cs, off), np.lib.stride_tricks.as_strided(base[off:], (n, m), (rs * it, cs * it))
        yield "flipped rows %d" % off, base[off:off + n * m].reshape(n, m)[::-1]
        yield "flipped cols %d" % off, base[off:off + n * m].reshape(n, m)[:, ::-1]
        yield "flipped both %d" % off, base[off:off + n * m].reshape(n, m)[::-1, ::-1]


def rows():
    for ct in (DP, SP, RAT):
        for n, m in ((1, 1), (1, 2), (2, 1), (2, 2), (3, 2), (2, 3), (3, 3)):
            ctx = rp.get_context(m, 2, ct)
            for dt in ("float64", "float32", "int32", "int64"):
                if not R.mine(): continue
                for what, v in views2(n, m, dt):
                    tag = "rows %dx%d %s %s %s" % (n, m, ct, dt, what)
                    R.at(tag)
                    R.state()
                    s = rp.LieIncrementStream.from_increments(v, ctx=ctx)
                    want = {}
                    for i in range(n):
                        got = ftm.lie(s.log_signature(rp.RealInterval(i - 0.5, i + 0.5), 4))
                        e = {(j + 1,): F(v[i, j].item()) for j in range(m) if v[i, j]}
                        R.step()
                        R.check(got == e, "rows.increment", lambda: "%s row %d: got %s expected %s" % (tag, i, ftm.show(got), ftm.show(e)))
                    if dt == "float64":
                        sg = ftm.tensor(ctx.compute_signature(v))
                        e = ftm.ONE
                        for i in range(n):
                            e = ftm.mul(e, ftm.exp({(j + 1,): F(v[i, j].item()) for j in range(m) if v[i, j]}, 2), 2)
                        R.check(ftm.close(sg, e, TOL[ct]), "compute_signature", lambda: "%s: got %s expected %s" % (tag, ftm.show(sg), ftm.show(e)))


{"b01": b01, "b02": b02, "b03": b03}[R.mode]()
R.finish()
