"""roughpy.compute: products, maps and bases over NumPy arrays.

--mode ops    products, adjoint, antipode, exp, log, fmexp over every combination of depths, layouts, batches
--mode bases  tensor and Lie bases, Lie <-> tensor maps over every Hall basis of small shape
"""
import ctypes, itertools, math, os, sys
import numpy as np
from vhpy import Run

R = Run()
import roughpy.compute as rc

SENT = 777.0


# ---- models, over arrays indexed by words in degree-lexicographic order ---------
def tsize(w, d):
    return sum(w ** k for k in range(d + 1))


def words(w, d):
    return [u for k in range(d + 1) for u in itertools.product(range(1, w + 1), repeat=k)]


_idx = {}


def index(w, d):
    if (w, d) not in _idx: _idx[w, d] = {u: i for i, u in enumerate(words(w, d))}
    return _idx[w, d]


def fit(a, w, d):
    """the same element at depth d"""
    n = tsize(w, d)
    r = np.zeros(a.shape[:-1] + (n,), a.dtype)
    m = min(n, a.shape[-1])
    r[..., :m] = a[..., :m]
    return r


_tab = {}


def table(kind, w, d):
    """list of (i, j, k, c): e_i * e_j contains c e_k"""
    if (kind, w, d) in _tab: return _tab[kind, w, d]
    W, ix, t = words(w, d), index(w, d), []
    for u in W:
        for v in W:
            if len(u) + len(v) > d: continue
            if kind == "mul": t.append((ix[u], ix[v], ix[u + v], 1))
            else:
                n = {}
                for pos in itertools.combinations(range(len(u) + len(v)), len(u)):
                    s, iu, iv = [], iter(u), iter(v)
                    for p in range(len(u) + len(v)): s.append(next(iu) if p in pos else next(iv))
                    n[tuple(s)] = n.get(tuple(s), 0) + 1
                t += [(ix[u], ix[v], ix[k], c) for k, c in n.items()]
    t = tuple(np.array(x) for x in zip(*t))
    _tab[kind, w, d] = t
    return t


def m_prod(kind, a, b, w, d):
    a, b = fit(a, w, d), fit(b, w, d)
    i, j, k, c = table(kind, w, d)
    r = np.zeros(a.shape, a.dtype)
    for pos in np.ndindex(a.shape[:-1]):
        np.add.at(r[pos], k, a[pos][i] * b[pos][j] * c)
    return r


def m_adj(op, arg, w, d):
    op, arg = fit(op, w, d), fit(arg, w, d)
    i, j, k, c = table("mul", w, d)
    r = np.zeros(arg.shape, arg.dtype)
    for pos in np.ndindex(arg.shape[:-1]):
        np.add.at(r[pos], j, op[pos][i] * arg[pos][k])
    return r


def m_antipode(a, w, d):
    r, ix = np.zeros_like(a), index(w, d)
    for u, i in ix.items(): r[..., ix[u[::-1]]] = (-1) ** len(u) * a[..., i]
    return r


def one(shape):
    r = np.zeros(shape)
    r[..., 0] = 1
    return r


def m_exp(x, w, d):
    x = fit(x.astype(float), w, d)
    x[..., 0] = 0
    r = one(x.shape)
    t = r.copy()
    for k in range(1, d + 1):
        t = m_prod("mul", t, x, w, d) / k
        r = r + t
    return r


def m_log(s, w, d):
    x = fit(s.astype(float), w, d)
    x[..., 0] = 0
    r, t = np.zeros(x.shape), one(x.shape)
    for k in range(1, d + 1):
        t = m_prod("mul", t, x, w, d)
        r = r + t * ((-1) ** (k + 1) / k)
    return r


# ---- arrays in memory ----------------------------------------------------------
LAYOUTS = ["C", "step", "rev", "F", "rows"]


def lay(vals, dtype, layout):
    """(view with those values, the memory around it, mask of the view in it)"""
    s = vals.shape
    if layout == "C":
        base = np.full(s[:-1] + (s[-1],), SENT, dtype)
        pick = (Ellipsis,)
    elif layout == "step":
        base = np.full(s[:-1] + (3 * s[-1] + 2,), SENT, dtype)
        pick = (Ellipsis, slice(1, 1 + 3 * s[-1], 3))
    elif layout == "rev":
        base = np.full(s[:-1] + (2 * s[-1] + 1,), SENT, dtype)
        pick = (Ellipsis, slice(2 * s[-1] - 1, None, -2))
    elif layout == "F":
        base = np.full(s, SENT, dtype, order="F")
        pick = (Ellipsis,)
    else:  # every other row of a wider array
        base = np.full(tuple(2 * n + 1 for n in s[:-1]) + (s[-1] + 3,), SENT, dtype)
        pick = tuple(slice(1, None, 2) for _ in s[:-1]) + (slice(2, 2 + s[-1]),)
    view = base[pick]
    assert view.shape == s, (view.shape, s, layout)
    view[...] = vals
    inside = np.zeros(base.shape, bool)
    inside[pick] = True
    return view, base, inside


def values(w, d, batch, k):
    n = tsize(w, d)
    a = np.arange(int(np.prod(batch, dtype=int)) * n).reshape(tuple(batch) + (n,))
    return ((a * (3 + 2 * k) + k * 5 + a // 3) % 7 - 3).astype(float)


_tb = {}


def TB(w, d):
    if (w, d) not in _tb: _tb[w, d] = rc.TensorBasis(w, d)
    return _tb[w, d]


def close(a, b, dtype):
    tol = 1e-11 if dtype == np.float64 else 3e-4
    return a.shape == b.shape and bool(np.all(np.abs(a - b) <= tol * (1 + np.abs(b))))


def exact(a, b, dtype):
    return a.shape == b.shape and bool(np.all(a == b))


def ops_mode():
    T = R.thorough
    shapes = {1: 5, 2: 4, 3: 3, 4: 2} if T else {1: 3, 2: 3, 3: 2}
    batches = [(), (2,), (2, 3)] + ([(0,), (1,), (2, 1, 2)] if T else [(0,)])
    dtypes = [np.float64, np.float32]

    # name, number of inputs, in place?, call(out or None, inputs, bases), model(out values, inputs, w, depths), compare
    def ft(x, b): return rc.FreeTensor(x, b)
    def st(x, b): return rc.ShuffleTensor(x, b)

    OPS = {
        "ft_fma": (3, lambda X, B: rc.ft_fma(*[ft(x, b) for x, b in zip(X, B)]), lambda V, w, D: V[0] + m_prod("mul", V[1], V[2], w, D[0]), exact, True),
        "st_fma": (3, lambda X, B: rc.st_fma(*[st(x, b) for x, b in zip(X, B)]), lambda V, w, D: V[0] + m_prod("shuffle", V[1], V[2], w, D[0]), exact, True),
        "ft_inplace_mul": (2, lambda X, B: rc.ft_inplace_mul(*[ft(x, b) for x, b in zip(X, B)]), lambda V, w, D: m_prod("mul", V[0], V[1], w, D[0]), exact, True),
        "ft_mul": (2, lambda X, B: rc.ft_mul(*[ft(x, b) for x, b in zip(X, B)]), lambda V, w, D: m_prod("mul", V[0], V[1], w, D[0]), exact, False),
        "st_mul": (2, lambda X, B: rc.st_mul(*[st(x, b) for x, b in zip(X, B)]), lambda V, w, D: m_prod("shuffle", V[0], V[1], w, D[0]), exact, False),
        "antipode": (1, lambda X, B: rc.antipode(ft(X[0], B[0])), lambda V, w, D: m_antipode(V[0], w, D[0]), exact, False),
        "ft_adjoint_left_mul": (2, lambda X, B: rc.ft_adjoint_left_mul(ft(X[0], B[0]), st(X[1], B[1])), lambda V, w, D: m_adj(V[0], V[1], w, D[1]), exact, False),
        "ft_exp": (1, lambda X, B: rc.ft_exp(ft(X[0], B[0])), lambda V, w, D: m_exp(V[0], w, D[0]), close, False),
        "ft_log": (1, lambda X, B: rc.ft_log(ft(X[0], B[0])), lambda V, w, D: m_log(V[0], w, D[0]), close, False),
        "ft_fmexp": (2, lambda X, B: rc.ft_fmexp(ft(X[0], B[0]), ft(X[1], B[1])), lambda V, w, D: m_prod("mul", V[0], m_exp(V[1], w, D[0]), w, D[0]), close, False),
        "ft_exp out_basis": (2, lambda X, B: rc.ft_exp(ft(X[0], B[0]), out_basis=B[1]), lambda V, w, D: m_exp(V[0], w, D[1]), close, False),
        "ft_log out_basis": (2, lambda X, B: rc.ft_log(ft(X[0], B[0]), out_basis=B[1]), lambda V, w, D: m_log(V[0], w, D[1]), close, False),
        "ft_fmexp out_basis": (3, lambda X, B: rc.ft_fmexp(ft(X[0], B[0]), ft(X[1], B[1]), B[2]), lambda V, w, D: m_prod("mul", V[0], m_exp(V[1], w, D[2]), w, D[2]), close, False),
    }

    def prep(name, V):
        if name.startswith("ft_exp"): V[0][..., 0] = 0
        if name.startswith("ft_log"): V[0][..., 0] = 1
        if name.startswith("ft_fmexp"): V[1][..., 0] = 0

    def case(name, w, D, batch, dtype, L, V):
        n, call, model, cmp, inplace = OPS[name]
        where = f"{name} width {w} depths {','.join(map(str, D))} batch {batch} {np.dtype(dtype).name} layouts {','.join(L)}"
        if R.only and R.only not in where: return
        R.at(where)
        prep(name, V)
        mem = [lay(v, dtype, l) for v, l in zip(V, L)]
        want = model(V, w, D)
        X = [m[0] for m in mem]
        keep = [m[1].copy() for m in mem]
        r = call(X, [TB(w, d) for d in D])
        R.state()
        got = X[0] if inplace else r.data
        R.check(got.dtype == dtype and cmp(np.asarray(got, float), want, dtype), "k02:" + name.split()[0],
                lambda: f"{where}: operands {[v.tolist() for v in V]} gave {got.tolist()} expected {want.tolist()}")
        if inplace:
            (keep[0])[mem[0][2]] = mem[0][1][mem[0][2]]
        R.check(all(np.array_equal(k, m[1]) for k, m in zip(keep, mem)), "k02:" + name.split()[0] + ".memory", lambda: f"{where}: memory of operands or around the result changed")
        if not inplace:
            b = {"ft_adjoint_left_mul": 1, "ft_exp out_basis": 1, "ft_log out_basis": 1, "ft_fmexp out_basis": 2}.get(name, 0)
            R.check(r.basis == TB(w, D[b]) and type(r) is (rc.ShuffleTensor if name in ("st_mul", "ft_adjoint_left_mul") else rc.FreeTensor),
                    "k02:result", lambda: f"{where}: result {type(r)} over {r.basis}")
            if inplace is False and r.data.size:
                R.check(not any(np.shares_memory(r.data, m[1]) for m in mem), "k02:result", lambda: f"{where}: result shares memory with an operand")

    for name, (n, call, model, cmp, inplace) in OPS.items():
        nd = n
        for w, dmax in shapes.items():
            if name.startswith("st_") and w ** dmax > 64: dmax -= 1
            for D in itertools.product(range(dmax + 1), repeat=nd):
                for batch in batches:
                    if not R.mine(): continue
                    na = n if "out_basis" not in name else n - 1
                    lays = list(itertools.product(LAYOUTS, repeat=na))
                    if not T and na == 3: lays = [l for l in lays if len(set(l)) < 3 or l[0] == "C"]
                    if batch != () and w != 2 and not T: lays = [l for l in lays if len(set(l)) == 1]
                    for L in lays:
                        for dtype in dtypes:
                            case(name, w, D, batch, dtype, L, [values(w, d, batch, k) for k, d in enumerate(D[:na])])
                        R.dim(name)
        # every pair of basis elements
        if n >= 2 and "out_basis" not in name and not name.startswith(("ft_exp", "ft_log")):
            for w, d in ((1, 3), (2, 2), (3, 1)) + (((2, 3), (3, 2)) if T else ()):
                for D in itertools.product(range(d + 1), repeat=n):
                    if not R.mine(): continue
                    for i in range(tsize(w, D[-2])):
                        for j in range(tsize(w, D[-1])):
                            V = [np.zeros(tsize(w, e)) for e in D]
                            V[-2][i] = 1
                            V[-1][j] = 1
                            case(name, w, D, (), np.float64, ["C"] * n, V)
                    R.dim("basis pairs")

    # calls that have no meaning raise and change nothing
    def refused(what, exc, f, *arrs):
        R.at("refused " + what)
        keep = [a.copy() for a in arrs]
        R.state()
        try:
            r = f()
        except exc:
            r = None
            R.check(True, "k02:refused", what)
        except Exception as e:
            R.check(False, "k02:refused", f"{what}: raised {type(e).__name__}: {e}")
        else:
            R.check(False, "k02:refused", f"{what}: did not raise, gave {r}")
        R.check(all(np.array_equal(a, b) for a, b in zip(arrs, keep)), "k02:refused.memory", f"{what}: operands changed")
    E = (ValueError, TypeError)
    for name, (n, call, model, cmp, inplace) in OPS.items():
        if "out_basis" in name: continue
        for dtype in dtypes:
            other = np.float32 if dtype == np.float64 else np.float64
            if not R.mine(): continue
            def arr(d=2, t=dtype, batch=(2,), w=2): return values(w, d, batch, 1).astype(t)
            for pos in range(n):
                B = [TB(2, 2)] * n
                def with_(x, b=None):
                    X = [arr() for _ in range(n)]
                    X[pos] = x
                    C = list(B)
                    if b is not None: C[pos] = b
                    refused(f"{name} operand {pos} {what}", E, lambda: call(X, C), *X)
                what = "of another width"
                if n > 1: with_(arr(w=3), TB(3, 2))
                what = "of another dtype"
                if n > 1: with_(arr(t=other))
                what = "of another batch shape"
                if n > 1:
                    with_(arr(batch=(3,)))
                    with_(arr(batch=()))
                    with_(arr(batch=(1, 2)))
                what = "shorter than its basis"
                with_(arr(d=1))
                what = "of integers"
                with_(arr(t=np.int64))
                with_(arr(t=np.complex128))
                with_(arr(t=np.float16))
                what = "in foreign byte order"
                with_(arr(t=np.dtype(dtype).newbyteorder()))
                what = "misaligned"
                raw = np.zeros(2 * 7 * np.dtype(dtype).itemsize + 1, np.uint8)[1:]
                with_(raw.view(dtype).reshape(2, 7))
                what = "not an array"
                X = [arr() for _ in range(n)]
                X[pos] = X[pos].tolist()
                refused(f"{name} operand {pos} {what}", (ValueError, TypeError, AttributeError), lambda: call(X, B))
            if inplace:
                x = arr()
                x.flags.writeable = False
                X = [x] + [arr() for _ in range(n - 1)]
                refused(f"{name} read-only", E, lambda: call(X, [TB(2, 2)] * n), *X)
            R.dim("refused")


# ---- bases ---------------------------------------------------------------------
def necklaces(w, n):
    def mob(k):
        r, p = 1, 2
        while k > 1:
            if k % p == 0:
                k //= p
                if k % p == 0: return 0
                r = -r
            p += 1
        return r
    return sum(mob(k) * w ** (n // k) for k in range(1, n + 1) if n % k == 0) // n


def halls(w, d, order):
    """Hall bases in index order whose elements within each degree (>= 2) are
    arranged by order(degree, candidates in lexicographic order) -> arrangements"""
    def rec(data, begin, deg):
        if deg > d:
            yield data, begin
            return
        deg_of = lambda k: max(e for e in range(1, len(begin) - 1 + 1) if begin[e] <= k)
        cand = []
        for i in range(1, len(data)):
            for j in range(i + 1, len(data)):
                if deg_of(i) + deg_of(j) == deg and data[j][0] <= i: cand.append((i, j))
        for arr in order(deg, cand):
            nd = data + list(arr)
            yield from rec(nd, begin + [len(nd)], deg + 1)
    yield from rec([(0, 0)] + [(0, l) for l in range(1, w + 1)], [0, 1] + ([1 + w] if d >= 1 else []), 2)


def expansions(data, w, d):
    """columns of the Lie to tensor matrix, from the definition"""
    n = tsize(w, d)
    ix = index(w, d)
    cols, W = [None], words(w, d)
    sp = [None]
    for k, (a, b) in enumerate(data):
        if k == 0: continue
        if a == 0: e = {(b,): 1}
        else:
            e = {}
            for u, x in sp[a].items():
                for v, y in sp[b].items():
                    e[u + v] = e.get(u + v, 0) + x * y
                    e[v + u] = e.get(v + u, 0) - x * y
            e = {u: x for u, x in e.items() if x}
        sp.append(e)
    M = np.zeros((n, len(data) - 1))
    for k in range(1, len(data)):
        for u, x in sp[k].items(): M[ix[u], k - 1] = x
    return M


_dyn = {}


def dynkin(w, d):
    """matrix of u -> [u1, [u2, ... uk]] / k over words"""
    if (w, d) in _dyn: return _dyn[w, d]
    W, ix = words(w, d), index(w, d)
    M = np.zeros((len(W), len(W)))
    ex = {}
    for u in W:
        if not u: continue
        if len(u) == 1: e = {u: 1}
        else:
            e = {}
            for v, x in ex[u[1:]].items():
                e[u[:1] + v] = e.get(u[:1] + v, 0) + x
                e[v + u[:1]] = e.get(v + u[:1], 0) - x
        ex[u] = e
        for v, x in e.items(): M[ix[v], ix[u]] = x / len(u)
    _dyn[w, d] = M
    return M


def dense(m):
    """a compressed matrix as a dense one, checking its structure"""
    rows, cols = m.shape
    p, i, x = m.indptr, m.indices, m.data
    r = np.zeros((rows, cols))
    f = m.format
    n, inner = (cols, rows) if f == "csc" else (rows, cols)
    assert len(p) == n + 1 and p[0] == 0 and p[-1] == len(i) == len(x) == m.nnz, "structure"
    for k in range(n):
        seg = i[p[k]:p[k + 1]]
        assert all(0 <= s < inner for s in seg) and len(set(seg.tolist())) == len(seg), "indices"
        for q in range(p[k], p[k + 1]):
            if f == "csc": r[i[q], k] = x[q]
            else: r[k, i[q]] = x[q]
    return r


def maps_agree(where, basis, w, d, data, dtypes, conv=True):
    R.state()
    M, Dy = expansions(data, w, d), dynkin(w, d)
    for dtype in dtypes:
        l2t = basis.get_l2t_matrix(dtype)
        t2l = basis.get_t2l_matrix(dtype)
        tol = 1e-5 if dtype == np.float32 else 1e-12
        try:
            A, B = dense(l2t), dense(t2l)
        except AssertionError as e:
            R.check(False, "k02:matrix", f"{where}: malformed {e}")
            continue
        R.check(np.array_equal(A, M) and l2t.data.dtype == dtype, "k02:l2t", lambda: f"{where}: Lie to tensor matrix\n{A}\nexpected\n{M}")
        R.check(B.shape == M.shape[::-1] and np.allclose(M @ B, Dy, rtol=0, atol=tol) and t2l.data.dtype == dtype, "k02:t2l", lambda: f"{where}: tensor to Lie matrix\n{B}\nmaps words to\n{M @ B}\nexpected\n{Dy}")
        if not conv: continue
        tb = TB(w, d)
        for batch in ((), (2,), (2, 2), (0,)):
            n = basis.size()
            v = ((np.arange(int(np.prod(batch, dtype=int)) * n) * 5) % 7 - 3).reshape(tuple(batch) + (n,)).astype(float)
            for layout in LAYOUTS:
                x, base, inside = lay(v, dtype, layout)
                keep = base.copy()
                for s in (None, 2.0, -0.5):
                    f = 1.0 if s is None else s
                    kw = {} if s is None else dict(scale_factor=s)
                    t = rc.lie_to_tensor(rc.Lie(x, basis), **kw)
                    R.check(t.data.dtype == dtype and np.allclose(t.data, f * v @ M.T, rtol=0, atol=tol * 100) and t.basis == tb and isinstance(t, rc.FreeTensor), "k02:lie_to_tensor", lambda: f"{where} {layout} {batch} scale {s}: {v.tolist()} gave {t.data.tolist()}")
                    t2 = rc.lie_to_tensor(rc.Lie(x, basis), tensor_basis=tb, **kw)
                    R.check(np.array_equal(t.data, t2.data), "k02:lie_to_tensor", lambda: f"{where}: differs with the basis given")
                    y, base2, _ = lay(t2.data.astype(float), dtype, layout)
                    l = rc.tensor_to_lie(rc.FreeTensor(y, tb), basis, **kw)
                    R.check(l.data.dtype == dtype and np.allclose(l.data, f * f * v, rtol=0, atol=tol * 100) and l.basis == basis and isinstance(l, rc.Lie), "k02:tensor_to_lie", lambda: f"{where} {layout} {batch} scale {s}: Lie {v.tolist()} came back as {l.data.tolist()}")
                    R.state(2)
                R.check(np.array_equal(keep, base), "k02:lie_to_tensor.memory", lambda: f"{where}: operand changed")
        tv = values(w, d, (2,), 3)
        l = rc.tensor_to_lie(rc.FreeTensor(tv.astype(dtype), tb), basis)
        R.check(np.allclose(l.data @ M.T, tv @ Dy.T, rtol=0, atol=tol * 1000), "k02:tensor_to_lie", lambda: f"{where}: tensor {tv.tolist()} gave {l.data.tolist()}")


_libc = ctypes.CDLL(None)
_libc.mmap.restype = ctypes.c_void_p
_libc.mmap.argtypes = [ctypes.c_void_p, ctypes.c_size_t] + [ctypes.c_int] * 3 + [ctypes.c_long]
_libc.mprotect.argtypes = [ctypes.c_void_p, ctypes.c_size_t, ctypes.c_int]


def guarded(a):
    """a copy of a that ends where memory that cannot be read begins"""
    page = 4096
    n = -(-max(a.nbytes, 1) // page) * page
    p = _libc.mmap(None, n + page, 3, 0x22, -1, 0)
    assert p not in (None, ctypes.c_void_p(-1).value) and _libc.mprotect(p + n, page, 0) == 0
    buf = (ctypes.c_char * a.nbytes).from_address(p + n - a.nbytes)
    r = np.frombuffer(buf, a.dtype).reshape(a.shape)
    r[...] = a
    return r


def np_basis(data, begin):
    return guarded(np.array(begin, np.intp)), guarded(np.array(data, np.intp).reshape(-1, 2))


def forked(f):
    """run f in a child: the product caches are global. Violations pass through the exit code."""
    r, wfd = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.close(r)
            msg = f() or ""
            os.write(wfd, msg.encode()[:60000])
            code = 0
        except BaseException as e:
            os.write(wfd, f"raised {type(e).__name__}: {e}".encode())
        os._exit(code)
    os.close(wfd)
    out = b""
    while True:
        b = os.read(r, 65536)
        if not b: break
        out += b
    os.close(r)
    _, st = os.waitpid(pid, 0)
    s = out.decode()
    if st and not s: s = f"process ended with status {st}"
    return s


def bases_mode():
    T = R.thorough
    # tensor bases
    shp = [(w, d) for w in range(1, 6) for d in range(0, 6) if tsize(w, d) < 5000]
    made = []
    for w, d in shp:
        b = rc.TensorBasis(w, d)
        want = [0] + [tsize(w, k) for k in range(d + 1)]
        made.append(((w, d), b, "new"))
        made.append(((w, d), rc.TensorBasis(width=w, depth=d, degree_begin=np.array(want, np.intp)), "given"))
        made.append(((w, d), rc.TensorBasis(w, d, np.array(want + [10 ** 6], np.intp)), "given longer"))
        for e in range(d + 1, d + 3):
            if tsize(w, e) < 20000: made.append(((w, d), rc.TensorBasis(w, e).truncate(d), f"truncated from {e}"))
    for (w, d), b, how in made:
        if not R.mine(): continue
        R.at(f"TensorBasis({w}, {d}) {how}")
        R.state()
        want = [0] + [tsize(w, k) for k in range(d + 1)]
        R.check((b.width, b.depth, b.size()) == (w, d, tsize(w, d)) and b.degree_begin.tolist()[:d + 2] == want and repr(b) == f"TensorBasis({w}, {d})",
                "k02:TensorBasis", lambda: f"TensorBasis({w}, {d}) {how}: width {b.width} depth {b.depth} size {b.size()} {b.degree_begin} {b!r}")
        for (w2, d2), c, how2 in made:
            same = (w, d) == (w2, d2)
            R.state()
            R.check((b == c) is same and (b != c) is not same and (not same or hash(b) == hash(c)), "k02:TensorBasis.equal",
                    lambda: f"TensorBasis({w}, {d}) {how} and TensorBasis({w2}, {d2}) {how2}: == {b == c} != {b != c} hashes {hash(b)} {hash(c)}")
        for bad in (-1, d, d + 1):
            try:
                b.truncate(bad)
                ok = False
            except ValueError: ok = True
            R.check(ok, "k02:TensorBasis.truncate", f"TensorBasis({w}, {d}).truncate({bad}) did not raise")
        good = np.array(want, np.intp)
        for what, x in (("short", good[:-1]), ("start", good + 1), ("two dimensions", good[None]), ("dtype", good.astype(np.int32)), ("list", want)) + ((("width", np.array([0] + [tsize(w + 1, k) for k in range(d + 1)], np.intp)),) if d else ()):
            try:
                rc.TensorBasis(w, d, x)
                ok = False
            except (ValueError, TypeError): ok = True
            R.check(ok, "k02:TensorBasis.refused", f"TensorBasis({w}, {d}) took degree_begin of wrong {what}")
        R.dim("tensor bases")
    # the standard Lie bases
    lshp = [(w, d) for w in range(1, 7) for d in range(1, 8) if tsize(w, d) <= (1400 if T else 400)]
    for w, d in lshp + [(w, 0) for w in range(1, 5)]:
        if not R.mine(): continue
        where = f"LieBasis({w}, {d})"
        R.at(where)
        b = rc.LieBasis(w, d)
        begin = [0, 1]
        for k in range(1, d + 1): begin.append(begin[-1] + necklaces(w, k))
        data = [tuple(x) for x in b.data.tolist()]
        ok = (b.width, b.depth, b.size()) == (w, d, begin[-1] - 1) and b.degree_begin.tolist() == begin and len(data) == begin[-1] and repr(b) == where
        R.check(ok, "k02:LieBasis", lambda: f"{where}: size {b.size()} degree_begin {b.degree_begin} {b!r} data {data}")
        if not ok: continue
        want = next(halls(w, d, lambda deg, cand: [cand]))[0] if d else [(0, 0)]
        # any arrangement within degrees: the set of elements is checked as a Hall set
        deg = lambda k: max(e for e in range(len(begin)) if begin[e] <= k)
        hall = data[0] == (0, 0) and all(data[l] == (0, l) for l in range(1, min(w, len(data) - 1) + 1)) and len(set(data)) == len(data)
        for k in range(w + 1, len(data)):
            x, y = data[k]
            hall = hall and 0 < x < y < k and deg(x) + deg(y) == deg(k) and data[y][0] <= x
        R.check(hall and len(want) == len(data), "k02:LieBasis.hall", lambda: f"{where}: not a Hall basis: {data}")
        R.check(rc.check_lie_basis_data(b.data, b.degree_begin, w, d), "k02:check", lambda: f"{where}: own data refused")
        c = rc.LieBasis(w, d)
        R.check(b == c and not b != c and hash(b) == hash(c), "k02:LieBasis.equal", lambda: f"{where}: two of them differ")
        for w2, d2 in lshp:
            if (w2, d2) != (w, d): R.check(b != rc.LieBasis(w2, d2), "k02:LieBasis.equal", lambda: f"{where} equals LieBasis({w2}, {d2})")
        if d == 0: continue
        g = rc.LieBasis(w, d, degree_begin=np.array(begin, np.intp), data=np.array(data, np.intp))
        R.check(b == g and hash(b) == hash(g), "k02:LieBasis.equal", lambda: f"{where}: differs from the basis with its data")
        R.state(3)
        maps_agree(where, b, w, d, data, [np.float32, np.float64, np.longdouble], conv=False)
        if tsize(w, d) <= 130: maps_agree(where, b, w, d, data, [np.float32, np.float64])
        maps_agree(where + " again", b, w, d, data, [np.float32, np.float64], conv=False)
        for bad in (np.int64, np.float16, np.complex128, np.dtype("f8").newbyteorder(), object):
            for f in (b.get_l2t_matrix, b.get_t2l_matrix):
                try:
                    f(bad)
                    ok = False
                except (TypeError, ValueError): ok = True
                R.check(ok, "k02:matrix.refused", f"{where}: {f.__name__}({bad}) did not raise")
        R.dim("Lie bases")
    # every Hall basis in index order, in the same process (products are cached by width)
    spaces = [(2, 4, None), (2, 5, None if T else 1), (3, 3, 1), (4, 2, None), (3, 2, None), (4, 3, 2)]
    for w, d, cut in spaces:
        def order(deg, cand):
            if cut is None or len(cand) <= 3: return itertools.permutations(cand)
            # all adjacent transpositions, and reversal
            alls = [tuple(cand), tuple(reversed(cand))]
            if cut == 2:
                if len(cand) <= 6: return alls
                # rotations, also with two elements exchanged: searches by bisection end anywhere
                for i in range(len(cand)):
                    c = cand[i:] + cand[:i]
                    alls.append(tuple(c))
                    for j in (1, 2, 3):
                        h = len(c) // 2
                        c[h], c[h + j] = c[h + j], c[h]
                        alls.append(tuple(c))
                return alls
            for i in range(len(cand) - 1):
                c = list(cand)
                c[i], c[i + 1] = c[i + 1], c[i]
                alls.append(tuple(c))
            return alls
        for n, (data, begin) in enumerate(halls(w, d, order)):
            if not R.mine(): continue
            where = f"Hall basis width {w} depth {d} number {n}"
            if R.only and R.only not in where: continue
            R.at(where)
            db, dt = np_basis(data, begin)
            R.check(rc.check_lie_basis_data(dt, db, w, d), "k02:check", lambda: f"{where}: refused {data}")
            b = rc.LieBasis(w, d, degree_begin=db, data=dt)
            std = rc.LieBasis(w, d)
            same = std.data.tolist() == dt.tolist()
            R.check((b == std) is same and (not same or hash(b) == hash(std)), "k02:LieBasis.equal", lambda: f"{where}: {'differs from' if same else 'equals'} the standard one")
            maps_agree(where, b, w, d, data, [np.float64], conv=n < 40)
            R.dim("Hall bases")
    # histories: the order in which bases of one width are used does not matter
    alt = {}
    for w, d in ((2, 4), (3, 3)):
        alt[w, d] = list(itertools.islice(halls(w, d, lambda deg, cand: [tuple(reversed(cand))]), 1))[0]
    bas = {"standard depth 2": (2, 2, None), "standard depth 4": (2, 4, None), "standard depth 5": (2, 5, None), "reversed depth 4": (2, 4, alt[2, 4]), "width 3": (3, 3, None), "width 3 reversed": (3, 3, alt[3, 3])}
    names = list(bas)
    for hist in [h for n in range(1, (4 if T else 3) + 1) for h in itertools.product(names, repeat=n)]:
        if not R.mine(): continue
        R.at("history " + ", ".join(hist))
        R.state(len(hist))

        def go():
            live = {}
            for h in hist:
                w, d, a = bas[h]
                if h not in live: live[h] = rc.LieBasis(w, d) if a is None else rc.LieBasis(w, d, *np_basis(*a))
                b = live[h]
                data = [tuple(x) for x in b.data.tolist()]
                M = expansions(data, w, d)
                if not np.array_equal(dense(b.get_l2t_matrix(np.float64)), M): return f"{h}: wrong Lie to tensor matrix"
                if not np.allclose(M @ dense(b.get_t2l_matrix(np.float64)), dynkin(w, d), rtol=0, atol=1e-12): return f"{h}: wrong tensor to Lie matrix"
        for w, d in ((2, 2), (2, 4), (2, 5), (3, 3)): dynkin(w, d)
        msg = forked(go)
        R.check(msg == "", "k02:history", lambda: f"after {', '.join(hist)}: {msg}")
        R.dim("histories")
    # checking of data
    for w, d in ((1, 1), (1, 3), (2, 1), (2, 2), (2, 3), (2, 4), (3, 2), (3, 3)):
        data, begin = next(halls(w, d, lambda deg, cand: [cand]))
        rules = lambda dat, le, major: hall_rules(dat, w, le, major)
        n = len(data)
        for k in range(n):
            for x in range(-1, n + 2):
                for y in range(-1, n + 2):
                    if not R.mine(): continue
                    m = list(data)
                    m[k] = (x, y)
                    R.at(f"check width {w} depth {d} entry {k} = {x}, {y}")
                    R.state()
                    want = hall_rules(m, w, lambda a, b: a <= b, 0)
                    db, dt = np_basis(m, begin)
                    got = rc.check_lie_basis_data(dt, db, w, d)
                    R.check(got is want, "k02:check", lambda: f"check of width {w} depth {d} with entry {k} = {x},{y} gave {got}")
                    try:
                        r = rc.check_lie_basis_data(dt, db, w, d, raise_on_fail=True)
                    except ValueError: r = False
                    R.check(r is want, "k02:check", lambda: f"check of width {w} depth {d} with entry {k} = {x},{y} raising: {r}")
                    R.dim("check")
        for k in range(len(begin)):
            for v in (-1, 1):
                m = list(begin)
                m[k] += v
                db, dt = np_basis(data, m)
                R.state()
                try:
                    got = rc.check_lie_basis_data(dt, db, w, d)
                except Exception as e: got = repr(e)
                if k in (0, 1, 2, len(begin) - 1):
                    R.check(got is False, "k02:check", lambda: f"check with degree_begin {m} gave {got}")
                    try:
                        rc.LieBasis(w, d, degree_begin=db, data=dt)
                        ok = False
                    except ValueError: ok = True
                    R.check(ok, "k02:LieBasis.refused", lambda: f"LieBasis took degree_begin {m}")
    # custom total orders, both conventions
    for w, d in ((2, 2), (2, 3), (3, 2)) + (((2, 4),) if T else ()):
        data, begin = next(halls(w, d, lambda deg, cand: [cand]))
        left = [(0, 0)] + [(0, l) for l in range(1, w + 1)] + [(b, a) for a, b in data[w + 1:]]
        n = len(data)
        for perm in itertools.permutations(range(1, n)):
            if n > 6 and perm[0] != 1 and perm[-1] != n - 1: continue
            if not R.mine(): continue
            rank = {k: i for i, k in enumerate(perm)}
            le = lambda a, b, *_: rank[a] <= rank[b]
            for dat in (data, left):
                for major in (0, 1):
                    R.at(f"check under order {perm} convention {major} data {dat}")
                    R.state()
                    want = hall_rules(dat, w, le, major)
                    db, dt = np_basis(dat, begin)
                    got = rc.check_lie_basis_data(dt, db, w, d, le, major)
                    R.check(got is want, "k02:check.order", lambda: f"order {perm}, convention {major}, data {dat}: gave {got}")
            R.dim("orders")
    # an exception of the order passes through
    for major in (0, 1):
        for at in range(6):
            data, begin = next(halls(2, 3, lambda deg, cand: [cand]))
            if major: data = [(0, 0)] + [(0, l) for l in range(1, 3)] + [(b, a) for a, b in data[3:]]
            db, dt = np_basis(data, begin)
            count = [0]
            rank = {k: (-k if major else k) for k in range(1, 6)}
            def le(a, b, *_):
                count[0] += 1
                if count[0] == at + 1: raise KeyError("order")
                return rank[a] <= rank[b]
            R.state()
            try:
                rc.check_lie_basis_data(dt, db, 2, 3, le, major)
                ok = count[0] <= at
            except KeyError: ok = True
            except Exception as e: ok = False
            R.check(ok, "k02:check.order", f"exception in the order's call {at}, convention {major}, did not pass through")
    for bad in (2, -1):
        try:
            data, begin = next(halls(2, 2, lambda deg, cand: [cand]))
            db, dt = np_basis(data, begin)
            rc.check_lie_basis_data(dt, db, 2, 2, lambda a, b, *_: a <= b, bad)
            ok = False
        except ValueError: ok = True
        R.check(ok, "k02:check.order", f"convention {bad} taken")


def hall_rules(dat, w, le, major):
    n = len(dat)
    lt = lambda a, b: a != b and le(a, b)
    if dat[0] != (0, 0): return False
    for l in range(1, w + 1):
        if dat[l] != (0, l): return False
    for k in range(w + 1, n):
        x, y = dat[k]
        if not (0 < x < k and 0 < y < k): return False
        if major == 0:
            if not lt(x, y): return False
            if dat[y][0] != 0 and not le(dat[y][0], x): return False
        else:
            if not lt(k, y): return False
            p, q = dat[x]
            if p != 0 and not (lt(p, q) and le(y, q)): return False
    return True


{"ops": ops_mode, "bases": bases_mode}[R.mode]()
R.finish()
