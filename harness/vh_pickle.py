"""Bounded-exhaustive exploration of pickling: values, streams, cache-file histories and torn cache files."""
import copy, itertools, os, pickle, re, shutil, sys, tempfile, traceback
from fractions import Fraction as F
import numpy as np
import roughpy as rp
import ftm
from vhpy import Run

R = Run()
RAT, DP, SP, POLY = rp.Rational, rp.DPReal, rp.SPReal, rp.RationalPoly
NAMES = {RAT: "rational", DP: "double", SP: "float", POLY: "polynomial"}
CACHE = ".stream_cache"


def protocols():
    return range(2, pickle.HIGHEST_PROTOCOL + 1)


def again(v, key, what):
    """All the ways Python has of copying through the pickling interface."""
    out = []
    try:
        for p in protocols():
            out.append(("protocol %d" % p, pickle.loads(pickle.dumps(v, p))))
        out.append(("twice", pickle.loads(pickle.dumps(out[-1][1]))))
        out.append(("deepcopy", copy.deepcopy(v)))
        out.append(("in a tuple", pickle.loads(pickle.dumps((v, [v])))[1][0]))
    except Exception as e:
        R.viol(key + ".raises", "%s: %s: %s" % (what, type(e).__name__, e))
    return out


# ---------------------------------------------------------------- values
def p01():
    for n in range(-4, 9):
        if not R.mine(): continue
        for k in range(-9, 10):
            R.at("dyadic %d/2^%d" % (k, n)); R.state()
            v = rp.Dyadic(k, n)
            for how, u in again(v, "dyadic", (k, n)):
                R.check(type(u) is rp.Dyadic and str(u) == str(v) and float(u) == float(v) == k * 2.0 ** -n, "dyadic.value",
                        "%s (%s): %s" % ((k, n), how, u))
            v = rp.DyadicInterval(k, n)
            for how, u in again(v, "dyadic_interval", (k, n)):
                R.check(type(u) is rp.DyadicInterval and u == v and str(u) == str(v)
                        and (u.inf(), u.sup()) == (k * 2.0 ** -n, (k + 1) * 2.0 ** -n)
                        and str(u.dyadic_inf()) == str(v.dyadic_inf()) and str(u.dyadic_sup()) == str(v.dyadic_sup()),
                        "dyadic_interval.value", "%s (%s): %s" % ((k, n), how, u))
    pts = [-1e300, -7.25, -1.0, -1 / 3, 0.0, 5e-324, 0.1, 1.0, 2.5, 1e9 + 1 / 3, 1e300]
    for a, b in itertools.combinations_with_replacement(pts, 2):
        if not R.mine(): continue
        R.at("interval [%r,%r)" % (a, b)); R.state()
        v = rp.RealInterval(a, b)
        for how, u in again(v, "real_interval", (a, b)):
            R.check(type(u) is rp.RealInterval and u == v and (u.inf(), u.sup()) == (a, b), "real_interval.value",
                    "[%r,%r) (%s): %s" % (a, b, how, u))
        mids = [p for p in pts if a < p < b]
        for r in range(min(len(mids), 3) + 1):
            for m in itertools.combinations(mids, r):
                R.state()
                w = rp.Partition(v, list(m))
                for how, u in again(w, "partition", (a, m, b)):
                    n = len(w)
                    R.check(u == w and len(u) == n and (u.inf(), u.sup()) == (a, b)
                            and [(x.inf(), x.sup()) for x in (u[i] for i in range(n))] == list(zip((a,) + m, m + (b,))),
                            "partition.value", lambda: "%r %r %r (%s): %s" % (a, m, b, how, u))
    polynomials()
    for ct in (DP, SP, RAT, POLY):
        for w, d in ((2, 2), (1, 3), (3, 1), (2, 3)):
            for vt in (rp.DenseVector, rp.SparseVector):
                for ty in (rp.Lie, rp.FreeTensor, rp.ShuffleTensor):
                    if R.mine(): algebra(ct, w, d, vt, ty)


def polynomials():
    names = ("x1", "x2", "y1")
    ms = []
    for ps in itertools.product(range(3), repeat=3):
        ms.append({n: p for n, p in zip(names, ps) if p})
    for m in ms:
        if not R.mine(): continue
        R.at("monomial %s" % m); R.state()
        v = rp.Monomial(m)
        for how, u in again(v, "monomial", m):
            R.check(type(u) is rp.Monomial and u == v and str(u) == str(v)
                    and all(u[n] == m.get(n, 0) for n in names), "monomial.value", "%s (%s): %s" % (m, how, u))
    few = [{}, {"x1": 1}, {"x2": 3}, {"x1": 2, "y1": 1}, {"y2": 1, "x1": 1}]
    cs = (None, 1.0, -2.5, 2.0 ** 70)
    for pick in itertools.product(range(len(cs)), repeat=len(few)):
        if not R.mine(): continue
        R.at("polynomial %s" % (pick,)); R.state()
        v = rp.PolynomialScalar({rp.Monomial(m): cs[c] for m, c in zip(few, pick) if cs[c] is not None})
        for how, u in again(v, "polynomial", pick):
            R.check(type(u) is rp.PolynomialScalar and u == v and len(u) == len(v), "polynomial.value",
                    "%s %s (%s): %s" % (pick, v, how, u))


def scalars(ct):
    """Coefficients worth telling apart, as (float, number of thirds, number of factors 2^61)."""
    if ct is RAT:
        return [None, (1.0, 0, 0), (-5.0, 2, 0), (3.0, 1, 3), (-7.0, 90, 1)]
    if ct is POLY:
        return [None, {"x1": 1}, {}, {"x1": 2, "y3": 1}]
    return [None, (1.0, 0, 0), (-1 / 3, 0, 0), (2.0 ** 60 / 3, 0, 0)]


def element(ct, ctx, vt, ty, n, pick, vals):
    r = ty([0.0] * n, ctx=ctx, vector_type=vt) if vt is rp.DenseVector else None
    for i, c in enumerate(pick):
        if vals[c] is None: continue
        if ct is POLY:
            one = rp.PolynomialScalar({rp.Monomial({"k": i + 1}): 1.0 + i})
            co = rp.PolynomialScalar({rp.Monomial(vals[c]): 2.0, rp.Monomial({"z": 1}): -3.0})
            zero = rp.PolynomialScalar({})
            e = ty([zero] * i + [one + co] + [zero] * (n - 1 - i), ctx=ctx, vector_type=vt)
        else:
            x, thirds, big = vals[c]
            e = ty([0.0] * i + [x] + [0.0] * (n - 1 - i), ctx=ctx, vector_type=vt)
            for _ in range(thirds): e = e / 3
            for _ in range(big): e = e * 2.0 ** 61
        r = e if r is None else r + e
    if r is None: r = ty([0.0] * n, ctx=ctx, vector_type=vt)
    return r


def facts(v):
    return dict(text=str(v), size=len(v) if hasattr(v, "__len__") else v.size(), width=v.width, degree=v.max_degree,
                storage=str(v.storage_type), dtype=str(v.dtype),
                items=sorted((str(it.key()), str(it.value())) for it in v))


def algebra(ct, w, d, vt, ty):
    ctx = rp.get_context(w, d, ct)
    n = ctx.lie_size(d) if ty is rp.Lie else ctx.tensor_size(d)
    vals = scalars(ct)
    full = n * (len(vals)) <= 16 or R.thorough and len(vals) ** n < 3000
    if len(vals) ** n < (3000 if R.thorough else 700):
        picks = list(itertools.product(range(len(vals)), repeat=n))
    else:
        # every support, with the values rotated through it, and every value alone
        picks = [tuple((1 + (i + s) % (len(vals) - 1)) if (m >> i) & 1 else 0 for i in range(n))
                 for m in (range(1 << n) if n <= 7 else [0, (1 << n) - 1] + [1 << i for i in range(n)] + [((1 << n) - 1) ^ (1 << i) for i in range(n)] + [((1 << i) - 1) for i in range(2, n)])
                 for s in range(len(vals) - 1)]
        picks = list(dict.fromkeys(picks))
    tag = "%s/%s/%s w=%d d=%d " % (ty.__name__, NAMES[ct], str(vt).rsplit(".", 1)[-1], w, d)
    key = "%s.%s" % (ty.__name__, NAMES[ct])
    R.dim("algebra classes")
    for pick in picks:
        R.at(tag + str(pick)); R.state()
        v = element(ct, ctx, vt, ty, n, pick, vals)
        want = facts(v)
        probe = None
        for how, u in again(v, key, tag + str(pick)):
            got = facts(u)
            R.check(u == v and v == u and type(u) is ty, key + ".equal", lambda: "%s%s (%s): %s != %s" % (tag, pick, how, u, v))
            R.check(got == want, key + ".facts", lambda: "%s%s (%s): %s != %s" % (tag, pick, how, got, want))
            if how == "twice" and sum(1 for c in pick if c) in (0, 1, 2, n):
                # the copy behaves as the original does in further work
                if probe is None: probe = (v + v, v - v, v * v, -v)
                R.check((u + v, u - v, u * v, -u) == probe, key + ".use", lambda: "%s%s" % (tag, pick))
                if ct is RAT:
                    R.check([ftm.frac(it.value()) for it in u] == [ftm.frac(it.value()) for it in v], key + ".exact", lambda: tag + str(pick))
                u += v
                R.check(facts(v) == want, key + ".independent", lambda: "%s%s: the original moved with its copy" % (tag, pick))


# ---------------------------------------------------------------- streams
def streams():
    inc = np.array([[1, 2], [3, -4.0], [0.5, 0.25]])
    flat = np.zeros((2, 2))
    wide = np.array([[1, 2, 3], [-1, 0, 2.0]])
    L = rp.LieIncrementStream.from_increments
    for ct in (DP, SP, RAT):
        for d in (1, 2, 3):
            ctx = rp.get_context(2, d, ct)
            for res in (None, 0, 2):
                kw = {} if res is None else {"resolution": res}
                t = "%s depth %d resolution %s " % (NAMES[ct], d, res)
                yield t + "plain", lambda: L(inc, ctx=ctx, **kw)
                yield t + "indexed", lambda: L(inc, indices=np.array([0.3, 0.5, 2.25]), ctx=ctx, **kw)
                yield t + "support", lambda: L(inc, ctx=ctx, support=rp.RealInterval(0.5, 5), **kw)
                yield t + "restricted", lambda: L(inc, ctx=ctx, **kw).restrict(rp.RealInterval(0.5, 1.5))
                yield t + "zero", lambda: L(flat, ctx=ctx, **kw)
        yield NAMES[ct] + " time", lambda: L(inc, width=3, depth=2, dtype=ct, include_time=True)
        yield NAMES[ct] + " wide", lambda: L(wide, ctx=rp.get_context(3, 2, ct))
        yield NAMES[ct] + " lies", lambda: L([rp.Lie([1.0, 2, 3], ctx=rp.get_context(2, 2, ct)), rp.Lie([0.0, -1, 0.5], ctx=rp.get_context(2, 2, ct))],
                                             indices=[0.5, 1.5], ctx=rp.get_context(2, 2, ct))
        if ct is RAT: continue  # no random numbers of that type
        yield NAMES[ct] + " brownian", lambda: rp.BrownianStream.with_generator(ctx=rp.get_context(2, 2, ct), resolution=3)


def others():
    ctx = rp.get_context(2, 2, DP)
    inc = np.array([[1, 2], [3, -4.0], [0.5, 0.25]])
    base = lambda: rp.LieIncrementStream.from_increments(inc, ctx=ctx)
    yield "tick increments", lambda: rp.TickStream.from_data({1.0: [("a", "increment", 1.0), ("b", "increment", 2.0)], 2.0: [("a", "increment", 1.0)]}, width=2, depth=2, dtype=DP)
    yield "tick values", lambda: rp.TickStream.from_data({1.0: [("a", "value", 1.0), ("b", "increment", 2.0)], 2.0: [("a", "value", 4.0)]}, width=2, depth=2, dtype=DP)
    yield "simplified", lambda: base().simplify(rp.Partition(rp.RealInterval(0, 2), [1.0]))
    yield "piecewise", lambda: rp.PiecewiseAbelianStream.construct([(rp.RealInterval(0, 1), rp.Lie([1.0, 2, 3], ctx=ctx))], ctx=ctx)
    yield "function", lambda: rp.FunctionStream.from_function(lambda t, c: rp.Lie([t, 2 * t, 0.0], ctx=c), ctx=ctx)


QUERIES = [rp.RealInterval(a, b) for a, b in ((0, 4), (0, 1), (1, 3), (0.25, 2.25), (0.5, 1), (2, 2.5), (7, 9))]


def answers(s, qs=QUERIES):
    out = []
    for q in qs:
        out.append(str(s.log_signature(q)))
        out.append(str(s.signature(q)))
    return out


def close(a, b):
    """The same answers up to rounding (the last digit printed)."""
    def terms(x): return {k: float(v) for v, k in re.findall(r"(\S+?)\((\S*)\)", x)}
    for x, y in zip(a, b):
        x, y = terms(x), terms(y)
        if any(not abs(x.get(k, 0) - y.get(k, 0)) <= 1e-4 * (1 + abs(x.get(k, 0))) for k in set(x) | set(y)): return False
    return len(a) == len(b)


def meta(s):
    return (s.width, str(s.ctx), str(s.dtype), s.resolution, str(s.support))


def child(f):
    """f() in a child process, so that a crash is an answer too."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 3
        try:
            os.close(r)
            sys.stderr = open(os.devnull, "w"); os.dup2(sys.stderr.fileno(), 2)
            try:
                o = ("ok", f())
            except Exception as e:
                o = ("raised", "%s: %s" % (type(e).__name__, e))
            os.write(w, pickle.dumps(o)[:60000])
            code = 0
        finally:
            os._exit(code)
    os.close(w)
    data = b""
    while True:
        b = os.read(r, 65536)
        if not b: break
        data += b
    os.close(r)
    _, st = os.waitpid(pid, 0)
    if os.WIFSIGNALED(st) or os.WEXITSTATUS(st): return "crashed", "status %x" % st
    return pickle.loads(data)


def clean():
    shutil.rmtree(CACHE, ignore_errors=True)


def p02():
    # every registered kind: round trips at each point of a growing history of queries
    for name, mk in streams():
        if not R.mine(): continue
        R.at("stream " + name)
        brown = name.endswith("brownian")
        def work():
            bad = []
            for k in range(len(QUERIES) + 1):
                for loads in (1, 2):
                    clean()
                    s = mk()
                    asked = answers(s, QUERIES[:k])
                    blob = pickle.dumps(s)
                    for gone in (False, True):
                        if gone: clean()
                        u = pickle.loads(blob)
                        if loads == 2: u = pickle.loads(pickle.dumps(u))
                        if meta(u) != meta(s): bad.append(("meta", k, loads, gone, meta(u), meta(s)))
                        if brown:
                            a = answers(u, QUERIES[:k])
                            if not close(a, asked): bad.append(("asked", k, loads, gone, a, asked))
                            continue
                        a, b = answers(u), answers(mk())
                        if a != b: bad.append(("answers", k, loads, gone, a, b))
                    a = answers(s)
                    u = pickle.loads(blob)
                    b = answers(u)
                    if a != b: bad.append(("later", k, loads, a, b))
            return bad[:3], len(QUERIES) + 1
        st, o = child(work)
        R.state(2 * len(QUERIES) + 2)
        R.check(st == "ok", "stream.fails", lambda: "%s: %s %s" % (name, st, o))
        if st == "ok":
            R.check(not o[0], "stream.answers", lambda: "%s: %s" % (name, o[0]))
    # kinds that cannot be pickled say so
    for name, mk in others():
        if not R.mine(): continue
        R.at("stream " + name); R.state()
        def work():
            s = mk()
            a = answers(s)
            return a == answers(pickle.loads(pickle.dumps(s)))
        st, o = child(work)
        R.check(st == "raised" or st == "ok" and o, "stream.unsupported", lambda: "%s: %s %s" % (name, st, o))
    # bytes that are not a stream say so
    s = rp.LieIncrementStream.from_increments(np.array([[1, 2], [3, 4.0]]), ctx=rp.get_context(2, 2, DP))
    data = s.__getnewargs_ex__()[1]["serialized_stream"]
    for n in range(0, len(data)):
        if not R.mine(): continue
        R.at("cut pickle %d of %d" % (n, len(data))); R.state()
        st, o = child(lambda: bool(rp.Stream.__new__(rp.Stream, serialized_stream=data[:n])))
        R.check(st == "raised", "stream.cut", lambda: "first %d of %d bytes of a pickled stream: %s %s" % (n, len(data), st, o))
    torn()
    histories()


def torn():
    """Every state a crash can leave the cache file in while it is being written: each prefix, over nothing or over an old file."""
    L = rp.LieIncrementStream.from_increments
    cases = [("double", lambda: L(np.array([[1, 2], [3, -4.0], [0.5, 0.25]]), ctx=rp.get_context(2, 2, DP))),
             ("float", lambda: L(np.array([[1, 2], [3, -4.0]]), ctx=rp.get_context(2, 2, SP))),
             ("rational", lambda: L(np.array([[1, 2], [3, -4.0]]), ctx=rp.get_context(2, 2, RAT)))]
    for name, mk in cases:
        if not R.mine(): continue
        clean()
        s = mk()
        want = answers(s)
        blob = pickle.dumps(s)
        files = os.listdir(CACHE) if os.path.isdir(CACHE) else []
        R.dim("torn cases")
        if not R.check(len(files) <= 1, "torn.files", "%s: %s" % (name, files)): continue
        if not files: continue
        path = os.path.join(CACHE, files[0])
        data = open(path, "rb").read()
        for n in range(len(data) + 1):
            with open(path, "wb") as f: f.write(data[:n])
            R.at("%s cache cut to %d of %d" % (name, n, len(data))); R.state()
            def load():
                a = answers(pickle.loads(blob))
                return a if a != want else None
            st, o = child(load) if n % 16 == 0 else ("ok", load()) if True else None
            R.check(st == "ok" and o is None, "torn.answers", lambda: "%s stream, cache file cut to %d of %d bytes: %s %s" % (name, n, len(data), st, o))
        os.remove(path); os.mkdir(path)
        R.at(name + " cache path is a directory"); R.state()
        st, o = child(lambda: answers(pickle.loads(blob)))
        R.check(st == "ok" and o == want, "torn.directory", lambda: "%s: %s %s" % (name, st, o))


OPS = ["query A", "query B", "dump A", "dump B", "load A", "load B", "drop files", "cut files", "query loads"]


def histories():
    """All sequences of operations on two streams that share a cache directory."""
    L = rp.LieIncrementStream.from_increments
    ctx = rp.get_context(2, 2, DP)
    rows = dict(A=np.array([[1, 2], [3, -4.0]]), B=np.array([[5, -1], [0.5, 2.0]]))
    qs = QUERIES[:3]
    want = {}
    for n in rows:
        want[n] = answers(L(rows[n], ctx=ctx), qs)
    depth = 7 if R.thorough else 6
    # one representative per equivalence: the first operation on a stream that was never used cannot be a load
    for length in range(1, depth + 1):
        for seq in itertools.product(range(len(OPS)), repeat=length):
            if not any(OPS[o].startswith("load") for o in seq): continue
            if length > 1 and not (OPS[seq[-1]].startswith("load") or OPS[seq[-1]] == "query loads"): continue
            if not feasible(seq): continue
            if not R.mine(): continue
            what = " / ".join(OPS[o] for o in seq)
            R.at(what); R.state()
            clean()
            live = {n: [L(rows[n], ctx=ctx)] for n in rows}
            blobs = {}
            try:
                for o in seq:
                    op = OPS[o]
                    if op.startswith("query "):
                        if op[6:] == "loads":
                            for n in live:
                                for s in live[n][1:]: answers(s, qs[:2])
                        else: answers(live[op[6:]][-1], qs[:2])
                    elif op.startswith("dump "): blobs[op[5:]] = pickle.dumps(live[op[5:]][-1])
                    elif op.startswith("load "): live[op[5:]].append(pickle.loads(blobs[op[5:]]))
                    elif op == "drop files": clean()
                    elif op == "cut files" and os.path.isdir(CACHE):
                        for f in os.listdir(CACHE):
                            p = os.path.join(CACHE, f)
                            os.truncate(p, os.path.getsize(p) * 2 // 3)
                    R.step()
                for n in live:
                    for i, s in enumerate(live[n]):
                        a = answers(s, qs)
                        R.check(a == want[n], "history.answers", lambda: "%s: %s%s gives %s, want %s" % (what, n, "" if i == 0 else " loaded", a, want[n]))
            except Exception as e:
                R.viol("history.raises", "%s: %s: %s" % (what, type(e).__name__, e))


def feasible(seq):
    dumped = set()
    for o in seq:
        op = OPS[o]
        if op.startswith("dump "): dumped.add(op[5:])
        if op.startswith("load ") and op[5:] not in dumped: return False
        if op in ("drop files", "cut files") and not dumped: return False
    return True


MODES = {"p01": p01, "p02": p02}

if __name__ == "__main__":
    import warnings
    warnings.simplefilter("ignore")
    here = os.getcwd()
    scratch = tempfile.mkdtemp(prefix="vh_pickle.")
    if R.out: R.out = os.path.join(here, R.out)
    os.chdir(scratch)
    try:
        MODES[R.mode]()
    finally:
        os.chdir(here)
        shutil.rmtree(scratch, ignore_errors=True)
    R.finish()
