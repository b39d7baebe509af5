"""Bounded-exhaustive exploration of streams against an exact model of path signatures."""
import itertools, math, sys
from fractions import Fraction as F
import numpy as np
import roughpy as rp
import ftm
from vhpy import Run

R = Run()
RAT, DP, SP = rp.Rational, rp.DPReal, rp.SPReal


def fl(x, r):
    """x rounded down to the dyadic grid of resolution r"""
    x = F(x)
    return F(math.floor(x * F(2) ** r)) / F(2) ** r


def p2r(length):
    m, e = math.frexp(length)
    return -min(0, e - 1)


def tol(ctx):
    return {RAT: 0, DP: F(1, 10 ** 10), SP: F(1, 10 ** 3)}[ctx.ctype]


_sig = {}


def sig(rows, depth):
    """signature of the sequence of elements (tuples of (key expr or letter, value))"""
    k = (rows, depth)
    if k not in _sig:
        if not rows:
            _sig[k] = ftm.ONE
        else:
            e = {}
            for i, v in enumerate(rows[-1]):
                if v:
                    e[(i + 1,)] = F(v)
            _sig[k] = ftm.mul(sig(rows[:-1], depth), ftm.exp(e, depth), depth)
    return _sig[k]


_log = {}


def logsig(rows, depth):
    k = (rows, depth)
    if k not in _log:
        _log[k] = ftm.log(sig(rows, depth), depth)
    return _log[k]


class Model:
    """Events (time, row) of a stream of resolution res with support [a, b]."""

    def __init__(self, events, res, sup):
        self.ev = sorted(((fl(t, res), F(t), i), row) for i, (t, row) in enumerate(events))
        self.ev = [(q, row) for (q, _, _), row in self.ev]
        self.res, self.sup = res, (F(sup[0]), F(sup[1]))

    def window(self, a, b, r):
        a, b = F(a), F(b)
        if b < self.sup[0] or a > self.sup[1]:
            return None
        a, b = max(a, self.sup[0]), min(b, self.sup[1])
        if a == b:
            return None
        if r is None:
            r = max(self.res, p2r(float(b - a)) + 2)
        return fl(a, r), fl(b, r)

    def rows(self, a, b, r):
        w = self.window(a, b, r)
        if w is None:
            return ()
        return tuple(row for q, row in self.ev if w[0] <= q < w[1])


def query_obj(a, b, form):
    if form == "real":
        return (rp.RealInterval(float(a), float(b)),)
    if form == "dyadic":
        r = 0
        while F(b - a) != F(1, 2 ** r) and r < 12:
            r += 1
        return (rp.DyadicInterval(int(F(a) * 2 ** r), r),)
    return (float(a), float(b))


def compare(s, m, a, b, r, form, key, what, ctx=None, **kw):
    R.step()
    c = ctx or s.ctx
    args = query_obj(a, b, form)
    kws = dict(kw)
    if r is not None:
        kws["resolution"] = r
    if ctx is not None:
        kws["ctx"] = ctx
    try:
        S = ftm.tensor(s.signature(*args, **kws))
        L = ftm.lie(s.log_signature(*args, **kws))
    except Exception as e:
        R.check(False, key + ":raises", "%s query [%s,%s) res=%s %s: %s" % (what, a, b, r, form, e))
        return
    rows = m.rows(a, b, r)
    d = c.depth
    es, el = sig(rows, d), logsig(rows, d)
    t = tol(c)
    R.check(ftm.close(S, es, t), key + ":signature",
            lambda: "%s query [%s,%s) res=%s %s ctx depth %d: got %s want %s" % (what, a, b, r, form, d, ftm.show(S), ftm.show(es)))
    R.check(ftm.close(L, el, t), key + ":log_signature",
            lambda: "%s query [%s,%s) res=%s %s ctx depth %d: got %s want %s" % (what, a, b, r, form, d, ftm.show(L), ftm.show(el)))


W2 = [(1, 0), (0, 1), (1, -1), (2, 0.5), (0, 0)]
W3 = [(1, 0, 0), (0, 1, 0), (0, 0, 1), (1, -1, 2)]


def incr_stream(rows, times, ctx, **kw):
    a = np.array(rows, dtype=float).reshape(len(rows), len(rows[0]))
    if times is not None:
        kw["indices"] = list(times)
    return rp.LieIncrementStream.from_increments(a, ctx=ctx, **kw)


def grid(lo, hi, step):
    x, out = F(lo), []
    while x <= hi:
        out.append(x)
        x += F(step)
    return out


TIMES = {1: [None, (0.75,), (-1.25,), (5.3,)],
         2: [None, (0.0, 1.0), (0.25, 0.3), (-0.75, 0.5), (5.0, 5.01), (0.7, 0.7)],
         3: [None, (0.0, 0.5, 1.0), (0.1, 0.2, 2.7), (-1.5, -0.25, 1.0), (3.0, 3.5, 3.75), (1.0, 1.0, 2.0)],
         4: [None, (0.0, 0.25, 0.5, 0.75), (-2.0, -0.1, 0.1, 2.0)]}


def t01():
    c23 = rp.get_context(2, 3, RAT)
    for n in (1, 2, 3, 4) if R.thorough else (1, 2, 3):
        alpha = W2 if n < 4 else W2[:3]
        for times in TIMES[n]:
            for rows in itertools.product(alpha, repeat=n):
                for res in (None, 0, 2, 5):
                    if not R.mine():
                        continue
                    what = "increments %s at %s resolution=%s" % (rows, times, res)
                    R.at("t01 | " + what)
                    kw = {} if res is None else {"resolution": res}
                    s = incr_stream(rows, times, c23, **kw)
                    R.state()
                    R.dim("increment streams")
                    ts = times if times is not None else tuple(range(n))
                    gaps = [F(b) - F(a) for a, b in zip(ts, ts[1:]) if b > a]
                    if res is not None and times is not None:
                        R.check(s.resolution == res, "t01:resolution", "%s: stream resolution %s" % (what, s.resolution))
                    elif gaps:
                        R.check(F(2) ** -s.resolution <= min(gaps), "t01:default-resolution",
                                "%s: default resolution %s does not separate the increments" % (what, s.resolution))
                    sup = s.support
                    R.check(sup.inf() <= min(ts) and sup.sup() > max(ts) and sup.inf() == min(ts), "t01:support",
                            "%s: support [%s,%s)" % (what, sup.inf(), sup.sup()))
                    m = Model(zip(ts, rows), s.resolution, (sup.inf(), sup.sup()))
                    key = "t01"
                    # whole path
                    S = ftm.tensor(s.signature())
                    R.check(S == sig(tuple(x for _, x in m.ev) if fl(min(ts), s.resolution) >= fl(sup.inf(), max(s.resolution, p2r(float(sup.sup() - sup.inf())) + 2)) else m.rows(sup.inf(), sup.sup(), None), 3),
                            key + ":whole", lambda: "%s: whole signature %s" % (what, ftm.show(S)))
                    lo, hi = math.floor(min(ts)) - 1, math.ceil(max(ts)) + 1
                    g = grid(lo, hi, F(1, 2)) if R.thorough or n < 3 else grid(lo, hi, 1)
                    if hi - lo > 5:
                        g = grid(lo, hi, 1)
                    for a, b in itertools.combinations(g, 2):
                        compare(s, m, a, b, None, "real", key, what)
                    if times is not None or n <= 2:
                        # finer queries around the first events, with explicit resolutions
                        t0 = fl(ts[0], 2)
                        for a, b in ((t0, t0 + F(1, 2)), (t0 + F(1, 4), t0 + 2), (t0 - F(1, 4), t0 + F(3, 4))):
                            for r in (0, 1, 3) if R.thorough else (1, 3):
                                compare(s, m, a, b, r, "real", key, what)
                        compare(s, m, F(lo), F(lo + 1), 2, "dyadic", key, what)
                        compare(s, m, F(lo + 1), F(lo + 2), None, "dyadic", key, what)
                        compare(s, m, F(lo) + F(1, 3), F(hi), None, "pair", key, what)
    # other shapes, coefficient types and storages
    for (w, d, ct) in ((2, 1, RAT), (2, 4, RAT), (3, 2, RAT), (3, 3, DP), (2, 3, DP), (2, 2, SP)):
        ctx = rp.get_context(w, d, ct)
        for vt in (rp.DenseVector, rp.SparseVector):
            for n in (1, 2, 3):
                for rows in itertools.product(W2[:4] if w == 2 else W3, repeat=n):
                    for times in (None, TIMES[n][2]):
                        if not R.mine():
                            continue
                        what = "w=%d d=%d %s %s increments %s at %s" % (w, d, ct.__name__, vt, rows, times)
                        R.at("t01s | " + what)
                        kw = {"resolution": 4} if times is not None else {}
                        s = incr_stream(rows, times, ctx, vtype=vt, **kw)
                        R.state()
                        R.dim("shapes")
                        ts = times if times is not None else tuple(range(n))
                        m = Model(zip(ts, rows), s.resolution, (s.support.inf(), s.support.sup()))
                        for a, b in ((0, 1), (0, 2), (1, 3), (0, 4)):
                            compare(s, m, F(a), F(b), None, "real", "t01:shape", what)
    # time as an extra channel
    ctx = rp.get_context(2, 3, RAT)
    for n in (1, 2, 3):
        for times in TIMES[n]:
            if times is not None and list(times) != sorted(set(times)):
                continue
            for rows in itertools.product([(1,), (2,), (-1,)], repeat=n):
                if not R.mine():
                    continue
                what = "include_time increments %s at %s" % (rows, times)
                R.at("t01t | " + what)
                a = np.array(rows, dtype=float)
                kw = {"resolution": 6}
                if times is not None:
                    kw["indices"] = list(times)
                s = rp.LieIncrementStream.from_increments(a, width=2, depth=3, dtype=RAT, include_time=True, **kw)
                R.state()
                R.dim("time channel")
                ts = times if times is not None else tuple(range(n))
                prev, aug = 0.0, []
                for t, row in zip(ts, rows):
                    aug.append((t, row + (float(t) - prev,)))
                    prev = float(t)
                R.check(s.width == 2, "t01:time:width", "%s: width %s" % (what, s.width))
                m = Model(aug, s.resolution, (s.support.inf(), s.support.sup()))
                for x, y in ((min(ts), max(ts) + 1), (0, 1), (F(1, 2), 3)):
                    compare(s, m, F(x), F(y), None, "real", "t01:time", what)


def t02():
    """all histories of queries up to a depth on one stream, each answer against the model"""
    contexts = {"default": None, "deeper": rp.get_context(2, 4, RAT), "shallow": rp.get_context(2, 1, RAT),
                "double": rp.get_context(2, 3, DP)}
    by_name = {"depth=4": (dict(depth=4), rp.get_context(2, 4, RAT)), "dtype=DPReal": (dict(dtype=DP), rp.get_context(2, 3, DP)),
               "dtype='f64' depth=2": (dict(dtype="f64", depth=2), rp.get_context(2, 2, DP))}
    base = rp.get_context(2, 3, RAT)
    streams = [
        (((1, 0), (0, 1), (1, -1), (0, 2)), (0.0, 0.25, 0.5, 1.5), 1),
        (((1, 0), (0, 1), (1, 1)), (0.0, 0.7, 0.9), 0),
        (((0, 1), (1, 0), (0, 1), (2, 1)), (-0.5, 0.1, 0.2, 0.3), 0),
        (((1, 2), (2, 1)), (0.0, 1.0), 2),
    ]
    ivs = [(0, 1), (0, 2), (F(1, 2), 1), (-1, 2)]
    ress = [None, 0, 3]
    ops = [(iv, r, c, g) for iv in ivs for r in ress for c in ("default", "deeper", "double", "shallow") for g in ("S", "L")]
    ops += [(iv, None, c, "L") for iv in ivs for c in by_name]
    small = [(iv, r, c, "L") for iv in ivs[:3] for r in (None, 0) for c in ("default", "deeper", "double")]

    def run(seq, sidx, restricted=False):
        rows, times, res = streams[sidx]
        s = incr_stream(rows, times, base, resolution=res)
        m = Model(zip(times, rows), s.resolution, (s.support.inf(), s.support.sup()))
        R.state()
        cur = s
        if restricted:
            cur = s.restrict(rp.RealInterval(0.25, 1.0))
            R.check((cur.support.inf(), cur.support.sup()) == (0.25, 1.0) and (s.support.inf(), s.support.sup()) == m.sup,
                    "t02:restrict:support", "stream %s: restricted support %s, original %s" % (streams[sidx], cur.support, s.support))
            m2 = Model(zip(times, rows), s.resolution, (0.25, 1.0))
        for j, (iv, r, c, g) in enumerate(seq):
            R.step()
            kws = {}
            if c in by_name:
                k, ctx = by_name[c]
                kws.update(k)
            else:
                ctx = contexts[c]
                if ctx is not None:
                    kws["ctx"] = ctx
            if r is not None:
                kws["resolution"] = r
            cc = ctx or base
            q = rp.RealInterval(float(iv[0]), float(iv[1]))
            # alternate between the stream and its restriction: they share their data
            use_r = restricted and j % 2 == 0
            cur = s.restrict(rp.RealInterval(0.25, 1.0)) if use_r else s
            rows_ = (m2 if use_r else m).rows(iv[0], iv[1], r)
            try:
                if g == "S":
                    obj = cur.signature(q, **kws)
                    got, want = ftm.tensor(obj), sig(rows_, cc.depth)
                else:
                    obj = cur.log_signature(q, **kws)
                    got, want = ftm.lie(obj), logsig(rows_, cc.depth)
                # what the caller does with an answer must not reach the stream
                obj *= 3
                obj += obj
            except Exception as e:
                R.check(False, "t02:raises", "stream %s history %s step %d: %s" % (streams[sidx], seq, j, e))
                return
            R.check(ftm.close(got, want, tol(cc)), "t02:answer",
                    lambda: "stream %s, history %s, answer %d: got %s want %s" % (streams[sidx], seq, j, ftm.show(got), ftm.show(want)))

    for sidx in range(len(streams)):
        for seq in itertools.product(ops, repeat=2):
            if not R.mine():
                continue
            R.at("t02 | stream %d %s" % (sidx, seq))
            run(seq, sidx)
            R.dim("histories of length 2")
        for seq in itertools.product(small, repeat=3):
            if not R.mine():
                continue
            R.at("t02 | stream %d %s" % (sidx, seq))
            run(seq, sidx)
            run(seq, sidx, True)
            R.dim("histories of length 3")
        if R.thorough:
            for seq in itertools.product(small[:14], repeat=4):
                if not R.mine():
                    continue
                R.at("t02 | stream %d %s" % (sidx, seq))
                run(seq, sidx)
                R.dim("histories of length 4")


def pw_window(sup, res, a, b, r):
    m = Model((), res, sup)
    return m.window(a, b, r)


def pw_sig(pieces, w, depth):
    """pieces: (start, end, log signature as a tensor); w: window or None"""
    r = ftm.ONE
    if w is None:
        return r
    for pa, pb, l in pieces:
        lo, hi = max(F(pa), w[0]), min(F(pb), w[1])
        if lo < hi:
            r = ftm.mul(r, ftm.exp(ftm.trunc(ftm.scale(l, (hi - lo) / (F(pb) - F(pa))), depth), depth), depth)
    return r


def pw_tol(pieces):
    """proportions of a piece are computed in double precision: exact for dyadic lengths only"""
    return 0 if all(F(b - a).numerator == 1 or F(a - b).denominator == 1 and (b - a) in (1, 2, 4, 8) for a, b, _ in pieces) else F(1, 10 ** 10)


def pw_compare(s, pieces, sup, res, a, b, r, key, what, ctx=None):
    R.step()
    kws = {}
    if r is not None:
        kws["resolution"] = r
    if ctx is not None:
        kws["ctx"] = ctx
    c = ctx or s.ctx
    q = rp.RealInterval(float(a), float(b))
    try:
        so, lo = s.signature(q, **kws), s.log_signature(q, **kws)
        S, L = ftm.tensor(so), ftm.lie(lo)
        so *= 2
        lo *= 2
    except Exception as e:
        R.check(False, key + ":raises", "%s query [%s,%s) res=%s: %s" % (what, a, b, r, e))
        return
    want = pw_sig(pieces, pw_window(sup, res, a, b, r), c.depth)
    t = max(tol(c), pw_tol(pieces))
    R.check(ftm.close(S, want, t), key + ":signature",
            lambda: "%s query [%s,%s) res=%s: got %s want %s" % (what, a, b, r, ftm.show(S), ftm.show(want)))
    wl = ftm.log(want, c.depth)
    R.check(ftm.close(L, wl, t), key + ":log_signature",
            lambda: "%s query [%s,%s) res=%s: got %s want %s" % (what, a, b, r, ftm.show(L), ftm.show(wl)))


# Lie elements on width 2 depth 3: basis 1, 2, [1,2], [1,[1,2]], [2,[1,2]]
LIES = [(1, 0, 0, 0, 0), (0, 1, 0, 0, 0), (1, 2, 1, 0, 0), (0, 0, 2, 1, -1), (0, 0, 0, 0, 0)]


def t03():
    c23, c24, d23 = rp.get_context(2, 3, RAT), rp.get_context(2, 4, RAT), rp.get_context(2, 3, DP)
    layouts = [((0, 1),), ((-1, 1),), ((0.25, 0.75),), ((0, 1), (1, 2)), ((0, 0.5), (1, 2)), ((-1.5, -0.5), (-0.5, 2)),
               ((0, 0.25), (0.25, 0.5), (0.5, 2.5)), ((0, 4), (4, 5))]
    for ctx in (c23, d23):
        for lay in layouts:
            for vals in itertools.product(LIES if len(lay) < 3 or R.thorough else LIES[:4], repeat=len(lay)):
                if not R.mine():
                    continue
                for res in (None, 0, 3):
                    what = "%s piecewise %s on %s resolution=%s" % (ctx.ctype.__name__, vals, lay, res)
                    R.at("t03 | " + what)
                    lies = [rp.Lie([float(x) for x in v], ctx=ctx) for v in vals]
                    kw = {} if res is None else {"resolution": res}
                    s = rp.PiecewiseAbelianStream.construct([(rp.RealInterval(float(a), float(b)), l) for (a, b), l in zip(lay, lies)],
                                                            ctx=ctx, dtype=ctx.ctype, **kw)
                    R.state()
                    R.dim("piecewise streams")
                    sup = (s.support.inf(), s.support.sup())
                    R.check(sup == (lay[0][0], lay[-1][1]), "t03:support", "%s support %s" % (what, sup))
                    pieces = [(a, b, ftm.lie(l)) for (a, b), l in zip(lay, lies)]
                    S = ftm.tensor(s.signature())
                    want = pw_sig(pieces, pw_window(sup, s.resolution, sup[0], sup[1], None), 3)
                    R.check(ftm.close(S, want, max(tol(ctx), pw_tol(pieces))), "t03:whole", lambda: "%s whole signature %s want %s" % (what, ftm.show(S), ftm.show(want)))
                    g = grid(math.floor(sup[0]) - 1, math.ceil(sup[1]) + 1, F(1, 2) if len(lay) < 3 or R.thorough else 1)
                    for a, b in itertools.combinations(g, 2):
                        pw_compare(s, pieces, sup, s.resolution, a, b, None, "t03", what)
                    for a, b in ((0, F(1, 4)), (F(1, 4), F(1, 2)), (F(1, 3), F(2, 3)), (F(-1, 4), F(5, 4)), (F(1, 8), F(7, 8))):
                        for r in (None, 1, 3, 5):
                            pw_compare(s, pieces, sup, s.resolution, a, b, r, "t03", what)
                    if ctx is c23:
                        pw_compare(s, pieces, sup, s.resolution, sup[0], sup[1], 3, "t03:ctx", what, ctx=c24)
                        pw_compare(s, pieces, sup, s.resolution, 0, F(1, 2), 3, "t03:ctx", what, ctx=d23)
    # simplification of increment streams
    times, n = (0.0, 0.25, 0.5, 1.5), 4
    for rows in itertools.product(W2[:4] if R.thorough else W2[:3], repeat=n):
        for (lo, hi, mid) in ((0, 2, ()), (0, 2, (1,)), (0, 2, (0.25, 0.5, 1.0)), (0, 1, (0.5,)), (-1, 3, (0, 0.5, 2)), (0.25, 1.75, (0.5,))):
            for res in (2, 4):
                for cc in (None, c24, 2, 1):
                    if not R.mine():
                        continue
                    s = incr_stream(rows, times, c23, resolution=2)
                    sup = (s.support.inf(), s.support.sup())
                    what = "simplify increments %s at %s by [%s,%s) %s resolution %s ctx %s" % (rows, times, lo, hi, mid, res, cc)
                    R.at("t03s | " + what)
                    R.state()
                    R.dim("simplifications")
                    p = rp.Partition(rp.RealInterval(float(lo), float(hi)), [float(x) for x in mid])
                    kw = {} if cc is None else {"ctx": cc} if not isinstance(cc, int) else {"depth": cc}
                    t = s.simplify(p, resolution=res, **kw)
                    d = 3 if cc is None else cc if isinstance(cc, int) else cc.depth
                    R.check(t.ctx.depth == d and t.ctx.width == 2 and t.resolution == res, "t03:simplify:meta",
                            "%s: ctx depth %d resolution %d" % (what, t.ctx.depth, t.resolution))
                    m = Model(zip(times, rows), 2, sup)
                    pts = [lo, *mid, hi]
                    pieces = [(a, b, logsig(m.rows(a, b, res), d)) for a, b in zip(pts, pts[1:])]
                    tsup = (t.support.inf(), t.support.sup())
                    for i, j in itertools.combinations(range(len(pts)), 2):
                        pw_compare(t, pieces, tsup, res, pts[i], pts[j], None, "t03:simplify", what)
                    pw_compare(t, pieces, tsup, res, F(1, 8), F(5, 8), 4, "t03:simplify", what)
                    # the original is untouched
                    compare(s, m, 0, 2, None, "real", "t03:original", what)


def t08():
    """function streams: every history of queries up to a depth, against the dyadic refinement it must have produced"""
    c23, d23, c22 = rp.get_context(2, 3, RAT), rp.get_context(2, 3, DP), rp.get_context(2, 2, RAT)

    def f_curve(t):
        return (t, t * t, 0)

    def f_jump(t):
        return (math.floor(2 * t), (t - 0.5) * (1 if t >= 0.5 else 0), 0)

    def f_area(t):
        return (t * t, -t, t + t * t * t)

    def as_fn(f):
        def g(t, ctx):
            v = f(t)
            k = {1: v[0], 2: v[1]}
            return rp.Lie([float(v[0]), float(v[1]), float(v[2])], ctx=ctx)
        return g

    _cell = {}

    def leaf(f, k, p, depth):
        key = (f, k, p, depth)
        if key not in _cell:
            a, b = F(k) / F(2) ** p, F(k + 1) / F(2) ** p
            u, v = f(float(a)), f(float(b))
            d = [F(y) - F(x) for x, y in zip(u, v)]
            l = {}
            for w, c in (((1,), d[0]), ((2,), d[1]), ((1, 2), d[2]), ((2, 1), -d[2])):
                if c:
                    l[w] = c
            _cell[key] = ftm.exp(ftm.trunc(l, depth), depth)
        return _cell[key]

    def split(k, p, needed):
        """does the cell strictly contain a needed one?"""
        for (j, q) in needed:
            if q > p and (j >> (q - p)) == k:
                return True
        return False

    def value(f, k, p, needed, depth):
        inside = [(j, q) for j, q in needed if q > p and (j >> (q - p)) == k]
        if not inside:
            return leaf(f, k, p, depth)
        return ftm.mul(value(f, 2 * k, p + 1, inside, depth), value(f, 2 * k + 1, p + 1, inside, depth), depth)

    def cells(w, r):
        a, b = int(w[0] * F(2) ** r), int(w[1] * F(2) ** r)
        return [(k, r) for k in range(a, b)]

    ivs = [(0, 1), (0, F(1, 2)), (F(1, 4), F(3, 4)), (-1, 1), (-2, F(-1, 2)), (0, 4), (2, 3), (1, F(5, 2))]
    ops = [(iv, r, c) for iv in ivs for r in (None, 1, 3) for c in ("default",)] + \
          [(iv, 2, c) for iv in ivs[:4] for c in ("double", "shallow")]
    alts = {"default": None, "double": d23, "shallow": c22}
    funcs = {"curve": f_curve, "jump": f_jump, "area": f_area}

    def run(name, base, seq, res, support):
        f = funcs[name]
        kw = {} if support is None else {"support": rp.RealInterval(*support)}
        s = rp.FunctionStream.from_function(as_fn(f), ctx=base, resolution=res, **kw)
        sup = support or (-10 ** 6, 10 ** 6)
        m = Model((), res, sup)
        R.state()
        needed = set()
        for j, (iv, r, c) in enumerate(seq):
            R.step()
            w = m.window(iv[0], iv[1], r)
            what = "function stream %s resolution %d support %s history %s answer %d" % (name, res, support, [(tuple(map(str, i)), r_, c_) for i, r_, c_ in seq], j)
            kws = {}
            if r is not None:
                kws["resolution"] = r
            if alts[c] is not None:
                kws["ctx"] = alts[c]
            cc = alts[c] or base
            try:
                obj = s.signature(rp.RealInterval(float(iv[0]), float(iv[1])), **kws)
                lo = s.log_signature(rp.RealInterval(float(iv[0]), float(iv[1])), **kws)
                got, gl = ftm.tensor(obj), ftm.lie(lo)
                obj *= 2
                lo *= 2
            except Exception as e:
                R.check(False, "t08:raises", "%s: %s" % (what, e))
                return
            if w is None:
                want = fresh = ftm.ONE
            else:
                rr = r if r is not None else max(res, p2r(float(min(F(iv[1]), F(sup[1])) - max(F(iv[0]), F(sup[0])))) + 2)
                cs = cells(w, rr)
                needed |= set(cs)
                want = fresh = ftm.ONE
                for k, p in cs:
                    want = ftm.mul(want, value(f, k, p, needed, base.depth), base.depth)
                    fresh = ftm.mul(fresh, leaf(f, k, p, base.depth), base.depth)
                want, fresh = ftm.trunc(want, cc.depth), ftm.trunc(fresh, cc.depth)
            t = max(tol(cc), tol(base))
            R.check(ftm.close(got, want, t) or ftm.close(got, fresh, t), "t08:signature",
                    lambda: "%s: got %s want %s" % (what, ftm.show(got), ftm.show(want)))
            R.check(ftm.close(gl, ftm.log(want, cc.depth), t) or ftm.close(gl, ftm.log(fresh, cc.depth), t), "t08:log_signature",
                    lambda: "%s: got %s want %s" % (what, ftm.show(gl), ftm.show(ftm.log(want, cc.depth))))

    for name in funcs:
        for res in (0, 2):
            for support in (None, (-1.0, 3.0)):
                for n in (1, 2):
                    for seq in itertools.product(ops, repeat=n):
                        if n == 2 and (res == 2 or support) and not R.thorough and seq[0][2] != "default":
                            continue
                        if not R.mine():
                            continue
                        R.at("t08 | %s %d %s %s" % (name, res, support, seq))
                        R.dim("histories of length %d" % n)
                        run(name, c23, seq, res, support)
    small = [(iv, r, "default") for iv in ivs[:6] for r in (0, 2)]
    for name in ("curve", "area") if R.thorough else ("area",):
        for n in (3, 4) if R.thorough else (3,):
            for seq in itertools.product(small if n == 3 else small[::2], repeat=n):
                if not R.mine():
                    continue
                R.at("t08 | %s %s" % (name, seq))
                R.dim("histories of length %d" % n)
                run(name, c23, seq, 0, None)
                run(name, d23, seq, 0, None)


KINDS = {"i": "increment", "v": "value", "c": "categorical"}


def tick_formats(ticks):
    """every way of writing the ticks [(time, label, kind, data)] that keeps their order"""
    yield "tuples", [(t, l, KINDS[k], d) for t, l, k, d in ticks]
    yield "pairs with tuples", [(t, (l, KINDS[k], d)) for t, l, k, d in ticks]
    yield "pairs with items", [(t, {"label": l, "type": KINDS[k], "data": d}) for t, l, k, d in ticks]
    yield "records", [{"timestamp": t, "label": l, "type": KINDS[k], "data": d} for t, l, k, d in ticks]
    yield "channel types", [(t, l, {"i": rp.ChannelType.IncrementChannel, "v": rp.ChannelType.ValueChannel,
                                    "c": rp.ChannelType.CategoricalChannel}[k], d) for t, l, k, d in ticks]
    if all(k != "v" for _, _, k, _ in ticks):
        yield "inferred types", [(t, l, d) for t, l, k, d in ticks]
    groups = [(t, list(g)) for t, g in itertools.groupby(ticks, key=lambda x: x[0])]
    yield "grouped pairs", [(t, [(l, KINDS[k], d) for _, l, k, d in g]) for t, g in groups]
    if len({t for t, _ in groups}) == len(groups):
        yield "dict of lists", {t: [(l, KINDS[k], d) for _, l, k, d in g] for t, g in groups}
        yield "dict of item lists", {t: [{"label": l, "type": KINDS[k], "data": d} for _, l, k, d in g] for t, g in groups}
        if all(len({l for _, l, _, _ in g}) == len(g) for _, g in groups):
            yield "dict of dicts", {t: {l: (KINDS[k], d) for _, l, k, d in g} for t, g in groups}
            yield "dict of dict items", {t: {l: {"type": KINDS[k], "data": d} for _, l, k, d in g} for t, g in groups}


def tick_schema(ticks):
    """channels and their variants in the order of first appearance"""
    ch = {}
    for _, l, k, d in ticks:
        e = ch.setdefault(l, (k, []))
        if k == "c" and d not in e[1]:
            e[1].append(d)
    return ch


def schema_labels(ch, lead_lag=()):
    out = []
    for l, (k, v) in ch.items():
        if k == "c":
            out += [l + ":" + x for x in v]
        elif l in lead_lag:
            out += [l + ":lead", l + ":lag"]
        else:
            out.append(l)
    return out


def tick_events(ticks, ch, lead_lag, include_time, ref):
    labels = schema_labels(ch, lead_lag)
    pos = {x: i + 1 for i, x in enumerate(labels)}
    last = {}
    prev_t = F(0)
    ev = []
    order = sorted(range(len(ticks)), key=lambda i: (ticks[i][0], i))
    for i in order:
        t, l, k, d = ticks[i]
        t = F(t) - F(ref)
        if k == "i":
            incs = [{(pos[l],): F(d)}]
        elif k == "c":
            incs = [{(pos[l + ":" + d],): F(1)}]
        elif l in lead_lag:
            incs = [{(pos[l + ":lead"],): F(d) - last.get(l, 0)}, {(pos[l + ":lag"],): F(d) - last.get(l, 0)}]
            last[l] = F(d)
        else:
            incs = [{(pos[l],): F(d) - last.get(l, 0)}]
            last[l] = F(d)
        if include_time:
            incs[0] = ftm.add(incs[0], {(len(labels) + 1,): t - prev_t})
            prev_t = t
        ev.append((t, incs))
    return ev, len(labels) + (1 if include_time else 0)


def t05_compare(s, ev, res, sup, a, b, r, key, what, d):
    R.step()
    w = Model((), res, sup).window(a, b, r)
    want = ftm.ONE
    if w is not None:
        for t, incs in ev:
            if w[0] <= fl(t, res) < w[1]:
                for x in incs:
                    want = ftm.mul(want, ftm.exp({k: v for k, v in x.items() if v}, d), d)
    kw = {} if r is None else {"resolution": r}
    try:
        q = rp.RealInterval(float(a), float(b))
        S, L = ftm.tensor(s.signature(q, **kw)), ftm.lie(s.log_signature(q, **kw))
    except Exception as e:
        R.check(False, key + ":raises", "%s query [%s,%s) res=%s: %s" % (what, a, b, r, e))
        return
    t = tol(s.ctx)
    R.check(ftm.close(S, want, t), key + ":signature", lambda: "%s query [%s,%s) res=%s: got %s want %s" % (what, a, b, r, ftm.show(S), ftm.show(want)))
    wl = ftm.log(want, d)
    R.check(ftm.close(L, wl, t), key + ":log_signature", lambda: "%s query [%s,%s) res=%s: got %s want %s" % (what, a, b, r, ftm.show(L), ftm.show(wl)))


def t05():
    import datetime
    alphabet = [("a", "i", 1.0), ("a", "i", -2.0), ("b", "v", 1.0), ("b", "v", 3.0), ("c", "c", "x"), ("c", "c", "yy")]
    times = {1: [(0.0,), (1.5,)], 2: [(0.0, 1.0), (1.0, 1.0), (2.0, 0.5), (0.25, 0.5)],
             3: [(0.0, 1.0, 2.0), (0.0, 0.0, 1.0), (1.0, 0.0, 3.0), (0.5, 0.25, 0.25), (1.0, 1.0, 1.0)]}
    DEPTH = 2

    def explore(ticks, n, lead_lag=(), schema=None, full=True, kinds=None):
        ch = tick_schema(ticks) if schema is None else schema
        labels = schema_labels(ch, lead_lag)
        for include_time in (False, True):
            if include_time and (lead_lag or schema is not None):
                continue
            w = len(labels) + (1 if include_time else 0)
            if w < 2 or w > 5:
                continue
            ev, w = tick_events(ticks, ch, lead_lag, include_time, ticks[0][0])
            for fi, (fname, data) in enumerate(tick_formats(ticks)):
                for res in (0, 2) if fi == 0 else (1,):
                    for support in (None, (-4.0, 4.0)) if fi == 0 else ((-4.0, 4.0),):
                        kw = {"dtype": RAT, "depth": DEPTH, "resolution": res}
                        if include_time:
                            kw["include_time"] = True
                        if support:
                            kw["support"] = rp.RealInterval(*support)
                        if lead_lag or schema is not None:
                            kw["schema"] = [(l, KINDS[k], {"lead_lag": True}) if l in lead_lag else
                                            (l, KINDS[k], {"categories": v}) if k == "c" else (l, KINDS[k]) for l, (k, v) in ch.items()]
                        what = "ticks %s as %s resolution=%d support=%s time=%s lead_lag=%s schema=%s" % (ticks, fname, res, support, include_time, lead_lag, schema)
                        R.at("t05 | " + what)
                        R.state()
                        R.dim(fname)
                        try:
                            s = rp.TickStream.from_data(data, **kw)
                        except Exception as e:
                            R.check(False, "t05:raises", "%s: %s" % (what, e))
                            continue
                        R.check(s.width == w, "t05:width", "%s: width %d want %d" % (what, s.width, w))
                        sup = (s.support.inf(), s.support.sup())
                        ts = [t for t, _ in ev]
                        if support:
                            R.check(sup == support, "t05:support", "%s: support %s" % (what, sup))
                        else:
                            R.check(sup[0] <= min(ts) and sup[1] > max(ts), "t05:support", "%s: support %s does not cover the ticks" % (what, sup))
                        qs = [(-4, 4, None), (0, 1, None), (0, 1, 0), (1, 3, 2), (F(1, 4), F(3, 2), 3), (-1, 0, None)]
                        for a, b, r in qs if full and fi == 0 else qs[:3]:
                            t05_compare(s, ev, res, sup, a, b, r, "t05", what, DEPTH)
                        if support is None:
                            t05_compare(s, ev, res, sup, sup[0], sup[1], None, "t05:whole", what, DEPTH)
                # the schema read off the data
                if not lead_lag and schema is None:
                    try:
                        sc = rp.StreamSchema.from_data(data)
                        R.check(list(sc.get_labels()) == labels and sc.width() == len(labels), "t05:schema",
                                "schema of %s (%s): labels %s width %d want %s" % (ticks, fname, sc.get_labels(), sc.width(), labels))
                    except Exception as e:
                        R.check(False, "t05:schema:raises", "schema of %s (%s): %s" % (ticks, fname, e))

    for n in (1, 2, 3):
        for tm in times[n]:
            for items in itertools.product(alphabet if n < 3 or R.thorough else alphabet[:1] + alphabet[2:], repeat=n):
                if not R.mine():
                    continue
                ticks = [(t, *it) for t, it in zip(tm, items)]
                explore(ticks, n, full=n < 3)
                # the same ticks with all channels declared in another order
                if any(k == "c" for _, _, k, _ in ticks) or n == 2:
                    explore(ticks, n, schema={"c": ("c", ["yy", "x", "z"]), "a": ("i", []), "b": ("v", [])}, full=False)
                if any(l == "b" for _, l, _, _ in ticks):
                    explore(ticks, n, lead_lag=("b",), full=False,
                            schema={**({"a": ("i", [])} if any(l == "a" for _, l, _, _ in ticks) else {}), "b": ("v", []),
                                    **({"c": ("c", ["x", "yy"])} if any(l == "c" for _, l, _, _ in ticks) else {})})
    # integers and dates as timestamps: seconds after the first tick seen
    base = datetime.datetime(2021, 3, 4, 5, 6, 7)
    for tm in ((0, 1), (3, 4), (2, 1), (0, 0)):
        for items in itertools.product(alphabet, repeat=2):
            if not R.mine():
                continue
            ticks = [(t, *it) for t, it in zip(tm, items)]
            ch = tick_schema(ticks)
            if len(schema_labels(ch)) < 2:
                continue
            ev, w = tick_events(ticks, ch, (), False, ticks[0][0])
            for form, conv in (("int", int), ("datetime", lambda t: base + datetime.timedelta(seconds=t)), ("mixed", lambda t: float(t) if t == tm[0] else int(t))):
                what = "ticks %s with %s timestamps" % (ticks, form)
                R.at("t05 | " + what)
                R.state()
                R.dim(form + " timestamps")
                try:
                    s = rp.TickStream.from_data([(conv(t), l, KINDS[k], d) for t, l, k, d in ticks], dtype=RAT, depth=2, resolution=1, support=rp.RealInterval(-4, 4))
                except Exception as e:
                    R.check(False, "t05:timestamps:raises", "%s: %s" % (what, e))
                    continue
                for a, b, r in ((-4, 4, None), (0, 1, 1), (0, 2, None)):
                    t05_compare(s, ev, 1, (-4, 4), a, b, r, "t05:timestamps", what, 2)
    # schemas: every way of writing a channel, every sequence of channels up to a length
    chans = [("a", "increment", None), ("b", "value", None), ("b", "value", {"lead_lag": True}), ("c", "categorical", {"categories": ["x", "y"]}),
             ("ab", "increment", None), ("", "increment", None)]
    for n in (1, 2, 3, 4) if R.thorough else (1, 2, 3):
        for cs in itertools.product(chans, repeat=n):
            if not R.mine():
                continue
            want, seen, count = [], {}, 0
            ok = True
            for l, k, o in cs:
                l = l or str(count)
                if l in seen:
                    ok = ok and seen[l] == (k, str(o))
                    continue
                seen[l] = (k, str(o))
                count += 1
                want += [l + ":" + v for v in o["categories"]] if k == "categorical" else [l + ":lead", l + ":lag"] if o else [l]
            if not ok:
                continue
            forms = {"tuples": [(l, k) if o is None else (l, k, o) for l, k, o in cs],
                     "dicts": [{"label": l, "type": k, **(o or {})} for l, k, o in cs]}
            if len({l for l, _, _ in cs}) == n:
                forms["dict of dicts"] = {l: {"type": k, **(o or {})} for l, k, o in cs}
                forms["dict of tuples"] = {l: (k,) if o is None else (k, o) for l, k, o in cs}
            for fname, data in forms.items():
                R.at("t05 | schema %s %s" % (fname, data))
                R.state()
                R.dim("schemas")
                try:
                    sc = rp.StreamSchema.parse(data)
                    R.check(list(sc.get_labels()) == want and sc.width() == len(want), "t05:parse",
                            "schema %s (%s): labels %s width %d want %s" % (data, fname, sc.get_labels(), sc.width(), want))
                except Exception as e:
                    R.check(False, "t05:parse:raises", "schema %s (%s): %s" % (data, fname, e))


# ---------------------------------------------------------------- T06 tensor valued streams
def tv_value(ev, res, dom, v0, a, b, depth):
    """v0 times the signature of the events (time, group element) in [a, b)"""
    lo, hi = fl(a, res), fl(b, res)
    v = v0
    for t, g in ev:
        if lo <= fl(t, res) < hi:
            v = ftm.mul(v, g, depth)
    return v


def tv_check(tv, ev, res, dom, v0, ctx, what, depth=2, spots=()):
    """all queries of the grid spots, nested to the given depth"""
    R.step()
    t, d = tol(ctx), ctx.depth

    def same(x, want, key):
        got = ftm.tensor(x)
        R.check(ftm.close(got, want, t), "t06:" + key, lambda: "%s: %s got %s want %s" % (what, key, ftm.show(got), ftm.show(want)))

    D = tv.domain()
    R.check((D.inf(), D.sup()) == tuple(map(float, dom)), "t06:domain", lambda: "%s: domain %s want %s" % (what, D, dom))
    end = tv_value(ev, res, dom, v0, *dom, d)
    same(tv.initial_value(), v0, "initial")
    same(tv.terminal_value(), end, "terminal")
    one = tv_value(ev, res, dom, ftm.ONE, *dom, d)
    same(tv.signature(), one, "signature")
    lg = ftm.log(one, d)
    got = ftm.lie(tv.log_signature())
    R.check(ftm.close(got, lg, t), "t06:log_signature", lambda: "%s: got %s want %s" % (what, ftm.show(got), ftm.show(lg)))
    if depth == 0:
        return
    for a, b in spots:
        lo, hi = max(a, dom[0]), min(b, dom[1])
        if lo >= hi:
            continue
        w2 = "%s query [%s,%s)" % (what, a, b)
        try:
            q = tv.query(rp.RealInterval(float(a), float(b)))
        except Exception as e:
            R.check(False, "t06:query:raises", "%s: %s" % (w2, e))
            continue
        tv_check(q, ev, res, (lo, hi), tv_value(ev, res, dom, v0, dom[0], lo, d), ctx, w2, depth - 1, spots)
        if (lo, hi) == (a, b):
            same(tv.signature(rp.RealInterval(float(a), float(b))), tv_value(ev, res, dom, ftm.ONE, a, b, d), "signature.interval")
            for r in (0, 1, res, res + 2):
                x, y = fl(a, r), fl(b, r)
                same(tv.signature(rp.RealInterval(float(a), float(b)), resolution=r), tv_value(ev, res, dom, ftm.ONE, x, y, d), "signature.resolution")


def t06():
    ctx = rp.get_context(2, 2, RAT)
    V0 = [({(): F(1)}, rp.FreeTensor([1.0], ctx=ctx)),
          ({(): F(1), (1,): F(2), (2,): F(3)}, rp.FreeTensor([1.0, 2.0, 3.0], ctx=ctx)),
          ({(): F(2), (1, 2): F(-1)}, rp.FreeTensor({0: 2.0, 4: -1.0}, ctx=ctx, vector_type=rp.SparseVector))]
    spots = [(F(a), F(b)) for a, b in ((0, 1), ("1/2", 2), ("3/10", "9/10"), (-1, "3/4"), (1, 4))]
    for n in (1, 2, 3) if R.thorough else (1, 2):
        for rows in itertools.product(W2, repeat=n):
            for times in TIMES[n] + ([(0.0, 0.5)] if n == 2 else []):
                for res in (None, 0, 3):
                    if not R.mine(): continue
                    R.at("t06 | rows %s times %s res %s" % (rows, times, res))
                    kw = {} if res is None else {"resolution": res}
                    s = incr_stream(rows, times, ctx, **kw)
                    for i, (mv, v0) in enumerate(V0):
                        for dom in ((F(0), F(1)), (F(-2), F(6)), (F(1, 4), F(3, 2))):
                            if i != 1 and dom[0] != -2: continue
                            R.state()
                            what = "rows %s times %s res %s initial %s domain %s" % (rows, times, res, ftm.show(mv), dom)
                            tv = rp.TensorValuedStream(s, v0, rp.RealInterval(float(dom[0]), float(dom[1])))
                            ev = [(F(t), sig((r,), 2)) for t, r in zip(times or range(n), rows)]
                            ev.sort(key=lambda e: e[0])
                            R.check(repr(tv) is not None, "t06:repr", what)
                            tv_check(tv, ev, s.resolution, dom, mv, ctx, what, 2 if i == 1 else 1, spots)
                            same_s = tv.increment_stream()
                            compare(same_s, Model(list(zip(times or range(n), rows)), s.resolution, (s.support.inf(), s.support.sup())), *spots[1], 3, "real", "t06:increment_stream", what)
    # values at given times
    for w, d in ((2, 3), (3, 2)):
        ctx = rp.get_context(w, d, RAT)
        el = [{1: 1.0}, {2: -1.0, w: 0.5}, {0: 2.0, w: -1.0}, {}]
        lies = [rp.Lie({(k if w == 2 else k): v for k, v in e.items()}, ctx=ctx) if e else ctx.zero_lie(rp.DenseVector) for e in el]
        groups = [ftm.exp(ftm.lie(l), d) for l in lies]
        for n in (1, 2, 3):
            for pick in itertools.product(range(len(el)), repeat=n):
                for times in {1: [(1.0,)], 2: [(1.0, 2.0), (2.0, 1.0), (-0.3, 0.1), (0.0, 8.0)],
                              3: [(1.0, 2.0, 3.0), (0.5, 0.25, 1.0), (-1.0, 3.0, 0.7)]}[n]:
                    for res in (None, 4):
                        if not R.mine(): continue
                        what = "w=%d from_values %s at %s res %s" % (w, pick, times, res)
                        R.at("t06 | " + what)
                        order = sorted(range(n), key=lambda i: times[i])
                        ts = [F(times[i]) for i in order]
                        gs = [groups[pick[i]] for i in order]
                        ev = [(ts[i], ftm.mul(ftm.inv(gs[i - 1], d), gs[i], d)) for i in range(1, n)]
                        for form in range(3):
                            vals = []
                            for i in range(n):
                                tensor = form == 1 or (form == 2 and i % 2)
                                L = lies[pick[i]]
                                vals.append((times[i], ctx.lie_to_tensor(L).exp() if tensor else L))
                            for kw in ({}, {"ctx": ctx}):
                                R.state()
                                if res is not None: kw = dict(kw, resolution=res)
                                tv = rp.TensorValuedStream.from_values(vals, **kw) if form else rp.TensorValuedStream.from_values(values=vals, **kw)
                                D = tv.domain()
                                if res is None and n > 1:
                                    q = tv.increment_stream().resolution
                                    R.check(len({fl(t, q) for t in ts}) == n, "t06:default.resolution", what)
                                rr = tv.increment_stream().resolution
                                if n == 1 and res is None:
                                    R.check(ftm.tensor(tv.initial_value()) == gs[0] and ftm.tensor(tv.terminal_value()) == gs[0], "t06:single", what)
                                    continue
                                R.check(res is None or rr == res, "t06:resolution", what)
                                dom = (ts[0], ts[-1] + F(1, 2 ** rr))
                                sp = [(a, b) for a, b in zip(ts, ts[1:])] + [((ts[0] + ts[-1]) / 2, ts[-1] + 5), (ts[0] - 1, ts[-1])]
                                sp = [(F(float(a)), F(float(b))) for a, b in sp]
                                tv_check(tv, ev, rr, dom, gs[0], ctx, what + " form %d" % form, 1, sp)
                                # the value just after each time is the value given for it
                                for i in range(n):
                                    if i and res is not None: continue
                                    x = ts[i] + F(1, 2 ** rr)
                                    q = tv.query(rp.RealInterval(float(x), float(dom[1]) + 1)) if x < dom[1] else None
                                    got = ftm.tensor(q.initial_value() if q else tv.terminal_value())
                                    R.check(ftm.close(got, gs[i], 0) or i == 0 and len({fl(t, rr) for t in ts + [x]}) <= n, "t06:knot", lambda: "%s: value after %s is %s want %s" % (what, ts[i], ftm.show(got), ftm.show(gs[i])))


# ---------------------------------------------------------------- T07 derivatives of signatures
def dexp(L, P, d):
    """derivative at 0 of exp(L + e P)"""
    out, pw = {}, [dict(ftm.ONE)]
    for k in range(d):
        pw.append(ftm.mul(pw[-1], L, d))
    f = F(1)
    for n in range(1, d + 1):
        f /= n
        for i in range(n):
            out = ftm.add(out, ftm.mul(ftm.mul(pw[i], P, d), pw[n - 1 - i], d), f)
    return out


def t07():
    for w, d, ct in ((2, 3, RAT), (2, 4, RAT), (3, 2, RAT), (1, 3, RAT), (2, 2, DP)) + (((2, 5, RAT), (3, 3, RAT), (2, 3, SP)) if R.thorough else ()):
        ctx = rp.get_context(w, d, ct)
        t = tol(ctx)
        nl = ctx.lie_size()
        units = [{i: 1.0} for i in range(nl)] + [{0: 2.0, nl - 1: -0.5}, {}]
        def lie(e, vt):
            return rp.Lie(e, ctx=ctx, vector_type=vt) if e else ctx.zero_lie(vt)
        rows1 = [tuple([1] + [0] * (w - 1)), tuple(range(1, w + 1)), tuple([0] * (w - 1) + [-2])]
        for n in (1, 2):
            for rows in itertools.product(rows1, repeat=n):
                for times, res in ((None, None), ((0.25, 0.75)[:n], 3)):
                    for vt in (None, rp.SparseVector):
                        if not R.mine(): continue
                        kw = {} if res is None else {"resolution": res}
                        if vt is not None: kw["vtype"] = vt
                        s = incr_stream(rows, times, ctx, **kw)
                        m = Model(list(zip(times or range(n), rows)), s.resolution, (s.support.inf(), s.support.sup()))
                        base = "w=%d d=%d %s rows %s times %s vtype %s" % (w, d, ct, rows, times, vt)
                        ivs = [(F(0), F(1)), (F(0), F(3)), (F(1, 2), F(2)), (F(-1), F(1, 4))]
                        single = {}
                        for (a, b), e, pv, r in itertools.product(ivs, units, (rp.DenseVector, rp.SparseVector), (None, 0, 2)):
                            what = "%s interval [%s,%s) perturbation %s %s resolution %s" % (base, a, b, e, pv, r)
                            R.at("t07 | " + what)
                            R.state()
                            P = lie(e, pv)
                            mp = ftm.lie(P)
                            rr = s.resolution if r is None else r
                            L = logsig(m.rows(a, b, rr), d)
                            want = dexp(L, mp, d)
                            iv = rp.RealInterval(float(a), float(b))
                            calls = [(s.signature_derivative, (iv, P)), (s.signature_derivative, ([(iv, P)],)), (s.signature_derivative, ((iv, P),))]
                            for i, (f, args) in enumerate(calls):
                                if r is not None: args = args + (r,)
                                try:
                                    got = ftm.tensor(f(*args))
                                except Exception as ex:
                                    R.check(False, "t07:raises", "%s form %d: %s" % (what, i, ex))
                                    continue
                                R.check(ftm.close(got, want, t), "t07:single", lambda: "%s form %d: got %s want %s" % (what, i, ftm.show(got), ftm.show(want)))
                            R.check(ftm.lie(P) == mp, "t07:argument", what)
                        # several intervals
                        for parts in (((F(0), F(1)), (F(1), F(2))), ((F(0), F(1, 2)), (F(1, 2), F(3))), ((F(0), F(1)), (F(1), F(2)), (F(2), F(3)))):
                            for es in itertools.product(units[:w] + units[-2:], repeat=len(parts)):
                                R.state()
                                what = "%s parts %s perturbations %s" % (base, parts, es)
                                R.at("t07 | " + what)
                                Ps = [lie(e, rp.DenseVector) for e in es]
                                got = ftm.tensor(s.signature_derivative([(rp.RealInterval(float(a), float(b)), P) for (a, b), P in zip(parts, Ps)], 2))
                                true, rec, pre = {}, {}, dict(ftm.ONE)
                                for (a, b), P in zip(parts, Ps):
                                    rows_ = m.rows(a, b, 2)
                                    S, D = sig(rows_, d), dexp(logsig(rows_, d), ftm.lie(P), d)
                                    true = ftm.add(ftm.mul(true, S, d), ftm.mul(pre, D, d))
                                    rec = ftm.add(ftm.mul(rec, S, d), D)
                                    pre = ftm.mul(pre, S, d)
                                if not ftm.close(got, true, t):
                                    R.check(False, "t07:several.prefix" if ftm.close(got, rec, t) else "t07:several", "%s: got %s want %s" % (what, ftm.show(got), ftm.show(true)))
                                else:
                                    R.check(True, "t07:several", "")
                        # other depths
                        for d2 in (1, d - 1, d + 1):
                            if d2 < 1 or d2 == d: continue
                            for e in units:
                                P = lie(e, rp.DenseVector)
                                c2 = rp.get_context(w, d2, ct)
                                want = dexp(ftm.trunc(logsig(m.rows(F(0), F(3), 2), max(d, d2)), d2), ftm.trunc(ftm.lie(P), d2), d2)
                                got = ftm.tensor(s.signature_derivative(rp.RealInterval(0, 3), P, 2, depth=d2))
                                R.state()
                                R.check(ftm.close(got, want, t), "t07:depth", lambda: "%s depth %d perturbation %s: got %s want %s" % (base, d2, e, ftm.show(got), ftm.show(want)))


# ------------------------------------------------------------------ T09: sound files
def write_wav(path, frames, channels, rate, fmt):
    """frames: rows of numbers in [-1, 1)"""
    import struct
    tag, bits, pk, f = {"u1": (1, 8, "<B", lambda x: int(x * 128) + 128), "i2": (1, 16, "<h", lambda x: int(x * 32768)),
                        "i4": (1, 32, "<i", lambda x: int(x * 2 ** 31)), "f4": (3, 32, "<f", float), "f8": (3, 64, "<d", float)}[fmt]
    data = b"".join(struct.pack(pk, f(x)) for row in frames for x in row)
    hdr = struct.pack("<HHIIHH", tag, channels, rate, rate * channels * bits // 8, channels * bits // 8, bits)
    pad = b"\0" * (len(data) % 2)
    with open(path, "wb") as fp:
        fp.write(b"RIFF" + struct.pack("<I", 20 + len(hdr) + len(data) + len(pad)) + b"WAVEfmt " + struct.pack("<I", len(hdr)) + hdr
                 + b"data" + struct.pack("<I", len(data)) + data + pad)


SAMPLES = [F(1, 2), F(-1, 4), F(3, 4), F(0), F(-1), F(1, 8), F(1, 4), F(-3, 4), F(5, 8), F(-1, 2), F(7, 8), F(-1, 8), F(3, 8)]


def t09():
    import os, shutil, tempfile
    work = tempfile.mkdtemp(prefix="sound.")
    try:
        _t09(work)
    finally:
        shutil.rmtree(work)


def _t09(work):
    import os
    files = []
    for ch in (1, 2, 3):
        for n, rate in ((1, 4), (2, 1), (5, 4), (7, 3), (9, 8), (12, 5), (13, 16)):
            for off in (0, 4):
                files.append((ch, n, rate, off))
    fmts = ("i2", "f4", "f8", "u1", "i4")
    number = 0
    for ch, n, rate, off in files:
        frames = [tuple(SAMPLES[(off + 3 * i + 5 * c + i * c) % len(SAMPLES)] for c in range(ch)) for i in range(n)]
        for fi, fmt in enumerate(fmts):
            for res in (None, 0, 1, 2, 3, 5):
                if not R.mine():
                    continue
                types = list(itertools.product("IV", repeat=ch)) + [None]
                for ty in types:
                    number += 1
                    # names that a URI would have to quote, and the file scheme
                    uri_form = number % 3
                    path = os.path.join(work, ("a%d.wav" if uri_form else "a b%d.wav") % number)
                    write_wav(path, frames, ch, rate, fmt)
                    kw = {}
                    if res is not None:
                        kw["resolution"] = res
                    if ty is not None:
                        kw["channel_types"] = [rp.IncrementChannel if t == "I" else rp.ValueChannel for t in ty]
                    how = number % 4
                    want_dt = rp.SPReal if fmt == "f4" else rp.DPReal
                    if how == 0:
                        kw["depth"] = 2
                    elif how == 1:
                        kw["ctx"] = rp.get_context(ch, 2, rp.DPReal)
                        want_dt = rp.DPReal
                    elif how == 2:
                        kw["ctx"] = rp.get_context(ch, 2, rp.SPReal)
                        want_dt = rp.SPReal
                    else:
                        kw.update(depth=2, dtype=rp.DPReal, width=ch)
                        want_dt = rp.DPReal
                    length = F(n, rate)
                    sup = (F(0), length)
                    if number % 5 == 2:
                        sup = (F(1, 4), length / 2 + 1)
                        kw["support"] = rp.RealInterval(float(sup[0]), float(sup[1]))
                    elif number % 5 == 4:
                        sup = (F(-1), length + 2)
                        kw["support"] = rp.RealInterval(float(sup[0]), float(sup[1]))
                    what = "%s file of %d channels, %d frames (from sample %d) at %d Hz, channels %s, %s" % (
                        fmt, ch, n, off, rate, "".join(ty) if ty else "default", {k: str(v) for k, v in kw.items()})
                    R.at(what)
                    R.dim("sound files")
                    try:
                        s = rp.ExternalDataStream.from_uri(("file://" if uri_form == 2 else "") + path, **kw)
                    except Exception as e:
                        R.check(False, "t09:construct", "%s: %s" % (what, e))
                        continue
                    finally:
                        pass
                    R.state()
                    mres = 10 if res is None else res
                    R.check(s.width == ch and s.ctx.width == ch and s.ctx.depth == 2 and s.dtype == want_dt and s.resolution == mres,
                            "t09:attributes", lambda: "%s: width %s ctx %s dtype %s resolution %s" % (what, s.width, s.ctx, s.dtype, s.resolution))
                    R.check((s.support.inf(), s.support.sup()) == (float(sup[0]), float(sup[1])), "t09:support", lambda: "%s: %s want %s" % (what, s.support, sup))
                    ev = []
                    for i in range(1, n):
                        row = tuple(frames[i][c] - (frames[i - 1][c] if ty and ty[c] == "V" else 0) for c in range(ch))
                        ev.append((F(i, rate), row))
                    # a cell of the stream's resolution that does not meet the support is empty
                    ev = [(t, row) for t, row in ev if fl(t, mres) + F(1, 2 ** mres) > F(float(sup[0]))]
                    m = Model(ev, mres, (float(sup[0]), float(sup[1])))
                    pts = sorted({F(-1), F(0), F(1, 8), F(1, 4), F(3, 10), F(1, 2), F(1), length / 2, length, length + 1})
                    if not R.thorough:
                        pts = pts[number % 2::2] if len(pts) > 6 else pts
                    ctxs = [None, rp.get_context(ch, 1, rp.DPReal), rp.get_context(ch, 3, rp.SPReal), rp.get_context(ch, 2, rp.SPReal)]
                    k = 0
                    for a, b in itertools.combinations(pts, 2):
                        a, b = F(float(a)), F(float(b))
                        for r in (None, 0, 2, mres, mres + 1):
                            if r is not None and r > 6 and (k % 3 or not R.thorough): continue
                            k += 1
                            compare(s, m, a, b, r, "real", "t09:query", what, ctx=ctxs[k % 4])
                    compare(s, m, F(float(sup[0])), F(float(sup[1])), None, "real", "t09:whole", what)
                    os.unlink(path)
    # what is not a sound file is refused
    if R.shard == 0:
        junk = os.path.join(work, "junk.wav")
        for content in (b"", b"RIFF", b"not a sound file at all" * 10):
            open(junk, "wb").write(content)
            R.state()
            try:
                rp.ExternalDataStream.from_uri(junk, depth=2)
                ok = False
            except Exception:
                ok = True
            R.check(ok, "t09:not a sound file", "accepted %r" % content)
        for bad, kw in (("nowhere.wav", {}), ("good.wav", dict(width=3)), ("good.wav", dict(depth=0))):
            write_wav(os.path.join(work, "good.wav"), [(F(1, 2), F(0))] * 4, 2, 4, "i2")
            k = dict(depth=2)
            k.update(kw)
            try:
                rp.ExternalDataStream.from_uri(os.path.join(work, bad), **k)
                ok = False
            except Exception:
                ok = True
            R.check(ok, "t09:refuse", "accepted %s %s" % (bad, kw))


MODES = {k: v for k, v in list(globals().items()) if k[:1] == "t" and k[1:].isdigit()}

if __name__ == "__main__":
    import warnings
    warnings.simplefilter("ignore")
    MODES[R.mode]()
    R.finish()
