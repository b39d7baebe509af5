// Bounded-exhaustive exploration of the interval layer against exact models.
//   --mode dissect    to_dyadic_intervals is the canonical tiling          (all intervals on a grid)
//   --mode algebra    dyadic / dyadic-interval / interval predicates       (all pairs in a box)
//   --mode partition  partition operation sequences                        (all histories up to a depth)
//   --mode segment    dyadic segmentation                                  (all predicates from a finite family)
#include "vh.h"
#include <roughpy/intervals/dyadic.h>
#include <roughpy/intervals/dyadic_interval.h>
#include <roughpy/intervals/real_interval.h>
#include <roughpy/intervals/partition.h>
#include <roughpy/intervals/segmentation.h>
#include <roughpy/core/slice.hpp>
#include <cmath>
#include <algorithm>
#include <numeric>
using namespace rpy;
using namespace rpy::intervals;
using vh::cat;
typedef long long ll;
static const int G = 10;               // exact rationals are integers over 2^G
static ll val(ll k, int n) {           // k/2^n  as multiple of 2^-G   (n <= G)
    return n <= G ? k * (1LL << (G - n)) : k;
}
static const char* ty(IntervalType t) { return t == IntervalType::Clopen ? "clopen" : "opencl"; }
static std::string S(const DyadicInterval& d) { return cat("DI(", d.multiplier(), ",", d.power(), ",", ty(d.type()), ")"); }
static std::string S(const Interval& i) { return cat(ty(i.type()), "[", i.inf(), ",", i.sup(), "]"); }

struct MI { ll k; int n; bool clopen;   // model of a dyadic interval
    ll lo() const { return clopen ? val(k, n) : val(k - 1, n); }
    ll hi() const { return clopen ? val(k + 1, n) : val(k, n); }
};
static ll fdiv(ll a, ll b) { ll q = a / b; return (a % b != 0 && ((a < 0) != (b < 0))) ? q - 1 : q; }
static ll cdiv(ll a, ll b) { return -fdiv(-a, b); }
static double D(ll v) { return std::ldexp(double(v), -G); }
static bool same(const DyadicInterval& d, const MI& m) {
    return d.multiplier() == m.k && d.power() == m.n && (d.type() == IntervalType::Clopen) == m.clopen;
}

// canonical (greedy, maximal) tiling of the end points rounded to 2^-tol
static std::vector<MI> tiling(ll inf, ll sup, int tol, bool clopen) {
    ll u = 1LL << (G - tol);
    ll a = clopen ? fdiv(inf, u) : cdiv(inf, u), b = clopen ? fdiv(sup, u) : cdiv(sup, u);
    std::vector<MI> r;
    // an interval is maximal when neither its parent fits in [a,b)
    while (a < b) {
        ll len = 1; int n = tol;
        while (((a % (2 * len)) + 2 * len) % (2 * len) == 0 && a + 2 * len <= b) { len *= 2; --n; }
        ll k = fdiv(a, len);
        r.push_back({clopen ? k : k + 1, n, clopen});
        a += len;
    }
    return r;
}

static void dissect(vh::Run& R) {
    // fine grid 2^-5 (so that end points off the 2^-tol grid occur), tol 0..6
    int hi = R.thorough() ? 224 : 112, lo = -hi;
    const int g = 5; ll u = 1LL << (G - g);
    for (int t = 0; t < 2; ++t) for (int a = lo; a <= hi; ++a) {
        if (!R.mine()) continue;
        for (int b = a + 1; b <= hi; ++b) for (int tol = (a % 8 == 0 && b % 8 == 0 ? -2 : 0); tol <= 7; ++tol) {
            IntervalType it = t ? IntervalType::Opencl : IntervalType::Clopen;
            ll A = a * u, B = b * u;
            auto exp = tiling(A, B, tol, t == 0);
            R.at(cat("dissect | ", D(A), " ", D(B), " tol=", tol, " ", ty(it)));
            for (int src = 0; src < 2; ++src) {
                // the type of the source interval must not matter, only the requested one
                RealInterval ri(D(A), D(B), src ? IntervalType::Opencl : IntervalType::Clopen);
                if (src && (a + b) % 7) continue;
                auto got = to_dyadic_intervals(ri, tol, it);
                R.state(); R.step(got.size() + 1);
                bool ok = got.size() == exp.size();
                for (size_t i = 0; ok && i < got.size(); ++i) ok = same(got[i], exp[i]);
                if (!ok) {
                    std::string s;
                    for (auto& d : got) s += S(d) + " ";
                    s += " expected ";
                    for (auto& m : exp) s += cat("(", m.k, ",", m.n, ") ");
                    R.viol(cat("dissect:", ty(it), ":src-", ty(ri.type())), cat(S(ri), " tol=", tol, " got ", s));
                }
                if (exp.size() == 7) R.sample(cat(S(ri), " tol=", tol, " ", ty(it), " -> ", got.size(), " pieces"));
            }
            R.dim("intervals");
        }
    }
    // deep resolutions on the unit scale: end points k*2^-20 near 0, 1/3, 1
    if (R.shard == 0)
    for (int t = 0; t < 2; ++t) for (int tol = 8; tol <= 28; ++tol) {
        double pts[] = {0.0, 1.0 / 3, 0.5, 0.7, 1.0, std::ldexp(1.0, -20), 1 - std::ldexp(1.0, -21), -0.3, -1.0};
        for (double x : pts) for (double y : pts) if (x < y) {
            auto it = t ? IntervalType::Opencl : IntervalType::Clopen;
            R.at(cat("dissect-deep | ", x, " ", y, " ", tol));
            auto got = to_dyadic_intervals(RealInterval(x, y, it), tol, it);
            ll a = (ll) (t ? std::ceil(std::ldexp(x, tol)) : std::floor(std::ldexp(x, tol)));
            ll b = (ll) (t ? std::ceil(std::ldexp(y, tol)) : std::floor(std::ldexp(y, tol)));
            ll pos = a; bool ok = true;
            for (auto& d : got) {
                ok = ok && d.power() <= tol && d.type() == it;
                if (!ok) break;
                ll len = 1LL << (tol - d.power());
                ll st = (t ? ll(d.multiplier()) - 1 : ll(d.multiplier())) * len;
                ok = ok && st == pos && pos % len == 0;
                // maximality: the parent must not fit
                ll pst = fdiv(st, 2 * len) * 2 * len;
                ok = ok && !(pst >= a && pst + 2 * len <= b);
                pos += len;
            }
            ok = ok && pos == b;
            R.state(); R.step();
            if (!ok) R.viol(cat("dissect-deep:", ty(it)), cat("[", x, ",", y, "] tol=", tol));
        }
    }
}

static void algebra(vh::Run& R) {
    const int K = R.thorough() ? 18 : 10; const int N0 = -2, N1 = R.thorough() ? 5 : 4;
    std::vector<std::pair<int, int>> ds;
    for (int n = N0; n <= N1; ++n) for (int k = -K; k <= K; ++k) ds.push_back({k, n});
    // --- single dyadics -------------------------------------------------
    for (auto& d : ds) {
        if (!R.mine()) continue;
        R.at(cat("dyadic | ", d.first, " ", d.second));
        Dyadic x(d.first, d.second);
        ll v = val(d.first, d.second);
        R.state();
        R.check(double(x) == D(v), "dyadic:value", [&] { return cat(d.first, "/2^", d.second, " -> ", double(x)); });
        for (int r = -4; r <= 7; ++r) {
            Dyadic y(x); bool ret = y.rebase(r);
            ll unit = 1LL << (G - std::max(r, -4));
            bool representable = d.first == 0 || v % unit == 0;
            bool ok = ret == representable && (ret == (y.power() == r)) && double(y) == double(x) && y.power() >= r;
            // otherwise as coarse as possible
            if (!ret && y.power() > r) ok = ok && (y.multiplier() % 2 != 0);
            R.check(ok, "dyadic:rebase", [&] { return cat(d.first, "/2^", d.second, " rebase ", r, " -> ", y.multiplier(), "/2^", y.power(), " ret ", ret); });
        }
        Dyadic a(x); ++a; R.check(a.multiplier() == d.first + 1 && a.power() == d.second, "dyadic:inc", [&] { return cat(d.first, ",", d.second); });
        Dyadic b(x); --b; R.check(b.multiplier() == d.first - 1 && b.power() == d.second, "dyadic:dec", [&] { return cat(d.first, ",", d.second); });
        Dyadic c(x); auto old = c++; R.check(dyadic_equals(old, x) && c.multiplier() == d.first + 1, "dyadic:inc", [&] { return cat(d.first, ",", d.second); });
        Dyadic e(x); auto old2 = e--; R.check(dyadic_equals(old2, x) && e.multiplier() == d.first - 1, "dyadic:dec", [&] { return cat(d.first, ",", d.second); });
        Dyadic f(x); f.move_forward(3); R.check(f.multiplier() == d.first + 3 && f.power() == d.second, "dyadic:move", [&] { return cat(d.first, ",", d.second); });
    }
    // --- pairs of dyadics ---------------------------------------------------
    for (auto& p : ds) {
        if (!R.mine()) continue;
        for (auto& q : ds) {
            Dyadic x(p.first, p.second), y(q.first, q.second);
            ll a = val(p.first, p.second), b = val(q.first, q.second);
            R.state();
            auto w = [&] { return cat(p.first, "/2^", p.second, " vs ", q.first, "/2^", q.second); };
            R.at(cat("dyadic-pair | ", w()));
            R.check((x < y) == (a < b), "dyadic:lt", w);
            R.check((x <= y) == (a <= b), "dyadic:le", w);
            R.check((x > y) == (a > b), "dyadic:gt", w);
            R.check((x >= y) == (a >= b), "dyadic:ge", w);
            R.check(rational_equals(x, y) == (a == b), "dyadic:rational_equals", w);
            R.check(dyadic_equals(x, y) == (p == q), "dyadic:dyadic_equals", w);
        }
    }
    // --- single dyadic intervals --------------------------------------------
    for (int t = 0; t < 2; ++t) for (auto& d : ds) {
        if (!R.mine()) continue;
        auto it = t ? IntervalType::Opencl : IntervalType::Clopen;
        MI m{d.first, d.second, t == 0};
        DyadicInterval x(Dyadic(d.first, d.second), it);
        auto w = [&] { return S(x); };
        R.at(cat("di | ", S(x)));
        R.state();
        R.check(x.inf() == D(m.lo()) && x.sup() == D(m.hi()), "di:bounds", w);
        R.check(x.included_end() == D(t ? m.hi() : m.lo()) && x.excluded_end() == D(t ? m.lo() : m.hi()), "di:ends", w);
        R.check(double(x.dinf()) == x.inf() && double(x.dsup()) == x.sup() && double(x.dincluded_end()) == x.included_end()
                        && double(x.dexcluded_end()) == x.excluded_end() && x.dinf().power() == d.second && x.dsup().power() == d.second, "di:dyadic-ends", w);
        // children / parents / siblings
        ll mid = (m.lo() + m.hi()) / 2;
        auto is = [&](const DyadicInterval& y, ll lo, ll hi) { return y.type() == it && y.inf() == D(lo) && y.sup() == D(hi); };
        DyadicInterval l(x); l.shrink_interval_left();
        DyadicInterval r(x); r.shrink_interval_right();
        R.check(is(l, m.lo(), mid), "di:left-child", w);
        R.check(is(r, mid, m.hi()), "di:right-child", w);
        R.check(is(x.shrink_to_contained_end(), t ? mid : m.lo(), t ? m.hi() : mid), std::string("di:contained-child"), w);
        R.check(is(x.shrink_to_omitted_end(), t ? m.lo() : mid, t ? mid : m.hi()), "di:omitted-child", w);
        for (int c = 0; c <= 3; ++c) {
            ll len = (m.hi() - m.lo()) >> c;
            R.check(is(x.shrink_to_contained_end(c), t ? m.hi() - len : m.lo(), t ? m.hi() : m.lo() + len), "di:contained-n", w);
            DyadicInterval ln(x); ln.shrink_interval_left(c);
            R.check(is(ln, m.lo(), m.lo() + len), "di:left-n", w);
            DyadicInterval ex(x); ex.expand_interval(c);
            // the ancestor: the interval of the same kind 2^c times as long which contains this one
            ll L = (m.hi() - m.lo()) << c; ll lo = fdiv(m.lo(), L) * L;
            if (d.second - c >= -5) R.check(is(ex, lo, lo + L) && ex.power() == d.second - c, cat("di:expand:", ty(it)), [&] { return cat(S(x), " expand ", c, " -> ", S(ex)); });
        }
        ll L2 = 2 * (m.hi() - m.lo()); ll plo = fdiv(m.lo(), L2) * L2;
        bool shares = t ? m.hi() == plo + L2 : m.lo() == plo;
        R.check(x.aligned() == shares, cat("di:aligned:", ty(it)), w);
        DyadicInterval fl(x); fl.flip_interval();
        bool isleft = m.lo() == plo; ll h = m.hi() - m.lo();
        R.check(is(fl, isleft ? plo + h : plo, isleft ? plo + L2 : plo + h), "di:flip", w);
        DyadicInterval f2(fl); f2.flip_interval();
        R.check(same(f2, m), "di:flip-involution", w);
        DyadicInterval ad(x); ad.advance();
        R.check(t ? is(ad, m.lo() - h, m.lo()) : is(ad, m.hi(), m.hi() + h), "di:advance", w);
        // value/dyadic constructors at every resolution contain the point
        for (int r2 = -3; r2 <= 6; ++r2) {
            ll u = 1LL << (G - r2); ll p = val(d.first, d.second);
            ll k = t ? cdiv(p, u) : fdiv(p, u);
            MI e{k, r2, t == 0};
            DyadicInterval y(Dyadic(d.first, d.second), r2, it);
            R.check(same(y, e), "di:ctor-dyadic-res", [&] { return cat(S(x), " res ", r2, " -> ", S(y)); });
            DyadicInterval z(D(p), r2, it);
            R.check(same(z, e), "di:ctor-real-res", [&] { return cat(D(p), " res ", r2, " -> ", S(z)); });
            R.check(z.contains_point(D(p)), "di:ctor-contains", w);
        }
    }
    // --- pairs of dyadic intervals ------------------------------------------
    for (int t1 = 0; t1 < 2; ++t1) for (auto& p : ds) {
        if (!R.mine()) continue;
        for (int t2 = 0; t2 < 2; ++t2) for (auto& q : ds) {
            auto i1 = t1 ? IntervalType::Opencl : IntervalType::Clopen, i2 = t2 ? IntervalType::Opencl : IntervalType::Clopen;
            DyadicInterval x(Dyadic(p.first, p.second), i1), y(Dyadic(q.first, q.second), i2);
            MI m{p.first, p.second, t1 == 0}, n{q.first, q.second, t2 == 0};
            auto w = [&] { return S(x) + " vs " + S(y); };
            R.at(cat("di-pair | ", w()));
            R.state();
            bool sub = m.lo() <= n.lo() && n.hi() <= m.hi();
            if (t1 == t2 && q.second >= p.second)
                R.check(x.contains_dyadic(y) == sub, "dipair:contains_dyadic", w);
            if (t1 != t2) R.check(!x.contains_dyadic(y), "dipair:contains_dyadic-type", w);
            R.check(x.contains(y) == sub, "dipair:contains", w);
            bool eq = t1 == t2 && m.lo() == n.lo() && m.hi() == n.hi();
            R.check((x == y) == eq && (x != y) == !eq, "dipair:eq", w);
            // point sets on the half-grid intersect?
            bool inter = std::max(m.lo(), n.lo()) < std::min(m.hi(), n.hi())
                    || (m.hi() == n.lo() && t1 == 1 && t2 == 0) || (n.hi() == m.lo() && t2 == 1 && t1 == 0);
            R.check(x.intersects_with(y) == inter, "dipair:intersects", w);
            ll inc = t2 ? n.hi() : n.lo();
            bool assoc = t1 ? (m.lo() < inc && inc <= m.hi()) : (m.lo() <= inc && inc < m.hi());
            R.check(x.is_associated(y) == assoc, "dipair:associated", w);
            if (t1 == t2) {
                // documented order used by ordered containers: by the included end away from it, then larger first
                bool lt;
                ll e1 = t1 ? m.hi() : m.lo(), e2 = t2 ? n.hi() : n.lo();
                if (e1 != e2) lt = t1 ? e1 > e2 : e1 < e2;
                else lt = p.second < q.second;
                R.check((x < y) == lt, "dipair:order", w);
            }
        }
    }
    // --- real intervals: points, intersection, union ----------------------
    int M = R.thorough() ? 9 : 7;
    for (int t1 = 0; t1 < 2; ++t1) for (int a = -2; a < M; ++a) for (int b = a + 1; b <= M; ++b) {
        if (!R.mine()) continue;
        auto i1 = t1 ? IntervalType::Opencl : IntervalType::Clopen;
        RealInterval x(a * 0.5, b * 0.5, i1);
        for (int p2 = -6; p2 <= 2 * M + 2; ++p2) {
            double p = p2 * 0.25;
            bool in = t1 ? (a * 0.5 < p && p <= b * 0.5) : (a * 0.5 <= p && p < b * 0.5);
            R.check(x.contains_point(p) == in, "real:contains_point", [&] { return cat(S(x), " ", p); });
        }
        for (int t2 = 0; t2 < 2; ++t2) {
            RealInterval conv(static_cast<const Interval&>(x), t2 ? IntervalType::Opencl : IntervalType::Clopen);
            R.check(conv.inf() == x.inf() && conv.sup() == x.sup() && conv.type() == (t2 ? IntervalType::Opencl : IntervalType::Clopen), "real:convert", [&] { return S(x); });
            for (int c = -2; c < M; ++c) for (int d = c + 1; d <= M; ++d) {
                RealInterval y(c * 0.5, d * 0.5, t2 ? IntervalType::Opencl : IntervalType::Clopen);
                auto w = [&] { return S(x) + " with " + S(y); };
                R.at(cat("real-pair | ", w()));
                R.state();
                auto u = interval_union(x, y);
                R.check(u.inf() == std::min(a, c) * 0.5 && u.sup() == std::max(b, d) * 0.5, "real:union", w);
                auto s = intersection(x, y);
                if (t1 == t2) R.check(u.type() == i1, cat("real:union-type:", ty(i1)), w);
                if (std::max(a, c) < std::min(b, d)) {
                    R.check(s.inf() == std::max(a, c) * 0.5 && s.sup() == std::min(b, d) * 0.5, "real:intersection", w);
                    if (t1 == t2) R.check(s.type() == i1, cat("real:intersection-type:", ty(i1)), w);
                }
                R.check(x.contains(y) == (a <= c && d <= b), "real:contains", w);
                R.check(x.intersects_with(y) == y.intersects_with(x), "real:intersects-symmetric", w);
                bool inter = std::max(a, c) < std::min(b, d) || (b == c && t1 == 1 && t2 == 0) || (d == a && t2 == 1 && t1 == 0);
                R.check(x.intersects_with(y) == inter, "real:intersects", w);
                R.check((x == y) == (a == c && b == d && t1 == t2), "real:eq", w);
            }
        }
    }
}

// ------------------------------------------------------------ partitions
struct MP { int lo, hi; bool clopen; std::vector<int> mid; };
static bool operator<(const MP& a, const MP& b) { return std::tie(a.lo, a.hi, a.clopen, a.mid) < std::tie(b.lo, b.hi, b.clopen, b.mid); }
static std::string S(const MP& m) { std::string s = cat(m.clopen ? "clopen" : "opencl", "{", m.lo, "|"); for (int x : m.mid) s += cat(x, ","); return s + cat("|", m.hi, "}/16"); }
static Partition mk(const MP& m) {
    std::vector<param_t> v; for (int x : m.mid) v.push_back(x / 16.0);
    return Partition(RealInterval(m.lo / 16.0, m.hi / 16.0, m.clopen ? IntervalType::Clopen : IntervalType::Opencl), Slice<param_t>(v.data(), v.size()));
}
static std::string diff(const Partition& p, const MP& m) {
    if (p.inf() != m.lo / 16.0 || p.sup() != m.hi / 16.0) return cat("bounds ", p.inf(), " ", p.sup());
    if ((p.type() == IntervalType::Clopen) != m.clopen) return "type";
    auto& im = p.intermediates();
    std::string s; for (double d : im) s += cat(d * 16, ",");
    if (im.size() != m.mid.size()) return cat("intermediates ", s);
    for (size_t i = 0; i < im.size(); ++i) if (im[i] != m.mid[i] / 16.0) return cat("intermediates ", s);
    if (p.size() != m.mid.size() + 1) return "size";
    std::vector<int> e{m.lo}; e.insert(e.end(), m.mid.begin(), m.mid.end()); e.push_back(m.hi);
    double mesh = 1e9;
    for (size_t i = 0; i < p.size(); ++i) {
        auto r = p[i];
        if (r.inf() != e[i] / 16.0 || r.sup() != e[i + 1] / 16.0 || r.type() != p.type()) return cat("piece ", i, " ", S(static_cast<const Interval&>(r)));
        mesh = std::min(mesh, (e[i + 1] - e[i]) / 16.0);
    }
    if (p.mesh() != mesh) return cat("mesh ", p.mesh());
    bool threw = false;
    try { auto r = p[p.size()]; } catch (std::exception&) { threw = true; }
    if (!threw) return "out-of-range index accepted";
    return "";
}

static void partition(vh::Run& R) {
    // every partition of every interval with end points in 0..N (units of 1/16, multiples of 4)
    int N = R.thorough() ? 7 : 6;
    std::vector<MP> all;
    for (int t = 0; t < 2; ++t) for (int a = 0; a < N; ++a) for (int b = a + 1; b <= N; ++b)
        for (int mask = 0; mask < (1 << (b - a - 1)); ++mask) {
            MP m{a * 4, b * 4, t == 0, {}};
            for (int i = 0; i < b - a - 1; ++i) if (mask >> i & 1) m.mid.push_back((a + 1 + i) * 4);
            all.push_back(m);
        }
    // construction: any order of points, points outside / on the boundary dropped
    for (auto& m : all) {
        if (!R.mine()) continue;
        R.at("partition-ctor | " + S(m)); R.state();
        auto p = mk(m);
        auto d = diff(p, m);
        R.check(d.empty(), "partition:ctor", [&] { return S(m) + " " + d; });
        // shuffled and polluted with outside points
        std::vector<param_t> v; for (int x : m.mid) v.push_back(x / 16.0);
        std::reverse(v.begin(), v.end());
        v.push_back(m.lo / 16.0); v.insert(v.begin(), m.hi / 16.0); v.push_back(m.hi / 16.0 + 1); v.push_back(m.lo / 16.0 - 1);
        Partition q(RealInterval(m.lo / 16.0, m.hi / 16.0, m.clopen ? IntervalType::Clopen : IntervalType::Opencl), Slice<param_t>(v.data(), v.size()));
        d = diff(q, m);
        R.check(d.empty(), "partition:ctor-unsorted", [&] { return S(m) + " " + d; });
        // refinement
        MP r{m.lo, m.hi, m.clopen, {}};
        int prev = m.lo;
        for (int x : m.mid) { r.mid.push_back((x + prev) / 2); r.mid.push_back(x); prev = x; }
        r.mid.push_back((m.hi + prev) / 2);
        d = diff(p.refine_midpoints(), r);
        R.check(d.empty(), "partition:refine", [&] { return S(m) + " " + d; });
        // equality and copies
        Partition c(p); d = diff(c, m);
        R.check(d.empty(), "partition:copy", [&] { return S(m) + " " + d; });
    }
    // insertion histories: all sequences of up to 4 distinct/equal points from the interval
    std::vector<int> pts;
    for (int t = 0; t < 2; ++t) for (int w = 2; w <= 5; ++w) {
        int base = 4 * t;
        for (int c0 = 0; c0 <= w; ++c0) for (int c1 = 0; c1 <= w; ++c1) for (int c2 = 0; c2 <= w; ++c2) for (int c3 = 0; c3 <= w; ++c3) {
            if (!R.mine()) continue;
            MP m{base, base + w * 4, t == 0, {}};
            auto p = mk(m);
            std::string h;
            for (int c : {c0, c1, c2, c3}) {
                int x = base + 4 * c; h += cat(x, " ");
                R.at(cat("partition-insert | ", S(m), " seq ", h));
                R.state();
                bool interior = x > m.lo && x < m.hi, dup = std::count(m.mid.begin(), m.mid.end(), x);
                if (!interior || dup) continue; // repeated and end points are left unspecified
                std::string key = "partition:insert";
                bool threw = false;
                try { p.insert_intermediate(x / 16.0); } catch (std::exception&) { threw = true; }
                if (interior && !dup) { m.mid.push_back(x); std::sort(m.mid.begin(), m.mid.end()); }
                auto d = interior && threw ? std::string("threw") : diff(p, m);
                R.check(d.empty(), key, [&] { return cat(S(m), " after inserts ", h, ": ", d); });
                if (!d.empty()) break;
            }
            // outside is rejected and leaves the partition unchanged
            bool threw = false; auto q = mk(m);
            try { q.insert_intermediate(m.hi / 16.0 + 1); } catch (std::exception&) { threw = true; }
            R.check(threw && diff(q, m).empty(), "partition:insert-outside", [&] { return S(m); });
        }
    }
    // merges of all pairs
    for (auto& m : all) {
        if (!R.mine()) continue;
        auto p = mk(m);
        for (auto& n : all) {
            if (m.clopen != n.clopen) continue;
            if (!R.thorough() && m.mid.size() + n.mid.size() > 4) continue;
            R.at("partition-merge | " + S(m) + S(n)); R.state();
            auto q = mk(n);
            std::set<int> pts{m.lo, m.hi, n.lo, n.hi};
            pts.insert(m.mid.begin(), m.mid.end()); pts.insert(n.mid.begin(), n.mid.end());
            MP e{*pts.begin(), *pts.rbegin(), m.clopen, {}};
            for (int x : pts) if (x != e.lo && x != e.hi) e.mid.push_back(x);
            auto d = diff(p.merge(q), e);
            bool disjoint = m.hi < n.lo || n.hi < m.lo, touch = m.hi == n.lo || n.hi == m.lo;
            R.check(d.empty(), disjoint ? "partition:merge-disjoint" : touch ? "partition:merge-touching" : "partition:merge", [&] { return S(m) + " + " + S(n) + ": " + d; });
            if (m < n || n < m) R.check(!(p == q), "partition:eq", [&] { return S(m) + " == " + S(n); });
            // assignment has value semantics
            Partition a(p); a = q;
            d = diff(a, n);
            R.check(d.empty(), "partition:assign", [&] { return S(m) + " = " + S(n) + ": " + d; });
        }
    }
}

// Dyadic segmentation.  The predicate says "the interval lies inside one of the good regions"; regions are separated by
// gaps (pieces of touching regions may be joined: the predicate is not asked about unions) and may stick out of the searched interval.  Positions are integers in units of |interval| / 2^g.
struct Region { int lo, hi; };
static void segment_mode(vh::Run& R) {
    struct Base { double a, len; IntervalType t; };
    const Base bases[] = {{0, 1, IntervalType::Clopen}, {-3, 8, IntervalType::Clopen}, {0.25, 0.5, IntervalType::Opencl}, {10, 32, IntervalType::Clopen}, {-1, 0.125, IntervalType::Opencl}};
    auto one = [&](const std::vector<Region>& rs, int g, int D, const Base& b, const char* what) {
        const double u = b.len / (1 << g);
        int asked = 0;
        auto pred = [&](const Interval& i) {
            ++asked;
            double lo = (i.inf() - b.a) / u, hi = (i.sup() - b.a) / u;
            for (auto& r : rs) if (lo >= r.lo && hi <= r.hi) return true;
            return false;
        };
        RealInterval orig(b.a, b.a + b.len, b.t);
        auto desc = [&] { std::string s = cat(what, " ", S(orig), " depth ", D, " regions (of ", 1 << g, ")"); for (auto& r : rs) s += cat(" [", r.lo, ",", r.hi, ")"); return s; };
        R.at("segment | " + desc());
        R.state();
        std::vector<std::pair<int, int>> exp; // units of 2^-g
        bool whole = false;
        for (auto& r : rs) whole |= r.lo <= 0 && r.hi >= (1 << g);
        if (whole) exp.push_back({0, 1 << g});
        else for (auto& r : rs) {
            int lo = std::max(r.lo, 0), hi = std::min(r.hi, 1 << g), c = 1 << (g - std::min(g, D));
            lo = (lo + c - 1) / c * c; hi = hi / c * c;
            if (lo < hi) exp.push_back({lo, hi});
        }
        std::vector<RealInterval> got = segment(orig, pred, D);
        R.step(asked);
        bool ok = got.size() == exp.size();
        for (size_t i = 0; ok && i < got.size(); ++i)
            ok = got[i].inf() == b.a + exp[i].first * u && got[i].sup() == b.a + exp[i].second * u && (!whole || got[i].type() == b.t);
        R.check(ok, cat("segment:", what), [&] {
            std::string s = desc() + " got"; for (auto& i : got) s += " " + S(i);
            s += " expected"; for (auto& e : exp) s += cat(" [", b.a + e.first * u, ",", b.a + e.second * u, ")");
            return s; });
    };
    // every layout of W cells into bad cells and good regions, all four ways of sticking out
    const int W = 8, total = 1 << W;
    for (int m = 0; m < total; ++m) {
        if (!R.mine()) continue;
        std::vector<Region> rs; int x = m;
        for (int i = 0; i < W; ++i, x /= 2) {
            if (x % 2 == 0) continue;
            if (rs.empty() || rs.back().hi != i) rs.push_back({i, i + 1}); else rs.back().hi = i + 1;
        }
        for (int out = 0; out < 4; ++out) {
            auto q = rs;
            if (out & 1) { if (q.empty() || q.front().lo != 0) continue; q.front().lo = -50; }
            if (out & 2) { if (q.empty() || q.back().hi != W) continue; q.back().hi = 50; }
            for (int D = 0; D <= (R.thorough() ? 7 : 5); ++D) for (auto& b : bases) {
                one(q, 3, D, b, out ? "regions-past-the-ends" : "regions");
            }
        }
    }
    // every set of good cells on a finer grid
    int g = 4;
    for (int m = 0; m < 1 << (1 << g); ++m) {
        if (!R.mine()) continue;
        std::vector<Region> rs;
        for (int i = 0; i < 1 << g; ++i) if (m >> i & 1) { if (!rs.empty() && rs.back().hi == i) ++rs.back().hi; else rs.push_back({i, i + 1}); }
        for (int D : {3, 4, 6}) one(rs, g, D, bases[m % 5], "cells");
    }
    // touching good regions: what is reported is made of good cells inside the interval
    for (int m = 0; m < 6561; ++m) {
        if (!R.mine()) continue;
        std::vector<Region> rs; int x = m;
        for (int i = 0; i < 8; ++i, x /= 3) {
            int c = x % 3;
            if (c == 0) continue;
            if (c == 1 || rs.empty() || rs.back().hi != i) rs.push_back({i, i + 1}); else rs.back().hi = i + 1;
        }
        for (int D = 1; D <= 5; ++D) {
            const Base& b = bases[m % 5]; const double u = b.len / 8, cell = b.len / (1 << D);
            RealInterval orig(b.a, b.a + b.len, b.t);
            auto good = [&](double lo, double hi) { for (auto& r : rs) if (lo >= b.a + r.lo * u && hi <= b.a + r.hi * u) return true; return false; };
            auto got = segment(orig, [&](const Interval& i) { return good(i.inf(), i.sup()); }, D);
            R.state(); R.step(got.size() + 1);
            std::string bad;
            for (auto& i : got) {
                if (i.inf() < orig.inf() || i.sup() > orig.sup() || i.inf() >= i.sup()) bad += " misplaced " + S(i);
                double k = (i.inf() - b.a) / cell;
                if (k != std::floor(k)) bad += " off the grid " + S(i);
                for (double y = i.inf(); y < i.sup(); y += cell) if (!good(y, y + cell)) bad += " bad cell in " + S(i);
            }
            R.check(bad.empty(), "segment:touching", [&] { std::string s = cat(S(orig), " depth ", D, " regions (of 8)"); for (auto& r : rs) s += cat(" [", r.lo, ",", r.hi, ")"); s += " got"; for (auto& i : got) s += " " + S(i); return s + bad; });
        }
    }
    // one region with end points off every dyadic grid that is searched
    for (int lo = -4; lo < 64; ++lo) {
        if (!R.mine()) continue;
        for (int hi = lo + 1; hi <= 68; ++hi) for (int D = 0; D <= 8; ++D) one({{lo, hi}}, 6, D, bases[(lo + hi + 8) % 5], lo < 0 || hi > 64 ? "regions-past-the-ends" : "one-region");
    }
    if (R.mine()) for (double a : {0.0, 1.0, -2.5}) {
        bool threw = false, asked = false;
        try { segment(RealInterval(a, a), [&](const Interval&) { asked = true; return false; }, 3); } catch (std::exception&) { threw = true; }
        R.check(threw && asked, "segment:degenerate", [&] { return cat("segment of the empty interval at ", a, " did not throw"); });
    }
}

int main(int argc, char** argv) {
    vh::Run R(argc, argv);
    std::string mode;
    for (int i = 1; i + 1 < argc; ++i) if (std::string(argv[i]) == "--mode") mode = argv[i + 1];
    if (mode == "dissect") dissect(R);
    else if (mode == "algebra") algebra(R);
    else if (mode == "partition") partition(R);
    else if (mode == "segment") segment_mode(R);
    return R.finish();
}
