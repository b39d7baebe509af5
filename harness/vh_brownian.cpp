// Brownian streams and the random generators behind them.
//   --mode brownian  the law and the consistency of Brownian streams over all query histories:
//                    a scripted generator makes every normal variate a separate digit of a big
//                    rational, so one run gives the exact linear form of every answer
//   --mode rng       reproducibility, resumption and scaling of the generators
#include "alg_common.h"
#include <roughpy/scalars/random.h>
#include <roughpy/streams/brownian_stream.h>
#include <roughpy/streams/stream.h>
#include <roughpy/intervals/dyadic_interval.h>
#include <roughpy/intervals/real_interval.h>
#include <algorithm>
#include <limits>
using namespace rpy::intervals;
using vh::cat;
typedef boost::multiprecision::cpp_int Z;

static const int DIG = 72;// bits per variate

struct Draws {
    std::vector<double> var;      // variance of each variate
    std::vector<int> channel;     // position within its draw
    std::vector<double> loc;
    bool small = false;           // small values instead of digits
};

class Scripted : public scalars::RandomGenerator
{
    Draws* d;
public:
    Scripted(const scalars::ScalarType* t, Draws* dd) : RandomGenerator(t), d(dd) {}
    void set_seed(Slice<scalars::seed_int_t>) override {}
    void set_state(string_view) override {}
    std::vector<scalars::seed_int_t> get_seed() const override { return {1}; }
    std::string get_type() const override { return "scripted"; }
    std::string get_state() const override { return ""; }
    scalars::ScalarArray uniform_random_scalar(const scalars::ScalarArray&, const scalars::ScalarArray&, dimn_t) const override { throw std::logic_error("uniform"); }
    scalars::ScalarArray normal_random(scalars::Scalar loc, scalars::Scalar scale, dimn_t n) const override
    {
        scalars::ScalarArray r(p_type, n);
        double l = scalars::scalar_cast<double>(loc), s = scalars::scalar_cast<double>(scale);
        for (dimn_t i = 0; i < n; ++i) {
            d->var.push_back(s * s); d->channel.push_back(int(i)); d->loc.push_back(l);
            size_t k = d->var.size();
            Q v;
            if (d->small) v = Q(long((k * k * 7 + k * 3) % 11) - 5);
            else v = Q(Z(1) << (DIG * k));
            v += Q(l);
            r[i] = scalars::Scalar(q2m(v));
        }
        return r;
    }
};

// model: which dyadic cells have been divided
struct Cell { long k; int n; bool operator<(const Cell& o) const { return n != o.n ? n < o.n : k < o.k; }
    bool operator==(const Cell& o) const { return n == o.n && k == o.k; } };
static DyadicInterval DI(const Cell& c) { return DyadicInterval(Dyadic(c.k, c.n)); }
static double clo(const Cell& c) { return std::ldexp(double(c.k), -c.n); }
static double chi(const Cell& c) { return std::ldexp(double(c.k + 1), -c.n); }
static Cell parent(const Cell& c) { return {c.k >> 1, c.n - 1}; }
static bool within(const Cell& c, const Cell& d) { return c.n >= d.n && (c.k >> (c.n - d.n)) == d.k; }
struct Tree {
    std::map<bool, Cell> root;// per side of the origin
    std::set<Cell> split;
    void refine(const Cell& c, int R)
    {
        if (c.n >= R) return;
        split.insert(c);
        refine({2 * c.k, c.n + 1}, R); refine({2 * c.k + 1, c.n + 1}, R);
    }
    void query(const Cell& c, int R)
    {
        bool neg = c.k < 0;
        if (!root.count(neg)) root[neg] = c;
        Cell& r = root[neg];
        while (!within(c, r)) { r = parent(r); split.insert(r); }
        for (Cell x = c; x.n > r.n; ) { x = parent(x); split.insert(x); }
        refine(c, R);
    }
    void leaves(const Cell& c, std::vector<Cell>& out) const
    {
        if (!split.count(c)) { out.push_back(c); return; }
        leaves({2 * c.k, c.n + 1}, out); leaves({2 * c.k + 1, c.n + 1}, out);
    }
};

struct Query { double a, b; int R; bool dyadic; Cell c; };
static std::string S(const Query& q) { return q.dyadic ? cat("cell(", q.c.k, ",", q.c.n, ")@", q.R) : cat("[", q.a, ",", q.b, ")@", q.R); }

static std::vector<Q> deg1(const Lie& l, int w)
{
    std::vector<Q> r;
    for (int i = 1; i <= w; ++i) r.push_back(m2q(scalars::scalar_cast<mpq>(l[key_type(i)])));
    return r;
}

// coefficients of the variates: value = sum c_k 2^(DIG k), the c_k multiples of 2^-S of moderate size
static bool decode(const Q& v, std::vector<double>& c, size_t n)
{
    const int SH = 30;
    Q s = v * Q(Z(1) << SH);
    if (boost::multiprecision::denominator(s) != 1) return false;
    Z x = boost::multiprecision::numerator(s);
    c.assign(n + 1, 0.0);
    Z base = Z(1) << DIG, half = base >> 1;
    for (size_t k = 0; k <= n; ++k) {
        Z d = x % base; if (d < 0) d += base;
        if (d >= half) d -= base;
        c[k] = std::ldexp(d.convert_to<double>(), -SH);
        x = (x - d) / base;
    }
    return x == 0;
}

static std::vector<Query> queries(bool thorough, int level)
{
    std::vector<Query> q;
    auto cell = [&](long k, int n, int R) { q.push_back({std::ldexp(double(k), -n), std::ldexp(double(k + 1), -n), R, true, {k, n}}); };
    auto real = [&](double a, double b, int R) { q.push_back({a, b, R, false, {0, 0}}); };
    // the small set
    cell(0, 0, 0); cell(0, 0, 2); cell(1, 1, 1); cell(1, 0, 1); cell(-1, 0, 1); cell(0, 2, 3); cell(0, -1, 0); cell(3, 1, 2);
    real(-0.5, 0.5, 1); real(0.25, 1.5, 2); real(-1, 1, 0);
    if (level >= 1) {
        cell(0, 0, 1); cell(0, 1, 1); cell(1, 1, 3); cell(-1, 1, 1); cell(-2, 0, 0); cell(-1, -1, 0); cell(-3, 1, 2); cell(1, -1, -1); cell(0, -2, 0);
        cell(2, 1, 1); cell(7, 2, 2); cell(2, 0, 0);
        real(0.25, 0.75, 2); real(0, 3, 0); real(-1.75, -0.25, 2); real(0.5, 1, 3); real(-2, 2, 1); real(0.3, 0.9, 2);
    }
    return q;
}

struct Sys {
    Draws draws;
    context_pointer ctx;
    std::shared_ptr<streams::BrownianStream> s;
    int w;
    Sys(int w_, int depth, VectorType vt, bool small) : w(w_)
    {
        draws.small = small;
        ctx = get_context(w, depth, stype(KQ), {});
        s = std::make_shared<streams::BrownianStream>(std::unique_ptr<scalars::RandomGenerator>(new Scripted(stype(KQ), &draws)),
            streams::StreamMetadata{w, RealInterval(-64, 64), ctx, stype(KQ), vt, 2});
    }
    Lie ask(const Query& q, Tree& t, std::vector<Cell>& cells)
    {
        cells.clear();
        if (q.dyadic) {
            t.query(q.c, q.R); cells.push_back(q.c);
            return s->log_signature(DI(q.c), q.R, *ctx);
        }
        RealInterval ri(q.a, q.b);
        for (auto& d : to_dyadic_intervals(ri, q.R)) { Cell c{long(d.multiplier()), int(d.power())}; t.query(c, q.R); cells.push_back(c); }
        return s->log_signature(ri, q.R, *ctx);
    }
};

static void history(vh::Run& R, const std::vector<Query>& all, const std::vector<int>& h, int w, int depth, VectorType vt)
{
    std::string name = cat("brownian | w=", w, " ", vt == VectorType::Dense ? "dense" : "sparse", " |");
    for (int i : h) name += " " + S(all[i]);
    R.at(name);
    // 1. the law: exact linear forms of the degree 1 parts
    {
        Sys sys(w, 1, vt, false); Tree t; std::vector<Cell> cells;
        struct Ans { std::vector<std::pair<double, double>> iv; std::vector<std::vector<double>> c; };
        std::vector<std::vector<Q>> vals; std::vector<std::pair<double, double>> ivs;
        for (int i : h) {
            Lie l = sys.ask(all[i], t, cells); R.step();
            vals.push_back(deg1(l, w));
            ivs.push_back({cells.front().k * std::ldexp(1.0, -cells.front().n), chi(cells.back())});
        }
        // the finest cells as they are now, so that every part of every answer is compared with every other
        std::vector<Cell> leaves;
        for (auto& r : t.root) t.leaves(r.second, leaves);
        size_t nh = vals.size();
        for (auto& c : leaves) {
            Lie l = sys.s->log_signature(DI(c), c.n, *sys.ctx); R.step();
            vals.push_back(deg1(l, w)); ivs.push_back({clo(c), chi(c)});
        }
        size_t nv = sys.draws.var.size();
        std::vector<std::vector<std::vector<double>>> co(vals.size(), std::vector<std::vector<double>>(w));
        for (size_t i = 0; i < vals.size(); ++i) for (int ch = 0; ch < w; ++ch) {
            bool ok = decode(vals[i][ch], co[i][ch], nv);
            R.check(ok, "linear", [&] { return cat(name, " answer ", i, " is not a dyadic combination of the variates"); });
            if (!ok) return;
            R.check(co[i][ch][0] == 0, "mean", [&] { return cat(name, " answer ", i, " has mean ", co[i][ch][0]); });
        }
        for (size_t i = 0; i < vals.size(); ++i) for (size_t j = 0; j <= i; ++j) for (int a = 0; a < w; ++a) for (int b = 0; b < w; ++b) {
            double cov = 0;
            for (size_t k = 1; k <= nv; ++k) cov += co[i][a][k] * co[j][b][k] * sys.draws.var[k - 1];
            double ex = a == b ? std::max(0.0, std::min(ivs[i].second, ivs[j].second) - std::max(ivs[i].first, ivs[j].first)) : 0.0;
            R.check(std::fabs(cov - ex) < 1e-9, a == b ? "covariance" : "channels", [&] {
                return cat(name, " increments over [", ivs[i].first, ",", ivs[i].second, ") ch ", a, " and [", ivs[j].first, ",", ivs[j].second, ") ch ", b,
                           " have covariance ", cov, ", expected ", ex, i < nh ? " (queries)" : " (cells)"); });
        }
        // earlier answers are the sums of the finest increments: history is never rewritten
        for (size_t i = 0; i < nh; ++i) for (int ch = 0; ch < w; ++ch) {
            Q sum = 0;
            for (size_t j = nh; j < vals.size(); ++j) if (ivs[j].first >= ivs[i].first && ivs[j].second <= ivs[i].second) sum += vals[j][ch];
            R.check(sum == vals[i][ch], "rewritten", [&] { return cat(name, " answer ", i, " is not the sum of the increments of its cells now"); });
        }
    }
    // 2. higher degrees: every answer is the ordered product of the increments over the finest cells it had then
    if (depth > 1) {
        Sys sys(w, depth, vt, true); Tree t; std::vector<Cell> cells;
        std::vector<Lie> ans; std::vector<std::vector<Cell>> lv;
        for (int i : h) {
            ans.push_back(sys.ask(all[i], t, cells)); R.step();
            lv.emplace_back();
            for (auto& c : cells) t.leaves(c, lv.back());
        }
        std::vector<Cell> leaves; std::vector<std::vector<Q>> val;
        for (auto& r : t.root) t.leaves(r.second, leaves);
        for (auto& c : leaves) {
            Lie l = sys.s->log_signature(DI(c), c.n, *sys.ctx); R.step();
            val.push_back(deg1(l, w));
            bool pure = true;
            for (auto&& it : l) if (it.key() > key_type(w) && scalars::scalar_cast<mpq>(it.value()) != 0) pure = false;
            R.check(pure, "leaf", [&] { return cat(name, " the increment over the finest cell (", c.k, ",", c.n, ") has brackets: ", l); });
        }
        for (size_t i = 0; i < ans.size(); ++i) {
            std::vector<Lie> parts;
            for (auto& c : lv[i]) {
                std::vector<Q> sum(w, Q(0));
                for (size_t j = 0; j < leaves.size(); ++j) if (within(leaves[j], c)) for (int ch = 0; ch < w; ++ch) sum[ch] += val[j][ch];
                Lie x = sys.ctx->zero_lie(vt);
                for (int ch = 0; ch < w; ++ch) x[key_type(ch + 1)] += scalars::Scalar(q2m(sum[ch]));
                parts.push_back(std::move(x));
            }
            Lie ex = sys.ctx->cbh(parts, vt);
            R.check(ex == ans[i], "product", [&] { return cat(name, " answer ", i, " is ", ans[i], " but its cells give ", ex); });
        }
    }
    R.state();
}

static void brownian(vh::Run& R)
{
    auto small = queries(R.thorough(), 0), all = queries(R.thorough(), 1);
    std::vector<int> h;
    for (size_t i = 0; i < all.size(); ++i) for (size_t j = 0; j <= all.size(); ++j) {
        if (!R.mine()) continue;
        h = {int(i)}; if (j < all.size()) h.push_back(int(j));
        for (auto vt : {VectorType::Dense, VectorType::Sparse}) history(R, all, h, 2, 3, vt);
        history(R, all, h, 1, 1, VectorType::Dense);
        history(R, all, h, 3, 2, VectorType::Dense);
    }
    int n = int(small.size()), len = R.thorough() ? 5 : 4;
    std::vector<int> idx(3, 0);
    for (int L = 3; L <= len; ++L) {
        long tot = 1; for (int i = 0; i < L; ++i) tot *= n;
        for (long x = 0; x < tot; ++x) {
            long y = x; h.clear();
            for (int i = 0; i < L; ++i) { h.push_back(int(y % n)); y /= n; }
            bool rep = false; for (int i = 1; i < L; ++i) rep |= h[i] == h[i - 1];
            if (rep) continue;
            if (!R.mine()) continue;
            history(R, small, h, L == 3 ? 2 : 1, L == 3 ? 2 : 1, VectorType::Dense);
        }
    }
    // real generators: same seed and history, same answers, by value; through the public stream class
    const char* gens[] = {"pcg", "mt19937"};
    for (int k : {KD, KF}) for (auto g : gens) for (uint64_t seed = 1; seed <= (R.thorough() ? 40u : 12u); ++seed) for (size_t i = 0; i < all.size(); ++i) for (size_t j = 0; j < all.size(); j += (seed == 1 ? 1 : 5)) {
        if (!R.mine()) continue;
        std::string name = cat("brownian-seeded | ", kname(Kind(k)), " ", g, " seed=", seed, " ", S(all[i]), " ", S(all[j]));
        R.at(name); R.state();
        auto st = stype(Kind(k)); auto ctx = get_context(2, 3, st, {});
        auto make = [&](uint64_t sd) { return streams::BrownianStream(st->get_rng(g, sd), streams::StreamMetadata{2, RealInterval(-64, 64), ctx, st, VectorType::Dense, 2}); };
        auto a = make(seed), b = make(seed), c = make(seed + 1000);
        auto ask = [&](streams::BrownianStream& s, const Query& q) {
            R.step();
            if (q.dyadic) return s.log_signature(DI(q.c), q.R, *ctx);
            return s.log_signature(RealInterval(q.a, q.b), q.R, *ctx); };
        Lie a1 = ask(a, all[i]), b1 = ask(b, all[i]), c1 = ask(c, all[i]);
        R.check(a1 == b1, "seed-repeat", [&] { return cat(name, " first answers differ: ", a1, " ", b1); });
        R.check(!(a1 == c1), "seed-matters", [&] { return cat(name, " another seed gives the same answer ", a1); });
        Lie a2 = ask(a, all[j]), b2 = ask(b, all[j]);
        R.check(a2 == b2, "seed-repeat", [&] { return cat(name, " second answers differ: ", a2, " ", b2); });
        bool fin = true;
        for (auto&& it : a2) { double v = scalars::scalar_cast<double>(it.value()); if (!(std::fabs(v) < 1e6)) fin = false; }
        R.check(fin, "finite", [&] { return cat(name, " ", a2); });
    }
}

static void rng(vh::Run& R)
{
    const char* gens[] = {"", "pcg", "mt19937"};
    struct T { const char* n; const scalars::ScalarType* t; double eps; };
    std::vector<T> types = {{"double", *scalars::ScalarType::of<double>(), 1e-12}, {"float", *scalars::ScalarType::of<float>(), 1e-4},
                            {"half", *scalars::ScalarType::of<scalars::half>(), 5e-2}, {"bfloat16", *scalars::ScalarType::of<scalars::bfloat16>(), 3e-1}};
    auto vec = [&](const scalars::ScalarArray& a) { std::vector<double> r; for (dimn_t i = 0; i < a.size(); ++i) r.push_back(scalars::scalar_cast<double>(a[i])); return r; };
    auto str = [&](const std::vector<double>& v) { std::string s; for (double x : v) s += cat(x, " "); return s; };
    uint64_t other = 77;
    int maxops = R.thorough() ? 4 : 3;
    for (auto& ty : types) for (auto g : gens) for (uint64_t seed : {0ull, 1ull, 2ull, 12345ull, ~0ull, 1ull << 63}) {
        // operations: normal n, uniform n (one and two ranges)
        struct Op { int kind; int n; double p, q; };
        std::vector<Op> ops = {{0, 1, 0, 1}, {0, 2, 0, 1}, {0, 3, 2, 0.5}, {0, 5, -1, 3}, {1, 1, 0, 1}, {1, 3, -2, 5}, {2, 2, 0, 4}};
        auto run = [&](scalars::RandomGenerator& r, const Op& o) {
            R.step();
            if (o.kind == 0) return vec(r.normal_random(scalars::Scalar(ty.t, o.p), scalars::Scalar(ty.t, o.q), o.n));
            scalars::ScalarArray lo(ty.t, o.kind), hi(ty.t, o.kind);
            for (int i = 0; i < o.kind; ++i) { lo[i] = scalars::Scalar(ty.t, o.p - i); hi[i] = scalars::Scalar(ty.t, o.q + 8 * i); }
            return vec(r.uniform_random_scalar(lo, hi, o.n)); };
        long tot = 1; for (int i = 0; i < maxops; ++i) tot *= long(ops.size());
        for (long x = 0; x < tot; ++x) {
            if (!R.mine()) continue;
            std::string name = cat("rng | ", ty.n, " ", g, " seed=", seed, " ops=", x);
            R.at(name); R.state();
            auto a = ty.t->get_rng(g, seed), b = ty.t->get_rng(g, seed), c = ty.t->get_rng(g, other), d = ty.t->get_rng(g, seed);
            long y = x;
            R.check(a->get_seed() == std::vector<scalars::seed_int_t>{seed}, "get_seed", [&] { return name; });
            R.check(*g == 0 || a->get_type() == g, "get_type", [&] { return cat(name, " says ", a->get_type()); });
            for (int i = 0; i < maxops; ++i) {
                const Op& o = ops[y % ops.size()]; y /= ops.size();
                // c resumes from a's state before each operation, d is reseeded and replays
                c->set_state(a->get_state());
                auto va = run(*a, o), vb = run(*b, o), vc = run(*c, o);
                R.check(va == vb, "repeat", [&] { return cat(name, " step ", i, ": ", str(va), " / ", str(vb)); });
                R.check(va == vc, "resume", [&] { return cat(name, " step ", i, " after set_state: ", str(va), " / ", str(vc)); });
                R.check(va.size() == size_t(o.n * (o.kind == 2 ? 2 : 1)), "count", [&] { return cat(name, " ", va.size()); });
                if (o.kind) for (size_t k = 0; k < va.size(); ++k) {
                    int r = int(k) % o.kind;
                    R.check(va[k] >= o.p - r && va[k] <= o.q + 8 * r, "range", [&] { return cat(name, " step ", i, " ", va[k], " outside range ", r); });
                }
                // d: the same variates in standard units
                d->set_seed(seed);
                long z = x;
                for (int k = 0; k < i; ++k) { (void) run(*d, ops[z % ops.size()]); z /= ops.size(); }
                Op so = o; 
                if (o.kind == 0) { so.p = 0; so.q = 1; }
                auto vd = run(*d, so);
                for (size_t k = 0; k < va.size() && o.kind == 0; ++k)
                    R.check(std::fabs(va[k] - (o.p + o.q * vd[k])) <= ty.eps * (1 + std::fabs(va[k])), "affine", [&] { return cat(name, " step ", i, " normal(", o.p, ",", o.q, ") gives ", va[k], " for ", vd[k]); });
                if (o.kind) R.check(va == vd, "reseed", [&] { return cat(name, " step ", i); });
                if (i == 0 && o.n == 5) {
                    bool distinct = false; for (size_t k = 1; k < va.size(); ++k) distinct |= va[k] != va[0];
                    R.check(distinct, "constant", [&] { return cat(name, " ", str(va)); });
                }
            }
        }
    }
}

int main(int argc, char** argv)
{
    std::string mode;
    for (int i = 1; i + 1 < argc; ++i) if (!strcmp(argv[i], "--mode")) mode = argv[i + 1];
    vh::Run R(argc, argv);
    if (mode == "brownian") brownian(R);
    else if (mode == "rng") rng(R);
    else return 4;
    return R.finish();
}
