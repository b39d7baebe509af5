#include "alg_common.h"
using namespace vh;
using scalars::Scalar;

// ---------------------------------------------------------------- model product
// structure constants as a table, so that the model is quick on dense elements
struct Table {
    // prod[i*n+j] = list of (k, c)
    size_t n;
    std::vector<std::vector<std::pair<size_t, Q>>> t;
    std::vector<char> done;
    std::function<Vec(size_t, size_t)> f;
    Table(size_t n_, std::function<Vec(size_t, size_t)> f_) : n(n_), t(n_ * n_), done(n_ * n_, 0), f(std::move(f_)) {}
    const std::vector<std::pair<size_t, Q>>& get(size_t i, size_t j)
    {
        auto& c = t[i * n + j];
        if (!done[i * n + j]) {
            Vec v = f(i, j);
            for (size_t k = 0; k < v.size(); ++k) if (v[k] != 0) c.push_back({k, v[k]});
            done[i * n + j] = 1;
        }
        return c;
    }
    Vec operator()(const Vec& a, const Vec& b)
    {
        Vec r(n);
        for (size_t i = 0; i < n; ++i) if (a[i] != 0)
            for (size_t j = 0; j < n; ++j) if (b[j] != 0) {
                Q p = a[i] * b[j];
                for (auto& kc : get(i, j)) r[kc.first] += p * kc.second;
            }
        return r;
    }
};
static Vec unitv(size_t n, size_t i) { Vec v(n); v[i] = 1; return v; }

template <typename Alg> struct Prod;
template <> struct Prod<FreeTensor> {
    Cx& cx;
    Prod(Cx& c) : cx(c) {}
    Vec operator()(const Vec& a, const Vec& b) { return cx.T.mul(a, b); }
};
template <> struct Prod<ShuffleTensor> {
    Table t;
    Prod(Cx& c) : t(c.T.dim(), [&c](size_t i, size_t j) { return c.T.shuffle(unitv(c.T.dim(), i), unitv(c.T.dim(), j)); }) {}
    Vec operator()(const Vec& a, const Vec& b) { return t(a, b); }
};
template <> struct Prod<Lie> {
    Table t;
    Prod(Cx& c) : t(c.L.dim(), [&c](size_t i, size_t j) { return c.L.bracket(unitv(c.L.dim(), i), unitv(c.L.dim(), j)); }) {}
    Vec operator()(const Vec& a, const Vec& b) { return t(a, b); }
};

static Vec lin(const Vec& a, const Q& s, const Vec& b, const Q& t)
{
    Vec r = a;
    for (size_t i = 0; i < r.size(); ++i) r[i] = r[i] * s + b[i] * t;
    return r;
}
static Vec scl(const Vec& a, const Q& s) { Vec r = a; for (auto& c : r) c *= s; return r; }

struct Space { int w, d; Kind k; bool basis, pat, gaps; bool pairs_basis; };

template <typename Alg>
void unary(Run& run, Cx& cx, Prod<Alg>& P, const El& e, VectorType v, int style, const std::string& nm)
{
    auto what = [&](const char* op) {
        return [&, op]() { return cat(AlgT<Alg>::name(), " ", cx.name(), " ", vname(v), "/", style, " ", op, " a=", show(e)); };
    };
    run.at(cat(nm, " | unary ", cx.name(), " ", vname(v), "/", style, " ", show(e)));
    const std::string K = nm + ":" + kname(cx.k) + ":" + vname(v) + ":";
    Alg a = build<Alg>(cx, e, v, style);
    run.state();
    agree(run, cx, a, [&](int x) { return e.at(x); }, K + "construct", what("construct"));
    {
        Alg c(a);
        agree(run, cx, c, [&](int x) { return e.at(x); }, K + "copy", what("copy"), 0, false);
        run.check(c == a, K + "eq-copy", what("copy == a"));
        run.check(!(c != a), K + "ne-copy", what("copy != a"));
        // changing any single coefficient makes it different, in both directions
        for (size_t i = 0; i < e.a.size(); i += (e.a.size() > 15 ? 7 : 1)) {
            El e2 = e;
            e2.a[i] += 1;
            Alg b = build<Alg>(cx, e2, v, style);
            run.check(!(a == b) && !(b == a), K + "eq-differ", [&] { return what("==")() + cat(" differing at ", i); });
            // build the other element through the writable coefficient
            typename Alg::key_type ky(i + AlgT<Alg>::keyoff);
            {
                c[ky] += mkscalar(cx.k, 1);
                agree(run, cx, c, [&](int x) { return e2.at(x); }, K + "coef-add", what("c[i] += 1"), 0, true);
                run.check(c == b && b == c, K + "eq-write", [&] { return what("== after write")() + cat(" at ", i); });
                c[ky] -= mkscalar(cx.k, 1);
                run.check(c == a && a == c, K + "eq-write-back", [&] { return what("== after writing back")() + cat(" at ", i); });
            }
        }
        agree(run, cx, a, [&](int x) { return e.at(x); }, K + "copy-alias", what("original after writes to a copy"), 0, false);
    }
    auto neg = [&](int x) { return scl(e.at(x), -1); };
    agree(run, cx, a.uminus(), neg, K + "uminus", what("-a"));
    for (auto s : {Q(2), Q(-1, 2), Q(3), Q(1), Q(-1)}) {
        Scalar sc = mkscalar(cx.k, s);
        agree(run, cx, a.smul(sc), [&](int x) { return scl(e.at(x), s); }, K + "smul", what("a*s"));
        agree(run, cx, a.sdiv(sc), [&](int x) { return scl(e.at(x), 1 / s); }, K + "sdiv", what("a/s"), 8);
        Alg b(a);
        b.smul_inplace(sc);
        agree(run, cx, b, [&](int x) { return scl(e.at(x), s); }, K + "smul_inplace", what("a*=s"));
        b.sdiv_inplace(sc);
        agree(run, cx, b, [&](int x) { return e.at(x); }, K + "sdiv_inplace", what("(a*s)/=s"), 8);
        run.step(4);
    }
    {
        Scalar z = mkscalar(cx.k, 0);
        agree(run, cx, a.smul(z), [&](int) { return Vec(e.a.size()); }, K + "smul0", what("a*0"));
        Alg b(a);
        b.smul_inplace(z);
        agree(run, cx, b, [&](int) { return Vec(e.a.size()); }, K + "smul0_inplace", what("a*=0"));
        Alg zero = AlgT<Alg>::zero(*cx.c, v);
        run.check(b == zero && zero == b, K + "eq-zero", what("a*0 == 0"));
    }
    // the same element used on both sides
    auto sq = [&](int x) { return P(e.at(x), e.at(x)); };
    Q sc = maxabs(e.a) * maxabs(e.a) * int(e.a.size());
    agree(run, cx, a.mul(a), sq, K + "a*a", what("a*a"), sc);
    { Alg b(a); b.add_inplace(b); agree(run, cx, b, [&](int x) { return scl(e.at(x), 2); }, K + "a+=a", what("a+=a")); }
    { Alg b(a); b.sub_inplace(b); agree(run, cx, b, [&](int) { return Vec(e.a.size()); }, K + "a-=a", what("a-=a")); }
    { Alg b(a); b.mul_inplace(b); agree(run, cx, b, sq, K + "a*=a", what("a*=a"), sc); }
    agree(run, cx, a.add(a.uminus()), [&](int) { return Vec(e.a.size()); }, K + "a+(-a)", what("a+(-a)"));
    agree(run, cx, a, [&](int x) { return e.at(x); }, K + "const", what("operand after operations"), 0, false);
    run.step(8);
}

template <typename Alg>
void binary(Run& run, Cx& cx, Prod<Alg>& P, const El& e, const El& f, VectorType v, VectorType u, int style,
            const std::string& nm, bool fused)
{
    auto what = [&](const char* op) {
        return [&, op]() {
            return cat(AlgT<Alg>::name(), " ", cx.name(), " ", vname(v), "x", vname(u), "/", style, " ", op, " a=", show(e), " b=", show(f));
        };
    };
    run.at(cat(nm, " | binary ", cx.name(), " ", vname(v), "x", vname(u), "/", style, " a=", show(e), " b=", show(f)));
    const std::string K = nm + ":" + kname(cx.k) + ":" + vname(v) + "x" + vname(u) + ":";
    Alg a = build<Alg>(cx, e, v, style), b = build<Alg>(cx, f, u, style);
    run.state();
    auto pts = cx.points();
    std::map<int, Vec> prod;
    for (int x : pts) prod[x] = P(e.at(x), f.at(x));
    auto mul = [&](int x) { return prod[x]; };
    Q sc = maxabs(e.a) * maxabs(f.a) * int(e.a.size()) + maxabs(e.a) + maxabs(f.a);
    bool al = fused;
    agree(run, cx, a.mul(b), mul, K + "mul", what("a*b"), sc, al);
    { Alg c(a); c.mul_inplace(b); agree(run, cx, c, mul, K + "mul_inplace", what("a*=b"), sc, al); }
    run.step(2);
    if (!fused) return;
    auto add = [&](int x) { return lin(e.at(x), 1, f.at(x), 1); };
    auto sub = [&](int x) { return lin(e.at(x), 1, f.at(x), -1); };
    agree(run, cx, a.add(b), add, K + "add", what("a+b"));
    agree(run, cx, a.sub(b), sub, K + "sub", what("a-b"));
    { Alg c(a); c.add_inplace(b); agree(run, cx, c, add, K + "add_inplace", what("a+=b"));
      bool same = true;
      for (int x : pts) same = same && e.at(x) == f.at(x);
      // a Lie element changes storage through its tensor, which rounds in floating point
      bool rounded = std::is_same<Alg, Lie>::value && v != u && (cx.k == KD || cx.k == KF);
      run.check((a == b) == same || (rounded && same), K + "eq", what("a==b"));
      c.sub_inplace(b);
      agree(run, cx, c, [&](int x) { return e.at(x); }, K + "add-sub", what("(a+=b)-=b"), sc);
      run.check((cx.k == KQ || cx.k == KP) ? c == a : true, K + "eq-add-sub", what("(a+b)-b == a")); }
    { Alg c(a); c.sub_inplace(b); agree(run, cx, c, sub, K + "sub_inplace", what("a-=b")); }
    Q s(3, 2);
    if (cx.k == KQ) s = Q(2, 3);
    Scalar ss = mkscalar(cx.k, s);
    { Alg c(a); c.add_scal_mul(b, ss); agree(run, cx, c, [&](int x) { return lin(e.at(x), 1, f.at(x), s); }, K + "add_scal_mul", what("a+=b*s"), sc); }
    { Alg c(a); c.sub_scal_mul(b, ss); agree(run, cx, c, [&](int x) { return lin(e.at(x), 1, f.at(x), -s); }, K + "sub_scal_mul", what("a-=b*s"), sc); }
    { Alg c(a); c.add_scal_div(b, ss); agree(run, cx, c, [&](int x) { return lin(e.at(x), 1, f.at(x), 1 / s); }, K + "add_scal_div", what("a+=b/s"), sc); }
    { Alg c(a); c.sub_scal_div(b, ss); agree(run, cx, c, [&](int x) { return lin(e.at(x), 1, f.at(x), -1 / s); }, K + "sub_scal_div", what("a-=b/s"), sc); }
    // three operands: a (+/-)= a*b, b*a ; and a = (a*b)*s
    { Alg c(a); c.add_mul(a, b); agree(run, cx, c, [&](int x) { return lin(e.at(x), 1, prod[x], 1); }, K + "add_mul", what("a+=a*b"), sc); }
    { Alg c(b); c.sub_mul(a, b); agree(run, cx, c, [&](int x) { return lin(f.at(x), 1, prod[x], -1); }, K + "sub_mul", what("b-=a*b"), sc); }
    { Alg c(b); c.add_mul(a, b); agree(run, cx, c, [&](int x) { return lin(f.at(x), 1, prod[x], 1); }, K + "add_mul2", what("b+=a*b"), sc); }
    { Alg c(a); c.mul_smul(b, ss); agree(run, cx, c, [&](int x) { return scl(prod[x], s); }, K + "mul_smul", what("a*=(b*s)"), sc); }
    { Alg c(a); c.mul_sdiv(b, ss); agree(run, cx, c, [&](int x) { return scl(prod[x], 1 / s); }, K + "mul_sdiv", what("a*=(b/s)"), sc); }
    agree(run, cx, a, [&](int x) { return e.at(x); }, K + "const-l", what("left operand afterwards"), 0, false);
    agree(run, cx, b, [&](int x) { return f.at(x); }, K + "const-r", what("right operand afterwards"), 0, false);
    run.step(12);
}

template <typename Alg>
void ring(Run& run, const std::vector<Space>& spaces, const std::string& nm)
{
    for (auto& s : spaces) {
        Cx cx(s.w, s.d, s.k);
        Prod<Alg> P(cx);
        auto es = elements<Alg>(cx, s.basis, s.pat, s.gaps);
        run.dim("contexts", run.shard == 0);
        for (auto& e : es)
            for (auto v : VT)
                for (int st = 0; st < 3; ++st)
                    if (run.mine()) { unary<Alg>(run, cx, P, e, v, st, nm); run.dim(cat("unary ", cx.name())); }
        // pairs: patterns x patterns with every operation, basis x basis with products
        std::vector<El> pat = elements<Alg>(cx, false, s.pat, s.gaps && (run.thorough() || s.d <= 2));
        std::vector<El> bas = elements<Alg>(cx, true, false, false);
        if (s.pat)
            for (auto& e : pat)
                for (auto& f : pat)
                    for (auto v : VT)
                        for (auto u : VT)
                            if (run.mine()) {
                                // storage layouts of dense operands rotate with the pair; all are taken in thorough
                                for (int st = 0; st < 3; ++st)
                                    if (run.thorough() || st == int(run.counter / run.nshards) % 3)
                                        binary<Alg>(run, cx, P, e, f, v, u, st, nm, true);
                                run.dim(cat("pairs ", cx.name()));
                            }
        if (s.pairs_basis)
            for (auto& e : bas)
                for (auto& f : bas)
                    for (auto v : VT)
                        for (auto u : VT)
                            if (run.mine()) { binary<Alg>(run, cx, P, e, f, v, u, 0, nm, false); run.dim(cat("basis pairs ", cx.name())); }
    }
}

// --------------------------------------------------------------------- exp & log
static Vec nz(Vec v, const Q& c) { v[0] = c; return v; }
void explog(Run& run)
{
    struct S { int w, d; Kind k; };
    std::vector<S> sp = {{1, 3, KQ}, {2, 1, KQ}, {2, 2, KQ}, {2, 3, KQ}, {2, 4, KQ}, {3, 2, KQ}, {3, 3, KQ}, {2, 3, KD}, {3, 3, KD}, {2, 2, KF}, {2, 2, KP}, {2, 5, KD}, {2, 6, KD}, {4, 2, KD}};
    if (run.thorough()) { sp.push_back({2, 5, KQ}); sp.push_back({2, 6, KQ}); sp.push_back({4, 3, KQ}); sp.push_back({2, 8, KD}); sp.push_back({3, 5, KD}); sp.push_back({2, 3, KP}); }
    for (auto& s : sp) {
        Cx cx(s.w, s.d, s.k);
        bool small = cx.T.dim() <= 31;
        auto es = elements<FreeTensor>(cx, true, true, small || run.thorough());
        std::vector<El> nil;
        for (auto e : es) { e.a[0] = 0; if (!e.b.empty()) e.b[0] = 0; nil.push_back(e); }
        for (auto& e : nil) for (auto v : VT) for (int st = 0; st < 3; st += 2) {
            if (!run.mine()) continue;
            run.at(cat("explog | ", cx.name(), " ", vname(v), "/", st, " ", show(e)));
            run.state();
            run.dim(cat("exp ", cx.name()));
            std::string K = cat("explog:", kname(cx.k), ":", vname(v), ":");
            auto what = [&](const char* op) { return [&, op]() { return cat(cx.name(), " ", vname(v), "/", st, " ", op, " a=", show(e)); }; };
            FreeTensor a = build<FreeTensor>(cx, e, v, st);
            std::map<int, Vec> ex;
            for (int x : cx.points()) ex[x] = cx.T.exp(e.at(x));
            Q sc = 0;
            for (auto& p : ex) sc = std::max(sc, Q(maxabs(p.second)));
            FreeTensor g = a.exp();
            agree(run, cx, g, [&](int x) { return ex[x]; }, K + "exp", what("exp(a)"), sc);
            Q s2 = sc * sc * 4;
            agree(run, cx, g.log(), [&](int x) { return e.at(x); }, K + "log-exp", what("log(exp(a))"), s2);
            // exp(a) antipode = exp(-a) = inverse
            if (cx.k != KP) {
                Vec inv = cx.T.exp(scl(e.a, -1));
                (void) inv;
                FreeTensor h = a.uminus().exp();
                agree(run, cx, g.mul(h), [&](int) { return cx.T.unit(); }, K + "exp-inverse", what("exp(a)*exp(-a)"), s2);
            }
            agree(run, cx, a, [&](int x) { return e.at(x); }, K + "exp-const", what("operand after exp"), 0, false);
            run.step(3);
        }
        // log of unit + nilpotent; antipode of everything
        for (auto& e0 : es) for (auto v : VT) for (int st = 0; st < 3; st += 2) {
            if (!run.mine()) continue;
            run.at(cat("antipode | ", cx.name(), " ", vname(v), "/", st, " ", show(e0)));
            run.state();
            std::string K = cat("explog:", kname(cx.k), ":", vname(v), ":");
            El e = e0;
            auto what = [&](const char* op) { return [&, op]() { return cat(cx.name(), " ", vname(v), "/", st, " ", op, " a=", show(e)); }; };
            {
                FreeTensor a = build<FreeTensor>(cx, e, v, st);
                agree(run, cx, a.antipode(), [&](int x) { return cx.T.antipode(e.at(x)); }, K + "antipode", what("antipode(a)"));
                agree(run, cx, a.antipode().antipode(), [&](int x) { return e.at(x); }, K + "antipode2", what("antipode(antipode(a))"));
                agree(run, cx, a, [&](int x) { return e.at(x); }, K + "antipode-const", what("operand after antipode"), 0, false);
            }
            e.a[0] = 1;
            if (!e.b.empty()) e.b[0] = 0;
            FreeTensor a = build<FreeTensor>(cx, e, v, st);
            std::map<int, Vec> lg;
            Q sc = 1;
            for (int x : cx.points()) { lg[x] = cx.T.log(e.at(x)); sc = std::max(sc, Q(maxabs(lg[x]))); }
            FreeTensor l = a.log();
            agree(run, cx, l, [&](int x) { return lg[x]; }, K + "log", what("log(a)"), sc);
            agree(run, cx, l.exp(), [&](int x) { return e.at(x); }, K + "exp-log", what("exp(log(a))"), sc * sc * 4);
            agree(run, cx, a, [&](int x) { return e.at(x); }, K + "log-const", what("operand after log"), 0, false);
            run.dim(cat("log/antipode ", cx.name()));
            run.step(4);
        }
        // a.fmexp(x) = a * exp(x), for every storage pair
        auto ps = elements<FreeTensor>(cx, false, true, false);
        if (ps.size() > 34) { std::vector<El> q; for (size_t i = 0; i < ps.size(); i += ps.size() / 24) q.push_back(ps[i]); ps = q; }
        std::vector<Vec> exps;
        for (auto& f : ps) exps.push_back(cx.T.exp(nz(f.a, 0)));
        for (auto& e : ps) for (size_t j = 0; j < ps.size(); ++j) for (auto v : VT) for (auto u : VT) {
            if (!run.mine()) continue;
            El f = ps[j];
            f.a[0] = 0;
            if (!f.b.empty()) f.b[0] = 0;
            run.at(cat("fmexp | ", cx.name(), " ", vname(v), "x", vname(u), " a=", show(e), " x=", show(f)));
            run.state();
            FreeTensor a = build<FreeTensor>(cx, e, v, 0), b = build<FreeTensor>(cx, f, u, 2);
            std::string K = cat("explog:", kname(cx.k), ":", vname(v), "x", vname(u), ":fmexp");
            std::map<int, Vec> wv;
            Q sc = 1;
            for (int x : cx.points()) { wv[x] = cx.T.mul(e.at(x), cx.k == KP ? cx.T.exp(f.at(x)) : exps[j]); sc = std::max(sc, Q(maxabs(wv[x]))); }
            FreeTensor& r = a.fmexp(b);
            agree(run, cx, a, [&](int x) { return wv[x]; }, K, [&] { return cat(cx.name(), " a.fmexp(x) a=", show(e), " x=", show(f)); }, sc * 4);
            run.check(&r == &a, K + "-ret", [&] { return std::string("fmexp returns its receiver"); });
            agree(run, cx, b, [&](int x) { return f.at(x); }, K + "-const", [&] { return cat(cx.name(), " argument after fmexp ", show(f)); }, 0, false);
            run.dim(cat("fmexp ", cx.name()));
        }
    }
}

// ------------------------------------------------ context products on tensors
template <typename R, typename A, typename B>
R ctxmul(const Context& c, const A& a, const B& b, int which)
{
    ConstRawUnspecifiedAlgebraType l = &*a;
    ConstRawUnspecifiedAlgebraType r = &*b;
    switch (which) {
        case 0: return R(c.free_multiply(l, r));
        case 1: return R(c.shuffle_multiply(l, r));
        case 2: return R(c.half_shuffle_multiply(l, r));
        default: return R(c.adjoint_to_left_multiply_by(l, r));
    }
}
static const char* opname[] = {"free", "shuffle", "half_shuffle", "adjoint"};

template <typename A, typename B>
void ctxprod_case(Run& run, Cx& cx, int op, const std::function<Vec(const Vec&, const Vec&)>& M, const El& e, const El& f,
                  VectorType v, VectorType u, int st)
{
    using R = typename std::conditional<true, A, B>::type;
    auto what = [&] { return cat(opname[op], "(", AlgT<A>::name(), ",", AlgT<B>::name(), ") ", cx.name(), " ", vname(v), "x", vname(u), "/", st, " a=", show(e), " b=", show(f)); };
    run.at(cat(opname[op], " | ", what()));
    run.state();
    A a = build<A>(cx, e, v, st);
    B b = build<B>(cx, f, u, st);
    std::string K = cat(opname[op], ":", kname(cx.k), ":", AlgT<A>::name(), "x", AlgT<B>::name(), ":", vname(v), "x", vname(u));
    Q sc = maxabs(e.a) * maxabs(f.a) * int(e.a.size());
    if (op == 3) {
        B r = ctxmul<B>(*cx.c, a, b, op);
        agree(run, cx, r, [&](int x) { return M(e.at(x), f.at(x)); }, K, what, sc);
        run.check(r.context() == cx.c, K + ":ctx", what);
    } else {
        R r = ctxmul<R>(*cx.c, a, b, op);
        agree(run, cx, r, [&](int x) { return M(e.at(x), f.at(x)); }, K, what, sc);
        run.check(r.context() == cx.c, K + ":ctx", what);
    }
    agree(run, cx, a, [&](int x) { return e.at(x); }, K + ":const-l", what, 0, false);
    agree(run, cx, b, [&](int x) { return f.at(x); }, K + ":const-r", what, 0, false);
}

void ctxprod(Run& run, int op, std::vector<Space> sp)
{
    for (auto& s : sp) {
        Cx cx(s.w, s.d, s.k);
        size_t n = cx.T.dim();
        std::function<Vec(const Vec&, const Vec&)> M;
        std::shared_ptr<Table> tab;
        if (op == 0) M = [&](const Vec& a, const Vec& b) { return cx.T.mul(a, b); };
        else if (op == 3) M = [&](const Vec& a, const Vec& b) { return cx.T.adjoint(a, b); };
        else {
            tab = std::make_shared<Table>(n, [&cx, n, op](size_t i, size_t j) {
                return op == 1 ? cx.T.shuffle(unitv(n, i), unitv(n, j)) : cx.T.half_shuffle(unitv(n, i), unitv(n, j)); });
            M = [tab](const Vec& a, const Vec& b) { return (*tab)(a, b); };
        }
        auto bas = elements<FreeTensor>(cx, true, false, false);
        auto pat = elements<FreeTensor>(cx, false, true, s.gaps);
        auto go = [&](const std::vector<El>& A, const std::vector<El>& B, bool types, int st) {
            for (auto& e : A) for (auto& f : B) for (auto v : VT) for (auto u : VT) {
                if (!run.mine()) continue;
                if (types) {
                    ctxprod_case<FreeTensor, FreeTensor>(run, cx, op, M, e, f, v, u, st);
                    ctxprod_case<FreeTensor, ShuffleTensor>(run, cx, op, M, e, f, v, u, st);
                    ctxprod_case<ShuffleTensor, FreeTensor>(run, cx, op, M, e, f, v, u, st);
                    ctxprod_case<ShuffleTensor, ShuffleTensor>(run, cx, op, M, e, f, v, u, st);
                } else if (op == 3) ctxprod_case<FreeTensor, ShuffleTensor>(run, cx, op, M, e, f, v, u, st);
                else ctxprod_case<ShuffleTensor, ShuffleTensor>(run, cx, op, M, e, f, v, u, st);
                run.dim(cat(opname[op], " ", cx.name()));
            }
        };
        if (s.pat) { go(pat, pat, true, 0); go(pat, pat, false, 1); go(pat, pat, false, 2); }
        if (s.pairs_basis) go(bas, bas, false, 0);
        if (s.basis) { go(bas, pat, false, 2); go(pat, bas, false, 2); }
    }
}

// ----------------------------------------------------------- Lie <-> tensor, CBH
void lmaps(Run& run)
{
    struct S { int w, d; Kind k; };
    std::vector<S> sp = {{1, 2, KQ}, {2, 1, KQ}, {2, 2, KQ}, {2, 3, KQ}, {2, 4, KQ}, {2, 5, KQ}, {3, 2, KQ}, {3, 3, KQ}, {4, 2, KQ}, {2, 4, KD}, {3, 3, KD}, {2, 3, KF}, {2, 3, KP}, {5, 2, KD}};
    if (run.thorough()) { sp.push_back({2, 6, KQ}); sp.push_back({3, 4, KQ}); sp.push_back({4, 3, KQ}); sp.push_back({5, 3, KD}); sp.push_back({2, 7, KD}); }
    for (auto& s : sp) {
        Cx cx(s.w, s.d, s.k);
        auto es = elements<Lie>(cx, true, true, true);
        for (auto& e : es) for (auto v : VT) for (int st = 0; st < 3; ++st) {
            if (!run.mine()) continue;
            auto what = [&] { return cat("lie_to_tensor/tensor_to_lie ", cx.name(), " ", vname(v), "/", st, " x=", show(e)); };
            run.at(cat("lmaps | ", what()));
            run.state();
            run.dim(cat("lie_to_tensor ", cx.name()));
            Lie l = build<Lie>(cx, e, v, st);
            std::string K = cat("lmaps:", kname(cx.k), ":", vname(v), ":");
            FreeTensor t = cx.c->lie_to_tensor(l);
            agree(run, cx, t, [&](int x) { return cx.L.to_tensor(e.at(x)); }, K + "l2t", what);
            Lie back = cx.c->tensor_to_lie(t);
            agree(run, cx, back, [&](int x) { return e.at(x); }, K + "t2l-l2t", what, 1);
            agree(run, cx, l, [&](int x) { return e.at(x); }, K + "const", what, 0, false);
            run.step(2);
        }
        // Dynkin projection of arbitrary tensors
        auto ts = elements<FreeTensor>(cx, true, true, cx.T.dim() < 64);
        for (auto& e : ts) for (auto v : VT) for (int st = 0; st < 3; st += 2) {
            if (!run.mine()) continue;
            auto what = [&] { return cat("tensor_to_lie ", cx.name(), " ", vname(v), "/", st, " t=", show(e)); };
            run.at(cat("t2l | ", what()));
            run.state();
            run.dim(cat("tensor_to_lie ", cx.name()));
            FreeTensor t = build<FreeTensor>(cx, e, v, st);
            std::string K = cat("lmaps:", kname(cx.k), ":", vname(v), ":");
            agree(run, cx, cx.c->tensor_to_lie(t), [&](int x) { return cx.L.dynkin(e.at(x)); }, K + "t2l", what, maxabs(e.a));
        }
        // maps are homomorphisms for the library's own products
        auto pat = elements<Lie>(cx, cx.L.dim() <= 14, true, false);
        for (auto& e : pat) for (auto& f : pat) for (auto v : VT) {
            if (!run.mine()) continue;
            auto what = [&] { return cat("lie_to_tensor([x,y]) ", cx.name(), " ", vname(v), " x=", show(e), " y=", show(f)); };
            run.at(cat("hom | ", what()));
            run.state();
            Lie a = build<Lie>(cx, e, v, 0), b = build<Lie>(cx, f, v, 2);
            FreeTensor x = cx.c->lie_to_tensor(a), y = cx.c->lie_to_tensor(b);
            FreeTensor c = x.mul(y).sub(y.mul(x));
            FreeTensor h = cx.c->lie_to_tensor(a.mul(b));
            std::string K = cat("lmaps:", kname(cx.k), ":", vname(v), ":hom");
            for (int p : cx.points()) {
                Vec g1 = observe(run, cx, h, p, K, what, false), g2 = observe(run, cx, c, p, K, what, false);
                Q sc = maxabs(e.a) * maxabs(f.a) * 8;
                bool ok = true;
                for (size_t i = 0; i < g1.size(); ++i) ok = ok && close(g1[i], g2[i], cx.k, sc);
                run.check(ok, K, what);
            }
            run.dim(cat("bracket homomorphism ", cx.name()));
        }
    }
}

static std::vector<El> small_lies(const Cx& cx)
{
    // letters, single higher brackets, generic elements per set of degrees
    auto all = elements<Lie>(cx, true, true, false);
    if (all.size() <= 14) return all;
    std::vector<El> r(all.begin(), all.begin() + 1 + cx.w + (cx.d > 1 ? 1 : 0));
    size_t p0 = 1 + cx.L.dim();
    for (size_t i = p0; i < all.size() && r.size() < 12; i += std::max<size_t>(1, (all.size() - p0) / 6)) r.push_back(all[i]);
    return r;
}


// signature of a stream of rows (dense or keyed), through the context
template <typename F>
void sigrows(Run& run, Cx& cx, const std::vector<El>& es, const std::vector<int>& ix, VectorType v, int fmt,
             std::map<int, Vec>& sig, std::map<int, Vec>& want, const Q& sc, const F& what, const std::string& K)
{
    size_t n = cx.L.dim();
    auto go = [&](auto tag, auto conv) {
        using T = decltype(tag);
        std::vector<std::vector<T>> rows;
        std::vector<std::vector<key_type>> keys;
        for (int i : ix) {
            std::vector<T> r;
            std::vector<key_type> k;
            for (size_t j = 0; j < n; ++j)
                if (fmt == 0 || !es[i].zero_at(j)) { r.push_back(conv(es[i], j)); k.push_back(j); }
            if (r.empty()) { r.push_back(conv(es[i], 0)); k.push_back(0); }
            rows.push_back(r);
            keys.push_back(k);
        }
        scalars::KeyScalarStream ks(stype(cx.k));
        for (size_t i = 0; i < rows.size(); ++i)
            ks.push_back(scalars::ScalarArray(stype(cx.k), (const void*) rows[i].data(), rows[i].size()),
                         fmt ? keys[i].data() : nullptr);
        SignatureData sd{ks, v};
        auto w2 = [&] { return what() + (fmt ? " as keyed rows" : " as dense rows"); };
        agree(run, cx, cx.c->signature(sd), [&](int p) { return sig[p]; }, K + (fmt ? "signature-keyed" : "signature-dense"), w2, sc);
        agree(run, cx, cx.c->log_signature(sd), [&](int p) { return want[p]; }, K + (fmt ? "logsig-keyed" : "logsig-dense"), w2, sc);
    };
    switch (cx.k) {
        case KD: go(double(), [](const El& e, size_t j) { return q2d(e.a[j]); }); break;
        case KF: go(float(), [](const El& e, size_t j) { return float(q2d(e.a[j])); }); break;
        case KQ: go(mpq(), [](const El& e, size_t j) { return q2m(e.a[j]); }); break;
        default: go(rpoly(), [](const El& e, size_t j) { return mkpoly(e.a[j], e.b[j]); });
    }
}

void cbh(Run& run)
{
    struct S { int w, d; Kind k; int n; };
    std::vector<S> sp = {{1, 2, KQ, 3}, {2, 1, KQ, 3}, {2, 2, KQ, 3}, {2, 3, KQ, 3}, {2, 4, KQ, 2}, {2, 5, KQ, 2}, {3, 2, KQ, 2}, {3, 3, KQ, 2}, {2, 3, KD, 2}, {3, 3, KD, 2}, {2, 3, KF, 2}, {2, 2, KP, 2}};
    if (run.thorough()) { sp = {{1, 3, KQ, 4}, {2, 2, KQ, 4}, {2, 3, KQ, 3}, {2, 4, KQ, 3}, {2, 6, KQ, 2}, {3, 3, KQ, 3}, {3, 4, KQ, 2}, {4, 3, KQ, 2}, {2, 4, KD, 3}, {3, 4, KD, 2}, {2, 3, KF, 3}, {2, 3, KP, 2}}; }
    for (auto& s : sp) {
        Cx cx(s.w, s.d, s.k);
        auto es = small_lies(cx);
        std::map<int, std::vector<Vec>> ex;
        for (int p : cx.points()) for (auto& e : es) ex[p].push_back(cx.T.exp(cx.L.to_tensor(e.at(p))));
        for (int n = 0; n <= s.n; ++n) {
            std::vector<int> ix(n, 0);
            for (;;) {
                if (run.mine()) {
                    std::string seq;
                    for (int i : ix) seq += " " + show(es[i]);
                    run.dim(cat("cbh ", n, " ", cx.name()));
                    std::map<int, Vec> want;
                    std::map<int, Vec> sig;
                    Q sc = 1;
                    for (int p : cx.points()) {
                        Vec t = cx.T.unit();
                        for (int i : ix) t = cx.T.mul(t, ex[p][i]);
                        sig[p] = t;
                        sc = std::max(sc, Q(maxabs(t)));
                        bool ok;
                        want[p] = cx.L.from_lie_tensor(cx.T.log(t), &ok);
                        if (!ok) run.viol("model", "log of product of exponentials is not Lie: " + seq);
                    }
                    for (auto v : VT) {
                        auto what = [&] { return cat("cbh ", cx.name(), " ", vname(v), " of", seq); };
                        run.at(cat("cbh | ", what()));
                        run.state();
                        std::vector<Lie> ls;
                        std::vector<const Lie*> lp;
                        for (int i : ix) ls.push_back(build<Lie>(cx, es[i], v, i % 3));
                        for (auto& l : ls) lp.push_back(&l);
                        std::string K = cat("cbh:", kname(cx.k), ":", vname(v), ":");
                        agree(run, cx, cx.c->cbh(ls, v), [&](int p) { return want[p]; }, K + "vector", what, sc);
                        if (n) agree(run, cx, cx.c->cbh(Slice<const Lie*>(lp), v), [&](int p) { return want[p]; }, K + "slice", what, sc);
                        if (n == 2) agree(run, cx, cx.c->cbh(ls[0], ls[1], v), [&](int p) { return want[p]; }, K + "pair", what, sc);
                        if (n == 1) agree(run, cx, cx.c->to_signature(ls[0]), [&](int p) { return sig[p]; }, K + "to_signature", what, sc);
                        for (int i = 0; i < n; ++i)
                            agree(run, cx, ls[i], [&](int p) { return es[ix[i]].at(p); }, K + "const", what, 0, false);
                        // signature of the rows, computed by the context
                        if (n) {
                            for (int fmt = 0; fmt < 2; ++fmt) sigrows(run, cx, es, ix, v, fmt, sig, want, sc, what, K);
                        }
                        run.step(2);
                    }
                }
                int j = n - 1;
                while (j >= 0 && ++ix[j] == int(es.size())) ix[j--] = 0;
                if (j < 0) break;
            }
        }
    }
}

// ------------------------------------------------------------------- conversions
template <typename Alg>
void convert_pair(Run& run, Cx& src, Cx& dst, const std::vector<El>& es)
{
    size_t n = dst.dim<Alg>();
    for (auto& e : es) for (auto v : VT) for (int t = 0; t < 3; ++t) {
        if (!run.mine()) continue;
        auto what = [&] { return cat("convert ", AlgT<Alg>::name(), " ", src.name(), " ", vname(v), " -> ", dst.name(), " ", t == 2 ? "same" : vname(VT[t]), " a=", show(e)); };
        run.at(cat("convert | ", what()));
        run.state();
        run.dim(cat("convert ", AlgT<Alg>::name(), " ", src.name(), "->", dst.name()));
        std::string K = cat("convert:", AlgT<Alg>::name(), ":", kname(src.k), ">", kname(dst.k), ":", dst.d < src.d ? "lower" : dst.d > src.d ? "higher" : "same", ":", vname(v));
        Alg a = build<Alg>(src, e, v, 0);
        optional<VectorType> ov;
        if (t < 2) ov = VT[t];
        Vec want = e.a;
        want.resize(n);
        Alg r = dst.c->convert(a, ov);
        agree(run, dst, r, [&](int) { return want; }, K, what, src.k == KF ? maxabs(want) : Q(0));
        run.check(r.context() == dst.c, K + ":ctx", what);
        run.check(r.storage_type() == (t < 2 ? VT[t] : v), K + ":storage", what);
        agree(run, src, a, [&](int x) { return e.at(x); }, K + ":const", what, 0, false);
    }
}


// element built from an array of type `from` (dense, keyed in any order, short)
template <typename Alg>
void cons(Run& run, Cx& cx)
{
    size_t n = cx.dim<Alg>();
    Vec val(n);
    for (size_t i = 0; i < n; ++i) val[i] = Q(int(i * 5 % 7) - 3, (i % 2) ? 2 : 1);
    for (int from = 0; from < 6; ++from) for (auto v : VT) for (size_t len = 0; len <= n; ++len) for (int fmt = 0; fmt < 3; ++fmt) {
        if (!run.mine()) continue;
        if (len > 8 && len % 5 && len != n) continue;
        static const char* fn[] = {"double", "float", "rational", "int32", "int64", "int8"};
        static const char* ff[] = {"dense", "keyed", "keyed descending"};
        auto what = [&] { return cat("construct ", AlgT<Alg>::name(), " ", cx.name(), " ", vname(v), " from ", len, " ", fn[from], " ", ff[fmt]); };
        run.at(cat("construct | ", what()));
        run.state();
        run.dim(cat("construct ", AlgT<Alg>::name(), " ", cx.name()));
        std::vector<size_t> ix;
        std::vector<key_type> keys;
        for (size_t i = 0; i < len; ++i) ix.push_back(fmt == 2 ? n - 1 - i : i);
        for (auto i : ix) keys.push_back(i);
        Vec want(n);
        auto go = [&](auto tag, const scalars::ScalarType* st, auto conv) {
            using T = decltype(tag);
            std::vector<T> data;
            for (auto i : ix) { Q q = from >= 3 ? Q(val[i] * 2) : val[i]; want[i] = q; data.push_back(conv(q)); }
            if (data.empty()) return AlgT<Alg>::zero(*cx.c, v);
            scalars::ScalarArray sa(st, (const void*) data.data(), data.size());
            VectorConstructionData d{fmt ? scalars::KeyScalarArray(std::move(sa), keys.data()) : scalars::KeyScalarArray(std::move(sa)), v};
            return AlgT<Alg>::make(*cx.c, d);
        };
        auto goi = [&](auto tag) {
            using T = decltype(tag);
            std::vector<T> data;
            for (auto i : ix) { Q q = val[i] * 2; want[i] = q; data.push_back(T(q2d(q))); }
            if (data.empty()) return AlgT<Alg>::zero(*cx.c, v);
            scalars::ScalarArray sa(devices::type_info<T>(), (const void*) data.data(), data.size());
            VectorConstructionData d{fmt ? scalars::KeyScalarArray(std::move(sa), keys.data()) : scalars::KeyScalarArray(std::move(sa)), v};
            return AlgT<Alg>::make(*cx.c, d);
        };
        Alg a = from == 0 ? go(double(), stype(KD), [](const Q& q) { return q2d(q); })
              : from == 1 ? go(float(), stype(KF), [](const Q& q) { return float(q2d(q)); })
              : from == 2 ? go(mpq(), stype(KQ), [](const Q& q) { return q2m(q); })
              : from == 3 ? goi(int32_t()) : from == 4 ? goi(int64_t()) : goi(int8_t());
        std::string K = cat("construct:", AlgT<Alg>::name(), ":", kname(cx.k), ":", fn[from], ":", fmt ? "keyed" : "dense");
        agree(run, cx, a, [&](int) { return want; }, K, what);
        run.check(a.storage_type() == v, K + ":storage", what);
    }
}

void convert(Run& run)
{
    std::vector<Kind> ks = {KD, KF, KQ};
    struct WD { int w, d; };
    std::vector<std::pair<int, std::vector<int>>> fam = {{2, {1, 2, 3}}, {3, {1, 2}}};
    if (run.thorough()) fam = {{1, {1, 2, 4}}, {2, {1, 2, 3, 4, 5}}, {3, {1, 2, 3}}, {4, {1, 2}}};
    for (auto& f : fam)
        for (int d1 : f.second) for (int d2 : f.second) for (Kind k1 : ks) for (Kind k2 : ks) {
            Cx a(f.first, d1, k1), b(f.first, d2, k2);
            convert_pair<FreeTensor>(run, a, b, elements<FreeTensor>(a, true, true, a.T.dim() < 20));
            convert_pair<ShuffleTensor>(run, a, b, elements<ShuffleTensor>(a, true, true, false));
            convert_pair<Lie>(run, a, b, elements<Lie>(a, true, true, true));
        }
    // construction from data of another scalar type, in every layout
    for (auto& f : fam)
        for (int d : f.second) for (Kind k2 : ks) {
            Cx cx(f.first, d, k2);
            cons<FreeTensor>(run, cx);
            cons<ShuffleTensor>(run, cx);
            cons<Lie>(run, cx);
        }
}

// -------------------------------------------------------- histories of operations
template <typename Alg>
struct Hist {
    Run& run;
    Cx& cx;
    Prod<Alg>& P;
    std::string nm;
    int depth;
    VectorType v, u;
    std::vector<int> path;
    El s0x, s0y;
    Q s = Q(3, 2);
    Scalar sc, sc0, one;
    static constexpr int NOPS = 17;
    struct M { Vec x, y; };
    std::string hist()
    {
        static const char* n[] = {"X+=Y", "X-=Y", "X*=Y", "Y*=X", "X*=3/2", "X/=3/2", "X=-X", "X=Y", "swap", "X[first]=1", "X[last]=-2",
                                  "X+=X", "X+=X*Y", "X*=0", "borrow(X)+=Y", "X-=Y*3/2", "X[last]=0"};
        std::string r = cat(AlgT<Alg>::name(), " ", cx.name(), " X:", vname(v), " Y:", vname(u), " from X=", show(s0x), " Y=", show(s0y), ":");
        for (int o : path) r += std::string(" ") + n[o] + ";";
        return r;
    }
    Hist(Run& r, Cx& c, Prod<Alg>& p, const std::string& n, int d)
        : run(r), cx(c), P(p), nm(n), depth(d), sc(mkscalar(c.k, Q(3, 2))), sc0(mkscalar(c.k, 0)), one(mkscalar(c.k, 1)) {}
    void go(const Alg& X, const Alg& Y, const M& m, int left)
    {
        size_t n = cx.dim<Alg>();
        constexpr long off = AlgT<Alg>::keyoff;
        for (int op = 0; op < NOPS; ++op) {
            if (path.size() == 1 && !run.mine()) continue;
            path.push_back(op);
            if (path.size() > 1 || run.shard == 0) {
                run.at(cat(nm, " | ", hist()));
                run.state();
            }
            Alg x(X), y(Y);
            M k = m;
            switch (op) {
                case 0: x.add_inplace(y); k.x = lin(k.x, 1, k.y, 1); break;
                case 1: x.sub_inplace(y); k.x = lin(k.x, 1, k.y, -1); break;
                case 2: x.mul_inplace(y); k.x = P(k.x, k.y); break;
                case 3: y.mul_inplace(x); k.y = P(k.y, k.x); break;
                case 4: x.smul_inplace(sc); k.x = scl(k.x, s); break;
                case 5: x.sdiv_inplace(sc); k.x = scl(k.x, 1 / s); break;
                case 6: x = x.uminus(); k.x = scl(k.x, -1); break;
                case 7: x = y; k.x = k.y; break;
                case 8: { Alg t(std::move(x)); x = std::move(y); y = std::move(t); std::swap(k.x, k.y); break; }
                case 9: x[typename Alg::key_type(off)] = one; k.x[0] = 1; break;
                case 10: x[typename Alg::key_type(n - 1 + off)] = mkscalar(cx.k, -2); k.x[n - 1] = -2; break;
                case 11: x.add_inplace(x); k.x = scl(k.x, 2); break;
                case 12: x.add_mul(x, y); k.x = lin(k.x, 1, P(m.x, m.y), 1); break;
                case 13: x.smul_inplace(sc0); k.x = Vec(n); break;
                case 14: { Alg b = x.borrow_mut(); b.add_inplace(y); k.x = lin(k.x, 1, k.y, 1); break; }
                case 15: x.sub_scal_mul(y, sc); k.x = lin(k.x, 1, k.y, -s); break;
                case 16: x[typename Alg::key_type(n - 1 + off)] = sc0; k.x[n - 1] = 0; break;
            }
            auto what = [&] { return hist(); };
            if (path.size() > 1 || run.shard == 0) {
                std::string K = cat(nm, ":", kname(cx.k), ":", vname(v), "x", vname(u), ":op", op);
                bool ok = agree(run, cx, x, [&](int) { return k.x; }, K + ":X", what);
                ok = agree(run, cx, y, [&](int) { return k.y; }, K + ":Y", what) && ok;
                agree(run, cx, X, [&](int) { return m.x; }, K + ":source-of-copy", what, 0, false);
                // an element of the same value built from scratch is equal to it
                if (cx.k == KQ) {
                    El e; e.a = k.x;
                    Alg f = build<Alg>(cx, e, x.storage_type(), 0);
                    run.check(f == x && x == f, K + ":eq-rebuilt", [&] { return "== with an element rebuilt from its coefficients: " + hist(); });
                }
                if (ok && left > 1) go(x, y, k, left - 1);
            } else if (left > 1) go(x, y, k, left - 1);
            path.pop_back();
        }
    }
};

template <typename Alg>
void history(Run& run, const std::string& nm, const std::vector<Space>& sp, int depth)
{
    for (auto& s : sp) {
        Cx cx(s.w, s.d, s.k);
        Prod<Alg> P(cx);
        size_t n = cx.dim<Alg>();
        El z; z.a = Vec(n);
        El a = z, b = z;
        a.a[0] = 2; if (n > 1) a.a[1] = -1;
        for (size_t i = 0; i < n; ++i) b.a[i] = Q(int(i % 3) + 1, i % 2 + 1) * (i % 4 == 2 ? -1 : 1);
        El lo = z; lo.a[0] = 1;
        std::vector<std::pair<El, El>> starts = {{z, b}, {a, b}, {b, a}, {lo, z}};
        for (auto& st : starts) for (auto v : VT) for (auto u : VT) {
            Hist<Alg> h(run, cx, P, nm, depth);
            h.v = v; h.u = u; h.s0x = st.first; h.s0y = st.second;
            Alg X = build<Alg>(cx, st.first, v, 0), Y = build<Alg>(cx, st.second, u, 0);
            h.go(X, Y, {st.first.a, st.second.a}, depth);
            run.dim(cat("histories ", AlgT<Alg>::name(), " ", cx.name(), " depth ", depth), run.shard == 0);
        }
    }
}

// --------------------------------------------------------------------------- bases
void bases(Run& run)
{
    std::vector<std::pair<int, int>> wd;
    for (int w = 1; w <= (run.thorough() ? 8 : 5); ++w)
        for (int d = 1; d <= (run.thorough() ? 9 : 6); ++d) {
            double dim = std::pow(w, d);
            if (dim > (run.thorough() ? 20000 : 1100)) continue;
            wd.push_back({w, d});
        }
    for (auto& p : wd) {
        if (!run.mine()) continue;
        int w = p.first, d = p.second;
        std::string nm = cat("w", w, "d", d);
        run.at("bases | " + nm);
        context_pointer c = get_context(w, d, stype(KD));
        mdl::Tensors T(w, d);
        TensorBasis tb = c->get_tensor_basis();
        auto W = [&](const std::string& m) { return [=] { return nm + " " + m; }; };
        run.check(c->width() == w && c->depth() == d, "ctx:wd", W("context width/depth"));
        run.check(tb.width() == w && tb.depth() == d, "tensor:wd", W("tensor basis width/depth"));
        run.check(tb.dimension() == T.dim(), "tensor:dimension", W(cat("tensor basis dimension ", tb.dimension())));
        for (int n = 0; n <= d; ++n) {
            run.check(c->tensor_size(n) == T.dim(n), "ctx:tensor_size", W(cat("tensor_size(", n, ")=", c->tensor_size(n))));
            run.check(size_t(tb.size(n)) == T.dim(n), "tensor:size", W(cat("tensor basis size(", n, ")=", tb.size(n))));
            run.check(tb.start_of_degree(n) == T.start[n], "tensor:start", W(cat("start_of_degree(", n, ")=", tb.start_of_degree(n))));
        }
        run.check(c->tensor_size(-1) == T.dim(), "ctx:tensor_size-all", W("tensor_size(-1)"));
        std::set<key_type> seen;
        std::set<std::string> names;
        for (size_t i = 0; i < T.dim(); ++i) {
            run.state();
            auto key = tb.index_to_key(i);
            mdl::Word u = T.word(i);
            auto D = [&](const std::string& m) { return [=] { std::string s; for (int a : u) s += cat(a, ","); return cat(nm, " tensor index ", i, " word (", s, ") key ", key, ": ", m); }; };
            run.check(seen.insert(key).second, "tensor:key-unique", D("duplicate key"));
            run.check(tb.key_to_index(key) == i, "tensor:k2i", D(cat("key_to_index=", tb.key_to_index(key))));
            run.check(size_t(tb.degree(key)) == u.size(), "tensor:degree", D(cat("degree=", tb.degree(key))));
            std::string ex;
            for (int a : u) ex += (ex.empty() ? "" : ",") + std::to_string(a);
            std::string got = tb.key_to_string(key);
            run.check(got == ex, "tensor:string", D("string " + got));
            run.check(tb.letter(key) == (u.size() == 1), "tensor:letter", D("letter()"));
            if (!u.empty()) run.check(int(tb.first_letter(key)) == u[0], "tensor:first", D("first_letter"));
            if (u.size() == 1) {
                run.check(int(tb.to_letter(key)) == u[0], "tensor:to_letter", D("to_letter"));
                run.check(tb.key_of_letter(u[0]) == key, "tensor:key_of_letter", D("key_of_letter"));
            }
            if (u.size() >= 2) {
                auto lp = tb.lparent(key), rp = tb.rparent(key);
                mdl::Word tail(u.begin() + 1, u.end());
                run.check(lp && tb.key_to_index(*lp) == T.index({u[0]}), "tensor:lparent", D("lparent"));
                run.check(rp && tb.key_to_index(*rp) == T.index(tail), "tensor:rparent", D("rparent"));
                if (lp && rp) {
                    auto ch = tb.child(*lp, *rp);
                    run.check(ch && *ch == key, "tensor:child", D("child(parents)"));
                }
            }
        }
        run.dim("tensor basis " + nm, T.dim());
        if (T.dim() > 1500 && w < 8) { if (std::pow(w, d) / d > 1200) continue; }
        mdl::Lies* Lp = nullptr;
        // Hall basis without the expansion solver: parents only
        std::vector<std::pair<int, int>> hall;
        std::vector<int> deg;
        std::vector<size_t> start(d + 2, 0);
        for (int a = 1; a <= w; ++a) { hall.push_back({0, a}); deg.push_back(1); }
        start[1] = 0; start[2] = hall.size();
        for (int n = 2; n <= d; ++n) {
            for (int e = 1; 2 * e <= n; ++e)
                for (size_t i = start[e]; i < start[e + 1]; ++i)
                    for (size_t j = std::max(start[n - e], i + 1); j < start[n - e + 1]; ++j)
                        if (hall[j].first <= int(i) + 1) { hall.push_back({int(i) + 1, int(j) + 1}); deg.push_back(n); }
            start[n + 1] = hall.size();
        }
        (void) Lp;
        // Witt's formula for the dimensions, independent of the enumeration
        size_t tot = 0;
        auto mob = [](int n) { int r = 1; for (int q = 2; q <= n; ++q) if (n % q == 0) { n /= q; if (n % q == 0) return 0; r = -r; } return r; };
        LieBasis lb = c->get_lie_basis();
        run.check(lb.width() == w && lb.depth() == d, "lie:wd", W("lie basis width/depth"));
        for (int n = 1; n <= d; ++n) {
            long long sum = 0;
            for (int q = 1; q <= n; ++q) if (n % q == 0) sum += mob(q) * (long long) std::llround(std::pow(w, n / q));
            tot += sum / n;
            run.check(tot == start[n + 1], "model:witt", W("model Hall set disagrees with Witt"));
            run.check(c->lie_size(n) == tot, "ctx:lie_size", W(cat("lie_size(", n, ")=", c->lie_size(n), " expected ", tot)));
            run.check(size_t(lb.size(n)) == tot, "lie:size", W(cat("lie basis size(", n, ")=", lb.size(n))));
        }
        run.check(lb.dimension() == tot, "lie:dimension", W(cat("lie basis dimension ", lb.dimension())));
        run.check(c->lie_size(-1) == tot, "ctx:lie_size-all", W("lie_size(-1)"));
        std::vector<std::string> str(hall.size());
        std::set<key_type> ls;
        for (size_t i = 0; i < hall.size(); ++i) {
            run.state();
            auto key = lb.index_to_key(i);
            auto D = [&](const std::string& m) { return [=] { return cat(nm, " lie index ", i, " key ", key, ": ", m); }; };
            run.check(ls.insert(key).second, "lie:key-unique", D("duplicate key"));
            run.check(key == i + 1, "lie:key", D("key is not index+1"));
            run.check(lb.key_to_index(key) == i, "lie:k2i", D("key_to_index"));
            run.check(int(lb.degree(key)) == deg[i], "lie:degree", D(cat("degree ", lb.degree(key))));
            bool let = hall[i].first == 0;
            run.check(lb.letter(key) == let, "lie:letter", D("letter()"));
            str[i] = let ? std::to_string(hall[i].second) : cat("[", str[hall[i].first - 1], ",", str[hall[i].second - 1], "]");
            run.check(lb.key_to_string(key) == str[i], "lie:string", D("string " + lb.key_to_string(key) + " expected " + str[i]));
            if (let) {
                run.check(int(lb.to_letter(key)) == hall[i].second, "lie:to_letter", D("to_letter"));
                run.check(lb.key_of_letter(hall[i].second) == key, "lie:key_of_letter", D("key_of_letter"));
            } else {
                auto lp = lb.lparent(key), rp = lb.rparent(key);
                run.check(lp && int(*lp) == hall[i].first, "lie:lparent", D("lparent"));
                run.check(rp && int(*rp) == hall[i].second, "lie:rparent", D("rparent"));
                if (lp && rp) {
                    auto ch = lb.child(*lp, *rp);
                    run.check(ch && *ch == key, "lie:child", D("child(parents)"));
                }
            }
        }
        run.dim("lie basis " + nm, hall.size());
    }
}

// -------------------- answers do not depend on which contexts were used before
#include <sys/wait.h>
static void warm(Run& run, int w, int d, Kind k)
{
    // every basis product and both maps in one context, compared with the model
    Cx cx(w, d, k);
    std::string K = "ctxhist:";
    size_t n = cx.L.dim(), N = cx.T.dim();
    auto what = [&] { return cx.name(); };
    std::vector<Lie> lb;
    std::vector<ShuffleTensor> sb;
    auto unit = [](size_t m, size_t i) { El e; e.a = Vec(m); e.a[i] = 1; return e; };
    for (size_t i = 0; i < n; ++i) lb.push_back(build<Lie>(cx, unit(n, i), VT[i % 2]));
    for (size_t i = 0; i < N; ++i) sb.push_back(build<ShuffleTensor>(cx, unit(N, i), VT[(i + 1) % 2]));
    for (size_t i = 0; i < n; ++i) {
        agree(run, cx, cx.c->lie_to_tensor(lb[i]), [&](int) { return cx.L.expand[i]; }, K + "l2t", what, 0, false);
        for (size_t j = 0; j < n; ++j)
            agree(run, cx, lb[i].mul(lb[j]), [&](int) { return cx.L.bracket(unit(n, i).a, unit(n, j).a); }, K + "bracket", what, 0, false);
    }
    for (size_t i = 0; i < N; ++i) {
        FreeTensor t = build<FreeTensor>(cx, unit(N, i), VT[i % 2]);
        agree(run, cx, cx.c->tensor_to_lie(t), [&](int) { return cx.L.dynkin(unit(N, i).a); }, K + "t2l", what, 0, false);
        for (size_t j = 0; j < N; ++j) {
            if (cx.T.degree(i) + cx.T.degree(j) > d + 1) continue;
            agree(run, cx, sb[i].mul(sb[j]), [&](int) { return cx.T.shuffle(unit(N, i).a, unit(N, j).a); }, K + "shuffle", what, 0, false);
            agree(run, cx, ctxmul<ShuffleTensor>(*cx.c, sb[i], sb[j], 2), [&](int) { return cx.T.half_shuffle(unit(N, i).a, unit(N, j).a); }, K + "half_shuffle", what, 0, false);
        }
        run.step(N);
    }
}
void ctxhist(Run& run)
{
    struct C { int w, d; Kind k; };
    std::vector<C> cs = {{2, 1, KQ}, {2, 2, KD}, {2, 3, KQ}, {3, 2, KQ}, {2, 4, KQ}};
    int len = 3;
    if (run.thorough()) { cs.push_back({3, 3, KD}); cs.push_back({2, 3, KD}); len = 4; }
    std::vector<int> seq;
    std::function<void()> rec = [&] {
        if (int(seq.size()) == len) {
            if (!run.mine()) return;
            std::string nm;
            for (int i : seq) nm += cat(" w", cs[i].w, "d", cs[i].d, kname(cs[i].k));
            run.at("ctxhist | contexts used in order:" + nm);
            run.state(1);
            int fd[2];
            if (pipe(fd)) return;
            pid_t pid = fork();
            if (pid == 0) {
                close(fd[0]);
                char* av[] = {(char*) "x", nullptr};
                Run sub(1, av);
                for (int i : seq) warm(sub, cs[i].w, cs[i].d, cs[i].k);
                std::string o = cat(sub.traces, "\n", sub.transitions, "\n");
                for (auto& v : sub.viols) o += v.key + "\t" + v.detail + "\n";
                o = o.substr(0, 60000);
                ssize_t z = write(fd[1], o.data(), o.size());
                (void) z;
                _exit(0);
            }
            close(fd[1]);
            std::string o;
            char b[4096];
            ssize_t r;
            while ((r = read(fd[0], b, sizeof b)) > 0) o.append(b, r);
            close(fd[0]);
            int st = 0;
            waitpid(pid, &st, 0);
            if (!WIFEXITED(st) || WEXITSTATUS(st)) run.viol("ctxhist:crash", "process died using contexts in order:" + nm);
            std::istringstream is(o);
            std::string line;
            std::getline(is, line); run.traces += atoll(line.c_str());
            std::getline(is, line); run.transitions += atoll(line.c_str());
            while (std::getline(is, line)) {
                auto t = line.find('\t');
                run.viol(line.substr(0, t), "contexts used in order:" + nm + ": " + line.substr(t + 1));
            }
            run.dim("context-use orders");
            return;
        }
        for (size_t i = 0; i < cs.size(); ++i) {
            bool dup = false;
            for (int j : seq) dup = dup || j == int(i);
            if (dup) continue;
            seq.push_back(i);
            rec();
            seq.pop_back();
        }
    };
    rec();
}

int main(int argc, char** argv)
{
    Run run(argc, argv);
    std::string mode;
    for (int i = 1; i < argc; ++i) if (std::string(argv[i]) == "--mode") mode = argv[i + 1];
    bool T = run.thorough();
    if (mode == "free") {
        std::vector<Space> sp = {{1, 3, KQ, 1, 1, 1, 1}, {2, 1, KQ, 1, 1, 1, 1}, {2, 2, KQ, 1, 1, 1, 1}, {2, 3, KQ, 1, 1, 0, 1}, {2, 4, KQ, 1, 1, 0, 0}, {3, 2, KQ, 1, 1, 1, 1},
                                 {2, 2, KD, 1, 1, 1, 1}, {2, 3, KD, 1, 1, 0, 1}, {3, 3, KD, 1, 1, 0, 1}, {2, 2, KF, 1, 1, 1, 0}, {2, 2, KP, 1, 1, 0, 1}, {2, 5, KD, 1, 1, 0, 0}, {2, 6, KD, 1, 0, 0, 0}, {4, 2, KD, 1, 1, 0, 1}};
        if (T) { sp.push_back({2, 5, KQ, 1, 1, 0, 1}); sp.push_back({3, 3, KQ, 1, 1, 1, 1}); sp.push_back({2, 6, KD, 1, 1, 0, 0}); sp.push_back({2, 7, KD, 1, 0, 0, 0}); sp.push_back({4, 3, KD, 1, 1, 0, 1}); sp.push_back({2, 3, KP, 1, 1, 0, 0}); sp.push_back({3, 4, KD, 1, 1, 0, 0}); }
        ring<FreeTensor>(run, sp, "free");
        ctxprod(run, 0, {{2, 2, KQ, 1, 1, 0, 1}, {2, 3, KD, 0, 1, 0, 0}, {3, 2, KQ, 0, 1, 0, 0}});
    } else if (mode == "shuffle") {
        std::vector<Space> sp = {{1, 3, KQ, 1, 1, 1, 1}, {2, 1, KQ, 1, 1, 1, 1}, {2, 2, KQ, 1, 1, 1, 1}, {2, 3, KQ, 1, 1, 0, 1}, {3, 2, KQ, 1, 1, 0, 1}, {2, 2, KD, 1, 1, 0, 1}, {2, 4, KD, 1, 1, 0, 1}, {3, 3, KD, 1, 1, 0, 0}, {2, 2, KF, 1, 1, 0, 0}, {2, 2, KP, 1, 1, 0, 0}};
        if (T) { sp.push_back({2, 4, KQ, 1, 1, 0, 1}); sp.push_back({3, 3, KQ, 1, 1, 0, 1}); sp.push_back({2, 5, KD, 1, 1, 0, 1}); sp.push_back({4, 2, KQ, 1, 1, 1, 1}); }
        ring<ShuffleTensor>(run, sp, "shuffle");
        std::vector<Space> cp = {{1, 3, KQ, 1, 1, 1, 1}, {2, 2, KQ, 1, 1, 1, 1}, {2, 3, KQ, 1, 1, 0, 1}, {2, 4, KD, 0, 1, 0, 1}, {3, 2, KD, 1, 1, 0, 1}, {2, 2, KF, 0, 1, 0, 0}, {2, 2, KP, 0, 1, 0, 0}};
        if (T) { cp.push_back({3, 3, KQ, 0, 1, 0, 1}); cp.push_back({2, 5, KD, 0, 1, 0, 1}); }
        ctxprod(run, 1, cp);
        ctxprod(run, 2, cp);
    } else if (mode == "lie") {
        std::vector<Space> sp = {{1, 2, KQ, 1, 1, 1, 1}, {2, 1, KQ, 1, 1, 1, 1}, {2, 2, KQ, 1, 1, 1, 1}, {2, 3, KQ, 1, 1, 1, 1}, {2, 4, KQ, 1, 1, 0, 1}, {2, 5, KQ, 1, 0, 0, 1}, {3, 2, KQ, 1, 1, 1, 1}, {3, 3, KQ, 1, 1, 0, 1}, {2, 3, KD, 1, 1, 1, 1}, {2, 4, KD, 1, 1, 0, 0}, {2, 3, KF, 1, 1, 0, 0}, {2, 3, KP, 1, 1, 0, 1}, {4, 2, KD, 1, 1, 0, 1}};
        if (T) { sp.push_back({2, 5, KQ, 1, 1, 0, 0}); sp.push_back({2, 6, KD, 1, 1, 0, 0}); sp.push_back({3, 4, KD, 1, 1, 0, 0}); sp.push_back({4, 3, KD, 1, 1, 0, 0}); sp.push_back({5, 2, KQ, 1, 1, 0, 1}); }
        ring<Lie>(run, sp, "lie");
        lmaps(run);
    } else if (mode == "explog") explog(run);
    else if (mode == "adjoint") {
        std::vector<Space> cp = {{1, 3, KQ, 1, 1, 1, 1}, {2, 1, KQ, 1, 1, 1, 1}, {2, 2, KQ, 1, 1, 1, 1}, {2, 3, KQ, 1, 1, 0, 1}, {2, 4, KD, 1, 1, 0, 1}, {3, 2, KD, 1, 1, 0, 1}, {3, 3, KD, 0, 1, 0, 1}, {2, 2, KF, 0, 1, 0, 0}, {2, 2, KP, 0, 1, 0, 0}};
        if (T) { cp.push_back({2, 5, KQ, 0, 1, 0, 1}); cp.push_back({3, 4, KD, 0, 1, 0, 0}); }
        ctxprod(run, 3, cp);
    } else if (mode == "cbh") cbh(run);
    else if (mode == "convert") convert(run);
    else if (mode == "bases") bases(run);
    else if (mode == "ctxhist") ctxhist(run);
    else if (mode == "history") {
        int d = T ? 5 : 4;
        history<FreeTensor>(run, "hist-free", {{2, 2, KQ}}, d - 1);
        history<ShuffleTensor>(run, "hist-shuffle", {{2, 2, KQ}}, d - 1);
        history<Lie>(run, "hist-lie", {{2, 3, KQ}}, d - 1);
        if (T) { history<FreeTensor>(run, "hist-free", {{2, 3, KD}, {3, 2, KQ}}, 4); history<Lie>(run, "hist-lie", {{3, 2, KD}}, 4); }
    } else return 3;
    return run.finish();
}
