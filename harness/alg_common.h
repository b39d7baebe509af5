// Bridges between the reference model and the algebra objects of the library.
#ifndef VH_ALG_COMMON_H
#define VH_ALG_COMMON_H
#include "vh.h"
#include "model.h"
#include <cmath>
#include <roughpy/algebra/context.h>
#include <roughpy/algebra/free_tensor.h>
#include <roughpy/algebra/shuffle_tensor.h>
#include <roughpy/algebra/lie.h>
#include <roughpy/algebra/algebra_iterator.h>
#include <roughpy/scalars/scalar.h>
#include <roughpy/scalars/scalar_type.h>
#include <roughpy/scalars/scalar_types.h>
#include <roughpy/scalars/scalar_array.h>
#include <roughpy/scalars/key_scalar_array.h>
#include <roughpy/scalars/key_scalar_stream.h>

using namespace rpy;
using namespace rpy::algebra;
using mdl::Q;
using mdl::Vec;
using mpq = rpy::devices::rational_scalar_type;
using rpoly = rpy::devices::rational_poly_scalar;

inline double q2d(const Q& q) { return q.convert_to<double>(); }
inline mpq q2m(const Q& q)
{
    return mpq(boost::multiprecision::numerator(q).str() + "/" + boost::multiprecision::denominator(q).str());
}
inline Q m2q(const mpq& m)
{
    return Q(boost::multiprecision::cpp_int(boost::multiprecision::numerator(m).str()),
             boost::multiprecision::cpp_int(boost::multiprecision::denominator(m).str()));
}

enum Kind { KD = 0, KF = 1, KQ = 2, KP = 3 };
inline const char* kname(Kind k) { static const char* n[] = {"double", "float", "rational", "poly"}; return n[k]; }
inline const scalars::ScalarType* stype(Kind k)
{
    switch (k) {
        case KD: return *scalars::ScalarType::of<double>();
        case KF: return *scalars::ScalarType::of<float>();
        case KQ: return *scalars::ScalarType::of<mpq>();
        default: return *scalars::ScalarType::of<rpoly>();
    }
}

// A coefficient c0 + c1*x, x the indeterminate of the polynomial ring (c1 is 0
// for the field types).
struct El {
    Vec a, b;
    Vec at(int x) const
    {
        Vec r = a;
        if (!b.empty()) for (size_t i = 0; i < r.size(); ++i) r[i] += b[i] * x;
        return r;
    }
    bool zero_at(size_t i) const { return a[i] == 0 && (b.empty() || b[i] == 0); }
};
inline lal::monomial mono_x() { return lal::monomial(lal::monomial::letter_type('x', 1)); }
inline rpoly mkpoly(const Q& a, const Q& b)
{
    rpoly p;
    if (a != 0) p[lal::monomial()] = q2m(a);
    if (b != 0) p[mono_x()] = q2m(b);
    return p;
}
inline Q evalpoly(const rpoly& p, int x)
{
    Q r = 0;
    for (auto it = p.begin(); it != p.end(); ++it) {
        Q c = m2q(it->value());
        int n = it->key().degree();
        for (int i = 0; i < n; ++i) c *= x;
        r += c;
    }
    return r;
}

struct Num {// observed coefficient
    Q q;// exact value (value at x for polys)
};

// value of a Scalar at point x
inline Q sval(const scalars::Scalar& s, Kind k, int x)
{
    if (s.fast_is_zero()) return 0;
    switch (k) {
        case KD: return Q(scalars::scalar_cast<double>(s));
        case KF: return Q(double(scalars::scalar_cast<float>(s)));
        case KQ: return m2q(scalars::scalar_cast<mpq>(s));
        default: return evalpoly(scalars::scalar_cast<rpoly>(s), x);
    }
}

inline Q sval_arr(const scalars::ScalarArray& s, size_t i, Kind k, int x)
{
    switch (k) {
        case KD: return Q(s.as_slice<const double>()[i]);
        case KF: return Q(double(s.as_slice<const float>()[i]));
        case KQ: return m2q(s.as_slice<const mpq>()[i]);
        default: return evalpoly(s.as_slice<const rpoly>()[i], x);
    }
}

template <typename Alg> struct AlgT;
template <> struct AlgT<FreeTensor> {
    static const char* name() { return "FreeTensor"; }
    static constexpr long keyoff = 0;
    static FreeTensor make(const Context& c, const VectorConstructionData& d) { return c.construct_free_tensor(d); }
    static FreeTensor zero(const Context& c, VectorType v) { return c.zero_free_tensor(v); }
};
template <> struct AlgT<ShuffleTensor> {
    static const char* name() { return "ShuffleTensor"; }
    static constexpr long keyoff = 0;
    static ShuffleTensor make(const Context& c, const VectorConstructionData& d) { return c.construct_shuffle_tensor(d); }
    static ShuffleTensor zero(const Context& c, VectorType v) { return c.zero_shuffle_tensor(v); }
};
template <> struct AlgT<Lie> {
    static const char* name() { return "Lie"; }
    static constexpr long keyoff = 1;
    static Lie make(const Context& c, const VectorConstructionData& d) { return c.construct_lie(d); }
    static Lie zero(const Context& c, VectorType v) { return c.zero_lie(v); }
};
inline const char* vname(VectorType v) { return v == VectorType::Dense ? "dense" : "sparse"; }

struct Cx {
    int w, d;
    Kind k;
    context_pointer c;
    mdl::Lies L;
    mdl::Tensors& T;
    Cx(int w_, int d_, Kind k_) : w(w_), d(d_), k(k_), c(get_context(w_, d_, stype(k_))), L(w_, d_), T(L.T) {}
    std::string name() const { return vh::cat("w", w, "d", d, kname(k)); }
    template <typename Alg> size_t dim() const { return std::is_same<Alg, Lie>::value ? L.dim() : T.dim(); }
    template <typename Alg> size_t dimdeg(int n) const
    {
        return std::is_same<Alg, Lie>::value ? (n ? L.dim(n) : 0) : T.dim(n);
    }
    template <typename Alg> int degree(size_t i) const
    {
        return std::is_same<Alg, Lie>::value ? L.deg[i] : T.degree(i);
    }
    std::vector<int> points() const
    {
        if (k == KP) return {0, 1, -2, 3};
        return {0};
    }
};

// style: 0 keyed nonzeros; 1 full-length array; 2 array cut after the last nonzero
template <typename Alg>
Alg build(const Cx& cx, const El& e, VectorType vt, int style = 0)
{
    size_t n = e.a.size();
    std::vector<key_type> keys;
    std::vector<size_t> idx;
    if (style == 0) {
        for (size_t i = 0; i < n; ++i) if (!e.zero_at(i)) { idx.push_back(i); keys.push_back(i); }
    } else {
        size_t m = n;
        if (style == 2) while (m > 0 && e.zero_at(m - 1)) --m;
        for (size_t i = 0; i < m; ++i) idx.push_back(i);
    }
    if (idx.empty()) return AlgT<Alg>::zero(*cx.c, vt);
    auto go = [&](auto& vals) {
        scalars::ScalarArray sa(stype(cx.k), (const void*) vals.data(), vals.size());
        VectorConstructionData d{style == 0 ? scalars::KeyScalarArray(std::move(sa), keys.data())
                                            : scalars::KeyScalarArray(std::move(sa)), vt};
        return AlgT<Alg>::make(*cx.c, d);
    };
    switch (cx.k) {
        case KD: { std::vector<double> v; for (auto i : idx) v.push_back(q2d(e.a[i])); return go(v); }
        case KF: { std::vector<float> v; for (auto i : idx) v.push_back(float(q2d(e.a[i]))); return go(v); }
        case KQ: { std::vector<mpq> v; for (auto i : idx) v.push_back(q2m(e.a[i])); return go(v); }
        default: {
            std::vector<rpoly> v;
            for (auto i : idx) v.push_back(mkpoly(e.a[i], e.b.empty() ? Q(0) : e.b[i]));
            return go(v);
        }
    }
}

inline scalars::Scalar mkscalar(Kind k, const Q& a, const Q& b = 0)
{
    switch (k) {
        case KD: return scalars::Scalar(q2d(a));
        case KF: return scalars::Scalar(float(q2d(a)));
        case KQ: return scalars::Scalar(q2m(a));
        default: return scalars::Scalar(mkpoly(a, b));
    }
}

inline bool close(const Q& got, const Q& want, Kind k, const Q& scale)
{
    if (got == want) return true;
    if (k == KQ || k == KP) return false;
    double g = q2d(got), w = q2d(want), s = q2d(scale);
    double tol = (k == KD ? 1e-11 : 2e-4);
    return std::fabs(g - w) <= tol * (1 + s);
}
inline Q maxabs(const Vec& v) { Q m = 0; for (auto& c : v) if (abs(c) > m) m = abs(c); return m; }

inline std::string show(const Vec& v)
{
    std::string s = "{";
    int n = 0;
    for (size_t i = 0; i < v.size(); ++i)
        if (v[i] != 0) {
            if (n++ > 40) { s += " ..."; break; }
            s += " " + std::to_string(i) + ":" + v[i].str().substr(0, 40);
        }
    return s + " }";
}
inline std::string show(const El& e)
{
    return e.b.empty() ? show(e.a) : show(e.a) + "+x*" + show(e.b);
}

// Read an algebra object through each of its observers; they must agree.
// Returns the coefficients at point x.
template <typename Alg>
Vec observe(vh::Run& run, const Cx& cx, const Alg& alg, int x, const std::string& key,
            const std::function<std::string()>& what, bool all = true)
{
    size_t n = cx.template dim<Alg>();
    constexpr long off = AlgT<Alg>::keyoff;
    Vec it(n);
    std::vector<char> seen(n, 0);
    long count = 0, nonzero = 0;
    for (auto i = alg.begin(), e = alg.end(); i != e; ++i) {
        auto p = *i;
        long ix = long(p.key()) - off;
        if (ix < 0 || ix >= long(n)) {
            run.viol(key + ":iter-key", vh::cat("iteration yields key ", p.key(), " outside the basis: ", what()));
            return it;
        }
        if (seen[ix]) run.viol(key + ":iter-dup", vh::cat("iteration repeats key ", p.key(), ": ", what()));
        seen[ix] = 1;
        it[ix] = sval(p.value(), cx.k, x);
        ++count;
        if (it[ix] != 0) ++nonzero;
    }
    if (!all) return it;
    for (size_t i = 0; i < n; ++i) {
        Q v = sval(alg[typename Alg::key_type(i + off)], cx.k, x);
        if (v != it[i])
            run.viol(key + ":get", vh::cat("alg[", i + off, "]=", v.str(), " but iteration gives ", it[i].str(), ": ", what()));
    }
    if (alg.storage_type() == VectorType::Dense) {
        auto dd = alg.dense_data();
        if (dd) {
            for (size_t i = 0; i < n; ++i) {
                Q v = i < dd->size() ? sval_arr(*dd, i, cx.k, x) : Q(0);
                if (v != it[i])
                    run.viol(key + ":dense_data", vh::cat("dense_data[", i, "]=", v.str(), " but iteration gives ", it[i].str(), ": ", what()));
            }
        }
    }
    // is_zero() answers for the whole element (at one point only for fields)
    if (cx.k != KP) {
        bool z = nonzero == 0;
        if (alg.is_zero() != z)
            run.viol(key + ":is_zero", vh::cat("is_zero()=", alg.is_zero(), " for ", show(it), ": ", what()));
    }
    auto dg = alg.degree();
    if (dg && nonzero) {
        int md = 0;
        for (size_t i = 0; i < n; ++i) if (it[i] != 0) md = std::max(md, cx.template degree<Alg>(i));
        if (int(*dg) < md)
            run.viol(key + ":degree", vh::cat("degree()=", *dg, " but a coefficient of degree ", md, " is present: ", what()));
    }
    return it;
}

// Compare an implementation object with model values at every point.
template <typename Alg, typename F>
bool agree(vh::Run& run, const Cx& cx, const Alg& alg, F&& model_at, const std::string& key,
           const std::function<std::string()>& what, const Q& scale_in = 0, bool all = true)
{
    bool ok = true;
    bool first = true;
    for (int x : cx.points()) {
        Vec want = model_at(x);
        Vec got = observe(run, cx, alg, x, key, what, all && first);
        first = false;
        Q scale = std::max(Q(maxabs(want)), scale_in);
        ++run.traces;
        for (size_t i = 0; i < want.size(); ++i)
            if (!close(got[i], want[i], cx.k, scale)) {
                run.viol(key, vh::cat(what(), (cx.k == KP ? vh::cat(" [at x=", x, "]") : std::string()), ": coefficient ", i,
                                      " is ", got[i].str().substr(0, 60), " expected ", want[i].str().substr(0, 60),
                                      "; got ", show(got), " expected ", show(want)));
                return false;
            }
    }
    return ok;
}

// The elements of the bounded space for one context: zero, every basis vector,
// one generic element per set of degrees it lives in, and gapped ones.
template <typename Alg>
std::vector<El> elements(const Cx& cx, bool basis, bool patterns, bool gaps)
{
    size_t n = cx.template dim<Alg>();
    int d = cx.d;
    std::vector<El> r;
    auto coef = [&](size_t i, int salt) -> Q {
        static const int num[] = {1, -2, 3, -1, 2, 5, -3, 4, -5, 7};
        static const int den[] = {1, 2, 1, 4, 1, 2, 1, 1, 4};
        Q q(num[(i * 7 + salt * 3) % 10], den[(i * 5 + salt) % 9]);
        if (cx.k == KQ || cx.k == KP) q /= ((i + salt) % 3 == 0 ? 3 : 1);
        return q;
    };
    auto push = [&](Vec a) {
        El e;
        e.a = std::move(a);
        if (cx.k == KP) {
            e.b = Vec(n);
            for (size_t i = 0; i < n; ++i) if (e.a[i] != 0) e.b[i] = Q(int(i % 3) - 1);
        }
        r.push_back(e);
    };
    push(Vec(n));
    if (basis)
        for (size_t i = 0; i < n; ++i) { Vec v(n); v[i] = 1; push(v); }
    if (patterns) {
        int lo = std::is_same<Alg, Lie>::value ? 1 : 0;
        int bits = d + 1 - lo;
        for (int m = 1; m < (1 << bits); ++m)
            for (int g = 0; g < (gaps ? 3 : 1); ++g) {
                Vec v(n);
                bool any = false;
                for (size_t i = 0; i < n; ++i)
                    if (m >> (cx.template degree<Alg>(i) - lo) & 1) {
                        if (g == 1 && i % 2) continue;// gaps inside a degree
                        if (g == 2 && i % 3 != 2) continue;
                        v[i] = coef(i, m + g);
                        any = true;
                    }
                if (any) push(v);
            }
    }
    return r;
}

static const VectorType VT[2] = {VectorType::Dense, VectorType::Sparse};
#endif
