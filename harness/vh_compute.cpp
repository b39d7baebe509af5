// The dense tensor kernels of roughpy_compute (header only), over every
// combination of degree ranges of their operands, on raw pointers and strided
// iterators, in exact arithmetic, against word-by-word definitions.
//   --mode tensor   products, antipode, adjoints, shuffles, exp/log/fmexp
//   --mode vector   vector operations, sparse maps, iterators
#include "vh.h"
#include <numeric>
#include <array>
#include <memory>
#include <cassert>
#include <algorithm>
#include <roughpy_compute/common/basis.hpp>
#include <roughpy_compute/common/bitmask.hpp>
#include <roughpy_compute/common/cache_array.hpp>
#include <roughpy_compute/common/operations.hpp>
#include <roughpy_compute/common/sparse_matrix.hpp>
#include <roughpy_compute/dense/views.hpp>
#include <roughpy_compute/dense/basic/apply_sparse_linear_map.hpp>
#include <roughpy_compute/dense/basic/free_tensor_adjoint_left_mul.hpp>
#include <roughpy_compute/dense/basic/free_tensor_antipode.hpp>
#include <roughpy_compute/dense/basic/free_tensor_fma.hpp>
#include <roughpy_compute/dense/basic/free_tensor_inplace_mul.hpp>
#include <roughpy_compute/dense/basic/shuffle_tensor_adjoint_mul.hpp>
#include <roughpy_compute/dense/basic/shuffle_tensor_product.hpp>
#include <roughpy_compute/dense/basic/vector_addition.hpp>
#include <roughpy_compute/dense/basic/vector_inplace_addition.hpp>
#include <roughpy_compute/dense/basic/vector_inplace_scalar_multiply.hpp>
#include <roughpy_compute/dense/basic/vector_scalar_multiply.hpp>
#include <roughpy_compute/dense/intermediate/free_tensor_exp.hpp>
#include <roughpy_compute/dense/intermediate/free_tensor_fmexp.hpp>
#include <roughpy_compute/dense/intermediate/free_tensor_log.hpp>
using namespace rpy::compute;
using vh::cat;

// exact fractions, usable in constant expressions
struct Fr {
    long n, d;
    static constexpr __int128 gcd_(__int128 a, __int128 b) { while (b) { __int128 t = a % b; a = b; b = t; } return a < 0 ? -a : a; }
    static constexpr Fr mk(__int128 p, __int128 q)
    {
        if (q < 0) { p = -p; q = -q; }
        __int128 g = gcd_(p, q);
        if (g > 1) { p /= g; q /= g; }
        if (q == 0 || p > __int128(1) << 61 || -p > __int128(1) << 61 || q > __int128(1) << 61) { return Fr(1234567, 7654321, 0); }
        return Fr((long) p, (long) q, 0);
    }
    constexpr Fr(long p, long q, int) : n(p), d(q) {}
    constexpr Fr(long p = 0) : n(p), d(1) {}
    friend constexpr Fr operator+(const Fr& a, const Fr& b) { return mk(__int128(a.n) * b.d + __int128(b.n) * a.d, __int128(a.d) * b.d); }
    friend constexpr Fr operator-(const Fr& a, const Fr& b) { return mk(__int128(a.n) * b.d - __int128(b.n) * a.d, __int128(a.d) * b.d); }
    friend constexpr Fr operator*(const Fr& a, const Fr& b) { return mk(__int128(a.n) * b.n, __int128(a.d) * b.d); }
    friend constexpr Fr operator/(const Fr& a, const Fr& b) { return mk(__int128(a.n) * b.d, __int128(a.d) * b.n); }
    constexpr Fr operator-() const { return Fr(-n, d, 0); }
    constexpr Fr& operator+=(const Fr& o) { return *this = *this + o; }
    constexpr Fr& operator-=(const Fr& o) { return *this = *this - o; }
    constexpr Fr& operator*=(const Fr& o) { return *this = *this * o; }
    constexpr Fr& operator/=(const Fr& o) { return *this = *this / o; }
    friend constexpr bool operator==(const Fr& a, const Fr& b) { return a.n == b.n && a.d == b.d; }
    friend constexpr bool operator!=(const Fr& a, const Fr& b) { return !(a == b); }
    friend std::ostream& operator<<(std::ostream& o, const Fr& a) { o << a.n; if (a.d != 1) o << '/' << a.d; return o; }
};
typedef std::vector<Fr> V;
typedef std::vector<int> Word;
static const Fr POISON(1000003);

struct Words {
    int w, D;
    std::vector<long> begin;// degree_begin of degrees 0..D+1
    std::vector<Word> words;
    std::map<Word, long> index;
    Words(int w_, int D_) : w(w_), D(D_)
    {
        std::vector<Word> cur{{}};
        begin.push_back(0);
        for (int n = 0; n <= D; ++n) {
            for (auto& u : cur) { index[u] = (long) words.size(); words.push_back(u); }
            begin.push_back((long) words.size());
            std::vector<Word> nx;
            for (auto& u : cur) for (int a = 0; a < w; ++a) { Word v = u; v.push_back(a); nx.push_back(v); }
            cur = nx;
        }
    }
};

// An operand: levels [mn, mx] hold values, everything around them is poisoned.
struct Opd {
    const Words* W;
    int mx, mn;
    long stride, off;
    V store;
    std::vector<std::ptrdiff_t> begin;
    Opd(const Words& w, int mx_, int mn_, long stride_) : W(&w), mx(mx_), mn(mn_), stride(stride_)
    {
        long n = w.begin[mx + 1], a = std::abs(stride), pad = 64;
        store.assign(n * a + 2 * pad, POISON);
        off = stride > 0 ? pad : pad + (n - 1) * a;
        // a degree table of its own, as long as it has to be
        begin.assign(w.begin.begin(), w.begin.begin() + mx + 2);
    }
    Fr& at(long i) { return store[off + i * stride]; }
    long lo() const { return W->begin[mn]; }
    long hi() const { return W->begin[mx + 1]; }
    void set(const V& v) { for (long i = lo(); i < hi(); ++i) at(i) = v[i]; }
    // values as the mathematical object: zero outside the range
    V get() { V r(W->words.size()); for (long i = lo(); i < hi(); ++i) r[i] = at(i); return r; }
    bool clean()
    {
        std::vector<char> own(store.size());
        for (long i = lo(); i < hi(); ++i) own[off + i * stride] = 1;
        for (size_t i = 0; i < store.size(); ++i) if (!own[i] && store[i] != POISON) return false;
        return true;
    }
    TensorBasis basis() const { return TensorBasis{{begin.data(), W->w, mx}}; }
    std::string str() { std::string s; for (long i = lo(); i < hi(); ++i) s += cat(i == lo() ? "" : " ", at(i)); return cat("deg", mn, "-", mx, "/", stride, "[", s, "]"); }
};
typedef StridedDenseIterator<Fr*> SI;
typedef StridedDenseIterator<const Fr*> CSI;
static DenseTensorView<Fr*> pv(Opd& o) { return {&o.store[o.off], o.basis(), o.mn, o.mx}; }
static DenseTensorView<const Fr*> cpv(Opd& o) { return {&o.store[o.off], o.basis(), o.mn, o.mx}; }
static DenseTensorView<SI> sv(Opd& o) { return {SI(&o.store[o.off], o.stride), o.basis(), o.mn, o.mx}; }
static DenseTensorView<CSI> csv(Opd& o) { return {CSI(&o.store[o.off], o.stride), o.basis(), o.mn, o.mx}; }

struct Strides { bool ptr; long a, b, c; };
static const Strides STR[] = {{true, 1, 1, 1}, {false, 1, 1, 2}, {false, 2, 3, 1}, {false, -1, 2, -3}, {false, -2, -1, -1}};

static bool in(const Word& u, const Opd& o) { return int(u.size()) >= o.mn && int(u.size()) <= o.mx; }
static Word con(const Word& a, const Word& b) { Word r = a; r.insert(r.end(), b.begin(), b.end()); return r; }

// ---- definitions
static V m_mul(const Words& W, const V& a, const V& b)
{
    V r(W.words.size());
    for (size_t i = 0; i < a.size(); ++i) if (a[i] != 0)
        for (size_t j = 0; j < b.size(); ++j) if (b[j] != 0) {
            auto it = W.index.find(con(W.words[i], W.words[j]));
            if (it != W.index.end()) r[it->second] += a[i] * b[j];
        }
    return r;
}
// <out, u> = <arg, v u> <op, v>
static V m_adj(const Words& W, const V& op, const V& arg)
{
    V r(W.words.size());
    for (size_t v = 0; v < op.size(); ++v) if (op[v] != 0)
        for (size_t u = 0; u < r.size(); ++u) {
            auto it = W.index.find(con(W.words[v], W.words[u]));
            if (it != W.index.end()) r[u] += op[v] * arg[it->second];
        }
    return r;
}
static std::map<const Words*, std::map<std::pair<long, long>, std::map<long, long>>> shcache;
static const std::map<long, long>& sh(const Words& W, long a, long b)
{
    auto& c = shcache[&W];
    auto it = c.find({a, b});
    if (it != c.end()) return it->second;
    std::map<long, long> r;
    const Word &u = W.words[a], &v = W.words[b];
    int n = (int) u.size(), m = (int) v.size();
    if (n + m <= W.D)
        for (unsigned mask = 0; mask < (1u << (n + m)); ++mask) {
            if (__builtin_popcount(mask) != n) continue;
            Word t; int x = 0, y = 0;
            for (int k = 0; k < n + m; ++k) t.push_back((mask >> k & 1) ? u[x++] : v[y++]);
            r[W.index.at(t)] += 1;
        }
    return c[{a, b}] = r;
}
static V m_shuffle(const Words& W, const V& a, const V& b)
{
    V r(W.words.size());
    for (size_t i = 0; i < a.size(); ++i) if (a[i] != 0)
        for (size_t j = 0; j < b.size(); ++j) if (b[j] != 0)
            for (auto& p : sh(W, (long) i, (long) j)) r[p.first] += a[i] * b[j] * Fr(p.second);
    return r;
}
static V m_shadj(const Words& W, const V& op, const V& arg)
{
    V r(W.words.size());
    for (size_t i = 0; i < op.size(); ++i) if (op[i] != 0)
        for (size_t u = 0; u < r.size(); ++u)
            for (auto& p : sh(W, (long) i, (long) u)) r[u] += op[i] * arg[p.first] * Fr(p.second);
    return r;
}
static V m_scale(V a, Fr s) { for (auto& x : a) x *= s; return a; }
static V m_add(V a, const V& b) { for (size_t i = 0; i < a.size(); ++i) a[i] += b[i]; return a; }
static V m_exp(const Words& W, const V& x, int upto)
{
    V r(W.words.size()), p(W.words.size());
    r[0] = p[0] = 1;
    for (int n = 1; n <= upto; ++n) { p = m_scale(m_mul(W, p, x), Fr(1) / Fr(n)); r = m_add(r, p); }
    return r;
}
static V m_log(const Words& W, V x, int upto)
{
    V r(W.words.size()), p(W.words.size());
    p[0] = 1;
    for (int n = 1; n <= upto; ++n) { p = m_mul(W, p, x); r = m_add(r, m_scale(p, Fr(n % 2 ? 1 : -1) / Fr(n))); }
    return r;
}

// ---- coefficient patterns
static V dense(const Words& W, int which)
{
    static const long pr[] = {2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37, 41, 43, 47, 53};
    V v(W.words.size());
    for (size_t i = 0; i < v.size(); ++i) v[i] = Fr(pr[(i * (which + 1) + which * 5) % 16] * (((i + which) % 3) ? 1 : -1));
    return v;
}
static V unitv(const Words& W, long i) { V v(W.words.size()); v[i] = 1; return v; }

struct Deg { int mx, mn; };
static std::vector<Deg> degs(int D, bool mins)
{
    std::vector<Deg> r;
    for (int x = 0; x <= D; ++x) for (int n = 0; n <= (mins ? x : 0); ++n) r.push_back({x, n});
    return r;
}
static vh::Run* R;
#define DISPATCH3(f) do { \
    if (st.ptr) { switch (op) { case 0: f(pv(O), cpv(L), cpv(S), ops::Identity{}); break; case 1: f(pv(O), cpv(L), cpv(S), ops::Negate{}); break; default: f(pv(O), cpv(L), cpv(S), ops::MultiplyBy<Fr>(Fr(3))); } } \
    else { switch (op) { case 0: f(sv(O), csv(L), csv(S), ops::Identity{}); break; case 1: f(sv(O), csv(L), csv(S), ops::Negate{}); break; default: f(sv(O), csv(L), csv(S), ops::DivideBy<Fr>(3)); } } } while (0)
static Fr opf(const Strides& st, int op) { return op == 0 ? Fr(1) : op == 1 ? Fr(-1) : st.ptr ? Fr(3) : Fr(1) / Fr(3); }



// One execution: operands of the given ranges and strides, values a (prior
// contents of the output), b, c; the kernel must leave exactly the wanted
// values in the output's levels, and nothing else anywhere changed.
template <typename Call, typename Model>
static void ternary(const char* name, const Words& W, const std::vector<Deg>& od, const std::vector<Deg>& ld, const std::vector<Deg>& rd, int nops, Call&& call, Model&& model)
{
    for (auto& o : od) for (auto& l : ld) for (auto& r : rd) {
        if (!R->mine()) continue;
        int si = 0;
        for (auto& st : STR) {
            ++si;
            std::string where = cat(name, " w=", W.w, " out=", o.mn, "-", o.mx, " lhs=", l.mn, "-", l.mx, " rhs=", r.mn, "-", r.mx, st.ptr ? " pointers" : cat(" strides ", st.a, ",", st.b, ",", st.c));
            if (!R->only.empty() && where.find(R->only) == std::string::npos) continue;
            R->at(where);
            auto one = [&](const V& a, const V& b, const V& c, int op) {
                Opd O(W, o.mx, o.mn, st.a), L(W, l.mx, l.mn, st.b), S(W, r.mx, r.mn, st.c);
                O.set(a); L.set(b); S.set(c);
                V o0 = O.get(), lv = L.get(), rv = S.get();
                call(st, O, L, S, op);
                V want = model(o0, lv, rv, opf(st, op));
                R->state();
                bool ok = O.clean() && L.clean() && S.clean() && L.get() == lv && S.get() == rv;
                V got = O.get();
                for (long i = O.lo(); ok && i < O.hi(); ++i) ok = got[i] == want[i];
                R->check(ok, cat("k01:", name), [&] {
                    Opd E(W, o.mx, o.mn, 1); E.set(want);
                    return cat(where, " op=", op, ": lhs ", L.str(), " rhs ", S.str(), " gave ", O.str(), " expected ", E.str(), O.clean() ? "" : " (wrote outside)");
                });
            };
            for (int op = 0; op < nops; ++op) for (int k = 0; k < 3; ++k)
                one(dense(W, k), dense(W, k + 1), dense(W, 2 * k + 2), op);
            V zero(W.words.size());
            one(dense(W, 0), zero, dense(W, 1), 0);
            one(dense(W, 0), dense(W, 1), zero, 0);
            if (si == 1 || R->thorough())
                // the kernels are bilinear: every pair of basis elements
                for (long i = W.begin[l.mn]; i < W.begin[l.mx + 1]; ++i)
                    for (long j = W.begin[r.mn]; j < W.begin[r.mx + 1]; ++j)
                        one(zero, unitv(W, i), unitv(W, j), 0);
        }
        R->dim(name);
    }
}
template <typename Call, typename Model, typename Prep>
static void binary(const char* name, const Words& W, const std::vector<Deg>& od, const std::vector<Deg>& rd, int nops, Call&& call, Model&& model, Prep&& prep)
{
    for (auto& o : od) for (auto& r : rd) {
        if (!R->mine()) continue;
        for (auto& st : STR) {
            std::string where = cat(name, " w=", W.w, " out=", o.mn, "-", o.mx, " arg=", r.mn, "-", r.mx, st.ptr ? " pointers" : cat(" strides ", st.a, ",", st.b));
            if (!R->only.empty() && where.find(R->only) == std::string::npos) continue;
            R->at(where);
            auto one = [&](V a, V b, int op) {
                prep(a, b);
                Opd O(W, o.mx, o.mn, st.a), A(W, r.mx, r.mn, st.b);
                O.set(a); A.set(b);
                V o0 = O.get(), av = A.get();
                V want = model(o0, av, O, A, opf(st, op), op);
                call(st, O, A, op);
                R->state();
                bool ok = O.clean() && A.clean() && A.get() == av;
                V got = O.get();
                for (long i = O.lo(); ok && i < O.hi(); ++i) ok = got[i] == want[i];
                R->check(ok, cat("k01:", name), [&] {
                    Opd E(W, o.mx, o.mn, 1), B(W, o.mx, o.mn, 1); E.set(want); B.set(o0);
                    return cat(where, " op=", op, ": out ", B.str(), " arg ", A.str(), " gave ", O.str(), " expected ", E.str(), O.clean() ? "" : " (wrote outside)");
                });
            };
            for (int op = 0; op < nops; ++op) for (int k = 0; k < 3; ++k) one(dense(W, k), dense(W, k + 1), op);
            V zero(W.words.size());
            one(dense(W, 1), zero, 0);
            one(zero, dense(W, 1), 0);
            if (st.ptr || R->thorough())
                for (long i = W.begin[o.mn]; i < W.begin[o.mx + 1]; ++i)
                    for (long j = W.begin[r.mn]; j < W.begin[r.mx + 1]; ++j)
                        one(unitv(W, i), unitv(W, j), 0);
        }
        R->dim(name);
    }
}
struct NoSign { bool odd = false; template <typename D> void for_degree(D) {} Fr operator()(Fr x) const { return x; } };
struct Thrice { Fr f = 1; template <typename D> void for_degree(D d) { f = 1; for (D i = 0; i < d; ++i) f *= Fr(3); } Fr operator()(Fr x) const { return f * x; } };

static void tensor_mode()
{
    struct Sh { int w, D, d1; };// d1: deepest with every choice of lowest degree
    std::vector<Sh> shapes{{1, 5, 4}, {2, 4, 2}, {3, 3, 2}, {4, 2, 2}, {5, 2, 1}};
    if (R->thorough()) shapes = {{1, 6, 5}, {2, 5, 3}, {3, 3, 3}, {4, 3, 2}, {5, 2, 2}, {6, 2, 2}};
    for (auto& s : shapes) {
        static std::vector<std::unique_ptr<Words>> keep; keep.emplace_back(new Words(s.w, s.D)); const Words& W = *keep.back();
        auto flat = degs(s.D, false), all = degs(s.d1, true);
        for (auto& d : flat) if (d.mx > s.d1) all.push_back(d);
        auto nop = [](V&, V&) {};
        ternary("ft_fma", W, all, all, all, 3,
            [](const Strides& st, Opd& O, Opd& L, Opd& S, int op) {
                auto f = [](auto o, auto l, auto r, auto x) { basic::ft_fma(o, l, r, x); };
                DISPATCH3(f);
            }, [&](const V& o, const V& l, const V& r, Fr f) { return m_add(o, m_scale(m_mul(W, l, r), f)); });
        ternary("ft_adj_lmul", W, all, all, all, 1,
            [](const Strides& st, Opd& O, Opd& L, Opd& S, int) {
                if (st.ptr) basic::ft_adj_lmul(pv(O), cpv(L), cpv(S)); else basic::ft_adj_lmul(sv(O), csv(L), csv(S));
            }, [&](const V& o, const V& l, const V& r, Fr) { return m_add(o, m_adj(W, l, r)); });
        ternary("st_fma", W, flat, flat, flat, 3,
            [](const Strides& st, Opd& O, Opd& L, Opd& S, int op) {
                auto f = [](auto o, auto l, auto r, auto x) { basic::v1::st_fma(o, l, r, x); };
                DISPATCH3(f);
            }, [&](const V& o, const V& l, const V& r, Fr f) { return m_add(o, m_scale(m_shuffle(W, l, r), f)); });
        ternary("st_adj_mul", W, flat, flat, flat, 1,
            [](const Strides& st, Opd& O, Opd& L, Opd& S, int) {
                if (st.ptr) basic::st_adj_mul(pv(O), cpv(L), cpv(S)); else basic::st_adj_mul(sv(O), csv(L), csv(S));
            }, [&](const V& o, const V& l, const V& r, Fr) { return m_add(o, m_shadj(W, l, r)); });
        binary("ft_inplace_mul", W, all, all, 3,
            [](const Strides& st, Opd& O, Opd& A, int op) {
                auto go = [&](auto o, auto a) {
                    if (op == 0) basic::ft_inplace_mul(o, a, ops::Identity{});
                    else if (op == 1) basic::ft_inplace_mul(o, a, ops::Negate{});
                    else if (st.ptr) basic::ft_inplace_mul(o, a, ops::MultiplyBy<Fr>(Fr(3)));
                    else basic::ft_inplace_mul(o, a, ops::DivideBy<Fr>(3));
                };
                if (st.ptr) go(pv(O), cpv(A)); else go(sv(O), csv(A));
            }, [&](const V& o, const V& a, Opd&, Opd&, Fr f, int) { return m_scale(m_mul(W, o, a), f); }, nop);
        binary("ft_antipode", W, all, all, 3,
            [](const Strides& st, Opd& O, Opd& A, int op) {
                basic::BasicAntipodeConfig c;
                auto go = [&](auto o, auto a) {
                    if (op == 0) basic::ft_antipode(o, a, c, basic::DefaultSigner{});
                    else if (op == 1) basic::ft_antipode(o, a, c, NoSign{});
                    else basic::ft_antipode(o, a, c, Thrice{});
                };
                if (st.ptr) go(pv(O), cpv(A)); else go(sv(O), csv(A));
            }, [&](const V& o, const V& a, Opd& O, Opd& A, Fr, int op) {
                V r = o;
                for (size_t i = 0; i < r.size(); ++i) {
                    const Word& u = W.words[i];
                    if (!in(u, O) || !in(u, A)) continue;
                    Word v(u.rbegin(), u.rend());
                    Fr f = 1;
                    for (size_t k = 0; k < u.size(); ++k) f *= op == 0 ? Fr(-1) : op == 1 ? Fr(1) : Fr(3);
                    r[i] = a[W.index.at(v)] * f;
                }
                return r;
            }, nop);
        binary("ft_exp", W, flat, flat, 1,
            [](const Strides& st, Opd& O, Opd& A, int) {
                if (st.ptr) intermediate::ft_exp(pv(O), cpv(A)); else intermediate::ft_exp(sv(O), csv(A));
            }, [&](const V&, const V& a, Opd& O, Opd&, Fr, int) { return m_exp(W, a, O.mx); },
            [](V&, V& b) { b[0] = 0; });
        binary("ft_log", W, flat, flat, 1,
            [](const Strides& st, Opd& O, Opd& A, int) {
                if (st.ptr) intermediate::ft_log(pv(O), cpv(A)); else intermediate::ft_log(sv(O), csv(A));
            }, [&](const V&, V a, Opd& O, Opd&, Fr, int) { a[0] = 0; return m_log(W, a, O.mx); },
            [](V& a, V& b) { std::fill(a.begin(), a.end(), Fr(0)); b[0] = 1; });
        ternary("ft_fmexp", W, flat, flat, flat, 1,
            [](const Strides& st, Opd& O, Opd& L, Opd& S, int) {
                S.at(0) = S.at(0);
                if (st.ptr) intermediate::ft_fmexp(pv(O), cpv(L), cpv(S)); else intermediate::ft_fmexp(sv(O), csv(L), csv(S));
            }, [&](const V&, const V& l, V r, Fr) { r[0] = 0; return m_mul(W, l, m_exp(W, r, W.D)); });
        // the kernels leave the constant term of an exponent or of a logarithm's argument alone
    }
}

// ---- vectors, maps, iterators
static void vector_mode()
{
    int D = R->thorough() ? 4 : 3;
    for (int w = 1; w <= 3; ++w) {
        static std::vector<std::unique_ptr<Words>> keep; keep.emplace_back(new Words(w, w == 3 ? D - 1 : D)); const Words& W = *keep.back();
        auto flat = degs(W.D, false);
        auto cut = [&](const Opd& o, size_t i) { return long(i) >= o.lo() && long(i) < o.hi(); };
        for (auto& o : flat) for (auto& l : flat) for (auto& r : flat) for (auto& st : STR) for (int op = 0; op < 3; ++op) for (int k = 0; k < 3; ++k) {
            if (!R->mine()) continue;
            std::string where = cat("w=", w, " out=", o.mx, " lhs=", l.mx, " rhs=", r.mx, st.ptr ? " pointers" : cat(" strides ", st.a, ",", st.b, ",", st.c), " op=", op);
            R->at("vector_addition " + where);
            {
                Opd O(W, o.mx, 0, st.a), L(W, l.mx, 0, st.b), S(W, r.mx, 0, st.c);
                O.set(dense(W, k)); L.set(dense(W, k + 1)); S.set(dense(W, k + 2));
                V o0 = O.get(), lv = L.get(), rv = S.get();
                auto go = [&](auto a, auto b, auto c) {
                    using VO = DenseVectorView<std::decay_t<decltype(a.data())>, TensorBasis>;
                    using VI = DenseVectorView<std::decay_t<decltype(b.data())>, TensorBasis>;
                    if (op == 0) basic::vector_addition(VO(a), VI(b), VI(c));
                    else if (op == 1) basic::vector_addition(VO(a), VI(b), VI(c), ops::Identity{}, ops::Negate{});
                    else basic::vector_addition(VO(a), VI(b), VI(c), ops::MultiplyBy<Fr>(Fr(3)), ops::DivideBy<Fr>(2));
                };
                if (st.ptr) go(pv(O), cpv(L), cpv(S)); else go(sv(O), csv(L), csv(S));
                Fr f = op == 2 ? Fr(3) : Fr(1), g = op == 0 ? Fr(1) : op == 1 ? Fr(-1) : Fr(1) / Fr(2);
                bool ok = O.clean() && L.get() == lv && S.get() == rv;
                for (long i = 0; i < O.hi(); ++i) {
                    // beyond both operands nothing is written
                    Fr want = cut(L, i) && cut(S, i) ? f * lv[i] + g * rv[i] : cut(L, i) ? f * lv[i] : cut(S, i) ? g * rv[i] : o0[i];
                    ok = ok && O.at(i) == want;
                }
                R->state();
                R->check(ok, "k01:vector_addition", [&] { return cat("vector_addition ", where, " gave ", O.str(), " from ", L.str(), " and ", S.str()); });
            }
            R->at("vector_inplace_addition " + where);
            {
                Opd O(W, o.mx, 0, st.a), L(W, l.mx, 0, st.b);
                O.set(dense(W, k)); L.set(dense(W, k + 1));
                V o0 = O.get(), lv = L.get();
                auto go = [&](auto a, auto b) {
                    using VO = DenseVectorView<std::decay_t<decltype(a.data())>, TensorBasis>;
                    using VI = DenseVectorView<std::decay_t<decltype(b.data())>, TensorBasis>;
                    if (op == 0) basic::vector_inplace_addition(VO(a), VI(b));
                    else if (op == 1) basic::vector_inplace_addition(VO(a), VI(b), ops::Negate{});
                    else basic::vector_inplace_addition(VO(a), VI(b), ops::MultiplyBy<Fr>(Fr(3)));
                };
                if (st.ptr) go(pv(O), cpv(L)); else go(sv(O), csv(L));
                Fr f = op == 0 ? Fr(1) : op == 1 ? Fr(-1) : Fr(3);
                bool ok = O.clean() && L.get() == lv;
                for (long i = 0; i < O.hi(); ++i) ok = ok && O.at(i) == o0[i] + (cut(L, i) ? f * lv[i] : Fr(0));
                R->state();
                R->check(ok, "k01:vector_inplace_addition", [&] { return cat("vector_inplace_addition ", where, " gave ", O.str(), " from ", L.str()); });
            }
            R->at("scalar multiply " + where);
            {
                Fr s = op == 0 ? Fr(2) : op == 1 ? Fr(0) : Fr(-1) / Fr(3);
                Opd O(W, o.mx, 0, st.a);
                O.set(dense(W, k));
                V o0 = O.get();
                auto go = [&](auto a) { using VO = DenseVectorView<std::decay_t<decltype(a.data())>, TensorBasis>; basic::vector_inplace_scalar_multiply(VO(a), s); };
                if (st.ptr) go(pv(O)); else go(sv(O));
                bool ok = O.clean();
                for (long i = 0; i < O.hi(); ++i) ok = ok && O.at(i) == o0[i] * s;
                R->state();
                R->check(ok, "k01:vector_inplace_scalar_multiply", [&] { return cat("vector_inplace_scalar_multiply ", where, " gave ", O.str()); });
                if (st.ptr) {
                    Opd P(W, o.mx, 0, 1), L(W, l.mx, 0, 1);
                    P.set(dense(W, k)); L.set(dense(W, k + 1));
                    V p0 = P.get(), lv = L.get();
                    basic::vector_scalar_multiply<Fr, TensorBasis>(pv(P), cpv(L), s);
                    ok = P.clean() && L.get() == lv;
                    for (long i = 0; i < P.hi(); ++i) ok = ok && P.at(i) == (cut(L, i) ? lv[i] * s : p0[i]);
                    R->state();
                    R->check(ok, "k01:vector_scalar_multiply", [&] { return cat("vector_scalar_multiply ", where, " gave ", P.str(), " from ", L.str()); });
                }
            }
            R->dim("vector");
        }
    }
    // every matrix over {0, 1, -2} of small shapes, in both compressed formats
    std::vector<std::pair<int, int>> shapes{{1, 1}, {1, 3}, {3, 1}, {2, 2}, {2, 3}, {3, 2}};
    if (R->thorough()) { shapes.push_back({3, 3}); shapes.push_back({2, 4}); shapes.push_back({1, 5}); }
    for (auto& sp : shapes) {
        int r = sp.first, c = sp.second, n = r * c;
        long total = 1;
        for (int i = 0; i < n; ++i) total *= 3;
        for (long code = 0; code < total; ++code) {
            if (!R->mine()) continue;
            std::vector<Fr> M(n);
            long t = code;
            for (int i = 0; i < n; ++i, t /= 3) M[i] = Fr(t % 3 == 0 ? 0 : t % 3 == 1 ? 1 : -2);
            for (int fmt = 0; fmt < 2; ++fmt) for (auto& st : STR) for (int op = 0; op < 2; ++op) {
                R->at(cat("sparse map ", r, "x", c, " code ", code, " format ", fmt, " stride ", st.a, ",", st.b));
                std::vector<Fr> data; std::vector<long> idx, ptr{0};
                int no = fmt == 0 ? r : c, ni = fmt == 0 ? c : r;
                for (int a = 0; a < no; ++a) {
                    for (int b = 0; b < ni; ++b) {
                        Fr x = fmt == 0 ? M[a * c + b] : M[b * c + a];
                        if (x != 0) { data.push_back(x); idx.push_back(b); }
                    }
                    ptr.push_back((long) data.size());
                }
                data.push_back(POISON); idx.push_back(0);
                auto buf = [](int n, long s, V& store, long& off) { store.assign(n * std::abs(s) + 16, POISON); off = s > 0 ? 8 : 8 + (n - 1) * -s; };
                V os, as; long oo, ao;
                buf(r, st.a, os, oo); buf(c, st.b, as, ao);
                V o0(r), a0(c);
                for (int i = 0; i < r; ++i) os[oo + i * st.a] = o0[i] = Fr(7 + 3 * i);
                for (int i = 0; i < c; ++i) as[ao + i * st.b] = a0[i] = Fr(2 + i * i);
                V keepo = os, keepa = as;
                auto go = [&](auto o, auto a) {
                    DenseVectorFragment<decltype(o)> fo(o, r);
                    DenseVectorFragment<decltype(a)> fa(a, c);
                    auto with = [&](auto m) {
                        if (op == 0) basic::apply_sparse_linear_map(fo, m, fa);
                        else basic::apply_sparse_linear_map(fo, m, fa, ops::MultiplyBy<Fr>(Fr(5)));
                    };
                    long nnz = (long) data.size() - 1;
                    if (fmt == 0) with(CompressedMatrix<const Fr*, const long*, const long*, CompressedRow>(data.data(), idx.data(), nnz, ptr.data(), no, ni));
                    else with(CompressedMatrix<const Fr*, const long*, const long*, CompressedCol>(data.data(), idx.data(), nnz, ptr.data(), no, ni));
                };
                if (st.ptr) go(&os[oo], (const Fr*) &as[ao]);
                else go(SI(&os[oo], st.a), CSI(&as[ao], st.b));
                bool ok = as == keepa;
                for (int i = 0; i < r; ++i) {
                    Fr x = 0;
                    for (int j = 0; j < c; ++j) x += M[i * c + j] * a0[j];
                    keepo[oo + i * st.a] = o0[i] + x * Fr(op ? 5 : 1);
                }
                ok = ok && os == keepo;
                R->state();
                R->check(ok, "k01:apply_sparse_linear_map", [&] { return cat("apply_sparse_linear_map ", r, "x", c, " matrix code ", code, fmt ? " by columns" : " by rows", " strides ", st.a, ",", st.b, " op ", op); });
            }
            R->dim("sparse");
        }
    }
    // iterators as positions
    long mem[200];
    for (int i = 0; i < 200; ++i) mem[i] = i;
    for (long s : {1L, 2L, 3L, -1L, -3L}) for (long p = 0; p < 5; ++p) for (long q = 0; q < 5; ++q) {
        if (!R->mine()) continue;
        R->at(cat("iterator stride ", s, " at ", p, " and ", q));
        typedef StridedDenseIterator<const long*> It;
        It b(mem + 100, s);
        auto at = [&](long k) { It i = b; while (k-- > 0) ++i; return i; };
        It i = at(p), j = at(q);
        auto val = [&](long k) { return 100 + s * k; };
        auto chk = [&](bool ok, const char* what) { R->state(); R->check(ok, cat("k01:iterator.", what), [&] { return cat("StridedDenseIterator stride ", s, " positions ", p, ", ", q, ": ", what); }); };
        chk(*i == val(p) && i[q] == val(p + q) && i[-q] == val(p - q), "index");
        chk(*(i + q) == val(p + q) && (i + q)[1] == val(p + q + 1), "plus");
        chk(*(q + i) == val(p + q), "plus.left");
        chk(*(i - q) == val(p - q), "minus");
        chk(j - i == q - p, "difference");
        chk((i == j) == (p == q) && (i != j) == (p != q), "equal");
        It k = i; It k2 = k++; chk(k2 == i && *k == val(p + 1), "postincrement");
        k = i; k2 = k--; chk(k2 == i && *k == val(p - 1), "postdecrement");
        k = i; It& k3 = --k; chk(&k3 == &k && *k == val(p - 1), "predecrement");
        if (s > 0) chk((i < j) == (p < q) && (i <= j) == (p <= q) && (i > j) == (p > q) && (i >= j) == (p >= q), "order");
        R->dim("iterator");
    }
}
int main(int argc, char** argv)
{
    vh::Run run(argc, argv);
    R = &run;
    std::string mode;
    for (int i = 1; i < argc; ++i) if (std::string(argv[i]) == "--mode") mode = argv[i + 1];
    if (mode == "tensor") tensor_mode();
    else if (mode == "vector") vector_mode();
    else return 3;
    return run.finish();
}
