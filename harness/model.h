// Reference model of the truncated tensor / shuffle / free Lie algebras, in
// exact rational arithmetic, written from the mathematical definitions (no code
// shared with the implementation under test).
#ifndef VH_MODEL_H
#define VH_MODEL_H
#include <vector>
#include <map>
#include <string>
#include <utility>
#include <cstddef>
#include <cassert>
#include <boost/multiprecision/cpp_int.hpp>

namespace mdl {

using Q = boost::multiprecision::cpp_rational;
using Vec = std::vector<Q>;
using Word = std::vector<int>;

// ------------------------------------------------------------ tensor algebra
struct Tensors {
    int w, d;
    std::vector<size_t> pw;   // w^n
    std::vector<size_t> start;// first index of degree n; start[d+1] = dim
    Tensors(int w_, int d_) : w(w_), d(d_)
    {
        pw.push_back(1);
        start.push_back(0);
        for (int n = 0; n <= d; ++n) {
            start.push_back(start.back() + pw.back());
            pw.push_back(pw.back() * w);
        }
    }
    size_t dim() const { return start[d + 1]; }
    size_t dim(int deg) const { return start[deg + 1]; }
    Vec zero() const { return Vec(dim()); }
    Vec unit() const { Vec r(dim()); r[0] = 1; return r; }
    int degree(size_t i) const { int n = 0; while (start[n + 1] <= i) ++n; return n; }
    Word word(size_t i) const
    {
        int n = degree(i);
        size_t r = i - start[n];
        Word u(n);
        for (int k = n - 1; k >= 0; --k) { u[k] = int(r % w) + 1; r /= w; }
        return u;
    }
    size_t index(const Word& u) const
    {
        size_t r = 0;
        for (int a : u) r = r * w + (a - 1);
        return start[u.size()] + r;
    }
    Vec mul(const Vec& a, const Vec& b) const
    {
        Vec r(dim());
        for (int p = 0; p <= d; ++p)
            for (size_t i = 0; i < pw[p]; ++i) {
                const Q& x = a[start[p] + i];
                if (x == 0) continue;
                for (int q = 0; p + q <= d; ++q)
                    for (size_t j = 0; j < pw[q]; ++j) {
                        const Q& y = b[start[q] + j];
                        if (y == 0) continue;
                        r[start[p + q] + i * pw[q] + j] += x * y;
                    }
            }
        return r;
    }
    // Σ_{n<=d} x^n/n! with the constant term of x dropped: the implementation's
    // exponential is over the nilpotent part only when the constant term is 0.
    Vec exp(const Vec& x) const
    {
        Vec r = unit(), p = unit();
        for (int n = 1; n <= d; ++n) {
            p = mul(p, x);
            for (auto& c : p) c /= n;
            for (size_t i = 0; i < r.size(); ++i) r[i] += p[i];
        }
        return r;
    }
    // Σ (-1)^{n+1} (x-1)^n / n for x with constant term 1
    Vec log(const Vec& x) const
    {
        Vec y = x, p = unit(), r = zero();
        y[0] = 0;
        for (int n = 1; n <= d; ++n) {
            p = mul(p, y);
            Q f = (n % 2) ? Q(1, n) : Q(-1, n);
            for (size_t i = 0; i < r.size(); ++i) r[i] += p[i] * f;
        }
        return r;
    }
    Vec antipode(const Vec& x) const
    {
        Vec r(dim());
        for (size_t i = 0; i < dim(); ++i) {
            if (x[i] == 0) continue;
            Word u = word(i);
            Word v(u.rbegin(), u.rend());
            r[index(v)] += (u.size() % 2) ? Q(-x[i]) : x[i];
        }
        return r;
    }
    // a = first-letter half shuffle:  (x u) < v = x (u sh v),  () < v = 0, u < () = u
    std::map<std::pair<size_t, size_t>, std::vector<std::pair<size_t, int>>> hcache;
    std::map<size_t, long> sh(const Word& u, const Word& v)
    {
        std::map<size_t, long> r;
        if (u.empty()) { r[index(v)] = 1; return r; }
        if (v.empty()) { r[index(u)] = 1; return r; }
        // all interleavings
        int n = int(u.size()), m = int(v.size());
        for (unsigned mask = 0; mask < (1u << (n + m)); ++mask) {
            if (__builtin_popcount(mask) != n) continue;
            Word t;
            int a = 0, b = 0;
            for (int k = 0; k < n + m; ++k) t.push_back((mask >> k & 1) ? u[a++] : v[b++]);
            r[index(t)] += 1;
        }
        return r;
    }
    Vec shuffle(const Vec& a, const Vec& b)
    {
        Vec r(dim());
        for (size_t i = 0; i < dim(); ++i) if (a[i] != 0)
            for (size_t j = 0; j < dim(); ++j) if (b[j] != 0) {
                Word u = word(i), v = word(j);
                if (int(u.size() + v.size()) > d) continue;
                for (auto& p : sh(u, v)) r[p.first] += a[i] * b[j] * p.second;
            }
        return r;
    }
    Vec half_shuffle(const Vec& a, const Vec& b)
    {
        Vec r(dim());
        for (size_t i = 1; i < dim(); ++i) if (a[i] != 0)
            for (size_t j = 0; j < dim(); ++j) if (b[j] != 0) {
                Word u = word(i), v = word(j);
                if (int(u.size() + v.size()) > d) continue;
                Word tail(u.begin() + 1, u.end());
                for (auto& p : sh(tail, v)) {
                    Word t = word(p.first);
                    t.insert(t.begin(), u[0]);
                    r[index(t)] += a[i] * b[j] * p.second;
                }
            }
        return r;
    }
    // <adj(m, a), v> = <a, m v>
    Vec adjoint(const Vec& m, const Vec& a) const
    {
        Vec r(dim());
        for (int p = 0; p <= d; ++p)
            for (size_t i = 0; i < pw[p]; ++i) {
                const Q& x = m[start[p] + i];
                if (x == 0) continue;
                for (int q = 0; p + q <= d; ++q)
                    for (size_t j = 0; j < pw[q]; ++j)
                        r[start[q] + j] += x * a[start[p + q] + i * pw[q] + j];
            }
        return r;
    }
};

// ------------------------------------------------------------------ Lie algebra
struct Lies {
    Tensors T;
    int w, d;
    std::vector<std::pair<int, int>> hall;// index (0-based) -> parents (1-based, 0 = none)
    std::vector<size_t> start;            // start[n] = first 0-based index of degree n (n>=1), start[d+1]=dim
    std::vector<int> deg;
    std::vector<Vec> expand;// tensor expansion of each basis element
    std::map<std::pair<int, int>, int> inv;
    Lies(int w_, int d_) : T(w_, d_), w(w_), d(d_)
    {
        start.assign(d + 2, 0);
        for (int a = 1; a <= w; ++a) { hall.push_back({0, a}); deg.push_back(1); }
        start[1] = 0;
        if (d >= 1) start[2] = hall.size();
        for (int n = 2; n <= d; ++n) {
            for (int e = 1; 2 * e <= n; ++e)
                for (size_t i = start[e]; i < start[e + 1]; ++i)
                    for (size_t j = std::max(start[n - e], i + 1); j < start[n - e + 1]; ++j)
                        if (hall[j].first <= int(i) + 1) { hall.push_back({int(i) + 1, int(j) + 1}); deg.push_back(n); }
            start[n + 1] = hall.size();
        }
        for (size_t i = 0; i < hall.size(); ++i) inv[hall[i]] = int(i);
        for (size_t i = 0; i < hall.size(); ++i) {
            if (hall[i].first == 0) {
                Vec e = T.zero();
                e[T.index({hall[i].second})] = 1;
                expand.push_back(e);
            } else {
                const Vec& a = expand[hall[i].first - 1];
                const Vec& b = expand[hall[i].second - 1];
                expand.push_back(sub(T.mul(a, b), T.mul(b, a)));
            }
        }
        build_solver();
    }
    static Vec sub(Vec a, const Vec& b) { for (size_t i = 0; i < a.size(); ++i) a[i] -= b[i]; return a; }
    static Vec add(Vec a, const Vec& b) { for (size_t i = 0; i < a.size(); ++i) a[i] += b[i]; return a; }
    size_t dim() const { return hall.size(); }
    size_t dim(int n) const { return start[n + 1]; }
    Vec zero() const { return Vec(dim()); }
    Vec to_tensor(const Vec& x) const
    {
        Vec r = T.zero();
        for (size_t i = 0; i < dim(); ++i) if (x[i] != 0)
            for (size_t k = T.start[deg[i]]; k < T.start[deg[i] + 1]; ++k)
                if (expand[i][k] != 0) r[k] += x[i] * expand[i][k];
        return r;
    }
    // per-degree solver of  expand * c = t  (t a Lie element)
    struct Deg { std::vector<size_t> rows; std::vector<Vec> invm; };
    std::vector<Deg> solver;
    void build_solver()
    {
        solver.resize(d + 1);
        for (int n = 1; n <= d; ++n) {
            size_t m = start[n + 1] - start[n];
            Deg& S = solver[n];
            // choose m independent rows greedily by elimination
            std::vector<Vec> basis;// reduced rows
            std::vector<size_t> piv;
            for (size_t k = T.start[n]; k < T.start[n + 1] && S.rows.size() < m; ++k) {
                Vec row(m);
                for (size_t i = 0; i < m; ++i) row[i] = expand[start[n] + i][k];
                Vec orig = row;
                for (size_t b = 0; b < basis.size(); ++b)
                    if (row[piv[b]] != 0) {
                        Q f = row[piv[b]] / basis[b][piv[b]];
                        for (size_t i = 0; i < m; ++i) row[i] -= f * basis[b][i];
                    }
                size_t p = 0;
                while (p < m && row[p] == 0) ++p;
                if (p == m) continue;
                basis.push_back(row);
                piv.push_back(p);
                S.rows.push_back(k);
            }
            assert(S.rows.size() == m);
            // invert the m x m matrix
            std::vector<Vec> A(m, Vec(2 * m));
            for (size_t r = 0; r < m; ++r) {
                for (size_t i = 0; i < m; ++i) A[r][i] = expand[start[n] + i][S.rows[r]];
                A[r][m + r] = 1;
            }
            for (size_t c = 0; c < m; ++c) {
                size_t p = c;
                while (A[p][c] == 0) ++p;
                std::swap(A[p], A[c]);
                Q f = 1 / A[c][c];
                for (auto& x : A[c]) x *= f;
                for (size_t r = 0; r < m; ++r)
                    if (r != c && A[r][c] != 0) {
                        Q g = A[r][c];
                        for (size_t i = 0; i < 2 * m; ++i) A[r][i] -= g * A[c][i];
                    }
            }
            S.invm.assign(m, Vec(m));
            for (size_t r = 0; r < m; ++r)
                for (size_t i = 0; i < m; ++i) S.invm[r][i] = A[r][m + i];
        }
    }
    // coefficients of a tensor that is a Lie element; ok=false when it is not one
    Vec from_lie_tensor(const Vec& t, bool* ok = nullptr) const
    {
        Vec r = zero();
        for (int n = 1; n <= d; ++n) {
            const Deg& S = solver[n];
            for (size_t i = 0; i < S.rows.size(); ++i) {
                Q x = 0;
                for (size_t j = 0; j < S.rows.size(); ++j)
                    if (S.invm[i][j] != 0 && t[S.rows[j]] != 0) x += S.invm[i][j] * t[S.rows[j]];
                r[start[n] + i] = x;
            }
        }
        if (ok) *ok = to_tensor(r) == t;
        return r;
    }
    Vec bracket(const Vec& a, const Vec& b) const
    {
        Vec x = to_tensor(a), y = to_tensor(b);
        return from_lie_tensor(sub(T.mul(x, y), T.mul(y, x)));
    }
    // Dynkin projection of an arbitrary tensor:  a1...an -> [a1,[a2,...[a_{n-1},a_n]]]/n
    std::vector<Vec> dyn;// per tensor index (lazy)
    const Vec& dynkin_word(size_t i)
    {
        if (dyn.empty()) dyn.resize(T.dim());
        Vec& r = dyn[i];
        if (!r.empty() || i == 0) { if (r.empty()) r = zero(); return r; }
        Word u = T.word(i);
        Vec letter = zero();
        letter[u[0] - 1] = 1;
        if (u.size() == 1) { r = letter; return r; }
        Word tail(u.begin() + 1, u.end());
        Vec t = dynkin_word(T.index(tail));
        Vec b = bracket(letter, t);
        dyn[i] = b;
        return dyn[i];
    }
    Vec dynkin(const Vec& t)
    {
        Vec r = zero();
        for (size_t i = 1; i < T.dim(); ++i) if (t[i] != 0) {
            const Vec& b = dynkin_word(i);
            int n = T.degree(i);
            for (size_t k = 0; k < r.size(); ++k) if (b[k] != 0) r[k] += t[i] * b[k] / n;
        }
        return r;
    }
    Vec log_of_product(const std::vector<Vec>& ls) const
    {
        Vec s = T.unit();
        for (auto& l : ls) s = T.mul(s, T.exp(to_tensor(l)));
        return from_lie_tensor(T.log(s));
    }
};

}// namespace mdl
#endif
