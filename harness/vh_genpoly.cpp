// S05: generic monomials and polynomials of the platform library.
//   --mode mono   every pair (and triple) of monomials
//   --mode poly   every pair of polynomials
// The type object itself needs a parser library and is not part of the build here; its
// arithmetic, comparison and number traits are.
#include "vh.h"

#include <gmp.h>
#include <map>
#include <optional>
#include <sstream>

#include "generics/polynomial_type/polynomial.h"
#include "generics/polynomial_type/polynomial_arithmetic.h"
#include "generics/polynomial_type/polynomial_comparison.h"
#include "generics/polynomial_type/polynomial_number.h"

using namespace rpy;
using namespace rpy::generics;
using vh::cat;

// ---------------------------------------------------------------------------
// the model: maps from exponents to fractions
struct Q {
    int64_t n = 0, d = 1;
    static int64_t gcd(int64_t a, int64_t b) { a = a < 0 ? -a : a; b = b < 0 ? -b : b; while (b) { int64_t t = a % b; a = b; b = t; } return a; }
    static Q make(int64_t n, int64_t d) { if (d < 0) { n = -n; d = -d; } int64_t g = gcd(n, d); if (g > 1) { n /= g; d /= g; } Q q; q.n = n; q.d = d; return q; }
    bool operator==(const Q& o) const { return n == o.n && d == o.d; }
};
static Q operator+(Q a, Q b) { return Q::make(a.n * b.d + b.n * a.d, a.d * b.d); }
static Q operator-(Q a, Q b) { return Q::make(a.n * b.d - b.n * a.d, a.d * b.d); }
static Q operator*(Q a, Q b) { return Q::make(a.n * b.n, a.d * b.d); }
static Q operator/(Q a, Q b) { return Q::make(a.n * b.d, a.d * b.n); }
static std::string qstr(Q q) { return q.d == 1 ? cat(q.n) : cat(q.n, "/", q.d); }

using Var = std::pair<char, uint64_t>;
using Mono = std::map<Var, int>;
using Poly = std::map<Mono, Q>;

static const Var VARS[] = {{'x', 1}, {'y', 1}, {'x', 2}, {'x', 10}};

static Mono operator*(const Mono& a, const Mono& b) { Mono r = a; for (auto& kv : b) r[kv.first] += kv.second; return r; }
static int degree(const Mono& m) { int d = 0; for (auto& kv : m) d += kv.second; return d; }
static void add(Poly& p, const Mono& m, Q q)
{
    Q r = p.count(m) ? p[m] + q : q;
    if (r.n == 0) p.erase(m); else p[m] = r;
}
static Poly op(char o, const Poly& a, const Poly& b)
{
    Poly r;
    if (o == '*') { for (auto& x : a) for (auto& y : b) add(r, x.first * y.first, x.second * y.second); return r; }
    r = a;
    for (auto& y : b) add(r, y.first, o == '+' ? y.second : Q{} - y.second);
    return r;
}
static std::string mstr(const Mono& m)
{
    std::string s;
    for (auto& kv : m) s += cat(s.empty() ? "" : " ", kv.first.first, kv.first.second, kv.second > 1 ? cat("^", kv.second) : std::string());
    return s;
}
static std::string pstr(const Poly& p)
{
    std::string s = "{";
    for (auto& t : p) s += cat(" ", qstr(t.second), t.first.empty() ? std::string() : "(" + mstr(t.first) + ")");
    return s + " }";
}

// ---------------------------------------------------------------------------
// and the real ones
static Monomial real(const Mono& m, bool backwards = false)
{
    Monomial r;
    if (backwards) for (auto it = m.rbegin(); it != m.rend(); ++it) r.emplace(Indeterminate(it->first.first, it->first.second), it->second);
    else for (auto& kv : m) r.emplace(Indeterminate(kv.first.first, kv.first.second), kv.second);
    return r;
}
static Polynomial real(const Poly& p, bool backwards = false)
{
    Polynomial r;
    auto put = [&](const Mono& m, Q q) { r.emplace(real(m), generics::dtl::RationalCoeff(q.n, q.d)); };
    if (backwards) for (auto it = p.rbegin(); it != p.rend(); ++it) put(it->first, it->second);
    else for (auto& t : p) put(t.first, t.second);
    return r;
}
// Read back; nothing when it is not in the one proper form.
static std::optional<Mono> read(const Monomial& m)
{
    Mono r;
    const Indeterminate* last = nullptr;
    for (const auto& kv : m) {
        if (kv.second <= 0 || (last && !(*last < kv.first))) return {};
        last = &kv.first;
        if (!r.emplace(Var(kv.first.prefix()[0], kv.first.index()), kv.second).second) return {};
    }
    return r;
}
static std::optional<Poly> read(const Polynomial& p)
{
    Poly r;
    const Monomial* last = nullptr;
    for (auto& t : p) {
        auto m = read(t.first);
        if (!m || (last && !(*last < t.first))) return {};
        last = &t.first;
        mpq_srcptr c = t.second.content;
        if (!mpz_fits_slong_p(mpq_numref(c)) || !mpz_fits_slong_p(mpq_denref(c))) return {};
        int64_t n = mpz_get_si(mpq_numref(c)), d = mpz_get_si(mpq_denref(c));
        if (n == 0 || d <= 0 || Q::gcd(n, d) != 1) return {};
        Q q; q.n = n; q.d = d;
        if (!r.emplace(*m, q).second) return {};
    }
    return r;
}
static std::string show(const Polynomial& p)
{
    if (auto r = read(p)) return pstr(*r);
    std::ostringstream os;
    poly_print(os, p);
    return cat("(not in proper form) ", os.str());
}
template <typename F>
static std::string thrown(F&& f)
{
    try { f(); } catch (std::exception& e) { return cat("an exception: ", e.what()); } catch (...) { return "an exception"; }
    return "";
}

static std::vector<Mono> monomials(int vars, int maxe)
{
    std::vector<Mono> r{Mono{}};
    for (int v = 0; v < vars; ++v) {
        std::vector<Mono> n;
        for (auto& m : r) for (int e = 0; e <= maxe; ++e) { Mono x = m; if (e) x[VARS[v]] = e; n.push_back(x); }
        r = n;
    }
    return r;
}

// ---------------------------------------------------------------------------
static void run_mono(vh::Run& run)
{
    const auto ms = monomials(run.thorough() ? 4 : 3, run.thorough() ? 3 : 2);
    std::vector<Monomial> rs;
    for (auto& m : ms) rs.push_back(real(m));
    run.dim(cat("monomials: ", ms.size()));
    for (size_t i = 0; i < ms.size(); ++i) {
        if (!run.mine()) continue;
        const Mono& a = ms[i];
        const Monomial& ra = rs[i];
        run.at(cat("monomial ", mstr(a)));
        run.state();
        auto one = [&](const char* s) { return cat(s, " of the monomial (", mstr(a), ")"); };
        run.check(read(ra) == a, "read", [&] { return one("the indeterminates and powers"); });
        run.check(ra.degree() == degree(a), "degree", [&] { return cat(one("the degree"), " is ", ra.degree()); });
        run.check(ra.type() == int(a.size()) && ra.empty() == a.empty(), "type", [&] { return one("the number of indeterminates"); });
        Monomial back = real(a, true);
        Monomial range(ra.begin(), ra.end());
        run.check(read(back) == a && back == ra && hash_value(back) == hash_value(ra) && read(range) == a, "build", [&] { return one("another construction"); });
        if (a.size() == 1) {
            auto& kv = *a.begin();
            run.check(read(Monomial(Indeterminate(kv.first.first, kv.first.second), kv.second)) == a && read(Monomial(kv.first.first, kv.first.second, kv.second)) == a,
                      "build", [&] { return one("the constructor"); });
        }
        for (auto& v : VARS) {
            auto it = a.find(v);
            run.check(ra[Indeterminate(v.first, v.second)] == (it == a.end() ? 0 : it->second), "power", [&] { return cat(one("a power"), ": ", v.first, v.second); });
            Monomial c(ra);
            c[Indeterminate(v.first, v.second)] += 1;
            Mono ca = a;
            ca[v] += 1;
            run.check(read(c) == ca && read(ra) == a, "power", [&] { return cat(one("raising a power"), ": ", v.first, v.second); });
        }
        std::ostringstream os;
        os << ra;
        run.check(os.str() == mstr(a), "print", [&] { return cat(one("the printed form"), " is ", os.str()); });
        {
            Monomial s(ra);
            s *= s;
            run.check(read(s) == a * a, "product", [&] { return one("the square in place"); });
        }
        for (size_t j = 0; j < ms.size(); ++j) {
            const Mono& b = ms[j];
            const Monomial& rb = rs[j];
            run.state();
            run.step(9);
            auto pair = [&](const char* o) { return cat("(", mstr(a), ") ", o, " (", mstr(b), ")"); };
            const Mono m = a * b;
            Monomial p = ra * rb;
            run.check(read(p) == m, "product", [&] { std::ostringstream os; os << p; return cat(pair("*"), " is ", os.str()); });
            Monomial q(ra);
            q *= rb;
            run.check(read(q) == m, "product", [&] { std::ostringstream os; os << q; return cat(pair("*="), " is ", os.str()); });
            run.check(read(ra) == a && read(rb) == b, "product", [&] { return cat(pair("*"), " changed an operand"); });
            const bool eq = a == b;
            run.check((ra == rb) == eq && (ra != rb) == !eq, "equal", [&] { return pair("=="); });
            run.check(hash_value(p) == hash_value(q) && (!eq || hash_value(ra) == hash_value(rb)), "hash", [&] { return pair("has a hash different from that of"); });
            const bool lt = ra < rb, gt = rb < ra;
            run.check(int(lt) + int(gt) + int(eq) == 1, "order", [&] { return pair("<, == or >: not exactly one holds for"); });
            run.check((ra > rb) == gt, "order", [&] { return pair(">"); });
            run.check((ra <= rb) == !gt, "order", [&] { return pair("<="); });
            run.check((ra >= rb) == !lt, "order", [&] { return pair(">="); });
            if (degree(a) != degree(b)) run.check(lt == (degree(a) < degree(b)), "order", [&] { return pair("< is not by degree first:"); });
            if (lt) for (size_t k = 0; k < ms.size(); ++k)
                if (rb < rs[k]) { run.step(); run.check(ra < rs[k], "order", [&] { return cat(pair("<"), " < (", mstr(ms[k]), ") but not the first < the last"); }); }
        }
    }
}

// ---------------------------------------------------------------------------
static std::vector<Poly> polynomials(bool th)
{
    const auto all = monomials(3, 2);
    std::vector<Mono> ms;
    for (auto& m : all) if (degree(m) <= 2) ms.push_back(m);// 1, x1, x2, x10 and six of degree 2
    std::vector<Q> cs{Q::make(1, 1), Q::make(-1, 1), Q::make(1, 2)};
    std::vector<Poly> r{Poly{}};
    for (size_t i = 0; i < ms.size(); ++i) for (Q c : cs) {
        r.push_back(Poly{{ms[i], c}});
        for (size_t j = i + 1; j < ms.size(); ++j) for (Q d : cs) {
            r.push_back(Poly{{ms[i], c}, {ms[j], d}});
            for (size_t k = j + 1; k < ms.size(); ++k) {
                if (th && c.n == 1) { for (Q e : cs) if (e.d == 1) r.push_back(Poly{{ms[i], c}, {ms[j], d}, {ms[k], e}}); }
                else if (!th && c.n == 1 && c.d == 1 && d.n == 1 && d.d == 1 && (i + j + k) % 3 == 0) r.push_back(Poly{{ms[i], c}, {ms[j], d}, {ms[k], Q::make(-2, 3)}});
            }
        }
    }
    return r;
}

static void run_poly(vh::Run& run)
{
    const bool th = run.thorough();
    const auto ps = polynomials(th);
    run.dim(cat("polynomials: ", ps.size()));
    const PolynomialArithmetic at(nullptr, nullptr);
    const PolynomialComparison ct(nullptr);
    const PolynomialNumber nt(nullptr);
    std::vector<Polynomial> rs;
    for (auto& p : ps) rs.push_back(real(p));

    for (size_t i = 0; i < ps.size(); ++i) {
        if (!run.mine()) continue;
        const Poly& a = ps[i];
        const Polynomial& ra = rs[i];
        run.at(cat("polynomial ", pstr(a)));
        run.state();
        auto one = [&](const char* s) { return cat(s, " of ", pstr(a)); };
        run.check(read(ra) == a, "read", [&] { return one("the terms"); });
        int deg = 0;
        for (auto& t : a) deg = std::max(deg, degree(t.first));
        run.check(ra.degree() == deg, "degree", [&] { return cat(one("the degree"), " is ", ra.degree()); });
        run.check(ra.is_constant() == (deg == 0) && poly_cmp_is_zero(ra) == a.empty(), "constant", [&] { return one("the test for a constant or zero"); });
        {
            Polynomial back = real(a, true);
            run.check(back == ra && hash_value(back) == hash_value(ra) && read(back) == a, "build", [&] { return one("the construction in another order"); });
            if (a.size() == 1) {
                auto& t = *a.begin();
                Polynomial c(real(t.first), generics::dtl::RationalCoeff(t.second.n, t.second.d));
                run.check(read(c) == a, "build", [&] { return one("the constructor"); });
            }
        }
        std::string printed = "{";
        for (auto& t : ra) {
            std::ostringstream os;
            os << t.first;
            char* c = mpq_get_str(nullptr, 10, t.second.content);
            printed += cat(" ", c, t.first.empty() ? std::string() : "(" + os.str() + ")");
            void (*release)(void*, size_t);
            mp_get_memory_functions(nullptr, nullptr, &release);
            release(c, std::strlen(c) + 1);
        }
        printed += " }";
        std::ostringstream os;
        os << ra;
        run.check(os.str() == printed, "print", [&] { return cat(one("the printed form"), " is ", os.str()); });
        {
            Polynomial c(ra), m(ra);
            run.check(hash_value(c) == hash_value(ra), "hash", [&] { return one("the hash of a copy"); });
            poly_add_inplace(c, real(Poly{{Mono{}, Q::make(5, 1)}}));
            run.check(read(ra) == a, "copy", [&] { return one("a change to a copy reaches the original"); });
            Polynomial n(std::move(m));
            run.check(read(n) == a, "copy", [&] { return one("moving"); });
            c = std::move(n);
            run.check(read(c) == a, "copy", [&] { return one("moving"); });
            n = c;
            run.check(read(n) == a && read(c) == a, "copy", [&] { return one("assignment"); });
        }
        // with itself
        for (char o : {'+', '-', '*'}) {
            const Poly m = op(o, a, a);
            Polynomial s(ra);
            if (o == '+') poly_add_inplace(s, s); else if (o == '-') poly_sub_inplace(s, s); else poly_mul_inplace(s, s);
            run.check(read(s) == m, cat("arith", o), [&] { return cat(pstr(a), " ", o, " itself in place is ", show(s)); });
        }
        // division by a fraction
        for (Q q : {Q::make(1, 1), Q::make(-1, 1), Q::make(2, 3), Q::make(-4, 1), Q{}}) {
            Polynomial d(ra);
            Poly m = a;
            if (q.n != 0) for (auto& t : m) t.second = t.second / q;
            generics::dtl::RationalCoeff c(q.n, q.d);
            std::string ex = thrown([&] { poly_div_inplace(d, c); });
            run.check(ex.empty() == (q.n != 0) && read(d) == m, "arith/", [&] { return cat(pstr(a), " / ", qstr(q), " is ", show(d), " ", ex); });
            if (q.n == 0) continue;
            Polynomial e(ra);
            at.unsafe_div_inplace(&e, c.content);
            run.check(read(e) == m, "arith/", [&] { return cat(pstr(a), " / ", qstr(q), " by the trait is ", show(e)); });
            run.step(2);
        }
        for (size_t j = 0; j < ps.size(); ++j) {
            const Poly& b = ps[j];
            const Polynomial& rb = rs[j];
            run.state();
            const bool eq = a == b;
            run.check((ra == rb) == eq && poly_cmp_equal(rb, ra) == eq, "equal", [&] { return cat(pstr(a), " == ", pstr(b)); });
            if (eq) run.check(hash_value(ra) == hash_value(rb), "hash", [&] { return cat("the hash of ", pstr(a)); });
            for (char o : {'+', '-', '*'}) {
                const Poly m = op(o, a, b);
                Polynomial s(ra);
                if (o == '+') poly_add_inplace(s, rb); else if (o == '-') poly_sub_inplace(s, rb); else poly_mul_inplace(s, rb);
                run.check(read(s) == m, cat("arith", o), [&] { return cat(pstr(a), " ", o, " ", pstr(b), " is ", show(s)); });
                if (o != '*' && !th) run.check(hash_value(s) == hash_value(real(m)), "hash", [&] { return cat("the hash of ", pstr(a), " ", o, " ", pstr(b)); });
                run.step();
            }
            run.check(read(rb) == b, "operand", [&] { return cat("operations changed ", pstr(b)); });
            if ((i * 31 + j) % (th ? 64 : 4)) continue;// the same through the traits, for a fixed part of the pairs
            run.check(ct.unsafe_compare_equal(&ra, &rb) == eq, "equal", [&] { return cat(pstr(a), " == ", pstr(b), " by the trait"); });
            for (char o : {'+', '-', '*'}) {
                Polynomial s(ra);
                if (o == '+') at.unsafe_add_inplace(&s, &rb); else if (o == '-') at.unsafe_sub_inplace(&s, &rb); else at.unsafe_mul_inplace(&s, &rb);
                run.check(read(s) == op(o, a, b), cat("arith", o), [&] { return cat(pstr(a), " ", o, " ", pstr(b), " by the trait is ", show(s)); });
                run.step();
            }
        }
    }
    // constants from fractions
    for (int64_t n : {0, 1, -1, 2, 3, -6, 4, 10})
        for (int64_t d : {1, -1, 2, -2, 4, 6, -8}) {
            if (!run.mine()) continue;
            run.at(cat("fraction ", n, "/", d));
            run.state();
            Poly m;
            if (n) m[Mono{}] = Q::make(n, d);
            for (size_t i : {size_t(0), size_t(1), ps.size() - 1}) {
                Polynomial w(rs[i]);
                std::string ex = thrown([&] { nt.unsafe_from_rational(&w, n, d); });
                run.check(ex.empty() && read(w) == m, "fraction", [&] { return cat("the fraction ", n, "/", d, " is ", show(w), " ", ex); });
            }
        }
}

int main(int argc, char** argv)
{
    vh::Run run(argc, argv);
    std::string mode;
    for (int i = 1; i < argc; ++i) if (std::string(argv[i]) == "--mode") mode = argv[i + 1];
    if (mode == "mono") run_mono(run);
    else if (mode == "poly") run_poly(run);
    else return 4;
    return run.finish();
}
