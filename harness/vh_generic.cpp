// S03: generic values, arrays and types of the platform library.
//   --mode ops    every operation on every pair of values of every type
//   --mode conv   every conversion between every pair of types
//   --mode hist   every history of value operations over two slots
//   --mode array  every history of array operations over two slots
#include "vh.h"

#include <gmp.h>

#include <cmath>
#include <limits>
#include <memory>
#include <optional>
#include <sstream>
#include <unordered_map>

#include <roughpy/generics/array.h>
#include <roughpy/generics/arithmetic_trait.h>
#include <roughpy/generics/comparison_trait.h>
#include <roughpy/generics/conversion_trait.h>
#include <roughpy/generics/number_trait.h>
#include <roughpy/generics/type.h>
#include <roughpy/generics/values.h>

using namespace rpy;
using namespace rpy::generics;
using vh::cat;

// ---------------------------------------------------------------------------
// Every limb block is owned: GMP allocates through these functions, which know
// every live block, poison what is released and notice foreign releases.
namespace {
std::unordered_map<void*, size_t> g_live;
uint64_t g_foreign = 0;

void* g_alloc(size_t n)
{
    void* p = std::malloc(n);
    g_live[p] = n;
    return p;
}
void g_free(void* p, size_t)
{
    auto it = g_live.find(p);
    if (it == g_live.end()) { ++g_foreign; return; }
    std::memset(p, 0xA5, it->second);
    g_live.erase(it);
    std::free(p);
}
void* g_realloc(void* p, size_t, size_t n)
{
    auto it = g_live.find(p);
    if (it == g_live.end()) { ++g_foreign; return g_alloc(n); }
    size_t old = it->second;
    void* q = g_alloc(n);
    std::memcpy(q, p, old < n ? old : n);
    g_free(p, old);
    return q;
}
}// namespace

// ---------------------------------------------------------------------------
// The model: exact rationals in a fixed-size representation of our own.
using i128 = __int128;
struct Q {
    i128 n = 0, d = 1;
    static i128 gcd(i128 a, i128 b) { a = a < 0 ? -a : a; b = b < 0 ? -b : b; while (b) { i128 t = a % b; a = b; b = t; } return a; }
    static Q make(i128 n, i128 d) { if (d < 0) { n = -n; d = -d; } i128 g = gcd(n, d); if (g > 1) { n /= g; d /= g; } Q q; q.n = n; q.d = d; return q; }
    bool operator==(const Q& o) const { return n == o.n && d == o.d; }
};
static Q operator+(Q a, Q b) { return Q::make(a.n * b.d + b.n * a.d, a.d * b.d); }
static Q operator-(Q a, Q b) { return Q::make(a.n * b.d - b.n * a.d, a.d * b.d); }
static Q operator*(Q a, Q b) { return Q::make(a.n * b.n, a.d * b.d); }
static Q operator/(Q a, Q b) { return Q::make(a.n * b.d, a.d * b.n); }
static int cmp(Q a, Q b) { i128 l = a.n * b.d, r = b.n * a.d; return l < r ? -1 : (l > r ? 1 : 0); }
static std::string istr(i128 v)
{
    if (v == 0) return "0";
    bool neg = v < 0;
    std::string s;
    while (v) { int dgt = int(v % 10); s += char('0' + (dgt < 0 ? -dgt : dgt)); v /= 10; }
    if (neg) s += '-';
    return std::string(s.rbegin(), s.rend());
}
static std::string qstr(const Q& q) { return q.d == 1 ? istr(q.n) : istr(q.n) + "/" + istr(q.d); }

enum K { F32, F64, I8, U8, I16, U16, I32, U32, I64, U64, APZ, APR, NK };
static const char* kname[] = {"float", "double", "int8", "uint8", "int16", "uint16", "int32", "uint32", "int64", "uint64", "integer", "rational"};

static const Type* tp(int k)
{
    const auto& b = get_builtin_types();
    const auto& m = MultiPrecisionTypes::get();
    switch (k) {
        case F32: return b.float_type.get();
        case F64: return b.double_type.get();
        case I8: return b.int8_type.get();
        case U8: return b.uint8_type.get();
        case I16: return b.int16_type.get();
        case U16: return b.uint16_type.get();
        case I32: return b.int32_type.get();
        case U32: return b.uint32_type.get();
        case I64: return b.int64_type.get();
        case U64: return b.uint64_type.get();
        case APZ: return m.integer_type.get();
        default: return m.rational_type.get();
    }
}
static bool is_float(int k) { return k == F32 || k == F64; }
static bool is_builtin_int(int k) { return k >= I8 && k <= U64; }
static int bits(int k) { return k == I8 || k == U8 ? 8 : k == I16 || k == U16 ? 16 : k == I32 || k == U32 ? 32 : 64; }
static bool is_unsigned_k(int k) { return k == U8 || k == U16 || k == U32 || k == U64; }
static i128 kmin(int k) { return is_unsigned_k(k) ? i128(0) : -(i128(1) << (bits(k) - 1)); }
static i128 kmax(int k) { return is_unsigned_k(k) ? (i128(1) << bits(k)) - 1 : (i128(1) << (bits(k) - 1)) - 1; }

// Is q a value of the type?
static bool representable(int k, const Q& q)
{
    if (k == APR) return true;
    if (k == APZ) return q.d == 1;
    if (is_builtin_int(k)) return q.d == 1 && q.n >= kmin(k) && q.n <= kmax(k);
    if (q.d & (q.d - 1)) return false;
    i128 n = q.n < 0 ? -q.n : q.n;
    if (n == 0) return true;
    while ((n & 1) == 0) n >>= 1;
    return n < (i128(1) << (k == F32 ? 24 : 53));
}

// Read the value behind a pointer, independently of the library.
static std::optional<Q> from_double(double d)
{
    if (!std::isfinite(d)) return {};
    int e;
    double m = std::frexp(d, &e);
    i128 n = i128(std::ldexp(m, 53));
    e -= 53;
    while (n != 0 && (n & 1) == 0 && e < 0) { n /= 2; ++e; }
    if (n == 0) return Q{};
    if (e >= 0) { if (e > 70) return {}; return Q::make(n * (i128(1) << e), 1); }
    if (e < -100) return {};
    return Q::make(n, i128(1) << -e);
}
static std::optional<i128> from_mpz(mpz_srcptr z)
{
    if (mpz_sizeinbase(z, 2) > 120) return {};
    i128 r = 0;
    for (size_t i = mpz_size(z); i-- > 0;) r = (r << 64) | i128(mpz_getlimbn(z, i));
    return mpz_sgn(z) < 0 ? -r : r;
}
static std::optional<Q> read(int k, const void* p)
{
    switch (k) {
        case F32: return from_double(*static_cast<const float*>(p));
        case F64: return from_double(*static_cast<const double*>(p));
        case I8: return Q::make(*static_cast<const int8_t*>(p), 1);
        case U8: return Q::make(*static_cast<const uint8_t*>(p), 1);
        case I16: return Q::make(*static_cast<const int16_t*>(p), 1);
        case U16: return Q::make(*static_cast<const uint16_t*>(p), 1);
        case I32: return Q::make(*static_cast<const int32_t*>(p), 1);
        case U32: return Q::make(*static_cast<const uint32_t*>(p), 1);
        case I64: return Q::make(*static_cast<const int64_t*>(p), 1);
        case U64: return Q::make(i128(*static_cast<const uint64_t*>(p)), 1);
        case APZ: {
            auto v = from_mpz(static_cast<mpz_srcptr>(p));
            if (!v) return {};
            return Q::make(*v, 1);
        }
        default: {
            auto* q = static_cast<mpq_srcptr>(p);
            auto n = from_mpz(mpq_numref(q)), d = from_mpz(mpq_denref(q));
            if (!n || !d || *d <= 0) return {};
            // the numbers are kept in lowest terms: hashes and comparisons rely on it
            if (*n == 0 ? *d != 1 : Q::gcd(*n, *d) != 1) return {};
            return Q::make(*n, *d);
        }
    }
}
// Write a (representable) value into initialised storage, independently of the library.
static void set_mpz(mpz_ptr z, i128 v)
{
    bool neg = v < 0;
    unsigned __int128 u = neg ? -(unsigned __int128) v : (unsigned __int128) v;
    mpz_set_ui(z, uint64_t(u >> 64));
    mpz_mul_2exp(z, z, 64);
    mpz_add_ui(z, z, uint64_t(u));
    if (neg) mpz_neg(z, z);
}
static double to_double(const Q& q) { return double(q.n) / double(q.d); }
static void write(int k, void* p, const Q& q)
{
    switch (k) {
        case F32: *static_cast<float*>(p) = float(to_double(q)); break;
        case F64: *static_cast<double*>(p) = to_double(q); break;
        case I8: *static_cast<int8_t*>(p) = int8_t(q.n); break;
        case U8: *static_cast<uint8_t*>(p) = uint8_t(q.n); break;
        case I16: *static_cast<int16_t*>(p) = int16_t(q.n); break;
        case U16: *static_cast<uint16_t*>(p) = uint16_t(q.n); break;
        case I32: *static_cast<int32_t*>(p) = int32_t(q.n); break;
        case U32: *static_cast<uint32_t*>(p) = uint32_t(q.n); break;
        case I64: *static_cast<int64_t*>(p) = int64_t(q.n); break;
        case U64: *static_cast<uint64_t*>(p) = uint64_t(q.n); break;
        case APZ: set_mpz(static_cast<mpz_ptr>(p), q.n); break;
        default:
            set_mpz(mpq_numref(static_cast<mpq_ptr>(p)), q.n);
            set_mpz(mpq_denref(static_cast<mpq_ptr>(p)), q.d);
    }
}
static Value make(int k, const Q& q)
{
    Value v{TypePtr(tp(k))};
    write(k, v.data(), q);
    return v;
}
// Raw storage of our own holding one value (a source for ConstRef).
struct Raw {
    int k;
    alignas(16) unsigned char buf[64];
    explicit Raw(int kk, const Q& q = Q{}) : k(kk)
    {
        std::memset(buf, 0, sizeof buf);
        if (k == APZ) mpz_init(reinterpret_cast<mpz_ptr>(buf));
        if (k == APR) mpq_init(reinterpret_cast<mpq_ptr>(buf));
        write(k, buf, q);
    }
    Raw(const Raw&) = delete;
    ~Raw()
    {
        if (k == APZ) mpz_clear(reinterpret_cast<mpz_ptr>(buf));
        if (k == APR) mpq_clear(reinterpret_cast<mpq_ptr>(buf));
    }
    void* data() { return buf; }
    ConstRef cref() { return ConstRef(tp(k), buf); }
    Ref ref() { return Ref(tp(k), buf); }
};
static std::string show(int k, const void* p)
{
    auto q = read(k, p);
    return q ? qstr(*q) : std::string("(not a proper value)");
}
static std::string show(int k, const Value& v)
{
    if (!v.is_valid()) return "(empty)";
    if (v.type_ptr() != tp(k)) return cat("(a value of type ", std::string(v.type().id()), ")");
    return show(k, v.data());
}
static bool holds(int k, const Value& v, const Q& q)
{
    if (!v.is_valid() || v.type_ptr() != tp(k) || v.data() == nullptr) return false;
    auto r = read(k, v.data());
    return r && *r == q;
}

// The values enumerated for one type.
static std::vector<Q> values(int k, bool thorough)
{
    std::vector<Q> c;
    auto add = [&](i128 n, i128 d = 1) {
        Q q = Q::make(n, d);
        if (!representable(k, q)) return;
        for (auto& x : c) if (x == q) return;
        c.push_back(q);
    };
    for (i128 v : {0, 1, -1, 2, -2, 3, 7, -10, 12}) add(v);
    if (is_builtin_int(k)) { add(kmin(k)); add(kmax(k)); add(kmax(k) / 2 + 1); add(kmax(k) - 1); add(kmin(k) + 1);
        for (int e : {24, 53}) for (int s : {-1, 1}) for (int o : {-1, 0, 1}) add(s * ((i128(1) << e) + o)); }
    else {
        add(1, 2); add(-3, 4); add(5, 8); add(1, 3); add(-2, 3); add(7, 6); add(127); add(128); add(255); add(256); add(-128); add(-129);
        add(32767); add(32768); add(-32769); add(65535); add(65536);
        add(1 << 24); add((1 << 24) - 1); add((1 << 24) + 1);
        add((i128(1) << 31) - 1); add(i128(1) << 31); add(-(i128(1) << 31) - 1); add((i128(1) << 32) - 1); add(i128(1) << 32);
        add((i128(1) << 53)); add((i128(1) << 53) + 1); add((i128(1) << 62)); add((i128(1) << 63) - 1); add(i128(1) << 63); add(-(i128(1) << 63));
        if (k == APZ || k == APR) { add(-(i128(1) << 63) - 1); add((i128(1) << 64) - 1); add(i128(1) << 64); add(-(i128(1) << 80) - 5); }
        if (k == APR) { add(1, i128(1) << 40); add((i128(1) << 40) + 1, 3); add(22, 7); }
    }
    if (thorough) {
        for (int v = -20; v <= 20; ++v) add(v);
        for (int v = -20; v <= 20; ++v) for (int d = 2; d <= 9; ++d) add(v, d);
        for (int s = 3; s < 62; s += 3) { add(i128(1) << s); add(-(i128(1) << s) + 1); add((i128(1) << s) + 1); }
    }
    return c;
}

template <typename F>
static std::string thrown(F&& f)
{
    try { f(); } catch (std::exception& e) { return cat("an exception: ", e.what()); } catch (...) { return "an exception"; }
    return "";
}

// Model result of an operation inside one type; nothing when it is not claimed.
static std::optional<Q> model_op(int k, char op, const Q& a, const Q& b)
{
    if (op == '/' && b.n == 0) return {};
    if (is_float(k)) {
        double x = to_double(a), y = to_double(b), r;
        if (k == F32) {
            float fx = float(x), fy = float(y);
            float fr = op == '+' ? fx + fy : op == '-' ? fx - fy : op == '*' ? fx * fy : fx / fy;
            r = fr;
        } else r = op == '+' ? x + y : op == '-' ? x - y : op == '*' ? x * y : x / y;
        return from_double(r);
    }
    if (op == '/' && k != APR) return {};
    auto bl = [](i128 v) { int n = 0; if (v < 0) v = -v; while (v) { ++n; v >>= 1; } return n; };
    if (bl(a.n) + bl(b.d) > 120 || bl(b.n) + bl(a.d) > 120 || bl(a.d) + bl(b.d) > 120 || bl(a.n) + bl(b.n) > 120) return {};
    Q r = op == '+' ? a + b : op == '-' ? a - b : op == '*' ? a * b : a / b;
    if (!representable(k, r)) return {};
    return r;
}

static void run_ops(vh::Run& run)
{
    const bool th = run.thorough();
    for (int k = 0; k < NK; ++k) {
        auto vs = values(k, th);
        for (auto& a : vs) {
            if (!run.mine()) continue;
            run.at(cat("ops ", kname[k], " on ", qstr(a)));
            const size_t before = g_live.size();
            {
                Value va = make(k, a);
                run.state();
                auto what = [&](const char* f) { return cat(f, " of the ", kname[k], " ", qstr(a)); };
                // construction from a reference, copies, text, hash
                run.check(holds(k, Value(ConstRef(va)), a), "construct", [&] { return what("a value constructed from a reference"); });
                {
                    Raw raw(k, a);
                    std::string ex = thrown([&] {
                        Value c(TypePtr(tp(k)), raw.data());
                        run.check(holds(k, c, a), "construct-data", [&] { return cat(what("a value constructed from data"), " is ", show(k, c)); });
                    });
                    run.check(ex.empty(), "construct-data", [&] { return cat(what("construction from data"), " raised ", ex); });
                }
                {
                    std::ostringstream os;
                    os.precision(17);
                    os << va;
                    std::string txt = os.str();
                    if (!is_float(k)) run.check(txt == qstr(a), "display", [&] { return cat(what("the text"), " is '", txt, "'"); });
                    std::string ex = thrown([&] {
                        Value p = Value::from_string(TypePtr(tp(k)), txt);
                        run.check(holds(k, p, a), "parse", [&] { return cat(what("parsing the text"), " '", txt, "' gave ", show(k, p)); });
                    });
                    run.check(ex.empty(), "parse", [&] { return cat(what("parsing the text"), " '", txt, "' raised ", ex); });
                }
                for (const char* bad : {"x", "1x"}) {
                    if (is_float(k) && bad[0] == '1') continue;
                    bool raised = !thrown([&] { Value p = Value::from_string(TypePtr(tp(k)), bad); }).empty();
                    run.check(raised, "parse-bad", [&] { return cat("text '", bad, "' was accepted as a ", kname[k]); });
                }
                {
                    Value other = make(k, a);
                    run.check(hash_value(other) == hash_value(va), "hash", [&] { return cat(what("the hash"), " differs between equal values"); });
                }
                // unary minus, number functions
                if (auto m = model_op(k, '-', Q{}, a)) {
                    Value n = -ConstRef(va);
                    run.check(holds(k, n, *m), "negate", [&] { return cat(what("the negative"), " is ", show(k, n)); });
                }
                Q pos = a.n < 0 ? Q::make(-a.n, a.d) : a;
                if (representable(k, pos)) {
                    Value r = math::abs(va);
                    run.check(holds(k, r, pos), "abs", [&] { return cat(what("the absolute value"), " is ", show(k, r)); });
                    Raw dst(k, Q::make(1, 1));
                    auto* nt = trait_cast<NumberTrait>(tp(k)->get_builtin_trait(BuiltinTraitID::Number));
                    nt->abs(dst.ref(), ConstRef(va));
                    run.check(show(k, dst.data()) == qstr(pos), "abs", [&] { return cat(what("the absolute value into a reference"), " is ", show(k, dst.data())); });
                    Value t = nt->abs(ConstRef(va));
                    run.check(holds(k, t, pos), "abs", [&] { return cat(what("the trait's absolute value"), " is ", show(k, t)); });
                }
                {
                    Value re = math::real(va), im = math::imaginary(va);
                    run.check(holds(k, re, a), "real", [&] { return cat(what("the real part"), " is ", show(k, re)); });
                    run.check(holds(k, im, Q{}), "imaginary", [&] { return cat(what("the imaginary part"), " is ", show(k, im)); });
                    auto* nt = trait_cast<NumberTrait>(tp(k)->get_builtin_trait(BuiltinTraitID::Number));
                    Value tre = nt->real(ConstRef(va)), tim = nt->imaginary(ConstRef(va));
                    run.check(holds(k, tre, a), "real", [&] { return cat(what("the trait's real part"), " is ", show(k, tre)); });
                    run.check(holds(k, tim, Q{}), "imaginary", [&] { return cat(what("the trait's imaginary part"), " is ", show(k, tim)); });
                    Raw dst(k, Q::make(1, 1));
                    nt->real(dst.ref(), ConstRef(va));
                    run.check(show(k, dst.data()) == qstr(a), "real", [&] { return cat(what("the real part into a reference"), " is ", show(k, dst.data())); });
                }
                if (is_float(k)) {
                    double x = to_double(a);
                    auto* nt = trait_cast<NumberTrait>(tp(k)->get_builtin_trait(BuiltinTraitID::Number));
                    auto val = [&](const Value& v) { return k == F32 ? double(*v.data<float>()) : *v.data<double>(); };
                    auto same = [&](double got, double want, const char* f, const char* via) {
                        bool ok = (std::isnan(want) && std::isnan(got)) || got == want
                                  || std::fabs(got - want) <= (k == F32 ? 1e-6 : 1e-14) * std::fabs(want);
                        run.check(ok, f, [&] { return cat(via, " ", f, " of the ", kname[k], " ", x, " is ", got); });
                    };
                    auto f32 = [&](double d) { return k == F32 ? double(float(d)) : d; };
                    same(val(math::sqrt(va)), f32(std::sqrt(x)), "sqrt", "the");
                    same(val(nt->sqrt(ConstRef(va))), f32(std::sqrt(x)), "sqrt", "the trait's");
                    same(val(math::log(va)), f32(std::log(x)), "log", "the");
                    same(val(nt->log(ConstRef(va))), f32(std::log(x)), "log", "the trait's");
                    if (x < 80) {
                        same(val(math::exp(va)), f32(std::exp(x)), "exp", "the");
                        same(val(nt->exp(ConstRef(va))), f32(std::exp(x)), "exp", "the trait's");
                    }
                    Value d = make(k, Q{});
                    nt->sqrt(Ref(d), ConstRef(va));
                    same(val(d), f32(std::sqrt(x)), "sqrt", "the trait's (into a reference)");
                    nt->log(Ref(d), ConstRef(va));
                    same(val(d), f32(std::log(x)), "log", "the trait's (into a reference)");
                    if (x < 80) {
                        nt->exp(Ref(d), ConstRef(va));
                        same(val(d), f32(std::exp(x)), "exp", "the trait's (into a reference)");
                    }
                }
                // powers
                for (int e = -3; e <= 4; ++e) {
                    if (k != APR && k != APZ && !is_float(k)) continue;
                    if (k == APZ && e < 0) continue;
                    if (a.n == 0 && e < 0) continue;
                    std::optional<Q> m = Q::make(1, 1);
                    if (is_float(k)) {
                        double x = to_double(a);
                        if (std::fabs(x) > 100 || std::fabs(x * 16 - std::floor(x * 16)) > 0) continue;
                        m = from_double(std::pow(x, e));
                        if (m && !representable(k, *m)) continue;
                    } else {
                        for (int i = 0; i < (e < 0 ? -e : e) && m; ++i) m = model_op(APR, e < 0 ? '/' : '*', *m, a);
                    }
                    if (!m) continue;
                    std::string ex = thrown([&] {
                        Value r = math::pow(va, e);
                        run.check(holds(k, r, *m), "pow", [&] { return cat(what("the power"), " with exponent ", e, " is ", show(k, r), " instead of ", qstr(*m)); });
                        auto* nt = trait_cast<NumberTrait>(tp(k)->get_builtin_trait(BuiltinTraitID::Number));
                        Value t = nt->pow(ConstRef(va), e);
                        run.check(holds(k, t, *m), "pow", [&] { return cat(what("the trait's power"), " with exponent ", e, " is ", show(k, t), " instead of ", qstr(*m)); });
                        Value s = make(k, a);// the result may overwrite the base
                        nt->unsafe_pow(s.data(), s.data(), e);
                        run.check(holds(k, s, *m), "pow", [&] { return cat(what("the power in place"), " with exponent ", e, " is ", show(k, s), " instead of ", qstr(*m)); });
                    });
                    run.check(ex.empty(), "pow", [&] { return cat(what("the power"), " with exponent ", e, " raised ", ex); });
                    run.step(3);
                }
                {// comparisons with the empty value
                    const auto* ct = trait_cast<ComparisonTrait>(tp(k)->get_builtin_trait(BuiltinTraitID::Comparison));
                    const int dummy = 0;
                    const ConstRef none(nullptr, &dummy);
                    std::string ex = thrown([&] {
                        run.check(ct->compare_equal(none, none) && !ct->compare_equal(none, va) && !ct->compare_equal(va, none) && Value() == Value() && !(Value() != Value()), "empty",
                                  [&] { return what("the comparison with the empty value"); });
                    });
                    run.check(ex.empty(), "empty", [&] { return cat(what("the comparison with the empty value"), " raised ", ex); });
                    bool same = false;// may be refused, but is never true
                    thrown([&] { same = va == Value(); });
                    if (!same) thrown([&] { same = Value() == va; });
                    run.check(!same, "empty", [&] { return cat(what("the empty value is equal to that"), ""); });
                }
                for (auto& b : vs) {
                    Value vb = make(k, b);
                    run.state();
                    auto pair = [&](const char* f) { return cat("the ", kname[k], "s ", qstr(a), " ", f, " ", qstr(b)); };
                    int c = cmp(a, b);
                    run.check((va == vb) == (c == 0), "equal", [&] { return pair("=="); });
                    run.check((va != vb) == (c != 0), "equal", [&] { return pair("!="); });
                    run.check((va < vb) == (c < 0), "less", [&] { return pair("<"); });
                    run.check((va <= vb) == (c <= 0), "less", [&] { return pair("<="); });
                    run.check((va > vb) == (c > 0), "less", [&] { return pair(">"); });
                    run.check((va >= vb) == (c >= 0), "less", [&] { return pair(">="); });
                    const auto* ct = trait_cast<ComparisonTrait>(tp(k)->get_builtin_trait(BuiltinTraitID::Comparison));
                    run.check(ct->compare_equal(ConstRef(va), ConstRef(vb)) == (c == 0), "trait-equal", [&] { return cat("the trait's comparison of ", pair("==")); });
                    run.check(ct->compare_less(ConstRef(va), ConstRef(vb)) == (c < 0), "trait-less", [&] { return cat("the trait's comparison of ", pair("<")); });
                    run.check(ct->compare_less_equal(ConstRef(va), ConstRef(vb)) == (c <= 0), "trait-less", [&] { return cat("the trait's comparison of ", pair("<=")); });
                    run.check(ct->compare_less_greater(ConstRef(va), ConstRef(vb)) == (c > 0), "trait-less", [&] { return cat("the trait's comparison of ", pair(">")); });
                    run.check(ct->compare_less_greater_equal(ConstRef(va), ConstRef(vb)) == (c >= 0), "trait-less", [&] { return cat("the trait's comparison of ", pair(">=")); });
                    for (char op : {'+', '-', '*', '/'}) {
                        auto m = model_op(k, op, a, b);
                        if (!m) continue;
                        const char os[2] = {op, 0};
                        const auto* at = trait_cast<ArithmeticTrait>(tp(k)->get_builtin_trait(BuiltinTraitID::Arithmetic));
                        auto chk = [&](const Value& r, const char* via) {
                            run.check(holds(k, r, *m), cat("arith", op), [&] { return cat(pair(os), " (", via, ") is ", show(k, r), " instead of ", qstr(*m)); });
                        };
                        std::string ex = thrown([&] {
                            Value r = op == '+' ? va + vb : op == '-' ? va - vb : op == '*' ? va * vb : va / vb;
                            chk(r, "binary");
                            Value ip = make(k, a);
                            if (op == '+') ip += vb; else if (op == '-') ip -= vb; else if (op == '*') ip *= vb; else ip /= vb;
                            chk(ip, "in place");
                            Value tr = op == '+' ? at->add(va, vb) : op == '-' ? at->sub(va, vb) : op == '*' ? at->mul(va, vb) : at->div(va, vb);
                            chk(tr, "trait");
                            Value ti = make(k, a);
                            if (op == '+') at->add_inplace(ti, vb); else if (op == '-') at->sub_inplace(ti, vb);
                            else if (op == '*') at->mul_inplace(ti, vb); else at->div_inplace(ti, vb);
                            chk(ti, "trait in place");
                            Raw ra(k, a);
                            Ref rr = ra.ref();
                            if (op == '+') rr += vb; else if (op == '-') rr -= vb; else if (op == '*') rr *= vb; else rr /= vb;
                            run.check(show(k, ra.data()) == qstr(*m), cat("arith", op), [&] { return cat(pair(os), " (through a reference) is ", show(k, ra.data())); });
                            if (a == b) {
                                Value s = make(k, a);
                                if (op == '+') s += s; else if (op == '-') s -= s; else if (op == '*') s *= s; else s /= s;
                                chk(s, "with itself");
                            }
                        });
                        run.check(ex.empty(), cat("arith", op), [&] { return cat(pair(os), " raised ", ex); });
                        run.check(holds(k, va, a) && holds(k, vb, b), "operands", [&] { return cat(pair(os), " changed an operand"); });
                        run.step(5);
                    }
                }
            }
            run.check(g_live.size() == before && g_foreign == 0, "memory", [&] { return cat("operations on the ", kname[k], " ", qstr(a), " left ", int64_t(g_live.size()) - int64_t(before), " blocks and released ", g_foreign, " foreign ones"); });
            g_foreign = 0;
        }
        // fractions
        if (is_float(k) || k == APR || k == APZ)
            for (int64_t n : {int64_t(0), int64_t(1), int64_t(-1), int64_t(3), int64_t(-6), int64_t(4), int64_t(10), int64_t(1) << 40})
                for (int64_t d : {int64_t(1), int64_t(-1), int64_t(2), int64_t(-2), int64_t(4), int64_t(6), int64_t(-8), int64_t(0)}) {
                    if (!run.mine()) continue;
                    run.at(cat("fraction ", n, "/", d, " as ", kname[k]));
                    run.state();
                    std::optional<Q> m;
                    if (d != 0) m = is_float(k) ? from_double(k == F32 ? double(float(n) / float(d)) : double(n) / double(d)) : std::optional<Q>(Q::make(n, d));
                    if (k == APZ && m && d != 1 && d != -1) continue;
                    std::string ex = thrown([&] {
                        Value r = math::from_rational(TypePtr(tp(k)), n, d);
                        run.check(m && holds(k, r, *m), "fraction", [&] { return cat("the fraction ", n, "/", d, " as a ", kname[k], " is ", show(k, r)); });
                    });
                    auto* nt = trait_cast<NumberTrait>(tp(k)->get_builtin_trait(BuiltinTraitID::Number));
                    std::string ex2 = thrown([&] {
                        Value r = nt->from_rational(n, d);
                        run.check(m && holds(k, r, *m), "fraction", [&] { return cat("the trait's fraction ", n, "/", d, " as a ", kname[k], " is ", show(k, r)); });
                        Raw dst(k, Q::make(1, 1));
                        nt->from_rational(dst.ref(), n, d);
                        run.check(m && show(k, dst.data()) == qstr(*m), "fraction", [&] { return cat("the fraction ", n, "/", d, " into a reference of type ", kname[k], " is ", show(k, dst.data())); });
                        Value v = make(k, Q::make(1, 1));
                        math::from_rational(Ref(v), n, d);
                        run.check(m && holds(k, v, *m), "fraction", [&] { return cat("the fraction ", n, "/", d, " into a ", kname[k], " is ", show(k, v)); });
                    });
                    run.check(ex2.empty() == bool(m), "fraction", [&] { return cat("the trait's fraction ", n, "/", d, " as a ", kname[k], ex2.empty() ? " was accepted" : " raised " + ex2); });
                    run.check(ex.empty() == bool(m), "fraction", [&] { return cat("the fraction ", n, "/", d, " as a ", kname[k], ex.empty() ? " was accepted" : " raised " + ex); });
                }
    }
}

// ---------------------------------------------------------------------------
static void run_conv(vh::Run& run)
{
    const bool th = run.thorough();
    for (int f = 0; f < NK; ++f)
        for (int t = 0; t < NK; ++t) {
            if (f == t) continue;
            // does every value of f exist in t?
            bool all;
            if (t == APR) all = true;
            else if (t == APZ) all = is_builtin_int(f);
            else if (is_builtin_int(t)) all = is_builtin_int(f) && kmin(f) >= kmin(t) && kmax(f) <= kmax(t);
            else all = (f == F32 && t == F64) || (is_builtin_int(f) && bits(f) - (is_unsigned_k(f) ? 0 : 1) <= (t == F32 ? 24 : 53));
            if (!run.mine()) continue;
            for (int dir = 0; dir < 2; ++dir) {
                run.at(cat("conversion of ", kname[f], " to ", kname[t], dir ? " (from)" : " (to)"));
                const size_t before = g_live.size();
                {
                std::unique_ptr<const ConversionTrait> c = dir ? tp(t)->convert_from(*tp(f)) : tp(f)->convert_to(*tp(t));
                run.state();
                run.dim(c ? "conversions offered" : "conversions not offered");
                run.check(c || f >= APZ || t >= APZ, "conv-offered", [&] { return cat("there is no conversion of ", kname[f], " to ", kname[t], dir ? " (from)" : " (to)"); });
                if (!c) continue;
                run.check(c->src_type().get() == tp(f) && c->dst_type().get() == tp(t), "conv-types", [&] {
                    return cat("the conversion of ", kname[f], " to ", kname[t], dir ? " (from)" : " (to)", " goes from ", std::string(c->src_type()->id()), " to ", std::string(c->dst_type()->id()));
                });
                run.check(!c->is_exact() || all, "conv-exact", [&] { return cat("the conversion of ", kname[f], " to ", kname[t], " claims to be exact"); });
                for (auto& q : values(f, th)) {
                    const bool rep = representable(t, q);
                    Raw src(f, q);
                    run.state();
                    for (int exact = 0; exact < 2; ++exact) {
                        if (!rep && !exact) continue;
                        Raw dst(t, Q::make(1, 1));
                        std::string ex = thrown([&] { c->unsafe_convert(dst.data(), src.data(), exact); });
                        {// the checked ways do the same
                            Raw d2(t, Q::make(1, 1));
                            std::string ex2 = thrown([&] { c->convert(d2.ref(), src.cref(), exact); });
                            run.check(ex2.empty() == ex.empty() && (!ex.empty() || show(t, d2.data()) == show(t, dst.data())), "conv-checked", [&] {
                                return cat("the ", kname[f], " ", qstr(q), " converted into a ", kname[t], " is ", show(t, d2.data()), " or ", show(t, dst.data()), " ", ex2, ex);
                            });
                            ex2 = thrown([&] {
                                Value v = c->convert(src.cref(), exact);
                                run.check(ex.empty() && show(t, v) == show(t, dst.data()), "conv-checked", [&] {
                                    return cat("the ", kname[f], " ", qstr(q), " converted to a value of ", kname[t], " is ", show(t, v), " or ", show(t, dst.data()), " ", ex);
                                });
                            });
                            run.check(ex2.empty() == ex.empty(), "conv-checked", [&] { return cat("the ", kname[f], " ", qstr(q), " converted to a value of ", kname[t], ": ", ex2, " or ", ex); });
                            if (exact) run.check(!thrown([&] { c->convert(src.ref(), src.cref(), exact); }).empty() && !thrown([&] { Value v = c->convert(dst.cref(), exact); }).empty(), "conv-checked", [&] {
                                return cat("the conversion of ", kname[f], " to ", kname[t], " takes operands of other types");
                            });
                        }
                        // an exact conversion never gives another value; it may be refused
                        // only beyond the range in which floating point holds every integer
                        const i128 mag = q.n < 0 ? -q.n : q.n;
                        if (rep && exact && !ex.empty() && is_float(t) && is_builtin_int(f) && mag > (i128(1) << (t == F32 ? 24 : 53))) { run.dim("exact conversions refused"); continue; }
                        if (rep) run.check(ex.empty() && show(t, dst.data()) == qstr(q), "conv-value", [&] {
                            return cat("the ", kname[f], " ", qstr(q), " converted ", exact ? "exactly " : "", "to ", kname[t], dir ? " (from)" : " (to)", ex.empty() ? " is " + show(t, dst.data()) : " raised " + ex);
                        });
                        else run.check(!ex.empty(), "conv-inexact", [&] {
                            return cat("the ", kname[f], " ", qstr(q), " converted exactly to ", kname[t], dir ? " (from)" : " (to)", " is ", show(t, dst.data()));
                        });
                        run.step();
                    }
                }
                }
                run.check(g_live.size() == before && g_foreign == 0, "memory", [&] { return cat("converting ", kname[f], " to ", kname[t], " left blocks"); });
                g_foreign = 0;
            }
            // mixed comparison and arithmetic
            TypePtr common = compute_promotion(tp(f), tp(t));
            run.check(!common || common.get() == tp(f) || common.get() == tp(t), "promotion", [&] { return cat("promotion of ", kname[f], " and ", kname[t]); });
            if (!common) { run.dim("pairs without promotion"); continue; }
            run.dim("pairs with promotion");
            const int ck = common.get() == tp(f) ? f : t;
            for (auto& a : values(f, th))
                for (auto& b : values(t, th)) {
                    if (!representable(ck, a) || !representable(ck, b)) continue;
                    run.at(cat("mixed ", kname[f], " ", qstr(a), " and ", kname[t], " ", qstr(b)));
                    run.state();
                    Value va = make(f, a), vb = make(t, b);
                    auto pair = [&](const char* o) { return cat("the ", kname[f], " ", qstr(a), " ", o, " the ", kname[t], " ", qstr(b)); };
                    int c = cmp(a, b);
                    std::string ex = thrown([&] {
                        run.check((va == vb) == (c == 0), "mixed-equal", [&] { return pair("=="); });
                        run.check((va < vb) == (c < 0), "mixed-less", [&] { return pair("<"); });
                        run.check((va >= vb) == (c >= 0), "mixed-less", [&] { return pair(">="); });
                        run.check((va <= vb) == (c <= 0), "mixed-less", [&] { return pair("<="); });
                        run.check((va > vb) == (c > 0), "mixed-less", [&] { return pair(">"); });
                    });
                    run.check(ex.empty(), "mixed-equal", [&] { return cat(pair("compared with"), " raised ", ex); });
                    for (char op : {'+', '-', '*', '/'}) {
                        auto m = model_op(ck, op, a, b);
                        if (!m) continue;
                        const char os[2] = {op, 0};
                        ex = thrown([&] {
                            Value r = op == '+' ? va + vb : op == '-' ? va - vb : op == '*' ? va * vb : va / vb;
                            run.check(holds(ck, r, *m), cat("mixed", op), [&] { return cat(pair(os), " is ", show(ck, r), " instead of ", qstr(*m)); });
                            if (ck == f) {
                                Raw ra(f, a);
                                Ref rr = ra.ref();
                                if (op == '+') rr += vb; else if (op == '-') rr -= vb; else if (op == '*') rr *= vb; else rr /= vb;
                                run.check(show(f, ra.data()) == qstr(*m), cat("mixed", op), [&] { return cat(pair(os), " in place is ", show(f, ra.data()), " instead of ", qstr(*m)); });
                                const auto* at = trait_cast<ArithmeticTrait>(tp(f)->get_builtin_trait(BuiltinTraitID::Arithmetic));
                                Raw rt(f, a);
                                if (op == '+') at->add_inplace(rt.ref(), vb); else if (op == '-') at->sub_inplace(rt.ref(), vb);
                                else if (op == '*') at->mul_inplace(rt.ref(), vb); else at->div_inplace(rt.ref(), vb);
                                run.check(show(f, rt.data()) == qstr(*m), cat("mixed", op), [&] { return cat(pair(os), " in place by the trait is ", show(f, rt.data()), " instead of ", qstr(*m)); });
                            }
                        });
                        run.check(ex.empty(), cat("mixed", op), [&] { return cat(pair(os), " raised ", ex); });
                        run.step(2);
                    }
                }
        }
}

// ---------------------------------------------------------------------------
struct Slot {
    enum S { Empty, Known, Unknown } s = Empty;
    int k = 0;
    Q q;
};
static void run_hist(vh::Run& run)
{
    const int depth = run.thorough() ? 5 : 4;
    struct TV { int k; Q q; };
    std::vector<TV> lits = {{I32, Q::make(3, 1)}, {F64, Q::make(-2, 1)}, {APZ, Q::make((i128(1) << 70) + 1, 1)}, {APR, Q::make(5, 3)}};
    struct Op { int code, dst, src; };
    std::vector<Op> ops;
    for (int d = 0; d < 2; ++d) {
        int o = 1 - d;
        for (int l = 0; l < 4; ++l) ops.push_back({0, d, l});// destroy and construct from a reference to a literal
        ops.push_back({1, d, o});// destroy and copy construct
        ops.push_back({2, d, o});// destroy and move construct
        ops.push_back({3, d, o});// copy assign
        ops.push_back({4, d, o});// move assign
        ops.push_back({5, d, o});// assign a reference to the other
        ops.push_back({6, d, d});// assign to itself
        ops.push_back({7, d, d});// move to itself
        ops.push_back({8, d, o});// d += other
        ops.push_back({9, d, o});// d -= other (same type only)
        for (int l = 2; l < 4; ++l) ops.push_back({10, d, l});// assign a reference to a literal
    }
    static const char* onames[] = {"construct", "copy-construct", "move-construct", "copy-assign", "move-assign", "assign-ref", "self-assign", "self-move", "add", "sub", "assign-literal"};
    std::vector<int> seq(depth, 0);
    const int n = int(ops.size());
    std::function<void(int)> go = [&](int len) {
        // run the sequence of length `len` from scratch
        run.state();
        std::ostringstream d;
        for (int i = 0; i < len; ++i) d << (i ? ", " : "") << char('A' + ops[seq[i]].dst) << ":" << onames[ops[seq[i]].code] << (ops[seq[i]].code == 0 || ops[seq[i]].code == 10 ? cat(" ", kname[lits[ops[seq[i]].src].k]) : std::string());
        const std::string desc = d.str();
        run.at(cat("history ", desc));
        const size_t before = g_live.size();
        bool valid = true;
        {
            std::unique_ptr<Value> v[2] = {std::make_unique<Value>(), std::make_unique<Value>()};
            Slot m[2];
            for (int i = 0; i < len && valid; ++i) {
                const Op& op = ops[seq[i]];
                const int a = op.dst, b = op.src;
                const bool last = i == len - 1;
                std::string ex;
                bool raise = false;
                switch (op.code) {
                    case 0: {
                        Raw raw(lits[b].k, lits[b].q);
                        v[a].reset();
                        ex = thrown([&] { v[a] = std::make_unique<Value>(raw.cref()); });
                        m[a] = {Slot::Known, lits[b].k, lits[b].q};
                        break;
                    }
                    case 1:
                        if (m[b].s == Slot::Unknown) { valid = false; break; }
                        v[a].reset();
                        ex = thrown([&] { v[a] = std::make_unique<Value>(*static_cast<const Value*>(v[b].get())); });
                        m[a] = m[b];
                        break;
                    case 2:
                        if (m[b].s == Slot::Unknown) { valid = false; break; }
                        v[a].reset();
                        ex = thrown([&] { v[a] = std::make_unique<Value>(std::move(*v[b])); });
                        m[a] = m[b];
                        if (m[b].s == Slot::Known) m[b].s = Slot::Unknown;
                        break;
                    case 3: case 4: case 5: {
                        if (m[b].s == Slot::Unknown || m[a].s == Slot::Unknown) { valid = false; break; }
                        if (op.code == 5 && m[b].s != Slot::Known) { valid = false; break; }
                        raise = m[b].s == Slot::Empty && m[a].s == Slot::Known;
                        Slot want = m[a];
                        if (m[b].s == Slot::Known) {
                            if (m[a].s == Slot::Empty || m[a].k == m[b].k) want = m[b];
                            else {
                                // converting assignment
                                if (!representable(m[a].k, m[b].q) || !tp(m[a].k)->convert_from(*tp(m[b].k))) { valid = false; break; }
                                want.q = m[b].q;
                            }
                        }
                        ex = thrown([&] {
                            if (op.code == 3) *v[a] = *static_cast<const Value*>(v[b].get());
                            else if (op.code == 4) *v[a] = std::move(*v[b]);
                            else *v[a] = ConstRef(*v[b]);
                        });
                        m[a] = want;
                        if (op.code == 4 && m[b].s == Slot::Known) m[b].s = Slot::Unknown;
                        break;
                    }
                    case 6: {
                        if (m[a].s == Slot::Unknown) { valid = false; break; }
                        const Value& self = *v[a];
                        ex = thrown([&] { *v[a] = self; });
                        break;
                    }
                    case 7: {
                        if (m[a].s == Slot::Unknown) { valid = false; break; }
                        Value& self = *v[a];
                        ex = thrown([&] { *v[a] = std::move(self); });
                        break;
                    }
                    case 8: case 9: {
                        if (m[a].s == Slot::Unknown || m[b].s != Slot::Known) { valid = false; break; }
                        Q base = m[a].s == Slot::Empty ? Q{} : m[a].q;
                        if (m[a].s == Slot::Known && m[a].k != m[b].k) { valid = false; break; }
                        auto r = model_op(m[b].k, op.code == 8 ? '+' : '-', base, m[b].q);
                        if (!r) { valid = false; break; }
                        ex = thrown([&] { if (op.code == 8) *v[a] += *v[b]; else *v[a] -= *v[b]; });
                        m[a] = {Slot::Known, m[b].k, *r};
                        break;
                    }
                    case 10: {
                        if (m[a].s == Slot::Unknown) { valid = false; break; }
                        if (m[a].s == Slot::Known && m[a].k != lits[b].k) { valid = false; break; }
                        Raw raw(lits[b].k, lits[b].q);
                        ex = thrown([&] { *v[a] = raw.cref(); });
                        m[a] = {Slot::Known, lits[b].k, lits[b].q};
                        break;
                    }
                }
                if (!valid) break;
                run.step();
                if (!last) continue;
                run.check(ex.empty() != raise, cat("history-", onames[op.code]), [&] { return cat("after ", desc, ": ", ex.empty() ? "no exception" : ex); });
                for (int s = 0; s < 2; ++s) {
                    if (m[s].s == Slot::Unknown) continue;
                    bool ok = m[s].s == Slot::Empty ? !v[s]->is_valid() : holds(m[s].k, *v[s], m[s].q);
                    run.check(ok, cat("history-", onames[op.code]), [&] {
                        return cat("after ", desc, ": slot ", char('A' + s), " holds ", m[s].s == Slot::Empty ? std::string("a value") : show(m[s].k, *v[s]), " instead of ", m[s].s == Slot::Empty ? std::string("nothing") : cat(kname[m[s].k], " ", qstr(m[s].q)));
                    });
                }
            }
        }
        if (valid) run.check(g_live.size() == before && g_foreign == 0, "history-memory", [&] {
            return cat("after ", desc, " and destruction: ", int64_t(g_live.size()) - int64_t(before), " blocks are left and ", g_foreign, " foreign blocks were released");
        });
        g_foreign = 0;
        if (!valid || len == depth) return;
        for (int i = 0; i < n; ++i) {
            seq[len] = i;
            if (len == 1 && !run.mine()) continue;
            go(len + 1);
        }
    };
    go(0);
}

// ---------------------------------------------------------------------------
static void run_array(vh::Run& run)
{
    const int depth = run.thorough() ? 5 : 4;
    struct Op { int code, dst, arg; };
    std::vector<Op> ops;
    for (int d = 0; d < 2; ++d) {
        for (int s : {0, 1, 3}) ops.push_back({0, d, s});// construct of that size and number its elements
        ops.push_back({1, d, 0});                        // copy construct from the other
        ops.push_back({2, d, 0});                        // move construct
        ops.push_back({3, d, 0});                        // copy assign
        ops.push_back({4, d, 0});                        // move assign
        ops.push_back({5, d, 0});                        // self assign
        ops.push_back({6, d, 0});                        // self move
        for (int s : {0, 1, 2, 5}) ops.push_back({7, d, s});// resize
        for (int s : {2, 6}) ops.push_back({8, d, s});      // reserve
        ops.push_back({9, d, 0});                           // add one to the last element
    }
    static const char* onames[] = {"construct", "copy-construct", "move-construct", "copy-assign", "move-assign", "self-assign", "self-move", "resize", "reserve", "increment"};
    struct M { enum { Null, Known, Unknown } s = Null; std::vector<Q> x; };
    for (int k : {int(I16), int(F64), int(APZ), int(APR)}) {
        std::vector<int> seq(depth, 0);
        const int n = int(ops.size());
        std::function<void(int)> go = [&](int len) {
            run.state();
            std::ostringstream d;
            for (int i = 0; i < len; ++i) d << (i ? ", " : "") << char('A' + ops[seq[i]].dst) << ":" << onames[ops[seq[i]].code] << " " << ops[seq[i]].arg;
            const std::string desc = cat(kname[k], " arrays: ", d.str());
            run.at(desc);
            const size_t before = g_live.size();
            bool valid = true;
            {
                std::unique_ptr<Array> v[2] = {std::make_unique<Array>(), std::make_unique<Array>()};
                M m[2];
                int serial = 1;
                for (int i = 0; i < len && valid; ++i) {
                    const Op& op = ops[seq[i]];
                    const int a = op.dst, b = 1 - a;
                    std::string ex;
                    bool raise = false;
                    switch (op.code) {
                        case 0:
                            v[a].reset();
                            ex = thrown([&] { v[a] = std::make_unique<Array>(TypePtr(tp(k)), dimn_t(op.arg)); });
                            m[a].s = M::Known;
                            m[a].x.assign(op.arg, Q{});
                            if (ex.empty()) for (int e = 0; e < op.arg; ++e) {
                                run.check(show(k, (*v[a])[e].data()) == "0", "array-construct", [&] { return cat("after ", desc, ": a new element is ", show(k, (*v[a])[e].data())); });
                                m[a].x[e] = Q::make(serial++, k == APR || k == F64 ? 2 : 1);
                                write(k, (*v[a])[e].data(), m[a].x[e]);
                            }
                            break;
                        case 1:
                            if (m[b].s == M::Unknown) { valid = false; break; }
                            v[a].reset();
                            ex = thrown([&] { v[a] = std::make_unique<Array>(*static_cast<const Array*>(v[b].get())); });
                            m[a] = m[b];
                            break;
                        case 2:
                            if (m[b].s == M::Unknown) { valid = false; break; }
                            v[a].reset();
                            ex = thrown([&] { v[a] = std::make_unique<Array>(std::move(*v[b])); });
                            m[a] = m[b];
                            m[b].s = M::Unknown;
                            break;
                        case 3:
                            if (m[b].s == M::Unknown) { valid = false; break; }
                            ex = thrown([&] { *v[a] = *static_cast<const Array*>(v[b].get()); });
                            m[a] = m[b];
                            break;
                        case 4:
                            if (m[b].s == M::Unknown) { valid = false; break; }
                            ex = thrown([&] { *v[a] = std::move(*v[b]); });
                            m[a] = m[b];
                            m[b].s = M::Unknown;
                            break;
                        case 5: { if (m[a].s == M::Unknown) { valid = false; break; } const Array& s = *v[a]; ex = thrown([&] { *v[a] = s; }); break; }
                        case 6: { if (m[a].s == M::Unknown) { valid = false; break; } Array& s = *v[a]; ex = thrown([&] { *v[a] = std::move(s); }); break; }
                        case 7:
                            if (m[a].s == M::Unknown) { valid = false; break; }
                            raise = m[a].s == M::Null;
                            ex = thrown([&] { v[a]->resize(op.arg); });
                            if (!raise) m[a].x.resize(op.arg, Q{});
                            break;
                        case 8:
                            if (m[a].s == M::Unknown) { valid = false; break; }
                            raise = m[a].s == M::Null;
                            ex = thrown([&] { v[a]->reserve(op.arg); });
                            if (!raise && ex.empty()) run.check(v[a]->capacity() >= dimn_t(op.arg), "array-reserve", [&] { return cat("after ", desc, ": the capacity is ", v[a]->capacity()); });
                            break;
                        case 9:
                            if (m[a].s != M::Known || m[a].x.empty()) { valid = false; break; }
                            {
                                Value one = make(k, Q::make(1, 1));
                                ex = thrown([&] { (*v[a])[m[a].x.size() - 1] += one; });
                                m[a].x.back() = m[a].x.back() + Q::make(1, 1);
                            }
                            break;
                    }
                    if (!valid) break;
                    run.step();
                    if (i != len - 1) continue;
                    run.check(ex.empty() != raise, cat("array-", onames[op.code]), [&] { return cat("after ", desc, ": ", ex.empty() ? "no exception" : ex); });
                    for (int s = 0; s < 2; ++s) {
                        if (m[s].s == M::Unknown) continue;
                        const Array& arr = *v[s];
                        auto where = [&] { return cat("after ", desc, ": array ", char('A' + s)); };
                        if (m[s].s == M::Null) {
                            run.check(arr.type() == nullptr && arr.size() == 0, "array-null", [&] { return cat(where(), " is not the empty array"); });
                            run.check(!thrown([&] { auto r = arr[0]; (void) r; }).empty() && !arr.get(0), "array-null", [&] { return cat(where(), " has an element"); });
                            continue;
                        }
                        bool ok = run.check(arr.type() == tp(k) && arr.size() == m[s].x.size() && arr.capacity() >= arr.size() && arr.empty() == m[s].x.empty(), cat("array-", onames[op.code]), [&] { return cat(where(), " has size ", arr.size(), " instead of ", m[s].x.size()); });
                        if (!ok) continue;
                        for (size_t e = 0; e < m[s].x.size(); ++e) {
                            run.check(show(k, arr[e].data()) == qstr(m[s].x[e]), cat("array-", onames[op.code]), [&] { return cat(where(), " has element ", e, " ", show(k, arr[e].data()), " instead of ", qstr(m[s].x[e])); });
                            auto g = arr.get(e);
                            run.check(g && g->data() == arr[e].data() && arr.get_unchecked(e).data() == arr[e].data(), "array-get", [&] { return cat(where(), " gives another element ", e); });
                            auto gm = v[s]->get_mut(e);
                            run.check(gm && gm->data() == arr[e].data() && v[s]->get_unchecked_mut(e).data() == (*v[s])[e].data(), "array-get", [&] { return cat(where(), " gives another element ", e); });
                        }
                        run.check(!arr.get(m[s].x.size()) && !v[s]->get_mut(m[s].x.size()) && !thrown([&] { auto r = arr[m[s].x.size()]; (void) r; }).empty() && !thrown([&] { auto r = (*v[s])[m[s].x.size()]; (void) r; }).empty(), "array-range", [&] { return cat(where(), " has an element beyond its end"); });
                        if (m[0].s == M::Known && m[1].s == M::Known && !m[0].x.empty() && !m[1].x.empty())
                            run.check(v[0]->data() != v[1]->data(), "array-shared", [&] { return cat(where(), " shares its elements"); });
                    }
                }
            }
            if (valid) run.check(g_live.size() == before && g_foreign == 0, "array-memory", [&] {
                return cat("after ", desc, " and destruction: ", int64_t(g_live.size()) - int64_t(before), " blocks are left and ", g_foreign, " foreign blocks were released");
            });
            g_foreign = 0;
            if (!valid || len == depth) return;
            for (int i = 0; i < n; ++i) {
                seq[len] = i;
                if (len == 1 && !run.mine()) continue;
                go(len + 1);
            }
        };
        go(0);
    }
}

int main(int argc, char** argv)
{
    mp_set_memory_functions(g_alloc, g_realloc, g_free);
    vh::Run run(argc, argv);
    std::string mode;
    for (int i = 1; i < argc; ++i) if (std::string(argv[i]) == "--mode") mode = argv[i + 1];
    if (mode == "ops") run_ops(run);
    else if (mode == "conv") run_conv(run);
    else if (mode == "hist") run_hist(run);
    else if (mode == "array") run_array(run);
    else return 4;
    return run.finish();
}
