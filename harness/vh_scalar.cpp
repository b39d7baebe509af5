// Bounded-exhaustive exploration of Scalar values (S01) and scalar arrays (S02)
// on the real code, against exact rational values.
#include "alg_common.h"
#include <roughpy/scalars/scalar_stream.h>
#include <memory>
#include <cstring>
#include <functional>
#include <optional>
#include <limits>

using namespace vh;
using namespace rpy::scalars;
using rpy::devices::half;
using rpy::devices::bfloat16;
using rpy::devices::TypeInfo;
using I = boost::multiprecision::cpp_int;

enum TT { I8, I16, I32, I64, U8, U16, U32, U64, H, B, F, D, R, P, NT };
static const char* tname[] = {"i8", "i16", "i32", "i64", "u8", "u16", "u32", "u64", "half", "bf16", "float", "double", "rational", "poly"};
static bool isint(TT t) { return t <= U64; }
static bool isflt(TT t) { return t >= H && t <= D; }

struct Val { Q a, b; bool operator==(const Val& o) const { return a == o.a && b == o.b; } };
static std::string show(const Val& v) { return v.a.str() + (v.b == 0 ? "" : "+" + v.b.str() + "*x"); }

// ---- exact representability
static bool rep_bits(const Q& q, int digits, int emax, int emin)
{
    if (q == 0) return true;
    I n = abs(numerator(q)), d = denominator(q);
    if ((d & (d - 1)) != 0) return false;
    int e = int(msb(n)) - int(msb(d));// 2^e <= |q| < 2^(e+1)
    if (e > emax) return false;
    int low = int(lsb(n)) - int(msb(d));
    return e - low < digits && low >= emin;
}
static bool fits(const Val& v, TT t)
{
    if (v.b != 0) return t == P;
    const Q& q = v.a;
    auto in = [&](I lo, I hi) { return denominator(q) == 1 && numerator(q) >= lo && numerator(q) <= hi; };
    switch (t) {
        case I8: return in(-128, 127);
        case I16: return in(-32768, 32767);
        case I32: return in(std::numeric_limits<int32_t>::min(), std::numeric_limits<int32_t>::max());
        case I64: return in(std::numeric_limits<int64_t>::min(), std::numeric_limits<int64_t>::max());
        case U8: return in(0, 255);
        case U16: return in(0, 65535);
        case U32: return in(0, std::numeric_limits<uint32_t>::max());
        case U64: return in(0, std::numeric_limits<uint64_t>::max());
        case H: return rep_bits(q, 11, 15, -24);
        case B: return rep_bits(q, 8, 127, -133);
        case F: return rep_bits(q, 24, 127, -149);
        case D: return rep_bits(q, 53, 1023, -1074);
        default: return true;
    }
}

template <typename T> struct tag { using type = T; };
template <typename Fn> auto with(TT t, Fn&& f)
{
    switch (t) {
        case I8: return f(tag<int8_t>{});
        case I16: return f(tag<int16_t>{});
        case I32: return f(tag<int32_t>{});
        case I64: return f(tag<int64_t>{});
        case U8: return f(tag<uint8_t>{});
        case U16: return f(tag<uint16_t>{});
        case U32: return f(tag<uint32_t>{});
        case U64: return f(tag<uint64_t>{});
        case H: return f(tag<half>{});
        case B: return f(tag<bfloat16>{});
        case F: return f(tag<float>{});
        case D: return f(tag<double>{});
        case R: return f(tag<mpq>{});
        default: return f(tag<rpoly>{});
    }
}
template <typename T> T mk(const Val& v)
{
    if constexpr (std::is_same<T, rpoly>::value) return mkpoly(v.a, v.b);
    else if constexpr (std::is_same<T, mpq>::value) return q2m(v.a);
    else if constexpr (std::is_same<T, half>::value || std::is_same<T, bfloat16>::value) return T(float(q2d(v.a)));
    else if constexpr (std::is_integral<T>::value) return T(I(numerator(v.a)).template convert_to<T>());
    else return T(v.a.template convert_to<T>());
}
template <typename T> Val rd(const T& x)
{
    if constexpr (std::is_same<T, rpoly>::value) {
        Val v;
        for (auto it = x.begin(); it != x.end(); ++it) {
            if (it->key() == lal::monomial()) v.a += m2q(it->value());
            else if (it->key() == mono_x()) v.b += m2q(it->value());
            else return {Q(123456789), Q(987654321)};// a product term: see evalx
        }
        return v;
    } else if constexpr (std::is_same<T, mpq>::value) return {m2q(x), 0};
    else if constexpr (std::is_same<T, half>::value || std::is_same<T, bfloat16>::value) return {Q(double(float(x))), 0};
    else if constexpr (std::is_integral<T>::value) return {Q(I(x)), 0};
    else return {Q(x), 0};
}
static TypeInfo info_of(TT t)
{
    return with(t, [](auto g) { return devices::type_info<typename decltype(g)::type>(); });
}
static TT tt_of(const TypeInfo& i)
{
    for (int t = 0; t < NT; ++t) if (info_of(TT(t)) == i) return TT(t);
    // some promotions build their own infos: go by code and width
    for (int t = 0; t < NT; ++t) if (info_of(TT(t)).code == i.code && info_of(TT(t)).bytes == i.bytes) return TT(t);
    return NT;
}
static bool has_type(TT t) { return t >= H; }
static const ScalarType* st_of(TT t)
{
    switch (t) {
        case H: return *ScalarType::of<half>();
        case B: return *ScalarType::of<bfloat16>();
        case F: return *ScalarType::of<float>();
        case D: return *ScalarType::of<double>();
        case R: return *ScalarType::of<mpq>();
        case P: return *ScalarType::of<rpoly>();
        default: return nullptr;
    }
}

// read a scalar through its raw pointer and type info
static std::optional<Val> value_of(const Scalar& s)
{
    if (s.fast_is_zero()) return Val{0, 0};
    TT t = tt_of(s.type_info());
    if (t == NT) return {};
    return with(t, [&](auto g) -> std::optional<Val> {
        using T = typename decltype(g)::type;
        return rd(*static_cast<const T*>(s.pointer()));
    });
}
// value with x := pt (products of polynomials leave the a + b*x form)
static std::optional<Q> value_at(const Scalar& s, int pt)
{
    if (s.fast_is_zero()) return Q(0);
    TT t = tt_of(s.type_info());
    if (t == NT) return {};
    if (t == P) return evalpoly(*static_cast<const rpoly*>(s.pointer()), pt);
    auto v = value_of(s);
    return v->a;
}

// ---- ways of holding a value
enum Form { VALUE, TYPED, MUTREF, CONSTREF, TYPEREF, ASSIGNED, NUMDEN, ARRAYEL, NF };
static const char* fname[] = {"value", "typed", "ref", "constref", "typeref", "assigned", "num/den", "array-element"};
struct Holder {
    std::shared_ptr<void> store;
    std::shared_ptr<ScalarArray> arr;
    std::unique_ptr<Scalar> s;
    std::function<Val()> back;// read the referenced storage
};
static bool valid_form(TT t, Form f, const Val& v)
{
    if (f == TYPED || f == TYPEREF) return has_type(t);
    if (f == ASSIGNED) return true;
    if (f == ARRAYEL) return has_type(t);
    if (f == NUMDEN)
        return has_type(t) && v.b == 0 && abs(numerator(v.a)) < 2000000 && denominator(v.a) < 2000000;
    return true;
}
static Holder hold(TT t, Form f, const Val& v)
{
    Holder h;
    with(t, [&](auto g) {
        using T = typename decltype(g)::type;
        T x = mk<T>(v);
        if (f == VALUE) { h.s = std::make_unique<Scalar>(x); return; }
        if (f == NUMDEN) {
            h.s = std::make_unique<Scalar>(st_of(t), I(numerator(v.a)).convert_to<int64_t>(), I(denominator(v.a)).convert_to<int64_t>());
            return;
        }
        if (f == TYPED) { h.s = std::make_unique<Scalar>(st_of(t), x); return; }
        if (f == ASSIGNED) { h.s = std::make_unique<Scalar>(info_of(t)); *h.s = x; return; }
        if (f == ARRAYEL) {
            h.arr = std::make_shared<ScalarArray>(st_of(t)->allocate(3));
            h.arr->template as_mut_slice<T>()[1] = x;
            h.s = std::make_unique<Scalar>((*h.arr)[1]);
            // Scalar's copy constructor copies the value; rebuild as reference
            h.s = std::make_unique<Scalar>(st_of(t), (void*) &h.arr->template as_mut_slice<T>()[1]);
            auto a = h.arr;
            h.back = [a]() { return rd(a->template as_slice<T>()[1]); };
            return;
        }
        auto p = std::make_shared<T>(x);
        h.store = p;
        h.back = [p]() { return rd(*p); };
        if (f == MUTREF) h.s = std::make_unique<Scalar>(info_of(t), (void*) p.get());
        else if (f == CONSTREF) h.s = std::make_unique<Scalar>(info_of(t), (const void*) p.get());
        else h.s = std::make_unique<Scalar>(st_of(t), (void*) p.get());
    });
    return h;
}

static std::vector<Val> values(TT t, bool wide)
{
    std::vector<Q> c = {0, 1, -1, 2, -2, 3, Q(1, 2), Q(-3, 2), 5, Q(1, 3), Q(-5, 6), Q(100), Q(-7, 4)};
    if (wide) {
        for (int b : {7, 8, 11, 15, 16, 24, 31, 32, 53, 63, 64, 70})
            for (int o : {-1, 0, 1}) for (int s : {1, -1}) { Q q = Q(I(1) << b) + o; c.push_back(q * s); }
        c.push_back(Q(1) / Q(I(1) << 20));
        c.push_back(Q(-3) / Q(I(1) << 40));
        c.push_back(Q(I("123456789012345678901234567890"), I("987654321987654321")));
    }
    std::vector<Val> r;
    for (auto& q : c) if (fits({q, 0}, t)) r.push_back({q, 0});
    if (t == P) { r.push_back({0, 1}); r.push_back({1, 1}); r.push_back({Q(1, 3), Q(-2)}); r.push_back({-1, -1}); }
    return r;
}

static bool value_ok(const Scalar& s, const Val& want)
{
    auto v = value_of(s);
    return v && *v == want;
}
static std::string got(const Scalar& s)
{
    auto v = value_of(s);
    return v ? show(*v) + ":" + tname[tt_of(s.type_info())] : std::string("<bad type>");
}

template <typename Fn>
static bool guard(Run& run, const std::string& key, const std::function<std::string()>& what, Fn&& f)
{
    try { f(); return true; }
    catch (const std::exception& e) { run.viol(key + ":throws", cat(what(), " threw ", e.what())); return false; }
}

static void unary(Run& run)
{
    for (int t = 0; t < NT; ++t)
        for (auto& v : values(TT(t), true))
            for (int f = 0; f < NF; ++f) {
                if (!valid_form(TT(t), Form(f), v)) continue;
                if (!run.mine()) continue;
                auto what = [&](const char* op) { return [&, op]() { return cat(op, " of ", fname[f], " ", tname[t], " ", show(v)); }; };
                run.at(cat("unary | ", fname[f], " ", tname[t], " ", show(v)));
                run.state();
                run.dim(cat("unary ", tname[t]));
                std::string K = cat("unary:", tname[t], ":", fname[f], ":");
                guard(run, K, what("operations"), [&] {
                    Holder h = hold(TT(t), Form(f), v);
                    Scalar& s = *h.s;
                    run.check(value_ok(s, v), K + "value", [&] { return cat(what("value")(), " is ", got(s)); });
                    run.check(s.is_zero() == (v == Val{0, 0}), K + "is_zero", what("is_zero"));
                    if (!(v == Val{0, 0})) run.check(tt_of(s.type_info()) == t, K + "type", [&] { return cat(what("type")(), " is ", got(s)); });
                    // copies are independent values
                    Scalar c(s);
                    run.check(value_ok(c, v) && !c.is_reference(), K + "copy", [&] { return cat(what("copy")(), " is ", got(c)); });
                    Scalar d(c);
                    Scalar m(std::move(d));
                    run.check(value_ok(m, v), K + "move", [&] { return cat(what("move")(), " is ", got(m)); });
                    Scalar e;
                    e = s;
                    run.check(value_ok(e, v), K + "assign-empty", [&] { return cat(what("assignment to an empty scalar")(), " gives ", got(e)); });
                    Scalar em;
                    em = Scalar(s);
                    run.check(value_ok(em, v), K + "move-assign-empty", [&] { return cat(what("move assignment to an empty scalar")(), " gives ", got(em)); });
                    // negation
                    if (t < U8 || t > U64) {
                        Val n{-v.a, -v.b};
                        if (fits(n, TT(t))) {
                            Scalar ng = -s;
                            run.check(value_ok(ng, n), K + "negate", [&] { return cat(what("negation")(), " is ", got(ng)); });
                            run.check(value_ok(s, v), K + "negate-operand", what("operand after negation"));
                        }
                    }
                    // conversions to every type that can hold the value
                    for (int u = 0; u < NT; ++u) {
                        if (!fits(v, TT(u))) continue;
                        run.step();
                        with(TT(u), [&](auto g) {
                            using T = typename decltype(g)::type;
                            T r = scalar_cast<T>(s);
                            run.check(rd(r) == v, K + "cast:" + tname[u], [&] { return cat(what("scalar_cast")(), " to ", tname[u], " is ", show(rd(r))); });
                        });
                        if (!s.fast_is_zero()) {
                            Scalar x(s);
                            x.change_type(info_of(TT(u)));
                            run.check(value_ok(x, v), K + "change_type:" + tname[u], [&] { return cat(what("change_type")(), " to ", tname[u], " is ", got(x)); });
                            run.check(v == Val{0, 0} || tt_of(x.type_info()) == u, K + "change_type-type:" + tname[u], what("type after change_type"));
                        }
                    }
                    run.check(value_ok(s, v), K + "const", [&] { return cat(what("value")(), " afterwards is ", got(s)); });
                });
            }
}

// type in which lhs op rhs is computed
static bool wide_enough(TT r, TT a, TT b)
{
    if (isint(a) && isint(b)) return isint(r);
    if (a == P || b == P) return r == P;
    if (a == R || b == R) return r == R;
    if (a == D || b == D) return r == D;
    if (a == F || b == F) return r == F || r == D;
    return isflt(r);
}

static void binary(Run& run, int shallow)
{
    std::vector<int> forms_l = {VALUE, TYPED, CONSTREF}, forms_r = {VALUE, TYPED, MUTREF, CONSTREF};
    for (int t = 0; t < NT; ++t)
        for (int u = 0; u < NT; ++u)
            for (auto& v : values(TT(t), false))
                for (auto& w : values(TT(u), false))
                    for (int f : forms_l)
                        for (int g : forms_r) {
                            if (!valid_form(TT(t), Form(f), v) || !valid_form(TT(u), Form(g), w)) continue;
                            if (!run.mine()) continue;
                            run.state();
                            run.at(cat("binary | ", fname[f], " ", tname[t], " ", show(v), " , ", fname[g], " ", tname[u], " ", show(w)));
                            std::string K = cat("binary:", tname[t], ":", tname[u], ":");
                            auto what = [&](const char* op) { return [&, op]() { return cat(fname[f], " ", tname[t], " ", show(v), " ", op, " ", fname[g], " ", tname[u], " ", show(w)); }; };
                            guard(run, K, what("op"), [&] {
                                Holder a = hold(TT(t), Form(f), v), b = hold(TT(u), Form(g), w);
                                bool lz = v == Val{0, 0}, rz = w == Val{0, 0};
                                bool eq = v == w;
                                run.check((*a.s == *b.s) == eq && (*b.s == *a.s) == eq && (*a.s != *b.s) == !eq, K + "eq", what("=="));
                                struct O { char c; };
                                for (char op : {'+', '-', '*', '/'}) {
                                    // exact values at a few points of x
                                    bool skip = false;
                                    if (op == '/' && (rz || isint(TT(t)) && isint(TT(u)))) skip = true;
                                    if (op == '/' && w.b != 0) skip = true;
                                    if (skip) continue;
                                    auto exact = [&](int x) -> Q {
                                        Q p = v.a + v.b * x, q = w.a + w.b * x;
                                        switch (op) { case '+': return p + q; case '-': return p - q; case '*': return p * q; default: return p / q; }
                                    };
                                    run.step();
                                    Scalar r = op == '+' ? *a.s + *b.s : op == '-' ? *a.s - *b.s : op == '*' ? *a.s * *b.s : *a.s / *b.s;
                                    char os[2] = {op, 0};
                                    TT rt = r.fast_is_zero() ? TT(t) : tt_of(r.type_info());
                                    std::string KK = K + os;
                                    bool pure = v.b == 0 && w.b == 0;
                                    Q ex = exact(0);
                                    // overflow / rounding of the result type is the type's own affair
                                    if (rt != NT && pure && isint(rt) && !fits({ex, 0}, rt)) {
                                        if (info_of(rt).bytes >= std::max(info_of(TT(t)).bytes, info_of(TT(u)).bytes)) continue;
                                    }
                                    for (int x : {0, 1, -2, 3}) {
                                        if (pure && x) break;
                                        auto gv = value_at(r, x);
                                        Q e = exact(x);
                                        bool ok = bool(gv);
                                        if (ok && *gv != e) {
                                            if (isflt(rt)) {
                                                double tol = rt == D ? 1e-15 : rt == F ? 2e-7 : rt == H ? 2e-3 : 2e-2;
                                                ok = std::fabs(q2d(*gv) - q2d(e)) <= tol * std::fabs(q2d(e));
                                            } else ok = false;
                                        }
                                        run.check(ok, KK, [&] { return cat(what(os)(), " = ", got(r), " expected ", e.str(), x ? cat(" at x=", x) : std::string()); });
                                    }
                                    if (!r.fast_is_zero() && !lz && !rz)
                                        run.check(wide_enough(rt, TT(t), TT(u)), KK + ":type", [&] { return cat(what(os)(), " has type ", rt == NT ? "?" : tname[rt]); });
                                    run.check(value_ok(*a.s, v) && value_ok(*b.s, w), KK + ":operands", what(os));
                                }
                            });
                        }
}

// references: in-place operators and assignment write through and keep the type
static void inplace(Run& run)
{
    for (int t = 0; t < NT; ++t)
        for (int u = 0; u < NT; ++u)
            for (auto& v : values(TT(t), false))
                for (auto& w : values(TT(u), false))
                    for (int f : {MUTREF, TYPEREF, ARRAYEL, VALUE, TYPED, ASSIGNED})
                        for (int g : {VALUE, TYPED, CONSTREF}) {
                            if (!valid_form(TT(t), Form(f), v) || !valid_form(TT(u), Form(g), w)) continue;
                            bool ref = f == MUTREF || f == TYPEREF || f == ARRAYEL;
                            if (!run.mine()) continue;
                            run.state();
                            run.at(cat("inplace | ", fname[f], " ", tname[t], " ", show(v), " , ", fname[g], " ", tname[u], " ", show(w)));
                            std::string K = cat("inplace:", tname[t], ":", tname[u], ":", fname[f], ":");
                            auto what = [&](const char* op) { return [&, op]() { return cat(fname[f], " ", tname[t], " ", show(v), " ", op, " ", fname[g], " ", tname[u], " ", show(w)); }; };
                            for (char op : {'+', '-', '*', '/', '=', 'm'}) {
                                bool lz = v == Val{0, 0}, rz = w == Val{0, 0};
                                if (op == '/' && (rz || isint(TT(t)) && isint(TT(u)) || isint(TT(t)) && ref || w.b != 0)) continue;
                                if (v.b != 0 && w.b != 0 && op == '*') continue;
                                if (u == P && w.b != 0 && t != P && (ref || op == '=' || op == 'm')) continue;
                                Val e;
                                switch (op) {
                                    case '+': e = {v.a + w.a, v.b + w.b}; break;
                                    case '-': e = {v.a - w.a, v.b - w.b}; break;
                                    case '*': e = {v.a * w.a, v.a * w.b + v.b * w.a}; break;
                                    case '/': e = {v.a / w.a, v.b / w.a}; break;
                                    default: e = w;
                                }
                                // the target's type must be able to hold operand and result exactly
                                if ((ref || op == '=' || op == 'm') && (!fits(w, TT(t)) || !fits(e, TT(t)))) continue;
                                run.step();
                                char os[3] = {op, op == '=' || op == 'm' ? 0 : '=', 0};
                                guard(run, K + os, what(os), [&] {
                                    Holder a = hold(TT(t), Form(f), v), b = hold(TT(u), Form(g), w);
                                    switch (op) {
                                        case '+': *a.s += *b.s; break;
                                        case '-': *a.s -= *b.s; break;
                                        case '*': *a.s *= *b.s; break;
                                        case '/': *a.s /= *b.s; break;
                                        case '=': *a.s = *b.s; break;
                                        default: *a.s = Scalar(*b.s);
                                    }
                                    TT rt = a.s->fast_is_zero() ? TT(t) : tt_of(a.s->type_info());
                                    if (!ref && op != '=' && op != 'm' && (rt == NT || !fits(e, rt))) return;// rounding
                                    run.check(value_ok(*a.s, e), K + os, [&] { return cat(what(os)(), " leaves ", got(*a.s), " expected ", show(e)); });
                                    if (ref) {
                                        run.check(a.back() == e, K + os + ":through", [&] { return cat(what(os)(), " leaves the referenced storage at ", show(a.back()), " expected ", show(e)); });
                                        run.check(a.s->fast_is_zero() || rt == t, K + os + ":reftype", what(os));
                                    }
                                    run.check(value_ok(*b.s, w), K + os + ":operand", what(os));
                                });
                            }
                        }
}

// ------------------------------------------------------------ scalar arrays
struct MA {// model of an array: its type, element values; storage shared between views
    TT t = NT;
    std::vector<Q> v;
};
static bool same_array(const ScalarArray& a, const MA& m, std::string& why)
{
    if (a.size() != m.v.size()) { why = cat("size ", a.size(), " expected ", m.v.size()); return false; }
    if (m.v.empty()) return true;
    TT t = tt_of(a.type_info());
    if (t != m.t) { why = cat("type ", t == NT ? "?" : tname[t], " expected ", tname[m.t]); return false; }
    for (size_t i = 0; i < m.v.size(); ++i) {
        Scalar s(a[i]);
        auto v = value_of(s);
        if (!v || v->a != m.v[i]) { why = cat("element ", i, " is ", v ? show(*v) : "?", " expected ", m.v[i].str()); return false; }
        const Scalar& cs = static_cast<const ScalarArray&>(a)[i];
        auto w = value_of(cs);
        if (!w || w->a != m.v[i]) { why = cat("const element ", i); return false; }
    }
    return true;
}
template <typename T> static std::vector<T> raw(const std::vector<Q>& v) { std::vector<T> r; for (auto& q : v) r.push_back(mk<T>({q, 0})); return r; }

// Build an array in one of several ways; storage kept alive by keep.
enum AForm { A_OWNED, A_TYPED, A_CBORROW, A_MBORROW, A_TBORROW, A_NULL, A_EMPTYT, A_INFO, NA };
static const char* aname[] = {"allocated", "type+size", "const-view", "mutable-view", "typed-view", "null", "typed-empty", "info+size"};
static ScalarArray mkarr(AForm f, TT t, const std::vector<Q>& v, std::vector<std::shared_ptr<void>>& keep)
{
    return with(t, [&](auto g) -> ScalarArray {
        using T = typename decltype(g)::type;
        auto p = std::make_shared<std::vector<T>>(raw<T>(v));
        keep.push_back(p);
        switch (f) {
            case A_OWNED: { ScalarArray a = st_of(t)->allocate(v.size()); auto s = a.template as_mut_slice<T>(); for (size_t i = 0; i < v.size(); ++i) s[i] = (*p)[i]; return a; }
            case A_TYPED: { ScalarArray a(st_of(t), v.size()); auto s = a.template as_mut_slice<T>(); for (size_t i = 0; i < v.size(); ++i) s[i] = (*p)[i]; return a; }
            case A_INFO: { ScalarArray a(info_of(t), v.size()); auto s = a.template as_mut_slice<T>(); for (size_t i = 0; i < v.size(); ++i) s[i] = (*p)[i]; return a; }
            case A_CBORROW: return ScalarArray(info_of(t), (const void*) p->data(), v.size());
            case A_MBORROW: return ScalarArray(info_of(t), (void*) p->data(), v.size());
            case A_TBORROW: return ScalarArray(st_of(t), (const void*) p->data(), v.size());
            case A_NULL: return ScalarArray();
            default: return ScalarArray(st_of(t));
        }
    });
}
static bool aform_ok(AForm f, TT t, size_t n)
{
    if (f == A_NULL || f == A_EMPTYT) return n == 0 && has_type(t);
    if (n == 0) return false;
    if (f == A_OWNED || f == A_TYPED || f == A_TBORROW) return has_type(t);
    if (f == A_INFO) return t < R;
    return true;
}

static std::vector<Q> pattern(TT t, size_t n, int salt)
{
    std::vector<Q> c;
    for (auto& v : values(t, false)) if (v.b == 0) c.push_back(v.a);
    std::vector<Q> r;
    for (size_t i = 0; i < n; ++i) r.push_back(c[(i * 2 + 1 + salt) % c.size()]);
    return r;
}
static std::vector<Q> common(size_t n, int salt)
{
    static const Q c[] = {1, 2, 3, 0, 5, 100};
    std::vector<Q> r;
    for (size_t i = 0; i < n; ++i) r.push_back(c[(i + salt) % 6]);
    return r;
}

static void arrays(Run& run)
{
    size_t maxn = run.thorough() ? 5 : 4;
    // one array: reading, copies, slices, element writes
    for (int t = 0; t < NT; ++t) for (size_t n = 0; n <= maxn; ++n) for (int f = 0; f < NA; ++f) for (int salt = 0; salt < 3; ++salt) {
        if (!aform_ok(AForm(f), TT(t), n)) continue;
        if (!run.mine()) continue;
        run.state();
        run.dim("single arrays");
        auto what = [&] { return cat(aname[f], " array of ", n, " ", tname[t], " (", salt, ")"); };
        run.at(cat("array | ", what()));
        std::string K = cat("array:", aname[f], ":", tname[t], ":");
        std::vector<std::shared_ptr<void>> keep;
        guard(run, K, what, [&] {
            MA m{TT(t), pattern(TT(t), n, salt)};
            ScalarArray a = mkarr(AForm(f), TT(t), m.v, keep);
            std::string why;
            run.check(same_array(a, m, why), K + "build", [&] { return what() + ": " + why; });
            ScalarArray c(a);
            run.check(same_array(c, m, why), K + "copy", [&] { return "copy of " + what() + ": " + why; });
            ScalarArray mv(std::move(c));
            run.check(same_array(mv, m, why), K + "move", [&] { return "move of " + what() + ": " + why; });
            if (n) {
                ScalarArray bw = a.borrow();
                run.check(same_array(bw, m, why), K + "borrow", [&] { return "borrow of " + what() + ": " + why; });
            }
            for (size_t i = 0; i < n; ++i) for (size_t j = i + 1; j <= n; ++j) {
                const ScalarArray& ca = a;
                ScalarArray s = ca[SliceIndex{i, j}];
                MA sm{TT(t), std::vector<Q>(m.v.begin() + i, m.v.begin() + j)};
                run.check(same_array(s, sm, why), K + "slice", [&] { return cat("slice [", i, ",", j, ") of ", what(), ": ", why); });
                run.step();
            }
            // deep assignment is independent of its source
            {
                ScalarArray d;
                d = a;
                run.check(same_array(d, m, why), K + "assign-empty", [&] { return "empty = " + what() + ": " + why; });
                if (f != A_CBORROW && f != A_TBORROW && n) {
                    Scalar nv = with(TT(t), [&](auto g) { return Scalar(mk<typename decltype(g)::type>({Q(7), 0})); });
                    a[0] = nv;
                    run.check(same_array(d, m, why), K + "assign-independent", [&] { return "(empty = " + what() + ") after the source changed: " + why; });
                    MA m2 = m;
                    m2.v[0] = 7;
                    run.check(same_array(a, m2, why), K + "element-assign", [&] { return what() + " after a[0]=7: " + why; });
                    a[n - 1] += nv;
                    m2.v[n - 1] += 7;
                    if (fits({m2.v[n - 1], 0}, TT(t)))
                        run.check(same_array(a, m2, why), K + "element-add", [&] { return what() + " after a[n-1]+=7: " + why; });
                }
            }
        });
    }
    // element writes with conversion from every type
    for (int t = 0; t < NT; ++t) for (int u = 0; u < NT; ++u) for (int f : {A_OWNED, A_MBORROW, A_INFO}) {
        if (!aform_ok(AForm(f), TT(t), 3)) continue;
        for (auto& w : values(TT(u), true)) for (size_t i = 0; i < 3; ++i) {
            if (w.b != 0 || !fits(w, TT(t))) continue;
            if (!run.mine()) continue;
            run.state();
            run.dim("element writes");
            auto what = [&] { return cat(aname[f], " array of ", tname[t], ": a[", i, "] = ", tname[u], " ", show(w)); };
            run.at(cat("array-write | ", what()));
            std::string K = cat("array-write:", tname[t], ":", tname[u], ":");
            std::vector<std::shared_ptr<void>> keep;
            guard(run, K, what, [&] {
                MA m{TT(t), common(3, 1)};
                ScalarArray a = mkarr(AForm(f), TT(t), m.v, keep);
                Holder h = hold(TT(u), VALUE, w);
                a[i] = *h.s;
                m.v[i] = w.a;
                std::string why;
                run.check(same_array(a, m, why), K + "write", [&] { return what() + ": " + why; });
                with(TT(u), [&](auto g) { using T = typename decltype(g)::type; a[(i + 1) % 3] = mk<T>(w); });
                m.v[(i + 1) % 3] = w.a;
                run.check(same_array(a, m, why), K + "write-raw", [&] { return what() + " (raw): " + why; });
            });
        }
    }
    // two arrays: assignment, move assignment, convert_copy, every pair of forms and types
    for (int t = 0; t < NT; ++t) for (int u = 0; u < NT; ++u) for (size_t n = 0; n <= 3; ++n) for (size_t k = 0; k <= 3; ++k)
        for (int f = 0; f < NA; ++f) for (int g = 0; g < NA; ++g) {
            if (!aform_ok(AForm(f), TT(t), n) || !aform_ok(AForm(g), TT(u), k)) continue;
            if (!run.thorough() && f == A_TYPED) continue;
            if (!run.mine()) continue;
            run.state();
            run.dim("array pairs");
            auto what = [&](const char* op) { return [&, op] { return cat(aname[f], " ", n, "x", tname[t], " ", op, " ", aname[g], " ", k, "x", tname[u]); }; };
            run.at(cat("array-pair | ", what("=")()));
            std::string K = cat("array-pair:", aname[f], ":", aname[g], ":");
            std::string why;
            MA mb{TT(u), common(k, 2)};
            MA ma{TT(t), common(n, 0)};
            guard(run, K, what("="), [&] {
                std::vector<std::shared_ptr<void>> keep;
                ScalarArray a = mkarr(AForm(f), TT(t), ma.v, keep), b = mkarr(AForm(g), TT(u), mb.v, keep);
                if (g != A_NULL && g != A_EMPTYT) {
                    a = b;
                    run.check(same_array(a, mb, why), K + "assign", [&] { return what("=")() + ": " + why; });
                    run.check(same_array(b, mb, why), K + "assign-source", [&] { return what("=")() + " source: " + why; });
                    if (g != A_CBORROW && g != A_TBORROW && k) {
                        with(TT(u), [&](auto gg) { using T = typename decltype(gg)::type; b.template as_mut_slice<T>()[0] = mk<T>({Q(9), 0}); });
                        run.check(same_array(a, mb, why), K + "assign-indep", [&] { return what("=")() + " then source changed: " + why; });
                    }
                }
                std::vector<std::shared_ptr<void>> keep2;
                ScalarArray a2 = mkarr(AForm(f), TT(t), ma.v, keep2), b2 = mkarr(AForm(g), TT(u), mb.v, keep2);
                a2 = std::move(b2);
                run.check(same_array(a2, mb, why), K + "move-assign", [&] { return what("= move")() + ": " + why; });
            });
            // conversion into an owned array of a registered type
            if (has_type(TT(t)) && (f == A_OWNED || f == A_MBORROW) && n >= k && k > 0) {
                K = cat("convert:", aname[f], ":", aname[g], ":", tname[t], ":", tname[u], ":");
                guard(run, K, what("convert_copy"), [&] {
                    std::vector<std::shared_ptr<void>> keep;
                    ScalarArray a = mkarr(AForm(f), TT(t), ma.v, keep), b = mkarr(AForm(g), TT(u), mb.v, keep);
                    st_of(TT(t))->convert_copy(a, b);
                    MA e{TT(t), mb.v};
                    // an owned destination may keep its size or take that of the source
                    if (f == A_MBORROW && n > k) e.v.insert(e.v.end(), ma.v.begin() + k, ma.v.end());
                    ScalarArray head = f == A_OWNED && a.size() > k ? a[SliceIndex{0, k}] : a.borrow();
                    run.check(same_array(head, e, why), K + "convert_copy", [&] { return what("convert_copy")() + ": " + why; });
                    run.check(same_array(b, mb, why), K + "convert-source", [&] { return what("convert_copy")() + " source: " + why; });
                });
            }
        }
    // keyed arrays
    for (int t = H; t < NT; ++t) for (size_t n = 1; n <= 4; ++n) for (int own = 0; own < 2; ++own) for (int op = 0; op < 5; ++op) for (int tk = 0; tk < 3; ++tk) {
        if (!run.mine()) continue;
        run.state();
        run.dim("keyed arrays");
        auto what = [&] { return cat("keyed array ", n, "x", tname[t], " own=", own, " op=", op, " target=", tk); };
        run.at(cat("keyed | ", what()));
        std::string K = cat("keyed:", op, ":", tk, ":");
        guard(run, K, what, [&] {
            std::vector<std::shared_ptr<void>> keep;
            MA m{TT(t), common(n, 1)};
            std::vector<key_type> keys;
            for (size_t i = 0; i < n; ++i) keys.push_back(10 + 3 * i);
            auto source = [&] {
                if (!own) return KeyScalarArray(mkarr(A_OWNED, TT(t), m.v, keep), keys.data());
                KeyScalarArray s(mkarr(A_OWNED, TT(t), m.v, keep));
                s.allocate_keys();
                std::copy(keys.begin(), keys.end(), s.keys());
                return s;
            };
            auto target = [&] {
                KeyScalarArray s(mkarr(tk == 0 ? A_NULL : A_OWNED, TT(t), tk == 0 ? std::vector<Q>{} : common(2, 3), keep));
                if (tk == 2) { s.allocate_keys(); s.keys()[0] = 77; s.keys()[1] = 78; }
                return s;
            };
            auto verify = [&](const KeyScalarArray& x, const char* n1) {
                std::string why;
                bool ok = same_array(x, m, why);
                const key_type* p = x.keys();
                if (ok) for (size_t i = 0; i < n; ++i) if (p == nullptr || p[i] != keys[i]) { ok = false; why = p ? "wrong keys" : "keys lost"; break; }
                run.check(ok, K + n1, [&] { return cat(n1, " ", what(), ": ", why); });
            };
            KeyScalarArray s = source();
            verify(s, "source");
            switch (op) {
                case 0: if (own) { KeyScalarArray c(s); verify(c, "copy"); } break;
                case 1: { KeyScalarArray c(std::move(s)); verify(c, "move"); break; }
                case 2: { KeyScalarArray c = target(); c = s; verify(c, "assign"); verify(s, "assign-source"); break; }
                case 3: { KeyScalarArray c = target(); c = std::move(s); verify(c, "move-assign"); break; }
                default: if (own) { KeyScalarArray c = std::move(s).copy_or_move(); verify(c, "copy_or_move"); }
            }
        });
    }
    // streams of rows cut from one block of data
    for (int t = H; t < NT; ++t) for (size_t r = 1; r <= 3; ++r) for (size_t c = 1; c <= 3; ++c) {
        if (!run.mine()) continue;
        run.state();
        auto what = [&] { return cat("stream of ", r, "x", c, " ", tname[t]); };
        run.at(cat("rows | ", what()));
        guard(run, "rows", what, [&] {
            std::vector<std::shared_ptr<void>> keep;
            MA m{TT(t), common(r * c, 1)};
            ScalarArray base = mkarr(A_MBORROW, TT(t), m.v, keep);
            ScalarStream s(base, {r, c});
            ScalarStream s2(base, {1, r * c}), s3(base, {1, 1});
            s2 = s;
            { ScalarStream s4(s); s3 = std::move(s4); }
            run.check(s3.row_count() == r && s3.type() == s.type(), "rows:shape", what);
            run.check(s.row_count() == r && s2.row_count() == r && s.max_row_size() == c, "rows:shape", what);
            for (size_t i = 0; i < r; ++i) {
                MA e{TT(t), std::vector<Q>(m.v.begin() + i * c, m.v.begin() + (i + 1) * c)};
                std::string why;
                run.check(same_array(s[i], e, why) && same_array(s2[i], e, why), "rows:row", [&] { return what() + why; });
                for (size_t j = 0; j < c; ++j) {
                    Scalar x(s[std::pair<dimn_t, dimn_t>(i, j)]);
                    run.check(value_ok(x, {e.v[j], 0}), "rows:cell", what);
                }
            }
        });
    }
}

int main(int argc, char** argv)
{
    Run run(argc, argv);
    std::string mode;
    for (int i = 1; i < argc; ++i) if (std::string(argv[i]) == "--mode") mode = argv[i + 1];
    if (mode == "scalar") { unary(run); binary(run, 0); inplace(run); }
    else if (mode == "unary") unary(run);
    else if (mode == "binary") binary(run, 0);
    else if (mode == "inplace") inplace(run);
    else if (mode == "arrays") arrays(run);
    else return 3;
    return run.finish();
}
