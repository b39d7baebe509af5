// Bounded-exhaustive exploration of archives: every value of a bounded domain
// written to and read back from every archive format, and every cut of a
// binary archive.
#include "alg_common.h"
#include <roughpy/platform/archives.h>
#include <roughpy/platform/serialization.h>
#include <roughpy/scalars/random.h>
#include <roughpy/scalars/scalar_serialization.h>
#include <roughpy/intervals/dyadic.h>
#include <roughpy/intervals/dyadic_interval.h>
#include <roughpy/intervals/partition.h>
#include <roughpy/intervals/real_interval.h>
#include <roughpy/streams/brownian_stream.h>
#include <roughpy/streams/lie_increment_stream.h>
#include <roughpy/streams/stream.h>
#include <filesystem>
#include <sstream>
#include <unistd.h>

using namespace vh;
using namespace rpy::scalars;
using rpy::devices::half;
using rpy::devices::bfloat16;
using intervals::Dyadic;
using intervals::DyadicInterval;
using intervals::IntervalType;
using intervals::Partition;
using intervals::RealInterval;

enum Fmt { JSON, XML, BIN, PBIN, NF };
static const char* fname[] = {"JSON", "XML", "binary", "portable binary"};

template <typename Out, typename T> std::string put_(const T& v)
{
    std::stringstream ss;
    {
        Out o(ss);
        o(cereal::make_nvp("value", v));
    }
    return ss.str();
}
template <typename T> std::string put(Fmt f, const T& v)
{
    switch (f) {
        case JSON: return put_<archives::JSONOutputArchive>(v);
        case XML: return put_<archives::XMLOutputArchive>(v);
        case BIN: return put_<archives::BinaryOutputArchive>(v);
        default: return put_<archives::PortableBinaryOutputArchive>(v);
    }
}
template <typename In, typename T> void get_(const std::string& s, T& v)
{
    std::stringstream ss(s);
    In i(ss);
    i(cereal::make_nvp("value", v));
}
template <typename T> void get(Fmt f, const std::string& s, T& v)
{
    switch (f) {
        case JSON: return get_<archives::JSONInputArchive>(s, v);
        case XML: return get_<archives::XMLInputArchive>(s, v);
        case BIN: return get_<archives::BinaryInputArchive>(s, v);
        default: return get_<archives::PortableBinaryInputArchive>(s, v);
    }
}

// Round trips through every format; same(v, u) tells whether the copy is the value.
// fresh() makes the object that is read into.
template <typename T, typename Fresh, typename Same>
void trips(Run& run, const std::string& key, const std::string& what, const T& v, Fresh&& fresh, Same&& same, bool cuts = false, int first = JSON)
{
    run.state();
    for (int f = first; f < NF; ++f) {
        run.at(cat(what, " ", fname[f]));
        run.step();
        std::string s;
        try {
            s = put(Fmt(f), v);
            auto u = fresh();
            get(Fmt(f), s, u);
            std::string why = same(v, u);
            run.check(why.empty(), key + ".value", [&] { return cat(what, " through ", fname[f], ": ", why); });
            // the copy writes the same bytes
            std::string t = put(Fmt(f), u);
            run.check(t == s, key + ".rewrite", [&] { return cat(what, " through ", fname[f], ": the copy is written differently:\n", s.substr(0, 400), "\n", t.substr(0, 400)); });
        } catch (const std::exception& e) {
            run.check(false, key + ".raises", [&] { return cat(what, " through ", fname[f], ": ", e.what()); });
            continue;
        }
        if (cuts && f != XML) {
            size_t n = s.size();
            while (f == JSON && n > 0 && isspace((unsigned char) s[n - 1])) --n;
            for (size_t k = 0; k < n; ++k) {
                run.at(cat(what, " ", fname[f], " cut to ", k, " of ", n));
                run.state();
                bool raised = false;
                try {
                    auto u = fresh();
                    get(Fmt(f), s.substr(0, k), u);
                } catch (const std::exception&) { raised = true; }
                run.check(raised, key + ".cut", [&] { return cat(what, " ", fname[f], " archive cut to ", k, " of ", n, " bytes is read without complaint"); });
            }
        }
    }
}

// ------------------------------------------------------------------ numbers
template <typename T> struct Dom;
template <typename T> static std::vector<T> ints()
{
    std::vector<T> r{0, 1, 2, 10, T(std::numeric_limits<T>::max()), T(std::numeric_limits<T>::max() - 1), T(std::numeric_limits<T>::min())};
    if (std::is_signed<T>::value) { r.push_back(T(-1)); r.push_back(T(-77)); }
    return r;
}
template <typename T> static std::vector<T> flts()
{
    using L = std::numeric_limits<T>;
    return {T(0), T(1), T(-1), T(1) / T(3), T(-2) / T(7), L::max(), L::lowest(), L::min(), L::denorm_min(), L::epsilon(), T(123456.789), T(-0.1)};
}
static mpq big(int a, int p, int b, int q)
{
    Q r = Q(a);
    for (int i = 0; i < p; ++i) r *= 1000003;
    for (int i = 0; i < q; ++i) r /= Q(2147483647);
    return q2m(r / b);
}
static std::vector<mpq> rats() { return {mpq(0), mpq(1), mpq(-1), q2m(Q(1) / 3), q2m(Q(-22) / 7), q2m(Q(2147483648)), big(-5, 3, 3, 0), big(1, 0, 1, 3), big(7, 12, 11, 9), big(-3, 40, 1, 1), big(1, 4, 1, 0), q2m(Q("18446744073709551616")), q2m(Q("-18446744073709551615")), q2m(Q(1) / Q("340282366920938463463374607431768211456"))}; }
static lal::monomial mono(std::initializer_list<std::pair<std::pair<char, int>, int>> l)
{
    lal::monomial m;
    for (auto& t : l) m[lal::monomial::letter_type(t.first.first, t.first.second)] = t.second;
    return m;
}
static std::vector<lal::monomial> monos()
{
    return {mono({}), mono({{{'x', 1}, 1}}), mono({{{'x', 2}, 3}}), mono({{{'x', 1}, 2}, {{'y', 1}, 1}}), mono({{{'a', 70000}, 1}, {{'x', 1}, 1}, {{'z', 3}, 9}})};
}
static std::vector<rpoly> polys(bool few = false)
{
    std::vector<rpoly> r;
    auto ms = monos();
    std::vector<mpq> cs{mpq(0), mpq(1), q2m(Q(-2) / 3), big(7, 12, 11, 9)};
    size_t n = few ? 2 : cs.size(), tot = 1;
    for (size_t i = 0; i < ms.size(); ++i) tot *= n;
    for (size_t c = 0; c < tot; ++c) {
        if (few && c % 3 == 2) continue;
        rpoly p;
        size_t k = c;
        for (auto& m : ms) { auto& x = cs[few ? (k % n) * (1 + c % 3) : k % n]; if (x != mpq(0)) p[m] = x; k /= n; }
        r.push_back(p);
    }
    return r;
}
template <typename T> static std::string str(const T& x)
{
    std::ostringstream o;
    o.precision(20);
    if constexpr (sizeof(T) == 1) o << int(x);
    else if constexpr (std::is_same<T, half>::value || std::is_same<T, bfloat16>::value) o << float(x);
    else o << x;
    return o.str();
}
template <typename T> static bool same_bits(const T& a, const T& b)
{
    if constexpr (std::is_trivially_copyable<T>::value) return memcmp(&a, &b, sizeof(T)) == 0;
    else return a == b;
}
template <typename T> static std::vector<T> halves()
{
    std::vector<T> r;
    for (float x : {0.f, 1.f, -1.f, 0.5f, 1.f / 3, -100.f, 0.0001f, 30000.f}) r.push_back(T(x));
    return r;
}

template <typename T> static void scalar_dom(Run& run, const char* name, const std::vector<T>& dom, const std::vector<T>& small)
{
    for (size_t i = 0; i < dom.size(); ++i) {
        if (!run.mine()) continue;
        const T& x = dom[i];
        auto same = [&](const Scalar& a, const Scalar& b) -> std::string {
            if (!(b.type_info() == a.type_info())) return "the type changed";
            if (!same_bits(*static_cast<const T*>(a.pointer()), *static_cast<const T*>(b.pointer())))
                return cat("became ", str(*static_cast<const T*>(b.pointer())));
            return "";
        };
        auto what = cat("Scalar ", name, " ", str(x));
        trips(run, cat("scalar.", name), what, Scalar(x), [] { return Scalar(); }, same, i < 4 || run.thorough());
        trips(run, cat("scalar.", name, ".over"), what + " over another", Scalar(x), [] { return Scalar(q2m(Q(5) / 7)); }, same);
    }
    // arrays: every tuple of up to 3 values, longer ones by rotation
    const size_t m = small.size();
    for (size_t n = 0; n <= 3; ++n) {
        size_t tot = 1;
        for (size_t i = 0; i < n; ++i) tot *= m;
        for (size_t c = 0; c < tot; ++c) {
            if (!run.mine()) continue;
            std::vector<T> v;
            for (size_t i = 0, k = c; i < n; ++i, k /= m) v.push_back(small[k % m]);
            auto what = cat("array of ", n, " ", name, " #", c);
            std::string d;
            for (auto& x : v) d += " " + str(x);
            auto same = [&](const ScalarArray& a, const ScalarArray& b) -> std::string {
                if (!(b.type_info() == a.type_info())) return "the type changed";
                if (b.size() != v.size()) return cat("size became ", b.size());
                for (size_t i = 0; i < v.size(); ++i)
                    if (!same_bits(static_cast<const T*>(b.pointer())[i], v[i])) return cat("entry ", i, " became ", str(static_cast<const T*>(b.pointer())[i]), " of", d);
                return "";
            };
            const auto info = devices::type_info<T>();
            ScalarArray a(info, (const void*) v.data(), v.size());
            trips(run, cat("array.", name), what, a, [] { return ScalarArray(); }, same, (n == 2 && c == tot - 1) || (run.thorough() && n <= 2));
            auto st = scalar_type_of(info);
            if (st && n > 0) {
                ScalarArray o = (*st)->allocate(v.size());
                for (size_t i = 0; i < v.size(); ++i) static_cast<T*>(o.mut_pointer())[i] = v[i];
                trips(run, cat("array.", name, ".owned"), what + " owned", o, [] { return ScalarArray(); }, same);
                for (int keyed = 0; keyed < 2; ++keyed) {
                    std::vector<key_type> ks;
                    for (size_t i = 0; i < v.size(); ++i) ks.push_back(i * 7 + c % 5 + (i == 2 ? key_type(1) << 40 : 0));
                    KeyScalarArray ka = keyed ? KeyScalarArray(ScalarArray(info, (const void*) v.data(), v.size()), ks.data())
                                              : KeyScalarArray(ScalarArray(info, (const void*) v.data(), v.size()));
                    auto ksame = [&](const KeyScalarArray& a, const KeyScalarArray& b) -> std::string {
                        auto r = same(a, b);
                        if (!r.empty()) return r;
                        if (a.has_keys() != b.has_keys()) return "keys were lost or invented";
                        if (b.has_keys()) for (size_t i = 0; i < v.size(); ++i) if (b.keys()[i] != ks[i]) return cat("key ", i, " became ", b.keys()[i]);
                        return "";
                    };
                    trips(run, cat("keyarray.", name), what + (keyed ? " keyed" : " unkeyed"), ka, [] { return KeyScalarArray(); }, ksame, n == 2 && c == tot - 1);
                }
            }
        }
    }
}
template <typename T> static std::vector<T> firstn(const std::vector<T>& v, size_t n) { return {v.begin(), v.begin() + std::min(n, v.size())}; }

static void scalars_(Run& run)
{
    size_t k = run.thorough() ? 6 : 4;
    scalar_dom<double>(run, "double", flts<double>(), firstn(flts<double>(), k));
    scalar_dom<float>(run, "float", flts<float>(), firstn(flts<float>(), k));
    scalar_dom<half>(run, "half", halves<half>(), firstn(halves<half>(), k));
    scalar_dom<bfloat16>(run, "bfloat16", halves<bfloat16>(), firstn(halves<bfloat16>(), k));
    scalar_dom<mpq>(run, "rational", rats(), {mpq(0), q2m(Q(-22) / 7), big(7, 12, 11, 9), big(1, 4, 1, 0), mpq(1)});
    {
        auto few = polys(true);
        scalar_dom<rpoly>(run, "polynomial", polys(), {few[0], few[1], few[3], few[7], few.back()});
    }
    scalar_dom<int32_t>(run, "int32", ints<int32_t>(), firstn(ints<int32_t>(), 3));
    scalar_dom<int64_t>(run, "int64", ints<int64_t>(), firstn(ints<int64_t>(), 3));
    scalar_dom<uint32_t>(run, "uint32", ints<uint32_t>(), firstn(ints<uint32_t>(), 3));
    scalar_dom<uint64_t>(run, "uint64", ints<uint64_t>(), firstn(ints<uint64_t>(), 3));
    for (auto& m : monos()) {
        if (!run.mine()) continue;
        trips(run, "monomial", cat("monomial ", m), m, [] { return lal::monomial(); }, [](auto& a, auto& b) { return a == b ? std::string() : cat("became ", b); }, true);
        trips(run, "monomial.over", cat("monomial ", m, " over another"), m, [] { return mono({{{'q', 9}, 2}}); }, [](auto& a, auto& b) { return a == b ? std::string() : cat("became ", b); });
    }
    for (auto& p : polys()) {
        if (!run.mine()) continue;
        trips(run, "polynomial", cat("polynomial ", p), p, [] { return rpoly(); }, [](auto& a, auto& b) { return a == b ? std::string() : cat("became ", b); }, run.thorough(), BIN);// text archives take no bare polynomial
    }
}

// ------------------------------------------------------------------ intervals
static void intervals_(Run& run)
{
    for (int n = -3; n <= 6; ++n)
        for (int k = -5; k <= 5; ++k) {
            if (!run.mine()) continue;
            trips(run, "dyadic", cat("Dyadic(", k, ",", n, ")"), Dyadic(k, n), [] { return Dyadic(99, 7); },
                  [](auto& a, auto& b) { return a.multiplier() == b.multiplier() && a.power() == b.power() ? std::string() : cat("became ", b); }, k == 3);
            for (auto t : {IntervalType::Clopen, IntervalType::Opencl})
                for (auto t2 : {IntervalType::Clopen, IntervalType::Opencl})
                    trips(run, "dyadic_interval", cat("DyadicInterval(", k, ",", n, ") type ", int(t)), DyadicInterval(Dyadic(k, n), t), [=] { return DyadicInterval(Dyadic(9, 1), t2); },
                          [](auto& a, auto& b) { return a.multiplier() == b.multiplier() && a.power() == b.power() && a.type() == b.type() && a.inf() == b.inf() && a.sup() == b.sup() ? std::string() : cat("became ", b, " type ", int(b.type())); }, k == 3 && n == 2);
        }
    const double pts[] = {-1e300, -7.25, -1, -1.0 / 3, 0, 5e-324, 0.1, 1, 2.5, 1e9 + 1.0 / 3, 1.7e308};
    const int np = sizeof(pts) / sizeof(*pts);
    for (int a = 0; a < np; ++a)
        for (int b = a; b < np; ++b)
            for (auto t : {IntervalType::Clopen, IntervalType::Opencl}) {
                if (!run.mine()) continue;
                RealInterval ri(pts[a], pts[b], t);
                for (auto t2 : {IntervalType::Clopen, IntervalType::Opencl})
                    trips(run, "real_interval", cat("RealInterval(", pts[a], ",", pts[b], ") type ", int(t)), ri, [=] { return RealInterval(0, 1, t2); },
                          [](auto& a, auto& b) { return a.inf() == b.inf() && a.sup() == b.sup() && a.type() == b.type() ? std::string() : cat("became ", b); }, a == 2 && b == 6);
                for (int i = a; i < b; ++i)
                    for (int j = i; j < b; ++j)
                        for (int l = j; l < b; ++l) {
                            std::vector<param_t> mids;
                            for (int x : {i, j, l}) if (x > a && (mids.empty() || pts[x] > mids.back())) mids.push_back(pts[x]);
                            Partition p(ri, mids);
                            trips(run, "partition", cat("Partition of ", pts[a], ",", pts[b], " with ", mids.size(), " points"), p, [] { return Partition(RealInterval(0, 1), Slice<param_t>()); },
                                  [](auto& a, auto& b) -> std::string {
                                      if (a.size() != b.size() || a.type() != b.type() || a.inf() != b.inf() || a.sup() != b.sup()) return "changed";
                                      for (size_t q = 0; q < a.size(); ++q) if (a[q].inf() != b[q].inf() || a[q].sup() != b[q].sup()) return cat("piece ", q, " changed");
                                      return a == b ? "" : "unequal";
                                  }, a == 2 && b == 6);
                        }
            }
}

// ------------------------------------------------------------------ algebra
template <typename Alg> static void alg_(Run& run, const Cx& cx)
{
    const size_t n = cx.dim<Alg>();
    // coefficient patterns: every support up to 8 basis elements, the edges beyond
    std::vector<uint64_t> sup;
    if (n <= 8) for (uint64_t m = 0; m < (1u << n); ++m) sup.push_back(m);
    else {
        uint64_t all = (n >= 64) ? ~0ull : ((1ull << n) - 1);
        sup = {0, all, 1, all ^ 1, 1ull << (n - 1), all >> 1, 0x5555555555555555ull & all};
        for (size_t i = 1; i < n - 1; ++i) { sup.push_back(1ull << i); sup.push_back((1ull << i) - 1); }
    }
    for (auto m : sup) {
        if (!run.mine()) continue;
        El e;
        e.a.resize(n);
        if (cx.k == KP) e.b.resize(n);
        for (size_t i = 0; i < n; ++i)
            if ((m >> i) & 1) {
                e.a[i] = Q(int(i % 5) - 2 == 0 ? 7 : int(i % 5) - 2) / (cx.k == KD || cx.k == KF ? 4 : 3);
                if (cx.k == KQ && i % 3 == 1) e.a[i] *= m2q(big(7, 12, 11, 9));
                if (cx.k == KP && i % 2) e.b[i] = Q(int(i) - 3) / 5;
            }
        for (auto vt : {VectorType::Dense, VectorType::Sparse})
            for (int style : {0, 1}) {
                Alg a = build<Alg>(cx, e, vt, style);
                auto same = [&](const Alg& a, const Alg& b) -> std::string {
                    if (!b.context() || b.context() != a.context()) return "the context changed";
                    if (b.storage_type() != a.storage_type()) return cat("storage became ", vname(b.storage_type()));
                    if (b.coeff_type() != a.coeff_type()) return "the coefficient type changed";
                    if (!(a == b)) return cat("became ", b);
                    if (cat(a) != cat(b)) return cat("prints as ", b);
                    if (a.size() != b.size()) return cat("size ", a.size(), " became ", b.size());
                    for (auto&& it : a) if (!(b[it.key()] == it.value())) return cat("coefficient of ", it.key(), " changed");
                    return "";
                };
                auto what = cat(AlgT<Alg>::name(), " ", cx.name(), " ", vname(vt), " support ", m, " style ", style);
                auto key = cat(AlgT<Alg>::name(), ".", kname(cx.k), ".", vname(vt));
                trips(run, key, what, a, [] { return Alg(); }, same, (m == sup.back() && style == 0 && n <= 8));
                if (style == 0) trips(run, key + ".over", what + " over another", a, [&] { return build<Alg>(cx, e, vt == VectorType::Dense ? VectorType::Sparse : VectorType::Dense, 0); }, same);
            }
    }
}
template <typename Alg> static void null_(Run& run)
{
    if (!run.mine()) return;
    trips(run, "null", cat("unset ", AlgT<Alg>::name()), Alg(), [] { return Alg(); }, [](auto&, auto& b) { return !b.context() ? std::string() : std::string("became set"); });
}
static void algebra_(Run& run)
{
    null_<FreeTensor>(run);
    null_<ShuffleTensor>(run);
    null_<Lie>(run);
    std::vector<std::pair<int, int>> shapes{{2, 2}, {1, 3}, {3, 1}, {2, 3}};
    if (run.thorough()) { shapes.push_back({3, 2}); shapes.push_back({2, 4}); shapes.push_back({4, 2}); }
    for (auto s : shapes)
        for (int k = 0; k < 4; ++k) {
            Cx cx(s.first, s.second, Kind(k));
            alg_<FreeTensor>(run, cx);
            alg_<ShuffleTensor>(run, cx);
            alg_<Lie>(run, cx);
        }
}

// ------------------------------------------------------------------ streams
static const std::vector<RealInterval>& queries()
{
    static std::vector<RealInterval> q{RealInterval(0, 2), RealInterval(0, 0.5), RealInterval(0.25, 1), RealInterval(0.5, 0.75), RealInterval(0.5, 1.5), RealInterval(1.25, 9)};
    return q;
}
static std::vector<std::string> answers(const streams::Stream& s, size_t n)
{
    std::vector<std::string> r;
    for (size_t i = 0; i < n; ++i) {
        auto& q = queries()[i];
        r.push_back(cat(s.log_signature(q, s.get_default_context())));
        r.push_back(cat(s.signature(q, s.get_default_context())));
    }
    return r;
}
static std::string meta_diff(const streams::Stream& a, const streams::Stream& b)
{
    auto &x = a.metadata(), &y = b.metadata();
    if (x.width != y.width) return "width changed";
    if (x.default_context != y.default_context) return "context changed";
    if (x.data_scalar_type != y.data_scalar_type) return "scalar type changed";
    if (x.cached_vector_type != y.cached_vector_type) return "storage changed";
    if (x.default_resolution != y.default_resolution) return "resolution changed";
    if (!(x.effective_support == y.effective_support)) return "effective support changed";
    if (!(a.support() == b.support())) return "support changed";
    return "";
}
static void streams_(Run& run)
{
    namespace fs = std::filesystem;
    for (Kind k : {KD, KF, KQ})
        for (auto vt : {VectorType::Dense, VectorType::Sparse})
            for (int d = 1; d <= 3; ++d)
                for (int res : {0, 2, 3})
                    for (int kind = 0; kind < 3; ++kind)// Lie increments, the same restricted, Brownian
                        for (size_t before = 0; before <= queries().size(); ++before)
                            for (int f = 0; f < NF; ++f)
                                for (int keep = 0; keep < 2; ++keep) {
                                    if (!run.mine()) continue;
                                    if (kind == 2 && k == KQ) continue;
                                    auto what = cat(kind == 2 ? "Brownian" : kind ? "restricted Lie increment" : "Lie increment", " stream ", kname(k), " ", vname(vt), " depth ", d, " resolution ", res,
                                                    " after ", before, " queries, ", fname[f], keep ? "" : ", cache files removed");
                                    run.at(what);
                                    run.state();
                                    auto c = get_context(2, d, stype(k));
                                    Cx cx(2, d, k);
                                    streams::StreamMetadata md{2, RealInterval(0, 2), c, stype(k), vt, res, IntervalType::Clopen};
                                    uint64_t seed = 5;
                                    auto mk = [&]() -> streams::Stream {
                                        if (kind == 2) return streams::Stream(streams::BrownianStream(stype(k)->get_rng("", seed), md));
                                        std::vector<std::pair<param_t, Lie>> data;
                                        int i = 0;
                                        for (double t : {0.0, 0.25, 0.75, 1.5}) {
                                            El e;
                                            e.a.resize(cx.dim<Lie>());
                                            e.a[0] = Q(1 + i) / 2;
                                            e.a[1] = Q(i * i - 3) / 4;
                                            if (d > 1 && i == 2) e.a[2] = 2;
                                            data.emplace_back(t, build<Lie>(cx, e, vt));
                                            ++i;
                                        }
                                        streams::Stream s(streams::LieIncrementStream(std::move(data), md, std::make_shared<streams::StreamSchema>(2)));
                                        if (kind) return s.restrict(RealInterval(0.25, 1.25));
                                        return s;
                                    };
                                    try {
                                        fs::remove_all(".stream_cache");
                                        auto s = mk();
                                        answers(s, before);
                                        auto text = put(Fmt(f), s);
                                        if (!keep) fs::remove_all(".stream_cache");
                                        streams::Stream u;
                                        get(Fmt(f), text, u);
                                        auto diff = meta_diff(s, u);
                                        run.check(diff.empty(), "stream.meta", [&] { return cat(what, ": ", diff); });
                                        auto asked = answers(s, before), again = answers(u, before);
                                        run.check(again == asked, "stream.asked", [&] { std::string r = what + ": the queries asked before saving are answered differently:"; for (size_t i = 0; i < asked.size(); ++i) r += " " + asked[i] + " then " + again[i] + ";"; return r; });
                                        // from here on both go the same way
                                        auto a = answers(s, queries().size()), b = answers(u, queries().size());
                                        size_t i = 0;
                                        while (i < a.size() && a[i] == b[i]) ++i;
                                        run.check(i == a.size(), "stream.answers", [&] { return cat(what, ": query ", i / 2, " gives ", b[i], ", the original gives ", a[i]); });
                                    } catch (const std::exception& e) {
                                        run.check(false, "stream.raises", [&] { return cat(what, ": ", e.what()); });
                                    }
                                }
    fs::remove_all(".stream_cache");
}

int main(int argc, char** argv)
{
    Run run(argc, argv);
    std::string mode;
    for (int i = 1; i < argc; ++i) if (std::string(argv[i]) == "--mode") mode = argv[i + 1];
    if (!run.out.empty() && run.out[0] != '/') run.out = std::filesystem::current_path().string() + "/" + run.out;
    char dir[] = "/tmp/vh_archive.XXXXXX";
    if (!mkdtemp(dir) || chdir(dir)) return 3;
    if (mode == "values") { scalars_(run); intervals_(run); algebra_(run); }
    else if (mode == "scalars") scalars_(run);
    else if (mode == "intervals") intervals_(run);
    else if (mode == "algebra") algebra_(run);
    else if (mode == "streams") streams_(run);
    else return 3;
    if (chdir("/") == 0) rmdir(dir);
    return run.finish();
}
