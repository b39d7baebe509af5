// Streams built and queried through the C++ interface: every constructor of the increment,
// tick and piecewise streams, schemas, and the tick construction helper, against an exact model.
#include "alg_common.h"
#include <roughpy/intervals/real_interval.h>
#include <roughpy/intervals/dyadic_interval.h>
#include <roughpy/intervals/partition.h>
#include <roughpy/streams/stream.h>
#include <roughpy/streams/schema.h>
#include <roughpy/streams/lie_increment_stream.h>
#include <roughpy/streams/piecewise_abelian_stream.h>
#include <roughpy/streams/tick_stream.h>
#include <roughpy/streams/stream_construction_helper.h>
#include <memory>

using namespace rpy::streams;
using intervals::RealInterval;
using intervals::DyadicInterval;
using intervals::IntervalType;

static vh::Run* R;
static Cx& cx(int w, int d, Kind k)
{
    static std::map<std::tuple<int, int, int>, std::unique_ptr<Cx>> m;
    auto& p = m[{w, d, int(k)}];
    if (!p) p.reset(new Cx(w, d, k));
    return *p;
}
static double fl(double x, int r) { return std::ldexp(std::floor(std::ldexp(x, r)), -r); }
static int p2r(double len) { int e; std::frexp(len, &e); return -std::min(0, e - 1); }

using Row = std::vector<double>;// letters (and time)
struct Ev { double t; Vec lie; };

// the exact answer of a query, and comparison with the stream's
struct Model {
    int res = 0;
    double lo = 0, hi = 0;
    std::vector<Ev> ev;// in time order
    std::vector<Vec> window(double a, double b, int r, bool dflt) const
    {
        std::vector<Vec> out;
        if (b < lo || a > hi) return out;
        a = std::max(a, lo); b = std::min(b, hi);
        if (a == b) return out;
        if (dflt) r = std::max(res, p2r(b - a) + 2);
        for (auto& e : ev) {
            double q = fl(e.t, res);
            if (fl(a, r) <= q && q < fl(b, r)) out.push_back(e.lie);
        }
        return out;
    }
};

static Vec lie_coeffs(const Cx& c, const Lie& l)
{
    Vec v(c.L.dim());
    if (l.is_zero()) return v;
    for (auto i = l.begin(); i != l.end(); ++i) { auto p = *i; v[p.key() - 1] = sval(p.value(), c.k, 0); }
    return v;
}
static Vec ten_coeffs(const Cx& c, const FreeTensor& t)
{
    Vec v(c.T.dim());
    for (auto i = t.begin(); i != t.end(); ++i) { auto p = *i; v[p.key()] = sval(p.value(), c.k, 0); }
    return v;
}
static bool same(const Vec& a, const Vec& b, Kind k)
{
    Q s = std::max(maxabs(a), maxabs(b));
    for (size_t i = 0; i < a.size(); ++i) if (!close(a[i], b[i], k, s)) return false;
    return true;
}

static void query_all(const Cx& base, const Stream& s, const Model& m, const std::string& key, const std::string& what,
                      const std::vector<double>& grid, const std::vector<int>& ress)
{
    auto md = s.metadata();
    std::map<std::string, std::pair<Vec, Vec>> memo;
    auto expect = [&](const Cx& c, const std::vector<Vec>& w) -> std::pair<Vec, Vec>& {
        std::string id = std::to_string(c.d);
        for (auto& v : w) { id += '|'; for (auto& q : v) id += q.str() + ","; }
        auto it = memo.find(id);
        if (it != memo.end()) return it->second;
        Vec sg = c.T.unit();
        for (auto& v : w) {
            Vec z = c.L.zero();
            for (size_t i = 0; i < z.size() && i < v.size(); ++i) z[i] = v[i];
            sg = c.T.mul(sg, c.T.exp(c.L.to_tensor(z)));
        }
        Vec lg = c.L.from_lie_tensor(c.T.log(sg));
        return memo[id] = {sg, lg};
    };
    auto one = [&](const Cx& c, const std::string& form, const std::vector<Vec>& w,
                   const std::function<Lie()>& flog, const std::function<FreeTensor()>& fsig) {
        R->state();
        auto& e = expect(c, w);
        try {
            Vec l = lie_coeffs(c, flog());
            R->check(same(l, e.second, c.k), key + ":log_signature", [&] {
                return vh::cat(what, " ", form, ": got ", show(l), " want ", show(e.second)); });
            Vec t = ten_coeffs(c, fsig());
            R->check(same(t, e.first, c.k), key + ":signature", [&] {
                return vh::cat(what, " ", form, ": got ", show(t), " want ", show(e.first)); });
        } catch (const std::exception& x) {
            R->check(false, key + ":raises", [&] { return vh::cat(what, " ", form, ": ", x.what()); });
        }
    };
    const Context& dc = *base.c;
    Cx& low = cx(base.w, base.d - 1, base.k);
    const Stream& cs = s;
    for (size_t i = 0; i < grid.size(); ++i)
        for (size_t j = i + 1; j < grid.size(); ++j) {
            double a = grid[i], b = grid[j];
            RealInterval I(a, b);
            std::string q = vh::cat("[", a, ",", b, ")");
            one(base, q, m.window(a, b, 0, true), [&] { return cs.log_signature(I); }, [&] { return cs.signature(I); });
            one(low, q + " lower depth", m.window(a, b, 0, true), [&] { return cs.log_signature(I, *low.c); },
                [&] { return cs.signature(I, *low.c); });
            for (int r : ress) {
                std::string qr = vh::cat(q, " resolution ", r);
                auto w = m.window(a, b, r, false);
                one(base, qr, w, [&] { return cs.log_signature(I, r); }, [&] { return cs.signature(I, r); });
                one(low, qr + " lower depth", w, [&] { return cs.log_signature(I, r, *low.c); },
                    [&] { return cs.signature(I, r, *low.c); });
                // the interface itself neither trims nor refines
                Model u = m;
                u.lo = -1e9; u.hi = 1e9;
                one(base, qr + " through the interface", u.window(a, b, r, false),
                    [&] { return s.impl()->log_signature(I, r, dc); }, [&] { return s.impl()->signature(I, r, dc); });
            }
        }
    Stream mut(s.impl());
    one(base, "whole", m.window(m.lo, m.hi, 0, true), [&] { return cs.log_signature(); }, [&] { return cs.signature(); });
    one(low, "whole lower depth", m.window(m.lo, m.hi, 0, true), [&] { return cs.log_signature(*low.c); }, [&] { return cs.signature(*low.c); });
    for (int r : ress) {
        one(base, vh::cat("whole resolution ", r), m.window(m.lo, m.hi, r, false), [&] { return mut.log_signature(r); },
            [&] { return mut.signature(r); });
        one(low, vh::cat("whole resolution ", r, " lower depth"), m.window(m.lo, m.hi, r, false),
            [&] { return cs.log_signature(r, *low.c); }, [&] { return cs.signature(r, *low.c); });
    }
}

static StreamMetadata meta(const Cx& c, double lo, double hi, int res, VectorType vt)
{
    return {deg_t(c.w), RealInterval(lo, hi), c.c, c.c->ctype(), vt, resolution_t(res), IntervalType::Clopen};
}
template <typename F> static void with_values(Kind k, const std::vector<double>& d, F&& f)
{
    if (k == KD) { f(d); return; }
    if (k == KF) { std::vector<float> v(d.begin(), d.end()); f(v); return; }
    std::vector<mpq> v;
    for (double x : d) v.push_back(q2m(Q(x)));
    f(v);
}

static const std::vector<std::vector<double>> TIMES = {
        {}, {0.0}, {0.75}, {-1.25}, {0.0, 1.0}, {-0.75, 0.5}, {0.25, 0.3}, {1.0, 1.0}, {0.0, 0.5, 1.0},
        {-1.5, -0.25, 1.0}, {0.1, 0.2, 2.7}, {0.5, 0.5, 2.0}, {-2.0, -0.1, 0.1, 2.0}};
static const std::vector<std::vector<Row>> ROWS = {
        {{1, 0}, {0, 1}, {1, -1}, {2, 0.5}}, {{0, 1}, {0, 0}, {3, 1}, {-1, 2}}, {{1, 1}, {-1, -1}, {0.25, 0}, {1, 0}}};

static Vec lie_of(const Cx& c, const Row& r)
{
    Vec v = c.L.zero();
    for (size_t i = 0; i < r.size(); ++i) v[i] = Q(r[i]);
    return v;
}

static void increments()
{
    const bool th = R->thorough();
    std::vector<int> resset = th ? std::vector<int>{0, 1, 2, 4} : std::vector<int>{0, 2};
    for (Kind k : {KD, KF, KQ})
        for (VectorType vt : {VectorType::Dense, VectorType::Sparse})
            for (int res : resset)
                for (bool time : {false, true})
                    for (auto& T : TIMES)
                        for (auto& RS : ROWS)
                            for (std::string how : {"buffer", "stream", "keyed stream", "elements"}) {
                                if (how == "elements" && time) continue;
                                if (!R->mine()) continue;
                                int depth = 3;
                                Cx& c = cx(time ? 3 : 2, depth, k);
                                std::string what = vh::cat("LieIncrementStream from ", how, " ", kname(k), " ", vname(vt), " resolution ", res,
                                                           time ? " with time" : "", " times");
                                for (double t : T) what += vh::cat(" ", t);
                                what += " rows";
                                size_t n = T.size();
                                for (size_t i = 0; i < n; ++i) what += vh::cat(" (", RS[i][0], ",", RS[i][1], ")");
                                R->at(what);
                                R->dim("streams of " + how);
                                double lo = n ? std::min(0.0, std::floor(T[0])) : 0, hi = n ? std::floor(T.back()) + 1 : 1;
                                Model m;
                                m.res = res; m.lo = lo; m.hi = hi;
                                double prev = 0;
                                for (size_t i = 0; i < n; ++i) {
                                    Row r = RS[i];
                                    if (time) r.push_back(k == KF ? double(float(T[i] - prev)) : T[i] - prev);
                                    prev = T[i];
                                    m.ev.push_back({T[i], lie_of(c, r)});
                                }
                                auto sch = std::make_shared<StreamSchema>(2);
                                if (time) sch->parametrization()->add_as_channel();
                                auto go = [&](LieIncrementStream&& st) {
                                    Stream s(std::move(st));
                                    std::vector<double> grid{lo - 0.5, lo, -0.25, 0.2, 0.5, 1.0, hi, hi + 1};
                                    std::sort(grid.begin(), grid.end());
                                    grid.erase(std::unique(grid.begin(), grid.end()), grid.end());
                                    query_all(c, s, m, "increments:" + how, what, grid, {0, res, res + 1});
                                };
                                try {
                                    if (how == "elements") {
                                        std::vector<std::pair<param_t, Lie>> data;
                                        for (size_t i = 0; i < n; ++i) data.emplace_back(T[i], build<Lie>(c, El{m.ev[i].lie, {}}, vt));
                                        go(LieIncrementStream(std::move(data), meta(c, lo, hi, res, vt), sch));
                                        continue;
                                    }
                                    std::vector<double> flat;
                                    for (size_t i = 0; i < n; ++i) for (double x : RS[i]) flat.push_back(x);
                                    std::vector<param_t> idx = T;
                                    with_values(k, flat, [&](auto& v) {
                                        if (how == "buffer") {
                                            scalars::ScalarArray arr(stype(k), (const void*) v.data(), v.size());
                                            if (n == 0) {
                                                go(LieIncrementStream(scalars::KeyScalarArray(), Slice<param_t>(idx), meta(c, lo, hi, res, vt), sch));
                                            } else {
                                                scalars::KeyScalarArray buf(std::move(arr));
                                                go(LieIncrementStream(buf, Slice<param_t>(idx), meta(c, lo, hi, res, vt), sch));
                                            }
                                        } else {
                                            scalars::KeyScalarStream ks(stype(k));
                                            static const key_type keys[] = {0, 1};
                                            for (size_t i = 0; i < n; ++i)
                                                ks.push_back(scalars::ScalarArray(stype(k), (const void*) (v.data() + 2 * i), 2),
                                                             how == "stream" ? nullptr : keys);
                                            go(LieIncrementStream(ks, Slice<param_t>(idx), meta(c, lo, hi, res, vt), sch));
                                        }
                                    });
                                } catch (const std::exception& x) {
                                    R->check(false, "increments:" + how + ":construct", [&] { return vh::cat(what, ": ", x.what()); });
                                }
                            }
}

// ------------------------------------------------------------------ piecewise
static void pieces()
{
    struct P { double a, b; Row r; };
    std::vector<std::vector<P>> sets = {
            {{0, 1, {1, 0}}}, {{0, 1, {1, 0}}, {1, 2, {0, 1}}}, {{-1, 0.5, {1, 2}}, {0.5, 1.5, {0, 1}}, {1.5, 2, {1, -1}}},
            {{0, 0.5, {1, 1}}, {1, 2, {2, 0}}}, {{-2, -1, {0, 3}}, {-0.5, 0.5, {1, 0}}, {0.5, 4.5, {-1, 1}}}};
    for (Kind k : {KD, KF, KQ})
        for (VectorType vt : {VectorType::Dense, VectorType::Sparse})
            for (int res : {0, 2, 3})
                for (bool schema : {false, true})
                    for (auto& S : sets) {
                        if (!R->mine()) continue;
                        Cx& c = cx(2, 3, k);
                        Cx& low = cx(2, 2, k);
                        const Kind tk = k == KF ? KF : KD;// fractions of pieces are computed in double
                        std::string what = vh::cat("PiecewiseAbelianStream ", kname(k), " ", vname(vt), " resolution ", res, schema ? " schema" : "");
                        for (auto& p : S) what += vh::cat(" [", p.a, ",", p.b, "):(", p.r[0], ",", p.r[1], ")");
                        R->at(what);
                        R->dim("piecewise streams");
                        std::vector<PiecewiseAbelianStream::LiePiece> data;
                        for (auto& p : S) data.emplace_back(RealInterval(p.a, p.b), build<Lie>(c, El{lie_of(c, p.r), {}}, vt));
                        double lo = S.front().a, hi = S.back().b;
                        std::unique_ptr<Stream> sp;
                        if (schema) sp.reset(new Stream(PiecewiseAbelianStream(std::move(data), meta(c, lo, hi, res, vt), std::make_shared<StreamSchema>(2))));
                        else sp.reset(new Stream(PiecewiseAbelianStream(std::move(data), meta(c, lo, hi, res, vt))));
                        const Stream& s = *sp;
                        auto expect = [&](const Cx& cc, double a, double b, int r, bool dflt, bool trim) {
                            Vec sg = cc.T.unit();
                            if (trim) {
                                if (b < lo || a > hi) return sg;
                                a = std::max(a, lo); b = std::min(b, hi);
                            }
                            if (a >= b) return sg;
                            if (dflt) r = std::max(res, p2r(b - a) + 2);
                            a = fl(a, r); b = fl(b, r);
                            for (auto& p : S) {
                                double x = std::max(a, p.a), y = std::min(b, p.b);
                                if (y <= x) continue;
                                Vec v = lie_of(cc, p.r);
                                for (auto& q : v) q *= (Q(y) - Q(x)) / (Q(p.b) - Q(p.a));
                                sg = cc.T.mul(sg, cc.T.exp(cc.L.to_tensor(v)));
                            }
                            return sg;
                        };
                        auto one = [&](const Cx& cc, const std::string& form, const Vec& want, const std::function<Lie()>& fl_, const std::function<FreeTensor()>& fs_) {
                            R->state();
                            try {
                                Vec l = lie_coeffs(cc, fl_()), t = ten_coeffs(cc, fs_());
                                Vec wl = cc.L.from_lie_tensor(cc.T.log(want));
                                R->check(same(l, wl, tk), "pieces:log_signature", [&] { return vh::cat(what, " ", form, ": got ", show(l), " want ", show(wl)); });
                                R->check(same(t, want, tk), "pieces:signature", [&] { return vh::cat(what, " ", form, ": got ", show(t), " want ", show(want)); });
                            } catch (const std::exception& x) {
                                R->check(false, "pieces:raises", [&] { return vh::cat(what, " ", form, ": ", x.what()); });
                            }
                        };
                        std::vector<double> grid{lo - 1, lo, -0.75, 0, 0.25, 0.6, 0.75, 1.25, hi, hi + 0.5};
                        std::sort(grid.begin(), grid.end());
                        grid.erase(std::unique(grid.begin(), grid.end()), grid.end());
                        for (size_t i = 0; i < grid.size(); ++i)
                            for (size_t j = i + 1; j < grid.size(); ++j) {
                                double a = grid[i], b = grid[j];
                                RealInterval I(a, b);
                                std::string q = vh::cat("[", a, ",", b, ")");
                                one(c, q, expect(c, a, b, 0, true, true), [&] { return s.log_signature(I); }, [&] { return s.signature(I); });
                                one(low, q + " lower depth", expect(low, a, b, 0, true, true), [&] { return s.log_signature(I, *low.c); }, [&] { return s.signature(I, *low.c); });
                                for (int r : {0, 2, 4}) {
                                    one(c, vh::cat(q, " resolution ", r), expect(c, a, b, r, false, true), [&] { return s.log_signature(I, r); }, [&] { return s.signature(I, r); });
                                    one(c, vh::cat(q, " resolution ", r, " through the interface"), expect(c, a, b, r, false, false),
                                        [&] { return s.impl()->log_signature(I, r, *c.c); }, [&] { return s.impl()->signature(I, r, *c.c); });
                                }
                            }
                    }
}

// ---------------------------------------------------------------------- ticks
static void ticks_raw()
{
    for (Kind k : {KD, KF, KQ})
        for (VectorType vt : {VectorType::Dense, VectorType::Sparse})
            for (int res : {0, 2, 4})
                for (auto& T0 : TIMES)
                    for (auto& RS : ROWS)
                        for (int order : {0, 1})
                            for (bool keyed : {false, true}) {
                                if (!R->mine()) continue;
                                std::vector<double> T = T0;
                                if (order) { if (T.size() < 2) continue; std::reverse(T.begin(), T.end()); }
                                size_t n = T.size();
                                Cx& c = cx(2, 3, k);
                                std::string what = vh::cat("TickStream from raw data ", kname(k), " ", vname(vt), keyed ? " keyed" : "", " resolution ", res, " times");
                                for (double t : T) what += vh::cat(" ", t);
                                what += " rows";
                                for (size_t i = 0; i < n; ++i) what += vh::cat(" (", RS[i][0], ",", RS[i][1], ")");
                                R->at(what);
                                R->dim("tick streams of raw data");
                                double lo = 0, hi = 1;
                                for (double t : T) { lo = std::min(lo, std::floor(t)); hi = std::max(hi, std::floor(t) + 1); }
                                Model m;
                                m.res = res; m.lo = lo; m.hi = hi;
                                for (size_t i = 0; i < n; ++i) m.ev.push_back({T[i], lie_of(c, RS[i])});
                                // ticks of one cell apply in the order given
                                std::stable_sort(m.ev.begin(), m.ev.end(), [&](const Ev& a, const Ev& b) { return fl(a.t, res) < fl(b.t, res); });
                                std::vector<double> flat;
                                for (size_t i = 0; i < n; ++i) for (double x : RS[i]) flat.push_back(x);
                                static const key_type keys[] = {0, 1};
                                try {
                                    with_values(k, flat, [&](auto& v) {
                                        scalars::ScalarStream ss(stype(k));
                                        std::vector<const key_type*> ks;
                                        for (size_t i = 0; i < n; ++i) {
                                            ss.push_back(scalars::ScalarArray(stype(k), (const void*) (v.data() + 2 * i), 2));
                                            ks.push_back(keyed ? keys : nullptr);
                                        }
                                        Stream s(TickStream(std::move(ss), ks, T, res, meta(c, lo, hi, res, vt)));
                                        std::vector<double> grid{lo - 0.5, lo, -0.25, 0.2, 0.5, 1.0, hi, hi + 1};
                                        std::sort(grid.begin(), grid.end());
                                        grid.erase(std::unique(grid.begin(), grid.end()), grid.end());
                                        query_all(c, s, m, "ticks:raw", what, grid, {0, res, res + 1});
                                    });
                                } catch (const std::exception& x) {
                                    R->check(false, "ticks:raw:construct", [&] { return vh::cat(what, ": ", x.what()); });
                                }
                            }
}

// Channels: I increment, V value, L lead-lag value, C categorical with two variants
struct Layout {
    std::string kinds;
    int style = 0;
    std::shared_ptr<StreamSchema> make(bool time) const
    {
        auto s = std::make_shared<StreamSchema>();
        for (size_t i = 0; i < kinds.size(); ++i) {
            std::string l = label(i);
            switch (kinds[i]) {
                case 'I': s->insert_increment(l); break;
                case 'J': s->insert_increment(l).set_lead_lag(true); break;
                case 'V': s->insert_value(l); break;
                case 'L': s->insert_value(l).set_lead_lag(true); break;
                case 'E': s->insert_lie(l); break;
                default: {
                    auto& ch = s->insert_categorical(l);
                    for (auto& v : variants(i)) ch.add_variant(v);
                }
            }
        }
        if (time) s->parametrization()->add_as_channel();
        return s;
    }
    // labels that are prefixes of one another, with all sorts of characters between
    static constexpr int styles = 6;
    std::string label(size_t i) const
    {
        static const char* const parts[styles][4] = {{"a", "b", "b", "b"}, {"a", "_b", ".c", "-d"}, {"1", "0", ".5", "/2"},
                                                     {"a", " ", "b ", "\t"}, {"lead", "lag", ",x", ";y"}, {"\xc3\xa9", "\xcc\x81", "|", "#"}};
        std::string r;
        for (size_t j = 0; j <= i; ++j) r += parts[style][j % 4];
        return r;
    }
    std::vector<std::string> variants(size_t i) const
    {
        if (kinds[i] == 'C') return {"x", "xy"};
        if (kinds[i] == 'D') return {"up", "down", "lead"};
        if (kinds[i] == 'L' || kinds[i] == 'J') return {"lead", "lag"};
        return {};
    }
    size_t count(size_t i) const { return std::max<size_t>(1, variants(i).size()); }
    size_t dim(size_t i) const { size_t r = 0; for (size_t j = 0; j < i; ++j) r += count(j); return r; }
    size_t width() const { return dim(kinds.size()); }
};

static void schemas()
{
    std::vector<std::string> all{""};
    std::vector<std::string> layouts;
    const std::string K = "IVLCJDE";
    size_t maxlen = R->thorough() ? 4 : 3;
    for (size_t n = 0; n < maxlen; ++n) {
        std::vector<std::string> next;
        for (auto& s : all) for (char c : K) next.push_back(s + c);
        layouts.insert(layouts.end(), all.begin(), all.end());
        all = next;
    }
    layouts.insert(layouts.end(), all.begin(), all.end());
    for (auto& kinds : layouts)
        for (int tst = 0; tst < 2 * Layout::styles; ++tst) {
            const bool time = tst & 1;
            if (!R->mine()) continue;
            Layout L{kinds, tst / 2};
            std::string what = "schema of channels " + kinds + (time ? " with time" : "") + " labels";
            for (size_t i = 0; i < kinds.size(); ++i) what += " '" + L.label(i) + "'";
            R->at(what);
            R->dim("schemas");
            auto s = L.make(time);
            R->state();
            size_t w = L.width();
            auto eq = [&](const std::string& key, const std::function<std::string()>& f, const std::string& want) {
                R->step();
                std::string got;
                try { got = f(); } catch (const std::exception& x) { got = std::string("raises ") + x.what(); }
                R->check(got == want, "schema:" + key, [&] { return what + " " + key + ": got " + got + " want " + want; });
            };
            auto N = [](size_t n) { return std::to_string(n); };
            for (int round = 0; round < 2; ++round) {
                const StreamSchema& cs = *s;
                eq("size", [&] { return N(cs.size()); }, N(kinds.size()));
                eq("width", [&] { return N(cs.width()); }, N(w + time));
                eq("width_without_param", [&] { return N(cs.width_without_param()); }, N(w));
                eq("time_channel_to_lie_key", [&] { return N(cs.time_channel_to_lie_key()); }, N(time ? w + 1 : 0));
                eq("is_final", [&] { return N(cs.is_final()); }, N(round));
                for (size_t i = 0; i < kinds.size(); ++i) {
                    std::string l = L.label(i);
                    eq("channel_to_stream_dim", [&] { return N(cs.channel_to_stream_dim(i)); }, N(L.dim(i)));
                    eq("label_of_channel_id", [&] { return std::string(cs.label_of_channel_id(i)); }, l);
                    eq("label_to_stream_dim", [&] { return N(cs.label_to_stream_dim(l)); }, N(L.dim(i)));
                    eq("label_to_lie_key", [&] { return N(cs.label_to_lie_key(l)); }, N(L.dim(i) + 1));
                    eq("contains", [&] { return N(cs.contains(l)); }, "1");
                    eq("find", [&] { return N(cs.find(l) - cs.begin()); }, N(i));
                    eq("nth", [&] { return cs.nth(i)->first; }, l);
                    auto vs = L.variants(i);
                    eq("num_variants", [&] { return N(cs.nth(i)->second->num_variants()); }, N(L.count(i)));
                    eq("get_variants", [&] { std::string r; for (auto& v : cs.nth(i)->second->get_variants()) r += v + ","; return r; },
                       [&] { std::string r; for (auto& v : vs) r += v + ","; return r; }());
                    for (size_t v = 0; v < L.count(i); ++v) {
                        std::string full = vs.empty() ? l : l + ":" + vs[v];
                        size_t d = L.dim(i) + v;
                        eq("channel_variant_to_stream_dim", [&] { return N(cs.channel_variant_to_stream_dim(i, v)); }, N(d));
                        eq("stream_dim_to_channel", [&] { auto p = cs.stream_dim_to_channel(d); return N(p.first) + "," + N(p.second); }, N(i) + "," + N(v));
                        eq("label_of_stream_dim", [&] { return cs.label_of_stream_dim(d); }, full);
                        eq("label_of_channel_variant", [&] { return cs.label_of_channel_variant(i, v); }, full);
                        eq("label_to_stream_dim of variant", [&] { return N(cs.label_to_stream_dim(full)); }, N(d));
                        eq("label_to_lie_key of variant", [&] { return N(cs.label_to_lie_key(full)); }, N(d + 1));
                        eq("find of variant", [&] { return N(cs.find(full) - cs.begin()); }, N(i));
                        if (!vs.empty()) eq("variant_id_of_label", [&] { return N(cs.nth(i)->second->variant_id_of_label(vs[v])); }, N(v));
                    }
                    if (!vs.empty() && (kinds[i] == 'C' || kinds[i] == 'D')) {
                        bool threw = false;
                        try { (void) cs.label_to_stream_dim(l + ":none"); } catch (const std::exception&) { threw = true; }
                        R->check(threw, "schema:unknown variant", [&] { return what + " accepts " + l + ":none"; });
                    }
                    bool threw = false;
                    try { (void) cs.channel_variant_to_stream_dim(i, L.count(i)); } catch (const std::exception&) { threw = true; }
                    R->check(threw, "schema:variant range", [&] { return what + " accepts variant " + N(L.count(i)) + " of channel " + N(i); });
                }
                for (std::string l : {std::string("zz"), L.label(kinds.size()), std::string(""), std::string("b")}) {
                    eq("contains of a label not there", [&] { return N(cs.contains(l)); }, "0");
                    bool threw = false;
                    try { (void) cs.label_to_stream_dim(l); } catch (const std::exception&) { threw = true; }
                    R->check(threw, "schema:unknown label", [&] { return what + " accepts label '" + l + "'"; });
                }
                for (int f = 0; f < 2; ++f) {
                    bool threw = false;
                    try { if (f) (void) cs.stream_dim_to_channel(w); else (void) cs.label_of_stream_dim(w); } catch (const std::exception&) { threw = true; }
                    R->check(threw, "schema:dimension range", [&] { return what + " accepts dimension " + N(w); });
                }
                if (round == 0) {
                    // inserting a label again gives the channel there is
                    for (size_t i = 0; i < kinds.size(); ++i) {
                        auto* was = s->nth(i)->second.get();
                        StreamChannel* now = &s->insert_increment(L.label(i));
                        R->check(was == now && s->size() == kinds.size(), "schema:insert again", [&] { return what + " label " + L.label(i); });
                    }
                    s->finalize(w + time ? deg_t(w + time) : -1);
                    bool threw = false;
                    try { s->insert_increment("zz"); } catch (const std::exception&) { threw = true; }
                    R->check(threw, "schema:insert after finalize", [&] { return what; });
                }
            }
            // finalize to a larger width adds channels, to a smaller one throws
            for (int extra : {1, 2, -1}) {
                auto f = L.make(time);
                int target = int(w + time) + extra;
                if (target <= 0) continue;
                std::string got;
                try { f->finalize(target); got = N(f->width()); } catch (const std::exception&) { got = "raises"; }
                std::string want = extra < 0 ? "raises" : N(target);
                R->check(got == want, "schema:finalize", [&] { return what + " finalize(" + std::to_string(target) + "): width " + got + " want " + want; });
                if (extra > 0 && got == want)
                    for (size_t i = 0; i < kinds.size(); ++i)
                        R->check(f->label_to_stream_dim(L.label(i)) == L.dim(i), "schema:finalize moves channels", [&] { return what; });
            }
        }
    // channels labelled by numbers
    for (int m = 0; m < 81; ++m) {
        if (!R->mine()) continue;
        auto s = std::make_shared<StreamSchema>();
        std::string what = "schema of labels";
        int x = m;
        std::vector<std::string> labels;
        for (int i = 0; i < 3; ++i, x /= 4) {
            if (x % 4 == 3) break;
            std::string l = std::to_string(x % 4);
            if (std::find(labels.begin(), labels.end(), l) != labels.end()) continue;
            labels.push_back(l);
            what += " " + l;
            s->insert_increment(l);
        }
        R->at(what);
        R->state();
        size_t n = labels.size();
        for (int j = 0; j < 2; ++j) s->insert_increment("");
        R->check(s->width() == n + 2, "schema:unlabelled channels", [&] { return what + " and two unlabelled: width " + std::to_string(s->width()); });
        for (size_t i = 0; i < n; ++i)
            R->check(s->label_to_stream_dim(labels[i]) == i, "schema:numeric labels", [&] { return what; });
        std::set<std::string> seen;
        for (auto& it : *s) R->check(seen.insert(it.first).second, "schema:repeated label", [&] { return what + ": " + it.first; });
        s->finalize(deg_t(n + 4));
        R->check(s->width() == n + 4, "schema:finalize numeric", [&] { return what + " finalized to " + std::to_string(n + 4) + ": width " + std::to_string(s->width()); });
    }
}

static void helper()
{
    // Every sequence of additions up to a length, over a schema, through each overload.
    struct Op { int ch; int var; double val; };
    std::vector<std::string> layouts{"IVLC", "CLVI", "LCIV", "DC", "VL", "LL", "VI"};
    const bool th = R->thorough();
    std::vector<std::vector<double>> times{{0.0, 0.5, 1.0}, {0.5, 0.5, 0.25}, {1.25, -0.5, 0.25}};
    for (auto& kinds : layouts) {
        Layout L{kinds};
        std::vector<Op> ops;
        for (size_t i = 0; i < kinds.size(); ++i) {
            if (kinds[i] == 'C' || kinds[i] == 'D') for (size_t v = 0; v < L.count(i); ++v) ops.push_back({int(i), int(v), 1});
            else { ops.push_back({int(i), 0, 2}); ops.push_back({int(i), 0, -0.5}); }
        }
        size_t w = L.width();
        size_t maxn = th ? 3 : (w > 4 ? 2 : 3);
        std::vector<std::vector<int>> seqs{{}};
        for (size_t from = 0, n = 0; n < maxn; ++n) {
            size_t to = seqs.size();
            for (; from < to; ++from) for (size_t o = 0; o < ops.size(); ++o) { auto q = seqs[from]; q.push_back(int(o)); seqs.push_back(q); }
        }
        for (VectorType vt : {VectorType::Dense, VectorType::Sparse})
            for (int form = 0; form < 4; ++form)
                for (size_t ti = 0; ti < times.size(); ++ti)
                    for (auto& sq : seqs) {
                        if (!R->mine()) continue;
                        Kind k = KD;
                        Cx& c = cx(int(w), 2, k);
                        bool chlab = form & 1, varlab = form & 2;
                        std::string what = vh::cat("helper ", kinds, " ", vname(vt), chlab ? " channels by label" : " channels by number",
                                                   varlab ? " variants by label" : " variants by number", ":");
                        auto sch = L.make(false);
                        if (form % 3 == 1 || sq.size() == 2) sch->finalize();
                        std::vector<Ev> ev;
                        std::vector<double> prev(kinds.size());
                        bool ok = true;
                        try {
                            StreamConstructionHelper h(c.c, sch, vt);
                            for (size_t i = 0; i < sq.size(); ++i) {
                                const Op& o = ops[sq[i]];
                                double t = times[ti][i];
                                std::string l = L.label(o.ch);
                                char kd = kinds[o.ch];
                                what += vh::cat(" ", t, ":", l, kd, o.var, "=", o.val);
                                R->at(what);
                                auto push = [&](size_t dim, double v) {
                                    Row r(w);
                                    r[dim] = v;
                                    ev.push_back({t, lie_of(c, r)});
                                };
                                size_t d = L.dim(o.ch);
                                if (kd == 'I') {
                                    if (chlab) h.add_increment(t, string_view(l), o.val); else h.add_increment(t, dimn_t(o.ch), o.val);
                                    push(d, o.val);
                                } else if (kd == 'V' || kd == 'L') {
                                    if (chlab) h.add_value(t, string_view(l), o.val); else h.add_value(t, dimn_t(o.ch), o.val);
                                    double x = o.val - prev[o.ch];
                                    prev[o.ch] = o.val;
                                    push(d, x);
                                    if (kd == 'L') push(d + 1, x);
                                } else {
                                    std::string v = L.variants(o.ch)[o.var];
                                    if (chlab && varlab) h.add_categorical(t, string_view(l), string_view(v));
                                    else if (chlab) h.add_categorical(t, string_view(l), dimn_t(o.var));
                                    else if (varlab) h.add_categorical(t, dimn_t(o.ch), string_view(v));
                                    else h.add_categorical(t, dimn_t(o.ch), dimn_t(o.var));
                                    push(d + o.var, 1);
                                }
                                auto ty = h.type_of(l);
                                ChannelType want = kd == 'I' ? ChannelType::Increment : (kd == 'V' || kd == 'L') ? ChannelType::Value : ChannelType::Categorical;
                                ok &= R->check(bool(ty) && *ty == want, "helper:type_of", [&] { return what; });
                            }
                            R->dim("tick histories through the construction helper");
                            std::stable_sort(ev.begin(), ev.end(), [](const Ev& a, const Ev& b) { return a.t < b.t; });
                            double lo = -1, hi = 2;
                            int res = 2;
                            Model m;
                            m.res = res; m.lo = lo; m.hi = hi; m.ev = ev;
                            Stream s(TickStream(std::move(h), meta(c, lo, hi, res, vt), res));
                            query_all(c, s, m, vh::cat("ticks:helper:", chlab ? "label" : "number", ":", varlab ? "label" : "number"), what, {-1, 0.25, 0.5, 2}, {2});
                        } catch (const std::exception& x) {
                            R->check(false, vh::cat("ticks:helper:", chlab ? "label" : "number", ":", varlab ? "label" : "number", ":raises"),
                                     [&] { return what + ": " + x.what(); });
                        }
                    }
    }
}

int main(int argc, char** argv)
{
    vh::Run run(argc, argv);
    R = &run;
    std::string mode;
    for (int i = 1; i + 1 < argc; ++i) if (std::string(argv[i]) == "--mode") mode = argv[i + 1];
    if (mode == "increments") increments();
    if (mode == "pieces") pieces();
    if (mode == "ticks") ticks_raw();
    if (mode == "helper") helper();
    if (mode == "schema") schemas();
    return run.finish();
}
