// Every schedule of small multi-threaded clients, up to a preemption bound.
//   --mode streams   queries on shared stream objects
//   --mode algebra   contexts, algebra objects and registries, from cold
// Each schedule runs in a child process of its own (nothing cached beforehand).  The
// controlled scheduler decides who goes on at each synchronisation operation; the race
// detector watches the accesses in between.
#include "alg_common.h"
#include "vh_sched.h"
#include <roughpy/scalars/random.h>
#include <roughpy/streams/brownian_stream.h>
#include <roughpy/streams/external_data_stream.h>
#include <roughpy/streams/lie_increment_stream.h>
#include <roughpy/streams/piecewise_abelian_stream.h>
#include <roughpy/streams/stream.h>
#include <roughpy/intervals/dyadic_interval.h>
#include <roughpy/intervals/real_interval.h>
#include <roughpy/intervals/segmentation.h>
#include <pthread.h>
#include <signal.h>
#include <sys/wait.h>
#include <time.h>
#include <algorithm>
using namespace rpy::intervals;
using vh::cat;

static vs_shared* S;
static std::string errfile;

// called by the race detector for each report
extern "C" void __tsan_on_report(void*) { if (S) *(volatile int*) &S->race = 1; }
extern "C" const char* __tsan_default_options()
{
    return "exitcode=66 die_after_fork=0 report_signal_unsafe=0 detect_deadlocks=0 atexit_sleep_ms=0 "
           "report_thread_leaks=0 history_size=4 flush_memory_ms=0";
}

// ---------------------------------------------------------------- the world of one execution
struct World {
    std::map<std::string, context_pointer> ctx;
    std::map<std::string, std::shared_ptr<const streams::StreamInterface>> st;
    std::vector<FreeTensor> ft;
    std::vector<ShuffleTensor> sh;
    std::vector<Lie> li;
    std::vector<std::unique_ptr<scalars::RandomGenerator>> rng;
};
typedef std::function<std::string(World&)> Op;
struct Named { std::string name; Op op; };
struct Scenario {
    std::string name;
    std::function<void(World&)> setup;
    std::vector<std::vector<Named>> threads;
    int bound;      // preemptions at locks, once-flags and guarded statics
    int abound = 0; // preemptions when atomic memory operations are switching points too
    int again = 0;// 1: ask every question once more afterwards, instead of comparing
                  // with the orders of whole operations; 2: do not compare
};

static std::string dhex(double d) { char b[40]; snprintf(b, 40, "%a", d); return b; }
static bool g_first_order = false;// report only the increments
template <typename Alg> std::string text(const Alg& a, Kind k)
{
    std::string s;
    std::map<long, std::string> m;
    for (auto i = a.begin(), e = a.end(); i != e; ++i) {
        auto p = *i;
        Q q = sval(p.value(), k, 2);
        if (g_first_order && (p.key() == 0 || size_t(p.key()) > a.basis().width())) continue;
        if (q != 0) m[long(p.key())] = k == KD ? dhex(q2d(q)) : q.str();
    }
    for (auto& p : m) s += cat(p.first, ":", p.second, " ");
    return s;
}

struct Targ { int id; const Scenario* sc; World* w; std::string res; };
static void* body(void* p)
{
    Targ* t = (Targ*) p;
    vs_thread_start(t->id);
    bool first = true;
    for (auto& o : t->sc->threads[t->id]) {
        if (!first) vs_op_boundary();
        first = false;
        try {
            t->res += o.op(*t->w) + "\n";
        } catch (std::exception& e) {
            t->res += cat("raises ", e.what(), "\n");
        }
    }
    vs_thread_end();
    return nullptr;
}

static World* g_world;
static void child(const Scenario& sc)
{
    int fd = open(errfile.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
    dup2(fd, 2);
    alarm(60);
    World* w = g_world;
    int n = int(sc.threads.size());
    vs_begin(S, n);
    pthread_attr_t attr;
    pthread_attr_init(&attr);
    pthread_attr_setstacksize(&attr, 512 * 1024);
    std::vector<Targ> a(n);
    std::vector<pthread_t> th(n);
    for (int i = 0; i < n; ++i) {
        a[i] = Targ{i, &sc, w, ""};
        pthread_create(&th[i], &attr, body, &a[i]);
    }
    vs_run();
    for (int i = 0; i < n; ++i) pthread_join(th[i], nullptr);
    if (sc.again == 1)
        for (int i = 0; i < n; ++i) {
            std::string r;
            for (auto& o : sc.threads[i]) {
                try { r += o.op(*w) + "\n"; } catch (std::exception& e) { r += cat("raises ", e.what(), "\n"); }
            }
            if (r != a[i].res) {
                S->raised = 1;
                snprintf(S->message, sizeof S->message, "thread %d was answered [%.1200s] and asking again afterwards gives [%.1200s]", i, a[i].res.c_str(), r.c_str());
            }
        }
    for (int i = 0; i < n; ++i) {
        if (a[i].res.size() >= VS_TEXT) S->overflow = 1;
        strncpy(S->result[i], a[i].res.c_str(), VS_TEXT - 1);
    }
    _exit(0);
}

struct Exec {
    std::vector<vs_point> pts;
    std::vector<std::string> res;
    std::string bad, key;
};
static std::string slurp(const std::string& f)
{
    std::string s;
    if (FILE* fp = fopen(f.c_str(), "r")) { char b[4096]; size_t n; while ((n = fread(b, 1, 4096, fp)) > 0) s.append(b, n); fclose(fp); }
    return s;
}
static std::string sched(const std::vector<vs_point>& p)
{
    std::string s;
    for (auto& q : p) s += char('0' + q.chosen);
    return s.substr(0, 300);
}

static Exec execute(const Scenario& sc, const std::vector<uint8_t>& prefix, bool atomic, bool atoms)
{
    size_t head = offsetof(vs_shared, npoints);
    S->nprefix = int(prefix.size());
    memcpy(S->prefix, prefix.data(), prefix.size());
    S->atomic_ops = atomic;
    S->atoms = atoms;
    memset(S->objusers, 0, S->nobj);
    memset(S->objwriters, 0, S->nobj);
    memset((char*) S + head, 0, offsetof(vs_shared, pt) - head);
    S->nobj = 0;
    for (auto& r : S->result) r[0] = 0;
    fflush(stdout);
    pid_t pid = fork();
    if (pid == 0) child(sc);
    int stt = 0;
    waitpid(pid, &stt, 0);
    Exec e;
    e.pts.assign(S->pt, S->pt + S->npoints);
    for (auto& p : e.pts) p.users = p.object >= 0 ? (S->objwriters[p.object] ? S->objusers[p.object] : 0) : 255;
    for (size_t i = 0; i < sc.threads.size(); ++i) e.res.push_back(S->result[i]);
    auto tail = [&] { std::string s = slurp(errfile); return s.substr(0, 1500); };
    if (S->overflow || S->diverged) { fprintf(stderr, "scheduler: %s in %s\n", S->overflow ? "overflow" : "diverged", sc.name.c_str()); exit(3); }
    if (S->deadlock) { e.key = "deadlock"; e.bad = S->deadlock == 2 ? "a thread locks a mutex it already holds" : "no thread can go on"; }
    else if (WIFSIGNALED(stt) && WTERMSIG(stt) == SIGALRM) { e.key = "hang"; e.bad = "no progress within 60 s"; }
    else if (S->raised) { e.key = "answer"; e.bad = S->message; }
    else if (S->race) { e.key = "race"; e.bad = "data race: " + tail(); }
    else if (WIFSIGNALED(stt)) { e.key = "crash"; e.bad = cat("signal ", WTERMSIG(stt), " ", tail()); }
    else if (WEXITSTATUS(stt)) { e.key = "crash"; e.bad = cat("exit status ", WEXITSTATUS(stt), " ", tail()); }
    return e;
}

// results of one scenario, handed from its process to the explorer
struct Out {
    uint64_t execs, aexecs, steps, checked, orders, answers;
    int done, bad;
    char key[400], detail[2400];
};
static Out* O;

static void explore(const Scenario& sc)
{
    // what the operations may answer: any order of whole operations
    std::set<std::vector<std::string>> allowed;
    auto dfs = [&](bool atomic, bool atoms, int bound, const std::function<bool(const Exec&)>& visit) {
        std::vector<std::vector<uint8_t>> stack{{}};
        uint64_t n = 0;
        while (!stack.empty()) {
            std::vector<uint8_t> prefix = std::move(stack.back());
            stack.pop_back();
            Exec e = execute(sc, prefix, atomic, atoms);
            ++n;
            O->steps += e.pts.size();
            if (!visit(e)) return n;
            int cost = 0;
            for (size_t k = 0; k < e.pts.size(); ++k) {
                auto& p = e.pts[k];
                // a switch before an operation on an object only one thread uses changes nothing
                bool interesting = atomic || !p.prev_enabled || p.object < 0 || (p.users & (p.users - 1));
                if (k >= prefix.size() && interesting)
                    for (int t = 0; t < VS_MAXT; ++t)
                        if ((p.enabled >> t & 1) && t != p.chosen) {
                            int c = cost + (p.prev_enabled && t != p.prev);
                            if (!atomic && c > bound) continue;
                            std::vector<uint8_t> nx;
                            for (size_t j = 0; j < k; ++j) nx.push_back(e.pts[j].chosen);
                            nx.push_back(t);
                            stack.push_back(std::move(nx));
                        }
                cost += p.prev_enabled && p.chosen != p.prev;
            }
        }
        return n;
    };
    auto report = [&](const Exec& e, const char* mode) {
        snprintf(O->key, sizeof O->key, "%s:%s", e.key.c_str(), sc.name.c_str());
        snprintf(O->detail, sizeof O->detail, "%s [%s schedule %s]: %s", sc.name.c_str(), mode, sched(e.pts).c_str(), e.bad.c_str());
        O->bad = 1;
        return false;
    };
    O->orders = dfs(true, false, 0, [&](const Exec& e) {
        if (!e.key.empty()) return report(e, "operation order");
        allowed.insert(e.res);
        return true;
    });
    O->answers = allowed.size();
    if (O->bad) return;
    auto visit = [&](const Exec& e) {
        ++O->checked;
        if (!e.key.empty()) return report(e, "interleaving");
        if (!sc.again && !allowed.count(e.res)) {
            Exec f = e;
            f.key = "answer";
            f.bad = "answers of no order of whole operations:";
            for (auto& r : e.res) f.bad += " [" + r.substr(0, 300) + "]";
            f.bad += " while one order gives";
            for (auto& r : *allowed.begin()) f.bad += " [" + r.substr(0, 300) + "]";
            return report(f, "interleaving");
        }
        return true;
    };
    O->execs = dfs(false, false, sc.bound, visit);
    if (sc.abound && !O->bad) O->aexecs = dfs(false, true, sc.abound, visit);
}

static void scenario(vh::Run& run, const Scenario& sc)
{
    run.at(sc.name);
    memset(O, 0, sizeof *O);
    pid_t pid = fork();
    if (pid == 0) {
        g_world = new World;
        sc.setup(*g_world);
        explore(sc);
        O->done = 1;
        _exit(0);
    }
    int stt = 0;
    waitpid(pid, &stt, 0);
    if (!O->done) {
        if (WIFEXITED(stt) && WEXITSTATUS(stt) == 3) exit(3);
        run.viol("crash:" + sc.name, cat(sc.name, ": the process fails while the shared objects are made, status ", stt));
        return;
    }
    run.state(O->execs + O->aexecs + O->orders);
    run.transitions += O->steps;
    run.traces += O->checked;
    run.dim("schedules", O->execs);
    run.dim("schedules with atomics", O->aexecs);
    run.dim("operation orders", O->orders);
    run.dim("scenarios");
    if (O->bad) run.viol(O->key, O->detail);
    if (getenv("VH_SHOW")) fprintf(stderr, "%-90s orders %lu answers %lu schedules %lu %lu\n", sc.name.c_str(), O->orders, O->answers, O->execs, O->aexecs);
}

// ---------------------------------------------------------------- clients
static std::vector<Scenario> g_sc;
static context_pointer mk(Kind k, int w, int d) { return get_context(w, d, stype(k)); }

static Lie lie_of(const context_pointer& c, Kind k, std::vector<int> v, VectorType vt = VectorType::Dense)
{
    auto go = [&](auto& x) {
        VectorConstructionData d{scalars::KeyScalarArray(scalars::ScalarArray(stype(k), (const void*) x.data(), x.size())), vt};
        return c->construct_lie(d);
    };
    if (k == KD) { std::vector<double> x(v.begin(), v.end()); return go(x); }
    std::vector<mpq> x(v.begin(), v.end());
    return go(x);
}
template <typename Alg> static Alg ten_of(const context_pointer& c, Kind k, int salt, size_t n, VectorType vt)
{
    auto go = [&](auto& x) {
        for (size_t i = 0; i < n; ++i) x.emplace_back(int((i * 7 + salt * 3) % 11) - 4);
        VectorConstructionData d{scalars::KeyScalarArray(scalars::ScalarArray(stype(k), (const void*) x.data(), x.size())), vt};
        return AlgT<Alg>::make(*c, d);
    };
    if (k == KD) { std::vector<double> x; return go(x); }
    std::vector<mpq> x;
    return go(x);
}

static std::shared_ptr<const streams::StreamInterface>
lie_stream(const context_pointer& c, Kind k, VectorType vt)
{
    std::vector<std::pair<param_t, Lie>> d;
    d.emplace_back(0.0, lie_of(c, k, {1, 2}, vt));
    d.emplace_back(0.25, lie_of(c, k, {-1, 1}, vt));
    d.emplace_back(0.75, lie_of(c, k, {3, -2}, vt));
    streams::StreamMetadata md{c->width(), RealInterval(0, 1), c, stype(k), vt, 2, IntervalType::Clopen};
    return std::make_shared<streams::LieIncrementStream>(std::move(d), md, std::make_shared<streams::StreamSchema>(c->width()));
}
static std::shared_ptr<const streams::StreamInterface>
abelian_stream(const context_pointer& c, Kind k, VectorType vt)
{
    std::vector<std::pair<RealInterval, Lie>> d;
    d.emplace_back(RealInterval(0, 0.5), lie_of(c, k, {1, 2, 3}, vt));
    d.emplace_back(RealInterval(0.5, 1), lie_of(c, k, {-2, 1, 1}, vt));
    streams::StreamMetadata md{c->width(), RealInterval(0, 1), c, stype(k), vt, 2, IntervalType::Clopen};
    return std::make_shared<streams::PiecewiseAbelianStream>(std::move(d), std::move(md));
}
// normal variates that name their own draw: 1, 2, 3, ...
struct Counting : scalars::RandomGenerator {
    int* next;
    Counting(const scalars::ScalarType* t, int* n) : RandomGenerator(t), next(n) {}
    void set_seed(Slice<scalars::seed_int_t>) override {}
    void set_state(string_view) override {}
    std::vector<scalars::seed_int_t> get_seed() const override { return {1}; }
    std::string get_type() const override { return "counting"; }
    std::string get_state() const override { return ""; }
    scalars::ScalarArray uniform_random_scalar(const scalars::ScalarArray&, const scalars::ScalarArray&, dimn_t) const override { throw std::logic_error("uniform"); }
    scalars::ScalarArray normal_random(scalars::Scalar, scalars::Scalar, dimn_t n) const override
    {
        scalars::ScalarArray r(p_type, n);
        auto s = r.as_mut_slice<double>();
        for (dimn_t i = 0; i < n; ++i) s[i] = double(1 << (*next)++ % 30);
        return r;
    }
};

// a source of data with a reading position, as a file has
struct Reel : streams::ExternalDataStreamSource {
    long* pos = new long(0);
    dimn_t query(scalars::KeyScalarArray& result, const Interval& interval, const streams::StreamSchema&) override
    {
        static const double rows[4][2] = {{1, 2}, {-1, 1}, {0, 3}, {3, -2}};
        long lo = long(std::ceil(interval.inf() * 4)), hi = long(std::ceil(interval.sup() * 4));
        lo = std::max(0L, lo);
        hi = std::min(4L, hi);
        if (lo >= hi) return 0;
        *pos = lo;
        result.allocate_scalars(2 * (hi - lo));
        auto out = result.as_mut_slice<double>();
        for (long i = 0; i < hi - lo; ++i) {
            long at = (*pos)++;
            out[2 * i] = rows[at & 3][0];
            out[2 * i + 1] = rows[at & 3][1];
        }
        return hi - lo;
    }
};
static std::shared_ptr<const streams::StreamInterface> external_stream(const context_pointer& c)
{
    streams::StreamMetadata md{2, RealInterval(0, 1), c, stype(KD), VectorType::Dense, 2, IntervalType::Clopen};
    return std::make_shared<streams::ExternalDataStream>(Reel(), md, std::make_shared<streams::StreamSchema>(2));
}

static std::unique_ptr<scalars::RandomGenerator> seeded(const std::string& g, scalars::seed_int_t sd)
{
    return stype(KD)->get_rng(g, sd);
}
static Named logsig(const std::string& s, double a, double b, int res, const std::string& c, Kind k)
{
    return {cat(s, ".log_signature([", a, ",", b, "),r", res, ",", c, ")"), [=](World& w) {
        streams::Stream st(w.st[s]);
        return text(st.log_signature(RealInterval(a, b), res, *w.ctx[c]), k);
    }};
}
static Named sig(const std::string& s, double a, double b, int res, const std::string& c, Kind k)
{
    return {cat(s, ".signature([", a, ",", b, "),r", res, ",", c, ")"), [=](World& w) {
        streams::Stream st(w.st[s]);
        return text(st.signature(RealInterval(a, b), res, *w.ctx[c]), k);
    }};
}
static Named sigd(const std::string& s, double a, double b, int res, const std::string& c, Kind k)
{
    return {cat(s, ".signature_derivative([", a, ",", b, "),r", res, ",", c, ")"), [=](World& w) {
        streams::Stream st(w.st[s]);
        return text(st.signature_derivative(RealInterval(a, b), lie_of(w.ctx[c], k, {1}), res, *w.ctx[c]), k);
    }};
}
static Named restricted(const std::string& s, double a, double b, int res, const std::string& c, Kind k)
{
    return {cat(s, ".restrict([", a, ",", b, ")).log_signature(r", res, ")"), [=](World& w) {
        streams::Stream st(w.st[s]);
        auto r = st.restrict(RealInterval(a, b));
        return text(r.log_signature(RealInterval(-1, 2), res, *w.ctx[c]), k);
    }};
}
static Named simp(const std::string& s, int res, const std::string& c, Kind k)
{
    return {cat(s, ".simplify({1/2},r", res, ")"), [=](World& w) {
        streams::Stream st(w.st[s]);
        auto r = st.simplify(Partition(RealInterval(0, 1)), res, *w.ctx[c]);
        return text(r.log_signature(RealInterval(0, 1), res, *w.ctx[c]), k);
    }};
}

static void pairs(const std::string& name, const std::function<void(World&)>& setup, const std::vector<Named>& ops, int bound, int abound, int again = 0)
{
    for (size_t i = 0; i < ops.size(); ++i)
        for (size_t j = i; j < ops.size(); ++j)
            g_sc.push_back({cat(name, ": ", ops[i].name, " || ", ops[j].name), setup, {{ops[i]}, {ops[j]}}, bound, abound, again});
}

static void stream_scenarios(bool thorough)
{
    struct K { const char* n; Kind k; VectorType vt; };
    std::vector<K> ks{{"double/dense", KD, VectorType::Dense}, {"rational/sparse", KQ, VectorType::Sparse}};
    for (auto& kk : ks) {
        Kind k = kk.k;
        VectorType vt = kk.vt;
        auto setup = [=](World& w) {
            w.ctx["d2"] = mk(k, 2, 2);
            w.ctx["d3"] = mk(k, 2, 3);
            w.st["lie"] = lie_stream(w.ctx["d2"], k, vt);
            w.st["abelian"] = abelian_stream(w.ctx["d2"], k, vt);
        };
        for (std::string s : {"lie", "abelian"}) {
            std::vector<Named> ops{logsig(s, 0, 1, 2, "d2", k), logsig(s, 0.25, 1, 2, "d2", k), logsig(s, 0, 0.5, 1, "d3", k),
                                   sig(s, 0, 1, 1, "d2", k), restricted(s, 0.25, 0.75, 2, "d2", k), sigd(s, 0, 1, 1, "d2", k), simp(s, 1, "d2", k)};
            pairs(cat(kk.n), setup, ops, thorough ? 2 : 1, thorough);
            g_sc.push_back({cat(kk.n, ": three on ", s), setup, {{ops[0]}, {ops[1]}, {ops[2]}}, thorough ? 2 : 1});
            g_sc.push_back({cat(kk.n, ": two each on ", s), setup, {{ops[0], ops[2]}, {ops[1], ops[3]}}, thorough ? 2 : 1});
        }
    }
    {
        auto setup = [=](World& w) {
            w.ctx["d2"] = mk(KD, 2, 2);
            w.ctx["d3"] = mk(KD, 2, 3);
            w.st["external"] = external_stream(w.ctx["d2"]);
        };
        std::string s = "external";
        std::vector<Named> ops{logsig(s, 0, 1, 2, "d2", KD), logsig(s, 0.25, 1, 2, "d2", KD), logsig(s, 0, 0.5, 1, "d3", KD), logsig(s, 0, 1, 2, "d3", KD),
                               sig(s, 0, 1, 1, "d2", KD), simp(s, 1, "d2", KD)};
        pairs("double/dense", setup, ops, thorough ? 2 : 1, thorough);
        g_sc.push_back({"three on external", setup, {{ops[0]}, {ops[1]}, {ops[2]}}, thorough ? 2 : 1});
    }
    auto bsetup = [=](World& w) {
        g_first_order = true;
        w.ctx["d2"] = mk(KD, 2, 2);
        int* n = new int(0);
        w.st["brownian"] = std::make_shared<streams::BrownianStream>(std::unique_ptr<scalars::RandomGenerator>(new Counting(stype(KD), n)),
            streams::StreamMetadata{2, RealInterval(-8, 8), w.ctx["d2"], stype(KD), VectorType::Dense, 2, IntervalType::Clopen});
    };
    std::string s = "brownian";
    std::vector<Named> ops{logsig(s, 0, 1, 0, "d2", KD), logsig(s, 0, 1, 2, "d2", KD), logsig(s, 1, 2, 1, "d2", KD), logsig(s, -1, 1, 1, "d2", KD),
                           logsig(s, 0.25, 0.5, 2, "d2", KD), logsig(s, 4, 5, 0, "d2", KD), sig(s, 0, 1, 1, "d2", KD)};
    pairs("double/dense", bsetup, ops, thorough ? 2 : 1, 1, 1);
    if (!thorough) pairs("double/dense", bsetup, {ops[1], ops[3], ops[4]}, 2, 0, 1);
    else pairs("double/dense", bsetup, {ops[0], ops[3], ops[5]}, 3, 2, 1);
    g_sc.push_back({"three on brownian", bsetup, {{ops[0]}, {ops[1]}, {ops[2]}}, thorough ? 2 : 1, 0, 1});
    g_sc.push_back({"two each on brownian", bsetup, {{ops[1], ops[5]}, {ops[3], ops[2]}}, thorough ? 2 : 1, 0, 1});
    for (std::string g : {"mt19937", "pcg"}) {
        auto rsetup = [=](World& w) {
            w.ctx["d2"] = mk(KD, 2, 2);
            w.st["brownian"] = std::make_shared<streams::BrownianStream>(seeded(g, 1234),
                streams::StreamMetadata{2, RealInterval(-8, 8), w.ctx["d2"], stype(KD), VectorType::Dense, 2, IntervalType::Clopen});
        };
        pairs(g, rsetup, {ops[1], ops[3], ops[5]}, 1, 1, 2);
    }
}

struct NoContexts : ContextMaker {
    bool can_get(deg_t, deg_t, const scalars::ScalarType*, const preference_list&) const override { return false; }
    context_pointer get_context(deg_t, deg_t, const scalars::ScalarType*, const preference_list&) const override { throw std::logic_error("asked"); }
    optional<base_context_pointer> get_base_context(deg_t, deg_t) const override { return {}; }
};
static void algebra_scenarios(bool thorough)
{
    for (Kind k : {KD, KQ}) {
        VectorType vt = k == KD ? VectorType::Dense : VectorType::Sparse;
        auto setup = [=](World& w) {
            auto c = mk(k, 2, 3);
            w.ctx["c"] = c;
            for (int i = 0; i < 2; ++i) {
                w.ft.push_back(ten_of<FreeTensor>(c, k, i + 1, 15, vt));
                w.sh.push_back(ten_of<ShuffleTensor>(c, k, i + 1, 15, vt));
                w.li.push_back(lie_of(c, k, i ? std::vector<int>{2, -1, 1, 3, 1} : std::vector<int>{1, 3, -2, 1, 4}, vt));
            }
        };
        std::vector<Named> ops;
        auto op = [&](const char* n, Op f) { ops.push_back({n, f}); };
        op("a*b", [=](World& w) { return text(w.ft[0].mul(w.ft[1]), k); });
        op("sh(a)*sh(b)", [=](World& w) { return text(w.sh[0].mul(w.sh[1]), k); });
        op("[x,y]", [=](World& w) { return text(w.li[0].mul(w.li[1]), k); });
        op("lie_to_tensor(x)", [=](World& w) { return text(w.ctx["c"]->lie_to_tensor(w.li[0]), k); });
        op("tensor_to_lie(lie_to_tensor(y))", [=](World& w) { return text(w.ctx["c"]->tensor_to_lie(w.ctx["c"]->lie_to_tensor(w.li[1])), k); });
        op("cbh(x,y)", [=](World& w) { return text(w.ctx["c"]->cbh(w.li[0], w.li[1], vt), k); });
        op("exp(log(a))", [=](World& w) { return text(w.ctx["c"]->lie_to_tensor(w.li[0]).exp().log(), k); });
        op("half_shuffle(a,b)", [=](World& w) { return text(ShuffleTensor(w.ctx["c"]->half_shuffle_multiply(&*w.sh[0], &*w.sh[1])), k); });
        op("adjoint(a,sh b)", [=](World& w) { return text(ShuffleTensor(w.ctx["c"]->adjoint_to_left_multiply_by(&*w.ft[0], &*w.sh[1])), k); });
        op("copy a, a+b", [=](World& w) { FreeTensor t(w.ft[0]); t.add_inplace(w.ft[1]); return text(t, k); });
        op("copy x, x-y", [=](World& w) { Lie t(w.li[0]); t.sub_inplace(w.li[1]); return text(t, k); });
        op("str a", [=](World& w) { std::ostringstream o; o << w.ft[0] << w.li[0]; return o.str(); });
        op("get_context(2,3)", [=](World&) { auto c = mk(k, 2, 3); return text(lie_of(c, k, {1, 2, 3, 4, 5}, vt), k); });
        op("get_context(3,2)", [=](World&) { auto c = mk(k, 3, 2); return text(c->lie_to_tensor(lie_of(c, k, {1, 2, 3, 4, 5, 6}, vt)), k); });
        op("get_alike(4)", [=](World& w) { auto c = w.ctx["c"]->get_alike(4); return cat(c->width(), " ", c->depth(), " ", c->lie_size(4), " ", c->tensor_size(4)) + text(c->lie_to_tensor(lie_of(c, k, {1, 2, 3}, vt)), k); });
        op("basis strings", [=](World& w) {
            auto b = w.ctx["c"]->get_lie_basis();
            auto t = w.ctx["c"]->get_tensor_basis();
            std::string s;
            for (int i = 1; i <= 5; ++i) s += b.key_to_string(b.index_to_key(i - 1)) + " ";
            for (int i = 0; i < 15; ++i) s += t.key_to_string(t.index_to_key(i)) + " ";
            return s;
        });
        op("[u,v] at depth 4", [=](World&) { auto c = mk(k, 2, 4); return text(lie_of(c, k, {1, 2, 3, 4, 5, 6, 7, 8}, vt).mul(lie_of(c, k, {2, -1, 1}, vt)), k); });
        op("shuffle at depth 2", [=](World&) { auto c = mk(k, 2, 2); return text(ten_of<ShuffleTensor>(c, k, 1, 7, vt).mul(ten_of<ShuffleTensor>(c, k, 2, 7, vt)), k); });
        op("half_shuffle at depth 4", [=](World&) {
            auto c = mk(k, 2, 4);
            auto a = ten_of<ShuffleTensor>(c, k, 1, 7, vt), b = ten_of<ShuffleTensor>(c, k, 2, 7, vt);
            return text(ShuffleTensor(c->half_shuffle_multiply(&*a, &*b)), k);
        });
        op("cbh at depth 2", [=](World&) { auto c = mk(k, 2, 2); return text(c->cbh(lie_of(c, k, {1, 2, 3}, vt), lie_of(c, k, {2, -1, 1}, vt), vt), k); });
        op("get_base_context", [=](World&) {
            std::string s;
            for (int d = 2; d < 5; ++d) { auto b = get_base_context(2, d); s += cat(b->width(), b->depth(), " ", b->lie_size(d), " ", b->tensor_size(d), ";"); }
            return s;
        });
        op("other type's context", [=](World&) { auto c = mk(k == KD ? KQ : KD, 2, 3); return text(lie_of(c, k == KD ? KQ : KD, {1, 2, 3}, vt), k == KD ? KQ : KD); });
        pairs(cat(kname(k), "/", vname(vt)), setup, ops, thorough ? 2 : 1, thorough ? 2 : 1);
        std::vector<std::vector<int>> triples{{2, 3, 5}, {12, 13, 14}, {1, 7, 8}, {4, 4, 4}, {5, 5, 5}, {2, 2, 2}, {7, 7, 7}};
        for (auto& t : triples)
            g_sc.push_back({cat(kname(k), "/", vname(vt), ": ", ops[t[0]].name, " || ", ops[t[1]].name, " || ", ops[t[2]].name), setup,
                            {{ops[t[0]]}, {ops[t[1]]}, {ops[t[2]]}}, thorough ? 2 : 1});
    }
    // scalar types, generators and factories by name
    auto none = [](World& w) { w.rng.push_back(seeded("mt19937", 42)); w.rng.push_back(seeded("pcg", 42)); };
    std::vector<Named> ops;
    auto op = [&](const char* n, Op f) { ops.push_back({n, f}); };
    op("draw mt", [](World& w) { auto a = w.rng[0]->normal_random(scalars::Scalar(0.0), scalars::Scalar(1.0), 3); auto s = a.as_slice<const double>(); return dhex(s[0]) + dhex(s[1]) + dhex(s[2]); });
    op("draw pcg", [](World& w) { auto a = w.rng[1]->normal_random(scalars::Scalar(0.0), scalars::Scalar(1.0), 3); auto s = a.as_slice<const double>(); return dhex(s[0]) + dhex(s[1]) + dhex(s[2]); });
    op("uniform mt", [](World& w) {
        std::vector<double> lo{0}, hi{1};
        scalars::ScalarArray l(stype(KD), (const void*) lo.data(), 1), h(stype(KD), (const void*) hi.data(), 1);
        auto a = w.rng[0]->uniform_random_scalar(l, h, 2); auto s = a.as_slice<const double>(); return dhex(s[0]) + dhex(s[1]); });
    op("seed of mt", [](World& w) { return cat(w.rng[0]->get_seed().size()); });
    op("state of mt", [](World& w) { auto s = w.rng[0]->get_state(); return cat(s.size(), " ", std::hash<std::string>()(s)); });
    op("state of pcg", [](World& w) { auto s = w.rng[1]->get_state(); return s; });
    op("type by id", [](World&) { std::string s; for (auto n : {"DPReal", "SPReal", "Rational", "f64", "f32"}) { auto t = scalars::get_type(n); s += t ? (*t)->name() : std::string("-"); } return s; });
    op("scalar arithmetic", [](World&) { auto a = mkscalar(KQ, Q(1, 3)) + mkscalar(KQ, Q(1, 6)); auto b = mkscalar(KD, Q(1, 2)) * mkscalar(KD, Q(3)); return sval(a, KQ, 0).str() + sval(b, KD, 0).str(); });
    op("conversion", [](World&) { auto a = scalars::scalar_cast<double>(mkscalar(KQ, Q(3, 4))); return dhex(a); });
    op("register a context maker", [](World&) { return cat(bool(register_context_maker(std::unique_ptr<ContextMaker>(new NoContexts)))); });
    op("get_context(2,2)", [](World&) { auto c = mk(KD, 2, 2); return text(lie_of(c, KD, {1, 2, 3}), KD); });
    op("get_base_context(4,2)", [](World&) { auto b = get_base_context(4, 2); return cat(b->lie_size(2)); });
    pairs("registry", none, ops, 2, 2);
}

int main(int argc, char** argv)
{
    std::string mode = "streams", only;
    for (int i = 1; i < argc; ++i) {
        if (!strcmp(argv[i], "--mode")) mode = argv[i + 1];
        if (!strcmp(argv[i], "--only")) only = argv[i + 1];
    }
    vh::Run run(argc, argv);
    S = (vs_shared*) mmap(nullptr, sizeof(vs_shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    O = (Out*) mmap(nullptr, sizeof(Out), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    errfile = (run.out.empty() ? std::string("/tmp/vh_threads") : run.out) + ".err";
    if (mode == "streams") stream_scenarios(run.thorough());
    else algebra_scenarios(run.thorough());
    for (auto& sc : g_sc) {
        if (!only.empty() && sc.name.find(only) == std::string::npos) continue;
        if (!run.mine()) continue;
        scenario(run, sc);
    }
    unlink(errfile.c_str());
    return run.finish();
}
