// Parallel loops, progress reports and schedulers, under gated schedules and a virtual clock.
#include <pch.h>
#include "vt.h"
#include "vclock.h"
#include <unistd.h>
#include <signal.h>
using namespace lm;
using vt::Json;

namespace {
struct Boom { std::string x; };
std::string outcome(const std::function<void()>& f) {
    try { f(); return "ok"; }
    catch (const Boom& b) { return b.x; }
    catch (...) { return vt::current_exception_class(); }
}

// Forces the order of begin/end/throw events as far as the implementation permits it.
class Gate {
    struct E { char e; long long i; };
    std::vector<E> s_;
    size_t pos_ = 0;
    bool on_ = false;
    std::mutex m_;
    std::condition_variable cv_;
public:
    void set(const Json& sched) {
        for (const auto& x : sched) s_.push_back({ x["e"].get<std::string>()[0], x["i"].get<long long>() });
        on_ = !s_.empty();
    }
    // Waits for the turn of (e, i), logs, and passes the turn on.
    void turn(char e, long long i, const std::function<void()>& log) {
        std::unique_lock<std::mutex> l(m_);
        if (on_) {
            const bool got = cv_.wait_for(l, std::chrono::milliseconds(300), [&] {
                return !on_ || (pos_ < s_.size() && s_[pos_].e == e && s_[pos_].i == i); });
            if (!got) on_ = false;     // not this implementation's schedule: run freely
        }
        log();
        if (on_) { pos_++; if (pos_ >= s_.size()) on_ = false; }
        cv_.notify_all();
    }
};

std::atomic<int> g_loop_id{0};

// One loop; spec: n, sched, throws, pthrow, inner (nested loop size), top
void one_loop(const Json& o, bool top) {
    const int id = ++g_loop_id;
    const long long n = o.at("n");
    Gate gate;
    if (o.contains("sched")) gate.set(o["sched"]);
    std::set<long long> throws;
    for (const auto& x : o.value("throws", Json::array())) throws.insert(x.get<long long>());
    const bool pthrow = o.value("pthrow", false);
    const long long inner = o.value("inner", -1);
    const int spin = o.value("spin", 0);
    const auto caller = std::this_thread::get_id();
    vt::emit({ {"op", "LoopStart"}, {"id", id}, {"n", n} });
    const auto out = outcome([&] {
        parallel::foreach(n, [&](long long i, int t) {
            const bool m = top ? parallel::main_thread() : false;
            gate.turn('b', i, [&] { vt::emit({ {"op", "B"}, {"id", id}, {"i", i}, {"t", t}, {"m", m && (std::this_thread::get_id() == caller)}, {"top", top} }); });
            if (spin) { volatile int z = 0; for (int k = 0; k < spin * int(1 + (i * 7919) % 13); k++) z = z + k; }
            if (inner >= 0) one_loop({ {"n", inner} }, false);
            if (throws.count(i)) {
                const auto x = std::to_string(i);
                gate.turn('x', i, [&] { vt::emit({ {"op", "X"}, {"id", id}, {"i", i}, {"t", t}, {"x", x} }); });
                throw Boom{ x };
            }
            gate.turn('e', i, [&] { vt::emit({ {"op", "E"}, {"id", id}, {"i", i}, {"t", t} }); });
        }, [&](long long v) {
            const bool own = std::this_thread::get_id() == caller;
            if (pthrow) {
                vt::emit({ {"op", "PX"}, {"id", id}, {"x", "p"}, {"own", own} });
                throw Boom{ "p" };
            }
            vt::emit({ {"op", "P"}, {"id", id}, {"v", v}, {"own", own} });
        });
    });
    vt::emit({ {"op", "LoopReturn"}, {"id", id}, {"out", out} });
}

void bulk(const Json& o) {
    const long long n = o.at("n");
    std::vector<std::atomic<int>> c(n);
    for (auto& x : c) x = 0;
    std::atomic<long long> outside{0}, badthread{0};
    const int T = parallel::num_threads();
    const auto out = outcome([&] {
        parallel::foreach(n, [&](long long i, int t) {
            if (i < 0 || i >= n) outside++; else c[i]++;
            if (t < 0 || t >= T) badthread++;
        });
    });
    std::map<int, long long> h;
    for (auto& x : c) h[x]++;
    Json hist = Json::array();
    for (auto& [k, v] : h) hist.push_back({ k, v });
    vt::emit({ {"op", "Bulk"}, {"n", n}, {"out", out}, {"outside", outside.load()}, {"badthread", badthread.load()}, {"hist", hist} });
}

// As many samples as threads: each waits until all of them are being processed.
void meet() {
    const int T = parallel::num_threads();
    std::atomic<int> in{0};
    std::atomic<int> best{0};
    parallel::foreach(T, [&](long long, int) {
        in++;
        for (int k = 0; k < 4000 && in < T; k++) ::usleep(1000);
        int b = best, v = in;
        while (v > b && !best.compare_exchange_weak(b, v)) {}
    });
    vt::emit({ {"op", "Meet"}, {"together", best.load()} });
}

// ------------------------------------------------------------------ progress
std::vector<Json>* g_got = nullptr;    // direct calls collected here instead of being emitted
class Rec final : public progress::ProgressContext {
    Json name_;
public:
    virtual void construct(const Json& prop) override { name_ = prop.contains("r") ? prop["r"] : Json("r1"); }
    virtual void start(progress::ProgressMode mode, long long total, double time) override {
        const bool s = mode == progress::ProgressMode::Samples;
        const long long a = s ? total : std::llround(time * 1000);
        if (g_got) g_got->push_back({ {"r", name_}, {"call", "start"}, {"a", a} });
        else vt::emit({ {"op", "RStart"}, {"r", name_}, {"mode", std::string(s ? "samples" : "time")}, {"total", a} });
    }
    virtual void update(long long v) override {
        if (g_got) g_got->push_back({ {"r", name_}, {"call", "update"}, {"a", v} });
        else vt::emit({ {"op", "RUpdate"}, {"r", name_}, {"v", v} });
    }
    virtual void update_time(Float e) override {
        if (g_got) g_got->push_back({ {"r", name_}, {"call", "time"}, {"a", std::llround(e * 1000)} });
        else { const auto v = std::llround(e * 1000); vt::emit({ {"op", "RTime"}, {"r", name_}, {"v", v}, {"now", vt::vclock_now()} }); }
    }
    virtual void end() override {
        if (g_got) g_got->push_back({ {"r", name_}, {"call", "end"}, {"a", 0} });
        else vt::emit({ {"op", "REnd"}, {"r", name_} });
    }
};
LM_COMP_REG_IMPL(Rec, "progress::vtrec");

std::vector<Json>* g_log = nullptr;
class RecLog final : public log::LoggerContext {
    int sev_ = 0;
public:
    virtual void log(log::LogLevel level, int severity, const char*, int, const char* message) override {
        if (!g_log || severity < sev_) return;
        if (level != log::LogLevel::Progress && level != log::LogLevel::ProgressEnd) return;
        Json e{ {"done", -1}, {"total", -1} };
        std::cmatch m;
        if (std::regex_search(message, m, std::regex(R"(iter=([0-9.eE+-]+)/([0-9.eE+-]+))"))) {
            e["done"] = std::stod(m[1]); e["total"] = std::stod(m[2]);
        }
        g_log->push_back(e);
    }
    virtual void update_indentation(int) override {}
    virtual void set_severity(int s) override { sev_ = s; }
};
LM_COMP_REG_IMPL(RecLog, "logger::vtrec");

void direct(const Json& o) {
    std::vector<Json> got;
    vt::vclock_on();
    progress::init(o.at("type").get<std::string>(), o.at("prop"));
    g_got = &got;
    vt::emit({ {"op", "DInit"}, {"leaves", o.at("leaves")} });
    for (const auto& c : o.at("calls")) {
        vt::vclock_advance(c.at("dt"));
        got.clear();
        const std::string k = c.at("call");
        const long long a = c.at("a");
        if (k == "start") progress::start(c.at("time").get<bool>() ? progress::ProgressMode::Time : progress::ProgressMode::Samples, a, a / 1000.0);
        else if (k == "update") progress::update(a);
        else if (k == "time") progress::update_time(a / 1000.0);
        else progress::end();
        vt::emit({ {"op", "DCall"}, {"call", k}, {"a", a}, {"now", vt::vclock_now()}, {"got", got} });
    }
    g_got = nullptr;
    vt::vclock_off();
}

void plain(const Json& o) {
    std::vector<Json> got;
    vt::vclock_on();
    log::init("vtrec");
    progress::init("default");
    g_log = &got;
    vt::emit({ {"op", "FInit"} });
    bool time = false;
    for (const auto& c : o.at("calls")) {
        vt::vclock_advance(c.at("dt"));
        got.clear();
        const std::string k = c.at("call");
        const long long a = c.at("a");
        if (k == "start") { time = c.at("time"); progress::start(time ? progress::ProgressMode::Time : progress::ProgressMode::Samples, a, a / 1000.0); }
        else if (k == "update") progress::update(a);
        else if (k == "time") progress::update_time(a / 1000.0);
        else progress::end();
        Json g = Json::array();
        for (auto e : got) {
            if (e["done"] != -1) for (auto f : { "done", "total" }) e[f] = std::llround(e[f].get<double>() * (k == "time" ? 1000 : 1));
            g.push_back(e);
        }
        vt::emit({ {"op", "FCall"}, {"call", k}, {"a", a}, {"mode", std::string(time ? "time" : "samples")}, {"now", vt::vclock_now()}, {"got", g} });
    }
    g_log = nullptr;
    vt::vclock_off();
}

// ---------------------------------------------------------------- schedulers
void sched(const Json& o) {
    const Json s = o.at("s");
    const std::string kind = s.at("kind");
    const int w = o.value("w", 1), h = o.value("h", 1);
    const long long d = s.at("d");
    std::set<std::pair<long long, long long>> throws;
    for (const auto& x : o.value("throws", Json::array())) throws.insert({ x[0].get<long long>(), x[1].get<long long>() });
    auto* film = lm::load<Film>("film", "film::bitmap", { {"w", w}, {"h", h} });
    Json p{ {"output", film->loc()} };
    std::string key;
    if (kind == "spp_sample") { key = "scheduler::spp::sample"; p["spp"] = s.at("spp"); }
    if (kind == "spp_time") { key = "scheduler::spp::time"; p["render_time"] = s.at("limit").get<double>() / 1000; }
    if (kind == "spi_sample") { key = "scheduler::spi::sample"; p["num_samples"] = s.at("spp"); }
    if (kind == "spi_time") { key = "scheduler::spi::time"; p["render_time"] = s.at("limit").get<double>() / 1000; p["samples_per_iter"] = s.at("per"); }
    auto sc = comp::create<scheduler::Scheduler>(key, "$.assets.sched", p);
    progress::init(o.value("ptype", std::string("vtrec")), o.value("pprop", Json::object()));
    vt::vclock_on();
    vt::emit({ {"op", "SchStart"}, {"s", s} });
    long long ret = -1, calls = 0;
    const auto out = outcome([&] {
        ret = sc->run([&](long long pi, long long si, int t) {
            vt::emit({ {"op", "SB"}, {"p", pi}, {"s", si}, {"t", t} });
            if (++calls > 20000) ::raise(SIGALRM);
            vt::vclock_advance(d);
            if (throws.count({ pi, si })) {
                const auto x = std::to_string(pi) + "," + std::to_string(si);
                vt::emit({ {"op", "SX"}, {"p", pi}, {"s", si}, {"t", t}, {"x", x} });
                throw Boom{ x };
            }
            vt::emit({ {"op", "SE"}, {"p", pi}, {"s", si}, {"t", t} });
        });
    });
    vt::vclock_off();
    vt::emit({ {"op", "SchReturn"}, {"out", out}, {"ret", ret} });
    progress::init("default");
}

// A parallel context that runs a few chosen samples only.
std::vector<long long> g_pick;
std::vector<Json>* g_big = nullptr;
long long g_big_n = 0, g_big_q = 0;
class Few final : public parallel::ParallelContext {
public:
    virtual int num_threads() const override { return 1; }
    virtual bool main_thread() const override { return true; }
    virtual void foreach(long long n, const parallel::ParallelProcessFunc& f, const parallel::ProgressUpdateFunc& u) const override {
        g_big_n = n;
        for (auto q : g_pick) {
            if (q < 0) q += n;
            if (q < 0 || q >= n) continue;
            g_big_q = q;
            f(q, 0);
            u(0);
        }
    }
};
LM_COMP_REG_IMPL(Few, "parallel::vtfew");

Json limbs(long long v) {
    Json a = Json::array();
    if (v < 0) { a.push_back(-1); return a; }
    for (; v > 0; v /= 1000) a.push_back(v % 1000);
    return a;
}
void big(const Json& o) {
    const int w = o.at("w"), h = o.at("h");
    const bool spi = o.at("kind") == "spi";
    const long long spp = o.at("spp");
    auto* film = lm::load<Film>("film", "film::bitmap", { {"w", w}, {"h", h} });
    auto sc = spi ? comp::create<scheduler::Scheduler>("scheduler::spi::sample", "$.assets.sched", { {"num_samples", spp} })
                  : comp::create<scheduler::Scheduler>("scheduler::spp::sample", "$.assets.sched", { {"spp", spp}, {"output", film->loc()} });
    std::vector<Json> got;
    g_got = &got;
    progress::init("vtrec");
    parallel::init("vtfew");
    for (const auto& q : o.at("pick")) {
        g_pick = { q.get<long long>() };
        got.clear();
        long long p = -1, s = -1, calls = 0;
        outcome([&] { sc->run([&](long long a, long long b, int) { p = a; s = b; if (++calls > 3) throw Boom{ "many" }; }); });
        const long long total = got.empty() ? -1 : got[0].value("a", -1LL);
        vt::emit({ {"op", "Big"}, {"calls", calls}, {"npix", limbs(spi ? 1 : (long long)w * h)}, {"spp", limbs(spp)}, {"p", limbs(p)}, {"s", limbs(s)},
                   {"q", limbs(g_big_q)}, {"n", limbs(g_big_n)}, {"total", limbs(total)} });
    }
    g_got = nullptr;
    progress::init("default");
    parallel::init("openmp");
}

void run(const Json& session) {
    lm::init();
    log::set_severity(1000);
    for (const auto& o : session.at("ops")) {
        const std::string op = o.at("op");
        if (op == "Init") {
            const int cfg = o.at("nt"), ivl = o.at("ivl");
            parallel::init("openmp", { {"num_threads", cfg}, {"progress_update_interval", ivl} });
            vt::emit({ {"op", "Init"}, {"cfg", cfg}, {"hw", int(std::thread::hardware_concurrency())}, {"ivl", ivl}, {"nt", parallel::num_threads()} });
            continue;
        }
        const auto go = [&] {
            if (op == "Loop") one_loop(o, true);
            else if (op == "Bulk") bulk(o);
            else if (op == "Meet") meet();
            else if (op == "Sched") sched(o);
            else if (op == "Big") big(o);
            else if (op == "Direct") direct(o);
            else if (op == "Plain") plain(o);
        };
        const std::string th = o.value("thread", "main");
        if (th == "main") go();
        else if (th == "other") { std::thread t(go); t.join(); }
        else { // several callers at once
            std::vector<std::thread> ts;
            for (int k = 0; k < 3; k++) ts.emplace_back(go);
            for (auto& t : ts) t.join();
        }
    }
}
vt::Reg r("loop", run);
}
