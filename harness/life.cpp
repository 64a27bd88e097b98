// The logger, and the life cycle of the framework.
#include <pch.h>
#include "vt.h"
#include <lm/lm.h>
#include <lm/logger.h>
#include <regex>
#include <thread>

namespace {
using vt::Json;
using namespace lm;

std::stringbuf g_out;
struct Capture { std::streambuf* old; Capture() { old = std::cout.rdbuf(&g_out); } ~Capture() { std::cout.rdbuf(old); } };

// What was written since the last call: text, and how it ends.  Times are masked.
Json written(std::string& time) {
    std::string t = g_out.str(); g_out.str("");
    static const std::regex re("\\[([A-Z])\\|([0-9]+\\.[0-9]{3})([|\\]])");
    std::string o; std::smatch m; auto it = t.cbegin(); time = "";
    while (std::regex_search(it, t.cend(), m, re)) {
        o.append(it, m[0].first); const std::string mask(m[2].length(), '#'); time = mask;
        o += "[" + m[1].str() + "|" + mask + m[3].str(); it = m[0].second;
    }
    o.append(it, t.cend());
    Json a = Json::array(); std::string cur;
    for (char c : o) { if (c == '\r' || c == '\n') { a.push_back({ {"x", cur}, {"e", std::string(c == (char)13 ? "cr" : "lf")} }); cur.clear(); } else cur += c; }
    if (!cur.empty()) a.push_back({ {"x", cur}, {"e", ""} });
    return a;
}
log::LogLevel level(const std::string& s) {
    using L = log::LogLevel;
    return s == "Debug" ? L::Debug : s == "Info" ? L::Info : s == "Warn" ? L::Warn : s == "Err" ? L::Err : s == "Progress" ? L::Progress : L::ProgressEnd;
}
void post(const Json& e) {
    const std::string l = e["level"], m = e["msg"]; const int line = e["line"]; const std::string file = e["file"];
    log::log(level(l), e["sev"].get<int>(), file.c_str(), line, m.c_str());
}

void run_logger(const Json& s) {
    Capture cap; std::vector<std::unique_ptr<log::LogIndenter>> scopes; std::unique_ptr<log::ScopedInit> scoped;
    for (auto& e : s["ops"]) {
        const std::string op = e["op"]; Json r = e; std::string ret, time;
        if (op == "Init") ret = vt::attempt([&]() { if (e.value("scoped", false)) { scoped.reset(); scoped = std::make_unique<log::ScopedInit>("default", lm::Json{ {"show_line_and_filename", e["show"].get<bool>()} }); } else log::init("default", { {"color", e.value("color", true)}, {"show_line_and_filename", e["show"].get<bool>()} }); });
        else if (op == "Shutdown") ret = vt::attempt([&]() { if (scoped) scoped.reset(); else log::shutdown(); });
        else if (op == "Severity") ret = vt::attempt([&]() { log::set_severity(e["n"].get<int>()); });
        else if (op == "Indent") ret = vt::attempt([&]() {
            const int n = e["n"];
            if (e.value("scope", false) && n == 1) scopes.push_back(std::make_unique<log::LogIndenter>());
            else if (e.value("scope", false) && n == -1 && !scopes.empty()) scopes.pop_back();
            else log::update_indentation(n); });
        else if (op == "Log") ret = vt::attempt([&]() { post(e); });
        else if (op == "Storm") ret = vt::attempt([&]() {
            std::vector<std::thread> ts; std::atomic<int> ready{0}; const int n = int(e["msgs"].size());
            for (auto& q : e["msgs"]) ts.emplace_back([&, q]() { ready++; while (ready < n) std::this_thread::yield(); for (auto& m : q) post(m); });
            for (auto& t : ts) t.join(); });
        r["ret"] = ret; r["out"] = written(time); r["time"] = time;
        vt::emit(r);
    }
    for (auto& x : scopes) x.release();
    scoped.release();
}

void run_life(const Json& s) {
    Capture cap; std::string time; int k = 0;
    const int def = int(std::thread::hardware_concurrency());
    { std::ofstream o("x.obj"); o << "v 0 0 0\nv 1 0 0\nv 0 1 0\nf 1 2 3\n"; }
    for (auto& e : s["ops"]) {
        const std::string op = e["op"]; Json r = e; const std::string x = e.value("x", std::string());
        r["ret"] = vt::attempt([&]() {
            if (op == "Init") lm::init();
            else if (op == "Shutdown") lm::shutdown();
            else if (op == "Reset") lm::reset();
            else if (op == "Load") lm::load<Material>(e["n"].get<std::string>(), "material::mirror", {});
            else if (op == "SubInit") { if (x == "log") log::init(); else if (x == "par") parallel::init("openmp", { {"num_threads", e["k"].get<int>()} }); else if (x == "pro") progress::init(); else objloader::init(); }
            else if (op == "SubOff") { if (x == "log") log::shutdown(); else if (x == "par") parallel::shutdown(); else if (x == "pro") progress::shutdown(); else objloader::shutdown(); }
            else if (op == "Save") {
                const std::string to = e["to"]; const std::string p = to == "nodir" ? "no/dir/x" : to == "dir" ? "." : to == "full" ? "full" : "good";
                if (to == "full") { std::error_code ec; fs::create_symlink("/dev/full", p, ec); }
                lm::save_state_to_file(p);
                if (to == "good") { lm::reset(); lm::load_state_from_file(p); }
            }
            else throw 1;
        });
        vt::emit(r);
        Json q = { {"op", "Look"}, {"default", def} };
        q["info"] = vt::attempt([&]() { lm::info(); });
        Json names = Json::array();
        q["tree"] = vt::attempt([&]() { lm::assets()->foreach_underlying([&](Component*& p, bool) { if (p) names.push_back(p->name()); }); });
        q["names"] = names;
        q["threads"] = 0; q["par"] = vt::attempt([&]() { q["threads"] = parallel::num_threads(); std::atomic<int> n{0}; parallel::foreach(10, [&](long long, int) { n++; }, [](long long) {}); if (n != 10) throw 1; });
        q["pro"] = vt::attempt([&]() { progress::start(progress::ProgressMode::Samples, 10, 0); progress::update(1); progress::end(); });
        q["obj"] = vt::attempt([&]() { objloader::OBJSurfaceGeometry geo; if (!objloader::load("x.obj", geo, [](const objloader::OBJMeshFace&, const objloader::MTLMatParams&) { return true; }, [](const objloader::MTLMatParams&) { return true; })) throw 1; });
        written(time); log::log(log::LogLevel::Err, 1000000, "x.cpp", 1, "hello");
        const auto out = written(time); q["logged"] = out.size() == 1 && out[0]["x"].get<std::string>().rfind("[E|", 0) == 0 ? std::string("headed") : std::string("plain");
        q["save"] = vt::attempt([&]() { lm::save_state_to_file("s" + std::to_string(k++)); });
        vt::emit(q);
    }
}
vt::Reg reg("logger", run_logger), reg2("life", run_life);
}
