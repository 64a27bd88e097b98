// Renderings repeated at different points of a history.
#include <pch.h>
#include "vt.h"
#include <lm/path.h>
#include "scenes.h"

namespace {
Renderer* prepare(const Json& e, lm::Json p, long long seed) {
    lm::load<Film>("film", "film::bitmap", { {"w", e.value("w", 3)}, {"h", e.value("h", 3)} });
    p["scene"] = "$.assets.scene"; p["output"] = "$.assets.film"; if (seed) p["seed"] = (unsigned int)seed;
    return lm::load<Renderer>("renderer", "renderer::" + e["key"].get<std::string>(), p);
}
void run(const Json& s) {
    lm::init(); lm::log::set_severity(1000);
    int threads = 1; lm::parallel::init("openmp", { {"num_threads", 1} });
    build(s); Renderer* last = nullptr; std::string lastcfg;
    for (auto& e : s["ops"]) {
        const std::string op = e["op"]; Json r = e; r.erase("prop");
        if (op == "Render") {
            std::string im; bool finite = true, blank = true; const long long seed = e["seed"];
            r["ret"] = vt::attempt([&]() {
                const std::string id = e["cfg"].get<std::string>() + "/" + std::to_string(seed);
                // the same renderer again, or a new one
                if (!(e.value("again", false) && last && id == lastcfg)) last = prepare(e, lm::Json::parse(e["prop"].dump()), seed);
                lastcfg = id; last->render();
                const auto b = comp::get<Film>("$.assets.film")->buffer();
                unsigned long long h = 1469598103934665603ull;
                for (int i = 0; i < b.w * b.h * 3; i++) { const double x = b.data[i]; finite = finite && std::isfinite(x); blank = blank && x == 0; unsigned long long u; std::memcpy(&u, &x, 8); for (int k = 0; k < 8; k++) { h ^= (u >> (8 * k)) & 255; h *= 1099511628211ull; } }
                im = std::to_string(h);
            });
            r["im"] = im; r["finite"] = finite; r["blank"] = blank; r["threads"] = threads;
        }
        else if (op == "Spread") {
            double v[2] = { 0, 0 }; const int reps = e["reps"];
            r["ret"] = vt::attempt([&]() {
                for (int k = 0; k < 2; k++) {
                    lm::parallel::init("openmp", { {"num_threads", k ? e["n"].get<int>() : 1} });
                    double s1 = 0, s2 = 0;
                    for (int i = 0; i < reps; i++) {
                        auto* re = prepare(e, lm::Json::parse(e["prop"].dump()), e["seeded"].get<bool>() ? 1 + 1000 * (i + 1) : 0);
                        re->render(); const auto b = comp::get<Film>("$.assets.film")->buffer(); double m = 0;
                        for (int j = 0; j < b.w * b.h * 3; j++) m += b.data[j];
                        s1 += m; s2 += m * m;
                    }
                    v[k] = (s2 / reps - s1 / reps * s1 / reps);
                }
            });
            const double sc_ = 100000 / std::max(v[0], v[1]);
            r["one"] = rnd(v[0] * sc_); r["many"] = rnd(v[1] * sc_); last = nullptr;
            lm::parallel::init("openmp", { {"num_threads", threads} });
        }
        else if (op == "Threads") { r["op"] = "Other"; threads = e["n"]; r["ret"] = vt::attempt([&]() { lm::parallel::init("openmp", { {"num_threads", threads} }); }); last = nullptr; }
        else if (op == "Reset") { r["op"] = "Other"; r["ret"] = vt::attempt([&]() { lm::reset(); build(s); }); last = nullptr; }
        else if (op == "Restart") { r["op"] = "Other"; r["ret"] = vt::attempt([&]() { lm::shutdown(); lm::init(); lm::log::set_severity(1000); lm::parallel::init("openmp", { {"num_threads", threads} }); build(s); }); last = nullptr; }
        else if (op == "Rebuild") { r["op"] = "Other"; r["ret"] = vt::attempt([&]() { comp::get<Scene>("$.assets.scene")->build(); }); }
        else if (op == "Save") { r["op"] = "Other"; r["ret"] = vt::attempt([&]() { const auto f = vt::scratch() + "/state"; lm::save_state_to_file(f); lm::load_state_from_file(f); }); last = nullptr; }
        vt::emit(r);
    }
}
vt::Reg reg("repro", run);
}
