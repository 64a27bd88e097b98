// Films: sequential histories, concurrent programs, gated schedules, files.
#include <pch.h>
#include "vt.h"
using namespace lm;
using vt::Json;

namespace {
std::map<std::string, Film*> films;

Json obs() {
    Json a = Json::array();
    for (auto& [n, f] : films) {
        const auto b = f->buffer();
        bool exact = true;
        Json px = Json::array();
        for (int i = 0; i < b.w * b.h; i++) {
            Json c = Json::array();
            for (int k = 0; k < 3; k++) {
                const double d = b.data[3 * i + k];
                const bool ok = std::isfinite(d) && std::abs(d) < 2e9 && d == std::floor(d);
                exact = exact && ok;
                c.push_back(ok ? (long long)(d) : 0);
            }
            px.push_back(c);
        }
        const auto s = f->size();
        a.push_back({ {"f", n}, {"w", s.w}, {"h", s.h}, {"n", f->num_pixels()}, {"px", px}, {"exact", exact && b.w == s.w && b.h == s.h} });
    }
    return a;
}
Vec3 vec(const Json& v) { return Vec3(v[0].get<double>(), v[1].get<double>(), v[2].get<double>()); }
double ras(const Json& r) {
    const int far = r.at("far");
    if (far) return far * r.at("mag").get<double>();
    return r.at("num").get<double>() / r.at("den").get<double>();
}
void pix(Film* f, const Json& o) {
    const std::string k = o.at("k");
    const Vec3 v = vec(o.at("v"));
    const auto u = [&](Vec3 c) -> Vec3 { return c * 2.0 + v; };
    if (o.value("ras", false)) {
        const Vec2 rp(ras(o.at("rx")), ras(o.at("ry")));
        if (k == "splat") { f->splat(rp, v); return; }
        if (k == "ave") { f->inc_ave(rp, o.at("i").get<long long>(), v); return; }
        const auto p = f->raster_to_pixel(rp);
        if (k == "set") f->set_pixel(p.x, p.y, v);
        else f->update_pixel(p.x, p.y, u);
        return;
    }
    const int x = o.at("x"), y = o.at("y");
    if (k == "set") f->set_pixel(x, y, v);
    else if (k == "splat") f->splat_pixel(x, y, v);
    else if (k == "upd") f->update_pixel(x, y, u);
    else if (k == "ave") f->inc_ave(x, y, o.at("i").get<long long>(), v);
}

// Turns of a forced schedule
class Turns {
    std::vector<std::pair<int, char>> s_;
    size_t pos_ = 0;
    bool on_ = true;
    std::mutex m_;
    std::condition_variable cv_;
public:
    Turns(const Json& s) { for (const auto& x : s) s_.push_back({ x["t"].get<int>(), x["e"].get<std::string>()[0] }); }
    void wait(int t, char e) {
        std::unique_lock<std::mutex> l(m_);
        if (!on_) return;
        if (!cv_.wait_for(l, std::chrono::milliseconds(500), [&] { return !on_ || (pos_ < s_.size() && s_[pos_] == std::make_pair(t, e)); })) on_ = false;
    }
    void pass(int t, char e) {
        std::unique_lock<std::mutex> l(m_);
        if (on_ && pos_ < s_.size() && s_[pos_] == std::make_pair(t, e)) pos_++;
        cv_.notify_all();
    }
};

Json readback(const std::string& path, const std::string& ext, int w, int h) {
    Json px = Json::array();
    if (ext == ".pfm") {
        std::ifstream is(path, std::ios::binary);
        std::string magic; int fw = 0, fh = 0; std::string sc;
        is >> magic >> fw >> fh >> sc;
        is.get();
        if (magic != "PF" || fw != w || fh != h || std::stod(sc) >= 0) return "bad header";
        std::vector<float> d(size_t(w) * h * 3);
        is.read((char*)d.data(), std::streamsize(d.size() * 4));
        if (is.gcount() != std::streamsize(d.size() * 4) || is.peek() != EOF) return "bad length";
        for (int i = 0; i < w * h; i++) px.push_back({ (long long)d[3 * i], (long long)d[3 * i + 1], (long long)d[3 * i + 2] });
        return px;
    }
    auto t = comp::create<Texture>("texture::bitmap", "", { {"path", path} });
    if (t->size().w != w || t->size().h != h) return "bad size";
    for (int y = 0; y < h; y++) for (int x = 0; x < w; x++) {
        const auto c = t->eval(Vec2((x + .5) / w, (y + .5) / h));
        px.push_back({ (long long)c.x, (long long)c.y, (long long)c.z });
    }
    return px;
}

void run(const Json& session) {
    lm::init();
    log::set_severity(1000);
    parallel::init("openmp", { {"num_threads", session.value("nt", 2)} });
    for (const auto& o : session.at("ops")) {
        Json e = o;
        const std::string op = o.at("op");
        if (op == "New") {
            const std::string n = o.at("f");
            films[n] = lm::load<Film>(n, "film::bitmap", { {"w", o.at("w")}, {"h", o.at("h")} });
        }
        else if (op == "Pix") pix(films.at(o.at("f")), o);
        else if (op == "Accum") films.at(o.at("f"))->accum(films.at(o.at("g")));
        else if (op == "Rescale") films.at(o.at("f"))->rescale(o.at("s").get<double>());
        else if (op == "Clear") films.at(o.at("f"))->clear();
        else if (op == "Save") {
            auto* f = films.at(o.at("f"));
            const std::string ext = o.at("ext");
            if (o.value("block", false)) { std::ofstream b("blocked"); b << "x"; }   // a plain file where a directory is needed
            const std::string path = o.at("path").get<std::string>() + ext;
            if (o.value("full", false)) { std::error_code ec; fs::create_symlink("/dev/full", path, ec); }
            bool ret = false;
            const auto out = vt::attempt([&] { ret = f->save(path); });
            e["ret"] = ret && out == "ok";
            e["out"] = out;
            e["file"] = ret ? readback(path, ext, f->size().w, f->size().h) : Json(Json::array());
        }
        else if (op == "Par") {
            auto* f = films.at(o.at("f"));
            const int w = f->size().w;
            std::vector<std::thread> ts;
            std::atomic<int> ready{ 0 };
            const int n = int(o.at("progs").size());
            for (const auto& p : o.at("progs")) ts.emplace_back([&, p] {
                ready++;
                while (ready < n) std::this_thread::yield();
                for (auto q : p) { const int k = q.at("p").get<int>() - 1; q["x"] = k % w; q["y"] = k / w; pix(f, q); }
            });
            for (auto& t : ts) t.join();
        }
        else if (op == "Gated") {
            auto* f = films.at(o.at("f"));
            Turns turns(o.at("sched"));
            std::vector<std::thread> ts;
            Json progs = Json::array();
            int tid = 0;
            for (auto q : o.at("progs")) {
                tid++;
                progs.push_back(q);
                const auto x = q.at(0);
                ts.emplace_back([&, x, tid] {
                    const std::string k = x.at("k");
                    const Vec3 v = vec(x.at("v"));
                    if (k == "upd") {
                        bool first = true;
                        turns.wait(tid, 'l');
                        f->update_pixel(0, 0, [&](Vec3 c) -> Vec3 {
                            if (first) { first = false; turns.pass(tid, 'l'); turns.wait(tid, 'c'); }
                            return c * 2.0 + v;
                        });
                    }
                    else {
                        turns.wait(tid, 'l'); turns.pass(tid, 'l'); turns.wait(tid, 'c');
                        if (k == "set") f->set_pixel(0, 0, v); else f->splat_pixel(0, 0, v);
                    }
                    turns.pass(tid, 'c');
                });
            }
            for (auto& t : ts) t.join();
            e = Json{ {"op", "Par"}, {"f", o.at("f")}, {"progs", progs} };
        }
        else if (op == "Storm") {
            auto* f = films.at(o.at("f"));
            const int w = f->size().w, nt = o.at("nt"), per = o.at("per"), span = o.at("span");
            const Vec3 v = vec(o.at("v"));
            std::vector<std::thread> ts;
            std::atomic<int> ready{ 0 };
            std::vector<std::atomic<long long>> hits(span);
            for (auto& x : hits) x = 0;
            for (int t = 0; t < nt; t++) ts.emplace_back([&, t] {
                ready++;
                while (ready < nt) std::this_thread::yield();
                std::vector<long long> mine(span, 0);
                for (int i = 0; i < per; i++) {
                    const int k = (i + t) % span;
                    if (i % 3 == 0) f->update_pixel(k % w, k / w, [&](Vec3 c) -> Vec3 { return c + v; });
                    else f->splat_pixel(k % w, k / w, v);
                    mine[k]++;
                }
                for (int k = 0; k < span; k++) hits[k] += mine[k];
            });
            for (auto& t : ts) t.join();
            Json h = Json::array();
            for (auto& x : hits) h.push_back(x.load());
            e["hits"] = h;
        }
        e["obs"] = obs();
        vt::emit(e);
    }
}
vt::Reg r("film", run);
}
