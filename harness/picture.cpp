// Textures, environment maps and ray casting.
#include <pch.h>
#include "vt.h"
#include <lm/path.h>
#include "scenes.h"

namespace {
// The 8-bit code whose linear light the value is (gamma 2.2), or BAD.
long long code(double x) {
    if (!std::isfinite(x) || x < -1e-6 || x > 1.0001) return BAD;
    const long long c = std::llround(255 * std::pow(std::max(0., x), 1 / 2.2));
    return std::abs(std::pow(c / 255., 2.2) - x) < 2e-5 ? c : BAD;
}
struct Enc {
    std::string kind = "ldr";
    long long col(double x) const { if (kind == "ldr") return code(x); const double y = x * 256; return std::abs(y - std::llround(y)) < 1e-6 ? std::llround(y) : BAD; }
    long long al(double x) const { const double y = x * 255; return std::abs(y - std::llround(y)) < 1e-3 ? std::llround(y) : BAD; }
    Json operator()(Vec3 v) const { return Json::array({ col(v.x), col(v.y), col(v.z) }); }
};
void put(const Json& s) { if (s.contains("files")) for (auto& f : s["files"]) { std::ofstream os(vt::scratch() + "/" + f["name"].get<std::string>(), std::ios::binary); for (auto& b : f["bytes"]) os.put(char(b.get<int>())); } }

void run_picture(const Json& s) {
    lm::init(); lm::log::set_severity(1000);
    lm::parallel::init("openmp", { {"num_threads", s.value("threads", 1)} });
    put(s);
    Texture* t = nullptr; Enc enc;
    for (auto& e : s["ops"]) {
        const std::string op = e["op"]; Json r = e;
        if (op == "Load") {
            enc.kind = e.value("enc", std::string("ldr")); t = nullptr;
            lm::Json p; p["path"] = vt::scratch() + "/" + e["path"].get<std::string>();
            if (!e.value("default", false)) p["flip"] = e["pic"].value("flip", true);
            const auto ret = vt::attempt([&]() { t = lm::load<Texture>("t", "texture::bitmap", p); });
            r["ret"] = ret == "ok" && !t ? std::string("null") : ret == "ok" ? ret : std::string("error");
            if (t) { r["size"] = Json::array({ t->size().w, t->size().h }); r["alpha"] = t->has_alpha(); }
        }
        else if (op == "Eval") {
            const double d = e["d"]; Json q = Json::array();
            for (auto& ab : e["pts"]) {
                const Vec2 x(ab[0].get<double>() / d, ab[1].get<double>() / d);
                q.push_back({ {"a", ab[0]}, {"b", ab[1]}, {"v", enc(t->eval(x))}, {"al", t->has_alpha() ? enc.al(t->eval_alpha(x)) : 0} });
            }
            r.erase("pts"); r["q"] = q;
        }
        else if (op == "Pixels") {
            Json v = Json::array(); for (int y = 0; y < t->size().h; y++) for (int x = 0; x < t->size().w; x++) v.push_back(enc(t->eval_by_pixel_coords(x, y)));
            r["v"] = v;
        }
        else if (op == "Env") {
            const double sc_ = e["scale"]; Json q = Json::array();
            r["ret"] = vt::attempt([&]() {
                lm::Json p; p["path"] = vt::scratch() + "/" + e["path"].get<std::string>(); p["rot"] = e["rot"].get<double>(); p["scale"] = sc_; p["flip"] = e["pic"]["flip"].get<bool>();
                auto* l = lm::load<Light>("l", "light::env", p);
                for (auto& d : e["dirs"]) {
                    const auto wo = -glm::normalize(v3(d));
                    q.push_back({ {"d", d}, {"v", enc(l->eval(PointGeometry::make_infinite(wo), wo, false) / sc_)} });
                }
            });
            r.erase("dirs"); r["q"] = q;
        }
        else if (op == "Cast") {
            const int n = e["n"]; Json v = Json::array(), c = Json::array(); Enc en;
            r["ret"] = vt::attempt([&]() {
                build(e["scene"]);
                lm::load<Film>("film", "film::bitmap", { {"w", n}, {"h", n} });
                lm::Json p = lm::Json::parse(e["prop"].dump()); p["scene"] = "$.assets.scene"; p["output"] = "$.assets.film";
                auto* re = lm::load<Renderer>("renderer", "renderer::raycast", p);
                re->render(); if (e.value("twice", false)) re->render();
                const auto b = comp::get<Film>("$.assets.film")->buffer();
                for (int i = 0; i < n * n; i++) {
                    const Vec3 x(b.data[3 * i], b.data[3 * i + 1], b.data[3 * i + 2]);
                    v.push_back({ rnd(x.x * 1000), rnd(x.y * 1000), rnd(x.z * 1000) }); c.push_back(en(x));
                }
            });
            r.erase("scene"); r["v"] = v; r["e"] = c;
        }
        else throw std::runtime_error("unknown op");
        vt::emit(r);
    }
}
vt::Reg reg("picture", run_picture);
}
