// Suite "zoo": histories over the built-in components, with digests of what each of them does.
#include <pch.h>
#include "probe.h"
using vt::Json;

namespace {
std::string loc(const Json& p) {
    std::string s = "$.assets";
    for (const auto& x : p) s += "." + x.get<std::string>();
    return s;
}
lm::AssetGroup* group(const Json& p) { return p.empty() ? lm::assets() : lm::comp::get<lm::AssetGroup>(loc(p)); }

void run(const Json& s) {
    if (s.contains("files")) for (const auto& [n, c] : s["files"].items()) {
        const auto hex = c.get<std::string>();
        std::string b;
        for (size_t i = 0; i + 1 < hex.size(); i += 2) b.push_back((char)std::stoi(hex.substr(i, 2), nullptr, 16));
        std::ofstream(n, std::ios::binary) << b;
    }
    lm::init();
    lm::log::set_severity(1000);
    lm::parallel::init("openmp", { {"num_threads", s.value("threads", 1)} });
    for (const auto& op : s["ops"]) {
        Json e = op;
        e.erase("prop");
        const std::string o = op["op"];
        std::string out = "ok";
        if (o == "Load") {
            out = vt::attempt([&] {
                auto* g = group(op["g"]);
                if (!g) throw std::runtime_error("no group");
                auto* c = g->load_asset(op["n"], op["key"], op["prop"]);
                if (!c) throw std::runtime_error("null");
                if (c != lm::comp::get<lm::Component>(loc(op["path"]))) throw std::logic_error("other");
            });
        }
        else if (o == "Save") out = vt::attempt([&] {
            auto* c = lm::comp::get<lm::Component>(loc(op["p"]));
            if (!c) throw std::runtime_error("none");
            std::ofstream os(op["f"].get<std::string>(), std::ios::out | std::ios::binary);
            lm::serial::save_comp_owned(os, c, c->loc());
        });
        else if (o == "LoadSer") out = vt::attempt([&] { auto* g = group(op["g"]); if (!g) throw std::runtime_error("no group"); g->load_serialized(op["n"], op["f"]); });
        else if (o == "SaveState") out = vt::attempt([&] { lm::save_state_to_file(op["f"]); });
        else if (o == "LoadState") out = vt::attempt([&] { lm::load_state_from_file(op["f"]); });
        else if (o == "Reset") out = vt::attempt([&] { lm::reset(); });
        else if (o == "Mod") out = vt::attempt([&] {
            const std::string k = op["k"];
            if (k == "aspect") { lm::comp::get<lm::Camera>(loc(op["p"]))->set_aspect_ratio(op["prop"]["v"].get<double>()); return; }
            if (k == "filmset" || k == "filmsplat") {
                auto* f = lm::comp::get<lm::Film>(loc(op["p"]));
                const lm::Vec3 v(op["prop"]["v"][0].get<double>(), op["prop"]["v"][1].get<double>(), op["prop"]["v"][2].get<double>());
                const int x = op["prop"]["x"], y = op["prop"]["y"];
                if (k == "filmset") f->set_pixel(x, y, v); else f->splat_pixel(x, y, v);
                return;
            }
            if (k == "filmclear") { lm::comp::get<lm::Film>(loc(op["p"]))->clear(); return; }
            auto* sc = lm::comp::get<lm::Scene>(loc(op["p"]));
            if (!sc) throw std::runtime_error("no scene");
            if (k == "prim") {
                lm::Mat4 M(1);
                if (op["prop"].contains("_m")) { const auto& m = op["prop"]["_m"]; M = glm::translate(lm::Vec3(m[0].get<double>(), m[1].get<double>(), m[2].get<double>())) * glm::scale(lm::Vec3(m[3].get<double>())); }
                Json p = op["prop"]; p.erase("_m");
                sc->add_transformed_primitive(M, p);
            }
            else if (k == "inst") {
                Json p = op["prop"]; p.erase("_m");
                const int ig = sc->create_instance_group_node();
                sc->add_child(ig, sc->create_primitive_node(p));
                for (double x : { -.8, .7 }) { const int g = sc->create_group_node(glm::translate(lm::Vec3(x, .2, -.3))); sc->add_child(g, ig); sc->add_child(sc->root_node(), g); }
            }
            else if (k == "sreset") sc->reset();
            else if (k == "accel") sc->set_accel(op["prop"]["accel"]);
            else if (k == "build") sc->build();
            else throw std::runtime_error("?");
        });
        else if (o == "Render") out = vt::attempt([&] { lm::comp::get<lm::Renderer>(loc(op["p"]))->render(); });
        else if (o == "Probe") {
            Json d = Json::array();
            for (const auto& p : op["paths"]) {
                auto* c = lm::comp::get<lm::Component>(loc(p));
                d.push_back({ {"p", p}, {"d", c ? vt::digest(c) : std::string("none")} });
            }
            e["obs"] = d;
            e.erase("paths");
        }
        else throw std::runtime_error("op");
        e["out"] = out == "ok" ? "ok" : std::string("fail");
        e["err"] = out;
        vt::emit(e);
    }
}
vt::Reg r("zoo", run);
}
