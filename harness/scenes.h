// Scenes from their description, for the suites that measure transport.
#pragma once
#include "vt.h"
#include <fstream>
using namespace lm;
using vt::Json;

namespace {
constexpr long long BAD = -999999999;
inline Vec3 v3(const Json& j) { return Vec3(j[0].get<double>(), j[1].get<double>(), j[2].get<double>()); }
inline long long rnd(double d, double lim = 9e8) { return !std::isfinite(d) || std::abs(d) > lim ? BAD : (long long)std::llround(d); }
inline const Scene* sc() { return comp::get<Scene>("$.assets.scene"); }
std::map<std::string, int> prims;

inline void build(const Json& s) {
    prims.clear();
    if (s.contains("files")) for (auto& f : s["files"]) { std::ofstream os(vt::scratch() + "/" + f["name"].get<std::string>(), std::ios::binary); for (auto& b : f["bytes"]) os.put(char(b.get<int>())); }
    for (auto& a : s["assets"]) {
        lm::Json p = lm::Json::parse(a["prop"].dump());
        if (p.is_object() && p.count("path")) p["path"] = vt::scratch() + "/" + p["path"].get<std::string>();
        AssetGroup* g = comp::get<AssetGroup>("$.assets");
        g->load_asset(a["name"].get<std::string>(), a["impl"].get<std::string>(), p);
    }
    auto* ac = lm::load<Accel>("accel", "accel::sahbvh", {});
    auto* scene = lm::load<Scene>("scene", "scene::default", { {"accel", ac->loc()} });
    for (auto& p : s["prims"]) {
        lm::Json q = lm::Json::parse(p["prop"].dump());
        const int i = scene->create_primitive_node(q);
        prims[p["name"].get<std::string>()] = i;
        if (p.contains("M")) {
            Mat4 M(1_f); for (int r = 0; r < 3; r++) for (int c = 0; c < 4; c++) M[c][r] = p["M"][r][c].get<double>();
            const int g = scene->create_group_node(M);
            scene->add_child(g, i); scene->add_child(scene->root_node(), g);
        }
        else scene->add_child(scene->root_node(), i);
    }
    scene->build();
}
}
