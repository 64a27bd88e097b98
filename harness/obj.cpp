// Wavefront OBJ and MTL files, as loaded by the loader, as a mesh and as a model.
#include <pch.h>
#include "vt.h"
#include <lm/objloader.h>
#include <lm/mesh.h>
#include <lm/model.h>
#include <lm/material.h>
#include <lm/light.h>
using namespace lm;
using vt::Json;

namespace {
// quarters as integers; what is no quarter is told apart
long long q4(double x, double s = 4) { const double y = x * s; return std::isfinite(y) && std::abs(y - std::round(y)) < 1e-9 && std::abs(y) < 1e9 ? (long long)std::llround(y) : -777777; }
Json q4(Vec3 v, double s = 4) { return Json::array({ q4(v.x, s), q4(v.y, s), q4(v.z, s) }); }
Json q4(Vec2 v, double s = 4) { return Json::array({ q4(v.x, s), q4(v.y, s) }); }
Json r4(Vec3 v) { Json a = Json::array(); for (int i = 0; i < 3; i++) a.push_back(std::isfinite(v[i]) ? std::llround(v[i] * 1000) : -777777); return a; }
Json tri(const Mesh::Tri& t) {
    Json a = Json::array();
    for (const auto* p : { &t.p1, &t.p2, &t.p3 }) a.push_back({ {"p", q4(p->p)}, {"n", q4(p->n)}, {"t", q4(p->t)} });
    return a;
}
void mesh_of(const Mesh* m, Json& e) {
    Json ts = Json::array(), ps = Json::array();
    m->foreach_triangle([&](int i, const Mesh::Tri& t) {
        const Json a = tri(t);
        ts.push_back(a == tri(m->triangle_at(i)) && i == int(ts.size()) ? a : Json::array());
        const auto p = m->surface_point(i, Vec2(.25, .5));
        ps.push_back({ {"p", q4(p.p, 16)}, {"t", q4(p.t, 16)}, {"gn", r4(p.gn)}, {"n", r4(p.n)} });
    });
    e["tris"] = ts; e["points"] = ps; e["num"] = m->num_triangles();
}
Json mat_of(const objloader::MTLMatParams& m) {
    return { {"name", m.name}, {"illum", m.illum}, {"Kd", q4(m.Kd)}, {"Ks", q4(m.Ks)}, {"Ke", q4(m.Ke)}, {"Ni", q4(m.Ni)}, {"Ns", q4(m.Ns)}, {"an", q4(m.an)}, {"map", m.mapKd} };
}
void run(const Json& s) {
    lm::init(); log::set_severity(1000);
    if (s.contains("loader")) {
        // another loader from a plugin
        comp::load_plugin(fs::path(s["loader"].get<std::string>()).replace_extension("").string());
        objloader::init("tinyobjloader", {});
    }
    for (auto& f : s["files"]) {
        const fs::path to(f["name"].get<std::string>());
        if (!to.parent_path().empty()) fs::create_directories(to.parent_path());
        std::ofstream os(to.string(), std::ios::binary);
        if (f.contains("text")) os << f["text"].get<std::string>();
        else for (auto& b : f["bytes"]) os.put(char(b.get<int>()));
    }
    vt::emit({ {"op", "Open"}, {"lib", s["lib"]}, {"tiny", s.contains("loader")} });
    for (auto& c : s["cs"]) vt::emit({ {"op", "Cmd"}, {"cmd", c} });
    const std::string path = s["path"].get<std::string>();
    {
        objloader::OBJSurfaceGeometry geo; Json mats = Json::array(), meshes = Json::array();
        bool ret = objloader::load(path, geo, [&](const objloader::OBJMeshFace& fs, const objloader::MTLMatParams& m) {
            Json ts = Json::array();
            const auto at = [&](const objloader::OBJMeshFaceIndex& i) -> Json {
                if (i.p < 0 || i.p >= int(geo.ps.size()) || i.t >= int(geo.ts.size()) || i.n >= int(geo.ns.size())) return { {"p", Json::array({ -888888, 0, 0 })}, {"t", Json::array()}, {"n", Json::array()} };
                return { {"p", q4(geo.ps[i.p])}, {"t", i.t < 0 ? q4(Vec2(0)) : q4(geo.ts[i.t])}, {"n", i.n < 0 ? q4(Vec3(0)) : q4(geo.ns[i.n])} };
            };
            for (size_t i = 0; i + 2 < fs.size(); i += 3) ts.push_back(Json::array({ at(fs[i]), at(fs[i + 1]), at(fs[i + 2]) }));
            meshes.push_back({ {"tris", ts}, {"m", mat_of(m)} });
            return true;
        }, [&](const objloader::MTLMatParams& m) { mats.push_back(mat_of(m)); return true; });
        vt::emit({ {"op", "Load"}, {"ret", ret}, {"mats", mats}, {"meshes", meshes} });
    }
    {
        Json e = { {"op", "Mesh"} };
        e["out"] = vt::attempt([&] { auto* m = lm::load<Mesh>("mesh", "mesh::wavefrontobj", { {"path", path} }); mesh_of(m, e); });
        vt::emit(e);
    }
    for (auto& o : s["models"]) {
        Json e = { {"op", "Model"}, {"prims", Json::array()}, {"colors", s["colors"]}, {"base", o.contains("base")}, {"skip", o.value("skip", false)} };
        const std::string name = o["name"].get<std::string>();
        e["out"] = vt::attempt([&] {
            lm::Json prop = { {"path", path} };
            if (o.contains("base")) { lm::load<Material>("base", "material::mirror", {}); prop["base_material"] = std::string("$.assets.base"); }
            if (o.contains("skip")) prop["skip_specular_mat"] = o["skip"].get<bool>();
            auto* m = lm::load<Model>(name, "model::wavefrontobj", prop);
            m->create_primitives([&](Component* me, Component* ma, Component* li) {
                Json p; auto* mesh = dynamic_cast<Mesh*>(me); auto* mat = dynamic_cast<Material*>(ma); auto* light = dynamic_cast<Light*>(li);
                const auto same = [&](Component* c) { return !c->loc().empty() && comp::get<Component>(c->loc()) == c; };
                if (!mesh || !mat || (li && !light)) { e["out"] = "wrong"; vt::emit({ {"op", "WrongType"} }); return; }
                mesh_of(mesh, p); p["loc"] = same(me) && (!li || same(li));
                Json x = { {"key", mat->key()}, {"loc", same(ma)} };
                const auto geom = PointGeometry::make_on_surface(Vec3(0), Vec3(0, 0, 1));
                if (mat->key() == "material::mixture_wavefrontobj") {
                    x["Kd"] = q4(dynamic_cast<Material*>(mat->underlying("diffuse"))->reflectance(geom));
                    x["Ks"] = q4(dynamic_cast<Material*>(mat->underlying("glossy"))->reflectance(geom));
                }
                else if (mat->key() == "material::diffuse") x["Kd"] = q4(mat->reflectance(geom));
                p["mat"] = x; p["lit"] = light != nullptr;
                if (light) p["Ke"] = q4(light->eval(geom, Vec3(0, 0, 1), false));
                e["prims"].push_back(p);
            });
        });
        vt::emit(e);
    }
}
vt::Reg reg("obj", run);
}
