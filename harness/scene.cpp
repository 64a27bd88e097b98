// Scene graph, flattening, nearest hits and visibility.
#include <pch.h>
#include "vt.h"
#include <lm/model.h>
#include <unistd.h>
using namespace lm;
using vt::Json;

// The number of threads that build acceleration structures
static unsigned g_hw = 0;
namespace std { unsigned thread::hardware_concurrency() noexcept { return g_hw == 1000 ? 0 : g_hw ? g_hw : unsigned(sysconf(_SC_NPROCESSORS_ONLN)); } }

namespace {
std::string nm(const Component* c) { return c ? c->name() : std::string(); }
std::string loc_of(const Json& e, const char* k) { const std::string n = e.value(k, std::string()); return n.empty() ? n : "$.assets." + n; }

// A model whose parts are assets of the tree
class TestModel final : public Model {
    std::string def_;
public:
    LM_SERIALIZE_IMPL(ar) { ar(def_); }
    virtual void construct(const lm::Json& prop) override { def_ = prop.at("def").get<std::string>(); }
    virtual void create_primitives(const CreatePrimitiveFunc& f) const override {
        const auto d = vt::Json::parse(def_);
        for (const auto& p : d.at("parts")) {
            const auto g = [&](const char* k) -> Component* { const auto n = loc_of(p, k); return n.empty() ? nullptr : comp::get<Component>(n); };
            f(g("mesh"), g("material"), g("light"));
        }
    }
    virtual void foreach_node(const VisitNodeFuncType& visit) const override {
        const auto d = vt::Json::parse(def_);
        int i = 0;
        for (const auto& n : d.at("graph")) {
            if (n.at("type").get<std::string>() == "group") {
                Mat4 M(1_f);
                for (int r = 0; r < 3; r++) for (int c = 0; c < 4; c++) M[c][r] = n["M"][r][c].get<double>();
                auto s = SceneNode::make_group(i, false, M);
                for (const auto& c : n.at("children")) s.group.children.push_back(c.get<int>());
                visit(s);
            }
            else {
                const auto g = [&](const char* k) -> Component* { const auto x = loc_of(n, k); return x.empty() ? nullptr : comp::get<Component>(x); };
                visit(SceneNode::make_primitive(i, dynamic_cast<Mesh*>(g("mesh")), dynamic_cast<Material*>(g("material")), nullptr, dynamic_cast<Camera*>(g("camera")), nullptr));
            }
            i++;
        }
    }
};
LM_COMP_REG_IMPL(TestModel, "model::vts");

Scene* sc() { return comp::get<Scene>("$.assets.scene"); }
Json fromM(const Mat4& M, bool& exact) {
    Json a = Json::array();
    for (int r = 0; r < 3; r++) {
        Json row = Json::array();
        for (int c = 0; c < 4; c++) {
            const double d = M[c][r];
            const bool ok = std::isfinite(d) && std::abs(d) < 1e9 && d == std::floor(d);
            exact = exact && ok;
            row.push_back(ok ? (long long)d : 0);
        }
        a.push_back(row);
    }
    return a;
}
Mat4 toM(const Json& m) {
    Mat4 M(1_f);
    for (int r = 0; r < 3; r++) for (int c = 0; c < 4; c++) M[c][r] = m[r][c].get<double>();
    return M;
}
bool g_built = false;
Json obs() {
    auto* s = sc();
    Json o;
    bool exact = true;
    o["n"] = s->num_nodes();
    Json nodes = Json::array(), isl = Json::array(), isc = Json::array();
    for (int i = 0; i < s->num_nodes(); i++) {
        const auto& n = s->node_at(i);
        int seen = -1;
        s->visit_node(i, [&](const SceneNode& x) { seen = x.index; });
        exact = exact && n.index == i && seen == i;
        const bool g = n.type == SceneNodeType::Group;
        nodes.push_back({ {"type", std::string(g ? "group" : "prim")}, {"children", g ? Json(n.group.children) : Json::array()}, {"inst", g && n.group.instanced},
            {"mesh", g ? "" : nm(n.primitive.mesh)}, {"material", g ? "" : nm(n.primitive.material)}, {"light", g ? "" : nm(n.primitive.light)},
            {"camera", g ? "" : nm(n.primitive.camera)}, {"medium", g ? "" : nm(n.primitive.medium)} });
        if (g) { isl.push_back(false); isc.push_back(false); continue; }
        const auto sp = SceneInteraction::make_surface_interaction(i, PointGeometry::make_degenerated(Vec3(0)));
        isl.push_back(s->is_light(sp));
        isc.push_back(s->is_camera(sp));
    }
    o["nodes"] = nodes; o["isl"] = isl; o["isc"] = isc;
    o["cam"] = s->camera_node(); o["env"] = s->env_light_node(); o["med"] = s->medium_node();
    Json trav = Json::array();
    s->traverse_primitive_nodes([&](const SceneNode& n, Mat4 M) { if (n.type == SceneNodeType::Primitive) trav.push_back({ {"i", n.index}, {"M", fromM(M, exact)} }); });
    o["trav"] = trav;
    Json ls = Json::array(), li = Json::array();
    for (int i = 0; i < s->num_lights(); i++) {
        const auto x = s->light_primitive_index_at(i);
        ls.push_back({ {"i", x.index}, {"M", fromM(x.global_transform.M, exact)} });
        li.push_back(s->light_index_at(x.index));
    }
    o["lights"] = ls; o["lidx"] = li;
    o["req"] = { {"prim", vt::attempt([&] { s->require_primitive(); }) == "ok"}, {"camera", vt::attempt([&] { s->require_camera(); }) == "ok"},
        {"light", vt::attempt([&] { s->require_light(); }) == "ok"}, {"accel", vt::attempt([&] { s->require_accel(); }) == "ok"}, {"all", vt::attempt([&] { s->require_renderable(); }) == "ok"} };
    if (s->root_node() != 0) exact = false;
    o["exact"] = exact;
    return o;
}
long long fx(double d, bool& bad) {
    if (!(std::abs(d) < 5e5)) { bad = true; return 0; }
    return std::llround(d * 4096);
}
Json fxv(const Vec3& v, bool& bad) { return Json::array({ fx(v.x, bad), fx(v.y, bad), fx(v.z, bad) }); }
Vec3 vec(const Json& v) { return Vec3(v[0].get<double>(), v[1].get<double>(), v[2].get<double>()); }

lm::Json mesh_prop(const Json& tris) {
    lm::Json p{ {"ps", lm::Json::array()}, {"ns", lm::Json::array()}, {"ts", lm::Json::array()}, {"fs", {{"p", lm::Json::array()}, {"t", lm::Json::array()}, {"n", lm::Json::array()}}} };
    int k = 0;
    for (const auto& t : tris) for (int v = 0; v < 3; v++) {
        for (int c = 0; c < 3; c++) { p["ps"].push_back(t["p"][v][c]); p["ns"].push_back(t["n"][v][c]); }
        for (int c = 0; c < 2; c++) p["ts"].push_back(t["t"][v][c]);
        for (const char* f : { "p", "t", "n" }) p["fs"][f].push_back(k);
        k++;
    }
    return p;
}

void run(const Json& s) {
    g_hw = s.value("threads", 4u);
    lm::init();
    log::set_severity(1000);
    auto* as = lm::assets();
    as->load_asset("mat0", "material::diffuse", { {"Kd", Vec3(1)} });
    as->load_asset("mat1", "material::mirror", {});
    as->load_asset("pt", "light::point", { {"Le", Vec3(1)}, {"position", Vec3(0)} });
    as->load_asset("env0", "light::envconst", { {"Le", Vec3(1)} });
    as->load_asset("env1", "light::envconst", { {"Le", Vec3(2)} });
    as->load_asset("dir", "light::directional", { {"Le", Vec3(1)}, {"direction", Vec3(0,0,1)} });
    as->load_asset("cam0", "camera::pinhole", { {"position", Vec3(0)}, {"center", Vec3(0,0,-1)}, {"up", Vec3(0,1,0)}, {"vfov", 45.}, {"aspect", 1.} });
    as->load_asset("cam1", "camera::pinhole", { {"position", Vec3(0)}, {"center", Vec3(0,0,1)}, {"up", Vec3(0,1,0)}, {"vfov", 45.}, {"aspect", 1.} });
    as->load_asset("ph", "phase::isotropic", {});
    as->load_asset("med", "medium::homogeneous", { {"phase", "$.assets.ph"}, {"density", 1.}, {"albedo", Vec3(1)}, {"bound_min", Vec3(-1)}, {"bound_max", Vec3(1)} });
    as->load_asset("acc", s.value("accel", std::string("accel::sahbvh")), {});
    for (const auto& m : s.value("models", Json::array())) as->load_asset(m.at("name"), "model::vts", { {"def", m.dump()} });
    as->load_asset("scene", "scene::default", { {"accel", "$.assets.acc"} });
    for (const auto& o : s.at("ops")) {
        Json e = o;
        const std::string op = o.at("op");
        int ret = -2;
        std::string out = "ok";
        const auto prop = [&] {
            lm::Json p;
            for (const char* k : { "mesh", "material", "light", "camera", "medium" }) if (!o.at(k).get<std::string>().empty()) p[k] = loc_of(o, k);
            return p;
        };
        if (op == "Mesh") out = vt::attempt([&] { as = lm::assets(); as->load_asset(o.at("name"), "mesh::raw", mesh_prop(o.at("tris"))); });
        else if (op == "Prim") out = vt::attempt([&] { ret = sc()->create_primitive_node(prop()); });
        else if (op == "Group") out = vt::attempt([&] { ret = sc()->create_group_node(toM(o.at("M"))); });
        else if (op == "Inst") out = vt::attempt([&] { ret = sc()->create_instance_group_node(); });
        else if (op == "Child") out = vt::attempt([&] { sc()->add_child(o.at("p"), o.at("c")); });
        else if (op == "Model") out = vt::attempt([&] { sc()->add_child_from_model(o.at("p"), o.at("loc").get<std::string>().empty() ? "$.assets.nothing" : loc_of(o, "loc")); });
        else if (op == "FromModel") out = vt::attempt([&] { ret = sc()->create_group_from_model(o.at("loc").get<std::string>().empty() ? "$.assets.nothing" : loc_of(o, "loc")); });
        else if (op == "AddT") out = vt::attempt([&] {
            lm::Json p = prop();
            if (!o.at("loc").get<std::string>().empty()) p["model"] = loc_of(o, "loc");
            sc()->add_transformed_primitive(toM(o.at("M")), p);
        });
        else if (op == "Reset") out = vt::attempt([&] { sc()->reset(); });
        else if (op == "Build") { g_hw = o.value("threads", g_hw); out = vt::attempt([&] { sc()->build(); }); }
        else if (op == "SaveLoad") out = vt::attempt([&] { lm::save_state_to_file("st"); lm::reset(); lm::load_state_from_file("st"); });
        else if (op == "Rays") {
            Json qs = Json::array();
            for (const auto& q : o.at("q")) {
                Json r = q;
                const Ray ray{ vec(q.at("o")), vec(q.at("d")) };
                const double t0 = q.at("t0").get<double>() / 8, t1 = q.at("t1").get<std::string>() == "inf" ? Inf : q.at("t1n").get<double>() / 8;
                bool bad = false;
                Json a{ {"hit", false} };
                if (const auto h = sc()->accel()->intersect(ray, t0, t1)) {
                    bool ex = true;
                    const auto M = fromM(h->global_transform.M, ex);
                    a = { {"hit", true}, {"i", h->primitive}, {"face", h->face}, {"M", M}, {"t", fx(h->t, bad)}, {"u", fx(h->uv.x, bad)}, {"v", fx(h->uv.y, bad)}, {"bad", bad || !ex} };
                }
                r["a"] = a;
                Json b{ {"hit", false} };
                bad = false;
                if (const auto h = sc()->intersect(ray, t0, t1)) {
                    const std::string kind = h->is_type(SceneInteraction::LightEndpoint) ? "light" : h->is_type(SceneInteraction::SurfaceInteraction) ? "surface" : "other";
                    if (h->geom.infinite) b = { {"hit", true}, {"inf", true}, {"i", h->primitive}, {"kind", kind}, {"wo", Json::array({ int(h->geom.wo.x), int(h->geom.wo.y), int(h->geom.wo.z) })} };
                    else {
                        b = { {"hit", true}, {"inf", false}, {"i", h->primitive}, {"kind", kind}, {"deg", h->geom.degenerated}, {"p", fxv(h->geom.p, bad)}, {"gn", fxv(h->geom.gn, bad)}, {"n", fxv(h->geom.n, bad)},
                            {"tex", Json::array({ fx(h->geom.t.x, bad), fx(h->geom.t.y, bad) })} };
                        b["bad"] = bad;
                    }
                }
                r["s"] = b;
                qs.push_back(r);
            }
            e["q"] = qs;
        }
        else if (op == "Vis") {
            Json qs = Json::array();
            for (const auto& q : o.at("q")) {
                Json r = q;
                const Vec3 a = vec(q.at("o")), d = vec(q.at("d"));
                const auto sp1 = SceneInteraction::make_surface_interaction(0, PointGeometry::make_degenerated(a));
                const auto sp2 = q.at("far").get<bool>() ? SceneInteraction::make_light_endpoint(0, PointGeometry::make_infinite(-d))
                    : SceneInteraction::make_surface_interaction(0, PointGeometry::make_degenerated(a + d));
                r["vis"] = sc()->visible(sp1, sp2);
                r["rev"] = sc()->visible(sp2, sp1);
                qs.push_back(r);
            }
            e["q"] = qs;
        }
        else if (op == "Box") {
            Json qs = Json::array();
            for (const auto& q : o.at("q")) {
                Json r = q;
                Bound b;
                b.min = vec(q.at("b").at("lo")); b.max = vec(q.at("b").at("hi"));
                double t0 = q.at("t0").get<double>() / 8, t1 = q.at("t1n").get<double>() / 8;
                bool bad = false, h;
                { exception::ScopedDisableFPEx g_; h = b.isect_range(Ray{ vec(q.at("o")), vec(q.at("d")) }, t0, t1); }
                r["hit"] = h;
                r["a"] = h ? fx(t0, bad) : 0; r["z"] = h ? fx(t1, bad) : 0; r["bad"] = bad;
                qs.push_back(r);
            }
            e["q"] = qs;
        }
        else if (op == "Tiles") {
            const int n = o.at("n");
            const double base = o.at("base").get<double>();
            lm::Json p{ {"ps", lm::Json::array()}, {"ns", {0,0,1}}, {"ts", {0,0}}, {"fs", {{"p", lm::Json::array()}, {"t", lm::Json::array()}, {"n", lm::Json::array()}}} };
            double x = o.value("x0", 1.0);
            const double sg = o.value("mirror", false) ? -1 : 1;
            std::vector<Vec3> mid;
            for (int k = 0; k < n; k++) {
                const double w = x * (base - 1) * .5;
                const Vec3 a(sg * x, -w, 0), b(sg * (x + w), -w, 0), c(sg * x, w, 0);
                for (auto v : { a, b, c }) for (int i = 0; i < 3; i++) p["ps"].push_back(v[i]);
                for (int i = 0; i < 3; i++) { p["fs"]["p"].push_back(3 * k + i); p["fs"]["t"].push_back(0); p["fs"]["n"].push_back(0); }
                mid.push_back((a + b + c) / 3.0);
                x *= base;
            }
            Json hits = Json::array();
            out = vt::attempt([&] {
                lm::assets()->load_asset("tiles", "mesh::raw", p);
                sc()->reset();
                sc()->add_primitive({ {"mesh", "$.assets.tiles"}, {"material", "$.assets.mat0"} });
                sc()->build();
                for (auto m : mid) {
                    const auto h = sc()->accel()->intersect(Ray{ m + Vec3(0, 0, 1), Vec3(0, 0, -1) }, 0, Inf);
                    hits.push_back(h ? h->face : -1);
                }
            });
            e["hits"] = hits;
        }
        e["out"] = out;
        e["ret"] = ret;
        if (op != "Rays" && op != "Vis" && op != "Box" && op != "Tiles") e["obs"] = obs();
        vt::emit(e);
    }
}
vt::Reg r("scene", run);
}
