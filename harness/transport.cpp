// Images of small scenes by all renderers; sampled paths and their densities.
#include <pch.h>
#include "vt.h"
#include <lm/path.h>
#include <lm/bidir.h>
#include "scenes.h"

namespace {
// -- an image: mean and standard error over repetitions with different seeds
void op_image(const Json& e) {
    const int w = e["w"], h = e["h"], reps = e["reps"]; const double S = e["scale"];
    std::vector<double> sum(w * h * 3 + 3, 0), sq(w * h * 3 + 3, 0); /* the last three: the whole image */ bool ok = true; long long processed = -1;
    lm::load<Film>("film", "film::bitmap", { {"w", w}, {"h", h} });
    for (int r = 0; r < reps; r++) {
        lm::Json p = lm::Json::parse(e["prop"].dump());
        p["scene"] = "$.assets.scene"; p["output"] = "$.assets.film"; p["seed"] = e["seed"].get<int>() + 7919 * r;
        auto* re = lm::load<Renderer>("renderer", "renderer::" + e["key"].get<std::string>(), p);
        const auto res = re->render();
        processed = res.value("processed", (long long)-1);
        const auto b = comp::get<Film>("$.assets.film")->buffer();
        Vec3 all(0);
        for (int i = 0; i < w * h * 3; i++) { const double x = b.data[i]; ok = ok && std::isfinite(x) && x >= 0; sum[i] += x; sq[i] += x * x; all[i % 3] += x / (w * h); }
        for (int i = 0; i < 3; i++) { sum[w * h * 3 + i] += all[i]; sq[w * h * 3 + i] += all[i] * all[i]; }
    }
    Json m = Json::array(), se = Json::array(); double worst = 0;
    for (int i = 0; i < w * h * 3 + 3; i++) {
        const double a = sum[i] / reps, v = std::max(0., sq[i] / reps - a * a) / std::max(1, reps - 1);
        m.push_back(rnd(a * S)); se.push_back((long long)std::ceil(std::sqrt(v) * S)); if (a > 0) worst = std::max(worst, std::sqrt(v) / a);
    }
    vt::emit({ {"op", "Image"}, {"who", e["who"]}, {"lo", e["lo"]}, {"hi", e["hi"]}, {"m", m}, {"se", se}, {"ok", ok}, {"worst", rnd(worst * 10000)} });
}

// -- paths: subpaths from both ends, joined in all ways; densities, values and weights of each full path
struct Worst {   // the pairs that differ most
    std::map<std::string, std::vector<std::pair<double, Json>>> q;
    void add(const std::string& what, double a, double b) {
        const double m = std::max(std::abs(a), std::abs(b)); Json j; double e;
        if (!std::isfinite(m)) { j = Json::array({ BAD, 0 }); e = 1e9; }
        else { const double s = m > 1e-250 ? 1e6 / m : 0; j = Json::array({ rnd(a * s), rnd(b * s) }); e = m > 1e-250 ? std::abs(a - b) / m : 0; }
        auto& v = q[what]; v.push_back({ e, j }); std::stable_sort(v.begin(), v.end(), [](auto& x, auto& y) { return x.first > y.first; }); if (v.size() > 10) v.resize(10);
    }
    Json of(const std::string& k) { Json a = Json::array(); for (auto& x : q[k]) a.push_back(x.second); return a; }
};
void op_paths(const Json& e) {
    const auto* scene = sc(); Rng rng(e["seed"].get<int>()); const int hi = e["hi"];
    struct Kind { Worst w; long long n = 0; Json samplable; bool ends = true, verts = true; };
    std::map<std::string, Kind> kinds; long long bad = 0;
    for (int it = 0; it < e["n"].get<int>(); it++) {
        const auto E = path::sample_subpath(rng, scene, hi, TransDir::EL), L = path::sample_subpath(rng, scene, hi, TransDir::LE);
        for (int s = 0; s <= L.num_verts(); s++) for (int t = 0; t <= E.num_verts(); t++) {
            const int n = s + t; if (n < 2 || n > hi) continue;
            const auto p = path::connect_subpaths(scene, L, E, s, t); if (!p) continue;
            // what kind of path: for each vertex from the light, specular or not; the endpoints: degenerated, infinite, connectable
            std::string k; Json sig = Json::array();
            for (int i = 0; i < n; i++) {
                const auto* v = p->vertex_at(i, TransDir::LE); const auto& g = v->sp.geom;
                const bool end = i == 0 || i == n - 1;
                const bool spec = path::is_specular_component(scene, v->sp, v->comp);
                const Json x = { {"s", spec}, {"d", g.degenerated}, {"c", end ? path::is_connectable_endpoint(scene, v->sp) : true} };
                sig.push_back(x); k += x.dump();
            }
            auto& K = kinds[k]; K.n++; if (K.n > e.value("per", 400)) continue;
            K.ends = K.ends && p->num_verts() == n && p->num_edges() == n - 1 && p->vs.front().sp.is_type(SceneInteraction::LightEndpoint) && p->vs.back().sp.is_type(SceneInteraction::CameraEndpoint)
                && scene->is_light(p->vs.front().sp) && scene->is_camera(p->vs.back().sp);
            for (int i = 0; i < n; i++) {
                const auto& v = i < s ? L.vs[i] : E.vs[n - 1 - i]; const auto* a = p->vertex_at(i, TransDir::LE); const auto* b = p->vertex_at(n - 1 - i, TransDir::EL);
                K.verts = K.verts && a == b && a == &p->vs[i] && (v.sp.geom.infinite ? a->sp.geom.infinite && a->sp.geom.wo == v.sp.geom.wo : a->sp.geom.p == v.sp.geom.p) && a->sp.primitive == v.sp.primitive && a->comp == v.comp;
            }
            K.verts = K.verts && !p->vertex_at(n, TransDir::LE) && !p->vertex_at(-1, TransDir::EL);
            if (!(p->pdf_bidir(scene, s) > 0)) { if (!math::is_zero(p->eval_sampling_weight_bidir(scene, s))) bad++; continue; }
            double sum = 0, p2 = 0; Vec3 f0(-1); Json can = Json::array(); std::vector<double> ps, ws;
            for (int s2 = 0; s2 <= n; s2++) {
                const double q = p->pdf_bidir(scene, s2); can.push_back(p->is_samplable_bidir(scene, s2)); ps.push_back(q); p2 += q * q; ws.push_back(0);
                if (!(q >= 0) || (q > 0 && !p->is_samplable_bidir(scene, s2))) bad++;
                if (!(q > 0)) continue;
                ws.back() = p->eval_mis_weight(scene, s2); sum += ws.back();
                const auto f = p->eval_measurement_contrb_bidir(scene, s2), C = p->eval_sampling_weight_bidir(scene, s2);
                // densities are taken with the shading normals: the value of a path, per area, is the same for all strategies
                Vec3 g = f;
                for (int i = 0; i < n; i++) {
                    const auto& sp = p->vs[i].sp; if (i == n - 1 || sp.geom.degenerated || sp.geom.infinite || (i == 0 && s2 > 0)) continue;
                    const auto d = i < s2 ? p->direction(&p->vs[i], &p->vs[i - 1]) : p->direction(&p->vs[i], &p->vs[i + 1]);
                    g *= std::abs(glm::dot(sp.geom.gn, d) / glm::dot(sp.geom.n, d));
                }
                for (int c = 0; c < 3; c++) { K.w.add("estimate", C[c] * q, f[c]); if (f0[0] >= 0) K.w.add("value", g[c], f0[c]); }
                if (f0[0] < 0) f0 = g;
            }
            for (int i = 0; i <= n; i++) K.w.add("mis", ws[i], ps[i] > 0 ? ps[i] * ps[i] / p2 : 0);
            K.w.add("one", sum, 1);
            if (K.samplable.is_null()) K.samplable = can; else if (K.samplable != can) bad++;
        }
    }
    for (auto& kv : kinds) { auto& K = kv.second; Json sig = Json::array(); 
        std::string t = kv.first; size_t at = 0; while (at < t.size()) { const size_t end = t.find('}', at) + 1; sig.push_back(Json::parse(t.substr(at, end - at))); at = end; }
        vt::emit({ {"op", "Paths"}, {"n", std::min(K.n, 100000LL)}, {"v", sig}, {"can", K.samplable.is_null() ? Json::array() : K.samplable}, {"ends", K.ends}, {"verts", K.verts}, {"bad", bad},
            {"estimate", K.w.of("estimate")}, {"value", K.w.of("value")}, {"mis", K.w.of("mis")}, {"one", K.w.of("one")} }); }
}

void run(const Json& s) {
    lm::init(); lm::log::set_severity(1000);
    lm::parallel::init("openmp", { {"num_threads", s.value("threads", 1)} });
    const auto r = vt::attempt([&]() { build(s); });
    vt::emit({ {"op", "Scene"}, {"ret", r}, {"law", s["law"]} });
    for (auto& e : s["ops"]) {
        const std::string op = e["op"].get<std::string>();
        const auto res = vt::attempt([&]() { if (op == "Image") op_image(e); else if (op == "Paths") op_paths(e); else throw std::runtime_error("unknown op"); });
        vt::emit({ {"op", "Done"}, {"ret", res} });
    }
}
vt::Reg reg("transport", run);
}
