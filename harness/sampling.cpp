// Measurements of the sampling routines: what is drawn, with which weight, density and value.
#include <pch.h>
#include "vt.h"
#include <lm/path.h>
#include "scenes.h"

namespace {
constexpr double S15 = 20000.;
Json iv(Vec3 v, double s) { return Json::array({ rnd(v.x * s), rnd(v.y * s), rnd(v.z * s) }); }

// Additive recurrence with generalised golden ratios: a well spread sequence in up to 8 dimensions
struct Seq {
    double a[8], x[8];
    Seq(double off) { double g = 1.5; for (int i = 0; i < 60; i++) g = std::pow(1 + g, 1. / 9); double p = 1; for (int i = 0; i < 8; i++) { p /= g; a[i] = p; x[i] = std::fmod(off + .5 * (i + 1) / 9, 1.); } }
    void next() { for (int i = 0; i < 8; i++) { x[i] += a[i]; if (x[i] >= 1) x[i] -= 1; } }
    Vec2 v(int i) const { return Vec2(x[i], x[i + 1]); }
};

struct Frame {
    Vec3 a, b, c;   // c: axis
    Frame(Vec3 n) { c = glm::normalize(n); const Vec3 t = std::abs(c.x) < .7 ? Vec3(1, 0, 0) : Vec3(0, 1, 0); a = glm::normalize(glm::cross(t, c)); b = glm::cross(c, a); }
    Vec3 dir(double z, double phi) const { const double r = std::sqrt(std::max(0., 1 - z * z)); return a * (r * std::cos(phi)) + b * (r * std::sin(phi)) + c * z; }
};
constexpr int NB = 8;
constexpr double TPi = 6.283185307179586;
// Bins of directions: 8 slices of the cap [z0,1] around the axis, 8 sectors
struct Bins {
    Frame f; double z0;
    Bins(Vec3 axis, double z0) : f(axis), z0(z0) {}
    int operator()(Vec3 d) const {
        const double z = glm::dot(d, f.c);
        double phi = std::atan2(glm::dot(d, f.b), glm::dot(d, f.a)); if (phi < 0) phi += TPi;
        int i = int(std::floor((z - z0) / (1 - z0) * NB)); if (i >= NB && z < 1 + 1e-9) i = NB - 1;
        if (i < 0 && z > -1 - 1e-9 && z0 == -1) i = 0;
        if (i < 0 || i >= NB) return -1;
        return i * NB + std::min(NB - 1, int(phi / TPi * NB));
    }
    // sum over the nodes of a bin of g(direction) times the solid angle of the node
    template <typename G> void integrate(int M, G&& g) const {
        const double dp = TPi / (NB * M);
        for (int i = 0; i < NB; i++) {
            // evenly spaced in the angle from the axis: densities may peak at it
            const double t1 = std::acos(std::max(-1., z0 + (1 - z0) * i / NB)), t0 = std::acos(std::min(1., z0 + (1 - z0) * (i + 1) / NB)), dt = (t1 - t0) / M;
            for (int k = 0; k < M; k++) { const double t = t0 + (k + .5) * dt, dw = (std::cos(t - dt / 2) - std::cos(t + dt / 2)) * dp;
                for (int j = 0; j < NB; j++) for (int l = 0; l < M; l++) g(i * NB + j, f.dir(std::cos(t), (j * M + l + .5) * dp), dw); }
        }
    }
};

// [weight, density, value] as integers: weight * density and value are in the same unit
Json triple(double w, double p, double f) {
    if (!std::isfinite(w) || !std::isfinite(p) || !std::isfinite(f)) return Json::array({ BAD, BAD, BAD });
    const double sp = p != 0 ? S15 / std::abs(p) : 1;
    const double m = std::max(std::abs(w), p != 0 ? std::abs(f / p) : std::abs(f));
    const double sw = m != 0 ? S15 / m : 1;
    return Json::array({ rnd(w * sw), rnd(p * sp), rnd(f * sw * sp) });
}
double mismatch(double w, double p, double f) { const double m = std::max(std::abs(w * p), std::abs(f)); if (!std::isfinite(m)) return 1e9; return p <= 0 ? 1e8 : m == 0 ? 0 : std::abs(w * p - f) / m; }
// keeps the samples that fit least, and some of the others
struct Triples {
    std::vector<std::pair<double, Json>> q; int n = 0;
    void add(double w, double p, double f) {
        const double m = mismatch(w, p, f); n++;
        if (q.size() < 8 || m > q.back().first || n % 1009 == 0) { q.push_back({ m, triple(w, p, f) }); std::stable_sort(q.begin(), q.end(), [](auto& a, auto& b) { return a.first > b.first; }); if (q.size() > 24) q.resize(24); }
    }
    void add(Vec3 w, double p, Vec3 f) { for (int c = 0; c < 3; c++) add(w[c], p, f[c]); }
    Json out() const { Json a = Json::array(); for (auto& x : q) a.push_back(x.second); return a; }
};
// Pairs of numbers that ought to be equal
struct Pairs {
    std::map<std::string, std::vector<std::pair<double, Json>>> q;
    void add(const std::string& what, double a, double b) {
        double m = std::max(std::abs(a), std::abs(b));
        Json j; double e;
        if (!std::isfinite(m)) { j = Json::array({ BAD, 0 }); e = 1e9; }
        else { const double s = m > 1e-12 ? 1e6 / m : 1; j = Json::array({ rnd(a * s), rnd(b * s) }); e = m > 1e-12 ? std::abs(a - b) / m : 0; }
        auto& v = q[what]; v.push_back({ e, j }); std::stable_sort(v.begin(), v.end(), [](auto& x, auto& y) { return x.first > y.first; }); if (v.size() > 12) v.resize(12);
    }
    void emit(const Json& base) { for (auto& kv : q) { Json a = Json::array(); for (auto& x : kv.second) a.push_back(x.second); Json e = base; e["op"] = "Equal"; e["what"] = kv.first; e["q"] = a; vt::emit(e); } }
};

struct Hist {
    int n; std::vector<long long> c; std::vector<Vec3> W; long long rej = 0, off = 0, drawn = 0;
    std::vector<double> I; std::vector<Vec3> F;
    Hist(int n) : n(n), c(n, 0), W(n, Vec3(0)), I(n, 0), F(n, Vec3(0)) {}
    void reject() { drawn++; rej++; }
    void hit(int b, Vec3 w) { drawn++; if (b < 0) { off++; return; } c[b]++; W[b] += w; }
    void emit_draw(const Triples& t) { vt::emit({ {"op", "Draw"}, {"n", drawn}, {"c", c}, {"rej", rej}, {"off", off}, {"q", t.out()} }); }
    void emit_close(bool mean = true) {
        double s = 0; for (auto& f : F) s += std::max({ f.x, f.y, f.z });
        if (!(s > 0)) s = 1;
        Json p = Json::array(), w = Json::array(), f = Json::array();
        for (int i = 0; i < n; i++) { p.push_back(rnd(I[i] * 1e5)); w.push_back(iv(W[i] / double(drawn), 1e5 / s)); f.push_back(iv(F[i], 1e5 / s)); }
        vt::emit({ {"op", "Close"}, {"p", p}, {"w", w}, {"f", f}, {"mean", mean} });
    }
};

int prim(const Json& e, const char* k = "prim") { return prims.at(e.at(k).get<std::string>()); }

PointGeometry geom_of(const Json& g) {
    if (g.contains("n")) {
        const Vec3 n = glm::normalize(v3(g["n"]));
        const Vec3 gn = g.contains("gn") ? glm::normalize(v3(g["gn"])) : n;
        const Vec2 t = g.contains("t") ? Vec2(g["t"][0].get<double>(), g["t"][1].get<double>()) : Vec2(.5);
        return PointGeometry::make_on_surface(v3(g["p"]), n, gn, t);
    }
    return PointGeometry::make_degenerated(v3(g["p"]));
}
SceneInteraction sp_of(const Json& e) {
    const std::string k = e.at("at").get<std::string>();
    const auto g = geom_of(e.at("geom"));
    if (k == "surface") return SceneInteraction::make_surface_interaction(prim(e), g);
    if (k == "medium") return SceneInteraction::make_medium_interaction(prim(e), g);
    if (k == "light") return SceneInteraction::make_light_endpoint(prim(e), g);
    return SceneInteraction::make_camera_endpoint(prim(e), g);
}
TransDir dir_of(const Json& e) { return e.value("dir", std::string("EL")) == "EL" ? TransDir::EL : TransDir::LE; }

// A texture of one color and one opacity
class AlphaTexture final : public Texture {
    Vec3 c_; Float a_;
public:
    void construct(const lm::Json& p) override { c_ = lm::json::value<Vec3>(p, "color"); a_ = lm::json::value<Float>(p, "alpha"); }
    TextureSize size() const override { return { 1, 1 }; }
    Vec3 eval(Vec2) const override { return c_; }
    Vec3 eval_by_pixel_coords(int, int) const override { return c_; }
    Float eval_alpha(Vec2) const override { return a_; }
    bool has_alpha() const override { return true; }
};
LM_COMP_REG_IMPL(AlphaTexture, "texture::vtalpha");

// The geometry term, independent of the code under test
double geo(const PointGeometry& a, const PointGeometry& b) {
    if (a.infinite && b.infinite) return 0;
    const Vec3 d = a.infinite ? a.wo : b.infinite ? -b.wo : b.p - a.p;
    const double l = std::sqrt(d.x * d.x + d.y * d.y + d.z * d.z);
    const auto cosine = [&](const PointGeometry& g) { return g.degenerated || g.infinite ? 1. : std::abs(g.n.x * d.x + g.n.y * d.y + g.n.z * d.z) / l; };
    return cosine(a) * cosine(b) / (a.infinite || b.infinite ? 1. : l * l);
}

// -- directions at a point
void op_dir(const Json& e) {
    const auto sp = sp_of(e); const auto scene = sc();
    const Vec3 wi = glm::normalize(v3(e.at("wi"))); const int comp = e.value("comp", 0); const auto td = dir_of(e);
    const int N = e.value("n", 50000), M = e.value("m", 24);
    const Bins bins(e.contains("axis") ? v3(e["axis"]) : sp.geom.degenerated ? Vec3(0, 0, 1) : sp.geom.n, e.value("z0", -1.));
    const bool spec = path::is_specular_component(scene, sp, comp);
    vt::emit({ {"op", "Measure"}, {"kind", "direction"}, {"specular", spec}, {"bins", NB * NB} });
    Hist h(NB * NB); Triples t; Seq q(e.value("off", .1));
    double len = 0; bool delta0 = true;
    for (int i = 0; i < N; i++) {
        q.next();
        const auto s = path::sample_direction(path::DirectionSampleU{ q.v(0), q.v(2) }, scene, sp, wi, comp, td);
        if (!s) { h.reject(); continue; }
        len = std::max(len, std::abs(glm::length(s->wo) - 1));
        h.hit(spec ? 0 : bins(s->wo), s->weight);
        const auto p = path::pdf_direction(scene, sp, wi, s->wo, comp, false);
        const auto f = path::eval_contrb_direction(scene, sp, wi, s->wo, comp, td, false);
        t.add(s->weight, p, f);
        if (spec) delta0 = delta0 && path::pdf_direction(scene, sp, wi, s->wo, comp, true) == 0 && path::eval_contrb_direction(scene, sp, wi, s->wo, comp, td, true) == Vec3(0);
        else if (i % 64 == 0) delta0 = delta0 && path::pdf_direction(scene, sp, wi, s->wo, comp, true) == p;
    }
    h.emit_draw(t);
    vt::emit({ {"op", "Unit"}, {"err", rnd(len * 1e6)}, {"delta", delta0} });
    if (spec) { vt::emit({ {"op", "CloseSpecular"} }); return; }
    double pmin = 0, fmin = 0, uncovered = 0;
    bins.integrate(M, [&](int b, Vec3 wo, double dw) {
        const double J = sp.geom.degenerated ? 1. : std::abs(glm::dot(sp.geom.n, wo));
        const auto p = path::pdf_direction(scene, sp, wi, wo, comp, false);
        const auto f = path::eval_contrb_direction(scene, sp, wi, wo, comp, td, false);
        pmin = std::min(pmin, std::isfinite(p) ? p : -1.); fmin = std::min({ fmin, f.x, f.y, f.z });
        if (p == 0 && (f.x > 0 || f.y > 0 || f.z > 0)) uncovered++;
        h.I[b] += p * J * dw; h.F[b] += f * J * dw;
    });
    vt::emit({ {"op", "Support"}, {"uncovered", uncovered}, {"negative", pmin < 0 || fmin < 0} });
    h.emit_close();
}

// -- cells of the area lights: triangle quarters, with their areas
struct Cell { Vec3 a, b, c; double area; int light; Vec3 n; };
std::vector<Cell> cells(const Scene* scene) {
    std::vector<Cell> r;
    for (int k = 0; k < scene->num_lights(); k++) {
        const auto li = scene->light_primitive_index_at(k);
        const auto* m = scene->node_at(li.index).primitive.mesh;
        if (!m) continue;
        const auto M = li.global_transform.M;
        m->foreach_triangle([&](int, const Mesh::Tri& t) {
            const auto P = [&](Vec3 p) { return Vec3(M * Vec4(p, 1)); };
            const Vec3 A = P(t.p1.p), B = P(t.p2.p), C = P(t.p3.p), ab = (A + B) * .5, bc = (B + C) * .5, ca = (C + A) * .5;
            // the light shines to the side the transformed local normal points to
            const Vec3 nl = glm::cross(t.p2.p - t.p1.p, t.p3.p - t.p1.p);
            const Vec3 nw = glm::normalize(glm::transpose(glm::inverse(Mat3(M))) * nl);
            const Vec3 T[4][3] = { { A, ab, ca }, { ab, B, bc }, { ca, bc, C }, { ab, bc, ca } };
            for (auto& x : T) r.push_back({ x[0], x[1], x[2], .5 * glm::length(glm::cross(x[1] - x[0], x[2] - x[0])), li.index, nw });
        });
    }
    return r;
}
int cell_of(const std::vector<Cell>& cs, int light, Vec3 p) {
    int best = -1; double be = 1e-6;
    for (int i = 0; i < (int)cs.size(); i++) {
        const auto& x = cs[i]; if (x.light != light) continue;
        const auto ar = [&](Vec3 a, Vec3 b) { return .5 * glm::length(glm::cross(a - p, b - p)); };
        const double e = (ar(x.a, x.b) + ar(x.b, x.c) + ar(x.c, x.a)) / x.area - 1;
        if (e < be) { be = e; best = i; }
    }
    return best;
}
int nmesh(const Scene* s) { int n = 0; for (int k = 0; k < s->num_lights(); k++) n += s->node_at(s->light_primitive_index_at(k).index).primitive.mesh != nullptr; return n; }

// -- points on the endpoints
void op_pos(const Json& e) {
    const auto scene = sc(); const auto td = dir_of(e); const int N = e.value("n", 50000);
    const auto cs = td == TransDir::LE ? cells(scene) : std::vector<Cell>{};
    vt::emit({ {"op", "Measure"}, {"kind", "position"}, {"specular", false}, {"bins", cs.size() + 1} });
    Hist h(int(cs.size()) + 1); Triples t; Seq q(.2); Pairs pr;
    for (int i = 0; i < N; i++) {
        q.next();
        const auto s = path::sample_position(path::PositionSampleU{ q.v(0), q.v(2) }, scene, td);
        if (!s) { h.reject(); continue; }
        const double p = path::pdf_position(scene, s->sp);
        t.add(s->weight, p, Vec3(1));
        const auto* L = scene->node_at(s->sp.primitive).primitive.light;
        const bool on = td == TransDir::LE && scene->node_at(s->sp.primitive).primitive.mesh;
        (void)L;
        const int b = on ? cell_of(cs, s->sp.primitive, s->sp.geom.p) : int(cs.size());
        h.hit(b, on ? s->weight : Vec3(0));
        if (on && b >= 0) { pr.add("normal", glm::dot(s->sp.geom.n, cs[b].n), 1); h.I[b] = p * cs[b].area; h.F[b] = Vec3(cs[b].area); }
    }
    double rest = 1; for (auto x : h.I) rest -= x; h.I[cs.size()] = rest < 1e-9 ? 0 : rest;
    h.emit_draw(t);
    if (nmesh(scene) == (td == TransDir::LE ? scene->num_lights() : 0)) h.I[cs.size()] = td == TransDir::LE ? 0 : 1;
    h.emit_close();
    pr.emit({});
}

// -- rays leaving the endpoints
void op_primary(const Json& e) {
    const auto scene = sc(); const auto td = dir_of(e); const int N = e.value("n", 50000), M = e.value("m", 24);
    const bool el = td == TransDir::EL; const std::string form = e.at("form").get<std::string>();  // camera, surface, point, infinite, delta
    const Bins bins(e.contains("axis") ? v3(e["axis"]) : Vec3(0, 0, 1), e.value("z0", -1.));
    vt::emit({ {"op", "Measure"}, {"kind", "ray"}, {"specular", form == "delta"}, {"bins", NB * NB} });
    Hist h(NB * NB); Triples t; Seq q(.3); Pairs pr; double len = 0;
    double rmax = 0; Vec3 ctr(0); long long inner = 0; std::vector<double> offs;
    const auto bmin = e.contains("bmin") ? v3(e["bmin"]) : Vec3(-1), bmax = e.contains("bmax") ? v3(e["bmax"]) : Vec3(1);
    ctr = (bmin + bmax) * .5;
    SceneInteraction one; bool any = false;
    for (int i = 0; i < N; i++) {
        q.next();
        const auto s = path::sample_primary_ray(path::RaySampleU{ q.v(0), q.v(2), q.v(4), q.v(6) }, scene, td);
        if (!s) { h.reject(); continue; }
        one = s->sp; any = true;
        len = std::max(len, std::abs(glm::length(s->wo) - 1));
        h.hit(form == "delta" ? 0 : bins(s->wo), s->weight);
        const auto p = path::pdf_primary_ray(scene, s->sp, s->wo, false);
        const auto f = path::eval_contrb_direction(scene, s->sp, {}, s->wo, 0, td, false);
        t.add(s->weight, p, f);
        if (form != "infinite" && form != "delta" && i % 16 == 0)
            pr.add("joint", p, path::pdf_position(scene, s->sp) * path::pdf_direction(scene, s->sp, {}, s->wo, 0, false));
        if (form == "infinite" || form == "delta") {
            const Vec3 o = s->sp.geom.p - ctr; const Vec3 perp = o - s->wo * glm::dot(o, s->wo);
            offs.push_back(glm::length(perp)); rmax = std::max(rmax, glm::length(perp));
            pr.add("sampled direction", glm::dot(s->wo, s->sp.geom.wo), 1);
            pr.add("starts outside", glm::dot(o, s->wo) <= -glm::length(bmax - ctr) + 1e-6 ? 1 : 0, 1);
        }
        if (form == "delta") { pr.add("delta density", path::pdf_primary_ray(scene, s->sp, s->wo, true), 0); pr.add("delta value", path::eval_contrb_direction(scene, s->sp, {}, s->wo, 0, td, true).x, 0); }
    }
    h.emit_draw(t);
    vt::emit({ {"op", "Unit"}, {"err", rnd(len * 1e6)}, {"delta", true} });
    if (form == "infinite" || form == "delta") {
        for (double o : offs) inner += o * o * 2 <= rmax * rmax;
        // the disk rays start from covers the scene and is covered evenly
        vt::emit({ {"op", "Disk"}, {"inner", inner}, {"n", (long long)offs.size()}, {"covers", rmax >= glm::length(bmax - ctr) * .999} });
    }
    pr.emit({});
    if (form == "delta") { vt::emit({ {"op", "CloseSpecular"} }); if (any) { Pairs p2; p2.add("disk density", path::pdf_primary_ray(scene, one, one.geom.wo, false) * 3.14159265358979 * rmax * rmax * e.value("ninv", 1.), 1.); p2.emit({ {"tol", 3000} }); } return; }
    double area = 1; int K = 1; std::vector<Cell> cs;
    if (form == "surface") cs = cells(scene);
    double uncovered = 0;
    bins.integrate(M, [&](int b, Vec3 wo, double dw) {
        // average over the endpoint positions
        const auto one_sp = [&](const SceneInteraction& sp, double A) {
            const double J = sp.geom.degenerated || sp.geom.infinite ? 1. : std::abs(glm::dot(sp.geom.n, wo));
            const auto p = path::pdf_primary_ray(scene, sp, wo, false); const auto f = path::eval_contrb_direction(scene, sp, {}, wo, 0, td, false);
            if (p == 0 && (f.x > 0 || f.y > 0 || f.z > 0)) uncovered++;
            h.I[b] += p * J * A * dw; h.F[b] += f * J * A * dw;
        };
        if (form == "surface") { for (auto& c : cs) one_sp(SceneInteraction::make_light_endpoint(c.light, PointGeometry::make_on_surface((c.a + c.b + c.c) / 3., c.n)), c.area); }
        else if (form == "infinite") { one_sp(SceneInteraction::make_light_endpoint(one.primitive, PointGeometry::make_infinite(wo, ctr)), 3.14159265358979 * rmax * rmax); }
        else one_sp(one, 1);
    });
    vt::emit({ {"op", "Support"}, {"uncovered", uncovered}, {"negative", false} });
    h.emit_close();
}

// -- endpoints sampled for a point of the scene
void op_direct(const Json& e) {
    const auto scene = sc(); const auto td = dir_of(e); const int N = e.value("n", 50000), M = e.value("m", 24);
    const auto sp = sp_of(e); const std::string form = e.at("form").get<std::string>();
    const Bins bins(e.contains("axis") ? v3(e["axis"]) : Vec3(0, 1, 0), -1.);
    const auto cs = form == "surface" ? cells(scene) : std::vector<Cell>{};
    const int nb = form == "surface" ? int(cs.size()) : form == "infinite" ? NB * NB : 1;
    vt::emit({ {"op", "Measure"}, {"kind", "direct"}, {"specular", form == "delta"}, {"bins", nb} });
    Hist h(nb); Triples t; Seq q(.4); Pairs pr; double len = 0;
    for (int i = 0; i < N; i++) {
        q.next();
        const auto s = path::sample_direct(path::RaySampleU{ q.v(0), q.v(2), q.v(4), q.v(6) }, scene, sp, td);
        if (!s) { h.reject(); continue; }
        len = std::max(len, std::abs(glm::length(s->wo) - 1));
        const auto p = path::pdf_direct(scene, sp, s->sp, s->wo, false);
        const auto f = path::eval_contrb_direction(scene, s->sp, {}, s->wo, 0, td, false);
        t.add(s->weight, p, f);
        if (form == "delta") { h.hit(0, s->weight); pr.add("delta density", path::pdf_direct(scene, sp, s->sp, s->wo, true), 0); continue; }
        if (form == "infinite") h.hit(bins(-s->wo), s->weight);
        else {
            // towards the point
            pr.add("direction", glm::dot(s->wo, glm::normalize(sp.geom.p - s->sp.geom.p)), 1);
            const double G = geo(sp.geom, s->sp.geom);
            if (i % 16 == 0) pr.add("density", p * G, path::pdf_position(scene, s->sp));
            h.hit(form == "surface" ? cell_of(cs, s->sp.primitive, s->sp.geom.p) : 0, G > 0 ? s->weight / G : Vec3(0));
        }
        // what a ray in that direction finds is the same endpoint
        if (e.value("trace", false) && i % 16 == 0) {
            const auto hit = scene->intersect({ sp.geom.p, -s->wo }, 1e-6, Inf);
            const double dist = form == "infinite" ? 0 : glm::length(s->sp.geom.p - sp.geom.p);
            if (!hit) pr.add("found", 0, 1);
            else if (form == "infinite" ? hit->geom.infinite : glm::length(hit->geom.p - s->sp.geom.p) < 1e-6 * (1 + dist)) {
                const auto hl = hit->as_type(SceneInteraction::LightEndpoint);
                pr.add("found primitive", hl.primitive, s->sp.primitive);
                pr.add("found density", path::pdf_direct(scene, sp, hl, s->wo, true), p);
                pr.add("found value", path::eval_contrb_direction(scene, hl, {}, s->wo, 0, td, true).x, f.x);
            }
        }
    }
    h.emit_draw(t);
    vt::emit({ {"op", "Unit"}, {"err", rnd(len * 1e6)}, {"delta", true} });
    pr.emit({});
    if (form == "delta") { vt::emit({ {"op", "CloseSpecular"} }); return; }
    if (form == "infinite") {
        double neg = 0, unc = 0;
        int light = -1; for (int k = 0; k < scene->num_lights(); k++) light = scene->light_primitive_index_at(k).index;
        bins.integrate(M, [&](int b, Vec3 d, double dw) {
            const auto spL = SceneInteraction::make_light_endpoint(light, PointGeometry::make_infinite(-d));
            const double J = sp.geom.degenerated ? 1. : std::abs(glm::dot(sp.geom.n, d));
            const auto p = path::pdf_direct(scene, sp, spL, -d, false); const auto f = path::eval_contrb_direction(scene, spL, {}, -d, 0, td, false);
            if (p < 0) neg++; if (p == 0 && (f.x > 0 || f.y > 0 || f.z > 0)) unc++;
            h.I[b] += p * J * dw; h.F[b] += f * J * dw;
        });
        vt::emit({ {"op", "Support"}, {"uncovered", unc}, {"negative", neg > 0} });
        h.emit_close();
    }
    else {
        // each cell that faces the point contributes its radiance times its area; densities of positions are judged by Pos
        for (int b = 0; b < nb; b++) {
            if (form == "surface") {
                const Vec3 m = (cs[b].a + cs[b].b + cs[b].c) / 3.; const Vec3 wo = glm::normalize(sp.geom.p - m);
                const auto spL = SceneInteraction::make_light_endpoint(cs[b].light, PointGeometry::make_on_surface(m, cs[b].n));
                h.F[b] = glm::dot(wo, cs[b].n) > 0 ? path::eval_contrb_direction(scene, spL, {}, wo, 0, td, false) * cs[b].area : Vec3(0);
            }
            else { const auto o = v3(e["origin"]); const auto wo = glm::normalize(sp.geom.p - o); h.F[b] = v3(e["value"]); (void)wo; }
            h.I[b] = double(h.c[b]) / h.drawn;
        }
        h.emit_close();
    }
}

// -- the camera as seen from a point
void op_directcam(const Json& e) {
    const auto scene = sc(); const auto sp = sp_of(e); Triples t;
    const auto s = path::sample_direct(path::RaySampleU{ Vec2(.1), Vec2(.2), Vec2(.3), Vec2(.4) }, scene, sp, TransDir::EL);
    const auto p0 = path::primary_ray(scene, Vec2(.5)).o;
    const auto spE = SceneInteraction::make_camera_endpoint(scene->camera_node(), PointGeometry::make_degenerated(p0));
    const auto f0 = path::eval_contrb_direction(scene, spE, {}, glm::normalize(sp.geom.p - p0), 0, TransDir::EL, false);
    if (s) {
        const auto f = path::eval_contrb_direction(scene, s->sp, {}, s->wo, 0, TransDir::EL, false);
        t.add(s->weight, path::pdf_direct(scene, sp, s->sp, s->wo, false), f);
        Pairs pr; pr.add("direction", glm::dot(s->wo, glm::normalize(sp.geom.p - p0)), 1); pr.emit({});
    }
    vt::emit({ {"op", "DirectCam"}, {"some", bool(s)}, {"seen", f0.x > 0}, {"q", t.out()} });
}

// -- conversions between measures
void op_measures(const Json& e) {
    Seq q(e.value("off", .2)); Pairs pr;
    for (int i = 0; i < 300; i++) {
        q.next();
        const auto point = [&](int k, int kind) {
            const Vec3 p(4 * q.x[k] - 2, 4 * q.x[k + 1] - 2, 4 * q.x[k + 2] - 2); const double z = 2 * q.x[k + 3] - 1, ph = TPi * q.x[(k + 5) % 8];
            const Vec3 n(std::sqrt(1 - z * z) * std::cos(ph), std::sqrt(1 - z * z) * std::sin(ph), z);
            return kind == 0 ? PointGeometry::make_on_surface(p, n, glm::normalize(n + Vec3(.1, .2, 0))) : kind == 1 ? PointGeometry::make_degenerated(p) : kind == 2 ? PointGeometry::make_infinite(n) : PointGeometry::make_infinite(n, p);
        };
        const auto a = point(0, i % 4), b = point(4, (i / 4) % 4);
        const double G = geo(a, b);
        const char* k = a.infinite || b.infinite ? "infinite" : "finite";
        pr.add(std::string("geometry term ") + k, surface::geometry_term(a, b), G); pr.add(std::string("geometry term back ") + k, surface::geometry_term(b, a), G);
        pr.add("density", surface::convert_pdf_to_area(q.x[7] * 3, a, b), q.x[7] * 3 * G);
        if (!a.infinite && !b.infinite) pr.add("distance", surface::distance(a, b), glm::length(a.p - b.p));
        else pr.add("distance at infinity", surface::distance(a, b) >= Inf, 1);
        if (!a.infinite) { const Vec3 d = glm::normalize(Vec3(q.x[0] - .5, q.x[3] - .5, q.x[6] - .5)); pr.add("projected", surface::convert_pdf_SA_to_projSA(q.x[5], a, d) * (a.degenerated ? 1 : std::abs(glm::dot(a.n, d))), q.x[5]); }
        if (!a.infinite && !a.degenerated) {
            // the frame at a surface
            pr.add("frame", glm::determinant(a.to_world), 1); pr.add("frame normal", glm::dot(a.to_world * Vec3(0, 0, 1), a.n), 1); pr.add("frame inverse", glm::length(a.to_local * (a.to_world * Vec3(.6, 0, .8)) - Vec3(.6, 0, .8)) < 1e-9, 1);
            const Vec3 w = glm::normalize(Vec3(q.x[1] - .5, q.x[2] - .5, q.x[4] - .5)); const auto [n, u, v] = a.orthonormal_basis_twosided(w);
            pr.add("two-sided", glm::dot(n, w) >= 0 && std::abs(glm::dot(n, u)) < 1e-9 && std::abs(glm::dot(n, v)) < 1e-9 && std::abs(glm::dot(u, v)) < 1e-9 && std::abs(glm::length(u) - 1) < 1e-9 && std::abs(glm::length(v) - 1) < 1e-9, 1);
        }
    }
    pr.emit({});
}

// -- choices between lights and between components
void op_select(const Json& e) {
    const auto scene = sc(); const int K = e.at("k").get<int>(); const int n = scene->num_lights();
    std::vector<long long> c(n, 0); bool in = true, same = true;
    for (int j = 0; j < K; j++) {
        const double u = j + 1 == K ? std::nextafter(1., 0.) : j == 0 ? 0. : (j + .5) / K;
        const auto s = scene->sample_light_selection(u);
        if (s.light_index < 0 || s.light_index >= n) { in = false; continue; }
        c[s.light_index]++;
        same = same && std::abs(s.p_sel - scene->pdf_light_selection(s.light_index)) < 1e-12;
    }
    Json p = Json::array(); for (int i = 0; i < n; i++) p.push_back(rnd(scene->pdf_light_selection(i) * 1e6));
    vt::emit({ {"op", "Select"}, {"k", K}, {"c", c}, {"in", in}, {"same", same}, {"p", p}, {"n", n}, {"w", Json::array()} });
}
void op_component(const Json& e) {
    const auto scene = sc(); const auto sp = sp_of(e); const Vec3 wi = glm::normalize(v3(e.at("wi"))); const int K = e.at("k").get<int>();
    const int n = e.at("comps").get<int>();
    std::vector<long long> c(n, 0); bool in = true; Triples t;
    for (int j = 0; j < K; j++) {
        const double u = j + 1 == K ? std::nextafter(1., 0.) : j == 0 ? 0. : (j + .5) / K;
        const auto s = path::sample_component(path::ComponentSampleU{ Vec2(u, .5) }, scene, sp, wi);
        if (s.comp < 0 || s.comp >= n) { in = false; continue; }
        c[s.comp]++;
        t.add(s.weight, path::pdf_component(scene, sp, wi, s.comp), 1);
    }
    Json p = Json::array(); for (int i = 0; i < n; i++) p.push_back(rnd(path::pdf_component(scene, sp, wi, i) * 1e6));
    vt::emit({ {"op", "Select"}, {"k", K}, {"c", c}, {"in", in}, {"same", true}, {"p", p}, {"n", n}, {"w", e.value("w", Json::array())} });
    vt::emit({ {"op", "Fit"}, {"q", t.out()} });
}
// discrete distributions themselves
void op_dist(const Json& e) {
    Dist d; const int K = e.at("k").get<int>();
    for (auto& w : e.at("w")) d.add(w.get<double>() * e.value("scale", 1.));
    d.norm();
    const int n = int(e.at("w").size());
    std::vector<long long> c(n, 0); bool in = true; Json at = Json::array();
    for (int j = 0; j < K; j++) {
        const int i = d.sample((2 * j + 1) / (2. * K));
        if (i < 0 || i >= n) { in = false; continue; }
        c[i]++; at.push_back(i + 1);
    }
    Json p = Json::array(); for (int i = -1; i <= n; i++) p.push_back(rnd(d.pmf(i) * 1e6));
    Json ends = Json::array({ d.sample(0.) + 1, d.sample(std::nextafter(1., 0.)) + 1, d.sample(1.) + 1 });
    vt::emit({ {"op", "Dist"}, {"w", e["w"]}, {"k", K}, {"at", at}, {"in", in}, {"p", p}, {"ends", ends}, {"empty", d.empty()} });
}
void op_dist2(const Json& e) {
    Dist2 d; const int w = e.at("cols").get<int>(), h = e.at("rows").get<int>(); std::vector<Float> v; for (auto& x : e.at("w")) v.push_back(x.get<double>());
    const int reps = e.value("reps", 1);
    for (int r = 0; r < reps; r++) d.init(v, w, h);
    const int K = e.at("k").get<int>(); Json c = Json::array(); std::vector<long long> cnt(w * h, 0); bool in = true; Triples t;
    for (int i = 0; i < K; i++) for (int j = 0; j < K; j++) {
        const auto s = d.sample(Vec4((i + .5) / K, (j + .5) / K, .3, .6));
        const int x = int(s.x * w), y = int(s.y * h);
        if (!(s.x >= 0 && s.x < 1 && s.y >= 0 && s.y < 1)) { in = false; continue; }
        if (std::abs(s.x * w - x - .3) > 1e-6 || std::abs(s.y * h - y - .6) > 1e-6) in = false;
        cnt[y * w + x]++;
    }
    Json p = Json::array(); for (int y = 0; y < h; y++) for (int x = 0; x < w; x++) p.push_back(rnd(d.pdf((x + .5) / w, (y + .5) / h) / (w * h) * 1e6));
    vt::emit({ {"op", "Dist2"}, {"w", e["w"]}, {"cols", w}, {"rows", h}, {"k", K}, {"c", cnt}, {"in", in}, {"p", p} });
}

// -- laws of materials
void op_law(const Json& e) {
    const auto scene = sc(); const auto sp = sp_of(e); const auto* m = scene->node_at(sp.primitive).primitive.material;
    const Vec3 wi = glm::normalize(v3(e.at("wi"))); const std::string law = e.at("law").get<std::string>(); const int comp = e.value("comp", 0);
    const double S = 10000;
    if (law == "reflect" || law == "refract" || law == "pass") {
        const auto s = m->sample_direction({ Vec2(.3, .6), Vec2(.2, .7) }, sp.geom, wi, comp, dir_of(e) == TransDir::EL ? Material::TransDir::EL : Material::TransDir::LE);
        Json back = Json::array({ 0, 0, 0 });
        if (s && law == "refract" && glm::length(s->wo) > .5) { const auto b = m->sample_direction({ Vec2(.3, .6), Vec2(.2, .7) }, sp.geom, s->wo, comp, Material::TransDir::LE); if (b) back = iv(b->wo, S); }
        vt::emit({ {"op", "Law"}, {"law", law}, {"some", bool(s)}, {"n", iv(sp.geom.n, S)}, {"wi", iv(wi, S)}, {"wo", s ? iv(s->wo, S) : Json::array({ 0, 0, 0 })},
            {"ni", rnd(e.value("ni", 1.) * 1000)}, {"w", s ? iv(s->weight, S) : Json::array({ 0, 0, 0 })},
            {"pcback", s && law == "refract" ? rnd(m->pdf_component(comp, sp.geom, s->wo) * S) : 0}, {"woback", back},
            {"pc", rnd(m->pdf_component(comp, sp.geom, wi) * S)}, {"pr", law == "pass" || comp == 0 && !e.contains("ni") ? 0 : rnd(m->pdf_component(0, sp.geom, wi) * S)}, {"glass", e.contains("ni")}, {"spec", m->is_specular_component(comp)}, {"el", dir_of(e) == TransDir::EL} });
        return;
    }
    if (law == "reciprocity") {
        Pairs pr; Seq q(.15);
        for (int i = 0; i < 400; i++) {
            q.next();
            const auto d = [&](int k) { const double z = 2 * q.x[k] - 1, ph = TPi * q.x[k + 1], r = std::sqrt(1 - z * z); return Vec3(r * std::cos(ph), r * std::sin(ph), z); };
            const Vec3 a = d(0), b = d(2);
            const auto f = m->eval(sp.geom, a, b, comp, Material::TransDir::EL, false), g = m->eval(sp.geom, b, a, comp, Material::TransDir::EL, false);
            for (int c = 0; c < 3; c++) pr.add("reciprocal", f[c], g[c]);
            const auto k = m->eval(sp.geom, a, b, comp, Material::TransDir::LE, false);
            pr.add("symmetric", f.x, k.x);
        }
        pr.emit({}); return;
    }
    if (law == "adjoint") {
        // transport from a to b towards the light is that from b to a towards the eye, also where the shading normal differs from the surface's
        Pairs pr; Seq q(.35); const auto& g = sp.geom; double wrong = 0;
        for (int i = 0; i < 600; i++) {
            q.next();
            const auto d = [&](int k) { const double z = 2 * q.x[k] - 1, ph = TPi * q.x[k + 1], r = std::sqrt(1 - z * z); return Vec3(r * std::cos(ph), r * std::sin(ph), z); };
            const Vec3 a = d(0), b = d(2);
            const double as = glm::dot(a, g.n), ag = glm::dot(a, g.gn), bs = glm::dot(b, g.n), bg = glm::dot(b, g.gn);
            const auto f = path::eval_contrb_direction(scene, sp, a, b, comp, TransDir::EL, false), h = path::eval_contrb_direction(scene, sp, b, a, comp, TransDir::LE, false);
            for (int c = 0; c < 3; c++) pr.add("adjoint", f[c] * std::abs(bs * ag), h[c] * std::abs(as * bg));
            if (as * ag <= 0 || bs * bg <= 0) wrong = std::max({ wrong, f.x, h.x });
            else if (as * bs > 0) { const auto m0 = m->eval(g, a, b, comp, Material::TransDir::EL, false); pr.add("plain", f.x, m0.x); }
        }
        pr.add("leak", wrong, 0);
        pr.emit({}); return;
    }
    if (law == "albedo") {
        // light leaving into all directions for light arriving from wi, over all components
        Vec3 tot(0); const int M = 300;
        const Frame f(sp.geom.n);
        for (int k = 0; k < e.at("comps").get<int>(); k++) {
            if (m->is_specular_component(k)) { const auto s = m->sample_direction({ Vec2(.5), Vec2(.5) }, sp.geom, wi, k, Material::TransDir::LE); if (s && m->pdf_component(k, sp.geom, wi) > 0) tot += s->weight; continue; }
            const double pc = m->pdf_component(k, sp.geom, wi);
            if (pc <= 0) continue;
            for (int i = 0; i < M; i++) for (int j = 0; j < M; j++) { const double z = -1 + 2 * (i + .5) / M; const auto wo = f.dir(z, TPi * (j + .5) / M); tot += m->eval(sp.geom, wi, wo, k, Material::TransDir::LE, false) * (std::abs(z) * 2 / M * TPi / M); }
        }
        vt::emit({ {"op", "Albedo"}, {"total", iv(tot, S)}, {"refl", iv(m->reflectance(sp.geom), S)}, {"expect", e.value("expect", Json::array())}, {"refls", e.value("refls", Json::array())}, {"max", e.value("max", Json::array({ 10000, 10000, 10000 }))} });
        return;
    }
}

// -- camera
void op_camera(const Json& e) {
    const auto scene = sc(); const auto* cam = scene->node_at(scene->camera_node()).primitive.camera; const double S = 10000;
    const auto at = [&](double x, double y) { const auto r = path::primary_ray(scene, Vec2(x, y)); return r; };
    if (e.value("reset", false)) const_cast<Camera*>(cam)->set_aspect_ratio(e["aspect"].get<double>());
    Json q = Json::array();
    const int K = e.value("k", 8);
    const Mat4 V = const_cast<Camera*>(cam)->view_matrix(), P = const_cast<Camera*>(cam)->projection_matrix();
    bool pos = true;
    for (int i = 0; i <= K; i++) for (int j = 0; j <= K; j++) {
        // the border itself may fall on either side
        const double x = i == 0 ? 1e-9 : i == K ? 1 - 1e-9 : double(i) / K, y = j == 0 ? 1e-9 : j == K ? 1 - 1e-9 : double(j) / K;
        const auto r = at(x, y);
        pos = pos && glm::length(r.o - v3(e["position"])) < 1e-9;
        const auto rp = path::raster_position(scene, r.d);
        const Vec4 c = P * V * Vec4(r.o + r.d * 7., 1.);
        q.push_back({ {"ij", Json::array({ i, j })}, {"rp", Json::array({ rnd(x * 1e6), rnd(y * 1e6) })}, {"back", rp ? Json::array({ rnd(rp->x * 1e6), rnd(rp->y * 1e6) }) : Json::array({ -1, -1 })}, {"d", iv(r.d, S)},
            {"proj", Json::array({ rnd((c.x / c.w + 1) * .5e6), rnd((c.y / c.w + 1) * .5e6) })}, {"unit", rnd((glm::length(r.d) - 1) * 1e6)} });
    }
    // directions that do not meet the film
    Json out = Json::array(); Seq s(.35); int found = 0;
    for (int i = 0; i < 4000 && found < 40; i++) {
        s.next(); const double z = 2 * s.x[0] - 1, r = std::sqrt(1 - z * z); const Vec3 d(r * std::cos(TPi * s.x[1]), r * std::sin(TPi * s.x[1]), z);
        found++;
        const auto rp = path::raster_position(scene, d);
        const auto spE = SceneInteraction::make_camera_endpoint(scene->camera_node(), PointGeometry::make_degenerated(v3(e["position"])));
        const double f = path::eval_contrb_direction(scene, spE, {}, d, 0, TransDir::EL, false).x, p = path::pdf_direction(scene, spE, {}, d, 0, false);
        const auto sd = path::sample_direct(path::RaySampleU{}, scene, SceneInteraction::make_medium_interaction(scene->camera_node(), PointGeometry::make_degenerated(v3(e["position"]) + 3. * d)), TransDir::EL);
        out.push_back({ {"d", iv(d, S)}, {"in", bool(rp)}, {"zero", f == 0 && p == 0}, {"direct", sd && sd->weight.x != 0 ? (sd->weight.x > 0 ? 1 : -1) : 0} });
    }
    vt::emit({ {"op", "Camera"}, {"pos", pos}, {"axis", e["axis"]}, {"k", K}, {"q", q}, {"out", out}, {"view", e["view"]}, {"up", e["up"]}, {"aspect", rnd(e["aspect"].get<double>() * 1000)}, {"tf", rnd(e["tf"].get<double>() * 1000)},
        {"c", iv(at(.5, .5).d, S)}, {"r", iv(at(1, .5).d, S)}, {"u", iv(at(.5, 1).d, S)} });
}

// -- media
void op_medium(const Json& e) {
    const auto scene = sc(); const auto* m = scene->node_at(scene->medium_node()).primitive.medium; const double S = 10000;
    const int N = e.value("n", 20000); const Ray ray{ v3(e["o"]), glm::normalize(v3(e["d"])) };
    Json q = Json::array();
    // mean transmittance over parts of the ray
    for (auto& seg : e["segs"]) {
        const double a = seg[0].get<double>(), b = seg[1].get<double>(); Vec3 sum(0); Rng rng(int(17 + q.size())); bool range = true;
        for (int i = 0; i < N; i++) { const auto t = m->eval_transmittance(rng, ray, a, b); sum += t; range = range && t.x >= 0 && t.x <= 1; }
        q.push_back({ {"a", rnd(a * 1000)}, {"b", rnd(b * 1000)}, {"T", iv(sum / double(N), S)}, {"range", range} });
    }
    // where samples fall: counts up to each of the given distances
    Json cdf = Json::array(); std::vector<long long> cnt(e["ts"].size(), 0); long long med = 0, none = 0; bool on = true; Vec3 wmin(1e9), wmax(-1e9); bool wsurf = true; Rng rng(4711);
    const double tmax = e["tmax"].get<double>();
    for (int i = 0; i < N; i++) {
        const auto s = m->sample_distance(rng, ray, 0, tmax);
        if (!s || !s->medium) { none++; if (s) wsurf = wsurf && s->weight == Vec3(1); continue; }
        med++;
        const double t = glm::dot(s->p - ray.o, ray.d);
        on = on && glm::length(s->p - (ray.o + ray.d * t)) < 1e-6 && t >= -1e-9 && t <= tmax + 1e-9;
        wmin = glm::min(wmin, s->weight); wmax = glm::max(wmax, s->weight);
        for (size_t k = 0; k < cnt.size(); k++) cnt[k] += t <= e["ts"][k].get<double>();
    }
    vt::emit({ {"op", "Medium"}, {"q", q}, {"n", N}, {"cnt", cnt}, {"tau", e["tau"]}, {"segtau", e["segtau"]}, {"none", none}, {"tauend", e["tauend"]}, {"on", on}, {"wsurf", wsurf},
        {"albedo", e["albedo"]}, {"wmin", med ? iv(wmin, S) : e["albedo"]}, {"wmax", med ? iv(wmax, S) : e["albedo"]}, {"emit", m->is_emitter()} });
}

// -- flights through a scene: ends of sampled distances, transmittance between points
void op_flight(const Json& e) {
    const auto scene = sc(); const double S = 10000; const int N = e.value("n", 20000);
    const auto sp = sp_of(e); const Vec3 d = glm::normalize(v3(e["d"])), o = sp.geom.p;
    std::vector<long long> cnt(e["ts"].size(), 0); long long surface = 0, infinite = 0, none = 0, med = 0; bool on = true, typed = true, wend = true; Vec3 wmin(1e9), wmax(-1e9); Rng rng(1234);
    long long far = -1;
    for (int i = 0; i < N; i++) {
        const auto s = path::sample_distance(rng, scene, sp, d);
        if (!s) { none++; continue; }
        if (s->sp.is_type(SceneInteraction::MediumInteraction)) {
            med++; const double t = glm::dot(s->sp.geom.p - o, d);
            on = on && glm::length(s->sp.geom.p - (o + d * t)) < 1e-6 && t >= 0; typed = typed && s->sp.geom.degenerated && s->sp.primitive == scene->medium_node();
            wmin = glm::min(wmin, s->weight); wmax = glm::max(wmax, s->weight);
            for (size_t k = 0; k < cnt.size(); k++) cnt[k] += t <= e["ts"][k].get<double>();
        }
        else {
            wend = wend && s->weight == Vec3(1);
            if (s->sp.geom.infinite) { infinite++; on = on && glm::length(s->sp.geom.wo + d) < 1e-9; }
            else { surface++; const auto t = rnd(glm::length(s->sp.geom.p - o) * 1000); if (far < 0) far = t; typed = typed && far == t && s->sp.is_type(SceneInteraction::SurfaceInteraction) && scene->node_at(s->sp.primitive).primitive.material; }
        }
    }
    vt::emit({ {"op", "Flight"}, {"n", N}, {"cnt", cnt}, {"tau", e["tau"]}, {"surface", surface}, {"infinite", infinite}, {"none", none}, {"far", far}, {"on", on}, {"typed", typed}, {"wend", wend},
        {"end", e["end"]}, {"dist", e["dist"]}, {"tauend", e["tauend"]}, {"albedo", e["albedo"]}, {"wmin", med ? iv(wmin, S) : e["albedo"]}, {"wmax", med ? iv(wmax, S) : e["albedo"]} });
}
void op_transmit(const Json& e) {
    const auto scene = sc(); const double S = 10000; const int N = e.value("n", 20000);
    const auto a = sp_of(e["from"]); Rng rng(99);
    const auto b = e.contains("wo") ? SceneInteraction::make_light_endpoint(0, PointGeometry::make_infinite(glm::normalize(v3(e["wo"])))) : sp_of(e["to"]);
    Vec3 sum(0), back(0); bool range = true;
    for (int i = 0; i < N; i++) { const auto t = path::eval_transmittance(rng, scene, a, b); sum += t; range = range && t.x >= 0 && t.x <= 1; }
    if (!e.contains("wo")) for (int i = 0; i < N; i++) back += path::eval_transmittance(rng, scene, b, a); else back = sum;
    vt::emit({ {"op", "Transmit"}, {"T", iv(sum / double(N), S)}, {"B", iv(back / double(N), S)}, {"range", range}, {"blocked", e["blocked"]}, {"tau", e["tau"]} });
}

// -- density and color fields at integer points
void op_volume(const Json& e) {
    const auto* v = comp::get<Volume>("$.assets." + e["vol"].get<std::string>()); Json q = Json::array();
    const auto b = v->bound(); bool bounded = true; Seq s(.45); const bool color = e.value("color", false);
    for (auto& p : e["pts"]) { const auto x = v3(p); q.push_back({ {"p", p}, {"v", v->has_scalar() ? rnd(v->eval_scalar(x) * 1000) : BAD}, {"c", color && v->eval_scalar(x) > 1e-6 ? iv(v->eval_color(x), 1000) : Json::array()} }); }
    for (int i = 0; i < 5000; i++) { s.next(); const Vec3 x = b.min + (b.max - b.min) * Vec3(s.x[0], s.x[1], s.x[2]); const double d = v->eval_scalar(x); bounded = bounded && d >= 0 && d <= v->max_scalar() * (1 + 1e-12); }
    vt::emit({ {"op", "Volume"}, {"field", e["field"]}, {"q", q}, {"bounded", bounded}, {"max", rnd(v->max_scalar() * 1000)}, {"lo", iv(b.min, 2)}, {"hi", iv(b.max, 2)} });
}

void run(const Json& s) {
    lm::init(); lm::log::set_severity(1000);
    const auto r = vt::attempt([&]() { if (s.contains("assets")) build(s); });
    vt::emit({ {"op", "Built"}, {"ret", r} });
    if (r != "ok") return;
    for (auto& e : s["ops"]) {
        const std::string op = e["op"].get<std::string>();
        const auto res = vt::attempt([&]() {
            if (op == "Dir") op_dir(e); else if (op == "Pos") op_pos(e); else if (op == "Primary") op_primary(e); else if (op == "Direct") op_direct(e);
            else if (op == "DirectCam") op_directcam(e); else if (op == "SelectLight") op_select(e); else if (op == "Component") op_component(e); else if (op == "Dist") op_dist(e); else if (op == "Dist2") op_dist2(e);
            else if (op == "Law") op_law(e); else if (op == "Camera") op_camera(e); else if (op == "Medium") op_medium(e); else if (op == "Volume") op_volume(e); else if (op == "Measures") op_measures(e); else if (op == "Flight") op_flight(e); else if (op == "Transmit") op_transmit(e);
            else throw std::runtime_error("unknown op");
        });
        vt::emit({ {"op", "Done"}, {"ret", res} });
    }
}
vt::Reg reg("sampling", run);
}
