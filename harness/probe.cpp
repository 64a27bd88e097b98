#include <pch.h>
#include "probe.h"
using namespace lm;
namespace vt {
static const std::vector<Vec3>& dirs() {
    static std::vector<Vec3> d = [] {
        std::vector<Vec3> v{ {0,0,1},{0,0,-1},{0,1,0},{1,0,0},{0,-1,0},{-1,0,0} };
        for (auto x : { Vec3(1,2,3), Vec3(-1,.5,.25), Vec3(.3,-.2,-1), Vec3(-2,-1,.7), Vec3(.1,.1,-.9), Vec3(-1,4,-.3) }) v.push_back(glm::normalize(x));
        return v;
    }();
    return d;
}
static const std::vector<Vec2>& uvs() {
    static std::vector<Vec2> v{ {.5,.5},{.1,.2},{.9,.3},{.25,.75},{.03,.97},{.66,.41},{.0,.0} };
    return v;
}
static std::vector<PointGeometry> geoms() {
    return { PointGeometry::make_on_surface({0,0,0}, {0,0,1}, {0,0,1}, {.2,.7}),
             PointGeometry::make_on_surface({1,.5,-2}, glm::normalize(Vec3(1,1,.2)), glm::normalize(Vec3(1,.9,.3)), {.8,.1}),
             PointGeometry::make_on_surface({.3,.4,.1}, {0,1,0}, {0,1,0}, {.55,.55}) };
}
static std::vector<Transform> transforms() {
    return { Transform(Mat4(1)), Transform(glm::translate(Vec3(1,2,.5)) * glm::scale(Vec3(2,2,2))) };
}

static void probe(Digest& d, Texture* t) {
    const auto s = t->size(); d(s.w); d(s.h); d(t->has_alpha());
    for (auto u : uvs()) { d.attempt([&] { d(t->eval(u)); }); if (t->has_alpha()) d.attempt([&] { d(double(t->eval_alpha(u))); }); }
    for (int y = 0; y < std::min(4, s.h); y++) for (int x = 0; x < std::min(4, s.w); x++) d(t->eval_by_pixel_coords(x, y));
}
static void probe(Digest& d, Material* m) {
    for (const auto& g : geoms()) {
        d.attempt([&] { d(m->reflectance(g)); });
        std::set<int> comps;
        for (auto wi : dirs()) for (auto u : uvs()) {
            const auto c = m->sample_component({u}, g, wi);
            d(c.comp); d(double(c.weight)); comps.insert(c.comp);
            d(double(m->pdf_component(c.comp, g, wi)));
        }
        for (int c : comps) {
            d(m->is_specular_component(c));
            for (auto wi : dirs()) {
                for (auto u : uvs()) for (auto td : { Material::TransDir::LE, Material::TransDir::EL }) {
                    const auto s = m->sample_direction({u, {u.y, u.x}}, g, wi, c, td);
                    d(bool(s)); if (s) { d(s->wo); d(s->weight); }
                }
                for (auto wo : dirs()) {
                    d(double(m->pdf_direction(g, wi, wo, c, false)));
                    d(m->eval(g, wi, wo, c, Material::TransDir::EL, false));
                    d(m->eval(g, wi, wo, c, Material::TransDir::LE, false));
                }
            }
        }
    }
}
static void probe(Digest& d, Light* l) {
    d(l->is_specular()); d(l->is_infinite()); d(l->is_env());
    for (const auto& tf : transforms()) for (auto u : uvs()) {
        d.attempt([&] { const auto s = l->sample_ray({u, u.x, {u.y, u.x}}, tf); d(bool(s)); if (s) { d(s->geom); d(s->wo); d(s->weight); d(double(l->pdf_ray(s->geom, s->wo, tf, true))); d(l->eval(s->geom, s->wo, true)); } });
        for (const auto& g : geoms()) d.attempt([&] {
            const auto s = l->sample_direct({u, u.y, {u.y, u.x}}, g, tf);
            d(bool(s));
            if (s) { d(s->geom); d(s->wo); d(s->weight); d(double(l->pdf_direct(g, s->geom, tf, s->wo, true))); d(l->is_connectable(s->geom)); }
        });
        d.attempt([&] { const auto s = l->sample_position({u, u.x}, tf); d(bool(s)); if (s) { d(s->geom); d(s->weight); d(double(l->pdf_position(s->geom, tf))); } });
    }
    for (const auto& g : geoms()) for (auto w : dirs()) {
        if (l->is_env() || l->is_infinite()) d.attempt([&] { d(l->eval(PointGeometry::make_infinite(w), w, false)); });
        else d.attempt([&] { d(l->eval(g, w, false)); });
        d.attempt([&] { d(double(l->pdf_direction(g, w))); });
    }
    for (auto u : uvs()) d.attempt([&] { const auto s = l->sample_direction({u}, geoms()[0]); d(bool(s)); if (s) { d(s->wo); d(s->weight); } });
}
static void probe(Digest& d, Camera* c) {
    d(c->view_matrix()); d(c->projection_matrix());
    const auto v = c->underlying_value("");
    for (auto k : { "eye", "center", "up", "vfov", "aspect" }) d(v.contains(k) ? v[k].dump() : std::string("-"));
    for (auto u : uvs()) {
        const auto r = c->primary_ray(u); d(r.o); d(r.d);
        d.attempt([&] { const auto s = c->sample_ray({u}); d(bool(s)); if (s) { d(s->wo); d(s->weight); d(double(c->pdf_ray(s->geom, s->wo))); d(s->geom); const auto rp = c->raster_position(s->wo); d(bool(rp)); if (rp) d(*rp); d(c->eval(s->wo)); } });
        for (const auto& g : geoms()) d.attempt([&] { const auto s = c->sample_direct({u}, g); d(bool(s)); if (s) { d(s->wo); d(s->weight); d(double(c->pdf_direct(g, s->geom, s->wo))); } });
    }
    for (auto w : dirs()) { d.attempt([&] { const auto rp = c->raster_position(w); d(bool(rp)); if (rp) d(*rp); }); d.attempt([&] { d(c->eval(w)); }); }
}
static void probe(Digest& d, Phase* p) {
    const auto g = PointGeometry::make_degenerated({0,0,0});
    for (auto wi : dirs()) {
        for (auto u : uvs()) { const auto s = p->sample_direction({u}, g, wi); d(bool(s)); if (s) { d(s->wo); d(s->weight); } }
        for (auto wo : dirs()) { d(double(p->pdf_direction(g, wi, wo))); d(p->eval(g, wi, wo)); }
    }
}
static void probe(Digest& d, Volume* v) {
    const auto b = v->bound(); d(b.min); d(b.max);
    d(v->has_scalar()); d(v->has_color());
    if (v->has_scalar()) d.attempt([&] { d(double(v->max_scalar())); });
    for (double x : { -.7, 0., .3, 1.2, 5. }) for (double y : { -.4, .1, .9 }) for (double z : { -1.1, .05, .6 }) {
        if (v->has_scalar()) d.attempt([&] { d(double(v->eval_scalar({x,y,z}))); });
        if (v->has_color()) d.attempt([&] { d(v->eval_color({x,y,z})); });
    }
}
static void probe(Digest& d, Medium* m) {
    d(m->is_emitter());
    for (auto w : dirs()) for (unsigned s = 1; s < 4; s++) d.attempt([&] {
        Rng rng(s);
        const Ray r{ {.1,.2,.3}, w };
        const auto x = m->sample_distance(rng, r, 0, 10);
        d(bool(x)); if (x) { d(x->p); d(x->weight); d(x->medium); }
        d(m->eval_transmittance(rng, r, 0, 2));
    });
    d(m->phase() ? digest((Component*)m->phase()) : std::string("null"));
}
static void probe(Digest& d, Mesh* m) {
    d(m->num_triangles());
    int k = 0;
    m->foreach_triangle([&](int f, const Mesh::Tri& t) {
        d(f);
        for (auto* p : { &t.p1, &t.p2, &t.p3 }) { d(p->p); d(p->n); d(p->t); }
        if (k++ < 64) {
            const auto a = m->triangle_at(f);
            for (auto* p : { &a.p1, &a.p2, &a.p3 }) { d(p->p); d(p->n); d(p->t); }
            for (auto u : { Vec2(.2,.3), Vec2(0,0), Vec2(.5,.1) }) { const auto s = m->surface_point(f, u); d(s.p); d(s.n); d(s.gn); d(s.t); }
        }
    });
}
std::string digest_film(Film* f) {
    Digest d;
    const auto b = f->buffer();
    d(b.w); d(b.h);
    if (b.data) for (long long i = 0; i < 3ll * b.w * b.h; i++) d(double(b.data[i]));
    return d.str();
}
static void probe(Digest& d, Film* f) {
    const auto s = f->size(); d(s.w); d(s.h); d(f->num_pixels()); d(double(f->aspect()));
    d(digest_film(f));
    // the saved image depends on the quality
    const auto p = scratch() + "/probe_film.jpg";
    d.attempt([&] { d(f->save(p)); });
    std::ifstream in(p, std::ios::binary); std::stringstream ss; ss << in.rdbuf(); d(ss.str());
    in.close(); fs::remove(p);
}
static std::vector<Ray> rays() {
    std::vector<Ray> r;
    for (auto o : { Vec3(0,0,5), Vec3(.2,.1,3), Vec3(-.4,.3,-4), Vec3(3,.1,.2), Vec3(.05,4,.05) })
        for (int i = -2; i <= 2; i++) for (int j = -2; j <= 2; j++) r.push_back({ o, glm::normalize(-o + Vec3(.31*i, .27*j, .13*(i+j))) });
    return r;
}
static void probe(Digest& d, Accel* a) {
    for (auto r : rays()) { const auto h = a->intersect(r, Eps, Inf); d(bool(h)); if (h) { d(double(h->t)); d(h->uv); d(h->global_transform.M); d(h->primitive); d(h->face); } }
}
static void probe(Digest& d, Scene* s) {
    d(s->num_nodes()); d(s->num_lights()); d(s->camera_node()); d(s->env_light_node()); d(s->medium_node());
    auto comp = [&](Component* c) { d(c ? digest(c) : std::string("null")); };
    s->traverse_primitive_nodes([&](const SceneNode& n, Mat4 M) {
        d(n.index); d(M); d(n.type == SceneNodeType::Primitive);
        if (n.type == SceneNodeType::Primitive) { comp(n.primitive.mesh); comp(n.primitive.material); comp(n.primitive.light); comp(n.primitive.camera); comp(n.primitive.medium); }
        else { d(n.group.instanced); d((long long)n.group.children.size()); d(bool(n.group.local_transform)); if (n.group.local_transform) d(*n.group.local_transform); }
    });
    for (int i = 0; i < s->num_nodes(); i++) { const auto& n = s->node_at(i); d(n.index); d(n.type == SceneNodeType::Group); if (n.type == SceneNodeType::Group) for (int c : n.group.children) d(c); }
    for (int i = 0; i < s->num_lights(); i++) { const auto x = s->light_primitive_index_at(i); d(x.index); d(x.global_transform.M); d(s->light_index_at(x.index)); }
    if (s->num_lights()) for (double u : { 0., .2, .55, .99 }) { const auto x = s->sample_light_selection(u); d(x.light_index); d(double(x.p_sel)); }
    if (s->accel() && s->num_nodes() > 1) {
        d(std::string("accel"));
        for (auto r : rays()) d.attempt([&] { const auto h = s->intersect(r); d(bool(h)); if (h) { d(h->primitive); d(h->geom); d(h->type); if (!h->geom.infinite) d(h->geom.t); d(s->is_light(*h)); } });
    }
}
static void probe(Digest& d, Model* m) {
    m->create_primitives([&](Component* mesh, Component* mat, Component* light) {
        for (auto* c : { mesh, mat, light }) d(c ? digest(c) : std::string("null"));
    });
}
static void probe(Digest& d, scheduler::Scheduler* s) {
    // schedulers driven by time are not deterministic; the others are observed through their runs
    if (s->key().find("sample") == std::string::npos) return;
    long long n = 0, px = 0, sx = 0;
    std::mutex mx;
    const auto r = s->run([&](long long p, long long i, int) { std::lock_guard<std::mutex> l(mx); n++; px += p; sx += i; });
    d(r); d(n); d(px); d(sx);
}

std::string digest(Component* c) {
    Digest d;
    d(c->key());
    if (auto* x = dynamic_cast<Texture*>(c)) probe(d, x);
    else if (auto* x = dynamic_cast<Material*>(c)) probe(d, x);
    else if (auto* x = dynamic_cast<Light*>(c)) probe(d, x);
    else if (auto* x = dynamic_cast<Camera*>(c)) probe(d, x);
    else if (auto* x = dynamic_cast<Phase*>(c)) probe(d, x);
    else if (auto* x = dynamic_cast<Volume*>(c)) probe(d, x);
    else if (auto* x = dynamic_cast<Medium*>(c)) probe(d, x);
    else if (auto* x = dynamic_cast<Mesh*>(c)) probe(d, x);
    else if (auto* x = dynamic_cast<Film*>(c)) probe(d, x);
    else if (auto* x = dynamic_cast<Accel*>(c)) probe(d, x);
    else if (auto* x = dynamic_cast<Scene*>(c)) probe(d, x);
    else if (auto* x = dynamic_cast<Model*>(c)) probe(d, x);
    else if (auto* x = dynamic_cast<scheduler::Scheduler*>(c)) probe(d, x);
    else if (dynamic_cast<Renderer*>(c)) {
        if (auto* s = c->underlying("scheduler")) d(digest(s));
    }
    return d.str();
}
}
