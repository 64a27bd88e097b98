import sys, os; sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from mkseed import seed
MAIN = "int main() { try { lm::init(); lm::log::set_severity(1000); run(); } catch (const std::exception& e) { std::cerr << e.what() << std::endl; return 1; } return fails ? 1 : 0; }\n"
SCENE = '''
static Mesh* quad(const std::string& name, double z, double r) {
    return lm::load<Mesh>(name, "mesh::raw", {{"ps", {-r,-r,z, r,-r,z, r,r,z, -r,r,z}}, {"ns", {0,0,1}}, {"ts", {0,0,1,0,1,1,0,1}},
        {"fs", {{"p", {0,1,2,0,2,3}}, {"n", {0,0,0,0,0,0}}, {"t", {0,1,2,0,2,3}}}}});
}
'''

seed("C06a", "C06", [("src/component.cpp", "func_alias_map_[alias] = key;", "func_alias_map_.emplace(alias, key);")], """
struct A final : public Component { virtual Component* underlying(const std::string&) const override { return nullptr; } };
struct B final : public Component {};
void run() {
    lm::comp::detail::reg("test::first", "test_alias", []() -> Component* { return new A; }, [](Component* p) { delete p; });
    lm::comp::detail::reg("test::second", "test_alias", []() -> Component* { return new B; }, [](Component* p) { delete p; });
    auto p = lm::comp::create<Component>("test_alias", "");
    EXPECT(p && p->key() == "test::second");
    p.reset();
    lm::comp::detail::unreg("test::first", "");
    lm::comp::detail::unreg("test::second", "test_alias");
}
""" + MAIN, "an alias is registered again for another implementation", "the alias keeps creating the former implementation")

seed("C09a", "C09", [("src/progress.cpp", """    virtual void end() override {
        ctx_->end();
    }""", """    virtual void end() override {
        if (last_updated_ != start_) {
            ctx_->end();
        }
    }""")], """
static int started = 0, ended = 0;
struct P final : public progress::ProgressContext {
    virtual void start(progress::ProgressMode, long long, double) override { started++; }
    virtual void update(long long) override {}
    virtual void update_time(Float) override {}
    virtual void end() override { ended++; }
};
LM_COMP_REG_IMPL(P, "progress::test_p");
void run() {
    lm::progress::init("delay", {{"delay", 100000}, {"progress", {{"progress::test_p", {{"x", 1}}}}}});
    lm::progress::start(progress::ProgressMode::Samples, 10, 0);
    lm::progress::update(3);
    lm::progress::end();
    EXPECT(started == 1 && ended == 1);
}
""" + MAIN, "a report that ends before the delay of progress::delay has passed", "the underlying report is opened but never closed")

seed("C10a", "C10", [("src/scheduler.cpp", "process(0, processed + index, threadid);", "process(0, index, threadid);")], """
#include <set>
void run() {
    auto s = lm::comp::create<scheduler::Scheduler>("scheduler::spi::time", "", {{"render_time", 0.05}, {"samples_per_iter", 7}});
    std::mutex m; std::set<long long> seen; long long calls = 0;
    const auto n = s->run([&](long long, long long i, int) { std::unique_lock<std::mutex> l(m); seen.insert(i); calls++; });
    EXPECT(calls == n && (long long)seen.size() == n && *seen.rbegin() == n - 1);
}
""" + MAIN, "a time-limited scheduler needs more than one iteration", "later iterations process the sample indices of the first one again")

seed("C12a", "C12", [("src/scene.cpp", "? global_transform * *node.group.local_transform", "? *node.group.local_transform * global_transform")], SCENE + """
void run() {
    auto* mesh = quad("mesh", 0, 1);
    auto* mat = lm::load<Material>("mat", "material::diffuse", {{"Kd", Vec3(1)}});
    auto* ac = lm::load<Accel>("ac", "accel::sahbvh", {});
    auto* sc = lm::load<Scene>("sc", "scene::default", {{"accel", ac->loc()}});
    const int a = sc->create_group_node(glm::translate(Vec3(10,0,0)));
    const int b = sc->create_group_node(glm::scale(Vec3(2)));
    const int c = sc->create_primitive_node({{"mesh", mesh->loc()}, {"material", mat->loc()}});
    sc->add_child(sc->root_node(), a); sc->add_child(a, b); sc->add_child(b, c);
    sc->build();
    EXPECT(sc->intersect({Vec3(10.1,.2,5), Vec3(0,0,-1)}));
    EXPECT(!sc->intersect({Vec3(20.1,.2,5), Vec3(0,0,-1)}));
}
""" + MAIN, "nested groups whose transformations do not commute", "the transformations are applied in the wrong order")

seed("C13a", "C13", [("src/accel/accel_sahbvh.cpp", """                    tmax = h->t;
                    mi = i;
""", """                    tmax = h->t;
                    mi = i;
                    break;
""")], SCENE + """
void run() {
    // two triangles crossing each other: same bound, one leaf
    auto* mesh = lm::load<Mesh>("mesh", "mesh::raw", {{"ps", {-1,-1,-1, 1,-1,-1, 1,1,1,  -1,-1,1, 1,-1,1, 1,1,-1}}, {"ns", {0,0,1}}, {"ts", {0,0}},
        {"fs", {{"p", {0,1,2,3,4,5}}, {"n", {0,0,0,0,0,0}}, {"t", {0,0,0,0,0,0}}}}});
    auto* mat = lm::load<Material>("mat", "material::diffuse", {{"Kd", Vec3(1)}});
    auto* ac = lm::load<Accel>("ac", "accel::sahbvh", {});
    auto* sc = lm::load<Scene>("sc", "scene::default", {{"accel", ac->loc()}});
    sc->add_primitive({{"mesh", mesh->loc()}, {"material", mat->loc()}});
    sc->build();
    for (double y : {-.6, -.3, .3, .6}) {
        // the planes are z = y and z = -y
        auto u = sc->intersect({Vec3(.9, y, 5), Vec3(0,0,-1)}), d = sc->intersect({Vec3(.9, y, -5), Vec3(0,0,1)});
        EXPECT(u && std::abs(u->geom.p.z - std::abs(y)) < 1e-9);
        EXPECT(d && std::abs(d->geom.p.z + std::abs(y)) < 1e-9);
    }
}
""" + MAIN, "triangles that share a leaf of the hierarchy lie behind each other", "a hit that is not the nearest is returned")

seed("C14a", "C14", [("src/logger.cpp", """        if (severity_ > severity) {
            return;
        }
""", """        if (severity_ > severity && level != LogLevel::ProgressEnd) {
            return;
        }
""")], """
void run() {
    std::stringstream ss;
    auto* old = std::cout.rdbuf(ss.rdbuf());
    lm::log::set_severity(1000);
    lm::log::log(lm::log::LogLevel::Progress, 0, "f", 1, "hidden one");
    lm::log::log(lm::log::LogLevel::ProgressEnd, 0, "f", 1, "hidden two");
    std::cout.rdbuf(old);
    EXPECT(ss.str().empty());
}
""" + MAIN, "the end of a progress report below the threshold", "a message below the threshold is shown")

seed("C16a", "C16", [("src/objloader/objloader_simple.cpp", "i.t = parse_index(atoi(t), int(geo.ts.size()));", "i.t = parse_index(atoi(t), int(geo.ps.size()));")], """
void run() {
    { std::ofstream f("a.obj"); f << "v 0 0 0\\nv 1 0 0\\nv 0 1 0\\nv 5 5 5\\nvt 0 0\\nvt 0.25 0\\nvt 0 0.5\\nvt 1 1\\nvt 0.75 0.75\\nf 1/-5 2/-4 3/-3\\n"; }
    auto* m = lm::load<Mesh>("m", "mesh::wavefrontobj", {{"path", "a.obj"}});
    m->foreach_triangle([&](int, const Mesh::Tri& t) {
        EXPECT(t.p1.t == Vec2(0,0) && t.p2.t == Vec2(.25,0) && t.p3.t == Vec2(0,.5));
    });
}
""" + MAIN, "negative indices of texture coordinates when the file has more or fewer of them than positions", "other texture coordinates than described")

seed("C19a", "C19", [("include/lm/math.h", "        eng_.seed(seed);", "        eng_.seed(seed & 0xffff);")], """
void run() {
    Rng a(5), b(5 + 65536);
    bool same = true;
    for (int i = 0; i < 100; i++) { if (a.u() != b.u()) same = false; }
    EXPECT(!same);
}
""" + MAIN, "seeds that differ only above their 16 lowest bits", "renderings with different seeds are identical")

seed("C21a", "C21", [("src/texture/texture_bitmap.cpp", """    virtual Float eval_alpha(Vec2 t) const override {
        const auto u = t.x - floor(t.x);""", """    virtual Float eval_alpha(Vec2 t) const override {
        const auto u = t.x - int(t.x);""")], """
void run() {
    unsigned char px[] = { 255,255,255,255, 255,255,255,0 };
    { std::ofstream f("a.tga", std::ios::binary); unsigned char h[18] = {0,0,2,0,0,0,0,0,0,0,0,0,2,0,1,0,32,8}; f.write((char*)h, 18); f.write((char*)px, 8); }
    auto* t = lm::load<Texture>("t", "texture::bitmap", {{"path", "a.tga"}});
    EXPECT(t->has_alpha() && t->eval_alpha(Vec2(.75,.5)) < .5 && t->eval_alpha(Vec2(.25,.5)) > .5);
    EXPECT(t->eval_alpha(Vec2(-.25,.5)) == t->eval_alpha(Vec2(.75,.5)));
}
""" + MAIN, "negative texture coordinates of a texture with transparency", "the transparency of another texel is used")

seed("C24a", "C24", [("include/lm/path.h", "const auto dist = hit && !hit->geom.infinite ? glm::length(hit->geom.p - sp.geom.p) : Inf;", "const auto dist = hit ? glm::length(hit->geom.p - sp.geom.p) : Inf;")], SCENE + """
void run() {
    auto* mesh = quad("mesh", -50, 1);
    auto* mat = lm::load<Material>("mat", "material::diffuse", {{"Kd", Vec3(1)}});
    auto* env = lm::load<Light>("env", "light::envconst", {{"Le", Vec3(1)}});
    auto* d = lm::load<Volume>("d", "volume::constant", {{"scalar", 1.}, {"bound", {{"min", {-100,-100,-100}}, {"max", {100,100,100}}}}});
    auto* al = lm::load<Volume>("al", "volume::constant", {{"color", {1,1,1}}, {"bound", {{"min", {-100,-100,-100}}, {"max", {100,100,100}}}}});
    auto* ph = lm::load<Phase>("ph", "phase::isotropic", {});
    auto* md = lm::load<Medium>("md", "medium::homogeneous", {{"density", 5.}, {"albedo", Vec3(1)}, {"phase", ph->loc()}});
    auto* ac = lm::load<Accel>("ac", "accel::sahbvh", {});
    auto* sc = lm::load<Scene>("sc", "scene::default", {{"accel", ac->loc()}});
    sc->add_primitive({{"mesh", mesh->loc()}, {"material", mat->loc()}});
    sc->add_primitive({{"light", env->loc()}});
    sc->add_primitive({{"medium", md->loc()}});
    sc->build();
    Rng rng(1);
    auto sp = SceneInteraction::make_surface_interaction(1, PointGeometry::make_degenerated(Vec3(0)));
    int inside = 0;
    for (int i = 0; i < 100; i++) {
        auto s = path::sample_distance(rng, sc, sp, Vec3(0,0,1));
        if (s && s->sp.is_type(SceneInteraction::MediumInteraction)) inside++;
    }
    EXPECT(inside == 100);
}
""" + MAIN, "a ray through a medium that leaves the scene towards an environment light", "the medium does not scatter on such rays")

seed("C27a", "C27", [("src/renderer/renderer_raycast.cpp", """            if (!sp) {
                film_->set_pixel(x, y, bg_color_);
                return;""", """            if (!sp) {
                if (!use_constant_color_) { film_->set_pixel(x, y, bg_color_); }
                return;""")], SCENE + """
void run() {
    auto* mesh = quad("mesh", 0, 1);
    auto* mat = lm::load<Material>("mat", "material::diffuse", {{"Kd", Vec3(1)}});
    auto* cam = lm::load<Camera>("cam", "camera::pinhole", {{"position", {0,0,5}}, {"center", {0,0,0}}, {"up", {0,1,0}}, {"vfov", 30.}, {"aspect", 2.}});
    auto* ac = lm::load<Accel>("ac", "accel::sahbvh", {});
    auto* sc = lm::load<Scene>("sc", "scene::default", {{"accel", ac->loc()}});
    sc->add_primitive({{"mesh", mesh->loc()}, {"material", mat->loc()}});
    sc->add_primitive({{"camera", cam->loc()}});
    sc->build();
    auto* film = lm::load<Film>("film", "film::bitmap", {{"w", 16}, {"h", 8}});
    auto* r = lm::load<Renderer>("r", "renderer::raycast", {{"scene", sc->loc()}, {"output", film->loc()}, {"bg_color", {0,0,1}}, {"use_constant_color", true}});
    r->render();
    auto b = film->buffer();
    for (int y = 0; y < 8; y++) for (int x = 0; x < 16; x++) {
        const auto ray = path::primary_ray(sc, {(x+.5)/16, (y+.5)/8});
        const bool hit = bool(sc->intersect(ray));
        EXPECT(b.data[3*(y*16+x)] == (hit ? 1 : 0) && b.data[3*(y*16+x)+2] == 1);
    }
}
""" + MAIN, "a constant color and a background color, and a ray that hits nothing", "the background stays black")
