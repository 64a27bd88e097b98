import sys; sys.path.insert(0, "/verif/tools")
from mkseed import seed
MAIN = "int main() { try { lm::init(); lm::log::set_severity(1000); run(); } catch (const std::exception& e) { std::cerr << e.what() << std::endl; return 1; } return fails ? 1 : 0; }\n"

seed("C02a", "C02", [("src/assetgroup.cpp", 'comp::get<Component>("$")->foreach_underlying(visitor);', 'foreach_underlying(visitor);')], '''
void run() {
    auto* g1 = lm::load<AssetGroup>("g1", "asset_group::default", {});
    auto* t1 = g1->load_asset("tex", "texture::constant", {{"color", Vec3(1,0,0)}});
    auto* g2 = lm::load<AssetGroup>("g2", "asset_group::default", {});
    auto* m = dynamic_cast<Material*>(g2->load_asset("mat", "material::diffuse", {{"mapKd", "$.assets.g1.tex"}}));
    auto* t2 = g1->load_asset("tex", "texture::constant", {{"color", Vec3(0,1,0)}});
    EXPECT(m->underlying("mapKd") == t2);
}
''' + MAIN, "an asset of a nested group that is referenced from another group is replaced", "references from outside the group keep designating the destroyed asset")

seed("C04a", "C04", [("src/film/film_bitmap.cpp", "ar(w_, h_, quality_, data_);", "ar(w_, h_, quality_);\n        data_.resize(w_*h_);")], '''
void run() {
    auto* f = lm::load<Film>("film", "film::bitmap", {{"w", 4}, {"h", 3}});
    f->set_pixel(1, 2, Vec3(1,2,3));
    lm::save_state_to_file("s");
    lm::reset();
    lm::load_state_from_file("s");
    auto* g = lm::comp::get<Film>("$.assets.film");
    auto b = g->buffer();
    const double* p = b.data + 3 * (2 * 4 + 1);
    EXPECT(p[0] == 1 && p[1] == 2 && p[2] == 3);
}
''' + MAIN, "a film with content is saved and loaded", "the accumulated pixels are lost")

seed("C04b", "C04", [("src/light/light_directional.cpp", "ar(sphere_bound_, Le_, direction_);", "ar(Le_, direction_);")], '''
void run() {
    lm::load<Light>("warm", "light::directional", {{"Le", Vec3(7)}, {"direction", Vec3(1,0,0)}});
    auto* mesh = lm::load<Mesh>("mesh", "mesh::raw", {{"ps", {-1,-1,0,1,-1,0,1,1,0}}, {"ns", {0,0,1}}, {"ts", {0,0,1,0,1,1}},
        {"fs", {{"p", {0,1,2}}, {"n", {0,0,0}}, {"t", {0,1,2}}}}});
    auto* mat = lm::load<Material>("mat", "material::diffuse", {{"Kd", Vec3(1)}});
    auto* li = lm::load<Light>("li", "light::directional", {{"Le", Vec3(1)}, {"direction", Vec3(0,0,-1)}});
    auto* ac = lm::load<Accel>("ac", "accel::sahbvh", {});
    auto* sc = lm::load<Scene>("sc", "scene::default", {{"accel", ac->loc()}});
    sc->add_primitive({{"mesh", mesh->loc()}, {"material", mat->loc()}});
    sc->add_primitive({{"light", li->loc()}});
    sc->build();
    auto q = [&]() { auto* l = lm::comp::get<Light>("$.assets.li"); Light::RaySampleU u; u.up = Vec2(.3,.6); u.upc = .1; u.ud = Vec2(.2); auto s = l->sample_ray(u, Transform(Mat4(1))); return s->geom.p; };
    const auto a = q();
    lm::save_state_to_file("s");
    lm::reset();
    std::vector<void*> junk;
    for (int i = 0; i < 4000; i++) { size_t n = 16 * (1 + i % 64); void* p = ::operator new(n); std::memset(p, 0x3f, n); junk.push_back(p); }
    for (auto* p : junk) ::operator delete(p);
    lm::load_state_from_file("s");
    const auto b = q();
    EXPECT(a == b);
}
''' + MAIN, "a built scene with a directional light is saved, loaded and used without rebuilding", "the directional light forgets the extent of the scene, so emitted rays start elsewhere")


seed("C05a", "C05", [("src/assetgroup.cpp", "serial::load_comp(is, assets_.back(), make_loc(name));", 'serial::load_comp(is, assets_.back(), lm::comp::get<Component>("$.assets")->make_loc(name));')], """
void run() {
    auto* m = lm::load<Material>("m", "material::diffuse", {{"Kd", Vec3(1)}});
    { std::ofstream os("s", std::ios::binary); serial::save_comp_owned<Component>(os, m, m->loc()); }
    auto* g = lm::load<AssetGroup>("g", "asset_group::default", {});
    auto* c = g->load_serialized("c", "s");
    EXPECT(c && c->loc() == "$.assets.g.c");
    EXPECT(lm::comp::get<Component>("$.assets.g.c") == c);
}
""" + MAIN, "a saved subtree is loaded into a nested group", "its components get locators that do not lead to them")

seed("C05b", "C05", [("include/lm/serialtype.h", "weakptr_loc_pairs_.push_back({ address, loc });", """for (auto& v : weakptr_loc_pairs_) {
            if (v.loc == loc) {
                v.address = address;
                return;
            }
        }
        weakptr_loc_pairs_.push_back({ address, loc });""")], """
void run() {
    auto* g = lm::load<AssetGroup>("g", "asset_group::default", {});
    auto* m = g->load_asset("m", "material::diffuse", {{"Kd", Vec3(1)}});
    g->load_asset("a", "material::proxy", {{"ref", m->loc()}});
    g->load_asset("b", "material::proxy", {{"ref", m->loc()}});
    { std::ofstream os("s", std::ios::binary); serial::save_comp_owned<Component>(os, g, g->loc()); }
    auto* k = lm::assets()->load_serialized("k", "s");
    for (auto n : {"a", "b"}) {
        Component* r = nullptr;
        k->underlying(n)->foreach_underlying([&](Component*& c, bool weak) { r = c; });
        EXPECT(r == k->underlying("m"));
    }
}
""" + MAIN, "a subtree in which one component is referenced more than once is loaded", "only one of the references is recovered")

seed("C01a", "C01", [("src/assetgroup.cpp", 'R"x([:\\w_-]+)x"', 'R"x([:\\w_.-]+)x"')], """
void run() {
    Component* m = nullptr;
    try { m = lm::assets()->load_asset("a.b", "material::diffuse", {{"Kd", Vec3(1)}}); } catch (...) {}
    EXPECT(!m || lm::comp::get<Component>(m->loc()) == m);
}
""" + MAIN, "an asset name containing a dot", "the asset is loaded but its locator does not lead to it")

seed("C07a", "C07", [("src/assetgroup.cpp", "auto old = std::move(assets_[index]);", "auto& old = retired_.emplace_back(std::move(assets_[index]));"),
  ("src/assetgroup.cpp", "    std::unordered_map<std::string, int> asset_index_map_;\n", "    std::unordered_map<std::string, int> asset_index_map_;\n    std::vector<Ptr<Component>> retired_;\n")], """
static int alive = 0;
struct X final : public Component { X() { alive++; } ~X() { alive--; } };
LM_COMP_REG_IMPL(X, "test::x");
void run() {
    lm::assets()->load_asset("x", "test::x", {});
    lm::assets()->load_asset("x", "test::x", {});
    EXPECT(alive == 1);
    lm::assets()->load_asset("x", "material::mirror", {});
    EXPECT(alive == 0);
}
""" + MAIN, "an asset is replaced", "the replaced instance stays alive as long as its group")
