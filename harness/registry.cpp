// Registry of implementations, aliases and plugins.
#include <pch.h>
#include "vt.h"
using namespace lm;
using vt::Json;

static long long g_released = 0;          // version whose release function ran last
static int g_releases = 0;
extern "C" void vt_released(long long v) { g_released = v; g_releases++; }

namespace {
struct Obj final : public Component { long long v; Obj(long long v) : v(v) {} };
std::set<std::string> builtin() {
    std::set<std::string> s;
    comp::detail::foreach_registered([&](const std::string& n) { if (n.rfind("vt", 0) != 0) s.insert(n); });
    return s;
}
void run(const Json& session) {
    lm::init();
    log::set_severity(1000);
    const auto base = builtin();
    std::map<std::string, Component::Ptr<Component>> live;
    for (const auto& f : session.value("place", Json::array())) {
        const fs::path to(f.at("to").get<std::string>());
        if (!to.parent_path().empty()) fs::create_directories(to.parent_path());
        const std::string how = f.at("how");
        if (how == "copy") fs::copy_file(f.at("from").get<std::string>(), to);
        else if (how == "link") fs::create_symlink(fs::absolute(f.at("from").get<std::string>()), to);
        else if (how == "dir") fs::create_directories(to);
        else { std::ofstream os(to.string()); os << "not a library"; }
    }
    for (const auto& o : session.at("ops")) {
        Json e = o;
        const std::string op = o.at("op");
        g_released = 0; g_releases = 0;
        std::string out = "ok";
        if (op == "Reg") {
            const long long v = o.at("v");
            out = vt::attempt([&] { comp::detail::reg(o.at("key"), o.at("alias"),
                [v]() -> Component* { return new Obj(v); }, [v](Component* p) { vt_released(v); delete p; }); });
        }
        else if (op == "Unreg") out = vt::attempt([&] { comp::detail::unreg(o.at("key"), o.at("alias")); });
        else if (op == "Create") {
            Component::Ptr<Component> p;
            out = vt::attempt([&] { p = comp::create<Component>(o.at("name"), ""); });
            e["key"] = p ? p->key() : std::string();
            if (out == "ok" && !p) out = "none";
            if (p) live[o.at("id")] = std::move(p);
        }
        else if (op == "Destroy") {
            live.erase(o.at("id").get<std::string>());
            e["released"] = g_releases == 1 ? g_released : -99;
        }
        else if (op == "Load") out = vt::attempt([&] { comp::detail::load_plugin(o.at("path")); });
        else if (op == "Unload") out = vt::attempt([&] { comp::detail::unload_plugin(o.at("path")); });
        else if (op == "LoadDir") out = vt::attempt([&] { comp::detail::load_plugin_directory(o.at("dir")); });
        else if (op == "UnloadAll") out = vt::attempt([&] { comp::detail::unload_all_plugins(); });
        e["out"] = out;
        Json keys = Json::array();
        comp::detail::foreach_registered([&](const std::string& n) { if (n.rfind("vtr::", 0) == 0 || n.rfind("vtp::", 0) == 0) keys.push_back(n); });
        e["keys"] = keys;
        auto now = builtin();
        e["builtin"] = now == base;
        Json probe = Json::array();
        for (const auto& n : session.at("names")) {
            Component::Ptr<Component> p;
            vt::attempt([&] { p = comp::create<Component>(n.get<std::string>(), ""); });
            Json x{ {"name", n}, {"ok", bool(p)}, {"key", p ? p->key() : std::string()}, {"v", -1}, {"released", 0} };
            if (auto* q = dynamic_cast<Obj*>(p.get())) x["v"] = q->v;
            const bool had = bool(p);
            g_releases = 0; g_released = 0;
            p.reset();
            if (had) x["released"] = g_releases == 1 ? g_released : -99;
            probe.push_back(x);
        }
        e["probe"] = probe;
        vt::emit(e);
    }
    for (auto& x : live) x.second.release();    // leave them to the end of the process
}
vt::Reg r("registry", run);
}
