// Suite "tree": histories of asset-tree operations.
#include <pch.h>
#include "vt.h"
#include <lm/debug.h>
#include <regex>

using vt::Json;

namespace {

// ---- test components ------------------------------------------------------------------------
// A node owns named children, holds weak references to other components and logs its own birth
// and death.  Two interfaces (A and B) let references be typed.

struct Log {
    std::vector<const void*> born, died;
    long long deaths_by_wrong_release = 0;
};
Log& lg() { static Log l; return l; }

class Node : public lm::Component {
public:
    int tag_ = 0;
    char kind_;
    struct Ref {
        std::string ty;
        lm::Component* any = nullptr;
        lm::Component* p() const { return any; }
        template <typename Ar> void serialize(Ar& ar) { ar(ty, any); }
    };
    std::vector<Ref> refs_;
    std::vector<Ptr<lm::Component>> kids_;
    std::vector<std::string> names_;

    Node(char k) : kind_(k) { lg().born.push_back(this); }
    ~Node() override { lg().died.push_back(this); }

    LM_SERIALIZE_IMPL(ar) {
        ar(fail_load_);
        if (fail_load_ == 1 && loading_(ar)) { throw std::runtime_error("load failure requested"); }
        ar(tag_, names_, kids_, refs_);
    }
    int fail_load_ = 0;
    static bool loading_(lm::InputArchive&) { return true; }
    static bool loading_(lm::OutputArchive&) { return false; }

    lm::Component* underlying(const std::string& name) const override {
        for (size_t i = 0; i < kids_.size(); i++) if (names_[i] == name) return kids_[i].get();
        return nullptr;
    }
    void foreach_underlying(const ComponentVisitor& visit) override;

    void construct(const lm::Json& prop) override {
        tag_ = lm::json::value<int>(prop, "tag", 0);
        fail_load_ = lm::json::value<int>(prop, "fail_load", 0);
        const auto fail = lm::json::value<std::string>(prop, "fail", std::string("no"));
        if (fail == "early") throw std::runtime_error("early failure requested");
        if (prop.find("kids") != prop.end()) {
            for (const auto& k : prop["kids"]) {
                const std::string n = k["n"];
                auto c = lm::comp::create<lm::Component>("vt::" + k["k"].get<std::string>(), make_loc(n), k["prop"]);
                if (!c) LM_THROW_EXCEPTION(lm::Error::InvalidArgument, "kid");
                names_.push_back(n);
                kids_.push_back(std::move(c));
            }
        }
        if (prop.find("refs") != prop.end()) {
            for (const auto& r : prop["refs"]) resolve(r);
        }
        if (fail == "late") throw std::runtime_error("late failure requested");
        if (fail == "lm") LM_THROW_EXCEPTION(lm::Error::InvalidArgument, "late failure requested");
        if (fail == "int") throw 42;
    }
    void resolve(const Json& r);
};

class NodeA : public Node { public: NodeA() : Node('A') {} };
class NodeB : public Node { public: NodeB() : Node('B') {} };

void Node::resolve(const Json& r) {
    Ref x;
    x.ty = r["ty"];
    const bool strict = r["strict"];
    const auto get = [&](auto* t) {
        using T = std::remove_pointer_t<decltype(t)>;
        x.any = strict ? lm::json::comp_ref<T>(r, "loc") : lm::json::comp_ref_or_nullptr<T>(r, "loc");
    };
    if (x.ty == "A") get((NodeA*)nullptr);
    else if (x.ty == "B") get((NodeB*)nullptr);
    else get((lm::Component*)nullptr);
    refs_.push_back(x);
}

void Node::foreach_underlying(const ComponentVisitor& visit) {
    for (auto& k : kids_) lm::comp::visit(visit, k);
    for (auto& r : refs_) {
        if (r.ty == "A") { auto* p = static_cast<NodeA*>(r.any); lm::comp::visit(visit, p); r.any = p; }
        else if (r.ty == "B") { auto* p = static_cast<NodeB*>(r.any); lm::comp::visit(visit, p); r.any = p; }
        else lm::comp::visit(visit, r.any);
    }
}

LM_COMP_REG_IMPL(NodeA, "vt::A");
LM_COMP_REG_IMPL(NodeB, "vt::B");

// ---- observation ----------------------------------------------------------------------------

struct World {
    std::map<const void*, int> ids;
    std::set<const void*> groups;   // groups seen alive
    int next = 1;
    Json universe;

    int id(const void* p) {
        if (!p) return 0;
        auto it = ids.find(p);
        if (it != ids.end()) return it->second;
        return ids[p] = next++;
    }
    static std::vector<std::string> split(const std::string& loc) {
        std::vector<std::string> r; std::stringstream ss(loc); std::string s;
        while (std::getline(ss, s, '.')) r.push_back(s);
        if (!loc.empty() && loc.back() == '.') r.push_back("");
        return r;
    }
    // Locator relative to "$.assets" as a list of names
    static Json rel(const std::string& loc) {
        auto v = split(loc);
        if (v.size() < 2 || v[0] != "$" || v[1] != "assets") return Json::array({"?" + loc});
        return Json(std::vector<std::string>(v.begin() + 2, v.end()));
    }
    static std::string abs(const Json& path) {
        std::string s = "$.assets";
        for (const auto& n : path) s += "." + n.get<std::string>();
        return s;
    }
    int depth = 0;
    void walk(lm::Component* c, Json& out) {
        if (++depth > 12) { depth--; return; }
        Json e;
        e["p"] = rel(c->loc());
        e["i"] = id(c);
        e["self"] = id(lm::comp::get<lm::Component>(c->loc()));
        e["nameok"] = c->loc() == "$.assets" || (c->parent_loc() + "." + c->name() == c->loc());
        e["refs"] = Json::array();
        if (auto* n = dynamic_cast<Node*>(c)) {
            e["k"] = std::string(1, n->kind_);
            e["key"] = n->key();
            e["t"] = n->tag_;
            for (const auto& r : n->refs_) e["refs"].push_back(!r.p() ? 0 : vt::freed(r.p()) ? -1 : id(r.p()));
            for (auto& k : n->kids_) if (k) walk(k.get(), out);
        }
        else if (auto* g = dynamic_cast<lm::AssetGroup*>(c)) {
            groups.insert(c);
            e["k"] = "G";
            e["key"] = g->key();
            e["t"] = 0;
            std::vector<lm::Component*> cs;
            const lm::Component::ComponentVisitor v = [&](lm::Component*& p, bool weak) {
                if (!weak) cs.push_back(p);
            };
            g->foreach_underlying(v);
            for (auto* p : cs) {
                if (!p) { out.push_back({{"p", Json::array({"?null"})}, {"i", 0}, {"self", 0}, {"nameok", false}, {"refs", Json::array()}, {"k", "0"}, {"key", ""}, {"t", 0}}); continue; }
                walk(p, out);
            }
        }
        else { e["k"] = "?"; e["key"] = c->key(); e["t"] = 0; }
        out.push_back(e);
        depth--;
    }
    void observe(Json& e) {
        Json snap = Json::array();
        if (auto* r = lm::comp::get<lm::Component>("$.assets")) walk(r, snap);
        e["snap"] = snap;
        Json res = Json::array();
        for (const auto& u : universe) {
            auto* p = lm::comp::get<lm::Component>(abs(u));
            if (p) res.push_back({{"p", u}, {"i", id(p)}});
        }
        e["res"] = res;
        // births and deaths since the previous observation
        Json born = Json::array(), died = Json::array();
        for (auto* p : lg().born) born.push_back(id(p));
        for (auto* p : lg().died) died.push_back(id(p));
        for (auto it = groups.begin(); it != groups.end();) {
            if (vt::freed(*it)) { died.push_back(id(*it)); it = groups.erase(it); } else ++it;
        }
        lg().born.clear(); lg().died.clear();
        e["born"] = born; e["died"] = died;
    }
};

Json to_prop(const Json& op) {
    Json p;
    p["tag"] = op.value("tag", 0);
    p["fail"] = op.value("fail", std::string("no"));
    p["fail_load"] = op.value("fail_load", 0);
    p["refs"] = Json::array();
    for (const auto& r : op["refs"]) p["refs"].push_back({{"ty", r["ty"]}, {"strict", r["strict"]}, {"loc", World::abs(r["to"])}});
    p["kids"] = Json::array();
    if (op.contains("kids")) for (const auto& k : op["kids"]) p["kids"].push_back({{"n", k["n"]}, {"k", k["k"]}, {"prop", to_prop(k)}});
    return p;
}

std::string key_of(const std::string& k) {
    if (k == "A" || k == "B") return "vt::" + k;
    if (k == "G") return "asset_group::default";
    return "vt::no_such_implementation";
}

void run(const Json& session) {
    std::cout.rdbuf(nullptr);
    World w;
    w.universe = session["universe"];
    lm::init();
    {
        Json e{{"op", "Init"}};
        w.observe(e);
        vt::emit(e);
    }
    for (const auto& op : session["ops"]) {
        Json e = op;
        const std::string o = op["op"];
        e["ret"] = 0;
        if (o == "Load" || o == "LoadSer") {
            auto* g = lm::comp::get<lm::AssetGroup>(World::abs(op["g"]));
            if (!g) { e["out"] = "nogroup"; }
            else {
                lm::Component* r = nullptr;
                const auto res = vt::attempt([&] {
                    if (o == "Load") r = g->load_asset(op["n"], key_of(op["k"]), to_prop(op));
                    else r = g->load_serialized(op["n"], vt::scratch() + "/" + op["f"].get<std::string>());
                });
                e["out"] = std::string(res != "ok" ? "throw" : r ? "ok" : "null");
                e["ret"] = vt::freed(r) ? -1 : w.id(r);
            }
        }
        else if (o == "Save") {
            auto* c = lm::comp::get<lm::Component>(World::abs(op["p"]));
            if (!c) e["out"] = "missing";
            else {
                const auto res = vt::attempt([&] {
                    std::ofstream os(vt::scratch() + "/" + op["f"].get<std::string>(), std::ios::out | std::ios::binary);
                    lm::serial::save_comp_owned(os, c, c->loc());
                });
                e["out"] = std::string(res == "ok" ? "ok" : "throw");
            }
        }
        else if (o == "SaveState") {
            e["out"] = std::string(vt::attempt([&] { lm::save_state_to_file(vt::scratch() + "/" + op["f"].get<std::string>()); }) == "ok" ? "ok" : "throw");
        }
        else if (o == "LoadState") {
            e["out"] = std::string(vt::attempt([&] { lm::load_state_from_file(vt::scratch() + "/" + op["f"].get<std::string>()); }) == "ok" ? "ok" : "throw");
        }
        else if (o == "Truncate") {
            // The file loses its tail: op["num"]/op["den"] of its length is kept, at least one byte is lost
            const auto path = vt::scratch() + "/" + op["f"].get<std::string>();
            std::error_code ec;
            const auto n = fs::file_size(path, ec);
            if (ec || n == 0) e["out"] = "nofile";
            else {
                auto k = n * op["num"].get<unsigned long long>() / op["den"].get<unsigned long long>();
                if (k >= n) k = n - 1;
                fs::resize_file(path, k);
                e["out"] = "ok";
            }
        }
        else if (o == "Reset") { e["out"] = std::string(vt::attempt([&] { lm::reset(); }) == "ok" ? "ok" : "throw"); }
        else if (o == "Print") {
            // The printed tree: owned components by their path, and what they refer to
            std::stringstream ss;
            std::cout.rdbuf(ss.rdbuf());
            e["out"] = std::string(vt::attempt([&] { lm::debug::print_asset_tree(op["weak"].get<bool>()); }) == "ok" ? "ok" : "throw");
            std::cout.rdbuf(nullptr);
            Json owned = Json::array(), weak = Json::array();
            std::vector<std::pair<size_t, std::string>> at;     // number of dots before the name, name
            std::string line;
            bool first = true, bad = false;
            size_t base = 0;
            const auto path = [&] { Json p = Json::array(); for (const auto& a : at) p.push_back(a.second); return p; };
            while (std::getline(ss, line)) {
                line = std::regex_replace(line, std::regex("\x1b\\[[0-9;]*m"), "");
                const auto h = line.find("] ");
                if (h == std::string::npos) { bad = true; continue; }
                line = line.substr(h + 2);
                while (!line.empty() && line.back() == ' ') line.pop_back();
                auto d = std::min(line.find_first_not_of('.'), line.size());
                auto t = d > 0 && line[d] == ' ' ? line.substr(d + 1) : line;
                if (t == line) d = 0;
                if (first) { bad = bad || t != "$.assets"; base = d; first = false; continue; }
                if (t.rfind("-> ", 0) == 0) {
                    // below the component of the next smaller indentation
                    while (!at.empty() && at.back().first >= d) at.pop_back();
                    weak.push_back({{"p", path()}, {"to", t.substr(3)}});
                    continue;
                }
                const auto b = t.find(" [");
                if (d <= base || b == std::string::npos || t[0] != '.' || t.back() != ']') { bad = true; continue; }
                while (!at.empty() && at.back().first >= d) at.pop_back();
                at.push_back({d, t.substr(1, b - 1)});
                owned.push_back({{"p", path()}, {"key", t.substr(b + 2, t.size() - b - 3)}});
            }
            e["bad"] = bad || first; e["owned"] = owned; e["shown"] = weak;
        }
        else if (o == "Get") {
            // Arbitrary locator text
            lm::Component* p = nullptr;
            const auto res = vt::attempt([&] { 
                const std::string loc = op["wf"].get<bool>() ? World::abs(op["path"]) : op["text"].get<std::string>();
                const std::string ty = op["ty"];
                if (ty == "A") p = lm::comp::get<NodeA>(loc);
                else if (ty == "B") p = lm::comp::get<NodeB>(loc);
                else if (ty == "G") p = lm::comp::get<lm::AssetGroup>(loc);
                else p = lm::comp::get<lm::Component>(loc);
            });
            e["out"] = std::string(res == "ok" ? "ok" : "throw");
            e["ret"] = p ? (vt::freed(p) ? -1 : w.id(p)) : 0;
        }
        w.observe(e);
        vt::emit(e);
    }
}

vt::Reg reg_("tree", run);
}
