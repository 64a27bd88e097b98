#include <pch.h>
#include "vt.h"
#include <lm/exception.h>
#include <malloc.h>
#include <new>
#include <signal.h>
#include <sys/wait.h>
#include <sys/stat.h>
#include <sys/resource.h>
#include <sys/prctl.h>
#include <unistd.h>
#include <fcntl.h>

// ---------------------------------------------------------------------------------------------
// Allocator: fresh memory holds a fixed pattern, so a member nobody initialised or restored
// never happens to look right; released small blocks hold another pattern and are not reused
// within a session, so a use after release is a deterministic fault or a wrong value.
namespace {
std::atomic<long long> g_live{0};
std::atomic<bool> g_track{false};
std::mutex* g_mx = nullptr;
std::unordered_set<const void*>* g_freed = nullptr;
thread_local bool t_in = false;
constexpr size_t SmallMax = 8192;
constexpr size_t KeptMax = 400u << 20;         // released blocks are kept up to this total
std::atomic<size_t> g_kept{0};
std::atomic<bool> g_reuse{false};

void* vt_alloc(size_t n, size_t al) {
    if (n == 0) n = 1;
    void* p = al > 16 ? aligned_alloc(al, (n + al - 1) / al * al) : malloc(n);
    if (!p) throw std::bad_alloc();
    if (g_track) {
        memset(p, 0xCB, malloc_usable_size(p));
        g_live++;
        if (g_reuse && g_freed && !t_in) {
            t_in = true;
            { std::lock_guard<std::mutex> l(*g_mx); g_freed->erase(p); }
            t_in = false;
        }
    }
    return p;
}
void vt_free(void* p) noexcept {
    if (!p) return;
    if (!g_track) { free(p); return; }
    const size_t n = malloc_usable_size(p);
    memset(p, 0xEE, n);
    g_live--;
    if (t_in) { free(p); return; }      // the tracker's own node
    if (g_kept > KeptMax) { g_reuse = true; free(p); return; }
    t_in = true;
    { std::lock_guard<std::mutex> l(*g_mx); g_freed->insert(p); }
    t_in = false;
    if (n > SmallMax) { g_reuse = true; free(p); } else g_kept += n + 64;
}
}
void* operator new(size_t n) { return vt_alloc(n, 0); }
void* operator new[](size_t n) { return vt_alloc(n, 0); }
void* operator new(size_t n, std::align_val_t a) { return vt_alloc(n, size_t(a)); }
void* operator new[](size_t n, std::align_val_t a) { return vt_alloc(n, size_t(a)); }
void operator delete(void* p) noexcept { vt_free(p); }
void operator delete[](void* p) noexcept { vt_free(p); }
void operator delete(void* p, size_t) noexcept { vt_free(p); }
void operator delete[](void* p, size_t) noexcept { vt_free(p); }
void operator delete(void* p, std::align_val_t) noexcept { vt_free(p); }
void operator delete[](void* p, std::align_val_t) noexcept { vt_free(p); }
void operator delete(void* p, size_t, std::align_val_t) noexcept { vt_free(p); }
void operator delete[](void* p, size_t, std::align_val_t) noexcept { vt_free(p); }

namespace vt {
static std::map<std::string, Suite>& suites() { static std::map<std::string, Suite> m; return m; }
Reg::Reg(const char* name, Suite s) { suites()[name] = std::move(s); }

static int g_fd = -1;
static std::string g_scratch;
static std::mutex g_emit;

void emit(const Json& e) {
    std::lock_guard<std::mutex> l(g_emit);
    const auto s = e.dump(-1, ' ', true, Json::error_handler_t::replace) + "\n";
    size_t o = 0;
    while (o < s.size()) {
        const auto k = ::write(g_fd, s.data() + o, s.size() - o);
        if (k <= 0) _exit(97);
        o += size_t(k);
    }
}
bool freed(const void* p) {
    if (!g_freed) return false;
    std::lock_guard<std::mutex> l(*g_mx);
    return g_freed->count(p) > 0;
}
long long live_blocks() { return g_live; }
std::string scratch() { return g_scratch; }
std::string hexd(double d) { char b[64]; snprintf(b, sizeof b, "%a", d); return b; }

std::string current_exception_class() {
    try { throw; }
    catch (const lm::Exception& e) {
        const std::string w = e.what();
        const auto i = w.rfind("[err='");
        if (i == std::string::npos) return "lm:?";
        const auto k = w.find("'", i + 6);
        auto c = w.substr(i + 6, k - i - 6);
        if (c.rfind("InvalidArg", 0) == 0) c = "InvalidArgument";
        return "lm:" + c;
    }
    catch (const std::exception&) { return "std"; }
    catch (...) { return "other"; }
}
}

static void mkdirs(const std::string& d) { ::mkdir(d.c_str(), 0755); }
static void rmtree(const std::string& d) {
    // Only ever called on directories this process created under VT_SCRATCH.
    std::error_code ec;
    fs::remove_all(d, ec);
}

int main(int argc, char** argv) {
    if (argc < 6) { fprintf(stderr, "usage: drive SUITE IN OUT JOBS TIMEOUT\n"); return 2; }
    const std::string suite = argv[1], in = argv[2], out = argv[3];
    const int jobs = atoi(argv[4]), timeout = atoi(argv[5]);
    const char* base = getenv("VT_SCRATCH");
    if (!base) return 2;
    auto it = vt::suites().find(suite);
    if (it == vt::suites().end()) { fprintf(stderr, "no suite %s\n", suite.c_str()); return 2; }
    std::vector<std::string> lines;
    { std::ifstream f(in); std::string s; while (std::getline(f, s)) if (!s.empty()) lines.push_back(s); }

    std::vector<pid_t> workers;
    for (int w = 0; w < jobs; w++) {
        const pid_t wp = fork();
        if (wp < 0) return 3;
        if (wp > 0) { workers.push_back(wp); continue; }
        // Worker: one child per session
        prctl(PR_SET_PDEATHSIG, SIGKILL);
        std::ofstream of(out + "." + std::to_string(w));
        for (size_t i = size_t(w); i < lines.size(); i += size_t(jobs)) {
            const auto session = vt::Json::parse(lines[i]);
            const std::string sd = std::string(base) + "/s" + std::to_string(i);
            int p[2];
            if (pipe(p) != 0) _exit(4);
            const pid_t c = fork();
            if (c < 0) _exit(5);
            if (c == 0) {
                prctl(PR_SET_PDEATHSIG, SIGKILL);
                close(p[0]);
                vt::g_fd = p[1];
                vt::g_scratch = sd;
                mkdirs(sd);
                if (chdir(sd.c_str()) != 0) _exit(6);
                const int nul = open("/dev/null", O_RDWR);
                dup2(nul, 0); dup2(nul, 1); dup2(nul, 2);
                g_mx = new std::mutex;
                g_freed = new std::unordered_set<const void*>;
                g_freed->reserve(1 << 16);
                { const rlimit lim{ 3900u * (rlim_t(1) << 20), 3900u * (rlim_t(1) << 20) }; setrlimit(RLIMIT_AS, &lim); }    // running away ends the session, not the machine
                alarm(unsigned(timeout));
                g_track = true;
                int rc = 0;
                try { it->second(session); }
                catch (const std::exception& e) { rc = 9; vt::emit({{"op", "HarnessError"}, {"what", std::string(e.what()).substr(0, 300)}}); }
                catch (...) { rc = 9; vt::emit({{"op", "HarnessError"}, {"what", "?"}}); }
                _exit(rc);
            }
            close(p[1]);
            std::string buf;
            char tmp[65536];
            ssize_t k;
            while ((k = read(p[0], tmp, sizeof tmp)) > 0) buf.append(tmp, size_t(k));
            close(p[0]);
            int st = 0;
            waitpid(c, &st, 0);
            vt::Json ev = vt::Json::array();
            std::stringstream ss(buf);
            std::string ln;
            while (std::getline(ss, ln)) if (!ln.empty()) {
                auto j = vt::Json::parse(ln, nullptr, false);
                if (!j.is_discarded()) ev.push_back(std::move(j));
            }
            if (WIFSIGNALED(st)) {
                ev.push_back({{"op", std::string(WTERMSIG(st) == SIGALRM ? "Hang" : "Crash")}, {"sig", WTERMSIG(st)}});
            }
            else if (WEXITSTATUS(st) != 0 && WEXITSTATUS(st) != 9) {
                ev.push_back({{"op", "Exit"}, {"rc", WEXITSTATUS(st)}});
            }
            vt::Json o{{"id", session["id"]}, {"ev", ev}};
            if (session.contains("cfg")) o["cfg"] = session["cfg"];
            of << o.dump(-1, ' ', true, vt::Json::error_handler_t::replace) << "\n";
            rmtree(sd);
        }
        of.close();
        _exit(0);
    }
    int bad = 0;
    for (auto p : workers) { int st; waitpid(p, &st, 0); if (!WIFEXITED(st) || WEXITSTATUS(st) != 0) bad++; }
    return bad ? 7 : 0;
}
