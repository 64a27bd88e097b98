// Digests of what a component does: a hash over the results of its interface on fixed inputs.
#pragma once
#include "vt.h"

namespace vt {
struct Digest {
    unsigned long long h = 1469598103934665603ull;
    long long n = 0;
    void raw(const void* p, size_t k) {
        const auto* c = (const unsigned char*)p;
        for (size_t i = 0; i < k; i++) { h ^= c[i]; h *= 1099511628211ull; }
        n++;
    }
    void operator()(double d) { if (d == 0) d = 0; if (d != d) { raw("nan", 3); return; } raw(&d, sizeof d); }
    void operator()(long long i) { raw(&i, sizeof i); }
    void operator()(int i) { (*this)((long long)i); }
    void operator()(bool b) { (*this)((long long)b); }
    void operator()(const std::string& s) { raw(s.data(), s.size()); (*this)((long long)s.size()); }
    void operator()(const char* s) { (*this)(std::string(s)); }
    void operator()(lm::Vec2 v) { (*this)(double(v.x)); (*this)(double(v.y)); }
    void operator()(lm::Vec3 v) { for (int i = 0; i < 3; i++) (*this)(double(v[i])); }
    void operator()(lm::Vec4 v) { for (int i = 0; i < 4; i++) (*this)(double(v[i])); }
    void operator()(const lm::Mat4& m) { for (int i = 0; i < 4; i++) (*this)(m[i]); }
    void operator()(const lm::PointGeometry& g) {
        (*this)(g.degenerated); (*this)(g.infinite);
        if (g.infinite) (*this)(g.wo);
        else { (*this)(g.p); if (!g.degenerated) { (*this)(g.n); (*this)(g.gn); } }
    }
    template <typename F> void attempt(F&& f) { (*this)(vt::attempt(std::forward<F>(f))); }
    std::string str() const { char b[32]; snprintf(b, sizeof b, "%016llx", h); return b; }
};
std::string digest(lm::Component* c);
std::string digest_film(lm::Film* f);
}
