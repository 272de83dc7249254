// Shared parts of the concrete harness: random cases, failure reporting, small oracles.
#pragma once
#include <vector>
#include <string>
#include <sstream>
#include <iostream>
#include <fstream>
#include <functional>
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <csignal>
#include <unistd.h>
#include <map>
#include <memory>
#include <set>
#include <algorithm>
#include "lib/range.h"
#include "lib/range_set.h"
#include "lib/indexer.h"
#include "lib/indexer_interface.h"
#include "lib/exception.h"
#include "data/datachunk.h"
#include "data/extended_datachunk.h"
#include "data/dataset.h"
#include "data/functions.h"
#include "grid/rectilinear.h"
#include "grid/structured.h"
#include "variable/variable.h"
#include "variable/variable_id.h"
#include "variable/variable_manager.h"
#include "basis/basis.h"
#include "basis/volume_average.h"
typedef std::vector<int> VI;
typedef std::vector<double> VD;
namespace std { template<class T> std::ostream& operator<<(std::ostream& o, const std::vector<T>& v) { o << "{"; for (size_t i = 0; i < v.size(); i++) o << (i ? "," : "") << v[i]; return o << "}"; } }
struct Rng {
    unsigned long long s;
    Rng(unsigned long long x) : s(x * 0x9E3779B97F4A7C15ULL + 0x1234567ULL) { for (int i = 0; i < 4; i++) next(); }
    unsigned long long next() { s ^= s >> 12; s ^= s << 25; s ^= s >> 27; return s * 2685821657736338717ULL; }
    int in(int a, int b) { return a + int((next() >> 33) % (unsigned long long)(b - a + 1)); }
    bool p(int num, int den) { return in(1, den) <= num; }
    double u() { return double(next() >> 11) / 9007199254740992.0; }
    double d(double a, double b) { return a + (b - a) * u(); }
};
extern long g_case; extern unsigned long g_seed; extern long g_nontrivial; extern std::string g_desc; extern const char* g_prop;
struct Note { std::ostringstream o; ~Note() { g_desc += o.str() + "; "; } template<class T> Note& operator<<(const T& t) { o << t; return *this; } };
extern bool g_soft; extern unsigned long long g_digest; struct Soft { std::string what; };
struct Fail { std::ostringstream o; ~Fail() noexcept(false) { if (g_soft) throw Soft{o.str()}; std::printf("FAIL property=%s seed=%lu case=%ld\ninput: %s\nobserved: %s\n", g_prop, g_seed, g_case, g_desc.c_str(), o.str().c_str()); std::fflush(stdout); _exit(3); } template<class T> Fail& operator<<(const T& t) { o << t; return *this; } };
#define NOTE Note()
#define CHECK(c) if (!(c)) Fail() << "line " << __LINE__ << ": " #c " is false: "
extern bool g_nt;
#define NONTRIVIAL() (g_nt = true)
// did f throw a qk::exception? any other exception is a failure
template<class F> bool throws(F f) {
    try { f(); } catch (qk::exception&) { return true; } catch (std::exception& e) { Fail() << "unexpected std::exception " << e.what(); }
    return false;
}
inline bool close(double a, double b, double scale = 0, double rel = 1e-10) {
    if (std::isnan(a) || std::isnan(b)) return std::isnan(a) && std::isnan(b);
    if (a == b) return true;
    double m = std::max(std::max(std::fabs(a), std::fabs(b)), scale);
    return std::fabs(a - b) <= rel * m + 1e-300;
}
struct Box { VI lo, hi; int n() const { return lo.size(); } long vol() const { if (lo.empty()) return 0; long v = 1; for (int i = 0; i < n(); i++) v *= hi[i] - lo[i]; return v; }
    bool empty() const { if (lo.empty()) return true; for (int i = 0; i < n(); i++) if (hi[i] <= lo[i]) return true; return false; }
    bool has(const VI& p) const { for (int i = 0; i < n(); i++) if (p[i] < lo[i] || p[i] >= hi[i]) return false; return true; }
    bool inside(const Box& o) const { if (n() != o.n()) return false; for (int i = 0; i < n(); i++) if (lo[i] < o.lo[i] || hi[i] > o.hi[i]) return false; return true; }
    long lin(const VI& p) const { long l = 0; for (int i = 0; i < n(); i++) l = l * (hi[i] - lo[i]) + (p[i] - lo[i]); return l; } };
inline std::ostream& operator<<(std::ostream& o, const Box& b) { return o << "[" << b.lo << "," << b.hi << ")"; }
inline qk::range mk(const Box& b) { VI l = b.lo, h = b.hi; l.push_back(0); h.push_back(0); return qk::range(b.n(), l.data(), h.data()); }
inline Box box_of(const qk::range& r) { Box b; for (int i = 0; i < r.num_dims(); i++) { b.lo.push_back(r.lower(i)); b.hi.push_back(r.upper(i)); } return b; }
// all points of a box, row-major
inline void points(const Box& b, std::vector<VI>& out) {
    out.clear(); if (b.empty()) return;
    VI p = b.lo;
    for (;;) { out.push_back(p); int i = b.n() - 1; while (i >= 0 && ++p[i] == b.hi[i]) { p[i] = b.lo[i]; i--; } if (i < 0) return; }
}
inline std::vector<VI> points(const Box& b) { std::vector<VI> v; points(b, v); return v; }
inline Box rnd_box(Rng& r, int n, int minlen, int maxlen, int lowmag = 4) { Box b; if (minlen < 1 && maxlen >= 1 && r.p(3, 4)) minlen = 1; for (int i = 0; i < n; i++) { int l = r.in(-lowmag, lowmag); b.lo.push_back(l); b.hi.push_back(l + r.in(minlen, maxlen)); } if (n && maxlen >= 4 && r.p(1, 30)) { int k = r.in(0, n - 1); b.hi[k] = b.lo[k] + (1 << r.in(3, n > 2 ? 6 : 8)) + r.in(-1, 2); } return b; }
inline Box rnd_sub(Rng& r, const Box& s, bool nonempty) { Box b; for (int i = 0; i < s.n(); i++) { int L = s.hi[i] - s.lo[i]; int a = r.in(0, std::max(0, L - (nonempty ? 1 : 0))); int c = r.in(a + (nonempty && L > a ? 1 : 0), std::max(L, a)); if (r.p(1, 3)) { a = 0; c = L; } b.lo.push_back(s.lo[i] + a); b.hi.push_back(s.lo[i] + c); } return b; }
inline void same(const qk::range& r, const Box& b, const char* what) {
    if (r.num_dims() != b.n()) Fail() << what << ": num_dims " << r.num_dims() << " expected " << b.n();
    long st = 1;
    for (int i = b.n() - 1; i >= 0; i--) {
        if (r.lower(i) != b.lo[i] || r.upper(i) != b.hi[i]) Fail() << what << ": bounds of dimension " << i << " are [" << r.lower(i) << "," << r.upper(i) << ") expected [" << b.lo[i] << "," << b.hi[i] << ")";
        if (r.length(i) != b.hi[i] - b.lo[i]) Fail() << what << ": length(" << i << ")=" << r.length(i);
        if (r.stride(i) != st) Fail() << what << ": stride(" << i << ")=" << r.stride(i) << " expected " << st;
        st *= b.hi[i] - b.lo[i];
    }
    if (r.volume() != (b.n() ? st : 0)) Fail() << what << ": volume " << r.volume() << " expected " << (b.n() ? st : 0);
}
// ---- whole-problem fixtures
struct World {
    int m; Box mesh; VD start, width, dx; qk::grid::rectilinear grid; qk::variable::variable_manager vm; Rng& r;
    std::vector<qk::variable::variable_id> ids; std::vector<int> nc;
    World(Rng& r_, int m_, Box mesh_, VD s, VD w) : m(m_), mesh(mesh_), start(s), width(w), grid(mk(mesh_), s.data(), w.data()), vm(grid), r(r_) { for (int i = 0; i < m; i++) dx.push_back(w[i] / double(mesh.hi[i] - mesh.lo[i])); }
    ~World() { if (g_soft) for (auto& kv : vm._variables) for (double x : kv.second->data()[0]._data) { unsigned long long b; std::memcpy(&b, &x, 8); g_digest = (g_digest ^ b) * 1099511628211ULL; } }
    static std::vector<std::string> names(int n) { std::vector<std::string> v; for (int i = 0; i < n; i++) { std::ostringstream o; o << "c" << i; v.push_back(o.str()); } return v; }
    int add(const std::string& n, int comps, bool create = true) { ids.push_back(qk::variable::variable_id(n, names(comps), qk::basis::volume_average())); nc.push_back(comps); if (create) vm.output_variable(ids.back()); return ids.size() - 1; }
    qk::variable::variable& var(int i) { return vm.output_variable(ids[i]); }
    qk::data::extended_datachunk& chunk(int i) { return var(i).data()[0]; }
    Box full(int i) { Box b = mesh; for (int k = 0; k < m; k++) { b.lo[k] -= 2; b.hi[k] += 2; } b.lo.push_back(0); b.hi.push_back(1); b.lo.push_back(0); b.hi.push_back(nc[i]); return b; }
    Box inner(int i) { Box b = mesh; b.lo.push_back(0); b.hi.push_back(1); b.lo.push_back(0); b.hi.push_back(nc[i]); return b; }
    VD snap(int i) { qk::data::extended_datachunk& c = chunk(i); same(c, full(i), "chunk range"); VD v; for (const VI& p : points(full(i))) v.push_back(*c.data(p.data())); return v; }
    void put(int i, const VD& v) { qk::data::extended_datachunk& c = chunk(i); size_t k = 0; for (const VI& p : points(full(i))) *c.data(p.data()) = v[k++]; }
    VD rnd(int i, double a, double b) { VD v(full(i).vol()); for (double& x : v) x = r.d(a, b); put(i, v); return v; }
};
// now and then one dimension is long
inline Box rnd_mesh(Rng& r, int m, int minlen, int maxlen) {
    Box b = rnd_box(r, m, minlen, m == 3 ? std::min(maxlen, minlen + 3) : maxlen, 3);
    if (r.p(1, 300)) { int k = r.in(0, m - 1); b.hi[k] = b.lo[k] + (m == 1 ? r.in(50, 25000) : m == 2 ? r.in(50, 400) : r.in(10, 100)); }
    return b;
}
#define WORLD(W, m, mesh) VD start_, width_; bool dyadic_ = r.p(1, 6); /* binary fractions: cell centres are exact, ties occur */ for (int i_ = 0; i_ < m; i_++) { if (dyadic_) { start_.push_back(r.in(-16, 16) / 8.); width_.push_back((mesh.hi[i_] - mesh.lo[i_]) * 0.25 * (1 << r.in(0, 2))); } else { start_.push_back(r.d(-2, 2)); width_.push_back(r.d(0.5, 3)); } } World W(r, m, mesh, start_, width_); NOTE << "mesh " << mesh << " start " << start_ << " width " << width_;
inline void cmp(const Box& b, const VD& got, const VD& want, const char* what, double rel = 0, double scale = 0) {
    if (got.size() != want.size()) Fail() << what << ": size " << got.size() << " expected " << want.size();
    size_t k = 0;
    for (const VI& p : points(b)) { if (rel == 0 ? !(got[k] == want[k] || (std::isnan(got[k]) && std::isnan(want[k]))) : !close(got[k], want[k], scale, rel)) Fail() << what << " at " << p << ": " << got[k] << " expected " << want[k]; k++; }
}
typedef void (*PropFn)(Rng&);
struct Reg { Reg(const char* n, PropFn f); };
#define PROP(ID) static void prop_##ID(Rng& r); static Reg reg_##ID(#ID, prop_##ID); static void prop_##ID(Rng& r)
