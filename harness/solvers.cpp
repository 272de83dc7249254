// C08-C14, C20, C21, C26: boundary conditions, integrators, right-hand sides, initial conditions
#include "common.h"
#include "solver/solver.h"
#include "solver/bc_periodic.h"
#include "solver/bc_conducting_wall.h"
#undef _qk_solver_bc_copy_out_H
#include "solver/bc_copy_out.h"
#undef _qk_solver_bc_copy_out_H
#include "solver/bc_free_slip.h"
#undef _qk_solver_bc_copy_out_H
#include "solver/bc_no_slip.h"
#include "solver/rk1.h"
#include "solver/ssprk3.h"
#include "solver/ssprk2_advection.h"
#include "solver/euler.h"
#include "solver/maxwell.h"
#include "solver/lorentz_force.h"
#include "solver/current_source.h"
#include "solver/fill.h"
#include "solver/swap.h"
#include "solver/print.h"
#include "solver/gaussian.h"
#include "solver/shock_tube.h"
#include "solver/radial_shock_tube.h"
#include "solver/magnetic_pulse.h"
#include "solver/electromagnetic_wave_1D.h"
#include "solver/brio_wu_shock_tube.h"
#include "solver/gem_challenge.h"
using namespace qk::solver;
struct Snap { World& w; std::vector<VD> v; Snap(World& w_) : w(w_) { for (size_t i = 0; i < w.ids.size(); i++) v.push_back(w.snap(i)); } };
static VI rnd_dims(Rng& r, int m) { VI d; if (r.p(1, 2)) { for (int i = 0; i < m; i++) d.push_back(i); for (int i = m - 1; i > 0; i--) std::swap(d[i], d[r.in(0, i)]); if (r.p(1, 3)) d.resize(r.in(0, m)); } else for (int k = r.in(0, 3); k > 0; k--) d.push_back(r.in(0, m - 1)); return d; }
template<class BC> static void bc(Rng& r, int kind, const char* name) {
    int m = r.in(1, 3); Box mesh = rnd_mesh(r, m, 2, 6); WORLD(W, m, mesh); NOTE << name;
    int nv = r.in(1, 3); VI order;
    for (int i = 0; i < nv; i++) { std::ostringstream o; o << "v" << i; int comps = kind == 3 ? r.in(4, 8) : r.in(4, 6); if (kind == 0 || kind == 4) comps = r.in(1, 6); W.add(o.str(), comps); W.rnd(i, -5, 5); order.push_back(i); }
    VI dims = rnd_dims(r, m); NOTE << "dims " << dims; Snap s(W); BC b; b.setup(dims);
    int listed = r.in(nv > 1 ? 1 : 0, nv); NOTE << "variables listed " << listed;
    for (int i = 0; i < listed; i++) b.add_output_variable(W.ids[i]);
    b.solve(W.vm, r.in(0, 2));
    for (int v = 0; v < nv; v++) {
        VD want = s.v[v]; Box f = W.full(v), in = W.inner(v);
        if (v < listed) for (int d : dims) for (const VI& p : points(f)) {
            bool ghost = p[d] < in.lo[d] || p[d] >= in.hi[d]; if (!ghost) continue;
            bool other = false; for (int k = 0; k < m; k++) if (k != d && (p[k] < in.lo[k] || p[k] >= in.hi[k])) other = true; if (other) continue;
            VI q = p; int L = in.hi[d] - in.lo[d]; double sg = 1;
            if (kind == 0) q[d] += p[d] < in.lo[d] ? L : -L;
            else { q[d] = p[d] < in.lo[d] ? 2 * in.lo[d] - 1 - p[d] : 2 * in.hi[d] - 1 - p[d]; int c = p[m + 1]; if (kind == 1 && c >= 1 && c <= 3) sg = -1; if (kind == 2 && c == d + 1) sg = -1; if (kind == 3 && c <= 3) sg = -1; }
            want[f.lin(p)] = sg * s.v[v][f.lin(q)];
        }
        cmp(f, W.snap(v), want, v < listed ? "listed variable" : "other variable");
    }
    if (listed && !dims.empty()) NONTRIVIAL();
}
PROP(C08) { bc<bc_periodic>(r, 0, "periodic"); }
PROP(C09) { switch (r.in(0, 3)) { case 0: bc<bc_copy_out>(r, 4, "copy_out"); break; case 1: bc<bc_no_slip>(r, 1, "no_slip"); break; case 2: bc<bc_free_slip>(r, 2, "free_slip"); break; default: bc<bc_conducting_wall>(r, 3, "conducting_wall"); } }
PROP(C10) {
    int m = r.in(1, 3); Box mesh = rnd_mesh(r, m, 1, 6); WORLD(W, m, mesh); int nc = r.in(1, 8);
    for (const char* n : {"q0", "rhs", "q1", "q2", "q3", "extra"}) { int i = W.add(n, nc); W.rnd(i, -5, 5); }
    double dt = r.p(1, 8) ? 0. : r.d(-1, 1); W.vm.set_dt(dt); W.vm.set_time(r.d(0, 9)); Snap s(W); Box f = W.full(0);
    bool one = r.p(1, 3); int tag = r.p(1, 6) ? r.in(-2, 9) : r.in(0, one ? 0 : 2); NOTE << (one ? "rk1" : "ssprk3") << " stage " << tag << " components " << nc << " dt " << dt;
    rk1 a; ssprk3 b; solver& S = one ? (solver&)a : (solver&)b;
    S.add_input_variable(W.ids[0]); S.add_input_variable(W.ids[1]); S.add_output_variable(W.ids[2]); if (!one || r.p(1, 3)) { S.add_output_variable(W.ids[3]); S.add_output_variable(W.ids[4]); if (r.p(1, 4)) S.add_output_variable(W.ids[5]); }
    S.solve(W.vm, tag);
    std::vector<VD> want = s.v; const VD &q0 = s.v[0], &R = s.v[1], &q1 = s.v[2], &q2 = s.v[3];
    for (size_t i = 0; i < q0.size(); i++) { if (tag == 0) want[2][i] = q0[i] + dt * R[i]; if (!one && tag == 1) want[3][i] = 0.75 * q0[i] + 0.25 * q1[i] + 0.25 * dt * R[i]; if (!one && tag == 2) want[4][i] = q0[i] / 3. + 2. / 3. * (q2[i] + dt * R[i]); }
    for (int v = 0; v < 6; v++) { bool out = (tag == 0 && v == 2) || (!one && ((tag == 1 && v == 3) || (tag == 2 && v == 4))); cmp(f, W.snap(v), want[v], W.ids[v].name().c_str(), out ? 1e-13 : 0, 10); }
    CHECK(a.num_stages() == 1 && b.num_stages() == 3) << "";
    NONTRIVIAL();
}
// ---- flux oracles. q(c): value of component c at offset from a face; states l, r
static double lim_l(double qn, double qc, double qp) { double R = (qp - qc) / (qc - qn + 1e-12); return qc + 0.5 * ((R * R + R) / (R * R + 1)) * (qc - qn); }
static double lim_r(double qc, double qp, double qpp) { double R = (qp - qc) / (qpp - qp + 1e-12); return qp - 0.5 * ((R * R + R) / (R * R + 1)) * (qpp - qp); }
typedef std::function<void(const VD& l, const VD& r, int dim, VD& F)> Flux;
static void fv(World& W, int qi, int ri, const VD& q, VD& want, VD& scale, Flux flux) {
    Box f = W.full(qi), in = W.inner(qi); int m = W.m, nc = W.nc[qi];
    Box cells = in; cells.hi[m + 1] = 1;
    for (int d = 0; d < m; d++) for (const VI& p : points(cells)) {
        VD F[2];
        for (int side = 0; side < 2; side++) { // face below cell p[d]+side
            VD l(nc), R(nc); for (int c = 0; c < nc; c++) { VI x = p; x[m + 1] = c; double v[4]; for (int k = 0; k < 4; k++) { x[d] = p[d] + side - 2 + k; v[k] = q[f.lin(x)]; } l[c] = lim_l(v[0], v[1], v[2]); R[c] = lim_r(v[1], v[2], v[3]); }
            F[side].resize(nc); flux(l, R, d, F[side]);
        }
        for (int c = 0; c < nc; c++) { VI x = p; x[m + 1] = c; want[f.lin(x)] += (F[0][c] - F[1][c]) / W.dx[d]; scale[f.lin(x)] += (std::fabs(F[0][c]) + std::fabs(F[1][c])) / W.dx[d]; }
    }
}
static void hll(double g, const VD& l, const VD& r, int dim, VD& F) {
    auto P = [&](const VD& q) { return (g - 1) * (q[4] - 0.5 * (q[1] * q[1] + q[2] * q[2] + q[3] * q[3]) / q[0]); };
    double Pl = P(l), Pr = P(r), ul = l[dim + 1] / l[0], ur = r[dim + 1] / r[0], sl = ul - std::sqrt(g * Pl / l[0]), sr = ur + std::sqrt(g * Pr / r[0]);
    auto phys = [&](const VD& q, double p, double u, VD& f) { f.resize(5); for (int j = 0; j < 5; j++) f[j] = q[j] * u; f[0] = q[dim + 1]; f[4] = (q[4] + p) * u; f[dim + 1] += p; };
    VD fl, fr; phys(l, Pl, ul, fl); phys(r, Pr, ur, fr);
    for (int j = 0; j < 5; j++) { double h = (sr * fl[j] - sl * fr[j] + sl * sr * (r[j] - l[j])) / (sr - sl); F[j] = sl > 0 ? fl[j] : sr < 0 ? fr[j] : h; if (std::isnan(sl) || std::isnan(sr)) F[j] = NAN; if (sl > 0 && sr < 0) F[j] = NAN; }
}
static void fv_cmp(World& W, int v, const VD& got, const VD& want, const VD& scale, const VD& old, bool uniform, double amp = 1.) {
    Box f = W.full(v), in = W.inner(v); size_t k = 0;
    for (const VI& p : points(f)) { if (in.has(p)) { if (uniform) CHECK(close(got[k], old[k], scale[k] + amp, 1e-14)) << "uniform state changed the right-hand side at " << p << ": " << got[k] << " from " << old[k]; if (!std::isnan(want[k]) && !close(got[k], want[k], scale[k] + amp, 1e-9)) Fail() << "right-hand side at " << p << ": " << got[k] << " expected " << want[k]; } k++; }
}
PROP(C11) {
    int m = r.in(1, 3); Box mesh = rnd_mesh(r, m, 1, 6); if (r.p(1, 5)) mesh = rnd_mesh(r, m, 4, 9); WORLD(W, m, mesh); W.add("q", 5); W.add("rhs", 5); W.add("other", 5); W.rnd(1, -2, 2); W.rnd(2, -2, 2); Box f = W.full(0); VD q(f.vol());
    int mode = r.in(0, 5); double gamma = r.d(1.1, 2.2), mach = mode == 1 || mode == 5 ? 6 : 0.5; bool strong = mode >= 4; NOTE << "euler mode " << mode << " gamma " << gamma; std::vector<VI> P = points(f); VD base; for (int i = 0; i < 5; i++) base.push_back(r.d(-1, 1) * mach);
    for (size_t k = 0; k < P.size(); k += 5) { double rho = 1 + (mode == 2 ? 0 : r.d(-.3, .3)), u[3], pr = 1 + (mode == 2 ? 0 : r.d(-.3, .3)); for (int i = 0; i < 3; i++) u[i] = base[i] + (mode == 2 ? 0 : r.d(-.2, .2)); if (mode == 3 && r.p(1, 2)) { rho = 1; pr = 1; } if (strong) { rho = r.d(.2, 3); pr = r.d(.2, 4); for (int i = 0; i < 3; i++) u[i] = r.p(1, 4) ? 0. : mach / 4 * r.d(-1, 1) + base[i]; }
        q[k] = rho; for (int i = 0; i < 3; i++) q[k + 1 + i] = rho * u[i]; q[k + 4] = pr / (gamma - 1) + 0.5 * rho * (u[0] * u[0] + u[1] * u[1] + u[2] * u[2]); if (mode == 2 && k) for (int j = 0; j < 5; j++) q[k + j] = q[j]; }
    W.put(0, q); W.vm.set_dt(r.d(0, 1)); Snap s(W); euler S; S.setup(gamma); S.add_input_variable(W.ids[0]); S.add_output_variable(W.ids[1]); S.solve(W.vm, 0);
    VD want = s.v[1], scale(want.size(), 0.); fv(W, 0, 1, q, want, scale, [&](const VD& l, const VD& R, int d, VD& F) { hll(gamma, l, R, d, F); });
    fv_cmp(W, 1, W.snap(1), want, scale, s.v[1], false); if (mode == 2) fv_cmp(W, 1, W.snap(1), want, scale, s.v[1], true); cmp(f, W.snap(0), s.v[0], "input field"); cmp(f, W.snap(2), s.v[2], "other variable"); NONTRIVIAL();
}
PROP(C12) {
    int m = r.in(1, 3); Box mesh = rnd_mesh(r, m, 1, 6); if (r.p(1, 5)) mesh = rnd_mesh(r, m, 4, 9); WORLD(W, m, mesh); W.add("q", 6); W.add("rhs", 6); W.add("other", 6); double amp = r.p(1, 6) ? std::pow(10., r.in(-9, 6)) : 1.; NOTE << "amplitude " << amp; W.rnd(1, -2 * amp, 2 * amp); W.rnd(2, -2, 2); Box f = W.full(0); double c = r.d(-3, 3); bool uni = r.p(1, 5); NOTE << "maxwell c " << c << (uni ? " uniform" : ""); VD q = W.rnd(0, -3 * amp, 3 * amp);
    if (uni) { for (size_t k = 0; k < q.size(); k++) q[k] = q[k % 6]; W.put(0, q); }
    Snap s(W); maxwell S; S.setup(c); S.add_input_variable(W.ids[0]); S.add_output_variable(W.ids[1]); S.solve(W.vm, 0);
    VD want = s.v[1], scale(want.size(), 0.);
    fv(W, 0, 1, q, want, scale, [&](const VD& l, const VD& R, int d, VD& F) {
        VD a(6); for (int j = 0; j < 6; j++) a[j] = 0.5 * (l[j] + R[j]); int e1 = (d + 1) % 3, e2 = (d + 2) % 3;
        F[d] = F[3 + d] = 0; F[e1] = c * c * a[3 + e2]; F[e2] = -c * c * a[3 + e1]; F[3 + e1] = -a[e2]; F[3 + e2] = a[e1];
        for (int j : {e1, e2, 3 + e1, 3 + e2}) F[j] -= 0.5 * std::fabs(c) * (R[j] - l[j]); });
    fv_cmp(W, 1, W.snap(1), want, scale, s.v[1], uni, amp); cmp(f, W.snap(0), s.v[0], "input field"); cmp(f, W.snap(2), s.v[2], "other variable"); NONTRIVIAL();
}
PROP(C13) {
    int m = r.in(1, 3); Box mesh = rnd_mesh(r, m, 1, 6); WORLD(W, m, mesh); bool lor = r.p(1, 2); NOTE << (lor ? "lorentz" : "current");
    int nf = lor ? 1 : r.in(0, 3); for (int i = 0; i < nf; i++) { std::ostringstream o; o << "f" << i; W.add(o.str(), 5); } int field = W.add("field", 6), frhs = W.add("frhs", 5), erhs = W.add("erhs", 6), other = W.add("other", 5); for (size_t i = 0; i < W.ids.size(); i++) { VD v = W.rnd(i, -3, 3); int how = r.in(0, 3); if (how) { int co = r.in(0, 5), nc = W.nc[i]; for (size_t k = 0; k < v.size(); k++) { if (how == 1 && r.p(1, 2)) v[k] = 0; if (how == 2 && int(k) % nc == co) v[k] = 0; if (how == 3) v[k] = std::floor(v[k]); } W.put(i, v); } }
    Snap s(W); std::vector<VD> want = s.v; Box cells = W.inner(field); cells.hi[m + 1] = 1; auto at = [&](int v, VI p, int c) { p[m + 1] = c; return W.full(v).lin(p); };
    int out = lor ? frhs : erhs;
    if (lor) { double q = r.d(-2, 2), ma = r.d(.1, 2); lorentz_force S; S.setup(q, ma); S.add_input_variable(W.ids[0]); S.add_input_variable(W.ids[field]); S.add_output_variable(W.ids[frhs]); S.solve(W.vm, 0);
        for (const VI& p : points(cells)) { double E[3], B[3], P[3], rho = s.v[0][at(0, p, 0)]; for (int k = 0; k < 3; k++) { E[k] = s.v[field][at(field, p, k)]; B[k] = s.v[field][at(field, p, 3 + k)]; P[k] = s.v[0][at(0, p, 1 + k)]; } double dot = 0; for (int k = 0; k < 3; k++) { int a = (k + 1) % 3, b = (k + 2) % 3; want[frhs][at(frhs, p, 1 + k)] += q / ma * (rho * E[k] + P[a] * B[b] - P[b] * B[a]); dot += P[k] * E[k]; } want[frhs][at(frhs, p, 4)] += q / ma * dot; }
    } else { double eps = r.d(.2, 3); VD q, ma; current_source S; for (int i = 0; i < nf; i++) { q.push_back(r.d(-2, 2)); ma.push_back(r.d(.1, 2)); S.add_input_variable(W.ids[i]); } if (r.p(1, 3)) S.setup(1., ma, ma); CHECK(throws([&] { VD x = ma; x.push_back(1); S.setup(eps, q, x); })) << "unequal lengths accepted"; S.setup(eps, q, ma); S.add_output_variable(W.ids[erhs]); S.solve(W.vm, 0);
        for (int i = 0; i < nf; i++) for (const VI& p : points(cells)) for (int k = 0; k < 3; k++) want[erhs][at(erhs, p, k)] -= q[i] / ma[i] / eps * s.v[i][at(i, p, 1 + k)]; }
    for (size_t v = 0; v < W.ids.size(); v++) cmp(W.full(v), W.snap(v), want[v], W.ids[v].name().c_str(), (int)v == out ? 1e-11 : 0, (int)v == out ? 10 : 0);
    { Box f = W.full(out), in = W.inner(out); VD g = W.snap(out); size_t k = 0; for (const VI& p : points(f)) { if (!in.has(p) || (lor && p[m + 1] == 0) || (!lor && p[m + 1] >= 3)) CHECK(g[k] == s.v[out][k]) << "changed at " << p; k++; } }
    (void)other; NONTRIVIAL();
}
PROP(C14) {
    int m = r.in(1, 3); Box mesh = rnd_mesh(r, m, 1, 7); WORLD(W, m, mesh); int nc = r.in(1, 3); double amp = r.p(1, 6) ? std::pow(10., r.in(-14, 6)) : 1.; NOTE << "amplitude " << amp; for (const char* n : {"n0", "n1", "n2", "other"}) { int i = W.add(n, nc); VD v = W.rnd(i, -2, 2); bool fl = r.p(1, 3); for (double& x : v) x = (fl ? std::floor(x) : x) * amp; W.put(i, v); }
    VD vel; for (int i = 0; i < m; i++) vel.push_back(r.p(1, 8) ? 0. : r.d(-2, 2)); if (r.p(1, 4)) for (int i = 1; i < m; i++) vel[i] = vel[r.in(0, i - 1)] * (r.p(1, 3) ? -1 : 1); double dt = r.d(0, .5); int tag = r.p(1, 8) ? r.in(-1, 4) : r.in(0, 1); NOTE << "advection stage " << tag << " velocity " << vel << " dt " << dt << " components " << nc;
    W.vm.set_dt(dt); W.vm.set_time(0); Snap s(W); ssprk2_advection S; S.setup(vel); S.add_input_variable(W.ids[0]); S.add_output_variable(W.ids[1]); S.add_output_variable(W.ids[2]); S.solve(W.vm, tag);
    Box f = W.full(0), in = W.inner(0); const VD& a = tag == 1 ? s.v[1] : s.v[0]; double h = tag == 1 ? 0.5 * dt : dt;
    if (tag == 0 || tag == 1) { VD got = W.snap(tag == 0 ? 1 : 2); for (const VI& p : points(in)) { double want = tag == 0 ? s.v[0][f.lin(p)] : 0.5 * (s.v[0][f.lin(p)] + s.v[1][f.lin(p)]);
        for (int d = 0; d < m; d++) { int dir = vel[d] > 0 ? 1 : -1; double co = std::fabs(h * vel[d] / W.dx[d]);
            auto A = [&](int k) { VI x = p; x[d] += k * dir; return a[f.lin(x)]; };
            auto flux = [&](int k) { double vp = A(k), vc = A(k - 1), vn = A(k - 2); double R = vp != vc ? (vc - vn) / (vp - vc) : 1.; return co * (vc + 0.25 * (R * (R + 1) / (R * R + 1)) * (vp - vn)); };
            want += flux(0) - flux(1); }
        CHECK(close(got[f.lin(p)], want, 10 * amp, 1e-11)) << "stage " << tag << " at " << p << ": " << got[f.lin(p)] << " expected " << want; } }
    cmp(f, W.snap(0), s.v[0], "input n0"); cmp(f, W.snap(3), s.v[3], "other"); if (tag != 0) cmp(f, W.snap(1), s.v[1], "n1"); if (tag != 1) cmp(f, W.snap(2), s.v[2], "n2"); NONTRIVIAL();
}
PROP(C26) {
    int m = r.in(1, 3); Box mesh = rnd_mesh(r, m, 1, 5); WORLD(W, m, mesh); int nc = r.in(1, 6); int nv = r.in(1, 6); for (int i = 0; i < nv; i++) { std::ostringstream o; o << "v" << i; W.add(o.str(), nc, r.p(5, 6)); } Box f = W.full(0);
    std::vector<VD> v(nv); for (int i = 0; i < nv; i++) if (W.vm._variables.count(W.ids[i])) v[i] = W.rnd(i, -4, 4); else v[i] = VD(f.vol(), 0.);
    for (int rep = r.in(1, 2); rep > 0; rep--) {
        if (r.p(1, 2)) { fill S; double x = r.d(-3, 3); int k = r.in(0, nv); NOTE << "fill " << k << " of " << nv; bool def = r.p(1, 8); if (!def) S.setup(x); else x = 0; for (int i = 0; i < k; i++) S.add_output_variable(W.ids[i]); S.solve(W.vm, 0); for (int i = 0; i < k; i++) std::fill(v[i].begin(), v[i].end(), x); if (k) NONTRIVIAL(); }
        else { qk::solver::swap S; int pairs = r.in(0, nv / 2); VI o; for (int i = 0; i < nv; i++) o.push_back(i); for (int i = nv - 1; i > 0; i--) std::swap(o[i], o[r.in(0, i)]); if (nv > 1 && r.p(1, 2)) { pairs = r.in(1, r.p(1, 8) ? 60 : 5); o.clear(); for (int i = 0; i < pairs; i++) { int a = r.in(0, nv - 1), b = r.in(0, nv - 2); o.push_back(a); o.push_back(b + (b >= a)); } } NOTE << "swap " << pairs << " pairs of " << o; for (int i = 0; i < 2 * pairs; i++) S.add_output_variable(W.ids[o[i]]); int times = r.in(1, 2); for (int t = 0; t < times; t++) { S.solve(W.vm, 0); for (int i = 0; i < pairs; i++) std::swap(v[o[2 * i]], v[o[2 * i + 1]]); } if (pairs) NONTRIVIAL(); }
        for (int i = 0; i < nv; i++) cmp(f, W.snap(i), v[i], W.ids[i].name().c_str());
    }
}
PROP(C20) {
    int m = r.in(1, 2); Box mesh = rnd_mesh(r, m, 2, 4); WORLD(W, m, mesh); int ni = r.in(0, 4), no = r.in(0, 5); int which = r.in(0, 12); const char* nm[] = {"ssprk2_advection", "rk1", "ssprk3", "euler", "maxwell", "lorentz", "current", "swap", "brio_wu", "gem", "fill", "gaussian", "bc_periodic"};
    int ic = which == 4 ? 6 : 5, oc = which == 4 || which == 6 ? 6 : 5;
    ssprk2_advection s0; s0.setup(VD(m, 1.)); rk1 s1; ssprk3 s2; euler s3; s3.setup(1.4); maxwell s4; lorentz_force s5; s5.setup(1, 2); current_source s6; int nfl = r.in(0, 3); VD one(nfl, 1.); s6.setup(1., one, one); qk::solver::swap s7; brio_wu_shock_tube s8; gem_challenge s9; s9.setup(1, 2, 3, 4, 1.4, -1, 1, 1, 1, 1, 1, 1, 1, 1); fill s10; gaussian s11; s11.setup(1., VD(m, 0.), 1.); bc_periodic s12; s12.setup(VI(1, 0));
    solver* S[] = {&s0, &s1, &s2, &s3, &s4, &s5, &s6, &s7, &s8, &s9, &s10, &s11, &s12};
    bool bad; switch (which) { case 0: bad = ni != 1 || no != 2; break; case 1: bad = ni != 2 || no < 1; break; case 2: bad = ni != 2 || no < 3; break; case 3: case 4: bad = ni != 1 || no != 1; break; case 5: bad = ni != 2 || no != 1; break; case 6: bad = ni != nfl || no != 1; break; case 7: bad = no % 2 != 0; break; case 8: case 9: bad = no != 3; break; default: bad = false; }
    if (r.p(1, 2)) { switch (which) { case 0: ni = 1; no = 2; break; case 1: ni = 2; no = 1; break; case 2: ni = 2; no = 3; break; case 3: case 4: ni = no = 1; break; case 5: ni = 2; no = 1; break; case 6: ni = nfl; no = 1; break; case 7: no = 4; break; case 8: case 9: no = 3; } bad = false; if (r.p(1, 2)) { if (r.p(1, 2)) ni = 1 + ni; else no = no > 0 && r.p(1, 2) ? no - 1 : no + 1; switch (which) { case 0: bad = ni != 1 || no != 2; break; case 1: bad = ni != 2 || no < 1; break; case 2: bad = ni != 2 || no < 3; break; case 3: case 4: bad = ni != 1 || no != 1; break; case 5: bad = ni != 2 || no != 1; break; case 6: bad = ni != nfl || no != 1; break; case 7: bad = no % 2 != 0; break; case 8: case 9: bad = no != 3; break; } } }
    NOTE << nm[which] << " inputs " << ni << " outputs " << no << " fluids " << nfl;
    bool existing = !bad || r.p(1, 2);
    for (int i = 0; i < ni; i++) { std::ostringstream o; o << "in" << i; int c = which == 5 && i == 1 ? 6 : ic; int v = W.add(o.str(), c, existing); S[which]->add_input_variable(W.ids[v]); }
    for (int i = 0; i < no; i++) { std::ostringstream o; o << "out" << i; int c = (which == 8 || which == 9) && i == 2 ? 6 : oc; int v = W.add(o.str(), c, existing && r.p(1, 2)); S[which]->add_output_variable(W.ids[v]); }
    size_t before = W.vm._variables.size(); std::map<std::string, VD> old; for (auto& kv : W.vm._variables) { for (double& x : kv.second->data()[0]._data) x = r.d(1, 2); old[kv.first.name()] = kv.second->data()[0]._data; } W.vm.set_dt(.1); W.vm.set_time(0);
    bool t = throws([&] { S[which]->solve(W.vm, 0); }); CHECK(t == bad) << nm[which] << (t ? " threw" : " did not throw");
    if (bad) { CHECK(W.vm._variables.size() == before) << "created a variable before throwing"; for (auto& kv : W.vm._variables) CHECK(kv.second->data()[0]._data == old[kv.first.name()]) << "changed " << kv.first.name() << " before throwing"; }
    NONTRIVIAL();
}
PROP(C21) {
    int m = r.in(1, 3); Box mesh = rnd_mesh(r, m, 1, 6); WORLD(W, m, mesh); int which = r.in(0, 6); Snap* none = 0; (void)none;
    auto X = [&](const VI& p, int d) { return d < m ? W.start[d] + (p[d] + 0.5) * W.dx[d] : 0.; };
    auto check = [&](int v, std::function<double(const VI&, int)> f) { VD got = W.snap(v); Box b = W.full(v); size_t k = 0; for (const VI& p : points(b)) { double w = f(p, p[m + 1]); CHECK(w == 0. ? got[k] == 0. : close(got[k], w, 0, 1e-9) || std::fabs(got[k] - w) < 1e-200) << W.ids[v].name() << " at " << p << ": " << got[k] << " expected " << w; k++; } };
    auto inner = [&](const VI& p) { for (int i = 0; i < m; i++) if (p[i] < mesh.lo[i] || p[i] >= mesh.hi[i]) return false; return true; };
    int other = W.add("other", 5); VD ov = W.rnd(other, -3, 3);
    NOTE << "initial condition " << which;
    auto vars = [&](solver& S, std::vector<int> comps) { VI v; int k = 0; for (int c : comps) { std::ostringstream o; o << "v" << k++; v.push_back(W.add(o.str(), c, r.p(1, 2))); if (W.vm._variables.count(W.ids[v.back()])) W.rnd(v.back(), -3, 3); S.add_output_variable(W.ids[v.back()]); } return v; };
    if (which == 0) { gaussian S; VD av; for (int i = r.in(0, 4); i > 0; i--) av.push_back(r.d(-1, 1)); double A = r.d(-2, 2), sd = r.d(.3, 2); S.setup(A, av, sd); VI v = vars(S, r.p(1, 2) ? VI{3, 1} : VI{2}); S.solve(W.vm, 0); av.resize(3, 0.); for (int i : v) check(i, [&](const VI& p, int) { double e = 0; for (int d = 0; d < 3; d++) { double w = (X(p, d) - av[d]) / sd; e += w * w; } return A * std::exp(-e); }); }
    if (which == 1 || which == 2) { shock_tube S1; radial_shock_tube S2; double rj = r.d(.1, 2), pj = r.d(.1, 2), g = r.d(1.1, 2.5), R = r.d(.3, 1.5); VD ce; for (int i = r.in(0, 3); i > 0; i--) ce.push_back(r.d(-1, 1)); if (r.p(1, 2)) { R = r.in(1, 12) / 8.; for (double& x : ce) x = r.in(-8, 8) / 8.; } if (r.p(1, 8)) { rj = .125; pj = .1; g = 1.4; R = .125; ce.clear(); } else { S1.setup(rj, pj, g); S2.setup(R, rj, pj, g, ce); } ce.resize(3, 0.); solver& S = which == 1 ? (solver&)S1 : (solver&)S2; VI v = vars(S, r.p(1, 2) ? VI{5, 5} : VI{5}); S.solve(W.vm, 0);
        for (int i : v) check(i, [&](const VI& p, int c) { if (which == 1 && !inner(p)) return 0.; bool in; if (which == 1) in = X(p, 0) < 0; else { double q = 0; for (int d = 0; d < 3; d++) q += (X(p, d) - ce[d]) * (X(p, d) - ce[d]); in = q < R * R; } if (c == 0) return in ? 1. : rj; if (c == 4) return 1 / (g - 1) * (in ? 1. : pj); return 0.; }); }
    if (which == 3) { magnetic_pulse S; double A = r.d(.5, 2), sd = r.d(.3, 2); S.setup(A, sd); VI v = vars(S, VI{6}); S.solve(W.vm, 0); check(v[0], [&](const VI& p, int c) { double q = 0; for (int d = 0; d < 3; d++) q += X(p, d) * X(p, d); return c == 5 ? A * std::exp(-.5 * q / sd) : 0.; }); }
    if (which == 4) { electromagnetic_wave_1D S; int d = r.in(0, 2); double c = r.d(.5, 3), k = r.d(.5, 7), Bf[3] = {r.d(.1, 2), r.d(.1, 2), r.d(.1, 2)}; S.setup(d, c, k, Bf[0], Bf[1], Bf[2]); if (r.p(1, 8)) { S = electromagnetic_wave_1D(); d = 0; c = 1; k = 2 * 3.14159263; Bf[0] = 0; Bf[1] = Bf[2] = 1; } NOTE << "dim " << d; VI v = vars(S, VI{6}); S.solve(W.vm, 0);
        check(v[0], [&](const VI& p, int q) { double s = std::sin(k * X(p, d)); int e1 = (d + 1) % 3, e2 = (d + 2) % 3; if (q == d) return 0.; if (q == 3 + d) return Bf[d]; if (q == e1) return c * Bf[e2] * s; if (q == e2) return -c * Bf[e1] * s; return Bf[q - 3] * s; }); }
    if (which == 5) { brio_wu_shock_tube S; double g = r.d(1.2, 3), me = r.d(.1, 1), mi = r.d(.5, 2), nl = r.d(.5, 2), nr = r.d(.1, 1), Pl = r.d(.5, 2), Pr = r.d(.1, 1), Bx = r.d(.2, 2), By = r.d(.2, 2); if (r.p(1, 8)) { g = 2; me = .04; mi = 1; nl = 1; nr = .125; Pl = 1; Pr = .1; Bx = .75; By = 1; } else S.setup(g, me, mi, nl, nr, Pl, Pr, Bx, By); VI v = vars(S, VI{5, 5, 6}); S.solve(W.vm, 0);
        for (int sp = 0; sp < 2; sp++) check(v[sp], [&](const VI& p, int c) { if (!inner(p)) return 0.; bool l = X(p, 0) < 0; if (c == 0) return (sp ? mi : me) * (l ? nl : nr); if (c == 4) return (l ? Pl : Pr) / (g - 1); return 0.; });
        check(v[2], [&](const VI& p, int c) { if (!inner(p)) return 0.; bool l = X(p, 0) < 0; if (c == 3) return Bx; if (c == 4) return l ? By : -By; return 0.; }); }
    if (which == 6) { gem_challenge S; double la = r.d(.3, 2), Lx = r.d(1, 5), n0 = r.d(.5, 2), n1 = r.d(.1, 1), g = r.d(1.2, 3), qe = -r.d(.5, 2), me = r.d(.1, 1), Te = r.d(.1, 1), qi = r.d(.5, 2), mi = r.d(.5, 2), Ti = r.d(.1, 1), B0 = r.d(.5, 2); S.setup(la, Lx, n0, n1, g, qe, me, 0.3, Te, qi, mi, 0.4, Ti, B0); VI v = vars(S, VI{5, 5, 6}); S.solve(W.vm, 0); const double pi = 3.14159263;
        for (int sp = 0; sp < 2; sp++) check(v[sp], [&](const VI& p, int c) { double se = 1 / std::cosh(X(p, 0) / la), s2 = se * se, n = n0 * s2 + n1, u = 2 * (sp ? Ti : Te) / (sp ? qi : qe) / la / B0 * (s2 / (s2 + n1 / n0)), rho = (sp ? mi : me) * n; if (c == 0) return rho; if (c == 3) return rho * u; if (c == 4) return n * (sp ? Ti : Te) / (g - 1) + .5 * rho * u * u; return 0.; });
        double kx = pi / Lx, ky = 2 * pi / (2 * Lx), B1 = .1 * B0; VD got = W.snap(v[2]); Box b = W.full(v[2]); size_t k = 0; for (const VI& p : points(b)) { int c = p[m + 1]; double x = X(p, 0), y = X(p, 1), w = 0; if (c == 3) w = B1 * ky * std::cos(kx * x) * std::sin(ky * y); if (c == 4) w = B0 * std::tanh(x / la) - B1 * kx * std::sin(kx * x) * std::cos(ky * y); CHECK(close(got[k], w, c == 3 || c == 4 ? 1 : 0, 1e-10)) << "field at " << p << ": " << got[k] << " expected " << w; k++; } }
    cmp(W.full(other), W.snap(other), ov, "other variable"); NONTRIVIAL();
}
