// C15, C17, C18, C24: grids, variables, output
#include "common.h"
typedef qk::variable::variable_id ID;
PROP(C15) {
    int m = r.in(1, 3); Box mesh = rnd_mesh(r, m, 1, 4); WORLD(W, m, mesh); std::map<std::string, qk::variable::variable*> reg; std::map<std::string, VD> val;
    // a catalogue of identifiers: equal names have equal components, the basis varies
    const char* nm[] = {"a", "b", "ab", "c", "z", ""}; std::vector<std::string> cs[6]; for (int i = 0; i < 6; i++) { int n = r.in(1, 6); bool same = r.p(1, 3); for (int k = 0; k < n; k++) { std::ostringstream o; o << (same ? "c" : nm[r.in(0, 5)]) << k; cs[i].push_back(o.str()); } }
    auto basis = [&](int k) -> qk::basis::basis { switch (k) { case 0: return qk::basis::volume_average(); case 1: return qk::basis::basis("other", 1); case 2: return qk::basis::basis("other", 2); case 3: return qk::basis::basis("volume_average", 3); default: return qk::basis::basis("", 1); } };
    int names = r.in(1, 6), bases = r.p(1, 2) ? 1 : r.in(2, 5);
    for (int k = r.in(3, 12); k > 0; k--) {
        int i = r.in(0, names - 1), bi = r.in(0, bases - 1); qk::basis::basis b = basis(bi); ID id(nm[i], cs[i], b); bool in = r.p(1, 3); std::ostringstream ko; ko << nm[i] << "/" << b.name() << "/" << b.num_points(); std::string key = ko.str(); NOTE << (in ? "input " : "output ") << key << " with " << cs[i].size() << " components"; int np = b.num_points();
        size_t before = W.vm._variables.size();
        if (in) { const qk::variable::variable* v = 0; bool t = throws([&] { v = &W.vm.input_variable(id); }); CHECK(t == !reg.count(key)) << (t ? "threw" : "did not throw"); if (!t) CHECK(v == reg[key]) << "another variable"; CHECK(W.vm._variables.size() == before) << "input lookup changed the manager"; }
        else { qk::variable::variable& v = W.vm.output_variable(id); if (reg.count(key)) { CHECK(&v == reg[key]) << "another variable"; CHECK(W.vm._variables.size() == before) << ""; } else { CHECK(W.vm._variables.size() == before + 1) << ""; for (auto& kv : reg) CHECK(kv.second != &v) << "aliases " << kv.first; reg[key] = &v;
                CHECK(v.name() == nm[i]) << "name " << v.name(); CHECK(v.component_names() == cs[i]) << "components"; CHECK(v.basis() == b) << "basis"; Box f = mesh; for (int d = 0; d < m; d++) { f.lo[d] -= 2; f.hi[d] += 2; } f.lo.push_back(0); f.hi.push_back(np); f.lo.push_back(0); f.hi.push_back(cs[i].size()); same(v.data()[0], f, "new variable"); Box g = mesh; g.lo.push_back(0); g.hi.push_back(np); g.lo.push_back(0); g.hi.push_back(cs[i].size()); same(v.data()[0].internal_range(), g, "new variable internal"); CHECK(v.data()[0].num_ghost_layers() == 2) << "";
                VD x; for (double& y : v.data()[0]._data) { y = r.d(-1, 1); x.push_back(y); } val[key] = x; } }
        for (auto& kv : reg) { CHECK(kv.second->data()[0]._data == val[kv.first]) << "values of " << kv.first; CHECK(kv.first.compare(0, kv.second->name().size() + 1, kv.second->name() + "/") == 0) << ""; }
        CHECK(&W.vm.grid() == &W.grid) << "";
    }
    double a = r.d(0, 1), b = r.d(0, 1); W.vm.set_dt(a); W.vm.set_time(b); CHECK(W.vm.dt() == a && W.vm.time() == b) << "time step and time";
    NONTRIVIAL();
}
PROP(C17) {
    int n = r.in(1, 4); Box s = rnd_box(r, n, 1, 5, r.p(1, 20) ? 200000000 : 4); VD st, wi; for (int i = 0; i < n; i++) { st.push_back(r.d(-3, 3)); wi.push_back(r.d(.1, 5)); } NOTE << "grid " << s << " start " << st << " width " << wi;
    VD st2 = st, wi2 = wi; qk::grid::rectilinear g(mk(s), st2.data(), wi2.data()); std::fill(st2.begin(), st2.end(), -77.); std::fill(wi2.begin(), wi2.end(), -77.);
    same(g, s, "grid range"); same(g.range(), s, "grid.range()");
    Box e = s; for (int i = 0; i < n; i++) { e.lo[i] -= 2; e.hi[i] += 2; } int extra = r.in(0, 2); Box q = e; for (int k = 0; k < extra; k++) { q.lo.push_back(0); q.hi.push_back(2); }
    for (int i = 0; i < n; i++) { CHECK(g.start(i) == st[i]) << "start"; CHECK(g.width(i) == wi[i]) << "width"; CHECK(close(g.dx(i), wi[i] / (s.hi[i] - s.lo[i]), 0, 1e-14)) << "dx(" << i << ")=" << g.dx(i); for (int k = s.lo[i]; k < s.hi[i]; k++) CHECK(close(g.centroid(i, k), st[i] + (k + .5) * wi[i] / (s.hi[i] - s.lo[i]), 5, 1e-13)) << "centroid(" << i << "," << k << ")=" << g.centroid(i, k); }
    for (qk::indexer it(mk(q), mk(q)); it.exists(); ++it) { VD x(n + 3, 12345.); g.xc(it, x.data() + 1); CHECK(x[0] == 12345. && x[n + 1] == 12345. && x[n + 2] == 12345.) << "wrote another coordinate"; for (int i = 0; i < n; i++) { CHECK(close(x[i + 1], st[i] + (it[i] + .5) * wi[i] / (s.hi[i] - s.lo[i]), 5, 1e-13)) << "xc dimension " << i << " index " << it[i] << ": " << x[i + 1]; if (it[i] >= s.lo[i] && it[i] < s.hi[i]) CHECK(close(x[i + 1], g.centroid(i, it[i]), 5, 1e-14)) << "xc differs from centroid"; } }
    NONTRIVIAL();
}
struct ST : qk::grid::structured { ST(const qk::range& a, const double* b, const double* c) : qk::grid::structured(a, b, c) {} void write_vtk(std::ofstream&, const qk::basis::basis&) const {} };
PROP(C24) {
    int n = r.in(1, 3); Box s = rnd_box(r, n, 1, r.p(1, 4) ? r.p(1, 20) ? 600 : 70 : 8); VD st, wi; for (int i = 0; i < n; i++) { st.push_back(r.d(-3, 3)); wi.push_back(r.d(.1, 5)); } NOTE << "grid " << s << " start " << st << " width " << wi;
    ST g(mk(s), st.data(), wi.data()); VI kind(n, 0);
    auto check = [&]() { for (int i = 0; i < n; i++) { double sum = 0; int N = s.hi[i] - s.lo[i]; for (int k = 0; k < N; k++) { double d = g.dx(i, s.lo[i] + k); CHECK(close(g.centroid(i, s.lo[i] + k), st[i] + sum + d / 2, 10, 1e-11)) << "centroid(" << i << "," << s.lo[i] + k << ")=" << g.centroid(i, s.lo[i] + k) << " expected " << st[i] + sum + d / 2; sum += d; if (kind[i] == 2) CHECK(close(d, g.dx(i, s.hi[i] - 1 - k), 0, 1e-11)) << "not symmetric"; if (kind[i] == 0) CHECK(close(d, wi[i] / N, 0, 1e-12)) << "unbiased size " << d; } CHECK(close(sum, wi[i], 1, 1e-10)) << "sizes of dimension " << i << " add up to " << sum << " not " << wi[i]; CHECK(g.start(i) == st[i] && g.width(i) == wi[i]) << ""; } same(g, s, "grid");
        int tot = 1; for (int i = 0; i < n; i++) tot *= s.hi[i] - s.lo[i]; if (tot <= 200) for (int c = 0; c < tot; c++) { qk::indexer it(mk(s), mk(s)); for (int k = 0; k < c; k++) it.next(); VD x(n + 2, 77.); g.xc(it, &x[0] + 1); CHECK(x[0] == 77. && x[n + 1] == 77.) << "xc wrote outside"; for (int i = 0; i < n; i++) CHECK(x[i + 1] == g.centroid(i, it[i])) << "xc " << i << " of cell " << it[i] << " is " << x[i + 1] << " not " << g.centroid(i, it[i]); } };
    check();
    for (int k = r.in(1, 3); k > 0; k--) {
        int d = r.in(0, n - 1); double p = r.p(1, 3) ? r.in(1, 3) : r.d(.5, 3); std::vector<VD> old; for (int i = 0; i < n; i++) { VD v; for (int j = s.lo[i]; j < s.hi[i]; j++) { v.push_back(g.dx(i, j)); v.push_back(g.centroid(i, j)); } old.push_back(v); }
        bool sym = r.p(1, 2); NOTE << (sym ? "symmetric " : "linear ") << d << " power " << p; bool odd = (s.hi[d] - s.lo[d]) % 2; bool t = false;
        if (sym) { t = throws([&] { g.apply_bias_symmetric(d, p); }); CHECK(t == odd) << "threw " << t; } else g.apply_bias_linear(d, p);
        if (!t) kind[d] = sym ? 2 : 1;
        for (int i = 0; i < n; i++) if (i != d || t) { size_t q = 0; for (int j = s.lo[i]; j < s.hi[i]; j++) { CHECK(g.dx(i, j) == old[i][q]) << "dx of another dimension"; q++; CHECK(g.centroid(i, j) == old[i][q]) << "centroid of another dimension"; q++; } }
        check();
    }
    NONTRIVIAL();
}
PROP(C18) {
    int m = r.in(1, 3); Box mesh = rnd_mesh(r, m, 1, 4); WORLD(W, m, mesh); int nv = r.in(1, 3); for (int i = 0; i < nv; i++) { std::ostringstream o; o << "var" << i; W.add(o.str(), r.p(1, 6) ? r.in(4, 12) : r.in(1, 3)); W.rnd(i, -5, 5); if (r.p(1, 4)) { VD v = W.snap(i); for (double& y : v) y = r.p(1, 3) ? 0. : y * (r.p(1, 2) ? 1e8 : 1e-8); W.put(i, v); } }
    char tmp[] = "/tmp/qkvtkXXXXXX"; if (!mkdtemp(tmp)) Fail() << "mkdtemp"; std::string pre = std::string(tmp) + "/o", suf = ".vtk", fn = pre + suf; int mode = r.in(0, 5); std::vector<ID> req; std::vector<int> idx;
    for (int k = r.in(1, 3); k > 0; k--) { int i = r.in(0, nv - 1); req.push_back(W.ids[i]); idx.push_back(i); }
    bool bad = false;
    if (mode == 4) { bad = true; int w = r.in(0, 2); NOTE << "invalid request " << w; if (w == 0) req.push_back(ID("missing", World::names(1), qk::basis::volume_average())); else if (w == 1) { ID o("ob", World::names(1), qk::basis::basis("face", 1)); W.vm.output_variable(o); req.push_back(o); } else { ID o("ob", World::names(2), qk::basis::basis("face", 1)); W.vm.output_variable(o); req.assign(1, o); } }
    NOTE << "request of " << req.size();
    std::vector<VD> before; for (int i = 0; i < nv; i++) before.push_back(W.snap(i));
    bool t = throws([&] { W.vm.write_vtk(pre, suf, req); });
    std::ifstream f(fn.c_str()); std::string all((std::istreambuf_iterator<char>(f)), std::istreambuf_iterator<char>()); unlink(fn.c_str()); rmdir(tmp);
    CHECK(t == bad) << (t ? "threw" : "did not throw"); for (int i = 0; i < nv; i++) cmp(W.full(i), W.snap(i), before[i], "variable after output"); if (bad) return;
    std::istringstream in(all); std::string line, w; std::getline(in, line); CHECK(line == "# vtk DataFile Version 2.0") << line; std::getline(in, line); std::getline(in, line); CHECK(line == "ASCII") << line;
    auto word = [&](const char* x) { in >> w; CHECK(w == x) << "read '" << w << "' expected '" << x << "'"; };
    word("DATASET"); word("STRUCTURED_POINTS"); word("DIMENSIONS"); long pd[3]; long cells = 1; for (int i = 0; i < 3; i++) { in >> pd[i]; long want = i < m ? mesh.hi[i] - mesh.lo[i] + 1 : 1; CHECK(pd[i] == want) << "dimension " << i << ": " << pd[i] << " expected " << want; if (i < m) cells *= want - 1; }
    word("ORIGIN"); for (int i = 0; i < 3; i++) { double x; in >> x; double want = i < m ? W.start[i] + mesh.lo[i] * W.dx[i] : 0.; CHECK(close(x, want, 5, 1e-13)) << "origin " << i << ": " << x << " expected " << want; }
    word("SPACING"); for (int i = 0; i < 3; i++) { double x; in >> x; if (i < m) CHECK(close(x, W.dx[i], 0, 1e-14)) << "spacing " << i << ": " << x; }
    word("CELL_DATA"); long cd; in >> cd; CHECK(cd == cells) << "CELL_DATA " << cd << " expected " << cells;
    for (size_t k = 0; k < idx.size(); k++) for (int c = 0; c < W.nc[idx[k]]; c++) {
        word("SCALARS"); std::ostringstream n; n << W.ids[idx[k]].name() << ".c" << c; in >> w; CHECK(w == n.str()) << "name " << w << " expected " << n.str(); word("float"); word("1"); word("LOOKUP_TABLE"); word("default");
        Box b = W.full(idx[k]); VI p(m + 2, 0); p[m + 1] = c; VI lo = mesh.lo, hi = mesh.hi; while (lo.size() < 3) { lo.push_back(0); hi.push_back(1); }
        for (int z = lo[2]; z < hi[2]; z++) for (int y = lo[1]; y < hi[1]; y++) for (int x = lo[0]; x < hi[0]; x++) { p[0] = x; if (m > 1) p[1] = y; if (m > 2) p[2] = z; double v; CHECK(in >> v) << "value missing"; double want = before[idx[k]][b.lin(p)]; CHECK(close(v, want, 0, 1e-13)) << n.str() << " at " << p << ": " << v << " expected " << want; }
    }
    CHECK(!(in >> w)) << "extra text '" << w << "'"; NONTRIVIAL();
}
