// C01-C07, C16, C19, C22, C23: ranges, traversal, containers
#include "common.h"
PROP(C01) {
    Box b = rnd_box(r, r.in(0, 5), -1, 5);
    qk::range a = mk(b); NOTE << "range " << b;
    if (r.p(1, 4)) { Box z; for (int i = 0; i < b.n(); i++) { z.lo.push_back(0); z.hi.push_back(b.hi[i]); } VI h = b.hi; h.push_back(0); qk::range q(b.n(), h.data()); same(q, z, "range(n,dims)"); a = q; b = z; }
    same(a, b, "constructed");
    int k = r.in(1, 5);
    for (int i = 0; i < k; i++) {
        int n = b.n(); int op = r.in(0, 10);
        Box before = b; qk::range copy(a); same(copy, b, "copy constructed");
        if (op == 0) { Box c = rnd_box(r, r.in(0, 5), -1, 5); NOTE << "assign " << c; qk::range q = mk(c); a = q; b = c; same(q, c, "source of assignment"); }
        else if (op == 1) { NOTE << "self assign"; qk::range& al = a; a = al; }
        else if (op == 2) { Box c = rnd_box(r, r.in(0, 5), -1, 5); NOTE << "resize(range) " << c; a.resize(mk(c)); b = c; }
        else if (op == 3) { Box c = rnd_box(r, r.in(0, 5), -1, 5); NOTE << "resize(n,l,u) " << c; VI l = c.lo, h = c.hi; l.push_back(0); h.push_back(0); a.resize(c.n(), l.data(), h.data()); b = c; }
        else if (op == 4) { int l = r.in(-5, 5), u = r.in(-5, 5); NOTE << "extrude " << l << " " << u; a.extrude(l, u); b.lo.push_back(l); b.hi.push_back(u); }
        else if (op == 5) { NOTE << "resize(self)"; a.resize(a); }
        else if (n) {
            int d = r.in(0, n - 1), x = r.in(-3, 3), y = r.in(-3, 3);
            if (op == 6) { NOTE << "expand " << d << " " << x << " " << y; a.expand(d, x, y); b.lo[d] += x; b.hi[d] += y; }
            else if (op == 7) { NOTE << "shift " << d << " " << x; a.shift(d, x); b.lo[d] += x; b.hi[d] += x; }
            else { NOTE << "set " << d << " " << x << " " << y; a.set(d, x, y); b.lo[d] = x; b.hi[d] = y; }
        }
        same(a, b, "after operation"); same(copy, before, "independent copy");
    }
    if (b.n()) NONTRIVIAL();
}
PROP(C02) {
    Box b = rnd_box(r, r.in(0, 5), 0, 4), c = b;
    if (r.p(1, 5)) c = rnd_box(r, r.in(0, 5), 0, 4);
    else if (r.p(4, 5) && b.n()) { for (int k = r.in(1, 2); k > 0; k--) { int d = r.in(0, b.n() - 1); (r.p(1, 2) ? c.lo : c.hi)[d] += r.in(-1, 1); } }
    else if (r.p(1, 2)) { c.lo.push_back(0); c.hi.push_back(r.in(0, 1)); if (r.p(1, 2)) std::swap(b, c); }
    NOTE << b << " vs " << c;
    qk::range x = mk(b), y = mk(c);
    bool eq = b.lo == c.lo && b.hi == c.hi;
    CHECK((x == y) == eq) << ""; CHECK((x != y) == !eq) << ""; CHECK((y == x) == eq) << ""; CHECK((y != x) == !eq) << "";
    CHECK(x.includes(y) == c.inside(b)) << ""; CHECK(y.includes(x) == b.inside(c)) << ""; CHECK(x.includes(x)) << ""; CHECK(x == x) << "";
    same(x, b, "left unchanged"); same(y, c, "right unchanged");
    if (b.n()) NONTRIVIAL();
}
static Box c03_sub(Rng& r, const Box& s) {
    int k = r.in(0, 9);
    if (k == 0) return rnd_box(r, r.in(0, 4), 0, 3);
    Box b = rnd_sub(r, s, r.p(5, 6));
    if (k == 1 && b.n()) { int d = r.in(0, b.n() - 1); if (r.p(1, 2)) b.lo[d] = s.lo[d] - r.in(1, 2); else b.hi[d] = s.hi[d] + r.in(1, 2); }
    return b;
}
PROP(C03) {
    Box s = rnd_box(r, r.in(0, 5), 0, r.p(1, 2) ? 3 : 4), b = c03_sub(r, s);
    NOTE << "sub " << b << " sup " << s;
    std::vector<VI> want; if (b.inside(s)) points(b, want);
    qk::indexer made(mk(b), mk(s)); size_t k = 0; int style = r.in(0, 1), how = r.in(0, 3);
    // traverse the indexer itself, a copy, or one that had another range before
    Box s2 = r.p(1, 2) ? s : rnd_box(r, r.in(0, 4), 1, 3), b2 = c03_sub(r, s2); qk::indexer before(mk(b2), mk(s2));
    if (how >= 2) { for (int i = r.in(0, 3); i > 0 && before.exists(); i--) before.next(); before = made; NOTE << " assigned to an indexer of " << b2 << " in " << s2; }
    qk::indexer copied(made); qk::indexer & it = how >= 2 ? before : how == 1 ? copied : made;
    for (; it.exists(); ) {
        CHECK(k < want.size()) << "visited more than " << want.size() << " points";
        for (int i = 0; i < s.n(); i++) { CHECK(it.index(i) == want[k][i]) << "point " << k << " dimension " << i << ": " << it.index(i) << " expected " << want[k]; CHECK(it[i] == want[k][i]) << ""; }
        if (style) it.next(); else ++it;
        k++;
    }
    CHECK(k == want.size()) << "visited " << k << " of " << want.size();
    CHECK(!qk::indexer().exists()) << "";
    same(it, s, "enclosing range of the indexer");
    if (want.size() > 1) NONTRIVIAL();
}
PROP(C04) {
    Box s = rnd_box(r, r.in(1, 5), 1, r.p(1, 2) ? 3 : 4), b = rnd_sub(r, s, true);
    NOTE << "sub " << b << " sup " << s;
    std::vector<VI> want = points(b);
    qk::indexer it(mk(b), mk(s)); CHECK(it.exists()) << "";
    qk::indexer other(mk(rnd_box(r, r.in(0, 4), 1, 2)), mk(rnd_box(r, r.in(0, 4), 1, 3)));
    CHECK(it.final_linear_index() == s.lin(want.back()) + 1) << it.final_linear_index() << " expected " << s.lin(want.back()) + 1;
    std::set<int> seen; size_t cp = r.in(0, int(want.size()) - 1);
    for (size_t k = 0; k < want.size(); k++) {
        CHECK(it.linear_index() == s.lin(want[k])) << it.linear_index() << " at " << want[k] << " expected " << s.lin(want[k]);
        CHECK(it.linear_index() >= 0 && it.linear_index() < s.vol()) << ""; CHECK(seen.insert(it.linear_index()).second) << "repeated";
        if (k == cp) {
            qk::indexer c(it); other = it;
            qk::indexer* cs[2] = {&c, &other};
            for (qk::indexer* q : cs) {
                same(*q, s, "copied enclosing range");
                CHECK(q->exists()) << ""; CHECK(q->linear_index() == s.lin(want[k])) << "copy"; CHECK(q->final_linear_index() == s.lin(want.back()) + 1) << "copy";
                qk::indexer w(*q); VI p = want[k];
                for (int j = 0; j < 4; j++) { int d = r.in(0, s.n() - 1); if (r.p(1, 2)) { w.increment(d); p[d]++; } else { w.decrement(d); p[d]--; }
                    CHECK(w.linear_index() == s.lin(p)) << "after increments " << p << " " << w.linear_index() << " expected " << s.lin(p);
                    for (int i = 0; i < s.n(); i++) CHECK(w.index(i) == p[i]) << "index after increment"; }
                qk::indexer moved(mk(b), mk(s)); moved = w; CHECK(moved.linear_index() == s.lin(p)) << "copy after increments";
                size_t j = k; for (; q->exists(); q->next(), j++) { CHECK(j < want.size()) << ""; CHECK(q->linear_index() == s.lin(want[j])) << "copy continues"; for (int i = 0; i < s.n(); i++) CHECK(q->index(i) == want[j][i]) << "copy continues"; }
                CHECK(j == want.size()) << "copy";
            }
        }
        it.next();
    }
    CHECK(!it.exists()) << "";
    qk::indexer gone(mk(b), mk(s)); for (int j = r.in(0, 2); j > 0 && gone.exists(); j--) gone.next();
    gone = it; CHECK(!gone.exists() && gone.linear_index() == it.linear_index()) << "copy of an indexer after its last point has linear index " << gone.linear_index() << ", the original " << it.linear_index();
    if (want.size() > 1) NONTRIVIAL();
}
typedef qk::indexer_interface<double> C;
static void fillr(Rng& r, C& c, VD& v) { v.assign(c.volume(), 0.); for (size_t i = 0; i < v.size(); i++) { v[i] = r.d(-9, 9); c._data[i] = v[i]; } }
static void holds(C& c, const Box& b, const VD& v, const char* w) { same(c, b, w); CHECK(c._data.size() == v.size()) << w; for (size_t i = 0; i < v.size(); i++) CHECK(c._data[i] == v[i]) << w << " element " << i << ": " << c._data[i] << " expected " << v[i]; }
// a box of the same volume, maybe of another shape
static Box same_volume(Rng& r, const Box& b) {
    Box c = b; int n = b.n();
    if (r.p(1, 2)) { for (int i = 0; i < n; i++) { int s = r.in(-2, 2); c.lo[i] += s; c.hi[i] += s; } return c; }
    VI len; for (int i = 0; i < n; i++) len.push_back(b.hi[i] - b.lo[i]);
    for (int i = n - 1; i > 0; i--) std::swap(len[i], len[r.in(0, i)]);
    if (n > 1 && r.p(1, 3)) { len[0] *= len[1]; len[1] = 1; }
    if (r.p(1, 4)) len.insert(len.begin() + r.in(0, n), 1);
    c.lo.clear(); c.hi.clear(); for (int L : len) { int l = r.in(-3, 3); c.lo.push_back(l); c.hi.push_back(l + L); }
    return c;
}
static Box around(Rng& r, const Box& b) { Box s = b; for (int i = 0; i < b.n(); i++) { s.lo[i] -= r.in(0, 2); s.hi[i] += r.in(0, 2); } return s; }
PROP(C05) {
    Box b = rnd_box(r, r.in(0, 4), 0, 4); C c(mk(b)); VD v; fillr(r, c, v); NOTE << "container " << b;
    holds(c, b, v, "fresh");
    for (int k = r.in(1, 3); k > 0; k--) {
        int op = r.in(0, 6);
        if (op == 0) { double x = r.d(-5, 5); NOTE << "fill"; c.fill(x); std::fill(v.begin(), v.end(), x); }
        else if (op == 1) { Box s = r.p(1, 5) ? b : c03_sub(r, b); double x = r.d(-5, 5); NOTE << "fill sub " << s;
            bool t = throws([&] { c.fill(mk(s), x); }); CHECK(t == !s.inside(b)) << "threw " << t;
            if (!t) for (const VI& p : points(s)) v[b.lin(p)] = x; if (!points(s).empty()) NONTRIVIAL(); }
        else if (op == 2) {
            Box to = rnd_sub(r, b, r.p(4, 5)), from = same_volume(r, to); if (r.p(1, 6)) { Box q = rnd_sub(r, from, false); from = q; }
            Box sb = around(r, from); if (r.p(1, 6) && from.n()) { int d = r.in(0, from.n() - 1); sb.hi[d] = from.hi[d] - 1; if (sb.hi[d] < sb.lo[d]) sb.lo[d] = sb.hi[d]; } if (r.p(1, 8)) to = c03_sub(r, b);
            NOTE << "pull from " << from << " of " << sb << " to " << to;
            C o(mk(sb)); VD w; fillr(r, o, w);
            bool bad = from.vol() != to.vol() || !from.inside(sb) || !to.inside(b);
            bool t = throws([&] { c.pull(o, mk(from), mk(to)); }); CHECK(t == bad) << "threw " << t;
            if (!t) { std::vector<VI> P = points(from), Q = points(to); if (P.size() == Q.size()) for (size_t i = 0; i < P.size(); i++) v[b.lin(Q[i])] = w[sb.lin(P[i])]; if (!P.empty()) NONTRIVIAL(); }
            holds(o, sb, w, "source of pull");
        }
        else if (op == 3) { Box ob = same_volume(r, b); if (r.p(1, 5)) ob = rnd_box(r, r.in(0, 3), 0, 4); NOTE << "swap " << ob; C o(mk(ob)); VD w; fillr(r, o, w);
            bool t = throws([&] { c.swap(o); }); CHECK(t == (ob.vol() != b.vol())) << "threw " << t; if (!t) std::swap(v, w); holds(o, ob, w, "swapped partner"); if (!v.empty()) NONTRIVIAL(); }
        else if (op == 4) { NOTE << "copy"; C o(c); holds(o, b, v, "copy"); VD w; fillr(r, o, w); holds(c, b, v, "original of a modified copy"); C q(mk(rnd_box(r, 2, 0, 3))); q = c; holds(q, b, v, "assigned"); }
        else if (op == 5) { Box nb = rnd_box(r, r.in(0, 4), 0, 4); NOTE << "resize " << nb; size_t old = v.size(); c.resize(mk(nb)); v.resize(nb.vol(), 0.); b = nb; CHECK(c._data.size() == v.size()) << "size after resize"; (void)old; }
        else { Box ob = same_volume(r, b); if (r.p(1, 5)) ob = rnd_box(r, r.in(0, 3), 0, 4); NOTE << "pull all " << ob; C o(mk(ob)); VD w; fillr(r, o, w); bool t = throws([&] { c.pull(o); }); CHECK(t == (ob.vol() != b.vol())) << "threw " << t; if (!t && !b.empty()) v = w; holds(o, ob, w, "source"); }
        holds(c, b, v, "container");
    }
    // element access
    if (!b.empty()) { const C& cc = c; for (qk::indexer i = cc.indexer(); i.exists(); ++i) { VI p; for (int d = 0; d < b.n(); d++) p.push_back(i[d]); CHECK(cc[i] == v[b.lin(p)]) << "element " << p; CHECK(&cc[i] == cc.data() + b.lin(p)) << ""; CHECK(cc.data(p.data()) == cc.data() + b.lin(p)) << "data(index)"; CHECK(cc.data(i) == cc.data() + b.lin(p)) << "data(indexer)"; } }
    { // containers of ranges behave the same
        Box q = rnd_box(r, r.in(1, 2), 1, 2); qk::indexer_interface<qk::range> cr(mk(q)); Box e = rnd_box(r, 2, 1, 3); cr.fill(mk(e)); for (size_t i = 0; i < cr._data.size(); i++) same(cr._data[i], e, "filled range"); }
}
static qk::data::datachunk* mkchunk(const Box& mesh, const Box& data) { qk::data::datachunk* c = new qk::data::datachunk; c->resize(mk(mesh), mk(data)); return c; }
static Box join(const Box& a, const Box& b) { Box c = a; c.lo.insert(c.lo.end(), b.lo.begin(), b.lo.end()); c.hi.insert(c.hi.end(), b.hi.begin(), b.hi.end()); return c; }
PROP(C06) {
    Box m = rnd_box(r, r.in(1, 3), 0, 4), d = rnd_box(r, r.in(0, 2), 0, 3, 1), b = join(m, d);
    qk::data::datachunk* c = mkchunk(m, d); VD v; fillr(r, *c, v); NOTE << "chunk " << b; holds(*c, b, v, "fresh chunk");
    int op = r.in(0, 4);
    if (op <= 1) {
        Box to = rnd_sub(r, b, r.p(5, 6)), from = same_volume(r, to); if (r.p(1, 7)) from = rnd_sub(r, from, false);
        Box sm = around(r, from), sd; if (r.p(1, 6) && from.n()) { int k = r.in(0, from.n() - 1); sm.lo[k] = from.lo[k] + 1; if (sm.hi[k] < sm.lo[k]) sm.hi[k] = sm.lo[k]; }
        if (r.p(1, 8)) to = c03_sub(r, b);
        NOTE << "copy_to from " << from << " of " << sm << " to " << to;
        qk::data::datachunk* o = mkchunk(sm, sd); VD w; fillr(r, *o, w);
        bool bad = from.vol() != to.vol() || !from.inside(sm) || !to.inside(b);
        bool t = throws([&] { qk::data::copy_to(*o, mk(from), *c, mk(to)); }); CHECK(t == bad) << "threw " << t;
        std::vector<VI> P = points(from), Q = points(to);
        if (!t && P.size() == Q.size()) { for (size_t i = 0; i < P.size(); i++) v[b.lin(Q[i])] = w[sm.lin(P[i])]; if (P.size()) NONTRIVIAL(); }
        holds(*o, sm, w, "source chunk"); delete o;
        // disjoint ranges of the same chunk
        if (b.n() && b.hi[0] - b.lo[0] >= 2 && !b.empty()) { Box f = b, g = b; int h = (b.hi[0] - b.lo[0]) / 2; f.hi[0] = f.lo[0] + h; g.lo[0] = g.hi[0] - h; NOTE << "then within the chunk " << f << " to " << g; qk::data::copy_to(*c, mk(f), *c, mk(g)); VD old = v; std::vector<VI> A = points(f), B = points(g); for (size_t i = 0; i < A.size(); i++) v[b.lin(B[i])] = old[b.lin(A[i])]; }
    } else if (op == 2) {
        Box ob = same_volume(r, b); if (r.p(1, 5)) ob = rnd_box(r, r.in(1, 3), 0, 3); NOTE << "full_copy from " << ob; Box none; qk::data::datachunk* o = mkchunk(ob, none); VD w; fillr(r, *o, w);
        if (!ob.empty() || ob.vol() != b.vol()) { bool t = throws([&] { qk::data::full_copy(*o, *c); }); CHECK(t == (ob.vol() != b.vol())) << "threw " << t; if (!t) v = w; }
        holds(*o, ob, w, "source chunk"); delete o; NONTRIVIAL();
    } else if (op == 3) {
        Box s = c03_sub(r, b); double x = r.d(-3, 3); NOTE << "multiply " << s << " by " << x; c->multiply_by_scalar(mk(s), x); if (s.inside(b)) { for (const VI& p : points(s)) v[b.lin(p)] *= x; if (points(s).size()) NONTRIVIAL(); }
    } else {
        Box om = rnd_box(r, r.in(1, 3), 0, 3), od = rnd_box(r, r.in(0, 2), 0, 3, 1); qk::data::datachunk* o = mkchunk(om, od); VD w; fillr(r, *o, w); NOTE << "assign to chunk " << join(om, od);
        *o = *c; holds(*o, b, v, "assigned chunk"); same(o->_mesh_range, m, "assigned mesh range"); same(o->_data_range, d, "assigned data range"); fillr(r, *o, w); delete o;
        qk::data::datachunk& self = *c; *c = self; if (!v.empty()) NONTRIVIAL();
        qk::data::extended_datachunk e, f; int g = r.in(0, 2); e.resize(mk(m), mk(d), g); VD ev; fillr(r, e, ev); f.resize(mk(om), mk(od)); f = e; Box fb = m; for (int i = 0; i < m.n(); i++) { fb.lo[i] -= g; fb.hi[i] += g; } holds(f, join(fb, d), ev, "assigned extended chunk"); same(f.internal_range(), join(m, d), "assigned internal range");
    }
    holds(*c, b, v, "chunk"); delete c;
}
static void c07(const qk::data::extended_datachunk& c, const Box& m, const Box& d, int g) {
    Box e = m; for (int i = 0; i < m.n(); i++) { e.lo[i] -= g; e.hi[i] += g; }
    same(c, join(e, d), "stored range"); CHECK((long)c._data.size() == join(e, d).vol()) << "storage " << c._data.size(); CHECK(c.num_ghost_layers() == g) << "";
    Box in = join(m, d); same(c.internal_range(), in, "internal range");
    CHECK((int)c._lower_internal_ranges.size() == m.n() && (int)c._upper_external_ranges.size() == m.n()) << "number of ghost ranges";
    for (int i = 0; i < m.n(); i++) {
        Box x = in; x.hi[i] = x.lo[i] + g; same(c.lower_internal_range(i), x, "lower internal range");
        x = in; x.lo[i] = x.hi[i] - g; same(c.upper_internal_range(i), x, "upper internal range");
        x = in; x.hi[i] = x.lo[i]; x.lo[i] -= g; same(c.lower_external_range(i), x, "lower external range");
        x = in; x.lo[i] = x.hi[i]; x.hi[i] += g; same(c.upper_external_range(i), x, "upper external range");
    }
}
PROP(C07) {
    qk::data::extended_datachunk c;
    for (int k = r.in(1, 3); k > 0; k--) { Box m = rnd_box(r, r.in(1, 3), 1, 5), d = rnd_box(r, r.in(1, 2), 1, 6, 1); int g = r.in(0, 3); NOTE << "mesh " << m << " data " << d << " ghosts " << g; if (r.p(1, 4)) { g = 2; c.resize(mk(m), mk(d)); } else c.resize(mk(m), mk(d), g); c07(c, m, d, g); if (g) NONTRIVIAL(); }
    Box m = rnd_box(r, r.in(1, 3), 1, 4), d; int n = r.in(1, 6), g = r.in(0, 3); d.lo = {0, 0}; d.hi = {1, n}; NOTE << "variable on " << m << " components " << n;
    qk::variable::variable v("v", World::names(n), qk::basis::volume_average(), mk(m), g); Box one; for (int i = 0; i < m.n(); i++) { one.lo.push_back(0); one.hi.push_back(1); } same(v, one, "chunk range of a variable"); c07(v.data()[0], m, d, g);
    for (double x : v.data()[0]._data) CHECK(x == 0.) << "new variable not zero";
}
PROP(C19) {
    if (r.p(1, 6)) { // long dimensions: the boundaries of the tiles, dimension by dimension
        int n = r.in(1, 3); Box s; VI sub; for (int i = 0; i < n; i++) { int l = r.in(-1000, 1000); s.lo.push_back(l); s.hi.push_back(l + r.in(0, n == 1 ? 1000000000 : n == 2 ? 30000 : 1000)); sub.push_back(r.in(1, n == 1 ? 90 : 9)); }
        NOTE << "long range " << s << " subdivisions " << sub;
        qk::range_set rs; bool again = r.p(1, 2);
        if (again) { NOTE << " tile of an earlier set"; VI one(n, 1); rs.setup(mk(s), one.data()); rs.setup(rs._data[0], sub.data()); } else rs.setup(mk(s), sub.data());
        Box tb; for (int i = 0; i < n; i++) { tb.lo.push_back(0); tb.hi.push_back(sub[i]); } same(rs.range(), tb, "range of tiles"); std::vector<VI> T = points(tb); CHECK(rs._data.size() == T.size()) << "number of tiles";
        std::vector<VI> edge(n); for (int i = 0; i < n; i++) { edge[i].assign(sub[i] + 1, s.hi[i]); edge[i][0] = s.lo[i]; }
        for (size_t t = 0; t < T.size(); t++) for (int i = 0; i < n; i++) if (rs._data[t].length(i) > 0) edge[i][T[t][i]] = rs._data[t].lower(i);
        for (size_t t = 0; t < T.size(); t++) { Box b = box_of(rs._data[t]); CHECK(b.n() == n) << "tile dimensions"; CHECK(b.inside(s)) << "tile " << b; for (int i = 0; i < n; i++) { CHECK(b.lo[i] <= b.hi[i]) << "tile " << b; int next = s.hi[i]; for (int k = T[t][i] + 1; k < sub[i]; k++) if (edge[i][k] != s.hi[i]) { next = edge[i][k]; break; } if (b.hi[i] > b.lo[i]) CHECK(b.lo[i] == edge[i][T[t][i]] && b.hi[i] == next) << "tile " << b << " of dimension " << i << " next starts at " << next; if (T[t][i] == 0) CHECK(b.lo[i] == s.lo[i]) << "first tile " << b; } }
        NONTRIVIAL(); return;
    }
    int n = r.in(1, 4); Box s = rnd_box(r, n, 0, 7); VI sub; for (int i = 0; i < n; i++) sub.push_back(r.in(1, n > 2 ? 3 : 6));
    NOTE << "range " << s << " subdivisions " << sub;
    qk::range_set rs; if (r.p(1, 2)) { VI one(n, 1); rs.setup(mk(s), one.data()); } if (r.p(1, 2)) rs.setup(mk(s), sub.data()); else { qk::range_set q(mk(s), sub.data()); rs = q; }
    Box tb; for (int i = 0; i < n; i++) { tb.lo.push_back(0); tb.hi.push_back(sub[i]); } same(rs.range(), tb, "range of tiles");
    std::map<VI, int> cover; std::vector<VI> T = points(tb);
    CHECK(rs._data.size() == T.size()) << "number of tiles";
    for (size_t t = 0; t < T.size(); t++) {
        Box b = box_of(rs._data[t]); CHECK(b.n() == n) << "tile dimensions"; CHECK(b.inside(s)) << "tile " << b << " outside of " << s;
        for (const VI& p : points(b)) cover[p]++;
        for (size_t q = 0; q < t; q++) { // increasing coordinates
            Box o = box_of(rs._data[q]); if (o.empty() || b.empty()) continue;
            for (int i = 0; i < n; i++) if (T[q][i] < T[t][i]) CHECK(o.hi[i] <= b.lo[i]) << "order of tiles " << o << " " << b; else if (T[q][i] == T[t][i]) CHECK(o.lo[i] == b.lo[i] && o.hi[i] == b.hi[i]) << "tiles of one row differ " << o << " " << b; }
    }
    std::vector<VI> P = points(s); for (const VI& p : P) CHECK(cover[p] == 1) << "point " << p << " is in " << cover[p] << " tiles";
    if (P.size() > 1 && T.size() > 1) NONTRIVIAL();
}
PROP(C22) {
    Box s = rnd_box(r, r.in(0, 4), 1, 4); Box b = rnd_sub(r, s, true); NOTE << "range " << s;
    qk::indexer it(mk(b), mk(s)); int n = s.n();
    for (int d = -3; d <= n + 3; d++) {
        bool bad = d < 0 || d >= n; if (bad && r.p(1, 20)) d = d < 0 ? -1000000 : 1000000;
        qk::indexer w(it); int got = 0;
        CHECK(throws([&] { got = w.index(d); }) == bad) << "index(" << d << ")"; if (!bad) CHECK(got == b.lo[d]) << "";
        CHECK(throws([&] { got = w[d]; }) == bad) << "operator[](" << d << ")";
        CHECK(throws([&] { w.increment(d); }) == bad) << "increment(" << d << ")"; if (!bad) w.decrement(d);
        CHECK(throws([&] { w.decrement(d); }) == bad) << "decrement(" << d << ")"; if (!bad) w.increment(d);
        CHECK(w.linear_index() == it.linear_index()) << "changed"; for (int i = 0; i < n; i++) CHECK(w.index(i) == it.index(i)) << "changed"; same(w, s, "indexer");
        if (d > n + 3 || d < -3) d = bad && d > 0 ? n + 3 : -1;
    }
    if (n) {
        VD st, wi; for (int i = 0; i < n; i++) { st.push_back(r.d(-2, 2)); wi.push_back(r.d(1, 2)); }
        qk::grid::rectilinear g(mk(s), st.data(), wi.data());
        struct S : qk::grid::structured { S(const qk::range& a, const double* b, const double* c) : qk::grid::structured(a, b, c) {} void write_vtk(std::ofstream&, const qk::basis::basis&) const {} } t(mk(s), st.data(), wi.data());
        for (int d = -2; d <= n + 1; d++) {
            bool bad = d < 0 || d >= n;
            CHECK(throws([&] { g.start(d); }) == bad) << "start"; CHECK(throws([&] { g.width(d); }) == bad) << "width"; CHECK(throws([&] { g.dx(d); }) == bad) << "dx";
            CHECK(throws([&] { t.start(d); }) == bad) << "start"; CHECK(throws([&] { t.width(d); }) == bad) << "width";
            if (bad) { CHECK(throws([&] { g.centroid(d, 0); })) << "centroid"; CHECK(throws([&] { t.centroid(d, 0); })) << "centroid"; CHECK(throws([&] { t.dx(d, 0); })) << "dx"; CHECK(throws([&] { t.apply_bias_linear(d, 1.5); })) << "bias"; CHECK(throws([&] { t.apply_bias_symmetric(d, 1.5); })) << "bias"; }
            else for (int i = s.lo[d] - 2; i <= s.hi[d] + 1; i++) { bool bi = i < s.lo[d] || i >= s.hi[d]; CHECK(throws([&] { g.centroid(d, i); }) == bi) << "rectilinear centroid(" << d << "," << i << ")"; CHECK(throws([&] { t.centroid(d, i); }) == bi) << "structured centroid(" << d << "," << i << ")"; CHECK(throws([&] { t.dx(d, i); }) == bi) << "structured dx(" << d << "," << i << ")"; }
        }
        same(g, s, "grid"); NONTRIVIAL();
        // container element of an indexer outside of it
        C c(mk(s)); VD v; fillr(r, c, v); Box big = s; int d = r.in(0, n - 1); big.lo[d] -= 3; big.hi[d] += 3;
        qk::indexer j(mk(s), mk(s)); VI p = s.lo;
        for (int k = 0; k < 6; k++) { int q = r.in(0, n - 1); if (r.p(1, 2)) { j.increment(q); p[q]++; } else { j.decrement(q); p[q]--; } long l = s.lin(p); bool bad = l < 0 || l >= s.vol(); const C& cc = c; CHECK(throws([&] { c.data(j); }) == bad) << "data at " << p << " linear " << l; CHECK(throws([&] { cc.data(j); }) == bad) << "const data at " << p; }
        holds(c, s, v, "container");
    }
}
typedef std::vector<std::string> VS;
static std::string rs(Rng& r) { std::string s; for (int k = r.p(1, 25) ? r.in(40, 3000) : r.in(0, 40); k > 0; k--) s += char(r.p(1, 8) ? '%' : r.in(32, 126)); return s; }
PROP(C23) {
    std::string m = rs(r); NOTE << "message '" << m << "'";
    qk::exception e(m); std::string want = m; int k = r.in(0, 3);
    for (int i = 0; i < k; i++) { std::string s = rs(r); e << s; want += s; NOTE << "<< '" << s << "'"; }
    const char* w = e.what(); std::string keep(w); CHECK(want == w) << "'" << w << "'";
    { std::vector<std::string> noise; for (int i = 0; i < 5; i++) noise.push_back(std::string(want.size() + 20, 'x')); std::ostringstream o; o << e; CHECK(o.str() == want) << "stream '" << o.str() << "'"; CHECK(want == w) << "text did not stay valid"; }
    qk::exception c(e); CHECK(want == c.what()) << "copy '" << c.what() << "'";
    std::string m2 = rs(r); qk::exception d(m2); d = e; CHECK(want == d.what()) << "assigned '" << d.what() << "'";
    qk::exception& al = d; d = al; CHECK(want == d.what()) << "self assigned '" << d.what() << "'";
    std::string t = rs(r); d << t; CHECK(want + t == d.what()) << "streamed after assignment '" << d.what() << "'"; CHECK(want == e.what()) << "source changed"; c << t; CHECK(want == e.what()) << "source of copy changed";
    std::runtime_error re(m2); const std::exception& se = re; qk::exception f(se); CHECK(m2 == f.what()) << "converted '" << f.what() << "'";
    try { throw qk::exception(m) << m2; } catch (std::exception& x) { CHECK(m + m2 == x.what()) << "thrown '" << x.what() << "'"; }
    { // a history of constructions, copies, appends and uses
        std::vector<std::unique_ptr<qk::exception>> x; VS v; for (int i = 0; i < 3; i++) { if (r.p(1, 3)) { x.emplace_back(new qk::exception); v.push_back(""); } else { v.push_back(r.p(1, 5) ? "" : rs(r)); x.emplace_back(new qk::exception(v[i])); } }
        for (int k2 = r.in(2, 12); k2 > 0; k2--) {
            int i = r.in(0, 2), j = r.in(0, 2), op = r.in(0, 5);
            switch (op) {
            case 0: { std::string s = r.p(1, 5) ? "" : rs(r); NOTE << "x" << i << " << '" << s << "'"; *x[i] << s; v[i] += s; break; }
            case 1: NOTE << "x" << i << " = x" << j; *x[i] = *x[j]; v[i] = v[j]; break;
            case 2: NOTE << "x" << i << " copy of x" << j; if (i != j) { x[i].reset(new qk::exception(*x[j])); v[i] = v[j]; } break;
            case 3: { int q = r.in(-9, 9); NOTE << "x" << i << " << " << q << " "; *x[i] << std::to_string(q) << " "; v[i] += std::to_string(q) + " "; break; }
            case 4: { NOTE << "print x" << i; std::ostringstream o; o << "<" << *x[i] << "|" << *x[i] << ">"; CHECK(o.str() == "<" + v[i] + "|" + v[i] + ">") << "printed '" << o.str() << "' expected text '" << v[i] << "'"; break; }
            default: NOTE << "what x" << i; const char* a = x[i]->what(); std::string b(a); CHECK(b == v[i]) << "x" << i << " is '" << b << "' expected '" << v[i] << "'"; for (int l = 0; l < 3; l++) CHECK(v[l] == x[l]->what()) << "x" << l; if (r.p(1, 2)) CHECK(b == a) << "text did not stay valid"; }
            if (r.p(1, 2)) for (int l = 0; l < 3; l++) { std::string b = x[l]->what(); CHECK(b == v[l]) << "x" << l << " is '" << b << "' expected '" << v[l] << "'"; }
        }
        for (int l = 0; l < 3; l++) { std::string b = x[l]->what(); CHECK(b == v[l]) << "x" << l << " is '" << b << "' expected '" << v[l] << "'"; }
    }
    qk::exception z; CHECK(std::string() == z.what()) << "empty"; z << m; CHECK(m == z.what()) << "";
    if (k) NONTRIVIAL();
}
typedef qk::variable::variable_id ID; typedef qk::basis::basis B;
PROP(C16) {
    std::string nm[] = {"", "a", "b", "ab", "volume_average", "face"}; const std::string filler(r.p(1, 2) ? r.in(1, 12) : r.in(12, 90), r.p(1, 2) ? 'n' : 'b');
    if (r.p(1, 2)) for (int i = 0; i < 6; i++) { if (r.p(2, 3)) nm[i] = filler + nm[i]; else if (r.p(1, 2)) nm[i] += filler; }
    B bs[3]; for (int i = 0; i < 3; i++) { bs[i] = B(nm[r.in(0, 5)], r.in(-1, 2)); NOTE << "basis " << bs[i].name() << "/" << bs[i].num_points(); }
    auto ord = [](const B& a, const B& b) { return a.name() < b.name() || (a.name() == b.name() && a.num_points() < b.num_points()); };
    for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) {
        bool l = bs[i] < bs[j], g = bs[j] < bs[i], e = bs[i] == bs[j];
        CHECK(!(l && g)) << "asymmetric"; CHECK(e == (!l && !g)) << "equal iff incomparable"; CHECK((bs[i] != bs[j]) == !e) << "!="; CHECK(e == (bs[i].name() == bs[j].name() && bs[i].num_points() == bs[j].num_points())) << "equality";
        for (int k = 0; k < 3; k++) { CHECK(!(l && bs[j] < bs[k]) || bs[i] < bs[k]) << "transitive"; bool ij = !l && !g, jk = !(bs[j] < bs[k]) && !(bs[k] < bs[j]); CHECK(!(ij && jk) || (!(bs[i] < bs[k]) && !(bs[k] < bs[i]))) << "incomparability transitive"; }
    }
    (void)ord;
    std::vector<std::string> cn[3] = {{"x"}, {"x", "y"}, {"y"}}; ID v[3]; std::string vn[3]; int cc[3]; B vb[3]; bool cons = r.p(3, 4); std::map<std::string, int> pick;
    for (int i = 0; i < 3; i++) { vn[i] = nm[r.in(0, 5)]; cc[i] = r.in(0, 2); if (cons) { if (!pick.count(vn[i])) pick[vn[i]] = cc[i]; cc[i] = pick[vn[i]]; } vb[i] = bs[r.in(0, 2)]; v[i] = ID(vn[i], cn[cc[i]], vb[i]); NOTE << "id " << vn[i] << " components " << cc[i] << " basis " << vb[i].name() << "/" << vb[i].num_points(); }
    for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) {
        bool bad = vn[i] == vn[j] && cc[i] != cc[j]; bool l = false, e = false, g = false;
        CHECK(throws([&] { l = v[i] < v[j]; }) == bad) << "< of ids " << i << j; CHECK(throws([&] { e = v[i] == v[j]; }) == bad) << "== of ids " << i << j;
        if (bad) continue; g = v[j] < v[i];
        CHECK(!(l && g)) << ""; CHECK(e == (!l && !g)) << "ids equal iff incomparable"; CHECK(e == (vn[i] == vn[j] && vb[i] == vb[j])) << "id equality";
        if (cons) for (int k = 0; k < 3; k++) { CHECK(!(l && v[j] < v[k]) || v[i] < v[k]) << "ids transitive"; bool jk = v[j] == v[k]; CHECK(!(e && jk) || v[i] == v[k]) << "ids equal transitive"; }
    }
    static std::set<std::string> clones; for (int i = 0; i < 2; i++) { ID c = v[i].unique_clone(); CHECK(c.component_names() == v[i].component_names() && c.basis() == v[i].basis()) << "clone"; CHECK(clones.insert(c.name()).second) << "clone name repeated " << c.name(); CHECK(v[i].name() == vn[i]) << "original renamed"; }
    NONTRIVIAL();
}
