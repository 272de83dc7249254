"""Contracts of the finite volume solvers (C11, C12, C14, C20).

The data of a variable is an array of its volume; cells are addressed by their row-major position. Elements that are
not interior are not specified for the right-hand side."""
from itertools import combinations
from contracts.ic import *
from qkv.verify import Check
C = R.contract
EPS = Fraction('1e-12')

def products(s, base, L, shift=0):
    """products of numbers that are not negative are not negative"""
    for k in range(1, len(L) + 1):
        for c in combinations(L, k):
            p = prod([base] + list(c)) if base is not None else prod(list(c))
            if not isinstance(p, int): s.facts.append(T.le(0, p))
def interior_point(s, w, K):
    """an arbitrary interior cell and point of it, with the facts about its address"""
    n = w.n; L = [T.sub(b, a) for a, b in zip(*w.m)]
    x = [s.fresh('x%d' % i, 'I') for i in range(n)]; pt = s.fresh('pt', 'I')
    for i in range(n): s.pc.append(T.land(T.le(w.m[0][i], x[i]), T.lt(x[i], w.m[1][i])))
    s.pc.append(T.land(T.le(0, pt), T.lt(pt, w.npts)))
    k = len(s.facts)
    for i in range(n):
        later = L[i + 1:] + [w.npts] + ([] if isinstance(K, int) else [K])
        products(s, T.sub(x[i], w.m[0][i]), later); products(s, T.sub(T.sub(w.m[1][i], 1), x[i]), later)
    if not isinstance(K, int): products(s, pt, [K]); products(s, T.sub(T.sub(w.npts, 1), pt), [K])
    s.pc.extend(s.facts[k:]); del s.facts[k:]
    return x, pt
def fv_world(s, cls, n, K, extra, nin, nout):
    g = rect_grid(s, n)
    w = World(s, cls, n, nin, nout, extra, comps={nm: K for nm in ['in%d' % i for i in range(nin)] + ['out%d' % i for i in range(nout)]}, mode='A', grid=g)
    L = [T.sub(b, a) for a, b in zip(*w.m)]
    products(s, None, L + [w.npts] + ([] if isinstance(K, int) else [K]))
    w.K = K
    return w
def address(s, w, x, pt, k):
    lo = [T.sub(a, G) for a in w.m[0]] + [0, 0]; hi = [T.add(b, G) for b in w.m[1]] + [w.npts, w.K]
    return s.lin(lo, hi, list(x) + [pt, k])
def in_cells(s, w, value):
    """Check: every interior element k of cell x, point pt has value(x, pt, k)"""
    def fn(s, a, label):
        if not isinstance(a, AVec): raise Unsupported(label + ': representation')
        n0 = len(s.pc)
        x, pt = interior_point(s, w, w.K)
        ks = range(w.K) if isinstance(w.K, int) else [s.fresh('comp', 'I')]
        if not isinstance(w.K, int): s.pc.append(T.land(T.le(0, ks[0]), T.lt(ks[0], w.K)))
        for k in ks: compare(s, a.get(address(s, w, x, pt, k)), value(x, pt, k), '%s[interior cell, %s]' % (label, k))
        del s.pc[n0:]
    return Check(fn)
def cell_dx(s, w, d): return s.load(w.grid).f['_dxs'].items[d]

def limited(qn, qc, qp, qpp):
    """states left and right of the face between qc and qp"""
    phi = lambda r: T.div(T.add(T.mul(r, r), r), T.add(T.mul(r, r), one))
    rl = T.div(T.sub(qp, qc), T.add(T.sub(qc, qn), EPS)); rr = T.div(T.sub(qp, qc), T.add(T.sub(qpp, qp), EPS))
    return T.add(qc, T.mul(HALF, phi(rl), T.sub(qc, qn))), T.add(qp, T.mul(HALF, phi(rr), T.sub(qp, qpp)))
def flux_difference(s, w, flux):
    """old + sum over the dimensions of (lower face flux - upper face flux) / cell size"""
    q, old = w.data(s, 'in0'), w.data(s, 'out0')
    def face(x, pt, d):
        """flux through the face between cell x-1 and x in dimension d"""
        at = lambda o, k: q.get(address(s, w, [T.add(y, o) if i == d else y for i, y in enumerate(x)], pt, k))
        st = [limited(at(-2, k), at(-1, k), at(0, k), at(1, k)) for k in range(w.K)]
        return flux(s, d, [a for a, b in st], [b for a, b in st])
    memo = {}
    def fluxes(x, pt):
        key = tuple(x) + (pt,)
        if key not in memo: memo[key] = [(face(x, pt, d), face([T.add(y, 1) if i == d else y for i, y in enumerate(x)], pt, d)) for d in range(w.n)]
        return memo[key]
    def value(x, pt, k):
        r = old.get(address(s, w, x, pt, k))
        for d, (lo, hi) in enumerate(fluxes(x, pt)):
            r = T.add(r, T.div(lo[k], cell_dx(s, w, d))); r = T.sub(r, T.div(hi[k], cell_dx(s, w, d)))
        return r
    w.set(s, 'out0', in_cells(s, w, value))

def maxwell_flux(c):
    def f(s, d, l, r):
        a = T.mul(HALF, T.rabs(c)); c2 = T.mul(c, c); F = [Fraction(0)] * 6
        e, g = (d + 1) % 3, (d + 2) % 3
        avg = lambda k: T.mul(HALF, T.add(r[k], l[k])); jump = lambda k: T.mul(a, T.sub(r[k], l[k]))
        F[e] = T.sub(T.mul(c2, avg(3 + g)), jump(e)); F[g] = T.sub(T.neg(T.mul(c2, avg(3 + e))), jump(g))
        F[3 + e] = T.sub(T.neg(avg(g)), jump(3 + e)); F[3 + g] = T.sub(avg(e), jump(3 + g))
        return F
    return f
def t_max(s, c):
    w = fv_world(s, 'maxwell', c['n'], 6, {'_c': rvar(s, '_c')}, 1, 1); return w.this, [w.man, ivar(s, 'tag')]
@C('maxwell::solve(variable_manager&,int) const')
def _(s, this, a):
    w = s.ghost['world']
    w.arity(s, lambda i, o: T.land(T.eq(i, 1), T.eq(o, 1)))
    flux_difference(s, w, maxwell_flux(state(s, this).f['_c']))
rt('maxwell::solve(variable_manager&,int) const', t_max, nn_, ('C12', 'C20'))
params('maxwell', ['double'], ('_c',), props=('C12',))
params('euler', ['double'], ('_gamma',), props=('C11',))

def euler_flux(gamma):
    def side(d, q):
        u = T.div(q[d + 1], q[0]); P = T.mul(T.sub(gamma, one), T.sub(q[4], T.div(T.mul(HALF, T.add(*[sq(q[k]) for k in (1, 2, 3)])), q[0])))
        f = [q[d + 1]] + [T.mul(q[k], u) for k in (1, 2, 3)] + [T.mul(T.add(q[4], P), u)]
        f[d + 1] = T.add(f[d + 1], P)
        return f, u, fn('sqrt', T.div(T.mul(gamma, P), q[0]))
    def f(s, d, l, r):
        fl, ul, cl = side(d, l); fr, ur, cr = side(d, r)
        sl, sr = T.sub(ul, cl), T.add(ur, cr)
        hll = [T.div(T.add(T.sub(T.mul(sr, a), T.mul(sl, b)), T.mul(sl, sr, T.sub(qr, ql))), T.sub(sr, sl)) for a, b, ql, qr in zip(fl, fr, l, r)]
        i = lambda c: T.ite(c, one, Fraction(0))
        s.pc.append(T.lor(T.le(sl, 0), T.le(0, sr)))     # the HLL flux is only defined for ordered wave speeds
        return [T.add(T.mul(i(T.land(T.le(0, sr), T.le(sl, 0))), h), T.mul(i(T.lt(0, sl)), a), T.mul(i(T.lt(sr, 0)), b)) for h, a, b in zip(hll, fl, fr)]
    return f
def t_eul(s, c):
    w = fv_world(s, 'euler', c['n'], 5, {'_gamma': rvar(s, '_gamma')}, 1, 1); return w.this, [w.man, ivar(s, 'tag')]
@C('euler::solve(variable_manager&,int) const')
def _(s, this, a):
    w = s.ghost['world']
    w.arity(s, lambda i, o: T.land(T.eq(i, 1), T.eq(o, 1)))
    flux_difference(s, w, euler_flux(state(s, this).f['_gamma']))
rt('euler::solve(variable_manager&,int) const', t_eul, nn_, ('C11', 'C20'))

# ------------------------------------------------------------------ advection
def advected(s, w, vel, dt, src, start):
    """start + per dimension the upstream face flux minus the downstream face flux of src"""
    a = w.data(s, src)
    def value(x, pt, k):
        r = start(address(s, w, x, pt, k))
        for d in range(w.n):
            dr = 1 if s.branch(T.lt(0, vel[d])) else -1
            co = T.rabs(T.div(T.mul(dt, vel[d]), cell_dx(s, w, d)))
            at = lambda o: a.get(address(s, w, [T.add(y, o * dr) if i == d else y for i, y in enumerate(x)], pt, k))
            def flux(o):
                """through the face between cell o-1 and o, counted downstream"""
                vp, vc, vn = at(o), at(o - 1), at(o - 2)
                q = T.ite(T.ne(vp, vc), T.div(T.sub(vc, vn), T.sub(vp, vc)), one)
                phi = T.div(T.mul(q, T.add(q, one)), T.add(T.mul(q, q), one))
                return T.mul(co, T.add(vc, T.mul(Fraction(1, 4), phi, T.sub(vp, vn))))
            r = T.sub(T.add(r, flux(0)), flux(1))
        return r
    return in_cells(s, w, value)
def t_adv(s, c):
    n = c['n']; K = ivar(s, 'ncomp', 1)
    vel = rvec(reals(s, n, 'velocity'))
    w = fv_world(s, 'ssprk2_advection', n, K, {'_grid': rect_obj(s, new_range(s, n, 'own', minlen=1), 'own'), '_velocity': vel}, 1, 2)
    return w.this, [w.man, ivar(s, 'tag')]
@C('ssprk2_advection::solve(variable_manager&,int) const')
def _(s, this, a):
    w = s.ghost['world']; vel = state(s, this).f['_velocity'].items; dt = dt_of(s, w)
    w.arity(s, lambda i, o: T.land(T.eq(i, 1), T.eq(o, 2)))
    n0, n1 = w.data(s, 'in0'), w.data(s, 'out0')
    if s.branch(T.eq(a[1], 0)): w.set(s, 'out0', advected(s, w, vel, dt, 'in0', n0.get))
    elif s.branch(T.eq(a[1], 1)): w.set(s, 'out1', advected(s, w, vel, T.mul(HALF, dt), 'out0', lambda p: T.mul(HALF, T.add(n0.get(p), n1.get(p)))))
rt('ssprk2_advection::solve(variable_manager&,int) const', t_adv, nn_, ('C14', 'C20'))
@C('ssprk2_advection::setup(vector<double>&)')
def _(s, this, a): s.put(this.at('_velocity'), s.load(a[0]))
rt('ssprk2_advection::setup(vector<double>&)', lambda s, c: (solver_obj(s, 'ssprk2_advection', {'_grid': rect_obj(s, new_range(s, 1, 'own', minlen=1), 'own'), '_velocity': rvec(reals(s, 2, 'old'))}), [s.alloc(rvec(reals(s, c['k'], 'v')), 'v')]), k05[1:4], ('C14',))
