"""Contracts of the initial conditions (C21, C20)."""
from contracts.src import *
from contracts.grid import rect_obj, centre, rvec, reals, HALF
C = R.contract

def rect_grid(s, n):
    m = new_range(s, n, 'mesh', minlen=0); mesh_len(s, m, 1)
    nonneg_facts(s, lens(m)); s.facts.append(T.lt(0, volume(*m)))
    return m, s.alloc(rect_obj(s, m, 'grid'), 'grid')
def coords(s, g, n, c):
    o = s.load(g)
    return [centre(o, k, c[k]) if k < n else Fraction(0) for k in range(3)]
def fn(name, x): return T.app(name, [x], 'R')
def ic(name, extra, profile, mincomp, inner):
    """each listed variable becomes profile(fields, x, c) at the cells covered and zero elsewhere"""
    def setup(s, c):
        n = c['n']; m, g = rect_grid(s, n)
        man = alloc_manager(s, g, (), outside)
        f = {k: (v(s) if callable(v) else rvar(s, k)) for k, v in extra.items()}
        this = solver_obj(s, name, f)
        def step(s, var):
            d = s._get(s.store[var.root], cdata(var).path, var)
            def get(c):
                v = lambda: profile(s, f, coords(s, g, n, c), c[-1])
                return s.pick(inbox(c[:n], m), v, lambda: Fraction(0)) if inner else v()
            s.rawset(cdata(var), CVec(d.lo, d.hi, get, 'double'))
        s.ghost['loop'] = Loop(s, s.load(this.at('_output_variable_ids')), man, m, step, mincomp)
        return this, [man, ivar(s, 'tag')]
    @C('%s::solve(variable_manager&,int) const' % name)
    def _(s, this, a): s.ghost['loop'].fold.apply(s)
    rt('%s::solve(variable_manager&,int) const' % name, setup, [{'n': n} for n in (1, 2, 3)], ('C21',))
ZERO = lambda: Fraction(0)
sq = lambda x: T.mul(x, x)
vec3 = lambda nm: lambda s: rvec(reals(s, 3, nm))
one = Fraction(1)
def p_gauss(s, f, x, k):
    w = [T.div(T.sub(x[i], f['_average'].items[i]), f['_standard_deviation']) for i in range(3)]
    return T.mul(f['_amplitude'], fn('exp', T.neg(T.add(*[sq(v) for v in w]))))
ic('gaussian', {'_amplitude': 0, '_average': vec3('_average'), '_standard_deviation': 0}, p_gauss, 0, False)
def shock(s, f, k, left):
    e0 = T.div(one, T.sub(f['_gamma'], one))
    return by_comp(s, k, {0: lambda: s.pick(left, lambda: one, lambda: f['_rho_jump']), 4: lambda: s.pick(left, lambda: e0, lambda: T.mul(e0, f['_P_jump']))}, ZERO)
J = {'_rho_jump': 0, '_P_jump': 0, '_gamma': 0}
ic('shock_tube', J, lambda s, f, x, k: shock(s, f, k, T.lt(x[0], 0)), 5, True)
ic('radial_shock_tube', dict(J, _center=vec3('_center'), _radius=0),
   lambda s, f, x, k: shock(s, f, k, T.lt(T.add(*[sq(T.sub(x[i], f['_center'].items[i])) for i in range(3)]), sq(f['_radius']))), 5, False)
ic('magnetic_pulse', {'_amplitude': 0, '_standard_deviation': 0},
   lambda s, f, x, k: by_comp(s, k, {5: lambda: T.mul(f['_amplitude'], fn('exp', T.neg(T.div(T.mul(HALF, T.add(*[sq(v) for v in x])), f['_standard_deviation']))))}, ZERO), 6, False)
def p_wave(s, f, x, k):
    B = [f['_Bx'], f['_By'], f['_Bz']]; c = f['_c']
    def along(d):
        w = fn('sin', T.mul(f['_k'], x[d])); e, g = (d + 1) % 3, (d + 2) % 3
        return by_comp(s, k, {3 + d: lambda: B[d], e: lambda: T.mul(c, B[g], w), g: lambda: T.neg(T.mul(c, B[e], w)), 3 + e: lambda: T.mul(B[e], w), 3 + g: lambda: T.mul(B[g], w)}, ZERO)
    return by_comp(s, f['_dim'], {d: (lambda d=d: along(d)) for d in range(3)}, ZERO)
ic('electromagnetic_wave_1D', {'_dim': lambda s: ivar(s, '_dim'), '_c': 0, '_k': 0, '_Bx': 0, '_By': 0, '_Bz': 0}, p_wave, 6, False)

# ------------------------------------------------------------------ two fluid initial conditions
def two_fluid(name, names, profiles, inner):
    def setup(s, c):
        k = ivar(s, 'kfluid', 5); kf = ivar(s, 'kfield', 6); g = rect_grid(s, c['n'])
        w = World(s, name, c['n'], 0, 3, {x: rvar(s, x) for x in names}, comps={'out0': k, 'out1': k, 'out2': kf}, mode='C', grid=g)
        return w.this, [w.man, ivar(s, 'tag')]
    @C('%s::solve(variable_manager&,int) const' % name)
    def _(s, this, a):
        w = s.ghost['world']; f = state(s, this).f
        w.arity(s, lambda i, o: T.eq(o, 3))
        for j in range(3):
            d = w.data(s, 'out%d' % j)
            def get(c, j=j):
                v = lambda: by_comp(s, c[-1], profiles(s, f, j, coords(s, w.grid, w.n, c)), ZERO)
                return s.pick(interior(w, c), v, ZERO) if inner else v()
            w.set(s, 'out%d' % j, CVec(d.lo, d.hi, get, 'double'))
    rt('%s::solve(variable_manager&,int) const' % name, setup, nn_, ('C21', 'C20'))
BW = ('_gamma', '_me', '_mi', '_nl', '_nr', '_Pl', '_Pr', '_Bx', '_By')
def p_bw(s, f, j, x):
    left = T.lt(x[0], 0); lr = lambda a, b: lambda: s.pick(left, lambda: a, lambda: b)
    if j == 2: return {3: lambda: f['_Bx'], 4: lr(f['_By'], T.neg(f['_By']))}
    m = f['_me' if j == 0 else '_mi']; gm = T.sub(f['_gamma'], one)
    return {0: lr(T.mul(m, f['_nl']), T.mul(m, f['_nr'])), 4: lr(T.div(f['_Pl'], gm), T.div(f['_Pr'], gm))}
two_fluid('brio_wu_shock_tube', BW, p_bw, True)
GEM = ('_lambda', '_Lx', '_n0', '_n1', '_gamma', '_qe', '_me', '_ue', '_Te', '_qi', '_mi', '_ui', '_Ti', '_B0')
PI = Fraction('3.14159263')
def p_gem(s, f, j, x):
    lam, Lx, B0 = f['_lambda'], f['_Lx'], f['_B0']
    if j == 2:
        kx = ky = T.div(PI, Lx); B1 = T.mul(Fraction(1, 10), B0)
        return {3: lambda: T.mul(B1, ky, fn('cos', T.mul(kx, x[0])), fn('sin', T.mul(ky, x[1]))),
                4: lambda: T.sub(T.mul(B0, fn('tanh', T.div(x[0], lam))), T.mul(B1, kx, fn('sin', T.mul(kx, x[0])), fn('cos', T.mul(ky, x[1]))))}
    m, q, te = (f['_me'], f['_qe'], f['_Te']) if j == 0 else (f['_mi'], f['_qi'], f['_Ti'])
    sech2 = sq(T.div(one, fn('cosh', T.div(x[0], lam)))); n10 = T.div(f['_n1'], f['_n0'])
    n = T.mul(f['_n0'], T.add(sech2, n10))
    u = T.mul(T.div(T.div(T.div(T.scale(2, te), q), lam), B0), T.div(sech2, T.add(sech2, n10)))
    rho = T.mul(m, n)
    return {0: lambda: rho, 3: lambda: T.mul(rho, u), 4: lambda: T.add(T.div(T.mul(n, te), T.sub(f['_gamma'], one)), T.mul(HALF, rho, sq(u)))}
two_fluid('gem_challenge', GEM, p_gem, False)

# ------------------------------------------------------------------ parameters
def params(cls, sig, names, props=('C21',)):
    key = '%s::setup(%s)' % (cls, ','.join(sig))
    @C(key)
    def _(s, this, a):
        for nm, v in zip(names, a): s.put(this.at(nm), v)
    every = {n: (rvar if t == 'double' else ivar) for n, t in zip(names, sig)}
    rt(key, lambda s, c: (solver_obj(s, cls, {n: f(s, 'old' + n) for n, f in every.items()}), [f(s, n) for n, f in every.items()]), [{}], props)
params('shock_tube', ['double'] * 3, ('_rho_jump', '_P_jump', '_gamma'))
params('magnetic_pulse', ['double'] * 2, ('_amplitude', '_standard_deviation'))
params('electromagnetic_wave_1D', ['int'] + ['double'] * 5, ('_dim', '_c', '_k', '_Bx', '_By', '_Bz'))
params('brio_wu_shock_tube', ['double'] * 9, BW)
params('gem_challenge', ['double'] * 14, GEM)
def padded(s, r):
    v = s.load(r).items; return rvec([v[i] if i < len(v) else Fraction(0) for i in range(3)])
@C('gaussian::setup(double,vector<double>&,double)')
def _(s, this, a): s.put(this.at('_amplitude'), a[0]); s.put(this.at('_average'), padded(s, a[1])); s.put(this.at('_standard_deviation'), a[2])
@C('radial_shock_tube::setup(double,double,double,double,vector<double>&)')
def _(s, this, a):
    for nm, v in zip(('_radius', '_rho_jump', '_P_jump', '_gamma'), a): s.put(this.at(nm), v)
    s.put(this.at('_center'), padded(s, a[4]))
k05 = [{'k': k} for k in range(5)]
rt('gaussian::setup(double,vector<double>&,double)', lambda s, c: (solver_obj(s, 'gaussian', {'_amplitude': rvar(s, 'a0'), '_average': rvec(reals(s, 3, 'v0')), '_standard_deviation': rvar(s, 's0')}),
   [rvar(s, 'a'), s.alloc(rvec(reals(s, c['k'], 'v')), 'v'), rvar(s, 's')]), k05, ('C21',))
rt('radial_shock_tube::setup(double,double,double,double,vector<double>&)', lambda s, c: (solver_obj(s, 'radial_shock_tube', dict({x: rvar(s, 'old' + x) for x in ('_radius', '_rho_jump', '_P_jump', '_gamma')}, _center=rvec(reals(s, 3, 'c0')))),
   [rvar(s, x) for x in ('R', 'rj', 'pj', 'ga')] + [s.alloc(rvec(reals(s, c['k'], 'v')), 'v')]), k05, ('C21',))
