"""Contracts of the Runge-Kutta solvers (C10, C20)."""
from contracts.bc import *
C = R.contract

class World:
    """solver, manager and the registered variables of the identifiers a solver with a fixed arity uses"""
    def __init__(w, s, cls, n, nin, nout, extra=None, least=1, comps=None, mode='A', same=True, points=None, grid=None):
        w.s = s; w.n = n
        if grid is None: w.m, w.grid = the_grid(s, n, least)
        else: w.m, w.grid = grid
        w.this = solver_obj(s, cls, extra or {})
        w.ins = s.load(w.this.at('_input_variable_ids')); w.outs = s.load(w.this.at('_output_variable_ids'))
        names = ['in%d' % i for i in range(nin)] + ['out%d' % i for i in range(nout)]
        vids = [w.ins.elem(i) for i in range(nin)] + [w.outs.elem(i) for i in range(nout)]
        for i in range(len(vids)):
            for j in range(i): s.assume(T.lnot(key_eq(s, vids[i], vids[j])))
        w.vars = {}; ent = []
        w.npts = points if points is not None else ivar(s, 'npts', 1)
        k0 = ivar(s, 'ncomp', 1)
        for nm, v in zip(names, vids):
            k = comps[nm] if comps and nm in comps else k0
            r = s.alloc(var_obj(s, w.m, nm, v, w.npts, k, mode), 'var_' + nm + '_'); w.vars[nm] = r
            ent.append((0, v, Ptr(r, None)))
            o = s._get(s.store[r.root], chunk_ref(r).path, r); nonneg_facts(s, lens((o.f['_lower'].items, o.f['_upper'].items)))
        w.man = alloc_manager(s, w.grid, ent)
        s.ghost['world'] = w
    def data(w, s, nm): return s._get(s.store[w.vars[nm].root], cdata(w.vars[nm]).path, w.vars[nm])
    def set(w, s, nm, v): s.rawset(cdata(w.vars[nm]), v)
    def arity(w, s, ok):
        if not s.branch(ok(w.ins.n, w.outs.n)): throw()
def rk_setup(cls, nout):
    def f(s, c):
        w = World(s, cls, c['n'], 2, nout); return w.this, [w.man, ivar(s, 'tag')]
    return f
def combine(s, w, out, f, *ins):
    vs = [w.data(s, i) for i in ins]
    w.set(s, out, AVec(vs[0].n, lambda i: f(*[v.get(i) for v in vs]), 'double'))
F = Fraction
def dt_of(s, w): return s._get(s.store[w.man.root], ('_dt',), w.man)
@C('rk1::solve(variable_manager&,int) const')
def _(s, this, a):
    w = s.ghost['world']; dt = dt_of(s, w)
    w.arity(s, lambda i, o: T.land(T.eq(i, 2), T.le(1, o)))
    if s.branch(T.eq(a[1], 0)): combine(s, w, 'out0', lambda q, r: T.add(q, T.mul(dt, r)), 'in0', 'in1')
@C('ssprk3::solve(variable_manager&,int) const')
def _(s, this, a):
    w = s.ghost['world']; dt = dt_of(s, w)
    w.arity(s, lambda i, o: T.land(T.eq(i, 2), T.le(3, o)))
    if s.branch(T.eq(a[1], 0)): combine(s, w, 'out0', lambda q, r: T.add(q, T.mul(dt, r)), 'in0', 'in1')
    elif s.branch(T.eq(a[1], 1)): combine(s, w, 'out1', lambda q, q1, r: T.add(T.mul(F(3, 4), q), T.mul(F(1, 4), q1), T.mul(F(1, 4), dt, r)), 'in0', 'out0', 'in1')
    elif s.branch(T.eq(a[1], 2)): combine(s, w, 'out2', lambda q, q2, r: T.add(T.mul(F(1, 3), q), T.mul(F(2, 3), T.add(q2, T.mul(dt, r)))), 'in0', 'out1', 'in1')
for c_, k in (('rk1', 1), ('ssprk3', 3)):
    rt('%s::solve(variable_manager&,int) const' % c_, rk_setup(c_, k), [{'n': n} for n in (1, 2, 3)], ('C10', 'C20'))
    @C('%s::num_stages() const' % c_)
    def _(s, this, a, k=k): return k
    rt('%s::num_stages() const' % c_, lambda s, c, c_=c_: (solver_obj(s, c_, {}), []), [{}], ('C10',))
