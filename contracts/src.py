"""Contracts of the plasma coupling terms (C13, C20)."""
from contracts.rk import *
C = R.contract

def interior(w, c): return inbox(c[:w.n], w.m)
def by_comp(s, k, table, other):
    """value for component k"""
    items = sorted(table.items())
    def go(i):
        if i == len(items): return other()
        j, f = items[i]
        return s.pick(T.eq(k, j), f, lambda: go(i + 1))
    return go(0)
def t_lor(s, c):
    k = ivar(s, 'kfluid', 5); kf = ivar(s, 'kfield', 6)
    w = World(s, 'lorentz_force', c['n'], 2, 1, {'_com': rvar(s, 'com')}, comps={'in0': k, 'in1': kf, 'out0': k}, mode='C')
    return w.this, [w.man, ivar(s, 'tag')]
@C('lorentz_force::solve(variable_manager&,int) const')
def _(s, this, a):
    w = s.ghost['world']; com = s.load(this.at('_com'))
    w.arity(s, lambda i, o: T.land(T.eq(i, 2), T.eq(o, 1)))
    q, f, old = w.data(s, 'in0'), w.data(s, 'in1'), w.data(s, 'out0')
    def get(c):
        x = c[:-1]; Q = lambda i: q.get(x + (i,)); E = lambda i: f.get(x + (i,)); B = lambda i: f.get(x + (3 + i,))
        def mom(i):
            j, k = (i + 1) % 3, (i + 2) % 3
            return lambda: T.add(old.get(c), T.mul(com, T.add(T.mul(Q(0), E(i)), T.mul(Q(1 + j), B(k)), T.neg(T.mul(Q(1 + k), B(j))))))
        en = lambda: T.add(old.get(c), T.mul(com, T.add(*[T.mul(Q(1 + i), E(i)) for i in range(3)])))
        return s.pick(interior(w, c), lambda: by_comp(s, c[-1], {1: mom(0), 2: mom(1), 3: mom(2), 4: en}, lambda: old.get(c)), lambda: old.get(c))
    w.set(s, 'out0', CVec(old.lo, old.hi, get, 'double'))
nn_ = [{'n': n} for n in (1, 2, 3)]
rt('lorentz_force::solve(variable_manager&,int) const', t_lor, nn_, ('C13', 'C20'))
@C('lorentz_force::setup(double,double)')
def _(s, this, a): s.put(this.at('_com'), T.div(a[0], a[1]))
rt('lorentz_force::setup(double,double)', lambda s, c: (solver_obj(s, 'lorentz_force', {'_com': rvar(s, 'old')}), [rvar(s, 'q'), rvar(s, 'm')]), [{}], ('C13',))

def t_cur(s, c):
    n = s.fresh('mult_n', 'I'); s.assume(T.le(0, n)); i = s.fresh('mult', 'I')
    mult = SymList(i, n, lambda k: T.app('multiplier', [k], 'R'), 'double')
    kr = ivar(s, 'kfield', 6)
    w = World(s, 'current_source', c['n'], 0, 1, {'_multipliers': mult}, comps={'out0': kr}, mode='C')
    rhs = w.vars['out0']; slot = s.alloc(Obj('variable', {'ghost_none': 0}), 'fluid_')
    d0 = w.data(s, 'out0'); m0 = s._get(s.store[w.man.root], ('_variables',), w.man)
    def arbitrary(s, k):
        vid = w.ins.elem(k); kk = T.app('fluid_ncomp', [], 'I'); kk = s.ghost['kfluid']
        s.assume(T.lnot(key_eq(s, vid, w.outs.elem(0))))
        s.store[slot.root] = var_obj(s, w.m, 'fluid', vid, w.npts, kk, 'C')
        s.rawset(w.man.at('_variables'), MapV(m0.entries + ((0, vid, Ptr(slot, None)),), None))
        w.set(s, 'out0', CVec(d0.lo, d0.hi, field('rhs_between'), 'double'))
    def one(s, k):
        f = s._get(s.store[slot.root], cdata(slot).path, slot); old = w.data(s, 'out0')
        def get(c):
            return s.pick(T.land(interior(w, c), T.lt(c[-1], 3)), lambda: T.add(old.get(c), T.mul(mult.elem(k), f.get(c[:-1] + (T.add(c[-1], 1),)))), lambda: old.get(c))
        w.set(s, 'out0', CVec(old.lo, old.hi, get, 'double'))
    def start(s, entry):
        if entry[w.man.root].f['_variables'] is not m0: raise Unsupported('variables created before the loop over the fluids')
        s.cmp_code = s.cmp_spec = s.store; s.cmp_roots = set(s.store)
        compare(s, s._get(entry[rhs.root], cdata(rhs).path, rhs), d0, 'the loop over the fluids starts from the right-hand side')
    def finish(s, entry):
        w.set(s, 'out0', CVec(d0.lo, d0.hi, field('rhs_after'), 'double')); note(s, 'all fluids;')
    s.ghost['kfluid'] = ivar(s, 'kfluid', 5)
    s.foldspec[i] = Fold(i, n, one, arbitrary, finish, start); s.ghost['fold'] = s.foldspec[i]
    return w.this, [w.man, ivar(s, 'tag')]
@C('current_source::solve(variable_manager&,int) const')
def _(s, this, a):
    w = s.ghost['world']; n = s.load(this.at('_multipliers')).n
    w.arity(s, lambda i, o: T.land(T.eq(i, n), T.eq(o, 1)))
    s.ghost['fold'].apply(s)
rt('current_source::solve(variable_manager&,int) const', t_cur, nn_, ('C13', 'C20'))
def t_cset(s, c):
    def lst(nm):
        n = s.fresh(nm + '_n', 'I'); s.assume(T.le(0, n)); return AVec(n, lambda i: T.app(nm, [i], 'R'), 'double')
    this = solver_obj(s, 'current_source', {'_multipliers': lst('old')})
    return this, [rvar(s, 'eps0'), s.alloc(lst('charge'), 'charges'), s.alloc(lst('mass'), 'masses')]
@C('current_source::setup(double,vector<double>&,vector<double>&)')
def _(s, this, a):
    q, m = s.load(a[1]), s.load(a[2])
    if not s.branch(T.eq(q.n, m.n)): throw()
    s.put(this.at('_multipliers'), AVec(q.n, lambda i: T.neg(T.div(T.div(q.get(i), m.get(i)), a[0])), 'double'))
rt('current_source::setup(double,vector<double>&,vector<double>&)', t_cset, [{}], ('C13',))
