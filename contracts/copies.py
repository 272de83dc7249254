"""Contracts of the functions the compiler writes (copies) and of the constructors and accessors without arguments."""
from contracts.base import *
from contracts.lib import rt, raw, P
from contracts.idx import state, idx_val
from contracts.data import alloc_chunk, alloc_iface, some_idx, lim, inbox, elem_fn, DIM1, nn31, bounds, volume, new_range
from contracts.misc import opaque, basis_val, vid_val
from contracts.var import comp_list, init, n4, dset, dataset_fields, VAR_F, DSET_F, basis_of, G
from contracts.bc import solver_obj
from contracts.grid import rvec
C = R.contract

# ------------------------------------------------------------------ copies: the value of the source, nothing else changes
def whole(s, ref):
    o = s._get(s.store[ref.root], ref.path, ref)
    return dict(o.f)
def copies(cls, mkv, cfgs, props, assign=()):
    """mkv(s, c, name): reference to a value; assign: configurations of the assignment"""
    key = '%s::%s(%s&)' % (cls, cls, cls)
    @C(key)
    def _(s, this, a): init(s, this, whole(s, a[0]) if isinstance(a[0], Ref) else dict(a[0].f))
    rt(key, lambda s, c: (raw(s, cls), [mkv(s, c, 'source')]), cfgs, props)
    if not assign: return
    op = '%s::operator=(%s&)' % (cls, cls)
    @C(op)
    def _(s, this, a): init(s, this, whole(s, a[0]) if isinstance(a[0], Ref) else dict(a[0].f)); return this
    def t(s, c):
        r = mkv(s, c, 'this')
        return (r, [r]) if c.get('arg') == 'self' else (r, [mkv(s, dict(c, n=c.get('m', c.get('n'))), 'source')])
    rt(op, t, list(assign), props)
def an_index(s, c, name):
    n = c['n']; sup = new_range(s, n, name + '_sup'); sub = new_range(s, n, name + '_sub')
    x = [ivar(s, '%s_x%d' % (name, i)) for i in range(n)]
    return s.alloc(idx_val(s, sup, sub, x, s.fresh(name + '_exists', 'B')), name)
copies('indexer', an_index, [{'n': n} for n in (0,) + DIM1], ('C03', 'C04'))
copies('basis', lambda s, c, name: s.alloc(basis_val(s, name), name), [{}], ('C15', 'C16'), [{}, {'arg': 'self'}])
copies('variable_id', lambda s, c, name: s.alloc(vid_val(s, name).put('_component_names', comp_list(s, name + '_comps')), name), [{}], ('C15', 'C16'), [{}, {'arg': 'self'}])
copies('datachunk', lambda s, c, name: alloc_chunk(s, c['n'], 1, name, 'A'), [{'n': n} for n in (0, 1, 2, 3)], ('C06',))
copies('extended_datachunk', lambda s, c, name: alloc_chunk(s, c['n'], 1, name, 'A', g=ivar(s, name + '_g', 0)), [{'n': n} for n in (1, 2, 3)], ('C06', 'C07', 'C26'),
       [{'n': n, 'm': m} for n in (1, 2, 3) for m in (1, 2, 3)] + [{'n': n, 'arg': 'self'} for n in (1, 2, 3)])

# ------------------------------------------------------------------ elements of the other arrays by coordinates or indexer
def elements(ety):
    I = 'indexer_interface<%s>' % ety
    A = lambda s, n: alloc_iface(s, n, 'this', 'A', ety=ety, minlen=1)
    for c_ in ('', ' const'):
        rt(I + '::data(int*)' + c_, lambda s, c: (A(s, c['n']), [P(ints(s, c['n'], 'index'))]), nn31, ('C05',))
        def at(s, c):
            t = A(s, c['n']); b = bounds(s, t)
            o = idx_val(s, b, new_range(s, c['n'], 'sub'), [ivar(s, 'x%d' % i) for i in range(c['n'])], True)
            lim(s, volume(*b), o.f['_linear_index'])
            return t, [s.alloc(o, 'idx')]
        rt(I + '::data(indexer&)' + c_, at, nn31, ('C05', 'C22'))
elements('range'); elements('extended_datachunk')

# ------------------------------------------------------------------ accessors of variables, bases without arguments
def some_var(s, c):
    fields(s, 'variable', VAR_F)
    f = {k: ANY for k in VAR_F}; f.update(_name=opaque(s, 'name'), _component_names=comp_list(s, 'comps'), _basis=basis_val(s, 'basis'))
    return s.alloc(Obj('variable', f), 'this'), []
for nm in ('name', 'component_names'):
    def acc(nm):
        key = 'variable::%s() const' % nm
        @C(key)
        def _(s, this, a): return this.at('_' + nm)
        rt(key, some_var, [{}], ('C15', 'C18'))
    acc(nm)
@C('dataset::basis() const')
def _(s, this, a): return this.at('_basis')
rt('dataset::basis() const', some_var, [{}], ('C15', 'C18'))

# ------------------------------------------------------------------ parameters a solver starts with
def defaults(cls, vals, props=('C21',)):
    key = '%s::%s()' % (cls, cls)
    base = {'_input_variable_ids': LVec((), 'qk::variable::variable_id'), '_output_variable_ids': LVec((), 'qk::variable::variable_id')}
    @C(key)
    def _(s, this, a): init(s, this, dict(base, **vals))
    rt(key, lambda s, c: (raw(s, cls), []), [{}], props)
Q = Fraction
defaults('shock_tube', {'_rho_jump': Q('0.125'), '_P_jump': Q('0.1'), '_gamma': Q('1.4')})
defaults('brio_wu_shock_tube', {'_me': Q('0.04'), '_mi': Q(1), '_nl': Q(1), '_nr': Q('0.125'), '_Pl': Q(1), '_Pr': Q('0.1'), '_gamma': Q(2), '_Bx': Q('0.75'), '_By': Q(1)})
defaults('radial_shock_tube', {'_center': rvec([Q(0)] * 3), '_radius': Q('0.125'), '_rho_jump': Q('0.125'), '_P_jump': Q('0.1'), '_gamma': Q('1.4')})
defaults('electromagnetic_wave_1D', {'_dim': 0, '_k': Q('6.28318526'), '_c': Q(1), '_Bx': Q(0), '_By': Q(1), '_Bz': Q(1)})
defaults('fill', {'_value': Q(0)}, ('C26',))
for cls, props in (('swap', ('C26',)), ('solver', ('C20',))): defaults(cls, {}, props)
def begins(cls, vals, props):
    key = '%s::%s()' % (cls, cls)
    @C(key)
    def _(s, this, a): init(s, this, vals)
    rt(key, lambda s, c: (raw(s, cls), []), [{}], props)
begins('volume_average', {'_name': Str(('volume_average',)), '_num_points': 1}, ('C15', 'C16', 'C18'))
begins('basis', {'_name': Str(('void',)), '_num_points': 0}, ('C16',))
