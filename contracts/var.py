"""Contracts of dataset, variable and variable_manager (C07, C15)."""
from contracts.base import *
from contracts.lib import rt, raw, init_range
from contracts.idx import state
from contracts.data import *
from contracts.misc import opaque, basis_val, vid_val
from qkv.builtins import MapV, map_find
C = R.contract

DSET_F = IFACE_F + ('_basis', '_data_range', '_mesh_range_global', '_mesh_range_local', '_chunk_range_global')
VAR_F = DSET_F + ('_name', '_component_names')
MAN_F = ('_grid', '_variables', '_dt', '_time')
G = 2
def init(s, this, f):
    o = s._get(s.store[this.root], this.path, this); g = dict(o.f); g.update(f); s.rawset(this, Obj(o.cls, g))
def dataset_fields(s, m, basis, ncomp, g, mode='A', name=None, get=None):
    """fields of a dataset over the mesh m: one chunk with the data range points x components and g ghost layers"""
    d = ([0, 0], [basis.f['_num_points'], ncomp]); n = len(m[0])
    f = {'_basis': basis, '_data_range': range_val(*d), '_mesh_range_global': range_val(*m)}
    empty = range_val([], [])
    if n == 0 or not s.branch(T.lt(0, volume(*m))):
        f.update(range_fields([], []), _data=LVec((), 'qk::data::extended_datachunk'), _mesh_range_local=empty, _chunk_range_global=empty)
        return f
    if get is None and name is None: get = lambda i: Fraction(0)
    c = range_val([0] * n, [1] * n)
    f.update(range_fields([0] * n, [1] * n), _mesh_range_local=range_val(*m), _chunk_range_global=c)
    f['_data'] = LVec((chunk_obj(s, m, d, name, mode, g, get=get),), 'qk::data::extended_datachunk')
    return f
def basis_of(s, a): return s.slice(s.load(a), 'basis') if isinstance(a, Ref) else a
@C('dataset::dataset()')
def _(s, this, a):
    init(s, this, dataset_fields(s, ([], []), Obj('basis', {'_name': ANY, '_num_points': ANY}), 1, G)); s.rawset(this.at('_data_range'), ANY)
@C('dataset::dataset(range&,basis&,int,int)')
def _(s, this, a): init(s, this, dataset_fields(s, bounds(s, a[0]), basis_of(s, a[1]), a[2], a[3]))
@C('variable::variable(string&,vector<string>&,basis&,range&,int)')
def _(s, this, a):
    comps = s.load(a[1]); n = comps.n if isinstance(comps, SymList) else len(comps.items)
    init(s, this, dataset_fields(s, bounds(s, a[3]), basis_of(s, a[2]), n, a[4]))
    s.rawset(this.at('_name'), s.load(a[0])); s.rawset(this.at('_component_names'), comps)

def grid_range(s, n, name):
    return rr(s, n, name)
def dset(s, c, cls):
    m = grid_range(s, c['n'], 'mesh'); b = basis_val(s, 'basis'); k = ivar(s, 'ncomp', 0); g = ivar(s, 'g', 0)
    s.assume(T.le(0, b.f['_num_points']))
    vol_fact(s, bounds(s, m), b, k, g)
    return m, s.alloc(b, 'basis'), k, g
def vol_fact(s, m, b, k, g):
    e = extend(m, g); s.facts.append(T.le(0, volume(tuple(e[0]) + (0, 0), tuple(e[1]) + (b.f['_num_points'], k))))
def t_ds(s, c):
    fields(s, 'dataset', DSET_F); m, b, k, g = dset(s, c, 'dataset')
    return raw(s, 'dataset'), [m, b, k, g]
n4 = [{'n': n} for n in (0, 1, 2, 3)]
def t_ds0(s, c):
    fields(s, 'dataset', DSET_F); return raw(s, 'dataset'), []
rt('dataset::dataset()', t_ds0, [{}], ('C07',))
rt('dataset::dataset(range&,basis&,int,int)', t_ds, n4, ('C07', 'C15'))
def comp_list(s, name):
    n = s.fresh(name + '_n', 'I'); s.assume(T.le(0, n)); i = s.fresh(name, 'I')
    return SymList(i, n, lambda k: Str((T.app(name + '_at', [i, k], 'I'),)), 'std::string')
def t_var(s, c):
    fields(s, 'variable', VAR_F)
    m, b, _, g = dset(s, c, 'variable')
    cl = comp_list(s, 'comps'); vol_fact(s, bounds(s, m), s.load(b), cl.n, g)
    return raw(s, 'variable'), [s.alloc(opaque(s, 'name'), 'name'), s.alloc(cl, 'comps'), b, m, g]
rt('variable::variable(string&,vector<string>&,basis&,range&,int)', t_var, n4, ('C07', 'C15'))

# ------------------------------------------------------------------ manager
def new_variable(s, vid, gridref):
    comps = vid.f['_component_names']; n = comps.n if isinstance(comps, SymList) else len(comps.items)
    f = dataset_fields(s, bounds(s, gridref), vid.f['_basis'], n, G)
    f.update(_name=vid.f['_name'], _component_names=comps)
    return Ptr(s.alloc(Obj('variable', f), 'new_'), None)
def manref(s, this): return this.at('_variables')
def mapof(s, this): return s._get(s.store[this.root], this.path + ('_variables',), this)
@C('variable_manager::output_variable(variable_id&)')
def _(s, this, a):
    m = mapof(s, this); it = map_find(s, manref(s, this), m, a[0])
    if it.key is None:
        vid = s.load(a[0])
        p = new_variable(s, vid, state(s, this).f['_grid'])
        if s.rec: s.note_bulk(manref(s, this))
        s.rawset(manref(s, this), MapV(m.entries + ((0, vid, p),), m.rest))
        return p.base
    return m.entries[it.key][2].base
@C('variable_manager::input_variable(variable_id&) const')
def _(s, this, a):
    m = mapof(s, this); it = map_find(s, manref(s, this), m, a[0])
    if it.key is None: throw()
    return m.entries[it.key][2].base
@C('variable_manager::add_variable(variable_id&)')
def _(s, this, a):
    m = mapof(s, this); it = map_find(s, manref(s, this), m, a[0])
    if it.key is not None: throw()
    vid = s.load(a[0])
    s.rawset(manref(s, this), MapV(m.entries + ((0, vid, new_variable(s, vid, state(s, this).f['_grid'])),), m.rest))
@C('variable_manager::variable_manager(grid&)')
def _(s, this, a): init(s, this, {'_grid': a[0], '_variables': MapV.empty(), '_dt': ANY, '_time': ANY})
@C('variable_manager::grid() const')
def _(s, this, a): return state(s, this).f['_grid']
@C('variable_manager::set_time(double)')
def _(s, this, a): s.put(this.at('_time'), a[0])
@C('variable_manager::set_dt(double)')
def _(s, this, a): s.put(this.at('_dt'), a[0])
@C('variable_manager::time() const')
def _(s, this, a): return state(s, this).f['_time']
@C('variable_manager::dt() const')
def _(s, this, a): return state(s, this).f['_dt']

def full_vid(s, name):
    v = vid_val(s, name); cl = comp_list(s, name + '_comps')
    s.assume(T.le(0, v.f['_basis'].f['_num_points']))
    return v.put('_component_names', cl)
def agree(s, vids):
    """identifiers with equal names have equal components (C16; otherwise comparison throws)"""
    for i in range(len(vids)):
        for j in range(i): s.assume(T.implies(T.eq(vids[i].f['_name'].parts[0], vids[j].f['_name'].parts[0]), T.eq(vids[i].f['_component_names'].ident, vids[j].f['_component_names'].ident)))
def some_variable(s, name, n):
    """a registered variable; its contents do not matter to the manager"""
    return s.alloc(Obj('variable', {'contents': s.fresh(name, 'I')}), name)
def alloc_manager(s, grid, entries, rest=None):
    fields(s, 'variable_manager', MAN_F)
    return s.alloc(Obj('variable_manager', {'_grid': grid, '_variables': MapV(tuple(entries), rest), '_dt': rvar(s, 'dt'), '_time': rvar(s, 'time')}), 'manager')
def t_man(s, c):
    fields(s, 'variable', VAR_F)
    g = grid_range(s, c['n'], 'grid')
    vids = [full_vid(s, 'k%d' % i) for i in range(c['vars'])]; q = full_vid(s, 'id')
    agree(s, vids + [q])
    from qkv.builtins import key_eq
    for i in range(len(vids)):
        for j in range(i): s.assume(T.lnot(key_eq(s, vids[i], vids[j])))
    vol_fact(s, bounds(s, g), q.f['_basis'], q.f['_component_names'].n, G)
    man = alloc_manager(s, g, [(0, v, Ptr(some_variable(s, 'v%d' % i, c['n']), None)) for i, v in enumerate(vids)])
    return man, [s.alloc(q, 'id')]
cf = [{'n': n, 'vars': v} for n in (0, 1, 2, 3) for v in (0, 1, 2)]
for k in ('output_variable(variable_id&)', 'input_variable(variable_id&) const', 'add_variable(variable_id&)'): rt('variable_manager::' + k, t_man, cf, ('C15',))
rt('variable_manager::variable_manager(grid&)', lambda s, c: (raw(s, 'variable_manager'), [grid_range(s, c['n'], 'grid')]), n4[1:], ('C15',))
def t_acc(arg):
    def f(s, c):
        m, _ = t_man(s, {'n': 2, 'vars': 1}); return m, [rvar(s, 'x')] if arg else []
    return f
for k, a in (('grid() const', 0), ('set_time(double)', 1), ('set_dt(double)', 1), ('time() const', 0), ('dt() const', 0)): rt('variable_manager::' + k, t_acc(a), [{}], ('C15',))
