"""Contracts of the small functions everything is configured with: lists of identifiers, parameters, accessors."""
from contracts.base import *
from contracts.lib import rt, raw
from contracts.idx import state
from contracts.misc import opaque, basis_val, vid_val
from contracts.bc import solver_obj, id_list, dims_list, BC
from contracts.var import comp_list, init
from qkv.builtins import snoc
C = R.contract

# ------------------------------------------------------------------ lists of solver variables
LISTS = ('C08', 'C09', 'C20', 'C26')
class_solver = 'swap'                       # a class without members of its own
def one_id(s):
    v = vid_val(s, 'new'); cl = comp_list(s, 'new_comps'); return s.alloc(v.put('_component_names', cl), 'id')
for io in ('input', 'output'):
    def both(io):
        fld = '_%s_variable_ids' % io
        @C('solver::add_%s_variable(variable_id&)' % io)
        def _(s, this, a): s.put(this.at(fld), snoc(s, s.load(this.at(fld)), s.load(a[0])))
        rt('solver::add_%s_variable(variable_id&)' % io, lambda s, c: (solver_obj(s, class_solver, {}), [one_id(s)]), [{}], LISTS)
        @C('solver::set_%s_variables(vector<variable_id>&)' % io)
        def _(s, this, a): s.put(this.at(fld), s.load(a[0]))
        rt('solver::set_%s_variables(vector<variable_id>&)' % io, lambda s, c: (solver_obj(s, class_solver, {}), [s.alloc(id_list(s, 'ids'), 'ids')]), [{}], LISTS)
    both(io)
for cls, (f, prop, mincomp) in BC.items():
    def dims(cls, prop):
        @C(cls + '::setup(vector<int>&)')
        def _(s, this, a): s.put(this.at('_dims'), s.load(a[0]))
        rt(cls + '::setup(vector<int>&)', lambda s, c: (solver_obj(s, cls, {'_dims': dims_list(s, 3)}), [s.alloc(SymList(s.fresh('dims', 'I'), ivar(s, 'ndims', 0), lambda k: T.app('new_dim', [k], 'I'), 'int'), 'dims')]), [{}], (prop,))
    dims(cls, prop)

# ------------------------------------------------------------------ identifiers and bases
@C('variable_id::variable_id(string&,vector<string>&,basis&)')
def _(s, this, a):
    val = lambda r: s.load(r) if isinstance(r, Ref) else r
    init(s, this, {'_name': val(a[0]), '_component_names': val(a[1]), '_basis': s.slice(val(a[2]), 'basis')})
def t_vid(s, c):
    fields(s, 'variable_id', ('_name', '_basis', '_component_names'))
    return raw(s, 'variable_id'), [s.alloc(opaque(s, 'name'), 'name'), s.alloc(comp_list(s, 'comps'), 'comps'), s.alloc(basis_val(s, 'basis'), 'basis')]
rt('variable_id::variable_id(string&,vector<string>&,basis&)', t_vid, [{}], ('C15', 'C16'))
for cls, mkv, acc in (('variable_id', vid_val, ('name', 'basis', 'component_names')), ('basis', basis_val, ('name', 'num_points'))):
    def accessors(cls, mkv, acc):
        for nm in acc:
            @C('%s::%s() const' % (cls, nm))
            def _(s, this, a, nm=nm): return this.at('_' + nm) if nm != 'num_points' else s.load(this.at('_' + nm))
            rt('%s::%s() const' % (cls, nm), lambda s, c: (s.alloc(mkv(s, 'a'), 'this'), []), [{}], ('C15', 'C16', 'C18'))
    accessors(cls, mkv, acc)
