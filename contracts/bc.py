"""Contracts of the boundary conditions, fill and swap (C08, C09, C26)."""
from contracts.base import *
from contracts.lib import rt, raw
from contracts.idx import state
from contracts.data import *
from contracts.var import *
from qkv.loops import Fold
from qkv.verify import compare
C = R.contract

SOLVER_F = ('_input_variable_ids', '_output_variable_ids')
def id_list(s, name):
    """a list of identifiers of unknown length"""
    n = s.fresh(name + '_n', 'I'); s.assume(T.le(0, n)); i = s.fresh(name, 'I')
    return SymList(i, n, lambda k: vid_at(s, name, k), 'qk::variable::variable_id')
def vid_at(s, name, k):
    a = lambda f: T.app('%s_%s' % (name, f), [k], 'I')
    comps = SymList(a('comps'), a('ncomp'), lambda j: Str((T.app(name + '_compname', [k, j], 'I'),)), 'std::string')
    return Obj('variable_id', {'_name': Str((a('name'),)), '_basis': Obj('basis', {'_name': Str((a('bname'),)), '_num_points': a('points')}), '_component_names': comps})
def mesh_len(s, m, least):
    for a, b in zip(*m): s.assume(T.le(least, T.sub(b, a)))
def var_obj(s, m, name, vid, npts, ncomp, mode='C', get=None):
    """a registered variable over the mesh m with two ghost layers"""
    fields(s, 'variable', VAR_F)
    f = dataset_fields(s, m, vid.f['_basis'].put('_num_points', npts), ncomp, G, mode, name, get)
    f.update(_name=vid.f['_name'], _component_names=vid.f['_component_names'])
    return Obj('variable', f)
def chunk_ref(var): return var.at('_data').idx(0)
def cdata(var): return chunk_ref(var).at('_data')
def outside(s, k): raise Unsupported('variable looked up outside the loop over the identifiers')
def note(s, what): s.ghost['spec_done'] = s.ghost.get('spec_done', Str(())) + Str((what,))

class Loop:
    """for every listed variable, in order: step(run, reference to the variable)"""
    def __init__(l, s, ids, man, m, step, mincomp=0, stride=1, mode='C'):
        l.man = man; l.step = step; l.m = m; l.mincomp = mincomp; l.mode = mode
        l.slots = [s.alloc(Obj('variable', {'ghost_none': 0}), 'slot%d_' % j) for j in range(stride)]
        l.ids = ids; l.mref = man.at('_variables'); l.map0 = s._get(s.store[man.root], ('_variables',), man)
        l.fold = Fold(ids.ident, ids.n, lambda r, k: l.one(r, k), lambda r, k: l.arbitrary(r, k), lambda r, e: l.finish(r, e), lambda r, e: l.start(r, e), stride)
        s.foldspec[ids.ident] = l.fold
    def arbitrary(l, s, k):
        """the manager knows the element's variable, in an arbitrary state"""
        ent = []
        for j, slot in enumerate(l.slots):
            vid = l.ids.elem(T.add(k, j))
            npts, ncomp = (T.app('slot_%s' % w, [j], 'I') for w in ('points', 'ncomp'))
            if not any(T.eq(npts, 1) in s.pc for _ in (0,)): s.assume(T.le(1, npts)); s.assume(T.le(l.mincomp, ncomp))
            s.store[slot.root] = var_obj(s, l.m, 'slot%d' % j, vid, npts, ncomp, l.mode)
            ent.append((0, vid, Ptr(slot, None)))
        s.rawset(l.mref, MapV(tuple(ent), None))
    def one(l, s, k):
        l.step(s, *l.slots)
    def start(l, s, entry):
        if entry[l.man.root].f['_variables'] is not l.map0: raise Unsupported('variables touched before the loop over the identifiers')
    def finish(l, s, entry):
        note(s, 'all listed variables;')

# ------------------------------------------------------------------ boundaries
def dims_list(s, n):
    k = s.fresh('dims_n', 'I'); s.assume(T.le(0, k)); i = s.fresh('dims', 'I')
    def elem(j):
        d = T.app('dim_at', [j], 'I')
        c = T.land(T.le(0, d), T.lt(d, n))
        if c not in s.facts: s.facts.append(c)
        return d
    return SymList(i, k, elem, 'int')
class Dims:
    """for every listed dimension, in order: new(c) = f(dim, c, old) on the whole chunk of the variable"""
    def __init__(l, s, dims, n, var, f):
        l.var = var; l.f = f; l.dims = dims; l.n = n
        l.fold = Fold(dims.ident, dims.n, lambda r, k: l.one(r, k), lambda r, k: l.arbitrary(r), lambda r, e: l.finish(r, e), lambda r, e: l.start(r, e))
        s.foldspec[dims.ident] = l.fold
    def data(l, s): return s._get(s.store[l.var.root], l.var.path + cdata(l.var).path, l.var)
    def start(l, s, entry):
        s.cmp_code = s.cmp_spec = s.store; s.cmp_roots = set(s.store)
        v = l.data(s); compare(s, v, CVec(v.lo, v.hi, field('slot0'), 'double'), 'the loop over the dimensions starts from the data of the variable')
    def arbitrary(l, s):
        v = l.data(s); s.rawset(cdata(l.var), CVec(v.lo, v.hi, field('between'), 'double'))
    def one(l, s, k):
        i = s.conc(l.dims.elem(k), l.n); v = l.data(s)
        s.rawset(cdata(l.var), CVec(v.lo, v.hi, lambda c: l.f(s, i, c, v.get), 'double'))
    def finish(l, s, entry):
        v = l.data(s); s.rawset(cdata(l.var), CVec(v.lo, v.hi, field('after_dims'), 'double'))
def others_inside(c, lo, hi, i):
    """every coordinate but i is internal (c includes point and component coordinates)"""
    return T.land(*[T.land(T.le(a, x), T.lt(x, b)) for j, (a, b, x) in enumerate(zip(lo, hi, c)) if j != i])
def wall(sign, wrap=False):
    def f(m, s, i, c, old):
        lo, hi = m[0][i], m[1][i]
        inner = others_inside(c[:len(m[0])], m[0], m[1], i)
        x = c[i]
        src_l = T.add(x, T.sub(hi, lo)) if wrap else T.sub(T.sub(T.scale(2, lo), 1), x)
        src_u = T.sub(x, T.sub(hi, lo)) if wrap else T.sub(T.sub(T.scale(2, hi), 1), x)
        at = lambda y: T.mul(T.ite(sign(i, c[-1]), Fraction(-1), Fraction(1)), old(tuple(y if j == i else z for j, z in enumerate(c))))
        return s.pick(T.land(inner, T.le(T.sub(lo, G), x), T.lt(x, lo)), lambda: at(src_l),
            lambda: s.pick(T.land(inner, T.le(hi, x), T.lt(x, T.add(hi, G))), lambda: at(src_u), lambda: old(c)))
    return f
never = lambda i, k: False
BC = {'bc_periodic': (wall(never, True), 'C08', 0), 'bc_copy_out': (wall(never), 'C09', 0),
      'bc_no_slip': (wall(lambda i, k: T.land(T.le(1, k), T.lt(k, 4))), 'C09', 4),
      'bc_free_slip': (wall(lambda i, k: T.eq(k, i + 1)), 'C09', 4),
      'bc_conducting_wall': (wall(lambda i, k: T.land(T.le(0, k), T.lt(k, 4))), 'C09', 4)}
def solver_obj(s, cls, extra, ins=None, outs=None):
    fields(s, cls, SOLVER_F + tuple(extra))
    f = {'_input_variable_ids': ins if ins is not None else id_list(s, 'ins'), '_output_variable_ids': outs if outs is not None else id_list(s, 'outs')}
    f.update(extra)
    return s.alloc(Obj(cls, f), 'this')
def the_grid(s, n, least=G):
    m = new_range(s, n, 'mesh', minlen=0); mesh_len(s, m, least)
    nonneg_facts(s, lens(m)); s.facts.append(T.lt(0, volume(*m)))
    return m, s.alloc(range_val(*m), 'grid')
def bc(name):
    f, prop, mincomp = BC[name]
    def setup(s, c):
        m, g = the_grid(s, c['n'])
        man = alloc_manager(s, g, (), outside)
        d = dims_list(s, c['n'])
        this = solver_obj(s, name, {'_dims': d})
        step = lambda s, var: Dims(s, d, c['n'], var, lambda s, i, c, old: f(m, s, i, c, old)).fold.apply(s)
        s.ghost['loop'] = Loop(s, s.load(this.at('_output_variable_ids')), man, m, step, mincomp)
        slot = s.ghost['loop'].slots[0]
        Dims(s, d, c['n'], slot, lambda s, i, c, old: f(m, s, i, c, old))
        return this, [man, ivar(s, 'tag')]
    @C('%s::solve(variable_manager&,int) const' % name)
    def _(s, this, a): s.ghost['loop'].fold.apply(s)
    rt('%s::solve(variable_manager&,int) const' % name, setup, [{'n': n} for n in (1, 2, 3)], (prop,))
for k in BC: bc(k)

# ------------------------------------------------------------------ fill and swap
def t_fill(s, c):
    m, g = the_grid(s, c['n'], 1); man = alloc_manager(s, g, (), outside); v = rvar(s, 'value')
    this = solver_obj(s, 'fill', {'_value': v})
    def step(s, var):
        d = s._get(s.store[var.root], cdata(var).path, var); s.rawset(cdata(var), CVec(d.lo, d.hi, lambda c: v, 'double'))
    s.ghost['loop'] = Loop(s, s.load(this.at('_output_variable_ids')), man, m, step)
    return this, [man, ivar(s, 'tag')]
@C('fill::solve(variable_manager&,int) const')
def _(s, this, a): s.ghost['loop'].fold.apply(s)
rt('fill::solve(variable_manager&,int) const', t_fill, [{'n': n} for n in (1, 2, 3)], ('C26',))
@C('fill::setup(double)')
def _(s, this, a): s.put(this.at('_value'), a[0])
rt('fill::setup(double)', lambda s, c: (solver_obj(s, 'fill', {'_value': rvar(s, 'old')}), [rvar(s, 'v')]), [{}], ('C26',))
def t_swap(s, c):
    m, g = the_grid(s, c['n'], 1); man = alloc_manager(s, g, (), outside)
    this = solver_obj(s, 'swap', {}); ids = s.load(this.at('_output_variable_ids'))
    def step(s, a, b):
        e = s._get(s.store[man.root], ('_variables',), man).entries
        if s.branch(key_eq(s, e[0][1], e[1][1])): return          # one variable listed twice: nothing changes
        x, y = s._get(s.store[a.root], ('_data',), a), s._get(s.store[b.root], ('_data',), b)
        s.rawset(a.at('_data'), y); s.rawset(b.at('_data'), x)
    s.ghost['loop'] = Loop(s, ids, man, m, step, stride=2)
    return this, [man, ivar(s, 'tag')]
from qkv.builtins import key_eq
@C('swap::solve(variable_manager&,int) const')
def _(s, this, a):
    n = s.load(this.at('_output_variable_ids')).n
    if s.branch(T.ne(T.tmod(n, 2), 0)): throw()
    s.ghost['loop'].fold.apply(s)
rt('swap::solve(variable_manager&,int) const', t_swap, [{'n': n} for n in (1, 2, 3)], ('C26', 'C20'))
