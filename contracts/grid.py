"""Contracts of the grids (C17, C18, C22, C24) and of range_set (C19)."""
from contracts.base import *
from contracts.lib import rt, raw, init_range, from_ptr, nn, P
from contracts.idx import state, alloc_moved, comp
from contracts.data import chunk_obj, lens, inbox, extend
from contracts.misc import basis_val
C = R.contract
HALF = Fraction(1, 2)
GRID_F = RANGE_F + ('_startxs', '_widths')
RECT_F = GRID_F + ('_dxs',)

def rvec(xs): return LVec(xs, 'double')
def grid_fields(lo, hi, st, wd): return dict(range_fields(lo, hi), _startxs=rvec(st), _widths=rvec(wd))
def reals(s, n, name): return [s.fresh('%s%d' % (name, i), 'R') for i in range(n)]
def grid_setup(s, this, a):
    lo, hi = bounds(s, a[0]); n = len(lo)
    st, wd = from_ptr(s, a[1], n), from_ptr(s, a[2], n)
    o = s._get(s.store[this.root], this.path, this)
    f = dict(o.f); f.update(grid_fields(lo, hi, st, wd)); s.rawset(this, Obj(o.cls, f))
    return lo, hi, st, wd
@C('grid::grid()')
def _(s, this, a):
    o = s._get(s.store[this.root], this.path, this)
    f = dict(o.f); f.update(grid_fields([], [], [], [])); s.rawset(this, Obj(o.cls, f))
@C('grid::setup(range&,double*,double*)')
def _(s, this, a): grid_setup(s, this, a)
@C('grid::grid(range&,double*,double*)')
def _(s, this, a): grid_setup(s, this, a)
@C('grid::range() const')
def _(s, this, a): return this
def gdim(s, this, d):
    n = len(bounds(s, this)[0])
    if not s.branch(T.land(T.le(0, d), T.lt(d, n))): throw()
    return s.conc(d, n)
for nm, fld in (('width', '_widths'), ('start', '_startxs')):
    def acc(nm, fld):
        @C('grid::%s(int) const' % nm)
        def _(s, this, a): return state(s, this).f[fld].items[gdim(s, this, a[0])]
    acc(nm, fld)
def cell_size(w, l): return T.div(w, T.to_real(l))
@C('rectilinear::rectilinear()')
def _(s, this, a):
    o = s._get(s.store[this.root], this.path, this)
    f = dict(o.f); f.update(grid_fields([], [], [], []), _dxs=rvec([])); s.rawset(this, Obj(o.cls, f))
@C('rectilinear::rectilinear(range&,double*,double*)')
def _(s, this, a):
    lo, hi, st, wd = grid_setup(s, this, a)
    for l, h in zip(lo, hi): s.require(T.ne(l, h), 'a dimension has cells')
    s.rawset(this.at('_dxs'), rvec([cell_size(w, T.sub(h, l)) for w, l, h in zip(wd, lo, hi)]))
@C('rectilinear::dx(int) const')
def _(s, this, a): return state(s, this).f['_dxs'].items[gdim(s, this, a[0])]
def centre(o, k, i): return T.add(o.f['_startxs'].items[k], T.mul(T.add(T.to_real(i), HALF), o.f['_dxs'].items[k]))
@C('rectilinear::centroid(int,int) const')
def _(s, this, a):
    k = gdim(s, this, a[0]); lo, hi = bounds(s, this)
    if not s.branch(T.land(T.le(lo[k], a[1]), T.lt(a[1], hi[k]))): throw()
    return centre(state(s, this), k, a[1])
@C('rectilinear::xc(indexer&,double*) const')
def _(s, this, a):
    o = state(s, this); n = len(bounds(s, this)[0])
    x = state(s, a[0]).f['_index'].items
    s.require(n <= len(x), 'the indexer has the dimensions of the grid')
    for k in range(n): s.put(a[1].base.idx(T.add(a[1].off, k)), centre(o, k, x[k]))

def rect_obj(s, b, name='grid'):
    """a rectilinear grid over b: widths are cell size times number of cells"""
    fields(s, 'rectilinear', RECT_F)
    n = len(b[0]); st = reals(s, n, name + '_start'); dx = reals(s, n, name + '_dx')
    f = grid_fields(b[0], b[1], st, [T.mul(d, T.to_real(T.sub(h, l))) for d, l, h in zip(dx, *b)])
    f['_dxs'] = rvec(dx)
    return Obj('rectilinear', f)
def alloc_rect(s, n, name='this'):
    return s.alloc(rect_obj(s, new_range(s, n, name, minlen=1), name), name)
def alloc_grid(s, n, name='this'):
    fields(s, 'grid', GRID_F)
    b = new_range(s, n, name)
    return s.alloc(Obj('rectilinear', dict(grid_fields(b[0], b[1], reals(s, n, 'st'), reals(s, n, 'wd')), _dxs=rvec(reals(s, n, 'dx')))), name)
n13 = [{'n': n} for n in (1, 2, 3)]; n03 = [{'n': 0}] + n13
P17 = ('C17',)
def buf(s, n, name): return P(s.alloc(rvec(reals(s, n, name)), name))
rt('grid::grid()', lambda s, c: (raw(s, 'grid'), []), [{}], P17)
rt('grid::grid(range&,double*,double*)', lambda s, c: (raw(s, 'grid'), [alloc_range(s, c['n'], 'r'), buf(s, c['n'], 'st'), buf(s, c['n'], 'wd')]), n03, P17)
def gsetup(s, c):
    b = new_range(s, c['m'], 'this')
    return s.alloc(Obj('grid', grid_fields(b[0], b[1], reals(s, c['m'], 'ost'), reals(s, c['m'], 'owd'))), 'this'), [alloc_range(s, c['n'], 'r'), buf(s, c['n'], 'st'), buf(s, c['n'], 'wd')]
rt('grid::setup(range&,double*,double*)', gsetup, [{'n': n, 'm': m} for n in (0, 1, 2, 3) for m in (0, 2)], P17)
rt('grid::range() const', lambda s, c: (alloc_rect(s, c['n']), []), n03, P17)
for nm in ('width', 'start'): rt('grid::%s(int) const' % nm, lambda s, c: (alloc_grid(s, c['n']), [ivar(s, 'dim')]), n03, ('C17', 'C22'))
rt('rectilinear::rectilinear()', lambda s, c: (raw(s, 'rectilinear'), []), [{}], P17)
rt('rectilinear::rectilinear(range&,double*,double*)', lambda s, c: (raw(s, 'rectilinear'), [alloc_range(s, c['n'], 'r', minlen=1), buf(s, c['n'], 'st'), buf(s, c['n'], 'wd')]), n03, P17)
rt('rectilinear::dx(int) const', lambda s, c: (alloc_rect(s, c['n']), [ivar(s, 'dim')]), n03, ('C17', 'C22'))
rt('rectilinear::centroid(int,int) const', lambda s, c: (alloc_rect(s, c['n']), [ivar(s, 'dim'), ivar(s, 'index')]), n03, ('C17', 'C22'))
rt('rectilinear::xc(indexer&,double*) const', lambda s, c: (alloc_rect(s, c['n']), [alloc_moved(s, c['n'] + c['more'], 'idx'), buf(s, 4, 'x')]), [{'n': n, 'more': k} for n in (1, 2, 3) for k in (0, 1, 2)], P17)

# ------------------------------------------------------------------ range_set
from qkv.verify import lookup, compare
def tiling(m, ctor):
    def f(s):
        """the ranges of consecutive subdivisions are adjacent, the first starts and the last ends with the range: they tile it"""
        fields(s, 'range_set', RANGE_F + ('_data', '_superRange'))
        sup = alloc_range(s, m, 'sup', minlen=0); N = [s.fresh('N%d' % i, 'I') for i in range(m)]
        for x in N: s.assume(T.le(1, x))
        for i in range(m):
            for j in range(i + 2, m + 1): s.facts.append(T.le(1, prod(N[i:j])))
        cnt = s.alloc(LVec(N, 'int'), 'num')
        this = s.alloc(Obj('range_set', {} if ctor else dict(range_fields([], []), _data=LVec((), 'range'), _superRange=range_val([], []))), 'this')
        pre = dict(s.store)
        if ctor: s.run_ctor(lookup(s.prog, 'range_set::range_set(range&,int*)'), this, [sup, P(cnt)])
        else: s.run_fn(lookup(s.prog, 'range_set::setup(range&,int*)'), this, [sup, P(cnt)])
        for r in (sup, cnt): s.oblige(s.store[r.root] is pre[r.root], 'arguments are unchanged')
        o = s.load(this); b = bounds(s, sup)
        s.cmp_code = s.cmp_spec = s.store
        compare(s, s.slice(o, 'range'), range_val([0] * m, N), 'one range per subdivision')
        v = o.f['_data']
        k = [s.fresh('k%d' % i, 'I') for i in range(m)]
        for x, n in zip(k, N): s.assume(T.le(0, x)); s.assume(T.lt(x, n))
        def at(c):
            e = v.get(tuple(c))
            return e.f['_lower'].items, e.f['_upper'].items, e
        lo, hi, e = at(k)
        compare(s, e, range_val(lo, hi), 'subdivision is a well-formed range')
        other = [s.fresh('q%d' % i, 'I') for i in range(m)]
        for x, n in zip(other, N): s.assume(T.le(0, x)); s.assume(T.lt(x, n))
        for i in range(m):
            s.oblige(T.le(b[0][i], lo[i]), 'within the range'); s.oblige(T.le(lo[i], hi[i]), 'not inverted'); s.oblige(T.le(hi[i], b[1][i]), 'within the range')
            l2, h2, _ = at(upd(other, i, k[i]))
            s.oblige(T.land(T.eq(lo[i], l2[i]), T.eq(hi[i], h2[i])), 'extent in a dimension depends on the subdivision of that dimension only')
            n0 = len(s.pc)
            s.pc.append(T.lt(T.add(k[i], 1), N[i]))
            l2, h2, _ = at(upd(k, i, T.add(k[i], 1)))
            s.oblige(T.eq(hi[i], l2[i]), 'consecutive subdivisions are adjacent')
            del s.pc[n0:]
            l2, h2, _ = at(upd(k, i, 0)); s.oblige(T.eq(l2[i], b[0][i]), 'the first subdivision starts with the range')
            l2, h2, _ = at(upd(k, i, T.sub(N[i], 1))); s.oblige(T.eq(h2[i], b[1][i]), 'the last subdivision ends with the range')
    R.lemma('range_set::%s(range&,int*) [m=%d]' % ('range_set' if ctor else 'setup', m), f, ('C19',))
for m in (1, 2, 3): tiling(m, False); tiling(m, True)
def chain(s):
    """adjacent intervals g(k)..g(k+1): a point at or after g(k) lies in interval k or at or after g(k+1) (induction step of: every point lies in exactly one)"""
    g = lambda k: T.app('g', [k], 'I'); k = s.fresh('k', 'I'); x = s.fresh('x', 'I')
    s.assume(T.le(g(k), g(T.add(k, 1)))); s.assume(T.le(g(k), x))
    a = T.land(T.le(g(k), x), T.lt(x, g(T.add(k, 1)))); c = T.le(g(T.add(k, 1)), x)
    s.oblige(T.lor(a, c), 'covered'); s.oblige(T.lnot(T.land(a, c)), 'once')
R.lemma('consecutive adjacent intervals tile their union', chain, ('C19',))
