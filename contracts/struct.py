"""Contracts of the structured grid (C24).

The sizes D of a dimension have partial sums P: P(0) = 0 and P(i+1) = P(i) + D(i). The postconditions are P(N) = width and
centroid(i) = start + P(i) + D(i)/2. A contract offers witnesses for P; base and step are proved, so P is the sum."""
from contracts.fv import *
from contracts.grid import GRID_F, grid_fields, grid_setup, gdim, rvec, reals, HALF
from qkv.loops import closed_ok
from qkv.builtins import power, sign
from qkv.verify import same_term, Check
from qkv.interp import Obligation
from qkv import smt
C = R.contract
P24 = ('C24',)
STRUCT_F = GRID_F + ('_dxs', '_xcs')

def psum(ident, D, j, top=None):
    """sum of D over [0, j), as one application and the terms next to it; top = (N, value of the sum at N)"""
    c, d = T._addend(j)
    if top is not None and isinstance(T.sub(j, top[0]), int): base, c, r = top[0], T.sub(j, top[0]), top[1]
    elif not d:
        if not 0 <= j <= 4: raise Unsupported('sum')
        base, r = 0, Fraction(0)
    else: base = T.sub(j, c); r = T.app('psum', [ident, base], 'R')
    if abs(c) > 4: raise Unsupported('sum')
    for k in range(c): r = T.add(r, D(T.add(base, k)))
    for k in range(c, 0): r = T.sub(r, D(T.add(base, k)))
    return r
def element(s, this, fld, k): return s._get(s.store[this.root], this.path + (fld,), this).items[k]
def set_element(s, this, fld, k, v):
    r = this.at(fld); a = s._get(s.store[r.root], r.path, r); s.put(r, LVec(upd(a.items, k, v), a.ety))

@C('structured::recalculate_xcs(int)')
def _(s, this, a):
    k = gdim(s, this, a[0]); lo, hi = bounds(s, this); N = T.sub(hi[k], lo[k])
    D, X = element(s, this, '_dxs', k), element(s, this, '_xcs', k)
    if not isinstance(D, AVec) or not isinstance(X, AVec): raise Unsupported('sizes')
    s.require(T.land(T.le(1, N), T.le(N, D.n), T.le(N, X.n)), 'the dimension has cells')
    i = s.ghost.get('sum_id')
    if i is None: i = s.fresh('sum', 'I')
    s.ghost['sum', i] = (D, k)
    st = state(s, this).f['_startxs'].items[k]
    set_element(s, this, '_xcs', k, AVec(X.n, lambda j: s.pick(T.land(T.le(0, j), T.lt(j, N)), lambda: T.add(st, psum(i, D.get, j), T.mul(HALF, D.get(j))), lambda: X.get(j)), X.ety))
@C('structured::bias_array(double*,int,double)')
def _(s, this, a):
    p, n = a[0], a[1]
    s.require(T.le(1, n), 'the array has elements'); s.require(T.lt(0, a[2]), 'the power is positive')
    v = s._get(s.store[p.base.root], p.base.path, p.base)
    if not isinstance(v, AVec): raise Unsupported('sizes')
    s.require(T.land(T.le(0, p.off), T.le(T.add(p.off, n), v.n)), 'the array holds the sizes')
    if s.ghost.get('bias_task'):
        w = unit_sum(n, s.ghost['bias_forms']); 
        s.put(p.base, w); return
    i = s.fresh('bias', 'I'); s.ghost['bias'] = s.ghost.get('bias', ()) + ((i, n),)
    D = lambda j: T.app('bias_size', [i, j], 'R')
    s.put(p.base, AVec(v.n, lambda j: s.pick(T.land(T.le(p.off, j), T.lt(j, T.add(p.off, n))), lambda: D(T.sub(j, p.off)), lambda: v.get(j)), v.ety))
def unit_sum(n, forms):
    """Check: the first n elements are the differences of a function with the values 0 at 0 and 1 at n"""
    def fn(s, a, label):
        if not isinstance(a, AVec): raise Unsupported(label + ': representation')
        i = s.fresh('i', 'I'); k = len(s.pc); s.pc.append(T.land(T.le(0, i), T.lt(i, n)))
        v = a.get(i)
        for F in forms:
            if closed_ok(s, v, T.sub(F(T.add(i, 1)), F(i)), []):
                del s.pc[k:]
                s.obs.append(Obligation(label + ': the sizes are the steps of the witness', 'proved', '', s.name))
                same_term(s, F(0), Fraction(0), label + ': sum of no sizes'); same_term(s, F(n), Fraction(1), label + ': sum of the sizes')
                return
        raise Unsupported(label + ': no witness for the partial sums of %s' % T.show(v, 8))
    return Check(fn)

class Dim:
    """postcondition of one dimension; cands(s): witnesses of the partial sums"""
    def __init__(w, N, start, width, cands, mirror=False):
        w.N = N; w.start = start; w.width = width; w.cands = cands; w.mirror = mirror; w.P = None
    def index(w, s):
        i = s.fresh('i', 'I'); s.pc.append(T.land(T.le(0, i), T.lt(i, w.N))); return i
    def cases(w, s, i):
        ns = [n for _, n in s.ghost.get('bias', ())]
        return [c for n in ns[:1] for c in (T.lt(i, n), T.eq(i, n), T.lt(n, i))] or [T.eq(0, 0)]
    def step(w, s, a, P, i, c):
        q = len(s.pc); s.pc.append(c)
        try: return closed_ok(s, T.add(P(i), a.get(i)), P(T.add(i, 1)), [])
        finally: del s.pc[q:]
    def sizes(w):
        def fn(s, a, label):
            if not isinstance(a, AVec): raise Unsupported(label + ': representation')
            same_term(s, a.n, w.N, label + ': number of sizes')
            k = len(s.pc); i = w.index(s); v = a.get(i); w.P = None
            for P in w.cands(s):
                if closed_ok(s, P(0), Fraction(0), []) and all(w.step(s, a, P, i, c) for c in w.cases(s, i)): w.P = P; break
            if w.P is None: raise Unsupported(label + ': no witness for the partial sums of %s' % T.show(v, 8))
            s.obs.append(Obligation(label + ': partial sums', 'proved', '', s.name))
            for c in w.cases(s, i) if w.mirror else ():
                q = len(s.pc); s.pc.append(c)
                if not smt.unsat(s.hyp(), 4.0): same_term(s, a.get(i), a.get(T.sub(T.sub(w.N, 1), i)), label + ': mirror symmetry')
                del s.pc[q:]
            del s.pc[k:]
            same_term(s, w.P(w.N), w.width, label + ': the sizes add up to the width')
            w.D = a
        return Check(fn)
    def centres(w):
        def fn(s, a, label):
            if w.P is None or not isinstance(a, AVec): raise Unsupported(label + ': representation')
            same_term(s, a.n, w.N, label + ': number of centroids')
            k = len(s.pc); i = w.index(s); v = a.get(i); m = {}
            for x in T.atoms(v, lambda x: x.op == 'app' and x.args[0] == 'psum'):
                D, _ = s.ghost.get(('sum', x.args[1]), (None, None))
                if D is None: raise Unsupported(label + ': unknown sum')
                if D is not w.D:
                    if not closed_ok(s, D.get(i), w.D.get(i), []): raise Unsupported(label + ': sum of other sizes')
                m[x] = w.P(x.args[2])       # by induction
            same_term(s, T.subst(v, m) if m else v, T.add(w.start, w.P(i), T.mul(HALF, w.D.get(i))), label + ': centre of the cell')
            del s.pc[k:]
        return Check(fn)

def struct_obj(s, m):
    fields(s, 'structured', STRUCT_F); n = len(m[0]); f = grid_fields(m[0], m[1], reals(s, n, 'start'), reals(s, n, 'width'))
    arr = lambda nm: LVec([AVec(T.sub(h, l), lambda j, i=i: T.app('%s%d' % (nm, i), [j], 'R'), 'double') for i, (l, h) in enumerate(zip(*m))], 'std::vector<double>')
    f.update(_dxs=arr('size'), _xcs=arr('centre'))
    return Obj('structured', f)
def alloc_struct(s, n):
    m = new_range(s, n, 'grid', minlen=1); return m, s.alloc(struct_obj(s, m), 'grid')

# ---- recalculate_xcs
def t_rec(s, c):
    m, g = alloc_struct(s, c['n']); o = s.load(g); i = s.fresh('sum', 'I'); s.ghost['sum_id'] = i; d = ivar(s, 'dim')
    k = c['dim']; s.assume(T.eq(d, k)) if k is not None else s.assume(T.lor(T.lt(d, 0), T.le(c['n'], d)))
    if k is not None:
        D = o.f['_dxs'].items[k].get; st = o.f['_startxs'].items[k]
        raw_ = lambda j: T.app('psum', [i, j], 'R')
        s.facts.append(T.eq(raw_(0), Fraction(0)))
        s.index_hints = lambda j: [T.eq(raw_(j), T.add(raw_(T.sub(j, 1)), D(T.sub(j, 1))))]
        A, B, S = (lambda s: lambda j: T.add(st, psum(i, D, j), T.mul(HALF, D(j)))), (lambda s: lambda j: T.add(st, psum(i, D, j))), (lambda s: lambda j: psum(i, D, j))
        s.closed_forms = [A, B, S]
    return g, [d]
rt('structured::recalculate_xcs(int)', t_rec, [{'n': n, 'dim': k} for n in (1, 2, 3) for k in list(range(n)) + [None]], P24)
# ---- bias_array
def t_bias(s, c):
    m, g = alloc_struct(s, 1); n = ivar(s, 'size', 1); p = rvar(s, 'power'); s.assume(T.lt(0, p))
    G_ = lambda j: power(s, T.div(T.to_real(j), T.to_real(n)), T.div(Fraction(1), p))
    s.closed_forms = [lambda s: G_]; s.ghost['bias_forms'] = [G_]; s.ghost['bias_task'] = True
    out = s.alloc(AVec(n, lambda j: T.app('out', [j], 'R'), 'double'), 'dxs')
    return g, [Ptr(out, 0), n, p]
rt('structured::bias_array(double*,int,double)', t_bias, [{}], P24)

# ---- biases
def bias_of(s):
    b = s.ghost.get('bias', ())
    if len(b) != 1: raise Unsupported('sizes that do not come from one biased array')
    i, n = b[0]; D = lambda j: T.app('bias_size', [i, j], 'R')
    s.facts.append(T.eq(T.app('psum', [i, n], 'R'), Fraction(1)))     # contract of bias_array
    return n, lambda j: psum(i, D, j, (n, Fraction(1)))
def post(s, this, k, cands, mirror):
    o = s._get(s.store[this.root], this.path, this); lo, hi = bounds(s, this)
    w = Dim(T.sub(hi[k], lo[k]), o.f['_startxs'].items[k], o.f['_widths'].items[k], cands, mirror)
    s.rawset(this.at('_dxs'), LVec(upd(o.f['_dxs'].items, k, w.sizes()), o.f['_dxs'].ety))
    s.rawset(this.at('_xcs'), LVec(upd(o.f['_xcs'].items, k, w.centres()), o.f['_xcs'].ety))
    return w
@C('structured::apply_bias_linear(int,double)')
def _(s, this, a):
    k = gdim(s, this, a[0]); s.require(T.lt(0, a[1]), 'the power is positive'); L = state(s, this).f['_widths'].items[k]; lo, hi = bounds(s, this); N = T.sub(hi[k], lo[k])
    def cands(s):
        n, S = bias_of(s)
        return [lambda j: T.mul(L, T.sub(Fraction(1), S(T.sub(N, j)))), lambda j: T.mul(L, S(j))]
    post(s, this, k, cands, False)
@C('structured::apply_bias_symmetric(int,double)')
def _(s, this, a):
    k = gdim(s, this, a[0]); s.require(T.lt(0, a[1]), 'the power is positive'); W = state(s, this).f['_widths'].items[k]; lo, hi = bounds(s, this); N = T.sub(hi[k], lo[k])
    if s.branch(T.eq(T.tmod(N, 2), 1)): throw()
    L = T.mul(HALF, W)
    def cands(s):
        n, S = bias_of(s)
        return [lambda j: s.pick(T.le(j, n), lambda: T.mul(L, S(j)), lambda: T.mul(L, T.sub(Fraction(2), S(T.sub(N, j))))), lambda j: s.pick(T.le(j, n), lambda: T.mul(L, T.sub(Fraction(1), S(T.sub(n, j)))), lambda: T.mul(L, T.add(Fraction(1), S(T.sub(j, n)))))]
    post(s, this, k, cands, True)
def t_app(s, c):
    m, g = alloc_struct(s, c['n']); d = ivar(s, 'dim'); k = c['dim']
    s.assume(T.eq(d, k)) if k is not None else s.assume(T.lor(T.lt(d, 0), T.le(c['n'], d)))
    p = rvar(s, 'power'); s.assume(T.lt(0, p))
    return g, [d, p]
for f_ in ('linear', 'symmetric'): rt('structured::apply_bias_%s(int,double)' % f_, t_app, [{'n': n, 'dim': k} for n in (1, 2, 3) for k in list(range(n)) + [None]], P24)

# ---- construction and access
@C('structured::structured(range&,double*,double*)')
def _(s, this, a):
    lo, hi, st, wd = grid_setup(s, this, a)
    D, X = [], []
    for l, h, x, w in zip(lo, hi, st, wd):
        N = T.sub(h, l); s.require(T.le(1, N), 'a dimension has cells')
        q = Dim(N, x, w, lambda s, w=w, N=N: [lambda j: T.div(T.mul(w, T.to_real(j)), T.to_real(N))], True); D.append(q.sizes()); X.append(q.centres())
    s.rawset(this.at('_dxs'), LVec(D, 'std::vector<double>')); s.rawset(this.at('_xcs'), LVec(X, 'std::vector<double>'))
def t_new(s, c):
    fields(s, 'structured', STRUCT_F); n = c['n']
    m = new_range(s, n, 'mesh', minlen=1)
    return raw(s, 'structured'), [s.alloc(range_val(*m), 'mesh'), Ptr(s.alloc(rvec(reals(s, n, 'start')), 'start'), 0), Ptr(s.alloc(rvec(reals(s, n, 'width')), 'width'), 0)]
rt('structured::structured(range&,double*,double*)', t_new, nn_, P24)
for nm, fld in (('centroid', '_xcs'), ('dx', '_dxs')):
    @C('structured::%s(int,int) const' % nm)
    def _(s, this, a, fld=fld):
        k = gdim(s, this, a[0]); lo, hi = bounds(s, this)
        if not s.branch(T.land(T.le(lo[k], a[1]), T.lt(a[1], hi[k]))): throw()
        return element(s, this, fld, k).get(T.sub(a[1], lo[k]))
    rt('structured::%s(int,int) const' % nm, lambda s, c: (alloc_struct(s, c['n'])[1], [ivar(s, 'dim'), ivar(s, 'index')]), nn_, P24)

from contracts.idx import idx_val
@C('structured::xc(indexer&,double*) const')
def _(s, this, a):
    lo, hi = bounds(s, this); x = state(s, a[0]).f['_index'].items
    s.require(len(lo) <= len(x), 'the indexer has the dimensions of the grid')
    for k, (l, h) in enumerate(zip(lo, hi)):
        s.require(T.land(T.le(l, x[k]), T.lt(x[k], h)), 'the indexer is at a cell of the grid')
        s.put(a[1].base.idx(T.add(a[1].off, k)), element(s, this, '_xcs', k).get(T.sub(x[k], l)))
def t_xc(s, c):
    n = c['n']; m, g = alloc_struct(s, n); k = n + c['more']
    b = new_range(s, k, 'fast', minlen=1); x = [ivar(s, 'x%d' % i) for i in range(k)]
    for l, h, y in zip(m[0], m[1], x): s.assume(T.land(T.le(l, y), T.lt(y, h)))
    return g, [s.alloc(idx_val(s, b, new_range(s, k, 'sub'), x, True), 'idx'), Ptr(s.alloc(rvec(reals(s, 4, 'x')), 'x'), 0)]
rt('structured::xc(indexer&,double*) const', t_xc, [{'n': n, 'more': k} for n in (1, 2, 3) for k in (0, 1)], P24)
