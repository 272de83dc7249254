"""Contracts of range and indexer (C01-C04, C22)."""
from contracts.base import *

# ------------------------------------------------------------------ range
C = R.contract
@C('range::range()')
def _(s, this, a): init_range(s, this, [], [])
def init_range(s, this, lo, hi):
    f = dict(s._get(s.store[this.root], this.path, this).f); f.update(range_fields(lo, hi))
    o = s._get(s.store[this.root], this.path, this)
    s.rawset(this, Obj(o.cls, f))
def from_ptr(s, p, n):
    if n <= 0: return []
    return [s.load(p.base.idx(T.add(p.off, k))) for k in range(n)]
def cint(n):
    if not isinstance(n, int): raise Unsupported('number of dimensions is not a constant')
    return n
@C('range::range(range&)')
def _(s, this, a):
    lo, hi = bounds(s, a[0]); init_range(s, this, lo, hi)
@C('range::range(int,int*)')
def _(s, this, a):
    n = cint(a[0]); init_range(s, this, [0] * n, from_ptr(s, a[1], n))
@C('range::range(int,int*,int*)')
def _(s, this, a):
    n = cint(a[0]); init_range(s, this, from_ptr(s, a[1], n), from_ptr(s, a[2], n))
@C('range::resize(range&)')
def _(s, this, a):
    lo, hi = bounds(s, a[0]); set_bounds(s, this, lo, hi)
@C('range::resize(int,int*,int*)')
def _(s, this, a):
    n = cint(a[0]); set_bounds(s, this, from_ptr(s, a[1], n), from_ptr(s, a[2], n))
@C('range::operator=(range&)')
def _(s, this, a):
    lo, hi = bounds(s, a[0]); set_bounds(s, this, lo, hi); return this
@C('range::extrude(int,int)')
def _(s, this, a):
    lo, hi = bounds(s, this); set_bounds(s, this, list(lo) + [a[0]], list(hi) + [a[1]])
def dimof(s, this, d):
    n = len(bounds(s, this)[0])
    s.require(T.land(T.le(0, d), T.lt(d, n)), 'dimension of the range')
    k = s.conc(d, n)
    if k is None or not 0 <= k < n: raise PathEnd()
    return k
@C('range::expand(int,int,int)')
def _(s, this, a):
    k = dimof(s, this, a[0]); lo, hi = bounds(s, this)
    set_bounds(s, this, upd(lo, k, T.add(lo[k], a[1])), upd(hi, k, T.add(hi[k], a[2])))
@C('range::shift(int,int)')
def _(s, this, a):
    k = dimof(s, this, a[0]); lo, hi = bounds(s, this)
    set_bounds(s, this, upd(lo, k, T.add(lo[k], a[1])), upd(hi, k, T.add(hi[k], a[1])))
@C('range::set(int,int,int)')
def _(s, this, a):
    k = dimof(s, this, a[0]); lo, hi = bounds(s, this)
    set_bounds(s, this, upd(lo, k, a[1]), upd(hi, k, a[2]))
@C('range::num_dims() const')
def _(s, this, a): return len(bounds(s, this)[0])
@C('range::length(int) const')
def _(s, this, a):
    k = dimof(s, this, a[0]); lo, hi = bounds(s, this); return T.sub(hi[k], lo[k])
@C('range::lower(int) const')
def _(s, this, a):
    k = dimof(s, this, a[0]); return bounds(s, this)[0][k]
@C('range::upper(int) const')
def _(s, this, a):
    k = dimof(s, this, a[0]); return bounds(s, this)[1][k]
@C('range::stride(int) const')
def _(s, this, a):
    k = dimof(s, this, a[0]); lo, hi = shape(s, this); return strides(lo, hi)[k]
@C('range::volume() const')
def _(s, this, a): return volume(*shape(s, this))
def includes(A, B):
    if len(A[0]) != len(B[0]): return False
    return T.land(*[T.le(x, y) for x, y in zip(A[0], B[0])], *[T.ge(x, y) for x, y in zip(A[1], B[1])])
def equal(A, B):
    if len(A[0]) != len(B[0]): return False
    return T.land(*[T.eq(x, y) for x, y in zip(A[0], B[0])], *[T.eq(x, y) for x, y in zip(A[1], B[1])])
@C('range::includes(range&) const')
def _(s, this, a): return includes(bounds(s, this), bounds(s, a[0]))
@C('operator==(range&,range&)')
def _(s, this, a): return equal(bounds(s, a[0]), bounds(s, a[1]))
@C('operator!=(range&,range&)')
def _(s, this, a): return T.lnot(equal(bounds(s, a[0]), bounds(s, a[1])))

N = range(0, 6)
def rt(key, mk, cfgs, props, **kw):
    for c in cfgs:
        R.task(key, (lambda s, c=c: mk(s, c)), ','.join('%s=%s' % (k, v) for k, v in c.items()), props, **kw)
nn = [{'n': n} for n in N]; nn1 = [{'n': n} for n in N if n]
nm = [{'n': n, 'm': m} for n in N for m in N if abs(n - m) <= 1]
def raw(s, cls='range'): return s.alloc(Obj(cls, {}), 'this')
def P(ref): return Ptr(ref, 0)
P1 = ('C01',)
rt('range::range()', lambda s, c: (raw(s), []), [{}], P1)
rt('range::range(range&)', lambda s, c: (raw(s), [alloc_range(s, c['n'])]), nn, P1)
rt('range::range(int,int*)', lambda s, c: (raw(s), [c['n'], P(ints(s, c['n'], 'dims'))]), nn, P1)
rt('range::range(int,int*,int*)', lambda s, c: (raw(s), [c['n'], P(ints(s, c['n'], 'lo')), P(ints(s, c['n'], 'hi'))]), nn, P1)
rt('range::resize(range&)', lambda s, c: (alloc_range(s, c['n'], 'this'), [alloc_range(s, c['m'])]), nm, P1)
def selfarg(s, c):
    r = alloc_range(s, c['n'], 'this'); return r, [r]
rt('range::resize(range&)', selfarg, [dict(c, arg='self') for c in nn], P1)
rt('range::resize(int,int*,int*)', lambda s, c: (alloc_range(s, c['n'], 'this'), [c['m'], P(ints(s, c['m'], 'lo')), P(ints(s, c['m'], 'hi'))]), nm, P1)
rt('range::operator=(range&)', lambda s, c: (alloc_range(s, c['n'], 'this'), [alloc_range(s, c['m'])]), nm, P1)
rt('range::operator=(range&)', selfarg, [dict(c, arg='self') for c in nn], P1)
rt('range::extrude(int,int)', lambda s, c: (alloc_range(s, c['n'], 'this'), [ivar(s, 'a'), ivar(s, 'b')]), nn, P1)
rt('range::expand(int,int,int)', lambda s, c: (alloc_range(s, c['n'], 'this'), [ivar(s, 'dim', 0, c['n']), ivar(s, 'a'), ivar(s, 'b')]), nn1, P1)
rt('range::set(int,int,int)', lambda s, c: (alloc_range(s, c['n'], 'this'), [ivar(s, 'dim', 0, c['n']), ivar(s, 'a'), ivar(s, 'b')]), nn1, P1)
rt('range::shift(int,int)', lambda s, c: (alloc_range(s, c['n'], 'this'), [ivar(s, 'dim', 0, c['n']), ivar(s, 'a')]), nn1, P1)
for f in ('length', 'lower', 'upper', 'stride'):
    rt('range::%s(int) const' % f, lambda s, c: (alloc_range(s, c['n'], 'this'), [ivar(s, 'dim', 0, c['n'])]), nn1, P1)
for f in ('num_dims', 'volume'):
    rt('range::%s() const' % f, lambda s, c: (alloc_range(s, c['n'], 'this'), []), nn, P1)
P2 = ('C02',)
rt('range::includes(range&) const', lambda s, c: (alloc_range(s, c['n'], 'this'), [alloc_range(s, c['m'])]), nm, P2)
rt('range::includes(range&) const', selfarg, [dict(c, arg='self') for c in nn], P2)
for f in ('operator==(range&,range&)', 'operator!=(range&,range&)'):
    rt(f, lambda s, c: (None, [alloc_range(s, c['n'], 'a'), alloc_range(s, c['m'], 'b')]), nm, P2)
def same2(s, c):
    r = alloc_range(s, c['n'], 'a'); return None, [r, r]
for f in ('operator==(range&,range&)', 'operator!=(range&,range&)'): rt(f, same2, [dict(c, arg='same') for c in nn], P2)
