"""Abstract states shared by the contracts: ranges, indexers, containers."""
from fractions import Fraction
from qkv import terms as T
from qkv.values import *
from qkv.verify import Registry, ANY
from qkv.interp import Throw, PathEnd

R = Registry()

def fields(s, cls, want):
    got = s.all_fields(cls)
    if set(got) != set(want): raise Unsupported('representation of %s changed: %s' % (cls, sorted(set(got) ^ set(want))))

RANGE_F = ('_num_dims', '_lower', '_upper', '_stride')
INDEXER_F = RANGE_F + ('_sub_range', '_linear_index', '_exists', '_index')

def prod(xs):
    r = 1
    for x in xs: r = T.mul(r, x)
    return r
def strides(lo, hi):
    n = len(lo); st = [1] * n
    for i in range(n - 2, -1, -1): st[i] = T.mul(st[i + 1], T.sub(hi[i + 1], lo[i + 1]))
    return st
def volume(lo, hi): return prod([T.sub(b, a) for a, b in zip(lo, hi)]) if len(lo) else 0

def range_fields(lo, hi):
    return {'_num_dims': len(lo), '_lower': LVec(lo, 'int'), '_upper': LVec(hi, 'int'), '_stride': LVec(strides(lo, hi), 'int')}
def range_val(lo, hi): return Obj('range', range_fields(lo, hi))

def bounds(s, ref):
    """(lower, upper) of the range at ref"""
    o = s._get(s.store[ref.root], ref.path, ref)
    if isinstance(o, Unk): raise Unsupported(o.why)
    lo, hi = o.f['_lower'], o.f['_upper']
    if not isinstance(lo, LVec): raise Unsupported('range of unknown dimension')
    for x in lo.items + hi.items:
        if isinstance(x, (Unk,)): raise Unsupported(x.why)
    nd = o.f['_num_dims']
    if nd != len(lo.items) or len(hi.items) != len(lo.items):
        if isinstance(nd, (Unk, Undef)) or len(hi.items) != len(lo.items): raise Unsupported('range used while its bounds are inconsistent')
        s.require(T.eq(nd, len(lo.items)), 'class invariant of range: number of dimensions')
    return lo.items, hi.items
def shape(s, ref):
    """bounds of the range at ref, whose strides must be row-major (class invariant)"""
    lo, hi = bounds(s, ref)
    st = s._get(s.store[ref.root], ref.path, ref).f['_stride']
    if not isinstance(st, LVec) or len(st.items) != len(lo): raise Unsupported('range used while its strides are inconsistent')
    for x, y in zip(st.items, strides(lo, hi)):
        if isinstance(x, (Unk, Undef)): raise Unsupported('range used while its strides are unset')
        if x is not y and x != y: s.require(T.eq(x, y), 'class invariant of range: strides are row-major')
    return lo, hi
def set_bounds(s, ref, lo, hi):
    for k, v in range_fields(lo, hi).items(): s.put(ref.at(k), v)

def new_range(s, n, name='r', lens=False, minlen=None):
    """an arbitrary range with n dimensions"""
    lo = [s.fresh('%s_lo%d' % (name, i), 'I') for i in range(n)]
    if lens or minlen is not None:
        L = [s.fresh('%s_len%d' % (name, i), 'I') for i in range(n)]
        if minlen is not None:
            for x in L: s.assume(T.le(minlen, x))
        hi = [T.add(a, b) for a, b in zip(lo, L)]
    else: hi = [s.fresh('%s_hi%d' % (name, i), 'I') for i in range(n)]
    return lo, hi
def alloc_range(s, n, name='r', **kw):
    fields(s, 'range', RANGE_F)
    lo, hi = new_range(s, n, name, **kw)
    return s.alloc(range_val(lo, hi), name)
def ints(s, n, name):
    return s.alloc(LVec([s.fresh('%s%d' % (name, i), 'I') for i in range(n)], 'int'), name)
def ivar(s, name, lo=None, hi=None):
    v = s.fresh(name, 'I')
    if lo is not None: s.assume(T.le(lo, v))
    if hi is not None: s.assume(T.lt(v, hi))
    return v
def rvar(s, name): return s.fresh(name, 'R')
def throw(): raise Throw('qk::exception')
def pick_int(s, i, n):
    """a concrete value for i, 0 <= i < n (forks)"""
    k = s.conc(i, n)
    if k is None or not 0 <= k < n: return None
    return k
def upd(t, i, v):
    t = list(t); t[i] = v; return t
