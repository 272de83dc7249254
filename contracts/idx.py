"""Contracts of indexer (C03, C04, C22) and the lemmas about row-major order."""
from contracts.base import *
from contracts.lib import rt, raw, includes, from_ptr, nn, nn1
C = R.contract

def idx_val(s, sup, sub, x, exists=True, lin=None):
    f = range_fields(*sup); f['_sub_range'] = range_val(*sub)
    f['_index'] = LVec(x, 'int'); f['_linear_index'] = s.lin(sup[0], sup[1], x) if lin is None else lin; f['_exists'] = exists
    return Obj('indexer', f)
def dead_idx(s, sup, sub):
    return idx_val(s, sup, sub, [ANY] * len(sup[0]), False, ANY)
def make_indexer(s, sub, sup):
    """value of indexer(sub, sup)"""
    fields(s, 'indexer', INDEXER_F)
    n = len(sup[0])
    ok = n > 0 and len(sub[0]) == n
    if ok: ok = T.land(includes(sup, sub), *[T.lt(a, b) for a, b in zip(*sub)])
    if s.branch(ok): return idx_val(s, sup, sub, list(sub[0]))
    return dead_idx(s, sup, sub)
def merge_obj(s, this, v):
    o = s._get(s.store[this.root], this.path, this)
    f = dict(o.f); f.update(v.f); s.rawset(this, Obj(o.cls, f))
def state(s, ref):
    o = s._get(s.store[ref.root], ref.path, ref)
    if isinstance(o, Unk): raise Unsupported(o.why)
    return o
def idx_sub(o): return o.f['_sub_range'].f['_lower'].items, o.f['_sub_range'].f['_upper'].items
def idx_sup(o): return o.f['_lower'].items, o.f['_upper'].items

@C('indexer::indexer()')
def _(s, this, a): merge_obj(s, this, dead_idx(s, ([], []), ([], [])))
@C('indexer::indexer(range&,range&)')
def _(s, this, a): merge_obj(s, this, make_indexer(s, bounds(s, a[0]), bounds(s, a[1])))
def succ(s, sub, x):
    """row-major successor of x in the box, None after the last point (forks)"""
    n = len(x)
    for k in range(n - 1, -1, -1):
        if not s.branch(T.eq(x[k], T.sub(sub[1][k], 1))):
            return list(x[:k]) + [T.add(x[k], 1)] + list(sub[0][k + 1:])
    return None
def next_spec(s, this, a):
    o = state(s, this)
    if 'ghost_next' in o.f:
        s.put(this, Obj(o.cls, dict(o.f, ghost_next=o.f['ghost_next'] + 1, _index=LVec([Unk('advanced index')] * len(o.f['_index'].items), 'int'), _linear_index=Unk('advanced index'), _exists=Unk('advanced index'))))
        return
    if isinstance(o.f['_exists'], Unk): raise Unsupported(o.f['_exists'].why)
    s.require(o.f['_exists'], 'next on an indexer that exists')
    sub, sup = idx_sub(o), shape(s, this)
    l = o.f['_linear_index']; w = s.lin(sup[0], sup[1], o.f['_index'].items)
    if l is not w: s.require(T.eq(l, w), 'class invariant of indexer: linear index')
    x = succ(s, sub, o.f['_index'].items)
    if x is None: s.put(this, Obj(o.cls, dict(o.f, _index=LVec([ANY] * len(sup[0]), 'int'), _linear_index=ANY, _exists=False)))
    else: s.put(this, Obj(o.cls, dict(o.f, _index=LVec(x, 'int'), _linear_index=s.lin(sup[0], sup[1], x))))
@C('indexer::next()')
def _(s, this, a): next_spec(s, this, a)
@C('indexer::operator++()')
def _(s, this, a): next_spec(s, this, a); return this
def move(s, this, d, by):
    o = state(s, this); n = len(o.f['_index'].items)
    if not s.branch(T.land(T.le(0, d), T.lt(d, n))): throw()
    k = s.conc(d, n)
    sup = shape(s, this)
    x = upd(o.f['_index'].items, k, T.add(o.f['_index'].items[k], by))
    l = s.lin(sup[0], sup[1], x); m = T.add(o.f['_linear_index'], T.mul(by, strides(*sup)[k]))
    s.put(this.at('_index'), LVec(x, 'int')); s.put(this.at('_linear_index'), l if l is m or T.sub(l, m) == 0 else m)
@C('indexer::increment(int)')
def _(s, this, a): move(s, this, a[0], 1)
@C('indexer::decrement(int)')
def _(s, this, a): move(s, this, a[0], -1)
def comp(s, this, d):
    o = state(s, this); n = len(o.f['_index'].items)
    if not s.branch(T.land(T.le(0, d), T.lt(d, n))): throw()
    return s.conc(d, n)
@C('indexer::index(int) const')
def _(s, this, a): return state(s, this).f['_index'].items[comp(s, this, a[0])]
@C('indexer::operator[](int&) const')
def _(s, this, a):
    d = s.load(a[0]) if isinstance(a[0], Ref) else a[0]
    return this.at('_index').idx(comp(s, this, d))
@C('indexer::exists() const')
def _(s, this, a):
    v = state(s, this).f['_exists']
    if isinstance(v, Unk): raise Unsupported(v.why)
    return v
@C('indexer::linear_index() const')
def _(s, this, a):
    v = state(s, this).f['_linear_index']
    if isinstance(v, Unk): raise Unsupported(v.why)
    return v
@C('indexer::final_linear_index() const')
def _(s, this, a):
    o = state(s, this); sup, sub = idx_sup(o), idx_sub(o)
    s.require(len(sup[0]) > 0, 'final_linear_index of an indexer with dimensions')
    return T.add(s.lin(sup[0], sup[1], [T.sub(h, 1) for h in sub[1]]), 1)
@C('indexer::operator=(indexer&)')
def _(s, this, a):
    o = state(s, a[0])
    s.put(this, Obj(state(s, this).cls, {k: v for k, v in o.f.items()})); return this

# ---- pre-states
def alloc_indexer(s, n, name='this'):
    """an indexer somewhere on its traversal: sub range inside the enclosing range, current point inside the sub range"""
    fields(s, 'indexer', INDEXER_F)
    sup = new_range(s, n, name + 'S'); sub = new_range(s, n, name)
    x = [s.fresh('%s_x%d' % (name, i), 'I') for i in range(n)]
    for i in range(n):
        s.assume(T.le(sup[0][i], sub[0][i])); s.assume(T.le(sub[1][i], sup[1][i]))
        s.assume(T.le(sub[0][i], x[i])); s.assume(T.lt(x[i], sub[1][i]))
    return s.alloc(idx_val(s, sup, sub, x), name)
def alloc_moved(s, n, name='this'):
    """an indexer moved anywhere by increments and decrements"""
    fields(s, 'indexer', INDEXER_F)
    sup = new_range(s, n, name + 'S'); sub = new_range(s, n, name)
    x = [s.fresh('%s_x%d' % (name, i), 'I') for i in range(n)]
    ex = s.fresh(name + '_ex', 'B')
    return s.alloc(idx_val(s, sup, sub, x, ex), name)
def two(s, c): return raw(s, 'indexer'), [alloc_range(s, c['m'], 'sub'), alloc_range(s, c['n'], 'sup')]
nm3 = [{'n': n, 'm': m} for n in range(0, 6) for m in range(0, 6) if abs(n - m) <= 1]
P34 = ('C03', 'C04')
rt('indexer::indexer()', lambda s, c: (raw(s, 'indexer'), []), [{}], P34)
rt('indexer::indexer(range&,range&)', two, nm3, P34)
rt('indexer::next()', lambda s, c: (alloc_indexer(s, c['n']), []), nn1, P34)
rt('indexer::operator++()', lambda s, c: (alloc_indexer(s, c['n']), []), nn1, P34)
rt('indexer::increment(int)', lambda s, c: (alloc_moved(s, c['n']), [ivar(s, 'dim')]), nn, ('C04', 'C22'))
rt('indexer::decrement(int)', lambda s, c: (alloc_moved(s, c['n']), [ivar(s, 'dim')]), nn, ('C04', 'C22'))
rt('indexer::index(int) const', lambda s, c: (alloc_moved(s, c['n']), [ivar(s, 'dim')]), nn, ('C03', 'C22'))
rt('indexer::operator[](int&) const', lambda s, c: (alloc_moved(s, c['n']), [s.alloc(ivar(s, 'dim'), 'dim')]), nn, ('C03', 'C22'))
rt('indexer::exists() const', lambda s, c: (alloc_moved(s, c['n']), []), nn, ('C03',))
rt('indexer::linear_index() const', lambda s, c: (alloc_moved(s, c['n']), []), nn, ('C04',))
rt('indexer::final_linear_index() const', lambda s, c: (alloc_moved(s, c['n']), []), nn1, ('C04',))
rt('indexer::operator=(indexer&)', lambda s, c: (alloc_moved(s, c['m']), [alloc_moved(s, c['n'], 'src')]), nm3, P34)
def selfidx(s, c):
    r = alloc_moved(s, c['n']); return r, [r]
rt('indexer::operator=(indexer&)', selfidx, [dict(c, arg='self') for c in nn], P34)

# ---- lemmas over the contracts
def lemma_rank_step(s):
    """next() raises the row-major rank by exactly one: every point once, in order, and the traversal ends"""
    for n in range(1, 6):
        L = [T.var('L%d' % i, 'I') for i in range(n)]; d = [T.var('d%d' % i, 'I') for i in range(n)]
        for k in range(n):
            x = d[:k + 1] + [T.sub(l, 1) for l in L[k + 1:]]
            y = d[:k] + [T.add(d[k], 1)] + [0] * (n - k - 1)
            s.oblige(T.eq(T.add(horner(L, x), 1), horner(L, y)), 'n=%d: the successor has the next rank' % n)
        s.oblige(T.eq(horner(L, [T.sub(l, 1) for l in L]), T.sub(prod(L), 1)), 'n=%d: the last point has rank volume-1' % n)
        s.oblige(T.eq(horner(L, [0] * n), 0), 'n=%d: the first point has rank 0' % n)
        lo = [T.var('lo%d' % i, 'I') for i in range(n)]; hi = [T.add(a, b) for a, b in zip(lo, L)]
        s.oblige(T.eq(s.lin(lo, hi, [T.add(a, b) for a, b in zip(lo, d)]), horner(L, d)), 'n=%d: linear index is the row-major rank' % n)
def horner(L, d):
    r = 0
    for l, x in zip(L, d): r = T.add(T.mul(r, l), x)
    return r
def lemma_rank_bounds(s):
    """one more dimension keeps 0 <= rank < volume (induction step, any number of dimensions)"""
    r, V, d, L = (T.var(x, 'I') for x in ('r', 'V', 'd', 'L'))
    for c in (T.le(0, r), T.lt(r, V), T.le(0, d), T.lt(d, L)): s.assume(c)
    w = T.sub(T.sub(V, 1), r)                     # w >= 0, L >= 1: the product is non-negative
    s.oblige(T.le(0, T.mul(r, L)), 'product of non-negatives'); s.assume(T.le(0, T.mul(r, L)))
    s.oblige(T.le(0, T.mul(w, L)), 'product of non-negatives'); s.assume(T.le(0, T.mul(w, L)))
    s.oblige(T.le(0, T.add(T.mul(r, L), d)), 'rank is not negative')
    s.oblige(T.lt(T.add(T.mul(r, L), d), T.mul(V, L)), 'rank is below the volume')
def lemma_rank_injective(s):
    """equal ranks in one more dimension imply equal points (induction step, any number of dimensions)"""
    r, q, d, e, L = (T.var(x, 'I') for x in ('r', 'q', 'd', 'e', 'L'))
    for c in (T.le(0, d), T.lt(d, L), T.le(0, e), T.lt(e, L), T.eq(T.add(T.mul(r, L), d), T.add(T.mul(q, L), e))): s.assume(c)
    # if r > q then (r-q)*L >= L, symmetric
    for a, b in ((r, q), (q, r)):
        k = len(s.pc); s.pc.append(T.lt(b, a))
        s.oblige(T.le(0, T.mul(T.sub(T.sub(a, b), 1), L)), 'product of non-negatives'); s.assume(T.le(0, T.mul(T.sub(T.sub(a, b), 1), L)))
        s.oblige(False, 'different leading ranks contradict equal ranks')
        del s.pc[k:]
    s.assume(T.eq(r, q))
    s.oblige(T.eq(d, e), 'last coordinates are equal')
R.lemma('next advances the rank by one', lemma_rank_step, P34)
R.lemma('rank bounds', lemma_rank_bounds, ('C03', 'C04'))
R.lemma('rank is injective', lemma_rank_injective, ('C03', 'C04'))
