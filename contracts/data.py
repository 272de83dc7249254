"""Contracts of the containers and chunks (C05, C06, C07, C22)."""
from contracts.base import *
from contracts.lib import rt, raw, includes, init_range, from_ptr, nn, nn1, P
from contracts.idx import make_indexer, state, idx_val, alloc_moved
from qkv.loops import unrank, lengths as _l
from qkv import builtins as B
C = R.contract

IFACE_F = RANGE_F + ('_data',)
CHUNK_F = IFACE_F + ('_mesh_range', '_data_range')
EXT_F = CHUNK_F + ('_num_ghost_layers', '_internal_range', '_lower_internal_ranges', '_lower_external_ranges', '_upper_internal_ranges', '_upper_external_ranges')

def lens(b): return [T.sub(h, l) for l, h in zip(*b)]
def vec_resize(s, ref, n, ety):
    """std::vector::resize: keeps the leading elements, appends default elements"""
    v = s._get(s.store[ref.root], ref.path, ref)
    if isinstance(n, int):
        if isinstance(v, LVec):
            s.put(ref, LVec(v.items[:n] + tuple(s.zero(ety) for _ in range(n - len(v.items))), v.ety)); return
    z = s.zero(ety)
    if isinstance(v, LVec) and not v.items: s.put(ref, AVec(n, lambda i: z, ety)); return
    if isinstance(v, LVec):
        its = v.items
        def get(i):
            r = z
            for j, it in reversed(list(enumerate(its))): r = s.pick(T.eq(i, j), lambda it=it: it, lambda r=r: r)
            return r
        s.put(ref, AVec(n, get, ety)); return
    if isinstance(v, CVec) and T.sub(v.n, n) == 0: return
    if isinstance(v, AVec):
        s.put(ref, AVec(n, lambda i: s.pick(T.lt(i, v.n), lambda: v.get(i), lambda: z), ety)); return
    raise Unsupported('resize of a container')
def set_shape(s, this, b, ety):
    vol = volume(*b)
    s.require(T.le(0, vol), 'volume is not negative')
    set_bounds(s, this, *b)
    if ety == 'range' and b[0] and not isinstance(vol, int):
        v = data_of(s, this)
        if isinstance(v, LVec) and not v.items:
            z = s.zero(ety); s.put(this.at('_data'), CVec(b[0], b[1], lambda c: z, ety)); return
    vec_resize(s, this.at('_data'), vol, ety)
def data_of(s, ref):
    v = s._get(s.store[ref.root], ref.path + ('_data',), ref)
    if isinstance(v, Unk): raise Unsupported(v.why)
    return v
def mapped(s, c, to, frm):
    """the point of `frm` in row-major correspondence with the point c of `to`"""
    off = unrank(s, lens(to), [T.sub(x, a) for x, a in zip(c, to[0])], lens(frm))
    return tuple(T.add(a, b) for a, b in zip(frm[0], off))
def inbox(c, b): return T.land(*[T.land(T.le(l, x), T.lt(x, h)) for x, l, h in zip(c, *b)])
def nonempty(b): return len(b[0]) > 0 and T.land(*[T.lt(l, h) for l, h in zip(*b)])
def cvec(s, v, b):
    """the container's data as a function of coordinates"""
    if isinstance(v, CVec):
        if len(v.lo) != len(b[0]) or any(x is not y and T.sub(x, y) != 0 for x, y in zip(tuple(v.lo) + tuple(v.hi), tuple(b[0]) + tuple(b[1]))): raise Unsupported('data laid out for other bounds')
        return v
    if isinstance(v, LVec) and all(isinstance(x, int) for x in b[0] + b[1]):
        st = strides(*b)
        return CVec(b[0], b[1], lambda c: s.elem(v, sum((x - a) * k for x, a, k in zip(c, b[0], st))), v.ety)
    raise Unsupported('coordinates of a flat container')
def copy_box(s, dst, to, src, frm):
    """dst[to] := src[frm] in row-major correspondence"""
    db, sb = bounds(s, dst), bounds(s, src)
    d, v = data_of(s, dst), data_of(s, src)
    whole = all(T.sub(x, y) == 0 for x, y in zip(tuple(to[0]) + tuple(to[1]) + tuple(frm[0]) + tuple(frm[1]), tuple(db[0]) + tuple(db[1]) + tuple(sb[0]) + tuple(sb[1]))) if len(to[0]) == len(db[0]) and len(frm[0]) == len(sb[0]) else False
    if s.rec: s.note_bulk(dst.at('_data'))
    if whole and not isinstance(d, CVec): s.rawset(dst.at('_data'), v); return
    d, v = cvec(s, d, db), cvec(s, v, sb)
    s.rawset(dst.at('_data'), CVec(d.lo, d.hi, lambda c: s.pick(inbox(c, to), lambda: v.get(mapped(s, c, to, frm)), lambda: d.get(c)), d.ety))
def pull_spec(s, dst, src, frm, to):
    if not s.branch(T.eq(volume(*frm), volume(*to))): throw()
    if not s.branch(T.land(includes(bounds(s, src), frm), includes(bounds(s, dst), to))): throw()
    if not s.branch(T.land(nonempty(frm), nonempty(to))): return
    if dst == src and not s.inspec: s.require(T.lor(T.land(*[T.land(T.eq(p, r), T.eq(q, u)) for p, q, r, u in zip(*frm, *to)]), *[T.lor(T.le(q, r), T.le(u, p)) for p, q, r, u in zip(*frm, *to)]), 'a copy inside one chunk is to itself or to a disjoint range')
    copy_box(s, dst, to, src, frm)
def layer_box(s, dst, b, f):
    """dst[c] := f(c, old) for c in b"""
    db = bounds(s, dst); d = data_of(s, dst)
    if s.rec: s.note_bulk(dst.at('_data'))
    d = cvec(s, d, db)
    s.rawset(dst.at('_data'), CVec(d.lo, d.hi, lambda c: s.pick(inbox(c, b), lambda: f(c, lambda: d.get(c)), lambda: d.get(c)), d.ety))
def elem_ref(s, this, idx):
    o = state(s, idx); l = o.f['_linear_index']
    if isinstance(l, Unk): raise Unsupported(l.why)
    return this.at('_data').idx(l)
def in_storage(s, v, l):
    if isinstance(v, CVec) and isinstance(l, T.Node):
        e = s.lintab.get(l.id)
        if e is not None and len(e[0]) == len(v.lo) and s.decide(T.land(inbox(e[2], (v.lo, v.hi)), *[T.eq(a, b) for a, b in zip(e[0] + e[1], v.lo + v.hi)])) is True: return True
    return s.branch(T.land(T.le(0, l), T.lt(l, len(v.items) if isinstance(v, LVec) else v.n)))

for T_ in ('double', 'extended_datachunk', 'range'):
    I = 'indexer_interface<%s>' % T_
    def defs(I, ety):
        @C(I + '::indexer_interface(range&)')
        def _(s, this, a):
            lo, hi = bounds(s, a[0]); init_range(s, this, lo, hi); s.rawset(this.at('_data'), LVec((), ety)); set_shape(s, this, (lo, hi), ety)
        @C(I + '::indexer_interface(%s&)' % I)
        def _(s, this, a):
            lo, hi = bounds(s, a[0]); init_range(s, this, lo, hi); s.rawset(this.at('_data'), data_of(s, a[0]))
        @C(I + '::resize(range&)')
        def _(s, this, a): set_shape(s, this, bounds(s, a[0]), ety)
        @C(I + '::range() const')
        def _(s, this, a): return this
        @C(I + '::indexer(range&) const')
        def _(s, this, a): return make_indexer(s, bounds(s, a[0]), bounds(s, this))
        @C(I + '::indexer() const')
        def _(s, this, a): return make_indexer(s, bounds(s, this), bounds(s, this))
        for c in ('', ' const'):
            @C(I + '::operator[](indexer&)' + c)
            def _(s, this, a): return elem_ref(s, this, a[0])
            @C(I + '::data()' + c)
            def _(s, this, a): return Ptr(this.at('_data'), 0)
            @C(I + '::data(int*)' + c)
            def _(s, this, a):
                lo, hi = shape(s, this); x = from_ptr(s, a[0], len(lo))
                return Ptr(this.at('_data'), s.lin(lo, hi, x))
            @C(I + '::data(indexer&)' + c)
            def _(s, this, a):
                l = state(s, a[0]).f['_linear_index']
                if isinstance(l, Unk): raise Unsupported(l.why)
                if not in_storage(s, data_of(s, this), l): throw()
                return Ptr(this.at('_data'), l)
        @C(I + '::swap(%s&)' % I)
        def _(s, this, a):
            if not s.branch(T.eq(volume(*bounds(s, this)), volume(*bounds(s, a[0])))): throw()
            x, y = data_of(s, this), data_of(s, a[0])
            s.put(this.at('_data'), y); s.put(a[0].at('_data'), x)
        @C(I + '::pull(%s&,range&,range&)' % I)
        def _(s, this, a): pull_spec(s, this, a[0], bounds(s, a[1]), bounds(s, a[2]))
        @C(I + '::pull(%s&)' % I)
        def _(s, this, a): pull_spec(s, this, a[0], bounds(s, a[0]), bounds(s, this))
        @C(I + '::fill(%s&)' % ety)
        def _(s, this, a):
            v = data_of(s, this); x = s.load(a[0]) if isinstance(a[0], Ref) else a[0]
            if s.rec: s.note_bulk(this.at('_data'))
            if isinstance(v, LVec): w = LVec([x] * len(v.items), v.ety)
            elif isinstance(v, CVec): w = CVec(v.lo, v.hi, lambda c: x, v.ety)
            else: w = AVec(v.n, lambda i: x, v.ety)
            s.rawset(this.at('_data'), w)
        @C(I + '::fill(range&,%s&)' % ety)
        def _(s, this, a):
            b = bounds(s, a[0]); x = s.load(a[1]) if isinstance(a[1], Ref) else a[1]
            if not s.branch(includes(bounds(s, this), b)): throw()
            if not s.branch(nonempty(b)): return
            layer_box(s, this, b, lambda c, old: x)
    defs(I, T_)

# ------------------------------------------------------------------ chunks
@C('datachunk::resize(range&,range&)')
def _(s, this, a):
    m, d = bounds(s, a[0]), bounds(s, a[1])
    s.put(this.at('_mesh_range'), range_val(*m)); s.put(this.at('_data_range'), range_val(*d))
    set_shape(s, this, (tuple(m[0]) + tuple(d[0]), tuple(m[1]) + tuple(d[1])), 'double')
@C('datachunk::operator=(datachunk&)')
def _(s, this, a):
    o = state(s, a[0])
    for k in ('_mesh_range', '_data_range') + RANGE_F: s.put(this.at(k), o.f[k])
    if s.rec: s.note_bulk(this.at('_data'))
    s.rawset(this.at('_data'), o.f['_data'])
    return this
@C('datachunk::multiply_by_scalar(range&,double)')
def _(s, this, a):
    b = bounds(s, a[0])
    if not s.branch(T.land(includes(bounds(s, this), b), nonempty(b))): return
    layer_box(s, this, b, lambda c, old: T.mul(old(), a[1]))
@C('copy_to(datachunk&,range&,datachunk&,range&)')
def _(s, this, a): pull_spec(s, a[2], a[0], bounds(s, a[1]), bounds(s, a[3]))
@C('full_copy(datachunk&,datachunk&)')
def _(s, this, a):
    sb, db = bounds(s, a[0]), bounds(s, a[1])
    if not s.branch(T.eq(volume(*sb), volume(*db))): throw()
    d, v = data_of(s, a[1]), data_of(s, a[0])
    if s.rec: s.note_bulk(a[1].at('_data'))
    if not isinstance(d, CVec): s.rawset(a[1].at('_data'), v)
    else: s.rawset(a[1].at('_data'), CVec(d.lo, d.hi, lambda c: v.get(mapped(s, c, db, sb)), d.ety))
def chunk_ranges(m, d, g):
    """internal, lower internal, lower external, upper internal, upper external ranges"""
    lo, hi = tuple(m[0]) + tuple(d[0]), tuple(m[1]) + tuple(d[1])
    li, le, ui, ue = [], [], [], []
    for i in range(len(m[0])):
        def rep(a, b): return range_val(upd(lo, i, a), upd(hi, i, b))
        li.append(rep(lo[i], T.add(lo[i], g))); le.append(rep(T.sub(lo[i], g), lo[i]))
        ui.append(rep(T.sub(hi[i], g), hi[i])); ue.append(rep(hi[i], T.add(hi[i], g)))
    return range_val(lo, hi), LVec(li, 'qk::range'), LVec(le, 'qk::range'), LVec(ui, 'qk::range'), LVec(ue, 'qk::range')
def extend(m, g): return [T.sub(x, g) for x in m[0]], [T.add(x, g) for x in m[1]]
@C('extended_datachunk::resize(range&,range&,int)')
def _(s, this, a):
    m, d, g = bounds(s, a[0]), bounds(s, a[1]), a[2]
    e = extend(m, g)
    s.put(this.at('_num_ghost_layers'), g)
    s.put(this.at('_mesh_range'), range_val(*e)); s.put(this.at('_data_range'), range_val(*d))
    set_shape(s, this, (tuple(e[0]) + tuple(d[0]), tuple(e[1]) + tuple(d[1])), 'double')
    for k, v in zip(('_internal_range', '_lower_internal_ranges', '_lower_external_ranges', '_upper_internal_ranges', '_upper_external_ranges'), chunk_ranges(m, d, g)):
        s.put(this.at(k), v)
@C('extended_datachunk::num_ghost_layers() const')
def _(s, this, a): return state(s, this).f['_num_ghost_layers']
@C('extended_datachunk::internal_range() const')
def _(s, this, a): return this.at('_internal_range')
for nm in ('lower_internal', 'lower_external', 'upper_internal', 'upper_external'):
    def acc(nm):
        @C('extended_datachunk::%s_range(int) const' % nm)
        def _(s, this, a):
            v = state(s, this).f['_%s_ranges' % nm]
            s.require(T.land(T.le(0, a[0]), T.lt(a[0], len(v.items))), 'mesh dimension of the chunk')
            return this.at('_%s_ranges' % nm).idx(s.conc(a[0], len(v.items)))
    acc(nm)

# ------------------------------------------------------------------ pre-states
def nonneg_facts(s, L):
    """products of the non-negative numbers L, and of any leading or trailing part, are not negative"""
    n = len(L)
    for i in range(n):
        for j in range(i + 2, n + 1):
            p = prod(L[i:j])
            if not isinstance(p, int): s.facts.append(T.le(0, p))
def field(name, k=0):
    """an arbitrary real field over coordinates"""
    return lambda c: T.app(name, list(c), 'R')
def elem_fn(s, name, ety):
    """an arbitrary element as a function of its position"""
    if ety == 'double': return lambda k: T.app(name, list(k), 'R')
    if ety == 'range':
        def g(k): return range_val([T.app(name + '_lo', list(k), 'I')], [T.app(name + '_hi', list(k), 'I')])
        return g
    if ety == 'extended_datachunk':
        def h(k): return Obj('extended_datachunk', {'ident': T.app(name, list(k), 'I')})
        return h
def alloc_iface(s, n, name, mode, cls='indexer_interface<double>', minlen=0, b=None, ety='double'):
    if ety != 'double': return alloc_iface_t(s, n, name, mode, ety)
    fields(s, 'indexer_interface<double>', IFACE_F)
    lo, hi = b if b is not None else new_range(s, n, name, minlen=minlen)
    nonneg_facts(s, lens((lo, hi)))
    f = range_fields(lo, hi)
    f['_data'] = CVec(lo, hi, field(name + '_v'), 'double') if mode == 'C' else AVec(volume(lo, hi), lambda i: T.app(name + '_w', [i], 'R'), 'double')
    if n == 0 and b is None: f['_data'] = LVec((), 'double')
    return s.alloc(Obj(cls, f), name)
def alloc_iface_t(s, n, name, mode, ety):
    cls = 'indexer_interface<%s>' % ety
    fields(s, cls, IFACE_F)
    lo, hi = new_range(s, n, name, minlen=0)
    nonneg_facts(s, lens((lo, hi)))
    f = range_fields(lo, hi); g = elem_fn(s, name + '_e', ety)
    f['_data'] = CVec(lo, hi, g, ety) if mode == 'C' else AVec(volume(lo, hi), lambda i: g((i,)), ety)
    if n == 0: f['_data'] = LVec((), ety)
    return s.alloc(Obj(cls, f), name)
def chunk_obj(s, m, d, name, mode='C', g=None, cls='extended_datachunk', get=None):
    """a chunk of the mesh m and component range d; with g ghost layers"""
    fields(s, 'datachunk', CHUNK_F)
    e = extend(m, g) if g is not None else m
    lo, hi = tuple(e[0]) + tuple(d[0]), tuple(e[1]) + tuple(d[1])
    f = range_fields(lo, hi)
    f['_mesh_range'] = range_val(*e); f['_data_range'] = range_val(*d)
    if get is None: get = field(name) if mode == 'C' else (lambda i: T.app(name + '_w', [i], 'R'))
    f['_data'] = CVec(lo, hi, get, 'double') if mode == 'C' else AVec(volume(lo, hi), get, 'double')
    if g is not None:
        fields(s, 'extended_datachunk', EXT_F)
        f['_num_ghost_layers'] = g
        for k, v in zip(('_internal_range', '_lower_internal_ranges', '_lower_external_ranges', '_upper_internal_ranges', '_upper_external_ranges'), chunk_ranges(m, d, g)): f[k] = v
    return Obj(cls, f)
def alloc_chunk(s, nmesh, ndata, name, mode='C', g=None, minlen=0):
    cls = 'extended_datachunk' if g is not None else 'datachunk'
    m = new_range(s, nmesh, name + 'm', minlen=minlen); d = new_range(s, ndata, name + 'd', minlen=minlen)
    o = chunk_obj(s, m, d, name, mode, g, cls)
    nonneg_facts(s, lens((o.f['_lower'].items, o.f['_upper'].items)))
    return s.alloc(o, name)
I = 'indexer_interface<double>'
P5 = ('C05',)
DIMS = (0, 1, 2, 3, 4, 5); DIM1 = DIMS[1:]           # a mesh of 3 dimensions and a component range of 1 or 2: 4 or 5
nn3 = [{'n': n} for n in DIMS]; nn31 = nn3[1:]; nm2 = [{'n': n, 'm': m} for n in DIMS for m in DIMS if abs(n - m) <= 1]
def mk(s, c, rest): return alloc_iface(s, c['n'], 'this', c.get('mode', 'A')), rest
def arange(s, n, name):
    """an argument range, any bounds; volume hints as far as they are facts"""
    return alloc_range(s, n, name, lens=True)
def rr(s, n, name):
    r = alloc_range(s, n, name, minlen=0); nonneg_facts(s, lens(bounds(s, r))); return r
rt(I + '::indexer_interface(range&)', lambda s, c: (raw(s, I), [rr(s, c['n'], 'r')]), nn3, P5)
rt(I + '::indexer_interface(%s&)' % I, lambda s, c: (raw(s, I), [alloc_iface(s, c['n'], 'src', 'A')]), nn3, P5)
rt(I + '::resize(range&)', lambda s, c: (alloc_iface(s, c['m'], 'this', 'A'), [rr(s, c['n'], 'r')]), nm2, P5)
rt(I + '::range() const', lambda s, c: mk(s, c, []), nn3, P5)
rt(I + '::indexer(range&) const', lambda s, c: (alloc_iface(s, c['n'], 'this', 'A'), [arange(s, c['m'], 'r')]), nm2, P5)
rt(I + '::indexer() const', lambda s, c: mk(s, c, []), nn3, P5)
def some_idx(s, c):
    t = alloc_iface(s, c['n'], 'this', 'A'); b = bounds(s, t)
    x = [ivar(s, 'x%d' % i) for i in range(c['n'])]
    o = idx_val(s, b, new_range(s, c['n'], 'sub'), x, True)
    # storage and index fit the machine types
    lim(s, volume(*b), o.f['_linear_index'])
    return t, [s.alloc(o, 'idx')]
def lim(s, vol, lin):
    s.assume(T.lt(vol, 1 << 31)); s.assume(T.lt(lin, 1 << 31)); s.assume(T.le(-(1 << 31), lin))
def inside_idx(s, c):
    """an indexer at a point of the container (0 <= linear index < volume: lemmas of C04)"""
    t, a = some_idx(s, c)
    l = s.load(a[0].at('_linear_index')); b = bounds(s, t)
    s.assume(inbox(s.load(a[0].at('_index')).items, b)); s.facts.append(T.land(T.le(0, l), T.lt(l, volume(*b))))
    return t, a
for c_ in ('', ' const'):
    rt(I + '::operator[](indexer&)' + c_, inside_idx, nn31, P5)
    rt(I + '::data()' + c_, lambda s, c: (alloc_iface(s, c['n'], 'this', 'A', minlen=1), []), nn31, P5)
    rt(I + '::data(int*)' + c_, lambda s, c: (alloc_iface(s, c['n'], 'this', 'A', minlen=1), [P(ints(s, c['n'], 'index'))]), nn31, P5)
    rt(I + '::data(indexer&)' + c_, some_idx, nn31, ('C05', 'C22'))
rt(I + '::swap(%s&)' % I, lambda s, c: (alloc_iface(s, c['n'], 'this', 'A'), [alloc_iface(s, c['m'], 'o', 'A')]), nm2, P5)
rt(I + '::fill(double&)', lambda s, c: (alloc_iface(s, c['n'], 'this', c['mode']), [s.alloc(rvar(s, 'v'), 'v')]), [{'n': n, 'mode': m} for n in DIM1 for m in 'AC'], P5)
rt(I + '::fill(range&,double&)', lambda s, c: (alloc_iface(s, c['n'], 'this', 'C'), [arange(s, c['m'], 'r'), s.alloc(rvar(s, 'v'), 'v')]), nm2, P5)
def pullset(s, c):
    t = alloc_iface(s, c['n'], 'this', 'C'); o = alloc_iface(s, c['m'], 'src', 'C')
    return t, [o, arange(s, c['m'], 'from'), arange(s, c['n'], 'to')]
rt(I + '::pull(%s&,range&,range&)' % I, pullset, nm2, P5)
rt(I + '::pull(%s&)' % I, lambda s, c: (alloc_iface(s, c['n'], 'this', 'A'), [alloc_iface(s, c['m'], 'src', 'A')]), nm2, P5)
P6 = ('C06',)
def copyset(s, c):
    a = alloc_chunk(s, c['n'] - 1, 1, 'from') if c['n'] else alloc_chunk(s, 0, 0, 'from'); b = alloc_chunk(s, c['m'] - 1, 1, 'to')
    return None, [a, arange(s, c['n'], 'fr'), b, arange(s, c['m'], 'tr')]
rt('copy_to(datachunk&,range&,datachunk&,range&)', copyset, [c for c in nm2 if c['n'] and c['m']], P6)
def copyself(s, c):
    n = c['n']; k = c['apart']
    a = alloc_chunk(s, n - 1, 1, 'chunk'); f, t = arange(s, n, 'fr'), arange(s, n, 'tr')
    fb, tb = bounds(s, f), bounds(s, t)
    s.assume(T.le(fb[1][k], tb[0][k]) if c['order'] == 0 else T.le(tb[1][k], fb[0][k]))
    return None, [a, f, a, t]
rt('copy_to(datachunk&,range&,datachunk&,range&)', copyself, [{'n': n, 'apart': k, 'order': o, 'chunk': 'same'} for n in DIM1 for k in range(n) for o in (0, 1)], P6)
def fullset(s, c):
    return None, [alloc_chunk(s, c['n'] - 1, 1, 'from', 'A'), alloc_chunk(s, c['m'] - 1, 1, 'to', 'A')]
rt('full_copy(datachunk&,datachunk&)', fullset, [c for c in nm2 if c['n'] and c['m']], P6)
def mulset(s, c): return alloc_chunk(s, max(0, c['n'] - 1), min(1, c['n']), 'this'), [arange(s, c['m'], 'r'), rvar(s, 'k')]
rt('datachunk::multiply_by_scalar(range&,double)', mulset, [c for c in nm2 if c['n']], P6)
rt('datachunk::operator=(datachunk&)', lambda s, c: (alloc_chunk(s, 1, c['m'], 'this', 'A'), [alloc_chunk(s, c['n'], 1, 'src', 'A')]), [{'n': n, 'm': m} for n in (0, 1, 2, 3) for m in (0, 1)], P6)
def asgself(s, c):
    r = alloc_chunk(s, c['n'], 1, 'this', 'A'); return r, [r]
rt('datachunk::operator=(datachunk&)', asgself, [dict(c, arg='self') for c in nn3], P6)
P7 = ('C07',)
def ndr(s, n, name):
    return rr(s, n, name)
rt('datachunk::resize(range&,range&)', lambda s, c: (alloc_chunk(s, 1, c['p'], 'this', 'A'), [ndr(s, c['n'], 'mesh'), ndr(s, c['k'], 'comp')]), [{'n': n, 'k': k, 'p': p} for n in (0, 1, 2, 3) for k in (0, 1, 2) for p in (0, 1)], P7)
def extset(s, c):
    t = alloc_chunk(s, c['p'], 1, 'this', 'A', g=ivar(s, 'g0', 0))
    m = ndr(s, c['n'], 'mesh'); d = ndr(s, c['k'], 'comp'); g = ivar(s, 'g', 0)
    mb, db = bounds(s, m), bounds(s, d)
    s.facts.append(T.le(0, volume(*[tuple(a) + tuple(b) for a, b in zip(extend(mb, g), db)])))
    return t, [m, d, g]
rt('extended_datachunk::resize(range&,range&,int)', extset, [{'n': n, 'k': k, 'p': p} for n in (1, 2, 3) for k in (1, 2) for p in (0, 2)], P7)
rt('extended_datachunk::num_ghost_layers() const', lambda s, c: (alloc_chunk(s, c['n'], 2, 'this', 'A', g=ivar(s, 'g', 0)), []), nn31, P7)
rt('extended_datachunk::internal_range() const', lambda s, c: (alloc_chunk(s, c['n'], 2, 'this', 'A', g=ivar(s, 'g', 0)), []), nn31, P7)
for nm in ('lower_internal', 'lower_external', 'upper_internal', 'upper_external'):
    rt('extended_datachunk::%s_range(int) const' % nm, lambda s, c: (alloc_chunk(s, c['n'], 2, 'this', 'A', g=ivar(s, 'g', 0)), [ivar(s, 'dim', 0, c['n'])]), nn31, P7)
# the same functions for the other element types of the library
def other_types(ety, props):
    I = 'indexer_interface<%s>' % ety
    A = lambda s, n, name='this': alloc_iface(s, n, name, 'A', ety=ety)
    rt(I + '::indexer_interface(range&)', lambda s, c: (raw(s, I), [rr(s, c['n'], 'r')]), nn3, props)
    rt(I + '::resize(range&)', lambda s, c: (A(s, 0), [rr(s, c['n'], 'r')]), nn3, props)
    rt(I + '::range() const', lambda s, c: (A(s, c['n']), []), nn3, props)
    rt(I + '::indexer(range&) const', lambda s, c: (A(s, c['n']), [arange(s, c['m'], 'r')]), nm2, props)
    rt(I + '::indexer() const', lambda s, c: (A(s, c['n']), []), nn3, props)
    for c_ in ('', ' const'):
        def inside(s, c):
            t = A(s, c['n']); b = bounds(s, t); x = [ivar(s, 'x%d' % i) for i in range(c['n'])]
            o = idx_val(s, b, new_range(s, c['n'], 'sub'), x, True); l = o.f['_linear_index']
            s.assume(inbox(x, b)); s.facts.append(T.land(T.le(0, l), T.lt(l, volume(*b))))
            return t, [s.alloc(o, 'idx')]
        rt(I + '::operator[](indexer&)' + c_, inside, nn31, props)
    for c_ in ('', ' const'): rt(I + '::data()' + c_, lambda s, c: (A(s, c['n']), []), nn31, props)
    C_ = lambda s, n, name='this': alloc_iface(s, n, name, 'C', ety=ety)
    rt(I + '::indexer_interface(%s&)' % I, lambda s, c: (raw(s, I), [A(s, c['n'], 'src')]), nn3, props)
    rt(I + '::swap(%s&)' % I, lambda s, c: (A(s, c['n']), [A(s, c['m'], 'o')]), nm2, props + (('C26',) if ety != 'range' else ()))
    val = lambda s: s.alloc(elem_fn(s, 'value', ety)((0,)), 'v')
    rt(I + '::fill(%s&)' % ety, lambda s, c: (alloc_iface(s, c['n'], 'this', c['mode'], ety=ety), [val(s)]), [{'n': n, 'mode': m} for n in DIM1 for m in 'AC'], props)
    rt(I + '::fill(range&,%s&)' % ety, lambda s, c: (C_(s, c['n']), [arange(s, c['m'], 'r'), val(s)]), nm2, props)
    rt(I + '::pull(%s&,range&,range&)' % I, lambda s, c: (C_(s, c['n']), [C_(s, c['m'], 'src'), arange(s, c['m'], 'from'), arange(s, c['n'], 'to')]), nm2, props)
    rt(I + '::pull(%s&)' % I, lambda s, c: (A(s, c['n']), [A(s, c['m'], 'src')]), nm2, props)
other_types('range', ('C05',)); other_types('extended_datachunk', ('C05',))
