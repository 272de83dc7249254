"""Contracts of the VTK output (C18). A text is a sequence of literals, numbers and repetitions (loop variable, count, text);
the text the code writes is compared with the specified one up to white space."""
from contracts.fv import *
from qkv.values import Doc
C = R.contract
P18 = ('C18',)

def repeat(s, name, n, body):
    t = s.fresh(name, 'I'); return ('loop', t, n, Str(body(t)).parts)
def write(s, f, parts):
    st = s._get(s.store[f.root], f.path, f)
    if not isinstance(st, (Stream, Doc)): raise Unsupported('stream')
    if s.inspec: s.rawset(f, Doc(Str(st.trace + tuple(parts)).parts))
    else: s.put(f, Stream(Str(st.trace + tuple(parts)).parts))
def values(s, n, full, data, rng):
    """the values of the cells of rng (point 0, one component), x fastest"""
    def go(d, x):
        if d < 0: return (('num', data.get(s.lin(full[0], full[1], list(x) + [rng[0][n], rng[0][n + 1]]))), ' ')
        return (repeat(s, 'xyz'[d], T.sub(rng[1][d], rng[0][d]), lambda t: go(d - 1, [T.add(rng[0][d], t) if i == d else y for i, y in enumerate(x)])),)
    return ('LOOKUP_TABLE default\n',) + go(n - 1, [None] * n) + ('\n',)
def write_chunk(s, this, a):
    full = shape(s, this); rng = bounds(s, a[1]); n = len(bounds(s, this.at('_mesh_range'))[0])
    s.require(len(full[0]) == n + 2 == len(rng[0]), 'a point and a component dimension')
    for i in range(n): s.require(T.land(T.le(full[0][i], rng[0][i]), T.le(rng[0][i], rng[1][i]), T.le(rng[1][i], full[1][i])), 'cells inside the chunk')
    s.require(T.land(T.eq(full[0][n], 0), T.eq(full[1][n], 1), T.eq(rng[0][n], 0), T.eq(full[0][n + 1], 0)), 'one point per cell')
    s.require(T.land(T.le(0, rng[0][n + 1]), T.lt(rng[0][n + 1], full[1][n + 1])), 'an existing component')
    write(s, a[0], values(s, n, full, data_of(s, this), rng))
for cls in ('datachunk', 'extended_datachunk'):
    @C(cls + '::write_VTK(ofstream&,range&) const')
    def _(s, this, a): write_chunk(s, this, a)
def lens_of(s, ls):
    """products of the lengths, for the addresses"""
    out = []
    for k in range(0, len(ls) + 1):
        for c in combinations(ls, k):
            p = prod(list(c))
            if not any(q is p or q == p for q in out): out.append(p)
    s.ghost['lens'] = out
    for p in out:
        if not isinstance(p, int): s.facts.append(T.le(0, p))
def t_chunk(cls):
    def f(s, c):
        n = c['n']; m = new_range(s, n, 'mesh', minlen=1); K = ivar(s, 'ncomp', 1)
        o = chunk_obj(s, m, ([0, 0], [1, K]), 'chunk', 'A', G if cls == 'extended_datachunk' else None)
        lo, hi = new_range(s, n, 'cells'); comp = ivar(s, 'comp', 0); s.assume(T.lt(comp, K))
        full = (o.f['_lower'].items, o.f['_upper'].items)
        for i in range(n): s.assume(T.land(T.le(full[0][i], lo[i]), T.le(lo[i], hi[i]), T.le(hi[i], full[1][i])))
        L = [T.sub(b, a) for a, b in zip(*full)][:n]
        lens_of(s, L + [K])
        for i in range(n):
            for p in s.ghost['lens']:
                s.facts.append(T.le(0, T.mul(T.sub(lo[i], full[0][i]), p))); s.facts.append(T.le(0, T.mul(T.sub(full[1][i], hi[i]), p)))
        return s.alloc(o, 'chunk'), [s.alloc(Stream(opaque(s, 'written').parts), 'file'), s.alloc(range_val(lo + [0, comp], hi + [1, T.add(comp, 1)]), 'cells')]
    return f
for cls in ('datachunk', 'extended_datachunk'): rt(cls + '::write_VTK(ofstream&,range&) const', t_chunk(cls), nn_, P18)

# ------------------------------------------------------------------ grid header
VA = ('volume_average', 1)
def is_va(s, b):
    b = s.load(b) if isinstance(b, Ref) else b
    from qkv.builtins import str_eq
    return T.land(str_eq(s, b.f['_name'], Str((VA[0],))), T.eq(b.f['_num_points'], VA[1]))
def header(s, g):
    o = s._get(s.store[g.root], g.path, g); lo, hi = o.f['_lower'].items, o.f['_upper'].items; n = len(lo)
    st, dx = o.f['_startxs'].items, o.f['_dxs'].items
    sp = lambda xs: tuple(y for x in xs for y in (x, ' '))
    num = lambda x: ('num', x) if not isinstance(x, int) else str(x)
    dims = [num(T.add(T.sub(hi[i], lo[i]), 1)) if i < n else '1' for i in range(3)]
    org = [num(T.add(st[i], T.mul(T.to_real(lo[i]), dx[i])) if i < n else Fraction(0)) for i in range(3)]
    spc = [num(dx[i]) if i < n else ('num', ANY) for i in range(3)]
    return ('DATASET STRUCTURED_POINTS\nDIMENSIONS ',) + sp(dims) + ('\nORIGIN ',) + sp(org) + ('\nSPACING ',) + sp(spc) + ('\n',)
@C('rectilinear::write_vtk(ofstream&,basis&) const')
def _(s, this, a):
    if not s.branch(is_va(s, a[1])):
        s.rawset(a[0], ANY); throw()
    write(s, a[0], header(s, this))
def t_head(s, c):
    m, g = rect_grid(s, c['n'])
    return g, [s.alloc(Stream(opaque(s, 'written').parts), 'file'), s.alloc(basis_val(s, 'basis'), 'basis')]
rt('rectilinear::write_vtk(ofstream&,basis&) const', t_head, nn_, P18)

# ------------------------------------------------------------------ variable
def components(s, v):
    """every component of the variable at v, in order"""
    o = s._get(s.store[v.root], v.path, v); ch = chunk_ref(v); full = shape(s, ch); n = len(full[0]) - 2
    data = data_of(s, ch); inner = bounds(s, ch.at('_internal_range')); names = o.f['_component_names']
    def one(i):
        rng = (list(inner[0][:n]) + [0, i], list(inner[1][:n]) + [1, T.add(i, 1)])
        return ('SCALARS ',) + o.f['_name'].parts + ('.',) + names.elem(i).parts + (' float 1\n',) + values(s, n, full, data, rng)
    return (repeat(s, 'component', names.n, one),)
@C('variable::write_vtk(ofstream&) const')
def _(s, this, a):
    o = s._get(s.store[this.root], this.path, this)
    if not s.branch(is_va(s, o.f['_basis'])):
        s.rawset(a[0], ANY); throw()
    write(s, a[0], components(s, this))
def t_wvar(s, c):
    n = c['n']; m = new_range(s, n, 'mesh', minlen=1); vid = full_vid(s, 'v'); K = vid.f['_component_names'].n
    s.assume(T.le(1, vid.f['_basis'].f['_num_points']))
    v = s.alloc(var_obj(s, m, 'var', vid, vid.f['_basis'].f['_num_points'], K, 'A'), 'var')
    lens_of(s, [T.add(T.sub(b, a), 2 * G) for a, b in zip(*m)] + [K])
    return v, [s.alloc(Stream(opaque(s, 'written').parts), 'file')]
rt('variable::write_vtk(ofstream&) const', t_wvar, nn_, P18)

# ------------------------------------------------------------------ the file
class Output:
    """write_vtk of the manager: every requested identifier has the first one's basis; then every variable, in order"""
    def __init__(w, s, n):
        w.m, w.grid = rect_grid(s, n)
        w.ids = id_list(s, 'request'); w.slot = s.alloc(Obj('variable', {'ghost_none': 0}), 'slot')
        w.file = Ref('FS', ('text',)); s.store['FS'] = Obj('file', {'name': opaque(s, 'oldname'), 'text': Stream(opaque(s, 'oldtext').parts)})
        w.man = alloc_manager(s, w.grid, [], outside); w.mref = w.man.at('_variables')
        w.first = s.alloc(w.ids, 'request')
        w.check = Fold(w.ids.ident, w.ids.n, w.same_basis, lambda r, k: None, w.checked)
        w.out = Fold(w.ids.ident, w.ids.n, w.one, w.arbitrary, w.written, w.begin)
        w.check.soft = w.out.soft = True
        s.foldspec[w.ids.ident] = w.check
        s.ghost['fileok'] = s.fresh('file_can_be_created', 'B')
    def basis(w, k): return w.ids.elem(k).f['_basis']
    def same(w, k):
        a, b = w.basis(0), w.basis(k)
        return T.land(T.eq(a.f['_name'].parts[0], b.f['_name'].parts[0]), T.eq(a.f['_num_points'], b.f['_num_points']))
    def same_basis(w, s, k):
        if not s.branch(w.same(k)): throw()
    def checked(w, s, entry):
        if not s.inspec: s.foldspec[w.ids.ident] = w.out
        s.ghost['checked'] = True
    def begin(w, s, entry):
        s.ghost['before'] = s._get(entry['FS'], ('text',), w.file)
    def arbitrary(w, s, k):
        if not s.ghost.get('checked'): raise Unsupported('variables written before the bases are compared')
        s.assume(w.same(k))
        vid = w.ids.elem(k); K = vid.f['_component_names'].n; s.assume(T.le(0, K))
        s.store[w.slot.root] = var_obj(s, w.m, 'slot', vid, vid.f['_basis'].f['_num_points'], K, 'A')
        s.rawset(w.mref, MapV(((T.app('registered', [k], 'B'), vid, Ptr(w.slot, None)),), None))
        s.rawset(w.file, Stream(Str((T.app('written_before', [k], 'I'),)).parts))
    def one(w, s, k):
        s.inspec += 1
        try:
            if not s.branch(T.app('registered', [k], 'B')):
                s.rawset(w.file, ANY); throw()
            write(s, w.file, components(s, w.slot))
        finally: s.inspec -= 1
    def written(w, s, entry):
        # in the specification the text of the variables follows the current text, in the code too
        st = s._get(entry['FS'], ('text',), w.file)
        v = (Doc if s.inspec else Stream)(Str(st.trace + (T.app('text_of_all', [w.ids.ident], 'I'),)).parts)
        s.store['FS'] = s.store['FS'].put('text', v)
@C('variable_manager::write_vtk(string&,string&,vector<variable_id>&) const')
def _(s, this, a):
    w = s.ghost['output']
    if not s.branch(T.lt(0, w.ids.n)): return
    def fail(): s.rawset(Ref('FS'), ANY); throw()
    w.check.apply(s)
    s.store['FS'] = Obj('file', {'name': s.load(a[0]) + s.load(a[1]), 'text': Doc(())})
    if not s.branch(s.ghost['fileok']): fail()
    if not s.branch(is_va(s, w.basis(0))): fail()
    write(s, w.file, ('# vtk DataFile Version 2.0\nquikin output\nASCII\n',) + header(s, w.grid) + ('CELL_DATA ', ('num', volume(*w.m)), '\n'))
    w.out.apply(s)
def t_out(s, c):
    w = Output(s, c['n']); s.ghost['output'] = w
    return w.man, [s.alloc(opaque(s, 'prefix'), 'prefix'), s.alloc(opaque(s, 'suffix'), 'suffix'), w.first]
rt('variable_manager::write_vtk(string&,string&,vector<variable_id>&) const', t_out, nn_, P18)
