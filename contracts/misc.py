"""Contracts of exception (C23) and the orders on bases and identifiers (C16)."""
from contracts.base import *
from contracts.lib import rt, raw
from contracts.idx import state
from qkv.verify import lookup
C = R.contract

# ------------------------------------------------------------------ exception
def opaque(s, name): return Str((s.fresh(name, 'I'),))
def exc_obj(s, parts): return Obj('exception', {'_what': Stream(parts), '_message': ANY})
def alloc_exc(s, name='this'):
    fields(s, 'exception', ('_what', '_message'))
    return s.alloc(Obj('exception', {'_what': Stream(opaque(s, name + '_text').parts), '_message': opaque(s, name + '_old')}), name)
def message(s, ref):
    o = state(s, ref)
    return o.f['ghost_what'].parts if 'ghost_what' in o.f else o.f['_what'].trace
def text(s, a):
    v = s.load(a) if isinstance(a, Ref) else a
    return v.parts
def set_msg(s, this, parts):
    o = s._get(s.store[this.root], this.path, this)
    f = dict(o.f); f.update(_what=Stream(Str(parts).parts), _message=ANY); s.rawset(this, Obj(o.cls, f))
@C('exception::exception()')
def _(s, this, a): set_msg(s, this, ())
@C('exception::exception(string)')
def _(s, this, a): set_msg(s, this, text(s, a[0]))
@C('exception::exception(exception&)')
def _(s, this, a): set_msg(s, this, message(s, a[0]))
@C('exception::operator=(exception&)')
def _(s, this, a): set_msg(s, this, message(s, a[0])); return this
@C('exception::operator<<(string&)')
def _(s, this, a): set_msg(s, this, message(s, this) + text(s, a[0])); return this
@C('exception::what()')
def _(s, this, a):
    s.rawset(this.at('_message'), ANY); return CStr(None, Str(message(s, this)))
@C('operator<<(ostream&,exception&)')
def _(s, this, a):
    st = s.load(a[0]); s.put(a[0], Stream(Str(st.trace + message(s, a[1])).parts)); return a[0]
P23 = ('C23',)
rt('exception::exception()', lambda s, c: (raw(s, 'exception'), []), [{}], P23)
rt('exception::exception(string)', lambda s, c: (raw(s, 'exception'), [opaque(s, 'error')]), [{}], P23)
def stdexc(s, c): return raw(s, 'exception'), [s.alloc(Obj('std::exception', {'ghost_what': opaque(s, 'what')}), 'other')]
rt('exception::exception(exception&)', stdexc, [{'from': 'std'}], P23, pick=lambda f: 'std::' in f.ptypes[0])
rt('exception::exception(exception&)', lambda s, c: (raw(s, 'exception'), [alloc_exc(s, 'other')]), [{'from': 'qk'}], P23, pick=lambda f: 'std::' not in f.ptypes[0])
rt('exception::operator=(exception&)', lambda s, c: (alloc_exc(s), [alloc_exc(s, 'other')]), [{}], P23)
def selfexc(s, c):
    r = alloc_exc(s); return r, [r]
rt('exception::operator=(exception&)', selfexc, [{'arg': 'self'}], P23)
rt('exception::operator<<(string&)', lambda s, c: (alloc_exc(s), [s.alloc(opaque(s, 'text'), 'text')]), [{}], P23)
rt('exception::what()', lambda s, c: (alloc_exc(s), []), [{}], P23)
rt('operator<<(ostream&,exception&)', lambda s, c: (None, [s.alloc(Stream(opaque(s, 'written').parts), 'os'), alloc_exc(s, 'e')]), [{}], P23)

def stable(s):
    """the text what() returned stays where it is while the exception is only read"""
    e = alloc_exc(s); what = lookup(s.prog, 'exception::what()')
    v = s.run_fn(what, e, [])
    if not isinstance(v, CStr) or v.ref is None: raise Unsupported('what() returns a pointer that is not the text of a member')
    buf = lambda: s._get(s.store[v.ref.root], v.ref.path, v.ref)
    b0 = buf()
    def unchanged(l): s.oblige(buf() is b0, 'the returned text stays valid after ' + l)
    w = s.run_fn(what, e, []); unchanged('another what()')
    s.run_fn(lookup(s.prog, 'operator<<(ostream&,exception&)'), None, [s.alloc(Stream(opaque(s, 'written').parts), 'os'), e]); unchanged('printing')
    s.run_fn(lookup(s.prog, 'exception::operator=(exception&)'), alloc_exc(s, 'other'), [e]); unchanged('assigning from it')
    s.run_ctor(lookup(s.prog, 'exception::exception(exception&)', lambda f: 'std::' not in f.ptypes[0]), raw(s, 'exception'), [e]); unchanged('copying it')
R.lemma('exception::what(): the text stays valid', stable, P23)

# ------------------------------------------------------------------ orders
def basis_val(s, name): return Obj('basis', {'_name': opaque(s, name + '_name'), '_num_points': s.fresh(name + '_points', 'I')})
def vid_val(s, name):
    n = s.fresh(name + '_ncomp', 'I'); i = s.fresh(name + '_comps', 'I')
    return Obj('variable_id', {'_name': opaque(s, name + '_id'), '_basis': basis_val(s, name), '_component_names': SymList(i, n, lambda k: Unk('component name'), 'std::string')})
def result(s, key, args):
    """truth of calling the code of key"""
    from qkv.interp import Throw
    v = s.run_fn(lookup(s.prog, key), None, args)
    if isinstance(v, Ref): v = s.load(v)
    return v
def order_lemma(cls, fs, mkv, assume=None, same=None, props=('C16',)):
    lt, eq = 'operator<(%s&,%s&)' % (cls, cls), 'operator==(%s&,%s&)' % (cls, cls)
    def pairs(s, n):
        fields(s, cls, fs)
        x = [s.alloc(mkv(s, 'abc'[i]), 'abc'[i]) for i in range(n)]
        if assume: assume(s, x)
        pre = [s.store[r.root] for r in x]
        def L(i, j): return result(s, lt, [x[i], x[j]])
        def E(i, j): return result(s, eq, [x[i], x[j]])
        def done():
            for r, p in zip(x, pre): s.oblige(s.store[r.root] is p, 'comparison changes nothing')
        return L, E, done, x
    def two(s):
        L, E, done, x = pairs(s, 2)
        s.oblige(T.lnot(L(0, 0)), 'irreflexive'); s.oblige(E(0, 0), 'equal to itself')
        ab, ba, e, f = L(0, 1), L(1, 0), E(0, 1), E(1, 0)
        s.oblige(T.lnot(T.land(ab, ba)), 'asymmetric')
        s.oblige(T.iff(e, T.land(T.lnot(ab), T.lnot(ba))), 'equal exactly when neither precedes the other')
        s.oblige(T.iff(e, f), 'equality is symmetric'); done()
        if same: s.oblige(T.iff(e, same(s, *[s.load(r) for r in x])), 'equal exactly when name and basis agree')
    def three(s):
        L, E, done, x = pairs(s, 3)
        ab, bc, ac, ba, cb, ca = L(0, 1), L(1, 2), L(0, 2), L(1, 0), L(2, 1), L(2, 0)
        s.oblige(T.implies(T.land(ab, bc), ac), 'transitive')
        i = lambda p, q: T.land(T.lnot(p), T.lnot(q))
        s.oblige(T.implies(T.land(i(ab, ba), i(bc, cb)), i(ac, ca)), 'incomparability is transitive'); done()
    R.lemma('%s: pairs' % lt, two, props); R.lemma('%s: triples' % lt, three, props)
order_lemma('basis', ('_name', '_num_points'), basis_val)
VID_F = ('_name', '_basis', '_component_names')
def agree(s, x):
    """identifiers that agree on components whenever their names agree"""
    o = [s.load(r) for r in x]
    for i in range(len(o)):
        for j in range(i): s.assume(T.implies(T.eq(o[i].f['_name'].parts[0], o[j].f['_name'].parts[0]), T.eq(o[i].f['_component_names'].ident, o[j].f['_component_names'].ident)))
from qkv.builtins import key_eq
order_lemma('variable_id', VID_F, vid_val, agree, key_eq, ('C16', 'C15'))
@C('operator!=(basis&,basis&)')
def _(s, this, a):
    x, y = s.load(a[0]), s.load(a[1])
    return T.lnot(T.land(T.eq(x.f['_name'].parts[0], y.f['_name'].parts[0]), T.eq(x.f['_num_points'], y.f['_num_points'])))
rt('operator!=(basis&,basis&)', lambda s, c: (None, [s.alloc(basis_val(s, 'a'), 'a'), s.alloc(basis_val(s, 'b'), 'b')]), [{}], ('C16', 'C18'))
for op in ('<', '=='):
    def mismatch(op):
        def f(s):
            """same name, other components: rejected"""
            from qkv.interp import Throw
            fields(s, 'variable_id', VID_F)
            a, b = vid_val(s, 'a'), vid_val(s, 'b')
            b = b.put('_name', a.f['_name']); s.assume(T.ne(a.f['_component_names'].ident, b.f['_component_names'].ident))
            x = [s.alloc(a, 'a'), s.alloc(b, 'b')]
            try: v = result(s, 'operator%s(variable_id&,variable_id&)' % op, x); s.fail('same name with other components is rejected', 'the code returns')
            except Throw as e: s.oblige(e.cls == 'qk::exception' or str(e.cls).endswith('exception') and 'std' not in str(e.cls), 'same name with other components is rejected')
            for r, o in zip(x, (a, b)): s.oblige(s.store[r.root] is o, 'comparison changes nothing')
        R.lemma('operator%s of identifiers with a component mismatch' % op, f, ('C16',))
    mismatch(op)
def clone(s):
    """a clone keeps components and basis; its name is the name, a text not ending in a digit, and a number no earlier clone had"""
    fields(s, 'variable_id', VID_F)
    tag = s.fresh('tag', 'I'); s.assume(T.le(0, tag)); s.store['G__tag'] = tag     # every earlier clone had a number below the counter
    a = vid_val(s, 'a'); r = s.alloc(a, 'this')
    v = s.run_fn(lookup(s.prog, 'variable_id::unique_clone() const'), r, [])
    if isinstance(v, Ref): v = s.load(v)
    s.oblige(s.store[r.root] is a, 'the identifier itself does not change')
    from qkv.verify import compare
    s.cmp_code = s.cmp_spec = s.store
    compare(s, v.f['_basis'], a.f['_basis'], 'clone keeps the basis')
    compare(s, v.f['_component_names'], a.f['_component_names'], 'clone keeps the components')
    p = v.f['_name'].parts
    s.oblige(len(p) >= 2 and isinstance(p[-1], tuple) and p[-1][0] == 'num' and isinstance(p[-2], str) and not p[-2][-1].isdigit() and p[-2][-1] != '-', 'the name ends in a number')
    k = p[-1][1]
    s.oblige(T.le(tag, k), 'the number was not used before'); s.oblige(T.lt(k, s.store['G__tag']), 'the number is not used again')
    s.assumed.add('names that end in different numbers after a non-digit are different strings')
R.lemma('variable_id::unique_clone() const', clone, ('C16',))
