"""Trusted models of the parts of std:: the library uses."""
from fractions import Fraction
from . import terms as T
from .terms import Node
from .values import *
from .frontend import simple, qual
from .interp import Throw, PathEnd, vec_elem
import re

class MapV:
    """std::map keyed by variable identity: entries tried in order, then the unknown remainder `rest`"""
    __slots__ = ('entries', 'rest')
    def __init__(s, entries, rest): s.entries = entries; s.rest = rest
    @staticmethod
    def empty(): return MapV((), None)

def snoc(s, v, x):
    """the list v with x appended"""
    def elem(k):
        if k is v.n or (isinstance(k, Node) and isinstance(v.n, Node) and T.sub(k, v.n) == 0): return x
        return s.pick(T.eq(k, v.n), lambda: x, lambda: v.elem(k))
    r = SymList(s.fresh('appended', 'I'), T.add(v.n, 1), elem, v.ety); r.snoc = (v, x)
    return r
def strkey(p): return T.var('str:' + p, 'I') if isinstance(p, str) else p
def str_eq(s, a, b):
    if a.parts == b.parts: return True
    if all(isinstance(p, str) for p in a.parts + b.parts): return ''.join(a.parts) == ''.join(b.parts)
    if len(a.parts) <= 1 and len(b.parts) <= 1:
        x = a.parts[0] if a.parts else ''; y = b.parts[0] if b.parts else ''
        if isinstance(x, (str, Node)) and isinstance(y, (str, Node)): return T.eq(strkey(x), strkey(y))
    # a common literal prefix of opaque name + literal + number
    raise Unsupported('comparison of composed strings')
def str_lt(s, a, b):
    if a.parts == b.parts: return False
    if all(isinstance(p, str) for p in a.parts + b.parts): return ''.join(a.parts) < ''.join(b.parts)
    if len(a.parts) <= 1 and len(b.parts) <= 1:
        x = a.parts[0] if a.parts else ''; y = b.parts[0] if b.parts else ''
        if isinstance(x, (str, Node)) and isinstance(y, (str, Node)): return T.lt(strkey(x), strkey(y))
    raise Unsupported('order of composed strings')

def is_vec(t): return simple(t).startswith('vector<')
def is_str(t):
    x = simple(t); return x == 'string' or x.startswith('basic_string<char')

def size_of(v):
    if isinstance(v, LVec): return len(v.items)
    if isinstance(v, (AVec, CVec, SymList)): return v.n
    if isinstance(v, Str): raise Unsupported('string size')
    raise Unsupported('size of %r' % (v,))

def read_range(s, a, b):
    """elements of [a,b) given by two pointers/iterators into one array; None if the length is symbolic"""
    if a.base is None and b.base is None: return []
    if a.base != b.base: raise Unsupported('iterators of different containers')
    n = T.sub(b.off, a.off)
    if not isinstance(n, int): return None
    return [s.load(a.base.idx(T.add(a.off, k))) for k in range(n)]

def construct(s, t, n, args):
    st = simple(t)
    if st.startswith('pair<') and args:
        if len(args) == 2: return Obj('pair', {'first': s.rv(args[0]), 'second': s.rv(args[1])})
        return s.rv(args[0])
    if is_vec(t):
        ety = vec_elem(t)
        args = [a for a in args if a['kind'] != 'CXXDefaultArgExpr']
        if not args: return LVec((), ety)
        if len(args) == 1:
            if is_vec(qual(args[0])): return s.rv(args[0])
            v = s.rv(args[0])
            if isinstance(v, (LVec, AVec, CVec, SymList)): return v
            if isinstance(v, int): return LVec([s.zero(ety)] * v, ety)
            z = s.zero(ety); return AVec(v, lambda i: z, ety)
        if len(args) == 2:
            a = s.rv(args[0]); b = s.rv(args[1])
            if isinstance(a, Ptr):
                r = read_range(s, a, b)
                if r is None:
                    src = s.load(a.base); off = a.off; k = T.sub(b.off, a.off)
                    if isinstance(src, AVec):
                        s.inb(T.land(T.le(0, a.off), T.le(b.off, src.n)), 'copied range')
                        return AVec(k, lambda i: src.get(T.add(i, off)), ety)
                    raise Unsupported('symbolic range copy')
                return LVec(r, ety)
            if isinstance(a, int): return LVec([b] * a, ety)
            return AVec(a, lambda i: b, ety)
        raise Unsupported('vector constructor')
    if is_str(t):
        args = [a for a in args if a['kind'] != 'CXXDefaultArgExpr']
        if not args: return Str(())
        if len(args) == 1:
            v = s.rv(args[0])
            if isinstance(v, CStr): v = text_of(s, v)
            if isinstance(v, Str): return v
        raise Unsupported('string constructor')
    if st.startswith('basic_stringstream') or st.startswith('basic_ostringstream') or st in ('stringstream', 'ostringstream'):
        args = [a for a in args if a['kind'] != 'CXXDefaultArgExpr']
        if args: raise Unsupported('stringstream constructor')
        return Stream()
    if st.startswith('basic_ofstream') or st == 'ofstream':
        s.ghost['files'] = s.ghost.get('files', 0) + 1
        for a in args:
            if a['kind'] != 'CXXDefaultArgExpr': s.rv(a)
        return Stream()
    if st.startswith('map<') : return MapV.empty()
    if 'iterator' in st or st.startswith('__normal_iterator') or st.startswith('_Rb_tree'):
        return s.rv(args[0])
    if st in ('exception',) and 'std::' in t: raise Unsupported('std::exception')
    if st == 'initializer_list': raise Unsupported('initializer_list')
    return NotImplemented

UN = {'sqrt': 'sqrt', 'sin': 'sin', 'cos': 'cos', 'tan': 'tan', 'exp': 'exp', 'tanh': 'tanh', 'cosh': 'cosh', 'sinh': 'sinh', 'log': 'log'}
def sign(s, x, strict):
    """x > 0 (strict) or x >= 0, by the signs of its parts"""
    if T.is_const(x): return x > 0 if strict else x >= 0
    if x.op == 'add':
        c, d = T._addend(x)
        return c >= 0 and all(k > 0 and sign(s, n, False) for n, k in d.items()) and (not strict or c > 0 or any(sign(s, n, True) for n in d))
    if x.op == 'mul':
        q, f = T._factors(x)
        return q > 0 and all(e % 2 == 0 and not strict or sign(s, n, strict or e < 0) for n, e in f.items())
    if x.op == 'toreal':
        from . import smt
        return smt.unsat(s.hyp() + [T.lt(x.args[0], 1 if strict else 0)], 4.0)
    if x.op in ('app',) and x.args[0] == 'pow': return sign(s, x.args[1], strict)
    from . import smt
    return smt.unsat(s.hyp() + [T.le(x, 0) if strict else T.lt(x, 0)], 4.0)
def power(s, a, b):
    """x ** b of a real x; the identities used hold for x >= 0"""
    if a == 1: return Fraction(1)
    if a == 0 and sign(s, b, True): return Fraction(0)
    if isinstance(a, Node) and a.op == 'app' and a.args[0] == 'pow' and T.mul(a.args[2], b) == 1 and sign(s, a.args[1], False): return a.args[1]
    return T.app('pow', [a, b], 'R')
def call(s, name, d, n, args):
    if name in UN and len(args) == 1:
        return T.app(name, [T.to_real(s.num(args[0]))], 'R')
    if name in ('fabs', 'abs') and len(args) == 1: return T.rabs(s.num(args[0]))
    if name == 'pow' and len(args) == 2:
        a, b = T.to_real(s.num(args[0])), T.to_real(s.num(args[1]))
        if T.is_const(b) and b.denominator == 1 and 0 < b <= 8:
            return T.mul(*[a] * int(b)) if b > 1 else a
        return power(s, a, b)
    if name in ('min', 'max') and len(args) == 2:
        a, b = s.num(args[0]), s.num(args[1])
        return (T.lmin if name == 'min' else T.lmax)(a, b)
    if name == '__builtin_assume_aligned': return s.rv(args[0])
    if name == 'fill':
        a, b, v = s.rv(args[0]), s.rv(args[1]), s.rv(args[2])
        return fill(s, a, T.sub(b.off, a.off), v)
    if name == 'fill_n':
        a, k, v = s.rv(args[0]), s.num(args[1]), s.rv(args[2])
        fill(s, a, k, v)
        return Ptr(a.base, T.add(a.off, k)) if a.base is not None else a
    if name in ('memcpy', 'memmove', '__builtin_memcpy'):
        dst, src, nb = s.rv(args[0]), s.rv(args[1]), s.num(args[2])
        for q in (dst, src):
            if isinstance(q, Ptr) and q.base is not None and s.sort(getattr(s.load(q.base), 'ety', None) or '') != 'R': raise Unsupported('memcpy of other than double')
        blockcopy(s, dst, src, exact8(nb)); return dst
    if name == 'copy' and len(args) == 3:
        a, b, dst = s.rv(args[0]), s.rv(args[1]), s.rv(args[2])
        k = T.sub(b.off, a.off)
        blockcopy(s, dst, a, k); return Ptr(dst.base, T.add(dst.off, k)) if isinstance(dst, Ptr) and dst.base is not None else dst
    if name == 'copy_n' and len(args) == 3:
        a, k, dst = s.rv(args[0]), s.num(args[1]), s.rv(args[2])
        blockcopy(s, dst, a, k); return Ptr(dst.base, T.add(dst.off, k)) if isinstance(dst, Ptr) and dst.base is not None else dst
    if name == 'memset' and len(args) == 3:
        a, z, nb = s.rv(args[0]), s.num(args[1]), s.num(args[2])
        if z != 0: raise Unsupported('memset')
        v = s.load(a.base)
        if s.sort(getattr(v, 'ety', '') or '') != 'R': raise Unsupported('memset of other than double')
        fill(s, a, exact8(nb), Fraction(0)); return a
    if name == 'swap_ranges' and len(args) == 3:
        a, b, c = s.rv(args[0]), s.rv(args[1]), s.rv(args[2])
        k = T.sub(b.off, a.off)
        if not isinstance(k, int) or not 0 <= k <= SMALL: raise Unsupported('swap_ranges')
        for j in range(k):
            p, q = a.base.idx(T.add(a.off, j)), c.base.idx(T.add(c.off, j))
            x, y = s.load(p), s.load(q); s.put(p, y); s.put(q, x)
        return Ptr(c.base, T.add(c.off, k))
    if name in ('accumulate', 'inner_product') and len(args) == (3 if name == 'accumulate' else 4):
        a, b = s.rv(args[0]), s.rv(args[1])
        c = s.rv(args[2]) if name == 'inner_product' else None
        k = T.sub(b.off, a.off)
        if not isinstance(k, int) or not 0 <= k <= SMALL: raise Unsupported(name)
        if s.sort(qual(args[-1])) != 'R': raise Unsupported(name + ' of other than double')
        w = T.to_real(s.num(args[-1]))
        for j in range(k):
            x = T.to_real(s.load(a.base.idx(T.add(a.off, j))))
            w = T.add(w, x if c is None else T.mul(x, T.to_real(s.load(c.base.idx(T.add(c.off, j))))))
        return w
    if name == 'swap' and len(args) == 2:
        a, b = s.ev(args[0]), s.ev(args[1])
        x, y = s.load(a), s.load(b); s.put(a, y); s.put(b, x); return None
    if name == 'to_string' and len(args) == 1 and s.sort(qual(args[0])) == 'I':
        w = s.num(args[0]); return Str(((str(w),) if isinstance(w, int) else (('num', w),)))
    if name == 'make_pair' and len(args) == 2: return Obj('pair', {'first': s.rv(args[0]), 'second': s.rv(args[1])})
    if name == 'setprecision': return Str(())
    if name in ('endl', 'flush'): return Str(('\n',)) if name == 'endl' else Str(())
    if name in ('printf',): return None
    if name in ('begin', 'end') and len(args) == 1:
        r = s.ev(args[0]); v = s.load(r)
        return Ptr(r, 0 if name == 'begin' else size_of(v))
    if name in ('move', 'forward'): return s.ev(args[0])
    return NotImplemented

def exact8(nb):
    if isinstance(nb, int):
        if nb % 8: raise Unsupported('memcpy size')
        return nb // 8
    c, ts = T._addend(nb)
    if c % 8 or any(k % 8 for k in ts.values()): raise Unsupported('memcpy size')
    return T._mkadd(c // 8, {n: k // 8 for n, k in ts.items()}, 'I')

SMALL = 16    # blocks of a constant length up to this are written element by element
def whole(s, v, off, k): return off == 0 and T.sub(v.n, k) == 0
def box_vol(v): return v.n

def fill(s, a, k, val):
    if isinstance(a, Ptr) and a.base is None:
        if k == 0: return None
        raise Unsupported('fill through null')
    v = s.load(a.base)
    if s.sort(getattr(v, 'ety', None) or '') == 'R' and not isinstance(val, Fraction): val = T.to_real(val)
    if isinstance(k, int) and 0 <= k <= SMALL and not (isinstance(v, CVec) and whole(s, v, a.off, k)):
        for j in range(k): s.put(a.base.idx(T.add(a.off, j)), val)
        return None
    if s.rec and not isinstance(v, LVec): s.note_bulk(a.base)
    if isinstance(v, LVec):
        if not isinstance(k, int): raise Unsupported('symbolic fill of a fixed array')
        for j in range(k): s.put(a.base.idx(T.add(a.off, j)), val)
        return None
    if isinstance(v, AVec):
        s.inb(T.land(T.le(0, a.off), T.le(T.add(a.off, k), v.n)), 'filled range')
        old = v.get; lo = a.off; hi = T.add(a.off, k)
        s.rawset(a.base, AVec(v.n, lambda i: s.pick(T.land(T.le(lo, i), T.lt(i, hi)), lambda: val, lambda: old(i)), v.ety)); return None
    if isinstance(v, CVec):
        if whole(s, v, a.off, k):
            s.rawset(a.base, CVec(v.lo, v.hi, lambda c: val, v.ety)); return None
    raise Unsupported('fill')

def blockcopy(s, dst, src, k):
    if k == 0 or (isinstance(dst, Ptr) and dst.base is None): return dst
    d = s.load(dst.base); v = s.load(src.base)
    if isinstance(k, int) and 0 < k <= SMALL and not (isinstance(d, CVec) and whole(s, d, dst.off, k)):
        items = [s.load(src.base.idx(T.add(src.off, j))) for j in range(k)]
        for j in range(k): s.put(dst.base.idx(T.add(dst.off, j)), items[j])
        return dst
    if s.rec and not isinstance(d, LVec): s.note_bulk(dst.base)
    if isinstance(k, int) and k <= 64 and isinstance(d, LVec):
        items = [s.load(src.base.idx(T.add(src.off, j))) for j in range(k)]
        for j in range(k): s.put(dst.base.idx(T.add(dst.off, j)), items[j])
        return dst
    if isinstance(d, AVec) and isinstance(v, AVec):
        s.inb(T.land(T.le(0, src.off), T.le(T.add(src.off, k), v.n)), 'source of block copy')
        s.inb(T.land(T.le(0, dst.off), T.le(T.add(dst.off, k), d.n)), 'destination of block copy')
        old = d.get; lo = dst.off; hi = T.add(lo, k); sh = T.sub(src.off, dst.off)
        s.rawset(dst.base, AVec(d.n, lambda i: s.pick(T.land(T.le(lo, i), T.lt(i, hi)), lambda: v.get(T.add(i, sh)), lambda: old(i)), d.ety)); return dst
    if isinstance(d, CVec) and isinstance(v, CVec):
        # whole arrays of the same shape: element i corresponds to element i
        if dst.off == 0 and src.off == 0 and T.sub(v.n, k) == 0 and T.sub(d.n, k) == 0 and len(d.lo) == len(v.lo) and \
           all(s.decide(T.eq(T.sub(b, a), T.sub(q, p))) is True for a, b, p, q in zip(d.lo, d.hi, v.lo, v.hi)):
            s.rawset(dst.base, CVec(d.lo, d.hi, lambda c: v.get(tuple(T.add(T.sub(x, a), p) for x, a, p in zip(c, d.lo, v.lo))), d.ety)); return dst
    raise Unsupported('block copy')

def method(s, this, nm, n, args):
    v = s.load(this)
    args = [a for a in args if a['kind'] != 'CXXDefaultArgExpr']
    if isinstance(v, (LVec, AVec, CVec, SymList)):
        if nm == 'size': return size_of(v)
        if nm == 'empty': return T.eq(size_of(v), 0)
        if nm == 'data' or nm in ('begin', 'cbegin'): return Ptr(this, 0)
        if nm in ('end', 'cend'): return Ptr(this, size_of(v))
        if nm == 'front': return this.idx(0)
        if nm == 'back': return this.idx(T.sub(size_of(v), 1))
        if nm == 'at':
            i = s.num(args[0])
            if not s.branch(T.land(T.le(0, i), T.lt(i, size_of(v)))): raise Throw('std::out_of_range')
            return this.idx(i)
        if nm == 'clear': s.put(this, LVec((), v.ety)); return None
        if nm == 'reserve': return None
        if nm in ('push_back', 'emplace_back'):
            x = s.rv(args[0])
            if isinstance(v, LVec): s.put(this, LVec(v.items + (x,), v.ety)); return None
            if isinstance(v, SymList): s.put(this, snoc(s, v, x)); return None
            raise Unsupported('push_back')
        if nm in ('resize', 'assign'):
            k = s.num(args[0])
            if isinstance(k, Ptr): raise Unsupported('assign from iterators')
            if len(args) > 1: x = s.rv(args[1]); mk = lambda: x
            else: mk = lambda: s.zero(v.ety)
            if nm == 'assign': v = LVec((), v.ety)
            if isinstance(v, LVec):
                if isinstance(k, int):
                    if k < 0 or k > 4096: raise Throw('std::length_error')
                    s.put(this, LVec(v.items[:k] + tuple(mk() for _ in range(k - len(v.items))), v.ety)); return None
                z = mk()
                if len(v.items) == 0:
                    s.put(this, AVec(k, lambda i: z, v.ety)); return None
                its = v.items
                def get(i):
                    r = z
                    for j, it in reversed(list(enumerate(its))): r = s.pick(T.eq(i, j), lambda it=it: it, lambda r=r: r)
                    return r
                s.put(this, AVec(k, get, v.ety)); return None
            if isinstance(v, AVec):
                z = mk(); old = v; nk = k
                s.put(this, AVec(k, lambda i: s.pick(T.lt(i, old.n), lambda: old.get(i), lambda: z), v.ety)); return None
            if isinstance(v, CVec) and T.sub(v.n, k) == 0: return None
            if isinstance(v, CVec) and isinstance(k, int) and k == 0: s.put(this, LVec((), v.ety)); return None
            raise Unsupported('resize')
        if nm == 'swap':
            o = s.ev(args[0]); w = s.load(o)
            s.put(this, w); s.put(o, v); return None
        if nm == 'operator=': s.put(this, s.rv(args[0])); return this
        raise Unsupported('vector::' + nm)
    if isinstance(v, Str):
        if nm in ('c_str', 'data'): return CStr(this)
        if nm == 'clear': s.put(this, Str(())); return None
        if nm == 'empty': return str_eq(s, v, Str(()))
        if nm == 'compare':
            if len(args) != 1: raise Unsupported('comparison of parts of strings')
            w = s.rv(args[0])
            e = str_eq(s, v, w)
            return T.ite(e, 0, T.ite(str_lt(s, v, w), -1, 1))
        if nm == 'append': s.put(this, v + s.rv(args[0])); return this
        if nm == 'operator=': s.put(this, s.rv(args[0])); return this
        if nm in ('size', 'length'): raise Unsupported('string size')
        raise Unsupported('string::' + nm)
    if isinstance(v, Stream):
        if nm == 'str':
            if not args: return trace_str(v)
            w = s.rv(args[0])
            if isinstance(w, CStr): w = text_of(s, w)
            if w.parts: raise Unsupported('stringstream::str with a text')
            s.put(this, Stream(())); return None
        if nm in ('clear', 'close', 'precision', 'flush', 'width', 'fill', 'setf'): return None
        if nm in ('is_open', 'good', 'operator bool', 'operator!'):
            b = s.ghost.get('fileok', True)
            return b if nm != 'operator!' else T.lnot(b)
        if nm in ('fail', 'bad'): return T.lnot(s.ghost.get('fileok', True))
        if nm == 'open':
            if this.root == 'FS': s.open_file(s.rv(args[0]))
            return None
        raise Unsupported('stream::' + nm)
    if isinstance(v, MapV):
        if nm == 'find': return map_find(s, this, v, s.ev(args[0]))
        if nm in ('end', 'cend'): return MapIt(this, None)
        if nm == 'count':
            return 1 if map_find(s, this, v, s.ev(args[0])).key is not None else 0
        if nm == 'at':
            it = map_find(s, this, v, s.ev(args[0]))
            if it.key is None: raise Throw('std::out_of_range')
            return map_ref_of(s, it)
        if nm in ('insert', 'emplace') and len(args) in (1, 2):
            if len(args) == 1:
                e = s.rv(args[0])
                if not (isinstance(e, Obj) and e.cls == 'pair'): raise Unsupported('map::insert')
                k, x = e.f['first'], e.f['second']
            elif nm == 'emplace': k, x = s.rv(args[0]), s.rv(args[1])
            else: raise Unsupported('map::insert with a hint')
            it = map_find(s, this, v, k); new = it.key is None
            if new:
                m = s.load(this); it = MapIt(this, len(m.entries))
                s.rawset(this, MapV(m.entries + ((0, k, Ptr(None, None)),), m.rest)); s.put(map_ref_of(s, it), x)
            return Obj('pair', {'first': it, 'second': new})
        if nm == 'clear': s.put(this, MapV.empty()); return None
        if nm == 'size': raise Unsupported('map size')
        raise Unsupported('map::' + nm)
    if isinstance(v, Obj) and nm == 'what' and 'ghost_what' in v.f: return CStr(this.at('ghost_what'))
    raise Unsupported('method %s of %s' % (nm, type(v).__name__))

def text_of(s, v): return v.text if v.ref is None else s.load(v.ref)
def trace_str(v): return Str(v.trace)

def key_eq(s, a, b):
    """equivalence of two identifiers as keys of a map: same name and basis (lemmas of C16)"""
    a = s.load(a) if isinstance(a, Ref) else a; b = s.load(b) if isinstance(b, Ref) else b
    if not (isinstance(a, Obj) and isinstance(b, Obj) and a.cls == b.cls == 'variable_id'): raise Unsupported('map key')
    return T.land(str_eq(s, a.f['_name'], b.f['_name']), str_eq(s, a.f['_basis'].f['_name'], b.f['_basis'].f['_name']), T.eq(a.f['_basis'].f['_num_points'], b.f['_basis'].f['_num_points']))
def map_find(s, mref, m, k):
    for j, (guard, key2, _) in enumerate(m.entries):
        # an entry may be present under a condition
        if s.branch(T.land(guard, key_eq(s, k, key2)) if isinstance(guard, Node) else key_eq(s, k, key2)): return MapIt(mref, j)
    if m.rest is not None: m.rest(s, k)         # unknown remainder
    return MapIt(mref, None)
def map_ref_of(s, it):
    """reference to the mapped value of an entry"""
    return Ref(it.map.root, it.map.path + (('map', it.key),))

def operator(s, nm, n, args):
    t0 = qual(args[0])
    if nm == 'operator[]':
        this = s.ev(args[0])
        if not isinstance(this, Ref): this = s.alloc(this)
        v = s.load(this) if not s.rec else s._get(s.store[this.root], this.path, this)
        if isinstance(v, MapV):
            k = s.ev(args[1])
            it = map_find(s, this, v, k)
            if it.key is None:
                m = s.load(this)
                kv = s.load(k) if isinstance(k, Ref) else k
                s.rawset(this, MapV(m.entries + ((0, kv, Ptr(None, None)),), m.rest))
                it = MapIt(this, len(m.entries))
            return map_ref_of(s, it)
        if isinstance(v, (LVec, AVec, CVec, SymList)):
            i = s.num(args[1])
            if isinstance(v, LVec) and not isinstance(i, int):
                k = s.conc(i, len(v.items))
                if k is None:
                    s.fail('in bounds: element %s of %d' % (T.show(i), len(v.items))); raise PathEnd()
                i = k
            return this.idx(i)
        if isinstance(v, Ptr): return v.base.idx(T.add(v.off, s.num(args[1])))
        return NotImplemented
    if nm == 'operator=':
        st = simple(t0)
        if is_vec(t0) or is_str(t0) or st.startswith('map<') or 'iterator' in st:
            v = s.rv(args[1])
            if isinstance(v, LVec) and not is_vec(t0): raise Unsupported('assignment')
            if is_vec(t0):
                ref = s.ev(args[0]); s.put(ref, v); return ref
            ref = s.ev(args[0]); s.put(ref, v); return ref
        return NotImplemented
    if nm == 'operator<<':
        l = s.ev(args[0])
        if isinstance(l, Ref) and isinstance(s._get(s.store[l.root], l.path, l), Stream):
            v = s.rv(args[1])
            if isinstance(v, CStr): v = text_of(s, v)
            if isinstance(v, FnVal):
                d = v.fn
                nm2 = d.get('name') if isinstance(d, dict) else d[2]
                v = Str(('\n',)) if nm2 == 'endl' else Str(())
            st = s.load(l)
            if isinstance(v, Str): s.put(l, Stream(Str(st.trace + v.parts).parts))
            elif isinstance(v, (int, Fraction, Node)):
                w = v
                if isinstance(w, bool): w = int(w)
                s.put(l, Stream(Str(st.trace + ((str(w),) if isinstance(w, int) else (('num', w),))).parts))
            elif isinstance(v, Obj):
                return NotImplemented
            else: raise Unsupported('stream << %r' % (v,))
            return l
        return NotImplemented
    if nm == 'operator!':
        v = s.rv(args[0])
        if isinstance(v, Stream): return T.lnot(s.ghost.get('fileok', True))
    if nm in ('operator==', 'operator!=', 'operator<', 'operator>', 'operator<=', 'operator>='):
        a, b = s.rv(args[0]), s.rv(args[1])
        o = nm[8:]
        if isinstance(a, CStr): a = text_of(s, a)
        if isinstance(b, CStr): b = text_of(s, b)
        if isinstance(a, Str) and isinstance(b, Str):
            if o == '==': return str_eq(s, a, b)
            if o == '!=': return T.lnot(str_eq(s, a, b))
            if o == '<': return str_lt(s, a, b)
            if o == '>': return str_lt(s, b, a)
            if o == '<=': return T.lnot(str_lt(s, b, a))
            return T.lnot(str_lt(s, a, b))
        if isinstance(a, SymList) and isinstance(b, SymList) and o in ('==', '!='):
            e = True if a.ident is b.ident else T.eq(a.ident, b.ident)
            return e if o == '==' else T.lnot(e)
        if isinstance(a, LVec) and isinstance(b, LVec) and o in ('==', '!='):
            if len(a.items) != len(b.items): e = False
            else:
                e = True
                for x, y in zip(a.items, b.items):
                    e = T.land(e, str_eq(s, x, y) if isinstance(x, Str) else T.eq(x, y))
            return e if o == '==' else T.lnot(e)
        if isinstance(a, MapIt) and isinstance(b, MapIt):
            e = a.key == b.key
            return e if o == '==' else (not e)
        if isinstance(a, Ptr) and isinstance(b, Ptr): return s.ptr_arith(o, a, b)
        return NotImplemented
    if nm == 'operator+':
        a, b = s.rv(args[0]), s.rv(args[1])
        if isinstance(a, CStr): a = text_of(s, a)
        if isinstance(b, CStr): b = text_of(s, b)
        if isinstance(a, Str) and isinstance(b, Str): return a + b
        if isinstance(a, Ptr) or isinstance(b, Ptr): return s.ptr_arith('+', a, b)
        return NotImplemented
    if nm == 'operator+=':
        ref = s.ev(args[0]); a = s.load(ref)
        if isinstance(a, Str): s.put(ref, a + s.rv(args[1])); return ref
        if isinstance(a, Ptr): s.put(ref, s.ptr_arith('+', a, s.rv(args[1]))); return ref
        return NotImplemented
    if nm in ('operator++', 'operator--'):
        ref = s.ev(args[0]); a = s.load(ref)
        if isinstance(a, Ptr): s.put(ref, Ptr(a.base, T.add(a.off, 1 if nm == 'operator++' else -1))); return ref if len(args) == 1 else a
        return NotImplemented
    if nm == 'operator*' and len(args) == 1:
        a = s.rv(args[0])
        if isinstance(a, Ptr): return s.deref(a)
        return NotImplemented
    if nm == 'operator->':
        a = s.rv(args[0])
        if isinstance(a, MapIt):
            if a.key is None: s.fail('dereference of end()'); raise PathEnd()
            m = s.load(a.map); _, kv, mv = m.entries[a.key]
            return Ptr(s.alloc(Obj('pair', {'first': kv, 'second': mv})), None)
        if isinstance(a, Ptr): return a
        return NotImplemented
    return NotImplemented
