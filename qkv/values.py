"""Values of the symbolic interpreter. All immutable; the store maps roots to values."""
from . import terms as T

class Unsupported(Exception): pass

class Undef:
    """an uninitialised scalar"""
    def __repr__(s): return 'Undef'
UNDEF = Undef()

class Obj:
    __slots__ = ('cls', 'f')
    def __init__(s, cls, f): s.cls = cls; s.f = f
    def put(s, k, v):
        g = dict(s.f); g[k] = v
        return Obj(s.cls, g)
    def __getitem__(s, k): return s.f[k]
    def __repr__(s): return '%s%r' % (s.cls, s.f)

class LVec:
    """array or vector with a concrete number of elements"""
    __slots__ = ('items', 'ety')
    def __init__(s, items, ety): s.items = tuple(items); s.ety = ety
    def __repr__(s): return 'LVec%r' % (s.items,)

class AVec:
    """array or vector with a symbolic length; get: term -> value"""
    __slots__ = ('n', 'get', 'ety')
    def __init__(s, n, get, ety): s.n = n; s.get = get; s.ety = ety
    def __repr__(s): return 'AVec[%s]' % T.show(s.n)

class CVec:
    """array addressed by the coordinates of a box (row-major linear indexes are translated)"""
    __slots__ = ('lo', 'hi', 'get', 'ety')
    def __init__(s, lo, hi, get, ety): s.lo = tuple(lo); s.hi = tuple(hi); s.get = get; s.ety = ety
    @property
    def n(s):
        r = 1
        for a, b in zip(s.lo, s.hi): r = T.mul(r, T.sub(b, a))
        return r
    def __repr__(s): return 'CVec'

class SymList:
    """a std::vector of unknown length and identity; elem: term -> value"""
    __slots__ = ('ident', 'n', 'elem', 'ety', 'snoc')
    def __init__(s, ident, n, elem, ety): s.ident = ident; s.n = n; s.elem = elem; s.ety = ety; s.snoc = None
    def __repr__(s): return 'SymList(%s)' % (s.ident,)

class Str:
    """concatenation of literal pieces and opaque pieces (terms or tuples)"""
    __slots__ = ('parts',)
    def __init__(s, parts):
        out = []
        for p in parts:
            if isinstance(p, str):
                if not p: continue
                if out and isinstance(out[-1], str): out[-1] += p; continue
            out.append(p)
        s.parts = tuple(out)
    def __add__(s, o): return Str(s.parts + o.parts)
    def __repr__(s): return 'Str%r' % (s.parts,)

class Ref:
    __slots__ = ('root', 'path')
    def __init__(s, root, path=()): s.root = root; s.path = path
    def at(s, *steps): return Ref(s.root, s.path + steps)
    def idx(s, i): return Ref(s.root, s.path + (('[]', i),))
    def __eq__(s, o): return isinstance(o, Ref) and s.root == o.root and s.path == o.path
    def __hash__(s): return hash((s.root, s.path))
    def __repr__(s): return 'Ref(%s,%s)' % (s.root, s.path)

class Ptr:
    """pointer: element `off` of the array at `base` (off None: pointer to the object at base); base None: null"""
    __slots__ = ('base', 'off')
    def __init__(s, base, off): s.base = base; s.off = off
    def __repr__(s): return 'Ptr(%s+%s)' % (s.base, s.off)

class CStr:
    """const char * to the text of the string at ref (specifications: the text alone)"""
    __slots__ = ('ref', 'text')
    def __init__(s, ref, text=None): s.ref = ref; s.text = text
    def __repr__(s): return 'CStr(%s)' % (s.ref,)

class MapIt:
    __slots__ = ('map', 'key')
    def __init__(s, m, key): s.map = m; s.key = key     # key None: end()

class Doc:
    """specified content of a text file: compared up to white space"""
    def __init__(s, trace): s.trace = tuple(trace)
class Stream:
    """output trace"""
    __slots__ = ('trace',)
    def __init__(s, trace=()): s.trace = tuple(trace)

class FnVal:
    __slots__ = ('fn', 'this')
    def __init__(s, fn, this=None): s.fn = fn; s.this = this

def map_terms(v, f):
    """apply f to every term of a value"""
    if isinstance(v, Obj): return Obj(v.cls, {k: map_terms(x, f) for k, x in v.f.items()})
    if isinstance(v, LVec): return LVec([map_terms(x, f) for x in v.items], v.ety)
    if isinstance(v, AVec): return AVec(f(v.n), lambda i, g=v.get: map_terms(g(i), f), v.ety)
    if isinstance(v, CVec): return CVec([f(x) for x in v.lo], [f(x) for x in v.hi], lambda c, g=v.get: map_terms(g(c), f), v.ety)
    if isinstance(v, Str): return Str([f(p) if isinstance(p, T.Node) else p for p in v.parts])
    if isinstance(v, Ptr): return Ptr(map_ref(v.base, f) if v.base is not None else None, f(v.off) if v.off is not None else None)
    if isinstance(v, Ref): return map_ref(v, f)
    if isinstance(v, (T.Node, int, T.Fraction)): return f(v)
    return v
def map_ref(r, f): return Ref(r.root, tuple(('[]', f(s[1])) if isinstance(s, tuple) else s for s in r.path))
def leaves(v, acc):
    """all terms in a value (arrays excluded)"""
    if isinstance(v, Obj):
        for x in v.f.values(): leaves(x, acc)
    elif isinstance(v, LVec):
        for x in v.items: leaves(x, acc)
    elif isinstance(v, Str): acc.extend(p for p in v.parts if isinstance(p, T.Node))
    elif isinstance(v, Ptr):
        if v.off is not None: acc.append(v.off)
        if v.base is not None: leaves(v.base, acc)
    elif isinstance(v, Ref): acc.extend(s[1] for s in v.path if isinstance(s, tuple))
    elif isinstance(v, (T.Node, int, T.Fraction)): acc.append(v)
    return acc
def val_ite(c, a, b):
    if a is b: return a
    if isinstance(c, bool): return a if c else b
    if isinstance(a, Obj) and isinstance(b, Obj): return Obj(a.cls, {k: val_ite(c, a.f[k], b.f[k]) for k in a.f})
    if isinstance(a, LVec) and isinstance(b, LVec) and len(a.items) == len(b.items): return LVec([val_ite(c, x, y) for x, y in zip(a.items, b.items)], a.ety)
    if isinstance(a, (Undef,)) or isinstance(b, (Undef,)): return UNDEF if a is b else Unk('ite')
    if isinstance(a, (T.Node, int, T.Fraction)) and isinstance(b, (T.Node, int, T.Fraction)): return T.ite(c, a, b)
    return Unk('ite')
class Unk:
    """a value the engine gives up on; using it is Unsupported"""
    def __init__(s, why): s.why = why
    def __repr__(s): return 'Unk(%s)' % s.why
