"""Function-by-function verification: code against contract, from an arbitrary state satisfying the precondition.

A contract is a specification function on the abstract state (`spec(run, this, args) -> result`, may raise Throw).
At a call site the specification replaces the callee. When the function itself is verified, specification and code
are run from the same symbolic pre-state along every path and every part of the two post-states, the results and the
kind of exit are compared: each comparison is one obligation.
"""
import time, traceback
from fractions import Fraction
from . import numeric, terms as T, smt
from .terms import Node
from .values import *
from .frontend import simple, simple_t, ExtractionError
from .interp import Run, Throw, Return, PathEnd, Obligation, Frame
from .builtins import MapV

ANY = Unk('unspecified')        # specification value: not specified

class Check:
    """specification value: fn(run, code value, label) generates the obligations on the code's value"""
    def __init__(s, fn): s.fn = fn

class Contract:
    def __init__(s, key, spec, doc='', kind='contract'):
        s.key = key; s.spec = spec; s.doc = doc; s.kind = kind
    def apply(s, run, this, args): return s.spec(run, this, args)
    def __repr__(s): return s.key

class Registry:
    def __init__(s): s.contracts = {}; s.tasks = {}; s.byprop = {}
    def contract(s, key, doc='', kind='contract'):
        def deco(f):
            c = Contract(key, f, doc or (f.__doc__ or ''), kind); s.contracts[key] = c; return f
        return deco
    def task(s, key, setup, cfg='', props=(), **kw):
        t = Task(key, setup, cfg, props, **kw)
        s.tasks.setdefault(key, []).append(t)
        for p in props: s.byprop.setdefault(p, []).append(t)
        return t
    def lemma(s, name, f, props=()):
        t = Task('lemma: ' + name, None, '', props, lemma=f)
        for p in props: s.byprop.setdefault(p, []).append(t)
        return t

class Task:
    def __init__(s, key, setup, cfg='', props=(), lemma=None, spec=None, noctr=(), max_paths=4000, pin=None, also=(), pick=None):
        s.pick = pick
        s.key = key; s.setup = setup; s.cfg = cfg; s.props = tuple(props); s.lemma = lemma; s.spec = spec; s.noctr = noctr; s.max_paths = max_paths; s.also = also
    @property
    def name(s): return s.key + (' [' + s.cfg + ']' if s.cfg else '')

class Result:
    def __init__(s, task):
        s.task = task; s.obs = []; s.error = None; s.kind = None; s.paths = 0; s.used = set(); s.inlined = set(); s.assumed = set(); s.rules = set(); s.time = 0; s.rejected = 0
    @property
    def status(s):
        if any(o.status == 'refuted' for o in s.obs): return 'refuted'
        if s.error: return 'unsupported'
        if any(o.status == 'unknown' for o in s.obs): return 'unknown'
        return 'proved'

INTERP = ('sqrt', 'sin', 'cos', 'tan', 'exp', 'tanh', 'cosh', 'sinh', 'log', 'pow')

def same_term(s, a, b, label):
    sa, sb = T.sort_of(a), T.sort_of(b)
    if sa != sb:
        if {sa, sb} == {'I', 'R'}: a, b = T.to_real(a), T.to_real(b); sa = 'R'
        elif {sa, sb} == {'B', 'I'}: a, b = (T.to_int(x) if T.sort_of(x) == 'B' else x for x in (a, b)); sa = 'I'
        else: s.fail(label, 'sorts differ'); return
    if sa == 'R':
        if smt.real_eq(a, b, s.hyp()):
            s.obs.append(Obligation(label, 'proved', '', s.name)); return
        d = T.sub(a, b)
        interp = T.contains(d, lambda x: x.op == 'app' and x.args[0] in INTERP) if isinstance(d, Node) else False
        m = None
        interp = interp or any(numeric.has_interp(h) for h in s.hyp())
        if not interp: m = smt.model(s.hyp() + [T.ne(a, b)], 5.0)
        if m is None: m = numeric.differ(a, b, s.hyp())
        s.obs.append(Obligation(label, 'refuted' if m is not None else 'unknown', 'code: %s\nspec: %s\npath: %s\nmodel: %s' % (T.show(a, 12)[:1500], T.show(b, 12)[:1500], '; '.join(T.show(x, 7) for x in s.pc)[:1500], str(m)[:1500]), s.name))
        return
    if sa == 'B': s.oblige(T.iff(a, b), label)
    else: s.oblige(T.eq(a, b), label)

def compare(s, a, b, label, seen=None):
    """a: code, b: specification"""
    if b is ANY: return
    if isinstance(b, Check): return b.fn(s, a, label)
    if a is b: s.obs.append(Obligation(label, 'proved', '', s.name)); return
    if isinstance(a, Unk): raise Unsupported('%s: %s' % (label, a.why))
    if isinstance(b, Unk): raise Unsupported('%s: spec %s' % (label, b.why))
    if isinstance(a, Undef) and isinstance(b, Undef): return
    if isinstance(a, Undef): return s.fail(label, 'uninitialised')
    if isinstance(b, Undef): raise Unsupported(label + ': specification leaves it uninitialised')
    if isinstance(a, (int, Fraction, Node)) and isinstance(b, (int, Fraction, Node)): return same_term(s, a, b, label)
    if isinstance(b, Obj):
        if not isinstance(a, Obj): raise Unsupported(label + ': object expected')
        fb = {k: v for k, v in b.f.items() if not k.startswith('ghost')}; fa = {k for k in a.f if not k.startswith('ghost')}
        if not fb and b.f and (a.cls != b.cls or a.f != b.f): raise Unsupported(label + ': nothing to compare')
        if set(fb) != fa: raise Unsupported('%s: representation of %s changed (%s)' % (label, b.cls, sorted(set(fb) ^ fa)))
        if a.cls != b.cls: return s.fail(label, 'class %s, expected %s' % (a.cls, b.cls))
        for k in fb: compare(s, a.f[k], fb[k], label + '.' + k)
        return
    if isinstance(b, (LVec, AVec, CVec, SymList)) and isinstance(a, (LVec, AVec, CVec, SymList)): return same_vec(s, a, b, label)
    if isinstance(b, CStr) and (isinstance(a, CStr) or isinstance(a, Str)):
        if isinstance(a, CStr):
            if a.ref.root not in s.cmp_roots: return s.fail(label, 'points into a string that does not outlive the call')
            a = s._get(s.cmp_code[a.ref.root], a.ref.path, a.ref)
        return compare(s, a, b.text, label + ' text')
    if isinstance(b, Str) and isinstance(a, Str): return same_trace(s, a.parts, b.parts, label)
    if isinstance(b, Doc) and isinstance(a, Stream): return same_document(s, a.trace, b.trace, label)
    if isinstance(b, Stream) and isinstance(a, Stream): return same_trace(s, a.trace, b.trace, label)
    if isinstance(b, Ptr) and isinstance(a, Ptr):
        if a.base is None or b.base is None:
            if a.base is None and b.base is None: return
            return s.fail(label, 'null pointer')
        if a.base.root.startswith('new_') and b.base.root.startswith('new_') and a.base.root != b.base.root:
            if not bij(s, a.base.root, b.base.root): return s.fail(label, 'points to another object than specified')
            return compare(s, s._get(s.cmp_code[a.base.root], a.base.path, a.base), s._get(s.cmp_spec[b.base.root], b.base.path, b.base), label + '->')
        if a.off is None and b.off is not None or a.off is not None and b.off is None: raise Unsupported(label + ': pointer kind')
        compare(s, a.base, b.base, label)
        if a.off is not None: same_term(s, a.off, b.off, label)
        return
    if isinstance(b, Ref) and isinstance(a, Ref):
        if a.root.startswith('new_') and b.root.startswith('new_') and a.path == b.path:
            if not bij(s, a.root, b.root): return s.fail(label, 'refers to another object than specified')
            return compare(s, s._get(s.cmp_code[a.root], a.path, a), s._get(s.cmp_spec[b.root], b.path, b), label + '->')
        if a.root != b.root or len(a.path) != len(b.path): return s.fail(label, 'refers to %s, expected %s' % (a, b))
        for x, y in zip(a.path, b.path):
            if isinstance(x, tuple) and isinstance(y, tuple) and x[0] == y[0]:
                if x[1] is not y[1]: same_term(s, x[1], y[1], label)
            elif x != y: return s.fail(label, 'refers to %s, expected %s' % (a, b))
        s.obs.append(Obligation(label, 'proved', '', s.name))
        return
    if isinstance(b, MapV) and isinstance(a, MapV):
        if len(a.entries) != len(b.entries): return s.fail(label, 'number of entries')
        if a.rest is not b.rest: return s.fail(label, 'other entries')
        for (i, k, v), (j, l, w) in zip(a.entries, b.entries):
            compare(s, k, l, label + ' key'); compare(s, v, w, label + ' value')
        return
    raise Unsupported('%s: comparing %s with %s' % (label, type(a).__name__, type(b).__name__))

def bij(s, a, b):
    """objects created by the code and by the specification correspond one to one"""
    m = s.cmp_new
    if a in m or b in m.values(): return m.get(a) == b
    m[a] = b
    return True
def vlen(v): return len(v.items) if isinstance(v, LVec) else v.n
def at(s, v, i, c=None):
    if isinstance(v, LVec):
        k = s.conc(i, len(v.items))
        return v.items[k]
    if isinstance(v, CVec):
        if c is None: c = s.coords(v, i)
        return v.get(c)
    if isinstance(v, SymList): return v.elem(i)
    return v.get(i)
def same_vec(s, a, b, label):
    if isinstance(a, LVec) and isinstance(b, LVec):
        if len(a.items) != len(b.items): return s.fail(label, 'length %d, expected %d' % (len(a.items), len(b.items)))
        for k, (x, y) in enumerate(zip(a.items, b.items)): compare(s, x, y, '%s[%d]' % (label, k))
        return
    if isinstance(a, SymList) and isinstance(b, SymList):
        if a.ident is b.ident: return
        if a.snoc and b.snoc:
            same_vec(s, a.snoc[0], b.snoc[0], label); return compare(s, a.snoc[1], b.snoc[1], label + ' appended element')
        if b.snoc or a.snoc:
            v, w = (a, b) if a.snoc else (b, a)          # a list and one that extends it
            while v.snoc: v = v.snoc[0]
            while w.snoc: w = w.snoc[0]
            if v.ident is w.ident: return s.fail(label, 'lists of different lengths')
        raise Unsupported(label + ': lists')
    if isinstance(a, CVec) and isinstance(b, CVec):
        if len(a.lo) != len(b.lo): return s.fail(label, 'shape')
        for x, y in zip(a.lo + a.hi, b.lo + b.hi):
            if x is not y: same_term(s, x, y, label + ' shape')
        c = tuple(s.fresh('x%d' % i, 'I') for i in range(len(a.lo)))
        k = len(s.pc)
        s.pc.extend(T.land(T.le(p, x), T.lt(x, q)) for p, q, x in zip(a.lo, a.hi, c))
        compare(s, a.get(c), b.get(c), label + '[*]')
        del s.pc[k:]
        return
    same_term(s, vlen(a), vlen(b), label + ' length')
    n = vlen(b)
    if isinstance(a, LVec) or isinstance(b, LVec):
        for k in range(len(a.items if isinstance(a, LVec) else b.items)): compare(s, at(s, a, k), at(s, b, k), '%s[%d]' % (label, k))
        return
    k = len(s.pc)
    if isinstance(a, CVec) or isinstance(b, CVec):
        v = a if isinstance(a, CVec) else b
        c = tuple(s.fresh('x%d' % i, 'I') for i in range(len(v.lo)))
        s.pc.extend(T.land(T.le(p, x), T.lt(x, q)) for p, q, x in zip(v.lo, v.hi, c))
        i = s.lin(v.lo, v.hi, c)
    else:
        c = None
        i = s.fresh('i', 'I'); s.pc.append(T.land(T.le(0, i), T.lt(i, n)))
        h = getattr(s, 'index_hints', None)
        if h: s.pc.extend(h(i))
    compare(s, at(s, a, i, c), at(s, b, i, c), label + '[*]')
    del s.pc[k:]

def same_trace(s, a, b, label):
    if len(a) != len(b): return s.fail(label, 'code writes %s\nspecified %s' % (show_trace(a), show_trace(b)))
    for x, y in zip(a, b):
        if x is y: continue
        if isinstance(x, str) or isinstance(y, str):
            if x != y: return s.fail(label, 'code writes %s\nspecified %s' % (show_trace(a), show_trace(b)))
        elif isinstance(x, tuple) and isinstance(y, tuple) and x[0] == y[0] == 'num': compare(s, x[1], y[1], label + ' number')
        elif isinstance(x, tuple) and isinstance(y, tuple) and x[0] == y[0] == 'loop':
            same_term(s, x[2], y[2], label + ' repetitions')
            t = x[1]; m = {y[1]: t}
            k = len(s.pc); s.pc.append(T.land(T.le(0, t), T.lt(t, x[2])))
            same_trace(s, x[3], sub_trace(y[3], m), label)
            del s.pc[k:]
        elif isinstance(x, Node) and isinstance(y, Node): same_term(s, x, y, label)
        elif x == y: pass
        else: return s.fail(label, 'code writes %s\nspecified %s' % (show_trace(a), show_trace(b)))
    s.obs.append(Obligation(label, 'proved', '', s.name))
def same_document(s, a, b, label):
    """two texts up to white space; only numbers are compared by proof, another difference leaves the question open"""
    def norm(tr):
        out = []
        for x in tr:
            if isinstance(x, str): x = ' '.join(('|' + x + '|').split())[1:-1] if x.strip() else ' '
            if isinstance(x, tuple) and x[0] == 'loop': x = ('loop', x[1], x[2], norm(x[3]))
            out.append(x)
        while out and isinstance(out[-1], str) and not out[-1].strip(): out.pop()
        return tuple(out)
    def shape(a, b):
        if len(a) != len(b): raise Unsupported('%s: other text\ncode writes %s\nspecified %s' % (label, show_trace(a), show_trace(b)))
        for x, y in zip(a, b):
            if isinstance(x, str) and isinstance(y, str) and x.strip() == y.strip(): continue
            if isinstance(x, tuple) and isinstance(y, tuple) and x[0] == y[0]:
                if x[0] == 'loop': shape(x[3], y[3])
                continue
            if isinstance(x, Node) and isinstance(y, Node): continue
            raise Unsupported('%s: other text\ncode writes %s\nspecified %s' % (label, show_trace(a), show_trace(b)))
    a, b = norm(a), norm(b)
    shape(a, b)
    strip = lambda tr: tuple(x.strip() if isinstance(x, str) else ('loop', x[1], x[2], strip(x[3])) if isinstance(x, tuple) and x[0] == 'loop' else x for x in tr)
    same_trace(s, strip(a), strip(b), label)
def sub_trace(tr, m):
    out = []
    for x in tr:
        if isinstance(x, tuple) and x[0] == 'num': out.append(('num', T.subst(x[1], m) if isinstance(x[1], Node) else x[1]))
        elif isinstance(x, tuple) and x[0] == 'loop': out.append(('loop', x[1], T.subst(x[2], m) if isinstance(x[2], Node) else x[2], sub_trace(x[3], m)))
        elif isinstance(x, Node): out.append(T.subst(x, m))
        else: out.append(x)
    return tuple(out)
def show_trace(tr):
    return ' '.join(repr(x) if isinstance(x, str) else ('<%s>' % T.show(x[1], 6) if x[0] == 'num' else '{%s x %s}' % (T.show(x[2]), show_trace(x[3]))) if isinstance(x, tuple) else T.show(x) for x in tr)[:1500]

def compare_stores(s, code, spec, roots, label):
    s.cmp_code, s.cmp_spec = code, spec; s.cmp_roots = set(roots)
    keep = s.store
    for r in roots:
        if code[r] is spec[r]:
            continue
        s.store = code
        compare(s, code[r], spec[r], label + ': ' + r)
    s.store = keep

def verify(prog, contracts, task, deadline=None):
    res = Result(task)
    t0 = time.time()
    s = Run(prog, contracts, task.name)
    s.deadline = deadline
    try:
        if task.lemma is not None:
            s.explore(lambda s: task.lemma(s), task.max_paths)
        else:
            c = contracts.get(task.key)
            spec = task.spec or c.spec
            s.noctr = {c} | {contracts[k] for k in task.noctr if k in contracts}
            fn = lookup(prog, task.key, task.pick)
            s.explore(lambda s: one_path(s, fn, spec, task), task.max_paths)
            if not s.obs: raise Unsupported('no obligation was generated (precondition unsatisfiable?)')
    except Unsupported as e: res.error = 'unsupported: ' + str(e)
    except ExtractionError as e: res.error = 'extraction: ' + str(e)
    except (KeyError, AttributeError, TypeError, IndexError, RecursionError, ValueError, AssertionError, OverflowError) as e:
        res.error = 'engine: %s: %s at %s' % (type(e).__name__, e, traceback.format_exc().strip().split('\n')[-3].strip())
    res.obs = s.obs; res.paths = s.paths; res.used = {c.key for c in s.used}; res.inlined = s.inlined; res.assumed = s.assumed; res.rules = s.rules
    res.time = time.time() - t0
    return res

def lookup(prog, key, pick=None):
    name, rest = key.split('(', 1)
    const = rest.endswith(') const')
    ps = rest[:rest.rindex(')')]
    from .frontend import split_args
    want = split_args(ps)
    c = [f for f in prog.find(name, want) if f.const == const] or prog.find(name, want)
    c = [f for f in c if f.body is not None] or c
    if not c and '::' not in name:
        for f in ('lib/range.cpp',):
            tu = prog.tus.get(f)
            if tu is None: continue
            sub = prog.fetch_global(tu, name) or prog.tus.get(f + '#' + name)
            c = [g for g in sub.fns.values() if g.name == name and [simple_t(p) for p in g.ptypes] == want and g.body is not None]
            if c: break
    if pick: c = [f for f in c if pick(f)]
    if not c: raise ExtractionError('function %s not found' % key)
    return c[0]

def one_path(s, fn, spec, task):
    s.frames.append(Frame(fn, None))            # context for building the pre-state
    s.cmp_new = {}
    this, args = task.setup(s)
    s.frames.pop()
    ctor = fn.kind == 'CXXConstructorDecl'
    roots = [r for r in s.store]
    pre = dict(s.store); gh0 = dict(s.ghost)
    s.inspec = 1
    s.frames.append(Frame(fn, this))
    sr = None; sx = None
    try: sr = spec(s, this, list(args))
    except Throw as e: sx = e
    s.frames.pop()
    s.inspec = 0
    specstore = s.store; gh_spec = s.ghost
    s.store = dict(pre); s.ghost = dict(gh0)
    cr = None; cx = None
    try:
        if ctor: s.run_ctor(fn, this, list(args))
        else: cr = s.run_fn(fn, this, list(args))
    except Throw as e: cx = e
    if (sx is None) != (cx is None):
        s.fail('exit', 'the code %s, specified: %s' % ('throws' if cx else 'returns', 'throw' if sx else 'return')); return
    if sx is not None:
        if sx.cls is not None and simple(sx.cls) != simple(cx.cls): s.fail('exception type', '%s, specified %s' % (cx.cls, sx.cls))
        else: s.obs.append(Obligation('exit', 'proved', '', s.name))
    for r in roots:
        for st in (s.store, specstore):
            pass
    compare_stores(s, s.store, specstore, roots, 'post')
    for k in set(gh_spec) | set(s.ghost):
        if isinstance(k, str) and k.startswith('spec_'): compare(s, s.ghost.get(k), gh_spec.get(k), 'ghost ' + k)
    if sx is None:
        if sr is None and not ctor and cr is not None: raise Unsupported('specification has no result')
        if sr is not None and cr is None: raise Unsupported('code has no result')
        if sr is not None and cr is not None:
            s.cmp_code, s.cmp_spec = s.store, specstore
            if isinstance(cr, Ref) and not isinstance(sr, Ref): cr = s.load(cr)
            elif isinstance(sr, Ref) and not isinstance(cr, Ref): sr = s._get(specstore[sr.root], sr.path, sr)
            compare(s, cr, sr, 'result')
    s.obs.append(Obligation('exit', 'proved', '', s.name))
